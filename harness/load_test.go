package harness

import (
	"encoding/json"
	"errors"
	"fmt"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
)

// ---------------------------------------------------------------- sources

// genSource draws a nested document: maps, slices (10+ elements at times),
// scalars, nil, empty maps, dotted keys.
func genSource(t *rapid.T, g *KeyGen, depth int, rich bool) Val {
	v := Val{K: "map", M: map[string]Val{}}
	if rapid.IntRange(0, 60).Draw(t, "wide?") == 0 {
		for i := rapid.IntRange(20, 110).Draw(t, "wide"); i > 0; i-- {
			v.M["w"+strconv.Itoa(i)] = vInt(i)
		}
	}
	for i := rapid.IntRange(0, 5).Draw(t, "width"); i > 0; i-- {
		k := g.Seg(t)
		if rich && rapid.IntRange(0, 9).Draw(t, "dotted") == 0 {
			k = k + g.Delim + g.Seg(t)
		}
		v.M[k] = genSourceVal(t, g, depth, rich)
	}
	return v
}

// listLen is mostly one of the given lengths, now and then one of three digits.
func listLen(t *rapid.T, usual ...int) int {
	if rapid.IntRange(0, 15).Draw(t, "long list") == 0 {
		return rapid.IntRange(98, 130).Draw(t, "len")
	}
	return rapid.SampledFrom(usual).Draw(t, "len")
}

func genSourceVal(t *rapid.T, g *KeyGen, depth int, rich bool) Val {
	if depth > 0 {
		switch rapid.IntRange(0, 7).Draw(t, "shape") {
		case 0, 1:
			return genSource(t, g, depth-1, rich)
		case 2:
			n := listLen(t, 0, 1, 2, 3, 10, 11, 13)
			v := Val{K: "[]any", L: []Val{}}
			for i := 0; i < n; i++ {
				if i < 3 {
					v.L = append(v.L, genSourceVal(t, g, depth-1, rich))
				} else {
					v.L = append(v.L, vInt(i))
				}
			}
			return v
		case 3:
			v := Val{K: "[]map", L: []Val{}}
			for i := rapid.IntRange(0, 2).Draw(t, "len"); i > 0; i-- {
				v.L = append(v.L, genSource(t, g, depth-1, rich))
			}
			if rapid.IntRange(0, 3).Draw(t, "long") == 0 {
				for n := listLen(t, 10, 11, 12); len(v.L) < n; {
					v.L = append(v.L, Val{K: "map", M: map[string]Val{g.Seg(t): vInt(len(v.L))}})
				}
			}
			if rich && rapid.IntRange(0, 2).Draw(t, "any keys") == 0 {
				v.K = "[]mapany"
				for i := range v.L {
					v.L[i].K = "mapany"
				}
			}
			return v
		case 6:
			if rich {
				return Val{K: "pack", S: genMeta(t), L: []Val{genScalar(t, "leaf")}}
			}
		case 4:
			if rich {
				m := genSource(t, g, depth-1, rich)
				m.K = "mapany"
				return m
			}
		case 5:
			if rich {
				m := Val{K: "mapint", M: map[string]Val{}}
				for i := rapid.IntRange(0, 3).Draw(t, "n"); i > 0; i-- {
					m.M[rapid.SampledFrom([]string{"0", "1", "2", "5", "7", "10", "11", "20", "true", "false", "-1", "-7", "-128", "-1000", "150", "65535", "70000", "named"}).Draw(t, "ik")] = genScalar(t, "leaf")
				}
				return m
			}
		}
	}
	return genScalar(t, "leaf")
}

// flatSource flattens, and tells if two entries of the source compete for a key.
func flatSource(at, d string, m map[string]any, slices bool) (flat map[string]any, clash bool) {
	flat = map[string]any{}
	flatten(at, d, m, slices, func(k string, v any) {
		if _, dup := flat[k]; dup {
			clash = true
		}
		flat[k] = v
	})
	return
}

// eachPack visits the value packs inside of a source, those in slices which are kept whole excepted.
func eachPack(m *Model, p string, v Val, slices bool, f func(key string, v Val)) {
	switch v.K {
	case "map", "mapany", "mapint":
		for k, x := range v.M {
			eachPack(m, m.join(p, k), x, slices, f)
		}
	case "[]any", "[]map", "[]mapany":
		for i, x := range v.L {
			if slices {
				eachPack(m, m.join(p, strconv.Itoa(i)), x, slices, f)
			}
		}
	case "pack":
		f(p, v)
	}
}

// applyPacks gives the keys of the value packs their description, comment and tag.
func applyPacks(m *Model, at string, v Val, slices bool) {
	eachPack(m, at, v, slices, func(k string, v Val) {
		if e := m.M[k]; e != nil && v.S != "" {
			e.Desc, e.Comment, e.Tag = v.S, v.S+" comment", v.S+" tag"
		}
	})
}

// hasPack tells if the value is, or holds, a value pack.
func hasPack(v Val) bool {
	for _, x := range v.L {
		if hasPack(x) {
			return true
		}
	}
	for _, x := range v.M {
		if hasPack(x) {
			return true
		}
	}
	return v.K == "pack"
}

// ---------------------------------------------------------------- C09

type c09 struct {
	Hist
	Flat   bool   `json:"flat"` // slices are flattened, too
	Prefix string `json:"prefix,omitempty"`
	Merges []struct {
		At string `json:"at,omitempty"`
		V  Val    `json:"v"`
	} `json:"merges"`
}

func TestC09(t *testing.T) {
	Check(t, "C09", func(t *rapid.T) c09 {
		h := c09{Hist: genHist(t, HistOpts{
			Ops: []string{"set", "set", "comment", "tag", "remove"},
			Min: 0, Max: 8, Delims: true, Val: genScalar,
		})}
		h.Flat = rapid.Bool().Draw(t, "flat")
		if h.Kind == "trie" {
			h.Flat = true // always
		}
		g := newKeyGen(t, h.Delim)
		for _, op := range h.Ops {
			g.Seen = append(g.Seen, op.K)
		}
		if rapid.IntRange(0, 2).Draw(t, "pfx") == 0 {
			h.Prefix = g.Path(t)
		}
		for i := rapid.IntRange(1, 3).Draw(t, "nmerge"); i > 0; i-- {
			at := ""
			if rapid.Bool().Draw(t, "at") {
				at = g.Path(t)
			}
			v := genSource(t, g, 3, h.Kind == "store")
			h.Merges = append(h.Merges, struct {
				At string `json:"at,omitempty"`
				V  Val    `json:"v"`
			}{at, v})
		}
		return h
	}, func(c *Ctx, h c09) {
		w := newWorld(c, h.Kind, h.Delim)
		if h.Kind == "store" && h.Flat {
			w.S = newSUT("store", h.Delim, store.WithFlattenSlice(true))
			w.Views[0] = w.S
		}
		defer w.S.Close()
		for _, op := range h.Ops {
			w.Apply(op)
		}
		s := w.S
		if h.Prefix != "" {
			s = w.S.WithPrefix(h.Prefix)
		}
		before := len(w.M.M)
		nested, merged, nils, packs := false, 0, false, false
		for _, mg := range h.Merges {
			src := mg.V.Any().(map[string]any)
			flat, clash := flatSource(w.M.join(h.Prefix, mg.At), h.Delim, src, h.Flat)
			if clash {
				return // the outcome depends on the order of a Go map
			}
			for k, v := range flat {
				w.M.set(k, v)
				merged++
				nils = nils || v == nil
			}
			applyPacks(w.M, w.M.join(h.Prefix, mg.At), mg.V, h.Flat)
			packs = packs || hasPack(mg.V)
			for _, v := range mg.V.M {
				nested = nested || v.K == "map" && len(v.M) > 0
			}
			if err := s.Merge(mg.At, src); err != nil {
				c.Failf("Merge(%q) failed: %v", mg.At, err)
			}
			if !eq(src, mg.V.Any()) {
				c.Failf("Merge(%q) changed the caller's map", mg.At)
			}
		}
		w.checkReads(w.S, "", nil)
		w.checkEnum(w.S)
		w.checkMeta(w.S)
		w.checkHas(w.S, "", nil)
		c.NT(merged > 1 && nested)
		c.Label(before > 0, "into existing keys")
		c.Label(nested, "nested")
		c.Label(h.Prefix != "", "through a prefixed view")
		c.Label(nils, "nil values")
		c.Label(packs, "value packs inside")
		c.Label(h.Flat, "flatten slices")
	})
}

// ---------------------------------------------------------------- a provider owned by the harness

type memProvider struct {
	data  map[string]store.ValPkg // Read
	bytes []byte                  // ReadBytes
	rerr  error                   // what Read reports
	berr  error
	codec store.Codec
	pos   string
	wrote [][]byte
	werr  error
}

func (p *memProvider) Read() (map[string]store.ValPkg, error) { return p.data, p.rerr }
func (p *memProvider) ReadBytes() ([]byte, error)             { return p.bytes, p.berr }
func (p *memProvider) Write(b []byte) error {
	if p.werr != nil {
		return p.werr
	}
	p.wrote = append(p.wrote, append([]byte(nil), b...))
	return nil
}
func (p *memProvider) GetCodec() store.Codec   { return p.codec }
func (p *memProvider) GetPosition() string     { return p.pos }
func (p *memProvider) WithCodec(c store.Codec) { p.codec = c }
func (p *memProvider) WithPosition(s string)   { p.pos = s }

// streamProvider hands over its items one by one.
type streamProvider struct {
	p    *memProvider
	keys []string
	pos  int
}

func (p *streamProvider) Read() (map[string]store.ValPkg, error) {
	return nil, p.p.rerr
}
func (p *streamProvider) GetCodec() store.Codec   { return p.p.codec }
func (p *streamProvider) GetPosition() string     { return p.p.pos }
func (p *streamProvider) WithCodec(c store.Codec) { p.p.codec = c }
func (p *streamProvider) WithPosition(s string)   { p.p.pos = s }
func (p *streamProvider) Keys() ([]string, error) { return p.keys, nil }
func (p *streamProvider) Count() int              { return len(p.keys) }
func (p *streamProvider) Has(k string) bool       { _, ok := p.p.data[k]; return ok }
func (p *streamProvider) Next() (string, bool) {
	if p.pos >= len(p.keys) {
		return "", true
	}
	p.pos++
	return p.keys[p.pos-1], false
}
func (p *streamProvider) Value(k string) (any, bool) { v, ok := p.p.data[k]; return v.Value, ok }
func (p *streamProvider) MustValue(k string) any     { return p.p.data[k].Value }

// memCodec is a codec that hands over prepared Go values.
type memCodec struct {
	m    map[string]any
	err  error
	last map[string]any
	enc  error
}

func (m *memCodec) Marshal(x map[string]any) ([]byte, error) {
	m.last = x
	return []byte("encoded"), m.enc
}
func (m *memCodec) Unmarshal(b []byte) (map[string]any, error) { return m.m, m.err }

var errInjected = errors.New("injected")

type meta struct {
	D string `json:"d,omitempty"`
	C string `json:"c,omitempty"`
	T string `json:"t,omitempty"`
}

// load describes one Load call.
type load struct {
	How   string          `json:"how"` // read | bytes | codec-on-provider | json
	At    string          `json:"at,omitempty"`
	Flat  bool            `json:"flat,omitempty"`
	V     Val             `json:"v"`
	Meta  map[string]meta `json:"meta,omitempty"`  // by top-level key (how=read)
	Wrap  bool            `json:"wrap,omitempty"`  // the errors of the provider are wrapped ones
	Nils  bool            `json:"nils,omitempty"`  // with options which are nil
	Codec bool            `json:"codec,omitempty"` // with a codec there is no use for
}

func genLoad(t *rapid.T, g *KeyGen, rich bool) load {
	l := load{How: rapid.SampledFrom([]string{"read", "read", "bytes", "codec-on-provider", "json", "stream"}).Draw(t, "how")}
	if rapid.Bool().Draw(t, "at?") {
		l.At = g.Path(t)
	}
	l.Flat = rapid.Bool().Draw(t, "flat")
	l.Wrap, l.Nils = rapid.Bool().Draw(t, "wrap"), rapid.IntRange(0, 3).Draw(t, "nils") == 0
	l.Codec = l.How == "read" && rapid.IntRange(0, 3).Draw(t, "codec") == 0
	if l.How == "json" {
		l.V = genJSONDoc(t, g, 3)
	} else if l.How == "stream" { // item by item, the keys in full
		l.V = Val{K: "map", M: map[string]Val{}}
		for i := rapid.IntRange(0, 6).Draw(t, "items"); i > 0; i-- {
			l.V.M[g.Key(t)] = genScalar(t, "item")
		}
	} else {
		l.V = genSource(t, g, 3, rich)
		l.At = graft(t, g, l.At, &l.V)
	}
	if l.How == "read" {
		l.Meta = map[string]meta{}
		for k := range l.V.M {
			_ = k
		}
		for _, k := range sortedKeys(l.V.M) {
			if rapid.Bool().Draw(t, "meta?") {
				l.Meta[k] = meta{genMeta(t), genMeta(t), genMeta(t)}
			}
		}
	}
	return l
}

// genJSONDoc draws a document JSON can carry unchanged.
func genJSONDoc(t *rapid.T, g *KeyGen, depth int) Val {
	v := Val{K: "map", M: map[string]Val{}}
	for i := rapid.IntRange(0, 5).Draw(t, "width"); i > 0; i-- {
		v.M[g.Seg(t)] = genJSONVal(t, g, depth)
	}
	return v
}

func genJSONVal(t *rapid.T, g *KeyGen, depth int) Val {
	if depth > 0 {
		switch rapid.IntRange(0, 5).Draw(t, "shape") {
		case 0, 1:
			return genJSONDoc(t, g, depth-1)
		case 2:
			v := Val{K: "[]any", L: []Val{}}
			for i := listLen(t, 0, 1, 2, 3, 12); i > 0; i-- {
				if i < 3 {
					v.L = append(v.L, genJSONVal(t, g, depth-1))
				} else {
					v.L = append(v.L, vFloat(float64(i)))
				}
			}
			return v
		}
	}
	switch rapid.IntRange(0, 4).Draw(t, "leaf") {
	case 0:
		return vStr(genText(t, "s"))
	case 1:
		return vBool(rapid.Bool().Draw(t, "b"))
	case 2:
		return vFloat(genFloat(t, "f"))
	case 3:
		return vNil()
	default:
		return vFloat(float64(rapid.IntRange(-1000, 1000).Draw(t, "i")))
	}
}

// options builds the provider and the options of a Load call.
func (l load) options() (opts []store.LoadOpt, p *memProvider) {
	p = &memProvider{rerr: store.ErrNotImplemented}
	if l.Wrap {
		p.rerr = fmt.Errorf("reading a map: %w", store.ErrNotImplemented)
	}
	src := l.V.Any().(map[string]any)
	switch l.How {
	case "read":
		p.rerr = nil
		p.data = map[string]store.ValPkg{}
		for k, v := range src {
			m := l.Meta[k]
			pk := store.ValPkg{Value: v, Desc: m.D, Comment: m.C}
			if m.T != "" {
				pk.Tag = m.T
			}
			p.data[k] = pk
		}
		if l.Codec {
			opts = append(opts, store.WithCodec(&memCodec{m: map[string]any{"decoded": 1}}))
		}
	case "bytes":
		p.bytes = []byte("x")
		opts = append(opts, store.WithCodec(&memCodec{m: src}))
	case "codec-on-provider":
		p.bytes = []byte("x")
		p.codec = &memCodec{m: src}
	case "json": // no codec: the loader falls back to json
		b, err := json.Marshal(src)
		must(err)
		p.bytes = b
	}
	if l.How == "stream" {
		p.data = map[string]store.ValPkg{}
		for k, v := range src {
			p.data[k] = store.ValPkg{Value: v}
		}
		opts = append(opts, store.WithProvider(&streamProvider{p: p, keys: sortedKeys(p.data)}))
	} else {
		opts = append(opts, store.WithProvider(p))
	}
	if l.Nils {
		opts = append([]store.LoadOpt{nil}, append(opts, nil)...)
	}
	if l.At != "" {
		opts = append(opts, store.WithStorePrefix(l.At))
	}
	opts = append(opts, store.WithStoreFlattenSlice(l.Flat))
	return
}

// apply plays a Load on the model; false if its outcome is not determined.
func (l load) apply(m *Model) (flat map[string]any, ok bool) {
	flat, clash := flatSource(l.At, m.D, l.V.Any().(map[string]any), l.Flat)
	if clash {
		return nil, false
	}
	for k, v := range flat {
		m.set(k, v)
	}
	inPack := map[string]bool{}
	eachPack(m, l.At, l.V, l.Flat, func(k string, _ Val) { inPack[k] = true })
	for top, mt := range l.Meta {
		sub, _ := flatSource(l.At, m.D, map[string]any{top: l.V.M[top].Any()}, l.Flat)
		for k := range sub {
			e := m.M[k]
			if inPack[k] { // it has its own
				continue
			}
			if mt.D != "" || mt.C != "" {
				e.Desc, e.Comment = mt.D, mt.C
			}
			if mt.T != "" {
				e.Tag = mt.T
			}
		}
	}
	applyPacks(m, l.At, l.V, l.Flat)
	return flat, true
}

// ---------------------------------------------------------------- C10

type c10 struct {
	Delim string `json:"delim"`
	Pre   []Op   `json:"pre"`
	Loads []load `json:"loads"`
	View  string `json:"view,omitempty"` // load through a prefixed view
	Opt   bool   `json:"opt,omitempty"`  // flatten by the option of the store
}

func TestC10(t *testing.T) {
	Check(t, "C10", func(t *rapid.T) c10 {
		h := genHist(t, HistOpts{Ops: []string{"set", "set", "comment"}, Max: 6, Kind: "store", Delims: true, Val: genScalar})
		r := c10{Delim: h.Delim, Pre: h.Ops}
		g := newKeyGen(t, h.Delim)
		for _, op := range h.Ops {
			g.Seen = append(g.Seen, op.K)
		}
		for i := rapid.IntRange(1, 3).Draw(t, "nloads"); i > 0; i-- {
			r.Loads = append(r.Loads, genLoad(t, g, true))
		}
		if rapid.IntRange(0, 3).Draw(t, "view?") == 0 {
			r.View = g.Path(t)
		}
		r.Opt = rapid.Bool().Draw(t, "opt")
		return r
	}, func(c *Ctx, h c10) {
		w := newWorld(c, "store", h.Delim)
		w.S = newSUT("store", h.Delim, store.WithFlattenSlice(h.Opt))
		w.Views[0] = w.S
		defer w.S.Close()
		for _, op := range h.Pre {
			w.Apply(op)
		}
		st := w.S.st
		if h.View != "" {
			st = st.WithPrefix(h.View)
		}
		total, slices, metas, nested := 0, 0, 0, 0
		for _, l := range h.Loads {
			opts, _ := l.options()
			eff := l
			if eff.At == "" {
				eff.At = h.View // the store's own prefix applies, unless it is replaced
			}
			if h.Opt { // leave the slices to the option of the store
				opts = opts[:len(opts)-1]
				eff.Flat = true
			}
			flat, ok := eff.apply(w.M)
			if !ok {
				return
			}
			wr, err := st.Load(bg, opts...)
			if err != nil {
				c.Failf("Load failed: %v", err)
			}
			if wr == nil {
				c.Failf("Load returned no writeable object")
			}
			total += len(flat)
			metas += len(l.Meta)
			for k := range flat {
				if strings.Contains(strings.TrimPrefix(k, eff.At+h.Delim), h.Delim) {
					nested++
				}
				if strings.HasSuffix(k, h.Delim+"10") {
					slices++
				}
			}
			w.checkReads(w.S, "", nil)
		}
		w.checkEnum(w.S)
		w.checkMeta(w.S)
		c.NT(total > 1 && nested > 0)
		c.Label(nested > 0, "nested")
		c.Label(slices > 0, "10+ elements flattened")
		c.Label(metas > 0, "with description/comment/tag")
		c.Label(h.View != "", "through a view")
		for _, l := range h.Loads {
			c.Label(true, "how="+l.How)
			c.Label(l.At != "", "store prefix")
		}
	})
}

// ---------------------------------------------------------------- C11

type c11op struct {
	Op string `json:"op"` // set | load | within | merge-within | toggle | remove
	K  string `json:"k,omitempty"`
	X  *Val   `json:"x,omitempty"`
	L  *load  `json:"l,omitempty"`
	V  string `json:"v,omitempty"` // through a view
}

type c11 struct {
	Ops []c11op `json:"ops"`
}

func TestC11(t *testing.T) {
	Check(t, "C11", func(t *rapid.T) c11 {
		g := newKeyGen(t, ".")
		var r c11
		for i := rapid.IntRange(1, 14).Draw(t, "nops"); i > 0; i-- {
			op := c11op{Op: rapid.SampledFrom([]string{"set", "set", "set", "load", "load", "within", "within-panic", "merge-within", "mark", "remove", "annotate", "keep", "kept", "kept", "kept-within"}).Draw(t, "op")}
			op.K = g.Key(t)
			switch op.Op {
			case "load":
				l := genLoad(t, g, false)
				op.L = &l
			case "merge-within":
				v := genTree(t, g, 2)
				op.K = graft(t, g, op.K, &v)
				op.X = &v
			case "set":
				v := genScalar(t, "val")
				op.X = &v
				if rapid.IntRange(0, 3).Draw(t, "viaview") == 0 {
					op.V = g.Path(t)
				}
			default:
				v := genScalar(t, "val")
				op.X = &v
				if op.Op == "keep" && rapid.Bool().Draw(t, "prefixed") {
					op.V = g.Path(t)
				}
			}
			r.Ops = append(r.Ops, op)
		}
		return r
	}, func(c *Ctx, h c11) {
		var kept store.Store // a view that was made within a loading block
		keptAt, viaKept := "", 0
		s := store.New()
		defer s.Close()
		m := newModel(".")
		sets, loads := 0, 0
		for _, op := range h.Ops {
			switch op.Op {
			case "set":
				if op.V != "" {
					full := m.join(op.V, op.K)
					m.set(full, op.X.Any())
					m.M[full].Mod = true
					s.WithPrefix(op.V).Set(op.K, op.X.Any())
				} else {
					m.set(op.K, op.X.Any())
					m.M[op.K].Mod = true
					s.Set(op.K, op.X.Any())
				}
				sets++
			case "load":
				// a key set by the user before stays modified, whatever is loaded
				if _, ok := op.L.apply(m); !ok {
					return
				}
				opts, _ := op.L.options()
				if _, err := s.Load(bg, opts...); err != nil {
					c.Failf("Load failed: %v", err)
				}
				loads++
			case "within":
				m.set(op.K, op.X.Any())
				n := 0
				s.WithinLoading(func() { n++; s.Set(op.K, op.X.Any()) })
				if n != 1 {
					c.Failf("WithinLoading called its function %d times", n)
				}
			case "within-panic": // a loading block that is left by a panic is over, too
				m.set(op.K, op.X.Any())
				func() {
					defer func() { _ = recover() }()
					s.WithinLoading(func() { s.Set(op.K, op.X.Any()); panic("left") })
				}()
			case "keep":
				m.set(m.join(op.V, op.K), op.X.Any())
				s.WithinLoading(func() {
					kept, keptAt = s.N(), op.V
					if op.V != "" {
						kept = s.WithPrefix(op.V)
					}
					kept.Set(op.K, op.X.Any())
				})
			case "kept", "kept-within": // a view is in a loading block when its store is
				if kept == nil {
					break
				}
				full := m.join(keptAt, op.K)
				m.set(full, op.X.Any())
				if op.Op == "kept" {
					m.M[full].Mod = true
					kept.Set(op.K, op.X.Any())
					viaKept++
					break
				}
				s.WithinLoading(func() { kept.Set(op.K, op.X.Any()) })
			case "merge-within":
				flatten(op.K, ".", op.X.Any().(map[string]any), false, func(k string, v any) { m.set(k, v) })
				s.WithinLoading(func() {
					if err := s.Merge(op.K, op.X.Any().(map[string]any)); err != nil {
						c.Failf("Merge failed: %v", err)
					}
				})
			case "mark": // the user clears or sets the mark
				if e := m.M[op.K]; e != nil {
					b := op.X.K == "int"
					e.Mod = b
					s.GetEx(op.K, func(node radix.Node[any], _ any, _ bool, _ radix.KVPair) { node.SetModified(b) })
				}
			case "remove":
				m.remove(op.K)
				s.Remove(op.K)
			case "annotate":
				s.SetComment(op.K, "d", "c")
			}
		}
		dirty := map[string]any{}
		for k, e := range m.M {
			node, _, _, found := s.Locate(k, nil)
			if !found {
				c.Failf("%q is lost", k)
			}
			if node.Modified() != e.Mod {
				c.Failf("%q: modified state %v, expected %v", k, node.Modified(), e.Mod)
			}
			if e.Mod {
				dirty[k] = e.Val
			}
		}
		got, err := s.GetM("", store.WithFilter(func(node radix.Node[any]) bool { return node.Modified() }))
		diffMaps(c, "the modified subset", got, dirty, err)
		// a copy has the same states
		d := s.Dup()
		defer d.Close()
		got, err = d.GetM("", store.WithFilter(func(node radix.Node[any]) bool { return node.Modified() }))
		diffMaps(c, "the modified subset of a copy", got, dirty, err)
		c.NT(len(dirty) > 0 && len(dirty) < len(m.M))
		c.Label(sets > 0 && loads > 0, "set and load")
		c.Label(viaKept > 0, "through a view made while loading")
		c.Label(len(dirty) > 0 && len(dirty) < len(m.M), "proper subset modified")
	})
}
