package harness

import (
	"errors"
	"testing"

	"pgregory.net/rapid"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
)

// ---------------------------------------------------------------- C12: saving

type c12op struct {
	Op string `json:"op"` // set | mark | remove | save | saveas
	K  string `json:"k,omitempty"`
	X  *Val   `json:"x,omitempty"`
	B  bool   `json:"b,omitempty"`
	W  bool   `json:"w,omitempty"` // save to a provider which is an io.Writer
}

// ioProvider is a provider that can only be written to as an io.Writer.
type ioProvider struct{ p *memProvider }

func (p ioProvider) Read() (map[string]store.ValPkg, error) { return p.p.Read() }
func (p ioProvider) GetCodec() store.Codec                  { return p.p.codec }
func (p ioProvider) GetPosition() string                    { return p.p.pos }
func (p ioProvider) WithCodec(c store.Codec)                { p.p.codec = c }
func (p ioProvider) WithPosition(s string)                  { p.p.pos = s }
func (p ioProvider) Write(b []byte) (int, error) {
	if err := p.p.Write(b); err != nil {
		return 0, err
	}
	return len(b), nil
}

type c12 struct {
	L   load    `json:"l"`
	Pre []c12op `json:"pre,omitempty"` // before the load
	Ops []c12op `json:"ops"`
	Err string  `json:"err,omitempty"` // inject: codec | provider | deaf (it cannot be written to)
	IO  bool    `json:"io,omitempty"`  // the provider loaded from is an io.Writer
}

// clashes tells that setting k would make some key also a section.
func (m *Model) clashes(k string) bool {
	for p := range m.M {
		if m.under(p, k) || m.under(k, p) {
			return true
		}
	}
	return false
}

func TestC12(t *testing.T) {
	Check(t, "C12", func(t *rapid.T) c12 {
		g := newKeyGen(t, ".")
		r := c12{L: genLoad(t, g, false)}
		r.L.How = rapid.SampledFrom([]string{"bytes", "codec-on-provider", "read"}).Draw(t, "how2")
		r.IO = r.L.How == "read" && rapid.Bool().Draw(t, "io")
		r.L.Meta, r.L.Codec = nil, false
		op := func(kind string) c12op {
			o := c12op{Op: kind, K: g.Key(t), B: rapid.Bool().Draw(t, "b"), W: rapid.Bool().Draw(t, "w")}
			if r.L.At != "" && rapid.Bool().Draw(t, "below") {
				o.K = r.L.At + "." + o.K
			}
			if rapid.IntRange(0, 2).Draw(t, "old") == 0 {
				o.K = g.Old(t)
			}
			v := genVal(t, "val")
			o.X = &v
			return o
		}
		for i := rapid.IntRange(0, 3).Draw(t, "npre"); i > 0; i-- {
			r.Pre = append(r.Pre, op("set"))
		}
		for i := rapid.IntRange(1, 10).Draw(t, "nops"); i > 0; i-- {
			r.Ops = append(r.Ops, op(rapid.SampledFrom([]string{"set", "set", "set", "mark", "remove", "save", "saveas"}).Draw(t, "op")))
		}
		r.Ops = append(r.Ops, c12op{Op: "save"}, c12op{Op: "saveas"})
		r.Err = rapid.SampledFrom([]string{"", "", "", "", "codec", "provider", "deaf", "nocodec"}).Draw(t, "err")
		return r
	}, func(c *Ctx, h c12) {
		s := store.New()
		defer s.Close()
		m := newModel(".")
		set := func(op c12op) {
			if m.M[op.K] == nil && m.clashes(op.K) {
				return // nested documents cannot hold a key which is also a section
			}
			m.set(op.K, op.X.Any())
			m.M[op.K].Mod = true
			s.Set(op.K, op.X.Any())
		}
		for _, op := range h.Pre {
			set(op)
		}
		flat, clash := flatSource(h.L.At, ".", h.L.V.Any().(map[string]any), h.L.Flat)
		if clash {
			return
		}
		for k := range flat {
			if m.M[k] == nil && m.clashes(k) {
				return
			}
			m.set(k, nil)
		}
		if _, ok := h.L.apply(m); !ok {
			return
		}
		opts, p := h.L.options()
		var ldr *store.Loader
		if h.L.How == "read" {
			p.codec = &memCodec{}
			if h.IO {
				opts = append(opts, store.WithProvider(ioProvider{p}))
			}
		}
		opts = append(opts, store.WithLoaderCopy(&ldr))
		wr, err := s.Load(bg, opts...)
		if err != nil || wr == nil || ldr == nil {
			c.Failf("Load: %v, %v, %v", wr, ldr, err)
		}
		codec := p.GetCodec().(*memCodec)
		sub := func(only func(e *Ent) bool) map[string]any {
			r := map[string]any{}
			for k, e := range m.M {
				if h.L.At != "" {
					if !m.under(h.L.At, k) {
						continue
					}
					k = k[len(h.L.At)+1:]
				}
				if only == nil || only(e) {
					r[k] = e.Val
				}
			}
			return r
		}
		saved, partial := 0, false
		for _, op := range h.Ops {
			switch op.Op {
			case "set":
				set(op)
			case "remove":
				m.remove(op.K)
				s.Remove(op.K)
			case "mark":
				if e := m.M[op.K]; e != nil {
					e.Mod = op.B
					s.GetEx(op.K, func(node radix.Node[any], _ any, _ bool, _ radix.KVPair) { node.SetModified(op.B) })
				}
			case "save", "saveas":
				var want map[string]any
				prov, cdc := p, codec
				if op.Op == "save" {
					want = sub(func(e *Ent) bool { return e.Mod })
				} else {
					want = sub(nil)
					prov, cdc = &memProvider{}, &memCodec{}
				}
				var inject error
				switch h.Err {
				case "codec":
					cdc.enc, inject = errInjected, errInjected
				case "provider":
					prov.werr, inject = errInjected, errInjected
				}
				if len(want) == 0 {
					inject = nil
				}
				before := len(prov.wrote)
				cdc.last = nil
				var err error
				var out store.Provider = prov
				if op.W {
					out = ioProvider{prov}
				}
				switch h.Err {
				case "deaf":
					if op.Op == "saveas" {
						out = &streamProvider{p: prov}
						if len(want) > 0 {
							inject = errInjected
						}
					}
				case "nocodec": // there is no way to write then, whatever is reported
					if op.Op == "saveas" {
						_ = ldr.SaveAs(bg, "ignored", store.WithSaveAsProvider(out))
						if len(prov.wrote) != before {
							c.Failf("wrote something without a codec")
						}
					}
				}
				if op.Op == "save" {
					err = wr.Save(bg)
				} else if op.B {
					prov.codec = cdc
					err = ldr.SaveAs(bg, "ignored", store.WithSaveAsProvider(out))
				} else {
					if op.X != nil && len(op.X.S)%2 == 0 { // it has one of its own
						prov.codec = &memCodec{enc: errors.New("the codec of the provider instead of the given one")}
					}
					err = ldr.SaveAs(bg, "ignored", store.WithSaveAsProvider(out), store.WithSaveAsCodec(cdc))
				}
				if inject != nil {
					if err == nil {
						c.Failf("%s succeeded although the %s failed", op.Op, h.Err)
					}
					if len(prov.wrote) != before {
						c.Failf("%s wrote something although the %s failed", op.Op, h.Err)
					}
					continue
				}
				if err != nil {
					c.Failf("%s failed: %v", op.Op, err)
				}
				if len(want) == 0 {
					if len(prov.wrote) != before {
						c.Failf("%s wrote something although there is nothing to save", op.Op)
					}
					continue
				}
				if len(prov.wrote) != before+1 || string(prov.wrote[before]) != "encoded" {
					c.Failf("%s wrote %d times (%q); expected the encoded document once", op.Op, len(prov.wrote)-before, prov.wrote)
				}
				diffMaps(c, op.Op+": the document", cdc.last, nest(want, "."), nil)
				saved++
				partial = partial || (op.Op == "save" && len(want) < len(m.M))
				// and the store did not change by saving
				got, err := s.GetM("")
				diffMaps(c, "the store after "+op.Op, got, m.flat(), err)
			}
		}
		c.NT(saved > 0 && partial)
		c.Label(saved > 0, "saved")
		c.Label(partial, "saved a proper subset")
		c.Label(h.L.At != "", "below a store prefix")
		c.Label(h.Err != "", "fault injected")
		c.Label(h.IO && saved > 0, "saved through an io.Writer")
	})
}

// ---------------------------------------------------------------- C13: copies

type c13 struct {
	Pre  Hist `json:"pre"`
	How  string
	A, B []Op // afterwards, on the original and on the copy
	Int  []bool
}

func genDupVal(t *rapid.T, label string) Val {
	switch rapid.IntRange(0, 7).Draw(t, "dupval") {
	case 0:
		v := Val{K: "[]any"}
		for i := rapid.IntRange(1, 3).Draw(t, "n"); i > 0; i-- {
			v.L = append(v.L, vInt(rapid.IntRange(-9, 9).Draw(t, "x")))
		}
		return v
	case 1:
		v := Val{K: "[]string"}
		for i := rapid.IntRange(1, 3).Draw(t, "n"); i > 0; i-- {
			v.L = append(v.L, vStr(genText(t, "x")))
		}
		return v
	case 2:
		v := Val{K: "map", M: map[string]Val{}}
		for i := rapid.IntRange(1, 3).Draw(t, "n"); i > 0; i-- {
			v.M[rapid.SampledFrom([]string{"x", "y", "z"}).Draw(t, "mk")] = vInt(rapid.IntRange(-9, 9).Draw(t, "x"))
		}
		return v
	}
	return genScalar(t, label)
}

// scratchInside changes a list or map value in place.
func scratchInside(v any, undo *[]func()) {
	switch z := v.(type) {
	case []any:
		for i := range z {
			old := z[i]
			scratchInside(old, undo)
			z[i] = "scratched"
			*undo = append(*undo, func() { z[i] = old })
		}
	case []string:
		for i := range z {
			old := z[i]
			z[i] = "scratched"
			*undo = append(*undo, func() { z[i] = old })
		}
	case map[string]any:
		for k, old := range z {
			scratchInside(old, undo)
			z[k] = "scratched"
			*undo = append(*undo, func() { z[k] = old })
		}
	}
}

func TestC13(t *testing.T) {
	ops := []string{"set", "set", "set", "remove", "comment", "tag", "handle", "merge", "setnode"}
	Check(t, "C13", func(t *rapid.T) c13 {
		r := c13{How: rapid.SampledFrom([]string{"dup", "clone"}).Draw(t, "how")}
		h := genHist(t, HistOpts{Ops: ops, Min: 1, Max: 30, Delims: true, Val: genDupVal, Probes: [2]int{0, 6}})
		n := len(h.Ops)
		cut := rapid.IntRange(0, n).Draw(t, "cut")
		for _, op := range h.Ops[cut:] {
			if rapid.Bool().Draw(t, "side") {
				r.A = append(r.A, op)
			} else {
				r.B = append(r.B, op)
			}
			r.Int = append(r.Int, rapid.Bool().Draw(t, "int"))
		}
		h.Ops = h.Ops[:cut]
		r.Pre = h
		return r
	}, func(c *Ctx, h c13) {
		w := newWorld(c, h.Pre.Kind, h.Pre.Delim)
		defer w.S.Close()
		for _, op := range h.Pre.Ops {
			w.Apply(op)
		}
		var d *SUT
		if h.How == "dup" {
			d = w.S.Dup()
		} else {
			d = w.S.Clone()
		}
		defer d.Close()
		x := &World{C: c, S: d, Views: []*SUT{d}, Pre: []string{""}, M: w.M.clone(), Nodes: map[string]radix.Node[any]{}}
		same := func(w *World) {
			w.checkEnum(w.S)
			w.checkMeta(w.S)
			w.checkReads(w.S, "", h.Pre.Probes)
			for k, e := range w.M.M {
				if w.S.st == nil {
					break
				}
				if node, _, _, found := w.S.Locate(k, nil); !found || e.Mod && !node.Modified() {
					c.Failf("%q: modified state lost by the copy", k)
				}
			}
		}
		same(x)
		if d.Delimiter() != w.S.Delimiter() || d.Prefix() != w.S.Prefix() {
			c.Failf("the copy has the delimiter %q and the prefix %q", d.Delimiter(), d.Prefix())
		}
		// the inside of a value of one is not the inside of a value of the other
		for _, pair := range [][2]*World{{w, x}, {x, w}} {
			var undo []func()
			for k := range pair[0].M.M {
				scratchInside(pair[0].S.MustGet(k), &undo)
			}
			same(pair[1])
			for _, f := range undo {
				f()
			}
			c.Label(len(undo) > 0, "a value changed in place")
		}
		a, b := h.A, h.B
		for _, first := range h.Int {
			if first && len(a) > 0 || len(b) == 0 {
				w.Apply(a[0])
				a = a[1:]
			} else {
				x.Apply(b[0])
				b = b[1:]
			}
		}
		same(w)
		same(x)
		c.NT(len(h.A) > 0 && len(h.B) > 0 && len(h.Pre.Ops) > 1)
		c.Label(len(h.A) > 0, "original changed")
		c.Label(len(h.B) > 0, "copy changed")
		c.Label(w.Removed+x.Removed > 0, "removed afterwards")
	})
}
