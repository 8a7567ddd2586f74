package harness

import (
	"context"
	"slices"
	"strings"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
)

// common is what a Store and a Trie[any] have in common.
type common interface {
	MustGet(path string) (data any)
	Get(path string) (data any, found bool)
	Set(path string, data any) (node radix.Node[any], oldData any)
	Remove(path string) (removed bool)
	Merge(pathAt string, data map[string]any) (err error)
	Has(path string) (found bool)
	GetEx(path string, cb func(node radix.Node[any], data any, branch bool, kvpair radix.KVPair))
	SetEx(path string, data any, cb radix.OnSetEx[any]) (oldData any)
	Update(path string, cb func(node radix.Node[any], old any))
	SetTTL(path string, ttl time.Duration, cb radix.OnTTLRinging[any]) (state int)
	SetTTLFast(node radix.Node[any], ttl time.Duration, cb radix.OnTTLRinging[any]) (state int)
	GetDesc(path string) (desc string, err error)
	MustGetDesc(path string) (desc string)
	GetTag(path string) (tag any, err error)
	MustGetTag(path string) (tag any)
	GetComment(path string) (comment string, err error)
	MustGetComment(path string) (comment string)
	SetComment(path, description, comment string) (ok bool)
	SetTag(path string, tags any) (ok bool)
	Dump() string
	Walk(path string, cb func(path, fragment string, node radix.Node[any]))
	SetPrefix(newPrefix ...string)
	Prefix() string
	Delimiter() rune
	SetDelimiter(delimiter rune)
	RecursiveMode() radix.RecusiveMode
	radix.TypedGetters[any]
}

// lowlevel is what a Trie has, and a Store inherits from it.
type lowlevel interface {
	Insert(path string, data any) (oldData any)
	Search(path string) bool
	HasPart(path string) bool
	StartsWith(path string, r rune) bool
	EndsWith(path string, r rune) bool
	Query(path string, pair radix.KVPair) (data any, branch, found bool, err error)
	SetNode(path string, data any, tag any, descriptionAndComments ...string) (ret radix.Node[any], oldData any)
	SetEmpty(path string) (oldData any)
	RemoveEx(path string) (nodeRemoved, parent radix.Node[any], removed bool)
}

// SUT is the system under test: a Store or a bare Trie.
type SUT struct {
	common
	low  lowlevel
	st   store.Store
	trie radix.Trie[any]
}

func newSUT(kind, delim string, opts ...store.Opt) *SUT {
	if kind == "trie" {
		if delim == "." {
			return trieSUT(radix.NewTrie[any]())
		}
		return trieSUT(radix.NewTrieBy[any](delimRune(delim)))
	}
	if delim != "." {
		opts = append(opts, store.WithDelimiter(delimRune(delim)))
	}
	return storeSUT(store.New(opts...))
}

func storeSUT(s store.Store) *SUT { return &SUT{common: s, low: s.(lowlevel), st: s} }

func trieSUT(t radix.Trie[any]) *SUT { return &SUT{common: t, low: t, trie: t} }

func (s *SUT) WithPrefix(p ...string) *SUT {
	if s.st != nil {
		return storeSUT(s.st.WithPrefix(p...))
	}
	return trieSUT(s.trie.WithPrefix(p...))
}

func (s *SUT) WithPrefixReplaced(p ...string) *SUT {
	if s.st != nil {
		return storeSUT(s.st.WithPrefixReplaced(p...))
	}
	return trieSUT(s.trie.WithPrefixReplaced(p...))
}

func (s *SUT) Dup() *SUT {
	if s.st != nil {
		return storeSUT(s.st.Dup())
	}
	return trieSUT(s.trie.Dup())
}

func (s *SUT) Clone() *SUT {
	if s.st != nil {
		return storeSUT(s.st.Clone())
	}
	return trieSUT(s.trie.Dup())
}

func (s *SUT) BR() *SUT {
	if s.st != nil {
		return storeSUT(s.st.BR())
	}
	return trieSUT(s.trie.BR())
}

func (s *SUT) N() *SUT {
	if s.st != nil {
		return storeSUT(s.st.N())
	}
	return trieSUT(s.trie.N())
}

func (s *SUT) R() *SUT {
	if s.st != nil {
		return storeSUT(s.st.R())
	}
	return trieSUT(s.trie.R())
}

func (s *SUT) Locate(path string, pair radix.KVPair) (node radix.Node[any], branch, partial, found bool) {
	if s.st != nil {
		return s.st.Locate(path, pair)
	}
	n, b, p, f := s.trie.Locate(path, pair)
	if n != nil {
		node = n
	}
	return node, b, p, f
}

func (s *SUT) Close() {
	if s.st != nil {
		s.st.Close()
	} else if c, ok := s.trie.(interface{ Close() }); ok {
		c.Close()
	}
}

// ---------------------------------------------------------------- model

// Ent is what the model knows of a key.
type Ent struct {
	Val           any
	Desc, Comment string
	Tag           any
	Mod           bool
	Undef         bool // emptied, or created without data: HasData is not determined
}

// Model is the reference: a flat map of full keys.
type Model struct {
	D string
	M map[string]*Ent

	ever map[string]bool // the keys which were set at any time
}

func newModel(delim string) *Model {
	return &Model{D: delim, M: map[string]*Ent{}, ever: map[string]bool{}}
}

func (m *Model) clone() *Model {
	n := newModel(m.D)
	for k, e := range m.M {
		c := *e
		n.M[k] = &c
	}
	for k := range m.ever {
		n.ever[k] = true
	}
	return n
}

func (m *Model) under(path, key string) bool { return strings.HasPrefix(key, path+m.D) }

func (m *Model) isKey(path string) bool { return m.M[path] != nil }

func (m *Model) isSection(path string) bool {
	for k := range m.M {
		if m.under(path, k) {
			return true
		}
	}
	return false
}

func (m *Model) has(path string) bool { return m.isKey(path) || m.isSection(path) }

func (m *Model) set(k string, v any) (old any) {
	if e := m.M[k]; e != nil {
		old, e.Val, e.Undef = e.Val, v, false
		return
	}
	m.M[k] = &Ent{Val: v}
	m.ever[k] = true
	return nil
}

func (m *Model) remove(path string) (removed bool) {
	for k := range m.M {
		if k == path || m.under(path, k) {
			delete(m.M, k)
			removed = true
		}
	}
	return
}

func (m *Model) flat() map[string]any {
	r := map[string]any{}
	for k, e := range m.M {
		r[k] = e.Val
	}
	return r
}

// section returns the keys at or under path, in full.
func (m *Model) section(path string) map[string]any {
	r := map[string]any{}
	for k, e := range m.M {
		if k == path || m.under(path, k) {
			r[k] = e.Val
		}
	}
	return r
}

// prefixFree tells that no key is also a section.
func (m *Model) prefixFree() bool {
	for k := range m.M {
		if m.isSection(k) {
			return false
		}
	}
	return true
}

func (m *Model) join(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	return a + m.D + b
}

func nest(flat map[string]any, d string) map[string]any {
	out := map[string]any{}
	for k, v := range flat {
		segs := strings.Split(k, d)
		m := out
		for _, s := range segs[:len(segs)-1] {
			n, ok := m[s].(map[string]any)
			if !ok {
				n = map[string]any{}
				m[s] = n
			}
			m = n
		}
		m[segs[len(segs)-1]] = v
	}
	return out
}

// flatten lists the (path, value) pairs of a nested map the way Merge and
// Load decompound it: maps always, slices if asked.
func flatten(at, d string, m map[string]any, slices bool, put func(k string, v any)) {
	for k, v := range m {
		p := k
		if at != "" {
			p = at + d + k
		}
		flattenAny(p, d, v, slices, put)
	}
}

func flattenAny(p, d string, v any, slices bool, put func(k string, v any)) {
	switch z := v.(type) {
	case map[string]any:
		flatten(p, d, z, slices, put)
	case map[any]any:
		for k, x := range z {
			flattenAny(p+d+sprint(k), d, x, slices, put)
		}
	case []any:
		if !slices {
			put(p, v)
			return
		}
		for i, x := range z {
			flattenAny(p+d+sprint(i), d, x, slices, put)
		}
	case []map[string]any:
		if !slices {
			put(p, v)
			return
		}
		for i, x := range z {
			flatten(p+d+sprint(i), d, x, slices, put)
		}
	case []map[any]any:
		if !slices {
			put(p, v)
			return
		}
		for i, x := range z {
			flattenAny(p+d+sprint(i), d, x, slices, put)
		}
	case store.ValPkg:
		flattenAny(p, d, z.Value, slices, put)
	default:
		put(p, v)
	}
}

// ---------------------------------------------------------------- histories

// Op is a step of a history.
type Op struct {
	Op string `json:"op"`
	V  int    `json:"v,omitempty"` // view
	K  string `json:"k,omitempty"` // key, relative to the view
	X  *Val   `json:"x,omitempty"` // value
	A  string `json:"a,omitempty"`
	B  string `json:"b,omitempty"`
	// setnode: how many texts are given besides the usual two
	N int `json:"n,omitempty"`
}

// Hist is a generated history.
type Hist struct {
	Kind   string   `json:"kind"` // store | trie
	Delim  string   `json:"delim"`
	Ops    []Op     `json:"ops"`
	Probes []string `json:"probes,omitempty"`
}

// HistOpts tunes genHist.
type HistOpts struct {
	Ops        []string // kinds of operations, repeated for weight
	Min, Max   int
	Delims     bool
	Kind       string // force
	PrefixFree bool
	Val        func(t *rapid.T, label string) Val
	Probes     [2]int
	Looks      bool // reads in between, around the writes
	Bulk       bool // now and then, many keys at once
}

var bulkShapes = []string{"num", "wide", "deep", "long", "numsec", "nested", "deeper"}

// bulkKeys lists the keys (relative to base) of a bulk write.
func bulkKeys(shape string, n int, d string) (r []string) {
	switch shape {
	case "num":
		for i := 0; i < n; i++ {
			r = append(r, "k"+sprint(i))
		}
	case "numsec":
		for i := 0; i < n; i++ {
			r = append(r, "s"+sprint(i%7)+d+sprint(i))
		}
	case "wide": // one child for each first letter
		for i := 0; i < n; i++ {
			switch {
			case i < 26:
				r = append(r, string(rune('a'+i)))
			case i < 52:
				r = append(r, string(rune('A'+i-26)))
			default:
				r = append(r, string(rune(0x4e00+i))+"x")
			}
		}
	case "deep":
		for i, p := 0, "d"; i < n && i < 60; i, p = i+1, p+d+"d"+sprint(i%3) {
			if i%3 != 1 {
				r = append(r, p)
			}
		}
	case "nested": // each key is the beginning of the next one
		for i, p := 0, "n"; i < n*2; i, p = i+1, p+string("abc"[i%3]) {
			if i%5 != 2 {
				r = append(r, p)
			}
		}
	case "deeper": // one key with very many sections, and some on the way
		for i, p := 0, "e"; i < n*3; i, p = i+1, p+d+"e" {
			if i%9 == 0 || i > n*3-3 {
				r = append(r, p)
			}
		}
	case "long":
		p := strings.Repeat("longish", (n*3)/7+1)
		r = append(r, p+"1", p+"2", p+d+p, p[:len(p)/2]+"x")
	}
	return
}

func genHist(t *rapid.T, o HistOpts) Hist {
	h := Hist{Kind: o.Kind, Delim: "."}
	if h.Kind == "" {
		h.Kind = rapid.SampledFrom([]string{"store", "store", "trie"}).Draw(t, "kind")
	}
	if o.Delims {
		h.Delim = genDelim(t)
	}
	if o.Val == nil {
		o.Val = genVal
	}
	g := newKeyGen(t, h.Delim)
	m := newModel(h.Delim) // only to keep a prefix-free domain
	n := rapid.IntRange(o.Min, o.Max).Draw(t, "nops")
	nviews := 1
	views := []string{""}
	bulkAt := -1
	if o.Bulk && n > 0 && rapid.IntRange(0, 24).Draw(t, "bulk?") == 0 {
		bulkAt = rapid.IntRange(0, n-1).Draw(t, "bulk at")
	}
	unbulkAt, bulk := -1, Op{}
	if bulkAt >= 0 && slices.Contains(o.Ops, "remove") && rapid.Bool().Draw(t, "unbulk?") {
		unbulkAt = rapid.IntRange(bulkAt, n-1).Draw(t, "unbulk at")
	}
	looks := o.Looks && rapid.IntRange(0, 2).Draw(t, "looks?") > 0
	for i := 0; i < n; i++ {
		if i == bulkAt && !o.PrefixFree {
			op := Op{Op: "bulk", A: rapid.SampledFrom(bulkShapes).Draw(t, "shape"), N: rapid.IntRange(2, 140).Draw(t, "bulk n")}
			if rapid.Bool().Draw(t, "at base") {
				op.K = g.Path(t)
			}
			for _, k := range bulkKeys(op.A, op.N, h.Delim) {
				if op.K != "" {
					k = op.K + h.Delim + k
				}
				if len(g.Seen) < 40 {
					g.Seen = append(g.Seen, k)
				}
			}
			h.Ops, bulk = append(h.Ops, op), op
		}
		if i == unbulkAt && !o.PrefixFree { // remove most of them again
			bulk.Op, bulk.B = "unbulk", rapid.SampledFrom([]string{"", "down", "even"}).Draw(t, "order")
			v := vInt(rapid.SampledFrom([]int{0, 1, 2, 7, 9, 20, 30}).Draw(t, "left"))
			bulk.X = &v
			h.Ops = append(h.Ops, bulk)
		}
		op := Op{Op: rapid.SampledFrom(o.Ops).Draw(t, "op")}
		if nviews > 1 {
			op.V = rapid.IntRange(0, nviews-1).Draw(t, "view")
		}
		switch op.Op {
		case "set", "setex", "insert", "setnode", "update", "setempty":
			k := g.Key(t)
			if rapid.IntRange(0, 3).Draw(t, "reuse") == 0 {
				k = g.Old(t)
			}
			if o.PrefixFree {
				if m.isSection(k) {
					continue
				}
				clash := false
				segs := strings.Split(k, h.Delim)
				for j := 1; j < len(segs); j++ {
					clash = clash || m.isKey(strings.Join(segs[:j], h.Delim))
				}
				if clash {
					continue
				}
				m.set(k, 1)
			}
			op.K = k
			v := o.Val(t, "val")
			op.X = &v
			if op.Op == "setnode" || op.Op == "update" {
				op.A, op.B = genMeta(t), genMeta(t)
			}
			if op.Op == "setnode" {
				op.N = rapid.SampledFrom([]int{0, 0, 0, -2, -1, 1, 2}).Draw(t, "texts")
			}
		case "handle": // write through the node handle got when k was set
			op.K = g.Old(t)
			v := o.Val(t, "val")
			op.X = &v
		case "remove", "removeex":
			op.K = g.Path(t)
			if rapid.Bool().Draw(t, "exact") {
				op.K = g.Old(t)
			}
			if o.PrefixFree {
				m.remove(op.K)
			}
		case "comment", "tag":
			op.K = g.Path(t)
			if rapid.IntRange(0, 2).Draw(t, "exact") > 0 {
				op.K = g.Old(t)
			}
			op.A, op.B = genMeta(t), genMeta(t)
		case "view":
			op.K = g.Path(t)
			op.A = rapid.SampledFrom([]string{"with", "replaced", "multi"}).Draw(t, "how")
			nviews++
			views = append(views, op.K)
		case "merge":
			if rapid.Bool().Draw(t, "at") {
				op.K = g.Path(t)
			}
			v := genTree(t, g, 3)
			op.K = graft(t, g, op.K, &v)
			op.X = &v
		case "dup":
		default:
			panic("HARNESS-ERROR: op " + op.Op)
		}
		if looks && op.Op != "view" && op.Op != "dup" {
			look := Op{Op: "look", V: op.V, K: op.K}
			if op.Op == "merge" { // a key of the source
				for sub := *op.X; sub.K == "map" && len(sub.M) > 0; {
					k := rapid.SampledFrom(sortedKeys(sub.M)).Draw(t, "look k")
					look.K, sub = m.join(look.K, k), sub.M[k]
					if rapid.IntRange(0, 3).Draw(t, "stop") == 0 {
						break
					}
				}
			}
			if look.K != "" {
				how := rapid.IntRange(0, 3).Draw(t, "look")
				if how&1 > 0 {
					h.Ops = append(h.Ops, look)
				}
				h.Ops = append(h.Ops, op)
				if how&2 > 0 {
					h.Ops = append(h.Ops, look)
				}
				continue
			}
		}
		h.Ops = append(h.Ops, op)
	}
	if o.Probes[1] > 0 {
		h.Probes = g.Probes(t, o.Probes[0], o.Probes[1])
	}
	return h
}

func genMeta(t *rapid.T) string {
	return rapid.SampledFrom([]string{"", "desc", "a longer comment, with punctuation", "日本", "x\ny", "m1", "m2", "m3"}).Draw(t, "meta")
}

// genTree draws a nested map keyed with the segments of g.
func genTree(t *rapid.T, g *KeyGen, depth int) Val {
	v := Val{K: "map", M: map[string]Val{}}
	for i := rapid.IntRange(0, 4).Draw(t, "width"); i > 0; i-- {
		k := g.Seg(t)
		if depth > 0 && rapid.IntRange(0, 2).Draw(t, "sub") == 0 {
			v.M[k] = genTree(t, g, depth-1)
		} else {
			v.M[k] = genScalar(t, "leaf")
		}
	}
	return v
}

// graft puts, now and then, a key drawn before into a source, so that merging
// the source at the path it returns meets that key again.
func graft(t *rapid.T, g *KeyGen, at string, v *Val) string {
	if len(g.Seen) == 0 || rapid.IntRange(0, 2).Draw(t, "graft") > 0 {
		return at
	}
	segs := strings.Split(g.Old(t), g.Delim)
	cut := rapid.IntRange(0, len(segs)-1).Draw(t, "graft at")
	m := v.M
	for _, sg := range segs[cut : len(segs)-1] {
		if m[sg].K != "map" || m[sg].M == nil {
			m[sg] = Val{K: "map", M: map[string]Val{}}
		}
		m = m[sg].M
	}
	m[segs[len(segs)-1]] = genScalar(t, "graft val")
	return strings.Join(segs[:cut], g.Delim)
}

// World is the system and the model after the same history.
type World struct {
	C     *Ctx
	S     *SUT   // view 0
	Views []*SUT // all views
	Pre   []string
	M     *Model
	Nodes map[string]radix.Node[any] // handles got from Set, by full key
	// counters
	Overwrites, Removed, RemovedBelow, Splits, Looks, Bulks int
}

func newWorld(c *Ctx, kind, delim string) *World {
	s := newSUT(kind, delim)
	return &World{C: c, S: s, Views: []*SUT{s}, Pre: []string{""}, M: newModel(delim), Nodes: map[string]radix.Node[any]{}}
}

func (w *World) checkOld(op Op, full string, had bool, wantOld, got any) {
	if had {
		if !eq(got, wantOld) {
			w.C.Failf("%s(%q) reported the old value %s, expected %s", op.Op, full, show(got), show(wantOld))
		}
	} else if got != nil {
		w.C.Failf("%s(%q) reported the old value %s for a key which was not there", op.Op, full, show(got))
	}
}

func (w *World) noteSet(full string) {
	if w.M.isKey(full) {
		w.Overwrites++
		return
	}
	for k := range w.M.M {
		if commonRunes(k, full) > 0 {
			w.Splits++
			break
		}
	}
}

func commonRunes(a, b string) (n int) {
	x, y := []rune(a), []rune(b)
	for n < len(x) && n < len(y) && x[n] == y[n] {
		n++
	}
	return
}

// Apply runs one step on both sides and compares what the call reported.
func (w *World) Apply(op Op) {
	c := w.C
	s, pre := w.Views[op.V%len(w.Views)], w.Pre[op.V%len(w.Views)]
	full := w.M.join(pre, op.K)
	switch op.Op {
	case "set":
		had := w.M.isKey(full)
		w.noteSet(full)
		want := w.M.set(full, op.X.Any())
		node, old := s.Set(op.K, op.X.Any())
		w.checkOld(op, full, had, want, old)
		if node == nil {
			c.Failf("Set(%q) returned no node", full)
		}
		if node.Key() != full {
			c.Failf("Set(%q) returned the node of key %q", full, node.Key())
		}
		if !eq(node.Data(), op.X.Any()) {
			c.Failf("Set(%q): the node holds %s, expected %s", full, show(node.Data()), show(op.X.Any()))
		}
		if w.S.st != nil {
			w.M.M[full].Mod = true
		}
		w.Nodes[full] = node
	case "insert":
		had := w.M.isKey(full)
		w.noteSet(full)
		want := w.M.set(full, op.X.Any())
		w.checkOld(op, full, had, want, s.low.Insert(op.K, op.X.Any()))
	case "setex":
		had := w.M.isKey(full)
		w.noteSet(full)
		want := w.M.set(full, op.X.Any())
		n := 0
		old := s.SetEx(op.K, op.X.Any(), func(path string, oldData any, node radix.Node[any], trie radix.Trie[any]) {
			n++
			if pre == "" && path != full {
				c.Failf("SetEx(%q) called back with the path %q", full, path)
			}
			w.checkOld(op, full, had, want, oldData)
			if node == nil || node.Key() != full || !eq(node.Data(), op.X.Any()) {
				c.Failf("SetEx(%q) called back with a node which is not the new one", full)
			}
			if trie == nil {
				c.Failf("SetEx(%q) called back without a tree", full)
			}
			w.Nodes[full] = node
		})
		w.checkOld(op, full, had, want, old)
		if n != 1 {
			c.Failf("SetEx(%q) called back %d times", full, n)
		}
	case "setnode":
		had := w.M.isKey(full)
		w.noteSet(full)
		want := w.M.set(full, op.X.Any())
		e := w.M.M[full]
		var tag any // none, if there is no description
		if op.A != "" {
			tag = op.A + "-tag"
		}
		e.Tag = tag
		texts := []string{op.A, op.B, "more", op.B + "!"}[:2+op.N]
		if len(texts) > 0 { // texts not given leave those of the key alone
			e.Desc = texts[0]
		}
		if len(texts) > 1 {
			e.Comment = strings.Join(texts[1:], "\n")
		}
		node, old := s.low.SetNode(op.K, op.X.Any(), tag, texts...)
		w.checkOld(op, full, had, want, old)
		if node == nil || node.Key() != full {
			c.Failf("SetNode(%q) did not return its node", full)
		}
	case "setempty":
		had := w.M.isKey(full)
		w.noteSet(full)
		want := w.M.set(full, nil)
		w.M.M[full].Tag, w.M.M[full].Undef = nil, true
		w.checkOld(op, full, had, want, s.low.SetEmpty(op.K))
	case "update":
		had := w.M.isKey(full)
		n := 0
		s.Update(op.K, func(node radix.Node[any], old any) {
			n++
			if node == nil || node.Key() != full {
				c.Failf("Update(%q) called back with another node", full)
			}
			if had {
				if want := w.M.M[full].Val; !eq(old, want) || !eq(node.Data(), want) {
					c.Failf("Update(%q): old value %s, node holds %s, expected %s", full, show(old), show(node.Data()), show(want))
				}
			} else if old != nil || node.Data() != nil {
				c.Failf("Update(%q) of a new key: old value %s, node holds %s", full, show(old), show(node.Data()))
			}
			if op.A != "" {
				node.SetComment(op.A, op.B)
			}
			if op.B == "m1" || op.B == "m2" {
				node.SetData(op.X.Any())
			}
		})
		if n != 1 {
			c.Failf("Update(%q) called back %d times", full, n)
		}
		if !had {
			w.M.set(full, nil)
			w.M.M[full].Undef = true
		}
		if op.A != "" {
			w.M.M[full].Desc, w.M.M[full].Comment = op.A, op.B
		}
		if op.B == "m1" || op.B == "m2" {
			w.M.set(full, op.X.Any())
		}
	case "handle":
		if node, ok := w.Nodes[full]; ok && w.M.isKey(full) {
			if node.Key() != full || !eq(node.Data(), w.M.M[full].Val) {
				c.Failf("the node got for %q now has the key %q and the value %s (expected %s)", full, node.Key(), show(node.Data()), show(w.M.M[full].Val))
			}
			node.SetData(op.X.Any())
			w.M.set(full, op.X.Any())
		}
	case "remove", "removeex":
		isKey, isSec := w.M.isKey(full), w.M.isSection(full)
		var e *Ent
		if isKey {
			e = w.M.M[full]
		}
		for k := range w.Nodes {
			if k == full || w.M.under(full, k) {
				delete(w.Nodes, k)
			}
		}
		want := w.M.remove(full)
		var got bool
		if op.Op == "remove" {
			got = s.Remove(op.K)
		} else {
			var node radix.Node[any]
			node, _, got = s.low.RemoveEx(op.K)
			if got && isKey && (node == nil || !eq(node.Data(), e.Val) || node.Key() != full) {
				c.Failf("RemoveEx(%q) did not return the removed node", full)
			}
		}
		if got != want {
			c.Failf("%s(%q) = %v, expected %v", op.Op, full, got, want)
		}
		if want {
			w.Removed++
			if isSec {
				w.RemovedBelow++
			}
		}
	case "comment":
		if w.M.isKey(full) {
			w.M.M[full].Desc, w.M.M[full].Comment = op.A, op.B
			if !s.SetComment(op.K, op.A, op.B) {
				c.Failf("SetComment(%q) = false for an existing key", full)
			}
		} else if !w.M.isSection(full) {
			if s.SetComment(op.K, op.A, op.B) {
				c.Failf("SetComment(%q) = true for a path which does not exist", full)
			}
		}
	case "tag":
		if w.M.isKey(full) {
			var tag any = op.A
			if op.A == "" {
				tag = nil // taken away
			}
			w.M.M[full].Tag = tag
			if !s.SetTag(op.K, tag) {
				c.Failf("SetTag(%q) = false for an existing key", full)
			}
		} else if !w.M.isSection(full) {
			if s.SetTag(op.K, op.A) {
				c.Failf("SetTag(%q) = true for a path which does not exist", full)
			}
		}
	case "view":
		var v *SUT
		npre := ""
		switch op.A {
		case "with":
			v, npre = s.WithPrefix(op.K), full
		case "replaced":
			v, npre = s.WithPrefixReplaced(op.K), op.K
		default: // the segments as separate arguments
			v, npre = s.WithPrefix(strings.Split(op.K, w.M.D)...), full
		}
		if v.Prefix() != npre {
			c.Failf("the prefix of the view is %q, expected %q", v.Prefix(), npre)
		}
		w.Views, w.Pre = append(w.Views, v), append(w.Pre, npre)
	case "merge":
		flatten(full, w.M.D, op.X.Any().(map[string]any), false, func(k string, v any) {
			w.M.set(k, v)
		})
		if err := s.Merge(op.K, op.X.Any().(map[string]any)); err != nil {
			c.Failf("Merge(%q) failed: %v", full, err)
		}
	case "dup":
		// the history goes on with the copy; the model does not change
		d := s.Dup()
		w.Views, w.Pre, w.S = []*SUT{d}, []string{pre}, d
		w.Nodes = map[string]radix.Node[any]{}
	case "look":
		w.look(s, op.K, full)
		w.look(w.S, full, full)
		w.Looks++
	case "bulk":
		for i, k := range bulkKeys(op.A, op.N, w.M.D) {
			if op.K != "" {
				k = op.K + w.M.D + k
			}
			v := vInt(i)
			w.Apply(Op{Op: "set", V: op.V, K: k, X: &v})
		}
		w.Bulks++
	case "unbulk":
		ks := bulkKeys(op.A, op.N, w.M.D)
		switch op.B {
		case "down":
			slices.Reverse(ks)
		case "even":
			var a, b []string
			for i, k := range ks {
				if i%2 == 0 {
					a = append(a, k)
				} else {
					b = append(b, k)
				}
			}
			ks = append(a, b...)
		}
		left := op.X.Any().(int)
		for i := 0; i < len(ks)-left; i++ {
			k := ks[i]
			if op.K != "" {
				k = op.K + w.M.D + k
			}
			w.Apply(Op{Op: "remove", V: op.V, K: k})
		}
	default:
		panic("HARNESS-ERROR: op " + op.Op)
	}
}

// look reads one path in the ways there are.
func (w *World) look(s *SUT, p, full string) {
	c := w.C
	e := w.M.M[full]
	has := w.M.has(full)
	if got := s.Has(p); got != has {
		c.Failf("amid the history, Has(%q) = %v, expected %v", full, got, has)
	}
	if got := s.low.Search(p); got != has {
		c.Failf("amid the history, Search(%q) = %v, expected %v", full, got, has)
	}
	var want any
	if e != nil {
		want = e.Val
	}
	if got, found := s.Get(p); !eq(got, want) || found && !has || !found && e != nil {
		c.Failf("amid the history, Get(%q) = %s, %v; expected %s", full, show(got), found, show(want))
	}
	if got := s.MustGet(p); !eq(got, want) {
		c.Failf("amid the history, MustGet(%q) = %s; expected %s", full, show(got), show(want))
	}
	if got, _, found, _ := s.low.Query(p, nil); !eq(got, want) || found && !has || !found && e != nil {
		c.Failf("amid the history, Query(%q) = %s, %v; expected %s", full, show(got), found, show(want))
	}
	node, _, _, found := s.Locate(p, nil)
	if found && !has || !found && e != nil {
		c.Failf("amid the history, Locate(%q) found it: %v", full, found)
	}
	if found && e != nil && (node.Key() != full || !eq(node.Data(), want)) {
		c.Failf("amid the history, Locate(%q) gave the node of %q with %s; expected %s", full, node.Key(), show(node.Data()), show(want))
	}
	r, err := s.GetR(p)
	diffMaps(c, "amid the history, GetR("+full+")", r, w.M.section(full), err)
	if want := w.M.section(full); subsetPrefixFree(want, w.M.D) {
		g, err := s.GetM(p)
		diffMaps(c, "amid the history, GetM("+full+")", g, nest(relative(want, full, w.M.D), w.M.D), err)
	}
}

var bg = context.Background()

// ---------------------------------------------------------------- observations

// checkReads compares the reads of every key, and of the probed paths.
func (w *World) checkReads(s *SUT, pre string, probes []string) {
	c := w.C
	for full, e := range w.M.M {
		k := full
		if pre != "" {
			if !w.M.under(pre, full) {
				continue
			}
			k = full[len(pre)+len(w.M.D):]
		}
		if got, found := s.Get(k); !found || !eq(got, e.Val) {
			c.Failf("Get(%q) = %s, %v; expected %s", full, show(got), found, show(e.Val))
		}
		if got := s.MustGet(k); !eq(got, e.Val) {
			c.Failf("MustGet(%q) = %s; expected %s", full, show(got), show(e.Val))
		}
	}
	for _, p := range probes {
		full := w.M.join(pre, p)
		if w.M.isKey(full) {
			continue
		}
		got, found := s.Get(p)
		if got != nil {
			c.Failf("Get(%q) = %s for a path without a value", full, show(got))
		}
		if found && !w.M.isSection(full) {
			c.Failf("Get(%q) found something, but there is no such path", full)
		}
		if got := s.MustGet(p); got != nil {
			c.Failf("MustGet(%q) = %s for a path without a value", full, show(got))
		}
	}
}

// deepReads uses the other read entries.
func (w *World) deepReads(s *SUT, probes []string) {
	c := w.C
	for k, e := range w.M.M {
		n := 0
		s.GetEx(k, func(node radix.Node[any], data any, branch bool, _ radix.KVPair) {
			n++
			if node == nil || node.Key() != k || !eq(data, e.Val) || !eq(node.Data(), e.Val) || branch {
				c.Failf("GetEx(%q) gave another node", k)
			}
		})
		if n != 1 {
			c.Failf("GetEx(%q) called back %d times", k, n)
		}
		data, branch, found, err := s.low.Query(k, nil)
		if !found || branch || err != nil || !eq(data, e.Val) {
			c.Failf("Query(%q) = %s, branch %v, found %v, err %v; expected %s", k, show(data), branch, found, err, show(e.Val))
		}
		node, branch, partial, found := s.Locate(k, nil)
		if !found || partial || branch || node == nil || node.Key() != k || !eq(node.Data(), e.Val) {
			c.Failf("Locate(%q): branch %v, partial %v, found %v", k, branch, partial, found)
		}
	}
	for _, p := range probes {
		if w.M.has(p) {
			continue
		}
		if _, _, found, err := s.low.Query(p, nil); found || err == nil {
			c.Failf("Query(%q) found a path which does not exist", p)
		}
		if _, _, _, found := s.Locate(p, nil); found {
			c.Failf("Locate(%q) found a path which does not exist", p)
		}
		s.GetEx(p, func(radix.Node[any], any, bool, radix.KVPair) {
			c.Failf("GetEx(%q) called back for a path which does not exist", p)
		})
	}
}

// partOf tests if one of the keys begins with a text.
func partOf(text string, keys map[string]bool) bool {
	for k := range keys {
		if strings.HasPrefix(k, text) {
			return true
		}
	}
	return false
}

func (w *World) checkHas(s *SUT, pre string, probes []string) {
	there := map[string]bool{} // the keys and sections
	for _, p := range sectionsOf(w.M) {
		there[p] = true
	}
	parts := map[string]bool{}
	for k := range w.M.M {
		for i := range k {
			parts[k[:i]] = true
		}
		parts[k] = true
	}
	test := func(full string) {
		p := full
		if pre != "" {
			if !w.M.under(pre, full) {
				return
			}
			p = full[len(pre)+len(w.M.D):]
		}
		want := there[full]
		if got := s.Has(p); got != want {
			w.C.Failf("Has(%q) = %v, expected %v", full, got, want)
		}
		if got := s.low.Search(p); got != want {
			w.C.Failf("Search(%q) = %v, expected %v", full, got, want)
		}
		// a part of a path: the beginning of a key, wherever it ends
		if got := s.low.HasPart(p); !got && parts[full] || got && !want && !partOf(full, w.M.ever) {
			w.C.Failf("HasPart(%q) = %v, expected %v", full, got, !got)
		}
		last, _ := utf8.DecodeLastRuneInString(full)
		if _, key := w.M.M[full]; key && (!s.low.EndsWith(p, last) || s.low.EndsWith(p, last+1)) {
			w.C.Failf("EndsWith(%q, %q) = %v, with %q %v", full, last, s.low.EndsWith(p, last), last+1, s.low.EndsWith(p, last+1))
		}
		if first, _ := utf8.DecodeRuneInString(p); !want && (s.low.EndsWith(p, last) || s.low.StartsWith(p, first)) {
			w.C.Failf("StartsWith or EndsWith of %q found a path which does not exist", full)
		}
	}
	for k := range w.M.M {
		segs := strings.Split(k, w.M.D)
		for i := 1; i <= len(segs); i++ {
			p := strings.Join(segs[:i], w.M.D)
			test(p)
			if q := chopRune(p); validKey(q, w.M.D) {
				test(q)
			}
			test(p + "z")
			test(p + w.M.D + "nope")
		}
	}
	for _, p := range probes {
		test(w.M.join(pre, p))
	}
}

// checkEnum compares the ways to list everything.
func (w *World) checkEnum(s *SUT) {
	c := w.C
	want := w.M.flat()
	visited := map[string]int{}
	s.Walk("", func(path, fragment string, node radix.Node[any]) {
		if node == nil {
			c.Failf("Walk gave no node for %q", path)
		}
		if node.Key() != path {
			c.Failf("Walk gave the path %q with the node of %q", path, node.Key())
		}
		if !strings.HasSuffix(path, fragment) {
			c.Failf("Walk gave the fragment %q which does not end the path %q", fragment, path)
		}
		if node.IsLeaf() == node.IsBranch() {
			c.Failf("the node %q is both leaf and branch, or none", path)
		}
		if e := w.M.M[path]; e != nil {
			if e.Undef {
				// not determined
			} else if !node.HasData() || node.Empty() {
				c.Failf("the node of the key %q: HasData %v, Empty %v", path, node.HasData(), node.Empty())
			}
		} else if node.IsBranch() && (node.HasData() || node.Data() != nil) {
			c.Failf("the branch %q holds data", path)
		}
		if node.IsLeaf() {
			visited[path]++
			if v, ok := want[path]; !ok || !eq(v, node.Data()) {
				c.Failf("Walk visited %q => %s, expected %s (present: %v)", path, show(node.Data()), show(v), ok)
			}
		}
	})
	for k := range want {
		if visited[k] != 1 {
			c.Failf("Walk visited the key %q %d times", k, visited[k])
		}
	}
	for _, root := range []string{"", ".", "(root)"} {
		if root == "." && w.M.D != "." {
			continue
		}
		r, err := s.GetR(root)
		diffMaps(c, "GetR("+root+")", r, want, err)
		m, err := s.GetM(root)
		diffMaps(c, "GetM("+root+")", m, want, err)
	}
	diffMaps(c, "MustR", s.MustR(""), want, nil)
	diffMaps(c, "MustM", s.MustM(""), want, nil)
}

func diffMaps(c *Ctx, what string, got, want map[string]any, err error) {
	if err != nil {
		c.Failf("%s failed: %v", what, err)
	}
	for k, v := range want {
		g, ok := got[k]
		if !ok {
			c.Failf("%s misses %q; got %s", what, k, show(got))
		}
		if !eq(g, v) {
			c.Failf("%s: %q => %s, expected %s", what, k, show(g), show(v))
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			c.Failf("%s has an unexpected key %q; expected only %s", what, k, show(want))
		}
	}
}

func (w *World) checkMeta(s *SUT) {
	c := w.C
	for k, e := range w.M.M {
		d, err := s.GetDesc(k)
		if err != nil || d != e.Desc || s.MustGetDesc(k) != e.Desc {
			c.Failf("GetDesc(%q) = %q, %v; expected %q", k, d, err, e.Desc)
		}
		cm, err := s.GetComment(k)
		if err != nil || cm != e.Comment || s.MustGetComment(k) != e.Comment {
			c.Failf("GetComment(%q) = %q, %v; expected %q", k, cm, err, e.Comment)
		}
		tag, err := s.GetTag(k)
		if err != nil || !eq(tag, e.Tag) || !eq(s.MustGetTag(k), e.Tag) {
			c.Failf("GetTag(%q) = %s, %v; expected %s", k, show(tag), err, show(e.Tag))
		}
		node, _, _, found := s.Locate(k, nil)
		if !found || node.Description() != e.Desc || node.Comment() != e.Comment || !eq(node.Tag(), e.Tag) {
			c.Failf("the node of %q lost its description, comment or tag", k)
		}
	}
}
