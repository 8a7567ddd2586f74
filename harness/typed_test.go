package harness

import (
	"strconv"
	"testing"

	"pgregory.net/rapid"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
)

// ---------------------------------------------------------------- C25: trees of one value type

type c25op struct {
	Op string `json:"op"`
	K  string `json:"k,omitempty"`
	X  int    `json:"x,omitempty"`
	A  string `json:"a,omitempty"`
}

type c25 struct {
	Type   string   `json:"type"`
	Delim  string   `json:"delim"`
	Ops    []c25op  `json:"ops"`
	Probes []string `json:"probes,omitempty"`
	Prefix string   `json:"prefix,omitempty"`
}

type rec struct {
	A int
	B string
}

func TestC25(t *testing.T) {
	Check(t, "C25", func(t *rapid.T) c25 {
		r := c25{Type: rapid.SampledFrom([]string{"int", "string", "bool", "rec", "*rec", "[]int", "func"}).Draw(t, "type"), Delim: genDelim(t)}
		g := newKeyGen(t, r.Delim)
		if rapid.IntRange(0, 2).Draw(t, "pfx") == 0 {
			r.Prefix = g.Path(t)
		}
		for i := rapid.IntRange(1, 20).Draw(t, "n"); i > 0; i-- {
			op := c25op{Op: rapid.SampledFrom([]string{"set", "set", "set", "set", "setex", "setnode", "update", "setempty", "remove", "merge", "mini"}).Draw(t, "op"),
				K: g.Key(t), X: rapid.IntRange(-3, 3).Draw(t, "x"), A: genMeta(t)}
			if rapid.IntRange(0, 2).Draw(t, "old") == 0 {
				op.K = g.Old(t)
			}
			if op.Op == "remove" {
				op.K = g.Path(t)
			}
			r.Ops = append(r.Ops, op)
		}
		r.Probes = g.Probes(t, 0, 6)
		return r
	}, func(c *Ctx, h c25) {
		switch h.Type {
		case "int":
			runTyped(c, h, func(i int) int { return i }, true)
		case "string":
			runTyped(c, h, func(i int) string {
				if i == 0 {
					return ""
				}
				return strconv.Itoa(i)
			}, true)
		case "bool":
			runTyped(c, h, func(i int) bool { return i > 0 }, true)
		case "rec":
			runTyped(c, h, func(i int) rec {
				if i == 0 {
					return rec{}
				}
				return rec{i, "r"}
			}, true)
		case "*rec":
			recs := map[int]*rec{}
			runTyped(c, h, func(i int) *rec {
				if i == 0 {
					return nil
				}
				if recs[i] == nil {
					recs[i] = &rec{i, "p"}
				}
				return recs[i]
			}, false)
		case "[]int":
			runTyped(c, h, func(i int) []int {
				if i == 0 {
					return nil
				}
				return []int{i, i}
			}, true)
		case "func":
			runTyped(c, h, func(i int) func() int {
				if i == 0 {
					return nil
				}
				return func() int { return i }
			}, false)
		}
	})
}

// same compares two values, functions by what they give.
func sameT(a, b any) bool {
	f, ok1 := a.(func() int)
	g, ok2 := b.(func() int)
	if ok1 && ok2 {
		if f == nil || g == nil {
			return f == nil && g == nil
		}
		return f() == g()
	}
	return eq(a, b)
}

func runTyped[T any](c *Ctx, h c25, mk func(int) T, dup bool) {
	root := radix.NewTrieBy[T](delimRune(h.Delim))
	defer root.Close()
	var s radix.Trie[T] = root
	if h.Prefix != "" {
		s = root.WithPrefix(h.Prefix)
	}
	var zero T
	type ent struct {
		v     T
		com   string
		undef bool // emptied: whether it has data is not determined
	}
	m := map[string]*ent{}
	mm := newModel(h.Delim) // the keys
	full := func(k string) string { return mm.join(h.Prefix, k) }
	put := func(k string, v T) (old *ent) {
		old = m[k]
		n := &ent{v: v}
		if old != nil {
			n.com = old.com
		}
		m[k] = n
		mm.set(k, 1)
		return old
	}
	// what a set reports as the old value: nothing, or the value replaced
	checkOld := func(op c25op, was *ent, got any) {
		if was == nil {
			if got != nil && !sameT(got, zero) {
				c.Failf("%s(%q) of a new key reports the old value %s", op.Op, op.K, show(got))
			}
			return
		}
		if !sameT(got, was.v) && !(got == nil && sameT(was.v, zero)) {
			c.Failf("%s(%q) reports the old value %s, expected %s", op.Op, op.K, show(got), show(was.v))
		}
	}
	check := func(what string, tr radix.Trie[T], strip bool) {
		for k, e := range m {
			if strip {
				k = k[len(h.Prefix)+1:]
			}
			got, found := tr.Get(k)
			if !found || !sameT(got, e.v) {
				c.Failf("%s: Get(%q) = %s, %v; expected %s", what, k, show(got), found, show(e.v))
			}
			if got := tr.MustGet(k); !sameT(got, e.v) {
				c.Failf("%s: MustGet(%q) = %s; expected %s", what, k, show(got), show(e.v))
			}
			if got, err := tr.GetComment(k); err != nil || got != e.com {
				c.Failf("%s: GetComment(%q) = %q, %v; expected %q", what, k, got, err, e.com)
			}
		}
	}
	zeros := 0
	for _, op := range h.Ops {
		k := full(op.K)
		v := mk(op.X)
		switch op.Op {
		case "set":
			was := put(k, v)
			node, old := s.Set(op.K, v)
			checkOld(op, was, old)
			if node == nil || node.Key() != k || !sameT(node.Data(), v) || !node.HasData() || node.Empty() {
				c.Failf("Set(%q) does not return its node, with the data", op.K)
			}
			if op.X == 0 {
				zeros++
			}
		case "setex":
			was := put(k, v)
			n := 0
			old := s.SetEx(op.K, v, func(path string, oldData any, node radix.Node[T], trie radix.Trie[T]) {
				n++
				checkOld(op, was, oldData)
				if !sameT(node.Data(), v) {
					c.Failf("SetEx(%q): the node holds %s", op.K, show(node.Data()))
				}
			})
			checkOld(op, was, old)
			if n != 1 {
				c.Failf("SetEx(%q) called back %d times", op.K, n)
			}
		case "setnode":
			was := put(k, v)
			m[k].com = op.A
			_, old := s.SetNode(op.K, v, nil, "d", op.A)
			checkOld(op, was, old)
		case "update":
			n := 0
			s.Update(op.K, func(node radix.Node[T], old any) {
				n++
				want := zero
				if e := m[k]; e != nil {
					want = e.v
				}
				if !sameT(node.Data(), want) || (!sameT(old, want) && !(old == nil && sameT(want, zero))) {
					c.Failf("Update(%q): the node holds %s, the old value is %s, expected %s", op.K, show(node.Data()), show(old), show(want))
				}
				node.SetData(v)
			})
			if n != 1 {
				c.Failf("Update(%q) called back %d times", op.K, n)
			}
			put(k, v)
		case "setempty":
			was := put(k, zero)
			m[k].undef = true
			checkOld(op, was, s.SetEmpty(op.K))
		case "merge":
			if err := s.Merge("", map[string]any{op.K: v}); err != nil {
				c.Failf("Merge(%q): %v", op.K, err)
			}
			put(k, v)
		case "mini": // the minimal store is such a tree
			ms := store.NewStoreT[T]()
			if got, found := ms.Get(op.K); found || !sameT(got, zero) || ms.Has(op.K) {
				c.Failf("an empty store has %q: %s", op.K, show(got))
			}
			ms.Set(op.K, v)
			if got, found := ms.Get(op.K); !found || !sameT(got, v) || !sameT(ms.MustGet(op.K), v) || !ms.Has(op.K) {
				c.Failf("%q reads back as %s, %v; expected %s", op.K, show(got), found, show(v))
			}
		case "remove":
			want := mm.remove(k)
			for x := range m {
				if mm.M[x] == nil {
					delete(m, x)
				}
			}
			if got := s.Remove(op.K); got != want {
				c.Failf("Remove(%q) = %v, expected %v", k, got, want)
			}
		}
		check("after "+op.Op, root, false)
	}
	if h.Prefix != "" {
		check("through the view", s, true)
	}
	for _, p := range h.Probes {
		if got := root.Has(p); got != mm.has(p) {
			c.Failf("Has(%q) = %v", p, got)
		}
		if !mm.has(p) {
			if got, found := root.Get(p); found || !sameT(got, zero) || !sameT(root.MustGet(p), zero) {
				c.Failf("Get(%q) = %s, %v for a path which does not exist", p, show(got), found)
			}
		}
	}
	seen := map[string]int{}
	root.Walk("", func(path, frag string, node radix.Node[T]) {
		if !node.IsLeaf() {
			return
		}
		seen[path]++
		if e := m[path]; e == nil || seen[path] > 1 || !sameT(node.Data(), e.v) {
			c.Failf("Walk visits %q with %s (%d times)", path, show(node.Data()), seen[path])
		} else if !e.undef && (!node.HasData() || node.Empty()) {
			c.Failf("the node of %q says it has no data, it was set to %s", path, show(e.v))
		}
	})
	if len(seen) != len(m) {
		c.Failf("Walk visits %d keys, expected %d", len(seen), len(m))
	}
	if got, err := root.GetM(""); err != nil || len(got) != len(m) {
		c.Failf("GetM: %v, %v; expected %d keys", got, err, len(m))
	}
	if dup {
		d := root.Dup()
		check("the copy", d, false)
		for k := range m {
			d.Set(k, mk(7))
			break
		}
		d.Set("zz", mk(8))
		check("the original after changing its copy", root, false)
		if root.Has("zz") && !mm.has("zz") {
			c.Failf("the original sees a key of its copy")
		}
		d.Close()
	}
	c.NT(len(m) > 1)
	c.Label(true, "type="+h.Type)
	c.Label(zeros > 0, "zero values")
	c.Label(h.Prefix != "", "prefixed view")
}
