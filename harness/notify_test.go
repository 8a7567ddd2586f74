package harness

import (
	"fmt"
	"sort"
	"testing"

	"pgregory.net/rapid"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
)

// ---------------------------------------------------------------- C18: notifications

type c18op struct {
	Op string `json:"op"` // set | remove | merge | load | within
	K  string `json:"k,omitempty"`
	X  *Val   `json:"x,omitempty"`
	L  *load  `json:"l,omitempty"`
}

type c18 struct {
	Delim    string  `json:"delim"`
	Handlers [3]int  `json:"handlers"`        // how many of each kind
	Nils     bool    `json:"nils,omitempty"`  // with nil handlers around them
	Apart    bool    `json:"apart,omitempty"` // each registered with an option of its own
	Ops      []c18op `json:"ops"`
}

type event struct {
	kind string
	path string
	val  any
	old  any
	flag bool
	any  bool // the old value is not determined
}

func (e event) String() string {
	return fmt.Sprintf("%s(%q, %s, old %s, loading/merging %v)", e.kind, e.path, show(e.val), show(e.old), e.flag)
}

func TestC18(t *testing.T) {
	Check(t, "C18", func(t *rapid.T) c18 {
		r := c18{Delim: genDelim(t)}
		for i := range r.Handlers {
			r.Handlers[i] = rapid.IntRange(0, 2).Draw(t, "handlers")
		}
		r.Nils, r.Apart = rapid.IntRange(0, 3).Draw(t, "nils") == 0, rapid.IntRange(0, 3).Draw(t, "apart") == 0
		g := newKeyGen(t, r.Delim)
		for i := rapid.IntRange(1, 14).Draw(t, "nops"); i > 0; i-- {
			op := c18op{Op: rapid.SampledFrom([]string{"set", "set", "set", "set", "remove", "remove", "remove-ex", "remove-within", "merge", "load", "within"}).Draw(t, "op")}
			op.K = g.Key(t)
			if rapid.Bool().Draw(t, "old") {
				op.K = g.Old(t)
			}
			switch op.Op {
			case "set", "within":
				v := genVal(t, "val")
				op.X = &v
			case "remove", "remove-ex", "remove-within":
				if rapid.Bool().Draw(t, "path") {
					op.K = g.Path(t)
				}
			case "merge":
				if rapid.Bool().Draw(t, "root") {
					op.K = ""
				}
				v := genTree(t, g, 2)
				op.K = graft(t, g, op.K, &v)
				op.X = &v
			case "load":
				l := genLoad(t, g, false)
				op.L = &l
			}
			r.Ops = append(r.Ops, op)
		}
		return r
	}, func(c *Ctx, h c18) {
		var log [3][2][]event
		var opts []store.Opt
		var onNew []store.OnNewHandler
		for i := 0; i < h.Handlers[0]; i++ {
			if h.Nils {
				onNew = append(onNew, nil)
			}
			onNew = append(onNew, func(path string, value any, m bool) {
				log[0][i] = append(log[0][i], event{kind: "new", path: path, val: value, flag: m})
			})
		}
		var onChange []store.OnChangeHandler
		for i := 0; i < h.Handlers[1]; i++ {
			if h.Nils {
				onChange = append(onChange, nil)
			}
			onChange = append(onChange, func(path string, value, old any, m bool) {
				log[1][i] = append(log[1][i], event{kind: "change", path: path, val: value, old: old, flag: m})
			})
		}
		var onDelete []store.OnDeleteHandler
		for i := 0; i < h.Handlers[2]; i++ {
			if h.Nils {
				onDelete = append(onDelete, nil)
			}
			onDelete = append(onDelete, func(path string, value any, m bool) {
				log[2][i] = append(log[2][i], event{kind: "delete", path: path, old: value, flag: m})
			})
		}
		if h.Apart {
			for _, f := range onNew {
				opts = append(opts, store.WithOnNewHandlers(f))
			}
			for _, f := range onChange {
				opts = append(opts, store.WithOnChangeHandlers(f))
			}
			for _, f := range onDelete {
				opts = append(opts, store.WithOnDeleteHandlers(f))
			}
		} else {
			opts = append(opts, store.WithOnNewHandlers(onNew...), store.WithOnChangeHandlers(onChange...), store.WithOnDeleteHandlers(onDelete...))
		}
		s := newSUT("store", h.Delim, opts...).st
		defer s.Close()
		m := newModel(h.Delim)
		seen := map[string]bool{}
		for _, op := range h.Ops {
			log = [3][2][]event{}
			var want [3][]event
			put := func(k string, v any, flag bool) {
				if e := m.M[k]; e != nil {
					want[1] = append(want[1], event{kind: "change", path: k, val: v, old: e.Val, flag: flag})
				} else {
					want[0] = append(want[0], event{kind: "new", path: k, val: v, flag: flag})
				}
				m.set(k, v)
			}
			switch op.Op {
			case "set":
				put(op.K, op.X.Any(), false)
				s.Set(op.K, op.X.Any())
			case "within":
				put(op.K, op.X.Any(), true)
				s.WithinLoading(func() { s.Set(op.K, op.X.Any()) })
			case "remove", "remove-ex", "remove-within":
				there := m.has(op.K)
				if there {
					ev := event{kind: "delete", path: op.K, flag: op.Op == "remove-within"}
					if e := m.M[op.K]; e != nil {
						ev.old = e.Val
					} else {
						ev.any = true // a section: no value of its own
					}
					want[2] = append(want[2], ev)
				}
				m.remove(op.K)
				var done bool
				switch op.Op {
				case "remove":
					done = s.Remove(op.K)
				case "remove-ex":
					_, _, done = s.(interface {
						RemoveEx(string) (radix.Node[any], radix.Node[any], bool)
					}).RemoveEx(op.K)
				case "remove-within":
					s.WithinLoading(func() { done = s.Remove(op.K) })
				}
				if done != there {
					c.Failf("%s %q returned %v, expected %v", op.Op, op.K, done, there)
				}
			case "merge":
				flat, clash := flatSource(op.K, h.Delim, op.X.Any().(map[string]any), false)
				if clash {
					return
				}
				for k, v := range flat {
					put(k, v, true)
				}
				if err := s.Merge(op.K, op.X.Any().(map[string]any)); err != nil {
					c.Failf("Merge failed: %v", err)
				}
			case "load":
				flat, clash := flatSource(op.L.At, h.Delim, op.L.V.Any().(map[string]any), op.L.Flat)
				if clash {
					return
				}
				for k, v := range flat {
					put(k, v, true)
				}
				lo, _ := op.L.options()
				if _, err := s.Load(bg, lo...); err != nil {
					c.Failf("Load failed: %v", err)
				}
			}
			for kind := range log {
				for i := 0; i < h.Handlers[kind]; i++ {
					cmpEvents(c, op, log[kind][i], want[kind])
				}
				for _, e := range want[kind] {
					seen[e.kind] = true
					if op.Op != "set" {
						seen[op.Op+":"+e.kind] = true
					}
				}
			}
		}
		c.NT(seen["new"] && seen["change"] && h.Handlers[0] > 0 && h.Handlers[1] > 0)
		for k := range seen {
			c.Label(true, k)
		}
	})
}

func cmpEvents(c *Ctx, op c18op, got, want []event) {
	by := func(x []event) func(i, j int) bool {
		return func(i, j int) bool { return x[i].path < x[j].path }
	}
	sort.Slice(got, by(got))
	sort.Slice(want, by(want))
	for i := range want {
		if i >= len(got) {
			c.Failf("%s %q: no notification %v; got %v", op.Op, op.K, want[i], got)
		}
		g, w := got[i], want[i]
		if g.kind != w.kind || g.path != w.path || !eq(g.val, w.val) || !w.any && !eq(g.old, w.old) || g.flag != w.flag {
			c.Failf("%s %q: notification %v, expected %v", op.Op, op.K, g, w)
		}
	}
	if len(got) > len(want) {
		c.Failf("%s %q: too many notifications: %v, expected %v", op.Op, op.K, got, want)
	}
}
