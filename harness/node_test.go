package harness

import (
	"testing"

	"pgregory.net/rapid"

	"github.com/hedzr/store/radix"
)

// ---------------------------------------------------------------- C28: nodes and callbacks

type c28op struct {
	Op
	Edits []string `json:"edits,omitempty"` // of op "grab" and "use"
}

type c28 struct {
	Kind  string  `json:"kind"`
	Delim string  `json:"delim"`
	Ops   []c28op `json:"ops"`
}

func TestC28(t *testing.T) {
	edits := []string{"data", "data", "empty", "comment", "tag", "mod+", "mod-", "toggle"}
	Check(t, "C28", func(t *rapid.T) c28 {
		h := genHist(t, HistOpts{
			Ops: []string{"set", "set", "setex", "setex", "setnode", "update", "update", "setempty", "handle", "handle", "handle", "handle", "remove", "comment", "tag", "view"},
			Min: 3, Max: 24, Delims: true,
		})
		r := c28{Kind: h.Kind, Delim: h.Delim}
		for _, op := range h.Ops {
			o := c28op{Op: op}
			if op.Op == "handle" {
				o.Op.Op = rapid.SampledFrom([]string{"grab", "use", "use"}).Draw(t, "hop")
				o.A, o.B = genMeta(t), genMeta(t)
				if o.Op.Op == "grab" {
					o.A = rapid.SampledFrom([]string{"getex", "locate", "walk", "setex"}).Draw(t, "way")
				}
				o.Edits = rapid.SliceOfN(rapid.SampledFrom(edits), 0, 3).Draw(t, "edits")
			}
			r.Ops = append(r.Ops, o)
		}
		return r
	}, func(c *Ctx, h c28) {
		w := newWorld(c, h.Kind, h.Delim)
		defer w.S.Close()
		used, late := 0, 0
		born := map[string]int{}
		mod := map[string]bool{}
		same := func(node radix.Node[any], full, how string) {
			e := w.M.M[full]
			if node.Key() != full || !eq(node.Data(), e.Val) || node.Description() != e.Desc || node.Comment() != e.Comment || !eq(node.Tag(), e.Tag) {
				c.Failf("the node of %q (%s) is now %q: %s, %q, %q, %s; expected %s, %q, %q, %s", full, how,
					node.Key(), show(node.Data()), node.Description(), node.Comment(), show(node.Tag()), show(e.Val), e.Desc, e.Comment, show(e.Tag))
			}
			if !node.IsLeaf() || node.IsBranch() {
				c.Failf("the node of the key %q is not a leaf", full)
			}
			if m, known := mod[full]; known && node.Modified() != m {
				c.Failf("the node of %q: modified is %v, expected %v", full, node.Modified(), m)
			}
		}
		for i, op := range h.Ops {
			sv := w.Views[op.V%len(w.Views)]
			full := w.M.join(w.Pre[op.V%len(w.Views)], op.K)
			c.Label(sv != w.S, "through a view")
			switch op.Op.Op {
			case "grab":
				if !w.M.isKey(full) {
					continue
				}
				var node radix.Node[any]
				switch op.A {
				case "getex":
					n := 0
					sv.GetEx(op.K, func(nd radix.Node[any], data any, branch bool, _ radix.KVPair) {
						n++
						node = nd
						if !eq(data, w.M.M[full].Val) || branch {
							c.Failf("GetEx(%q) gives %s (branch %v)", op.K, show(data), branch)
						}
					})
					if n != 1 {
						c.Failf("GetEx(%q) called back %d times", op.K, n)
					}
				case "locate":
					node, _, _, _ = sv.Locate(op.K, nil)
				case "walk":
					w.S.Walk("", func(path, frag string, nd radix.Node[any]) {
						if nd.Key() == full && nd.IsLeaf() {
							node = nd
						}
					})
				case "setex":
					op.Op.Op = "setex"
					w.Apply(op.Op)
					delete(mod, full)
					node = w.Nodes[full]
				}
				if node == nil {
					c.Failf("%s of %q gives no node", op.A, op.K)
				}
				if old := w.Nodes[full]; old != nil && old != node {
					c.Failf("%s of %q gives another node than before", op.A, op.K)
				}
				w.Nodes[full] = node
				if born[full] == 0 {
					born[full] = i + 1
				}
				same(node, full, op.A)
				w.edit(node, full, op, mod)
			case "use":
				node := w.Nodes[full]
				if node == nil || !w.M.isKey(full) {
					continue
				}
				used++
				if i-born[full] > 2 {
					late++
				}
				same(node, full, "held")
				w.edit(node, full, op, mod)
			default:
				w.Apply(op.Op)
				switch op.Op.Op {
				case "set", "setex", "setnode", "update", "setempty":
					born[full] = i
					delete(mod, full) // (the flag after these is C11's)
				case "remove":
					for k := range mod {
						if !w.M.isKey(k) {
							delete(mod, k)
						}
					}
				}
			}
			for k, node := range w.Nodes {
				if w.M.isKey(k) {
					same(node, k, "after "+op.Op.Op)
				}
			}
			w.checkReads(w.S, "", nil)
		}
		w.checkMeta(w.S)
		w.checkEnum(w.S)
		c.NT(used > 0 && len(w.M.M) > 1)
		c.Label(used > 0, "used a held node")
		c.Label(late > 0, "after other operations")
		c.Label(w.Splits > 0, "split")
	})
}

// edit changes a key through its node.
func (w *World) edit(node radix.Node[any], full string, op c28op, mod map[string]bool) {
	e := w.M.M[full]
	for _, ed := range op.Edits {
		switch ed {
		case "data":
			e.Val = op.X.Any()
			node.SetData(op.X.Any())
		case "empty":
			e.Val, e.Tag = nil, nil
			node.SetEmpty()
		case "comment":
			e.Desc, e.Comment = op.A, op.B
			node.SetComment(op.A, op.B)
		case "tag":
			e.Tag = op.B
			node.SetTag(op.B)
		case "mod+":
			mod[full] = true
			node.SetModified(true)
		case "mod-":
			mod[full] = false
			node.SetModified(false)
		case "toggle":
			mod[full] = !node.Modified()
			node.ToggleModified()
		}
	}
}
