package harness

import (
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
)

// ---------------------------------------------------------------- C05

type c05 struct {
	Hist
	Seed uint32 `json:"seed"` // selects the nodes the filter keeps
}

// keepByHash is a filter which depends on the key only.
func keepByHash(seed uint32, key string) bool {
	h := seed*2654435761 + 12345
	for _, b := range []byte(key) {
		h = (h ^ uint32(b)) * 16777619
	}
	return h>>13&1 == 0
}

func subsetPrefixFree(m map[string]any, d string) bool {
	for a := range m {
		for b := range m {
			if strings.HasPrefix(b, a+d) {
				return false
			}
		}
	}
	return true
}

func relative(full map[string]any, path, d string) map[string]any {
	r := map[string]any{}
	for k, v := range full {
		if k == path {
			segs := strings.Split(k, d)
			r[segs[len(segs)-1]] = v
		} else {
			r[k[len(path)+len(d):]] = v
		}
	}
	return r
}

func checkSections(c *Ctx, s *SUT, m *Model, paths []string, seed uint32) (multi int) {
	filter := radix.WithFilter(func(node radix.Node[any]) bool { return keepByHash(seed, node.Key()) })
	for _, p := range paths {
		want := m.section(p)
		if len(want) == 0 {
			if r, err := s.GetR(p); err != nil || len(r) != 0 {
				c.Failf("GetR(%q) = %s, %v, but there is no such section", p, show(r), err)
			}
			if r, err := s.GetM(p); err != nil || len(r) != 0 {
				c.Failf("GetM(%q) = %s, %v, but there is no such section", p, show(r), err)
			}
			continue
		}
		r, err := s.GetR(p)
		diffMaps(c, "GetR("+p+")", r, want, err)
		diffMaps(c, "MustR("+p+")", s.MustR(p), want, nil)
		if !subsetPrefixFree(want, m.D) {
			continue
		}
		if len(want) > 1 && len(want) < len(m.M) {
			multi++
		}
		rel := nest(relative(want, p, m.D), m.D)
		g, err := s.GetM(p)
		diffMaps(c, "GetM("+p+")", g, rel, err)
		diffMaps(c, "MustM("+p+")", s.MustM(p), rel, nil)
		g, err = s.GetM(p, radix.WithoutFlattenKeys[any](true))
		diffMaps(c, "GetM("+p+", nested)", g, rel, err)
		g, err = s.GetM(p, radix.WithKeepPrefix[any](true))
		diffMaps(c, "GetM("+p+", keep-prefix)", g, nest(want, m.D), err)

		kept := map[string]any{}
		for k, v := range want {
			if keepByHash(seed, k) {
				kept[k] = v
			}
		}
		g, err = s.GetM(p, filter)
		diffMaps(c, "GetM("+p+", filter)", g, nest(relative(kept, p, m.D), m.D), err)
	}
	// the whole
	all := m.flat()
	kept := map[string]any{}
	for k, v := range all {
		if keepByHash(seed, k) {
			kept[k] = v
		}
	}
	g, err := s.GetM("", filter)
	diffMaps(c, "GetM(root, filter)", g, kept, err)
	g, err = s.GetM("", filter, radix.WithKeepPrefix[any](true))
	diffMaps(c, "GetM(root, filter, keep-prefix)", g, kept, err)
	if m.prefixFree() {
		g, err = s.GetM("", radix.WithoutFlattenKeys[any](true))
		diffMaps(c, "GetM(root, nested)", g, nest(all, m.D), err)
	}
	return
}

func sectionsOf(m *Model) (r []string) {
	seen := map[string]bool{}
	for _, k := range sortedKeys(m.M) {
		segs := strings.Split(k, m.D)
		for i := 1; i <= len(segs); i++ {
			if p := strings.Join(segs[:i], m.D); !seen[p] {
				seen[p] = true
				r = append(r, p)
			}
		}
	}
	return
}

func TestC05(t *testing.T) {
	Check(t, "C05", func(t *rapid.T) c05 {
		return c05{
			Hist: genHist(t, HistOpts{
				Ops: []string{"set", "set", "set", "set", "set", "set", "remove", "insert"}, Looks: true, Bulk: true,
				Min: 1, Max: 22, Delims: true, PrefixFree: rapid.IntRange(0, 2).Draw(t, "pf") > 0, Probes: [2]int{0, 10}, Val: genScalar,
			}),
			Seed: rapid.Uint32().Draw(t, "filter"),
		}
	}, func(c *Ctx, h c05) {
		w := newWorld(c, h.Kind, h.Delim)
		defer w.S.Close()
		for _, op := range h.Ops {
			w.Apply(op)
		}
		multi := checkSections(c, w.S, w.M, append(sectionsOf(w.M), h.Probes...), h.Seed)
		c.NT(multi > 0)
		c.Label(multi > 0, "proper subtree of 2+ keys")
		c.Label(w.M.prefixFree(), "prefix-free")
	})
}

// ---------------------------------------------------------------- C06

func TestC06(t *testing.T) {
	Check(t, "C06", func(t *rapid.T) Hist {
		return genHist(t, HistOpts{
			Ops: []string{"set", "set", "set", "comment", "comment", "tag", "tag", "setnode", "update", "remove", "setempty", "merge", "handle"},
			Min: 2, Max: 26, Delims: true, Probes: [2]int{0, 4}, Looks: true, Bulk: true,
		})
	}, func(c *Ctx, h Hist) {
		w := newWorld(c, h.Kind, h.Delim)
		defer w.S.Close()
		for _, op := range h.Ops {
			w.Apply(op)
			w.checkMeta(w.S)
		}
		w.checkReads(w.S, "", h.Probes)
		w.checkEnum(w.S)
		for _, p := range h.Probes {
			if w.M.has(p) {
				continue
			}
			if _, err := w.S.GetDesc(p); err == nil {
				c.Failf("GetDesc(%q) found a path which does not exist", p)
			}
			if _, err := w.S.GetComment(p); err == nil {
				c.Failf("GetComment(%q) found a path which does not exist", p)
			}
			if _, err := w.S.GetTag(p); err == nil {
				c.Failf("GetTag(%q) found a path which does not exist", p)
			}
			if w.S.MustGetDesc(p) != "" || w.S.MustGetComment(p) != "" || w.S.MustGetTag(p) != nil {
				c.Failf("%q has a description, comment or tag, but does not exist", p)
			}
		}
		n := 0
		for _, e := range w.M.M {
			if e.Desc != "" || e.Comment != "" || e.Tag != nil {
				n++
			}
		}
		c.NT(n > 0 && w.Splits > 0)
		c.Label(n > 0, "annotated keys left")
		c.Label(w.Splits > 0, "split")
		c.Label(w.Removed > 0, "removed")
	})
}

// ---------------------------------------------------------------- C07

type c07 struct {
	Hist
	Opt string   `json:"opt,omitempty"` // the store is created with this prefix
	Re  []string `json:"re"`            // prefixes set with SetPrefix at the end
}

func TestC07(t *testing.T) {
	Check(t, "C07", func(t *rapid.T) c07 {
		h := c07{Hist: genHist(t, HistOpts{
			Ops: []string{"set", "set", "set", "set", "view", "view", "remove", "merge", "comment", "tag", "setex", "update", "setnode", "insert", "removeex"},
			Min: 3, Max: 26, Delims: true, Probes: [2]int{0, 8}, Val: genScalar, Looks: true,
		})}
		g := newKeyGen(t, h.Delim)
		for _, op := range h.Ops {
			if op.K != "" {
				g.Seen = append(g.Seen, op.K)
			}
		}
		h.Re = g.Probes(t, 0, 3)
		if h.Kind == "store" && rapid.IntRange(0, 3).Draw(t, "opt?") == 0 {
			h.Opt = g.Path(t)
		}
		return h
	}, func(c *Ctx, h c07) {
		w := newWorld(c, h.Kind, h.Delim)
		if h.Opt != "" {
			root := newSUT("store", h.Delim, store.WithPrefix(h.Opt))
			if root.Prefix() != h.Opt {
				c.Failf("a store created with the prefix %q has the prefix %q", h.Opt, root.Prefix())
			}
			w.S = root.WithPrefixReplaced("")
			w.Views, w.Pre = []*SUT{w.S, root}, []string{"", h.Opt}
		}
		defer w.S.Close()
		viaView, seenBelow := 0, 0
		for _, op := range h.Ops {
			w.Apply(op)
			if op.V%len(w.Views) > 0 && op.Op != "view" {
				viaView++
			}
		}
		look := func(v *SUT, pre string) {
			w.checkReads(v, pre, h.Probes)
			w.checkHas(v, pre, h.Probes)
			under := map[string]any{}
			for full, e := range w.M.M {
				if pre == "" {
					under[full] = e.Val
					continue
				}
				if !w.M.under(pre, full) {
					continue
				}
				k := full[len(pre)+len(w.M.D):]
				under[k] = e.Val
				seenBelow++
				if d, err := v.GetDesc(k); err != nil || d != e.Desc {
					c.Failf("with the prefix %q, GetDesc(%q) = %q, %v; expected %q", pre, k, d, err, e.Desc)
				}
				if cm, err := v.GetComment(k); err != nil || cm != e.Comment {
					c.Failf("with the prefix %q, GetComment(%q) = %q, %v; expected %q", pre, k, cm, err, e.Comment)
				}
				if tg, err := v.GetTag(k); err != nil || !eq(tg, e.Tag) {
					c.Failf("with the prefix %q, GetTag(%q) = %s, %v; expected %s", pre, k, show(tg), err, show(e.Tag))
				}
				if a, b := v.MustString(k), w.S.MustString(full); a != b {
					c.Failf("with the prefix %q, MustString(%q) = %q, the store says %q", pre, k, a, b)
				}
				n := 0
				v.GetEx(k, func(node radix.Node[any], data any, branch bool, _ radix.KVPair) {
					n++
					if node.Key() != full || !eq(data, e.Val) {
						c.Failf("with the prefix %q, GetEx(%q) gave the node of %q", pre, k, node.Key())
					}
				})
				if n != 1 {
					c.Failf("with the prefix %q, GetEx(%q) called back %d times", pre, k, n)
				}
				if node, _, _, found := v.Locate(k, nil); !found || node.Key() != full {
					c.Failf("with the prefix %q, Locate(%q) did not find %q", pre, k, full)
				}
			}
			g, err := v.GetM("")
			diffMaps(c, "GetM(root) with the prefix "+pre, g, under, err)
			if pre == "" {
				return
			}
			for k := range under { // the sections of the view
				full := w.M.join(pre, k)
				want := w.M.section(full)
				r, err := v.GetR(k)
				diffMaps(c, "GetR("+k+") with the prefix "+pre, r, want, err)
				if segs := strings.Split(k, w.M.D); len(segs) > 1 {
					sec := segs[0]
					want = w.M.section(w.M.join(pre, sec))
					r, err = v.GetR(sec)
					diffMaps(c, "GetR("+sec+") with the prefix "+pre, r, want, err)
					if subsetPrefixFree(want, w.M.D) {
						g, err = v.GetM(sec)
						diffMaps(c, "GetM("+sec+") with the prefix "+pre, g, nest(relative(want, w.M.join(pre, sec), w.M.D), w.M.D), err)
					}
				}
			}
		}
		for i, v := range w.Views {
			if v.Prefix() != w.Pre[i] {
				c.Failf("view %d has the prefix %q, expected %q", i, v.Prefix(), w.Pre[i])
			}
			look(v, w.Pre[i])
		}
		for _, p := range h.Re { // change the prefix of an existing view
			v := w.Views[len(w.Views)-1]
			if v == w.S {
				v = w.S.WithPrefix(p)
			}
			v.SetPrefix(p)
			if v.Prefix() != p {
				c.Failf("SetPrefix(%q) made the prefix %q", p, v.Prefix())
			}
			look(v, p)
			v.SetPrefix(strings.Split(p, h.Delim)...)
			look(v, p)
			v.SetPrefix()
			look(v, "")
		}
		if w.S.Prefix() != "" {
			c.Failf("the store itself got the prefix %q", w.S.Prefix())
		}
		w.checkEnum(w.S)
		c.NT(viaView > 0 && seenBelow > 0)
		c.Label(viaView > 0, "changed through a view")
		c.Label(seenBelow > 0, "keys below a view")
		c.Label(len(w.Views) > 2, "2+ views")
	})
}

// ---------------------------------------------------------------- C08

type c08 struct {
	Hist
	To  string `json:"to"`  // the other delimiter
	How string `json:"how"` // new | set-first | set-late | dup
	// slices are flattened (a trie always does)
	Flat bool `json:"flat,omitempty"`
}

// swapDelims spells a key of a store with the delimiter a for one with b; b, an
// ordinary character of the first store, becomes a, one of the second.
func swapDelims(s, a, b string) string {
	return strings.NewReplacer(a, b, b, a).Replace(s)
}

func swapKeys(v any, a, b string) any {
	switch z := v.(type) {
	case map[string]any:
		r := make(map[string]any, len(z))
		for k, x := range z {
			r[swapDelims(k, a, b)] = swapKeys(x, a, b)
		}
		return r
	case []map[string]any:
		r := make([]map[string]any, 0, len(z))
		for _, x := range z {
			r = append(r, swapKeys(x, a, b).(map[string]any))
		}
		return r
	case []any:
		r := make([]any, 0, len(z))
		for _, x := range z {
			r = append(r, swapKeys(x, a, b))
		}
		return r
	}
	return v
}

// TestC08 compares a history with the same history spelled with another delimiter.
func TestC08(t *testing.T) {
	Check(t, "C08", func(t *rapid.T) c08 {
		h := c08{To: rapid.SampledFrom([]string{"/", ":", "-", "|", "\\", "_", "~", "\x00"}).Draw(t, "to")}
		h.How = rapid.SampledFrom([]string{"new", "set-first", "set-late", "dup"}).Draw(t, "how")
		h.Kind = rapid.SampledFrom([]string{"store", "trie"}).Draw(t, "kind")
		h.Delim = "."
		h.Flat = rapid.Bool().Draw(t, "flat")
		g := newKeyGen(t, ".")
		keep := g.Segs[:0]
		for _, s := range g.Segs {
			if validSeg(s, h.To) && validSeg(s, ".") {
				keep = append(keep, s)
			}
		}
		g.Segs = keep
		if rapid.Bool().Draw(t, "foreign") { // the delimiter of the other one is an ordinary character
			for _, s := range []string{"a" + h.To, "a" + h.To + "b", h.To + "a", h.To + h.To + "a" + h.To} {
				if validSeg(s, ".") {
					g.Segs = append(g.Segs, s)
				}
			}
		}
		ops := []string{"set", "set", "set", "set", "remove"}
		if h.How != "set-late" {
			ops = append(ops, "merge")
		}
		for i := rapid.IntRange(1, 16).Draw(t, "nops"); i > 0; i-- {
			op := Op{Op: rapid.SampledFrom(ops).Draw(t, "op")}
			switch op.Op {
			case "set":
				op.K = g.Key(t)
				v := genScalar(t, "val")
				op.X = &v
			case "merge":
				op.K = g.Path(t)
				v := genSource(t, g, 2, false) // lists, too
				op.X = &v
			default:
				op.K = g.Path(t)
			}
			if !validKey(swapDelims(op.K, ".", h.To), h.To) {
				continue
			}
			h.Ops = append(h.Ops, op)
		}
		for _, p := range g.Probes(t, 0, 10) {
			if validKey(swapDelims(p, ".", h.To), h.To) {
				h.Probes = append(h.Probes, p)
			}
		}
		return h
	}, func(c *Ctx, h c08) {
		tr := func(s string) string { return swapDelims(s, ".", h.To) }
		trM := func(m map[string]any) map[string]any { return swapKeys(m, ".", h.To).(map[string]any) }
		var opts []store.Opt
		if h.Flat {
			opts = append(opts, store.WithFlattenSlice(true))
		}
		a := newSUT(h.Kind, ".", opts...)
		var b *SUT
		to := delimRune(h.To)
		switch h.How {
		case "new":
			b = newSUT(h.Kind, h.To, opts...)
		case "dup":
			b = newSUT(h.Kind, h.To, opts...).Dup()
		default:
			b = newSUT(h.Kind, ".", opts...)
			if h.How == "set-first" {
				b.SetDelimiter(to)
			}
		}
		defer a.Close()
		defer b.Close()
		late := h.How == "set-late"
		var keys []string
		for _, op := range h.Ops {
			switch op.Op {
			case "set":
				keys = append(keys, op.K)
				_, oa := a.Set(op.K, op.X.Any())
				_, ob := b.Set(tr(op.K), op.X.Any())
				if oa = swapKeys(oa, ".", h.To); !late && !eq(oa, ob) {
					c.Failf("Set(%q) reports the old value %s with '.', %s with %q", op.K, show(oa), show(ob), h.To)
				}
			case "merge":
				must(a.Merge(op.K, op.X.Any().(map[string]any)))
				if err := b.Merge(tr(op.K), trM(op.X.Any().(map[string]any))); err != nil {
					c.Failf("Merge(%q) failed with %q: %v", op.K, h.To, err)
				}
			default:
				if late {
					continue // removing depends on the delimiter in use
				}
				ra, rb := a.Remove(op.K), b.Remove(tr(op.K))
				if ra != rb {
					c.Failf("Remove(%q) = %v with '.', %v with %q", op.K, ra, rb, h.To)
				}
			}
		}
		if late {
			b.SetDelimiter(to)
		}
		if b.Delimiter() != to {
			c.Failf("the delimiter is %q, expected %q", b.Delimiter(), to)
		}
		flat, _ := a.GetR("")
		want := trM(flat)
		got, err := b.GetR("")
		diffMaps(c, "GetR(root) with "+h.To, got, want, err)
		got, err = b.GetM("")
		diffMaps(c, "GetM(root) with "+h.To, got, want, err)
		walked := map[string]any{}
		b.Walk("", func(path, _ string, node radix.Node[any]) {
			if node.HasData() {
				walked[path] = node.Data()
			}
		})
		diffMaps(c, "Walk(root) with "+h.To, walked, want, nil)
		if subsetPrefixFree(flat, ".") {
			na, _ := a.GetM("", radix.WithoutFlattenKeys[any](true))
			nb, err := b.GetM("", radix.WithoutFlattenKeys[any](true))
			diffMaps(c, "nested GetM(root) with "+h.To, nb, trM(na), err)
		}
		paths := append([]string{}, h.Probes...)
		for _, k := range keys {
			segs := strings.Split(k, ".")
			for i := 1; i <= len(segs); i++ {
				paths = append(paths, strings.Join(segs[:i], "."))
			}
		}
		yes := 0
		for _, p := range paths {
			if !validKey(tr(p), h.To) {
				continue
			}
			if xa, xb := swapKeys(a.BR().MustGet(p), ".", h.To), b.BR().MustGet(tr(p)); !eq(xa, xb) {
				c.Failf("looking up %q backwards gives %s with '.', %s with %q", p, show(xa), show(xb), h.To)
			}
			ha, hb := a.Has(p), b.Has(tr(p))
			if ha != hb {
				c.Failf("Has(%q) = %v with '.', %v with %q", p, ha, hb, h.To)
			}
			if !ha {
				continue
			}
			yes++
			va, _ := a.Get(p)
			va = swapKeys(va, ".", h.To)
			vb, _ := b.Get(tr(p))
			if !eq(va, vb) {
				c.Failf("Get(%q) = %s with '.', %s with %q", p, show(va), show(vb), h.To)
			}
			sa, _ := a.GetR(p)
			ws := trM(sa)
			sb, err := b.GetR(tr(p))
			diffMaps(c, "GetR("+tr(p)+")", sb, ws, err)
			if subsetPrefixFree(sa, ".") {
				ma, _ := a.GetM(p)
				mb, err := b.GetM(tr(p))
				diffMaps(c, "GetM("+tr(p)+")", mb, trM(ma), err)
			}
			// and through a view
			if i := strings.LastIndex(p, "."); i > 0 {
				pv := b.WithPrefix(strings.Split(tr(p[:i]), h.To)...)
				if g, _ := pv.Get(tr(p[i+1:])); !eq(g, va) {
					c.Failf("with the prefix %q, Get(%q) = %s; expected %s", pv.Prefix(), tr(p[i+1:]), show(g), show(va))
				}
			}
		}
		if late { // removing works by the new delimiter, too
			for _, p := range h.Probes {
				ra, rb := a.Remove(p), b.Remove(tr(p))
				if ra != rb {
					c.Failf("Remove(%q) = %v with '.', %v with %q", p, ra, rb, h.To)
				}
			}
			flat, _ = a.GetR("")
			want = trM(flat)
			got, err = b.GetR("")
			diffMaps(c, "GetR(root) with "+h.To, got, want, err)
		}
		foreign := false
		for k := range flat {
			foreign = foreign || strings.Contains(k, h.To)
		}
		c.Label(foreign, "the other delimiter inside of segments")
		c.NT(yes > 0 && len(flat) > 1)
		c.Label(true, h.How)
		c.Label(yes > 0, "paths found")
	})
}
