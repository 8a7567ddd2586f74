package harness

import (
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/hedzr/store/radix"
)

// ---------------------------------------------------------------- C19: looking up through outer sections

type c19 struct {
	H Hist     `json:"h"` // view 1 is the back-recursive one
	Q []string `json:"q"`
	W []Op     `json:"w,omitempty"` // written through the back-recursive view after the lookups
}

func TestC19(t *testing.T) {
	Check(t, "C19", func(t *rapid.T) c19 {
		h := genHist(t, HistOpts{Ops: []string{"set", "set", "set", "set", "set", "set", "setnode", "comment", "tag", "remove"}, Min: 1, Max: 18, Delims: true, Val: genScalar})
		r := c19{H: h}
		g := newKeyGen(t, h.Delim)
		for _, op := range h.Ops {
			if op.K != "" {
				g.Seen = append(g.Seen, op.K)
			}
		}
		for i := rapid.IntRange(1, 10).Draw(t, "nq"); i > 0; i-- {
			// an existing key moved into deeper sections
			k := g.Old(t)
			segs := strings.Split(k, h.Delim)
			for j := rapid.IntRange(0, 3).Draw(t, "deeper"); j > 0; j-- {
				at := rapid.IntRange(0, len(segs)-1).Draw(t, "at")
				if rapid.IntRange(0, 2).Draw(t, "late") > 0 {
					at = len(segs) - 1
				}
				segs = append(segs[:at:at], append([]string{g.Seg(t)}, segs[at:]...)...)
			}
			if rapid.IntRange(0, 9).Draw(t, "far") == 0 { // from far below
				at := len(segs) - 1
				for j := rapid.SampledFrom([]int{10, 20, 40, 80}).Draw(t, "levels"); j > 0; j-- {
					segs = append(segs[:at:at], append([]string{"n" + strconv.Itoa(j%7)}, segs[at:]...)...)
				}
			}
			r.Q = append(r.Q, strings.Join(segs, h.Delim))
		}
		r.Q = append(r.Q, g.Probes(t, 0, 4)...)
		for i := range r.H.Ops {
			r.H.Ops[i].V = rapid.IntRange(0, 1).Draw(t, "view")
		}
		for i := rapid.IntRange(0, 4).Draw(t, "nw"); i > 0; i-- {
			op := Op{Op: rapid.SampledFrom([]string{"remove", "remove", "remove", "comment", "tag", "set", "setempty", "update", "setnode"}).Draw(t, "w"), V: 1, K: rapid.SampledFrom(r.Q).Draw(t, "wk")}
			if op.Op != "remove" {
				v := genScalar(t, "wv")
				op.X, op.A, op.B = &v, genMeta(t), genMeta(t)
			}
			r.W = append(r.W, op)
		}
		return r
	}, func(c *Ctx, h c19) {
		w := newWorld(c, h.H.Kind, h.H.Delim)
		defer w.S.Close()
		br, n := w.S.BR(), w.S.N()
		w.Views, w.Pre = append(w.Views, br), append(w.Pre, "")
		for _, op := range h.H.Ops {
			w.Apply(op)
		}
		if br.RecursiveMode() != radix.RecusiveUp || n.RecursiveMode() != radix.RecusiveNone || w.S.RecursiveMode() != radix.RecusiveNone {
			c.Failf("lookup modes: %v, %v, %v", br.RecursiveMode(), n.RecursiveMode(), w.S.RecursiveMode())
		}
		outer, missing := 0, 0
		for _, q := range h.Q {
			segs := strings.Split(q, h.H.Delim)
			var at string
			decided := true
			for {
				p := strings.Join(segs, h.H.Delim)
				if w.M.isKey(p) {
					at = p
					break
				}
				if w.M.isSection(p) { // a section of that name is nearer: not determined
					decided = false
					break
				}
				if len(segs) <= 2 {
					break
				}
				segs = append(segs[:len(segs)-2:len(segs)-2], segs[len(segs)-1])
			}
			if !decided {
				continue
			}
			for _, s := range []*SUT{br, br.BR(), n.BR()} {
				data, found := s.Get(q)
				has := s.Has(q)
				if at == "" {
					missing++
					if found || data != nil || has {
						c.Failf("upward lookup of %q found %s (%v, %v), but no outer section has it", q, show(data), found, has)
					}
					continue
				}
				if want := w.M.M[at].Val; !found || !eq(data, want) || !has || !eq(s.MustGet(q), want) {
					c.Failf("upward lookup of %q = %s, found %v, has %v; expected %s of %q", q, show(data), found, has, show(want), at)
				}
				if at != q {
					outer++
				}
				if node, branch, partial, ok := s.Locate(q, nil); !ok || partial || branch || node.Key() != at {
					c.Failf("upward Locate of %q: %v, branch %v, partial %v, found %v; expected the key %q", q, node, branch, partial, ok, at)
				}
				if e := w.M.M[at]; s.MustGetDesc(q) != e.Desc || s.MustGetComment(q) != e.Comment || !eq(s.MustGetTag(q), e.Tag) {
					c.Failf("upward lookup of %q gives the description %q, comment %q, tag %v; expected those of %q", q, s.MustGetDesc(q), s.MustGetComment(q), s.MustGetTag(q), at)
				}
				if want, err := w.S.GetString(at); err == nil && s.MustString(q, "default") != want {
					c.Failf("upward MustString of %q = %q, expected %q of %q", q, s.MustString(q, "default"), want, at)
				}
			}
			// the plain lookup is not affected
			for _, s := range []*SUT{w.S, n, br.N()} {
				data, found := s.Get(q)
				if at == q {
					if !found || !eq(data, w.M.M[q].Val) {
						c.Failf("plain lookup of %q = %s, %v", q, show(data), found)
					}
				} else if found || data != nil || s.Has(q) {
					c.Failf("plain lookup of %q found %s", q, show(data))
				}
			}
		}
		w.checkEnum(br)
		// writing is not recursive: it works on the path named
		for _, op := range h.W {
			w.Apply(op)
			w.checkEnum(w.S)
			w.checkMeta(w.S)
		}
		c.NT(outer > 0)
		c.Label(outer > 0, "found in an outer section")
		c.Label(missing > 0, "not found anywhere")
	})
}

// ---------------------------------------------------------------- C20: route patterns

type c20 struct {
	Delim    string   `json:"delim"`
	Lead     bool     `json:"lead"` // paths start with the delimiter
	Patterns []string `json:"patterns"`
	Q        []string `json:"q"` // concrete paths
}

func TestC20(t *testing.T) {
	Check(t, "C20", func(t *rapid.T) c20 {
		r := c20{Delim: rapid.SampledFrom([]string{"/", "/", "/", ".", "|"}).Draw(t, "delim"), Lead: rapid.IntRange(0, 3).Draw(t, "lead") > 0}
		seg := rapid.SampledFrom([]string{"a", "b", "ab", "abc", "users", "user", "posts", "x", "v1", "v2", "日本", "日", strings.Repeat("static", 12)})
		param := rapid.SampledFrom([]string{"id", "name", "i", "post", "长", strings.Repeat("param", 15)})
		val := rapid.SampledFrom([]string{"1", "12", "a", "ab", "users", "x-y", "日", "z9", "bob", "a:b", "x*", "id", "name", "-", "-x", "--" + strings.Repeat("long", 15), "\tx", "x\u00a0", "\u3000", "%20", "+1", "UP", "_", "?q=1", "#", "\"q\"", "y\n",
			strings.Repeat("long-value_", 4), strings.Repeat("w", 70), strings.Repeat("日本", 40), strings.Repeat("0123456789", 60)})
		// a trie of segments: a position is either all static or one variable
		type node struct {
			kids map[string]*node
			vari string
		}
		root := &node{kids: map[string]*node{}}
		end := map[string]bool{}
		for i := rapid.IntRange(1, 8).Draw(t, "npat"); i > 0; i-- {
			n := root
			var segs, conc []string
			depth := rapid.IntRange(1, 5).Draw(t, "depth")
			for j := 0; j < depth; j++ {
				var s string
				kind := rapid.IntRange(0, 4).Draw(t, "kind")
				switch {
				case n.vari != "":
					s = n.vari
				case len(n.kids) == 0 && kind == 0 && j > 0:
					s = ":" + param.Draw(t, "param")
					for _, o := range segs {
						if o == s {
							s += "2"
						}
					}
				case len(n.kids) == 0 && kind == 1 && j > 0:
					s = "*" + param.Draw(t, "param")
				default:
					s = seg.Draw(t, "seg")
				}
				if s[0] == ':' || s[0] == '*' {
					n.vari = s
				}
				segs = append(segs, s)
				switch s[0] {
				case ':':
					conc = append(conc, val.Draw(t, "val"))
				case '*':
					for k := rapid.IntRange(1, 3).Draw(t, "rest"); k > 0; k-- {
						conc = append(conc, val.Draw(t, "val"))
					}
				default:
					conc = append(conc, s)
				}
				if n.kids[s] == nil {
					n.kids[s] = &node{kids: map[string]*node{}}
				}
				n = n.kids[s]
				if s[0] == '*' {
					break
				}
			}
			p, q := strings.Join(segs, r.Delim), strings.Join(conc, r.Delim)
			if !end[p] {
				end[p] = true
				r.Patterns = append(r.Patterns, p)
			}
			r.Q = append(r.Q, q)
			switch rapid.IntRange(0, 3).Draw(t, "mutate") {
			case 0:
				r.Q = append(r.Q, q+r.Delim+val.Draw(t, "extra"))
			case 1:
				if len(conc) > 1 {
					r.Q = append(r.Q, strings.Join(conc[:len(conc)-1], r.Delim))
				}
			case 2:
				conc[rapid.IntRange(0, len(conc)-1).Draw(t, "mi")] = val.Draw(t, "mv")
				r.Q = append(r.Q, strings.Join(conc, r.Delim))
			}
		}
		return r
	}, func(c *Ctx, h c20) {
		tr := trieSUT(radix.NewTrieBy[any](delimRune(h.Delim)))
		defer tr.Close()
		lead := ""
		if h.Lead {
			lead = h.Delim
		}
		for i, p := range h.Patterns {
			tr.Set(lead+p, i+1)
		}
		hits, misses, vars := 0, 0, 0
		reused := radix.KVPair{} // one map for all the lookups
		for _, q := range h.Q {
			want, pairs, section := matchRoutes(h.Patterns, q, h.Delim)
			got := radix.KVPair{}
			data, _, found, _ := tr.low.Query(lead+q, got)
			node, _, partial, lfound := tr.Locate(lead+q, reused)
			plain, pfound := tr.Get(lead + q) // without the variables
			has := tr.Has(lead + q)
			if !eq(plain, data) || pfound != found || want != 0 && !has || want == 0 && has && !section || !eq(tr.MustGet(lead+q), data) {
				c.Failf("%q: Get = %s, %v, Has = %v, MustGet = %s, but Query gives %s, %v; patterns %q", lead+q, show(plain), pfound, has, show(tr.MustGet(lead+q)), show(data), found, h.Patterns)
			}
			if want == 0 {
				if data != nil || found && !section {
					c.Failf("%q matched %s (found %v), but no pattern fits; patterns %q", lead+q, show(data), found, h.Patterns)
				}
				misses++
				continue
			}
			hits++
			vars += len(pairs)
			if !found || data != want {
				c.Failf("%q: got %s, found %v; expected the pattern %q", lead+q, show(data), found, h.Patterns[want-1])
			}
			if !lfound || partial || node == nil || node.Key() != lead+h.Patterns[want-1] {
				c.Failf("Locate(%q) did not give the node of %q", lead+q, h.Patterns[want-1])
			}
			for k, v := range pairs {
				if got[k] != v {
					c.Failf("%q on %q: variable %q = %q, expected %q", lead+q, h.Patterns[want-1], k, got[k], v)
				}
				if reused[k] != v {
					c.Failf("%q on %q: variable %q = %q in a map used before, expected %q", lead+q, h.Patterns[want-1], k, reused[k], v)
				}
			}
			for k := range got {
				if _, ok := pairs[k]; !ok {
					c.Failf("%q on %q: unexpected variable %q", lead+q, h.Patterns[want-1], k)
				}
			}
		}
		for i, p := range h.Patterns { // the patterns themselves
			data, _, found, _ := tr.low.Query(lead+p, nil)
			if !found || data != i+1 {
				c.Failf("the pattern %q does not match itself", lead+p)
			}
		}
		c.NT(vars > 0 && len(h.Patterns) > 1)
		c.Label(vars > 0, "variables bound")
		c.Label(vars > 1, "2+ variables bound")
		c.Label(misses > 0, "no match")
		c.Label(hits > 0, "match")
	})
}

// matchRoutes says which pattern a concrete path fits (1-based), with its
// variables, and whether the path is a section of some pattern.
func matchRoutes(pats []string, q, d string) (which int, pairs map[string]string, section bool) {
	qs := strings.Split(q, d)
next:
	for i, p := range pats {
		ps := strings.Split(p, d)
		kv := map[string]string{}
		for j, s := range ps {
			if j >= len(qs) {
				section = true
				continue next
			}
			switch {
			case s[0] == '*':
				kv[s[1:]] = strings.Join(qs[j:], d)
				return i + 1, kv, section
			case s[0] == ':':
				kv[s[1:]] = qs[j]
			case s != qs[j]:
				continue next
			}
		}
		if len(qs) > len(ps) {
			continue
		}
		which, pairs = i+1, kv
	}
	return
}
