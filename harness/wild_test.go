package harness

import (
	"strings"
	"testing"
	"unicode/utf8"

	"pgregory.net/rapid"

	"github.com/hedzr/store/radix"
)

// ---------------------------------------------------------------- C29: any text as a path

type c29op struct {
	Op string `json:"op"`
	K  []byte `json:"k"` // any bytes
	V  bool   `json:"v,omitempty"`
	X  *Val   `json:"x,omitempty"`
}

type c29 struct {
	Kind  string   `json:"kind"`
	Delim string   `json:"delim"`
	View  string   `json:"view,omitempty"`
	Keys  []string `json:"keys"` // plain keys
	Ops   []c29op  `json:"ops"`
}

var wildTokens = []string{"", ".", "..", "/", ":", ":id", ":x", "*", "*rest", " ", "\t", "\n", "日", "é", "\xff", "\xe6\x97", "\x00", "a", "b", "ab", "zz", "(root)", "-", "%s", "\u200b", "A"}

func genWild(t *rapid.T, plain []string) string {
	var sb strings.Builder
	if len(plain) > 0 && rapid.IntRange(0, 2).Draw(t, "near") == 0 { // a plain key, cut
		k := rapid.SampledFrom(plain).Draw(t, "plain")
		sb.WriteString(k[:rapid.IntRange(0, len(k)).Draw(t, "cut")])
	}
	for i := rapid.IntRange(0, 6).Draw(t, "ntok"); i > 0; i-- {
		sb.WriteString(rapid.SampledFrom(wildTokens).Draw(t, "tok"))
	}
	return sb.String()
}

var c29ops = []string{"set", "set", "set", "insert", "setex", "setnode", "update", "setempty", "remove", "remove", "removeex", "merge", "comment", "tag",
	"get", "query", "has", "search", "haspart", "locate", "getex", "m", "nested", "r", "walk", "dump", "prefix", "br", "meta", "string", "to", "dup"}

func TestC29(t *testing.T) {
	Check(t, "C29", func(t *rapid.T) c29 {
		r := c29{Kind: rapid.SampledFrom([]string{"store", "trie"}).Draw(t, "kind"), Delim: genDelim(t)}
		g := newKeyGen(t, r.Delim)
		for i := rapid.IntRange(0, 6).Draw(t, "nkeys"); i > 0; i-- {
			r.Keys = append(r.Keys, g.Key(t))
		}
		if rapid.IntRange(0, 3).Draw(t, "view?") == 0 {
			r.View = g.Path(t)
		}
		for i := rapid.IntRange(1, 16).Draw(t, "nops"); i > 0; i-- {
			op := c29op{Op: rapid.SampledFrom(c29ops).Draw(t, "op"), K: []byte(genWild(t, r.Keys))}
			op.V = r.View != "" && rapid.Bool().Draw(t, "v")
			if op.Op == "merge" {
				v := Val{K: "map", M: map[string]Val{}}
				for j := rapid.IntRange(0, 3).Draw(t, "n"); j > 0; j-- {
					v.M[strings.ToValidUTF8(genWild(t, r.Keys), "")] = genScalar(t, "v")
				}
				op.X = &v
			}
			r.Ops = append(r.Ops, op)
		}
		return r
	}, func(c *Ctx, h c29) {
		s := newSUT(h.Kind, h.Delim)
		defer s.Close()
		for i, k := range h.Keys {
			s.Set(k, i)
		}
		v := s
		if h.View != "" {
			v = s.WithPrefix(h.View)
		}
		for i, op := range h.Ops {
			x := s
			if op.V {
				x = v
			}
			wildOp(x, op, i)
		}
		// the store goes on working
		k := "ω" + h.Delim + "fresh"
		for _, x := range []int{1, 2} {
			s.Set(k, x)
			if v, ok := s.Get(k); v != x || !ok || !s.Has(k) || !s.Has("ω") {
				c.Failf("Get(%q) = %s, %v after these operations; expected %d", k, show(v), ok, x)
			}
		}
		n := 0
		s.Walk("", func(p, _ string, node radix.Node[any]) {
			if p == k && node.HasData() && node.Data() == 2 {
				n++
			}
		})
		if n != 1 {
			c.Failf("walking shows %q %d times after these operations", k, n)
		}
		if !s.Remove(k) || s.Has(k) || s.Has("ω") {
			c.Failf("%q cannot be removed after these operations", k)
		}
		c.NT(len(h.Ops) > 3)
		c.Label(h.View != "", "with a view")
		for _, op := range h.Ops {
			k := string(op.K)
			c.Label(k == "", "empty path")
			c.Label(strings.Contains(k, h.Delim+h.Delim), "empty segment")
			c.Label(strings.HasSuffix(k, h.Delim), "trailing delimiter")
			c.Label(strings.HasPrefix(k, h.Delim), "leading delimiter")
			c.Label(!utf8.ValidString(k), "not UTF-8")
			c.Label(strings.ContainsAny(k, ":*"), "pattern characters")
		}
	})
}

func wildOp(s *SUT, op c29op, i int) {
	k := string(op.K)
	switch op.Op {
	case "set":
		s.Set(k, i)
	case "insert":
		s.low.Insert(k, i)
	case "setex":
		s.SetEx(k, i, func(string, any, radix.Node[any], radix.Trie[any]) {})
	case "setnode":
		s.low.SetNode(k, i, "tag", "desc", "comment")
	case "update":
		s.Update(k, func(n radix.Node[any], _ any) { n.SetData(i) })
	case "setempty":
		s.low.SetEmpty(k)
	case "remove":
		s.Remove(k)
	case "removeex":
		s.low.RemoveEx(k)
	case "merge":
		_ = s.Merge(k, op.X.Any().(map[string]any))
	case "comment":
		s.SetComment(k, "d", "c")
	case "tag":
		s.SetTag(k, i)
	case "get":
		s.Get(k)
		s.MustGet(k)
	case "query":
		_, _, _, _ = s.low.Query(k, radix.KVPair{})
	case "has":
		s.Has(k)
	case "search":
		s.low.Search(k)
	case "haspart":
		s.low.HasPart(k)
	case "locate":
		s.Locate(k, radix.KVPair{})
	case "getex":
		s.GetEx(k, func(radix.Node[any], any, bool, radix.KVPair) {})
	case "m":
		_, _ = s.GetM(k)
	case "nested":
		_, _ = s.GetM(k, radix.WithoutFlattenKeys[any](true))
	case "r":
		_, _ = s.GetR(k)
	case "walk":
		s.Walk(k, func(string, string, radix.Node[any]) {})
	case "dump":
		s.Dump()
	case "prefix":
		x := s.WithPrefix(k)
		x.Set("a", i)
		x.Get("a")
		_, _ = x.GetM("")
	case "br":
		s.BR().Get(k)
		s.BR().Has(k)
	case "meta":
		s.MustGetComment(k)
		s.MustGetTag(k)
		s.MustGetDesc(k)
	case "string":
		s.MustString(k)
	case "to":
		var h struct{ A, B, Ab int }
		_ = s.To(k, &h)
	case "dup":
		s.Dup()
	}
}
