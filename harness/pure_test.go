package harness

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/hedzr/store/radix"
)

// ---------------------------------------------------------------- C35: reads do not write

type c35 struct {
	H     Hist      `json:"h"`
	Views []string  `json:"views,omitempty"`
	Reads []c31read `json:"reads"`
	BR    bool      `json:"br,omitempty"`
}

// allGetters are the names of the typed getters, e.g. GetInt64Slice.
var allGetters = func() (r []string) {
	typ := reflect.TypeOf((*radix.TypedGetters[any])(nil)).Elem()
	for i := 0; i < typ.NumMethod(); i++ {
		switch n := typ.Method(i).Name; {
		case n == "GetSectionFrom" || n == "To" || n == "GetM" || n == "MustM":
		case strings.HasPrefix(n, "Get") || strings.HasPrefix(n, "Must"):
			r = append(r, n)
		}
	}
	return
}()

func genReads(t *rapid.T, ops, keys []string, lo, hi, views int) (l []c31read) {
	for j := rapid.IntRange(lo, hi).Draw(t, "reads"); j > 0; j-- {
		l = append(l, c31read{Op: rapid.SampledFrom(ops).Draw(t, "read"), K: rapid.SampledFrom(keys).Draw(t, "k"), V: rapid.IntRange(0, views).Draw(t, "v")})
	}
	return
}

// state renders everything a store holds.
func state(s *SUT) string {
	var l []string
	s.Walk("", func(p, f string, nd radix.Node[any]) {
		l = append(l, fmt.Sprintf("%q %#v %q %q %#v modified=%v data=%v leaf=%v", p, nd.Data(), nd.Comment(), nd.Description(), nd.Tag(), nd.Modified(), nd.HasData(), nd.IsLeaf()))
	})
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func TestC35(t *testing.T) {
	ops := append(append([]string{"section", "to", "dup", "m", "m", "nested", "walkpath"}, c31ops...), allGetters...)
	Check(t, "C35", func(t *rapid.T) c35 {
		r := c35{H: genHist(t, HistOpts{
			Ops: []string{"set", "set", "set", "set", "insert", "setnode", "merge", "remove", "comment", "tag"},
			Min: 1, Max: 14, Delims: true, Probes: [2]int{1, 6},
		})}
		r.BR = rapid.IntRange(0, 3).Draw(t, "br") == 0
		keys := append([]string{""}, r.H.Probes...)
		for _, op := range r.H.Ops {
			if op.K == "" {
				continue
			}
			keys = append(keys, op.K)
			if a := strings.Split(op.K, r.H.Delim); len(a) > 1 {
				keys = append(keys, strings.Join(a[:rapid.IntRange(1, len(a)-1).Draw(t, "cut")], r.H.Delim))
			}
		}
		for i := rapid.IntRange(0, 2).Draw(t, "nviews"); i > 0; i-- {
			if k := rapid.SampledFrom(keys).Draw(t, "view"); k != "" {
				r.Views = append(r.Views, k)
			}
		}
		r.Reads = genReads(t, ops, keys, 1, 12, len(r.Views))
		return r
	}, func(c *Ctx, r c35) {
		w := newWorld(c, r.H.Kind, r.H.Delim)
		defer w.S.Close()
		for _, op := range r.H.Ops {
			w.Apply(op)
		}
		suts := []*SUT{w.S}
		if r.BR {
			suts[0] = w.S.BR()
		}
		for _, v := range r.Views {
			suts = append(suts, w.S.WithPrefix(v))
		}
		before := state(w.S)
		for _, rd := range r.Reads {
			s := suts[rd.V]
			var first, second string
			switch {
			case rd.K == "" && (strings.HasPrefix(rd.Op, "Get") || strings.HasPrefix(rd.Op, "Must")):
				continue
			case strings.HasPrefix(rd.Op, "Get") || strings.HasPrefix(rd.Op, "Must"):
				first, second = c35get(s, rd), c35get(s, rd)
			default:
				first, second = c31do(w, suts, rd), c31do(w, suts, rd)
			}
			if after := state(w.S); after != before {
				c.Failf("%s(%q) of view %d changed the store from\n%s\nto\n%s", rd.Op, rd.K, rd.V, before, after)
			}
			if first != second && c35exact[rd.Op] {
				c.Failf("%s(%q) of view %d returned\n%s\nand then\n%s", rd.Op, rd.K, rd.V, first, second)
			}
			c.Label(rd.Op == "section" || rd.Op == "to" || rd.Op == "m" || rd.Op == "nested", "read as a map or struct")
			c.Label(rd.Op[0] < 'a', "typed getter")
		}
		w.checkReads(w.S, "", r.H.Probes)
		w.checkMeta(w.S)
		c.NT(len(w.M.M) >= 2 && len(r.Reads) >= 3)
		c.Label(!w.M.prefixFree(), "key-is-also-section")
		c.Label(len(r.Views) > 0, "views")
	})
}

// c35exact are the reads which have to return the same again. The order of a
// converted map, or which of a key and the section of the same name shows up
// in a nested map, may differ.
var c35exact = map[string]bool{"get": true, "query": true, "has": true, "haspart": true, "locate": true, "getex": true, "walk": true,
	"dump": true, "meta": true, "tag": true, "string": true, "int": true, "bool": true, "data": true, "text": true, "walkpath": true, "dup": true}

func c35get(s *SUT, rd c31read) (res string) {
	defer func() {
		if r := recover(); r != nil {
			res = fmt.Sprintf("panic %v", r)
		}
	}()
	v, err := callGetter(s.common, rd.Op, rd.K)
	return fmt.Sprintf("%#v %v", v, err == nil)
}
