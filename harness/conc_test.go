package harness

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/hedzr/store/radix"
)

// raced runs fn as a subtest, which the testing package fails when the race
// detector reported something meanwhile (these checks are built with -race).
func raced(c *Ctx, fn func()) {
	var err error
	ok := c.T.Run("case", func(*testing.T) { err = guard(fn) })
	if err != nil {
		c.Failf("%v", err)
	}
	if !ok {
		c.Failf("data race (see the report of the race detector)")
	}
}

// together starts the functions at the same time and returns their failures.
func together(fns []func()) (errs []error) {
	errs = make([]error, len(fns)) // left to the goroutines when they hang
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i, fn := range fns {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			errs[i] = guard(fn)
		}()
	}
	close(start)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
		return errs
	case <-time.After(60 * time.Second): // normally it takes milliseconds
		return []error{fmt.Errorf("the goroutines are blocked forever")}
	}
}

// ---------------------------------------------------------------- C31: concurrent readers

type c31read struct {
	Op string `json:"op"`
	K  string `json:"k,omitempty"`
	V  int    `json:"v,omitempty"` // 0: the store itself, i: view i-1
}

type c31 struct {
	H     Hist           `json:"h"`
	Views []string       `json:"views,omitempty"`
	Reads [][]c31read    `json:"reads"`
	TTL   map[string]int `json:"ttl,omitempty"` // key -> microseconds
	BR    bool           `json:"br,omitempty"`
}

// Dup, To and GetSectionFrom are left out: the library that copies for them
// (evendeep) writes a global log flag unsynchronised.
var c31ops = []string{"get", "get", "query", "has", "haspart", "locate", "getex", "walk", "dump", "meta", "tag", "string", "int", "float", "bool",
	"strings", "ints", "duration", "map", "m", "view", "data", "text"}

func TestC31(t *testing.T) {
	Check(t, "C31", func(t *rapid.T) c31 {
		r := c31{H: genHist(t, HistOpts{
			Ops: []string{"set", "set", "set", "set", "insert", "setnode", "merge", "remove"},
			Min: 1, Max: 14, Delims: true, Probes: [2]int{1, 6},
		})}
		r.BR = rapid.IntRange(0, 3).Draw(t, "br") == 0
		var keys []string
		seen := map[string]bool{}
		for _, op := range r.H.Ops {
			if op.K != "" && !seen[op.K] {
				seen[op.K] = true
				keys = append(keys, op.K)
			}
		}
		keys = append(keys, r.H.Probes...)
		for i := rapid.IntRange(0, 2).Draw(t, "nviews"); i > 0; i-- {
			k := rapid.SampledFrom(keys).Draw(t, "view")
			if a := strings.Split(k, r.H.Delim); len(a) > 1 {
				k = strings.Join(a[:rapid.IntRange(1, len(a)-1).Draw(t, "cut")], r.H.Delim)
			}
			r.Views = append(r.Views, k)
		}
		for i := rapid.IntRange(2, 5).Draw(t, "readers"); i > 0; i-- {
			var l []c31read
			for j := rapid.IntRange(1, 8).Draw(t, "reads"); j > 0; j-- {
				l = append(l, c31read{Op: rapid.SampledFrom(c31ops).Draw(t, "read"), K: rapid.SampledFrom(keys).Draw(t, "k"),
					V: rapid.IntRange(0, len(r.Views)).Draw(t, "v")})
			}
			r.Reads = append(r.Reads, l)
		}
		if rapid.IntRange(0, 2).Draw(t, "ttl?") == 0 {
			r.TTL = map[string]int{}
			for i := rapid.IntRange(1, 3).Draw(t, "nttl"); i > 0; i-- {
				r.TTL[rapid.SampledFrom(keys).Draw(t, "ttlkey")] = rapid.IntRange(1, 300).Draw(t, "us")
			}
		}
		return r
	}, func(c *Ctx, r c31) {
		w := newWorld(c, r.H.Kind, r.H.Delim)
		defer w.S.Close()
		for _, op := range r.H.Ops {
			w.Apply(op)
		}
		suts := []*SUT{w.S}
		if r.BR {
			suts[0] = w.S.BR()
		}
		for _, v := range r.Views {
			suts = append(suts, w.S.WithPrefix(v))
		}
		// keys without children only: what is below an expiring section is dropped
		ttl := map[string]any{}
		for k := range r.TTL {
			if w.M.isKey(k) && !w.M.isSection(k) {
				ttl[k] = w.M.M[k].Val
			}
		}
		want := make([][]string, len(r.Reads))
		for i, l := range r.Reads {
			for _, rd := range l {
				want[i] = append(want[i], c31do(w, suts, rd))
			}
		}
		overlap := 0
		raced(c, func() {
			var fns []func()
			if len(ttl) == 0 {
				for i, l := range r.Reads {
					overlap += len(l)
					fns = append(fns, func() {
						for j, rd := range l {
							if got := c31do(w, suts, rd); got != want[i][j] && c35exact[rd.Op] {
								c.Failf("%s of %q (view %d) in goroutine %d returned\n%s\nbut alone it returns\n%s", rd.Op, rd.K, rd.V, i, got, want[i][j])
							}
						}
					})
				}
			} else {
				for _, k := range sortedKeys(ttl) {
					us := time.Duration(r.TTL[k]) * time.Microsecond
					if st := w.S.SetTTL(k, us, nil); st != 0 {
						c.Failf("SetTTL(%q) = %d", k, st)
					}
				}
				for i := range r.Reads {
					fns = append(fns, func() {
						for n := 0; n < 40; n++ {
							for k, e := range w.M.M {
								got, found := w.S.Get(k)
								_, expires := ttl[k]
								if !(found && eq(got, e.Val)) && !(expires && got == nil) {
									c.Failf("Get(%q) = %s, %v in goroutine %d while keys expire; it was set to %s", k, show(got), found, i, show(e.Val))
								}
							}
							for _, rd := range r.Reads[i] { // whatever they return, it has to be safe
								_ = c31do(w, suts, rd)
							}
							time.Sleep(5 * time.Microsecond)
						}
					})
				}
			}
			for _, err := range together(fns) {
				if err != nil {
					c.Failf("%v", err)
				}
			}
		})
		c.NT(len(w.M.M) >= 2 && (overlap >= 6 || len(ttl) > 0))
		c.Label(len(ttl) > 0, "keys expire meanwhile")
		c.Label(len(r.Views) > 0, "views")
		c.Label(r.BR, "backward recursion")
	})
}

// c31do makes one read and renders what it returned.
func c31do(w *World, suts []*SUT, rd c31read) (res string) {
	s, k := suts[rd.V], rd.K
	g := s
	defer func() {
		if r := recover(); r != nil { // the getters refuse some conversions, that is theirs
			res = fmt.Sprintf("panic %v", r)
		}
	}()
	pack := func(a ...any) string { return fmt.Sprintf("%#v", a) }
	switch rd.Op {
	case "get":
		v, ok := s.Get(k)
		return pack(v, ok, s.MustGet(k))
	case "query":
		v, br, ok, err := s.low.Query(k, nil)
		return pack(v, br, ok, err == nil)
	case "has":
		return pack(s.Has(k))
	case "haspart":
		return pack(s.low.HasPart(k))
	case "locate":
		nd, br, pm, ok := s.Locate(k, nil)
		if !ok || nd == nil {
			return pack(br, pm, ok)
		}
		return pack(nd.Key(), nd.Data(), nd.HasData(), nd.IsLeaf(), br, pm, ok)
	case "getex":
		res = "none"
		s.GetEx(k, func(nd radix.Node[any], data any, br bool, kv radix.KVPair) { res = pack(nd.Key(), data, br, len(kv)) })
		return
	case "walk":
		var l []string
		s.Walk("", func(p, f string, nd radix.Node[any]) { l = append(l, pack(p, f, nd.Key(), nd.Data(), nd.Modified())) })
		sort.Strings(l)
		return strings.Join(l, "\n")
	case "dump":
		return s.Dump()
	case "meta":
		a, _ := s.GetComment(k)
		b, _ := s.GetDesc(k)
		return pack(a, b)
	case "tag":
		v, err := s.GetTag(k)
		return pack(v, err == nil)
	case "string":
		return pack(g.GetString(k, "d"))
	case "int":
		return pack(g.GetInt64(k, 7))
	case "float":
		return pack(g.GetFloat64(k, 7))
	case "bool":
		return pack(g.GetBool(k, true))
	case "strings":
		return pack(g.GetStringSlice(k, "d"))
	case "ints":
		return pack(g.GetIntSlice(k, 7))
	case "duration":
		return pack(g.GetDuration(k, 7))
	case "map":
		return pack(g.GetStringMap(k))
	case "m":
		m, err := g.GetM(k)
		return fmt.Sprint(m, err == nil)
	case "section":
		var m map[string]any
		err := g.GetSectionFrom(k, &m)
		return fmt.Sprint(m, err == nil)
	case "to":
		var h struct{ A, B any }
		err := g.To(k, &h)
		return fmt.Sprint(h, err == nil)
	case "nested":
		m, err := g.GetM(k, radix.WithoutFlattenKeys[any](true), radix.WithKeepPrefix[any](true))
		return fmt.Sprint(m, err == nil)
	case "walkpath":
		n := 0
		s.Walk(k, func(p, f string, nd radix.Node[any]) { n++ })
		return pack(n)
	case "dup":
		v, ok := s.Dup().Get(k)
		return pack(v, ok)
	case "view":
		v, ok := s.WithPrefix(k).Get(rd.K)
		return pack(v, ok)
	case "data":
		var l []string
		s.Walk(k, func(p, f string, nd radix.Node[any]) { l = append(l, pack(p, nd.Comment(), nd.Tag())) })
		sort.Strings(l)
		return strings.Join(l, "\n")
	case "text":
		if s.st != nil {
			return fmt.Sprint(s.st)
		}
		return fmt.Sprint(s.trie)
	}
	panic("HARNESS-ERROR: read " + rd.Op)
}

// ---------------------------------------------------------------- C34: independent stores in parallel

type c34 struct {
	H []Hist `json:"h"`
}

func TestC34(t *testing.T) {
	Check(t, "C34", func(t *rapid.T) (r c34) {
		for i := rapid.IntRange(2, 4).Draw(t, "stores"); i > 0; i-- {
			r.H = append(r.H, genHist(t, HistOpts{
				Ops: []string{"set", "set", "set", "set", "insert", "setex", "setnode", "update", "merge", "remove", "comment", "tag", "view"},
				Min: 1, Max: 16, Delims: true, Probes: [2]int{0, 6},
			}))
		}
		return
	}, func(c *Ctx, r c34) {
		n := 0
		for _, h := range r.H {
			n += len(h.Ops)
		}
		raced(c, func() {
			var fns []func()
			for _, h := range r.H {
				fns = append(fns, func() {
					cc := &Ctx{T: c.T, labels: map[string]bool{}}
					w := newWorld(cc, h.Kind, h.Delim)
					defer w.S.Close()
					for _, op := range h.Ops {
						w.Apply(op)
						w.checkReads(w.S, "", h.Probes)
					}
					w.checkHas(w.S, "", h.Probes)
					w.checkEnum(w.S)
					w.checkMeta(w.S)
					_ = w.S.Dump()
				})
			}
			for i, err := range together(fns) {
				if err != nil {
					c.Failf("store %d: %v", i, err)
				}
			}
		})
		c.NT(n >= 8)
	})
}
