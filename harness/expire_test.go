package harness

import (
	"fmt"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"github.com/hedzr/store/radix"
)

// ---------------------------------------------------------------- C39: writing while keys expire

type c39op struct {
	Op string `json:"op"`
	K  string `json:"k,omitempty"`
	N  int    `json:"n,omitempty"` // ttl or sleep, in milliseconds
	X  *Val   `json:"x,omitempty"`
	V  bool   `json:"v,omitempty"` // through the view
}

type c39 struct {
	Kind  string  `json:"kind"`
	Delim string  `json:"delim"`
	View  string  `json:"view,omitempty"`
	Ops   []c39op `json:"ops"`
}

var c39ops = []string{"set", "set", "set", "insert", "setex", "setnode", "setempty", "update", "data", "node", "mark", "tag", "comment", "merge", "remove", "new", "below", "ttl", "read", "dup", "split"}

func TestC39(t *testing.T) {
	Check(t, "C39", func(t *rapid.T) c39 {
		r := c39{Kind: rapid.SampledFrom([]string{"store", "trie"}).Draw(t, "kind"), Delim: rapid.SampledFrom([]string{".", ".", "/"}).Draw(t, "delim")}
		g := newKeyGen(t, r.Delim)
		if rapid.IntRange(0, 2).Draw(t, "view?") == 0 {
			r.View = g.Path(t)
		}
		var sets []c39op
		val := func() *Val { v := genVal(t, "val"); return &v }
		for i := rapid.IntRange(1, 5).Draw(t, "nkeys"); i > 0; i-- {
			op := c39op{Op: "set", K: g.Key(t), X: val(), V: r.View != "" && rapid.Bool().Draw(t, "v")}
			sets, r.Ops = append(sets, op), append(r.Ops, op)
		}
		for round := rapid.IntRange(1, 4).Draw(t, "rounds"); round > 0; round-- {
			n := rapid.IntRange(1, 9).Draw(t, "ttl")
			var due []c39op
			for i := rapid.IntRange(1, 3).Draw(t, "nttl"); i > 0; i-- {
				op := rapid.SampledFrom(sets).Draw(t, "which")
				op.Op, op.N, op.X = "ttl", n, nil
				if rapid.IntRange(0, 5).Draw(t, "other time") == 0 {
					op.N = rapid.IntRange(1, 12).Draw(t, "ttl2")
				}
				due, r.Ops = append(due, op), append(r.Ops, op)
			}
			r.Ops = append(r.Ops, c39op{Op: "sleep", N: n})
			for i := rapid.IntRange(1, 4).Draw(t, "nwrites"); i > 0; i-- {
				op := rapid.SampledFrom(due).Draw(t, "due")
				if rapid.IntRange(0, 3).Draw(t, "another") == 0 {
					op = rapid.SampledFrom(sets).Draw(t, "which2")
				}
				op.Op, op.N, op.X = rapid.SampledFrom(c39ops).Draw(t, "op"), rapid.IntRange(0, 3).Draw(t, "n"), val()
				switch op.Op {
				case "new":
					op.K = g.Key(t)
				case "below":
					op.K = op.K + r.Delim + rapid.SampledFrom([]string{"x", "y"}).Draw(t, "below")
				case "split":
					op.K = op.K[:len(op.K)-1] + "zz"
					if !validKey(op.K, r.Delim) {
						op.K = g.Key(t)
					}
				case "ttl":
					op.N = rapid.IntRange(1, 9).Draw(t, "again")
				}
				r.Ops = append(r.Ops, op)
			}
			r.Ops = append(r.Ops, c39op{Op: "settle", N: rapid.IntRange(0, 2).Draw(t, "rest")})
		}
		return r
	}, func(c *Ctx, h c39) {
		var err error
		ok := c.T.Run("case", func(t *testing.T) {
			synctest.Test(t, func(*testing.T) { err = guard(func() { runC39(c, h) }) })
		})
		if err != nil {
			c.Failf("%v", err)
		}
		if !ok {
			c.Failf("data race (see the report of the race detector)")
		}
	})
}

func runC39(c *Ctx, h c39) {
	base := newSUT(h.Kind, h.Delim)
	views, pre := []*SUT{base, base}, []string{"", ""}
	if h.View != "" {
		views[1], pre[1] = base.WithPrefix(h.View), h.View
	}
	defer func() {
		base.Close()
		views[1].Close()
		synctest.Wait()
	}()
	m := newModel(h.Delim)
	type job struct {
		at      time.Duration
		key     string
		settled bool
		id      int
	}
	var jobs []*job
	start := time.Now()
	now := func() time.Duration { return time.Since(start) }
	var mu sync.Mutex
	rang := map[int]int{}
	open, openTag := map[string][]any{}, map[string][]any{} // what else than the model says a key may hold
	collide, cleared := 0, 0

	due := func(key string) bool {
		for _, j := range jobs {
			if !j.settled && j.key == key && j.at <= now() {
				return true
			}
		}
		return false
	}
	forget := func(key string) { // the key was removed
		for _, j := range jobs {
			if j.key == key {
				j.settled = true
			}
		}
		delete(open, key)
		delete(openTag, key)
	}
	// A write to a key which expires now comes before or after that.
	arrive := func() {
		for _, j := range jobs {
			if !j.settled && j.at <= now() {
				if m.M[j.key] != nil {
					open[j.key], openTag[j.key] = append(open[j.key], nil), append(openTag[j.key], nil)
				}
			}
		}
	}
	in := func(v any, l []any) bool {
		for _, x := range l {
			if eq(v, x) {
				return true
			}
		}
		return false
	}
	settle := func() {
		synctest.Wait()
		mu.Lock()
		for _, j := range jobs {
			if !j.settled && j.at <= now() {
				j.settled = true
				if rang[j.id] != 1 {
					c.Failf("the TTL of %q called back %d times", j.key, rang[j.id])
				}
				if e := m.M[j.key]; e != nil && base.MustGet(j.key) == nil && e.Val != nil {
					cleared++
				}
			}
		}
		mu.Unlock()
		got, err := base.GetM("")
		if err != nil || len(got) != len(m.M) {
			c.Failf("the content is %s (%v), expected the keys of %s", show(got), err, show(m.flat()))
		}
		for k, e := range m.M {
			v, found := base.Get(k)
			if !found || !eq(v, e.Val) && !in(v, open[k]) {
				c.Failf("Get(%q) = %s, %v at %v, expected %s or one of %s", k, show(v), found, now(), show(e.Val), show(open[k]))
			}
			if v2, ok := got[k]; !ok || !eq(v2, v) {
				c.Failf("GetM has %s for %q, Get %s", show(v2), k, show(v))
			}
			tag := base.MustGetTag(k)
			if !eq(tag, e.Tag) && !in(tag, openTag[k]) {
				c.Failf("MustGetTag(%q) = %s at %v, expected %s or one of %s", k, show(tag), now(), show(e.Tag), show(openTag[k]))
			}
			e.Val, e.Tag = v, tag
			delete(open, k)
			delete(openTag, k)
		}
		for _, p := range []string{"nokey", "nokey" + h.Delim + "x"} {
			if base.Has(p) && !m.has(p) {
				c.Failf("Has(%q)", p)
			}
		}
	}

	for _, op := range h.Ops {
		vi := 0
		if op.V {
			vi = 1
		}
		s, full := views[vi], m.join(pre[vi], op.K)
		isKey := m.isKey(full)
		if op.Op != "sleep" && op.Op != "settle" && op.Op != "ttl" && op.Op != "read" && due(full) {
			collide++
		}
		set := func(v any) {
			m.set(full, v)
			if due(full) { // it may have come before
				open[full] = append(open[full], nil)
				openTag[full] = append(openTag[full], nil)
			}
		}
		var v any
		if op.X != nil {
			v = op.X.Any()
		}
		switch op.Op {
		case "sleep", "settle":
			if op.Op == "settle" {
				settle()
			}
			if op.N > 0 {
				// whatever is due before comes before
				wake := now() + time.Duration(op.N)*time.Millisecond
				for {
					next := wake
					for _, j := range jobs {
						if !j.settled && j.at > now() && j.at < next {
							next = j.at
						}
					}
					time.Sleep(next - now())
					arrive()
					if next == wake {
						break
					}
					settle()
				}
			}
		case "ttl":
			if !isKey {
				continue
			}
			j := &job{at: now() + time.Duration(op.N)*time.Millisecond, key: full, id: len(jobs)}
			if st := s.SetTTL(op.K, time.Duration(op.N)*time.Millisecond, func(*radix.TTL[any], radix.Node[any]) {
				mu.Lock()
				defer mu.Unlock()
				rang[j.id]++
			}); st != 0 {
				c.Failf("SetTTL(%q) = %d", full, st)
			}
			jobs = append(jobs, j)
		case "set", "new", "below", "split":
			s.Set(op.K, v)
			set(v)
		case "insert":
			s.low.Insert(op.K, v)
			set(v)
		case "setex":
			s.SetEx(op.K, v, nil)
			set(v)
		case "setnode":
			s.low.SetNode(op.K, v, op.N, "d")
			set(v)
			m.M[full].Tag = op.N
		case "setempty":
			s.low.SetEmpty(op.K)
			set(nil)
			m.M[full].Tag = nil
		case "update":
			s.Update(op.K, func(nd radix.Node[any], _ any) { nd.SetData(v) })
			set(v)
		case "data", "node", "mark":
			if !isKey {
				continue
			}
			nd, _, _, _ := s.Locate(op.K, nil)
			switch op.Op {
			case "data":
				nd.SetData(v)
				set(v)
			case "node":
				nd.SetTag(op.N)
				nd.SetComment("a", "b")
				m.M[full].Tag = op.N
			case "mark":
				nd.SetModified(op.N&1 == 0)
				if op.N == 2 {
					nd.ToggleModified()
				}
			}
		case "tag":
			if isKey {
				s.SetTag(op.K, op.N)
				m.M[full].Tag = op.N
			}
		case "comment":
			if isKey {
				s.SetComment(op.K, "d", "c")
			}
		case "merge":
			if isKey && !m.isSection(full) {
				at, last := "", op.K
				if i := strings.LastIndex(op.K, h.Delim); i >= 0 {
					at, last = op.K[:i], op.K[i+len(h.Delim):]
				}
				if err := s.Merge(at, map[string]any{last: op.N}); err != nil {
					c.Failf("Merge(%q): %v", at, err)
				}
				set(op.N)
			}
		case "remove":
			if isKey && m.isSection(full) {
				continue // what becomes of the handle of a key which goes on as a section is open
			}
			for k := range m.M {
				if k == full || m.under(full, k) {
					forget(k)
				}
			}
			m.remove(full)
			s.Remove(op.K)
		case "dup":
			d := base.Dup()
			for k, e := range m.M {
				if got := d.MustGet(k); !eq(got, e.Val) && !in(got, open[k]) && scalar(e.Val) {
					c.Failf("the copy holds %s for %q at %v, expected %s or one of %s", show(got), k, now(), show(e.Val), show(open[k]))
				}
			}
		case "read":
			_ = fmt.Sprint(s.MustGet(op.K), s.Has(op.K), len(s.Dump()))
			if nd, _, _, ok := s.Locate(op.K, nil); ok && isKey {
				_ = fmt.Sprint(nd.Data(), nd.Tag(), nd.Modified(), nd.Comment())
			}
			got := s.MustGet(op.K)
			if e := m.M[full]; e != nil && !eq(got, e.Val) && !in(got, open[full]) {
				c.Failf("MustGet(%q) = %s at %v, expected %s or one of %s", full, show(got), now(), show(e.Val), show(open[full]))
			}
		}
	}
	settle()
	time.Sleep(15 * time.Millisecond)
	arrive()
	settle()
	c.NT(collide > 0 && len(m.M) > 1)
	c.Label(collide > 0, "a key written as it expires")
	c.Label(cleared > 0, "the expiry came last")
	c.Label(h.View != "", "with a view")
}

func scalar(v any) bool {
	switch v.(type) {
	case nil, string, bool, int, int64, uint64, float64:
		return true
	}
	return false
}
