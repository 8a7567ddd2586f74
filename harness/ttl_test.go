package harness

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"github.com/hedzr/store/radix"
)

// ---------------------------------------------------------------- C21: time to live

type c21op struct {
	Op string `json:"op"` // set | remove | ttl | ttlfast | ttlnode | meta | sleep | close
	K  string `json:"k,omitempty"`
	N  int    `json:"n,omitempty"` // ttl or sleep, in units
	X  *Val   `json:"x,omitempty"`
	V  bool   `json:"v,omitempty"` // through the view
	Q  bool   `json:"q,omitempty"` // quiet: without a callback
}

type c21 struct {
	Kind  string  `json:"kind"`
	Delim string  `json:"delim"`
	View  string  `json:"view,omitempty"`
	BR    bool    `json:"br,omitempty"` // the view looks up recursively, which must not matter to a TTL
	Ops   []c21op `json:"ops"`
}

const ttlUnit = 100 * time.Millisecond

type ttlJob struct {
	id       int
	at       time.Duration
	key      string
	gen      int // which life of the key
	section  bool
	via      int // which runner
	val      any
	fired    bool
	canceled bool
	live     bool // the key was there when it fired
	quiet    bool // without a callback
}

type ttlFire struct {
	at  time.Duration
	key string
	val any
}

func TestC21(t *testing.T) {
	Check(t, "C21", func(t *rapid.T) c21 {
		r := c21{Kind: rapid.SampledFrom([]string{"store", "trie"}).Draw(t, "kind"), Delim: rapid.SampledFrom([]string{".", ".", ".", "/", "-"}).Draw(t, "delim")}
		g := newKeyGen(t, r.Delim)
		if rapid.Bool().Draw(t, "view?") {
			r.View = g.Path(t)
			r.BR = rapid.IntRange(0, 3).Draw(t, "br") == 0
		}
		base := g.Path(t)
		var sets []c21op
		for i := rapid.IntRange(4, 26).Draw(t, "nops"); i > 0; i-- {
			op := c21op{Op: rapid.SampledFrom([]string{"set", "set", "set", "set", "remove", "ttl", "ttl", "ttl", "ttlfast", "ttlnode", "meta", "sleep", "sleep", "close"}).Draw(t, "op")}
			op.V = r.View != "" && rapid.Bool().Draw(t, "v")
			if op.Op == "set" {
				op.K = g.Key(t)
			} else {
				op.K = g.Path(t)
				if len(sets) > 0 && rapid.IntRange(0, 7).Draw(t, "old") > 0 {
					o := rapid.SampledFrom(sets).Draw(t, "which")
					op.K, op.V = o.K, o.V
				}
			}
			inSec := rapid.IntRange(0, 3).Draw(t, "in") == 0
			switch op.Op {
			case "set":
				if inSec {
					op.K = base + r.Delim + rapid.SampledFrom([]string{"a", "b", "ab", "b" + r.Delim + "c"}).Draw(t, "x")
				}
				v := genScalar(t, "val")
				op.X = &v
				sets = append(sets, op)
			case "ttl", "ttlfast", "ttlnode":
				op.Q = rapid.IntRange(0, 5).Draw(t, "quiet") == 0
				op.N = rapid.SampledFrom([]int{1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 10, 11, 12, 13, 14}).Draw(t, "ttl")
				if rapid.IntRange(0, 4).Draw(t, "sec") == 0 {
					if sg := strings.Split(op.K, r.Delim); len(sg) > 1 {
						op.K = strings.Join(sg[:rapid.IntRange(1, len(sg)-1).Draw(t, "cut")], r.Delim)
					} else {
						op.K = g.Path(t)
					}
				}
				if inSec && rapid.Bool().Draw(t, "in base") {
					op.K = base
				}
			case "sleep":
				op.N = rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 6, 7}).Draw(t, "sleep")
			}
			r.Ops = append(r.Ops, op)
		}
		return r
	}, func(c *Ctx, h c21) {
		var err error
		synctest.Test(c.T, func(*testing.T) { err = guard(func() { runTTL(c, h) }) })
		if err != nil {
			c.Failf("%v", err)
		}
	})
}

func runTTL(c *Ctx, h c21) {
	start := time.Now()
	base := newSUT(h.Kind, h.Delim)
	views := []*SUT{base, base}
	pre := []string{"", ""}
	if h.View != "" {
		views[1], pre[1] = base.WithPrefix(h.View), h.View
		if h.BR {
			views[1] = views[1].BR()
		}
	}
	defer func() { // no goroutine may be left after this
		base.Close()
		views[1].Close()
		synctest.Wait()
	}()
	m := newModel(h.Delim)
	life := map[string]int{} // generation of each key
	var jobs []*ttlJob
	var mu sync.Mutex
	fires := map[int][]ttlFire{}
	reported := map[int]int{}
	expired, clearedSec := 0, 0
	gone := map[string]bool{}
	now := func() time.Duration { return time.Since(start) }

	settle := func() { // the model catches up with the clock
		synctest.Wait()
		sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].at < jobs[j].at })
		for _, j := range jobs {
			if j.fired || j.canceled || j.at > now() {
				continue
			}
			j.fired = true
			if j.section {
				if m.isSection(j.key) {
					clearedSec++
				}
				for k := range m.M {
					if k == j.key || m.under(j.key, k) {
						life[k]++
					}
				}
				m.remove(j.key)
			} else if e := m.M[j.key]; e != nil && life[j.key] == j.gen {
				j.live, j.val = true, e.Val
				e.Val, e.Tag = nil, nil
				gone[j.key] = true // what becomes of its comment is open
				expired++
			}
		}
		mu.Lock()
		defer mu.Unlock()
		for _, j := range jobs {
			want := 0
			if j.fired {
				want = 1
			}
			fs := fires[j.id]
			if j.quiet {
				continue
			}
			if len(fs) != want {
				c.Failf("the callback of the TTL of %q (due at %v, canceled %v) was called %d times by %v, expected %d", j.key, j.at, j.canceled, len(fs), now(), want)
			}
			if want == 1 && reported[j.id] == 0 {
				reported[j.id] = 1
				if fs[0].at != j.at {
					c.Failf("the TTL of %q rang at %v, expected %v", j.key, fs[0].at, j.at)
				}
				if !j.section && fs[0].key != j.key {
					c.Failf("the TTL of %q rang for %q", j.key, fs[0].key)
				}
				if j.live && !eq(fs[0].val, j.val) {
					c.Failf("the TTL of %q rang with %s, expected %s", j.key, show(fs[0].val), show(j.val))
				}
			}
		}
	}
	verify := func() {
		got, err := base.GetM("")
		diffMaps(c, fmt.Sprintf("the content at %v", now()), got, m.flat(), err)
		for k, e := range m.M {
			if v := base.MustGet(k); !eq(v, e.Val) {
				c.Failf("MustGet(%q) = %s at %v, expected %s", k, show(v), now(), show(e.Val))
			}
			if v := base.MustGetTag(k); !eq(v, e.Tag) {
				c.Failf("MustGetTag(%q) = %s at %v, expected %s", k, show(v), now(), show(e.Tag))
			}
			if v := base.MustGetComment(k); v != e.Comment && !gone[k] {
				c.Failf("MustGetComment(%q) = %q at %v, expected %q", k, v, now(), e.Comment)
			}
		}
	}

	jobID := 0
ops:
	for _, op := range h.Ops {
		vi := 0
		if op.V {
			vi = 1
		}
		s := views[vi]
		full := m.join(pre[vi], op.K)
		via := vi
		if views[0] == views[1] {
			via = 0
		}
		switch op.Op {
		case "set":
			// a section with a pending TTL stays a section
			for _, j := range jobs {
				if j.section && !j.fired && !j.canceled && j.key == full {
					continue ops
				}
			}
			if m.M[full] == nil {
				delete(gone, full)
				life[full]++
			}
			m.set(full, op.X.Any())
			s.Set(op.K, op.X.Any())
		case "remove":
			for _, j := range jobs {
				// what a TTL of a removed section does to its successor is not determined
				if j.section && !j.fired && !j.canceled && (j.key == full || m.under(full, j.key)) {
					continue ops
				}
				// nor what becomes of a handle of a key which goes on as a section
				if !j.fired && !j.canceled && j.key == full && m.isSection(full) {
					continue ops
				}
			}
			for k := range m.M {
				if k == full || m.under(full, k) {
					life[k]++
				}
			}
			m.remove(full)
			s.Remove(op.K)
		case "meta":
			if e := m.M[full]; e != nil {
				e.Tag, e.Comment = op.K, fmt.Sprint("c", len(jobs))
				delete(gone, full)
				if !s.SetTag(op.K, e.Tag) || !s.SetComment(op.K, "", e.Comment) {
					c.Failf("setting tag and comment of %q failed", full)
				}
			}
		case "ttl", "ttlfast", "ttlnode":
			ttl := time.Duration(op.N) * ttlUnit
			id := jobID
			jobID++
			// no two at the same instant
			switch op.N {
			case 0:
			case 9:
				ttl = 150 * time.Nanosecond // too short to be taken
			case 10:
				ttl = 300*time.Nanosecond + time.Duration(id)
			case 11:
				ttl = time.Microsecond + time.Duration(id)
			case 12:
				ttl = 150*time.Microsecond + time.Duration(id)
			case 13:
				ttl = 5500*time.Microsecond + time.Duration(id)*time.Millisecond
			case 14:
				ttl = 3*time.Hour + 250*time.Microsecond + time.Duration(id)*time.Millisecond
			default:
				ttl += time.Duration(id) * time.Millisecond
			}
			var cb radix.OnTTLRinging[any] = func(_ *radix.TTL[any], nd radix.Node[any]) {
				mu.Lock()
				defer mu.Unlock()
				fires[id] = append(fires[id], ttlFire{now(), nd.Key(), nd.Data()})
			}
			if op.Q {
				cb = nil
			}
			isKey, isSec := m.isKey(full), m.isSection(full)
			if isSec && !isKey {
				// what a TTL of a dropped section does to its successor is not determined
				again := false
				for _, j := range jobs {
					again = again || j.section && !j.fired && !j.canceled && (j.key == full || m.under(j.key, full) || m.under(full, j.key))
				}
				if again {
					continue
				}
			}
			var state int
			if !isKey && isSec {
				// only sections the tree has a node for are taken
				if node, branch, partial, found := base.Locate(full, nil); !found || partial || !branch || node == nil {
					continue
				}
			}
			if op.Op == "ttl" {
				state = s.SetTTL(op.K, ttl, cb)
			} else {
				if !isKey && !isSec {
					continue
				}
				node, _, _, _ := s.Locate(op.K, nil)
				if op.Op == "ttlnode" && s.trie != nil {
					node.SetTTL(ttl, s.trie, cb)
				} else {
					state = s.SetTTLFast(node, ttl, cb)
				}
			}
			if !isKey && !isSec {
				if state != -1 {
					c.Failf("SetTTL(%q) = %d for a path which does not exist", full, state)
				}
				continue
			}
			if state != 0 {
				c.Failf("%s(%q) = %d", op.Op, full, state)
			}
			if ttl >= 200*time.Nanosecond {
				jobs = append(jobs, &ttlJob{id: id, at: now() + ttl, key: full, gen: life[full], section: !isKey, via: via, quiet: op.Q})
			}
		case "sleep":
			if op.N == 7 {
				time.Sleep(2 * time.Hour)
			} else {
				time.Sleep(time.Duration(op.N)*ttlUnit + ttlUnit/2)
			}
		case "close":
			s.Close()
			for _, j := range jobs {
				if !j.fired && j.via == via {
					j.canceled = true
				}
			}
		}
		settle()
		verify()
	}
	time.Sleep(12 * ttlUnit)
	settle()
	verify()
	c.NT(expired > 0 && len(m.M) > 0)
	c.Label(expired > 0, "a key expired")
	c.Label(clearedSec > 0, "a section expired")
	cancels := 0
	for _, j := range jobs {
		if j.canceled {
			cancels++
		}
	}
	c.Label(cancels > 0, "pending at close")
	c.Label(h.View != "", "with a view")
}
