package harness

import (
	"encoding/json"
	"fmt"
	"math"
	"net/http"
	"net/http/httptest"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/hashicorp/consul/api"
	"pgregory.net/rapid"

	"github.com/hedzr/store"
	"github.com/hedzr/store/providers/consul"
)

// ---------------------------------------------------------------- a key/value service owned by the harness

type kvPair struct {
	Key         string
	CreateIndex uint64
	ModifyIndex uint64
	LockIndex   uint64
	Flags       uint64
	Value       []byte
	Session     string `json:",omitempty"`
}

// kvService answers /v1/kv requests the way Consul does.
type kvService struct {
	mu    sync.Mutex
	index uint64
	pairs map[string]*kvPair
	fail  bool
	polls chan uint64   // the index a blocking query waits for, as it arrives
	wake  chan struct{} // closed and replaced at each change
	gone  chan struct{} // a blocking query was given up by the client
}

func newKV() *kvService {
	return &kvService{index: 1, pairs: map[string]*kvPair{}, polls: make(chan uint64, 64), wake: make(chan struct{}), gone: make(chan struct{}, 64)}
}

// change applies a batch; each of its changes has its own index.
func (s *kvService) change(fns ...func(idx uint64)) {
	s.mu.Lock()
	for _, fn := range fns {
		s.index++
		fn(s.index)
	}
	close(s.wake)
	s.wake = make(chan struct{})
	s.mu.Unlock()
}

func (s *kvService) put(idx uint64, k, v string) {
	p := &kvPair{Key: k, CreateIndex: idx, ModifyIndex: idx, Value: []byte(v)}
	if old := s.pairs[k]; old != nil {
		p.CreateIndex = old.CreateIndex
	}
	s.pairs[k] = p
}

func (s *kvService) list(prefix string, recurse bool) (r []*kvPair) {
	for k, p := range s.pairs {
		if recurse && strings.HasPrefix(k, prefix) || k == prefix {
			r = append(r, p)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Key < r[j].Key })
	return
}

func (s *kvService) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	q := r.URL.Query()
	_, recurse := q["recurse"]
	key, ok := strings.CutPrefix(r.URL.Path, "/v1/kv/")
	if !ok || r.Method != "GET" {
		http.Error(w, "no such endpoint", http.StatusNotFound)
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.fail {
		http.Error(w, "injected", http.StatusInternalServerError)
		return
	}
	if at, err := strconv.ParseUint(q.Get("index"), 10, 64); err == nil && at > 0 {
		select {
		case s.polls <- at:
		default:
		}
		for s.index <= at {
			wake := s.wake
			s.mu.Unlock()
			select {
			case <-wake:
			case <-r.Context().Done():
				s.mu.Lock()
				select {
				case s.gone <- struct{}{}:
				default:
				}
				return
			}
			s.mu.Lock()
		}
	}
	pairs := s.list(key, recurse)
	h := w.Header()
	h.Set("Content-Type", "application/json")
	h.Set("X-Consul-Index", strconv.FormatUint(s.index, 10))
	h.Set("X-Consul-LastContact", "0")
	h.Set("X-Consul-KnownLeader", "true")
	if len(pairs) == 0 {
		w.WriteHeader(http.StatusNotFound)
		return
	}
	b, err := json.Marshal(pairs)
	must(err)
	_, _ = w.Write(b)
}

// memTransport answers without a network.
type memTransport struct{ h http.Handler }

func (m memTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	w := httptest.NewRecorder()
	m.h.ServeHTTP(w, r)
	res := w.Result()
	res.Request = r
	return res, nil
}

// ---------------------------------------------------------------- C30: reading from Consul

type c30pair struct {
	K string `json:"k"`
	V string `json:"v"`
	F uint64 `json:"f,omitempty"`
	S string `json:"s,omitempty"`
}

type c30 struct {
	Pairs   []c30pair `json:"pairs"`
	Pos     string    `json:"pos"`
	Single  bool      `json:"single,omitempty"` // not recursive
	NoMeta  bool      `json:"nometa,omitempty"`
	Strip   string    `json:"strip,omitempty"`
	Prepend string    `json:"prepend,omitempty"`
	At      string    `json:"at,omitempty"`
	Fail    bool      `json:"fail,omitempty"`
	Late    bool      `json:"late,omitempty"` // the position is given to Load
}

func genConsulKey(t *rapid.T) string {
	segs := rapid.SliceOfN(rapid.SampledFrom([]string{"app", "a", "ap", "apps", "conf", "db", "日本", "x-1", "k_2", "http"}), 1, 4).Draw(t, "key")
	if rapid.IntRange(0, 14).Draw(t, "deep") == 0 {
		for i := rapid.SampledFrom([]int{5, 9, 20, 40}).Draw(t, "levels"); i > 0; i-- {
			segs = append(segs, "l"+strconv.Itoa(i%3))
		}
	}
	if len(segs) > 1 && rapid.IntRange(0, 3).Draw(t, "shared") > 0 {
		segs[0] = "app"
	}
	return strings.Join(segs, "/")
}

func TestC30(t *testing.T) {
	Check(t, "C30", func(t *rapid.T) c30 {
		r := c30{Single: rapid.IntRange(0, 3).Draw(t, "single") == 0, NoMeta: rapid.Bool().Draw(t, "nometa"), Fail: rapid.IntRange(0, 9).Draw(t, "fail") == 9}
		for i := rapid.IntRange(0, 8).Draw(t, "n"); i > 0; i-- {
			p := c30pair{K: genConsulKey(t), V: genText(t, "v"), F: rapid.SampledFrom([]uint64{0, 0, 1, 42, 1 << 60, 1 << 63, math.MaxUint64}).Draw(t, "f")}
			if rapid.IntRange(0, 3).Draw(t, "sess") == 0 {
				p.S = "adf4238a-882b-9ddc-4a9d-5b6758e4159e"
			}
			r.Pairs = append(r.Pairs, p)
		}
		r.Pos = genConsulKey(t)
		if len(r.Pairs) > 0 && rapid.IntRange(0, 9).Draw(t, "pos") > 0 {
			k := rapid.SampledFrom(r.Pairs).Draw(t, "of").K
			if segs := strings.Split(k, "/"); !r.Single && len(segs) > 1 {
				k = strings.Join(segs[:rapid.IntRange(1, len(segs)-1).Draw(t, "cut")], "/")
				if rapid.Bool().Draw(t, "slash") {
					k += "/"
				}
			}
			r.Pos = k
		}
		if rapid.Bool().Draw(t, "strip?") {
			r.Strip = strings.TrimSuffix(r.Pos, "/")
			if rapid.IntRange(0, 2).Draw(t, "stripother") == 0 {
				r.Strip = genConsulKey(t)
			}
		}
		if rapid.IntRange(0, 2).Draw(t, "prepend?") == 0 {
			r.Prepend = rapid.SampledFrom([]string{"remote", "r.s", "a"}).Draw(t, "prepend")
		}
		if rapid.Bool().Draw(t, "at?") {
			r.At = rapid.SampledFrom([]string{"kv", "svc.kv"}).Draw(t, "at")
		}
		r.Late = rapid.IntRange(0, 3).Draw(t, "late") == 0
		return r
	}, func(c *Ctx, h c30) {
		kv := newKV()
		for _, p := range h.Pairs {
			kv.change(func(idx uint64) {
				kv.put(idx, p.K, p.V)
				kv.pairs[p.K].Flags, kv.pairs[p.K].Session = p.F, p.S
			})
		}
		kv.fail = h.Fail
		cfg := &api.Config{Address: "kv.invalid", HttpClient: &http.Client{Transport: memTransport{kv}}}
		opts := []consul.Opt{consul.WithConsulConfig(cfg), consul.WithPosition(h.Pos), consul.WithDelimiter("."), consul.WithRecursive(!h.Single), consul.WithProcessMeta(!h.NoMeta)}
		if h.Late {
			opts = append(opts, consul.WithPosition(h.Pos+"elsewhere"))
		}
		if h.Strip != "" {
			opts = append(opts, consul.WithStripPrefix(h.Strip))
		}
		if h.Prepend != "" {
			opts = append(opts, consul.WithPrependPrefix(h.Prepend))
		}
		want := map[string]*kvPair{}
		for _, p := range kv.list(h.Pos, !h.Single) {
			k := consulName(p.Key, h.Strip, h.Prepend)
			if h.At != "" {
				k = h.At + "." + k
			}
			if want[k] != nil {
				return // two entries get the same name
			}
			want[k] = p
		}
		s := store.New()
		defer s.Close()
		s.Set("before.it", 1)
		lo := []store.LoadOpt{store.WithProvider(consul.New(opts...))}
		if h.At != "" {
			lo = append(lo, store.WithStorePrefix(h.At))
		}
		if h.Late {
			lo = append(lo, store.WithPosition(h.Pos))
		}
		wr, err := s.Load(bg, lo...)
		if h.Fail {
			if err == nil {
				c.Failf("the failure of the service is not reported")
			}
			want = nil
		} else if err != nil || wr == nil {
			c.Failf("Load: %v, %v", wr, err)
		}
		flat := map[string]any{"before.it": 1}
		for k, p := range want {
			flat[k] = string(p.Value)
		}
		got, err := s.GetM("")
		diffMaps(c, "the loaded keys", got, flat, err)
		for k, p := range want {
			if v := s.MustString(k); v != string(p.Value) {
				c.Failf("%q is %q, expected %q", k, v, p.Value)
			}
			tag, _ := s.MustGetTag(k).(map[string]any)
			if h.NoMeta {
				if len(tag) != 0 {
					c.Failf("%q has meta data: %v", k, tag)
				}
				continue
			}
			sess := p.Session
			if sess == "" {
				sess = "-"
			}
			u := func(x uint64) string { return strconv.FormatUint(x, 10) }
			exp := map[string]any{"CreateIndex": u(p.CreateIndex), "ModifyIndex": u(p.ModifyIndex), "LockIndex": u(p.LockIndex), "Flags": u(p.Flags), "Session": sess, "Value": string(p.Value)}
			diffMaps(c, "the meta data of "+k, tag, exp, nil)
		}
		c.NT(len(want) > 1 || h.Single && len(want) == 1)
		c.Label(h.Single, "single key")
		c.Label(len(want) == 0 && !h.Fail, "nothing there")
		c.Label(len(want) > 0 && h.Strip != "", "stripped")
		c.Label(len(want) > 0 && h.Prepend != "", "prepended")
		c.Label(h.Fail, "failing service")
	})
}

func consulName(k, strip, prepend string) string {
	if rest, ok := strings.CutPrefix(k, strip+"/"); ok && strip != "" {
		k = rest
	}
	if prepend != "" {
		k = prepend + "." + k
	}
	return strings.ReplaceAll(k, "/", ".")
}

// ---------------------------------------------------------------- C32: watching Consul

type c32op struct {
	Op string `json:"op"` // put | del | touch (same value again)
	K  string `json:"k"`
	V  string `json:"v,omitempty"`
}

type c32 struct {
	Init   []c32op   `json:"init,omitempty"`
	Single bool      `json:"single,omitempty"`
	At     string    `json:"at,omitempty"`
	Strip  bool      `json:"strip,omitempty"`
	Off    bool      `json:"off,omitempty"`  // watching is off
	Late   []c32op   `json:"late,omitempty"` // after it was loaded, before the watcher asks at first
	Steps  [][]c32op `json:"steps"`          // batches seen at once
}

func TestC32(t *testing.T) {
	keys := []string{"app/a", "app/b", "app/a/x", "app/a/y", "app/ab", "app/日本/z", "other/a", "apple"}
	Check(t, "C32", func(t *rapid.T) c32 {
		op := func() c32op {
			return c32op{Op: rapid.SampledFrom([]string{"put", "put", "put", "del", "touch"}).Draw(t, "op"), K: rapid.SampledFrom(keys).Draw(t, "k"), V: rapid.SampledFrom([]string{"1", "2", "on", "日", "x y"}).Draw(t, "v")}
		}
		r := c32{Single: rapid.IntRange(0, 3).Draw(t, "single") == 0, Strip: rapid.Bool().Draw(t, "strip"), Off: rapid.IntRange(0, 9).Draw(t, "off") == 0}
		if rapid.Bool().Draw(t, "at?") {
			r.At = "kv"
		}
		for i := rapid.IntRange(0, 4).Draw(t, "ninit"); i > 0; i-- {
			o := op()
			o.Op = "put"
			r.Init = append(r.Init, o)
		}
		if rapid.IntRange(0, 2).Draw(t, "late?") == 0 {
			for i := rapid.IntRange(1, 3).Draw(t, "nlate"); i > 0; i-- {
				r.Late = append(r.Late, op())
			}
		}
		for i := rapid.IntRange(1, 5).Draw(t, "nsteps"); i > 0; i-- {
			var b []c32op
			n := 1
			if rapid.IntRange(0, 2).Draw(t, "batch") == 0 {
				n = rapid.IntRange(2, 4).Draw(t, "n")
			}
			for ; n > 0; n-- {
				b = append(b, op())
			}
			r.Steps = append(r.Steps, b)
		}
		return r
	}, func(c *Ctx, h c32) {
		kv := newKV()
		apply := func(b []c32op) {
			var fns []func(uint64)
			for _, o := range b {
				fns = append(fns, func(idx uint64) {
					switch o.Op {
					case "put":
						kv.put(idx, o.K, o.V)
					case "touch":
						if p := kv.pairs[o.K]; p != nil {
							kv.put(idx, o.K, string(p.Value))
						}
					case "del":
						delete(kv.pairs, o.K)
					}
				})
			}
			kv.change(fns...)
		}
		apply(h.Init)
		loaded, once := make(chan struct{}), sync.Once{}
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { // the watcher asks here
			once.Do(func() {
				<-loaded
				apply(h.Late)
			})
			kv.ServeHTTP(w, r)
		}))
		defer srv.Close()
		cfg := &api.Config{Address: strings.TrimPrefix(srv.URL, "http://"), HttpClient: &http.Client{Transport: memTransport{kv}}}
		pos, strip := "app/", ""
		if h.Single {
			pos = "app/a"
		}
		opts := []consul.Opt{consul.WithConsulConfig(cfg), consul.WithPosition(pos), consul.WithDelimiter("."), consul.WithRecursive(!h.Single), consul.WithWatchEnabled(true)}
		if h.Strip {
			strip = "app"
			opts = append(opts, consul.WithStripPrefix(strip))
		}
		s := store.New(store.WithWatchEnable(!h.Off))
		closed := false
		defer func() {
			if !closed {
				s.Close()
			}
		}()
		s.Set("own", "value")
		sp := newSpy(consul.New(opts...))
		lo := []store.LoadOpt{store.WithProvider(sp)}
		if h.At != "" {
			lo = append(lo, store.WithStorePrefix(h.At))
		}
		if _, err := s.Load(bg, lo...); err != nil {
			c.Failf("Load: %v", err)
		}
		// reported compares what the watcher reports to what has changed
		reported := func(before, after map[string]any, b []c32op) {
			seen := map[string]bool{}
			touched := map[string]bool{}
			at := ""
			if h.At != "" {
				at = h.At + "."
			}
			for _, o := range b {
				touched[at+consulName(o.K, strip, "")] = true
			}
			notes := sp.take(c)
			for _, n := range notes {
				k := at + n.key
				_, was := before[k]
				now, is := after[k]
				want := store.OpWrite
				switch {
				case !was && is:
					want = store.OpCreate
				case was && !is:
					want = store.OpRemove
				case !was || !touched[k]:
					c.Failf("after the changes %v, %v was reported as %v", b, k, notes)
				}
				if n.op != want || seen[k] || is && !eq(n.val, now) {
					c.Failf("after the changes %v, the change of %q to %s was reported in %v", b, k, show(now), notes)
				}
				seen[k] = true
			}
			for _, m := range []map[string]any{before, after} {
				for k := range m {
					old, was := before[k]
					now, is := after[k]
					if !seen[k] && (was != is || !eq(old, now)) {
						c.Failf("after the changes %v, the change of %q was not reported: %v", b, k, notes)
					}
				}
			}
		}
		expect := func() map[string]any {
			kv.mu.Lock()
			defer kv.mu.Unlock()
			r := map[string]any{"own": "value"}
			for _, p := range kv.list(pos, !h.Single) {
				k := consulName(p.Key, strip, "")
				if h.At != "" {
					k = h.At + "." + k
				}
				r[k] = string(p.Value)
			}
			return r
		}
		// settle waits until the watcher has dealt with all the changes and asks for more
		settle := func() bool {
			kv.mu.Lock()
			idx := kv.index
			kv.mu.Unlock()
			limit := time.After(20 * time.Second)
			for {
				select {
				case at := <-kv.polls:
					if at >= idx {
						return true
					}
				case <-limit:
					return false
				}
			}
		}
		removed, batches, changes := 0, 0, 0
		// a removed key takes the keys below it along
		takesAlong := func(before, want map[string]any) bool {
			for k := range before {
				if _, still := want[k]; !still {
					removed++
					for x := range want {
						if strings.HasPrefix(x, k+".") {
							c.Label(true, "removed a key with others below it")
							return true
						}
					}
				}
			}
			return false
		}
		frozen := expect()
		close(loaded)
		if !h.Off {
			if !settle() {
				c.Failf("the source is not watched")
			}
			want := expect()
			reported(frozen, want, h.Late)
			if takesAlong(frozen, want) {
				return
			}
			got, err := s.GetM("")
			diffMaps(c, fmt.Sprintf("after the changes %v between loading and watching", h.Late), got, want, err)
			c.Label(len(h.Late) > 0, "changes before the first watch")
		}
		for i, b := range h.Steps {
			before := expect()
			apply(b)
			want := expect()
			if h.Off {
				want = frozen
			} else if !settle() {
				c.Failf("the watcher does not come back after the changes %v", b)
			} else {
				reported(before, want, b)
			}
			if takesAlong(before, want) {
				return
			}
			if len(b) > 1 {
				batches++
			}
			changes += len(b)
			got, err := s.GetM("")
			diffMaps(c, fmt.Sprintf("after the changes %d %v", i, b), got, want, err)
		}
		// closing ends the watch
		s.Close()
		closed = true
		if !h.Off {
			select {
			case <-kv.gone:
			case <-time.After(20 * time.Second):
				c.Failf("the watch goes on after closing the store")
			}
		} else {
			select {
			case <-kv.polls:
				c.Failf("the source is watched although watching is off")
			default:
			}
		}
		c.NT(changes > 1 && !h.Off)
		c.Label(removed > 0, "removed")
		c.Label(batches > 0, "several changes at once")
		c.Label(h.Single, "single key")
		c.Label(h.Off, "watching off")
	})
}
