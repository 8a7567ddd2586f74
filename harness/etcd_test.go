package harness

import (
	"context"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"go.etcd.io/etcd/api/v3/etcdserverpb"
	"go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"
	"pgregory.net/rapid"

	"github.com/hedzr/store"
	"github.com/hedzr/store/providers/etcd"
)

// ---------------------------------------------------------------- C33: etcd

// etcdService stands in for the client side of etcd: reads and watches.
type etcdService struct {
	clientv3.KV
	mu      sync.Mutex
	rev     int64
	kvs     map[string]*mvccpb.KeyValue
	fail    bool
	ch      chan clientv3.WatchResponse
	watches []clientv3.Op
	ready   chan struct{}
	closed  bool
	log     []*clientv3.Event // all there ever was
	between []c32op           // before the watch is set up
	missed  []*clientv3.Event // which the watch asked for, by its revision
}

func (s *etcdService) in(op clientv3.Op, k string) bool {
	from, to := string(op.KeyBytes()), string(op.RangeBytes())
	if to == "" {
		return k == from
	}
	return k >= from && (to == "\x00" || k < to)
}

func (s *etcdService) Get(ctx context.Context, key string, opts ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.fail {
		return nil, errInjected
	}
	op := clientv3.OpGet(key, opts...)
	r := &clientv3.GetResponse{Header: &etcdserverpb.ResponseHeader{Revision: s.rev}}
	for k, kv := range s.kvs {
		if s.in(op, k) {
			r.Kvs = append(r.Kvs, kv)
		}
	}
	sort.Slice(r.Kvs, func(i, j int) bool { return string(r.Kvs[i].Key) < string(r.Kvs[j].Key) })
	r.Count = int64(len(r.Kvs))
	return r, nil
}

func (s *etcdService) Watch(ctx context.Context, key string, opts ...clientv3.OpOption) clientv3.WatchChan {
	s.change(s.between)
	s.mu.Lock()
	defer s.mu.Unlock()
	op := clientv3.OpGet(key, opts...)
	s.watches = append(s.watches, op)
	for _, ev := range s.log {
		if op.Rev() > 0 && ev.Kv.ModRevision >= op.Rev() && s.in(op, string(ev.Kv.Key)) {
			s.missed = append(s.missed, ev)
		}
	}
	close(s.ready)
	return s.ch
}
func (s *etcdService) RequestProgress(ctx context.Context) error { return nil }
func (s *etcdService) Close() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.closed {
		s.closed = true
		close(s.ch)
	}
	return nil
}

// change makes the changes, and returns the events of the watch.
func (s *etcdService) change(b []c32op) (evs []*clientv3.Event) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, o := range b {
		old := s.kvs[o.K]
		v := o.V
		if o.Op == "touch" && old == nil || o.Op == "del" && old == nil {
			continue
		}
		if o.Op == "touch" {
			v = string(old.Value)
		}
		s.rev++
		kv := &mvccpb.KeyValue{Key: []byte(o.K), Value: []byte(v), CreateRevision: s.rev, ModRevision: s.rev, Version: 1}
		typ := mvccpb.PUT
		if o.Op == "del" {
			delete(s.kvs, o.K)
			kv = &mvccpb.KeyValue{Key: []byte(o.K), ModRevision: s.rev}
			typ = mvccpb.DELETE
		} else {
			if old != nil {
				kv.CreateRevision, kv.Version = old.CreateRevision, old.Version+1
			}
			s.kvs[o.K] = kv
		}
		ev := &clientv3.Event{Type: typ, Kv: kv}
		s.log = append(s.log, ev)
		if len(s.watches) > 0 && s.in(s.watches[0], o.K) {
			evs = append(evs, ev)
		}
	}
	return
}

type c33 struct {
	Init    []c32op   `json:"init,omitempty"`
	Pos     string    `json:"pos"`
	Single  bool      `json:"single,omitempty"`
	Strip   string    `json:"strip,omitempty"`
	Prepend string    `json:"prepend,omitempty"`
	At      string    `json:"at,omitempty"`
	Fail    bool      `json:"fail,omitempty"`
	NoWatch bool      `json:"nowatch,omitempty"` // of the provider
	Off     bool      `json:"off,omitempty"`     // of the store
	Between []c32op   `json:"between,omitempty"` // after it was loaded, before the watch is set up
	Steps   [][]c32op `json:"steps,omitempty"`
	Late    bool      `json:"late,omitempty"`  // the position is given to Load
	Apart   bool      `json:"apart,omitempty"` // the place and its kind are given by options of their own
}

func TestC33(t *testing.T) {
	Check(t, "C33", func(t *rapid.T) c33 {
		var seen []string
		op := func() c32op {
			k := genConsulKey(t)
			if len(seen) > 0 && rapid.IntRange(0, 2).Draw(t, "old") > 0 {
				k = rapid.SampledFrom(seen).Draw(t, "k")
			}
			seen = append(seen, k)
			return c32op{Op: rapid.SampledFrom([]string{"put", "put", "put", "del", "touch"}).Draw(t, "op"), K: k, V: genText(t, "v")}
		}
		r := c33{Single: rapid.IntRange(0, 3).Draw(t, "single") == 0, Fail: rapid.IntRange(0, 19).Draw(t, "fail") == 19,
			NoWatch: rapid.IntRange(0, 9).Draw(t, "nowatch") == 9, Off: rapid.IntRange(0, 9).Draw(t, "off") == 9}
		for i := rapid.IntRange(0, 6).Draw(t, "ninit"); i > 0; i-- {
			o := op()
			o.Op = "put"
			r.Init = append(r.Init, o)
		}
		r.Pos = genConsulKey(t)
		if len(r.Init) > 0 && rapid.IntRange(0, 9).Draw(t, "pos") > 0 {
			k := rapid.SampledFrom(r.Init).Draw(t, "of").K
			if segs := strings.Split(k, "/"); !r.Single && len(segs) > 1 {
				k = strings.Join(segs[:rapid.IntRange(1, len(segs)-1).Draw(t, "cut")], "/")
				if rapid.Bool().Draw(t, "slash") {
					k += "/"
				}
			}
			r.Pos = k
		}
		if rapid.Bool().Draw(t, "strip?") {
			r.Strip = strings.TrimSuffix(r.Pos, "/")
			if rapid.IntRange(0, 2).Draw(t, "stripother") == 0 {
				r.Strip = genConsulKey(t)
			}
		}
		if rapid.IntRange(0, 2).Draw(t, "prepend?") == 0 {
			r.Prepend = rapid.SampledFrom([]string{"remote", "r.s", "a"}).Draw(t, "prepend")
		}
		if rapid.Bool().Draw(t, "at?") {
			r.At = rapid.SampledFrom([]string{"kv", "svc.kv"}).Draw(t, "at")
		}
		if rapid.IntRange(0, 2).Draw(t, "between?") == 0 {
			for i := rapid.IntRange(1, 3).Draw(t, "nbetween"); i > 0; i-- {
				r.Between = append(r.Between, op())
			}
		}
		for i := rapid.IntRange(0, 5).Draw(t, "nsteps"); i > 0; i-- {
			var b []c32op
			for n := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "n"); n > 0; n-- {
				b = append(b, op())
			}
			r.Steps = append(r.Steps, b)
		}
		r.Late = rapid.IntRange(0, 3).Draw(t, "late") == 0
		r.Apart = rapid.IntRange(0, 2).Draw(t, "apart") == 0
		return r
	}, func(c *Ctx, h c33) {
		es := &etcdService{kvs: map[string]*mvccpb.KeyValue{}, rev: 3, ch: make(chan clientv3.WatchResponse), ready: make(chan struct{})}
		es.change(h.Init)
		es.fail, es.between = h.Fail, h.Between
		opts := []etcd.Opt{etcd.WithDelimiter("."), etcd.WithWatchEnabled(!h.NoWatch), etcd.WithDialTimeout(time.Minute), etcd.WithProcessMeta(false)}
		switch {
		case h.Apart && h.Single:
			opts = append(opts, etcd.WithStorePrefix("other"), etcd.WithPosition(h.Pos), etcd.WithRecursive(false))
		case h.Apart:
			opts = append(opts, etcd.WithKey("other"), etcd.WithRecursive(true), etcd.WithPosition(h.Pos))
		case h.Single:
			opts = append(opts, etcd.WithKey(h.Pos))
		default:
			opts = append(opts, etcd.WithStorePrefix(h.Pos))
		}
		if h.Late && h.Single {
			opts = append(opts, etcd.WithKey(h.Pos+"elsewhere"))
		} else if h.Late {
			opts = append(opts, etcd.WithStorePrefix(h.Pos+"elsewhere"))
		}
		if h.Strip != "" {
			opts = append(opts, etcd.WithStripPrefix(h.Strip))
		}
		if h.Prepend != "" {
			opts = append(opts, etcd.WithPrependPrefix(h.Prepend))
		}
		p := etcd.New(opts...) // no endpoint, so it has no client of its own
		cl := clientv3.NewCtxClient(context.Background())
		cl.KV, cl.Watcher = es, es
		p.Client = cl
		watching := !h.NoWatch && !h.Off && !h.Fail

		others := inCode("store/providers/etcd")
		s := store.New(store.WithWatchEnable(!h.Off))
		closed := false
		defer func() {
			if !closed {
				s.Close()
				es.Close()
			}
		}()
		s.Set("own", "value")
		names := map[string]string{}
		for _, b := range append([][]c32op{h.Init, h.Between}, h.Steps...) {
			for _, o := range b {
				n := consulName(o.K, h.Strip, h.Prepend)
				if k, used := names[n]; used && k != o.K {
					return // two keys get the same name
				}
				names[n] = o.K
			}
		}
		expect := func() map[string]any {
			es.mu.Lock()
			defer es.mu.Unlock()
			r := map[string]any{"own": "value"}
			for k, kv := range es.kvs {
				if h.Single && k != h.Pos || !strings.HasPrefix(k, h.Pos) {
					continue
				}
				n := consulName(k, h.Strip, h.Prepend)
				if h.At != "" {
					n = h.At + "." + n
				}
				r[n] = string(kv.Value)
			}
			return r
		}
		sp := newSpy(p)
		lo := []store.LoadOpt{store.WithProvider(sp)}
		if h.Late {
			lo = append(lo, store.WithPosition(h.Pos))
		}
		if h.At != "" {
			lo = append(lo, store.WithStorePrefix(h.At))
		}
		frozen := expect()
		if h.Fail {
			frozen = map[string]any{"own": "value"}
		}
		_, err := s.Load(bg, lo...)
		if h.Fail != (err != nil) {
			c.Failf("Load: %v, failing service: %v", err, h.Fail)
		}
		got, err := s.GetM("")
		diffMaps(c, "the loaded keys", got, frozen, err)
		deliver := func(evs []*clientv3.Event, b []c32op) {
			for _, r := range []clientv3.WatchResponse{{Events: evs}, {}} { // the 2nd is taken after the 1st is dealt with
				select {
				case es.ch <- r:
				case <-time.After(20 * time.Second):
					c.Failf("the watcher does not take the changes %v", b)
				}
			}
			notes := sp.take(c)
			if len(notes) != len(evs) {
				c.Failf("the changes %v were reported as %v", b, notes)
			}
			for i, ev := range evs {
				n := note{store.OpWrite, consulName(string(ev.Kv.Key), h.Strip, h.Prepend), string(ev.Kv.Value)}
				switch {
				case ev.Type == mvccpb.DELETE:
					n.op, n.val = store.OpRemove, notes[i].val
				case ev.Kv.CreateRevision == ev.Kv.ModRevision:
					n.op = store.OpCreate
				}
				if !eq(notes[i].val, n.val) || notes[i].op != n.op || notes[i].key != n.key {
					c.Failf("of the changes %v, number %d was reported as %v; expected %v", b, i, notes[i], n)
				}
			}
		}
		// a removed key takes the keys below it along
		takesAlong := func(b []c32op, before, want map[string]any) bool {
			for _, o := range b {
				if o.Op == "del" {
					k := consulName(o.K, h.Strip, h.Prepend)
					for _, m := range []map[string]any{before, want} {
						for x := range m {
							if strings.Contains(x, k+".") {
								c.Label(true, "removed a key with others below it")
								return true
							}
						}
					}
				}
			}
			return false
		}
		if watching {
			select {
			case <-es.ready:
			case <-time.After(20 * time.Second):
				c.Failf("the source is not watched")
			}
			deliver(es.missed, h.Between)
			want := expect()
			if takesAlong(h.Between, frozen, want) {
				return
			}
			got, err := s.GetM("")
			diffMaps(c, fmt.Sprintf("after the changes %v between loading and watching", h.Between), got, want, err)
			c.Label(len(h.Between) > 0, "changes before the watch")
		}
		loaded := len(frozen) - 1
		applied := 0
		for _, b := range h.Steps {
			before := expect()
			evs := es.change(b)
			want := expect()
			if !watching {
				want = frozen
			} else {
				deliver(evs, b)
				applied += len(evs)
			}
			if takesAlong(b, before, want) {
				return
			}
			got, err := s.GetM("")
			diffMaps(c, fmt.Sprintf("after the changes %v", b), got, want, err)
		}
		s.Close()
		closed = true
		if watching {
			es.mu.Lock()
			down := es.closed
			es.mu.Unlock()
			if !down {
				c.Failf("closing the store does not close the client")
			}
			if !gone("store/providers/etcd", others, 20*time.Second) {
				c.Failf("the watcher goes on after closing the store")
			}
		} else if len(es.watches) != 0 {
			c.Failf("the source is watched although it should not be")
		}
		es.Close()
		c.NT(loaded > 1 || applied > 0)
		c.Label(loaded > 1, "several keys")
		c.Label(applied > 1, "several changes")
		c.Label(h.Single, "single key")
		c.Label(h.Fail, "failing service")
	})
}

var stackBuf = make([]byte, 1<<20)

// inCode counts the goroutines in the code named.
func inCode(pkg string) (n int) {
	for _, g := range strings.Split(string(stackBuf[:runtime.Stack(stackBuf, true)]), "\n\n") {
		if strings.Contains(g, pkg) {
			n++
		}
	}
	return
}

// gone waits until not more than so many goroutines are in the code named.
func gone(pkg string, allowed int, limit time.Duration) bool {
	for end := time.Now().Add(limit); inCode(pkg) > allowed; {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(100 * time.Microsecond)
	}
	return true
}
