package harness

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/hashicorp/consul/api"
	"go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"

	"github.com/hedzr/store"
	cjson "github.com/hedzr/store/codecs/json"
	"github.com/hedzr/store/providers/consul"
	"github.com/hedzr/store/providers/etcd"
	pfile "github.com/hedzr/store/providers/file"
)

// Scenarios of the defects listed in KNOWN_FINDINGS.txt. Each prints whether
// the defect is there.

// A file loaded with watching on is rewritten.
func TestFinding_file_watch(t *testing.T) {
	dir := t.TempDir()
	f := filepath.Join(dir, "conf.json")
	put := func(n int) {
		b, _ := json.Marshal(map[string]any{"app": map[string]any{"n": n}})
		if err := os.WriteFile(f, b, 0o644); err != nil {
			panic("HARNESS-ERROR: " + err.Error())
		}
	}
	put(1)
	s := store.New(store.WithWatchEnable(true))
	defer s.Close()
	if _, err := s.Load(bg, store.WithCodec(cjson.New()), store.WithProvider(pfile.New(f, pfile.WithWatchEnabled(true)))); err != nil {
		panic("HARNESS-ERROR: " + err.Error())
	}
	if got := fmt.Sprint(s.MustGet("app.n")); got != "1" {
		fmt.Println("FINDING-OTHER app.n is 1, the store holds", got)
		return
	}
	for i := 0; i < 8; i++ { // the events may be buffered
		put(2)
		time.Sleep(100 * time.Millisecond)
		if fmt.Sprint(s.MustGet("app.n")) == "2" {
			fmt.Println("FINDING-ABSENT")
			return
		}
	}
	if got := fmt.Sprint(s.MustGet("app.n")); got != "1" {
		fmt.Println("FINDING-OTHER app.n was 1 and then 2, the store holds", got)
		return
	}
	fmt.Println("FINDING-PRESENT the store still holds 1")
}

// Of two entries, one below the other, the upper one is deleted in Consul.
func TestFinding_consul_remove_parent(t *testing.T) {
	kv := newKV()
	kv.change(func(i uint64) { kv.put(i, "app/a", "1") }, func(i uint64) { kv.put(i, "app/a/x", "2") })
	srv := httptest.NewServer(kv)
	defer srv.Close()
	cfg := &api.Config{Address: strings.TrimPrefix(srv.URL, "http://")}
	s := store.New(store.WithWatchEnable(true))
	defer s.Close()
	if _, err := s.Load(bg, store.WithProvider(consul.New(consul.WithConsulConfig(cfg), consul.WithPosition("app/"), consul.WithDelimiter("."), consul.WithRecursive(true), consul.WithWatchEnabled(true)))); err != nil {
		panic("HARNESS-ERROR: " + err.Error())
	}
	removedParent(s, func() bool {
		kv.change(func(uint64) { delete(kv.pairs, "app/a") })
		kv.mu.Lock()
		at := kv.index
		kv.mu.Unlock()
		for {
			select {
			case i := <-kv.polls:
				if i >= at {
					return true
				}
			case <-time.After(30 * time.Second):
				return false
			}
		}
	})
}

// Of two entries, one below the other, the upper one is deleted in etcd.
func TestFinding_etcd_remove_parent(t *testing.T) {
	es := &etcdService{kvs: map[string]*mvccpb.KeyValue{}, rev: 3, ch: make(chan clientv3.WatchResponse), ready: make(chan struct{})}
	es.change([]c32op{{Op: "put", K: "app/a", V: "1"}, {Op: "put", K: "app/a/x", V: "2"}})
	p := etcd.New(etcd.WithStorePrefix("app/"), etcd.WithDelimiter("."), etcd.WithWatchEnabled(true), etcd.WithDialTimeout(time.Minute))
	cl := clientv3.NewCtxClient(context.Background())
	cl.KV, cl.Watcher = es, es
	p.Client = cl
	s := store.New(store.WithWatchEnable(true))
	defer s.Close()
	if _, err := s.Load(bg, store.WithProvider(p)); err != nil {
		panic("HARNESS-ERROR: " + err.Error())
	}
	<-es.ready
	removedParent(s, func() bool {
		// the second, empty response is taken when the first was dealt with
		for _, evs := range [][]*clientv3.Event{es.change([]c32op{{Op: "del", K: "app/a"}}), nil} {
			select {
			case es.ch <- clientv3.WatchResponse{Events: evs}:
			case <-time.After(30 * time.Second):
				return false
			}
		}
		return true
	})
}

func removedParent(s store.Store, del func() bool) {
	if got := fmt.Sprintf("%v %v", s.MustGet("app.a"), s.MustGet("app.a.x")); got != "1 2" {
		fmt.Println("FINDING-OTHER loaded app/a=1 and app/a/x=2, the store holds", got)
		return
	}
	if !del() {
		fmt.Println("FINDING-OTHER the watcher does not take the removal")
		return
	}
	switch got := fmt.Sprintf("%v %v", s.MustGet("app.a"), s.MustGet("app.a.x")); got {
	case "<nil> 2":
		fmt.Println("FINDING-ABSENT")
	case "<nil> <nil>":
		fmt.Println("FINDING-PRESENT the key below the removed one is gone")
	default:
		fmt.Println("FINDING-OTHER app/a=1 and app/a/x=2, app/a is removed, the store holds", got)
	}
}

// A section expires while a key is set next to it (under the race detector).
func TestFinding_section_expiry(t *testing.T) {
	lost := ""
	ok := t.Run("case", func(t *testing.T) {
		for i := 0; i < 200 && lost == ""; i++ {
			synctest.Test(t, func(*testing.T) {
				s := store.New()
				defer s.Close()
				s.Set("app.a.x", 1)
				s.Set("app.a.y", 2)
				s.Set("app.b", 3)
				if s.SetTTL("app.a", time.Second, nil) != 0 {
					panic("HARNESS-ERROR: SetTTL")
				}
				time.Sleep(time.Second) // and here it expires
				s.Set("app.c", 4)
				synctest.Wait()
				if fmt.Sprint(s.MustGet("app.b"), s.MustGet("app.c")) != "3 4" {
					lost = fmt.Sprint("app.b and app.c are ", s.MustGet("app.b"), s.MustGet("app.c"))
				}
				if s.Has("app.a") {
					lost = "app.a is still there"
				}
			})
		}
	})
	switch {
	case lost != "":
		fmt.Println("FINDING-PRESENT", lost)
	case !ok:
		fmt.Println("FINDING-PRESENT data race")
	default:
		fmt.Println("FINDING-ABSENT")
	}
}
