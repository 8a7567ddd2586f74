package harness

import (
	"context"
	"fmt"
	"sync"
	"time"

	"github.com/hedzr/store"
)

// spy stands between a watched provider and the store, and notes the
// changes on their way.
type spy struct {
	store.Provider
	w store.Watchable

	mu    sync.Mutex
	start time.Time
	notes []note
	bad   string
}

type note struct {
	op  store.Op
	key string
	val any
}

func (n note) String() string { return fmt.Sprintf("(%d %q %v)", n.op, n.key, n.val) }

func newSpy(p interface {
	store.Provider
	store.Watchable
}) *spy {
	return &spy{Provider: p, w: p, start: time.Now()}
}

func (s *spy) Close() { s.w.Close() }
func (s *spy) Watch(ctx context.Context, cb func(event any, err error)) error {
	return s.w.Watch(ctx, func(event any, err error) {
		if ch, ok := event.(store.Change); ok {
			if p := ch.Provider(); p != s.Provider {
				s.mu.Lock()
				s.bad = fmt.Sprintf("a change gives the provider %v", p)
				s.mu.Unlock()
			}
			if ts := ch.Timestamp(); ts.Before(s.start) || ts.After(time.Now()) {
				s.mu.Lock()
				s.bad = fmt.Sprintf("a change gives the time %v, between %v and %v", ts, s.start, time.Now())
				s.mu.Unlock()
			}
			event = &spied{ch, s}
		}
		cb(event, err)
	})
}

// take returns the changes noted since it was asked for them.
func (s *spy) take(c *Ctx) (notes []note) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.bad != "" {
		c.Failf("%s", s.bad)
	}
	notes, s.notes = s.notes, nil
	return
}

type spied struct {
	store.Change
	s *spy
}

func (n *spied) Next() (key string, val any, ok bool) {
	if key, val, ok = n.Change.Next(); ok {
		var op store.Op
		for _, o := range []store.Op{store.OpCreate, store.OpWrite, store.OpRemove, store.OpRename, store.OpChmod} {
			if n.Change.Has(o) {
				op |= o
			}
		}
		n.s.mu.Lock()
		defer n.s.mu.Unlock()
		if op != n.Change.Op() {
			n.s.bad = fmt.Sprintf("a change of %q has the operations %d, but tells %d", key, op, n.Change.Op())
		}
		n.s.notes = append(n.s.notes, note{op, key, val})
	}
	return
}
