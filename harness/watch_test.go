package harness

import (
	"context"
	"errors"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/hedzr/store"
)

// ---------------------------------------------------------------- C26: watched sources

// watchProvider is a watchable provider the check pulls the strings of.
type watchProvider struct {
	*memProvider
	cb      func(event any, err error)
	watched int
	closed  int
	werr    error
}

func (p *watchProvider) Watch(ctx context.Context, cb func(event any, err error)) error {
	p.watched++
	if p.werr != nil {
		return p.werr
	}
	p.cb = cb
	return nil
}
func (p *watchProvider) Close() { p.closed++ }

type memChange struct {
	op    store.Op
	keys  []string
	vals  []any
	i     int
	prov  store.Provider
	nexts int
}

func (m *memChange) Next() (key string, val any, ok bool) {
	m.nexts++
	if m.i < len(m.keys) {
		key, val, ok = m.keys[m.i], m.vals[m.i], true
		m.i++
	}
	return
}
func (m *memChange) Path() string             { return "" }
func (m *memChange) Op() store.Op             { return m.op }
func (m *memChange) Has(op store.Op) bool     { return m.op&op != 0 }
func (m *memChange) Timestamp() time.Time     { return time.Time{} }
func (m *memChange) Provider() store.Provider { return m.prov }

type c26op struct {
	Op   string   `json:"op"` // create | write | create+write | remove | rename | chmod | none | error | junk | set | unset
	P    int      `json:"p"`  // which source
	Keys []string `json:"keys,omitempty"`
	Vals []Val    `json:"vals,omitempty"`
}

type c26src struct {
	L       load `json:"l"`
	NoWatch bool `json:"nowatch,omitempty"`
	Fail    bool `json:"fail,omitempty"`
	When    int  `json:"when,omitempty"` // loaded before this operation
}

type c26 struct {
	Watch bool     `json:"watch"`
	Srcs  []c26src `json:"srcs"`
	Ops   []c26op  `json:"ops"`
	Text  string   `json:"text"`
}

var opBits = map[string]store.Op{
	"create": store.OpCreate, "write": store.OpWrite, "create+write": store.OpCreate | store.OpWrite, "remove": store.OpRemove,
	"rename": store.OpRename, "chmod": store.OpChmod, "none": store.OpNone,
	"write+chmod": store.OpWrite | store.OpChmod, "create+rename": store.OpCreate | store.OpRename,
	"remove+chmod": store.OpRemove | store.OpChmod, "remove+rename": store.OpRemove | store.OpRename, "rename+chmod": store.OpRename | store.OpChmod,
}

func TestC26(t *testing.T) {
	Check(t, "C26", func(t *rapid.T) c26 {
		g := newKeyGen(t, ".")
		r := c26{Watch: rapid.IntRange(0, 4).Draw(t, "watch") > 0, Text: rapid.SampledFrom([]string{"", "x", "creat", "createe", "MODIFY ", "removed", "re"}).Draw(t, "text")}
		for i := rapid.IntRange(1, 3).Draw(t, "nsrc"); i > 0; i-- {
			s := c26src{L: genLoad(t, g, false), NoWatch: rapid.IntRange(0, 4).Draw(t, "nowatch") == 0, Fail: rapid.IntRange(0, 6).Draw(t, "fail") == 0}
			s.L.How = "read"
			if rapid.Bool().Draw(t, "atroot") {
				s.L.At = ""
			}
			if len(r.Srcs) > 0 && rapid.Bool().Draw(t, "later") {
				s.When = rapid.IntRange(1, 8).Draw(t, "when")
			}
			r.Srcs = append(r.Srcs, s)
		}
		for i := rapid.IntRange(1, 12).Draw(t, "nops"); i > 0; i-- {
			op := c26op{Op: rapid.SampledFrom([]string{"create", "create", "write", "write", "create+write", "remove", "remove", "rename", "chmod", "none",
				"write+chmod", "create+rename", "remove+chmod", "remove+rename", "rename+chmod", "error", "junk", "set", "unset", "closeview", "closecopy"}).Draw(t, "op"),
				P: rapid.IntRange(0, len(r.Srcs)-1).Draw(t, "p")}
			for j := rapid.IntRange(0, 3).Draw(t, "nkeys"); j > 0; j-- {
				k := g.Key(t)
				if rapid.Bool().Draw(t, "old") {
					k = g.Old(t)
				}
				op.Keys = append(op.Keys, k)
				op.Vals = append(op.Vals, genVal(t, "val"))
			}
			r.Ops = append(r.Ops, op)
		}
		return r
	}, func(c *Ctx, h c26) {
		var told, gone []event
		s := store.New(store.WithWatchEnable(h.Watch),
			store.WithOnNewHandlers(func(path string, value any, m bool) {
				told = append(told, event{path: path, val: value})
			}),
			store.WithOnChangeHandlers(func(path string, value, old any, m bool) {
				told = append(told, event{path: path, val: value})
			}),
			store.WithOnDeleteHandlers(func(path string, value any, m bool) { gone = append(gone, event{path: path}) }))
		m := newModel(".")
		ps := make([]*watchProvider, len(h.Srcs))
		watched := 0
		loadSrc := func(i int) bool {
			src := h.Srcs[i]
			if _, ok := src.L.apply(m); !ok {
				return false
			}
			opts, mp := src.L.options()
			p := &watchProvider{memProvider: mp}
			if src.Fail {
				p.werr = errInjected
			}
			ps[i] = p
			opts = append(opts, store.WithProvider(p), store.WithoutWatch(src.NoWatch))
			if wr, err := s.Load(bg, opts...); err != nil || wr == nil {
				c.Failf("Load: %v, %v", wr, err)
			}
			want := 0
			if h.Watch && !src.NoWatch {
				want = 1
			}
			if p.watched != want {
				c.Failf("the source was asked to watch %d times, expected %d", p.watched, want)
			}
			if p.cb != nil {
				watched++
			}
			got, err := s.GetM("")
			diffMaps(c, "after loading", got, m.flat(), err)
			return true
		}
		applied := map[string]int{}
		for n, op := range h.Ops {
			for i := range h.Srcs {
				if h.Srcs[i].When == n && !loadSrc(i) {
					return
				}
			}
			p := ps[op.P]
			at := h.Srcs[op.P].L.At
			told, gone = nil, nil
			switch op.Op {
			case "set":
				for i, k := range op.Keys {
					m.set(k, op.Vals[i].Any())
					s.Set(k, op.Vals[i].Any())
				}
				continue
			case "closeview", "closecopy": // they own no watcher
				v := s.Dup()
				if op.Op == "closeview" {
					v = s.WithPrefix(op.Keys...)
				}
				v.Close()
				for i, p := range ps {
					if p != nil && p.closed != 0 {
						c.Failf("%s: source %d of the store was closed", op.Op, i)
					}
				}
				continue
			case "unset":
				for _, k := range op.Keys {
					m.remove(k)
					s.Remove(k)
				}
				continue
			}
			if p == nil || p.cb == nil {
				continue
			}
			switch op.Op {
			case "error":
				p.cb(nil, errors.New("lost"))
			case "junk":
				p.cb("something", nil)
				p.cb(nil, nil)
			default:
				ch := &memChange{op: opBits[op.Op], keys: op.Keys, prov: p}
				for _, v := range op.Vals {
					ch.vals = append(ch.vals, v.Any())
				}
				var wantTold, wantGone []event
				for i, k := range op.Keys {
					full := m.join(at, k)
					switch op.Op {
					case "create", "write", "create+write", "write+chmod", "create+rename":
						m.set(full, op.Vals[i].Any())
						wantTold = append(wantTold, event{path: full, val: op.Vals[i].Any()})
					case "remove", "remove+chmod", "remove+rename":
						if m.remove(full) {
							wantGone = append(wantGone, event{path: full})
						}
					}
				}
				p.cb(ch, nil)
				applied[op.Op] += len(op.Keys)
				if len(told) != len(wantTold) || len(gone) != len(wantGone) {
					c.Failf("external %s of %q at %q: the handlers were told %v and %v, expected %v and %v", op.Op, op.Keys, at, told, gone, wantTold, wantGone)
				}
				if at == "" { // and of what
					if !eq(told, wantTold) {
						c.Failf("external %s of %q: the handlers were told %v, expected %v", op.Op, op.Keys, told, wantTold)
					}
					if !eq(gone, wantGone) {
						c.Failf("external %s of %q: the delete handlers were told %v, expected %v", op.Op, op.Keys, gone, wantGone)
					}
				}
			}
			got, err := s.GetM("")
			diffMaps(c, "after the external "+op.Op+" of "+strings.Join(op.Keys, ", "), got, m.flat(), err)
		}
		// closing the store closes what watches
		for _, p := range ps {
			if p != nil && p.closed != 0 {
				c.Failf("a watcher was closed before the store")
			}
		}
		s.Close()
		for i, p := range ps {
			if p == nil {
				continue
			}
			want := 0
			if p.cb != nil {
				want = 1
			}
			if p.closed != want {
				c.Failf("source %d (watching %v) was closed %d times", i, p.cb != nil, p.closed)
			}
		}
		// operations have names
		for name, op := range opBits {
			if strings.Contains(name, "+") {
				continue
			}
			text, err := op.MarshalText()
			if err != nil {
				c.Failf("%s: MarshalText: %v", name, err)
			}
			for _, s := range []string{string(text), strings.ToLower(string(text)), strings.ToUpper(string(text))} {
				back := store.Op(99)
				if err := back.UnmarshalText([]byte(s)); err != nil || back != op {
					c.Failf("%s: %q reads back as %d, %v", name, s, back, err)
				}
			}
		}
		bad := store.Op(99)
		if err := bad.UnmarshalText([]byte(h.Text)); err == nil || bad != 99 {
			c.Failf("%q reads as the operation %d, %v", h.Text, bad, err)
		}
		n := 0
		for k, x := range applied {
			n += x
			c.Label(x > 0, k)
		}
		c.NT(n > 1)
		c.Label(watched > 1, "several watchers")
	})
}
