// Package harness holds the property-based checks of hedzr/store.
//
// Every property is a pair (Gen, Run): Gen draws a JSON-serialisable case
// with rapid, Run drives the real code with it and compares what it
// observes with an oracle. The case that Run sees always went through JSON,
// so a saved case replays exactly what was executed.
package harness

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// violation is what Ctx.Failf panics with.
type violation struct{ msg string }

// Ctx collects what a single case did.
type Ctx struct {
	T      *testing.T
	nt     bool
	labels map[string]bool
}

// Failf reports that the property does not hold for this case.
func (c *Ctx) Failf(format string, a ...any) { panic(violation{fmt.Sprintf(format, a...)}) }

// NT marks the case as non-trivial by the rule of the property.
func (c *Ctx) NT(cond bool) {
	if cond {
		c.nt = true
	}
}

// Label counts the case in a class of the distribution report.
func (c *Ctx) Label(cond bool, l string) {
	if cond {
		c.labels[l] = true
	}
}

type stats struct {
	Property    string            `json:"property"`
	Evaluations int               `json:"evaluations"`
	Labels      map[string]int    `json:"labels"`
	Samples     []json.RawMessage `json:"samples"`
	Hashes      []uint64          `json:"hashes"`
	Failed      bool              `json:"failed"`
	Message     string            `json:"message,omitempty"`
}

// Property is one registered check.
type Property struct {
	ID  string
	run func(t *testing.T)
}

func exec[C any](t *testing.T, run func(*Ctx, C), data []byte) (c *Ctx, err error) {
	var cs C
	if e := json.Unmarshal(data, &cs); e != nil {
		t.Fatalf("HARNESS-ERROR: case does not decode: %v", e)
	}
	c = &Ctx{T: t, labels: map[string]bool{}}
	err = guard(func() { run(c, cs) })
	return
}

// guard turns a reported violation, or a panic of the code under test, into an error.
func guard(fn func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if v, ok := r.(violation); ok {
				err = fmt.Errorf("%s", v.msg)
				return
			}
			if s := fmt.Sprintf("%T", r); strings.HasPrefix(s, "rapid.") || strings.HasPrefix(s, "*rapid.") {
				panic(r)
			}
			st := string(debug.Stack())
			if len(st) > 6000 {
				st = st[:6000]
			}
			err = fmt.Errorf("panic: %v\n%s", r, st)
		}
	}()
	fn()
	return nil
}

// Check drives one property. The environment selects what is done:
//
//	VH_REPLAY=file   run this saved case only (VH_REPEAT times, default 1)
//	VH_OUT=file      write statistics
//	VH_FAIL=file     write the (shrunk) failing case
//	VH_JOURNAL=file  keep the case being executed, for crashes and hangs
func Check[C any](t *testing.T, id string, gen func(*rapid.T) C, run func(*Ctx, C)) {
	debug.SetMaxStack(128 << 20)
	if f := os.Getenv("VH_REPLAY"); f != "" {
		replay(t, id, run, f)
		return
	}

	st := &stats{Property: id, Labels: map[string]int{}}
	seen := map[uint64]bool{}
	var journal *os.File
	if f := os.Getenv("VH_JOURNAL"); f != "" {
		var err error
		if journal, err = os.Create(f); err != nil {
			t.Fatalf("HARNESS-ERROR: %v", err)
		}
		defer journal.Close()
	}
	var failCase []byte
	defer func() {
		if failCase != nil {
			st.Failed = true
			writeFile(t, os.Getenv("VH_FAIL"), failCase)
		}
		for h := range seen {
			st.Hashes = append(st.Hashes, h)
		}
		b, _ := json.Marshal(st)
		writeFile(t, os.Getenv("VH_OUT"), b)
	}()

	rapid.Check(t, func(rt *rapid.T) {
		cs := gen(rt)
		data, err := json.Marshal(cs)
		if err != nil {
			t.Fatalf("HARNESS-ERROR: case does not encode: %v", err)
		}
		if journal != nil {
			_ = journal.Truncate(0)
			_, _ = journal.WriteAt(data, 0)
		}
		c, err := exec(t, run, data)
		if err != nil {
			failCase = envelope(id, data, err)
			st.Message = err.Error()
			rt.Fatalf("%v", err)
		}
		if failCase != nil {
			return // shrinking, don't count
		}
		st.Evaluations++
		for l := range c.labels {
			st.Labels[l]++
		}
		if c.nt {
			h := fnv.New64a()
			_, _ = h.Write(data)
			k := h.Sum64()
			if !seen[k] {
				seen[k] = true
				if len(data) < 1500 && (len(st.Samples) < 2 || (len(st.Samples) < 6 && len(seen)%97 == 0)) {
					st.Samples = append(st.Samples, data)
				}
			}
		}
	})
}

type envl struct {
	Property string          `json:"property"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

func envelope(id string, data []byte, err error) []byte {
	b, _ := json.MarshalIndent(envl{Property: id, Message: err.Error(), Case: data}, "", " ")
	return b
}

func replay[C any](t *testing.T, id string, run func(*Ctx, C), file string) {
	n := 1
	_, _ = fmt.Sscan(os.Getenv("VH_REPEAT"), &n)
	for _, f := range strings.Split(file, ":") {
		b, err := os.ReadFile(f)
		if err != nil {
			t.Fatalf("HARNESS-ERROR: %v", err)
		}
		var e envl
		if err = json.Unmarshal(b, &e); err != nil {
			t.Fatalf("HARNESS-ERROR: %v", err)
		}
		if e.Property != id {
			t.Fatalf("HARNESS-ERROR: %s is a case of %s", f, e.Property)
		}
		for i := 0; i < n; i++ {
			if _, err := exec(t, run, e.Case); err != nil {
				writeFile(t, os.Getenv("VH_FAIL"), []byte(f))
				t.Fatalf("REPLAY-FAILED %s: %v", f, err)
			}
		}
	}
	fmt.Println("REPLAY-OK")
}

func writeFile(t *testing.T, name string, b []byte) {
	if name == "" {
		return
	}
	if err := os.WriteFile(name, b, 0o644); err != nil {
		t.Errorf("HARNESS-ERROR: %v", err)
	}
}

var scratch string

// scratchDir is a directory of this process, below TMPDIR.
func scratchDir() string {
	if scratch == "" {
		d, err := os.MkdirTemp("", "vh-")
		must(err)
		scratch = d
	}
	return scratch
}
