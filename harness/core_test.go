package harness

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

func sprint(v any) string { return fmt.Sprint(v) }

// ---------------------------------------------------------------- C01

func TestC01(t *testing.T) {
	Check(t, "C01", func(t *rapid.T) Hist {
		return genHist(t, HistOpts{
			Ops: []string{"set", "set", "set", "set", "set", "set", "insert", "setex", "handle", "remove", "merge", "update", "setempty"},
			Min: 1, Max: 24, Delims: true, Probes: [2]int{0, 12}, Looks: true, Bulk: true,
		})
	}, func(c *Ctx, h Hist) {
		w := newWorld(c, h.Kind, h.Delim)
		defer w.S.Close()
		for _, op := range h.Ops {
			w.Apply(op)
			w.checkReads(w.S, "", h.Probes)
		}
		w.deepReads(w.S, h.Probes)
		c.NT(w.Splits > 0 && w.Overwrites > 0)
		c.Label(w.Splits > 0, "split")
		c.Label(w.Overwrites > 0, "overwrite")
		c.Label(w.Removed > 0, "remove")
		c.Label(!w.M.prefixFree(), "key-is-also-section")
	})
}

// ---------------------------------------------------------------- C02

func TestC02(t *testing.T) {
	Check(t, "C02", func(t *rapid.T) Hist {
		return genHist(t, HistOpts{
			Ops: []string{"set", "set", "set", "set", "remove", "remove", "removeex"},
			Min: 2, Max: 26, Delims: true, Probes: [2]int{0, 8}, Val: genScalar, Looks: true, Bulk: true,
		})
	}, func(c *Ctx, h Hist) {
		w := newWorld(c, h.Kind, h.Delim)
		defer w.S.Close()
		for _, op := range h.Ops {
			w.Apply(op)
			if op.Op == "remove" || op.Op == "removeex" {
				w.checkReads(w.S, "", append(h.Probes, op.K))
				w.checkEnum(w.S)
				w.checkHas(w.S, "", append(h.Probes, op.K))
			}
		}
		w.checkReads(w.S, "", h.Probes)
		w.checkEnum(w.S)
		w.checkHas(w.S, "", h.Probes)
		c.NT(w.Removed > 0 && len(w.M.M) > 0)
		c.Label(w.Removed > 0, "removed")
		c.Label(w.RemovedBelow > 0, "removed a section")
	})
}

// ---------------------------------------------------------------- C03

func TestC03(t *testing.T) {
	Check(t, "C03", func(t *rapid.T) Hist {
		return genHist(t, HistOpts{
			Ops: []string{"set", "set", "set", "set", "set", "remove", "remove", "removeex", "insert", "merge", "view", "update", "setnode", "setex"},
			Min: 0, Max: 22, Delims: true, Probes: [2]int{1, 16}, Val: genScalar, Looks: true, Bulk: true,
		})
	}, func(c *Ctx, h Hist) {
		w := newWorld(c, h.Kind, h.Delim)
		defer w.S.Close()
		for _, op := range h.Ops {
			w.Apply(op)
		}
		w.checkHas(w.S, "", h.Probes)
		yes, no := 0, 0
		for _, p := range h.Probes {
			if w.M.has(p) {
				yes++
			} else {
				no++
			}
		}
		c.NT(yes > 0 && no > 0)
		c.Label(yes > 0, "probe exists")
		c.Label(no > 0, "probe missing")
		c.Label(len(w.M.M) == 0, "empty store")
	})
}

// ---------------------------------------------------------------- C04

func TestC04(t *testing.T) {
	Check(t, "C04", func(t *rapid.T) Hist {
		return genHist(t, HistOpts{
			Ops: []string{"set", "set", "set", "set", "set", "remove", "insert", "setnode", "merge", "update", "setempty", "setex"},
			Min: 0, Max: 26, Delims: true, Looks: true, Bulk: true,
		})
	}, func(c *Ctx, h Hist) {
		w := newWorld(c, h.Kind, h.Delim)
		defer w.S.Close()
		for _, op := range h.Ops {
			w.Apply(op)
		}
		w.checkEnum(w.S)
		dump := w.S.Dump()
		for k, e := range w.M.M {
			if !strings.Contains(dump, " "+k+" => ") {
				c.Failf("Dump does not show the key %q:\n%s", k, dump)
			}
			if e.Comment != "" && !strings.Contains(dump, " // "+e.Comment) {
				c.Failf("Dump does not show the comment %q of %q:\n%s", e.Comment, k, dump)
			}
			if e.Desc != "" && !strings.Contains(dump, " ~ "+e.Desc) {
				c.Failf("Dump does not show the description %q of %q:\n%s", e.Desc, k, dump)
			}
		}
		for _, op := range h.Ops {
			if k := op.K; k != "" && !w.M.isKey(k) && strings.Contains(dump, " "+k+" => ") {
				c.Failf("Dump shows the key %q which is not there:\n%s", k, dump)
			}
		}
		c.NT(w.Splits > 0 && len(w.M.M) >= 3)
		c.Label(len(w.M.M) == 0, "empty store")
		c.Label(w.Splits > 0, "split")
		c.Label(len(w.M.M) >= 10, "10+ keys")
	})
}
