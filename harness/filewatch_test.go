package harness

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"errors"

	"pgregory.net/rapid"

	"github.com/hedzr/store"
	cjson "github.com/hedzr/store/codecs/json"
	"github.com/hedzr/store/providers/file"
)

// ---------------------------------------------------------------- C38: watching a file

type c38 struct {
	Name  string   `json:"name"`            // of the file
	Rel   bool     `json:"rel,omitempty"`   // named relative to the working directory
	Bare  bool     `json:"bare,omitempty"`  // just its name, in the working directory
	Dot   bool     `json:"dot,omitempty"`   // with a "." in the path
	Link  bool     `json:"link,omitempty"`  // it is a symbolic link
	Store bool     `json:"store,omitempty"` // watched by a store, not directly
	Plain bool     `json:"plain,omitempty"` // nothing else happens in the folder between the changes
	Again bool     `json:"again,omitempty"` // Watch is called a second time
	Steps []string `json:"steps"`
	End   string   `json:"end"` // close | cancel | both | twice
}

func inotifies() (n int) {
	es, err := os.ReadDir("/proc/self/fd")
	must(err)
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.Contains(l, "inotify") {
			n++
		}
	}
	return
}

func TestC38(t *testing.T) {
	Check(t, "C38", func(t *rapid.T) c38 {
		r := c38{Name: rapid.SampledFrom([]string{"conf.json", "c", "日本.json", "a b.json", "conf.json.bak"}).Draw(t, "name")}
		r.Rel, r.Dot = rapid.IntRange(0, 3).Draw(t, "rel") == 0, rapid.IntRange(0, 5).Draw(t, "dot") == 0
		r.Bare = rapid.IntRange(0, 4).Draw(t, "bare") == 0
		r.Link = rapid.IntRange(0, 3).Draw(t, "link") == 0
		r.Store = rapid.IntRange(0, 3).Draw(t, "store") == 0
		r.Plain, r.Again = rapid.IntRange(0, 4).Draw(t, "plain") == 0, rapid.IntRange(0, 4).Draw(t, "again") == 0
		kinds := []string{"replace", "replace", "replace", "write", "other", "other", "chmod", "otherrm", "otherdir"}
		for i := rapid.IntRange(0, 5).Draw(t, "nsteps"); i > 0; i-- {
			r.Steps = append(r.Steps, rapid.SampledFrom(kinds).Draw(t, "step"))
		}
		switch rapid.IntRange(0, 5).Draw(t, "last") {
		case 0:
			r.Steps = append(r.Steps, "remove")
		case 1:
			r.Steps = append(r.Steps, "moveaway")
		}
		r.End = rapid.SampledFrom([]string{"close", "close", "cancel", "both", "twice"}).Draw(t, "end")
		return r
	}, func(c *Ctx, h c38) {
		dir, err := os.MkdirTemp(scratchDir(), "c38-")
		must(err)
		defer os.RemoveAll(dir)
		n := 0
		text := func() []byte { n++; return []byte(fmt.Sprintf(`{"app":{"n":%d,"m":%d}}`, n, n)) }
		f := filepath.Join(dir, h.Name)
		if h.Link {
			must(os.WriteFile(filepath.Join(dir, "real0"), text(), 0o644))
			must(os.Symlink(filepath.Join(dir, "real0"), f))
		} else {
			must(os.WriteFile(f, text(), 0o644))
		}
		must(os.WriteFile(filepath.Join(dir, "other.json"), []byte("1"), 0o644))
		path := f
		if h.Rel {
			wd, err := os.Getwd()
			must(err)
			path, err = filepath.Rel(wd, f)
			must(err)
		}
		if h.Bare {
			wd, err := os.Getwd()
			must(err)
			must(os.Chdir(dir))
			defer func() { must(os.Chdir(wd)) }()
			path = h.Name
		}
		if h.Dot {
			path = filepath.Dir(path) + "/./" + filepath.Base(path)
		}

		fds, gos, gos2 := inotifies(), inCode("store/providers/file"), inCode("fsnotify")
		ctx, cancel := context.WithCancel(bg)
		defer cancel()
		p := file.New(path, file.WithWatchEnabled(true), file.WithCodec(cjson.New()))
		var mu sync.Mutex
		calls, errs := 0, 0
		var last error
		var closer interface{ Close() } = p
		if h.Store {
			s := store.New(store.WithWatchEnable(true))
			closer = s
			if _, err := s.Load(ctx, store.WithProvider(p)); err != nil {
				c.Failf("Load: %v", err)
			}
		} else if err := p.Watch(ctx, func(ev any, err error) {
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				errs++
				last = err
			} else {
				calls++
			}
			if err == nil && ev == nil {
				last = errors.New("no event")
			}
		}); err != nil {
			if errors.Is(err, syscall.EMFILE) {
				return // no watcher to be had from the system
			}
			c.Failf("Watch(%q): %v", path, err)
		}
		defer closer.Close()
		if h.Again && !h.Store { // it is watched already
			_ = p.Watch(ctx, func(any, error) {})
		}
		count := func() (int, int) { mu.Lock(); defer mu.Unlock(); return calls, errs }
		until := func(d time.Duration, cond func(calls, errs int) bool) bool {
			for end := time.Now().Add(d); ; time.Sleep(200 * time.Microsecond) {
				if cond(count()) {
					return true
				}
				if time.Now().After(end) {
					return false
				}
			}
		}
		min, max, ended := 0, 0, false
		do := func(i int, st string) (change int) {
			switch st {
			case "replace":
				tmp := filepath.Join(dir, "tmp")
				if h.Link { // the link gets another target
					n++
					real := filepath.Join(dir, fmt.Sprint("real", n))
					must(os.WriteFile(real, text(), 0o644))
					must(os.Symlink(real, tmp))
				} else {
					must(os.WriteFile(tmp, text(), 0o644))
				}
				must(os.Rename(tmp, f))
				return 1
			case "write":
				if h.Link { // of the target: it need not be noticed
					return 0
				}
				must(os.WriteFile(f, text(), 0o644))
				return 2 // emptied and written
			case "other":
				must(os.WriteFile(filepath.Join(dir, "other.json"), text(), 0o644))
				for _, nb := range neighbours(h.Name) {
					must(os.WriteFile(filepath.Join(dir, nb), text(), 0o644))
				}
			case "otherrm":
				for _, nb := range neighbours(h.Name) {
					_ = os.Remove(filepath.Join(dir, nb))
				}
			case "otherdir":
				_ = os.Mkdir(filepath.Join(dir, "sub"), 0o755)
				must(os.WriteFile(filepath.Join(dir, "sub", h.Name), text(), 0o644))
			case "chmod":
				must(os.Chmod(f, os.FileMode(0o600+i)))
			}
			return 0
		}
		for i, st := range h.Steps {
			if st == "remove" || st == "moveaway" {
				if st == "remove" {
					must(os.Remove(f))
				} else {
					must(os.Rename(f, filepath.Join(dir, "moved")))
				}
				ended = true
				if !h.Store && !until(20*time.Second, func(_, e int) bool { return e > 0 }) {
					c.Failf("%s of %q was not reported as an error", st, path)
				}
				break
			}
			before, _ := count()
			if !h.Plain {
				must(os.WriteFile(filepath.Join(dir, "between"), text(), 0o644))
				k := do(i, st)
				if k > 0 {
					min, max = min+1, max+k
				}
				if k > 0 && !h.Store && !until(20*time.Second, func(n, e int) bool { return n > before || e > 0 }) {
					c.Failf("step %d: %s of %q was not reported", i, st, path)
				}
				continue
			}
			// the same change again within some milliseconds may be taken for the same
			for try := 0; ; try++ {
				if try > 0 { // another one before it, so that there is a change some time ago
					max += do(i, st)
					until(300*time.Millisecond, func(n, e int) bool { return n > before || e > 0 })
				}
				time.Sleep(30 * time.Millisecond)
				before, _ = count()
				k := do(i, st)
				if k > 0 && try == 0 {
					min++
				}
				max += k
				if k == 0 || h.Store || until(300*time.Millisecond, func(n, e int) bool { return n > before || e > 0 }) {
					break
				}
				if try == 3 {
					c.Failf("step %d: %s of %q was not reported", i, st, path)
				}
			}
		}
		time.Sleep(2 * time.Millisecond)
		switch h.End {
		case "close":
			closer.Close()
		case "twice":
			closer.Close()
			closer.Close()
		case "cancel":
			cancel()
		case "both":
			cancel()
			closer.Close()
		}
		if !gone("store/providers/file", gos, 20*time.Second) {
			c.Failf("a goroutine of the watcher of %q is left after %s", path, h.End)
		}
		if !gone("fsnotify", gos2, 20*time.Second) {
			c.Failf("the system watcher of %q is still running after %s", path, h.End)
		}
		for end := time.Now().Add(20 * time.Second); inotifies() > fds; time.Sleep(200 * time.Microsecond) {
			if time.Now().After(end) {
				c.Failf("the system watcher of %q is still open after %s", path, h.End)
			}
		}
		got, bad := count()
		if !h.Store {
			if ended && bad != 1 || !ended && bad != 0 || last != nil && !ended {
				c.Failf("%d errors were reported (the last is %v), the file is gone: %v", bad, last, ended)
			}
			if got < min || got > max {
				c.Failf("%d changes of %q were reported, there were %d to %d", got, path, min, max)
			}
		}
		// nothing is reported any more
		if !ended {
			must(os.WriteFile(f, text(), 0o644))
			time.Sleep(time.Millisecond)
			if n, e := count(); n != got || e != bad {
				c.Failf("a change of %q was reported after %s", path, h.End)
			}
		}
		c.NT(min > 0)
		c.Label(min > 0, "changed")
		c.Label(max == min && min > 0 && len(h.Steps) > min, "changed among changes of others")
		c.Label(ended, "gone")
		c.Label(h.Link, "link")
		c.Label(h.Plain && min > 1, "nothing else between the changes")
		c.Label(h.Bare, "bare name")
		c.Label(h.Rel, "relative name")
		c.Label(h.Store, "watched by a store")
		c.Label(h.End == "cancel", "context ended")
	})
}

// neighbours lists files which are easily taken for the watched one.
func neighbours(name string) (r []string) {
	ext := filepath.Ext(name)
	stem := strings.TrimSuffix(name, ext)
	for _, nb := range []string{
		name + ".tmp", name + "~", name + ".bak", name + ".swp", "." + name + ".swp", "." + name, "#" + name + "#", "x" + name, name + "x", name + ".new", name + ".orig",
		name[1:], name[:len(name)-1], stem, stem + ".yaml", stem + ".local" + ext, strings.ToUpper(name), strings.ToLower(name), "4913", "..data",
	} {
		if nb != name && nb != "" && nb != "." && nb != ".." && !slices.Contains(r, nb) {
			r = append(r, nb)
		}
	}
	return
}
