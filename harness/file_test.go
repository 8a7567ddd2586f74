package harness

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"
	"testing/fstest"

	"pgregory.net/rapid"

	"github.com/hedzr/store"
	"github.com/hedzr/store/providers/file"
	pfs "github.com/hedzr/store/providers/fs"
	"github.com/hedzr/store/radix"
)

// ---------------------------------------------------------------- C24: files

// docText writes a document in a format, without the codec under test.
func docText(format string, doc map[string]any) string {
	if format != "toml" {
		b, err := json.Marshal(doc)
		must(err)
		return string(b)
	}
	var sb strings.Builder
	var inline func(v any) string
	inline = func(v any) string {
		switch z := v.(type) {
		case map[string]any:
			var r []string
			for _, k := range sortedKeys(z) {
				r = append(r, strconv.Quote(k)+" = "+inline(z[k]))
			}
			return "{" + strings.Join(r, ", ") + "}"
		case []any:
			var r []string
			for _, x := range z {
				r = append(r, inline(x))
			}
			return "[" + strings.Join(r, ", ") + "]"
		case string:
			b, err := json.Marshal(z)
			must(err)
			return string(b)
		case float64:
			s := strconv.FormatFloat(z, 'f', -1, 64)
			if !strings.Contains(s, ".") {
				s += ".0"
			}
			return s
		}
		return fmt.Sprint(v)
	}
	var table func(at string, m map[string]any)
	table = func(at string, m map[string]any) {
		for _, k := range sortedKeys(m) {
			q := at + strconv.Quote(k)
			if sub, ok := m[k].(map[string]any); ok && len(sub) > 0 {
				table(q+".", sub)
			} else {
				sb.WriteString(q + " = " + inline(m[k]) + "\n")
			}
		}
	}
	table("", doc)
	return sb.String()
}

type c24edit struct {
	K   string `json:"k"`
	X   *Val   `json:"x,omitempty"` // nil: remove
	Out bool   `json:"out,omitempty"`
}

type c24 struct {
	Format string    `json:"format"`
	Other  string    `json:"other"` // the format to convert to
	Doc    Val       `json:"doc"`
	At     string    `json:"at,omitempty"`
	Via    string    `json:"via"` // file | fs
	Write  bool      `json:"write"`
	OnProv bool      `json:"onprov"` // the codec is set on the provider
	Pre    []c24edit `json:"pre,omitempty"`
	Edits  []c24edit `json:"edits"`
	Rounds int       `json:"rounds"`
	Link   bool      `json:"link,omitempty"`  // the file is a symbolic link to the real one
	Rel    bool      `json:"rel,omitempty"`   // it is named relative to the working directory
	Mode   int       `json:"mode,omitempty"`  // its permissions, if not 644
	Piece  int       `json:"piece,omitempty"` // the file system reads this many bytes at a time
}

// pieceFS returns its files piece by piece.
type pieceFS struct {
	fs.FS
	n int
}

type pieceFile struct {
	fs.File
	n int
}

func (p pieceFS) Open(name string) (fs.File, error) {
	f, err := p.FS.Open(name)
	if err != nil {
		return nil, err
	}
	return pieceFile{f, p.n}, nil
}

func (p pieceFile) Read(b []byte) (int, error) {
	if len(b) > p.n {
		b = b[:p.n]
	}
	return p.File.Read(b)
}

// the formats that can say all of the documents drawn here
var fileFormats = []string{"json", "yaml", "toml", "hjson"}

func TestC24(t *testing.T) {
	Check(t, "C24", func(t *rapid.T) c24 {
		r := c24{Format: rapid.SampledFrom(fileFormats).Draw(t, "format"), Other: rapid.SampledFrom(fileFormats).Draw(t, "other")}
		r.Doc = genCodecDoc(t, "toml", 3)
		if rapid.Bool().Draw(t, "at?") {
			r.At = rapid.SampledFrom([]string{"app", "app.conf", "a", "x.y.z"}).Draw(t, "at")
		}
		r.Via = rapid.SampledFrom([]string{"file", "file", "fs"}).Draw(t, "via")
		r.Write = rapid.IntRange(0, 2).Draw(t, "write") > 0
		r.OnProv = rapid.Bool().Draw(t, "onprov")
		if r.Via == "fs" {
			r.Piece = rapid.SampledFrom([]int{0, 1, 7, 64}).Draw(t, "piece")
		} else {
			r.Link, r.Rel = rapid.IntRange(0, 3).Draw(t, "link") == 0, rapid.IntRange(0, 3).Draw(t, "rel") == 0
			r.Mode = rapid.SampledFrom([]int{0, 0, 0o600, 0o640, 0o664}).Draw(t, "mode")
		}
		var paths []string
		flat, _ := flatSource("", ".", r.Doc.Any().(map[string]any), false)
		paths = append(paths, sortedKeys(flat)...)
		edit := func() (e c24edit) {
			e.K = rapid.SampledFrom([]string{"a", "b.c", "name", "app.name", "new.key", "x.y.q", "k1.k2.k3"}).Draw(t, "k")
			if len(paths) > 0 && rapid.Bool().Draw(t, "old") {
				e.K = rapid.SampledFrom(paths).Draw(t, "oldk")
			}
			e.Out = rapid.IntRange(0, 4).Draw(t, "out") == 0
			if rapid.IntRange(0, 4).Draw(t, "rm") > 0 {
				v := genCodecVal(t, "toml", 1)
				e.X = &v
			}
			return
		}
		for i := rapid.IntRange(0, 2).Draw(t, "npre"); i > 0; i-- {
			r.Pre = append(r.Pre, edit())
		}
		r.Rounds = rapid.IntRange(1, 2).Draw(t, "rounds")
		for i := rapid.IntRange(0, 5).Draw(t, "nedits"); i > 0; i-- {
			r.Edits = append(r.Edits, edit())
		}
		return r
	}, func(c *Ctx, h c24) {
		doc := h.Doc.Any().(map[string]any)
		if len(doc) == 0 {
			return
		}
		dir, err := os.MkdirTemp(scratchDir(), "c24-")
		must(err)
		defer os.RemoveAll(dir)
		name := filepath.Join(dir, "conf."+h.Format)
		text := docText(h.Format, doc)
		real, mode := name, fs.FileMode(0o644)
		if h.Link {
			rd, err := os.MkdirTemp(scratchDir(), "c24-")
			must(err)
			defer os.RemoveAll(rd)
			real = filepath.Join(rd, "real")
			must(os.Symlink(real, name))
		}
		must(os.WriteFile(real, []byte(text), mode))
		if h.Mode != 0 {
			mode = fs.FileMode(h.Mode)
		}
		must(os.Chmod(real, mode)) // whatever the umask is
		if h.Rel {
			wd, err := os.Getwd()
			must(err)
			name, err = filepath.Rel(wd, name)
			must(err)
		}
		must(os.WriteFile(filepath.Join(dir, "other"), []byte("other"), 0o644))
		mapfs := fstest.MapFS{"d/conf": &fstest.MapFile{Data: []byte(text)}, "conf": &fstest.MapFile{Data: []byte("{")}}

		s := store.New()
		defer s.Close()
		m := newModel(".")
		edit := func(e c24edit) {
			k := e.K
			if !e.Out {
				k = m.join(h.At, k)
			}
			if e.X == nil {
				if m.remove(k) != s.Remove(k) {
					c.Failf("Remove(%q)", k)
				}
				return
			}
			if m.M[k] == nil && m.clashes(k) {
				return
			}
			m.set(k, e.X.Any())
			m.M[k].Mod = true
			s.Set(k, e.X.Any())
		}
		for _, e := range h.Pre {
			edit(e)
		}
		flat, clash := flatSource(h.At, ".", doc, false)
		if clash {
			return
		}
		loadOpts := func(name string, missing bool) (opts []store.LoadOpt) {
			cdc := newCodec(h.Format)
			switch {
			case h.Via == "fs":
				p := "d/conf"
				if missing {
					p = "d/confx"
				}
				var fsys fs.FS = mapfs
				if h.Piece > 0 {
					fsys = pieceFS{mapfs, h.Piece}
				}
				fp := pfs.New(fsys, p)
				if h.OnProv {
					fp = pfs.New(fsys, p, pfs.WithCodec(cdc))
				}
				opts = append(opts, store.WithProvider(fp))
			default:
				if missing {
					name += "x"
				}
				fo := []file.Opt{file.WithWriteBackEnabled(h.Write)}
				if h.OnProv {
					fo = append(fo, file.WithCodec(cdc))
				}
				opts = append(opts, store.WithProvider(file.New(name, fo...)))
			}
			if !h.OnProv {
				opts = append(opts, store.WithCodec(cdc))
			}
			if h.At != "" {
				opts = append(opts, store.WithStorePrefix(h.At))
			}
			return
		}
		content := func() (data []byte) {
			var err error
			if h.Via == "fs" {
				return mapfs["d/conf"].Data
			}
			if fi, err := os.Lstat(name); err != nil || (fi.Mode()&fs.ModeSymlink != 0) != h.Link {
				c.Failf("the file or link became another thing: %v, %v", fi, err)
			}
			if fi, err := os.Lstat(real); err != nil || fi.Mode() != mode {
				c.Failf("the permissions of the file changed: %v, %v", fi, err)
			}
			if data, err = os.ReadFile(name); err != nil {
				c.Failf("the file is gone: %v", err)
			}
			return
		}
		same := func(what string) {
			got, err := s.GetM("")
			diffMaps(c, what, looseNums(got).(map[string]any), looseNums(m.flat()).(map[string]any), err)
		}
		// a missing file is an error, and changes nothing
		if _, err := s.Load(bg, loadOpts(name, true)...); err == nil || !errors.Is(err, fs.ErrNotExist) {
			c.Failf("loading a missing file: %v", err)
		}
		same("the store after failing to load a missing file")
		if es, _ := os.ReadDir(dir); len(es) != 2 {
			c.Failf("loading a missing file left %d files", len(es))
		}

		for k := range flat {
			if m.M[k] == nil && m.clashes(k) {
				return
			}
			m.set(k, nil)
		}
		for k, v := range flat {
			m.set(k, v)
		}
		var ldr *store.Loader
		wr, err := s.Load(bg, append(loadOpts(name, false), store.WithLoaderCopy(&ldr))...)
		if err != nil || wr == nil {
			c.Failf("loading the %s file with %q: %v", h.Format, text, err)
		}
		same("the store after loading the " + h.Format + " file")
		if string(content()) != text {
			c.Failf("loading changed the file to %q", content())
		}

		saved := 0
		for r := 0; r < h.Rounds; r++ {
			for i, e := range h.Edits {
				if i%h.Rounds == r {
					edit(e)
				}
			}
			want := map[string]any{}
			for k, e := range m.M {
				if e.Mod && (h.At == "" || m.under(h.At, k)) {
					want[strings.TrimPrefix(k, m.join(h.At, "x")[:len(m.join(h.At, "x"))-1])] = e.Val
				}
			}
			before := content()
			err := wr.Save(bg)
			switch {
			case len(want) == 0:
				if err != nil || !bytes.Equal(content(), before) {
					c.Failf("Save with nothing to save: %v, the file is %q", err, content())
				}
			case h.Via == "fs":
				if err == nil || !bytes.Equal(content(), before) {
					c.Failf("Save into a read-only file system: %v, the file is %q", err, content())
				}
			case !h.Write:
				if !errors.Is(err, store.ErrWritableDisabled) || !bytes.Equal(content(), before) {
					c.Failf("Save without write-back: %v, the file is %q", err, content())
				}
			default:
				if err != nil {
					c.Failf("Save failed: %v", err)
				}
				saved++
				back, err := newCodec(h.Format).Unmarshal(content())
				if err != nil {
					c.Failf("the saved file %q does not decode: %v", content(), err)
				}
				diffMaps(c, "the saved document", looseNums(back).(map[string]any), looseNums(nest(want, ".")).(map[string]any), nil)
				// another process sees the same keys
				s2 := store.New()
				if _, err := s2.Load(bg, loadOpts(name, false)...); err != nil {
					c.Failf("the saved file %q does not load: %v", content(), err)
				}
				flat2, _ := flatSource(h.At, ".", nest(want, "."), false)
				got, err := s2.GetM("")
				diffMaps(c, "the saved and loaded keys", looseNums(got).(map[string]any), looseNums(flat2).(map[string]any), err)
				s2.Close()
			}
			same("the store after saving")
		}
		// conversion into another file and format
		all := map[string]any{}
		for k, e := range m.M {
			if h.At == "" || m.under(h.At, k) {
				all[k] = e.Val
			}
		}
		if len(all) > 0 {
			to := filepath.Join(dir, "export")
			src := content()
			if err := ldr.SaveAs(bg, to, store.WithSaveAsProvider(file.New(to, file.WithWriteBackEnabled(true))), store.WithSaveAsCodec(newCodec(h.Other))); err != nil {
				c.Failf("SaveAs: %v", err)
			}
			if !bytes.Equal(content(), src) {
				c.Failf("SaveAs changed the source to %q", content())
			}
			s3 := store.New()
			defer s3.Close()
			opts := []store.LoadOpt{store.WithProvider(file.New(to)), store.WithCodec(newCodec(h.Other))}
			if h.At != "" {
				opts = append(opts, store.WithStorePrefix(h.At))
			}
			if _, err := s3.Load(bg, opts...); err != nil {
				b, _ := os.ReadFile(to)
				c.Failf("the exported %s file %q does not load: %v", h.Other, b, err)
			}
			exp, _ := flatSource("", ".", all, false)
			got, err := s3.GetM("")
			diffMaps(c, "the keys exported as "+h.Other, looseNums(got).(map[string]any), looseNums(exp).(map[string]any), err)
		}
		var names []string
		es, _ := os.ReadDir(dir)
		for _, e := range es {
			if e.Name() != "export" {
				names = append(names, e.Name())
			}
		}
		sort.Strings(names)
		if b, _ := os.ReadFile(filepath.Join(dir, "other")); len(names) != 2 || string(b) != "other" {
			c.Failf("other files were touched: %q, %q", names, b)
		}
		c.NT(len(flat) > 1 && (saved > 0 || !h.Write || h.Via == "fs"))
		c.Label(saved > 0, "written back")
		c.Label(true, "format="+h.Format)
		c.Label(h.Via == "fs", "fs")
		c.Label(h.Link && saved > 0, "written back through a link")
		c.Label(h.Via == "file" && !h.Write, "write-back disabled")
		c.Label(len(all) > 0 && h.Format != h.Other, "converted")
	})
}

// ---------------------------------------------------------------- C27: a failed load changes nothing

type c27fail struct {
	Kind  string `json:"kind"` // read | bytes | codec | panic | cut | bad
	Codec string `json:"codec,omitempty"`
	Cut   int    `json:"cut,omitempty"`
	Bad   string `json:"bad,omitempty"`
	L     load   `json:"l"`
}

type c27 struct {
	Pre   []Op      `json:"pre"`
	Steps []c27fail `json:"steps"`
	K     string    `json:"k"`
}

// text no parser of the format accepts, whatever goes before
var badTail = map[string][]string{
	"json": {"{\"a\":", "{\"a\":1,}", "{} x", "[1,2]", "5", "\"x\"", "{a:1}", "", "{\"a\":01}", "nul"},
	"yaml": {"a: [1, 2", "{a: 1", "a: 'x", "a: b: c", "- 1\n- 2\n", "text only", "a: 1\nb: \"x\n", "a: 1\n\tb: 2\n"},
	"toml": {"a = 1\na = 2\n", "[x\n", "= 1\n", "a = \n", "a = 1 b = 2\n", "a = 'x\n", "[t]\nk = 1\n[t]\nk = 2\n", "x\n"},
	"gob":  {"", "x", "\x03\x02", "\xff\xff\xff\xff\xff"},
}

func TestC27(t *testing.T) {
	Check(t, "C27", func(t *rapid.T) c27 {
		h := genHist(t, HistOpts{Ops: []string{"set", "set", "comment", "tag"}, Max: 6, Kind: "store", Val: genScalar})
		r := c27{Pre: h.Ops}
		g := newKeyGen(t, h.Delim)
		for _, op := range h.Ops {
			g.Seen = append(g.Seen, op.K)
		}
		for i := rapid.IntRange(1, 3).Draw(t, "n"); i > 0; i-- {
			f := c27fail{Kind: rapid.SampledFrom([]string{"read", "bytes", "codec", "panic", "cut", "cut", "bad", "bad"}).Draw(t, "kind"), L: genLoad(t, g, false)}
			f.L.Codec = false
			switch f.Kind {
			case "cut":
				f.Codec = rapid.SampledFrom([]string{"", "json", "yaml", "gob"}).Draw(t, "codec")
				f.Cut = rapid.IntRange(0, 300).Draw(t, "cut")
				kind := f.Codec
				if kind == "" {
					kind = "json"
				}
				f.L.V = genCodecDoc(t, map[string]string{"json": "toml", "yaml": "toml", "gob": "gob"}[kind], 2)
				f.L.How, f.L.Meta = "read", nil
			case "bad":
				f.Codec = rapid.SampledFrom([]string{"", "json", "yaml", "toml", "gob"}).Draw(t, "codec")
				kind := f.Codec
				if kind == "" {
					kind = "json"
				}
				f.Bad = rapid.SampledFrom(badTail[kind]).Draw(t, "bad")
				if kind == "toml" || kind == "yaml" && !strings.HasPrefix(f.Bad, "- ") && !strings.HasPrefix(f.Bad, "{") && f.Bad != "text only" {
					var sb strings.Builder // well-formed lines first
					for i := rapid.IntRange(0, 4).Draw(t, "lines"); i > 0; i-- {
						fmt.Fprintf(&sb, map[string]string{"toml": "good%d = %d\n", "yaml": "good%d: %d\n"}[kind], i, i)
					}
					f.Bad = sb.String() + f.Bad
				}
				f.L.How, f.L.Meta = "read", nil
			}
			r.Steps = append(r.Steps, f)
		}
		r.K = g.Key(t)
		return r
	}, func(c *Ctx, h c27) {
		calls := 0
		note := func(string, any, bool) { calls++ }
		w := newWorld(c, "store", ".")
		w.S = newSUT("store", ".", store.WithWatchEnable(true), store.WithOnNewHandlers(note), store.WithOnDeleteHandlers(note),
			store.WithOnChangeHandlers(func(string, any, any, bool) { calls++ }))
		w.Views[0] = w.S
		defer w.S.Close()
		st := w.S.st
		for _, op := range h.Pre {
			w.Apply(op)
		}
		mods := func() map[string]bool {
			r := map[string]bool{}
			for k := range w.M.M {
				st.GetEx(k, func(node radix.Node[any], _ any, _ bool, _ radix.KVPair) { r[k] = node.Modified() })
			}
			return r
		}
		failed := map[string]int{}
		for _, f := range h.Steps {
			opts, mp := f.L.options()
			var p store.Provider = mp
			var cdc store.Codec
			inject := errInjected
			doc := f.L.V.Any().(map[string]any)
			if f.Kind != "read" {
				mp.data = nil
			}
			wp := &watchProvider{memProvider: mp}
			p = wp
			switch f.Kind {
			case "read":
				mp.rerr = errInjected
			case "bytes":
				mp.rerr, mp.berr = store.ErrNotImplemented, errInjected
				if mp.bytes == nil {
					mp.bytes = []byte("{}")
				}
			case "codec":
				mp.rerr, mp.bytes = store.ErrNotImplemented, []byte("x")
				cdc = &memCodec{m: doc, err: errInjected} // with a part of the data
			case "panic":
				mp.rerr, mp.bytes = store.ErrNotImplemented, []byte("x")
				cdc = &memCodec{m: doc}
				p = &panicProvider{mp}
			case "cut":
				inject = nil
				if f.Codec != "" {
					cdc = newCodec(f.Codec)
				}
				var b []byte
				if f.Codec == "gob" {
					var err error
					if b, err = cdc.Marshal(doc); err != nil {
						c.Failf("gob: %v", err)
					}
				} else {
					var err error
					b, err = json.Marshal(doc)
					must(err)
				}
				n := f.Cut % len(b)
				if f.Codec == "yaml" && n == 0 {
					n = 1 // (an empty text is an empty document)
				}
				mp.rerr, mp.bytes = store.ErrNotImplemented, b[:n]
			case "bad":
				inject = nil
				if f.Codec != "" {
					cdc = newCodec(f.Codec)
				}
				mp.rerr, mp.bytes = store.ErrNotImplemented, []byte(f.Bad)
			}
			opts = append(opts, store.WithProvider(p))
			if cdc != nil {
				opts = append(opts, store.WithCodec(cdc))
			}
			if f.Kind == "bytes" {
				opts = append(opts, store.WithCodec(&memCodec{m: doc}))
			}
			was := mods()
			calls = 0
			var err error
			boom := false
			func() {
				defer func() {
					if e := recover(); e != nil {
						if e != errPanic {
							panic(e)
						}
						boom = true
					}
				}()
				_, err = st.Load(bg, opts...)
			}()
			what := fmt.Sprintf("the failed load (%s %s %q)", f.Kind, f.Codec, mp.bytes)
			if f.Kind != "panic" && err == nil {
				c.Failf("%s reports no error", what)
			}
			if f.Kind == "panic" && !boom && err == nil {
				c.Failf("the panic of the provider was swallowed")
			}
			if f.Kind != "panic" && inject != nil && !errors.Is(err, inject) {
				c.Failf("%s reports %v, not the cause %v", what, err, inject)
			}
			if calls != 0 {
				c.Failf("%s told the handlers of %d changes", what, calls)
			}
			if wp.watched != 0 {
				c.Failf("%s left a watched source", what)
			}
			w.checkReads(w.S, "", nil)
			w.checkEnum(w.S)
			w.checkMeta(w.S)
			if now := mods(); !eq(now, was) {
				c.Failf("%s changed the modified flags from %v to %v", what, was, now)
			}
			failed[f.Kind]++
		}
		// and it goes on
		w.M.set(h.K, "after")
		calls = 0
		st.Set(h.K, "after")
		if calls != 1 {
			c.Failf("Set after a failed load: %d notifications", calls)
		}
		st.GetEx(h.K, func(node radix.Node[any], _ any, _ bool, _ radix.KVPair) {
			if !node.Modified() {
				c.Failf("Set after a failed load does not mark the key as modified")
			}
		})
		wr, err := st.Load(bg, store.WithProvider(&memProvider{data: map[string]store.ValPkg{"zz.later": {Value: 1}}}))
		if err != nil || wr == nil {
			c.Failf("Load after a failed load: %v, %v", wr, err)
		}
		w.M.set("zz.later", 1)
		w.checkReads(w.S, "", nil)
		w.checkEnum(w.S)
		c.NT(len(h.Pre) > 1)
		for k := range failed {
			c.Label(true, k)
		}
	})
}

var errPanic = errors.New("panic in the provider")

type panicProvider struct{ *memProvider }

func (p *panicProvider) Read() (map[string]store.ValPkg, error) { panic(errPanic) }
