package harness

import (
	"flag"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"

	"github.com/hedzr/store"
	"github.com/hedzr/store/providers/env"
	"github.com/hedzr/store/providers/flags"
	"github.com/hedzr/store/providers/maps"
)

// ---------------------------------------------------------------- C23: environment, flags and maps as sources

type c23var struct {
	N string `json:"n"`
	V Val    `json:"v"`
	D *Val   `json:"d,omitempty"` // flags: given on the command line
	U string `json:"u,omitempty"` // flags: usage
}

type c23 struct {
	Kind   string   `json:"kind"` // env | flags | maps
	Vars   []c23var `json:"vars"`
	Prefix string   `json:"prefix,omitempty"`
	Strip  bool     `json:"strip,omitempty"`
	Lower  string   `json:"lower,omitempty"` // "" | true | false
	Dots   bool     `json:"dots,omitempty"`
	CB     bool     `json:"cb,omitempty"`
	At     string   `json:"at,omitempty"`
	Map    Val      `json:"map"`
	Delim  string   `json:"delim,omitempty"`
	Via    string   `json:"via"` // option | load
}

var nameParts = []string{"A", "B", "AB", "HOME", "PATH", "app", "App", "x1", "X", "server", "PORT", "é"}

func genName(t *rapid.T) string {
	n := rapid.SampledFrom([]string{"", "", "", "_", "__"}).Draw(t, "lead")
	for i := rapid.IntRange(1, 4).Draw(t, "nparts"); i > 0; i-- {
		n += rapid.SampledFrom(nameParts).Draw(t, "part")
		n += rapid.SampledFrom([]string{"", "_", "_", "_", "__", "___", "-"}).Draw(t, "sep")
	}
	return n
}

// dotted turns the last underscore of a run into a dot, unless it is at an end of the name.
func dotted(k string) string {
	b := []byte(k)
	for i := 1; i+1 < len(k); i++ {
		if k[i] == '_' && k[i+1] != '_' {
			b[i] = '.'
		}
	}
	return string(b)
}

type listFlag []string

func (l *listFlag) String() string     { return strings.Join(*l, ",") }
func (l *listFlag) Set(s string) error { *l = append(*l, s); return nil }

func TestC23(t *testing.T) {
	Check(t, "C23", func(t *rapid.T) c23 {
		r := c23{Kind: rapid.SampledFrom([]string{"env", "flags", "maps"}).Draw(t, "kind"), Via: rapid.SampledFrom([]string{"option", "load", "both"}).Draw(t, "via")}
		g := newKeyGen(t, ".")
		if rapid.Bool().Draw(t, "at?") {
			r.At = g.Path(t)
		}
		if r.Kind == "maps" {
			r.Delim = rapid.SampledFrom([]string{"", ".", ".", "/"}).Draw(t, "delim")
			d := &KeyGen{Delim: ".", Segs: g.Segs}
			if r.Delim == "/" {
				d.Delim = "/"
			}
			var segs []string
			for _, s := range d.Segs {
				if !strings.ContainsAny(s, "./") {
					segs = append(segs, s)
				}
			}
			d.Segs = segs
			src := genSource(t, d, 3, d.Delim == ".")
			// the delimiter of the provider splits the keys of the top level
			if d.Delim == "/" && len(src.M) > 0 {
				for _, k := range sortedKeys(src.M) {
					if rapid.Bool().Draw(t, "split") {
						src.M[k+"/"+d.Seg(t)] = genSourceVal(t, d, 2, false)
					}
				}
			}
			r.Map = src
			return r
		}
		for i := rapid.IntRange(1, 8).Draw(t, "nvars"); i > 0; i-- {
			v := c23var{N: genName(t)}
			if r.Kind == "env" {
				v.V = vStr(strings.ReplaceAll(rapid.SampledFrom([]func() string{
					func() string { return genText(t, "val") }, func() string { return "a=b=" + genText(t, "val") }}).Draw(t, "how")(), "\x00", ""))
			} else {
				mk := func(k string) Val {
					switch k {
					case "int":
						return vInt(rapid.IntRange(-1e6, 1e6).Draw(t, "int"))
					case "uint":
						return Val{K: "uint", S: fmt.Sprint(rapid.Uint64Range(0, 1<<52).Draw(t, "uint"))}
					case "bool":
						return vBool(rapid.Bool().Draw(t, "bool"))
					case "float64":
						return vFloat(genFloat(t, "float"))
					case "dur":
						return Val{K: "dur", S: fmt.Sprint(rapid.Int64Range(0, 1e15).Draw(t, "dur"))}
					case "[]string":
						v := Val{K: "[]string"}
						for i := rapid.IntRange(1, 3).Draw(t, "n"); i > 0; i-- {
							v.L = append(v.L, vStr(rapid.StringMatching(`[a-z]{1,3}`).Draw(t, "e")))
						}
						return v
					}
					return vStr(genText(t, "str"))
				}
				k := rapid.SampledFrom([]string{"int", "uint", "bool", "float64", "dur", "string", "[]string"}).Draw(t, "ftype")
				v.V, v.U = mk(k), genText(t, "usage")
				if k != "[]string" && rapid.Bool().Draw(t, "given") {
					d := mk(k)
					v.D = &d
				}
			}
			r.Vars = append(r.Vars, v)
		}
		if rapid.Bool().Draw(t, "prefix?") {
			n := rapid.SampledFrom(r.Vars).Draw(t, "of").N
			for i := rapid.IntRange(1, len(n)).Draw(t, "len"); i <= len(n); i++ {
				if validUTF8(n[:i]) {
					r.Prefix = n[:i]
					break
				}
			}
			r.Strip = rapid.Bool().Draw(t, "strip")
		}
		r.Lower = rapid.SampledFrom([]string{"", "true", "false"}).Draw(t, "lower")
		r.Dots = rapid.Bool().Draw(t, "dots")
		r.CB = rapid.IntRange(0, 3).Draw(t, "cb") == 0
		return r
	}, func(c *Ctx, h c23) {
		if h.Kind == "maps" {
			runMaps(c, h)
			return
		}
		cb := func(k string) string { return "cb" + k }
		lower := h.Lower != "false"
		prefix := h.Prefix
		if h.Kind == "env" {
			prefix = strings.ToUpper(prefix)
		}
		strip := ""
		if h.Strip {
			if strip = prefix; lower {
				strip = strings.ToLower(strip)
			}
		}
		// the oracle
		type item struct {
			val        any
			usage, def string
		}
		want := map[string]item{}
		names := map[string]bool{}
		kept, dropped := 0, 0
		for _, v := range h.Vars {
			if names[v.N] {
				return
			}
			names[v.N] = true
			if !strings.HasPrefix(v.N, prefix) {
				dropped++
				continue
			}
			k := v.N
			if lower {
				k = strings.ToLower(k)
			}
			if strip != "" {
				k = strings.TrimPrefix(k, strip)
			}
			if h.Dots {
				k = dotted(k)
			}
			if h.CB {
				k = cb(k)
			}
			if !validKey(k, ".") || strings.HasPrefix(k, "-") {
				return // outside of the domain of keys
			}
			if h.At != "" && h.Via != "load" {
				k = h.At + "." + k
			}
			if _, dup := want[k]; dup {
				return // two names of the same key
			}
			it := item{val: v.V.Any(), usage: v.U}
			if v.D != nil {
				it.val = v.D.Any()
			}
			want[k] = it
			kept++
		}

		var p store.Provider
		if h.Kind == "env" {
			saved := os.Environ()
			os.Clearenv()
			defer func() {
				os.Clearenv()
				for _, s := range saved {
					k, v, _ := strings.Cut(s, "=")
					_ = os.Setenv(k, v)
				}
			}()
			for _, v := range h.Vars {
				must(os.Setenv(v.N, v.V.S))
			}
			var opts []env.Opt
			if h.Prefix != "" {
				if h.Strip {
					opts = append(opts, env.WithPrefix(h.Prefix, strip))
				} else {
					opts = append(opts, env.WithPrefix(h.Prefix))
				}
			}
			switch h.Lower {
			case "true":
				opts = append(opts, env.WithLowerCase())
			case "false":
				opts = append(opts, env.WithLowerCase(false))
			}
			if h.Dots {
				opts = append(opts, env.WithUnderlineToDot())
			}
			if h.CB {
				opts = append(opts, env.WithKeyCB(cb))
			}
			if h.At != "" && h.Via != "load" {
				opts = append(opts, env.WithStorePrefix(h.At))
			}
			p = env.New(opts...)
		} else {
			saved := flag.CommandLine
			flag.CommandLine = flag.NewFlagSet("x", flag.ContinueOnError)
			defer func() { flag.CommandLine = saved }()
			var args []string
			for _, v := range h.Vars {
				switch d := v.V.Any().(type) {
				case int:
					flag.Int(v.N, d, v.U)
				case uint:
					flag.Uint(v.N, d, v.U)
				case bool:
					flag.Bool(v.N, d, v.U)
				case float64:
					flag.Float64(v.N, d, v.U)
				case time.Duration:
					flag.Duration(v.N, d, v.U)
				case string:
					flag.String(v.N, d, v.U)
				case []string:
					l := listFlag(d)
					flag.Var(&l, v.N, v.U)
				}
				if v.D != nil {
					args = append(args, "-"+v.N+"="+fmt.Sprint(v.D.Any()))
				}
			}
			must(flag.CommandLine.Parse(args))
			var opts []flags.Opt
			if h.Prefix != "" {
				if h.Strip {
					opts = append(opts, flags.WithPrefix(h.Prefix, strip))
				} else {
					opts = append(opts, flags.WithPrefix(h.Prefix))
				}
			}
			switch h.Lower {
			case "true":
				opts = append(opts, flags.WithLowerCase())
			case "false":
				opts = append(opts, flags.WithLowerCase(false))
			}
			if h.Dots {
				opts = append(opts, flags.WithUnderlineToDot())
			}
			if h.CB {
				opts = append(opts, flags.WithKeyCB(cb))
			}
			if h.At != "" && h.Via != "load" {
				opts = append(opts, flags.WithStorePrefix(h.At))
			}
			p = flags.New(opts...)
		}

		// the provider itself: its keys are iterated once each, and have their values
		sp := p.(store.StreamProvider)
		keys, err := sp.Keys()
		if err != nil {
			c.Failf("Keys: %v", err)
		}
		wk := sortedKeys(want)
		got := append([]string{}, keys...)
		sort.Strings(got)
		if !eq(got, wk) && len(wk)+len(got) > 0 {
			c.Failf("%s: keys %q, expected %q", h.Kind, got, wk)
		}
		if sp.Count() != len(wk) {
			c.Failf("%s: Count %d, expected %d", h.Kind, sp.Count(), len(wk))
		}
		var iter []string
		for i := 0; i <= len(wk)+2; i++ {
			k, eol := sp.Next()
			if eol {
				break
			}
			iter = append(iter, k)
		}
		sort.Strings(iter)
		if len(wk)+len(iter) > 0 && !eq(iter, wk) {
			c.Failf("%s: Next goes through %q, expected %q", h.Kind, iter, wk)
		}
		same := func(a, b any) bool { // up to the named types of package flag
			x, y := reflect.ValueOf(a), reflect.ValueOf(b)
			return x.IsValid() && y.IsValid() && x.Kind() == y.Kind() && eq(x.Convert(y.Type()).Interface(), b)
		}
		for k, it := range want {
			v, ok := sp.Value(k)
			if !ok || !sp.Has(k) || !same(v, it.val) || !same(sp.MustValue(k), it.val) {
				c.Failf("%s: %q has %s (%v, %v), expected %s", h.Kind, k, show(v), ok, sp.Has(k), show(it.val))
			}
		}
		if _, ok := sp.Value("zz.no"); ok || sp.Has("zz.no") || sp.MustValue("zz.no") != nil {
			c.Failf("%s: a key which isn't there", h.Kind)
		}

		// and loaded
		s := store.New()
		defer s.Close()
		lo := []store.LoadOpt{store.WithProvider(p)}
		at := ""
		if h.At != "" && h.Via != "option" {
			lo = append(lo, store.WithStorePrefix(h.At))
			at = h.At + "."
		}
		if _, err := s.Load(bg, lo...); err != nil {
			c.Failf("Load: %v", err)
		}
		m, err := s.GetM("")
		if err != nil || len(m) != len(want) {
			c.Failf("%s: loaded %q, expected %q below %q; %v", h.Kind, sortedKeys(m), wk, at, err)
		}
		for k, it := range want {
			v, ok := m[at+k]
			if !ok || !same(v, it.val) {
				c.Failf("%s: %q was loaded as %s (%v), expected %s", h.Kind, at+k, show(v), ok, show(it.val))
			}
			if str, err := s.GetString(at + k); h.Kind == "env" && (err != nil || str != it.val) {
				c.Failf("GetString(%q) = %q, %v, expected %q", at+k, str, err, it.val)
			}
			if h.Kind == "flags" {
				switch w := it.val.(type) {
				case int:
					if v, err := s.GetInt(at + k); err != nil || v != w {
						c.Failf("flags: GetInt(%q) = %v, %v, expected %v", at+k, v, err, w)
					}
				case uint:
					if v, err := s.GetUint(at + k); err != nil || v != w {
						c.Failf("flags: GetUint(%q) = %v, %v, expected %v", at+k, v, err, w)
					}
				case bool:
					if v, err := s.GetBool(at + k); err != nil || v != w {
						c.Failf("flags: GetBool(%q) = %v, %v, expected %v", at+k, v, err, w)
					}
				case float64:
					if v, err := s.GetFloat64(at + k); err != nil || v != w {
						c.Failf("flags: GetFloat64(%q) = %v, %v, expected %v", at+k, v, err, w)
					}
				case string:
					if v, err := s.GetString(at + k); err != nil || v != w {
						c.Failf("flags: GetString(%q) = %v, %v, expected %v", at+k, v, err, w)
					}
				case time.Duration:
					if v, err := s.GetDuration(at + k); err != nil || v != w {
						c.Failf("flags: GetDuration(%q) = %v, %v, expected %v", at+k, v, err, w)
					}
				}
			}
			if desc := s.MustGetDesc(at + k); h.Kind == "flags" && desc != it.usage {
				c.Failf("flags: %q has the description %q, expected %q", at+k, desc, it.usage)
			}
		}
		c.NT(kept > 1)
		c.Label(true, h.Kind)
		c.Label(kept > 0 && dropped > 0, "prefix keeps a part")
		c.Label(h.Dots, "underlines to dots")
	})
}

// strKeys turns the keys of all maps inside into text.
func strKeys(v any) any {
	switch z := v.(type) {
	case map[string]any:
		r := map[string]any{}
		for k, x := range z {
			r[k] = strKeys(x)
		}
		return r
	case map[any]any:
		r := map[string]any{}
		for k, x := range z {
			r[fmt.Sprint(k)] = strKeys(x)
		}
		return r
	case []any:
		r := []any{}
		for _, x := range z {
			r = append(r, strKeys(x))
		}
		return r
	case []map[string]any:
		r := []map[string]any{}
		for _, x := range z {
			r = append(r, strKeys(x).(map[string]any))
		}
		return r
	}
	return v
}

// looseKeys tells if a map with other keys than text is reached through maps and lists of maps.
func looseKeys(v any) bool {
	switch z := v.(type) {
	case map[any]any:
		return true
	case map[string]any:
		for _, x := range z {
			if looseKeys(x) {
				return true
			}
		}
	case []any:
		for _, x := range z {
			if _, list := x.([]any); !list && looseKeys(x) {
				return true
			}
		}
	}
	return false
}

func runMaps(c *Ctx, h c23) {
	d := h.Delim
	src := h.Map.Any().(map[string]any)
	kd := "."
	if d == "/" {
		kd = "/"
	}
	flat, clash := flatSource("", kd, h.Map.Any().(map[string]any), false)
	if clash {
		return
	}
	if d != "" {
		// a nested map cannot hold a value and a section for a key
		all := map[string]any{}
		dup := false
		var leaves func(at string, v any)
		leaves = func(at string, v any) {
			if m, ok := strKeys(v).(map[string]any); ok && len(m) > 0 {
				for k, x := range m {
					if at != "" {
						k = at + kd + k
					}
					leaves(k, x)
				}
				return
			}
			_, has := all[at]
			dup = dup || has
			all[at] = nil
		}
		leaves("", src)
		if dup || !subsetPrefixFree(all, kd) {
			return
		}
	}
	var mo []maps.Opt
	first := d
	if h.Via != "load" { // the delimiter as an option
		mo = append(mo, maps.WithDelimiter(d))
		if first = ""; h.Via == "both" {
			first = "-"
		}
	}
	p := maps.New(src, first, mo...)
	if whole := h.Map.Any(); !eq(src, whole) {
		c.Failf("maps: New changed the given map: %s, it was %s", show(src), show(whole))
	}
	// the provider has its own copy
	var wreck func(v any)
	wreck = func(v any) {
		switch z := v.(type) {
		case map[string]any:
			for k, x := range z {
				wreck(x)
				z[k] = "wrecked"
			}
		case map[any]any:
			for k, x := range z {
				wreck(x)
				z[k] = "wrecked"
			}
		case []any:
			for i, x := range z {
				wreck(x)
				z[i] = "wrecked"
			}
		case []map[string]any:
			for _, x := range z {
				wreck(x)
			}
		case []map[any]any:
			for _, x := range z {
				wreck(x)
			}
		}
	}
	wreck(src)

	s := store.New()
	defer s.Close()
	lo := []store.LoadOpt{store.WithProvider(p)}
	at := ""
	if h.At != "" {
		lo = append(lo, store.WithStorePrefix(h.At))
		at = h.At + "."
	}
	if _, err := s.Load(bg, lo...); err != nil {
		c.Failf("Load: %v", err)
	}
	want := map[string]any{}
	for k, v := range flat {
		want[at+strings.ReplaceAll(k, kd, ".")] = v
	}
	got, err := s.GetM("")
	diffMaps(c, "maps: loaded", strKeys(got).(map[string]any), strKeys(want).(map[string]any), err)
	for k, v := range got {
		if looseKeys(v) {
			c.Failf("maps: %q has a map whose keys are no text: %s", k, show(v))
		}
	}
	c.NT(len(want) > 1)
	c.Label(true, "maps")
}

func validUTF8(s string) bool { return utf8.ValidString(s) }
