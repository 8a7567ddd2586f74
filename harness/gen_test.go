package harness

import (
	"encoding/base64"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"

	"github.com/hedzr/store"
)

// ---------------------------------------------------------------- values

// Val is a JSON-serialisable description of a Go value.
type Val struct {
	K string         `json:"k"`           // kind
	S string         `json:"s,omitempty"` // scalar text
	L []Val          `json:"l,omitempty"` // elements
	M map[string]Val `json:"m,omitempty"` // map entries
}

func vInt(i int) Val       { return Val{K: "int", S: strconv.Itoa(i)} }
func vStr(s string) Val    { return Val{K: "string", S: s} }
func vBool(b bool) Val     { return Val{K: "bool", S: strconv.FormatBool(b)} }
func vFloat(f float64) Val { return Val{K: "float64", S: strconv.FormatFloat(f, 'g', -1, 64)} }
func vNil() Val            { return Val{K: "nil"} }

type pairStruct struct {
	A int
	B string
}

// Any builds a fresh Go value.
func (v Val) Any() any {
	pi := func(bits int) int64 { i, err := strconv.ParseInt(v.S, 10, bits); must(err); return i }
	pu := func(bits int) uint64 { i, err := strconv.ParseUint(v.S, 10, bits); must(err); return i }
	pf := func() float64 { f, err := strconv.ParseFloat(v.S, 64); must(err); return f }
	switch v.K {
	case "nil", "":
		return nil
	case "bool":
		return v.S == "true"
	case "int":
		return int(pi(64))
	case "int8":
		return int8(pi(8))
	case "int16":
		return int16(pi(16))
	case "int32":
		return int32(pi(32))
	case "int64":
		return pi(64)
	case "uint":
		return uint(pu(64))
	case "uint8":
		return uint8(pu(8))
	case "uint16":
		return uint16(pu(16))
	case "uint32":
		return uint32(pu(32))
	case "uint64":
		return pu(64)
	case "float64":
		return pf()
	case "float32":
		return float32(pf())
	case "complex64":
		c, err := strconv.ParseComplex(v.S, 64)
		must(err)
		return complex64(c)
	case "complex128":
		c, err := strconv.ParseComplex(v.S, 128)
		must(err)
		return c
	case "string":
		return v.S
	case "dur":
		return time.Duration(pi(64))
	case "time":
		tm, err := time.Parse(time.RFC3339Nano, v.S)
		must(err)
		return tm
	case "bytes":
		b, err := base64.StdEncoding.DecodeString(v.S)
		must(err)
		return b
	case "pair":
		return pairStruct{A: len(v.S), B: v.S}
	case "ptr":
		return &pairStruct{A: len(v.S), B: v.S}
	case "[]any":
		r := make([]any, 0, len(v.L))
		for _, x := range v.L {
			r = append(r, x.Any())
		}
		return r
	case "[]string":
		r := make([]string, 0, len(v.L))
		for _, x := range v.L {
			r = append(r, x.S)
		}
		return r
	case "[]int":
		r := make([]int, 0, len(v.L))
		for _, x := range v.L {
			r = append(r, x.Any().(int))
		}
		return r
	case "[]map":
		r := make([]map[string]any, 0, len(v.L))
		for _, x := range v.L {
			r = append(r, x.Any().(map[string]any))
		}
		return r
	case "[]mapany":
		r := make([]map[any]any, 0, len(v.L))
		for _, x := range v.L {
			r = append(r, x.Any().(map[any]any))
		}
		return r
	case "pack": // a value with its description, comment and tag
		r := store.ValPkg{Value: v.L[0].Any()}
		if v.S != "" {
			r.Desc, r.Comment, r.Tag = v.S, v.S+" comment", v.S+" tag"
		}
		return r
	case "map":
		r := make(map[string]any, len(v.M))
		for k, x := range v.M {
			r[k] = x.Any()
		}
		return r
	case "mapany": // map[any]any, string keys
		r := make(map[any]any, len(v.M))
		for k, x := range v.M {
			r[k] = x.Any()
		}
		return r
	case "mapint": // map[any]any, keys which are no text
		r := make(map[any]any, len(v.M))
		for k, x := range v.M {
			r[anyKey(k)] = x.Any()
		}
		return r
	}
	panic("HARNESS-ERROR: bad kind " + v.K)
}

func must(err error) {
	if err != nil {
		panic("HARNESS-ERROR: " + err.Error())
	}
}

// eq is deep equality, except that an empty slice equals a nil slice of its type
// (the deep copy behind Dup does not keep them apart, and nobody relies on it).
func eq(a, b any) bool { return reflect.DeepEqual(a, b) || reflect.DeepEqual(noEmpty(a), noEmpty(b)) }

func noEmpty(v any) any {
	switch z := v.(type) {
	case []any:
		if len(z) == 0 {
			return []any(nil)
		}
		r := make([]any, len(z))
		for i := range z {
			r[i] = noEmpty(z[i])
		}
		return r
	case map[string]any:
		r := make(map[string]any, len(z))
		for k, x := range z {
			r[k] = noEmpty(x)
		}
		return r
	case map[any]any:
		r := make(map[any]any, len(z))
		for k, x := range z {
			r[k] = noEmpty(x)
		}
		return r
	case []map[string]any:
		r := make([]any, len(z)+1)
		r[0] = "[]map"
		for i := range z {
			r[i+1] = noEmpty(z[i])
		}
		return r
	}
	if rv := reflect.ValueOf(v); rv.Kind() == reflect.Slice && rv.Len() == 0 {
		return reflect.Zero(rv.Type()).Interface()
	}
	return v
}

func show(v any) string { return fmt.Sprintf("%#v", v) }

func genText(t *rapid.T, label string) string {
	return rapid.OneOf(
		rapid.SampledFrom([]string{"", "x", "hello", "a b", "日本", "true", "1", "é", "line\nbreak", "quote\"'`", "tab\t.", "null", "~", "{}", "a: b", "#c", "-", "[on,off]"}),
		rapid.StringMatching(`[a-zA-Z0-9 _./:-]{0,12}`),
		rapid.StringN(0, 6, -1),
	).Draw(t, label)
}

// genScalar draws a scalar of any Go kind a user may put in.
func genScalar(t *rapid.T, label string) Val {
	switch rapid.IntRange(0, 13).Draw(t, label+".kind") {
	case 0:
		return vInt(rapid.IntRange(-5, 1000).Draw(t, label))
	case 1, 2:
		return vStr(genText(t, label))
	case 3:
		return vBool(rapid.Bool().Draw(t, label))
	case 4:
		return vFloat(genFloat(t, label))
	case 5:
		return vNil()
	case 6:
		return Val{K: "int64", S: strconv.FormatInt(rapid.Int64().Draw(t, label), 10)}
	case 7:
		return Val{K: "uint64", S: strconv.FormatUint(rapid.Uint64().Draw(t, label), 10)}
	case 8:
		return Val{K: "uint8", S: strconv.Itoa(int(rapid.Uint8().Draw(t, label)))}
	case 9:
		return Val{K: "dur", S: strconv.FormatInt(rapid.Int64Range(0, math.MaxInt64/2).Draw(t, label), 10)}
	case 10:
		return Val{K: "time", S: time.Unix(rapid.Int64Range(0, 4e9).Draw(t, label), 0).UTC().Format(time.RFC3339Nano)}
	case 11:
		return Val{K: "int32", S: strconv.Itoa(int(rapid.Int32().Draw(t, label)))}
	case 12:
		return Val{K: "complex128", S: strconv.FormatComplex(complex(float64(rapid.IntRange(-9, 9).Draw(t, label)), 1.5), 'g', -1, 128)}
	default:
		return Val{K: "pair", S: rapid.StringMatching(`[a-z]{0,4}`).Draw(t, label)}
	}
}

func genFloat(t *rapid.T, label string) float64 {
	return rapid.OneOf(
		rapid.SampledFrom([]float64{0, 1.5, -0.25, 3.14159, 1e21, 1e-7, 123456789.125}),
		rapid.Float64Range(-1e9, 1e9),
	).Draw(t, label)
}

// genVal draws what can be stored at a key: scalars, slices, maps.
func genVal(t *rapid.T, label string) Val {
	switch rapid.IntRange(0, 9).Draw(t, label+".shape") {
	case 0:
		n := rapid.IntRange(0, 12).Draw(t, label+".n")
		v := Val{K: "[]any", L: []Val{}}
		for i := 0; i < n; i++ {
			v.L = append(v.L, genScalar(t, label))
		}
		return v
	case 1:
		n := rapid.IntRange(0, 12).Draw(t, label+".n")
		v := Val{K: "[]string", L: []Val{}}
		for i := 0; i < n; i++ {
			v.L = append(v.L, vStr(genText(t, label)))
		}
		return v
	case 2:
		v := Val{K: "map", M: map[string]Val{}}
		for i := rapid.IntRange(0, 3).Draw(t, label+".n"); i > 0; i-- {
			v.M[rapid.StringMatching(`[a-c]{1,2}`).Draw(t, label+".k")] = genScalar(t, label)
		}
		return v
	default:
		return genScalar(t, label)
	}
}

// ---------------------------------------------------------------- keys

var segFlavors = []struct {
	name string
	segs []string
}{
	{"dense", []string{"a", "b", "aa", "ab", "ba", "bb", "aaa", "aab", "aba", "abb", "baa", "bab", "abab"}},
	{"natural", []string{"app", "debug", "logging", "server", "a", "ap", "apple", "app-x", "app_x", "debugger", "d", "de", "dump", "log", "logger", "serve", "x", "name", "0", "1", "10", "11", "100"}},
	{"unicode", []string{"日", "日本", "日本語", "a", "é", "éa", "aé", "Ω", "Ωmega", "ß", "😀", "😀x", "x😀", "ñandú"}},
	{"case-punct", []string{"A", "a", "aB", "AB", "Ab", "a:b", "a*", "x@y", "a=b", "#", "a,b", "(x)", "a+b", "a%b", "$1", "a:", "~", "a~b", "<b>", "{q}"}},
	{"long", []string{
		"k", strings.Repeat("k", 31), strings.Repeat("k", 32), strings.Repeat("k", 33), strings.Repeat("k", 64), strings.Repeat("k", 65),
		strings.Repeat("long-segment-", 8), strings.Repeat("long-segment-", 8) + "x", strings.Repeat("long-segment-", 8) + "y", strings.Repeat("z", 200)}},
	// runes which share their first or last UTF-8 bytes, or their low byte with an ASCII letter
	{"runes", []string{"a", "š", "ā", "é", "è", "éa", "èa", "aš", "aa", "š日", "ša", "日", "月", "旦", "日a", "月a", "e\u0301", "e", "\ufffd", "\ufffda", "\u012e", "\u012f", "😀", "😁", "😀a", "İ", "i", "K", "k"}},
	// blanks of other kinds than the space, and what is cut off or folded easily
	{"blanks", []string{"a\u00a0b", "a", "a\u00a0", "\u3000", "a\u3000b", "a\tb", "a\u2028b", "a\u200bb", "ab", "a-b", "\ufeffa", "a\nb", "a\r", "a_b", "\"a\"", "'a'", "a\\b", "a\x00b"}},
	{"wide", []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "0", "1", "2", "3"}},
}

// KeyGen draws keys that collide, nest and share string prefixes often.
type KeyGen struct {
	Delim string
	Segs  []string
	Seen  []string
}

func validSeg(s, delim string) bool {
	return s != "" && utf8.ValidString(s) && !strings.Contains(s, delim) && !strings.ContainsAny(s, " ") &&
		!strings.HasPrefix(s, ":") && !strings.HasPrefix(s, "*")
}

func validKey(k, delim string) bool {
	if k == "" || k == "(root)" || k == "." {
		return false
	}
	for _, s := range strings.Split(k, delim) {
		if !validSeg(s, delim) {
			return false
		}
	}
	return true
}

func newKeyGen(t *rapid.T, delim string) *KeyGen {
	g := &KeyGen{Delim: delim}
	fl := rapid.IntRange(0, len(segFlavors)).Draw(t, "flavor")
	if fl < len(segFlavors) {
		for _, s := range segFlavors[fl].segs {
			if validSeg(s, delim) {
				g.Segs = append(g.Segs, s)
			}
		}
	} else { // a mixture
		for _, f := range segFlavors {
			for i, s := range f.segs {
				if i < 5 && validSeg(s, delim) {
					g.Segs = append(g.Segs, s)
				}
			}
		}
	}
	return g
}

func (g *KeyGen) Seg(t *rapid.T) string {
	return rapid.SampledFrom(g.Segs).Draw(t, "seg")
}

func (g *KeyGen) raw(t *rapid.T) string {
	n := rapid.SampledFrom([]int{1, 2, 2, 3, 3, 3, 4, 5, 7}).Draw(t, "depth")
	segs := make([]string, n)
	for i := range segs {
		segs[i] = g.Seg(t)
	}
	return strings.Join(segs, g.Delim)
}

func chopRune(s string) string {
	_, n := utf8.DecodeLastRuneInString(s)
	return s[:len(s)-n]
}

// derive makes a path related to an already drawn one.
func (g *KeyGen) derive(t *rapid.T, base string) string {
	segs := strings.Split(base, g.Delim)
	switch rapid.IntRange(0, 7).Draw(t, "rel") {
	case 0: // below
		return base + g.Delim + g.Seg(t)
	case 1: // the section holding it
		if len(segs) > 1 {
			return strings.Join(segs[:len(segs)-1], g.Delim)
		}
	case 2: // string-extended sibling
		return base + rapid.SampledFrom([]string{"a", "b", "ger", "-x", "0", "日"}).Draw(t, "ext")
	case 3: // string-shortened
		return chopRune(base)
	case 4: // sibling
		segs[len(segs)-1] = g.Seg(t)
		return strings.Join(segs, g.Delim)
	case 5: // any ancestor
		return strings.Join(segs[:rapid.IntRange(1, len(segs)).Draw(t, "cut")], g.Delim)
	case 6: // two levels below
		return base + g.Delim + g.Seg(t) + g.Delim + g.Seg(t)
	case 7: // another tail for one of its ancestors
		n := rapid.IntRange(1, len(segs)).Draw(t, "cut")
		return strings.Join(segs[:n], g.Delim) + g.Delim + g.Seg(t)
	}
	return base
}

// Key draws a valid key and remembers it.
func (g *KeyGen) Key(t *rapid.T) string {
	k := g.Path(t)
	g.Seen = append(g.Seen, k)
	return k
}

// Old draws a key drawn before (or a new one).
func (g *KeyGen) Old(t *rapid.T) string {
	if len(g.Seen) == 0 {
		return g.Key(t)
	}
	return rapid.SampledFrom(g.Seen).Draw(t, "old")
}

// Path draws a valid path, related to the keys drawn or not.
func (g *KeyGen) Path(t *rapid.T) string {
	if len(g.Seen) > 0 {
		switch rapid.IntRange(0, 5).Draw(t, "path") {
		case 0:
			return rapid.SampledFrom(g.Seen).Draw(t, "old")
		case 1, 2, 3:
			if k := g.derive(t, rapid.SampledFrom(g.Seen).Draw(t, "base")); validKey(k, g.Delim) {
				return k
			}
		}
	}
	return g.raw(t)
}

// Probes draws paths to look up.
func (g *KeyGen) Probes(t *rapid.T, lo, hi int) (ps []string) {
	for i := rapid.IntRange(lo, hi).Draw(t, "nprobes"); i > 0; i-- {
		ps = append(ps, g.Path(t))
	}
	return
}

func genDelim(t *rapid.T) string {
	return rapid.SampledFrom([]string{".", ".", ".", "/", ":", "-", "|", "\\", "_"}).Draw(t, "delim")
}

func delimRune(d string) rune { return []rune(d)[0] }

func sortedKeys[V any](m map[string]V) (r []string) {
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return
}

type namedKey string

// anyKey makes a key of another type out of its text.
func anyKey(k string) any {
	if b, err := strconv.ParseBool(k); err == nil && len(k) > 1 {
		return b
	}
	i, err := strconv.Atoi(k)
	if err != nil {
		return namedKey(k)
	}
	switch {
	case i < -100:
		return int64(i)
	case i < 0:
		return int8(i)
	case i > 200:
		return uint64(i)
	case i > 100:
		return uint16(i)
	}
	return i
}
