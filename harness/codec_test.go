package harness

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"testing"

	"pgregory.net/rapid"

	"github.com/hedzr/store"
	"github.com/hedzr/store/codecs/all"
	"github.com/hedzr/store/codecs/gob"
	"github.com/hedzr/store/codecs/hcl"
	"github.com/hedzr/store/codecs/hjson"
	"github.com/hedzr/store/codecs/json"
	"github.com/hedzr/store/codecs/nestext"
	"github.com/hedzr/store/codecs/toml"
	"github.com/hedzr/store/codecs/yaml"
)

// ---------------------------------------------------------------- C22: codecs

func newCodec(name string) store.Codec {
	switch name {
	case "json":
		return json.New()
	case "json-compact":
		return json.New(json.WithPretty(false))
	case "yaml":
		return yaml.New()
	case "toml":
		return toml.New()
	case "hjson":
		return hjson.New()
	case "nestext":
		return nestext.New()
	case "gob":
		return gob.New()
	case "hcl": // a section is a block, and a block alone stands for itself
		return hcl.New(hcl.WithFlattenSlices(true))
	}
	panic("HARNESS-ERROR: codec " + name)
}

// codecExts are the file extensions the registry knows for a codec.
var codecExts = map[string][]string{
	"json": {"json"}, "json-compact": {"json"}, "yaml": {"yaml", "yml"}, "toml": {"toml"}, "gob": {"gob"},
	"hjson": {"hjson"}, "nestext": {"nestedtext", "txt", "conf", ""}, "hcl": {"hcl", "tf"},
}

var codecNames = []string{"json", "json-compact", "yaml", "toml", "hjson", "nestext", "gob", "hcl"}

// codecText draws text every line-based format can carry.
func codecText(t *rapid.T, codec string) string {
	if codec == "nestext" { // (the library has trouble with empty and special text)
		return rapid.StringMatching(`[a-zA-Z0-9日é]{1,8}( [a-z0-9]{1,4})?`).Draw(t, "word")
	}
	if codec == "json" || codec == "json-compact" || codec == "gob" {
		return genText(t, "text")
	}
	// unusual white space, line ends and control characters are up to the format libraries
	return rapid.OneOf(
		rapid.SampledFrom([]string{"", "x", "hello", "a b", "日本", "true", "1", "-1.5", "é", "null", "~", "{}", "[]", "a: b", "#c", "-", "[on,off]", "a, b", "http://x/y?z=1", "x=\"y\"", "yes"}),
		rapid.StringMatching(`[a-zA-Z][a-zA-Z0-9_./:-]{0,12}`),
	).Draw(t, "text")
}

// the other number types a codec can write
var codecInts = map[string][]string{
	"json": narrow, "json-compact": narrow, "hjson": narrow, "yaml": append([]string{"int64", "uint64"}, narrow...), "toml": append([]string{"int64"}, narrow...),
	"hcl": append([]string{"int64", "uint64", "uint"}, narrow...),
}
var narrow = []string{"int8", "int16", "int32", "uint8", "uint16", "uint32"}

func genNarrow(t *rapid.T, kind string) Val {
	var s string
	ends := rapid.IntRange(0, 2).Draw(t, "ends")
	bits := map[string]int{"8": 8, "6": 16, "2": 32, "4": 64, "t": 64}[kind[len(kind)-1:]]
	if kind[0] == 'u' {
		top := uint64(math.MaxUint64) >> (64 - bits)
		s = fmt.Sprint([]uint64{rapid.Uint64Range(0, top).Draw(t, "u"), top, top/2 + 1}[ends])
	} else {
		top := int64(math.MaxInt64) >> (64 - bits)
		s = fmt.Sprint([]int64{rapid.Int64Range(-top-1, top).Draw(t, "i"), top, -top - 1}[ends])
	}
	return Val{K: kind, S: s}
}

// plainInts leaves only the number types int and float64.
func plainInts(v Val) Val {
	switch v.K {
	case "map":
		for k, x := range v.M {
			v.M[k] = plainInts(x)
		}
	case "[]any":
		for i, x := range v.L {
			v.L[i] = plainInts(x)
		}
	case "float32":
		v.K = "float64"
	case "uint", "uint64", "int64", "int8", "int16", "int32", "uint8", "uint16", "uint32":
		v.K = "int"
		if _, err := strconv.Atoi(v.S); err != nil {
			v.S = "1"
		}
	}
	return v
}

func genCodecVal(t *rapid.T, codec string, depth int) Val {
	top := 6
	if depth == 0 {
		top = 4
	}
	switch rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 6}[:top+1]).Draw(t, "cv") {
	case 0, 1:
		if codec != "nestext" && codec != "toml" && codec != "gob" && rapid.IntRange(0, 5).Draw(t, "null") == 0 {
			return vNil()
		}
		return vStr(codecText(t, codec))
	case 2:
		if codec == "nestext" {
			return vStr(codecText(t, codec))
		}
		if kinds := codecInts[codec]; len(kinds) > 0 && rapid.IntRange(0, 3).Draw(t, "width") == 0 {
			return genNarrow(t, rapid.SampledFrom(kinds).Draw(t, "kind"))
		}
		lim := 1 << 53
		if codec != "json" && codec != "json-compact" && codec != "hjson" { // those know floats only
			lim = math.MaxInt64
		}
		return vInt(rapid.OneOf(rapid.IntRange(-9, 9), rapid.IntRange(-lim, lim)).Draw(t, "i"))
	case 3:
		if codec == "nestext" {
			return vStr(codecText(t, codec))
		}
		return vBool(rapid.Bool().Draw(t, "b"))
	case 4:
		if codec == "nestext" {
			return vStr(codecText(t, codec))
		}
		if (codec == "hcl" || codec == "yaml" || codec == "json" || codec == "json-compact") && rapid.IntRange(0, 5).Draw(t, "single") == 0 {
			f := rapid.Float32Range(-1000, 1000).Draw(t, "f32") * rapid.SampledFrom([]float32{1, 1000, 1e-9}).Draw(t, "scale")
			return Val{K: "float32", S: strconv.FormatFloat(float64(f), 'g', -1, 32)}
		}
		if rapid.Bool().Draw(t, "wild") {
			f := rapid.Float64().Draw(t, "f")
			if a := math.Abs(f); a >= 1<<53 && a < 1<<64 {
				f *= 4096 // as text it would be another integer
			}
			return vFloat(f)
		}
		return vFloat(float64(rapid.IntRange(-1000000, 1000000).Draw(t, "f")) / 64)
	case 5:
		return genCodecDoc(t, codec, depth-1)
	default:
		if codec == "gob" {
			return genCodecDoc(t, codec, depth-1)
		}
		v := Val{K: "[]any", L: []Val{}}
		lo := 0
		if codec == "nestext" {
			lo = 1
		}
		for i := rapid.IntRange(lo, 4).Draw(t, "n"); i > 0; i-- {
			v.L = append(v.L, genCodecVal(t, codec, depth-1))
		}
		return v
	}
}

var codecKeys = []string{"a", "b", "ab", "name", "x-y", "x_y", "k1", "Upper", "日本", "with.dot", "0", "true"}

func genCodecDoc(t *rapid.T, codec string, depth int) Val {
	v := Val{K: "map", M: map[string]Val{}}
	lo := 0
	if codec == "nestext" {
		lo = 1
	}
	for i := rapid.SampledFrom([]int{lo, 1, 2, 3, 4, 5}).Draw(t, "width"); i > 0; i-- {
		k := rapid.SampledFrom(codecKeys).Draw(t, "key")
		if codec == "hcl" && (k == "with.dot" || k == "0") { // only identifiers
			k = "k0"
		}
		v.M[k] = genCodecVal(t, codec, depth)
	}
	return v
}

// canon brings the numbers of the formats to one form.
func canon(v any) any {
	switch z := v.(type) {
	case map[string]any:
		r := map[string]any{}
		for k, x := range z {
			r[k] = canon(x)
		}
		return r
	case []any:
		r := []any{}
		for _, x := range z {
			r = append(r, canon(x))
		}
		return r
	case int:
		return int64(z)
	case int8, int16, int32:
		return reflect.ValueOf(z).Int()
	case uint8, uint16, uint32:
		return int64(reflect.ValueOf(z).Uint())
	case uint:
		return canon(uint64(z))
	case uint64:
		if z <= math.MaxInt64 {
			return int64(z)
		}
	case float32: // what its shortest text says
		f, err := strconv.ParseFloat(strconv.FormatFloat(float64(z), 'g', -1, 32), 64)
		must(err)
		return canon(f)
	case float64:
		if z == math.Trunc(z) && math.Abs(z) < 1<<62 {
			return int64(z)
		}
	}
	return v
}

type c22 struct {
	Codec string `json:"codec"`
	Doc   Val    `json:"doc"`
	Doc2  Val    `json:"doc2"`
	At    string `json:"at,omitempty"`
	Junk  []byte `json:"junk,omitempty"`
	Cut   int    `json:"cut"`
}

func TestC22(t *testing.T) {
	Check(t, "C22", func(t *rapid.T) c22 {
		r := c22{Codec: rapid.SampledFrom(codecNames).Draw(t, "codec")}
		r.Doc = genCodecDoc(t, r.Codec, 3)
		if rapid.Bool().Draw(t, "section") { // at least one section, with a neighbour
			sub := genCodecDoc(t, r.Codec, 2)
			sub.M["in"] = genCodecVal(t, r.Codec, 1)
			r.Doc.M["sec"], r.Doc.M["se"] = sub, vStr("next")
		}
		r.Doc2 = genCodecDoc(t, r.Codec, 1)
		if rapid.Bool().Draw(t, "at") {
			r.At = rapid.SampledFrom([]string{"app", "app.conf", "x.y.z"}).Draw(t, "where")
		}
		if rapid.IntRange(0, 3).Draw(t, "junk?") == 0 {
			r.Junk = rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(t, "junk")
		}
		r.Cut = rapid.IntRange(0, 400).Draw(t, "cut")
		return r
	}, func(c *Ctx, h c22) {
		doc := h.Doc.Any().(map[string]any)
		codec := newCodec(h.Codec)
		b, err := codec.Marshal(doc)
		if err != nil {
			c.Failf("%s: Marshal of %s failed: %v", h.Codec, show(doc), err)
		}
		if h.Codec == "json" && len(doc) > 0 && !bytes.Contains(b, []byte("\n")) || h.Codec == "json-compact" && bytes.Contains(b, []byte("\n")) {
			c.Failf("%s: indentation is not as asked for: %q", h.Codec, b)
		}
		// what it wrote stays, whatever it writes and reads next
		b0 := string(b)
		if doc2, ok := h.Doc2.Any().(map[string]any); ok {
			for _, cd := range []store.Codec{codec, newCodec(h.Codec)} {
				b2, err := cd.Marshal(doc2)
				if err != nil {
					c.Failf("%s: Marshal of %s after another document failed: %v", h.Codec, show(doc2), err)
				}
				got, err := cd.Unmarshal(b2)
				if err != nil || (len(doc2) > 0 || len(got) > 0) && !eq(canon(got), canon(doc2)) {
					c.Failf("%s: %s, written after another document, came back as %s through %q, %v", h.Codec, show(doc2), show(got), b2, err)
				}
				if string(b) != b0 {
					c.Failf("%s: the encoded document %q changed to %q when %s was written", h.Codec, b0, b, show(doc2))
				}
			}
		}
		// Unmarshal is the inverse of Marshal, also in another instance
		for _, cd := range []store.Codec{codec, newCodec(h.Codec)} {
			got, err := cd.Unmarshal(b)
			if err != nil {
				c.Failf("%s: Unmarshal of %q failed: %v", h.Codec, b, err)
			}
			if len(doc) == 0 && len(got) == 0 {
				continue
			}
			if !eq(canon(got), canon(doc)) {
				c.Failf("%s: %s came back as %s through %q", h.Codec, show(doc), show(got), b)
			}
			if h.Codec == "gob" && !eq(got, doc) {
				c.Failf("gob: %s came back with other types: %s", show(doc), show(got))
			}
		}
		// the registry hands it out for its file extensions
		for _, ext := range codecExts[h.Codec] {
			get, ok := all.Codec(ext)
			if !ok || get == nil || all.MustCodec(ext) == nil || all.ExtCodecMap()[ext] == nil {
				c.Failf("there is no codec registered for %q", ext)
			}
			ref := newCodec(h.Codec)
			if h.Codec == "hcl" {
				ref = hcl.New()
			}
			want, err1 := ref.Unmarshal(b)
			for _, get := range []func() store.Codec{get, all.MustCodec(ext), all.ExtCodecMap()[ext]} {
				got, err2 := get().Unmarshal(b)
				if (err1 == nil) != (err2 == nil) || err1 == nil && !eq(canon(got), canon(want)) {
					c.Failf("the codec registered for %q reads %q as %s, %v; expected %s, %v", ext, b, show(got), err2, show(want), err1)
				}
			}
		}
		if h.Cut%4 == 0 { // another one can be registered, and taken away again
			n := len(all.ExtCodecMap())
			all.Register("x-verif", func() store.Codec { return codec })
			get, ok := all.Codec("x-verif")
			if !ok || get() != codec || len(all.ExtCodecMap()) != n+1 {
				c.Failf("a registered codec is not handed out")
			}
			all.Deregister("x-verif")
			if _, ok = all.Codec("x-verif"); ok || len(all.ExtCodecMap()) != n {
				c.Failf("a deregistered codec is still handed out")
			}
		}
		// through a store: save, load, save, the keys stay
		flat, clash := flatSource(h.At, ".", doc, false)
		if !clash && len(doc) > 0 {
			s := store.New()
			defer s.Close()
			p := &memProvider{rerr: store.ErrNotImplemented, bytes: b}
			opts := []store.LoadOpt{store.WithProvider(p), store.WithCodec(codec)}
			if h.At != "" {
				opts = append(opts, store.WithStorePrefix(h.At))
			}
			var ldr *store.Loader
			if _, err := s.Load(bg, append(opts, store.WithLoaderCopy(&ldr))...); err != nil {
				c.Failf("%s: Load of %q failed: %v", h.Codec, b, err)
			}
			got, err := s.GetM("")
			diffMaps(c, h.Codec+": the loaded keys", canon(got).(map[string]any), canon(flat).(map[string]any), err)
			out := &memProvider{}
			if err := ldr.SaveAs(bg, "", store.WithSaveAsProvider(out), store.WithSaveAsCodec(codec)); err != nil {
				c.Failf("%s: SaveAs failed: %v", h.Codec, err)
			}
			if len(flat) > 0 {
				s2 := store.New()
				defer s2.Close()
				p.bytes = out.wrote[0]
				if _, err := s2.Load(bg, opts...); err != nil {
					c.Failf("%s: Load of the saved document %q failed: %v", h.Codec, p.bytes, err)
				}
				again, err := s2.GetM("")
				diffMaps(c, h.Codec+": the keys saved and loaded again", canon(again).(map[string]any), canon(got).(map[string]any), err)
			}
		}
		// as a file, for the codecs that read files themselves
		if l, ok := codec.(interface {
			Load(file string) (map[string]any, error)
		}); ok && len(doc) > 0 && (h.Codec == "json" || h.Codec == "yaml") {
			f := filepath.Join(scratchDir(), "doc")
			must(os.WriteFile(f, b, 0o644))
			got, err := l.Load(f)
			if err != nil || !eq(canon(got), canon(doc)) {
				c.Failf("%s: file with %q loaded as %s, %v", h.Codec, b, show(got), err)
			}
			if _, err := l.Load(f + ".missing"); err == nil {
				c.Failf("%s: a missing file loads without an error", h.Codec)
			}
			if w, ok := codec.(interface {
				Save(file string, data map[string]any) error
			}); ok {
				if err := w.Save(f, doc); err != nil {
					c.Failf("%s: saving %s failed: %v", h.Codec, show(doc), err)
				}
				if got, err := l.Load(f); err != nil || !eq(canon(got), canon(doc)) {
					c.Failf("%s: %s saved to a file loads as %s, %v", h.Codec, show(doc), show(got), err)
				}
			}
		}
		// damaged input gives an error or a document, never a panic
		if h.Codec != "nestext" && h.Codec != "hjson" {
			bad := append([]byte(nil), b...)
			if len(bad) > 0 {
				bad = append(bad[:h.Cut%len(bad)], h.Junk...)
			}
			_, _ = codec.Unmarshal(bad)
		}
		nested := false
		for _, v := range doc {
			m, ok := v.(map[string]any)
			nested = nested || ok && len(m) > 0
		}
		c.NT(len(flat) > 1 && nested)
		c.Label(true, "codec="+h.Codec)
		c.Label(nested, "nested")
		c.Label(h.At != "", "below a store prefix")
	})
}

// looseNums is canon for documents that pass through formats which have floats only.
func looseNums(v any) any {
	switch z := v.(type) {
	case map[string]any:
		r := map[string]any{}
		for k, x := range z {
			r[k] = looseNums(x)
		}
		return r
	case []any:
		r := []any{}
		for _, x := range z {
			r = append(r, looseNums(x))
		}
		return r
	case int:
		return float64(z)
	case int64:
		return float64(z)
	case uint64:
		return float64(z)
	case int8, int16, int32:
		return float64(reflect.ValueOf(z).Int())
	case uint, uint8, uint16, uint32:
		return float64(reflect.ValueOf(z).Uint())
	}
	return v
}
