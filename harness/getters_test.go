package harness

import (
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/hedzr/store"
)

// ---------------------------------------------------------------- the getters, by name

var scalarTypes = map[string]reflect.Type{
	"Int": reflect.TypeFor[int](), "Int8": reflect.TypeFor[int8](), "Int16": reflect.TypeFor[int16](), "Int32": reflect.TypeFor[int32](), "Int64": reflect.TypeFor[int64](),
	"Uint": reflect.TypeFor[uint](), "Uint8": reflect.TypeFor[uint8](), "Uint16": reflect.TypeFor[uint16](), "Uint32": reflect.TypeFor[uint32](), "Uint64": reflect.TypeFor[uint64](),
	"Float64": reflect.TypeFor[float64](), "Float32": reflect.TypeFor[float32](),
	"Complex128": reflect.TypeFor[complex128](), "Complex64": reflect.TypeFor[complex64](),
	"String": reflect.TypeFor[string](), "Bool": reflect.TypeFor[bool](),
	"Duration": reflect.TypeFor[time.Duration](), "Time": reflect.TypeFor[time.Time](),
}

var scalarNames = sortedKeys(scalarTypes)

func callGetter(s any, name string, path string, defs ...reflect.Value) (ret any, err error) {
	m := reflect.ValueOf(s).MethodByName(name)
	if !m.IsValid() {
		panic("HARNESS-ERROR: no method " + name)
	}
	out := m.Call(append([]reflect.Value{reflect.ValueOf(path)}, defs...))
	ret = out[0].Interface()
	if len(out) > 1 && !out[1].IsNil() {
		err = out[1].Interface().(error)
	}
	return
}

// bigOf returns the integer a value stands for.
func bigOf(v any) (*big.Int, bool) {
	rv := reflect.ValueOf(v)
	if _, ok := v.(time.Duration); ok {
		return nil, false
	}
	switch {
	case rv.IsValid() && rv.CanInt():
		return big.NewInt(rv.Int()), true
	case rv.IsValid() && rv.CanUint():
		return new(big.Int).SetUint64(rv.Uint()), true
	}
	return nil, false
}

func fitsInt(b *big.Int, typ reflect.Type) (any, bool) {
	r := reflect.New(typ).Elem()
	if r.CanInt() {
		if !b.IsInt64() || r.OverflowInt(b.Int64()) {
			return nil, false
		}
		r.SetInt(b.Int64())
		return r.Interface(), true
	}
	if !b.IsUint64() || r.OverflowUint(b.Uint64()) {
		return nil, false
	}
	r.SetUint(b.Uint64())
	return r.Interface(), true
}

var boolWords = map[string]bool{"true": true, "false": false, "yes": true, "no": false, "on": true, "off": false, "1": true, "0": false, "y": true, "n": false, "t": true, "f": false}

func isDecimal(s string) bool {
	d := strings.TrimPrefix(s, "-")
	if d == "" || s == "-0" {
		return false
	}
	return strings.Trim(d, "0123456789") == ""
}

// convert says what the getter of type name must give for the stored value
// v; ok is false where nothing is promised (lossy or exotic conversions).
func convert(v any, name string) (want any, ok bool) {
	typ := scalarTypes[name]
	if v != nil && reflect.TypeOf(v) == typ {
		return v, true
	}
	small := func(b *big.Int, bits int) (float64, bool) {
		if !b.IsInt64() {
			return 0, false
		}
		i := b.Int64()
		if i > 1<<bits || i < -1<<bits {
			return 0, false
		}
		return float64(i), true
	}
	fromInt := func(b *big.Int, text bool) (any, bool) {
		switch name {
		case "Float64":
			if f, ok := small(b, 53); ok {
				return f, true
			}
		case "Float32":
			if f, ok := small(b, 24); ok {
				return float32(f), true
			}
		case "Complex128":
			// (evendeep parses complex text with float32 precision)
			bits := 53
			if text {
				bits = 24
			}
			if f, ok := small(b, bits); ok {
				return complex(f, 0), true
			}
		case "Complex64":
			if f, ok := small(b, 24); ok {
				return complex64(complex(f, 0)), true
			}
		case "Bool":
			if !text {
				return b.Sign() != 0, true
			}
		case "Duration":
			if !text && b.IsInt64() {
				return time.Duration(b.Int64()), true
			}
		case "String":
			if !text {
				return b.String(), true
			}
		case "Time":
		default:
			if text && !b.IsInt64() {
				return nil, false // (evendeep goes through a float for text beyond int64)
			}
			return fitsInt(b, typ)
		}
		return nil, false
	}
	fromFloat := func(f float64, text bool) (any, bool) {
		switch name {
		case "Float64":
			return f, true
		case "Float32":
			if float64(float32(f)) == f {
				return float32(f), true
			}
		case "Complex128":
			if !text || float64(float32(f)) == f {
				return complex(f, 0), true
			}
		case "Complex64":
			if float64(float32(f)) == f {
				return complex64(complex(f, 0)), true
			}
		case "Int", "Int8", "Int16", "Int32", "Int64", "Uint", "Uint8", "Uint16", "Uint32", "Uint64":
			if !text && f == math.Trunc(f) && math.Abs(f) < 1<<53 {
				return fitsInt(big.NewInt(int64(f)), typ)
			}
		}
		return nil, false
	}
	if b, isInt := bigOf(v); isInt {
		return fromInt(b, false)
	}
	switch z := v.(type) {
	case float64:
		return fromFloat(z, false)
	case float32:
		return fromFloat(float64(z), false)
	case bool:
		if name == "String" {
			return strconv.FormatBool(z), true
		}
	case time.Duration:
		switch name {
		case "String":
			return z.String(), true
		case "Int64", "Int":
			return reflect.ValueOf(int64(z)).Convert(typ).Interface(), true
		}
	case complex128:
		if name == "Complex64" && complex128(complex64(z)) == z {
			return complex64(z), true
		}
	case complex64:
		if name == "Complex128" {
			return complex128(z), true
		}
	case string:
		if name == "Bool" {
			b, ok := boolWords[z]
			return b, ok
		}
		if isDecimal(z) {
			b, _ := new(big.Int).SetString(z, 10)
			return fromInt(b, true)
		}
		switch name {
		case "Duration":
			if d, err := time.ParseDuration(z); err == nil {
				return d, true
			}
		case "Time":
			if tm, err := time.Parse(time.RFC3339, z); err == nil {
				return tm, true
			}
		case "Float64", "Float32", "Complex128", "Complex64":
			if f, err := strconv.ParseFloat(z, 64); err == nil && strings.Trim(z, "-0123456789.") == "" {
				return fromFloat(f, true)
			}
		}
	}
	return nil, false
}

func sameScalar(a, b any) bool {
	if x, ok := a.(time.Time); ok {
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	}
	return eq(a, b)
}

func genTyped(t *rapid.T, name string) Val {
	switch name {
	case "Int", "Int64", "Int32", "Int16", "Int8":
		bits := map[string]int{"Int": 64, "Int64": 64, "Int32": 32, "Int16": 16, "Int8": 8}[name]
		i := rapid.OneOf(rapid.Int64(), rapid.Int64Range(-130, 300), rapid.SampledFrom([]int64{math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, math.MaxInt16, math.MinInt16, math.MaxInt8, math.MinInt8, 0, 1, -1, 1 << 40, 1 << 24, 1 << 53})).Draw(t, "i")
		i = i << (64 - bits) >> (64 - bits)
		return Val{K: strings.ToLower(name), S: strconv.FormatInt(i, 10)}
	case "Uint", "Uint64", "Uint32", "Uint16", "Uint8":
		bits := map[string]int{"Uint": 64, "Uint64": 64, "Uint32": 32, "Uint16": 16, "Uint8": 8}[name]
		i := rapid.OneOf(rapid.Uint64(), rapid.Uint64Range(0, 300), rapid.SampledFrom([]uint64{math.MaxUint64, math.MaxInt64, math.MaxUint32, math.MaxInt32, math.MaxUint16, math.MaxInt16, 255, 127, 0, 1, 1 << 40})).Draw(t, "u")
		i = i << (64 - bits) >> (64 - bits)
		return Val{K: strings.ToLower(name), S: strconv.FormatUint(i, 10)}
	case "Float64":
		return vFloat(genFloat(t, "f"))
	case "Float32":
		return Val{K: "float32", S: strconv.FormatFloat(float64(float32(genFloat(t, "f"))), 'g', -1, 64)}
	case "Complex128", "Complex64":
		re, im := float64(rapid.IntRange(-99, 99).Draw(t, "re"))/4, float64(rapid.IntRange(-99, 99).Draw(t, "im"))/4
		return Val{K: strings.ToLower(name), S: strconv.FormatComplex(complex(re, im), 'g', -1, 128)}
	case "Bool":
		return vBool(rapid.Bool().Draw(t, "b"))
	case "Duration":
		return Val{K: "dur", S: strconv.FormatInt(rapid.OneOf(rapid.Int64(), rapid.Int64Range(-1000, 1000), rapid.SampledFrom([]int64{0, int64(time.Second), int64(90 * time.Minute)})).Draw(t, "d"), 10)}
	case "Time":
		return Val{K: "time", S: time.Unix(rapid.Int64Range(-1e9, 4e9).Draw(t, "sec"), int64(rapid.SampledFrom([]int{0, 0, 500000000, 123456789}).Draw(t, "nsec"))).UTC().Format(time.RFC3339Nano)}
	default: // text which stands for something
		switch rapid.IntRange(0, 6).Draw(t, "text") {
		case 0:
			return vStr(genTyped(t, rapid.SampledFrom([]string{"Int8", "Int16", "Int32", "Int64", "Uint64"}).Draw(t, "of")).S)
		case 6: // padded
			return vStr(rapid.SampledFrom([]string{"", "-"}).Draw(t, "sign") + strings.Repeat("0", rapid.IntRange(1, 3).Draw(t, "zeros")) + strconv.Itoa(rapid.IntRange(1, 9000).Draw(t, "n")))
		case 1:
			return vStr(strconv.FormatFloat(float64(rapid.IntRange(-4000, 4000).Draw(t, "f"))/8, 'f', -1, 64))
		case 2:
			return vStr(rapid.SampledFrom(sortedKeys(boolWords)).Draw(t, "w"))
		case 3:
			return vStr(time.Duration(rapid.Int64Range(0, 1e14).Draw(t, "d")).String())
		case 4:
			return vStr(time.Unix(rapid.Int64Range(0, 4e9).Draw(t, "sec"), 0).UTC().Format(time.RFC3339))
		default:
			return vStr(genText(t, "s"))
		}
	}
}

// ---------------------------------------------------------------- C14

type c14 struct {
	Hist
	Key  string `json:"key"`  // the key under test
	X    Val    `json:"x"`    // its value
	As   string `json:"as"`   // the getter
	Def  Val    `json:"def"`  // the default
	Miss string `json:"miss"` // a path which may not exist
}

func TestC14(t *testing.T) {
	Check(t, "C14", func(t *rapid.T) c14 {
		h := c14{Hist: genHist(t, HistOpts{Ops: []string{"set", "set", "remove"}, Max: 8, Delims: true, Val: genScalar})}
		g := newKeyGen(t, h.Delim)
		for _, op := range h.Ops {
			g.Seen = append(g.Seen, op.K)
		}
		h.Key = g.Key(t)
		h.As = rapid.SampledFrom(scalarNames).Draw(t, "as")
		src := h.As
		if rapid.IntRange(0, 3).Draw(t, "conv") > 0 {
			src = rapid.SampledFrom(append([]string{"String", "String", "Int", "Float64"}, scalarNames...)).Draw(t, "src")
		}
		h.X = genTyped(t, src)
		h.Def = genTyped(t, h.As)
		h.Miss = g.Path(t)
		return h
	}, func(c *Ctx, h c14) {
		w := newWorld(c, h.Kind, h.Delim)
		defer w.S.Close()
		for _, op := range h.Ops {
			w.Apply(op)
		}
		w.Apply(Op{Op: "set", K: h.Key, X: &h.X})
		typ := scalarTypes[h.As]
		def := reflect.ValueOf(h.Def.Any())

		if want, ok := convert(h.X.Any(), h.As); ok {
			if reflect.TypeOf(want) != typ {
				panic("HARNESS-ERROR: oracle of " + h.As)
			}
			for _, d := range [][]reflect.Value{nil, {def}} {
				got, err := callGetter(w.S.common, "Get"+h.As, h.Key, d...)
				if err != nil || !sameScalar(got, want) {
					c.Failf("Get%s(%q) of %s = %s, %v; expected %s", h.As, h.Key, show(h.X.Any()), show(got), err, show(want))
				}
				got, _ = callGetter(w.S.common, "Must"+h.As, h.Key, d...)
				if !sameScalar(got, want) {
					c.Failf("Must%s(%q) of %s = %s; expected %s", h.As, h.Key, show(h.X.Any()), show(got), show(want))
				}
			}
			c.NT(true)
			c.Label(reflect.TypeOf(h.X.Any()) != typ, "converted")
			c.Label(reflect.TypeOf(h.X.Any()) == typ, "same type")
			c.Label(reflect.ValueOf(want).IsZero(), "zero value present")
			c.Label(true, "as "+h.As)
		}
		if !w.M.has(h.Miss) {
			zero := reflect.Zero(typ).Interface()
			got, err := callGetter(w.S.common, "Get"+h.As, h.Miss)
			if !sameScalar(got, zero) || !store.ErrorIsNotFound(err) {
				c.Failf("Get%s(%q) of a missing key = %s, %v", h.As, h.Miss, show(got), err)
			}
			if got, _ = callGetter(w.S.common, "Must"+h.As, h.Miss); !sameScalar(got, zero) {
				c.Failf("Must%s(%q) of a missing key = %s", h.As, h.Miss, show(got))
			}
			if got, err = callGetter(w.S.common, "Get"+h.As, h.Miss, def); !sameScalar(got, h.Def.Any()) {
				c.Failf("Get%s(%q) of a missing key = %s, %v; expected the default %s", h.As, h.Miss, show(got), err, show(h.Def.Any()))
			}
			if got, _ = callGetter(w.S.common, "Must"+h.As, h.Miss, def); !sameScalar(got, h.Def.Any()) {
				c.Failf("Must%s(%q) of a missing key = %s; expected the default %s", h.As, h.Miss, show(got), show(h.Def.Any()))
			}
			c.Label(true, "missing key")
		}
		// reading does not change anything
		w.checkReads(w.S, "", nil)
	})
}

// ---------------------------------------------------------------- C15

type c15 struct {
	Kind string         `json:"kind"`
	D    string         `json:"d"`    // delimiter
	View string         `json:"view"` // read through this prefix
	Key  string         `json:"key"`
	As   string         `json:"as"`   // element type of the getter
	Map  bool           `json:"map"`  // a map, or a slice
	Src  string         `json:"src"`  // typed | any | string | int | float
	L    []Val          `json:"l"`    // elements
	N    []string       `json:"n"`    // names (map)
	Def  Val            `json:"def"`  //
	Oth  map[string]Val `json:"oth"`  // other keys
	Miss string         `json:"miss"` //
}

func TestC15(t *testing.T) {
	Check(t, "C15", func(t *rapid.T) c15 {
		h := c15{Kind: rapid.SampledFrom([]string{"store", "trie"}).Draw(t, "kind"), D: rapid.SampledFrom([]string{".", ".", "/"}).Draw(t, "delim")}
		g := newKeyGen(t, h.D)
		if rapid.IntRange(0, 2).Draw(t, "view?") == 0 {
			h.View = g.Path(t)
		}
		h.Oth = map[string]Val{}
		for i := rapid.IntRange(0, 4).Draw(t, "others"); i > 0; i-- {
			h.Oth[g.Key(t)] = genScalar(t, "val")
		}
		h.Key = g.Key(t)
		h.As = rapid.SampledFrom(scalarNames).Draw(t, "as")
		h.Map = rapid.Bool().Draw(t, "map")
		h.Src = rapid.SampledFrom([]string{"typed", "typed", "any", "string", "int", "float"}).Draw(t, "src")
		n := rapid.IntRange(0, 5).Draw(t, "n")
		if rapid.IntRange(0, 15).Draw(t, "long") == 0 {
			n = rapid.IntRange(6, 70).Draw(t, "nlong")
		}
		for i := 0; i < n; i++ {
			var v Val
			switch h.Src {
			case "typed":
				v = genTyped(t, h.As)
			case "any":
				v = genTyped(t, rapid.SampledFrom([]string{h.As, "Int", "String", "Float64"}).Draw(t, "elem"))
			case "string":
				v = genTyped(t, "String")
			case "int":
				v = genTyped(t, "Int")
			case "float":
				v = genTyped(t, "Float64")
			}
			h.L = append(h.L, v)
			h.N = append(h.N, rapid.SampledFrom([]string{"a", "b", "c.d", "日", "k1", "", "k" + strconv.Itoa(i)}).Draw(t, "name"))
		}
		h.Def = genTyped(t, h.As)
		h.Miss = g.Path(t)
		return h
	}, func(c *Ctx, h c15) {
		s := newSUT(h.Kind, h.D)
		defer s.Close()
		if h.View != "" {
			s = s.WithPrefix(h.View)
		}
		m := newModel(h.D)
		for k, v := range h.Oth {
			s.Set(k, v.Any())
			m.set(k, v.Any())
		}
		typ := scalarTypes[h.As]
		srcTyp := map[string]reflect.Type{"typed": typ, "any": reflect.TypeFor[any](), "string": reflect.TypeFor[string](), "int": reflect.TypeFor[int](), "float": reflect.TypeFor[float64]()}[h.Src]
		claimed := sliceClaim(h.Src, h.As, h.Map)
		var src, want, def, empty any
		name := h.As + "Slice"
		if h.Map {
			name = h.As + "Map"
			sm := reflect.MakeMap(reflect.MapOf(reflect.TypeFor[string](), srcTyp))
			wm := reflect.MakeMap(reflect.MapOf(reflect.TypeFor[string](), typ))
			for i, v := range h.L {
				x, ok := convert(v.Any(), h.As)
				if !ok {
					claimed = false
					break
				}
				sm.SetMapIndex(reflect.ValueOf(h.N[i]), reflect.ValueOf(v.Any()))
				wm.SetMapIndex(reflect.ValueOf(h.N[i]), reflect.ValueOf(x))
			}
			dm := reflect.MakeMap(wm.Type())
			dm.SetMapIndex(reflect.ValueOf("def"), reflect.ValueOf(h.Def.Any()))
			src, want, def, empty = sm.Interface(), wm.Interface(), dm.Interface(), reflect.Zero(wm.Type()).Interface()
		} else {
			ss := reflect.MakeSlice(reflect.SliceOf(srcTyp), 0, len(h.L))
			ws := reflect.MakeSlice(reflect.SliceOf(typ), 0, len(h.L))
			for _, v := range h.L {
				x, ok := convert(v.Any(), h.As)
				if !ok {
					claimed = false
					break
				}
				ss = reflect.Append(ss, reflect.ValueOf(v.Any()))
				ws = reflect.Append(ws, reflect.ValueOf(x))
			}
			ds := reflect.Append(reflect.MakeSlice(ws.Type(), 0, 1), reflect.ValueOf(h.Def.Any()))
			src, want, def, empty = ss.Interface(), ws.Interface(), ds.Interface(), reflect.Zero(ws.Type()).Interface()
		}
		defs := []reflect.Value{reflect.ValueOf(def)}
		if !h.Map {
			defs = []reflect.Value{reflect.ValueOf(h.Def.Any())} // variadic
		}
		if claimed {
			s.Set(h.Key, src)
			m.set(h.Key, src)
			for _, d := range [][]reflect.Value{nil, defs} {
				got, err := callGetter(s.common, "Get"+name, h.Key, d...)
				if err != nil || !sameList(got, want) {
					c.Failf("Get%s(%q) of %s = %s, %v; expected %s", name, h.Key, show(src), show(got), err, show(want))
				}
				if got, _ = callGetter(s.common, "Must"+name, h.Key, d...); !sameList(got, want) {
					c.Failf("Must%s(%q) of %s = %s; expected %s", name, h.Key, show(src), show(got), show(want))
				}
			}
			if g, _ := s.Get(h.Key); !eq(g, src) {
				c.Failf("reading changed the value of %q", h.Key)
			}
			c.NT(len(h.L) > 1)
			c.Label(h.Map, "map")
			c.Label(!h.Map, "slice")
			c.Label(h.Src != "typed", "converted elements")
			c.Label(len(h.L) == 0, "empty")
			c.Label(true, "as "+h.As)
		}
		if !m.has(h.Miss) {
			got, err := callGetter(s.common, "Get"+name, h.Miss)
			if !sameList(got, empty) || !store.ErrorIsNotFound(err) {
				c.Failf("Get%s(%q) of a missing key = %s, %v", name, h.Miss, show(got), err)
			}
			if got, err = callGetter(s.common, "Get"+name, h.Miss, defs...); !sameList(got, def) {
				c.Failf("Get%s(%q) of a missing key = %s, %v; expected the default %s", name, h.Miss, show(got), err, show(def))
			}
			if got, _ = callGetter(s.common, "Must"+name, h.Miss, defs...); !sameList(got, def) {
				c.Failf("Must%s(%q) of a missing key = %s; expected the default %s", name, h.Miss, show(got), show(def))
			}
			c.Label(true, "missing key")
		}
	})
}

// sliceClaim tells which conversions of the elements are promised.
func sliceClaim(src, as string, isMap bool) bool {
	num := strings.HasPrefix(as, "Int") || strings.HasPrefix(as, "Uint") || strings.HasPrefix(as, "Float")
	switch src {
	case "typed":
		return true
	case "any", "string":
		return num || as == "String"
	default:
		return num || as == "String" && !isMap
	}
}

func sameList(a, b any) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if x.Type() != y.Type() || x.Len() != y.Len() {
		return false
	}
	if x.Kind() == reflect.Map {
		for _, k := range x.MapKeys() {
			e := y.MapIndex(k)
			if !e.IsValid() || !sameScalar(x.MapIndex(k).Interface(), e.Interface()) {
				return false
			}
		}
		return true
	}
	for i := 0; i < x.Len(); i++ {
		if !sameScalar(x.Index(i).Interface(), y.Index(i).Interface()) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- C16

type c16 struct {
	Kilo   bool   `json:"kilo"`
	Num    string `json:"num"`
	Gap    string `json:"gap,omitempty"`
	Unit   string `json:"unit,omitempty"`
	Tail   string `json:"tail,omitempty"`
	Pad    string `json:"pad,omitempty"`
	AsInt  bool   `json:"asint,omitempty"` // stored as a number
	Def    uint64 `json:"def"`
	Kind   string `json:"kind"`
	Prefix string `json:"prefix,omitempty"`
}

func TestC16(t *testing.T) {
	Check(t, "C16", func(t *rapid.T) c16 {
		h := c16{Kilo: rapid.Bool().Draw(t, "kilo"), Kind: rapid.SampledFrom([]string{"store", "trie"}).Draw(t, "kind")}
		h.Unit = rapid.SampledFrom([]string{"", "k", "m", "g", "t", "p", "e", "K", "M", "G", "T", "P", "E"}).Draw(t, "unit")
		if h.Kilo {
			h.Tail = rapid.SampledFrom([]string{"", "B"}).Draw(t, "tail")
		} else {
			h.Tail = rapid.SampledFrom([]string{"", "iB"}).Draw(t, "tail")
		}
		if h.Unit == "" {
			h.Tail = ""
		}
		h.Gap = rapid.SampledFrom([]string{"", "", " ", "\u00a0", "\u2003"}).Draw(t, "gap")
		max := new(big.Int).Div(new(big.Int).SetUint64(math.MaxUint64), big.NewInt(int64(unitOf(h.Unit, h.Kilo)))).Uint64()
		switch rapid.IntRange(0, 3).Draw(t, "form") {
		case 0:
			h.Num = strconv.FormatUint(rapid.OneOf(rapid.Uint64Range(0, max), rapid.Uint64Range(0, min(max, 2048)), rapid.Just(max)).Draw(t, "n"), 10)
		case 1: // hexadecimal; a trailing digit which is a unit letter would be ambiguous
			h.Num = "0x" + strconv.FormatUint(rapid.Uint64Range(0, max).Draw(t, "n"), 16)
			if strings.Trim(h.Num[len(h.Num)-1:], "eb") == "" {
				h.Num = "0x10"
				if max < 16 {
					h.Num = "0x7"
				}
			}
		case 2: // octal
			h.Num = "0" + strconv.FormatUint(rapid.Uint64Range(0, max).Draw(t, "n"), 8)
		default: // a fraction, exact in binary and small enough to be exact after scaling
			h.Num = strconv.FormatFloat(float64(rapid.IntRange(0, 31).Draw(t, "q"))/4, 'f', 2, 64)
		}
		h.AsInt = h.Unit == "" && rapid.Bool().Draw(t, "asint")
		h.Def = rapid.Uint64().Draw(t, "def")
		h.Pad = rapid.SampledFrom([]string{"", " ", "\u00a0"}).Draw(t, "pad")
		return h
	}, func(c *Ctx, h c16) {
		s := newSUT(h.Kind, ".")
		defer s.Close()
		text := h.Pad + h.Num + h.Gap + h.Unit + h.Tail + h.Pad
		unit := unitOf(h.Unit, h.Kilo)
		var want uint64
		if strings.Contains(h.Num, ".") {
			f, err := strconv.ParseFloat(h.Num, 64)
			must(err)
			want = uint64(f * float64(unit)) // exact: multiples of 1/4 below 8
		} else {
			n, err := strconv.ParseUint(h.Num, 0, 64)
			must(err)
			want = n * unit
			if h.AsInt {
				s.Set("size.limit", n)
			}
		}
		if !h.AsInt || strings.Contains(h.Num, ".") {
			s.Set("size.limit", text)
		}
		s.Set("size.limits", "7k")
		name := "KibiBytes"
		if h.Kilo {
			name = "KiloBytes"
		}
		for _, d := range [][]reflect.Value{nil, {reflect.ValueOf(h.Def)}} {
			got, err := callGetter(s.common, "Get"+name, "size.limit", d...)
			if err != nil || got != want {
				c.Failf("Get%s of %q = %v, %v; expected %d", name, text, got, err, want)
			}
			if got, _ = callGetter(s.common, "Must"+name, "size.limit", d...); got != want {
				c.Failf("Must%s of %q = %v; expected %d", name, text, got, want)
			}
		}
		got, err := callGetter(s.common, "Get"+name, "size.missing", reflect.ValueOf(h.Def))
		if got != h.Def {
			c.Failf("Get%s of a missing key = %v, %v; expected the default %d", name, got, err, h.Def)
		}
		if got, err = callGetter(s.common, "Get"+name, "size.missing"); got != uint64(0) || !store.ErrorIsNotFound(err) {
			c.Failf("Get%s of a missing key = %v, %v", name, got, err)
		}
		if got, _ = callGetter(s.common, "Must"+name, "size.missing", reflect.ValueOf(h.Def)); got != h.Def {
			c.Failf("Must%s of a missing key = %v; expected the default %d", name, got, h.Def)
		}
		c.NT(want > 0 && h.Unit != "")
		c.Label(h.Kilo, "kilo")
		c.Label(len(h.Gap) > 1 || len(h.Pad) > 1, "Unicode space")
		c.Label(strings.HasPrefix(h.Num, "0x"), "hexadecimal")
		c.Label(strings.Contains(h.Num, "."), "fraction")
		c.Label(h.Tail != "", "with B/iB")
		c.Label(h.Unit != "", "with unit")
	})
}

func unitOf(u string, kilo bool) uint64 {
	base := uint64(1024)
	if kilo {
		base = 1000
	}
	r := uint64(1)
	for i := 0; i <= strings.Index("kmgtpe", strings.ToLower(u)) && u != ""; i++ {
		r *= base
	}
	return r
}
