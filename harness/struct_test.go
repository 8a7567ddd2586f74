package harness

import (
	"reflect"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
)

// ---------------------------------------------------------------- C17: filling structs

// field describes one field of a generated struct type.
type field struct {
	N   string  `json:"n"`             // name
	K   string  `json:"k"`             // kind
	Sub []field `json:"sub,omitempty"` // of a struct
	V   *Val    `json:"v,omitempty"`   // what is stored for it
	As  string  `json:"as,omitempty"`  // stored as this type
}

type c17 struct {
	Kind    string         `json:"kind"`
	Delim   string         `json:"delim"`
	View    string         `json:"view,omitempty"`
	At      string         `json:"at"`
	F       []field        `json:"f"`
	Other   map[string]Val `json:"other,omitempty"`
	Extra   map[string]Val `json:"extra,omitempty"`
	Missing []string       `json:"missing,omitempty"`
	How     string         `json:"how"`
	Seed    uint32         `json:"seed"`
}

var fieldTypes = map[string]reflect.Type{
	"bool": reflect.TypeFor[bool](), "int": reflect.TypeFor[int](), "int8": reflect.TypeFor[int8](), "int16": reflect.TypeFor[int16](),
	"int32": reflect.TypeFor[int32](), "int64": reflect.TypeFor[int64](), "uint": reflect.TypeFor[uint](), "uint8": reflect.TypeFor[uint8](),
	"uint16": reflect.TypeFor[uint16](), "uint32": reflect.TypeFor[uint32](), "uint64": reflect.TypeFor[uint64](),
	"float64": reflect.TypeFor[float64](), "string": reflect.TypeFor[string](), "dur": reflect.TypeFor[time.Duration](),
	"[]any": reflect.TypeFor[[]any](), "[]string": reflect.TypeFor[[]string](), "[]int": reflect.TypeFor[[]int](),
}

func (f field) stored() any {
	v := *f.V
	if f.As != "" {
		v.K = f.As
	}
	return v.Any()
}

func (f field) wanted() reflect.Value {
	if f.K != "[]struct" {
		return reflect.ValueOf(f.V.Any())
	}
	typ := structOf(f.Sub)
	r := reflect.MakeSlice(reflect.SliceOf(typ), len(f.V.L), len(f.V.L))
	for i, e := range f.V.L {
		for j, x := range f.Sub {
			if v, ok := e.M[strings.ToLower(x.N)]; ok {
				r.Index(i).Field(j).Set(reflect.ValueOf(v.Any()))
			}
		}
	}
	return r
}

var fieldKinds = []string{"bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float64", "string", "string", "dur", "[]any", "[]string", "[]int"}

func structOf(fs []field) reflect.Type {
	var r []reflect.StructField
	for _, f := range fs {
		typ := fieldTypes[f.K]
		if f.K == "struct" {
			typ = structOf(f.Sub)
		}
		if f.K == "[]struct" {
			typ = reflect.SliceOf(structOf(f.Sub))
		}
		r = append(r, reflect.StructField{Name: f.N, Type: typ})
	}
	return reflect.StructOf(r)
}

var fieldNames = []string{"A", "B", "Ab", "Abc", "Name", "Port", "Named", "X1", "Server", "Serve"}

func genFields(t *rapid.T, depth int) (r []field) {
	names := rapid.Permutation(fieldNames).Draw(t, "names")
	for _, n := range names[:rapid.IntRange(1, 5).Draw(t, "nfields")] {
		f := field{N: n, K: rapid.SampledFrom(fieldKinds).Draw(t, "kind")}
		if depth > 0 && rapid.IntRange(0, 2).Draw(t, "sub?") == 0 {
			f.K = "struct"
			f.Sub = genFields(t, depth-1)
		} else if depth > 0 && rapid.IntRange(0, 5).Draw(t, "list?") == 0 {
			f.K = "[]struct"
			f.Sub = genFields(t, 0)
			v := Val{K: "[]any"}
			for i := rapid.IntRange(1, 3).Draw(t, "nlist"); i > 0; i-- {
				e := Val{K: "map", M: map[string]Val{}}
				for _, x := range f.Sub {
					if rapid.IntRange(0, 3).Draw(t, "has") > 0 {
						e.M[strings.ToLower(x.N)] = genOfKind(t, x.K)
					}
				}
				v.L = append(v.L, e)
			}
			f.V = &v
		} else {
			if rapid.IntRange(0, 3).Draw(t, "stored") > 0 {
				v := genOfKind(t, f.K)
				if as := rapid.SampledFrom([]string{"", "", "int", "int64", "float64"}).Draw(t, "as"); as != "" && strings.Contains(f.K, "int") && f.K[0] != '[' {
					if len(v.S) > 15 {
						v.S = v.S[:15] // exact in a float
					}
					f.As = as
				}
				f.V = &v
			}
		}
		r = append(r, f)
	}
	return
}

func genOfKind(t *rapid.T, k string) Val {
	switch k {
	case "bool":
		return vBool(rapid.Bool().Draw(t, "bool"))
	case "string":
		return vStr(genText(t, "str"))
	case "float64":
		return vFloat(rapid.Float64Range(-1e9, 1e9).Draw(t, "float"))
	case "dur":
		v := vInt(rapid.IntRange(-1e12, 1e12).Draw(t, "dur"))
		v.K = "dur"
		return v
	case "[]any", "[]string", "[]int":
		v := Val{K: k}
		for i := rapid.IntRange(1, 3).Draw(t, "len"); i > 0; i-- {
			switch k {
			case "[]int":
				v.L = append(v.L, vInt(rapid.IntRange(-99, 99).Draw(t, "e")))
			case "[]string":
				v.L = append(v.L, vStr(genText(t, "e")))
			default:
				v.L = append(v.L, rapid.SampledFrom([]Val{vInt(1), vStr("x"), vBool(true), vFloat(1.5)}).Draw(t, "e"))
			}
		}
		return v
	}
	bits := map[string]int{"int": 63, "int8": 7, "int16": 15, "int32": 31, "int64": 63, "uint": 63, "uint8": 8, "uint16": 16, "uint32": 32, "uint64": 63}[k]
	hi := 1<<bits - 1
	lo := 0
	if !strings.HasPrefix(k, "u") {
		lo = -hi - 1
	}
	v := vInt(rapid.IntRange(lo, hi).Draw(t, "int"))
	v.K = k
	return v
}

func TestC17(t *testing.T) {
	Check(t, "C17", func(t *rapid.T) c17 {
		delim := rapid.SampledFrom([]string{".", ".", "/", "|"}).Draw(t, "delim")
		g := newKeyGen(t, delim)
		r := c17{Delim: delim, Kind: rapid.SampledFrom([]string{"store", "trie"}).Draw(t, "kind"), F: genFields(t, 2),
			Seed: rapid.Uint32().Draw(t, "seed"), How: rapid.SampledFrom([]string{"To", "GetSectionFrom"}).Draw(t, "how"), Other: map[string]Val{}, Extra: map[string]Val{}}
		if rapid.IntRange(0, 3).Draw(t, "root") > 0 {
			r.At = g.Path(t)
		}
		if rapid.IntRange(0, 2).Draw(t, "view?") == 0 {
			r.View = g.Path(t)
		}
		for i := rapid.IntRange(0, 3).Draw(t, "nother"); i > 0; i-- {
			k := g.Key(t)
			if r.At != "" && rapid.Bool().Draw(t, "near") {
				k = r.At + rapid.SampledFrom([]string{"x", "1", "z" + delim + "a"}).Draw(t, "suffix") + delim + strings.ToLower(rapid.SampledFrom(fieldNames).Draw(t, "fn"))
			}
			r.Other[k] = genScalar(t, "otherval")
		}
		for i := rapid.IntRange(0, 3).Draw(t, "nmissing"); i > 0; i-- {
			r.Missing = append(r.Missing, g.Path(t))
		}
		if len(r.At) > 1 && r.At[len(r.At)-2:len(r.At)-1] != delim && r.At[len(r.At)-1] < 0x80 {
			r.Missing = append(r.Missing, r.At[:len(r.At)-1], r.At+"x")
		}
		for i := rapid.IntRange(0, 2).Draw(t, "nextra"); i > 0; i-- {
			r.Extra["zz"+rapid.SampledFrom([]string{"a", "name", "q" + delim + "b"}).Draw(t, "extra")] = genScalar(t, "extraval")
		}
		return r
	}, func(c *Ctx, h c17) {
		s := newSUT(h.Kind, h.Delim)
		defer s.Close()
		if h.View != "" {
			s = s.WithPrefix(h.View)
		}
		m := newModel(h.Delim)
		// what is outside of the section; it must not clash with it
		stored := 0
		var put func(at string, fs []field)
		put = func(at string, fs []field) {
			for _, f := range fs {
				k := m.join(at, strings.ToLower(f.N))
				if f.K == "struct" {
					put(k, f.Sub)
				} else if f.V != nil {
					m.set(k, f.stored())
					stored++
				}
			}
		}
		put(h.At, h.F)
		if stored == 0 {
			return
		}
		for k, v := range h.Extra {
			if k = m.join(h.At, k); !m.clashes(k) {
				m.set(k, v.Any())
			}
		}
		for k, v := range h.Other {
			if h.At == "" || k == h.At || m.under(h.At, k) || m.under(k, h.At) {
				continue // inside of the section
			}
			if m.M[k] == nil && !m.clashes(k) {
				m.set(k, v.Any())
			}
		}
		for k, e := range m.M {
			s.Set(k, e.Val)
		}

		typ := structOf(h.F)
		holder, want := reflect.New(typ), reflect.New(typ).Elem()
		var fill func(got, want reflect.Value, fs []field)
		fill = func(got, want reflect.Value, fs []field) {
			for i, f := range fs {
				if f.K == "struct" {
					fill(got.Field(i), want.Field(i), f.Sub)
					continue
				}
				if f.V != nil {
					want.Field(i).Set(f.wanted())
				}
			}
		}
		fill(holder.Elem(), want, h.F)
		var err error
		if h.How == "To" {
			err = s.To(h.At, holder.Interface())
		} else {
			err = s.GetSectionFrom(h.At, holder.Interface())
		}
		if err != nil {
			c.Failf("%s(%q) failed: %v", h.How, h.At, err)
		}
		if !reflect.DeepEqual(holder.Elem().Interface(), want.Interface()) {
			c.Failf("%s(%q) filled %+v, expected %+v", h.How, h.At, holder.Elem().Interface(), want.Interface())
		}
		// a filter keeps the keys it accepts
		flt, fwant := reflect.New(typ), reflect.New(typ).Elem()
		passed, blocked := 0, 0
		var fil func(at string, want reflect.Value, fs []field)
		fil = func(at string, want reflect.Value, fs []field) {
			for i, f := range fs {
				k := m.join(at, strings.ToLower(f.N))
				if f.K == "struct" {
					fil(k, want.Field(i), f.Sub)
				} else if f.V != nil {
					if keepByHash(h.Seed, m.join(h.View, k)) {
						want.Field(i).Set(f.wanted())
						passed++
					} else {
						blocked++
					}
				}
			}
		}
		fil(h.At, fwant, h.F)
		keep := radix.WithFilter(func(node radix.Node[any]) bool { return keepByHash(h.Seed, node.Key()) })
		if h.How == "To" {
			err = s.To(h.At, flt.Interface(), keep)
		} else {
			err = s.GetSectionFrom(h.At, flt.Interface(), keep)
		}
		if err != nil || !reflect.DeepEqual(flt.Elem().Interface(), fwant.Interface()) {
			c.Failf("%s(%q) with a filter filled %+v, expected %+v; %v", h.How, h.At, flt.Elem().Interface(), fwant.Interface(), err)
		}
		c.Label(passed > 0 && blocked > 0, "filtered in part")

		// a path which does not exist leaves the holder alone
		for _, p := range h.Missing {
			if m.has(p) {
				continue
			}
			if err = s.To(p, holder.Interface()); err != nil || !reflect.DeepEqual(holder.Elem().Interface(), want.Interface()) {
				c.Failf("To(%q), which does not exist, made %+v of %+v, %v", p, holder.Elem().Interface(), want.Interface(), err)
			}
			c.Label(true, "missing path")
		}

		// a key fills the field named like its last segment
		leaf := 0
		for _, f := range h.F {
			k := m.join(h.At, strings.ToLower(f.N))
			if f.V == nil || m.M[k] == nil {
				continue
			}
			one := reflect.New(structOf([]field{f}))
			if err = s.To(k, one.Interface()); err != nil {
				c.Failf("To(%q) failed: %v", k, err)
			}
			if !reflect.DeepEqual(one.Elem().Field(0).Interface(), f.wanted().Interface()) {
				c.Failf("To(%q) filled %+v, expected %v", k, one.Elem().Interface(), f.wanted().Interface())
			}
			leaf++
		}
		c.Label(leaf > 0, "single key")

		// the generic helper
		if s.st != nil {
			type ab struct {
				A struct{ B, Name string }
				B []int
			}
			var x, y ab
			at := m.join(h.At, "zzgeneric")
			y.A.Name, y.B = "n", []int{3, 3}
			s.Set(m.join(at, m.join("a", "name")), "n")
			s.Set(m.join(at, "b"), []int{3, 3})
			if err = store.To(s.st, at, &x); err != nil || !reflect.DeepEqual(x, y) {
				c.Failf("store.To(%q) filled %+v, expected %+v; %v", at, x, y, err)
			}
		}
		c.NT(stored > 1)
	})
}
