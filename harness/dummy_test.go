package harness

import (
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
)

// ---------------------------------------------------------------- C36: the dummy store

type c36op struct {
	M string   `json:"m"` // a method of store.Store
	A []string `json:"a"` // texts to make its arguments of
	N int      `json:"n"` // number, and how many variadic arguments
}

type c36 struct {
	Ops []c36op `json:"ops"`
}

// c36methods are all methods of a store.
var c36methods = func() (r []string) {
	typ := reflect.TypeFor[store.Store]()
	for i := 0; i < typ.NumMethod(); i++ {
		r = append(r, typ.Method(i).Name)
	}
	sort.Strings(r)
	return
}()

func TestC36(t *testing.T) {
	Check(t, "C36", func(t *rapid.T) c36 {
		var r c36
		g := newKeyGen(t, ".")
		for i := rapid.IntRange(1, 20).Draw(t, "nops"); i > 0; i-- {
			op := c36op{M: rapid.SampledFrom(c36methods).Draw(t, "m"), N: rapid.IntRange(0, 3).Draw(t, "n")}
			if rapid.IntRange(0, 3).Draw(t, "w") == 0 {
				op.M = rapid.SampledFrom([]string{"Set", "SetEx", "Merge", "SetComment", "SetTag", "SetPrefix", "WithPrefix", "WithinLoading", "Load"}).Draw(t, "wm")
			}
			for j := 0; j < 4; j++ {
				op.A = append(op.A, g.Key(t))
			}
			r.Ops = append(r.Ops, op)
		}
		return r
	}, func(c *Ctx, h c36) {
		var s store.Store = store.NewDummyStore()
		self := s
		prefix := ""
		writes := 0
		for _, op := range h.Ops {
			m := reflect.ValueOf(s).MethodByName(op.M)
			typ := m.Type()
			called := 0
			var args []reflect.Value
			var texts []string
			n := typ.NumIn()
			if typ.IsVariadic() {
				n += op.N - 1
			}
			for i := 0; i < n; i++ {
				var at reflect.Type
				if typ.IsVariadic() && i >= typ.NumIn()-1 {
					at = typ.In(typ.NumIn() - 1).Elem()
				} else {
					at = typ.In(i)
				}
				text := op.A[i%len(op.A)]
				v := reflect.New(at).Elem()
				switch {
				case at == reflect.TypeFor[radix.Node[any]](), at == reflect.TypeFor[radix.MOpt[any]](), at == reflect.TypeFor[store.LoadOpt](), at == reflect.TypeFor[store.SaveAsOpt]():
				case at.Kind() == reflect.String:
					v.SetString(text)
					texts = append(texts, text)
				case at.Kind() == reflect.Int32 || at.Kind() == reflect.Int64 || at.Kind() == reflect.Int || at.Kind() == reflect.Int8 || at.Kind() == reflect.Int16:
					v.SetInt(int64(op.N + 1))
				case at.Kind() >= reflect.Uint && at.Kind() <= reflect.Uint64:
					v.SetUint(uint64(op.N + 1))
				case at.Kind() == reflect.Float32 || at.Kind() == reflect.Float64:
					v.SetFloat(float64(op.N) + 0.5)
				case at.Kind() == reflect.Complex64 || at.Kind() == reflect.Complex128:
					v.SetComplex(complex(float64(op.N), 1))
				case at.Kind() == reflect.Bool:
					v.SetBool(true)
				case at == reflect.TypeFor[time.Time]():
					v.Set(reflect.ValueOf(time.Unix(int64(op.N), 5)))
				case at.Kind() == reflect.Map && at.Elem().Kind() == reflect.Interface:
					v.Set(reflect.ValueOf(map[string]any{text: op.N}))
				case at.Kind() == reflect.Map:
					v.Set(reflect.MakeMap(at))
					v.SetMapIndex(reflect.ValueOf(text).Convert(at.Key()), reflect.Zero(at.Elem()))
				case at.Kind() == reflect.Interface && at.NumMethod() == 0:
					v.Set(reflect.ValueOf(text))
				case at.Kind() == reflect.Func:
					v.Set(reflect.MakeFunc(at, func([]reflect.Value) []reflect.Value {
						called++
						r := make([]reflect.Value, at.NumOut())
						for i := range r {
							r[i] = reflect.Zero(at.Out(i))
						}
						return r
					}))
				}
				args = append(args, v)
			}
			out := m.Call(args)
			if strings.HasPrefix(op.M, "Set") || op.M == "Merge" || op.M == "Update" || op.M == "Load" {
				writes++
			}
			switch op.M {
			case "SetPrefix":
				prefix = strings.Join(texts, ".")
			case "Prefix":
				if p := out[0].String(); p != prefix {
					c.Failf("the prefix is %q, expected %q", p, prefix)
				}
			case "Delimiter":
				if d := out[0].Int(); d != '.' {
					c.Failf("the delimiter is %q", rune(d))
				}
			case "WithinLoading":
				if called != 1 {
					c.Failf("WithinLoading called its function %d times", called)
				}
			case "WithPrefix", "WithPrefixReplaced", "N", "R", "BR":
				if out[0].Interface() != self {
					c.Failf("%s of a dummy store is %v", op.M, out[0])
				}
			default:
				for i, o := range out {
					if !o.IsZero() {
						c.Failf("%s%q of a dummy store returns %v as result %d", op.M, texts, o, i)
					}
				}
				if called != 0 {
					c.Failf("%s%q of a dummy store calls back", op.M, texts)
				}
			}
		}
		for _, op := range h.Ops {
			for _, k := range op.A {
				if v, ok := s.Get(k); v != nil || ok || s.Has(k) {
					c.Failf("a dummy store holds %q", k)
				}
			}
		}
		c.NT(writes > 1)
	})
}
