package harness

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/hedzr/store"
	"github.com/hedzr/store/codecs/hcl"
	"github.com/hedzr/store/providers/file"
)

// ------------------------------------------- C37: documents as people write them

// spell is a source of decisions about notation.
type spell struct {
	st   []int
	i    int
	tabs bool // tabs may stand in quoted text as they are
}

func (s *spell) pick(n int) int {
	if len(s.st) == 0 {
		return 0
	}
	v := s.st[s.i%len(s.st)] + s.i/len(s.st)
	s.i++
	return ((v % n) + n) % n
}

func (s *spell) one(a ...string) string { return a[s.pick(len(a))] }

func (s *spell) keys(m map[string]any) []string {
	ks := sortedKeys(m)
	for i := len(ks) - 1; i > 0; i-- {
		j := s.pick(i + 1)
		ks[i], ks[j] = ks[j], ks[i]
	}
	return ks
}

func (s *spell) jstr(x string) string { // a quoted string, some characters escaped
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range x {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\t' && s.tabs && s.pick(2) == 0:
			b.WriteRune(r)
		case r == '\t':
			b.WriteString(`\t`)
		case r < 0x10000 && s.pick(5) == 0:
			fmt.Fprintf(&b, `\u%04x`, r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (s *spell) float(f float64) string {
	switch s.pick(3) {
	case 0:
		return strconv.FormatFloat(f, 'e', -1, 64)
	case 1:
		if x := strconv.FormatFloat(f, 'f', -1, 64); strings.Contains(x, ".") {
			return x + "0"
		} else {
			return x + ".0"
		}
	default:
		x := strconv.FormatFloat(f, 'f', -1, 64)
		if !strings.Contains(x, ".") {
			x += ".0"
		}
		return x
	}
}

func (s *spell) jint(i int) string {
	if s.pick(4) == 0 && i%10 == 0 && i != 0 {
		return strconv.Itoa(i/10) + s.one("e1", "E+1", "e+01")
	}
	return strconv.Itoa(i)
}

// -- json

func (s *spell) json(v any) string {
	ws := func() string { return s.one("", "", " ", "\n", "\t ", "\r\n") }
	switch z := v.(type) {
	case map[string]any:
		var p []string
		for _, k := range s.keys(z) {
			p = append(p, ws()+s.jstr(k)+ws()+":"+ws()+s.json(z[k])+ws())
		}
		return "{" + strings.Join(p, ",") + ws() + "}"
	case []any:
		var p []string
		for _, x := range z {
			p = append(p, ws()+s.json(x)+ws())
		}
		return "[" + strings.Join(p, ",") + ws() + "]"
	case string:
		return s.jstr(z)
	case int:
		return s.jint(z)
	case float64:
		return s.float(z)
	case nil:
		return "null"
	}
	return fmt.Sprint(v)
}

// -- yaml

var plainWord = regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9_/]*( [a-z]+)*$`)
var reservedWord = regexp.MustCompile(`(?i)^(true|false|yes|no|on|off|y|n|null|nan|inf|e[0-9]*)$`)

func plain(x string) bool { return plainWord.MatchString(x) && !reservedWord.MatchString(x) }

func (s *spell) yamlStr(x string) string {
	switch {
	case plain(x) && s.pick(3) > 0:
		return x
	case !strings.ContainsAny(x, "\n") && s.pick(2) == 0:
		return "'" + strings.ReplaceAll(x, "'", "''") + "'"
	}
	return s.jstr(x)
}

func (s *spell) yamlInt(i int) string {
	x := strconv.Itoa(i)
	switch s.pick(4) {
	case 0:
		if i >= 0 {
			return s.one("0x%x", "0x%X", "0o%o")
		}
	case 1:
		if len(x) > 4 {
			return x[:len(x)-3] + "_" + x[len(x)-3:]
		}
	}
	return x
}

func (s *spell) yamlScalar(v any) string {
	switch z := v.(type) {
	case string:
		return s.yamlStr(z)
	case int:
		if f := s.yamlInt(z); strings.Contains(f, "%") {
			return fmt.Sprintf(f, z)
		} else {
			return f
		}
	case float64:
		return s.float(z)
	case bool:
		if z {
			return s.one("true", "True", "TRUE")
		}
		return s.one("false", "False", "FALSE")
	}
	return s.one("~", "null", "Null", "NULL")
}

func (s *spell) yamlFlow(v any) string {
	switch z := v.(type) {
	case map[string]any:
		var p []string
		for _, k := range s.keys(z) {
			p = append(p, s.yamlStr(k)+": "+s.yamlFlow(z[k]))
		}
		return "{" + strings.Join(p, s.one(", ", ","+" ")) + "}"
	case []any:
		var p []string
		for _, x := range z {
			p = append(p, s.yamlFlow(x))
		}
		return "[" + strings.Join(p, s.one(", ", ",  ")) + s.one("", " ") + "]"
	}
	return s.yamlScalar(v)
}

// yamlTail is what follows "key:" or "-", up to and with the line end.
func (s *spell) yamlTail(v any, ind string) string {
	note := func() string { return s.one("", "", " # note", "  # a: b") + "\n" }
	step := s.one("  ", "    ", " ")
	switch z := v.(type) {
	case map[string]any:
		if len(z) > 0 && s.pick(4) > 0 {
			return note() + s.yamlMap(z, ind+step)
		}
		return " " + s.yamlFlow(z) + note()
	case []any:
		if len(z) > 0 && s.pick(3) > 0 {
			b := note()
			for _, x := range z {
				if m, ok := x.(map[string]any); ok && len(m) > 0 && s.pick(2) == 0 { // - k: v
					b += ind + step + "- " + strings.TrimPrefix(s.yamlMap(m, ind+step+"  "), ind+step+"  ")
					continue
				}
				b += ind + step + "-" + s.yamlTail(x, ind+step)
			}
			return b
		}
		return " " + s.yamlFlow(z) + note()
	case string:
		if plain(z) && s.pick(4) == 0 {
			return s.one(" |-\n", " >-\n") + ind + step + z + "\n"
		}
		if strings.Contains(z, "\n") && s.pick(2) == 0 {
			return " |-\n" + ind + step + strings.ReplaceAll(z, "\n", "\n"+ind+step) + "\n"
		}
	case nil:
		if s.pick(3) == 0 {
			return "\n"
		}
	}
	return " " + s.yamlScalar(v) + note()
}

func (s *spell) yamlMap(m map[string]any, ind string) string {
	b := ""
	for i, k := range s.keys(m) {
		if i > 0 && s.pick(6) == 0 {
			b += s.one("\n", ind+"# remark\n", "# k: v\n")
		}
		b += ind + s.yamlStr(k) + ":" + s.yamlTail(m[k], ind)
	}
	return b
}

// -- toml

var bareKey = regexp.MustCompile(`^[A-Za-z0-9_-]+$`)

func (s *spell) tomlKey(k string) string {
	if bareKey.MatchString(k) && s.pick(3) > 0 {
		return k
	}
	if s.pick(2) == 0 {
		return "'" + k + "'"
	}
	return s.jstr(k)
}

func (s *spell) tomlVal(v any) string {
	switch z := v.(type) {
	case map[string]any:
		var p []string
		for _, k := range s.keys(z) {
			p = append(p, s.tomlKey(k)+s.one(" = ", "=")+s.tomlVal(z[k]))
		}
		return "{ " + strings.Join(p, ", ") + " }"
	case []any:
		b := "["
		for i, x := range z {
			b += s.one("", " ", "\n  ", " # note\n") + s.tomlVal(x)
			if i < len(z)-1 {
				b += ","
			} else {
				b += s.one("", ",", "\n")
			}
		}
		return b + "]"
	case string:
		switch s.pick(4) {
		case 0:
			if !strings.ContainsAny(z, "'\n") {
				return "'" + z + "'"
			}
		case 1:
			if !strings.ContainsAny(z, "\"\\") {
				return `"""` + s.one("", "\n") + z + `"""`
			}
		case 2:
			if !strings.Contains(z, "'") {
				return "'''\n" + z + "'''"
			}
		}
		return s.jstr(z)
	case int:
		x := strconv.Itoa(z)
		switch s.pick(5) {
		case 0:
			if z >= 0 {
				return fmt.Sprintf(s.one("0x%x", "0x%X", "0o%o", "0b%b"), z)
			}
		case 1:
			if len(x) > 4 {
				return x[:len(x)-3] + "_" + x[len(x)-3:]
			}
		case 2:
			if z >= 0 {
				return "+" + x
			}
		}
		return x
	case float64:
		return s.float(z)
	}
	return fmt.Sprint(v)
}

func (s *spell) tomlDotted(path string, m map[string]any) (b string) {
	for _, k := range s.keys(m) {
		p := path + s.one(".", ".", " . ") + s.tomlKey(k)
		if x, ok := m[k].(map[string]any); ok && len(x) > 0 && s.pick(2) == 0 {
			b += s.tomlDotted(p, x)
			continue
		}
		b += p + " = " + s.tomlVal(m[k]) + "\n"
	}
	return
}

func mapList(v any) (r []map[string]any) {
	l, _ := v.([]any)
	for _, x := range l {
		m, ok := x.(map[string]any)
		if !ok {
			return nil
		}
		r = append(r, m)
	}
	return
}

func (s *spell) tomlTable(path string, m map[string]any) string {
	var here, below string
	for _, k := range s.keys(m) {
		v, key := m[k], s.tomlKey(k)
		full := key
		if path != "" {
			full = path + "." + key
		}
		if x, ok := v.(map[string]any); ok {
			switch s.pick(4) {
			case 0:
				here += key + " = " + s.tomlVal(x) + "\n"
				continue
			case 1:
				if len(x) > 0 {
					here += s.tomlDotted(key, x)
					continue
				}
			}
			below += s.one("", "\n", "# table\n") + "[" + full + "]" + s.one("", " # note") + "\n" + s.tomlTable(full, x)
			continue
		}
		if l := mapList(v); len(l) > 0 && s.pick(2) == 0 {
			for _, x := range l {
				below += "[[" + full + "]]\n" + s.tomlTable(full, x)
			}
			continue
		}
		here += key + s.one(" = ", "=", "   = ") + s.tomlVal(v) + s.one("", "", " # x = 1") + "\n"
	}
	return here + below
}

// -- hjson

func (s *spell) hjsonKey(k string) string {
	if regexp.MustCompile(`^[A-Za-z0-9_.-]+$`).MatchString(k) && s.pick(2) == 0 {
		return k
	}
	return s.jstr(k)
}

func (s *spell) hjsonNote(ind string) string {
	return s.one("", "", "", ind+"# remark\n", ind+"// k: v\n", ind+"/* { */\n")
}

// hjsonVal ends with a line end, or with a comma.
func (s *spell) hjsonVal(v any, ind string) string {
	end := func() string { return s.one("\n", "\n", ",\n", " # n\n", " // n\n") }
	switch z := v.(type) {
	case map[string]any:
		return "{" + s.one("", "\n") + s.hjsonMap(z, ind+"  ") + ind + "}" + s.one("\n", ",\n")
	case []any:
		b := "[\n"
		for _, x := range z {
			b += s.hjsonNote(ind+"  ") + ind + "  " + s.hjsonVal(x, ind+"  ")
		}
		return b + ind + "]" + s.one("\n", ",\n")
	case string:
		switch {
		case plain(z) && s.pick(2) == 0:
			return z + "\n"
		case plain(z) && s.pick(3) == 0:
			return "'''" + z + "'''" + s.one("\n", ",\n")
		case strings.Contains(z, "\n") && s.pick(2) == 0:
			return "\n" + ind + "'''\n" + ind + strings.ReplaceAll(z, "\n", "\n"+ind) + "\n" + ind + "'''" + s.one("\n", ",\n")
		case !strings.ContainsAny(z, "'\\\n\t") && s.pick(3) == 0:
			return "'" + strings.ReplaceAll(z, `"`, `\"`) + "'" + end()
		}
		return s.jstr(z) + end()
	case int:
		return s.jint(z) + end()
	case float64:
		return s.float(z) + end()
	case nil:
		return "null" + end()
	}
	return fmt.Sprint(v) + end()
}

func (s *spell) hjsonMap(m map[string]any, ind string) (b string) {
	for _, k := range s.keys(m) {
		b += s.hjsonNote(ind) + ind + s.hjsonKey(k) + s.one(":", ": ", " : ") + s.hjsonVal(m[k], ind)
	}
	return
}

// -- NestedText

func (s *spell) nestMap(m map[string]any, ind string) (b string) {
	for _, k := range s.keys(m) {
		b += s.one("", "", "", "\n", "# remark\n") + ind + k + ":" + s.nestTail(m[k], ind)
	}
	return
}

func (s *spell) nestTail(v any, ind string) (b string) {
	step := ind + s.one("  ", "    ")
	switch z := v.(type) {
	case map[string]any:
		return "\n" + s.nestMap(z, step)
	case []any:
		b = "\n"
		for _, x := range z {
			b += step + "-" + s.nestTail(x, step)
		}
		return
	case string:
		if s.pick(3) == 0 || strings.Contains(z, "\n") {
			return "\n" + step + "> " + strings.ReplaceAll(z, "\n", "\n"+step+"> ") + "\n"
		}
		return " " + z + "\n"
	}
	panic("HARNESS-ERROR: nestext")
}

// -- hcl

func (s *spell) hclStr(x string) string {
	if strings.HasSuffix(x, "\n") {
		return "<<EOT\n" + x + "EOT"
	}
	x = s.jstr(x)
	return strings.NewReplacer("${", "$${", "%{", "%%{").Replace(x)
}

func (s *spell) hclVal(v any) string {
	switch z := v.(type) {
	case map[string]any:
		b := "{\n"
		for _, k := range s.keys(z) {
			key := s.one(k, s.jstr(k))
			b += key + s.one(" = ", " : ", "=") + s.hclVal(z[k]) + s.one("\n", "\n", ",\n", " # n\n")
			if strings.HasSuffix(b, "EOT,\n") || strings.HasSuffix(b, "EOT # n\n") {
				b = b[:strings.LastIndex(b, "EOT")] + "EOT\n"
			}
		}
		return b + "}"
	case []any:
		b := "["
		for i, x := range z {
			v := s.hclVal(x)
			if strings.HasSuffix(v, "EOT") {
				v += "\n"
			}
			b += s.one("", " ", "\n") + v
			if i < len(z)-1 {
				b += ","
			} else {
				b += s.one("", ",", "\n")
			}
		}
		return b + "]"
	case string:
		return s.hclStr(z)
	case int:
		return s.jint(z)
	case float64:
		return s.float(z)
	case nil:
		return "null"
	}
	return fmt.Sprint(v)
}

// hclBody writes a body and tells what it says; single blocks are maps in flat form.
func (s *spell) hclBody(m map[string]any, flat, blocks bool) (b string, want map[string]any) {
	want = map[string]any{}
	wrap := func(m map[string]any) any {
		if flat {
			return m
		}
		return []any{m}
	}
	for _, k := range s.keys(m) {
		v := m[k]
		if x, ok := v.(map[string]any); ok && blocks && s.pick(3) > 0 {
			head, labels := k, []string{}
			for len(x) == 1 && s.pick(3) > 0 { // sections with one section are labels
				var l string
				var in map[string]any
				for kk, vv := range x {
					l = kk
					in, ok = vv.(map[string]any)
				}
				if !ok {
					break
				}
				labels = append(labels, l)
				head += " " + s.one(l, `"`+l+`"`)
				x = in
			}
			body, w := s.hclBody(x, flat, true)
			for i := len(labels) - 1; i >= 0; i-- {
				w = map[string]any{labels[i]: wrap(w)}
			}
			want[k] = wrap(w)
			b += s.one("", "\n", "// block\n") + head + " {\n" + body + "}\n"
			continue
		}
		if l := mapList(v); len(l) > 1 && blocks && s.pick(3) > 0 {
			var ws []any
			for _, x := range l {
				body, w := s.hclBody(x, flat, false)
				ws = append(ws, w)
				b += k + " {\n" + body + "}\n"
			}
			want[k] = ws
			continue
		}
		want[k] = v
		e := s.hclVal(v)
		b += s.one("", "", "# remark\n", "/* { */ ") + k + s.one(" = ", "=", "    = ") + e
		if !strings.HasSuffix(e, "EOT") {
			b += s.one("", "", " # note", " // note")
		}
		b += "\n"
	}
	return
}

// anyMaps is canon that takes lists of maps as lists.
func anyMaps(v any) any {
	switch z := v.(type) {
	case map[string]any:
		r := map[string]any{}
		for k, x := range z {
			r[k] = anyMaps(x)
		}
		return r
	case []map[string]any:
		r := []any{}
		for _, x := range z {
			r = append(r, anyMaps(x))
		}
		return r
	case []any:
		r := []any{}
		for _, x := range z {
			r = append(r, anyMaps(x))
		}
		return r
	}
	return canon(v)
}

type c37 struct {
	Codec string `json:"codec"`
	Doc   Val    `json:"doc"`
	Spell []int  `json:"spell"`
	Flat  bool   `json:"flat,omitempty"`
	At    string `json:"at,omitempty"`
}

func genWritten(t *rapid.T, codec string, depth int) Val {
	v := plainInts(genCodecDoc(t, codec, depth))
	many := 6
	if codec == "nestext" { // (the library has trouble with empty lines)
		many = 5
	}
	var fix func(v Val) Val
	fix = func(v Val) Val {
		switch v.K {
		case "map":
			m := map[string]Val{}
			for k, x := range v.M {
				if codec == "nestext" || codec == "hcl" {
					k = strings.Trim(strings.NewReplacer("0", "k0", ".", "_", "true", "yes").Replace(k), "-")
				}
				m[k] = fix(x)
			}
			v.M = m
		case "[]any":
			l := []Val{}
			for _, x := range v.L {
				l = append(l, fix(x))
			}
			v.L = l
		case "float64":
			f := v.Any().(float64)
			if a := math.Abs(f); a > 1e15 || a < 1e-9 && a != 0 {
				return vFloat(2.5)
			}
		case "string":
			if rapid.IntRange(0, 6).Draw(t, "blanks?") == 0 {
				return vStr(rapid.SampledFrom([]string{"a\tb", "a  ", " a", "a\t", "\ta", "  x y  ", "a \t b", "a: b", "- a", "# a", "a # b", "$HOME", "%s", "{{a}}", `C:\new`, "a=b", "//a", "a;b", "~", "a,b"}).Draw(t, "blanks"))
			}
			if codec == "hcl" {
				if rapid.IntRange(0, 3).Draw(t, "heredoc") == 0 {
					return vStr(rapid.SampledFrom([]string{"line\n", "one\ntwo\n", "  in\nout\n", "# a\n\nb {\n}\n", "// x = 1\n"}).Draw(t, "lines"))
				}
			} else if rapid.IntRange(0, 5).Draw(t, "lines?") == 0 {
				return vStr(rapid.SampledFrom([]string{"one\ntwo", "a\nb\nc", "x\n# y\nz", "[a]\n  b: c\n// d", "#!/bin/sh\n---\n}", "k = 1\n\n/* {"}[:many]).Draw(t, "lines"))
			}
			for _, r := range v.S {
				if r < ' ' || r > 0xd000 || r == 0x7f {
					return vStr("odd")
				}
			}
		}
		return v
	}
	return fix(v)
}

func multiLine(v Val) bool {
	for _, x := range v.M {
		if multiLine(x) {
			return true
		}
	}
	for _, x := range v.L {
		if multiLine(x) {
			return true
		}
	}
	return strings.Contains(v.S, "\n")
}

func TestC37(t *testing.T) {
	Check(t, "C37", func(t *rapid.T) c37 {
		r := c37{Codec: rapid.SampledFrom([]string{"json", "yaml", "toml", "hjson", "nestext", "hcl"}).Draw(t, "codec")}
		r.Doc = genWritten(t, r.Codec, 3)
		if rapid.Bool().Draw(t, "section") {
			sub := genWritten(t, r.Codec, 2)
			sub.M["in"] = genWritten(t, r.Codec, 1)
			r.Doc.M["sec"] = sub
		}
		if rapid.IntRange(0, 2).Draw(t, "tables") == 0 {
			l := Val{K: "[]any"}
			for i := rapid.IntRange(1, 3).Draw(t, "n"); i > 0; i-- {
				l.L = append(l.L, genWritten(t, r.Codec, 1))
			}
			r.Doc.M["list"] = l
		}
		if rapid.IntRange(0, 2).Draw(t, "chain") == 0 {
			in := genWritten(t, r.Codec, 1)
			for _, k := range rapid.SliceOfN(rapid.SampledFrom([]string{"p", "q", "r"}), 1, 3).Draw(t, "chain of") {
				in = Val{K: "map", M: map[string]Val{k: in}}
			}
			r.Doc.M["chain"] = in
		}
		r.Spell = rapid.SliceOfN(rapid.IntRange(0, 59), 0, 30).Draw(t, "spell")
		r.Flat = rapid.Bool().Draw(t, "flat")
		if rapid.Bool().Draw(t, "at") {
			r.At = rapid.SampledFrom([]string{"app", "app.conf"}).Draw(t, "where")
		}
		return r
	}, func(c *Ctx, h c37) {
		doc := h.Doc.Any().(map[string]any)
		s := &spell{st: h.Spell, tabs: h.Codec == "yaml" || h.Codec == "toml" || h.Codec == "hcl"}
		codec, text, want := newCodec(h.Codec), "", doc
		switch h.Codec {
		case "json":
			text = s.one("", " ", "\n") + s.json(doc) + s.one("", "\n")
		case "yaml":
			text = s.one("", "---\n", "# head\n") + s.yamlMap(doc, "")
			if len(doc) == 0 {
				text = "{}\n"
			}
		case "toml":
			text = s.one("", "# head\n", "\n") + s.tomlTable("", doc)
		case "hjson":
			text = s.hjsonNote("")
			if len(doc) > 0 && s.pick(2) == 0 { // the braces around it all may be left out
				text += s.hjsonMap(doc, "")
			} else {
				text += s.one("{", "{\n") + s.hjsonMap(doc, "") + "}" + s.one("", "\n")
			}
		case "nestext":
			text = s.one("", "# head\n") + s.nestMap(doc, "")
		case "hcl":
			if !h.Flat {
				codec = hcl.New()
			}
			text, want = s.hclBody(doc, h.Flat, true)
		}
		if !multiLine(h.Doc) && s.pick(6) == 0 {
			text = strings.ReplaceAll(text, "\n", "\r\n")
			c.Label(true, "lines end with CR LF")
		}
		got, err := codec.Unmarshal([]byte(text))
		if err != nil {
			c.Failf("%s: the document\n%s\nis not read: %v", h.Codec, text, err)
		}
		if (len(got) > 0 || len(want) > 0) && !eq(anyMaps(got), anyMaps(want)) {
			c.Failf("%s: the document\n%s\nsays %s and was read as %s", h.Codec, text, show(anyMaps(want)), show(anyMaps(got)))
		}
		flat, clash := flatSource(h.At, ".", want, false)
		if !clash && len(doc) > 0 {
			f := filepath.Join(scratchDir(), "doc")
			must(os.WriteFile(f, []byte(text), 0o644))
			for _, p := range []store.Provider{
				&memProvider{rerr: store.ErrNotImplemented, bytes: []byte(text)},
				file.New(f),
			} {
				st := store.New()
				defer st.Close()
				opts := []store.LoadOpt{store.WithProvider(p), store.WithCodec(codec)}
				if h.At != "" {
					opts = append(opts, store.WithStorePrefix(h.At))
				}
				if _, err := st.Load(bg, opts...); err != nil {
					c.Failf("%s: Load of\n%s\nfailed: %v", h.Codec, text, err)
				}
				keys, err := st.GetM("")
				diffMaps(c, h.Codec+": the keys loaded from\n"+text+"\n", anyMaps(keys).(map[string]any), anyMaps(flat).(map[string]any), err)
			}
		}
		nested := false
		for _, v := range doc {
			m, ok := v.(map[string]any)
			nested = nested || ok && len(m) > 0
		}
		c.NT(nested && len(doc) > 1 && len(h.Spell) > 2)
		c.Label(true, "format="+h.Codec)
		c.Label(h.Codec == "hcl" && strings.Contains(text, "{\n"), "hcl with blocks or objects")
	})
}
