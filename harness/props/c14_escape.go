package props

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/zerosnake0/jzon"

	"verif/cat"
	"verif/eng"
	"verif/gen"
	"verif/ref"
)

// textVal has a MarshalText giving any bytes.
type textVal struct{ s string }

func (x textVal) MarshalText() ([]byte, error) { return []byte(x.s), nil }

type textPtr struct{ s string }

func (x *textPtr) MarshalText() ([]byte, error) { return []byte(x.s), nil }

type textKey string

func (x textKey) MarshalText() ([]byte, error) { return []byte(x), nil }

// strPlace puts a string in a value.
type strPlace struct {
	name  string
	mk    func(s string) interface{}
	pre   string
	post  string
	twice bool // the string is a literal within a literal
}

var strPlaces = []strPlace{
	{"string", func(s string) interface{} { return s }, "", "", false},
	{"named string", func(s string) interface{} { return cat.NStr(s) }, "", "", false},
	{"pointer", func(s string) interface{} { return &s }, "", "", false},
	{"slice", func(s string) interface{} { return []string{s, "x"} }, "[", `,"x"]`, false},
	{"interface slice", func(s string) interface{} { return []interface{}{1, s} }, "[1,", `]`, false},
	{"array", func(s string) interface{} { return [1]string{s} }, "[", `]`, false},
	{"map value", func(s string) interface{} { return map[int]string{3: s} }, `{"3":`, `}`, false},
	{"map key", func(s string) interface{} { return map[string]int{s: 1} }, `{`, `:1}`, false},
	{"named map key", func(s string) interface{} { return map[cat.NStr]bool{cat.NStr(s): true} }, `{`, `:true}`, false},
	{"text map key", func(s string) interface{} { return map[textKey]bool{textKey(s): true} }, `{`, `:true}`, false},
	{"field", func(s string) interface{} {
		return struct {
			A string
			B int
		}{s, 2}
	}, `{"A":`, `,"B":2}`, false},
	{"omitempty pointer field", func(s string) interface{} {
		return &struct {
			A *string `json:"a,omitempty"`
		}{&s}
	}, `{"a":`, `}`, false},
	{"quoted field", func(s string) interface{} {
		return &struct {
			A string `json:",string"`
		}{s}
	}, `{"A":`, `}`, true},
	{"text marshaler", func(s string) interface{} { return textVal{s} }, "", "", false},
	{"text marshaler behind a pointer", func(s string) interface{} { return &textPtr{s} }, "", "", false},
	{"text marshalers in a slice", func(s string) interface{} { return []textPtr{{s}} }, "[", "]", false},
	{"text marshaler field", func(s string) interface{} {
		return struct{ T textVal }{textVal{s}}
	}, `{"T":`, "}", false},
}

// fieldName is a struct with a field of that name (only names allowed in tags).
func fieldNamed(t *eng.T, s string) (interface{}, bool) {
	if s == "" {
		return nil, false
	}
	for _, r := range s {
		if !(strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", r) || r >= 'a' && r <= 'z' || r >= '0' && r <= '9' || r > 0xbf && r < 0x180) {
			return nil, false
		}
	}
	if s == "-" || strings.ContainsAny(s, ",") {
		return nil, false
	}
	x := "<"
	vals := []interface{}{0, "v&", 1.5, true, &x, []string{"<"}, map[string]int{}, struct{}{}, interface{}(int8(3)), (*int)(nil), cat.NInt(4)}
	fv := vals[t.Int(len(vals))]
	fs := []reflect.StructField{{Name: "F", Type: reflect.TypeOf(fv), Tag: reflect.StructTag(fmt.Sprintf("json:%q", s+t.Str("", "", ",string", ",omitempty")))}}
	for i := t.Int(3) * t.Int(3); i > 0; i-- {
		fs = append(fs, reflect.StructField{Name: fmt.Sprint("G", i), Type: reflect.TypeOf(0)})
	}
	v := reflect.New(reflect.StructOf(fs))
	v.Elem().Field(0).Set(reflect.ValueOf(fv))
	if t.Bool() {
		return v.Interface(), true
	}
	return v.Elem().Interface(), true
}

// fixUTF8 is the string a reader of the output must see.
func fixUTF8(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		b.WriteRune(r)
		i += n
	}
	return b.String()
}

// c14Literal checks one string literal of the output.
func c14Literal(t *eng.T, where string, lit []byte, s string, html bool) {
	n, st := ref.Document(lit)
	if st != ref.OK || n.Kind != ref.Str || n.Start != 0 || n.End != len(lit) {
		t.Failf("%s: %s is not a string literal, for %q", where, gen.Show(lit), s)
	}
	if n.Str != fixUTF8(s) {
		t.Failf("%s: %s reads as %q instead of %q", where, gen.Show(lit), n.Str, s)
	}
	if !utf8.Valid(lit) {
		t.Failf("%s: the output %s is not UTF-8", where, gen.Show(lit))
	}
	for _, r := range string(lit) {
		if r == 0x2028 || r == 0x2029 || r < 0x20 || html && (r == '<' || r == '>' || r == '&') {
			t.Failf("%s: raw %U in the output %s (html %v)", where, r, gen.Show(lit), html)
		}
	}
	if q := quote(s, html); !bytes.Equal(stdNorm(lit), q) {
		t.Failf("%s: %s instead of %s (html %v)", where, gen.Show(lit), gen.Show(q), html)
	}
}

func c14Place(t *eng.T, p *strPlace, s string, html bool) {
	e := pickEnc(t)
	v := p.mk(s)
	out, err := e.f(t, jzon.DefaultEncoderConfig, html, v)
	if err != nil {
		t.Failf("%s of %s: %v for %q", e.name, p.name, err, s)
	}
	if !bytes.HasPrefix(out, []byte(p.pre)) || !bytes.HasSuffix(out, []byte(p.post)) || len(out) < len(p.pre)+len(p.post) {
		t.Failf("%s of %s: %s for %q", e.name, p.name, gen.Show(out), s)
	}
	lit := out[len(p.pre) : len(out)-len(p.post)]
	where := e.name + " of " + p.name
	if p.twice {
		n, st := ref.Document(lit)
		if st != ref.OK || n.Kind != ref.Str {
			t.Failf("%s: %s for %q", where, gen.Show(out), s)
		}
		lit = []byte(n.Str)
	}
	c14Literal(t, where, lit, s, html)
}

func init() {
	eng.Register(&eng.Prop{
		ID:          "C14",
		Rule:        "a case is one Go string (all classes of characters, invalid UTF-8, up to 1500 bytes) written at 3 of 19 kinds of places (values, map keys, field names, text marshalers, fields with the string option, streamer methods) with HTML escaping on or off; non-trivial: it holds a character that is not a plain ASCII letter or digit. enumerated: every code point and every pair of bytes, HTML escaping on and off",
		Assumptions: []string{refNote, "the choice of characters to escape is that of encoding/json, the spellings \\b and \\u0008 count as the same"},
		Quick:       1600000, Thorough: 40000000,
		Exhaustive: func(t *eng.T) int {
			n := 0
			ss := map[bool]*jzon.Streamer{true: jzon.NewStreamer(), false: jzon.NewStreamer()}
			ss[true].EscapeHTML(true)
			ss[false].EscapeHTML(false)
			var w bytes.Buffer
			one := func(s string) {
				for html, st := range ss {
					n++
					w.Reset()
					st.Reset(&w)
					if err := st.String(s).Flush(); err != nil {
						t.Failf("Flush: %v", err)
					}
					plain := len(s) > 1 && utf8.ValidString(s) && s[0] > 0x7f && s != "\u2028" && s != "\u2029"
					if plain {
						if w.Len() != len(s)+2 || string(w.Bytes()[1:1+len(s)]) != s {
							t.Failf("Streamer.String: %s for %q", w.Bytes(), s)
						}
						continue
					}
					c14Literal(t, "Streamer.String", w.Bytes(), s, html)
				}
			}
			for r := rune(0); r <= utf8.MaxRune; r++ {
				if r >= 0xd800 && r < 0xe000 {
					continue
				}
				one(string(r))
			}
			for a := 0; a < 256; a++ {
				one(string([]byte{byte(a)}))
				for b := 0; b < 256; b += 1 {
					if a < 0x80 && b < 0x80 && (a+b)%3 != 0 {
						continue
					}
					one(string([]byte{byte(a), byte(b)}))
				}
			}
			return n
		},
		Run: func(t *eng.T) {
			s := gen.GoString(t, t.P(1, 3))
			t.Key([]byte(s))
			t.Sample(func() string { return fmt.Sprintf("%q", s) })
			for i := 0; i < len(s); i++ {
				if c := s[i]; !(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
					t.Nontrivial()
					break
				}
			}
			for k := 0; k < 3; k++ {
				html := t.Bool()
				switch t.W(8, 1, 1, 1) {
				case 0:
					c14Place(t, &strPlaces[t.Int(len(strPlaces))], s, html)
				case 1:
					st := jzon.NewStreamer()
					var w bytes.Buffer
					st.Reset(&w)
					st.EscapeHTML(html)
					err := st.ObjectStart().Field(s).String(s).ObjectEnd().Flush()
					st.Release()
					q := quote(s, html)
					want := append(append(append(append([]byte("{"), q...), ':'), q...), '}')
					if d := sameJSON(w.Bytes(), want, false); err != nil || d != "" {
						t.Failf("Streamer.Field: error %v, %s", err, d)
					}
				case 2:
					v, ok := fieldNamed(t, s)
					if !ok {
						v, ok = fieldNamed(t, t.Str("a<b", "<>&", "é&", "x>", "&", "a b<", ">>", "%&~"))
					}
					want, _ := stdEncode(v, html)
					e := pickEnc(t)
					out, err := e.f(t, jzon.NewEncoderConfig(nil), html, v)
					if d := sameJSON(out, want, false); err != nil || d != "" {
						t.Failf("%s of a field name: error %v, %s (html %v)", e.name, err, d, html)
					}
				default: // toggled during the life of one encoder
					var w bytes.Buffer
					enc := jzon.NewEncoder(&w)
					cur := true
					for i := t.Range(2, 4); i > 0; i-- {
						if t.Bool() {
							cur = t.Bool()
							enc.SetEscapeHTML(cur)
						}
						w.Reset()
						err := enc.Encode(map[string]string{s: s})
						q := quote(s, cur)
						want := append(append(append(append([]byte("{"), q...), ':'), q...), "}\n"...)
						if d := sameJSON(w.Bytes(), want, false); err != nil || d != "" {
							t.Failf("Encoder.SetEscapeHTML(%v): error %v, %s", cur, err, d)
						}
					}
					enc.Release()
				}
			}
		},
	})
}
