package props

import (
	"encoding/json"
	"fmt"

	"github.com/zerosnake0/jzon"

	"verif/cat"
	"verif/eng"
	"verif/gen"
	"verif/ref"
)

type unk0 struct{}
type unk1 struct{ Only int }
type unk3 struct{ A0, B0, C0 int }
type unk12 struct{ A0, B0, C0, D0, E0, F0, G0, H0, I0, J0, K0, L0 int }

var numCfg = jzon.NewDecoderConfig(&jzon.DecoderOption{UseNumber: true})

// recogniser decides if a whole text is accepted. wrap builds the text given
// to the entry point from the document.
type recogniser struct {
	name string
	pre  string
	post string
	f    func(t *eng.T, b []byte) bool
}

func viaIter(f func(it *jzon.Iterator) error) func(t *eng.T, b []byte) bool {
	return func(t *eng.T, b []byte) bool {
		it := jzon.NewIterator()
		defer it.Release()
		if t != nil && t.P(1, 3) {
			it.Reset(gen.Chunked(t, b))
		} else {
			it.ResetBytes(b)
		}
		return f(it) == nil && atEOF(it)
	}
}

func viaVal(mk func() interface{}) func(t *eng.T, b []byte) bool {
	return func(t *eng.T, b []byte) bool {
		v := mk()
		if t == nil {
			return numCfg.Unmarshal(b, v) == nil
		}
		return pickEntry(t).f(numCfg, t, b, v) == nil
	}
}

var recognisers = []recogniser{
	{"Valid", "", "", func(t *eng.T, b []byte) bool { return jzon.Valid(b) }},
	{"Iterator.Valid", "", "", func(t *eng.T, b []byte) bool {
		it := jzon.NewIterator()
		defer it.Release()
		return it.Valid(b)
	}},
	{"Iterator.Skip", "", "", viaIter((*jzon.Iterator).Skip)},
	{"Iterator.SkipRaw", "", "", viaIter(func(it *jzon.Iterator) error { _, err := it.SkipRaw(); return err })},
	{"Iterator.AppendRaw", "", "", viaIter(func(it *jzon.Iterator) error { _, err := it.AppendRaw([]byte("x")); return err })},
	{"Iterator.Read(UseNumber)", "", "", func(t *eng.T, b []byte) bool {
		it := numCfg.NewIterator()
		defer it.Release()
		if t != nil && t.P(1, 3) {
			it.Reset(gen.Chunked(t, b))
		} else {
			it.ResetBytes(b)
		}
		_, err := it.Read()
		return err == nil && atEOF(it)
	}},
	{"interface{}", "", "", viaVal(func() interface{} { return new(interface{}) })},
	{"json.RawMessage", "", "", viaVal(func() interface{} { return new(json.RawMessage) })},
	{"json.Unmarshaler", "", "", viaVal(func() interface{} { return new(cat.JT) })},
	{"[]interface{}", "[", "]", viaVal(func() interface{} { return new([]interface{}) })},
	{"[0]int (skipped elements)", "[", "]", viaVal(func() interface{} { return new([0]int) })},
	{"[1]RawMessage", "[", "]", viaVal(func() interface{} { return new([1]json.RawMessage) })},
	{"map[string]interface{}", `{"k":`, "}", viaVal(func() interface{} { return new(map[string]interface{}) })},
	{"map[string]RawMessage", `{"k" : `, " }", viaVal(func() interface{} { return new(map[string]json.RawMessage) })},
	{"unknown field of an empty struct", `{"zz":`, "}", viaVal(func() interface{} { return new(unk0) })},
	{"unknown field of a one field struct", `{"zz":`, "}", viaVal(func() interface{} { return new(unk1) })},
	{"unknown field of a three field struct", `{"zz":`, `,"B0":1}`, viaVal(func() interface{} { return new(unk3) })},
	{"unknown field of a twelve field struct", `{"A0":1,"zz":`, `}`, viaVal(func() interface{} { return new(unk12) })},
	{"interface{} field", `{"A":`, `}`, viaVal(func() interface{} { return new(struct{ A interface{} }) })},
	{"pointer to interface{}", ``, ``, viaVal(func() interface{} { return new(*interface{}) })},
	{"struct tail", ``, ``, nil},
}

func c01Check(t *eng.T, r *recogniser, doc []byte) {
	text := doc
	if r.pre != "" {
		text = append(append([]byte(r.pre), doc...), r.post...)
	}
	want := ref.Valid(text)
	if r.name == "json.Unmarshaler" || r.name == "pointer to interface{}" {
		// same language
	}
	in := clone(text)
	got := r.f(t, in)
	if got != want {
		t.Failf("%s: accepted=%v, RFC 8259 says %v for %s", r.name, got, want, gen.Show(text))
	}
	if string(in) != string(text) {
		t.Failf("%s: input modified: %s -> %s", r.name, gen.Show(text), gen.Show(in))
	}
}

func c01Doc(t *eng.T) []byte {
	j := gen.DefaultJ()
	j.BadUTF8 = true
	switch t.W(4, 8, 6, 2, 3, 2) {
	case 0:
		return gen.DocJ(t, j)
	case 1:
		return gen.Mutate(t, gen.DocJ(t, j), 3)
	case 2:
		return gen.Snippet(t)
	case 3: // nested, maybe damaged at one place
		d := t.Size(1100)
		if t.P(1, 3) {
			d = 64*t.Range(1, 6) + t.Range(-2, 2)
		}
		b := gen.Deep(t, d)
		if t.Bool() {
			b = gen.Mutate(t, b, 2)
		}
		return b
	case 4: // a prefix
		b := gen.DocJ(t, j)
		return b[:t.Int(len(b)+1)]
	default: // a document followed by something
		b := gen.DocJ(t, j)
		return append(b, t.Str("", " ", "\x00", "x", "}", "]", ",", "\"", "1", "null", "\n{}", "//", "\v", "\xc2\xa0", "\ufeff")...)
	}
}

func c01Exh(t *eng.T) int {
	n := 0
	var rec func(buf []byte, alpha string, left int, pre, post string)
	rec = func(buf []byte, alpha string, left int, pre, post string) {
		text := []byte(pre + string(buf) + post)
		n++
		want := ref.Valid(text)
		if got := jzon.Valid(text); got != want {
			t.Failf("Valid: accepted=%v, RFC 8259 says %v for %q", got, want, text)
		}
		var v interface{}
		if got := numCfg.Unmarshal(text, &v) == nil; got != want {
			t.Failf("Unmarshal into interface{}: accepted=%v, RFC 8259 says %v for %q", got, want, text)
		}
		if left == 0 {
			return
		}
		for i := 0; i < len(alpha); i++ {
			rec(append(buf, alpha[i]), alpha, left-1, pre, post)
		}
	}
	rec(nil, "{}[],:\" \n-01.eEatx\\\x1f", 4, "", "")
	rec(nil, "-+0.1eE", 6, "", "")
	rec(nil, "-+0.1eE", 5, "[", "]")
	rec(nil, "\\u0dD8\"anx\x1f\xff", 5, `"`, `"`)
	rec(nil, "[]{},:", 6, "", "")
	rec(nil, "[]{}\",:", 5, "[", "]")
	// every single byte, alone, inside containers and after an escape
	for c := 0; c < 256; c++ {
		for _, f := range []string{"%s", "[%s]", "[1%s]", "[1%s2]", `{%s}`, `{"a"%s1}`, `{"a":1%s}`, `{"a":1%s"b":2}`, `"%s"`, `"\%s"`, `"\u%s123"`, `"\u0%s00"`, `"\u12%sf"`, `"\u123%s"`, "1%s", "1%s2", "1.%s", "1e%s", "-%s", "0%s", "tru%s", "fals%s", "nul%s", "%s1", " %s ", "null%s", `""%s`} {
			text := []byte(fmt.Sprintf(f, string([]byte{byte(c)})))
			n++
			want := ref.Valid(text)
			if got := jzon.Valid(text); got != want {
				t.Failf("Valid: accepted=%v, RFC 8259 says %v for %q", got, want, text)
			}
			var v interface{}
			if got := numCfg.Unmarshal(text, &v) == nil; got != want {
				t.Failf("Unmarshal into interface{}: accepted=%v, RFC 8259 says %v for %q", got, want, text)
			}
			for i := range recognisers {
				r := &recognisers[i]
				if r.f == nil {
					continue
				}
				x := append(append([]byte(r.pre), text...), r.post...)
				if got, want := r.f(nil, x), ref.Valid(x); got != want {
					t.Failf("%s: accepted=%v, RFC 8259 says %v for %q", r.name, got, want, x)
				}
			}
		}
	}
	return n
}

func init() {
	eng.Register(&eng.Prop{
		ID:          "C01",
		Rule:        "a case is one text (valid document, document damaged by 1-3 edits, token soup, prefix, document with trailing bytes, deep nesting) given to 4 recognisers out of 20; non-trivial: the text is invalid, or holds a container, an escape or a fraction/exponent. enumerated: all texts of up to 4-6 characters over six token alphabets, and every byte at 27 places for every recogniser",
		Assumptions: []string{refNote, "bytes >= 0x20 which are not UTF-8 are accepted inside strings, as the standard library does"},
		Quick:       750000, Thorough: 60000000,
		Exhaustive: c01Exh,
		Run: func(t *eng.T) {
			doc := c01Doc(t)
			ok := ref.Valid(doc)
			t.Key(doc)
			t.Sample(func() string { return fmt.Sprintf("valid=%v %s", ok, gen.Show(doc)) })
			if !ok {
				t.Label("invalid")
			} else {
				t.Label("valid")
			}
			if !ok || indexAny(doc, "[{\\.eE") {
				t.Nontrivial()
			}
			c01Check(t, &recognisers[0], doc)
			for k := 0; k < 3; k++ {
				r := &recognisers[1+t.Int(len(recognisers)-2)]
				c01Check(t, r, doc)
			}
		},
	})
}

func indexAny(b []byte, set string) bool {
	for _, c := range b {
		for i := 0; i < len(set); i++ {
			if c == set[i] {
				return true
			}
		}
	}
	return false
}
