package props

import (
	"encoding/json"
	"fmt"
	"unicode/utf8"

	"github.com/zerosnake0/jzon"

	"verif/cat"
	"verif/eng"
	"verif/gen"
	"verif/ref"
)

// newIter returns an iterator over the text, from bytes or from a chunked
// reader.
func newIter(t *eng.T, cfg *jzon.DecoderConfig, text []byte) *jzon.Iterator {
	it := cfg.NewIterator()
	if t.Bool() {
		it.Reset(gen.Chunked(t, text))
	} else {
		it.ResetBytes(text)
	}
	return it
}

var errLen = fmt.Errorf("wrong number of elements")

// strAPI reads a string literal in one way.
type strAPI struct {
	name string
	f    func(t *eng.T, lit []byte) (string, error)
}

func wrapDoc(pre string, lit []byte, post string) []byte {
	b := make([]byte, 0, len(pre)+len(lit)+len(post))
	b = append(b, pre...)
	b = append(b, lit...)
	return append(b, post...)
}

// endsAt checks that the rest of the iterator is exactly rest.
func endsAt(it *jzon.Iterator, rest byte) error {
	if _, err := it.NextValueType(); err != nil {
		return fmt.Errorf("at the end: %v", err)
	}
	if b := it.Buffer(); b[0] != rest {
		return fmt.Errorf("at %q instead of %q", b[0], rest)
	}
	return nil
}

var strAPIs = []strAPI{
	{"ReadString", func(t *eng.T, lit []byte) (string, error) {
		it := newIter(t, jzon.DefaultDecoderConfig, wrapDoc(t.Str("", " ", "\n\t"), lit, " ]"))
		defer it.Release()
		s, err := it.ReadString()
		if err != nil {
			return "", err
		}
		return s, endsAt(it, ']')
	}},
	{"ReadStringAsSlice", func(t *eng.T, lit []byte) (string, error) {
		it := newIter(t, jzon.DefaultDecoderConfig, wrapDoc("", lit, "}"))
		defer it.Release()
		s, err := it.ReadStringAsSlice()
		if err != nil {
			return "", err
		}
		return string(s), endsAt(it, '}')
	}},
	{"ReadStringAndAppend", func(t *eng.T, lit []byte) (string, error) {
		it := newIter(t, jzon.DefaultDecoderConfig, wrapDoc("", lit, ","))
		defer it.Release()
		pre := make([]byte, 0, 1+t.Int(40))
		pre = append(pre, "pre"[:t.Int(4)]...)
		keep := string(pre)
		s, err := it.ReadStringAndAppend(pre)
		if err != nil {
			return "", err
		}
		if len(s) < len(keep) || string(s[:len(keep)]) != keep {
			return "", fmt.Errorf("prefix lost: %q", s)
		}
		return string(s[len(keep):]), endsAt(it, ',')
	}},
	{"two ReadString", func(t *eng.T, lit []byte) (string, error) {
		b := wrapDoc("", lit, ",")
		it := newIter(t, jzon.DefaultDecoderConfig, append(b[:len(b)-1:len(b)-1], lit...))
		defer it.Release()
		s1, err := it.ReadString()
		if err != nil {
			return "", err
		}
		s2, err := it.ReadString()
		if err != nil {
			return "", fmt.Errorf("second: %v", err)
		}
		if s1 != s2 {
			return "", fmt.Errorf("%q then %q", s1, s2)
		}
		return s1, nil
	}},
	{"Read", func(t *eng.T, lit []byte) (string, error) {
		it := newIter(t, jzon.DefaultDecoderConfig, wrapDoc("", lit, "}"))
		defer it.Release()
		v, err := it.Read()
		if err != nil {
			return "", err
		}
		s, ok := v.(string)
		if !ok {
			return "", fmt.Errorf("type %T", v)
		}
		return s, endsAt(it, '}')
	}},
	{"string", func(t *eng.T, lit []byte) (string, error) {
		var s string
		err := pickEntry(t).f(jzon.DefaultDecoderConfig, t, clone(lit), &s)
		return s, err
	}},
	{"named string", func(t *eng.T, lit []byte) (string, error) {
		var s cat.NStr = "old"
		err := pickEntry(t).f(jzon.DefaultDecoderConfig, t, clone(lit), &s)
		return string(s), err
	}},
	{"interface{}", func(t *eng.T, lit []byte) (string, error) {
		var s interface{}
		if err := pickEntry(t).f(jzon.DefaultDecoderConfig, t, clone(lit), &s); err != nil {
			return "", err
		}
		return s.(string), nil
	}},
	{"[]string", func(t *eng.T, lit []byte) (string, error) {
		var s []string
		doc := append(wrapDoc("[", lit, ","), append(clone(lit), ']')...)
		if err := pickEntry(t).f(jzon.DefaultDecoderConfig, t, doc, &s); err != nil {
			return "", err
		}
		if len(s) != 2 || s[0] != s[1] {
			return "", fmt.Errorf("%q", s)
		}
		return s[0], nil
	}},
	{"map value and key", func(t *eng.T, lit []byte) (string, error) {
		m := map[string]string{}
		doc := append(wrapDoc("{", lit, " :"), append(clone(lit), '}')...)
		if err := pickEntry(t).f(jzon.DefaultDecoderConfig, t, doc, &m); err != nil {
			return "", err
		}
		if len(m) != 1 {
			return "", errLen
		}
		for k, v := range m {
			if k != v {
				return "", fmt.Errorf("key %q value %q", k, v)
			}
			return k, nil
		}
		return "", nil
	}},
	{"named map key", func(t *eng.T, lit []byte) (string, error) {
		m := map[cat.NStr]int{}
		if err := pickEntry(t).f(jzon.DefaultDecoderConfig, t, wrapDoc("{", lit, ":1}"), &m); err != nil {
			return "", err
		}
		if len(m) != 1 {
			return "", errLen
		}
		for k := range m {
			return string(k), nil
		}
		return "", nil
	}},
	{"generic object key", func(t *eng.T, lit []byte) (string, error) {
		var v interface{}
		if err := pickEntry(t).f(jzon.DefaultDecoderConfig, t, wrapDoc("{", lit, ":[]}"), &v); err != nil {
			return "", err
		}
		m := v.(map[string]interface{})
		if len(m) != 1 {
			return "", errLen
		}
		for k := range m {
			return k, nil
		}
		return "", nil
	}},
	{"ReadObjectBegin", func(t *eng.T, lit []byte) (string, error) {
		it := newIter(t, jzon.DefaultDecoderConfig, wrapDoc(" {", lit, " : 1}"))
		defer it.Release()
		more, k, err := it.ReadObjectBegin()
		if err != nil {
			return "", err
		}
		if !more {
			return "", errLen
		}
		return k, endsAt(it, '1')
	}},
	{"ReadObjectMore", func(t *eng.T, lit []byte) (string, error) {
		it := newIter(t, jzon.DefaultDecoderConfig, wrapDoc(`{"a":0 , `, lit, ":1}"))
		defer it.Release()
		if _, _, err := it.ReadObjectBegin(); err != nil {
			return "", err
		}
		if err := it.Skip(); err != nil {
			return "", err
		}
		more, k, err := it.ReadObjectMore()
		if err != nil {
			return "", err
		}
		if !more {
			return "", errLen
		}
		return k, endsAt(it, '1')
	}},
	{"ReadObjectCB", func(t *eng.T, lit []byte) (string, error) {
		doc := append(wrapDoc("{", lit, ":0,"), wrapDoc("", lit, ":0}")...)
		it := newIter(t, jzon.DefaultDecoderConfig, doc)
		defer it.Release()
		var ks []string
		err := it.ReadObjectCB(func(it *jzon.Iterator, f string) error {
			ks = append(ks, f)
			return it.Skip()
		})
		if err != nil {
			return "", err
		}
		if len(ks) != 2 || ks[0] != ks[1] {
			return "", fmt.Errorf("%q", ks)
		}
		return ks[0], nil
	}},
	{"struct field", func(t *eng.T, lit []byte) (string, error) {
		var s struct {
			F string
			G *string
		}
		doc := append(wrapDoc(`{"F":`, lit, `,"G":`), append(clone(lit), '}')...)
		if err := pickEntry(t).f(jzon.DefaultDecoderConfig, t, doc, &s); err != nil {
			return "", err
		}
		if s.G == nil || *s.G != s.F {
			return "", fmt.Errorf("G differs")
		}
		return s.F, nil
	}},
	{"UnmarshalText", func(t *eng.T, lit []byte) (string, error) {
		var s cat.TStr
		if err := pickEntry(t).f(jzon.DefaultDecoderConfig, t, clone(lit), &s); err != nil {
			return "", err
		}
		return string(s[1 : len(s)-1]), nil
	}},
	{"string within a string", func(t *eng.T, lit []byte) (string, error) {
		var s struct {
			F string `json:",string"`
		}
		doc := append(gen.Requote(t, []byte(`{"F":`), lit), '}')
		// a text of bytes under 0x20 inside the outer literal is no longer a
		// literal at all
		if err := pickEntry(t).f(jzon.DefaultDecoderConfig, t, doc, &s); err != nil {
			return "", err
		}
		return s.F, nil
	}},
	{"RawMessage", func(t *eng.T, lit []byte) (string, error) {
		var r json.RawMessage
		if err := pickEntry(t).f(jzon.DefaultDecoderConfig, t, clone(lit), &r); err != nil {
			return "", err
		}
		if string(r) != string(lit) {
			return "", fmt.Errorf("raw text %q", r)
		}
		var s string
		return s, jzon.Unmarshal(r, &s)
	}},
}

const strRaw = 18 // index of the entry which checks the text only

// c06Check gives a literal to one API.
func c06Check(t *eng.T, i int, lit []byte, want string, ok bool) {
	a := &strAPIs[i]
	got, err := a.f(t, lit)
	if (err == nil) != ok {
		t.Failf("%s: error %v for the literal %s (valid: %v)", a.name, err, gen.Show(lit), ok)
	}
	if ok && got != want && i != strRaw {
		t.Failf("%s: got %q want %q for the literal %s", a.name, got, want, gen.Show(lit))
	}
}

// c06Bad damages a literal so that it is certainly not one.
func c06Bad(t *eng.T, j *gen.J) []byte {
	head := append([]byte{'"'}, gen.StrBody(t, nil, j)...)
	tail := append(gen.StrBody(t, nil, j), '"')
	switch t.W(3, 3, 3, 2, 1) {
	case 0: // control character
		head = append(head, byte(t.Int(0x20)))
	case 1: // unknown escape
		c := byte(t.Int(128))
		for indexAny([]byte{c}, `"\/bfnrtu`) {
			c++
		}
		head = append(head, '\\', c)
	case 2: // bad hex digit
		head = append(head, '\\', 'u')
		bad := t.Int(4)
		for i := 0; i < 4; i++ {
			if i == bad {
				head = append(head, "gG:/@`\"\\ xX\x00\x1f-+.\x7f"[t.Int(17)])
			} else {
				head = append(head, "0123456789abcdefABCDEF"[t.Int(22)])
			}
		}
	case 3: // high surrogate, then a bad low half
		head = append(head, t.Str(`\ud83d\u`, `\ud83d\uZ`, `\ud83d\ude0`, `\uDBFF\x`, `\ud800\u12G4`, `\ud83d\ud83d\q`)...)
		head = append(head, "zZ"[t.Int(2)])
	default: // never closed
		return head
	}
	return append(head, tail...)
}

func init() {
	eng.Register(&eng.Prop{
		ID:          "C06",
		Rule:        "a case is one string literal (raw and escaped characters of all classes, surrogate pairs and lone surrogates, 0 to 5000 bytes) or one text that is nearly a literal, read in 4 of 19 ways from bytes or from a chunked reader; non-trivial: it has an escape or a character beyond ASCII, or is longer than 60 bytes. enumerated: all 65536 single \\u escapes, all 128 characters after a backslash, all 128 raw ASCII characters, all code points raw, a grid of escape pairs around the surrogate ranges",
		Assumptions: []string{refNote, "text that is not UTF-8 is outside the property"},
		Quick:       3200000, Thorough: 60000000,
		Exhaustive: func(t *eng.T) int {
			n := 0
			one := func(lit string) {
				n++
				node, st := ref.Document([]byte(lit))
				var s string
				err := jzon.Unmarshal([]byte(lit), &s)
				if (err == nil) != (st == ref.OK) {
					t.Failf("Unmarshal into string: error %v for %q", err, lit)
				}
				if err == nil && s != node.Str {
					t.Failf("Unmarshal into string: %q for %q", s, lit)
				}
				if jzon.Valid([]byte(lit)) != (st == ref.OK) {
					t.Failf("Valid: %v for %q", st != ref.OK, lit)
				}
			}
			for c := 0; c < 0x10000; c++ {
				one(fmt.Sprintf(`"\u%04x"`, c))
				one(fmt.Sprintf(`"a\u%04Xb"`, c))
			}
			for c := 0; c < 128; c++ {
				one(`"` + string(rune(c)) + `"`)
				one(`"\` + string(rune(c)) + `"`)
				one(`"x\` + string(rune(c)) + `y"`)
				for k := 0; k < 4; k++ {
					h := []byte("0a9F")
					h[k] = byte(c)
					one(`"\u` + string(h) + `"`)
					one(`"\ud800\u` + string(h) + `"`)
				}
			}
			for c := rune(0x80); c <= utf8.MaxRune; c++ {
				if c >= 0xd800 && c < 0xe000 {
					continue
				}
				if c > 0x3000 && c%17 != 0 {
					continue
				}
				one(`"` + string(c) + `"`)
			}
			var grid []int
			for _, b := range []int{0, 0x41, 0xd7fe, 0xd800, 0xd83d, 0xdbfe, 0xdc00, 0xde00, 0xdffe, 0xe000, 0xfffd} {
				grid = append(grid, b, b+1)
			}
			for _, a := range grid {
				for _, b := range grid {
					one(fmt.Sprintf(`"\u%04x\u%04x"`, a, b))
					one(fmt.Sprintf(`"\u%04x\n"`, a))
					one(fmt.Sprintf(`"\u%04x\u%04x\u%04x"`, a, b, 0xdc05))
					one(fmt.Sprintf(`"\u%04xz\u%04x"`, a, b))
					for _, c := range []int{0xd801, 0xdc01, 0x42} {
						one(fmt.Sprintf(`"\u%04x\u%04x\u%04x\u%04x"`, a, b, c, 0xdc07))
					}
				}
			}
			return n
		},
		Run: func(t *eng.T) {
			j := gen.DefaultJ()
			j.LongStr = 5000
			if !t.P(1, 30) {
				j.LongStr = 300
			}
			var lit []byte
			if t.P(1, 4) {
				lit = c06Bad(t, j)
				t.Label("not a literal")
			} else {
				lit = gen.String(t, nil, j)
			}
			node, st := ref.Document(lit)
			ok := st == ref.OK
			if ok && node.Kind != ref.Str {
				t.Failf("generator: %s", gen.Show(lit))
			}
			want := ""
			if ok {
				want = node.Str
			}
			t.Key(lit)
			t.Sample(func() string { return gen.Show(lit) })
			if len(lit) > 60 || indexAny(lit, "\\") || want != "" && len(want) != len([]rune(want)) {
				t.Nontrivial()
			}
			for k := 0; k < 4; k++ {
				c06Check(t, t.Int(len(strAPIs)), lit, want, ok)
			}
		},
	})
}
