package props

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"unicode"

	"github.com/zerosnake0/jzon"

	"verif/eng"
	"verif/gen"
)

// c17Names: names with case variants, the special letters k and s, letters
// whose fold has another length in UTF-8, digits and punctuation.
var c17Names = []string{
	"a", "A", "ab", "aB", "Ab", "AB", "k", "K", "\u212a", "s", "S", "ſ", "key", "KEY", "sky", "ſKy", "mask_1", "x-y", "x_y", "x.y", "a b",
	"é", "É", "ß", "ẞ", "σ", "ς", "Σ", "ǆ", "ǅ", "Ǆ", "İ", "i", "I", "ı", "θ", "ϑ", "µ", "μ", "日本", "Ω", "\u2126", "ω", "ῼ", "ῳ", "Ꭰ", "ꭰ",
	"_", "1", "12", "A1", "a1", "@", "`"[:1], "[", "{", "^", "~", "name", "Name", "NAME", "longer_field_name_with_more_than_sixty_four_bytes_so_that_buffers_must_grow_1",
	"longer_field_name_with_more_than_sixty_four_bytes_so_that_buffers_must_grow_K", "Z", "z", "az", "AZ", "@b", "`b"[1:], "ÀÁÂ", "àáâ",
	"s[", "k{", "ks^", "S~", "k@", "z_1", "Z-1", "a[", "z{", "m^", "a@1", "k_", "sZ", "Kz_", "𐐀", "𐐨",
}

func c17Name(t *eng.T) string {
	for i := 0; i < 4; i++ {
		var s string
		switch t.W(8, 3, 2) {
		case 0:
			s = c17Names[t.Int(len(c17Names))]
		case 1:
			s = gen.Fold(t, c17Names[t.Int(len(c17Names))])
		case 2:
			n := t.Range(1, 6)
			for k := 0; k < n; k++ {
				s += string(gen.Rune(t))
			}
			if t.Bool() {
				s = c17Names[t.Int(len(c17Names))] + s
			}
		}
		if gen.ValidName(s) {
			return s
		}
	}
	return "A"
}

// near returns a key that is nearly a name.
func c17Near(t *eng.T, s string) string {
	switch t.Int(6) {
	case 0:
		return s + t.Str("a", "s", "K", "_", "ſ", " ", "\x00")
	case 1:
		_, sz := firstRune(s)
		return s[sz:]
	case 2: // flip the case bit of a byte, letter or not
		b := []byte(s)
		i := t.Int(len(b))
		if b[i] < 0x80 {
			b[i] ^= 0x20
		}
		if b[i] == 0x7f || b[i] == '"' {
			b[i] = 'q'
		}
		return string(b)
	case 3:
		return " " + s
	case 4:
		r := []rune(s)
		i := t.Int(len(r))
		r[i] += rune(t.Range(-1, 1))
		if !unicode.IsLetter(r[i]) {
			r[i] = 'ſ'
		}
		return string(r)
	default:
		return strings.ToUpper(s)
	}
}

func firstRune(s string) (rune, int) {
	for i, r := range s {
		_ = i
		return r, len(string(r))
	}
	return 0, 0
}

// c17Runes matches keys with every rune at one place against structs of all
// sizes.
func c17Runes(t *eng.T) int {
	var large, upper []string
	for c := 'a'; c <= 'z'; c++ {
		large = append(large, string(c))
		upper = append(upper, string(c-32), string(c)+"_")
	}
	large = append(large, "1", "_", "é", "σ", "ß", "µ", "ω", "ǆ", "日", "[", "{", "@")
	sets := []struct {
		pre, post string
		names     []string
	}{
		{"", "", []string{"k"}}, {"", "", []string{"s"}}, {"", "", []string{"A"}}, {"", "", []string{"_"}}, {"", "", []string{"å"}},
		{"", "", []string{"K", "s", "x", "1"}}, {"", "", large}, {"", "_", upper},
		{"as", "_1", []string{"ask_1", "ass_1", "asx_1", "AS__1"}},
		{"", "ey", []string{"key"}}, {"q", "", []string{"qz", "q[", "q@", "q\u0131"}},
	}
	n := 0
	for _, set := range sets {
		var fs []reflect.StructField
		for i, nm := range set.names {
			fs = append(fs, reflect.StructField{Name: "F" + strconv.Itoa(i), Type: ty(0), Tag: reflect.StructTag(`json:"` + nm + `"`)})
		}
		st := reflect.StructOf(fs)
		for _, cs := range []bool{false, true} {
			cfg := jzon.NewDecoderConfig(&jzon.DecoderOption{CaseSensitive: cs})
			v := reflect.New(st)
			zero := reflect.Zero(st)
			for r := rune(0); r <= 0x1ffff; r++ {
				if r >= 0xd800 && r <= 0xdfff || cs && r > 0x2200 {
					continue
				}
				n++
				key := set.pre + string(r) + set.post
				hit := -1
				for i, nm := range set.names {
					if nm == key {
						hit = i
						break
					}
					if hit < 0 && !cs && strings.EqualFold(nm, key) {
						hit = i
					}
				}
				lit := string(r)
				if r < 0x20 || r == '"' || r == '\\' {
					lit = fmt.Sprintf("\\u%04x", r)
				}
				v.Elem().Set(zero)
				if err := cfg.Unmarshal([]byte(`{"`+set.pre+lit+set.post+`":1}`), v.Interface()); err != nil {
					t.Failf("%v for the key %q into fields %q", err, key, set.names)
				}
				for i, nm := range set.names {
					want := int64(0)
					if i == hit {
						want = 1
					}
					if got := v.Elem().Field(i).Int(); got != want {
						t.Failf("field %q is %d, want %d; fields %q caseSensitive %v, key %q", nm, got, want, set.names, cs, key)
					}
				}
			}
		}
	}
	return n
}

func init() {
	eng.Register(&eng.Prop{
		ID:          "C17",
		Rule:        "a case is a struct type of 0 to 140 fields whose names collide up to case, a config (case sensitive or not, unknown fields allowed or not, set on the config or on the decoder) and an object of up to 12 keys (exact, folded, nearly equal, unknown, repeated, written with escapes), decoded and compared with a model of the matching; non-trivial: some key is not an exact match. enumerated: keys with every rune up to U+1FFFF at one place against 11 structs",
		Assumptions: []string{"the model: an exact match, else (unless case sensitive) the first field in declaration order equal under simple Unicode case folding, else unknown; strings.EqualFold implements simple folding", "keys are UTF-8"},
		Quick:       600000, Thorough: 40000000,
		Exhaustive: c17Runes,
		Run: func(t *eng.T) {
			n := []int{0, 1, t.Range(2, 4), t.Range(5, 10), t.Range(11, 25), t.Range(26, 140)}[t.W(10, 40, 40, 30, 40, 1)]
			var names []string
			used := map[string]bool{}
			var fs []reflect.StructField
			for i := 0; i < n; i++ {
				nm := c17Name(t)
				if len(names) > 0 && t.P(1, 4) {
					nm = gen.Fold(t, names[t.Int(len(names))])
				}
				if used[nm] || !gen.ValidName(nm) {
					nm = "f" + strconv.Itoa(i)
				}
				for used[nm] {
					nm += "_"
				}
				used[nm] = true
				names = append(names, nm)
				tag := nm
				if nm == "-" {
					tag = "-,"
				}
				fs = append(fs, reflect.StructField{Name: "F" + strconv.Itoa(i), Type: ty(0), Tag: reflect.StructTag(`json:"` + tag + `"`)})
			}
			// some of the fields in an embedded struct, at the same place
			at := make([][]int, n)
			for i := range at {
				at[i] = []int{i}
			}
			if n > 1 && t.P(1, 4) {
				a := t.Int(n - 1)
				b := t.Range(a+1, n)
				et := reflect.StructOf(fs[a:b:b])
				if t.Bool() {
					et = reflect.PtrTo(et)
				}
				rest := append([]reflect.StructField(nil), fs[b:]...)
				fs = append(append(fs[:a:a], reflect.StructField{Name: "E", Type: et, Anonymous: true}), rest...)
				for i := range at {
					switch {
					case i >= b:
						at[i][0] -= b - a - 1
					case i >= a:
						at[i] = []int{a, i - a}
					}
				}
			}
			st := reflect.StructOf(fs)
			cs := t.P(1, 3)
			strict := t.P(1, 3)
			opt := &jzon.DecoderOption{CaseSensitive: cs, DisallowUnknownFields: strict}
			byDec := strict && t.P(1, 3)
			if byDec {
				opt.DisallowUnknownFields = false
			}
			cfg := jzon.NewDecoderConfig(opt)
			j := &gen.J{MaxDepth: 2, MaxElems: 3, Budget: 8, LongStr: 300}
			for k := 0; k < 2; k++ {
				want := make([]int, n)
				wantErr := false
				doc := []byte("{")
				m := t.Int(13)
				for i := 0; i < m && !wantErr; i++ {
					key := ""
					switch {
					case n == 0 || t.P(1, 8):
						key = c17Name(t)
					default:
						key = names[t.Int(n)]
						switch t.W(3, 4, 2) {
						case 1:
							key = gen.Fold(t, key)
						case 2:
							key = c17Near(t, key)
						}
					}
					hit := -1
					for x, nm := range names {
						if nm == key {
							hit = x
						}
					}
					if hit < 0 && !cs {
						for x, nm := range names {
							if strings.EqualFold(nm, key) {
								hit = x
								t.Label("folded")
								break
							}
						}
						t.Nontrivial()
					}
					if hit < 0 && strict && t.P(2, 3) {
						continue
					}
					if len(doc) > 1 {
						doc = append(doc, ',')
					}
					doc = gen.KeyLit(t, doc, key)
					doc = append(doc, ':')
					if hit >= 0 {
						want[hit] = i + 1
						doc = strconv.AppendInt(doc, int64(i+1), 10)
						continue
					}
					t.Label("unknown")
					t.Nontrivial()
					doc = gen.Text(t, doc, j)
					wantErr = strict
				}
				doc = append(doc, '}')
				t.Key(doc)
				t.Sample(func() string {
					return fmt.Sprintf("fields %q caseSensitive %v strict %v: %s", names, cs, strict, gen.Show(doc))
				})
				v := reflect.New(st)
				var err error
				how := "Decoder"
				if byDec {
					d := cfg.NewDecoder(gen.Chunked(t, doc))
					d.DisallowUnknownFields()
					err = d.Decode(v.Interface())
					d.Release()
				} else {
					e := pickEntry(t)
					how = e.name
					err = e.f(cfg, t, clone(doc), v.Interface())
				}
				if (err != nil) != wantErr {
					t.Failf("%s: error %v, want error: %v; fields %q caseSensitive %v strict %v, %s", how, err, wantErr, names, cs, strict, gen.Show(doc))
				}
				if err != nil {
					t.Label("rejected")
					continue
				}
				for i := range want {
					got := 0
					if f, err := v.Elem().FieldByIndexErr(at[i]); err == nil {
						got = f.Interface().(int)
					}
					if got != want[i] {
						t.Failf("%s: field %q is %d, want %d; fields %q caseSensitive %v, %s", how, names[i], got, want[i], names, cs, gen.Show(doc))
					}
				}
			}
		},
	})
}
