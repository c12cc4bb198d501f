package props

import (
	"encoding/json"
	"reflect"
	"strconv"

	"github.com/zerosnake0/jzon"

	"verif/cat"
	"verif/eng"
	"verif/gen"
	"verif/ref"
)

var c30Types = []reflect.Type{
	ty(false), ty(0), ty(int8(0)), ty(int16(0)), ty(int32(0)), ty(int64(0)), ty(uint(0)), ty(uint8(0)), ty(uint16(0)), ty(uint32(0)), ty(uint64(0)), ty(uintptr(0)), ty(float32(0)), ty(float64(0)), ty(""),
	ty(cat.NBool(false)), ty(cat.NInt(0)), ty(cat.NInt8(0)), ty(cat.NUint64(0)), ty(cat.NF32(0)), ty(cat.NF64(0)), ty(cat.NStr("")), ty(json.Number("")),
}

// the option has no effect on these
var c30Other = []reflect.Type{ty([]int(nil)), ty([]string(nil)), ty([2]bool{}), ty(map[string]int(nil)), ty(map[int]string(nil)), ifaceT, ty(struct {
	A int
	B string
}{}), ty([]byte(nil)), ty(json.RawMessage(nil)), ty((**int)(nil)), ty((*[]string)(nil)), ty(cat.EmbA{})}

func c30Field(t *eng.T) reflect.Type {
	if t.P(1, 6) {
		return c30Other[t.Int(len(c30Other))]
	}
	f := c30Types[t.Int(len(c30Types))]
	if t.P(1, 4) {
		return reflect.PtrTo(f)
	}
	return f
}

func init() {
	eng.Register(&eng.Prop{
		ID:          "C30",
		Rule:        "a case is a struct type of 1 to 13 fields with the string option (also spelled wrongly, beside omitempty, or missing), on booleans, integers, floats, strings, json.Number, named types, pointers to them and types it has no effect on, and 2 values of it and 2 documents for it (quoted, unquoted, null, badly quoted); encoding and decoding are compared with encoding/json, and encoded values are decoded again; non-trivial: at least 2 fields",
		Assumptions: []string{stdNote, "numbers spelled with escapes, the text null inside a quoted number, lax spellings of numbers that encoding/json accepts inside strings are excluded"},
		Quick:       300000, Thorough: 25000000,
		Run: func(t *eng.T) {
			var fs []reflect.StructField
			n := t.Range(1, 5)
			if t.P(1, 6) {
				n = t.Range(9, 13)
			}
			if n > 1 {
				t.Nontrivial()
			}
			for i := 0; i < n; i++ {
				f := reflect.StructField{Name: string(rune('A' + i)), Type: c30Field(t)}
				switch t.W(10, 2, 2, 1, 1) {
				case 0:
					f.Tag = `json:",string"`
				case 1:
					f.Tag = `json:",omitempty,string"`
				case 2:
					f.Tag = reflect.StructTag(`json:"n` + strconv.Itoa(i) + `,string"`)
				case 3:
					f.Tag = reflect.StructTag(`json:"` + []string{", string", ",string ", ",String", ",strin", ",strings"}[t.Int(5)] + `"`)
				}
				fs = append(fs, f)
			}
			vt := reflect.StructOf(fs)
			enc, dec := jzon.NewEncoderConfig(nil), jzon.NewDecoderConfig(nil)
			t.Key([]byte(vt.String()))
			t.Sample(func() string { return typeStr(vt) })
			for k := 0; k < 2; k++ {
				vg := &gen.VG{T: t, NoBF: true}
				v := vg.Value(vt)
				html := t.P(3, 4)
				x := v.Addr().Interface()
				want, stdErr := stdEncode(x, html)
				if stdErr != nil {
					continue
				}
				e := pickEnc(t)
				out, err := e.f(t, enc, html, x)
				if err != nil {
					t.Failf("%s of %s: %v", e.name, typeStr(vt), err)
				}
				t.Key(want)
				if d := sameJSON(out, want, true); d != "" {
					t.Failf("%s of %s (html %v): %s", e.name, typeStr(vt), html, d)
				}
				a, b := reflect.New(vt), reflect.New(vt)
				if json.Unmarshal(want, b.Interface()) != nil {
					continue
				}
				if err := dec.Unmarshal(out, a.Interface()); err != nil {
					t.Failf("%s cannot be decoded into %s: %v", gen.Show(out), typeStr(vt), err)
				}
				if d := ref.Diff(a.Interface(), b.Interface()); d != "" {
					t.Failf("%s back into %s differs at %s", gen.Show(out), typeStr(vt), d)
				}
			}
			for _, f := range gen.Fields(vt, "json") {
				// the text null leaves booleans and strings as they are
				if k := f.Type.Kind(); f.Quoted && (k == reflect.Bool || k == reflect.String && f.Type != ty(json.Number(""))) && t.P(1, 3) {
					doc := []byte(`{"` + f.Name + `":"` + []string{"null", "null", "nul", "nulll", " null", "null "}[t.Int(6)] + `"}`)
					a, b := (&gen.VG{T: t}).Value(vt), reflect.New(vt)
					b.Elem().Set(a)
					err, stdErr := dec.Unmarshal(clone(doc), a.Addr().Interface()), json.Unmarshal(doc, b.Interface())
					if (err == nil) != (stdErr == nil) {
						t.Failf("into %s: error %v, encoding/json %v for %s", typeStr(vt), err, stdErr, gen.Show(doc))
					}
					if d := ref.Diff(a.Addr().Interface(), b.Interface()); err == nil && d != "" {
						t.Failf("into %s: differs at %s for %s", typeStr(vt), d, gen.Show(doc))
					}
				}
			}
			for k := 0; k < 2; k++ {
				dg := &gen.DG{T: t, Wrong: []int{0, 20, 60}[t.Int(3)], WS: t.Int(3)}
				doc := dg.Doc(vt)
				if !validUTF8(doc) || numEscape.Match(doc) {
					continue
				}
				t.Key(doc)
				a, b := reflect.New(vt), reflect.New(vt)
				e := pickEntry(t)
				err := e.f(dec, t, clone(doc), a.Interface())
				stdErr := json.Unmarshal(doc, b.Interface())
				if err != nil && stdErr == nil && quotedNumber(vt, map[reflect.Type]bool{}) {
					continue
				}
				if (err == nil) != (stdErr == nil) {
					t.Failf("%s into %s: error %v, encoding/json %v for %s", e.name, typeStr(vt), err, stdErr, gen.Show(doc))
				}
				if err != nil {
					t.Label("rejected")
					continue
				}
				if d := ref.Diff(a.Interface(), b.Interface()); d != "" {
					t.Failf("%s into %s: differs at %s for %s", e.name, typeStr(vt), d, gen.Show(doc))
				}
			}
		},
	})
}
