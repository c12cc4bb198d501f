package props

import (
	"fmt"
	"math"
	"reflect"
	"strconv"

	"github.com/zerosnake0/jzon"

	"verif/cat"
	"verif/eng"
	"verif/gen"
)

func floatOf(v reflect.Value) float64 { return v.Float() }

func sameFloat(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

func init() {
	eng.Register(&eng.Prop{
		ID:          "C05",
		Rule:        "a case is one number literal (shortest form of random bits, exact half-way points between adjacent float64/float32 values, subnormals, the overflow thresholds, mantissas up to 700 digits, exponents up to 460) read as float64 and float32 by the iterator and by 2 of 9 kinds of destination; non-trivial: the literal has a fraction, an exponent or more than 15 digits",
		Assumptions: []string{"strconv.ParseFloat rounds correctly"},
		Quick:       1500000, Thorough: 30000000,
		Run: func(t *eng.T) {
			lit := gen.Number(t, false)
			if t.P(1, 4) {
				lit = gen.HardFloat(t)
			}
			if t.P(1, 25) { // around the overflow and underflow thresholds
				lit = t.Str("1.797693134862315", "1.797693134862316", "3.402823", "3.40282356", "3.4028236", "1.4", "7.0", "4.9", "2.47", "2.4703282292062327", "2.4703282292062328", "1.7976931348623158", "1.7976931348623159") + gen.Digits(t, t.Range(0, 4), false) + t.Str("e308", "E+308", "e38", "e-45", "e-46", "e-324", "e309", "e39")
			}
			if len(lit) > 15 || indexAny([]byte(lit), ".eE") {
				t.Nontrivial()
			}
			t.Key([]byte(lit))
			t.Sample(func() string { return lit })
			want64, err64 := strconv.ParseFloat(lit, 64)
			w32, err32 := strconv.ParseFloat(lit, 32)
			check := func(name string, bits int, got float64, err error) {
				want, wantErr := want64, err64
				if bits == 32 {
					want, wantErr = w32, err32
				}
				if (err == nil) != (wantErr == nil) {
					t.Failf("%s (float%d): error %v, expected %v for %s", name, bits, err, wantErr, lit)
				}
				if err == nil && !sameFloat(got, want) {
					t.Failf("%s (float%d): got %v, expected %v for %s", name, bits, got, want, lit)
				}
			}
			if err64 != nil {
				t.Label("out of float64 range")
			}
			if err32 != nil {
				t.Label("out of float32 range")
			}
			tail := t.Str("", " ", ",", "]", "}", "\n", ",1.5e3", "\t.")
			for bits := 64; bits >= 32; bits -= 32 {
				it := jzon.NewIterator()
				text := []byte(t.Str("", " ", "\n\t") + lit + tail)
				if t.Bool() {
					it.Reset(gen.Chunked(t, text))
				} else {
					it.ResetBytes(text)
				}
				var f float64
				var err error
				if bits == 64 {
					f, err = it.ReadFloat64()
				} else {
					var f32 float32
					f32, err = it.ReadFloat32()
					f = float64(f32)
				}
				check("Iterator.ReadFloat", bits, f, err)
				if err == nil {
					_, e2 := it.NextValueType()
					i := 0
					for i < len(tail) && (tail[i] == ' ' || tail[i] == '\n' || tail[i] == '\t') {
						i++
					}
					if (e2 == nil) != (i < len(tail)) || e2 == nil && it.Buffer()[0] != tail[i] {
						t.Failf("Iterator.ReadFloat%d: wrong position after %q", bits, text)
					}
				}
				it.Release()
			}
			for k := 0; k < 2; k++ {
				bits := 32 << uint(t.Int(2))
				var el reflect.Type
				if bits == 32 {
					el = []reflect.Type{ty(float32(0)), ty(cat.NF32(0))}[t.Int(2)]
				} else {
					el = []reflect.Type{ty(float64(0)), ty(cat.NF64(0))}[t.Int(2)]
				}
				var typ reflect.Type
				var doc string
				get := func(v reflect.Value) float64 { return v.Field(0).Float() }
				way := t.Int(9)
				switch way {
				case 0:
					typ, doc = el, lit
					get = func(v reflect.Value) float64 { return v.Float() }
				case 1:
					typ, doc = reflect.PtrTo(el), lit
					get = func(v reflect.Value) float64 { return v.Elem().Float() }
				case 2:
					typ, doc = reflect.SliceOf(el), "[1,"+lit+" ,2]"
					get = func(v reflect.Value) float64 { return v.Index(1).Float() }
				case 3:
					typ, doc = reflect.MapOf(ty(""), el), `{"":`+lit+`}`
					get = func(v reflect.Value) float64 { return v.MapIndex(reflect.ValueOf("")).Float() }
				case 4:
					typ, doc = structWith("F", "", el, t.Int(13)), `{"F":`+lit+`}`
				case 5:
					typ, doc = structWith("F", `json:",string"`, el, t.Int(13)), `{"F":"`+lit+`"}`
				case 6:
					typ, doc = reflect.ArrayOf(1, el), "["+lit+"]"
					get = func(v reflect.Value) float64 { return v.Index(0).Float() }
				case 7:
					typ, doc = structWith("F", `json:"F,string"`, reflect.PtrTo(el), t.Int(13)), `{"F":"`+lit+`"}`
					get = func(v reflect.Value) float64 { return v.Field(0).Elem().Float() }
				default:
					bits = 64
					typ, doc = ifaceT, lit
					get = func(v reflect.Value) float64 { return v.Elem().Float() }
				}
				dst := reflect.New(typ)
				e := pickEntry(t)
				err := e.f(jzon.DefaultDecoderConfig, t, []byte(doc), dst.Interface())
				f := 0.0
				if err == nil {
					f = get(dst.Elem())
				}
				check(fmt.Sprintf("%s into %v from %s", e.name, typ, doc), bits, f, err)
			}
		},
	})
}
