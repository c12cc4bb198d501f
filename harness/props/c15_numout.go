package props

import (
	"bytes"
	"encoding/json"
	"math"
	"reflect"
	"strconv"

	"github.com/zerosnake0/jzon"

	"verif/cat"
	"verif/eng"
	"verif/gen"
)

// numPlaces wrap a number type; the literal appears at %s.
type numPlace struct {
	name string
	mk   func(v reflect.Value) interface{}
	pre  string
	post string
	ints bool // integers only
}

func field(v reflect.Value, tag string, extra bool) reflect.Value {
	fs := []reflect.StructField{{Name: "F", Type: v.Type(), Tag: reflect.StructTag(tag)}}
	if extra {
		fs = append(fs, reflect.StructField{Name: "G", Type: reflect.TypeOf(0)})
	}
	s := reflect.New(reflect.StructOf(fs)).Elem()
	s.Field(0).Set(v)
	return s
}

func ptrTo(v reflect.Value) reflect.Value {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p
}

var numPlaces = []numPlace{
	{"value", func(v reflect.Value) interface{} { return v.Interface() }, "", "", false},
	{"pointer", func(v reflect.Value) interface{} { return ptrTo(v).Interface() }, "", "", false},
	{"slice", func(v reflect.Value) interface{} {
		s := reflect.MakeSlice(reflect.SliceOf(v.Type()), 2, 2)
		s.Index(1).Set(v)
		return s.Interface()
	}, "[0,", "]", false},
	{"array", func(v reflect.Value) interface{} {
		s := reflect.New(reflect.ArrayOf(2, v.Type())).Elem()
		s.Index(0).Set(v)
		return s.Interface()
	}, "[", ",0]", false},
	{"one element array of a pointer", func(v reflect.Value) interface{} {
		p := ptrTo(v)
		s := reflect.New(reflect.ArrayOf(1, p.Type())).Elem()
		s.Index(0).Set(p)
		return s.Interface()
	}, "[", "]", false},
	{"map value", func(v reflect.Value) interface{} {
		m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), v.Type()))
		m.SetMapIndex(reflect.ValueOf("k"), v)
		return m.Interface()
	}, `{"k":`, "}", false},
	{"map key", func(v reflect.Value) interface{} {
		m := reflect.MakeMap(reflect.MapOf(v.Type(), reflect.TypeOf(true)))
		m.SetMapIndex(v, reflect.ValueOf(true))
		return m.Interface()
	}, `{"`, `":true}`, true},
	{"field", func(v reflect.Value) interface{} { return field(v, "", true).Interface() }, `{"F":`, `,"G":0}`, false},
	{"pointer field", func(v reflect.Value) interface{} { return field(ptrTo(v), `json:"f,omitempty"`, false).Interface() }, `{"f":`, `}`, false},
	{"quoted field", func(v reflect.Value) interface{} { return field(v, `json:"f,string"`, true).Interface() }, `{"f":"`, `","G":0}`, false},
	{"quoted pointer field", func(v reflect.Value) interface{} {
		return field(ptrTo(v), `json:",omitempty,string"`, true).Interface()
	}, `{"F":"`, `","G":0}`, false},
	{"interface", func(v reflect.Value) interface{} { return []interface{}{v.Interface(), "x"} }, "[", `,"x"]`, false},
	{"pointer to interface", func(v reflect.Value) interface{} { x := v.Interface(); return &x }, "", "", false},
}

var outTypes = []reflect.Type{
	ty(int8(0)), ty(int16(0)), ty(int32(0)), ty(int64(0)), ty(int(0)), ty(uint8(0)), ty(uint16(0)), ty(uint32(0)), ty(uint64(0)), ty(uint(0)), ty(uintptr(0)),
	ty(float32(0)), ty(float64(0)), ty(cat.NInt8(0)), ty(cat.NInt16(0)), ty(cat.NInt32(0)), ty(cat.NInt64(0)), ty(cat.NUint16(0)), ty(cat.NUint32(0)), ty(cat.NUint64(0)), ty(cat.NF32(0)), ty(cat.NF64(0)), ty(cat.NUptr(0)),
}

func init() {
	eng.Register(&eng.Prop{
		ID:          "C15",
		Rule:        "a case is one number of a type (all widths, named types; near bounds, powers of ten, random bits, format thresholds) encoded at 3 of 13 kinds of places, or a NaN or infinity nested in a value; non-trivial: more than one digit. enumerated: all 8 and 16 bit integers, all powers of two and ten and their neighbours, all exponents of float32 and float64 with several mantissas",
		Assumptions: []string{"strconv formats integers correctly; the layout of floats is that of encoding/json; strconv.ParseFloat gives the nearest float"},
		Quick:       3200000, Thorough: 40000000,
		Exhaustive: func(t *eng.T) int {
			n := 0
			one := func(v interface{}, want string) {
				n++
				b, err := jzon.Marshal(v)
				if err != nil || string(b) != want {
					t.Failf("Marshal of %T: %s, %v, want %s", v, b, err, want)
				}
			}
			for i := -32768; i < 65536; i++ {
				w := strconv.Itoa(i)
				if i < 32768 {
					one(int16(i), w)
				}
				if i >= 0 {
					one(uint16(i), w)
				}
				if i >= -128 && i < 128 {
					one(int8(i), w)
				}
				if i >= 0 && i < 256 {
					one(uint8(i), w)
				}
				one(int32(i), w)
				one(int64(i), w)
				one(int(i), w)
				if i >= 0 {
					one(uint32(i), w)
					one(uint64(i), w)
				}
			}
			var vals []uint64
			for k := uint(0); k < 64; k++ {
				vals = append(vals, 1<<k)
			}
			for p := uint64(1); ; p *= 10 {
				for d := uint64(1); d < 10; d++ {
					vals = append(vals, p*d)
				}
				if p > 1e18 {
					break
				}
			}
			for _, v := range vals {
				for d := uint64(0); d < 7; d++ {
					x := v + d - 3
					one(x, strconv.FormatUint(x, 10))
					one(uint32(x), strconv.FormatUint(uint64(uint32(x)), 10))
					one(int64(x), strconv.FormatInt(int64(x), 10))
					one(-int64(x), strconv.FormatInt(-int64(x), 10))
					one(int32(x), strconv.FormatInt(int64(int32(x)), 10))
				}
			}
			fl := func(v interface{}) {
				w, err := json.Marshal(v)
				if err != nil {
					t.Failf("encoding/json: %v", err)
				}
				one(v, string(w))
			}
			for e := uint64(0); e < 2047; e++ {
				for _, m := range []uint64{0, 1, 1 << 51, 1<<52 - 1, 0x123456789abcd} {
					fl(math.Float64frombits(e<<52 | m))
					fl(math.Float64frombits(1<<63 | e<<52 | m))
				}
			}
			for e := uint32(0); e < 255; e++ {
				for _, m := range []uint32{0, 1, 1 << 22, 1<<23 - 1, 0x123456} {
					fl(math.Float32frombits(e<<23 | m))
					fl(math.Float32frombits(1<<31 | e<<23 | m))
				}
			}
			return n
		},
		Run: func(t *eng.T) {
			ty := outTypes[t.Int(len(outTypes))]
			v := reflect.New(ty).Elem()
			isF := false
			switch {
			case ty.Kind() == reflect.Float32:
				isF = true
				v.SetFloat(float64(gen.Float32(t)))
			case ty.Kind() == reflect.Float64:
				isF = true
				v.SetFloat(gen.Float64(t))
			case ty.Kind() >= reflect.Uint:
				v.SetUint(gen.Uint64For(t, ty.Bits()))
			default:
				v.SetInt(gen.Int64For(t, ty.Bits()))
			}
			var lit string
			if isF {
				b, err := json.Marshal(v.Interface())
				if err != nil {
					t.Skip()
				}
				lit = string(b)
				f, err := strconv.ParseFloat(lit, ty.Bits())
				if err != nil || math.Float64bits(f) != math.Float64bits(v.Float()) {
					t.Failf("oracle: %s for %v", lit, v.Float())
				}
			} else if ty.Kind() >= reflect.Uint {
				lit = strconv.FormatUint(v.Uint(), 10)
			} else {
				lit = strconv.FormatInt(v.Int(), 10)
			}
			t.Key([]byte(ty.String() + lit))
			t.Sample(func() string { return ty.String() + " " + lit })
			if len(lit) > 1 {
				t.Nontrivial()
			}
			bad := isF && t.P(1, 6)
			var badErr error
			if bad {
				x := []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[t.Int(3)]
				v.SetFloat(x)
				badErr = jzon.ErrFloatIsInfinity
				if x != x {
					badErr = jzon.ErrFloatIsNan
				}
				t.Label("NaN or infinity")
			}
			for k := 0; k < 3; k++ {
				p := &numPlaces[t.Int(len(numPlaces))]
				if p.ints && isF {
					continue
				}
				if ty.Kind() == reflect.Uint8 && p.name == "slice" {
					continue // base64
				}
				x := p.mk(v)
				e := pickEnc(t)
				cfg := jzon.DefaultEncoderConfig
				if t.P(1, 20) {
					cfg = jzon.NewEncoderConfig(nil)
				}
				out, err := e.f(t, cfg, true, x)
				if bad {
					if err != badErr {
						t.Failf("%s of %s (%s): error %v for %v, want %v", e.name, ty, p.name, err, v.Float(), badErr)
					}
					if len(out) > 0 {
						t.Failf("%s of %s (%s): output %s together with an error", e.name, ty, p.name, gen.Show(out))
					}
					continue
				}
				want := []byte(p.pre + lit + p.post)
				if err != nil || !bytes.Equal(out, want) {
					t.Failf("%s of %s (%s): %s, %v, want %s", e.name, ty, p.name, gen.Show(out), err, want)
				}
			}
			// streamer methods
			s := jzon.NewStreamer()
			defer s.Release()
			var w bytes.Buffer
			s.Reset(&w)
			s.ArrayStart()
			switch ty.Kind() {
			case reflect.Int8:
				s.Int8(int8(v.Int()))
			case reflect.Int16:
				s.Int16(int16(v.Int()))
			case reflect.Int32:
				s.Int32(int32(v.Int()))
			case reflect.Int64:
				s.Int64(v.Int())
			case reflect.Int:
				s.Int(int(v.Int()))
			case reflect.Uint8:
				s.Uint8(uint8(v.Uint()))
			case reflect.Uint16:
				s.Uint16(uint16(v.Uint()))
			case reflect.Uint32:
				s.Uint32(uint32(v.Uint()))
			case reflect.Uint64, reflect.Uintptr:
				s.Uint64(v.Uint())
			case reflect.Uint:
				s.Uint(uint(v.Uint()))
			case reflect.Float32:
				s.Float32(float32(v.Float()))
			case reflect.Float64:
				s.Float64(v.Float())
			}
			s.ArrayEnd()
			err := s.Flush()
			if bad {
				if err != badErr || w.Len() > 0 {
					t.Failf("Streamer of %s: error %v, output %s", ty, err, w.Bytes())
				}
			} else if err != nil || w.String() != "["+lit+"]" {
				t.Failf("Streamer of %s: %s, %v, want %s", ty, w.Bytes(), err, lit)
			}
		},
	})
}
