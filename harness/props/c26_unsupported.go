package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"unsafe"

	"github.com/zerosnake0/jzon"

	"verif/eng"
	"verif/gen"
	"verif/ref"
)

// fJ and fT have methods that fail for some values.
type fJ struct{ Fail int }

type failure int

func (f failure) Error() string { return fmt.Sprintf("failure %d", int(f)) }

func (f fJ) MarshalJSON() ([]byte, error) {
	if f.Fail > 0 {
		return []byte(`"garbage"`), failure(f.Fail)
	}
	return []byte(`"ok"`), nil
}

type fT string

func (f fT) MarshalText() ([]byte, error) {
	if strings.HasPrefix(string(f), "fail") {
		return []byte("garbage"), failure(len(f))
	}
	return []byte(f), nil
}

type fK struct{ S string }

func (f fK) MarshalText() ([]byte, error) { return fT(f.S).MarshalText() }

// c26Bad are types that cannot be encoded or decoded.
var c26Bad = []reflect.Type{ty(make(chan int)), ty(func() {}), ty(complex64(0)), ty(complex128(0)), ty(map[bool]int{}), ty(map[float64]string{}), ty(map[interface{}]int{}), ty(map[[2]int]bool{}), ty(map[struct{ A int }]int{}), ty(unsafe.Pointer(nil)), ty((<-chan string)(nil)), ty(map[complex128]int{}), ty(map[*int]int{}), ty(map[chan int]int{})}

func isBad(vt reflect.Type) bool {
	for _, b := range c26Bad {
		if vt == b {
			return true
		}
	}
	return false
}

func c26Type(t *eng.T, depth int, enc bool) reflect.Type {
	if depth == 0 {
		if t.P(1, 6) {
			return c26Bad[t.Int(len(c26Bad))]
		}
		if enc {
			return []reflect.Type{ty(0), ty(""), ty(1.5), ty(float32(1)), ty(fJ{}), ty(fT("")), ifaceT, ty(true)}[t.Int(8)]
		}
		return []reflect.Type{ty(0), ty(""), ty(1.5), ifaceT, ty(true)}[t.Int(5)]
	}
	switch t.W(3, 2, 3, 3, 6) {
	case 0:
		return reflect.SliceOf(c26Type(t, depth-1, enc))
	case 1:
		return reflect.ArrayOf(t.Range(0, 2), c26Type(t, depth-1, enc))
	case 2:
		k := ty("")
		if enc {
			k = []reflect.Type{ty(""), ty(0), ty(fK{}), ty(uint8(0))}[t.Int(4)]
		}
		return reflect.MapOf(k, c26Type(t, depth-1, enc))
	case 3:
		return reflect.PtrTo(c26Type(t, depth-1, enc))
	default:
		var fs []reflect.StructField
		n := t.Range(1, 4)
		if t.P(1, 8) {
			n = t.Range(10, 12)
		}
		for i := 0; i < n; i++ {
			f := reflect.StructField{Name: string(rune('A' + i)), Type: c26Type(t, depth-1, enc)}
			switch t.Int(6) {
			case 0:
				if !(isBad(f.Type) && f.Type.Kind() == reflect.Map) {
					f.Tag = `json:",omitempty"`
				}
			case 1:
				f.Tag = `json:"-"`
			}
			fs = append(fs, f)
		}
		return reflect.StructOf(fs)
	}
}

// c26Fill fills a value; with few containers left empty the bad parts are
// reached.
func c26Fill(t *eng.T, v reflect.Value, bad bool, depth int, multi *bool) {
	if isBad(v.Type()) {
		return
	}
	switch v.Type() {
	case ty(fJ{}):
		if bad && t.P(1, 8) {
			v.Field(0).SetInt(int64(t.Range(1, 5)))
		}
		return
	case ty(fT("")), ty(fK{}):
		s := gen.GoString(t, false)
		if bad && t.P(1, 8) {
			s = "fail" + strings.Repeat("!", t.Int(5))
		}
		if v.Kind() == reflect.Struct {
			v.Field(0).SetString(s)
		} else {
			v.SetString(s)
		}
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !isBad(v.Type().Elem()) && t.P(1, 3) {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		c26Fill(t, v.Elem(), bad, depth+1, multi)
	case reflect.Slice:
		if t.P(1, 6) {
			return
		}
		n := t.Range(0, 3)
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			c26Fill(t, v.Index(i), bad, depth+1, multi)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			c26Fill(t, v.Index(i), bad, depth+1, multi)
		}
	case reflect.Map:
		if t.P(1, 6) {
			return
		}
		v.Set(reflect.MakeMap(v.Type()))
		n := 0
		if t.P(2, 3) {
			n = 1
			if t.P(1, 4) {
				n = t.Range(2, 5)
			}
		}
		for ; n > 0; n-- {
			k := reflect.New(v.Type().Key()).Elem()
			c26Fill(t, k, bad, depth+1, multi)
			e := reflect.New(v.Type().Elem()).Elem()
			c26Fill(t, e, bad, depth+1, multi)
			v.SetMapIndex(k, e)
		}
		if v.Len() > 1 {
			*multi = true
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			c26Fill(t, v.Field(i), bad, depth+1, multi)
		}
	case reflect.Interface:
		if depth > 6 || t.P(1, 4) {
			return
		}
		d := t.Int(2)
		x := reflect.New(c26Type(t, d, true)).Elem()
		if !bad && isBad(x.Type()) {
			return
		}
		c26Fill(t, x, bad, depth+1, multi)
		v.Set(x)
	case reflect.String:
		v.SetString(gen.GoString(t, false))
	case reflect.Uint8:
		v.SetUint(uint64(t.Int(256)))
	case reflect.Int:
		v.SetInt(int64(t.Int(200) - 100))
	case reflect.Bool:
		v.SetBool(t.Bool())
	case reflect.Float32, reflect.Float64:
		f := float64(t.Int(1000)) / 8
		if bad && t.P(1, 8) {
			f = []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[t.Int(3)]
		}
		v.SetFloat(f)
	}
}

// c26Same compares the error with the one of encoding/json.
func c26Same(err, std error) string {
	var ut *json.UnsupportedTypeError
	var uv *json.UnsupportedValueError
	var f failure
	switch {
	case errors.As(std, &f):
		if err != error(f) {
			return fmt.Sprintf("error %v in place of the one of the method, %v", err, f)
		}
	case errors.As(std, &ut):
		if te, ok := err.(jzon.TypeNotSupportedError); !ok || string(te) != ut.Type.String() {
			return fmt.Sprintf("error %v in place of a report of the type %s", err, ut.Type)
		}
	case errors.As(std, &uv):
		want := jzon.ErrFloatIsInfinity
		if uv.Str == "NaN" {
			want = jzon.ErrFloatIsNan
		}
		if err != want {
			return fmt.Sprintf("error %v in place of %v", err, want)
		}
	}
	return ""
}

func c26Encode(t *eng.T) {
	t.Label("encode")
	vt := c26Type(t, t.Range(0, 3), true)
	cfg := jzon.NewEncoderConfig(nil)
	t.Sample(func() string { return typeStr(vt) })
	t.Key([]byte(vt.String()))
	for k, n := 0, t.Range(1, 4); k < n; k++ {
		v := reflect.New(vt).Elem()
		multi := false // a map with several entries, in an order of its own
		c26Fill(t, v, t.P(2, 3), 0, &multi)
		x := v.Interface()
		if t.Bool() {
			x = v.Addr().Interface()
		}
		std, stdErr := json.Marshal(x)
		t.Key(std)
		t.Key([]byte(errStr(stdErr)))
		var w faultyLog
		var out []byte
		var err error
		mode := t.Int(3)
		switch mode {
		case 0:
			out, err = cfg.Marshal(x)
			if err != nil && out != nil {
				t.Failf("Marshal of %s returns %s with the error %v", typeStr(vt), gen.Show(out), err)
			}
		case 1:
			e := cfg.NewEncoder(&w)
			err = e.Encode(x)
			if err != nil {
				if e2 := e.Encode(1); e2 != err {
					t.Failf("after the error %v of %s the encoder gives %v", err, typeStr(vt), e2)
				}
			}
			out = bytes.TrimSuffix(w.b, []byte{'\n'})
			e.Release()
		default:
			s := cfg.NewStreamer()
			s.Reset(&w)
			s.ArrayStart().Value("first").Value(x)
			err = s.Error
			s.Value("last").Field("f").Int(1).RawString("raw").Null().String("s").Float64(1).ObjectStart().ObjectEnd().ArrayEnd()
			if s.Error != err {
				t.Failf("the error %v of the streamer becomes %v; %s", err, s.Error, typeStr(vt))
			}
			if err != nil {
				if fe := s.Flush(); fe != err {
					t.Failf("after the error %v of %s flushing gives %v", err, typeStr(vt), fe)
				}
			} else {
				out = nil
				if stdErr == nil {
					out = std
				}
			}
			s.Release()
		}
		if err != nil && len(w.b) > 0 {
			t.Failf("%s was delivered although %s has the error %v", gen.Show(w.b), typeStr(vt), err)
		}
		if (err == nil) != (stdErr == nil) {
			t.Failf("mode %d: error %v, encoding/json %v; %s", mode, err, stdErr, typeStr(vt))
		}
		if err != nil {
			t.Label("cannot be encoded")
			t.Nontrivial()
			if d := c26Same(err, stdErr); d != "" && !multi {
				t.Failf("%s; %s", d, typeStr(vt))
			}
			continue
		}
		if d := sameJSON(out, std, multi); d != "" {
			t.Failf("mode %d: %s; %s", mode, d, typeStr(vt))
		}
	}
}

type faultyLog struct{ b []byte }

func (w *faultyLog) Write(p []byte) (int, error) {
	w.b = append(w.b, p...)
	return len(p), nil
}

func c26Doc(t *eng.T, b []byte, vt reflect.Type, depth int) []byte {
	j := gen.DefaultJ()
	j.Budget, j.MaxDepth, j.NoHuge = 4, 1, true
	if isBad(vt) {
		x := gen.Text(t, nil, j)
		if string(x) == "null" {
			x = []byte("1")
		}
		if t.P(1, 3) {
			x = []byte("{}")
		}
		return append(b, x...)
	}
	switch vt.Kind() {
	case reflect.Ptr:
		if !isBad(vt.Elem()) && t.P(1, 3) {
			return append(b, "null"...)
		}
		return c26Doc(t, b, vt.Elem(), depth+1)
	case reflect.Slice, reflect.Array:
		b = append(b, '[')
		for i, n := 0, t.Range(0, 2); i < n; i++ {
			if i > 0 {
				b = append(b, ',')
			}
			b = c26Doc(t, b, vt.Elem(), depth+1)
		}
		return append(b, ']')
	case reflect.Map:
		b = append(b, '{')
		for i, n := 0, t.Range(0, 2); i < n; i++ {
			if i > 0 {
				b = append(b, ',')
			}
			b = append(b, fmt.Sprintf(`"k%d":`, i)...)
			b = c26Doc(t, b, vt.Elem(), depth+1)
		}
		return append(b, '}')
	case reflect.Struct:
		b = append(b, '{')
		first := true
		for i := 0; i < vt.NumField(); i++ {
			if t.P(1, 3) {
				continue
			}
			if !first {
				b = append(b, ',')
			}
			first = false
			b = append(b, '"')
			b = append(b, vt.Field(i).Name...)
			b = append(b, '"', ':')
			b = c26Doc(t, b, vt.Field(i).Type, depth+1)
		}
		return append(b, '}')
	case reflect.Interface:
		return gen.Text(t, b, j)
	case reflect.String:
		return gen.KeyLit(t, b, gen.GoString(t, false))
	case reflect.Bool:
		return append(b, "true"...)
	case reflect.Float64:
		return append(b, "1.5"...)
	}
	return append(b, "12"...)
}

func c26Decode(t *eng.T) {
	t.Label("decode")
	vt := c26Type(t, t.Range(0, 3), false)
	cfg := jzon.NewDecoderConfig(nil)
	t.Sample(func() string { return typeStr(vt) })
	t.Key([]byte(vt.String()))
	for k, n := 0, t.Range(1, 4); k < n; k++ {
		doc := c26Doc(t, nil, vt, 0)
		if !validUTF8(doc) {
			t.Skip()
		}
		t.Key(doc)
		a, b := reflect.New(vt), reflect.New(vt)
		stdErr := json.Unmarshal(doc, b.Interface())
		e := pickEntry(t)
		err := e.f(cfg, t, clone(doc), a.Interface())
		if (err == nil) != (stdErr == nil) {
			t.Failf("%s: error %v, encoding/json %v; %s into %s", e.name, err, stdErr, gen.Show(doc), typeStr(vt))
		}
		if err != nil {
			t.Label("cannot be decoded")
			t.Nontrivial()
			if !strings.Contains(err.Error(), "is not supported") {
				t.Failf("%s: error %v does not name the type; %s into %s", e.name, err, gen.Show(doc), typeStr(vt))
			}
			continue
		}
		if d := ref.Diff(a.Interface(), b.Interface()); d != "" {
			t.Failf("%s: differs at %s; %s into %s", e.name, d, gen.Show(doc), typeStr(vt))
		}
	}
}

func init() {
	eng.Register(&eng.Prop{
		ID:          "C26",
		Rule:        "a case is a Go type with parts that cannot be encoded or decoded (channels, functions, complex numbers, maps with other keys) or may fail (floats, failing methods, failing keys) at any place, and up to four values of it or documents for it, in some of which such a part is reached, handled one after another with one configuration; the error (kind and type named), the absence of any output with an error and the result otherwise are compared with encoding/json; non-trivial: an error occurred",
		Assumptions: []string{stdNote + "; nil pointers to unsupported types are not generated"},
		Quick:       400000, Thorough: 15000000,
		Run: func(t *eng.T) {
			if t.P(2, 3) {
				c26Encode(t)
			} else {
				c26Decode(t)
			}
		},
	})
}
