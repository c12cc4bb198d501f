package gen

import (
	"encoding/json"
	"math"
	"math/big"
	"net"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"verif/cat"
	"verif/eng"
)

// VG generates values for types.
type VG struct {
	T *eng.T
	// Fail lets the user methods fail and floats be NaN or infinite
	Fail bool
	// BadUTF8 lets strings hold invalid UTF-8
	BadUTF8 bool
	// NoBF leaves out backspace and form feed, which have two spellings
	NoBF bool
	// MultiMap tells if a map with more than one entry has been generated
	MultiMap bool
	// RoundTrip restricts to values which survive a round trip
	RoundTrip bool
	// NoTagged leaves catalogue structs out of interfaces
	NoTagged bool
	Used     map[string]bool
	budget   int
	depth    int
}

// Value returns an addressable value of the type.
func (g *VG) Value(ty reflect.Type) reflect.Value {
	v := reflect.New(ty).Elem()
	g.budget = 120
	g.fill(v)
	return v
}

// Str draws a Go string.
func (g *VG) Str() string {
	s := GoString(g.T, g.BadUTF8)
	if g.NoBF {
		s = noBF.Replace(s)
	}
	return s
}

var noBF = strings.NewReplacer("\b", "b", "\f", "f")

// Big draws a large size: a power of two up to 65536, or a multiple of a
// thousand, or their neighbours.
func Big(t *eng.T) int {
	if t.P(1, 4) {
		return 1000*t.Range(1, 66) + t.Range(-3, 3)
	}
	return 1<<uint(t.Range(9, 16)) + t.Range(-6, 6)
}

// BigBytes returns a large text of plain characters with a few others.
func BigBytes(t *eng.T, others string) []byte {
	b := make([]byte, Big(t))
	base := byte('a' + t.Int(16))
	for i := range b {
		b[i] = base + byte(i%7)
	}
	for k := t.Int(4); k > 0 && others != ""; k-- {
		b[t.Int(len(b))] = others[t.Int(len(others))]
	}
	return b
}

// GoString draws a Go string.
func GoString(t *eng.T, bad bool) string {
	n := 0
	if t.P(1, 600) {
		return string(BigBytes(t, "<>&\"\\\n\x00\x7f/"))
	}
	switch t.W(3, 6, 3, 1) {
	case 1:
		n = t.Range(1, 4)
	case 2:
		n = t.Range(4, 20)
	case 3:
		l := t.Size(1500)
		b := make([]byte, l)
		for i := range b {
			b[i] = byte('a' + i%23)
		}
		if l > 0 {
			b[t.Int(l)] = "<>&\"\\\n\x00\x7f/"[t.Int(9)]
		}
		for k := t.Int(3); k > 0 && l > 0; k-- {
			i := t.Int(l)
			for i > 0 && !utf8.RuneStart(b[i]) {
				i-- // not inside of a rune
			}
			tail := string(b[i:])
			switch {
			case bad && t.P(1, 3):
				b = append(b[:i], byte(t.Range(0x80, 0xff)))
			case t.P(1, 4):
				b = append(b[:i], "\u2028\u2029\ufffd"[3*t.Int(3):][:3]...)
			default:
				b = utf8.AppendRune(b[:i], Rune(t))
			}
			b = append(b, tail...)
		}
		return string(b)
	}
	var b []byte
	for i := 0; i < n; i++ {
		if bad && t.P(1, 6) {
			b = append(b, byte(t.Range(0x80, 0xff)))
			continue
		}
		b = utf8.AppendRune(b, Rune(t))
	}
	return string(b)
}

func (g *VG) fill(v reflect.Value) {
	t := g.T
	g.budget--
	switch v.Type() {
	case numberType:
		if !g.RoundTrip && t.P(1, 10) {
			return
		}
		v.SetString(Number(t, false))
		return
	case rawType:
		if t.P(1, 10) {
			if !g.RoundTrip {
				return
			}
		}
		v.SetBytes(CompactText(t))
		return
	case TypeOf(time.Time{}):
		y := int64(t.Range(0, 4000000)) * 1000
		v.Set(reflect.ValueOf(time.Unix(y, int64(t.Int(1000000000))).UTC()))
		if g.Fail && t.P(1, 30) {
			v.Set(reflect.ValueOf(time.Date(10001, 1, 1, 0, 0, 0, 0, time.UTC)))
		}
		return
	case TypeOf(net.IP(nil)):
		if t.Bool() {
			v.Set(reflect.ValueOf(net.IPv4(byte(t.Int(256)), 2, 3, byte(t.Int(256)))))
		}
		return
	case TypeOf(big.Int{}):
		s, _ := new(big.Int).SetString(IntLit(t), 10)
		v.Addr().Interface().(*big.Int).Set(s)
		return
	case TypeOf(cat.JFunc(nil)):
		if t.Bool() {
			n := t.Int(100)
			v.Set(reflect.ValueOf(cat.JFunc(func() int { return n })))
		}
		return
	case TypeOf(cat.JChan(nil)):
		if t.Bool() {
			v.Set(reflect.ValueOf(make(cat.JChan)))
		}
		return
	case TypeOf(cat.JV{}), TypeOf(cat.JP{}), TypeOf(cat.TV{}), TypeOf(cat.TP{}):
		v.Field(0).SetInt(int64(t.Int(50)))
		v.Field(1).SetString(g.Str())
		if g.Fail && t.P(1, 25) {
			v.Field(1).SetString("ERR")
		}
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(t.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(Int64For(t, v.Type().Bits()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(Uint64For(t, v.Type().Bits()))
	case reflect.Float32:
		v.SetFloat(float64(Float32(t)))
		if g.Fail && t.P(1, 60) {
			v.SetFloat([]float64{math.NaN(), math.Inf(1), math.Inf(-1)}[t.Int(3)])
		}
	case reflect.Float64:
		v.SetFloat(Float64(t))
		if g.Fail && t.P(1, 60) {
			v.SetFloat([]float64{math.NaN(), math.Inf(1), math.Inf(-1)}[t.Int(3)])
		}
	case reflect.String:
		v.SetString(g.Str())
	case reflect.Ptr:
		if t.P(1, 4) || g.budget <= 0 {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		g.fill(v.Elem())
	case reflect.Slice:
		if t.P(1, 6) {
			return
		}
		n := g.n(5)
		if v.Type().Elem().Kind() == reflect.Uint8 {
			n = t.Size(400)
			if t.P(1, 100) {
				n = Big(t)
			}
		}
		s := reflect.MakeSlice(v.Type(), n, n+t.Int(3))
		g.depth++
		for i := 0; i < n; i++ {
			if i > 30 && i < n-2 && n > 60 {
				continue
			}
			g.fill(s.Index(i))
		}
		g.depth--
		v.Set(s)
	case reflect.Array:
		g.depth++
		for i := 0; i < v.Len(); i++ {
			g.fill(v.Index(i))
		}
		g.depth--
	case reflect.Map:
		if t.P(1, 6) {
			return
		}
		m := reflect.MakeMap(v.Type())
		n := g.n(4)
		g.depth++
		for i := 0; i < n; i++ {
			k := reflect.New(v.Type().Key()).Elem()
			if n > 40 && k.Kind() == reflect.String && k.Type().PkgPath() == "" {
				k.SetString("key" + strconv.Itoa(i))
			} else {
				g.fill(k)
			}
			e := reflect.New(v.Type().Elem()).Elem()
			if i < 30 {
				g.fill(e)
			}
			m.SetMapIndex(k, e)
		}
		g.depth--
		if m.Len() > 1 {
			g.MultiMap = true
		}
		v.Set(m)
	case reflect.Struct:
		g.depth++
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !f.CanSet() {
				// embedded unexported structs hold exported fields
				if v.Type().Field(i).Anonymous && f.Kind() == reflect.Struct {
					g.fillUnexported(f)
				}
				continue
			}
			g.fill(f)
		}
		g.depth--
	case reflect.Interface:
		if v.NumMethod() == 0 {
			if x := g.Any(); x != nil {
				v.Set(reflect.ValueOf(x))
			}
		} else if l := implsOf[v.Type()]; len(l) > 0 && !t.P(1, 4) {
			// no nil pointers: encoding/json calls methods on them
			it := l[t.Int(len(l))]
			x := reflect.New(it).Elem()
			if it.Kind() == reflect.Ptr {
				x.Set(reflect.New(it.Elem()))
				g.fill(x.Elem())
			} else {
				g.fill(x)
			}
			v.Set(x)
		}
	}
}

// fillUnexported fills the exported fields promoted through an unexported
// embedded struct.
func (g *VG) fillUnexported(f reflect.Value) {
	for i := 0; i < f.NumField(); i++ {
		x := f.Field(i)
		if x.CanSet() {
			g.fill(x)
		} else if f.Type().Field(i).Anonymous && x.Kind() == reflect.Struct {
			g.fillUnexported(x)
		}
	}
}

func (g *VG) n(max int) int {
	if g.budget <= 0 {
		return 0
	}
	if g.depth == 0 && g.T.P(1, 12) {
		g.budget -= 60
		if g.T.P(1, 40) {
			return g.T.Range(1000, 4200)
		}
		return g.T.Size(700)
	}
	return g.T.Int(max + 1)
}

// Any draws a dynamic value.
func (g *VG) Any() interface{} {
	t := g.T
	g.budget--
	rec := 2
	if g.budget <= 0 || g.depth > 4 {
		rec = 0
	}
	rt := 3
	if g.RoundTrip {
		rt = 0
	}
	rs := rt
	if g.NoTagged {
		rs = 0
	}
	switch t.W(2, 2, 4, 4, rec, rec, rt, rs, rt) {
	case 0:
		return nil
	case 1:
		return t.Bool()
	case 2:
		return Float64(t)
	case 3:
		return g.Str()
	case 4:
		n := t.Int(4)
		r := make([]interface{}, n)
		g.depth++
		for i := range r {
			r[i] = g.Any()
		}
		g.depth--
		return r
	case 5:
		n := t.Int(4)
		r := map[string]interface{}{}
		g.depth++
		for i := 0; i < n; i++ {
			r[g.Str()] = g.Any()
		}
		g.depth--
		if len(r) > 1 {
			g.MultiMap = true
		}
		return r
	case 6: // a scalar or named type
		l := scalarTypes
		if t.Bool() {
			l = namedTypes
		}
		v := reflect.New(l[t.Int(len(l))]).Elem()
		g.fill(v)
		return v.Interface()
	case 7: // a pointer, a catalogue struct
		l := []reflect.Type{TypeOf(cat.EmbA{}), TypeOf(cat.Out1{}), TypeOf(cat.Out4{}), TypeOf(cat.OneField{}), TypeOf(cat.One1{}), TypeOf(cat.OneMap{}), TypeOf([1]*int{}), TypeOf([]string{}), TypeOf(map[int]bool{}), TypeOf(json.Number(""))}
		v := reflect.New(l[t.Int(len(l))])
		g.fill(v.Elem())
		if t.Bool() {
			return v.Interface()
		}
		return v.Elem().Interface()
	default:
		l := valMethTypes
		if t.Bool() {
			l = valEncOnly
		}
		v := reflect.New(l[t.Int(len(l))])
		g.fill(v.Elem())
		if t.Bool() {
			return v.Interface()
		}
		return v.Elem().Interface()
	}
}

// Int64For draws a signed integer of a width.
func Int64For(t *eng.T, bits int) int64 {
	switch t.W(4, 6, 3, 3) {
	case 0:
		return int64(t.Range(-10, 10))
	case 1:
		return int64(t.U64()) >> uint(64-bits) >> uint(t.Int(bits))
	case 2:
		hi := int64(1)<<uint(bits-1) - 1
		if t.Bool() {
			return hi - int64(t.Int(3))
		}
		return -hi - 1 + int64(t.Int(3))
	default: // near a power of ten
		p := int64(1)
		for k := t.Int(19); k > 0; k-- {
			p *= 10
		}
		p = p*int64(t.Range(1, 9)) + int64(t.Range(-1, 1))
		if t.Bool() {
			p = -p
		}
		return p << uint(64-bits) >> uint(64-bits)
	}
}

// Uint64For draws an unsigned integer of a width.
func Uint64For(t *eng.T, bits int) uint64 {
	m := ^uint64(0) >> uint(64-bits)
	switch t.W(4, 6, 3, 3) {
	case 0:
		return uint64(t.Int(12))
	case 1:
		return t.U64() >> uint(64-bits) >> uint(t.Int(bits))
	case 2:
		return m - uint64(t.Int(3))
	default:
		p := uint64(1)
		for k := t.Int(20); k > 0; k-- {
			p *= 10
		}
		return (p*uint64(t.Range(1, 9)) + uint64(t.Range(-1, 1))) & m
	}
}

// Float64 draws a finite float64.
func Float64(t *eng.T) float64 {
	switch t.W(3, 3, 4, 3, 2) {
	case 0:
		return float64(t.Range(-50, 50))
	case 1:
		return float64(t.Range(-5000, 5000)) / 8
	case 2:
		f := math.Float64frombits(t.U64())
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return 0.1
		}
		return f
	case 3: // around the format thresholds
		f := []float64{1e-6, 1e21, 1e-7, 1e20, 1e22, 1e-5, 9.999999e-7, 1e-9, 1e-10, 1e100, 1e-99, 1e-100}[t.Int(12)]
		for k := t.Int(4); k > 0; k-- {
			f = math.Nextafter(f, math.Inf(1-2*t.Int(2)))
		}
		if t.Bool() {
			f = -f
		}
		return f
	default:
		return []float64{0, math.Copysign(0, -1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 2.2250738585072014e-308, 0.1, 1.0 / 3, 123456789.125, 1 << 53, 1<<53 + 2, -1e15}[t.Int(12)]
	}
}

// Float32 draws a finite float32.
func Float32(t *eng.T) float32 {
	switch t.W(3, 3, 4, 3, 2) {
	case 0:
		return float32(t.Range(-50, 50))
	case 1:
		return float32(t.Range(-5000, 5000)) / 8
	case 2:
		f := math.Float32frombits(uint32(t.Uint(1 << 32)))
		if f != f || math.IsInf(float64(f), 0) {
			return 0.1
		}
		return f
	case 3:
		f := []float32{1e-6, 1e21, 1e-7, 1e20, 1e22, 1e-5, 9.999999e-7, 1e-9, 1e-10, 1e30}[t.Int(10)]
		for k := t.Int(4); k > 0; k-- {
			f = math.Nextafter32(f, float32(math.Inf(1-2*t.Int(2))))
		}
		if t.Bool() {
			f = -f
		}
		return f
	default:
		return []float32{0, float32(math.Copysign(0, -1)), math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, 0.1, 1.0 / 3, 16777216, 16777218, -3.4e38}[t.Int(10)]
	}
}

// CompactText draws a compact JSON text without characters that the standard
// library would rewrite.
func CompactText(t *eng.T) []byte {
	return []byte(t.Str(`null`, `1`, `"x"`, `[]`, `{}`, `[1,2,"a"]`, `{"a":[true,null]}`, `-1.5e3`, `{"k":{"k":[]}}`, `""`, `false`))
}
