package props

import (
	"encoding"
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"github.com/zerosnake0/jzon"

	"verif/cat"
	"verif/eng"
	"verif/gen"
	"verif/ref"
)

type (
	kText struct{ A, B uint8 }
	kStrT string // kind string with text methods
)

func (k kText) MarshalText() ([]byte, error) {
	return []byte(fmt.Sprintf("<%d&%d>", k.A, k.B)), nil
}
func (k *kText) UnmarshalText(b []byte) error {
	_, err := fmt.Sscanf(string(b), "<%d&%d>", &k.A, &k.B)
	return err
}
func (k *kStrT) UnmarshalText(b []byte) error {
	if len(b) > 0 && b[0] == '!' {
		return errCustom
	}
	*k = kStrT("T" + string(b))
	return nil
}

// keys whose text comes from MarshalText and whose representation differs: arrays,
// booleans, floats, channels, values that are a single pointer, pointers, interfaces
type (
	kArr  [2]uint8
	kBool bool
	kFlt  float64
	kChan chan int
	kOne  struct{ P *int }
	kArr1 [1]*int
	kPtrM struct{ S string } // MarshalText on the pointer
	kIntM int16              // MarshalText on the pointer only: an integer key
	kStrM string             // kind string with MarshalText: a string key
	kWide struct{ A, B, C int64 }
	kTM   interface {
		MarshalText() ([]byte, error)
	}
	kTMU interface {
		kTM
		UnmarshalText([]byte) error
	}
)

func kInt(p *int) string {
	if p == nil {
		return "nil"
	}
	return strconv.Itoa(*p)
}

func (k kArr) MarshalText() ([]byte, error)   { return []byte(fmt.Sprintf("%d\"%d", k[0], k[1])), nil }
func (k kBool) MarshalText() ([]byte, error)  { return []byte(fmt.Sprintf("b\n%v", bool(k))), nil }
func (k kFlt) MarshalText() ([]byte, error)   { return []byte(fmt.Sprintf("f%v", float64(k))), nil }
func (k kChan) MarshalText() ([]byte, error)  { return []byte(fmt.Sprintf("c<%d>", cap(k))), nil }
func (k kOne) MarshalText() ([]byte, error)   { return []byte("one\\" + kInt(k.P)), nil }
func (k kArr1) MarshalText() ([]byte, error)  { return []byte("arr1 " + kInt(k[0])), nil }
func (k *kPtrM) MarshalText() ([]byte, error) { return []byte("p" + k.S), nil }
func (k *kIntM) MarshalText() ([]byte, error) { return []byte("never"), nil }
func (k kStrM) MarshalText() ([]byte, error)  { return []byte("M" + string(k)), nil }
func (k kWide) MarshalText() ([]byte, error) {
	return []byte(fmt.Sprintf("%d,%d,%d", k.A, k.B, k.C)), nil
}
func (k *kArr) UnmarshalText(b []byte) error {
	_, err := fmt.Sscanf(string(b), "%d\"%d", &k[0], &k[1])
	return err
}
func (k *kBool) UnmarshalText(b []byte) error {
	x, err := strconv.ParseBool(strings.TrimPrefix(string(b), "b\n"))
	*k = kBool(x)
	return err
}
func (k *kFlt) UnmarshalText(b []byte) error {
	x, err := strconv.ParseFloat(strings.TrimPrefix(string(b), "f"), 64)
	*k = kFlt(x)
	return err
}
func (k *kWide) UnmarshalText(b []byte) error {
	_, err := fmt.Sscanf(string(b), "%d,%d,%d", &k.A, &k.B, &k.C)
	return err
}
func (k *kPtrM) UnmarshalText(b []byte) error { k.S = string(b); return nil }

// keys that are written by more than one kind of code; c31Odd makes a value of each
var c31OddKeys = []reflect.Type{
	ty(kArr{}), ty(kBool(false)), ty(kFlt(0)), ty(kChan(nil)), ty(kOne{}), ty(kArr1{}), ty((*kPtrM)(nil)), ty((*kWide)(nil)), ty(kIntM(0)), ty(kStrM("")), ty(kWide{}),
	reflect.TypeOf((*kTM)(nil)).Elem(), reflect.TypeOf((*kTMU)(nil)).Elem(), reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem(),
}

func c31Odd(t *eng.T, kt reflect.Type) reflect.Value {
	intp := func() *int {
		if t.P(1, 3) {
			return nil
		}
		x := t.Int(100)
		return &x
	}
	var v interface{}
	switch kt {
	case ty(kArr{}):
		v = kArr{uint8(t.Int(256)), uint8(t.Int(3))}
	case ty(kBool(false)):
		v = kBool(t.Bool())
	case ty(kFlt(0)):
		v = kFlt(t.Int(100)) / 4
	case ty(kChan(nil)):
		if t.P(1, 3) {
			v = kChan(nil)
		} else {
			v = make(kChan, t.Int(5))
		}
	case ty(kOne{}):
		v = kOne{intp()}
	case ty(kArr1{}):
		v = kArr1{intp()}
	case ty((*kPtrM)(nil)):
		if t.P(1, 6) {
			v = (*kPtrM)(nil)
		} else {
			v = &kPtrM{gen.GoString(t, false)}
		}
	case ty((*kWide)(nil)):
		if t.P(1, 6) {
			v = (*kWide)(nil)
		} else {
			v = &kWide{int64(t.Int(9)), int64(t.U64()), -1}
		}
	case ty(kIntM(0)):
		v = kIntM(t.U64())
	case ty(kStrM("")):
		v = kStrM(gen.GoString(t, false))
	case ty(kWide{}):
		v = kWide{int64(t.Int(9)), int64(t.U64()), -1}
	default: // an interface: any of the above that has the methods, never nil
		for {
			ct := c31OddKeys[t.Int(11)]
			if ct.Implements(kt) {
				x := c31Odd(t, ct)
				if x.Kind() == reflect.Ptr && x.IsNil() {
					continue
				}
				return x
			}
		}
	}
	return reflect.ValueOf(v)
}

var c31Keys = []reflect.Type{
	ty(""), ty(cat.NStr("")), ty(0), ty(int8(0)), ty(int16(0)), ty(int32(0)), ty(int64(0)), ty(uint(0)), ty(uint8(0)), ty(uint16(0)), ty(uint32(0)), ty(uint64(0)), ty(uintptr(0)),
	ty(cat.NInt(0)), ty(cat.NInt8(0)), ty(cat.NUint16(0)), ty(cat.NUint64(0)), ty(cat.TInt(0)), ty(cat.TSKey{}), ty(kText{}), ty(kStrT("")),
	ty(kArr{}), ty(kBool(false)), ty(kFlt(0)), ty(kPtrM{}), ty(kWide{}),
}

var c31Elems = []reflect.Type{ty(0), ty(""), ifaceT, ty((*int)(nil)), ty([]string(nil)), ty(map[string]int(nil)), ty(map[int8]bool(nil)), ty(struct{ A, B int }{}), ty(struct{}{}), ty([2]string{}), ty(1.5), ty(true), ty([40]byte{}), ty(cat.JV{}), ty(json.RawMessage(nil))}

var canonInt = regexp.MustCompile(`^(0|-?[1-9][0-9]*)$`)

func c31Key(t *eng.T, kt reflect.Type) string {
	switch kt {
	case ty(cat.TInt(0)):
		return []string{"t5", "-7", "t0", "x", "t12"}[t.W(3, 3, 3, 1, 3)]
	case ty(cat.TSKey{}):
		return []string{"1/2", "255/0", "x", "3/4"}[t.W(3, 3, 1, 3)]
	case ty(kArr{}):
		return fmt.Sprintf("%d\"%d", t.Int(257), t.Int(3))
	case ty(kWide{}):
		return fmt.Sprintf("%d,%d,%d", t.Int(3), int64(t.U64()), -1)
	case ty(kBool(false)):
		return t.Str("b\ntrue", "b\nfalse", "true", "0", "x")
	case ty(kFlt(0)):
		return []string{"f", "", "fx"}[t.W(8, 4, 1)] + strconv.Itoa(t.Int(40)-20)
	case ty(kPtrM{}):
		return gen.GoString(t, false)
	case ty(kText{}):
		return fmt.Sprintf("<%d&%d>", t.Int(257), t.Int(3))
	}
	switch kt.Kind() {
	case reflect.String:
		return gen.GoString(t, false)
	}
	switch t.W(6, 4, 2, 1) {
	case 0:
		return strconv.Itoa(t.Int(40) - 10)
	case 1: // about the bounds
		bits := uint(kt.Bits())
		var x int64
		switch t.Int(3) {
		case 0:
			if bits == 64 {
				return strconv.FormatUint(^uint64(0)-uint64(t.Int(2)), 10) + []string{"", "0"}[t.W(5, 1)]
			}
			x = int64(1)<<bits + int64(t.Int(4)) - 2
		case 1:
			x = int64(uint64(1)<<(bits-1)-1) - int64(t.Int(2))
			if bits < 64 {
				x += int64(t.Int(4))
			}
		default:
			x = -int64(uint64(1)<<(bits-1)-1) - 1 + int64(t.Int(2))
			if bits < 64 {
				x -= int64(t.Int(3))
			}
		}
		return strconv.FormatInt(x, 10)
	case 2:
		return gen.IntLit(t)
	default:
		return []string{"", "x", "1x", " 1", "1 ", "1.0", "1e2", "-", "+1", "01", "-0", "--1", "0x10", "null", "true", "1_0", "\"1\"", "१"}[t.Int(18)]
	}
}

func init() {
	eng.Register(&eng.Prop{
		ID:          "C31",
		Rule:        "a case is a map type over 37 key types (strings, all integer widths, named ones, text methods on every kind, pointers, interfaces) and 15 element types, at the root or nested, and an object with keys of any spelling (bounds of the width, repeated keys, escapes, texts that are no key), or a map value of any size; decoding and encoding are compared with encoding/json (keys in any order), and encoded maps are decoded again; non-trivial: at least 2 entries",
		Assumptions: []string{stdNote, "spellings of integer keys that are not canonical may be rejected"},
		Quick:       800000, Thorough: 30000000,
		Run: func(t *eng.T) {
			kt := c31Keys[t.Int(len(c31Keys))]
			et := c31Elems[t.Int(len(c31Elems))]
			mt := reflect.MapOf(kt, et)
			vt := mt
			frame := [2]string{"", ""}
			switch t.W(6, 1, 1, 1, 1) {
			case 1:
				vt, frame = reflect.SliceOf(mt), [2]string{"[{},", "]"}
			case 2:
				vt, frame = reflect.PtrTo(mt), [2]string{"", ""}
			case 3:
				vt, frame = reflect.StructOf([]reflect.StructField{{Name: "M", Type: mt, Tag: `json:"m"`}}), [2]string{`{"m":`, "}"}
			case 4:
				vt, frame = reflect.MapOf(ty(""), mt), [2]string{`{"x":`, "}"}
			}
			if t.Bool() {
				t.Label("decode")
				doc := []byte(frame[0] + "{")
				n := t.Range(0, 5)
				if t.P(1, 20) {
					n = t.Size(120)
				}
				if n > 1 {
					t.Nontrivial()
				}
				canon := true
				var prev string
				for i := 0; i < n; i++ {
					if i > 0 {
						doc = append(doc, ',')
					}
					k := c31Key(t, kt)
					if i > 0 && t.P(1, 6) {
						k = prev
					}
					prev = k
					if !c31Any(kt) && kt != ty(cat.TInt(0)) && !canonInt.MatchString(k) {
						canon = false
					}
					doc = gen.WS(t, doc, t.Int(2))
					if c31Any(kt) {
						doc = gen.KeyLit(t, doc, k)
					} else {
						doc = append(append(append(doc, '"'), k...), '"')
					}
					doc = gen.WS(t, doc, t.Int(2))
					doc = append(doc, ':')
					dg := &gen.DG{T: t, WS: t.Int(2)}
					doc = append(doc, dg.Doc(et)...)
				}
				doc = append(append(doc, '}'), frame[1]...)
				t.Key(doc)
				t.Sample(func() string { return typeStr(vt) + " <- " + gen.Show(doc) })
				a, b := reflect.New(vt), reflect.New(vt)
				e := pickEntry(t)
				err := e.f(freshOr(t), t, clone(doc), a.Interface())
				stdErr := json.Unmarshal(doc, b.Interface())
				if !canon && err != nil {
					t.Label("not canonical")
					return
				}
				if (err == nil) != (stdErr == nil) {
					t.Failf("%s: error %v, encoding/json %v; %s into %s", e.name, err, stdErr, gen.Show(doc), typeStr(vt))
				}
				if err != nil {
					t.Label("rejected")
					return
				}
				if d := ref.Diff(a.Interface(), b.Interface()); d != "" {
					t.Failf("%s: differs at %s; %s into %s", e.name, d, gen.Show(doc), typeStr(vt))
				}
				return
			}
			t.Label("encode")
			vg := &gen.VG{T: t, NoBF: true}
			var v reflect.Value
			odd := t.P(1, 3)
			if odd {
				t.Label("odd keys")
				kt = c31OddKeys[t.Int(len(c31OddKeys))]
				mt = reflect.MapOf(kt, et)
				v = reflect.MakeMap(mt)
				for i := t.Range(0, 4); i > 0; i-- {
					v.SetMapIndex(c31Odd(t, kt), vg.Value(et))
				}
			} else if kt == ty(kPtrM{}) {
				t.Skip()
			} else {
				v = vg.Value(mt)
			}
			if v.Len() > 1 {
				t.Nontrivial()
			}
			html := t.P(3, 4)
			std, stdErr := stdEncode(v.Interface(), html)
			if stdErr != nil {
				t.Skip()
			}
			t.Key(std)
			t.Sample(func() string { return typeStr(mt) + " -> " + gen.Show(std) })
			e := pickEnc(t)
			if e.name == "Streamer.Value in an array" && v.Len() > 1 {
				e = encEntries[2]
			}
			out, err := e.f(t, encConfig(t, mt), html, v.Interface())
			if err != nil {
				t.Failf("%s: %v; %s", e.name, err, typeStr(mt))
			}
			if d := sameJSON(out, std, true); d != "" {
				t.Failf("%s: %s; %s", e.name, d, typeStr(mt))
			}
			if odd {
				return
			}
			a, b := reflect.New(mt), reflect.New(mt)
			if json.Unmarshal(std, b.Interface()) != nil || et == ty([40]byte{}) {
				return
			}
			if err := jzon.Unmarshal(out, a.Interface()); err != nil {
				t.Failf("cannot decode %s into %s: %v", gen.Show(out), typeStr(mt), err)
			}
			if d := ref.Diff(a.Interface(), b.Interface()); d != "" {
				t.Failf("%s back into %s differs at %s", gen.Show(out), typeStr(mt), d)
			}
		},
	})
}

// c31Any: every text may be tried as such a key
func c31Any(kt reflect.Type) bool {
	switch kt.Kind() {
	case reflect.String, reflect.Struct, reflect.Array, reflect.Bool, reflect.Float64:
		return true
	}
	return false
}

func freshOr(t *eng.T) *jzon.DecoderConfig {
	if t.Bool() {
		return jzon.DefaultDecoderConfig
	}
	return jzon.NewDecoderConfig(nil)
}
