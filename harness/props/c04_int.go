package props

import (
	"fmt"
	"math/big"
	"reflect"
	"strconv"

	"github.com/zerosnake0/jzon"

	"verif/cat"
	"verif/eng"
	"verif/gen"
	"verif/ref"
)

type intWidth struct {
	name     string
	typ      reflect.Type
	named    reflect.Type
	signed   bool
	bits     uint
	read     func(it *jzon.Iterator) (*big.Int, error)
	min, max *big.Int
}

func bi(v int64) *big.Int           { return big.NewInt(v) }
func bu(v uint64) *big.Int          { return new(big.Int).SetUint64(v) }
func ty(v interface{}) reflect.Type { return reflect.TypeOf(v) }

var intWidths = []*intWidth{
	{"int8", ty(int8(0)), ty(cat.NInt8(0)), true, 8, func(it *jzon.Iterator) (*big.Int, error) { v, err := it.ReadInt8(); return bi(int64(v)), err }, nil, nil},
	{"int16", ty(int16(0)), ty(cat.NInt16(0)), true, 16, func(it *jzon.Iterator) (*big.Int, error) { v, err := it.ReadInt16(); return bi(int64(v)), err }, nil, nil},
	{"int32", ty(int32(0)), ty(cat.NInt32(0)), true, 32, func(it *jzon.Iterator) (*big.Int, error) { v, err := it.ReadInt32(); return bi(int64(v)), err }, nil, nil},
	{"int64", ty(int64(0)), ty(cat.NInt64(0)), true, 64, func(it *jzon.Iterator) (*big.Int, error) { v, err := it.ReadInt64(); return bi(v), err }, nil, nil},
	{"int", ty(int(0)), ty(cat.NInt(0)), true, 64, func(it *jzon.Iterator) (*big.Int, error) { v, err := it.ReadInt(); return bi(int64(v)), err }, nil, nil},
	{"uint8", ty(uint8(0)), ty(cat.NUint8(0)), false, 8, func(it *jzon.Iterator) (*big.Int, error) { v, err := it.ReadUint8(); return bu(uint64(v)), err }, nil, nil},
	{"uint16", ty(uint16(0)), ty(cat.NUint16(0)), false, 16, func(it *jzon.Iterator) (*big.Int, error) { v, err := it.ReadUint16(); return bu(uint64(v)), err }, nil, nil},
	{"uint32", ty(uint32(0)), ty(cat.NUint32(0)), false, 32, func(it *jzon.Iterator) (*big.Int, error) { v, err := it.ReadUint32(); return bu(uint64(v)), err }, nil, nil},
	{"uint64", ty(uint64(0)), ty(cat.NUint64(0)), false, 64, func(it *jzon.Iterator) (*big.Int, error) { v, err := it.ReadUint64(); return bu(v), err }, nil, nil},
	{"uint", ty(uint(0)), ty(cat.NUint(0)), false, 64, func(it *jzon.Iterator) (*big.Int, error) { v, err := it.ReadUint(); return bu(uint64(v)), err }, nil, nil},
	{"uintptr", ty(uintptr(0)), ty(cat.NUptr(0)), false, 64, nil, nil, nil},
}

func init() {
	for _, w := range intWidths {
		one := big.NewInt(1)
		if w.signed {
			w.max = new(big.Int).Sub(new(big.Int).Lsh(one, w.bits-1), one)
			w.min = new(big.Int).Neg(new(big.Int).Lsh(one, w.bits-1))
		} else {
			w.max = new(big.Int).Sub(new(big.Int).Lsh(one, w.bits), one)
			w.min = new(big.Int)
		}
	}
}

func intOf(v reflect.Value) *big.Int {
	if v.Kind() >= reflect.Uint && v.Kind() <= reflect.Uintptr {
		return bu(v.Uint())
	}
	return bi(v.Int())
}

// c04Lit draws an integer literal near the range of the width.
func c04Lit(t *eng.T, w *intWidth) string {
	switch t.W(4, 5, 3) {
	case 0:
		return gen.IntLit(t)
	case 1:
		base := []*big.Int{w.min, w.max, new(big.Int), new(big.Int).Div(w.max, bi(10)), new(big.Int).Mul(w.max, bi(10)), new(big.Int).Mul(w.min, bi(10))}[t.Int(6)]
		v := new(big.Int).Add(base, bi(int64(t.Range(-12, 12))))
		if t.P(1, 6) {
			v.Neg(v)
		}
		return v.String()
	default:
		s := gen.Digits(t, t.Range(1, int(w.bits)*3/10+3), true)
		if t.P(1, 3) {
			return "-" + s
		}
		return s
	}
}

// intPlaces wrap an integer literal in a document and give the type holding it.
type intPlace struct {
	name string
	mk   func(w *intWidth, el reflect.Type) reflect.Type
	doc  func(lit string) string
	get  func(v reflect.Value) (reflect.Value, bool)
	key  bool // the literal is read as a map key
}

func structWith(name, tag string, el reflect.Type, extra int) reflect.Type {
	fs := []reflect.StructField{{Name: name, Type: el, Tag: reflect.StructTag(tag)}}
	for i := 0; i < extra; i++ {
		fs = append(fs, reflect.StructField{Name: "X" + strconv.Itoa(i), Type: ty(0)})
	}
	return reflect.StructOf(fs)
}

var intPlaces = []intPlace{
	{"value", func(w *intWidth, el reflect.Type) reflect.Type { return el }, func(l string) string { return l }, func(v reflect.Value) (reflect.Value, bool) { return v, true }, false},
	{"pointer", func(w *intWidth, el reflect.Type) reflect.Type { return reflect.PtrTo(el) }, func(l string) string { return " " + l + "\n" }, func(v reflect.Value) (reflect.Value, bool) {
		if v.IsNil() {
			return v, false
		}
		return v.Elem(), true
	}, false},
	{"slice element", func(w *intWidth, el reflect.Type) reflect.Type { return reflect.SliceOf(el) }, func(l string) string { return "[0, " + l + ",1]" }, func(v reflect.Value) (reflect.Value, bool) {
		if v.Len() != 3 || intOf(v.Index(0)).Sign() != 0 || intOf(v.Index(2)).Int64() != 1 {
			return v, false
		}
		return v.Index(1), true
	}, false},
	{"array element", func(w *intWidth, el reflect.Type) reflect.Type { return reflect.ArrayOf(2, el) }, func(l string) string { return "[" + l + "]" }, func(v reflect.Value) (reflect.Value, bool) { return v.Index(0), true }, false},
	{"map element", func(w *intWidth, el reflect.Type) reflect.Type { return reflect.MapOf(ty(""), el) }, func(l string) string { return `{"k":` + l + `}` }, func(v reflect.Value) (reflect.Value, bool) {
		x := v.MapIndex(reflect.ValueOf("k"))
		return x, x.IsValid()
	}, false},
	{"map key", func(w *intWidth, el reflect.Type) reflect.Type { return reflect.MapOf(el, ty(true)) }, func(l string) string { return `{"` + l + `":true}` }, func(v reflect.Value) (reflect.Value, bool) {
		ks := v.MapKeys()
		if len(ks) != 1 || !v.MapIndex(ks[0]).Bool() {
			return v, false
		}
		return ks[0], true
	}, true},
	{"field", func(w *intWidth, el reflect.Type) reflect.Type { return structWith("F", "", el, 2) }, func(l string) string { return `{"F":` + l + `,"X1":7}` }, func(v reflect.Value) (reflect.Value, bool) { return v.Field(0), v.Field(2).Int() == 7 }, false},
	{"field of a one field struct", func(w *intWidth, el reflect.Type) reflect.Type { return structWith("F", "", el, 0) }, func(l string) string { return `{"F":` + l + `}` }, func(v reflect.Value) (reflect.Value, bool) { return v.Field(0), true }, false},
	{"field of a large struct", func(w *intWidth, el reflect.Type) reflect.Type { return structWith("F", "", el, 12) }, func(l string) string { return `{"X3":2,"F":` + l + `}` }, func(v reflect.Value) (reflect.Value, bool) { return v.Field(0), v.Field(4).Int() == 2 }, false},
	{"quoted field", func(w *intWidth, el reflect.Type) reflect.Type { return structWith("F", `json:",string"`, el, 1) }, func(l string) string { return `{"F":"` + l + `","X0":3}` }, func(v reflect.Value) (reflect.Value, bool) { return v.Field(0), v.Field(1).Int() == 3 }, false},
	{"quoted field of a one field struct", func(w *intWidth, el reflect.Type) reflect.Type { return structWith("F", `json:"F,string"`, el, 0) }, func(l string) string { return `{"F":"` + l + `"}` }, func(v reflect.Value) (reflect.Value, bool) { return v.Field(0), true }, false},
	{"quoted pointer field of a large struct", func(w *intWidth, el reflect.Type) reflect.Type {
		return structWith("F", `json:"F,string"`, reflect.PtrTo(el), 11)
	}, func(l string) string { return `{"F":"` + l + `"}` }, func(v reflect.Value) (reflect.Value, bool) {
		if v.Field(0).IsNil() {
			return v, false
		}
		return v.Field(0).Elem(), true
	}, false},
}

func c04One(t *eng.T, w *intWidth, lit string) {
	want, ok := ref.Int(lit)
	if !ok {
		t.Failf("generator: %q", lit)
	}
	inRange := want.Cmp(w.min) >= 0 && want.Cmp(w.max) <= 0
	if !w.signed && lit[0] == '-' {
		inRange = false // an unsigned destination takes no sign at all
	}
	if inRange {
		t.Label("in range")
	} else {
		t.Label("out of range")
	}
	// iterator method
	if w.read != nil {
		it := jzon.NewIterator()
		tail := t.Str("", " ", ",", "]", "}", "\n", ":1", ",12")
		pre := t.Str("", " ", "\t\r\n ")
		text := []byte(pre + lit + tail)
		if t.Bool() {
			it.Reset(gen.Chunked(t, clone(text)))
		} else {
			it.ResetBytes(clone(text))
		}
		got, err := w.read(it)
		if (err == nil) != inRange {
			t.Failf("Iterator.Read %s: error %v for %q", w.name, err, text)
		}
		if err == nil {
			if got.Cmp(want) != 0 {
				t.Failf("Iterator.Read %s: got %v for %q", w.name, got, text)
			}
			// the text after the number is still there
			rest := tail
			vt, err := it.NextValueType()
			i := 0
			for i < len(rest) && ref.IsWS(rest[i]) {
				i++
			}
			if (err == nil) != (i < len(rest)) {
				t.Failf("Iterator.Read %s: %v %v after %q", w.name, vt, err, text)
			}
			if err == nil && it.Buffer()[0] != rest[i] {
				t.Failf("Iterator.Read %s: at %q after %q", w.name, it.Buffer(), text)
			}
		}
		it.Release()
	}
	// destinations
	for k := 0; k < 2; k++ {
		pl := &intPlaces[t.Int(len(intPlaces))]
		el := w.typ
		if t.P(1, 4) {
			el = w.named
		}
		dst := reflect.New(pl.mk(w, el))
		doc := []byte(pl.doc(lit))
		e := pickEntry(t)
		err := e.f(jzon.DefaultDecoderConfig, t, clone(doc), dst.Interface())
		if pl.key && lit == "-0" && inRange {
			continue
		}
		if el.Kind() == reflect.Uint8 && pl.name == "slice element" {
			// still an array of numbers
		}
		if (err == nil) != inRange {
			t.Failf("%s into %s (%s): error %v for %s", e.name, w.name, pl.name, err, doc)
		}
		if err != nil {
			continue
		}
		v, good := pl.get(dst.Elem())
		if !good || intOf(v).Cmp(want) != 0 {
			t.Failf("%s into %s (%s): got %v for %s", e.name, w.name, pl.name, show(dst.Interface()), doc)
		}
	}
}

// notInts are texts which are not integers in any width.
func c04NotInt(t *eng.T, w *intWidth) {
	var lit string
	switch t.W(4, 3, 3) {
	case 0:
		l := c04Lit(t, w)
		lit = l + t.Str(".0", ".5", "e0", "e1", "E+2", "e-1", ".", "x", "_", " 1", "-", "+", "'")
	case 1:
		l := c04Lit(t, w)
		if l[0] == '-' {
			lit = "-0" + l[1:]
		} else {
			lit = t.Str("0", "00", "+", "--", " -", ".", "0x") + l
			if lit[0] == ' ' {
				lit = "- " + l
			}
		}
	default:
		lit = t.Str("-", "", "true", `"1"`, `"a"`, "[]", "[1]", "{}", "false", "+1", "0x1", "-a", "NaN", "1a")
	}
	t.Key([]byte(w.name + lit))
	t.Nontrivial()
	t.Label("not an integer")
	dst := reflect.New(w.typ)
	e := pickEntry(t)
	if err := e.f(jzon.DefaultDecoderConfig, t, []byte(lit), dst.Interface()); err == nil {
		t.Failf("%s into %s: no error for %q, got %v", e.name, w.name, lit, dst.Elem().Interface())
	}
	sl := reflect.New(reflect.SliceOf(w.typ))
	doc := "[" + lit + "]"
	if lit == "" {
		doc = "[1,]"
	}
	if w.typ.Kind() == reflect.Uint8 && lit == `"1"` {
		return
	}
	if err := e.f(jzon.DefaultDecoderConfig, t, []byte(doc), sl.Interface()); err == nil {
		t.Failf("%s into []%s: no error for %q, got %v", e.name, w.name, doc, show(sl.Interface()))
	}
}

func init() {
	eng.Register(&eng.Prop{
		ID:          "C04",
		Rule:        "a case is one integer width and one literal (near the bounds of the widths, powers of ten, random digits, up to 45 digits) or one text that is not an integer, given to the iterator method and to 2 of 12 kinds of destination; non-trivial: the literal has more than one digit. enumerated: every integer from -70000 to 70000 for the four narrow widths, and the +-300 neighbours of all bounds for all widths",
		Assumptions: []string{"math/big converts decimal literals correctly"},
		Quick:       2400000, Thorough: 40000000,
		Exhaustive: func(t *eng.T) int {
			n := 0
			check := func(w *intWidth, v *big.Int) {
				n++
				lit := v.String()
				in := v.Cmp(w.min) >= 0 && v.Cmp(w.max) <= 0
				dst := reflect.New(w.typ)
				err := jzon.Unmarshal([]byte(lit), dst.Interface())
				if (err == nil) != in || in && intOf(dst.Elem()).Cmp(v) != 0 {
					t.Failf("Unmarshal into %s: %v, %v for %s", w.name, dst.Elem().Interface(), err, lit)
				}
			}
			for _, w := range intWidths {
				if w.bits <= 16 {
					for i := int64(-70000); i <= 70000; i++ {
						check(w, bi(i))
					}
				}
				for _, o := range intWidths {
					for d := int64(-300); d <= 300; d++ {
						check(w, new(big.Int).Add(o.min, bi(d)))
						check(w, new(big.Int).Add(o.max, bi(d)))
					}
				}
			}
			return n
		},
		Run: func(t *eng.T) {
			w := intWidths[t.Int(len(intWidths))]
			if t.P(1, 5) {
				c04NotInt(t, w)
				return
			}
			lit := c04Lit(t, w)
			t.Key([]byte(w.name + lit))
			t.Sample(func() string { return w.name + " " + lit })
			if len(lit) > 1 {
				t.Nontrivial()
			}
			c04One(t, w, lit)
		},
	})
}

var _ = fmt.Sprint
