package props

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"

	"github.com/zerosnake0/jzon"

	"verif/cat"
	"verif/eng"
	"verif/gen"
	"verif/ref"
)

// element types of many sizes and shapes
var c32Elems = []reflect.Type{
	ty(struct{}{}), ty(false), ty(int8(0)), ty(int16(0)), ty(int32(0)), ty(int64(0)), ty(float32(0)), ty(1.5), ty(""), ifaceT, ty((*int)(nil)), ty((*string)(nil)), ty([3]int8{}), ty([1]*int{}), ty([0]int{}),
	ty(map[string]int(nil)), ty([]int(nil)), ty([]string(nil)), ty([2]string{}), ty(struct {
		A int8
		B int64
		C int8
	}{}), ty(struct{ P *int }{}), ty(struct {
		S string
		N [5]int
	}{}), ty([17]int8{}), ty(json.Number("")), ty(json.RawMessage(nil)), ty(cat.JV{}), ty(cat.TV{}), ty(cat.NStr("")), ty(cat.Tree{}), ty([]interface{}(nil)), ty(uint16(0)), ty([][]int8(nil)), ty(uintptr(0)),
}

func c32Len(t *eng.T) int {
	switch t.W(10, 4, 1) {
	case 0:
		return t.Range(0, 9)
	case 1:
		return t.Range(0, 70)
	default:
		if t.P(1, 15) {
			return gen.Big(t) / 8
		}
		return t.Size(3000)
	}
}

// c32Elem writes an element which depends on its index.
func c32Elem(t *eng.T, b []byte, et reflect.Type, i int) []byte {
	switch et.Kind() {
	case reflect.Bool:
		return strconv.AppendBool(b, i%3 == 0)
	case reflect.Int8:
		return strconv.AppendInt(b, int64(int8(i)), 10)
	case reflect.Int16, reflect.Uint16:
		return strconv.AppendInt(b, int64(i&0x7fff), 10)
	case reflect.Int, reflect.Int32, reflect.Int64, reflect.Uintptr:
		return strconv.AppendInt(b, int64(i)*1000003, 10)
	case reflect.Float32, reflect.Float64:
		return append(b, fmt.Sprintf("%d.25", i)...)
	case reflect.String:
		if et == ty(json.Number("")) {
			return append(b, fmt.Sprintf("%de2", i)...)
		}
		return append(b, fmt.Sprintf("\"s%d\"", i)...)
	case reflect.Ptr:
		if i%4 == 1 {
			return append(b, "null"...)
		}
		return c32Elem(t, b, et.Elem(), i)
	case reflect.Slice:
		if et == ty(json.RawMessage(nil)) {
			return append(b, fmt.Sprintf("{\"r\":[%d]}", i)...)
		}
		if i%5 == 2 {
			return append(b, []string{"null", "[]"}[i&1]...)
		}
		b = append(b, '[')
		for k := 0; k < i%4; k++ {
			if k > 0 {
				b = append(b, ',')
			}
			b = c32Elem(t, b, et.Elem(), i+k)
		}
		return append(b, ']')
	case reflect.Interface:
		return append(b, fmt.Sprintf("[%d,\"x\"]", i)...)
	case reflect.Map:
		return append(b, fmt.Sprintf("{\"k%d\":%d}", i, i)...)
	case reflect.Array:
		b = append(b, '[')
		n := et.Len() + i%3 - 1 // one less, as many, one more
		for k := 0; k < n; k++ {
			if k > 0 {
				b = append(b, ',')
			}
			b = c32Elem(t, b, et.Elem(), i+k)
		}
		return append(b, ']')
	}
	switch et {
	case ty(cat.JV{}), ty(cat.Tree{}):
		return append(b, "{}"...)
	case ty(cat.TV{}):
		return append(b, fmt.Sprintf("\"%d\"", i)...)
	}
	// structs
	b = append(b, '{')
	n := 0
	for k := 0; k < et.NumField(); k++ {
		if (i+k)%4 == 3 {
			continue
		}
		if n++; n > 1 {
			b = append(b, ',')
		}
		b = append(b, fmt.Sprintf("%q:", et.Field(k).Name)...)
		b = c32Elem(t, b, et.Field(k).Type, i+k)
	}
	return append(b, '}')
}

// c32Old fills an earlier element, so that anything of it would show.
func c32Old(v reflect.Value, i int) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(100 - i%50))
	case reflect.Uint8, reflect.Uint16, reflect.Uintptr:
		v.SetUint(uint64(100 - i%50))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(i) + 0.5)
	case reflect.String:
		v.SetString(strconv.Itoa(77 + i))
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		c32Old(v.Elem(), i)
	case reflect.Interface:
		v.Set(reflect.ValueOf("old"))
	case reflect.Slice:
		if v.Type().Elem() == v.Type() {
			return
		}
		v.Set(reflect.MakeSlice(v.Type(), 2, 5))
		for k := 0; k < 2; k++ {
			c32Old(v.Index(k), i+k)
		}
	case reflect.Array:
		for k := 0; k < v.Len(); k++ {
			c32Old(v.Index(k), i+k)
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		v.SetMapIndex(reflect.ValueOf("old"), reflect.ValueOf(i))
	case reflect.Struct:
		if v.Type() == ty(cat.Tree{}) {
			v.Field(0).SetInt(9)
			v.Field(4).Set(reflect.ValueOf("old"))
			return
		}
		for k := 0; k < v.NumField(); k++ {
			if v.Field(k).CanSet() {
				c32Old(v.Field(k), i+k)
			}
		}
	}
}

func init() {
	eng.Register(&eng.Prop{
		ID:          "C32",
		Rule:        "a case is a slice type (or slice of slices, or array type of some length) over one of 33 element types of many sizes and shapes, and a JSON array of some length (0 to 8200), whose elements depend on their index, possibly damaged at one place, decoded into a zero or filled destination, slices also with earlier contents in their spare room, which stay as they are; the result is compared with encoding/json: length, order, every element, arrays filled up with zeros, surplus elements skipped but still checked; decoded slices share no memory (appending to one leaves the others alone); the value is encoded again and compared; non-trivial: at least 3 elements",
		Assumptions: []string{stdNote},
		Quick:       900000, Thorough: 20000000,
		Run: func(t *eng.T) {
			et := c32Elems[t.Int(len(c32Elems))]
			n := c32Len(t)
			var vt reflect.Type
			array := t.P(1, 3)
			if array {
				l := n + t.Range(-3, 3)
				if t.P(1, 4) {
					l = t.Range(0, 12)
				}
				if l < 0 {
					l = 0
				}
				if l > 60 {
					l = 60 + l%7
				}
				vt = reflect.ArrayOf(l, et)
			} else {
				vt = reflect.SliceOf(et)
			}
			if n >= 3 {
				t.Nontrivial()
			}
			doc := []byte{'['}
			base := t.Int(300)
			for i := 0; i < n; i++ {
				if i > 0 {
					doc = append(doc, ',')
				}
				doc = c32Elem(t, doc, et, base+i)
			}
			doc = append(doc, ']')
			damaged := t.P(1, 8) && len(doc) > 2
			if damaged {
				switch t.Int(4) {
				case 0:
					doc = gen.Mutate(t, doc, 1)
				case 1:
					doc = append(doc[:len(doc)-1], ",]"...)
				case 2:
					doc = append(doc[:len(doc)-1], " x]"...)
				default:
					doc = doc[:t.Range(1, len(doc)-1)]
				}
				t.Label("damaged")
			}
			if !validUTF8(doc) {
				t.Skip()
			}
			t.Key([]byte(vt.String()))
			t.Key(doc)
			t.Sample(func() string { return typeStr(vt) + " <- " + gen.Show(doc) })
			a, b := reflect.New(vt), reflect.New(vt)
			if t.P(1, 4) {
				// a filled destination: the old elements of a slice are gone,
				// those of an array are decoded into
				if !array {
					a.Elem().Set(reflect.MakeSlice(vt, t.Range(0, 5), 8))
				} else if et.Kind() <= reflect.Float64 || et.Kind() == reflect.String {
					for i := 0; i < vt.Len(); i++ {
						v := (&gen.VG{T: t}).Value(et)
						a.Elem().Index(i).Set(v)
						b.Elem().Index(i).Set(v)
					}
				}
				t.Label("filled")
			}
			// a slice with earlier contents, also beyond its length
			var old, oldCopy reflect.Value
			if !array && t.P(1, 4) {
				c := t.Range(1, 12)
				if t.P(1, 10) {
					c = t.Size(600) + 1
				}
				old = reflect.MakeSlice(vt, c, c)
				for i := 0; i < c; i++ {
					c32Old(old.Index(i), i)
				}
				oldCopy = reflect.MakeSlice(vt, c, c)
				for i := 0; i < c; i++ {
					c32Old(oldCopy.Index(i), i)
				}
				l := t.Range(0, c)
				if t.P(1, 3) {
					l = 0
				}
				a.Elem().Set(old.Slice(0, l))
				t.Label("earlier contents")
			}
			e := pickEntry(t)
			err := e.f(freshOr(t), t, clone(doc), a.Interface())
			stdErr := json.Unmarshal(doc, b.Interface())
			if old.IsValid() {
				if d := ref.Diff(old.Interface(), oldCopy.Interface()); d != "" {
					t.Failf("%s: the earlier slice of the destination changed at %s; %s into %s", e.name, d, gen.Show(doc), typeStr(vt))
				}
			}
			if (err == nil) != (stdErr == nil) {
				t.Failf("%s: error %v, encoding/json %v; %s into %s", e.name, err, stdErr, gen.Show(doc), typeStr(vt))
			}
			if err != nil {
				return
			}
			if d := ref.Diff(a.Interface(), b.Interface()); d != "" {
				t.Failf("%s: differs at %s; %s into %s", e.name, d, gen.Show(doc), typeStr(vt))
			}
			want, stdErr := json.Marshal(a.Interface())
			if stdErr == nil && !(damaged && et == ty(json.RawMessage(nil))) {
				ee := pickEnc(t)
				out, err := ee.f(t, encConfig(t, vt), true, a.Interface())
				if err != nil {
					t.Failf("%s of %s: %v", ee.name, typeStr(vt), err)
				}
				if d := sameJSON(out, want, true); d != "" {
					t.Failf("%s of %s: %s", ee.name, typeStr(vt), d)
				}
			}
			// inner slices are apart
			if et.Kind() == reflect.Slice && et != ty(json.RawMessage(nil)) && a.Elem().Len() > 1 && n < 40 {
				for i := 0; i < a.Elem().Len(); i++ {
					in := a.Elem().Index(i)
					x := in
					for k := 0; k < 3; k++ {
						x = reflect.Append(x, reflect.Zero(et.Elem()))
					}
					_ = x
				}
				if d := ref.Diff(a.Interface(), b.Interface()); d != "" {
					t.Failf("%s: appending to one inner slice changes another at %s; %s into %s", e.name, d, gen.Show(doc), typeStr(vt))
				}
			}
			// a second decode leaves the first result alone
			if !array && a.Elem().Len() > 0 && t.P(1, 3) {
				c := reflect.New(vt)
				c.Elem().Set(a.Elem())
				if err := jzon.Unmarshal([]byte("["+string(c32Elem(t, nil, et, 7))+"]"), a.Interface()); err != nil {
					t.Failf("again: %v", err)
				}
				if d := ref.Diff(c.Interface(), b.Interface()); d != "" {
					t.Failf("%s: a second decode into the variable changes the slice of the first at %s; %s into %s", e.name, d, gen.Show(doc), typeStr(vt))
				}
			}
		},
	})
}
