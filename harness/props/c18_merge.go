package props

import (
	"encoding/base64"
	"fmt"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"unsafe"

	"github.com/zerosnake0/jzon"

	"verif/cat"
	"verif/eng"
	"verif/gen"
	"verif/ref"
)

// merger is the model of decoding into a populated destination.
type merger struct{}

type mergeErr string

func (mergeErr) Error() string { return "model: does not fit" }

func (m *merger) fail(f string, a ...interface{}) { panic(mergeErr(fmt.Sprintf(f, a...))) }

func mergeInto(n *ref.Node, v reflect.Value) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(mergeErr); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	(&merger{}).merge(n, v)
	return nil
}

func (m *merger) merge(n *ref.Node, v reflect.Value) {
	if n.Kind == ref.Null {
		switch v.Kind() {
		case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Interface:
			v.Set(reflect.Zero(v.Type()))
		}
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			v.Set(reflect.New(v.Type().Elem()))
		}
		m.merge(n, v.Elem())
	case reflect.Interface:
		if !v.IsNil() && v.Elem().Kind() == reflect.Ptr && !v.Elem().IsNil() {
			m.merge(n, v.Elem().Elem())
			return
		}
		if v.NumMethod() > 0 {
			m.fail("interface")
		}
		x, ok := n.Interface(nil)
		if !ok {
			m.fail("range")
		}
		if x == nil {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		v.Set(reflect.ValueOf(x))
	case reflect.Bool:
		if n.Kind != ref.Bool {
			m.fail("bool")
		}
		v.SetBool(n.B)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if n.Kind != ref.Num {
			m.fail("number")
		}
		b, ok := new(big.Int).SetString(n.Num, 10)
		if !ok {
			m.fail("integer")
		}
		if v.Kind() >= reflect.Uint {
			if !b.IsUint64() || strings.HasPrefix(n.Num, "-") || v.OverflowUint(b.Uint64()) {
				m.fail("range")
			}
			v.SetUint(b.Uint64())
			return
		}
		if !b.IsInt64() || v.OverflowInt(b.Int64()) {
			m.fail("range")
		}
		v.SetInt(b.Int64())
	case reflect.Float32, reflect.Float64:
		if n.Kind != ref.Num {
			m.fail("number")
		}
		f, err := strconv.ParseFloat(n.Num, v.Type().Bits())
		if err != nil {
			m.fail("range")
		}
		v.SetFloat(f)
	case reflect.String:
		if n.Kind != ref.Str {
			m.fail("string")
		}
		v.SetString(n.Str)
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 && n.Kind == ref.Str {
			b, err := base64.StdEncoding.DecodeString(n.Str)
			if err != nil {
				m.fail("base64")
			}
			v.SetBytes(b)
			return
		}
		if n.Kind != ref.Arr {
			m.fail("array")
		}
		s := reflect.MakeSlice(v.Type(), len(n.Elems), len(n.Elems))
		for i, e := range n.Elems {
			m.merge(e, s.Index(i))
		}
		v.Set(s)
	case reflect.Array:
		if n.Kind != ref.Arr {
			m.fail("array")
		}
		for i, e := range n.Elems {
			if i < v.Len() {
				m.merge(e, v.Index(i))
			}
		}
		for i := len(n.Elems); i < v.Len(); i++ {
			v.Index(i).Set(reflect.Zero(v.Type().Elem()))
		}
	case reflect.Map:
		if n.Kind != ref.Obj {
			m.fail("object")
		}
		if v.IsNil() {
			v.Set(reflect.MakeMap(v.Type()))
		}
		for i, k := range n.Keys {
			kv := reflect.New(v.Type().Key()).Elem()
			if kv.Kind() == reflect.String {
				kv.SetString(k)
			} else {
				x, err := strconv.ParseInt(k, 10, 64)
				if err != nil || kv.OverflowInt(x) {
					m.fail("key")
				}
				kv.SetInt(x)
			}
			ev := reflect.New(v.Type().Elem()).Elem()
			m.merge(n.Vals[i], ev)
			v.SetMapIndex(kv, ev)
		}
	case reflect.Struct:
		if n.Kind != ref.Obj {
			m.fail("object")
		}
		for i, k := range n.Keys {
			path := m.find(v.Type(), k)
			if path == nil {
				continue
			}
			f := v
			for _, x := range path {
				if f.Kind() == reflect.Ptr {
					if f.IsNil() {
						f.Set(reflect.New(f.Type().Elem()))
					}
					f = f.Elem()
				}
				f = f.Field(x)
			}
			m.merge(n.Vals[i], f)
		}
	default:
		panic("model: " + v.Type().String())
	}
}

// find resolves a key; all names are different, also up to case.
func (m *merger) find(st reflect.Type, k string) []int {
	if st.Kind() == reflect.Ptr {
		st = st.Elem()
	}
	for i := 0; i < st.NumField(); i++ {
		f := st.Field(i)
		if f.Anonymous {
			if p := m.find(f.Type, k); p != nil {
				return append([]int{i}, p...)
			}
			continue
		}
		if strings.EqualFold(f.Name, k) {
			return []int{i}
		}
	}
	return nil
}

// mgen draws types and values.
type mgen struct {
	t   *eng.T
	n   int
	loc int
	// the slices of the destination with all their room, and copies of them
	olds [][2]reflect.Value
}

var mLeaf = []reflect.Type{ty(0), ty(int8(0)), ty(uint16(0)), ty(""), ty(true), ty(1.5), ty(float32(0)), ty(cat.NStr("")), ty([]byte(nil)), ty(uint64(0))}

func (g *mgen) typ(depth int) reflect.Type {
	t := g.t
	g.n++
	r := 1
	if depth >= 4 || g.n > 16 {
		r = 0
	}
	switch t.W(5, 4, 5*r, 3*r, 3*r, 4*r, 6*r, 1) {
	case 0:
		return mLeaf[t.Int(len(mLeaf))]
	case 1:
		return ifaceT
	case 2:
		return reflect.PtrTo(g.typ(depth + 1))
	case 3:
		return reflect.SliceOf(g.typ(depth + 1))
	case 4:
		n := t.Int(4)
		if t.P(1, 6) {
			n = t.Int(12)
		}
		return reflect.ArrayOf(n, g.typ(depth+1))
	case 5:
		k := ty("")
		if t.P(1, 3) {
			k = ty(int16(0))
		}
		return reflect.MapOf(k, g.typ(depth+1))
	case 6:
		return g.str(depth)
	default:
		return reflect.TypeOf((*cat.Meth)(nil)).Elem()
	}
}

func (g *mgen) str(depth int) reflect.Type {
	t := g.t
	n := t.W(1, 3, 4, 4, 2, 1)
	if depth < 2 && t.P(1, 10) {
		n = 12
	}
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		g.loc++
		f := reflect.StructField{Name: "F" + strconv.Itoa(g.loc)}
		if depth < 3 && n < 6 && t.P(1, 6) {
			f.Anonymous = true
			f.Type = g.str(depth + 1)
			if t.Bool() {
				f.Type = reflect.PtrTo(f.Type)
			}
		} else {
			f.Type = g.typ(depth + 1)
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

// fill populates a value.
func (g *mgen) fill(v reflect.Value, depth int) {
	t := g.t
	if depth > 6 {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(t.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16:
		v.SetInt(int64(t.Range(1, 100)))
	case reflect.Uint8, reflect.Uint16, reflect.Uint64:
		v.SetUint(uint64(t.Range(1, 100)))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(t.Range(1, 100)))
	case reflect.String:
		v.SetString("old" + strconv.Itoa(t.Int(100)))
	case reflect.Ptr:
		if t.P(3, 4) {
			v.Set(reflect.New(v.Type().Elem()))
			g.fill(v.Elem(), depth+1)
		}
	case reflect.Slice:
		if t.P(3, 4) {
			n := t.Int(4)
			c := n + t.Int(3)
			if t.P(1, 10) {
				c = n + t.Int(20)
			}
			s := reflect.MakeSlice(v.Type(), c, c)
			for i := 0; i < c; i++ {
				if i < 8 {
					g.fill(s.Index(i), depth+1)
				}
			}
			if c > 0 {
				// slices are replaced: this one stays as it is
				g.olds = append(g.olds, [2]reflect.Value{s, (&copier{image: map[unsafe.Pointer]unsafe.Pointer{}}).copy(s)})
			}
			v.Set(s.Slice(0, n))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.fill(v.Index(i), depth+1)
		}
	case reflect.Map:
		if t.P(3, 4) {
			v.Set(reflect.MakeMap(v.Type()))
			for i := t.Int(4); i > 0; i-- {
				k := reflect.New(v.Type().Key()).Elem()
				if k.Kind() == reflect.String {
					k.SetString(t.Str("a", "b", "", "k", "old"))
				} else {
					k.SetInt(int64(t.Int(4)))
				}
				e := reflect.New(v.Type().Elem()).Elem()
				g.fill(e, depth+1)
				v.SetMapIndex(k, e)
			}
		}
	case reflect.Interface:
		if v.NumMethod() > 0 {
			if t.P(3, 4) {
				v.Set(reflect.ValueOf(&cat.MImpl{}))
			}
			return
		}
		switch t.W(2, 2, 4, 1, 1, 1) {
		case 1:
			v.Set(reflect.ValueOf(map[string]interface{}{"old": 1.0, "a": []interface{}{"x"}}))
		case 2:
			// a pointer to something, which must not be a pointer (a null for
			// it is a documented difference)
			et := g.typ(3)
			for et.Kind() == reflect.Ptr {
				et = et.Elem()
			}
			p := reflect.New(et)
			g.fill(p.Elem(), depth+2)
			v.Set(p)
		case 3:
			v.Set(reflect.ValueOf("old"))
		case 4:
			v.Set(reflect.ValueOf((*int)(nil)))
		case 5:
			v.Set(reflect.ValueOf(struct{ A int }{5}))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			g.fill(v.Field(i), depth+1)
		}
	}
}

// copier makes a deep copy and remembers which pointer became which.
// (As pointers, so that no address is used twice.)
type copier struct {
	image map[unsafe.Pointer]unsafe.Pointer
}

func (c *copier) copy(v reflect.Value) reflect.Value {
	r := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			p := reflect.New(v.Type().Elem())
			p.Elem().Set(c.copy(v.Elem()))
			if v.Type().Elem().Size() > 0 {
				c.image[p.UnsafePointer()] = v.UnsafePointer()
			}
			r.Set(p)
		}
	case reflect.Interface:
		if !v.IsNil() {
			r.Set(c.copy(v.Elem()))
		}
	case reflect.Slice:
		if !v.IsNil() {
			s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
			for i := 0; i < v.Len(); i++ {
				s.Index(i).Set(c.copy(v.Index(i)))
			}
			r.Set(s)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			r.Index(i).Set(c.copy(v.Index(i)))
		}
	case reflect.Map:
		if !v.IsNil() {
			m := reflect.MakeMap(v.Type())
			it := v.MapRange()
			for it.Next() {
				m.SetMapIndex(it.Key(), c.copy(it.Value()))
			}
			c.image[m.UnsafePointer()] = v.UnsafePointer()
			r.Set(m)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			r.Field(i).Set(c.copy(v.Field(i)))
		}
	default:
		r.Set(v)
	}
	return r
}

// identity checks that pointers and maps of the result are those of the
// original exactly where the model kept them.
func (c *copier) identity(got, model reflect.Value, path string) string {
	switch got.Kind() {
	case reflect.Ptr, reflect.Map:
		if got.IsNil() || model.IsNil() {
			return ""
		}
		if got.Kind() == reflect.Map || got.Type().Elem().Size() > 0 {
			if o, kept := c.image[model.UnsafePointer()]; kept && o != got.UnsafePointer() {
				return path + ": replaced instead of filled in place"
			}
		}
		if got.Kind() == reflect.Ptr {
			return c.identity(got.Elem(), model.Elem(), path+".*")
		}
		it := got.MapRange()
		for it.Next() {
			if r := c.identity(it.Value(), model.MapIndex(it.Key()), path+"[k]"); r != "" {
				return r
			}
		}
	case reflect.Interface:
		if got.IsNil() || model.IsNil() {
			return ""
		}
		return c.identity(got.Elem(), model.Elem(), path)
	case reflect.Slice, reflect.Array:
		for i := 0; i < got.Len(); i++ {
			if r := c.identity(got.Index(i), model.Index(i), path+"["+strconv.Itoa(i)+"]"); r != "" {
				return r
			}
		}
	case reflect.Struct:
		for i := 0; i < got.NumField(); i++ {
			if r := c.identity(got.Field(i), model.Field(i), path+"."+got.Type().Field(i).Name); r != "" {
				return r
			}
		}
	}
	return ""
}

func init() {
	eng.Register(&eng.Prop{
		ID:          "C18",
		Rule:        "a case is a type (pointers, interfaces holding pointers or values, maps, arrays, slices, structs with embedding), a populated destination of it and 1 to 3 documents with nulls decoded into it one after the other, compared with a model of merging: contents, identity of the pointers and maps kept, and slices that were replaced stay as they were; non-trivial: the type holds a pointer, map, interface or struct",
		Assumptions: []string{refNote, "the model of merging: null clears pointers, maps, slices and interfaces and leaves the rest; pointers, maps, arrays and structs are filled in place, slices are made new, map elements start from zero"},
		Quick:       250000, Thorough: 30000000,
		Run: func(t *eng.T) {
			g := &mgen{t: t}
			tt := g.typ(0)
			switch tt.Kind() {
			case reflect.Ptr, reflect.Map, reflect.Interface, reflect.Struct, reflect.Array, reflect.Slice:
				t.Nontrivial()
			}
			p := reflect.New(tt)
			g.fill(p.Elem(), 0)
			c := &copier{image: map[unsafe.Pointer]unsafe.Pointer{}}
			model := reflect.New(tt)
			model.Elem().Set(c.copy(p.Elem()))
			cfg := jzon.NewDecoderConfig(nil)
			for k := t.Range(1, 3); k > 0; k-- {
				dt := tt
				dg := &gen.DG{T: t, WS: t.Int(2), Wrong: []int{0, 0, 20}[t.Int(3)]}
				doc := dg.Doc(dt)
				if dt == ifaceT && !p.Elem().IsNil() && p.Elem().Elem().Kind() == reflect.Ptr && t.P(3, 4) {
					doc = dg.Doc(p.Elem().Elem().Type().Elem())
				}
				n, st := ref.Document(doc)
				if st != ref.OK || !validUTF8(doc) {
					continue
				}
				t.Key(doc)
				t.Sample(func() string { return typeStr(tt) + " " + show(p.Interface()) + " <- " + gen.Show(doc) })
				before := ""
				t.Logf("before %s\ndoc %s", show(p.Interface()), gen.Show(doc))
				wantErr := mergeInto(n, model.Elem())
				e := pickEntry(t)
				err := e.f(cfg, t, doc, p.Interface())
				for _, o := range g.olds {
					if d := ref.Diff(o[0].Interface(), o[1].Interface()); d != "" {
						t.Failf("%s into %s: a slice which was replaced changed at %s for %s", e.name, typeStr(tt), d, gen.Show(doc))
					}
				}
				if (err != nil) != (wantErr != nil) {
					t.Failf("%s into %s: error %v, model %v for %s%s", e.name, typeStr(tt), err, wantErr, gen.Show(doc), before)
				}
				if err != nil {
					t.Label("rejected")
					return
				}
				t.Label("merged")
				if d := ref.Diff(p.Interface(), model.Interface()); d != "" {
					t.Failf("%s into %s: differs from the model at %s for %s", e.name, typeStr(tt), d, gen.Show(doc))
				}
				if d := c.identity(p.Elem(), model.Elem(), ""); d != "" {
					t.Failf("%s into %s: %s for %s", e.name, typeStr(tt), d, gen.Show(doc))
				}
			}
		},
	})
}
