package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"unsafe"

	"github.com/zerosnake0/jzon"

	"verif/eng"
	"verif/gen"
	"verif/ref"
)

// Custom codecs are compared with a mirrored type: each type C.. that gets a
// custom codec has a twin M.. of the same memory layout, whose MarshalJSON and
// UnmarshalJSON do for encoding/json what the codec does for this library.

var errCustom = errors.New("custom codec error")

type (
	CStr    string
	CInt    int32
	CStruct struct {
		A int
		S string
	}
	CMap  map[string]int
	CPtr  struct{ P *int }
	CArr  [1]*int
	CSl   []int
	CU8   uint8
	CBool bool
	CF    float32
	// CJ has methods of its own, which the codec overrides.
	CJ struct{ N int }
	// CT has text methods of its own, which the codec overrides.
	CT [2]uint8
	// CJM is pointer shaped and has a method of its own.
	CJM map[string]bool

	MStr    string
	MInt    int32
	MStruct struct {
		A int
		S string
	}
	MMap  map[string]int
	MPtr  struct{ P *int }
	MArr  [1]*int
	MSl   []int
	MU8   uint8
	MBool bool
	MF    float32
	MJ    struct{ N int }
	MT    [2]uint8
	MJM   map[string]bool
	// the twin of the native int16
	MI16 int16
)

func (CJ) MarshalJSON() ([]byte, error)  { return []byte(`"own method"`), nil }
func (*CJ) UnmarshalJSON(b []byte) error { return errors.New("own method") }
func (CT) MarshalText() ([]byte, error)  { return []byte(`own method`), nil }
func (*CT) UnmarshalText(b []byte) error { return errors.New("own method") }
func (CJM) MarshalJSON() ([]byte, error) { return []byte(`"own method"`), nil }

func jtext(v interface{}, fail bool) ([]byte, error) {
	if fail {
		return nil, errCustom
	}
	return json.Marshal(v)
}

func (m MStr) MarshalJSON() ([]byte, error) {
	return jtext([]string{string(m)}, strings.Contains(string(m), "ERR"))
}
func (m *MStr) UnmarshalJSON(b []byte) error {
	if strings.Contains(string(b), "ERR") {
		return errCustom
	}
	*m = MStr(string(*m) + "|" + string(b))
	return nil
}
func (m MInt) MarshalJSON() ([]byte, error) {
	return jtext(fmt.Sprintf("%d", int32(m)), m == 666)
}
func (m *MInt) UnmarshalJSON(b []byte) error {
	*m = MInt(len(b))
	return nil
}

type plainStruct struct {
	A int
	S string
}

func (m MStruct) MarshalJSON() ([]byte, error) {
	return jtext(map[string]interface{}{"x": m.A, "y": []string{m.S}}, m.A == 666)
}
func (m *MStruct) UnmarshalJSON(b []byte) error {
	var p plainStruct
	if err := json.Unmarshal(b, &p); err != nil {
		return err
	}
	m.A, m.S = p.A+1, p.S+"!"
	return nil
}
func (m MMap) MarshalJSON() ([]byte, error) {
	if m == nil {
		return []byte(`"nil"`), nil
	}
	return jtext(len(m), false)
}
func (m *MMap) UnmarshalJSON(b []byte) error {
	*m = MMap{string(b): len(b)}
	return nil
}
func (m MPtr) MarshalJSON() ([]byte, error) {
	if m.P == nil {
		return []byte(`"nil"`), nil
	}
	return jtext([]int{*m.P}, *m.P == 666)
}
func (m *MPtr) UnmarshalJSON(b []byte) error {
	n := len(b)
	m.P = &n
	return nil
}
func (m MArr) MarshalJSON() ([]byte, error) {
	if m[0] == nil {
		return []byte(`"nil"`), nil
	}
	return jtext(map[string]int{"v": *m[0]}, *m[0] == 666)
}
func (m *MArr) UnmarshalJSON(b []byte) error {
	n := len(b)
	m[0] = &n
	return nil
}
func (m MSl) MarshalJSON() ([]byte, error) {
	if m == nil {
		return []byte(`"nil"`), nil
	}
	return jtext(map[string]int{"n": len(m)}, len(m) == 6)
}
func (m *MSl) UnmarshalJSON(b []byte) error {
	*m = append(*m, len(b))
	return nil
}
func (m MU8) MarshalJSON() ([]byte, error) { return jtext(int(m)*2, m == 66) }
func (m *MU8) UnmarshalJSON(b []byte) error {
	*m = MU8(len(b))
	return nil
}
func (m MBool) MarshalJSON() ([]byte, error) { return jtext(!bool(m), false) }
func (m *MBool) UnmarshalJSON(b []byte) error {
	*m = !*m
	return nil
}
func (m MF) MarshalJSON() ([]byte, error) { return jtext(strconv.Itoa(int(m)), false) }
func (m *MF) UnmarshalJSON(b []byte) error {
	*m = MF(len(b)) + 0.5
	return nil
}
func (m MJ) MarshalJSON() ([]byte, error) { return jtext([]int{m.N}, m.N == 666) }
func (m *MJ) UnmarshalJSON(b []byte) error {
	m.N += len(b)
	return nil
}
func (m MT) MarshalJSON() ([]byte, error) { return jtext([]int{int(m[1])}, m[0] == 66) }
func (m *MT) UnmarshalJSON(b []byte) error {
	m[0]++
	m[1] = uint8(len(b))
	return nil
}
func (m MJM) MarshalJSON() ([]byte, error) { return jtext([]int{len(m)}, false) }
func (m *MJM) UnmarshalJSON(b []byte) error {
	*m = MJM{string(b): true}
	return nil
}
func (m MI16) MarshalJSON() ([]byte, error) { return jtext(fmt.Sprint("i", int16(m)), false) }
func (m *MI16) UnmarshalJSON(b []byte) error {
	*m = MI16(len(b))
	return nil
}

var customPairs = [][2]reflect.Type{
	{reflect.TypeOf(CStr("")), reflect.TypeOf(MStr(""))},
	{reflect.TypeOf(CInt(0)), reflect.TypeOf(MInt(0))},
	{reflect.TypeOf(CStruct{}), reflect.TypeOf(MStruct{})},
	{reflect.TypeOf(CMap{}), reflect.TypeOf(MMap{})},
	{reflect.TypeOf(CPtr{}), reflect.TypeOf(MPtr{})},
	{reflect.TypeOf(CArr{}), reflect.TypeOf(MArr{})},
	{reflect.TypeOf(CSl{}), reflect.TypeOf(MSl{})},
	{reflect.TypeOf(CU8(0)), reflect.TypeOf(MU8(0))},
	{reflect.TypeOf(CBool(false)), reflect.TypeOf(MBool(false))},
	{reflect.TypeOf(CF(0)), reflect.TypeOf(MF(0))},
	{reflect.TypeOf(CJ{}), reflect.TypeOf(MJ{})},
	{reflect.TypeOf(CT{}), reflect.TypeOf(MT{})},
	{reflect.TypeOf(CJM{}), reflect.TypeOf(MJM{})},
	{reflect.TypeOf(int16(0)), reflect.TypeOf(MI16(0))},
}

// ccodec is the codec of one pair.
type ccodec struct {
	m     reflect.Type
	way   int // how it reads and writes
	calls int
	ctx   *c21Ctx
}

// c21Ctx is the context that the codecs must see.
type c21Ctx struct {
	want interface{}
	bad  string
	n    int
}

func (x *c21Ctx) see(got interface{}) {
	if x == nil {
		return
	}
	x.n++
	if got != x.want {
		x.bad = fmt.Sprintf("context %v, want %v", got, x.want)
	}
}

func (c *ccodec) mirror(ptr unsafe.Pointer) reflect.Value { return reflect.NewAt(c.m, ptr) }

func (c *ccodec) Decode(ptr unsafe.Pointer, it *jzon.Iterator, opts *jzon.DecOpts) error {
	c.calls++
	c.ctx.see(it.Context)
	if c.m == reflect.TypeOf(MStruct{}) && c.way == 1 {
		var p plainStruct
		if err := it.ReadVal(&p); err != nil {
			return err
		}
		(*CStruct)(ptr).A, (*CStruct)(ptr).S = p.A+1, p.S+"!"
		return nil
	}
	var b []byte
	var err error
	switch c.way {
	case 0:
		b, err = it.SkipRaw()
		b = clone(b)
	case 1:
		b, err = it.ReadRaw()
	default:
		_, err = it.NextValueType()
		if err != nil {
			return err
		}
		b, err = it.AppendRaw([]byte("xy"))
		if err == nil {
			b = b[2:]
		}
	}
	if err != nil {
		return err
	}
	return c.mirror(ptr).Interface().(json.Unmarshaler).UnmarshalJSON(b)
}

func (c *ccodec) IsEmpty(ptr unsafe.Pointer) bool {
	v := c.mirror(ptr).Elem()
	switch v.Kind() {
	case reflect.Struct:
		return false
	case reflect.Map, reflect.Slice, reflect.Array, reflect.String:
		return v.Len() == 0
	}
	return v.IsZero()
}

func (c *ccodec) Encode(ptr unsafe.Pointer, s *jzon.Streamer, opts *jzon.EncOpts) {
	if s.Error != nil {
		return
	}
	c.calls++
	c.ctx.see(s.Context)
	if ptr == nil { // a nil pointer to the type
		s.Null()
		return
	}
	b, err := c.mirror(ptr).Elem().Interface().(json.Marshaler).MarshalJSON()
	if err != nil {
		s.Error = err
		return
	}
	switch c.way {
	case 0:
		s.Raw(b)
	case 1:
		s.RawString(string(b))
	default: // as a sequence of calls
		n, st := ref.Document(b)
		if st != ref.OK {
			s.Error = err
			return
		}
		streamNode(s, n)
	}
}

func streamNode(s *jzon.Streamer, n *ref.Node) {
	switch n.Kind {
	case ref.Arr:
		s.ArrayStart()
		for _, e := range n.Elems {
			streamNode(s, e)
		}
		s.ArrayEnd()
	case ref.Obj:
		s.ObjectStart()
		for i, k := range n.Keys {
			s.Field(k)
			streamNode(s, n.Vals[i])
		}
		s.ObjectEnd()
	case ref.Str:
		s.String(n.Str)
	case ref.Num:
		s.RawString(n.Num)
	case ref.Bool:
		s.Bool(n.B)
	default:
		s.Null()
	}
}

type mirrorer struct {
	on map[reflect.Type]reflect.Type // customised type -> twin
}

func (r *mirrorer) typ(ty reflect.Type) reflect.Type {
	if m, ok := r.on[ty]; ok {
		return m
	}
	if ty.Name() != "" {
		return ty
	}
	switch ty.Kind() {
	case reflect.Ptr:
		return reflect.PtrTo(r.typ(ty.Elem()))
	case reflect.Slice:
		return reflect.SliceOf(r.typ(ty.Elem()))
	case reflect.Array:
		return reflect.ArrayOf(ty.Len(), r.typ(ty.Elem()))
	case reflect.Map:
		return reflect.MapOf(r.typ(ty.Key()), r.typ(ty.Elem()))
	case reflect.Struct:
		var fs []reflect.StructField
		for i := 0; i < ty.NumField(); i++ {
			f := ty.Field(i)
			fs = append(fs, reflect.StructField{Name: f.Name, Type: r.typ(f.Type), Tag: f.Tag})
		}
		return reflect.StructOf(fs)
	}
	return ty
}

func (r *mirrorer) val(dst, src reflect.Value) {
	ty := src.Type()
	if _, ok := r.on[ty]; ok {
		dst.Set(src.Convert(dst.Type()))
		return
	}
	if ty.Name() != "" && ty.Kind() != reflect.Interface {
		dst.Set(src)
		return
	}
	switch ty.Kind() {
	case reflect.Ptr:
		if !src.IsNil() {
			dst.Set(reflect.New(dst.Type().Elem()))
			r.val(dst.Elem(), src.Elem())
		}
	case reflect.Slice:
		if !src.IsNil() {
			dst.Set(reflect.MakeSlice(dst.Type(), src.Len(), src.Len()))
			for i := 0; i < src.Len(); i++ {
				r.val(dst.Index(i), src.Index(i))
			}
		}
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			r.val(dst.Index(i), src.Index(i))
		}
	case reflect.Map:
		if !src.IsNil() {
			dst.Set(reflect.MakeMap(dst.Type()))
			for _, k := range src.MapKeys() {
				k2 := reflect.New(dst.Type().Key()).Elem()
				r.val(k2, k)
				v2 := reflect.New(dst.Type().Elem()).Elem()
				r.val(v2, src.MapIndex(k))
				dst.SetMapIndex(k2, v2)
			}
		}
	case reflect.Struct:
		for i := 0; i < src.NumField(); i++ {
			r.val(dst.Field(i), src.Field(i))
		}
	case reflect.Interface:
		if !src.IsNil() {
			e := src.Elem()
			n := reflect.New(r.typ(e.Type())).Elem()
			r.val(n, e)
			dst.Set(n)
		}
	default:
		dst.Set(src)
	}
}

var c21Plain = []reflect.Type{
	reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf(false), reflect.TypeOf(int32(0)), reflect.TypeOf(uint8(0)), ifaceT, reflect.TypeOf(float64(0)), reflect.TypeOf([]byte(nil)),
}

func c21Leaf(t *eng.T) reflect.Type {
	if t.P(1, 5) {
		return c21Plain[t.Int(len(c21Plain))]
	}
	return customPairs[t.Int(len(customPairs))][0]
}

func c21Type(t *eng.T, depth int) reflect.Type {
	if depth <= 0 || t.P(1, 4) {
		return c21Leaf(t)
	}
	switch t.W(3, 3, 2, 3, 5) {
	case 0:
		return reflect.PtrTo(c21Type(t, depth-1))
	case 1:
		return reflect.SliceOf(c21Type(t, depth-1))
	case 2:
		return reflect.ArrayOf(t.Range(0, 3), c21Type(t, depth-1))
	case 3:
		k := reflect.TypeOf("")
		if t.P(1, 4) {
			k = []reflect.Type{reflect.TypeOf(CStr("")), reflect.TypeOf(CInt(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(CU8(0))}[t.Int(4)]
		}
		return reflect.MapOf(k, c21Type(t, depth-1))
	default:
		n := t.Range(1, 5)
		if t.P(1, 8) {
			n = t.Range(9, 13)
		}
		var fs []reflect.StructField
		for i := 0; i < n; i++ {
			f := reflect.StructField{Name: string(rune('A' + i)), Type: c21Type(t, depth-1)}
			switch t.Int(4) {
			case 0:
				f.Tag = `json:",omitempty"`
			case 1:
				f.Tag = reflect.StructTag(fmt.Sprintf(`json:"n%d"`, i))
			}
			fs = append(fs, f)
		}
		return reflect.StructOf(fs)
	}
}

func c21Fill(t *eng.T, v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Ptr:
		if !t.P(1, 3) {
			v.Set(reflect.New(v.Type().Elem()))
			c21Fill(t, v.Elem(), depth)
		}
	case reflect.Slice:
		if !t.P(1, 4) {
			n := t.Range(0, 3)
			v.Set(reflect.MakeSlice(v.Type(), n, n))
			for i := 0; i < n; i++ {
				c21Fill(t, v.Index(i), depth)
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			c21Fill(t, v.Index(i), depth)
		}
	case reflect.Map:
		if !t.P(1, 4) {
			v.Set(reflect.MakeMap(v.Type()))
			if t.Bool() {
				k := reflect.New(v.Type().Key()).Elem()
				c21Fill(t, k, depth)
				e := reflect.New(v.Type().Elem()).Elem()
				c21Fill(t, e, depth)
				v.SetMapIndex(k, e)
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			c21Fill(t, v.Field(i), depth)
		}
	case reflect.Interface:
		if depth > 0 && !t.P(1, 4) {
			e := reflect.New(c21Type(t, 1)).Elem()
			c21Fill(t, e, depth-1)
			v.Set(e)
		}
	case reflect.Bool:
		v.SetBool(t.Bool())
	case reflect.String:
		v.SetString([]string{"", "a", "<b>", "long string of more than thirty-two bytes", "xERRx", "é"}[t.W(5, 5, 3, 3, 1, 3)])
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(t.Range(-3, 9)))
	case reflect.Uint8:
		v.SetUint([]uint64{0, 1, 65, 66, 255}[t.W(3, 3, 3, 1, 3)])
	default:
		v.SetInt([]int64{0, 1, -7, 666, 12345}[t.W(3, 3, 3, 1, 3)])
	}
}

func c21Doc(t *eng.T, b []byte, ty reflect.Type) []byte {
	if t.P(1, 9) {
		return append(b, "null"...)
	}
	for _, p := range customPairs {
		if p[0] == ty {
			if p[1] == reflect.TypeOf(MStruct{}) && !t.P(1, 6) {
				return append(b, []string{`{}`, `{"A":3}`, `{"S":"q","A" : -2}`, `{"s":"\u00e9","z":[1,{}]}`}[t.Int(4)]...)
			}
			return append(b, []string{`1`, `"s"`, `[1,{"a":[]}]`, `{"k":"v","l":[null]}`, `true`, `"xERRx"`, `-1.5e3`, `[ ]`}[t.W(4, 4, 4, 4, 2, 1, 2, 2)]...)
		}
	}
	switch ty.Kind() {
	case reflect.Ptr:
		return c21Doc(t, b, ty.Elem())
	case reflect.Slice, reflect.Array:
		if ty == reflect.TypeOf([]byte(nil)) {
			return append(b, `"AQID"`...)
		}
		b = append(b, '[')
		for i, n := 0, t.Range(0, 4); i < n; i++ {
			if i > 0 {
				b = append(b, ',')
			}
			b = c21Doc(t, b, ty.Elem())
		}
		return append(b, ']')
	case reflect.Map:
		b = append(b, '{')
		for i, n := 0, t.Range(0, 3); i < n; i++ {
			if i > 0 {
				b = append(b, ',')
			}
			if ty.Key().Kind() == reflect.String {
				b = append(b, []string{`"a"`, `"b"`, `"\u00e9"`}[t.Int(3)]...)
			} else {
				b = append(b, []string{`"1"`, `"20"`, `"127"`}[t.Int(3)]...)
			}
			b = append(b, ':')
			b = c21Doc(t, b, ty.Elem())
		}
		return append(b, '}')
	case reflect.Struct:
		b = append(b, '{')
		first := true
		for i := 0; i < ty.NumField(); i++ {
			if t.P(1, 4) {
				continue
			}
			if !first {
				b = append(b, ',')
			}
			first = false
			f := ty.Field(i)
			name := strings.Split(f.Tag.Get("json"), ",")[0]
			if name == "" {
				name = f.Name
			}
			b = append(b, '"')
			b = append(b, name...)
			b = append(b, '"', ':')
			if t.P(1, 6) {
				b = append(b, ' ')
			}
			b = c21Doc(t, b, f.Type)
		}
		return append(b, '}')
	case reflect.Bool:
		return append(b, "true"...)
	case reflect.String:
		return append(b, `"str"`...)
	case reflect.Interface:
		return append(b, []string{`1`, `"s"`, `[1]`, `{"a":{}}`}[t.Int(4)]...)
	}
	return append(b, '7')
}

// ---- options given to the codecs

type optCodec struct {
	empty func(n int64) bool
	log   []string
}

func (c *optCodec) Decode(ptr unsafe.Pointer, it *jzon.Iterator, opts *jzon.DecOpts) error {
	q := opts != nil && opts.Quoted
	k := opts != nil && opts.MapKey
	c.log = append(c.log, fmt.Sprintf("q%v k%v", q, k))
	i, err := it.ReadInt32()
	*(*int32)(ptr) = i
	return err
}

func (c *optCodec) IsEmpty(ptr unsafe.Pointer) bool { return c.empty(int64(*(*int32)(ptr))) }

func (c *optCodec) Encode(ptr unsafe.Pointer, s *jzon.Streamer, opts *jzon.EncOpts) {
	q := opts != nil && opts.Quoted
	c.log = append(c.log, fmt.Sprintf("q%v", q))
	s.Int32(*(*int32)(ptr))
}

// c21Opts checks that the string option reaches the codecs and that omitempty
// asks the codec.
func c21Opts(t *eng.T) {
	mod := int64(t.Range(2, 4))
	c := &optCodec{empty: func(n int64) bool { return n%mod == 1 }}
	ct := reflect.TypeOf(CInt(0))
	enc := jzon.NewEncoderConfig(&jzon.EncoderOption{ValEncoders: map[reflect.Type]jzon.ValEncoder{ct: c}, EscapeHTML: true})
	dec := jzon.NewDecoderConfig(&jzon.DecoderOption{ValDecoders: map[reflect.Type]jzon.ValDecoder{ct: c}})
	n := t.Range(1, 12)
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		tag := ""
		if t.Bool() {
			tag += ",omitempty"
		}
		if t.Bool() {
			tag += ",string"
		}
		f := reflect.StructField{Name: string(rune('A' + i)), Type: ct}
		if tag != "" {
			f.Tag = reflect.StructTag(`json:"` + tag + `"`)
		}
		fs = append(fs, f)
	}
	ty := reflect.StructOf(fs)
	v := reflect.New(ty).Elem()
	want := "{"
	var elog, dlog []string
	for i := range fs {
		x := int64(t.Range(0, 20))
		v.Field(i).SetInt(x)
		tag := string(fs[i].Tag)
		if strings.Contains(tag, "omitempty") && x%mod == 1 {
			continue
		}
		if len(want) > 1 {
			want += ","
		}
		want += fmt.Sprintf(`"%s":%d`, fs[i].Name, x)
		q := strings.Contains(tag, "string")
		elog = append(elog, fmt.Sprintf("q%v", q))
		dlog = append(dlog, fmt.Sprintf("q%v kfalse", q))
	}
	want += "}"
	t.Key([]byte(want))
	got, err := enc.Marshal(v.Interface())
	if err != nil || string(got) != want {
		t.Failf("custom encoder in %s: %s %v, want %s", typeStr(ty), got, err, want)
	}
	if fmt.Sprint(c.log) != fmt.Sprint(elog) {
		t.Failf("custom encoder in %s: options %v, want %v", typeStr(ty), c.log, elog)
	}
	c.log = nil
	back := reflect.New(ty)
	if err := dec.Unmarshal([]byte(want), back.Interface()); err != nil {
		t.Failf("custom decoder in %s: %v", typeStr(ty), err)
	}
	if fmt.Sprint(c.log) != fmt.Sprint(dlog) {
		t.Failf("custom decoder in %s: options %v, want %v", typeStr(ty), c.log, dlog)
	}
	again, err := enc.Marshal(back.Interface())
	_ = again
	if err != nil {
		t.Failf("encode again: %v", err)
	}
}

func init() {
	eng.Register(&eng.Prop{
		ID:          "C21",
		Rule:        "a case is a Go type containing types with a custom encoder/decoder (kinds string, int, struct, map, slice, array, uint8, bool, float, pointer-shaped ones, and types with methods of their own) at the root, behind pointers, in slices, arrays, maps, struct fields and interfaces; values are encoded and documents decoded with the custom configuration, and compared with encoding/json on a twin type whose methods do what the codecs do; the options and the context passed to the codecs and the use of IsEmpty are compared with a model; the default configuration stays unaffected; non-trivial: the type is not a scalar",
		Assumptions: []string{stdNote, "a custom codec of a native kind also serves the named types of that kind (documented by a TODO), so the generator uses the native type only"},
		Quick:       400000, Thorough: 25000000,
		Run: func(t *eng.T) {
			if t.P(1, 10) {
				c21Opts(t)
				t.Label("options")
				return
			}
			ty := c21Type(t, t.Range(0, 3))
			if ty.Name() == "" {
				t.Nontrivial()
			}
			r := &mirrorer{on: map[reflect.Type]reflect.Type{}}
			eo := &jzon.EncoderOption{ValEncoders: map[reflect.Type]jzon.ValEncoder{}}
			do := &jzon.DecoderOption{ValDecoders: map[reflect.Type]jzon.ValDecoder{}}
			all := t.P(2, 3)
			ctx := &c21Ctx{}
			for _, p := range customPairs {
				if !all && t.Bool() && p[0] != reflect.TypeOf(CJ{}) && p[0] != reflect.TypeOf(CT{}) && p[0] != reflect.TypeOf(CJM{}) {
					continue
				}
				c := &ccodec{m: p[1], way: t.Int(3), ctx: ctx}
				eo.ValEncoders[p[0]] = c
				do.ValDecoders[p[0]] = c
				r.on[p[0]] = p[1]
			}
			mty := r.typ(ty)
			eo.EscapeHTML = true
			if t.Bool() {
				cfg := jzon.NewEncoderConfig(eo)
				for k := 0; k < 2; k++ {
					v := reflect.New(ty).Elem()
					c21Fill(t, v, 2)
					m := reflect.New(mty).Elem()
					r.val(m, v)
					x, y := v.Interface(), m.Interface()
					if t.Bool() {
						x, y = v.Addr().Interface(), m.Addr().Interface()
					}
					want, wantErr := json.Marshal(y)
					e := encEntries[t.W(5, 2, 2, 1)]
					var got []byte
					var gotErr error
					if t.P(1, 3) { // with a context of the caller
						e.name = "Streamer.Value with a context"
						ctx.want = &struct{ n int }{k}
						var buf bytes.Buffer
						s := cfg.NewStreamer()
						s.Reset(&buf)
						s.Context = ctx.want
						s.Value(x)
						if s.Context != ctx.want {
							t.Failf("the streamer's context is %v afterwards", s.Context)
						}
						gotErr = s.Flush()
						s.Release()
						got = buf.Bytes()
						ctx.want = nil
					} else {
						got, gotErr = e.f(t, cfg, true, x)
					}
					if ctx.bad != "" {
						t.Failf("%s of %s with custom encoders: %s", e.name, typeStr(ty), ctx.bad)
					}
					t.Key(want)
					t.Sample(func() string { return typeStr(ty) + " -> " + gen.Show(want) })
					if (gotErr == nil) != (wantErr == nil) {
						t.Failf("%s of %s with custom encoders: error %v, want %v (%s)", e.name, typeStr(ty), gotErr, wantErr, gen.Show(want))
					}
					if gotErr != nil {
						t.Label("encode error")
						if gotErr != errCustom {
							t.Failf("%s of %s with custom encoders: error %v, want the encoder's own", e.name, typeStr(ty), gotErr)
						}
						continue
					}
					t.Label("encoded")
					if d := sameJSON(got, want, false); d != "" {
						t.Failf("%s of %s with custom encoders: differs\n%s", e.name, typeStr(ty), d)
					}
					if t.P(1, 4) {
						want, wantErr := json.Marshal(x)
						got, gotErr := jzon.NewEncoderConfig(nil).Marshal(x)
						if (gotErr == nil) != (wantErr == nil) {
							t.Failf("default configuration: %v %v", gotErr, wantErr)
						}
						if gotErr == nil {
							if d := sameJSON(got, want, false); d != "" {
								t.Failf("default configuration of %s: differs\n%s", typeStr(ty), d)
							}
						}
					}
				}
				return
			}
			cfg := jzon.NewDecoderConfig(do)
			for k := 0; k < 2; k++ {
				doc := c21Doc(t, nil, ty)
				fits := all // all errors come from the codecs
				if t.P(1, 10) && !numberInString(ty) {
					doc = gen.Mutate(t, doc, 1)
					fits = false
				}
				if !validUTF8(doc) {
					continue
				}
				a, b := reflect.New(ty), reflect.New(mty)
				e := pickEntry(t)
				var gotErr error
				if t.P(1, 3) { // with a context of the caller
					e.name = "Iterator.ReadVal with a context"
					ctx.want = &struct{ n int }{k}
					it := cfg.NewIterator()
					if t.Bool() {
						it.ResetBytes(clone(doc))
					} else {
						it.Reset(gen.Chunked(t, clone(doc)))
					}
					it.Context = ctx.want
					gotErr = it.ReadVal(a.Interface())
					if it.Context != ctx.want {
						t.Failf("the iterator's context is %v afterwards", it.Context)
					}
					if gotErr == nil && !atEOF(it) {
						gotErr = jzon.ErrDataRemained
					}
					it.Release()
					ctx.want = nil
				} else {
					gotErr = e.f(cfg, t, clone(doc), a.Interface())
				}
				if ctx.bad != "" {
					t.Failf("%s into %s with custom decoders: %s", e.name, typeStr(ty), ctx.bad)
				}
				wantErr := json.Unmarshal(doc, b.Interface())
				t.Key(doc)
				t.Sample(func() string { return typeStr(ty) + " <- " + gen.Show(doc) })
				if (gotErr == nil) != (wantErr == nil) {
					t.Failf("%s into %s with custom decoders: error %v, want %v for %s", e.name, typeStr(ty), gotErr, wantErr, gen.Show(doc))
				}
				if gotErr != nil {
					t.Label("decode error")
					if fits && wantErr == errCustom && !reason(gotErr, errCustom) {
						t.Failf("%s into %s with custom decoders: error %v, want the decoder's own for %s", e.name, typeStr(ty), gotErr, gen.Show(doc))
					}
					continue
				}
				t.Label("decoded")
				m := reflect.New(mty)
				r.val(m.Elem(), a.Elem())
				if d := ref.Diff(m.Interface(), b.Interface()); d != "" {
					t.Failf("%s into %s with custom decoders: differs at %s for %s", e.name, typeStr(ty), d, gen.Show(doc))
				}
			}
		},
	})
}
