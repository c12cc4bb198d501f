package gen

import (
	"bytes"
	"encoding"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"net"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode"

	"verif/cat"
	"verif/eng"
)

// TypeOf is a shorthand.
func TypeOf(v interface{}) reflect.Type { return reflect.TypeOf(v) }

// TG generates types.
type TG struct {
	T *eng.T
	// Enc: the type will be used for encoding and compared with the standard
	// library (pointer receiver methods only at addressable places)
	Enc bool
	// Dec: the type will be used for decoding
	Dec bool
	// NoMethods leaves out types with methods
	NoMethods bool
	// NoIface leaves out interface{}
	NoIface bool
	// NoFloat leaves out floats
	NoUnsupported bool
	MaxDepth      int
	TagKey        string
	n             int
}

var scalarTypes = []reflect.Type{
	TypeOf(false), TypeOf(int(0)), TypeOf(int8(0)), TypeOf(int16(0)), TypeOf(int32(0)), TypeOf(int64(0)),
	TypeOf(uint(0)), TypeOf(uint8(0)), TypeOf(uint16(0)), TypeOf(uint32(0)), TypeOf(uint64(0)), TypeOf(uintptr(0)),
	TypeOf(float32(0)), TypeOf(float64(0)), TypeOf(""),
}

var namedTypes = []reflect.Type{
	TypeOf(cat.NBool(false)), TypeOf(cat.NInt(0)), TypeOf(cat.NInt8(0)), TypeOf(cat.NInt16(0)), TypeOf(cat.NInt32(0)), TypeOf(cat.NInt64(0)),
	TypeOf(cat.NUint(0)), TypeOf(cat.NUint8(0)), TypeOf(cat.NUint16(0)), TypeOf(cat.NUint32(0)), TypeOf(cat.NUint64(0)), TypeOf(cat.NUptr(0)),
	TypeOf(cat.NF32(0)), TypeOf(cat.NF64(0)), TypeOf(cat.NStr("")), TypeOf(cat.NBytes(nil)), TypeOf(cat.NNBytes(nil)), TypeOf(cat.NSlice(nil)),
	TypeOf(cat.NMap(nil)), TypeOf(cat.NArr{}), TypeOf(cat.NEmpty{}),
}

var ifaceType = reflect.TypeOf((*interface{})(nil)).Elem()
var numberType = TypeOf(json.Number(""))
var rawType = TypeOf(json.RawMessage(nil))
var bytesType = TypeOf([]byte(nil))

// structTypes are static structs without methods.
var structTypes = []reflect.Type{
	TypeOf(cat.Tree{}), TypeOf(cat.Node2{}), TypeOf(cat.Node3{}), TypeOf(cat.EmbA{}), TypeOf(cat.EmbDeep{}), TypeOf(cat.EmbT{}),
	TypeOf(cat.Out1{}), TypeOf(cat.Out2{}), TypeOf(cat.Out3{}), TypeOf(cat.Out4{}), TypeOf(cat.Out5{}), TypeOf(cat.Out6{}), TypeOf(cat.Out7{}),
	TypeOf(cat.Out8{}), TypeOf(cat.Out9{}), TypeOf(cat.Out10{}), TypeOf(cat.Out11{}), TypeOf(cat.OneField{}), TypeOf(cat.OneK{}),
	TypeOf(cat.One1{}), TypeOf(cat.OneMap{}), TypeOf(cat.Fold{}), TypeOf(cat.Big{}), TypeOf(cat.Out12{}), TypeOf(cat.Out13{}), TypeOf(cat.Out15{}),
	TypeOf(cat.Out16{}), TypeOf(cat.Out17{}), TypeOf(cat.Out18{}), TypeOf(cat.Out19{}), TypeOf(cat.Out20{}),
}

// value receiver methods: usable everywhere
var valMethTypes = []reflect.Type{
	TypeOf(cat.JV{}), TypeOf(cat.TV{}), TypeOf(cat.JT{}), TypeOf(cat.TInt(0)), TypeOf(cat.TSKey{}), TypeOf(time.Time{}), TypeOf(net.IP(nil)),
}

// encode only, value receiver
var valEncOnly = []reflect.Type{
	TypeOf(cat.JStr("")), TypeOf(cat.JMap(nil)), TypeOf(cat.JSlice(nil)), TypeOf(cat.JArr{}), TypeOf(cat.JFunc(nil)), TypeOf(cat.JChan(nil)),
	TypeOf(cat.JWrap{}), TypeOf(cat.TMap(nil)), TypeOf(cat.TSlice(nil)), TypeOf(cat.JInt(0)),
}

// pointer receiver methods (encode: only at addressable places)
var ptrMethTypes = []reflect.Type{TypeOf(cat.JP{}), TypeOf(cat.TP{}), TypeOf(big.Int{})}

var ptrEncOnly = []reflect.Type{TypeOf(cat.JBool(false))}

// interfaces with methods, of which some are marshalers themselves
var methIfaces = []reflect.Type{
	reflect.TypeOf((*json.Marshaler)(nil)).Elem(), reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem(), reflect.TypeOf((*fmt.Stringer)(nil)).Elem(),
	reflect.TypeOf((*cat.Meth)(nil)).Elem(), TypeOf(cat.Out14{}).Field(2).Type, reflect.TypeOf((*cat.JMeth)(nil)).Elem(),
}

// methImpls are put into interfaces with methods.
var methImpls = append(append(append([]reflect.Type{
	TypeOf(cat.JV{}), TypeOf(&cat.JV{}), TypeOf(&cat.JP{}), TypeOf(cat.JInt(0)), TypeOf(cat.JMap(nil)), TypeOf(cat.JFunc(nil)), TypeOf(cat.JWrap{}), TypeOf(cat.JT{}),
	TypeOf(cat.TV{}), TypeOf(&cat.TV{}), TypeOf(&cat.TP{}), TypeOf(cat.TInt(0)), TypeOf(cat.TSKey{}), TypeOf(cat.TMap(nil)), TypeOf(time.Time{}), TypeOf(&big.Int{}),
	TypeOf(net.IP(nil)), TypeOf(&cat.MImpl{}), TypeOf(cat.MVal{}), TypeOf(&cat.MVal{}), TypeOf(cat.JMImpl{}), TypeOf(&cat.JMImpl{}), TypeOf(time.Duration(0)), TypeOf(json.Number("")),
}, cat.MethEncV...), ptrs(cat.MethEncV)...), ptrs(cat.MethEncP)...)

func ptrs(l []reflect.Type) []reflect.Type {
	var r []reflect.Type
	for _, x := range l {
		r = append(r, reflect.PtrTo(x))
	}
	return r
}

// implsOf are the types that can be put into an interface.
var implsOf = func() map[reflect.Type][]reflect.Type {
	m := map[reflect.Type][]reflect.Type{}
	for _, i := range methIfaces {
		for _, x := range methImpls {
			if x.Implements(i) {
				m[i] = append(m[i], x)
			}
		}
	}
	return m
}()

// decode only
var decOnly = []reflect.Type{TypeOf(cat.TStr("")), TypeOf(cat.JInt(0))}

// Scalar draws a scalar type.
func (g *TG) Scalar() reflect.Type { return scalarTypes[g.T.Int(len(scalarTypes))] }

// Type draws a type; addr tells if the place is addressable.
func (g *TG) Type(depth int, addr bool) reflect.Type {
	t := g.T
	g.n++
	rec := 1
	if depth >= g.MaxDepth || g.n > 24 {
		rec = 0
	}
	meth := 4
	if g.NoMethods {
		meth = 0
	}
	ifc := 3
	if g.NoIface {
		ifc = 0
	}
	switch t.W(14, 4, 2, 2, ifc, 3, 5*rec, 5*rec, 3*rec, 5*rec, 9*rec, meth, 3*rec) {
	case 0:
		return g.Scalar()
	case 1:
		return namedTypes[t.Int(len(namedTypes))]
	case 2:
		return numberType
	case 3:
		return rawType
	case 4:
		return ifaceType
	case 5:
		return bytesType
	case 6:
		return reflect.PtrTo(g.Type(depth+1, true))
	case 7:
		return reflect.SliceOf(g.Type(depth+1, true))
	case 8:
		n := t.Int(4)
		if t.P(1, 10) {
			n = t.Int(12)
		}
		return reflect.ArrayOf(n, g.Type(depth+1, addr))
	case 9:
		return reflect.MapOf(g.KeyType(), g.Type(depth+1, false))
	case 10:
		return g.Struct(depth, addr)
	case 11:
		return g.methType(addr)
	default:
		if g.Enc && !g.Dec && t.P(1, 30) {
			return TypeOf(cat.Out14{})
		}
		if t.Bool() {
			return structTypes[t.Int(len(structTypes))]
		}
		return cat.Generated[t.Int(len(cat.Generated))]
	}
}

func (g *TG) methType(addr bool) reflect.Type {
	t := g.T
	if t.P(2, 5) { // any kind
		switch {
		case g.Enc && !g.Dec:
			if t.P(1, 6) {
				return methIfaces[t.Int(len(methIfaces))]
			}
			if addr && t.Bool() {
				return cat.MethEncP[t.Int(len(cat.MethEncP))]
			}
			return cat.MethEncV[t.Int(len(cat.MethEncV))]
		case g.Dec && !g.Enc:
			return cat.MethDec[t.Int(len(cat.MethDec))]
		}
	}
	var l []reflect.Type
	l = append(l, valMethTypes...)
	if g.Enc && !g.Dec {
		l = append(l, valEncOnly...)
		if addr {
			l = append(l, ptrEncOnly...)
		}
	}
	if addr || !g.Enc {
		l = append(l, ptrMethTypes...)
	}
	if g.Dec && !g.Enc {
		l = append(l, decOnly...)
	}
	return l[t.Int(len(l))]
}

// KeyType draws a map key type.
func (g *TG) KeyType() reflect.Type {
	t := g.T
	w := 2
	if g.NoMethods {
		w = 0
	}
	switch t.W(8, 4, 2, w) {
	case 0:
		return TypeOf("")
	case 1:
		return scalarTypes[t.Range(1, 11)]
	case 2:
		return []reflect.Type{TypeOf(cat.NStr("")), TypeOf(cat.NInt(0)), TypeOf(cat.NUint8(0)), TypeOf(cat.NInt64(0))}[t.Int(4)]
	default:
		return []reflect.Type{TypeOf(cat.TInt(0)), TypeOf(cat.TSKey{})}[t.Int(2)]
	}
}

var fieldNames = []string{"A", "B", "C", "D", "Ab", "AB", "Name", "NAME", "Key", "K", "S", "Sk", "ID", "Id", "Url", "X1", "X2", "Y_", "Äb", "Zz"}
var tagNames = []string{"a", "b", "c", "name", "Name", "NAME", "id", "k", "s", "é", "É", "K", "ſ", "key_1", "a-b", "a<b", "x&y", "semi;c", "a b", "Ω", "日本", "longer_field_name_for_tests", "A", "B"}

// Struct draws a struct type with reflect.StructOf.
func (g *TG) Struct(depth int, addr bool) reflect.Type {
	t := g.T
	n := 0
	switch t.W(6, 18, 48, 24, 1) {
	case 4:
		n = t.Range(17, 140)
	case 1:
		n = 1
	case 2:
		n = t.Range(2, 5)
	case 3:
		n = t.Range(6, 16)
	}
	key := g.TagKey
	if key == "" {
		key = "json"
	}
	used := map[string]bool{}
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		name := fieldNames[t.Int(len(fieldNames))]
		if used[name] {
			name = "F" + strconv.Itoa(i)
		}
		used[name] = true
		d := depth + 1
		if n > 5 {
			d = g.MaxDepth
		}
		f := reflect.StructField{Name: name}
		if n > 16 {
			f.Type = scalarTypes[t.Int(len(scalarTypes))]
		} else {
			f.Type = g.Type(d, addr)
		}
		switch t.W(6, 6, 1, 1) {
		case 1:
			f.Tag = reflect.StructTag(key + `:"` + g.tag(f.Type) + `"`)
		case 2:
			f.Name = "u" + strings.ToLower(f.Name) + strconv.Itoa(i)
			f.PkgPath = "verif/gen"
		case 3: // embedded
			et := []reflect.Type{TypeOf(cat.EmbA{}), TypeOf(cat.EmbB{}), TypeOf(cat.EmbT{}), TypeOf(cat.EmbDeep{}), TypeOf(cat.NInt(0)), TypeOf(cat.OneField{})}[t.Int(6)]
			if !used[et.Name()] {
				used[et.Name()] = true
				f.Name = et.Name()
				f.Type = et
				f.Anonymous = true
				if t.P(1, 4) {
					f.Tag = reflect.StructTag(key + `:"` + tagNames[t.Int(len(tagNames))] + `"`)
				}
			}
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

func (g *TG) tag(ft reflect.Type) string {
	t := g.T
	switch t.W(8, 2, 1, 1) {
	case 1:
		if t.Bool() {
			return "-"
		}
		return "-,"
	case 2:
		return t.Str("", "a\\\\b", "q'uo", "bad,\\\"x")
	case 3:
		if hasDecMethods(ft) {
			return t.Str(",foo", ",,", ", omitempty", ",omitempty ")
		}
		return t.Str(",foo", ",,", ", omitempty", ",omitempty ", ",string,,omitempty", ",strings", ",omitemptyy,string")
	}
	s := ""
	if t.P(3, 4) {
		s = tagNames[t.Int(len(tagNames))]
		if t.P(1, 12) {
			s = t.Str("a\\\\b", "q'uo", "x\\\"y") // not a valid name
		}
	}
	if t.P(1, 3) {
		s += ",omitempty"
	}
	if t.P(1, 4) && !hasDecMethods(ft) {
		s += ",string"
	}
	return s
}

var (
	jsonUnm = reflect.TypeOf((*json.Unmarshaler)(nil)).Elem()
	textUnm = reflect.TypeOf((*interface{ UnmarshalText([]byte) error })(nil)).Elem()
)

// hasDecMethods tells if the `string` option would meet user methods.
func hasDecMethods(ft reflect.Type) bool {
	if ft.Kind() == reflect.Ptr {
		ft = ft.Elem()
	}
	p := reflect.PtrTo(ft)
	return p.Implements(jsonUnm) || p.Implements(textUnm)
}

// HasSlice tells if a type can hold a slice which the standard library would
// refill in place on a second decode.
func HasSlice(ty reflect.Type) bool { return hasSlice(ty, map[reflect.Type]bool{}) }

func hasSlice(ty reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[ty] {
		return false
	}
	seen[ty] = true
	switch ty.Kind() {
	case reflect.Slice:
		return ty != rawType
	case reflect.Interface:
		return false
	case reflect.Ptr, reflect.Array:
		return hasSlice(ty.Elem(), seen)
	case reflect.Map:
		return false // elements are always fresh
	case reflect.Struct:
		for i := 0; i < ty.NumField(); i++ {
			if hasSlice(ty.Field(i).Type, seen) {
				return true
			}
		}
	}
	return false
}

// FieldInfo is a candidate key of a struct.
type FieldInfo struct {
	Name   string
	Type   reflect.Type
	Quoted bool
	Omit   bool
}

// Fields lists candidate keys of a struct (all embedded levels, without the
// resolution of conflicts).
func Fields(ty reflect.Type, tagKey string) []FieldInfo {
	var r []FieldInfo
	fieldsInto(ty, tagKey, &r, 0)
	return r
}

func fieldsInto(ty reflect.Type, tagKey string, r *[]FieldInfo, depth int) {
	if tagKey == "" {
		tagKey = "json"
	}
	if depth > 4 {
		return
	}
	for i := 0; i < ty.NumField(); i++ {
		f := ty.Field(i)
		tag := f.Tag.Get(tagKey)
		if tag == "-" {
			continue
		}
		name, opts, _ := strings.Cut(tag, ",")
		if !ValidName(name) {
			name = ""
		}
		ft := f.Type
		if ft.Name() == "" && ft.Kind() == reflect.Ptr {
			ft = ft.Elem()
		}
		if f.Anonymous && name == "" && ft.Kind() == reflect.Struct {
			fieldsInto(ft, tagKey, r, depth+1)
			continue
		}
		fi := FieldInfo{Name: name, Type: f.Type}
		if name == "" {
			fi.Name = f.Name
		}
		for _, o := range strings.Split(opts, ",") {
			if o == "string" {
				switch ft.Kind() {
				case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
					reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr,
					reflect.Float32, reflect.Float64, reflect.String:
					fi.Quoted = true
				}
			}
			if o == "omitempty" {
				fi.Omit = true
			}
		}
		*r = append(*r, fi)
	}
}

// ValidName tells if a name in a tag is usable.
func ValidName(s string) bool {
	if s == "" {
		return false
	}
	for _, c := range s {
		if strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c) {
			continue
		}
		if !unicode.IsLetter(c) && !unicode.IsDigit(c) {
			return false
		}
	}
	return true
}

// DG generates documents for types.
type DG struct {
	T *eng.T
	// Wrong is the chance (per mille) that a value does not fit its type
	Wrong int
	// NoDup never writes a key twice
	NoDup bool
	// NoNull never writes null
	NoNull bool
	// Exact only uses the exact key names
	Exact bool
	// NoUnknown never writes unknown keys
	NoUnknown bool
	TagKey    string
	WS        int
	J         *J
	budget    int
	depth     int
}

// Doc writes a document for a type.
func (g *DG) Doc(ty reflect.Type) []byte {
	if g.J == nil {
		g.J = &J{MaxDepth: 3, MaxElems: 3, Budget: 12, WS: g.WS, LongStr: 700}
	}
	g.budget = 80
	b := WS(g.T, nil, g.WS)
	b = g.val(b, ty, false)
	return WS(g.T, b, g.WS)
}

func (g *DG) any(b []byte) []byte {
	j := *g.J
	if g.depth > 4 {
		j.MaxDepth = 0
	}
	return Text(g.T, b, &j)
}

func (g *DG) val(b []byte, ty reflect.Type, quoted bool) []byte {
	t := g.T
	g.budget--
	if g.Wrong > 0 && t.P(g.Wrong, 1000) && !quoted {
		return g.any(b)
	}
	if !g.NoNull && t.P(1, 14) {
		return append(b, "null"...)
	}
	if quoted {
		return g.quoted(b, ty)
	}
	p := reflect.PtrTo(ty)
	switch ty {
	case numberType:
		if t.P(1, 5) {
			return append(append(append(b, '"'), Number(t, false)...), '"')
		}
		return append(b, Number(t, false)...)
	case rawType, ifaceType:
		return g.any(b)
	case TypeOf(time.Time{}):
		return append(b, t.Str(`"2020-01-02T03:04:05Z"`, `"1999-12-31T23:59:59.999999999+07:00"`, `"0001-01-01T00:00:00Z"`, `"bad"`, `1`)...)
	case TypeOf(net.IP(nil)):
		return append(b, t.Str(`"1.2.3.4"`, `"::1"`, `""`, `"1.2.3"`)...)
	case TypeOf(big.Int{}):
		return append(b, IntLit(t)...)
	case TypeOf(cat.TInt(0)):
		return append(b, t.Str(`"t5"`, `"-7"`, `"t0"`, `"x"`)...)
	case TypeOf(cat.TSKey{}):
		return append(b, t.Str(`"1/2"`, `"255/0"`, `"1\/2"`, `"x"`)...)
	}
	if p.Implements(jsonUnm) {
		return g.any(b)
	}
	if p.Implements(textUnm) {
		if t.P(1, 12) {
			return g.any(b)
		}
		return String(t, b, g.J)
	}
	switch ty.Kind() {
	case reflect.Bool:
		return append(b, t.Str("true", "false")...)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return append(b, g.intFor(ty)...)
	case reflect.Float32, reflect.Float64:
		return append(b, g.floatFor(ty)...)
	case reflect.String:
		return String(t, b, g.J)
	case reflect.Ptr:
		return g.val(b, ty.Elem(), false)
	case reflect.Slice:
		if ty.Elem().Kind() == reflect.Uint8 && !t.P(1, 6) {
			return append(b, B64(t)...)
		}
		return g.arr(b, ty.Elem(), g.n(6))
	case reflect.Array:
		n := ty.Len()
		if t.P(1, 4) {
			n += t.Range(-2, 2)
			if n < 0 {
				n = 0
			}
		}
		return g.arr(b, ty.Elem(), n)
	case reflect.Map:
		return g.obj(b, ty)
	case reflect.Struct:
		return g.str(b, ty)
	}
	return g.any(b)
}

func (g *DG) intFor(ty reflect.Type) string {
	t := g.T
	bitsz := uint(ty.Bits())
	unsigned := ty.Kind() >= reflect.Uint && ty.Kind() <= reflect.Uintptr
	switch t.W(10, 4, 1) {
	case 0:
		if unsigned {
			return strconv.FormatUint(t.U64()>>(64-bitsz)>>uint(t.Int(int(bitsz))), 10)
		}
		v := int64(t.U64()) >> (64 - bitsz) >> uint(t.Int(int(bitsz)))
		return strconv.FormatInt(v, 10)
	case 1: // bounds (in range)
		if unsigned {
			return strconv.FormatUint(^uint64(0)>>(64-bitsz)-uint64(t.Int(3)), 10)
		}
		hi := int64(1)<<(bitsz-1) - 1
		if t.Bool() {
			return strconv.FormatInt(hi-int64(t.Int(3)), 10)
		}
		return strconv.FormatInt(-hi-1+int64(t.Int(3)), 10)
	default:
		if g.Wrong == 0 {
			return "0"
		}
		return Number(t, false)
	}
}

func (g *DG) floatFor(ty reflect.Type) string {
	if g.Wrong == 0 {
		for i := 0; i < 3; i++ {
			s := Number(g.T, true)
			f, err := strconv.ParseFloat(s, ty.Bits())
			_ = f
			if err == nil {
				return s
			}
		}
		return "1.25"
	}
	return Number(g.T, false)
}

func (g *DG) quoted(b []byte, ty reflect.Type) []byte {
	t := g.T
	if ty.Kind() == reflect.Ptr {
		ty = ty.Elem()
	}
	if g.Wrong > 0 && t.P(1, 20) {
		if ty == numberType {
			// the standard library does not check the text after the first digit
			return append(b, t.Str(`"x"`, `1`, `true`, `[]`, `"[]"`, `"tru"`)...)
		}
		return append(b, t.Str(`""`, `"x"`, `"1x"`, `" 1"`, `"1 "`, `1`, `true`, `"\"a"`, `"tru"`, `"true "`, `[]`, `"[]"`, `"{}"`, `"\"a\" "`, `"--1"`, `"-"`)...)
	}
	switch ty.Kind() {
	case reflect.Bool:
		return append(b, t.Str(`"true"`, `"false"`)...)
	case reflect.Float32, reflect.Float64:
		return append(b, `"`+g.floatFor(ty)+`"`...)
	case reflect.String:
		if ty == numberType {
			return append(b, `"`+Number(t, false)+`"`...)
		}
		in := String(t, nil, &J{NoLoneSur: true, LongStr: 300})
		if g.Wrong > 0 && t.P(1, 8) {
			// an escaped apostrophe is accepted there by the standard library
			in = bytes.ReplaceAll(damageInner(t, in), []byte(`\'`), []byte(`\"`))
		}
		return Requote(t, b, in)
	}
	return append(b, `"`+g.intFor(ty)+`"`...)
}

// damageInner damages a string literal which goes inside another.
func damageInner(t *eng.T, in []byte) []byte {
	switch t.Int(8) {
	case 0:
		return append(in, "\"x 0,}]\\"[t.Int(8)])
	case 1:
		return append(in, t.Str(`""`, ` ""`, ` x`, `\`, `\"`, `1`, `,"a"`, `"a"`, "  ", `\\"`)...)
	case 2:
		return append([]byte(t.Str(" ", `"`, "x", "\t", "1", `\`, `\"`)), in...)
	case 3:
		return in[:len(in)-1]
	case 4:
		return in[1:]
	case 5:
		return append(in, in...)
	case 6:
		return append(append(in[:len(in)-1:len(in)-1], t.Str(`"`, `\`, `\x`, `\u12`, `\u00zz`, `" "`)...), '"')
	default:
		return Mutate(t, append([]byte(nil), in...), t.Range(1, 2))
	}
}

// Requote writes a text as a JSON string.
func Requote(t *eng.T, b []byte, in []byte) []byte {
	b = append(b, '"')
	for _, c := range in {
		switch {
		case c == '"' || c == '\\':
			b = append(b, '\\', c)
		case c == '/' && t.Bool():
			b = append(b, '\\', c)
		case c < 0x20:
			b = UEsc(t, b, rune(c))
		case c < 0x80 && t.P(1, 20):
			b = UEsc(t, b, rune(c))
		default:
			b = append(b, c)
		}
	}
	return append(b, '"')
}

// B64 draws a base64 string literal.
func B64(t *eng.T) string {
	const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
	var sb strings.Builder
	sb.WriteByte('"')
	n := t.Size(400) / 4
	if t.P(1, 150) {
		// plain and long
		return `"` + base64.StdEncoding.EncodeToString(BigBytes(t, "\x00\xff/+")) + `"`
	}
	put := func(c byte) {
		switch {
		case c == '/' && t.P(1, 3):
			sb.WriteString(`\/`)
		case t.P(1, 40):
			sb.Write(UEsc(t, nil, rune(c)))
		case t.P(1, 200):
			sb.WriteString(`\n`)
			sb.WriteByte(c)
		default:
			sb.WriteByte(c)
		}
	}
	for i := 0; i < n; i++ {
		x := t.Uint(1 << 24)
		for s := 18; s >= 0; s -= 6 {
			put(al[(x>>uint(s))&63])
		}
	}
	switch t.W(3, 2, 2, 1) {
	case 1: // one byte
		x := t.Uint(256)
		put(al[x>>2])
		put(al[(x&3)<<4])
		sb.WriteString("==")
	case 2:
		x := t.Uint(1 << 16)
		put(al[x>>10])
		put(al[(x>>4)&63])
		put(al[(x&15)<<2])
		sb.WriteString("=")
	case 3:
		sb.WriteString(t.Str("=", "A", "AA", "AAA", "A===", "-_-_", "    ", "AA=A", "@@@@"))
	}
	sb.WriteByte('"')
	return sb.String()
}

func (g *DG) n(max int) int {
	if g.budget <= 0 {
		return 0
	}
	if g.depth == 0 && g.T.P(1, 12) {
		n := g.T.Size(1100)
		if g.T.P(1, 60) {
			n = g.T.Range(1000, 5000)
		}
		g.budget -= 40
		return n
	}
	return g.T.Int(max + 1)
}

func (g *DG) arr(b []byte, el reflect.Type, n int) []byte {
	g.depth++
	defer func() { g.depth-- }()
	b = append(b, '[')
	b = WS(g.T, b, g.WS)
	for i := 0; i < n; i++ {
		if i > 0 {
			b = append(b, ',')
			b = WS(g.T, b, g.WS)
		}
		if n > 40 && i > 20 && i < n-3 && len(b) > 3000 && el.Kind() != reflect.Struct {
			// keep long arrays cheap
			b = append(b, g.cheap(el)...)
			continue
		}
		b = g.val(b, el, false)
		b = WS(g.T, b, g.WS)
	}
	return append(b, ']')
}

func (g *DG) cheap(el reflect.Type) string {
	if hasDecMethods(el) {
		return "null"
	}
	switch el.Kind() {
	case reflect.Bool:
		return "true"
	case reflect.String:
		return `"7"`
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Float32, reflect.Float64, reflect.Interface:
		return "7"
	}
	return "null"
}

func (g *DG) obj(b []byte, ty reflect.Type) []byte {
	t := g.T
	g.depth++
	defer func() { g.depth-- }()
	kt := ty.Key()
	n := g.n(5)
	seen := map[string]bool{}
	b = append(b, '{')
	b = WS(t, b, g.WS)
	first := true
	for i := 0; i < n; i++ {
		var k []byte
		switch {
		case kt == TypeOf(cat.TInt(0)):
			k = append(k, t.Str(`"t5"`, `"-7"`, `"t0"`, `"t1"`)...)
		case kt == TypeOf(cat.TSKey{}):
			k = append(k, t.Str(`"1/2"`, `"255/0"`, `"1\/2"`, `"0/0"`)...)
		case kt.Kind() == reflect.String:
			k = Key(t, nil, g.J)
		default:
			k = append(append(append(k, '"'), g.intKey(kt)...), '"')
			if g.Wrong > 0 && t.P(1, 60) {
				k = []byte(t.Str(`"x"`, `""`, `"1x"`, `"-"`, `"1.5"`, `"true"`))
			}
		}
		if g.NoDup {
			if seen[string(k)] {
				continue
			}
			seen[string(k)] = true
		}
		if !first {
			b = append(b, ',')
			b = WS(t, b, g.WS)
		}
		first = false
		b = append(b, k...)
		b = WS(t, b, g.WS)
		b = append(b, ':')
		b = WS(t, b, g.WS)
		if n > 40 && i > 20 && i < n-3 {
			b = append(b, g.cheap(ty.Elem())...)
			continue
		}
		b = g.val(b, ty.Elem(), false)
		b = WS(t, b, g.WS)
	}
	return append(b, '}')
}

func (g *DG) intKey(kt reflect.Type) string {
	s := g.intFor(kt)
	if _, err := strconv.ParseInt(s, 10, 64); err != nil {
		if _, err := strconv.ParseUint(s, 10, 64); err != nil {
			return "1"
		}
	}
	if s == "-0" {
		return "0"
	}
	return s
}

// Fold returns a random case variant of a name under simple Unicode folding.
func Fold(t *eng.T, s string) string {
	rs := []rune(s)
	for i, r := range rs {
		if t.P(1, 2) {
			for k := t.Int(3); k >= 0; k-- {
				r = unicode.SimpleFold(r)
			}
			rs[i] = r
		}
	}
	return string(rs)
}

// KeyLit writes a key as a JSON string literal, with random escapes.
func KeyLit(t *eng.T, b []byte, s string) []byte {
	b = append(b, '"')
	esc := t.P(1, 6)
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b = append(b, '\\', byte(r))
		case r < 0x20:
			b = UEsc(t, b, r)
		case esc && r < 0xffff && t.P(1, 3):
			b = UEsc(t, b, r)
		default:
			b = append(b, string(r)...)
		}
	}
	return append(b, '"')
}

func foldKey(s string) string {
	return strings.Map(func(r rune) rune {
		m := r
		for x := unicode.SimpleFold(r); x != r; x = unicode.SimpleFold(x) {
			if x < m {
				m = x
			}
		}
		return m
	}, s)
}

func (g *DG) str(b []byte, ty reflect.Type) []byte {
	t := g.T
	g.depth++
	defer func() { g.depth-- }()
	fs := Fields(ty, g.TagKey)
	b = append(b, '{')
	b = WS(t, b, g.WS)
	n := 0
	if g.budget > 0 {
		n = t.Int(len(fs) + 3)
		if t.P(1, 3) {
			n = len(fs)
		}
	}
	used := map[string]bool{}
	first := true
	sep := func() {
		if !first {
			b = append(b, ',')
			b = WS(t, b, g.WS)
		}
		first = false
	}
	for i := 0; i < n; i++ {
		if len(fs) == 0 || !g.NoUnknown && t.P(1, 8) {
			if g.NoUnknown {
				break
			}
			k := Key(t, nil, g.J)
			name := string(k)
			if used[foldKey(strings.Trim(name, `"`))] {
				continue
			}
			sep()
			// the unknown key may fold onto a field by accident: give it a
			// value that fits anything only when it cannot
			if g.known(fs, k) {
				b = append(b, `"zz-unknown"`...)
			} else {
				b = append(b, k...)
			}
			b = WS(t, b, g.WS)
			b = append(b, ':')
			b = WS(t, b, g.WS)
			b = g.any(b)
			b = WS(t, b, g.WS)
			continue
		}
		f := fs[t.Int(len(fs))]
		if t.P(1, 2) {
			f = fs[i%len(fs)]
		}
		name := f.Name
		fk := foldKey(name)
		if used[fk] && (g.NoDup || g.anySlice(fs, fk)) {
			continue
		}
		used[fk] = true
		if !g.Exact && t.P(1, 4) {
			name = Fold(t, name)
		}
		sep()
		b = KeyLit(t, b, name)
		b = WS(t, b, g.WS)
		b = append(b, ':')
		b = WS(t, b, g.WS)
		if g.quotedClash(fs, fk) {
			b = append(b, "null"...)
		} else {
			b = g.val(b, f.Type, f.Quoted)
		}
		b = WS(t, b, g.WS)
	}
	return append(b, '}')
}

// quotedClash tells if several fields compete for a key and one of them has
// the string option: a value for the others would meet it.
func (g *DG) quotedClash(fs []FieldInfo, fk string) bool {
	n, q := 0, false
	for _, f := range fs {
		if foldKey(f.Name) == fk {
			n++
			q = q || f.Quoted
		}
	}
	return n > 1 && q
}

func (g *DG) anySlice(fs []FieldInfo, fk string) bool {
	for _, f := range fs {
		if foldKey(f.Name) == fk && HasSlice(f.Type) {
			return true
		}
	}
	return false
}

func (g *DG) known(fs []FieldInfo, lit []byte) bool {
	var s string
	if json.Unmarshal(lit, &s) != nil {
		return true
	}
	k := foldKey(s)
	for _, f := range fs {
		if foldKey(f.Name) == k {
			return true
		}
	}
	return false
}
