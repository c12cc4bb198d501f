package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"reflect"
	"strings"
	"unsafe"

	"github.com/zerosnake0/jzon"

	"verif/eng"
	"verif/gen"
)

// c28T describes a type: of one description two types are built, which differ
// in the tags only, and pairs of documents, which differ in the keys that the
// option CaseSensitive keeps from matching.
type c28T struct {
	kind  reflect.Kind
	leaf  reflect.Type
	elem  *c28T // element; for interfaces the content put in beforehand
	names []c28F
}

type c28F struct {
	name   string
	tag    string
	tagged bool
	decoy  string
	ty     *c28T
}

// the name under which the field is found, "" if it is ignored
func (f *c28F) key(o *c28Opt) string {
	switch {
	case !f.tagged && o.only:
		return ""
	case !f.tagged:
		return f.name
	case f.tag == "-":
		return ""
	}
	n := f.tag
	if i := strings.IndexByte(n, ','); i >= 0 {
		n = n[:i]
	}
	if n == "" {
		return f.name
	}
	return n
}

type c28Opt struct {
	tag                   string
	only, num, strict, cs bool
	html                  bool
}

var c28Leaf = []reflect.Type{ty(0), ty(""), ty(1.5), ty(true), ifaceT, ty([]interface{}(nil)), ty(map[string]interface{}(nil)), ty(json.Number("")), ty([]string(nil)), ty((*string)(nil)), ty(uint8(0)), ty(json.RawMessage(nil))}

var c28Tags = []string{"a", "Beta", "a<b", "x&y", "kk", "Zeta9", "é", "s_s", "k", "under_SCORE", "n0"}
var c28Names = []string{"Alpha", "Gamma", "Delta", "Foo", "BarBaz", "QUX", "Mixed", "One", "Two", "Three", "Four", "Five", "Six"}

func c28Type(t *eng.T, depth int) *c28T {
	if depth <= 0 {
		return &c28T{leaf: c28Leaf[t.Int(len(c28Leaf))]}
	}
	switch t.W(6, 4, 2, 2, 2, 3) {
	case 0:
		return c28Struct(t, depth)
	case 1:
		return &c28T{leaf: c28Leaf[t.Int(len(c28Leaf))]}
	case 2:
		return &c28T{kind: reflect.Slice, elem: c28Type(t, depth-1)}
	case 3:
		return &c28T{kind: reflect.Map, elem: c28Type(t, depth-1)}
	case 4:
		return &c28T{kind: reflect.Ptr, elem: c28Struct(t, depth)}
	default:
		return &c28T{kind: reflect.Interface, elem: c28Struct(t, depth)}
	}
}

func c28Struct(t *eng.T, depth int) *c28T {
	d := &c28T{kind: reflect.Struct}
	n := 0
	switch t.W(1, 3, 6, 2) {
	case 1:
		n = 1
	case 2:
		n = t.Range(2, 4)
	case 3:
		n = t.Range(9, 11)
	}
	to, no := t.Int(len(c28Tags)), t.Int(len(c28Names))
	for i := 0; i < n; i++ {
		f := c28F{name: c28Names[(no+i)%len(c28Names)], tagged: t.P(3, 5)}
		if f.tagged {
			switch t.W(8, 2, 1) {
			case 0:
				f.tag = c28Tags[(to+i)%len(c28Tags)]
			case 1:
				f.tag = t.Str("", ",omitempty")
			default:
				f.tag = "-"
			}
		}
		if t.P(1, 2) {
			f.decoy = fmt.Sprintf("decoy%d", i)
		}
		sub := depth - 1
		if n > 4 {
			sub = t.Int(2) * (depth - 2)
		}
		f.ty = c28Type(t, sub)
		d.names = append(d.names, f)
	}
	return d
}

func (d *c28T) build(key, other string, std, only bool) reflect.Type {
	switch d.kind {
	case reflect.Ptr:
		return reflect.PtrTo(d.elem.build(key, other, std, only))
	case reflect.Slice:
		return reflect.SliceOf(d.elem.build(key, other, std, only))
	case reflect.Map:
		return reflect.MapOf(ty(""), d.elem.build(key, other, std, only))
	case reflect.Interface:
		return ifaceT
	case reflect.Struct:
		var fs []reflect.StructField
		for _, f := range d.names {
			tag := ""
			if f.tagged {
				tag = key + `:"` + f.tag + `"`
			} else if std && only {
				tag = key + `:"-"`
			}
			if !std && f.decoy != "" {
				tag += " " + other + `:"` + f.decoy + `"`
			}
			fs = append(fs, reflect.StructField{Name: f.name, Type: f.ty.build(key, other, std, only), Tag: reflect.StructTag(strings.TrimSpace(tag))})
		}
		return reflect.StructOf(fs)
	}
	return d.leaf
}

// prefill puts pointers into the interfaces of a new value that can be
// reached without decoding.
func (d *c28T) prefill(v reflect.Value, mk func(*c28T) reflect.Type) {
	switch d.kind {
	case reflect.Struct:
		for i := range d.names {
			d.names[i].ty.prefill(v.Field(i), mk)
		}
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		d.elem.prefill(v.Elem(), mk)
	case reflect.Interface:
		p := reflect.New(mk(d.elem))
		d.elem.prefill(p.Elem(), mk)
		v.Set(p)
	}
}

type c28Doc struct {
	t       *eng.T
	o       *c28Opt
	jz, std []byte
	n       int
	unknown bool
	ws      bool
	long    bool
}

func (g *c28Doc) both(s string) {
	g.jz = append(g.jz, s...)
	g.std = append(g.std, s...)
}

func (g *c28Doc) key(s string, hidden bool) {
	l := gen.KeyLit(g.t, nil, s)
	g.jz = append(g.jz, l...)
	if hidden {
		g.n++
		l = []byte(fmt.Sprintf(`"?hidden%d"`, g.n))
	}
	g.std = append(g.std, l...)
	g.both(":")
}

func c28Str(t *eng.T) string {
	s := ""
	for k := t.Int(4); k > 0; k-- {
		s += t.Str("a", "<b>", "&", "x y", "é", "\u2028", "\"", "\\", "日本")
	}
	return s
}

// count draws a number of elements, now and then a large one.
func (g *c28Doc) count(n int) int {
	if !g.long && g.t.P(1, 30) {
		g.long = true // once in a document
		return g.t.Range(20, 140)
	}
	return g.t.Int(n)
}

func (g *c28Doc) any(depth int) {
	t := g.t
	switch t.W(4, 3, 1, 1, 2*depth, 2*depth) {
	case 0:
		g.both(gen.Number(t, true))
	case 1:
		g.str(c28Str(t))
	case 2:
		g.both("null")
	case 3:
		g.both(t.Str("true", "false"))
	case 4:
		g.both("[")
		for k, n := 0, g.count(4); k < n; k++ {
			if k > 0 {
				g.both(",")
			}
			g.any(depth - 1)
		}
		g.both("]")
	default:
		g.both("{")
		for k, n := 0, g.count(4); k < n; k++ {
			if k > 0 {
				g.both(",")
			}
			g.str(c28Str(t) + fmt.Sprint(k))
			g.both(":")
			g.any(depth - 1)
		}
		g.both("}")
	}
}

func (g *c28Doc) str(s string) {
	b, _ := json.Marshal(s)
	g.both(string(b))
}

func (g *c28Doc) val(d *c28T, filled bool) {
	t := g.t
	if g.ws && t.P(1, 6) {
		g.both(t.Str(" ", "\n", "\t "))
	}
	switch d.kind {
	case reflect.Slice:
		g.both("[")
		for k, n := 0, g.count(3); k < n; k++ {
			if k > 0 {
				g.both(",")
			}
			g.val(d.elem, false)
		}
		g.both("]")
	case reflect.Map:
		g.both("{")
		for k, n := 0, g.count(3); k < n; k++ {
			if k > 0 {
				g.both(",")
			}
			g.str(c28Str(t) + fmt.Sprint(k))
			g.both(":")
			g.val(d.elem, false)
		}
		g.both("}")
	case reflect.Ptr:
		g.val(d.elem, filled)
	case reflect.Interface:
		if filled {
			g.val(d.elem, true)
		} else {
			g.any(2)
		}
	case reflect.Struct:
		g.both("{")
		comma := false
		sep := func() {
			if comma {
				g.both(",")
			}
			comma = true
		}
		unk := func() {
			if t.P(1, 10) {
				sep()
				g.key(t.Str("nope", "Zzz", "?", ""), true)
				g.unknown = true
				g.any(1)
			}
		}
		for i := range d.names {
			unk()
			if t.P(1, 6) {
				continue
			}
			f := &d.names[i]
			k := f.key(g.o)
			switch {
			case k == "":
				k = f.name
				if t.P(2, 3) {
					continue // not to be unknown too often
				}
				sep()
				g.key(k, true)
				g.unknown = true
				g.any(1)
				continue
			case t.P(1, 16) && f.tagged && k != f.name || t.P(1, 24) && f.decoy != "":
				// another name of the field
				if f.decoy != "" {
					k = f.decoy
				} else {
					k = f.name
				}
				sep()
				g.key(k, true)
				g.unknown = true
				g.any(1)
				continue
			}
			hidden := false
			if t.P(1, 5) {
				k2 := gen.Fold(t, k)
				if k2 != k {
					k, hidden = k2, g.o.cs
					g.unknown = g.unknown || hidden
				}
			}
			sep()
			g.key(k, hidden)
			if hidden {
				g.any(1)
			} else {
				g.val(f.ty, filled)
			}
		}
		unk()
		g.both("}")
	default:
		switch d.leaf {
		case ty(0):
			g.both(gen.Digits(t, t.Range(1, 6), true))
		case ty(uint8(0)):
			g.both(fmt.Sprint(t.Int(256)))
		case ty(""), ty((*string)(nil)):
			g.str(c28Str(t))
		case ty(1.5), ty(json.Number("")):
			g.both(gen.Number(t, true))
		case ty(true):
			g.both(t.Str("true", "false"))
		case ty([]string(nil)):
			g.both("[")
			g.str(c28Str(t))
			g.both("]")
		case ty([]interface{}(nil)):
			g.both("[")
			g.any(2)
			g.both(",")
			g.any(1)
			g.both("]")
		case ty(map[string]interface{}(nil)):
			g.both(`{"m":`)
			g.any(2)
			g.both(`,"<n>":`)
			g.any(1)
			g.both("}")
		case ty(json.RawMessage(nil)):
			g.both(`{"raw":1e5}`)
		default:
			g.any(2)
		}
	}
}

// sameShape compares values of types that differ in their tags only.
func sameShape(a, b reflect.Value, path string) string {
	if a.Kind() != b.Kind() {
		return fmt.Sprintf("%s: %s and %s", path, a.Kind(), b.Kind())
	}
	switch a.Kind() {
	case reflect.Invalid:
		return ""
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return path + ": nil or not"
			}
			return ""
		}
		return sameShape(a.Elem(), b.Elem(), path)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := sameShape(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name); d != "" {
				return d
			}
		}
		return ""
	case reflect.Slice:
		if a.Len() != b.Len() || a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s: length %d and %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := sameShape(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Map:
		if a.Len() != b.Len() || a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s: %d and %d entries", path, a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() {
				return fmt.Sprintf("%s: entry %q", path, k)
			}
			if d := sameShape(a.MapIndex(k), y, fmt.Sprintf("%s[%q]", path, k)); d != "" {
				return d
			}
		}
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: %s and %s", path, a.Type(), b.Type())
	}
	if a.Interface() != b.Interface() {
		return fmt.Sprintf("%s: %#v and %#v", path, a.Interface(), b.Interface())
	}
	return ""
}

// c28Wrap is decoded by a custom decoder that decodes into V, and encoded by a
// custom encoder that encodes V.
type c28Wrap struct{ V interface{} }

type c28WrapCodec struct{ deep bool }

func (c c28WrapCodec) Decode(ptr unsafe.Pointer, it *jzon.Iterator, _ *jzon.DecOpts) error {
	if c.deep {
		return it.ReadArrayCB(func(it *jzon.Iterator) error {
			return it.ReadVal((*c28Wrap)(ptr).V)
		})
	}
	return it.ReadVal((*c28Wrap)(ptr).V)
}
func (c28WrapCodec) IsEmpty(ptr unsafe.Pointer) bool { return false }
func (c28WrapCodec) Encode(ptr unsafe.Pointer, s *jzon.Streamer, _ *jzon.EncOpts) {
	s.Value((*c28Wrap)(ptr).V)
}

func init() {
	eng.Register(&eng.Prop{
		ID:          "C28",
		Rule:        "a case is a set of options (tag key, tagged fields only, case sensitive keys, UseNumber, unknown fields refused, HTML escaping), a type built twice (tags under the configured key with decoys under another, and rewritten for encoding/json), a destination with pointers inside its interfaces, and a document with exact, folded, ignored and unknown keys; it is decoded by up to 3 of 14 entry points that must all apply the options, and the value is encoded by up to 3 of 8; non-trivial: at least one option differs from the default and the type has a struct with two fields",
		Assumptions: []string{stdNote, "keys that CaseSensitive keeps from matching are renamed for encoding/json"},
		Quick:       150000, Thorough: 15000000,
		Run: c28Run,
	})
}

func c28Run(t *eng.T) {
	o := &c28Opt{tag: "json", html: true}
	if t.P(4, 5) {
		o.tag = t.Str("json", "jz", "db")
		o.only, o.num, o.strict, o.cs, o.html = t.P(1, 4), t.Bool(), t.P(1, 3), t.P(1, 3), t.Bool()
	}
	def := *o == c28Opt{tag: "json", html: true}
	d := c28Type(t, t.Range(1, 3))
	if d.kind == 0 || d.kind == reflect.Interface {
		d = c28Struct(t, t.Range(1, 3))
	}
	other := "json"
	if o.tag == "json" {
		other = "jz"
	}
	mkJ := func(d *c28T) reflect.Type { return d.build(o.tag, other, false, o.only) }
	mkS := func(d *c28T) reflect.Type { return d.build("json", "", true, o.only) }
	jt, st := mkJ(d), mkS(d)
	g := &c28Doc{t: t, o: o, ws: t.Bool()}
	g.val(d, true)
	if !def && strings.Count(jt.String(), ";") > 0 {
		t.Nontrivial()
	}
	t.Key([]byte(fmt.Sprintf("%v %s %s", *o, jt, g.jz)))
	t.Sample(func() string { return fmt.Sprintf("%+v: %s into %s", *o, gen.Show(g.jz), typeStr(jt)) })
	t.Logf("options %+v\njzon type %s\nstd  type %s\ndocument %s\nfor std  %s", *o, jt, st, g.jz, g.std)

	sv := reflect.New(st)
	d.prefill(sv.Elem(), mkS)
	sd := json.NewDecoder(bytes.NewReader(g.std))
	if o.num {
		sd.UseNumber()
	}
	if o.strict {
		sd.DisallowUnknownFields()
	}
	stdErr := sd.Decode(sv.Interface())
	if stdErr != nil && !(o.strict && g.unknown) {
		t.Failf("generator: encoding/json: %v for %s", stdErr, gen.Show(g.std))
	}

	mk := func() reflect.Value {
		v := reflect.New(jt)
		d.prefill(v.Elem(), mkJ)
		return v
	}
	deep := t.Bool()
	vd := map[reflect.Type]jzon.ValDecoder{ty(c28Wrap{}): c28WrapCodec{deep}}
	tag := o.tag
	if tag == "json" && t.Bool() {
		tag = ""
	}
	cfg := jzon.NewDecoderConfig(&jzon.DecoderOption{Tag: tag, OnlyTaggedField: o.only, UseNumber: o.num, DisallowUnknownFields: o.strict, CaseSensitive: o.cs, ValDecoders: vd})
	// options that can be set later are not
	bare := jzon.NewDecoderConfig(&jzon.DecoderOption{Tag: tag, OnlyTaggedField: o.only, CaseSensitive: o.cs, ValDecoders: vd})
	var warm interface{}
	warmUp := func(it *jzon.Iterator) {
		switch t.Int(4) {
		case 0:
			_ = it.Unmarshal([]byte(`{"a":[1,2]}`), &warm)
		case 1:
			_ = it.UnmarshalFromReader(strings.NewReader(`[1,{"x":`), &warm)
		case 2:
			it.Valid([]byte(`[1,2,3]`))
		}
	}
	set := func(dec *jzon.Decoder) *jzon.Decoder {
		if o.num {
			dec.UseNumber()
		}
		if o.strict {
			dec.DisallowUnknownFields()
		}
		return dec
	}
	jz := g.jz
	var last reflect.Value
	check := func(name string, v reflect.Value, err error) {
		if (err == nil) != (stdErr == nil) {
			t.Failf("%s with %+v: error %v, encoding/json %v\n%s into %s", name, *o, err, stdErr, gen.Show(jz), typeStr(jt))
		}
		if err != nil {
			return
		}
		if df := sameShape(v.Elem(), sv.Elem(), "value"); df != "" {
			t.Failf("%s with %+v: %s\n%s into %s", name, *o, df, gen.Show(jz), typeStr(jt))
		}
		last = v
	}
	// a Decoder or iterator over two documents keeps the options
	two := append(append(clone(jz), ' '), jz...)
	arr := append(append(append(append([]byte("["), jz...), ','), jz...), ']')
	ends := func(it *jzon.Iterator, err error) error {
		if err == nil && !atEOF(it) {
			return jzon.ErrDataRemained
		}
		return err
	}
	for k := t.Range(1, 3); k > 0; k-- {
		v := mk()
		p := v.Interface()
		n := 14
		if !def {
			n = 12
		}
		switch c := t.Int(n); c {
		case 0:
			check("DecoderConfig.Unmarshal", v, cfg.Unmarshal(jz, p))
		case 1:
			check("DecoderConfig.UnmarshalFromString", v, cfg.UnmarshalFromString(string(jz), p))
		case 2:
			check("DecoderConfig.UnmarshalFromReader", v, cfg.UnmarshalFromReader(gen.Chunked(t, jz), p))
		case 3:
			it := cfg.NewIterator()
			warmUp(it)
			check("Iterator.Unmarshal", v, it.Unmarshal(jz, p))
			it.Release()
		case 4:
			it := cfg.NewIterator()
			warmUp(it)
			check("Iterator.UnmarshalFromReader", v, it.UnmarshalFromReader(gen.Chunked(t, jz), p))
			it.Release()
		case 5, 6:
			c := bare
			if t.P(1, 3) {
				c = cfg
			}
			in := two
			late := t.P(1, 3)
			if late { // the options are set between two values
				in = append([]byte("[7,{}] "), two...)
			}
			dec := c.NewDecoder(gen.Chunked(t, in))
			if late {
				if err := dec.Decode(&warm); err != nil {
					t.Failf("Decode: %v", err)
				}
			}
			set(dec)
			check("Decoder.Decode", v, dec.Decode(p))
			v = mk()
			check("second Decoder.Decode", v, dec.Decode(v.Interface()))
			if stdErr == nil {
				if err := dec.Decode(v.Interface()); err != io.EOF {
					t.Failf("third Decode: %v", err)
				}
			}
			dec.Release()
		case 7:
			it := cfg.NewIterator()
			warmUp(it)
			it.ResetBytes(two)
			check("ResetBytes, ReadVal", v, it.ReadVal(p))
			if stdErr == nil {
				v = mk()
				check("second ReadVal", v, ends(it, it.ReadVal(v.Interface())))
			}
			it.Release()
		case 8:
			it := cfg.NewIterator()
			warmUp(it)
			it.Reset(gen.Chunked(t, arr))
			i := 0
			err := it.ReadArrayCB(func(it *jzon.Iterator) error {
				i++
				if i == 2 {
					v = mk()
				}
				err := it.ReadVal(v.Interface())
				if i == 1 {
					check("ReadVal in ReadArrayCB", v, err)
				}
				return err
			})
			check("second ReadVal in ReadArrayCB", v, ends(it, err))
			it.Release()
		case 9: // in a custom decoder, in a struct
			h := struct{ W c28Wrap }{c28Wrap{p}}
			in := jz
			if deep {
				in = append(append([]byte("["), jz...), ']')
			}
			tagged := struct {
				W c28Wrap `json:"W" jz:"W" db:"W"`
			}(h)
			err := cfg.Unmarshal(append(append([]byte(`{"W":`), in...), '}'), &tagged)
			check("ReadVal in a custom decoder", v, err)
		case 10: // through an interface at the root
			var x interface{} = p
			check("Unmarshal into an interface holding a pointer", v, cfg.Unmarshal(jz, &x))
		case 11: // inside a map of pointers
			it := cfg.NewIterator()
			it.ResetBytes(append(append([]byte(`{"k":`), jz...), '}'))
			err := it.ReadObjectCB(func(it *jzon.Iterator, field string) error {
				return it.ReadVal(p)
			})
			check("ReadVal in ReadObjectCB", v, ends(it, err))
			it.Release()
		case 12:
			switch t.Int(3) {
			case 0:
				check("Unmarshal", v, jzon.Unmarshal(jz, p))
			case 1:
				check("UnmarshalFromString", v, jzon.UnmarshalFromString(string(jz), p))
			default:
				check("UnmarshalFromReader", v, jzon.UnmarshalFromReader(gen.Chunked(t, jz), p))
			}
		case 13:
			if t.Bool() {
				it := jzon.NewIterator()
				warmUp(it)
				check("NewIterator().Unmarshal", v, it.Unmarshal(jz, p))
				it.Release()
			} else {
				dec := jzon.NewDecoder(gen.Chunked(t, two))
				check("NewDecoder().Decode", v, dec.Decode(p))
				dec.Release()
			}
		}
	}
	if !last.IsValid() {
		return
	}

	// encoding
	p := last.Interface()
	if t.Bool() {
		p = last.Elem().Interface()
	}
	want, err := stdEncode(sv.Interface(), o.html)
	if err != nil {
		t.Failf("generator: %v", err)
	}
	ve := map[reflect.Type]jzon.ValEncoder{ty(c28Wrap{}): c28WrapCodec{}}
	ecfg := jzon.NewEncoderConfig(&jzon.EncoderOption{Tag: tag, OnlyTaggedField: o.only, EscapeHTML: o.html, ValEncoders: ve})
	opp := jzon.NewEncoderConfig(&jzon.EncoderOption{Tag: tag, OnlyTaggedField: o.only, EscapeHTML: !o.html, ValEncoders: ve})
	checkE := func(name string, got []byte, err error, frame ...string) {
		if err != nil {
			t.Failf("%s with %+v: error %v for %s", name, *o, err, gen.Show(want))
		}
		w := want
		if len(frame) > 0 {
			w = []byte(fmt.Sprintf(frame[0], bytes.ReplaceAll(want, []byte("%"), []byte("%"))))
		}
		if df := sameJSON(got, w, true); df != "" {
			t.Failf("%s with %+v of %s\n%s", name, *o, typeStr(jt), df)
		}
	}
	for k := t.Range(1, 3); k > 0; k-- {
		n := 8
		if !def {
			n = 6
		}
		var b bytes.Buffer
		switch t.Int(n) {
		case 0:
			got, err := ecfg.Marshal(p)
			checkE("EncoderConfig.Marshal", got, err)
		case 1, 2:
			c := opp
			if t.P(1, 3) {
				c = ecfg
			}
			e := c.NewEncoder(&b)
			if c == opp || t.Bool() {
				e.SetEscapeHTML(o.html)
			}
			err := e.Encode(p)
			checkE("Encoder.Encode", bytes.TrimSuffix(b.Bytes(), []byte("\n")), err)
			b.Reset()
			err = e.Encode(p)
			checkE("second Encoder.Encode", bytes.TrimSuffix(b.Bytes(), []byte("\n")), err)
			e.Release()
		case 3:
			s := ecfg.NewStreamer()
			s.Reset(&b)
			s.ArrayStart().Value(p).ArrayEnd()
			err := s.Flush()
			checkE("Streamer.Value", b.Bytes(), err, "[%s]")
			// and once more after a reset
			b.Reset()
			s.Reset(&b)
			s.ObjectStart().Field("f").Value(p).ObjectEnd()
			err = s.Flush()
			checkE("Streamer.Value after Reset", b.Bytes(), err, `{"f":%s}`)
			s.Release()
		case 4:
			s := opp.NewStreamer()
			s.Reset(&b)
			s.EscapeHTML(o.html)
			s.Value(p)
			err := s.Flush()
			checkE("Streamer.EscapeHTML, Value", b.Bytes(), err)
			s.Release()
		case 5:
			got, err := ecfg.Marshal(map[string]interface{}{"k": []c28Wrap{{p}}})
			checkE("Value in a custom encoder", got, err, `{"k":[%s]}`)
		case 6:
			got, err := jzon.Marshal(p)
			checkE("Marshal", got, err)
		case 7:
			if t.Bool() {
				e := jzon.NewEncoder(&b)
				err := e.Encode(p)
				checkE("NewEncoder().Encode", bytes.TrimSuffix(b.Bytes(), []byte("\n")), err)
				e.Release()
			} else {
				s := jzon.NewStreamer()
				s.Reset(&b)
				s.Value(p)
				err := s.Flush()
				checkE("NewStreamer().Value", b.Bytes(), err)
				s.Release()
			}
		}
	}
}
