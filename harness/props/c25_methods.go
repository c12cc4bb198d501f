package props

import (
	"bytes"
	"encoding"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"hash/fnv"
	"reflect"
	"sort"
	"strings"

	"github.com/zerosnake0/jzon"

	"verif/eng"
	"verif/gen"
	"verif/ref"
)

// The methods of the types below log their calls. A worker process runs one
// case at a time.
type c25State struct {
	log    []string
	fail   int  // the calls that fail, by a hash (-1: none)
	failed bool // a call has failed
	nested bool // the methods use the library themselves
	plain  bool // MarshalJSON returns a placeholder
	texts  []string
	bad    string
}

var c25 c25State

var errMethod = errors.New("method failed")

func (s *c25State) call(name string, arg string) error {
	i := len(s.log)
	s.log = append(s.log, name+"("+arg+")")
	if s.nested {
		var x interface{}
		if err := jzon.Unmarshal([]byte(`{"a":["n",{"b":[1,2,3,"\u0041"]}],"c":"dddddddddddddddddddddddddddddddddddd"}`), &x); err != nil {
			s.bad = "nested decode: " + err.Error()
		}
		if b, err := jzon.Marshal([]interface{}{"<nested>", 1.5, map[string]int{"k": i}}); err != nil || string(b) != fmt.Sprintf(`["\u003cnested\u003e",1.5,{"k":%d}]`, i) {
			s.bad = "nested encode: " + string(b)
		}
		var q []mJ
		_ = jzon.UnmarshalFromReader(strings.NewReader(`[]`), &q)
	}
	if s.fail >= 0 && c25Hash(s.log[i])%5 == uint32(s.fail) {
		s.failed = true
		return errMethod
	}
	return nil
}

func c25Hash(s string) uint32 {
	h := fnv.New32a()
	h.Write([]byte(s))
	return h.Sum32() >> 3
}

// subset tells if all strings of a are in b, as often.
func subset(a, b []string) bool {
	n := map[string]int{}
	for _, x := range b {
		n[x]++
	}
	for _, x := range a {
		if n[x]--; n[x] < 0 {
			return false
		}
	}
	return true
}

func (s *c25State) unmarshal(name string, b []byte, set func(string)) error {
	before := string(b)
	err := s.call(name, before)
	if string(b) != before {
		s.bad = fmt.Sprintf("the argument %q changed into %q during the call", before, b)
	}
	if err == nil {
		set(before)
	}
	return err
}

// jtexts are compact texts that MarshalJSON returns.
var jtexts = []string{`1`, `"x"`, `null`, `{"a":[1,2],"b":"c"}`, `[]`, `-1.50`, `"<&>"`, `[ 1, 2 ]`, `true`, "{ \"k\" :\n1}", `"\u0041\/"`}

func (s *c25State) marshal(name, content string, pick int) ([]byte, error) {
	if err := s.call(name, content); err != nil {
		return []byte("garbage"), err
	}
	text := jtexts[uint(pick)%uint(len(jtexts))]
	s.texts = append(s.texts, text)
	if s.plain {
		return []byte(fmt.Sprintf(`"@%d@"`, len(s.texts)-1)), nil
	}
	return []byte(text), nil
}

func (s *c25State) marshalText(name, content string) ([]byte, error) {
	if err := s.call(name, content); err != nil {
		return []byte("garbage"), err
	}
	return []byte("t:" + content), nil
}

type (
	// mJ has JSON methods, MarshalJSON on the value.
	mJ struct{ S string }
	// mJP has JSON methods on the pointer.
	mJP struct {
		N int
		S string
	}
	// mT has text methods and kind string.
	mT string
	// mTS has text methods and is a struct.
	mTS struct{ A, B string }
	// mTP has text methods on the pointer.
	mTP struct{ S string }
	// mI has text methods and kind int.
	mI int
	// mB has both sorts of methods.
	mB [1]string
	// mM is a map with JSON methods.
	mM map[string]int
	// mP is pointer shaped and has JSON methods.
	mP struct{ P *string }
	// mPT is pointer shaped and has text methods.
	mPT struct{ P *string }
	// mSl is a slice with JSON methods.
	mSl []string
	// mBy is a byte slice with text methods.
	mBy []byte
	// mE gets its methods from an embedded struct.
	mE struct {
		mJ
		X int
	}
	// mF is a function type with methods.
	mF func() string
	// arrays that hold nothing, with methods on the value or the pointer
	mA0   [0]int
	mA0T  [0]mJ
	mA0P  [0]string
	mA0TP [0]*int
	// mBo and mFl are plain kinds with methods
	mBo bool
	mFl float64
)

func (m mA0) MarshalJSON() ([]byte, error)    { return c25.marshal("mA0.MarshalJSON", "", 4) }
func (m mA0T) MarshalText() ([]byte, error)   { return c25.marshalText("mA0T.MarshalText", "") }
func (m *mA0P) MarshalJSON() ([]byte, error)  { return c25.marshal("mA0P.MarshalJSON", "", 5) }
func (m *mA0TP) MarshalText() ([]byte, error) { return c25.marshalText("mA0TP.MarshalText", "") }
func (m *mA0) UnmarshalJSON(b []byte) error {
	return c25.unmarshal("mA0.UnmarshalJSON", b, func(string) {})
}
func (m *mA0T) UnmarshalText(b []byte) error {
	return c25.unmarshal("mA0T.UnmarshalText", b, func(string) {})
}
func (m *mA0P) UnmarshalJSON(b []byte) error {
	return c25.unmarshal("mA0P.UnmarshalJSON", b, func(string) {})
}
func (m *mA0TP) UnmarshalText(b []byte) error {
	return c25.unmarshal("mA0TP.UnmarshalText", b, func(string) {})
}
func (m *mBo) UnmarshalJSON(b []byte) error {
	return c25.unmarshal("mBo.UnmarshalJSON", b, func(s string) { *m = len(s) > 3 })
}
func (m mBo) MarshalJSON() ([]byte, error) {
	return c25.marshal("mBo.MarshalJSON", fmt.Sprint(bool(m)), 1)
}
func (m *mFl) UnmarshalText(b []byte) error {
	return c25.unmarshal("mFl.UnmarshalText", b, func(s string) { *m = mFl(len(s)) / 2 })
}
func (m mFl) MarshalText() ([]byte, error) {
	return c25.marshalText("mFl.MarshalText", fmt.Sprint(float64(m)))
}

func (m *mJ) UnmarshalJSON(b []byte) error {
	return c25.unmarshal("mJ.UnmarshalJSON", b, func(s string) { m.S = s })
}
func (m mJ) MarshalJSON() ([]byte, error) { return c25.marshal("mJ.MarshalJSON", m.S, len(m.S)) }

func (m *mJP) UnmarshalJSON(b []byte) error {
	return c25.unmarshal("mJP.UnmarshalJSON", b, func(s string) { m.S = s; m.N++ })
}
func (m *mJP) MarshalJSON() ([]byte, error) { return c25.marshal("mJP.MarshalJSON", m.S, m.N) }

func (m *mT) UnmarshalText(b []byte) error {
	return c25.unmarshal("mT.UnmarshalText", b, func(s string) { *m = mT(s) })
}
func (m mT) MarshalText() ([]byte, error) { return c25.marshalText("mT.MarshalText", string(m)) }

func (m *mTS) UnmarshalText(b []byte) error {
	return c25.unmarshal("mTS.UnmarshalText", b, func(s string) { m.A = s; m.B += "+" })
}
func (m mTS) MarshalText() ([]byte, error) { return c25.marshalText("mTS.MarshalText", m.A+m.B) }

func (m *mTP) UnmarshalText(b []byte) error {
	return c25.unmarshal("mTP.UnmarshalText", b, func(s string) { m.S = s })
}
func (m *mTP) MarshalText() ([]byte, error) { return c25.marshalText("mTP.MarshalText", m.S) }

func (m *mI) UnmarshalText(b []byte) error {
	return c25.unmarshal("mI.UnmarshalText", b, func(s string) { *m = mI(len(s)) })
}
func (m mI) MarshalText() ([]byte, error) {
	return c25.marshalText("mI.MarshalText", fmt.Sprint(int(m)))
}

func (m *mB) UnmarshalJSON(b []byte) error {
	return c25.unmarshal("mB.UnmarshalJSON", b, func(s string) { m[0] = "j" + s })
}
func (m *mB) UnmarshalText(b []byte) error {
	return c25.unmarshal("mB.UnmarshalText", b, func(s string) { m[0] = "t" + s })
}
func (m mB) MarshalJSON() ([]byte, error) { return c25.marshal("mB.MarshalJSON", m[0], len(m[0])) }
func (m mB) MarshalText() ([]byte, error) { return c25.marshalText("mB.MarshalText", m[0]) }

func (m *mM) UnmarshalJSON(b []byte) error {
	return c25.unmarshal("mM.UnmarshalJSON", b, func(s string) { *m = mM{s: len(s)} })
}
func (m mM) MarshalJSON() ([]byte, error) {
	return c25.marshal("mM.MarshalJSON", fmt.Sprint(map[string]int(m)), len(m))
}

func (m *mP) UnmarshalJSON(b []byte) error {
	return c25.unmarshal("mP.UnmarshalJSON", b, func(s string) { m.P = &s })
}
func (m mP) MarshalJSON() ([]byte, error) {
	s := "nil"
	if m.P != nil {
		s = *m.P
	}
	return c25.marshal("mP.MarshalJSON", s, len(s))
}

func (m *mPT) UnmarshalText(b []byte) error {
	return c25.unmarshal("mPT.UnmarshalText", b, func(s string) { m.P = &s })
}
func (m mPT) MarshalText() ([]byte, error) {
	s := "nil"
	if m.P != nil {
		s = *m.P
	}
	return c25.marshalText("mPT.MarshalText", s)
}

func (m *mSl) UnmarshalJSON(b []byte) error {
	return c25.unmarshal("mSl.UnmarshalJSON", b, func(s string) { *m = mSl{s} })
}
func (m mSl) MarshalJSON() ([]byte, error) {
	return c25.marshal("mSl.MarshalJSON", strings.Join(m, "|"), len(m))
}

func (m *mBy) UnmarshalText(b []byte) error {
	return c25.unmarshal("mBy.UnmarshalText", b, func(s string) { *m = mBy(s) })
}
func (m mBy) MarshalText() ([]byte, error) { return c25.marshalText("mBy.MarshalText", string(m)) }

func (m *mF) UnmarshalJSON(b []byte) error {
	return c25.unmarshal("mF.UnmarshalJSON", b, func(s string) { *m = func() string { return s } })
}
func (m mF) MarshalJSON() ([]byte, error) {
	s := "nil"
	if m != nil {
		s = m()
	}
	return c25.marshal("mF.MarshalJSON", s, len(s))
}

var (
	_ json.Marshaler         = mE{}
	_ encoding.TextMarshaler = mPT{}
)

var jsonLeaf = map[reflect.Type]bool{ty(mJ{}): true, ty(mJP{}): true, ty(mB{}): true, ty(mM{}): true, ty(mP{}): true, ty(mSl{}): true, ty(mE{}): true, ty(mF(nil)): true, ty(mA0{}): true, ty(mA0P{}): true, ty(mBo(false)): true}
var textLeaf = map[reflect.Type]bool{ty(mT("")): true, ty(mTS{}): true, ty(mTP{}): true, ty(mI(0)): true, ty(mPT{}): true, ty(mBy{}): true, ty(mA0T{}): true, ty(mA0TP{}): true, ty(mFl(0)): true}

var c25Leaves = []reflect.Type{ty(mJ{}), ty(mB{}), ty(mM{}), ty(mP{}), ty(mSl{}), ty(mE{}), ty(mT("")), ty(mTS{}), ty(mI(0)), ty(mPT{}), ty(mBy{}), ty(mF(nil)), ty(0), ty(""), ty(mA0{}), ty(mA0T{}), ty(mBo(false)), ty(mFl(0))}
var c25AddrLeaves = []reflect.Type{ty(mJP{}), ty(mTP{}), ty(mJP{}), ty(mTP{}), ty(mA0P{}), ty(mA0TP{})}
var c25Keys = []reflect.Type{ty(""), ty(mT("")), ty(mTS{}), ty(mI(0)), ty(mB{}), ty(0)}

func c25Type(t *eng.T, depth int, addr bool) reflect.Type {
	if depth == 0 || t.P(1, 6) {
		if addr && t.P(1, 5) {
			return c25AddrLeaves[t.Int(len(c25AddrLeaves))]
		}
		return c25Leaves[t.Int(len(c25Leaves))]
	}
	switch t.W(4, 2, 3, 3, 5, 1) {
	case 0:
		return reflect.SliceOf(c25Type(t, depth-1, true))
	case 1:
		return reflect.ArrayOf(t.Range(0, 3), c25Type(t, depth-1, addr))
	case 2:
		return reflect.MapOf(c25Keys[t.Int(len(c25Keys))], c25Type(t, depth-1, false))
	case 3:
		return reflect.PtrTo(c25Type(t, depth-1, true))
	case 4:
		var fs []reflect.StructField
		n := t.Range(1, 4)
		if t.P(1, 8) {
			n = t.Range(11, 13)
		}
		for i := 0; i < n; i++ {
			f := reflect.StructField{Name: string(rune('A' + i)), Type: c25Type(t, depth-1, addr)}
			if t.P(1, 4) {
				f.Tag = `json:",omitempty"`
			}
			fs = append(fs, f)
		}
		return reflect.StructOf(fs)
	default:
		return ifaceT
	}
}

// c25Doc appends a document for the type.
func c25Doc(t *eng.T, b []byte, vt reflect.Type, wrong *bool) []byte {
	b = gen.WS(t, b, 1)
	if t.P(1, 14) {
		return append(b, "null"...)
	}
	j := gen.DefaultJ()
	j.Budget = t.Range(1, 8)
	j.MaxDepth = 2
	j.LongStr = 700
	j.NoHuge = true
	if jsonLeaf[vt] {
		return gen.Text(t, b, j)
	}
	if textLeaf[vt] {
		if t.P(1, 40) {
			*wrong = true
			return gen.Text(t, b, j)
		}
		return c25String(t, b)
	}
	switch vt.Kind() {
	case reflect.Ptr:
		return c25Doc(t, b, vt.Elem(), wrong)
	case reflect.Slice, reflect.Array:
		n := t.Range(0, 4)
		b = append(b, '[')
		for i := 0; i < n; i++ {
			if i > 0 {
				b = append(b, ',')
			}
			b = c25Doc(t, b, vt.Elem(), wrong)
		}
		return append(gen.WS(t, b, 1), ']')
	case reflect.Map:
		n := t.Range(0, 3)
		b = append(b, '{')
		for i := 0; i < n; i++ {
			if i > 0 {
				b = append(b, ',')
			}
			if vt.Key() == ty(0) {
				b = append(b, fmt.Sprintf("%q", fmt.Sprint(t.Int(30)-10))...)
			} else {
				b = c25String(t, b)
			}
			b = append(b, ':')
			b = c25Doc(t, b, vt.Elem(), wrong)
		}
		return append(b, '}')
	case reflect.Struct:
		b = append(b, '{')
		first := true
		for i := 0; i < vt.NumField(); i++ {
			if t.P(1, 5) {
				continue
			}
			if !first {
				b = append(b, ',')
			}
			first = false
			b = append(gen.WS(t, b, 1), '"')
			b = append(b, vt.Field(i).Name...)
			b = append(b, '"', ':')
			b = c25Doc(t, b, vt.Field(i).Type, wrong)
		}
		return append(b, '}')
	case reflect.Int:
		return append(b, fmt.Sprint(t.Int(2000)-1000)...)
	case reflect.String:
		return c25String(t, b)
	}
	return gen.Text(t, b, j)
}

func c25String(t *eng.T, b []byte) []byte {
	if t.P(1, 3) {
		return append(b, []string{`""`, `"a"`, `"k\u0041\n"`, `"\ud83d\ude00"`, `"é€"`, `"\\\""`}[t.Int(6)]...)
	}
	return gen.KeyLit(t, b, gen.GoString(t, false))
}

func c25Value(t *eng.T, v reflect.Value, depth int) {
	if t.P(1, 10) {
		return
	}
	switch v.Type() {
	case ty(mF(nil)):
		s := gen.GoString(t, false)
		v.Set(reflect.ValueOf(mF(func() string { return s })))
		return
	case ty(mE{}):
		v.Set(reflect.ValueOf(mE{mJ: mJ{gen.GoString(t, false)}, X: 1}))
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		c25Value(t, v.Elem(), depth+1)
	case reflect.Slice:
		n := t.Range(0, 3)
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			c25Value(t, v.Index(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			c25Value(t, v.Index(i), depth+1)
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		for i, n := 0, t.Range(0, 2); i < n; i++ {
			k := reflect.New(v.Type().Key()).Elem()
			c25Value(t, k, depth+1)
			e := reflect.New(v.Type().Elem()).Elem()
			c25Value(t, e, depth+1)
			v.SetMapIndex(k, e)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			c25Value(t, v.Field(i), depth+1)
		}
	case reflect.Interface:
		if depth > 6 {
			return
		}
		x := reflect.New(c25Type(t, 1, false)).Elem()
		c25Value(t, x, depth+1)
		if t.Bool() {
			v.Set(x)
		} else {
			v.Set(x.Addr())
		}
	case reflect.String:
		v.SetString(gen.GoString(t, false))
	case reflect.Uint8:
		v.SetUint(uint64(t.Range(32, 126)))
	case reflect.Int:
		v.SetInt(int64(t.Int(200) - 100))
	case reflect.Bool:
		v.SetBool(t.Bool())
	case reflect.Float64:
		v.SetFloat([]float64{0, math.Copysign(0, -1), 1.5}[t.Int(3)])
	}
}

func c25Decode(t *eng.T) {
	t.Label("decode")
	vt := c25Type(t, t.Range(0, 3), true)
	if strings.Contains(vt.String(), "map[props.mB]") {
		t.Skip() // encoding/json hands keys to UnmarshalJSON if there is one
	}
	wrong := false
	doc := gen.WS(t, c25Doc(t, nil, vt, &wrong), 1)
	t.Key(doc)
	if !validUTF8(doc) {
		t.Skip()
	}
	t.Sample(func() string { return typeStr(vt) + " <- " + gen.Show(doc) })
	fail := -1
	if t.P(1, 4) {
		fail = t.Range(0, 4)
	}
	a, b := reflect.New(vt), reflect.New(vt)
	c25 = c25State{fail: fail}
	stdErr := json.Unmarshal(doc, b.Interface())
	want, stdFailed := c25.log, c25.failed
	c25 = c25State{fail: fail, nested: t.P(1, 3)}
	in := clone(doc)
	e := pickEntry(t)
	err := e.f(jzon.NewDecoderConfig(nil), t, in, a.Interface())
	got, bad := c25.log, c25.bad
	if bad != "" {
		t.Failf("%s: %s; %s into %s", e.name, bad, gen.Show(doc), typeStr(vt))
	}
	if string(in) != string(doc) {
		t.Failf("%s: the input was changed; %s", e.name, gen.Show(doc))
	}
	if len(want) > 1 {
		t.Nontrivial()
	}
	// encoding/json decodes the value of a map entry before its key
	inOrder := !strings.Contains(vt.String(), "map[props.")
	cmp := func(a, b []string) bool {
		if inOrder {
			return strings.Join(a, ";") == strings.Join(b, ";")
		}
		return len(a) == len(b) && subset(a, b)
	}
	switch {
	case c25.failed:
		t.Label("method fails")
		if !reason(err, errMethod) {
			t.Failf("%s: a method failed but the error is %v; %s into %s", e.name, err, gen.Show(doc), typeStr(vt))
		}
		for i, x := range got {
			if f := c25Hash(x)%5 == uint32(fail); f != (i == len(got)-1) {
				t.Failf("%s: calls %q go on after one has failed; %s into %s", e.name, got, gen.Show(doc), typeStr(vt))
			}
		}
		if inOrder && (len(got) > len(want) || !cmp(got, want[:len(got)])) {
			t.Failf("%s: calls %q, expected %q; %s into %s", e.name, got, want, gen.Show(doc), typeStr(vt))
		}
	case stdFailed && !wrong:
		t.Failf("%s: calls %q, expected %q; %s into %s", e.name, got, want, gen.Show(doc), typeStr(vt))
	case stdErr != nil:
		if err == nil {
			t.Failf("%s: no error, encoding/json %v; %s into %s", e.name, stdErr, gen.Show(doc), typeStr(vt))
		}
		if inOrder && (len(got) > len(want) || !cmp(got, want[:len(got)])) {
			t.Failf("%s: calls %q, expected %q; %s into %s", e.name, got, want, gen.Show(doc), typeStr(vt))
		}
	default:
		if !cmp(got, want) {
			t.Failf("%s: calls %q, expected %q; %s into %s", e.name, got, want, gen.Show(doc), typeStr(vt))
		}
	}
	if stdErr == nil {
		if err != nil {
			t.Failf("%s: error %v; %s into %s", e.name, err, gen.Show(doc), typeStr(vt))
		}
		if strings.Contains(vt.String(), "mF") {
			return
		}
		if d := ref.Diff(a.Interface(), b.Interface()); d != "" {
			t.Failf("%s: differs at %s; %s into %s", e.name, d, gen.Show(doc), typeStr(vt))
		}
	}
}

func c25Encode(t *eng.T) {
	t.Label("encode")
	vt := c25Type(t, t.Range(0, 3), true)
	v := reflect.New(vt)
	c25Value(t, v.Elem(), 0)
	fail := -1
	if t.P(1, 4) {
		fail = t.Range(0, 4)
	}
	c25 = c25State{fail: fail, plain: true}
	std, stdErr := json.Marshal(v.Interface())
	want, texts, stdFailed := c25.log, c25.texts, c25.failed
	t.Key(std)
	t.Sample(func() string { return typeStr(vt) + " -> " + gen.Show(std) })
	if len(want) > 1 {
		t.Nontrivial()
	}
	e := pickEnc(t)
	if e.name == "Streamer.Value in an array" {
		e = encEntries[2] // calls each method once
	}
	c25 = c25State{fail: fail, nested: t.P(1, 3)}
	out, err := e.f(t, encConfig(t, vt), true, v.Interface())
	got, bad := c25.log, c25.bad
	if bad != "" {
		t.Failf("%s: %s; %s", e.name, bad, typeStr(vt))
	}
	if c25.failed {
		t.Label("method fails")
		if err != errMethod {
			t.Failf("%s: a method failed but the error is %v; %s", e.name, err, typeStr(vt))
		}
		for i, x := range got {
			if f := c25Hash(x)%5 == uint32(fail); f != (i == len(got)-1) {
				t.Failf("%s: methods are called after one has failed: %q; %s", e.name, got, typeStr(vt))
			}
		}
		if !stdFailed {
			t.Failf("%s: calls %q, expected %q; %s", e.name, got, want, typeStr(vt))
		}
		if len(out) > 0 {
			t.Failf("%s: output %s although a method failed", e.name, gen.Show(out))
		}
		return
	}
	if stdErr != nil {
		if err == nil {
			t.Failf("%s: no error, encoding/json %v; %s", e.name, stdErr, typeStr(vt))
		}
		return
	}
	if err != nil {
		t.Failf("%s: error %v; %s", e.name, err, typeStr(vt))
	}
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, ";") != strings.Join(want, ";") {
		t.Failf("%s: calls %q, expected %q; %s", e.name, got, want, typeStr(vt))
	}
	for i, x := range texts {
		std = bytes.Replace(std, []byte(fmt.Sprintf(`"@%d@"`, i)), []byte(x), 1)
	}
	if !bytes.Equal(stdNorm(std), stdNorm(out)) {
		a, st := ref.Document(out)
		if st != ref.OK {
			t.Failf("%s: invalid output %s for %s, expected %s", e.name, gen.Show(out), typeStr(vt), gen.Show(std))
		}
		b, st := ref.Document(std)
		if st != ref.OK || a.Canon(true) != b.Canon(true) || len(stdNorm(out)) != len(stdNorm(std)) {
			t.Failf("%s: output %s for %s, expected %s", e.name, gen.Show(out), typeStr(vt), gen.Show(std))
		}
	}
}

func init() {
	eng.Register(&eng.Prop{
		ID:          "C25",
		Rule:        "a case is a Go type containing types with JSON or text methods (on values and pointers; of kinds struct, string, int, map, slice, array (also of no elements), bool, float, func, pointer shaped, embedded) at any place including map keys, and a document for it or a value of it; the methods log their calls and arguments, may fail at any call and may use the library themselves; the log, the result and the error are compared with those under encoding/json, and what MarshalJSON returns must be inserted as it is; non-trivial: at least two calls",
		Assumptions: []string{stdNote},
		Quick:       800000, Thorough: 30000000,
		Run: func(t *eng.T) {
			if t.Bool() {
				c25Decode(t)
			} else {
				c25Encode(t)
			}
		},
	})
}
