package props

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"reflect"

	"github.com/zerosnake0/jzon"

	"verif/eng"
	"verif/gen"
	"verif/ref"
)

type (
	nByte   uint8
	nBytes  []byte
	nBytes2 []nByte
	byteTxt uint8 // has text methods: not base64
	byteJS  uint8 // has JSON methods: not base64
	recByte struct {
		Data []byte             `json:"data"`
		Sub  *recByte           `json:"sub,omitempty"`
		M    map[string][]nByte `json:"m,omitempty"`
	}
)

func (b byteTxt) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("b%d", b)), nil }
func (b *byteTxt) UnmarshalText(p []byte) error {
	_, err := fmt.Sscanf(string(p), "b%d", (*uint8)(b))
	return err
}
func (b byteJS) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf(`{"b":%d}`, b)), nil }
func (b *byteJS) UnmarshalJSON(p []byte) error {
	var x struct{ B uint8 }
	err := json.Unmarshal(p, &x)
	*b = byteJS(x.B)
	return err
}

var c27Types = []reflect.Type{
	ty([]byte(nil)), ty(nBytes(nil)), ty(nBytes2(nil)), ty([]nByte(nil)), ty((*[]byte)(nil)), ty([][]byte(nil)), ty(map[string][]byte(nil)),
	ty([3]byte{}), ty([4]nByte{}), ty([0]byte{}), ty([]int8(nil)), ty([]byteTxt(nil)), ty([]byteJS(nil)), ty([2][]byte{}), ty(recByte{}), ty([]interface{}{}),
	ty(struct {
		A []byte
		B nBytes `json:"b,omitempty"`
	}{}), ty(struct{ A []byte }{}), ty([]*[]byte(nil)), ty(map[int]nBytes2(nil)), ty([]recByte(nil)),
}

// c27Weights favours the byte slices.
func c27Type(t *eng.T) reflect.Type {
	if t.P(1, 3) {
		return c27Types[t.Int(4)]
	}
	return c27Types[t.Int(len(c27Types))]
}

func c27Bytes(t *eng.T) []byte {
	n := t.Range(0, 12)
	switch t.Int(6) {
	case 0:
		n = t.Range(0, 70)
	case 1:
		n = t.Size(1200)
	}
	if t.P(1, 150) {
		n = gen.Big(t)
		b := make([]byte, n)
		x, y := byte(t.Int(256)), byte(t.Int(256))
		for i := range b {
			b[i] = x
			x += y
		}
		return b
	}
	b := make([]byte, n)
	switch t.Int(3) {
	case 0:
		for i := range b {
			b[i] = byte(t.Int(256))
		}
	case 1:
		x := byte(t.Int(256))
		for i := range b {
			b[i] = x
		}
	default:
		x, y := byte(t.Int(256)), byte(t.Int(256))
		for i := range b {
			b[i] = x
			x += y
		}
	}
	return b
}

// c27Lit is a string literal with base64 text, some of it damaged.
func c27Lit(t *eng.T, b []byte) []byte {
	s := base64.StdEncoding.EncodeToString(c27Bytes(t))
	switch t.W(20, 1, 1, 1, 1, 2, 1, 1) {
	case 1:
		s = base64.RawStdEncoding.EncodeToString(c27Bytes(t))
	case 2:
		s = base64.URLEncoding.EncodeToString(c27Bytes(t))
	case 3:
		s += "="
	case 4:
		if len(s) > 0 {
			s = s[:t.Int(len(s))]
		}
	case 5: // line breaks are ignored
		i := t.Range(0, len(s))
		s = s[:i] + []string{"\n", "\r\n", "\r", "\n\n"}[t.Int(4)] + s[i:]
	case 6:
		i := t.Range(0, len(s))
		s = s[:i] + []string{" ", "\t", "-", "_", "é", "\x00", "\"", "\\", "=", "A"}[t.Int(10)] + s[i:]
	case 7:
		if len(s) > 0 {
			x := []byte(s)
			x[t.Int(len(x))] = byte(t.Range(32, 126))
			s = string(x)
		}
	}
	b = append(b, '"')
	esc := t.P(1, 3)
	if len(s) > 4000 {
		esc = false
	}
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b = append(b, '\\', byte(r))
		case r == '\n' && t.Bool():
			b = append(b, '\\', 'n')
		case r < 0x20:
			b = gen.UEsc(t, b, r)
		case r == '/' && t.Bool():
			b = append(b, '\\', '/')
		case esc && t.P(1, 6):
			b = gen.UEsc(t, b, r)
		default:
			b = append(b, string(r)...)
		}
	}
	return append(b, '"')
}

func c27Doc(t *eng.T, b []byte, vt reflect.Type, depth int) []byte {
	if t.P(1, 25) {
		return append(b, "null"...)
	}
	switch vt.Kind() {
	case reflect.Ptr:
		return c27Doc(t, b, vt.Elem(), depth)
	case reflect.Slice, reflect.Array:
		small := vt.Elem().Kind() == reflect.Uint8 || vt.Elem().Kind() == reflect.Int8
		if small && t.P(5, 6) {
			return c27Lit(t, b)
		}
		b = append(b, '[')
		for i, n := 0, t.Range(0, 4); i < n; i++ {
			if i > 0 {
				b = append(b, ',')
			}
			b = c27Doc(t, b, vt.Elem(), depth+1)
		}
		return append(b, ']')
	case reflect.Map:
		b = append(b, '{')
		for i, n := 0, t.Range(0, 2); i < n; i++ {
			if i > 0 {
				b = append(b, ',')
			}
			b = append(b, fmt.Sprintf(`"%d":`, i)...)
			b = c27Doc(t, b, vt.Elem(), depth+1)
		}
		return append(b, '}')
	case reflect.Struct:
		b = append(b, '{')
		n := 0
		for _, f := range gen.Fields(vt, "json") {
			if t.P(1, 4) || depth > 3 {
				continue
			}
			if n++; n > 1 {
				b = append(b, ',')
			}
			b = append(b, '"')
			b = append(b, f.Name...)
			b = append(b, '"', ':')
			b = c27Doc(t, b, f.Type, depth+1)
		}
		return append(b, '}')
	case reflect.Uint8:
		switch vt {
		case ty(byteTxt(0)):
			return append(b, fmt.Sprintf(`"b%d"`, t.Int(260))...)
		case ty(byteJS(0)):
			return append(b, fmt.Sprintf(`{"b":%d}`, t.Int(260))...)
		}
		return append(b, fmt.Sprint(t.Int(262))...)
	}
	return c27Lit(t, b)
}

func c27Fill(t *eng.T, v reflect.Value, depth int) {
	if t.P(1, 12) {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if depth < 4 {
			v.Set(reflect.New(v.Type().Elem()))
			c27Fill(t, v.Elem(), depth+1)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			x := c27Bytes(t)
			v.Set(reflect.MakeSlice(v.Type(), len(x), len(x)))
			for i := range x {
				v.Index(i).SetUint(uint64(x[i]))
			}
			return
		}
		n := t.Range(0, 3)
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			c27Fill(t, v.Index(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			c27Fill(t, v.Index(i), depth+1)
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		for i, n := 0, t.Range(0, 2); i < n; i++ {
			k := reflect.New(v.Type().Key()).Elem()
			if k.Kind() == reflect.String {
				k.SetString(fmt.Sprint(i))
			} else {
				k.SetInt(int64(i))
			}
			e := reflect.New(v.Type().Elem()).Elem()
			c27Fill(t, e, depth+1)
			v.SetMapIndex(k, e)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			c27Fill(t, v.Field(i), depth+1)
		}
	case reflect.Uint8:
		v.SetUint(uint64(t.Int(256)))
	case reflect.Int8:
		v.SetInt(int64(int8(t.Int(256))))
	case reflect.Interface:
		v.Set(reflect.ValueOf(c27Bytes(t)))
	}
}

func init() {
	eng.Register(&eng.Prop{
		ID:          "C27",
		Rule:        "a case is one of 21 types with byte slices, named byte slices, slices of named bytes with and without methods, or byte arrays at the root, behind pointers, in slices, maps and structs, and a document with base64 text (any length, escapes, line breaks; some damaged: padding, alphabet, foreign characters), arrays of numbers or null, or a value; decoding and encoding are compared with encoding/json and encoding is decoded again; decoded byte slices are independent of the input and of each other; non-trivial: more than 8 bytes of text",
		Assumptions: []string{stdNote},
		Quick:       1000000, Thorough: 60000000,
		Run: func(t *eng.T) {
			vt := c27Type(t)
			if t.Bool() {
				t.Label("encode")
				v := reflect.New(vt)
				c27Fill(t, v.Elem(), 0)
				std, stdErr := json.Marshal(v.Interface())
				t.Key(std)
				t.Sample(func() string { return typeStr(vt) + " -> " + gen.Show(std) })
				if stdErr != nil {
					t.Skip()
				}
				if len(std) > 8 {
					t.Nontrivial()
				}
				e := pickEnc(t)
				out, err := e.f(t, encConfig(t, vt), true, v.Interface())
				if err != nil {
					t.Failf("%s: %v; %s", e.name, err, typeStr(vt))
				}
				if d := sameJSON(out, std, true); d != "" {
					t.Failf("%s: %s; %s", e.name, d, typeStr(vt))
				}
				a, b := reflect.New(vt), reflect.New(vt)
				if json.Unmarshal(std, b.Interface()) != nil {
					return
				}
				if err := jzon.Unmarshal(out, a.Interface()); err != nil {
					t.Failf("cannot decode %s into %s: %v", gen.Show(out), typeStr(vt), err)
				}
				if d := ref.Diff(a.Interface(), b.Interface()); d != "" {
					t.Failf("%s back into %s differs at %s", gen.Show(out), typeStr(vt), d)
				}
				return
			}
			t.Label("decode")
			doc := c27Doc(t, nil, vt, 0)
			t.Key(doc)
			t.Sample(func() string { return typeStr(vt) + " <- " + gen.Show(doc) })
			if len(doc) > 8 {
				t.Nontrivial()
			}
			if !validUTF8(doc) {
				t.Skip()
			}
			a, b := reflect.New(vt), reflect.New(vt)
			if t.P(1, 4) {
				// existing contents
				c27Fill(t, a.Elem(), 3)
				if vt.Kind() != reflect.Slice || vt.Elem().Kind() != reflect.Uint8 {
					a.Elem().Set(reflect.Zero(vt))
				}
			}
			stdErr := json.Unmarshal(doc, b.Interface())
			in := clone(doc)
			e := pickEntry(t)
			err := e.f(jzon.DefaultDecoderConfig, t, in, a.Interface())
			if (err == nil) != (stdErr == nil) {
				t.Failf("%s: error %v, encoding/json %v; %s into %s", e.name, err, stdErr, gen.Show(doc), typeStr(vt))
			}
			if err != nil {
				t.Label("error")
				return
			}
			for i := range in {
				in[i] = '#'
			}
			if d := ref.Diff(a.Interface(), b.Interface()); d != "" {
				t.Failf("%s: differs at %s; %s into %s", e.name, d, gen.Show(doc), typeStr(vt))
			}
			// changing one result does not change another
			switch x := a.Elem().Interface().(type) {
			case [][]byte:
				c27Apart(t, x)
			case [2][]byte:
				c27Apart(t, x[:])
			case map[string][]byte:
				c27Apart(t, [][]byte{x["0"], x["1"]})
			}
		},
	})
}

func c27Apart(t *eng.T, x [][]byte) {
	want := make([][]byte, len(x))
	for i := range x {
		want[i] = clone(x[i])
	}
	for i := range x {
		y := append(x[i], bytes.Repeat([]byte{0xee}, 40)...)
		for k := range y {
			y[k] = 0xdd
		}
		for k := range x {
			if k > i && !bytes.Equal(x[k], want[k]) {
				t.Failf("byte slices %d and %d of one document share memory", i, k)
			}
		}
	}
}
