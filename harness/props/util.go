// Package props states the properties as executable checks over generated
// cases.
package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/zerosnake0/jzon"

	"verif/eng"
	"verif/gen"
	"verif/ref"
)

const stdNote = "the standard library's encoding/json of go1.23.12 is a correct reference on the domain of the property"
const refNote = "the reference RFC 8259 parser in harness/ref is correct"

var ifaceT = reflect.TypeOf((*interface{})(nil)).Elem()

// freshDec returns a decoder config with a cold cache most of the time.
func freshDec(t *eng.T) *jzon.DecoderConfig { return jzon.NewDecoderConfig(nil) }

// toNumber is the UseNumber conversion of the reference.
func toNumber(lit string) interface{} { return json.Number(lit) }

// atEOF tells if only whitespace remains.
func atEOF(it *jzon.Iterator) bool {
	_, err := it.NextValueType()
	return err == io.EOF
}

// errStr renders an error.
func errStr(err error) string {
	if err == nil {
		return "<nil>"
	}
	return err.Error()
}

// reason tells if err is target or is a decode error wrapping target.
func reason(err, target error) bool {
	if err == nil {
		return false
	}
	if err == target {
		return true
	}
	return strings.HasPrefix(err.Error(), target.Error()+" (near ")
}

// clone copies bytes.
func clone(b []byte) []byte { return append([]byte(nil), b...) }

// typeStr renders a type for logs.
func typeStr(ty reflect.Type) string {
	s := ty.String()
	if len(s) > 700 {
		s = s[:700] + "…"
	}
	return s
}

// stdNorm rewrites the escapes \b and \f of the standard library as \u
// escapes, as this library writes them.
func stdNorm(b []byte) []byte {
	if bytes.IndexByte(b, '\\') < 0 {
		return b
	}
	out := make([]byte, 0, len(b)+16)
	for i := 0; i < len(b); i++ {
		if b[i] != '\\' || i+1 >= len(b) {
			out = append(out, b[i])
			continue
		}
		switch b[i+1] {
		case 'b':
			out = append(out, `\u0008`...)
		case 'f':
			out = append(out, `\u000c`...)
		default:
			out = append(out, b[i], b[i+1])
		}
		i++
	}
	return out
}

// sameJSON compares an output with the expected one: byte for byte, or up to
// the order of object members when unordered is set. It returns "" when equal.
func sameJSON(got, want []byte, unordered bool) string {
	want = stdNorm(want)
	if bytes.Equal(got, want) {
		return ""
	}
	got = stdNorm(got)
	if bytes.Equal(got, want) {
		return ""
	}
	if unordered {
		a, st := ref.Document(got)
		if st != ref.OK {
			return fmt.Sprintf("output is not valid JSON: %s", gen.Show(got))
		}
		b, st := ref.Document(want)
		if st == ref.OK && len(got) == len(want) && a.Canon(true) == b.Canon(true) {
			return ""
		}
	}
	return fmt.Sprintf("got  %s\nwant %s", gen.Show(got), gen.Show(want))
}

// mutable tells if a byte slice is UTF-8 (the domain on which string results
// are compared).
func validUTF8(b []byte) bool { return utf8.Valid(b) }

// show renders a value for logs.
func show(v interface{}) string {
	s := fmt.Sprintf("%#v", v)
	if b, err := json.Marshal(v); err == nil {
		s = string(b)
	}
	if len(s) > 500 {
		s = s[:500] + "…"
	}
	return s
}

// unmarshalers are the whole document entry points.
type entry struct {
	name string
	f    func(cfg *jzon.DecoderConfig, t *eng.T, data []byte, v interface{}) error
}

var wholeDoc = []entry{
	{"DecoderConfig.Unmarshal", func(cfg *jzon.DecoderConfig, t *eng.T, data []byte, v interface{}) error {
		return cfg.Unmarshal(data, v)
	}},
	{"DecoderConfig.UnmarshalFromString", func(cfg *jzon.DecoderConfig, t *eng.T, data []byte, v interface{}) error {
		return cfg.UnmarshalFromString(string(data), v)
	}},
	{"DecoderConfig.UnmarshalFromReader", func(cfg *jzon.DecoderConfig, t *eng.T, data []byte, v interface{}) error {
		return cfg.UnmarshalFromReader(gen.Chunked(t, data), v)
	}},
	{"Iterator.Unmarshal", func(cfg *jzon.DecoderConfig, t *eng.T, data []byte, v interface{}) error {
		it := cfg.NewIterator()
		defer it.Release()
		return it.Unmarshal(data, v)
	}},
	{"Iterator.UnmarshalFromReader", func(cfg *jzon.DecoderConfig, t *eng.T, data []byte, v interface{}) error {
		it := cfg.NewIterator()
		defer it.Release()
		return it.UnmarshalFromReader(gen.Chunked(t, data), v)
	}},
	{"Decoder.Decode then end", func(cfg *jzon.DecoderConfig, t *eng.T, data []byte, v interface{}) error {
		d := cfg.NewDecoder(gen.Chunked(t, data))
		defer d.Release()
		if err := d.Decode(v); err != nil {
			return err
		}
		if d.More() {
			return jzon.ErrDataRemained
		}
		return nil
	}},
	{"Iterator.Reset(bytes.Buffer).ReadVal then end", func(cfg *jzon.DecoderConfig, t *eng.T, data []byte, v interface{}) error {
		it := cfg.NewIterator()
		defer it.Release()
		it.Reset(bytes.NewBuffer(data))
		if err := it.ReadVal(v); err != nil {
			return err
		}
		if !atEOF(it) {
			return jzon.ErrDataRemained
		}
		return nil
	}},
}

// pickEntry draws an entry point, the plain one most of the time.
func pickEntry(t *eng.T) entry {
	return wholeDoc[t.W(6, 1, 3, 1, 1, 2, 1)]
}
