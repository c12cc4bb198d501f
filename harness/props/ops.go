package props

import (
	"encoding/json"
	"math/big"
	"net"
	"reflect"
	"time"

	"github.com/zerosnake0/jzon"

	"verif/cat"
	"verif/eng"
)

// iterOp is one operation on an iterator; it gives a comparable result.
type iterOp struct {
	name string
	fits string // first characters of the values it reads ("" for any)
	f    func(it *jzon.Iterator) (interface{}, error)
}

const numFirst = "-0123456789"

var iterOps = []iterOp{
	{"Read", "", func(it *jzon.Iterator) (interface{}, error) { return it.Read() }},
	{"Skip", "", func(it *jzon.Iterator) (interface{}, error) { return nil, it.Skip() }},
	{"SkipRaw", "", func(it *jzon.Iterator) (interface{}, error) { b, err := it.SkipRaw(); return string(b), err }},
	{"ReadRaw", "", func(it *jzon.Iterator) (interface{}, error) { b, err := it.ReadRaw(); return string(b), err }},
	{"AppendRaw", "", func(it *jzon.Iterator) (interface{}, error) {
		b, err := it.AppendRaw([]byte("pre"))
		return string(b), err
	}},
	{"NextValueType", "", func(it *jzon.Iterator) (interface{}, error) { return it.NextValueType() }},
	{"SkipArray", "[", func(it *jzon.Iterator) (interface{}, error) { return nil, it.SkipArray() }},
	{"SkipObject", "{", func(it *jzon.Iterator) (interface{}, error) { return nil, it.SkipObject() }},
	{"SkipString", "\"", func(it *jzon.Iterator) (interface{}, error) { return nil, it.SkipString() }},
	{"SkipNumber", numFirst, func(it *jzon.Iterator) (interface{}, error) { return nil, it.SkipNumber() }},
	{"ReadNumber", numFirst, func(it *jzon.Iterator) (interface{}, error) { n, err := it.ReadNumber(); return string(n), err }},
	{"ReadFloat64", numFirst, func(it *jzon.Iterator) (interface{}, error) { return it.ReadFloat64() }},
	{"ReadFloat32", numFirst, func(it *jzon.Iterator) (interface{}, error) { return it.ReadFloat32() }},
	{"ReadInt", numFirst, func(it *jzon.Iterator) (interface{}, error) { return it.ReadInt() }},
	{"ReadInt8", numFirst, func(it *jzon.Iterator) (interface{}, error) { return it.ReadInt8() }},
	{"ReadInt16", numFirst, func(it *jzon.Iterator) (interface{}, error) { return it.ReadInt16() }},
	{"ReadInt32", numFirst, func(it *jzon.Iterator) (interface{}, error) { return it.ReadInt32() }},
	{"ReadInt64", numFirst, func(it *jzon.Iterator) (interface{}, error) { return it.ReadInt64() }},
	{"ReadUint", numFirst, func(it *jzon.Iterator) (interface{}, error) { return it.ReadUint() }},
	{"ReadUint8", numFirst, func(it *jzon.Iterator) (interface{}, error) { return it.ReadUint8() }},
	{"ReadUint16", numFirst, func(it *jzon.Iterator) (interface{}, error) { return it.ReadUint16() }},
	{"ReadUint32", numFirst, func(it *jzon.Iterator) (interface{}, error) { return it.ReadUint32() }},
	{"ReadUint64", numFirst, func(it *jzon.Iterator) (interface{}, error) { return it.ReadUint64() }},
	{"ReadBool", "tf", func(it *jzon.Iterator) (interface{}, error) { return it.ReadBool() }},
	{"ReadNull", "n", func(it *jzon.Iterator) (interface{}, error) { return nil, it.ReadNull() }},
	{"ReadString", "\"", func(it *jzon.Iterator) (interface{}, error) { return it.ReadString() }},
	{"ReadStringAsSlice", "\"", func(it *jzon.Iterator) (interface{}, error) { b, err := it.ReadStringAsSlice(); return string(b), err }},
	{"ReadStringAndAppend", "\"", func(it *jzon.Iterator) (interface{}, error) {
		b, err := it.ReadStringAndAppend([]byte("pre"))
		return string(b), err
	}},
	{"ReadArrayBegin", "[", func(it *jzon.Iterator) (interface{}, error) { return it.ReadArrayBegin() }},
	{"ReadArrayMore", ",]", func(it *jzon.Iterator) (interface{}, error) { return it.ReadArrayMore() }},
	{"ReadObjectBegin", "{", func(it *jzon.Iterator) (interface{}, error) {
		m, f, err := it.ReadObjectBegin()
		return [2]interface{}{m, f}, err
	}},
	{"ReadObjectMore", ",}", func(it *jzon.Iterator) (interface{}, error) {
		m, f, err := it.ReadObjectMore()
		return [2]interface{}{m, f}, err
	}},
	{"ReadArrayCB(Read)", "[", func(it *jzon.Iterator) (interface{}, error) {
		var r []interface{}
		err := it.ReadArrayCB(func(it *jzon.Iterator) error {
			v, err := it.Read()
			r = append(r, v)
			return err
		})
		return r, err
	}},
	{"ReadArrayCB(SkipRaw)", "[", func(it *jzon.Iterator) (interface{}, error) {
		var r []string
		err := it.ReadArrayCB(func(it *jzon.Iterator) error {
			v, err := it.SkipRaw()
			r = append(r, string(v))
			return err
		})
		return r, err
	}},
	{"ReadObjectCB(Read)", "{", func(it *jzon.Iterator) (interface{}, error) {
		var r []interface{}
		err := it.ReadObjectCB(func(it *jzon.Iterator, f string) error {
			v, err := it.Read()
			r = append(r, f, v)
			return err
		})
		return r, err
	}},
	{"ReadObjectCB(Skip)", "{", func(it *jzon.Iterator) (interface{}, error) {
		var r []string
		err := it.ReadObjectCB(func(it *jzon.Iterator, f string) error {
			r = append(r, f)
			return it.Skip()
		})
		return r, err
	}},
}

// valTypes are destinations of ReadVal in walks.
var valTypes = []reflect.Type{
	ty([]interface{}{}), ty(map[string]interface{}{}), ty([]string{}), ty([]float64{}), ty([]int{}), ty(""), ty(0), ty(int8(0)), ty(uint64(0)), ty(0.5), ty(float32(0)), ty(true),
	ty(json.Number("")), ty(json.RawMessage(nil)), ty([]byte(nil)), ty(cat.Tree{}), ty(cat.Big{}), ty(cat.OneField{}), ty(cat.OneK{}), ty(cat.Fold{}), ty(cat.EmbA{}), ty(cat.Out5{}), ty(cat.Out11{}),
	ty(map[int]string{}), ty(map[cat.TInt]interface{}{}), ty([3]interface{}{}), ty([0]int{}), ty(cat.JV{}), ty(cat.JP{}), ty(cat.TV{}), ty(cat.TStr("")), ty(time.Time{}), ty(big.Int{}), ty(net.IP{}),
	ty(struct{}{}), ty((*int)(nil)), ty((**string)(nil)), ty([]json.RawMessage{}), ty(map[string]json.Number{}), ty([]cat.JV{}), ty(struct {
		A interface{}     `json:"a"`
		B json.RawMessage `json:"b"`
		C *float64        `json:"c"`
		D string          `json:"d,omitempty"`
		E []interface{}   `json:"e"`
	}{}), ty(struct {
		A int `json:"a"`
		B string
	}{}),
}

// valOp is ReadVal into a fresh value of the type.
func valOp(ty reflect.Type) iterOp {
	return iterOp{"ReadVal(*" + ty.String() + ")", "", func(it *jzon.Iterator) (interface{}, error) {
		p := reflect.New(ty)
		err := it.ReadVal(p.Interface())
		return p.Interface(), err
	}}
}

func fits(op *iterOp, c byte) bool { return op.fits == "" || indexAny([]byte{c}, op.fits) }

// pickOp draws an operation, most of the time one that fits the next byte.
func pickOp(t *eng.T, next byte) iterOp {
	if t.P(1, 5) {
		vt := valTypes[t.Int(len(valTypes))]
		for k := 0; k < 30 && !typeFits(vt, next); k++ {
			vt = valTypes[t.Int(len(valTypes))]
		}
		return valOp(vt)
	}
	if t.P(1, 20) {
		return iterOps[t.Int(len(iterOps))]
	}
	if next == ':' || next == 0 {
		return iterOps[t.Int(len(iterOps))]
	}
	if indexAny([]byte{next}, ",]}") && !t.P(1, 10) {
		if next == ']' || next == ',' && t.Bool() {
			return opByName["ReadArrayMore"]
		}
		return opByName["ReadObjectMore"]
	}
	for k := 0; k < 40; k++ {
		op := &iterOps[t.Int(len(iterOps))]
		if op.fits == "" && !t.P(1, 3) {
			continue
		}
		if fits(op, next) {
			return *op
		}
	}
	return iterOps[0]
}

var opByName = map[string]iterOp{}

func init() {
	for _, o := range iterOps {
		opByName[o.name] = o
	}
}

// typeFits tells if a value starting with the byte may decode into the type.
func typeFits(vt reflect.Type, c byte) bool {
	switch vt {
	case ty(json.RawMessage(nil)), ty(cat.JV{}), ty(cat.JP{}):
		return true
	case ty(cat.TV{}), ty(cat.TStr("")), ty(time.Time{}), ty(net.IP{}):
		return c == '"' || c == 'n'
	case ty(big.Int{}):
		return c == '1'
	}
	if c == 'n' {
		return true
	}
	for vt.Kind() == reflect.Ptr {
		vt = vt.Elem()
	}
	switch vt.Kind() {
	case reflect.Slice, reflect.Array:
		return c == '['
	case reflect.Map, reflect.Struct:
		return c == '{'
	case reflect.Bool:
		return c == 't' || c == 'f'
	case reflect.String:
		return c == '"'
	}
	return c == '-' || c >= '0' && c <= '9'
}
