package props

import (
	"errors"
	"fmt"
	"io"
	"strconv"

	"github.com/zerosnake0/jzon"

	"verif/eng"
	"verif/gen"
	"verif/ref"
)

var errCB = errors.New("callback error")

// errors a callback may return, among them those the library itself uses
var cbErrors = []error{errCB, io.EOF, io.ErrUnexpectedEOF, jzon.ErrDataRemained, jzon.ErrPointerReceiver, jzon.UnknownFieldError("x")}

var kindOf = map[jzon.ValueType]ref.Kind{
	jzon.StringValue: ref.Str, jzon.NumberValue: ref.Num, jzon.ObjectValue: ref.Obj,
	jzon.ArrayValue: ref.Arr, jzon.BoolValue: ref.Bool, jzon.NullValue: ref.Null,
}

// skipped stands for a value that was not read
type skipped struct{}

func skipOne(t *eng.T, it *jzon.Iterator, vt jzon.ValueType) error {
	var err error
	switch t.Int(4) {
	case 0:
		return it.Skip()
	case 1:
		_, err = it.SkipRaw()
		return err
	case 2:
		_, err = it.ReadRaw()
		return err
	}
	switch vt {
	case jzon.ArrayValue:
		return it.SkipArray()
	case jzon.ObjectValue:
		return it.SkipObject()
	case jzon.StringValue:
		return it.SkipString()
	case jzon.NumberValue:
		return it.SkipNumber()
	}
	return it.Skip()
}

// fill puts the wanted value in the place of every value left out.
func fill(got, want interface{}) interface{} {
	switch g := got.(type) {
	case skipped:
		return want
	case []interface{}:
		if w, ok := want.([]interface{}); ok {
			for i := range g {
				if i < len(w) {
					g[i] = fill(g[i], w[i])
				}
			}
		}
	case map[string]interface{}:
		if w, ok := want.(map[string]interface{}); ok {
			for k := range g {
				if x, ok := w[k]; ok {
					g[k] = fill(g[k], x)
				}
			}
		}
	}
	return got
}

type nav struct {
	t    *eng.T
	it   *jzon.Iterator
	stop int // visit after which a callback fails (-1: never)
	n    int
	open int // containers whose callback is being used

	fail   error // what the failing callback returns
	late   bool  // fails after having read its value
	failed bool
}

// value reads the next value by navigation; only the public navigation
// methods decide what is read.
func (v *nav) value(depth int) (interface{}, error) {
	t, it := v.t, v.it
	if t.P(1, 12) { // leave the whole value to a generic read
		return it.Read()
	}
	vt, err := it.NextValueType()
	if err != nil {
		return nil, err
	}
	if t.P(1, 12) { // leave it out
		return skipped{}, skipOne(t, it, vt)
	}
	for t.P(1, 5) { // asking again changes nothing
		vt2, err := it.NextValueType()
		if err != nil || vt2 != vt {
			t.Failf("NextValueType: %v then %v %v", vt, vt2, err)
		}
	}
	switch vt {
	case jzon.StringValue:
		switch t.Int(3) {
		case 0:
			return it.ReadString()
		case 1:
			b, err := it.ReadStringAsSlice()
			return string(b), err
		default:
			b, err := it.ReadStringAndAppend(nil)
			return string(b), err
		}
	case jzon.NumberValue:
		switch t.Int(3) {
		case 0:
			return it.ReadFloat64()
		case 1:
			n, err := it.ReadNumber()
			if err != nil {
				return nil, err
			}
			return strconv.ParseFloat(string(n), 64)
		default:
			b, err := it.SkipRaw()
			if err != nil {
				return nil, err
			}
			return strconv.ParseFloat(string(b), 64)
		}
	case jzon.BoolValue:
		return it.ReadBool()
	case jzon.NullValue:
		return nil, it.ReadNull()
	case jzon.ArrayValue:
		r := []interface{}{}
		one := func() error {
			v.n++
			if v.open > 0 && v.n == v.stop && !v.late {
				v.failed = true
				return v.fail
			}
			x, err := v.value(depth + 1)
			if err == nil && v.open > 0 && !v.failed && v.stop > 0 && v.n >= v.stop && v.late {
				v.failed = true
				return v.fail
			}
			r = append(r, x)
			return err
		}
		if t.Bool() {
			v.open++
			err := it.ReadArrayCB(func(i2 *jzon.Iterator) error {
				if i2 != it {
					t.Failf("ReadArrayCB: another iterator")
				}
				return one()
			})
			v.open--
			return r, err
		}
		more, err := it.ReadArrayBegin()
		for more && err == nil {
			if err = one(); err != nil {
				return nil, err
			}
			more, err = it.ReadArrayMore()
		}
		if more && err != nil {
			t.Failf("ReadArray: more together with the error %v", err)
		}
		return r, err
	case jzon.ObjectValue:
		r := map[string]interface{}{}
		one := func(f string) error {
			v.n++
			if v.open > 0 && v.n == v.stop && !v.late {
				v.failed = true
				return v.fail
			}
			x, err := v.value(depth + 1)
			if err == nil && v.open > 0 && !v.failed && v.stop > 0 && v.n >= v.stop && v.late {
				v.failed = true
				return v.fail
			}
			r[f] = x
			return err
		}
		if t.Bool() {
			v.open++
			err := it.ReadObjectCB(func(i2 *jzon.Iterator, f string) error {
				if i2 != it {
					t.Failf("ReadObjectCB: another iterator")
				}
				return one(f)
			})
			v.open--
			return r, err
		}
		more, f, err := it.ReadObjectBegin()
		for more && err == nil {
			if err = one(f); err != nil {
				return nil, err
			}
			more, f, err = it.ReadObjectMore()
		}
		if more && err != nil {
			t.Failf("ReadObject: more together with the error %v", err)
		}
		return r, err
	}
	return nil, fmt.Errorf("value type %v", vt)
}

// c09Wrong: reading a value with a method made for another kind is an error.
func c09Wrong(t *eng.T, text []byte, n *ref.Node) {
	first := text[n.Start]
	var op *iterOp
	for {
		op = &iterOps[t.Int(len(iterOps))]
		if op.fits != "" && !fits(op, first) {
			break
		}
	}
	it := newIter(t, jzon.DefaultDecoderConfig, clone(text))
	defer it.Release()
	if _, err := op.f(it); err == nil {
		t.Failf("%s: no error for %s", op.name, gen.Show(text))
	}
}

func init() {
	eng.Register(&eng.Prop{
		ID:          "C09",
		Rule:        "a case is a text (valid, or damaged by up to 3 edits) walked completely by value types, array/object begin and more, callbacks, scalar reads and skips chosen at random at every value, from bytes or a chunked reader; non-trivial: the text has a container. the walk succeeds if and only if the text is valid, and builds the value of the text; a failing callback ends the walk with its own error; a method of another kind fails",
		Assumptions: []string{refNote},
		Quick:       3200000, Thorough: 80000000,
		Run: func(t *eng.T) {
			j := gen.DefaultJ()
			j.LongStr = 700
			j.NoHuge = true
			j.MaxDepth = t.Range(1, 6)
			j.Budget = t.Range(3, 40)
			var text []byte
			switch t.W(8, 5, 2) {
			case 0:
				text = gen.DocJ(t, j)
			case 1:
				j.MaxElems = 3
				text = gen.Mutate(t, gen.DocJ(t, j), 3)
			default:
				text = gen.Snippet(t)
			}
			if !validUTF8(text) {
				t.Skip()
			}
			node, st := ref.Document(text)
			ok := st == ref.OK
			if ok {
				if _, fin := node.Interface(nil); !fin {
					t.Skip() // a number out of range
				}
			}
			t.Key(text)
			t.Sample(func() string { return gen.Show(text) })
			if indexAny(text, "[{") {
				t.Nontrivial()
			}
			it := newIter(t, jzon.DefaultDecoderConfig, clone(text))
			defer it.Release()
			v := &nav{t: t, it: it, stop: -1}
			if ok && t.P(1, 6) {
				v.stop = t.Range(1, 8)
				v.late = t.Bool()
				v.fail = cbErrors[t.Int(len(cbErrors))]
			}
			got, err := v.value(0)
			if v.failed {
				t.Label("callback error")
				if err != v.fail {
					t.Failf("walk: error %v where a callback returned %v over %s", err, v.fail, gen.Show(text))
				}
				return
			}
			if err == nil && !atEOF(it) {
				err = jzon.ErrDataRemained
			}
			if (err == nil) != ok {
				t.Failf("walk: error %v over %s (valid: %v)", err, gen.Show(text), ok)
			}
			if !ok {
				t.Label("invalid")
				return
			}
			t.Label("valid")
			w, _ := node.Interface(nil)
			if d := ref.Diff(fill(got, w), w); d != "" {
				t.Failf("walk: differs at %s over %s", d, gen.Show(text))
			}
			vt, _ := newIterType(text)
			if kindOf[vt] != node.Kind {
				t.Failf("NextValueType: %v for %s", vt, gen.Show(text))
			}
			c09Wrong(t, text, node)
		},
	})
}

func newIterType(text []byte) (jzon.ValueType, error) {
	it := jzon.NewIterator()
	defer it.Release()
	it.ResetBytes(text)
	return it.NextValueType()
}
