package props

import (
	"bytes"
	"errors"
	"io"
	"reflect"

	"github.com/zerosnake0/jzon"

	"verif/cat"
	"verif/eng"
	"verif/gen"
	"verif/ref"
)

var c24Errs = []error{errors.New("source broke"), io.ErrUnexpectedEOF, io.ErrClosedPipe, jzon.ErrDataRemained, io.ErrNoProgress}

// continuations of a text used to find out whether an operation looks beyond
// its end.
var c24Ext = []string{" ", "0", "x", ",", "\"", "]", ".5"}

// needsMore tells if the result of an operation on a text depends on what
// comes after the text; the operation succeeds at the end of the text.
func needsMore(cfg *jzon.DecoderConfig, op iterOp, text []byte, av interface{}, rest int) bool {
	it := cfg.NewIterator()
	defer it.Release()
	for _, x := range c24Ext {
		in := append(clone(text), x...)
		it.ResetBytes(in)
		v, err := op.f(it)
		if err != nil || len(it.Buffer()) != rest+len(x) || ref.Diff(v, av) != "" {
			return true
		}
	}
	return false
}

// c24Walk does the same operations on a text in memory and on a reader that
// fails after the text.
func c24Walk(t *eng.T) {
	t.Label("walk")
	j := gen.DefaultJ()
	j.LongStr = 1500
	j.Budget = t.Range(3, 40)
	j.MaxDepth = t.Range(0, 5)
	var text []byte
	var first iterOp
	switch t.W(4, 4) {
	case 0:
		text = stream(t, j, t.Range(1, 4))
	default:
		vt := valTypes[t.Int(len(valTypes))]
		dg := &gen.DG{T: t, WS: t.Int(3), Wrong: 5}
		text = dg.Doc(vt)
		first = valOp(vt)
	}
	if t.P(1, 20) {
		text = gen.Mutate(t, text, 1)
	}
	var then []byte
	if len(text) > 0 && t.P(3, 4) {
		n := t.Range(1, len(text))
		then = clone(text[n:])
		text = text[:n:n]
	}
	t.Key(text)
	cfg := jzon.DefaultDecoderConfig
	if t.P(1, 5) {
		cfg = numCfg
	}
	fail := c24Errs[t.Int(len(c24Errs))]
	r := gen.Chunked(t, clone(text))
	r.Err = fail
	if t.P(1, 3) {
		r.Then = then // the source recovers
	}
	a, b := cfg.NewIterator(), cfg.NewIterator()
	defer a.Release()
	defer b.Release()
	a.ResetBytes(clone(text))
	b.Reset(r)
	t.Sample(func() string { return gen.Show(text) + " then " + fail.Error() })
	var names []string
	for k := 0; k < 12; k++ {
		op := first
		if k > 0 || first.f == nil {
			rest := bytes.TrimLeft(a.Buffer(), " \t\r\n")
			var c byte
			if len(rest) > 0 {
				c = rest[0]
			}
			op = pickOp(t, c)
		}
		names = append(names, op.name)
		before := clone(a.Buffer())
		av, aerr := op.f(a)
		bv, berr := op.f(b)
		switch {
		case aerr == io.EOF:
			if berr != fail {
				t.Failf("%v: the source failed with %q but the error is %v; text %s cuts %v rest %d", names, fail, berr, gen.Show(text), r.Cuts, r.Rest)
			}
			t.Label("failed in a value")
			t.Nontrivial()
			return
		case aerr != nil:
			if berr == nil {
				t.Failf("%v: fails from memory (%v) but not from the failing source; text %s", names, aerr, gen.Show(text))
			}
			return
		case berr == fail:
			if !needsMore(cfg, op, before, av, len(a.Buffer())) {
				t.Failf("%v: the failure %q of the source is reported by an operation that is complete before; text %s", names, fail, gen.Show(text))
			}
			t.Label("failed after a value")
			t.Nontrivial()
			return
		case berr != nil:
			t.Failf("%v: error %v, from memory there is none; text %s", names, berr, gen.Show(text))
		default:
			if d := ref.Diff(av, bv); d != "" {
				t.Failf("%v: differs at %s, text %s", names, d, gen.Show(text))
			}
			if len(a.Buffer()) == 0 && needsMore(cfg, op, before, av, len(a.Buffer())) {
				t.Failf("%v: the value was complete only at the end of the text, but the failure %q of the source is not reported; text %s", names, fail, gen.Show(text))
			}
		}
		if k >= 2 {
			t.Nontrivial()
		}
	}
}

// c24Decoder: the first error of a decoder stays, without further reading.
func c24Decoder(t *eng.T) {
	t.Label("decoder")
	text := concat(t)
	if t.Bool() {
		text = gen.Mutate(t, text, 1)
	}
	cut := t.P(1, 3) && len(text) > 1
	var then []byte
	if cut {
		n := t.Range(1, len(text)-1)
		then = clone(text[n:])
		text = text[:n:n]
	}
	t.Key(text)
	t.Sample(func() string { return gen.Show(text) })
	r := gen.Chunked(t, clone(text))
	var fail error = io.EOF
	if t.Bool() {
		fail = c24Errs[t.Int(len(c24Errs))]
		r.Err = fail
		if t.Bool() {
			r.Then = then // the source recovers
		}
	}
	d := jzon.NewDecoder(r)
	defer d.Release()
	var first error
	good := 0
	for k := 0; k < 12; k++ {
		var v interface{} = "before"
		var iv = 77
		isInt := t.P(1, 5)
		reads := r.Reads
		var err error
		if isInt {
			err = d.Decode(&iv)
		} else {
			err = d.Decode(&v)
		}
		if first == nil {
			first = err
			if err == nil {
				good++
				if good > 1 {
					t.Nontrivial()
				}
			}
			continue
		}
		if k > 1 {
			t.Nontrivial()
		}
		if err != first {
			t.Failf("the decoder failed with %v, then gives %v; text %s", first, err, gen.Show(text))
		}
		if v != "before" || iv != 77 {
			t.Failf("a decoder that failed with %v sets the destination; text %s", first, gen.Show(text))
		}
		if d.More() {
			t.Failf("More is true after %v; text %s", first, gen.Show(text))
		}
		if r.Reads != reads {
			t.Failf("a decoder that failed with %v reads on; text %s", first, gen.Show(text))
		}
	}
}

// c24Rest: text after a whole document.
func c24Rest(t *eng.T) {
	t.Label("left-over text")
	var vt reflect.Type = ifaceT
	var doc []byte
	j := gen.DefaultJ()
	if t.Bool() {
		vt = valTypes[t.Int(len(valTypes))]
		dg := &gen.DG{T: t, WS: t.Int(3)}
		doc = dg.Doc(vt)
	} else {
		j.NoHuge = true
		doc = gen.Text(t, nil, j)
	}
	cfg := jzon.DefaultDecoderConfig
	if err := cfg.Unmarshal(clone(doc), reflect.New(vt).Interface()); err != nil {
		t.Skip()
	}
	ws := gen.WS(t, nil, t.Int(3))
	if t.P(1, 8) {
		ws = append(ws, bytes.Repeat([]byte{' '}, t.Range(500, 1100))...)
	}
	last := doc[len(doc)-1]
	if len(ws) == 0 && last != ']' && last != '}' && last != '"' {
		ws = append(ws, '\n')
	}
	var rest []byte
	kind := t.Int(4)
	switch kind {
	case 0:
		rest = gen.Text(t, nil, j)
	case 1:
		rest = []byte{byte(t.Int(256))}
		for ref.IsWS(rest[0]) {
			rest[0] = byte(t.Int(255)) + 1
		}
	case 2:
		rest = []byte{"]},:\x00\xff\xc2\x0b\x0c"[t.Int(9)]}
	}
	text := append(append(clone(doc), ws...), rest...)
	t.Key(text)
	t.Sample(func() string { return typeStr(vt) + " <- " + gen.Show(text) })
	t.Nontrivial()
	p := reflect.New(vt).Interface()
	if kind == 3 {
		// nothing but whitespace, then the source fails
		fail := c24Errs[t.Int(len(c24Errs))]
		r := gen.Chunked(t, text)
		r.Err = fail
		var err error
		if t.Bool() {
			err = cfg.UnmarshalFromReader(r, p)
		} else {
			it := cfg.NewIterator()
			err = it.UnmarshalFromReader(r, p)
			it.Release()
		}
		if !reason(err, fail) {
			t.Failf("the source failed with %q after the document, but the result is %v; text %s", fail, err, gen.Show(text))
		}
		return
	}
	e := pickEntry(t)
	err := e.f(cfg, t, text, p)
	if !reason(err, jzon.ErrDataRemained) {
		t.Failf("%s: text is left over, but the result is %v; text %s into %s", e.name, err, gen.Show(text), typeStr(vt))
	}
	if jzon.Valid(text) {
		t.Failf("Valid with text left over: %s", gen.Show(text))
	}
}

// c24Dest: destinations that cannot be decoded into.
func c24Dest(t *eng.T) {
	t.Label("bad destination")
	t.Nontrivial()
	var dst interface{}
	var wantErr error
	switch t.Int(3) {
	case 0:
		wantErr = jzon.ErrNilPointerReceiver
	case 1:
		g := &gen.TG{T: t, Dec: true, MaxDepth: 2}
		dst = reflect.Zero(reflect.PtrTo(g.Type(0, true))).Interface()
		wantErr = jzon.ErrNilPointerReceiver
	default:
		vals := []interface{}{1, "x", true, 1.5, struct{ A int }{1}, []int{1}, map[string]int{"a": 1}, [2]int{}, cat.JV{}, cat.TStr("q"), []byte("x"), int8(3), uint64(9)}
		dst = vals[t.Int(len(vals))]
		wantErr = jzon.ErrPointerReceiver
	}
	j := gen.DefaultJ()
	j.Budget = 6
	doc := gen.Text(t, nil, j)
	t.Key(append([]byte(reflectName(dst)), doc...))
	t.Sample(func() string { return reflectName(dst) + " <- " + gen.Show(doc) })
	cfg := jzon.NewDecoderConfig(nil)
	if t.Bool() {
		cfg = jzon.DefaultDecoderConfig
	}
	e := pickEntry(t)
	if err := e.f(cfg, t, clone(doc), dst); !reason(err, wantErr) {
		t.Failf("%s into %s: %v in place of %v", e.name, reflectName(dst), err, wantErr)
	}
	it := cfg.NewIterator()
	defer it.Release()
	it.ResetBytes(clone(doc))
	if err := it.ReadVal(dst); err != wantErr {
		t.Failf("ReadVal into %s: %v in place of %v", reflectName(dst), err, wantErr)
	}
	if string(it.Buffer()) != string(doc) {
		t.Failf("ReadVal into %s consumed text", reflectName(dst))
	}
}

func reflectName(v interface{}) string {
	if v == nil {
		return "nil"
	}
	return reflect.TypeOf(v).String()
}

func init() {
	eng.Register(&eng.Prop{
		ID:          "C24",
		Rule:        "a case is a text and a reader that delivers it in pieces and then (or together with the last piece) fails with some error, on which up to 12 operations (38 kinds of reads and typed decodes) are done beside the same on the text in memory: an operation reports exactly that error if and only if it looks beyond the text (found by trying continuations), and otherwise gives the same result; or a decoder on a stream of values, damaged or failing, whose first error must stay, without reading on; or a document with text or a failure after it through a whole-document entry point; or a destination that is not a pointer or nil; non-trivial: the failure was met, or two values were read",
		Assumptions: []string{"the text in memory serves as the reference for the results before the failure"},
		Quick:       1500000, Thorough: 60000000,
		Run: func(t *eng.T) {
			switch t.W(6, 3, 3, 1) {
			case 0:
				c24Walk(t)
			case 1:
				c24Decoder(t)
			case 2:
				c24Rest(t)
			default:
				c24Dest(t)
			}
		},
	})
}
