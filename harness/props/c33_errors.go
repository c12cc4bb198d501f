package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/zerosnake0/jzon"

	"verif/eng"
	"verif/gen"
	"verif/ref"
)

// verdict is what the reference says about a text that is not one document.
type verdict struct {
	short bool // the text is the beginning of a document
	rest  bool // a value followed by something else
	pos   int  // of the first byte that cannot follow, when not short
	tok   int  // start of the token this byte belongs to
}

func judge(text []byte) (v verdict, bad bool) {
	_, st := ref.Document(text)
	switch st {
	case ref.OK:
		return v, false
	case ref.Short:
		v.short = true
		v.pos = len(text)
	default:
		lo, hi := 0, len(text) // text[:lo] is not invalid, text[:hi] is
		for hi-lo > 1 {
			m := (lo + hi) / 2
			if _, st := ref.Document(text[:m]); st == ref.Invalid {
				hi = m
			} else {
				lo = m
			}
		}
		v.pos = lo
		if n, st := ref.Prefix(text, 0); st == ref.OK {
			v.rest = true
			_ = n
		}
	}
	// the token: a string begins at its quote, other tokens at the last
	// byte that belongs to no number or word
	inStr := false
	for i := 0; i < v.pos; i++ {
		c := text[i]
		switch {
		case inStr && c == '\\':
			i++
		case c == '"':
			inStr = !inStr
			v.tok = i
		}
	}
	if !inStr {
		v.tok = v.pos
		for v.tok > 0 && !ref.IsWS(text[v.tok-1]) && bytes.IndexByte([]byte("[]{},:\""), text[v.tok-1]) < 0 {
			v.tok--
		}
	}
	return v, true
}

// names tells if the message of an error ends with the byte.
func names(msg string, c byte) bool {
	for _, f := range []string{" %q", " %x found", " \\%x found"} {
		if strings.HasSuffix(msg, fmt.Sprintf(f, c)) {
			return true
		}
	}
	return false
}

// split divides the text of a DecodeError.
func splitErr(err error) (reason, loc string, ok bool) {
	m := err.Error()
	i := strings.Index(m, " (near ")
	if i < 0 || !strings.HasSuffix(m, ")") {
		return m, "", false
	}
	return m[:i], m[i+7 : len(m)-1], true
}

// c33Reads read one value without a type. They return the error of the value
// or, after a value, ErrDataRemained when something follows.
var c33Reads = []struct {
	name string
	f    func(it *jzon.Iterator) error
}{
	{"Skip", (*jzon.Iterator).Skip},
	{"SkipRaw", func(it *jzon.Iterator) error { _, err := it.SkipRaw(); return err }},
	{"ReadRaw", func(it *jzon.Iterator) error { _, err := it.ReadRaw(); return err }},
	{"AppendRaw", func(it *jzon.Iterator) error { _, err := it.AppendRaw([]byte("x")); return err }},
	{"Read", func(it *jzon.Iterator) error { _, err := it.Read(); return err }},
	{"ReadVal(*interface{})", func(it *jzon.Iterator) error { var x interface{}; return it.ReadVal(&x) }},
	{"ReadVal(*RawMessage)", func(it *jzon.Iterator) error { var x json.RawMessage; return it.ReadVal(&x) }},
}

func checkReason(t *eng.T, what string, err error, v verdict, text []byte) {
	if err == nil {
		t.Failf("%s: accepted %s", what, gen.Show(text))
	}
	r, _, _ := splitErr(err)
	switch {
	case v.short:
		if r != io.EOF.Error() {
			t.Failf("%s: the text is cut off, the error is %q for %s", what, err, gen.Show(text))
		}
	case v.rest:
		if r != jzon.ErrDataRemained.Error() {
			t.Failf("%s: a value and more, the error is %q for %s", what, err, gen.Show(text))
		}
	default:
		if !names(r, text[v.pos]) {
			t.Failf("%s: the text goes wrong at byte %d (%q), the error is %q for %s", what, v.pos, text[v.pos], err, gen.Show(text))
		}
	}
}

func c33Untyped(t *eng.T) {
	text := c01Doc(t)
	v, bad := judge(text)
	if !bad {
		t.Label("valid")
		return
	}
	t.Key(text)
	t.Sample(func() string { return gen.Show(text) })
	switch {
	case v.short:
		t.Label("cut")
	case v.rest:
		t.Label("rest")
	default:
		t.Label("malformed")
	}
	if len(text) > 3 {
		t.Nontrivial()
	}
	for k := 0; k < 2; k++ {
		op := c33Reads[t.Int(len(c33Reads))]
		it := numCfg.NewIterator()
		what := op.name
		if t.Bool() {
			it.ResetBytes(clone(text))
		} else {
			it.Reset(gen.Chunked(t, clone(text)))
			what += " (reader)"
		}
		err := op.f(it)
		if err == nil {
			if _, err = it.NextValueType(); err == nil {
				err = jzon.ErrDataRemained
			}
		}
		checkReason(t, what, err, v, text)
		// the error with its place
		we := it.WrapError(err)
		what += ", WrapError"
		checkReason(t, what, we, v, text)
		if !reason(we, err) {
			t.Failf("%s: wraps another error: %v", what, we)
		}
		if again := it.WrapError(we); again != we {
			t.Failf("%s: an error with its place is wrapped once more: %v", what, again)
		}
		c33Loc(t, what, we, v, text, !strings.Contains(what, "reader"))
		it.Release()
	}
	// the whole document
	var x interface{} = new(interface{})
	if t.Bool() {
		x = new(json.RawMessage)
	}
	e := wholeDoc[t.Int(len(wholeDoc))]
	err := e.f(numCfg, t, clone(text), x)
	checkReason(t, e.name, err, v, text)
	if strings.HasPrefix(e.name, "DecoderConfig.") {
		c33Loc(t, e.name, err, v, text, !strings.Contains(e.name, "Reader"))
	}
}

// c33Loc checks the place named by the error.
func c33Loc(t *eng.T, what string, err error, v verdict, text []byte, mem bool) {
	if _, ok := err.(*jzon.DecodeError); !ok {
		t.Failf("%s: the error is a %T", what, err)
	}
	_, loc, ok := splitErr(err)
	if !ok {
		t.Failf("%s: no place in %q", what, err)
	}
	lo, hi := v.tok-20, v.pos+21
	if lo < 0 {
		lo = 0
	}
	if hi > len(text) {
		hi = len(text)
	}
	where := text[lo:hi]
	if loc == "" && mem && len(text) > 0 { // nothing may be left in a buffer
		t.Failf("%s: empty place in %q for %s", what, err, gen.Show(text))
	}
	if !bytes.Contains(where, []byte(loc)) {
		t.Failf("%s: the text goes wrong at byte %d, the place is %q for %s", what, v.pos, loc, gen.Show(text))
	}
}

func c33Typed(t *eng.T) {
	g := &gen.TG{T: t, Dec: true, MaxDepth: t.Range(0, 4)}
	ty := g.Type(0, true)
	cfg := jzon.NewDecoderConfig(nil)
	wrong := []int{0, 0, 30}[t.Int(3)]
	dg := &gen.DG{T: t, Wrong: wrong, WS: t.Int(3)}
	doc := dg.Doc(ty)
	t.Sample(func() string { return typeStr(ty) + " <- " + gen.Show(doc) })
	t.Key(doc)
	if !ref.Valid(doc) {
		t.Skip()
	}
	if len(doc) > 3 {
		t.Nontrivial()
	}
	e := pickEntry(t)
	err := e.f(cfg, t, clone(doc), reflect.New(ty).Interface())
	if err != nil {
		t.Label("whole document refused")
		if reason(err, io.EOF) {
			t.Failf("%s into %s: %v for the whole document %s", e.name, typeStr(ty), err, gen.Show(doc))
		}
		return
	}
	t.Label("cut documents")
	for k := 0; k < 3; k++ {
		cut := doc[:t.Int(len(doc))]
		if _, st := ref.Document(cut); st != ref.Short {
			continue
		}
		e := pickEntry(t)
		err := e.f(cfg, t, clone(cut), reflect.New(ty).Interface())
		if !reason(err, io.EOF) {
			t.Failf("%s into %s: the error is %v for the cut off %s (of %s)", e.name, typeStr(ty), err, gen.Show(cut), gen.Show(doc))
		}
	}
}

// nodes lists a value and all values below it.
func nodes(n *ref.Node, l []*ref.Node) []*ref.Node {
	l = append(l, n)
	for _, e := range n.Elems {
		l = nodes(e, l)
	}
	for _, e := range n.Vals {
		l = nodes(e, l)
	}
	return l
}

// c33Place: one value of a document that fits is replaced by one that does not.
func c33Place(t *eng.T) {
	g := &gen.TG{T: t, Dec: true, NoMethods: true, MaxDepth: t.Range(0, 4)}
	ty := g.Type(0, true)
	cfg := jzon.NewDecoderConfig(nil)
	doc := (&gen.DG{T: t, WS: t.Int(3)}).Doc(ty)
	if t.P(1, 3) { // one of many
		ty = reflect.SliceOf(ty)
		l := []byte("[")
		at := t.Int(60)
		for i := 0; i < 60; i++ {
			if i > 0 {
				l = append(l, ',')
			}
			if i == at {
				l = append(l, doc...)
			} else {
				l = append(l, "null"...)
			}
		}
		doc = append(l, ']')
	}
	n, st := ref.Document(doc)
	if st != ref.OK || jzon.NewDecoderConfig(nil).Unmarshal(clone(doc), reflect.New(ty).Interface()) != nil {
		t.Skip()
	}
	l := nodes(n, nil)
	x := l[t.Int(len(l))]
	rep := t.Str("true", "[]", "{}", "[[1]]", `{"a":{}}`, "-1.5", "99999999999999999999", `"#"`, `"\u0041 string"`)
	text := append(append(clone(doc[:x.Start]), rep...), doc[x.End:]...)
	t.Key(text)
	t.Sample(func() string { return typeStr(ty) + " <- " + gen.Show(text) })
	k := []int{}
	for i := range wholeDoc {
		if strings.HasPrefix(wholeDoc[i].name, "DecoderConfig.") {
			k = append(k, i)
		}
	}
	e := wholeDoc[k[t.Int(len(k))]]
	err := e.f(cfg, t, clone(text), reflect.New(ty).Interface())
	if err == nil {
		t.Label("fits all the same")
		return
	}
	t.Nontrivial()
	t.Label("one value does not fit")
	c33Loc(t, e.name+" into "+typeStr(ty), err, verdict{tok: x.Start, pos: x.Start + len(rep)}, text, !strings.Contains(e.name, "Reader"))
}

// c33Unknown: the error names the first unknown key.
func c33Unknown(t *eng.T) {
	dsts := []interface{}{new(unk1), new(unk3), new(unk12)}
	known := [][]string{{"Only"}, {"A0", "B0", "C0"}, {"A0", "B0", "C0", "D0", "E0", "F0", "G0", "H0", "I0", "J0", "K0", "L0"}}
	i := t.Int(3)
	b := []byte("{")
	want := ""
	found := false
	n := t.Range(1, 8)
	for k := 0; k < n; k++ {
		if k > 0 {
			b = append(b, ',')
		}
		name := known[i][t.Int(len(known[i]))]
		if t.P(1, 3) {
			name = gen.Fold(t, name)
		}
		if t.P(1, 4) {
			name = "z" + gen.GoString(t, false)
			if len(name) > 2000 {
				name = name[:1]
			}
			if !validUTF8([]byte(name)) {
				t.Skip()
			}
			if !found {
				want, found = name, true
			}
		}
		b = gen.KeyLit(t, b, name)
		b = append(b, ":1"...)
	}
	b = append(b, '}')
	cfg := jzon.NewDecoderConfig(&jzon.DecoderOption{DisallowUnknownFields: true})
	e := pickEntry(t)
	t.Sample(func() string { return gen.Show(b) })
	t.Key(b)
	if found {
		t.Nontrivial()
		t.Label("unknown")
	}
	err := e.f(cfg, t, clone(b), dsts[i])
	if !found {
		if err != nil {
			t.Failf("%s: %v for %s", e.name, err, gen.Show(b))
		}
		return
	}
	if err == nil || !reason(err, jzon.UnknownFieldError(want)) {
		t.Failf("%s: unknown key %q, the error is %v for %s", e.name, want, err, gen.Show(b))
	}
}

func init() {
	eng.Register(&eng.Prop{
		ID:          "C33",
		Rule:        "a case is a text that is not one document (a prefix, a damaged document, a document and more) read without a type by two reads and one whole-document call; or a type and a document made for it, decoded whole and cut off at 3 places; or a document made for a type with one value replaced; or an object with unknown keys for a struct while they are disallowed; non-trivial: more than 3 bytes (with unknown keys: one is there)",
		Assumptions: []string{refNote},
		Quick:       900000, Thorough: 50000000,
		Run: func(t *eng.T) {
			switch t.W(6, 3, 1, 2) {
			case 3:
				c33Place(t)
			case 0:
				c33Untyped(t)
			case 1:
				c33Typed(t)
			default:
				c33Unknown(t)
			}
		},
	})
}
