package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"strings"

	"github.com/zerosnake0/jzon"

	"verif/cat"
	"verif/eng"
	"verif/gen"
	"verif/ref"
)

// panicky panics in its methods.
type panicky struct{ N int }

func (p *panicky) UnmarshalJSON(b []byte) error { panic("user panic") }
func (p panicky) MarshalJSON() ([]byte, error)  { panic("user panic") }

type c22Held struct {
	what string
	got  interface{}
	want interface{}
}

type c22Live struct {
	dec   *jzon.Decoder
	it    *jzon.Iterator
	vals  []interface{} // expected values
	texts [][]byte      // their texts
	i     int
}

type c22Stream struct {
	s    *jzon.Streamer
	w    bytes.Buffer
	want []byte
	open bool
	n    int
	html bool
}

type c22 struct {
	t     *eng.T
	held  []c22Held
	bufs  [][]byte // buffers owned by the user: inputs and outputs
	live  []*c22Live
	strs  []*c22Stream
	rel   *c22Rel
	reuse *jzon.Iterator // reset again and again, at any point of its text
	dec   *jzon.DecoderConfig
	enc   *jzon.EncoderConfig
	trace []string
}

func (c *c22) log(f string, a ...interface{}) {
	c.trace = append(c.trace, fmt.Sprintf(f, a...))
}

func (c *c22) failf(f string, a ...interface{}) {
	c.t.Failf("%s\nafter:\n  %s", fmt.Sprintf(f, a...), strings.Join(c.trace, "\n  "))
}

// verify compares everything the user still holds with what it was.
func (c *c22) verify() {
	for _, h := range c.held {
		if d := ref.Diff(h.got, h.want); d != "" {
			c.failf("%s: changed or wrong at %s", h.what, d)
		}
	}
}

func (c *c22) doc() ([]byte, interface{}) {
	j := gen.DefaultJ()
	j.Budget, j.LongStr, j.NoHuge = 12, 400, true
	text := gen.DocJ(c.t, j)
	n, st := ref.Document(text)
	if st != ref.OK {
		c.t.Skip()
	}
	v, ok := n.Interface(nil)
	if !ok {
		c.t.Skip()
	}
	return text, v
}

func (c *c22) decodeGeneric() {
	t := c.t
	text, want := c.doc()
	buf := clone(text)
	var got interface{}
	e := pickEntry(t)
	if err := e.f(c.dec, t, buf, &got); err != nil {
		c.failf("%s of %s: %v", e.name, gen.Show(text), err)
	}
	if !bytes.Equal(buf, text) {
		c.failf("%s: the input was modified", e.name)
	}
	c.log("%s of %s", e.name, gen.Show(text))
	c.held = append(c.held, c22Held{e.name + " of " + gen.Show(text), got, want})
	c.bufs = append(c.bufs, buf)
}

func (c *c22) decodeTyped() {
	t := c.t
	g := &gen.TG{T: t, Dec: true, MaxDepth: t.Range(0, 2)}
	ty := g.Type(0, true)
	dg := &gen.DG{T: t}
	text := dg.Doc(ty)
	if !validUTF8(text) || numberInString(ty) && numEscape.Match(text) {
		return
	}
	want := reflect.New(ty)
	if json.Unmarshal(text, want.Interface()) != nil {
		return
	}
	got := reflect.New(ty)
	buf := clone(text)
	e := pickEntry(t)
	if err := e.f(c.dec, t, buf, got.Interface()); err != nil {
		c.failf("%s of %s into %s: %v", e.name, gen.Show(text), typeStr(ty), err)
	}
	if !bytes.Equal(buf, text) {
		c.failf("%s: the input was modified", e.name)
	}
	c.log("%s of %s into %s", e.name, gen.Show(text), typeStr(ty))
	c.held = append(c.held, c22Held{e.name + " of " + gen.Show(text) + " into " + typeStr(ty), got.Interface(), want.Interface()})
	c.bufs = append(c.bufs, buf)
}

// walk reads a value piece by piece and keeps all pieces.
func (c *c22) walk(it *jzon.Iterator, n *ref.Node, text []byte, names *[]string, want *[]string) error {
	t := c.t
	switch n.Kind {
	case ref.Obj:
		more, name, err := it.ReadObjectBegin()
		for i := 0; i < len(n.Keys); i++ {
			if err != nil {
				return err
			}
			if !more {
				return fmt.Errorf("%d members", i)
			}
			*names, *want = append(*names, name), append(*want, n.Keys[i])
			if err = c.walk(it, n.Vals[i], text, names, want); err != nil {
				return err
			}
			more, name, err = it.ReadObjectMore()
		}
		if err == nil && more {
			err = fmt.Errorf("a member too many")
		}
		return err
	case ref.Arr:
		more, err := it.ReadArrayBegin()
		for i := 0; i < len(n.Elems); i++ {
			if err != nil {
				return err
			}
			if !more {
				return fmt.Errorf("%d elements", i)
			}
			if err = c.walk(it, n.Elems[i], text, names, want); err != nil {
				return err
			}
			more, err = it.ReadArrayMore()
		}
		if err == nil && more {
			err = fmt.Errorf("an element too many")
		}
		return err
	case ref.Str:
		if t.P(1, 3) {
			break
		}
		s, err := it.ReadString()
		*names, *want = append(*names, s), append(*want, n.Str)
		return err
	case ref.Num:
		if t.P(1, 3) {
			break
		}
		s, err := it.ReadNumber()
		*names, *want = append(*names, string(s)), append(*want, n.Num)
		return err
	}
	switch t.Int(3) {
	case 0:
		_, err := it.Read()
		return err
	case 1:
		b, err := it.AppendRaw(nil)
		*names, *want = append(*names, string(b)), append(*want, string(text[n.Start:n.End]))
		return err
	default:
		return it.Skip()
	}
}

func (c *c22) walkDoc() {
	t := c.t
	text, _ := c.doc()
	n, _ := ref.Document(text)
	buf := clone(text)
	it := newIter(t, c.dec, buf)
	var got, want []string
	c.log("walk of %s", gen.Show(text))
	if err := c.walk(it, n, text, &got, &want); err != nil {
		c.failf("walking: %v", err)
	}
	if t.Bool() {
		it.Release()
	} else {
		defer it.Release()
	}
	c.bufs = append(c.bufs, buf)
	c.held = append(c.held, c22Held{"names and strings of " + gen.Show(text), got, want})
}

// rawReads takes results of the copying reads of an iterator.
func (c *c22) rawReads() {
	t := c.t
	text, want := c.doc()
	buf := clone(text)
	it := newIter(t, c.dec, buf)
	switch x := want.(type) {
	case string:
		if t.Bool() {
			s, err := it.ReadString()
			if err != nil {
				c.failf("ReadString of %s: %v", gen.Show(text), err)
			}
			c.held = append(c.held, c22Held{"ReadString", s, x})
		} else {
			var pre []byte
			switch t.Int(3) {
			case 0:
				pre = []byte("pre")
			case 1:
				pre = append(make([]byte, 0, 16+t.Int(40)), "pre"[:t.Int(4)]...)
			}
			prefix := string(pre)
			s, err := it.ReadStringAndAppend(pre)
			if err != nil {
				c.failf("ReadStringAndAppend of %s: %v", gen.Show(text), err)
			}
			if s == nil {
				s = []byte{}
			}
			c.held = append(c.held, c22Held{"ReadStringAndAppend", s, []byte(prefix + x)})
		}
	case float64:
		n, err := it.ReadNumber()
		if err != nil {
			c.failf("ReadNumber of %s: %v", gen.Show(text), err)
		}
		c.held = append(c.held, c22Held{"ReadNumber", string(n), strings.Trim(string(text), " \t\r\n")})
	default:
		var b []byte
		var err error
		prefix := ""
		switch t.Int(3) {
		case 0:
			b, err = it.ReadRaw()
		case 1:
			b, err = it.AppendRaw(nil)
		default:
			pre := append(make([]byte, 0, t.Int(60)), "pre"[:t.Int(4)]...)
			prefix = string(pre)
			b, err = it.AppendRaw(pre)
		}
		if err != nil {
			c.failf("ReadRaw of %s: %v", gen.Show(text), err)
		}
		c.held = append(c.held, c22Held{"ReadRaw", b, append([]byte(prefix), bytes.Trim(text, " \t\r\n")...)})
	}
	it.Release()
	c.log("raw read of %s", gen.Show(text))
	c.bufs = append(c.bufs, buf)
}

func (c *c22) encode() {
	t := c.t
	g := &gen.TG{T: t, Enc: true, MaxDepth: t.Range(0, 2)}
	ty := g.Type(0, true)
	vg := &gen.VG{T: t, NoBF: true}
	v := vg.Value(ty)
	x := v.Addr().Interface()
	if t.P(1, 4) { // fills a buffer of the pool, or nearly
		n := 1<<uint(t.Range(6, 13)) - t.Int(64)
		x = strings.Repeat("z", n)
		ty = reflect.TypeOf(x)
	}
	html := !t.P(1, 4)
	want, err := stdEncode(x, html)
	if err != nil {
		return
	}
	e := pickEnc(t)
	got, err := e.f(t, c.enc, html, x)
	if err != nil {
		c.failf("%s of %s: %v", e.name, typeStr(ty), err)
	}
	if d := sameJSON(got, want, vg.MultiMap); d != "" {
		c.failf("%s of %s: %s", e.name, typeStr(ty), d)
	}
	c.log("%s -> %s", e.name, gen.Show(got))
	c.held = append(c.held, c22Held{e.name + " of " + typeStr(ty), got, clone(got)})
}

// scribble overwrites a buffer which belongs to the user.
func (c *c22) scribble() {
	if len(c.bufs) > 0 {
		b := c.bufs[c.t.Int(len(c.bufs))]
		for i := range b {
			b[i] = '#'
		}
		c.log("an input buffer is overwritten")
	}
	if c.t.Bool() && len(c.held) > 0 {
		k := c.t.Int(len(c.held))
		if b, ok := c.held[k].got.([]byte); ok {
			b = append(b, "$$$$$$$$$$$$$$$$"...)
			for i := range b {
				b[i] = '%'
			}
			c.held = append(c.held[:k], c.held[k+1:]...)
			c.log("a result is overwritten by the user")
		}
	}
}

// dirty uses pooled objects in ways that leave state behind.
func (c *c22) dirty() {
	t := c.t
	bad := []string{`{"a":[1,{"b":"x`, `[[[[{"a":{"b":[tru`, strings.Repeat("[{\"k\":", 70) + "x", `"abc\ud800\u12`, `{"a":1,,}`, `[1 2]`, `123e`, `"` + strings.Repeat("y", 3000), `{"A":1,"zz":nul`, strings.Repeat("[", 200)}
	switch t.Int(11) {
	case 0:
		d := c.dec.NewDecoder(strings.NewReader(`{"A":1.5,"zz":[2]} 3`))
		d.UseNumber()
		d.DisallowUnknownFields()
		if t.Bool() {
			var x interface{}
			d.Decode(&x)
		} else {
			var x struct{ A float64 }
			d.Decode(&x)
		}
		d.Release()
		c.log("decoder with options")
	case 1:
		e := c.enc.NewEncoder(io.Discard)
		e.SetEscapeHTML(false)
		e.Encode("<&>")
		e.Release()
		c.log("encoder without html escaping")
	case 2:
		s := c.enc.NewStreamer()
		s.EscapeHTML(false)
		s.ArrayStart().String("left over").Field("x")
		s.Context = 1
		s.Release()
		c.log("streamer released with unflushed text")
	case 3:
		s := c.enc.NewStreamer()
		s.Reset(&faultyOnce{})
		s.ObjectStart().Field("a").Value(func() {}).Int(1)
		s.Flush()
		s.Release()
		c.log("streamer released after an error")
	case 4:
		it := c.dec.NewIterator()
		it.ResetBytes([]byte(bad[t.Int(len(bad))]))
		it.Context = 1
		it.Read()
		it.Release()
		c.log("iterator released after an error")
	case 5:
		var x interface{}
		b := bad[t.Int(len(bad))]
		if c.dec.UnmarshalFromReader(gen.Chunked(t, []byte(b)), &x) == nil {
			c.failf("invalid text accepted: %s", b)
		}
		c.log("invalid text from a reader")
	case 6:
		b := bad[t.Int(len(bad))]
		it := c.dec.NewIterator()
		it.Reset(gen.Chunked(t, []byte(b)))
		it.SkipRaw()
		it.Release()
		c.log("captured invalid text")
	case 7:
		func() {
			defer func() { recover() }()
			c.enc.Marshal([]interface{}{"abc", panicky{1}})
		}()
		c.log("panic of a marshal method")
	case 8:
		func() {
			defer func() { recover() }()
			var x struct {
				A string
				B panicky
			}
			c.dec.Unmarshal([]byte(`{"A":"abc","B":{"x":1}}`), &x)
		}()
		c.log("panic of an unmarshal method")
	case 9:
		long := "[" + strings.Repeat(`"0123456789",`, 200) + "1]"
		var m json.RawMessage
		if err := c.dec.UnmarshalFromReader(gen.Chunked(t, []byte(long)), &m); err != nil || string(m) != long {
			c.failf("long raw text: %v", err)
		}
		c.log("long raw text from a reader")
	case 10:
		c.enc.Marshal(map[string]interface{}{"<": "é<", "b": make(chan int)})
		c.log("encoding error")
	}
}

type faultyOnce struct{}

func (*faultyOnce) Write(b []byte) (int, error) { return len(b) / 2, errors.New("write error") }

// liveDec opens a stream which is read piecemeal between the other steps.
func (c *c22) liveDec() {
	t := c.t
	l := &c22Live{}
	var stream []byte
	for n := t.Range(2, 4); n > 0; n-- {
		text, v := c.doc()
		l.vals = append(l.vals, v)
		l.texts = append(l.texts, text)
		stream = append(stream, text...)
		stream = append(stream, ' ')
	}
	if t.Bool() {
		l.dec = c.dec.NewDecoder(gen.Chunked(t, stream))
	} else {
		l.it = newIter(t, c.dec, stream)
	}
	c.live = append(c.live, l)
	c.log("open stream %s", gen.Show(stream))
}

func (c *c22) stepLive() {
	if len(c.live) == 0 {
		c.liveDec()
		return
	}
	l := c.live[c.t.Int(len(c.live))]
	if l.i >= len(l.vals) {
		return
	}
	var got interface{}
	var err error
	if l.dec != nil {
		err = l.dec.Decode(&got)
	} else {
		got, err = l.it.Read()
	}
	if err != nil {
		c.failf("value %d of an open stream (%s): %v", l.i, gen.Show(l.texts[l.i]), err)
	}
	c.log("read value %d of an open stream", l.i)
	c.held = append(c.held, c22Held{fmt.Sprintf("value %d of an open stream (%s)", l.i, gen.Show(l.texts[l.i])), got, l.vals[l.i]})
	l.i++
}

func (c *c22) stepStream() {
	t := c.t
	if len(c.strs) < 2 && t.Bool() || len(c.strs) == 0 {
		s := &c22Stream{s: c.enc.NewStreamer(), html: !t.P(1, 3)}
		if s.s.Context != nil {
			c.failf("a new streamer has a context")
		}
		s.s.Reset(&s.w)
		if !s.html {
			s.s.EscapeHTML(false)
		}
		s.s.ArrayStart()
		s.want = append(s.want, '[')
		c.strs = append(c.strs, s)
		c.log("open streamer")
		return
	}
	s := c.strs[t.Int(len(c.strs))]
	if s.n > 0 {
		s.want = append(s.want, ',')
	}
	s.n++
	str := gen.GoString(t, false)
	w, _ := stdEncode(str, s.html)
	if t.Bool() {
		s.s.String(str)
		s.want = append(s.want, stdNorm(w)...)
	} else {
		s.s.Value(map[string]string{str: str})
		s.want = append(append(append(append(append(s.want, '{'), stdNorm(w)...), ':'), stdNorm(w)...), '}')
	}
	if t.P(1, 3) {
		if err := s.s.Flush(); err != nil {
			c.failf("flush: %v", err)
		}
	}
	c.log("write to an open streamer")
}

// c22Rel is a family of types built on one type, met by one config in any
// order.
type c22Rel struct {
	base reflect.Type
	enc  *jzon.EncoderConfig
	dec  *jzon.DecoderConfig
}

func (r *c22Rel) draw(t *eng.T, base reflect.Type) reflect.Type {
	ty := base
	for k := t.Int(3); k >= 0; k-- {
		switch t.Int(9) {
		case 0:
			ty = reflect.PtrTo(ty)
		case 1:
			ty = reflect.SliceOf(ty)
		case 2:
			ty = reflect.MapOf(reflect.TypeOf(""), ty)
		case 3:
			ty = reflect.ArrayOf(t.Range(1, 2), ty)
		case 4:
			ty = reflect.StructOf([]reflect.StructField{{Name: "A", Type: ty}})
		case 5:
			ty = reflect.StructOf([]reflect.StructField{{Name: "A", Type: ty, Tag: `json:"a,omitempty"`}, {Name: "B", Type: base}})
		case 6:
			ty = reflect.StructOf([]reflect.StructField{{Name: "P", Type: reflect.PtrTo(ty)}, {Name: "S", Type: reflect.SliceOf(base), Tag: `json:"s,omitempty"`}})
		}
	}
	return ty
}

var c22Bases = append(append(append([]reflect.Type{
	reflect.TypeOf(byte(0)), reflect.TypeOf(nByte(0)), reflect.TypeOf(cat.JP{}), reflect.TypeOf(cat.TP{}), reflect.TypeOf(cat.JV{}), reflect.TypeOf(cat.JMap{}),
	reflect.TypeOf(cat.Tree{}), reflect.TypeOf(cat.Node2{}), reflect.TypeOf(cat.Out5{}), reflect.TypeOf(cat.Out9{}), reflect.TypeOf(cat.One1{}), reflect.TypeOf(""), ifaceT,
}, cat.MethEncV...), cat.MethEncP...), cat.MethDec...)

// stepRelated: what a config has met before does not change what it does.
func (c *c22) stepRelated() {
	t := c.t
	if c.rel == nil {
		c.rel = &c22Rel{enc: jzon.NewEncoderConfig(nil), dec: jzon.NewDecoderConfig(nil)}
		if t.Bool() {
			c.rel.base = c22Bases[t.Int(len(c22Bases))]
		} else {
			g := &gen.TG{T: t, Enc: true, MaxDepth: t.Range(0, 2)}
			c.rel.base = g.Type(0, true)
		}
	}
	for k := t.Range(1, 3); k > 0; k-- {
		ty := c.rel.draw(t, c.rel.base)
		c.log("related type %s", typeStr(ty))
		if t.Bool() {
			vg := &gen.VG{T: t, NoBF: true}
			v := vg.Value(ty)
			x := v.Interface()
			if t.Bool() {
				x = v.Addr().Interface()
			}
			b1, e1 := jzon.NewEncoderConfig(nil).Marshal(x)
			b2, e2 := c.rel.enc.Marshal(x)
			if (e1 == nil) != (e2 == nil) || e1 != nil && e1.Error() != e2.Error() {
				c.failf("Marshal of %s: error %v, with a new config %v", typeStr(ty), e2, e1)
			}
			if e1 == nil {
				if d := sameJSON(b2, b1, true); d != "" {
					c.failf("Marshal of %s differs from a new config: %s", typeStr(ty), d)
				}
			}
			continue
		}
		dg := &gen.DG{T: t, Wrong: 10}
		doc := dg.Doc(ty)
		p1, p2 := reflect.New(ty), reflect.New(ty)
		e1 := jzon.NewDecoderConfig(nil).Unmarshal(clone(doc), p1.Interface())
		e2 := c.rel.dec.Unmarshal(clone(doc), p2.Interface())
		if (e1 == nil) != (e2 == nil) || e1 != nil && e1.Error() != e2.Error() {
			c.failf("Unmarshal of %s into %s: error %v, with a new config %v", gen.Show(doc), typeStr(ty), e2, e1)
		}
		if e1 == nil {
			if d := ref.Diff(p1.Interface(), p2.Interface()); d != "" {
				c.failf("Unmarshal of %s into %s differs from a new config at %s", gen.Show(doc), typeStr(ty), d)
			}
		}
	}
}

// stepReuse resets one iterator to another source, wherever it was left, and
// does the same operations on it and on an iterator without a past.
func (c *c22) stepReuse() {
	t := c.t
	if c.reuse == nil {
		c.reuse = c.dec.NewIterator()
	}
	it := c.reuse
	if t.P(1, 8) {
		it.Reset(nil)
		c.log("Reset(nil)")
		if n := len(it.Buffer()); n != 0 {
			c.failf("%d bytes after Reset(nil)", n)
		}
		if v, err := it.NextValueType(); err != io.EOF {
			c.failf("NextValueType after Reset(nil): %v, %v", v, err)
		}
		if t.Bool() {
			return
		}
		if v, err := it.Read(); err != io.EOF {
			c.failf("Read after Reset(nil): %v, %v", v, err)
		}
		return
	}
	j := gen.DefaultJ()
	j.Budget = 12
	text := stream(t, j, t.Range(1, 3))
	if t.P(1, 4) {
		text = gen.Mutate(t, text, 1)
	}
	fresh := jzon.NewDecoderConfig(nil).NewIterator()
	how := "reader"
	switch t.Int(4) {
	case 0:
		how = "bytes"
		it.ResetBytes(clone(text))
		fresh.ResetBytes(clone(text))
	case 1:
		how = "bytes.Buffer"
		it.Reset(bytes.NewBuffer(clone(text)))
		fresh.Reset(bytes.NewBuffer(clone(text)))
	default:
		r := gen.Chunked(t, clone(text))
		r2 := *r
		r2.Data = clone(text)
		it.Reset(r)
		fresh.Reset(&r2)
	}
	c.log("Reset (%s) to %s", how, gen.Show(text))
	for k := t.Int(6); k > 0; k-- {
		rest := bytes.TrimLeft(fresh.Buffer(), " \t\r\n")
		var b byte
		if len(rest) > 0 {
			b = rest[0]
		}
		op := pickOp(t, b)
		c.log("%s", op.name)
		v1, e1 := op.f(fresh)
		v2, e2 := op.f(it)
		if (e1 == nil) != (e2 == nil) || e1 != nil && e1.Error() != e2.Error() {
			c.failf("%s on a reused iterator: error %v, on a new one %v", op.name, e2, e1)
		}
		if e1 != nil {
			break
		}
		if d := ref.Diff(v1, v2); d != "" {
			c.failf("%s on a reused iterator differs from a new one at %s", op.name, d)
		}
		if !bytes.Equal(fresh.Buffer(), it.Buffer()) && how != "reader" {
			c.failf("after %s a reused iterator is at %s, a new one at %s", op.name, gen.Show(it.Buffer()), gen.Show(fresh.Buffer()))
		}
	}
}

func (c *c22) finish() {
	if c.reuse != nil {
		c.reuse.Release()
	}
	for _, l := range c.live {
		if l.dec != nil {
			l.dec.Release()
		} else {
			l.it.Release()
		}
	}
	for _, s := range c.strs {
		s.s.ArrayEnd()
		s.want = append(s.want, ']')
		if err := s.s.Flush(); err != nil {
			c.failf("flush: %v", err)
		}
		if !bytes.Equal(s.w.Bytes(), s.want) {
			c.failf("open streamer: got %s want %s", gen.Show(s.w.Bytes()), gen.Show(s.want))
		}
		s.s.Release()
	}
}

func init() {
	eng.Register(&eng.Prop{
		ID:          "C22",
		Rule:        "a case is a history of up to 16 steps: typed and generic decoding and raw reads through all entry points, piecewise reads that keep every name and string, encoding, steps of streams and streamers that stay open, uses that leave state behind in pooled objects (errors, options, unflushed text, deep or long texts, panics of user methods), an iterator reset to other sources wherever it was left, related types met by one config in any order, overwriting of input buffers and of results by the user, garbage collections; each result is compared with the reference at once and again, with everything else still held, after every later step; non-trivial: at least 4 steps",
		Assumptions: []string{stdNote, refNote},
		Quick:       120000, Thorough: 8000000,
		Run: func(t *eng.T) {
			c := &c22{t: t, dec: jzon.DefaultDecoderConfig, enc: jzon.DefaultEncoderConfig}
			if t.Bool() {
				c.dec, c.enc = jzon.NewDecoderConfig(nil), jzon.NewEncoderConfig(nil)
			}
			n := t.Range(1, 16)
			if n >= 4 {
				t.Nontrivial()
			}
			for i := 0; i < n; i++ {
				switch t.W(4, 4, 3, 4, 3, 6, 3, 4, 1, 5, 5, 4) {
				case 0:
					c.decodeGeneric()
				case 1:
					c.decodeTyped()
				case 2:
					c.rawReads()
				case 3:
					c.encode()
				case 4:
					c.scribble()
				case 5:
					c.dirty()
				case 6:
					c.stepLive()
				case 7:
					c.stepStream()
				case 8:
					if t.P(1, 20) {
						runtime.GC()
					}
					if t.P(1, 4) {
						it := c.dec.NewIterator()
						if it.Context != nil || len(it.Buffer()) != 0 {
							c.failf("a new iterator is not empty")
						}
						it.Release()
					}
				case 9:
					c.stepReuse()
				case 10:
					c.stepRelated()
				case 11:
					c.walkDoc()
				}
				c.verify()
			}
			c.finish()
			c.verify()
			t.Key([]byte(strings.Join(c.trace, "\n")))
			t.Sample(func() string { return strings.Join(c.trace, "; ") })
		},
	})
}
