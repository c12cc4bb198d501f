package props

import (
	"encoding/json"
	"io"
	"io/ioutil"

	"github.com/zerosnake0/jzon"

	"verif/eng"
	"verif/gen"
	"verif/ref"
)

// concat draws a stream of values, some of them without space in between.
func concat(t *eng.T) []byte {
	j := gen.DefaultJ()
	if t.P(7, 8) {
		j.LongStr = 1200
	}
	j.NoHuge = true
	n := t.Range(1, 6)
	many := t.P(1, 150)
	if many {
		n = t.Range(20, 400)
	}
	var b []byte
	for i := 0; i < n; i++ {
		j.MaxDepth = t.Range(0, 4)
		j.Budget = t.Range(1, 20)
		j.WS = t.Int(3)
		if many {
			j.MaxDepth, j.Budget, j.WS = 1, 3, 0
		}
		var v []byte
		if t.P(1, 12) {
			v = gen.Deep(t, t.Size(200))
		} else {
			v = gen.Text(t, nil, j)
		}
		tight := false
		if len(b) > 0 {
			l := b[len(b)-1]
			switch {
			case ref.IsWS(l):
				tight = true
			case l == ']' || l == '}' || l == '"':
				tight = t.Bool()
			default:
				tight = t.Bool() && indexAny(v[:1], "[{\"")
			}
		}
		if len(b) > 0 && !tight {
			b = append(b, " \n\t\r"[t.Int(4)])
		}
		b = append(b, v...)
		b = gen.WS(t, b, t.Int(3))
	}
	return b
}

func init() {
	eng.Register(&eng.Prop{
		ID:          "C08",
		Rule:        "a case is a stream of 1 to 6 values, rarely hundreds (with or without space in between, possibly cut short at the end) read value by value by a decoder or by an iterator from bytes or a chunked reader, mixing generic, raw and skipping reads and asking More, InputOffset and Buffered in between; non-trivial: at least two values",
		Assumptions: []string{refNote},
		Quick:       1000000, Thorough: 50000000,
		Run: func(t *eng.T) {
			text := concat(t)
			cut := false
			if t.P(1, 6) && len(text) > 1 {
				text = text[:t.Range(1, len(text)-1)]
				cut = true
			}
			t.Key(text)
			t.Sample(func() string { return gen.Show(text) })
			var nodes []*ref.Node
			pos := 0
			clean := true // the stream ends after the last value
			for {
				i := ref.SkipWS(text, pos)
				if i == len(text) {
					break
				}
				n, st := ref.Prefix(text, i)
				if st != ref.OK {
					if !cut {
						t.Failf("generator: %s at %d", gen.Show(text), i)
					}
					clean = false
					break
				}
				nodes = append(nodes, n)
				pos = n.End
			}
			if len(nodes) > 1 {
				t.Nontrivial()
			}
			if t.Bool() {
				c08Decoder(t, text, nodes, clean)
			} else {
				c08Iter(t, text, nodes, clean)
			}
		},
	})
}

func want(n *ref.Node, num bool) interface{} {
	var f func(string) interface{}
	if num {
		f = toNumber
	}
	v, _ := n.Interface(f)
	return v
}

func c08Decoder(t *eng.T, text []byte, nodes []*ref.Node, clean bool) {
	r := gen.Chunked(t, clone(text))
	d := jzon.NewDecoder(r)
	defer d.Release()
	num := t.P(1, 4)
	if num {
		d.UseNumber()
	}
	lo := 0
	observe := func(hi int, what string) {
		for t.P(1, 3) {
			switch t.Int(3) {
			case 0:
				if o := d.InputOffset(); o < int64(lo) || o > int64(hi) {
					t.Failf("InputOffset: %d after %s, want between %d and %d in %s", o, what, lo, hi, gen.Show(text))
				}
			case 1:
				o := int(d.InputOffset())
				b, err := ioutil.ReadAll(d.Buffered())
				if err != nil {
					t.Failf("Buffered: %v", err)
				}
				if o < lo || o > hi || string(b)+string(r.Data) != string(text[o:]) {
					t.Failf("Buffered: %s then unread %s, at offset %d after %s in %s", gen.Show(b), gen.Show(r.Data), o, what, gen.Show(text))
				}
			default:
				if got, w := d.More(), hi < len(text); got != w {
					t.Failf("More: %v after %s in %s", got, what, gen.Show(text))
				}
			}
		}
	}
	observe(ref.SkipWS(text, 0), "the start")
	for i, n := range nodes {
		var err error
		switch t.W(4, 2, 2, 1) {
		case 0:
			var v interface{}
			err = d.Decode(&v)
			if err == nil {
				if df := ref.Diff(v, want(n, num)); df != "" {
					t.Failf("Decode: value %d differs at %s in %s", i, df, gen.Show(text))
				}
			}
		case 1:
			var v json.RawMessage
			err = d.Decode(&v)
			if err == nil && string(v) != string(text[n.Start:n.End]) {
				t.Failf("Decode: raw value %d is %s in %s", i, gen.Show(v), gen.Show(text))
			}
		case 2:
			var v struct{ Zz interface{} }
			if n.Kind != ref.Obj && n.Kind != ref.Null {
				var w *interface{}
				err = d.Decode(&w)
				break
			}
			err = d.Decode(&v)
		default:
			switch n.Kind {
			case ref.Str:
				var s string
				err = d.Decode(&s)
				if err == nil && s != n.Str {
					t.Failf("Decode: string %d is %q in %s", i, s, gen.Show(text))
				}
			case ref.Arr:
				var s []json.RawMessage
				err = d.Decode(&s)
				if err == nil {
					if len(s) != len(n.Elems) {
						t.Failf("Decode: array %d has %d elements in %s", i, len(s), gen.Show(text))
					}
					for k, e := range n.Elems {
						if e.Kind == ref.Null {
							if string(s[k]) != "null" {
								t.Failf("Decode: element %d of value %d is %s in %s", k, i, gen.Show(s[k]), gen.Show(text))
							}
							continue
						}
						if string(s[k]) != string(text[e.Start:e.End]) {
							t.Failf("Decode: element %d of value %d is %s in %s", k, i, gen.Show(s[k]), gen.Show(text))
						}
					}
				}
			case ref.Num:
				var s json.Number
				err = d.Decode(&s)
				if err == nil && string(s) != n.Num {
					t.Failf("Decode: number %d is %q in %s", i, s, gen.Show(text))
				}
			default:
				var v interface{}
				err = d.Decode(&v)
			}
		}
		if err != nil {
			t.Failf("Decode: error %v for value %d of %s", err, i, gen.Show(text))
		}
		lo = n.End
		observe(ref.SkipWS(text, lo), "a value")
	}
	if clean {
		if d.More() {
			t.Failf("More: true at the end of %s", gen.Show(text))
		}
	}
	for k := 0; k < 2; k++ {
		var v interface{}
		err := d.Decode(&v)
		if err == nil || clean && err != io.EOF {
			t.Failf("Decode: error %v after the last value of %s", err, gen.Show(text))
		}
		if d.More() {
			t.Failf("More: true after an error")
		}
	}
}

func c08Iter(t *eng.T, text []byte, nodes []*ref.Node, clean bool) {
	it := newIter(t, jzon.DefaultDecoderConfig, clone(text))
	defer it.Release()
	for i, n := range nodes {
		lit := string(text[n.Start:n.End])
		var err error
		name := ""
		raw := func(b []byte, err error) error {
			if err == nil && string(b) != lit {
				t.Failf("%s: value %d is %s in %s", name, i, gen.Show(b), gen.Show(text))
			}
			return err
		}
		switch t.W(2, 2, 2, 2, 2, 2) {
		case 0:
			name = "SkipRaw"
			var b []byte
			b, err = it.SkipRaw()
			err = raw(b, err)
		case 1:
			name = "ReadRaw"
			var b []byte
			b, err = it.ReadRaw()
			err = raw(b, err)
		case 2:
			name = "AppendRaw"
			pre := make([]byte, t.Int(20), 20+t.Int(40))
			for k := range pre {
				pre[k] = 'p'
			}
			keep := string(pre)
			var b []byte
			b, err = it.AppendRaw(pre)
			if len(b) < len(keep) || string(b[:len(keep)]) != keep {
				t.Failf("AppendRaw: prefix lost: %s", gen.Show(b))
			}
			err = raw(b[len(keep):], err)
		case 3:
			name = "Skip"
			err = it.Skip()
		case 4:
			switch n.Kind {
			case ref.Arr:
				name, err = "SkipArray", it.SkipArray()
			case ref.Obj:
				name, err = "SkipObject", it.SkipObject()
			case ref.Str:
				name, err = "SkipString", it.SkipString()
			case ref.Num:
				name, err = "SkipNumber", it.SkipNumber()
			case ref.Null:
				name, err = "ReadNull", it.ReadNull()
			default:
				var b bool
				name = "ReadBool"
				b, err = it.ReadBool()
				if b != n.B {
					t.Failf("ReadBool: %v in %s", b, gen.Show(text))
				}
			}
		default:
			name = "Read"
			var v interface{}
			v, err = it.Read()
			if err == nil {
				if df := ref.Diff(v, want(n, false)); df != "" {
					t.Failf("Read: value %d differs at %s in %s", i, df, gen.Show(text))
				}
			}
		}
		if err != nil {
			t.Failf("%s: error %v for value %d of %s", name, err, i, gen.Show(text))
		}
		// position
		nx := ref.SkipWS(text, n.End)
		_, err = it.NextValueType()
		if (err == nil) != (nx < len(text)) {
			t.Failf("%s: %v at the end of value %d of %s", name, err, i, gen.Show(text))
		}
		if err == nil {
			b := it.Buffer()
			if len(b) == 0 || len(text)-nx < len(b) || string(b) != string(text[nx:nx+len(b)]) {
				t.Failf("%s: at %s after value %d of %s", name, gen.Show(b), i, gen.Show(text))
			}
		}
	}
	var err error
	switch t.Int(3) {
	case 0:
		err = it.Skip()
	case 1:
		_, err = it.Read()
	default:
		_, err = it.SkipRaw()
	}
	if err == nil || clean && err != io.EOF {
		t.Failf("error %v after the last value of %s", err, gen.Show(text))
	}
}
