package props

import (
	"io"
	"strings"

	"github.com/zerosnake0/jzon"

	"verif/eng"
	"verif/gen"
	"verif/ref"
)

// nextByte peeks at the next token.
func nextByte(it *jzon.Iterator) (byte, error) {
	if _, err := it.NextValueType(); err != nil {
		return 0, err
	}
	return it.Buffer()[0], nil
}

// stream draws a text of several values.
func stream(t *eng.T, j *gen.J, n int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		b = gen.WS(t, b, j.WS)
		b = gen.Text(t, b, j)
		b = append(b, " \n\t\r"[t.Int(4)])
	}
	return b
}

func init() {
	eng.Register(&eng.Prop{
		ID:          "C07",
		Rule:        "a case is a text (a stream of values, a document made for a catalogue type, or a damaged one, some longer than every internal buffer), a cutting of it into reads (single bytes, empty reads, random pieces, data together with EOF), and a walk of up to 25 operations (38 kinds of reads and typed decodes) done on the text given as bytes and on the reader: each step gives the same result, fails or succeeds alike, and leaves the same text unread; non-trivial: at least 3 steps succeeded",
		Assumptions: []string{"none: the two sources are compared with each other"},
		Quick:       1500000, Thorough: 40000000,
		Run: func(t *eng.T) {
			var text []byte
			j := gen.DefaultJ()
			j.LongStr = 1500
			j.Budget = t.Range(3, 40)
			j.MaxDepth = t.Range(0, 5)
			var first iterOp
			switch t.W(6, 3, 2) {
			case 0:
				text = stream(t, j, t.Range(1, 4))
			case 1: // a document for a type
				vt := valTypes[t.Int(len(valTypes))]
				dg := &gen.DG{T: t, WS: t.Int(3), Wrong: 20}
				text = append(dg.Doc(vt), ' ')
				first = valOp(vt)
			default:
				text = gen.Near(t, j)
			}
			if t.P(1, 5) {
				text = gen.Mutate(t, text, 2)
			}
			t.Key(text)
			cfg := jzon.DefaultDecoderConfig
			if t.P(1, 5) {
				cfg = numCfg
			}
			a := cfg.NewIterator()
			defer a.Release()
			a.ResetBytes(clone(text))
			r := gen.Chunked(t, clone(text))
			b := cfg.NewIterator()
			defer b.Release()
			b.Reset(r)
			t.Sample(func() string { return gen.Show(text) })
			steps := 0
			var names []string
			for k := 0; k < 25; k++ {
				c, _ := nextByte(a)
				op := first
				if k > 0 || first.f == nil {
					op = pickOp(t, c)
				}
				names = append(names, op.name)
				t.Logf("step %s", op.name)
				av, aerr := op.f(a)
				bv, berr := op.f(b)
				if (aerr == nil) != (berr == nil) || (aerr == io.EOF) != (berr == io.EOF) {
					t.Failf("step %v: error %v from bytes, %v from a reader, text %s cuts %v rest %d", names, aerr, berr, gen.Show(text), r.Cuts, r.Rest)
				}
				if aerr != nil {
					t.Label("stopped by an error")
					break
				}
				if d := ref.Diff(av, bv); d != "" {
					t.Failf("step %v: differs at %s, text %s", names, d, gen.Show(text))
				}
				steps++
				// the text still to be read
				ab := string(a.Buffer())
				bb := string(b.Buffer()) + string(r.Data)
				if ab != bb && strings.TrimLeft(ab, " \t\r\n") != strings.TrimLeft(bb, " \t\r\n") {
					t.Failf("step %v: rest is %s from bytes, %s from a reader, text %s", names, gen.Show([]byte(ab)), gen.Show([]byte(bb)), gen.Show(text))
				}
			}
			if steps >= 3 {
				t.Nontrivial()
			}
		},
	})
}
