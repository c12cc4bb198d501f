package props

import (
	"fmt"

	"github.com/zerosnake0/jzon"

	"verif/eng"
	"verif/gen"
	"verif/ref"
)

// genericRead decodes a document into a generic value by one of the ways.
func genericRead(t *eng.T, way int, doc []byte, useNum bool) (interface{}, error, string) {
	cfg := jzon.DefaultDecoderConfig
	if useNum {
		cfg = numCfg
	}
	iter := func() *jzon.Iterator {
		it := cfg.NewIterator()
		if t.Bool() {
			it.Reset(gen.Chunked(t, doc))
		} else {
			it.ResetBytes(doc)
		}
		return it
	}
	switch way {
	case 0:
		var v interface{}
		e := pickEntry(t)
		err := e.f(cfg, t, doc, &v)
		return v, err, e.name + "(*interface{})"
	case 1:
		it := iter()
		defer it.Release()
		v, err := it.Read()
		if err == nil && !atEOF(it) {
			err = jzon.ErrDataRemained
		}
		return v, err, "Iterator.Read"
	case 2:
		var v interface{} = 3 // not a pointer: replaced
		err := cfg.Unmarshal(doc, &v)
		return v, err, "Unmarshal(*interface{} holding a number)"
	case 3:
		var s struct{ F interface{} }
		d2 := append(append([]byte(`{"F":`), doc...), '}')
		e := pickEntry(t)
		err := e.f(cfg, t, d2, &s)
		return s.F, err, e.name + "(struct field)"
	case 4:
		var s []interface{}
		d2 := append(append([]byte(`[`), doc...), ']')
		e := pickEntry(t)
		err := e.f(cfg, t, d2, &s)
		if err == nil && len(s) != 1 {
			return s, fmt.Errorf("len %d", len(s)), "slice"
		}
		if err != nil {
			return nil, err, "slice"
		}
		return s[0], err, e.name + "(slice element)"
	case 5:
		var s map[string]interface{}
		d2 := append(append([]byte(`{"":`), doc...), '}')
		err := cfg.Unmarshal(d2, &s)
		return s[""], err, "map element"
	case 6: // UseNumber switched on at the decoder
		d := jzon.NewDecoder(gen.Chunked(t, doc))
		defer d.Release()
		if useNum {
			d.UseNumber()
		}
		var v interface{}
		err := d.Decode(&v)
		return v, err, "Decoder.Decode"
	default:
		var p *interface{}
		err := cfg.Unmarshal(doc, &p)
		if p == nil {
			return nil, err, "pointer to interface{}"
		}
		return *p, err, "pointer to interface{}"
	}
}

func init() {
	eng.Register(&eng.Prop{
		ID:          "C02",
		Rule:        "a case is one valid document (random, with duplicate keys, escapes, hard numbers, or nested up to 25000 levels) decoded by 3 of 8 generic ways, with and without UseNumber; non-trivial: it holds a container or an escape or a number that is not a small integer",
		Assumptions: []string{refNote, "strconv.ParseFloat gives the nearest float64"},
		Quick:       320000, Thorough: 25000000,
		Run: func(t *eng.T) {
			j := gen.DefaultJ()
			var doc []byte
			switch t.W(30, 3, 1) {
			case 0:
				j.MaxDepth = t.Range(1, 7)
				j.MaxElems = t.Range(2, 12)
				j.Budget = t.Range(10, 120)
				doc = gen.DocJ(t, j)
			case 1:
				doc = gen.Deep(t, t.Size(400))
			default:
				d := 64*t.Range(1, 9) + t.Range(-2, 2)
				if t.P(1, 40) {
					d = t.Range(3000, 25000)
				}
				doc = gen.Deep(t, d)
			}
			n, st := ref.Document(doc)
			if st != ref.OK {
				t.Failf("generator: invalid document %s", gen.Show(doc))
			}
			if n.Kind >= ref.Arr || len(n.Num) > 2 || indexAny(doc, "\\") {
				t.Nontrivial()
			}
			t.Key(doc)
			t.Sample(func() string { return gen.Show(doc) })
			t.Label(n.Kind.String())
			for k := 0; k < 3; k++ {
				useNum := t.P(1, 3)
				var f func(string) interface{}
				if useNum {
					f = toNumber
				}
				want, ok := n.Interface(f)
				way := t.Int(8)
				got, err, name := genericRead(t, way, clone(doc), useNum)
				if !ok {
					t.Label("number out of range")
					if err == nil {
						t.Failf("%s: no error for a number out of range in %s", name, gen.Show(doc))
					}
					continue
				}
				if err != nil {
					t.Failf("%s (UseNumber %v): error %v for %s", name, useNum, err, gen.Show(doc))
				}
				if d := ref.Diff(got, want); d != "" {
					t.Failf("%s (UseNumber %v): wrong value at %s for %s", name, useNum, d, gen.Show(doc))
				}
			}
		},
	})
}
