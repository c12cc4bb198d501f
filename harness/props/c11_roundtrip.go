package props

import (
	"bytes"
	"encoding/json"
	"reflect"

	"github.com/zerosnake0/jzon"

	"verif/eng"
	"verif/gen"
	"verif/ref"
)

func init() {
	eng.Register(&eng.Prop{
		ID:          "C11",
		Rule:        "a case is a value of a generated or catalogue type: its encoding is one valid JSON text, decoding it gives what encoding/json gives for its own round trip, and encoding the result again gives the same text; non-trivial: the type is not a scalar",
		Assumptions: []string{refNote, stdNote, "values whose strings are not UTF-8 are outside the property; the second encoding is compared up to the order of map entries"},
		Quick:       600000, Thorough: 40000000,
		Run: func(t *eng.T) {
			g := &gen.TG{T: t, Enc: true, Dec: true, NoMethods: t.P(2, 3), MaxDepth: t.Range(0, 5)}
			ty := g.Type(0, true)
			if ty.Kind() >= reflect.Array && ty.Kind() != reflect.String {
				t.Nontrivial()
			}
			vg := &gen.VG{T: t, RoundTrip: true}
			v := vg.Value(ty)
			html := t.Bool()
			ecfg := encConfig(t, ty)
			e := pickEnc(t)
			doc, err := e.f(t, ecfg, html, v.Addr().Interface())
			if err != nil {
				t.Failf("%s of %s: %v", e.name, typeStr(ty), err)
			}
			doc = clone(doc)
			t.Key(doc)
			t.Sample(func() string { return typeStr(ty) + " " + gen.Show(doc) })
			if _, st := ref.Document(doc); st != ref.OK {
				t.Failf("%s of %s: not a JSON text: %s", e.name, typeStr(ty), gen.Show(doc))
			}
			dcfg := jzon.NewDecoderConfig(nil)
			if ty.Name() != "" && t.Bool() {
				dcfg = jzon.DefaultDecoderConfig
			}
			a := reflect.New(ty)
			de := pickEntry(t)
			if err := de.f(dcfg, t, clone(doc), a.Interface()); err != nil {
				t.Failf("%s into %s: %v for its own encoding %s", de.name, typeStr(ty), err, gen.Show(doc))
			}
			std, err := json.Marshal(v.Addr().Interface())
			if err != nil {
				t.Failf("encoding/json: %v", err)
			}
			b := reflect.New(ty)
			if err := json.Unmarshal(std, b.Interface()); err != nil {
				t.Failf("encoding/json: %v", err)
			}
			if d := ref.Diff(a.Interface(), b.Interface()); d != "" {
				t.Failf("round trip of %s: differs from that of encoding/json at %s\ntext %s\nstd  %s", typeStr(ty), d, gen.Show(doc), gen.Show(std))
			}
			if !g.NoMethods {
				return
			}
			e2 := pickEnc(t)
			doc2, err := e2.f(t, ecfg, html, a.Interface())
			if err != nil {
				t.Failf("%s of %s: %v the second time", e2.name, typeStr(ty), err)
			}
			doc2 = clone(doc2)
			if bytes.Contains(doc, []byte("null")) {
				// a pointer to a nil value comes back as a nil pointer, which
				// may be omitted: compare the next round
				c := reflect.New(ty)
				if err := dcfg.Unmarshal(doc2, c.Interface()); err != nil {
					t.Failf("Unmarshal into %s: %v for its own encoding %s", typeStr(ty), err, gen.Show(doc2))
				}
				doc = doc2
				doc2, err = e2.f(t, ecfg, html, c.Interface())
				if err != nil {
					t.Failf("%s of %s: %v the third time", e2.name, typeStr(ty), err)
				}
			}
			if d := sameJSON(doc2, doc, true); d != "" {
				t.Failf("second encoding of %s differs\n%s", typeStr(ty), d)
			}
		},
	})
}
