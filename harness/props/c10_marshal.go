package props

import (
	"reflect"

	"verif/eng"
	"verif/gen"
)

func init() {
	eng.Register(&eng.Prop{
		ID:          "C10",
		Rule:        "a case is a Go type (built by reflect.StructOf/SliceOf/MapOf/... or taken from a catalogue of 280 static types) and 2 values of it, encoded by this library (4 ways, HTML escaping on or off, by value or by pointer, cold or warm caches) and by encoding/json; non-trivial: the type is not a scalar",
		Assumptions: []string{stdNote, "excluded as documented differences: the order of map entries, the spelling \\u0008 and \\u000c, pointer methods on values that have no address, the layout of text returned by user methods"},
		Quick:       800000, Thorough: 40000000,
		Run: func(t *eng.T) {
			byPtr := t.Bool()
			g := &gen.TG{T: t, Enc: true, MaxDepth: t.Range(0, 4)}
			ty := g.Type(0, byPtr)
			if ty.Kind() >= reflect.Array && ty.Kind() != reflect.String {
				t.Nontrivial()
			}
			cfg := encConfig(t, ty)
			for k := 0; k < 2; k++ {
				vg := &gen.VG{T: t, Fail: t.P(1, 4), NoBF: true}
				v := vg.Value(ty)
				var x interface{}
				if byPtr {
					x = v.Addr().Interface()
				} else {
					x = v.Interface()
				}
				html := !t.P(1, 4)
				want, wantErr := stdEncode(x, html)
				e := pickEnc(t)
				got, gotErr := e.f(t, cfg, html, x)
				t.Key(want)
				t.Sample(func() string { return typeStr(ty) + " -> " + gen.Show(want) })
				if (gotErr == nil) != (wantErr == nil) {
					t.Failf("%s of %s: error %v, encoding/json %v (%s)", e.name, typeStr(ty), gotErr, wantErr, gen.Show(want))
				}
				if gotErr != nil {
					t.Label("error")
					continue
				}
				t.Label("encoded")
				if d := sameJSON(got, want, vg.MultiMap); d != "" {
					t.Failf("%s of %s (html %v): differs from encoding/json\n%s", e.name, typeStr(ty), html, d)
				}
			}
		},
	})
}
