package props

import (
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"

	"github.com/zerosnake0/jzon"

	"verif/eng"
	"verif/gen"
	"verif/ref"
)

// intKeys tells if a type holds a map with integer keys, quoted fields or
// other places where text inside a JSON string is read as a number.
func numberInString(ty reflect.Type) bool { return numInStr(ty, map[reflect.Type]bool{}) }

func numInStr(ty reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[ty] {
		return false
	}
	seen[ty] = true
	if ty == reflect.TypeOf(json.Number("")) {
		return true
	}
	switch ty.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array:
		return numInStr(ty.Elem(), seen)
	case reflect.Map:
		return ty.Key().Kind() != reflect.String || numInStr(ty.Elem(), seen)
	case reflect.Struct:
		for _, f := range gen.Fields(ty, "json") {
			if f.Quoted || numInStr(f.Type, seen) {
				return true
			}
		}
		for i := 0; i < ty.NumField(); i++ {
			if numInStr(ty.Field(i).Type, seen) {
				return true
			}
		}
	}
	return false
}

// quotedNumber tells if a type holds a json.Number field with the string
// option, for which encoding/json does not check the text.
func quotedNumber(ty reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[ty] {
		return false
	}
	seen[ty] = true
	switch ty.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
		return quotedNumber(ty.Elem(), seen)
	case reflect.Struct:
		for _, f := range gen.Fields(ty, "json") {
			ft := f.Type
			if ft.Kind() == reflect.Ptr {
				ft = ft.Elem()
			}
			if f.Quoted && ft == reflect.TypeOf(json.Number("")) || quotedNumber(f.Type, seen) {
				return true
			}
		}
	}
	return false
}

// escaped spellings of the characters of a number
var numEscape = regexp.MustCompile(`(?i)\\u00(2[bde]|3[0-9]|[46]5)`)

func init() {
	eng.Register(&eng.Prop{
		ID:          "C03",
		Rule:        "a case is a Go type (built by reflect.StructOf/SliceOf/MapOf/... or taken from a catalogue of 280 static types) and 2 documents made for it (with nulls, unknown and case-folded keys, wrong types, damage), decoded into a zero value by this library and by encoding/json; non-trivial: the type is not a scalar and the document is not null",
		Assumptions: []string{stdNote, "excluded as documented differences: text that is not UTF-8, a key met twice for a field holding a slice, unusual spellings of integers inside strings, the destination after an error"},
		Quick:       800000, Thorough: 40000000,
		Run: func(t *eng.T) {
			g := &gen.TG{T: t, Dec: true, MaxDepth: t.Range(0, 4)}
			ty := g.Type(0, true)
			cfg := jzon.NewDecoderConfig(nil)
			if ty.Name() != "" && t.Bool() {
				cfg = jzon.DefaultDecoderConfig
			}
			wrong := []int{0, 0, 15, 60}[t.Int(4)]
			t.Sample(func() string { return typeStr(ty) })
			for k := 0; k < 2; k++ {
				dg := &gen.DG{T: t, Wrong: wrong, WS: t.Int(3)}
				doc := dg.Doc(ty)
				if t.P(1, 6) && !numberInString(ty) {
					doc = gen.Mutate(t, doc, 2)
					t.Label("damaged")
				}
				if !validUTF8(doc) {
					continue
				}
				if numberInString(ty) && numEscape.Match(doc) {
					continue
				}
				a := reflect.New(ty)
				b := reflect.New(ty)
				e := pickEntry(t)
				in := clone(doc)
				gotErr := e.f(cfg, t, in, a.Interface())
				wantErr := json.Unmarshal(doc, b.Interface())
				t.Sample(func() string { return typeStr(ty) + " <- " + gen.Show(doc) })
				if ty.Kind() >= reflect.Array && ty.Kind() != reflect.String && len(doc) > 4 {
					t.Nontrivial()
				}
				t.Key(doc)
				if gotErr != nil && wantErr == nil && quotedNumber(ty, map[reflect.Type]bool{}) {
					t.Label("lax json.Number")
					continue
				}
				if (gotErr == nil) != (wantErr == nil) {
					t.Failf("%s into %s: error %v, encoding/json %v for %s", e.name, typeStr(ty), gotErr, wantErr, gen.Show(doc))
				}
				if gotErr != nil {
					t.Label("rejected")
					continue
				}
				t.Label("decoded")
				if d := ref.Diff(a.Interface(), b.Interface()); d != "" {
					t.Failf("%s into %s: differs from encoding/json at %s for %s", e.name, typeStr(ty), d, gen.Show(doc))
				}
				if string(in) != string(doc) {
					t.Failf("%s: input modified", e.name)
				}
			}
		},
	})
}

var _ = fmt.Sprint
