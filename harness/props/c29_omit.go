package props

import (
	"encoding/json"
	"math"
	"reflect"
	"strings"

	"verif/eng"
	"verif/gen"
	"verif/ref"
)

// makeEmpty sets a value to one of the values that are, or only look, empty.
func makeEmpty(t *eng.T, v reflect.Value) {
	switch v.Kind() {
	case reflect.Slice:
		if t.Bool() {
			v.Set(reflect.MakeSlice(v.Type(), 0, t.Int(3)))
			return
		}
	case reflect.Map:
		if t.Bool() {
			v.Set(reflect.MakeMap(v.Type()))
			return
		}
	case reflect.Ptr:
		if t.Bool() {
			v.Set(reflect.New(v.Type().Elem()))
			return
		}
	case reflect.Float32, reflect.Float64:
		v.SetFloat([]float64{0, math.Copysign(0, -1), math.SmallestNonzeroFloat32}[t.Int(3)])
		return
	case reflect.Interface:
		if v.NumMethod() == 0 && t.Bool() {
			v.Set(reflect.ValueOf([]interface{}{0, "", false, []int{}, []int(nil), map[string]int(nil), (*int)(nil), struct{}{}, [0]int{}, 0.0}[t.Int(10)]))
			return
		}
	case reflect.Array:
		if v.Len() > 0 && t.Bool() {
			makeEmpty(t, v.Index(t.Int(v.Len())))
			return
		}
	case reflect.Struct:
		if v.NumField() > 0 && v.Field(0).CanSet() && t.P(1, 3) {
			makeEmpty(t, v.Field(0))
			return
		}
	case reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint, reflect.Uintptr:
		// zero in the low bytes only
		v.SetUint([]uint64{0, 1 << 8, 1 << 15}[t.Int(3)])
		return
	case reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		v.SetInt([]int64{0, 1 << 8, -(1 << 15)}[t.Int(3)])
		if v.Kind() != reflect.Int16 && v.Kind() != reflect.Int32 && t.P(1, 3) {
			v.SetInt(1 << 40)
		}
		return
	}
	v.Set(reflect.Zero(v.Type()))
}

// c29Empty is the definition of an empty value.
func c29Empty(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Bool:
		return !v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int() == 0
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return v.Uint() == 0
	case reflect.Float32, reflect.Float64:
		return v.Float() == 0
	case reflect.Ptr, reflect.Interface:
		return v.IsNil()
	case reflect.String, reflect.Array, reflect.Slice, reflect.Map:
		return v.Len() == 0
	}
	return false
}

func init() {
	eng.Register(&eng.Prop{
		ID:          "C29",
		Rule:        "a case is a struct type of 1 to 14 fields of random types (scalars, named types, pointers, slices, arrays, maps, interfaces, structs, types with methods), most with the omitempty option (also spelled wrongly, or with other options beside it), and 2 values of it whose fields are empty, look empty (pointer to zero, interface with zero, zero low bytes, minus zero) or are set; the fields written are compared with the definition of empty values and the whole text with encoding/json; non-trivial: some field is left out and some is written",
		Assumptions: []string{stdNote, "arrays of length 0 of types with methods are not generated"},
		Quick:       250000, Thorough: 20000000,
		Run: func(t *eng.T) {
			var fs []reflect.StructField
			n := t.Range(1, 6)
			if t.P(1, 6) {
				n = t.Range(9, 14)
			}
			omit := make([]bool, n)
			for i := 0; i < n; i++ {
				g := &gen.TG{T: t, Enc: true, MaxDepth: t.Int(3)}
				f := reflect.StructField{Name: string(rune('A' + i)), Type: g.Type(0, true)}
				omit[i] = true
				switch t.W(10, 3, 1, 1, 1, 1, 1) {
				case 0:
					f.Tag = `json:",omitempty"`
				case 1:
					omit[i] = false
				case 2:
					f.Tag = `json:",string,omitempty"`
				case 3:
					f.Tag = `json:",omitempty,string"`
				case 4:
					f.Tag = reflect.StructTag(`json:"` + []string{", omitempty", ",omitempty ", ",Omitempty", ",omit", ",omitemptyx"}[t.Int(5)] + `"`)
					omit[i] = false
				case 5:
					f.Tag = `json:",unknown,omitempty"`
				default:
					f.Tag = reflect.StructTag(`json:"` + f.Name + `,omitempty"`)
				}
				fs = append(fs, f)
			}
			vt := reflect.StructOf(fs)
			cfg := encConfig(t, vt)
			for k := 0; k < 2; k++ {
				vg := &gen.VG{T: t, NoBF: true}
				v := vg.Value(vt)
				for i := 0; i < n; i++ {
					if t.Bool() {
						makeEmpty(t, v.Field(i))
					}
				}
				x := v.Addr().Interface()
				want, stdErr := json.Marshal(x)
				if stdErr != nil {
					t.Skip()
				}
				t.Key(want)
				t.Sample(func() string { return typeStr(vt) + " -> " + gen.Show(want) })
				e := pickEnc(t)
				got, err := e.f(t, cfg, true, x)
				if err != nil {
					t.Failf("%s of %s: %v", e.name, typeStr(vt), err)
				}
				node, st := ref.Document(got)
				if st != ref.OK {
					t.Failf("%s of %s: invalid text %s", e.name, typeStr(vt), gen.Show(got))
				}
				var keys, exp []string
				for _, m := range node.Keys {
					keys = append(keys, m)
				}
				for i := 0; i < n; i++ {
					if !(omit[i] && c29Empty(v.Field(i))) {
						exp = append(exp, fs[i].Name)
					}
				}
				if strings.Join(keys, ",") != strings.Join(exp, ",") {
					t.Failf("%s of %s: fields %v are written, expected %v (%s)", e.name, typeStr(vt), keys, exp, gen.Show(got))
				}
				if len(exp) > 0 && len(exp) < n {
					t.Nontrivial()
				}
				if d := sameJSON(got, want, true); d != "" {
					t.Failf("%s of %s: %s", e.name, typeStr(vt), d)
				}
			}
		},
	})
}
