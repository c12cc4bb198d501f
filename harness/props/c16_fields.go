package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"reflect"
	"strconv"

	"github.com/zerosnake0/jzon"

	"verif/cat"
	"verif/eng"
	"verif/gen"
	"verif/ref"
)

// fdesc describes a field, sdesc a struct: from one description two types are
// built, which differ in their tags only.
type fdesc struct {
	name   string
	ty     *tdesc
	tagged bool
	tag    string
	decoy  string // tag under other keys
	before bool
	emb    bool
}

type tdesc struct {
	leaf   reflect.Type
	kind   reflect.Kind // of what is built around elem
	key    reflect.Type
	n      int
	elem   *tdesc
	fields []fdesc // kind == Struct
}

var c16Leaf = []reflect.Type{
	ty(0), ty(int8(0)), ty(uint64(0)), ty(""), ty(true), ty(float64(0)), ifaceT, ty(json.Number("")), ty(json.RawMessage(nil)), ty([]byte(nil)), ty([]int(nil)),
	ty(map[string]string(nil)), ty((*int)(nil)), ty((*string)(nil)), ty(cat.NInt(0)), ty(cat.NStr("")), ty(struct{}{}), ty([2]int{}), ty(cat.TV{}), ty(cat.JV{}),
}

var c16Names = []string{"A", "B", "C", "D", "Ab", "Name", "ID", "X1", "Url", "K"}
var c16Tags = []string{"a", "b", "A", "B", "Name", "name", "id", "x.y", "k", "K", "semi;c", "é", "a<b", "Ab", "日本", "a b", "Ⅷ", "x½", "٣", "a\u0301", "😀", "~", "`"[:0]+"$"}

func c16Tag(t *eng.T, leaf reflect.Type) string {
	switch t.W(10, 1, 1, 1, 1) {
	case 1:
		return "-"
	case 2:
		return "-,"
	case 3:
		return ""
	case 4:
		return t.Str("b'ad", "a\\\\b", "q\\\"x", "\\\\", "`"[:0]+"^^`"[:2], "  ", "tab\\t")
	}
	s := c16Tags[t.Int(len(c16Tags))]
	if t.P(1, 4) {
		s = ""
	}
	if t.P(1, 12) { // not a valid name, the options count
		s = t.Str("b'ad", "a\\\\b", "q\\\"x", "\\\\", "tab\\t")
	}
	if t.P(1, 12) { // any list of options
		str := leaf != nil && leaf != ty(cat.TV{}) && leaf != ty(cat.JV{})
		for k := t.Range(1, 5); k > 0; k-- {
			o := t.Str("omitempty", "string", "", "foo", " omitempty", "Omitempty", "omit", "omitemptyx", "string ", "strin", "-")
			if o == "string" && !str {
				o = "omitempty"
			}
			s += "," + o
		}
		return s
	}
	if t.P(1, 5) {
		s += t.Str(",omitempty", ",omitempty,foo", ",foo,omitempty", ", omitempty", ",Omitempty")
	}
	if leaf != nil && t.P(1, 6) && leaf != ty(cat.TV{}) && leaf != ty(cat.JV{}) {
		s += t.Str(",string", ",omitempty,string", ",string,omitempty", ",String")
	}
	return s
}

func c16Struct(t *eng.T, depth int) *tdesc {
	d := &tdesc{kind: reflect.Struct}
	n := 0
	switch t.W(1, 3, 8, 3) {
	case 1:
		n = 1
	case 2:
		n = t.Range(2, 4)
	case 3:
		n = t.Range(5, 14)
	}
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		f := fdesc{name: c16Names[t.Int(len(c16Names))]}
		if used[f.name] {
			f.name = "F" + strconv.Itoa(i)
		}
		used[f.name] = true
		sub := 1
		if depth >= 3 || n > 4 {
			sub = 0
		}
		if n > 4 && depth < 2 && t.P(1, 8) {
			sub = 1
		}
		switch t.W(10, 5*sub, 2*sub, 1*sub, 1*sub, 1, 1*sub) {
		case 0:
			f.ty = &tdesc{leaf: c16Leaf[t.Int(len(c16Leaf))]}
		case 1: // embedded
			f.emb = true
			f.ty = c16Struct(t, depth+1)
			if t.P(1, 3) {
				f.ty = &tdesc{kind: reflect.Ptr, elem: f.ty}
			}
		case 2:
			f.ty = c16Struct(t, depth+1)
		case 3:
			f.ty = &tdesc{kind: reflect.Slice, elem: c16Struct(t, depth+1)}
		case 4:
			f.ty = &tdesc{kind: reflect.Map, key: ty(""), elem: c16Struct(t, depth+1)}
		case 5: // embedded leaf
			f.ty = &tdesc{leaf: ty(cat.NInt(0))}
			if !used["NInt"] {
				used["NInt"] = true
				f.name = "NInt"
				f.emb = true
			}
		case 6:
			f.ty = &tdesc{kind: reflect.Ptr, elem: c16Struct(t, depth+1)}
		}
		f.tagged = t.P(3, 5)
		if f.emb && f.tagged {
			f.tagged = t.P(1, 3)
		}
		if f.tagged {
			f.tag = c16Tag(t, f.ty.leaf)
		}
		if t.P(1, 2) {
			f.decoy = t.Str("-", "zz", "a", "B,omitempty", ",string", "Name", ",omitempty", "-,")
		}
		f.before = t.Bool()
		d.fields = append(d.fields, f)
	}
	return d
}

// build makes the type with the tags under key; other is the key of the
// decoys ("" for none). only is the option to ignore fields without the tag,
// spelled out as json:"-" when std is set.
func (d *tdesc) build(key, other string, only, std bool) reflect.Type {
	switch {
	case d.leaf != nil:
		return d.leaf
	case d.kind == reflect.Ptr:
		return reflect.PtrTo(d.elem.build(key, other, only, std))
	case d.kind == reflect.Slice:
		return reflect.SliceOf(d.elem.build(key, other, only, std))
	case d.kind == reflect.Map:
		return reflect.MapOf(d.key, d.elem.build(key, other, only, std))
	}
	var fs []reflect.StructField
	for _, f := range d.fields {
		sf := reflect.StructField{Name: f.name, Type: f.ty.build(key, other, only, std), Anonymous: f.emb}
		tag := ""
		if f.tagged {
			tag = key + `:"` + f.tag + `"`
		} else if std && only && !f.emb {
			tag = key + `:"-"`
		}
		if !std && other != "" && f.decoy != "" {
			dec := other + `:"` + f.decoy + `"`
			switch {
			case tag == "":
				tag = dec
			case f.before:
				tag = dec + " " + tag
			default:
				tag = tag + " " + dec
			}
		}
		sf.Tag = reflect.StructTag(tag)
		fs = append(fs, sf)
	}
	return reflect.StructOf(fs)
}

func stdStrict(doc []byte, v interface{}, strict bool) error {
	d := json.NewDecoder(bytes.NewReader(doc))
	if strict {
		d.DisallowUnknownFields()
	}
	if err := d.Decode(v); err != nil {
		return err
	}
	if _, err := d.Token(); err != io.EOF {
		return fmt.Errorf("data remained")
	}
	return nil
}

// c16Runes: every rune in a tag, and many fields in a struct.
func c16Runes(t *eng.T) int {
	n := 0
	var fs []reflect.StructField
	do := func() {
		st := reflect.StructOf(fs)
		v := reflect.New(st).Elem()
		for i := range fs {
			v.Field(i).SetInt(int64(i + 1))
		}
		fs = nil
		got, err := jzon.NewEncoderConfig(&jzon.EncoderOption{EscapeHTML: true}).Marshal(v.Interface())
		want, _ := json.Marshal(v.Interface())
		if err != nil {
			t.Failf("Marshal of %s: %v", st, err)
		}
		if d := sameJSON(got, want, false); d != "" {
			t.Failf("Marshal of %s\n%s", st, d)
		}
		a := reflect.New(st)
		if err := jzon.NewDecoderConfig(&jzon.DecoderOption{DisallowUnknownFields: true, CaseSensitive: true}).Unmarshal(want, a.Interface()); err != nil {
			t.Failf("Unmarshal into %s: %v for %s", st, err, gen.Show(want))
		}
		b := reflect.New(st)
		if err := json.Unmarshal(want, b.Interface()); err != nil {
			t.Failf("reference: %v", err)
		}
		if d := ref.Diff(a.Elem().Interface(), b.Elem().Interface()); d != "" {
			t.Failf("Unmarshal into %s: differs at %s for %s", st, d, gen.Show(want))
		}
	}
	for r := rune(0); r < 0x1e000; r++ {
		if r >= 0xd800 && r < 0xe000 || r >= 0x3400 && r < 0xa000 || r >= 0xac00 && r < 0xd700 {
			continue
		}
		n++
		name := string(r)
		if r&1 == 0 {
			name = "a" + name
		}
		if name != "-" && r != ',' {
			name += ",omitempty"
		}
		fs = append(fs, reflect.StructField{Name: "F" + strconv.Itoa(int(r)), Type: ty(0), Tag: reflect.StructTag("json:" + strconv.Quote(name))})
		if len(fs) == 150 {
			do()
		}
	}
	do()
	return n
}

func init() {
	eng.Register(&eng.Prop{
		ID:          "C16",
		Rule:        "a case is a struct description (up to 4 levels of embedding, 0 to 14 fields per level, conflicting names and tags, decoy tags under other keys) built twice: with the tags under the configured key and options, and rewritten to plain json tags for encoding/json; or a catalogue type with equal tags under two keys; a value is encoded and 2 documents are decoded by both; non-trivial: at least two fields. enumerated: tags with every rune up to U+1DFFF (of the CJK and Hangul blocks a part)",
		Assumptions: []string{stdNote, "a struct rewritten to json tags means to encoding/json what the original means under the configured tag key"},
		Quick:       120000, Thorough: 20000000,
		Exhaustive: c16Runes,
		Run: func(t *eng.T) {
			var jt, st reflect.Type
			key := "jz"
			only := false
			if t.P(1, 4) {
				jt = cat.Generated[t.Int(len(cat.Generated))]
				st = jt
				t.Nontrivial()
			} else {
				d := c16Struct(t, 0)
				key = t.Str("jz", "jz", "json", "db", "日")
				other := "json"
				if key == "json" {
					other = t.Str("jz", "xml")
				}
				only = t.P(1, 2)
				jt = d.build(key, other, only, false)
				st = d.build("json", "", only, true)
				if len(d.fields) > 1 {
					t.Nontrivial()
				}
			}
			optKey := key
			if key == "json" && t.Bool() {
				optKey = ""
			}
			strict := t.P(1, 3)
			ecfg := jzon.NewEncoderConfig(&jzon.EncoderOption{Tag: optKey, OnlyTaggedField: only, EscapeHTML: true})
			dcfg := jzon.NewDecoderConfig(&jzon.DecoderOption{Tag: optKey, OnlyTaggedField: only, DisallowUnknownFields: strict})
			caseKey := []byte(jt.String())
			defer func() { t.Key(caseKey) }()
			t.Sample(func() string { return fmt.Sprintf("key %q only %v: %s", key, only, typeStr(jt)) })
			t.Logf("key %q only %v strict %v\njzon type %s\nstd  type %s", key, only, strict, jt, st)

			vg := &gen.VG{T: t, NoBF: true, NoTagged: true}
			sv := vg.Value(st)
			jv := sv.Convert(jt)
			want, err := json.Marshal(sv.Interface())
			got, gotErr := ecfg.Marshal(jv.Interface())
			if (err == nil) != (gotErr == nil) {
				t.Failf("Marshal of %s with tag %q only %v: error %v, encoding/json %v", typeStr(jt), key, only, gotErr, err)
			}
			if err == nil {
				if d := sameJSON(got, want, vg.MultiMap); d != "" {
					t.Failf("Marshal of %s with tag %q only %v\n%s", typeStr(jt), key, only, d)
				}
			}
			for k := 0; k < 2; k++ {
				dg := &gen.DG{T: t, NoUnknown: strict && t.Bool(), Exact: t.Bool(), Wrong: 0}
				var doc []byte
				if k == 0 && err == nil && t.Bool() {
					doc = want
				} else {
					doc = dg.Doc(st)
				}
				if !validUTF8(doc) || numEscape.Match(doc) {
					continue
				}
				caseKey = append(caseKey, doc...)
				a := reflect.New(jt)
				b := reflect.New(st)
				gotErr := dcfg.Unmarshal(clone(doc), a.Interface())
				wantErr := stdStrict(doc, b.Interface(), strict)
				if gotErr != nil && wantErr == nil && quotedNumber(st, map[reflect.Type]bool{}) {
					t.Label("lax json.Number")
					continue
				}
				if (gotErr == nil) != (wantErr == nil) {
					t.Failf("Unmarshal into %s with tag %q only %v strict %v: error %v, encoding/json %v for %s", typeStr(jt), key, only, strict, gotErr, wantErr, gen.Show(doc))
				}
				if gotErr != nil {
					t.Label("rejected")
					continue
				}
				t.Label("decoded")
				if d := ref.Diff(a.Elem().Convert(st).Interface(), b.Elem().Interface()); d != "" {
					t.Failf("Unmarshal into %s with tag %q only %v: differs from encoding/json at %s for %s", typeStr(jt), key, only, d, gen.Show(doc))
				}
			}
		},
	})
}
