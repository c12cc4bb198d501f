package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"

	"github.com/zerosnake0/jzon"

	"verif/eng"
	"verif/gen"
	"verif/ref"
)

// c23GC keeps the garbage collector busy while cases run.
var c23GC sync.Once

func busyGC() {
	c23GC.Do(func() {
		debug.SetGCPercent(10)
		go func() {
			for {
				runtime.GC()
				for i := 0; i < 20; i++ {
					runtime.Gosched()
				}
			}
		}()
	})
}

var c23Sink int

// touch reads all the memory reachable from a value.
func touch(v reflect.Value, depth int, budget *int) {
	*budget--
	if !v.IsValid() || depth > 60 || *budget < 0 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			touch(v.Elem(), depth+1, budget)
		}
	case reflect.String:
		for i, s := 0, v.String(); i < len(s); i++ {
			c23Sink += int(s[i])
		}
	case reflect.Slice:
		if v.IsNil() && v.Cap() != 0 {
			panic(fmt.Sprintf("nil slice with capacity %d", v.Cap()))
		}
		if v.Len() > v.Cap() {
			panic(fmt.Sprintf("slice with length %d capacity %d", v.Len(), v.Cap()))
		}
		for i := 0; i < v.Len(); i++ {
			touch(v.Index(i), depth+1, budget)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			touch(v.Index(i), depth+1, budget)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		n := 0
		it := v.MapRange()
		for it.Next() {
			touch(it.Key(), depth+1, budget)
			touch(it.Value(), depth+1, budget)
			n++
		}
		if n != v.Len() {
			panic(fmt.Sprintf("map of length %d has %d entries", v.Len(), n))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			touch(v.Field(i), depth+1, budget)
		}
	case reflect.Bool:
		if v.Bool() {
			c23Sink++
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		c23Sink += int(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		c23Sink += int(v.Uint())
	}
}

var guardT = reflect.TypeOf([5]uint64{})

const guardVal = 0xa5a5_5a5a_dead_beef

func setGuard(v reflect.Value) {
	for i := 0; i < v.Len(); i++ {
		v.Index(i).SetUint(guardVal)
	}
}

func guardOK(v reflect.Value) bool {
	for i := 0; i < v.Len(); i++ {
		if v.Index(i).Uint() != guardVal {
			return false
		}
	}
	return true
}

var errReader = errors.New("reader error")

// garbage draws bytes that look more or less like JSON.
func garbage(t *eng.T, n int) []byte {
	const alphabet = "{}[]\":,\\ntfu0123456789.eE+-  \n\x00\x1f\x80\xff\xed\xa0\xe2\x80\xa8abAB"
	b := make([]byte, 0, n)
	for len(b) < n {
		if t.P(1, 4) {
			b = append(b, []string{"null", "true", "false", "\\u", "\\ud800", "1e", "{\"A\":", "[[", "\"\""}[t.Int(9)]...)
		} else {
			b = append(b, alphabet[t.Int(len(alphabet))])
		}
	}
	return b
}

// gcReader collects garbage at every read.
type gcReader struct{ r io.Reader }

func (g gcReader) Read(p []byte) (int, error) {
	runtime.GC()
	return g.r.Read(p)
}

// gcStr collects garbage in its methods.
type gcStr struct {
	S string
	P *string
}

func (g *gcStr) UnmarshalJSON(b []byte) error {
	runtime.GC()
	g.S = string(b)
	s := g.S // encoding/json reuses map elements: no pointer to the receiver
	g.P = &s
	return nil
}

func (g gcStr) MarshalJSON() ([]byte, error) {
	runtime.GC()
	return []byte(strconv.Quote(fmt.Sprint(len(g.S)))), nil
}

// gcText collects garbage in its methods, and can be a map key.
type gcText string

func (g *gcText) UnmarshalText(b []byte) error {
	runtime.GC()
	*g = gcText(b)
	return nil
}

func (g gcText) MarshalText() ([]byte, error) {
	runtime.GC()
	return []byte(string(g)), nil
}

func c23GCType(t *eng.T, depth int) reflect.Type {
	if depth == 0 {
		return []reflect.Type{ty(gcStr{}), ty(gcText("")), ty(""), ty([]byte(nil)), ty(0), ifaceT, ty((*string)(nil))}[t.W(6, 4, 4, 2, 1, 2, 2)]
	}
	switch t.W(5, 2, 3, 2, 4) {
	case 0:
		return reflect.SliceOf(c23GCType(t, depth-1))
	case 1:
		return reflect.ArrayOf(t.Range(1, 3), c23GCType(t, depth-1))
	case 2:
		k := ty("")
		if t.Bool() {
			k = ty(gcText(""))
		}
		return reflect.MapOf(k, c23GCType(t, depth-1))
	case 3:
		return reflect.PtrTo(c23GCType(t, depth-1))
	default:
		var fs []reflect.StructField
		for i, n := 0, t.Range(1, 4); i < n; i++ {
			fs = append(fs, reflect.StructField{Name: string(rune('A' + i)), Type: c23GCType(t, depth-1)})
		}
		return reflect.StructOf(fs)
	}
}

func c23Fill(t *eng.T, v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !t.P(1, 5) {
			v.Set(reflect.New(v.Type().Elem()))
			c23Fill(t, v.Elem())
		}
	case reflect.Slice:
		n := t.Range(0, 5)
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			c23Fill(t, v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			c23Fill(t, v.Index(i))
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		for i, n := 0, t.Range(0, 3); i < n; i++ {
			k := reflect.New(v.Type().Key()).Elem()
			c23Fill(t, k)
			e := reflect.New(v.Type().Elem()).Elem()
			c23Fill(t, e)
			v.SetMapIndex(k, e)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			c23Fill(t, v.Field(i))
		}
	case reflect.Interface:
		v.Set(reflect.ValueOf([]interface{}{strings.Repeat("i", t.Range(0, 40)), map[string]interface{}{"k": "v"}}))
	case reflect.String:
		v.SetString(strings.Repeat("s", t.Range(0, 40)) + fmt.Sprint(t.Int(100)))
	case reflect.Uint8:
		v.SetUint(uint64(t.Int(256)))
	case reflect.Int:
		v.SetInt(int64(t.Int(1000)))
	}
}

// c23Collect decodes and encodes while the user's own methods, the reader and
// the writer collect garbage.
func c23Collect(t *eng.T) {
	t.Label("collecting")
	t.Nontrivial()
	ty := c23GCType(t, t.Range(1, 3))
	v := reflect.New(ty)
	c23Fill(t, v.Elem())
	doc, err := json.Marshal(v.Interface())
	if err != nil {
		t.Skip()
	}
	t.Key(doc)
	t.Sample(func() string { return typeStr(ty) + " <- " + gen.Show(doc) })
	got, err := jzon.NewEncoderConfig(nil).Marshal(v.Interface())
	if err != nil {
		t.Failf("encode of %s: %v", typeStr(ty), err)
	}
	if d := sameJSON(got, doc, true); d != "" {
		t.Failf("encode of %s while garbage is collected: %s", typeStr(ty), d)
	}
	a, b := reflect.New(ty), reflect.New(ty)
	cfg := jzon.NewDecoderConfig(nil)
	if t.Bool() {
		err = cfg.Unmarshal(clone(doc), a.Interface())
	} else {
		err = cfg.UnmarshalFromReader(gcReader{&gen.Chunks{Data: doc, Rest: t.Range(3, 90)}}, a.Interface())
	}
	if err != nil {
		t.Failf("decode into %s: %v for %s", typeStr(ty), err, gen.Show(doc))
	}
	if err := json.Unmarshal(doc, b.Interface()); err != nil {
		t.Skip()
	}
	if d := ref.Diff(a.Interface(), b.Interface()); d != "" {
		t.Failf("decode into %s while garbage is collected: differs at %s for %s", typeStr(ty), d, gen.Show(doc))
	}
}

func init() {
	eng.Register(&eng.Prop{
		ID:          "C23",
		Rule:        "a case is a Go type, a destination of it (zero or filled) between guard words, and an arbitrary byte string (a document for the type, damaged, truncated, made for another type, or garbage) decoded from bytes or from a reader that may fail; or a value encoded into a failing or working writer; run with the race detector's pointer checks, the debug assertions of the library, a garbage collector that runs all the time and overwrites freed memory. No panic, no hang, the guard words intact, all memory reachable from the destination well formed afterwards, the same result as encoding/json when both succeed, and the input unchanged; non-trivial: more than 4 bytes of input",
		Assumptions: []string{"memory errors show as a runtime fault, a pointer check, a changed guard word or wrong contents"},
		Race:        true, Procs: 2, Workers: 6,
		Quick: 70000, Thorough: 4000000,
		Run: func(t *eng.T) {
			busyGC()
			if t.P(1, 250) {
				c23Collect(t)
				return
			}
			if t.P(1, 5) {
				g := &gen.TG{T: t, Enc: true, MaxDepth: t.Range(0, 3)}
				ty := g.Type(0, true)
				vg := &gen.VG{T: t, Fail: t.P(1, 3), BadUTF8: true}
				v := vg.Value(ty)
				x := v.Addr().Interface()
				if t.Bool() {
					x = v.Interface()
				}
				t.Label("encode")
				e := pickEnc(t)
				got, err := e.f(t, encConfig(t, ty), t.Bool(), x)
				t.Key(got)
				if len(got) > 4 {
					t.Nontrivial()
				}
				if err == nil && !ref.Valid(got) {
					t.Failf("encode: %s gives invalid JSON %s", typeStr(ty), gen.Show(got))
				}
				return
			}
			g := &gen.TG{T: t, Dec: true, MaxDepth: t.Range(0, 4)}
			ty := g.Type(0, true)
			box := reflect.New(reflect.StructOf([]reflect.StructField{
				{Name: "Pre", Type: guardT}, {Name: "V", Type: ty}, {Name: "Post", Type: guardT}})).Elem()
			setGuard(box.Field(0))
			setGuard(box.Field(2))
			dst := box.Field(1)
			zero := true
			if t.P(1, 3) {
				vg := &gen.VG{T: t}
				dst.Set(vg.Value(ty))
				zero = false
				t.Label("filled")
			}
			var doc []byte
			switch t.W(6, 3, 3, 2, 2) {
			case 0:
				dg := &gen.DG{T: t, Wrong: []int{0, 10, 60}[t.Int(3)], WS: t.Int(3)}
				doc = dg.Doc(ty)
			case 1:
				dg := &gen.DG{T: t}
				doc = gen.Mutate(t, dg.Doc(ty), 3)
			case 2:
				dg := &gen.DG{T: t}
				doc = dg.Doc(ty)
				doc = doc[:t.Range(0, len(doc))]
			case 3:
				dg := &gen.DG{T: t}
				doc = dg.Doc((&gen.TG{T: t, Dec: true, MaxDepth: 3}).Type(0, true))
			default:
				doc = garbage(t, t.Size(60))
			}
			if len(doc) > 4 {
				t.Nontrivial()
			}
			t.Key(doc)
			t.Sample(func() string { return typeStr(ty) + " <- " + gen.Show(doc) })
			cfg := jzon.NewDecoderConfig(&jzon.DecoderOption{UseNumber: t.P(1, 8), DisallowUnknownFields: t.P(1, 8), CaseSensitive: t.P(1, 8)})
			in := clone(doc)
			var err error
			broken := false
			p := dst.Addr().Interface()
			if t.P(1, 5) {
				c := gen.Chunked(t, in)
				c.Err = errReader
				broken = true
				it := cfg.NewIterator()
				it.Reset(c)
				err = it.ReadVal(p)
				it.Release()
			} else {
				err = pickEntry(t).f(cfg, t, in, p)
			}
			if string(in) != string(doc) {
				t.Failf("the input was modified: %s", gen.Show(doc))
			}
			if !guardOK(box.Field(0)) || !guardOK(box.Field(2)) {
				t.Failf("memory next to the destination was overwritten: %s into %s", gen.Show(doc), typeStr(ty))
			}
			budget := 20000
			touch(dst, 0, &budget)
			if err != nil {
				t.Label("error")
				return
			}
			t.Label("decoded")
			if zero && !broken && validUTF8(doc) && !(numberInString(ty) && numEscape.Match(doc)) {
				w := reflect.New(ty)
				if json.Unmarshal(doc, w.Interface()) == nil {
					cfg2 := jzon.NewDecoderConfig(nil)
					again := reflect.New(ty)
					if err := cfg2.Unmarshal(in, again.Interface()); err != nil {
						return // an option was at work
					}
					if d := ref.Diff(again.Interface(), w.Interface()); d != "" {
						t.Failf("decoding %s into %s: differs from encoding/json at %s", gen.Show(doc), typeStr(ty), d)
					}
				}
			}
		},
	})
}
