package props

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"sync"

	"github.com/zerosnake0/jzon"

	"verif/cat"
	"verif/eng"
	"verif/gen"
	"verif/ref"
)

// cfgPair is a pair of configs made from the same options.
type cfgOpt struct {
	tag                    string
	only, cs, num, strict  bool
	html                   bool
	useDefault, customCode bool
}

func (o *cfgOpt) make() (*jzon.DecoderConfig, *jzon.EncoderConfig) {
	if o.useDefault {
		return jzon.DefaultDecoderConfig, jzon.DefaultEncoderConfig
	}
	d := &jzon.DecoderOption{Tag: o.tag, OnlyTaggedField: o.only, CaseSensitive: o.cs, UseNumber: o.num, DisallowUnknownFields: o.strict}
	e := &jzon.EncoderOption{Tag: o.tag, OnlyTaggedField: o.only, EscapeHTML: o.html}
	return jzon.NewDecoderConfig(d), jzon.NewEncoderConfig(e)
}

func drawCfgOpt(t *eng.T) *cfgOpt {
	o := &cfgOpt{html: true}
	if t.P(1, 6) {
		o.useDefault = true
		return o
	}
	o.tag = t.Str("", "jz", "json", "none")
	o.only, o.cs, o.num, o.strict, o.html = t.P(1, 4), t.P(1, 3), t.P(1, 3), t.P(1, 4), t.P(3, 4)
	return o
}

// cop is one operation; run gives its outcome.
type cop struct {
	name string
	ty   reflect.Type
	doc  []byte
	val  interface{}
	cfg  int
	how  int
	cuts []int
	// anyErr: the value has a map of several entries, so that of several
	// failures in it any may be met first
	anyErr bool
}

type coutcome struct {
	val  interface{}
	text string
	err  string
}

func (c *coutcome) diff(o *coutcome, anyErr bool) string {
	plain := func(e string) bool { return e != "<nil>" && !strings.HasPrefix(e, "panic:") }
	if anyErr && plain(c.err) && plain(o.err) {
		return ""
	}
	if c.err != o.err {
		return fmt.Sprintf("error %s vs %s", c.err, o.err)
	}
	if c.text != o.text {
		return fmt.Sprintf("%s vs %s", gen.Show([]byte(c.text)), gen.Show([]byte(o.text)))
	}
	if c.err != "<nil>" {
		return "" // the destination after an error is not specified
	}
	return ref.Diff(c.val, o.val)
}

func canon(b []byte) string {
	n, st := ref.Document(b)
	if st != ref.OK {
		return "invalid: " + string(b)
	}
	return n.Canon(true)
}

func (o *cop) run(d *jzon.DecoderConfig, e *jzon.EncoderConfig) (r coutcome) {
	defer func() {
		if x := recover(); x != nil {
			r = coutcome{err: fmt.Sprintf("panic: %v", x)}
		}
	}()
	switch o.how {
	case 0:
		v := reflect.New(o.ty)
		r.err = errStr(d.Unmarshal(o.doc, v.Interface()))
		r.val = v.Interface()
	case 1:
		v := reflect.New(o.ty)
		dec := d.NewDecoder(&gen.Chunks{Data: o.doc, Cuts: o.cuts, Rest: 7})
		r.err = errStr(dec.Decode(v.Interface()))
		dec.Release()
		r.val = v.Interface()
	case 2:
		it := d.NewIterator()
		it.Reset(&gen.Chunks{Data: o.doc, Cuts: o.cuts})
		x, err := it.Read()
		r.err = errStr(err)
		it.Release()
		r.val = x
	case 3:
		it := d.NewIterator()
		r.text = fmt.Sprint(it.Valid(o.doc))
		it.Release()
		r.err = "<nil>"
	case 4:
		b, err := e.Marshal(o.val)
		r.err = errStr(err)
		if err == nil {
			r.text = canon(b)
		}
	case 5:
		var w bytes.Buffer
		enc := e.NewEncoder(&w)
		err := enc.Encode(o.val)
		enc.Release()
		r.err = errStr(err)
		if err == nil {
			r.text = canon(w.Bytes())
		}
	case 6:
		var w bytes.Buffer
		s := e.NewStreamer()
		s.Reset(&w)
		s.ArrayStart().Value(o.val).String("<é>").Value(o.val).ArrayEnd()
		err := s.Error
		if err == nil {
			err = s.Flush()
		}
		s.Release()
		r.err = errStr(err)
		if err == nil {
			r.text = canon(w.Bytes())
		}
	case 7:
		it := d.NewIterator()
		it.ResetBytes(o.doc)
		b, err := it.AppendRaw(nil)
		r.err = errStr(err)
		r.text = string(b)
		it.Release()
	}
	return
}

func (o *cop) exec(d []*jzon.DecoderConfig, e []*jzon.EncoderConfig) coutcome {
	return o.run(d[o.cfg], e[o.cfg])
}

var c20Static = []reflect.Type{
	ty(cat.Tree{}), ty(cat.Node2{}), ty(cat.Node3{}), ty(cat.Out1{}), ty(cat.Out5{}), ty(cat.Big{}), ty(cat.EmbDeep{}), ty(cat.Out9{}), ty(cat.JV{}), ty(cat.TV{}),
}

// drawOps draws operations over few related types.
func drawOps(t *eng.T, n, ncfg int) []*cop {
	var base []reflect.Type
	for i := t.Range(1, 3); i > 0; i-- {
		switch t.W(3, 3, 3) {
		case 0:
			base = append(base, c20Static[t.Int(len(c20Static))])
		case 1:
			base = append(base, cat.Generated[t.Int(len(cat.Generated))])
		default:
			g := &gen.TG{T: t, Enc: true, Dec: true, MaxDepth: 2}
			base = append(base, g.Type(0, true))
		}
	}
	var pool []reflect.Type
	for _, b := range base {
		pool = append(pool, b)
		for k := t.Int(3); k > 0; k-- {
			switch t.Int(5) {
			case 0:
				pool = append(pool, reflect.SliceOf(b))
			case 1:
				pool = append(pool, reflect.MapOf(ty(""), b))
			case 2:
				pool = append(pool, reflect.PtrTo(b))
			case 3:
				pool = append(pool, reflect.StructOf([]reflect.StructField{{Name: "A", Type: b}, {Name: "B", Type: reflect.PtrTo(b), Tag: `json:"b,omitempty" jz:"c"`}}))
			case 4:
				pool = append(pool, reflect.ArrayOf(2, b))
			}
		}
	}
	var ops []*cop
	for i := 0; i < n; i++ {
		o := &cop{ty: pool[t.Int(len(pool))], cfg: t.Int(ncfg), how: t.W(5, 2, 1, 1, 5, 2, 2, 1)}
		if o.how < 4 || o.how == 7 {
			dg := &gen.DG{T: t, Wrong: []int{0, 0, 30}[t.Int(3)], TagKey: t.Str("json", "jz"), NoDup: true}
			o.doc = dg.Doc(o.ty)
			for k := t.Int(4); k > 0; k-- {
				o.cuts = append(o.cuts, t.Range(1, 20))
			}
		} else {
			vg := &gen.VG{T: t, Fail: t.P(1, 5)}
			v := vg.Value(o.ty)
			o.val = v.Addr().Interface()
			o.anyErr = vg.MultiMap
		}
		ops = append(ops, o)
	}
	return ops
}

func init() {
	eng.Register(&eng.Prop{
		ID:          "C20",
		Rule:        "a case is 1 to 3 configs with different options, up to 6 goroutines each doing up to 6 operations (decoding, encoding, streaming, through all entry points) on related types with cold caches, all started together: every outcome is that of the same operation done alone with configs of its own, under the race detector; non-trivial: at least two goroutines",
		Assumptions: []string{"the race detector of go1.23.12 and the scheduler reach the interleavings that matter; schedules are sampled"},
		Race:        true, Procs: 4, Workers: 6,
		Quick: 6000, Thorough: 400000,
		Run: func(t *eng.T) {
			ncfg := t.Range(1, 3)
			var opts []*cfgOpt
			var ds []*jzon.DecoderConfig
			var es []*jzon.EncoderConfig
			for i := 0; i < ncfg; i++ {
				o := drawCfgOpt(t)
				opts = append(opts, o)
				d, e := o.make()
				ds = append(ds, d)
				es = append(es, e)
			}
			ng := t.Range(2, 6)
			nops := t.Range(1, 6)
			all := drawOps(t, ng*nops, ncfg)
			if t.Bool() {
				// the same work in all goroutines
				for i := range all {
					all[i] = all[i%nops]
				}
			}
			t.Nontrivial()
			t.Sample(func() string {
				return fmt.Sprintf("%d configs, %d goroutines, %d operations each, first on %s", ncfg, ng, nops, typeStr(all[0].ty))
			})
			before := t.Bool()
			want := make([]coutcome, len(all))
			alone := func() {
				for i, o := range all {
					d, e := opts[o.cfg].make()
					want[i] = o.run(d, e)
				}
			}
			if before {
				alone()
			}
			got := make([]coutcome, len(all))
			yield := t.Bool()
			var wg sync.WaitGroup
			start := make(chan struct{})
			for g := 0; g < ng; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					<-start
					for k := 0; k < nops; k++ {
						i := g*nops + k
						got[i] = all[i].exec(ds, es)
						if yield {
							runtime.Gosched()
						}
					}
				}(g)
			}
			close(start)
			wg.Wait()
			if !before {
				alone()
			}
			for i, o := range all {
				if d := got[i].diff(&want[i], o.anyErr); d != "" {
					t.Failf("operation %d (kind %d, config %+v) on %s: %s when run together with others vs alone; document %s value %s", i, o.how, *opts[o.cfg], typeStr(o.ty), d, gen.Show(o.doc), show(o.val))
				}
			}
		},
	})
}
