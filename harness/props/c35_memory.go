package props

import (
	"encoding/json"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"strings"

	"github.com/zerosnake0/jzon"

	"verif/eng"
	"verif/gen"
	"verif/ref"
)

// c35Src is a long stream made of a few units in turn; it is never in memory
// as a whole.
type c35Src struct {
	pre, post []byte
	units     [][]byte // each with its separator
	last      []byte   // in place of the last unit
	n         int      // number of units

	cur  []byte
	i    int // -1: before pre
	mode int
	k    int
	rnd  uint32

	reads, total, room int
}

func (s *c35Src) next() {
	for len(s.cur) == 0 && s.i <= s.n {
		switch {
		case s.i < 0:
			s.cur = s.pre
		case s.i == s.n-1:
			s.cur = s.last
		case s.i < s.n:
			s.cur = s.units[s.i%len(s.units)]
		default:
			s.cur = s.post
		}
		s.i++
	}
}

func (s *c35Src) Read(p []byte) (int, error) {
	s.reads++
	if len(p) < s.room || s.reads == 1 {
		s.room = len(p)
	}
	want := len(p)
	switch s.mode {
	case 1:
		if s.k < want {
			want = s.k
		}
	case 2: // up to a place inside of a unit
		s.next()
		w := len(s.cur) - s.k
		if w <= 0 {
			w += len(s.units[(s.i+len(s.units))%len(s.units)])
		}
		if w > 0 && w < want {
			want = w
		}
	case 3:
		s.rnd = s.rnd*1664525 + 1013904223
		if w := 1 + int(s.rnd>>16)%s.k; w < want {
			want = w
		}
	}
	n := 0
	for n < want {
		s.next()
		if len(s.cur) == 0 {
			break
		}
		c := copy(p[n:want], s.cur)
		n += c
		s.cur = s.cur[c:]
	}
	s.total += n
	if n == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

// c35Heap is the size of the live heap.
func c35Heap() int64 {
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

var c35Structs = []func() interface{}{
	func() interface{} { return &struct{}{} },
	func() interface{} { return &struct{ B string }{} },
	func() interface{} {
		return &struct {
			A interface{}
			B string
			C []int
		}{}
	},
	func() interface{} {
		return &struct {
			A interface{}
			U string `json:"-"`
			B string
		}{}
	},
	func() interface{} {
		return &struct {
			A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10 int
			B                                           string
		}{}
	},
}

type c35Op struct {
	name string
	f    func(it *jzon.Iterator) error
}

// c35Ops consume one value and keep nothing.
var c35Ops = []c35Op{
	{"Skip", func(it *jzon.Iterator) error { return it.Skip() }},
	{"SkipRaw", func(it *jzon.Iterator) error { _, err := it.SkipRaw(); return err }},
	{"ReadRaw", func(it *jzon.Iterator) error { _, err := it.ReadRaw(); return err }},
	{"AppendRaw", func(it *jzon.Iterator) error { _, err := it.AppendRaw(nil); return err }},
	{"Read", func(it *jzon.Iterator) error { _, err := it.Read(); return err }},
	{"ReadVal(interface{})", func(it *jzon.Iterator) error { var x interface{}; return it.ReadVal(&x) }},
	{"ReadVal(RawMessage)", func(it *jzon.Iterator) error { var x json.RawMessage; return it.ReadVal(&x) }},
	{"ReadVal(method)", func(it *jzon.Iterator) error { var x c35Meth; return it.ReadVal(&x) }},
}

var c35Str = c35Op{"ReadString", func(it *jzon.Iterator) error { _, err := it.ReadString(); return err }}
var c35Num = c35Op{"ReadNumber", func(it *jzon.Iterator) error { _, err := it.ReadNumber(); return err }}
var c35Flt = c35Op{"ReadFloat64", func(it *jzon.Iterator) error { _, err := it.ReadFloat64(); return err }}

type c35Meth struct{ n int }

func (m *c35Meth) UnmarshalJSON(b []byte) error { m.n = len(b); return nil }

func c35Decode(t *eng.T) {
	j := gen.DefaultJ()
	j.Budget, j.NoHuge, j.LongStr = t.Range(1, 40), true, 300
	s := &c35Src{i: -1, room: 1 << 30, rnd: uint32(t.U64())}
	max, sum := 0, 0
	var texts [][]byte
	kind := t.W(2, 1, 1) // any value, strings, numbers
	for n := t.Range(1, 4); n > 0; n-- {
		var text []byte
		switch kind {
		case 0:
			text = gen.Text(t, nil, j)
		case 1:
			text = gen.KeyLit(t, nil, gen.GoString(t, false))
		default:
			text = []byte(gen.Number(t, true))
		}
		if len(text) > 4096 {
			t.Skip()
		}
		if nd, st := ref.Document(text); st != ref.OK {
			t.Skip()
		} else if _, ok := nd.Interface(nil); !ok {
			t.Skip()
		}
		texts = append(texts, text)
	}
	// ---- the shape of the stream
	shape := t.Int(6)
	skipKind := ""
	sep := []string{" ", "\n", "\r\n\t  "}[t.Int(3)]
	switch shape {
	case 0, 1: // values one after another
		for _, x := range texts {
			s.units = append(s.units, append(clone(x), sep...))
		}
		s.last = clone(texts[0])
	case 2: // one array
		s.pre, s.post = []byte("["), []byte("]")
		for _, x := range texts {
			s.units = append(s.units, append(append(clone(x), ','), gen.WS(t, nil, 1)...))
		}
		s.last = clone(texts[0])
	case 3, 4: // one long value to be skipped
		s.pre, s.post = []byte{}, []byte{}
		for k := t.Int(3); k > 0; k-- {
			if t.Bool() {
				s.pre, s.post = append(s.pre, '['), append([]byte{']'}, s.post...)
			} else {
				s.pre, s.post = append(s.pre, `{"k":`...), append([]byte{'}'}, s.post...)
			}
		}
		switch what := t.Int(4); {
		case what == 0:
			skipKind = "array"
			s.pre, s.post = append(s.pre, '['), append([]byte{']'}, s.post...)
			for _, x := range texts {
				s.units = append(s.units, append(append(clone(x), ','), gen.WS(t, nil, 1)...))
			}
			s.last = clone(texts[0])
		case what == 1:
			skipKind = "object"
			s.pre, s.post = append(s.pre, '{'), append([]byte{'}'}, s.post...)
			for _, x := range texts {
				u := append(gen.KeyLit(t, nil, gen.GoString(t, false)), ':')
				s.units = append(s.units, append(append(u, x...), ','))
			}
			s.last = s.units[0][:len(s.units[0])-1]
		case what == 2:
			skipKind = "string"
			s.pre, s.post = append(s.pre, '"'), append([]byte{'"'}, s.post...)
			for range texts {
				x := gen.KeyLit(t, nil, gen.GoString(t, false))
				s.units = append(s.units, append(x[1:len(x)-1], 'x'))
			}
			s.last = s.units[0]
		default:
			skipKind = "number"
			switch t.Int(3) {
			case 0:
				s.pre = append(s.pre, "-1"...)
			case 1:
				s.pre = append(s.pre, "0."...)
			default:
				s.pre = append(s.pre, "1e-"...)
			}
			s.units = [][]byte{[]byte(strings.Repeat("7", t.Range(1, 40)))}
			s.last = s.units[0]
		}
		if shape == 4 {
			s.pre, s.post = append([]byte(`{"unknown":`), s.pre...), append(s.post, `,"B":"end"}`...)
		}
	case 5: // one object
		s.pre, s.post = []byte("{"), []byte("}")
		for _, x := range texts {
			u := append(gen.KeyLit(t, nil, gen.GoString(t, false)), ':')
			s.units = append(s.units, append(append(u, x...), ','))
		}
		s.last = s.units[0][:len(s.units[0])-1]
	}
	for _, u := range s.units {
		sum += len(u)
		if len(u) > max {
			max = len(u)
		}
	}
	target := t.Range(100, 600) << 10
	s.n = target / sum * len(s.units)
	if s.n < 2 {
		s.n = 2
	}
	// ---- the packets
	s.mode = t.W(2, 3, 4, 3)
	switch s.mode {
	case 1:
		s.k = t.Range(3, 700)
	case 2:
		s.k = 1 + t.Int(max)
		if t.P(1, 2) {
			s.k = 1 + t.Int(4)
		}
	case 3:
		s.k = t.Range(4, 800)
	}
	cfg := jzon.DefaultDecoderConfig
	ops := c35Ops
	switch kind {
	case 1:
		ops = append([]c35Op{c35Str}, c35Ops...)
	case 2:
		ops = append([]c35Op{c35Num, c35Flt}, c35Ops...)
	}
	one := ops[t.Int(len(ops))]
	mixed := t.P(1, 3)
	pick := func(i int) c35Op {
		if !mixed {
			return one
		}
		return ops[(i*7+s.k)%len(ops)]
	}
	how := one.name
	if mixed {
		how = "mixed operations"
	}
	dB, d4, dS := t.Bool(), t.Int(4), t.Int(len(c35Structs))
	desc := func() string {
		return how + " of " + gen.Show(s.pre) + gen.Show(s.units[0])
	}
	start := *s
	measure := func() string {
		*s = start
		runtime.GC()
		base := c35Heap()
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		var it *jzon.Iterator
		var dec *jzon.Decoder
		var err error
		done := 0
		fin := int64(-1)
		switch shape {
		case 0: // Decoder
			dec = cfg.NewDecoder(s)
			var target func() interface{}
			switch d4 {
			case 0:
				how, target = "Decode(interface{})", func() interface{} { return new(interface{}) }
			case 1:
				how, target = "Decode(RawMessage)", func() interface{} { return new(json.RawMessage) }
			case 2:
				how, target = "Decode(method)", func() interface{} { return new(c35Meth) }
			default:
				how, target = "Decode(Number or interface{})", func() interface{} { return new(interface{}) }
				dec.UseNumber()
			}
			for {
				if err = dec.Decode(target()); err != nil {
					break
				}
				done++
			}
			if err == io.EOF {
				err = nil
			}
			fin = dec.InputOffset()
		case 1:
			it = cfg.NewIterator()
			it.Reset(s)
			for ; done < s.n; done++ {
				if err = pick(done).f(it); err != nil {
					break
				}
			}
		case 2:
			it = cfg.NewIterator()
			it.Reset(s)
			if dB {
				err = it.ReadArrayCB(func(it *jzon.Iterator) error {
					done++
					return pick(done).f(it)
				})
				break
			}
			var more bool
			for more, err = it.ReadArrayBegin(); more && err == nil; more, err = it.ReadArrayMore() {
				if err = pick(done).f(it); err != nil {
					break
				}
				done++
			}
		case 3:
			how = "Skip of a long " + skipKind
			it = cfg.NewIterator()
			it.Reset(s)
			switch {
			case len(s.pre) > 0 && s.pre[0] == '[' && dB:
				how = "SkipArray of a long " + skipKind
				err = it.SkipArray()
			case len(s.pre) > 0 && s.pre[0] == '{' && dB:
				how = "SkipObject of a long " + skipKind
				err = it.SkipObject()
			case len(s.pre) > 0 && s.pre[0] == '[' && dB:
				how = "[0]int of a long " + skipKind
				var x [0]int
				err = it.ReadVal(&x)
			case len(s.pre) > 0 && s.pre[0] == '"' && dB:
				how = "SkipString"
				err = it.SkipString()
			case len(s.pre) > 0 && strings.IndexByte("-01", s.pre[0]) >= 0 && dB:
				how = "SkipNumber"
				err = it.SkipNumber()
			default:
				err = it.Skip()
			}
			done = s.n
		case 4:
			how = "unknown member, a long " + skipKind
			x := c35Structs[dS]()
			if dB {
				dec = cfg.NewDecoder(s)
				err = dec.Decode(x)
			} else {
				it = cfg.NewIterator()
				it.Reset(s)
				err = it.ReadVal(x)
			}
			if b := reflect.ValueOf(x).Elem().FieldByName("B"); err == nil && b.IsValid() && b.String() != "end" {
				t.Failf("the member after a skipped one is %q", b)
			}
			done = s.n
		case 5:
			it = cfg.NewIterator()
			it.Reset(s)
			if dB {
				err = it.ReadObjectCB(func(it *jzon.Iterator, field string) error {
					done++
					return pick(done).f(it)
				})
				break
			}
			var more bool
			for more, _, err = it.ReadObjectBegin(); more && err == nil; more, _, err = it.ReadObjectMore() {
				if err = pick(done).f(it); err != nil {
					break
				}
				done++
			}
		}
		runtime.ReadMemStats(&m1)
		t.Label(how)
		if err != nil || done != s.n {
			t.Failf("%s: error %v after %d of %d values", desc(), err, done, s.n)
		}
		if fin >= 0 && fin != int64(s.total) {
			t.Failf("%s: offset %d at the end, %d bytes", desc(), fin, s.total)
		}
		live := c35Heap() - base
		runtime.KeepAlive(it)
		runtime.KeepAlive(dec)
		t.Logf("%s: %d bytes in %d reads, live %d, allocated %d, room %d", desc(), s.total, s.reads, live, m1.TotalAlloc-m0.TotalAlloc, s.room)
		bad := ""
		if lim := int64(24<<10 + 8*max); live > lim {
			bad = fmt.Sprintf("%s: %d bytes of memory are held after %d bytes in %d reads, the longest value has %d bytes", desc(), live, s.total, s.reads, max)
		}
		if lim := uint64(64<<10 + 2048*s.reads + 200*s.total); m1.TotalAlloc-m0.TotalAlloc > lim {
			bad = fmt.Sprintf("%s: %d bytes were allocated for %d bytes in %d reads", desc(), m1.TotalAlloc-m0.TotalAlloc, s.total, s.reads)
		}
		if s.room < 16 {
			bad = fmt.Sprintf("%s: a read was offered room for %d bytes only", desc(), s.room)
		}
		if it != nil {
			it.Release()
		}
		if dec != nil {
			dec.Release()
		}
		return bad
	}
	// what holds memory does so every time; the first time caches may be filled
	for try := 0; ; try++ {
		bad := measure()
		if bad == "" {
			break
		}
		if try == 2 {
			t.Failf("%s", bad)
		}
	}
	t.Nontrivial()
	t.Key([]byte(desc()))
	t.Key([]byte{byte(s.mode), byte(s.k), byte(s.k >> 8)})
	t.Sample(desc)
}

type c35Count struct{ n, max int }

func (w *c35Count) Write(p []byte) (int, error) {
	w.n += len(p)
	if len(p) > w.max {
		w.max = len(p)
	}
	return len(p), nil
}

func c35Encode(t *eng.T) {
	g := &gen.TG{T: t, Enc: true, MaxDepth: t.Range(0, 2)}
	ty := g.Type(0, true)
	var xs []interface{}
	sum, max := 0, 0
	for n := t.Range(1, 3); n > 0; n-- {
		vg := &gen.VG{T: t, NoBF: true}
		x := vg.Value(ty).Addr().Interface()
		b, err := stdEncode(x, true)
		if err != nil || len(b) > 4096 {
			t.Skip()
		}
		sum += len(b)
		if len(b) > max {
			max = len(b)
		}
		xs = append(xs, x)
	}
	rounds := (t.Range(100, 300) << 10) / (sum + 20)
	how, every := t.Int(3), t.Range(1, 3)
	name := [...]string{"Encoder", "Streamer with flushes", "Marshal"}[how]
	t.Label(name)
	cfg := jzon.DefaultEncoderConfig
	for _, x := range xs {
		cfg.Marshal(x) // the codecs of the types are made once
	}
	measure := func() string {
		w := &c35Count{}
		runtime.GC()
		base := c35Heap()
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		var enc *jzon.Encoder
		var s *jzon.Streamer
		n := 0
		fail := func(err error) {
			if err != nil {
				t.Failf("%s of %s: %v", name, typeStr(ty), err)
			}
		}
		switch how {
		case 0:
			enc = cfg.NewEncoder(w)
			for ; n < rounds; n++ {
				fail(enc.Encode(xs[n%len(xs)]))
			}
		case 1:
			s = cfg.NewStreamer()
			s.Reset(w)
			s.ArrayStart()
			for ; n < rounds; n++ {
				s.Value(xs[n%len(xs)])
				if n%every == 0 {
					fail(s.Flush())
				}
			}
			s.ArrayEnd()
			fail(s.Flush())
		default:
			for ; n < rounds; n++ {
				_, err := cfg.Marshal(xs[n%len(xs)])
				fail(err)
			}
		}
		runtime.ReadMemStats(&m1)
		live := c35Heap() - base
		runtime.KeepAlive(enc)
		runtime.KeepAlive(s)
		t.Logf("%s of %s: %d values of up to %d bytes, live %d, allocated %d, longest write %d", name, typeStr(ty), n, max, live, m1.TotalAlloc-m0.TotalAlloc, w.max)
		bad := ""
		if live > int64(24<<10+16*max) {
			bad = fmt.Sprintf("%s of %s: %d bytes of memory are held after %d values of up to %d bytes", name, typeStr(ty), live, n, max)
		}
		if enc != nil {
			enc.Release()
		}
		if s != nil {
			s.Release()
		}
		return bad
	}
	for try := 0; ; try++ {
		bad := measure()
		if bad == "" {
			break
		}
		if try == 2 {
			t.Failf("%s", bad)
		}
	}
	t.Nontrivial()
	t.Key([]byte(name + ty.String()))
	t.Sample(func() string { return name + " of " + typeStr(ty) })
}

func init() {
	eng.Register(&eng.Prop{
		ID:          "C35",
		Rule:        "a case is a stream of 100 to 600 KB made of up to four values in turn (any values, strings or numbers; one after another, or the elements or members of one array or object, or a member to be skipped), cut into packets of a size, of random sizes or ending inside of the values, and read value by value with one operation or several in turn that keep nothing; or thousands of values of a type written with one encoder or streamer that is flushed, or with Marshal; the live heap after a garbage collection is compared with the one before, bounded by a few times the longest value; all bytes allocated while reading are bounded by a multiple of the bytes and reads, and the room offered to the reader is never less than 16 bytes; non-trivial: all",
		Assumptions: []string{"the live heap is the one reported by the Go runtime after a garbage collection; the worker does nothing else at the same time"},
		Quick:       6000, Thorough: 200000,
		Run: func(t *eng.T) {
			if t.P(4, 5) {
				c35Decode(t)
			} else {
				c35Encode(t)
			}
		},
	})
}
