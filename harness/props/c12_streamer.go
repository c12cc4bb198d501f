package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"math"
	"strconv"

	"github.com/zerosnake0/jzon"

	"verif/cat"
	"verif/eng"
	"verif/gen"
	"verif/ref"
)

// quote is the reference spelling of a string.
func quote(s string, html bool) []byte {
	b, err := stdEncode(s, html)
	if err != nil {
		panic(err)
	}
	return stdNorm(b)
}

// script is a well formed sequence of streamer operations together with the
// text it has to produce.
type script struct {
	t    *eng.T
	s    *jzon.Streamer
	out  []byte // model of everything written
	html bool
	ops  int
	n    int
	// flush is called at random points
	flush func()
	log   []string
}

func (x *script) op(name string, ret *jzon.Streamer) {
	x.ops++
	if x.ops < 60 {
		x.t.Logf("  %s", name)
	}
	if ret != x.s {
		x.t.Failf("%s: another streamer returned", name)
	}
	if x.flush != nil && x.t.P(1, 8) {
		x.flush()
	}
}

func (x *script) lit(name string, ret *jzon.Streamer, want string) {
	x.out = append(x.out, want...)
	x.op(name, ret)
}

// value writes one value.
func (x *script) value(depth int) {
	t, s := x.t, x.s
	x.n++
	rec := 4
	if depth > 5 || x.n > 60 {
		rec = 0
	}
	switch t.W(2, 3, 6, 6, 4, 4, 2, 2, rec, rec) {
	case 0:
		x.lit("Null", s.Null(), "null")
	case 1:
		switch t.Int(4) {
		case 0:
			x.lit("True", s.True(), "true")
		case 1:
			x.lit("False", s.False(), "false")
		case 2:
			x.lit("Bool(true)", s.Bool(true), "true")
		default:
			x.lit("Bool(false)", s.Bool(false), "false")
		}
	case 2:
		switch t.Int(5) {
		case 0:
			v := gen.Int64For(t, 8)
			x.lit("Int8", s.Int8(int8(v)), strconv.FormatInt(v, 10))
		case 1:
			v := gen.Int64For(t, 16)
			x.lit("Int16", s.Int16(int16(v)), strconv.FormatInt(v, 10))
		case 2:
			v := gen.Int64For(t, 32)
			x.lit("Int32", s.Int32(int32(v)), strconv.FormatInt(v, 10))
		case 3:
			v := gen.Int64For(t, 64)
			x.lit("Int64", s.Int64(v), strconv.FormatInt(v, 10))
		default:
			v := gen.Int64For(t, 64)
			x.lit("Int", s.Int(int(v)), strconv.FormatInt(v, 10))
		}
	case 3:
		switch t.Int(5) {
		case 0:
			v := gen.Uint64For(t, 8)
			x.lit("Uint8", s.Uint8(uint8(v)), strconv.FormatUint(v, 10))
		case 1:
			v := gen.Uint64For(t, 16)
			x.lit("Uint16", s.Uint16(uint16(v)), strconv.FormatUint(v, 10))
		case 2:
			v := gen.Uint64For(t, 32)
			x.lit("Uint32", s.Uint32(uint32(v)), strconv.FormatUint(v, 10))
		case 3:
			v := gen.Uint64For(t, 64)
			x.lit("Uint64", s.Uint64(v), strconv.FormatUint(v, 10))
		default:
			v := gen.Uint64For(t, 64)
			x.lit("Uint", s.Uint(uint(v)), strconv.FormatUint(v, 10))
		}
	case 4:
		if t.Bool() {
			f := gen.Float64(t)
			b, _ := json.Marshal(f)
			x.lit("Float64", s.Float64(f), string(b))
		} else {
			f := gen.Float32(t)
			b, _ := json.Marshal(f)
			x.lit("Float32", s.Float32(f), string(b))
		}
	case 5:
		v := gen.GoString(t, t.P(1, 8))
		x.lit("String", s.String(v), string(quote(v, x.html)))
	case 6:
		r := t.Str("1", "[1,2]", `{"a":"b"}`, "null", `"raw<>"`, " [ ] ", "true")
		if t.Bool() {
			b := []byte(r)
			ret := s.Raw(b)
			for i := range b { // the streamer keeps no reference
				b[i] = '#'
			}
			x.lit("Raw", ret, r)
		} else {
			x.lit("RawString", s.RawString(r), r)
		}
	case 7:
		vg := &gen.VG{T: t, NoBF: true}
		v := vg.Any()
		if vg.MultiMap {
			v = nil
		}
		w, err := stdEncode(v, x.html)
		if err != nil {
			t.Skip()
		}
		x.lit("Value", s.Value(v), string(stdNorm(w)))
	case 8:
		x.lit("ArrayStart", s.ArrayStart(), "[")
		n := t.Size(300) % 9
		for i := 0; i < n; i++ {
			if i > 0 {
				x.out = append(x.out, ',')
			}
			x.value(depth + 1)
		}
		x.lit("ArrayEnd", s.ArrayEnd(), "]")
	default:
		x.lit("ObjectStart", s.ObjectStart(), "{")
		n := t.Int(6)
		for i := 0; i < n; i++ {
			if i > 0 {
				x.out = append(x.out, ',')
			}
			k := gen.GoString(t, t.P(1, 8))
			if t.P(1, 3) {
				q := quote(k, x.html)
				keep := string(q)
				ret := s.RawField(q)
				for i := range q {
					q[i] = '#'
				}
				x.lit("RawField", ret, keep+":")
			} else {
				x.lit("Field", s.Field(k), string(quote(k, x.html))+":")
			}
			x.value(depth + 1)
		}
		x.lit("ObjectEnd", s.ObjectEnd(), "}")
	}
}

var errManual = errors.New("set by the caller")

// breakIt puts the streamer in an error state.
func breakIt(t *eng.T, s *jzon.Streamer) (string, error) {
	switch t.Int(7) {
	case 0:
		s.Float64(math.NaN())
		return "Float64(NaN)", jzon.ErrFloatIsNan
	case 1:
		s.Float64(math.Inf(1 - 2*t.Int(2)))
		return "Float64(Inf)", jzon.ErrFloatIsInfinity
	case 2:
		s.Float32(float32(math.NaN()))
		return "Float32(NaN)", jzon.ErrFloatIsNan
	case 3:
		s.Float32(float32(math.Inf(1 - 2*t.Int(2))))
		return "Float32(Inf)", jzon.ErrFloatIsInfinity
	case 4:
		s.Value(make(chan int))
		return "Value(chan)", nil
	case 5:
		s.Value(cat.JV{S: "ERR"})
		return "Value(failing marshaler)", cat.ErrUser
	default:
		s.Error = errManual
		return "Error =", errManual
	}
}

func init() {
	eng.Register(&eng.Prop{
		ID:          "C12",
		Rule:        "a case is 1 to 3 lives of one streamer: a well formed sequence of writing operations, flushed at random points, compared byte for byte with a model of the text; or a sequence with an error in the middle, after which nothing more is written until Reset; non-trivial: at least 4 operations",
		Assumptions: []string{refNote, "the spelling of single numbers and strings is taken from encoding/json"},
		Quick:       2250000, Thorough: 50000000,
		Run: func(t *eng.T) {
			cfg := jzon.DefaultEncoderConfig
			var s *jzon.Streamer
			html := true
			switch t.Int(3) {
			case 0:
				s = jzon.NewStreamer()
			case 1:
				s = cfg.NewStreamer()
			default:
				html = t.Bool()
				s = jzon.NewEncoderConfig(&jzon.EncoderOption{EscapeHTML: html}).NewStreamer()
			}
			defer s.Release()
			total := 0
			for life := t.Range(1, 3); life > 0; life-- {
				var w bytes.Buffer
				s.Reset(&w)
				if t.P(1, 4) {
					html = t.Bool()
					s.EscapeHTML(html)
				}
				t.Logf("life (html %v)", html)
				flushed := 0
				x := &script{t: t, s: s, html: html}
				x.flush = func() {
					if err := s.Flush(); err != nil {
						t.Failf("Flush: %v", err)
					}
					flushed++
					if w.String() != string(x.out) {
						t.Failf("Flush: has written %s instead of %s", gen.Show(w.Bytes()), gen.Show(x.out))
					}
				}
				fail := t.P(1, 4)
				if fail {
					x.flush = nil
					if t.Bool() {
						x.value(0) // then the error comes after it
						if s.Error != nil {
							t.Failf("Error: %v after well formed operations", s.Error)
						}
					} else {
						s.ArrayStart()
						if t.Bool() {
							s.Int(1)
						}
					}
					name, want := breakIt(t, s)
					if s.Error == nil || want != nil && s.Error != want {
						t.Failf("%s: error %v", name, s.Error)
					}
					err := s.Error
					flushedLen := w.Len()
					for k := t.Range(1, 4); k > 0; k-- {
						y := &script{t: t, s: s, html: html}
						y.value(4)
						if t.Bool() {
							s.ArrayEnd().ObjectStart().Field("a").ObjectEnd().RawField([]byte(`"x"`))
						}
						if s.Error != err {
							t.Failf("Error: %v replaced by %v", err, s.Error)
						}
						if e := s.Flush(); e != err {
							t.Failf("Flush: %v after the error %v", e, err)
						}
					}
					if w.Len() != flushedLen {
						t.Failf("Flush: wrote %s after an error", gen.Show(w.Bytes()))
					}
					total += 4
					t.Label("error")
					continue
				}
				x.value(0)
				if s.Error != nil {
					t.Failf("Error: %v after well formed operations", s.Error)
				}
				x.flush()
				total += x.ops
				t.Key(x.out)
				t.Sample(func() string { return gen.Show(x.out) })
				if _, st := ref.Document(x.out); st != ref.OK && validUTF8(x.out) {
					t.Failf("model: %s", gen.Show(x.out))
				}
				if flushed > 1 {
					t.Label("flushed in the middle")
				}
				t.Label("well formed")
			}
			if total >= 4 {
				t.Nontrivial()
			}
			// without a writer
			s.Reset(nil)
			if err := s.Int(1).Flush(); err != jzon.ErrNoAttachedWriter {
				t.Failf("Flush: %v without a writer", err)
			}
		},
	})
}

// faultyWriter keeps to the contract of io.Writer and fails at chosen calls.
type faultyWriter struct {
	got  []byte
	plan []int // per call: -1 all; otherwise accept that many bytes and fail
	i    int
	err  error
	n    int // calls
	bad  int // failed calls
}

func (w *faultyWriter) Write(p []byte) (int, error) {
	w.n++
	k := -1
	if w.i < len(w.plan) {
		k = w.plan[w.i]
		w.i++
	}
	if k < 0 {
		w.got = append(w.got, p...)
		return len(p), nil
	}
	if k > len(p) {
		k = len(p)
	}
	w.got = append(w.got, p[:k]...)
	w.bad++
	return k, w.err
}

var _ io.Writer = (*faultyWriter)(nil)

func faulty(t *eng.T) *faultyWriter {
	w := &faultyWriter{err: errors.New("writer error")}
	for k := t.Range(1, 6); k > 0; k-- {
		switch t.W(3, 2, 2) {
		case 0:
			w.plan = append(w.plan, -1)
		case 1:
			w.plan = append(w.plan, t.Int(6))
		default:
			n := t.Size(400)
			if t.P(1, 20) {
				n = gen.Big(t)
			}
			w.plan = append(w.plan, n)
		}
	}
	return w
}

func init() {
	eng.Register(&eng.Prop{
		ID:          "C13",
		Rule:        "a case is a sequence of streamer operations and flushes, or of encoder calls, over a writer that accepts a part and fails at chosen calls; non-trivial: a failure took place. streamer: what was delivered, followed by what a later successful flush delivers, is the text, nothing lost and nothing twice; encoder: what was delivered is a prefix of the text and the first error is returned from then on without further writes",
		Assumptions: []string{"the writer keeps to the contract of io.Writer (a short write comes with an error)"},
		Quick:       2250000, Thorough: 50000000,
		Run: func(t *eng.T) {
			w := faulty(t)
			t.Logf("plan %v", w.plan)
			if t.Bool() {
				s := jzon.NewStreamer()
				defer s.Release()
				s.Reset(w)
				x := &script{t: t, s: s, html: true}
				failures := 0
				x.flush = func() {
					before, bad := w.n, w.bad
					err := s.Flush()
					if (err != nil) != (w.bad != bad) {
						t.Failf("Flush: error %v, but %d calls of the writer failed", err, w.bad-bad)
					}
					if err != nil && err != w.err {
						t.Failf("Flush: %v", err)
					}
					if w.n > before+1 {
						t.Label("several writes in a flush")
					}
					if err != nil {
						failures++
					} else if string(w.got) != string(x.out) {
						t.Failf("Flush: delivered %s instead of %s", gen.Show(w.got), gen.Show(x.out))
					}
					if !bytes.HasPrefix(x.out, w.got) {
						t.Failf("Flush: delivered %s which is not a start of %s", gen.Show(w.got), gen.Show(x.out))
					}
				}
				x.value(0)
				x.flush()
				w.plan = nil
				x.flush()
				t.Key(x.out)
				t.Sample(func() string { return gen.Show(x.out) })
				if failures > 0 {
					t.Nontrivial()
					t.Label("streamer failure")
				}
				return
			}
			e := jzon.NewEncoder(w)
			defer e.Release()
			var exp []byte
			var first error
			for k := t.Range(1, 5); k > 0; k-- {
				vg := &gen.VG{T: t, NoBF: true}
				v := vg.Any()
				if vg.MultiMap {
					v = "x"
				}
				bad := t.P(1, 8)
				if bad {
					v = []interface{}{"partial", math.NaN()}
				}
				std, err := stdEncode(v, true)
				if err != nil && !bad {
					t.Skip()
				}
				before := len(w.got)
				calls, failed := w.n, w.bad
				err = e.Encode(v)
				if w.bad != failed && err == nil {
					t.Failf("Encode: no error, but %d calls of the writer failed", w.bad-failed)
				}
				if first != nil {
					if err != first || w.n != calls {
						t.Failf("Encode: %v after the error %v (%d more writes)", err, first, w.n-calls)
					}
					continue
				}
				if bad {
					if err == nil || len(w.got) != before {
						t.Failf("Encode: error %v and output %s for a value that cannot be encoded", err, gen.Show(w.got[before:]))
					}
					first = err
					t.Label("encode error")
					continue
				}
				exp = append(append(exp, stdNorm(std)...), '\n')
				if err != nil {
					if err != w.err {
						t.Failf("Encode: %v", err)
					}
					first = err
					if !bytes.HasPrefix(exp, w.got) {
						t.Failf("Encode: failed with %s delivered of %s", gen.Show(w.got), gen.Show(exp))
					}
					t.Label("encoder failure")
					t.Nontrivial()
					continue
				}
				if string(w.got) != string(exp) {
					t.Failf("Encode: delivered %s instead of %s", gen.Show(w.got), gen.Show(exp))
				}
			}
			t.Key(exp)
			t.Sample(func() string { return gen.Show(exp) })
		},
	})
}
