// Package eng is a small property-based testing engine. Every random decision
// of a case is a bounded draw from a recorded choice sequence, so that a case
// is a pure function of (code under test, choice sequence), can be replayed,
// and can be shrunk by editing the sequence.
package eng

import (
	"fmt"
	"hash/fnv"
	"math/bits"
	"strings"
)

// rng is splitmix64/xorshift based, deterministic across Go versions.
type rng struct{ s uint64 }

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Seed derives a sub-seed from parts.
func Seed(parts ...interface{}) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v\x00", p)
	}
	return mix(h.Sum64())
}

// T is the handle given to a property for one case.
type T struct {
	replay  bool
	choices []uint64 // recorded so far
	input   []uint64 // replayed
	pos     int
	r       rng
	record  func(v uint64)
	maxLen  int

	nontrivial bool
	labels     []string
	key        []byte
	log        strings.Builder
	verbose    bool
	wantSample bool
	sample     string
	CaseIdx    int
}

type failure struct{ msg string }
type skipCase struct{}

// Uint draws a value in [0,n).
func (t *T) Uint(n uint64) uint64 {
	if n <= 1 {
		return 0
	}
	var v uint64
	if t.replay {
		if t.pos < len(t.input) {
			v = t.input[t.pos]
			t.pos++
			if v >= n {
				v %= n
			}
		}
	} else {
		hi, _ := bits.Mul64(t.r.next(), n)
		v = hi
	}
	if len(t.choices) >= t.maxLen {
		panic(skipCase{})
	}
	t.choices = append(t.choices, v)
	if t.record != nil {
		t.record(v)
	}
	return v
}

// U64 draws a full 64 bit value.
func (t *T) U64() uint64 {
	hi := t.Uint(1 << 32)
	lo := t.Uint(1 << 32)
	return hi<<32 | lo
}

// Int draws in [0,n).
func (t *T) Int(n int) int { return int(t.Uint(uint64(n))) }

// Range draws in [lo,hi].
func (t *T) Range(lo, hi int) int { return lo + t.Int(hi-lo+1) }

// Bool draws a bool.
func (t *T) Bool() bool { return t.Uint(2) == 1 }

// P is true with probability num/den (zero choice: false).
func (t *T) P(num, den int) bool { return t.Int(den) >= den-num }

// W draws an index with the given weights (zero choice: first).
func (t *T) W(ws ...int) int {
	s := 0
	for _, w := range ws {
		s += w
	}
	x := t.Int(s)
	for i, w := range ws {
		if x < w {
			return i
		}
		x -= w
	}
	return len(ws) - 1
}

// Str picks one of the strings.
func (t *T) Str(ss ...string) string { return ss[t.Int(len(ss))] }

// Skip abandons the case (not counted).
func (t *T) Skip() { panic(skipCase{}) }

// Failf reports a violation.
func (t *T) Failf(f string, a ...interface{}) {
	panic(failure{fmt.Sprintf(f, a...)})
}

// Nontrivial marks the case as non-trivial according to the property's rule.
func (t *T) Nontrivial() { t.nontrivial = true }

// IsNontrivial tells if the case has been marked.
func (t *T) IsNontrivial() bool { return t.nontrivial }

// Label counts a class of cases.
func (t *T) Label(l string) { t.labels = append(t.labels, l) }

// Key adds to the identity of the case used to count distinct ones.
func (t *T) Key(b []byte) { t.key = append(append(t.key, b...), 0) }

// Logf records a readable line of the case (only kept when wanted).
func (t *T) Logf(f string, a ...interface{}) {
	if t.verbose {
		fmt.Fprintf(&t.log, f, a...)
		t.log.WriteByte('\n')
	}
}

// Sample records a readable rendering of the case.
func (t *T) Sample(f func() string) {
	if t.wantSample || t.verbose {
		t.sample = f()
		if t.verbose {
			t.log.WriteString("case: " + t.sample + "\n")
		}
	}
}

// Size draws a size biased to small values, with magic values (powers of two
// and their neighbours, the sizes at which buffers and tables change shape)
// up to max.
func (t *T) Size(max int) int {
	switch t.W(60, 25, 10, 5) {
	case 0:
		return min(t.Int(6), max)
	case 1:
		return min(t.Int(20), max)
	case 2:
		// magic
		k := t.Range(2, 14)
		v := 1<<uint(k) + t.Range(-2, 2)
		for v > max && k > 0 {
			k--
			v = 1<<uint(k) - 1
		}
		if v > max {
			v = max
		}
		if v < 0 {
			v = 0
		}
		return v
	default:
		return t.Int(max + 1)
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
