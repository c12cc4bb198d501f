package eng

import (
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"sort"
	"strings"
)

// Prop is one executable property.
type Prop struct {
	ID          string
	Rule        string // what makes a case non-trivial
	Assumptions []string
	Race        bool // run the workers from the race-enabled binary
	Procs       int  // GOMAXPROCS of a worker (default 1)
	Workers     int  // number of workers (default 8)
	Quick       int  // cases, all workers together
	Thorough    int
	// Exhaustive, when set, runs once in shard 0 before the generated cases
	// over a finite space; it returns the number of evaluations.
	Exhaustive func(t *T) int
	Run        func(t *T)
}

// quickFactor multiplies all quick budgets.
const quickFactor = 2

var registry = map[string]*Prop{}

// Register adds a property.
func Register(p *Prop) {
	if registry[p.ID] != nil {
		panic("duplicate " + p.ID)
	}
	if p.Procs == 0 {
		p.Procs = 1
	}
	if p.Workers == 0 {
		p.Workers = 8
	}
	p.Quick *= quickFactor
	registry[p.ID] = p
}

// Get returns a property.
func Get(id string) *Prop { return registry[id] }

// IDs lists the property ids.
func IDs() []string {
	var r []string
	for k := range registry {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Outcome of one case.
type Outcome struct {
	Failed     bool
	Skipped    bool
	Msg        string
	Nontrivial bool
	Key        uint64
	Labels     []string
	Choices    []uint64
	Log        string
	Sample     string
}

const defaultMaxLen = 400000

type caseOpts struct {
	seed       uint64
	input      []uint64
	replay     bool
	verbose    bool
	wantSample bool
	record     func(uint64)
	idx        int
	fn         func(t *T)
}

func runCase(o caseOpts) (out Outcome) {
	t := &T{replay: o.replay, input: o.input, r: rng{o.seed}, verbose: o.verbose,
		wantSample: o.wantSample, record: o.record, maxLen: defaultMaxLen, CaseIdx: o.idx}
	defer func() {
		out.Choices = t.choices
		out.Nontrivial = t.nontrivial
		out.Labels = t.labels
		out.Sample = t.sample
		h := fnv.New64a()
		if len(t.key) > 0 {
			h.Write(t.key)
		} else {
			var b [8]byte
			for _, c := range t.choices {
				for i := range b {
					b[i] = byte(c >> (8 * uint(i)))
				}
				h.Write(b[:])
			}
		}
		out.Key = h.Sum64()
		if r := recover(); r != nil {
			switch x := r.(type) {
			case failure:
				out.Failed = true
				out.Msg = x.msg
			case skipCase:
				out.Skipped = true
			default:
				out.Failed = true
				out.Msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))
			}
		}
		out.Log = t.log.String()
	}()
	o.fn(t)
	return
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// signature is used to keep the shrinker on the same failure.
func signature(msg string) string {
	if i := strings.IndexByte(msg, ':'); i > 0 && i < 60 {
		return msg[:i]
	}
	if len(msg) > 24 {
		return msg[:24]
	}
	return msg
}
