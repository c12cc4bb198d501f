package eng

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sync/atomic"
	"time"
)

const (
	exitHang = 41
	exitMem  = 42
	memLimit = 3 << 30
)

// Fail is a failing case as reported by a worker.
type Fail struct {
	Msg     string   `json:"msg"`
	Log     string   `json:"log"`
	Choices []uint64 `json:"choices"`
	Idx     int      `json:"idx"`
	Shard   int      `json:"shard"`
	Shrunk  bool     `json:"shrunk"`
	Exh     bool     `json:"exhaustive,omitempty"`
}

// Result of a worker.
type Result struct {
	Done      bool           `json:"done"`
	Evals     int            `json:"evals"`
	Exh       int            `json:"exh"`
	Skipped   int            `json:"skipped"`
	Nontriv   int            `json:"nontriv"`
	Labels    map[string]int `json:"labels"`
	Samples   []string       `json:"samples"`
	Fail      *Fail          `json:"fail"`
	WallS     float64        `json:"wall_s"`
	Choices   int64          `json:"choices"`
	EarlyStop bool           `json:"early_stop"`
	Next      int            `json:"next"` // go on from here in a new process
}

var caseStart atomic.Int64

// watch ends the process when a case does not terminate or eats all memory.
func watch(limit time.Duration) {
	debug.SetMaxStack(512 << 20)
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			if s := caseStart.Load(); s != 0 && time.Since(time.Unix(0, s)) > limit {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "CASE-TIMEOUT\n%s\n", buf[:n])
				os.Exit(exitHang)
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > memLimit {
				fmt.Fprintf(os.Stderr, "CASE-MEMORY\n")
				os.Exit(exitMem)
			}
		}
	}()
}

// tooBig tells if the live heap has grown large.
func tooBig() bool {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if ms.HeapAlloc < 900<<20 {
		return false
	}
	runtime.GC()
	runtime.ReadMemStats(&ms)
	return ms.HeapAlloc > 700<<20
}

// WorkerOpts are the parameters of a worker process.
type WorkerOpts struct {
	Prop     string
	Shard    int
	N        int
	Seed     uint64
	State    string
	Out      string
	Hashes   string
	Deadline float64 // seconds
	HangS    float64
	NoShrink bool
	From     int // first case
}

// CaseSeed gives the seed of a case.
func CaseSeed(seed uint64, prop string, shard, idx int) uint64 {
	return Seed(seed, prop, shard, idx)
}

// Worker runs one shard.
func Worker(o WorkerOpts) error {
	p := Get(o.Prop)
	runtime.GOMAXPROCS(p.Procs)
	watch(time.Duration(o.HangS * float64(time.Second)))
	st, err := os.Create(o.State)
	if err != nil {
		return err
	}
	res := Result{Labels: map[string]int{}}
	hf, err := os.Create(o.Hashes)
	if err != nil {
		return err
	}
	hw := bufio.NewWriter(hf)
	defer hf.Close()
	start := time.Now()
	write := func() error {
		res.WallS = time.Since(start).Seconds()
		hw.Flush()
		b, _ := json.Marshal(&res)
		return os.WriteFile(o.Out, b, 0o644)
	}
	seen := map[uint64]struct{}{}
	fail := func(out Outcome, idx int, exh bool, fn func(*T)) error {
		res.Fail = &Fail{Msg: out.Msg, Choices: out.Choices, Idx: idx, Shard: o.Shard, Exh: exh}
		if err := write(); err != nil {
			return err
		}
		if o.NoShrink {
			return nil
		}
		// does it fail again on its own?
		sig := signature(out.Msg)
		again := func(c []uint64) ([]uint64, bool) {
			caseStart.Store(time.Now().UnixNano())
			r := runCase(caseOpts{replay: true, input: c, fn: fn, idx: idx})
			return r.Choices, r.Failed && signature(r.Msg) == sig
		}
		if _, ok := again(out.Choices); !ok {
			res.Fail.Msg += "\n(not reproduced by replaying the case alone in the same process: the failure depends on earlier cases)"
			return write()
		}
		c := shrink(out.Choices, time.Now().Add(8*time.Second), 20000, again)
		caseStart.Store(time.Now().UnixNano())
		r := runCase(caseOpts{replay: true, input: c, fn: fn, verbose: true, idx: idx})
		if r.Failed {
			res.Fail.Choices = r.Choices
			res.Fail.Msg = r.Msg
			res.Fail.Log = r.Log
			res.Fail.Shrunk = true
		}
		return write()
	}
	var idxBuf [8]byte
	mark := func(i int) {
		binary.LittleEndian.PutUint64(idxBuf[:], uint64(i+1))
		st.WriteAt(idxBuf[:], 0)
		caseStart.Store(time.Now().UnixNano())
	}
	if p.Exhaustive != nil && o.Shard == 0 && o.From == 0 {
		n := 0
		fn := func(t *T) { n = p.Exhaustive(t) }
		mark(-1)
		caseStart.Store(0)
		out := runCase(caseOpts{fn: fn, seed: CaseSeed(o.Seed, o.Prop, 0, -1)})
		res.Exh = n
		if out.Failed {
			return fail(out, -1, true, fn)
		}
	}
	for i := o.From; i < o.N; i++ {
		if i&255 == 255 && tooBig() {
			// types made at run time are never freed: go on in a new process
			res.Next = i
			break
		}
		if i&63 == 0 && time.Since(start).Seconds() > o.Deadline {
			res.EarlyStop = true
			break
		}
		mark(i)
		out := runCase(caseOpts{
			seed: CaseSeed(o.Seed, o.Prop, o.Shard, i), fn: p.Run, idx: i,
			wantSample: len(res.Samples) < 3 || i == o.N-1,
		})
		res.Choices += int64(len(out.Choices))
		if out.Skipped {
			res.Skipped++
			continue
		}
		res.Evals++
		for _, l := range out.Labels {
			res.Labels[l]++
		}
		if out.Failed {
			return fail(out, i, false, p.Run)
		}
		if out.Nontrivial {
			if _, ok := seen[out.Key]; !ok {
				seen[out.Key] = struct{}{}
				res.Nontriv++
				binary.LittleEndian.PutUint64(idxBuf[:], out.Key)
				hw.Write(idxBuf[:])
			}
			if out.Sample != "" && len(res.Samples) < 4 {
				s := out.Sample
				if len(s) > 1200 {
					s = s[:1200] + "…"
				}
				res.Samples = append(res.Samples, s)
			}
		}
	}
	res.Done = true
	return write()
}

// One runs one case: from a choice file (replay) or from a seed.
func One(prop string, seed uint64, idx int, choices []uint64, replay bool, recordFile string, verbose bool, hangS float64, exh bool) Outcome {
	p := Get(prop)
	runtime.GOMAXPROCS(p.Procs)
	watch(time.Duration(hangS * float64(time.Second)))
	var rec func(uint64)
	if recordFile != "" {
		f, err := os.Create(recordFile)
		if err != nil {
			panic(err)
		}
		var b [8]byte
		rec = func(v uint64) {
			binary.LittleEndian.PutUint64(b[:], v)
			f.Write(b[:])
		}
	}
	caseStart.Store(time.Now().UnixNano())
	fn := p.Run
	if exh {
		fn = func(t *T) { p.Exhaustive(t) }
		caseStart.Store(0)
	}
	return runCase(caseOpts{seed: seed, input: choices, replay: replay, verbose: verbose, wantSample: true, record: rec, fn: fn, idx: idx})
}
