package eng

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// CheckOpts are the parameters of a check run.
type CheckOpts struct {
	Prop     string
	Tier     string
	Seed     uint64
	Bin      string // worker binary
	RaceBin  string
	Evidence string
	Replays  string
	Scale    float64
	Level    string
}

// ReplayFile is what is written for a violation.
type ReplayFile struct {
	Property string   `json:"property"`
	Mode     string   `json:"mode"` // choices | shard | crash
	Message  string   `json:"message"`
	Readable []string `json:"readable"`
	Choices  []uint64 `json:"choices"`
	Seed     uint64   `json:"seed"`
	Shard    int      `json:"shard"`
	Case     int      `json:"case"`
	Exh      bool     `json:"exhaustive,omitempty"`
}

type proc struct {
	code   int
	stderr string
	killed bool
	err    error
}

func runProc(bin string, timeout time.Duration, args ...string) proc {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	var eb tailBuffer
	cmd.Stderr = &eb
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all", "GODEBUG=clobberfree=1")
	err := cmd.Run()
	p := proc{stderr: eb.String()}
	if ctx.Err() != nil {
		p.killed = true
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			p.code = ee.ExitCode()
		} else {
			p.err = err
			p.code = -2
		}
	}
	return p
}

// tailBuffer keeps the first and the last part of the output
type tailBuffer struct {
	head, tail bytes.Buffer
}

func (b *tailBuffer) Write(p []byte) (int, error) {
	n := len(p)
	if b.head.Len() < 16<<10 {
		b.head.Write(p)
		return n, nil
	}
	if b.tail.Len() > 64<<10 {
		b.tail.Reset()
	}
	b.tail.Write(p)
	return n, nil
}

func (b *tailBuffer) String() string { return b.head.String() + b.tail.String() }

// runtimeFault tells if the stderr of a dead worker shows a fault of the
// program itself (as opposed to it being ended from outside).
func runtimeFault(p proc) bool {
	if strings.Contains(p.stderr, "out of memory") || strings.Contains(p.stderr, "cannot allocate") {
		return false
	}
	for _, s := range []string{"fatal error:", "DATA RACE", "unexpected fault address", "SIGSEGV", "SIGBUS", "checkptr", "stack overflow", "goroutine stack exceeds", "panic:", "unexpected signal"} {
		if strings.Contains(p.stderr, s) {
			return true
		}
	}
	return false
}

type shardRun struct {
	res  Result
	p    proc
	last int // last case marked, -2 when none
	ok   bool
}

// add adds the counts of the earlier processes of the same shard.
func (r *Result) add(o *Result) {
	r.Evals += o.Evals
	r.Exh += o.Exh
	r.Skipped += o.Skipped
	r.Nontriv += o.Nontriv
	r.Choices += o.Choices
	if r.Labels == nil {
		r.Labels = map[string]int{}
	}
	for k, v := range o.Labels {
		r.Labels[k] += v
	}
	r.Samples = append(o.Samples, r.Samples...)
	if len(r.Samples) > 8 {
		r.Samples = r.Samples[:8]
	}
}

// Check runs a property and returns the exit code.
func Check(o CheckOpts) int {
	start := time.Now()
	p := Get(o.Prop)
	if p == nil {
		fmt.Println("unknown property", o.Prop)
		return 2
	}
	bin := o.Bin
	if p.Race {
		bin = o.RaceBin
	}
	total := p.Quick
	deadline := 240.0
	if o.Tier == "thorough" {
		total = p.Thorough
		deadline = 1500.0
	}
	total = int(float64(total) * o.Scale)
	per := (total + p.Workers - 1) / p.Workers
	dir, err := os.MkdirTemp("", "jzv-"+o.Prop+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)

	hang := 40.0
	run1 := func(shard, from, n int, deadline float64, tag string, noShrink bool) shardRun {
		st := filepath.Join(dir, fmt.Sprintf("st-%d%s", shard, tag))
		out := filepath.Join(dir, fmt.Sprintf("out-%d%s", shard, tag))
		hs := filepath.Join(dir, fmt.Sprintf("hash-%d%s", shard, tag))
		args := []string{"worker", "-prop", o.Prop, "-shard", fmt.Sprint(shard), "-from", fmt.Sprint(from), "-n", fmt.Sprint(n),
			"-seed", fmt.Sprint(o.Seed), "-state", st, "-out", out, "-hashes", hs,
			"-deadline", fmt.Sprint(deadline), "-hang", fmt.Sprint(hang)}
		if noShrink {
			args = append(args, "-noshrink")
		}
		pr := runProc(bin, time.Duration((deadline+hang*2+60)*float64(time.Second)), args...)
		sr := shardRun{p: pr, last: -2}
		if b, err := os.ReadFile(out); err == nil {
			if json.Unmarshal(b, &sr.res) == nil && (sr.res.Done || sr.res.Fail != nil) {
				sr.ok = true
			}
		}
		if b, err := os.ReadFile(st); err == nil && len(b) == 8 {
			sr.last = int(int64(binary.LittleEndian.Uint64(b))) - 1
		}
		return sr
	}

	run := func(shard, n int, tag string, noShrink bool) shardRun {
		begin := time.Now()
		var sum shardRun
		for from, k := 0, 0; ; k++ {
			sr := run1(shard, from, n, deadline-time.Since(begin).Seconds(), fmt.Sprintf("%s.%d", tag, k), noShrink)
			sr.res.add(&sum.res)
			sum = sr
			if !sr.ok || sr.res.Fail != nil || sr.res.Next == 0 || sr.res.EarlyStop {
				return sum
			}
			from = sr.res.Next
		}
	}

	results := make([]shardRun, p.Workers)
	var wg sync.WaitGroup
	for i := 0; i < p.Workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			results[i] = run(i, per, "", false)
		}(i)
	}
	wg.Wait()

	var viol *ReplayFile
	inconclusive := ""
	for i := range results {
		r := &results[i]
		if r.ok && r.res.Fail != nil {
			f := r.res.Fail
			mode := "choices"
			if !f.Shrunk {
				mode = "shard"
			}
			rf := &ReplayFile{Property: o.Prop, Mode: mode, Message: f.Msg, Readable: lines(f.Log),
				Choices: f.Choices, Seed: o.Seed, Shard: i, Case: f.Idx, Exh: f.Exh}
			if viol == nil || viol.Mode != "choices" && mode == "choices" || mode == viol.Mode && len(rf.Choices) < len(viol.Choices) {
				viol = rf
			}
		}
	}
	if viol == nil {
		for i := range results {
			r := &results[i]
			if r.ok {
				continue
			}
			rf, again, why := diagnose(o, p, bin, dir, i, r, run)
			if rf != nil {
				viol = rf
				break
			}
			if again != nil {
				results[i] = *again
				continue
			}
			inconclusive = why
		}
	}

	// evidence
	labels := map[string]int{}
	evals, skipped, exh := 0, 0, 0
	var samples []string
	distinct := map[uint64]struct{}{}
	early := false
	for i := range results {
		r := &results[i]
		evals += r.res.Evals
		exh += r.res.Exh
		skipped += r.res.Skipped
		early = early || r.res.EarlyStop
		for k, v := range r.res.Labels {
			labels[k] += v
		}
		if len(samples) < 6 {
			for _, s := range r.res.Samples {
				if len(samples) < 6 {
					samples = append(samples, s)
				}
			}
		}
	}
	matches, _ := filepath.Glob(filepath.Join(dir, "hash-*"))
	for _, m := range matches {
		b, _ := os.ReadFile(m)
		for len(b) >= 8 {
			distinct[binary.LittleEndian.Uint64(b)] = struct{}{}
			b = b[8:]
		}
	}
	sort.Strings(samples)
	cov := map[string]interface{}{
		"evaluations":         evals + exh,
		"generated_cases":     evals,
		"discarded":           skipped,
		"distinct_nontrivial": len(distinct),
		"rule":                p.Rule,
		"samples":             samples,
		"classes":             labels,
		"workers":             p.Workers,
		"stopped_early":       early,
	}
	if p.Exhaustive != nil {
		cov["enumerated"] = exh
	}
	nv := 0
	if viol != nil {
		nv = 1
	}
	ev := map[string]interface{}{
		"property": o.Prop, "tier": o.Tier, "seed": o.Seed, "level": o.Level,
		"coverage": cov, "assumptions": p.Assumptions,
		"wall_s": time.Since(start).Seconds(), "violations": nv,
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(o.Evidence, 0o755)
	if err := os.WriteFile(filepath.Join(o.Evidence, o.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write the evidence:", err)
		return 2
	}
	fmt.Printf("property=%s tier=%s seed=%d cases=%d enumerated=%d distinct_nontrivial=%d discarded=%d wall=%.1fs\n",
		o.Prop, o.Tier, o.Seed, evals, exh, len(distinct), skipped, time.Since(start).Seconds())
	if viol != nil {
		os.MkdirAll(o.Replays, 0o755)
		path := filepath.Join(o.Replays, fmt.Sprintf("%s-%016x.json", o.Prop, Seed(viol.Message, viol.Choices)))
		b, _ := json.MarshalIndent(viol, "", " ")
		if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
			fmt.Println("cannot write the replay:", err)
			return 2
		}
		for _, l := range viol.Readable {
			fmt.Println("  " + trunc(l, 2000))
		}
		fmt.Println("  " + trunc(viol.Message, 4000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.Prop, path)
		return 1
	}
	if inconclusive != "" {
		fmt.Println("INCONCLUSIVE:", inconclusive)
		return 2
	}
	return 0
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func lines(s string) []string {
	s = strings.TrimRight(s, "\n")
	if s == "" {
		return nil
	}
	return strings.Split(s, "\n")
}

func readChoices(file string) []uint64 {
	b, _ := os.ReadFile(file)
	var c []uint64
	for len(b) >= 8 {
		c = append(c, binary.LittleEndian.Uint64(b))
		b = b[8:]
	}
	return c
}

// diagnose works out why a worker died without an answer.
func diagnose(o CheckOpts, p *Prop, bin, dir string, shard int, r *shardRun, run func(int, int, string, bool) shardRun) (*ReplayFile, *shardRun, string) {
	bad := func(q proc) bool {
		return q.code == exitHang || q.code == exitMem || (q.code != 0 && q.code != 7 && runtimeFault(q))
	}
	msg := func(q proc) string {
		switch q.code {
		case exitHang:
			return "the case does not terminate\n" + trunc(q.stderr, 3000)
		case exitMem:
			return "the case uses unbounded memory"
		}
		return "the process died: " + trunc(q.stderr, 4000)
	}
	if r.p.err != nil {
		return nil, nil, fmt.Sprintf("shard %d: %v", shard, r.p.err)
	}
	if r.last >= 0 {
		// the case alone, in a fresh process
		rec := filepath.Join(dir, fmt.Sprintf("rec-%d", shard))
		q := runProc(bin, 200*time.Second, "one", "-prop", o.Prop,
			"-seed", fmt.Sprint(CaseSeed(o.Seed, o.Prop, shard, r.last)), "-idx", fmt.Sprint(r.last), "-record", rec, "-hang", "90")
		if bad(q) {
			ch := readChoices(rec)
			cf := filepath.Join(dir, "cand")
			hangT := "5"
			maxTries := 400
			if q.code == exitHang {
				hangT = "8"
				maxTries = 8
			}
			budget := time.Now().Add(40 * time.Second)
			small := shrink(ch, budget, maxTries, func(c []uint64) ([]uint64, bool) {
				writeChoices(cf, c)
				os.Remove(rec)
				x := runProc(bin, 60*time.Second, "one", "-prop", o.Prop, "-choices", cf, "-record", rec, "-hang", hangT)
				if !(x.code == q.code && (q.code == exitHang || q.code == exitMem || bad(x))) {
					return nil, false
				}
				return readChoices(rec), true
			})
			return &ReplayFile{Property: o.Prop, Mode: "crash", Message: msg(q), Choices: small, Seed: o.Seed, Shard: shard, Case: r.last}, nil, ""
		}
	}
	// the whole shard again
	again := run(shard, caseCount(r, p, o), "-again", false)
	if again.ok && again.res.Fail == nil && !(runtimeFault(r.p) && r.p.code != exitHang && r.p.code != exitMem) {
		return nil, &again, ""
	}
	if again.ok && again.res.Fail != nil {
		f := again.res.Fail
		return &ReplayFile{Property: o.Prop, Mode: "choices", Message: f.Msg, Readable: lines(f.Log), Choices: f.Choices, Seed: o.Seed, Shard: shard, Case: f.Idx, Exh: f.Exh}, nil, ""
	}
	if !again.ok && bad(again.p) && bad(r.p) {
		return &ReplayFile{Property: o.Prop, Mode: "shard", Message: msg(again.p), Seed: o.Seed, Shard: shard, Case: again.last}, nil, ""
	}
	if runtimeFault(r.p) {
		return &ReplayFile{Property: o.Prop, Mode: "shard", Message: "(seen once) " + msg(r.p), Seed: o.Seed, Shard: shard, Case: r.last}, nil, ""
	}
	return nil, nil, fmt.Sprintf("shard %d: worker ended with code %d: %s", shard, r.p.code, trunc(r.p.stderr, 1500))
}

func caseCount(r *shardRun, p *Prop, o CheckOpts) int {
	total := p.Quick
	if o.Tier == "thorough" {
		total = p.Thorough
	}
	total = int(float64(total) * o.Scale)
	return (total + p.Workers - 1) / p.Workers
}

func writeChoices(file string, c []uint64) {
	b := make([]byte, 8*len(c))
	for i, v := range c {
		binary.LittleEndian.PutUint64(b[8*i:], v)
	}
	os.WriteFile(file, b, 0o644)
}

// ReadChoices reads a binary choice file.
func ReadChoices(file string) []uint64 { return readChoices(file) }
