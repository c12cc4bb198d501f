// jzv runs the property checks.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strings"

	"verif/eng"
	_ "verif/props"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: jzv check|worker|one|replay|list")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("jzv", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	race := fs.String("racebin", "", "")
	evid := fs.String("evidence", "", "")
	repl := fs.String("replays", "", "")
	scale := fs.Float64("scale", 1, "")
	shard := fs.Int("shard", 0, "")
	n := fs.Int("n", 0, "")
	from := fs.Int("from", 0, "")
	idx := fs.Int("idx", 0, "")
	state := fs.String("state", "", "")
	out := fs.String("out", "", "")
	hashes := fs.String("hashes", "", "")
	deadline := fs.Float64("deadline", 100, "")
	hang := fs.Float64("hang", 40, "")
	record := fs.String("record", "", "")
	choices := fs.String("choices", "", "")
	noshrink := fs.Bool("noshrink", false, "")
	file := fs.String("file", "", "")
	fs.Parse(os.Args[2:])
	if *seed == 0 {
		*seed = 0x5eed
	}
	switch os.Args[1] {
	case "list":
		for _, id := range eng.IDs() {
			p := eng.Get(id)
			fmt.Println(id, p.Quick, p.Thorough, p.Race)
		}
	case "check":
		self, err := os.Executable()
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		os.Exit(eng.Check(eng.CheckOpts{Prop: *prop, Tier: *tier, Seed: *seed, Bin: self, RaceBin: *race,
			Evidence: *evid, Replays: *repl, Scale: *scale, Level: "exploration"}))
	case "worker":
		if err := eng.Worker(eng.WorkerOpts{Prop: *prop, Shard: *shard, N: *n, Seed: *seed, State: *state, Out: *out,
			Hashes: *hashes, Deadline: *deadline, HangS: *hang, NoShrink: *noshrink, From: *from}); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(9)
		}
	case "one":
		var ch []uint64
		if *choices != "" {
			ch = eng.ReadChoices(*choices)
		}
		o := eng.One(*prop, *seed, *idx, ch, *choices != "", *record, true, *hang, false)
		fmt.Print(o.Log)
		if o.Failed {
			fmt.Println(o.Msg)
			os.Exit(7)
		}
	case "replay":
		b, err := os.ReadFile(*file)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var rf eng.ReplayFile
		if err := json.Unmarshal(b, &rf); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		if rf.Mode == "shard" {
			// the failure depends on the history of its shard
			dir, _ := os.MkdirTemp("", "jzv-replay-")
			defer os.RemoveAll(dir)
			err := eng.Worker(eng.WorkerOpts{Prop: rf.Property, Shard: rf.Shard, N: rf.Case + 1, Seed: rf.Seed,
				State: dir + "/st", Out: dir + "/out", Hashes: dir + "/h", Deadline: 1e9, HangS: *hang, NoShrink: true})
			b, _ := os.ReadFile(dir + "/out")
			var res eng.Result
			json.Unmarshal(b, &res)
			if err == nil && res.Fail == nil {
				fmt.Println("not reproduced")
				os.Exit(0)
			}
			if res.Fail != nil {
				fmt.Println(res.Fail.Msg)
			}
			os.Exit(1)
		}
		o := eng.One(rf.Property, 0, rf.Case, rf.Choices, true, "", true, *hang, rf.Exh)
		fmt.Print(o.Log)
		if o.Failed {
			fmt.Println(strings.TrimSpace(o.Msg))
			fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, *file)
			os.Exit(1)
		}
		fmt.Println("not reproduced")
	}
}
