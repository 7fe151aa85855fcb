// vh checks properties of github.com/kazu/skiplistmap by generated histories.
//
//	vh check -prop C01 -tier quick -seed 1 -race BIN -out DIR   orchestrate the check of one property
//	vh work ...                                                 run cases (started by check)
//	vh one FILE [-n N]                                          run one case (started by check)
//	vh replay FILE                                              run a replay file
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
)

const (
	exitFail = 3  // violation found by an oracle
	exitRace = 66 // data race found by the race detector
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh check|work|one|replay|gen|list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		checkMain(os.Args[2:])
	case "work":
		workMain(os.Args[2:])
	case "one":
		oneMain(os.Args[2:])
	case "replay":
		oneMain(append([]string{"-v"}, os.Args[2:]...))
	case "gen":
		p := propByID(os.Args[2])
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		i, _ := strconv.Atoi(os.Args[4])
		b, _ := json.MarshalIndent(caseOf(p, seed, i, false), "", " ")
		fmt.Println(string(b))
	case "farwalk":
		farWalk()
	case "list":
		for _, p := range props() {
			fmt.Println(p.ID)
		}
	default:
		os.Exit(2)
	}
}

// workResult is what a worker reports.
type workResult struct {
	Cases      int
	Cnt        map[string]int
	NonTrivial []uint64 // hashes of non-trivial cases
	Kinds      map[string]int
	Samples    []string
	Err        string
	Index      int
	Harness    bool
	Stopped    bool
}

// isMax: counters which are maxima, not sums.
func isMax(k string) bool { return strings.HasPrefix(k, "max") || strings.HasPrefix(k, "longest") }

func workMain(args []string) {
	fs := flag.NewFlagSet("work", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	lo := fs.Int("lo", 0, "")
	hi := fs.Int("hi", 0, "")
	step := fs.Int("step", 1, "")
	race := fs.Bool("racecases", false, "")
	progress := fs.String("progress", "", "")
	out := fs.String("out", "", "")
	deadline := fs.Int64("deadline", 0, "unix seconds")
	fs.Parse(args)
	watchMemory()
	debug.SetMaxStack(256 << 20)
	p := propByID(*prop)
	pf, err := os.OpenFile(*progress, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	res := &workResult{Cnt: map[string]int{}, Kinds: map[string]int{}, Index: -1}
	finish := func(code int) {
		b, _ := json.Marshal(res)
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			os.Exit(2)
		}
		os.Exit(code)
	}
	for i := *lo; i < *hi; i += *step {
		if *deadline > 0 && time.Now().Unix() > *deadline {
			res.Stopped = true
			break
		}
		c := caseOf(p, *seed, i, *tier == "thorough")
		if c.Race != *race {
			continue
		}
		pf.WriteAt([]byte(fmt.Sprintf("%12d\n", i)), 0)
		st := newStats()
		err := execute(c, st)
		if err != nil {
			res.Err, res.Index = err.Error(), i
			if _, ok := err.(*fail); !ok {
				res.Harness = true
			}
			finish(exitFail)
		}
		res.Cases++
		if p.NonTriv != nil {
			st.NonTrivial = p.NonTriv(c, st)
		}
		res.Kinds[c.Kind+"/"+c.Cfg.Store]++
		if st.NonTrivial {
			res.NonTrivial = append(res.NonTrivial, c.hash())
			if len(res.Samples) < 2 {
				res.Samples = append(res.Samples, fmt.Sprintf("case %d: %s", i, describe(c)))
			}
		}
		for k, v := range st.Cnt {
			if isMax(k) {
				if res.Cnt[k] < v {
					res.Cnt[k] = v
				}
			} else {
				res.Cnt[k] += v
			}
		}
	}
	finish(0)
}

// oneMain runs one saved case. Exit code 0: held; exitFail: violation.
func oneMain(args []string) {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	n := fs.Int("n", 0, "repetitions")
	v := fs.Bool("v", false, "")
	fs.Parse(args)
	watchMemory()
	debug.SetMaxStack(256 << 20)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	c := &Case{}
	if err := json.Unmarshal(b, c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	reps := *n
	if reps == 0 {
		reps = c.Reps
	}
	if reps == 0 {
		reps = 1
	}
	if *v {
		fmt.Println(describe(c))
		if c.Msg != "" {
			fmt.Println("found as:", c.Msg)
		}
	}
	if c.Kind == "range" { // a run of cases in one process
		p := propByID(c.Prop)
		for i := c.Ops[0].K; i <= c.Ops[0].V; i += c.Ops[0].A {
			d := caseOf(p, c.Seed, i, c.VT == 1)
			if d.Race != (os.Getenv("VH_SECOND") != "") {
				continue
			}
			if err := execute(d, newStats()); err != nil {
				fmt.Println(err)
				os.Exit(exitFail)
			}
		}
		os.Exit(0)
	}
	for i := 0; i < reps; i++ {
		if err := execute(c, newStats()); err != nil {
			fmt.Println(err)
			if _, ok := err.(*fail); !ok {
				os.Exit(2)
			}
			os.Exit(exitFail)
		}
	}
	if *v {
		fmt.Println("held in", reps, "run(s)")
	}
}
