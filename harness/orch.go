package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

const exitMem = 67 // a worker uses far too much memory

// watchMemory ends the process if it uses far more memory than any case needs.
func watchMemory() {
	go func() {
		page := os.Getpagesize()
		for {
			time.Sleep(200 * time.Millisecond)
			b, err := os.ReadFile("/proc/self/statm")
			if err != nil {
				return
			}
			var size, rss int
			fmt.Sscan(string(b), &size, &rss)
			if rss*page > 3<<30 {
				fmt.Fprintf(os.Stderr, "fatal error: vh: the process uses %d MiB\n", rss*page>>20)
				os.Exit(exitMem)
			}
		}
	}()
}

type checker struct {
	p        *Prop
	tier     string
	seed     uint64
	race     string // path of the -race binary
	self     string
	verif    string
	work     string
	deadline time.Time
	workers  int

	mu      sync.Mutex
	total   workResult
	nt      map[uint64]bool
	stopped bool
	notes   []string
}

// finding is a failure of one case.
type finding struct {
	index int
	race  bool
	lo    int // first case of the worker
	step  int
	msg   string
	how   string // fail, race, crash, hang, memory
}

func (k *checker) bin(race bool) string {
	if race {
		return k.race
	}
	return k.self
}

func (k *checker) env(race bool) []string {
	var e []string
	for _, s := range os.Environ() {
		if strings.HasPrefix(s, "GODEBUG=") || strings.HasPrefix(s, "GOGC=") || strings.HasPrefix(s, "GORACE=") || strings.HasPrefix(s, "GOMAXPROCS=") {
			continue
		}
		e = append(e, s)
	}
	d := "invalidptr=1"
	if k.p.GC {
		d += ",clobberfree=1"
		e = append(e, "GOGC=20")
	}
	e = append(e, "GODEBUG="+d, "GOTRACEBACK=all", "VH_WORK="+k.work)
	if race {
		e = append(e, "VH_SECOND=1")
		e = append(e, fmt.Sprintf("GORACE=halt_on_error=1 exitcode=%d history_size=2", exitRace))
	}
	return e
}

// tail keeps the start and the end of what a process writes.
type tail struct {
	mu   sync.Mutex
	head bytes.Buffer
	mark []byte // what follows the first sign of a crash: the map may have printed a lot before
	end  []byte
	last []byte
}

var crashSigns = []string{"fatal error:", "panic:", "SIGSEGV", "unexpected fault", "WARNING: DATA RACE"}

func (t *tail) scan(p []byte) {
	if t.mark != nil {
		if len(t.mark) < 5000 {
			t.mark = append(t.mark, p...)
		}
		return
	}
	b := append(t.last, p...)
	at := -1
	for _, s := range crashSigns {
		if i := bytes.Index(b, []byte(s)); i >= 0 && (at < 0 || i < at) {
			at = i
		}
	}
	if at >= 0 {
		t.mark = append([]byte(nil), b[at:]...)
		return
	}
	if len(b) > 30 {
		b = b[len(b)-30:]
	}
	t.last = append([]byte(nil), b...)
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	n := len(p)
	t.scan(p)
	if r := 6000 - t.head.Len(); r > 0 {
		t.head.Write(p[:minInt(r, len(p))])
		p = p[minInt(r, len(p)):]
	}
	t.end = append(t.end, p...)
	if len(t.end) > 6000 {
		t.end = append([]byte(nil), t.end[len(t.end)-3000:]...)
	}
	return n, nil
}

// String leaves out the dumps which the map prints by itself when EnableStats is on.
func (t *tail) String() string {
	var b []string
	for _, l := range strings.Split(t.text(), "\n") {
		if !strings.HasPrefix(l, "  bucket{") && !strings.HasPrefix(l, "  entryHMap{") {
			b = append(b, l)
		}
	}
	return strings.Join(b, "\n")
}

func (t *tail) text() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	s := t.head.String()
	if m := t.mark; len(m) > 0 && !strings.Contains(s+string(t.end), string(m[:minInt(len(m), 60)])) {
		s += "\n" + string(m[:minInt(len(m), 5000)]) + "\n"
	}
	return s + string(t.end)
}

// classify says what the end of a process means: "" held; "harness" the check itself is broken.
func classify(code int, sig syscall.Signal, out string) string {
	switch {
	case code == 0 && sig == 0:
		return ""
	case code == exitFail:
		return "fail"
	case code == exitRace:
		if strings.Contains(out, "skiplistmap") || strings.Contains(out, "elist_head") {
			return "race"
		}
		return "harness"
	case code == exitMem:
		return "memory"
	case sig == syscall.SIGSEGV || sig == syscall.SIGBUS || sig == syscall.SIGABRT:
		return "crash"
	case sig != 0:
		return "harness" // killed from outside
	case strings.Contains(out, "fatal error:") || strings.Contains(out, "panic:") || strings.Contains(out, "SIGSEGV") || strings.Contains(out, "unexpected fault"):
		if strings.Contains(out, "cannot allocate memory") || strings.Contains(out, "pthread_create failed") {
			return "harness"
		}
		return "crash"
	}
	return "harness"
}

func endOf(err error) (code int, sig syscall.Signal) {
	if err == nil {
		return 0, 0
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		ws := ee.Sys().(syscall.WaitStatus)
		if ws.Signaled() {
			return -1, ws.Signal()
		}
		return ws.ExitStatus(), 0
	}
	return -1, 0
}

func (k *checker) addNote(f string, a ...interface{}) {
	k.mu.Lock()
	defer k.mu.Unlock()
	if len(k.notes) < 20 {
		k.notes = append(k.notes, fmt.Sprintf(f, a...))
	}
}

func (k *checker) merge(r *workResult) {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.total.Cases += r.Cases
	for _, h := range r.NonTrivial {
		k.nt[h] = true
	}
	for n, v := range r.Kinds {
		k.total.Kinds[n] += v
	}
	for n, v := range r.Cnt {
		if isMax(n) {
			if k.total.Cnt[n] < v {
				k.total.Cnt[n] = v
			}
		} else {
			k.total.Cnt[n] += v
		}
	}
	if len(k.total.Samples) < 6 {
		k.total.Samples = append(k.total.Samples, r.Samples...)
	}
	k.stopped = k.stopped || r.Stopped
}

var stall = 100 // seconds without progress of one case: a hang

var harnessErr = errors.New("harness")

// worker runs the cases lo, lo+step ... and reports the first failure.
func (k *checker) worker(ctx context.Context, race bool, id, lo, hi, step int) (*finding, error) {
	pf := filepath.Join(k.work, fmt.Sprintf("p%v%d", race, id))
	out := filepath.Join(k.work, fmt.Sprintf("o%v%d", race, id))
	os.Remove(pf)
	os.Remove(out)
	args := []string{"work", "-prop", k.p.ID, "-tier", k.tier, "-seed", fmt.Sprint(k.seed), "-lo", fmt.Sprint(lo), "-hi", fmt.Sprint(hi), "-step", fmt.Sprint(step),
		"-progress", pf, "-out", out, "-deadline", fmt.Sprint(k.deadline.Unix())}
	if race {
		args = append(args, "-racecases")
	}
	cctx, cancel := context.WithCancel(ctx)
	defer cancel()
	cmd := exec.CommandContext(cctx, k.bin(race), args...)
	var t tail
	cmd.Stdout, cmd.Stderr = &t, &t
	cmd.Env = k.env(race)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.WaitDelay = 5 * time.Second
	if err := cmd.Start(); err != nil {
		return nil, fmt.Errorf("start of a worker: %v", err)
	}
	var hung int32
	done := make(chan struct{})
	go func() {
		last, idle := "", 0
		for {
			select {
			case <-done:
				return
			case <-time.After(time.Second): // counts own seconds: a frozen machine is not a hang
			}
			b, _ := os.ReadFile(pf)
			if string(b) != last {
				last, idle = string(b), 0
				continue
			}
			if idle++; idle == stall {
				atomic.StoreInt32(&hung, 1)
				cmd.Process.Signal(syscall.SIGQUIT)
				time.Sleep(3 * time.Second)
				cancel()
				return
			}
		}
	}()
	err := cmd.Wait()
	close(done)
	if ctx.Err() != nil {
		return nil, nil // another worker has found something
	}
	code, sig := endOf(err)
	index := -1
	if b, e := os.ReadFile(pf); e == nil {
		fmt.Sscan(string(b), &index)
	}
	f := &finding{index: index, race: race, lo: lo, step: step}
	if atomic.LoadInt32(&hung) == 1 {
		f.how, f.msg = "hang", fmt.Sprintf("no progress for %d seconds\n%s", stall, t.String())
		return f, nil
	}
	f.how = classify(code, sig, t.String())
	if f.how == "" || f.how == "fail" {
		b, e := os.ReadFile(out)
		res := &workResult{}
		if e != nil || json.Unmarshal(b, res) != nil {
			return nil, fmt.Errorf("a worker has not written its result\n%s", t.String())
		}
		k.merge(res)
		if f.how == "" {
			return nil, nil
		}
		if res.Harness {
			return nil, fmt.Errorf("case %d: %s", res.Index, res.Err)
		}
		f.index, f.msg = res.Index, res.Err
		return f, nil
	}
	if f.how == "harness" || index < 0 {
		return nil, fmt.Errorf("a worker has ended with code %d, signal %v at case %d\n%s", code, sig, index, t.String())
	}
	f.msg = t.String()
	return f, nil
}

// phase runs all cases of one binary.
func (k *checker) phase(race bool, n int) (*finding, error) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	nw := k.workers
	if nw > n {
		nw = n
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	var first *finding
	var ferr error
	for w := 0; w < nw; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			f, err := k.worker(ctx, race, w, w, n, nw)
			mu.Lock()
			defer mu.Unlock()
			if err != nil && ferr == nil {
				ferr = err
				cancel()
			}
			if f != nil && first == nil {
				first = f
				cancel()
			}
		}()
	}
	wg.Wait()
	if first != nil {
		return first, nil
	}
	return nil, ferr
}

// try runs one case alone. how is "" if it held.
func (k *checker) try(c *Case, reps int, limit time.Duration) (how, msg string) {
	f, err := os.CreateTemp(k.work, "c")
	if err != nil {
		return "harness", err.Error()
	}
	defer os.Remove(f.Name())
	b, _ := json.Marshal(c)
	f.Write(b)
	f.Close()
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, k.bin(c.Race), "one", "-n", fmt.Sprint(reps), f.Name())
	var t tail
	cmd.Stdout, cmd.Stderr = &t, &t
	cmd.Env = k.env(c.Race)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.WaitDelay = 5 * time.Second
	err = cmd.Run()
	if ctx.Err() != nil {
		return "hang", fmt.Sprintf("no end within %v", limit)
	}
	code, sig := endOf(err)
	return classify(code, sig, t.String()), t.String()
}

func concurrent(c *Case) bool { return len(c.Thr) > 0 || c.Kind == "atomic" }

// settle confirms a finding, makes it small and writes the replay file.
func (k *checker) settle(f *finding) (string, string) {
	c := caseOf(k.p, k.seed, f.index, k.tier == "thorough")
	c.Msg = f.msg
	until := time.Now().Add(40 * time.Second)
	reps := 1
	if concurrent(c) || c.Cfg.Goro {
		reps = 30
	} else if k.p.GC {
		reps = 3
	}
	limit := 20 * time.Second
	if f.how == "hang" {
		limit = 15 * time.Second
		until = time.Now().Add(60 * time.Second)
	}
	bad := func(d *Case, n int) bool {
		how, msg := k.try(d, n, limit)
		if how == "" || how == "harness" || (how == "hang") != (f.how == "hang") {
			return false
		}
		d.Msg = msg
		return true
	}
	if bad(c, reps) {
		if concurrent(c) {
			c.Thr = shrinkThr(c, until, func(d *Case) bool { return bad(d, reps) }).Thr
		} else {
			c = shrinkSeq(c, until, func(d *Case) bool { return bad(d, reps) })
			if c.Kind == "big" {
				c = shrinkBig(c, func(d *Case) bool { return time.Now().Before(until) && bad(d, reps) })
			}
		}
		c.Note = "confirmed by a run of this case alone"
	} else if !concurrent(c) {
		d := &Case{Prop: k.p.ID, Kind: "range", Seed: k.seed, Race: f.race, Ops: []Op{{O: "range", K: f.lo, V: f.index, A: f.step}}}
		if k.tier == "thorough" {
			d.VT = 1
		}
		limit = 60 * time.Second
		if bad(d, 1) {
			d.Note = "this case fails after the cases before it in the same process; the last case: " + describe(c)
			c = d
		} else {
			c.Note = "seen once; a run of this case alone did not fail"
		}
	} else {
		c.Note = fmt.Sprintf("depends on the schedule: seen once, %d runs of this case alone did not fail", reps)
	}
	if reps > 1 && c.Reps < reps {
		c.Reps = reps
	}
	if c.Msg == "" {
		c.Msg = f.msg
	}
	dir := filepath.Join(k.verif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", k.p.ID, k.seed, f.index))
	b, _ := json.MarshalIndent(c, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	return path, c.Msg
}

// ddmin removes parts of a list while the case stays bad.
func ddmin(ops []Op, until time.Time, bad func([]Op) bool) []Op {
	for size := (len(ops) + 1) / 2; size > 0; {
		removed := false
		for at := 0; at < len(ops); {
			if time.Now().After(until) {
				return ops
			}
			end := at + size
			if end > len(ops) {
				end = len(ops)
			}
			try := append(append([]Op(nil), ops[:at]...), ops[end:]...)
			if bad(try) {
				ops = try
				removed = true
			} else {
				at = end
			}
		}
		if size == 1 && !removed {
			break
		}
		if size > 1 {
			size /= 2
		}
	}
	return ops
}

func shrinkSeq(c *Case, until time.Time, bad func(*Case) bool) *Case {
	best := *c
	try := func(d Case) bool {
		if time.Now().After(until) {
			return false
		}
		if bad(&d) {
			best = d
			return true
		}
		return false
	}
	if len(best.Ops) > 0 {
		ddmin(best.Ops, until, func(o []Op) bool {
			d := best
			d.Ops = o
			return try(d)
		})
	}
	if len(best.Cfgs) > 2 {
		for i := len(best.Cfgs) - 1; i >= 0 && len(best.Cfgs) > 1; i-- {
			d := best
			d.Cfgs = append(append([]Cfg(nil), best.Cfgs[:i]...), best.Cfgs[i+1:]...)
			try(d)
		}
	}
	// keys which no call uses
	used := map[int]int{}
	var keys []Key
	all := false
	for _, o := range best.Ops {
		if _, ok := used[o.K]; !ok && o.K < len(best.Keys) {
			used[o.K] = len(keys)
			keys = append(keys, best.Keys[o.K])
		}
		all = all || o.O == "rngm"
	}
	if len(keys) > 0 && len(keys) < len(best.Keys) && !all && best.Kind != "options" {
		d := best
		d.Keys = keys
		d.Ops = append([]Op(nil), best.Ops...)
		for i := range d.Ops {
			d.Ops[i].K = used[d.Ops[i].K]
		}
		try(d)
	}
	// smaller values
	if len(best.Ops) > 0 && len(best.Ops) < 200 && best.VT == 0 && best.Kind != "big" {
		d := best
		d.Ops = append([]Op(nil), best.Ops...)
		for i := range d.Ops {
			if d.Ops[i].O != "rngm" {
				d.Ops[i].V = i
			}
		}
		try(d)
	}
	if best.Kind == "options" || best.Kind == "hash" {
		for len(best.Keys) > 1 {
			d := best
			d.Keys = best.Keys[:len(best.Keys)/2]
			if !try(d) {
				break
			}
		}
	}
	return &best
}

func shrinkThr(c *Case, until time.Time, bad func(*Case) bool) *Case {
	best := *c
	try := func(thr [][]Op) bool {
		if time.Now().After(until) {
			return false
		}
		d := best
		d.Thr = thr
		if len(d.Cfgs) > 0 {
			return false // one configuration for each goroutine
		}
		if bad(&d) {
			best = d
			return true
		}
		return false
	}
	for i := len(best.Thr) - 1; i >= 0 && len(best.Thr) > 1; i-- {
		try(append(append([][]Op(nil), best.Thr[:i]...), best.Thr[i+1:]...))
	}
	for i := range best.Thr {
		i := i
		ddmin(best.Thr[i], until, func(o []Op) bool {
			thr := append([][]Op(nil), best.Thr...)
			thr[i] = o
			return try(thr)
		})
	}
	return &best
}

func checkMain(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	race := fs.String("race", "", "path of the -race binary")
	verif := fs.String("verif", "/verif", "")
	work := fs.String("work", "", "scratch directory")
	budget := fs.Int("budget", 0, "seconds")
	cases := fs.Int("cases", 0, "")
	fast := fs.Bool("fast", false, "only report whether a case fails (for tests of the checks)")
	fs.Parse(args)
	start := time.Now()
	p := propByID(*prop)
	if p == nil || (*tier != "quick" && *tier != "thorough") {
		fmt.Fprintln(os.Stderr, "unknown property or tier")
		os.Exit(2)
	}
	if *fast {
		stall = 25
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	b := *budget
	if b == 0 {
		b = 200
		if *tier == "thorough" {
			b = 800
		}
	}
	k := &checker{p: p, tier: *tier, seed: *seed, race: *race, self: self, verif: *verif, work: *work, workers: 8,
		deadline: start.Add(time.Duration(b) * time.Second), nt: map[uint64]bool{},
		total: workResult{Cnt: map[string]int{}, Kinds: map[string]int{}}}
	n := p.Quick
	if *tier == "thorough" {
		n = p.Thorough
	}
	if *cases > 0 {
		n = *cases
	}
	var f *finding
	end := k.deadline
	raceCases := 0
	if p.Race > 0 {
		if *race == "" {
			fmt.Fprintln(os.Stderr, "no -race binary")
			os.Exit(2)
		}
		k.workers = 5
		k.deadline = start.Add(time.Duration(b) * time.Second / 2)
	}
	f, err = k.phase(false, n)
	if err == nil && f == nil && p.Race > 0 {
		k.deadline = end
		before := k.total.Cases
		f, err = k.phase(true, n)
		raceCases = k.total.Cases - before
	}
	if err != nil && f == nil {
		fmt.Fprintln(os.Stderr, "the check itself has failed:", err)
		os.Exit(2)
	}
	if p.ID == "C12" {
		knownWalk()
	}
	viol := 0
	replay, msg := "", ""
	if f != nil {
		viol = 1
		if *fast {
			fmt.Printf("case %d (%s): %.300s\nVIOLATION property=%s replay=none\n", f.index, f.how, f.msg, p.ID)
			os.Exit(1)
		}
		replay, msg = k.settle(f)
	}
	k.evidence(start, n, raceCases, viol)
	if viol > 0 {
		if len(msg) > 6000 {
			msg = msg[:6000]
		}
		fmt.Printf("case %d (%s): %s\n", f.index, f.how, msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, replay)
		os.Exit(1)
	}
	fmt.Printf("property=%s held: %d cases, %d of them distinct and non-trivial, %.1f s\n", p.ID, k.total.Cases, len(k.nt), time.Since(start).Seconds())
	os.Exit(0)
}

// knownWalk shows the known finding of C12 (see KNOWN_FINDINGS.txt), if it is still there: exactly this program, in a
// process of its own. Generated cases never hand heads to a type like this.
func knownWalk() {
	self, err := os.Executable()
	if err != nil {
		return
	}
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	out, _ := exec.CommandContext(ctx, self, "farwalk").CombinedOutput()
	if strings.Contains(string(out), "entries met:") {
		return
	}
	if strings.Contains(string(out), "invalid memory address or nil pointer") || strings.Contains(string(out), "unexpected fault address") {
		fmt.Println("KNOWN-FINDING: property=C12 walk from First() of an empty map whose item type has its list head 128 GB behind its start: the head of the list is handed to the caller as an item of this type, and its first use faults")
	}
}

func (k *checker) evidence(start time.Time, planned, raceCases, viol int) {
	counters := map[string]interface{}{}
	for n, v := range k.total.Cnt {
		counters[n] = v
	}
	kinds := map[string]int{}
	for n, v := range k.total.Kinds {
		kinds[n] = v
	}
	sort.Strings(k.total.Samples)
	samples := k.total.Samples
	if len(samples) > 6 {
		samples = samples[:6]
	}
	if len(samples) == 0 {
		samples = []string{"case 0: " + describe(caseOf(k.p, k.seed, 0, k.tier == "thorough"))}
	}
	cov := map[string]interface{}{
		"evaluations":         k.total.Cases,
		"distinct_nontrivial": len(k.nt),
		"rule":                k.p.Rule,
		"samples":             samples,
		"planned":             planned,
		"counters":            counters,
		"cases_by_kind":       kinds,
	}
	if k.p.Race > 0 {
		if k.p.Newer {
			cov["cases_built_by_newer_go"] = raceCases
		} else {
			cov["cases_under_race_detector"] = raceCases
		}
	}
	if k.stopped {
		cov["stopped_by_time_limit"] = true
	}
	ev := map[string]interface{}{
		"property": k.p.ID, "tier": k.tier, "seed": k.seed, "level": "exploration", "coverage": cov,
		"assumptions": assumptions(k.p), "wall_s": time.Since(start).Seconds(), "violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(k.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, k.p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func assumptions(p *Prop) []string {
	a := []string{
		"only generated cases are decided; nothing is proved for the others",
		"the process hash seed of the Go runtime is replaced by a constant (build overlay on runtime/alg.go), so that cases are the same in every run",
	}
	if p.Newer {
		a = append(a, "a part of the cases runs in a build of /opt/veriftools/go1.26*, if it is there, otherwise in a second build of the same release")
	} else if p.Race > 0 {
		a = append(a, "schedules are those the Go scheduler makes on this machine; the race detector runs with checkptr off, because the code under test computes addresses")
	}
	if p.GC {
		a = append(a, "freed memory is overwritten (GODEBUG=clobberfree=1) and reused, so a lost object is seen when it is read")
	}
	return a
}
func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}
