package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"syscall"
)

// Prop says how one property is decided.
type Prop struct {
	ID       string
	Quick    int  // cases of the quick tier
	Thorough int  // cases of the thorough tier
	Race     int  // percent of the cases which are run by the second binary
	Newer    bool // the second binary is built by a newer Go release, not with the race detector
	GC       bool // workers run with GODEBUG=clobberfree=1 and a small GOGC
	Gen      func(r *R, i int, thorough bool) *Case
	Rule     string
	NonTriv  func(c *Case, st *Stats) bool // nil: the runner has decided
}

func execute(c *Case, st *Stats) error {
	if c.Cold && os.Getenv("VH_COLD") == "" {
		return runCold(c, st)
	}
	switch c.Kind {
	case "seq":
		return runSeq(c, st)
	case "diff":
		return runDiff(c, st)
	case "inter":
		return runInterleaved(c, st)
	case "multi":
		return runMulti(c, st)
	case "lin":
		return runLin(c, st)
	case "readers":
		return runReaders(c, st)
	case "inserts":
		return runInserts(c, st)
	case "rmap":
		return runRMap(c, st)
	case "poolcap":
		return runPoolCap(c, st)
	case "hash":
		return runHash(c, st)
	case "atomic":
		return runAtomic(c, st)
	case "big":
		return runBig(c, st)
	case "cost":
		return runCost(c, st)
	case "churn":
		return runChurn(c, st)
	case "size":
		return runSize(c, st)
	case "slide":
		return runSlide(c, st)
	case "release":
		return runRelease(c, st)
	case "options":
		return runOptions(c, st)
	}
	return fmt.Errorf("harness: unknown kind %q", c.Kind)
}

// runCold runs a case in a new process, so that everything which is made at first use is made by its calls.
func runCold(c *Case, st *Stats) error {
	self, err := os.Executable()
	if err != nil {
		return err
	}
	d := *c
	d.Reps = 1
	b, _ := json.Marshal(&d)
	f, err := os.CreateTemp(os.Getenv("VH_WORK"), "cold")
	if err != nil {
		return err
	}
	defer os.Remove(f.Name())
	f.Write(b)
	f.Close()
	cmd := exec.Command(self, "one", f.Name())
	var t tail
	cmd.Stdout, cmd.Stderr = &t, &t
	cmd.Env = append(os.Environ(), "VH_COLD=1")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread() // Pdeathsig is sent when the thread ends
	defer runtime.UnlockOSThread()
	err = cmd.Run()
	code, sig := endOf(err)
	switch how := classify(code, sig, t.String()); how {
	case "":
		st.NonTrivial = true
		st.inc("cases in a new process")
		return nil
	case "fail":
		return failf("%s", t.String())
	case "harness":
		return fmt.Errorf("new process: code %d, signal %v\n%s", code, sig, t.String())
	default:
		fmt.Fprintln(os.Stderr, t.String())
		if code <= 0 {
			code = 2
		}
		os.Exit(code)
	}
	return nil
}

// seqCase makes a sequential history.
type seqGen struct {
	stores   []string
	craft    int // percent of cases with chosen hashes
	set      []string
	del      []string
	read     []string
	extra    []string
	probes   int
	chk      string
	vt       int
	printKey bool
	nkMax    int
	wide     int // percent of cases with long buckets, besides 2
}

func (g seqGen) gen(prop string, r *R, thorough bool) *Case {
	c := &Case{Prop: prop, Kind: "seq", VT: g.vt, Chk: g.chk}
	c.Cfg = cfgOf(r, g.stores...)
	if g.vt == 0 && r.P(6) {
		c.VT = 1
	}
	nk, nops := sizeOf(r, thorough)
	if g.nkMax > 0 && nk > g.nkMax {
		nk = g.nkMax
	}
	if r.P(g.wide + 2) { // long buckets
		c.Cfg.Max = r.Range(65, 400)
		nk = c.Cfg.Max * r.Range(2, 6) / 2
		nops = nk * r.Range(2, 5)
	}
	c.Keys, nops = g.keys(r, nk, nops)
	c.Ops = g.hist(r, c.Keys, nops)
	return c
}

func (g seqGen) keys(r *R, nk, nops int) ([]Key, int) {
	if r.P(g.craft) {
		if nk > 600 {
			nk = 600
		}
		if nops > 3000 {
			nops = 3000
		}
		return shuffled(r, craftKeys(r, nk, r.Intn(nCraftShape))), nops
	}
	sh := r.Intn(nStrShape)
	if g.printKey && sh == 1 {
		sh = 2
	}
	return shuffled(r, strKeys(r, nk, sh)), nops
}

func (g seqGen) hist(r *R, keys []Key, nops int) []Op {
	h := &hist{r: r, keys: keys, vmax: 100000, probes: g.probes}
	h.set = pick(r, g.set...)
	if len(g.del) > 0 {
		h.del = pick(r, g.del...)
	} else {
		h.del = h.set
	}
	h.read = pick(r, g.read...)
	if len(g.extra) > 0 {
		h.extra = func() *Op {
			o := &Op{O: g.extra[r.Intn(len(g.extra))], K: r.Intn(len(keys)), V: r.Intn(h.vmax), A: r.Intn(7)}
			switch o.O {
			case "rngs", "rngis":
				o.A = 1 + r.Intn(len(keys)+1)
			case "mx":
				o.A = []int{1, 2, 3, 5, 8, 16, 32, 64}[r.Intn(8)]
			case "rng", "rngi", "walk", "dump", "rngm", "all":
				if len(keys) > 200 && r.P(90) {
					return nil
				}
			case "gc":
				o.A = 50 * r.Intn(40)
			}
			return o
		}
	}
	h.init()
	h.fill(nops)
	if len(h.ops) > nops+200 {
		h.ops = h.ops[:nops+200]
	}
	return h.ops
}

func hasDelAndSplit(c *Case, st *Stats) bool {
	return st.Cnt["deletes of live keys"] > 0 && st.Cnt["hits"] > 0 && st.Cnt["inserts"] > 2
}

const ruleHist = "a case is a configuration (item storage, BucketMode, MaxPefBucket), a universe of keys of a drawn shape " +
	"(numbered, random bytes, neighbours in hash order, both ends of the hash order, long, evenly spaced; or items with chosen hashes: " +
	"bucket boundaries, equal hashes, consecutive hashes, ids, one subtree, the ends) and a generated history of calls (phases over subsets in ascending, " +
	"descending, two-ended or random hash order; random mixes; delete-and-insert-again saws). "

var sets = []string{"set", "set", "set", "sto"}

// anyKeys: string keys, or (not for RMap) items with chosen hashes.
func anyKeys(r *R, cfg Cfg, nk int) []Key {
	if cfg.Store != "rmap" && r.P(15) {
		return shuffled(r, craftKeys(r, nk, []int{0, 1, 2, 3, 5}[r.Intn(5)]))
	}
	return shuffled(r, strKeys(r, nk, []int{0, 2, 3, 4, 6}[r.Intn(5)]))
}

// manyCalls of every kind.
func manyCalls(r *R, c *Case, n int) (ops []Op) {
	mix := weighted(r, []string{"set", "sto", "stor", "get", "geth", "mis", "del", "pur", "misd", "len", "rng", "rngi"},
		r.Range(1, 8), r.Range(0, 4), r.Range(0, 3), r.Range(0, 8), 1, r.Range(0, 3), r.Range(0, 3), r.Range(0, 3), r.Range(0, 2), r.Intn(2), r.Intn(2), r.Intn(2))
	set := 0
	if r.P(40) {
		set = r.Range(1, 10)
	}
	for ; n > 0; n-- {
		o := Op{O: mix(), K: r.Intn(len(c.Keys)), V: r.Intn(1000), A: r.Intn(5)}
		if r.P(2) && c.Cfg.Store != "rmap" {
			o.O = []string{"walk", "dump", "rngs", "loa"}[r.Intn(4)]
		}
		if r.P(set) && c.Cfg.Store != "rmap" { // all of them several times, so that they come back to where they were
			o.O = []string{"bm", "mx", "up", "up"}[r.Intn(4)]
			o.A = []int{3, 4, 5, 6, 9, 16, 21}[r.Intn(7)]
			if o.O == "bm" && c.Cfg.Store == "plain" {
				o.A %= len(bucketModes) - 1
			}
			if o.O == "up" && c.Cfg.Bucket%len(bucketModes) == 5 {
				o.O = "len"
			}
		}
		ops = append(ops, o)
	}
	return
}

var dels = []string{"del", "pur"}

func concOps(r *R, nthr, nops, lo, hi int, mix func() string, vmax int) (thr [][]Op) {
	for t := 0; t < nthr; t++ {
		var ops []Op
		for i := 0; i < nops; i++ {
			a := 0
			if r.P(30) {
				a = r.Intn(60)
			}
			ops = append(ops, Op{O: mix(), K: r.Range(lo, hi-1), V: r.Intn(vmax), A: a})
		}
		thr = append(thr, ops)
	}
	return
}

// toFar: items of the type far, and no call which hands a head of the list to the caller as an item of this type.
func (c *Case) toFar() {
	c.Cfg.Item = "far"
	for i := range c.Ops {
		switch c.Ops[i].O {
		case "walk", "dump", "keep":
			c.Ops[i].O = "rngi"
		}
	}
	c.Chk = strings.NewReplacer("fin:walk", "fin:rngi", "fin:keep", "fin:rngi", "fin:dump", "fin:rngi").Replace(c.Chk)
}

func concCfg(r *R) Cfg {
	c := cfgOf(r, "plain", "pool", "emb")
	if c.Max == 0 {
		c.Max = 2
	}
	if c.Store == "plain" && r.P(20) {
		c.Item = []string{"own", "entry"}[r.Intn(2)]
	}
	if c.Store == "pool" && r.P(25) {
		c.Goro = true
	}
	return c
}

// settings puts changes of the settings between the calls.
func settings(r *R, c *Case) *Case {
	if c.Cfg.Store == "rmap" || !r.P(30) {
		return c
	}
	modes := len(bucketModes)
	if c.Cfg.Store == "plain" {
		modes-- // the last one would change the storage
	}
	n := r.Range(1, 20)
	for t := range c.Thr {
		var ops []Op
		for _, o := range c.Thr[t] {
			if r.P(n) {
				if c.Cfg.Store == "pool" && r.P(30) {
					ops = append(ops, Op{O: "up", V: r.Intn(2), A: r.Intn(30)})
				} else if r.P(60) {
					ops = append(ops, Op{O: "mode", V: r.Intn(modes), A: r.Intn(30)})
				} else {
					ops = append(ops, Op{O: "max", V: r.Range(1, 40), A: r.Intn(30)})
				}
			}
			ops = append(ops, o)
		}
		c.Thr[t] = ops
	}
	return c
}

// concKeys: string keys, or (not for RMap) items with chosen hashes.
func concKeys(r *R, cfg Cfg, n int) []Key {
	if cfg.Store != "rmap" && cfg.Item != "entry" && r.P(25) {
		return craftKeys(r, n, []int{0, 1, 2, 4, 5, 6}[r.Intn(6)])
	}
	return strKeys(r, n, []int{0, 2, 3, 4, 6}[r.Intn(5)])
}

// onlyAPI: keys which no call can name are not deleted.
func onlyAPI(c *Case) *Case {
	for t := range c.Thr {
		for j := range c.Thr[t] {
			if o := &c.Thr[t][j]; !c.Keys[o.K].api() && (o.O == "del" || o.O == "pur") {
				o.O = "sto"
			}
		}
	}
	return c
}

func withCycles(gen func(r *R, i int, th bool) *Case, pc int) func(r *R, i int, th bool) *Case {
	return func(r *R, i int, th bool) *Case { return cycles(r, gen(r, i, th), pc) }
}

// cycles: in pc percent of the cases one key is removed and stored again more than 256 times, rarely more than 65536 times.
func cycles(r *R, c *Case, pc int) *Case {
	if len(c.Ops) == 0 || len(c.Keys) == 0 || !r.P(pc) {
		return c
	}
	n := r.Range(257, 700)
	if r.P(8) && len(c.Keys) < 60 {
		n = r.Range(65537, 70000)
	}
	k := r.Intn(len(c.Keys))
	if !c.Keys[k].api() {
		return c
	}
	at := r.Intn(len(c.Ops) + 1)
	c.Ops = append(c.Ops[:at:at], append([]Op{{O: "cyc", K: k, A: n, V: r.Intn(1000)}}, c.Ops[at:]...)...)
	return c
}

// mixed: values of several types, some of them stored to V of the item by the caller.
func mixed(r *R, c *Case) *Case {
	if r.P(20) {
		c.Chk = strings.TrimSpace(c.Chk + " mixed")
	}
	return c
}

func weighted(r *R, names []string, w ...int) func() string {
	return func() string { return names[r.W(w...)] }
}

func genLin(prop string, cfg Cfg) func(r *R, i int, th bool) *Case {
	return func(r *R, i int, th bool) *Case {
		c := &Case{Prop: prop, Kind: "lin", Chk: "len", Cfg: cfg}
		if cfg.Store == "" {
			c.Cfg = concCfg(r)
		}
		nk := []int{1, 1, 2, 3, 5, 12, 40}[r.Intn(7)]
		nthr := r.Range(2, 6)
		nops := r.Range(20, 200)
		if nk == 1 && nops > 60 {
			nops = 60
		}
		c.Keys = shuffled(r, concKeys(r, c.Cfg, nk+r.Intn(60)))
		c.N = r.Intn(len(c.Keys) + 1)
		if nk > len(c.Keys) {
			nk = len(c.Keys)
		}
		mix := weighted(r, []string{"set", "sto", "get", "del", "pur", "len"}, r.Range(1, 6), 1, r.Range(1, 8), r.Range(1, 4), r.Range(0, 3), 1)
		// the hot keys are the first nk; other keys are only there, or inserted once in a while
		c.Thr = concOps(r, nthr, nops, 0, nk, mix, 1000)
		if len(c.Keys) > nk {
			for t := range c.Thr {
				for j := range c.Thr[t] {
					if r.P(25) {
						c.Thr[t][j].K = r.Intn(len(c.Keys))
					}
				}
			}
		}
		c.Reps = 200
		return settings(r, mixed(r, onlyAPI(c)))
	}
}

func genReaders(prop string, cfg Cfg, chk string) func(r *R, i int, th bool) *Case {
	return func(r *R, i int, th bool) *Case {
		c := &Case{Prop: prop, Kind: "readers", Chk: chk, Cfg: cfg, Seed: r.U64()}
		if cfg.Store == "" {
			c.Cfg = concCfg(r)
		}
		stable := r.Range(1, 150)
		vol := r.Range(10, 500)
		grow := chk == "iter" && r.P(50) // the writers insert new keys most of the time
		if grow {
			stable, vol = r.Range(20, 400), r.Range(200, 1200)
			c.Chk += " grow"
			if cfg.Store == "" && r.P(50) {
				c.Cfg.Store = "emb"
			}
		}
		long := chk == "iter" && !grow && r.P(25) // traversals of many keys, writers which remove at full speed
		if long {
			stable, vol = r.Range(20, 300), r.Range(700, 3000)
			if c.Cfg.Max < 8 && c.Cfg.Max > 0 {
				c.Cfg.Max = 8
			}
		}
		keys := concKeys(r, c.Cfg, stable+vol)
		if stable = stable * len(keys) / (stable + vol); stable < 1 {
			stable = 1
		}
		vol = len(keys) - stable
		if r.P(70) { // stable keys between the others
			keys = shuffled(r, keys)
		}
		c.Keys = keys
		c.N = stable
		nthr := r.Range(1, 4)
		nops := r.Range(100, 900)
		mix := weighted(r, []string{"set", "sto", "del", "pur"}, r.Range(1, 6), 1, r.Range(0, 4), r.Range(0, 4))
		c.Thr = concOps(r, nthr, nops, stable, stable+vol, mix, 1000)
		if long {
			c.Thr = concOps(r, nthr, r.Range(1000, 2500), stable, stable+vol, weighted(r, []string{"set", "del", "pur"}, 3, 1, r.Range(1, 3)), 1000)
			for t := range c.Thr {
				for j := range c.Thr[t] {
					c.Thr[t][j].A = 0
				}
			}
		}
		if grow {
			c.Thr = make([][]Op, nthr)
			for k := stable; k < len(keys); k++ {
				t := r.Intn(nthr)
				c.Thr[t] = append(c.Thr[t], Op{O: []string{"set", "set", "sto"}[r.Intn(3)], K: k, V: r.Intn(1000)})
				if r.P(10) {
					c.Thr[t] = append(c.Thr[t], Op{O: mix(), K: r.Range(stable, k), V: r.Intn(1000), A: r.Intn(40)})
				}
			}
		}
		// thread t is the only one which updates the stable keys k with k%nthr == t, with growing numbers
		for t := range c.Thr {
			n := 0
			for j := range c.Thr[t] {
				if r.P(20) && !grow || r.P(4) {
					k := r.Intn(stable)
					k -= (k - t) % nthr
					if k < 0 || k%nthr != t || k >= stable {
						continue
					}
					n++
					c.Thr[t][j] = Op{O: []string{"set", "set", "sto"}[r.Intn(3)], K: k, V: n, A: c.Thr[t][j].A}
				}
			}
		}
		c.Reps = 100
		return settings(r, mixed(r, onlyAPI(c)))
	}
}

func genInserts(prop string, cfg Cfg) func(r *R, i int, th bool) *Case {
	return func(r *R, i int, th bool) *Case {
		c := &Case{Prop: prop, Kind: "inserts", Cfg: cfg}
		if cfg.Store == "" {
			c.Cfg = concCfg(r)
		}
		n := []int{20, 60, 200, 600, 1500}[r.Intn(5)]
		c.Keys = shuffled(r, concKeys(r, c.Cfg, n))
		n = len(c.Keys)
		c.N = r.Intn(n / 2)
		nthr := r.Range(2, 8)
		c.Thr = make([][]Op, nthr)
		share := r.Intn(40)
		put := func(t, k int) {
			a := 0
			if r.P(20) {
				a = r.Intn(40)
			}
			c.Thr[t] = append(c.Thr[t], Op{O: []string{"set", "set", "set", "sto"}[r.Intn(4)], K: k, V: r.Intn(1000), A: a})
		}
		for k := c.N / 2; k < n; k++ { // some preloaded keys are updated, the others are new
			if r.P(5) {
				continue
			}
			put(r.Intn(nthr), k)
			for r.P(share) {
				put(r.Intn(nthr), k)
			}
		}
		c.Reps = 100
		return settings(r, mixed(r, onlyAPI(c)))
	}
}

func props() []*Prop {
	all := []string{"plain", "pool", "emb"}
	var ps []*Prop
	add := func(p *Prop) { ps = append(ps, p) }

	hist := func(id string, quick, thorough int, g seqGen, rule string, nt func(*Case, *Stats) bool) *Prop {
		return &Prop{ID: id, Quick: quick, Thorough: thorough, Rule: ruleHist + rule, NonTriv: nt,
			Gen: func(r *R, i int, th bool) *Case { return g.gen(id, r, th) }}
	}

	g01 := seqGen{stores: []string{"plain", "pool"}, set: sets, del: dels, read: []string{"get", "get", "get", "loa", "geth"},
		extra: []string{"mis", "misd", "all", "stor", "badk"}, probes: 60, chk: "ret olds fin:all"}
	p := hist("C01", 40000, 1200000, g01, "Non-trivial: at least one live key is deleted, more than two are inserted, and a read finds its key.", hasDelAndSplit)
	p.Gen = func(r *R, i int, th bool) *Case {
		c := g01.gen("C01", r, th)
		if c.Cfg.Store == "pool" && r.P(8) {
			c.Cfg.Goro = true
		}
		if r.P(4) {
			c.Cfg = Cfg{Store: "plain", Def: true}
		}
		return c
	}
	p.Gen = withCycles(p.Gen, 3)
	add(p)
	add(hist("C02", 40000, 1200000, seqGen{stores: []string{"emb"}, set: sets, del: dels, read: []string{"get", "get", "get", "loa", "geth"},
		extra: []string{"mis", "misd", "all", "stor", "badk"}, probes: 60, chk: "ret olds fin:all"},
		"Non-trivial: at least one live key is deleted, more than two are inserted, and a read finds its key.", hasDelAndSplit))
	ps[len(ps)-1].Gen = withCycles(ps[len(ps)-1].Gen, 3)

	add(hist("C03", 20000, 600000, seqGen{stores: all, craft: 25, set: sets, del: dels, read: []string{"rng", "rngi", "rngs", "rngis", "get"},
		extra: []string{"rngm", "rngm", "rngx", "rng", "rngi", "rngs", "rngis"}, probes: 25, chk: "fin:rng fin:rngi", nkMax: 300},
		"Traversals run at many points, stop early after a drawn number of keys, or change the map from the callback. Non-trivial: at least two traversals and at least one live key deleted.",
		func(c *Case, st *Stats) bool {
			return st.Cnt["traversals"] > 1 && st.Cnt["deletes of live keys"] > 0
		}))

	add(hist("C04", 50000, 1500000, seqGen{stores: all, craft: 15, set: append([]string{"setb"}, sets...), del: []string{"del", "pur", "delb", "purb"}, read: []string{"len"},
		extra: []string{"misd", "misd", "setv", "bm", "mx", "badk"}, probes: 40, chk: "len fin:len"},
		"Len() is read after every call. Non-trivial: at least one update of a live key, one delete of a live key and one insertion of a deleted key.",
		func(c *Case, st *Stats) bool {
			return st.Cnt["updates"] > 0 && st.Cnt["deletes of live keys"] > 0 && st.Cnt["reinserts"] > 0
		}))
	ps[len(ps)-1].Gen = withCycles(ps[len(ps)-1].Gen, 2)

	g05 := seqGen{stores: all, craft: 25, set: sets, del: []string{"del", "pur", "delb", "purb"}, read: []string{"get", "getb", "geth", "loa", "all", "srch"},
		extra: []string{"misd", "misd", "all", "rng", "walk", "stor"}, probes: 50, chk: "ret olds fin:all fin:rng", nkMax: 120}
	p = hist("C05", 20000, 600000, g05, "Deletes are more frequent, all keys are read after many of them. Non-trivial: at least two live keys deleted and one of them inserted again.",
		func(c *Case, st *Stats) bool { return st.Cnt["deletes of live keys"] > 1 && st.Cnt["reinserts"] > 0 })
	p.Gen = withCycles(p.Gen, 5)
	add(p)

	g06 := seqGen{stores: all, set: []string{"set", "sto"}, del: dels, read: []string{"geth", "loah", "getb", "loa", "get", "mish", "srch"},
		extra: []string{"mish", "mish", "all", "rng"}, probes: 70, chk: "ret fin:all fin:rng", nkMax: 200}
	p = hist("C06", 30000, 900000, g06, "Items with chosen hashes: many keys share a hash and differ in the second hash; string keys are read by key, as []byte, and by hash. "+
		"Non-trivial: reads find their keys, and a wrong second hash was asked for or two keys of the universe share a hash.",
		func(c *Case, st *Stats) bool {
			seen := map[uint64]bool{}
			for i := range c.Keys {
				h, _ := c.Keys[i].hash()
				if seen[h] {
					return st.Cnt["hits"] > 0
				}
				seen[h] = true
			}
			return st.Cnt["hits"] > 0 && st.Cnt["wrong-conflict lookups"] > 0
		})
	p.Gen = func(r *R, i int, th bool) *Case {
		c := &Case{Prop: "C06", Kind: "seq", Chk: g06.chk, Cfg: cfgOf(r, all...)}
		nk, nops := sizeOf(r, th)
		if nk > 200 {
			nk = 200
		}
		if nops > 2500 {
			nops = 2500
		}
		if r.P(70) {
			c.Keys = shuffled(r, craftKeys(r, nk, []int{1, 1, 4, 4, 0, 6}[r.Intn(6)]))
		} else {
			c.Keys = shuffled(r, strKeys(r, nk, r.Intn(nStrShape)))
		}
		c.Ops = g06.hist(r, c.Keys, nops)
		return c
	}
	add(p)

	g07 := seqGen{stores: all, craft: 100, set: []string{"sto"}, del: dels, read: []string{"geth", "geth", "loah", "mish2", "srch"},
		extra: []string{"all", "rng", "walk", "mish2"}, probes: 50, chk: "ret fin:all fin:rng fin:walk fin:len"}
	p = hist("C07", 30000, 900000, g07, "All keys have chosen, extreme hashes, or are string keys which are neighbours in hash order. Non-trivial: buckets were split and reads find their keys.",
		func(c *Case, st *Stats) bool { return st.Cnt["hits"] > 0 && st.Cnt["bucket splits"] > 0 })
	p.Gen = func(r *R, i int, th bool) *Case {
		c := &Case{Prop: "C07", Kind: "seq", Chk: g07.chk, Cfg: cfgOf(r, all...)}
		nk, nops := sizeOf(r, th)
		if r.P(80) {
			if nk > 700 {
				nk = 700
			}
			if nops > 4000 {
				nops = 4000
			}
			c.Keys = shuffled(r, craftKeys(r, nk, r.Intn(nCraftShape)))
		} else {
			c.Keys = shuffled(r, strKeys(r, nk, []int{2, 3, 4}[r.Intn(3)]))
		}
		c.Ops = g07.hist(r, c.Keys, nops)
		if r.P(40) && c.Cfg.Max > 4 {
			c.Cfg.Max = r.Range(1, 4)
		}
		return c
	}
	add(p)

	g08 := seqGen{stores: all, craft: 15, set: []string{"set", "set", "sto", "stod"}, del: dels, read: []string{"get", "get", "loa", "all"},
		extra: []string{"gc", "gc", "gc", "rng", "rngi", "keep"}, probes: 40, chk: "fin:keep fin:gc fin:all fin:rng", vt: 2, nkMax: 400, wide: 12}
	p = hist("C08", 1500, 40000, g08, "Only the map refers to its items and values; the garbage collector runs between calls with clobberfree=1 and memory is allocated and dropped; in half of the cases every call is made on a small stack which grows, and is moved, in the call. "+
		"Non-trivial: at least one collection, after it reads find their keys, at least one live key deleted.",
		func(c *Case, st *Stats) bool {
			return st.Cnt["collections"] > 1 && st.Cnt["hits"] > 0 && st.Cnt["deletes of live keys"] > 0
		})
	p.GC, p.Race, p.Newer = true, 40, true
	p.Gen = func(r *R, i int, th bool) *Case {
		c := g08.gen("C08", r, th)
		if c.Cfg.Store == "plain" && r.P(40) {
			c.Cfg.Item = "own"
			if len(c.Keys) <= 120 && r.P(40) {
				c.toFar()
			}
		}
		if r.P(50) { // every call on a goroutine of its own
			c.Chk += " stack"
		}
		if r.P(25) { // collections at any time
			c.Chk += " always"
			c.Reps = 20
			if r.P(40) { // on many maps at the same time
				c.Chk += " crowd"
			}
		}
		return c
	}
	add(p)

	ruleConc := "a case is a configuration, a set of string keys (numbered, or neighbours in hash order), and one list of calls for each goroutine; all start together on one map. " +
		"Schedules are the ones the Go scheduler makes on 8 cores; half of the cases run under the race detector. "
	add(&Prop{ID: "C09", Quick: 400, Thorough: 12000, Race: 40, Gen: genReaders("C09", Cfg{}, ""),
		Rule: ruleConc + "Three readers look for stable keys while 1-4 writers insert, update, delete and purge the others. Non-trivial: readers have read while writers were active."})
	add(&Prop{ID: "C10", Quick: 1500, Thorough: 40000, Race: 40, Gen: genInserts("C10", Cfg{}),
		Rule: ruleConc + "2-8 goroutines insert new keys and update old ones; some keys are inserted by several of them. Non-trivial: new keys are inserted by at least two goroutines."})
	add(&Prop{ID: "C11", Quick: 8000, Thorough: 200000, Race: 30, Gen: genLin("C11", Cfg{}),
		Rule: ruleConc + "2-6 goroutines call Set, StoreItem, Get, GetByHash, LoadItem, Delete and Purge for a few hot keys; calls and returns are stamped by one counter, and the history of every key is searched for a sequential explanation. " +
			"Non-trivial: at least two calls for the same key of different goroutines overlap (or the case runs under the race detector)."})

	add(hist("C12", 2500, 60000, seqGen{stores: all, craft: 40, set: sets, del: dels, read: []string{"walk", "dump", "get"},
		extra: []string{"walk", "dump", "dump", "bm", "mx"}, probes: 20, chk: "fin:dump", printKey: true, nkMax: 300},
		"First(), Next(), Prev() and Last() are followed through the whole list and compared with the model and the three dumps. Non-trivial: at least one walk after buckets were split and a live key deleted.",
		func(c *Case, st *Stats) bool {
			return st.Cnt["walks"] > 0 && st.Cnt["bucket splits"] > 0 && st.Cnt["deletes of live keys"] > 0
		}))

	g13 := seqGen{stores: all, craft: 10, set: sets, del: dels, read: []string{"get", "loa", "geth", "len", "srch"},
		extra: []string{"bm", "mx", "up", "bm", "mx", "up", "sw", "rng", "all"}, probes: 40, chk: "ret fin:all fin:rng fin:len", vt: 0, nkMax: 300}
	p = &Prop{ID: "C13", Quick: 16000, Thorough: 500000,
		Rule: ruleHist + "The same history, in which BucketMode, MaxPefBucket, UsePool, EnableStats, UseGoroutineInPool and the log writer change at drawn points, runs on 3-5 maps of different configurations (storage, search mode, bucket size, statistics on or off, pool goroutines); " +
			"all results are compared one by one. Non-trivial: at least two configurations, reads find keys, and live keys are deleted."}
	p.Gen = func(r *R, i int, th bool) *Case {
		c := &Case{Prop: "C13", Kind: "diff", Chk: g13.chk}
		nk, nops := sizeOf(r, th)
		if nk > 300 {
			nk = 300
		}
		if nops > 2500 {
			nops = 2500
		}
		if r.P(15) {
			c.Keys = shuffled(r, craftKeys(r, nk, []int{2, 3, 5}[r.Intn(3)])) // no equal hashes: the order of the traversal is unique
		} else {
			c.Keys = shuffled(r, strKeys(r, nk, r.Intn(nStrShape)))
		}
		c.Ops = g13.hist(r, c.Keys, nops)
		c.Cfgs = []Cfg{cfgOf(r, "plain"), cfgOf(r, "pool"), cfgOf(r, "emb")}
		if r.P(40) {
			c.Cfgs = append(c.Cfgs, Cfg{Store: "plain", Def: true})
		}
		if r.P(25) {
			c.Cfgs[r.Intn(3)].Stats = true
		}
		if r.P(5) {
			g := cfgOf(r, "pool")
			g.Goro = true
			c.Cfgs = append(c.Cfgs, g)
		}
		return c
	}
	add(p)

	g14 := seqGen{stores: all, craft: 0, set: sets, del: dels, read: []string{"get", "loa", "geth", "len", "srch"},
		extra: []string{"all", "rng", "mis"}, probes: 40, chk: "ret fin:all fin:rng fin:len", nkMax: 200}
	p = &Prop{ID: "C14", Quick: 4000, Thorough: 100000, Race: 25,
		Rule: ruleHist + "The calls go to 2-5 maps of different configurations with the same keys: one goroutine and calls of all maps interleaved, or one goroutine per map (RMaps among them, a part under the race detector). " +
			"Every map is compared with its own model. Non-trivial: at least two maps."}
	p.Gen = func(r *R, i int, th bool) *Case {
		nk, nops := sizeOf(r, th)
		if nk > 200 {
			nk = 200
		}
		if nops > 1200 {
			nops = 1200
		}
		c := &Case{Prop: "C14", Chk: g14.chk, Keys: shuffled(r, strKeys(r, nk, r.Intn(nStrShape)))}
		n := r.Range(2, 5)
		if r.P(50) {
			c.Kind = "inter"
			for j := 0; j < n; j++ {
				c.Cfgs = append(c.Cfgs, cfgOf(r, all...))
			}
			if r.P(20) { // for all maps
				c.Cfgs[0].Goro = true
			}
			c.Ops = g14.hist(r, c.Keys, nops)
			for j := range c.Ops {
				c.Ops[j].A = r.Intn(1000)
			}
			return c
		}
		c.Kind = "multi"
		c.Reps = 100
		gr := g14
		gr.read, gr.extra, gr.del = []string{"get", "geth", "len"}, []string{"all", "mis"}, []string{"del"}
		for j := 0; j < n; j++ {
			if r.P(15) {
				c.Cfgs = append(c.Cfgs, Cfg{Store: "rmap"})
				c.Thr = append(c.Thr, gr.hist(r, c.Keys, nops))
				continue
			}
			c.Cfgs = append(c.Cfgs, cfgOf(r, all...))
			c.Thr = append(c.Thr, g14.hist(r, c.Keys, nops))
		}
		if r.P(20) { // for all maps
			c.Cfgs[0].Goro = true
		}
		return c
	}
	add(p)

	add(&Prop{ID: "C15", Quick: 12000, Thorough: 400000,
		Rule: "a case is a configuration, 1-6 drawn options (BucketMode, MaxPefBucket, UsePool, UseEmbeddedPool, ItemFn), and keys. The options are applied to a map and undone by what Options() has returned; " +
			"then the map is told apart, if possible, from a map without these calls by inserting the keys (bucket boundaries, search counters of EnableStats, addresses of items, type of items, contents). " +
			"Also options are permuted. Non-trivial: at least one option undone and more than 20 keys.",
		Gen: func(r *R, i int, th bool) *Case {
			c := &Case{Prop: "C15", Kind: "options", Cfg: cfgOf(r, all...), VT: r.Intn(3), Seed: r.U64()}
			if r.P(10) {
				c.Cfg = Cfg{Store: "plain", Def: true}
			}
			for n := r.Range(1, 6); n > 0; n-- {
				o := Op{O: []string{"bm", "mx", "up", "em", "fn"}[r.Intn(5)], A: r.Intn(40)}
				if o.O == "mx" && o.A == 0 {
					o.A = 3
				}
				c.Ops = append(c.Ops, o)
			}
			c.Keys = shuffled(r, strKeys(r, r.Range(10, 300), []int{0, 2, 3, 4, 6}[r.Intn(5)]))
			if r.P(40) {
				c.N = r.Range(1, 200)
			}
			return c
		}})

	g16 := seqGen{set: []string{"set", "set", "sto"}, del: []string{"del"}, read: []string{"get", "get", "get", "geth"},
		extra: []string{"mis", "misd", "mish", "all", "len"}, probes: 60}
	p = &Prop{ID: "C16", Quick: 40000, Thorough: 1200000,
		Rule: ruleHist + "Here the map is an RMap; Len() is read after every call, reads drive the promotion of new entries. One case of 400 has 1000-5000 keys. Non-trivial: at least one update and one delete of a live key, and reads which find keys."}
	p.Gen = func(r *R, i int, th bool) *Case {
		c := &Case{Prop: "C16", Kind: "rmap", VT: r.Intn(2)}
		if i%400 == 200 { // many keys
			c.Keys = shuffled(r, strKeys(r, r.Range(1000, 5000), []int{0, 1, 6}[r.Intn(3)]))
			n := len(c.Keys)
			for round := r.Range(1, 3); round > 0; round-- {
				for j, k := range r.Perm(n)[:r.Range(n/3, n)] {
					c.Ops = append(c.Ops, Op{O: "set", K: k, V: j})
				}
				rem := pick(r, "del", "del", "get")
				for j := r.Range(n/4, 2*n); j > 0; j-- { // misses make the new keys readable without lock
					c.Ops = append(c.Ops, Op{O: "get", K: r.Intn(n)})
					if r.P(8) {
						c.Ops = append(c.Ops, Op{O: rem(), K: r.Intn(n)}, Op{O: "set", K: r.Intn(n), V: j})
					}
				}
			}
			return c
		}
		nk, nops := sizeOf(r, th)
		if nk > 300 {
			nk = 300
		}
		c.Keys = shuffled(r, strKeys(r, nk, r.Intn(nStrShape)))
		g := g16
		if r.P(50) { // few reads: entries stay in the new part
			g.probes = r.Intn(30)
		}
		c.Ops = g.hist(r, c.Keys, nops)
		return c
	}
	p.Gen = withCycles(p.Gen, 3)
	add(p)

	rm := Cfg{Store: "rmap"}
	p = &Prop{ID: "C17", Quick: 4000, Thorough: 100000, Race: 30,
		Rule: ruleConc + "Here the map is an RMap; the cases are those of C09, C10 and C11. Non-trivial: as there."}
	p.Gen = func(r *R, i int, th bool) *Case {
		switch r.W(6, 2, 2) {
		case 0:
			return genLin("C17", rm)(r, i, th)
		case 1:
			return genReaders("C17", rm, "")(r, i, th)
		}
		c := genInserts("C17", rm)(r, i, th)
		if len(c.Keys) > 300 {
			c = genInserts("C17", rm)(r, i, th)
		}
		return c
	}
	add(p)

	add(&Prop{ID: "C18", Quick: 60, Thorough: 3000,
		Rule: "a case is an interval of lengths; the first cases cover 0..400000 completely, the others are drawn up to 2^40. Every length of the interval is checked. Non-trivial: not empty.",
		Gen: func(r *R, i int, th bool) *Case {
			c := &Case{Prop: "C18", Kind: "poolcap"}
			if i < 20 {
				c.Seed, c.N = uint64(i*20000), 20001
				return c
			}
			c.Seed, c.N = r.U64()>>r.Range(24, 60), r.Range(100, 20000)
			return c
		}})

	g19 := seqGen{stores: all, craft: 10, set: []string{"set", "set", "sto", "stod", "setv"}, del: dels, read: []string{"get", "get", "loa", "geth", "setv"},
		extra: []string{"rng", "rngi", "setv", "all"}, probes: 50, chk: "ret fin:all fin:rng fin:rngi", vt: 1, nkMax: 120}
	p = hist("C19", 20000, 600000, g19, "Values are of 38 dynamic types (numbers, NaN, strings, nil slices and pointers, structs, maps, functions, channels, errors, values of reflect and of the package ...) and change their type by Set, StoreItem and SetValue. Non-trivial: live keys updated and reads which find keys.",
		func(c *Case, st *Stats) bool { return st.Cnt["updates"] > 0 && st.Cnt["hits"] > 0 })
	p.Gen = func(r *R, i int, th bool) *Case {
		c := g19.gen("C19", r, th)
		return c
	}
	add(p)

	g20 := seqGen{stores: []string{"plain", "pool"}, craft: 30, set: []string{"sto", "sto", "stod", "stor", "setb"}, del: dels, read: []string{"loa", "loah", "loa", "get", "getb", "seti", "setv"},
		extra: []string{"rngi", "seti", "setv", "all", "walk", "dump"}, probes: 50, chk: "ret ident olds fin:all fin:rngi fin:walk", nkMax: 150, printKey: true}
	p = hist("C20", 16000, 500000, g20, "Items (SampleItem, SampleItem with a chosen hash, an item type of the user with SampleItem not at its start, NewEntryMap) are given to StoreItem; a new key must be found as the same item. Non-trivial: at least one item was found by identity after buckets were split or keys deleted.",
		func(c *Case, st *Stats) bool {
			return st.Cnt["identities"] > 0 && (st.Cnt["bucket splits"] > 0 || st.Cnt["deletes of live keys"] > 0)
		})
	p.Gen = func(r *R, i int, th bool) *Case {
		c := g20.gen("C20", r, th)
		if c.Cfg.Store == "plain" {
			switch r.Intn(3) {
			case 1:
				c.Cfg.Item = "own"
				if len(c.Keys) <= 120 && r.P(40) {
					c.toFar()
				}
			case 2:
				c.Cfg.Item = "entry"
				if !c.Keys[0].X {
					break
				}
				var ks []Key
				for _, k := range c.Keys { // an item has the hashes of its key
					if k.C == 0 {
						ks = append(ks, k)
					}
				}
				c.Keys = ks
				for j := range c.Ops {
					if len(ks) > 0 {
						c.Ops[j].K %= len(ks)
					}
				}
				if len(ks) == 0 {
					c.Keys = shuffled(r, strKeys(r, r.Range(1, 100), 0))
					for j := range c.Ops {
						c.Ops[j].K %= len(c.Keys)
					}
				}
			}
		}
		return c
	}
	add(p)

	add(&Prop{ID: "C21", Quick: 4000, Thorough: 100000,
		Rule: "a case is a set of strings (all shapes of the histories) placed at drawn addresses and alignments, and drawn numbers; in 1 of 12 cases also a key of 64 bytes to 2 MB, in which single bytes or the length are changed. Non-trivial: at least one string.",
		Gen: func(r *R, i int, th bool) *Case {
			return &Case{Prop: "C21", Kind: "hash", Keys: strKeys(r, r.Range(1, 400), r.Intn(nStrShape)), N: r.Range(1, 300), Seed: r.U64()}
		}})

	add(&Prop{ID: "C22", Quick: 2000, Thorough: 50000, Race: 30,
		Rule: "a case is a seed for a sequence of Load, Store and CompareAndSwap on an int with extreme values, compared with a plain variable, then 6 goroutines which count with CompareAndSwap, and one publication by Store and Load. Non-trivial: not empty.",
		Gen: func(r *R, i int, th bool) *Case {
			return &Case{Prop: "C22", Kind: "atomic", N: r.Range(10, 500), Seed: r.U64(), Reps: 50}
		}})

	add(&Prop{ID: "C23", Quick: 4000, Thorough: 100000,
		Rule:    "a case is a configuration and 100 to 12000 keys inserted in drawn order: string keys spread by the hash function, or (40 %) items whose hashes are spread evenly over one part of the range; at drawn points the longest run of entries between two bucket boundaries is measured. Non-trivial: buckets were split.",
		NonTriv: func(c *Case, st *Stats) bool { return st.Cnt["bucket splits"] > 0 },
		Gen: func(r *R, i int, th bool) *Case {
			c := &Case{Prop: "C23", Kind: "seq", Cfg: cfgOf(r, all...)}
			if c.Cfg.Max == 0 {
				c.Cfg.Max = 2
			}
			n := r.Range(100, 2500)
			if th && r.P(30) || r.P(3) {
				n = r.Range(2000, 12000)
				if c.Cfg.Max > 4 && r.P(70) {
					c.Cfg.Max = r.Range(1, 4)
				}
			}
			ops := []string{"set", "set", "sto"}
			lim, early := segLimit(c.Cfg), true
			if r.P(40) { // evenly spread over one part of the range
				ops = []string{"sto"}
				s := r.Range(20, 59)
				if c.Cfg.Max > 4 && r.P(50) {
					c.Cfg.Max = r.Range(1, 4)
				}
				lim = segLimit(c.Cfg)
				if c.Cfg.Store != "emb" {
					// the boundaries approach the part from outside, one half at a time
					s = r.Range(56, 59)
					lim = 12*c.Cfg.Max + 40
					n = r.Range(1000, 4000)
					early = false
				}
				c.Keys = partKeys(r, s, n)
			} else {
				c.Keys = shuffled(r, strKeys(r, n, []int{0, 5, 6}[r.Intn(3)]))
			}
			for j, k := range r.Perm(len(c.Keys)) {
				c.Ops = append(c.Ops, Op{O: ops[r.Intn(len(ops))], K: k, V: j})
				if early && r.Intn(n/4+1) == 0 {
					c.Ops = append(c.Ops, Op{O: "seg", A: lim})
				}
			}
			c.Ops = append(c.Ops, Op{O: "seg", A: lim})
			return c
		}})

	add(&Prop{ID: "C26", Quick: 3000, Thorough: 80000,
		Rule:    "a case is a configuration without embedded pool and 200 to 20000 string keys, or (25 %) items whose hashes are spread evenly over one part of the range (down to 1/16384 of it), inserted in drawn order, some deleted and inserted again; at drawn points about 300 stored keys and 300 missing hashes are looked up and the entries looked at are counted. Non-trivial: more than 1000 lookups counted among at least 500 keys.",
		NonTriv: func(c *Case, st *Stats) bool { return st.Cnt["lookups counted"] > 1000 && len(c.Keys) >= 500 },
		Gen: func(r *R, i int, th bool) *Case {
			c := &Case{Prop: "C26", Kind: "seq", Cfg: cfgOf(r, "plain", "pool")}
			if c.Cfg.Max == 0 {
				c.Cfg.Max = 2
			}
			n := r.Range(200, 2500)
			if th && r.P(20) || r.P(2) {
				n = r.Range(2500, 20000)
				if c.Cfg.Max < 4 {
					c.Cfg.Max = r.Range(4, 64)
				}
			}
			ins, rem, early := pick(r, "set", "set", "sto"), pick(r, "del", "pur"), true
			st := Op{O: "steps", A: c.Cfg.Max*3/4 + 12, V: 3*c.Cfg.Max + 30}
			if r.P(25) { // evenly spread over one part of the range
				n = r.Range(1000, 4000)
				if c.Cfg.Max > 16 {
					c.Cfg.Max = r.Range(1, 16)
				}
				c.N = 1000
				early = false // the boundaries approach the part from outside, one half at a time
				c.Keys = partKeys(r, r.Range(56, 59), n)
				ins = pick(r, "sto")
				rem = pick(r, "del")
				st = Op{O: "steps", A: c.Cfg.Max*3/2 + 16, V: 12*c.Cfg.Max + 40}
				if r.P(6) || th && r.P(10) { // boundaries of many levels
					n, c.Cfg.Max, c.N = r.Range(8000, 14000), r.Range(1, 4), 8000
					c.Keys = partKeys(r, r.Range(50, 57), n)
				}
			} else {
				c.Keys = shuffled(r, strKeys(r, n, []int{0, 5, 6}[r.Intn(3)]))
			}
			del := 0
			if r.P(30) {
				del = r.Range(1, 60)
			}
			for j, k := range r.Perm(len(c.Keys)) {
				c.Ops = append(c.Ops, Op{O: ins(), K: k, V: j})
				if r.P(del) {
					d := r.Intn(len(c.Keys))
					c.Ops = append(c.Ops, Op{O: rem(), K: d})
					if r.P(50) {
						c.Ops = append(c.Ops, Op{O: ins(), K: d, V: j})
					}
				}
				if r.Intn(n/3+1) == 0 && early {
					c.Ops = append(c.Ops, st)
				}
			}
			c.Ops = append(c.Ops, st)
			return c
		}})

	add(&Prop{ID: "C24", Quick: 400, Thorough: 10000, Race: 30, Gen: genReaders("C24", Cfg{}, "iter"),
		Rule: ruleConc + "Two of three readers traverse with Range or RangeItem, or dump entries or buckets, while 1-4 writers insert, update, delete and purge keys other than the stable ones. Non-trivial: traversals ran while writers were active."})

	add(&Prop{ID: "C25", Quick: 1500, Thorough: 60000,
		Rule: "a case is a configuration (1 of 10: an RMap), 1-400 string keys or items with chosen hashes, which are all inserted, and 4-80 calls which delete, purge and insert (Set, StoreItem of a new item, StoreItem of an old item) some of them in a drawn order; " +
			"in a third of the cases calls of every kind: also updates, lookups of present and missing keys, removals of missing keys, and traversals. " +
			"The calls are repeated; memory reachable after collections is compared after some and after many repetitions. Non-trivial: more than 200 insertions of deleted keys, or calls, are measured.",
		Gen: func(r *R, i int, th bool) *Case {
			c := &Case{Prop: "C25", Kind: "churn", Chk: "ret olds len fin:all fin:rng", Cfg: cfgOf(r, all...)}
			if r.P(10) {
				c.Cfg = Cfg{Store: "rmap", Max: 16}
			}
			if r.P(33) {
				if c.Cfg.Store == "pool" && r.P(40) {
					c.Cfg.Goro = true
				}
				c.Chk += " calls"
				c.Keys = anyKeys(r, c.Cfg, []int{1, 3, 10, 40, 100}[r.Intn(5)])
				c.Ops = manyCalls(r, c, r.Range(3, 60))
				return c
			}
			c.Keys = anyKeys(r, c.Cfg, []int{1, 3, 10, 40, 150, 400}[r.Intn(6)])
			n := r.Range(1, len(c.Keys))
			if n > 12 {
				n = 12
			}
			ins := pick(r, "set", "set", "sto", "stor")
			if r.P(30) {
				ins = pick(r, "set")
			} else if r.P(20) {
				ins = pick(r, "sto")
			}
			for j := r.Range(2, 40); j > 0; j-- {
				k := r.Intn(n)
				c.Ops = append(c.Ops, Op{O: dels[r.Intn(2)], K: k})
				if r.P(30) {
					k = r.Intn(n)
				}
				c.Ops = append(c.Ops, Op{O: ins(), K: k, V: r.Intn(1000)})
			}
			return c
		}})
	add(&Prop{ID: "C27", Quick: 1200, Thorough: 40000,
		Rule: "a case is a configuration (1 of 8: an RMap) and 1-200 calls of every kind on 1-400 keys. 29 maps are made, used by these calls and dropped one after another; memory and goroutines are compared after the 5th and after the last. " +
			"Non-trivial: one map holds more than 4 KB.",
		Gen: func(r *R, i int, th bool) *Case {
			c := &Case{Prop: "C27", Kind: "release", Chk: "ret olds fin:all", Cfg: cfgOf(r, all...)}
			if r.P(12) {
				c.Cfg = Cfg{Store: "rmap", Max: 16}
			}
			if c.Cfg.Store == "pool" && r.P(40) {
				c.Cfg.Goro = true
			}
			c.VT = []int{0, 0, 1}[r.Intn(3)]
			c.Keys = anyKeys(r, c.Cfg, []int{1, 3, 10, 40, 150, 400}[r.Intn(6)])
			for _, k := range r.Perm(len(c.Keys))[:r.Range(0, len(c.Keys))] {
				c.Ops = append(c.Ops, Op{O: "set", K: k, V: r.Intn(1000)})
			}
			c.Ops = append(c.Ops, manyCalls(r, c, r.Range(1, 200))...)
			return c
		}})
	add(&Prop{ID: "C29", Quick: 16, Thorough: 500,
		Rule: "a case is a configuration (MaxPefBucket 16-48) and a number N of 2000-10000 string keys with evenly spread hashes. For every kind of call the mean number of blocks of statements which the map executes (counted by coverage counters, not by time) is measured on the map with N keys and on the same map with 16 N keys. Non-trivial: at least 100 keys (always).",
		Gen: func(r *R, i int, th bool) *Case {
			c := &Case{Prop: "C29", Kind: "cost", Cfg: cfgOf(r, all...), Seed: r.U64(), N: r.Range(2000, 10000)}
			c.Cfg.Max = r.Range(16, 48)
			c.Cfg.Def = false
			return c
		}})
	add(&Prop{ID: "C28", Quick: 800, Thorough: 40000,
		Rule: "a case is a configuration (1 of 8: an RMap), 50-6000 string keys, a size of values of 1-4000 bytes, and 3-12 rounds, each of which inserts or updates, deletes, purges, or reads a drawn part of the keys in a drawn order; after each round memory is compared with the limit for the live keys. " +
			"1 of 4: an embedded map or an RMap into which 16000-40000 new keys are inserted while old keys are purged, so that 1-100 (RMap: 1-300) are live. Non-trivial: at least 100 keys and three rounds, or more than 3000 new keys.",
		Gen: func(r *R, i int, th bool) *Case {
			if r.P(25) {
				c := &Case{Prop: "C28", Kind: "slide", Cfg: cfgOf(r, "emb"), Chk: pick(r, "", "-", "-with-a-longer-key")(), Seed: r.U64(), N: r.Range(16000, 40000)}
				if c.Cfg.Max < 6 {
					c.Cfg.Max = r.Range(6, 16)
				}
				window := []int{1, 3, 10, 40, 100}[r.Intn(5)]
				if r.P(20) {
					c.Cfg, window = Cfg{Store: "rmap", Max: 16}, r.Range(1, 300)
				}
				c.Ops = []Op{{O: pick(r, "slide", "slide-quiet")(), K: r.Intn(3), A: window, V: r.Range(1, window)}}
				return c
			}
			c := &Case{Prop: "C28", Kind: "size", Cfg: cfgOf(r, all...), Seed: r.U64(), N: []int{3, 40, 400, 4000}[r.Intn(4)]}
			if r.P(12) {
				c.Cfg = Cfg{Store: "rmap", Max: 16}
			}
			n := []int{50, 150, 500, 1500, 6000}[r.W(2, 3, 3, 2, 1)]
			if n*c.N > 4<<20 {
				n = 4 << 20 / c.N
			}
			c.Keys = shuffled(r, strKeys(r, n, 0))
			c.Ops = []Op{{O: "set", A: r.Range(50, 100)}}
			for j := r.Range(2, 11); j > 0; j-- {
				c.Ops = append(c.Ops, Op{O: pick(r, "set", "set", "del", "pur", "get")(), A: []int{100, 90, 50, 10}[r.Intn(4)]})
			}
			return c
		}})
	big := func(id string, stores []string, chk string, reads ...string) {
		for _, p := range ps {
			if p.ID != id {
				continue
			}
			gen, n := p.Gen, p.Quick/48|1
			p.Gen = func(r *R, i int, th bool) *Case {
				if i%n == n/2 {
					return genBig(r, stores, chk, th, reads)
				}
				return gen(r, i, th)
			}
			p.Rule += " One case of " + fmt.Sprint(n) + " has 5000 to 200000 keys (thorough: up to 500000), which are inserted, deleted and read in parts of the hash order; it is non-trivial if more than 5000 keys are live at the end."
			nt := p.NonTriv
			p.NonTriv = func(c *Case, st *Stats) bool {
				if c.Kind == "big" {
					return st.NonTrivial
				}
				return nt(c, st)
			}
		}
	}
	for _, id := range []string{"C06", "C07"} {
		for _, p := range ps {
			if p.ID != id {
				continue
			}
			gen := p.Gen
			p.Gen = func(r *R, i int, th bool) *Case {
				if i%600 == 300 {
					return genChain(r, "ret fin:all fin:rng", th, []string{"all", "rng", "walk"})
				}
				return gen(r, i, th)
			}
			p.Rule += " One case of 600 has 2000 to 8000 items (thorough: up to 20000) of which at least three quarters have the same first hash; it is non-trivial if more than 1000 are live at the end."
			nt := p.NonTriv
			p.NonTriv = func(c *Case, st *Stats) bool {
				if c.Kind == "big" {
					return st.NonTrivial
				}
				return nt(c, st)
			}
		}
	}
	big("C01", all[:2], "ret fin:all fin:len", "all", "rng")
	big("C02", all[2:], "ret fin:all fin:len", "all", "rng")
	big("C03", all, "fin:rng fin:rngi", "rng", "rngi", "rngs")
	big("C04", all, "len fin:len fin:rng", "len")
	big("C05", all, "ret fin:all fin:rng", "all", "rng", "walk")
	big("C12", all, "fin:dump", "walk", "dump")
	return ps
}

func segLimit(c Cfg) int {
	if c.Store == "emb" {
		return 2*c.Max + 6
	}
	return 5*c.Max + 16
}

func propByID(id string) *Prop {
	for _, p := range props() {
		if p.ID == id {
			return p
		}
	}
	return nil
}

// caseOf makes case i of a property.
func caseOf(p *Prop, seed uint64, i int, thorough bool) *Case {
	r := newR(hashStr(p.ID), seed, uint64(i))
	race := r.Intn(100) < p.Race
	c := p.Gen(r, i, thorough)
	if (len(c.Thr) > 0 || c.Kind == "inter") && r.P(8) {
		c.Cfg.Stats = true // counters of the package are on, for all maps and goroutines
	}
	if len(c.Thr) > 0 && (r.P(6) || race && r.P(10)) {
		c.Cold = true
		if c.Kind == "inserts" {
			c.N = 0 // nothing is stored before the goroutines start
		}
	}
	c.Prop = p.ID
	c.Race = race
	return c
}

func describe(c *Case) string {
	var b strings.Builder
	fmt.Fprintf(&b, "kind=%s", c.Kind)
	if c.Cfg.Store != "" {
		fmt.Fprintf(&b, " cfg=%+v", c.Cfg)
	}
	for _, x := range c.Cfgs {
		fmt.Fprintf(&b, " cfg=%+v", x)
	}
	fmt.Fprintf(&b, " keys=%d", len(c.Keys))
	for i := 0; i < len(c.Keys) && i < 4; i++ {
		if c.Keys[i].X {
			fmt.Fprintf(&b, " (hash %#x, %#x)", c.Keys[i].H, c.Keys[i].C)
		} else {
			fmt.Fprintf(&b, " %.24q", c.Keys[i].S)
		}
	}
	show := func(ops []Op) {
		fmt.Fprintf(&b, " calls=%d:", len(ops))
		for i := 0; i < len(ops) && i < 12; i++ {
			fmt.Fprintf(&b, " %s#%d", ops[i].O, ops[i].K)
		}
	}
	if len(c.Ops) > 0 {
		show(c.Ops)
	}
	for i, t := range c.Thr {
		fmt.Fprintf(&b, " goroutine %d", i)
		show(t)
	}
	if c.N > 0 {
		fmt.Fprintf(&b, " n=%d", c.N)
	}
	if c.Seed != 0 {
		fmt.Fprintf(&b, " seed=%#x", c.Seed)
	}
	return b.String()
}
