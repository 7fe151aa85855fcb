package main

import (
	"runtime"
	"strconv"
	"strings"
	"time"

	sk "github.com/kazu/skiplistmap"
	"github.com/kazu/skiplistmap/rmap"
)

// heap is the number of bytes which are reachable.
func heap() int64 {
	var ms runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&ms)
	return int64(ms.HeapAlloc)
}

// subject is a map, or an RMap, with its model.
type subject struct {
	step  func(i int, o *Op) error
	live  func(k int) bool
	final func() error
	keep  interface{}
}

func (c *Case) subject(st *Stats) *subject {
	if c.Cfg.Store == "rmap" {
		m := rmap.New()
		model := map[int]interface{}{}
		get := func(k int, how string) error {
			v, ok := interface{}(nil), false
			if how == "geth" {
				v, ok = m.Get2(sk.KeyToHash(string(c.Keys[k].S)))
			} else {
				v, ok = m.Get(string(c.Keys[k].S))
			}
			w, live := model[k]
			if ok != live || ok && !sameVal(v, w) {
				return failf("%s(key#%d %.40q) = %s, %v, want %s, %v", how, k, c.Keys[k].S, show(v), ok, show(w), live)
			}
			return nil
		}
		return &subject{
			keep: m,
			live: func(k int) bool { _, ok := model[k]; return ok },
			step: func(i int, o *Op) (err error) {
				defer func() {
					if r := recover(); r != nil {
						err = failf("op %d %s: panic: %v", i, o.O, r)
					}
				}()
				key := string(c.Keys[o.K].S)
				switch o.O {
				case "set", "sto", "stor":
					v := mkVal(c.VT, o.V)
					m.Set(key, v)
					model[o.K] = v
				case "del", "pur":
					if _, live := model[o.K]; m.Delete(key) != live {
						return failf("op %d: Delete(key#%d %.40q) = %v", i, o.K, key, !live)
					}
					delete(model, o.K)
				case "mis", "misd":
					if _, ok := m.Get("absent-"); ok || o.O == "misd" && m.Delete("absent-") {
						return failf("op %d: a key which was never inserted is found", i)
					}
				case "get", "geth":
					return get(o.K, o.O)
				}
				return nil
			},
			final: func() error {
				for k := range c.Keys {
					if err := get(k, "Get"); err != nil {
						return err
					}
				}
				if l := m.Len(); l != len(model) {
					return failf("Len() = %d, but %d keys are live", l, len(model))
				}
				return nil
			},
		}
	}
	x := newRun(c, c.Cfg, c.Cfg.newMap(), st)
	return &subject{step: x.guard, final: x.final, keep: x,
		live: func(k int) bool { _, ok := x.model[k]; return ok }}
}

// runChurn repeats the same calls: the memory of the map must not grow with the number of repetitions. Results are
// compared with the model, too. Without "calls" in Chk keys are deleted and inserted again, and these insertions count.
func runChurn(c *Case, st *Stats) (err error) {
	c.Cfg.globals()
	defer Cfg{}.globals()
	x := c.subject(st)
	calls := strings.Contains(c.Chk, "calls")
	for k := range c.Keys {
		if err := x.step(-1, &Op{O: "set", K: k, V: k}); err != nil {
			return err
		}
	}
	work, rounds := 0, 0
	round := func() error {
		rounds++
		for i := range c.Ops {
			o := c.Ops[i]
			live := x.live(o.K)
			if calls && o.O != "misd" { // its number chooses the call
				o.V = (o.V + rounds) % 100000
			}
			if err := x.step(i, &o); err != nil {
				return err
			}
			if calls || !live && x.live(o.K) {
				work++
			}
		}
		return nil
	}
	some, many := 1500, 6000
	if calls {
		some, many = 4000, 20000
	}
	for i := 0; i < 20 || i < 3000 && work > 0 && work < some; i++ {
		if err := round(); err != nil {
			return err
		}
	}
	before, gos := heap(), runtime.NumGoroutine()
	work = 0
	for i := 0; i < 20 || i < 6000 && work > 0 && work < many; i++ {
		if err := round(); err != nil {
			return err
		}
	}
	after := heap()
	if n := runtime.NumGoroutine(); n > gos+20 { // pools which are no longer used end their goroutines some time after
		return failf("%d goroutines were started by the last %d rounds of calls and have not ended", n-gos, rounds-20)
	}
	limit, what := int64(32<<10+8*work), "insertions of deleted keys"
	if calls {
		limit, what = int64(48<<10+work), "calls"
	}
	st.add("bytes allowed", int(limit))
	st.max("max growth", int(after-before))
	st.add(what, work)
	st.NonTrivial = work > 200
	if after-before > limit {
		return failf("after %d %s, with the same keys present as before, the map holds %d bytes more (limit %d)", work, what, after-before, limit)
	}
	if err := x.final(); err != nil {
		return err
	}
	runtime.KeepAlive(x)
	return nil
}

// runRelease makes the same map and uses it in the same way, again and again. Nothing refers to the maps from before:
// neither their memory nor goroutines of them may be left.
func runRelease(c *Case, st *Stats) (err error) {
	c.Cfg.globals()
	defer Cfg{}.globals()
	const warm, n = 5, 24
	var size int64
	one := func(i int) error {
		var h int64
		if i == warm-1 {
			h = heap()
		}
		x := c.subject(newStats())
		for j := range c.Ops {
			o := c.Ops[j]
			o.V = (o.V + i*7) % 100000
			if c.Ops[j].O == "misd" {
				o.V = c.Ops[j].V
			}
			if err := x.step(j, &o); err != nil {
				return err
			}
		}
		if i%8 == 0 {
			if err := x.final(); err != nil {
				return err
			}
		}
		if i == warm-1 {
			size = heap() - h
		}
		runtime.KeepAlive(x)
		return nil
	}
	// what is left by maps which were just dropped: goroutines may take a moment to end
	left := func() (h int64, g int) {
		for try := 0; try < 3; try++ {
			h = heap()
			time.Sleep(time.Millisecond)
		}
		return heap(), runtime.NumGoroutine()
	}
	for i := 0; i < warm; i++ {
		if err := one(i); err != nil {
			return err
		}
	}
	h0, g0 := left()
	for i := warm; i < warm+n; i++ {
		if err := one(i); err != nil {
			return err
		}
	}
	var h1 int64
	var g1 int
	limit := 16<<10 + size/2
	if c.Cfg.Goro {
		limit += 8 * n * 640 // the runtime keeps its records of ended goroutines
	}
	for try := 0; try < 50; try++ {
		if h1, g1 = left(); h1-h0 <= limit && g1 <= g0+n/3 {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	st.add("maps dropped", n)
	st.max("max bytes of one map", int(size))
	st.max("max bytes left by all", int(h1-h0))
	st.NonTrivial = size > 4096
	if g1 > g0+n/3 {
		return failf("after %d more maps were made, used and dropped, there are %d more goroutines", n, g1-g0)
	}
	if h1-h0 > limit {
		return failf("after %d more maps were made, used and dropped, %d bytes more are held (limit %d; one map holds %d bytes)", n, h1-h0, limit, size)
	}
	return nil
}

// block is a value whose memory counts.
func block(size, k, v int) []byte {
	b := make([]byte, size)
	b[0], b[1], b[2] = byte(k), byte(k>>8), byte(v)
	return b
}

func isBlock(x interface{}, size, k, v int) bool {
	b, ok := x.([]byte)
	return ok && len(b) == size && b[0] == byte(k) && b[1] == byte(k>>8) && b[2] == byte(v)
}

// store is the part of Map and RMap which runSize and runSlide need.
type store interface {
	Set(key string, v interface{}) bool
	Get(key string) (interface{}, bool)
	Remove(key string, purge bool) bool
	Len() int
}

type mapStore struct{ *sk.Map }

func (m mapStore) Set(key string, v interface{}) bool      { return m.Map.Set(key, v) }
func (m mapStore) Get(key string) (v interface{}, ok bool) { return m.Map.Get(key) }
func (m mapStore) Remove(key string, purge bool) bool {
	if purge {
		return m.Purge(key)
	}
	return m.Delete(key)
}

type rmapStore struct{ *rmap.RMap }

func (m rmapStore) Set(key string, v interface{}) bool      { return m.RMap.Set(key, v) }
func (m rmapStore) Get(key string) (v interface{}, ok bool) { return m.RMap.Get(key) }
func (m rmapStore) Remove(key string, purge bool) bool      { return m.RMap.Delete(key) }

func (c *Case) store() store {
	if c.Cfg.Store == "rmap" {
		return rmapStore{rmap.New()}
	}
	return mapStore{c.Cfg.newMap()}
}

// runSize: what a map holds is in proportion to its keys and to the values which are present.
func runSize(c *Case, st *Stats) error {
	c.Cfg.globals()
	defer Cfg{}.globals()
	keys := make([]string, len(c.Keys))
	for i := range keys {
		keys[i] = string(c.Keys[i].S)
	}
	vals := make([]int, len(keys))              // 0: not present
	n, size, live, ever := len(keys), c.N, 0, 0 // a deleted entry keeps its last value
	used := make([]bool, len(keys))
	base := heap()
	m := c.store()
	most := c.Cfg.Max
	if most == 0 {
		most = 1
	}
	own := int64(256<<10 + n*(500+5000/most))
	check := func(when string) error {
		for k := range keys {
			v, ok := m.Get(keys[k])
			if ok != (vals[k] > 0) || ok && !isBlock(v, size, k, vals[k]) {
				return failf("%s: Get(key#%d %.40q) = %.40s, %v, but live = %v", when, k, keys[k], show(v), ok, vals[k] > 0)
			}
		}
		if m.Len() != live {
			return failf("%s: Len() = %d, but %d keys are live", when, m.Len(), live)
		}
		h := heap() - base
		limit := own + int64(ever)*int64(size)*9/8
		st.max("max bytes in % of limit", int(100*h/limit))
		if h > limit {
			return failf("%s: a map in which %d keys were stored, with values of %d bytes, holds %d bytes (limit %d)", when, ever, size, h, limit)
		}
		return nil
	}
	round := 0
	for i := range c.Ops {
		o := &c.Ops[i]
		r := newR(c.Seed, uint64(i))
		round++
		p := o.A // part of the keys, in %
		for _, k := range r.Perm(n) {
			if !r.P(p) {
				continue
			}
			switch o.O {
			case "set":
				if vals[k] == 0 {
					live++
				}
				if !used[k] {
					used[k] = true
					ever++
				}
				vals[k] = round%200 + 1
				m.Set(keys[k], block(size, k, vals[k]))
			case "del", "pur":
				if ok := m.Remove(keys[k], o.O == "pur"); ok != (vals[k] > 0) {
					return failf("round %d: %s(key#%d %.40q) = %v", i, o.O, k, keys[k], ok)
				}
				if vals[k] > 0 {
					live--
				}
				vals[k] = 0
			case "get":
				m.Get(keys[k])
			}
		}
		st.inc("rounds of calls")
		if err := check("after round " + strconv.Itoa(i) + " (" + o.O + ")"); err != nil {
			return err
		}
	}
	st.NonTrivial = n >= 100 && round > 2
	runtime.KeepAlive(m)
	runtime.KeepAlive(keys)
	return nil
}

// runSlide: new keys are inserted and old ones are purged, all the time. The number of live keys does not grow.
func runSlide(c *Case, st *Stats) error {
	c.Cfg.globals()
	defer Cfg{}.globals()
	if len(c.Ops) == 0 {
		return nil
	}
	r := newR(c.Seed)
	m := c.store()
	type kv struct{ k, v int }
	var live []kv
	name := func(k int) string { return "s" + strconv.Itoa(k) + c.Chk }
	next := 0
	window, batch := c.Ops[0].A, c.Ops[0].V
	order := c.Ops[0].K
	quiet := c.Ops[0].O == "slide-quiet" // no reads between the calls
	run := func(until int) error {
		for next < until {
			for b := 0; b < batch; b++ {
				v := next*3 + 1
				if !m.Set(name(next), v) {
					return failf("Set(%q) returns false", name(next))
				}
				live = append(live, kv{next, v})
				next++
				if r.P(10) {
					j := r.Intn(len(live))
					live[j].v++
					m.Set(name(live[j].k), live[j].v)
				}
			}
			for len(live) > window {
				j := 0
				switch order {
				case 1:
					j = len(live) - 1
				case 2:
					j = r.Intn(len(live))
				}
				if !m.Remove(name(live[j].k), true) {
					return failf("Purge(%q) of a live key returns false", name(live[j].k))
				}
				if quiet {
				} else if v, ok := m.Get(name(live[j].k)); ok {
					return failf("after Purge(%q) the key is found with %s", name(live[j].k), show(v))
				}
				live = append(live[:j], live[j+1:]...)
			}
		}
		for _, l := range live {
			if v, ok := m.Get(name(l.k)); !ok || v != l.v {
				return failf("after %d insertions: Get(%q) = %s, %v, want %d", next, name(l.k), show(v), ok, l.v)
			}
		}
		if m.Len() != len(live) {
			return failf("after %d insertions: Len() = %d, but %d keys are live", next, m.Len(), len(live))
		}
		return nil
	}
	base := heap()
	if err := run(c.N / 4); err != nil {
		return err
	}
	before := heap()
	if err := run(c.N); err != nil {
		return err
	}
	after := heap()
	limit := 96<<10 + (before-base)*2 // the number of buckets grows with the logarithm
	if c.Cfg.Store == "rmap" {
		limit = 96<<10 + int64(window)*400
	}
	st.max("max growth in % of limit, "+c.Cfg.Store, int(100*(after-before)/limit))
	st.add("new keys inserted and purged", c.N)
	st.NonTrivial = c.N > 3000
	if after-before > limit {
		return failf("after %d more new keys were inserted and purged, with %d live keys as before, the map holds %d bytes more (limit %d)", c.N-c.N/4, len(live), after-before, limit)
	}
	runtime.KeepAlive(m)
	return nil
}
