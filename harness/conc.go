package main

import (
	"bytes"
	"fmt"
	"math/bits"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	sk "github.com/kazu/skiplistmap"
	"github.com/kazu/skiplistmap/rmap"
)

// gate lets all goroutines start together.
type gate struct {
	n  int32
	ch chan struct{}
}

func newGate(n int) *gate { return &gate{n: int32(n), ch: make(chan struct{})} }
func (g *gate) wait() {
	if atomic.AddInt32(&g.n, -1) == 0 {
		close(g.ch)
	}
	<-g.ch
	runtime.Gosched()
}

// errs collects the first violation of several goroutines.
type errs struct {
	mu  sync.Mutex
	err error
	bad int32
}

func (e *errs) set(err error) {
	if err == nil {
		return
	}
	e.mu.Lock()
	if e.err == nil {
		e.err = err
	}
	e.mu.Unlock()
	atomic.StoreInt32(&e.bad, 1)
}

func (e *errs) catch(what string) {
	if r := recover(); r != nil {
		e.set(failf("%s: panic: %v\n%s", what, r, trimStack(debug.Stack())))
	}
}

func spin(n int) {
	for i := 0; i < n; i++ {
		if i%16 == 15 {
			runtime.Gosched()
		}
	}
}

// target is what the histories of several goroutines are run on: a Map, or an RMap.
type target interface {
	set(k *Key, v int)
	store(k *Key, v int)
	get(k *Key, how int) (interface{}, bool)
	del(k *Key, purge bool) bool
	len() int
}

type mapT struct {
	m     *sk.Map
	items bool   // LoadItem() can be used: items do not move
	kind  string // type of the items; "": SampleItem
	mix   bool   // values of several types, some stored to V of the item by the caller
}

// enc, dec: a number as a value of one of several types.
func enc(v int, mix bool) interface{} {
	if mix {
		switch uint(v) % 4 {
		case 1:
			return fmt.Sprint("n", v)
		case 2:
			return &vBox{n: v}
		case 3:
			return vStruct{A: v, B: "n"}
		}
	}
	return v
}

func dec(v interface{}) (n int, ok bool) {
	switch w := v.(type) {
	case int:
		return w, true
	case string:
		_, err := fmt.Sscanf(w, "n%d", &n)
		return n, err == nil
	case *vBox:
		if w == nil {
			return 0, false
		}
		return w.n, true
	case vStruct:
		return w.A, w.B == "n"
	}
	return 0, false
}

func (t mapT) set(k *Key, v int) {
	if t.items && v%9 == 4 && t.setItem(k, v) {
		return
	}
	if k.X || t.kind != "" {
		t.store(k, v)
		return
	}
	t.m.Set(string(k.S), enc(v, t.mix))
}

// setItem updates the value through the item which is found.
func (t mapT) setItem(k *Key, v int) bool {
	h, c := k.hash()
	it, ok := t.m.LoadItemByHash(h, c)
	return ok && it.SetValue(enc(v, t.mix))
}
func (t mapT) store(k *Key, v int) {
	t.m.StoreItem(newItem(k, t.kind, enc(v, t.mix), t.mix && v%3 == 0))
}
func (t mapT) get(k *Key, how int) (interface{}, bool) {
	h, c := k.hash()
	var it sk.MapItem
	var ok bool
	switch how % 6 {
	case 1:
		return t.m.GetByHash(h, c)
	case 2, 4:
		if !t.items {
			return t.m.GetByHash(h, c)
		}
		if how%6 == 2 && k.api() {
			it, ok = t.m.LoadItem(k.arg(how))
		} else {
			it, ok = t.m.LoadItemByHash(h, c)
		}
		if !ok {
			return nil, false
		}
		return it.Value(), true
	}
	if !k.api() {
		return t.m.GetByHash(h, c)
	}
	return t.m.Get(k.arg(how))
}

// present looks for a key and does not touch what is found: the items of pools move.
func (t mapT) present(k *Key, how int) bool {
	h, c := k.hash()
	ok := false
	switch {
	case how%3 == 0:
		return t.m.SearchKey(h) != nil
	case how%3 == 1 && k.api():
		_, ok = t.m.LoadItem(k.arg(how))
	default:
		_, ok = t.m.LoadItemByHash(h, c)
	}
	return ok
}
func (t mapT) del(k *Key, purge bool) bool {
	if purge {
		return t.m.Purge(k.own())
	}
	return t.m.Delete(k.own())
}
func (t mapT) len() int { return t.m.Len() }

type rmapT struct {
	m   *rmap.RMap
	mix bool
}

func (t rmapT) set(k *Key, v int) { t.m.Set(string(k.S), enc(v, t.mix)) }
func (t rmapT) store(k *Key, v int) {
	h, c := sk.KeyToHash(string(k.S))
	t.m.Set2(h, c, string(k.S), enc(v, t.mix))
}
func (t rmapT) get(k *Key, how int) (interface{}, bool) {
	if how%2 == 1 {
		return t.m.Get2(sk.KeyToHash(string(k.S)))
	}
	return t.m.Get(string(k.S))
}
func (t rmapT) del(k *Key, purge bool) bool { return t.m.Delete(string(k.S)) }
func (t rmapT) len() int                    { return t.m.Len() }

func (c *Case) target() target {
	if c.Cfg.Store == "rmap" {
		return rmapT{rmap.New(), strings.Contains(c.Chk, "mixed")}
	}
	return mapT{c.Cfg.newMap(), c.Cfg.stay(), c.Cfg.Item, strings.Contains(c.Chk, "mixed")}
}

// preload stores a key before the goroutines start.
func (c *Case) preload(t target, i, v int) {
	if strings.Contains(c.Chk, "mixed") && i%2 == 0 {
		t.store(&c.Keys[i], v)
		return
	}
	t.set(&c.Keys[i], v)
}

// stay: items do not move, and can be read without lock.
func (c Cfg) stay() bool {
	return c.Store == "plain" && c.Bucket%len(bucketModes) != 5 && c.Item != "entry"
}

// setting changes a setting which does not touch what is stored. undo: and changes it back.
func (t mapT) setting(o *Op) {
	opt := sk.MaxPefBucket(o.V)
	if o.O == "up" {
		opt = sk.UsePool(o.V%2 == 0)
	} else if o.O == "mode" {
		opt = sk.BucketMode(bucketModes[o.V%len(bucketModes)])
	}
	undo := t.m.Options(opt)
	if o.A%3 == 0 {
		t.m.Options(undo...)
	}
}

// ---- linearizability of the operations on one key

type event struct {
	kind     byte // s, g, d
	v        int
	ok       bool
	call, rt int64
	thr      int
}

func (e event) String() string {
	switch e.kind {
	case 's':
		return fmt.Sprintf("[%d..%d] thread %d Set(%d)", e.call, e.rt, e.thr, e.v)
	case 'g':
		return fmt.Sprintf("[%d..%d] thread %d Get() = %d, %v", e.call, e.rt, e.thr, e.v, e.ok)
	}
	return fmt.Sprintf("[%d..%d] thread %d Delete() = %v", e.call, e.rt, e.thr, e.ok)
}

// linearizable: Wing & Gong's search with memoization. state: -1 absent, else the value.
// The second result is false if the search was given up.
func linearizable(evs []event, init int) (bool, bool) {
	n := len(evs)
	if n == 0 {
		return true, true
	}
	sort.Slice(evs, func(i, j int) bool { return evs[i].call < evs[j].call })
	words := (n + 63) / 64
	done := make([]uint64, words)
	seen := map[string]bool{}
	steps := 0
	key := func(st int) string {
		b := make([]byte, 0, words*8+8)
		for _, w := range done {
			for s := 0; s < 64; s += 8 {
				b = append(b, byte(w>>s))
			}
		}
		return string(append(b, byte(st), byte(st>>8), byte(st>>16), byte(st>>24)))
	}
	var rec func(first, left, st int) (bool, bool)
	rec = func(first, left, st int) (bool, bool) {
		if left == 0 {
			return true, true
		}
		if steps++; steps > 400000 {
			return false, false
		}
		k := key(st)
		if seen[k] {
			return false, true
		}
		for first < n && done[first/64]>>(first%64)&1 == 1 {
			first++
		}
		// an op can be next if it was called before every op not done yet has returned
		minRt := int64(1) << 62
		for i := first; i < n; i++ {
			if done[i/64]>>(i%64)&1 == 1 {
				continue
			}
			if evs[i].call > minRt {
				break
			}
			if evs[i].rt < minRt {
				minRt = evs[i].rt
			}
		}
		for i := first; i < n; i++ {
			if done[i/64]>>(i%64)&1 == 1 {
				continue
			}
			e := &evs[i]
			if e.call > minRt {
				break
			}
			ns := st
			switch e.kind {
			case 's':
				ns = e.v
			case 'g':
				if e.ok != (st >= 0) || (e.ok && e.v != st) {
					continue
				}
			default:
				if e.ok != (st >= 0) {
					continue
				}
				ns = -1
			}
			done[i/64] |= 1 << (i % 64)
			ok, sure := rec(first, left-1, ns)
			done[i/64] &^= 1 << (i % 64)
			if ok || !sure {
				return ok, sure
			}
		}
		seen[k] = true
		return false, true
	}
	return rec(0, n, init)
}

// runLin: several goroutines run Thr on one map; the history of every key must be linearizable.
// Keys with an index >= N are preloaded. Under the race detector the history is not recorded with a
// shared clock, so that nothing but the map orders the goroutines.
func runLin(c *Case, st *Stats) error {
	c.Cfg.globals()
	defer Cfg{}.globals()
	t := c.target()
	init := make([]int, len(c.Keys))
	for i := range c.Keys {
		init[i] = -1
		if i >= c.N {
			c.preload(t, i, 1000000000+i)
			init[i] = 1000000000 + i
		}
	}
	var e errs
	hist := make([][]event, len(c.Thr))
	keys := make([][]int, len(c.Thr))
	var wg sync.WaitGroup
	g := newGate(len(c.Thr))
	start := time.Now()
	var clock int64
	now := func() int64 {
		if raceEnabled {
			return int64(time.Since(start))
		}
		return atomic.AddInt64(&clock, 1)
	}
	for ti := range c.Thr {
		ti := ti
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer e.catch(fmt.Sprint("goroutine ", ti))
			evs := make([]event, 0, len(c.Thr[ti]))
			ks := make([]int, 0, len(c.Thr[ti]))
			defer func() { hist[ti], keys[ti] = evs, ks }()
			g.wait()
			for i := range c.Thr[ti] {
				o := &c.Thr[ti][i]
				spin(o.A)
				k := &c.Keys[o.K]
				ev := event{thr: ti}
				switch o.O {
				case "set", "sto":
					ev.kind, ev.v = 's', ti*1000000+i
					ev.call = now()
					if o.O == "set" {
						t.set(k, ev.v)
					} else {
						t.store(k, ev.v)
					}
				case "get":
					ev.kind = 'g'
					ev.call = now()
					v, ok := t.get(k, o.V)
					ev.ok = ok
					if ok {
						n, isInt := dec(v)
						if !isInt {
							e.set(failf("goroutine %d op %d: Get(key#%d) = %s, but only numbers are stored", ti, i, o.K, show(v)))
							return
						}
						ev.v = n
					}
				case "del", "pur":
					ev.kind = 'd'
					ev.call = now()
					ev.ok = t.del(k, o.O == "pur")
				case "len":
					t.len()
					continue
				case "mode", "max", "up":
					t.(mapT).setting(o)
					continue
				}
				ev.rt = now()
				evs = append(evs, ev)
				ks = append(ks, o.K)
			}
		}()
	}
	wg.Wait()
	if e.err != nil {
		return e.err
	}
	// the content at the end is one more Get per key
	per := make([][]event, len(c.Keys))
	for ti := range hist {
		for i, ev := range hist[ti] {
			per[keys[ti][i]] = append(per[keys[ti][i]], ev)
		}
	}
	end := now() + 1
	live := 0
	for k := range c.Keys {
		v, ok := t.get(&c.Keys[k], 0)
		ev := event{kind: 'g', ok: ok, call: end, rt: end + 1, thr: -1}
		if ok {
			live++
			n, isInt := dec(v)
			if !isInt {
				return failf("at the end Get(key#%d) = %s, but only numbers are stored", k, show(v))
			}
			ev.v = n
		}
		per[k] = append(per[k], ev)
	}
	if strings.Contains(c.Chk, "len") {
		if l := t.len(); l != live {
			return failf("after all goroutines have finished: Len() = %d, but %d keys are found", l, live)
		}
	}
	if mt, ok := t.(mapT); ok {
		n := 0
		mt.m.Range(func(key, value interface{}) bool { n++; return true })
		if n != live {
			return failf("after all goroutines have finished: Range visits %d keys, but %d keys are found", n, live)
		}
	}
	conc := 0
	if raceEnabled {
		per = nil // the race detector is the oracle; the time stamps do not order calls of different goroutines
	}
	for k := range per {
		evs := append([]event(nil), per[k]...)
		for i := range evs {
			for j := 0; j < i; j++ {
				if evs[i].thr != evs[j].thr && evs[i].call < evs[j].rt && evs[j].call < evs[i].rt {
					conc++
				}
			}
		}
		ok, sure := linearizable(evs, init[k])
		if !sure {
			st.inc("linearizability searches given up")
			continue
		}
		st.inc("key histories checked")
		if !ok {
			sort.Slice(evs, func(i, j int) bool { return evs[i].call < evs[j].call })
			if len(evs) > 60 {
				evs = evs[len(evs)-60:]
			}
			var b strings.Builder
			for _, ev := range evs {
				fmt.Fprintln(&b, "   ", ev)
			}
			return failf("the history of key#%d %q (initial value %d) has no sequential explanation:\n%s", k, c.Keys[k].S, init[k], b.String())
		}
	}
	st.add("overlapping operation pairs", conc)
	st.NonTrivial = conc > 0 || raceEnabled
	return nil
}

// runReaders: keys below N are stable. Thr[0..] write to the other keys; readers must always find every
// stable key. Stable keys are updated by one goroutine with growing numbers, so a reader may never see a
// number smaller than one it has seen before.
func runReaders(c *Case, st *Stats) error {
	c.Cfg.globals()
	defer Cfg{}.globals()
	t := c.target()
	for i := 0; i < c.N; i++ {
		c.preload(t, i, 0)
	}
	for i := c.N; i < len(c.Keys); i++ {
		if c.Seed>>(uint(i)%60)&1 == 1 && !strings.Contains(c.Chk, "grow") {
			c.preload(t, i, -1)
		}
	}
	var e errs
	var wg sync.WaitGroup
	nr := c.Cfg.readers()
	g := newGate(len(c.Thr) + nr)
	var writers = int32(len(c.Thr))
	var during, reads, ranges int64
	iter := strings.Contains(c.Chk, "iter")
	revs := map[string]uint64{}
	for i := range c.Keys {
		h, _ := c.Keys[i].hash()
		revs[string(c.Keys[i].S)] = bits.Reverse64(h)
	}
	for ti := range c.Thr {
		ti := ti
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer atomic.AddInt32(&writers, -1)
			defer e.catch(fmt.Sprint("writer ", ti))
			g.wait()
			for i := range c.Thr[ti] {
				o := &c.Thr[ti][i]
				k := &c.Keys[o.K]
				switch o.O {
				case "set":
					t.set(k, o.V)
				case "sto":
					t.store(k, o.V)
				case "del":
					t.del(k, false)
				case "pur":
					t.del(k, true)
				case "mode", "max", "up":
					t.(mapT).setting(o)
				}
				spin(o.A)
			}
		}()
	}
	for ri := 0; ri < nr; ri++ {
		ri := ri
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer e.catch(fmt.Sprint("reader ", ri))
			last := make([]int, c.N)
			r := newR(c.Seed, uint64(ri))
			g.wait()
			n, inWrites, rg := 0, 0, 0
			for {
				w := atomic.LoadInt32(&writers) > 0
				if iter && ri%2 == 0 {
					if err := iterOnce(c, t.(mapT).m, revs, (ri/2+rg)%4); err != nil {
						e.set(failf("reader %d: %v", ri, err))
						return
					}
					rg++
				} else {
					for j := 0; j < 32; j++ {
						k := r.Intn(c.N)
						if mt, isMap := t.(mapT); isMap && r.P(15) {
							if how := r.Intn(3); !mt.present(&c.Keys[k], how) {
								e.set(failf("reader %d does not find the stable key#%d %.40q, which is never deleted, by %s", ri, k, c.Keys[k].S, []string{"SearchKey", "LoadItem", "LoadItemByHash"}[how]))
								return
							}
							continue
						}
						v, ok := t.get(&c.Keys[k], r.Intn(6))
						if !ok {
							e.set(failf("reader %d does not find the stable key#%d %.40q, which is never deleted (read %d)", ri, k, c.Keys[k].S, n))
							return
						}
						num, isInt := dec(v)
						if !isInt || num < last[k] {
							e.set(failf("reader %d: the stable key#%d %.40q = %s after %d", ri, k, c.Keys[k].S, show(v), last[k]))
							return
						}
						last[k] = num
						n++
					}
				}
				if w {
					inWrites++
				}
				if !w || atomic.LoadInt32(&e.bad) != 0 {
					break
				}
			}
			atomic.AddInt64(&reads, int64(n))
			atomic.AddInt64(&ranges, int64(rg))
			atomic.AddInt64(&during, int64(inWrites))
		}()
	}
	wg.Wait()
	st.add("reads of stable keys", int(reads))
	st.add("concurrent traversals", int(ranges))
	st.NonTrivial = during > 0
	return e.err
}

func (c Cfg) readers() int { return 3 }

// iterOnce: one traversal while writers change the map.
func iterOnce(c *Case, m *sk.Map, revs map[string]uint64, how int) (err error) {
	switch how {
	case 2:
		return dumpOnce(c, m, revs)
	case 3:
		return dumpBucketsOnce(m)
	}
	seen := map[string]bool{}
	var last uint64
	n := 0
	one := func(key interface{}, value interface{}, haveVal bool) bool {
		n++
		s, ok := key.(string)
		if !ok {
			err = fmt.Errorf("a traversal visits the key %v, which was never inserted", key)
			return false
		}
		if seen[s] {
			err = fmt.Errorf("a traversal visits the key %q twice", s)
			return false
		}
		seen[s] = true
		if r := revs[s]; n > 1 && r < last {
			err = fmt.Errorf("a traversal visits the key %q (reversed hash %#x) after reversed hash %#x", s, r, last)
			return false
		} else {
			last = r
		}
		if haveVal {
			if _, ok := dec(value); !ok {
				err = fmt.Errorf("a traversal visits the key %q with the value %s, but only numbers are stored", s, show(value))
				return false
			}
		}
		if n%23 == 0 && c.N > 0 {
			// the function may use the map
			m.Len()
			h, cf := c.Keys[n%c.N].hash()
			if _, ok := m.GetByHash(h, cf); !ok {
				err = fmt.Errorf("during a traversal the stable key#%d %.40q, which is never deleted, is not found", n%c.N, c.Keys[n%c.N].S)
				return false
			}
		}
		return true
	}
	if how == 1 {
		if c.Cfg.stay() {
			m.RangeItem(func(it sk.MapItem) bool { return one(it.Key(), it.Value(), true) })
		} else {
			// the items of pools move: only the number of visits counts
			cnt := 0
			m.RangeItem(func(it sk.MapItem) bool { cnt++; return true })
			if cnt < c.N {
				return fmt.Errorf("a traversal of the items visits %d items, but %d keys are never deleted", cnt, c.N)
			}
			return nil
		}
	} else {
		m.Range(func(k, v interface{}) bool { return one(k, v, true) })
	}
	if err != nil {
		return err
	}
	for i := 0; i < c.N; i++ {
		if !seen[string(c.Keys[i].S)] {
			return fmt.Errorf("a traversal does not visit the stable key#%d %.40q, which is never deleted (%d visited)", i, c.Keys[i].S, n)
		}
	}
	for s := range seen {
		if _, known := revs[s]; !known {
			return fmt.Errorf("a traversal visits the key %q, which was never inserted", s)
		}
	}
	return nil
}

// dumpOnce: the text of DumpEntry while writers run shows every stable key, in order.
func dumpOnce(c *Case, m *sk.Map, revs map[string]uint64) error {
	var b bytes.Buffer
	m.DumpEntry(&b)
	rs := reverses(b.String())
	seen := make(map[uint64]int, len(rs))
	for i, r := range rs {
		if i > 0 && r < rs[i-1] {
			return fmt.Errorf("DumpEntry shows the reversed hash %#x after %#x", r, rs[i-1])
		}
		seen[r]++
	}
	for i := 0; i < c.N; i++ {
		r := revs[string(c.Keys[i].S)]
		if seen[r] == 0 {
			return fmt.Errorf("DumpEntry does not show the stable key#%d %.40q, which is never deleted (%d entries shown)", i, c.Keys[i].S, len(rs))
		}
	}
	return nil
}

// dumpBucketsOnce: buckets are shown in order, and are only added.
func dumpBucketsOnce(m *sk.Map) error {
	m.First()
	m.Last()
	var b, l, after bytes.Buffer
	m.DumpBucket(&b)
	m.DumpBucketPerLevel(&l)
	m.DumpBucket(&after)
	bs := reverses(b.String())
	if len(bs) < 16 {
		return fmt.Errorf("DumpBucket shows %d buckets only", len(bs))
	}
	for i := range bs {
		if i > 0 && bs[i] >= bs[i-1] {
			return fmt.Errorf("DumpBucket: bucket %d has the boundary %#x after %#x", i, bs[i], bs[i-1])
		}
	}
	for which, text := range []string{l.String(), after.String()} {
		shown := map[uint64]bool{}
		for _, r := range reverses(text) {
			shown[r] = true
		}
		for _, r := range bs {
			if !shown[r] {
				return fmt.Errorf("%s does not show the bucket with boundary %#x, which DumpBucket has shown before", []string{"DumpBucketPerLevel", "DumpBucket"}[which], r)
			}
		}
	}
	return nil
}

// runInserts: goroutines insert keys; some keys are inserted by more than one. Afterwards every key is
// there once, with a value somebody has stored, and the list is in order.
func runInserts(c *Case, st *Stats) error {
	c.Cfg.globals()
	defer Cfg{}.globals()
	t := c.target()
	for i := 0; i < c.N; i++ {
		c.preload(t, i, -1)
	}
	var e errs
	var wg sync.WaitGroup
	g := newGate(len(c.Thr))
	for ti := range c.Thr {
		ti := ti
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer e.catch(fmt.Sprint("goroutine ", ti))
			g.wait()
			for i := range c.Thr[ti] {
				o := &c.Thr[ti][i]
				k := &c.Keys[o.K]
				switch o.O {
				case "mode", "max", "up":
					t.(mapT).setting(o)
					continue
				case "sto":
					t.store(k, ti)
				default:
					t.set(k, ti)
				}
				spin(o.A)
				if o.V%4 == 0 {
					if _, ok := t.get(k, o.V); !ok {
						e.set(failf("goroutine %d does not find key#%d %.40q, which it has just inserted and nobody deletes", ti, o.K, k.S))
						return
					}
				}
			}
		}()
	}
	wg.Wait()
	if e.err != nil {
		return e.err
	}
	by := map[int]map[int]bool{}
	for i := 0; i < c.N; i++ {
		by[i] = map[int]bool{-1: true}
	}
	shared := 0
	for ti := range c.Thr {
		for _, o := range c.Thr[ti] {
			if o.O == "mode" || o.O == "max" || o.O == "up" {
				continue
			}
			if by[o.K] == nil {
				by[o.K] = map[int]bool{}
			}
			by[o.K][ti] = true
		}
	}
	for k := range c.Keys {
		v, ok := t.get(&c.Keys[k], 0)
		if ok != (by[k] != nil) {
			if ok {
				return failf("key#%d is found, but nobody has inserted it", k)
			}
			return failf("key#%d %.40q is lost: %d goroutines have inserted it, nobody deletes", k, c.Keys[k].S, len(by[k]))
		}
		if !ok {
			continue
		}
		if len(by[k]) > 1 {
			shared++
		}
		if n, isInt := dec(v); !isInt || !by[k][n] {
			return failf("key#%d %.40q = %s, but only %v were stored", k, c.Keys[k].S, show(v), by[k])
		}
		if n, _ := dec(v); len(by[k]) > 1 && by[k][-1] && n == -1 {
			return failf("key#%d %.40q has its old value, all updates are lost", k, c.Keys[k].S)
		}
	}
	if l := t.len(); l != len(by) {
		return failf("Len() = %d after %d different keys were inserted", l, len(by))
	}
	st.add("keys inserted concurrently", len(by)-c.N)
	st.add("keys of several goroutines", shared)
	st.NonTrivial = len(by) > c.N && len(c.Thr) > 1
	if mt, ok := t.(mapT); ok {
		// structure: the model of the sequential checks
		x := newRun(c, c.Cfg, mt.m, st)
		for k := range by {
			v, _ := t.get(&c.Keys[k], 0)
			n, _ := dec(v)
			x.set(k, n, v)
		}
		if err := x.walk(); err != nil {
			return failf("after all goroutines have finished: %v", err)
		}
		if err := x.rangeKV(-1); err != nil {
			return failf("after all goroutines have finished: %v", err)
		}
	}
	return nil
}

// runMulti: every goroutine has its own map (or RMap) and its own model; they share nothing.
func runMulti(c *Case, st *Stats) error {
	Cfg{Stats: c.Cfg.Stats, Goro: c.Cfgs[0].Goro}.globals()
	defer Cfg{}.globals()
	var e errs
	var wg sync.WaitGroup
	g := newGate(len(c.Thr))
	stats := make([]*Stats, len(c.Thr))
	for ti := range c.Thr {
		ti := ti
		wg.Add(1)
		stats[ti] = newStats()
		go func() {
			defer wg.Done()
			defer e.catch(fmt.Sprint("goroutine ", ti))
			g.wait()
			cc := &Case{Keys: c.Keys, Ops: c.Thr[ti], Cfg: c.Cfgs[ti], Chk: c.Chk, VT: c.VT}
			if cc.Cfg.Store == "rmap" {
				e.set(wrap(ti, runRMap(cc, stats[ti])))
				return
			}
			x := newRun(cc, cc.Cfg, cc.Cfg.newMap(), stats[ti])
			err := x.ops(cc.Ops)
			if err == nil {
				err = x.final()
			}
			e.set(wrap(ti, err))
		}()
	}
	wg.Wait()
	for _, s := range stats {
		for k, v := range s.Cnt {
			if strings.HasPrefix(k, "max") {
				st.max(k, v)
			} else {
				st.add(k, v)
			}
		}
	}
	st.NonTrivial = len(c.Thr) > 1
	return e.err
}

func wrap(ti int, err error) error {
	if err == nil {
		return nil
	}
	return failf("map of goroutine %d: %v", ti, err)
}

// runInterleaved: several maps, one goroutine: operations on one map never change another.
func runInterleaved(c *Case, st *Stats) error {
	Cfg{Stats: c.Cfg.Stats, Goro: c.Cfgs[0].Goro}.globals()
	defer Cfg{}.globals()
	xs := make([]*run, len(c.Cfgs))
	for i, cfg := range c.Cfgs {
		cc := *c
		cc.Cfg = cfg
		xs[i] = newRun(&cc, cfg, cfg.newMap(), st)
	}
	for i := range c.Ops {
		o := &c.Ops[i]
		if err := xs[o.A%len(xs)].guard(i, o); err != nil {
			return failf("map %d of %d: %v", o.A%len(xs), len(xs), err)
		}
	}
	for i := range xs {
		if err := xs[i].final(); err != nil {
			return failf("map %d of %d: %v", i, len(xs), err)
		}
	}
	st.NonTrivial = len(xs) > 1
	return nil
}
