package main

import (
	"bytes"
	"fmt"
	"math/bits"
	"runtime"
	"sort"
	"strings"
	"sync"
	"unsafe"

	sk "github.com/kazu/skiplistmap"
	"github.com/kazu/skiplistmap/atomic_util"
	"github.com/kazu/skiplistmap/rmap"
)

// runRMap: one goroutine, RMap against a Go map.
func runRMap(c *Case, st *Stats) (err error) {
	m := rmap.New()
	model := map[int]interface{}{}
	defer func() {
		if r := recover(); r != nil {
			err = failf("panic: %v", r)
		}
	}()
	get := func(k int, o string) error {
		key := string(c.Keys[k].S)
		var v interface{}
		var ok bool
		if o == "geth" {
			v, ok = m.Get2(sk.KeyToHash(key))
		} else {
			v, ok = m.Get(key)
		}
		w, live := model[k]
		if ok != live {
			return fmt.Errorf("%s(key#%d %.40q) found = %v, but live = %v", o, k, key, ok, live)
		}
		if ok {
			st.inc("hits")
			if !sameVal(v, w) {
				return fmt.Errorf("%s(key#%d %.40q) = %s, want %s", o, k, key, show(v), show(w))
			}
		} else {
			st.inc("misses")
		}
		return nil
	}
	var step func(o *Op) error
	step = func(o *Op) error {
		key := string(c.Keys[o.K].S)
		switch o.O {
		case "cyc":
			for i := 0; i < o.A; i++ {
				for _, q := range []Op{{O: "set", K: o.K, V: o.V + i}, {O: "get", K: o.K}, {O: "del", K: o.K}, {O: "get", K: o.K}} {
					if q.O == "get" && (o.V+i)%3 > 0 {
						continue
					}
					if err := step(&q); err != nil {
						return fmt.Errorf("cycle %d: %s: %v", i, q.O, err)
					}
					if l := m.Len(); l != len(model) {
						return fmt.Errorf("cycle %d: after %s: Len() = %d, but %d keys are live", i, q.O, l, len(model))
					}
				}
			}
			st.max("longest cycles of one key", o.A)
		case "set", "sto":
			v := mkVal(c.VT, o.V)
			ok := false
			if o.O == "set" {
				ok = m.Set(key, v)
			} else {
				h, cf := sk.KeyToHash(key)
				ok = m.Set2(h, cf, key, v)
			}
			if !ok {
				return fmt.Errorf("Set returns false")
			}
			if _, live := model[o.K]; live {
				st.inc("updates")
			} else {
				st.inc("inserts")
			}
			model[o.K] = v
		case "get", "geth":
			return get(o.K, o.O)
		case "del":
			ok := m.Delete(key)
			_, live := model[o.K]
			if ok != live {
				return fmt.Errorf("Delete(key#%d %.40q) = %v, but live = %v", o.K, key, ok, live)
			}
			if live {
				st.inc("deletes of live keys")
			}
			delete(model, o.K)
		case "mis":
			if v, ok := m.Get(fmt.Sprintf("absent-%d\x00", o.A)); ok {
				return fmt.Errorf("Get of a key which was never inserted = %s", show(v))
			}
			st.inc("misses")
		case "misd":
			if m.Delete(fmt.Sprintf("absent-%d\x00", o.A)) {
				return fmt.Errorf("Delete of a key which was never inserted = true")
			}
		case "mish":
			h, cf := sk.KeyToHash(key)
			if v, ok := m.Get2(h, cf+uint64(o.A)+1); ok {
				return fmt.Errorf("Get2 with a second hash of no key = %s", show(v))
			}
			st.inc("wrong-conflict lookups")
		case "len":
		case "all":
			for i := range c.Keys {
				if err := get(i, "get"); err != nil {
					return err
				}
			}
		default:
			return fmt.Errorf("harness: unknown op %q", o.O)
		}
		return nil
	}
	for i := range c.Ops {
		if err := step(&c.Ops[i]); err != nil {
			return failf("op %d %s k=%d: %v", i, c.Ops[i].O, c.Ops[i].K, err)
		}
		if l := m.Len(); l != len(model) {
			return failf("after op %d %s k=%d: Len() = %d, but %d keys are live", i, c.Ops[i].O, c.Ops[i].K, l, len(model))
		}
	}
	for i := range c.Keys {
		if err := get(i, "get"); err != nil {
			return failf("final: %v", err)
		}
	}
	st.NonTrivial = st.Cnt["deletes of live keys"] > 0 && st.Cnt["updates"] > 0 && st.Cnt["hits"] > 0
	return nil
}

// ---- PoolCap

func runPoolCap(c *Case, st *Stats) error {
	lo, n := int(c.Seed), c.N
	prev := -1
	for i := lo; i < lo+n; i++ {
		p := sk.PoolCap(i)
		if p <= i {
			return failf("PoolCap(%d) = %d: no room for one more item", i, p)
		}
		if p < prev {
			return failf("PoolCap(%d) = %d < PoolCap(%d) = %d", i, p, i-1, prev)
		}
		slack := p - i
		if i < 256 && slack > i+2 || i >= 256 && slack > 64 {
			return failf("PoolCap(%d) = %d: %d items too many", i, p, slack)
		}
		if q := sk.PoolCap(i); q != p {
			return failf("PoolCap(%d) = %d, then %d", i, p, q)
		}
		prev = p
	}
	st.add("lengths", n)
	st.NonTrivial = n > 0
	return nil
}

// ---- KeyToHash

func runHash(c *Case, st *Stats) error {
	r := newR(c.Seed)
	pairs := map[[2]uint64]string{}
	var same []byte
	for i := range c.Keys {
		s := string(c.Keys[i].S)
		h, cf := sk.KeyToHash(s)
		if len(s) > 0 {
			// the same content at other addresses and alignments, in a larger buffer
			off := r.Intn(17)
			buf := make([]byte, off+len(s)+r.Intn(9))
			for j := range buf {
				buf[j] = byte(r.U64())
			}
			copy(buf[off:], s)
			b := buf[off : off+len(s)]
			if h2, c2 := sk.KeyToHash(b); h2 != h || c2 != cf {
				return failf("KeyToHash([]byte(%.40q)) = %#x, %#x, but KeyToHash(string) = %#x, %#x", s, h2, c2, h, cf)
			}
			if h2, c2 := sk.KeyToHash(string(b)); h2 != h || c2 != cf {
				return failf("KeyToHash(%.40q) depends on where the string is: %#x, %#x and %#x, %#x", s, h2, c2, h, cf)
			}
			if same != nil && len(same) != len(s) {
				same = nil
			}
			if same == nil {
				same = make([]byte, len(s))
			}
			copy(same, s) // in the place of another key of the same length
			if h2, c2 := sk.KeyToHash(same); h2 != h || c2 != cf {
				return failf("KeyToHash([]byte(%.40q)) = %#x, %#x for a changed buffer, but KeyToHash(string) = %#x, %#x", s, h2, c2, h, cf)
			}
			same[r.Intn(len(same))] ^= 1 << r.Intn(8)
			h1, c1 := sk.KeyToHash(same)
			if h2, c2 := sk.KeyToHash(string(same)); h2 != h1 || c2 != c1 {
				return failf("KeyToHash([]byte(%.40q)) = %#x, %#x for a changed buffer, but KeyToHash(string) = %#x, %#x", same, h1, c1, h2, c2)
			}
			if h1 == h && c1 == cf {
				return failf("the keys %.40q and %.40q, which differ in one bit, have the same pair of hashes", s, same)
			}
			if h2 := sk.MemHash(b); h2 != h {
				return failf("MemHash(%.40q) = %#x, but KeyToHash = %#x", s, h2, h)
			}
		} else if h2, c2 := sk.KeyToHash([]byte{}); h2 != h || c2 != cf {
			return failf("KeyToHash of the empty []byte = %#x, %#x, but of the empty string %#x, %#x", h2, c2, h, cf)
		}
		if h2 := sk.MemHashString(s); h2 != h {
			return failf("MemHashString(%.40q) = %#x, but KeyToHash = %#x", s, h2, h)
		}
		it := sk.NewSampleItem(s, 1)
		if h2, c2 := it.KeyHash(); h2 != h || c2 != cf {
			return failf("SampleItem{%.40q}.KeyHash() = %#x, %#x, but KeyToHash = %#x, %#x", s, h2, c2, h, cf)
		}
		it.Setup()
		if it.KeyInHmap() != h || it.ConflictInHamp() != cf {
			return failf("after SampleItem{%.40q}.Setup() the item has the hashes %#x, %#x, but KeyToHash = %#x, %#x", s, it.KeyInHmap(), it.ConflictInHamp(), h, cf)
		}
		e := sk.NewEntryMap(s, 1)
		if h2, c2 := e.KeyHash(); h2 != h || c2 != cf {
			return failf("NewEntryMap(%.40q).KeyHash() = %#x, %#x, but KeyToHash = %#x, %#x", s, h2, c2, h, cf)
		}
		p := [2]uint64{h, cf}
		if o, ok := pairs[p]; ok && o != s {
			return failf("the keys %.40q and %.40q have the same pair of hashes", o, s)
		}
		pairs[p] = s
		st.inc("string keys")
	}
	if r.P(8) {
		if err := hashLong(r, st); err != nil {
			return err
		}
	}
	for i := 0; i < c.N; i++ {
		u := r.U64() >> r.Intn(64)
		ks := []struct {
			k interface{}
			w uint64
		}{{u, u}, {int(u), u}, {int64(u), u}, {uint32(u), uint64(uint32(u))}, {byte(u), uint64(byte(u))}, {int32(u), uint64(int32(u))}}
		for _, k := range ks {
			if h, cf := sk.KeyToHash(k.k); h != k.w || cf != 0 {
				return failf("KeyToHash(%T(%v)) = %#x, %#x, want %#x, 0", k.k, k.k, h, cf, k.w)
			}
		}
		st.inc("number keys")
	}
	if h, cf := sk.KeyToHash(nil); h != 0 || cf != 0 {
		return failf("KeyToHash(nil) = %#x, %#x, want 0, 0", h, cf)
	}
	st.NonTrivial = len(c.Keys) > 0
	return nil
}

// hashLong: every byte and the length of a long key count.
func hashLong(r *R, st *Stats) error {
	l := 1 << r.Range(6, 20)
	switch r.Intn(4) {
	case 0:
		l += r.Intn(3) - 1
	case 1:
		l += r.Intn(l)
	}
	b := make([]byte, l)
	fill := byte(r.Intn(3))
	for j := range b {
		b[j] = byte(r.U64()) * fill
	}
	s := string(b)
	h, cf := sk.KeyToHash(s)
	if h2, c2 := sk.KeyToHash(b); h2 != h || c2 != cf {
		return failf("KeyToHash of a []byte of %d bytes = %#x, %#x, but KeyToHash(string) = %#x, %#x", l, h2, c2, h, cf)
	}
	for j := 0; j < 24; j++ {
		at := r.Intn(l)
		switch j {
		case 0:
			at = 0
		case 1:
			at = l - 1
		case 2:
			at = l / 2
		}
		t := append([]byte(nil), b...)
		what := fmt.Sprintf("whose byte %d is changed", at)
		switch {
		case j%6 == 4:
			t, what = append(t, make([]byte, r.Range(1, 9))...), "to which zeros are appended"
		case j%6 == 5:
			t, what = t[:r.Intn(l)], "which is cut"
		default:
			t[at] ^= 1 << r.Intn(8)
		}
		if h2, c2 := sk.KeyToHash(string(t)); h2 == h && c2 == cf {
			return failf("a key of %d bytes and the key %s have the same pair of hashes", l, what)
		}
		if h2, c2 := sk.KeyToHash(t); h2 == h && c2 == cf {
			return failf("a []byte key of %d bytes and the key %s have the same pair of hashes", l, what)
		}
	}
	st.inc("long keys")
	return nil
}

// ---- atomic_util

type guarded struct {
	a uint64
	n int
	b uint64
}

func runAtomic(c *Case, st *Stats) error {
	r := newR(c.Seed)
	val := func() int {
		switch r.Intn(5) {
		case 0:
			return int([]uint64{0, 1, ^uint64(0), 1 << 31, 1<<31 - 1, 1 << 32, 1<<63 - 1, 1 << 63}[r.Intn(8)])
		case 1:
			return r.Intn(4)
		}
		return int(r.U64())
	}
	x := &guarded{a: 0x5555555555555555, b: 0xAAAAAAAAAAAAAAAA}
	model := 0
	for i := 0; i < c.N; i++ {
		switch r.Intn(3) {
		case 0:
			v := val()
			atomic_util.StoreInt(&x.n, v)
			model = v
		case 1:
			old, v := val(), val()
			if r.P(50) {
				old = model
			}
			ok := atomic_util.CompareAndSwapInt(&x.n, old, v)
			if ok != (old == model) {
				return failf("CompareAndSwapInt(old=%d, new=%d) = %v with the value %d", old, v, ok, model)
			}
			if ok {
				model = v
			}
		}
		if got := atomic_util.LoadInt(&x.n); got != model || x.n != model {
			return failf("LoadInt() = %d (variable %d), want %d", got, x.n, model)
		}
		if x.a != 0x5555555555555555 || x.b != 0xAAAAAAAAAAAAAAAA {
			return failf("memory beside the variable is changed: %#x %#x", x.a, x.b)
		}
	}
	// counters: no increment is lost, and nobody sees the counter go back
	const T = 6
	var e errs
	var wg sync.WaitGroup
	g := newGate(T + 1)
	cnt := guarded{}
	per := 200 + r.Intn(400)
	stop := 0
	for t := 0; t < T; t++ {
		t := t
		wg.Add(1)
		go func() {
			defer wg.Done()
			g.wait()
			for i := 0; i < per; i++ {
				for {
					v := atomic_util.LoadInt(&cnt.n)
					if atomic_util.CompareAndSwapInt(&cnt.n, v, v+1) {
						break
					}
				}
			}
			if t == 0 {
				atomic_util.StoreInt(&stop, 1)
			}
		}()
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		g.wait()
		last := 0
		for atomic_util.LoadInt(&stop) == 0 {
			v := atomic_util.LoadInt(&cnt.n)
			if v < last {
				e.set(failf("a counter which only grows is %d after %d", v, last))
				return
			}
			last = v
		}
	}()
	wg.Wait()
	if e.err != nil {
		return e.err
	}
	if got := atomic_util.LoadInt(&cnt.n); got != T*per {
		return failf("%d goroutines increment %d times: %d", T, per, got)
	}
	// publication: what was written before StoreInt is seen after LoadInt
	var data, ready int
	wg.Add(2)
	go func() {
		defer wg.Done()
		data = 42
		atomic_util.StoreInt(&ready, 1)
	}()
	var got int
	go func() {
		defer wg.Done()
		for atomic_util.LoadInt(&ready) == 0 {
			spin(16)
		}
		got = data
	}()
	wg.Wait()
	if got != 42 {
		return failf("data written before StoreInt is %d after LoadInt", got)
	}
	st.add("operations", c.N)
	st.NonTrivial = c.N > 0
	return nil
}

// ---- Options

func optOf(o *Op) sk.OptHMap {
	switch o.O {
	case "bm":
		return sk.BucketMode(bucketModes[o.A%len(bucketModes)])
	case "mx":
		return sk.MaxPefBucket(o.A)
	case "up":
		return sk.UsePool(o.A%2 == 1)
	case "em":
		return sk.UseEmbeddedPool(o.A%2 == 1)
	case "fn":
		if o.A%2 == 0 {
			return sk.ItemFn(func() sk.MapItem { return (*own)(nil) })
		}
		return sk.ItemFn(func() sk.MapItem { return sk.EmptySampleHMapEntry })
	}
	return nil
}

// space takes the memory which an item allocated next would have.
func space() *sk.SampleItem {
	spaced = &sk.SampleItem{}
	return spaced
}

var spaced *sk.SampleItem

// fingerprint shows the settings of a map from outside: the type of items it makes, how many keys a
// bucket takes, the way of searching (by the counters of EnableStats), and if items come from a pool.
// keys are inserted, so it can be taken once.
func fingerprint(m *sk.Map, keys []Key) (fp string, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = failf("panic: %v", r)
		}
	}()
	var b strings.Builder
	fmt.Fprintf(&b, "items: %T\n", m.First())
	var sp []*sk.SampleItem
	for i := range keys {
		sp = append(sp, space())
		m.Set(string(keys[i].S), i)
	}
	var d bytes.Buffer
	m.DumpBucket(&d)
	fmt.Fprintf(&b, "buckets: %x\n", reverses(d.String()))
	var addrs []uintptr
	for i := range keys {
		it, ok := m.LoadItem(string(keys[i].S))
		if !ok {
			return "", failf("LoadItem does not find key#%d", i)
		}
		addrs = append(addrs, uintptr(unsafe.Pointer(it.PtrListHead())))
	}
	sort.Slice(addrs, func(i, j int) bool { return addrs[i] < addrs[j] })
	near := 0
	for i := 1; i < len(addrs); i++ {
		if addrs[i]-addrs[i-1] == uintptr(sk.SampleItemSize) {
			near++
		}
	}
	runtime.KeepAlive(sp)
	if len(addrs) >= 40 { // items of their own are never so near: another one was allocated between them
		fmt.Fprintf(&b, "pooled: %v\n", near > len(addrs)/4)
	}
	sk.EnableStats = true
	sk.ResetStats()
	for i := range keys {
		if v, ok := m.Get(string(keys[i].S)); !ok || v != i {
			sk.EnableStats = false
			return "", failf("Get(key#%d) = %v, %v", i, v, ok)
		}
	}
	fmt.Fprintf(&b, "search: %v %v %v\n", sk.DebugStats[sk.CntOfGet], sk.DebugStats[sk.CntSearchEntry], sk.DebugStats[sk.CntReverseSearch])
	sk.EnableStats = false
	n := 0
	m.Range(func(k, v interface{}) bool { n++; return true })
	fmt.Fprintf(&b, "len: %d %d\n", m.Len(), n)
	return b.String(), nil
}

// runOptions: Ops are options. Applying them and then, in reverse order, what Options() has returned
// gives a map which cannot be told from a map without these calls. And options which are given
// one by one or together, in any order of different options, make the same map.
func runOptions(c *Case, st *Stats) error {
	Cfg{}.globals()
	a, b := c.Cfg.newMap(), c.Cfg.newMap()
	half := c.N
	if half > len(c.Keys) || c.Cfg.Store == "emb" {
		half = 0
	}
	var sp []*sk.SampleItem
	defer func() { runtime.KeepAlive(sp) }()
	for i := 0; i < half; i++ { // some contents before
		sp = append(sp, space())
		a.Set(string(c.Keys[i].S), -1)
		sp = append(sp, space())
		b.Set(string(c.Keys[i].S), -1)
	}
	var opts []sk.OptHMap
	for i := range c.Ops {
		opts = append(opts, optOf(&c.Ops[i]))
	}
	var undo []sk.OptHMap
	if c.VT == 0 { // one call
		undo = a.Options(opts...)
		if len(undo) != len(opts) {
			return failf("Options() with %d options returns %d", len(opts), len(undo))
		}
	} else { // one call for each
		for _, o := range opts {
			u := a.Options(o)
			if len(u) != 1 {
				return failf("Options() with one option returns %d", len(u))
			}
			undo = append(undo, u[0])
		}
	}
	var redo []sk.OptHMap
	for i := len(undo) - 1; i >= 0; i-- {
		if undo[i] == nil {
			return failf("Options() returns nil for option %d (%s)", i, c.Ops[i].O)
		}
		redo = append(redo, a.Options(undo[i])...)
	}
	if c.VT == 2 { // undo of undo, and undo again
		var undo2 []sk.OptHMap
		for i := len(redo) - 1; i >= 0; i-- {
			if redo[i] == nil {
				return failf("Options() returns nil for an option returned by Options()")
			}
			undo2 = append(undo2, a.Options(redo[i])...)
		}
		for i := len(undo2) - 1; i >= 0; i-- {
			a.Options(undo2[i])
		}
	}
	fa, err := fingerprint(a, c.Keys)
	if err != nil {
		return failf("map with undone options: %v", err)
	}
	fb, err := fingerprint(b, c.Keys)
	if err != nil {
		return failf("map without calls of Options: %v", err)
	}
	if fa != fb {
		return failf("after undoing %v the map behaves\n%s\nwithout these calls\n%s", c.Ops, fa, fb)
	}
	// different options in any order, at once or one by one
	r := newR(c.Seed)
	set := c.Cfg.opts()
	m1 := sk.New(set...)
	var perm []sk.OptHMap
	for _, i := range r.Perm(len(set)) {
		perm = append(perm, set[i])
	}
	m2 := sk.New(perm...)
	f1, err := fingerprint(m1, c.Keys)
	if err != nil {
		return failf("map: %v", err)
	}
	f2, err := fingerprint(m2, c.Keys)
	if err != nil {
		return failf("map with permuted options: %v", err)
	}
	if f1 != f2 {
		return failf("New() with the same options in another order makes another map:\n%s\nand\n%s", f1, f2)
	}
	if c.Cfg.Store != "emb" {
		m3 := sk.New()
		for _, o := range set {
			m3.Options(o)
		}
		f3, err := fingerprint(m3, c.Keys)
		if err != nil {
			return failf("map with later options: %v", err)
		}
		if f1 != f3 {
			return failf("New() and Options() with the same options make different maps:\n%s\nand\n%s", f1, f3)
		}
	}
	st.add("options undone", len(undo))
	st.NonTrivial = len(undo) > 0 && len(c.Keys) > 20
	return nil
}

// ---- configurations

// runDiff: one history on maps of several configurations: all results are those of the model, and the
// results are the same one by one, the order of the traversals included.
func runDiff(c *Case, st *Stats) error {
	var first string
	for i, cfg := range c.Cfgs {
		cfg.globals()
		cc := *c
		cc.Cfg = cfg
		x := newRun(&cc, cfg, cfg.newMap(), st)
		x.trace = &strings.Builder{}
		err := x.ops(c.Ops)
		if err == nil {
			err = x.final()
		}
		Cfg{}.globals()
		if err != nil {
			return failf("configuration %+v: %v", cfg, err)
		}
		if i == 0 {
			first = x.trace.String()
			continue
		}
		if s := x.trace.String(); s != first {
			a, b := strings.Split(first, "\n"), strings.Split(s, "\n")
			for j := range a {
				if j >= len(b) || a[j] != b[j] {
					bj := "(nothing)"
					if j < len(b) {
						bj = b[j]
					}
					return failf("result %d differs: configuration %+v %q, configuration %+v %q", j, c.Cfgs[0], a[j], cfg, bj)
				}
			}
			return failf("configuration %+v gives more results than %+v", cfg, c.Cfgs[0])
		}
	}
	st.NonTrivial = len(c.Cfgs) > 1 && st.Cnt["hits"] > 0 && st.Cnt["deletes of live keys"] > 0
	return nil
}

var _ = bits.Len
