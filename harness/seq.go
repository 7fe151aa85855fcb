package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/bits"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"

	sk "github.com/kazu/skiplistmap"
)

var bucketModes = []sk.SearchMode{sk.LenearSearchForBucket, sk.NestedSearchForBucket, sk.CombineSearch,
	sk.CombineSearch2, sk.CombineSearch3, sk.CombineSearch4}

func (c Cfg) opts() (o []sk.OptHMap) {
	if c.Def {
		return nil
	}
	o = append(o, sk.BucketMode(bucketModes[c.Bucket%len(bucketModes)]), sk.MaxPefBucket(c.Max))
	switch c.Store {
	case "pool":
		o = append(o, sk.UsePool(true))
	case "emb":
		o = append(o, sk.UseEmbeddedPool(true))
	}
	switch c.Item {
	case "own":
		o = append(o, sk.ItemFn(func() sk.MapItem { return (*own)(nil) }))
	case "far":
		o = append(o, sk.ItemFn(func() sk.MapItem { return (*far)(nil) }))
	}
	return
}

// newMap makes the map of a case. Package-level switches are set first.
func (c Cfg) newMap() *sk.Map {
	return sk.New(c.opts()...)
}

func (c Cfg) globals() {
	sk.UseGoroutineInPool = c.Goro
	sk.SetLogIO(io.Discard)
	if c.Stats {
		sk.EnableStats = true
	} else {
		sk.EnableStats = false
	}
}

type mval struct {
	n   int
	val interface{}
}

// run is one sequential execution of a case against the reference model, which is a Go map.
type run struct {
	buf     []byte
	inRange bool
	ranges  int
	c       *Case
	cfg     Cfg
	log     bytes.Buffer // what the package logs
	m       *sk.Map
	model   map[int]mval // index of key -> value
	ever    map[int]bool
	dead    map[int]bool
	idx     map[interface{}]int
	items   map[int]sk.MapItem // the item stored (only if Chk has "ident")
	olds    map[int]sk.MapItem // the last item given to StoreItem(), also if the key was deleted (only if Chk has "olds")
	st      *Stats
	trace   *strings.Builder
	strict,
	lenAlways, rangeOrder, ident, stack bool
}

func newRun(c *Case, cfg Cfg, m *sk.Map, st *Stats) *run {
	x := &run{c: c, cfg: cfg, m: m, model: map[int]mval{}, ever: map[int]bool{}, dead: map[int]bool{}, idx: map[interface{}]int{}, st: st}
	for i := range c.Keys {
		x.idx[x.key(i)] = i
	}
	x.strict = strings.Contains(c.Chk, "ret")
	x.lenAlways = strings.Contains(c.Chk, "len")
	x.rangeOrder = strings.Contains(c.Chk, "order")
	x.ident = strings.Contains(c.Chk, "ident")
	x.stack = strings.Contains(c.Chk, "stack")
	if x.ident {
		x.items = map[int]sk.MapItem{}
	}
	if strings.Contains(c.Chk, "olds") && cfg.Item != "entry" {
		x.olds = map[int]sk.MapItem{}
	}
	return x
}

// key of the item of key k.
func (x *run) key(k int) interface{} {
	if x.cfg.Item == "entry" {
		return x.c.Keys[k].own()
	}
	return string(x.c.Keys[k].S)
}

func (x *run) note(f string, a ...interface{}) {
	if x.trace != nil {
		fmt.Fprintf(x.trace, f, a...)
		x.trace.WriteByte('\n')
	}
}

func runSeq(c *Case, st *Stats) (err error) {
	c.Cfg.globals()
	defer Cfg{}.globals()
	x := newRun(c, c.Cfg, c.Cfg.newMap(), st)
	if strings.Contains(c.Chk, "always") {
		defer collectAlways(st)()
	}
	if strings.Contains(c.Chk, "crowd") {
		crowd := x.crowd(10)
		defer func() {
			if e := <-crowd; e != nil && err == nil {
				err = e
			}
		}()
	}
	if err := x.ops(c.Ops); err != nil {
		return err
	}
	return x.final()
}

// crowd makes the same calls on maps of their own in n more goroutines: goroutines wait for a processor in the middle of
// their calls, over whole collections.
func (x *run) crowd(n int) <-chan error {
	errs := make(chan error, n)
	for i := 0; i < n; i++ {
		y := newRun(x.c, x.cfg, x.cfg.newMap(), newStats())
		go func() {
			err := y.ops(x.c.Ops)
			if err == nil {
				err = y.final()
			}
			errs <- err
		}()
	}
	out := make(chan error, 1)
	go func() {
		var err error
		for i := 0; i < n; i++ {
			if e := <-errs; e != nil && err == nil {
				err = e
			}
		}
		out <- err
	}()
	x.st.add("maps used at the same time", n)
	return out
}

// collectAlways collects garbage at any time in the calls, not only between them.
func collectAlways(st *Stats) (stop func()) {
	var quit int32
	done := make(chan struct{})
	n := 0
	go func() {
		defer close(done)
		for atomic.LoadInt32(&quit) == 0 {
			runtime.GC()
			n++
		}
	}()
	return func() {
		atomic.StoreInt32(&quit, 1)
		<-done
		st.add("collections while calls run", n)
	}
}

func (x *run) ops(ops []Op) error {
	for i := range ops {
		if x.stack {
			if err := x.onNewStack(i, &ops[i]); err != nil {
				return err
			}
			continue
		}
		if err := x.guard(i, &ops[i]); err != nil {
			return err
		}
	}
	return nil
}

// onNewStack makes the call on a goroutine of its own, from a depth drawn for it: its stack is small, grows in the
// call and is then moved.
func (x *run) onNewStack(i int, o *Op) (err error) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		atDepth((o.K*7+o.V*13)%97, func() { err = x.guard(i, o) })
	}()
	<-done
	x.st.inc("calls on a small stack")
	return
}

//go:noinline
func atDepth(n int, f func()) byte {
	var pad [64]byte
	pad[n%64] = byte(n)
	if n > 0 {
		return atDepth(n-1, f) + pad[(n*3)%64]
	}
	f()
	return pad[0]
}

func (x *run) guard(i int, o *Op) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = failf("op %d %s: panic: %v\n%s", i, x.opStr(o), r, trimStack(debug.Stack()))
		}
	}()
	if err := x.op(o); err != nil {
		return failf("op %d %s: %v", i, x.opStr(o), err)
	}
	if x.lenAlways {
		if l := x.m.Len(); l != len(x.model) {
			return failf("after op %d %s: Len() = %d, but %d keys are live", i, x.opStr(o), l, len(x.model))
		}
	}
	return nil
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

func (x *run) opStr(o *Op) string {
	s := o.O
	if o.K < len(x.c.Keys) && strings.Contains("set sto stod get getb geth loa loah mish del delb pur purb setv seti", o.O) {
		k := &x.c.Keys[o.K]
		h, c := k.hash()
		s += fmt.Sprintf(" key#%d(%.40q hash=%#x reverse=%#x conflict=%#x)", o.K, k.S, h, bits.Reverse64(h), c)
	}
	return s + fmt.Sprintf(" v=%d a=%d", o.V, o.A)
}

func (x *run) set(k int, v int, val interface{}) {
	mv := mval{n: v, val: val}
	if x.c.VT == 2 {
		mv.val = nil // the map alone must keep the value alive
	}
	if _, ok := x.model[k]; ok {
		x.st.inc("updates")
	} else {
		x.st.inc("inserts")
		if x.dead[k] {
			x.st.inc("reinserts")
		}
	}
	x.model[k] = mv
	x.ever[k] = true
}

func (x *run) want(k int) (interface{}, bool) {
	mv, ok := x.model[k]
	if !ok {
		return nil, false
	}
	if mv.val == nil {
		return mkVal(x.c.VT, mv.n), true
	}
	return mv.val, true
}

func (x *run) judge(k int, what string, v interface{}, ok bool) error {
	w, wok := x.want(k)
	if x.c.VT != 1 { // values of VT 1 contain pointers: not comparable as text
		x.note("%s %d %v %s", what, k, ok, show(v))
	} else {
		x.note("%s %d %v", what, k, ok)
	}
	if ok != wok {
		if wok {
			return fmt.Errorf("%s(key#%d %.40q) does not find a live key (want %s)", what, k, x.c.Keys[k].S, show(w))
		}
		h := "never inserted"
		if x.ever[k] {
			h = "deleted"
		}
		return fmt.Errorf("%s(key#%d %.40q) finds a key which is %s (got %s)", what, k, x.c.Keys[k].S, h, show(v))
	}
	if ok {
		x.st.inc("hits")
		if !sameVal(v, w) {
			return fmt.Errorf("%s(key#%d %.40q) = %s, want %s", what, k, x.c.Keys[k].S, show(v), show(w))
		}
	} else {
		x.st.inc("misses")
	}
	return nil
}

func (x *run) lookup(k int) error {
	key := &x.c.Keys[k]
	if key.X {
		v, ok := x.m.GetByHash(key.H, key.C)
		return x.judge(k, "GetByHash", v, ok)
	}
	v, ok := x.m.Get(string(key.S))
	return x.judge(k, "Get", v, ok)
}

func (x *run) op(o *Op) error {
	var key *Key
	if len(x.c.Keys) > 0 {
		key = &x.c.Keys[o.K%len(x.c.Keys)]
	}
	k := o.K
	switch o.O {
	case "set":
		if key.X || x.cfg.Item != "" {
			return x.store(o, key, false, nil)
		}
		v := mkVal(x.c.VT, o.V)
		ok := x.m.Set(string(key.S), v)
		x.note("set %v", ok)
		if x.strict && !ok {
			return fmt.Errorf("Set returns false")
		}
		x.set(k, o.V, v)
	case "setb": // []byte key, or a number: only an update of a live key is accepted by Set()
		if _, live := x.model[k]; !live || !key.api() {
			return nil
		}
		arg := key.arg(o.V)
		if !key.X && (x.cfg.Item == "" || o.V%2 == 0) {
			arg = x.bytes(key)
		}
		v := mkVal(x.c.VT, o.V)
		ok := x.m.Set(arg, v)
		if x.strict && !ok {
			return fmt.Errorf("Set(%T) returns false", arg)
		}
		x.st.inc(fmt.Sprintf("updates by keys of type %T", arg))
		x.set(k, o.V, v)
	case "sto", "stod":
		return x.store(o, key, o.O == "stod", nil)
	case "stor": // the item object of an earlier StoreItem() for this key again
		return x.store(o, key, false, x.olds[k])
	case "cyc": // one key is removed and stored again many times
		d, w := "del", []string{"set", "sto", "stor", "set"}[o.V&3]
		if o.V&4 != 0 {
			d = "pur"
		}
		count := strings.Contains(x.c.Chk, "len")
		for i := 0; i < o.A; i++ {
			if err := x.op(&Op{O: w, K: k, V: o.V + 3*i}); err != nil {
				return fmt.Errorf("cycle %d: %s: %v", i, w, err)
			}
			if err := x.lookup(k); err != nil {
				return fmt.Errorf("cycle %d: after %s: %v", i, w, err)
			}
			if o.V&8 != 0 && i == o.A-1 {
				break
			}
			if err := x.op(&Op{O: d, K: k}); err != nil {
				return fmt.Errorf("cycle %d: %s: %v", i, d, err)
			}
			if l := x.m.Len(); count && l != len(x.model) {
				return fmt.Errorf("cycle %d: Len() = %d, but %d keys are live", i, l, len(x.model))
			}
		}
		x.st.max("longest cycles of one key", o.A)
	case "get":
		return x.lookup(k)
	case "getb":
		if key.X {
			if key.C != 0 {
				return x.lookup(k)
			}
			arg := key.arg(o.V)
			v, ok := x.m.Get(arg)
			return x.judge(k, fmt.Sprintf("Get(%T)", arg), v, ok)
		}
		v, ok := x.m.Get(x.bytes(key))
		return x.judge(k, "Get([]byte)", v, ok)
	case "geth":
		h, c := key.hash()
		v, ok := x.m.GetByHash(h, c)
		return x.judge(k, "GetByHash", v, ok)
	case "loa":
		if key.X && key.C == 0 && o.V%2 == 0 {
			arg := key.arg(o.V / 2)
			it, ok := x.m.LoadItem(arg)
			return x.judgeItem(k, fmt.Sprintf("LoadItem(%T)", arg), it, ok)
		}
		if key.X {
			h, c := key.hash()
			it, ok := x.m.LoadItemByHash(h, c)
			return x.judgeItem(k, "LoadItemByHash", it, ok)
		}
		it, ok := x.m.LoadItem(string(key.S))
		return x.judgeItem(k, "LoadItem", it, ok)
	case "loah":
		h, c := key.hash()
		it, ok := x.m.LoadItemByHash(h, c)
		return x.judgeItem(k, "LoadItemByHash", it, ok)
	case "srch":
		h, _ := key.hash()
		return x.search(h)
	case "mish": // right hash, wrong second hash
		h, c := key.hash()
		if o.A%3 == 1 {
			c ^= 1 << (uint(o.A) / 3 % 64)
		} else {
			c += uint64(o.A)*0x9E3779B97F4A7C15 + 1
		}
		for i := range x.c.Keys {
			if h2, c2 := x.c.Keys[i].hash(); h2 == h && c2 == c {
				return nil
			}
		}
		if v, ok := x.m.GetByHash(h, c); ok {
			return fmt.Errorf("GetByHash(%#x, %#x) = %s, but no key has this pair of hashes", h, c, show(v))
		}
		if it, ok := x.m.LoadItemByHash(h, c); ok {
			return fmt.Errorf("LoadItemByHash(%#x, %#x) = %v, but no key has this pair of hashes", h, c, it.Key())
		}
		x.st.inc("wrong-conflict lookups")
	case "mis":
		s := fmt.Sprintf("absent-%d\x00", o.A)
		if v, ok := x.m.Get(s); ok {
			return fmt.Errorf("Get(%q) = %s, but the key was never inserted", s, show(v))
		}
		if _, ok := x.m.LoadItem(s); ok {
			return fmt.Errorf("LoadItem(%q) finds an item, but the key was never inserted", s)
		}
		x.st.inc("misses")
	case "mish2": // near hashes which were never inserted
		h, _ := key.hash()
		r := bits.Reverse64(h)
		if nh := h ^ 1<<(uint(o.A)%64); !x.hasHash(nh) { // one bit of the first hash is another one
			_, c := key.hash()
			if v, ok := x.m.GetByHash(nh, c); ok {
				return fmt.Errorf("GetByHash(%#x, %#x) = %s, but no key has this hash", nh, c, show(v))
			}
			if it, ok := x.m.LoadItemByHash(nh, c); ok {
				return fmt.Errorf("LoadItemByHash(%#x, %#x) = %v, but no key has this hash", nh, c, it.Key())
			}
		}
		for _, d := range []uint64{1, ^uint64(0), 1 << 60, 1 << 32} {
			nh := bits.Reverse64(r + d)
			if x.hasHash(nh) {
				continue
			}
			if v, ok := x.m.GetByHash(nh, 0); ok {
				return fmt.Errorf("GetByHash(%#x, 0) = %s, but no key has this hash", nh, show(v))
			}
		}
	case "del", "delb", "pur", "purb":
		return x.del(o, key)
	case "misd":
		s := fmt.Sprintf("absent-%d\x00", o.A)
		if o.V%2 == 0 {
			if x.m.Delete(s) && x.strict {
				return fmt.Errorf("Delete(%q) = true, but the key was never inserted", s)
			}
		} else if x.m.Purge(s) && x.strict {
			return fmt.Errorf("Purge(%q) = true, but the key was never inserted", s)
		}
	case "len":
		l := x.m.Len()
		x.note("len %d", l)
		if l != len(x.model) {
			return fmt.Errorf("Len() = %d, but %d keys are live", l, len(x.model))
		}
	case "all":
		for i := range x.c.Keys {
			if err := x.lookup(i); err != nil {
				return err
			}
		}
	case "rng":
		return x.rangeKV(-1)
	case "rngs":
		return x.rangeKV(o.A)
	case "rngi":
		return x.rangeItems(-1)
	case "rngis":
		return x.rangeItems(o.A)
	case "rngm":
		return x.rangeMutate(o)
	case "badk":
		return x.badKey(o)
	case "rngx":
		return x.rangeAborted(o)
	case "walk":
		return x.walk()
	case "dump":
		return x.dump()
	case "seg":
		return x.segments(o.A)
	case "steps":
		if x.st.Cnt["inserts"] < x.c.N {
			return nil
		}
		return x.steps(o.A, o.V)
	case "bm":
		x.m.Options(sk.BucketMode(bucketModes[o.A%len(bucketModes)]))
		x.st.inc("reconfigurations")
	case "mx":
		x.m.Options(sk.MaxPefBucket(o.A))
		x.st.inc("reconfigurations")
	case "up":
		if x.cfg.Store != "emb" {
			x.m.Options(sk.UsePool(o.A%2 == 1))
			x.st.inc("reconfigurations")
		}
	case "sw": // switches of the package
		switch o.A % 8 {
		case 0, 1:
			sk.EnableStats = o.A%2 == 1
		case 2, 3:
			sk.UseGoroutineInPool = o.A%2 == 1
		case 4:
			sk.SetLogIO(io.Discard)
		case 5:
			sk.SetLogIO(&x.log)
			x.log.Reset()
		case 6:
			sk.ResetStats()
		default:
			sk.EnableStats = o.A%2 == 1
		}
		x.st.inc("reconfigurations")
	case "keep": // entries of the list, also of buckets and ends, are kept over a collection
		var es []sk.HMapEntry
		for e := x.m.First(); e != nil && len(es) < 5000; e = e.Next() {
			es = append(es, e)
			if e.PtrListHead().Empty() {
				break
			}
		}
		es = append(es, x.m.Last())
		runtime.GC()
		x.st.inc("collections")
		x.st.add("entries kept over a collection", len(es))
		runtime.KeepAlive(es)
	case "gc":
		if o.A > 0 {
			ballast(o.A)
		}
		runtime.GC()
		x.st.inc("collections")
	case "setv": // change the value through the item
		if _, live := x.model[k]; !live {
			return nil
		}
		h, c := key.hash()
		it, ok := x.m.LoadItemByHash(h, c)
		if !ok {
			return fmt.Errorf("LoadItemByHash does not find a live key")
		}
		v := mkVal(x.c.VT, o.V)
		if !it.SetValue(v) {
			return fmt.Errorf("SetValue of a stored item returns false")
		}
		x.set(k, o.V, v)
		return x.lookup(k)
	case "seti": // change the value through the item which was given to StoreItem()
		it := x.items[k]
		if _, live := x.model[k]; !live || it == nil {
			return nil
		}
		v := mkVal(x.c.VT, o.V)
		if !it.SetValue(v) {
			return fmt.Errorf("SetValue of a stored item returns false")
		}
		x.set(k, o.V, v)
		x.st.inc("values set through a stored item")
		return x.lookup(k)
	default:
		return fmt.Errorf("harness: unknown op %q", o.O)
	}
	return nil
}

func (x *run) hasHash(h uint64) bool {
	for i := range x.c.Keys {
		if h2, _ := x.c.Keys[i].hash(); h2 == h {
			return true
		}
	}
	return false
}

func (x *run) store(o *Op, key *Key, direct bool, it sk.MapItem) error {
	v := mkVal(x.c.VT, o.V)
	if direct && x.ever[o.K] {
		direct = false
	}
	if it != nil {
		it.SetValue(v)
		x.st.inc("items stored again")
	} else {
		it = newItem(key, x.cfg.Item, v, direct)
	}
	if x.olds != nil {
		x.olds[o.K] = it
	}
	_, live := x.model[o.K]
	ok := x.m.StoreItem(it)
	x.note("sto %v", ok)
	if x.strict && !ok {
		return fmt.Errorf("StoreItem returns false")
	}
	if x.ident && !live {
		x.items[o.K] = it
	}
	x.set(o.K, o.V, v)
	return nil
}

func (x *run) del(o *Op, key *Key) error {
	var arg interface{} = string(key.S)
	switch {
	case key.X && key.C != 0:
		return nil // no key of the API has this pair of hashes
	case key.X:
		arg = key.arg(o.V)
	case o.O == "delb" || o.O == "purb":
		arg = x.bytes(key)
	}
	var ok bool
	if o.O[0] == 'd' {
		ok = x.m.Delete(arg)
	} else {
		ok = x.m.Purge(arg)
	}
	x.note("%s %v", o.O, ok)
	_, live := x.model[o.K]
	if x.strict && ok != live {
		return fmt.Errorf("returns %v, but live = %v", ok, live)
	}
	if live {
		x.st.inc("deletes of live keys")
		x.dead[o.K] = true
	}
	delete(x.model, o.K)
	if x.items != nil {
		delete(x.items, o.K)
	}
	return nil
}

func (x *run) judgeItem(k int, what string, it sk.MapItem, ok bool) error {
	var v interface{}
	if ok {
		if it == nil {
			return fmt.Errorf("%s returns a nil item and true", what)
		}
		v = it.Value()
	}
	if err := x.judge(k, what, v, ok); err != nil {
		return err
	}
	if !ok {
		return nil
	}
	key := &x.c.Keys[k]
	if g, w := it.Key(), x.key(k); g != w {
		return fmt.Errorf("%s(key#%d): the item has the key %T(%v), want %T(%v)", what, k, g, g, w, w)
	}
	h, c := key.hash()
	if mh := it.PtrMapHead(); mh.KeyInHmap() != h || mh.ConflictInHamp() != c {
		return fmt.Errorf("%s(key#%d): the item has the hashes %#x, %#x, want %#x, %#x", what, k, mh.KeyInHmap(), mh.ConflictInHamp(), h, c)
	}
	if x.ident {
		if p := x.items[k]; p != nil && x.cfg.Store != "emb" {
			if err := sameItem(it, p); err != nil {
				return fmt.Errorf("%s(key#%d): %v", what, k, err)
			}
			x.st.inc("identities")
		}
	}
	return nil
}

// search: SearchKey() returns an entry of a live key which has this hash, or nil when no live key has it.
func (x *run) search(h uint64) error {
	var live []int
	for i := range x.c.Keys {
		if _, ok := x.model[i]; ok {
			if h2, _ := x.c.Keys[i].hash(); h2 == h {
				live = append(live, i)
			}
		}
	}
	e := x.m.SearchKey(h)
	x.note("search %v", e != nil)
	if e == nil {
		if len(live) > 0 {
			return fmt.Errorf("SearchKey(%#x) = nil, but the live key#%d has this hash", h, live[0])
		}
		x.st.inc("searches without result")
		return nil
	}
	if len(live) == 0 {
		return fmt.Errorf("SearchKey(%#x) returns an entry, but no live key has this hash", h)
	}
	mh := e.PtrMapHead()
	if mh.KeyInHmap() != h {
		return fmt.Errorf("SearchKey(%#x) returns an entry of the hash %#x", h, mh.KeyInHmap())
	}
	for _, i := range live {
		if _, c := x.c.Keys[i].hash(); c == mh.ConflictInHamp() {
			x.st.inc("searches by hash")
			it, isItem := e.(sk.MapItem)
			if !isItem {
				return nil
			}
			return x.judgeItem(i, "SearchKey", it, true)
		}
	}
	return fmt.Errorf("SearchKey(%#x) returns an entry of the second hash %#x, but no live key of this hash has it", h, mh.ConflictInHamp())
}

// sameItem: the item found is the item which was stored.
func sameItem(got, stored sk.MapItem) error {
	if got.PtrListHead() != stored.PtrListHead() {
		return fmt.Errorf("the item found is not the item which was stored")
	}
	if s, ok := stored.(*own); ok {
		g, ok := got.(*own)
		if !ok || g != s {
			return fmt.Errorf("the item found has type %T, but the map has items of type %T", got, stored)
		}
		if g.tag != len(g.K)+7 {
			return fmt.Errorf("own field of the item changed: %d", g.tag)
		}
	}
	if s, ok := stored.(*far); ok {
		g, ok := got.(*far)
		if !ok || g != s {
			return fmt.Errorf("the item found has type %T, but the map has items of type %T", got, stored)
		}
		if g.tag != len(g.K)+7 {
			return fmt.Errorf("own field of the item changed: %d", g.tag)
		}
		for i := range g.pad {
			if g.pad[i] != farPad {
				return fmt.Errorf("own field of the item changed: pad[%d] = %#x", i, g.pad[i])
			}
		}
	}
	return nil
}

func (x *run) keyIdx(key interface{}) (int, error) {
	k, ok := x.idx[key]
	if !ok {
		return 0, fmt.Errorf("key %T(%.40v) is visited, but it was never inserted", key, key)
	}
	return k, nil
}

func (x *run) visit(seen map[int]bool, last *uint64, key interface{}, val interface{}) error {
	k, err := x.keyIdx(key)
	if err != nil {
		return err
	}
	w, live := x.want(k)
	if !live {
		return fmt.Errorf("key#%d %.40q is visited, but it is not live", k, x.c.Keys[k].S)
	}
	if seen[k] {
		return fmt.Errorf("key#%d %.40q is visited twice", k, x.c.Keys[k].S)
	}
	seen[k] = true
	if !sameVal(val, w) {
		return fmt.Errorf("key#%d %.40q is visited with %s, want %s", k, x.c.Keys[k].S, show(val), show(w))
	}
	h, _ := x.c.Keys[k].hash()
	r := bits.Reverse64(h)
	if len(seen) > 1 && r < *last {
		return fmt.Errorf("key#%d (reversed hash %#x) is visited after reversed hash %#x", k, r, *last)
	}
	*last = r
	return nil
}

// bytes is the key in a buffer which is used again for the next key.
func (x *run) bytes(key *Key) []byte {
	for i := range x.buf {
		x.buf[i] ^= 0x5a
	}
	x.buf = append(x.buf[:0], key.S...)
	return x.buf
}

// nested makes a traversal in the callback of a traversal.
func (x *run) nested(n int) (err error) {
	if x.inRange || n != 3 && n != 53 || len(x.model) > 400 {
		return nil
	}
	if x.ranges++; x.ranges%4 != 0 {
		return nil
	}
	x.inRange = true
	defer func() { x.inRange = false }()
	x.st.inc("nested traversals")
	if x.ranges%8 == 0 {
		return x.rangeItems(-1)
	}
	return x.rangeKV(-1)
}

func (x *run) rangeKV(stop int) (err error) {
	seen := map[int]bool{}
	var last uint64
	n := 0
	x.m.Range(func(key, value interface{}) bool {
		n++
		if err == nil {
			err = x.visit(seen, &last, key, value)
		}
		if err == nil {
			err = x.nested(n)
		}
		x.note("rng %v", key)
		return stop < 0 || n < stop
	})
	return x.endRange("Range", err, stop, n, len(seen))
}

func (x *run) endRange(what string, err error, stop, n, seen int) error {
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	x.st.inc("traversals")
	x.st.add("visited", n)
	want := len(x.model)
	if stop > 0 && stop < want {
		want = stop
		x.st.inc("early stops")
	} else if stop == 0 && want > 0 {
		want = 1
	}
	if n != want || seen != want {
		return fmt.Errorf("%s visits %d keys (%d different), want %d (stop at %d, live %d)", what, n, seen, want, stop, len(x.model))
	}
	return nil
}

func (x *run) rangeItems(stop int) (err error) {
	seen := map[int]bool{}
	var last uint64
	n := 0
	x.m.RangeItem(func(it sk.MapItem) bool {
		n++
		if err == nil {
			err = x.visit(seen, &last, it.Key(), it.Value())
			if err == nil && x.ident {
				k, _ := x.keyIdx(it.Key())
				if p := x.items[k]; p != nil && x.cfg.Store != "emb" {
					if e := sameItem(it, p); e != nil {
						err = fmt.Errorf("key#%d: %v", k, e)
					}
				}
			}
		}
		if err == nil {
			err = x.nested(n)
		}
		x.note("rngi %v", it.Key())
		return stop < 0 || n < stop
	})
	return x.endRange("RangeItem", err, stop, n, len(seen))
}

// rangeMutate: the callback changes the map. Keys which the callbacks do not touch before they are
// visited are visited exactly once with their value; no key is visited twice; no key is visited which
// was not live at some time during the traversal.
func (x *run) rangeMutate(o *Op) (err error) {
	before := map[int]mval{}
	for k, v := range x.model {
		before[k] = v
	}
	touched := map[int]bool{}
	live := map[int]bool{}
	for k := range x.model {
		live[k] = true
	}
	seen := map[int]bool{}
	r := newR(uint64(o.V), uint64(o.A))
	n := 0
	budget := 3*len(x.c.Keys) + 10
	traverse := x.m.Range
	if x.cfg.stay() && x.cfg.Store == "plain" && o.A%2 == 1 { // the items of the others move
		x.st.inc("traversals of items which change the map")
		traverse = func(f func(key, value interface{}) bool) {
			x.m.RangeItem(func(it sk.MapItem) bool { return f(it.Key(), it.Value()) })
		}
	}
	traverse(func(key, value interface{}) bool {
		n++
		if err != nil {
			return false
		}
		if n > budget {
			err = fmt.Errorf("the traversal does not end: %d keys visited, the universe has %d", n, len(x.c.Keys))
			return false
		}
		k, e := x.keyIdx(key)
		if e != nil {
			err = e
			return false
		}
		if seen[k] {
			err = fmt.Errorf("key#%d is visited twice", k)
			return false
		}
		seen[k] = true
		if !live[k] {
			err = fmt.Errorf("key#%d is visited, but it was not live during the traversal", k)
			return false
		}
		if !touched[k] {
			w := before[k].val
			if w == nil {
				w = mkVal(x.c.VT, before[k].n)
			}
			if !sameVal(value, w) {
				err = fmt.Errorf("key#%d is visited with %s, want %s", k, show(value), show(w))
				return false
			}
		}
		mut := func(op string, k2 int) {
			touched[k2] = true
			if op == "set" {
				live[k2] = true
			}
			if err == nil {
				err = x.op(&Op{O: op, K: k2, V: o.V + n})
			}
		}
		switch r.Intn(6) {
		case 0:
			mut("del", k)
		case 1:
			mut("pur", k)
		case 2:
			mut("set", r.Intn(len(x.c.Keys)))
		case 3:
			mut([]string{"del", "pur"}[r.Intn(2)], r.Intn(len(x.c.Keys)))
		case 5:
			if err == nil && n < 200 && r.Intn(8) == 0 && !x.inRange {
				x.inRange = true
				err = x.rangeItems(-1)
				x.inRange = false
			}
		case 4:
			if err == nil {
				err = x.lookup(r.Intn(len(x.c.Keys)))
			}
			_ = x.m.Len()
		}
		return err == nil
	})
	if err != nil {
		return fmt.Errorf("Range with a callback which changes the map: %v", err)
	}
	for k := range before {
		if !touched[k] && !seen[k] {
			return fmt.Errorf("Range with a callback which changes the map: key#%d %.40q is not visited, but it was live all the time", k, x.c.Keys[k].S)
		}
	}
	x.st.inc("traversals with changes")
	return nil
}

// rangeAborted: the callback of a traversal does not return: it panics, or ends its goroutine. All of
// this is over when the traversal is, later calls must neither wait for it nor see anything of it.
func (x *run) rangeAborted(o *Op) (err error) {
	if len(x.model) == 0 {
		return nil
	}
	at := 1 + o.V%len(x.model)
	n, ended := 0, false
	stop := func() {
		if n++; n < at {
			return
		}
		if o.A%2 == 0 {
			panic(aborted)
		}
		runtime.Goexit()
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil && r != any(aborted) {
				err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
			}
		}()
		if o.A >= 4 {
			[]func(io.Writer){x.m.DumpEntry, x.m.DumpBucket, x.m.DumpBucketPerLevel}[o.V%3](abortWriter(func() { n = at - 1; stop() }))
		} else if o.A%4 < 2 {
			x.m.Range(func(_, _ interface{}) bool { stop(); return true })
		} else {
			x.m.RangeItem(func(sk.MapItem) bool { stop(); return true })
		}
		ended = true
	}()
	<-done
	if err == nil && (ended || n != at) {
		err = fmt.Errorf("%d keys are visited (returned: %v), the callback ended the traversal at key %d of %d", n, ended, at, len(x.model))
	}
	if err != nil {
		return fmt.Errorf("traversal with a callback which does not return: %v", err)
	}
	x.st.inc("traversals which did not return")
	k := o.K % len(x.c.Keys)
	if err := x.op(&Op{O: "set", K: k, V: o.V}); err != nil {
		return err
	}
	return x.lookup(k)
}

// badKey: a call with a key of a type which cannot be stored finds nothing; Set panics. Nothing is
// changed by it, and no later call waits for it.
func (x *run) badKey(o *Op) error {
	n := 0xabcdef<<32 + uint64(o.V)
	if x.hasHash(n) {
		return nil
	}
	key := []interface{}{1.5, int(n), struct{ a int }{o.V}, n, []string{"a"}, int64(n), []byte(fmt.Sprintf("absent-%d\x00", o.V)), true}[o.A%8]
	what := []string{"Set", "Get", "LoadItem", "Delete", "Purge"}[o.V/3%5]
	panicked, ok := true, false
	func() {
		defer func() { recover() }()
		switch what {
		case "Set":
			ok = x.m.Set(key, "bad")
		case "Get":
			_, ok = x.m.Get(key)
		case "LoadItem":
			_, ok = x.m.LoadItem(key)
		case "Delete":
			ok = x.m.Delete(key)
		default:
			ok = x.m.Purge(key)
		}
		panicked = false
	}()
	if ok {
		return fmt.Errorf("%s(%T(%v)) = true, but no key of this type was inserted", what, key, key)
	}
	if panicked {
		x.st.inc("calls which panicked (type of the key)")
	}
	if l := x.m.Len(); l != len(x.model) {
		return fmt.Errorf("after %s(%T(%v)): Len() = %d, but %d keys are live", what, key, key, l, len(x.model))
	}
	k := o.K % len(x.c.Keys)
	if err := x.op(&Op{O: "set", K: k, V: o.V}); err != nil {
		return fmt.Errorf("after %s(%T(%v)): %v", what, key, key, err)
	}
	return x.lookup(k)
}

var aborted = errors.New("aborted")

type abortWriter func()

func (w abortWriter) Write(b []byte) (int, error) { w(); return len(b), nil }

func (x *run) final() (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = failf("final checks: panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	chk := func(op string) {
		if err == nil {
			if e := x.op(&Op{O: op}); e != nil {
				err = failf("final %s: %v", op, e)
			}
		}
	}
	for _, w := range strings.Fields(x.c.Chk) {
		if strings.HasPrefix(w, "fin:") {
			chk(w[4:])
		}
	}
	x.shape()
	return err
}

// shape counts the buckets: how much of the structure the case has built.
func (x *run) shape() {
	var b bytes.Buffer
	x.m.DumpBucket(&b)
	n := bytes.Count(b.Bytes(), []byte("\n"))
	if n > 17 {
		x.st.add("bucket splits", n-17)
	}
	x.st.max("max live keys", len(x.model))
}

// ballast allocates and drops memory of item sizes, so that freed memory is reused.
func ballast(n int) {
	var sink [][]byte
	for i := 0; i < n; i++ {
		b := make([]byte, 16+(i%64)*16)
		for j := range b {
			b[j] = 0xA5
		}
		if i%3 == 0 {
			sink = append(sink, b)
		}
	}
	runtime.KeepAlive(sink)
}

var _ = io.Discard

// steps counts, by the counters of the package, the entries which lookups look at.
func (x *run) steps(avg, most int) error {
	sk.EnableStats = true
	defer func() { sk.EnableStats = x.cfg.Stats }()
	n, sum := 0, 0
	one := func(h, cf uint64, want bool, name string) error {
		sk.ResetStats()
		if _, ok := x.m.GetByHash(h, cf); ok != want {
			return fmt.Errorf("GetByHash(%s) found = %v", name, ok)
		}
		s := sk.DebugStats[sk.CntSearchEntry] + sk.DebugStats[sk.CntReverseSearch]
		n++
		sum += s
		x.st.max("max steps of a lookup in % of limit", 100*s/most)
		if s > most {
			return fmt.Errorf("the lookup of %s looks at %d entries of %d (limit %d)", name, s, len(x.model), most)
		}
		return nil
	}
	stride := len(x.c.Keys)/300 + 1
	for k := 0; k < len(x.c.Keys); k += stride {
		_, live := x.model[k]
		h, cf := x.c.Keys[k].hash()
		if err := one(h, cf, live, fmt.Sprintf("key#%d", k)); err != nil {
			return err
		}
		if x.c.Keys[k].X && k&1 > 0 {
			h ^= 1 << 63 // next to the key
		} else {
			h = h*0x9E3779B97F4A7C15 + 0x1234567
		}
		if err := one(h, cf^1, false, fmt.Sprintf("missing hash %#x", h)); err != nil {
			return err
		}
	}
	if n == 0 {
		return nil
	}
	x.st.add("lookups counted", n)
	x.st.max("max average steps in % of limit", 100*sum/n/avg)
	if sum > avg*n {
		return fmt.Errorf("%d lookups look at %d entries, %.1f for each, of %d (limit %d)", n, sum, float64(sum)/float64(n), len(x.model), avg)
	}
	return nil
}
