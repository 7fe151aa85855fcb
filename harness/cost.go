package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime/coverage"
	"strconv"

	sk "github.com/kazu/skiplistmap"
)

// steps is the number of blocks of statements which the map and its lists have executed. The harness is built with
// -cover -covermode=atomic for this. Unlike time it is the same in every run.
func steps() (total uint64, err error) {
	var b bytes.Buffer
	if err = coverage.WriteCounters(&b); err != nil {
		return
	}
	d := b.Bytes()
	if len(d) < 48 || d[25] != 0 {
		return 0, fmt.Errorf("the counters cannot be read")
	}
	fcns := binary.LittleEndian.Uint64(d[32:])
	o := 48 + int(binary.LittleEndian.Uint32(d[40:])) + int(binary.LittleEndian.Uint32(d[44:]))
	o = (o + 3) &^ 3
	next := func() (v uint64) {
		if o+4 > len(d) {
			err = fmt.Errorf("the counters are too short")
			return
		}
		if d[24] == 1 {
			v = uint64(binary.LittleEndian.Uint32(d[o:]))
			o += 4
			return
		}
		v, n := binary.Uvarint(d[o:])
		o += n
		return v
	}
	for i := uint64(0); i < fcns && err == nil; i++ {
		n := next()
		next() // package
		next() // function
		for ; n > 0 && err == nil; n-- {
			total += next()
		}
	}
	return
}

// costCalls are the calls which are measured.
var costCalls = []string{"Get", "Get of a missing key", "GetByHash", "LoadItem", "SearchKey", "Set of a present key", "StoreItem of a present key", "Len", "Delete", "Set of a deleted key", "Purge", "Set of a purged key"}

const costFactor = 16 // a power of two: the buckets are as full as before

// runCost: the mean number of steps of a call on a map with N keys, and on a map with 16 times as many.
func runCost(c *Case, st *Stats) error {
	c.Cfg.globals()
	defer Cfg{}.globals()
	r := newR(c.Seed)
	m := c.Cfg.newMap()
	prefix := fmt.Sprintf("%c%d-", 'a'+rune(r.Intn(26)), r.Intn(1000))
	name := func(i int) string { return prefix + strconv.Itoa(i) }
	n := 0
	insert := func(to int) error {
		for ; n < to; n++ {
			if !m.Set(name(n), n) {
				return failf("Set(%q) returns false", name(n))
			}
		}
		return nil
	}
	const calls = 400
	measure := func(to int) (cost []float64, err error) {
		if err = insert(to / 2); err != nil {
			return
		}
		s0, err := steps()
		if err != nil {
			return
		}
		if err = insert(to); err != nil {
			return
		}
		s1, err := steps()
		if err != nil {
			return
		}
		st.max("max steps of the insertion of a new key (not judged: splits walk the list of buckets)", int(s1-s0)/(to-to/2))
		var ks [calls]string
		var hs [calls][2]uint64
		var items [calls]*sk.SampleItem
		seen := map[int]bool{}
		for i := range ks {
			k := r.Intn(n)
			for seen[k] {
				k = r.Intn(n)
			}
			seen[k] = true
			ks[i] = name(k)
			hs[i][0], hs[i][1] = sk.KeyToHash(ks[i])
			items[i] = sk.NewSampleItem(ks[i], k)
		}
		for how, what := range costCalls {
			if s0, err = steps(); err != nil {
				return
			}
			good := 0
			for i, k := range ks {
				ok := false
				switch how {
				case 0:
					_, ok = m.Get(k)
				case 1:
					_, ok = m.Get(k + "?")
					ok = !ok
				case 2:
					_, ok = m.GetByHash(hs[i][0], hs[i][1])
				case 3:
					_, ok = m.LoadItem(k)
				case 4:
					ok = m.SearchKey(hs[i][0]) != nil
				case 5:
					ok = m.Set(k, i)
				case 6:
					ok = m.StoreItem(items[i])
				case 7:
					ok = m.Len() == n
				case 8:
					ok = m.Delete(k)
				case 10:
					ok = m.Purge(k)
				default:
					ok = m.Set(k, -i)
				}
				if ok {
					good++
				}
			}
			if s1, err = steps(); err != nil {
				return
			}
			if good != calls {
				return nil, failf("with %d keys: %d of %d calls give the right result: %s", n, good, calls, what)
			}
			cost = append(cost, float64(s1-s0)/calls)
		}
		return
	}
	few, err := measure(c.N)
	if err != nil {
		return err
	}
	many, err := measure(c.N * costFactor)
	if err != nil {
		return err
	}
	for i := range few {
		what, limit := costCalls[i], 1.5*few[i]+120
		st.max("max steps in % of limit: "+what, int(100*many[i]/limit))
		if many[i] > limit {
			return failf("%s takes %.0f steps on average with %d keys, and %.0f with %d keys (limit %.0f)", what, few[i], c.N, many[i], c.N*costFactor, limit)
		}
	}
	st.add("keys inserted", n)
	st.NonTrivial = c.N >= 100
	return nil
}
