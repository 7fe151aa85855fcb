package main

import (
	"bytes"
	"fmt"
	"math/bits"
	"regexp"
	"strconv"
	"strings"

	sk "github.com/kazu/skiplistmap"
)

const walkBudget = 1 << 21

// entryOf is one entry met by First()/Next().
type entryOf struct {
	reverse uint64
	dummy   bool
	ignored bool
}

// walkList follows First()/Next() to the end, and checks order, the way back, and the live keys.
func (x *run) walkList() (es []entryOf, err error) {
	seen := map[int]bool{}
	var prev sk.HMapEntry
	n := 0
	var last uint64
	for e := x.m.First(); e != nil && !e.PtrListHead().Empty(); e = e.Next() {
		if n++; n > walkBudget {
			return nil, fmt.Errorf("First()/Next() does not end")
		}
		mh := e.PtrMapHead()
		r := bits.Reverse64(mh.KeyInHmap())
		if n > 1 && r < last {
			return nil, fmt.Errorf("entry %d has the reversed hash %#x, its predecessor %#x", n, r, last)
		}
		last = r
		if prev != nil {
			if back := e.Prev(); back.PtrListHead() != prev.PtrListHead() {
				return nil, fmt.Errorf("entry %d: Prev() is not the entry before", n)
			}
		}
		prev = e
		es = append(es, entryOf{r, mh.IsDummy(), mh.IsIgnored()})
		if mh.IsIgnored() {
			continue
		}
		it, ok := e.(sk.MapItem)
		if !ok {
			return nil, fmt.Errorf("entry %d of type %T is not an item", n, e)
		}
		k, err := x.keyIdx(it.Key())
		if err != nil {
			return nil, err
		}
		w, live := x.want(k)
		if !live {
			return nil, fmt.Errorf("key#%d %.40q is in the list as live, but it is not live", k, x.c.Keys[k].S)
		}
		if seen[k] {
			return nil, fmt.Errorf("key#%d %.40q is in the list twice", k, x.c.Keys[k].S)
		}
		seen[k] = true
		if !sameVal(it.Value(), w) {
			return nil, fmt.Errorf("key#%d %.40q is in the list with %s, want %s", k, x.c.Keys[k].S, show(it.Value()), show(w))
		}
		if h, c := x.c.Keys[k].hash(); mh.KeyInHmap() != h || mh.ConflictInHamp() != c {
			return nil, fmt.Errorf("key#%d %.40q is in the list with hashes %#x, %#x, want %#x, %#x", k, x.c.Keys[k].S, mh.KeyInHmap(), mh.ConflictInHamp(), h, c)
		}
	}
	if len(seen) != len(x.model) {
		for k := range x.model {
			if !seen[k] {
				return nil, fmt.Errorf("First()/Next() does not meet the live key#%d %.40q (%d of %d met)", k, x.c.Keys[k].S, len(seen), len(x.model))
			}
		}
	}
	if l := x.m.Last(); prev != nil && l.PtrListHead() != prev.PtrListHead() {
		return nil, fmt.Errorf("Last() is not the end of First()/Next()")
	}
	// and backwards
	i := len(es)
	for e := x.m.Last(); e != nil && !e.PtrListHead().Empty(); e = e.Prev() {
		i--
		if i < 0 {
			return nil, fmt.Errorf("Last()/Prev() meets more entries than First()/Next()")
		}
		if r := bits.Reverse64(e.PtrMapHead().KeyInHmap()); r != es[i].reverse {
			return nil, fmt.Errorf("Last()/Prev() meets the reversed hash %#x where First()/Next() meets %#x", r, es[i].reverse)
		}
	}
	if i != 0 {
		return nil, fmt.Errorf("Last()/Prev() meets %d entries fewer than First()/Next()", i)
	}
	// and by the heads of the entries
	if len(es) > 0 {
		if err := x.walkHeads(es); err != nil {
			return nil, err
		}
	}
	x.st.inc("walks")
	x.st.add("walked entries", len(es))
	return es, nil
}

// walkHeads: NextWithNil()/PrevtWithNil() meet what First()/Next() and Last()/Prev() meet.
func (x *run) walkHeads(es []entryOf) error {
	same := func(mh *sk.MapHead, e entryOf) bool {
		return bits.Reverse64(mh.KeyInHmap()) == e.reverse && mh.IsDummy() == e.dummy && mh.IsIgnored() == e.ignored
	}
	i := 0
	for mh := x.m.First().PtrMapHead(); mh != nil; mh = mh.NextWithNil() {
		if i == len(es) {
			return fmt.Errorf("NextWithNil() meets more entries than Next()")
		}
		if !same(mh, es[i]) {
			return fmt.Errorf("NextWithNil(): entry %d has the reversed hash %#x, by Next() %#x", i, bits.Reverse64(mh.KeyInHmap()), es[i].reverse)
		}
		i++
	}
	if i != len(es) {
		return fmt.Errorf("NextWithNil() meets %d entries fewer than Next()", len(es)-i)
	}
	for mh := x.m.Last().PtrMapHead(); mh != nil; mh = mh.PrevtWithNil() {
		if i--; i < 0 {
			return fmt.Errorf("PrevtWithNil() meets more entries than Next()")
		}
		if !same(mh, es[i]) {
			return fmt.Errorf("PrevtWithNil(): entry %d has the reversed hash %#x, by Next() %#x", i, bits.Reverse64(mh.KeyInHmap()), es[i].reverse)
		}
	}
	if i != 0 {
		return fmt.Errorf("PrevtWithNil() meets %d entries fewer than Next()", i)
	}
	return nil
}

func (x *run) walk() error {
	_, err := x.walkList()
	return err
}

var reReverse = regexp.MustCompile(`reverse: 0x\s*([0-9a-f]+)`)
var reLevel = regexp.MustCompile(`level\{\s*(-?\d+)`)

func reverses(s string) (rs []uint64) {
	for _, m := range reReverse.FindAllStringSubmatch(s, -1) {
		u, err := strconv.ParseUint(m[1], 16, 64)
		if err == nil {
			rs = append(rs, u)
		}
	}
	return
}

// dump: the dumps show the same entries and buckets as the list.
func (x *run) dump() error {
	es, err := x.walkList()
	if err != nil {
		return err
	}
	var b bytes.Buffer
	x.m.DumpEntry(&b)
	rs := reverses(b.String())
	if len(rs) != len(es) {
		return fmt.Errorf("DumpEntry shows %d entries, First()/Next() meets %d", len(rs), len(es))
	}
	for i := range rs {
		if rs[i] != es[i].reverse {
			return fmt.Errorf("DumpEntry: entry %d has the reversed hash %#x, First()/Next() meets %#x", i, rs[i], es[i].reverse)
		}
	}
	var dummies []uint64
	for _, e := range es {
		if e.dummy {
			dummies = append(dummies, e.reverse)
		}
	}
	b.Reset()
	x.m.DumpBucket(&b)
	bs := reverses(b.String())
	if len(bs) != len(dummies) {
		return fmt.Errorf("DumpBucket shows %d buckets, the list has %d bucket entries", len(bs), len(dummies))
	}
	for i := range bs {
		if d := dummies[len(dummies)-1-i]; bs[i] != d {
			return fmt.Errorf("DumpBucket: bucket %d has the boundary %#x, the list has %#x", i, bs[i], d)
		}
		if i > 0 && bs[i] >= bs[i-1] {
			return fmt.Errorf("DumpBucket: bucket %d has the boundary %#x after %#x", i, bs[i], bs[i-1])
		}
	}
	levels := map[string]bool{}
	lines := strings.Split(strings.TrimRight(b.String(), "\n"), "\n")
	b.Reset()
	x.m.DumpBucketPerLevel(&b)
	for _, l := range strings.Split(strings.TrimRight(b.String(), "\n"), "\n") {
		r := reverses(l)
		if len(r) == 0 {
			continue
		}
		if m := reLevel.FindStringSubmatch(l); m != nil {
			levels[fmt.Sprint(m[1], "/", r[0])] = true
		}
	}
	for _, l := range lines {
		r := reverses(l)
		m := reLevel.FindStringSubmatch(l)
		if len(r) == 0 || m == nil {
			continue
		}
		if !levels[fmt.Sprint(m[1], "/", r[0])] {
			return fmt.Errorf("DumpBucketPerLevel does not show the bucket with boundary %#x and level %s", r[0], m[1])
		}
	}
	x.st.inc("dumps")
	return nil
}

// segments: entries between two bucket boundaries.
func (x *run) segments(limit int) error {
	cur, max := 0, 0
	for e, n := x.m.First(), 0; e != nil && !e.PtrListHead().Empty(); e = e.Next() {
		if n++; n > walkBudget {
			return fmt.Errorf("First()/Next() does not end")
		}
		if e.PtrMapHead().IsDummy() {
			cur = 0
			continue
		}
		cur++
		if cur > max {
			max = cur
		}
	}
	x.st.max("longest segment", max)
	x.st.inc("segment checks")
	if max > limit {
		return fmt.Errorf("%d entries between two bucket boundaries with MaxPefBucket(%d) and %d keys, limit %d", max, x.cfg.Max, len(x.model), limit)
	}
	return nil
}
