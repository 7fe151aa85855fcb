package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
	"sync"

	sk "github.com/kazu/skiplistmap"
)

var (
	tblOnce sync.Once
	tbl     []string // 1<<16 strings, sorted by reversed hash
)

func rev(s string) uint64 { h, _ := sk.KeyToHash(s); return bits.Reverse64(h) }

func table() []string {
	tblOnce.Do(func() {
		type kr struct {
			s string
			r uint64
		}
		t := make([]kr, 1<<16)
		for i := range t {
			s := fmt.Sprintf("t%05x", i)
			t[i] = kr{s, rev(s)}
		}
		sort.Slice(t, func(i, j int) bool { return t[i].r < t[j].r })
		tbl = make([]string, len(t))
		for i := range t {
			tbl[i] = t[i].s
		}
	})
	return tbl
}

// strKeys makes n different string keys of one shape.
func strKeys(r *R, n, shape int) (ks []Key) {
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] && !strings.HasPrefix(s, "absent-") {
			seen[s] = true
			ks = append(ks, Key{S: []byte(s)})
		}
	}
	t := table()
	switch shape {
	case 0: // numbered
		base := r.Intn(100000)
		for i := 0; len(ks) < n; i++ {
			add(fmt.Sprintf("k%d", base+i))
		}
	case 1: // random bytes
		add("")
		for len(ks) < n {
			b := make([]byte, r.Intn(24))
			for i := range b {
				b[i] = byte(r.U64())
			}
			add(string(b))
		}
	case 2: // neighbours in hash order
		at := r.Intn(len(t) - n)
		for i := 0; i < n; i++ {
			add(t[at+i])
		}
	case 3: // several groups of neighbours
		for len(ks) < n {
			l := r.Range(1, 40)
			at := r.Intn(len(t) - l)
			for i := 0; i < l && len(ks) < n; i++ {
				add(t[at+i])
			}
		}
	case 4: // both ends of the hash order, and the rest
		for i := 0; i < n/3+1 && len(ks) < n; i++ {
			add(t[i])
			if len(ks) < n {
				add(t[len(t)-1-i])
			}
		}
		for len(ks) < n {
			add(t[r.Intn(len(t))])
		}
	case 5: // long keys which differ in a few bytes only
		l := r.Range(20, 400)
		if r.Intn(12) == 0 {
			if l = r.Range(400, 70000); n*l > 1<<20 {
				l = 1<<20/n + 20
			}
		}
		at := 0 // where they differ: at the end, at the start, or between
		switch r.Intn(4) {
		case 0, 1:
			at = l
		case 2:
			at = r.Intn(l)
		}
		p := strings.Repeat("x", l)
		for len(ks) < n {
			add(fmt.Sprint(p[:at], r.Intn(10*n+10), p[at:]))
		}
	default: // evenly spaced
		for i := 0; len(ks) < n && i < len(t); i += 1 + len(t)/(n+1) {
			add(t[i])
		}
		for len(ks) < n {
			add(t[r.Intn(len(t))])
		}
	}
	return
}

const nStrShape = 7

// craftKeys makes n keys with chosen hashes.
func craftKeys(r *R, n, shape int) (ks []Key) {
	type hc struct{ h, c uint64 }
	seen := map[hc]bool{}
	add := func(reverse, c uint64) {
		k := hc{bits.Reverse64(reverse), c}
		if seen[k] || len(ks) >= n {
			return
		}
		seen[k] = true
		ks = append(ks, Key{S: []byte(fmt.Sprintf("x%d", len(ks))), X: true, H: k.h, C: k.c})
	}
	// second hashes: which bits of them tell keys apart
	cs, cm := uint(0), r.Intn(4)
	if r.P(50) {
		cs = uint(r.Intn(62))
	}
	cbase := r.U64()
	second := func(i uint64) uint64 {
		switch {
		case i == 0 || cs == 0:
			return i
		case cm == 0:
			return bits.Reverse64(i)
		case cm == 1:
			return cbase ^ 1<<((i+uint64(cs))%64) + i>>6
		}
		return i<<cs | i>>(64-cs)
	}
	conf := func() uint64 {
		if r.P(60) {
			return 0
		}
		return second(uint64(r.Intn(4)))
	}
	switch shape {
	case 0: // boundaries of buckets of all levels, and their neighbours
		for tries := 0; len(ks) < n && tries < n*50; tries++ {
			var v uint64
			switch r.Intn(6) {
			case 0:
				v = []uint64{0, ^uint64(0), 1, ^uint64(0) - 1, 1 << 63, 1<<63 - 1}[r.Intn(6)]
			case 1:
				v = uint64(r.Intn(17)) << 60
			case 2:
				v = uint64(r.Intn(17))<<60 + uint64(r.Intn(5)) - 2
			case 3: // middle of middle ...
				v = uint64(r.Intn(16)) << 60
				for d, s := uint64(1)<<59, r.Intn(58); s > 0; s-- {
					if r.P(50) {
						v += d
					}
					d /= 2
				}
			case 4:
				v = uint64(r.Intn(256))<<56 + uint64(r.Intn(3)) - 1
			default:
				v = uint64(r.Intn(1<<12))<<52 + uint64(r.Intn(3)) - 1
			}
			add(v, conf())
		}
	case 1: // the same hash, different second hash
		base := []uint64{0, ^uint64(0), 1 << 60, r.U64(), 0x8000000000000000, r.U64() &^ 0xfff}[r.Intn(6)]
		for i := 0; len(ks) < n; i++ {
			add(base, second(uint64(i)))
		}
	case 2: // consecutive hashes
		base := r.U64()
		if r.P(30) {
			base = uint64(r.Intn(16)) << 60
		}
		step := uint64(1) << r.Intn(40)
		for i := uint64(0); len(ks) < n; i++ {
			add(base+i*step, 0)
		}
	case 3: // ids: hash = 0, 1, 2 ...
		for i := uint64(0); len(ks) < n; i++ {
			add(bits.Reverse64(i), 0)
		}
	case 4: // few hashes, a lot of collisions
		hs := make([]uint64, 1+n/5)
		for i := range hs {
			hs[i] = r.U64()
			if r.P(30) {
				hs[i] &= ^uint64(0) << r.Intn(60)
			}
		}
		for tries := 0; len(ks) < n && tries < 100*n; tries++ {
			add(hs[r.Intn(len(hs))], second(uint64(r.Intn(8))))
		}
	case 5: // one subtree: the first nibbles are the same
		p := r.U64()
		s := r.Range(8, 56)
		for tries := 0; len(ks) < n && tries < 100*n; tries++ {
			add(p&^(1<<s-1)|r.U64()&(1<<s-1), 0)
		}
	case 6: // the ends
		for i := uint64(0); len(ks) < n; i++ {
			if r.P(50) {
				add(i/2, 0)
			} else {
				add(^uint64(0)-i/2, conf())
			}
		}
	default: // random
		for len(ks) < n {
			add(r.U64(), conf())
		}
	}
	return
}

const nCraftShape = 8

// partKeys returns n items whose hashes are spread evenly over a part of the range of reversed hashes, 1<<s long
func partKeys(r *R, s, n int) (keys []Key) {
	base := r.U64() &^ (1<<s - 1)
	for i := 0; i < n; i++ {
		h := bits.Reverse64(base + uint64(i)*(1<<s/uint64(n)) + uint64(r.Intn(1<<s/n/2+1)))
		keys = append(keys, Key{S: []byte(fmt.Sprintf("x%d", i)), X: true, H: h})
	}
	return
}

func shuffled(r *R, ks []Key) []Key {
	out := make([]Key, len(ks))
	for i, j := range r.Perm(len(ks)) {
		out[i] = ks[j]
	}
	return out
}

// hist describes how a history is made.
type hist struct {
	r      *R
	keys   []Key
	ops    []Op
	order  []int // indices of keys in the order of reversed hash
	set    func() string
	del    func() string
	read   func() string
	extra  func() *Op
	vmax   int
	probes int // percent of reads after a change
}

func (h *hist) init() {
	h.order = make([]int, len(h.keys))
	rv := make([]uint64, len(h.keys))
	for i := range h.order {
		h.order[i] = i
		k, _ := h.keys[i].hash()
		rv[i] = bits.Reverse64(k)
	}
	sort.SliceStable(h.order, func(i, j int) bool { return rv[h.order[i]] < rv[h.order[j]] })
}

func (h *hist) add(o string, k int) {
	h.ops = append(h.ops, Op{O: o, K: k, V: h.r.Intn(h.vmax)})
}

func (h *hist) addA(o string, k, a int) {
	h.ops = append(h.ops, Op{O: o, K: k, V: h.r.Intn(h.vmax), A: a})
}

func (h *hist) probe(k int) {
	if !h.r.P(h.probes) {
		return
	}
	switch h.r.Intn(10) {
	case 0, 1, 2, 3:
		h.add(h.read(), k)
	case 4, 5, 6:
		h.add(h.read(), h.r.Intn(len(h.keys)))
	case 7: // a neighbour
		for i, j := range h.order {
			if j == k {
				h.add(h.read(), h.order[(i+1)%len(h.order)])
				h.add(h.read(), h.order[(i+len(h.order)-1)%len(h.order)])
				break
			}
		}
	default:
		if h.extra != nil {
			if o := h.extra(); o != nil {
				h.ops = append(h.ops, *o)
			}
		}
	}
}

// seqOf returns some of the keys in some order.
func (h *hist) seqOf(sel []int) []int {
	n := len(sel)
	out := make([]int, 0, n)
	switch h.r.Intn(6) {
	case 0: // ascending
		out = append(out, sel...)
	case 1: // descending
		for i := n - 1; i >= 0; i-- {
			out = append(out, sel[i])
		}
	case 2: // from both ends
		for i, j := 0, n-1; i <= j; i, j = i+1, j-1 {
			out = append(out, sel[i])
			if i != j {
				out = append(out, sel[j])
			}
		}
	case 3: // from the middle
		for i, j := n/2-1, n/2; i >= 0 || j < n; i, j = i-1, j+1 {
			if j < n {
				out = append(out, sel[j])
			}
			if i >= 0 {
				out = append(out, sel[i])
			}
		}
	default:
		for _, i := range h.r.Perm(n) {
			out = append(out, sel[i])
		}
	}
	return out
}

// sel returns a subset in the order of reversed hash.
func (h *hist) sel() []int {
	n := len(h.order)
	switch h.r.Intn(6) {
	case 0: // all
		return h.order
	case 1: // a window
		a := h.r.Intn(n)
		b := h.r.Range(a, n-1)
		return h.order[a : b+1]
	case 2: // every second
		var o []int
		for i := h.r.Intn(2); i < n; i += 2 {
			o = append(o, h.order[i])
		}
		return o
	case 3: // tail
		return h.order[h.r.Intn(n):]
	default:
		p := h.r.Range(5, 95)
		var o []int
		for _, k := range h.order {
			if h.r.P(p) {
				o = append(o, k)
			}
		}
		return o
	}
}

func (h *hist) fill(n int) {
	start := len(h.ops)
	for len(h.ops)-start < n {
		left := n - (len(h.ops) - start)
		switch h.r.W(5, 3, 2, 1, 1) {
		case 0: // a phase over a subset
			s := h.seqOf(h.sel())
			what := h.r.W(6, 4, 2)
			for _, k := range s {
				switch what {
				case 0:
					h.add(h.set(), k)
				case 1:
					h.add(h.del(), k)
				default:
					h.add(h.read(), k)
				}
				h.probe(k)
				if len(h.ops)-start >= n {
					break
				}
			}
		case 1: // a random mix
			for i := h.r.Range(3, 60); i > 0 && left > 0; i, left = i-1, left-1 {
				k := h.r.Intn(len(h.keys))
				switch h.r.W(5, 3, 3) {
				case 0:
					h.add(h.set(), k)
				case 1:
					h.add(h.del(), k)
				default:
					h.add(h.read(), k)
				}
				h.probe(k)
			}
		case 2: // saw: delete and insert the same keys again
			s := h.seqOf(h.sel())
			if len(s) > 8 {
				s = s[:8]
			}
			for rep := h.r.Range(1, 4); rep > 0; rep-- {
				for _, k := range s {
					h.add(h.del(), k)
					h.probe(k)
				}
				for _, k := range h.seqOf(s) {
					h.add(h.set(), k)
					h.probe(k)
				}
			}
		case 3:
			if h.extra != nil {
				if o := h.extra(); o != nil {
					h.ops = append(h.ops, *o)
				}
			} else {
				h.add(h.read(), h.r.Intn(len(h.keys)))
			}
		default:
			if len(h.keys) <= 300 || h.r.P(20) {
				h.add("all", 0)
			} else {
				h.add(h.read(), h.r.Intn(len(h.keys)))
			}
		}
	}
}

func pick(r *R, s ...string) func() string {
	return func() string { return s[r.Intn(len(s))] }
}

// sizeOf picks the sizes of a case: most are small, a few are large.
func sizeOf(r *R, thorough bool) (nk, nops int) {
	switch r.W(50, 30, 16, 4) {
	case 0:
		return r.Range(1, 12), r.Range(5, 70)
	case 1:
		return r.Range(13, 80), r.Range(40, 300)
	case 2:
		return r.Range(80, 400), r.Range(200, 1500)
	default:
		if thorough {
			return r.Range(400, 4000), r.Range(2000, 16000)
		}
		return r.Range(400, 1500), r.Range(1000, 5000)
	}
}

func cfgOf(r *R, stores ...string) Cfg {
	return Cfg{
		Store:  stores[r.Intn(len(stores))],
		Bucket: r.Intn(len(bucketModes)),
		Max:    []int{1, 2, 2, 3, 4, 5, 7, 8, 12, 16, 32, 64, 0}[r.Intn(13)],
	}
}
