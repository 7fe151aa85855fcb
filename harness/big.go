package main

import (
	"fmt"
	"math/bits"
	"sort"
)

// A big case is a map with up to some hundred thousand keys. Its keys and calls are made from a few parameters: the calls
// of one Op are made for a subset of the keys, which are numbered in hash order.
//
//	O: call, or "set-up", "set-down", "set-ends" (order of the calls; otherwise drawn), or a call without key
//	K, A: part of the keys, in 1/1000 of the hash order   V: how many of them, in 1/1000

func bigKeys(c *Case) (ks []Key) {
	r := newR(c.Seed, 1)
	if c.Chk[0] == 'p' { // "part": items spread evenly over a part of the range, not so narrow that the boundaries reach it late
		ks = partKeys(r, r.Range(56, 63), c.N)
		return
	}
	if c.Chk[0] == 'c' { // "chain": items of one hash, or of a few
		hs := make([]uint64, r.Range(1, 3))
		for i := range hs {
			hs[i] = []uint64{0, ^uint64(0), 1 << 60, r.U64(), 1 << 63, r.U64() &^ 0xfff}[r.Intn(6)]
			if i > 0 && r.P(50) {
				hs[i] = hs[i-1] + uint64(r.Intn(3)) - 1
			}
		}
		for i := 0; i < c.N; i++ {
			j := r.Intn(len(hs))
			if i%4 > 0 {
				j = 0
			}
			ks = append(ks, Key{S: []byte(fmt.Sprintf("x%d", i)), X: true, H: bits.Reverse64(hs[j]), C: uint64(i)})
		}
		return
	}
	prefix := fmt.Sprintf("%c%d-", 'a'+rune(r.Intn(26)), r.Intn(1000))
	type kr struct {
		k Key
		r uint64
	}
	t := make([]kr, c.N)
	for i := range t {
		s := fmt.Sprint(prefix, i)
		t[i] = kr{Key{S: []byte(s)}, rev(s)}
	}
	sort.Slice(t, func(i, j int) bool { return t[i].r < t[j].r })
	for i := range t {
		ks = append(ks, t[i].k)
	}
	return
}

func runBig(c *Case, st *Stats) error {
	c.Cfg.globals()
	defer Cfg{}.globals()
	d := *c
	d.Keys = bigKeys(c)
	n := len(d.Keys)
	x := newRun(&d, c.Cfg, c.Cfg.newMap(), st)
	for i, b := range c.Ops {
		r := newR(c.Seed, 2, uint64(i))
		name, order := b.O, ""
		for j := range name {
			if name[j] == '-' {
				name, order = b.O[:j], b.O[j+1:]
				break
			}
		}
		if b.V == 0 { // a call without key
			if err := x.guard(i, &Op{O: name, A: b.A}); err != nil {
				return err
			}
			continue
		}
		var sel []int
		for k := n * b.K / 1000; k < n*b.A/1000; k++ {
			if r.Intn(1000) < b.V {
				sel = append(sel, k)
			}
		}
		switch order {
		case "up":
		case "down":
			for p, q := 0, len(sel)-1; p < q; p, q = p+1, q-1 {
				sel[p], sel[q] = sel[q], sel[p]
			}
		case "ends":
			t := make([]int, 0, len(sel))
			for p, q := 0, len(sel)-1; p <= q; p, q = p+1, q-1 {
				t = append(t, sel[p])
				if p < q {
					t = append(t, sel[q])
				}
			}
			sel = t
		default:
			for p := len(sel) - 1; p > 0; p-- {
				q := r.Intn(p + 1)
				sel[p], sel[q] = sel[q], sel[p]
			}
		}
		for j, k := range sel {
			o := Op{O: name, K: k, V: j*7 + i}
			if name == "mix" {
				o.O = []string{"set", "del", "get", "pur", "geth", "loa", "sto", "set"}[r.Intn(8)]
			}
			if d.Keys[k].X {
				switch o.O {
				case "set":
					o.O = "sto"
				case "get":
					o.O = "geth"
				case "pur":
					o.O = "del"
				}
			}
			if err := x.guard(i, &o); err != nil {
				return err
			}
		}
		st.add("calls of big cases", len(sel))
	}
	st.max("max live keys", len(x.model))
	if err := x.final(); err != nil {
		return err
	}
	st.NonTrivial = len(x.model) > 5000 && st.Cnt["bucket splits"] > 0 || c.Chk[0] == 'c' && len(x.model) > 1000
	return nil
}

// genBig: a case with many keys. With a small MaxPefBucket the buckets are many, and a split walks them all.
func genBig(r *R, stores []string, chk string, thorough bool, reads []string) *Case {
	c := &Case{Kind: "big", Chk: chk, Cfg: cfgOf(r, stores...), Seed: r.U64()}
	c.N = r.Range(5000, 30000)
	if r.P(40) {
		c.N = r.Range(30000, 90000)
	}
	if r.P(12) {
		c.N = r.Range(90000, 200000)
	}
	if thorough && r.P(20) {
		c.N = r.Range(90000, 500000)
	}
	for lo := 1; ; lo *= 2 {
		if c.N/lo <= 10000 { // at most some ten thousand buckets
			if c.Cfg.Max < lo {
				c.Cfg.Max = lo + r.Intn(lo*8)
			}
			break
		}
	}
	if r.P(10) { // long buckets
		c.Cfg.Max = r.Range(100, 2000)
	}
	if c.Cfg.Max > 12000000/c.N { // a search looks at the entries of a bucket one after the other
		c.Cfg.Max = 12000000 / c.N
	}
	if r.P(20) {
		c.Chk = "part " + c.Chk
	} else {
		c.Chk = "all " + c.Chk
	}
	part := func(o string, v int) Op {
		lo, hi := 0, 1000
		if r.P(40) {
			lo = r.Intn(900)
			hi = r.Range(lo+1, 1000)
		}
		return Op{O: o, K: lo, A: hi, V: v}
	}
	fills := []string{"set", "set", "set", "sto", "set-up", "set-down", "set-ends", "sto-up"}
	c.Ops = append(c.Ops, Op{O: fills[r.Intn(len(fills))], A: 1000, V: r.Range(500, 1000)})
	for j := r.Range(2, 7); j > 0; j-- {
		switch r.Intn(6) {
		case 0, 1:
			c.Ops = append(c.Ops, part([]string{"del", "del", "del-up", "del-down", "pur"}[r.Intn(5)], r.Range(1, 1000)))
		case 2, 3:
			c.Ops = append(c.Ops, part(fills[r.Intn(len(fills))], r.Range(1, 1000)))
		case 4:
			c.Ops = append(c.Ops, part("mix", r.Range(1, 1000)))
		case 5:
			c.Ops = append(c.Ops, Op{O: reads[r.Intn(len(reads))]})
		}
	}
	return c
}

// genChain: some thousand items with the same hash, which no boundary can divide.
func genChain(r *R, chk string, thorough bool, reads []string) *Case {
	c := genBig(r, []string{"plain", "pool", "emb"}, chk, false, reads)
	c.Chk = "chain " + chk
	c.N = r.Range(2000, 8000)
	if thorough {
		c.N = r.Range(2000, 20000)
	}
	c.Cfg = cfgOf(r, "plain", "pool", "emb")
	return c
}

// shrinkBig makes the number of keys smaller.
func shrinkBig(c *Case, bad func(*Case) bool) *Case {
	best := *c
	for _, f := range []int{64, 8, 2} {
		for best.N >= f {
			d := best
			d.N = best.N / f
			if !bad(&d) {
				break
			}
			best = d
		}
	}
	for step := best.N / 4; step > 0; {
		d := best
		d.N -= step
		if bad(&d) {
			best = d
		} else {
			step /= 2
		}
	}
	return &best
}
