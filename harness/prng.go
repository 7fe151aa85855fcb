package main

// R is the only source of randomness of the generators (splitmix64), so a case is a pure function of
// (property, VERIF_SEED, case index).
type R struct{ s uint64 }

func newR(parts ...uint64) *R {
	r := &R{s: 0x243F6A8885A308D3}
	for _, p := range parts {
		r.s ^= p
		r.U64()
		r.s = r.s*6364136223846793005 + 1442695040888963407
	}
	return r
}

func (r *R) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *R) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a number in [a, b].
func (r *R) Range(a, b int) int { return a + r.Intn(b-a+1) }

func (r *R) P(percent int) bool { return r.Intn(100) < percent }

// W picks an index with the given weights.
func (r *R) W(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	n := r.Intn(t)
	for i, x := range w {
		if n < x {
			return i
		}
		n -= x
	}
	return len(w) - 1
}

func (r *R) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}
