// Package simrt is the simulator's runtime: one PRNG, one scheduler, and the
// seams (yield points, locks, pools, file operations, process exit) through
// which the code under test meets them.
package simrt

// Rand is a splitmix64 generator: every choice of a run comes from one of
// these, seeded from the run's seed.
type Rand struct{ s uint64 }

// NewRand returns a generator for seed.
func NewRand(seed uint64) *Rand { return &Rand{s: seed} }

// Mix derives a new seed from a seed and labels.
func Mix(seed uint64, labels ...uint64) uint64 {
	r := Rand{s: seed ^ 0xA0761D6478BD642F}
	v := r.U64()
	for _, l := range labels {
		r.s = v ^ (l+1)*0xE7037ED1A0B428DB
		v = r.U64()
	}
	return v
}

// U64 returns 64 pseudo-random bits.
func (r *Rand) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Intn returns a number in [0,n).
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a number in [lo,hi].
func (r *Rand) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }

// F returns a number in [0,1).
func (r *Rand) F() float64 { return float64(r.U64()>>11) / (1 << 53) }

// P is true with probability p.
func (r *Rand) P(p float64) bool { return r.F() < p }

// Pick returns one of the arguments.
func Pick[T any](r *Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

// Weighted returns an index with probability proportional to its weight.
func (r *Rand) Weighted(w []int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.Intn(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return len(w) - 1
}
