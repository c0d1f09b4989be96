// Package mon is the runtime-monitoring frame every check is built on: a
// deterministic case scheduler, violation recorder, event counters and the
// evidence writer.
package mon

import "math"

// Rng is a splitmix64 generator. It is private to the harness, so the draws the
// code under test makes from math/rand never shift the workload.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed} }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a value of [0, n).
func (r *Rng) Intn(n int) int {
	if n <= 0 {
		panic("mon: Intn of a non-positive number")
	}
	return int(r.U64() % uint64(n))
}

// Range returns a value of [lo, hi].
func (r *Rng) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }

func (r *Rng) Float() float64 { return float64(r.U64()>>11) / (1 << 53) }

func (r *Rng) Bool() bool { return r.U64()&1 == 1 }

// P is true with probability p.
func (r *Rng) P(p float64) bool { return r.Float() < p }

func (r *Rng) Norm() float64 {
	for {
		u := r.Float()
		if u > 0 {
			return math.Sqrt(-2*math.Log(u)) * math.Cos(2*math.Pi*r.Float())
		}
	}
}

func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func Pick[E any](r *Rng, xs ...E) E { return xs[r.Intn(len(xs))] }

func Hash(parts ...string) uint64 {
	h := uint64(14695981039346656037)
	for _, p := range parts {
		for i := 0; i < len(p); i++ {
			h = (h ^ uint64(p[i])) * 1099511628211
		}
		h = (h ^ 0xff) * 1099511628211
	}
	// finalise
	h ^= h >> 33
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}
