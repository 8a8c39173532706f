package eng

import "math/bits"

// Rng is a splitmix/xorshift generator; every random choice in a case comes
// from the one made for its index.
type Rng struct{ s uint64 }

func mix(z uint64) uint64 {
	z += 0x9E3779B97F4A7C15
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func NewRng(seed int64, name string, i int64) *Rng {
	h := mix(uint64(seed))
	for _, c := range []byte(name) {
		h = mix(h ^ uint64(c))
	}
	return &Rng{mix(h ^ mix(uint64(i)))}
}

func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N returns a number in [0,n).
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	hi, _ := bits.Mul64(r.U64(), uint64(n))
	return int(hi)
}

// In returns a number in [lo,hi].
func (r *Rng) In(lo, hi int) int { return lo + r.N(hi-lo+1) }

// P is true once in n times.
func (r *Rng) P(n int) bool { return r.N(n) == 0 }

func (r *Rng) Bool() bool { return r.U64()&1 == 1 }

// Geo returns 0,1,2,... with mean about m.
func (r *Rng) Geo(m int) int {
	n := 0
	for n < 40*m && r.N(m+1) != 0 {
		n++
	}
	return n
}

func Pick[T any](r *Rng, xs []T) T { return xs[r.N(len(xs))] }
