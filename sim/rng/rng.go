// Package rng is the only source of choices of the simulator: a splitmix64
// stream per seed.
package rng

// R is a random stream.
type R struct{ s uint64 }

// New makes a stream; parts are mixed into the seed.
func New(seed uint64, parts ...uint64) *R {
	r := &R{s: seed}
	for _, p := range parts {
		r.s = r.U64() ^ (p+0x1234567)*0x9e3779b97f4a7c15
	}
	r.U64()
	return r
}

// U64 is the next value.
func (r *R) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N is uniform in [0,n).
func (r *R) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// P is true with probability p percent.
func (r *R) P(p int) bool { return r.N(100) < p }

// Pick picks an element.
func Pick[T any](r *R, xs ...T) T { return xs[r.N(len(xs))] }

// Shuffle permutes xs.
func Shuffle[T any](r *R, xs []T) {
	for i := len(xs) - 1; i > 0; i-- {
		j := r.N(i + 1)
		xs[i], xs[j] = xs[j], xs[i]
	}
}
