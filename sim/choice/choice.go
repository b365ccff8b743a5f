// Package choice records every decision of a scenario as a number, so that a
// scenario is its list of numbers: it can be replayed exactly and made smaller
// without knowing what the numbers mean. Zero is the simplest choice.
package choice

import "vsim/rng"

// Src hands out decisions.
type Src struct {
	Rec    []uint64 // what was decided
	r      *rng.R
	replay []uint64
	fixed  bool
}

// New makes a source of random decisions.
func New(r *rng.R) *Src { return &Src{r: r} }

// Replay makes a source that repeats decisions; further ones are zero.
func Replay(list []uint64) *Src { return &Src{replay: list, fixed: true} }

func (s *Src) next(random func() uint64) uint64 {
	var v uint64
	if s.fixed {
		if len(s.Rec) < len(s.replay) {
			v = s.replay[len(s.Rec)]
		}
	} else {
		v = random()
	}
	s.Rec = append(s.Rec, v)
	return v
}

// U64 is any number.
func (s *Src) U64() uint64 { return s.next(s.rand) }

func (s *Src) rand() uint64 { return s.r.U64() }

// N is a number in [0,n).
func (s *Src) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(s.next(func() uint64 { return s.r.U64() % uint64(n) }) % uint64(n))
}

// P is true with a probability of p percent; false is the simple case.
func (s *Src) P(p int) bool {
	return s.next(func() uint64 {
		if s.r.N(100) < p {
			return 1
		}
		return 0
	}) != 0
}

// Small is a number in [0,n) that is mostly small.
func (s *Src) Small(n int) int {
	if n <= 1 {
		return 0
	}
	return int(s.next(func() uint64 {
		switch s.r.N(4) {
		case 0:
			return uint64(s.r.N(n))
		case 1:
			return uint64(s.r.N(min(n, 8)))
		default:
			return uint64(s.r.N(min(n, 3)))
		}
	}) % uint64(n))
}

// Pick picks an element; the first one is the simplest.
func Pick[T any](s *Src, xs ...T) T { return xs[s.N(len(xs))] }

// Shrink makes a failing list of decisions smaller; fails tells if a list
// still fails in the same way and returns the list that was really used.
func Shrink(list []uint64, tries int, fails func([]uint64) ([]uint64, bool)) []uint64 {
	cur := append([]uint64(nil), list...)
	try := func(c []uint64) bool {
		if tries <= 0 {
			return false
		}
		tries--
		used, ok := fails(c)
		if !ok {
			return false
		}
		if len(used) > len(c) {
			used = used[:len(c)]
		}
		if !less(used, cur) {
			return false
		}
		cur = append([]uint64(nil), used...)
		return true
	}
	for round := 0; round < 6; round++ {
		before := append([]uint64(nil), cur...)
		// Cut off the end, then remove spans.
		for n := len(cur) / 2; n > 0; n /= 2 {
			if len(cur) > n {
				try(cur[:len(cur)-n])
			}
		}
		for _, n := range []int{64, 32, 16, 8, 4, 2, 1} {
			for i := len(cur) - n; i >= 0 && tries > 0; i -= max(1, n/2) {
				if i+n > len(cur) {
					continue
				}
				c := append(append([]uint64(nil), cur[:i]...), cur[i+n:]...)
				if try(c) {
					i = min(i, len(cur)-n) + max(1, n/2)
				}
			}
		}
		// Zero spans, then make single numbers smaller.
		for _, n := range []int{16, 4, 1} {
			for i := 0; i+n <= len(cur) && tries > 0; i += n {
				c := append([]uint64(nil), cur...)
				nz := false
				for k := i; k < i+n; k++ {
					nz = nz || c[k] != 0
					c[k] = 0
				}
				if nz {
					try(c)
				}
			}
		}
		for i := 0; i < len(cur) && tries > 0; i++ {
			for k := 0; k < 70 && i < len(cur) && cur[i] > 0; k++ {
				c := append([]uint64(nil), cur...)
				c[i] /= 2
				if try(c) {
					continue
				}
				c = append([]uint64(nil), cur...)
				c[i]--
				if !try(c) {
					break
				}
			}
		}
		if same(before, cur) || tries <= 0 {
			break
		}
	}
	return cur
}

func same(a, b []uint64) bool { return !less(a, b) && !less(b, a) }

// less orders lists by length, then by content.
func less(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}
