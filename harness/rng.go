package main

import "math"

// Deterministic generator: every case is a function of (VERIF_SEED, property,
// suite, case index) and of the literals harvested from the tree, nothing else.
type Rng struct{ s uint64 }

func hash64(parts ...string) uint64 {
	h := uint64(14695981039346656037)
	for _, p := range parts {
		for i := 0; i < len(p); i++ {
			h ^= uint64(p[i])
			h *= 1099511628211
		}
		h ^= 0xff
		h *= 1099511628211
	}
	return h
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a value in [0,n).
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In returns a value in [a,b].
func (r *Rng) In(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability a/b.
func (r *Rng) P(a, b int) bool { return r.N(b) < a }

func (r *Rng) Str(l []string) string { return l[r.N(len(l))] }
func (r *Rng) Rune(l []rune) rune    { return l[r.N(len(l))] }

// Size draws a small size most of the time, sometimes a large one, sometimes
// one of the integers that occur in the source (or a neighbour of it).
func (r *Rng) Size(max int) int {
	switch r.N(20) {
	case 0:
		return 0
	case 1:
		return r.In(0, max)
	case 2:
		if len(dict.Ints) > 0 {
			n := int(dict.Ints[r.N(len(dict.Ints))]) + r.In(-1, 1)
			if n >= 0 && n <= max {
				return n
			}
		}
		return r.In(0, imin(max, 40))
	case 3, 4, 5:
		return r.In(0, imin(max, 40))
	default:
		return r.In(0, imin(max, 10))
	}
}

// tail is n, rarely a number of up to max.
func (r *Rng) tail(n, max int) int {
	if r.P(1, 80) {
		if r.P(1, 2) {
			return r.Size(max)
		}
		return r.In(0, max)
	}
	return n
}

// few draws 0..small, sometimes up to big.
func (r *Rng) few(small, big int) int {
	if r.P(1, 10) {
		if r.P(1, 6) {
			return r.In(0, 5*big)
		}
		return r.In(0, big)
	}
	return r.In(0, small)
}

// Hostile ints for arguments.
func (r *Rng) AnyInt(around int) int {
	switch r.N(13) {
	case 12: // near a power of two
		v := 1<<uint(r.In(0, 63)) + r.In(-3, around+3)
		if r.P(1, 3) {
			return -v
		}
		return v
	case 0:
		return math.MaxInt64
	case 1:
		return math.MinInt64
	case 2:
		return math.MaxInt64 - r.N(5)
	case 3:
		return math.MinInt64 + r.N(5)
	case 4:
		return r.In(-70000, 70000)
	case 5:
		if len(dict.Ints) > 0 {
			return int(dict.Ints[r.N(len(dict.Ints))])
		}
		return 0
	default:
		return r.In(-around-3, around+3)
	}
}

func imin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func imax(a, b int) int {
	if a > b {
		return a
	}
	return b
}
