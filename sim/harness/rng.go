//go:build go1.21

package main

// Rng is a splitmix64 generator: every choice of the generators comes from one seed
type Rng struct {
	s     uint64
	theme uint64 // if not 0: the documents of the case have features in common
}

// NewRng returns a generator for the given coordinates
func NewRng(parts ...uint64) *Rng {
	r := &Rng{s: 0x243f6a8885a308d3}
	for _, p := range parts {
		r.s ^= p * 0x9e3779b97f4a7c15
		r.U()
	}
	return r
}

// U returns 64 bits
func (r *Rng) U() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a number in [0, n)
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U() % uint64(n))
}

// R returns a number in [a, b]
func (r *Rng) R(a, b int) int { return a + r.N(b-a+1) }

// P is true with the given probability (percent)
func (r *Rng) P(percent int) bool { return r.N(100) < percent }

// Pick picks one of the strings
func (r *Rng) Pick(s ...string) string { return s[r.N(len(s))] }

// W picks an index according to the weights
func (r *Rng) W(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	n := r.N(t)
	for i, x := range w {
		if n < x {
			return i
		}
		n -= x
	}
	return 0
}

// Sub returns an independent generator
func (r *Rng) Sub() *Rng { return &Rng{s: r.U(), theme: r.theme} }

// NewCaseRng returns the generator of a case
func NewCaseRng(parts ...uint64) *Rng {
	r := NewRng(parts...)
	t := NewRng(append([]uint64{0x7e3e}, parts...)...)
	if t.P(50) {
		r.theme = t.U() | 1
	}
	return r
}
