package main

// Rng is a splitmix64 generator: the only source of choices in a simulation.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{s: seed} }

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a number in [0, n).
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In returns a number in [a, b].
func (r *Rng) In(a, b int) int { return a + r.N(b-a+1) }

func (r *Rng) F() float64 { return float64(r.U64()>>11) / (1 << 53) }

func (r *Rng) P(p float64) bool { return r.F() < p }

// Skew returns a number in [0, n), small ones more likely.
func (r *Rng) Skew(n int) int {
	f := r.F()
	return int(f * f * f * float64(n))
}

func pick[T any](r *Rng, xs []T) T { return xs[r.N(len(xs))] }

// Weighted picks an index by weight.
func (r *Rng) Weighted(w []int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	if t == 0 {
		return 0
	}
	k := r.N(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return len(w) - 1
}

// hash used for traces
type Hash uint64

func (h *Hash) Add(x uint64) {
	*h = Hash(mix(uint64(*h) ^ mix(x)))
}
func (h *Hash) Str(s string) {
	v := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		v = (v ^ uint64(s[i])) * 1099511628211
	}
	h.Add(v)
	h.Add(uint64(len(s)))
}
func (h *Hash) Bytes(s []byte) {
	v := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		v = (v ^ uint64(s[i])) * 1099511628211
	}
	h.Add(v)
	h.Add(uint64(len(s)))
}
