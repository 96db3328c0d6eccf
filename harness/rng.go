package main

// Rng is a splitmix64 generator: every random choice in the harness comes from one.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed*0x9E3779B97F4A7C15 + 0x1234567} }
func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) Range(a, b int) int  { return a + r.N(b-a+1) }
func (r *Rng) Pct(p int) bool      { return r.N(100) < p }
func (r *Rng) Sub(k uint64) *Rng   { return NewRng(r.s ^ (k+1)*0xD1B54A32D192ED03) }
func pick[T any](r *Rng, xs []T) T { return xs[r.N(len(xs))] }

// W picks an index by weight.
func (r *Rng) W(ws ...int) int {
	t := 0
	for _, w := range ws {
		t += w
	}
	x := r.N(t)
	for i, w := range ws {
		if x < w {
			return i
		}
		x -= w
	}
	return 0
}
