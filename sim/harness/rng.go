package main

// Rng is a splitmix64 generator: every choice of the harness comes from one.
type Rng struct{ s uint64 }

func mix64(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func newRng(seeds ...uint64) *Rng {
	s := uint64(0x1234567)
	for _, x := range seeds {
		s = mix64(s ^ x)
	}
	return &Rng{s}
}

func (r *Rng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func (r *Rng) n(n int) int { return int(r.u64() % uint64(n)) }

// in returns a number in [lo, hi].
func (r *Rng) in(lo, hi int) int { return lo + r.n(hi-lo+1) }

// pct is true p times out of 100.
func (r *Rng) pct(p int) bool { return r.n(100) < p }

func pickOf[T any](r *Rng, xs ...T) T { return xs[r.n(len(xs))] }

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return mix64(h)
}
