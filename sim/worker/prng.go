package main

import (
	"fmt"
	"time"
)

// rng is a splitmix64 generator; every random choice outside the runtime's own
// draws comes from one of these, seeded from the plan.
type rng struct{ s uint64 }

func newRng(parts ...uint64) *rng {
	r := &rng{s: 0x243f6a8885a308d3}
	for _, p := range parts {
		r.s ^= mix64(p + r.s)
	}
	return r
}

func mix64(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *rng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *rng) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.u64() % uint64(n))
}

// between is inclusive.
func (r *rng) between(a, b int) int { return a + r.n(b-a+1) }
func (r *rng) p(pct int) bool       { return r.n(100) < pct }
func (r *rng) pick(xs ...string) string {
	return xs[r.n(len(xs))]
}
func (r *rng) dur(a, b time.Duration) time.Duration {
	if b <= a {
		return a
	}
	return a + time.Duration(r.u64()%uint64(b-a+1))
}

func hashStr(s string) uint64 {
	h := uint64(0xcbf29ce484222325)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return h
}

func sprint(a ...any) string { return fmt.Sprint(a...) }
