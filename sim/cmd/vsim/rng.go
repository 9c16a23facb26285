package main

import "hash/fnv"

// rng is the only source of randomness of the orchestrator.
type rng struct{ s uint64 }

func newRng(parts ...any) *rng {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(sprint(p)))
		h.Write([]byte{0})
	}
	return &rng{h.Sum64()}
}

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func (r *rng) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.next() >> 1 % uint64(n))
}

func (r *rng) in(lo, hi int) int { return lo + r.n(hi-lo+1) }

// p is true with probability a/b.
func (r *rng) p(a, b int) bool { return r.n(b) < a }

func pick[T any](r *rng, l []T) T { return l[r.n(len(l))] }
