package main

// Deterministic PRNG (splitmix64). Every random choice of the framework goes through it.
type Rng struct{ s uint64 }

func NewRng(parts ...uint64) *Rng {
	r := &Rng{s: 0x9e3779b97f4a7c15}
	for _, p := range parts {
		r.s ^= p
		r.U64()
		r.s = r.s*0xd1342543de82ef95 + 0x632be59bd9b4e019
	}
	return r
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a number in [0,n).
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

func (r *Rng) I64(n int64) int64 {
	if n <= 1 {
		return 0
	}
	return int64(r.U64() % uint64(n))
}

// Arg is a non-negative operation argument.
func (r *Rng) Arg() int64 { return int64(r.U64() >> 24) }

func (r *Rng) Chance(num, den int) bool { return r.N(den) < num }

func (r *Rng) Pick(w []int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.N(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return len(w) - 1
}

func (r *Rng) U(n int) uint64 { return uint64(r.N(n)) }

// Perm returns the numbers below n in random order.
func (r *Rng) Perm(n int) []int {
	l := make([]int, n)
	for i := range l {
		j := r.N(i + 1)
		l[i], l[j] = l[j], i
	}
	return l
}
