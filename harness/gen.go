package main

import "sort"

// Profile describes how the cases of a property are generated.
type Profile struct {
	Pools, Stakers, Dels, Funders, Team [2]int
	Len                                 [2]int
	Params                              []int64 // modules whose parameters are varied at the start
	W                                   map[string]int
	Users                               int
	Cfg                                 map[string]int64
	Pre                                 func(r *Rng, ops []Op) []Op // more set-up after the standard one
}

func rnd(r *Rng, b [2]int) int {
	if b[1] <= b[0] {
		return b[0]
	}
	return b[0] + r.N(b[1]-b[0]+1)
}

func args(r *Rng, n int) []int64 {
	a := make([]int64, n)
	for i := range a {
		a[i] = r.Arg() % (1 << 36)
	}
	return a
}

func mkOp(r *Rng, k string) Op { return Op{k, args(r, 7)} }

// baseW is the all-round mix of operations.
var baseW = map[string]int{
	"blk": 14, "mkst": 1, "join": 5, "leave": 2, "comm": 2, "ccr": 2, "meta": 1,
	"del": 8, "und": 7, "red": 5, "wd": 4,
	"sub": 4, "vote": 8, "claim": 3, "skip": 2, "round": 12,
	"mkpool": 0, "updpool": 1, "dis": 1, "en": 2, "upg": 1, "cupg": 1, "prm": 2,
	"mkf": 1, "updf": 1, "fund": 5, "defund": 2,
	"tc": 0, "tclaw": 0, "tclaim": 0, "tcar": 0, "tcauth": 0, "infl": 2, "fee": 1,
}

func weights(over map[string]int) map[string]int {
	w := map[string]int{}
	for k, v := range baseW {
		w[k] = v
	}
	for k, v := range over {
		w[k] = v
	}
	return w
}

func only(w map[string]int) map[string]int { return w }

func (p *Profile) gen(r *Rng) *Case {
	c := &Case{Cfg: map[string]int64{}}
	for k, v := range p.Cfg {
		c.Cfg[k] = v
	}
	if p.Users == 0 {
		p.Users = 8
	}
	c.Cfg["users"] = int64(p.Users)
	c.Cfg["t0"] = int64(6 + r.N(1000))
	var ops []Op
	for _, m := range p.Params {
		if r.Chance(3, 4) {
			a := args(r, 3)
			a[0] = 0
			a[1] = m
			ops = append(ops, Op{"prm", a})
		}
	}
	np := rnd(r, p.Pools)
	for i := 0; i < np; i++ {
		a := args(r, 8)
		a[0] = 0
		if r.Chance(3, 4) {
			a[4] = []int64{0, 3, 4}[r.N(3)]
		}
		ops = append(ops, Op{"mkpool", a})
	}
	ns := rnd(r, p.Stakers)
	amode := func() int64 { return []int64{1, 1, 14, 12, 2, 0, 3, 1, 15, 1, 14}[r.N(11)] }
	uniform := r.Chance(1, 3)
	for i := 0; i < ns; i++ {
		a := args(r, 4)
		a[0], a[1], a[2] = int64(i), amode(), a[2]|1
		if uniform {
			a[1], a[2] = 1, 99
		}
		if a[3]%31 == 30 {
			a[3] = 2
		}
		ops = append(ops, Op{"mkst", a})
	}
	for i := 0; i < ns; i++ {
		for q := 0; q < np; q++ {
			if q == 0 || r.Chance(1, 2) {
				ops = append(ops, Op{"join", []int64{int64(17 * i), int64(29 * q), int64(12 * r.N(nVals)), 9, 0}})
			}
		}
	}
	for i := rnd(r, p.Dels); i > 0; i-- {
		a := args(r, 4)
		a[0] = int64(r.N(p.Users))
		a[1] = int64(17 * r.N(64))
		a[2], a[3] = amode(), a[3]|1
		ops = append(ops, Op{"del", a})
	}
	for i := rnd(r, p.Funders); i > 0; i-- {
		ops = append(ops, Op{"mkf", []int64{int64(i), 0}})
	}
	if nf := rnd(r, p.Funders); nf > 0 {
		for i := 0; i < nf; i++ {
			ops = append(ops, Op{"fund", []int64{int64(17 * r.N(64)), int64(29 * r.N(np+1)), r.Arg()}})
		}
	}
	for i := rnd(r, p.Team); i > 0; i-- {
		a := args(r, 4)
		a[0] = int64(r.N(8))
		ops = append(ops, Op{"tc", a})
	}
	if p.Pre != nil {
		ops = p.Pre(r, ops)
	}
	ks := make([]string, 0, len(p.W))
	for k, v := range p.W {
		if v > 0 {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	ws := make([]int, len(ks))
	for i, k := range ks {
		ws[i] = p.W[k] * 4
		// every case stresses its own mix
		switch r.N(6) {
		case 0:
			ws[i] *= 3
		case 1:
			ws[i] /= 4
		}
	}
	ws[0]++
	for n := rnd(r, p.Len); n > 0; n-- {
		ops = append(ops, mkOp(r, ks[r.Pick(ws)]))
	}
	c.Ops = ops
	return c
}
