package main

import (
	"fmt"
	"math/big"

	"cosmossdk.io/collections"
	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
)

// X06: protocol stake in governance, against a recount from the snapshot.

func (s *St) isMember(st string) bool {
	for _, m := range s.Val {
		if m[st] != nil {
			return true
		}
	}
	return false
}

func govVoting(s *Sim, step string) []Diff {
	if s.steps%4 != 2 {
		return nil
	}
	d := &differ{}
	st := s.pre
	r := NewRng(uint64(s.steps), uint64(s.cs.cfg("t0", 0)), uint64(s.opIdx), 7)
	k := s.c.App.StakersKeeper

	active := big0()
	var act []string
	for _, x := range sortedKeys(st.Stakers) {
		if st.isMember(x) {
			active.Add(active, bigU(st.stake(x)))
			act = append(act, x)
		}
	}
	if got := k.TotalBondedTokens(s.ctx); got.BigInt().Cmp(active) != 0 {
		d.add("gov:bonded", "", "total bonded tokens %v, but the active validators have %v", got, active)
	}
	seen := map[string]bool{}
	for _, v := range k.GetActiveValidators(s.ctx) {
		g, ok := v.(govv1.ValidatorGovInfo)
		if !ok {
			d.add("gov:validators", "", "unexpected type %T", v)
			continue
		}
		a := sdk.AccAddress(g.Address).String()
		if seen[a] {
			d.add("gov:validators", a, "listed twice")
		}
		seen[a] = true
		w := bigU(st.stake(a))
		if !st.isMember(a) {
			d.add("gov:validators", a, "is in no pool but counts with %v", g.BondedTokens)
		} else if g.BondedTokens.BigInt().Cmp(w) != 0 || !g.DelegatorShares.Equal(math.LegacyNewDecFromBigInt(w)) || !g.DelegatorDeductions.IsZero() || len(g.Vote) != 0 {
			d.add("gov:validators", a, "stake %v, but counts with %v of %v shares, deductions %v", w, g.BondedTokens, g.DelegatorShares, g.DelegatorDeductions)
		}
	}
	for _, a := range act {
		if !seen[a] && st.stake(a) > 0 {
			d.add("gov:validators", a, "is in a pool with stake %d but not listed", st.stake(a))
		}
	}
	// weights of delegators
	var voters []string
	pool := map[string]bool{}
	for i := 0; i < s.nUsers && i < len(users); i++ {
		pool[users[i]] = true
	}
	for x := range st.Stakers {
		pool[x] = true
	}
	share := 1 + r.N(4)
	for _, u := range sortedBools(pool) {
		want := map[string]*big.Int{}
		for _, x := range act {
			if n := st.stakeOf(x, u); n > 0 {
				want[x] = bigU(n)
			}
		}
		vs, am := k.GetDelegations(s.ctx, u)
		for i, v := range vs {
			if w := want[v]; w == nil && !am[i].IsZero() || w != nil && !am[i].Equal(math.LegacyNewDecFromBigInt(w)) {
				d.add("gov:delegations", u, "weight with %s is %v, but %v is delegated", nm(v), am[i], w)
			}
			delete(want, v)
		}
		for v, w := range want {
			d.add("gov:delegations", u, "delegation of %v with %s is missing", w, nm(v))
		}
		if r.N(4) < share {
			voters = append(voters, u)
		}
	}
	if len(d.out) > 0 {
		return d.out
	}
	return append(d.out, s.tally(r, act, active, voters)...)
}

// tally lets a subset vote and recounts the result.
func (s *Sim) tally(r *Rng, act []string, active *big.Int, voters []string) []Diff {
	d := &differ{}
	st := s.pre
	gk := s.c.App.GovKeeper
	ctx, _ := s.ctx.CacheContext()
	const id = 77777
	res := map[govv1.VoteOption]*big.Rat{govv1.OptionYes: new(big.Rat), govv1.OptionNo: new(big.Rat), govv1.OptionAbstain: new(big.Rat), govv1.OptionNoWithVeto: new(big.Rat)}
	total := new(big.Rat)
	count := func(o govv1.WeightedVoteOptions, w *big.Rat) {
		for _, x := range o {
			res[x.Option].Add(res[x.Option], new(big.Rat).Mul(w, ratOf(x.Weight)))
		}
		total.Add(total, w)
	}
	genesisDel := sdk.AccAddress(key(9999).PubKey().Address())
	bonded := new(big.Int).Add(active, sdk.DefaultPowerReduction.BigInt())
	voted := map[string]govv1.WeightedVoteOptions{}
	opts := []govv1.VoteOption{govv1.OptionYes, govv1.OptionNo, govv1.OptionAbstain, govv1.OptionNoWithVeto}
	mk := func() govv1.WeightedVoteOptions {
		a := opts[r.Pick([]int{6, 3, 2, 1})]
		if r.Chance(2, 3) {
			return govv1.NewNonSplitVoteOption(a)
		}
		b := opts[r.N(4)]
		if a == b {
			return govv1.NewNonSplitVoteOption(a)
		}
		w := math.LegacyNewDecWithPrec(1+r.I64(999), 3)
		return govv1.WeightedVoteOptions{{Option: a, Weight: w.String()}, {Option: b, Weight: math.LegacyOneDec().Sub(w).String()}}
	}
	cast := func(a sdk.AccAddress, o govv1.WeightedVoteOptions) error {
		return gk.Votes.Set(ctx, collections.Join(uint64(id), a), govv1.NewVote(id, a, o, ""))
	}
	for _, u := range voters {
		o := mk()
		voted[u] = o
		if err := cast(accOf[u], o); err != nil {
			d.add("gov:tally", u, "%v", err)
			return d.out
		}
		for _, x := range act {
			count(o, new(big.Rat).SetInt(bigU(st.stakeOf(x, u))))
		}
	}
	if r.Chance(1, 3) {
		o := mk()
		cast(genesisDel, o)
		count(o, new(big.Rat).SetInt(sdk.DefaultPowerReduction.BigInt()))
	}
	for _, x := range act {
		o, ok := voted[x]
		if !ok {
			continue
		}
		rest := bigU(st.stake(x))
		own, others := big0(), false
		for u := range voted {
			n := bigU(st.stakeOf(x, u))
			rest.Sub(rest, n)
			if u != x && n.Sign() > 0 {
				others = true
			}
			own.Add(own, n)
		}
		if others {
			s.note("delegator overrides its validator")
		}
		if rest.Sign() > 0 {
			s.note("validator votes for silent delegators")
		}
		if st.stake(x) == 0 {
			s.note("validator without stake votes")
		}
		count(o, new(big.Rat).SetInt(rest))
	}
	var pass bool
	var got govv1.TallyResult
	err := guard(func() (err error) {
		pass, _, got, err = gk.Tally(ctx, govv1.Proposal{Id: id})
		return
	})
	if err != nil {
		d.add("gov:panic", "", "the tally fails, which halts the chain: %v", err)
		return d.out
	}
	trunc := func(o govv1.VoteOption) string { return new(big.Int).Quo(res[o].Num(), res[o].Denom()).String() }
	exp := fmt.Sprintf("yes %s abstain %s no %s veto %s", trunc(govv1.OptionYes), trunc(govv1.OptionAbstain), trunc(govv1.OptionNo), trunc(govv1.OptionNoWithVeto))
	if g := fmt.Sprintf("yes %s abstain %s no %s veto %s", got.YesCount, got.AbstainCount, got.NoCount, got.NoWithVetoCount); g != exp {
		d.add("gov:tally", "", "expected %s, got %s", exp, g)
		return d.out
	}
	s.note("tallied")
	if len(voted) > 0 {
		s.note("tallied votes")
	}
	p, _ := gk.Params.Get(ctx)
	div := func(a, b *big.Rat) *big.Rat { return new(big.Rat).Quo(a, b) }
	near := func(a *big.Rat, b string) bool {
		x := new(big.Rat).Sub(a, ratOf(b))
		return x.Abs(x).Cmp(big.NewRat(1, 1_000_000_000_000)) < 0
	}
	turnout := div(total, new(big.Rat).SetInt(bonded))
	nonAbst := new(big.Rat).Sub(total, res[govv1.OptionAbstain])
	want := false
	switch {
	case near(turnout, p.Quorum):
		return d.out
	case turnout.Cmp(ratOf(p.Quorum)) < 0:
		s.note("tally below the quorum")
	case nonAbst.Sign() == 0:
	case near(div(res[govv1.OptionNoWithVeto], total), p.VetoThreshold), near(div(res[govv1.OptionYes], nonAbst), p.Threshold):
		return d.out
	case div(res[govv1.OptionNoWithVeto], total).Cmp(ratOf(p.VetoThreshold)) > 0:
		s.note("tally vetoed")
	default:
		want = div(res[govv1.OptionYes], nonAbst).Cmp(ratOf(p.Threshold)) > 0
		s.note(fmt.Sprintf("tally passes %v", want))
	}
	if pass != want {
		d.add("gov:tally", "", "expected the outcome %v for a turnout of %s, got %v", want, turnout.FloatString(6), pass)
	}
	return d.out
}
