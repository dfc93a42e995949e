package main

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/cosmos/cosmos-sdk/baseapp"
	sdk "github.com/cosmos/cosmos-sdk/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"

	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	querytypes "github.com/KYVENetwork/chain/x/query/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
)

func init() {
	ex := func(a int64) string { return extras[int(a%int64(nExtra))] }
	extraOps["xjoin"] = func(s *Sim, op Op) { // somebody of the big population joins
		u := ex(op.a(0))
		if s.pre.Stakers[u] == nil {
			s.tx(&stakerstypes.MsgCreateStaker{Creator: u, Amount: amount(op.a(1), op.a(2), 0), Commission: dec("0.1")})
		}
		s.tx(&stakerstypes.MsgJoinPool{Creator: u, PoolId: s.pool(op.a(3)), Valaddress: s.joinAddr(u, 0, 12*op.a(4)), Amount: 0})
	}
	extraOps["xeq"] = func(s *Sim, op Op) { // somebody with about the stake of the lowest member joins
		p := s.pool(op.a(0))
		low := ^uint64(0)
		for m := range s.pre.Val[p] {
			t := uint64(0)
			if d := s.pre.Del[m]; d != nil {
				t = d.Total
			}
			low = min(low, t)
		}
		if low == ^uint64(0) {
			return
		}
		low += []uint64{0, 0, 1, ^uint64(0)}[op.a(1)%4]
		for i := int64(0); i < int64(nExtra+s.nUsers); i++ {
			u := s.user(op.a(2) + i)
			if i >= int64(s.nUsers) {
				if !s.extra {
					return
				}
				u = ex(op.a(2) + i)
			}
			if s.pre.Stakers[u] == nil {
				s.tx(&stakerstypes.MsgCreateStaker{Creator: u, Amount: low, Commission: dec("0.1")})
				s.tx(&stakerstypes.MsgJoinPool{Creator: u, PoolId: p, Valaddress: s.joinAddr(u, p, 12*op.a(4)), Amount: 0})
				return
			}
			if d := s.pre.Del[u]; s.pre.Val[p][u] == nil && d != nil && d.Total > 0 && d.Total <= low {
				if d.Total < low {
					s.tx(&delegationtypes.MsgDelegate{Creator: u, Staker: u, Amount: low - d.Total})
				}
				s.tx(&stakerstypes.MsgJoinPool{Creator: u, PoolId: p, Valaddress: s.joinAddr(u, p, 12*op.a(4)), Amount: 0})
				return
			}
		}
	}
	extraOps["xfeq"] = func(s *Sim, op Op) { // somebody funds about as much as the lowest active funder
		p := s.pool(op.a(0))
		m := &M{St: s.pre}
		var low *FundingSt
		for _, a := range s.pre.FS[p] {
			if f := s.pre.Fund[pk(p, a)]; f != nil && (low == nil || m.score(f).Cmp(m.score(low)) < 0) {
				low = f
			}
		}
		if low == nil {
			return
		}
		u := ex(op.a(2))
		if op.a(2)%3 == 0 {
			u = s.user(op.a(2) / 3)
		} else {
			for i := int64(0); i < int64(nExtra) && op.a(2)%9 != 8 && has(s.pre.FS[p], u); i++ {
				u = ex(op.a(2) + i)
			}
		}
		if _, ok := s.pre.Funders[u]; !ok {
			s.tx(&funderstypes.MsgCreateFunder{Creator: u, Moniker: "x"})
		}
		am := low.Amt.clone()
		r := NewRng(uint64(op.a(1)), 79)
		for _, d := range AllDens {
			if v := am.get(d); v.Sign() > 0 && r.Chance(1, 3) {
				am.set(d, new(big.Int).Add(v, big.NewInt([]int64{-1, 1, 1000, -1000, 1_000_000}[r.N(5)])))
				if am.get(d).Sign() <= 0 {
					am.set(d, v)
				}
			}
		}
		s.tx(&funderstypes.MsgFundPool{Creator: u, PoolId: p, Amounts: am.coins(), AmountsPerBundle: low.Per.coins()})
	}
	extraOps["xdel"] = func(s *Sim, op Op) { // the stake of a member of the big population moves
		p := s.pool(0)
		m := s.member(p, op.a(0))
		if u, st, ok := s.ownDelegation(m); ok && op.a(1)%2 == 0 {
			s.tx(&delegationtypes.MsgRedelegate{Creator: u, FromStaker: st, ToStaker: s.member(p, op.a(2)), Amount: amount(op.a(3), op.a(4), s.stakeOf(st, u))})
			return
		}
		u := s.user(op.a(2))
		s.tx(&delegationtypes.MsgDelegate{Creator: u, Staker: m, Amount: amount(op.a(3), op.a(4), 1000)})
	}
	extraOps["xfund"] = func(s *Sim, op Op) {
		u := ex(op.a(0))
		p := s.pool(op.a(1) * 29)
		am, per := s.fundArgs(p, u, NewRng(uint64(op.a(2)), 78))
		s.tx(&funderstypes.MsgFundPool{Creator: u, PoolId: p, Amounts: am.coins(), AmountsPerBundle: per.coins()})
	}
	extraOps["xdefund"] = func(s *Sim, op Op) {
		u := ex(op.a(0))
		if f := s.pre.Fund[pk(0, u)]; f != nil && !f.Amt.empty() {
			s.tx(&funderstypes.MsgDefundPool{Creator: u, PoolId: 0, Amounts: f.Amt.coins()})
		}
	}
}

func (s *Sim) ownDelegation(st string) (string, string, bool) {
	if d := s.pre.Del[st]; d != nil && d.D[st] != nil {
		return st, st, true
	}
	return "", "", false
}

// ---- D01: everybody can leave --------------------------------------------------------------------------

// accountDust bounds the rounding dust that a step can leave in the delegation escrow. It is an upper bound of
// what truncation explains: less than one unit per reward share, withdrawal and re-initialised stake, plus the part
// of a reward that falls on the truncated fractions of slashed stakes.
func (s *Sim) accountDust(m *M) {
	if s.dust == nil {
		s.dust = map[string]*big.Rat{}
		for _, d := range AllDens {
			s.dust[d] = new(big.Rat)
		}
	}
	add := func(d string, r *big.Rat) { s.dust[d] = addR(s.dust[d], r) }
	for _, rec := range m.payouts {
		for d, v := range rec.D {
			add(d, rat1)
			for _, st := range []*St{s.pre, m.post} {
				dd := st.Del[rec.Uploader]
				if dd == nil || dd.Total == 0 {
					continue
				}
				sum := big0()
				for _, x := range dd.D {
					sum.Add(sum, bigU(x.Amt))
				}
				if gap := new(big.Int).Sub(bigU(dd.Total), sum); gap.Sign() > 0 {
					add(d, quoR(ratI(new(big.Int).Mul(v, gap)), ratU(dd.Total)))
				}
				add(d, new(big.Rat).SetFrac(bigU(dd.Total), ten18))
			}
		}
	}
	for _, sl := range m.slashes {
		add(UKYVE, big.NewRat(1, 1))
		if dd := s.pre.Del[sl.Staker]; dd != nil {
			add(UKYVE, big.NewRat(int64(2*len(dd.D)), 1))
		}
	}
	// every delegation that was re-initialised or paid out
	for _, k := range unionKeys(s.pre.Out, m.post.Out) {
		a, b := s.pre.Out[k], m.post.Out[k]
		for _, d := range bagDenoms(a, b) {
			if b.get(d).Cmp(a.get(d)) < 0 {
				add(d, rat1)
			}
		}
	}
	for _, k := range unionKeys(s.pre.Del, m.post.Del) {
		a, b := s.pre.Del[k], m.post.Del[k]
		var x, y map[string]*DelSt
		if a != nil {
			x = a.D
		}
		if b != nil {
			y = b.D
		}
		for _, u := range unionKeys(x, y) {
			if x[u] == nil || y[u] == nil || x[u].Amt != y[u].Amt {
				add(UKYVE, rat1)
			}
		}
	}
}

// touched by a withdrawal that paid nothing: the stake is re-initialised to its floor
func (s *Sim) dustTx(msg sdk.Msg) {
	if s.dust != nil {
		switch msg.(type) {
		case *delegationtypes.MsgWithdrawRewards, *delegationtypes.MsgDelegate, *delegationtypes.MsgRedelegate:
			s.dust[UKYVE] = addR(s.dust[UKYVE], big.NewRat(2, 1))
		}
	}
}

func drainProbe(s *Sim) []Diff {
	if len(s.pre.Out) == 0 || s.dust == nil {
		return nil
	}
	// only what the delegators can get back counts, so nothing may be slashed on the way out
	n := 0
	for _, k := range sortedKeys(s.pre.Out) {
		p := strings.Split(k, "|")
		if amt := s.stakeOf(p[0], p[1]); amt > 0 {
			n++
			s.tx(&delegationtypes.MsgUndelegate{Creator: p[1], Staker: p[0], Amount: amt})
		} else {
			n++
			s.tx(&delegationtypes.MsgWithdrawRewards{Creator: p[1], Staker: p[0]})
		}
		if s.stop() {
			return nil
		}
	}
	unb := s.pre.P.Unbond
	if unb > 10*365*86400 {
		return nil
	}
	for _, d := range AllDens { // the last payment of every delegation
		s.dust[d] = addR(s.dust[d], big.NewRat(int64(2*n), 1))
	}
	s.endBlock()
	s.beginBlock(int64(unb) + 1)
	if s.stop() {
		return nil
	}
	s.note("drained")
	var ds []Diff
	owed := Bag{}
	for _, st := range sortedKeys(s.pre.Del) {
		for u, x := range s.pre.Del[st].D {
			if x.Amt > 0 {
				ds = append(ds, Diff{Comp: "probe:drain", Key: sk(st, u), Detail: fmt.Sprintf("still delegates %d after undelegating everything", x.Amt)})
			}
			owed = owed.add(s.pre.Out[sk(st, u)])
		}
	}
	left := s.pre.Bal[kDel].sub(owed)
	for _, d := range AllDens {
		if ratI(left.get(d)).Cmp(s.dust[d]) > 0 {
			ds = append(ds, Diff{Comp: "probe:drain", Key: d, Detail: fmt.Sprintf("%s %s stay in the escrow after everybody left, rounding explains at most %s", left.get(d), d, s.dust[d].FloatString(3))})
		}
	}
	return ds
}

// ---- B05: frequency of selection -------------------------------------------------------------------------

func frequencyProbe(s *Sim) []Diff {
	if s.pre.PoolCnt == 0 {
		return nil
	}
	p := uint64(s.cs.cfg("t0", 0)) % s.pre.PoolCnt
	pl := s.pre.Pools[p]
	if pl.Disabled || pl.UpgradePlan.ScheduledAt > 0 {
		return nil
	}
	r := NewRng(uint64(s.cs.cfg("t0", 0)), 99)
	ctx, _ := s.ctx.CacheContext()
	g := s.c.Authority
	run := func(m sdk.Msg) bool { return s.c.raw(ctx, m) == nil }
	if !run(&bundlestypes.MsgUpdateParams{Authority: g, Payload: `{"upload_timeout":1,"max_points":1000000000}`}) ||
		!run(&pooltypes.MsgUpdateParams{Authority: g, Payload: `{"max_voting_power_per_pool":"1"}`}) ||
		!run(&stakerstypes.MsgUpdateParams{Authority: g, Payload: `{"leave_pool_time":1000000000}`}) ||
		!run(&delegationtypes.MsgUpdateParams{Authority: g, Payload: `{"unbonding_delegation_time":1000000000}`}) ||
		!run(&pooltypes.MsgUpdatePool{Authority: g, Id: p, Payload: `{"UploadInterval":1,"MinDelegation":0,"EndKey":""}`}) {
		return nil
	}
	h, t := ctx.BlockHeight(), ctx.BlockTime().Unix()
	app := s.c.App
	block := func() bool {
		return guard(func() error {
			if _, e := app.EndBlocker(ctx); e != nil {
				return e
			}
			h, t = h+1, t+3
			ctx = atBlock(ctx, h, t)
			_, e := app.BeginBlocker(ctx)
			return e
		}) == nil
	}
	next := func() (string, uint64) {
		q, _ := app.BundlesKeeper.GetBundleProposal(ctx, p)
		return q.NextUploader, q.BundleSize
	}
	// in some cases somebody with a rather small stake has just joined
	if r.Chance(1, 2) {
		now := s.c.Snap(ctx, false)
		if tot, _ := now.poolStake(p); tot > 1000 && len(now.members(p)) > 1 && len(now.members(p)) < 40 {
			for i := 0; i < s.nUsers; i++ {
				u := s.user(int64(i))
				if now.Stakers[u] != nil || now.Val[p][u] != nil {
					continue
				}
				am := tot/100*uint64(2+r.N(14)) + 1
				if now.Bal[u].get(UKYVE).Cmp(bigU(am)) < 0 {
					continue
				}
				if run(&stakerstypes.MsgCreateStaker{Creator: u, Amount: am, Commission: dec("0.1")}) && run(&stakerstypes.MsgJoinPool{Creator: u, PoolId: p, Valaddress: s.joinAddr(u, p, 0), Amount: 0}) {
					s.note("frequency: with a newcomer")
				}
				break
			}
		}
	}
	// a few blocks settle what is still under way, so that membership and stakes are constant from here on
	for i := 0; i < 3; i++ {
		if !block() {
			return nil
		}
	}
	st := s.c.Snap(ctx, false)
	pl = st.Pools[p]
	total, _ := st.poolStake(p)
	mem := st.members(p)
	n := 0
	lo, hi := uint64(0), uint64(0)
	for _, m := range mem {
		if x := st.stake(m); x > 0 {
			n++
			if lo == 0 || x < lo {
				lo = x
			}
			if x > hi {
				hi = x
			}
		}
	}
	// A selection without the one who skipped is worth less than one among all: with skips, what counts is the stake
	// a member brought to the selections it was a candidate in against the stake of the selections it won.
	skipping := n > 1 && r.Chance(1, 2)
	bundling := !skipping && r.Chance(1, 2)
	pattern := r.N(4) // who skips: anybody now and then, everybody, every second one, always the same member
	lazy := ""
	if len(mem) > 0 {
		lazy = mem[r.N(len(mem))]
	}
	if n < 2 || total < 1000 {
		return nil
	}
	count, want, won := map[string]int{}, map[string]*big.Rat{}, map[string]*big.Rat{}
	for _, m := range mem {
		want[m], won[m] = new(big.Rat), new(big.Rat)
	}
	rounds := 12*n + 40
	if r.Chance(1, 5) {
		rounds *= 3
	}
	warm := 6 * n
	skips := 0
	for i := 0; i < warm+rounds; i++ {
		cand := map[string]bool{} // who can be selected in this round
		for _, m := range mem {
			cand[m] = true
		}
		skip := false
		if now, _ := next(); skipping && i > 0 {
			switch pattern {
			case 0:
				skip = r.Chance(1, 4)
			case 1:
				skip = true
			case 2:
				skip = i%2 == 0
			case 3:
				skip = now == lazy
			}
		}
		switch {
		case bundling: // the designated uploader hands in a bundle: those who voted valid for the one before are the candidates
			q, _ := app.BundlesKeeper.GetBundleProposal(ctx, p)
			pool, _ := app.PoolKeeper.GetPool(ctx, p)
			v := st.Val[p][q.NextUploader]
			if v == nil {
				return nil
			}
			if q.StorageId != "" {
				cand = map[string]bool{}
				for _, m := range q.VotersValid {
					cand[m] = true
				}
			}
			sid := fmt.Sprintf("freq-%d", i)
			if !run(&bundlestypes.MsgSubmitBundleProposal{Creator: v.Addr, Staker: q.NextUploader, PoolId: p, StorageId: sid, DataSize: 10, DataHash: "h",
				FromIndex: pool.CurrentIndex + q.BundleSize, BundleSize: 1, FromKey: sid, ToKey: sid, BundleSummary: "s"}) {
				return nil
			}
			valid := st.stake(q.NextUploader)
			for _, k := range r.Perm(len(mem)) {
				m := mem[k]
				if m == q.NextUploader || valid > total/2+1 && (m == lazy || r.Chance(1, 3)) {
					continue
				}
				if run(&bundlestypes.MsgVoteBundleProposal{Creator: st.Val[p][m].Addr, Staker: m, PoolId: p, StorageId: sid, Vote: bundlestypes.VOTE_TYPE_VALID}) {
					valid += st.stake(m)
				}
			}
		case skip: // the designated uploader skips: it is not a candidate in this selection
			up, size := next()
			if v := st.Val[p][up]; v != nil && run(&bundlestypes.MsgSkipUploaderRole{Creator: v.Addr, Staker: up, PoolId: p, FromIndex: pl.CurrentIndex + size}) {
				delete(cand, up)
				skips++
				skipped, _ := next()
				if !block() { // to the next point in time: no timeout is due in the block of the skip itself
					return nil
				}
				if now, _ := next(); now != skipped {
					return []Diff{{Comp: "probe:frequency", Key: pk(p, up), Detail: "the uploader chosen by a skip was replaced in the same block"}}
				}
			} else if !block() {
				return nil
			}
		default:
			if !block() {
				return nil
			}
		}
		up, _ := next()
		if bundling && !block() {
			return nil
		}
		if up == "" {
			return nil
		}
		if i < warm {
			continue
		}
		count[up]++
		rest := uint64(0)
		for m := range cand {
			rest += st.stake(m)
		}
		if rest == 0 { // nobody is left: everybody is a candidate
			for _, m := range mem {
				cand[m] = true
				rest += st.stake(m)
			}
		}
		for _, m := range mem {
			if cand[m] {
				won[m] = addR(won[m], quoR(ratU(st.stake(m)), ratU(total)))
				want[m] = addR(want[m], quoR(ratU(st.stake(m)), ratU(rest)))
			}
		}
		won[up] = subR(won[up], quoR(ratU(rest), ratU(total)))
	}
	end := s.c.Snap(ctx, false)
	if fmt.Sprint(end.members(p)) != fmt.Sprint(mem) {
		return nil
	}
	for _, m := range mem {
		if end.stake(m) != st.stake(m) {
			return nil
		}
	}
	s.note("frequency measured")
	if skips > 0 {
		s.note("frequency measured with skips")
	}
	if bundling {
		s.note("frequency measured with bundles")
	}
	var ds []Diff
	for _, m := range mem {
		d := won[m]
		f, _ := d.Float64()
		if f < 0 {
			f = -f
		}
		switch {
		case bundling:
			s.maxes("frequency deviation with bundles", f)
		case skipping:
			s.maxes(fmt.Sprintf("frequency deviation with skips %d", pattern), f)
		default:
			s.maxes("frequency deviation", f)
		}
		if f > freqBound {
			ds = append(ds, Diff{Comp: "probe:frequency", Key: pk(p, m), Detail: fmt.Sprintf("selected %d times in %d rounds, its stake %d of %d entitles it to %s (weighted by the stake of the candidates it is %.2f rounds off)", count[m], rounds, st.stake(m), total, want[m].FloatString(2), f)})
		}
	}
	return ds
}

const freqBound = 3.5

func (s *Sim) maxes(k string, f float64) {
	k = fmt.Sprintf("%s >= %.0f", k, f-0.5)
	s.note(k)
}

// ---- B07: what the node asks before acting -----------------------------------------------------------------

func (s *Sim) query() *baseapp.QueryServiceTestHelper {
	return &baseapp.QueryServiceTestHelper{GRPCQueryRouter: s.c.App.GRPCQueryRouter(), Ctx: s.ctx}
}

func canQueries(s *Sim, step string) []Diff {
	if s.steps%3 != 0 || s.pre.PoolCnt == 0 {
		return nil
	}
	d := &differ{}
	r := NewRng(uint64(s.steps), uint64(s.cs.cfg("t0", 0)), uint64(s.opIdx))
	q := querytypes.NewQueryBundlesClient(s.query())
	p := s.pool(r.Arg())
	for i := 0; i < 2; i++ {
		st := s.member(p, r.Arg())
		if r.Chance(1, 10) {
			st = s.anyStaker(r.Arg())
		}
		who := s.actor(p, st, r.Arg())
		sid := s.pre.prop(p).StorageId
		if r.Chance(1, 10) {
			sid = "other"
		}
		if v, err := q.CanVote(s.ctx, &querytypes.QueryCanVoteRequest{PoolId: p, Staker: st, Voter: who, StorageId: sid}); err != nil {
			d.add("query:canvote", pk(p, st), "error %v", err)
		} else {
			exp := s.pre.canVote(p, st, who, sid)
			if v.Possible != (exp == "") {
				d.add("query:canvote", pk(p, st), "voter %s: expected %q, got %v %q", nm(who), exp, v.Possible, v.Reason)
			}
			if ab := has(s.pre.prop(p).VotersAbstain, st); v.Possible && ab != (v.Reason == "KYVE_VOTE_NO_ABSTAIN_ALLOWED") {
				d.add("query:canvote", pk(p, st), "abstained %v but reason %q", ab, v.Reason)
			}
			if v.Possible {
				s.note("query can vote: yes")
			}
		}
		if r.Chance(1, 2) && s.pre.prop(p).NextUploader != "" {
			st = s.pre.prop(p).NextUploader
			who = s.actor(p, st, r.Arg())
		}
		from := s.fromIndex(p)
		if r.Chance(1, 10) {
			from++
		}
		if v, err := q.CanPropose(s.ctx, &querytypes.QueryCanProposeRequest{PoolId: p, Staker: st, Proposer: who, FromIndex: from}); err != nil {
			d.add("query:canpropose", pk(p, st), "error %v", err)
		} else {
			if exp := s.pre.canPropose(p, st, who, from); v.Possible != (exp == "") {
				d.add("query:canpropose", pk(p, st), "proposer %s: expected %q, got %v %q", nm(who), exp, v.Possible, v.Reason)
			}
			if v.Possible {
				s.note("query can propose: yes")
			}
		}
		if v, err := q.CanValidate(s.ctx, &querytypes.QueryCanValidateRequest{PoolId: p, Valaddress: who}); err != nil {
			d.add("query:canvalidate", pk(p, who), "error %v", err)
		} else {
			exp := ""
			for m, x := range s.pre.Val[p] {
				if x.Addr == who {
					exp = m
				}
			}
			if v.Possible != (exp != "") || v.Possible && v.Reason != exp {
				d.add("query:canvalidate", pk(p, who), "expected %q, got %v %q", nm(exp), v.Possible, nm(v.Reason))
			}
		}
	}
	return d.out
}

// ---- B02: how the votes stand --------------------------------------------------------------------------------

func voteStatus(s *Sim, step string) []Diff {
	d := &differ{}
	for _, p := range sortedU(s.pre.Prop) {
		q := s.pre.Prop[p]
		if s.pre.Pools[p] == nil || q.StorageId == "" {
			continue
		}
		v, err := querytypes.NewQueryBundlesClient(s.query()).CurrentVoteStatus(s.ctx, &querytypes.QueryCurrentVoteStatusRequest{PoolId: p})
		if err != nil {
			d.add("query:tally", fmt.Sprint(p), "error %v", err)
			continue
		}
		e := s.pre.votes(p)
		if e.valid != v.Valid || e.invalid != v.Invalid || e.abstain != v.Abstain || e.total != v.Total {
			d.add("query:tally", fmt.Sprint(p), "valid/invalid/abstain/total: expected %d/%d/%d/%d, got %d/%d/%d/%d", e.valid, e.invalid, e.abstain, e.total, v.Valid, v.Invalid, v.Abstain, v.Total)
		}
		for _, l := range [][]string{q.VotersValid, q.VotersInvalid, q.VotersAbstain} {
			for _, m := range l {
				if s.pre.Val[p][m] == nil {
					s.note("vote of somebody who is gone")
				}
			}
		}
	}
	return d.out
}

// ---- X04: nobody takes what belongs to others -----------------------------------------------------------------

func othersUntouched(s *Sim, msg sdk.Msg, err error, pre, post *St, m *M) []Diff {
	d := &differ{}
	if err != nil {
		// a failed message: its branch is discarded, so what the chain serves must be unchanged
		if now := s.c.Snap(s.ctx, false); s.steps%10 == 0 && !sameMoney(pre, now) {
			d.add("x04", msgName(msg), "state changed by a failed message")
		}
		return d.out
	}
	signer := ""
	var slashOK, chargeOK, evictOK bool
	switch x := msg.(type) {
	case interface{ GetSigners() []sdk.AccAddress }:
		_ = x
	}
	switch x := msg.(type) {
	case *stakerstypes.MsgCreateStaker:
		signer = x.Creator
	case *stakerstypes.MsgUpdateMetadata:
		signer = x.Creator
	case *stakerstypes.MsgUpdateCommission:
		signer = x.Creator
	case *stakerstypes.MsgClaimCommissionRewards:
		signer = x.Creator
	case *stakerstypes.MsgJoinPool:
		signer = x.Creator
	case *stakerstypes.MsgLeavePool:
		signer = x.Creator
	case *delegationtypes.MsgDelegate:
		signer = x.Creator
	case *delegationtypes.MsgUndelegate:
		signer = x.Creator
	case *delegationtypes.MsgRedelegate:
		signer = x.Creator
	case *delegationtypes.MsgWithdrawRewards:
		signer = x.Creator
	case *funderstypes.MsgCreateFunder:
		signer = x.Creator
	case *funderstypes.MsgUpdateFunder:
		signer = x.Creator
	case *funderstypes.MsgFundPool:
		signer, evictOK = x.Creator, true
	case *funderstypes.MsgDefundPool:
		signer = x.Creator
	case *bundlestypes.MsgVoteBundleProposal, *bundlestypes.MsgClaimUploaderRole:
	case *bundlestypes.MsgSubmitBundleProposal, *bundlestypes.MsgSkipUploaderRole:
		slashOK, chargeOK = true, true
	case *banktypes.MsgSend:
		signer = x.FromAddress
	default:
		return nil
	}
	for _, k := range sortedKeys(pre.Bal) {
		if k == signer || strings.HasPrefix(k, "mod:") || strings.HasPrefix(k, "pool:") {
			continue
		}
		if !pre.Bal[k].leq(post.Bal[k]) {
			d.add("x04", k, "wallet fell from %s to %s by %s of %s", pre.Bal[k], post.Bal[k], msgName(msg), nm(signer))
		}
	}
	for _, st := range sortedKeys(pre.Del) {
		for _, u := range sortedKeys(pre.Del[st].D) {
			x := pre.Del[st].D[u]
			var now uint64
			if dd := post.Del[st]; dd != nil && dd.D[u] != nil {
				now = dd.D[u].Amt
			}
			if u != signer && now < x.Amt && !slashOK {
				d.add("x04", sk(st, u), "stake fell from %d to %d by %s of %s", x.Amt, now, msgName(msg), nm(signer))
			}
			if u != signer {
				if a, b := pre.Out[sk(st, u)], post.Out[sk(st, u)]; !a.leq(b) {
					for _, den := range bagDenoms(a) { // reward sums are truncated as a whole: nothing but dust may vanish
						if new(big.Int).Sub(a.get(den), b.get(den)).Cmp(big.NewInt(1)) > 0 {
							d.add("x04", sk(st, u), "outstanding rewards fell from %s to %s by %s of %s", a, b, msgName(msg), nm(signer))
						}
					}
				}
			}
		}
	}
	for _, k := range sortedKeys(pre.Stakers) {
		if k != signer && (post.Stakers[k] == nil || !pre.Stakers[k].Rew.leq(post.Stakers[k].Rew)) {
			d.add("x04", k, "commission rewards fell by %s of %s", msgName(msg), nm(signer))
		}
	}
	for _, k := range sortedKeys(pre.Fund) {
		_, u := splitPk(k)
		if u == signer || chargeOK {
			continue
		}
		lost := Bag{}
		now := post.Fund[k]
		if now == nil {
			now = &FundingSt{Bag{}, Bag{}, Bag{}}
		}
		for _, den := range bagDenoms(pre.Fund[k].Amt) {
			if df := new(big.Int).Sub(pre.Fund[k].Amt.get(den), now.Amt.get(den)); df.Sign() > 0 {
				lost.set(den, df)
			}
		}
		if lost.empty() {
			continue
		}
		if !evictOK || !pre.Bal[u].add(lost).eq(post.Bal[u]) {
			d.add("x04", k, "funds fell by %s through %s of %s and were not returned", lost, msgName(msg), nm(signer))
		}
	}
	s.note("others checked")
	return d.out
}

func sameMoney(a, b *St) bool {
	for k := range a.Bal {
		if b.Bal[k] != nil && !a.Bal[k].eq(b.Bal[k]) {
			return false
		}
	}
	return fmt.Sprint(a.P.raw) == fmt.Sprint(b.P.raw) && len(a.Out) == len(b.Out)
}
