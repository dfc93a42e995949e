package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"
	sdkquery "github.com/cosmos/cosmos-sdk/types/query"

	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	querytypes "github.com/KYVENetwork/chain/x/query/types"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"
)

// ---- X05: queries against the state ------------------------------------------------------------------------

// what a query says about a validator, a pool, a funding: rendered from the answer and from the snapshot alike

func (s *St) totalFunds(p uint64) Bag {
	b := Bag{}
	for _, a := range s.FS[p] {
		if f := s.Fund[pk(p, a)]; f != nil {
			b = b.add(f.Amt)
		}
	}
	return b
}

func (s *St) poolStatus(p uint64) pooltypes.PoolStatus {
	switch s.canRun(p) {
	case "upgrading":
		return pooltypes.POOL_STATUS_UPGRADING
	case "disabled":
		return pooltypes.POOL_STATUS_DISABLED
	case "end key reached":
		return pooltypes.POOL_STATUS_END_KEY_REACHED
	case "below minimum stake":
		return pooltypes.POOL_STATUS_NOT_ENOUGH_DELEGATION
	case "voting power too high":
		return pooltypes.POOL_STATUS_VOTING_POWER_TOO_HIGH
	}
	if s.totalFunds(p).empty() {
		return pooltypes.POOL_STATUS_NO_FUNDS
	}
	return pooltypes.POOL_STATUS_ACTIVE
}

func (s *St) expBasicPool(p uint64) string {
	pl := s.Pools[p]
	total, _ := s.poolStake(p)
	return txt(p, pl.Name, pl.Runtime, pl.Logo, pl.InflationShareWeight, pl.UploadInterval, s.totalFunds(p), total, s.poolStatus(p))
}

func gotBasicPool(p *querytypes.BasicPool) string {
	if p == nil {
		return "nil"
	}
	return txt(p.Id, p.Name, p.Runtime, p.Logo, p.InflationShareWeight, p.UploadInterval, bagOf(p.TotalFunds), p.TotalDelegation, p.Status)
}

func (s *St) stakeOf(st, u string) uint64 {
	if d := s.Del[st]; d != nil && d.D[u] != nil {
		return d.D[u].Amt
	}
	return 0
}

func (s *St) delegators(st string) (l []string) {
	if d := s.Del[st]; d != nil {
		for u := range d.D {
			l = append(l, u)
		}
	}
	sort.Strings(l)
	return
}

func (s *St) expStaker(st string) string {
	x := s.Stakers[st]
	if x == nil {
		return "no such validator"
	}
	selfUnb := big0()
	for _, u := range s.Unb {
		if u.Staker == st && u.Creator == st {
			selfUnb.Add(selfUnb, bigU(u.Amt))
		}
	}
	pend := "none"
	if l := s.CommQ[st]; len(l) > 0 {
		pend = txt(l[len(l)-1].Comm.FloatString(18), " ", l[len(l)-1].Created)
	}
	n := uint64(0)
	if d := s.Del[st]; d != nil {
		n = d.N
	}
	var pools []string
	for _, p := range sortedU(s.Val) {
		v := s.Val[p][st]
		if v == nil {
			continue
		}
		bal := "?"
		if b, ok := s.Bal[v.Addr]; ok {
			bal = b.get(UKYVE).String()
		}
		pools = append(pools, txt("[", s.expBasicPool(p), " ", v.Points, v.Leaving, v.Addr, " ", bal, "]"))
	}
	return txt(st, " ", x.Comm.FloatString(18), x.Meta, " pending ", pend, " rewards ", x.Rew, " self ", s.stakeOf(st, st), " unbonding ", selfUnb, " total ", s.stake(st), " by ", n, pools)
}

func (s *St) gotStaker(f *querytypes.FullStaker) string {
	if f == nil || f.Metadata == nil {
		return "nil"
	}
	m := f.Metadata
	if f.Address == "" && f.TotalDelegation == 0 && len(f.Pools) == 0 {
		return "no such validator" // an empty unbonding may name anybody
	}
	pend := "none"
	if c := m.PendingCommissionChange; c != nil {
		pend = txt(ratDec(c.Commission).FloatString(18), " ", c.CreationDate)
	}
	ps := append([]*querytypes.PoolMembership{}, f.Pools...)
	sort.SliceStable(ps, func(i, j int) bool { return ps[i].Pool.Id < ps[j].Pool.Id })
	var pools []string
	for _, p := range ps {
		bal := "?"
		if _, ok := s.Bal[p.Valaddress]; ok {
			bal = txt(p.Balance)
		}
		pools = append(pools, txt("[", gotBasicPool(p.Pool), " ", p.Points, p.IsLeaving, p.Valaddress, " ", bal, "]"))
	}
	return txt(f.Address, " ", ratDec(m.Commission).FloatString(18), fmt.Sprintf("%q", []string{m.Moniker, m.Website, m.Identity, m.SecurityContact, m.Details}), " pending ", pend,
		" rewards ", bagOf(m.CommissionRewards), " self ", f.SelfDelegation, " unbonding ", f.SelfDelegationUnbonding, " total ", f.TotalDelegation, " by ", f.DelegatorCount, pools)
}

func (s *St) expFunding(p uint64, u string, withScore bool) string {
	f := s.Fund[pk(p, u)]
	sc := ""
	if withScore {
		sc = (&M{St: s}).score(f).String()
	}
	return strings.TrimSpace(txt(p, u, f.Amt, f.Per, f.Total, sc))
}

func gotFunding(f querytypes.Funding) string {
	return txt(f.PoolId, f.FunderAddress, bagOf(f.Amounts), bagOf(f.AmountsPerBundle), bagOf(f.TotalFunded), f.Score)
}

func (s *St) expFunder(u string) string {
	used, alloc, per := Bag{}, Bag{}, Bag{}
	var pools []uint64
	score := big0()
	for _, k := range sortedKeys(s.Fund) {
		p, a := splitPk(k)
		if a != u {
			continue
		}
		f := s.Fund[k]
		used, alloc = used.add(f.Total), alloc.add(f.Amt)
		if !f.Amt.empty() {
			per = per.add(f.Per)
		}
		score.Add(score, (&M{St: s}).score(f))
		pools = append(pools, p)
	}
	sort.Slice(pools, func(i, j int) bool { return pools[i] < pools[j] })
	return txt(u, " ", s.Funders[u], used, alloc, per, pools, score)
}

func gotFunder(f querytypes.Funder) string {
	st := f.Stats
	if st == nil {
		return "nil"
	}
	pools := append([]uint64{}, st.PoolsFunded...)
	sort.Slice(pools, func(i, j int) bool { return pools[i] < pools[j] })
	var ps []uint64
	ps = append(ps, pools...)
	return txt(f.Address, " ", fmt.Sprintf("%q", []string{f.Moniker, f.Identity, f.Website, f.Contact, f.Description}), bagOf(st.TotalUsedFunds), bagOf(st.TotalAllocatedFunds), bagOf(st.TotalAmountPerBundle), ps, st.Score)
}

func expBundle(b *bundlestypes.FinalizedBundle) string {
	return txt(b.PoolId, b.Id, b.StorageId, b.Uploader, b.FromIndex, b.ToIndex, b.FromKey, b.ToKey, b.BundleSummary, b.DataHash, b.FinalizedAt.Height, " ", b.FinalizedAt.Timestamp, b.StorageProviderId, b.CompressionId, b.StakeSecurity.ValidVotePower, b.StakeSecurity.TotalVotePower)
}

func gotBundle(b *querytypes.FinalizedBundle) string {
	if b == nil || b.FinalizedAt == nil || b.FinalizedAt.Height == nil || b.StakeSecurity == nil || b.StakeSecurity.ValidVotePower == nil || b.StakeSecurity.TotalVotePower == nil {
		return txt("incomplete ", b)
	}
	t, err := time.Parse(time.RFC3339, b.FinalizedAt.Timestamp)
	if err != nil {
		return err.Error()
	}
	return txt(b.PoolId, b.Id, b.StorageId, b.Uploader, b.FromIndex, b.ToIndex, b.FromKey, b.ToKey, b.BundleSummary, b.DataHash, b.FinalizedAt.Height, " ", t.Unix(), b.StorageProviderId, b.CompressionId, b.StakeSecurity.ValidVotePower, b.StakeSecurity.TotalVotePower)
}

// ---- paging ---------------------------------------------------------------------------------------------------

type pager struct {
	name    string
	exp     []string // the entries, in any order
	ordered func(got []string) string
	fetch   func(*sdkquery.PageRequest) ([]string, *sdkquery.PageResponse, error)
	array   bool // the list is only paged by multiples of the page size, forwards
	noTotal bool
	rank    map[string]string // rendered entry -> identity
}

func multisetDiff(exp, got []string) string {
	n := map[string]int{}
	for _, x := range exp {
		n[x]++
	}
	for _, x := range got {
		n[x]--
	}
	for _, k := range sortedInts(n) {
		if n[k] > 0 {
			return "missing: " + k
		}
		if n[k] < 0 {
			return "unexpected or repeated: " + k
		}
	}
	return ""
}

// walk reads a list at once and then again page by page; both must return every entry once, in the same order.
func (s *Sim) walk(d *differ, r *Rng, p pager) {
	comp := "query:" + p.name
	call := func(pr *sdkquery.PageRequest) (got []string, res *sdkquery.PageResponse, ok bool) {
		var e error
		if err := guard(func() error { got, res, e = p.fetch(pr); return e }); err != nil {
			d.add(comp, p.name, "page %v: %v", pr, err)
			return nil, nil, false
		}
		return got, res, true
	}
	n := len(p.exp)
	var ref []string
	var ok bool
	var res *sdkquery.PageResponse
	if r.Chance(1, 2) && n <= 100 {
		ref, res, ok = call(nil)
	} else {
		ref, res, ok = call(&sdkquery.PageRequest{Limit: uint64(n) + 1 + r.U(50), CountTotal: true})
	}
	if !ok {
		return
	}
	if x := multisetDiff(p.exp, ref); x != "" {
		d.add(comp, p.name, "%d entries instead of %d: %s", len(ref), n, x)
		return
	}
	if res != nil && res.Total != uint64(n) && !p.noTotal {
		d.add(comp, p.name, "total %d instead of %d", res.Total, n)
	}
	if res != nil && len(res.NextKey) > 0 {
		d.add(comp, p.name, "another page is announced behind the last entry")
	}
	if p.ordered != nil {
		if x := p.ordered(ref); x != "" {
			d.add(comp, p.name, "order: %s", x)
			return
		}
	}
	size := 1 + r.N(n+2)
	if r.Chance(1, 3) {
		size = 1 + r.N(3)
	}
	want := ref
	rev := !p.array && r.Chance(1, 2)
	if rev {
		want = nil
		for i := len(ref) - 1; i >= 0; i-- {
			want = append(want, ref[i])
		}
	}
	same := func(got, exp []string) bool { return strings.Join(got, "\n") == strings.Join(exp, "\n") }
	cut := func(off int) []string {
		if off >= n {
			return nil
		}
		if off+size > n {
			return want[off:]
		}
		return want[off : off+size]
	}
	s.note("pages: " + p.name)
	if !p.array && r.Chance(1, 2) { // by key
		var got []string
		var key []byte
		for i := 0; i < 3*n+5; i++ {
			pr := &sdkquery.PageRequest{Key: key, Limit: uint64(size), Reverse: rev}
			g, res, ok := call(pr)
			if !ok {
				return
			}
			if len(g) > size {
				d.add(comp, p.name, "%d entries on a page of %d", len(g), size)
			}
			got = append(got, g...)
			key = nil
			if res != nil {
				key = res.NextKey
			}
			if len(key) == 0 {
				break
			}
		}
		if len(key) > 0 || !same(got, want) {
			d.add(comp, p.name, "pages of %d by key (reverse %v) give %d entries instead of %d, or another order", size, rev, len(got), n)
		}
		if n > size {
			s.note("several pages by key")
		}
		return
	}
	for off := 0; off < n+2*size; off += size {
		g, res, ok := call(&sdkquery.PageRequest{Offset: uint64(off), Limit: uint64(size), Reverse: rev, CountTotal: true})
		if !ok {
			return
		}
		if !same(g, cut(off)) {
			d.add(comp, p.name, "page of %d at offset %d of %d (reverse %v) has %d entries instead of %d, or others", size, off, n, rev, len(g), len(cut(off)))
			return
		}
		if !p.noTotal && (res == nil || res.Total != uint64(n)) {
			d.add(comp, p.name, "page at offset %d: total instead of %d: %v", off, n, res)
		}
	}
	if n > size {
		s.note("several pages by offset")
	}
	if !p.array {
		off := r.N(n + 3)
		if g, _, ok := call(&sdkquery.PageRequest{Offset: uint64(off), Limit: uint64(size), Reverse: rev}); ok && !same(g, cut(off)) {
			d.add(comp, p.name, "page of %d at offset %d of %d (reverse %v) has %d entries instead of %d, or others", size, off, n, rev, len(g), len(cut(off)))
		}
	}
}

func stateQueries(s *Sim, step string) []Diff {
	if s.steps%4 != 1 {
		return nil
	}
	d := &differ{}
	r := NewRng(uint64(s.steps), uint64(s.cs.cfg("t0", 0)), uint64(s.opIdx), 5)
	for i := 0; i < 3; i++ {
		s.oneQuery(d, r, r.N(16))
	}
	return d.out
}

func nonIncreasing(x func(string) *big.Int) func([]string) string {
	return func(got []string) string {
		for i := 1; i < len(got); i++ {
			if x(got[i-1]).Cmp(x(got[i])) < 0 {
				return fmt.Sprintf("entry %d is smaller than entry %d", i-1, i)
			}
		}
		return ""
	}
}

func (s *Sim) oneQuery(d *differ, r *Rng, which int) {
	st := s.pre
	h := s.query()
	ctx := s.ctx
	qa, qb, qd, qf, qp, qs := querytypes.NewQueryAccountClient(h), querytypes.NewQueryBundlesClient(h), querytypes.NewQueryDelegationClient(h), querytypes.NewQueryFundersClient(h), querytypes.NewQueryPoolClient(h), querytypes.NewQueryStakersClient(h)
	eq := func(comp, key, exp, got string) {
		if exp != got {
			d.add("query:"+comp, key, "expected %s\n got %s", exp, got)
		}
	}
	bad := func(comp, key string, err error) bool {
		if err != nil {
			d.add("query:"+comp, key, "error: %v", err)
			return true
		}
		return false
	}
	user := s.user(r.Arg())
	if r.Chance(1, 3) {
		user = s.anyStaker(r.Arg())
	}
	if len(st.Unb) > 0 && r.Chance(1, 4) {
		user = st.Unb[r.N(len(st.Unb))].Creator
	}
	pool := uint64(0)
	if st.PoolCnt > 0 {
		pool = s.pool(r.Arg())
		if r.Chance(1, 12) {
			pool = st.PoolCnt + r.U(3)
		}
	}
	exists := st.Pools[pool] != nil
	staker := s.anyStaker(r.Arg())
	// order of validators by stake, ties by anything
	byStake := func(l []string) (m map[string]*big.Int) {
		m = map[string]*big.Int{}
		for _, x := range l {
			m[st.expStaker(x)] = bigU(st.stake(x))
		}
		return
	}
	switch which {
	case 0:
		q, err := qa.AccountAssets(ctx, &querytypes.QueryAccountAssetsRequest{Address: user})
		if bad("assets", user, err) {
			return
		}
		del, unb, self, selfUnb := big0(), big0(), st.stakeOf(user, user), big0()
		rew, fund := Bag{}, Bag{}
		for _, x := range sortedKeys(st.Del) {
			if st.Del[x].D[user] != nil {
				del.Add(del, bigU(st.stakeOf(x, user)))
				rew = rew.add(st.Out[sk(x, user)])
			}
		}
		for _, u := range st.Unb {
			if u.Creator == user {
				unb.Add(unb, bigU(u.Amt))
				if u.Staker == user {
					selfUnb.Add(selfUnb, bigU(u.Amt))
				}
			}
		}
		for _, k := range sortedKeys(st.Fund) {
			if _, u := splitPk(k); u == user {
				fund = fund.add(st.Fund[k].Amt)
			}
		}
		bal := s.c.App.BankKeeper.GetBalance(ctx, accOf[user], UKYVE).Amount
		eq("assets", user, txt(bal, self, " ", selfUnb, " ", del, " ", unb, " ", rew, fund), txt(q.Balance, q.ProtocolSelfDelegation, " ", q.ProtocolSelfDelegationUnbonding, " ", q.ProtocolDelegation, " ", q.ProtocolDelegationUnbonding, " ", bagOf(q.ProtocolRewards), bagOf(q.ProtocolFunding)))
		s.note("asked: assets")
	case 1:
		var exp []string
		for _, u := range st.Unb {
			if u.Creator == user {
				exp = append(exp, txt(u.Amt, u.Created, st.expStaker(u.Staker)))
			}
		}
		s.walk(d, r, pager{name: "unbondings", exp: exp, fetch: func(p *sdkquery.PageRequest) (l []string, _ *sdkquery.PageResponse, err error) {
			q, err := qa.AccountDelegationUnbondings(ctx, &querytypes.QueryAccountDelegationUnbondingsRequest{Address: user, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			for _, x := range q.Unbondings {
				l = append(l, txt(x.Amount, x.CreationTime, st.gotStaker(x.Staker)))
			}
			return l, q.Pagination, nil
		}})
	case 2:
		var exp, got []string
		for _, k := range sortedKeys(st.Fund) {
			if p, u := splitPk(k); u == user && !st.Fund[k].Amt.empty() {
				exp = append(exp, txt(st.Fund[k].Amt, st.expBasicPool(p)))
			}
		}
		q, err := qa.AccountFundedList(ctx, &querytypes.QueryAccountFundedListRequest{Address: user})
		if bad("funded", user, err) {
			return
		}
		for _, f := range q.Funded {
			got = append(got, txt(bagOf(f.Amounts), gotBasicPool(f.Pool)))
		}
		if x := multisetDiff(exp, got); x != "" {
			d.add("query:funded", user, "%s", x)
		}
	case 3:
		if len(st.Red) > 0 && r.Chance(3, 4) {
			ks := sortedKeys(st.Red)
			user = ks[r.N(len(ks))]
		}
		q, err := qa.AccountRedelegation(ctx, &querytypes.QueryAccountRedelegationRequest{Address: user})
		if bad("redelegation", user, err) {
			return
		}
		var exp, got []string
		for _, c := range st.Red[user] {
			if uint64(st.T)-c <= st.P.RedCool {
				end := ^uint64(0)
				if x := addU(c, st.P.RedCool); x.IsUint64() {
					end = x.Uint64()
				}
				exp = append(exp, txt(c, end))
			}
		}
		for _, e := range q.RedelegationCooldownEntries {
			got = append(got, txt(e.CreationDate, e.FinishDate))
		}
		if x := multisetDiff(exp, got); x != "" {
			d.add("query:redelegation", user, "%s", x)
		}
		avail := uint64(0)
		if n := uint64(len(exp)); n < st.P.RedMax {
			avail = st.P.RedMax - n
		}
		if q.AvailableSlots != avail {
			d.add("query:redelegation", user, "%d slots available instead of %d", q.AvailableSlots, avail)
		}
		if len(exp) > 0 {
			s.note("asked: redelegation with entries")
		}
	case 4:
		var exp []string
		for i := range st.Fin[pool] {
			exp = append(exp, expBundle(&st.Fin[pool][i]))
		}
		s.walk(d, r, pager{name: "bundles", exp: exp, ordered: func(got []string) string {
			if strings.Join(got, "") != strings.Join(exp, "") {
				return "not by id"
			}
			return ""
		}, fetch: func(p *sdkquery.PageRequest) (l []string, _ *sdkquery.PageResponse, err error) {
			q, err := qb.FinalizedBundlesQuery(ctx, &querytypes.QueryFinalizedBundlesRequest{PoolId: pool, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			for i := range q.FinalizedBundles {
				l = append(l, gotBundle(&q.FinalizedBundles[i]))
			}
			return l, q.Pagination, nil
		}})
		if n := len(exp); n > 0 {
			s.note("asked: bundles")
			for i := 0; i < 3; i++ {
				at := r.N(n)
				b := &st.Fin[pool][at]
				idx := b.FromIndex
				switch r.N(4) {
				case 0:
					idx = b.ToIndex - 1
				case 1:
					idx = b.ToIndex
				case 2:
					idx = b.FromIndex + r.U(int(min(b.ToIndex-b.FromIndex, 1<<30)))
				}
				e := ""
				for j := range st.Fin[pool] {
					if x := &st.Fin[pool][j]; x.FromIndex <= idx && idx < x.ToIndex {
						e = exp[j]
					}
				}
				q, err := qb.FinalizedBundlesQuery(ctx, &querytypes.QueryFinalizedBundlesRequest{PoolId: pool, Index: txt(idx)})
				if bad("bundle by index", txt(idx), err) {
					return
				}
				g := ""
				for i := range q.FinalizedBundles {
					g += gotBundle(&q.FinalizedBundles[i])
				}
				eq("bundle by index", txt(idx), e, g)
			}
		}
	case 5:
		id := r.U(len(st.Fin[pool]) + 1)
		q, err := qb.FinalizedBundleQuery(ctx, &querytypes.QueryFinalizedBundleRequest{PoolId: pool, Id: id})
		if id >= uint64(len(st.Fin[pool])) {
			if err == nil {
				d.add("query:bundle", txt(id), "a bundle that does not exist was found")
			}
		} else if !bad("bundle", txt(id), err) {
			b := &querytypes.FinalizedBundle{PoolId: q.PoolId, Id: q.Id, StorageId: q.StorageId, Uploader: q.Uploader, FromIndex: q.FromIndex, ToIndex: q.ToIndex, FromKey: q.FromKey, ToKey: q.ToKey, BundleSummary: q.BundleSummary, DataHash: q.DataHash, FinalizedAt: q.FinalizedAt, StorageProviderId: q.StorageProviderId, CompressionId: q.CompressionId, StakeSecurity: q.StakeSecurity}
			eq("bundle", txt(id), expBundle(&st.Fin[pool][id]), gotBundle(b))
		}
	case 6:
		q, err := qb.CurrentVoteStatus(ctx, &querytypes.QueryCurrentVoteStatusRequest{PoolId: pool})
		if !exists {
			if err == nil {
				d.add("query:votestatus", txt(pool), "a pool that does not exist was found")
			}
		} else if !bad("votestatus", txt(pool), err) {
			v := st.votes(pool)
			eq("votestatus", txt(pool), txt(v.valid, v.invalid, v.abstain, v.total), txt(q.Valid, q.Invalid, q.Abstain, q.Total))
			if v.valid > 0 {
				s.note("asked: vote status of a proposal")
			}
		}
	case 7:
		q, err := qd.Delegator(ctx, &querytypes.QueryDelegatorRequest{Staker: staker, Delegator: user})
		if !bad("delegator", user, err) {
			out := st.Out[sk(staker, user)]
			eq("delegator", sk(staker, user), txt(staker, user, st.stakeOf(staker, user), out.clone()), txt(q.Delegator.Staker, q.Delegator.Delegator, q.Delegator.DelegationAmount, bagOf(q.Delegator.CurrentRewards)))
		}
	case 8:
		var exp []string
		var total, cnt uint64
		if dd := st.Del[staker]; dd != nil {
			total, cnt = dd.Total, dd.N
		}
		for _, u := range st.delegators(staker) {
			exp = append(exp, txt(staker, u, st.stakeOf(staker, u), st.Out[sk(staker, u)].clone()))
		}
		s.walk(d, r, pager{name: "delegators", exp: exp, fetch: func(p *sdkquery.PageRequest) (l []string, _ *sdkquery.PageResponse, err error) {
			q, err := qd.DelegatorsByStaker(ctx, &querytypes.QueryDelegatorsByStakerRequest{Staker: staker, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			for _, x := range q.Delegators {
				l = append(l, txt(x.Staker, x.Delegator, x.DelegationAmount, bagOf(x.CurrentRewards)))
			}
			if q.TotalDelegation != total || q.TotalDelegatorCount != cnt {
				return nil, nil, fmt.Errorf("total %d by %d instead of %d by %d", q.TotalDelegation, q.TotalDelegatorCount, total, cnt)
			}
			return l, q.Pagination, nil
		}})
	case 9:
		var exp []string
		for _, x := range sortedKeys(st.Del) {
			if st.Del[x].D[user] != nil {
				exp = append(exp, txt(st.expStaker(x), st.stakeOf(x, user), st.Out[sk(x, user)].clone()))
			}
		}
		s.walk(d, r, pager{name: "delegations", exp: exp, fetch: func(p *sdkquery.PageRequest) (l []string, _ *sdkquery.PageResponse, err error) {
			q, err := qd.StakersByDelegator(ctx, &querytypes.QueryStakersByDelegatorRequest{Delegator: user, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			for _, x := range q.Stakers {
				l = append(l, txt(st.gotStaker(x.Staker), x.DelegationAmount, bagOf(x.CurrentRewards)))
			}
			return l, q.Pagination, nil
		}})
	case 10:
		search := []string{"", "", "", "moni", "a", "1", "zz"}[r.N(7)]
		var exp []string
		for _, u := range sortedKeys(st.Funders) {
			if strings.Contains(strings.ToLower(monikerOf(st.Funders[u])), strings.ToLower(search)) {
				exp = append(exp, st.expFunder(u))
			}
		}
		s.walk(d, r, pager{name: "funders", exp: exp, fetch: func(p *sdkquery.PageRequest) (l []string, _ *sdkquery.PageResponse, err error) {
			q, err := qf.Funders(ctx, &querytypes.QueryFundersRequest{Search: search, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			for _, x := range q.Funders {
				l = append(l, gotFunder(x))
			}
			return l, q.Pagination, nil
		}})
	case 11:
		if l := sortedKeys(st.Funders); len(l) > 0 && r.Chance(3, 4) {
			user = l[r.N(len(l))]
		}
		stat := querytypes.FundingStatus(r.N(3))
		var exp []string
		keep := func(f *FundingSt) bool {
			return stat == querytypes.FUNDING_STATUS_UNSPECIFIED || (stat == querytypes.FUNDING_STATUS_ACTIVE) == !f.Amt.empty()
		}
		for _, k := range sortedKeys(st.Fund) {
			if p, u := splitPk(k); u == user && keep(st.Fund[k]) {
				exp = append(exp, st.expFunding(p, u, true))
			}
		}
		q, err := qf.Funder(ctx, &querytypes.QueryFunderRequest{Address: user, Status: stat})
		if _, ok := st.Funders[user]; !ok {
			if err == nil {
				d.add("query:funder", user, "a funder that does not exist was found")
			}
		} else if !bad("funder", user, err) {
			eq("funder", user, st.expFunder(user), gotFunder(*q.Funder))
			var got []string
			for _, f := range q.Fundings {
				got = append(got, gotFunding(f))
			}
			if x := multisetDiff(exp, got); x != "" {
				d.add("query:funder", user, "fundings of status %s: %s", stat, x)
			}
		}
		s.walk(d, r, pager{name: "fundings by funder", exp: exp, fetch: func(p *sdkquery.PageRequest) (l []string, _ *sdkquery.PageResponse, err error) {
			q, err := qf.FundingsByFunder(ctx, &querytypes.QueryFundingsByFunderRequest{Address: user, Status: stat, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			for _, x := range q.Fundings {
				l = append(l, gotFunding(x))
			}
			return l, q.Pagination, nil
		}})
		var expP []string
		for _, k := range sortedKeys(st.Fund) {
			if p, u := splitPk(k); p == pool && keep(st.Fund[k]) {
				expP = append(expP, st.expFunding(p, u, true))
			}
		}
		s.walk(d, r, pager{name: "fundings by pool", exp: expP, fetch: func(p *sdkquery.PageRequest) (l []string, _ *sdkquery.PageResponse, err error) {
			q, err := qf.FundingsByPool(ctx, &querytypes.QueryFundingsByPoolRequest{PoolId: pool, Status: stat, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			for _, x := range q.Fundings {
				l = append(l, gotFunding(x))
			}
			return l, q.Pagination, nil
		}})
	case 12:
		expPool := func(p uint64) string {
			pl := st.Pools[p]
			total, _ := st.poolStake(p)
			self := big0()
			for _, m := range st.members(p) {
				self.Add(self, bigU(st.stakeOf(m, m)))
			}
			var fs []string
			for _, k := range sortedKeys(st.Fund) {
				if x, u := splitPk(k); x == p {
					fs = append(fs, st.expFunding(p, u, false))
				}
			}
			sort.Strings(fs)
			return txt(p, pl.String(), st.prop(p).String(), st.members(p), self, " ", total, st.poolStatus(p), poolAddr(p), st.Bal[fmt.Sprintf("pool:%d", p)].get(UKYVE), fs)
		}
		gotPool := func(q querytypes.PoolResponse) string {
			pl := *q.Data
			if pl.Protocol == nil {
				pl.Protocol = &pooltypes.Protocol{}
			}
			if pl.UpgradePlan == nil {
				pl.UpgradePlan = &pooltypes.UpgradePlan{}
			}
			var fs []string
			for _, f := range q.Fundings {
				fs = append(fs, txt(f.PoolId, f.FunderAddress, bagOf(f.Amounts), bagOf(f.AmountsPerBundle), bagOf(f.TotalFunded)))
			}
			sort.Strings(fs)
			mem := append([]string{}, q.Stakers...)
			sort.Strings(mem)
			return txt(q.Id, pl.String(), q.BundleProposal.String(), mem, q.TotalSelfDelegation, " ", q.TotalDelegation, q.Status, q.Account, q.AccountBalance, fs)
		}
		q, err := qp.Pool(ctx, &querytypes.QueryPoolRequest{Id: pool})
		if !exists {
			if err == nil {
				d.add("query:pool", txt(pool), "a pool that does not exist was found")
			}
		} else if !bad("pool", txt(pool), err) {
			eq("pool", txt(pool), expPool(pool), gotPool(q.Pool))
		}
		req := querytypes.QueryPoolsRequest{Disabled: r.Chance(1, 3)}
		if exists {
			switch r.N(6) {
			case 0:
				req.Search = strings.ToUpper(st.Pools[pool].Name)
			case 1:
				req.Runtime = st.Pools[pool].Runtime
			case 2:
				req.StorageProviderId = st.Pools[pool].CurrentStorageProviderId
			case 3:
				req.Search, req.Runtime = st.Pools[pool].Name, "other"
			}
		}
		var exp []string
		for _, p := range sortedU(st.Pools) {
			pl := st.Pools[p]
			if pl.Disabled == req.Disabled && (req.Runtime == "" || req.Runtime == pl.Runtime) && (req.StorageProviderId == 0 || req.StorageProviderId == pl.CurrentStorageProviderId) &&
				strings.Contains(strings.ToLower(pl.Name), strings.ToLower(req.Search)) {
				exp = append(exp, expPool(p))
			}
		}
		s.walk(d, r, pager{name: "pools", exp: exp, ordered: func(got []string) string {
			if strings.Join(got, "") != strings.Join(exp, "") {
				return "not by id"
			}
			return ""
		}, fetch: func(p *sdkquery.PageRequest) (l []string, _ *sdkquery.PageResponse, err error) {
			rq := req
			rq.Pagination = p
			q, err := qp.Pools(ctx, &rq)
			if err != nil {
				return nil, nil, err
			}
			for _, x := range q.Pools {
				l = append(l, gotPool(x))
			}
			return l, q.Pagination, nil
		}})
	case 13:
		stat := querytypes.StakerStatus(r.N(3))
		search := ""
		if len(st.Stakers) > 0 && r.Chance(1, 3) {
			x := sortedKeys(st.Stakers)[r.N(len(st.Stakers))]
			search = []string{x, strings.ToUpper(x[20:]), x[30:33], monikerOf(st.Stakers[x].Meta)}[r.N(4)]
		}
		var ids, exp []string
		for _, x := range sortedKeys(st.Stakers) {
			active := false
			for _, m := range st.Val {
				active = active || m[x] != nil
			}
			if (stat == querytypes.STAKER_STATUS_ACTIVE && !active) || (stat == querytypes.STAKER_STATUS_INACTIVE && active) {
				continue
			}
			if lo := strings.ToLower(search); !strings.Contains(strings.ToLower(x), lo) && !strings.Contains(strings.ToLower(monikerOf(st.Stakers[x].Meta)), lo) {
				continue
			}
			ids = append(ids, x)
			exp = append(exp, st.expStaker(x))
		}
		w := byStake(ids)
		s.walk(d, r, pager{name: "stakers " + stat.String(), exp: exp, array: stat == querytypes.STAKER_STATUS_ACTIVE, ordered: nonIncreasing(func(x string) *big.Int { return w[x] }), fetch: func(p *sdkquery.PageRequest) (l []string, _ *sdkquery.PageResponse, err error) {
			q, err := qs.Stakers(ctx, &querytypes.QueryStakersRequest{Status: stat, Search: search, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			for i := range q.Stakers {
				l = append(l, st.gotStaker(&q.Stakers[i]))
			}
			return l, q.Pagination, nil
		}})
		q, err := qs.Staker(ctx, &querytypes.QueryStakerRequest{Address: staker})
		if st.Stakers[staker] == nil {
			if err == nil {
				d.add("query:staker", staker, "a validator that does not exist was found")
			}
		} else if !bad("staker", staker, err) {
			eq("staker", staker, st.expStaker(staker), st.gotStaker(&q.Staker))
		}
	case 14:
		q, err := qs.StakersByPool(ctx, &querytypes.QueryStakersByPoolRequest{PoolId: pool})
		if !exists {
			if err == nil {
				d.add("query:stakersbypool", txt(pool), "a pool that does not exist was found")
			}
		} else if !bad("stakersbypool", txt(pool), err) {
			var exp, got []string
			for _, m := range st.members(pool) {
				v := st.Val[pool][m]
				exp = append(exp, txt(st.expStaker(m), pool, m, v.Addr, v.Points, v.Leaving))
			}
			for _, x := range q.Stakers {
				v := x.Valaccount
				got = append(got, txt(st.gotStaker(x.Staker), v.PoolId, v.Staker, v.Valaddress, v.Points, v.IsLeaving))
			}
			if x := multisetDiff(exp, got); x != "" {
				d.add("query:stakersbypool", txt(pool), "%s", x)
			}
		}
		var exp []string
		w := map[string]*big.Int{}
		for _, x := range sortedKeys(st.Stakers) {
			n := int64(0)
			for _, m := range st.Val {
				if m[x] != nil {
					n++
				}
			}
			if n > 0 {
				e := st.expStaker(x)
				exp = append(exp, e)
				w[e] = new(big.Int).Add(new(big.Int).Lsh(big.NewInt(n), 64), bigU(st.stake(x)))
			}
		}
		s.walk(d, r, pager{name: "stakers by pool count", exp: exp, array: true, ordered: nonIncreasing(func(x string) *big.Int { return w[x] }), fetch: func(p *sdkquery.PageRequest) (l []string, _ *sdkquery.PageResponse, err error) {
			q, err := qs.StakersByPoolCount(ctx, &querytypes.QueryStakersByPoolCountRequest{Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			for i := range q.Stakers {
				l = append(l, st.gotStaker(&q.Stakers[i]))
			}
			return l, q.Pagination, nil
		}})
	case 15:
		s.teamQueries(d, r)
		q, err := querytypes.NewQueryParamsClient(h).Params(ctx, &querytypes.QueryParamsRequest{})
		if !bad("params", "", err) {
			eq("params", "", st.P.raw, txt(q.BundlesParams.String(), q.DelegationParams.String(), q.StakersParams.String(), q.PoolParams.String(), q.FundersParams.String(), q.GlobalParams.String()))
		}
	}
}

func monikerOf(meta string) string {
	var m string
	fmt.Sscanf(strings.TrimPrefix(meta, "["), "%q", &m)
	return m
}

// ---- team queries (X05) and the vesting schedule (T01) -------------------------------------------------------

func (s *Sim) teamQueries(d *differ, r *Rng) {
	st := s.pre
	q := teamtypes.NewQueryClient(s.query())
	info, err := q.TeamInfo(s.ctx, &teamtypes.QueryTeamInfoRequest{})
	if err != nil {
		d.add("query:team", "info", "error: %v", err)
		return
	}
	tot, cl := big0(), big0()
	for _, a := range st.TeamA {
		tot.Add(tot, bigU(a.TotalRewards))
		cl.Add(cl, bigU(a.RewardsClaimed))
	}
	iss := st.issued()
	exp := txt(uint64(teamtypes.TEAM_ALLOCATION), " ", iss, " ", new(big.Int).Sub(bigU(teamtypes.TEAM_ALLOCATION), iss), " ", st.Auth.TotalRewards, " ", st.Auth.RewardsClaimed, " ", st.Auth.TotalRewards-st.Auth.RewardsClaimed, " ", tot, " ", cl, " ", new(big.Int).Sub(tot, cl), " ", st.teamOwed(), " ", st.Bal[kTeam].get(UKYVE))
	got := txt(info.TotalTeamAllocation, " ", info.IssuedTeamAllocation, " ", info.AvailableTeamAllocation, " ", info.TotalAuthorityRewards, " ", info.ClaimedAuthorityRewards, " ", info.AvailableAuthorityRewards, " ", info.TotalAccountRewards, " ", info.ClaimedAccountRewards, " ", info.AvailableAccountRewards, " ", info.RequiredModuleBalance, " ", info.TeamModuleBalance)
	if exp != got {
		d.add("query:team", "info", "expected %s\n got %s", exp, got)
	}
	l, err := q.TeamVestingAccounts(s.ctx, &teamtypes.QueryTeamVestingAccountsRequest{})
	if err != nil {
		d.add("query:team", "accounts", "error: %v", err)
		return
	}
	var e, g []string
	for _, a := range st.TeamA {
		e = append(e, a.String())
	}
	for _, a := range l.Accounts {
		g = append(g, a.String())
	}
	if x := multisetDiff(e, g); x != "" {
		d.add("query:team", "accounts", "%s", x)
	}
	id := r.U(int(st.TeamCnt) + 1)
	a, err := q.TeamVestingAccount(s.ctx, &teamtypes.QueryTeamVestingAccountRequest{Id: id})
	if x := st.TeamA[id]; x == nil {
		if err == nil {
			d.add("query:team", txt(id), "an account that does not exist was found")
		}
	} else if err != nil || a.Account.String() != x.String() {
		d.add("query:team", txt(id), "expected %s, got %v %v", x, a, err)
	}
}

// vestingSchedule compares the reported status of an account with the published schedule at generated times.
func vestingSchedule(s *Sim, step string) []Diff {
	st := s.pre
	if s.steps%3 != 0 || len(st.TeamA) == 0 {
		return nil
	}
	d := &differ{}
	r := NewRng(uint64(s.steps), uint64(s.cs.cfg("t0", 0)), uint64(s.opIdx), 6)
	ids := sortedU(st.TeamA)
	a := st.TeamA[ids[r.N(len(ids))]]
	q := teamtypes.NewQueryClient(s.query())
	start := a.Commencement
	if start < teamtypes.TGE {
		start = teamtypes.TGE
	}
	start += cliffSec
	marks := []uint64{a.Commencement, a.Commencement + cliffSec, a.Commencement + vestSec, start, start + unlkSec, uint64(st.T), teamtypes.TGE, a.Clawback}
	var ts []uint64
	for i := 0; i < 6; i++ {
		t := marks[r.N(len(marks))]
		switch r.N(4) {
		case 0:
			t += r.U(3)
			if t > 0 {
				t--
			}
		case 1:
			t += r.U(int(vestSec))
		case 2:
			t = a.Commencement + r.U(int(4*vestSec/2))
		}
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
	var lastV, lastU, lastC uint64
	for _, t := range ts {
		x, err := q.TeamVestingStatusByTime(s.ctx, &teamtypes.QueryTeamVestingStatusByTimeRequest{Id: a.Id, Time: t})
		if err != nil {
			d.add("schedule", txt(a.Id), "error at %d: %v", t, err)
			return d.out
		}
		v, u := vested(a, t), unlocked(a, t)
		c := uint64(0)
		if u > a.UnlockedClaimed {
			c = u - a.UnlockedClaimed
		}
		y := x.Status
		rel := fmt.Sprintf("commencement %+d, clawback %d", int64(t-a.Commencement), int64(a.Clawback)-int64(a.Commencement))
		if a.Clawback == 0 {
			rel = fmt.Sprintf("commencement %+d", int64(t-a.Commencement))
		}
		if y.TotalVestedAmount != v || y.TotalUnlockedAmount != u || y.CurrentClaimableAmount != c || y.LockedVestedAmount != v-u || y.RemainingUnvestedAmount != vestMax(a)-v {
			d.add("schedule", txt(a.Id), "at %s of allocation %d with %d claimed: vested %d, unlocked %d, claimable %d expected; got %d, %d, %d (locked %d, unvested %d)", rel, a.TotalAllocation, a.UnlockedClaimed, v, u, c, y.TotalVestedAmount, y.TotalUnlockedAmount, y.CurrentClaimableAmount, y.LockedVestedAmount, y.RemainingUnvestedAmount)
		}
		if y.ClaimedAmount != a.UnlockedClaimed || y.TotalRewards != a.TotalRewards || y.ClaimedRewards != a.RewardsClaimed || y.AvailableRewards != a.TotalRewards-a.RewardsClaimed {
			d.add("schedule", txt(a.Id), "claimed and rewards %v do not match the account %v", y, a)
		}
		// invariants that need no formula
		if y.TotalUnlockedAmount > y.TotalVestedAmount || y.TotalVestedAmount > a.TotalAllocation {
			d.add("schedule", txt(a.Id), "at %s: unlocked %d, vested %d, allocation %d", rel, y.TotalUnlockedAmount, y.TotalVestedAmount, a.TotalAllocation)
		}
		if y.TotalVestedAmount < lastV || y.TotalUnlockedAmount < lastU || y.CurrentClaimableAmount < lastC {
			d.add("schedule", txt(a.Id), "at %s: vested, unlocked or claimable decreased", rel)
		}
		lastV, lastU, lastC = y.TotalVestedAmount, y.TotalUnlockedAmount, y.CurrentClaimableAmount
		switch {
		case v == 0:
			s.note("schedule: before the cliff")
		case a.Clawback > 0 && t > a.Clawback:
			s.note("schedule: after a clawback")
		case v == a.TotalAllocation:
			s.note("schedule: fully vested")
		default:
			s.note("schedule: vesting")
		}
		if u > 0 && u < v {
			s.note("schedule: partly unlocked")
		}
	}
	now, err := q.TeamVestingStatus(s.ctx, &teamtypes.QueryTeamVestingStatusRequest{Id: a.Id})
	if err != nil || now.Status.TotalVestedAmount != vested(a, uint64(st.T)) || now.Status.TotalUnlockedAmount != unlocked(a, uint64(st.T)) {
		d.add("schedule", txt(a.Id), "current status %v %v", now, err)
	} else if p := now.Plan; p.MaximumVestingAmount != vestMax(a) || p.ClawbackAmount != a.TotalAllocation-vestMax(a) || p.Clawback != a.Clawback ||
		p.TokenVestingStart != time.Unix(int64(a.Commencement+cliffSec), 0).String() || p.TokenVestingFinished != time.Unix(int64(a.Commencement+vestSec), 0).String() ||
		p.TokenUnlockStart != time.Unix(int64(start), 0).String() || p.TokenUnlockFinished != time.Unix(int64(start+unlkSec), 0).String() {
		d.add("schedule", txt(a.Id), "plan %v does not match the account %v", p, a)
	}
	return d.out
}

var _ = sdk.Coins{}
var _ = funderstypes.ModuleName

// txt renders its arguments with a separator between all of them.
func txt(x ...any) string {
	s := fmt.Sprintln(x...)
	return s[:len(s)-1]
}
