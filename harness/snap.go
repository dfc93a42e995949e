package main

import (
	"fmt"
	"math/big"
	"sort"

	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	distrtypes "github.com/cosmos/cosmos-sdk/x/distribution/types"

	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"
)

// ---- plain-Go view of the chain state -------------------------------------------------------

// Bag is a multiset of coins; zero entries are never stored.
type Bag map[string]*big.Int

func bagOf(cs sdk.Coins) Bag {
	b := Bag{}
	for _, c := range cs {
		if !c.Amount.IsZero() {
			b[c.Denom] = new(big.Int).Set(c.Amount.BigInt())
		}
	}
	return b
}
func bag1(d string, x *big.Int) Bag {
	b := Bag{}
	if x.Sign() != 0 {
		b[d] = new(big.Int).Set(x)
	}
	return b
}
func bagU(d string, x uint64) Bag { return bag1(d, new(big.Int).SetUint64(x)) }
func (b Bag) clone() Bag {
	r := Bag{}
	for k, v := range b {
		r[k] = new(big.Int).Set(v)
	}
	return r
}
func (b Bag) get(d string) *big.Int {
	if v, ok := b[d]; ok {
		return v
	}
	return new(big.Int)
}
func (b Bag) set(d string, v *big.Int) {
	if v.Sign() == 0 {
		delete(b, d)
	} else {
		b[d] = v
	}
}
func (b Bag) add(o Bag) Bag {
	r := b.clone()
	for k, v := range o {
		r.set(k, new(big.Int).Add(r.get(k), v))
	}
	return r
}
func (b Bag) sub(o Bag) Bag {
	r := b.clone()
	for k, v := range o {
		r.set(k, new(big.Int).Sub(r.get(k), v))
	}
	return r
}
func (b Bag) min(o Bag) Bag {
	r := Bag{}
	for k, v := range b {
		w := o.get(k)
		if w.Cmp(v) < 0 {
			v = w
		}
		r.set(k, new(big.Int).Set(v))
	}
	return r
}
func (b Bag) neg() bool {
	for _, v := range b {
		if v.Sign() < 0 {
			return true
		}
	}
	return false
}
func (b Bag) leq(o Bag) bool {
	for k, v := range b {
		if v.Cmp(o.get(k)) > 0 {
			return false
		}
	}
	return true
}
func (b Bag) empty() bool { return len(b) == 0 }
func (b Bag) eq(o Bag) bool {
	if len(b) != len(o) {
		return false
	}
	for k, v := range b {
		w, ok := o[k]
		if !ok || v.Cmp(w) != 0 {
			return false
		}
	}
	return true
}
func (b Bag) within(o Bag, tol int64) bool {
	for _, d := range bagDenoms(b, o) {
		x := new(big.Int).Sub(b.get(d), o.get(d))
		if x.Abs(x).Cmp(big.NewInt(tol)) > 0 {
			return false
		}
	}
	return true
}
func bagDenoms(bs ...Bag) []string {
	m := map[string]bool{}
	for _, b := range bs {
		for k := range b {
			m[k] = true
		}
	}
	return sortedKeys(m)
}
func (b Bag) coins() sdk.Coins {
	cs := sdk.NewCoins()
	for k, v := range b {
		cs = cs.Add(sdk.NewCoin(k, intOf(v)))
	}
	return cs
}
func (b Bag) String() string {
	s := "{"
	for _, d := range bagDenoms(b) {
		s += fmt.Sprintf("%s:%s ", d, b[d])
	}
	return s + "}"
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
func sortedU[V any](m map[uint64]V) []uint64 {
	ks := make([]uint64, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

type StakerSt struct {
	Comm *big.Rat
	Meta string
	Rew  Bag
}
type ValSt struct {
	Addr    string
	Points  uint64
	Leaving bool
}
type DelSt struct {
	Lo, Hi *big.Rat // bounds of the (possibly fractional) current stake; equal and integral when known
	Amt    uint64   // floor as reported
}
type DelData struct {
	Total uint64
	N     uint64
	D     map[string]*DelSt
}
type UnbSt struct {
	Idx             uint64
	Staker, Creator string
	Amt, Created    uint64
}
type CommEntry struct {
	Comm    *big.Rat
	Created int64
}
type FundingSt struct {
	Amt, Per, Total Bag
}
type WLEntry struct {
	Denom          string
	Dec            uint32
	MinAmt, MinPer *big.Int
	W              *big.Rat
}
type Prm struct {
	UploadTimeout, MaxPoints             uint64
	NetFee                               *big.Rat
	Storage                              []bundlestypes.StorageCost
	Unbond, RedCool, RedMax              uint64
	VoteSlash, UploadSlash, TimeoutSlash *big.Rat
	CommTime, LeaveTime                  uint64
	InflShare, PayoutRate, MaxVP         *big.Rat
	WL                                   []WLEntry
	FundMult                             uint64
	MinGasPrice, BurnRatio               *big.Rat
	raw                                  string
}

// St is everything the properties talk about.
type St struct {
	T, H    int64
	P       Prm
	Stakers map[string]*StakerSt
	Val     map[uint64]map[string]*ValSt // pool -> staker -> valaccount
	Count   map[uint64]uint64
	CommQ   map[string][]CommEntry
	LeaveQ  map[string][]int64 // "pool|staker" -> creation dates
	Del     map[string]*DelData
	Out     map[string]Bag // "staker|delegator" -> outstanding rewards
	Unb     []UnbSt
	Red     map[string][]uint64
	Pools   map[uint64]*pooltypes.Pool
	PoolCnt uint64
	FS      map[uint64][]string
	Fund    map[string]*FundingSt // "pool|funder"
	Funders map[string]string
	Prop    map[uint64]*bundlestypes.BundleProposal
	Fin     map[uint64][]bundlestypes.FinalizedBundle
	TeamA   map[uint64]*teamtypes.TeamVestingAccount
	TeamCnt uint64
	Auth    teamtypes.Authority
	Bal     map[string]Bag
	Supply  Bag
	Comm    map[string]*big.Rat // community pool
	Plan    string              // pending upgrade plan (emergency halt marker)
}

var modNames = []string{
	delegationtypes.ModuleName, stakerstypes.ModuleName, funderstypes.ModuleName, pooltypes.ModuleName,
	bundlestypes.ModuleName, teamtypes.ModuleName, distrtypes.ModuleName, authtypes.FeeCollectorName, "mint", "gov",
}

func modAddr(n string) string { return authtypes.NewModuleAddress(n).String() }
func poolAddr(id uint64) string {
	return authtypes.NewModuleAddress(fmt.Sprintf("pool/%d", id)).String()
}

func pk(p uint64, a string) string { return fmt.Sprintf("%d|%s", p, a) }
func sk(a, b string) string        { return a + "|" + b }

func ratDec(d interface{ BigInt() *big.Int }) *big.Rat {
	b := d.BigInt()
	if b == nil {
		return new(big.Rat)
	}
	return new(big.Rat).SetFrac(b, ten18)
}

var ten18 = new(big.Int).Exp(big.NewInt(10), big.NewInt(18), nil)

func (c *Chain) ReadParams(ctx sdk.Context) Prm {
	a := c.App
	b := a.BundlesKeeper.GetParams(ctx)
	d := a.DelegationKeeper.GetParams(ctx)
	s := a.StakersKeeper.GetParams(ctx)
	p := a.PoolKeeper.GetParams(ctx)
	f := a.FundersKeeper.GetParams(ctx)
	g := a.GlobalKeeper.GetParams(ctx)
	r := Prm{
		UploadTimeout: b.UploadTimeout, MaxPoints: b.MaxPoints, NetFee: ratDec(b.NetworkFee), Storage: b.StorageCosts,
		Unbond: d.UnbondingDelegationTime, RedCool: d.RedelegationCooldown, RedMax: d.RedelegationMaxAmount,
		VoteSlash: ratDec(d.VoteSlash), UploadSlash: ratDec(d.UploadSlash), TimeoutSlash: ratDec(d.TimeoutSlash),
		CommTime: s.CommissionChangeTime, LeaveTime: s.LeavePoolTime,
		InflShare: ratDec(p.ProtocolInflationShare), PayoutRate: ratDec(p.PoolInflationPayoutRate), MaxVP: ratDec(p.MaxVotingPowerPerPool),
		FundMult: f.MinFundingMultiple, MinGasPrice: ratDec(g.MinGasPrice), BurnRatio: ratDec(g.BurnRatio),
	}
	for _, e := range f.CoinWhitelist {
		r.WL = append(r.WL, WLEntry{e.CoinDenom, e.CoinDecimals, e.MinFundingAmount.BigInt(), e.MinFundingAmountPerBundle.BigInt(), ratDec(e.CoinWeight)})
	}
	r.raw = txt(b.String(), d.String(), s.String(), p.String(), f.String(), g.String())
	return r
}

func (c *Chain) ReadAddr(ctx sdk.Context, addr sdk.AccAddress) Bag {
	return bagOf(c.App.BankKeeper.GetAllBalances(ctx, addr))
}

// Snap reads the complete state through the keepers' public getters.
func (c *Chain) Snap(ctx sdk.Context, extra bool) *St {
	a := c.App
	s := &St{T: ctx.BlockTime().Unix(), H: ctx.BlockHeight(), P: c.ReadParams(ctx),
		Stakers: map[string]*StakerSt{}, Val: map[uint64]map[string]*ValSt{}, Count: map[uint64]uint64{},
		CommQ: map[string][]CommEntry{}, LeaveQ: map[string][]int64{}, Del: map[string]*DelData{}, Out: map[string]Bag{},
		Red: map[string][]uint64{}, Pools: map[uint64]*pooltypes.Pool{}, FS: map[uint64][]string{}, Fund: map[string]*FundingSt{},
		Funders: map[string]string{}, Prop: map[uint64]*bundlestypes.BundleProposal{}, Fin: map[uint64][]bundlestypes.FinalizedBundle{},
		TeamA: map[uint64]*teamtypes.TeamVestingAccount{}, Bal: map[string]Bag{}, Comm: map[string]*big.Rat{},
	}
	for _, x := range a.StakersKeeper.GetAllStakers(ctx) {
		s.Stakers[x.Address] = &StakerSt{Comm: ratDec(x.Commission), Meta: fmt.Sprintf("%q", []string{x.Moniker, x.Website, x.Identity, x.SecurityContact, x.Details}), Rew: bagOf(x.CommissionRewards)}
	}
	for _, x := range a.StakersKeeper.GetAllValaccounts(ctx) {
		if s.Val[x.PoolId] == nil {
			s.Val[x.PoolId] = map[string]*ValSt{}
		}
		s.Val[x.PoolId][x.Staker] = &ValSt{x.Valaddress, x.Points, x.IsLeaving}
	}
	for _, x := range a.StakersKeeper.GetAllCommissionChangeEntries(ctx) {
		s.CommQ[x.Staker] = append(s.CommQ[x.Staker], CommEntry{ratDec(x.Commission), x.CreationDate})
	}
	for _, x := range a.StakersKeeper.GetAllLeavePoolEntries(ctx) {
		k := pk(x.PoolId, x.Staker)
		s.LeaveQ[k] = append(s.LeaveQ[k], x.CreationDate)
	}
	for _, x := range a.DelegationKeeper.GetAllDelegationData(ctx) {
		s.Del[x.Staker] = &DelData{Total: x.TotalDelegation, N: x.DelegatorCount, D: map[string]*DelSt{}}
	}
	for _, x := range a.DelegationKeeper.GetAllDelegators(ctx) {
		dd := s.Del[x.Staker]
		if dd == nil {
			dd = &DelData{D: map[string]*DelSt{}}
			s.Del[x.Staker] = dd
		}
		amt := a.DelegationKeeper.GetDelegationAmountOfDelegator(ctx, x.Staker, x.Delegator)
		r := new(big.Rat).SetInt(new(big.Int).SetUint64(amt))
		dd.D[x.Delegator] = &DelSt{Lo: r, Hi: r, Amt: amt}
		s.Out[sk(x.Staker, x.Delegator)] = bagOf(a.DelegationKeeper.GetOutstandingRewards(ctx, x.Staker, x.Delegator))
	}
	for _, x := range a.DelegationKeeper.GetAllUnbondingDelegationQueueEntries(ctx) {
		s.Unb = append(s.Unb, UnbSt{x.Index, x.Staker, x.Delegator, x.Amount, x.CreationTime})
	}
	sort.Slice(s.Unb, func(i, j int) bool { return s.Unb[i].Idx < s.Unb[j].Idx })
	for _, x := range a.DelegationKeeper.GetAllRedelegationCooldownEntries(ctx) {
		s.Red[x.Address] = append(s.Red[x.Address], x.CreationDate)
	}
	for _, l := range s.Red {
		sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	}
	s.PoolCnt = a.PoolKeeper.GetPoolCount(ctx)
	for _, p := range a.PoolKeeper.GetAllPools(ctx) {
		q := p
		if q.Protocol == nil {
			q.Protocol = &pooltypes.Protocol{}
		}
		if q.UpgradePlan == nil {
			q.UpgradePlan = &pooltypes.UpgradePlan{}
		}
		s.Pools[p.Id] = &q
		s.Count[p.Id] = a.StakersKeeper.GetStakerCountOfPool(ctx, p.Id)
	}
	for _, x := range a.FundersKeeper.GetAllFunders(ctx) {
		s.Funders[x.Address] = fmt.Sprintf("%q", []string{x.Moniker, x.Identity, x.Website, x.Contact, x.Description})
	}
	for _, x := range a.FundersKeeper.GetAllFundings(ctx) {
		s.Fund[pk(x.PoolId, x.FunderAddress)] = &FundingSt{bagOf(x.Amounts), bagOf(x.AmountsPerBundle), bagOf(x.TotalFunded)}
	}
	for _, x := range a.FundersKeeper.GetAllFundingStates(ctx) {
		s.FS[x.PoolId] = append([]string{}, x.ActiveFunderAddresses...)
	}
	for _, x := range a.BundlesKeeper.GetAllBundleProposals(ctx) {
		q := x
		s.Prop[x.PoolId] = &q
	}
	for _, x := range a.BundlesKeeper.GetAllFinalizedBundles(ctx) {
		s.Fin[x.PoolId] = append(s.Fin[x.PoolId], x)
	}
	for _, l := range s.Fin {
		sort.Slice(l, func(i, j int) bool { return l[i].Id < l[j].Id })
	}
	for _, x := range a.TeamKeeper.GetTeamVestingAccounts(ctx) {
		q := x
		s.TeamA[x.Id] = &q
	}
	s.TeamCnt = a.TeamKeeper.GetTeamVestingAccountCount(ctx)
	s.Auth = a.TeamKeeper.GetAuthority(ctx)
	for _, m := range modNames {
		s.Bal["mod:"+m] = c.ReadAddr(ctx, authtypes.NewModuleAddress(m))
	}
	for id := range s.Pools {
		s.Bal[fmt.Sprintf("pool:%d", id)] = c.ReadAddr(ctx, authtypes.NewModuleAddress(fmt.Sprintf("pool/%d", id)))
	}
	for _, u := range users[:c.nAct] { // the accounts that can act in this case, and one bystander
		s.Bal[u] = c.ReadAddr(ctx, accOf[u])
	}
	for _, u := range vaddrs { // protocol addresses only ever hold the native coin
		s.Bal[u] = bag1(UKYVE, a.BankKeeper.GetBalance(ctx, accOf[u], UKYVE).Amount.BigInt())
	}
	s.Bal[foundry] = c.ReadAddr(ctx, accOf[foundry])
	s.Bal[bcp] = c.ReadAddr(ctx, accOf[bcp])
	if extra {
		for _, u := range extras {
			s.Bal[u] = c.ReadAddr(ctx, accOf[u])
		}
	}
	s.Supply = Bag{}
	for _, d := range AllDens {
		s.Supply.set(d, a.BankKeeper.GetSupply(ctx, d).Amount.BigInt())
	}
	fp, err := a.DistributionKeeper.FeePool.Get(ctx)
	if err == nil {
		for _, x := range fp.CommunityPool {
			s.Comm[x.Denom] = ratDec(x.Amount)
		}
	}
	if p, err := a.UpgradeKeeper.GetUpgradePlan(ctx); err == nil {
		s.Plan = p.Name + ": " + p.Info
	}
	return s
}

func cloneDel(m map[string]*DelData) map[string]*DelData {
	r := map[string]*DelData{}
	for k, v := range m {
		w := &DelData{v.Total, v.N, map[string]*DelSt{}}
		for d, x := range v.D {
			y := *x
			w.D[d] = &y
		}
		r[k] = w
	}
	return r
}

// Clone copies a state deeply enough for the model to mutate it (big numbers are never mutated in place).
func (s *St) Clone() *St {
	r := *s
	r.Stakers = map[string]*StakerSt{}
	for k, v := range s.Stakers {
		w := *v
		r.Stakers[k] = &w
	}
	r.Val = map[uint64]map[string]*ValSt{}
	for p, m := range s.Val {
		r.Val[p] = map[string]*ValSt{}
		for k, v := range m {
			w := *v
			r.Val[p][k] = &w
		}
	}
	r.Count = cpU(s.Count)
	r.CommQ = map[string][]CommEntry{}
	for k, v := range s.CommQ {
		r.CommQ[k] = append([]CommEntry{}, v...)
	}
	r.LeaveQ = map[string][]int64{}
	for k, v := range s.LeaveQ {
		r.LeaveQ[k] = append([]int64{}, v...)
	}
	r.Del = cloneDel(s.Del)
	r.Out = cpS(s.Out)
	r.Unb = append([]UnbSt{}, s.Unb...)
	r.Red = map[string][]uint64{}
	for k, v := range s.Red {
		r.Red[k] = append([]uint64{}, v...)
	}
	r.Pools = map[uint64]*pooltypes.Pool{}
	for k, v := range s.Pools {
		w := *v
		pr, up := *v.Protocol, *v.UpgradePlan
		w.Protocol, w.UpgradePlan = &pr, &up
		r.Pools[k] = &w
	}
	r.FS = map[uint64][]string{}
	for k, v := range s.FS {
		r.FS[k] = append([]string{}, v...)
	}
	r.Fund = map[string]*FundingSt{}
	for k, v := range s.Fund {
		w := *v
		r.Fund[k] = &w
	}
	r.Funders = cpS(s.Funders)
	r.Prop = map[uint64]*bundlestypes.BundleProposal{}
	for k, v := range s.Prop {
		w := *v
		w.VotersValid = append([]string{}, v.VotersValid...)
		w.VotersInvalid = append([]string{}, v.VotersInvalid...)
		w.VotersAbstain = append([]string{}, v.VotersAbstain...)
		r.Prop[k] = &w
	}
	r.Fin = map[uint64][]bundlestypes.FinalizedBundle{}
	for k, v := range s.Fin {
		r.Fin[k] = v[:len(v):len(v)]
	}
	r.TeamA = map[uint64]*teamtypes.TeamVestingAccount{}
	for k, v := range s.TeamA {
		w := *v
		r.TeamA[k] = &w
	}
	r.Bal = cpS(s.Bal)
	r.Supply = s.Supply.clone()
	r.Comm = cpS(s.Comm)
	return &r
}

func cpS[V any](m map[string]V) map[string]V {
	r := make(map[string]V, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}
func cpU[V any](m map[uint64]V) map[uint64]V {
	r := make(map[uint64]V, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}
