package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"cosmossdk.io/math"
	"github.com/cosmos/cosmos-sdk/codec"
	sdk "github.com/cosmos/cosmos-sdk/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"

	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"
)

// The reference model: one-step refinement. Given the observed state before a step and the step, it
// computes the state every rule of the protocol demands afterwards. It is written from the properties,
// with plain integers, rationals and maps; it shares no code with the keepers.

type outRange struct{ lo, hi Bag }

type nextSel struct {
	elig   map[string]bool // admissible uploaders ("" when nobody is)
	strict bool
}

type payoutRec struct {
	Pool                                    uint64
	Uploader                                string
	Funders, Infl, T, Fee, Storage, Comm, D Bag
	Remaining                               Bag
	tol                                     int64
}
type slashRec struct {
	Staker, Kind string
	F            *big.Rat
	Amount       uint64
}

type M struct {
	*St
	post     *St
	outAdd   map[string]*outRange
	tolBal   map[string]int64
	tolRew   map[string]int64
	anyBal   map[string]bool
	sel      map[uint64]*nextSel
	anyProp  map[uint64]bool
	payouts  []payoutRec
	slashes  []slashRec
	left     map[string]bool // pool|staker memberships removed in this step
	commAdd  map[string]*big.Int
	finals   int
	why      string
	notes    map[string]int
	skipTeam bool
	maxDust  *big.Rat
	ev       []evExp        // events that have to be reported
	paid     map[string]Bag // staker|delegator: rewards paid out
	paidTol  map[string]int64
	evPrm    func(codec.JSONCodec, evGot) []Diff
	evSeen   int
}

func newM(pre, post *St) *M {
	return &M{St: pre.Clone(), post: post, outAdd: map[string]*outRange{}, tolBal: map[string]int64{}, tolRew: map[string]int64{},
		anyBal: map[string]bool{}, sel: map[uint64]*nextSel{}, anyProp: map[uint64]bool{}, left: map[string]bool{}, commAdd: map[string]*big.Int{}, notes: map[string]int{}, paid: map[string]Bag{}, paidTol: map[string]int64{}}
}

func (m *M) rej(f string, a ...any) bool { m.why = fmt.Sprintf(f, a...); return false }
func (m *M) known(id string)             { m.notes["KNOWN."+id]++ }
func (m *M) note(s string)               { m.notes[s]++ }

func big0() *big.Int           { return new(big.Int) }
func bigU(x uint64) *big.Int   { return new(big.Int).SetUint64(x) }
func ratU(x uint64) *big.Rat   { return new(big.Rat).SetInt(bigU(x)) }
func ratI(x *big.Int) *big.Rat { return new(big.Rat).SetInt(x) }
func floorR(r *big.Rat) *big.Int {
	q := new(big.Int)
	new(big.Int).DivMod(r.Num(), r.Denom(), q)
	d, mm := new(big.Int).DivMod(r.Num(), r.Denom(), new(big.Int))
	_ = mm
	return d
}
func ceilR(r *big.Rat) *big.Int {
	f := floorR(r)
	if ratI(f).Cmp(r) < 0 {
		return f.Add(f, big.NewInt(1))
	}
	return f
}
func intOf(b *big.Int) math.Int   { return math.NewIntFromBigInt(b) }
func mulR(a, b *big.Rat) *big.Rat { return new(big.Rat).Mul(a, b) }
func subR(a, b *big.Rat) *big.Rat { return new(big.Rat).Sub(a, b) }
func addR(a, b *big.Rat) *big.Rat { return new(big.Rat).Add(a, b) }
func quoR(a, b *big.Rat) *big.Rat { return new(big.Rat).Quo(a, b) }

var rat1 = big.NewRat(1, 1)

// ---- money -----------------------------------------------------------------------------------

func (m *M) balKey(addr string) string {
	if _, ok := m.Bal[addr]; ok {
		return addr
	}
	for _, n := range modNames {
		if modAddr(n) == addr {
			return "mod:" + n
		}
	}
	for id := range m.Pools {
		if poolAddr(id) == addr {
			return fmt.Sprintf("pool:%d", id)
		}
	}
	return addr
}

const kDel, kStk, kFund, kPool, kTeam, kDistr, kFee = "mod:" + delegationtypes.ModuleName, "mod:" + stakerstypes.ModuleName, "mod:" + funderstypes.ModuleName, "mod:" + pooltypes.ModuleName, "mod:" + teamtypes.ModuleName, "mod:distribution", "mod:fee_collector"

func (m *M) move(from, to string, b Bag) bool {
	if b.neg() {
		return m.rej("negative transfer")
	}
	if have, ok := m.Bal[from]; ok {
		if !b.leq(have) {
			return m.rej("insufficient funds of %s: %s < %s", nm(from), have, b)
		}
		m.Bal[from] = have.sub(b)
	}
	if have, ok := m.Bal[to]; ok {
		m.Bal[to] = have.add(b)
	}
	return true
}

func (m *M) toTreasury(from string, b Bag) bool {
	if !m.move(from, kDistr, b) {
		return false
	}
	for d, v := range b {
		m.Comm[d] = addR(ratOr0(m.Comm[d]), ratI(v))
		if m.commAdd[d] == nil {
			m.commAdd[d] = big0()
		}
		m.commAdd[d] = new(big.Int).Add(m.commAdd[d], v)
	}
	return true
}

func ratOr0(r *big.Rat) *big.Rat {
	if r == nil {
		return new(big.Rat)
	}
	return r
}

// ---- pools and quorum ------------------------------------------------------------------------

func (s *St) members(p uint64) []string { return sortedKeys(s.Val[p]) }

func (s *St) stake(staker string) uint64 {
	if d := s.Del[staker]; d != nil {
		return d.Total
	}
	return 0
}

func (s *St) poolStake(p uint64) (total, max uint64) {
	for _, v := range s.members(p) {
		x := s.stake(v)
		total += x
		if x > max {
			max = x
		}
	}
	return
}

func (s *St) canRun(p uint64) string {
	pl := s.Pools[p]
	if pl == nil {
		return "no such pool"
	}
	if pl.UpgradePlan.ScheduledAt > 0 && uint64(s.T) >= pl.UpgradePlan.ScheduledAt {
		return "upgrading"
	}
	if pl.Disabled {
		return "disabled"
	}
	if pl.EndKey != "" && pl.CurrentKey == pl.EndKey {
		return "end key reached"
	}
	total, max := s.poolStake(p)
	if total < pl.MinDelegation {
		return "below minimum stake"
	}
	if bigU(max).Cmp(floorR(mulR(s.P.MaxVP, ratU(total)))) > 0 {
		return "voting power too high"
	}
	return ""
}

func (s *St) prop(p uint64) *bundlestypes.BundleProposal {
	if q := s.Prop[p]; q != nil {
		return q
	}
	return &bundlestypes.BundleProposal{PoolId: p}
}

func (s *St) authorised(p uint64, staker, who string) bool {
	v := s.Val[p][staker]
	return v != nil && v.Addr == who
}

func (s *St) canVote(p uint64, staker, who, sid string) string {
	if r := s.canRun(p); r != "" {
		return r
	}
	if !s.authorised(p, staker, who) {
		return "not authorised"
	}
	q := s.prop(p)
	if q.StorageId == "" {
		return "no proposal"
	}
	if q.StorageId != sid {
		return "wrong storage id"
	}
	if has(q.VotersValid, staker) || has(q.VotersInvalid, staker) {
		return "already voted"
	}
	return ""
}

func (s *St) canPropose(p uint64, staker, who string, from uint64) string {
	if r := s.canRun(p); r != "" {
		return r
	}
	if !s.authorised(p, staker, who) {
		return "not authorised"
	}
	q := s.prop(p)
	if q.NextUploader != staker {
		return "not the designated uploader"
	}
	if addU(q.UpdatedAt, s.Pools[p].UploadInterval).Cmp(big.NewInt(s.T)) > 0 {
		return "upload interval"
	}
	if s.Pools[p].CurrentIndex+q.BundleSize != from {
		return "from index"
	}
	return ""
}

func has(l []string, x string) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}
func without(l []string, x string) []string {
	var r []string
	for _, y := range l {
		if y != x {
			r = append(r, y)
		}
	}
	return r
}

type dist struct {
	valid, invalid, abstain, total uint64
	status                         string
}

func (s *St) votes(p uint64) (d dist) {
	q := s.prop(p)
	if s.Prop[p] == nil {
		d.status = "unspecified"
		return
	}
	w := func(l []string) (x uint64) {
		for _, v := range l {
			if s.Val[p][v] != nil {
				x += s.stake(v)
			}
		}
		return
	}
	d.valid, d.invalid, d.abstain = w(q.VotersValid), w(q.VotersInvalid), w(q.VotersAbstain)
	d.total, _ = s.poolStake(p)
	two := big.NewInt(2)
	v2 := new(big.Int).Mul(bigU(d.valid), two)
	i2 := new(big.Int).Mul(bigU(d.invalid), two)
	switch {
	case d.total == 0:
		d.status = "none"
	case v2.Cmp(bigU(d.total)) > 0:
		d.status = "valid"
	case i2.Cmp(bigU(d.total)) >= 0:
		d.status = "invalid"
	default:
		d.status = "none"
	}
	return
}

// ---- membership, slashing, points -------------------------------------------------------------

func (m *M) removeMember(p uint64, staker string) {
	if m.Val[p][staker] != nil {
		delete(m.Val[p], staker)
		if len(m.Val[p]) == 0 {
			delete(m.Val, p)
		}
		m.Count[p]--
		m.left[pk(p, staker)] = true
		m.emit("stakers.EventLeavePool", "pool_id", p, "staker", staker)
		delete(m.LeaveQ, pk(p, staker))
	}
}

func (m *M) slash(p uint64, staker, kind string) {
	f := map[string]*big.Rat{"vote": m.P.VoteSlash, "upload": m.P.UploadSlash, "timeout": m.P.TimeoutSlash}[kind]
	dd := m.Del[staker]
	if dd != nil {
		amt := floorR(mulR(ratU(dd.Total), f)).Uint64()
		dd.Total -= amt
		keep := subR(rat1, f)
		for _, x := range dd.D {
			if x.Lo == x.Hi {
				x.Hi = addR(x.Lo, rat1)
			}
			x.Lo, x.Hi = mulR(x.Lo, keep), mulR(x.Hi, keep)
		}
		if !m.toTreasury(kDel, bagU(UKYVE, amt)) {
			m.note("slash transfer impossible")
		}
		m.slashes = append(m.slashes, slashRec{staker, kind, f, amt})
		m.emit("delegation.EventSlash", "pool_id", p, "staker", staker, "amount", amt, "slash_type", "SLASH_TYPE_"+strings.ToUpper(kind))
	}
	m.note("slash." + kind)
	m.removeMember(p, staker)
}

func (m *M) addPoint(p uint64, staker string) {
	v := m.Val[p][staker]
	v.Points++
	m.emit("bundles.EventPointIncreased", "pool_id", p, "staker", staker, "current_points", v.Points)
	m.note("point")
	if v.Points >= m.P.MaxPoints {
		m.slash(p, staker, "timeout")
	}
}

func (m *M) resetPoints(p uint64, staker string) {
	if v := m.Val[p][staker]; v != nil {
		if v.Points > 0 {
			m.note("points reset")
			m.emit("bundles.EventPointsReset", "pool_id", p, "staker", staker)
		}
		v.Points = 0
	}
}

func (m *M) nonVoters(p uint64) {
	q := m.prop(p)
	for _, s := range m.members(p) {
		if !has(q.VotersValid, s) && !has(q.VotersInvalid, s) && !has(q.VotersAbstain, s) {
			m.addPoint(p, s)
		}
	}
}

// ---- rewards -----------------------------------------------------------------------------------

func (m *M) wl(d string) *WLEntry {
	var r *WLEntry
	for i := range m.P.WL {
		if m.P.WL[i].Denom == d {
			r = &m.P.WL[i]
		}
	}
	return r
}

func (m *M) chargeFunders(p uint64) Bag {
	tot := Bag{}
	before := len(m.FS[p])
	for _, a := range append([]string{}, m.FS[p]...) {
		f := m.Fund[pk(p, a)]
		if f == nil {
			continue
		}
		pay := Bag{}
		for d, v := range f.Amt.min(f.Per) {
			if m.wl(d) != nil {
				pay[d] = v
			}
		}
		nf := &FundingSt{f.Amt.sub(pay), Bag{}, f.Total.add(pay)}
		for d, v := range f.Per {
			if nf.Amt.get(d).Sign() > 0 {
				nf.Per[d] = v
			}
		}
		m.Fund[pk(p, a)] = nf
		if nf.Amt.empty() {
			m.setInactive(p, a)
			m.note("funder drained")
		}
		if !pay.empty() {
			m.note("funder charged")
		}
		tot = tot.add(pay)
	}
	if before > 0 && len(m.FS[p]) == 0 {
		m.emit("funders.EventPoolOutOfFunds", "pool_id", p)
	}
	if !m.move(kFund, kPool, tot) {
		m.note("funders escrow short")
	}
	return tot
}

func (m *M) setInactive(p uint64, a string) { m.FS[p] = without(m.FS[p], a) }

func bagMulFloor(b Bag, f *big.Rat) Bag {
	r := Bag{}
	for d, v := range b {
		r.set(d, floorR(mulR(ratI(v), f)))
	}
	return r
}

func (m *M) storageCost(id uint32) *big.Rat {
	r := new(big.Rat)
	for _, c := range m.P.Storage {
		if c.StorageProviderId == id {
			return ratDec(c.Cost)
		}
	}
	return r
}

// payout distributes the rewards of the current (valid) proposal of pool p.
func (m *M) payout(p uint64) payoutRec {
	q := m.prop(p)
	rec := payoutRec{Pool: p, Uploader: q.Uploader, Fee: Bag{}, Storage: Bag{}, Comm: Bag{}, D: Bag{}}
	rec.Funders = m.chargeFunders(p)
	pkey := fmt.Sprintf("pool:%d", p)
	rec.Infl = bag1(UKYVE, floorR(mulR(ratI(m.Bal[pkey].get(UKYVE)), m.P.PayoutRate)))
	m.move(pkey, kPool, rec.Infl)
	rec.T = rec.Funders.add(rec.Infl)
	if rec.T.empty() {
		m.payouts = append(m.payouts, rec)
		return rec
	}
	m.note("payout")
	rec.Fee = bagMulFloor(rec.T, m.P.NetFee)
	rest := rec.T.sub(rec.Fee)
	rec.Remaining = rest
	tol := int64(0)
	if !rest.empty() {
		cost := m.storageCost(q.StorageProviderId)
		per := quoR(mulR(cost, ratU(q.DataSize)), big.NewRat(int64(len(rest)), 1))
		want := Bag{}
		for d := range rest {
			w := m.wl(d)
			if w == nil || w.W.Sign() == 0 {
				continue
			}
			unit := ratI(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(w.Dec)), nil))
			want.set(d, floorR(quoR(mulR(per, unit), w.W)))
			if per.Sign() > 0 {
				t := quoR(mulR(unit, big.NewRat(2, 1)), mulR(w.W, ratI(ten18)))
				// the intermediate product is rounded to 18 digits before the division by the weight
				if x := ceilR(t).Int64() + 2; x > tol {
					tol = x
				}
			}
		}
		rec.Storage = rest.min(want)
		if !rec.Storage.empty() {
			m.note("storage paid")
		}
		rest = rest.sub(rec.Storage)
		if !rest.empty() {
			rec.Comm = bagMulFloor(rest, m.Stakers[q.Uploader].Comm)
			rest = rest.sub(rec.Comm)
			if m.stake(q.Uploader) > 0 {
				rec.D = rest
			} else {
				rec.Comm = rec.Comm.add(rest)
			}
		}
	}
	m.toTreasury(kPool, rec.Fee)
	up := rec.Storage.add(rec.Comm)
	m.move(kPool, kStk, up)
	st := m.Stakers[q.Uploader]
	st.Rew = st.Rew.add(up)
	m.move(kPool, kDel, rec.D)
	if tol > 0 {
		m.tolRew[q.Uploader] += tol
		m.tolBal[kStk] += tol
		m.tolBal[kDel] += tol
	}
	m.accrue(q.Uploader, rec.D, tol)
	rec.tol = tol
	m.payouts = append(m.payouts, rec)
	return rec
}

// accrue adds a reward to the delegators of staker, pro rata, as intervals.
func (m *M) accrue(staker string, r Bag, tol int64) {
	dd := m.Del[staker]
	if dd == nil || dd.Total == 0 {
		return
	}
	tot := ratU(dd.Total)
	for d, x := range dd.D {
		hiAmt := addR(x.Lo, rat1)
		if x.Lo != x.Hi {
			hiAmt = x.Hi
		}
		or := m.outAdd[sk(staker, d)]
		if or == nil {
			or = &outRange{Bag{}, Bag{}}
			m.outAdd[sk(staker, d)] = or
		}
		for den, v := range r {
			prec := new(big.Int).Add(floorR(quoR(x.Lo, ratI(ten18))), big.NewInt(1))
			lo := floorR(quoR(mulR(ratI(new(big.Int).Sub(v, big.NewInt(tol))), x.Lo), tot))
			hi := ceilR(quoR(mulR(ratI(new(big.Int).Add(v, big.NewInt(tol))), hiAmt), tot))
			or.lo[den] = new(big.Int).Add(or.lo.get(den), lo.Sub(lo, prec))
			or.hi[den] = new(big.Int).Add(or.hi.get(den), hi.Add(hi, prec))
		}
	}
}

// payRewards pays everything outstanding of one delegation to its owner.
func (m *M) payRewards(staker, delegator string) {
	k := sk(staker, delegator)
	b := m.Out[k]
	if b == nil {
		return
	}
	if !b.empty() {
		m.note("rewards paid")
	}
	m.move(kDel, delegator, b)
	m.Out[k] = Bag{}
	m.paid[k] = m.paid[k].add(b)
	if dd := m.Del[staker]; dd != nil && dd.Total < 1_000_000 && !b.empty() {
		m.tolBal[delegator]++
		m.paidTol[k]++
		m.tolBal[kDel]++
	}
}

// ---- delegation primitives ---------------------------------------------------------------------

func (m *M) amtOf(staker, delegator string) uint64 {
	if dd := m.Del[staker]; dd != nil {
		if x := dd.D[delegator]; x != nil {
			return x.Amt
		}
	}
	return 0
}

func (m *M) isDelegator(staker, delegator string) bool {
	dd := m.Del[staker]
	return dd != nil && dd.D[delegator] != nil
}

func (m *M) setDel(staker, delegator string, amt uint64) {
	dd := m.Del[staker]
	if dd == nil {
		if amt == 0 {
			return
		}
		dd = &DelData{D: map[string]*DelSt{}}
		m.Del[staker] = dd
	}
	old := dd.D[delegator]
	if old != nil {
		dd.Total -= old.Amt
		dd.N--
		delete(dd.D, delegator)
		if dd.N == 0 {
			dd.Total = 0 // whatever rounding dust remains belongs to nobody
		}
	}
	if amt > 0 {
		r := ratU(amt)
		dd.D[delegator] = &DelSt{r, r, amt}
		dd.Total += amt
		dd.N++
		if m.Out[sk(staker, delegator)] == nil {
			m.Out[sk(staker, delegator)] = Bag{}
		}
	} else {
		delete(m.Out, sk(staker, delegator))
	}
}

func (m *M) increase(staker, delegator string, x uint64) {
	m.payRewards(staker, delegator)
	m.setDel(staker, delegator, m.amtOf(staker, delegator)+x)
}

func (m *M) decrease(staker, delegator string, x uint64) uint64 {
	if !m.isDelegator(staker, delegator) {
		return 0
	}
	m.payRewards(staker, delegator)
	have := m.amtOf(staker, delegator)
	if x > have {
		x = have
	}
	m.setDel(staker, delegator, have-x)
	return x
}

// ---- uploader selection ------------------------------------------------------------------------

// choose records the admissible set for a selection over the pool's members and adopts the actual one.
func (m *M) choose(p uint64, among func(string) bool) string {
	all := map[string]bool{}
	good := map[string]bool{}
	for _, s := range m.members(p) {
		if m.stake(s) > 0 {
			all[s] = true
			if among == nil || among(s) {
				good[s] = true
			}
		}
	}
	if len(good) == 0 {
		good = all
	}
	if len(good) == 0 {
		good = map[string]bool{"": true}
	}
	m.sel[p] = &nextSel{elig: good}
	m.note("selected")
	if len(good) > 1 {
		m.note("selected among several")
	}
	return m.post.prop(p).NextUploader
}

func (m *M) chooseNot(p uint64, x string) string {
	return m.choose(p, func(s string) bool { return s != x })
}

// ---- tally ---------------------------------------------------------------------------------------

func (m *M) tally(p uint64) dist {
	q := *m.prop(p)
	m.nonVoters(p)
	d := m.votes(p)
	m.note("tally." + d.status)
	switch d.status {
	case "valid":
		m.payout(p)
		for _, v := range q.VotersInvalid {
			m.slash(p, v, "vote")
		}
	case "invalid":
		for _, v := range q.VotersValid {
			if v == q.Uploader {
				m.slash(p, v, "upload")
			} else {
				m.slash(p, v, "vote")
			}
		}
	}
	return d
}

func (m *M) finalize(p uint64, q bundlestypes.BundleProposal, d dist, next string) {
	pl := m.Pools[p]
	m.finalEvent(p, q, d, bundlestypes.BUNDLE_STATUS_VALID, next)
	m.finals++
	m.note("finalized")
	m.Fin[p] = append(m.Fin[p][:len(m.Fin[p]):len(m.Fin[p])], bundlestypes.FinalizedBundle{
		PoolId: p, Id: uint64(len(m.Fin[p])), StorageId: q.StorageId, Uploader: q.Uploader,
		FromIndex: pl.CurrentIndex, ToIndex: pl.CurrentIndex + q.BundleSize, FromKey: q.FromKey, ToKey: q.ToKey,
		BundleSummary: q.BundleSummary, DataHash: q.DataHash, StorageProviderId: q.StorageProviderId, CompressionId: q.CompressionId,
		FinalizedAt:   &bundlestypes.FinalizedAt{Height: uint64(m.H), Timestamp: uint64(m.T)},
		StakeSecurity: &bundlestypes.StakeSecurity{ValidVotePower: d.valid, TotalVotePower: d.total},
	})
	pl.CurrentIndex += q.BundleSize
	pl.CurrentKey, pl.CurrentSummary = q.ToKey, q.BundleSummary
	pl.TotalBundles++
}

func (m *M) empty(p uint64, next string) {
	m.Prop[p] = &bundlestypes.BundleProposal{PoolId: p, NextUploader: next, UpdatedAt: uint64(m.T)}
}

func (m *M) register(msg *bundlestypes.MsgSubmitBundleProposal, next string) {
	pl := m.Pools[msg.PoolId]
	m.note("registered")
	m.emit("bundles.EventBundleProposed", "pool_id", msg.PoolId, "id", pl.TotalBundles, "storage_id", msg.StorageId, "uploader", msg.Staker, "data_size", msg.DataSize,
		"from_index", pl.CurrentIndex, "bundle_size", msg.BundleSize, "from_key", msg.FromKey, "to_key", msg.ToKey, "bundle_summary", msg.BundleSummary, "data_hash", msg.DataHash,
		"proposed_at", m.T, "storage_provider_id", pl.CurrentStorageProviderId, "compression_id", pl.CurrentCompressionId)
	m.emit("bundles.EventBundleVote", "pool_id", msg.PoolId, "staker", msg.Staker, "storage_id", msg.StorageId, "vote", bundlestypes.VOTE_TYPE_VALID)
	m.Prop[msg.PoolId] = &bundlestypes.BundleProposal{
		PoolId: msg.PoolId, Uploader: msg.Staker, NextUploader: next, StorageId: msg.StorageId, DataSize: msg.DataSize,
		BundleSize: msg.BundleSize, UpdatedAt: uint64(m.T), VotersValid: []string{msg.Staker}, FromKey: msg.FromKey, ToKey: msg.ToKey,
		BundleSummary: msg.BundleSummary, DataHash: msg.DataHash, StorageProviderId: pl.CurrentStorageProviderId, CompressionId: pl.CurrentCompressionId,
	}
}

// ---- messages --------------------------------------------------------------------------------------

func inUnit(d math.LegacyDec) bool {
	return !d.IsNil() && !d.IsNegative() && d.LTE(math.LegacyOneDec())
}

func validCoins(cs sdk.Coins) bool { return cs.Validate() == nil }

// tx predicts the effect of one message; false means it has to be rejected.
func (m *M) tx(msg sdk.Msg) bool {
	switch x := msg.(type) {
	case *stakerstypes.MsgCreateStaker:
		if !x.Commission.IsNil() && !inUnit(x.Commission) {
			return m.rej("commission")
		}
		if m.Stakers[x.Creator] != nil {
			return m.rej("staker exists")
		}
		c := ratDec(stakerstypes.DefaultCommission)
		if !x.Commission.IsNil() {
			c = ratDec(x.Commission)
		}
		m.Stakers[x.Creator] = &StakerSt{Comm: c, Meta: fmt.Sprintf("%q", []string{"", "", "", "", ""}), Rew: Bag{}}
		if !m.move(x.Creator, kDel, bagU(UKYVE, x.Amount)) {
			return false
		}
		m.increase(x.Creator, x.Creator, x.Amount)
	case *stakerstypes.MsgUpdateMetadata:
		if len(x.Moniker) > 255 || len(x.Website) > 255 || len(x.SecurityContact) > 255 || len(x.Details) > 255 || !hexID(x.Identity) {
			return m.rej("metadata")
		}
		if m.Stakers[x.Creator] == nil {
			return m.rej("no staker")
		}
		m.Stakers[x.Creator].Meta = fmt.Sprintf("%q", []string{x.Moniker, x.Website, x.Identity, x.SecurityContact, x.Details})
	case *stakerstypes.MsgUpdateCommission:
		if !inUnit(x.Commission) {
			return m.rej("commission")
		}
		if m.Stakers[x.Creator] == nil {
			return m.rej("no staker")
		}
		if len(m.CommQ[x.Creator]) > 0 {
			m.note("commission replaced")
		}
		m.CommQ[x.Creator] = []CommEntry{{ratDec(x.Commission), m.T}}
	case *stakerstypes.MsgClaimCommissionRewards:
		if x.Amounts.Empty() || !validCoins(x.Amounts) {
			return m.rej("amounts")
		}
		st := m.Stakers[x.Creator]
		if st == nil {
			return m.rej("no staker")
		}
		b := bagOf(x.Amounts)
		if !b.leq(st.Rew) {
			return m.rej("more than accrued")
		}
		st.Rew = st.Rew.sub(b)
		m.note("commission claimed")
		return m.move(kStk, x.Creator, b)
	case *stakerstypes.MsgJoinPool:
		pl := m.Pools[x.PoolId]
		if _, err := sdk.AccAddressFromBech32(x.Valaddress); err != nil {
			return m.rej("valaddress")
		}
		if pl == nil || pl.Disabled {
			return m.rej("pool")
		}
		if m.Stakers[x.Creator] == nil {
			return m.rej("no staker")
		}
		if x.Valaddress == x.Creator {
			return m.rej("own address")
		}
		if m.Val[x.PoolId][x.Creator] != nil {
			return m.rej("already in pool")
		}
		if len(m.Val[x.PoolId]) >= 50 {
			low := ""
			for _, s := range m.members(x.PoolId) {
				if low == "" || m.stake(s) < m.stake(low) {
					low = s
				}
			}
			if m.stake(x.Creator) <= m.stake(low) {
				m.note("full pool: rejected")
				return m.rej("stake too low")
			}
			// any one of the members with the lowest stake may be the one removed
			for _, s := range m.members(x.PoolId) {
				if m.stake(s) == m.stake(low) && m.post.Val[x.PoolId][s] == nil {
					low = s
				}
			}
			m.removeMember(x.PoolId, low)
			m.note("full pool: evicted")
		}
		for _, p := range sortedU(m.Val) {
			if v := m.Val[p][x.Creator]; v != nil && v.Addr == x.Valaddress {
				return m.rej("address used by the staker in pool %d", p)
			}
		}
		for _, v := range m.Val[x.PoolId] {
			if v.Addr == x.Valaddress {
				m.note("join: address of another member")
				return m.rej("address used in pool")
			}
		}
		if m.Val[x.PoolId] == nil {
			m.Val[x.PoolId] = map[string]*ValSt{}
		}
		m.Val[x.PoolId][x.Creator] = &ValSt{Addr: x.Valaddress}
		m.Count[x.PoolId]++
		m.note("joined")
		return m.move(x.Creator, x.Valaddress, bagU(UKYVE, x.Amount))
	case *stakerstypes.MsgLeavePool:
		v := m.Val[x.PoolId][x.Creator]
		if v == nil {
			return m.rej("not a member")
		}
		if len(m.LeaveQ[pk(x.PoolId, x.Creator)]) > 0 {
			return m.rej("already leaving")
		}
		v.Leaving = true
		m.LeaveQ[pk(x.PoolId, x.Creator)] = []int64{m.T}
		m.note("leave announced")
	case *delegationtypes.MsgDelegate:
		if m.Stakers[x.Staker] == nil {
			return m.rej("no staker")
		}
		m.increase(x.Staker, x.Creator, x.Amount)
		return m.move(x.Creator, kDel, bagU(UKYVE, x.Amount))
	case *delegationtypes.MsgUndelegate:
		if x.Amount > m.amtOf(x.Staker, x.Creator) {
			return m.rej("more than delegated")
		}
		if _, err := sdk.AccAddressFromBech32(x.Staker); err != nil {
			return m.rej("bad address")
		}
		idx := uint64(0) // only the order of entries matters
		if n := len(m.Unb); n > 0 {
			idx = m.Unb[n-1].Idx + 1
		}
		m.Unb = append(m.Unb, UnbSt{idx, x.Staker, x.Creator, x.Amount, uint64(m.T)})
		m.note("unbonding started")
	case *delegationtypes.MsgRedelegate:
		if !m.isDelegator(x.FromStaker, x.Creator) {
			return m.rej("no delegation")
		}
		if m.Stakers[x.ToStaker] == nil {
			return m.rej("no target")
		}
		active := false
		for _, mm := range m.Val {
			if mm[x.ToStaker] != nil {
				active = true
			}
		}
		if !active {
			m.note("redelegation to inactive")
			return m.rej("target inactive")
		}
		if x.Amount > m.amtOf(x.FromStaker, x.Creator) {
			return m.rej("more than delegated")
		}
		var live []uint64
		for _, c := range m.Red[x.Creator] {
			if uint64(m.T)-c <= m.P.RedCool {
				live = append(live, c)
			}
		}
		if uint64(len(live)) >= m.P.RedMax {
			m.note("redelegation: no spell")
			return m.rej("no spell left")
		}
		if len(live) > 0 && live[len(live)-1] == uint64(m.T) {
			m.note("redelegation: same block")
			return m.rej("same block")
		}
		m.Red[x.Creator] = append(live, uint64(m.T))
		m.decrease(x.FromStaker, x.Creator, x.Amount)
		m.increase(x.ToStaker, x.Creator, x.Amount)
		m.note("redelegated")
	case *delegationtypes.MsgWithdrawRewards:
		if !m.isDelegator(x.Staker, x.Creator) {
			return m.rej("no delegation")
		}
		a := m.amtOf(x.Staker, x.Creator)
		m.payRewards(x.Staker, x.Creator)
		// the current stake becomes the new initial amount; the total is untouched
		dd := m.Del[x.Staker]
		dd.D[x.Creator] = &DelSt{ratU(a), ratU(a), a}
	case *bundlestypes.MsgSubmitBundleProposal:
		return m.submit(x)
	case *bundlestypes.MsgVoteBundleProposal:
		if r := m.canVote(x.PoolId, x.Staker, x.Creator, x.StorageId); r != "" {
			return m.rej("%s", r)
		}
		q := m.prop(x.PoolId)
		ab := has(q.VotersAbstain, x.Staker)
		switch x.Vote {
		case bundlestypes.VOTE_TYPE_VALID:
			q.VotersValid = append(q.VotersValid, x.Staker)
		case bundlestypes.VOTE_TYPE_INVALID:
			q.VotersInvalid = append(q.VotersInvalid, x.Staker)
		case bundlestypes.VOTE_TYPE_ABSTAIN:
			if ab {
				return m.rej("abstained already")
			}
			q.VotersAbstain = append(q.VotersAbstain, x.Staker)
		default:
			return m.rej("vote type")
		}
		if ab {
			m.note("abstain changed")
			q.VotersAbstain = without(q.VotersAbstain, x.Staker)
		}
		m.note("voted")
		m.resetPoints(x.PoolId, x.Staker)
	case *bundlestypes.MsgClaimUploaderRole:
		if r := m.canRun(x.PoolId); r != "" {
			return m.rej("%s", r)
		}
		if !m.authorised(x.PoolId, x.Staker, x.Creator) {
			return m.rej("not authorised")
		}
		q := *m.prop(x.PoolId)
		if q.NextUploader != "" {
			return m.rej("role taken")
		}
		q.NextUploader, q.UpdatedAt = x.Staker, uint64(m.T)
		m.Prop[x.PoolId] = &q
		m.note("claimed")
	case *bundlestypes.MsgSkipUploaderRole:
		if r := m.canPropose(x.PoolId, x.Staker, x.Creator, x.FromIndex); r != "" {
			return m.rej("%s", r)
		}
		m.resetPoints(x.PoolId, x.Staker)
		q := *m.prop(x.PoolId)
		d := dist{status: "none"}
		if q.StorageId != "" {
			d = m.tally(x.PoolId)
		}
		next := m.chooseNot(x.PoolId, x.Staker)
		m.note("skipped")
		switch d.status {
		case "valid":
			m.finalize(x.PoolId, q, d, next)
			m.empty(x.PoolId, next)
		case "invalid":
			m.dropEvent(x.PoolId, q, d, next)
			m.empty(x.PoolId, next)
		default:
			q.NextUploader, q.UpdatedAt = next, uint64(m.T)
			m.Prop[x.PoolId] = &q
		}
		m.emit("bundles.EventSkippedUploaderRole", "pool_id", x.PoolId, "id", m.Pools[x.PoolId].TotalBundles, "previous_uploader", x.Staker, "new_uploader", next)
	case *pooltypes.MsgCreatePool:
		if x.Authority != govAuthority {
			return m.rej("authority")
		}
		if x.UploadInterval == 0 || x.MaxBundleSize == 0 || x.InflationShareWeight.IsNil() || x.InflationShareWeight.IsNegative() || x.InflationShareWeight.GT(maxDec) || !json.Valid([]byte(x.Binaries)) {
			return m.rej("arguments")
		}
		id := m.PoolCnt
		m.PoolCnt++
		m.Pools[id] = &pooltypes.Pool{Id: id, Name: x.Name, Runtime: x.Runtime, Logo: x.Logo, Config: x.Config, StartKey: x.StartKey, EndKey: x.EndKey,
			UploadInterval: x.UploadInterval, InflationShareWeight: x.InflationShareWeight, MinDelegation: x.MinDelegation, MaxBundleSize: x.MaxBundleSize,
			Protocol:    &pooltypes.Protocol{Version: x.Version, Binaries: x.Binaries, LastUpgrade: uint64(m.T)},
			UpgradePlan: &pooltypes.UpgradePlan{}, CurrentStorageProviderId: x.StorageProviderId, CurrentCompressionId: x.CompressionId}
		m.FS[id] = []string{}
		m.Count[id] = 0
		m.Bal[fmt.Sprintf("pool:%d", id)] = m.post.Bal[fmt.Sprintf("pool:%d", id)]
		if m.Bal[fmt.Sprintf("pool:%d", id)] == nil {
			m.Bal[fmt.Sprintf("pool:%d", id)] = Bag{}
		}
		m.note("pool created")
	case *pooltypes.MsgUpdatePool:
		return m.updatePool(x)
	case *pooltypes.MsgDisablePool:
		if x.Authority != govAuthority {
			return m.rej("authority")
		}
		pl := m.Pools[x.Id]
		if pl == nil || pl.Disabled {
			return m.rej("pool")
		}
		pl.Disabled = true
		for _, s := range m.members(x.Id) {
			m.removeMember(x.Id, s)
		}
		key := fmt.Sprintf("pool:%d", x.Id)
		m.toTreasury(key, bag1(UKYVE, m.Bal[key].get(UKYVE)))
		m.note("pool disabled")
	case *pooltypes.MsgEnablePool:
		if x.Authority != govAuthority {
			return m.rej("authority")
		}
		pl := m.Pools[x.Id]
		if pl == nil || !pl.Disabled {
			return m.rej("pool")
		}
		pl.Disabled = false
		m.note("pool enabled")
	case *pooltypes.MsgScheduleRuntimeUpgrade:
		if x.Authority != govAuthority {
			return m.rej("authority")
		}
		if x.Version == "" || x.Binaries == "" {
			return m.rej("arguments")
		}
		at := x.ScheduledAt
		if at < uint64(m.T) {
			at = uint64(m.T)
		}
		for _, pl := range m.Pools {
			if pl.Runtime == x.Runtime && pl.UpgradePlan.ScheduledAt == 0 {
				pl.UpgradePlan = &pooltypes.UpgradePlan{Version: x.Version, Binaries: x.Binaries, ScheduledAt: at, Duration: x.Duration}
				m.note("upgrade planned")
			}
		}
	case *pooltypes.MsgCancelRuntimeUpgrade:
		if x.Authority != govAuthority {
			return m.rej("authority")
		}
		for _, pl := range m.Pools {
			if pl.Runtime == x.Runtime {
				if pl.UpgradePlan.ScheduledAt != 0 {
					m.note("upgrade cancelled")
				}
				pl.UpgradePlan = &pooltypes.UpgradePlan{}
			}
		}
	case *funderstypes.MsgCreateFunder:
		if x.Moniker == "" {
			return m.rej("moniker")
		}
		if _, ok := m.Funders[x.Creator]; ok {
			return m.rej("exists")
		}
		m.Funders[x.Creator] = fmt.Sprintf("%q", []string{x.Moniker, x.Identity, x.Website, x.Contact, x.Description})
	case *funderstypes.MsgUpdateFunder:
		if x.Moniker == "" {
			return m.rej("moniker")
		}
		if _, ok := m.Funders[x.Creator]; !ok {
			return m.rej("unknown")
		}
		m.Funders[x.Creator] = fmt.Sprintf("%q", []string{x.Moniker, x.Identity, x.Website, x.Contact, x.Description})
	case *funderstypes.MsgFundPool:
		return m.fundPool(x)
	case *funderstypes.MsgDefundPool:
		return m.defundPool(x)
	case *teamtypes.MsgCreateTeamVestingAccount:
		if x.Authority != foundry && x.Authority != bcp {
			return m.rej("authority")
		}
		if x.TotalAllocation == 0 || x.Commencement == 0 {
			return m.rej("arguments")
		}
		iss := m.issued()
		if iss.Add(iss, bigU(x.TotalAllocation)).Cmp(bigU(teamtypes.TEAM_ALLOCATION)) > 0 {
			m.note("team budget exceeded")
			return m.rej("budget")
		}
		id := m.TeamCnt
		m.TeamCnt++
		m.TeamA[id] = &teamtypes.TeamVestingAccount{Id: id, TotalAllocation: x.TotalAllocation, Commencement: x.Commencement}
		m.note("team account created")
	case *teamtypes.MsgClawback:
		if x.Authority != foundry && x.Authority != bcp {
			return m.rej("authority")
		}
		a := m.TeamA[x.Id]
		if a == nil {
			return m.rej("no account")
		}
		if x.Clawback > 0 && (x.Clawback < a.Commencement || x.Clawback < a.LastClaimedTime) {
			return m.rej("clawback date")
		}
		iss := m.issued()
		iss.Sub(iss, bigU(vestMax(a)))
		b := *a
		b.Clawback = x.Clawback
		if iss.Add(iss, bigU(vestMax(&b))).Cmp(bigU(teamtypes.TEAM_ALLOCATION)) > 0 {
			m.note("clawback would exceed the budget")
			return m.rej("budget")
		}
		a.Clawback = x.Clawback
		m.note("clawback")
	case *teamtypes.MsgClaimUnlocked:
		if x.Authority != foundry && x.Authority != bcp {
			return m.rej("authority")
		}
		a := m.TeamA[x.Id]
		if a == nil {
			return m.rej("no account")
		}
		un := unlocked(a, uint64(m.T))
		if un < a.UnlockedClaimed || x.Amount > un-a.UnlockedClaimed {
			return m.rej("more than claimable")
		}
		a.UnlockedClaimed += x.Amount
		a.LastClaimedTime = uint64(m.T)
		if x.Amount > 0 {
			m.note("team unlocked claimed")
		}
		return m.teamPay(x.Recipient, x.Amount)
	case *teamtypes.MsgClaimAccountRewards:
		if x.Authority != foundry && x.Authority != bcp {
			return m.rej("authority")
		}
		a := m.TeamA[x.Id]
		if a == nil {
			return m.rej("no account")
		}
		if x.Amount > a.TotalRewards-a.RewardsClaimed {
			return m.rej("more than earned")
		}
		a.RewardsClaimed += x.Amount
		if x.Amount > 0 {
			m.note("team rewards claimed")
		}
		return m.teamPay(x.Recipient, x.Amount)
	case *teamtypes.MsgClaimAuthorityRewards:
		if x.Authority != foundry {
			return m.rej("authority")
		}
		if x.Amount > m.Auth.TotalRewards-m.Auth.RewardsClaimed {
			return m.rej("more than earned")
		}
		m.Auth.RewardsClaimed += x.Amount
		if x.Amount > 0 {
			m.note("authority rewards claimed")
		}
		return m.teamPay(x.Recipient, x.Amount)
	case *banktypes.MsgSend:
		b := bagOf(x.Amount)
		return m.move(m.balKey(x.FromAddress), m.balKey(x.ToAddress), b)
	default:
		if mod, auth, payload, ok := paramMsg(msg); ok {
			if auth != govAuthority {
				return m.rej("authority")
			}
			if !m.paramsOK(mod, payload) {
				return m.rej("invalid parameters")
			}
			m.note("params changed")
			return true
		}
		panic(fmt.Sprintf("model: unknown message %T", msg))
	}
	return true
}

var govAuthority string

func hexID(s string) bool {
	if s == "" {
		return true
	}
	if len(s) != 16 {
		return false
	}
	for _, c := range s {
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
			return false
		}
	}
	return true
}

func (m *M) teamPay(to string, x uint64) bool {
	if _, err := sdk.AccAddressFromBech32(to); err != nil {
		return m.rej("recipient")
	}
	return m.move(kTeam, to, bagU(UKYVE, x))
}

func paramMsg(msg sdk.Msg) (mod, auth, payload string, ok bool) {
	switch x := msg.(type) {
	case *bundlestypes.MsgUpdateParams:
		return "bundles", x.Authority, x.Payload, true
	case *delegationtypes.MsgUpdateParams:
		return "delegation", x.Authority, x.Payload, true
	case *stakerstypes.MsgUpdateParams:
		return "stakers", x.Authority, x.Payload, true
	case *pooltypes.MsgUpdateParams:
		return "pool", x.Authority, x.Payload, true
	case *funderstypes.MsgUpdateParams:
		return "funders", x.Authority, x.Payload, true
	case *globaltypes.MsgUpdateParams:
		return "global", x.Authority, x.Payload, true
	}
	return
}

func (m *M) submit(x *bundlestypes.MsgSubmitBundleProposal) bool {
	if r := m.canPropose(x.PoolId, x.Staker, x.Creator, x.FromIndex); r != "" {
		return m.rej("%s", r)
	}
	pl := m.Pools[x.PoolId]
	if x.StorageId == "" || x.BundleSize == 0 || x.BundleSize > pl.MaxBundleSize || x.FromKey == "" || x.ToKey == "" {
		return m.rej("arguments")
	}
	m.resetPoints(x.PoolId, x.Staker)
	q := *m.prop(x.PoolId)
	if q.StorageId == "" {
		m.register(x, m.choose(x.PoolId, nil))
		return true
	}
	d := m.tally(x.PoolId)
	switch d.status {
	case "valid":
		next := m.choose(x.PoolId, func(s string) bool { return has(q.VotersValid, s) })
		m.finalize(x.PoolId, q, d, next)
		m.register(x, next)
	case "invalid":
		m.dropEvent(x.PoolId, q, d, q.NextUploader)
		m.empty(x.PoolId, q.NextUploader)
	default:
		return m.rej("no quorum")
	}
	return true
}

func (m *M) updatePool(x *pooltypes.MsgUpdatePool) bool {
	if x.Authority != govAuthority {
		return m.rej("authority")
	}
	pl := m.Pools[x.Id]
	var mp map[string]json.RawMessage
	if json.Unmarshal([]byte(x.Payload), &mp) != nil {
		return m.rej("payload")
	}
	if pl == nil {
		return m.rej("pool")
	}
	str := func(k string, p *string) bool {
		if r, ok := mp[k]; ok {
			return json.Unmarshal(r, p) == nil
		}
		return true
	}
	u64 := func(k string, p *uint64, pos bool) bool {
		if r, ok := mp[k]; ok {
			if json.Unmarshal(r, p) != nil || pos && *p == 0 {
				return false
			}
		}
		return true
	}
	u32 := func(k string, p *uint32) bool {
		if r, ok := mp[k]; ok {
			return json.Unmarshal(r, p) == nil
		}
		return true
	}
	if !str("Name", &pl.Name) || !str("Runtime", &pl.Runtime) || !str("Logo", &pl.Logo) || !str("Config", &pl.Config) || !str("EndKey", &pl.EndKey) ||
		!u64("UploadInterval", &pl.UploadInterval, true) || !u64("MinDelegation", &pl.MinDelegation, false) || !u64("MaxBundleSize", &pl.MaxBundleSize, true) ||
		!u32("StorageProviderId", &pl.CurrentStorageProviderId) || !u32("CompressionId", &pl.CurrentCompressionId) {
		return m.rej("payload field")
	}
	if r, ok := mp["InflationShareWeight"]; ok {
		var s string
		if json.Unmarshal(r, &s) != nil {
			return m.rej("weight")
		}
		d, err := math.LegacyNewDecFromStr(s)
		if err != nil || d.IsNegative() || d.GT(maxDec) {
			return m.rej("weight")
		}
		pl.InflationShareWeight = d
	}
	m.note("pool updated")
	return true
}

// ---- funders ------------------------------------------------------------------------------------------

func (m *M) cleanPer(f *FundingSt) {
	per := Bag{}
	for d, v := range f.Per {
		if f.Amt.get(d).Sign() > 0 {
			per[d] = v
		}
	}
	f.Per = per
}

func (m *M) fundingRules(f *FundingSt) bool {
	for d := range f.Amt {
		w := m.wl(d)
		if w == nil {
			m.note("fund: not whitelisted")
			return m.rej("not whitelisted")
		}
		per := f.Per.get(d)
		if per.Sign() <= 0 {
			return m.rej("no amount per bundle")
		}
		if f.Amt[d].Cmp(w.MinAmt) < 0 {
			m.note("fund: below minimum")
			return m.rej("below minimum")
		}
		if per.Cmp(w.MinPer) < 0 {
			m.note("fund: below minimum per bundle")
			return m.rej("below minimum per bundle")
		}
		if new(big.Int).Mul(per, bigU(m.P.FundMult)).Cmp(f.Amt[d]) > 0 {
			m.note("fund: below multiple")
			return m.rej("below multiple")
		}
	}
	return true
}

func (m *M) score(f *FundingSt) *big.Int {
	s := big0()
	for d, v := range f.Amt {
		if w := m.wl(d); w != nil {
			u := ratI(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(w.Dec)), nil))
			s.Add(s, floorR(quoR(mulR(w.W, ratI(v)), u)))
		}
	}
	return s
}

func (m *M) fundPool(x *funderstypes.MsgFundPool) bool {
	if x.Amounts.Empty() && x.AmountsPerBundle.Empty() {
		return m.rej("empty")
	}
	if !x.Amounts.Empty() && !validCoins(x.Amounts) || !x.AmountsPerBundle.Empty() && !validCoins(x.AmountsPerBundle) {
		return m.rej("invalid coins")
	}
	if _, ok := m.Funders[x.Creator]; !ok {
		return m.rej("no funder")
	}
	if m.Pools[x.PoolId] == nil {
		return m.rej("no pool")
	}
	add, per := bagOf(x.Amounts), bagOf(x.AmountsPerBundle)
	k := pk(x.PoolId, x.Creator)
	old := m.Fund[k]
	f := &FundingSt{add, per, Bag{}}
	if old != nil {
		f = &FundingSt{old.Amt.add(add), old.Per.clone(), old.Total}
		for d, v := range per {
			f.Per[d] = v
		}
	}
	m.cleanPer(f)
	if f.Amt.empty() {
		m.note("fund: nothing funded") // the funder is listed until the next charge (pinned by the existing tests)
	}
	if !m.fundingRules(f) {
		return false
	}
	if !has(m.FS[x.PoolId], x.Creator) && len(m.FS[x.PoolId]) >= 50 {
		low := ""
		for _, a := range m.FS[x.PoolId] {
			if low == "" || m.score(m.Fund[pk(x.PoolId, a)]).Cmp(m.score(m.Fund[pk(x.PoolId, low)])) < 0 {
				low = a
			}
		}
		lf := m.Fund[pk(x.PoolId, low)]
		if m.score(f).Cmp(m.score(lf)) < 0 {
			m.note("funders full: rejected")
			return m.rej("funds too low")
		}
		for _, a := range m.FS[x.PoolId] {
			// any one of the lowest-valued ones may go
			if m.score(m.Fund[pk(x.PoolId, a)]).Cmp(m.score(lf)) == 0 && !has(m.post.FS[x.PoolId], a) {
				low = a
			}
		}
		lf = m.Fund[pk(x.PoolId, low)]
		if !m.move(kFund, low, lf.Amt) {
			return false
		}
		m.Fund[pk(x.PoolId, low)] = &FundingSt{Bag{}, Bag{}, lf.Total}
		m.emit("funders.EventDefundPool", "pool_id", x.PoolId, "address", low, "amounts", evBag{lf.Amt, 0})
		m.setInactive(x.PoolId, low)
		m.note("funders full: evicted")
	}
	if !m.move(x.Creator, kFund, add) {
		return false
	}
	if !has(m.FS[x.PoolId], x.Creator) {
		m.FS[x.PoolId] = append(m.FS[x.PoolId], x.Creator)
	}
	m.Fund[k] = f
	m.note("funded")
	return true
}

func (m *M) defundPool(x *funderstypes.MsgDefundPool) bool {
	if x.Amounts.Empty() || !validCoins(x.Amounts) {
		return m.rej("amounts")
	}
	k := pk(x.PoolId, x.Creator)
	old := m.Fund[k]
	if old == nil {
		return m.rej("no funding")
	}
	b := old.Amt.min(bagOf(x.Amounts))
	if b.empty() {
		return m.rej("nothing to return")
	}
	f := &FundingSt{old.Amt.sub(b), old.Per.clone(), old.Total}
	m.cleanPer(f)
	if !m.fundingRules(f) {
		return false
	}
	if f.Amt.empty() {
		m.setInactive(x.PoolId, x.Creator)
		m.note("defunded all")
	}
	m.Fund[k] = f
	m.note("defunded")
	return m.move(kFund, x.Creator, b)
}

// ---- team ------------------------------------------------------------------------------------------------

const (
	yearSec  = uint64(365 * 24 * 3600)
	cliffSec = yearSec
	vestSec  = 3 * yearSec
	unlkSec  = 2 * yearSec
)

// vested is the published schedule: nothing before one year, then linear over three years, frozen at a clawback.
func vested(a *teamtypes.TeamVestingAccount, t uint64) uint64 {
	if a.Clawback > 0 && t > a.Clawback {
		t = a.Clawback
	}
	if t < a.Commencement {
		return 0
	}
	el := t - a.Commencement
	if el < cliffSec {
		return 0
	}
	if el >= vestSec {
		return a.TotalAllocation
	}
	n := new(big.Int).Mul(bigU(a.TotalAllocation), bigU(el))
	return n.Quo(n, bigU(vestSec)).Uint64()
}

func vestMax(a *teamtypes.TeamVestingAccount) uint64 {
	end := a.Commencement + vestSec
	if end < a.Commencement {
		end = ^uint64(0)
	}
	return vested(a, end)
}

// unlocked: starting one year after the later of commencement and TGE, linear over two years, of what is vested.
func unlocked(a *teamtypes.TeamVestingAccount, t uint64) uint64 {
	start := a.Commencement
	if start < teamtypes.TGE {
		start = teamtypes.TGE
	}
	if start+cliffSec < start {
		return 0
	}
	start += cliffSec
	if t < start {
		return 0
	}
	if t-start >= unlkSec {
		return vestMax(a)
	}
	n := new(big.Int).Mul(bigU(vested(a, t)), bigU(t-start))
	return n.Quo(n, bigU(unlkSec)).Uint64()
}

func (s *St) issued() *big.Int {
	x := big0()
	for _, a := range s.TeamA {
		x.Add(x, bigU(vestMax(a)))
	}
	return x
}

func (s *St) teamOwed() *big.Int {
	x := bigU(teamtypes.TEAM_ALLOCATION)
	x.Add(x, bigU(s.Auth.TotalRewards-s.Auth.RewardsClaimed))
	for _, a := range s.TeamA {
		x.Add(x, bigU(a.TotalRewards-a.RewardsClaimed))
		x.Sub(x, bigU(a.UnlockedClaimed))
	}
	return x
}

// ---- begin and end of blocks -----------------------------------------------------------------------------

func (m *M) begin(minted *big.Int) {
	pre := m.St
	m.Supply = m.Supply.add(bag1(UKYVE, minted))
	m.Bal[kFee] = m.Bal[kFee].add(bag1(UKYVE, minted))
	// team share
	supply0 := new(big.Int).Sub(m.Supply.get(UKYVE), minted)
	share := floorR(quoR(mulR(ratI(pre.teamOwed()), ratI(minted)), ratI(supply0)))
	actual := new(big.Int).Sub(m.post.Bal[kTeam].get(UKYVE), m.Bal[kTeam].get(UKYVE))
	if d := new(big.Int).Sub(actual, share); d.Abs(d).Cmp(big.NewInt(1)) <= 0 {
		share = actual // 18-digit rounding of the share
	}
	m.move(kFee, kTeam, bag1(UKYVE, share))
	sum := big0()
	for _, id := range sortedU(m.TeamA) {
		a := m.TeamA[id]
		v := vested(a, uint64(m.T))
		r := floorR(quoR(mulR(ratU(v-a.UnlockedClaimed), ratI(share)), ratU(teamtypes.TEAM_ALLOCATION)))
		if m.post.TeamA[id] != nil {
			got := m.post.TeamA[id].TotalRewards - a.TotalRewards
			if g := new(big.Int).Sub(bigU(got), r); g.Abs(g).Cmp(big.NewInt(1)) <= 0 && got != r.Uint64() {
				r = bigU(got)
				m.note("team share rounding")
			}
		}
		a.TotalRewards += r.Uint64()
		sum.Add(sum, r)
		if r.Sign() > 0 {
			m.note("team account rewarded")
		}
	}
	m.Auth.TotalRewards += new(big.Int).Sub(share, sum).Uint64()
	// protocol share; x/bundles asks x/team for its part again, after x/team has credited this block's rewards
	// (the existing tests pin the resulting amounts)
	part := floorR(quoR(mulR(ratI(m.teamOwed()), ratI(minted)), ratI(supply0)))
	rem := new(big.Int).Sub(minted, part)
	prot := floorR(mulR(ratI(rem), m.P.InflShare))
	if prot.Sign() > 0 {
		var run []uint64
		w := new(big.Rat)
		for _, p := range sortedU(m.Pools) {
			if m.canRun(p) == "" {
				run = append(run, p)
				w.Add(w, ratDec(m.Pools[p].InflationShareWeight))
			}
		}
		m.note(fmt.Sprintf("inflation split %d of %d", len(run), len(m.Pools)))
		if w.Sign() > 0 {
			m.note("inflation split")
			got := big0()
			bad := false
			n := big.NewInt(2) // rounding of the 18-digit shares
			inRun := map[uint64]bool{}
			for _, p := range run {
				inRun[p] = true
			}
			rest := big0() // what went to the pools that cannot run, when it is the same everywhere
			same := true
			first := true
			var idle []uint64
			for _, p := range sortedU(m.Pools) {
				if inRun[p] {
					continue
				}
				key := fmt.Sprintf("pool:%d", p)
				act := new(big.Int).Sub(m.post.Bal[key].get(UKYVE), m.Bal[key].get(UKYVE))
				if !first && act.Cmp(rest) != 0 {
					same = false
				}
				first = false
				rest.Set(act)
				idle = append(idle, p)
			}
			for _, p := range run {
				key := fmt.Sprintf("pool:%d", p)
				exp := floorR(quoR(mulR(ratDec(m.Pools[p].InflationShareWeight), ratI(prot)), w))
				act := new(big.Int).Sub(m.post.Bal[key].get(UKYVE), m.Bal[key].get(UKYVE))
				d := new(big.Int).Sub(act, exp)
				if p == run[0] { // the first running pool also gets what rounding leaves over
					if d.Cmp(new(big.Int).Add(n, big.NewInt(2*int64(len(run))))) > 0 || d.Cmp(big.NewInt(-2)) < 0 {
						bad = true
					}
				} else if d.Abs(d).Cmp(n) > 0 {
					bad = true
				}
				got.Add(got, act)
			}
			cands := []*big.Int{prot}
			for _, e := range []int64{1, -1} { // the 18-digit share may round the team's part the other way
				cands = append(cands, floorR(mulR(ratI(new(big.Int).Add(rem, big.NewInt(e))), m.P.InflShare)))
			}
			found := false
			for _, c := range cands {
				if !bad && !found && got.Cmp(c) == 0 && same && rest.Sign() == 0 {
					prot, found = c, true
				}
			}
			for _, c := range cands {
				over := new(big.Int).Sub(c, got)
				if !bad && !found && over.Sign() > 0 && over.Cmp(big.NewInt(2*int64(len(run))+1)) <= 0 && same && (len(idle) == 0 || rest.Cmp(over) == 0) {
					// recorded finding: the remainder goes to every pool that cannot run instead of a running one
					m.known("P01-remainder")
					for _, p := range idle {
						m.move(kFee, fmt.Sprintf("pool:%d", p), bag1(UKYVE, rest))
					}
					prot, found = got, true
				}
			}
			if !bad && got.Cmp(prot) == 0 {
				for _, p := range run {
					key := fmt.Sprintf("pool:%d", p)
					act := new(big.Int).Sub(m.post.Bal[key].get(UKYVE), m.Bal[key].get(UKYVE))
					m.move(kFee, key, bag1(UKYVE, act))
				}
			} else {
				left := new(big.Int).Set(prot)
				for i, p := range run {
					key := fmt.Sprintf("pool:%d", p)
					exp := floorR(quoR(mulR(ratDec(m.Pools[p].InflationShareWeight), ratI(prot)), w))
					m.move(kFee, key, bag1(UKYVE, exp))
					left.Sub(left, exp)
					_ = i
				}
				m.move(kFee, fmt.Sprintf("pool:%d", run[0]), bag1(UKYVE, left))
			}
		} else {
			m.note("inflation split: nobody")
		}
	}
	// the rest goes to the chain: whatever is left in the fee collector moves to x/distribution
	m.move(kFee, kDistr, m.Bal[kFee])
	// unbonding
	for len(m.Unb) > 0 {
		e := m.Unb[0]
		if addU(e.Created, m.P.Unbond).Cmp(big.NewInt(m.T)) > 0 {
			break
		}
		m.Unb = m.Unb[1:]
		x := m.decrease(e.Staker, e.Creator, e.Amt)
		m.move(kDel, e.Creator, bagU(UKYVE, x))
		m.emit("delegation.EventUndelegate", "address", e.Creator, "staker", e.Staker, "amount", x)
		if x < e.Amt {
			m.note("unbonding paid less")
		}
		m.note("unbonding executed")
	}
	// commission changes, then pool leaves
	for _, s := range sortedKeys(m.CommQ) {
		e := m.CommQ[s][0]
		if addU(uint64(e.Created), m.P.CommTime).Cmp(big.NewInt(m.T)) <= 0 {
			delete(m.CommQ, s)
			m.Stakers[s].Comm = e.Comm
			m.emit("stakers.EventUpdateCommission", "staker", s, "commission", e.Comm)
			m.note("commission changed")
		}
	}
	for _, k := range sortedKeys(m.LeaveQ) {
		if addU(uint64(m.LeaveQ[k][0]), m.P.LeaveTime).Cmp(big.NewInt(m.T)) <= 0 {
			p, s := splitPk(k)
			delete(m.LeaveQ, k)
			if m.Val[p][s] != nil {
				m.removeMember(p, s)
				m.note("left pool")
			}
		}
	}
}

func addU(a, b uint64) *big.Int { return new(big.Int).Add(bigU(a), bigU(b)) }

func splitPk(k string) (uint64, string) {
	var p uint64
	i := 0
	for ; k[i] != '|'; i++ {
		p = p*10 + uint64(k[i]-'0')
	}
	return p, k[i+1:]
}

func (m *M) end() {
	// runtime upgrades
	for _, p := range sortedU(m.Pools) {
		pl := m.Pools[p]
		u := pl.UpgradePlan
		if u.ScheduledAt > 0 && uint64(m.T) >= u.ScheduledAt {
			if pl.Protocol.Version != u.Version || pl.Protocol.Binaries != u.Binaries {
				pl.Protocol = &pooltypes.Protocol{Version: u.Version, Binaries: u.Binaries, LastUpgrade: u.ScheduledAt}
				m.note("upgrade installed")
			}
			if addU(u.ScheduledAt, u.Duration).Cmp(big.NewInt(m.T)) <= 0 {
				pl.UpgradePlan = &pooltypes.UpgradePlan{}
				m.note("upgrade finished")
			}
		}
	}
	for _, p := range sortedU(m.Pools) {
		m.endPool(p)
	}
	// burn
	if m.H > 1 {
		burn := bagMulFloor(bag1(UKYVE, m.Bal[kFee].get(UKYVE)), m.P.BurnRatio)
		if !burn.empty() {
			m.note("burned")
		}
		m.Bal[kFee] = m.Bal[kFee].sub(burn)
		m.Supply = m.Supply.sub(burn)
	}
}

func (m *M) endPool(p uint64) {
	r := m.canRun(p)
	q := *m.prop(p)
	if r != "" {
		if r == "disabled" && q.StorageId != "" {
			m.dropEvent(p, q, dist{status: "disabled"}, "")
			m.empty(p, "")
			m.note("dropped: disabled")
		} else if q.NextUploader != "" {
			q.NextUploader = ""
			m.Prop[p] = &q
			m.note("uploader cleared")
		}
		return
	}
	due := addU(q.UpdatedAt, m.Pools[p].UploadInterval)
	if due.Cmp(big.NewInt(m.T)) > 0 {
		return
	}
	if q.StorageId != "" {
		if d := m.votes(p); d.status == "none" {
			m.nonVoters(p)
			next := m.choose(p, nil)
			m.dropEvent(p, q, d, next)
			m.empty(p, next)
			m.note("dropped: no quorum")
			return
		}
	}
	if due.Add(due, bigU(m.P.UploadTimeout)).Cmp(big.NewInt(m.T)) > 0 {
		return
	}
	m.note("upload timeout")
	late := q.NextUploader
	if q.StorageId != "" {
		d := m.tally(p)
		if d.status == "valid" {
			next := m.choose(p, func(s string) bool { return has(q.VotersValid, s) })
			m.finalize(p, q, d, next)
			m.empty(p, next)
		} else {
			next := m.choose(p, nil)
			m.dropEvent(p, q, d, next)
			m.empty(p, next)
		}
	} else {
		q.NextUploader = m.choose(p, nil)
		q.UpdatedAt = uint64(m.T)
		m.Prop[p] = &q
	}
	if m.Val[p][late] != nil {
		m.addPoint(p, late)
	}
}

var _ = sort.Strings

// maxDec is the largest inflation share weight a pool may have.
var maxDec = math.LegacyNewDec(1e18)
