package main

import (
	"fmt"
	"math/big"
	"sort"

	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
)

// Diff is one disagreement between the model and the chain.
type Diff struct {
	Comp   string // which part of the state (or "accept", "halt", "inv:...")
	Why    string // the rule behind an expected rejection
	Key    string
	Detail string
}

func (d Diff) String() string { return fmt.Sprintf("[%s] %s: %s", d.Comp, pretty(d.Key), d.Detail) }

func pretty(k string) string {
	if n, ok := nameOf[k]; ok {
		return n
	}
	out := ""
	last := 0
	for i := 0; i <= len(k); i++ {
		if i == len(k) || k[i] == '|' {
			out += nm(k[last:i])
			if i < len(k) {
				out += "|"
			}
			last = i + 1
		}
	}
	return out
}

type differ struct{ out []Diff }

func (d *differ) add(comp, key, f string, a ...any) {
	d.out = append(d.out, Diff{Comp: comp, Key: key, Detail: fmt.Sprintf(f, a...)})
}

func unionKeys[V, W any](a map[string]V, b map[string]W) []string {
	m := map[string]bool{}
	for k := range a {
		m[k] = true
	}
	for k := range b {
		m[k] = true
	}
	return sortedKeys(m)
}
func unionU[V, W any](a map[uint64]V, b map[uint64]W) []uint64 {
	m := map[uint64]bool{}
	for k := range a {
		m[k] = true
	}
	for k := range b {
		m[k] = true
	}
	return sortedU(m)
}

func (m *M) compare() []Diff {
	d := &differ{}
	p := m.post
	// stakers
	for _, k := range unionKeys(m.Stakers, p.Stakers) {
		a, b := m.Stakers[k], p.Stakers[k]
		if a == nil || b == nil {
			d.add("staker", k, "exists: expected %v, got %v", a != nil, b != nil)
			continue
		}
		if a.Comm.Cmp(b.Comm) != 0 {
			d.add("commission", k, "expected %s, got %s", a.Comm.RatString(), b.Comm.RatString())
		}
		if a.Meta != b.Meta {
			d.add("meta", k, "expected %s, got %s", a.Meta, b.Meta)
		}
		if !a.Rew.within(b.Rew, m.tolRew[k]) {
			d.add("commrew", k, "expected %s, got %s", a.Rew, b.Rew)
		}
	}
	for _, pid := range unionU(m.Val, p.Val) {
		for _, s := range unionKeys(m.Val[pid], p.Val[pid]) {
			a, b := m.Val[pid][s], p.Val[pid][s]
			k := pk(pid, s)
			if a == nil || b == nil {
				d.add("member", k, "member: expected %v, got %v", a != nil, b != nil)
				continue
			}
			if a.Addr != b.Addr {
				d.add("valaddr", k, "expected %s, got %s", nm(a.Addr), nm(b.Addr))
			}
			if a.Points != b.Points {
				d.add("points", k, "expected %d, got %d", a.Points, b.Points)
			}
			if a.Leaving != b.Leaving {
				d.add("leaving", k, "expected %v, got %v", a.Leaving, b.Leaving)
			}
		}
	}
	for _, pid := range unionU(m.Count, p.Count) {
		if m.Count[pid] != p.Count[pid] {
			d.add("count", fmt.Sprint(pid), "member count: expected %d, got %d", m.Count[pid], p.Count[pid])
		}
	}
	for _, k := range unionKeys(m.CommQ, p.CommQ) {
		if x, y := fmtComm(m.CommQ[k]), fmtComm(p.CommQ[k]); x != y {
			d.add("commq", k, "pending commission: expected %s, got %s", x, y)
		}
	}
	for _, k := range unionKeys(m.LeaveQ, p.LeaveQ) {
		if x, y := fmt.Sprint(m.LeaveQ[k]), fmt.Sprint(p.LeaveQ[k]); x != y {
			d.add("leaveq", k, "pending leave: expected %s, got %s", x, y)
		}
	}
	// delegation
	for _, s := range unionKeys(m.Del, p.Del) {
		a, b := m.Del[s], p.Del[s]
		if a == nil {
			a = &DelData{D: map[string]*DelSt{}}
		}
		if b == nil {
			b = &DelData{D: map[string]*DelSt{}}
		}
		if a.Total != b.Total {
			d.add("deltotal", s, "total delegation: expected %d, got %d", a.Total, b.Total)
		}
		if a.N != b.N {
			d.add("delcount", s, "delegator count: expected %d, got %d", a.N, b.N)
		}
		for _, u := range unionKeys(a.D, b.D) {
			x, y := a.D[u], b.D[u]
			if x == nil || y == nil {
				d.add("del", sk(s, u), "delegation exists: expected %v, got %v", x != nil, y != nil)
				continue
			}
			lo, hi := floorR(x.Lo), floorR(x.Hi)
			if bigU(y.Amt).Cmp(lo) < 0 || bigU(y.Amt).Cmp(hi) > 0 {
				d.add("del", sk(s, u), "stake: expected %s..%s, got %d", lo, hi, y.Amt)
			}
		}
	}
	for _, k := range unionKeys(m.Out, p.Out) {
		a, b := m.Out[k], p.Out[k]
		lo, hi := a, a
		if or := m.outAdd[k]; or != nil {
			lo, hi = a.add(or.lo), a.add(or.hi)
		}
		for _, den := range bagDenoms(lo, hi, b) {
			if b.get(den).Cmp(lo.get(den)) < 0 || b.get(den).Cmp(hi.get(den)) > 0 {
				d.add("out", k, "outstanding %s: expected %s..%s, got %s", den, lo.get(den), hi.get(den), b.get(den))
			}
		}
	}
	if x, y := fmtUnb(m.Unb), fmtUnb(p.Unb); x != y {
		d.add("unb", "queue", "expected %s, got %s", x, y)
	}
	for _, k := range unionKeys(m.Red, p.Red) {
		if x, y := fmt.Sprint(m.Red[k]), fmt.Sprint(p.Red[k]); x != y {
			d.add("red", k, "redelegation spells: expected %s, got %s", x, y)
		}
	}
	// pools
	if m.PoolCnt != p.PoolCnt {
		d.add("poolcnt", "", "expected %d, got %d", m.PoolCnt, p.PoolCnt)
	}
	for _, id := range unionU(m.Pools, p.Pools) {
		a, b := m.Pools[id], p.Pools[id]
		if a == nil || b == nil {
			d.add("pool", fmt.Sprint(id), "exists: expected %v, got %v", a != nil, b != nil)
			continue
		}
		if x, y := poolCore(a), poolCore(b); x != y {
			d.add("pool", fmt.Sprint(id), "expected %s, got %s", x, y)
		}
		if x, y := poolHead(a), poolHead(b); x != y {
			d.add("poolhead", fmt.Sprint(id), "expected %s, got %s", x, y)
		}
		if x, y := fmt.Sprint(*a.Protocol, *a.UpgradePlan), fmt.Sprint(*b.Protocol, *b.UpgradePlan); x != y {
			d.add("poolup", fmt.Sprint(id), "expected %s, got %s", x, y)
		}
	}
	// funders
	for _, k := range unionKeys(m.Funders, p.Funders) {
		if m.Funders[k] != p.Funders[k] {
			d.add("funder", k, "expected %s, got %s", m.Funders[k], p.Funders[k])
		}
	}
	for _, k := range unionKeys(m.Fund, p.Fund) {
		a, b := m.Fund[k], p.Fund[k]
		if a == nil || b == nil {
			d.add("funding", k, "exists: expected %v, got %v", a != nil, b != nil)
			continue
		}
		if !a.Amt.eq(b.Amt) || !a.Per.eq(b.Per) || !a.Total.eq(b.Total) {
			d.add("funding", k, "expected %s per %s charged %s, got %s per %s charged %s", a.Amt, a.Per, a.Total, b.Amt, b.Per, b.Total)
		}
	}
	for _, id := range unionU(m.FS, p.FS) {
		if x, y := fmtSet(m.FS[id]), fmtSet(p.FS[id]); x != y {
			d.add("active", fmt.Sprint(id), "active funders: expected %s, got %s", x, y)
		}
	}
	// bundles
	for _, id := range unionU(m.Prop, p.Prop) {
		a, b := m.prop(id), p.prop(id)
		if sel := m.sel[id]; sel != nil && !sel.elig[b.NextUploader] {
			d.add("select", fmt.Sprint(id), "selected uploader %q is not among the eligible %s", nm(b.NextUploader), fmtMap(sel.elig))
		}
		if a.NextUploader != b.NextUploader {
			d.add("next", fmt.Sprint(id), "next uploader: expected %q, got %q", nm(a.NextUploader), nm(b.NextUploader))
		}
		if a.UpdatedAt != b.UpdatedAt {
			d.add("updated", fmt.Sprint(id), "updated at: expected %d, got %d", a.UpdatedAt, b.UpdatedAt)
		}
		if x, y := propVotes(a), propVotes(b); x != y {
			d.add("votes", fmt.Sprint(id), "expected %s, got %s", x, y)
		}
		if x, y := propData(a), propData(b); x != y {
			d.add("prop", fmt.Sprint(id), "expected %s, got %s", x, y)
		}
	}
	for _, id := range unionU(m.Fin, p.Fin) {
		a, b := m.Fin[id], p.Fin[id]
		if len(a) != len(b) {
			d.add("fincount", fmt.Sprint(id), "finalized bundles: expected %d, got %d", len(a), len(b))
		}
		for i := 0; i < len(a) && i < len(b); i++ {
			if x, y := finStr(&a[i]), finStr(&b[i]); x != y {
				d.add("fin", fmt.Sprintf("%d/%d", id, i), "expected %s, got %s", x, y)
			}
		}
	}
	// team
	if m.TeamCnt != p.TeamCnt {
		d.add("teamcnt", "", "expected %d, got %d", m.TeamCnt, p.TeamCnt)
	}
	for _, id := range unionU(m.TeamA, p.TeamA) {
		x, y := fmt.Sprint(m.TeamA[id]), fmt.Sprint(p.TeamA[id])
		if m.TeamA[id] != nil && p.TeamA[id] != nil {
			a, b := *m.TeamA[id], *p.TeamA[id]
			if a.TotalRewards != b.TotalRewards {
				d.add("teamrew", fmt.Sprint(id), "expected %d, got %d", a.TotalRewards, b.TotalRewards)
			}
			a.TotalRewards, b.TotalRewards = 0, 0
			x, y = a.String(), b.String()
		}
		if x != y {
			d.add("team", fmt.Sprint(id), "expected %s, got %s", x, y)
		}
	}
	if m.Auth != p.Auth {
		d.add("teamrew", "authority", "expected %s, got %s", m.Auth.String(), p.Auth.String())
	}
	// money
	for _, k := range unionKeys(m.Bal, p.Bal) {
		if m.anyBal[k] {
			continue
		}
		if !m.Bal[k].within(p.Bal[k], m.tolBal[k]) {
			comp := "wallet"
			if len(k) > 4 && k[:4] == "mod:" {
				comp = k
			} else if len(k) > 5 && k[:5] == "pool:" {
				comp = "poolacc"
			}
			d.add(comp, k, "balance: expected %s, got %s", m.Bal[k], p.Bal[k])
		}
	}
	if !m.Supply.eq(p.Supply) {
		d.add("supply", "", "expected %s, got %s", m.Supply, p.Supply)
	}
	return d.out
}

// compareComm checks the community pool exactly (not in begin-block, where x/distribution adds to it).
func (m *M) compareComm() []Diff {
	d := &differ{}
	ks := map[string]bool{}
	for k := range m.Comm {
		ks[k] = true
	}
	for k := range m.post.Comm {
		ks[k] = true
	}
	for _, k := range sortedKeys(ks) {
		a, b := ratOr0(m.Comm[k]), ratOr0(m.post.Comm[k])
		if a.Cmp(b) != 0 {
			d.add("treasury", k, "community pool: expected %s, got %s", a.RatString(), b.RatString())
		}
	}
	return d.out
}

func fmtComm(l []CommEntry) string {
	s := ""
	for _, e := range l {
		s += fmt.Sprintf("%s@%d ", e.Comm.RatString(), e.Created)
	}
	return s
}
func fmtUnb(l []UnbSt) string {
	s := ""
	for _, e := range l {
		s += fmt.Sprintf("%s<-%s:%d@%d ", nm(e.Creator), nm(e.Staker), e.Amt, e.Created)
	}
	return s
}
func fmtSet(l []string) string {
	r := make([]string, 0, len(l))
	for _, x := range l {
		r = append(r, nm(x))
	}
	sort.Strings(r)
	return fmt.Sprint(r)
}
func fmtMap(m map[string]bool) string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	return fmtSet(l)
}

func poolCore(p *pooltypes.Pool) string {
	q := *p
	q.Protocol, q.UpgradePlan = nil, nil
	q.TotalBundles, q.CurrentIndex, q.CurrentKey, q.CurrentSummary = 0, 0, "", ""
	return q.String()
}
func poolHead(p *pooltypes.Pool) string {
	return fmt.Sprintf("bundles %d index %d key %q summary %q", p.TotalBundles, p.CurrentIndex, p.CurrentKey, p.CurrentSummary)
}
func propVotes(p *bundlestypes.BundleProposal) string {
	return fmt.Sprintf("valid %s invalid %s abstain %s", fmtSet(p.VotersValid), fmtSet(p.VotersInvalid), fmtSet(p.VotersAbstain))
}
func propData(p *bundlestypes.BundleProposal) string {
	q := *p
	q.VotersValid, q.VotersInvalid, q.VotersAbstain = nil, nil, nil
	q.NextUploader, q.UpdatedAt = "", 0
	q.Uploader = nm(q.Uploader)
	return q.String()
}
func finStr(f *bundlestypes.FinalizedBundle) string { return f.String() }

// Invariants that must hold in every state, stated directly (independent of the step model).
func invariants(s *St, dustSlack Bag) []Diff {
	d := &differ{}
	// D01: the delegation escrow covers every delegation and every unclaimed reward
	need := Bag{}
	for _, st := range sortedKeys(s.Del) {
		dd := s.Del[st]
		sum := big0()
		for u, x := range dd.D {
			sum.Add(sum, bigU(x.Amt))
			need = need.add(s.Out[sk(st, u)])
		}
		need = need.add(bag1(UKYVE, sum))
		if sum.Cmp(bigU(dd.Total)) > 0 {
			d.add("inv:delsum", st, "delegations sum to %s, total is %d", sum, dd.Total)
		}
		if dd.N != uint64(len(dd.D)) {
			d.add("inv:delcount", st, "delegator count %d, delegators %d", dd.N, len(dd.D))
		}
	}
	if !need.leq(s.Bal[kDel]) {
		d.add("inv:delescrow", "", "delegation escrow holds %s, owes %s", s.Bal[kDel], need)
	}
	// S04
	need = Bag{}
	for _, x := range s.Stakers {
		need = need.add(x.Rew)
	}
	if !need.leq(s.Bal[kStk]) {
		d.add("inv:stkescrow", "", "stakers escrow holds %s, owes %s", s.Bal[kStk], need)
	}
	// F01, F02
	need = Bag{}
	for _, x := range s.Fund {
		need = need.add(x.Amt)
	}
	if !need.leq(s.Bal[kFund]) {
		d.add("inv:fundescrow", "", "funders escrow holds %s, owes %s", s.Bal[kFund], need)
	}
	for id, l := range s.FS {
		if len(l) > 50 {
			d.add("inv:funders50", fmt.Sprint(id), "%d active funders", len(l))
		}
		seen := map[string]bool{}
		for _, a := range l {
			if seen[a] {
				d.add("inv:active", pk(id, a), "listed twice")
			}
			seen[a] = true
		}
		for k, f := range s.Fund {
			p, a := splitPk(k)
			if p == id && !f.Amt.empty() && !seen[a] {
				d.add("inv:active", k, "funds %s but listed %v", f.Amt, seen[a])
			}
		}
	}
	// S02, S01
	for id := range s.Pools {
		if s.Count[id] != uint64(len(s.Val[id])) {
			d.add("inv:count", fmt.Sprint(id), "count %d, members %d", s.Count[id], len(s.Val[id]))
		}
		if len(s.Val[id]) > 50 {
			d.add("inv:members50", fmt.Sprint(id), "%d members", len(s.Val[id]))
		}
		seen := map[string]string{}
		for st, v := range s.Val[id] {
			if o, ok := seen[v.Addr]; ok {
				d.add("inv:valaddr", pk(id, v.Addr), "used by %s and %s", nm(o), nm(st))
			}
			seen[v.Addr] = st
			if v.Addr == st {
				d.add("inv:valaddr", pk(id, st), "own address")
			}
		}
	}
	own := map[string]bool{}
	for id := range s.Val {
		for st, v := range s.Val[id] {
			if own[sk(st, v.Addr)] {
				d.add("inv:valaddr", sk(st, v.Addr), "same protocol address in two pools")
			}
			own[sk(st, v.Addr)] = true
		}
	}
	// B01
	for id, p := range s.Pools {
		l := s.Fin[id]
		idx := uint64(0)
		for i := range l {
			if l[i].Id != uint64(i) || l[i].FromIndex != idx || l[i].ToIndex <= l[i].FromIndex {
				d.add("inv:chain", fmt.Sprintf("%d/%d", id, i), "id %d range %d..%d after %d", l[i].Id, l[i].FromIndex, l[i].ToIndex, idx)
			}
			idx = l[i].ToIndex
			ss := l[i].StakeSecurity
			if ss == nil || new(big.Int).Mul(bigU(ss.ValidVotePower), big.NewInt(2)).Cmp(bigU(ss.TotalVotePower)) <= 0 {
				d.add("inv:quorum", fmt.Sprintf("%d/%d", id, i), "finalized with %v", ss)
			}
		}
		if p.TotalBundles != uint64(len(l)) || p.CurrentIndex != idx {
			d.add("inv:head", fmt.Sprint(id), "pool says %d bundles up to %d, archive has %d up to %d", p.TotalBundles, p.CurrentIndex, len(l), idx)
		}
		if n := len(l); n > 0 && (p.CurrentKey != l[n-1].ToKey || p.CurrentSummary != l[n-1].BundleSummary) {
			d.add("inv:head", fmt.Sprint(id), "pool head %q/%q, last bundle %q/%q", p.CurrentKey, p.CurrentSummary, l[n-1].ToKey, l[n-1].BundleSummary)
		}
	}
	// B02: everybody votes once
	for id, q := range s.Prop {
		seen := map[string]bool{}
		for _, l := range [][]string{q.VotersValid, q.VotersInvalid, q.VotersAbstain} {
			for _, v := range l {
				if seen[v] {
					d.add("inv:vote", pk(id, v), "voted twice")
				}
				seen[v] = true
			}
		}
		if q.StorageId != "" && !has(q.VotersValid, q.Uploader) {
			d.add("inv:vote", pk(id, q.Uploader), "uploader does not count as valid")
		}
	}
	// B04: the pool module keeps nothing
	if !s.Bal[kPool].empty() {
		d.add("inv:poolmodule", "", "pool module account holds %s", s.Bal[kPool])
	}
	// S03
	for k, l := range s.LeaveQ {
		p, st := splitPk(k)
		v := s.Val[p][st]
		if v == nil || !v.Leaving || len(l) != 1 {
			d.add("inv:leave", k, "announcements %v of a member %v", l, v != nil)
		}
	}
	for id := range s.Val {
		for st, v := range s.Val[id] {
			if v.Leaving && len(s.LeaveQ[pk(id, st)]) != 1 {
				d.add("inv:leave", pk(id, st), "leaving without an announcement")
			}
		}
	}
	for k, l := range s.CommQ {
		if len(l) != 1 {
			d.add("inv:commq", k, "%d pending commission changes", len(l))
		}
	}
	// T02, T03
	if s.issued().Cmp(bigU(165_000_000_000_000_000)) > 0 {
		d.add("inv:teambudget", "", "issued %s", s.issued())
	}
	if s.Bal[kTeam].get(UKYVE).Cmp(s.teamOwed()) < 0 {
		d.add("inv:teamescrow", "", "team escrow %s, owes %s", s.Bal[kTeam], s.teamOwed())
	}
	return d.out
}
