package main

import "strings"

var registry = map[string]*Prop{}

func reg(p *Prop) { registry[p.ID] = p }

// own builds ownership patterns: every component at every step; "$bundle" etc. expand to message groups.
var groups = map[string]string{
	"$bundle": "tx:MsgSubmitBundleProposal,tx:MsgVoteBundleProposal,tx:MsgClaimUploaderRole,tx:MsgSkipUploaderRole",
	"$eval":   "tx:MsgSubmitBundleProposal,tx:MsgSkipUploaderRole,end",
	"$del":    "tx:MsgDelegate,tx:MsgUndelegate,tx:MsgRedelegate,tx:MsgWithdrawRewards,tx:MsgCreateStaker",
	"$team":   "tx:MsgCreateTeamVestingAccount,tx:MsgClawback,tx:MsgClaimUnlocked,tx:MsgClaimAccountRewards,tx:MsgClaimAuthorityRewards",
	"$pool":   "tx:MsgCreatePool,tx:MsgUpdatePool,tx:MsgDisablePool,tx:MsgEnablePool,tx:MsgScheduleRuntimeUpgrade,tx:MsgCancelRuntimeUpgrade",
	"$fund":   "tx:MsgFundPool,tx:MsgDefundPool",
	"$user": "tx:MsgDelegate,tx:MsgUndelegate,tx:MsgRedelegate,tx:MsgWithdrawRewards,tx:MsgCreateStaker,tx:MsgJoinPool,tx:MsgLeavePool,tx:MsgUpdateCommission,tx:MsgClaimCommissionRewards,tx:MsgUpdateMetadata," +
		"tx:MsgFundPool,tx:MsgDefundPool,tx:MsgCreateFunder,tx:MsgUpdateFunder,tx:MsgVoteBundleProposal,tx:MsgClaimUploaderRole,tx:MsgClaimUnlocked,tx:MsgClaimAccountRewards,tx:MsgClaimAuthorityRewards,tx:MsgCreateTeamVestingAccount,tx:MsgClawback",
}

// own("comp comp @ step step", ...): no steps means all.
func own(l ...string) (r []string) {
	for _, x := range l {
		cs, ss := x, "*"
		if i := strings.Index(x, "@"); i >= 0 {
			cs, ss = x[:i], x[i+1:]
		}
		var steps []string
		for _, s := range strings.Fields(ss) {
			if g, ok := groups[s]; ok {
				s = g
			}
			steps = append(steps, s)
		}
		for _, c := range strings.Fields(cs) {
			r = append(r, c+"@"+strings.Join(steps, ","))
		}
	}
	return
}

func over(p *Profile, f func(q *Profile)) *Profile {
	q := *p
	f(&q)
	return &q
}

var stdProfile = &Profile{Pools: [2]int{1, 3}, Stakers: [2]int{2, 6}, Dels: [2]int{2, 8}, Funders: [2]int{1, 4}, Len: [2]int{30, 90},
	Params: []int64{0, 1, 2, 3, 4, 5}, W: weights(map[string]int{"prmx": 1, "mkpool": 1, "tc": 1, "tclaw": 1, "tclaim": 1, "tcar": 1, "tcauth": 1}), Team: [2]int{0, 3}}

// mixed alternates between profiles.
func mixed(ps ...*Profile) func(r *Rng) *Case {
	return func(r *Rng) *Case { return ps[r.N(len(ps))].gen(r) }
}

// few drops the operations that do not matter to a property.
func few(base map[string]int) map[string]int { return base }

var (
	delProfile = &Profile{Pools: [2]int{1, 2}, Stakers: [2]int{2, 4}, Dels: [2]int{4, 12}, Funders: [2]int{1, 3}, Len: [2]int{30, 100}, Params: []int64{0, 1, 1, 3, 4}, Users: 7,
		W: map[string]int{"blk": 12, "del": 10, "und": 9, "red": 6, "wd": 6, "round": 16, "join": 3, "leave": 1, "mkst": 1, "prm": 1, "fund": 3, "infl": 3, "vote": 2, "skip": 1, "comm": 1, "dis": 1, "en": 2}}
	bundleProfile = &Profile{Pools: [2]int{1, 3}, Stakers: [2]int{3, 7}, Dels: [2]int{2, 8}, Funders: [2]int{1, 3}, Len: [2]int{30, 90}, Params: []int64{0, 0, 1, 2, 3, 3}, Users: 8,
		W: map[string]int{"blk": 14, "del": 4, "und": 4, "red": 3, "round": 18, "sub": 6, "vote": 14, "claim": 4, "skip": 4, "join": 5, "leave": 2, "mkst": 1, "prm": 1, "fund": 2, "infl": 2, "comm": 1, "dis": 1, "en": 5, "upg": 1, "cupg": 2, "updpool": 1}}
	memberProfile = &Profile{Pools: [2]int{2, 4}, Stakers: [2]int{3, 7}, Dels: [2]int{1, 5}, Funders: [2]int{0, 1}, Len: [2]int{30, 100}, Params: []int64{0, 2, 2}, Users: 8,
		W: map[string]int{"blk": 14, "join": 14, "leave": 9, "comm": 7, "mkst": 3, "dis": 2, "en": 4, "round": 5, "xeq": 1, "vote": 6, "sub": 3, "claim": 4, "skip": 2, "prm": 1, "del": 2, "und": 2, "red": 2, "ccr": 1, "meta": 1, "updpool": 1}}
	fundProfile = &Profile{Pools: [2]int{1, 3}, Stakers: [2]int{2, 4}, Dels: [2]int{0, 3}, Funders: [2]int{2, 6}, Len: [2]int{30, 80}, Params: []int64{0, 3, 4, 4}, Users: 8,
		W: map[string]int{"blk": 5, "mkf": 2, "updf": 1, "fund": 18, "defund": 10, "round": 16, "prm": 2, "wl": 2, "infl": 2, "join": 1, "vote": 1, "mkpool": 1, "dis": 1, "en": 2, "skip": 1}}
	teamProfile = &Profile{Pools: [2]int{0, 2}, Stakers: [2]int{0, 2}, Dels: [2]int{0, 1}, Team: [2]int{1, 5}, Len: [2]int{20, 80}, Params: []int64{3, 5}, Users: 5,
		W: map[string]int{"blk": 14, "tc": 6, "tclaw": 7, "tclaim": 10, "tcar": 7, "tcauth": 4, "prm": 1, "infl": 1, "fee": 2}}
	payProfile = &Profile{Pools: [2]int{1, 2}, Stakers: [2]int{2, 4}, Dels: [2]int{1, 6}, Funders: [2]int{1, 5}, Len: [2]int{20, 60}, Params: []int64{0, 0, 1, 3, 4}, Users: 8,
		W: map[string]int{"blk": 5, "round": 20, "fund": 10, "defund": 2, "mkf": 1, "infl": 5, "prm": 3, "wl": 1, "comm": 3, "ccr": 5, "del": 2, "und": 3, "wd": 3, "join": 1, "vote": 1, "skip": 1}}
	poolProfile = &Profile{Pools: [2]int{1, 5}, Stakers: [2]int{2, 5}, Dels: [2]int{1, 4}, Funders: [2]int{0, 2}, Len: [2]int{30, 80}, Params: []int64{0, 3, 3}, Users: 7,
		W: map[string]int{"blk": 16, "mkpool": 4, "updpool": 9, "dis": 6, "en": 7, "upg": 9, "cupg": 4, "join": 7, "leave": 1, "round": 8, "sub": 3, "vote": 3, "claim": 3, "skip": 2, "infl": 4, "prm": 1, "del": 2, "und": 2, "fund": 1}}
	inflProfile = &Profile{Pools: [2]int{2, 6}, Stakers: [2]int{2, 5}, Dels: [2]int{1, 4}, Funders: [2]int{0, 1}, Team: [2]int{0, 3}, Len: [2]int{25, 70}, Params: []int64{3, 3, 5}, Users: 7,
		W: map[string]int{"blk": 26, "updpool": 5, "dis": 4, "en": 5, "upg": 4, "cupg": 2, "join": 6, "leave": 2, "round": 5, "prm": 3, "mkpool": 1, "del": 2, "und": 2, "infl": 1, "tc": 1, "tclaim": 1, "fee": 2}}
	paramProfile = &Profile{Pools: [2]int{1, 3}, Stakers: [2]int{1, 3}, Dels: [2]int{0, 2}, Funders: [2]int{0, 2}, Len: [2]int{20, 70}, Params: nil, Users: 6,
		W: map[string]int{"prmx": 30, "prmz": 3, "prm": 8, "blk": 3, "mkpool": 5, "updpool": 7, "dis": 3, "en": 3, "upg": 4, "cupg": 3, "round": 2, "fund": 1}}
	// a full pool (bulk 0) or a full funder list (bulk 1)
	fullPool = &Profile{Pools: [2]int{1, 2}, Stakers: [2]int{3, 7}, Dels: [2]int{0, 3}, Len: [2]int{15, 40}, Params: []int64{2}, Users: 8, Cfg: map[string]int64{"extra": 1},
		W: map[string]int{"join": 20, "leave": 6, "del": 8, "und": 4, "red": 3, "blk": 5, "mkst": 4, "round": 2, "xjoin": 6, "xdel": 6, "xeq": 6, "dis": 1, "en": 1},
		Pre: func(r *Rng, ops []Op) []Op {
			return insertAfter(ops, "mkpool", Op{"bulk", []int64{0, 0, int64(47 + r.N(4)), r.Arg()}})
		}}
	fullFund = &Profile{Pools: [2]int{1, 2}, Stakers: [2]int{2, 3}, Dels: [2]int{0, 2}, Funders: [2]int{3, 7}, Len: [2]int{15, 40}, Params: []int64{0, 4}, Users: 8, Cfg: map[string]int64{"extra": 1},
		W: map[string]int{"fund": 24, "defund": 6, "blk": 2, "mkf": 2, "round": 4, "prm": 1, "wl": 2, "xfund": 6, "xfeq": 12, "xdefund": 5},
		Pre: func(r *Rng, ops []Op) []Op {
			return insertAfter(ops, "prm", Op{"bulk", []int64{1, 0, int64(48 + r.N(4)), r.Arg()}})
		}}
)

// insertAfter puts an operation behind the last of the given kind that opens the case, or behind the pools.
func insertAfter(ops []Op, kind string, o Op) []Op {
	at := 0
	for i, x := range ops {
		if x.K == kind || x.K == "mkpool" || x.K == "prm" {
			at = i + 1
		}
	}
	return append(append(append([]Op{}, ops[:at]...), o), ops[at:]...)
}

func init() {
	const q = 900 // cases of a quick run
	t := func(n int) int { return n * 22 }
	_ = t
	add := func(id string, gen func(r *Rng) *Case, rule string, hit [][]string, owns ...string) *Prop {
		p := &Prop{ID: id, Gen: gen, Rule: "a case is a generated sequence of operations (messages by arbitrary senders, blocks with chosen times) run against the real application, checked after every step against the model; non-trivial: " + rule, Hit: hit, Own: own(owns...), Quick: q, Thor: t(q)}
		reg(p)
		return p
	}
	h := func(g ...string) [][]string {
		var r [][]string
		for _, x := range g {
			r = append(r, strings.Split(x, "/"))
		}
		return r
	}
	reg(&Prop{ID: "ALL", Own: []string{"*"}, Gen: stdProfile.gen, Quick: 400, Thor: 4000, Rule: "development"})

	p := add("D01", mixed(delProfile, delProfile, stdProfile), "stake was delegated, somebody was slashed or paid, and an exit was executed", h("ok.MsgDelegate", "slashes/payout", "unbonding executed/redelegated/ok.MsgUndelegate"),
		"del deltotal delcount mod:delegation inv:delsum inv:delcount inv:delescrow probe:drain", "wallet accept @ tx:MsgDelegate tx:MsgRedelegate tx:MsgUndelegate tx:MsgCreateStaker", "wallet@begin")
	p.onEnd = append(p.onEnd, drainProbe)
	add("D02", mixed(delProfile, payProfile, delProfile), "a bundle was paid out to delegators and rewards were paid to a wallet", h("payout", "rewards paid"),
		"out mod:delegation inv:delescrow", "wallet @ $del begin", "accept@tx:MsgWithdrawRewards tx:MsgDelegate")
	add("D03", mixed(delProfile, over(delProfile, func(q *Profile) {
		q.W = map[string]int{"blk": 20, "und": 20, "del": 5, "red": 4, "round": 8, "vote": 2, "join": 2, "skip": 2, "prm": 2, "wd": 1, "prmz": 1}
		q.Cfg = map[string]int64{"ext": 1}
	})), "an unbonding request was accepted and one was executed", h("unbonding started", "unbonding executed"),
		"unb", "accept wallet del deltotal delcount out @ tx:MsgUndelegate", "wallet del deltotal delcount mod:delegation @ begin")
	add("D04", mixed(delProfile, over(delProfile, func(q *Profile) {
		q.Stakers = [2]int{3, 5}
		q.Params = []int64{1, 1, 1, 0}
		q.W = map[string]int{"blk": 16, "red": 26, "del": 5, "und": 2, "join": 3, "leave": 2, "round": 3, "prm": 2, "mkst": 1, "dis": 1, "en": 1, "prmz": 1}
		q.Cfg = map[string]int64{"ext": 1}
	})), "a redelegation succeeded and another was rejected", h("redelegated", "rej.MsgRedelegate"),
		"red", "accept del deltotal delcount out wallet mod:delegation unb @ tx:MsgRedelegate")
	add("S01", mixed(memberProfile, memberProfile, bundleProfile), "a validator joined, a protocol action succeeded, and one by a wrong sender was rejected", h("joined", "voted/registered/claimed", "rej.MsgVoteBundleProposal: not authorised/rej.MsgSubmitBundleProposal: not authorised/rej.MsgClaimUploaderRole: not authorised/rej.MsgSkipUploaderRole: not authorised/join: address of another member"),
		"valaddr inv:valaddr", "member accept wallet count @ tx:MsgJoinPool", "accept @ $bundle")
	add("S02", mixed(fullPool, fullPool, memberProfile), "the pool was full and a join evicted or was turned away, or members joined and left", h("full pool: evicted/full pool: rejected/left pool", "joined"),
		"count member inv:count inv:members50", "accept valaddr points leaving del deltotal wallet @ tx:MsgJoinPool")
	add("S03", mixed(memberProfile, over(memberProfile, func(q *Profile) {
		q.W = map[string]int{"blk": 22, "join": 12, "leave": 16, "comm": 14, "mkst": 2, "dis": 2, "en": 3, "round": 4, "skip": 1, "prm": 2, "prmz": 1}
		q.Cfg = map[string]int64{"ext": 2}
	})), "a leave or commission change took effect", h("left pool/commission changed", "leave announced", "ok.MsgUpdateCommission"),
		"leaving leaveq commq commission inv:leave inv:commq", "member count @ begin tx:MsgLeavePool tx:MsgUpdateCommission", "accept @ tx:MsgLeavePool tx:MsgUpdateCommission")
	add("S04", mixed(payProfile, over(payProfile, func(q *Profile) {
		q.W = map[string]int{"blk": 3, "round": 20, "fund": 10, "mkf": 1, "infl": 4, "prm": 1, "ccr": 14, "comm": 2, "und": 1}
	})), "commission accrued and a claim was accepted", h("payout", "commission claimed"),
		"commrew mod:stakers inv:stkescrow", "accept wallet commrew @ tx:MsgClaimCommissionRewards")
	add("B01", bundleProfile.gen, "a bundle was finalized", h("finalized", "tally.none/tally.invalid/skipped/upload timeout/dropped: no quorum"),
		"poolhead fin fincount inv:chain inv:head inv:quorum", "prop @ $bundle end")
	pb2 := add("B02", over(bundleProfile, func(q *Profile) { q.W = cp(q.W, "vote", 20, "red", 5, "del", 6, "round", 26) }).gen, "two different outcomes were tallied", h("voted", "tally.valid", "tally.none/tally.invalid"),
		"votes inv:vote inv:quorum fincount query:tally", "accept@tx:MsgVoteBundleProposal", "prop next @ $eval")
	pb2.onState = append(pb2.onState, voteStatus)
	add("B03", over(bundleProfile, func(q *Profile) { q.Params = []int64{0, 1, 1, 3} }).gen, "somebody was slashed", h("slashes"),
		"treasury mod:delegation member del deltotal delcount@ $bundle end", "out@ $bundle end", "points@end tx:MsgSubmitBundleProposal tx:MsgSkipUploaderRole")
	add("B04", payProfile.gen, "a payout in which funders or inflation paid", h("payout", "storage paid/funder charged"),
		"treasury commrew out funding poolacc mod:* active supply wallet @ $bundle end", "inv:poolmodule")
	pb := add("B05", over(bundleProfile, func(q *Profile) { q.Users = 10; q.Stakers = [2]int{3, 9} }).gen, "a selection among several eligible members took place", h("selected among several"),
		"select probe:frequency inv:next", "next @ $bundle end")
	pb.Quick, pb.Thor = 600, 600*22
	pb.onEnd = append(pb.onEnd, frequencyProbe)
	add("B06", mixed(over(bundleProfile, func(q *Profile) { q.W = cp(q.W, "blk", 26, "skip", 6) }), over(bundleProfile, func(q *Profile) { q.W = cp(q.W, "blk", 26, "skip", 6) }), over(bundleProfile, func(q *Profile) {
		q.W = cp(q.W, "blk", 20, "skip", 4, "prmz", 1)
		q.Cfg = map[string]int64{"ext": 3}
	})), "points were given or reset and a round was moved on by time", h("point/points reset", "upload timeout/dropped: no quorum/skipped"),
		"points", "next updated prop votes member @ end", "updated next @ $bundle")
	pv := add("B07", mixed(bundleProfile, bundleProfile, poolProfile, memberProfile), "a protocol action was accepted and one was rejected", h("ok.MsgVoteBundleProposal/ok.MsgSubmitBundleProposal", "rej.MsgVoteBundleProposal/rej.MsgSubmitBundleProposal/rej.MsgSkipUploaderRole/rej.MsgClaimUploaderRole"),
		"accept @ $bundle", "query:can*", "next updated prop @ tx:MsgClaimUploaderRole")
	pv.onState = append(pv.onState, canQueries)
	add("P01", mixed(inflProfile, inflProfile, poolProfile), "the protocol share was split among several pools", h("inflation split"),
		"unlisted:P01*", "poolacc mod:fee_collector mod:distribution mod:mint supply @ begin")
	add("P02", poolProfile.gen, "a pool was disabled or upgraded", h("pool disabled/upgrade installed/upgrade finished", "ok.MsgUpdatePool"),
		"pool poolcnt poolup", "accept member count poolacc treasury next prop leaveq supply mod:* @ $pool", "accept@tx:MsgJoinPool", "prop next @ end", "accept @ $bundle")
	add("F01", mixed(fundProfile, fundProfile, fullFund), "a funder was charged, and money was deposited and returned", h("funder charged", "funded", "defunded"),
		"funding mod:funders inv:fundescrow", "wallet @ $fund")
	add("F02", mixed(fullFund, fullFund, fundProfile), "the list was full and somebody was evicted or turned away, or a funder was drained", h("funders full: evicted/funders full: rejected/funder drained/defunded all"),
		"active inv:funders50 inv:active", "accept wallet funding mod:funders @ $fund")
	add("F03", over(fundProfile, func(q *Profile) { q.W = cp(q.W, "fund", 24, "defund", 16, "round", 10, "prm", 4) }).gen, "a funding was accepted and one was rejected for a rule", h("funded", "rej.MsgFundPool/rej.MsgDefundPool"),
		"accept funding wallet mod:funders @ $fund")
	add("T02", teamProfile.gen, "an account was created and tokens claimed or clawed back", h("team account created", "team unlocked claimed/clawback/team rewards claimed"),
		"team teamcnt inv:teambudget inv:teamescrow", "accept wallet mod:team supply teamrew @ $team")
	add("T03", teamProfile.gen, "an account was credited a share", h("team account rewarded"),
		"teamrew inv:teamescrow", "mod:team @ begin")
	pt := add("T01", teamProfile.gen, "an account was vesting and partly unlocked or clawed back at a queried time", h("schedule: vesting", "schedule: partly unlocked/schedule: after a clawback"),
		"schedule", "accept wallet team @ tx:MsgClaimUnlocked")
	pt.onState = append(pt.onState, vestingSchedule)
	add("G02", paramProfile.gen, "a change was accepted and one was rejected", h("params changed", "rej.MsgUpdateParams"),
		"params", "accept @ tx:MsgUpdateParams $pool", "pool poolcnt poolup poolhead member count @ $pool")
	pq := add("X06", mixed(memberProfile, memberProfile, delProfile, stdProfile), "a vote with delegators overriding their validator and one speaking for silent delegators was tallied", h("delegator overrides its validator", "validator votes for silent delegators"), "gov:*")
	pq.onState = append(pq.onState, govVoting)
	pu := add("U01", mixed(stdProfile, payProfile, delProfile, fundProfile, poolProfile), "a state with fundings, reward entries, validators, pools and proposals was upgraded", h("upgraded", "upgrade: fundings/upgrade: delegation entries", "upgrade: stakers", "upgrade: pools", "upgrade: create-pool orders"), "upgrade:*")
	pu.onState = append(pu.onState, upgradeSometimes)
	pu.onEnd = append(pu.onEnd, upgradeProbe)
	add("E01", mixed(stdProfile, payProfile, delProfile, fullFund, fundProfile, poolProfile, memberProfile, bundleProfile, teamProfile), "the outcome of a bundle was reported, and events were matched", h("event bundles.EventBundleFinalized", "events matched"), "event")
	pg := add("G01", genFees, "", h("succeeded", "refunded/burned/adjusted/paid by a granter/rejected: fee below the minimum gas price"), "*")
	pg.Rule = "a case is a genesis with generated fee parameters, balances and fee grants, and blocks of signed transactions run through CheckTx and FinalizeBlock of the real application and compared with a ledger after every block; non-trivial: a transaction succeeded and one was refunded, adjusted, paid by a granter, burned from or rejected for its fee"
	pg.Special, pg.Quick, pg.Thor = runFees, 700, 700*22
	p2 := add("X02", nodeProfile, "", h("restarts", "query dumps compared after a restart", "transactions"), "*")
	p2.Rule = "a case is a history of signed transactions and proposals in real blocks on one node, repeated on nodes in other processes that are stopped (some between the execution and the commit of a block) and started again from disk; non-trivial: transactions succeeded, a node was restarted and queries were compared after the restart"
	p2.Special, p2.Quick, p2.Thor = runRestart, 160, 160*22
	p1 := add("X01", nodeProfile, "", h("imports", "transactions on the imported chain"), "*")
	p1.Rule = "a case is a history of signed transactions and proposals in real blocks on one node, whose state is exported after up to three of the blocks, validated and imported into a chain in another process, which then gets the remaining blocks; non-trivial: a state was imported and transactions ran on the imported chain"
	p1.Special, p1.Quick, p1.Thor = runExport, 160, 160*22
	px := add("X03", mixed(stdProfile, poolProfile, bundleProfile, inflProfile, teamProfile, payProfile, over(stdProfile, func(q *Profile) { q.W = cp(q.W, "prmx", 6, "updpool", 5, "upg", 3, "mkpool", 2, "tc", 3, "tclaw", 3) }), over(bundleProfile, func(q *Profile) { q.W = cp(q.W, "prmz", 8, "fund", 12, "round", 20) })), "blocks were processed after protocol activity", h("registered/voted/team account created/upgrade planned"),
		"halt gov:panic")
	px.onState = append(px.onState, govVoting)
	px.Quick = 1100
	p5 := add("X05", mixed(stdProfile, delProfile, bundleProfile, fundProfile, memberProfile, poolProfile, teamProfile), "a list of several pages was walked", h("several pages by key/several pages by offset"), "query:*")
	p5.onState = append(p5.onState, stateQueries)
	p4 := add("X04", mixed(stdProfile, delProfile, fundProfile, payProfile, fullFund), "messages of several kinds succeeded", h("ok.MsgDelegate", "ok.MsgUndelegate/ok.MsgFundPool/ok.MsgJoinPool"),
		"wallet del deltotal funding commrew poolacc mod:* out team teamrew unb @ $user", "supply", "x04")
	p4.onTx = append(p4.onTx, othersUntouched)
	everything()
}

// everything makes ALL the union of the properties (development).
func everything() {
	all := registry["ALL"]
	var gens []func(r *Rng) *Case
	for _, id := range sortedKeys(registry) {
		p := registry[id]
		if p == all || p.Special != nil {
			continue
		}
		gens = append(gens, p.Gen)
		all.onTx = append(all.onTx, p.onTx...)
		all.onBlk = append(all.onBlk, p.onBlk...)
		all.onEnd = append(all.onEnd, p.onEnd...)
	}
	all.onState = append(all.onState, stateQueries, govVoting, canQueries, vestingSchedule, voteStatus, upgradeSometimes)
	all.Gen = func(r *Rng) *Case { return gens[r.N(len(gens))](r) }
}

func cp(m map[string]int, kv ...any) map[string]int {
	r := map[string]int{}
	for k, v := range m {
		r[k] = v
	}
	for i := 0; i+1 < len(kv); i += 2 {
		r[kv[i].(string)] = kv[i+1].(int)
	}
	return r
}
