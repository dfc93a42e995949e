package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	"github.com/cosmos/cosmos-sdk/codec"
	sdk "github.com/cosmos/cosmos-sdk/types"
	gogoproto "github.com/cosmos/gogoproto/proto"

	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"
)

// E01: the events of a message or block tell exactly what happened. The model notes, next to every effect it
// predicts, the event that has to report it; the events the application returned are compared with these notes
// as a multiset, field by field (no field of an event may stay unexplained).

type evField struct {
	k string
	v any
}

// field values with a meaning of their own
type (
	evBag struct { // coins, up to tol of each denomination
		b   Bag
		tol int64
	}
	evOneOf []string // any one of these
	evAny   struct{} // checked elsewhere
)

type evExp struct {
	typ string
	f   []evField
}

func (m *M) emit(typ string, kv ...any) {
	e := evExp{typ: typ}
	for i := 0; i < len(kv); i += 2 {
		e.f = append(e.f, evField{kv[i].(string), kv[i+1]})
	}
	m.ev = append(m.ev, e)
}

type evGot struct {
	typ string
	f   map[string]string // decoded
	raw map[string]string
}

func (e evGot) String() string {
	x := e.typ + "{"
	for _, k := range sortedKeys(e.f) {
		x += " " + k + "=" + pretty(e.f[k])
	}
	return x + " }"
}

func (e evExp) String() string {
	x := e.typ + "{"
	fs := append([]evField{}, e.f...)
	sort.Slice(fs, func(i, j int) bool { return fs[i].k < fs[j].k })
	for _, f := range fs {
		v := fmt.Sprint(f.v)
		switch y := f.v.(type) {
		case evBag:
			v = y.b.String()
			if y.tol > 0 {
				v += fmt.Sprintf("±%d", y.tol)
			}
		case *big.Rat:
			v = y.FloatString(18)
		case evAny:
			v = "?"
		}
		x += " " + f.k + "=" + pretty(v)
	}
	return x + " }"
}

// kyveEvents picks and decodes the events of the KYVE modules.
func kyveEvents(l []abci.Event) (out []evGot) {
	for _, e := range l {
		if !strings.HasPrefix(e.Type, "kyve") {
			continue
		}
		p := strings.Split(e.Type, ".")
		g := evGot{typ: p[len(p)-1], f: map[string]string{}, raw: map[string]string{}}
		if len(p) == 4 {
			g.typ = p[1] + "." + g.typ
		}
		for _, a := range e.Attributes {
			if a.Key == "msg_index" || a.Key == "mode" {
				continue
			}
			var s string
			if json.Unmarshal([]byte(a.Value), &s) != nil {
				s = a.Value
			}
			g.f[a.Key], g.raw[a.Key] = s, a.Value
		}
		out = append(out, g)
	}
	return
}

func parseBag(s string) (Bag, bool) {
	if s == "" {
		return Bag{}, true
	}
	cs, err := sdk.ParseCoinsNormalized(s)
	if err != nil {
		return nil, false
	}
	return bagOf(cs), true
}

func bagNear(a, b Bag, tol int64) bool {
	for _, d := range unionKeys(a, b) {
		x := new(big.Int).Sub(a.get(d), b.get(d))
		if x.Abs(x).Cmp(big.NewInt(tol)) > 0 {
			return false
		}
	}
	return true
}

// differs names the fields in which an event is not the expected one.
func (e evExp) differs(g evGot) (l []string) {
	seen := map[string]bool{}
	for _, f := range e.f {
		seen[f.k] = true
		v, ok := g.f[f.k]
		if _, any := f.v.(evAny); any {
			continue
		}
		if !ok {
			l = append(l, f.k)
			continue
		}
		good := false
		switch x := f.v.(type) {
		case evBag:
			b, k := parseBag(v)
			good = k && bagNear(b, x.b, x.tol)
		case evOneOf:
			good = has(x, v)
		case *big.Rat:
			d, err := math.LegacyNewDecFromStr(v)
			good = err == nil && ratDec(d).Cmp(x) == 0
		case []uint64:
			var ss []string
			var us []json.Number
			if json.Unmarshal([]byte(g.raw[f.k]), &ss) == nil {
				for _, y := range ss {
					us = append(us, json.Number(y))
				}
			} else if json.Unmarshal([]byte(g.raw[f.k]), &us) != nil {
				break
			}
			good = len(us) == len(x)
			for i := range us {
				good = good && us[i].String() == fmt.Sprint(x[i])
			}
		default:
			good = fmt.Sprint(x) == v
		}
		if !good {
			l = append(l, f.k)
		}
	}
	for k := range g.f {
		if !seen[k] {
			l = append(l, "+"+k)
		}
	}
	sort.Strings(l)
	return
}

// matchEvents compares what was reported with what has to be reported.
func (m *M) matchEvents(got []evGot) (ds []Diff) {
	add := func(typ, f string, a ...any) {
		ds = append(ds, Diff{Comp: "event", Key: typ, Detail: fmt.Sprintf(f, a...)})
	}
	// reward withdrawals: the sum per delegation counts, withdrawals of nothing do not
	sum := map[string]Bag{}
	var rest []evGot
	for _, g := range got {
		if g.typ != "delegation.EventWithdrawRewards" {
			rest = append(rest, g)
			continue
		}
		b, ok := parseBag(g.f["amounts"])
		if !ok || len(g.f) != 3 {
			add(g.typ, "malformed: %s", g)
			continue
		}
		k := sk(g.f["staker"], g.f["address"])
		if sum[k] == nil {
			sum[k] = Bag{}
		}
		sum[k] = sum[k].add(b)
	}
	for _, k := range unionKeys(sum, m.paid) {
		if !bagNear(sum[k], m.paid[k], m.paidTol[k]) {
			add("delegation.EventWithdrawRewards", "%s: rewards of %s reported, %s paid", pretty(k), sum[k], m.paid[k])
		}
	}
	used := make([]bool, len(rest))
	for _, e := range m.ev {
		found := -1
		near, nearN := -1, 99
		for i, g := range rest {
			if used[i] || g.typ != e.typ {
				continue
			}
			d := len(e.differs(g))
			if d == 0 {
				found = i
				break
			}
			if d < nearN {
				near, nearN = i, d
			}
		}
		m.note("event " + e.typ)
		if found >= 0 {
			used[found] = true
			m.evSeen++
			continue
		}
		if near >= 0 && nearN <= 3 {
			used[near] = true
			add(e.typ, "wrong %s: expected %s, got %s", strings.Join(e.differs(rest[near]), ","), e, rest[near])
			continue
		}
		add(e.typ, "missing: %s", e)
	}
	for i, g := range rest {
		if !used[i] {
			add(g.typ, "reports what did not happen: %s", g)
		} else if g.typ == "bundles.EventBundleFinalized" && g.f["status"] == bundlestypes.BUNDLE_STATUS_VALID.String() {
			bag := func(k string) Bag { b, _ := parseBag(g.f[k]); return b }
			infl, _ := new(big.Int).SetString(g.f["inflation_payout"], 10)
			if infl == nil {
				infl = big0()
			}
			in := bag("funders_payout").add(bag1(UKYVE, infl))
			tot := bag("reward_total")
			up := bag("reward_uploader")
			if !bagNear(up, bag("reward_uploader_commission").add(bag("reward_uploader_storage_cost")), 0) {
				add(g.typ, "the uploader's parts do not add up: %s", g)
			}
			if !bagNear(tot, up.add(bag("reward_treasury")).add(bag("reward_delegation")), 0) || !bagNear(tot, in, 0) {
				add(g.typ, "the rewards do not add up: %s", g)
			}
		}
	}
	return
}

// finalEvent notes the outcome of a bundle.
func (m *M) finalEvent(p uint64, q bundlestypes.BundleProposal, d dist, status bundlestypes.BundleStatus, next any) {
	var r payoutRec
	if status == bundlestypes.BUNDLE_STATUS_VALID {
		for _, x := range m.payouts {
			if x.Pool == p {
				r = x
			}
		}
	}
	infl := uint64(0)
	if x := r.Infl.get(UKYVE); x.IsUint64() {
		infl = x.Uint64()
	}
	up := Bag{}.add(r.Storage).add(r.Comm)
	m.emit("bundles.EventBundleFinalized", "pool_id", p, "id", m.Pools[p].TotalBundles, "valid", d.valid, "invalid", d.invalid,
		"abstain", d.abstain, "total", d.total, "status", status, "funders_payout", evBag{r.Funders, 0}, "inflation_payout", infl,
		"reward_treasury", evBag{r.Fee, 0}, "reward_uploader", evBag{up, r.tol}, "reward_delegation", evBag{r.D, r.tol},
		"reward_total", evBag{r.T, 0}, "finalized_at", m.T, "uploader", q.Uploader, "next_uploader", next,
		"reward_uploader_storage_cost", evBag{r.Storage, r.tol}, "reward_uploader_commission", evBag{r.Comm, r.tol})
}

func (m *M) dropEvent(p uint64, q bundlestypes.BundleProposal, d dist, next string) {
	st := map[string]bundlestypes.BundleStatus{"valid": bundlestypes.BUNDLE_STATUS_VALID, "invalid": bundlestypes.BUNDLE_STATUS_INVALID,
		"none": bundlestypes.BUNDLE_STATUS_NO_QUORUM, "disabled": bundlestypes.BUNDLE_STATUS_DISABLED}[d.status]
	m.finalEvent(p, q, d, st, evOneOf{"", next})
}

// msgEvents notes the events which report an accepted message itself.
func (m *M) msgEvents(msg sdk.Msg, pre *St, oldPrm, newPrm map[string]map[string]any) {
	switch x := msg.(type) {
	case *stakerstypes.MsgCreateStaker:
		c := ratDec(stakerstypes.DefaultCommission)
		if !x.Commission.IsNil() {
			c = ratDec(x.Commission)
		}
		m.emit("stakers.EventCreateStaker", "staker", x.Creator, "amount", x.Amount, "commission", c)
		m.emit("delegation.EventDelegate", "address", x.Creator, "staker", x.Creator, "amount", x.Amount)
	case *stakerstypes.MsgUpdateMetadata:
		m.emit("stakers.EventUpdateMetadata", "staker", x.Creator, "moniker", x.Moniker, "website", x.Website, "identity", x.Identity,
			"security_contact", x.SecurityContact, "details", x.Details)
	case *stakerstypes.MsgClaimCommissionRewards:
		m.emit("stakers.EventClaimCommissionRewards", "staker", x.Creator, "amounts", evBag{bagOf(x.Amounts), 0})
	case *stakerstypes.MsgJoinPool:
		m.emit("stakers.EventJoinPool", "pool_id", x.PoolId, "staker", x.Creator, "valaddress", x.Valaddress, "amount", x.Amount)
	case *delegationtypes.MsgDelegate:
		m.emit("delegation.EventDelegate", "address", x.Creator, "staker", x.Staker, "amount", x.Amount)
	case *delegationtypes.MsgUndelegate:
		at := addU(uint64(m.T), m.P.Unbond)
		if !at.IsUint64() {
			at = bigU(1<<64 - 1)
		}
		m.emit("delegation.EventStartUndelegation", "address", x.Creator, "staker", x.Staker, "amount", x.Amount, "estimated_undelegation_date", at)
	case *delegationtypes.MsgRedelegate:
		m.emit("delegation.EventRedelegate", "address", x.Creator, "from_staker", x.FromStaker, "to_staker", x.ToStaker, "amount", x.Amount)
	case *bundlestypes.MsgVoteBundleProposal:
		m.emit("bundles.EventBundleVote", "pool_id", x.PoolId, "staker", x.Staker, "storage_id", x.StorageId, "vote", x.Vote)
	case *bundlestypes.MsgClaimUploaderRole:
		m.emit("bundles.EventClaimedUploaderRole", "pool_id", x.PoolId, "id", m.Pools[x.PoolId].TotalBundles, "new_uploader", x.Staker)
	case *pooltypes.MsgCreatePool:
		m.emit("pool.EventCreatePool", "id", pre.PoolCnt, "name", x.Name, "runtime", x.Runtime, "logo", x.Logo, "config", x.Config, "start_key", x.StartKey,
			"end_key", x.EndKey, "upload_interval", x.UploadInterval, "inflation_share_weight", ratDec(x.InflationShareWeight), "min_delegation", x.MinDelegation,
			"max_bundle_size", x.MaxBundleSize, "version", x.Version, "binaries", x.Binaries, "storage_provider_id", x.StorageProviderId, "compression_id", x.CompressionId)
	case *pooltypes.MsgUpdatePool:
		p := m.Pools[x.Id]
		m.emit("pool.EventPoolUpdated", "id", x.Id, "raw_update_string", x.Payload, "name", p.Name, "runtime", p.Runtime, "logo", p.Logo, "config", p.Config,
			"upload_interval", p.UploadInterval, "inflation_share_weight", ratDec(p.InflationShareWeight), "min_delegation", p.MinDelegation,
			"max_bundle_size", p.MaxBundleSize, "storage_provider_id", p.CurrentStorageProviderId, "compression_id", p.CurrentCompressionId)
	case *pooltypes.MsgDisablePool:
		m.emit("pool.EventPoolDisabled", "id", x.Id)
	case *pooltypes.MsgEnablePool:
		m.emit("pool.EventPoolEnabled", "id", x.Id)
	case *pooltypes.MsgScheduleRuntimeUpgrade:
		at := x.ScheduledAt
		if at < uint64(m.T) {
			at = uint64(m.T)
		}
		aff := []uint64{}
		for _, id := range sortedU(pre.Pools) {
			if p := pre.Pools[id]; p.Runtime == x.Runtime && p.UpgradePlan.ScheduledAt == 0 {
				aff = append(aff, id)
			}
		}
		m.emit("pool.EventRuntimeUpgradeScheduled", "runtime", x.Runtime, "version", x.Version, "scheduled_at", at, "duration", x.Duration,
			"binaries", x.Binaries, "affected_pools", aff)
	case *pooltypes.MsgCancelRuntimeUpgrade:
		aff := []uint64{}
		for _, id := range sortedU(pre.Pools) {
			if p := pre.Pools[id]; p.Runtime == x.Runtime && p.UpgradePlan.ScheduledAt != 0 {
				aff = append(aff, id)
			}
		}
		m.emit("pool.EventRuntimeUpgradeCancelled", "runtime", x.Runtime, "affected_pools", aff)
	case *funderstypes.MsgCreateFunder:
		m.emit("funders.EventCreateFunder", "address", x.Creator, "moniker", x.Moniker, "identity", x.Identity, "website", x.Website, "contact", x.Contact, "description", x.Description)
	case *funderstypes.MsgUpdateFunder:
		m.emit("funders.EventUpdateFunder", "address", x.Creator, "moniker", x.Moniker, "identity", x.Identity, "website", x.Website, "contact", x.Contact, "description", x.Description)
	case *funderstypes.MsgFundPool:
		m.emit("funders.EventFundPool", "pool_id", x.PoolId, "address", x.Creator, "amounts", evBag{bagOf(x.Amounts), 0}, "amounts_per_bundle", evBag{bagOf(x.AmountsPerBundle), 0})
	case *funderstypes.MsgDefundPool:
		k := pk(x.PoolId, x.Creator)
		m.emit("funders.EventDefundPool", "pool_id", x.PoolId, "address", x.Creator, "amounts", evBag{pre.Fund[k].Amt.sub(m.Fund[k].Amt), 0})
	case *teamtypes.MsgCreateTeamVestingAccount:
		m.emit("team.EventCreateTeamVestingAccount", "authority", x.Authority, "id", pre.TeamCnt, "total_allocation", x.TotalAllocation, "commencement", x.Commencement)
	case *teamtypes.MsgClawback:
		a := m.TeamA[x.Id]
		m.emit("team.EventClawback", "authority", x.Authority, "id", x.Id, "clawback", x.Clawback, "amount", a.TotalAllocation-vestMax(a))
	case *teamtypes.MsgClaimUnlocked:
		m.emit("team.EventClaimedUnlocked", "authority", x.Authority, "id", x.Id, "amount", x.Amount, "recipient", x.Recipient)
	case *teamtypes.MsgClaimAccountRewards:
		m.emit("team.EventClaimInflationRewards", "authority", x.Authority, "id", x.Id, "amount", x.Amount, "recipient", x.Recipient)
	case *teamtypes.MsgClaimAuthorityRewards:
		m.emit("team.EventClaimAuthorityRewards", "authority", x.Authority, "amount", x.Amount, "recipient", x.Recipient)
	default:
		if mod, _, payload, ok := paramMsg(msg); ok {
			m.emit(mod+".EventUpdateParams", "payload", payload, "old_params", evAny{}, "new_params", evAny{})
			m.evPrm = func(cdc codec.JSONCodec, g evGot) (ds []Diff) {
				for i, k := range []string{"old_params", "new_params"} {
					a, b := paramOf(cdc, mod, g.raw[k]), canonJSON([]map[string]map[string]any{oldPrm, newPrm}[i][mod])
					if a != b {
						ds = append(ds, Diff{Comp: "event", Key: g.typ, Detail: fmt.Sprintf("%s are %s, the event says %s", k, b, a)})
					}
				}
				return
			}
		}
	}
}

// canonJSON has one spelling for empty lists.
func canonJSON(v any) string {
	b, _ := json.Marshal(v)
	return strings.ReplaceAll(string(b), ":null", ":[]")
}

// paramOf decodes the parameters in an event as the module's own type.
func paramOf(cdc codec.JSONCodec, mod, raw string) string {
	var p gogoproto.Message
	switch mod {
	case "bundles":
		p = &bundlestypes.Params{}
	case "delegation":
		p = &delegationtypes.Params{}
	case "stakers":
		p = &stakerstypes.Params{}
	case "pool":
		p = &pooltypes.Params{}
	case "funders":
		p = &funderstypes.Params{}
	case "global":
		p = &globaltypes.Params{}
	}
	if err := cdc.UnmarshalJSON([]byte(raw), p); err != nil {
		return "unreadable: " + err.Error()
	}
	b, err := json.Marshal(p)
	if err != nil {
		return err.Error()
	}
	return canonJSON(parseObj(string(b)))
}

// events compares the reported events of a step.
func (s *Sim) events(m *M, l []abci.Event) []Diff {
	got := kyveEvents(l)
	ds := m.matchEvents(got)
	if m.evPrm != nil {
		for _, g := range got {
			if strings.HasSuffix(g.typ, ".EventUpdateParams") {
				ds = append(ds, m.evPrm(s.c.App.AppCodec(), g)...)
			}
		}
	}
	if m.evSeen > 0 {
		s.notes["events matched"] += m.evSeen
	}
	return ds
}
