package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"time"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	upgradetypes "cosmossdk.io/x/upgrade/types"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	govtypes "github.com/cosmos/cosmos-sdk/x/gov/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
	gogoproto "github.com/cosmos/gogoproto/proto"

	oldbundles "github.com/KYVENetwork/chain/app/upgrades/v1_5/v1_4_types/bundles"
	olddelegation "github.com/KYVENetwork/chain/app/upgrades/v1_5/v1_4_types/delegation"
	oldfunders "github.com/KYVENetwork/chain/app/upgrades/v1_5/v1_4_types/funders"
	oldpool "github.com/KYVENetwork/chain/app/upgrades/v1_5/v1_4_types/pool"
	oldstakers "github.com/KYVENetwork/chain/app/upgrades/v1_5/v1_4_types/stakers"
	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
)

// U01: the upgrade v1.5 against its inverse. A reached state is restricted to what v1.4 can hold (only the native
// coin), with some numbers and proposals drawn anew, then written back in the formats of v1.4; after the upgrade
// every store must hold the restricted state again, apart from what the upgrade is there to change.

const upgradeName = "v1.5.0"

var upgradedRuntimes = map[string]bool{"@kyvejs/tendermint": true, "@kyvejs/tendermint-bsync": true, "@kyvejs/tendermint-ssync": true}

type oldRec struct {
	store string
	key   []byte
	val   gogoproto.Message
}

func (s *Sim) kv(ctx sdk.Context, store string) storetypes.KVStore {
	return ctx.KVStore(s.c.App.GetKey(store))
}

func each(st storetypes.KVStore, prefix []byte, f func(k, v []byte)) {
	it := storetypes.KVStorePrefixIterator(st, prefix)
	var ks, vs [][]byte
	for ; it.Valid(); it.Next() {
		ks = append(ks, append([]byte{}, it.Key()...))
		vs = append(vs, append([]byte{}, it.Value()...))
	}
	it.Close()
	for i := range ks {
		f(ks[i], vs[i])
	}
}

func (s *Sim) dumpStores(ctx sdk.Context) map[string]map[string]string {
	r := map[string]map[string]string{}
	for _, k := range s.c.App.GetStoreKeys() {
		if _, ok := k.(*storetypes.KVStoreKey); !ok || k.Name() == "upgrade" {
			continue
		}
		m := map[string]string{}
		each(ctx.KVStore(k), nil, func(k, v []byte) { m[string(k)] = string(v) })
		r[k.Name()] = m
	}
	return r
}

func must(b []byte, err error) []byte {
	if err != nil {
		panic(err)
	}
	return b
}

// amount keeps or replaces an amount.
func oldAmount(r *Rng, x *big.Int) uint64 {
	switch {
	case r.Chance(1, 12):
		return 0
	case r.Chance(1, 12):
		return uint64(1 + r.I64(9))
	case r.Chance(1, 12):
		return uint64(1) << uint(r.N(61))
	case r.Chance(1, 12):
		return 1_000_000_000 * uint64(1+r.I64(1_000_000_000))
	case r.Chance(1, 20):
		return 1<<63 - 1 - uint64(r.I64(3))
	}
	if x.IsInt64() {
		return x.Uint64()
	}
	return 1
}

func oldText(r *Rng, x string) string {
	if r.Chance(1, 8) {
		return []string{"", "x", "a longer text, with \"quotes\"", "Ünïcode ✓"}[r.N(4)]
	}
	return x
}

func nativeCoins(n uint64) sdk.Coins {
	return sdk.NewCoins(sdk.NewCoin(UKYVE, math.NewIntFromUint64(n)))
}

func upgradeProbe(s *Sim) []Diff {
	if s.halted {
		return nil
	}
	d := &differ{}
	r := NewRng(uint64(s.cs.cfg("t0", 0)), uint64(len(s.cs.Ops)), uint64(s.steps), 51)
	app := s.c.App
	ctx, _ := s.ctx.CacheContext()
	var olds []oldRec
	down := func(store string, key []byte, v gogoproto.Message) { olds = append(olds, oldRec{store, key, v}) }
	pre := func(p []byte, k []byte) []byte { return append(append([]byte{}, p...), k...) }
	count := func(what string, n int) {
		if n > 0 {
			s.notes["upgrade: "+what] += n
		}
	}

	// ---- fundings
	fp := oldfunders.Params{MinFundingAmount: oldAmount(r, big.NewInt(1000)), MinFundingAmountPerBundle: oldAmount(r, big.NewInt(10)), MinFundingMultiple: uint64(r.I64(100))}
	down("funders", funderstypes.ParamsKey, &fp)
	fs := app.FundersKeeper.GetAllFundings(ctx)
	for i := range fs {
		f := fs[i]
		o := oldfunders.Funding{FunderAddress: f.FunderAddress, PoolId: f.PoolId, Amount: oldAmount(r, f.Amounts.AmountOf(UKYVE).BigInt()), AmountPerBundle: oldAmount(r, f.AmountsPerBundle.AmountOf(UKYVE).BigInt()), TotalFunded: oldAmount(r, f.TotalFunded.AmountOf(UKYVE).BigInt())}
		f.Amounts, f.AmountsPerBundle, f.TotalFunded = nativeCoins(o.Amount), nativeCoins(o.AmountPerBundle), nativeCoins(o.TotalFunded)
		app.FundersKeeper.SetFunding(ctx, &f)
		now := must(f.Marshal())
		each(s.kv(ctx, "funders"), []byte{2}, func(k, v []byte) {
			if bytes.Equal(v, now) {
				down("funders", k, &o)
			}
		})
	}
	count("fundings", len(fs))

	// ---- delegation
	es := app.DelegationKeeper.GetAllDelegationEntries(ctx)
	for _, e := range es {
		x := e.Value.AmountOf(UKYVE)
		switch {
		case r.Chance(1, 10):
			x = math.LegacyZeroDec()
		case r.Chance(1, 10):
			x = math.LegacyNewDecWithPrec(1+r.I64(1<<60), 18)
		case r.Chance(1, 20):
			x = math.LegacyNewDecFromInt(math.NewInt(1 + r.I64(1<<60))).Add(math.LegacySmallestDec())
		}
		e.Value = sdk.NewDecCoins(sdk.NewDecCoinFromDec(UKYVE, x))
		app.DelegationKeeper.SetDelegationEntry(ctx, e)
		down("delegation", pre(delegationtypes.DelegationEntriesKeyPrefix, delegationtypes.DelegationEntriesKey(e.Staker, e.KIndex)), &olddelegation.DelegationEntry{Staker: e.Staker, KIndex: e.KIndex, Value: x})
	}
	count("delegation entries", len(es))
	for _, x := range app.DelegationKeeper.GetAllDelegationData(ctx) {
		o := olddelegation.DelegationData{Staker: x.Staker, CurrentRewards: oldAmount(r, x.CurrentRewards.AmountOf(UKYVE).BigInt()), TotalDelegation: x.TotalDelegation, LatestIndexK: x.LatestIndexK, DelegatorCount: x.DelegatorCount, LatestIndexWasUndelegation: x.LatestIndexWasUndelegation}
		x.CurrentRewards = nativeCoins(o.CurrentRewards)
		app.DelegationKeeper.SetDelegationData(ctx, x)
		down("delegation", pre(delegationtypes.DelegationDataKeyPrefix, delegationtypes.DelegationDataKey(x.Staker)), &o)
	}

	// ---- stakers
	ss := app.StakersKeeper.GetAllStakers(ctx)
	for _, x := range ss {
		o := oldstakers.Staker{Address: x.Address, Commission: x.Commission, Moniker: oldText(r, x.Moniker), Website: oldText(r, x.Website), Identity: oldText(r, x.Identity), SecurityContact: oldText(r, x.SecurityContact), Details: oldText(r, x.Details), CommissionRewards: oldAmount(r, x.CommissionRewards.AmountOf(UKYVE).BigInt())}
		n := stakerstypes.Staker{Address: o.Address, Commission: o.Commission, Moniker: o.Moniker, Website: o.Website, Identity: o.Identity, SecurityContact: o.SecurityContact, Details: o.Details, CommissionRewards: nativeCoins(o.CommissionRewards)}
		key := pre(stakerstypes.StakerKeyPrefix, stakerstypes.StakerKey(x.Address))
		s.kv(ctx, "stakers").Set(key, must(n.Marshal()))
		down("stakers", key, &o)
	}
	count("stakers", len(ss))

	// ---- bundles
	bp := app.BundlesKeeper.GetParams(ctx)
	down("bundles", bundlestypes.ParamsPrefix, &oldbundles.Params{UploadTimeout: bp.UploadTimeout, StorageCost: math.LegacyNewDecWithPrec(r.I64(1000), 3), NetworkFee: bp.NetworkFee, MaxPoints: bp.MaxPoints})

	// ---- pools
	pp := app.PoolKeeper.GetParams(ctx)
	down("pool", pooltypes.ParamsKey, &oldpool.Params{ProtocolInflationShare: pp.ProtocolInflationShare, PoolInflationPayoutRate: pp.PoolInflationPayoutRate})
	pools := app.PoolKeeper.GetAllPools(ctx)
	rts := append(sortedBools(upgradedRuntimes), "@kyvejs/evm", "@kyvejs/tendermint-other", "@kyvejs/tender", "")
	for i := range pools {
		x := &pools[i]
		if r.Chance(2, 3) {
			x.Runtime = rts[r.N(len(rts))]
		}
		x.Name, x.EndKey, x.CurrentSummary = oldText(r, x.Name), oldText(r, x.EndKey), oldText(r, x.CurrentSummary)
		if r.Chance(1, 4) {
			x.UpgradePlan = &pooltypes.UpgradePlan{Version: "1.1.1", Binaries: "{}", ScheduledAt: uint64(s.now() - 50 + r.I64(100)), Duration: uint64(r.I64(100))}
			count("pools with a plan", 1)
		}
		if r.Chance(1, 4) {
			x.CurrentIndex, x.TotalBundles = oldAmount(r, big.NewInt(7)), oldAmount(r, big.NewInt(8))
			x.MinDelegation, x.MaxBundleSize, x.UploadInterval = oldAmount(r, big.NewInt(5)), oldAmount(r, big.NewInt(6)), oldAmount(r, big.NewInt(60))
		}
		x.InflationShareWeight = math.LegacyOneDec()
		app.PoolKeeper.SetPool(ctx, *x)
		o := oldpool.Pool{Id: x.Id, Name: x.Name, Runtime: x.Runtime, Logo: x.Logo, Config: x.Config, StartKey: x.StartKey, CurrentKey: x.CurrentKey, CurrentSummary: x.CurrentSummary, CurrentIndex: x.CurrentIndex, TotalBundles: x.TotalBundles, UploadInterval: x.UploadInterval, InflationShareWeight: []uint64{1_000_000, 1_000_000, 0, uint64(r.I64(3_000_000))}[r.N(4)], MinDelegation: x.MinDelegation, MaxBundleSize: x.MaxBundleSize, Disabled: x.Disabled,
			Protocol:                 &oldpool.Protocol{Version: x.Protocol.Version, Binaries: x.Protocol.Binaries, LastUpgrade: x.Protocol.LastUpgrade},
			UpgradePlan:              &oldpool.UpgradePlan{Version: x.UpgradePlan.Version, Binaries: x.UpgradePlan.Binaries, ScheduledAt: x.UpgradePlan.ScheduledAt, Duration: x.UpgradePlan.Duration},
			CurrentStorageProviderId: x.CurrentStorageProviderId, CurrentCompressionId: x.CurrentCompressionId, EndKey: x.EndKey}
		down("pool", pre(pooltypes.PoolKey, pooltypes.PoolKeyPrefix(x.Id)), &o)
	}
	count("pools", len(pools))

	// ---- proposals
	gov := s.kv(ctx, "gov")
	propKey := func(id uint64) []byte {
		return pre(govtypes.ProposalsKeyPrefix, binary.BigEndian.AppendUint64(nil, id))
	}
	retitled := map[string]bool{}
	oldProps := map[string][]byte{}
	anyOf := func(m sdk.Msg) *codectypes.Any {
		a, err := codectypes.NewAnyWithValue(m)
		if err != nil {
			panic(err)
		}
		return a
	}
	for i := r.N(6); i > 0; i-- {
		id := uint64(1 + r.I64(12))
		if r.Chance(2, 3) {
			id = 1000 + uint64(r.I64(1_000_000))
		}
		var msgs, before []*codectypes.Any
		for j := r.N(4); j > 0; j-- {
			if r.Chance(1, 3) {
				a := anyOf([]sdk.Msg{
					&pooltypes.MsgUpdatePool{Authority: s.c.Authority, Id: uint64(r.I64(5)), Payload: "{\"Name\":\"x\"}"},
					&govv1.MsgUpdateParams{Authority: s.c.Authority},
					&delegationtypes.MsgUpdateParams{Authority: s.c.Authority, Payload: "{}"},
					&pooltypes.MsgCancelRuntimeUpgrade{Authority: s.c.Authority, Runtime: "@kyvejs/evm"},
				}[r.N(4)])
				msgs, before = append(msgs, a), append(before, a)
				continue
			}
			w := r.I64(3_000_000)
			if r.Chance(1, 5) {
				w = r.I64(1 << 62)
			}
			n := &pooltypes.MsgCreatePool{Authority: oldText(r, s.c.Authority), Name: oldText(r, "pool"), Runtime: oldText(r, "@kyvejs/evm"), Logo: oldText(r, "ar://logo"), Config: oldText(r, "ar://config"), StartKey: oldText(r, "0"), UploadInterval: oldAmount(r, big.NewInt(60)), InflationShareWeight: math.LegacyNewDec(w), MinDelegation: oldAmount(r, big.NewInt(9)), MaxBundleSize: oldAmount(r, big.NewInt(100)), Version: oldText(r, "1.0.0"), Binaries: oldText(r, "{}"), StorageProviderId: uint32(r.N(5)), CompressionId: uint32(r.N(5))}
			o := &oldpool.MsgCreatePool{Authority: n.Authority, Name: n.Name, Runtime: n.Runtime, Logo: n.Logo, Config: n.Config, StartKey: n.StartKey, UploadInterval: n.UploadInterval, InflationShareWeight: uint64(w), MinDelegation: n.MinDelegation, MaxBundleSize: n.MaxBundleSize, Version: n.Version, Binaries: n.Binaries, StorageProviderId: n.StorageProviderId, CompressionId: n.CompressionId}
			a := anyOf(n)
			msgs = append(msgs, a)
			before = append(before, &codectypes.Any{TypeUrl: a.TypeUrl, Value: must(o.Marshal())})
			count("create-pool orders", 1)
		}
		t := func() *time.Time {
			if r.Chance(1, 5) {
				return nil
			}
			x := time.Unix(s.now()-100+r.I64(200), r.I64(1000)).UTC()
			return &x
		}
		p := govv1.Proposal{Id: id, Messages: msgs, Status: govv1.ProposalStatus(r.N(6)), SubmitTime: t(), DepositEndTime: t(), VotingStartTime: t(), VotingEndTime: t(), TotalDeposit: nativeCoins(oldAmount(r, big.NewInt(5))), Metadata: oldText(r, "ipfs://x"), Title: oldText(r, "title"), Summary: oldText(r, "summary"), Proposer: users[r.N(len(users))], Expedited: r.Chance(1, 3)}
		if r.Chance(2, 3) {
			p.FinalTallyResult = &govv1.TallyResult{YesCount: fmt.Sprint(r.I64(1 << 60)), AbstainCount: "1", NoCount: "0", NoWithVetoCount: fmt.Sprint(r.N(9))}
		}
		gov.Set(propKey(id), must(p.Marshal()))
		q := p
		q.Messages = before
		oldProps[string(propKey(id))] = must(q.Marshal())
		if id <= 22 {
			retitled[string(propKey(id))] = true
		}
		count("proposals", 1)
	}

	want := s.dumpStores(ctx)
	govParams, _ := app.GovKeeper.Params.Get(ctx)

	// ---- back to v1.4, and the upgrade
	for _, o := range olds {
		s.kv(ctx, o.store).Set(o.key, must(gogoproto.Marshal(o.val)))
	}
	for k, v := range oldProps {
		gov.Set([]byte(k), v)
	}
	if err := guard(func() error {
		return app.UpgradeKeeper.ApplyUpgrade(ctx, upgradetypes.Plan{Name: upgradeName, Height: ctx.BlockHeight()})
	}); err != nil {
		d.add("upgrade:fails", "", "%v", err)
		return d.out
	}
	s.note("upgraded")
	got := s.dumpStores(ctx)

	// ---- what is meant to change
	special := map[string]func(k string, w, g string) string{
		"funders": func(k, w, g string) string {
			if k != string(funderstypes.ParamsKey) {
				return "!"
			}
			p := app.FundersKeeper.GetParams(ctx)
			if p.MinFundingMultiple != fp.MinFundingMultiple {
				return fmt.Sprintf("minimum multiple %d instead of %d", p.MinFundingMultiple, fp.MinFundingMultiple)
			}
			for _, e := range p.CoinWhitelist {
				if e.CoinDenom == UKYVE {
					if e.MinFundingAmount.Equal(math.NewIntFromUint64(fp.MinFundingAmount)) && e.MinFundingAmountPerBundle.Equal(math.NewIntFromUint64(fp.MinFundingAmountPerBundle)) && e.CoinDecimals == 6 && e.CoinWeight.IsPositive() {
						return ""
					}
					return fmt.Sprintf("the native coin has the minimums %v and %v instead of %d and %d", e.MinFundingAmount, e.MinFundingAmountPerBundle, fp.MinFundingAmount, fp.MinFundingAmountPerBundle)
				}
			}
			return "the native coin is not whitelisted"
		},
		"bundles": func(k, w, g string) string {
			if k != string(bundlestypes.ParamsPrefix) {
				return "!"
			}
			p := app.BundlesKeeper.GetParams(ctx)
			if p.UploadTimeout != bp.UploadTimeout || p.MaxPoints != bp.MaxPoints || !p.NetworkFee.Equal(bp.NetworkFee) {
				return fmt.Sprintf("timeout, points and fee are %d %d %v instead of %d %d %v", p.UploadTimeout, p.MaxPoints, p.NetworkFee, bp.UploadTimeout, bp.MaxPoints, bp.NetworkFee)
			}
			if err := p.Validate(); err != nil {
				return err.Error()
			}
			return ""
		},
		"pool": func(k, w, g string) string {
			if k == string(pooltypes.ParamsKey) {
				p := app.PoolKeeper.GetParams(ctx)
				if !p.ProtocolInflationShare.Equal(pp.ProtocolInflationShare) || !p.PoolInflationPayoutRate.Equal(pp.PoolInflationPayoutRate) {
					return fmt.Sprintf("%+v instead of %+v", p, pp)
				}
				if err := p.Validate(); err != nil {
					return err.Error()
				}
				return ""
			}
			var a, b pooltypes.Pool
			if a.Unmarshal([]byte(w)) != nil || b.Unmarshal([]byte(g)) != nil {
				return "!"
			}
			if !upgradedRuntimes[a.Runtime] || a.UpgradePlan.ScheduledAt != 0 {
				return "!"
			}
			if b.UpgradePlan == nil || b.UpgradePlan.ScheduledAt != uint64(s.now()) || b.UpgradePlan.Duration != 600 || b.UpgradePlan.Version != "1.2.0" || b.UpgradePlan.Binaries == "" {
				return fmt.Sprintf("the pool has the plan %v", b.UpgradePlan)
			}
			s.note("upgrade: runtime upgraded")
			a.UpgradePlan, b.UpgradePlan = nil, nil
			if !bytes.Equal(must(a.Marshal()), must(b.Marshal())) {
				return "!"
			}
			return ""
		},
		"gov": func(k, w, g string) string {
			if k == string(govtypes.ParamsKey) {
				p, err := app.GovKeeper.Params.Get(ctx)
				if err != nil {
					return err.Error()
				}
				p.ExpeditedMinDeposit, p.ExpeditedVotingPeriod = govParams.ExpeditedMinDeposit, govParams.ExpeditedVotingPeriod
				if !bytes.Equal(must(p.Marshal()), must(govParams.Marshal())) {
					return "other parameters than the expedited ones changed"
				}
				return ""
			}
			if !retitled[k] {
				return "!"
			}
			var a, b govv1.Proposal
			if a.Unmarshal([]byte(w)) != nil || b.Unmarshal([]byte(g)) != nil {
				return "!"
			}
			a.Title, a.Summary, a.Proposer, b.Title, b.Summary, b.Proposer = "", "", "", "", "", ""
			if !bytes.Equal(must(a.Marshal()), must(b.Marshal())) {
				return "!"
			}
			return ""
		},
	}
	for _, st := range sortedKeys(want) {
		f := special[st]
		keys := map[string]bool{}
		for k := range want[st] {
			keys[k] = true
		}
		for k := range got[st] {
			keys[k] = true
		}
		for _, k := range sortedBools(keys) {
			w, ok1 := want[st][k]
			g, ok2 := got[st][k]
			if ok1 && ok2 && w == g && !(f != nil && st == "pool") {
				continue
			}
			switch {
			case !ok2:
				d.add("upgrade:"+st, fmt.Sprintf("%x", k), "the record %q is gone", w)
			case !ok1:
				d.add("upgrade:"+st, fmt.Sprintf("%x", k), "the record %q is new", g)
			default:
				msg := "!"
				if f != nil {
					msg = f(k, w, g)
				}
				if msg == "!" && w != g {
					msg = fmt.Sprintf("expected %s, got %s", clip(readable(w), readable(g)), clip(readable(g), readable(w)))
				}
				if msg != "" && msg != "!" {
					d.add("upgrade:"+st, fmt.Sprintf("%x", k), "%s", msg)
				}
			}
		}
	}
	return d.out
}

func upgradeSometimes(s *Sim, _ string) []Diff {
	if s.steps%20 != 11 {
		return nil
	}
	return upgradeProbe(s)
}

func readable(x string) string { return fmt.Sprintf("%q", x) }
