package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"

	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"
)

// ---- resolving arguments against the state ---------------------------------------------------------

func (s *Sim) user(a int64) string { return users[int(a)%s.nUsers] }

func pick(l []string, a int64) string {
	if len(l) == 0 {
		return ""
	}
	return l[int(a%int64(len(l)))]
}

// anyStaker picks a registered staker, now and then somebody who is none.
func (s *Sim) anyStaker(a int64) string {
	l := sortedKeys(s.pre.Stakers)
	if len(l) == 0 || a%17 == 16 {
		return s.user(a / 17)
	}
	return pick(l, a/17)
}

func (s *Sim) pool(a int64) uint64 {
	n := int64(s.pre.PoolCnt)
	if n == 0 || a%29 == 28 {
		return uint64(n) + uint64(a%3)
	}
	return uint64((a / 29) % n)
}

func (s *Sim) member(p uint64, a int64) string {
	l := s.pre.members(p)
	if len(l) == 0 {
		return s.anyStaker(a)
	}
	return pick(l, a)
}

// actor is who signs for the staker in the pool: usually its protocol address.
func (s *Sim) actor(p uint64, staker string, a int64) string {
	v := s.pre.Val[p][staker]
	switch a % 16 {
	case 15:
		return staker
	case 14:
		return pick(vaddrs, a/16)
	case 13: // the protocol address of another member
		if m := s.member(p, a/16); s.pre.Val[p][m] != nil {
			return s.pre.Val[p][m].Addr
		}
	case 12: // its protocol address in another pool
		for _, q := range sortedU(s.pre.Val) {
			if w := s.pre.Val[q][staker]; w != nil && q != p {
				return w.Addr
			}
		}
	}
	if v != nil {
		return v.Addr
	}
	return pick(vaddrs, a/16)
}

// amount derives an amount from a mode, relative to a base (a wallet, a stake).
func amount(mode, x int64, base uint64) uint64 {
	switch mode % 16 {
	case 0:
		return uint64(x%100) + 1
	case 1:
		return uint64(x%1000+1) * uint64(KYVE)
	case 2, 3:
		return uint64(x % (1000 * KYVE))
	case 4:
		return base
	case 5:
		return base + 1
	case 6:
		return base / 2
	case 7:
		if base > 0 {
			return base - 1
		}
		return 0
	case 8:
		return 1
	case 9:
		return 0
	case 10, 11:
		if base == 0 {
			return 0
		}
		return new(big.Int).Mod(new(big.Int).Mul(bigU(uint64(x)), big.NewInt(2654435761)), bigU(base)).Uint64()
	case 12:
		return uint64(x%100+1) * uint64(KYVE) / 7
	case 13:
		return base / 3
	case 14:
		return uint64(x%50+1) * uint64(KYVE)
	default:
		if x%8 == 0 {
			return ^uint64(0) - uint64(x%3)
		}
		return uint64(x%10+1) * 100 * uint64(KYVE)
	}
}

func (s *Sim) wallet(a, den string) uint64 {
	b := s.pre.Bal[a].get(den)
	if b == nil || !b.IsUint64() {
		return 0
	}
	return b.Uint64()
}

func dec(s string) math.LegacyDec { return math.LegacyMustNewDecFromStr(s) }

var pcts = []string{"0", "0.01", "0.1", "0.333333333333333333", "0.5", "1", "0.05", "0.000000000000000001", "0.999999999999999999", "0.02"}

func (s *Sim) gov(a int64) string {
	if a%23 == 22 {
		return s.user(a / 23)
	}
	if a%23 == 21 {
		return foundry
	}
	return s.c.Authority
}

var runtimes = []string{"@kyve/evm", "@kyve/tendermint"}

func (s *Sim) unique() int64 { s.nonce++; return s.nonce }

// deadlines returns all points in time at which something is due, after now.
func (s *Sim) deadlines() []int64 {
	st := s.pre
	m := map[int64]bool{}
	add := func(x *big.Int) {
		if x.IsInt64() {
			v := x.Int64()
			if v > st.T && v < st.T+20*365*86400 {
				m[v] = true
			}
		}
	}
	for id, p := range st.Pools {
		q := st.prop(id)
		d := addU(q.UpdatedAt, p.UploadInterval)
		add(d)
		add(new(big.Int).Add(d, bigU(st.P.UploadTimeout)))
		if p.UpgradePlan.ScheduledAt > 0 {
			add(bigU(p.UpgradePlan.ScheduledAt))
			add(addU(p.UpgradePlan.ScheduledAt, p.UpgradePlan.Duration))
		}
	}
	for _, u := range st.Unb {
		add(addU(u.Created, st.P.Unbond))
	}
	for _, l := range st.CommQ {
		add(addU(uint64(l[0].Created), st.P.CommTime))
	}
	for _, l := range st.LeaveQ {
		add(addU(uint64(l[0]), st.P.LeaveTime))
	}
	for _, l := range st.Red {
		for _, c := range l {
			add(addU(c, st.P.RedCool))
		}
	}
	var r []int64
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func (s *Sim) dt(mode, k int64) int64 {
	switch mode % 12 {
	case 0:
		return 1 + k%10
	case 1, 2, 3, 4, 5: // around a deadline
		l := s.deadlines()
		if len(l) == 0 {
			return 6
		}
		i := int64(0)
		if mode%12 > 2 {
			i = k / 5 % int64(len(l))
		}
		d := l[i] - s.now() + []int64{0, 0, -1, 1, 0}[k%5]
		if d < 0 {
			d = 0
		}
		return d
	case 6:
		return k % 86400
	case 7:
		return 86400 + k%(30*86400)
	case 8:
		return 0
	case 9:
		return k % 700
	case 10:
		return 5
	default:
		if k%4 == 0 {
			return k % (3 * 365 * 86400)
		}
		return 60
	}
}

// ---- operations --------------------------------------------------------------------------------------

func (s *Sim) do(op Op) {
	a := op.a
	switch op.K {
	case "blk":
		s.block(s.dt(a(0), a(1)))
	case "mkst":
		u := s.user(a(0))
		c := dec(pcts[a(3)%int64(len(pcts))])
		if a(3)%31 == 30 {
			c = dec("1.1")
		}
		s.tx(&stakerstypes.MsgCreateStaker{Creator: u, Amount: amount(a(1), a(2), s.wallet(u, UKYVE)), Commission: c})
	case "join":
		st := s.anyStaker(a(0))
		p := s.pool(a(1))
		s.tx(&stakerstypes.MsgJoinPool{Creator: st, PoolId: p, Valaddress: s.joinAddr(st, p, a(2)), Amount: amount(a(3), a(4), s.wallet(st, UKYVE)/1000)})
	case "leave":
		p := s.pool(a(1))
		st := s.member(p, a(0))
		if a(0)%19 == 18 {
			st = s.anyStaker(a(0))
		}
		s.tx(&stakerstypes.MsgLeavePool{Creator: st, PoolId: p})
	case "comm":
		s.tx(&stakerstypes.MsgUpdateCommission{Creator: s.anyStaker(a(0)), Commission: dec(pcts[a(1)%int64(len(pcts))])})
	case "ccr":
		st := s.anyStaker(a(0))
		if a(0)/1000%5 > 0 { // of those who have something to claim
			var l []string
			for _, k := range sortedKeys(s.pre.Stakers) {
				if !s.pre.Stakers[k].Rew.empty() {
					l = append(l, k)
				}
			}
			if len(l) > 0 {
				st = pick(l, a(0))
			}
		}
		b := Bag{}
		if x := s.pre.Stakers[st]; x != nil {
			for d, v := range x.Rew {
				if v.IsUint64() && (a(1)/16)%3 != 2 || d == UKYVE {
					b.set(d, bigU(amount(a(1), a(2), v.Uint64())))
				}
			}
			if a(3)%4 == 0 { // each coin on its own: everything, one more, one less, nothing
				r := NewRng(uint64(a(2)), 31)
				for _, d := range AllDens {
					v := new(big.Int).Add(x.Rew.get(d), big.NewInt([]int64{0, 0, 0, 0, 1, -1}[r.N(6)]))
					if r.Chance(1, 5) || v.Sign() <= 0 {
						v = big0()
					}
					b.set(d, v)
				}
			}
		}
		if x := s.pre.Stakers[st]; x != nil && len(bagDenoms(x.Rew)) > 1 {
			s.note("claim by an owner of several coins")
		}
		if a(1)%13 == 12 {
			b.set(AllDens[a(2)%4], bigU(amount(a(2), a(1), 1000)))
		}
		s.tx(&stakerstypes.MsgClaimCommissionRewards{Creator: st, Amounts: b.coins()})
	case "meta":
		s.tx(&stakerstypes.MsgUpdateMetadata{Creator: s.anyStaker(a(0)), Moniker: fmt.Sprintf("m%d", a(1)%5), Website: strings.Repeat("w", int(a(1)%260)),
			Identity: []string{"", "0123456789abcdef", "0123456789ABCDEF", "xyz", "0123456789abcdefg"}[a(1)%5], SecurityContact: "c", Details: "d"})
	case "del":
		u := s.user(a(0))
		s.tx(&delegationtypes.MsgDelegate{Creator: u, Staker: s.anyStaker(a(1)), Amount: amount(a(2), a(3), s.wallet(u, UKYVE))})
	case "und":
		u, st := s.delegation(a(0), a(1))
		s.tx(&delegationtypes.MsgUndelegate{Creator: u, Staker: st, Amount: amount(a(2), a(3), s.stakeOf(st, u))})
	case "red":
		u, st := s.delegation(a(0), a(1))
		s.tx(&delegationtypes.MsgRedelegate{Creator: u, FromStaker: st, ToStaker: s.anyStaker(a(4)), Amount: amount(a(2), a(3), s.stakeOf(st, u))})
	case "wd":
		u, st := s.delegation(a(0), a(1))
		s.tx(&delegationtypes.MsgWithdrawRewards{Creator: u, Staker: st})
	case "sub":
		s.submit(s.pool(a(0)), a(1), a(2), a(3), a(4), a(5))
	case "vote":
		p := s.pool(a(0))
		st := s.member(p, a(1))
		if a(1)%13 == 12 {
			st = s.anyStaker(a(1))
		}
		sid := s.pre.prop(p).StorageId
		if a(3)%11 == 10 {
			sid = "other"
			if l := s.pre.Fin[p]; len(l) > 0 && a(3)/11%2 == 0 { // of an earlier bundle
				sid = l[len(l)-1].StorageId
			}
		}
		v := []bundlestypes.VoteType{1, 2, 3, 1, 1, 2}[a(2)%6]
		if a(2)%31 == 30 {
			v = 0
		}
		s.tx(&bundlestypes.MsgVoteBundleProposal{Creator: s.actor(p, st, a(3)), Staker: st, PoolId: p, StorageId: sid, Vote: v})
	case "claim":
		p := s.pool(a(0))
		st := s.member(p, a(1))
		s.tx(&bundlestypes.MsgClaimUploaderRole{Creator: s.actor(p, st, a(2)), Staker: st, PoolId: p})
	case "skip":
		p := s.pool(a(0))
		st := s.pre.prop(p).NextUploader
		if st == "" || a(1)%9 == 8 {
			st = s.member(p, a(1))
		}
		from := s.fromIndex(p)
		if a(2)%11 == 10 {
			from++
		}
		s.tx(&bundlestypes.MsgSkipUploaderRole{Creator: s.actor(p, st, a(2)/11), Staker: st, PoolId: p, FromIndex: from})
	case "round":
		s.round(a(0), a(1), a(2), a(3), a(4), a(5))
	case "mkpool":
		id := s.pre.PoolCnt
		w := []string{"1", "2", "0", "0.333333333333333333", "1000000", "3"}[a(3)%6]
		s.tx(&pooltypes.MsgCreatePool{Authority: s.gov(a(0)), Name: fmt.Sprintf("pool%d", id), Runtime: runtimes[a(1)%2], Logo: "logo", Config: "cfg",
			StartKey: []string{"0", "", "k"}[a(1)%3], UploadInterval: []uint64{60, 1, 120, 600, 60}[a(2)%5], InflationShareWeight: dec(w),
			MinDelegation: []uint64{0, uint64(KYVE), 100 * uint64(KYVE), 0, 1}[a(4)%5], MaxBundleSize: []uint64{100, 1, 1000, 100}[a(5)%4], Version: "1.0.0", Binaries: "{}",
			StorageProviderId: uint32(a(6) % 4), CompressionId: uint32(a(6) % 3), EndKey: []string{"", "", "", "", "key5"}[a(7)%5]})
	case "updpool":
		s.tx(&pooltypes.MsgUpdatePool{Authority: s.gov(a(0)), Id: s.pool(a(1)), Payload: s.poolPayload(s.pool(a(1)), a(2), a(3))})
	case "dis":
		s.tx(&pooltypes.MsgDisablePool{Authority: s.gov(a(0)), Id: s.pool(a(1))})
	case "en":
		s.tx(&pooltypes.MsgEnablePool{Authority: s.gov(a(0)), Id: s.pool(a(1))})
	case "upg":
		at := uint64(s.now())
		switch a(3) % 8 {
		case 0:
			at = 0
		case 1:
			at -= uint64(a(4) % 1000)
		case 2, 3, 4:
			at += uint64(a(4) % 2000)
		case 5:
			at += uint64(a(4) % (30 * 86400))
		case 6:
			at += 60
		case 7:
			if a(4)%4 == 0 {
				at = ^uint64(0) - uint64(a(4)%100)
			}
		}
		dur := []uint64{0, 1, 60, 600, 3600, ^uint64(0), ^uint64(0) - uint64(s.now()), 86400}[a(5)%8]
		if a(5)%3 != 0 && dur > 1<<40 {
			dur = 120
		}
		s.tx(&pooltypes.MsgScheduleRuntimeUpgrade{Authority: s.gov(a(0)), Runtime: runtimes[a(1)%2], Version: []string{"1.0.0", "2.0.0", "3.0.0", ""}[a(2)%37%4], ScheduledAt: at, Duration: dur,
			Binaries: []string{"{}", "{\"a\":1}", ""}[a(2)%7%3]})
	case "cupg":
		s.tx(&pooltypes.MsgCancelRuntimeUpgrade{Authority: s.gov(a(0)), Runtime: runtimes[a(1)%2]})
	case "prm":
		s.param(s.gov(a(0)), a(1), friendly(a(1), uint64(a(2))))
	case "wl": // the coins that count, and how much
		s.param(s.gov(a(0)), 4, friendly(4, uint64(a(2))))
	case "prmz": // values at the far end of what a parameter may hold
		ext := s.cs.cfg("ext", 0) // the part of the parameters a property is about
		if a(1)%3 == 0 && (ext == 0 || ext == 3) {
			s.tx(&pooltypes.MsgUpdatePool{Authority: s.c.Authority, Id: s.pool(a(3)), Payload: extremePool(uint64(a(2)), ext == 3)})
			break
		}
		mod := []int64{0, 4, 4, 2, 1, 3}[uint64(a(3))%6]
		switch ext {
		case 1, 2:
			mod = ext
		case 3:
			mod = 0
		}
		s.param(s.c.Authority, mod, extreme(mod, uint64(a(2))))
	case "prmx":
		s.param(s.gov(a(0)), a(1), adversarial(a(1), uint64(a(2)), s.c.paramJSON(s.ctx)))
	case "mkf":
		s.tx(&funderstypes.MsgCreateFunder{Creator: s.user(a(0)), Moniker: []string{"f", "g", "h", ""}[a(1)%41%4], Identity: "i", Website: "w", Contact: "c", Description: "d"})
	case "updf":
		s.tx(&funderstypes.MsgUpdateFunder{Creator: s.user(a(0)), Moniker: fmt.Sprintf("n%d", a(1)%9), Identity: "i2", Website: "w2", Contact: "c2", Description: "d2"})
	case "fund":
		u := s.funder(a(0))
		p := s.pool(a(1))
		am, per := s.fundArgs(p, u, NewRng(uint64(a(2)), 77))
		s.tx(&funderstypes.MsgFundPool{Creator: u, PoolId: p, Amounts: am.coins(), AmountsPerBundle: per.coins()})
	case "defund":
		s.defund(a(0), a(1), a(2), a(3))
	case "infl": // somebody tops up the pool account
		if n := int64(s.pre.PoolCnt); n > 0 {
			u := s.user(a(0))
			id := uint64(a(1) % n)
			s.tx(&banktypes.MsgSend{FromAddress: u, ToAddress: poolAddr(id), Amount: bagU([]string{UKYVE, UKYVE, UKYVE, "acoin"}[a(3)%4], uint64(a(2)%(100*KYVE))+1).coins()})
		}
	case "fee": // fees collected in this block
		u := s.user(a(0))
		amt := bagU(UKYVE, uint64(a(1)%KYVE)+1).coins()
		if !s.stop() {
			cc, w := s.ctx.CacheContext()
			if s.c.App.BankKeeper.SendCoinsFromAccountToModule(cc, accOf[u], authtypes.FeeCollectorName, amt) == nil {
				w()
				s.pre = s.c.Snap(s.ctx, s.extra)
			}
		}
	case "tc", "tclaw", "tclaim", "tcar", "tcauth":
		s.team(op)
	case "bulk":
		s.bulk(a(0), s.pool(a(1)), a(2), a(3))
	case "bround": // an unchecked round of a big pool
		s.round(a(0), a(1), a(2), a(3), a(4), a(5))
	default:
		if f := extraOps[op.K]; f != nil {
			f(s, op)
			return
		}
		panic("unknown operation " + op.K)
	}
}

var extraOps = map[string]func(*Sim, Op){}

func (s *Sim) stakeOf(st, u string) uint64 {
	if d := s.pre.Del[st]; d != nil && d.D[u] != nil {
		return d.D[u].Amt
	}
	return 0
}

// delegation picks an existing delegation most of the time.
func (s *Sim) delegation(a, b int64) (u, st string) {
	if a%11 == 10 {
		return s.user(a / 11), s.anyStaker(b)
	}
	l := sortedKeys(s.pre.Out)
	if len(l) == 0 {
		return s.user(a / 11), s.anyStaker(b)
	}
	k := strings.Split(pick(l, a/11), "|")
	return k[1], k[0]
}

func (s *Sim) joinAddr(st string, p uint64, a int64) string {
	switch a % 12 {
	case 11:
		return st
	case 10: // somebody else's protocol address in this pool
		if m := s.member(p, a/12); s.pre.Val[p][m] != nil {
			return s.pre.Val[p][m].Addr
		}
	case 9: // its own address in another pool
		for _, q := range sortedU(s.pre.Val) {
			if w := s.pre.Val[q][st]; w != nil {
				return w.Addr
			}
		}
	case 8: // another staker's address in another pool
		for _, q := range sortedU(s.pre.Val) {
			for _, o := range sortedKeys(s.pre.Val[q]) {
				if q != p && o != st {
					return s.pre.Val[q][o].Addr
				}
			}
		}
	case 7:
		if a%5 == 0 {
			return "not-an-address"
		}
	}
	// the first free one counted from a
	used := map[string]bool{}
	for _, mm := range s.pre.Val {
		for _, v := range mm {
			used[v.Addr] = true
		}
	}
	for i := range vaddrs {
		x := vaddrs[(int(a/12%int64(nVals))+i)%nVals]
		if !used[x] {
			return x
		}
	}
	return pick(vaddrs, a)
}

func (s *Sim) fromIndex(p uint64) uint64 {
	if pl := s.pre.Pools[p]; pl != nil {
		return pl.CurrentIndex + s.pre.prop(p).BundleSize
	}
	return 0
}

func (s *Sim) submit(p uint64, who, am, size, dsize, mode int64) bool {
	q := s.pre.prop(p)
	st := q.NextUploader
	if st == "" || who%9 == 8 {
		st = s.member(p, who)
	}
	n := s.unique()
	from := s.fromIndex(p)
	if mode%13 == 12 {
		from += 1
	}
	max := uint64(100)
	if pl := s.pre.Pools[p]; pl != nil {
		max = pl.MaxBundleSize
	}
	bs := uint64(size)%max + 1
	switch mode / 13 % 17 {
	case 16:
		bs = 0
	case 15:
		bs = max + 1
	case 14:
		bs = max
	}
	ds := uint64(dsize % 1_000_000)
	switch dsize % 23 {
	case 0:
		ds = 0
	case 1:
		ds = ^uint64(0) - uint64(dsize%3)
	case 2:
		ds = 1<<63 + uint64(dsize%5)
	case 3:
		ds = uint64(dsize)
	}
	sid := fmt.Sprintf("sid-%d", n)
	if mode%53 == 52 {
		sid = ""
	}
	tk := fmt.Sprintf("key%d", n)
	fk := fmt.Sprintf("fk%d", n)
	if mode%59 == 58 {
		tk = ""
	}
	if mode%61 == 60 {
		fk = ""
	}
	if pl := s.pre.Pools[p]; pl != nil && pl.EndKey != "" && mode%5 == 0 {
		tk = pl.EndKey
	}
	hash, sum := fmt.Sprintf("hash%d", n), fmt.Sprintf("sum%d", n)
	// nothing says that these are unique or set
	if r := NewRng(uint64(mode), 32); r.Chance(1, 3) {
		if r.Chance(1, 4) && sid != "" {
			sid = fmt.Sprintf("sid-%d", r.N(3))
		}
		if r.Chance(1, 4) && tk != "" {
			tk = []string{"key1", "key2", "key3", fk}[r.N(4)]
		}
		if r.Chance(1, 4) && fk != "" {
			fk = []string{"key1", "fk1"}[r.N(2)]
		}
		if r.Chance(1, 3) {
			hash = []string{"", "hash1"}[r.N(2)]
		}
		if r.Chance(1, 3) {
			sum = []string{"", "sum1"}[r.N(2)]
		}
	}
	return s.tx(&bundlestypes.MsgSubmitBundleProposal{Creator: s.actor(p, st, am), Staker: st, PoolId: p, StorageId: sid, DataSize: ds, DataHash: hash,
		FromIndex: from, BundleSize: bs, FromKey: fk, ToKey: tk, BundleSummary: sum})
}

// round plays the protocol for one bundle: claim if needed, wait, submit, vote.
func (s *Sim) round(pa, size, pattern, dsize, bits, flags int64) {
	if s.pre.PoolCnt == 0 {
		return
	}
	p := uint64(pa % int64(s.pre.PoolCnt))
	for i := 0; i < 3 && !s.stop(); i++ {
		q := s.pre.prop(p)
		if q.NextUploader == "" {
			l := s.pre.members(p)
			if len(l) == 0 || s.pre.canRun(p) != "" {
				return
			}
			st := pick(l, bits)
			s.tx(&bundlestypes.MsgClaimUploaderRole{Creator: s.pre.Val[p][st].Addr, Staker: st, PoolId: p})
			continue
		}
		if due := addU(q.UpdatedAt, s.pre.Pools[p].UploadInterval); due.Cmp(big.NewInt(s.now())) > 0 {
			if s.pre.Pools[p].UploadInterval > 1<<30 {
				return
			}
			s.block(due.Int64() - s.now())
			continue
		}
		break
	}
	if s.stop() {
		return
	}
	q := s.pre.prop(p)
	if s.pre.Val[p][q.NextUploader] == nil || s.pre.canRun(p) != "" {
		return
	}
	if flags%7 == 6 {
		s.tx(&bundlestypes.MsgSkipUploaderRole{Creator: s.pre.Val[p][q.NextUploader].Addr, Staker: q.NextUploader, PoolId: p, FromIndex: s.fromIndex(p)})
		return
	}
	if !s.submit(p, 0, 0, size, dsize, 0+flags%2*5) {
		return
	}
	up := s.pre.prop(p).Uploader
	sid := s.pre.prop(p).StorageId
	r := NewRng(uint64(bits), 5)
	for _, st := range s.pre.members(p) {
		if s.stop() {
			return
		}
		v := s.pre.Val[p][st]
		if st == up || v == nil || sid == "" {
			continue
		}
		var votes []bundlestypes.VoteType
		switch pattern % 8 {
		case 0, 1:
			votes = []bundlestypes.VoteType{1}
		case 2:
			votes = []bundlestypes.VoteType{2}
		case 3:
			votes = []bundlestypes.VoteType{bundlestypes.VoteType(1 + r.N(2))}
		case 4:
			if !r.Chance(1, 4) {
				votes = []bundlestypes.VoteType{1}
			}
		case 5:
		case 6:
			switch r.N(5) {
			case 0:
				votes = []bundlestypes.VoteType{3, bundlestypes.VoteType(1 + r.N(2))}
			case 1:
				votes = []bundlestypes.VoteType{3}
			case 2:
				votes = []bundlestypes.VoteType{2}
			case 3:
				votes = []bundlestypes.VoteType{1}
			}
		case 7:
			if r.Chance(3, 4) {
				votes = []bundlestypes.VoteType{2}
			}
		}
		for _, x := range votes {
			s.tx(&bundlestypes.MsgVoteBundleProposal{Creator: v.Addr, Staker: st, PoolId: p, StorageId: sid, Vote: x})
		}
	}
	if flags/7%3 == 0 {
		s.block(5)
	}
	if flags/21%5 == 0 && !s.stop() {
		s.disturb(p, NewRng(uint64(bits), 6))
	}
}

// disturb changes what the tally of the live bundle depends on after the votes are cast.
func (s *Sim) disturb(p uint64, r *Rng) {
	q := *s.pre.prop(p)
	if r.Chance(1, 3) {
		q.Uploader, q.NextUploader, q.VotersValid = "", "", nil // those who did not vote valid
	}
	all := append(append(append([]string{q.Uploader, q.NextUploader}, q.VotersValid...), q.VotersInvalid...), q.VotersAbstain...)
	who := all[r.N(len(all))]
	if who == "" || r.Chance(1, 4) {
		who = s.member(p, r.Arg())
	}
	if who == "" || s.stop() {
		return
	}
	own := s.stakeOf(who, who)
	switch r.N(10) {
	case 0: // somebody votes invalid and is gone before the tally
		if v := s.pre.Val[p][who]; v != nil && !has(q.VotersValid, who) && !has(q.VotersInvalid, who) && q.StorageId != "" {
			s.tx(&bundlestypes.MsgVoteBundleProposal{Creator: v.Addr, Staker: who, PoolId: p, StorageId: q.StorageId, Vote: bundlestypes.VoteType(1 + r.N(3)%2)})
		}
		if r.Chance(3, 4) {
			s.param(s.c.Authority, 2, `{"leave_pool_time":0}`)
		}
		s.tx(&stakerstypes.MsgLeavePool{Creator: who, PoolId: p})
		s.block(int64(r.N(2)))
	case 1:
		for i := r.N(2); i >= 0; i-- {
			s.tx(&stakerstypes.MsgLeavePool{Creator: who, PoolId: p})
			who = s.member(p, r.Arg())
		}
		if t := s.pre.P.LeaveTime; t <= 600 && !s.stop() {
			s.block(int64(t) + int64(r.N(2)))
		}
	case 2:
		if own > 0 {
			s.tx(&delegationtypes.MsgUndelegate{Creator: who, Staker: who, Amount: []uint64{own, own/2 + 1, own - own/10}[r.N(3)]})
		}
	case 3:
		u := s.user(r.Arg())
		s.tx(&delegationtypes.MsgDelegate{Creator: u, Staker: who, Amount: amount(int64(r.N(16)), r.Arg(), s.wallet(u, UKYVE))})
	case 4:
		if own > 0 {
			s.tx(&delegationtypes.MsgRedelegate{Creator: who, FromStaker: who, ToStaker: s.member(p, r.Arg()), Amount: []uint64{own, own/2 + 1}[r.N(2)]})
		}
	case 5:
		o := [](string){fmt.Sprintf(`{"StorageProviderId":%d}`, r.N(3)), fmt.Sprintf(`{"StorageProviderId":%d}`, r.N(3)), `{"UploadInterval":1}`, `{"UploadInterval":600}`, fmt.Sprintf(`{"MinDelegation":%d}`, uint64(1)<<uint(r.N(50))), `{"EndKey":"key5"}`, `{"MaxBundleSize":1}`}
		s.tx(&pooltypes.MsgUpdatePool{Authority: s.c.Authority, Id: p, Payload: o[r.N(len(o))]})
	case 6, 7:
		mod := int64([]int{0, 1, 3, 4}[r.N(4)])
		s.param(s.c.Authority, mod, friendly(mod, r.U64()))
	case 8:
		s.tx(&pooltypes.MsgDisablePool{Authority: s.c.Authority, Id: p})
		if r.Chance(1, 2) {
			s.tx(&pooltypes.MsgEnablePool{Authority: s.c.Authority, Id: p})
		}
	case 9:
		if v := s.pre.Val[p][who]; v != nil { // vote again after an abstention, or at all
			s.tx(&bundlestypes.MsgVoteBundleProposal{Creator: v.Addr, Staker: who, PoolId: p, StorageId: q.StorageId, Vote: bundlestypes.VoteType(1 + r.N(3))})
		}
	}
}

func (s *Sim) poolPayload(p uint64, a, b int64) string {
	r := NewRng(uint64(a), uint64(b), 3)
	o := map[string]any{}
	for i := 0; i < 1+r.N(3); i++ {
		switch r.N(14) {
		case 0:
			o["Name"] = fmt.Sprintf("name%d", r.N(5))
		case 1:
			o["Runtime"] = runtimes[r.N(2)]
		case 2:
			o["Logo"] = fmt.Sprintf("logo%d", r.N(5))
		case 3:
			o["Config"] = fmt.Sprintf("cfg%d", r.N(5))
		case 4:
			o["UploadInterval"] = []uint64{60, 1, 30, 600, 0}[r.N(5)]
		case 5:
			o["InflationShareWeight"] = []string{"1", "0", "2.5", "0.000000000000000001", "-1", "x"}[r.N(6)]
		case 6:
			o["MinDelegation"] = []uint64{0, 1, uint64(KYVE), 1000 * uint64(KYVE), 1 << 62}[r.N(5)]
		case 7:
			o["MaxBundleSize"] = []uint64{1, 10, 100, 0}[r.N(4)]
		case 8:
			o["StorageProviderId"] = r.N(4)
		case 9:
			o["CompressionId"] = r.N(4)
		case 10:
			o["EndKey"] = []string{"", "key5", "key9"}[r.N(3)]
			if pl := s.pre.Pools[p]; pl != nil && r.Chance(1, 3) {
				o["EndKey"] = pl.CurrentKey
			}
		case 11:
			o["Unknown"] = 5
		case 12:
			o["Logo"] = 5 // wrong type
		case 13:
			return []string{"{", "[]", "", "null?", "5"}[r.N(5)]
		}
	}
	b2, _ := json.Marshal(o)
	return string(b2)
}

func (s *Sim) param(auth string, mod int64, payload string) {
	var m sdk.Msg
	switch mod % 6 {
	case 0:
		m = &bundlestypes.MsgUpdateParams{Authority: auth, Payload: payload}
	case 1:
		m = &delegationtypes.MsgUpdateParams{Authority: auth, Payload: payload}
	case 2:
		m = &stakerstypes.MsgUpdateParams{Authority: auth, Payload: payload}
	case 3:
		m = &pooltypes.MsgUpdateParams{Authority: auth, Payload: payload}
	case 4:
		m = &funderstypes.MsgUpdateParams{Authority: auth, Payload: payload}
	default:
		m = &globaltypes.MsgUpdateParams{Authority: auth, Payload: payload}
	}
	s.tx(m)
}

// friendly builds a valid payload of typical and boundary values.
func friendly(mod int64, seed uint64) string {
	r := NewRng(seed, 11)
	o := map[string]any{}
	p := func(k string, v any) {
		if r.Chance(3, 4) {
			o[k] = v
		}
	}
	pu := func(l ...uint64) uint64 { return l[r.N(len(l))] }
	ps := func(l ...string) string { return l[r.N(len(l))] }
	switch mod % 6 {
	case 0:
		p("upload_timeout", pu(1, 10, 60, 600, 100))
		p("max_points", pu(1, 2, 3, 4, 24, 2))
		p("network_fee", ps("0", "0.01", "0.1", "0.333333333333333333", "1", "0.05"))
		cost := func() string { return ps("0", "0.0001", "0.025", "1", "0.000000000000000001", "0.00000001") }
		p("storage_costs", []map[string]any{{"storage_provider_id": 1, "cost": cost()}, {"storage_provider_id": 2, "cost": cost()}, {"storage_provider_id": 0, "cost": cost()}}[r.N(2):])
	case 1:
		p("unbonding_delegation_time", pu(1, 100, 432000, 1814400, 10))
		p("redelegation_cooldown", pu(0, 50, 432000, 1000))
		p("redelegation_max_amount", pu(0, 1, 2, 3, 5, 5))
		f := func() string {
			return ps("0", "0.01", "0.1", "0.333333333333333333", "0.5", "1", "0.000000001", "0.05")
		}
		p("vote_slash", f())
		p("upload_slash", f())
		p("timeout_slash", f())
	case 2:
		p("commission_change_time", pu(0, 10, 432000, 100))
		p("leave_pool_time", pu(0, 10, 432000, 100))
	case 3:
		p("protocol_inflation_share", ps("0", "0.1", "0.333333333333333333", "1", "0.5"))
		p("pool_inflation_payout_rate", ps("0", "0.05", "0.333333333333333333", "1", "0.5"))
		o["max_voting_power_per_pool"] = ps("1", "1", "1", "0.5", "1", "1", "0.4", "0.666666666666666667", "1", "0.999999999999999999", "1")
	case 4:
		var wl []map[string]any
		for i, d := range []string{UKYVE, "acoin", "bcoin", "ccoin"} {
			if i > 0 && r.Chance(1, 4) {
				continue
			}
			mn := pu(1, 10, 1000, 1000000)
			wl = append(wl, map[string]any{"coin_denom": d, "coin_decimals": pu(6, 9, 0, 18, 6, 3), "min_funding_amount": fmt.Sprint(mn),
				"min_funding_amount_per_bundle": fmt.Sprint(pu(1, 1, 10, 1000)), "coin_weight": ps("1", "2", "0.06", "5.5", "0.333333333333333333", "0", "1")})
		}
		p("coin_whitelist", wl)
		p("min_funding_multiple", pu(0, 1, 2, 20))
	default:
		p("burn_ratio", ps("0", "0.5", "1", "0.333333333333333333"))
		p("min_gas_price", ps("0", "0.02", "1"))
	}
	b, _ := json.Marshal(o)
	return string(b)
}

// far is a decimal far out, up to and beyond what the type holds.
func far(r *Rng) string {
	return "1" + strings.Repeat("0", []int{9, 12, 18, 20, 21, 22, 24, 30, 40, 58, 60, 76, 77}[r.N(13)])
}

// extreme builds payloads with values at the far end of what their fields hold.
func extreme(mod int64, seed uint64) string {
	r := NewRng(seed, 17)
	o := map[string]any{}
	dec := func() string { return []string{far(r), "0.000000000000000001", "1", "0"}[r.N(4)] }
	u := func() uint64 {
		return []uint64{^uint64(0), 1 << 63, 1<<63 - 1, 1 << 53, 1, ^uint64(0) - 1700000000}[r.N(6)]
	}
	switch mod {
	case 0:
		o["storage_costs"] = []map[string]any{{"storage_provider_id": 0, "cost": dec()}, {"storage_provider_id": 1, "cost": dec()}, {"storage_provider_id": 2, "cost": dec()}}
		if r.Chance(1, 3) {
			o["max_points"] = u()
		}
		if r.Chance(1, 3) {
			o["upload_timeout"] = u()
		}
	case 1:
		for _, k := range []string{"redelegation_max_amount", "redelegation_cooldown", "unbonding_delegation_time"} {
			if r.Chance(1, 2) {
				o[k] = u()
			}
		}
	case 2:
		for _, k := range []string{"leave_pool_time", "commission_change_time"} {
			if r.Chance(1, 2) {
				o[k] = u()
			}
		}
	case 3:
		o["max_voting_power_per_pool"] = []string{"0.000000000000000001", "0.1", "1"}[r.N(3)]
	case 4:
		var wl []map[string]any
		for i, d := range []string{UKYVE, "acoin", "bcoin", "ccoin"} {
			if i > 0 && r.Chance(1, 4) {
				continue
			}
			wl = append(wl, map[string]any{"coin_denom": d, "coin_decimals": []uint64{0, 6, 18, 18, 19, 24, 40, 58, 76, 77, 100, 255, 1<<32 - 1}[r.N(13)], "min_funding_amount": "1",
				"min_funding_amount_per_bundle": "1", "coin_weight": []string{dec(), "1"}[r.N(2)]})
		}
		o["coin_whitelist"] = wl
	}
	b, _ := json.Marshal(o)
	return string(b)
}

func extremePool(seed uint64, times bool) string {
	r := NewRng(seed, 19)
	k := r.N(3)
	if times {
		k = 1
	}
	switch k {
	case 0:
		return fmt.Sprintf(`{"MinDelegation":%d}`, []uint64{^uint64(0), 1 << 63}[r.N(2)])
	case 1:
		return fmt.Sprintf(`{"UploadInterval":%d}`, []uint64{^uint64(0), 1 << 63, ^uint64(0) - 1700000000}[r.N(3)])
	}
	return fmt.Sprintf(`{"InflationShareWeight":"%s"}`, []string{far(r), "0.000000000000000001", far(r)}[r.N(3)])
}

// adversarial builds payloads from a wide grammar: partial, boundary, wrongly typed, unknown and broken.
func adversarial(mod int64, seed uint64, cur map[string]map[string]any) string {
	r := NewRng(seed, 13)
	mods := []string{"bundles", "delegation", "stakers", "pool", "funders", "global"}
	spec := paramSpec[mods[mod%6]]
	if r.Chance(1, 25) {
		return []string{"", "{", "[]", "5", "\"x\"", "{\"a\"}", "{} x", "{\"upload_timeout\":1"}[r.N(8)]
	}
	o := map[string]any{}
	val := func(kind string) any {
		bad := r.Chance(1, 12)
		switch kind {
		case "u64":
			if bad {
				return []any{"5", -1, 1.5, true, "x"}[r.N(5)]
			}
			return []any{0, 1, 2, 5, 60, 600, 432000, 1 << 40}[r.N(8)]
		case "pos":
			if bad {
				return []any{0, "5", -1, 1.5}[r.N(4)]
			}
			return []any{1, 2, 3, 24, 600, 1 << 40}[r.N(6)]
		case "pct":
			if bad {
				return []any{"1.1", "-0.1", "x", 5, "1.000000000000000001", "2"}[r.N(6)]
			}
			return []any{"0", "1", "0.5", "0.333333333333333333", "0.000000000000000001", "0.01"}[r.N(6)]
		case "dec":
			if bad {
				return []any{"-1", "x", 7}[r.N(3)]
			}
			return []any{"0", "1", "0.02", "1000000", "0.000000000000000001"}[r.N(5)]
		}
		panic(kind)
	}
	for i := 0; i < 1+r.N(3); i++ {
		k := sortedKeys(spec)[r.N(len(spec))]
		switch spec[k] {
		case "storage":
			l := []any{}
			for j := 0; j < r.N(4); j++ {
				l = append(l, map[string]any{"storage_provider_id": r.N(4), "cost": val("dec")})
			}
			o[k] = l
		case "adj":
			l := []any{}
			for j := 0; j < r.N(4); j++ {
				l = append(l, map[string]any{"type": fmt.Sprintf("/t%d", r.N(3)), "amount": val("u64")})
			}
			o[k] = l
		case "refund":
			l := []any{}
			for j := 0; j < r.N(4); j++ {
				l = append(l, map[string]any{"type": fmt.Sprintf("/t%d", r.N(3)), "fraction": val("pct")})
			}
			o[k] = l
		case "whitelist":
			l := []any{}
			ds := []string{UKYVE, "acoin", "bcoin", "ccoin"}
			n := 1 + r.N(4)
			off := 0
			if r.Chance(1, 5) {
				off = 1 // without the native coin
			}
			for j := off; j < n; j++ {
				l = append(l, map[string]any{"coin_denom": ds[j], "coin_decimals": r.N(19), "min_funding_amount": fmt.Sprint(1 + r.N(1000)), "min_funding_amount_per_bundle": fmt.Sprint(1 + r.N(10)), "coin_weight": []string{"1", "2", "0.5"}[r.N(3)]})
			}
			if r.Chance(1, 2) && len(l) > 1 {
				l[0], l[len(l)-1] = l[len(l)-1], l[0]
			}
			if r.Chance(1, 10) && len(l) > 0 {
				l[0].(map[string]any)["min_funding_amount"] = "-5"
			}
			o[k] = l
		default:
			o[k] = val(spec[k])
		}
	}
	for _, k := range sortedKeys(o) { // entries of lists with fields left out
		if l, ok := o[k].([]any); ok && len(l) > 0 && r.Chance(1, 4) {
			e := l[r.N(len(l))].(map[string]any)
			delete(e, sortedKeys(e)[r.N(len(e))])
		}
	}
	if r.Chance(1, 10) {
		o["no_such_field"] = 1
	}
	if r.Chance(1, 12) { // a field of another module
		other := paramSpec[mods[r.N(6)]]
		for _, k := range sortedKeys(other)[:1] {
			if _, mine := spec[k]; !mine {
				o[k] = 7
			}
		}
	}
	b, _ := json.Marshal(o)
	return string(b)
}

// ---- funders ------------------------------------------------------------------------------------------

func (s *Sim) funder(a int64) string {
	l := sortedKeys(s.pre.Funders)
	if len(l) == 0 || a%17 == 16 {
		return s.user(a / 17)
	}
	return pick(l, a/17)
}

func (s *Sim) fundArgs(p uint64, u string, r *Rng) (am, per Bag) {
	am, per = Bag{}, Bag{}
	st := s.pre
	old := st.Fund[pk(p, u)]
	dens := []string{}
	for _, d := range AllDens {
		listed := d == UKYVE
		for _, w := range st.P.WL {
			listed = listed || w.Denom == d
		}
		if listed && r.Chance(1, 2) || r.Chance(1, 40) || d == UKYVE && r.Chance(1, 3) {
			dens = append(dens, d)
		}
	}
	if len(dens) == 0 {
		dens = []string{UKYVE}
	}
	for _, d := range dens {
		min, mp := big.NewInt(1), big.NewInt(1)
		for _, w := range st.P.WL {
			if w.Denom == d {
				min, mp = w.MinAmt, w.MinPer
			}
		}
		pb := new(big.Int).Add(mp, big.NewInt(int64(r.N(100))))
		if r.Chance(1, 3) {
			pb = new(big.Int).Add(mp, big.NewInt(r.I64(10*KYVE)))
		}
		if r.Chance(1, 8) {
			pb.Set(mp)
		}
		if r.Chance(1, 14) {
			pb.Sub(mp, big.NewInt(1))
		}
		if old != nil && r.Chance(1, 3) {
			pb = old.Per.get(d)
		}
		bound := new(big.Int).Mul(pb, bigU(st.P.FundMult))
		if bound.Cmp(min) < 0 {
			bound.Set(min)
		}
		have := big0()
		if old != nil {
			have = old.Amt.get(d)
		}
		x := new(big.Int).Set(bound)
		switch r.N(8) {
		case 0: // exactly on the boundary
		case 1:
			x.Sub(x, big.NewInt(1))
		case 2:
			x.Sub(x, have)
		case 3:
			x.Sub(x, have)
			x.Sub(x, big.NewInt(1))
		case 4:
			x = new(big.Int).Mul(pb, big.NewInt(int64(1+r.N(5)))) // a few bundles only
		case 5:
			x.Add(x, new(big.Int).Mul(pb, big.NewInt(int64(r.N(4)))))
			x.Add(x, big.NewInt(int64(r.N(3))))
		default:
			x.Add(x, big.NewInt(r.I64(100*KYVE)))
		}
		if x.Sign() > 0 && !r.Chance(1, 15) {
			am.set(d, x)
		}
		if pb.Sign() > 0 && !r.Chance(1, 6) {
			per.set(d, pb)
		}
	}
	return
}

func (s *Sim) defund(a, b, mode, x int64) {
	l := sortedKeys(s.pre.Fund)
	if len(l) == 0 || a%13 == 12 {
		s.tx(&funderstypes.MsgDefundPool{Creator: s.user(a / 13), PoolId: s.pool(b), Amounts: bagU(UKYVE, uint64(x%KYVE)+1).coins()})
		return
	}
	k := pick(l, a/13)
	p, u := splitPk(k)
	f := s.pre.Fund[k]
	am := Bag{}
	r := NewRng(uint64(x), 9)
	for _, d := range AllDens {
		have := f.Amt.get(d)
		if have.Sign() == 0 && !r.Chance(1, 20) || r.Chance(1, 3) {
			continue
		}
		min := big0()
		for _, w := range s.pre.P.WL {
			if w.Denom == d {
				min = new(big.Int).Mul(f.Per.get(d), bigU(s.pre.P.FundMult))
				if w.MinAmt.Cmp(min) > 0 {
					min = w.MinAmt
				}
			}
		}
		v := new(big.Int).Sub(have, min)
		switch r.N(6) {
		case 0, 1:
			v = new(big.Int).Set(have)
		case 2: // down to the minimum
		case 3:
			v.Add(v, big.NewInt(1))
		case 4:
			v = new(big.Int).Add(have, big.NewInt(int64(r.N(1000))))
		case 5:
			v = big.NewInt(1 + r.I64(KYVE))
		}
		if v.Sign() > 0 {
			am.set(d, v)
		}
	}
	if am.empty() {
		am = bagU(UKYVE, 1)
	}
	s.tx(&funderstypes.MsgDefundPool{Creator: u, PoolId: p, Amounts: am.coins()})
}

// ---- team ------------------------------------------------------------------------------------------------

func (s *Sim) teamAuth(a int64) string {
	switch a % 12 {
	case 10:
		return s.user(a / 12)
	case 11:
		return s.c.Authority
	case 5, 6, 7:
		return bcp
	}
	return foundry
}

func (s *Sim) teamAcc(a int64) *teamtypes.TeamVestingAccount {
	ids := sortedU(s.pre.TeamA)
	if len(ids) == 0 || a%19 == 18 {
		return &teamtypes.TeamVestingAccount{Id: uint64(a % 5)}
	}
	return s.pre.TeamA[ids[int(a/19)%len(ids)]]
}

func (s *Sim) team(op Op) {
	a := op.a
	now := uint64(s.now())
	auth := s.teamAuth(a(0))
	rcp := s.user(a(4))
	if a(4)%37 == 36 {
		rcp = "nobody"
	}
	switch op.K {
	case "tc":
		left := new(big.Int).Sub(bigU(teamtypes.TEAM_ALLOCATION), s.pre.issued())
		l := uint64(0)
		if left.Sign() > 0 {
			l = left.Uint64()
		}
		alloc := amount(a(1), a(2), l)
		if a(1)%16 == 1 || a(1)%16 == 2 {
			alloc *= 10000
		}
		off := []uint64{0, yearSec / 2, yearSec - 1, yearSec, yearSec + 1, 3 * yearSec / 2, 2 * yearSec, 3 * yearSec, 4 * yearSec, 5 * yearSec}[a(3)%10]
		com := now - off - uint64(a(2)%3)
		if a(3)/10%4 == 0 {
			com = teamtypes.TGE - yearSec*uint64(a(2)%5) + uint64(a(2)%100000)
		}
		if a(3)/10%23 == 22 {
			com = []uint64{0, 1, 1 << 63, ^uint64(0), now + 1000}[a(2)%5]
		}
		s.tx(&teamtypes.MsgCreateTeamVestingAccount{Authority: auth, TotalAllocation: alloc, Commencement: com})
	case "tclaw":
		x := s.teamAcc(a(1))
		cb := now
		switch a(2) % 10 {
		case 0:
			cb = 0
		case 1:
			cb = x.Commencement
		case 2:
			cb = x.Commencement + yearSec
		case 3:
			cb = x.Commencement + uint64(a(3))%(4*yearSec)
		case 4:
			cb = x.LastClaimedTime
		case 5:
			cb = now + uint64(a(3))%(3*yearSec)
		case 6:
			cb = x.Commencement - 1
		case 7:
			cb = x.Commencement + yearSec - 1
		}
		s.tx(&teamtypes.MsgClawback{Authority: auth, Id: x.Id, Clawback: cb})
	case "tclaim":
		x := s.teamAcc(a(1))
		base := unlocked(x, now)
		if base >= x.UnlockedClaimed {
			base -= x.UnlockedClaimed
		} else {
			base = 0
		}
		s.tx(&teamtypes.MsgClaimUnlocked{Authority: auth, Id: x.Id, Amount: amount(a(2), a(3), base), Recipient: rcp})
	case "tcar":
		x := s.teamAcc(a(1))
		s.tx(&teamtypes.MsgClaimAccountRewards{Authority: auth, Id: x.Id, Amount: amount(a(2), a(3), x.TotalRewards-x.RewardsClaimed), Recipient: rcp})
	case "tcauth":
		s.tx(&teamtypes.MsgClaimAuthorityRewards{Authority: auth, Amount: amount(a(2), a(3), s.pre.Auth.TotalRewards-s.pre.Auth.RewardsClaimed), Recipient: rcp})
	}
}

// ---- big populations ---------------------------------------------------------------------------------------

// bulk sets up n members (kind 0) or n active funders (kind 1) of a pool with the extra accounts, without checking
// every single step: it uses ordinary messages only.
func (s *Sim) bulk(kind int64, p uint64, n, seed int64) {
	if s.stop() || s.pre.Pools[p] == nil {
		return
	}
	r := NewRng(uint64(seed), 21)
	s.extra = true
	if int(n) > nExtra {
		n = int64(nExtra)
	}
	flat := r.Chance(1, 3)
	for i := 0; i < int(n); i++ {
		u := extras[i]
		var msgs []sdk.Msg
		if kind%2 == 0 {
			amt := uint64(100*KYVE) + uint64(r.I64(20))*uint64(KYVE)
			if flat {
				amt = 100 * uint64(KYVE)
			}
			if r.Chance(1, 12) {
				amt = 0
			}
			msgs = []sdk.Msg{&stakerstypes.MsgCreateStaker{Creator: u, Amount: amt, Commission: dec("0.1")},
				&stakerstypes.MsgJoinPool{Creator: u, PoolId: p, Valaddress: sdk.AccAddress(key(500 + i).PubKey().Address()).String(), Amount: 0}}
		} else {
			am, per := Bag{}, Bag{}
			for _, w := range s.pre.P.WL {
				if !r.Chance(1, 2) && w.Denom != UKYVE {
					continue
				}
				pb := new(big.Int).Add(w.MinPer, big.NewInt(r.I64(20)))
				x := new(big.Int).Mul(pb, bigU(s.pre.P.FundMult+1))
				if x.Cmp(w.MinAmt) < 0 {
					x.Set(w.MinAmt)
				}
				if !flat {
					x.Add(x, big.NewInt(r.I64(50)*KYVE))
				}
				am.set(w.Denom, x)
				per.set(w.Denom, pb)
			}
			msgs = []sdk.Msg{&funderstypes.MsgCreateFunder{Creator: u, Moniker: "x"},
				&funderstypes.MsgFundPool{Creator: u, PoolId: p, Amounts: am.coins(), AmountsPerBundle: per.coins()}}
		}
		for _, m := range msgs {
			cc, w := s.ctx.CacheContext()
			if s.c.raw(cc, m) == nil {
				w()
			}
		}
	}
	s.pre = s.c.Snap(s.ctx, s.extra)
	s.logf("  bulk: pool %d has %d members and %d active funders", p, len(s.pre.Val[p]), len(s.pre.FS[p]))
}
