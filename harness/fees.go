package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"time"

	"cosmossdk.io/log"
	"cosmossdk.io/math"
	"cosmossdk.io/x/feegrant"
	abci "github.com/cometbft/cometbft/abci/types"
	cmtproto "github.com/cometbft/cometbft/proto/tendermint/types"
	dbm "github.com/cosmos/cosmos-db"
	"github.com/cosmos/cosmos-sdk/baseapp"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	authsigning "github.com/cosmos/cosmos-sdk/x/auth/signing"
	authtx "github.com/cosmos/cosmos-sdk/x/auth/tx"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	minttypes "github.com/cosmos/cosmos-sdk/x/mint/types"

	kyveapp "github.com/KYVENetwork/chain/app"
	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"
)

// G01: signed transactions through FinalizeBlock against a ledger of fees, grants, refunds and burns.

const feeUsers = 6

var feeTypes = []string{
	"/cosmos.bank.v1beta1.MsgSend",
	"/kyve.funders.v1beta1.MsgCreateFunder",
	"/kyve.stakers.v1beta1.MsgCreateStaker",
	"/kyve.delegation.v1beta1.MsgDelegate",
	"/kyve.stakers.v1beta1.MsgUpdateMetadata",
	"/kyve.funders.v1beta1.MsgUpdateFunder",
	"/kyve.bundles.v1beta1.MsgVoteBundleProposal",
}

// fractions in units of 10^-18
var feeFracs = []string{"0", "1", "0.5", "0.333333333333333333", "0.1", "0.666666666666666667", "0.999999999999999999", "0.000000000000000001", "0.000001"}
var feePrices = []string{"0", "0", "0.02", "1", "2", "0.000001", "0.333333333333333333", "0.0000025"}

func genFees(r *Rng) *Case {
	cs := &Case{Cfg: map[string]int64{"price": int64(r.N(len(feePrices))), "vprice": int64(r.N(len(feePrices))), "burn": int64(r.N(len(feeFracs))), "poor": r.Arg()}}
	add := func(k string, n int) {
		o := Op{K: k}
		for i := 0; i < n; i++ {
			o.A = append(o.A, r.Arg())
		}
		cs.Ops = append(cs.Ops, o)
	}
	for i := r.N(5); i > 0; i-- {
		add("adj", 2)
	}
	for i := 1 + r.N(6); i > 0; i-- {
		add("ref", 2)
	}
	for i := r.N(10); i > 0; i-- {
		add("grant", 6)
	}
	for i := 2 + r.N(6); i > 0; i-- {
		for j := 1 + r.N(5); j > 0; j-- {
			add("tx", 14)
		}
		add("blk", 1)
	}
	return cs
}

type feeGrant struct {
	limit   Bag
	nolimit bool
	exp     int64
	allowed map[string]bool
	gone    bool
}

type feeSim struct {
	cs       *Case
	app      *kyveapp.App
	twin     *kyveapp.App
	twinOK   bool
	price    *big.Rat
	vprice   *big.Rat
	burn     *big.Rat
	adj      map[string]uint64
	ref      map[string]*big.Rat
	grants   map[string]*feeGrant
	bal      map[string]Bag
	seq      map[string]uint64
	accNum   map[string]uint64
	funder   map[string]bool
	staker   map[string]bool
	coll     Bag
	res      Result
	h, t     int64
	op       int
	trace    bool
	txConfig interface{}
}

func ratOf(s string) *big.Rat {
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		panic(s)
	}
	return r
}

func ceilRat(r *big.Rat) *big.Int {
	q, m := new(big.Int).QuoRem(r.Num(), r.Denom(), new(big.Int))
	if m.Sign() > 0 {
		q.Add(q, big.NewInt(1))
	}
	return q
}

func (b Bag) fraction(f *big.Rat) Bag {
	r := Bag{}
	for d, x := range b {
		v := new(big.Int).Mul(x, f.Num())
		v.Quo(v, f.Denom())
		if v.Sign() > 0 {
			r[d] = v
		}
	}
	return r
}

func (s *feeSim) logf(f string, a ...any) {
	if s.trace {
		s.res.Trace = append(s.res.Trace, fmt.Sprintf(f, a...))
	}
}

func (s *feeSim) bad(comp, step, key, f string, a ...any) {
	if s.res.Viol == nil {
		s.res.Viol = &Viol{"G01", comp, key, fmt.Sprintf(f, a...), step, s.op}
	}
	s.logf("    !! [%s] %s: %s", comp, key, fmt.Sprintf(f, a...))
}

func (s *feeSim) start(shadow bool) *kyveapp.App {
	setPrefixes()
	initActors()
	a, err := kyveapp.New(log.NewNopLogger(), dbm.NewMemDB(), nil, true, kyveapp.EmptyAppOptions{}, baseapp.SetChainID(chainID), baseapp.SetMinGasPrices(feePrices[int(s.cs.cfg("vprice", 0))%len(feePrices)]+UKYVE))
	if err != nil {
		panic(err)
	}
	o := GenOpts{CoinsOf: map[string]sdk.Coins{}}
	for i := 0; i < feeUsers; i++ {
		u := users[i]
		o.Accounts = append(o.Accounts, accOf[u])
		o.CoinsOf[u] = s.bal[u].coins()
	}
	o.Mut = func(gs map[string]json.RawMessage, a *kyveapp.App) {
		cdc := a.AppCodec()
		var mg minttypes.GenesisState
		cdc.MustUnmarshalJSON(gs[minttypes.ModuleName], &mg)
		mg.Params.InflationMax, mg.Params.InflationMin, mg.Params.InflationRateChange = math.LegacyZeroDec(), math.LegacyZeroDec(), math.LegacyZeroDec()
		mg.Minter.Inflation, mg.Minter.AnnualProvisions = math.LegacyZeroDec(), math.LegacyZeroDec()
		gs[minttypes.ModuleName] = cdc.MustMarshalJSON(&mg)
		gp := globaltypes.DefaultParams()
		gp.MinGasPrice = math.LegacyMustNewDecFromStr(feePrices[int(s.cs.cfg("price", 0))%len(feePrices)])
		gp.BurnRatio = math.LegacyMustNewDecFromStr(feeFracs[int(s.cs.cfg("burn", 0))%len(feeFracs)])
		for _, k := range sortedKeys(s.adj) {
			n := k
			if shadow { // the same length, but no message has this type
				n = n[:len(n)-1] + "Z"
			}
			gp.GasAdjustments = append(gp.GasAdjustments, globaltypes.GasAdjustment{Type: n, Amount: s.adj[k]})
		}
		for _, k := range sortedKeys(s.ref) {
			gp.GasRefunds = append(gp.GasRefunds, globaltypes.GasRefund{Type: k, Fraction: math.LegacyMustNewDecFromStr(s.ref[k].FloatString(18))})
		}
		if err := gp.Validate(); err != nil {
			panic(err)
		}
		gs[globaltypes.ModuleName] = cdc.MustMarshalJSON(&globaltypes.GenesisState{Params: gp})
		var fg feegrant.GenesisState
		for _, k := range sortedKeys(s.grants) {
			g := s.grants[k]
			from, to := splitGrant(k)
			b := &feegrant.BasicAllowance{}
			if !g.nolimit {
				b.SpendLimit = g.limit.coins()
			}
			if g.exp > 0 {
				t := time.Unix(g.exp, 0).UTC()
				b.Expiration = &t
			}
			var al feegrant.FeeAllowanceI = b
			if g.allowed != nil {
				var err error
				al, err = feegrant.NewAllowedMsgAllowance(b, sortedBools(g.allowed))
				if err != nil {
					panic(err)
				}
			}
			x, err := codectypes.NewAnyWithValue(al.(interface {
				Reset()
				String() string
				ProtoMessage()
			}))
			if err != nil {
				panic(err)
			}
			fg.Allowances = append(fg.Allowances, feegrant.Grant{Granter: from, Grantee: to, Allowance: x})
		}
		gs[feegrant.ModuleName] = cdc.MustMarshalJSON(&fg)
	}
	gs := genesis(a, o)
	state, _ := json.Marshal(gs)
	if _, err := a.InitChain(&abci.RequestInitChain{ChainId: chainID, ConsensusParams: consensusParams, AppStateBytes: state, Time: time.Unix(GenesisTime, 0).UTC(), Validators: []abci.ValidatorUpdate{}}); err != nil {
		panic(err)
	}
	return a
}

func sortedBools(m map[string]bool) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

func splitGrant(k string) (string, string) {
	var a, b string
	fmt.Sscan(k, &a, &b)
	return a, b
}

type feeTx struct {
	op        int
	signer    string
	payer     string
	granter   string
	msgs      []sdk.Msg
	fee       Bag
	gas       uint64
	adj       uint64
	certain   bool
	raw       []byte
	validFor  bool
	seqBefore uint64
}

func (t *feeTx) String() string {
	var m []string
	for _, x := range t.msgs {
		m = append(m, sdk.MsgTypeURL(x))
	}
	return fmt.Sprintf("signer %s payer %s granter %s fee %v gas %d (adjustments %d) %v", nm(t.signer), nm(t.payer), nm(t.granter), t.fee, t.gas, t.adj, m)
}

func (s *feeSim) build(o Op, used map[string]bool) *feeTx {
	t := &feeTx{op: s.op, signer: users[int(o.a(0)%feeUsers)]}
	t.payer = t.signer
	if o.a(1)%8 == 0 {
		t.payer = users[int(o.a(1)/8%feeUsers)]
	}
	if o.a(2)%5 < 2 {
		t.granter = users[int(o.a(2)/5%feeUsers)]
		var l []string
		for _, k := range sortedKeys(s.grants) {
			if _, to := splitGrant(k); to == t.payer {
				l = append(l, k)
			}
		}
		if len(l) > 0 && o.a(2)/5%7 > 0 {
			t.granter, _ = splitGrant(l[int(o.a(2)/5)%len(l)])
		} else if len(l) == 0 && o.a(2)/5%7 > 1 {
			t.granter = ""
		}
	}
	n := 1
	if o.a(3)%4 == 0 {
		n = 2 + int(o.a(3)/4%2)
	}
	for i := 0; i < n; i++ {
		a := o.a(4 + i)
		kind, a := a%int64(len(feeTypes)), a/int64(len(feeTypes))
		t.msgs = append(t.msgs, s.msg(t.signer, int(kind), a))
		t.adj += s.adj[feeTypes[kind]]
	}
	t.certain = true
	switch o.a(8) % 8 {
	case 0:
		t.gas = 1 + uint64(o.a(8)/8%150_000)
		t.certain = false
	case 1:
		t.gas = t.adj + uint64(o.a(8)/8%150_000) + 1
		t.certain = false
	case 2:
		t.gas = 1_500_000 + t.adj + uint64(o.a(8)/8%3)
	default:
		t.gas = 1_500_000 + t.adj + uint64(o.a(8)/8%1_000_000)
	}
	if used[t.signer] || used[t.payer] {
		if !t.certain {
			t.gas, t.certain = 2_000_000+t.adj, true
		}
	}
	req := ceilRat(new(big.Rat).Mul(s.price, new(big.Rat).SetInt(new(big.Int).SetUint64(t.gas))))
	t.fee = Bag{}
	set := func(d string, x *big.Int) {
		if x.Sign() > 0 {
			t.fee[d] = x
		}
	}
	extra := big.NewInt(o.a(9) / 16 % 5_000_000)
	switch o.a(9) % 16 {
	case 0:
		set(UKYVE, new(big.Int).Sub(req, big.NewInt(1)))
	case 1, 2:
		set(UKYVE, req)
	case 3:
	case 4:
		set("acoin", new(big.Int).Add(req, extra))
	case 5, 6, 7:
		set(UKYVE, new(big.Int).Add(req, extra))
		set("bcoin", big.NewInt(1+o.a(10)%1000))
		set("acoin", big.NewInt(1+o.a(11)%100000))
	case 8:
		set(UKYVE, new(big.Int).Sub(req, big.NewInt(1)))
		set("acoin", new(big.Int).Add(req, extra))
	case 9:
		set(UKYVE, new(big.Int).Add(req, big.NewInt(o.a(9)/16%7)))
	default:
		set(UKYVE, new(big.Int).Add(req, extra))
	}
	return t
}

func (s *feeSim) msg(u string, kind int, a int64) sdk.Msg {
	switch kind {
	case 0:
		to := users[int(a%feeUsers)]
		amt := a / feeUsers % 3_000_000
		switch a / feeUsers % 9 {
		case 0: // more than there is
			amt = 1 << 60
		case 1:
			amt = 1
		}
		return &banktypes.MsgSend{FromAddress: u, ToAddress: to, Amount: sdk.NewCoins(sdk.NewInt64Coin(UKYVE, amt+1))}
	case 1:
		return &funderstypes.MsgCreateFunder{Creator: u, Moniker: "m"}
	case 2:
		amt := uint64(a % 1_000_000)
		if a/1_000_000%6 == 0 {
			amt = 1 << 60
		}
		return &stakerstypes.MsgCreateStaker{Creator: u, Amount: amt, Commission: math.LegacyNewDecWithPrec(1, 1)}
	case 3:
		amt := uint64(a / feeUsers % 1_000_000)
		if a/feeUsers%7 == 0 {
			amt = 1 << 60
		}
		return &delegationtypes.MsgDelegate{Creator: u, Staker: users[int(a%feeUsers)], Amount: amt}
	case 4:
		return &stakerstypes.MsgUpdateMetadata{Creator: u, Moniker: "m", Details: fmt.Sprint(a % 1000)}
	case 5:
		return &funderstypes.MsgUpdateFunder{Creator: u, Moniker: fmt.Sprint("m", a%1000)}
	}
	return &bundlestypes.MsgVoteBundleProposal{Creator: u, Staker: users[int(a%feeUsers)], StorageId: "x", Vote: bundlestypes.VOTE_TYPE_VALID}
}

func (s *feeSim) sign(t *feeTx) []byte {
	cfg := authtx.NewTxConfig(s.app.AppCodec(), authtx.DefaultSignModes)
	b := cfg.NewTxBuilder()
	if err := b.SetMsgs(t.msgs...); err != nil {
		panic(err)
	}
	b.SetGasLimit(t.gas)
	b.SetFeeAmount(t.fee.coins())
	signers := []string{t.signer}
	if t.payer != t.signer {
		b.SetFeePayer(accOf[t.payer])
		signers = append(signers, t.payer)
	}
	if t.granter != "" {
		b.SetFeeGranter(accOf[t.granter])
	}
	priv := func(u string) *secp256k1.PrivKey {
		for i, x := range users {
			if x == u {
				return key(i)
			}
		}
		panic(u)
	}
	var sigs []signing.SignatureV2
	for _, u := range signers {
		sigs = append(sigs, signing.SignatureV2{PubKey: priv(u).PubKey(), Data: &signing.SingleSignatureData{SignMode: signing.SignMode_SIGN_MODE_DIRECT}, Sequence: s.seq[u]})
	}
	if err := b.SetSignatures(sigs...); err != nil {
		panic(err)
	}
	for i, u := range signers {
		sd := authsigning.SignerData{Address: u, ChainID: chainID, AccountNumber: s.accNum[u], Sequence: s.seq[u], PubKey: priv(u).PubKey()}
		bytes, err := authsigning.GetSignBytesAdapter(context.Background(), cfg.SignModeHandler(), signing.SignMode_SIGN_MODE_DIRECT, sd, b.GetTx())
		if err != nil {
			panic(err)
		}
		sig, err := priv(u).Sign(bytes)
		if err != nil {
			panic(err)
		}
		sigs[i].Data = &signing.SingleSignatureData{SignMode: signing.SignMode_SIGN_MODE_DIRECT, Signature: sig}
	}
	if err := b.SetSignatures(sigs...); err != nil {
		panic(err)
	}
	raw, err := cfg.TxEncoder()(b.GetTx())
	if err != nil {
		panic(err)
	}
	return raw
}

func (b Bag) covers(x Bag) bool {
	for d, v := range x {
		if b.get(d).Cmp(v) < 0 {
			return false
		}
	}
	return true
}

// enough: does the fee reach price*gas in the bond denom?
func feeEnough(t *feeTx, price *big.Rat) bool {
	req := ceilRat(new(big.Rat).Mul(price, new(big.Rat).SetInt(new(big.Int).SetUint64(t.gas))))
	return t.fee.get(UKYVE).Cmp(req) >= 0
}

// ante predicts whether the fee can be charged, and to whom.
func (s *feeSim) ante(t *feeTx, h int64) (payer string, g *feeGrant, why string) {
	if h > 1 && !feeEnough(t, s.price) {
		return "", nil, "fee below the minimum gas price"
	}
	payer = t.payer
	if t.granter != "" && t.granter != t.payer {
		g = s.grants[t.granter+" "+t.payer]
		if g == nil || g.gone {
			return "", nil, "no allowance"
		}
		if g.exp > 0 && g.exp < s.t {
			return "", nil, "expired allowance"
		}
		if g.allowed != nil {
			for _, m := range t.msgs {
				if !g.allowed[sdk.MsgTypeURL(m)] {
					return "", nil, "message not allowed by the granter"
				}
			}
		}
		if !g.nolimit && !g.limit.covers(t.fee) {
			return "", nil, "allowance exceeded"
		}
		payer = t.granter
	}
	if !s.bal[payer].covers(t.fee) {
		return "", nil, "fee not affordable"
	}
	return payer, g, ""
}

func (s *feeSim) move(from, to string, b Bag) {
	if from != "" {
		s.bal[from] = s.bal[from].sub(b)
	}
	if to != "" {
		s.bal[to] = s.bal[to].add(b)
	}
}

// exec predicts the messages; it changes the ledger only if all of them succeed.
func (s *feeSim) exec(t *feeTx) bool {
	bal, fn, st := map[string]Bag{}, map[string]bool{}, map[string]bool{}
	for k, v := range s.bal {
		bal[k] = v
	}
	for k := range s.funder {
		fn[k] = true
	}
	for k := range s.staker {
		st[k] = true
	}
	undo := func() bool { s.bal, s.funder, s.staker = bal, fn, st; return false }
	one := func(n uint64) Bag { return Bag{UKYVE: new(big.Int).SetUint64(n)} }
	for _, m := range t.msgs {
		switch x := m.(type) {
		case *banktypes.MsgSend:
			c := bagOf(x.Amount)
			if !s.bal[x.FromAddress].covers(c) {
				return undo()
			}
			s.move(x.FromAddress, x.ToAddress, c)
		case *funderstypes.MsgCreateFunder:
			if s.funder[x.Creator] {
				return undo()
			}
			s.funder[x.Creator] = true
		case *funderstypes.MsgUpdateFunder:
			if !s.funder[x.Creator] {
				return undo()
			}
		case *stakerstypes.MsgCreateStaker:
			if s.staker[x.Creator] || !s.bal[x.Creator].covers(one(x.Amount)) {
				return undo()
			}
			s.staker[x.Creator] = true
			s.move(x.Creator, "", one(x.Amount))
		case *delegationtypes.MsgDelegate:
			if !s.staker[x.Staker] || !s.bal[x.Creator].covers(one(x.Amount)) {
				return undo()
			}
			s.move(x.Creator, "", one(x.Amount))
		case *stakerstypes.MsgUpdateMetadata:
			if !s.staker[x.Creator] {
				return undo()
			}
		default:
			return undo()
		}
	}
	return true
}

func runFees(_ *Chain, cs *Case, trace bool) Result {
	s := &feeSim{cs: cs, trace: trace, res: Result{Notes: map[string]int{}}, adj: map[string]uint64{}, ref: map[string]*big.Rat{}, grants: map[string]*feeGrant{}, bal: map[string]Bag{}, seq: map[string]uint64{}, accNum: map[string]uint64{}, funder: map[string]bool{}, staker: map[string]bool{}, coll: Bag{}}
	initActors()
	s.price = ratOf(feePrices[int(cs.cfg("price", 0))%len(feePrices)])
	s.vprice = ratOf(feePrices[int(cs.cfg("vprice", 0))%len(feePrices)])
	s.burn = ratOf(feeFracs[int(cs.cfg("burn", 0))%len(feeFracs)])
	poor := cs.cfg("poor", 0)
	for i := 0; i < feeUsers; i++ {
		x := big.NewInt(1_000_000_000_000)
		if poor>>uint(i)&1 == 1 && i%2 == 1 {
			x = big.NewInt(3_000_000 + poor%1_000_000)
		}
		s.bal[users[i]] = Bag{UKYVE: x, "acoin": big.NewInt(1_000_000_000), "bcoin": big.NewInt(2000)}
	}
	for _, o := range cs.Ops {
		switch o.K {
		case "adj":
			s.adj[feeTypes[int(o.a(0))%len(feeTypes)]] = []uint64{1, 1000, 50_000, 2_000_000, uint64(o.a(1) / 8 % 400_000)}[o.a(1)%8%5]
		case "ref":
			s.ref[feeTypes[int(o.a(0))%len(feeTypes)]] = ratOf(feeFracs[int(o.a(1))%len(feeFracs)])
		case "grant":
			from, to := users[int(o.a(0)%feeUsers)], users[int(o.a(1)%feeUsers)]
			if from == to {
				continue
			}
			g := &feeGrant{limit: Bag{UKYVE: big.NewInt(1 + o.a(2)%20_000_000), "acoin": big.NewInt(100_000_000), "bcoin": big.NewInt(1_000_000)}}
			if o.a(2)%6 == 0 {
				delete(g.limit, "bcoin")
			}
			g.nolimit = o.a(3)%5 == 0
			if o.a(4)%4 == 0 {
				g.exp = GenesisTime + o.a(4)/4%8*5 + 2
			}
			if o.a(5)%4 == 0 {
				g.allowed = map[string]bool{}
				for i, t := range feeTypes {
					if o.a(5)/4>>uint(i)&1 == 1 || i == 0 {
						g.allowed[t] = true
					}
				}
			}
			s.grants[from+" "+to] = g
		}
	}
	if err := guard(func() error { s.app = s.start(false); return nil }); err != nil {
		s.bad("setup", "genesis", "", "%v", err)
		return s.res
	}
	s.twinOK = len(s.adj) > 0
	if s.twinOK {
		s.twin = s.start(true)
	}
	for i := 0; i < feeUsers; i++ {
		s.accNum[users[i]] = uint64(i + 1)
	}
	s.h, s.t = 0, GenesisTime
	var batch []*feeTx
	used := map[string]bool{}
	for i, o := range cs.Ops {
		s.op = i
		switch o.K {
		case "tx":
			t := s.build(o, used)
			uncertain := false
			for _, b := range batch {
				if !b.certain && (b.signer == t.signer || b.payer == t.signer || b.signer == t.payer || b.payer == t.payer) {
					uncertain = true
				}
			}
			if uncertain {
				continue
			}
			used[t.signer], used[t.payer] = true, true
			batch = append(batch, t)
		case "blk":
			s.block(batch)
			batch, used = nil, map[string]bool{}
			if s.res.Viol != nil {
				return s.res
			}
		}
	}
	s.block(batch)
	if s.res.Viol == nil {
		s.block(nil)
	}
	return s.res
}

func (s *feeSim) note(k string) { s.res.Notes[k]++ }

func (s *feeSim) block(batch []*feeTx) {
	s.h++
	if s.h > 1 {
		s.t += 5
	}
	s.logf("block %d", s.h)
	// The sequence numbers depend on which transactions get through, so every transaction is signed for the outcome the
	// ledger predicts; one whose outcome cannot be predicted is the only one of its signers in the block.
	save := s.clone()
	var raws [][]byte
	type pred struct {
		payer string
		g     *feeGrant
		why   string
		ok    bool
	}
	first := true
	for _, t := range batch {
		t.seqBefore = s.seq[t.signer]
		t.raw = s.sign(t)
		raws = append(raws, t.raw)
		if s.h > 2 && first { // before block 2 the mempool still runs at height 1
			// the mempool check of the first transaction, whose state is known
			lim := s.price
			if s.vprice.Cmp(lim) > 0 {
				lim = s.vprice
			}
			_, _, why := s.ante(t, s.h)
			res, err := s.app.CheckTx(&abci.RequestCheckTx{Tx: t.raw, Type: abci.CheckTxType_New})
			if err == nil {
				switch {
				case !feeEnough(t, lim):
					s.note("check: fee too low")
					if res.Code == 0 {
						s.bad("checktx", "check", t.String(), "accepted although the fee is below the minimum price %s", lim.FloatString(18))
					}
				case why != "" && why != "expired allowance":
					if res.Code == 0 {
						s.bad("checktx", "check", t.String(), "accepted although: %s", why)
					}
				case why == "" && t.certain:
					s.note("check: accepted")
					if res.Code != 0 {
						s.bad("checktx", "check", t.String(), "rejected: %s", res.Log)
					}
				}
			}
			first = false
		}
		payer, g, why := s.ante(t, s.h)
		if why == "" && t.certain {
			s.apply(t, payer, g, true)
		}
	}
	// run the block
	req := &abci.RequestFinalizeBlock{Height: s.h, Time: time.Unix(s.t, 0).UTC(), Txs: raws, ProposerAddress: valKey().PubKey().Address().Bytes(),
		DecidedLastCommit: abci.CommitInfo{}}
	run := func(a *kyveapp.App) (r *abci.ResponseFinalizeBlock, err error) {
		err = guard(func() error {
			var e error
			if r, e = a.FinalizeBlock(req); e != nil {
				return e
			}
			_, e = a.Commit()
			return e
		})
		return
	}
	s.restore(save)
	distr := bagOf(s.app.BankKeeper.GetAllBalances(s.ctx(), authtypes.NewModuleAddress("distribution")))
	supply := s.supply()
	if s.h == 1 { // nothing is committed yet
		supply = bagU(UKYVE, teamtypes.TEAM_ALLOCATION+sdk.DefaultPowerReduction.Uint64())
		for _, b := range save.genesis {
			supply = supply.add(b)
		}
	}
	collBefore := s.coll
	res, err := run(s.app)
	if err != nil {
		s.bad("halt", "block", "", "%v", err)
		return
	}
	ctx := s.ctx()
	// what is left of the fees of the previous block went to the distribution module
	s.coll = Bag{}
	moved := collBefore
	if s.h == 1 {
		moved, s.coll = Bag{}, collBefore
	}
	for i, t := range batch {
		s.op = t.op
		r := res.TxResults[i]
		s.logf("  %s -> code %d gas %d/%d %s", t, r.Code, r.GasUsed, r.GasWanted, r.Log)
		s.res.Steps++
		payer, g, why := s.ante(t, s.h)
		if why != "" {
			if r.Code == 0 {
				s.bad("accept", "tx", t.String(), "accepted although: %s", why)
				return
			}
			s.note("rejected: " + why)
			continue
		}
		if t.certain {
			ok := s.apply(t, payer, g, false)
			if ok != (r.Code == 0) {
				s.bad("accept", "tx", t.String(), "expected success %v, got code %d: %s", ok, r.Code, r.Log)
				return
			}
			s.noteTx(t, payer, ok)
		} else {
			a := s.app.AccountKeeper.GetAccount(ctx, accOf[t.signer])
			passed := a.GetSequence() > t.seqBefore
			if !passed && r.Code == 0 {
				s.bad("accept", "tx", t.String(), "succeeded without a sequence number")
				return
			}
			if passed && t.adj > t.gas {
				s.bad("gas", "tx", t.String(), "passed with less gas than the adjustments alone")
				return
			}
			if passed {
				s.charge(t, payer, g)
				if r.Code == 0 {
					if !s.exec(t) {
						s.bad("accept", "tx", t.String(), "succeeded unexpectedly")
						return
					}
					s.refund(t, payer)
				} else {
					s.note("out of gas, fee kept")
				}
			} else {
				s.note("out of gas before the fee")
			}
		}
		if r.Code == 0 && uint64(r.GasUsed) < t.adj {
			s.bad("gas", "tx", t.String(), "gas used %d is less than the adjustments %d", r.GasUsed, t.adj)
		}
	}
	// burn
	if s.h > 1 {
		b := s.coll.fraction(s.burn)
		if !b.empty() {
			s.note("burned")
		}
		s.coll = s.coll.sub(b)
		supply = supply.sub(b)
	}
	if s.twinOK && s.res.Viol == nil {
		tr, err := run(s.twin)
		if err != nil {
			s.bad("halt", "block", "twin", "%v", err)
			return
		}
		for i, t := range batch {
			a, b := res.TxResults[i], tr.TxResults[i]
			if a.Code != b.Code || a.Code != 0 && !t.certain { // they may have failed at different points
				s.twinOK = false
				break
			}
			if a.Code == 0 {
				if t.adj > 0 {
					s.note("adjusted")
				}
				if uint64(a.GasUsed-b.GasUsed) != t.adj {
					s.op = t.op
					s.bad("gas", "tx", t.String(), "the configured extra gas is %d, but the transaction used %d with and %d without it", t.adj, a.GasUsed, b.GasUsed)
				}
			}
		}
	}
	for _, u := range users[:feeUsers] {
		got := bagOf(s.app.BankKeeper.GetAllBalances(ctx, accOf[u]))
		if got.String() != s.bal[u].String() {
			s.bad("wallet", "block", nm(u), "block %d: expected %v, got %v", s.h, s.bal[u], got)
		}
		if a := s.app.AccountKeeper.GetAccount(ctx, accOf[u]); a.GetSequence() != s.seq[u] {
			s.seq[u] = a.GetSequence() // uncertain transactions
		}
	}
	if got := bagOf(s.app.BankKeeper.GetAllBalances(ctx, authtypes.NewModuleAddress(authtypes.FeeCollectorName))); got.String() != s.coll.String() {
		s.bad("collector", "block", "", "block %d: expected %v, got %v", s.h, s.coll, got)
	}
	if got := bagOf(s.app.BankKeeper.GetAllBalances(ctx, authtypes.NewModuleAddress("distribution"))); got.String() != distr.add(moved).String() {
		s.bad("distribution", "block", "", "block %d: expected %v, got %v", s.h, distr.add(moved), got)
	}
	if got := s.supply(); got.String() != supply.String() {
		s.bad("supply", "block", "", "block %d: expected %v, got %v", s.h, supply, got)
	}
	for _, k := range sortedKeys(s.grants) {
		g := s.grants[k]
		from, to := splitGrant(k)
		if g.nolimit || g.exp > 0 {
			continue
		}
		al, err := s.app.FeeGrantKeeper.GetAllowance(ctx, accOf[from], accOf[to])
		if g.gone {
			if err == nil && al != nil {
				s.bad("grant", "block", nm(from)+" "+nm(to), "a used up allowance still exists")
			}
			continue
		}
		if err != nil || al == nil {
			s.bad("grant", "block", nm(from)+" "+nm(to), "expected %v left, but the allowance is gone: %v", g.limit, err)
			continue
		}
		var b *feegrant.BasicAllowance
		switch x := al.(type) {
		case *feegrant.BasicAllowance:
			b = x
		case *feegrant.AllowedMsgAllowance:
			in, _ := x.GetAllowance()
			b = in.(*feegrant.BasicAllowance)
		}
		if got := bagOf(b.SpendLimit); got.String() != g.limit.String() {
			s.bad("grant", "block", nm(from)+" "+nm(to), "block %d: expected %v left of the allowance, got %v", s.h, g.limit, got)
		}
	}
}

func (s *feeSim) noteTx(t *feeTx, payer string, ok bool) {
	if ok {
		s.note("succeeded")
		if t.granter != "" && t.granter == payer && payer != t.payer {
			s.note("paid by a granter")
		}
		if t.payer != t.signer {
			s.note("separate payer")
		}
		if s.h == 1 && !feeEnough(t, s.price) {
			s.note("below the price in the first block")
		}
		return
	}
	s.note("failed, fee kept")
	if len(t.msgs) == 1 && s.ref[sdk.MsgTypeURL(t.msgs[0])] != nil {
		s.note("failed, refundable type")
	}
}

func (s *feeSim) charge(t *feeTx, payer string, g *feeGrant) {
	s.bal[payer] = s.bal[payer].sub(t.fee)
	s.coll = s.coll.add(t.fee)
	s.seq[t.signer]++
	if t.payer != t.signer {
		s.seq[t.payer]++
	}
	if g != nil && !g.nolimit {
		g.limit = g.limit.sub(t.fee)
		if g.limit.empty() {
			g.gone = true
		}
	}
}

func (s *feeSim) refund(t *feeTx, payer string) {
	if len(t.msgs) != 1 {
		return
	}
	f := s.ref[sdk.MsgTypeURL(t.msgs[0])]
	if f == nil || f.Sign() == 0 {
		return
	}
	b := t.fee.fraction(f)
	if !b.empty() {
		s.note("refunded")
		if payer != t.payer {
			s.note("refunded to a granter")
		}
	}
	s.bal[payer] = s.bal[payer].add(b)
	s.coll = s.coll.sub(b)
}

func (s *feeSim) apply(t *feeTx, payer string, g *feeGrant, quiet bool) bool {
	s.charge(t, payer, g)
	ok := s.exec(t)
	if ok {
		s.refund(t, payer)
	}
	return ok
}

type feeSave struct {
	bal    map[string]Bag
	seq    map[string]uint64
	funder map[string]bool
	staker map[string]bool
	grants map[string]feeGrant
	coll   Bag
	notes  map[string]int

	genesis map[string]Bag
}

func (s *feeSim) clone() *feeSave {
	c := &feeSave{map[string]Bag{}, map[string]uint64{}, map[string]bool{}, map[string]bool{}, map[string]feeGrant{}, s.coll, map[string]int{}, map[string]Bag{}}
	for k, v := range s.bal {
		c.bal[k], c.genesis[k] = v, v
	}
	for k, v := range s.seq {
		c.seq[k] = v
	}
	for k := range s.funder {
		c.funder[k] = true
	}
	for k := range s.staker {
		c.staker[k] = true
	}
	for k, v := range s.grants {
		c.grants[k] = *v
	}
	for k, v := range s.res.Notes {
		c.notes[k] = v
	}
	return c
}

func (s *feeSim) restore(c *feeSave) {
	s.bal, s.seq, s.funder, s.staker, s.coll = c.bal, c.seq, c.funder, c.staker, c.coll
	for k, v := range c.grants {
		g := v
		*s.grants[k] = g
	}
	for k := range s.res.Notes {
		if k != "check: fee too low" && k != "check: accepted" {
			s.res.Notes[k] = c.notes[k]
		}
	}
}

func (s *feeSim) ctx() sdk.Context {
	return s.app.BaseApp.NewUncachedContext(false, cmtproto.Header{Height: s.h, ChainID: chainID, Time: time.Unix(s.t, 0).UTC()})
}

func (s *feeSim) supply() Bag {
	b := Bag{}
	for _, d := range AllDens {
		b = b.add(bagOf(sdk.NewCoins(s.app.BankKeeper.GetSupply(s.ctx(), d))))
	}
	return b
}
