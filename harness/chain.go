package main

import (
	"encoding/json"
	"fmt"
	"sync"
	"time"

	"cosmossdk.io/log"
	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	cmtproto "github.com/cometbft/cometbft/proto/tendermint/types"
	cmttypes "github.com/cometbft/cometbft/types"
	dbm "github.com/cosmos/cosmos-db"
	"github.com/cosmos/cosmos-sdk/baseapp"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	govtypes "github.com/cosmos/cosmos-sdk/x/gov/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
	minttypes "github.com/cosmos/cosmos-sdk/x/mint/types"
	stakingtypes "github.com/cosmos/cosmos-sdk/x/staking/types"

	kyveapp "github.com/KYVENetwork/chain/app"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"
)

const (
	chainID = "kyve-test"
	KYVE    = int64(1_000_000_000)
	// GenesisTime lies after TGE (2023-02-01) by default; a case may start elsewhere.
	GenesisTime = int64(1_700_000_000)
)

var (
	UKYVE   = globaltypes.Denom
	AllDens = []string{"acoin", "bcoin", "ccoin", UKYVE}
	foundry = teamtypes.TEAM_FOUNDATION_STRING
	bcp     = teamtypes.TEAM_BCP_STRING
)

var prefixOnce sync.Once

func setPrefixes() {
	prefixOnce.Do(func() {
		c := sdk.GetConfig()
		c.SetBech32PrefixForAccount("kyve", "kyvepub")
		c.SetBech32PrefixForValidator("kyvevaloper", "kyvevaloperpub")
		c.SetBech32PrefixForConsensusNode("kyvevalcons", "kyvevalconspub")
	})
}

// key returns the i-th deterministic account key.
func key(i int) *secp256k1.PrivKey {
	return secp256k1.GenPrivKeyFromSecret([]byte(fmt.Sprintf("verif-key-%d", i)))
}

func valKey() *ed25519.PrivKey { return ed25519.GenPrivKeyFromSecret([]byte("verif-val")) }

var consensusParams = &cmtproto.ConsensusParams{
	Block:     &cmtproto.BlockParams{MaxBytes: 2000000, MaxGas: -1},
	Evidence:  &cmtproto.EvidenceParams{MaxAgeNumBlocks: 302400, MaxAgeDuration: 504 * time.Hour, MaxBytes: 10000},
	Validator: &cmtproto.ValidatorParams{PubKeyTypes: []string{cmttypes.ABCIPubKeyTypeEd25519}},
}

func newApp(db dbm.DB) *kyveapp.App {
	setPrefixes()
	a, err := kyveapp.New(log.NewNopLogger(), db, nil, true, kyveapp.EmptyAppOptions{}, baseapp.SetChainID(chainID))
	if err != nil {
		panic(err)
	}
	return a
}

type GenOpts struct {
	Accounts []sdk.AccAddress // funded accounts
	Coins    sdk.Coins        // coins of every funded account
	CoinsOf  map[string]sdk.Coins
	Mut      func(map[string]json.RawMessage, *kyveapp.App)
}

func genesis(a *kyveapp.App, o GenOpts) map[string]json.RawMessage {
	gs := a.DefaultGenesis()
	cdc := a.AppCodec()
	pub := valKey().PubKey()
	pkAny, _ := codectypes.NewAnyWithValue(pub)
	valAddr := sdk.ValAddress(pub.Address()).String()
	delegator := sdk.AccAddress(key(9999).PubKey().Address())
	vals := []stakingtypes.Validator{{
		OperatorAddress: valAddr, ConsensusPubkey: pkAny, Status: stakingtypes.Bonded,
		Tokens: sdk.DefaultPowerReduction, DelegatorShares: math.LegacyOneDec(),
		UnbondingTime:     time.Unix(0, 0).UTC(),
		Commission:        stakingtypes.NewCommission(math.LegacyZeroDec(), math.LegacyZeroDec(), math.LegacyZeroDec()),
		MinSelfDelegation: math.ZeroInt(),
	}}
	dels := []stakingtypes.Delegation{stakingtypes.NewDelegation(delegator.String(), valAddr, math.LegacyOneDec())}
	accs := []authtypes.GenesisAccount{authtypes.NewBaseAccount(delegator, nil, 0, 0)}
	bonded := sdk.NewCoins(sdk.NewCoin(UKYVE, sdk.DefaultPowerReduction))
	team := sdk.NewCoins(sdk.NewInt64Coin(UKYVE, int64(teamtypes.TEAM_ALLOCATION)))
	supply := bonded.Add(team...)
	bals := []banktypes.Balance{
		{Address: authtypes.NewModuleAddress(stakingtypes.BondedPoolName).String(), Coins: bonded},
		{Address: authtypes.NewModuleAddress(teamtypes.ModuleName).String(), Coins: team},
	}
	for i, x := range o.Accounts {
		accs = append(accs, authtypes.NewBaseAccount(x, nil, uint64(i+1), 0))
		cs := o.Coins
		if c, ok := o.CoinsOf[x.String()]; ok {
			cs = c
		}
		bals = append(bals, banktypes.Balance{Address: x.String(), Coins: cs})
		supply = supply.Add(cs...)
	}
	gs[authtypes.ModuleName] = cdc.MustMarshalJSON(authtypes.NewGenesisState(authtypes.DefaultParams(), accs))
	gs[banktypes.ModuleName] = cdc.MustMarshalJSON(banktypes.NewGenesisState(banktypes.DefaultParams(), bals, supply, nil, nil))
	sp := stakingtypes.DefaultParams()
	sp.BondDenom = UKYVE
	gs[stakingtypes.ModuleName] = cdc.MustMarshalJSON(stakingtypes.NewGenesisState(sp, vals, dels))
	var mg minttypes.GenesisState
	cdc.MustUnmarshalJSON(gs[minttypes.ModuleName], &mg)
	mg.Params.MintDenom = UKYVE
	gs[minttypes.ModuleName] = cdc.MustMarshalJSON(&mg)
	var gg govv1.GenesisState
	cdc.MustUnmarshalJSON(gs[govtypes.ModuleName], &gg)
	gg.Params.MinDeposit = sdk.NewCoins(sdk.NewInt64Coin(UKYVE, 100*KYVE))
	gg.Params.ExpeditedMinDeposit = sdk.NewCoins(sdk.NewInt64Coin(UKYVE, 500*KYVE))
	gs[govtypes.ModuleName] = cdc.MustMarshalJSON(&gg)
	if o.Mut != nil {
		o.Mut(gs, a)
	}
	return gs
}

// Chain is one application instance whose committed state serves as the base of many cases.
type Chain struct {
	App       *kyveapp.App
	Authority string
	nAct      int
}

// the accounts used by cases: users are signers, vals are protocol addresses
const (
	nUsers = 24
	nVals  = 40
	nExtra = 70 // accounts for the big-population profiles
)

var (
	users  []string
	vaddrs []string
	extras []string
	accOf  = map[string]sdk.AccAddress{}
	nameOf = map[string]string{}
)

func initActors() {
	setPrefixes()
	if users != nil {
		return
	}
	mk := func(i int, nm string) string {
		a := sdk.AccAddress(key(i).PubKey().Address())
		s := a.String()
		accOf[s] = a
		nameOf[s] = nm
		return s
	}
	for i := 0; i < nUsers; i++ {
		users = append(users, mk(i, fmt.Sprintf("u%d", i)))
	}
	for i := 0; i < nVals; i++ {
		vaddrs = append(vaddrs, mk(100+i, fmt.Sprintf("v%d", i)))
	}
	for i := 0; i < nExtra; i++ {
		extras = append(extras, mk(300+i, fmt.Sprintf("x%d", i)))
	}
	for _, s := range []string{foundry, bcp} {
		a, err := sdk.AccAddressFromBech32(s)
		if err != nil {
			panic(err)
		}
		accOf[s] = a
	}
	nameOf[foundry] = "foundation"
	nameOf[bcp] = "bcp"
}

func nm(a string) string {
	if n, ok := nameOf[a]; ok {
		return n
	}
	return a
}

func userCoins() sdk.Coins {
	var cs []sdk.Coin
	for _, d := range AllDens {
		cs = append(cs, sdk.NewInt64Coin(d, 10_000_000*KYVE/10))
	}
	return sdk.NewCoins(cs...)
}

func NewChain() *Chain {
	initActors()
	a := newApp(dbm.NewMemDB())
	c := &Chain{App: a, nAct: nUsers}
	c.initChain(nil)
	return c
}

func (c *Chain) initChain(state []byte) {
	a := c.App
	if state == nil {
		o := GenOpts{Coins: userCoins()}
		for _, l := range [][]string{users, extras} {
			for _, u := range l {
				o.Accounts = append(o.Accounts, accOf[u])
			}
		}
		gs := genesis(a, o)
		state, _ = json.Marshal(gs)
	}
	_, err := a.InitChain(&abci.RequestInitChain{
		ChainId: chainID, ConsensusParams: consensusParams, AppStateBytes: state,
		Time: time.Unix(GenesisTime, 0).UTC(), Validators: []abci.ValidatorUpdate{},
	})
	if err != nil {
		panic(err)
	}
	if _, err = a.FinalizeBlock(&abci.RequestFinalizeBlock{Height: 1, Time: time.Unix(GenesisTime, 0).UTC()}); err != nil {
		panic(err)
	}
	if _, err = a.Commit(); err != nil {
		panic(err)
	}
	ctx := a.BaseApp.NewUncachedContext(false, cmtproto.Header{Height: 2, ChainID: chainID, Time: time.Unix(GenesisTime, 0).UTC()})
	c.Authority = a.GovKeeper.GetGovernanceAccount(ctx).GetAddress().String()
	nameOf[c.Authority] = "gov"
	accOf[c.Authority] = a.GovKeeper.GetGovernanceAccount(ctx).GetAddress()
}

// header builds a block header in the way the integration suite of the repository does.
func header(h int64, t int64) cmtproto.Header {
	return cmtproto.Header{Height: h, ChainID: chainID, Time: time.Unix(t, 0).UTC(), ProposerAddress: valKey().PubKey().Address().Bytes()}
}

// Branch returns a context over a discardable branch of the committed state.
func (c *Chain) Branch(h, t int64) sdk.Context {
	ctx := c.App.BaseApp.NewUncachedContext(false, header(h, t))
	ctx = ctx.WithMultiStore(ctx.MultiStore().CacheMultiStore())
	return atBlock(ctx, h, t)
}

func atBlock(ctx sdk.Context, h, t int64) sdk.Context {
	ctx = ctx.WithBlockHeader(header(h, t)).WithBlockHeight(h).WithBlockTime(time.Unix(t, 0).UTC())
	hi := ctx.HeaderInfo()
	hi.Height, hi.Time, hi.ChainID = h, time.Unix(t, 0).UTC(), chainID
	return ctx.WithHeaderInfo(hi)
}

var _ = globaltypes.Denom
