package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"cosmossdk.io/log"
	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	cmtproto "github.com/cometbft/cometbft/proto/tendermint/types"
	dbm "github.com/cosmos/cosmos-db"
	"github.com/cosmos/cosmos-sdk/baseapp"
	"github.com/cosmos/cosmos-sdk/client"
	"github.com/cosmos/cosmos-sdk/codec"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"
	sdkquery "github.com/cosmos/cosmos-sdk/types/query"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	authsigning "github.com/cosmos/cosmos-sdk/x/auth/signing"
	authtx "github.com/cosmos/cosmos-sdk/x/auth/tx"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	govtypes "github.com/cosmos/cosmos-sdk/x/gov/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
	gogoproto "github.com/cosmos/gogoproto/proto"

	kyveapp "github.com/KYVENetwork/chain/app"
	querytypes "github.com/KYVENetwork/chain/x/query/types"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"
)

// Real nodes: signed transactions (governance by proposals and votes) in real blocks, commits, restarts from disk and
// genesis exports. The blocks of a case are produced once, by a simulation that runs on top of the committed state of
// the first node; all other nodes get the same bytes.

type nodeBlock struct {
	H, T int64
	Txs  [][]byte
	Dump bool // answer the queries after this block
}

type nodeScript struct {
	Genesis []byte
	Height  int64 // initial height
	T       int64 // genesis time
	Dir     string
	Blocks  []nodeBlock
	Crash   bool // after the last block is executed but before it is committed
	Export  bool // export the state at the end
	Valid   bool // validate the genesis first
	Stop    int64
	Fork    int64 // export the state after this block as well
}

type nodeResult struct {
	H    int64
	Hash string
	Txs  []string // code and data
	Full []string // everything
	End  string
	Dump map[string]string
}

type nodeOut struct {
	Err    string
	From   int64
	Res    []nodeResult
	First  map[string]string
	Export map[string]string
}

var keyOf = map[string]*secp256k1.PrivKey{}

// initKeys gives the two team authorities, which a build can set by linker flags, addresses with a key of ours.
func initKeys() {
	if len(keyOf) > 0 {
		return
	}
	setPrefixes()
	addr := func(i int) string {
		a := sdk.AccAddress(key(i).PubKey().Address()).String()
		keyOf[a] = key(i)
		return a
	}
	foundry, bcp = addr(7001), addr(7002)
	teamtypes.TEAM_FOUNDATION_STRING, teamtypes.FOUNDATION_ADDRESS = foundry, foundry
	teamtypes.TEAM_BCP_STRING, teamtypes.BCP_ADDRESS = bcp, bcp
	users = nil
	initActors()
	for i := range users {
		addr(i)
	}
	for i := range vaddrs {
		addr(100 + i)
	}
	addr(9999)
}

func nodeApp(db dbm.DB) (a *kyveapp.App, err error) {
	setPrefixes()
	err = guard(func() (e error) {
		a, e = kyveapp.New(log.NewNopLogger(), db, nil, true, kyveapp.EmptyAppOptions{}, baseapp.SetChainID(chainID))
		return
	})
	return
}

// nodeGenesis: users, protocol addresses and the team authorities.
func nodeGenesis(a *kyveapp.App) []byte {
	initKeys()
	o := GenOpts{Coins: userCoins(), CoinsOf: map[string]sdk.Coins{}}
	for _, u := range users {
		o.Accounts = append(o.Accounts, accOf[u])
	}
	for _, u := range vaddrs {
		o.Accounts = append(o.Accounts, accOf[u])
		o.CoinsOf[u] = sdk.NewCoins(sdk.NewInt64Coin(UKYVE, 10*KYVE))
	}
	for _, u := range []string{foundry, bcp} {
		o.Accounts = append(o.Accounts, accOf[u])
		o.CoinsOf[u] = sdk.NewCoins(sdk.NewInt64Coin(UKYVE, 1_000_000*KYVE))
	}
	o.Mut = func(gs map[string]json.RawMessage, a *kyveapp.App) {
		cdc := a.AppCodec()
		var gg govv1.GenesisState
		cdc.MustUnmarshalJSON(gs[govtypes.ModuleName], &gg)
		sec, half := time.Second, time.Second/2
		gg.Params.VotingPeriod, gg.Params.ExpeditedVotingPeriod = &sec, &half
		gg.Params.Quorum = math.LegacyZeroDec().String()
		gg.Params.MinDeposit = sdk.NewCoins(sdk.NewInt64Coin(UKYVE, 1))
		gg.Params.ExpeditedMinDeposit = sdk.NewCoins(sdk.NewInt64Coin(UKYVE, 2))
		gs[govtypes.ModuleName] = cdc.MustMarshalJSON(&gg)
	}
	b, err := json.Marshal(genesis(a, o))
	if err != nil {
		panic(err)
	}
	return b
}

func (a nodeScript) initChain(app *kyveapp.App) error {
	return guard(func() error {
		_, err := app.InitChain(&abci.RequestInitChain{ChainId: chainID, ConsensusParams: consensusParams, AppStateBytes: a.Genesis, InitialHeight: a.Height,
			Time: time.Unix(a.T, 0).UTC(), Validators: []abci.ValidatorUpdate{}})
		return err
	})
}

func hex8(b []byte) string { return fmt.Sprintf("%x", b) }

// runBlock executes a block and commits it.
func runBlock(a *kyveapp.App, b nodeBlock, commit bool) (r nodeResult, err error) {
	r.H = b.H
	err = guard(func() error {
		res, e := a.FinalizeBlock(&abci.RequestFinalizeBlock{Height: b.H, Time: time.Unix(b.T, 0).UTC(), Txs: b.Txs, ProposerAddress: valKey().PubKey().Address()})
		if e != nil {
			return e
		}
		r.Hash = hex8(res.AppHash)
		for _, t := range res.TxResults {
			r.Txs = append(r.Txs, fmt.Sprintf("code %d %s data %x", t.Code, t.Codespace, t.Data))
			r.Full = append(r.Full, fmt.Sprintf("gas %d/%d log %s events %s", t.GasUsed, t.GasWanted, steady(t.Log), renderEvents(t.Events)))
		}
		r.End = renderEvents(res.Events) + fmt.Sprint(res.ValidatorUpdates)
		if commit {
			if _, e = a.Commit(); e != nil {
				return e
			}
		}
		return nil
	})
	if err == nil && commit && b.Dump {
		r.Dump = nodeQueries(a)
	}
	return
}

// steady drops the stack trace of a panic, which tells addresses in memory.
func steady(log string) string {
	if i := strings.Index(log, "stack:"); i >= 0 {
		return log[:i]
	}
	return log
}

func renderEvents(es []abci.Event) string {
	var b strings.Builder
	for _, e := range es {
		b.WriteString(e.Type + "{")
		for _, x := range e.Attributes {
			b.WriteString(x.Key + "=" + x.Value + ";")
		}
		b.WriteString("}")
	}
	return b.String()
}

// nodeMain is the subprocess: one node from its start to its end. Input and output are files.
func nodeMain(args []string) {
	var sc nodeScript
	var out nodeOut
	b, err := os.ReadFile(args[0])
	if err == nil {
		err = json.Unmarshal(b, &sc)
	}
	if err != nil {
		fatal("%v", err)
	}
	initKeys()
	write := func() {
		b, _ := json.Marshal(out)
		if err := os.WriteFile(args[1], b, 0o600); err != nil {
			fatal("%v", err)
		}
	}
	var db dbm.DB = dbm.NewMemDB()
	if sc.Dir != "" {
		if db, err = dbm.NewGoLevelDB("application", sc.Dir, nil); err != nil {
			fatal("%v", err)
		}
	}
	a, err := nodeApp(db)
	if err != nil {
		out.Err = "the node does not start: " + err.Error()
		write()
		return
	}
	out.From = a.LastBlockHeight()
	if out.From == 0 {
		if sc.Valid {
			if err := validateGenesis(a, sc.Genesis); err != nil {
				out.Err = "genesis validation: " + err.Error()
				write()
				return
			}
		}
		if err := sc.initChain(a); err != nil {
			out.Err = "genesis import: " + err.Error()
			write()
			return
		}
	}
	for _, blk := range sc.Blocks {
		if blk.H <= out.From || blk.H < sc.Height {
			continue
		}
		if sc.Stop > 0 && blk.H > sc.Stop {
			break
		}
		last := blk.H == sc.Stop
		r, err := runBlock(a, blk, !(last && sc.Crash))
		if err != nil {
			out.Err = fmt.Sprintf("block %d: %v", blk.H, err)
			break
		}
		out.Res = append(out.Res, r)
		if blk.H == sc.Fork {
			if _, out.First, err = exportState(a); err != nil {
				out.Err = "export: " + err.Error()
				break
			}
		}
	}
	if sc.Export && out.Err == "" {
		if _, out.Export, err = exportState(a); err != nil {
			out.Err = "export: " + err.Error()
		}
	}
	write()
	if sc.Dir != "" && !sc.Crash {
		_ = db.Close()
	}
}

func validateGenesis(a *kyveapp.App, gs []byte) error {
	var m map[string]json.RawMessage
	if err := json.Unmarshal(gs, &m); err != nil {
		return err
	}
	tc := authtx.NewTxConfig(a.AppCodec(), authtx.DefaultSignModes)
	for _, n := range sortedKeys(m) {
		if !kyveModules[n] {
			continue
		}
		if v, ok := a.ModuleManager.Modules[n].(interface {
			ValidateGenesis(codec.JSONCodec, client.TxEncodingConfig, json.RawMessage) error
		}); ok {
			if err := guard(func() error { return v.ValidateGenesis(a.AppCodec(), tc, m[n]) }); err != nil {
				return fmt.Errorf("%s: %w", n, err)
			}
		} else if n != "query" {
			return fmt.Errorf("%s cannot be validated", n)
		}
	}
	return nil
}

var kyveModules = map[string]bool{"bundles": true, "delegation": true, "funders": true, "global": true, "pool": true, "stakers": true, "team": true, "query": true}

func exportState(a *kyveapp.App) (raw []byte, mods map[string]string, err error) {
	err = guard(func() error {
		ex, e := a.ExportAppStateAndValidators(false, nil, nil)
		if e != nil {
			return e
		}
		raw = ex.AppState
		var m map[string]json.RawMessage
		if e = json.Unmarshal(raw, &m); e != nil {
			return e
		}
		mods = map[string]string{}
		for n, x := range m {
			var b bytes.Buffer
			if e = json.Compact(&b, x); e != nil {
				return e
			}
			mods[n] = b.String()
		}
		return nil
	})
	return
}

// runNode starts a node in a process of its own.
func runNode(dir string, sc nodeScript) (out nodeOut) {
	in, res := filepath.Join(dir, "in.json"), filepath.Join(dir, "out.json")
	b, _ := json.Marshal(sc)
	_ = os.Remove(res)
	if err := os.WriteFile(in, b, 0o600); err != nil {
		panic(err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, selfExe(), "node", in, res)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=400")
	var se bytes.Buffer
	cmd.Stderr = &se
	err := cmd.Run()
	if err == nil {
		if b, err = os.ReadFile(res); err == nil {
			err = json.Unmarshal(b, &out)
		}
	}
	if err != nil {
		x := se.String()
		if len(x) > 1500 {
			x = x[:1500]
		}
		out.Err = fmt.Sprintf("the node died: %v %s", err, x)
	}
	return
}

func selfExe() string {
	x, err := os.Executable()
	if err != nil {
		panic(err)
	}
	return x
}

func init() { subcommands["node"] = nodeMain }

// ---- queries ---------------------------------------------------------------------------------------------------

func nodeQueries(a *kyveapp.App) map[string]string {
	out := map[string]string{}
	ask := func(path string, req, resp gogoproto.Message) bool {
		b, err := gogoproto.Marshal(req)
		if err != nil {
			panic(err)
		}
		label := path[strings.LastIndex(path, ".")+1:] + " " + gogoproto.CompactTextString(req)
		var txt string
		e := guard(func() error {
			r, err := a.Query(context.Background(), &abci.RequestQuery{Path: path, Data: b})
			if err != nil {
				return err
			}
			if r.Code != 0 {
				return fmt.Errorf("code %d %s", r.Code, r.Log)
			}
			if err := gogoproto.Unmarshal(r.Value, resp); err != nil {
				return err
			}
			txt = gogoproto.CompactTextString(resp)
			return nil
		})
		if e != nil {
			txt = "error: " + e.Error()
		}
		out[label] = txt
		return e == nil
	}
	const q = "/kyve.query.v1beta1."
	ask(q+"QueryParams/Params", &querytypes.QueryParamsRequest{}, &querytypes.QueryParamsResponse{})
	all := &sdkquery.PageRequest{Limit: 200, CountTotal: true}
	for st := querytypes.StakerStatus(0); st < 3; st++ {
		ask(q+"QueryStakers/Stakers", &querytypes.QueryStakersRequest{Pagination: all, Status: st}, &querytypes.QueryStakersResponse{})
	}
	ask(q+"QueryStakers/StakersByPoolCount", &querytypes.QueryStakersByPoolCountRequest{Pagination: all}, &querytypes.QueryStakersByPoolCountResponse{})
	ask(q+"QueryFunders/Funders", &querytypes.QueryFundersRequest{Pagination: all}, &querytypes.QueryFundersResponse{})
	ask(q+"QueryPool/Pools", &querytypes.QueryPoolsRequest{Pagination: all}, &querytypes.QueryPoolsResponse{})
	ask(q+"QueryPool/Pools", &querytypes.QueryPoolsRequest{Pagination: all, Disabled: true}, &querytypes.QueryPoolsResponse{})
	pools := a.PoolKeeper.GetPoolCount(a.BaseApp.NewUncachedContext(false, cmtproto.Header{}))
	if pools > 8 {
		pools = 8
	}
	for p := uint64(0); p < pools; p++ {
		ask(q+"QueryPool/Pool", &querytypes.QueryPoolRequest{Id: p}, &querytypes.QueryPoolResponse{})
		ask(q+"QueryStakers/StakersByPool", &querytypes.QueryStakersByPoolRequest{PoolId: p}, &querytypes.QueryStakersByPoolResponse{})
		ask(q+"QueryFunders/FundingsByPool", &querytypes.QueryFundingsByPoolRequest{Pagination: all, PoolId: p}, &querytypes.QueryFundingsByPoolResponse{})
		ask(q+"QueryBundles/CurrentVoteStatus", &querytypes.QueryCurrentVoteStatusRequest{PoolId: p}, &querytypes.QueryCurrentVoteStatusResponse{})
		fb := &querytypes.QueryFinalizedBundlesResponse{}
		ask(q+"QueryBundles/FinalizedBundlesQuery", &querytypes.QueryFinalizedBundlesRequest{Pagination: all, PoolId: p}, fb)
		for i, b := range fb.FinalizedBundles {
			if i >= 12 {
				break
			}
			ask(q+"QueryBundles/FinalizedBundleQuery", &querytypes.QueryFinalizedBundleRequest{PoolId: p, Id: b.Id}, &querytypes.FinalizedBundle{})
			for _, ix := range []uint64{b.FromIndex, (b.FromIndex + b.ToIndex) / 2, b.ToIndex - 1, b.ToIndex} {
				ask(q+"QueryBundles/FinalizedBundlesQuery", &querytypes.QueryFinalizedBundlesRequest{PoolId: p, Index: fmt.Sprint(ix)}, &querytypes.QueryFinalizedBundlesResponse{})
			}
		}
		for _, u := range vaddrs[:6] {
			ask(q+"QueryBundles/CanValidate", &querytypes.QueryCanValidateRequest{PoolId: p, Valaddress: u}, &querytypes.QueryCanValidateResponse{})
		}
	}
	for _, u := range users[:10] {
		ask(q+"QueryStakers/Staker", &querytypes.QueryStakerRequest{Address: u}, &querytypes.QueryStakerResponse{})
		ask(q+"QueryDelegation/DelegatorsByStaker", &querytypes.QueryDelegatorsByStakerRequest{Pagination: all, Staker: u}, &querytypes.QueryDelegatorsByStakerResponse{})
		ask(q+"QueryDelegation/StakersByDelegator", &querytypes.QueryStakersByDelegatorRequest{Delegator: u}, &querytypes.QueryStakersByDelegatorResponse{})
		ask(q+"QueryFunders/Funder", &querytypes.QueryFunderRequest{Address: u}, &querytypes.QueryFunderResponse{})
		ask(q+"QueryFunders/FundingsByFunder", &querytypes.QueryFundingsByFunderRequest{Pagination: all, Address: u}, &querytypes.QueryFundingsByFunderResponse{})
		ask(q+"QueryAccount/AccountAssets", &querytypes.QueryAccountAssetsRequest{Address: u}, &querytypes.QueryAccountAssetsResponse{})
		ask(q+"QueryAccount/AccountDelegationUnbondings", &querytypes.QueryAccountDelegationUnbondingsRequest{Pagination: all, Address: u}, &querytypes.QueryAccountDelegationUnbondingsResponse{})
		ask(q+"QueryAccount/AccountFundedList", &querytypes.QueryAccountFundedListRequest{Address: u}, &querytypes.QueryAccountFundedListResponse{})
		ask(q+"QueryAccount/AccountRedelegation", &querytypes.QueryAccountRedelegationRequest{Address: u}, &querytypes.QueryAccountRedelegationResponse{})
	}
	ask("/kyve.team.v1beta1.Query/TeamInfo", &teamtypes.QueryTeamInfoRequest{}, &teamtypes.QueryTeamInfoResponse{})
	ask("/kyve.team.v1beta1.Query/TeamVestingAccounts", &teamtypes.QueryTeamVestingAccountsRequest{}, &teamtypes.QueryTeamVestingAccountsResponse{})
	for i := uint64(0); i < 3; i++ {
		ask("/kyve.team.v1beta1.Query/TeamVestingStatus", &teamtypes.QueryTeamVestingStatusRequest{Id: i}, &teamtypes.QueryTeamVestingStatusResponse{})
	}
	ask("/cosmos.bank.v1beta1.Query/TotalSupply", &banktypes.QueryTotalSupplyRequest{}, &banktypes.QueryTotalSupplyResponse{})
	return out
}

func dumpDiff(a, b map[string]string) string {
	for _, k := range sortedKeys(a) {
		if b[k] != a[k] {
			return fmt.Sprintf("%s: expected %s, got %s", k, clip(a[k], b[k]), clip(b[k], a[k]))
		}
	}
	for _, k := range sortedKeys(b) {
		if _, ok := a[k]; !ok {
			return fmt.Sprintf("%s: unexpected %s", k, clip(b[k], ""))
		}
	}
	return ""
}

// clip shows a string from shortly before the place where it differs from the other.
func clip(x, o string) string {
	i := 0
	for i < len(x) && i < len(o) && x[i] == o[i] {
		i++
	}
	from := i - 80
	if from < 0 {
		from = 0
	}
	to := i + 200
	if to > len(x) {
		to = len(x)
	}
	s := pretty(x[from:to])
	if from > 0 {
		s = "..." + s
	}
	if to < len(x) {
		s += "..."
	}
	return "[" + s + "]"
}

// ---- the first node --------------------------------------------------------------------------------------------

type live struct {
	app    *kyveapp.App
	script nodeScript
	res    []nodeResult
	h, t   int64
	msgs   []sdk.Msg
	govPre []sdk.Msg
	accNum map[string]uint64
	err    error
	gov    int
	okTx   int
	badTx  int
	dumpIf func(n int) bool
	after  func() error // after every committed block
}

func newLive() *live {
	initKeys()
	a, err := nodeApp(dbm.NewMemDB())
	if err != nil {
		panic(err)
	}
	l := &live{app: a, accNum: map[string]uint64{}, h: 0, t: GenesisTime}
	l.script = nodeScript{Genesis: nodeGenesis(a), Height: 1, T: GenesisTime}
	if err := l.script.initChain(a); err != nil {
		panic(err)
	}
	return l
}

// commit produces one block of the given raw transactions.
func (l *live) commit(dt int64, txs [][]byte) bool {
	if l.err != nil {
		return false
	}
	l.h++
	l.t += dt
	b := nodeBlock{H: l.h, T: l.t, Txs: txs}
	b.Dump = l.dumpIf != nil && l.dumpIf(len(l.script.Blocks))
	r, err := runBlock(l.app, b, true)
	l.script.Blocks = append(l.script.Blocks, b)
	if err != nil {
		l.err = err
		return false
	}
	for _, x := range r.Txs {
		if strings.HasPrefix(x, "code 0 ") {
			l.okTx++
		} else {
			l.badTx++
		}
	}
	l.res = append(l.res, r)
	if l.after != nil {
		if err := l.after(); err != nil {
			l.err = err
			return false
		}
	}
	return true
}

func (l *live) ctx() sdk.Context {
	return l.app.BaseApp.NewUncachedContext(false, header(l.h, l.t))
}

type signState struct {
	l   *live
	seq map[string]uint64
}

func (l *live) signer() *signState { return &signState{l, map[string]uint64{}} }

func (s *signState) sign(msgs ...sdk.Msg) []byte {
	l := s.l
	cfg := authtx.NewTxConfig(l.app.AppCodec(), authtx.DefaultSignModes)
	b := cfg.NewTxBuilder()
	if err := b.SetMsgs(msgs...); err != nil {
		return nil
	}
	const gas = 20_000_000
	b.SetGasLimit(gas)
	price := l.app.GlobalKeeper.GetMinGasPrice(l.ctx())
	if fee := price.MulInt64(gas).Ceil(); fee.IsPositive() && fee.LT(math.LegacyNewDec(1_000*KYVE)) {
		b.SetFeeAmount(sdk.NewCoins(sdk.NewCoin(UKYVE, fee.TruncateInt())))
	}
	var signers [][]byte
	if guard(func() (err error) { signers, err = b.GetTx().GetSigners(); return }) != nil || len(signers) != 1 {
		return nil
	}
	u := sdk.AccAddress(signers[0]).String()
	k := keyOf[u]
	acc := l.app.AccountKeeper.GetAccount(l.ctx(), sdk.AccAddress(signers[0]))
	if k == nil || acc == nil {
		return nil
	}
	if _, ok := s.seq[u]; !ok {
		s.seq[u] = acc.GetSequence()
	}
	sg := signing.SignatureV2{PubKey: k.PubKey(), Data: &signing.SingleSignatureData{SignMode: signing.SignMode_SIGN_MODE_DIRECT}, Sequence: s.seq[u]}
	if err := b.SetSignatures(sg); err != nil {
		panic(err)
	}
	sd := authsigning.SignerData{Address: u, ChainID: chainID, AccountNumber: acc.GetAccountNumber(), Sequence: s.seq[u], PubKey: k.PubKey()}
	raw, err := authsigning.GetSignBytesAdapter(context.Background(), cfg.SignModeHandler(), signing.SignMode_SIGN_MODE_DIRECT, sd, b.GetTx())
	if err != nil {
		panic(err)
	}
	sig, err := k.Sign(raw)
	if err != nil {
		panic(err)
	}
	sg.Data = &signing.SingleSignatureData{SignMode: signing.SignMode_SIGN_MODE_DIRECT, Signature: sig}
	if err := b.SetSignatures(sg); err != nil {
		panic(err)
	}
	out, err := cfg.TxEncoder()(b.GetTx())
	if err != nil {
		panic(err)
	}
	s.seq[u]++
	return out
}

// flush turns what the simulation did since the last block into a block, or two if governance acted.
func (l *live) flush(authority string, msgs []sdk.Msg, dt int64) bool {
	sg := l.signer()
	var txs [][]byte
	var gov []sdk.Msg
	for _, m := range msgs {
		if msgAuthority(m) == authority {
			gov = append(gov, m)
			continue
		}
		if b := sg.sign(m); b != nil {
			txs = append(txs, b)
		}
	}
	if len(gov) == 0 {
		return l.commit(dt, txs)
	}
	id, err := l.app.GovKeeper.ProposalID.Peek(l.ctx())
	if err != nil {
		l.err = err
		return false
	}
	for _, g := range gov {
		p, err := govv1.NewMsgSubmitProposal([]sdk.Msg{g}, sdk.NewCoins(sdk.NewInt64Coin(UKYVE, 5)), users[0], "", "t", "s", false)
		if err != nil {
			continue
		}
		// a proposal that is turned down takes no number, and that is known only when the block has been executed
		chk, _ := l.ctx().CacheContext()
		if l.raw(chk, p) != nil {
			continue
		}
		b := sg.sign(p)
		if b == nil {
			continue
		}
		txs = append(txs, b, sg.sign(govv1.NewMsgVote(sdk.AccAddress(key(9999).PubKey().Address()), id, govv1.OptionYes, "")))
		id++
		l.gov++
	}
	return l.commit(dt, txs) && l.commit(1, nil)
}

func (l *live) raw(ctx sdk.Context, msg sdk.Msg) error {
	return guard(func() error {
		h := l.app.MsgServiceRouter().Handler(msg)
		_, err := h(ctx, msg)
		return err
	})
}

func msgAuthority(m sdk.Msg) string {
	b, _ := json.Marshal(m)
	var x struct {
		Authority string `json:"authority"`
	}
	_ = json.Unmarshal(b, &x)
	return x.Authority
}

// runLive drives a case on a node.
func runLive(l *live, cs *Case, p *Prop, trace bool, each func(i int) error) (s *Sim) {
	c := &Chain{App: l.app, nAct: nUsers}
	l.commit(0, nil)
	ctx := l.ctx()
	c.Authority = l.app.GovKeeper.GetGovernanceAccount(ctx).GetAddress().String()
	nameOf[c.Authority] = "gov"
	accOf[c.Authority] = l.app.GovKeeper.GetGovernanceAccount(ctx).GetAddress()
	s = newSim(c, p, cs)
	s.trace = trace
	s.live = l
	s.rebase(6)
	for i, op := range cs.Ops {
		if l.err != nil || s.halted {
			break
		}
		s.opIdx = i
		if trace {
			s.logf("op %d %s %v", i, op.K, op.A)
		}
		s.viol = nil
		s.do(op)
		if l.hasGov(c.Authority) && (i+1 == len(cs.Ops) || !govOps[cs.Ops[i+1].K]) {
			s.block(1)
		}
		if each != nil {
			if l.err = each(i); l.err != nil {
				break
			}
		}
	}
	if l.err == nil && !s.halted {
		s.block(3)
		s.block(3)
	}
	return s
}

// rebase puts the simulation on top of the committed state, in a block that begins dt seconds after the last.
func (s *Sim) rebase(dt int64) {
	l := s.live
	s.liveDt = dt
	s.ctx = s.c.Branch(l.h+1, l.t+dt)
	cc, write := s.ctx.CacheContext()
	err := guard(func() error {
		if _, e := s.c.App.PreBlocker(cc, nil); e != nil {
			return e
		}
		_, e := s.c.App.BeginBlocker(cc)
		return e
	})
	if err != nil {
		s.halted = true
		return
	}
	write()
	s.prmNow = nil
	s.pre = s.c.Snap(s.ctx, s.extra)
	if s.pre.Plan != "" {
		s.halted = true
	}
}

// liveBlock replaces block() for a simulation on a node.
func (s *Sim) liveBlock(dt int64) {
	l := s.live
	if s.halted || l.err != nil {
		return
	}
	msgs := l.msgs
	l.msgs = nil
	s.steps++
	if !l.flush(s.c.Authority, msgs, s.liveDt) {
		return
	}
	if dt < 0 {
		dt = 0
	}
	s.rebase(dt)
}

// operations that are (also) proposals: a block ends behind a run of them, so that they take effect
var govOps = map[string]bool{"prm": true, "prmx": true, "mkpool": true, "updpool": true, "dis": true, "en": true, "upg": true, "cupg": true}

func (l *live) hasGov(authority string) bool {
	for _, m := range l.msgs {
		if msgAuthority(m) == authority {
			return true
		}
	}
	return false
}
