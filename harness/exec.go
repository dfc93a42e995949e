package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"

	abci "github.com/cometbft/cometbft/abci/types"

	sdk "github.com/cosmos/cosmos-sdk/types"
	gogoproto "github.com/cosmos/gogoproto/proto"
)

// Op is one generated operation. Its arguments are interpreted modulo the state in which it runs, so that any
// subsequence of a case is a case.
type Op struct {
	K string  `json:"k"`
	A []int64 `json:"a,omitempty"`
}

func (o Op) a(i int) int64 {
	if i < len(o.A) {
		if o.A[i] < 0 {
			return -o.A[i]
		}
		return o.A[i]
	}
	return 0
}

type Case struct {
	Property string           `json:"property"`
	Cfg      map[string]int64 `json:"cfg"`
	Ops      []Op             `json:"ops"`
}

func (c *Case) cfg(k string, def int64) int64 {
	if v, ok := c.Cfg[k]; ok {
		return v
	}
	return def
}

type Viol struct {
	Property string `json:"property"`
	Comp     string `json:"component"`
	Key      string `json:"key"`
	Detail   string `json:"detail"`
	Step     string `json:"step"`
	Op       int    `json:"op"`
}

func (v *Viol) sig() string { return v.Comp + "/" + v.Step }

// Result of one case.
type Result struct {
	Viol  *Viol
	Notes map[string]int
	Steps int
	Trace []string
}

// Sim drives one case on a discardable branch of the chain.
type Sim struct {
	c       *Chain
	p       *Prop
	cs      *Case
	ctx     sdk.Context
	pre     *St
	extra   bool
	notes   map[string]int
	steps   int
	viol    *Viol
	opIdx   int
	trace   bool
	Trace   []string
	nUsers  int
	halted  bool
	nonce   int64
	prmNow  map[string]map[string]any
	dust    map[string]*big.Rat // D01: largest rounding dust the history can have produced, per coin
	ledger  map[string]any
	afterTx []func(msg sdk.Msg, ok bool, pre, post *St, m *M)
	wasAny  map[string]bool
	unowned map[string]int
	live    *live // the blocks run on a real node
	liveDt  int64
}

func newSim(c *Chain, p *Prop, cs *Case) *Sim {
	govAuthority = c.Authority
	s := &Sim{c: c, p: p, cs: cs, notes: map[string]int{}, unowned: map[string]int{}, ledger: map[string]any{}, wasAny: map[string]bool{}}
	s.extra = cs.cfg("extra", 0) == 1
	s.nUsers = int(cs.cfg("users", 8))
	c.nAct = s.nUsers + 1
	s.ctx = c.Branch(2, GenesisTime+cs.cfg("t0", 6))
	s.pre = c.Snap(s.ctx, s.extra)
	return s
}

func (s *Sim) now() int64 { return s.ctx.BlockTime().Unix() }

func (s *Sim) note(k string) { s.notes[k]++ }

func (s *Sim) logf(f string, a ...any) {
	if s.trace {
		s.Trace = append(s.Trace, fmt.Sprintf(f, a...))
	}
}

// stepKind is "tx:MsgDelegate", "begin", "end", "query", "probe".
func (s *Sim) report(step string, ds []Diff) {
	for _, d := range ds {
		if s.p.owns(d.Comp, step, d) {
			if s.viol == nil {
				s.viol = &Viol{s.p.ID, d.Comp, pretty(d.Key), d.Detail, step, s.opIdx}
				if s.p.ID == "ALL" {
					s.viol.Detail += owners(step, ds)
				}
			}
			s.logf("    !! %s", d)
		} else {
			s.unowned[d.Comp+"/"+step]++
			s.logf("    (other property) %s", d)
		}
	}
}

// owners names the properties that a step with these disagreements breaks (development).
func owners(step string, ds []Diff) (l string) {
	for _, id := range sortedKeys(registry) {
		for _, d := range ds {
			if id != "ALL" && registry[id].owns(d.Comp, step, d) {
				l += " " + id
				break
			}
		}
	}
	return " OWNERS" + l
}

func guard(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return f()
}

// raw runs a message on a context without any checking.
func (c *Chain) raw(ctx sdk.Context, msg sdk.Msg) error {
	_, err := c.rawEvents(ctx, msg)
	return err
}

// rawEvents also returns the events of the message.
func (c *Chain) rawEvents(ctx sdk.Context, msg sdk.Msg) (ev []abci.Event, err error) {
	err = guard(func() error {
		if vb, ok := msg.(interface{ ValidateBasic() error }); ok {
			if err := vb.ValidateBasic(); err != nil {
				return err
			}
		}
		h := c.App.MsgServiceRouter().Handler(msg)
		if h == nil {
			return fmt.Errorf("no handler for %T", msg)
		}
		r, err := h(ctx, msg)
		if r != nil {
			ev = r.Events
		}
		return err
	})
	return
}

// cloneMsg returns an independent copy of a message.
func cloneMsg(msg sdk.Msg) (c sdk.Msg) {
	defer func() {
		if recover() != nil {
			c = msg
		}
	}()
	b, err := gogoproto.Marshal(msg)
	if err != nil {
		return msg
	}
	c = reflect.New(reflect.TypeOf(msg).Elem()).Interface().(sdk.Msg)
	if gogoproto.Unmarshal(b, c) != nil {
		return msg
	}
	return c
}

func msgName(msg sdk.Msg) string {
	n := fmt.Sprintf("%T", msg)
	return n[strings.LastIndex(n, ".")+1:]
}

func shortErr(e error) string {
	if e == nil {
		return "ok"
	}
	x := e.Error()
	if len(x) > 300 {
		x = x[:300]
	}
	return x
}

// tx executes one message and checks it against the model. It reports whether it succeeded.
func (s *Sim) tx(msg sdk.Msg) bool {
	if s.stop() {
		return false
	}
	s.steps++
	name := msgName(msg)
	mod, _, payload, isPrm := paramMsg(msg)
	if isPrm && s.prmNow == nil {
		s.prmNow = s.c.paramJSON(s.ctx)
	}
	if s.live != nil {
		s.live.msgs = append(s.live.msgs, msg)
	}
	sent := cloneMsg(msg) // a handler may change its message
	cc, write := s.ctx.CacheContext()
	var ev []abci.Event
	err := s.inside("tx:"+name, func() (e error) { ev, e = s.c.rawEvents(cc, msg); return })
	msg = sent
	post := s.pre
	if err == nil {
		write()
		post = s.c.Snap(s.ctx, s.extra)
	}
	if s.trace {
		s.logf("  tx %s %s -> %s", name, showMsg(msg), shortErr(err))
	}
	m := newM(s.pre, post)
	exp := m.tx(msg)
	step := "tx:" + name
	if exp != (err == nil) {
		d := Diff{Comp: "accept", Key: name, Detail: fmt.Sprintf("%s: expected it to be %s, got %s", showMsg(msg), accStr(exp, m.why), shortErr(err))}
		d.Why = m.why
		s.report(step, []Diff{d})
	} else if err == nil {
		s.note("ok." + name)
		prmOld := s.prmNow
		if isPrm {
			m.P = post.P
			now := s.c.paramJSON(s.ctx)
			s.report(step, checkParams(s.prmNow, now, mod, payload))
			s.prmNow = now
		} else if m.P.raw != post.P.raw {
			s.report(step, []Diff{{Comp: "params", Detail: "parameters changed by " + name}})
		}
		ds := append(m.compare(), m.compareComm()...)
		m.msgEvents(msg, s.pre, prmOld, s.prmNow)
		s.report(step, append(ds, s.events(m, ev)...))
		s.merge(m)
		s.dustTx(msg)
		s.report(step, invariants(post, nil))
	} else {
		s.note("rej." + name)
		s.note("rej." + name + ": " + strings.Map(noDigit, m.why))
		for k := range m.notes {
			if strings.Contains(k, ":") {
				s.note(k)
			}
		}
	}
	for _, f := range s.p.onTx {
		s.report(step, f(s, msg, err, s.pre, post, m))
	}
	s.pre = post
	s.hooks(step)
	return err == nil
}

func noDigit(r rune) rune {
	if r >= '0' && r <= '9' {
		return -1
	}
	return r
}

func accStr(ok bool, why string) string {
	if ok {
		return "accepted"
	}
	return "rejected (" + why + ")"
}

func showMsg(msg sdk.Msg) string {
	b, _ := json.Marshal(msg)
	x := string(b)
	for a, n := range nameOf {
		if strings.Contains(x, a) {
			x = strings.ReplaceAll(x, a, n)
		}
	}
	if len(x) > 600 {
		x = x[:600] + "..."
	}
	return x
}

func (s *Sim) merge(m *M) {
	for k, v := range m.notes {
		s.notes[k] += v
		if strings.HasPrefix(k, "KNOWN.") && knownFindings[k[6:]] == nil {
			s.report("known", []Diff{{Comp: "unlisted:" + k[6:], Detail: "deviation " + k[6:] + " is not among the recorded findings"}})
		}
	}
	for _, sl := range m.slashes {
		_ = sl
		s.note("slashes")
	}
	s.accountDust(m)
}

func (s *Sim) stop() bool { return s.viol != nil || s.halted }

// block ends the current block and begins the next one dt seconds later.
func (s *Sim) block(dt int64) {
	if s.live != nil {
		s.liveBlock(dt)
		return
	}
	s.endBlock()
	s.beginBlock(dt)
}

func (s *Sim) halt(step string, err error) {
	s.logf("    HALT %s: %v", step, err)
	s.note("halt")
	s.halted = true
	s.report(step, []Diff{{Comp: "halt", Detail: shortErr(err)}})
}

// inside marks that the application is at work.
func (s *Sim) inside(step string, f func() error) error {
	if caseProgress != nil {
		caseProgress.Store(where{step, s.opIdx})
		defer caseProgress.Store(where{})
	}
	return guard(f)
}

func (s *Sim) endBlock() {
	if s.stop() {
		return
	}
	s.steps++
	cc, write := s.ctx.CacheContext()
	var ev []abci.Event
	err := s.inside("end", func() error { r, e := s.c.App.EndBlocker(cc); ev = r.Events; return e })
	if err != nil {
		s.halt("end", err)
		return
	}
	write()
	post := s.c.Snap(s.ctx, s.extra)
	s.logf("  end block %d", s.ctx.BlockHeight())
	m := newM(s.pre, post)
	m.end()
	s.after("end", m, append(append(m.compare(), m.compareComm()...), s.events(m, ev)...))
}

func (s *Sim) after(step string, m *M, ds []Diff) {
	post := m.post
	if m.P.raw != post.P.raw {
		ds = append(ds, Diff{Comp: "params", Detail: "parameters changed at " + step})
	}
	s.report(step, ds)
	s.merge(m)
	s.report(step, invariants(post, nil))
	for _, f := range s.p.onBlk {
		s.report(step, f(s, step, s.pre, post, m))
	}
	if post.Plan != "" && s.pre.Plan == "" {
		s.pre = post
		s.halt(step, fmt.Errorf("emergency halt scheduled: %s", post.Plan))
		return
	}
	s.pre = post
	s.hooks(step)
}

func (s *Sim) beginBlock(dt int64) {
	if s.stop() {
		return
	}
	s.steps++
	s.ctx = atBlock(s.ctx, s.ctx.BlockHeight()+1, s.now()+dt)
	cc, write := s.ctx.CacheContext()
	var ev []abci.Event
	err := s.inside("begin", func() error {
		if _, e := s.c.App.PreBlocker(cc, nil); e != nil {
			return e
		}
		r, e := s.c.App.BeginBlocker(cc)
		ev = r.Events
		return e
	})
	if err != nil {
		s.halt("begin", err)
		return
	}
	write()
	post := s.c.Snap(s.ctx, s.extra)
	s.logf("  begin block %d, time %d (+%d)", s.ctx.BlockHeight(), s.now()-GenesisTime, dt)
	pre := *s.pre
	pre.T, pre.H = post.T, post.H
	s.pre = &pre
	m := newM(s.pre, post)
	minted := new(big.Int).Sub(post.Supply.get(UKYVE), s.pre.Supply.get(UKYVE))
	var ds []Diff
	if mt, e := s.c.App.MintKeeper.Minter.Get(s.ctx); e == nil {
		mp, _ := s.c.App.MintKeeper.Params.Get(s.ctx)
		if exp := mt.BlockProvision(mp).Amount.BigInt(); exp.Cmp(minted) != 0 {
			ds = append(ds, Diff{Comp: "supply", Detail: fmt.Sprintf("minted %s, the block provision is %s", minted, exp)})
			minted = exp
		}
	}
	m.begin(minted)
	s.after("begin", m, append(append(ds, m.compare()...), s.events(m, ev)...))
}

func (s *Sim) hooks(step string) {
	if s.stop() {
		return
	}
	for _, f := range s.p.onState {
		s.report(step, f(s, step))
		if s.stop() {
			return
		}
	}
}

func runCase(c *Chain, p *Prop, cs *Case, trace bool) (res Result) {
	s := newSim(c, p, cs)
	s.trace = trace
	for i, op := range cs.Ops {
		if s.stop() {
			break
		}
		s.opIdx = i
		if trace {
			s.logf("op %d %s %v", i, op.K, op.A)
		}
		s.do(op)
	}
	if !s.stop() {
		s.opIdx = len(cs.Ops)
		for _, f := range p.onEnd {
			s.report("probe", f(s))
			if s.stop() {
				break
			}
		}
	}
	for k, v := range s.unowned {
		s.notes["unowned."+k] = v
	}
	return Result{Viol: s.viol, Notes: s.notes, Steps: s.steps, Trace: s.Trace}
}

func sortedInts(m map[string]int) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
