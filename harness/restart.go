package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// X02: the same blocks on several nodes, some of which are restarted from disk.

func nodeProfile(r *Rng) *Case {
	ps := []*Profile{stdProfile, delProfile, bundleProfile, fundProfile, memberProfile, poolProfile, payProfile, teamProfile, inflProfile}
	cs := ps[r.N(len(ps))].gen(r)
	cs.Cfg["node"] = r.Arg() % (1 << 30)
	if len(cs.Ops) > 70 {
		cs.Ops = cs.Ops[:70]
	}
	return cs
}

func diffResults(exp, got nodeResult) (string, string) {
	for i := range exp.Txs {
		if i >= len(got.Txs) || got.Txs[i] != exp.Txs[i] {
			g := "nothing"
			if i < len(got.Txs) {
				g = got.Txs[i] + " " + got.Full[i]
			}
			return "node:result", fmt.Sprintf("transaction %d: expected %s, got %s", i, exp.Txs[i]+" "+exp.Full[i], g)
		}
	}
	for i := range exp.Full {
		if got.Full[i] != exp.Full[i] {
			return "node:result", fmt.Sprintf("transaction %d: expected %s, got %s", i, clip(exp.Full[i], got.Full[i]), clip(got.Full[i], exp.Full[i]))
		}
	}
	if got.End != exp.End {
		return "node:events", fmt.Sprintf("block events: expected %s, got %s", clip(exp.End, got.End), clip(got.End, exp.End))
	}
	if got.Hash != exp.Hash {
		return "node:hash", fmt.Sprintf("application hash: expected %s, got %s", exp.Hash, got.Hash)
	}
	return "", ""
}

func (l *live) notes(s *Sim, res *Result) {
	res.Notes = s.notes
	res.Steps = s.steps
	res.Trace = s.Trace
	res.Notes["blocks"] = len(l.res)
	res.Notes["transactions"] = l.okTx
	res.Notes["failed transactions"] = l.badTx
	res.Notes["proposals"] = l.gov
	for k := range res.Notes {
		if res.Notes[k] == 0 {
			delete(res.Notes, k)
		}
	}
}

func scratch() string {
	d, err := os.MkdirTemp("", "verif-node-")
	if err != nil {
		panic(err)
	}
	return d
}

func runRestart(_ *Chain, cs *Case, trace bool) (res Result) {
	r := NewRng(uint64(cs.cfg("node", 1)), 2)
	l := newLive()
	every := 2 + r.N(6)
	l.dumpIf = func(n int) bool { return n%every == every-1 }
	s := runLive(l, cs, &Prop{ID: "X02"}, trace, nil)
	l.notes(s, &res)
	bad := func(comp, step, f string, a ...any) {
		if res.Viol == nil {
			res.Viol = &Viol{Property: "X02", Comp: comp, Detail: pretty(fmt.Sprintf(f, a...)), Step: step}
		}
	}
	if l.err != nil {
		// a halt is the subject of X03
		res.Notes["halted"]++
	}
	if len(l.res) == 0 {
		return
	}
	dir := scratch()
	defer os.RemoveAll(dir)
	sc := l.script
	sc.Dir = filepath.Join(dir, "db")
	sc.Blocks = sc.Blocks[:len(l.res)]
	var stops []int64
	h := int64(0)
	for i := 1 + r.N(3); i > 0 && h < int64(len(l.res))-1; i-- {
		h += 1 + r.I64(int64(len(l.res))-1-h)
		stops = append(stops, h)
	}
	stops = append(stops, int64(len(l.res)))
	for i, st := range stops {
		sc.Stop = st
		sc.Crash = i+1 < len(stops) && r.Chance(1, 3)
		o := runNode(dir, sc)
		where := fmt.Sprintf("node started at block %d, stopped at %d", o.From, st)
		if i > 0 {
			res.Notes["restarts"]++
		}
		if sc.Crash {
			res.Notes["crashes before the commit"]++
		}
		if o.Err != "" {
			bad("node:error", "restart", "%s: %s", where, o.Err)
			return
		}
		for _, g := range o.Res {
			e := l.res[g.H-1]
			if comp, d := diffResults(e, g); comp != "" {
				bad(comp, "restart", "%s: block %d: %s", where, g.H, d)
				return
			}
			if e.Dump != nil && g.Dump != nil {
				res.Notes["query dumps compared"]++
				if i > 0 {
					res.Notes["query dumps compared after a restart"]++
				}
				if d := dumpDiff(e.Dump, g.Dump); d != "" {
					bad("node:query", "restart", "%s: queries after block %d: %s", where, g.H, d)
					return
				}
			}
		}
	}
	return
}

// X01: the state is exported after some block and imported into a new chain, which gets the remaining blocks.

func modDiff(a, b map[string]string, own bool) (string, string) {
	for _, k := range sortedKeys(a) {
		if kyveModules[k] == own && a[k] != b[k] {
			return k, fmt.Sprintf("expected %s, got %s", clip(a[k], b[k]), clip(b[k], a[k]))
		}
	}
	return "", ""
}

func runExport(_ *Chain, cs *Case, trace bool) (res Result) {
	r := NewRng(uint64(cs.cfg("node", 1)), 3)
	l := newLive()
	type export struct {
		h    int64
		t    int64
		raw  []byte
		next map[string]string // the state one block later
	}
	var exs []*export
	var open *export
	left := 0
	// a few of the blocks, drawn as they come
	l.after = func() error {
		if open != nil && l.h == open.h+1 {
			_, m, err := exportState(l.app)
			if err != nil {
				return fmt.Errorf("export of block %d: %w", l.h, err)
			}
			open.next = m
			exs = append(exs, open)
			open = nil
		}
		if left == 0 {
			left = 2 + r.N(14)
		}
		if left--; left == 0 && open == nil && len(exs) < 3 {
			raw, _, err := exportState(l.app)
			if err != nil {
				return fmt.Errorf("export of block %d: %w", l.h, err)
			}
			open = &export{h: l.h, t: l.t, raw: raw}
		}
		return nil
	}
	every := 2 + r.N(4)
	l.dumpIf = func(n int) bool { return open != nil || n%every == every-1 }
	s := runLive(l, cs, &Prop{ID: "X01"}, trace, nil)
	l.notes(s, &res)
	bad := func(comp, step, f string, a ...any) {
		if res.Viol == nil {
			res.Viol = &Viol{Property: "X01", Comp: comp, Detail: pretty(fmt.Sprintf(f, a...)), Step: step}
		}
	}
	if l.err != nil {
		if strings.HasPrefix(l.err.Error(), "export") {
			bad("export:fails", "export", "%v", l.err)
			return
		}
		res.Notes["halted"]++
	}
	if len(exs) == 0 {
		return
	}
	_, end, err := exportState(l.app)
	if err != nil {
		bad("export:fails", "export", "%v", err)
		return
	}
	dir := scratch()
	defer os.RemoveAll(dir)
	for _, ex := range exs {
		where := fmt.Sprintf("exported after block %d", ex.h)
		sc := nodeScript{Genesis: ex.raw, Height: ex.h + 1, T: ex.t, Blocks: l.script.Blocks[:len(l.res)], Export: true, Valid: true, Fork: ex.h + 1}
		o := runNode(dir, sc)
		if o.Err != "" {
			bad("export:import", "import", "%s: %s", where, o.Err)
			return
		}
		res.Notes["imports"]++
		if mod, d := modDiff(ex.next, o.First, true); mod != "" {
			bad("export:state", "import", "%s: state of %s one block later: %s", where, mod, d)
			return
		}
		for _, g := range o.Res {
			e := l.res[g.H-1]
			for i := range e.Txs {
				res.Notes["transactions on the imported chain"]++
				if g.Txs[i] != e.Txs[i] {
					bad("export:result", "continue", "%s: block %d transaction %d: expected %s, got %s", where, g.H, i, e.Txs[i]+" "+e.Full[i], g.Txs[i]+" "+g.Full[i])
					return
				}
			}
			if e.Dump != nil && g.Dump != nil {
				res.Notes["query dumps compared"]++
				if d := dumpDiff(e.Dump, g.Dump); d != "" {
					bad("export:query", "continue", "%s: queries after block %d: %s", where, g.H, d)
					return
				}
			}
		}
		if mod, d := modDiff(end, o.Export, true); mod != "" {
			bad("export:state", "continue", "%s: state of %s at the end: %s", where, mod, d)
			return
		}
		if mod, d := modDiff(end, o.Export, false); mod != "" {
			res.Notes["other module differs: "+mod]++
			if os.Getenv("PBTDBG") != "" {
				fmt.Fprintln(os.Stderr, mod, d)
			}
		}
	}
	return
}
