package main

import (
	"strings"

	sdk "github.com/cosmos/cosmos-sdk/types"
)

// Prop is one property: what its cases look like, which disagreements decide it, and when a case counts.
type Prop struct {
	ID      string
	Own     []string // "component@step", * as wildcard at the end of either
	Gen     func(r *Rng) *Case
	onTx    []func(s *Sim, msg sdk.Msg, err error, pre, post *St, m *M) []Diff
	onBlk   []func(s *Sim, step string, pre, post *St, m *M) []Diff
	onState []func(s *Sim, step string) []Diff
	onEnd   []func(s *Sim) []Diff
	Special func(c *Chain, cs *Case, trace bool) Result // replaces the ordinary driver
	Hit     [][]string                                  // a case is non-trivial when every group has a hit counter
	Rule    string
	Quick   int
	Thor    int
	Fresh   int // a new chain every so many cases (0: one chain per process)
}

func match(pat, x string) bool {
	if strings.HasSuffix(pat, "*") {
		return strings.HasPrefix(x, pat[:len(pat)-1])
	}
	return pat == x
}

func (p *Prop) owns(comp, step string, d Diff) bool {
	for _, o := range p.Own {
		k := strings.SplitN(o, "@", 2)
		if !match(k[0], comp) {
			continue
		}
		if len(k) == 1 {
			return true
		}
		for _, st := range strings.Split(k[1], ",") {
			if match(st, step) {
				return true
			}
		}
	}
	return false
}

func (p *Prop) nontrivial(n map[string]int) bool {
	if len(p.Hit) == 0 {
		return true
	}
	for _, g := range p.Hit {
		ok := false
		for _, k := range g {
			if n[k] > 0 {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}
