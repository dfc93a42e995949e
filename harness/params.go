package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	sdk "github.com/cosmos/cosmos-sdk/types"
)

// Published parameter schema: module -> field -> kind.
var paramSpec = map[string]map[string]string{
	"bundles":    {"upload_timeout": "pos", "storage_costs": "storage", "network_fee": "pct", "max_points": "pos"},
	"delegation": {"unbonding_delegation_time": "u64", "redelegation_cooldown": "u64", "redelegation_max_amount": "u64", "vote_slash": "pct", "upload_slash": "pct", "timeout_slash": "pct"},
	"stakers":    {"commission_change_time": "u64", "leave_pool_time": "u64"},
	"pool":       {"protocol_inflation_share": "pct", "pool_inflation_payout_rate": "pct", "max_voting_power_per_pool": "pct"},
	"funders":    {"coin_whitelist": "whitelist", "min_funding_multiple": "u64"},
	"global":     {"min_gas_price": "dec", "burn_ratio": "pct", "gas_adjustments": "adj", "gas_refunds": "refund"},
}

// paramJSON reads the stored parameters of every module as JSON objects.
func (c *Chain) paramJSON(ctx sdk.Context) map[string]map[string]any {
	a := c.App
	f := a.FundersKeeper.GetParams(ctx)
	raw := map[string]any{
		"bundles": a.BundlesKeeper.GetParams(ctx), "delegation": a.DelegationKeeper.GetParams(ctx), "stakers": a.StakersKeeper.GetParams(ctx),
		"pool": a.PoolKeeper.GetParams(ctx), "funders": f, "global": a.GlobalKeeper.GetParams(ctx),
	}
	out := map[string]map[string]any{}
	for m, v := range raw {
		b, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		out[m] = parseObj(string(b))
	}
	return out
}

func parseObj(s string) map[string]any {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var r map[string]any
	if d.Decode(&r) != nil {
		return nil
	}
	return r
}

func num(v any) *big.Rat {
	s := ""
	switch x := v.(type) {
	case json.Number:
		s = x.String()
	case string:
		s = x
	case nil:
		return new(big.Rat)
	default:
		return nil
	}
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		return nil
	}
	return r
}

// canon renders a parameter value of the given kind canonically; ok is false when it is not admissible.
func canon(kind string, v any) (string, bool) {
	numOK := func(v any, wantStr bool, lo, hi *big.Rat, integer bool) (string, bool) {
		_, isS := v.(string)
		if v != nil && isS != wantStr {
			return "", false
		}
		r := num(v)
		if r == nil || lo != nil && r.Cmp(lo) < 0 || hi != nil && r.Cmp(hi) > 0 || integer && !r.IsInt() {
			return "", false
		}
		return r.RatString(), true
	}
	zero, one := new(big.Rat), big.NewRat(1, 1)
	max := new(big.Rat).SetInt(bigU(^uint64(0)))
	list := func(fields [][2]string) (string, bool) {
		if v == nil {
			return "[]", true
		}
		l, ok := v.([]any)
		if !ok {
			return "", false
		}
		s := "["
		for _, e := range l {
			o, ok := e.(map[string]any)
			if !ok {
				return "", false
			}
			s += "{"
			for _, f := range fields {
				if f[1] == "str" {
					x, _ := o[f[0]].(string)
					s += f[0] + "=" + x + ";"
					if f[0] == "coin_denom" && x == "" {
						return "", false
					}
					continue
				}
				if _, ok := o[f[0]]; !ok && f[1] != "u64" && f[1] != "places" {
					return "", false
				}
				x, ok := canon(f[1], o[f[0]])
				if !ok {
					return "", false
				}
				s += f[0] + "=" + x + ";"
			}
			s += "}"
		}
		return s + "]", true
	}
	switch kind {
	case "u64":
		return numOK(v, false, zero, max, true)
	case "pos":
		return numOK(v, false, one, max, true)
	case "pct":
		return numOK(v, true, zero, one, false)
	case "dec":
		return numOK(v, true, zero, nil, false)
	case "cap": // beyond 10^18 calculations may exceed the range of decimals
		return numOK(v, true, zero, new(big.Rat).SetInt64(1e18), false)
	case "places":
		return numOK(v, false, zero, big.NewRat(18, 1), true)
	case "int":
		return numOK(v, true, zero, nil, true)
	case "storage":
		return list([][2]string{{"storage_provider_id", "u64"}, {"cost", "cap"}})
	case "adj":
		return list([][2]string{{"type", "str"}, {"amount", "u64"}})
	case "refund":
		return list([][2]string{{"type", "str"}, {"fraction", "pct"}})
	case "whitelist":
		s, ok := list([][2]string{{"coin_denom", "str"}, {"coin_decimals", "places"}, {"min_funding_amount", "int"}, {"min_funding_amount_per_bundle", "int"}, {"coin_weight", "cap"}})
		if ok && !strings.Contains(s, "coin_denom="+UKYVE+";") {
			return "", false
		}
		return s, ok
	}
	panic("kind " + kind)
}

func (m *M) paramsOK(mod, payload string) bool {
	o := parseObj(payload)
	if o == nil || !json.Valid([]byte(payload)) {
		return false
	}
	for k, v := range o {
		kind, ok := paramSpec[mod][k]
		if !ok {
			continue
		}
		if _, ok := canon(kind, v); !ok {
			return false
		}
	}
	return true
}

// checkParams: an accepted update sets exactly the named fields; without one nothing changes.
func checkParams(pre, post map[string]map[string]any, mod, payload string) []Diff {
	d := &differ{}
	o := map[string]any{}
	if mod != "" {
		o = parseObj(payload)
	}
	for _, m := range sortedKeys(paramSpec) {
		for _, k := range sortedKeys(paramSpec[m]) {
			kind := paramSpec[m][k]
			a, _ := canon(kind, pre[m][k])
			if v, ok := o[k]; ok && m == mod {
				a, _ = canon(kind, v)
			}
			b, ok := canon(kind, post[m][k])
			if !ok {
				d.add("params", m+"."+k, "invalid value %v stored", post[m][k])
			} else if a != b {
				d.add("params", m+"."+k, "expected %s, got %s", a, b)
			}
		}
	}
	return d.out
}

var _ = fmt.Sprint
