package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type workerOut struct {
	Cases, Steps int
	Notes        map[string]int // total
	CaseNotes    map[string]int // number of cases in which the counter was hit
	Nontrivial   map[uint64]bool
	Samples      []json.RawMessage
	Viol         *Viol
	Case         *Case
	Idx          int
	Known        map[string]int
	Failed       []string // cases without an answer
	Secs         float64
}

func caseHash(cs *Case) uint64 {
	b, _ := json.Marshal(cs)
	return hashStr(string(b))
}

func genCase(p *Prop, seed int64, idx int) *Case {
	cs := p.Gen(NewRng(uint64(seed), hashStr(p.ID), uint64(idx)))
	cs.Property = p.ID
	return cs
}

func execCase(c *Chain, p *Prop, cs *Case, trace bool) Result {
	if p.Special != nil {
		return p.Special(c, cs, trace)
	}
	return runCase(c, p, cs, trace)
}

// Known is one recorded finding that has not been repaired. The model recognises exactly the recorded behaviour
// and notes "KNOWN.<id>"; any other deviation is a violation, and so is this one once it is no longer listed.
type Known struct{ ID, Property, What string }

var knownFindings = map[string]*Known{}

func loadKnown() {
	path := os.Getenv("VERIF_KNOWN")
	if path == "" {
		return
	}
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		w := strings.SplitN(strings.TrimSpace(strings.TrimPrefix(l, "known:")), " ", 3)
		if len(w) != 3 || !strings.HasPrefix(w[0], "property=") || !strings.HasPrefix(w[1], "id=") {
			fatal("%s: bad line %q", path, l)
		}
		k := Known{ID: w[1][3:], Property: w[0][9:], What: w[2]}
		knownFindings[k.ID] = &k
	}
}

func worker(p *Prop, seed int64, shard, shards, count int, deadline time.Duration) (out workerOut) {
	start := time.Now()
	out = workerOut{Notes: map[string]int{}, CaseNotes: map[string]int{}, Nontrivial: map[uint64]bool{}, Known: map[string]int{}}
	var c *Chain
	n := 0
	for idx := shard; idx < count; idx += shards {
		if time.Since(start) > deadline {
			break
		}
		if p.Special == nil && (c == nil || p.Fresh > 0 && n%p.Fresh == 0) {
			c = NewChain()
		}
		n++
		cs := genCase(p, seed, idx)
		res, failed := guarded(c, p, cs)
		if failed != "" {
			out.Failed = append(out.Failed, fmt.Sprintf("case %d: %s", idx, failed))
			if failed == hung || len(out.Failed) > 5 {
				break
			}
			c = nil
			continue
		}
		out.Cases++
		out.Steps += res.Steps
		for k, v := range res.Notes {
			out.Notes[k] += v
			out.CaseNotes[k]++
		}
		if p.nontrivial(res.Notes) {
			h := caseHash(cs)
			if !out.Nontrivial[h] && len(out.Samples) < 2 {
				b, _ := json.Marshal(map[string]any{"index": idx, "cfg": cs.Cfg, "ops": compactOps(cs.Ops), "steps": res.Steps, "hit": topNotes(res.Notes)})
				out.Samples = append(out.Samples, b)
			}
			out.Nontrivial[h] = true
		}
		if res.Viol != nil {
			out.Viol, out.Case, out.Idx = res.Viol, cs, idx
			break
		}
	}
	out.Secs = time.Since(start).Seconds()
	return
}

const hung, endless = "does not end", "did not end within"

// guarded runs a case, survives a panic of the harness itself, and gives up on a case that takes far too long.
func guarded(c *Chain, p *Prop, cs *Case) (Result, string) { return guardedTrace(c, p, cs, false) }

func guardedTrace(c *Chain, p *Prop, cs *Case, trace bool) (Result, string) {
	type ans struct {
		r Result
		f string
	}
	ch := make(chan ans, 1)
	var cur atomic.Value
	go func() {
		defer func() {
			if e := recover(); e != nil {
				ch <- ans{f: fmt.Sprintf("%v\n%s", e, debug.Stack())}
			}
		}()
		caseProgress = &cur
		ch <- ans{r: execCase(c, p, cs, trace)}
	}()
	limit := caseLimit
	if p.Special != nil {
		limit *= 3
	}
	select {
	case a := <-ch:
		return a.r, a.f
	case <-time.After(limit):
		w, _ := cur.Load().(where)
		if p.ID == "X03" && w.step != "" {
			return Result{Viol: &Viol{Comp: "halt", Key: w.step, Detail: fmt.Sprintf("%s %s %v", w.step, endless, limit), Step: w.step, Op: w.op}, Notes: map[string]int{}}, ""
		}
		return Result{}, hung
	}
}

// where is the place in the history a case has come to.
type where struct {
	step string
	op   int
}

var caseProgress *atomic.Value

const caseLimit = 150 * time.Second

func compactOps(ops []Op) []string {
	var r []string
	for i, o := range ops {
		if i >= 40 {
			r = append(r, fmt.Sprintf("... %d more", len(ops)-i))
			break
		}
		r = append(r, fmt.Sprintf("%s%v", o.K, o.A))
	}
	return r
}

func topNotes(n map[string]int) map[string]int {
	r := map[string]int{}
	for _, k := range sortedInts(n) {
		if len(r) < 25 {
			r[k] = n[k]
		}
	}
	return r
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: pbt run|worker|replay|list")
	}
	loadKnown()
	if f := subcommands[os.Args[1]]; f != nil {
		f(os.Args[2:])
		return
	}
	fs := flag.NewFlagSet("pbt", flag.ExitOnError)
	prop := fs.String("property", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 8, "")
	count := fs.Int("count", 0, "")
	secs := fs.Float64("secs", 0, "")
	outDir := fs.String("out", ".", "directory for evidence and replays")
	verbose := fs.Bool("v", false, "")
	keep := fs.Bool("noshrink", false, "")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "list":
		for _, k := range sortedKeys(registry) {
			fmt.Println(k)
		}
	case "worker":
		p := registry[*prop]
		stop := startProfile()
		o := worker(p, *seed, *shard, *shards, *count, time.Duration(*secs*float64(time.Second)))
		stop()
		b, _ := json.Marshal(o)
		os.Stdout.Write(append([]byte("RESULT "), append(b, '\n')...))
	case "run":
		p := registry[*prop]
		if p == nil {
			fatal("unknown property %s", *prop)
		}
		os.Exit(master(p, *tier, *seed, *shards, *count, *secs, *outDir, *verbose, *keep))
	case "replay":
		os.Exit(replay(fs.Arg(0), *verbose))
	default:
		fatal("unknown command %s", os.Args[1])
	}
}

var subcommands = map[string]func([]string){}

func runWorker(exe string, a ...string) (o workerOut, err error) {
	cmd := exec.Command(exe, append([]string{"worker"}, a...)...)
	cmd.Stderr = os.Stderr
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=400")
	pipe, err := cmd.StdoutPipe()
	if err != nil {
		return o, err
	}
	if err = cmd.Start(); err != nil {
		return o, err
	}
	rd := bufio.NewReaderSize(pipe, 1<<20)
	got := false
	for {
		l, e := rd.ReadBytes('\n')
		if len(l) > 7 && string(l[:7]) == "RESULT " {
			if err = json.Unmarshal(l[7:], &o); err == nil {
				got = true
			}
		}
		if e != nil {
			break
		}
	}
	if e := cmd.Wait(); e != nil {
		return o, e
	}
	if !got {
		return o, fmt.Errorf("no result: %v", err)
	}
	return o, nil
}

func master(p *Prop, tier string, seed int64, shards, count int, secs float64, outDir string, verbose, noshrink bool) int {
	start := time.Now()
	exe, _ := os.Executable()
	if count == 0 {
		count = p.Quick
		if tier == "thorough" {
			count = p.Thor
		}
	}
	if secs == 0 {
		secs = 150
		if tier == "thorough" {
			secs = 600
		}
	}
	if n := runtime.NumCPU(); shards > n && n > 0 {
		shards = n
	}
	outs := make([]workerOut, shards)
	errs := make([]error, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			outs[i], errs[i] = runWorker(exe, "-property", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-shard", fmt.Sprint(i), "-shards", fmt.Sprint(shards), "-count", fmt.Sprint(count), "-secs", fmt.Sprint(secs))
		}(i)
	}
	wg.Wait()
	tot := workerOut{Notes: map[string]int{}, CaseNotes: map[string]int{}, Nontrivial: map[uint64]bool{}}
	var best *workerOut
	var failed []string
	for i := range outs {
		if errs[i] != nil {
			failed = append(failed, fmt.Sprintf("worker %d: %v", i, errs[i]))
			continue
		}
		o := &outs[i]
		failed = append(failed, o.Failed...)
		tot.Cases += o.Cases
		tot.Steps += o.Steps
		for k, v := range o.Notes {
			tot.Notes[k] += v
		}
		for k, v := range o.CaseNotes {
			tot.CaseNotes[k] += v
		}
		for h := range o.Nontrivial {
			tot.Nontrivial[h] = true
		}
		if len(tot.Samples) < 3 {
			tot.Samples = append(tot.Samples, o.Samples...)
		}
		if o.Viol != nil && (best == nil || o.Idx < best.Idx) {
			best = o
		}
	}
	if len(tot.Samples) > 3 {
		tot.Samples = tot.Samples[:3]
	}
	if verbose {
		for _, k := range sortedInts(tot.CaseNotes) {
			fmt.Printf("%8d %6d  %s\n", tot.Notes[k], tot.CaseNotes[k], k)
		}
	}
	for _, id := range sortedKeys(knownFindings) {
		if k := knownFindings[id]; k.Property == p.ID && tot.Notes["KNOWN."+id] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s (seen %d times)\n", p.ID, k.What, tot.Notes["KNOWN."+id])
		}
	}
	viols := []any{}
	code := 0
	var replayPath string
	if best != nil {
		code = 1
		cs, v := best.Case, best.Viol
		if !noshrink {
			cs, v = shrink(p, cs, v, 60*time.Second)
		}
		dir := filepath.Join(outDir, "replays")
		os.MkdirAll(dir, 0o755)
		replayPath = filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", p.ID, seed, best.Idx))
		writeJSON(replayPath, map[string]any{"property": p.ID, "seed": seed, "index": best.Idx, "violation": v, "case": cs})
		viols = append(viols, v)
		fmt.Printf("violated: [%s] %s: %s (step %s, op %d of %d)\n", v.Comp, v.Key, v.Detail, v.Step, v.Op, len(cs.Ops))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, replayPath)
	}
	if len(tot.Samples) == 0 {
		tot.Samples = append(tot.Samples, json.RawMessage(`"none of the cases was non-trivial"`))
	}
	top := map[string]int{}
	for k, v := range tot.Notes {
		top[k] = v
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "wall_s": time.Since(start).Seconds(),
		"coverage": map[string]any{
			"evaluations": tot.Cases, "distinct_nontrivial": len(tot.Nontrivial), "rule": p.Rule, "samples": tot.Samples,
			"steps_checked": tot.Steps, "planned_cases": count, "event_counts": top, "cases_per_event": tot.CaseNotes,
		},
		"violations": len(viols), "violation_details": viols,
	}
	ed := filepath.Join(outDir, "evidence")
	os.MkdirAll(ed, 0o755)
	writeJSON(filepath.Join(ed, p.ID+".json"), ev)
	fmt.Printf("%s %s seed %d: %d cases, %d non-trivial, %d steps, %.1f s\n", p.ID, tier, seed, tot.Cases, len(tot.Nontrivial), tot.Steps, time.Since(start).Seconds())
	for i, f := range failed {
		if i < 3 {
			fmt.Fprintln(os.Stderr, f)
		}
	}
	if code == 0 && len(failed) > 0 {
		fatal("%d cases without an answer", len(failed))
	}
	if code == 0 && len(tot.Nontrivial) == 0 {
		fatal("no non-trivial case was generated")
	}
	return code
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	if err = os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}

func loadCase(path string) *Case {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var r struct{ Case *Case }
	if err = json.Unmarshal(b, &r); err != nil || r.Case == nil {
		fatal("bad replay file: %v", err)
	}
	return r.Case
}

func replay(path string, verbose bool) int {
	cs := loadCase(path)
	p := registry[cs.Property]
	if p == nil {
		fatal("unknown property")
	}
	var c *Chain
	if p.Special == nil {
		c = NewChain()
	}
	res, failed := guardedTrace(c, p, cs, true)
	if failed != "" {
		fatal("%s", failed)
	}
	for _, l := range res.Trace {
		fmt.Println(l)
	}
	if res.Viol != nil {
		fmt.Printf("violated: [%s] %s: %s (step %s)\n", res.Viol.Comp, res.Viol.Key, res.Viol.Detail, res.Viol.Step)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	fmt.Println("no violation")
	return 0
}

// shrink removes operations and simplifies arguments while the same component at the same kind of step still fails.
func shrink(p *Prop, cs *Case, v *Viol, budget time.Duration) (*Case, *Viol) {
	start := time.Now()
	if strings.Contains(v.Detail, endless) {
		return cs, v
	}
	var c *Chain
	runs := 0
	try := func(x *Case) *Viol {
		if p.Special == nil && (c == nil || p.Fresh > 0 && runs%p.Fresh == 0) {
			c = NewChain()
		}
		runs++
		r, failed := guarded(c, p, x)
		if failed != "" {
			c = nil
			return nil
		}
		if r.Viol != nil && r.Viol.sig() == v.sig() {
			return r.Viol
		}
		return nil
	}
	left := func() bool { return time.Since(start) < budget }
	cur := *cs
	if v.Op+1 < len(cur.Ops) {
		x := cur
		x.Ops = cur.Ops[:v.Op+1]
		if nv := try(&x); nv != nil {
			cur, v = x, nv
		}
	}
	for size := (len(cur.Ops) + 1) / 2; size >= 1 && left(); {
		changed := false
		for at := len(cur.Ops) - size; at > -size && left(); at -= size {
			lo := at
			if lo < 0 {
				lo = 0
			}
			hi := at + size
			if hi > len(cur.Ops) {
				continue
			}
			x := cur
			x.Ops = append(append([]Op{}, cur.Ops[:lo]...), cur.Ops[hi:]...)
			if nv := try(&x); nv != nil {
				cur, v, changed = x, nv, true
			}
		}
		if size == 1 && !changed {
			break
		}
		if size > 1 {
			size = (size + 1) / 2
		}
	}
	for i := range cur.Ops {
		for j := range cur.Ops[i].A {
			for _, val := range []int64{0, 1, cur.Ops[i].A[j] % 64, cur.Ops[i].A[j] % 4096} {
				if !left() || val >= cur.Ops[i].A[j] {
					continue
				}
				x := cur
				x.Ops = append([]Op{}, cur.Ops...)
				na := append([]int64{}, cur.Ops[i].A...)
				na[j] = val
				x.Ops[i] = Op{cur.Ops[i].K, na}
				if nv := try(&x); nv != nil {
					cur, v = x, nv
					break
				}
			}
		}
	}
	return &cur, v
}

var _ = sort.Strings
