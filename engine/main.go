package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type options struct {
	repo, harness, group, prop, tier, only, verif string
	seed, workers, samples                        int
	limit                                         time.Duration
	budget                                        int
	evidence                                      bool
	verbose                                       bool
}

func main() {
	var o options
	flag.StringVar(&o.repo, "repo", "/repo", "")
	flag.StringVar(&o.verif, "verif", "/verif", "")
	flag.StringVar(&o.group, "group", "", "harness package")
	flag.StringVar(&o.prop, "prop", "", "property id")
	flag.StringVar(&o.only, "only", "", "only this harness")
	flag.StringVar(&o.tier, "tier", "quick", "")
	flag.IntVar(&o.workers, "workers", 8, "")
	flag.IntVar(&o.samples, "samples", 100, "paths per harness validated natively")
	flag.IntVar(&o.budget, "budget", 20_000_000, "instructions per path")
	flag.DurationVar(&o.limit, "limit", 600*time.Second, "")
	flag.BoolVar(&o.evidence, "evidence", false, "write the evidence file")
	flag.BoolVar(&o.verbose, "v", false, "")
	flag.BoolVar(&debugPaths, "paths", false, "")
	forks := flag.Bool("forks", false, "")
	prof := flag.String("prof", "", "")
	flag.StringVar(&slowDump, "slow", "", "write slow queries here")
	flag.Parse()
	if *forks {
		forkProf = map[string]int{}
	}
	o.harness = filepath.Join(o.verif, "harness")
	o.seed = 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		o.seed = s
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	code := runCheck(&o)
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	if forkProf != nil {
		var ks []string
		for k := range forkProf {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return forkProf[ks[i]] > forkProf[ks[j]] })
		for i := 0; i < len(ks) && i < 25; i++ {
			fmt.Println(forkProf[ks[i]], ks[i])
		}
	}
	os.Exit(code)
}

func inconclusive(o *options, t0 time.Time, why string) int {
	fmt.Printf("INCONCLUSIVE property=%s %s\n", o.prop, why)
	if o.evidence {
		writeEvidence(o, map[string]any{
			"property": o.prop, "tier": o.tier, "seed": o.seed, "level": "model_checking",
			"coverage": map[string]any{"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []any{why}, "inconclusive": why},
			"wall_s":   time.Since(t0).Seconds(), "violations": 0,
		})
	}
	return 2 // nothing was decided
}

func writeEvidence(o *options, e map[string]any) {
	dir := filepath.Join(o.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(e, "", " ")
	os.WriteFile(filepath.Join(dir, o.prop+".json"), append(b, '\n'), 0o644)
}

func runCheck(o *options) int {
	t0 := time.Now()
	deadline := t0.Add(o.limit)
	p, err := loadProgram(o.repo, o.harness, o.group)
	if err != nil {
		return inconclusive(o, t0, err.Error())
	}
	p.Seed = o.seed
	p.Thorough = o.tier == "thorough"
	tLoad := time.Since(t0)
	hs := p.harnesses(o.prop)
	if o.only != "" {
		var k []*Harness
		for _, h := range hs {
			if h.Name == o.only {
				k = append(k, h)
			}
		}
		hs = k
	}
	if len(hs) == 0 {
		return inconclusive(o, t0, "no harness")
	}
	dir, err := os.MkdirTemp("", "verif-"+o.prop+"-")
	if err != nil {
		return inconclusive(o, t0, err.Error())
	}
	defer os.RemoveAll(dir)
	nat := &Native{dir: dir, group: o.group, repo: o.repo, harness: o.harness, module: p.Module, thorough: p.Thorough}
	for name, mem := range p.Main.Members {
		if f, ok := mem.(*ssa.Function); ok && (name == "Setup" || strings.HasPrefix(name, o.prop+"_")) && f.Signature.Params().Len() == 0 {
			nat.names = append(nat.names, name)
		}
	}
	go nat.build()
	ms := make([]*Machine, o.workers)
	errs := make([]error, o.workers)
	var wg sync.WaitGroup
	for i := range ms {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if ms[i], errs[i] = newMachine(p); errs[i] == nil {
				ms[i].rng.Seed(int64(o.seed*1000 + i))
				errs[i] = ms[i].prepare()
			}
		}()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return inconclusive(o, t0, e.Error())
		}
	}
	for _, m := range ms {
		defer m.s.close()
	}
	tSetup := time.Since(t0)
	if o.verbose {
		fmt.Printf("load %v, setup %v\n", tLoad, tSetup)
	}

	var results []*HarnessResult
	var viol *Violation
	var violRes NResult
	validated, mismatches := 0, 0
	var problems []string
	for i, h := range hs {
		left := time.Until(deadline)
		if left < time.Second {
			problems = append(problems, h.Name+": no time left")
			continue
		}
		hd := time.Now().Add(left / time.Duration(len(hs)-i))
		if i == len(hs)-1 {
			hd = deadline
		}
		var cmu sync.Mutex
		confirm := func(v *Violation) bool {
			cmu.Lock()
			defer cmu.Unlock()
			if viol != nil {
				return false
			}
			cs := []NCase{{v.Harness, v.Vals, p.Thorough, v.Sched}}
			for len(v.Sched) > 0 && len(cs) < 6 {
				cs = append(cs, cs[0])
			}
			rs, err := nat.runCases(cs)
			if err != nil {
				problems = append(problems, err.Error())
				return false
			}
			var r NResult
			ok := false
			for _, r = range rs {
				if ok = r.Status == "fail" || r.Status == "panic" || r.Status == "hang" || r.Status == "crash"; ok {
					break
				}
			}
			if o.verbose {
				fmt.Printf("candidate %s %q vals=%v native=%s %s\n", v.Harness, v.Msg, v.Vals, r.Status, r.Msg)
			}
			if ok {
				viol, violRes = v, r
			}
			return ok
		}
		r := explore(ms, h, hd, o.budget, o.samples, int64(o.seed), confirm)
		results = append(results, r)
		if o.verbose {
			fmt.Printf("%-28s paths %d (assume-end %d, budget %d, unsupported %d) forks %d steps %d asserts %d (const %d, solver %d) queries %d (sat %d unsat %d unknown %d) z3 %.1fs domain %d audits %d depth %d wall %.1fs complete %v left %d reached %v\n",
				r.Name, r.Paths, r.AssumeEnd, r.Budget, r.Unsupported, r.Forks, r.Steps, r.Asserts, r.AssertConst, r.AssertQueries, r.Queries, r.Sat, r.Unsat, r.Unknown,
				r.SolverTime.Seconds(), r.DomDecided, r.Audits, r.MaxDepth, r.Wall.Seconds(), r.Complete, r.Left, keys(r.Reached))
			for k, v := range r.UnsupportedMsgs {
				fmt.Printf("   inconclusive x%d: %s\n", v, k)
			}
		}
		if viol != nil {
			break
		}
		// the paths must behave in the compiled code as they did symbolically
		var cs []NCase
		for _, s := range r.Samples {
			cs = append(cs, NCase{r.Name, s.Vals, p.Thorough, s.Sched})
		}
		if len(cs) > 0 {
			rs, err := nat.runCases(cs)
			if err != nil {
				problems = append(problems, err.Error())
			}
			for j := range rs {
				validated++
				if rs[j].Status != "ok" || strings.Join(rs[j].Obs, ";") != strings.Join(r.Samples[j].Obs, ";") {
					mismatches++
					if mismatches < 4 {
						problems = append(problems, fmt.Sprintf("%s: engine and compiled code disagree on %v: %v vs %v %s %v", r.Name, r.Samples[j].Vals, r.Samples[j].Obs, rs[j].Status, rs[j].Msg, rs[j].Obs))
					}
				}
			}
		}
		for k, v := range r.UnsupportedMsgs {
			problems = append(problems, fmt.Sprintf("%s: x%d %s", r.Name, v, k))
		}
		if !r.Complete && r.Unsupported == 0 {
			problems = append(problems, fmt.Sprintf("%s: stopped with %d open branches", r.Name, r.Left))
		}
	}
	// reachability witnesses
	if viol == nil {
		for _, h := range hs {
			for _, tag := range reachTags(h.Fn) {
				hit := false
				for _, r := range results {
					if r.Name == h.Name && r.Reached[tag] {
						hit = true
					}
				}
				if !hit {
					problems = append(problems, h.Name+": never reached "+tag)
				}
			}
		}
	}
	report(o, p, ms, results, viol, validated, mismatches, problems, t0, tLoad)
	for _, pr := range problems {
		fmt.Println("INCONCLUSIVE", pr)
	}
	if viol != nil {
		rdir := filepath.Join(o.verif, "replays")
		os.MkdirAll(rdir, 0o755)
		path := filepath.Join(rdir, fmt.Sprintf("%s-%s.json", o.prop, viol.Harness))
		b, _ := json.MarshalIndent(map[string]any{"property": o.prop, "harness": viol.Harness, "group": o.group, "values": viol.Vals, "schedule": viol.Sched, "inputs": describe(viol),
			"assertion": viol.Msg, "native": violRes, "replay": fmt.Sprintf("the values are the results of the vs.* calls of harness %s in order", viol.Harness)}, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("%s: %s\n   inputs: %s\n   native: %s %s %v\n", viol.Harness, viol.Msg, describe(viol), violRes.Status, violRes.Msg, violRes.Obs)
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, path)
		return 1
	}
	return 0
}

func describe(v *Violation) string {
	var sb strings.Builder
	var run []byte
	flush := func() {
		if len(run) > 0 {
			fmt.Fprintf(&sb, "%q ", run)
			run = nil
		}
	}
	for i, in := range v.Inputs {
		if in.Kind == "byte" {
			run = append(run, byte(v.Vals[i]))
			continue
		}
		flush()
		fmt.Fprintf(&sb, "%s=%d ", in.Kind, int64(v.Vals[i]))
	}
	flush()
	return strings.TrimSpace(sb.String())
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	return out
}

// reachTags lists the tags of vs.Reach calls in the harness (a constant argument).
func reachTags(f *ssa.Function) []string {
	var out []string
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] || f.Pkg == nil || !strings.Contains(f.Pkg.Pkg.Path(), "zzverif/") {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := c.Call.StaticCallee()
				if g == nil {
					continue
				}
				if g.Name() == "Reach" && g.Pkg != nil && strings.HasSuffix(g.Pkg.Pkg.Path(), "zzverif/vs") {
					if k, ok := c.Call.Args[0].(*ssa.Const); ok {
						s, _ := concStr(constVal(k))
						out = append(out, s)
					}
					continue
				}
				walk(g)
			}
		}
	}
	walk(f)
	return out
}

func report(o *options, p *Program, ms []*Machine, rs []*HarnessResult, viol *Violation, validated, mismatches int, problems []string, t0 time.Time, tLoad time.Duration) {
	if !o.evidence {
		return
	}
	var paths, forks, queries, unsat, sat, unknown, asserts, assertQ, dom, audits, steps int
	var st time.Duration
	complete := len(problems) == 0 && viol == nil
	var hs []any
	var samples []any
	for _, r := range rs {
		paths += r.Paths
		forks += r.Forks
		queries += r.Queries
		sat += r.Sat
		unsat += r.Unsat
		unknown += r.Unknown
		asserts += r.Asserts
		assertQ += r.AssertQueries
		dom += r.DomDecided
		audits += r.Audits
		steps += r.Steps
		st += r.SolverTime
		hs = append(hs, map[string]any{"harness": r.Name, "bound": r.Bound, "paths": r.Paths, "paths_outside_assumptions": r.AssumeEnd, "branches_forked": r.Forks,
			"assertions": r.Asserts, "assertions_decided_by_z3": r.AssertQueries, "z3_queries": r.Queries, "z3_sat": r.Sat, "z3_unsat": r.Unsat, "z3_unknown": r.Unknown,
			"z3_seconds": r.SolverTime.Seconds(), "complete": r.Complete, "wall_s": r.Wall.Seconds(), "reached": keys(r.Reached)})
		for i, s := range r.Samples {
			if i < 3 {
				samples = append(samples, map[string]any{"harness": r.Name, "inputs": describe(&Violation{Inputs: s.Inputs, Vals: s.Vals}), "observed": s.Obs})
			}
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	v := 0
	if viol != nil {
		v = 1
	}
	if problems == nil {
		problems = []string{}
	}
	writeEvidence(o, map[string]any{
		"property": o.prop, "tier": o.tier, "seed": o.seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": paths, "transitions": forks, "traces_validated_against_impl": validated - mismatches, "samples": samples,
			"exhaustive": complete, "rule": "states are execution paths of the harness through the real code, each standing for all values that satisfy its path condition; transitions are branches both of whose sides were satisfiable",
			"harnesses": hs, "functions_encoded": fnList(ms), "ssa_instructions_executed": steps,
			"z3_queries": queries, "z3_sat": sat, "z3_unsat": unsat, "z3_unknown": unknown, "z3_seconds": st.Seconds(),
			"assertions": asserts, "assertions_decided_by_z3": assertQ, "branches_decided_by_byte_domain": dom, "byte_domain_decisions_confirmed_by_z3": audits,
			"inconclusive": problems, "load_s": tLoad.Seconds(),
		},
		"assumptions": []string{"stubs: log output is dropped; fmt verbs, sync, sync/atomic, sort.Slice's reflection, encoding/json and internal/bytealg are modelled by the engine; sync.Pool is always empty",
			"append grows to twice the capacity; maps iterate in insertion order unless the harness makes the order symbolic"},
		"wall_s": time.Since(t0).Seconds(), "violations": v,
	})
}
