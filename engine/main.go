package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var buildDir string

type propConf struct {
	Quick    int      `json:"quick_s"`
	Thorough int      `json:"thorough_s"`
	Bounds   string   `json:"bounds"`
	Outside  string   `json:"outside"`
	Covers   []string `json:"covers"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: vfcheck check|replay|list ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("property", "", "property id")
	tier := fs.String("tier", "quick", "quick or thorough")
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "verification directory")
	only := fs.String("harness", "", "substring of harness names to run")
	budget := fs.Int("budget", 0, "exploration seconds (overrides the configuration)")
	workers := fs.Int("workers", 8, "parallel workers")
	verbose := fs.Bool("v", false, "verbose")
	noReplay := fs.Bool("noreplay", false, "skip native replay")
	dinit := fs.Bool("debuginit", false, "print what package initialisers could not run")
	fs.Parse(os.Args[2:])
	debugInit = *dinit
	if os.Getenv("VF_FORKS") != "" {
		forkStats = map[string]int{}
	}
	debug.SetMemoryLimit(20 << 30)
	debug.SetGCPercent(200)
	buildDir = filepath.Join(*verif, "build")
	os.MkdirAll(buildDir, 0o755)
	for _, f := range []string{"mod", "sum"} {
		b, err := os.ReadFile(filepath.Join(*repo, "go."+f))
		if err != nil {
			fmt.Println("error:", err)
			os.Exit(2)
		}
		dst := filepath.Join(buildDir, "repo."+f)
		if old, err := os.ReadFile(dst); err != nil || string(old) != string(b) || f == "sum" {
			if err := os.WriteFile(dst, b, 0o644); err != nil {
				fmt.Println("error:", err)
				os.Exit(2)
			}
		}
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(*repo, *verif, *prop, *tier, *only, *budget, *workers, *verbose, *noReplay))
	case "replay":
		os.Exit(replayFile(*repo, *verif, fs.Arg(0)))
	}
	os.Exit(2)
}

type saved struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Kind     string            `json:"kind"`
	Msg      string            `json:"message"`
	Stack    string            `json:"stack"`
	Tier     int               `json:"tier"`
	Model    map[string]uint64 `json:"model"`
	Native   *Outcome          `json:"native"`
}

func replayFile(repo, verif, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var s saved
	if err := json.Unmarshal(b, &s); err != nil {
		fmt.Println(err)
		return 2
	}
	L, err := Load(repo, filepath.Join(verif, "harness"), map[string]bool{})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	r := NewReplayer(L, repo, filepath.Join(buildDir, "replay"), []string{s.Harness})
	outs, err := r.Run(L.harnPkg[s.Harness], []replayCase{{s.Harness, s.Model}}, s.Tier, 200)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	o, _ := json.MarshalIndent(outs[0], "", " ")
	fmt.Println(string(o))
	if len(outs[0].Asserts) > 0 || outs[0].Panic != "" || outs[0].Crash != "" {
		return 1
	}
	return 0
}

type finding struct{ prop, harness, msg, what string }

// knownFindings reads lines "finding: property=P harness=H msg=<prefix> :: <what fails>".
func knownFindings(verif string) []finding {
	b, _ := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	var r []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		l = strings.TrimSpace(strings.TrimPrefix(l, "finding:"))
		what := ""
		if i := strings.Index(l, " :: "); i >= 0 {
			l, what = l[:i], l[i+4:]
		}
		var f finding
		f.what = what
		if i := strings.Index(l, " msg="); i >= 0 {
			f.msg = l[i+5:]
			l = l[:i]
		}
		for _, w := range strings.Fields(l) {
			if v, ok := strings.CutPrefix(w, "property="); ok {
				f.prop = v
			}
			if v, ok := strings.CutPrefix(w, "harness="); ok {
				f.harness = v
			}
		}
		if f.prop != "" && f.msg != "" {
			r = append(r, f)
		}
	}
	return r
}

func check(repo, verif, prop, tierName, only string, budgetS, workers int, verbose, noReplay bool) int {
	t0 := time.Now()
	tier := 0
	if tierName == "thorough" {
		tier = 1
	}
	seed := int64(1)
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	confs := map[string]propConf{}
	if b, err := os.ReadFile(filepath.Join(verif, "harness", "config.json")); err == nil {
		if err := json.Unmarshal(b, &confs); err != nil {
			fmt.Println("error: harness/config.json:", err)
			return 2
		}
	}
	conf := confs[prop]
	if conf.Quick == 0 {
		conf.Quick = 30
	}
	if conf.Thorough == 0 {
		conf.Thorough = 600
	}
	sec := conf.Quick
	if tier == 1 {
		sec = conf.Thorough
	}
	if budgetS > 0 {
		sec = budgetS
	}
	L, err := Load(repo, filepath.Join(verif, "harness"), map[string]bool{})
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	for _, d := range L.dropped {
		fmt.Println("note: harness file does not compile against this tree and is skipped:", d)
	}
	loadS := time.Since(t0).Seconds()
	var names []string
	for n := range L.harness {
		if strings.HasPrefix(n, "VF_"+prop+"_") && (only == "" || strings.Contains(n, only)) {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		fmt.Println("note: no harness of property", prop, "applies to this tree")
	}
	var rep *Replayer
	if !noReplay && len(names) > 0 {
		rep = NewReplayer(L, repo, filepath.Join(buildDir, "replay"), names)
	}
	x := NewExplorer(L, names, tier, seed)
	known := knownFindings(verif)
	// Counterexamples are replayed while the exploration goes on; in the quick tier it ends
	// once one is confirmed.
	outcomes := map[*Violation]*replayed{}
	var outMu sync.Mutex
	replayOf := func(v *Violation) *replayed {
		outMu.Lock()
		defer outMu.Unlock()
		if r := outcomes[v]; r != nil {
			return r
		}
		cs := []replayCase{{v.Harness, nonzero(v.Model)}}
		limit := 100
		if v.Kind == "hang" {
			limit = 20
		}
		outs, err := rep.run(L.harnPkg[v.Harness], cs, tier, 0, limit)
		if v.Kind != "hang" && err == nil && len(outs) == 1 && !outs[0].fails() && outs[0].Assume == "" {
			// map iteration order is the only nondeterminism left
			outs, err = rep.Run(L.harnPkg[v.Harness], cs, tier, 100)
		}
		r := &replayed{err: err}
		if err == nil && len(outs) == 1 {
			r.o = outs[0]
		}
		outcomes[v] = r
		return r
	}
	early := make(chan *Violation, 1000)
	earlyDone := make(chan struct{})
	go func() {
		defer close(earlyDone)
		for v := range early {
			if stopNow.Load() {
				continue
			}
			if r := replayOf(v); r.o != nil && r.o.fails() && !isKnown(known, prop, v) {
				stopNow.Store(true)
				x.cond.Broadcast()
			}
		}
	}()
	x.onCand = func(v *Violation) {
		if rep != nil && tier == 0 && os.Getenv("VF_ALL") == "" {
			select {
			case early <- v:
			default:
			}
		}
		if verbose {
			fmt.Printf("candidate %s %s %q %v\n   %s\n", v.Harness, v.Kind, v.Msg, nonzero(v.Model), v.Stack)
		}
	}
	tx := time.Now()
	x.Run(workers, time.Duration(sec)*time.Second)
	exploreS := time.Since(tx).Seconds()
	close(early)
	<-earlyDone

	knownHit := map[string]bool{}
	viol := 0
	spurious := []string{}
	validated, mismatched := 0, []string{}
	samples := []any{}
	repDir := filepath.Join(verif, "replays", prop)
	os.RemoveAll(repDir)
	report := func(v *Violation, o *Outcome) {
		for _, k := range known {
			if k.prop == prop && (k.harness == "" || k.harness == v.Harness) && matchKnown(k.msg, v, o) {
				if !knownHit[k.msg] {
					knownHit[k.msg] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.what)
				}
				return
			}
		}
		viol++
		os.MkdirAll(repDir, 0o755)
		p := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", v.Harness, viol))
		b, _ := json.MarshalIndent(saved{prop, v.Harness, v.Kind, v.Msg, v.Stack, tier, nonzero(v.Model), o}, "", " ")
		os.WriteFile(p, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		fmt.Printf("  %s: %s: %s\n", v.Harness, v.Kind, clip(v.Msg, 300))
		if o.Panic != "" {
			fmt.Printf("  native run: panic: %s\n", clip(o.Panic, 300))
		} else if len(o.Asserts) > 0 {
			fmt.Printf("  native run fails: %s\n", o.Asserts[0])
		}
	}
	if rep != nil {
		ncand := 0
		for _, h := range x.hs {
			for _, v := range h.cands {
				ncand++
				if ncand > 40 || viol >= 10 {
					break
				}
				if stopNow.Load() && outcomes[v] == nil {
					continue
				}
				r := replayOf(v)
				if r.o == nil {
					spurious = append(spurious, fmt.Sprintf("%s %s %q: replay: %v", v.Harness, v.Kind, v.Msg, r.err))
					continue
				}
				if !r.o.fails() {
					spurious = append(spurious, fmt.Sprintf("%s %s %q: not reproduced natively %s %v", v.Harness, v.Kind, v.Msg, r.o.Assume, nonzero(v.Model)))
					continue
				}
				report(v, r.o)
			}
		}
		// sampled paths are compared with native runs
		byPkg := map[string][]trace{}
		for _, h := range x.hs {
			byPkg[L.harnPkg[h.name]] = append(byPkg[L.harnPkg[h.name]], h.traces...)
		}
		for pkg, ts := range byPkg {
			var cs []replayCase
			for _, t := range ts {
				cs = append(cs, replayCase{t.Harness, t.Model})
			}
			outs, err := rep.Run(pkg, cs, tier, 0)
			if err != nil {
				// one of them takes the process down: run them one by one
				outs = nil
				for _, c := range cs {
					o, e2 := rep.Run(pkg, []replayCase{c}, tier, 0)
					if e2 != nil {
						mismatched = append(mismatched, "replay: "+e2.Error())
						break
					}
					outs = append(outs, o...)
				}
				if len(outs) != len(cs) {
					continue
				}
			}
			for i, o := range outs {
				t := ts[i]
				switch {
				case len(o.Asserts) > 0 || o.Panic != "" || o.Crash != "":
					msg := o.Panic + o.Crash
					kind := "panic"
					if len(o.Asserts) > 0 {
						msg, kind = o.Asserts[0], "assert"
					}
					mismatched = append(mismatched, fmt.Sprintf("%s: native run fails where the symbolic run passed: %s %v", t.Harness, clip(msg, 600), t.Model))
					report(&Violation{Harness: t.Harness, Msg: msg, Kind: kind, Model: t.Model, Stack: "sampled path"}, o)
				case o.Assume != "":
					mismatched = append(mismatched, fmt.Sprintf("%s: assumption fails natively %v", t.Harness, t.Model))
				case strings.Join(o.Obs, ";") != strings.Join(t.Obs, ";"):
					mismatched = append(mismatched, fmt.Sprintf("%s: observed %v natively %v model %v", t.Harness, t.Obs, o.Obs, t.Model))
				default:
					validated++
				}
				if len(samples) < 6 && i%7 == 0 {
					samples = append(samples, map[string]any{"harness": t.Harness, "inputs": clipModel(t.Model), "observed": t.Obs})
				}
			}
		}
	}

	printForks()
	// evidence
	var paths, complete, infeas, steps, branches, asserts, merges int64
	hrep := []any{}
	exhaustive := len(x.hs) > 0
	for _, h := range x.hs {
		paths += h.paths
		complete += h.complete
		infeas += h.infeas
		steps += h.steps
		branches += h.branches
		asserts += h.asserts
		merges += h.merges
		if h.stopped != "" || len(h.unsup) > 0 {
			exhaustive = false
		}
		covers := []string{}
		for c := range h.covers {
			covers = append(covers, c)
		}
		sort.Strings(covers)
		hrep = append(hrep, map[string]any{"harness": h.name, "package": L.harnPkg[h.name], "paths_completed": h.complete, "paths_infeasible": h.infeas,
			"branch_decisions": h.branches, "merged_regions": h.merges, "assertions_decided": h.asserts, "ssa_instructions": h.steps, "seconds": round2(h.used.Seconds()),
			"exhausted": h.stopped == "", "stopped": h.stopped, "not_explored": h.unsup, "covered": covers, "max_decisions": h.maxDepth})
		if verbose {
			fmt.Printf("%-40s paths %d complete %d infeasible %d branches %d asserts %d merges %d steps %d depth %d %.1fs cands %d %s\n", h.name, h.paths, h.complete, h.infeas, h.branches, h.asserts, h.merges, h.steps, h.maxDepth, h.used.Seconds(), len(h.cands), h.stopped)
			for u, n := range h.unsup {
				fmt.Printf("    %d x %s\n", n, u)
			}
			fmt.Printf("    covers %v\n", covers)
		}
	}
	if len(samples) == 0 {
		for _, h := range x.hs {
			for _, t := range h.traces {
				if len(samples) < 6 {
					samples = append(samples, map[string]any{"harness": t.Harness, "inputs": clipModel(t.Model), "observed": t.Obs})
				}
			}
		}
	}
	fns := []string{}
	for f := range x.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	ev := map[string]any{
		"property": prop, "tier": tierName, "seed": seed, "level": "model_checking", "wall_s": round2(time.Since(t0).Seconds()), "violations": viol,
		"assumptions": []string{
			"hash functions are ideal (injective on the inputs compared), computed for real on concrete data",
			"signatures verify exactly for the key, scheme and digest they were made for; concrete signatures are verified for real",
			"CRC-32 of archive members is not modelled (members carry CRC 0, which archive/zip does not check)",
			"goroutines run to completion in creation order",
		},
		"coverage": map[string]any{
			"states": complete, "transitions": branches, "traces_validated_against_impl": validated, "samples": samples,
			"exhaustive": exhaustive, "paths_started": paths, "paths_infeasible": infeas, "ssa_instructions": steps, "regions_merged": merges,
			"assertions_decided": asserts, "queries_discharged": atomic.LoadInt64(&statQueries), "queries_sat": atomic.LoadInt64(&statSat),
			"queries_unsat": atomic.LoadInt64(&statUnsat), "queries_unknown": atomic.LoadInt64(&statUnknown),
			"solver": solverBin, "solver_time_s": round2(float64(atomic.LoadInt64(&statSolverNs)) / 1e9), "load_s": round2(loadS), "explore_s": round2(exploreS),
			"bounds": conf.Bounds, "outside_bounds": conf.Outside, "functions_encoded": fns, "harnesses": hrep,
			"unreproduced_counterexamples": spurious, "trace_mismatches": mismatched, "dropped_harness_files": L.dropped,
			"meaning": "states = symbolic paths run to completion (each stands for all inputs satisfying its path condition); transitions = symbolic branch decisions taken; assertions are decided by the solver for all values on each path",
		},
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("error:", err)
		return 2
	}
	fmt.Printf("%s %s: %d paths, %d branch decisions, %d assertions, %d queries (%.1fs solver), %d traces validated, %d mismatches, %d unreproduced, exhaustive=%v, load %.1fs explore %.1fs total %.1fs\n",
		prop, tierName, complete, branches, asserts, statQueries, float64(statSolverNs)/1e9, validated, len(mismatched), len(spurious), exhaustive, loadS, exploreS, time.Since(t0).Seconds())
	for _, s := range spurious {
		fmt.Println("note: unreproduced:", clip(s, 600))
	}
	for _, s := range mismatched {
		fmt.Println("note: trace mismatch:", clip(s, 600))
	}
	if viol > 0 {
		return 1
	}
	return 0
}

type replayed struct {
	o   *Outcome
	err error
}

func (o *Outcome) fails() bool { return len(o.Asserts) > 0 || o.Panic != "" || o.Crash != "" }

func isKnown(known []finding, prop string, v *Violation) bool {
	for _, k := range known {
		if k.prop == prop && (k.harness == "" || k.harness == v.Harness) && matchKnown(k.msg, v, nil) {
			return true
		}
	}
	return false
}

func matchKnown(pat string, v *Violation, o *Outcome) bool {
	if strings.Contains(v.Msg, pat) || strings.Contains(v.Stack, pat) {
		return true
	}
	return false
}

func clipModel(m map[string]uint64) map[string]uint64 {
	if len(m) <= 40 {
		return m
	}
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	r := map[string]uint64{}
	for _, k := range ks[:40] {
		r[k] = m[k]
	}
	return r
}

func round2(f float64) float64 { return float64(int64(f*100)) / 100 }
