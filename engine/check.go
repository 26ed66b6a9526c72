package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// checkCfg is one entry of checks.json.
type checkCfg struct {
	Pkg         string   `json:"pkg"`
	Skip        []string `json:"skip"`
	QuickS      int      `json:"quick_s"`
	ThoroughS   int      `json:"thorough_s"`
	Assumptions []string `json:"assumptions"`
	Bounds      string   `json:"bounds"`
}

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Assert   string `json:"assert"` // exact assertion text identifying the failing input or call site
	What     string `json:"what"`
}

type kfFile struct {
	Findings []knownFinding `json:"findings"`
	Fixed    []string       `json:"fixed"`
}

type violation struct {
	Property string            `json:"property"`
	Pkg      string            `json:"pkg"`
	Harness  string            `json:"harness"`
	Kind     string            `json:"kind"`
	Assert   string            `json:"assert"`
	Vals     map[string]uint64 `json:"vals"`
	Detail   string            `json:"detail,omitempty"`
	Tier     string            `json:"tier"`
	Native   nativeRes         `json:"native"`
	Source   string            `json:"source"` // how it was found
}

var harnessRe = regexp.MustCompile(`(?m)^func (H_\w+)\(\)`)

func harnessList(pkg string) ([]string, error) {
	dir := filepath.Join(verifDir, "harness", pkg)
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	var out []string
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
		for _, mm := range harnessRe.FindAllStringSubmatch(string(b), -1) {
			out = append(out, mm[1])
		}
	}
	return out, nil
}

type hEvidence struct {
	Harness         string         `json:"harness"`
	Paths           int64          `json:"paths"`
	PathEnds        map[string]int `json:"path_ends"`
	OtherEnds       map[string]int `json:"other_ends,omitempty"`
	Forks           int            `json:"forks"`
	Steps           int64          `json:"ssa_instructions"`
	Queries         int            `json:"solver_queries"`
	Sat             int            `json:"sat"`
	Unsat           int            `json:"unsat"`
	Unknown         int            `json:"unknown"`
	SolverS         float64        `json:"solver_s"`
	WallS           float64        `json:"wall_s"`
	AssertsChecked  int            `json:"assertions_checked"`
	AssertsFolded   int            `json:"assertions_folded_true"`
	AssertsUnsat    int            `json:"assertions_discharged_by_solver"`
	AssertsUnknown  int            `json:"assertions_unknown"`
	ByAssert        map[string]int `json:"assertions"`
	Reached         map[string]int `json:"reach_points"`
	Complete        bool           `json:"all_paths_within_bounds_explored"`
	Truncated       string         `json:"truncated,omitempty"`
	Error           string         `json:"error,omitempty"`
	NativeRuns      int            `json:"witnesses_replayed_on_real_code"`
	NativeMismatch  int            `json:"witness_mismatches"`
	MismatchSamples []string       `json:"mismatch_samples,omitempty"`
	SpuriousCex     int            `json:"counterexamples_not_reproduced"`
	SpuriousDetail  []string       `json:"not_reproduced_detail,omitempty"`
	Symbolic        []string       `json:"symbolic_inputs"`
	samples         []any
}

func check(id, tier string) int {
	t0 := time.Now()
	out := func(f string, a ...any) { fmt.Printf(f+"\n", a...) }
	cfgs := map[string]*checkCfg{}
	b, err := os.ReadFile(filepath.Join(verifDir, "checks.json"))
	if err == nil {
		err = json.Unmarshal(b, &cfgs)
	}
	cfg := cfgs[id]
	if err != nil || cfg == nil {
		out("# no configuration for %s: %v", id, err)
		return 2
	}
	kf := kfFile{}
	if b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &kf); err != nil {
			out("# known_findings.json: %v", err)
			return 2
		}
	}
	budget := cfg.QuickS
	if tier == "thorough" {
		budget = cfg.ThoroughS
	}
	if budget == 0 {
		budget = 120
	}
	end := t0.Add(time.Duration(budget) * time.Second)
	hs, err := harnessList(cfg.Pkg)
	if err != nil {
		out("# %v", err)
		return 2
	}
	evDir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(evDir, 0o755)
	replayF := filepath.Join(evDir, "replay_"+id+".json")
	os.Remove(replayF)

	var notes []string
	var evs []*hEvidence
	var viols []violation
	known := map[string]bool{}
	fns := map[string]string{}
	poisoned := map[string]bool{}

	var nat *NatRun
	var natErr error
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); nat, natErr = buildNative(cfg.Pkg, tier) }()
	P, sp, lerr := load(cfg.Pkg)
	loadS := time.Since(t0).Seconds()
	wg.Wait()
	defer func() { nat.close() }()
	if lerr != nil {
		notes = append(notes, "the code could not be loaded for encoding: "+lerr.Error())
	}
	if natErr != nil {
		notes = append(notes, "the harness does not build against this tree: "+natErr.Error())
	}
	if lerr == nil && natErr == nil {
		for i, h := range hs {
			left := time.Until(end)
			if left < 2*time.Second {
				notes = append(notes, "time budget used up before "+h)
				break
			}
			// more than an equal share: most need less
			share := left
			if n := len(hs) - i; n > 1 {
				share = left * 3 / time.Duration(2*n)
			}
			// leave room for replaying witnesses
			ev, vs := runHarness(P, sp, nat, cfg, id, h, tier, share, end, kf, known, fns, poisoned)
			evs = append(evs, ev)
			viols = append(viols, vs...)
			out("# %s: paths=%d ends=%v queries=%d unsat=%d solver=%.1fs asserts=%d (folded %d, unsat %d, unknown %d) native=%d mismatch=%d spurious=%d wall=%.1fs %s%s",
				h, ev.Paths, ev.PathEnds, ev.Queries, ev.Unsat, ev.SolverS, ev.AssertsChecked, ev.AssertsFolded, ev.AssertsUnsat, ev.AssertsUnknown,
				ev.NativeRuns, ev.NativeMismatch, ev.SpuriousCex, ev.WallS, ev.Truncated, ev.Error)
			for k, n := range ev.OtherEnds {
				out("#    %d× %s", n, k)
			}
			for _, k := range append(ev.MismatchSamples, ev.SpuriousDetail...) {
				out("#    %s", k)
			}
		}
	}
	for _, n := range notes {
		out("# %s", n)
	}
	for k := range known {
		out("KNOWN-FINDING: property=%s %s", id, k)
	}
	for i, v := range viols {
		if i == 0 {
			j, _ := json.MarshalIndent(viols, "", " ")
			os.WriteFile(replayF, j, 0o644)
		}
		out("# violation: %s %s: %q vals=%v %s native=%v %v", v.Harness, v.Kind, v.Assert, v.Vals, v.Detail, v.Native.Fails, v.Native.Obs)
	}
	writeEvidence(id, tier, cfg, evs, viols, notes, fns, poisoned, known, loadS, time.Since(t0).Seconds())
	if len(viols) > 0 {
		out("VIOLATION property=%s replay=%s", id, replayF)
		return 1
	}
	return 0
}

func runHarness(P *Prog, sp sspkg, nat *NatRun, cfg *checkCfg, id, h, tier string, share time.Duration, end time.Time, kf kfFile, known map[string]bool, fns map[string]string, poisoned map[string]bool) (ev *hEvidence, viols []violation) {
	t0 := time.Now()
	workers := 8
	if w, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil && w > 0 {
		workers = w
	}
	exShare := share * 3 / 4
	ex := newExplorer(P, sp, h, tier, workers, exShare, 200000)
	ev = &hEvidence{Harness: h}
	if ex == nil {
		ev.Error = "harness not found"
		return
	}
	if err := ex.run(); err != nil {
		ev.Error = err.Error()
	}
	ev.Paths, ev.PathEnds, ev.Forks, ev.Steps = ex.npaths.Load(), ex.endKinds, ex.forks, ex.steps
	ev.OtherEnds = ex.endMsgs
	ev.Queries, ev.Sat, ev.Unsat, ev.Unknown, ev.SolverS = ex.queries, ex.sat, ex.unsat, ex.unk, ex.solverDur.Seconds()
	ev.AssertsChecked, ev.AssertsFolded, ev.AssertsUnsat, ev.AssertsUnknown = ex.asserts.checked, ex.asserts.trivially, ex.asserts.discharged, ex.asserts.unknown
	ev.ByAssert = ex.asserts.byMsg
	ev.Truncated = ex.truncated
	ev.Reached = map[string]int{}
	syms := map[string]bool{}
	for _, r := range ex.results {
		for _, l := range r.Reached {
			ev.Reached[l]++
		}
		for k := range r.Vals {
			syms[k] = true
		}
	}
	ev.Symbolic = sortedKeys(syms)
	ev.Complete = ev.Error == "" && ev.Truncated == "" && ev.AssertsUnknown == 0 && ex.unknowns.Load() == 0
	for k := range ex.endKinds {
		if k != "done" && k != "panic" && k != "deadlock" && k != "assume" {
			ev.Complete = false
		}
	}
	for f, p := range ex.fns {
		fns[f] = p
	}
	for p := range ex.poisoned {
		poisoned[p] = true
	}
	match := func(assert string) *knownFinding {
		for i := range kf.Findings {
			k := &kf.Findings[i]
			if k.Property == id && k.Harness == h && k.Assert == assert {
				return k
			}
		}
		return nil
	}
	has := func(r nativeRes, msg string) bool {
		for _, f := range r.Fails {
			if f == msg {
				return true
			}
		}
		return false
	}
	replayOne := func(vals map[string]uint64) nativeRes {
		rs, err := nat.run([]nativeJob{{h, vals}}, time.Now().Add(100*time.Second))
		if err != nil || len(rs) == 0 || !rs[0].done {
			return nativeRes{Bad: fmt.Sprint("replay failed: ", err)}
		}
		return rs[0]
	}
	reported := map[string]bool{}
	report := func(kind, msg, detail, source string, vals map[string]uint64, r nativeRes) {
		if k := match(msg); k != nil {
			known[k.What] = true
			return
		}
		if reported[msg] {
			return
		}
		reported[msg] = true
		viols = append(viols, violation{Property: id, Pkg: cfg.Pkg, Harness: h, Kind: kind, Assert: msg, Vals: vals, Detail: detail, Tier: tier, Native: r, Source: source})
	}
	// counterexamples: replay each on the real code, in a fresh process
	hangs := 0
	for _, c := range ex.cexs {
		if reported[c.Msg] || (c.Kind == "deadlock" && hangs > 2) {
			continue
		}
		r := replayOne(c.Vals)
		if c.Kind == "deadlock" {
			hangs++
		}
		ev.NativeRuns++
		switch {
		case c.Kind == "assert" && has(r, c.Msg),
			c.Kind == "panic" && (has(r, "panic") || r.Crash != ""),
			c.Kind == "deadlock" && r.Hang:
			report(c.Kind, c.Msg, c.Detail, "solver counterexample, reproduced on the real code", c.Vals, r)
		case len(r.Fails) > 0:
			// a different assertion fails on the real code for these values
			report("assert", r.Fails[0], c.Detail, "solver counterexample ("+c.Msg+"), reproduced on the real code", c.Vals, r)
		default:
			ev.SpuriousCex++
			if len(ev.SpuriousDetail) < 4 {
				ev.SpuriousDetail = append(ev.SpuriousDetail, fmt.Sprintf("not reproduced: %s %q vals=%v %s native=%+v", c.Kind, c.Msg, c.Vals, c.Detail, r))
			}
		}
	}
	// witnesses: the encoding's prediction for each path must match the real code
	var jobs []nativeJob
	var idx []int
	maxW := 300
	if tier == "thorough" {
		maxW = 1500
	}
	step := 1
	if n := len(ex.results); n > maxW {
		step = (n + maxW - 1) / maxW
	}
	for i := 0; i < len(ex.results); i += step {
		r := ex.results[i]
		if r.Vals == nil || r.Kind == "deadlock" || r.Kind == "panic" {
			continue
		}
		jobs = append(jobs, nativeJob{h, r.Vals})
		idx = append(idx, i)
	}
	natEnd := t0.Add(share)
	if m := time.Now().Add(5 * time.Second); natEnd.Before(m) {
		natEnd = m
	}
	rs := nat.runParallel(jobs, natEnd, workers)
	for j, r := range rs {
		if !r.done {
			continue
		}
		ev.NativeRuns++
		p := ex.results[idx[j]]
		if r.Bad != "" {
			continue
		}
		for _, f := range r.Fails {
			if reported[f] {
				continue
			}
			r2 := replayOne(p.Vals)
			if has(r2, f) {
				report("assert", f, p.Kind+" "+p.Msg, "path witness from the solver fails on the real code", p.Vals, r2)
			}
		}
		if r.Hang && !reported["deadlock"] {
			if r2 := replayOne(p.Vals); r2.Hang {
				report("deadlock", "deadlock", "hang", "path witness from the solver hangs on the real code", p.Vals, r2)
			}
		}
		if p.Kind == "done" && (strings.Join(p.Obs, "\x00") != strings.Join(r.Obs, "\x00") || strings.Join(p.Reached, "\x00") != strings.Join(r.Reached, "\x00")) {
			ev.NativeMismatch++
			if len(ev.MismatchSamples) < 3 {
				ev.MismatchSamples = append(ev.MismatchSamples, fmt.Sprintf("encoding predicted %q %q, real code %q %q for %v", p.Obs, p.Reached, r.Obs, r.Reached, p.Vals))
			}
		}
	}
	if ev.NativeMismatch > 0 || ev.SpuriousCex > 0 {
		ev.Complete = false
	}
	for i, r := range ex.results {
		if i < 3 {
			ev.samples = append(ev.samples, map[string]any{"harness": h, "inputs": r.Vals, "end": r.Kind, "observed": r.Obs, "reached": r.Reached})
		}
	}
	ev.WallS = time.Since(t0).Seconds()
	return
}

func (n *NatRun) runParallel(jobs []nativeJob, deadline time.Time, w int) []nativeRes {
	res := make([]nativeRes, len(jobs))
	var wg sync.WaitGroup
	if w > len(jobs) {
		w = len(jobs)
	}
	for k := 0; k < w; k++ {
		lo, hi := k*len(jobs)/w, (k+1)*len(jobs)/w
		wg.Add(1)
		go func() {
			defer wg.Done()
			r, _ := n.run(jobs[lo:hi], deadline)
			copy(res[lo:hi], r)
		}()
	}
	wg.Wait()
	return res
}

func writeEvidence(id, tier string, cfg *checkCfg, evs []*hEvidence, viols []violation, notes []string, fns map[string]string, poisoned map[string]bool, known map[string]bool, loadS, wall float64) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var themaFns []string
	other := 0
	for f, p := range fns {
		if strings.HasPrefix(p, modPath) && !strings.Contains(p, "zz_verif") {
			themaFns = append(themaFns, f)
		} else {
			other++
		}
	}
	sort.Strings(themaFns)
	var paths, steps, native int64
	queries, unsat := 0, 0
	solver := 0.0
	complete := len(notes) == 0 && len(evs) > 0
	var samples []any
	for _, e := range evs {
		paths += e.Paths
		steps += e.Steps
		native += int64(e.NativeRuns)
		queries += e.Queries
		unsat += e.Unsat
		solver += e.SolverS
		complete = complete && e.Complete
		samples = append(samples, e.samples...)
	}
	if samples == nil {
		samples = []any{"no path was explored"}
	}
	cov := map[string]any{
		"states":                        paths,
		"transitions":                   steps,
		"traces_validated_against_impl": native,
		"samples":                       samples,
		"exhaustive":                    complete,
		"explanation": "Symbolic execution of the Go SSA of the harness, grafana/thema, the CUE library and the standard library, rebuilt from /repo on this run. " +
			"states: symbolic paths completed; transitions: SSA instructions interpreted; traces_validated_against_impl: solver models replayed on the natively compiled code. Bounds: " + cfg.Bounds,
		"bounds":                  cfg.Bounds,
		"solver":                  "z3 (incremental, QF_BV)",
		"solver_queries":          queries,
		"solver_unsat":            unsat,
		"solver_s":                solver,
		"encode_s":                loadS,
		"harnesses":               evs,
		"thema_functions_encoded": themaFns,
		"library_functions_encoded": other,
		"environment_stubs_read":  sortedKeys(poisoned),
		"notes":                   notes,
		"known_findings":          sortedKeys(known),
		"violations":              viols,
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "wall_s": wall, "violations": len(viols),
		"assumptions": append([]string{
			"the file system holds no files beyond those embedded in the modules; the environment is empty; one goroutine at a time",
			"integer literals handed to CUE through the harness stand for bounded symbolic integers; word-level summaries of math/big and apd apply only to symbolic operands",
		}, cfg.Assumptions...),
	}
	j, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), j, 0o644)
}

// replayCmd re-runs the counterexamples of a replay file on the real code.
func replayCmd(f string) int {
	b, err := os.ReadFile(f)
	var vs []violation
	if err == nil {
		err = json.Unmarshal(b, &vs)
	}
	if err != nil {
		fmt.Println(err)
		return 2
	}
	rc := 0
	for _, v := range vs {
		n, err := buildNative(v.Pkg, v.Tier)
		if err != nil {
			fmt.Println(err)
			return 2
		}
		r, err := n.run([]nativeJob{{v.Harness, v.Vals}}, time.Now().Add(2*time.Minute))
		n.close()
		fmt.Printf("%s %s %v: %+v %v\n", v.Harness, v.Assert, v.Vals, r, err)
		if len(r) > 0 && (len(r[0].Fails) > 0 || r[0].Hang) {
			rc = 1
		}
	}
	return rc
}
