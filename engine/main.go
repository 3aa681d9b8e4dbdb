package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	What     string `json:"what"`
}

func loadKnown(id string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	var ks []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || !strings.HasPrefix(l, "{") {
			continue
		}
		var k knownFinding
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			fatal("known_findings.jsonl: %v", err)
		}
		if k.Property == id && k.Label != "" {
			ks = append(ks, k)
		}
	}
	return ks
}

func fatal(f string, a ...any) {
	fmt.Printf("ENGINE-ERROR: "+f+"\n", a...)
	cleanup()
	os.Exit(2)
}

func cleanup() {
	if scratch != "" && strings.HasPrefix(scratch, os.TempDir()) {
		os.RemoveAll(scratch)
	}
}

func main() {
	debug.SetGCPercent(400)
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verifDir = v
	}
	if v := os.Getenv("VERIF_REPO"); v != "" {
		repoDir = v
	}
	var err error
	scratch, err = os.MkdirTemp("", "zzverif-")
	if err != nil {
		fatal("%v", err)
	}
	args := os.Args[1:]
	if len(args) == 1 && args[0] == "ids" {
		cleanup()
		fmt.Println(strings.Join(checkIDs(), "\n"))
		return
	}
	if len(args) < 2 {
		fmt.Println("usage: engine check Cxx | run HARNESS [k=v...] | replay FILE")
		os.Exit(2)
	}
	code := 2
	switch args[0] {
	case "check":
		code = cmdCheck(args[1])
	case "run":
		code = cmdRun(args[1:])
	case "replay":
		code = cmdReplay(args[1])
	}
	cleanup()
	os.Exit(code)
}

func (e *Engine) solverSetup() {
	if v := os.Getenv("VERIF_SOLVER"); v != "" {
		defaultSolver = v
	}
}

var defaultSolver string

func seedOf() uint64 {
	n, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	return n
}

// cmdRun explores one harness and prints statistics (development aid).
func cmdRun(args []string) int {
	e, err := loadEngine()
	if err != nil {
		fatal("%v", err)
	}
	cfg := &RunCfg{Name: "cli", Harness: args[0], Params: map[string]int{}, Env: map[string]string{}, Procs: 8, HashMask: 7 << 61}
	sec := 60.0
	nat := &native{want: map[string]bool{args[0]: true}}
	for _, a := range args[1:] {
		kv := strings.SplitN(a, "=", 2)
		if kv[0] == "workers" {
			e.workers, _ = strconv.Atoi(kv[1])
			continue
		}
		if kv[0] == "sec" {
			sec, _ = strconv.ParseFloat(kv[1], 64)
			continue
		}
		if err := cfg.set(kv[0], kv[1]); err != nil {
			fatal("%s: %v", a, err)
		}
	}
	cfg.Sec = sec
	ck := &checkRun{e: e, nat: nat, id: "cli"}
	r, err := ck.one(cfg)
	if err != nil {
		fatal("%v", err)
	}
	printRun(r)
	for _, v := range r.Violations {
		rep, err := nat.reproduce(v)
		fmt.Printf("violation %s: %s\n  native: %q %v\n", v.Kind, v.Msg, rep, err)
		b, _ := json.Marshal(v.Case)
		fmt.Printf("  case %s\n", b)
		fmt.Printf("  labels %v\n  obs %v\n", v.Case.Labels, v.Case.obs)
	}
	ck.validate(r)
	fmt.Printf("validated %d traces, mismatches %v\n", ck.validated, ck.mismatches)
	return 0
}

func printRun(r *Run) {
	fmt.Printf("  %-34s paths=%d pruned=%d branches=%d asserts=%d/%dq queries=%d (sat %d unsat %d unknown %d guessed %d) solver=%.1fs wall=%.1fs", r.cfg.Name,
		r.Paths, r.Pruned, r.Nodes, r.Asserts, r.AssertQ, r.Queries, r.Sat, r.Unsat, r.Unknown, r.Guess, r.SolverDur.Seconds(), r.Wall.Seconds())
	if r.Truncated {
		fmt.Printf(" TRUNCATED(pending %d)", r.pending)
	}
	fmt.Println()
	var us []string
	for u, n := range r.Unsupported {
		us = append(us, fmt.Sprintf("    not decided on %d paths: %s", n, u))
	}
	sort.Strings(us)
	for _, u := range us {
		fmt.Println(u)
	}
}

func cmdReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil {
		fatal("%v", err)
	}
	nat := &native{want: map[string]bool{f.Case.Harness: true}}
	v := &Violation{Kind: f.Kind, Msg: f.Msg, Case: f.Case, Cfg: f.Cfg}
	rep, err := nat.reproduce(v)
	if err != nil {
		fatal("%v", err)
	}
	if rep == "" {
		fmt.Println("not reproduced: the real code passes the harness on this input")
		return 0
	}
	fmt.Println("reproduced:", rep)
	return 1
}

type replayFile struct {
	Property string  `json:"property"`
	Kind     string  `json:"kind"`
	Msg      string  `json:"msg"`
	Native   string  `json:"native"`
	Cfg      *RunCfg `json:"cfg"`
	Case     *Case   `json:"case"`
}

type checkRun struct {
	e          *Engine
	nat        *native
	id         string
	runs       []*Run
	validated  int
	mismatches []string
	nativeFail *Violation
	nativeMsg  string
	known      []knownFinding
}

func (ck *checkRun) one(cfg *RunCfg) (*Run, error) {
	if cfg.Procs == 0 {
		cfg.Procs = 8
	}
	if cfg.Solver == "" {
		cfg.Solver = defaultSolver
	}
	if cfg.Sec == 0 {
		cfg.Sec = 60
	}
	r := &Run{cfg: cfg, deadline: time.Now().Add(time.Duration(cfg.Sec * float64(time.Second))), sampleCap: 6, rng: seedOf()*2654435761 + 12345}
	r.known = func(v *Violation) string {
		for _, k := range ck.known {
			if k.Harness == v.Cfg.Harness && k.Label == v.Msg {
				return k.Label
			}
		}
		return ""
	}
	if err := ck.e.explore(r); err != nil {
		return nil, err
	}
	ck.runs = append(ck.runs, r)
	return r, nil
}

// validate replays sampled path models natively and compares observations.
func (ck *checkRun) validate(r *Run) {
	if len(r.Samples) == 0 {
		return
	}
	res, crash, err := ck.nat.exec(r.Samples, r.cfg, false, 1, 60*time.Second)
	if err != nil {
		ck.mismatches = append(ck.mismatches, err.Error())
		return
	}
	for i, c := range r.Samples {
		if i >= len(res) {
			if crash == "timeout" {
				ck.mismatches = append(ck.mismatches, r.cfg.Name+": native timeout")
				return
			}
			ck.nativeFail = &Violation{Kind: "native", Msg: "native run of a path the encoding accepts ended with " + crash, Case: c, Cfg: r.cfg}
			ck.nativeMsg = crash
			return
		}
		switch {
		case res[i].Fail != "" || res[i].Panic != "":
			known := false
			for _, k := range ck.known {
				if k.Harness == r.cfg.Harness && k.Label == res[i].Fail {
					known = true
				}
			}
			if !known {
				ck.nativeFail = &Violation{Kind: "native", Msg: "native run disagrees with the encoding: " + res[i].Fail + res[i].Panic, Case: c, Cfg: r.cfg}
				ck.nativeMsg = res[i].Fail + res[i].Panic
				return
			}
		case res[i].Assumed:
			ck.mismatches = append(ck.mismatches, r.cfg.Name+": assumption fails natively")
		default:
			if d := sameObs(c.obs, res[i].Obs); d != "" {
				b, _ := json.Marshal(c)
				ck.mismatches = append(ck.mismatches, r.cfg.Name+": "+d+" "+string(b))
			} else {
				ck.validated++
			}
		}
	}
}

func cmdCheck(id string) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	spec := checkSpecs[id]
	if spec == nil {
		fatal("no check %s", id)
	}
	nat := &native{want: map[string]bool{}}
	for _, cfg := range spec.Runs(tier) {
		nat.want[cfg.Harness] = true
	}
	go nat.build(false)
	e, err := loadEngine()
	if err != nil {
		fatal("%v", err)
	}
	loadDur := time.Since(start)
	ck := &checkRun{e: e, nat: nat, id: id, known: loadKnown(id)}
	fmt.Printf("%s %s: %s (load %.1fs)\n", id, tier, spec.Title, loadDur.Seconds())
	var viol *Violation
	var rep string
	budget := 120.0
	if tier == "thorough" {
		budget = 780.0
	}
	todo := spec.Runs(tier)
	for i, cfg := range todo {
		left := budget - time.Since(start).Seconds()
		if left < 5 {
			ck.mismatches = append(ck.mismatches, "skipped for lack of time: "+cfg.Name)
			continue
		}
		// No run may starve the ones after it.
		if share := left * 8 / float64(len(todo)-i+7); cfg.Sec == 0 || cfg.Sec > share {
			cfg.Sec = share
		}
		r, err := ck.one(cfg)
		if err != nil {
			ck.mismatches = append(ck.mismatches, cfg.Name+": "+err.Error())
			fmt.Printf("  %s not decided: %v\n", cfg.Name, err)
			continue
		}
		printRun(r)
		for _, v := range r.Violations {
			msg, err := nat.reproduce(v)
			if err != nil {
				fatal("%v", err)
			}
			if msg == "" {
				b, _ := json.Marshal(v.Case)
				m := fmt.Sprintf("%s: counterexample not reproduced by the real code (%s: %s) %s", cfg.Name, v.Kind, v.Msg, b)
				ck.mismatches = append(ck.mismatches, m)
				fmt.Println("  ENGINE-MISMATCH", m)
				continue
			}
			viol, rep = v, msg
			break
		}
		if viol != nil {
			break
		}
		ck.validate(r)
		if ck.nativeFail != nil {
			viol, rep = ck.nativeFail, ck.nativeMsg
			break
		}
	}
	ck.writeEvidence(spec, tier, viol, start)
	for _, m := range ck.mismatches {
		fmt.Println("  reduced coverage:", m)
	}
	printed := map[string]bool{}
	for _, r := range ck.runs {
		for label := range r.KnownHits {
			if printed[label] {
				continue
			}
			printed[label] = true
			for _, k := range ck.known {
				if k.Label == label && k.Harness == r.cfg.Harness {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
				}
			}
		}
	}
	if viol != nil {
		p := ck.writeReplay(viol, rep)
		fmt.Printf("  %s: %s\n  harness %s, run %s\n  inputs %s\n  real code: %s\n", viol.Kind, viol.Msg, viol.Cfg.Harness, viol.Cfg.Name, caseText(viol.Case), rep)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		return 1
	}
	var paths int64
	for _, r := range ck.runs {
		paths += r.Paths
	}
	if paths == 0 {
		fmt.Println("ENGINE-ERROR: nothing was explored")
		return 2
	}
	fmt.Printf("%s: no violation within the stated bounds (%d paths, %.1fs)\n", id, paths, time.Since(start).Seconds())
	return 0
}

func caseText(c *Case) string {
	var b strings.Builder
	for i, v := range c.Vars {
		if i > 0 {
			b.WriteString(" ")
		}
		if i < len(c.Labels) {
			fmt.Fprintf(&b, "%s=%d", c.Labels[i], int64(v))
		}
	}
	for _, u := range c.UFs {
		fmt.Fprintf(&b, " %s(", u.Name)
		for i, a := range u.Args {
			if i > 0 {
				b.WriteString(",")
			}
			fmt.Fprintf(&b, "%d", int64(a))
		}
		fmt.Fprintf(&b, ")=%#x", u.Res)
	}
	s := b.String()
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

func (ck *checkRun) writeReplay(v *Violation, rep string) string {
	dir := filepath.Join(verifDir, "replays")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, ck.id+".json")
	b, _ := json.MarshalIndent(replayFile{ck.id, v.Kind, v.Msg, rep, v.Cfg, v.Case}, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

func (ck *checkRun) writeEvidence(spec *checkSpec, tier string, viol *Violation, start time.Time) {
	var states, trans, paths, pruned, asserts, assertQ, queries, sat, unsat, unknown int64
	var solver float64
	fns := map[string]bool{}
	var runs []map[string]any
	var samples []any
	exhaustive := true
	var notDecided []string
	for _, r := range ck.runs {
		states += r.Nodes
		trans += r.Edges + r.Paths + r.Pruned
		paths += r.Paths
		pruned += r.Pruned
		asserts += r.Asserts
		assertQ += r.AssertQ
		queries += r.Queries
		sat += r.Sat
		unsat += r.Unsat
		unknown += r.Unknown
		solver += r.SolverDur.Seconds()
		for f := range r.Fns {
			fns[f] = true
		}
		if r.Truncated {
			exhaustive = false
		}
		for u, n := range r.Unsupported {
			exhaustive = false
			notDecided = append(notDecided, fmt.Sprintf("%s: %d paths: %s", r.cfg.Name, n, u))
		}
		runs = append(runs, map[string]any{"run": r.cfg.Name, "harness": r.cfg.Harness, "params": r.cfg.Params, "env": r.cfg.Env, "procs": r.cfg.Procs,
			"hash_free_bits": fmt.Sprintf("%#x", r.cfg.HashMask), "hash_fixed": fmt.Sprintf("%#x", r.cfg.HashBase), "preemption_bound": r.cfg.Sched,
			"paths": r.Paths, "infeasible_or_assumed_away": r.Pruned, "branch_queries": r.Nodes, "assertions": r.Asserts, "queries": r.Queries,
			"unknown": r.Unknown, "complete": !r.Truncated && len(r.Unsupported) == 0 && r.Unknown == 0, "witnesses": r.Reached, "wall_s": r.Wall.Seconds(), "solver_s": r.SolverDur.Seconds()})
		for i, c := range r.Samples {
			if i < 2 && len(samples) < 12 {
				samples = append(samples, map[string]any{"run": r.cfg.Name, "inputs": caseText(c), "observed": c.obs})
			}
		}
	}
	var fl []string
	for f := range fns {
		if strings.Contains(f, modPath) && !strings.Contains(f, "zzverif") {
			fl = append(fl, strings.ReplaceAll(f, modPath, "frozen"))
		}
	}
	sort.Strings(fl)
	nv := 0
	if viol != nil {
		nv = 1
	}
	if samples == nil {
		samples = []any{"none: the run ended before a path completed"}
	}
	ev := map[string]any{
		"property": ck.id, "tier": tier, "seed": seedOf(), "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": ck.validated, "samples": samples,
			"paths": paths, "paths_assumed_away": pruned, "assertions_checked": asserts, "assertion_queries": assertQ,
			"smt_queries": queries, "smt_sat": sat, "smt_unsat": unsat, "smt_unknown": unknown, "solver_s": solver,
			"functions_encoded": fl, "functions_encoded_count": len(fl), "runs": runs,
			"exhaustive": exhaustive && unknown == 0 && len(ck.mismatches) == 0, "not_decided": notDecided, "reduced": ck.mismatches,
			"bounds": spec.Bounds, "explanation": "states are the symbolic branch points decided by the solver; transitions are the feasible edges followed from them",
		},
		"assumptions": append(append([]string{}, commonAssumptions...), spec.Assume...),
		"wall_s":      time.Since(start).Seconds(), "violations": nv,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", ck.id+".json"), b, 0o644); err != nil {
		fatal("%v", err)
	}
}
