package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Engine holds the loaded program; it is shared read-only between workers.
type Engine struct {
	prog            *ssa.Program
	pkgs            map[string]*ssa.Package
	maxSteps        int64
	solverTimeoutMS int
	sizes           types.Sizes
	runtimeErrType  types.Type
	byteType        types.Type
	hashableType    types.Type
	hashMethod      *types.Func
	workers         int
	machines        map[string][]*Machine
}

// RunCfg is one bounded exploration: a harness with its parameters.
type RunCfg struct {
	Name     string            `json:"name"`
	Harness  string            `json:"harness"`
	Params   map[string]int    `json:"params,omitempty"`
	Env      map[string]string `json:"env,omitempty"`
	Procs    int               `json:"procs"`
	HashMask uint64            `json:"hash_mask"`
	HashBase uint64            `json:"hash_base"`
	MapOrder bool              `json:"map_order,omitempty"`
	Sched    int               `json:"sched,omitempty"`
	Steps    int64             `json:"steps,omitempty"`
	Sec      float64           `json:"-"`
	thorough bool
	Race     bool   `json:"-"`
	Solver   string `json:"-"`
}

// Violation is a counterexample.
type Violation struct {
	Kind  string
	Msg   string
	Case  *Case
	Cfg   *RunCfg
	Known string
}

// UFEntry is one point of an uninterpreted function's table.
type UFEntry struct {
	Name string   `json:"n"`
	Args []uint64 `json:"a"`
	Res  uint64   `json:"r"`
}

// ObsRec is an observation made by a harness.
type ObsRec struct {
	Label string `json:"l"`
	Val   uint64 `json:"v"`
	Str   string `json:"s,omitempty"`
}

// Case is a concrete input for native execution of a harness.
type Case struct {
	Harness  string         `json:"harness"`
	Params   map[string]int `json:"params"`
	Vars     []uint64       `json:"vars"`
	Labels   []string       `json:"labels,omitempty"`
	UFs      []UFEntry      `json:"ufs"`
	HashBase uint64         `json:"hash_base"`
	obs      []ObsRec
}

const interpretedStd = " errors strings bytes internal/stringslite strconv unicode unicode/utf8 math/bits math container/heap container/list sort slices cmp maps iter io sync sync/atomic "

func (e *Engine) interpretable(path string) bool {
	if path == modPath || strings.HasPrefix(path, modPath+"/") {
		return !strings.HasSuffix(path, "/zzverif/symrt")
	}
	return strings.Contains(interpretedStd, " "+path+" ")
}

// interpretInit says whether a package's initialiser is interpreted.
func (e *Engine) interpretInit(path string) bool {
	switch path {
	case "unicode", "sync", "sync/atomic", "errors":
		return false
	case "internal/cpu": // feature flags, read as false; its initialiser is never called
		return true
	}
	return e.interpretable(path)
}

func (e *Engine) solverArgv(cfg *RunCfg) []string {
	switch cfg.Solver {
	case "cvc5":
		return []string{"cvc5", "--incremental", "--produce-models", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", e.solverTimeoutMS)}
	case "z3":
		return []string{"z3", "-in", "-smt2"}
	}
	return []string{"z3-new", "-in", "-smt2", "smt.relevancy=0"}
}

func (e *Engine) lookupFunc(name string) *ssa.Function {
	i := strings.LastIndex(name, ".")
	p := e.pkgs[name[:i]]
	if p == nil {
		panic(engineError("package not loaded: " + name))
	}
	f := p.Func(name[i+1:])
	if f == nil {
		panic(engineError("no such function: " + name))
	}
	return f
}

// harnessOverlay maps /verif/harness/* into /repo/internal/zzverif. The opt_
// files use internal packages of /repo, which a refactoring may change: they
// are left out when they do not compile.
func harnessOverlay(opt bool) map[string]string {
	ov := map[string]string{}
	root := filepath.Join(verifDir, "harness")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") && (opt || !strings.HasPrefix(fi.Name(), "opt_")) {
			rel, _ := filepath.Rel(root, p)
			ov[filepath.Join(repoDir, "internal/zzverif", rel)] = p
		}
		return nil
	})
	return ov
}

func goEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOWORK", "GOSUMDB", "CGO_ENABLED", "FROZEN_CONCURRENCY", "GOMAXPROCS", "GO111MODULE", "GOOS", "GOARCH", "GOEXPERIMENT":
			continue
		}
		env = append(env, kv)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off", "GONOSUMDB=*")
}

// load builds SSA for the real code plus the harnesses.
func loadEngine() (*Engine, error) {
	e, err := loadWith(true)
	if err != nil && strings.Contains(err.Error(), "/opt_") {
		fmt.Println("  reduced coverage: harnesses of internal packages do not compile:", err)
		e, err = loadWith(false)
	}
	return e, err
}

func loadWith(opt bool) (*Engine, error) {
	ov := map[string][]byte{}
	for dst, src := range harnessOverlay(opt) {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        repoDir,
		Overlay:    ov,
		Env:        append(goEnv(), "CGO_ENABLED=0"),
		BuildFlags: []string{"-modfile=" + filepath.Join(scratch, "go.mod")},
	}
	if err := writeModfile(filepath.Join(scratch, "go.mod"), ""); err != nil {
		return nil, err
	}
	initial, err := packages.Load(cfg, modPath+"/internal/zzverif/h", modPath+"/internal/zzverif/fmtm")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, pkgs: map[string]*ssa.Package{}, maxSteps: 3_000_000, solverTimeoutMS: 20000,
		sizes: types.SizesFor("gc", "amd64"), workers: 8, machines: map[string][]*Machine{}}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	e.byteType = types.Typ[types.Uint8]
	hp := e.pkgs["github.com/arr-ai/hash"]
	if hp == nil {
		return nil, fmt.Errorf("arr-ai/hash not loaded")
	}
	ht := hp.Type("Hashable").Type()
	e.hashableType = ht
	it := ht.Underlying().(*types.Interface)
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == "Hash" {
			e.hashMethod = it.Method(i)
		}
	}
	e.runtimeErrType = e.pkgs[symPkg].Type("RuntimeError").Type()
	return e, nil
}

// Run is one exploration in progress.
type Run struct {
	eng      *Engine
	cfg      *RunCfg
	entry    *ssa.Function
	mu       sync.Mutex
	cond     *sync.Cond
	stacks   [][]*Item
	pending  int
	idle     int
	stop     bool
	deadline time.Time
	known    func(v *Violation) string

	// Results.
	Paths, Pruned, Nodes, Edges, Asserts, AssertQ, Unknown, Guess int64
	Queries, Sat, Unsat                                           int64
	SolverDur                                                     time.Duration
	Wall                                                          time.Duration
	Truncated                                                     bool
	Unsupported                                                   map[string]int
	Reached                                                       map[string]int64
	Fns                                                           map[string]bool
	Samples                                                       []*Case
	Violations                                                    []*Violation
	KnownHits                                                     map[string]*Violation
	rng                                                           uint64
	sampleCap                                                     int
	perWorker                                                     []*Machine
	busy                                                          map[*Machine]int
}

func (r *Run) push(m *Machine, it *Item) {
	r.mu.Lock()
	w := r.busy[m]
	r.stacks[w] = append(r.stacks[w], it)
	r.pending++
	r.Edges++
	r.mu.Unlock()
	r.cond.Signal()
}

func (r *Run) next(w int) *Item {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.stop {
			return nil
		}
		if time.Now().After(r.deadline) {
			if r.pending > 0 {
				r.Truncated = true
			}
			r.stop = true
			r.cond.Broadcast()
			return nil
		}
		if s := r.stacks[w]; len(s) > 0 {
			it := s[len(s)-1]
			r.stacks[w] = s[:len(s)-1]
			r.pending--
			return it
		}
		best := -1
		for i := range r.stacks {
			if len(r.stacks[i]) > 0 && (best < 0 || len(r.stacks[i][0].prefix) < len(r.stacks[best][0].prefix)) {
				best = i
			}
		}
		if best >= 0 {
			it := r.stacks[best][0]
			r.stacks[best] = r.stacks[best][1:]
			r.pending--
			return it
		}
		r.idle++
		if r.idle == len(r.stacks) {
			r.stop = true
			r.cond.Broadcast()
			return nil
		}
		r.cond.Wait()
		r.idle--
	}
}

// idleNow says whether no work is left for anyone.
func (r *Run) idleNow(w int) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.pending == 0 || r.stop
}

func envKey(c *RunCfg) string {
	var ks []string
	for k, v := range c.Env {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	return fmt.Sprint(ks, c.Procs, c.Solver)
}

// machinesFor returns initialised machines for the run's environment.
func (e *Engine) machinesFor(r *Run, n int) ([]*Machine, error) {
	key := envKey(r.cfg)
	ms := e.machines[key]
	errs := make([]error, n)
	for len(ms) < n {
		ms = append(ms, nil)
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		if ms[i] != nil {
			ms[i].run, ms[i].cfg = r, r.cfg
			continue
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			m := newMachine(e, r)
			errs[i] = m.initProgram(r.entry)
			ms[i] = m
		}(i)
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return nil, err
		}
	}
	e.machines[key] = ms
	return ms[:n], nil
}

func (m *Machine) initProgram(entry *ssa.Function) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if gp, ok := r.(*goPanic); ok {
				err = fmt.Errorf("panic during initialisation: %s", m.panicText(gp))
				return
			}
			if ee, ok := r.(engineError); ok {
				err = fmt.Errorf("initialisation: %s", string(ee))
				return
			}
			panic(r)
		}
	}()
	m.inInit = true
	m.reached = map[string]bool{}
	m.ufs = map[string][]ufApp{}
	m.initShadow = map[*Obj][]*shadow{}
	init := entry.Pkg.Func("init")
	m.call(nil, m.fn(init), nil, nil)
	m.inInit = false
	m.locks = nil
	return nil
}

// explore runs the harness over every feasible path within its bounds.
func (e *Engine) explore(r *Run) error {
	start := time.Now()
	f := e.pkgs[modPath+"/internal/zzverif/h"].Func(r.cfg.Harness)
	if f == nil {
		return fmt.Errorf("no harness %s", r.cfg.Harness)
	}
	r.eng, r.entry = e, f
	r.cond = sync.NewCond(&r.mu)
	r.Reached, r.Fns, r.Unsupported, r.KnownHits = map[string]int64{}, map[string]bool{}, map[string]int{}, map[string]*Violation{}
	n := e.workers
	ms, err := e.machinesFor(r, n)
	if err != nil {
		return err
	}
	r.stacks = make([][]*Item, n)
	r.busy = map[*Machine]int{}
	for i, m := range ms {
		r.busy[m] = i
		m.fnsSeen = map[*Fn]bool{}
		m.nGuess, m.nAssert, m.nAssertQ, m.nUnknown, m.nBranches = 0, 0, 0, 0, 0
	}
	r.stacks[0] = []*Item{{}}
	r.pending = 1
	if r.cfg.Steps > 0 {
		e.maxSteps = r.cfg.Steps
	} else {
		e.maxSteps = 3_000_000
	}
	var wg sync.WaitGroup
	q0 := make([][3]int, n)
	d0 := make([]time.Duration, n)
	for i := range ms {
		s := ms[i].solver
		s.deadline = r.deadline
		q0[i] = [3]int{s.queries, s.sat, s.unsat}
		d0[i] = s.dur
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			m := ms[w]
			for {
				if len(m.leaves) >= leafBatch || len(m.leaves) > 0 && r.idleNow(w) {
					for _, it := range m.flushLeaves() {
						m.runPath(it)
					}
				}
				it := r.next(w)
				if it == nil {
					for _, it := range m.flushLeaves() {
						m.runPath(it)
					}
					return
				}
				m.runPath(it)
			}
		}(i)
	}
	tick := make(chan struct{})
	go func() { // wake sleepers at the deadline
		select {
		case <-time.After(time.Until(r.deadline) + 10*time.Millisecond):
			r.mu.Lock()
			r.cond.Broadcast()
			r.mu.Unlock()
		case <-tick:
		}
	}()
	wg.Wait()
	close(tick)
	for i, m := range ms {
		s := m.solver
		r.Queries += int64(s.queries - q0[i][0])
		r.Sat += int64(s.sat - q0[i][1])
		r.Unsat += int64(s.unsat - q0[i][2])
		r.SolverDur += s.dur - d0[i]
		r.Asserts += m.nAssert
		r.AssertQ += m.nAssertQ
		r.Guess += m.nGuess
		r.Unknown += m.nUnknown
		r.Nodes += m.nBranches
		for fn := range m.fnsSeen {
			r.Fns[fn.name] = true
		}
	}
	r.Wall = time.Since(start)
	return nil
}

// runPath executes one path.
func (m *Machine) runPath(it *Item) {
	r := m.run
	m.resetPath(it)
	m.sched = m.newSched()
	outcome := func() (out any) {
		defer func() {
			if x := recover(); x != nil {
				out = x
				if _, is := x.(runtime.Error); is && os.Getenv("ENGINE_DEBUG") != "" {
					debug.PrintStack()
				}
			}
		}()
		m.call(&Frame{m: m, g: m.sched.gors[0]}, m.fn(r.entry), nil, nil)
		return nil
	}()
	if _, isPanic := outcome.(*goPanic); outcome == nil || isPanic {
		func() {
			defer func() {
				if x := recover(); x != nil {
					outcome = x
				}
			}()
			if outcome == nil && !it.sync {
				m.deferLeaf()
			} else {
				m.flushAsserts()
			}
		}()
	}
	if it.sync && outcome == nil {
		return // discharged individually; already counted
	}
	m.sched.finish()
	var viol *Violation
	switch x := outcome.(type) {
	case nil:
		if m.pos < len(m.prefix) {
			outcome = engineError("replay diverged: path ended early")
		}
	case sigPathEnd:
	case sigViolation:
		viol = m.violation
	case *goPanic:
		viol = &Violation{Kind: "panic", Msg: "panic: " + m.panicText(x)}
	case engineError:
	case *ssa.Function:
	default:
		outcome = engineError(fmt.Sprintf("internal: %v", x))
		if os.Getenv("ENGINE_DEBUG") != "" {
			panic(x)
		}
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	for k := range m.reached {
		r.Reached[k]++
	}
	switch x := outcome.(type) {
	case sigPathEnd:
		r.Pruned++
		return
	case engineError:
		r.Unsupported[string(x)]++
		return
	}
	r.Paths++
	if viol != nil {
		viol.Cfg = r.cfg
		viol.Case = m.buildCase()
		if r.known != nil {
			if id := r.known(viol); id != "" {
				viol.Known = id
				if r.KnownHits[id] == nil {
					r.KnownHits[id] = viol
				}
				return
			}
		}
		r.Violations = append(r.Violations, viol)
		r.stop = true
		r.cond.Broadcast()
		return
	}
	if r.sampleCap > 0 {
		r.rng = r.rng*6364136223846793005 + 1442695040888963407
		if len(r.Samples) < r.sampleCap {
			r.Samples = append(r.Samples, m.buildCase())
		} else if k := (r.rng >> 33) % uint64(r.Paths); k < uint64(r.sampleCap) {
			r.Samples[k] = m.buildCase()
		}
	}
}

// buildCase makes the path's model into a concrete native input.
func (m *Machine) buildCase() *Case {
	c := &Case{Harness: m.cfg.Harness, Params: m.cfg.Params, HashBase: m.cfg.HashBase}
	for i, v := range m.vars {
		if v.kind == "in" {
			c.Vars = append(c.Vars, m.model[i]&maskOrBit(v.t.w))
			c.Labels = append(c.Labels, v.t.name)
		}
	}
	names := make([]string, 0, len(m.ufs))
	for n := range m.ufs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		for _, ap := range m.ufs[n] {
			e := UFEntry{Name: n, Res: m.eval(ap.res)}
			for _, a := range ap.args {
				e.Args = append(e.Args, m.eval(a))
			}
			c.UFs = append(c.UFs, e)
		}
	}
	for _, o := range m.obs {
		rec := ObsRec{Label: o.label}
		if o.isStr {
			rec.Str = o.str
		} else {
			rec.Val = m.eval(o.t)
		}
		c.obs = append(c.obs, rec)
	}
	return c
}

func maskOrBit(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}
