package main

import (
	"fmt"
	"math/bits"
	"sync"

	"go/types"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

var progMu sync.Mutex

// Dec is one recorded decision. Branches: val in {0,1}. Concretisation steps:
// val says whether the term equals aux.
type Dec struct {
	val     uint8
	implied bool
	aux     uint64
	sh      uint32 // structural hash of the term decided
}

// Item is a pending exploration: a decision prefix and a model satisfying it.
type Item struct {
	prefix []Dec
	model  []uint64
	sync   bool // rerun of a finished path: decide its assertions at once
}

type ufApp struct {
	args []*Term
	res  *Term
}

type obsRec struct {
	label string
	t     *Term
	str   string
	isStr bool
}

// Control signals carried by Go panics inside the interpreter.
type sigPathEnd struct{ reason string }
type sigKill struct{}
type sigViolation struct{}

// goPanic is a panic of the interpreted program.
type goPanic struct {
	val     Iface
	runtime bool
	text    string
}

type varInfo struct {
	t    *Term
	kind string // input kind for replay ("in" or "uf" or "sched")
}

type undoRec struct {
	o   *Obj
	off int
	v   Value
}

type pendingAssert struct {
	c   *Term
	msg string
}

// Machine interprets one path at a time for one worker.
type Machine struct {
	eng    *Engine
	run    *Run
	cfg    *RunCfg
	tt     *TermTable
	solver *Solver

	rtPtr     map[types.Type]*RType
	rtCanon   *typeutil.Map
	implCache map[[2]*RType]bool
	fns       map[*ssa.Function]*Fn
	globals   map[*ssa.Global]*Obj
	inited    map[*ssa.Package]bool

	// Path state.
	gen        uint32
	epoch      uint32 // evaluation epoch
	prefix     []Dec
	pos        int
	trace      []Dec
	pc         []*Term
	vars       []varInfo
	model      []uint64
	ufs        map[string][]ufApp
	undo       []undoRec
	obs        []obsRec
	reached    map[string]bool
	steps      int64
	nextObj    uint32
	depth      int
	locks      map[Ptr]*lockState
	sched      *Sched
	conc       bool
	inInit     bool
	fnsSeen    map[*Fn]bool
	initShadow map[*Obj][]*shadow
	preempts   int
	violation  *Violation
	asserted   int

	// Statistics.
	rng                                                       uint64
	pending                                                   []pendingAssert
	leaves                                                    []leaf
	syncRun                                                   bool
	nGuess, nAssert, nAssertQ, nUnknown, nBranches, nReplayed int64
}

func newMachine(e *Engine, r *Run) *Machine {
	m := &Machine{
		eng: e, run: r, cfg: r.cfg,
		tt:        newTermTable(),
		rtPtr:     map[types.Type]*RType{},
		rtCanon:   newTypeMap(),
		implCache: map[[2]*RType]bool{},
		fns:       map[*ssa.Function]*Fn{},
		globals:   map[*ssa.Global]*Obj{},
		inited:    map[*ssa.Package]bool{},
		fnsSeen:   map[*Fn]bool{},
	}
	m.solver = newSolver(e.solverArgv(r.cfg), e.solverTimeoutMS)
	return m
}

func (m *Machine) newObj(cells []Value) *Obj {
	m.nextObj++
	return &Obj{cells: cells, gen: m.gen, id: m.nextObj}
}

func (m *Machine) allocType(t *RType) *Obj {
	c := make([]Value, t.size)
	copy(c, t.zero)
	return m.newObj(c)
}

func (m *Machine) eval(t *Term) uint64 { return evalTerm(t, m.epoch) }

// newVar creates the next input variable with a default value.
func (m *Machine) newVar(w uint8, label, kind string, dflt uint64) *Term {
	idx := len(m.vars)
	t := m.tt.mkVar(w, idx, label)
	m.vars = append(m.vars, varInfo{t, kind})
	v := dflt
	if idx < len(m.model) {
		v = m.model[idx]
	} else {
		m.model = append(m.model, dflt)
	}
	t.ev = v & mask(w)
	if w == 0 {
		t.ev = v & 1
	}
	t.evEpoch = m.epoch
	return t
}

func (m *Machine) varTerms() []*Term {
	ts := make([]*Term, len(m.vars))
	for i, v := range m.vars {
		ts[i] = v.t
	}
	return ts
}

func (m *Machine) setModel(model []uint64) {
	m.epoch++
	m.model = model
	for i, v := range m.vars {
		v.t.ev = model[i]
		v.t.evEpoch = m.epoch
	}
}

// fact looks up what the path condition already says about a boolean.
func (m *Machine) fact(c *Term) (bool, bool) {
	if c.op == OpConst {
		return c.val != 0, true
	}
	if c.op == OpNot {
		v, ok := m.fact(c.a)
		return !v, ok
	}
	if c.factEpoch == m.gen {
		return c.factVal, true
	}
	switch c.op {
	case OpAnd:
		a, aok := m.fact(c.a)
		if aok && !a {
			return false, true
		}
		b, bok := m.fact(c.b)
		if bok && !b {
			return false, true
		}
		if aok && bok {
			return true, true
		}
	case OpOr:
		a, aok := m.fact(c.a)
		if aok && a {
			return true, true
		}
		b, bok := m.fact(c.b)
		if bok && b {
			return true, true
		}
		if aok && bok {
			return false, true
		}
	case OpEq, OpUlt, OpUle, OpSlt, OpSle:
		if c.a.w == 0 {
			break
		}
		x, xok := m.known(c.a)
		y, yok := m.known(c.b)
		if !xok || !yok {
			if c.op == OpEq && !m.inInit && m.congruentDiffer(m.widest(c.a), m.widest(c.b)) {
				m.setFact(c, false)
				return false, true
			}
			break
		}
		if c.op == OpEq {
			return x == y, true
		}
		return foldCmp(c.op, c.a.w, x, y), true
	case OpIte:
		if v, ok := m.fact(c.a); ok {
			if v {
				return m.fact(c.b)
			}
			return m.fact(c.c)
		}
	}
	return false, false
}

func (m *Machine) known(t *Term) (uint64, bool) {
	if t.op == OpConst {
		return t.val, true
	}
	if t.eqEpoch == m.gen {
		return t.eqVal, true
	}
	return 0, false
}

func (m *Machine) setFact(c *Term, v bool) {
	for c.op == OpNot {
		c, v = c.a, !v
	}
	if c.op == OpConst {
		return
	}
	c.factEpoch = m.gen
	c.factVal = v
	switch c.op {
	case OpAnd:
		if v {
			m.setFact(c.a, true)
			m.setFact(c.b, true)
		}
	case OpOr:
		if !v {
			m.setFact(c.a, false)
			m.setFact(c.b, false)
		}
	case OpEq:
		if v && c.b.op == OpConst && c.b.w > 0 {
			m.setKnown(c.a, c.b.val)
		}
	}
}

func (m *Machine) setKnown(t *Term, v uint64) {
	if t.op == OpConst {
		return
	}
	t.eqEpoch = m.gen
	t.eqVal = v
	switch {
	case t.op == OpVar:
		m.setBits(t, mask(t.w), v)
	case t.op == OpExtract && t.a.op == OpVar:
		m.setBits(t.a, mask(t.w)<<t.val, v<<t.val)
	}
	if t.op == OpConcat {
		m.setKnown(t.b, v&mask(t.b.w))
		m.setKnown(t.a, v>>t.b.w)
	}
}

func (m *Machine) setBits(v *Term, msk, val uint64) {
	if v.kbEpoch != m.gen {
		v.kbEpoch, v.kbMask, v.kbVal = m.gen, 0, 0
	}
	v.kbMask |= msk
	v.kbVal = v.kbVal&^msk | val&msk
}

// knownBits returns the bits of t that the path condition fixes.
func (m *Machine) knownBits(t *Term) (msk, val uint64) {
	switch t.op {
	case OpConst:
		return mask(t.w), t.val
	case OpVar:
		if t.kbEpoch == m.gen {
			return t.kbMask, t.kbVal
		}
		return 0, 0
	case OpConcat:
		am, av := m.knownBits(t.a)
		bm, bv := m.knownBits(t.b)
		return am<<t.b.w | bm, av<<t.b.w | bv
	case OpExtract:
		am, av := m.knownBits(t.a)
		return am >> t.val & mask(t.w), av >> t.val & mask(t.w)
	}
	if t.eqEpoch == m.gen {
		return mask(t.w), t.eqVal
	}
	return 0, 0
}

// congruentDiffer says whether some function is known to map x and y apart.
func (m *Machine) congruentDiffer(x, y *Term) bool {
	for _, apps := range m.ufs {
		for i := range apps {
			pos, tx := argPos(apps[i].args, x, y)
			if pos < 0 {
				continue
			}
			other := y
			if !tx {
				other = x
			}
			for j := i + 1; j < len(apps); j++ {
				if !congruentExcept(apps[i].args, apps[j].args, pos, other) {
					continue
				}
				am, av := m.knownBits(apps[i].res)
				bm, bv := m.knownBits(apps[j].res)
				if (av^bv)&am&bm != 0 {
					return true
				}
			}
		}
	}
	return false
}

// widest finds the zero extension of t, the form in which it is a UF argument.
func (m *Machine) widest(t *Term) *Term {
	if t.w < 64 && t.w > 0 {
		return m.tt.ZExt(t, 64)
	}
	return t
}

func argPos(args []*Term, x, y *Term) (int, bool) {
	for p, a := range args {
		if a == x {
			return p, true
		}
		if a == y {
			return p, false
		}
	}
	return -1, false
}

func congruentExcept(a, b []*Term, pos int, other *Term) bool {
	for p := range a {
		if p == pos {
			if b[p] != other {
				return false
			}
		} else if !sameTerm(a[p], b[p]) {
			return false
		}
	}
	return true
}

func (m *Machine) addPC(c *Term) {
	if c.op == OpConst {
		return
	}
	m.pc = append(m.pc, c)
	m.setFact(c, true)
}

// decide resolves a symbolic condition, forking if both outcomes are feasible.
func (m *Machine) decide(c *Term) bool {
	if c.op == OpConst {
		return c.val != 0
	}
	if v, ok := m.fact(c); ok {
		return v
	}
	if m.inInit {
		panic(engineError("symbolic branch during package initialisation"))
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.trace = append(m.trace, d)
		v := d.val != 0
		if d.sh != c.sh {
			panic(engineError("replay took another course"))
		}
		m.take(c, v, d.implied)
		return v
	}
	v := m.eval(c) != 0
	other := c
	if v {
		other = m.tt.Not(c)
	}
	m.nBranches++
	res, model := m.sat(other)
	implied := false
	ov := uint8(1)
	if v {
		ov = 0
	}
	switch res {
	case "sat":
		m.pushItem(Dec{val: ov, sh: c.sh}, model)
	case "unsat":
		implied = true
	default:
		m.nUnknown++
	}
	m.trace = append(m.trace, Dec{val: 1 - ov, implied: implied, sh: c.sh})
	m.take(c, v, implied)
	return v
}

func (m *Machine) take(c *Term, v, implied bool) {
	if !v {
		c = m.tt.Not(c)
	}
	if implied {
		m.setFact(c, true)
	} else {
		m.addPC(c)
	}
}

func (m *Machine) pushItem(d Dec, model []uint64) {
	p := make([]Dec, len(m.trace)+1)
	copy(p, m.trace)
	p[len(m.trace)] = d
	m.run.push(m, &Item{prefix: p, model: model})
}

// concretize picks a value for t, forking over all feasible values.
func (m *Machine) concretize(t *Term) uint64 {
	if t.op == OpConst {
		return t.val
	}
	for n := 0; ; n++ {
		if v, ok := m.known(t); ok {
			return v
		}
		if n > 5000 {
			panic(engineError("concretisation of a wide term: " + t.String()))
		}
		if t.w == 0 {
			if m.decide(t) {
				return 1
			}
			return 0
		}
		if m.inInit {
			panic(engineError("symbolic value during package initialisation"))
		}
		// Also in a replay: what the facts imply was never a decision.
		v := m.eval(t)
		veq := m.tt.Eq(t, mkConst(t.w, v))
		if fv, ok := m.fact(veq); ok && fv {
			m.setKnown(t, v)
			return v
		}
		if m.pos < len(m.prefix) {
			d := m.prefix[m.pos]
			m.pos++
			m.trace = append(m.trace, d)
			if d.sh != t.sh {
				panic(engineError("replay took another course"))
			}
			eq := m.tt.Eq(t, mkConst(t.w, d.aux))
			m.take(eq, d.val != 0, d.implied)
			if d.val != 0 {
				m.setKnown(t, d.aux)
				return d.aux
			}
			continue
		}
		eq := veq
		m.nBranches++
		var res string
		var model []uint64
		if m.onlyValue(t, v) {
			res = "unsat"
		} else {
			res, model = m.sat(m.tt.Not(eq))
		}
		implied := false
		switch res {
		case "sat":
			m.pushItem(Dec{val: 0, aux: v, sh: t.sh}, model)
		case "unsat":
			implied = true
		default:
			m.nUnknown++
		}
		m.trace = append(m.trace, Dec{val: 1, aux: v, implied: implied, sh: t.sh})
		m.take(eq, true, implied)
		m.setKnown(t, v)
		return v
	}
}

// onlyValue says whether the path condition syntactically excludes every value
// of t but v.
func (m *Machine) onlyValue(t *Term, v uint64) bool {
	km, kv := m.knownBits(t)
	free := mask(t.w) &^ km
	if bits.OnesCount64(free) > 5 {
		return false
	}
	// Enumerate the subsets of the free bits.
	for s := uint64(0); ; s = (s - free) & free {
		if c := kv&km | s; c != v {
			if f, ok := m.fact(m.tt.Eq(t, mkConst(t.w, c))); !ok || f {
				return false
			}
		}
		if s == free {
			return true
		}
	}
}

// choose makes an n-way nondeterministic choice through a fresh variable.
func (m *Machine) choose(label, kind string, n int) int {
	if n <= 1 {
		return 0
	}
	w := uint8(1)
	for 1<<w < n {
		w++
	}
	t := m.newVar(w, label, kind, 0)
	if n != 1<<w {
		m.assumeRaw(m.tt.Cmp(OpUlt, t, mkConst(w, uint64(n))))
	}
	return int(m.concretize(t))
}

// assumeRaw adds a constraint known to hold under the current model.
func (m *Machine) assumeRaw(c *Term) {
	if v, ok := m.fact(c); ok && v {
		return
	}
	m.addPC(c)
}

// assume prunes the path unless c can hold.
func (m *Machine) assume(c *Term) {
	if v, ok := m.fact(c); ok {
		if !v {
			panic(sigPathEnd{"assume"})
		}
		return
	}
	m.flushAsserts()
	if m.eval(c) == 0 {
		if m.pos < len(m.prefix) {
			panic(engineError("assumption fails during replay"))
		}
		res, model := m.sat(c)
		switch res {
		case "sat":
			m.setModel(model)
		case "unsat":
			panic(sigPathEnd{"assume"})
		default:
			m.nUnknown++
			panic(sigPathEnd{"assume-unknown"})
		}
	}
	m.addPC(c)
}

// sat decides whether PC ∧ c is satisfiable.
func (m *Machine) sat(c *Term) (string, []uint64) {
	if model, ok := m.guess(c); ok {
		return "sat", model
	}
	return m.solver.check(m.pc, c, m.varTerms())
}

// assert records an assertion; the solver discharges it before the path is
// constrained further by an assumption, and at the latest at the path's end.
// Every fork of the path carries it along, so no case escapes.
func (m *Machine) assert(c *Term, msg string) {
	m.nAssert++
	if v, ok := m.fact(c); ok {
		if !v {
			m.flushAsserts()
			m.fail("assert", msg)
		}
		return
	}
	m.pending = append(m.pending, pendingAssert{c, msg})
	if m.eval(c) == 0 && (m.pos >= len(m.prefix) || m.syncRun) {
		m.flushAsserts()
	}
}

// leaf is a finished path whose assertions still await the solver's verdict.
type leaf struct {
	conj []*Term
	item *Item
}

const leafBatch = 48

// deferLeaf queues the path's outstanding assertions for a batched query.
func (m *Machine) deferLeaf() {
	ps := m.pending
	all := tTrue
	for _, p := range ps {
		if m.eval(p.c) == 0 {
			m.flushAsserts()
			return
		}
		if v, ok := m.fact(p.c); ok && v {
			continue
		}
		all = m.tt.And(all, p.c)
	}
	m.pending = nil
	if all.op == OpConst {
		return
	}
	conj := make([]*Term, 0, len(m.pc)+1)
	conj = append(conj, m.pc...)
	conj = append(conj, m.tt.Not(all))
	m.leaves = append(m.leaves, leaf{conj, &Item{prefix: append([]Dec(nil), m.trace...), model: append([]uint64(nil), m.model...), sync: true}})
	m.nAssertQ++
}

// flushLeaves asks whether any queued path can falsify its assertions; if so
// it returns the paths for individual treatment.
func (m *Machine) flushLeaves() []*Item {
	ls := m.leaves
	m.leaves = nil
	if len(ls) == 0 {
		return nil
	}
	// Factor out the common prefix of path conditions.
	n := len(ls[0].conj) - 1
	for _, l := range ls[1:] {
		k := 0
		for k < n && k < len(l.conj)-1 && l.conj[k] == ls[0].conj[k] {
			k++
		}
		n = k
	}
	groups := make([][]*Term, len(ls))
	for i, l := range ls {
		groups[i] = l.conj[n:]
	}
	res := m.solver.checkAny(ls[0].conj[:n], groups)
	if res == "unsat" {
		return nil
	}
	its := make([]*Item, len(ls))
	for i, l := range ls {
		its[i] = l.item
	}
	return its
}

func (m *Machine) flushAsserts() {
	ps := m.pending
	m.pending = nil
	if len(ps) == 0 || m.pos < len(m.prefix) && !m.syncRun {
		return // nothing new, or already discharged where this prefix forked
	}
	bad := func() {
		for _, p := range ps {
			if m.eval(p.c) == 0 {
				m.fail("assert", p.msg)
			}
		}
	}
	bad()
	all := tTrue
	for _, p := range ps {
		if v, ok := m.fact(p.c); ok && v {
			continue
		}
		all = m.tt.And(all, p.c)
	}
	if all.op == OpConst && all.val != 0 {
		return
	}
	m.nAssertQ++
	res, model := m.solver.check(m.pc, m.tt.Not(all), m.varTerms())
	switch res {
	case "sat":
		m.setModel(model)
		bad()
		panic(engineError("solver model does not falsify the assertions"))
	case "unsat":
		// Not recorded as a fact: a replay, which does not repeat the query,
		// must take the same decisions.
	default:
		m.nUnknown++
	}
}

func (m *Machine) fail(kind, msg string) {
	for _, c := range m.pc {
		if m.eval(c) == 0 {
			panic(engineError("violation under a model that breaks the path condition: " + msg))
		}
	}
	m.violation = &Violation{Kind: kind, Msg: msg}
	panic(sigViolation{})
}

// uf applies an uninterpreted function through Ackermann expansion; mask/base
// restrict the result to base | (v & mask).
func (m *Machine) uf(name string, args []*Term, msk, base uint64) *Term {
	for _, ap := range m.ufs[name] {
		same := true
		for i := range args {
			if !sameTerm(ap.args[i], args[i]) {
				same = false
				break
			}
		}
		if same {
			return ap.res
		}
	}
	w := uint8(0)
	for b := uint8(0); b < 64; b++ {
		if msk>>b&1 == 1 {
			w++
		}
	}
	var res *Term
	if w == 0 {
		res = mkConst(64, base)
	} else {
		// Default value: congruent with earlier applications under the model.
		var dflt uint64
		for _, ap := range m.ufs[name] {
			eq := true
			for i := range args {
				if m.eval(ap.args[i]) != m.eval(args[i]) {
					eq = false
					break
				}
			}
			if eq {
				dflt = compress(m.eval(ap.res), msk)
				break
			}
		}
		v := m.newVar(w, name, "uf", dflt)
		res = m.spread(v, msk, base)
		for _, ap := range m.ufs[name] {
			eq := tTrue
			for i := range args {
				eq = m.tt.And(eq, m.tt.Eq(ap.args[i], args[i]))
			}
			if f, ok := m.fact(eq); ok {
				if f {
					m.assumeRaw(m.tt.Eq(ap.res, res))
				}
				continue
			}
			m.assumeRaw(m.tt.Or(m.tt.Not(eq), m.tt.Eq(ap.res, res)))
		}
	}
	m.ufs[name] = append(m.ufs[name], ufApp{append([]*Term(nil), args...), res})
	return res
}

func compress(v, msk uint64) uint64 {
	var r uint64
	n := 0
	for b := 0; b < 64; b++ {
		if msk>>b&1 == 1 {
			r |= v >> b & 1 << n
			n++
		}
	}
	return r
}

// spread places the bits of v at the set positions of msk, over base.
func (m *Machine) spread(v *Term, msk, base uint64) *Term {
	var r *Term
	add := func(p *Term) {
		if r == nil {
			r = p
		} else {
			r = m.tt.Concat(p, r)
		}
	}
	n := uint8(0)
	for b := uint8(0); b < 64; {
		e := b
		for e < 64 && msk>>e&1 == msk>>b&1 {
			e++
		}
		if msk>>b&1 == 1 {
			add(m.tt.Extract(v, n, e-b))
			n += e - b
		} else {
			add(mkConst(e-b, base>>b))
		}
		b = e
	}
	return r
}

// --- memory ---

func (m *Machine) log(o *Obj, off int) {
	if o.gen != m.gen && !m.inInit {
		m.undo = append(m.undo, undoRec{o, off, o.cells[off]})
	}
}

func (m *Machine) nilDeref() {
	m.runtimePanic("invalid memory address or nil pointer dereference")
}

func (m *Machine) load(p Ptr, t *RType) Value {
	if p.o == nil {
		m.nilDeref()
	}
	if p.off+t.size > len(p.o.cells) {
		panic(engineError(fmt.Sprintf("load out of object: %s at %d of %d", t.str, p.off, len(p.o.cells))))
	}
	if m.conc {
		m.sched.access(p, t.size, false)
	}
	if t.agg() {
		a := make(Agg, t.size)
		copy(a, p.o.cells[p.off:])
		return a
	}
	return p.o.cells[p.off]
}

func (m *Machine) store(p Ptr, t *RType, v Value) {
	if p.o == nil {
		m.nilDeref()
	}
	if p.off+t.size > len(p.o.cells) {
		panic(engineError("store out of object: " + t.str))
	}
	if m.conc {
		m.sched.access(p, t.size, true)
	}
	if t.agg() {
		a := v.(Agg)
		if p.o.gen != m.gen {
			for i := range a {
				m.log(p.o, p.off+i)
			}
		}
		copy(p.o.cells[p.off:], a)
		return
	}
	if p.o.gen != m.gen {
		m.log(p.o, p.off)
	}
	p.o.cells[p.off] = v
}

func (m *Machine) runtimePanic(text string) {
	if m.depth == 0 {
		_ = text
	}
	panic(&goPanic{val: m.runtimeError(text), runtime: true, text: "runtime error: " + text})
}

func (m *Machine) runtimeError(text string) Iface {
	return Iface{m.rt(m.eng.runtimeErrType), "runtime error: " + text}
}

func (m *Machine) resetPath(it *Item) {
	// Undo writes to pre-path objects.
	for i := len(m.undo) - 1; i >= 0; i-- {
		u := m.undo[i]
		u.o.cells[u.off] = u.v
	}
	m.undo = m.undo[:0]
	m.gen++
	m.epoch++
	if m.tt.next > 3_000_000 && len(m.leaves) == 0 {
		// Unbounded growth guard: drop interned terms and the solver context.
		m.tt = newTermTable()
		m.solver.close()
		m.solver.start()
	}
	m.prefix = it.prefix
	m.syncRun = it.sync
	m.pos = 0
	m.trace = m.trace[:0]
	m.pc = m.pc[:0]
	m.vars = m.vars[:0]
	m.model = append([]uint64(nil), it.model...)
	m.ufs = map[string][]ufApp{}
	m.obs = nil
	m.reached = map[string]bool{}
	m.steps = 0
	m.nextObj = 0
	m.depth = 0
	m.locks = nil
	m.sched = nil
	m.conc = false
	m.preempts = 0
	m.initShadow = map[*Obj][]*shadow{}
	m.violation = nil
	m.pending = nil
	m.asserted = 0
}
