package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const maxDepth = 4000

func (m *Machine) call(caller *Frame, fn *Fn, args []Value, env []Value) Value {
	if fn.intr != nil {
		return fn.intr(m, caller, args)
	}
	if !fn.compiled {
		m.compile(fn)
	}
	if fn.blocks == nil {
		panic(engineError("call to function without body: " + fn.name))
	}
	if fn.f.Pkg != nil && fn.f.Name() == "init" && fn.f.Synthetic != "" {
		if p := fn.f.Pkg.Pkg.Path(); p == "internal/cpu" || !m.eng.interpretInit(p) {
			return nil
		}
	} else if p := fnPkg(fn.f); p != nil && !m.eng.interpretable(p.Path()) {
		panic(engineError("call into uninterpreted package: " + fn.name))
	}
	if !m.fnsSeen[fn] {
		m.fnsSeen[fn] = true
	}
	fr := &Frame{m: m, fn: fn, caller: caller}
	if caller != nil {
		fr.g = caller.g
	}
	fr.regs = make([]Value, fn.nregs)
	copy(fr.regs, args)
	if env != nil {
		copy(fr.regs[len(fn.f.Params):], env)
	}
	m.depth++
	if m.depth > maxDepth {
		m.failHang("call depth exceeds the bound")
	}
	fr.run()
	m.depth--
	return fr.ret
}

func fnPkg(f *ssa.Function) *types.Package {
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg
	}
	if p := f.Parent(); p != nil {
		return fnPkg(p)
	}
	if o := f.Object(); o != nil {
		return o.Pkg()
	}
	return nil
}

func (fr *Frame) run() {
	if fr.fn.hasDefer {
		d := fr.m.depth
		if fr.protected() {
			return
		}
		fr.m.depth = d
		// Recovered: run the recover block to produce named results.
		if fr.fn.recover != nil {
			fr.exec(fr.fn.recover)
		} else {
			switch len(fr.fn.resTypes) {
			case 0:
			case 1:
				fr.ret = fr.fn.resTypes[0].zeroValue()
			default:
				t := Tuple{}
				for _, rt := range fr.fn.resTypes {
					t = append(t, rt.zeroValue())
				}
				fr.ret = t
			}
		}
		return
	}
	fr.exec(fr.fn.blocks[0])
}

// protected executes the body; a Go-level panic runs the deferred calls.
func (fr *Frame) protected() (ok bool) {
	normal := false
	defer func() {
		if normal {
			return
		}
		r := recover()
		gp, is := r.(*goPanic)
		if !is {
			panic(r)
		}
		fr.panicking = gp
		fr.recovered = false
		fr.unwind()
		if fr.panicking != nil {
			panic(fr.panicking)
		}
		ok = false
	}()
	fr.exec(fr.fn.blocks[0])
	normal = true
	return true
}

// unwind runs deferred calls while panicking; a deferred call may itself panic.
func (fr *Frame) unwind() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					gp, is := r.(*goPanic)
					if !is {
						panic(r)
					}
					fr.panicking = gp
				}
			}()
			fr.runDeferred(d)
		}()
	}
}

func (fr *Frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runDeferred(d)
	}
}

func (fr *Frame) runDeferred(d deferRec) {
	if d.bi != nil {
		if d.bi.Name() == "recover" {
			return // a directly deferred recover() does not recover
		}
		fr.m.builtinCall(fr, d.bi, d.call, d.args)
		return
	}
	cl, _ := d.fn.(*Closure)
	if cl == nil {
		fr.m.nilDeref()
	}
	fr.m.call(fr, cl.fn, d.args, cl.env)
}

func (m *Machine) recoverBuiltin(fr *Frame) Value {
	// fr is the deferred function's frame; its caller is the panicking frame.
	if c := fr.caller; c != nil && c.panicking != nil {
		p := c.panicking
		c.panicking = nil
		return p.val
	}
	return Iface{}
}

func (fr *Frame) exec(b *Blk) {
	m := fr.m
	for b != nil {
		if len(b.phis) > 0 {
			if len(b.phis) == 1 {
				p := &b.phis[0]
				fr.regs[p.dst] = p.edges[fr.pred].get(fr)
			} else {
				tmp := fr.phiTmp[:0]
				for i := range b.phis {
					tmp = append(tmp, b.phis[i].edges[fr.pred].get(fr))
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = tmp[i]
				}
				fr.phiTmp = tmp
			}
		}
		m.steps += b.n
		if m.steps > m.eng.maxSteps {
			m.failHang(fmt.Sprintf("more than %d instructions in %s", m.eng.maxSteps, fr.fn.name))
		}
		for _, ins := range b.ins {
			ins(fr)
		}
		b = b.term(fr)
	}
}

// failHang reports a path that exceeds the execution bound; native replay
// decides whether it is a genuine non-termination.
func (m *Machine) failHang(msg string) {
	if m.inInit {
		panic(engineError(msg))
	}
	m.fail("hang", msg)
}

// eq builds the (non-forking) equality of two values of static type t.
func (m *Machine) eq(t *RType, a, b Value) *Term {
	switch t.kind {
	case KInt, KBool:
		return m.tt.Eq(a.(*Term), b.(*Term))
	case KFloat:
		return mkBool(a.(float64) == b.(float64))
	case KString:
		return mkBool(a.(string) == b.(string))
	case KPtr, KUnsafe:
		return mkBool(a.(Ptr) == b.(Ptr))
	case KIface:
		x, y := a.(Iface), b.(Iface)
		if x.t != y.t {
			return tFalse
		}
		if x.t == nil {
			return tTrue
		}
		if !m.comparable(x.t) {
			msg := "comparing uncomparable type " + shortType(x.t.str)
			panic(&goPanic{val: m.runtimeError(msg), runtime: true, text: "runtime error: " + msg})
		}
		return m.eq(x.t, x.v, y.v)
	case KStruct:
		x, y := a.(Agg), b.(Agg)
		r := tTrue
		for i, f := range t.fields {
			if st := t.under.(*types.Struct); st.Field(i).Name() == "_" {
				continue
			}
			o := t.offs[i]
			var e *Term
			if f.agg() {
				e = m.eq(f, x[o:o+f.size], y[o:o+f.size])
			} else {
				e = m.eq(f, x[o], y[o])
			}
			if e == tFalse {
				return tFalse
			}
			r = m.tt.And(r, e)
		}
		return r
	case KArray:
		x, y := a.(Agg), b.(Agg)
		r := tTrue
		for i := 0; i < t.n; i++ {
			o := i * t.elem.size
			var e *Term
			if t.elem.agg() {
				e = m.eq(t.elem, x[o:o+t.elem.size], y[o:o+t.elem.size])
			} else {
				e = m.eq(t.elem, x[o], y[o])
			}
			if e == tFalse {
				return tFalse
			}
			r = m.tt.And(r, e)
		}
		return r
	case KChan:
		return mkBool(a.(*ChanObj) == b.(*ChanObj))
	case KMap:
		return mkBool(a.(*MapObj) == b.(*MapObj)) // only against nil
	case KFunc:
		return mkBool(a.(*Closure) == b.(*Closure)) // only against nil
	case KSlice:
		x, y := a.(Slice), b.(Slice)
		return mkBool(x.o == nil && y.o == nil) // only against nil
	}
	panic(engineError("equality on " + t.str))
}

func (m *Machine) comparable(t *RType) bool {
	switch t.kind {
	case KSlice, KMap, KFunc:
		return false
	}
	return types.Comparable(t.typ)
}

// --- maps ---

type mapEnt struct{ k, v Value }

type MapObj struct {
	ents []mapEnt
	gen  uint32
	sh   *shadow
	id   uint32
}

type rangeIter struct {
	s    string
	pos  int
	mo   *MapObj
	keys []mapEnt
	m    *Machine
}

func (m *Machine) mapFind(mo *MapObj, kt *RType, k Value) int {
	if mo == nil {
		return -1
	}
	if kt.kind == KIface {
		if x := k.(Iface); x.t != nil && !m.comparable(x.t) {
			msg := "hash of unhashable type " + shortType(x.t.str)
			panic(&goPanic{val: m.runtimeError(msg), runtime: true, text: "runtime error: " + msg})
		}
	}
	for i := range mo.ents {
		if m.decide(m.eq(kt, mo.ents[i].k, k)) {
			return i
		}
	}
	return -1
}

func (m *Machine) mapGet(mo *MapObj, kt *RType, k Value) (Value, bool) {
	if m.conc && mo != nil {
		m.sched.accessMap(mo, false)
	}
	i := m.mapFind(mo, kt, k)
	if i < 0 {
		return nil, false
	}
	return mo.ents[i].v, true
}

func (m *Machine) mapMut(mo *MapObj) {
	if m.conc {
		m.sched.accessMap(mo, true)
	}
	if mo.gen != m.gen && !m.inInit {
		panic(engineError("mutation of a package-level map"))
	}
}

func (m *Machine) mapSet(mo *MapObj, kt *RType, k, v Value) {
	m.mapMut(mo)
	if i := m.mapFind(mo, kt, k); i >= 0 {
		mo.ents[i].v = v
		return
	}
	mo.ents = append(mo.ents, mapEnt{k, v})
}

func (m *Machine) mapDelete(mo *MapObj, kt *RType, k Value) {
	if mo == nil {
		return
	}
	m.mapMut(mo)
	if i := m.mapFind(mo, kt, k); i >= 0 {
		mo.ents = append(append([]mapEnt(nil), mo.ents[:i]...), mo.ents[i+1:]...)
	}
}

// mapRange iterates in insertion order or (by a nondeterministic choice) in
// reverse.
func (m *Machine) mapRange(mo *MapObj) *rangeIter {
	if m.conc && mo != nil {
		m.sched.accessMap(mo, false)
	}
	it := &rangeIter{mo: mo, m: m}
	if mo == nil {
		return it
	}
	it.keys = append(it.keys, mo.ents...)
	if len(it.keys) > 1 && !m.inInit && m.cfg.MapOrder {
		if m.choose("maporder", "sched", 2) == 1 {
			for i, j := 0, len(it.keys)-1; i < j; i, j = i+1, j-1 {
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
			}
		}
	}
	return it
}

func (it *rangeIter) next() (k, v Value, ok bool) {
	for it.pos < len(it.keys) {
		e := it.keys[it.pos]
		it.pos++
		// Entries deleted since the range began are skipped; updates are seen.
		for i := range it.mo.ents {
			if sameValue(it.mo.ents[i].k, e.k) {
				return e.k, it.mo.ents[i].v, true
			}
		}
	}
	return nil, nil, false
}

func sameValue(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && sameTerm(x, y)
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameValue(x[i], y[i]) {
				return false
			}
		}
		return true
	case Iface:
		y, ok := b.(Iface)
		return ok && x.t == y.t && sameValue(x.v, y.v)
	}
	return a == b
}

// --- builtins ---

func (c *compiler) builtin(b *ssa.Builtin, call *ssa.CallCommon, ops []opnd) func(fr *Frame) Value {
	switch b.Name() {
	case "len":
		o := ops[0]
		t := c.m.rt(call.Args[0].Type())
		switch t.kind {
		case KSlice:
			return func(fr *Frame) Value { return mkConst(64, uint64(o.get(fr).(Slice).len)) }
		case KString:
			return func(fr *Frame) Value { return mkConst(64, uint64(len(o.get(fr).(string)))) }
		}
	case "cap":
		o := ops[0]
		if c.m.rt(call.Args[0].Type()).kind == KSlice {
			return func(fr *Frame) Value { return mkConst(64, uint64(o.get(fr).(Slice).cap)) }
		}
	case "recover":
		return func(fr *Frame) Value { return fr.m.recoverBuiltin(fr) }
	}
	return func(fr *Frame) Value {
		args := make([]Value, len(ops))
		for i, o := range ops {
			args[i] = o.get(fr)
		}
		return fr.m.builtinCall(fr, b, call, args)
	}
}

func growCap(old, need int) int {
	// Mirrors runtime.nextslicecap without size-class rounding; see roundCap.
	if need > 2*old {
		return need
	}
	if old < 256 {
		return 2 * old
	}
	n := old
	for n < need {
		n += (n + 3*256) / 4
	}
	return n
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192}

func roundCap(n, elemBytes int) int {
	if elemBytes == 0 {
		return n
	}
	bytes := n * elemBytes
	for _, c := range sizeClasses {
		if c >= bytes {
			return c / elemBytes
		}
	}
	return n
}

func (m *Machine) appendSlice(s Slice, et *RType, add []Value, n int) Slice {
	if n == 0 {
		return s
	}
	sz := et.size
	if s.len+n <= s.cap {
		for i, v := range add {
			o := s.off + s.len*sz + i
			if m.conc {
				m.sched.access(Ptr{s.o, o}, 1, true)
			}
			m.log(s.o, o)
			s.o.cells[o] = v
		}
		s.len += n
		return s
	}
	bytes := int(m.eng.sizes.Sizeof(et.typ))
	k := roundCap(growCap(s.cap, s.len+n), bytes)
	ns := m.makeSlice(et, s.len+n, k)
	if s.len > 0 {
		if m.conc {
			m.sched.access(Ptr{s.o, s.off}, s.len*sz, false)
		}
		copy(ns.o.cells, s.o.cells[s.off:s.off+s.len*sz])
	}
	copy(ns.o.cells[s.len*sz:], add)
	return ns
}

func (m *Machine) sliceCells(s Slice, sz int) []Value {
	if s.len == 0 || sz == 0 {
		return nil
	}
	if m.conc {
		m.sched.access(Ptr{s.o, s.off}, s.len*sz, false)
	}
	return append([]Value(nil), s.o.cells[s.off:s.off+s.len*sz]...)
}

func (m *Machine) builtinCall(fr *Frame, b *ssa.Builtin, call *ssa.CallCommon, args []Value) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return mkConst(64, uint64(x.len))
		case string:
			return mkConst(64, uint64(len(x)))
		case *MapObj:
			if x == nil {
				return mkConst(64, 0)
			}
			if m.conc {
				m.sched.accessMap(x, false)
			}
			return mkConst(64, uint64(len(x.ents)))
		case *ChanObj:
			return mkConst(64, uint64(len(x.buf)))
		case Ptr:
			return mkConst(64, uint64(m.rt(call.Args[0].Type().Underlying().(*types.Pointer).Elem()).n))
		case Agg:
			return mkConst(64, uint64(m.rt(call.Args[0].Type()).n))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return mkConst(64, uint64(x.cap))
		case *ChanObj:
			return mkConst(64, uint64(x.cap))
		case Ptr:
			return mkConst(64, uint64(m.rt(call.Args[0].Type().Underlying().(*types.Pointer).Elem()).n))
		case Agg:
			return mkConst(64, uint64(m.rt(call.Args[0].Type()).n))
		}
	case "append":
		st := m.rt(call.Args[0].Type())
		et := m.elemOf(st)
		s := args[0].(Slice)
		switch x := args[1].(type) {
		case string:
			var add []Value
			for i := 0; i < len(x); i++ {
				add = append(add, mkConst(8, uint64(x[i])))
			}
			return m.appendSlice(s, et, add, len(add))
		case Slice:
			return m.appendSlice(s, et, m.sliceCells(x, et.size), x.len)
		}
	case "copy":
		dt := m.rt(call.Args[0].Type())
		et := m.elemOf(dt)
		d := args[0].(Slice)
		var src []Value
		n := 0
		switch x := args[1].(type) {
		case string:
			for i := 0; i < len(x) && i < d.len; i++ {
				src = append(src, mkConst(8, uint64(x[i])))
			}
			n = len(src)
		case Slice:
			n = min(x.len, d.len)
			x.len = n
			src = m.sliceCells(x, et.size)
		}
		for i, v := range src {
			o := d.off + i
			if m.conc {
				m.sched.access(Ptr{d.o, o}, 1, true)
			}
			m.log(d.o, o)
			d.o.cells[o] = v
		}
		return mkConst(64, uint64(n))
	case "delete":
		mt := m.rt(call.Args[0].Type())
		m.elemOf(mt)
		m.mapDelete(args[0].(*MapObj), mt.key, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapObj:
			if x != nil {
				m.mapMut(x)
				x.ents = nil
			}
			return nil
		case Slice:
			et := m.elemOf(m.rt(call.Args[0].Type()))
			for i := 0; i < x.len*et.size; i++ {
				m.log(x.o, x.off+i)
				x.o.cells[x.off+i] = et.zero[i%et.size]
			}
			return nil
		}
	case "min", "max":
		t := m.rt(call.Args[0].Type())
		if t.kind == KInt {
			r := args[0].(*Term)
			for _, a := range args[1:] {
				x := a.(*Term)
				op := OpUlt
				if t.signed {
					op = OpSlt
				}
				c := m.tt.Cmp(op, x, r)
				if b.Name() == "max" {
					c = m.tt.Cmp(op, r, x)
				}
				r = m.tt.Ite(c, x, r)
			}
			return r
		}
	case "close":
		m.chanClose(fr, args[0].(*ChanObj))
		return nil
	case "print", "println":
		return nil
	case "recover":
		return m.recoverBuiltin(fr)
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.o == nil {
			m.nilDeref()
		}
		return args[0]
	}
	panic(engineError("builtin " + b.Name()))
}
