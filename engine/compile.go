package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Fn struct {
	f         *ssa.Function
	name      string
	nregs     int
	blocks    []*Blk
	slots     map[ssa.Value]int
	intr      intrinsic
	compiled  bool
	hasDefer  bool
	nresults  int
	resTypes  []*RType
	inModule  bool
	isHarness bool
	recover   *Blk
}

type Blk struct {
	idx  int
	phis []phiC
	ins  []func(fr *Frame)
	term func(fr *Frame) *Blk // nil = return
	n    int64
}

type phiC struct {
	dst   int
	edges []opnd
}

type opnd struct {
	slot int
	c    Value
}

func (o opnd) get(fr *Frame) Value {
	if o.slot >= 0 {
		return fr.regs[o.slot]
	}
	return o.c
}

type deferRec struct {
	fn   Value // *Closure or builtin name
	bi   *ssa.Builtin
	args []Value
	call *ssa.CallCommon
}

type Frame struct {
	m         *Machine
	g         *Gor
	fn        *Fn
	caller    *Frame
	regs      []Value
	ret       Value
	defers    []deferRec
	panicking *goPanic
	recovered bool
	pred      int
	phiTmp    []Value
}

type intrinsic func(m *Machine, fr *Frame, args []Value) Value

func (m *Machine) fn(f *ssa.Function) *Fn {
	if fn, ok := m.fns[f]; ok {
		return fn
	}
	name := f.String()
	if o := f.Origin(); o != nil {
		name = o.String()
	}
	fn := &Fn{f: f, name: f.String(), nresults: f.Signature.Results().Len()}
	for i := 0; i < fn.nresults; i++ {
		fn.resTypes = append(fn.resTypes, m.rt(f.Signature.Results().At(i).Type()))
	}
	fn.inModule = strings.Contains(name, modPath)
	fn.isHarness = strings.Contains(name, modPath+"/internal/zzverif")
	m.fns[f] = fn
	if in, ok := intrinsics[name]; ok {
		fn.intr = in
		return fn
	}
	if to, ok := substitutes[name]; ok {
		sf := m.eng.lookupFunc(to)
		if sf == nil {
			panic(engineError("missing substitute " + to))
		}
		sub := m.fn(sf)
		*fn = *sub
		if !fn.compiled && fn.intr == nil {
			m.compile(fn)
		}
		return fn
	}
	return fn
}

func (m *Machine) constVal(c *ssa.Const) Value {
	t := m.rt(c.Type())
	if c.Value == nil {
		return t.zeroValue()
	}
	switch t.kind {
	case KBool:
		return mkBool(constant.BoolVal(c.Value))
	case KInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return mkConst(t.w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return mkConst(t.w, u)
	case KFloat:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if t.w == 32 {
			f = float64(float32(f))
		}
		return f
	case KString:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(constant.ToInt(c.Value))
		return string(rune(i))
	case KUnsafe:
		return Ptr{}
	}
	panic(engineError("constant of type " + t.str))
}

func (m *Machine) global(g *ssa.Global) Ptr {
	o, ok := m.globals[g]
	if !ok {
		if g.Pkg != nil && !m.eng.interpretInit(g.Pkg.Pkg.Path()) {
			panic(engineError("access to global of uninterpreted package: " + g.String()))
		}
		t := m.rt(g.Type().(*types.Pointer).Elem())
		c := make([]Value, t.size)
		copy(c, t.zero)
		o = &Obj{cells: c, gen: 0, id: 0}
		m.globals[g] = o
	}
	return Ptr{o, 0}
}

func (m *Machine) compile(fn *Fn) {
	if fn.compiled {
		return
	}
	fn.compiled = true
	f := fn.f
	if f.Blocks == nil {
		return
	}
	fn.slots = map[ssa.Value]int{}
	slot := func(v ssa.Value) int {
		s, ok := fn.slots[v]
		if !ok {
			s = fn.nregs
			fn.nregs++
			fn.slots[v] = s
		}
		return s
	}
	for _, p := range f.Params {
		slot(p)
	}
	for _, p := range f.FreeVars {
		slot(p)
	}
	fn.blocks = make([]*Blk, len(f.Blocks))
	for i := range f.Blocks {
		fn.blocks[i] = &Blk{idx: i}
	}
	c := &compiler{m: m, fn: fn, slot: slot}
	for i, b := range f.Blocks {
		c.block(fn.blocks[i], b)
	}
	if f.Recover != nil {
		fn.recover = fn.blocks[f.Recover.Index]
	}
}

type compiler struct {
	m    *Machine
	fn   *Fn
	slot func(ssa.Value) int
}

func (c *compiler) op(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{-1, c.m.constVal(v)}
	case *ssa.Global:
		// Resolved lazily to avoid touching uninterpreted globals on dead paths.
		m := c.m
		if v.Pkg != nil && !m.eng.interpretInit(v.Pkg.Pkg.Path()) {
			return opnd{-1, badGlobal{v.String()}}
		}
		return opnd{-1, m.global(v)}
	case *ssa.Function:
		return opnd{-1, &Closure{fn: c.m.fn(v)}}
	case *ssa.Builtin:
		return opnd{-1, v}
	}
	return opnd{c.slot(v), nil}
}

type badGlobal struct{ name string }

func (c *compiler) block(b *Blk, sb *ssa.BasicBlock) {
	for _, ins := range sb.Instrs {
		b.n++
		switch ins := ins.(type) {
		case *ssa.Phi:
			p := phiC{dst: c.slot(ins)}
			for _, e := range ins.Edges {
				p.edges = append(p.edges, c.op(e))
			}
			b.phis = append(b.phis, p)
		case *ssa.DebugRef:
		case *ssa.Jump:
			to := c.fn.blocks[sb.Succs[0].Index]
			pi := predIndex(sb, sb.Succs[0], 0)
			b.term = func(fr *Frame) *Blk { fr.pred = pi; return to }
		case *ssa.If:
			cond := c.op(ins.Cond)
			t, f := c.fn.blocks[sb.Succs[0].Index], c.fn.blocks[sb.Succs[1].Index]
			pt, pf := predIndex(sb, sb.Succs[0], 0), predIndex(sb, sb.Succs[1], 1)
			b.term = func(fr *Frame) *Blk {
				if fr.m.decide(cond.get(fr).(*Term)) {
					fr.pred = pt
					return t
				}
				fr.pred = pf
				return f
			}
		case *ssa.Return:
			ops := make([]opnd, len(ins.Results))
			for i, r := range ins.Results {
				ops[i] = c.op(r)
			}
			switch len(ops) {
			case 0:
				b.term = func(fr *Frame) *Blk { fr.ret = nil; return nil }
			case 1:
				o := ops[0]
				b.term = func(fr *Frame) *Blk { fr.ret = o.get(fr); return nil }
			default:
				b.term = func(fr *Frame) *Blk {
					t := make(Tuple, len(ops))
					for i, o := range ops {
						t[i] = o.get(fr)
					}
					fr.ret = t
					return nil
				}
			}
		case *ssa.Panic:
			x := c.op(ins.X)
			b.term = func(fr *Frame) *Blk {
				panic(&goPanic{val: x.get(fr).(Iface)})
			}
		default:
			b.ins = append(b.ins, c.instr(ins))
		}
	}
	if b.term == nil {
		b.term = func(fr *Frame) *Blk { panic(engineError("block without terminator")) }
	}
}

// predIndex finds which predecessor edge of to comes from from's succ-th edge.
func predIndex(from, to *ssa.BasicBlock, succ int) int {
	// Handle both successors being the same block.
	dup := 0
	for i := 0; i < succ; i++ {
		if from.Succs[i] == to {
			dup++
		}
	}
	for i, p := range to.Preds {
		if p == from {
			if dup == 0 {
				return i
			}
			dup--
		}
	}
	panic("predIndex")
}

func (c *compiler) instr(ins ssa.Instruction) func(fr *Frame) {
	m := c.m
	switch ins := ins.(type) {
	case *ssa.Alloc:
		dst := c.slot(ins)
		t := m.rt(ins.Type().Underlying().(*types.Pointer).Elem())
		return func(fr *Frame) { fr.regs[dst] = Ptr{fr.m.allocType(t), 0} }
	case *ssa.BinOp:
		return c.binop(ins)
	case *ssa.UnOp:
		return c.unop(ins)
	case *ssa.ChangeType, *ssa.ChangeInterface:
		v := ins.(ssa.Value)
		x := c.op(*ins.Operands(nil)[0])
		dst := c.slot(v)
		return func(fr *Frame) { fr.regs[dst] = x.get(fr) }
	case *ssa.Convert:
		return c.convert(ins.X, ins)
	case *ssa.MultiConvert:
		return c.convert(ins.X, ins)
	case *ssa.MakeInterface:
		dst := c.slot(ins)
		x := c.op(ins.X)
		t := m.rt(ins.X.Type())
		return func(fr *Frame) { fr.regs[dst] = Iface{t, x.get(fr)} }
	case *ssa.Extract:
		dst := c.slot(ins)
		x := c.op(ins.Tuple)
		i := ins.Index
		return func(fr *Frame) { fr.regs[dst] = x.get(fr).(Tuple)[i] }
	case *ssa.Field:
		dst := c.slot(ins)
		x := c.op(ins.X)
		st := m.rt(ins.X.Type())
		ft, off := st.fields[ins.Field], st.offs[ins.Field]
		if ft.agg() {
			n := ft.size
			return func(fr *Frame) { fr.regs[dst] = x.get(fr).(Agg)[off : off+n : off+n] }
		}
		return func(fr *Frame) { fr.regs[dst] = x.get(fr).(Agg)[off] }
	case *ssa.FieldAddr:
		dst := c.slot(ins)
		x := c.op(ins.X)
		st := m.rt(ins.X.Type().Underlying().(*types.Pointer).Elem())
		off := st.offs[ins.Field]
		return func(fr *Frame) {
			p, ok := x.get(fr).(Ptr)
			if !ok {
				badOperand(x.get(fr))
			}
			if p.o == nil {
				fr.m.nilDeref()
			}
			fr.regs[dst] = Ptr{p.o, p.off + off}
		}
	case *ssa.IndexAddr:
		dst := c.slot(ins)
		x, idx := c.op(ins.X), c.op(ins.Index)
		isgn := m.rt(ins.Index.Type()).signed
		xt := m.rt(ins.X.Type())
		if xt.kind == KSlice {
			et := m.elemOf(xt)
			return func(fr *Frame) {
				s := x.get(fr).(Slice)
				i := fr.m.index(idx.get(fr).(*Term), isgn, s.len)
				fr.regs[dst] = Ptr{s.o, s.off + i*et.size}
			}
		}
		at := m.rt(xt.under.(*types.Pointer).Elem())
		return func(fr *Frame) {
			p, ok := x.get(fr).(Ptr)
			if !ok {
				badOperand(x.get(fr))
			}
			if p.o == nil {
				fr.m.nilDeref()
			}
			i := fr.m.index(idx.get(fr).(*Term), isgn, at.n)
			fr.regs[dst] = Ptr{p.o, p.off + i*at.elem.size}
		}
	case *ssa.Index:
		dst := c.slot(ins)
		x, idx := c.op(ins.X), c.op(ins.Index)
		isgn := m.rt(ins.Index.Type()).signed
		xt := m.rt(ins.X.Type())
		if xt.kind == KString {
			return func(fr *Frame) {
				s := x.get(fr).(string)
				i := fr.m.index(idx.get(fr).(*Term), isgn, len(s))
				fr.regs[dst] = mkConst(8, uint64(s[i]))
			}
		}
		return func(fr *Frame) {
			a := x.get(fr).(Agg)
			i := fr.m.index(idx.get(fr).(*Term), isgn, xt.n)
			n := xt.elem.size
			if xt.elem.agg() {
				fr.regs[dst] = a[i*n : i*n+n : i*n+n]
			} else {
				fr.regs[dst] = a[i]
			}
		}
	case *ssa.Lookup:
		dst := c.slot(ins)
		x, idx := c.op(ins.X), c.op(ins.Index)
		xt := m.rt(ins.X.Type())
		if xt.kind == KString {
			isgn := m.rt(ins.Index.Type()).signed
			return func(fr *Frame) {
				s := x.get(fr).(string)
				i := fr.m.index(idx.get(fr).(*Term), isgn, len(s))
				fr.regs[dst] = mkConst(8, uint64(s[i]))
			}
		}
		et := m.elemOf(xt)
		kt := xt.key
		ok := ins.CommaOk
		return func(fr *Frame) {
			mo := x.get(fr).(*MapObj)
			v, found := fr.m.mapGet(mo, kt, idx.get(fr))
			if !found {
				v = et.zeroValue()
			}
			if ok {
				fr.regs[dst] = Tuple{v, mkBool(found)}
			} else {
				fr.regs[dst] = v
			}
		}
	case *ssa.MapUpdate:
		x, k, v := c.op(ins.Map), c.op(ins.Key), c.op(ins.Value)
		xt := m.rt(ins.Map.Type())
		m.elemOf(xt)
		return func(fr *Frame) {
			mo := x.get(fr).(*MapObj)
			if mo == nil {
				panic(&goPanic{val: fr.m.runtimeError("assignment to entry in nil map"), runtime: true, text: "assignment to entry in nil map"})
			}
			fr.m.mapSet(mo, xt.key, k.get(fr), v.get(fr))
		}
	case *ssa.MakeMap:
		dst := c.slot(ins)
		return func(fr *Frame) {
			fr.regs[dst] = &MapObj{gen: fr.m.gen}
		}
	case *ssa.Range:
		dst := c.slot(ins)
		x := c.op(ins.X)
		xt := m.rt(ins.X.Type())
		return func(fr *Frame) {
			if xt.kind == KString {
				fr.regs[dst] = &rangeIter{s: x.get(fr).(string)}
				return
			}
			fr.regs[dst] = fr.m.mapRange(x.get(fr).(*MapObj))
		}
	case *ssa.Next:
		dst := c.slot(ins)
		x := c.op(ins.Iter)
		isStr := ins.IsString
		var kt, vt *RType
		if !isStr {
			tt := ins.Type().(*types.Tuple)
			if b, ok := tt.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
				kt = m.rt(tt.At(1).Type())
			}
			if b, ok := tt.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
				vt = m.rt(tt.At(2).Type())
			}
		}
		return func(fr *Frame) {
			it := x.get(fr).(*rangeIter)
			if isStr {
				for i, r := range it.s[it.pos:] {
					p := it.pos + i
					it.pos = p + runeLen(it.s[p:])
					fr.regs[dst] = Tuple{tTrue, mkConst(64, uint64(p)), mkConst(32, uint64(r))}
					return
				}
				fr.regs[dst] = Tuple{tFalse, mkConst(64, 0), mkConst(32, 0)}
				return
			}
			k, v, ok := it.next()
			if !ok {
				t := Tuple{tFalse, nil, nil}
				if kt != nil {
					t[1] = kt.zeroValue()
				}
				if vt != nil {
					t[2] = vt.zeroValue()
				}
				fr.regs[dst] = t
				return
			}
			fr.regs[dst] = Tuple{tTrue, k, v}
		}
	case *ssa.MakeSlice:
		dst := c.slot(ins)
		l, cp := c.op(ins.Len), c.op(ins.Cap)
		et := m.elemOf(m.rt(ins.Type()))
		return func(fr *Frame) {
			n := fr.m.smallInt(l.get(fr).(*Term), "makeslice: len out of range")
			k := fr.m.smallInt(cp.get(fr).(*Term), "makeslice: cap out of range")
			if k < n {
				fr.m.runtimePanic("makeslice: cap out of range")
			}
			fr.regs[dst] = fr.m.makeSlice(et, n, k)
		}
	case *ssa.Slice:
		return c.slice(ins)
	case *ssa.SliceToArrayPointer:
		dst := c.slot(ins)
		x := c.op(ins.X)
		at := m.rt(ins.Type().Underlying().(*types.Pointer).Elem())
		return func(fr *Frame) {
			s := x.get(fr).(Slice)
			if s.len < at.n {
				fr.m.runtimePanic("cannot convert slice to array pointer")
			}
			fr.regs[dst] = Ptr{s.o, s.off}
		}
	case *ssa.MakeChan:
		dst := c.slot(ins)
		sz := c.op(ins.Size)
		return func(fr *Frame) {
			n := fr.m.smallInt(sz.get(fr).(*Term), "makechan: size out of range")
			fr.regs[dst] = &ChanObj{cap: n}
		}
	case *ssa.MakeClosure:
		dst := c.slot(ins)
		f := m.fn(ins.Fn.(*ssa.Function))
		bs := make([]opnd, len(ins.Bindings))
		for i, b := range ins.Bindings {
			bs[i] = c.op(b)
		}
		return func(fr *Frame) {
			env := make([]Value, len(bs))
			for i, b := range bs {
				env[i] = b.get(fr)
			}
			fr.regs[dst] = &Closure{f, env}
		}
	case *ssa.Store:
		a, v := c.op(ins.Addr), c.op(ins.Val)
		t := m.rt(ins.Val.Type())
		return func(fr *Frame) {
			p, ok := a.get(fr).(Ptr)
			if !ok {
				badOperand(a.get(fr))
			}
			fr.m.store(p, t, v.get(fr))
		}
	case *ssa.TypeAssert:
		return c.typeAssert(ins)
	case *ssa.Call:
		dst := c.slot(ins)
		call := c.call(&ins.Call)
		return func(fr *Frame) { fr.regs[dst] = call(fr) }
	case *ssa.Go:
		prep := c.prepCall(&ins.Call)
		return func(fr *Frame) {
			f, args := prep(fr)
			fr.m.goStart(fr, f, args)
		}
	case *ssa.Defer:
		c.fn.hasDefer = true
		if bi, ok := ins.Call.Value.(*ssa.Builtin); ok {
			ops := make([]opnd, len(ins.Call.Args))
			for i, a := range ins.Call.Args {
				ops[i] = c.op(a)
			}
			return func(fr *Frame) {
				args := make([]Value, len(ops))
				for i, o := range ops {
					args[i] = o.get(fr)
				}
				fr.defers = append(fr.defers, deferRec{bi: bi, args: args, call: &ins.Call})
			}
		}
		prep := c.prepCall(&ins.Call)
		return func(fr *Frame) {
			f, args := prep(fr)
			fr.defers = append(fr.defers, deferRec{fn: f, args: args})
		}
	case *ssa.RunDefers:
		return func(fr *Frame) { fr.runDefers() }
	case *ssa.Send:
		ch, x := c.op(ins.Chan), c.op(ins.X)
		return func(fr *Frame) { fr.m.chanSend(fr, ch.get(fr).(*ChanObj), x.get(fr)) }
	case *ssa.Select:
		return c.sel(ins)
	}
	str := fmt.Sprintf("%T %s in %s", ins, ins, c.fn.name)
	return func(fr *Frame) { panic(engineError("unsupported instruction " + str)) }
}

func badOperand(v Value) {
	if b, ok := v.(badGlobal); ok {
		panic(engineError("access to global of uninterpreted package: " + b.name))
	}
	panic(engineError(fmt.Sprintf("bad pointer operand %T", v)))
}

func runeLen(s string) int {
	for i := range s {
		if i > 0 {
			return i
		}
	}
	return len(s)
}

// index resolves an index operand against a bound, panicking if out of range.
func (m *Machine) index(t *Term, signed bool, n int) int {
	var i int
	if t.op == OpConst {
		if signed {
			i = int(sext(t.val, t.w))
		} else {
			i = int(t.val)
			if t.val > math.MaxInt64 {
				i = -1
			}
		}
	} else {
		w := t.w
		tt := t
		if w < 64 {
			if signed {
				tt = m.tt.SExt(t, 64)
			} else {
				tt = m.tt.ZExt(t, 64)
			}
		}
		if !m.decide(m.tt.Cmp(OpUlt, tt, mkConst(64, uint64(n)))) {
			m.runtimePanic(fmt.Sprintf("index out of range with length %d", n))
		}
		i = int(m.concretize(t))
	}
	if i < 0 || i >= n {
		m.runtimePanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
	}
	return i
}

func (m *Machine) smallInt(t *Term, what string) int {
	if t.op != OpConst {
		sx := m.tt.SExt(t, 64)
		if m.decide(m.tt.Cmp(OpSlt, sx, mkConst(64, 0))) {
			m.runtimePanic(what)
		}
		return int(m.concretize(t))
	}
	i := sext(t.val, t.w)
	if i < 0 || i > 1<<40 {
		m.runtimePanic(what)
	}
	if i > 1<<22 {
		panic(engineError(fmt.Sprintf("allocation of %d elements exceeds the model", i)))
	}
	return int(i)
}

func (m *Machine) makeSlice(et *RType, n, k int) Slice {
	cells := make([]Value, k*et.size)
	if et.size == 1 {
		z := et.zero[0]
		for i := range cells {
			cells[i] = z
		}
	} else {
		for i := 0; i < k; i++ {
			copy(cells[i*et.size:], et.zero)
		}
	}
	return Slice{m.newObj(cells), 0, n, k}
}

func (c *compiler) unop(ins *ssa.UnOp) func(fr *Frame) {
	m := c.m
	dst := c.slot(ins)
	x := c.op(ins.X)
	t := m.rt(ins.Type())
	switch ins.Op {
	case token.MUL:
		return func(fr *Frame) {
			p, ok := x.get(fr).(Ptr)
			if !ok {
				badOperand(x.get(fr))
			}
			fr.regs[dst] = fr.m.load(p, t)
		}
	case token.NOT:
		return func(fr *Frame) { fr.regs[dst] = fr.m.tt.Not(x.get(fr).(*Term)) }
	case token.SUB:
		if t.kind == KFloat {
			return func(fr *Frame) { fr.regs[dst] = -x.get(fr).(float64) }
		}
		return func(fr *Frame) {
			fr.regs[dst] = fr.m.tt.Bin(OpSub, mkConst(t.w, 0), x.get(fr).(*Term))
		}
	case token.XOR:
		return func(fr *Frame) { fr.regs[dst] = fr.m.tt.BNot(x.get(fr).(*Term)) }
	case token.ARROW:
		ct := m.rt(ins.X.Type())
		et := m.elemOf(ct)
		ok := ins.CommaOk
		return func(fr *Frame) {
			v, has := fr.m.chanRecv(fr, x.get(fr).(*ChanObj))
			if !has {
				v = et.zeroValue()
			}
			if ok {
				fr.regs[dst] = Tuple{v, mkBool(has)}
			} else {
				fr.regs[dst] = v
			}
		}
	}
	return func(fr *Frame) { panic(engineError("unop " + ins.String())) }
}

func (c *compiler) binop(ins *ssa.BinOp) func(fr *Frame) {
	m := c.m
	dst := c.slot(ins)
	x, y := c.op(ins.X), c.op(ins.Y)
	t := m.rt(ins.X.Type())
	switch ins.Op {
	case token.EQL, token.NEQ:
		neg := ins.Op == token.NEQ
		yt := m.rt(ins.Y.Type())
		return func(fr *Frame) {
			a, b := x.get(fr), y.get(fr)
			var r *Term
			if t.kind == KInt || t.kind == KBool {
				r = fr.m.tt.Eq(a.(*Term), b.(*Term))
			} else if t.kind == KIface && yt.kind != KIface {
				r = fr.m.eq(t, a, Iface{yt, b})
			} else if yt.kind == KIface && t.kind != KIface {
				r = fr.m.eq(yt, Iface{t, a}, b)
			} else {
				r = fr.m.eq(t, a, b)
			}
			if neg {
				r = fr.m.tt.Not(r)
			}
			fr.regs[dst] = r
		}
	}
	switch t.kind {
	case KInt:
		var op Op
		switch ins.Op {
		case token.ADD:
			op = OpAdd
		case token.SUB:
			op = OpSub
		case token.MUL:
			op = OpMul
		case token.AND:
			op = OpBAnd
		case token.OR:
			op = OpBOr
		case token.XOR:
			op = OpBXor
		case token.AND_NOT:
			return func(fr *Frame) {
				tt := fr.m.tt
				fr.regs[dst] = tt.Bin(OpBAnd, x.get(fr).(*Term), tt.BNot(y.get(fr).(*Term)))
			}
		case token.QUO, token.REM:
			switch {
			case ins.Op == token.QUO && t.signed:
				op = OpSDiv
			case ins.Op == token.QUO:
				op = OpUDiv
			case t.signed:
				op = OpSRem
			default:
				op = OpURem
			}
			return func(fr *Frame) {
				a, b := x.get(fr).(*Term), y.get(fr).(*Term)
				if b.op == OpConst {
					if b.val == 0 {
						fr.m.runtimePanic("integer divide by zero")
					}
				} else if fr.m.decide(fr.m.tt.Eq(b, mkConst(b.w, 0))) {
					fr.m.runtimePanic("integer divide by zero")
				}
				fr.regs[dst] = fr.m.divide(op, a, b)
			}
		case token.SHL, token.SHR:
			ys := m.rt(ins.Y.Type()).signed
			op = OpShl
			if ins.Op == token.SHR {
				op = OpLshr
				if t.signed {
					op = OpAshr
				}
			}
			return func(fr *Frame) {
				a, b := x.get(fr).(*Term), y.get(fr).(*Term)
				if ys {
					if b.op == OpConst {
						if sext(b.val, b.w) < 0 {
							fr.m.runtimePanic("negative shift amount")
						}
					} else if fr.m.decide(fr.m.tt.Cmp(OpSlt, b, mkConst(b.w, 0))) {
						fr.m.runtimePanic("negative shift amount")
					}
				}
				fr.regs[dst] = fr.m.shift(op, a, b)
			}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			lt, le := OpUlt, OpUle
			if t.signed {
				lt, le = OpSlt, OpSle
			}
			switch ins.Op {
			case token.LSS:
				return func(fr *Frame) { fr.regs[dst] = fr.m.tt.Cmp(lt, x.get(fr).(*Term), y.get(fr).(*Term)) }
			case token.LEQ:
				return func(fr *Frame) { fr.regs[dst] = fr.m.tt.Cmp(le, x.get(fr).(*Term), y.get(fr).(*Term)) }
			case token.GTR:
				return func(fr *Frame) { fr.regs[dst] = fr.m.tt.Cmp(lt, y.get(fr).(*Term), x.get(fr).(*Term)) }
			default:
				return func(fr *Frame) { fr.regs[dst] = fr.m.tt.Cmp(le, y.get(fr).(*Term), x.get(fr).(*Term)) }
			}
		default:
			return func(fr *Frame) { panic(engineError("binop " + ins.String())) }
		}
		return func(fr *Frame) {
			fr.regs[dst] = fr.m.tt.Bin(op, x.get(fr).(*Term), y.get(fr).(*Term))
		}
	case KString:
		switch ins.Op {
		case token.ADD:
			return func(fr *Frame) { fr.regs[dst] = x.get(fr).(string) + y.get(fr).(string) }
		case token.LSS:
			return func(fr *Frame) { fr.regs[dst] = mkBool(x.get(fr).(string) < y.get(fr).(string)) }
		case token.LEQ:
			return func(fr *Frame) { fr.regs[dst] = mkBool(x.get(fr).(string) <= y.get(fr).(string)) }
		case token.GTR:
			return func(fr *Frame) { fr.regs[dst] = mkBool(x.get(fr).(string) > y.get(fr).(string)) }
		case token.GEQ:
			return func(fr *Frame) { fr.regs[dst] = mkBool(x.get(fr).(string) >= y.get(fr).(string)) }
		}
	case KFloat:
		var f func(a, b float64) Value
		switch ins.Op {
		case token.ADD:
			f = func(a, b float64) Value { return a + b }
		case token.SUB:
			f = func(a, b float64) Value { return a - b }
		case token.MUL:
			f = func(a, b float64) Value { return a * b }
		case token.QUO:
			f = func(a, b float64) Value { return a / b }
		case token.LSS:
			f = func(a, b float64) Value { return mkBool(a < b) }
		case token.LEQ:
			f = func(a, b float64) Value { return mkBool(a <= b) }
		case token.GTR:
			f = func(a, b float64) Value { return mkBool(a > b) }
		case token.GEQ:
			f = func(a, b float64) Value { return mkBool(a >= b) }
		}
		if f != nil {
			return func(fr *Frame) {
				r := f(x.get(fr).(float64), y.get(fr).(float64))
				if v, ok := r.(float64); ok && t.w == 32 {
					r = float64(float32(v))
				}
				fr.regs[dst] = r
			}
		}
	}
	return func(fr *Frame) { panic(engineError("binop " + ins.String() + " on " + t.str)) }
}

func (m *Machine) divide(op Op, a, b *Term) *Term {
	if b.op == OpConst && a.op != OpConst && (op == OpSDiv || op == OpSRem) {
		sm := mask(a.w) >> 1
		if a.umax <= sm && b.val <= sm {
			if op == OpSDiv {
				return m.tt.Bin(OpUDiv, a, b)
			}
			return m.tt.Bin(OpURem, a, b)
		}
	}
	return m.tt.Bin(op, a, b)
}

func (m *Machine) shift(op Op, a, b *Term) *Term {
	w := a.w
	W := w
	if b.w > W {
		W = b.w
	}
	if b.op == OpConst {
		v := b.val
		if v > 64 {
			v = 64
		}
		if v >= uint64(w) {
			if op == OpAshr {
				v = uint64(w - 1)
			} else {
				return mkConst(w, 0)
			}
		}
		return m.tt.Bin(op, a, mkConst(w, v))
	}
	ax := a
	if W > w {
		if op == OpAshr {
			ax = m.tt.SExt(a, W)
		} else {
			ax = m.tt.ZExt(a, W)
		}
	}
	bx := b
	if b.w < W {
		bx = m.tt.ZExt(b, W)
	}
	return m.tt.Extract(m.tt.Bin(op, ax, bx), 0, w)
}

func (c *compiler) convert(xv ssa.Value, ins ssa.Value) func(fr *Frame) {
	m := c.m
	dst := c.slot(ins)
	x := c.op(xv)
	from, to := m.rt(xv.Type()), m.rt(ins.Type())
	switch {
	case from.kind == KInt && to.kind == KInt:
		return func(fr *Frame) {
			a := x.get(fr).(*Term)
			switch {
			case to.w == a.w:
			case to.w < a.w:
				a = fr.m.tt.Extract(a, 0, to.w)
			case from.signed:
				a = fr.m.tt.SExt(a, to.w)
			default:
				a = fr.m.tt.ZExt(a, to.w)
			}
			fr.regs[dst] = a
		}
	case from.kind == KInt && to.kind == KFloat:
		return func(fr *Frame) {
			v := fr.m.concretize(x.get(fr).(*Term))
			var f float64
			if from.signed {
				f = float64(sext(v, from.w))
			} else {
				f = float64(v)
			}
			if to.w == 32 {
				f = float64(float32(f))
			}
			fr.regs[dst] = f
		}
	case from.kind == KFloat && to.kind == KInt:
		return func(fr *Frame) {
			f := x.get(fr).(float64)
			if to.signed {
				fr.regs[dst] = mkConst(to.w, uint64(int64(f)))
			} else {
				fr.regs[dst] = mkConst(to.w, uint64(f))
			}
		}
	case from.kind == KFloat && to.kind == KFloat:
		return func(fr *Frame) {
			f := x.get(fr).(float64)
			if to.w == 32 {
				f = float64(float32(f))
			}
			fr.regs[dst] = f
		}
	case from.kind == KInt && to.kind == KString:
		return func(fr *Frame) {
			v := fr.m.concretize(x.get(fr).(*Term))
			fr.regs[dst] = string(rune(sext(v, from.w)))
		}
	case from.kind == KString && to.kind == KSlice:
		et := m.elemOf(to)
		return func(fr *Frame) {
			s := x.get(fr).(string)
			var cells []Value
			if et.w == 8 {
				for i := 0; i < len(s); i++ {
					cells = append(cells, mkConst(8, uint64(s[i])))
				}
			} else {
				for _, r := range s {
					cells = append(cells, mkConst(32, uint64(r)))
				}
			}
			fr.regs[dst] = Slice{fr.m.newObj(cells), 0, len(cells), len(cells)}
		}
	case from.kind == KSlice && to.kind == KString:
		et := m.elemOf(from)
		return func(fr *Frame) {
			fr.regs[dst] = fr.m.sliceToString(x.get(fr).(Slice), et)
		}
	case (from.kind == KPtr || from.kind == KUnsafe) && (to.kind == KPtr || to.kind == KUnsafe):
		return func(fr *Frame) { fr.regs[dst] = x.get(fr) }
	case from.kind == to.kind:
		return func(fr *Frame) { fr.regs[dst] = x.get(fr) }
	}
	return func(fr *Frame) { panic(engineError("conversion " + from.str + " to " + to.str)) }
}

func (m *Machine) sliceToString(s Slice, et *RType) string {
	if et.w == 8 {
		b := make([]byte, s.len)
		for i := range b {
			b[i] = byte(m.concretize(s.o.cells[s.off+i].(*Term)))
		}
		return string(b)
	}
	var sb strings.Builder
	for i := 0; i < s.len; i++ {
		sb.WriteRune(rune(m.concretize(s.o.cells[s.off+i].(*Term))))
	}
	return sb.String()
}

func (c *compiler) slice(ins *ssa.Slice) func(fr *Frame) {
	m := c.m
	dst := c.slot(ins)
	x := c.op(ins.X)
	xt := m.rt(ins.X.Type())
	opt := func(v ssa.Value) *opnd {
		if v == nil {
			return nil
		}
		o := c.op(v)
		return &o
	}
	lo, hi, mx := opt(ins.Low), opt(ins.High), opt(ins.Max)
	var et *RType
	var arr *RType
	switch xt.kind {
	case KSlice:
		et = m.elemOf(xt)
	case KPtr:
		arr = m.rt(xt.under.(*types.Pointer).Elem())
		et = arr.elem
	}
	bound := func(fr *Frame, o *opnd, d, max int) int {
		if o == nil {
			return d
		}
		t := o.get(fr).(*Term)
		if t.op != OpConst {
			sx := fr.m.tt.SExt(t, 64)
			if !fr.m.decide(fr.m.tt.Cmp(OpUle, sx, mkConst(64, uint64(max)))) {
				fr.m.runtimePanic("slice bounds out of range")
			}
			return int(fr.m.concretize(t))
		}
		return int(sext(t.val, t.w))
	}
	return func(fr *Frame) {
		var s Slice
		switch v := x.get(fr).(type) {
		case string:
			l := bound(fr, lo, 0, len(v))
			h := bound(fr, hi, len(v), len(v))
			if l < 0 || h < l || h > len(v) {
				fr.m.runtimePanic("slice bounds out of range")
			}
			fr.regs[dst] = v[l:h]
			return
		case Slice:
			s = v
		case Ptr:
			if v.o == nil {
				fr.m.nilDeref()
			}
			s = Slice{v.o, v.off, arr.n, arr.n}
		default:
			badOperand(v)
		}
		l := bound(fr, lo, 0, s.cap)
		h := bound(fr, hi, s.len, s.cap)
		k := bound(fr, mx, s.cap, s.cap)
		if l < 0 || h < l || k < h || k > s.cap {
			fr.m.runtimePanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, k, s.cap))
		}
		fr.regs[dst] = Slice{s.o, s.off + l*et.size, h - l, k - l}
	}
}

func (c *compiler) typeAssert(ins *ssa.TypeAssert) func(fr *Frame) {
	m := c.m
	dst := c.slot(ins)
	x := c.op(ins.X)
	t := m.rt(ins.AssertedType)
	ok := ins.CommaOk
	return func(fr *Frame) {
		v := x.get(fr).(Iface)
		var good bool
		var res Value
		if t.kind == KIface {
			good = v.t != nil && fr.m.implements(v.t, t)
			res = v
			if !good {
				res = Iface{}
			}
		} else {
			good = v.t == t
			if good {
				res = v.v
			} else {
				res = t.zeroValue()
			}
		}
		if ok {
			fr.regs[dst] = Tuple{res, mkBool(good)}
			return
		}
		if !good {
			have := "nil"
			if v.t != nil {
				have = v.t.str
			}
			msg := "interface conversion: interface is " + shortType(have) + ", not " + shortType(t.str)
			panic(&goPanic{val: fr.m.runtimeErrorText(msg), runtime: true, text: msg})
		}
		fr.regs[dst] = res
	}
}

func (m *Machine) runtimeErrorText(s string) Iface {
	return Iface{m.rt(m.eng.runtimeErrType), s}
}

// prepCall evaluates callee and arguments (for go/defer).
func (c *compiler) prepCall(call *ssa.CallCommon) func(fr *Frame) (Value, []Value) {
	ops := make([]opnd, len(call.Args))
	for i, a := range call.Args {
		ops[i] = c.op(a)
	}
	fv := c.op(call.Value)
	if call.IsInvoke() {
		meth := call.Method
		return func(fr *Frame) (Value, []Value) {
			v := fv.get(fr).(Iface)
			if v.t == nil {
				fr.m.nilDeref()
			}
			fn := fr.m.method(v.t, meth)
			args := make([]Value, len(ops)+1)
			args[0] = v.v
			for i, o := range ops {
				args[i+1] = o.get(fr)
			}
			return &Closure{fn: fn}, args
		}
	}
	return func(fr *Frame) (Value, []Value) {
		args := make([]Value, len(ops))
		for i, o := range ops {
			args[i] = o.get(fr)
		}
		cl, _ := fv.get(fr).(*Closure)
		return cl, args
	}
}

func (c *compiler) call(call *ssa.CallCommon) func(fr *Frame) Value {
	m := c.m
	ops := make([]opnd, len(call.Args))
	for i, a := range call.Args {
		ops[i] = c.op(a)
	}
	if call.IsInvoke() {
		recv := c.op(call.Value)
		meth := call.Method
		return func(fr *Frame) Value {
			v := recv.get(fr).(Iface)
			if v.t == nil {
				fr.m.nilDeref()
			}
			fn := fr.m.method(v.t, meth)
			args := make([]Value, len(ops)+1)
			args[0] = v.v
			for i, o := range ops {
				args[i+1] = o.get(fr)
			}
			return fr.m.call(fr, fn, args, nil)
		}
	}
	switch f := call.Value.(type) {
	case *ssa.Builtin:
		return c.builtin(f, call, ops)
	case *ssa.Function:
		fn := m.fn(f)
		return func(fr *Frame) Value {
			args := make([]Value, len(ops))
			for i, o := range ops {
				args[i] = o.get(fr)
			}
			return fr.m.call(fr, fn, args, nil)
		}
	}
	fv := c.op(call.Value)
	return func(fr *Frame) Value {
		cl, ok := fv.get(fr).(*Closure)
		if !ok || cl == nil {
			fr.m.nilDeref()
		}
		args := make([]Value, len(ops))
		for i, o := range ops {
			args[i] = o.get(fr)
		}
		return fr.m.call(fr, cl.fn, args, cl.env)
	}
}
