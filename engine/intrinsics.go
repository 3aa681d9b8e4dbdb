package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"
)

const modPath = "github.com/arr-ai/frozen"
const symPkg = modPath + "/internal/zzverif/sym"
const fmtmPkg = modPath + "/internal/zzverif/fmtm"

// substitutes redirect a function to a Go model interpreted in its place.
var substitutes = map[string]string{
	"fmt.Sprintf":           fmtmPkg + ".Sprintf",
	"fmt.Sprint":            fmtmPkg + ".Sprint",
	"fmt.Errorf":            fmtmPkg + ".Errorf",
	"fmt.Fprintf":           fmtmPkg + ".Fprintf",
	"fmt.Fprint":            fmtmPkg + ".Fprint",
	"encoding/json.Marshal": fmtmPkg + ".Marshal",
}

var intrinsics = map[string]intrinsic{}

func reg(name string, f intrinsic) { intrinsics[name] = f }

func tm(v Value) *Term { return v.(*Term) }

func (m *Machine) strArg(v Value) string { return v.(string) }

func (m *Machine) makeError(text string) Value {
	f := m.eng.lookupFunc("errors.New")
	return m.call(nil, m.fn(f), []Value{text}, nil)
}

func init() {
	sym := func(n string, f intrinsic) { reg(symPkg+"."+n, f) }
	input := func(w uint8) intrinsic {
		return func(m *Machine, fr *Frame, a []Value) Value {
			if m.inInit {
				panic(engineError("symbolic input during init"))
			}
			return m.newVar(w, a[0].(string), "in", 0)
		}
	}
	sym("Uint64", input(64))
	sym("Int64", input(64))
	sym("Int", input(64))
	sym("Uint", input(64))
	sym("Uint32", input(32))
	sym("Int32", input(32))
	sym("Uint16", input(16))
	sym("Int16", input(16))
	sym("Uint8", input(8))
	sym("Int8", input(8))
	sym("Bool", input(0))
	sym("Choose", func(m *Machine, fr *Frame, a []Value) Value {
		n := int(m.concretize(tm(a[1])))
		return mkConst(64, uint64(m.choose(a[0].(string), "in", n)))
	})
	sym("Param", func(m *Machine, fr *Frame, a []Value) Value {
		return mkConst(64, uint64(int64(m.cfg.Params[a[0].(string)])))
	})
	sym("Assume", func(m *Machine, fr *Frame, a []Value) Value {
		m.assume(tm(a[0]))
		return nil
	})
	sym("Assert", func(m *Machine, fr *Frame, a []Value) Value {
		m.assert(tm(a[0]), a[1].(string))
		return nil
	})
	sym("And", func(m *Machine, fr *Frame, a []Value) Value { return m.tt.And(tm(a[0]), tm(a[1])) })
	sym("Or", func(m *Machine, fr *Frame, a []Value) Value { return m.tt.Or(tm(a[0]), tm(a[1])) })
	sym("Not", func(m *Machine, fr *Frame, a []Value) Value { return m.tt.Not(tm(a[0])) })
	sym("Iff", func(m *Machine, fr *Frame, a []Value) Value { return m.tt.Eq(tm(a[0]), tm(a[1])) })
	sym("Implies", func(m *Machine, fr *Frame, a []Value) Value {
		return m.tt.Or(m.tt.Not(tm(a[0])), tm(a[1]))
	})
	ite := func(m *Machine, fr *Frame, a []Value) Value {
		return m.tt.Ite(tm(a[0]), tm(a[1]), tm(a[2]))
	}
	sym("IteInt", ite)
	sym("Ite64", ite)
	sym("IteBool", ite)
	sym("B2I", func(m *Machine, fr *Frame, a []Value) Value {
		return m.tt.Ite(tm(a[0]), mkConst(64, 1), mkConst(64, 0))
	})
	sym("UF", func(m *Machine, fr *Frame, a []Value) Value {
		return m.uf("uf:"+a[0].(string), m.termArgs(a[1].(Slice)), ^uint64(0), 0)
	})
	sym("UFBool", func(m *Machine, fr *Frame, a []Value) Value {
		r := m.uf("uf:"+a[0].(string), m.termArgs(a[1].(Slice)), 1, 0)
		return m.tt.Eq(r, mkConst(64, 1))
	})
	sym("UFSmall", func(m *Machine, fr *Frame, a []Value) Value {
		return m.uf("uf:"+a[0].(string), m.termArgs(a[2].(Slice)), m.concretize(tm(a[1])), 0)
	})
	sym("Hash", func(m *Machine, fr *Frame, a []Value) Value {
		return m.uf("hash:"+a[0].(string), m.termArgs(a[1].(Slice)), m.cfg.HashMask, m.cfg.HashBase)
	})
	sym("Observe", func(m *Machine, fr *Frame, a []Value) Value {
		m.obs = append(m.obs, obsRec{label: a[0].(string), t: tm(a[1])})
		return nil
	})
	sym("ObserveStr", func(m *Machine, fr *Frame, a []Value) Value {
		m.obs = append(m.obs, obsRec{label: a[0].(string), str: a[1].(string), isStr: true})
		return nil
	})
	sym("Reach", func(m *Machine, fr *Frame, a []Value) Value {
		m.reached[a[0].(string)] = true
		return nil
	})
	sym("IsConcrete", func(m *Machine, fr *Frame, a []Value) Value {
		return mkBool(tm(a[0]).op == OpConst)
	})
	sym("TypeName", func(m *Machine, fr *Frame, a []Value) Value {
		v := a[0].(Iface)
		if v.t == nil {
			return "<nil>"
		}
		return v.t.str
	})
	// Reflect-lite support for the fmt/json models.
	reg(fmtmPkg+".kindOf", func(m *Machine, fr *Frame, a []Value) Value {
		v := a[0].(Iface)
		if v.t == nil {
			return mkConst(64, 99)
		}
		k := uint64(v.t.kind)
		if v.t.kind == KInt && v.t.signed {
			k = 50
		}
		return mkConst(64, k)
	})
	reg(fmtmPkg+".intOf", func(m *Machine, fr *Frame, a []Value) Value {
		v := a[0].(Iface)
		t := tm(v.v)
		if v.t.signed {
			return m.tt.SExt(t, 64)
		}
		return m.tt.ZExt(t, 64)
	})
	reg(fmtmPkg+".strOf", func(m *Machine, fr *Frame, a []Value) Value {
		return a[0].(Iface).v.(string)
	})
	reg(fmtmPkg+".boolOf", func(m *Machine, fr *Frame, a []Value) Value {
		return a[0].(Iface).v.(*Term)
	})
	reg(fmtmPkg+".floatStr", func(m *Machine, fr *Frame, a []Value) Value {
		return strconv.FormatFloat(a[0].(Iface).v.(float64), 'g', -1, 64)
	})
	reg(fmtmPkg+".lenOf", func(m *Machine, fr *Frame, a []Value) Value {
		v := a[0].(Iface)
		switch x := v.v.(type) {
		case Slice:
			return mkConst(64, uint64(x.len))
		case Agg:
			if v.t.kind == KStruct {
				return mkConst(64, uint64(len(v.t.fields)))
			}
			return mkConst(64, uint64(v.t.n))
		case *MapObj:
			return mkConst(64, uint64(len(x.ents)))
		}
		return mkConst(64, 0)
	})
	wrap := func(m *Machine, t *RType, v Value) Value {
		if t.kind == KIface {
			return v
		}
		return Iface{t, v}
	}
	reg(fmtmPkg+".elemAt", func(m *Machine, fr *Frame, a []Value) Value {
		v := a[0].(Iface)
		i := int(m.concretize(tm(a[1])))
		switch x := v.v.(type) {
		case Slice:
			et := m.elemOf(v.t)
			return wrap(m, et, m.load(Ptr{x.o, x.off + i*et.size}, et))
		case Agg:
			var et *RType
			off := 0
			if v.t.kind == KStruct {
				et, off = v.t.fields[i], v.t.offs[i]
			} else {
				et, off = v.t.elem, i*v.t.elem.size
			}
			if et.agg() {
				return wrap(m, et, x[off:off+et.size])
			}
			return wrap(m, et, x[off])
		case *MapObj:
			m.elemOf(v.t)
			return wrap(m, v.t.elem, x.ents[i].v)
		case Ptr:
			et := m.elemOf(v.t)
			return wrap(m, et, m.load(x, et))
		}
		panic(engineError("elemAt"))
	})
	reg(fmtmPkg+".keyAt", func(m *Machine, fr *Frame, a []Value) Value {
		v := a[0].(Iface)
		i := int(m.concretize(tm(a[1])))
		x := v.v.(*MapObj)
		m.elemOf(v.t)
		return wrap(m, v.t.key, x.ents[i].k)
	})
	reg(fmtmPkg+".isNil", func(m *Machine, fr *Frame, a []Value) Value {
		v := a[0].(Iface)
		switch x := v.v.(type) {
		case Slice:
			return mkBool(x.o == nil)
		case *MapObj:
			return mkBool(x == nil)
		case Ptr:
			return mkBool(x.o == nil)
		}
		return mkBool(v.t == nil)
	})
	reg(fmtmPkg+".typeName", func(m *Machine, fr *Frame, a []Value) Value {
		v := a[0].(Iface)
		if v.t == nil {
			return "<nil>"
		}
		return types.TypeString(v.t.typ, func(p *types.Package) string { return p.Name() })
	})
	reg(fmtmPkg+".fieldName", func(m *Machine, fr *Frame, a []Value) Value {
		v := a[0].(Iface)
		return v.t.under.(*types.Struct).Field(int(m.concretize(tm(a[1])))).Name()
	})
	reg(fmtmPkg+".runtimePanicText", func(m *Machine, fr *Frame, a []Value) Value { return "" })

	// hash.Any and friends: the built-in hash is an arbitrary function.
	reg("github.com/arr-ai/hash.Any", hashAny)
	reg("github.com/arr-ai/hash.Interface", hashAny)
	for _, n := range []string{"Uintptr", "Int", "Uint", "Uint64", "Int64", "Int32", "Uint32", "Int16", "Uint16", "Int8", "Uint8", "Bool", "String"} {
		n := n
		reg("github.com/arr-ai/hash."+n, func(m *Machine, fr *Frame, a []Value) Value {
			if s, ok := a[0].(string); ok {
				return m.hashBuiltin("s:"+s, nil, tm(a[1]))
			}
			return m.hashBuiltin("k:"+strings.ToLower(n), tm(a[0]), tm(a[1]))
		})
	}

	// math, on concrete values
	for n, f := range map[string]func(float64) float64{"Abs": math.Abs, "Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc,
		"Round": math.Round, "RoundToEven": math.RoundToEven, "Sqrt": math.Sqrt, "Cbrt": math.Cbrt, "Exp": math.Exp, "Exp2": math.Exp2, "Log": math.Log,
		"Log2": math.Log2, "Log10": math.Log10, "Log1p": math.Log1p, "Sin": math.Sin, "Cos": math.Cos, "Tan": math.Tan, "Logb": math.Logb} {
		f := f
		reg("math."+n, func(m *Machine, fr *Frame, a []Value) Value { return f(a[0].(float64)) })
	}
	for n, f := range map[string]func(x, y float64) float64{"Pow": math.Pow, "Max": math.Max, "Min": math.Min, "Mod": math.Mod, "Copysign": math.Copysign,
		"Hypot": math.Hypot, "Dim": math.Dim, "Atan2": math.Atan2, "Remainder": math.Remainder, "Nextafter": math.Nextafter} {
		f := f
		reg("math."+n, func(m *Machine, fr *Frame, a []Value) Value { return f(a[0].(float64), a[1].(float64)) })
	}
	reg("math.Float64bits", func(m *Machine, fr *Frame, a []Value) Value { return mkConst(64, math.Float64bits(a[0].(float64))) })
	reg("math.Float32bits", func(m *Machine, fr *Frame, a []Value) Value {
		return mkConst(32, uint64(math.Float32bits(float32(a[0].(float64)))))
	})
	reg("math.Float64frombits", func(m *Machine, fr *Frame, a []Value) Value { return math.Float64frombits(m.concretize(tm(a[0]))) })
	reg("math.Float32frombits", func(m *Machine, fr *Frame, a []Value) Value {
		return float64(math.Float32frombits(uint32(m.concretize(tm(a[0])))))
	})

	// math/bits
	bits := func(n string, f func(m *Machine, a []Value) Value) {
		reg("math/bits."+n, func(m *Machine, fr *Frame, a []Value) Value { return f(m, a) })
	}
	for _, s := range []string{"", "8", "16", "32", "64"} {
		bits("TrailingZeros"+s, func(m *Machine, a []Value) Value {
			x := tm(a[0])
			zero, ok := m.fact(m.tt.Eq(x, mkConst(x.w, 0)))
			return m.tt.TrailingZeros(x, 64, ok && !zero)
		})
		bits("Len"+s, func(m *Machine, a []Value) Value { return m.tt.Len(tm(a[0]), 64) })
		bits("OnesCount"+s, func(m *Machine, a []Value) Value { return m.tt.PopCount(tm(a[0]), 64) })
		bits("Reverse"+s, func(m *Machine, a []Value) Value { return m.tt.Reverse(tm(a[0])) })
		bits("ReverseBytes"+s, func(m *Machine, a []Value) Value { return m.tt.ReverseBytes(tm(a[0])) })
		bits("LeadingZeros"+s, func(m *Machine, a []Value) Value {
			return m.tt.Bin(OpSub, mkConst(64, uint64(tm(a[0]).w)), m.tt.Len(tm(a[0]), 64))
		})
	}

	// strings / strconv / os / runtime on concrete data
	reg("strings.ToLower", func(m *Machine, fr *Frame, a []Value) Value { return strings.ToLower(a[0].(string)) })
	reg("strings.ToUpper", func(m *Machine, fr *Frame, a []Value) Value { return strings.ToUpper(a[0].(string)) })
	reg("strings.TrimSpace", func(m *Machine, fr *Frame, a []Value) Value { return strings.TrimSpace(a[0].(string)) })
	reg("strings.ReplaceAll", func(m *Machine, fr *Frame, a []Value) Value {
		return strings.ReplaceAll(a[0].(string), a[1].(string), a[2].(string))
	})
	reg("strings.TrimRight", func(m *Machine, fr *Frame, a []Value) Value {
		return strings.TrimRight(a[0].(string), a[1].(string))
	})
	reg("strings.Contains", func(m *Machine, fr *Frame, a []Value) Value {
		return mkBool(strings.Contains(a[0].(string), a[1].(string)))
	})
	reg("strings.EqualFold", func(m *Machine, fr *Frame, a []Value) Value {
		return mkBool(strings.EqualFold(a[0].(string), a[1].(string)))
	})
	reg("strings.HasPrefix", func(m *Machine, fr *Frame, a []Value) Value {
		return mkBool(strings.HasPrefix(a[0].(string), a[1].(string)))
	})
	reg("strings.HasSuffix", func(m *Machine, fr *Frame, a []Value) Value {
		return mkBool(strings.HasSuffix(a[0].(string), a[1].(string)))
	})
	reg("strings.Repeat", func(m *Machine, fr *Frame, a []Value) Value {
		n := int(m.concretize(tm(a[1])))
		if n < 0 {
			m.runtimePanic("strings: negative Repeat count")
		}
		return strings.Repeat(a[0].(string), n)
	})
	reg("strings.Join", func(m *Machine, fr *Frame, a []Value) Value {
		s := a[0].(Slice)
		var xs []string
		for i := 0; i < s.len; i++ {
			xs = append(xs, s.o.cells[s.off+i].(string))
		}
		return strings.Join(xs, a[1].(string))
	})
	sbAppend := func(m *Machine, p Ptr, s string) {
		if p.o == nil {
			m.nilDeref()
		}
		off := p.off + 1
		if m.conc {
			m.sched.access(Ptr{p.o, off}, 1, true)
		}
		cur, _ := p.o.cells[off].(string)
		m.log(p.o, off)
		p.o.cells[off] = cur + s
	}
	reg("(*strings.Builder).WriteString", func(m *Machine, fr *Frame, a []Value) Value {
		s := a[1].(string)
		sbAppend(m, a[0].(Ptr), s)
		return Tuple{mkConst(64, uint64(len(s))), Iface{}}
	})
	reg("(*strings.Builder).WriteByte", func(m *Machine, fr *Frame, a []Value) Value {
		sbAppend(m, a[0].(Ptr), string([]byte{byte(m.concretize(tm(a[1])))}))
		return Iface{}
	})
	reg("(*strings.Builder).WriteRune", func(m *Machine, fr *Frame, a []Value) Value {
		r := rune(sext(m.concretize(tm(a[1])), 32))
		sbAppend(m, a[0].(Ptr), string(r))
		return Tuple{mkConst(64, uint64(utf8.RuneLen(r))), Iface{}}
	})
	reg("(*strings.Builder).Write", func(m *Machine, fr *Frame, a []Value) Value {
		s := m.sliceToString(a[1].(Slice), m.rt(m.eng.byteType))
		sbAppend(m, a[0].(Ptr), s)
		return Tuple{mkConst(64, uint64(len(s))), Iface{}}
	})
	reg("(*strings.Builder).Grow", func(m *Machine, fr *Frame, a []Value) Value { return nil })
	reg("(*strings.Builder).Reset", func(m *Machine, fr *Frame, a []Value) Value {
		p := a[0].(Ptr)
		m.log(p.o, p.off+1)
		p.o.cells[p.off+1] = Slice{}
		return nil
	})
	reg("(*strings.Builder).String", func(m *Machine, fr *Frame, a []Value) Value {
		p := a[0].(Ptr)
		s, _ := p.o.cells[p.off+1].(string)
		return s
	})
	reg("(*strings.Builder).Len", func(m *Machine, fr *Frame, a []Value) Value {
		p := a[0].(Ptr)
		s, _ := p.o.cells[p.off+1].(string)
		return mkConst(64, uint64(len(s)))
	})
	reg("(*strings.Builder).Cap", func(m *Machine, fr *Frame, a []Value) Value {
		p := a[0].(Ptr)
		s, _ := p.o.cells[p.off+1].(string)
		return mkConst(64, uint64(len(s)))
	})
	reg("strconv.Itoa", func(m *Machine, fr *Frame, a []Value) Value {
		return strconv.FormatInt(int64(m.concretize(tm(a[0]))), 10)
	})
	reg("strconv.FormatInt", func(m *Machine, fr *Frame, a []Value) Value {
		return strconv.FormatInt(int64(m.concretize(tm(a[0]))), int(m.concretize(tm(a[1]))))
	})
	reg("strconv.FormatUint", func(m *Machine, fr *Frame, a []Value) Value {
		return strconv.FormatUint(m.concretize(tm(a[0])), int(m.concretize(tm(a[1]))))
	})
	reg("strconv.Quote", func(m *Machine, fr *Frame, a []Value) Value { return strconv.Quote(a[0].(string)) })
	reg("strconv.Atoi", func(m *Machine, fr *Frame, a []Value) Value {
		n, err := strconv.Atoi(a[0].(string))
		if err != nil {
			return Tuple{mkConst(64, uint64(n)), m.makeError(err.Error())}
		}
		return Tuple{mkConst(64, uint64(n)), Iface{}}
	})
	reg("strconv.ParseInt", func(m *Machine, fr *Frame, a []Value) Value {
		n, err := strconv.ParseInt(a[0].(string), int(m.concretize(tm(a[1]))), int(m.concretize(tm(a[2]))))
		if err != nil {
			return Tuple{mkConst(64, uint64(n)), m.makeError(err.Error())}
		}
		return Tuple{mkConst(64, uint64(n)), Iface{}}
	})
	reg("os.Getenv", func(m *Machine, fr *Frame, a []Value) Value {
		return m.cfg.Env[a[0].(string)]
	})
	reg("os.LookupEnv", func(m *Machine, fr *Frame, a []Value) Value {
		v, ok := m.cfg.Env[a[0].(string)]
		return Tuple{v, mkBool(ok)}
	})
	procs := func(m *Machine, fr *Frame, a []Value) Value { return mkConst(64, uint64(m.cfg.Procs)) }
	reg("runtime.GOMAXPROCS", procs)
	reg("runtime.NumCPU", procs)
	reg("runtime.Gosched", func(m *Machine, fr *Frame, a []Value) Value { m.sched.yield(); return nil })
	reg("runtime.KeepAlive", func(m *Machine, fr *Frame, a []Value) Value { return nil })
	for _, n := range []string{"Print", "Printf", "Println"} {
		reg("log."+n, func(m *Machine, fr *Frame, a []Value) Value { return nil })
	}

	// sync
	lockFn := func(m *Machine, fr *Frame, a []Value) Value {
		p := a[0].(Ptr)
		l := m.lock(p)
		if m.sched == nil {
			return nil
		}
		m.sched.yield()
		m.sched.block(func() bool { return !l.held && l.readers == 0 })
		l.held = true
		joinVC(&m.sched.cur.vc, l.vc)
		return nil
	}
	unlockFn := func(m *Machine, fr *Frame, a []Value) Value {
		l := m.lock(a[0].(Ptr))
		if m.sched == nil {
			return nil
		}
		if !l.held {
			m.fail("panic", "fatal error: sync: unlock of unlocked mutex")
		}
		l.held = false
		joinVC(&l.vc, m.sched.cur.vc)
		m.sched.cur.tick()
		m.sched.yield()
		return nil
	}
	reg("(*sync.Mutex).Lock", lockFn)
	reg("(*sync.Mutex).Unlock", unlockFn)
	reg("(*sync.RWMutex).Lock", lockFn)
	reg("(*sync.RWMutex).Unlock", unlockFn)
	reg("(*sync.RWMutex).RLock", func(m *Machine, fr *Frame, a []Value) Value {
		l := m.lock(a[0].(Ptr))
		if m.sched == nil {
			return nil
		}
		m.sched.yield()
		m.sched.block(func() bool { return !l.held })
		l.readers++
		joinVC(&m.sched.cur.vc, l.vc)
		return nil
	})
	reg("(*sync.RWMutex).RUnlock", func(m *Machine, fr *Frame, a []Value) Value {
		l := m.lock(a[0].(Ptr))
		if m.sched == nil {
			return nil
		}
		if l.readers == 0 {
			m.fail("panic", "fatal error: sync: RUnlock of unlocked RWMutex")
		}
		l.readers--
		joinVC(&l.vc, m.sched.cur.vc)
		m.sched.cur.tick()
		m.sched.yield()
		return nil
	})
	reg("(*sync.WaitGroup).Add", func(m *Machine, fr *Frame, a []Value) Value {
		l := m.lock(a[0].(Ptr))
		l.n += int(int64(m.concretize(tm(a[1]))))
		if l.n < 0 {
			m.runtimePanic("sync: negative WaitGroup counter")
		}
		joinVC(&l.vc, m.sched.cur.vc)
		m.sched.cur.tick()
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(m *Machine, fr *Frame, a []Value) Value {
		l := m.lock(a[0].(Ptr))
		l.n--
		if l.n < 0 {
			m.runtimePanic("sync: negative WaitGroup counter")
		}
		joinVC(&l.vc, m.sched.cur.vc)
		m.sched.cur.tick()
		m.sched.yield()
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(m *Machine, fr *Frame, a []Value) Value {
		l := m.lock(a[0].(Ptr))
		m.sched.yield()
		m.sched.block(func() bool { return l.n == 0 })
		joinVC(&m.sched.cur.vc, l.vc)
		return nil
	})
	reg("(*sync.Once).Do", func(m *Machine, fr *Frame, a []Value) Value {
		l := m.lock(a[0].(Ptr))
		cl := a[1].(*Closure)
		if m.sched == nil {
			if !l.done {
				l.done = true
				m.call(fr, cl.fn, nil, cl.env)
			}
			return nil
		}
		m.sched.yield()
		m.sched.block(func() bool { return !l.onceRun })
		if l.done {
			joinVC(&m.sched.cur.vc, l.vc)
			return nil
		}
		l.onceRun = true
		func() {
			defer func() {
				l.onceRun = false
				l.done = true
				joinVC(&l.vc, m.sched.cur.vc)
			}()
			m.call(fr, cl.fn, nil, cl.env)
		}()
		m.sched.cur.tick()
		return nil
	})
	// sync/atomic
	load := func(m *Machine, fr *Frame, a []Value) Value {
		p := a[0].(Ptr)
		if p.o == nil {
			m.nilDeref()
		}
		if m.conc {
			m.sched.yield()
			m.sched.acqRel(p)
			m.sched.access(p, 1, false)
			m.sched.acqRel(p)
		}
		return p.o.cells[p.off]
	}
	put := func(m *Machine, p Ptr, v Value) {
		m.log(p.o, p.off)
		p.o.cells[p.off] = v
	}
	rmw := func(f func(m *Machine, old Value, a []Value) (nw Value, ret Value, write bool)) intrinsic {
		return func(m *Machine, fr *Frame, a []Value) Value {
			p := a[0].(Ptr)
			if p.o == nil {
				m.nilDeref()
			}
			if m.conc {
				m.sched.yield()
				m.sched.acqRel(p)
			}
			nw, ret, w := f(m, p.o.cells[p.off], a)
			if m.conc {
				m.sched.access(p, 1, w)
			}
			if w {
				put(m, p, nw)
			}
			if m.conc {
				m.sched.acqRel(p)
			}
			return ret
		}
	}
	store := rmw(func(m *Machine, old Value, a []Value) (Value, Value, bool) { return a[1], nil, true })
	add := rmw(func(m *Machine, old Value, a []Value) (Value, Value, bool) {
		n := m.tt.Bin(OpAdd, tm(old), tm(a[1]))
		return n, n, true
	})
	swap := rmw(func(m *Machine, old Value, a []Value) (Value, Value, bool) { return a[1], old, true })
	cas := rmw(func(m *Machine, old Value, a []Value) (Value, Value, bool) {
		var eq bool
		if t, ok := old.(*Term); ok {
			eq = m.decide(m.tt.Eq(t, tm(a[1])))
		} else {
			eq = old == a[1]
		}
		return a[2], mkBool(eq), eq
	})
	for _, n := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		reg("sync/atomic.Load"+n, load)
		reg("sync/atomic.Store"+n, store)
		reg("sync/atomic.Swap"+n, swap)
		reg("sync/atomic.CompareAndSwap"+n, cas)
		if n != "Pointer" {
			reg("sync/atomic.Add"+n, add)
		}
	}
	// Typed atomics: the value is the last cell of the struct.
	typed := func(in intrinsic, cells int) intrinsic {
		return func(m *Machine, fr *Frame, a []Value) Value {
			p := a[0].(Ptr)
			if p.o == nil {
				m.nilDeref()
			}
			b := append([]Value(nil), a...)
			b[0] = Ptr{p.o, p.off + cells}
			return in(m, fr, b)
		}
	}
	for n, off := range map[string]int{"Int32": 0, "Uint32": 0, "Int64": 0, "Uint64": 0, "Uintptr": 0} {
		reg("(*sync/atomic."+n+").Load", typed(load, off))
		reg("(*sync/atomic."+n+").Store", typed(store, off))
		reg("(*sync/atomic."+n+").Swap", typed(swap, off))
		reg("(*sync/atomic."+n+").CompareAndSwap", typed(cas, off))
		reg("(*sync/atomic."+n+").Add", typed(add, off))
	}
	reg("(*sync/atomic.Pointer[T]).Load", typed(load, 0))
	reg("(*sync/atomic.Pointer[T]).Store", typed(store, 0))
	reg("(*sync/atomic.Pointer[T]).Swap", typed(swap, 0))
	reg("(*sync/atomic.Pointer[T]).CompareAndSwap", typed(cas, 0))
	reg("(*sync/atomic.Bool).Load", func(m *Machine, fr *Frame, a []Value) Value {
		return m.tt.Not(m.tt.Eq(load(m, fr, a).(*Term), mkConst(32, 0)))
	})
	reg("(*sync/atomic.Bool).Store", func(m *Machine, fr *Frame, a []Value) Value {
		return store(m, fr, []Value{a[0], m.tt.Ite(tm(a[1]), mkConst(32, 1), mkConst(32, 0))})
	})
	bit := func(m *Machine, v Value) Value { return m.tt.Ite(tm(v), mkConst(32, 1), mkConst(32, 0)) }
	reg("(*sync/atomic.Bool).Swap", func(m *Machine, fr *Frame, a []Value) Value {
		return m.tt.Not(m.tt.Eq(swap(m, fr, []Value{a[0], bit(m, a[1])}).(*Term), mkConst(32, 0)))
	})
	reg("(*sync/atomic.Bool).CompareAndSwap", func(m *Machine, fr *Frame, a []Value) Value {
		return cas(m, fr, []Value{a[0], bit(m, a[1]), bit(m, a[2])})
	})
	reg("(*sync/atomic.Value).Swap", func(m *Machine, fr *Frame, a []Value) Value {
		v, _ := swap(m, fr, a).(Iface)
		return v
	})
	reg("(*sync/atomic.Value).CompareAndSwap", rmw(func(m *Machine, old Value, a []Value) (Value, Value, bool) {
		o, _ := old.(Iface)
		n := a[1].(Iface)
		eq := o.t == n.t && (o.t == nil || m.decide(m.eq(o.t, o.v, n.v)))
		return a[2], mkBool(eq), eq
	}))
	reg("(*sync/atomic.Value).Load", func(m *Machine, fr *Frame, a []Value) Value {
		v, _ := load(m, fr, a).(Iface)
		return v
	})
	reg("(*sync/atomic.Value).Store", store)
}

func (m *Machine) termArgs(s Slice) []*Term {
	r := make([]*Term, s.len)
	for i := range r {
		r[i] = s.o.cells[s.off+i].(*Term)
	}
	return r
}

// hashAny models hash.Any: Hashable values hash themselves, slices of any fold
// their elements, everything else goes through an arbitrary function.
func hashAny(m *Machine, fr *Frame, a []Value) Value {
	v := a[0].(Iface)
	seed := tm(a[1])
	if v.t != nil {
		hb := m.rt(m.eng.hashableType)
		if m.implements(v.t, hb) {
			fn := m.method(v.t, m.eng.hashMethod)
			return m.call(fr, fn, []Value{v.v, seed}, nil)
		}
	}
	return m.hashPlain(fr, v, seed)
}

func (m *Machine) hashPlain(fr *Frame, v Iface, seed *Term) *Term {
	if v.t == nil {
		panic(&goPanic{val: m.runtimeErrorText("hash.Any: nil is not hashable"), runtime: true, text: "nil is not hashable"})
	}
	switch v.t.kind {
	case KInt, KBool:
		t := tm(v.v)
		if t.w == 0 {
			t = m.tt.Ite(t, mkConst(64, 1), mkConst(64, 0))
		} else if v.t.signed {
			t = m.tt.SExt(t, 64)
		} else {
			t = m.tt.ZExt(t, 64)
		}
		return m.hashBuiltin("k:"+v.t.str, t, seed)
	case KString:
		return m.hashBuiltin("s:"+v.v.(string), nil, seed)
	case KFloat:
		if v.v.(float64) == 0 {
			v.v = float64(0) // zero of either sign
		}
		return m.hashBuiltin("f:"+strconv.FormatFloat(v.v.(float64), 'g', -1, 64), nil, seed)
	case KStruct, KArray:
		h := m.hashBuiltin("t:"+v.t.str, nil, seed)
		n := len(v.t.fields)
		if v.t.kind == KArray {
			n = v.t.n
		}
		ag := v.v.(Agg)
		for i := 0; i < n; i++ {
			var et *RType
			off := 0
			if v.t.kind == KStruct {
				et, off = v.t.fields[i], v.t.offs[i]
			} else {
				et, off = v.t.elem, i*v.t.elem.size
			}
			var e Value
			if et.agg() {
				e = ag[off : off+et.size]
			} else {
				e = ag[off]
			}
			x := Iface{et, e}
			if et.kind == KIface {
				x = e.(Iface)
			}
			h = hashAny(m, fr, []Value{x, h}).(*Term)
		}
		return h
	case KPtr:
		p := v.v.(Ptr)
		id := uint64(0)
		if p.o != nil {
			id = uint64(p.o.id)<<16 | uint64(p.off)
		}
		return m.hashBuiltin("p:"+v.t.str, mkConst(64, id), seed)
	}
	panic(&goPanic{val: m.runtimeErrorText("hash.Any: unhashable type " + v.t.str), runtime: true, text: "unhashable type"})
}

func (m *Machine) hashBuiltin(name string, arg, seed *Term) *Term {
	args := []*Term{}
	if arg != nil {
		if arg.w == 0 {
			arg = m.tt.Ite(arg, mkConst(64, 1), mkConst(64, 0))
		} else if arg.w < 64 {
			arg = m.tt.ZExt(arg, 64)
		}
		args = append(args, arg)
	}
	args = append(args, seed)
	return m.uf("bh:"+name, args, m.cfg.HashMask, m.cfg.HashBase)
}

func (m *Machine) panicText(p *goPanic) string {
	if p.text != "" {
		return p.text
	}
	switch v := p.val.v.(type) {
	case string:
		return v
	case *Term:
		return fmt.Sprintf("%v", v)
	}
	if p.val.t != nil {
		return "value of type " + shortType(p.val.t.str)
	}
	return "nil"
}
