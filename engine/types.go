package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is a run-time value. Scalars are *Term (integers, booleans), string,
// float64, Ptr, Slice, Iface, *Closure, *MapObj, *ChanObj; structs and arrays
// are Agg (flattened leaf cells); multiple results are Tuple.
type Value = any

type Agg []Value

type Tuple []Value

// Obj is a memory object: a flat sequence of cells.
type Obj struct {
	cells []Value
	gen   uint32
	id    uint32
	sh    []*shadow
}

type Ptr struct {
	o   *Obj
	off int
}

type Slice struct {
	o             *Obj
	off, len, cap int
}

type Iface struct {
	t *RType
	v Value
}

type Closure struct {
	fn  *Fn
	env []Value
}

type Kind uint8

const (
	KBool Kind = iota
	KInt
	KFloat
	KString
	KPtr
	KUnsafe
	KSlice
	KIface
	KFunc
	KMap
	KChan
	KStruct
	KArray
	KTuple
	KOther
)

type RType struct {
	typ     types.Type
	under   types.Type
	kind    Kind
	w       uint8
	signed  bool
	size    int
	zero    []Value
	fields  []*RType
	offs    []int
	elem    *RType
	key     *RType
	n       int
	str     string
	named   bool
	methods map[string]*Fn
	missing map[string]bool
}

func (t *RType) agg() bool { return t.kind == KStruct || t.kind == KArray }

func (m *Machine) rt(t types.Type) *RType {
	if r, ok := m.rtPtr[t]; ok {
		return r
	}
	ct := types.Unalias(t)
	if x := m.rtCanon.At(ct); x != nil {
		r := x.(*RType)
		m.rtPtr[t] = r
		return r
	}
	r := &RType{typ: ct, under: ct.Underlying(), str: types.TypeString(ct, nil)}
	m.rtCanon.Set(ct, r)
	m.rtPtr[t] = r
	_, r.named = ct.(*types.Named)
	m.fillType(r)
	return r
}

func (m *Machine) fillType(r *RType) {
	one := func(z Value) {
		r.size = 1
		r.zero = []Value{z}
	}
	switch u := r.under.(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			r.kind = KBool
			one(tFalse)
		case u.Info()&types.IsInteger != 0:
			r.kind = KInt
			r.signed = u.Info()&types.IsUnsigned == 0
			switch u.Kind() {
			case types.Int8, types.Uint8:
				r.w = 8
			case types.Int16, types.Uint16:
				r.w = 16
			case types.Int32, types.Uint32, types.UntypedRune:
				r.w = 32
			default:
				r.w = 64
			}
			one(mkConst(r.w, 0))
		case u.Info()&types.IsFloat != 0:
			r.kind = KFloat
			r.w = 64
			if u.Kind() == types.Float32 {
				r.w = 32
			}
			one(float64(0))
		case u.Info()&types.IsString != 0:
			r.kind = KString
			one("")
		case u.Kind() == types.UnsafePointer:
			r.kind = KUnsafe
			one(Ptr{})
		case u.Kind() == types.UntypedNil:
			r.kind = KUnsafe
			one(Ptr{})
		default:
			r.kind = KOther
			one(nil)
		}
	case *types.Pointer:
		r.kind = KPtr
		one(Ptr{})
	case *types.Slice:
		r.kind = KSlice
		one(Slice{})
	case *types.Interface:
		r.kind = KIface
		one(Iface{})
	case *types.Signature:
		r.kind = KFunc
		one((*Closure)(nil))
	case *types.Map:
		r.kind = KMap
		one((*MapObj)(nil))
	case *types.Chan:
		r.kind = KChan
		one((*ChanObj)(nil))
	case *types.Struct:
		r.kind = KStruct
		for i := 0; i < u.NumFields(); i++ {
			f := m.rt(u.Field(i).Type())
			r.fields = append(r.fields, f)
			r.offs = append(r.offs, r.size)
			r.size += f.size
			r.zero = append(r.zero, f.zero...)
		}
	case *types.Array:
		r.kind = KArray
		r.n = int(u.Len())
		r.elem = m.rt(u.Elem())
		r.size = r.n * r.elem.size
		for i := 0; i < r.n; i++ {
			r.zero = append(r.zero, r.elem.zero...)
		}
	case *types.Tuple:
		r.kind = KTuple
	default:
		r.kind = KOther
		one(nil)
	}
}

func (m *Machine) elemOf(r *RType) *RType {
	if r.elem == nil {
		switch u := r.under.(type) {
		case *types.Pointer:
			r.elem = m.rt(u.Elem())
		case *types.Slice:
			r.elem = m.rt(u.Elem())
		case *types.Chan:
			r.elem = m.rt(u.Elem())
		case *types.Map:
			r.key = m.rt(u.Key())
			r.elem = m.rt(u.Elem())
		case *types.Basic: // string
			r.elem = m.rt(types.Typ[types.Uint8])
		}
	}
	return r.elem
}

func (r *RType) zeroValue() Value {
	if r.agg() {
		return Agg(r.zero)
	}
	if r.kind == KTuple {
		return Tuple{}
	}
	return r.zero[0]
}

// method finds the concrete method for an interface call on dynamic type r.
func (m *Machine) method(r *RType, f *types.Func) *Fn {
	id := f.Id()
	if fn, ok := r.methods[id]; ok {
		return fn
	}
	if r.methods == nil {
		r.methods = map[string]*Fn{}
	}
	progMu.Lock()
	var sf *ssa.Function
	mset := m.eng.prog.MethodSets.MethodSet(r.typ)
	sel := mset.Lookup(f.Pkg(), f.Name())
	if sel != nil {
		sf = m.eng.prog.MethodValue(sel)
	}
	progMu.Unlock()
	if sf == nil {
		panic(engineError(fmt.Sprintf("no method %s on %s", f.Name(), r.str)))
	}
	fn := m.fn(sf)
	r.methods[id] = fn
	return fn
}

// implements reports whether r's method set includes iface.
func (m *Machine) implements(r *RType, iface *RType) bool {
	k := [2]*RType{r, iface}
	if v, ok := m.implCache[k]; ok {
		return v
	}
	progMu.Lock()
	it := iface.under.(*types.Interface)
	v := types.Implements(r.typ, it)
	progMu.Unlock()
	m.implCache[k] = v
	return v
}

func shortType(s string) string {
	s = strings.ReplaceAll(s, modPath+"/internal/zzverif/", "")
	s = strings.ReplaceAll(s, modPath, "frozen")
	return s
}

func newTypeMap() *typeutil.Map {
	return new(typeutil.Map)
}
