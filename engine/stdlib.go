package main

import (
	"bytes"
	"reflect"
	"strings"
)

// pureGo wraps a pure Go function on strings, numbers, bytes and slices of
// them as an intrinsic over concrete values.
func pureGo(name string, f any) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	reg(name, func(m *Machine, fr *Frame, a []Value) (res Value) {
		in := make([]reflect.Value, ft.NumIn())
		for i := range in {
			t := ft.In(i)
			v := reflect.New(t).Elem()
			switch t.Kind() {
			case reflect.String:
				v.SetString(a[i].(string))
			case reflect.Bool:
				v.SetBool(m.decide(tm(a[i])))
			case reflect.Slice:
				s := a[i].(Slice)
				n := reflect.MakeSlice(t, s.len, s.len)
				if m.conc && s.len > 0 {
					m.sched.access(Ptr{s.o, s.off}, s.len, false)
				}
				for j := 0; j < s.len; j++ {
					if t.Elem().Kind() == reflect.String {
						n.Index(j).SetString(s.o.cells[s.off+j].(string))
					} else {
						n.Index(j).SetUint(m.concretize(tm(s.o.cells[s.off+j])))
					}
				}
				v.Set(n)
			case reflect.Int, reflect.Int32, reflect.Int64:
				v.SetInt(int64(m.concretize(tm(a[i]))))
				if t.Kind() == reflect.Int32 {
					v.SetInt(int64(int32(v.Int())))
				}
			default:
				v.SetUint(m.concretize(tm(a[i])))
			}
			in[i] = v
		}
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(error); ok {
					m.runtimePanic(e.Error())
				}
				panic(r)
			}
		}()
		var out []Value
		for _, r := range fv.Call(in) {
			switch r.Kind() {
			case reflect.String:
				out = append(out, r.String())
			case reflect.Bool:
				out = append(out, mkBool(r.Bool()))
			case reflect.Slice:
				o := m.newObj(make([]Value, r.Len()))
				for j := range o.cells {
					o.cells[j] = r.Index(j).String()
				}
				out = append(out, Slice{o: o, len: r.Len(), cap: r.Len()})
			case reflect.Uint8:
				out = append(out, mkConst(8, r.Uint()))
			case reflect.Int32:
				out = append(out, mkConst(32, uint64(uint32(r.Int()))))
			default:
				out = append(out, mkConst(64, uint64(r.Int())))
			}
		}
		if len(out) == 1 {
			return out[0]
		}
		return Tuple(out)
	})
}

func init() {
	for n, f := range map[string]any{
		"Clone": strings.Clone, "Compare": strings.Compare, "ContainsAny": strings.ContainsAny,
		"ContainsRune": strings.ContainsRune, "Count": strings.Count, "Cut": strings.Cut,
		"CutPrefix": strings.CutPrefix, "CutSuffix": strings.CutSuffix, "Fields": strings.Fields,
		"Index": strings.Index, "IndexAny": strings.IndexAny, "IndexByte": strings.IndexByte,
		"IndexRune": strings.IndexRune, "LastIndex": strings.LastIndex, "LastIndexAny": strings.LastIndexAny,
		"LastIndexByte": strings.LastIndexByte, "Replace": strings.Replace, "Split": strings.Split,
		"SplitAfter": strings.SplitAfter, "SplitN": strings.SplitN, "Title": strings.Title,
		"ToTitle": strings.ToTitle, "ToValidUTF8": strings.ToValidUTF8, "Trim": strings.Trim,
		"TrimLeft": strings.TrimLeft, "TrimPrefix": strings.TrimPrefix, "TrimSuffix": strings.TrimSuffix,
	} {
		pureGo("strings."+n, f)
	}
	for n, f := range map[string]any{
		"Compare": bytes.Compare, "Count": func(b []byte, c byte) int { return bytes.Count(b, []byte{c}) },
		"CountString": func(s string, c byte) int { return strings.Count(s, string([]byte{c})) },
		"Equal":       bytes.Equal, "Index": bytes.Index, "IndexByte": bytes.IndexByte,
		"IndexByteString": strings.IndexByte, "IndexString": strings.Index,
		"LastIndexByte": bytes.LastIndexByte, "LastIndexByteString": strings.LastIndexByte,
	} {
		pureGo("internal/bytealg."+n, f)
	}
	reg("internal/bytealg.MakeNoZero", func(m *Machine, fr *Frame, a []Value) Value {
		n := int(m.concretize(tm(a[0])))
		if n > 1<<20 {
			panic(engineError("large byte slice"))
		}
		o := m.newObj(make([]Value, n))
		for i := range o.cells {
			o.cells[i] = mkConst(8, 0)
		}
		return Slice{o: o, len: n, cap: n}
	})

	reg(fmtmPkg+".sliceSwap", func(m *Machine, fr *Frame, a []Value) Value {
		v := a[0].(Iface)
		s := v.v.(Slice)
		i, j := int(int64(m.concretize(tm(a[1])))), int(int64(m.concretize(tm(a[2]))))
		if i < 0 || j < 0 || i >= s.len || j >= s.len {
			m.runtimePanic("reflect: slice index out of range")
		}
		et := m.elemOf(v.t)
		for k := 0; k < et.size; k++ {
			p, q := s.off+i*et.size+k, s.off+j*et.size+k
			if m.conc {
				m.sched.access(Ptr{s.o, p}, 1, true)
				m.sched.access(Ptr{s.o, q}, 1, true)
			}
			x, y := s.o.cells[p], s.o.cells[q]
			m.log(s.o, p)
			m.log(s.o, q)
			s.o.cells[p], s.o.cells[q] = y, x
		}
		return nil
	})

	// sync.Cond is interpreted down to its notification list, whose state is a
	// count of tickets handed out and of tickets released.
	reg("(*sync.copyChecker).check", func(m *Machine, fr *Frame, a []Value) Value { return nil })
	reg("sync.runtime_notifyListAdd", func(m *Machine, fr *Frame, a []Value) Value {
		l := m.lock(a[0].(Ptr))
		l.n++
		return mkConst(32, uint64(l.n-1))
	})
	reg("sync.runtime_notifyListWait", func(m *Machine, fr *Frame, a []Value) Value {
		l := m.lock(a[0].(Ptr))
		t := int(m.concretize(tm(a[1])))
		m.sched.yield()
		m.sched.block(func() bool { return l.readers > t })
		joinVC(&m.sched.cur.vc, l.vc)
		return nil
	})
	notify := func(all bool) intrinsic {
		return func(m *Machine, fr *Frame, a []Value) Value {
			l := m.lock(a[0].(Ptr))
			if all {
				l.readers = l.n
			} else if l.readers < l.n {
				l.readers++
			}
			if m.sched != nil {
				joinVC(&l.vc, m.sched.cur.vc)
				m.sched.cur.tick()
				m.sched.yield()
			}
			return nil
		}
	}
	reg("sync.runtime_notifyListNotifyAll", notify(true))
	reg("sync.runtime_notifyListNotifyOne", notify(false))
	try := func(read bool) intrinsic {
		return func(m *Machine, fr *Frame, a []Value) Value {
			l := m.lock(a[0].(Ptr))
			if m.sched == nil {
				return tTrue
			}
			m.sched.yield()
			if l.held || !read && l.readers > 0 {
				return tFalse
			}
			if read {
				l.readers++
			} else {
				l.held = true
			}
			joinVC(&m.sched.cur.vc, l.vc)
			return tTrue
		}
	}
	reg("(*sync.Mutex).TryLock", try(false))
	reg("(*sync.RWMutex).TryLock", try(false))
	reg("(*sync.RWMutex).TryRLock", try(true))

	// sync.Pool hands back the last value put into it.
	reg("(*sync.Pool).Put", func(m *Machine, fr *Frame, a []Value) Value {
		l := m.lock(a[0].(Ptr))
		if v := a[1].(Iface); v.t != nil {
			l.pool = append(l.pool, v)
		}
		if m.sched != nil {
			joinVC(&l.vc, m.sched.cur.vc)
			m.sched.cur.tick()
			m.sched.yield()
		}
		return nil
	})
	reg(fmtmPkg+".poolTake", func(m *Machine, fr *Frame, a []Value) Value {
		l := m.lock(a[0].(Ptr))
		if m.sched != nil {
			m.sched.yield()
		}
		n := len(l.pool)
		if n == 0 {
			return Iface{}
		}
		v := l.pool[n-1]
		l.pool = l.pool[:n-1]
		if m.sched != nil {
			joinVC(&m.sched.cur.vc, l.vc)
		}
		return v
	})
	reg(fmtmPkg+".aux", func(m *Machine, fr *Frame, a []Value) Value {
		if m.sched != nil {
			joinVC(&m.sched.cur.vc, m.lock(a[0].(Ptr)).vc)
		}
		return m.lock(a[0].(Ptr)).aux
	})
	reg(fmtmPkg+".setAux", func(m *Machine, fr *Frame, a []Value) Value {
		l := m.lock(a[0].(Ptr))
		l.aux = a[1].(Ptr)
		if m.sched != nil {
			joinVC(&l.vc, m.sched.cur.vc)
			m.sched.cur.tick()
		}
		return nil
	})
	for k, v := range map[string]string{
		"sort.Slice": "SortSlice", "sort.SliceStable": "SortSliceStable", "sort.SliceIsSorted": "SliceIsSorted",
		"(*sync.Pool).Get": "PoolGet", "(*sync.Map).Load": "MapLoad", "(*sync.Map).Store": "MapStore",
		"(*sync.Map).LoadOrStore": "MapLoadOrStore", "(*sync.Map).LoadAndDelete": "MapLoadAndDelete",
		"(*sync.Map).Delete": "MapDelete", "(*sync.Map).Swap": "MapSwap",
		"(*sync.Map).CompareAndSwap": "MapCompareAndSwap", "(*sync.Map).CompareAndDelete": "MapCompareAndDelete",
		"(*sync.Map).Range": "MapRange", "(*sync.Map).Clear": "MapClear",
		"fmt.Sprintln": "Sprintln", "fmt.Fprintln": "Fprintln", "errors.Is": "ErrorsIs",
	} {
		substitutes[k] = fmtmPkg + "." + v
	}
}
