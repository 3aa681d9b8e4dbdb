package fmtm

import (
	"io"
	"sort"
	"strings"
	"sync"
)

// Engine intrinsics.
func sliceSwap(x any, i, j int)        {}
func poolTake(p *sync.Pool) any        { return nil }
func aux(p *sync.Map) *mapState        { return nil }
func setAux(p *sync.Map, st *mapState) {}

type sliceSorter struct {
	x    any
	n    int
	less func(i, j int) bool
}

func (s *sliceSorter) Len() int           { return s.n }
func (s *sliceSorter) Less(i, j int) bool { return s.less(i, j) }
func (s *sliceSorter) Swap(i, j int)      { sliceSwap(s.x, i, j) }

func SortSlice(x any, less func(i, j int) bool) { sort.Sort(&sliceSorter{x, lenOf(x), less}) }
func SortSliceStable(x any, less func(i, j int) bool) {
	sort.Stable(&sliceSorter{x, lenOf(x), less})
}
func SliceIsSorted(x any, less func(i, j int) bool) bool {
	return sort.IsSorted(&sliceSorter{x, lenOf(x), less})
}

func PoolGet(p *sync.Pool) any {
	if v := poolTake(p); v != nil {
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

type mapState struct {
	mu sync.Mutex
	m  map[any]any
}

func locked(p *sync.Map) *mapState {
	st := aux(p)
	if st == nil {
		st = &mapState{m: map[any]any{}}
		setAux(p, st)
	}
	st.mu.Lock()
	return st
}

func MapLoad(p *sync.Map, k any) (any, bool) {
	st := locked(p)
	defer st.mu.Unlock()
	v, ok := st.m[k]
	return v, ok
}

func MapStore(p *sync.Map, k, v any) { MapSwap(p, k, v) }

func MapSwap(p *sync.Map, k, v any) (any, bool) {
	st := locked(p)
	defer st.mu.Unlock()
	old, ok := st.m[k]
	st.m[k] = v
	return old, ok
}

func MapLoadOrStore(p *sync.Map, k, v any) (any, bool) {
	st := locked(p)
	defer st.mu.Unlock()
	if old, ok := st.m[k]; ok {
		return old, true
	}
	st.m[k] = v
	return v, false
}

func MapLoadAndDelete(p *sync.Map, k any) (any, bool) {
	st := locked(p)
	defer st.mu.Unlock()
	old, ok := st.m[k]
	delete(st.m, k)
	return old, ok
}

func MapDelete(p *sync.Map, k any) { MapLoadAndDelete(p, k) }

func MapCompareAndSwap(p *sync.Map, k, old, v any) bool {
	st := locked(p)
	defer st.mu.Unlock()
	if cur, ok := st.m[k]; ok && cur == old {
		st.m[k] = v
		return true
	}
	return false
}

func MapCompareAndDelete(p *sync.Map, k, old any) bool {
	st := locked(p)
	defer st.mu.Unlock()
	if cur, ok := st.m[k]; ok && cur == old {
		delete(st.m, k)
		return true
	}
	return false
}

func MapClear(p *sync.Map) {
	st := locked(p)
	defer st.mu.Unlock()
	st.m = map[any]any{}
}

func MapRange(p *sync.Map, f func(k, v any) bool) {
	st := locked(p)
	type ent struct{ k, v any }
	var es []ent
	for k, v := range st.m {
		es = append(es, ent{k, v})
	}
	st.mu.Unlock()
	for _, e := range es {
		if !f(e.k, e.v) {
			return
		}
	}
}

func Sprintln(args ...any) string {
	var b strings.Builder
	for i, a := range args {
		if i > 0 {
			b.WriteString(" ")
		}
		b.WriteString(Sprint(a))
	}
	b.WriteString("\n")
	return b.String()
}

func Fprintln(w io.Writer, args ...any) (int, error) { return io.WriteString(w, Sprintln(args...)) }

func ErrorsIs(err, target error) bool {
	for {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}
