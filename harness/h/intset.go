package h

import (
	"github.com/arr-ai/frozen"

	"github.com/arr-ai/frozen/internal/zzverif/sym"
)

func init() {
	Harnesses["IntSetHistory"] = IntSetHistory
	Harnesses["IntSetAlgebra"] = IntSetAlgebra
	Harnesses["IntSetDerived"] = IntSetDerived
	Harnesses["IntSetVersions"] = IntSetVersions
}

func IntSetHistory() {
	perType(intHistory[int], intHistory[int8], intHistory[int64], intHistory[uint8], intHistory[uint64], intHistory[int16], intHistory[uint32], intHistory[int32], intHistory[uint16], intHistory[uint], intHistory[uintptr], intHistory[myInt])
}

func IntSetAlgebra() {
	perType(intAlgebra[int], intAlgebra[int8], intAlgebra[int64], intAlgebra[uint8], intAlgebra[uint64], intAlgebra[int16], intAlgebra[uint32], intAlgebra[int32], intAlgebra[uint16], intAlgebra[uint], intAlgebra[uintptr], intAlgebra[myInt])
}

func IntSetDerived() {
	perType(intDerived[int], intDerived[int8], intDerived[int64], intDerived[uint8], intDerived[uint64], intDerived[int16], intDerived[uint32], intDerived[int32], intDerived[uint16], intDerived[uint], intDerived[uintptr], intDerived[myInt])
}

func IntSetVersions() {
	perType(intVersions[int], intVersions[int8], intVersions[int64], intVersions[uint8], intVersions[uint64], intVersions[int16], intVersions[uint32], intVersions[int32], intVersions[uint16], intVersions[uint], intVersions[uintptr], intVersions[myInt])
}

type myInt int16

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

func perType(fs ...func()) { fs[sym.Param("type")]() }

// intIn is an arbitrary value of the type; with the parameter near, one whose
// distance from zero is below 2^near (still of either sign), so that values
// share cells more often.
func intIn[I integer](label string) I {
	v := I(sym.Uint64(label))
	if n := sym.Param("near"); n != 0 {
		r := I(1) << n
		sym.Assume(sym.And(v+r >= 0, v+r < r+r))
	}
	return v
}

func intsIn[I integer](label string, n int) []I {
	r := make([]I, 0, n)
	for i := 0; i < n; i++ {
		r = append(r, intIn[I](label))
	}
	return r
}

func ik[I integer](v I) K { return K{uint64(v)} }

func imset[I integer](vs ...I) M {
	m := M{}
	for _, v := range vs {
		m = m.with(ik(v))
	}
	return m
}

func intSame[I integer](s frozen.IntSet[I], m M, what string) {
	var els []K
	for i := s.Range(); i.Next(); {
		els = append(els, ik(i.Value()))
	}
	list(els, m, what)
	sym.Assert(s.Count() == m.count(), what+": Count")
	sym.Assert(iff(s.IsEmpty(), m.count() == 0), what+": IsEmpty")
	sym.Observe(what, uint64(s.Count()))
}

// intBuild makes an IntSet of the values by one of several routes.
func intBuild[I integer](label string, route int, vs []I) (frozen.IntSet[I], M) {
	m := imset(vs...)
	var s frozen.IntSet[I]
	switch route {
	case 0:
		s = frozen.NewIntSet(vs...)
	case 1:
		for _, v := range vs {
			s = s.With(v)
		}
	case 2:
		x := intIn[I](label + ".extra")
		s = frozen.NewIntSet(append([]I{x}, vs...)...).Without(x)
		m = m.without(ik(x))
	}
	return s, m
}

func intHistory[I integer]() {
	init := intsIn[I]("init", sym.Param("init"))
	s, m := intBuild("init", sym.Param("routeA"), init)
	for i, n := 0, sym.Param("ops"); i < n; i++ {
		v := intIn[I]("v")
		if sym.Choose("op", 2) == 0 {
			s, m = s.With(v), m.with(ik(v))
		} else {
			s, m = s.Without(v), m.without(ik(v))
		}
	}
	q := intIn[I]("q")
	sym.Assert(iff(s.Has(q), m.has(ik(q))), "Has agrees with the history")
	sym.Assert(s.Count() == m.count(), "Count is the number of distinct values")
	sym.Assert(iff(s.IsEmpty(), m.count() == 0), "IsEmpty iff no values")
	if sym.Param("list") == 1 {
		intSame(s, m, "history")
		var els []K
		for _, v := range s.Elements() {
			els = append(els, ik(v))
		}
		list(els, m, "Elements")
		if !s.IsEmpty() {
			sym.Assert(m.has(ik(s.Any())), "Any is a member")
		}
	}
	sym.Reach("end")
}

func intAlgebra[I integer]() {
	a, ma := intBuild("a", sym.Param("routeA"), intsIn[I]("a", sym.Param("a")))
	b, mb := intBuild("b", sym.Param("routeB"), intsIn[I]("b", sym.Param("b")))
	switch sym.Choose("op", 5) {
	case 0:
		intSame(a.Union(b), ma.union(mb), "Union")
	case 1:
		intSame(a.Intersection(b), ma.intersect(mb), "Intersection")
	case 2:
		sym.Assert(iff(a.IsSubsetOf(b), ma.subset(mb)), "IsSubsetOf iff every value is in the other")
		sym.Assert(a.IsSubsetOf(a), "IsSubsetOf is reflexive")
	case 3:
		eq := ma.equal(mb)
		sym.Assert(iff(a.Equal(b), eq), "Equal iff same values")
		sym.Assert(iff(a.Same(b), eq), "Same agrees with Equal")
		sym.Assert(iff(a.EqualSet(b), eq), "EqualSet agrees with Equal")
		sym.Assert(sym.Not(a.Same(1)), "Same is false for another type")
		sym.Assert(sym.Not(a.Same(nil)), "Same is false for nil")
		sym.Assert(a.Equal(a), "Equal is reflexive")
	case 4:
		// The results of algebra are exact sets in their own right.
		v := intIn[I]("v")
		u := a.Union(b)
		sym.Assert(iff(u.Has(v), ma.union(mb).has(ik(v))), "Union: Has")
		sym.Assert(u.With(v).Count() == ma.union(mb).with(ik(v)).count(), "Union, With: Count")
		n := a.Intersection(b)
		sym.Assert(iff(n.Has(v), ma.intersect(mb).has(ik(v))), "Intersection: Has")
		sym.Assert(n.Without(v).Count() == ma.intersect(mb).without(ik(v)).count(), "Intersection, Without: Count")
		sym.Assert(iff(n.Equal(a), ma.subset(mb)), "Intersection equals an operand iff that is a subset")
		sym.Assert(iff(u.Equal(a), mb.subset(ma)), "Union equals an operand iff the other is a subset")
	}
	sym.Reach("end")
}

func intDerived[I integer]() {
	s, m := intBuild("init", sym.Param("routeA"), intsIn[I]("init", sym.Param("init")))
	switch sym.Choose("op", 2) {
	case 0:
		w := s.Where(func(v I) bool { return sym.UFBool("pred", uint64(v)) })
		intSame(w, m.where(func(k K) bool { return sym.UFBool("pred", k.ID) }), "Where")
	case 1:
		f := func(k K) K { return ik(I(sym.UF("f", k.ID))) }
		r := s.Map(func(v I) I { return I(sym.UF("f", uint64(v))) })
		x := M{}
		for _, e := range m {
			fk := f(e.k)
			x = append(x, ent{fk, sym.And(e.p, sym.Not(x.has(fk)))})
		}
		intSame(r, x, "Map")
	}
	intSame(s, m, "source unchanged")
	sym.Reach("end")
}

// intVersions: deriving sets leaves every earlier one as it was.
func intVersions[I integer]() {
	s, m := intBuild("init", sym.Param("routeA"), intsIn[I]("init", sym.Param("init")))
	ss, ms := []frozen.IntSet[I]{s}, []M{m}
	for i, n := 0, sym.Param("ops"); i < n; i++ {
		j := sym.Choose("ancestor", len(ss))
		a, b := ss[j], ms[j]
		switch sym.Choose("op", 4) {
		case 0:
			v := intIn[I]("v")
			a, b = a.With(v), b.with(ik(v))
		case 1:
			v := intIn[I]("v")
			a, b = a.Without(v), b.without(ik(v))
		case 2:
			o := sym.Choose("other", len(ss))
			a, b = a.Union(ss[o]), b.union(ms[o])
		case 3:
			o := sym.Choose("other", len(ss))
			a, b = a.Intersection(ss[o]), b.intersect(ms[o])
		}
		ss, ms = append(ss, a), append(ms, b)
	}
	for i := range ss {
		intSame(ss[i], ms[i], "version")
	}
	sym.Reach("end")
}
