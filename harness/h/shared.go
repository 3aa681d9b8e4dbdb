package h

import (
	"github.com/arr-ai/frozen"

	"github.com/arr-ai/frozen/internal/zzverif/sym"
)

func init() {
	Harnesses["ParEquality"] = ParEquality
	Harnesses["ParMapEquality"] = ParMapEquality
	Harnesses["SharedSets"] = SharedSets
	Harnesses["SharedMaps"] = SharedMaps
	Harnesses["SharedIntSets"] = SharedIntSets
}

// ParEquality: one comparison of two sets.
func ParEquality() {
	a, b, ma, mb := operands()
	if sym.Choose("op", 2) == 0 {
		sym.Assert(iff(a.Equal(b), ma.equal(mb)), "Equal iff same elements")
	} else {
		sym.Assert(iff(a.IsSubsetOf(b), ma.subset(mb)), "IsSubsetOf iff every element is in the other")
	}
	same(a, ma, "left operand")
	same(b, mb, "right operand")
	sym.Reach("end")
}

// ParMapEquality: one comparison of two maps.
func ParMapEquality() {
	a, b, ma, mb := mapOperands()
	sym.Assert(iff(a.Equal(b), ma.equal(mb)), "Equal iff same bindings")
	sym.Reach("end")
}

// twice runs two of the jobs at a time; what a job returns checks its result
// after both have ended.
func twice(what string, jobs []func() func(what string)) {
	i := sym.Choose("job a", len(jobs))
	j := sym.Choose("job b", i+1)
	if only := sym.Param("only"); only != 0 && i != only-1 && j != only-1 {
		sym.Assume(false)
	}
	type res struct {
		f func(string)
		p bool
	}
	run := func(job func() func(string), c chan res) {
		r := res{p: true}
		defer func() {
			recover()
			c <- r
		}()
		r.f = job()
		r.p = false
	}
	ca, cb := make(chan res, 1), make(chan res, 1)
	go run(jobs[i], ca)
	go run(jobs[j], cb)
	ra, rb := <-ca, <-cb
	sym.Assert(!ra.p && !rb.p, what+": no panic")
	ra.f(what + ": result")
	rb.f(what + ": result")
}

// SharedSets: two goroutines use the same sets.
func SharedSets() {
	a, b, ma, mb := operands()
	q := key("q")
	pred := func(k K) bool { return sym.UFBool("where", k.ID) }
	set := func(f func() frozen.Set[K], m M) func() func(string) {
		return func() func(string) {
			s := f()
			return func(what string) { same(s, m, what) }
		}
	}
	cond := func(f func() bool, m bool) func() func(string) {
		return func() func(string) {
			v := f()
			return func(what string) { sym.Assert(iff(v, m), what) }
		}
	}
	num := func(f func() int, m int) func() func(string) {
		return func() func(string) {
			v := f()
			return func(what string) { sym.Assert(v == m, what) }
		}
	}
	up := func(x, y K) bool { return x.ID < y.ID }
	down := func(x, y K) bool { return x.ID > y.ID }
	sorted := func(f func() []K, less func(x, y K) bool) func() func(string) {
		return func() func(string) {
			es := f()
			return func(what string) {
				list(es, ma, what)
				for i := 1; i < len(es); i++ {
					sym.Assert(less(es[i-1], es[i]), what+" in order")
				}
			}
		}
	}
	twice("shared sets", []func() func(string){
		set(func() frozen.Set[K] { return a.With(q) }, ma.with(q)),
		set(func() frozen.Set[K] { return a.Without(q) }, ma.without(q)),
		set(func() frozen.Set[K] { return a.Union(b) }, ma.union(mb)),
		set(func() frozen.Set[K] { return b.Union(a) }, ma.union(mb)),
		set(func() frozen.Set[K] { return a.Intersection(b) }, ma.intersect(mb)),
		set(func() frozen.Set[K] { return a.Difference(b) }, ma.minus(mb)),
		set(func() frozen.Set[K] { return a.Where(pred) }, ma.where(pred)),
		cond(func() bool { return a.Has(q) }, ma.has(q)),
		cond(func() bool { return a.Equal(b) }, ma.equal(mb)),
		cond(func() bool { return a.IsSubsetOf(b) }, ma.subset(mb)),
		num(func() int { return len(elems(a)) }, ma.count()),
		num(func() int { return int(a.Hash(5)) - int(a.Hash(5)) }, 0),
		num(func() int { return b.With(q).Union(a).Count() }, ma.union(mb).with(q).count()),
		num(func() int { return frozen.SetMap(a, func(k K) K { return k }).Count() }, ma.count()),
		sorted(func() []K { return a.OrderedElements(up) }, up),
		sorted(func() []K { return a.OrderedElements(down) }, down),
		num(func() int { return a.FirstN(2, up).Count() }, sym.IteInt(ma.count() < 2, ma.count(), 2)),
		num(func() int { return a.AnyN(3).With(q).Without(q).Count() - a.AnyN(3).Without(q).Count() }, 0),
		num(func() int { r, _ := a.Reduce2(func(x, y K) K { return K{x.ID + y.ID} }); return int(r.ID) }, total(ma)),
		num(func() int {
			n := 0
			for i := frozen.SetGroupBy(a, func(k K) K { return K{k.ID & 1} }).Range(); i.Next(); {
				n += i.Value().Count()
			}
			return n
		}, ma.count()),
		num(func() int {
			es := a.Elements()
			n := len(es)
			scribble(es, q)
			return n
		}, ma.count()),
		set(func() frozen.Set[K] { return frozen.SetAs[K](a.AsSetAny().With(any(q))) }, ma.with(q)),
	})
	same(a, ma, "shared set")
	same(b, mb, "shared set")
	sym.Reach("end")
}

// total is the sum of the members.
func total(m M) int {
	var n uint64
	for _, e := range m {
		n += sym.Ite64(e.p, e.k.ID, 0)
	}
	return int(n)
}

// SharedMaps: two goroutines use the same maps.
func SharedMaps() {
	a, b, ma, mb := mapOperands()
	q := key("q")
	pred := func(k K, v int) bool { return sym.UFBool("where", k.ID, uint64(v)) }
	m := func(f func() frozen.Map[K, int], m MM) func() func(string) {
		return func() func(string) {
			s := f()
			return func(what string) { sameMap(s, m, what) }
		}
	}
	num := func(f func() int, m int) func() func(string) {
		return func() func(string) {
			v := f()
			return func(what string) { sym.Assert(v == m, what) }
		}
	}
	gv, gok := ma.get(q)
	res := func(_ K, x, y int) int { return x*3 + y }
	twice("shared maps", []func() func(string){
		m(func() frozen.Map[K, int] { return a.With(q, 7) }, ma.with(q, 7)),
		m(func() frozen.Map[K, int] { return a.Without(q) }, ma.without(q)),
		m(func() frozen.Map[K, int] { return a.Update(b) }, ma.update(mb)),
		m(func() frozen.Map[K, int] { return a.Merge(b, res) }, ma.merge(mb, res)),
		m(func() frozen.Map[K, int] { return a.Where(pred) }, ma.where(pred)),
		num(func() int { v, ok := a.Get(q); return sym.IteInt(ok, v, -1) }, sym.IteInt(gok, gv, -1)),
		num(func() int { return sym.B2I(a.Equal(b)) }, sym.B2I(ma.equal(mb))),
		num(func() int { return a.Keys().Count() }, ma.count()),
		num(func() int {
			n := 0
			for i := a.Range(); i.Next(); {
				n++
			}
			return n
		}, ma.count()),
		num(func() int { return b.With(q, 1).Update(a).Count() }, mb.with(q, 1).update(ma).count()),
		m(func() frozen.Map[K, int] { return a.Project(q) }, ma.where(func(k K, _ int) bool { return k.ID == q.ID })),
		m(func() frozen.Map[K, int] { return frozen.MapMap(a, func(_ K, v int) int { return v + 1 }) },
			ma.mapv(func(_ K, v int) int { return v + 1 })),
		num(func() int { return len(frozen.MapToGoMap(a)) }, ma.count()),
		num(func() int { return int(a.Hash(5)) - int(a.Hash(5)) }, 0),
		num(func() int { return frozen.NewMapFromKeys(a.Keys(), func(K) int { return 1 }).Values().Count() }, sym.B2I(ma.count() > 0)),
	})
	sameMap(a, ma, "shared map")
	sameMap(b, mb, "shared map")
	sym.Reach("end")
}

// SharedIntSets: two goroutines use the same integer sets.
func SharedIntSets() {
	va, vb := intsIn[int]("a", sym.Param("a")), intsIn[int]("b", sym.Param("b"))
	a, ma := intBuild("a", 0, va)
	b, mb := intBuild("b", 0, vb)
	q := intIn[int]("q")
	set := func(f func() frozen.IntSet[int], m M) func() func(string) {
		return func() func(string) {
			s := f()
			return func(what string) { intSame(s, m, what) }
		}
	}
	num := func(f func() int, m int) func() func(string) {
		return func() func(string) {
			v := f()
			return func(what string) { sym.Assert(v == m, what) }
		}
	}
	twice("shared integer sets", []func() func(string){
		set(func() frozen.IntSet[int] { return a.With(q) }, ma.with(ik(q))),
		set(func() frozen.IntSet[int] { return a.Without(q) }, ma.without(ik(q))),
		set(func() frozen.IntSet[int] { return a.Union(b) }, ma.union(mb)),
		set(func() frozen.IntSet[int] { return a.Intersection(b) }, ma.intersect(mb)),
		num(func() int { return sym.B2I(a.Has(q)) }, sym.B2I(ma.has(ik(q)))),
		num(func() int { return sym.B2I(a.Equal(b)) }, sym.B2I(ma.equal(mb))),
		num(func() int { return sym.B2I(a.IsSubsetOf(b)) }, sym.B2I(ma.subset(mb))),
		num(func() int {
			n := 0
			for i := a.Range(); i.Next(); {
				n++
			}
			return n
		}, ma.count()),
		set(func() frozen.IntSet[int] { return a.Where(func(i int) bool { return i != q }) }, ma.without(ik(q))),
		set(func() frozen.IntSet[int] { return a.Map(func(i int) int { return i }) }, ma),
		num(func() int { return int(a.Hash(5)) - int(a.Hash(5)) }, 0),
		num(func() int { return len(a.Elements()) }, ma.count()),
	})
	intSame(a, ma, "shared integer set")
	intSame(b, mb, "shared integer set")
	sym.Reach("end")
}
