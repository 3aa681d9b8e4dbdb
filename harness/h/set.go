package h

import (
	"github.com/arr-ai/frozen"

	"github.com/arr-ai/frozen/internal/zzverif/sym"
)

func init() {
	Harnesses["SetHistory"] = SetHistory
	Harnesses["SetAlgebra"] = SetAlgebra
	Harnesses["SetNary"] = SetNary
	Harnesses["SetEquality"] = SetEquality
	Harnesses["SetVersions"] = SetVersions
	Harnesses["SetTraversal"] = SetTraversal
	Harnesses["SetDerived"] = SetDerived
	Harnesses["SetReduce"] = SetReduce
	Harnesses["SetGroupBy"] = SetGroupBy
	Harnesses["SetOrdered"] = SetOrdered
	Harnesses["SetBuilderHistory"] = SetBuilderHistory
	Harnesses["Powerset"] = Powerset
}

// bulk is a fixed collection of n elements with identities 0, stride, ...
func bulk() []K {
	var r []K
	stride := sym.Param("stride")
	if stride == 0 {
		stride = 1
	}
	for i, n := 0, sym.Param("bulk"); i < n; i++ {
		r = append(r, K{uint64(i * stride)})
	}
	return r
}

// SetHistory: any history of NewSet/With/Without denotes the mathematical set.
func SetHistory() {
	init := append(bulk(), keys("init", sym.Param("init"))...)
	m := mset(init...)
	s := frozen.NewSet(init...)
	for i, n := 0, sym.Param("ops"); i < n; i++ {
		k := key("k")
		if sym.Choose("op", 2) == 0 {
			s, m = s.With(k), m.with(k)
		} else {
			s, m = s.Without(k), m.without(k)
		}
	}
	q := key("q")
	sym.Assert(iff(s.Has(q), m.has(q)), "Has agrees with the history")
	sym.Assert(s.Count() == m.count(), "Count is the number of distinct elements")
	sym.Assert(iff(s.IsEmpty(), m.count() == 0), "IsEmpty iff no elements")
	if sym.Param("list") == 1 {
		list(elems(s), m, "history")
	}
	sym.Observe("count", uint64(s.Count()))
	sym.Reach("end")
}

// operands are two sets: bulk elements and arbitrary ones in each.
func operands() (a, b frozen.Set[K], ma, mb M) {
	bk := bulk()
	half := len(bk) / 2
	lo, hi := 0, len(bk)
	if len(bk) > 0 {
		// overlapping ranges
		lo, hi = half/2, half+half/2
	}
	na, nb := sym.Param("a"), sym.Param("b")
	if sym.Param("upto") == 1 {
		na, nb = upto("na", 0, na), upto("nb", 0, nb)
	}
	ka := append(append([]K{}, bk[:hi]...), distinctKeys("a", na)...)
	kb := append(append([]K{}, bk[lo:]...), distinctKeys("b", nb)...)
	a, ma = build("a", sym.Param("routeA"), ka)
	b, mb = build("b", sym.Param("routeB"), kb)
	return
}

// SetAlgebra: union, intersection, differences.
func SetAlgebra() {
	a, b, ma, mb := operands()
	var s frozen.Set[K]
	var m M
	var what string
	only := sym.Param("op")
	o := only - 1
	if only == 0 {
		o = sym.Choose("op", 4)
	}
	switch o {
	case 0:
		s, m, what = a.Union(b), ma.union(mb), "union"
	case 1:
		s, m, what = a.Intersection(b), ma.intersect(mb), "intersection"
	case 2:
		s, m, what = a.Difference(b), ma.minus(mb), "difference"
	case 3:
		s, m, what = a.SymmetricDifference(b), ma.symdiff(mb), "symmetric difference"
	}
	same(s, m, what)
	if sym.Param("probe") == 1 {
		q := key("q")
		sym.Assert(iff(s.Has(q), m.has(q)), what+": Has")
	}
	if sym.Param("after") == 1 {
		// The result is a proper set: it can be updated like any other.
		k := key("k")
		same(s.With(k), m.with(k), what+" then With")
		same(s.Without(k), m.without(k), what+" then Without")
	}
	sym.Reach(what)
}

// SetNary: n-ary union and intersection.
func SetNary() {
	n := upto("n", 0, sym.Param("n"))
	var ss []frozen.Set[K]
	var ms []M
	for i := 0; i < n; i++ {
		ks := keys("k", sym.Param("size"))
		ss = append(ss, frozen.NewSet(ks...))
		ms = append(ms, mset(ks...))
	}
	u := M{}
	for _, m := range ms {
		u = u.union(m)
	}
	same(frozen.Union(ss...), u, "n-ary union")
	if n > 0 {
		x := ms[0]
		for _, m := range ms {
			x = x.intersect(m)
		}
		same(frozen.Intersection(ss...), x, "n-ary intersection")
	}
	sym.Reach("end")
}

// SetEquality: Equal, Same and IsSubsetOf are extensional.
func SetEquality() {
	a, b, ma, mb := operands()
	eq := ma.equal(mb)
	sym.Assert(iff(a.Equal(b), eq), "Equal iff same elements")
	sym.Assert(iff(a.Same(b), eq), "Same agrees with Equal")
	sym.Assert(iff(a.IsSubsetOf(b), ma.subset(mb)), "IsSubsetOf iff every element is in the other")
	sym.Assert(iff(b.IsSubsetOf(a), mb.subset(ma)), "IsSubsetOf iff every element is in the other (flipped)")
	sym.Assert(sym.Not(a.Same(1)), "Same is false for another type")
	sym.Assert(sym.Not(a.Same(nil)), "Same is false for nil")
	sym.Assert(sym.Not(a.Same(frozen.NewSet(1))), "Same is false for another element type")
	sym.Assert(a.Equal(a), "Equal is reflexive")
	sym.Assert(a.IsSubsetOf(a), "IsSubsetOf is reflexive")
	sym.Observe("eq", uint64(sym.B2I(a.Equal(b))))
	sym.Reach("end")
}

// scribble overwrites a slice.
func scribble(es []K, k K) {
	for i := range es {
		es[i] = k
	}
}

// SetVersions: every version of a family of derived sets keeps its contents.
func SetVersions() {
	init := append(bulk(), distinctKeys("init", sym.Param("init"))...)
	s0, m0 := build("init", sym.Param("routeA"), init)
	ss, ms := []frozen.Set[K]{s0}, []M{m0}
	its := []frozen.Iterator[K]{s0.Range()}
	// Further iterators, advanced by one element at once.
	var part []frozen.Iterator[K]
	var firsts [][]K
	open := func(s frozen.Set[K]) {
		i := s.Range()
		var f []K
		if i.Next() {
			f = append(f, i.Value())
		}
		part, firsts = append(part, i), append(firsts, f)
	}
	open(s0)
	kinds := sym.Param("kinds")
	for i, n := 0, sym.Param("ops"); i < n; i++ {
		j := sym.Choose("ancestor", len(ss))
		a, m := ss[j], ms[j]
		switch sym.Choose("op", kinds) {
		case 0:
			k := key("k")
			a, m = a.With(k), m.with(k)
		case 1:
			k := key("k")
			a, m = a.Without(k), m.without(k)
		case 2:
			o := sym.Choose("other", len(ss))
			a, m = a.Union(ss[o]), m.union(ms[o])
		case 3:
			o := sym.Choose("other", len(ss))
			a, m = a.Intersection(ss[o]), m.intersect(ms[o])
		case 4:
			o := sym.Choose("other", len(ss))
			a, m = a.SymmetricDifference(ss[o]), m.symdiff(ms[o])
		case 5:
			k := key("k")
			a = a.Where(func(e K) bool { return e.ID != k.ID })
			m = m.without(k)
		case 6: // rebuild in a builder that starts from its own elements
			var b frozen.SetBuilder[K]
			for i := a.Range(); i.Next(); {
				b.Add(i.Value())
			}
			b.Add(key("k"))
			b.Remove(key("k2"))
			b.Finish()
			a.Elements()
			a.IsSubsetOf(ss[0])
			a.Hash(0)
		case 7:
			o := sym.Choose("other", len(ss))
			a, m = a.Difference(ss[o]), m.minus(ms[o])
		case 8: // slices handed out belong to the caller
			k := key("k")
			less := func(x, y K) bool { return x.ID < y.ID }
			for _, es := range [][]K{a.Elements(), a.OrderedElements(less), a.OrderedFirstN(2, less)} {
				scribble(es, k)
				_ = append(es, k)
			}
		case 9: // selections of everything, updated further
			k := key("k")
			n := a.Count()
			if sym.Choose("how", 2) == 0 {
				a = a.AnyN(n)
			} else {
				a = a.FirstN(n, func(x, y K) bool { return x.ID < y.ID })
			}
			a, m = a.With(k), m.with(k)
		case 10: // the same set under another element type, and back, updated on both sides
			k := key("k")
			t := a.AsSetAny()
			t.With(any(k))
			t.Without(any(k))
			if !a.IsEmpty() {
				a.Without(a.Any())
			}
			a, m = frozen.SetAs[K](t).Without(k), m.without(k)
		case 11: // read-only operations
			a.Reduce(func(es ...K) K { return es[0] })
			a.Reduce2(func(x, y K) K { return y })
			a.Equal(ss[0])
			a.Where(func(K) bool { return false })
			frozen.SetMap(a, func(k K) K { return K{k.ID & 1} })
			frozen.SetGroupBy(a, func(k K) K { return K{k.ID & 1} })
			frozen.Powerset(frozen.NewSet(a.Elements()...).AnyN(2))
		}
		ss, ms = append(ss, a), append(ms, m)
		its = append(its, a.Range())
		open(a)
	}
	for i := range ss {
		same(ss[i], ms[i], "version")
		// An iterator opened before the later operations still lists its set.
		var late []K
		for its[i].Next() {
			late = append(late, its[i].Value())
		}
		list(late, ms[i], "iterator opened earlier")
		rest := firsts[i]
		for part[i].Next() {
			rest = append(rest, part[i].Value())
		}
		list(rest, ms[i], "iterator advanced earlier")
	}
	sym.Reach("end")
}

// howMany is any number up to one more than max, or the largest there is.
func howMany(max int) int {
	n := sym.Choose("n", max+3)
	if n == max+2 {
		return int(^uint(0) >> 1)
	}
	return n
}

// SetTraversal: Range, Elements, Any, AnyN.
func SetTraversal() {
	init := append(bulk(), keys("init", sym.Param("init"))...)
	s, m := build("init", sym.Param("routeA"), init)
	i := s.Range()
	var els []K
	for i.Next() {
		els = append(els, i.Value())
	}
	sym.Assert(!i.Next(), "Next stays false at the end")
	list(els, m, "Range")
	list(s.Elements(), m, "Elements")
	if s.IsEmpty() {
		sym.Assert(panics(func() { s.Any() }), "Any panics on the empty set")
	} else {
		sym.Assert(m.has(s.Any()), "Any returns a member")
	}
	n := howMany(len(init))
	t := s.AnyN(n)
	c := m.count()
	sym.Assert(t.Count() == sym.IteInt(n < c, n, c), "AnyN returns min(n, count) elements")
	te := elems(t)
	sym.Assert(len(te) == t.Count(), "AnyN: traversal agrees with count")
	for i, e := range te {
		sym.Assert(m.has(e), "AnyN returns members")
		for _, f := range te[:i] {
			sym.Assert(sym.Not(e.ID == f.ID), "AnyN returns distinct members")
		}
	}
	sym.Observe("count", uint64(s.Count()))
	sym.Reach("end")
}

// SetDerived: Where, SetMap, SetAs, AsSetAny.
func SetDerived() {
	init := append(bulk(), keys("init", sym.Param("init"))...)
	s, m := build("init", sym.Param("routeA"), init)
	switch sym.Choose("what", 3) {
	case 0:
		pred := func(k K) bool { return sym.UFBool("pred", k.ID) }
		calls := map[uint64]int{}
		_ = calls
		w := s.Where(func(k K) bool {
			if pred(k) {
				return true
			}
			return false
		})
		same(w, m.where(pred), "Where")
		same(w.Where(func(K) bool { return true }), m.where(pred), "Where true")
		same(w.Where(func(K) bool { return false }), M{}, "Where false")
	case 1:
		f := func(k K) K { return K{sym.UFSmall("f", 3, k.ID)} }
		var im M
		for _, e := range m {
			fk := f(e.k)
			im = append(im, ent{fk, sym.And(e.p, sym.Not(im.has(fk)))})
		}
		same(frozen.SetMap(s, f), im, "SetMap")
	case 2:
		a := frozen.SetAs[any](s)
		b := s.AsSetAny()
		for _, t := range []frozen.Set[any]{a, b} {
			var els []K
			for i := t.Range(); i.Next(); {
				els = append(els, i.Value().(K))
			}
			list(els, m, "element type conversion")
			sym.Assert(t.Count() == m.count(), "element type conversion: Count")
		}
		back := frozen.SetAs[K](a)
		same(back, m, "element type conversion round trip")
		q := key("q")
		sym.Assert(iff(a.Has(q), m.has(q)), "element type conversion: Has")
	}
	sym.Reach("end")
}

// SetReduce: Reduce and Reduce2 fold all members.
func SetReduce() {
	init := append(bulk(), keys("init", sym.Param("init"))...)
	s, m := build("init", sym.Param("routeA"), init)
	// Sum, parity and bit-or of members are commutative and associative.
	var sum, xor uint64
	for _, e := range m {
		sum += sym.Ite64(e.p, e.k.ID, 0)
		xor ^= sym.Ite64(e.p, e.k.ID, 0)
	}
	r, ok := s.Reduce(func(es ...K) K {
		sym.Assert(len(es) > 0, "Reduce never passes no elements")
		var t uint64
		for _, e := range es {
			t += e.ID
		}
		return K{t}
	})
	sym.Assert(iff(ok, m.count() > 0), "Reduce reports absence exactly on the empty set")
	sym.Assert(r.ID == sum, "Reduce folds all members once")
	r2, ok2 := s.Reduce2(func(a, b K) K { return K{a.ID ^ b.ID} })
	sym.Assert(iff(ok2, m.count() > 0), "Reduce2 reports absence exactly on the empty set")
	sym.Assert(r2.ID == xor, "Reduce2 folds all members once")
	sym.Observe("sum", r.ID)
	sym.Reach("end")
}

// SetGroupBy: grouping partitions the members by key.
func SetGroupBy() {
	init := append(bulk(), keys("init", sym.Param("init"))...)
	s, m := build("init", sym.Param("routeA"), init)
	f := func(k K) K { return K{sym.UFSmall("f", uint64(sym.Param("groups")), k.ID)} }
	if d := sym.Param("mod"); d > 0 { // fixed groups
		f = func(k K) K { return K{k.ID & uint64(d-1)} }
	}
	g := frozen.SetGroupBy(s, f)
	total := 0
	var gks []K
	for i := g.Range(); i.Next(); {
		gk, gs := i.Entry()
		for _, o := range gks {
			sym.Assert(sym.Not(o.ID == gk.ID), "GroupBy: each key once")
		}
		gks = append(gks, gk)
		sym.Assert(!gs.IsEmpty(), "GroupBy: no empty group")
		same(gs, m.where(func(k K) bool { return f(k).ID == gk.ID }), "GroupBy: group")
		total += gs.Count()
	}
	sym.Assert(total == m.count(), "GroupBy: groups cover the set")
	sym.Assert(g.Count() == len(gks), "GroupBy: Count")
	sym.Reach("end")
}

// SetOrdered: ordered traversal and selection.
func SetOrdered() {
	init := append(bulk(), keys("init", sym.Param("init"))...)
	s, m := build("init", sym.Param("routeA"), init)
	// A strict weak order: compare arbitrary ranks.
	ties := sym.Param("ties") == 1
	rank := func(k K) uint64 {
		if ties {
			return sym.UFSmall("rank", 3, k.ID)
		}
		return k.ID
	}
	less := func(a, b K) bool { return rank(a) < rank(b) }
	switch sym.Choose("what", 3) {
	case 0:
		els := s.OrderedElements(less)
		list(els, m, "OrderedElements")
		for i := 1; i < len(els); i++ {
			sym.Assert(rank(els[i-1]) <= rank(els[i]), "OrderedElements is sorted")
		}
	case 1:
		i := s.OrderedRange(less)
		var els []K
		for i.Next() {
			els = append(els, i.Value())
		}
		list(els, m, "OrderedRange")
		for i := 1; i < len(els); i++ {
			sym.Assert(rank(els[i-1]) <= rank(els[i]), "OrderedRange is sorted")
		}
		sym.Assert(!i.Next(), "OrderedRange: Next stays false at the end")
	case 2:
		n := howMany(len(init))
		els := s.OrderedFirstN(n, less)
		least(els, n, m, rank, "OrderedFirstN")
		for i := 1; i < len(els); i++ {
			sym.Assert(rank(els[i-1]) <= rank(els[i]), "OrderedFirstN is sorted")
		}
		t := s.FirstN(n, less)
		sym.Assert(t.Count() == len(els), "FirstN: Count")
		least(elems(t), n, m, rank, "FirstN")
		if s.IsEmpty() {
			sym.Assert(panics(func() { s.First(less) }), "First panics on the empty set")
		} else {
			least([]K{s.First(less).(K)}, 1, m, rank, "First")
		}
	}
	sym.Reach("end")
}

// least asserts that els are min(n, count) distinct members with no other
// member below any of them.
func least(els []K, n int, m M, rank func(K) uint64, what string) {
	c := m.count()
	sym.Assert(len(els) == sym.IteInt(n < c, n, c), what+": min(n, count) elements")
	chosen := M{}
	for _, e := range els {
		sym.Assert(m.has(e), what+": members")
		sym.Assert(sym.Not(chosen.has(e)), what+": distinct")
		chosen = append(chosen, ent{e, true})
	}
	for _, x := range m {
		out := sym.And(x.p, sym.Not(chosen.has(x.k)))
		for _, e := range els {
			sym.Assert(sym.Implies(out, rank(e) <= rank(x.k)), what+": the least members")
		}
	}
}

// SetBuilderHistory: a builder denotes its history, and finishing resets it.
func SetBuilderHistory() {
	var b *frozen.SetBuilder[K]
	if sym.Param("cap") == 1 {
		b = frozen.NewSetBuilder[K](sym.Choose("cap", 3))
	} else {
		b = &frozen.SetBuilder[K]{}
	}
	m := M{}
	var ss []frozen.Set[K]
	var ms []M
	for _, k := range append(bulk(), keys("init", sym.Param("init"))...) {
		b.Add(k)
		m = m.with(k)
	}
	kinds := 3
	if sym.Param("nofinish") == 1 {
		kinds = 2
	}
	for i, n := 0, sym.Param("ops"); i < n; i++ {
		switch sym.Choose("op", kinds) {
		case 0:
			k := key("k")
			b.Add(k)
			m = m.with(k)
		case 1:
			k := key("k")
			b.Remove(k)
			m = m.without(k)
		case 2:
			ss, ms = append(ss, b.Finish()), append(ms, m)
			m = M{}
		}
		sym.Assert(b.Count() == m.count(), "builder: Count")
	}
	q := key("q")
	sym.Assert(iff(b.Has(q), m.has(q)), "builder: Has")
	ss, ms = append(ss, b.Finish()), append(ms, m)
	sym.Assert(b.Count() == 0, "builder: empty after Finish")
	k := key("last")
	b.Add(k)
	ss, ms = append(ss, b.Finish()), append(ms, mset(k))
	for i := range ss {
		same(ss[i], ms[i], "finished set")
	}
	sym.Reach("end")
}

// Powerset: exactly all subsets.
func Powerset() {
	init := distinctKeys("init", upto("n", 0, sym.Param("init")))
	s := frozen.NewSet(init...)
	p := frozen.Powerset(s)
	n := len(init)
	sym.Assert(p.Count() == 1<<uint(n), "powerset: 2^n subsets")
	all := 0
	seen := make([]bool, 1<<uint(n))
	for i := p.Range(); i.Next(); {
		sub := i.Value()
		mask := 0
		for j, k := range init {
			if sub.Has(k) {
				mask |= 1 << uint(j)
			}
		}
		c := 0
		for j := range init {
			c += mask >> uint(j) & 1
		}
		sym.Assert(sub.Count() == c, "powerset: members are subsets")
		sym.Assert(!seen[mask], "powerset: each subset once")
		seen[mask] = true
		all++
	}
	sym.Assert(all == 1<<uint(n), "powerset: traversal finds every subset")
	// Lookup by an independently built subset.
	pick := sym.Choose("pick", 1<<uint(n))
	var sub frozen.Set[K]
	for j := n - 1; j >= 0; j-- {
		if pick>>uint(j)&1 == 1 {
			sub = sub.With(init[j])
		}
	}
	sym.Assert(p.Has(sub), "powerset: has every subset")
	same(s, mset(init...), "powerset: source")
	sym.Observe("count", uint64(p.Count()))
	sym.Reach("end")
}
