package h

import (
	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/lazy"

	"github.com/arr-ai/frozen/internal/zzverif/sym"
)

func init() {
	Harnesses["LazyExpr"] = LazyExpr
	Harnesses["LazyFast"] = LazyFast
	Harnesses["LazyHistory"] = LazyHistory
	Harnesses["LazyPowerset"] = LazyPowerset
	Harnesses["HashLazy"] = HashLazy
	Harnesses["LazyBigPowerset"] = LazyBigPowerset
	Harnesses["LazyConcurrent"] = LazyConcurrent
	Harnesses["LazyPartial"] = LazyPartial
}

func frozenAny(ks []K) frozen.Set[any] {
	var s frozen.Set[any]
	for _, k := range ks {
		s = s.With(lazyEl(k))
	}
	return s
}

// lazyEl is a new value for an identity: a K, or one whose equality is not Go's
// equality (a set or a lazy set of it), or one of either kind.
func lazyEl(k K) any {
	switch sym.Param("wrap") {
	case 1:
		return frozen.NewSet(k)
	case 2:
		return lazy.Frozen(frozen.NewSet[any](k))
	case 3:
		if k.ID&1 == 1 {
			return frozen.NewSet(k)
		}
	}
	return k
}

// unLazy is the identity of an element.
func unLazy(el any) K {
	switch x := el.(type) {
	case frozen.Set[K]:
		sym.Assert(x.Count() == 1, "elements are as they were given")
		return x.Any()
	case lazy.Set:
		i := x.Range()
		sym.Assert(i.Next(), "elements are as they were given")
		return i.Value().(K)
	}
	return el.(K)
}

func lazyPred(name string) lazy.Predicate {
	return func(el any) bool { return sym.UFBool(name, unLazy(el).ID) }
}

// image is the model of mapping a set.
func (m M) image(f func(K) K) M {
	r := M{}
	for _, e := range m {
		k := f(e.k)
		r = append(r, ent{k, sym.And(e.p, sym.Not(r.has(k)))})
	}
	return r
}

var lazyOps = []string{"where", "map", "with", "without", "union", "intersection", "difference", "symmetric difference"}

// lazyLeaf is the empty set or a frozen one.
func lazyLeaf(label string) (lazy.Set, M) {
	n := sym.Param("leaf")
	if sym.Choose(label+".empty", 2) == 1 {
		return lazy.EmptySet{}, M{}
	}
	if sym.Param("small") == 1 {
		n = upto(label+".n", 0, n)
	}
	ks := distinctKeys(label, n)
	return lazy.Frozen(frozenAny(ks)), mset(ks...)
}

// lazyApply applies one operator.
func lazyApply(label string, op int, s lazy.Set, m M, bdepth int) (lazy.Set, M) {
	switch op {
	case 0:
		return s.Where(lazyPred(label)), m.where(func(k K) bool { return sym.UFBool(label, k.ID) })
	case 1:
		f := func(k K) K { return K{sym.UFSmall(label, 255, k.ID)} }
		return s.Map(func(el any) any { return lazyEl(f(unLazy(el))) }), m.image(f)
	case 2:
		k := key(label)
		return s.With(lazyEl(k)), m.with(k)
	case 3:
		k := key(label)
		return s.Without(lazyEl(k)), m.without(k)
	}
	t, n := lazyTree(label+"r", bdepth, 0)
	switch op {
	case 4:
		return s.Union(t), m.union(n)
	case 5:
		return s.Intersection(t), m.intersect(n)
	case 6:
		return s.Difference(t), m.minus(n)
	}
	return s.SymmetricDifference(t), m.symdiff(n)
}

// lazyTree is an arbitrary expression of the given depth along its left spine;
// right operands have depth bdepth less one.
func lazyTree(label string, depth, bdepth int) (lazy.Set, M) {
	if depth == 0 {
		return lazyLeaf(label)
	}
	s, m := lazyTree(label+"l", depth-1, 0)
	return lazyApply(label, sym.Choose(label+".op", len(lazyOps)), s, m, bdepth)
}

func lazyRoot() (s lazy.Set, m M, what string) {
	s, m = lazyTree("s", sym.Param("depth")-1, 0)
	op := sym.Param("op") - 1
	if op < 0 {
		op = sym.Choose("op", len(lazyOps))
	}
	s, m = lazyApply("p", op, s, m, sym.Param("bdepth"))
	return s, m, lazyOps[op]
}

func lazyElems(s lazy.Set) []K {
	var r []K
	for i := s.Range(); i.Next(); {
		r = append(r, unLazy(i.Value()))
	}
	return r
}

// lazyProbe is another set to compare with.
func lazyProbe(m M) (lazy.Set, M) {
	if sym.Choose("empty probe", 2) == 1 {
		return lazy.EmptySet{}, M{}
	}
	ks := distinctKeys("t", sym.Param("probe"))
	return lazy.Frozen(frozenAny(ks)), mset(ks...)
}

// lazyObserve asserts that one arbitrary observation of s agrees with m.
func lazyObserve(s lazy.Set, m M, what string) {
	o := sym.Param("obs") - 1
	if o < 0 {
		o = sym.Choose("obs", 9)
	}
	lazyAnswer(o, s, m, what)
}

func lazyAnswer(o int, s lazy.Set, m M, what string) {
	switch o {
	case 0:
		q := key("q")
		sym.Assert(iff(s.Has(lazyEl(q)), m.has(q)), what+": Has")
	case 1:
		sym.Assert(iff(s.IsEmpty(), m.count() == 0), what+": IsEmpty")
	case 2:
		n := s.Count()
		sym.Assert(n == m.count(), what+": Count")
	case 3:
		limit := int(sym.Uint8("limit") & 7)
		n := s.CountUpTo(limit)
		sym.Assert(n == sym.IteInt(m.count() < limit, m.count(), limit), what+": CountUpTo")
	case 4:
		list(lazyElems(s), m, what+": Range")
	case 5:
		f := s.Freeze()
		list(lazyElems(f), m, what+": Freeze")
		n, ok := f.FastCount()
		sym.Assert(ok, what+": Freeze counts fast")
		sym.Assert(n == m.count(), what+": Freeze FastCount")
	case 6:
		t, n := lazyProbe(m)
		sym.Assert(iff(s.EqualSet(t), m.equal(n)), what+": EqualSet")
		sym.Assert(iff(t.EqualSet(s), m.equal(n)), what+": EqualSet, flipped")
		sym.Assert(iff(s.Equal(t), m.equal(n)), what+": Equal")
		sym.Assert(iff(t.Equal(s), m.equal(n)), what+": Equal, flipped")
		sym.Assert(sym.Not(s.Equal(1)), what+": Equal to another type")
	case 7:
		t, n := lazyProbe(m)
		sym.Assert(iff(s.IsSubsetOf(t), m.subset(n)), what+": IsSubsetOf")
		sym.Assert(iff(t.IsSubsetOf(s), n.subset(m)), what+": IsSubsetOf, flipped")
	case 8:
		// The expression as an operand of further ones.
		q := key("q")
		sym.Assert(iff(s.With(lazyEl(q)).Has(lazyEl(q)), true), what+": With then Has")
		sym.Assert(iff(s.Without(lazyEl(q)).Has(lazyEl(q)), false), what+": Without then Has")
		sym.Assert(iff(lazy.Frozen(frozenAny([]K{q})).Intersection(s).IsEmpty(), sym.Not(m.has(q))), what+": as right operand")
	}
	sym.Reach(what)
}

// LazyExpr: lazy expressions denote the set their eager counterparts do.
func LazyExpr() {
	s, m, what := lazyRoot()
	lazyObserve(s, m, what)
}

// fast asserts that fast answers are exact where offered.
func fast(s lazy.Set, m M, q K, limit int, what string) {
	if e, ok := s.FastIsEmpty(); ok {
		sym.Assert(iff(e, m.count() == 0), what+": FastIsEmpty")
	}
	if n, ok := s.FastCount(); ok {
		sym.Assert(n == m.count(), what+": FastCount")
	}
	if n, ok := s.FastCountUpTo(limit); ok {
		sym.Assert(n == sym.IteInt(m.count() < limit, m.count(), limit), what+": FastCountUpTo")
	}
	if h, ok := s.FastHas(lazyEl(q)); ok {
		sym.Assert(iff(h, m.has(q)), what+": FastHas")
	}
}

// LazyFast: fast answers agree with the exact ones, before and after the set
// is memoised.
func LazyFast() {
	s, m, what := lazyRoot()
	q, limit := key("q"), int(sym.Uint8("limit")&7)
	fast(s, m, q, limit, what)
	if sym.Param("memo") == 1 {
		lazyElems(s)
		fast(s, m, q, limit, what+", memoised")
	}
	sym.Reach(what)
}

// LazyHistory: traversals, complete or partial, repeated, interleaved and
// continued past the end, change nothing that s or sets derived from it answer.
func LazyHistory() {
	s, m, what := lazyRoot()
	// A set derived before the traversals.
	d, dm := lazyApply("d", sym.Choose("derived", 4), s, m, 0)
	var its []lazy.SetIterator
	past := make([]bool, 8)
	for i := 0; i < sym.Param("moves"); i++ {
		j := sym.Choose("iterator", len(its)+1)
		if j == len(its) {
			its = append(its, s.Range())
		}
		if !past[j] || sym.Param("past") == 1 {
			if its[j].Next() {
				sym.Assert(sym.Not(past[j]), what+": an exhausted traversal stays exhausted")
				sym.Assert(m.has(unLazy(its[j].Value())), what+": a traversal lists only members")
			} else {
				past[j] = true
			}
		}
	}
	if sym.Choose("which", 2) == 1 {
		s, m, what = d, dm, what+", derived"
	}
	lazyObserve(s, m, what)
}

// HashLazy: equal lazy sets have equal hashes.
func HashLazy() {
	s, m, what := lazyRoot()
	seed := seedArg()
	t, n := lazyProbe(m)
	sym.Assert(sym.Implies(m.equal(n), s.Hash(seed) == t.Hash(seed)), what+": equal lazy sets have equal hashes")
	if sym.Param("nested") == 1 {
		var g frozen.Set[any]
		g = g.With(t).With(1)
		sym.Assert(iff(g.Has(s), m.equal(n)), what+": a set of lazy sets has exactly those equal to its elements")
	}
	sym.Reach(what)
}

// LazyPowerset: the powerset has exactly the subsets of its source.
func LazyPowerset() {
	s, m, what := lazyRoot()
	if sym.Param("plain") == 1 {
		s, m = lazyLeaf("s")
		what = "leaf"
	}
	p := s.Powerset()
	n := m.count()
	what = "powerset of " + what
	// Sources known at once to be empty have assertions of their own.
	known := what
	if e, ok := s.FastIsEmpty(); ok && e {
		known = "powerset of an empty set"
	}
	limit := int(sym.Uint8("limit") & 15)
	upto := sym.IteInt(1<<uint(n) < limit, 1<<uint(n), limit)
	o := 9
	if sym.Param("fast") == 0 {
		o = sym.Choose("obs", 9)
	}
	switch o {
	case 0:
		t, tm := lazyProbe(m)
		sym.Assert(iff(p.Has(t), tm.subset(m)), what+": Has")
	case 1:
		sym.Assert(!p.IsEmpty(), what+": IsEmpty")
	case 2:
		sym.Assert(p.Count() == 1<<uint(n), what+": Count")
	case 3:
		sym.Assert(p.CountUpTo(limit) == upto, what+": CountUpTo")
	case 4:
		lazySubsets(p, s, m, what+": Range")
	case 5:
		lazySubsets(p.Freeze(), s, m, what+": Freeze")
	case 6:
		lazySubsets(p, s, m, what+": Range")
		t, tm := lazyProbe(m)
		sym.Assert(iff(p.Has(t), tm.subset(m)), what+": Has after traversal")
		sym.Assert(p.Count() == 1<<uint(n), what+": Count after traversal")
	case 7:
		t, tm := lazyProbe(m)
		f := lazy.Frozen(frozen.NewSet[any](t))
		sym.Assert(iff(f.IsSubsetOf(p), tm.subset(m)), what+": subset")
		sym.Assert(iff(f.Intersection(p).IsEmpty(), sym.Not(tm.subset(m))), known+": intersection")
	case 8:
		t, tm := lazyProbe(m)
		sym.Assert(p.Without(t).Count() == 1<<uint(n)-sym.B2I(tm.subset(m)), known+": Without")
		sym.Assert(p.With(t).Count() == 1<<uint(n)+1-sym.B2I(tm.subset(m)), known+": With")
		sym.Assert(p.Where(func(el any) bool { return !el.(lazy.Set).IsEmpty() }).Count() == 1<<uint(n)-1, what+": Where")
		sym.Assert(p.Map(func(el any) any { return el.(lazy.Set).Count() }).Count() == n+1, what+": Map")
	case 9:
		if e, ok := p.FastIsEmpty(); ok {
			sym.Assert(sym.Not(e), known+": FastIsEmpty")
		}
		if c, ok := p.FastCount(); ok {
			sym.Assert(c == 1<<uint(n), what+": FastCount")
		}
		if c, ok := p.FastCountUpTo(limit); ok {
			sym.Assert(c == upto, what+": FastCountUpTo")
		}
		t, tm := lazyProbe(m)
		if h, ok := p.FastHas(t); ok {
			sym.Assert(iff(h, tm.subset(m)), what+": FastHas")
		}
	}
	sym.Reach(what)
}

// lazySubsets asserts that p lists each subset of s once.
func lazySubsets(p, s lazy.Set, m M, what string) {
	var base []K
	for i := s.Range(); i.Next(); {
		base = append(base, unLazy(i.Value()))
	}
	list(base, m, what+": source")
	seen := make([]bool, 1<<uint(len(base)))
	n := 0
	for i := p.Range(); i.Next(); {
		sub := i.Value().(lazy.Set)
		mask, c := 0, 0
		for j, k := range base {
			if sub.Has(lazyEl(k)) {
				mask |= 1 << uint(j)
				c++
			}
		}
		sym.Assert(sub.Count() == c, what+": members are subsets")
		sym.Assert(!seen[mask], what+": each subset once")
		seen[mask] = true
		n++
	}
	sym.Assert(n == len(seen), what+": every subset")
}

// LazyBigPowerset: counts of powersets of sources of around 63 elements.
func LazyBigPowerset() {
	n := sym.Param("n")
	var ks []K
	for i := 0; i < n; i++ {
		ks = append(ks, K{uint64(i)})
	}
	p := lazy.Frozen(frozenAny(ks)).Powerset()
	limit := sym.Int("limit")
	sym.Assume(limit >= 0)
	c := 0
	if n < 63 {
		c = 1 << uint(n)
		sym.Assert(p.Count() == c, "big powerset: Count")
		d, ok := p.FastCount()
		sym.Assert(sym.Implies(ok, d == c), "big powerset: FastCount")
		if limit > c {
			limit = c
		}
	} else {
		sym.Assert(panics(func() { sym.Assert(p.Count() > 1<<62, "big powerset: Count is never wrong") }), "big powerset: Count of an unrepresentable number panics")
	}
	// No more than the limit is ever counted, so any limit has an answer.
	d, ok := p.FastCountUpTo(limit)
	sym.Assert(sym.Implies(ok, d == limit), "big powerset: FastCountUpTo")
	sym.Assert(p.CountUpTo(limit) == limit, "big powerset: CountUpTo")
	sym.Assert(!p.IsEmpty(), "big powerset: IsEmpty")
	sym.Reach("end")
}

// LazyConcurrent: two goroutines use one lazy set at a time.
func LazyConcurrent() {
	s, m, what := lazyRoot()
	q := key("q")
	jobs := []func() int{
		func() int { return len(lazyElems(s)) },
		func() int { return s.Count() },
		func() int { return sym.B2I(s.Has(lazyEl(q))) },
		func() int { return sym.B2I(s.IsEmpty()) },
		func() int { return len(lazyElems(s.Freeze())) },
		func() int { return sym.B2I(s.With(lazyEl(q)).Has(lazyEl(q))) },
		func() int { return s.Union(s).Count() },
		func() int { i := s.Range(); return sym.B2I(i.Next()) },
		func() int { n, _ := s.FastCountUpTo(100); return n },
	}
	want := []int{m.count(), m.count(), sym.B2I(m.has(q)), sym.B2I(m.count() == 0), m.count(), 1, m.count(), sym.B2I(m.count() != 0), -1}
	a := sym.Choose("job a", len(jobs))
	b := sym.Choose("job b", a+1)
	ra, rb := make(chan int, 1), make(chan int, 1)
	go func() { ra <- jobs[a]() }()
	go func() { rb <- jobs[b]() }()
	va, vb := <-ra, <-rb
	sym.Assert(sym.Or(want[a] < 0, va == want[a]), what+": concurrent result")
	sym.Assert(sym.Or(want[b] < 0, vb == want[b]), what+": concurrent result")
	list(lazyElems(s), m, what+": after concurrent use")
	sym.Assert(s.Count() == m.count(), what+": count after concurrent use")
	sym.Reach(what)
}

// LazyPartial: two traversals of a larger expression, stopped and resumed
// anywhere, list its members once each and change no later answer.
func LazyPartial() {
	n := sym.Param("n")
	ks := fixed(n)
	src := lazy.Frozen(frozenAny(ks))
	id := func(el any) int { return int(unLazy(el).ID) }
	// The members by number, and the number of a member.
	var s lazy.Set
	var total int
	var num func(el any) int
	what := ""
	kind := sym.Param("kind")
	if kind == 0 {
		kind = 1 + sym.Choose("kind", 5)
	}
	switch kind {
	case 1:
		what, s, total = "powerset", src.Powerset(), 1<<uint(n)
		num = func(el any) int {
			mask, c := 0, 0
			for i, k := range ks {
				if el.(lazy.Set).Has(lazyEl(k)) {
					mask |= 1 << uint(i)
					c++
				}
			}
			sym.Assert(el.(lazy.Set).Count() == c, "members of a powerset are subsets")
			return mask
		}
	case 2:
		what, s, total = "where", src.Where(func(el any) bool { return id(el) != 2 }), n
		if n >= 2 {
			total--
		}
		num = func(el any) int {
			if i := id(el); i > 2 {
				return i - 2
			}
			return id(el) - 1
		}
	case 3:
		what, s, total = "map", src.Map(func(el any) any { return lazyEl(K{uint64(id(el) / 2)}) }), n/2+1
		num = id
	case 4:
		ts := append(fixed(1+n/2), K{uint64(n + 1)})
		what, s, total = "union", src.Union(lazy.Frozen(frozenAny(ts))), n+1
		num = func(el any) int { return id(el) - 1 }
	case 5:
		ts := append(fixed(1), K{uint64(n + 1)})
		what, s, total = "symmetric difference", src.SymmetricDifference(lazy.Frozen(frozenAny(ts))), n
		num = func(el any) int { return id(el) - 2 }
	}
	d := s.Where(func(el any) bool { return num(el) != 0 })
	its := make([]lazy.SetIterator, 2)
	got := [2]int{}
	seen := [2][]bool{make([]bool, total), make([]bool, total)}
	step := func(j int, label string) {
		if its[j] == nil {
			its[j] = s.Range()
		}
		for c := upto(label, 0, total-got[j]+1); c > 0; c-- {
			if !its[j].Next() {
				sym.Assert(got[j] == total, what+": a traversal lists every member")
				break
			}
			i := num(its[j].Value())
			sym.Assert(i >= 0 && i < total && !seen[j][i], what+": a traversal lists each member once")
			seen[j][i] = true
			got[j]++
		}
	}
	step(0, "first")
	if sym.Param("two") == 1 {
		step(1, "second")
		step(0, "first again")
	}
	o := sym.Choose("obs", 4)
	x := s
	if o > 1 {
		x, total, what = d, total-1, what+", derived"
	}
	if o&1 == 0 {
		sym.Assert(x.Count() == total, what+": Count after traversals")
	}
	c := 0
	all := make([]bool, len(seen[0]))
	for i := x.Range(); i.Next(); {
		k := num(i.Value())
		sym.Assert(k >= 0 && k < len(all) && !all[k], what+": each member once")
		all[k] = true
		sym.Assert(x.Has(i.Value()), what+": Has")
		c++
	}
	sym.Assert(c == total, what+": every member")
	sym.Assert(x.Count() == total, what+": Count at the end")
	sym.Reach(what)
}
