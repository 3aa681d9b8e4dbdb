package h

import (
	"github.com/arr-ai/frozen"

	"github.com/arr-ai/frozen/internal/zzverif/sym"
)

func init() {
	Harnesses["MapHistory"] = MapHistory
	Harnesses["MapMerge"] = MapMerge
	Harnesses["MapVersions"] = MapVersions
	Harnesses["MapDerived"] = MapDerived
	Harnesses["MapBuilderHistory"] = MapBuilderHistory
	Harnesses["MapEquality"] = MapEquality
}

// MM is the mathematical finite function: its true entries have different keys.
type MM []ment

type ment struct {
	k K
	v int
	p bool
}

func (m MM) get(q K) (v int, ok bool) {
	for _, e := range m {
		here := sym.And(e.p, e.k.ID == q.ID)
		v = sym.IteInt(here, e.v, v)
		ok = sym.Or(ok, here)
	}
	return v, ok
}

func (m MM) count() int {
	n := 0
	for _, e := range m {
		n += sym.B2I(e.p)
	}
	return n
}

func (m MM) keys() M {
	var r M
	for _, e := range m {
		r = append(r, ent{e.k, e.p})
	}
	return r
}

func (m MM) without(k K) MM {
	r := MM{}
	for _, e := range m {
		r = append(r, ment{e.k, e.v, sym.And(e.p, sym.Not(e.k.ID == k.ID))})
	}
	return r
}

func (m MM) with(k K, v int) MM { return append(m.without(k), ment{k, v, true}) }

// update binds n's entries over m's.
func (m MM) update(n MM) MM {
	r := MM{}
	for _, e := range m {
		_, o := n.get(e.k)
		r = append(r, ment{e.k, e.v, sym.And(e.p, sym.Not(o))})
	}
	return append(r, n...)
}

func (m MM) merge(n MM, f func(k K, a, b int) int) MM {
	r := MM{}
	for _, e := range m {
		w, o := n.get(e.k)
		r = append(r, ment{e.k, sym.IteInt(o, f(e.k, e.v, w), e.v), e.p})
	}
	for _, e := range n {
		_, o := m.get(e.k)
		r = append(r, ment{e.k, e.v, sym.And(e.p, sym.Not(o))})
	}
	return r
}

func (m MM) equal(n MM) bool {
	r := m.count() == n.count()
	for _, e := range m {
		w, o := n.get(e.k)
		r = sym.And(r, sym.Implies(e.p, sym.And(o, w == e.v)))
	}
	return r
}

func (m MM) where(f func(K, int) bool) MM {
	r := MM{}
	for _, e := range m {
		r = append(r, ment{e.k, e.v, sym.And(e.p, f(e.k, e.v))})
	}
	return r
}

func (m MM) mapv(f func(K, int) int) MM {
	r := MM{}
	for _, e := range m {
		r = append(r, ment{e.k, f(e.k, e.v), e.p})
	}
	return r
}

// sameMap asserts that s is exactly m, by traversal and count.
func sameMap(s frozen.Map[K, int], m MM, what string) {
	n := 0
	var ks []K
	for i := s.Range(); i.Next(); {
		k, v := i.Entry()
		w, ok := m.get(k)
		sym.Assert(ok, what+": binds only bound keys")
		sym.Assert(v == w, what+": binds the prescribed value")
		sym.Assert(i.Key().ID == k.ID, what+": Key agrees with Entry")
		sym.Assert(i.Value() == v, what+": Value agrees with Entry")
		for _, o := range ks {
			sym.Assert(sym.Not(o.ID == k.ID), what+": visits each binding once")
		}
		ks = append(ks, k)
		n++
	}
	sym.Assert(n == m.count(), what+": visits every binding")
	sym.Assert(s.Count() == m.count(), what+": Count")
	sym.Assert(iff(s.IsEmpty(), m.count() == 0), what+": IsEmpty")
	sym.Observe(what, uint64(s.Count()))
}

func val(label string) int { return int(sym.Uint8(label)) }

// pairs are n bindings with arbitrary keys and values.
func pairs(label string, n int) (kvs []frozen.KeyValue[K, int], m MM) {
	for i := 0; i < n; i++ {
		k, v := key(label), val(label+".v")
		kvs = append(kvs, frozen.KV(k, v))
		m = m.with(k, v)
	}
	return
}

// distinctPairs have pairwise different keys.
func distinctPairs(label string, n int) (kvs []frozen.KeyValue[K, int], m MM) {
	for _, k := range distinctKeys(label, n) {
		v := val(label + ".v")
		kvs = append(kvs, frozen.KV(k, v))
		m = append(m, ment{k, v, true})
	}
	return
}

func bulkPairs() (kvs []frozen.KeyValue[K, int], m MM) {
	for i, k := range bulk() {
		kvs = append(kvs, frozen.KV(k, 1000+i))
		m = append(m, ment{k, 1000 + i, true})
	}
	return
}

// MapHistory: any history denotes the finite function.
func MapHistory() {
	bk, m := bulkPairs()
	kvs := bk
	for i, n := 0, sym.Param("init"); i < n; i++ {
		k, v := key("init"), val("init.v")
		kvs = append(kvs, frozen.KV(k, v))
		m = m.with(k, v)
	}
	s := frozen.NewMap(kvs...)
	for i, n := 0, sym.Param("ops"); i < n; i++ {
		k := key("k")
		if sym.Choose("op", 2) == 0 {
			v := val("v")
			s, m = s.With(k, v), m.with(k, v)
		} else {
			s, m = s.Without(k), m.without(k)
		}
	}
	if sym.Param("list") == 1 {
		sameMap(s, m, "history")
	}
	q := key("q")
	w, ok := m.get(q)
	v, has := s.Get(q)
	sym.Assert(iff(has, ok), "Get reports presence")
	sym.Assert(v == w, "Get returns the binding")
	sym.Assert(iff(s.Has(q), ok), "Has")
	d := val("deflt")
	sym.Assert(s.GetElse(q, d) == sym.IteInt(ok, w, d), "GetElse")
	called := false
	e := s.GetElseFunc(q, func() int { called = true; return d })
	sym.Assert(e == sym.IteInt(ok, w, d), "GetElseFunc")
	sym.Assert(iff(called, sym.Not(ok)), "GetElseFunc calls its function only when absent")
	if has {
		sym.Assert(s.MustGet(q) == w, "MustGet")
		ak, av := s.Any()
		aw, aok := m.get(ak)
		sym.Assert(sym.And(aok, av == aw), "Any returns a binding")
	} else {
		sym.Assert(panics(func() { s.MustGet(q) }), "MustGet panics when absent")
	}
	sym.Assert(s.Count() == m.count(), "Count is the number of bound keys")
	sym.Assert(iff(s.IsEmpty(), m.count() == 0), "IsEmpty iff nothing is bound")
	sym.Observe("v", uint64(v))
	sym.Reach("end")
}

func buildMap(route int, kvs []frozen.KeyValue[K, int], m MM) (frozen.Map[K, int], MM) {
	switch route {
	case 1:
		var s frozen.Map[K, int]
		for _, kv := range kvs {
			s = s.With(kv.Key, kv.Value+1)
			s = s.With(kv.Key, kv.Value)
		}
		return s, m
	case 2:
		x := key("extra")
		s := frozen.NewMap(append([]frozen.KeyValue[K, int]{frozen.KV(x, 7)}, kvs...)...)
		return s.Without(x), m.without(x)
	case 3:
		h := len(kvs) / 2
		return frozen.NewMap(kvs[h:]...).Update(frozen.NewMap(kvs[:h]...)), m
	case 4: // filtered
		x := key("extra")
		s := frozen.NewMap(append([]frozen.KeyValue[K, int]{frozen.KV(x, 7)}, kvs...)...)
		return s.Where(func(k K, _ int) bool { return k.ID != x.ID }), m.without(x)
	case 5: // merged with itself, under other values first
		s := frozen.MapMap(frozen.NewMap(kvs...), func(_ K, v int) int { return v + 1 })
		return s.Merge(frozen.NewMap(kvs...), func(_ K, _, b int) int { return b }), m
	case 6: // projected
		x := key("extra")
		s := frozen.NewMap(append([]frozen.KeyValue[K, int]{frozen.KV(x, 7)}, kvs...)...)
		var ks []K
		for _, kv := range kvs {
			ks = append(ks, kv.Key)
		}
		return s.Project(append(ks, K{600})...), m
	}
	// The caller goes on to use its slice for something else.
	src := append([]frozen.KeyValue[K, int]{}, kvs...)
	s := frozen.NewMap(src...)
	for i := range src {
		src[i] = frozen.KV(K{^uint64(0)}, -1)
	}
	return s, m
}

func mapOperands() (a, b frozen.Map[K, int], ma, mb MM) {
	bk, bm := bulkPairs()
	half := len(bk) / 2
	lo, hi := half/2, half+half/2
	na, nb := sym.Param("a"), sym.Param("b")
	if sym.Param("upto") == 1 {
		na, nb = upto("na", 0, na), upto("nb", 0, nb)
	}
	ka, da := distinctPairs("a", na)
	kb, db := distinctPairs("b", nb)
	ma = append(MM{}, bm[:hi]...)
	for _, e := range da {
		ma = ma.with(e.k, e.v)
	}
	var bk2 []frozen.KeyValue[K, int]
	mb = MM{}
	for _, e := range bm[lo:] {
		bk2 = append(bk2, frozen.KV(e.k, e.v+5000))
		mb = append(mb, ment{e.k, e.v + 5000, true})
	}
	for _, e := range db {
		mb = mb.with(e.k, e.v)
	}
	a, ma = buildMap(sym.Param("routeA"), append(append([]frozen.KeyValue[K, int]{}, bk[:hi]...), ka...), ma)
	b, mb = buildMap(sym.Param("routeB"), append(bk2, kb...), mb)
	return
}

// MapMerge: Update and Merge resolve conflicts as specified.
func MapMerge() {
	a, b, ma, mb := mapOperands()
	var s frozen.Map[K, int]
	var m MM
	what := "Update"
	if sym.Choose("op", 2) == 0 {
		s, m = a.Update(b), ma.update(mb)
	} else {
		what = "Merge"
		// An arbitrary resolver.
		f := func(k K, x, y int) int { return int(sym.UF("resolve", k.ID, uint64(x), uint64(y))) }
		s, m = a.Merge(b, f), ma.merge(mb, f)
	}
	sameMap(s, m, what)
	if sym.Param("probe") == 1 {
		q := key("q")
		w, ok := m.get(q)
		v, has := s.Get(q)
		sym.Assert(iff(has, ok), what+": Get reports presence")
		sym.Assert(v == w, what+": Get")
		k, x := key("k"), val("v")
		sameMap(s.With(k, x), m.with(k, x), what+" then With")
		sameMap(s.Without(k), m.without(k), what+" then Without")
	}
	if sym.Param("operands") == 1 {
		sameMap(a, ma, "left operand")
		sameMap(b, mb, "right operand")
	}
	sym.Reach(what)
}

// MapVersions: every version of a family of derived maps keeps its contents.
func MapVersions() {
	bk, bm := bulkPairs()
	kvs, m0 := distinctPairs("init", sym.Param("init"))
	kvs = append(bk, kvs...)
	for _, e := range m0 {
		bm = bm.with(e.k, e.v)
	}
	s0, m0 := buildMap(sym.Param("routeA"), kvs, bm)
	ss, ms := []frozen.Map[K, int]{s0}, []MM{m0}
	its := []frozen.MapIterator[K, int]{s0.Range()}
	for i, n := 0, sym.Param("ops"); i < n; i++ {
		j := sym.Choose("ancestor", len(ss))
		a, m := ss[j], ms[j]
		switch sym.Choose("op", sym.Param("kinds")) {
		case 0:
			k, v := key("k"), val("v")
			a, m = a.With(k, v), m.with(k, v)
		case 1:
			k := key("k")
			a, m = a.Without(k), m.without(k)
		case 2:
			o := sym.Choose("other", len(ss))
			a, m = a.Update(ss[o]), m.update(ms[o])
		case 3:
			o := sym.Choose("other", len(ss))
			f := func(k K, x, y int) int { return x + 3*y }
			a, m = a.Merge(ss[o], f), m.merge(ms[o], f)
		case 4:
			k := key("k")
			a = a.Where(func(e K, _ int) bool { return e.ID != k.ID })
			m = m.without(k)
		case 5:
			a = frozen.MapMap(a, func(_ K, v int) int { return v + 1 })
			m = m.mapv(func(_ K, v int) int { return v + 1 })
		case 6:
			var b frozen.MapBuilder[K, int]
			for i := a.Range(); i.Next(); {
				b.Put(i.Key(), i.Value()+9)
			}
			b.Remove(key("k"))
			b.Finish()
			a.Keys().With(key("k2"))
			a.Hash(0)
			a.Project(key("k3"))
		case 7: // Go maps handed out or in belong to the caller
			k := key("k")
			g := frozen.MapToGoMap(a)
			a = frozen.NewMapFromGoMap(g)
			for e := range g {
				g[e] = -1
			}
			g[k] = -2
			h := frozen.MapToGoMap(a)
			for e := range h {
				delete(h, e)
			}
		case 8: // derived sets and maps, updated further
			k := key("k")
			ks := a.Keys()
			ks.Without(k)
			ks = ks.With(k)
			a.Values().With(-1)
			a = a.Project(ks.Elements()...)
			a.With(k, -1)
			a, m = a.Without(k), m.without(k)
		case 9: // read-only operations
			a.Equal(ss[0])
			a.Hash(1)
			a.Where(func(K, int) bool { return false })
			frozen.NewMapFromKeys(a.Keys(), func(K) int { return -1 })
			if !a.IsEmpty() {
				a.Any()
			}
		}
		ss, ms = append(ss, a), append(ms, m)
		its = append(its, a.Range())
	}
	for i := range ss {
		sameMap(ss[i], ms[i], "version")
		n := 0
		for its[i].Next() {
			w, ok := ms[i].get(its[i].Key())
			sym.Assert(sym.And(ok, w == its[i].Value()), "iterator opened earlier lists its map")
			n++
		}
		sym.Assert(n == ms[i].count(), "iterator opened earlier lists all of its map")
	}
	sym.Reach("end")
}

// MapDerived: operations derived from a map agree with its bindings.
func MapDerived() {
	bk, bm := bulkPairs()
	n := sym.Param("init")
	kvs, m0 := distinctPairs("init", n)
	for _, e := range m0 {
		bm = bm.with(e.k, e.v)
	}
	s, m := buildMap(sym.Param("routeA"), append(bk, kvs...), bm)
	only := sym.Param("what")
	c := only - 1
	if only == 0 {
		c = sym.Choose("what", 8)
	}
	switch c {
	case 0:
		same(s.Keys(), m.keys(), "Keys")
	case 1:
		vs := s.Values()
		cnt := 0
		var seen []int
		for i := vs.Range(); i.Next(); {
			v := i.Value()
			found := false
			for _, e := range m {
				found = sym.Or(found, sym.And(e.p, e.v == v))
			}
			sym.Assert(found, "Values: only bound values")
			for _, o := range seen {
				sym.Assert(sym.Not(o == v), "Values: each once")
			}
			seen = append(seen, v)
			cnt++
		}
		for _, e := range m {
			found := false
			for _, o := range seen {
				found = sym.Or(found, o == e.v)
			}
			sym.Assert(sym.Implies(e.p, found), "Values: every bound value")
		}
		sym.Assert(vs.Count() == cnt, "Values: Count")
	case 2:
		var ps []K
		for i, np := 0, sym.Param("proj"); i < np; i++ {
			ps = append(ps, key("p"))
		}
		pm := mset(ps...)
		sameMap(s.Project(ps...), m.where(func(k K, _ int) bool { return pm.has(k) }), "Project")
	case 3:
		pred := func(k K, v int) bool { return sym.UFBool("pred", k.ID, uint64(v)) }
		w := s.Where(func(k K, v int) bool {
			if pred(k, v) {
				return true
			}
			return false
		})
		sameMap(w, m.where(pred), "Where")
	case 4:
		f := func(k K, v int) int { return int(sym.UF("f", k.ID, uint64(v))) }
		sameMap(frozen.MapMap(s, f), m.mapv(f), "MapMap")
	case 5:
		g := frozen.MapToGoMap(s)
		sym.Assert(len(g) == m.count(), "MapToGoMap: size")
		for _, e := range m {
			if e.p {
				v, ok := g[e.k]
				sym.Assert(sym.And(ok, v == e.v), "MapToGoMap: binding")
			}
		}
		sameMap(frozen.NewMapFromGoMap(g), m, "NewMapFromGoMap")
	case 6:
		f := func(k K) int { return int(sym.UF("g", k.ID)) }
		sameMap(frozen.NewMapFromKeys(s.Keys(), f), m.mapv(func(k K, _ int) int { return f(k) }), "NewMapFromKeys")
	case 7:
		sameMap(s, m, "Range")
		it := s.Range()
		for it.Next() {
		}
		sym.Assert(!it.Next(), "Next stays false at the end")
	}
	sym.Reach("end")
}

// MapBuilderHistory: a builder denotes its history, and finishing resets it.
func MapBuilderHistory() {
	var b *frozen.MapBuilder[K, int]
	if sym.Param("cap") == 1 {
		b = frozen.NewMapBuilder[K, int](sym.Choose("cap", 3))
	} else {
		b = &frozen.MapBuilder[K, int]{}
	}
	m := MM{}
	var ss []frozen.Map[K, int]
	var ms []MM
	bk, bm := bulkPairs()
	for _, kv := range bk {
		b.Put(kv.Key, kv.Value)
	}
	m = append(m, bm...)
	for i, n := 0, sym.Param("init"); i < n; i++ {
		k, v := key("init"), val("init.v")
		b.Put(k, v)
		m = m.with(k, v)
	}
	kinds := 3
	if sym.Param("nofinish") == 1 {
		kinds = 2
	}
	for i, n := 0, sym.Param("ops"); i < n; i++ {
		switch sym.Choose("op", kinds) {
		case 0:
			k, v := key("k"), val("v")
			b.Put(k, v)
			m = m.with(k, v)
		case 1:
			k := key("k")
			b.Remove(k)
			m = m.without(k)
		case 2:
			ss, ms = append(ss, b.Finish()), append(ms, m)
			m = MM{}
		}
		sym.Assert(b.Count() == m.count(), "builder: Count")
	}
	q := key("q")
	w, ok := m.get(q)
	v, has := b.Get(q)
	sym.Assert(iff(has, ok), "builder: Get reports presence")
	sym.Assert(v == w, "builder: Get")
	sym.Assert(iff(b.Has(q), ok), "builder: Has")
	ss, ms = append(ss, b.Finish()), append(ms, m)
	sym.Assert(b.Count() == 0, "builder: empty after Finish")
	k := key("last")
	b.Put(k, 1)
	ss, ms = append(ss, b.Finish()), append(ms, MM{}.with(k, 1))
	for i := range ss {
		sameMap(ss[i], ms[i], "finished map")
	}
	sym.Reach("end")
}

// MapEquality: equality is extensional.
func MapEquality() {
	a, b, ma, mb := mapOperands()
	eq := ma.equal(mb)
	sym.Assert(iff(a.Equal(b), eq), "Equal iff same bindings")
	sym.Assert(iff(b.Equal(a), eq), "Equal is symmetric")
	sym.Assert(iff(a.Same(b), eq), "Same agrees with Equal")
	sym.Assert(sym.Not(a.Same(1)), "Same is false for another type")
	sym.Assert(sym.Not(a.Same(frozen.NewMap[K, bool]())), "Same is false for another value type")
	sym.Assert(a.Equal(a), "Equal is reflexive")
	sym.Observe("eq", uint64(sym.B2I(a.Equal(b))))
	sym.Reach("end")
}
