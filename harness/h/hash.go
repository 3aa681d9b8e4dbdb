package h

import (
	"github.com/arr-ai/frozen"

	"github.com/arr-ai/frozen/internal/zzverif/sym"
)

func init() {
	Harnesses["HashSets"] = HashSets
	Harnesses["HashMaps"] = HashMaps
	Harnesses["HashNested"] = HashNested
	Harnesses["HashKV"] = HashKV
	Harnesses["HashIntSets"] = HashIntSets
}

func seedArg() uintptr {
	s := uintptr(sym.Uint64("seed"))
	if sym.Param("wide") == 1 {
		sym.Assume(s != 0)
	}
	return s
}

// HashSets: equal sets have equal hashes, however they were built.
func HashSets() {
	a, b, ma, mb := operands()
	seed := seedArg()
	ha, hb := a.Hash(seed), b.Hash(seed)
	sym.Assert(sym.Implies(ma.equal(mb), ha == hb), "sets with the same elements have the same hash")
	sym.Assert(sym.Implies(a.Equal(b), ha == hb), "equal sets have equal hashes")
	sym.Assert(ha == a.Hash(seed), "hash is reproducible")
	sym.Observe("count", uint64(a.Count()))
	sym.Reach("end")
}

// HashMaps: equal maps have equal hashes, however they were built.
func HashMaps() {
	a, b, ma, mb := mapOperands()
	seed := seedArg()
	ha, hb := a.Hash(seed), b.Hash(seed)
	sym.Assert(sym.Implies(ma.equal(mb), ha == hb), "maps with the same bindings have the same hash")
	sym.Assert(sym.Implies(a.Equal(b), ha == hb), "equal maps have equal hashes")
	sym.Assert(ha == a.Hash(seed), "hash is reproducible")
	sym.Observe("count", uint64(a.Count()))
	sym.Reach("end")
}

// HashNested: sets and maps serve as elements of sets and keys of maps.
func HashNested() {
	if sym.Param("maps") == 1 {
		nestedMaps()
		return
	}
	a, b, ma, mb := operands()
	eq := ma.equal(mb)
	f := a.With(K{1000})
	s := frozen.NewSet(a, f)
	sym.Assert(iff(s.Has(b), eq), "a set of sets has exactly the sets equal to its elements")
	sym.Assert(iff(s.With(b).Count() == 2, eq), "adding an equal set changes nothing")
	sym.Assert(iff(s.Without(b).Count() == 1, eq), "removing an equal set removes it")
	m := frozen.NewMap(frozen.KV(f, 1), frozen.KV(a, 2))
	v, ok := m.Get(b)
	sym.Assert(iff(ok, eq), "a map keyed by sets finds exactly equal keys")
	sym.Assert(sym.Implies(ok, v == 2), "a map keyed by sets finds their values")
	var g frozen.Set[any]
	g = g.With(a).With(f).With(1)
	sym.Assert(iff(g.Has(b), eq), "a set of anything has exactly the sets equal to its elements")
	sym.Reach("end")
}

func nestedMaps() {
	a, b, ma, mb := mapOperands()
	eq := ma.equal(mb)
	f := a.With(K{1000}, 0)
	s := frozen.NewSet(a, f)
	sym.Assert(iff(s.Has(b), eq), "a set of maps has exactly the maps equal to its elements")
	sym.Assert(iff(s.With(b).Count() == 2, eq), "adding an equal map changes nothing")
	m := frozen.NewMap(frozen.KV(f, 1), frozen.KV(a, 2))
	v, ok := m.Get(b)
	sym.Assert(iff(ok, eq), "a map keyed by maps finds exactly equal keys")
	sym.Assert(sym.Implies(ok, v == 2), "a map keyed by maps finds their values")
	var g frozen.Set[any]
	g = g.With(a).With(f).With(1)
	sym.Assert(iff(g.Has(b), eq), "a set of anything has exactly the maps equal to its elements")
	sym.Reach("end")
}

// HashKV: equal key-value pairs have equal hashes.
func HashKV() {
	k, l := key("k"), key("l")
	v, w := val("v"), val("w")
	seed := seedArg()
	a, b := frozen.KV(k, v), frozen.KV(l, w)
	eq := sym.And(k.ID == l.ID, v == w)
	sym.Assert(iff(a.Equal(b), eq), "pairs are equal iff key and value are")
	sym.Assert(iff(a.Same(b), eq), "Same agrees with Equal")
	sym.Assert(sym.Not(a.Same(k)), "Same is false for another type")
	sym.Assert(sym.Implies(eq, a.Hash(seed) == b.Hash(seed)), "equal pairs have equal hashes")

	// Pairs of sets, compared by content.
	sa, sb, ma, mb := operands()
	c, d := frozen.KV(sa, k), frozen.KV(sb, l)
	eq = sym.And(ma.equal(mb), k.ID == l.ID)
	sym.Assert(iff(c.Equal(d), eq), "pairs of sets are equal iff key and value are")
	sym.Assert(sym.Implies(eq, c.Hash(seed) == d.Hash(seed)), "equal pairs of sets have equal hashes")
	s := frozen.NewSet(c)
	sym.Assert(iff(s.Has(d), eq), "a set of pairs has exactly the equal pairs")
	sym.Reach("end")
}

// HashIntSets: equal integer sets have equal hashes.
func HashIntSets() {
	perType(hashInts[int], hashInts[int8], hashInts[uint8], hashInts[uint64], hashInts[myInt])
}

func hashInts[I integer]() {
	seed := uintptr(sym.Uint64("seed"))
	a, ma := intBuild("a", sym.Param("routeA"), intsIn[I]("a", sym.Param("a")))
	b, mb := intBuild("b", sym.Param("routeB"), intsIn[I]("b", sym.Param("b")))
	eq := ma.equal(mb)
	sym.Assert(sym.Implies(eq, a.Hash(seed) == b.Hash(seed)), "integer sets with the same elements have the same hash")
	sym.Assert(sym.Implies(a.Equal(b), a.Hash(seed) == b.Hash(seed)), "equal integer sets have equal hashes")
	s := frozen.NewSet(a)
	sym.Assert(iff(s.Has(b), eq), "a set of integer sets has exactly the equal ones")
	sym.Reach("end")
}
