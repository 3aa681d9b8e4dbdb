// Package h holds the harnesses: each function states one property over
// symbolic inputs, using only the public API of the packages under test.
package h

import (
	"github.com/arr-ai/frozen"

	"github.com/arr-ai/frozen/internal/zzverif/sym"
)

// Harnesses lists the entry points for native replay.
var Harnesses = map[string]func(){}

// K is an element whose hash is an arbitrary function of its identity, or, with
// the parameter spread, a fixed bijection that lays identities out over three
// levels of a tree (low three bits first).
type K struct{ ID uint64 }

func (k K) Hash(seed uintptr) uintptr {
	if sym.Param("spread") == 1 {
		x := k.ID&7<<61 | k.ID>>3&7<<58 | k.ID>>6&3<<56
		return uintptr(x) ^ seed*0x9E3779B97F4A7C15
	}
	if sym.Param("spread") == 2 {
		// Two branches at the first level, two at the twenty-first and at the last;
		// everything else collides.
		x := k.ID&1<<61 | k.ID>>1&1<<1 | k.ID>>2&1
		return uintptr(x) ^ seed*0x9E3779B97F4A7C15
	}
	if sym.Param("wide") == 1 {
		// Trees hash with seed zero and take their shape from the window; hashes
		// under any other seed are arbitrary 64-bit values.
		return uintptr(sym.Ite64(seed == 0, sym.Hash("K", k.ID, 0), sym.UF("wide", k.ID, uint64(seed))))
	}
	return uintptr(sym.Hash("K", k.ID, uint64(seed)))
}

func (k K) Equal(o K) bool { return k.ID == o.ID }

// key is an arbitrary element. Elements are only compared for equality, so 256
// identities are as good as any number (bounds are far below that).
// Next to a large fixed tree the parameters ids and idbase select ids identities
// (a power of two) from idbase on, and keep the number of cases down.
func key(label string) K {
	id := uint64(sym.Uint8(label))
	if n := sym.Param("ids"); n > 0 {
		id = id&uint64(n-1) + uint64(sym.Param("idbase"))
	}
	return K{id}
}

func keys(label string, n int) []K {
	r := make([]K, 0, n)
	for i := 0; i < n; i++ {
		r = append(r, key(label))
	}
	return r
}

// distinctKeys are arbitrary pairwise different elements, after the given number of
// fixed ones (spread evenly).
func distinctKeys(label string, n int) []K {
	r := keys(label, n)
	for i := range r {
		for j := range r[:i] {
			sym.Assume(r[i].ID != r[j].ID)
		}
	}
	return r
}

var _ frozen.Key[K] = K{}

// iff avoids forking on equality of two truth values.
func iff(a, b bool) bool { return sym.Iff(a, b) }

// M is the mathematical set: the keys of its entries whose flag holds. Keys of
// entries with true flags are pairwise different. No method forks.
type M []ent

type ent struct {
	k K
	p bool
}

func (m M) has(q K) bool {
	r := false
	for _, e := range m {
		r = sym.Or(r, sym.And(e.p, q.ID == e.k.ID))
	}
	return r
}

func (m M) count() int {
	n := 0
	for _, e := range m {
		n += sym.B2I(e.p)
	}
	return n
}

func (m M) with(k K) M {
	return append(append(M{}, m...), ent{k, sym.Not(m.has(k))})
}

func (m M) without(k K) M {
	r := M{}
	for _, e := range m {
		r = append(r, ent{e.k, sym.And(e.p, sym.Not(e.k.ID == k.ID))})
	}
	return r
}

func (m M) union(n M) M {
	r := append(M{}, m...)
	for _, e := range n {
		r = append(r, ent{e.k, sym.And(e.p, sym.Not(m.has(e.k)))})
	}
	return r
}

func (m M) where(f func(K) bool) M {
	r := M{}
	for _, e := range m {
		r = append(r, ent{e.k, sym.And(e.p, f(e.k))})
	}
	return r
}

func (m M) intersect(n M) M { return m.where(n.has) }
func (m M) minus(n M) M     { return m.where(func(k K) bool { return sym.Not(n.has(k)) }) }
func (m M) symdiff(n M) M   { return m.minus(n).union(n.minus(m)) }

func (m M) subset(n M) bool {
	r := true
	for _, e := range m {
		r = sym.And(r, sym.Implies(e.p, n.has(e.k)))
	}
	return r
}

func (m M) equal(n M) bool { return sym.And(m.subset(n), n.subset(m)) }

func mset(ks ...K) M {
	m := M{}
	for _, k := range ks {
		m = m.with(k)
	}
	return m
}

// list asserts that els lists exactly the members of m, each once.
func list(els []K, m M, what string) {
	sym.Assert(len(els) == m.count(), what+": number of elements")
	for i, e := range els {
		sym.Assert(m.has(e), what+": lists only members")
		for _, f := range els[:i] {
			sym.Assert(sym.Not(e.ID == f.ID), what+": lists each member once")
		}
	}
}

type ranger[T any] interface{ Range() frozen.Iterator[T] }

func elems(s frozen.Set[K]) []K {
	var r []K
	for i := s.Range(); i.Next(); {
		r = append(r, i.Value())
	}
	return r
}

// same asserts that s is exactly m, by traversal and count.
func same(s frozen.Set[K], m M, what string) {
	list(elems(s), m, what)
	sym.Assert(s.Count() == m.count(), what+": Count")
	sym.Assert(iff(s.IsEmpty(), m.count() == 0), what+": IsEmpty")
	sym.Observe(what, uint64(s.Count()))
}

// build makes a set of the keys by one of several routes, and its model.
func build(label string, route int, ks []K) (frozen.Set[K], M) {
	m := mset(ks...)
	var s frozen.Set[K]
	switch route {
	case 0: // the caller goes on to use its slice for something else
		src := append([]K{}, ks...)
		s = frozen.NewSet(src...)
		scribble(src, K{^uint64(0)})
	case 1:
		for _, k := range ks {
			s = s.With(k)
		}
	case 2: // with an extra element that is removed again
		x := key(label + ".extra")
		s = frozen.NewSet(append([]K{x}, ks...)...).Without(x)
		m = m.without(x)
	case 3:
		var b frozen.SetBuilder[K]
		x := key(label + ".extra")
		for _, k := range ks {
			b.Add(k)
		}
		b.Add(x)
		b.Remove(x)
		s = b.Finish()
		m = m.without(x)
	case 4: // union of halves
		h := len(ks) / 2
		s = frozen.NewSet(ks[h:]...).Union(frozen.NewSet(ks[:h]...))
	case 5: // what two larger sets have in common
		x, y := key(label+".extra"), K{600}
		s = frozen.NewSet(append([]K{x}, ks...)...).Intersection(frozen.NewSet(append([]K{y}, ks...)...))
	case 6: // a larger set less an element
		x := key(label + ".extra")
		s = frozen.NewSet(append([]K{x}, ks...)...).Difference(frozen.NewSet(x))
		m = m.without(x)
	case 7: // filtered
		x := key(label + ".extra")
		s = frozen.NewSet(append([]K{x}, ks...)...).Where(func(k K) bool { return k.ID != x.ID })
		m = m.without(x)
	case 8: // a larger set with an element flipped
		x := key(label + ".extra")
		s = frozen.NewSet(ks...).SymmetricDifference(frozen.NewSet(x))
		m = m.symdiff(mset(x))
	case 9: // mapped there and back
		in := frozen.SetMap(frozen.NewSet(ks...), func(k K) [1]K { return [1]K{k} })
		s = frozen.SetMap(in, func(k [1]K) K { return k[0] })
	}
	return s, m
}

// upto picks every length from lo to hi.
func upto(label string, lo, hi int) int { return lo + sym.Choose(label, hi-lo+1) }

// panics reports whether f panics.
func panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}
