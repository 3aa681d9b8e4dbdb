package h

import (
	"math"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/lazy"

	"github.com/arr-ai/frozen/internal/zzverif/sym"
)

func init() {
	Harnesses["SetKinds"] = SetKinds
	Harnesses["MapKinds"] = MapKinds
}

// A pool makes the values of a type to test with: mk(i) is a new value equal
// to any other mk(i) and to no mk(j); of tells which one a value is, or is
// negative for anything else.
type pool[T any] struct {
	n  int
	mk func(i int) T
	of func(v T) int
}

// plainPool has values of a type with Go's equality.
func plainPool[T any](vs ...T) pool[T] {
	return pool[T]{len(vs), func(i int) T { return vs[i] }, func(v T) int {
		for i, w := range vs {
			if any(v) == any(w) {
				return i
			}
		}
		return -1
	}}
}

type Pair struct {
	A string
	B int
}

type Named int

// Fold is a string that ignores case.
type Fold string

func (f Fold) lower() string {
	var b []byte
	for i := 0; i < len(f); i++ {
		c := f[i]
		if c >= 'A' && c <= 'Z' {
			c += 'a' - 'A'
		}
		b = append(b, c)
	}
	return string(b)
}

func (f Fold) Equal(g Fold) bool { return f.lower() == g.lower() }
func (f Fold) Hash(seed uintptr) uintptr {
	return uintptr(sym.Hash("Fold", uint64(f.lower()[0]), uint64(seed)))
}

// Odd is an interface type for elements.
type Odd interface{ Odd() bool }

func (n Named) Odd() bool { return n&1 == 1 }
func (p Pair) Odd() bool  { return p.B&1 == 1 }

func setPool() pool[frozen.Set[int]] {
	var flip bool
	mk := func(i int) frozen.Set[int] {
		flip = !flip
		switch {
		case i == 0 && flip:
			return frozen.NewSet(4).Without(4)
		case i == 0:
			return frozen.Set[int]{}
		case i == 1:
			return frozen.NewSet(1)
		case flip:
			return frozen.NewSet(i, 1, 7)
		default:
			return frozen.NewSet(7).With(1).With(i)
		}
	}
	return pool[frozen.Set[int]]{4, mk, func(s frozen.Set[int]) int {
		switch c := s.Count(); {
		case c < 2:
			return c
		case s.Has(2):
			return 2
		}
		return 3
	}}
}

// boxed is the pool as values of interface type.
func boxed[T any](p pool[T]) pool[any] {
	return pool[any]{p.n, func(i int) any { return p.mk(i) }, func(v any) int {
		t, is := v.(T)
		if !is {
			return -1
		}
		return p.of(t)
	}}
}

// mixed alternates between the values of two pools.
func mixed(p, q pool[any]) pool[any] {
	n := p.n
	if q.n < n {
		n = q.n
	}
	return pool[any]{2 * n, func(i int) any {
		if i&1 == 0 {
			return p.mk(i / 2)
		}
		return q.mk(i / 2)
	}, func(v any) int {
		if i := p.of(v); i >= 0 {
			return 2 * i
		}
		if i := q.of(v); i >= 0 {
			return 2*i + 1
		}
		return -1
	}}
}

func floatPool() pool[float64] {
	zero := 0.0
	return pool[float64]{4, func(i int) float64 {
		switch i {
		case 0:
			zero = -zero
			return zero
		case 1:
			return math.Inf(-1)
		case 2:
			return 0.5
		}
		return 1e300
	}, func(f float64) int {
		switch {
		case f == 0:
			return 0
		case f < 0:
			return 1
		case f < 1:
			return 2
		}
		return 3
	}}
}

func foldPool() pool[Fold] {
	up := false
	return pool[Fold]{4, func(i int) Fold {
		up = !up
		if up {
			return Fold(rune('A' + i))
		}
		return Fold(rune('a' + i))
	}, func(f Fold) int { return int(f.lower()[0] - 'a') }}
}

func lazyPool() pool[lazy.Set] {
	return pool[lazy.Set]{3, func(i int) lazy.Set {
		s := lazy.Frozen(frozen.NewSet[any](1, 2))
		switch i {
		case 0:
			return lazy.EmptySet{}
		case 1:
			return s.Where(func(el any) bool { return el == 1 })
		}
		return s.Map(func(el any) any { return el.(int) + 5 })
	}, func(s lazy.Set) int { return s.Count() }}
}

func kvPool() pool[frozen.KeyValue[string, int]] {
	// Pairs hash by their keys.
	return plainPool(frozen.KV("a", 1), frozen.KV("a", 2), frozen.KV("b", 1), frozen.KV("", 0))
}

func mapPool() pool[frozen.Map[string, int]] {
	mk := func(i int) frozen.Map[string, int] {
		m := frozen.NewMap(frozen.KV("x", i), frozen.KV("y", 2))
		if i == 0 {
			return m.Without("x").Without("y")
		}
		return m.With("z", 1)
	}
	return pool[frozen.Map[string, int]]{4, mk, func(m frozen.Map[string, int]) int { return m.GetElse("x", 0) }}
}

// kind is the type to test with: the one given, or any from all (-1), the
// simple ones (-2) or the others (-3).
func kind(simple, other []int) int {
	t := sym.Param("type")
	switch t {
	case -1:
		all := append(append([]int{}, simple...), other...)
		return all[sym.Choose("type", len(all))]
	case -2:
		return simple[sym.Choose("type", len(simple))]
	case -3:
		return other[sym.Choose("type", len(other))]
	}
	return t
}

// SetKinds: sets of elements of many types.
func SetKinds() {
	switch kind([]int{0, 1, 4, 5, 6, 7, 8, 10, 11, 12}, []int{2, 3, 9, 13}) {
	case 0:
		setKinds(plainPool[any](0, "", false, uint8(0)))
	case 1:
		setKinds(plainPool[any](1, int64(1), Pair{"", 1}, [2]int{1, 1}))
	case 2:
		setKinds(mixed(boxed(setPool()), boxed(lazyPool())))
	case 3:
		setKinds(mixed(boxed(mapPool()), boxed(kvPool())))
	case 4:
		setKinds(plainPool("", "a", "b", "ab"))
	case 5:
		setKinds(plainPool(0, 1, -1, 1<<40))
	case 6:
		setKinds(floatPool())
	case 7:
		setKinds(plainPool(Pair{}, Pair{"a", 1}, Pair{"a", 2}, Pair{"", 1}))
	case 8:
		setKinds(plainPool([2]int8{}, [2]int8{0, 1}, [2]int8{1, 0}))
	case 9:
		setKinds(setPool())
	case 10:
		setKinds(foldPool())
	case 11:
		setKinds(plainPool[Odd](Named(0), Named(1), Pair{}, Pair{"", 1}))
	case 12:
		setKinds(kvPool())
	case 13:
		setKinds(mapPool())
	}
}

// pick chooses a subset of the pool.
func (p pool[T]) pick(label string, n int) []bool {
	m := make([]bool, p.n)
	for i := 0; i < n; i++ {
		m[i] = sym.Choose(label, 2) == 1
	}
	return m
}

func (p pool[T]) set(route int, m []bool) (s frozen.Set[T]) {
	var vs []T
	for i, in := range m {
		if in {
			vs = append(vs, p.mk(i))
		}
	}
	if route == 1 {
		for i := range vs {
			s = s.With(vs[len(vs)-1-i])
		}
		return s
	}
	return frozen.NewSet(vs...)
}

func num(m []bool) int {
	n := 0
	for _, in := range m {
		n += sym.B2I(in)
	}
	return n
}

// is asserts that s is the subset of the pool.
func (p pool[T]) is(s frozen.Set[T], m []bool, what string) {
	seen := make([]bool, p.n)
	for i := s.Range(); i.Next(); {
		k := p.of(i.Value())
		sym.Assert(k >= 0 && k < p.n && m[k], what+": lists only members")
		sym.Assert(!seen[k], what+": lists each member once")
		seen[k] = true
	}
	sym.Assert(num(seen) == num(m), what+": lists every member")
	sym.Assert(s.Count() == num(m), what+": Count")
	for i := range m {
		sym.Assert(s.Has(p.mk(i)) == m[i], what+": Has")
	}
}

func setKinds[T any](p pool[T]) {
	n := p.n
	if c := sym.Param("n"); c < n {
		n = c
	}
	a := p.pick("a", n)
	s := p.set(sym.Param("route"), a)
	switch sym.Param("part") {
	case 0: // updates
		p.is(s, a, "set")
		i := sym.Choose("el", n)
		b := append([]bool{}, a...)
		if sym.Choose("op", 2) == 0 {
			b[i] = true
			p.is(s.With(p.mk(i)), b, "With")
		} else {
			b[i] = false
			p.is(s.Without(p.mk(i)), b, "Without")
		}
		p.is(s, a, "set after an update")
	case 1: // algebra
		b := p.pick("b", n)
		t := p.set(0, b)
		c := make([]bool, p.n)
		op := sym.Choose("op", 4)
		for i := range c {
			c[i] = []bool{a[i] || b[i], a[i] && b[i], a[i] && !b[i], a[i] != b[i]}[op]
		}
		switch op {
		case 0:
			p.is(s.Union(t), c, "Union")
		case 1:
			p.is(s.Intersection(t), c, "Intersection")
		case 2:
			p.is(s.Difference(t), c, "Difference")
		case 3:
			p.is(s.SymmetricDifference(t), c, "SymmetricDifference")
		}
	case 2: // equality
		b := p.pick("b", n)
		t := p.set(1-sym.Param("route"), b)
		eq, sub := true, true
		for i := range b {
			eq = eq && a[i] == b[i]
			sub = sub && (!a[i] || b[i])
		}
		sym.Assert(s.Equal(t) == eq, "Equal")
		sym.Assert(s.Same(t) == eq, "Same")
		sym.Assert(s.IsSubsetOf(t) == sub, "IsSubsetOf")
	case 5: // hashes
		b := p.pick("b", n)
		t := p.set(1-sym.Param("route"), b)
		eq := true
		for i := range b {
			eq = eq && a[i] == b[i]
		}
		sym.Assert(!eq || s.Hash(0) == t.Hash(0), "equal sets have equal hashes")
		sym.Assert(!eq || s.Hash(5) == t.Hash(5), "equal sets have equal hashes under another seed")
	case 3: // builders
		var b frozen.SetBuilder[T]
		for i := range a {
			if a[i] {
				b.Add(p.mk(i))
				b.Add(p.mk(i))
			}
		}
		i := sym.Choose("el", n)
		sym.Assert(b.Has(p.mk(i)) == a[i], "builder: Has")
		b.Remove(p.mk(i))
		sym.Assert(!b.Has(p.mk(i)), "builder: Has after Remove")
		c := append([]bool{}, a...)
		c[i] = false
		sym.Assert(b.Count() == num(c), "builder: Count")
		p.is(b.Finish(), c, "built set")
		p.is(b.Finish(), make([]bool, p.n), "set built of nothing")
	case 4: // derived
		f := p.pick("f", n)
		p.is(s.Where(func(v T) bool { return f[p.of(v)] }), andBits(a, f), "Where")
		ints := frozen.SetMap(s, func(v T) int { return p.of(v) / 2 })
		want := map[int]bool{}
		for i := range a {
			if a[i] {
				want[i/2] = true
			}
		}
		sym.Assert(ints.Count() == len(want), "SetMap: Count")
		for i := 0; i < p.n; i++ {
			sym.Assert(ints.Has(i) == want[i], "SetMap: Has")
		}
		back := frozen.SetMap(ints, func(i int) T { return p.mk(i) })
		sym.Assert(back.Count() == len(want), "SetMap back: Count")
		seen := 0
		for i, v := range s.Elements() {
			sym.Assert(a[p.of(v)], "Elements: only members")
			seen = i + 1
		}
		sym.Assert(seen == num(a), "Elements: every member")
		var v any = p.mk(0)
		if _, is := v.(Fold); !is { // whose values differ as values of another type
			any := s.AsSetAny()
			sym.Assert(any.Count() == num(a), "AsSetAny: Count")
			for i := range a {
				sym.Assert(any.Has(p.mk(i)) == a[i], "AsSetAny: Has")
			}
			p.is(frozen.SetAs[T](any), a, "SetAs")
		}
	}
	sym.Reach("end")
}

func andBits(a, b []bool) []bool {
	r := make([]bool, len(a))
	for i := range r {
		r[i] = a[i] && b[i]
	}
	return r
}

// MapKinds: maps between many types.
func MapKinds() {
	nils := plainPool[any](nil, 0, "", false)
	simple := []int{0, 1, 4, 6, 7, 8, 9}
	if sym.Param("part") == 5 { // hashing a map hashes its values, and nil has no hash
		simple = []int{4, 6, 7}
	}
	switch kind(simple, []int{2, 3, 5, 10}) {
	case 0:
		mapKinds(plainPool[any](0, "", false, uint8(0)), nils)
	case 1:
		mapKinds(plainPool("", "a", "b", "ab"), nils)
	case 2:
		mapKinds(plainPool(0, 1, -1, 1<<40), boxed(setPool()))
	case 3:
		mapKinds(mixed(boxed(setPool()), boxed(lazyPool())), plainPool(0, 1, 2))
	case 4:
		mapKinds(foldPool(), floatPool())
	case 5:
		mapKinds(setPool(), mapPool())
	case 6:
		mapKinds(plainPool(Pair{}, Pair{"a", 1}, Pair{"a", 2}, Pair{"", 1}), plainPool("", "a", "b"))
	case 7:
		mapKinds(plainPool[Odd](Named(0), Named(1), Pair{}, Pair{"", 1}), plainPool(false, true))
	case 8:
		mapKinds(kvPool(), plainPool[error](nil, errOdd("x"), errOdd("")))
	case 9:
		mapKinds(plainPool("", "a", "b", "ab"), plainPool[*int](nil, new(int), new(int)))
	case 10:
		mapKinds(plainPool(0, 1, -1, 1<<40), setPool())
	case 11:
		mapKinds(plainPool("", "a", "b", "ab"), slicePool())
	case 12:
		mapKinds(plainPool(0, 1, -1, 1<<40), boxed(slicePool()))
	}
}

// slicePool has values that Go cannot compare.
func slicePool() pool[[]int] {
	return pool[[]int]{3, func(i int) []int { return make([]int, i) }, func(s []int) int { return len(s) }}
}

type errOdd string

func (e errOdd) Error() string { return string(e) }

type mapPools[K, V any] struct {
	k pool[K]
	v pool[V]
}

// pick chooses a partial function from key numbers to value numbers; -1 is no binding.
func (p mapPools[K, V]) pick(label string, n int) []int {
	m := make([]int, p.k.n)
	for i := range m {
		m[i] = -1
		if i < n {
			m[i] = p.val(label)
		}
	}
	return m
}

func (p mapPools[K, V]) val(label string) int {
	vn := p.v.n
	if c := sym.Param("v"); c < vn {
		vn = c
	}
	return sym.Choose(label, vn+1) - 1
}

func (p mapPools[K, V]) mk(route int, m []int) (s frozen.Map[K, V]) {
	var kvs []frozen.KeyValue[K, V]
	for i, v := range m {
		if v >= 0 {
			kvs = append(kvs, frozen.KV(p.k.mk(i), p.v.mk(v)))
		}
	}
	if route == 1 {
		for i := range kvs {
			kv := kvs[len(kvs)-1-i]
			s = s.With(kv.Key, p.v.mk(0)).With(p.k.mk(p.k.of(kv.Key)), kv.Value)
		}
		return s
	}
	return frozen.NewMap(kvs...)
}

func bound(m []int) int {
	n := 0
	for _, v := range m {
		n += sym.B2I(v >= 0)
	}
	return n
}

func (p mapPools[K, V]) is(s frozen.Map[K, V], m []int, what string) {
	seen := make([]bool, p.k.n)
	for i := s.Range(); i.Next(); {
		k := p.k.of(i.Key())
		sym.Assert(k >= 0 && k < p.k.n && m[k] >= 0, what+": lists only bound keys")
		sym.Assert(!seen[k], what+": lists each key once")
		sym.Assert(p.v.of(i.Value()) == m[k], what+": lists the value bound")
		seen[k] = true
	}
	sym.Assert(num(seen) == bound(m), what+": lists every binding")
	sym.Assert(s.Count() == bound(m), what+": Count")
	for i := range m {
		k := p.k.mk(i)
		sym.Assert(s.Has(k) == (m[i] >= 0), what+": Has")
		v, ok := s.Get(k)
		sym.Assert(ok == (m[i] >= 0), what+": Get reports presence")
		if ok {
			sym.Assert(p.v.of(v) == m[i], what+": Get")
			sym.Assert(p.v.of(s.MustGet(k)) == m[i], what+": MustGet")
		}
		want := m[i]
		if want < 0 {
			want = p.v.n - 1
		}
		sym.Assert(p.v.of(s.GetElse(k, p.v.mk(p.v.n-1))) == want, what+": GetElse")
		sym.Assert(p.v.of(s.GetElseFunc(k, func() V { return p.v.mk(p.v.n - 1) })) == want, what+": GetElseFunc")
	}
}

func mapKinds[K, V any](kp pool[K], vp pool[V]) {
	p := mapPools[K, V]{kp, vp}
	n := kp.n
	if c := sym.Param("n"); c < n {
		n = c
	}
	a := p.pick("a", n)
	s := p.mk(sym.Param("route"), a)
	set := func(m []int, i, v int) []int {
		r := append([]int{}, m...)
		r[i] = v
		return r
	}
	switch sym.Param("part") {
	case 0: // updates
		p.is(s, a, "map")
		i := sym.Choose("key", n)
		if v := p.val("val"); v >= 0 {
			p.is(s.With(kp.mk(i), vp.mk(v)), set(a, i, v), "With")
		} else {
			p.is(s.Without(kp.mk(i)), set(a, i, -1), "Without")
		}
		p.is(s, a, "map after an update")
	case 1: // merge
		b := p.pick("b", n)
		t := p.mk(0, b)
		c := append([]int{}, a...)
		if sym.Choose("op", 2) == 0 {
			for i, v := range b {
				if v >= 0 {
					c[i] = v
				}
			}
			p.is(s.Update(t), c, "Update")
		} else {
			x := p.val("result")
			if x < 0 {
				x = 0
			}
			for i, v := range b {
				if v >= 0 {
					c[i] = v
					if a[i] >= 0 {
						c[i] = x
					}
				}
			}
			p.is(s.Merge(t, func(k K, v, w V) V {
				i := kp.of(k)
				sym.Assert(vp.of(v) == a[i] && vp.of(w) == b[i], "Merge resolves with both values")
				return vp.mk(x)
			}), c, "Merge")
		}
		p.is(s, a, "left operand")
		p.is(t, b, "right operand")
	case 2: // derived
		switch sym.Choose("what", 4) {
		case 0:
			var ks []K
			b := append([]int{}, a...)
			for i := range b {
				if sym.Choose("project", 2) == 0 {
					b[i] = -1
				} else {
					ks = append(ks, kp.mk(i))
				}
			}
			p.is(s.Project(ks...), b, "Project")
		case 1:
			v := p.val("where")
			b := append([]int{}, a...)
			for i := range b {
				if b[i] != v {
					b[i] = -1
				}
			}
			p.is(s.Where(func(k K, w V) bool {
				sym.Assert(vp.of(w) == a[kp.of(k)], "Where: predicate sees the binding")
				return vp.of(w) == v
			}), b, "Where")
		case 2:
			b := append([]int{}, a...)
			for i := range b {
				if b[i] >= 0 {
					b[i] = (b[i] + 1) % vp.n
				}
			}
			p.is(frozen.MapMap(s, func(_ K, w V) V { return vp.mk((vp.of(w) + 1) % vp.n) }), b, "MapMap")
			p.is(frozen.NewMapFromKeys(s.Keys(), func(k K) V { return vp.mk(b[kp.of(k)]) }), b, "NewMapFromKeys")
		case 3:
			in := make([]bool, kp.n)
			for i := range a {
				in[i] = a[i] >= 0
			}
			kp.is(s.Keys(), in, "Keys")
		}
	case 3: // equality
		b := p.pick("b", n)
		t := p.mk(1-sym.Param("route"), b)
		eq := true
		for i := range a {
			eq = eq && a[i] == b[i]
		}
		sym.Assert(s.Equal(t) == eq, "Equal")
		sym.Assert(s.Same(t) == eq, "Same")
	case 4: // builders
		var b frozen.MapBuilder[K, V]
		for i, v := range a {
			if v >= 0 {
				b.Put(kp.mk(i), vp.mk(vp.n-1-v))
				b.Put(kp.mk(i), vp.mk(v))
			}
		}
		i := sym.Choose("key", n)
		v, ok := b.Get(kp.mk(i))
		sym.Assert(ok == (a[i] >= 0) && b.Has(kp.mk(i)) == ok, "builder: Get reports presence")
		if ok {
			sym.Assert(vp.of(v) == a[i], "builder: Get")
		}
		b.Remove(kp.mk(i))
		c := set(a, i, -1)
		sym.Assert(b.Count() == bound(c) && !b.Has(kp.mk(i)), "builder: Remove")
		p.is(b.Finish(), c, "built map")
		p.is(b.Finish(), set(p.none(), 0, -1), "map built of nothing")
	case 5: // hashes
		b := p.pick("b", n)
		t := p.mk(1-sym.Param("route"), b)
		eq := true
		for i := range a {
			eq = eq && a[i] == b[i]
		}
		sym.Assert(!eq || s.Hash(0) == t.Hash(0), "equal maps have equal hashes")
		sym.Assert(!eq || s.Hash(5) == t.Hash(5), "equal maps have equal hashes under another seed")
	}
	sym.Reach("end")
}

func (p mapPools[K, V]) none() []int {
	m := make([]int, p.k.n)
	for i := range m {
		m[i] = -1
	}
	return m
}
