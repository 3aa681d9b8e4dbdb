package h

import (
	"github.com/arr-ai/frozen/internal/pkg/iterator"
	"github.com/arr-ai/frozen/internal/pkg/masker"

	"github.com/arr-ai/frozen/internal/zzverif/sym"
)

func init() {
	Harnesses["InternalBits"] = InternalBits
	Harnesses["InternalMasker"] = InternalMasker
}

// InternalBits: the bit iterator the tree and the integer sets use.
func InternalBits() {
	v := sym.Uint64("v")
	b := iterator.BitIterator(v)
	i, j := pos("i"), pos("j")
	switch sym.Choose("what", 4) {
	case 0:
		sym.Assert(iff(b.Has(i), bitOf(v, i)), "Has is the bit")
		w := b.With(i)
		sym.Assert(w.Has(i), "With: the position is in")
		sym.Assert(sym.Implies(i != j, iff(w.Has(j), bitOf(v, j))), "With: other positions stay")
		wo := b.Without(i)
		sym.Assert(sym.Not(wo.Has(i)), "Without: the position is out")
		sym.Assert(sym.Implies(i != j, iff(wo.Has(j), bitOf(v, j))), "Without: other positions stay")
	case 1:
		sym.Assert(b.Count() == popCount(v), "Count is the number of positions")
	case 2:
		sym.Assume(v != 0)
		k := b.Index()
		sym.Assert(sym.And(0 <= k, k < 64), "Index is a position")
		sym.Assert(bitOf(v, k&63), "Index is in the set")
		sym.Assert(v&below(k&63) == 0, "Index is the lowest")
	case 3:
		sym.Assume(v != 0)
		k := b.Index()
		sym.Assert(iff(b.Next().Has(j), sym.And(bitOf(v, j), j != k)), "Next removes exactly the lowest position")
	}
	sym.Reach("end")
}

// InternalMasker: the 16-bit child mask of a branch.
func InternalMasker() {
	v, w := sym.Uint16("v"), sym.Uint16("w")
	m, n := masker.Masker(v), masker.Masker(w)
	j := pos("j") & 15
	has := func(x masker.Masker, j int) bool { return bitOf(uint64(x), j) }
	i := pos("i") & 15
	sym.Assert(iff(has(masker.NewMasker(i), j), i == j), "NewMasker is one position")
	sym.Assert(iff(m.SubsetOf(n), v&^w == 0), "SubsetOf")
	sym.Assume(v != 0)
	k := m.FirstIndex()
	sym.Assert(sym.And(0 <= k, k < 16), "FirstIndex is a position")
	sym.Assert(has(m, k&15), "FirstIndex is in the set")
	sym.Assert(uint64(v)&below(k&15) == 0, "FirstIndex is the lowest")
	sym.Assert(iff(has(m.First(), j), j == k), "First is the lowest position alone")
	sym.Assert(iff(has(m.Next(), j), sym.And(has(m, j), j != k)), "Next removes the lowest position")
	sym.Assert(iff(m.FirstIsIn(n), has(n, k&15)), "FirstIsIn")
	sym.Reach("end")
}
