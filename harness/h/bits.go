package h

import (
	"github.com/arr-ai/frozen"

	"github.com/arr-ai/frozen/internal/zzverif/sym"
)

func init() {
	Harnesses["BitOps"] = BitOps
	Harnesses["BitWalk"] = BitWalk
	Harnesses["IotaRange"] = IotaRange
	Harnesses["MaskSet"] = MaskSet
	Harnesses["IotaEmpty"] = IotaEmpty
}

// pos is an arbitrary bit position.
func pos(label string) int { return int(sym.Uint8(label) & 63) }

func bitOf(v uint64, i int) bool { return v>>uint(i)&1 == 1 }

func popCount(v uint64) int {
	n := 0
	for i := 0; i < 64; i++ {
		n += int(v >> uint(i) & 1)
	}
	return n
}

// below is the mask of the positions lower than i.
func below(i int) uint64 { return uint64(1)<<uint(i) - 1 }

// BitOps: every operation acts on the set of one bits, for every value.
func BitOps() {
	v := sym.Uint64("v")
	b := frozen.BitIterator(v)
	i, j := pos("i"), pos("j")
	sym.Assert(iff(b.Has(i), bitOf(v, i)), "Has is the bit")
	w := b.With(i)
	sym.Assert(w.Has(i), "With: the position is in")
	sym.Assert(sym.Implies(i != j, iff(w.Has(j), bitOf(v, j))), "With: other positions stay")
	wo := b.Without(i)
	sym.Assert(sym.Not(wo.Has(i)), "Without: the position is out")
	sym.Assert(sym.Implies(i != j, iff(wo.Has(j), bitOf(v, j))), "Without: other positions stay")
	sym.Reach("end")
}

// BitWalk: one step of the walk, for every value; by induction the whole walk
// yields each position once in increasing order.
func BitWalk() {
	v := sym.Uint64("v")
	b := frozen.BitIterator(v)
	switch sym.Choose("what", 3) {
	case 0:
		sym.Assert(b.Count() == popCount(v), "Count is the number of positions")
	case 1:
		sym.Assume(v != 0)
		i := b.Index()
		sym.Assert(sym.And(0 <= i, i < 64), "Index is a position")
		sym.Assert(bitOf(v, i&63), "Index is in the set")
		sym.Assert(v&below(i&63) == 0, "Index is the lowest")
	case 2:
		sym.Assume(v != 0)
		i := b.Index()
		n := b.Next()
		j := pos("j")
		sym.Assert(iff(n.Has(j), sym.And(bitOf(v, j), j != i)), "Next removes exactly the lowest position")
	}
	sym.Reach("end")
}

type myRange int

// IotaRange: start, start+step, ... before stop, for all arguments whose range
// has at most n elements.
func IotaRange() {
	var start, stop, step int
	form := sym.Param("form")
	stop = sym.Int("stop")
	step = 1
	if form >= 1 {
		start = sym.Int("start")
	}
	if form >= 2 {
		step = sym.Int("step")
		if k := sym.Param("stepbits"); k != 0 {
			r := 1 << uint(k)
			sym.Assume(sym.And(-r < step, step < r))
		}
	}
	if step == 0 {
		sym.Assume(start == stop)
		sym.Assert(frozen.Iota3(start, stop, step).IsEmpty(), "Iota3 with no step and nothing to cover is empty")
		return
	}
	// at+step is beyond every representable stop if it wraps around.
	up := step > 0
	m := M{}
	at, more := start, sym.IteBool(up, start < stop, start > stop)
	for i, n := 0, sym.Param("n"); i < n; i++ {
		m = append(m, ent{K{uint64(at)}, more})
		next := at + step
		more = sym.And(more, sym.IteBool(up, sym.And(next > at, next < stop), sym.And(next < at, next > stop)))
		at = next
	}
	sym.Assume(sym.Not(more))
	var s frozen.Set[int]
	switch form {
	case 0:
		s = frozen.Iota(stop)
	case 1:
		s = frozen.Iota2(start, stop)
	case 2:
		s = frozen.Iota3(start, stop, step)
	case 3:
		for i := frozen.Iota3(myRange(start), myRange(stop), myRange(step)).Range(); i.Next(); {
			s = s.With(int(i.Value()))
		}
	}
	var els []K
	for i := s.Range(); i.Next(); {
		els = append(els, K{uint64(i.Value())})
	}
	list(els, m, "range")
	sym.Assert(s.Count() == m.count(), "range: Count")
	sym.Observe("count", uint64(s.Count()))
	sym.Reach("end")
}

// IotaEmpty: a range that starts at or beyond its stop is empty.
func IotaEmpty() {
	start, stop, step := sym.Int("start"), sym.Int("stop"), sym.Int("step")
	sym.Assume(sym.Or(sym.And(step > 0, start >= stop), sym.And(step < 0, start <= stop)))
	sym.Assert(frozen.Iota3(start, stop, step).IsEmpty(), "a range that is already past its stop is empty")
	if start >= stop {
		sym.Assert(frozen.Iota2(start, stop).IsEmpty(), "Iota2 past its stop is empty")
	}
	sym.Reach("end")
}

// MaskSet: exactly the one-bit positions of the mask.
func MaskSet() {
	var mask uint64
	if w := sym.Param("window"); w != 0 {
		// Every mask within a window of the given width.
		mask = sym.Uint64("mask")
		lo := uint(sym.Param("lo"))
		sym.Assume(mask>>lo<<lo == mask)
		if lo+uint(w) < 64 {
			sym.Assume(mask>>(lo+uint(w)) == 0)
		}
	}
	for i, n := 0, sym.Param("n"); i < n; i++ {
		mask |= 1 << uint(pos("pos"))
	}
	if n := sym.Param("dense"); n > 0 { // all but n positions
		for i := 0; i < n; i++ {
			mask |= 1 << uint(sym.Choose("zero", 65))
		}
		mask = ^mask
	}
	s := frozen.NewSetFromMask64(mask)
	q := sym.Int("q")
	in := sym.And(sym.And(q >= 0, q < 64), bitOf(mask, q&63))
	sym.Assert(iff(s.Has(q), in), "Has iff the bit is set")
	for i := s.Range(); i.Next(); {
		v := i.Value()
		sym.Assert(sym.And(sym.And(v >= 0, v < 64), bitOf(mask, v&63)), "only positions of one bits")
	}
	sym.Assert(s.Count() == frozen.BitIterator(mask).Count(), "Count is the number of one bits")
	sym.Observe("count", uint64(s.Count()))
	sym.Reach("end")
}
