package main

import "math/bits"

// Sparse words: 64-bit values whose set bits can only be at a few, possibly
// symbolic, positions, such as 1<<i | 1<<j. Tests, counts and scans of such a
// word reduce to equalities between the positions.

const maxAtoms = 12

// atoms lists positions (6 bits wide) that include every set bit of t.
func (tt *TermTable) atoms(t *Term) ([]*Term, bool) {
	if t.w != 64 {
		return nil, false
	}
	switch t.op {
	case OpConst:
		if bits.OnesCount64(t.val) > 6 {
			return nil, false
		}
		var r []*Term
		for v := t.val; v != 0; v &= v - 1 {
			r = append(r, mkConst(6, uint64(bits.TrailingZeros64(v))))
		}
		return r, true
	case OpShl:
		if t.a.isConst() && t.a.val == 1 && t.b.umax < 64 {
			return []*Term{tt.Extract(t.b, 0, 6)}, true
		}
	case OpBOr, OpBXor:
		return tt.atoms2(t.a, t.b)
	case OpIte:
		return tt.atoms2(t.b, t.c)
	case OpBAnd:
		a, aok := tt.atoms(t.a)
		b, bok := tt.atoms(t.b)
		switch {
		case aok && (!bok || len(a) <= len(b)):
			return a, true
		case bok:
			return b, true
		}
	}
	return nil, false
}

func (tt *TermTable) atoms2(x, y *Term) ([]*Term, bool) {
	a, ok := tt.atoms(x)
	if !ok {
		return nil, false
	}
	b, ok := tt.atoms(y)
	if !ok {
		return nil, false
	}
	r := append([]*Term(nil), a...)
next:
	for _, s := range b {
		for _, o := range r {
			if sameTerm(s, o) {
				continue next
			}
		}
		r = append(r, s)
	}
	return r, len(r) <= maxAtoms
}

// sparse is atoms for words with some symbolic position.
func (tt *TermTable) sparse(t *Term) ([]*Term, bool) {
	if t.w != 64 || t.op == OpConst || t.op == OpVar {
		return nil, false
	}
	as, ok := tt.atoms(t)
	if !ok {
		return nil, false
	}
	for _, s := range as {
		if !s.isConst() {
			return as, true
		}
	}
	return nil, false
}

type bitKey struct {
	t, s *Term
	v    uint64
}

// bit is the truth value of bit s of t.
func (tt *TermTable) bit(t, s *Term) *Term {
	k := bitKey{t: t}
	k.s, k.v = keyArg(s)
	if r, ok := tt.bits[k]; ok {
		return r
	}
	var r *Term
	switch t.op {
	case OpConst:
		v, neg := t.val, false
		if bits.OnesCount64(v) > 32 {
			v, neg = ^v, true
		}
		r = tFalse
		for ; v != 0; v &= v - 1 {
			r = tt.Or(r, tt.Eq(s, mkConst(6, uint64(bits.TrailingZeros64(v)))))
		}
		if neg {
			r = tt.Not(r)
		}
	case OpShl:
		if t.a.isConst() && t.a.val == 1 && t.b.umax < 64 {
			r = tt.Eq(tt.Extract(t.b, 0, 6), s)
		}
	case OpBOr:
		r = tt.Or(tt.bit(t.a, s), tt.bit(t.b, s))
	case OpBAnd:
		r = tt.And(tt.bit(t.a, s), tt.bit(t.b, s))
	case OpBXor:
		r = tt.Not(tt.Eq(tt.bit(t.a, s), tt.bit(t.b, s)))
	case OpBNot:
		r = tt.Not(tt.bit(t.a, s))
	case OpIte:
		r = tt.Ite(t.a, tt.bit(t.b, s), tt.bit(t.c, s))
	}
	if r == nil {
		if s.isConst() {
			r = tt.Eq(tt.Extract(t, uint8(s.val), 1), mkConst(1, 1))
		} else {
			r = tt.Eq(tt.Extract(tt.Bin(OpLshr, t, tt.ZExt(s, 64)), 0, 1), mkConst(1, 1))
		}
	}
	if len(tt.bits) > 1<<16 {
		tt.bits = nil
	}
	if tt.bits == nil {
		tt.bits = map[bitKey]*Term{}
	}
	tt.bits[k] = r
	return r
}

// sparseEq decides equality position by position.
func (tt *TermTable) sparseEq(a, b *Term) *Term {
	as, aok := tt.sparse(a)
	bs, bok := tt.sparse(b)
	if !aok && !bok {
		return nil
	}
	if !aok {
		if as, aok = tt.atoms(a); !aok {
			return nil
		}
	}
	if !bok {
		if bs, bok = tt.atoms(b); !bok {
			return nil
		}
	}
	r := tTrue
	for _, s := range as {
		r = tt.And(r, tt.Or(tt.Not(tt.bit(a, s)), tt.bit(b, s)))
	}
	for _, s := range bs {
		r = tt.And(r, tt.Or(tt.Not(tt.bit(b, s)), tt.bit(a, s)))
	}
	return r
}

// sparseCount counts the set bits.
func (tt *TermTable) sparseCount(a *Term, w uint8) *Term {
	as, ok := tt.sparse(a)
	if !ok {
		return nil
	}
	r := mkConst(w, 0)
	for i, s := range as {
		c := tt.bit(a, s)
		for _, o := range as[:i] {
			c = tt.And(c, tt.Not(tt.Eq(o, s)))
		}
		r = tt.Bin(OpAdd, r, tt.Ite(c, mkConst(w, 1), mkConst(w, 0)))
	}
	return r
}

// sparseLowest is the lowest set position (arbitrary if none is set) and
// whether some bit is set.
func (tt *TermTable) sparseLowest(a *Term) (idx, any *Term) {
	as, ok := tt.sparse(a)
	if !ok {
		return nil, nil
	}
	idx, any = as[0], tt.bit(a, as[0])
	for _, s := range as[1:] {
		b := tt.bit(a, s)
		idx = tt.Ite(tt.And(b, tt.Or(tt.Not(any), tt.Cmp(OpUlt, s, idx))), s, idx)
		any = tt.Or(any, b)
	}
	return idx, any
}
