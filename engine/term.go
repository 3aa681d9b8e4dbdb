package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Op enumerates term operators. Terms are bit-vectors of width 1..64, or
// booleans (width 0).
type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot // bool
	OpAnd // bool
	OpOr  // bool
	OpEq  // bool result; args any sort
	OpIte
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpShl
	OpLshr
	OpAshr
	OpConcat
	OpExtract // val = lo; w = hi-lo+1
	OpSExt
	OpUlt
	OpUle
	OpSlt
	OpSle
)

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpSDiv: "bvsdiv",
	OpURem: "bvurem", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor",
	OpBNot: "bvnot", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr", OpConcat: "concat",
	OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
}

// Term is an immutable, hash-consed (per worker) expression node. Constants are
// shared across workers and compared by value.
type Term struct {
	op      Op
	w       uint8
	a, b, c *Term
	val     uint64 // const value; extract lo; var index
	name    string // var label
	id      uint32
	sh      uint32 // structural hash, equal across workers
	umax    uint64 // upper bound of the unsigned value

	// Worker-local scratch.
	ev        uint64
	evEpoch   uint32
	factEpoch uint32
	eqEpoch   uint32
	factVal   bool
	eqVal     uint64
	kbEpoch   uint32 // bits of a variable fixed by the path condition
	kbMask    uint64
	kbVal     uint64
	emitted   uint32 // solver generation in which the definition was sent
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

var (
	tTrue  = &Term{op: OpConst, w: 0, val: 1, umax: 1}
	tFalse = &Term{op: OpConst, w: 0, val: 0}
)

const smallN = 2048

var smallConsts [65][]Term

func init() {
	for _, w := range []uint8{1, 2, 3, 8, 16, 32, 64} {
		n := smallN
		if w < 11 {
			n = 1 << w
		}
		ts := make([]Term, n)
		for i := range ts {
			ts[i] = Term{op: OpConst, w: w, val: uint64(i), umax: uint64(i)}
		}
		smallConsts[w] = ts
	}
}

func mkConst(w uint8, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return tTrue
		}
		return tFalse
	}
	v &= mask(w)
	if sc := smallConsts[w]; v < uint64(len(sc)) {
		return &sc[v]
	}
	return &Term{op: OpConst, w: w, val: v, umax: v}
}

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func (t *Term) isConst() bool { return t.op == OpConst }

func sameTerm(a, b *Term) bool {
	return a == b || a.op == OpConst && b.op == OpConst && a.w == b.w && a.val == b.val
}

type termKey struct {
	op         Op
	w          uint8
	a, b, c    *Term
	va, vb, vc uint64
	val        uint64
}

// TermTable hash-conses terms for one worker.
type TermTable struct {
	tab  map[termKey]*Term
	bits map[bitKey]*Term
	next uint32
}

func newTermTable() *TermTable {
	return &TermTable{tab: make(map[termKey]*Term, 1<<12), next: 1}
}

func keyArg(t *Term) (*Term, uint64) {
	if t == nil {
		return nil, 0
	}
	if t.op == OpConst {
		// Distinguish constants by width and value; widths are implied by op.
		return smallMarker[t.w], t.val
	}
	return t, 0
}

var smallMarker = func() (m [65]*Term) {
	for i := range m {
		m[i] = &Term{op: OpConst, w: uint8(i)}
	}
	return
}()

func (tt *TermTable) mk(op Op, w uint8, a, b, c *Term, val uint64) *Term {
	k := termKey{op: op, w: w, val: val}
	k.a, k.va = keyArg(a)
	k.b, k.vb = keyArg(b)
	k.c, k.vc = keyArg(c)
	if t, ok := tt.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, val: val, id: tt.next}
	tt.next++
	t.sh = (uint32(op)*31+uint32(w))*0x9e3779b1 ^ uint32(val)*0x85ebca6b ^ (a.shash()+3*b.shash()+5*c.shash())*0xc2b2ae35
	t.umax = umaxOf(t)
	tt.tab[k] = t
	return t
}

// later orders the operands of commutative operators by structure, so that
// every worker builds the same terms.
func later(a, b *Term) bool {
	if a.sh != b.sh {
		return a.sh > b.sh
	}
	return a.id > b.id
}

func (t *Term) shash() uint32 {
	if t == nil {
		return 0
	}
	if t.op == OpConst {
		return uint32(t.val)*0x27d4eb2f ^ uint32(t.w)
	}
	return t.sh*0x165667b1 + 1
}

// mkVar interns a variable by (index, width, label).
func (tt *TermTable) mkVar(w uint8, idx int, label string) *Term {
	k := termKey{op: OpVar, w: w, val: uint64(idx)}
	// Label participates through a chained probe.
	for n := uint64(0); ; n++ {
		k.va = n
		t, ok := tt.tab[k]
		if !ok {
			t = &Term{op: OpVar, w: w, val: uint64(idx), name: label, id: tt.next, umax: mask(w), sh: uint32(idx)*0x9e3779b1 + 7}
			tt.next++
			tt.tab[k] = t
			return t
		}
		if t.name == label {
			return t
		}
	}
}

func umaxOf(t *Term) uint64 {
	m := mask(t.w)
	switch t.op {
	case OpIte:
		return max(t.b.umax, t.c.umax)
	case OpConcat:
		return t.a.umax<<t.b.w | t.b.umax
	case OpExtract:
		if t.a.umax>>t.val <= m {
			return t.a.umax >> t.val
		}
		return m
	case OpBAnd:
		return min(t.a.umax, t.b.umax)
	case OpBOr, OpBXor:
		n := bits.Len64(t.a.umax | t.b.umax)
		if n >= 64 {
			return m
		}
		return 1<<n - 1
	case OpURem:
		if t.b.isConst() && t.b.val != 0 {
			return min(t.a.umax, t.b.val-1)
		}
		return t.a.umax
	case OpUDiv:
		if t.b.isConst() && t.b.val != 0 {
			return t.a.umax / t.b.val
		}
		return m
	case OpAdd:
		s, c := bits.Add64(t.a.umax, t.b.umax, 0)
		if c == 0 && s <= m {
			return s
		}
		return m
	case OpLshr:
		return t.a.umax
	}
	return m
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func foldBin(op Op, w uint8, x, y uint64) uint64 {
	switch op {
	case OpAdd:
		return x + y
	case OpSub:
		return x - y
	case OpMul:
		return x * y
	case OpUDiv:
		if y == 0 {
			return mask(w)
		}
		return x / y
	case OpURem:
		if y == 0 {
			return x
		}
		return x % y
	case OpSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return mask(w)
		}
		if sy == -1 {
			return uint64(-sx)
		}
		return uint64(sx / sy)
	case OpSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx % sy)
	case OpBAnd:
		return x & y
	case OpBOr:
		return x | y
	case OpBXor:
		return x ^ y
	case OpShl:
		if y >= uint64(w) {
			return 0
		}
		return x << y
	case OpLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OpAshr:
		if y >= uint64(w) {
			y = 63
		}
		return uint64(sext(x, w) >> y)
	}
	panic("foldBin")
}

func foldCmp(op Op, w uint8, x, y uint64) bool {
	switch op {
	case OpUlt:
		return x < y
	case OpUle:
		return x <= y
	case OpSlt:
		return sext(x, w) < sext(y, w)
	case OpSle:
		return sext(x, w) <= sext(y, w)
	}
	panic("foldCmp")
}

func (tt *TermTable) Not(a *Term) *Term {
	if a.isConst() {
		return mkBool(a.val == 0)
	}
	if a.op == OpNot {
		return a.a
	}
	return tt.mk(OpNot, 0, a, nil, nil, 0)
}

func (tt *TermTable) And(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 0 {
			return tFalse
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return tFalse
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == OpNot && a.a == b || b.op == OpNot && b.a == a {
		return tFalse
	}
	if later(a, b) {
		a, b = b, a
	}
	return tt.mk(OpAnd, 0, a, b, nil, 0)
}

func (tt *TermTable) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.val != 0 {
			return tTrue
		}
		return b
	}
	if b.isConst() {
		if b.val != 0 {
			return tTrue
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == OpNot && a.a == b || b.op == OpNot && b.a == a {
		return tTrue
	}
	if later(a, b) {
		a, b = b, a
	}
	return tt.mk(OpOr, 0, a, b, nil, 0)
}

func (tt *TermTable) Eq(a, b *Term) *Term {
	if sameTerm(a, b) {
		return tTrue
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() {
		if b.isConst() {
			return tFalse
		}
		a, b = b, a
	}
	if b.isConst() {
		if a.w == 0 {
			if b.val != 0 {
				return a
			}
			return tt.Not(a)
		}
		if b.val > a.umax {
			return tFalse
		}
		switch a.op {
		case OpConcat:
			lo := a.b.w
			return tt.And(tt.Eq(a.a, mkConst(a.a.w, b.val>>lo)), tt.Eq(a.b, mkConst(lo, b.val)))
		case OpIte:
			if a.b.isConst() && a.c.isConst() {
				p, q := a.b.val == b.val, a.c.val == b.val
				switch {
				case p && q:
					return tTrue
				case p:
					return a.a
				case q:
					return tt.Not(a.a)
				default:
					return tFalse
				}
			}
			if a.b.isConst() && a.b.val != b.val {
				return tt.And(tt.Not(a.a), tt.Eq(a.c, b))
			}
			if a.c.isConst() && a.c.val != b.val {
				return tt.And(a.a, tt.Eq(a.b, b))
			}
		case OpAdd:
			if a.b.isConst() {
				return tt.Eq(a.a, mkConst(a.w, b.val-a.b.val))
			}
		case OpBXor:
			if a.b.isConst() {
				return tt.Eq(a.a, mkConst(a.w, b.val^a.b.val))
			}
		case OpSExt:
			tr := mkConst(a.a.w, b.val)
			if uint64(sext(tr.val, a.a.w))&mask(a.w) != b.val {
				return tFalse
			}
			return tt.Eq(a.a, tr)
		}
		if a.w == 64 {
			if r := tt.sparseEq(a, b); r != nil {
				return r
			}
		}
		return tt.mk(OpEq, 0, a, b, nil, 0)
	}
	if a.op == OpConcat && b.op == OpConcat && a.b.w == b.b.w {
		return tt.And(tt.Eq(a.a, b.a), tt.Eq(a.b, b.b))
	}
	if a.op == OpSExt && b.op == OpSExt && a.a.w == b.a.w {
		return tt.Eq(a.a, b.a)
	}
	if a.w == 64 {
		if r := tt.sparseEq(a, b); r != nil {
			return r
		}
	}
	if later(a, b) {
		a, b = b, a
	}
	return tt.mk(OpEq, 0, a, b, nil, 0)
}

func (tt *TermTable) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.val != 0 {
			return a
		}
		return b
	}
	if sameTerm(a, b) {
		return a
	}
	if a.w == 0 {
		if a.isConst() && b.isConst() {
			if a.val != 0 {
				return c
			}
			return tt.Not(c)
		}
		if a.isConst() {
			if a.val != 0 {
				return tt.Or(c, b)
			}
			return tt.And(tt.Not(c), b)
		}
		if b.isConst() {
			if b.val != 0 {
				return tt.Or(tt.Not(c), a)
			}
			return tt.And(c, a)
		}
	}
	if c.op == OpNot {
		return tt.Ite(c.a, b, a)
	}
	return tt.mk(OpIte, a.w, c, a, b, 0)
}

func (tt *TermTable) Concat(a, b *Term) *Term {
	w := a.w + b.w
	if a.isConst() && b.isConst() {
		return mkConst(w, a.val<<b.w|b.val)
	}
	// Adjacent extracts.
	if a.op == OpExtract && b.op == OpExtract && a.a == b.a && a.val == b.val+uint64(b.w) {
		return tt.Extract(b.a, uint8(b.val), w)
	}
	// Right-associate: concat(concat(x,y),z) -> concat(x, concat(y,z)).
	if a.op == OpConcat {
		return tt.Concat(a.a, tt.Concat(a.b, b))
	}
	if b.op == OpConcat {
		if a.isConst() && b.a.isConst() {
			return tt.Concat(mkConst(a.w+b.a.w, a.val<<b.a.w|b.a.val), b.b)
		}
		if a.op == OpExtract && b.a.op == OpExtract && a.a == b.a.a && a.val == b.a.val+uint64(b.a.w) {
			return tt.Concat(tt.Extract(a.a, uint8(b.a.val), a.w+b.a.w), b.b)
		}
	}
	return tt.mk(OpConcat, w, a, b, nil, 0)
}

// Extract takes w bits of a starting at lo.
func (tt *TermTable) Extract(a *Term, lo uint8, w uint8) *Term {
	if w == a.w {
		return a
	}
	if w > a.w || lo+w > a.w {
		panic("extract out of range")
	}
	switch a.op {
	case OpConst:
		return mkConst(w, a.val>>lo)
	case OpExtract:
		return tt.Extract(a.a, uint8(a.val)+lo, w)
	case OpConcat:
		bw := a.b.w
		if lo >= bw {
			return tt.Extract(a.a, lo-bw, w)
		}
		if lo+w <= bw {
			return tt.Extract(a.b, lo, w)
		}
		return tt.Concat(tt.Extract(a.a, 0, lo+w-bw), tt.Extract(a.b, lo, bw-lo))
	case OpSExt:
		if lo+w <= a.a.w {
			return tt.Extract(a.a, lo, w)
		}
	case OpBAnd, OpBOr, OpBXor:
		return tt.Bin(a.op, tt.Extract(a.a, lo, w), tt.Extract(a.b, lo, w))
	case OpBNot:
		return tt.BNot(tt.Extract(a.a, lo, w))
	case OpIte:
		if a.b.isConst() || a.c.isConst() {
			return tt.Ite(a.a, tt.Extract(a.b, lo, w), tt.Extract(a.c, lo, w))
		}
	case OpAdd, OpSub, OpMul:
		if lo == 0 {
			return tt.Bin(a.op, tt.Extract(a.a, 0, w), tt.Extract(a.b, 0, w))
		}
	}
	if lo < 64 && a.umax>>lo == 0 {
		return mkConst(w, 0)
	}
	return tt.mk(OpExtract, w, a, nil, nil, uint64(lo))
}

func (tt *TermTable) ZExt(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	return tt.Concat(mkConst(w-a.w, 0), a)
}

func (tt *TermTable) SExt(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.isConst() {
		return mkConst(w, uint64(sext(a.val, a.w)))
	}
	if a.op == OpConcat && a.a.isConst() && a.a.val>>(a.a.w-1) == 0 {
		return tt.ZExt(a, w)
	}
	if a.op == OpSExt {
		return tt.SExt(a.a, w)
	}
	return tt.mk(OpSExt, w, a, nil, nil, 0)
}

func (tt *TermTable) BNot(a *Term) *Term {
	if a.isConst() {
		return mkConst(a.w, ^a.val)
	}
	if a.op == OpBNot {
		return a.a
	}
	return tt.mk(OpBNot, a.w, a, nil, nil, 0)
}

// maskPieces rewrites x <op> const mask as a concat of pieces when the mask has
// few runs.
func (tt *TermTable) maskPieces(op Op, x *Term, m uint64) *Term {
	w := x.w
	type run struct {
		lo, n uint8
		one   bool
	}
	var runs []run
	for i := uint8(0); i < w; {
		one := m>>i&1 == 1
		j := i
		for j < w && (m>>j&1 == 1) == one {
			j++
		}
		runs = append(runs, run{i, j - i, one})
		i = j
		if len(runs) > 8 {
			return nil
		}
	}
	var r *Term
	for _, rn := range runs {
		var p *Term
		if op == OpBAnd {
			if rn.one {
				p = tt.Extract(x, rn.lo, rn.n)
			} else {
				p = mkConst(rn.n, 0)
			}
		} else { // OpBOr
			if rn.one {
				p = mkConst(rn.n, ^uint64(0))
			} else {
				p = tt.Extract(x, rn.lo, rn.n)
			}
		}
		if r == nil {
			r = p
		} else {
			r = tt.Concat(p, r)
		}
	}
	return r
}

func commutative(op Op) bool {
	switch op {
	case OpAdd, OpMul, OpBAnd, OpBOr, OpBXor:
		return true
	}
	return false
}

func (tt *TermTable) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %s width mismatch %d %d", opNames[op], a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return mkConst(w, foldBin(op, w, a.val, b.val))
	}
	if commutative(op) && (a.isConst() || !b.isConst() && later(a, b)) {
		a, b = b, a
	}
	if b.isConst() {
		v := b.val
		switch op {
		case OpAdd, OpSub, OpBOr, OpBXor, OpShl, OpLshr, OpAshr:
			if v == 0 {
				return a
			}
		}
		switch op {
		case OpSub:
			return tt.Bin(OpAdd, a, mkConst(w, -v))
		case OpAdd:
			if a.op == OpAdd && a.b.isConst() {
				return tt.Bin(OpAdd, a.a, mkConst(w, a.b.val+v))
			}
		case OpBXor:
			if a.op == OpBXor && a.b.isConst() {
				return tt.Bin(OpBXor, a.a, mkConst(w, a.b.val^v))
			}
			if v == mask(w) {
				return tt.BNot(a)
			}
			if a.op == OpConcat {
				lo := a.b.w
				return tt.Concat(tt.Bin(OpBXor, a.a, mkConst(a.a.w, v>>lo)), tt.Bin(OpBXor, a.b, mkConst(lo, v)))
			}
		case OpBAnd:
			if v == 0 {
				return b
			}
			if v == mask(w) {
				return a
			}
			if r := tt.maskPieces(op, a, v); r != nil {
				return r
			}
		case OpBOr:
			if v == mask(w) {
				return b
			}
			if r := tt.maskPieces(op, a, v); r != nil {
				return r
			}
		case OpMul:
			if v == 0 {
				return b
			}
			if v == 1 {
				return a
			}
			if v&(v-1) == 0 {
				return tt.Bin(OpShl, a, mkConst(w, uint64(bits.TrailingZeros64(v))))
			}
		case OpShl:
			if v >= uint64(w) {
				return mkConst(w, 0)
			}
			s := uint8(v)
			return tt.Concat(tt.Extract(a, 0, w-s), mkConst(s, 0))
		case OpLshr:
			if v >= uint64(w) {
				return mkConst(w, 0)
			}
			s := uint8(v)
			return tt.ZExt(tt.Extract(a, s, w-s), w)
		case OpAshr:
			if v >= uint64(w) {
				v = uint64(w - 1)
			}
			s := uint8(v)
			return tt.SExt(tt.Extract(a, s, w-s), w)
		case OpUDiv:
			if v != 0 && v&(v-1) == 0 {
				return tt.Bin(OpLshr, a, mkConst(w, uint64(bits.TrailingZeros64(v))))
			}
		case OpURem:
			if v != 0 && v&(v-1) == 0 {
				return tt.Bin(OpBAnd, a, mkConst(w, v-1))
			}
		case OpSRem:
			if v != 0 && v&(v-1) == 0 && v < mask(w)>>1 {
				low := tt.Bin(OpBAnd, a, mkConst(w, v-1))
				neg := tt.And(tt.Eq(tt.Extract(a, w-1, 1), mkConst(1, 1)), tt.Not(tt.Eq(low, mkConst(w, 0))))
				return tt.Ite(neg, tt.Bin(OpBOr, low, mkConst(w, ^(v-1))), low)
			}
		case OpSDiv:
			if v != 0 && v&(v-1) == 0 && v < mask(w)>>1 {
				bias := tt.Ite(tt.Eq(tt.Extract(a, w-1, 1), mkConst(1, 1)), mkConst(w, v-1), mkConst(w, 0))
				return tt.Bin(OpAshr, tt.Bin(OpAdd, a, bias), mkConst(w, uint64(bits.TrailingZeros64(v))))
			}
		}
	}
	if sameTerm(a, b) {
		switch op {
		case OpSub, OpBXor:
			return mkConst(w, 0)
		case OpBAnd, OpBOr:
			return a
		}
	}
	if (op == OpBXor || op == OpBOr || op == OpBAnd) && a.op == OpConcat && b.op == OpConcat {
		// Split at a's boundary; extraction distributes.
		lo := a.b.w
		return tt.Concat(tt.Bin(op, a.a, tt.Extract(b, lo, w-lo)), tt.Bin(op, a.b, tt.Extract(b, 0, lo)))
	}
	if op == OpAdd {
		if r := tt.disjointAdd(a, b); r != nil {
			return r
		}
		if r := tt.disjointAdd(b, a); r != nil {
			return r
		}
	}
	if op == OpBAnd && w == 64 {
		x, y := a, b
		if x.op == OpAdd && x.b.isConst() {
			x, y = y, x
		}
		// x & (x-1) clears the lowest set bit.
		if y.op == OpAdd && y.a == x && y.b.isConst() && y.b.val == mask(64) {
			if idx, _ := tt.sparseLowest(x); idx != nil {
				return tt.Bin(OpBAnd, x, tt.BNot(tt.Bin(OpShl, mkConst(64, 1), tt.ZExt(idx, 64))))
			}
		}
	}
	if a.isConst() && a.val == 0 {
		switch op {
		case OpShl, OpLshr, OpAshr:
			return a
		}
	}
	return tt.mk(op, w, a, b, nil, 0)
}

// disjointAdd joins a value with zero low bits and one that fits in them.
func (tt *TermTable) disjointAdd(a, b *Term) *Term {
	lo := a
	k := uint8(0)
	for lo.op == OpConcat {
		lo = lo.b
	}
	if a.op != OpConcat || !lo.isConst() || lo.val != 0 {
		return nil
	}
	k = lo.w
	if b.umax > mask(k) {
		return nil
	}
	return tt.Concat(tt.Extract(a, k, a.w-k), tt.Extract(b, 0, k))
}

func (tt *TermTable) Cmp(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic("Cmp width mismatch")
	}
	if a.isConst() && b.isConst() {
		return mkBool(foldCmp(op, a.w, a.val, b.val))
	}
	if sameTerm(a, b) {
		return mkBool(op == OpUle || op == OpSle)
	}
	sm := mask(a.w) >> 1
	switch op {
	case OpSlt, OpSle:
		// Known non-negative on both sides: use unsigned.
		if a.umax <= sm && b.umax <= sm {
			if op == OpSlt {
				return tt.Cmp(OpUlt, a, b)
			}
			return tt.Cmp(OpUle, a, b)
		}
		// a non-negative, b negative constant etc.
		if b.isConst() && b.val > sm && a.umax <= sm {
			return tFalse
		}
		if a.isConst() && a.val > sm && b.umax <= sm {
			return tTrue
		}
	case OpUlt:
		if b.isConst() {
			if b.val == 0 {
				return tFalse
			}
			if a.umax < b.val {
				return tTrue
			}
			if b.val == 1 {
				return tt.Eq(a, mkConst(a.w, 0))
			}
		}
		if a.isConst() && a.val >= b.umax {
			return tFalse
		}
	case OpUle:
		if b.isConst() && a.umax <= b.val {
			return tTrue
		}
		if a.isConst() {
			if a.val == 0 {
				return tTrue
			}
			if a.val > b.umax {
				return tFalse
			}
		}
	}
	return tt.mk(op, 0, a, b, nil, 0)
}

// Bits helpers.

func (tt *TermTable) PopCount(a *Term, w uint8) *Term {
	if r := tt.sparseCount(a, w); r != nil {
		return r
	}
	r := mkConst(w, 0)
	for i := uint8(0); i < a.w; i++ {
		r = tt.Bin(OpAdd, r, tt.ZExt(tt.Extract(a, i, 1), w))
	}
	return r
}

func (tt *TermTable) TrailingZeros(a *Term, w uint8, nonzero bool) *Term {
	if idx, any := tt.sparseLowest(a); idx != nil {
		if nonzero {
			return tt.ZExt(idx, w)
		}
		return tt.Ite(any, tt.ZExt(idx, w), mkConst(w, 64))
	}
	r := mkConst(w, uint64(a.w))
	for i := int(a.w) - 1; i >= 0; i-- {
		r = tt.Ite(tt.Eq(tt.Extract(a, uint8(i), 1), mkConst(1, 1)), mkConst(w, uint64(i)), r)
	}
	return r
}

func (tt *TermTable) Len(a *Term, w uint8) *Term {
	r := mkConst(w, 0)
	for i := uint8(0); i < a.w; i++ {
		r = tt.Ite(tt.Eq(tt.Extract(a, i, 1), mkConst(1, 1)), mkConst(w, uint64(i)+1), r)
	}
	return r
}

func (tt *TermTable) Reverse(a *Term) *Term {
	r := tt.Extract(a, 0, 1)
	for i := uint8(1); i < a.w; i++ {
		r = tt.Concat(r, tt.Extract(a, i, 1))
	}
	return r
}

func (tt *TermTable) ReverseBytes(a *Term) *Term {
	r := tt.Extract(a, 0, 8)
	for i := uint8(8); i < a.w; i += 8 {
		r = tt.Concat(r, tt.Extract(a, i, 8))
	}
	return r
}

// eval computes the value of t under the current assignment (var.ev valid when
// var.evEpoch == epoch, else 0).
func evalTerm(t *Term, epoch uint32) uint64 {
	if t.op == OpConst {
		return t.val
	}
	if t.evEpoch == epoch {
		return t.ev
	}
	var v uint64
	switch t.op {
	case OpVar:
		v = 0
	case OpNot:
		v = 1 - evalTerm(t.a, epoch)
	case OpAnd:
		v = evalTerm(t.a, epoch)
		if v != 0 {
			v = evalTerm(t.b, epoch)
		}
	case OpOr:
		v = evalTerm(t.a, epoch)
		if v == 0 {
			v = evalTerm(t.b, epoch)
		}
	case OpEq:
		if evalTerm(t.a, epoch) == evalTerm(t.b, epoch) {
			v = 1
		}
	case OpIte:
		if evalTerm(t.a, epoch) != 0 {
			v = evalTerm(t.b, epoch)
		} else {
			v = evalTerm(t.c, epoch)
		}
	case OpConcat:
		v = evalTerm(t.a, epoch)<<t.b.w | evalTerm(t.b, epoch)
	case OpExtract:
		v = evalTerm(t.a, epoch) >> t.val & mask(t.w)
	case OpSExt:
		v = uint64(sext(evalTerm(t.a, epoch), t.a.w)) & mask(t.w)
	case OpBNot:
		v = ^evalTerm(t.a, epoch) & mask(t.w)
	case OpUlt, OpUle, OpSlt, OpSle:
		if foldCmp(t.op, t.a.w, evalTerm(t.a, epoch), evalTerm(t.b, epoch)) {
			v = 1
		}
	default:
		v = foldBin(t.op, t.w, evalTerm(t.a, epoch), evalTerm(t.b, epoch)) & mask(t.w)
	}
	t.ev = v
	t.evEpoch = epoch
	return v
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constText(t *Term) string {
	if t.w == 0 {
		if t.val != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
}

func (t *Term) ref() string {
	switch t.op {
	case OpConst:
		return constText(t)
	case OpVar:
		return fmt.Sprintf("v%d", t.id)
	}
	return fmt.Sprintf("t%d", t.id)
}

func (t *Term) body() string {
	switch t.op {
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.val+uint64(t.w)-1, t.val, t.a.ref())
	case OpSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opNames[t.op])
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(x.ref())
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

func (t *Term) String() string { return t.pretty(4) }

func (t *Term) pretty(d int) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			return constText(t)
		}
		return fmt.Sprintf("%d", t.val)
	case OpVar:
		return fmt.Sprintf("%s#%d", t.name, t.val)
	}
	if d == 0 {
		return "…"
	}
	var sb strings.Builder
	sb.WriteByte('(')
	switch t.op {
	case OpExtract:
		fmt.Fprintf(&sb, "extract[%d:%d]", t.val+uint64(t.w)-1, t.val)
	case OpSExt:
		fmt.Fprintf(&sb, "sext%d", t.w)
	default:
		sb.WriteString(opNames[t.op])
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(x.pretty(d - 1))
		}
	}
	sb.WriteByte(')')
	return sb.String()
}
