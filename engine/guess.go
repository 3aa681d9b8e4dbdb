package main

// guess looks for a model of PC ∧ extra by local repair of the current model,
// so that satisfiable branches usually cost no solver call. A guess counts only
// if every constraint evaluates to true under it; unsatisfiability is always
// the solver's verdict.
func (m *Machine) guess(extra *Term) ([]uint64, bool) {
	g := &guesser{m: m, orig: m.model}
	g.cm = append([]uint64(nil), m.model...)
	ok := false
	for iter := 0; iter < 16; iter++ {
		g.install()
		if m.eval(extra) == 0 {
			if !g.force(extra, true, 0) {
				break
			}
			continue
		}
		bad := -1
		for i := len(m.pc) - 1; i >= 0; i-- {
			if m.eval(m.pc[i]) == 0 {
				bad = i
				break
			}
		}
		if bad < 0 {
			ok = true
			break
		}
		if !g.force(m.pc[bad], true, 0) {
			break
		}
	}
	model := g.cm
	m.setModel(g.orig)
	if ok {
		m.nGuess++
		return model, true
	}
	return nil, false
}

type guesser struct {
	m    *Machine
	orig []uint64
	cm   []uint64
}

func (g *guesser) install() {
	g.m.epoch++
	g.m.model = g.cm
	for i, v := range g.m.vars {
		v.t.ev = g.cm[i]
		v.t.evEpoch = g.m.epoch
	}
}

func (g *guesser) rnd() uint64 {
	g.m.rng = g.m.rng*6364136223846793005 + 1442695040888963407
	return g.m.rng >> 20
}

func (g *guesser) force(t *Term, val bool, d int) bool {
	if d > 40 {
		return false
	}
	m := g.m
	if (m.eval(t) != 0) == val {
		return true
	}
	switch t.op {
	case OpVar:
		return g.set(t, b2u(val), d)
	case OpNot:
		return g.force(t.a, !val, d+1)
	case OpAnd, OpOr:
		if (t.op == OpAnd) == val {
			return g.force(t.a, val, d+1) && g.force(t.b, val, d+1)
		}
		if g.rnd()&1 == 0 {
			return g.force(t.b, val, d+1) || g.force(t.a, val, d+1)
		}
		return g.force(t.a, val, d+1) || g.force(t.b, val, d+1)
	case OpIte:
		if m.eval(t.a) != 0 {
			return g.force(t.b, val, d+1) || g.force(t.a, false, d+1)
		}
		return g.force(t.c, val, d+1) || g.force(t.a, true, d+1)
	case OpEq:
		if t.a.w == 0 {
			av := m.eval(t.a) != 0
			return g.force(t.b, av == val, d+1) || g.force(t.a, !av, d+1)
		}
		a, b := m.eval(t.a), m.eval(t.b)
		if val {
			if g.rnd()&1 == 0 {
				return g.set(t.a, b, d+1) || g.set(t.b, a, d+1)
			}
			return g.set(t.b, a, d+1) || g.set(t.a, b, d+1)
		}
		if t.a.w <= 4 {
			nv := (a + 1 + g.rnd()%mask(t.a.w)) & mask(t.a.w)
			return g.set(t.a, nv, d+1) || g.set(t.b, (b+1)&mask(t.a.w), d+1)
		}
		nv := g.rnd() & 0xffff & mask(t.a.w)
		if nv == a {
			nv ^= 1
		}
		return g.set(t.a, nv, d+1) || g.set(t.b, nv^1, d+1)
	case OpUlt, OpUle, OpSlt, OpSle:
		a, b := m.eval(t.a), m.eval(t.b)
		w := mask(t.a.w)
		// Move one side next to the other.
		var na, nb uint64
		strict := t.op == OpUlt || t.op == OpSlt
		if val {
			na, nb = b, a
			if strict {
				na, nb = b-1, a+1
			}
		} else {
			na, nb = b, a
			if !strict {
				na, nb = b+1, a-1
			}
		}
		return g.set(t.a, na&w, d+1) || g.set(t.b, nb&w, d+1)
	}
	return false
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// set edits the candidate model so that t takes value v.
func (g *guesser) set(t *Term, v uint64, d int) bool {
	if d > 40 {
		return false
	}
	m := g.m
	switch t.op {
	case OpConst:
		return t.val == v
	case OpVar:
		i := int(t.val)
		if i >= len(m.vars) || m.vars[i].t != t {
			return false
		}
		g.cm[i] = v & maskOrBit(t.w)
		return true
	case OpConcat:
		lo, hi := v&mask(t.b.w), v>>t.b.w
		if t.a.op == OpConst && t.a.val != hi || t.b.op == OpConst && t.b.val != lo {
			return false
		}
		return g.set(t.a, hi, d+1) && g.set(t.b, lo, d+1)
	case OpExtract:
		cur := m.eval(t.a)
		msk := mask(t.w) << t.val
		return g.set(t.a, cur&^msk|v<<t.val, d+1)
	case OpSExt:
		if uint64(sext(v&mask(t.a.w), t.a.w))&mask(t.w) != v {
			return false
		}
		return g.set(t.a, v&mask(t.a.w), d+1)
	case OpIte:
		if m.eval(t.a) != 0 {
			if t.b.op == OpConst && t.b.val != v {
				return g.force(t.a, false, d+1) && m.evalIs(t.c, v, g, d)
			}
			return g.set(t.b, v, d+1)
		}
		if t.c.op == OpConst && t.c.val != v {
			return g.force(t.a, true, d+1) && m.evalIs(t.b, v, g, d)
		}
		return g.set(t.c, v, d+1)
	case OpAdd:
		return g.set(t.a, (v-m.eval(t.b))&mask(t.w), d+1) || g.set(t.b, (v-m.eval(t.a))&mask(t.w), d+1)
	case OpSub:
		return g.set(t.a, (v+m.eval(t.b))&mask(t.w), d+1) || g.set(t.b, (m.eval(t.a)-v)&mask(t.w), d+1)
	case OpBXor:
		return g.set(t.a, v^m.eval(t.b), d+1) || g.set(t.b, v^m.eval(t.a), d+1)
	case OpBNot:
		return g.set(t.a, ^v&mask(t.w), d+1)
	}
	if t.w == 0 {
		return g.force(t, v != 0, d+1)
	}
	return false
}

func (m *Machine) evalIs(t *Term, v uint64, g *guesser, d int) bool {
	if t.op == OpConst {
		return t.val == v
	}
	return g.set(t, v, d+1)
}
