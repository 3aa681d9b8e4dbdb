package h

import (
	"strconv"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/pkg/rel"

	"github.com/arr-ai/frozen/internal/zzverif/sym"
)

func init() {
	Harnesses["RelNew"] = RelNew
	Harnesses["RelJoin"] = RelJoin
	Harnesses["RelProduct"] = RelProduct
	Harnesses["RelNest"] = RelNest
	Harnesses["RelUnnest"] = RelUnnest
}

// R is the mathematical relation: the rows whose flag holds. Rows with true
// flags are pairwise different.
type R struct {
	hdr  []string
	rows []row
}

type row struct {
	v []uint64
	p bool
}

func (r R) col(attr string) int {
	for i, h := range r.hdr {
		if h == attr {
			return i
		}
	}
	return -1
}

func sameRow(a, b []uint64) bool {
	eq := true
	for i := range a {
		eq = sym.And(eq, a[i] == b[i])
	}
	return eq
}

func (r R) has(v []uint64) bool {
	h := false
	for _, w := range r.rows {
		h = sym.Or(h, sym.And(w.p, sameRow(v, w.v)))
	}
	return h
}

func (r R) add(v []uint64, p bool) R {
	rows := append([]row{}, r.rows...)
	return R{r.hdr, append(rows, row{v, sym.And(p, sym.Not(r.has(v)))})}
}

func (r R) count() int {
	n := 0
	for _, w := range r.rows {
		n += sym.B2I(w.p)
	}
	return n
}

func (r R) project(attrs ...string) R {
	q := R{hdr: attrs}
	for _, w := range r.rows {
		var v []uint64
		for _, a := range attrs {
			v = append(v, w.v[r.col(a)])
		}
		q = q.add(v, w.p)
	}
	return q
}

func (r R) join(s R) R {
	q := R{hdr: append([]string{}, r.hdr...)}
	for _, h := range s.hdr {
		if r.col(h) < 0 {
			q.hdr = append(q.hdr, h)
		}
	}
	for _, a := range r.rows {
		for _, b := range s.rows {
			p := sym.And(a.p, b.p)
			v := append([]uint64{}, a.v...)
			for i, h := range s.hdr {
				if j := r.col(h); j >= 0 {
					p = sym.And(p, a.v[j] == b.v[i])
				} else {
					v = append(v, b.v[i])
				}
			}
			q = q.add(v, p)
		}
	}
	return q
}

// relation is an arbitrary relation of n rows, and its model. With the
// parameter dup, rows may be equal.
func relation(label string, n int, hdr ...string) (rel.Relation, R) {
	m := R{hdr: hdr}
	var rows [][]any
	for i := 0; i < n; i++ {
		var r []any
		var v []uint64
		for range hdr {
			k := key(label)
			r = append(r, k)
			v = append(v, k.ID)
		}
		if sym.Param("dup") == 0 {
			sym.Assume(sym.Not(m.has(v)))
		}
		rows = append(rows, r)
		m = m.add(v, true)
	}
	return rel.New(hdr, rows...), m
}

// values reads a tuple with exactly the attributes; it fails on any other.
func values(t rel.Tuple, hdr []string, what string) []uint64 {
	sym.Assert(t.Count() == len(hdr), what+": number of attributes")
	var v []uint64
	for _, h := range hdr {
		x, ok := t.Get(h)
		sym.Assert(ok, what+": attributes")
		v = append(v, x.(K).ID)
	}
	return v
}

// sameRel asserts that r is exactly m.
func sameRel(r rel.Relation, m R, what string) {
	var got [][]uint64
	for i := r.Range(); i.Next(); {
		v := values(i.Value(), m.hdr, what)
		sym.Assert(m.has(v), what+": lists only its tuples")
		for _, w := range got {
			sym.Assert(sym.Not(sameRow(v, w)), what+": lists each tuple once")
		}
		got = append(got, v)
	}
	sym.Assert(len(got) == m.count(), what+": number of tuples")
	sym.Assert(r.Count() == m.count(), what+": Count")
	sym.Observe(what, uint64(r.Count()))
}

// RelNew: a relation has exactly its rows, and a projection exactly their
// projections.
func RelNew() {
	r, m := relation("r", upto("n", 0, sym.Param("n")), "a", "b", "c")
	sameRel(r, m, "New")
	switch sym.Choose("attrs", 4) {
	case 0:
		sameRel(rel.Project(r, "a"), m.project("a"), "Project")
	case 1:
		sameRel(rel.Project(r, "c", "a"), m.project("c", "a"), "Project")
	case 2:
		sameRel(rel.Project(r), m.project(), "Project")
	case 3:
		sameRel(rel.Project(r, "a", "b", "c"), m, "Project")
	}
	q := []uint64{key("q").ID, key("q").ID, key("q").ID}
	t := rel.NewTuple(frozen.KV[string, any]("a", K{q[0]}), frozen.KV[string, any]("b", K{q[1]}), frozen.KV[string, any]("c", K{q[2]}))
	sym.Assert(iff(r.Has(t), m.has(q)), "Has exactly the rows")
	sym.Assert(panics(func() { rel.New([]string{"a", "b"}, []any{1}) }), "short row panics")
	sym.Reach("end")
}

var relShapes = [][][]string{
	{{"a", "b"}, {"b", "c"}},
	{{"a", "b"}, {"a", "b"}},
	{{"a"}, {"b"}},
	{{"a", "b"}, {"a"}},
	{{"a", "b", "c"}, {"b", "c", "d"}},
	{{}, {"a"}},
	{{"a"}, {}},
	{{}, {}},
	{{"a", "b"}, {"b", "c"}, {"c", "a"}},
	{{"a"}, {"a", "b"}, {"b"}},
	{{"a"}, {"b"}, {"a", "b"}},
	{{"a", "b"}},
}

// RelJoin: the join has exactly the combinations of matching tuples, in any
// order of operands, also where an operand is empty.
func RelJoin() {
	shape := relShapes[sym.Param("shape")]
	var rs []rel.Relation
	var ms []R
	ns := []int{sym.Param("a"), sym.Param("b"), sym.Param("c")}
	for i, hdr := range shape {
		n := upto("n"+strconv.Itoa(i), 0, ns[i])
		if len(hdr) == 0 && n > 1 {
			n = 1
		}
		r, m := relation("r"+strconv.Itoa(i), n, hdr...)
		rs, ms = append(rs, r), append(ms, m)
	}
	m := ms[0]
	for _, n := range ms[1:] {
		m = m.join(n)
	}
	sameRel(rel.Join(rs...), m, "join")
	if len(rs) > 1 {
		for i, j := 0, len(rs)-1; i < j; i, j = i+1, j-1 {
			rs[i], rs[j] = rs[j], rs[i]
			ms[i], ms[j] = ms[j], ms[i]
		}
		sameRel(rel.Join(rs...), m, "join, other order")
	}
	for i, r := range rs {
		sameRel(r, ms[i], "operand")
	}
	sym.Reach("end")
}

// RelProduct: the product has exactly the combinations of tuples.
func RelProduct() {
	a, ma := relation("a", upto("na", 0, sym.Param("a")), "a", "b")
	b, mb := relation("b", upto("nb", 0, sym.Param("b")), "c")
	sameRel(rel.CartesianProduct(a, b), ma.join(mb), "product")
	sameRel(rel.CartesianProduct(b, a), mb.join(ma), "product, other order")
	sameRel(rel.CartesianProduct(a), ma, "product of one")
	sameRel(rel.CartesianProduct(), R{rows: []row{{nil, true}}}, "product of none")
	sym.Reach("end")
}

// nested asserts that r groups the rows of m by the attributes key, with the
// nested attributes replaced by the relations of their values.
func nested(r rel.Relation, m R, key []string, groups map[string][]string, names []string, what string) {
	keys := m.project(key...)
	sym.Assert(r.Count() == keys.count(), what+": one tuple per group")
	var got [][]uint64
	for i := r.Range(); i.Next(); {
		t := i.Value()
		sym.Assert(t.Count() == len(key)+len(names), what+": number of attributes")
		k := values(t.Project(key...), key, what+": key")
		sym.Assert(keys.has(k), what+": keys")
		for _, o := range got {
			sym.Assert(sym.Not(sameRow(k, o)), what+": each group once")
		}
		got = append(got, k)
		for _, name := range names {
			x, ok := t.Get(name)
			sym.Assert(ok, what+": nested attribute")
			sub, ok := x.(rel.Relation)
			sym.Assert(ok, what+": nested relation")
			g := R{hdr: groups[name]}
			for _, w := range m.rows {
				var kv, gv []uint64
				for _, a := range key {
					kv = append(kv, w.v[m.col(a)])
				}
				for _, a := range groups[name] {
					gv = append(gv, w.v[m.col(a)])
				}
				g = g.add(gv, sym.And(w.p, sameRow(kv, k)))
			}
			sameRel(sub, g, what+": "+name)
		}
	}
	sym.Assert(len(got) == keys.count(), what+": lists every group")
}

// RelNest: nesting groups, and unnesting one nested group undoes it.
func RelNest() {
	r, m := relation("r", upto("n", 0, sym.Param("n")), "a", "b", "c")
	type nest = frozen.KeyValue[string, frozen.Set[string]]
	set := frozen.NewSet[string]
	var key, names []string
	groups := map[string][]string{}
	switch sym.Param("shape") {
	case 0:
		key, names = []string{"b", "c"}, []string{"x"}
		groups["x"] = []string{"a"}
	case 1:
		key, names = []string{"c"}, []string{"x"}
		groups["x"] = []string{"a", "b"}
	case 2:
		key, names = []string{}, []string{"x"}
		groups["x"] = []string{"a", "b", "c"}
	case 3:
		key, names = []string{"c"}, []string{"x", "y"}
		groups["x"], groups["y"] = []string{"a"}, []string{"b"}
	case 4:
		key, names = []string{}, []string{"x", "y"}
		groups["x"], groups["y"] = []string{"a", "c"}, []string{"b"}
	case 5:
		key = []string{"a", "b", "c"}
	case 6: // the nested relation takes the name of the attribute
		key, names = []string{"b", "c"}, []string{"a"}
		groups["a"] = []string{"a"}
	case 7: // shared attribute
		key, names = []string{"c"}, []string{"x", "y"}
		groups["x"], groups["y"] = []string{"a", "b"}, []string{"b"}
	}
	var spec []nest
	for _, n := range names {
		spec = append(spec, frozen.KV(n, set(groups[n]...)))
	}
	what := "nest"
	if len(names) == 0 {
		what = "nest of nothing"
	}
	s := rel.Nest(r, frozen.NewMap(spec...))
	nested(s, m, key, groups, names, what)
	if len(names) == 1 {
		sameRel(rel.Unnest(s, names[0]), m, "unnest after nest")
	}
	sameRel(r, m, "operand")
	sym.Reach("end")
}

// RelUnnest: unnesting replaces a nested relation by its tuples.
func RelUnnest() {
	var s rel.Relation
	m := R{hdr: []string{"k", "a"}}
	var ks []K
	for i := 0; i < sym.Param("n"); i++ {
		k := key("k")
		for _, o := range ks {
			sym.Assume(o.ID != k.ID)
		}
		ks = append(ks, k)
		sub, sm := relation("sub", upto("size", 0, sym.Param("size")), "a")
		s = s.With(rel.NewTuple(frozen.KV[string, any]("k", k), frozen.KV[string, any]("x", sub)))
		for _, w := range sm.rows {
			m = m.add([]uint64{k.ID, w.v[0]}, w.p)
		}
	}
	sameRel(rel.Unnest(s, "x"), m, "unnest")
	sym.Reach("end")
}
