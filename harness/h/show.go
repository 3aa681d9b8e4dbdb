package h

import (
	"encoding/json"
	"fmt"
	"strconv"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/lazy"

	"github.com/arr-ai/frozen/internal/zzverif/sym"
)

func init() {
	Harnesses["FormatSets"] = FormatSets
	Harnesses["FormatMaps"] = FormatMaps
	Harnesses["FormatOthers"] = FormatOthers
	Harnesses["FormatIntSets"] = FormatIntSets
	Harnesses["FormatValues"] = FormatValues
	Harnesses["JSONSets"] = JSONSets
	Harnesses["JSONMaps"] = JSONMaps
	Harnesses["JSONStrings"] = JSONStrings
	Harnesses["JSONNested"] = JSONNested
}

func contains(s, t string) bool { return occurs(s, t) > 0 }

// occurs counts the occurrences of t in s.
func occurs(s, t string) int {
	n := 0
	for i := 0; i+len(t) <= len(s); i++ {
		if s[i:i+len(t)] == t {
			n++
		}
	}
	return n
}

// split cuts s at each sep outside any brackets or quotes.
func split(s, sep string) []string {
	var r []string
	if s == "" {
		return r
	}
	start, nest, quoted := 0, 0, false
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case quoted:
			if c == '\\' {
				i++
			} else if c == '"' {
				quoted = false
			}
		case c == '"':
			quoted = true
		case c == '{' || c == '[' || c == '(':
			nest++
		case c == '}' || c == ']' || c == ')':
			nest--
		case nest == 0 && i+len(sep) <= len(s) && s[i:i+len(sep)] == sep:
			r = append(r, s[start:i])
			i += len(sep) - 1
			start = i + 1
		}
	}
	return append(r, s[start:])
}

// lists asserts that out is exactly the parts in some order, separated and
// enclosed.
func lists(out, open, sep, end string, parts []string, what string) {
	ok := len(out) >= len(open)+len(end) && out[:len(open)] == open && out[len(out)-len(end):] == end
	sym.Assert(ok, what+": brackets")
	got := split(out[len(open):len(out)-len(end)], sep)
	sym.Assert(len(got) == len(parts), what+": number of parts")
	used := make([]bool, len(parts))
	for _, g := range got {
		found := false
		for i, p := range parts {
			if !used[i] && p == g && !found {
				used[i], found = true, true
			}
		}
		sym.Assert(found, what+": only the contents")
	}
	show(what, out)
}

// show makes the text comparable with the native run's. The layout of integer
// sets depends on the iteration order of a Go map.
func show(what, out string) {
	if !contains(what, "integer set") {
		sym.ObserveStr(what, out)
	}
}

// fixed are the first n identities; elements differ only by their hashes.
func fixed(n int) []K {
	var ks []K
	for i := 0; i < n; i++ {
		ks = append(ks, K{uint64(i + 1)})
	}
	return ks
}

// showSet builds a set of exactly the keys.
func showSet(ks []K) frozen.Set[K] {
	var s frozen.Set[K]
	switch sym.Param("route") {
	case 1:
		for i := range ks {
			s = s.With(ks[len(ks)-1-i])
		}
	case 2:
		x := K{999}
		s = frozen.NewSet(append([]K{x}, ks...)...).Without(x)
	case 3:
		h := len(ks) / 2
		s = frozen.NewSet(ks[:h]...).Union(frozen.NewSet(ks[h:]...))
	default:
		s = frozen.NewSet(ks...)
	}
	return s
}

func kparts(ks []K) []string {
	var r []string
	for _, k := range ks {
		r = append(r, "{"+strconv.Itoa(int(k.ID))+"}")
	}
	return r
}

var plainVerbs = []string{"%v", "%s", "%d"}
var otherVerbs = []string{"%+v", "%#v", "%1v", "%3v", "%-20v", "%+5v", "%+200v", "%q", "%x"}

// noPanic asserts that formatting did not panic; fmt recovers panics into the text.
func noPanic(out, what string) {
	sym.Assert(!contains(out, "PANIC"), what+": no panic")
	show(what, out)
}

// FormatSets: the plain form of a set lists its elements; no form panics.
func FormatSets() {
	ks := fixed(upto("n", sym.Param("min"), sym.Param("n")))
	s := showSet(ks)
	c := sym.Choose("form", 1+len(plainVerbs)+len(otherVerbs))
	switch {
	case c == 0:
		lists(s.String(), "{", ", ", "}", kparts(ks), "set String")
	case c <= len(plainVerbs):
		verb := plainVerbs[c-1]
		lists(fmt.Sprintf(verb, s), "{", ", ", "}", kparts(ks), "set "+verb)
	default:
		verb := otherVerbs[c-1-len(plainVerbs)]
		out := fmt.Sprintf(verb, s)
		noPanic(out, "set "+verb)
		if verb == "%+v" {
			for _, p := range kparts(ks) {
				sym.Assert(occurs(out, p) == 1, "set %+v: each element once")
			}
		}
	}
	same(s, mset(ks...), "formatted set")
	sym.Reach("end")
}

// FormatMaps: the plain form of a map lists its bindings; no form panics.
func FormatMaps() {
	ks := fixed(upto("n", sym.Param("min"), sym.Param("n")))
	var kvs []frozen.KeyValue[K, int]
	var parts []string
	m := MM{}
	for i, k := range ks {
		kvs = append(kvs, frozen.KV(k, 70+i))
		parts = append(parts, "{"+strconv.Itoa(int(k.ID))+"}: "+strconv.Itoa(70+i))
		m = m.with(k, 70+i)
	}
	s, m := buildMap(sym.Param("route")&^2, kvs, m)
	c := sym.Choose("form", 1+len(plainVerbs)+len(otherVerbs))
	switch {
	case c == 0:
		lists(s.String(), "(", ", ", ")", parts, "map String")
	case c <= len(plainVerbs):
		verb := plainVerbs[c-1]
		lists(fmt.Sprintf(verb, s), "(", ", ", ")", parts, "map "+verb)
	default:
		verb := otherVerbs[c-1-len(plainVerbs)]
		out := fmt.Sprintf(verb, s)
		noPanic(out, "map "+verb)
		if verb == "%+v" {
			for _, k := range ks {
				sym.Assert(occurs(out, "{"+strconv.Itoa(int(k.ID))+"}") == 1, "map %+v: each key once")
			}
		}
	}
	sameMap(s, m, "formatted map")
	sym.Reach("end")
}

// FormatOthers: builders, pairs, nested and lazy sets.
func FormatOthers() {
	ks := fixed(upto("n", 0, sym.Param("n")))
	s := showSet(ks)
	switch sym.Choose("what", 7) {
	case 0:
		var b frozen.SetBuilder[K]
		for _, k := range ks {
			b.Add(k)
		}
		lists(b.String(), "{", ", ", "}", kparts(ks), "builder String")
		lists(fmt.Sprintf("%v", b), "{", ", ", "}", kparts(ks), "builder %v")
		noPanic(fmt.Sprintf("%+v", b), "builder %+v")
		b.Add(K{100})
		lists(fmt.Sprint(b), "{", ", ", "}", append(kparts(ks), "{100}"), "builder after")
		same(b.Finish(), mset(append(ks, K{100})...), "builder finished")
	case 1:
		kv := frozen.KV(K{5}, "x")
		out := fmt.Sprintf("%v", kv)
		sym.Assert(out == "{5}:x", "pair %v")
		sym.Assert(kv.String() == out, "pair String")
		noPanic(fmt.Sprintf("%+v", kv), "pair %+v")
		noPanic(fmt.Sprintf("%v", frozen.KV(s, s)), "pair of sets")
	case 2:
		var e frozen.Set[K]
		if len(ks) == 0 {
			e = frozen.NewSet(K{100})
		}
		ss := frozen.NewSet(s, e)
		var parts []string
		if len(ks) == 0 {
			parts = []string{"{}", "{{100}}"}
		} else {
			parts = []string{s.String(), "{}"}
		}
		lists(ss.String(), "{", ", ", "}", parts, "set of sets String")
		noPanic(fmt.Sprintf("%+v", ss), "set of sets %+v")
	case 3:
		m := frozen.NewMap(frozen.KV("a", s))
		sym.Assert(m.String() == "(a: "+s.String()+")", "map to set String")
		noPanic(fmt.Sprintf("%+v", m), "map to set %+v")
	case 4:
		var a frozen.Set[any]
		var parts []string
		for i, k := range ks {
			if i%2 == 0 {
				a = a.With(k)
				parts = append(parts, "{"+strconv.Itoa(int(k.ID))+"}")
			} else {
				a = a.With(int(k.ID))
				parts = append(parts, strconv.Itoa(int(k.ID)))
			}
		}
		lists(fmt.Sprintf("%v", a), "{", ", ", "}", parts, "set of anything %v")
		noPanic(fmt.Sprintf("%+v", a), "set of anything %+v")
	case 5:
		l := lazy.Frozen(frozenAny(ks))
		lists(fmt.Sprint(l), "{", ", ", "}", kparts(ks), "lazy set")
		noPanic(fmt.Sprintf("%+v", l), "lazy set %+v")
	case 6:
		w := upto("width", 0, 4)
		out := fmt.Sprintf("%*v", w, s)
		noPanic(out, "set with width")
		for _, p := range kparts(ks) {
			sym.Assert(occurs(out, p) <= 1, "set with width: no element twice")
		}
		if w >= len(ks) {
			lists(out, "{", ", ", "}", kparts(ks), "set with sufficient width")
		}
	}
	sym.Reach("end")
}

// listsAny is lists for parts that may contain anything.
func listsAny(out, open, sep, end string, parts []string, what string) {
	sym.Assert(len(out) >= len(open)+len(end) && out[:len(open)] == open && out[len(out)-len(end):] == end, what+": brackets")
	sym.Assert(arranged(out[len(open):len(out)-len(end)], sep, parts, make([]bool, len(parts)), true), what+": exactly the contents")
	show(what, out)
}

// arranged says whether s is the parts not used yet in some order, separated.
func arranged(s, sep string, parts []string, used []bool, first bool) bool {
	left := false
	for i, p := range parts {
		if used[i] {
			continue
		}
		left = true
		if !first {
			p = sep + p
		}
		if len(p) <= len(s) && s[:len(p)] == p {
			used[i] = true
			if arranged(s[len(p):], sep, parts, used, false) {
				return true
			}
			used[i] = false
		}
	}
	return !left && s == ""
}

// FormatValues: sets and maps of many types of value.
func FormatValues() {
	hash := []any{"100%", "%d%!", "{, :}\n\"\x00", "", 42, -7, true, 2.5, int8(3), uint(9), Pair{"p%v", 1}, [2]int{1, 2}, frozen.NewSet("%s"), frozen.NewMap(frozen.KV("%", "%%")), Fold("Q"), Named(4)}
	vals := append([]any{nil, []int{1, 2}, map[string]int{"m": 1}, struct{}{}, errOdd("e%"), &Pair{"%", 2}}, hash...)
	first, n := sym.Choose("first", len(hash)), upto("n", 1, sym.Param("n"))
	verb := plainVerbs[sym.Choose("verb", 2)]
	if sym.Choose("map", 2) == 0 {
		var s frozen.Set[any]
		var parts []string
		for i := 0; i < n; i++ {
			el := hash[(first+i*5)%len(hash)]
			s = s.With(el)
			parts = append(parts, fmt.Sprintf("%v", el))
		}
		listsAny(fmt.Sprintf(verb, s), "{", ", ", "}", parts, "set "+verb)
		listsAny(s.String(), "{", ", ", "}", parts, "set String")
		listsAny(fmt.Sprintf(verb, lazy.Frozen(s)), "{", ", ", "}", parts, "lazy set "+verb)
		noPanic(fmt.Sprintf("%+v", s), "set %+v")
		noPanic(fmt.Sprintf("%#v", s), "set %#v")
	} else {
		var m frozen.Map[any, any]
		var parts []string
		for i := 0; i < n; i++ {
			k, v := hash[(first+i*5)%len(hash)], vals[(first+i*7)%len(vals)]
			m = m.With(k, v)
			parts = append(parts, fmt.Sprintf("%v", k)+": "+fmt.Sprintf("%v", v))
		}
		listsAny(fmt.Sprintf(verb, m), "(", ", ", ")", parts, "map "+verb)
		listsAny(m.String(), "(", ", ", ")", parts, "map String")
		noPanic(fmt.Sprintf("%+v", m), "map %+v")
		noPanic(fmt.Sprintf("%#v", m), "map %#v")
	}
	sym.Reach("end")
}

// FormatIntSets: the plain form of an integer set lists its elements.
func FormatIntSets() {
	pool := []int{0, 3, -1, 64, -64, 1 << 40}
	n := upto("n", 0, sym.Param("n"))
	var vs []int
	var parts []string
	for i := 0; i < n; i++ {
		v := pool[(i+sym.Param("first"))%len(pool)]
		vs = append(vs, v)
		parts = append(parts, strconv.Itoa(v))
	}
	s := frozen.NewIntSet(vs...)
	switch sym.Choose("form", 5) {
	case 0:
		lists(s.String(), "[", ", ", "]", parts, "integer set String")
	case 1:
		lists(fmt.Sprintf("%v", s), "[", ", ", "]", parts, "integer set %v")
	case 2:
		lists(fmt.Sprintf("%d", s), "[", ", ", "]", parts, "integer set %d")
	case 3:
		noPanic(fmt.Sprintf("%+v", s), "integer set %+v")
	case 4:
		noPanic(fmt.Sprintf("%5v", s), "integer set %5v")
	}
	sym.Reach("end")
}

func jparts(ks []K) []string {
	var r []string
	for _, k := range ks {
		r = append(r, `{"ID":`+strconv.Itoa(int(k.ID))+"}")
	}
	return r
}

func encode(v any, what string) string {
	out, err := json.Marshal(v)
	sym.Assert(err == nil, what+": no error")
	return string(out)
}

// JSONSets: an array with one entry per element.
func JSONSets() {
	ks := fixed(upto("n", sym.Param("min"), sym.Param("n")))
	s := showSet(ks)
	lists(encode(s, "set"), "[", ",", "]", jparts(ks), "set")
	out, err := s.MarshalJSON()
	sym.Assert(err == nil, "set MarshalJSON: no error")
	lists(string(out), "[", ",", "]", jparts(ks), "set MarshalJSON")
	lists(encode(&s, "pointer to set"), "[", ",", "]", jparts(ks), "pointer to set")
	same(s, mset(ks...), "encoded set")
	sym.Reach("end")
}

var alphabet = []string{"a", "b", "ab", "", `q"\`, "<é>\n"}

// JSONMaps: an object for string keys, an array of pairs for other keys.
func JSONMaps() {
	n := upto("n", 0, sym.Param("n"))
	rot := sym.Choose("first", len(alphabet))
	if sym.Choose("keys", 2) == 0 {
		var m frozen.Map[string, int]
		var parts []string
		for i := 0; i < n; i++ {
			k := alphabet[(i+rot)%len(alphabet)]
			if sym.Param("route") == 1 {
				m = m.With(k, -1).With("zz", 3).Without("zz")
			}
			m = m.With(k, 70-50*i)
			parts = append(parts, encode(k, "key")+":"+strconv.Itoa(70-50*i))
		}
		lists(encode(m, "map with string keys"), "{", ",", "}", parts, "map with string keys")
		out, err := m.MarshalJSON()
		sym.Assert(err == nil, "map MarshalJSON: no error")
		lists(string(out), "{", ",", "}", parts, "map MarshalJSON")
	} else {
		ks := fixed(n)
		var m frozen.Map[K, string]
		var parts []string
		for i, k := range ks {
			if sym.Param("route") == 1 {
				m = m.With(k, "old").With(K{100}, "zz").Without(K{100})
			}
			v := alphabet[(i+rot)%len(alphabet)]
			m = m.With(k, v)
			parts = append(parts, "["+jparts([]K{k})[0]+","+encode(v, "value")+"]")
		}
		lists(encode(m, "map with other keys"), "[", ",", "]", parts, "map with other keys")
	}
	sym.Reach("end")
}

// JSONStrings: sets of strings and of anything.
func JSONStrings() {
	n := upto("n", 0, sym.Param("n"))
	rot := sym.Choose("first", len(alphabet))
	var s frozen.Set[string]
	var a frozen.Set[any]
	var sp, ap []string
	for i := 0; i < n; i++ {
		k := alphabet[(i+rot)%len(alphabet)]
		s = s.With(k)
		sp = append(sp, encode(k, "element"))
		if i%2 == 0 {
			a = a.With(i)
			ap = append(ap, strconv.Itoa(i))
		} else {
			a = a.With(k)
			ap = append(ap, encode(k, "element"))
		}
	}
	if sym.Choose("which", 2) == 0 {
		lists(encode(s, "set of strings"), "[", ",", "]", sp, "set of strings")
	} else {
		lists(encode(a.With(false).With(true), "set of anything"), "[", ",", "]", append(ap, "false", "true"), "set of anything")
	}
	sym.Reach("end")
}

// JSONNested: sets and maps inside sets, maps and other values.
func JSONNested() {
	ks := fixed(upto("n", 0, sym.Param("n")))
	s := showSet(ks)
	in := encode(s, "set")
	switch sym.Choose("what", 5) {
	case 0:
		lists(encode(frozen.NewSet(s, frozen.NewSet(K{100})), "set of sets"), "[", ",", "]", []string{in, `[{"ID":100}]`}, "set of sets")
	case 1:
		lists(encode(frozen.NewMap(frozen.KV[string, any]("x", s), frozen.KV[string, any]("y", 1), frozen.KV[string, any]("z", nil)), "map to set"), "{", ",", "}", []string{`"x":` + in, `"y":1`, `"z":null`}, "map to set")
	case 2:
		lists(encode(frozen.NewMap(frozen.KV(s, 1)), "map from set"), "[", ",", "]", []string{"[" + in + ",1]"}, "map from set")
	case 3:
		lists(encode([]any{s, 1}, "slice of set"), "[", ",", "]", []string{in, "1"}, "slice of set")
	case 4:
		var e frozen.Map[string, int]
		var f frozen.Map[int, int]
		var g frozen.Set[int]
		sym.Assert(encode(e, "empty") == "{}", "empty map with string keys")
		sym.Assert(encode(f, "empty") == "[]", "empty map with other keys")
		sym.Assert(encode(g, "empty") == "[]", "empty set")
		sym.Assert(encode(frozen.NewSet(1).Without(1), "empty") == "[]", "emptied set")
		sym.Assert(encode(frozen.NewMap(frozen.KV("a", 1)).Without("a"), "empty") == "{}", "emptied map with string keys")
	}
	sym.Reach("end")
}
