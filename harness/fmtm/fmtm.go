// Package fmtm models the parts of fmt and encoding/json that frozen uses; the
// engine interprets it in place of the standard library, which is built on
// reflection. The bodies of the lower-case helpers are engine intrinsics.
package fmtm

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"
)

const (
	kBool = iota
	kUint
	kFloat
	kString
	kPtr
	kUnsafe
	kSlice
	kIface
	kFunc
	kMap
	kChan
	kStruct
	kArray
)
const kInt = 50
const kNil = 99

func kindOf(a any) int              { return 0 }
func intOf(a any) int64             { return 0 }
func strOf(a any) string            { return "" }
func boolOf(a any) bool             { return false }
func floatStr(a any) string         { return "" }
func lenOf(a any) int               { return 0 }
func elemAt(a any, i int) any       { return nil }
func keyAt(a any, i int) any        { return nil }
func isNil(a any) bool              { return false }
func typeName(a any) string         { return "" }
func fieldName(a any, i int) string { return "" }

type state struct {
	b                              *strings.Builder
	wid, prec                      int
	widOK, precOK                  bool
	plus, minus, sharp, space, zer bool
	panicking                      bool
}

func (s *state) Write(p []byte) (int, error)       { return s.b.Write(p) }
func (s *state) WriteString(p string) (int, error) { return s.b.WriteString(p) }
func (s *state) Width() (int, bool)                { return s.wid, s.widOK }
func (s *state) Precision() (int, bool)            { return s.prec, s.precOK }
func (s *state) Flag(c int) bool {
	switch c {
	case '+':
		return s.plus
	case '-':
		return s.minus
	case '#':
		return s.sharp
	case ' ':
		return s.space
	case '0':
		return s.zer
	}
	return false
}

func (s *state) pad(t string) {
	n := 0
	if s.widOK {
		for range t {
			n++
		}
		n = s.wid - n
	}
	if n <= 0 {
		s.b.WriteString(t)
		return
	}
	if s.minus {
		s.b.WriteString(t)
		s.b.WriteString(strings.Repeat(" ", n))
		return
	}
	if s.zer {
		if strings.HasPrefix(t, "-") {
			s.b.WriteString("-")
			t = t[1:]
		}
		s.b.WriteString(strings.Repeat("0", n))
	} else {
		s.b.WriteString(strings.Repeat(" ", n))
	}
	s.b.WriteString(t)
}

// catch turns a panic of a formatting method into text, as fmt does.
func (s *state) catch(a any, verb rune, method string) {
	err := recover()
	if err == nil {
		return
	}
	if kindOf(a) == kPtr && isNil(a) {
		s.b.WriteString("<nil>")
		return
	}
	if s.panicking {
		panic(err)
	}
	s.b.WriteString("%!" + string(verb) + "(PANIC=" + method + " method: ")
	t := &state{b: s.b, panicking: true}
	t.arg(err, 'v', 0)
	s.b.WriteString(")")
}

func (s *state) arg(a any, verb rune, depth int) {
	if verb == 'T' {
		s.pad(typeName(a))
		return
	}
	if kindOf(a) == kNil {
		if verb == 'v' {
			s.pad("<nil>")
		} else {
			s.b.WriteString("%!" + string(verb) + "(<nil>)")
		}
		return
	}
	if f, is := a.(fmt.Formatter); is {
		defer s.catch(a, verb, "Format")
		f.Format(s, verb)
		return
	}
	if verb == 'v' && s.sharp {
		if g, is := a.(fmt.GoStringer); is {
			defer s.catch(a, verb, "GoString")
			s.b.WriteString(g.GoString())
			return
		}
	} else if verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'X' {
		t, ok := "", false
		if e, is := a.(error); is {
			defer s.catch(a, verb, "Error")
			t, ok = e.Error(), true
		} else if g, is := a.(fmt.Stringer); is {
			defer s.catch(a, verb, "String")
			t, ok = g.String(), true
		}
		if ok {
			if verb == 'q' {
				t = strconv.Quote(t)
			} else if verb == 'x' || verb == 'X' {
				panic("fmtm: hex of Stringer is not modelled")
			}
			s.pad(t)
			return
		}
	}
	bad := func() {
		s.b.WriteString("%!" + string(verb) + "(" + typeName(a) + "=")
		s2 := &state{b: s.b}
		s2.arg(a, 'v', depth)
		s.b.WriteString(")")
	}
	k := kindOf(a)
	switch k {
	case kBool:
		if verb != 'v' && verb != 't' {
			bad()
			return
		}
		if boolOf(a) {
			s.pad("true")
		} else {
			s.pad("false")
		}
	case kInt, kUint:
		base := 10
		switch verb {
		case 'v', 'd':
		case 'b':
			base = 2
		case 'o':
			base = 8
		case 'x', 'X':
			base = 16
		case 'c':
			s.pad(string(rune(intOf(a))))
			return
		case 'q', 'U':
			panic("fmtm: verb is not modelled")
		default:
			bad()
			return
		}
		var t string
		if k == kInt {
			t = strconv.FormatInt(intOf(a), base)
			if s.plus && intOf(a) >= 0 && verb != 'v' {
				t = "+" + t
			}
		} else {
			t = strconv.FormatUint(uint64(intOf(a)), base)
		}
		if verb == 'X' {
			t = strings.ToUpper(t)
		}
		s.pad(t)
	case kString:
		switch verb {
		case 'v', 's':
			if verb == 'v' && s.sharp {
				s.pad(strconv.Quote(strOf(a)))
			} else {
				s.pad(strOf(a))
			}
		case 'q':
			s.pad(strconv.Quote(strOf(a)))
		default:
			bad()
		}
	case kFloat:
		s.pad(floatStr(a))
	case kSlice, kArray:
		if s.sharp && verb == 'v' {
			panic("fmtm: %#v of a slice is not modelled")
		}
		s.b.WriteString("[")
		for i, n := 0, lenOf(a); i < n; i++ {
			if i > 0 {
				s.b.WriteString(" ")
			}
			s.arg(elemAt(a, i), verb, depth+1)
		}
		s.b.WriteString("]")
	case kMap:
		s.b.WriteString("map[")
		n := lenOf(a)
		idx := make([]int, n)
		for i := range idx {
			idx[i] = i
		}
		order(idx, func(i, j int) bool { return lessKey(keyAt(a, i), keyAt(a, j)) })
		for j, i := range idx {
			if j > 0 {
				s.b.WriteString(" ")
			}
			s.arg(keyAt(a, i), verb, depth+1)
			s.b.WriteString(":")
			s.arg(elemAt(a, i), verb, depth+1)
		}
		s.b.WriteString("]")
	case kStruct:
		s.b.WriteString("{")
		for i, n := 0, lenOf(a); i < n; i++ {
			if i > 0 {
				s.b.WriteString(" ")
			}
			if s.plus {
				s.b.WriteString(fieldName(a, i))
				s.b.WriteString(":")
			}
			s.arg(elemAt(a, i), verb, depth+1)
		}
		s.b.WriteString("}")
	case kPtr:
		if isNil(a) {
			s.pad("<nil>")
			return
		}
		if depth == 0 {
			e := elemAt(a, 0)
			switch kindOf(e) {
			case kStruct, kSlice, kMap, kArray:
				s.b.WriteString("&")
				s.arg(e, verb, depth+1)
				return
			}
		}
		s.pad("0xc000000000")
	default:
		s.pad("?" + typeName(a))
	}
}

func order(idx []int, less func(i, j int) bool) {
	for i := range idx {
		for j := i; j > 0 && less(idx[j], idx[j-1]); j-- {
			idx[j], idx[j-1] = idx[j-1], idx[j]
		}
	}
}

func lessKey(a, b any) bool {
	ka, kb := kindOf(a), kindOf(b)
	if ka != kb {
		return ka < kb
	}
	switch ka {
	case kInt:
		return intOf(a) < intOf(b)
	case kUint:
		return uint64(intOf(a)) < uint64(intOf(b))
	case kString:
		return strOf(a) < strOf(b)
	}
	panic("fmtm: ordering of map keys is not modelled")
}

func Sprintf(format string, args ...any) string {
	var b strings.Builder
	an := 0
	rs := []rune(format)
	for i := 0; i < len(rs); {
		if rs[i] != '%' {
			b.WriteRune(rs[i])
			i++
			continue
		}
		i++
		s := &state{b: &b}
	flags:
		for ; i < len(rs); i++ {
			switch rs[i] {
			case '+':
				s.plus = true
			case '-':
				s.minus = true
				s.zer = false
			case '#':
				s.sharp = true
			case ' ':
				s.space = true
			case '0':
				s.zer = !s.minus
			default:
				break flags
			}
		}
		if i < len(rs) && rs[i] == '*' {
			i++
			if an < len(args) {
				s.wid, s.widOK = int(intOf(args[an])), true
				an++
				if s.wid < 0 {
					s.wid, s.minus, s.zer = -s.wid, true, false
				}
			}
		} else {
			for i < len(rs) && rs[i] >= '0' && rs[i] <= '9' {
				s.wid, s.widOK = s.wid*10+int(rs[i]-'0'), true
				i++
			}
		}
		if i < len(rs) && rs[i] == '.' {
			i++
			s.precOK = true
			if i < len(rs) && rs[i] == '*' {
				i++
				s.prec = int(intOf(args[an]))
				an++
			}
			for i < len(rs) && rs[i] >= '0' && rs[i] <= '9' {
				s.prec = s.prec*10 + int(rs[i]-'0')
				i++
			}
		}
		if i >= len(rs) {
			b.WriteString("%!(NOVERB)")
			break
		}
		verb := rs[i]
		i++
		switch {
		case verb == '%':
			b.WriteString("%")
		case an >= len(args):
			b.WriteString("%!" + string(verb) + "(MISSING)")
		default:
			if verb == 'w' {
				verb = 'v'
			}
			s.arg(args[an], verb, 0)
			an++
		}
	}
	if an < len(args) {
		b.WriteString("%!(EXTRA ")
		for j := an; j < len(args); j++ {
			if j > an {
				b.WriteString(", ")
			}
			if kindOf(args[j]) == kNil {
				b.WriteString("<nil>")
				continue
			}
			b.WriteString(typeName(args[j]) + "=")
			s := &state{b: &b}
			s.arg(args[j], 'v', 0)
		}
		b.WriteString(")")
	}
	return b.String()
}

func Sprint(args ...any) string {
	var b strings.Builder
	prevString := true
	for i, a := range args {
		isString := kindOf(a) == kString
		if i > 0 && !isString && !prevString {
			b.WriteString(" ")
		}
		s := &state{b: &b}
		s.arg(a, 'v', 0)
		prevString = isString
	}
	return b.String()
}

type wrapError struct {
	text string
	err  error
}

func (e *wrapError) Error() string { return e.text }
func (e *wrapError) Unwrap() error { return e.err }

func Errorf(format string, args ...any) error {
	if strings.Contains(format, "%w") {
		text := Sprintf(strings.ReplaceAll(format, "%w", "%v"), args...)
		for _, a := range args {
			if e, is := a.(error); is {
				return &wrapError{text, e}
			}
		}
	}
	return errors.New(Sprintf(format, args...))
}

func Fprintf(w io.Writer, format string, args ...any) (int, error) {
	return io.WriteString(w, Sprintf(format, args...))
}

func Fprint(w io.Writer, args ...any) (int, error) {
	return io.WriteString(w, Sprint(args...))
}

// Marshal models encoding/json.Marshal.
func Marshal(v any) ([]byte, error) {
	s, err := marshal(v)
	if err != nil {
		return nil, err
	}
	return []byte(s), nil
}

const hex = "0123456789abcdef"

// quoted is the JSON form of a string, escaping HTML as Marshal does.
func quoted(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteByte(byte(r))
		case r == '\b':
			b.WriteString(`\b`)
		case r == '\f':
			b.WriteString(`\f`)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\r':
			b.WriteString(`\r`)
		case r == '\t':
			b.WriteString(`\t`)
		case r < ' ' || r == '<' || r == '>' || r == '&':
			b.WriteString(`\u00` + hex[r>>4:r>>4+1] + hex[r&15:r&15+1])
		case r == 0x2028 || r == 0x2029:
			b.WriteString(`\u202` + hex[r&15:r&15+1])
		case r == 0xfffd && s[i] != 0xef:
			b.WriteString(`\ufffd`)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// compact drops the space of what MarshalJSON returned and escapes HTML; ok
// tells whether it is valid.
func compact(in []byte) (string, bool) {
	c := &compacter{in: string(in)}
	ok := c.value()
	c.space()
	return c.b.String(), ok && c.i == len(c.in)
}

type compacter struct {
	in string
	i  int
	b  strings.Builder
}

func (c *compacter) space() {
	for c.i < len(c.in) && (c.in[c.i] == ' ' || c.in[c.i] == '\n' || c.in[c.i] == '\t' || c.in[c.i] == '\r') {
		c.i++
	}
}

func (c *compacter) is(b byte) bool {
	c.space()
	if c.i < len(c.in) && c.in[c.i] == b {
		c.b.WriteByte(b)
		c.i++
		return true
	}
	return false
}

func (c *compacter) str() bool {
	if !c.is('"') {
		return false
	}
	for c.i < len(c.in) {
		b := c.in[c.i]
		c.i++
		switch {
		case b == '"':
			c.b.WriteByte(b)
			return true
		case b == '\\':
			c.b.WriteByte(b)
			if c.i >= len(c.in) || !strings.Contains(`"\/bfnrtu`, c.in[c.i:c.i+1]) {
				return false
			}
			c.b.WriteByte(c.in[c.i])
			c.i++
		case b < ' ':
			return false
		case b == '<' || b == '>' || b == '&':
			c.b.WriteString(`\u00` + hex[b>>4:b>>4+1] + hex[b&15:b&15+1])
		default:
			c.b.WriteByte(b)
		}
	}
	return false
}

func (c *compacter) value() bool {
	switch {
	case c.is('['):
		if c.is(']') {
			return true
		}
		for c.value() {
			if c.is(']') {
				return true
			}
			if !c.is(',') {
				return false
			}
		}
		return false
	case c.is('{'):
		if c.is('}') {
			return true
		}
		for c.str() && c.is(':') && c.value() {
			if c.is('}') {
				return true
			}
			if !c.is(',') {
				return false
			}
		}
		return false
	}
	c.space()
	if c.i < len(c.in) && c.in[c.i] == '"' {
		return c.str()
	}
	for _, w := range []string{"true", "false", "null"} {
		if strings.HasPrefix(c.in[c.i:], w) {
			c.b.WriteString(w)
			c.i += len(w)
			return true
		}
	}
	start := c.i
	for c.i < len(c.in) && strings.Contains("+-.0123456789eE", c.in[c.i:c.i+1]) {
		c.b.WriteByte(c.in[c.i])
		c.i++
	}
	return c.i > start && c.in[start] != '+' && c.in[start] != '.'
}

func marshal(v any) (string, error) {
	k := kindOf(v)
	if k == kNil {
		return "null", nil
	}
	if m, is := v.(json.Marshaler); is {
		if k == kPtr && isNil(v) {
			return "null", nil
		}
		b, err := m.MarshalJSON()
		if err != nil {
			return "", errors.New("json: error calling MarshalJSON for type " + typeName(v) + ": " + err.Error())
		}
		t, ok := compact(b)
		if !ok {
			return "", errors.New("json: error calling MarshalJSON for type " + typeName(v) + ": invalid")
		}
		return t, nil
	}
	switch k {
	case kBool:
		if boolOf(v) {
			return "true", nil
		}
		return "false", nil
	case kInt:
		return strconv.FormatInt(intOf(v), 10), nil
	case kUint:
		return strconv.FormatUint(uint64(intOf(v)), 10), nil
	case kString:
		return quoted(strOf(v)), nil
	case kFloat:
		return floatStr(v), nil
	case kSlice, kArray:
		if k == kSlice && isNil(v) {
			return "null", nil
		}
		r := "["
		for i, n := 0, lenOf(v); i < n; i++ {
			if i > 0 {
				r += ","
			}
			e, err := marshal(elemAt(v, i))
			if err != nil {
				return "", err
			}
			r += e
		}
		return r + "]", nil
	case kMap:
		if isNil(v) {
			return "null", nil
		}
		n := lenOf(v)
		ks := make([]string, n)
		idx := make([]int, n)
		for i := range ks {
			kk := keyAt(v, i)
			switch kindOf(kk) {
			case kString:
				ks[i] = strOf(kk)
			case kInt:
				ks[i] = strconv.FormatInt(intOf(kk), 10)
			case kUint:
				ks[i] = strconv.FormatUint(uint64(intOf(kk)), 10)
			default:
				return "", errors.New("json: unsupported type: " + typeName(v))
			}
			idx[i] = i
		}
		order(idx, func(i, j int) bool { return ks[i] < ks[j] })
		r := "{"
		for j, i := range idx {
			if j > 0 {
				r += ","
			}
			e, err := marshal(elemAt(v, i))
			if err != nil {
				return "", err
			}
			r += quoted(ks[i]) + ":" + e
		}
		return r + "}", nil
	case kStruct:
		r := "{"
		first := true
		for i, n := 0, lenOf(v); i < n; i++ {
			f := fieldName(v, i)
			if f[0] < 'A' || f[0] > 'Z' {
				continue
			}
			if !first {
				r += ","
			}
			first = false
			e, err := marshal(elemAt(v, i))
			if err != nil {
				return "", err
			}
			r += quoted(f) + ":" + e
		}
		return r + "}", nil
	case kPtr:
		if isNil(v) {
			return "null", nil
		}
		return marshal(elemAt(v, 0))
	}
	return "", errors.New("json: unsupported type: " + typeName(v))
}
