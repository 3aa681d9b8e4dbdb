// Package symrt is the native side of package sym: it feeds a harness with the
// concrete inputs the solver chose. It is never interpreted symbolically.
package symrt

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/arr-ai/hash"
)

type UFEntry struct {
	Name string   `json:"n"`
	Args []uint64 `json:"a"`
	Res  uint64   `json:"r"`
}

type Obs struct {
	Label string `json:"l"`
	Val   uint64 `json:"v"`
	Str   string `json:"s,omitempty"`
}

type Case struct {
	Harness  string         `json:"harness"`
	Params   map[string]int `json:"params"`
	Vars     []uint64       `json:"vars"`
	UFs      []UFEntry      `json:"ufs"`
	HashBase uint64         `json:"hash_base"`
}

// Fail is the panic value of a failed assertion; Assumed of a failed assumption.
type Fail struct{ Msg string }
type Assumed struct{}

var (
	cur    Case
	pos    int
	table  map[string]uint64
	Log    []Obs
	Failed string
)

func key(name string, args []uint64) string {
	var b strings.Builder
	b.WriteString(name)
	for _, a := range args {
		fmt.Fprintf(&b, "|%x", a)
	}
	return b.String()
}

// Start installs the inputs of one case.
func Start(c Case) {
	cur, pos, Log, Failed = c, 0, nil, ""
	table = map[string]uint64{}
	for _, e := range c.UFs {
		table[key(e.Name, e.Args)] = e.Res
	}
}

// HashK and HashS mirror the engine's model of the typed hash functions.
func HashK(name string, arg uint64, seed uintptr) uintptr {
	return uintptr(Lookup("bh:k:"+name, cur.HashBase, arg, uint64(seed)))
}

func HashS(s string, seed uintptr) uintptr {
	return uintptr(Lookup("bh:s:"+s, cur.HashBase, uint64(seed)))
}

func Input() uint64 {
	if pos >= len(cur.Vars) {
		pos++
		return 0
	}
	v := cur.Vars[pos]
	pos++
	return v
}

func Param(name string) int {
	return cur.Params[name]
}

func Lookup(name string, dflt uint64, args ...uint64) uint64 {
	if v, ok := table[key(name, args)]; ok {
		return v
	}
	return dflt
}

func HashBase() uint64 { return cur.HashBase }

// Any mirrors the engine's model of hash.Any for values that are not Hashable.
func Any(i any, seed uintptr) (uintptr, bool) {
	if _, is := i.(hash.Hashable); is {
		return 0, false
	}
	if i == nil {
		return 0, false // the real function panics
	}
	v := reflect.ValueOf(i)
	return plain(v, seed), true
}

func typeName(t reflect.Type) string {
	if t.PkgPath() != "" && !strings.Contains(t.Name(), "[") {
		return t.PkgPath() + "." + t.Name()
	}
	return t.String()
}

func plain(v reflect.Value, seed uintptr) uintptr {
	t := v.Type()
	bh := func(name string, args ...uint64) uintptr {
		return uintptr(Lookup("bh:"+name, cur.HashBase, append(args, uint64(seed))...))
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return bh("k:"+typeName(t), uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return bh("k:"+typeName(t), v.Uint())
	case reflect.Bool:
		b := uint64(0)
		if v.Bool() {
			b = 1
		}
		return bh("k:"+typeName(t), b)
	case reflect.String:
		return bh("s:" + v.String())
	case reflect.Float32, reflect.Float64:
		return bh(fmt.Sprintf("f:%g", v.Float()+0)) // -0 is 0
	case reflect.Struct:
		h := bh("t:" + typeName(t))
		for i := 0; i < v.NumField(); i++ {
			h = field(v.Field(i), h)
		}
		return h
	case reflect.Array:
		h := bh("t:" + typeName(t))
		for i := 0; i < v.Len(); i++ {
			h = field(v.Index(i), h)
		}
		return h
	}
	panic("unhashable type " + t.String())
}

func field(v reflect.Value, h uintptr) uintptr {
	if v.Kind() == reflect.Interface {
		v = v.Elem()
		if !v.IsValid() {
			panic("nil is not hashable")
		}
	}
	if v.CanInterface() {
		if k, is := v.Interface().(hash.Hashable); is {
			return k.Hash(h)
		}
	}
	return plain(v, h)
}
