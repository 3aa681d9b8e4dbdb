// Package sym is the harness interface to the symbolic engine. The engine
// intercepts every function here; the bodies serve native replay.
package sym

import "github.com/arr-ai/frozen/internal/zzverif/symrt"

// RuntimeError stands for runtime.Error inside the engine.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}

var _ error = RuntimeError("")

func Uint64(label string) uint64 { return symrt.Input() }
func Int64(label string) int64   { return int64(symrt.Input()) }
func Int(label string) int       { return int(symrt.Input()) }
func Uint(label string) uint     { return uint(symrt.Input()) }
func Uint32(label string) uint32 { return uint32(symrt.Input()) }
func Int32(label string) int32   { return int32(symrt.Input()) }
func Uint16(label string) uint16 { return uint16(symrt.Input()) }
func Int16(label string) int16   { return int16(symrt.Input()) }
func Uint8(label string) uint8   { return uint8(symrt.Input()) }
func Int8(label string) int8     { return int8(symrt.Input()) }
func Bool(label string) bool     { return symrt.Input()&1 == 1 }

// Choose returns a value in [0,n), exploring each.
func Choose(label string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(symrt.Input())
}

func Param(name string) int { return symrt.Param(name) }

func Assume(b bool) {
	if !b {
		panic(symrt.Assumed{})
	}
}

func Assert(b bool, msg string) {
	if !b {
		symrt.Failed = msg
		panic(symrt.Fail{Msg: msg})
	}
}

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Not(a bool) bool        { return !a }
func Iff(a, b bool) bool     { return a == b }
func Implies(a, b bool) bool { return !a || b }

func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func Ite64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

func IteBool(c, a, b bool) bool {
	if c {
		return a
	}
	return b
}

func B2I(b bool) int {
	if b {
		return 1
	}
	return 0
}

func UF(name string, args ...uint64) uint64 { return symrt.Lookup("uf:"+name, 0, args...) }

func UFBool(name string, args ...uint64) bool {
	return symrt.Lookup("uf:"+name, 0, args...) == 1
}

func UFSmall(name string, mask uint64, args ...uint64) uint64 {
	return symrt.Lookup("uf:"+name, 0, args...)
}

func Hash(name string, args ...uint64) uint64 {
	return symrt.Lookup("hash:"+name, symrt.HashBase(), args...)
}

func Observe(label string, v uint64) {
	symrt.Log = append(symrt.Log, symrt.Obs{Label: label, Val: v})
}

func ObserveStr(label, s string) {
	symrt.Log = append(symrt.Log, symrt.Obs{Label: label, Str: s})
}

func Reach(label string) {}

// IsConcrete says whether b is a constant in the engine (always true natively).
func IsConcrete(b uint64) bool { return true }
