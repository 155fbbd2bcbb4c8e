// Package sym is the interface between harnesses and the symbolic engine. The engine intercepts
// every exported function here; this file is the native counterpart used when a solver model is
// replayed against the real build.
package sym

import (
	"crypto/rand"
	"encoding/hex"
	"fmt"
	"os"
	"strconv"
)

type Failure struct{ Msg, Known string }
type AssumeFailed struct{}

var (
	Model   map[string]uint64
	Choices map[string]uint64
	Obs     map[string]string
	Knowns  []string
	counters map[string]int
	randCtr int
	randConc bool
)

type rd struct{}

func (rd) Read(b []byte) (int, error) {
	for i := range b {
		k := randCtr
		randCtr++
		if randConc {
			b[i] = RandByte(k)
		} else {
			b[i] = byte(Model[fmt.Sprintf("rand#%d", k)])
		}
	}
	return len(b), nil
}

// RandByte mirrors the engine's concrete stream.
func RandByte(k int) byte {
	x := uint64(k)*0x9E3779B97F4A7C15 + 0x1234567
	x ^= x >> 31
	x *= 0xBF58476D1CE4E5B9
	return byte(x >> 33)
}

// Reset prepares a native run.
func Reset(model, choices map[string]uint64) {
	Model, Choices = model, choices
	Obs = map[string]string{}
	Knowns = nil
	counters = map[string]int{}
	randCtr = 0
	randConc = false
	rand.Reader = rd{}
}

func uniq(name string) string {
	counters[name]++
	if n := counters[name]; n > 1 {
		return name + "#" + strconv.Itoa(n)
	}
	return name
}

func Bytes(name string, n int) []byte {
	name = uniq(name)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(Model[fmt.Sprintf("%s[%d]", name, i)])
	}
	return b
}

func String(name string, n int) string { return string(Bytes(name, n)) }
func Byte(name string) byte            { return byte(Model[uniq(name)]) }
func Uint16(name string) uint16        { return uint16(Model[uniq(name)]) }
func Uint32(name string) uint32        { return uint32(Model[uniq(name)]) }
func Bool(name string) bool            { return Model[uniq(name)] != 0 }

func Int(name string, lo, hi int) int {
	name = uniq(name)
	if lo == hi {
		return lo
	}
	v := int(int64(Model[name]))
	if v < lo || v > hi {
		panic(AssumeFailed{})
	}
	return v
}

func Choice(name string, n int) int { return int(Choices[uniq(name)]) }

func Assume(c bool) {
	if !c {
		panic(AssumeFailed{})
	}
}

func Assert(c bool, msg string) {
	if !c {
		panic(Failure{Msg: msg})
	}
}

// AssertKF asserts c; inputs for which known holds belong to the recorded finding id.
func AssertKF(c, known bool, id, msg string) {
	if !c {
		if known {
			panic(Failure{Msg: msg, Known: id})
		}
		panic(Failure{Msg: msg})
	}
}

func Fail(msg string) { panic(Failure{Msg: msg}) }

func EqB(a, b []byte) bool { return string(a) == string(b) }
func EqS(a, b string) bool { return a == b }

func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}

func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}

func Not(c bool) bool        { return !c }
func Implies(a, b bool) bool { return !a || b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func IteByte(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}
func Reach(label string)    {}
func Bound(text string)     {}
func Thorough() bool        { return os.Getenv("VERIF_TIER") == "thorough" }
func MapOrders(maxLen int)  {}
func RandConcrete()         { randConc = true }
func Concrete(n int) int    { return n }

// Symbolic reports whether the engine sees b as depending on inputs; false in replays. Only for
// assumptions that keep text searches over cipher text concrete.
func Symbolic(b byte) bool { return false }

func Observe(name string, v any) {
	name = uniq("obs:" + name)
	switch x := v.(type) {
	case []byte:
		Obs[name] = hex.EncodeToString(x)
	case string:
		Obs[name] = hex.EncodeToString([]byte(x))
	case bool:
		if x {
			Obs[name] = "1"
		} else {
			Obs[name] = "0"
		}
	case int:
		Obs[name] = strconv.FormatUint(uint64(int64(x)), 10)
	case int64:
		Obs[name] = strconv.FormatUint(uint64(x), 10)
	case byte:
		Obs[name] = strconv.Itoa(int(x))
	case uint16:
		Obs[name] = strconv.Itoa(int(x))
	case uint32:
		Obs[name] = strconv.FormatUint(uint64(x), 10)
	default:
		Obs[name] = "?"
	}
}
