// Package vs is what harnesses use to ask for arbitrary values and to state properties.
// The solver-based engine intercepts these functions; this is their meaning when a harness
// is compiled and run natively on the values of one case.
package vs

import (
	"fmt"
	"strings"
)

// Case holds the values of one case and what happened when it ran.
type Case struct {
	Vals []uint64
	pos  int
	Obs  []string
	Tier bool
}

// Cur is the case being run.
var Cur *Case

// Failure is the panic value of a failed assertion.
type Failure struct{ Msg string }

// Assumed is the panic value of a case outside the assumptions.
type Assumed struct{}

func next() uint64 {
	c := Cur
	if c.pos >= len(c.Vals) {
		return 0
	}
	v := c.Vals[c.pos]
	c.pos++
	return v
}

// Byte is an arbitrary byte.
func Byte() byte { return byte(next()) }

// ByteIn is an arbitrary byte of set.
func ByteIn(set string) byte {
	b := byte(next())
	if strings.IndexByte(set, b) < 0 {
		panic(Assumed{})
	}
	return b
}

// Bytes is an arbitrary string of n bytes.
func Bytes(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte()
	}
	return string(b)
}

// StrIn is an arbitrary string of n bytes of set.
func StrIn(n int, set string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = ByteIn(set)
	}
	return string(b)
}

// Bool is an arbitrary boolean.
func Bool() bool { return next() != 0 }

// Int is an arbitrary integer from lo to hi.
func Int(lo, hi int) int {
	v := int(next())
	if v < lo || v > hi {
		panic(Assumed{})
	}
	return v
}

// Choose is an arbitrary integer from 0 to n-1; the engine explores each on a path of its own.
func Choose(n int) int {
	v := int(next())
	if v < 0 || v >= n {
		panic(Assumed{})
	}
	return v
}

// Concrete splits the exploration on the value of n.
func Concrete(n int) int { return n }

// Assume restricts the values considered.
func Assume(c bool) {
	if !c {
		panic(Assumed{})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		panic(Failure{msg})
	}
}

// Reach marks a point that some path has to reach.
func Reach(tag string) {}

// Observe records a value to compare between the engine and the compiled code.
func Observe(label string, v any) {
	switch x := v.(type) {
	case string:
		Cur.Obs = append(Cur.Obs, fmt.Sprintf("%s=%q", label, []byte(x)))
	default:
		Cur.Obs = append(Cur.Obs, fmt.Sprintf("%s=%v", label, x))
	}
}

// MapOrder makes the iteration order of maps in the module's code arbitrary.
func MapOrder(on bool) {}

// Long lets the path take a hundred times as many steps as others.
func Long() {}

// Thorough tells whether the thorough bounds apply.
func Thorough() bool { return Cur.Tier }

// Native tells whether the harness runs natively.
func Native() bool { return true }

// And, Or, Implies, In and Eq are logic without control flow.
func And(a, b bool) bool         { return a && b }
func Or(a, b bool) bool          { return a || b }
func Implies(a, b bool) bool     { return !a || b }
func In(b byte, set string) bool { return strings.IndexByte(set, b) >= 0 }
func Eq(a, b string) bool        { return a == b }
