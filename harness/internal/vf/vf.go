// Package vf is the harness interface of the symbolic engine. It is compiled
// into the repository through an overlay. Under the engine the functions of
// this file are replaced by intrinsics that introduce solver variables; under
// "go test" they read the values of a counterexample, so that a counterexample
// is replayed on the real code.
package vf

import (
	"encoding/hex"
	"fmt"
)

// Model holds the values of the named inputs in a native replay.
var Model map[string]uint64

type Outcome struct {
	Harness string   `json:"harness"`
	Asserts []string `json:"asserts"`
	Panic   string   `json:"panic"`
	Assume  string   `json:"assume"`
	Obs     []string `json:"obs"`
}

type AssumeFailed struct{ Msg string }

var cur *Outcome
var counts map[string]int

func key(name string) string {
	n := counts[name]
	counts[name] = n + 1
	if n > 0 {
		return fmt.Sprintf("%s#%d", name, n)
	}
	return name
}

func Bool(name string) bool  { return Model[key(name)]&1 != 0 }
func U8(name string) uint8   { return uint8(Model[key(name)]) }
func U16(name string) uint16 { return uint16(Model[key(name)]) }
func U32(name string) uint32 { return uint32(Model[key(name)]) }
func U64(name string) uint64 { return Model[key(name)] }
func I32(name string) int32  { return int32(Model[key(name)]) }
func I64(name string) int64  { return int64(Model[key(name)]) }

// Int is an arbitrary integer in [lo, hi].
func Int(name string, lo, hi int) int {
	v := int(int64(Model[key(name)]))
	Assume(v >= lo && v <= hi)
	return v
}

// Choice is an arbitrary integer in [0, n), decided by forking.
func Choice(name string, n int) int {
	v := int(int64(Model[key(name)]))
	Assume(v >= 0 && v < n)
	return v
}

// Bytes are n arbitrary bytes.
func Bytes(name string, n int) []byte {
	k := key(name)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(Model[fmt.Sprintf("%s[%d]", k, i)])
	}
	return b
}

// Concrete forks over the values of x.
func Concrete(x int) int { return x }

func Assume(ok bool) {
	if !ok {
		panic(AssumeFailed{})
	}
}

func Assert(ok bool, msg string) {
	if !ok {
		cur.Asserts = append(cur.Asserts, msg)
	}
}

// And, Or and Ite do not fork.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
func Ite(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

// Cover marks a situation that must be reachable for the check to mean anything.
func Cover(label string) {}

// MapNondet makes the engine explore every iteration order of small maps.
func MapNondet(on bool) {}

// TierLevel is 0 for the quick tier and 1 for the thorough tier.
var TierLevel int

func Tier() int { return TierLevel }

// Symbolic reports whether the engine executes the harness.
func Symbolic() bool { return false }

func ObsInt(label string, v int)   { cur.Obs = append(cur.Obs, fmt.Sprintf("%s=%d", label, v)) }
func ObsBool(label string, v bool) { cur.Obs = append(cur.Obs, fmt.Sprintf("%s=%v", label, v)) }
func ObsBytes(label string, v []byte) {
	cur.Obs = append(cur.Obs, label+"="+hex.EncodeToString(v))
}
func ObsErr(label string, err error) {
	cur.Obs = append(cur.Obs, fmt.Sprintf("%s=%v", label, err != nil))
}

// Run executes one harness natively under a model.
func Run(name string, f func(), model map[string]uint64) (o *Outcome) {
	o = &Outcome{Harness: name, Asserts: []string{}, Obs: []string{}}
	cur = o
	Model = model
	counts = map[string]int{}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(AssumeFailed); ok {
				o.Assume = "assumption does not hold natively"
				return
			}
			o.Panic = fmt.Sprint(r)
		}
	}()
	f()
	return
}
