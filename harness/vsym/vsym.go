// Package vsym is the harness interface of the symbolic checker. The checker
// intercepts these functions; compiled natively they read the concrete values
// of a counterexample from the file named by VSYM_INPUT.
package vsym

import (
	"encoding/json"
	"fmt"
	"os"
	"time"
)

type entry struct {
	N string `json:"n"`
	V uint64 `json:"v"`
}

type input struct {
	Params map[string]int `json:"params"`
	Vals   []entry        `json:"vals"`
}

var in *input
var pos int
var registry = map[string]func(){}

func load() {
	if in != nil {
		return
	}
	in = &input{}
	f := os.Getenv("VSYM_INPUT")
	if f == "" {
		return
	}
	b, err := os.ReadFile(f)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, in); err != nil {
		panic(err)
	}
}

func next(name string) uint64 {
	load()
	for pos < len(in.Vals) && env(in.Vals[pos].N) {
		pos++
	}
	if pos >= len(in.Vals) {
		return 0
	}
	e := in.Vals[pos]
	pos++
	if e.N != name {
		fmt.Printf("VSYM-MISMATCH want %s have %s\n", name, e.N)
		os.Exit(44)
	}
	if os.Getenv("VSYM_TRACE") != "" {
		fmt.Printf("  %s = %d\n", name, int64(e.V))
	}
	return e.V
}

// Register makes a harness known to the native replayer.
func Register(name string, f func()) { registry[name] = f }

// Lookup finds a registered harness.
func Lookup(name string) func() { return registry[name] }

// P is a concrete job parameter.
func P(name string, def int) int {
	load()
	if v, ok := in.Params[name]; ok {
		return v
	}
	return def
}

// Int is an arbitrary value in [lo,hi] (lo>=0).
func Int(name string, lo, hi int) int {
	v := int(next(name))
	if v < lo || v > hi {
		return lo
	}
	return v
}

// Choose is an arbitrary value in [0,n), case split immediately.
func Choose(name string, n int) int { return Int(name, 0, n-1) }

func Bool(name string) bool     { return next(name)&1 == 1 }
func Byte(name string) byte     { return byte(next(name)) }
func Uint16(name string) uint16 { return uint16(next(name)) }
func Uint32(name string) uint32 { return uint32(next(name)) }
func Uint64(name string) uint64 { return next(name) }

// Conc case splits on x.
func Conc(x int) int { return x }

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		fmt.Println("VSYM-ASSUME-FAIL")
		os.Exit(43)
	}
}

// Assert states the property.
func Assert(b bool, msg string) {
	if !b {
		fmt.Println("VSYM-ASSERT-FAIL", msg)
		os.Exit(42)
	}
}

// Fail is Assert(false, msg).
func Fail(msg string) { Assert(false, msg) }

// Branch-free connectives.
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func IteB(c bool, a, b bool) bool {
	if c {
		return a
	}
	return b
}
func B2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Reach marks a program point that must be reachable (vacuity guard).
func Reach(tag string) {}

// Merge runs f and joins the resulting paths into one state.
func Merge(f func()) { f() }

// Symbolic tells whether the checker is running the code.
func Symbolic() bool { return false }

// Trace prints in native replays.
func Trace(msg string) {
	if os.Getenv("VSYM_TRACE") != "" {
		fmt.Println("  #", msg)
	}
}

// Done is called by the native replayer after the harness returned.
func Done() { fmt.Println("VSYM-DONE") }

// Settle waits until no other goroutine can proceed.
func Settle() { time.Sleep(300 * time.Millisecond) }

// Known excludes inputs on which a finding listed in known_findings.txt is
// open (no effect when it is not listed).
func Known(id string, cond bool) {}

func env(n string) bool { return n == "sched" || n == "rand" || n == "expired" }
