// Package vr is the harness runtime. Under the symbolic engine every function
// here is intercepted; natively it replays one concrete assignment.
package vr

import (
	"fmt"
	"reflect"
	"runtime"
	"strconv"
	"sync"
	"time"
	"unsafe"
)

// Run holds the concrete assignment and the outcome of a native run.
type Run struct {
	Vals    map[string]uint64
	Fails   []string
	Obs     []string
	Reached []string
	Bad     string // assumption failure etc.
}

var Cur *Run

type assumeFail struct{}

func val(name string, lo uint64) uint64 {
	if v, ok := Cur.Vals[name]; ok {
		return v
	}
	return lo
}

// Uint returns an arbitrary value in [lo,hi].
func Uint(name string, lo, hi uint64) uint64 { return val(name, lo) }

// Int returns an arbitrary value in [lo,hi], lo >= 0.
func Int(name string, lo, hi int) int { return int(val(name, uint64(lo))) }

// Byte returns an arbitrary byte in [lo,hi].
func Byte(name string, lo, hi byte) byte { return byte(val(name, uint64(lo))) }

// Bool returns an arbitrary bool.
func Bool(name string) bool { return val(name, 0) == 1 }

// Choice returns an arbitrary value in [0,n); the engine forks on it.
func Choice(name string, n int) int { return int(val(name, 0)) }

// Str returns a string of n arbitrary bytes each in [lo,hi].
func Str(name string, n int, lo, hi byte) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(val(name+"."+strconv.Itoa(i), uint64(lo)))
	}
	return string(b)
}

// Lit returns the decimal source literal for x; under the engine the literal
// stands for the symbolic value x wherever CUE parses it.
func Lit(x int) string { return strconv.Itoa(x) }

// LitStr returns a quoted CUE/JSON literal for s (same, for strings).
func LitStr(s string) string { return strconv.Quote(s) }

func Assume(b bool) {
	if !b {
		panic(assumeFail{})
	}
}

func Assert(b bool, msg string) {
	if !b {
		Cur.Fails = append(Cur.Fails, msg)
	}
}

// Reach marks a point that must be reachable (vacuity guard).
func Reach(label string) { Cur.Reached = append(Cur.Reached, label) }

// Observe records a value (string, int, bool, uint) for engine/native comparison.
func Observe(label string, v any) {
	Cur.Obs = append(Cur.Obs, label+"="+fmt.Sprintf("%v", v))
}

// Symbolic reports whether the engine is running this.
func Symbolic() bool { return false }

// Call runs f, reporting whether it panicked.
func Call(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(assumeFail); ok {
				panic(r)
			}
			panicked = true
			notePanic(r)
		}
	}()
	f()
	return false
}

func notePanic(r any) { PanicMsg = fmt.Sprint(r) }

// Bound returns a tier-dependent bound.
func Bound(quick, thorough int) int {
	if Tier == "thorough" {
		return thorough
	}
	return quick
}

// Tier is set by the native runner.
var Tier = "quick"

// Concrete makes the engine enumerate x's feasible values.
func Concrete(x int) int { return x }

// Contend keeps asking for p's RWMutex as a writer until Calm, as concurrent
// users would. Under the engine it makes taking a read lock again while holding
// it a deadlock, which is what a waiting writer makes of it.
func Contend(p any) {
	v := reflect.ValueOf(p).Elem()
	var mu *sync.RWMutex
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == reflect.TypeOf(sync.RWMutex{}) {
			mu = (*sync.RWMutex)(unsafe.Pointer(v.Field(i).UnsafeAddr()))
		}
	}
	if mu == nil {
		return
	}
	quit, gone := make(chan struct{}), make(chan struct{})
	go func() {
		defer close(gone)
		for {
			select {
			case <-quit:
				return
			default:
				mu.Lock()
				mu.Unlock()
				runtime.Gosched()
			}
		}
	}()
	calm = func() { close(quit); <-gone }
}

var calm func()

// Repeat runs f once under the engine, and natively often enough for a
// contending writer to be met.
func Repeat(f func()) {
	f()
	if Symbolic() {
		return
	}
	for t := time.Now(); time.Since(t) < 150*time.Millisecond; {
		f()
	}
}

// Calm ends Contend.
func Calm() {
	if calm != nil {
		calm()
		calm = nil
	}
}

// PanicMsg is the text of the last panic caught by Call (native only).
var PanicMsg string

// Do runs a harness natively.
func Do(h func(), vals map[string]uint64) (r *Run) {
	r = &Run{Vals: vals}
	Cur = r
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(assumeFail); ok {
				r.Bad = "assumption not met"
				return
			}
			r.Fails = append(r.Fails, "panic")
			r.Obs = append(r.Obs, "panic="+fmt.Sprint(x))
		}
	}()
	h()
	return r
}
