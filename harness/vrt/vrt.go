// Package vrt is the harness runtime. The symbolic engine intercepts every
// function marked "engine"; the bodies here are the native meaning used when a
// solver assignment is replayed against the compiled repository code.
package vrt

import (
	"crypto/rand"
	"encoding/json"
	"fmt"
	"math"
	mrand "math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"
)

type input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Bits uint64 `json:"bits"`
}

type trace struct {
	ID     string  `json:"assertion"`
	Orders bool    `json:"map_order"`
	Kind   string  `json:"kind"`
	Inputs []input `json:"inputs"`
}

var (
	mu      sync.Mutex
	tr      trace
	pos     int
	stress  atomic.Bool
	virtual bool
	failed  atomic.Bool
)

type tooFew struct{}
type assumeFailed struct{}

func next(kind string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	for pos < len(tr.Inputs) && tr.Inputs[pos].Kind == "rand" {
		pos++
	}
	if pos >= len(tr.Inputs) {
		panic(tooFew{})
	}
	v := tr.Inputs[pos]
	pos++
	if v.Kind != kind {
		panic(fmt.Sprintf("trace kind %s, want %s", v.Kind, kind))
	}
	return v.Bits
}

// Float64 is an arbitrary float64 (engine).
func Float64(name string) float64 { return math.Float64frombits(next("f64")) }

// Int is an arbitrary int in [lo,hi] (engine).
func Int(name string, lo, hi int) int { return int(next("i64")) }

// Uint64 is an arbitrary word (engine).
func Uint64(name string) uint64 { return next("i64") }

// Bool is an arbitrary bool (engine).
func Bool(name string) bool { return next("bool") == 1 }

// Str is an arbitrary one of alts, as a solver variable (engine).
func Str(name string, alts ...string) string { return alts[int(next("i64"))] }

// Choose is an arbitrary choice among n alternatives (engine, forks).
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(next("choose"))
}

// Assume restricts the inputs (engine).
func Assume(b bool) {
	if !b {
		panic(assumeFailed{})
	}
}

// Assert states the property (engine).
func Assert(b bool, id string) {
	if !b {
		failed.Store(true)
		fmt.Println("VRT-ASSERT-FAILED " + id)
		if !stress.Load() {
			os.Exit(3)
		}
	}
}

// Reach is a reachability witness (engine).
func Reach(id string) {}

// Tier is 0 for quick, 1 for thorough (engine).
func Tier() int { return 0 }

// Symbolic reports whether the symbolic engine is running (engine).
func Symbolic() bool { return false }

// Preempt enables schedule exploration with at most n preemptions (engine).
func Preempt(n int) {}

// MaxDraws bounds the random reads from here on; executions drawing more are outside the
// stated bound of the harness (engine).
func MaxDraws(n int) {}

// CutCall ends the exploration of executions that call the named function (by
// the end of its full name): what follows is outside the harness (engine).
func CutCall(name string) {}

// Draws is the number of random reads so far (engine).
func Draws() int { return 0 }

// Merge joins the arms of side-effect-free branches into one path (engine).
func Merge() {}

// SchedFork explores every choice of the next runnable goroutine (engine).
func SchedFork(b bool) {}

// MapOrder explores every map iteration order (engine).
func MapOrder(b bool) {}

// Unwind bounds loop iterations (engine).
func Unwind(n int) {}

// MaxTimers bounds virtual-time events (engine).
func MaxTimers(n int) {}

// MaxSteps bounds executed instructions (engine).
func MaxSteps(n int) {}

// HangIsViolation makes hitting a loop bound a termination violation (engine).
func HangIsViolation() {}

// Advance lets d of (virtual) time pass (engine).
func Advance(d time.Duration) { time.Sleep(d) }

// And, Or, Implies, Iff, IteF, IteI combine without forking (engine).
func And(b ...bool) bool {
	for _, x := range b {
		if !x {
			return false
		}
	}
	return true
}
func Or(b ...bool) bool {
	for _, x := range b {
		if x {
			return true
		}
	}
	return false
}
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func IteF(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}
func IteI(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// IsFinite: neither NaN nor infinite (engine).
func IsFinite(f float64) bool { return !math.IsNaN(f) && !math.IsInf(f, 0) }

// SameF: identical floats (NaN equals NaN, zeros distinguished) (engine).
func SameF(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || (a != a && b != b)
}

// Blocked is the number of unfinished goroutines besides the caller (engine).
func Blocked() int { return runtime.NumGoroutine() - baseline }

// Settle lets other goroutines run until they block (engine).
func Settle() {
	for i := 0; i < 200; i++ {
		runtime.Gosched()
	}
	time.Sleep(time.Microsecond)
}

// Print is a debugging aid (engine).
func Print(a ...any) {}

var baseline int

type fixedReader struct{ s uint64 }

func (r *fixedReader) Read(b []byte) (int, error) {
	mu.Lock()
	defer mu.Unlock()
	for i := range b {
		r.s = r.s*6364136223846793005 + 1442695040888963407
		b[i] = byte(r.s >> 33)
	}
	return len(b), nil
}

type traceReader struct{ bytes []byte }

func (r *traceReader) Read(b []byte) (int, error) {
	mu.Lock()
	defer mu.Unlock()
	for i := range b {
		if len(r.bytes) > 0 {
			b[i] = r.bytes[0]
			r.bytes = r.bytes[1:]
		} else {
			b[i] = 0
		}
	}
	return len(b), nil
}

// FixedRand replaces the system random source by a fixed stream (engine).
func FixedRand(seed int) { rand.Reader = &fixedReader{uint64(seed)} }

var replayRand = rand.Reader

// FreeRand makes random draws arbitrary again after FixedRand (engine).
func FreeRand() { rand.Reader = replayRand }

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case tooFew, assumeFailed:
				panic(r)
			}
			p = true
		}
	}()
	f()
	return false
}

// Y is a yield point woven into the repository's code for stress replays.
func Y() {
	if !stress.Load() {
		return
	}
	switch mrand.Intn(8) {
	case 0:
		runtime.Gosched()
	case 1:
		for i := mrand.Intn(200); i > 0; i-- {
			_ = i
		}
	case 2:
		if mrand.Intn(12) == 0 {
			time.Sleep(time.Duration(mrand.Intn(20)) * time.Microsecond)
		}
	}
}

// H is a yield point at a preemption position of the counterexample.
func H() {
	if !stress.Load() {
		return
	}
	switch mrand.Intn(3) {
	case 0:
		time.Sleep(time.Duration(mrand.Intn(300)) * time.Microsecond)
	case 1:
		runtime.Gosched()
	}
}

// TB is the part of testing.TB the replay needs.
type TB interface {
	Errorf(format string, a ...any)
	Log(a ...any)
}

// RunReplay feeds a solver assignment to a harness.
func RunReplay(t TB, file string, doStress bool, h func(), bubble func(func())) {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &tr); err != nil {
		panic(err)
	}
	one := func() {
		pos = 0
		var rb []byte
		for _, in := range tr.Inputs {
			if in.Kind == "rand" {
				rb = append(rb, byte(in.Bits))
			}
		}
		rand.Reader = &traceReader{rb}
		replayRand = rand.Reader
		baseline = runtime.NumGoroutine()
		defer func() {
			if r := recover(); r != nil {
				switch r.(type) {
				case tooFew:
					fmt.Println("VRT-TRACE-EXHAUSTED")
				case assumeFailed:
					fmt.Println("VRT-ASSUME-FAILED")
				default:
					fmt.Println("VRT-PANIC", r)
					fmt.Println(string(debug.Stack()))
					failed.Store(true)
				}
			}
		}()
		h()
	}
	if !doStress {
		if tr.Kind == "hang" || tr.Kind == "deadlock" {
			done := make(chan struct{})
			go func() { one(); close(done) }()
			select {
			case <-done:
			case <-time.After(20 * time.Second):
				fmt.Println("VRT-HANG")
				os.Exit(3)
			}
			return
		}
		n := 1
		if tr.Orders {
			n = 3000 // the counterexample needs a particular map iteration order
		}
		for ; n > 0 && !failed.Load(); n-- {
			bubble(one)
		}
		return
	}
	stress.Store(true)
	end := time.Now().Add(60 * time.Second)
	n := 0
	for time.Now().Before(end) && !failed.Load() {
		n++
		if tr.Kind == "deadlock" || tr.Kind == "hang" {
			done := make(chan struct{})
			go func() { one(); close(done) }()
			select {
			case <-done:
			case <-time.After(5 * time.Second):
				fmt.Println("VRT-HANG")
				os.Exit(3)
			}
			continue
		}
		one()
	}
	if failed.Load() {
		fmt.Println("VRT-REPRODUCED after", n, "native runs")
		t.Errorf("reproduced")
	}
}
