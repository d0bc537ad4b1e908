package main

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value

var intrinsics map[string]intrinsic

const modPath = "github.com/carlisia/bio-adapt"

var vrtPath = modPath + "/internal/zzverif/vrt"

// packages whose code is never interpreted
var blockedPkgs = map[string]bool{"runtime": true, "os": true, "syscall": true, "reflect": true, "internal/reflectlite": true, "internal/poll": true, "unsafe": true, "internal/abi": true, "fmt": true, "crypto/rand": true, "math/rand": true, "math/rand/v2": true, "sync": true, "sync/atomic": false, "internal/sync": true, "internal/runtime/atomic": true, "log": true, "os/signal": true, "bufio": true}

// packages whose initialisers are skipped (globals stay zero)
var noInit = map[string]bool{"time": true, "internal/godebug": true, "unicode": true, "internal/cpu": true, "internal/bytealg": true, "strconv": false, "math/big": true, "internal/testlog": true, "math": true}

func tm(v Value) *Term { return v.(*Term) }

func (m *Machine) tup(vs ...Value) Tuple { return Tuple(vs) }

func (m *Machine) typeOf(pkg, name string) types.Type {
	p := m.prog.ImportedPackage(pkg)
	if p == nil {
		return nil
	}
	t := p.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

// newError builds an *errors.errorString (or wrapping fmt error).
func (m *Machine) newError(msg Str, wrapped *Iface) Value {
	if wrapped != nil {
		if t := m.typeOf("fmt", "wrapError"); t != nil {
			p := new(Value)
			*p = Struct{msg, *wrapped}
			return Iface{types.NewPointer(t), p}
		}
	}
	if t := m.typeOf("errors", "errorString"); t != nil {
		p := new(Value)
		*p = Struct{msg}
		return Iface{types.NewPointer(t), p}
	}
	m.unsupported("no errors package")
	return nil
}

// nativeArg converts a concrete value for fmt; ok=false if symbolic.
func (m *Machine) nativeArg(fr *Frame, v Value, t types.Type) (any, bool) {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return nil, true
		}
		// Stringer / error
		if types.Implements(x.t, errIface) {
			r, ok := m.callMethod(fr, x, "Error")
			if s, is := r.(Str); ok && is && s.op == 0 {
				return s.s, true
			}
			return nil, false
		}
		if hasStringMethod(x.t) {
			if x.t.String() == "time.Duration" {
				tt := x.v.(*Term)
				if !tt.isConst() {
					return nil, false
				}
				return time.Duration(int64(tt.k)), true
			}
			r, ok := m.callMethod(fr, x, "String")
			if s, is := r.(Str); ok && is && s.op == 0 {
				return s.s, true
			}
			return nil, false
		}
		return m.nativeArg(fr, x.v, x.t)
	case *Term:
		if !x.isConst() {
			return nil, false
		}
		switch x.sort {
		case SBool:
			return x.k == 1, true
		case SFP:
			return x.f64(), true
		case SFP32:
			return math.Float32frombits(uint32(x.k)), true
		}
		if t != nil {
			if _, signed, ok := intWidth(t); ok && signed {
				return sext(x.k, x.sort), true
			}
			if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return uint8(x.k), true
			}
		}
		return x.k, true
	case Str:
		if x.op != 0 {
			return nil, false
		}
		return x.s, true
	}
	return nil, false
}

var errIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func hasStringMethod(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "String" {
			return true
		}
	}
	return false
}

func (m *Machine) sprintf(fr *Frame, format Str, args []Value) Str {
	if format.op != 0 {
		return m.opaque()
	}
	var na []any
	for _, a := range args {
		v, ok := m.nativeArg(fr, a, nil)
		if !ok {
			return m.opaque()
		}
		na = append(na, v)
	}
	return Str{s: fmt.Sprintf(strings.ReplaceAll(format.s, "%w", "%v"), na...)}
}

func floatFn(name string) intrinsic {
	return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		ts := make([]*Term, len(a))
		for i := range a {
			ts[i] = tm(a[i])
		}
		return m.c.Fun(name, ts...)
	}
}

func (m *Machine) lock(p *Value) *lockState {
	l := m.locks[p]
	if l == nil {
		l = &lockState{owner: -1}
		m.locks[p] = l
	}
	return l
}
func ptr(m *Machine, v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		m.unsupported(fmt.Sprintf("pointer expected, got %T", v))
	}
	if p == nil {
		m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	return p
}

func (m *Machine) atomicRMW(p *Value, f func(old Value) (Value, Value)) Value {
	m.schedPoint("atomic")
	nv, r := f(*p)
	*p = nv
	return r
}

type syncMap struct{ m *MapV }

func (m *Machine) syncMap(p *Value) *MapV {
	if s, ok := m.side[p].(*MapV); ok {
		return s
	}
	s := newMap()
	m.side[p] = s
	return s
}

func (m *Machine) nowTime() Value {
	// wall: hasMonotonic | seconds since 1885 <<30 | nsec ; ext: monotonic ns
	const hasMono = uint64(1) << 63
	base := uint64(3629059200) // 2000-01-01 relative to 1885
	var wall *Term
	c := m.c
	if m.clock.isConst() {
		ns := m.clock.k
		wall = c.BV(hasMono|(base+ns/1e9)<<30|(ns%1e9), 64)
	} else {
		wall = c.BV(hasMono|base<<30, 64)
	}
	return Struct{wall, c.BvBin(OBvAdd, m.clock, c.Int(1)), (*Value)(nil)}
}

func (m *Machine) fixedRand() uint64 {
	m.randSeq = m.randSeq*6364136223846793005 + 1442695040888963407
	return m.randSeq >> 33
}

func (m *Machine) randByte(i int) Value {
	if m.randMode == 1 {
		return m.c.BV(m.fixedRand(), 8)
	}
	return m.newInput("rand", "rand", 8)
}

func (m *Machine) assertCheck(cond *Term, id string) {
	ob := m.e.obligation(id)
	if cond.isTrue() {
		ob.trivial++
		return
	}
	// already established on the shared prefix?
	i := len(m.trace)
	if i < len(m.prefix) && m.prefix[i] == 7 {
		m.trace = append(m.trace, Decision{n: 1, val: 7, kind: "assert"})
		m.addPC(cond)
		return
	}
	neg := m.c.Not(cond)
	budget := m.e.assertBudget
	if ob.unknown >= 3 {
		budget = min(budget, 6*time.Second)
	}
	// the sliced query is enough for a proof
	r, _ := m.s.Check(m.sliceFor(neg), true, budget)
	if r == RUnsat {
		ob.proved++
		m.trace = append(m.trace, Decision{n: 1, val: 7, kind: "assert"})
		m.addPC(cond)
		return
	}
	full := append(append([]*Term{}, m.pc...), neg)
	if r == RUnknown {
		budget = min(budget, 10*time.Second)
	}
	r, mod := m.s.Check(full, true, budget)
	switch r {
	case RUnsat:
		ob.proved++
	case RUnknown:
		ob.unknown++
		m.e.inconclusive(fmt.Sprintf("assert %s: solver undecided at %s", id, m.where()))
	case RSat:
		m.e.violation(m, id, "assertion", "", mod)
		panic(&pathEnd{kind: "violation", id: id})
	}
	m.trace = append(m.trace, Decision{n: 1, val: 7, kind: "assert"})
	m.addPC(cond)
}

func (m *Machine) reach(id string) {
	if m.e.reached(id) {
		return
	}
	r, _ := m.s.Check(append([]*Term{m.c.T}, m.pc...), true, m.e.assertBudget)
	if r == RSat {
		m.e.setReached(id)
	}
}

func (m *Machine) tryLockRW(l *lockState) bool { return !l.w && l.r == 0 }

func sprintArgs(m *Machine, fr *Frame, v Value) []Value {
	s, _ := v.([]Value)
	return s
}

func init() {
	I := map[string]intrinsic{}
	intrinsics = I
	V := func(n string, f intrinsic) { I[vrtPath+"."+n] = f }
	str := func(v Value) string { return v.(Str).s }

	V("Float64", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.newInput(str(a[0]), "f64", SFP)
	})
	V("Int", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := m.newInput(str(a[0]), "i64", 64)
		lo, hi := tm(a[1]), tm(a[2])
		m.addPC(m.c.BvCmp(OBvSle, lo, t))
		m.addPC(m.c.BvCmp(OBvSle, t, hi))
		return t
	})
	V("Uint64", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.newInput(str(a[0]), "i64", 64)
	})
	V("Bool", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.newInput(str(a[0]), "bool", SBool)
	})
	V("Str", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := m.newInput(str(a[0]), "i64", 64)
		var alts []string
		for _, x := range a[1].([]Value) {
			alts = append(alts, x.(Str).s)
		}
		m.addPC(m.c.BvCmp(OBvSle, m.c.Int(0), t))
		m.addPC(m.c.BvCmp(OBvSlt, t, m.c.Int(int64(len(alts)))))
		o := m.opaque()
		o.sy = &symStr{t, alts}
		return o
	})
	V("Choose", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := int(tm(a[1]).k)
		k := m.choose(n, "choose")
		t := m.c.Int(int64(k))
		m.inputs = append(m.inputs, &Input{Name: str(a[0]), Kind: "choose", term: t})
		return t
	})
	V("Assume", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := tm(a[0])
		if t.isTrue() {
			return nil
		}
		if t.isFalse() {
			m.end("infeasible", "")
		}
		i := len(m.trace)
		if i < len(m.prefix) {
			m.trace = append(m.trace, Decision{n: 1, val: 5, kind: "assume"})
			m.addPC(t)
			return nil
		}
		if !m.feasible(t) {
			m.end("infeasible", "")
		}
		m.trace = append(m.trace, Decision{n: 1, val: 5, kind: "assume"})
		m.addPC(t)
		return nil
	})
	V("Assert", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.assertCheck(tm(a[0]), str(a[1]))
		return nil
	})
	V("Reach", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.reach(str(a[0]))
		return nil
	})
	V("Tier", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.c.Int(int64(m.e.tier))
	})
	V("Symbolic", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return m.c.T })
	V("Preempt", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.preempt = int(tm(a[0]).k)
		m.schedFork = true
		m.shareTrack = m.preempt > 0
		return nil
	})
	V("CutCall", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.cutCall = a[0].(Str).s
		return nil
	})
	V("Draws", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.c.Int(int64(m.draws))
	})
	V("MaxDraws", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.maxDraws = int(tm(a[0]).k) + 1
		m.draws = 0
		return nil
	})
	V("Merge", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.merge = true
		return nil
	})
	V("SchedFork", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.schedFork = tm(a[0]).isTrue()
		return nil
	})
	V("MapOrder", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.mapNondet = tm(a[0]).isTrue()
		return nil
	})
	V("Unwind", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.unwind = int(tm(a[0]).k)
		return nil
	})
	V("MaxTimers", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.maxTimerFires = int(tm(a[0]).k)
		return nil
	})
	V("MaxSteps", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.maxSteps = int(tm(a[0]).k)
		return nil
	})
	V("HangIsViolation", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.expectHang = true
		return nil
	})
	V("FixedRand", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.randMode = 1
		m.randSeq = tm(a[0]).k
		return nil
	})
	V("FreeRand", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.randMode = 0
		return nil
	})
	V("Advance", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		d := tm(a[0])
		if len(m.timers) > 0 || len(m.threads) > 1 {
			target := m.c.BvBin(OBvAdd, m.clock, d)
			done := false
			m.addTimer(d, nil, func() { done = true })
			m.block(func() bool { return done }, "sleep")
			m.clock = target
			return nil
		}
		m.clock = m.c.BvBin(OBvAdd, m.clock, d)
		return nil
	})
	V("And", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		r := m.c.T
		for _, x := range a[0].([]Value) {
			r = m.c.And(r, tm(x))
		}
		return r
	})
	V("Or", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		r := m.c.F
		for _, x := range a[0].([]Value) {
			r = m.c.Or(r, tm(x))
		}
		return r
	})
	V("Implies", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.c.Implies(tm(a[0]), tm(a[1]))
	})
	V("Iff", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.c.Eq(tm(a[0]), tm(a[1]))
	})
	V("IteF", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.c.Ite(tm(a[0]), tm(a[1]), tm(a[2]))
	})
	V("IteI", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.c.Ite(tm(a[0]), tm(a[1]), tm(a[2]))
	})
	V("IsFinite", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.c.Not(m.c.Or(m.c.FpIsNaN(tm(a[0])), m.c.FpIsInf(tm(a[0]))))
	})
	V("SameF", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.c.FpSame(tm(a[0]), tm(a[1]))
	})
	V("Blocked", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		// number of live (unfinished) goroutines besides the caller
		n := 0
		for _, t := range m.threads {
			if !t.done && t != m.cur {
				n++
			}
		}
		return m.c.Int(int64(n))
	})
	V("Settle", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		// run every other goroutine until it blocks or ends, without advancing time
		me := m.cur
		m.block(func() bool {
			for _, t := range m.threads {
				if t != me && !t.done && (t.ready == nil || t.ready()) {
					return false
				}
			}
			return true
		}, "settle")
		return nil
	})
	V("Print", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		if os.Getenv("VERIF_PRINT") != "" {
			for _, x := range a[0].([]Value) {
				fmt.Fprint(os.Stderr, m.show(x, 5), " ")
			}
			fmt.Fprintln(os.Stderr)
		}
		return nil
	})

	// ---- math
	for _, n := range []string{"Sin", "Cos", "Tan", "Tanh", "Atan2", "Atan", "Asin", "Acos", "Exp", "Log", "Log2", "Log10", "Mod", "Hypot", "Cbrt"} {
		I["math."+n] = floatFn(strings.ToLower(n))
	}
	I["math.Remainder"] = floatFn("rem")
	I["math.Sincos"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return Tuple{m.c.Fun("sin", tm(a[0])), m.c.Fun("cos", tm(a[0]))}
	}
	I["math.Pow"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		x, y := tm(a[0]), tm(a[1])
		if y.isConst() {
			switch y.f64() {
			case 0:
				return m.c.Float(1)
			case 1:
				return x
			case 2:
				return m.c.FpMul(x, x)
			}
		}
		return m.c.Fun("pow", x, y)
	}
	I["math.Abs"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return m.c.FpAbs(tm(a[0])) }
	I["math.Max"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.c.FpMax(tm(a[0]), tm(a[1]), false)
	}
	I["math.Min"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.c.FpMin(tm(a[0]), tm(a[1]), false)
	}
	for i, n := range []string{"Floor", "Ceil", "Trunc", "Round", "RoundToEven"} {
		k := uint64(i)
		I["math."+n] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return m.c.FpRnd(k, tm(a[0])) }
	}
	I["math.Modf"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		ip := m.c.FpRnd(2, tm(a[0]))
		return Tuple{ip, m.c.FpSub(tm(a[0]), ip)}
	}
	I["math.Sqrt"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return m.c.FpSqrt(tm(a[0])) }
	I["math.IsNaN"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return m.c.FpIsNaN(tm(a[0])) }
	I["math.NaN"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return m.c.Float(math.NaN()) }
	I["math.Inf"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.c.Float(math.Inf(int(sext(tm(a[0]).k, 64))))
	}
	I["math.IsInf"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := int(sext(tm(a[1]).k, 64))
		x := tm(a[0])
		c := m.c
		switch {
		case s > 0:
			return c.FpSame(x, c.Float(math.Inf(1)))
		case s < 0:
			return c.FpSame(x, c.Float(math.Inf(-1)))
		}
		return c.FpIsInf(x)
	}
	I["math.Float64bits"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return m.c.F2Bits(tm(a[0])) }
	I["math.Float64frombits"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return m.c.Bits2F(tm(a[0])) }
	I["math.Signbit"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.c.BvCmp(OBvSlt, m.c.F2Bits(tm(a[0])), m.c.Int(0))
	}
	I["math.Copysign"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := m.c
		ab := c.FpAbs(tm(a[0]))
		neg := c.BvCmp(OBvSlt, c.F2Bits(tm(a[1])), c.Int(0))
		return c.Ite(neg, c.FpNeg(ab), ab)
	}

	// ---- sync
	lockFn := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := ptr(m, a[0])
		m.schedPoint("lock")
		l := m.lock(p)
		l.waiting++
		m.block(func() bool { return !l.w && l.r == 0 }, "mutex lock at "+m.where())
		l.waiting--
		l.w = true
		l.owner = m.cur.id
		return nil
	}
	unlockFn := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		l := m.lock(ptr(m, a[0]))
		if !l.w {
			m.end("panic", "fatal error: sync: unlock of unlocked mutex")
		}
		l.w = false
		l.owner = -1
		m.schedPoint("unlock")
		return nil
	}
	tryFn := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.schedPoint("trylock")
		l := m.lock(ptr(m, a[0]))
		if l.w || l.r > 0 {
			return m.c.F
		}
		l.w = true
		return m.c.T
	}
	for _, t := range []string{"(*sync.Mutex)", "(*sync.RWMutex)"} {
		I[t+".Lock"], I[t+".Unlock"], I[t+".TryLock"] = lockFn, unlockFn, tryFn
	}
	I["(*sync.RWMutex).RLock"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := ptr(m, a[0])
		m.schedPoint("rlock")
		l := m.lock(p)
		m.block(func() bool { return !l.w && l.waiting == 0 }, "rwmutex rlock at "+m.where())
		l.r++
		return nil
	}
	I["(*sync.RWMutex).RUnlock"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		l := m.lock(ptr(m, a[0]))
		if l.r == 0 {
			m.end("panic", "fatal error: sync: RUnlock of unlocked RWMutex")
		}
		l.r--
		m.schedPoint("runlock")
		return nil
	}
	wg := func(m *Machine, p *Value) *int {
		if n, ok := m.side[p].(*int); ok {
			return n
		}
		n := new(int)
		m.side[p] = n
		return n
	}
	I["(*sync.WaitGroup).Add"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := wg(m, ptr(m, a[0]))
		*n += m.intOf(a[1], "wg add")
		if *n < 0 {
			m.goPanicStr("sync: negative WaitGroup counter")
		}
		m.schedPoint("wg")
		return nil
	}
	I["(*sync.WaitGroup).Done"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := wg(m, ptr(m, a[0]))
		*n--
		if *n < 0 {
			m.goPanicStr("sync: negative WaitGroup counter")
		}
		m.schedPoint("wg")
		return nil
	}
	I["(*sync.WaitGroup).Wait"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := wg(m, ptr(m, a[0]))
		m.block(func() bool { return *n == 0 }, "waitgroup")
		return nil
	}
	I["(*sync.WaitGroup).Go"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := wg(m, ptr(m, a[0]))
		*n++
		f := a[1]
		m.goStmt(&nativeFn{func(fr *Frame, _ []Value) Value {
			m.call(fr, f, nil)
			*n--
			return nil
		}}, nil)
		return nil
	}
	I["(*sync.Once).Do"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := ptr(m, a[0])
		m.schedPoint("once")
		st, ok := m.side[p].(*int)
		if !ok {
			st = new(int)
			m.side[p] = st
			*st = 1
			m.call(fr, a[1], nil)
			*st = 2
			return nil
		}
		m.block(func() bool { return *st == 2 }, "once")
		return nil
	}
	I["sync.OnceFunc"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		done := false
		f := a[0]
		return &nativeFn{func(fr *Frame, _ []Value) Value {
			if !done {
				done = true
				m.call(fr, f, nil)
			}
			return nil
		}}
	}
	// sync.Map
	SM := "(*sync.Map)."
	I[SM+"Load"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		mp := m.syncMap(ptr(m, a[0]))
		m.schedPoint("sync.Map")
		v, ok := mp.get(m.keyOf(a[1]))
		if !ok {
			v = Iface{}
		}
		return Tuple{v, m.c.Bool(ok)}
	}
	I[SM+"Store"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		mp := m.syncMap(ptr(m, a[0]))
		m.schedPoint("sync.Map")
		mp.set(m.keyOf(a[1]), a[1], a[2])
		return nil
	}
	I[SM+"LoadOrStore"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		mp := m.syncMap(ptr(m, a[0]))
		m.schedPoint("sync.Map")
		k := m.keyOf(a[1])
		if v, ok := mp.get(k); ok {
			return Tuple{v, m.c.T}
		}
		mp.set(k, a[1], a[2])
		return Tuple{a[2], m.c.F}
	}
	I[SM+"LoadAndDelete"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		mp := m.syncMap(ptr(m, a[0]))
		m.schedPoint("sync.Map")
		k := m.keyOf(a[1])
		v, ok := mp.get(k)
		if !ok {
			v = Iface{}
		}
		mp.del(k)
		return Tuple{v, m.c.Bool(ok)}
	}
	I[SM+"Swap"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		mp := m.syncMap(ptr(m, a[0]))
		m.schedPoint("sync.Map")
		k := m.keyOf(a[1])
		v, ok := mp.get(k)
		if !ok {
			v = Iface{}
		}
		mp.set(k, a[1], a[2])
		return Tuple{v, m.c.Bool(ok)}
	}
	I[SM+"Delete"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		mp := m.syncMap(ptr(m, a[0]))
		m.schedPoint("sync.Map")
		mp.del(m.keyOf(a[1]))
		return nil
	}
	I[SM+"Clear"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		mp := m.syncMap(ptr(m, a[0]))
		m.schedPoint("sync.Map")
		for _, e := range mp.order {
			e.dead = true
		}
		mp.order, mp.idx, mp.n = nil, map[any]*mapEntry{}, 0
		return nil
	}
	I[SM+"Range"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		mp := m.syncMap(ptr(m, a[0]))
		m.schedPoint("sync.Map")
		seen := map[*mapEntry]bool{}
		for {
			var avail []*mapEntry
			for _, e := range mp.order {
				if !e.dead && !seen[e] {
					avail = append(avail, e)
					if !m.mapNondet {
						break
					}
				}
			}
			if len(avail) == 0 {
				return nil
			}
			m.mapForked = m.mapForked || len(avail) > 1
			e := avail[m.choose(len(avail), "maporder")]
			seen[e] = true
			r := m.call(fr, a[1], []Value{e.k, e.v})
			m.curFrame = fr
			if !m.decide(tm(r)) {
				return nil
			}
		}
	}
	// sync.Pool
	I["(*sync.Pool).Get"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := ptr(m, a[0])
		m.schedPoint("pool")
		l, _ := m.side[p].(*[]Value)
		if l != nil && len(*l) > 0 {
			v := (*l)[len(*l)-1]
			*l = (*l)[:len(*l)-1]
			return v
		}
		st := (*p).(Struct)
		nf := st[len(st)-1]
		if isNilFn(nf) {
			return Iface{}
		}
		return m.call(fr, nf, nil)
	}
	I["(*sync.Pool).Put"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := ptr(m, a[0])
		m.schedPoint("pool")
		l, _ := m.side[p].(*[]Value)
		if l == nil {
			l = new([]Value)
			m.side[p] = l
		}
		*l = append(*l, a[1])
		return nil
	}

	// ---- sync/atomic functions
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		I["sync/atomic.Load"+t] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			return m.atomicRMW(ptr(m, a[0]), func(o Value) (Value, Value) { return o, o })
		}
		I["sync/atomic.Store"+t] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			return m.atomicRMW(ptr(m, a[0]), func(o Value) (Value, Value) { return a[1], nil })
		}
		I["sync/atomic.Swap"+t] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			return m.atomicRMW(ptr(m, a[0]), func(o Value) (Value, Value) { return a[1], o })
		}
		I["sync/atomic.Add"+t] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			return m.atomicRMW(ptr(m, a[0]), func(o Value) (Value, Value) {
				n := m.c.BvBin(OBvAdd, tm(o), tm(a[1]))
				return n, n
			})
		}
		I["sync/atomic.CompareAndSwap"+t] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			m.schedPoint("atomic")
			p := ptr(m, a[0])
			if m.decide(m.c.Eq(tm(*p), tm(a[1]))) {
				*p = a[2]
				return m.c.T
			}
			return m.c.F
		}
	}
	// atomic.Value
	AV := "(*sync/atomic.Value)."
	avCell := func(m *Machine, p *Value) *Value {
		if c, ok := m.side[p].(*Value); ok {
			return c
		}
		c := new(Value)
		*c = Iface{}
		m.side[p] = c
		return c
	}
	I[AV+"Load"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.schedPoint("atomic")
		return *avCell(m, ptr(m, a[0]))
	}
	I[AV+"Store"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.schedPoint("atomic")
		c := avCell(m, ptr(m, a[0]))
		n := a[1].(Iface)
		if n.t == nil {
			m.goPanicStr("sync/atomic: store of nil value into Value")
		}
		if o := (*c).(Iface); o.t != nil && !types.Identical(o.t, n.t) {
			m.goPanicStr("sync/atomic: store of inconsistently typed value into Value")
		}
		*c = n
		return nil
	}
	I[AV+"Swap"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.schedPoint("atomic")
		c := avCell(m, ptr(m, a[0]))
		o := *c
		*c = a[1]
		return o
	}
	I[AV+"CompareAndSwap"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.schedPoint("atomic")
		c := avCell(m, ptr(m, a[0]))
		if m.decide(m.eq(*c, a[1])) {
			*c = a[2]
			return m.c.T
		}
		return m.c.F
	}
	AP := "(*sync/atomic.Pointer[T])."
	apCell := func(m *Machine, p *Value) *Value {
		if c, ok := m.side[p].(*Value); ok {
			return c
		}
		c := new(Value)
		*c = (*Value)(nil)
		m.side[p] = c
		return c
	}
	I[AP+"Load"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.schedPoint("atomic")
		return *apCell(m, ptr(m, a[0]))
	}
	I[AP+"Store"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.schedPoint("atomic")
		*apCell(m, ptr(m, a[0])) = a[1]
		return nil
	}
	I[AP+"Swap"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.schedPoint("atomic")
		c := apCell(m, ptr(m, a[0]))
		o := *c
		*c = a[1]
		return o
	}
	I[AP+"CompareAndSwap"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.schedPoint("atomic")
		c := apCell(m, ptr(m, a[0]))
		if (*c).(*Value) == a[1].(*Value) {
			*c = a[2]
			return m.c.T
		}
		return m.c.F
	}

	// ---- time
	I["time.Now"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return m.nowTime() }
	I["time.Since"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.timeSub(m.nowTime(), a[0])
	}
	I["time.Until"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.timeSub(a[0], m.nowTime())
	}
	I["(time.Time).Sub"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.timeSub(a[0], a[1])
	}
	I["(time.Time).Add"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := a[0].(Struct)
		// keep everything on the monotonic reading
		if w := tm(t[0]); w.isConst() && w.k>>63 == 1 {
			return Struct{t[0], m.c.BvBin(OBvAdd, tm(t[1]), tm(a[1])), t[2]}
		}
		m.unsupported("Time.Add on wall time")
		return nil
	}
	cmpTime := func(op Op, swap bool) intrinsic {
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			x, y := m.timeKey(a[0]), m.timeKey(a[1])
			if swap {
				x, y = y, x
			}
			if op == OEq {
				return m.c.Eq(x, y)
			}
			return m.c.BvCmp(op, x, y)
		}
	}
	I["(time.Time).Before"] = cmpTime(OBvSlt, false)
	I["(time.Time).After"] = cmpTime(OBvSlt, true)
	I["(time.Time).Equal"] = cmpTime(OEq, false)
	I["(time.Time).IsZero"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := a[0].(Struct)
		return m.c.And(m.c.Eq(tm(t[0]), m.c.Int(0)), m.c.Eq(tm(t[1]), m.c.Int(0)))
	}
	unix := func(div int64) intrinsic {
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			ns := m.c.BvBin(OBvAdd, m.timeKey(a[0]), m.c.Int(946684800*1e9))
			return m.c.BvBin(OBvSDiv, ns, m.c.Int(div))
		}
	}
	I["(time.Time).UnixNano"] = unix(1)
	I["(time.Time).UnixMicro"] = unix(1000)
	I["(time.Time).UnixMilli"] = unix(1000000)
	I["(time.Time).Unix"] = unix(1000000000)
	I["(time.Time).Format"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return m.opaque() }
	I["(time.Duration).String"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		if t := tm(a[0]); t.isConst() {
			return Str{s: time.Duration(int64(t.k)).String()}
		}
		return m.opaque()
	}
	I["time.Sleep"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		done := false
		m.addTimer(tm(a[0]), nil, func() { done = true })
		m.block(func() bool { return done }, "sleep")
		return nil
	}
	timeElem := func(m *Machine) types.Type { return m.typeOf("time", "Time") }
	mkTimer := func(m *Machine, d *Term, period *Term) (*ChanV, *timer) {
		ch := m.newChan(1, timeElem(m))
		ch.timer = true
		t := m.addTimer(d, period, func() {
			if len(ch.buf) < 1 || hasWaiter(ch.recvq) {
				m.doSend(ch, m.nowTime())
			}
		})
		return ch, t
	}
	I["time.After"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		ch, _ := mkTimer(m, tm(a[0]), nil)
		return ch
	}
	newTk := func(tick bool) intrinsic {
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			d := tm(a[0])
			var per *Term
			if tick {
				if m.decide(m.c.BvCmp(OBvSle, d, m.c.Int(0))) {
					m.goPanicStr("non-positive interval for NewTicker")
				}
				if !d.isConst() {
					d = m.concretize(d, "ticker")
				}
				per = d
			}
			ch, t := mkTimer(m, d, per)
			name := "Timer"
			if tick {
				name = "Ticker"
			}
			p := new(Value)
			z := m.zero(m.typeOf("time", name)).(Struct)
			z[0] = ch
			*p = z
			m.side[p] = t
			return p
		}
	}
	I["time.NewTicker"], I["time.NewTimer"] = newTk(true), newTk(false)
	I["time.Tick"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		ch, _ := mkTimer(m, tm(a[0]), tm(a[0]))
		return ch
	}
	stopT := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := ptr(m, a[0])
		t, _ := m.side[p].(*timer)
		was := t != nil && !t.dead
		if t != nil {
			t.dead = true
		}
		if ch, ok := (*p).(Struct)[0].(*ChanV); ok && ch != nil {
			ch.buf = nil
		}
		return m.c.Bool(was)
	}
	I["(*time.Ticker).Stop"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		stopT(m, fr, fn, a)
		return nil
	}
	I["(*time.Timer).Stop"] = stopT
	resetT := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := ptr(m, a[0])
		t, _ := m.side[p].(*timer)
		was := t != nil && !t.dead
		if t != nil {
			t.dead = true
			nt := m.addTimer(tm(a[1]), nil, t.fire)
			if t.period != nil {
				nt.period = m.concretize(tm(a[1]), "ticker")
			}
			m.side[p] = nt
		}
		if ch, ok := (*p).(Struct)[0].(*ChanV); ok && ch != nil {
			ch.buf = nil
		}
		return m.c.Bool(was)
	}
	I["(*time.Timer).Reset"] = resetT
	I["(*time.Ticker).Reset"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		resetT(m, fr, fn, a)
		return nil
	}
	I["time.AfterFunc"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		f := a[1]
		t := m.addTimer(tm(a[0]), nil, func() { m.spawn(func() { m.curFrame = nil; m.call(nil, f, nil) }) })
		p := new(Value)
		z := m.zero(m.typeOf("time", "Timer")).(Struct)
		*p = z
		m.side[p] = t
		return p
	}

	// ---- runtime
	c64 := func(n int64) intrinsic {
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return m.c.Int(n) }
	}
	I["runtime.NumCPU"], I["runtime.GOMAXPROCS"], I["runtime.NumGoroutine"] = c64(4), c64(4), c64(1)
	I["runtime.Gosched"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.schedPoint("gosched")
		return nil
	}
	I["runtime.GC"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return nil }

	// ---- fmt / errors
	I["fmt.Sprintf"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.sprintf(fr, a[0].(Str), sprintArgs(m, fr, a[1]))
	}
	I["fmt.Errorf"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		args := sprintArgs(m, fr, a[1])
		msg := m.sprintf(fr, a[0].(Str), args)
		var w *Iface
		if strings.Contains(a[0].(Str).s, "%w") {
			for _, x := range args {
				if i, ok := x.(Iface); ok && i.t != nil && types.Implements(i.t, errIface) {
					w = &i
					break
				}
			}
		}
		return m.newError(msg, w)
	}
	spr := func(sep string, nl bool) intrinsic {
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			var na []any
			for _, x := range sprintArgs(m, fr, a[0]) {
				v, ok := m.nativeArg(fr, x, nil)
				if !ok {
					return m.opaque()
				}
				na = append(na, v)
			}
			if nl {
				return Str{s: fmt.Sprintln(na...)}
			}
			return Str{s: fmt.Sprint(na...)}
		}
	}
	I["fmt.Sprint"], I["fmt.Sprintln"] = spr("", false), spr(" ", true)
	for _, n := range []string{"Print", "Printf", "Println", "Fprint", "Fprintf", "Fprintln"} {
		I["fmt."+n] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return Tuple{m.c.Int(0), Iface{}} }
	}
	I["(*fmt.wrapError).Error"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return (*ptr(m, a[0])).(Struct)[0]
	}
	I["(*fmt.wrapError).Unwrap"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return (*ptr(m, a[0])).(Struct)[1]
	}
	I["errors.Is"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.c.Bool(m.errorsIs(fr, a[0].(Iface), a[1].(Iface)))
	}
	I["errors.As"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		e, tgt := a[0].(Iface), a[1].(Iface)
		pt, ok := tgt.t.Underlying().(*types.Pointer)
		if !ok {
			m.unsupported("errors.As target")
		}
		for e.t != nil {
			if it, isI := pt.Elem().Underlying().(*types.Interface); isI {
				if types.Implements(e.t, it) {
					m.store(tgt.v, e)
					return m.c.T
				}
			} else if types.Identical(e.t, pt.Elem()) {
				m.store(tgt.v, e.v)
				return m.c.T
			}
			r, ok := m.callMethod(fr, e, "Unwrap")
			if !ok {
				break
			}
			e, ok = r.(Iface)
			if !ok {
				break
			}
		}
		return m.c.F
	}
	// ---- strings
	strFn := func(f func(a []string) any) intrinsic {
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			var ss []string
			for _, x := range a {
				switch s := x.(type) {
				case Str:
					s = m.concStr(s)
					if s.op != 0 {
						if fn.Signature.Results().At(0).Type().String() == "string" {
							return m.opaque()
						}
						m.unsupported(fn.String() + " on opaque string")
					}
					ss = append(ss, s.s)
				default:
					m.unsupported(fn.String())
				}
			}
			switch r := f(ss).(type) {
			case string:
				return Str{s: r}
			case bool:
				return m.c.Bool(r)
			case int:
				return m.c.Int(int64(r))
			}
			return nil
		}
	}
	I["strings.Contains"] = strFn(func(a []string) any { return strings.Contains(a[0], a[1]) })
	I["strings.HasPrefix"] = strFn(func(a []string) any { return strings.HasPrefix(a[0], a[1]) })
	I["strings.HasSuffix"] = strFn(func(a []string) any { return strings.HasSuffix(a[0], a[1]) })
	I["strings.ToLower"] = strFn(func(a []string) any { return strings.ToLower(a[0]) })
	I["strings.ToUpper"] = strFn(func(a []string) any { return strings.ToUpper(a[0]) })
	I["strings.TrimSpace"] = strFn(func(a []string) any { return strings.TrimSpace(a[0]) })
	I["strings.Index"] = strFn(func(a []string) any { return strings.Index(a[0], a[1]) })
	I["strings.EqualFold"] = strFn(func(a []string) any { return strings.EqualFold(a[0], a[1]) })
	I["strings.ReplaceAll"] = strFn(func(a []string) any { return strings.ReplaceAll(a[0], a[1], a[2]) })
	I["strings.Join"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		var ss []string
		for _, x := range a[0].([]Value) {
			s := x.(Str)
			if s.op != 0 {
				return m.opaque()
			}
			ss = append(ss, s.s)
		}
		return Str{s: strings.Join(ss, a[1].(Str).s)}
	}
	I["strings.Repeat"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := a[0].(Str)
		t := tm(a[1])
		if s.op != 0 || !t.isConst() {
			return m.opaque()
		}
		if int64(t.k) < 0 {
			m.goPanicStr("strings: negative Repeat count")
		}
		return Str{s: strings.Repeat(s.s, int(t.k))}
	}
	SB := "(*strings.Builder)."
	sb := func(m *Machine, v Value) *Str {
		p := ptr(m, v)
		if s, ok := m.side[p].(*Str); ok {
			return s
		}
		s := &Str{}
		m.side[p] = s
		return s
	}
	wr := func(get func(m *Machine, v Value) Str, ret func(m *Machine, s Str) Value) intrinsic {
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			b := sb(m, a[0])
			s := get(m, a[1])
			if b.op != 0 || s.op != 0 {
				*b = m.opaque()
			} else {
				b.s += s.s
			}
			return ret(m, s)
		}
	}
	nErr := func(m *Machine, s Str) Value { return Tuple{m.c.Int(int64(len(s.s))), Iface{}} }
	I[SB+"WriteString"] = wr(func(m *Machine, v Value) Str { return v.(Str) }, nErr)
	I[SB+"WriteRune"] = wr(func(m *Machine, v Value) Str { return Str{s: string(rune(tm(v).k))} }, nErr)
	I[SB+"WriteByte"] = wr(func(m *Machine, v Value) Str { return Str{s: string([]byte{byte(tm(v).k)})} }, func(m *Machine, s Str) Value { return Iface{} })
	I[SB+"String"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return *sb(m, a[0]) }
	I[SB+"Len"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.c.Int(int64(len(sb(m, a[0]).s)))
	}
	I[SB+"Reset"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { *sb(m, a[0]) = Str{}; return nil }
	I[SB+"Grow"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return nil }
	I["strconv.Itoa"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := tm(a[0])
		if !t.isConst() {
			return m.opaque()
		}
		return Str{s: fmt.Sprint(int64(t.k))}
	}
	I["strconv.FormatInt"] = I["strconv.Itoa"]

	// ---- sort (comparison callbacks may be symbolic: insertion sort forks)
	isort := func(m *Machine, s []Value, less func(i, j int) bool) {
		for i := 1; i < len(s); i++ {
			for j := i; j > 0 && less(j, j-1); j-- {
				t := copyVal(s[j])
				u := copyVal(s[j-1])
				m.assign(&s[j], u)
				m.assign(&s[j-1], t)
			}
		}
	}
	sl := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		s, ok := a[0].(Iface).v.([]Value)
		if !ok {
			m.unsupported("sort.Slice arg")
		}
		isort(m, s, func(i, j int) bool {
			r := m.decide(tm(m.call(fr, a[1], []Value{m.c.Int(int64(i)), m.c.Int(int64(j))})))
			m.curFrame = fr
			return r
		})
		return nil
	}
	I["sort.Slice"], I["sort.SliceStable"] = sl, sl
	I["sort.Float64s"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := a[0].([]Value)
		isort(m, s, func(i, j int) bool {
			return m.decide(m.c.FpCmp(OFpLt, tm(s[i]), tm(s[j])))
		})
		return nil
	}
	I["sort.Ints"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := a[0].([]Value)
		isort(m, s, func(i, j int) bool {
			return m.decide(m.c.BvCmp(OBvSlt, tm(s[i]), tm(s[j])))
		})
		return nil
	}
	I["sort.Strings"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := a[0].([]Value)
		isort(m, s, func(i, j int) bool { return s[i].(Str).s < s[j].(Str).s })
		return nil
	}

	// ---- randomness
	rread := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		b := a[0].([]Value)
		if m.draws++; m.maxDraws > 0 && m.draws >= m.maxDraws {
			m.end("cut", "") // beyond the stated bound
		}
		for i := range b {
			b[i] = m.randByte(i)
		}
		return Tuple{m.c.Int(int64(len(b))), Iface{}}
	}
	I["crypto/rand.Read"] = rread
	for _, pk := range []string{"math/rand", "math/rand/v2"} {
		I[pk+".Float64"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			t := m.newInput("mrand", "f64", SFP)
			m.addPC(m.c.FpCmp(OFpLe, m.c.Float(0), t))
			m.addPC(m.c.FpCmp(OFpLt, t, m.c.Float(1)))
			return t
		}
		in := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			n := tm(a[0])
			if m.decide(m.c.BvCmp(OBvSle, n, m.c.BV(0, n.sort))) {
				m.goPanicStr("invalid argument to Intn")
			}
			t := m.newInput("mrand", "i64", n.sort)
			m.addPC(m.c.BvCmp(OBvSle, m.c.BV(0, n.sort), t))
			m.addPC(m.c.BvCmp(OBvSlt, t, n))
			return t
		}
		I[pk+".Intn"], I[pk+".IntN"] = in, in
	}
	I["os.Exit"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.end("panic", "os.Exit called")
		return nil
	}
}

func (m *Machine) errorsIs(fr *Frame, e, tgt Iface) bool {
	if e.t == nil || tgt.t == nil {
		return e.t == nil && tgt.t == nil
	}
	if types.Comparable(tgt.t) && m.eq(e, tgt).isTrue() {
		return true
	}
	if r, ok := m.callMethodIf(fr, e, "Is", tgt); ok {
		if t, is := r.(*Term); is && m.decide(t) {
			return true
		}
	}
	if r, ok := m.callMethodIf(fr, e, "Unwrap"); ok {
		switch x := r.(type) {
		case Iface:
			if x.t == nil {
				return false
			}
			return m.errorsIs(fr, x, tgt)
		case []Value:
			for _, y := range x {
				if m.errorsIs(fr, y.(Iface), tgt) {
					return true
				}
			}
		}
	}
	return false
}

func (m *Machine) callMethodIf(fr *Frame, i Iface, name string, args ...Value) (Value, bool) {
	return m.callMethod(fr, i, name, args...)
}

// timeKey orders times: monotonic reading, or wall seconds mapped before all
// monotonic readings (zero Time is before everything).
func (m *Machine) timeKey(v Value) *Term {
	t := v.(Struct)
	w := tm(t[0])
	if w.isConst() && w.k>>63 == 1 {
		return m.c.BvBin(OBvAdd, tm(t[1]), m.c.Int(-1))
	}
	if w.isConst() && w.k == 0 {
		if e := tm(t[1]); e.isConst() && e.k == 0 {
			return m.c.Int(math.MinInt64)
		}
	}
	m.unsupported("wall-clock time arithmetic")
	return nil
}
func (m *Machine) timeSub(a, b Value) Value {
	x, y := m.timeKey(a), m.timeKey(b)
	if y.isConst() && int64(y.k) == math.MinInt64 {
		if x.isConst() && int64(x.k) == math.MinInt64 {
			return m.c.Int(0)
		}
		return m.c.Int(math.MaxInt64)
	}
	if x.isConst() && int64(x.k) == math.MinInt64 {
		return m.c.Int(math.MinInt64)
	}
	return m.c.BvBin(OBvSub, x, y)
}

func (m *Machine) fallback(fn *ssa.Function, key string) intrinsic {
	switch {
	case strings.HasPrefix(key, "(*fmt."), strings.HasPrefix(key, "log."):
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return m.zeroResults(fn) }
	case key == "(runtime.errorString).Error":
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return a[0] }
	}
	return nil
}
