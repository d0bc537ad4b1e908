package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var debugEngine = os.Getenv("VERIF_ENGINE_PANIC") != ""

type Decision struct {
	n    int   // number of alternatives
	val  int   // chosen
	rest []int // feasible alternatives not taken here
	kind string
}

type Input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	term *Term
	val  uint64
}

type Machine struct {
	mapForked bool
	merge     bool
	maxDraws  int
	cutCall   string
	draws     int
	spec      specState
	violPos   string
	e         *Explorer
	prog      *ssa.Program
	c         *TermCtx
	s         *Solver
	pc        []*Term
	prefix    []int
	trace     []Decision
	inputs    []*Input
	varSeq    map[string]int

	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool

	threads       []*Thread
	cur, next     *Thread
	yieldCh       chan threadMsg
	killed        bool
	wg            sync.WaitGroup
	preempt       int
	schedFork     bool
	atomicDepth   int
	shareTrack    bool
	owner         map[*Value]int
	schedule      []string
	timers        []*timer
	timerSeq      int
	timerFires    int
	maxTimerFires int
	chanSeq       int
	clock         *Term
	forceEnd      *pathEnd
	mapNondet     bool
	randMode      int
	randSeq       uint64

	steps, maxSteps int
	unwind          int
	opSeq           int
	locks           map[*Value]*lockState
	side            map[*Value]any
	fnCount         map[*ssa.Function]int
	curFrame        *Frame
	expectHang      bool
	lockset         int
}

type lockState struct {
	w       bool
	owner   int
	r       int
	waiting int
}

type Frame struct {
	m         *Machine
	fn        *ssa.Function
	caller    *Frame
	env       map[ssa.Value]Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	locals    []Value
	defers    []*deferred
	result    Value
	panicking bool
	panicV    *targetPanic
	inPanic   *Frame // frame whose panic we are running a deferred call for
	loops     map[*ssa.BasicBlock]int
	instr     ssa.Instruction
}
type deferred struct {
	fn   Value
	args []Value
}

type targetPanic struct {
	v   Value // Iface
	pos string
}

func (m *Machine) where() string {
	fr := m.curFrame
	for f := fr; f != nil; f = f.caller {
		if f.instr != nil && f.instr.Pos().IsValid() {
			p := m.prog.Fset.Position(f.instr.Pos())
			return fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, repoDir+"/"), p.Line)
		}
	}
	if fr != nil {
		return fr.fn.String()
	}
	return "?"
}

func (m *Machine) stack() string {
	var p []string
	for f := m.curFrame; f != nil; f = f.caller {
		p = append(p, f.fn.String())
		if len(p) > 12 {
			break
		}
	}
	return strings.Join(p, " < ")
}

func (m *Machine) end(kind, msg string) {
	if m.spec.depth > 0 {
		m.abortSpec(kind)
	}
	panic(&pathEnd{kind: kind, msg: msg, pos: m.where()})
}
func (m *Machine) unsupported(what string) { m.end("unsupported", what+" ["+m.stack()+"]") }

func (m *Machine) goPanic(v Value) {
	if m.spec.depth > 0 {
		m.abortSpec("panic")
	}
	panic(&targetPanic{v, m.where()})
}
func (m *Machine) goPanicStr(s string) {
	// runtime errors carry a runtime.Error; a string-valued panic is enough here
	m.goPanic(Iface{m.runtimeErrType(), Str{s: s}})
}

func (m *Machine) runtimeErrType() types.Type {
	if p := m.prog.ImportedPackage("runtime"); p != nil {
		if t := p.Type("errorString"); t != nil {
			return t.Type()
		}
	}
	return types.Typ[types.String]
}

func (m *Machine) panicText(v Value) string {
	i, ok := v.(Iface)
	if !ok {
		return "panic"
	}
	switch x := i.v.(type) {
	case Str:
		return x.s
	case *Term:
		return x.String()
	}
	if i.t != nil {
		// errors.errorString and friends: show first string field
		if p, ok := i.v.(*Value); ok && p != nil {
			if s, ok := (*p).(Struct); ok {
				for _, f := range s {
					if str, ok := f.(Str); ok {
						return str.s
					}
				}
			}
		}
		return i.t.String()
	}
	return "nil"
}

// ---- decisions

// choose is an unconstrained nondeterministic choice.
func (m *Machine) choose(n int, kind string) int {
	if n <= 1 {
		return 0
	}
	if m.spec.depth > 0 {
		m.abortSpec("choice")
	}
	i := len(m.trace)
	if i < len(m.prefix) {
		m.trace = append(m.trace, Decision{n: n, val: m.prefix[i], kind: kind})
		return m.prefix[i]
	}
	rest := make([]int, 0, n-1)
	for k := 1; k < n; k++ {
		rest = append(rest, k)
	}
	m.trace = append(m.trace, Decision{n: n, val: 0, rest: rest, kind: kind})
	return 0
}

// decide forks on a symbolic condition.
func (m *Machine) decide(cond *Term) bool {
	if cond.isConst() {
		return cond.k == 1
	}
	if m.spec.depth > 0 {
		m.abortSpec("decision")
	}
	i := len(m.trace)
	if i < len(m.prefix) {
		v := m.prefix[i]
		m.trace = append(m.trace, Decision{n: 2, val: v, kind: "br"})
		switch v {
		case 1:
			m.addPC(cond)
		case 0:
			m.addPC(m.c.Not(cond))
		}
		// values 2/3: forced (other side proven infeasible)
		return v == 1 || v == 3
	}
	if m.e.outOfTime() {
		m.end("limit", "time budget")
	}
	if os.Getenv("VERIF_DECIDE") != "" {
		fmt.Fprintln(os.Stderr, "decide", m.where(), m.show(cond, 4))
	}
	nc := m.c.Not(cond)
	st := m.feasible(cond)
	if !st {
		m.trace = append(m.trace, Decision{n: 2, val: 2, kind: "br"})
		return false
	}
	sf := m.feasible(nc)
	if !sf {
		m.trace = append(m.trace, Decision{n: 2, val: 3, kind: "br"})
		return true
	}
	m.trace = append(m.trace, Decision{n: 2, val: 1, rest: []int{0}, kind: "br"})
	m.addPC(cond)
	return true
}

func (m *Machine) addPC(t *Term) {
	if t.isTrue() {
		return
	}
	if t.op == OAnd {
		m.pc = append(m.pc, t.args...)
		return
	}
	m.pc = append(m.pc, t)
}

// slice keeps only the path constraints connected to goal by shared variables.
func (m *Machine) sliceFor(goal *Term) []*Term {
	vs := map[*Term]bool{}
	for v := range m.e.varsOf(m.c, goal) {
		vs[v] = true
	}
	used := make([]bool, len(m.pc))
	out := []*Term{goal}
	for ch := true; ch; {
		ch = false
		for i, p := range m.pc {
			if used[i] {
				continue
			}
			pv := m.e.varsOf(m.c, p)
			hit := false
			for v := range pv {
				if vs[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				out = append(out, p)
				for v := range pv {
					vs[v] = true
				}
			}
		}
	}
	return out
}

func (m *Machine) feasible(cond *Term) bool {
	r, _ := m.s.Check(m.sliceFor(cond), false, m.e.feasBudget)
	return r != RUnsat
}

// concretize forks over the feasible values of t.
func (m *Machine) concretize(t *Term, why string) *Term {
	if t.isConst() {
		return t
	}
	if m.spec.depth > 0 {
		m.abortSpec("concretize")
	}
	for k := 0; k < 4096; k++ {
		// choose a candidate deterministically: small values first via solver model
		cs := m.sliceFor(m.c.T)
		cs = append(m.sliceForTerm(t), cs...)
		var v uint64
		i := len(m.trace)
		if i < len(m.prefix) {
			// candidate recorded as its own decision
			v = uint64(m.prefix[i])
			m.trace = append(m.trace, Decision{n: 1, val: m.prefix[i], kind: "val"})
		} else {
			if m.e.outOfTime() {
				m.end("limit", "time budget")
			}
			// tie a probe so the solver reports t's value
			probe := m.c.Var(fmt.Sprintf("!probe%d", t.id), t.sort)
			r, mod := m.s.Check(append(cs, m.c.Eq(probe, t)), true, m.e.assertBudget)
			if r == RUnsat {
				m.end("infeasible", "")
			}
			if r == RUnknown || mod == nil {
				m.end("limit", "cannot concretize "+why)
			}
			v = mod.newEval().eval(t)
			m.trace = append(m.trace, Decision{n: 1, val: int(v), kind: "val"})
		}
		kv := m.c.constOf(t.sort, v)
		if m.decide(m.c.Eq(t, kv)) {
			return kv
		}
	}
	m.end("limit", "concretize "+why)
	return nil
}
func (m *Machine) sliceForTerm(t *Term) []*Term {
	g := m.c.Eq(t, m.c.constOf(t.sort, 0))
	s := m.sliceFor(g)
	return s[1:]
}

func (m *Machine) intOf(v Value, why string) int {
	t := v.(*Term)
	if !t.isConst() {
		t = m.concretize(t, why)
	}
	return int(sext(t.k, t.sort))
}

func (m *Machine) newInput(name, kind string, s Sort) *Term {
	k := m.varSeq[name]
	m.varSeq[name] = k + 1
	vn := fmt.Sprintf("%s#%d", name, k)
	t := m.c.Var(vn, s)
	m.inputs = append(m.inputs, &Input{Name: vn, Kind: kind, term: t})
	return t
}

// ---- function calls

func (m *Machine) call(fr *Frame, fn Value, args []Value) Value {
	switch f := fn.(type) {
	case *ssa.Function:
		if f == nil {
			m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		return m.callSSA(fr, f, args, nil)
	case *Closure:
		return m.callSSA(fr, f.fn, args, f.env)
	case *nativeFn:
		return f.f(fr, args)
	case *ssa.Builtin:
		return m.callBuiltin(fr, f, args)
	case nil:
		m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	m.unsupported(fmt.Sprintf("call of %T", fn))
	return nil
}

func fnKey(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.String()
	}
	return f.String()
}

func (m *Machine) callSSA(caller *Frame, fn *ssa.Function, args []Value, env []Value) Value {
	key := m.e.key(fn)
	if in := intrinsics[key]; in != nil {
		return in(m, caller, fn, args)
	}
	if m.cutCall != "" && strings.HasSuffix(key, m.cutCall) {
		m.end("cut", "") // beyond the stated bound
	}
	if fn.Name() == "init" && fn.Signature.Recv() == nil && caller != nil && caller.fn.Name() == "init" && fn.Pkg != caller.fn.Pkg {
		return nil // package initialisers run lazily
	}
	if fn.Blocks == nil {
		if in := m.fallback(fn, key); in != nil {
			return in(m, caller, fn, args)
		}
		m.unsupported("no body: " + key)
	}
	if fn.Pkg != nil && blockedPkgs[fn.Pkg.Pkg.Path()] {
		if in := m.fallback(fn, key); in != nil {
			return in(m, caller, fn, args)
		}
		m.unsupported("blocked package function " + key)
	}
	m.cur.frames++
	if m.cur.frames > 400 {
		m.end("limit", "call depth")
	}
	m.e.noteFn(fn)
	fr := &Frame{m: m, fn: fn, caller: caller, env: make(map[ssa.Value]Value, 32)}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = env[i]
	}
	for _, l := range fn.Locals {
		v := new(Value)
		*v = m.zero(deref(l.Type()))
		fr.env[l] = v
	}
	fr.block = fn.Blocks[0]
	m.curFrame = fr
	m.cur.call = fr
	for fr.block != nil {
		m.runFrame(fr)
	}
	m.cur.frames--
	m.curFrame = caller
	return fr.result
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// runFrame executes until return or (recovered) panic.
func (m *Machine) runFrame(fr *Frame) {
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		r := recover()
		tp, ok := r.(*targetPanic)
		if !ok {
			if r == nil {
				return
			}
			panic(r) // engine condition: unwind
		}
		m.curFrame = fr
		fr.panicking = true
		fr.panicV = tp
		m.runDefers(fr)
		// recovered
		m.cur.frames = frameDepth(fr)
		m.curFrame = fr
		fr.block = fr.fn.Recover
		if fr.block == nil {
			fr.result = m.zeroResults(fr.fn)
		}
	}()
	for {
		blk := fr.block
		for _, ins := range blk.Instrs {
			m.steps++
			if m.steps > m.maxSteps {
				m.end("limit", "step bound")
			}
			if m.steps&1023 == 0 && m.e.outOfTime() {
				m.end("limit", "time budget")
			}
			fr.instr = ins
			m.curFrame = fr
			switch m.exec(fr, ins) {
			case kReturn:
				return
			case kJump:
				goto next
			}
		}
	next:
		if fr.block == nil {
			return
		}
		if fr.block.Index <= blk.Index {
			if fr.loops == nil {
				fr.loops = map[*ssa.BasicBlock]int{}
			}
			fr.loops[fr.block]++
			if fr.loops[fr.block] > m.unwind {
				m.end("limit", "loop bound at "+m.where())
			}
		}
	}
}

func frameDepth(fr *Frame) int {
	n := 0
	for f := fr; f != nil; f = f.caller {
		n++
	}
	return n
}

func (m *Machine) zeroResults(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return m.zero(res.At(0).Type())
	}
	return m.zero(res)
}

// runDefers runs pending deferred calls; re-panics if still panicking.
func (m *Machine) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			ok := false
			defer func() {
				if !ok {
					r := recover()
					if tp, is := r.(*targetPanic); is {
						fr.panicking, fr.panicV = true, tp
						return
					}
					panic(r)
				}
			}()
			m.deferFrame(fr, d)
			ok = true
		}()
	}
	if fr.panicking {
		panic(fr.panicV)
	}
}

func (m *Machine) deferFrame(fr *Frame, d *deferred) {
	// recover() inside the deferred function consults caller.panicking
	m.call(fr, d.fn, d.args)
}

type kont int

const (
	kNext kont = iota
	kReturn
	kJump
)

func (fr *Frame) get(v ssa.Value) Value {
	switch x := v.(type) {
	case nil:
		return nil
	case *ssa.Function:
		return x
	case *ssa.Builtin:
		return x
	case *ssa.Const:
		return fr.m.constVal(x)
	case *ssa.Global:
		return fr.m.global(x)
	}
	r, ok := fr.env[v]
	if !ok {
		fr.m.unsupported(fmt.Sprintf("no value for %T %s", v, v.Name()))
	}
	return r
}

func (m *Machine) global(g *ssa.Global) *Value {
	if p, ok := m.globals[g]; ok {
		m.ensureInit(g.Pkg)
		return p
	}
	p := new(Value)
	*p = m.zero(deref(g.Type()))
	m.globals[g] = p
	m.ensureInit(g.Pkg)
	return p
}

func (m *Machine) ensureInit(pkg *ssa.Package) {
	if pkg == nil || m.inited[pkg] {
		return
	}
	if m.spec.depth > 0 {
		m.abortSpec("package init")
	}
	m.inited[pkg] = true
	path := pkg.Pkg.Path()
	if noInit[path] || blockedPkgs[path] {
		return
	}
	init := pkg.Func("init")
	if init == nil {
		return
	}
	sf, so, st := m.curFrame, m.cur.frames, m.steps
	pre := m.preempt
	m.preempt = 0
	var pe *pathEnd
	std := !strings.HasPrefix(path, modPath)
	if std {
		pe = m.guard(func() { m.callSSA(nil, init, nil, nil) })
	} else {
		m.callSSA(nil, init, nil, nil)
	}
	if pe != nil && pe.kind == "kill" {
		panic(pe)
	}
	if pe != nil && os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "init", path, pe.kind, pe.msg)
	}
	m.preempt = pre
	m.curFrame, m.cur.frames = sf, so
	m.steps = st
}

func (m *Machine) constVal(x *ssa.Const) Value {
	t := x.Type()
	if x.Value == nil {
		return m.zero(t)
	}
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		m.unsupported("const of type parameter")
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		m.unsupported("const " + t.String())
	}
	if w, signed, ok := intWidth(b); ok {
		if signed {
			return m.c.BV(uint64(x.Int64()), w)
		}
		return m.c.BV(x.Uint64(), w)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return m.c.Bool(constant.BoolVal(x.Value))
	case b.Info()&types.IsString != 0:
		if x.Value.Kind() == constant.String {
			return Str{s: constant.StringVal(x.Value)}
		}
		return Str{s: string(rune(x.Int64()))}
	case b.Kind() == types.Float32:
		return m.c.Float32(float32(x.Float64()))
	case b.Info()&types.IsFloat != 0:
		return m.c.Float(x.Float64())
	}
	m.unsupported("const " + t.String())
	return nil
}

func (m *Machine) noteAccess(p *Value, write bool) {
	if !m.shareTrack || m.preempt <= 0 || len(m.threads) < 2 {
		if m.shareTrack {
			if _, ok := m.owner[p]; !ok {
				m.owner[p] = m.cur.id
			}
		}
		return
	}
	o, ok := m.owner[p]
	if !ok {
		m.owner[p] = m.cur.id
		return
	}
	if o == m.cur.id {
		return
	}
	m.owner[p] = -1
	m.schedPoint("access")
}

func (m *Machine) load(p Value) Value {
	pp, ok := p.(*Value)
	if !ok {
		m.unsupported(fmt.Sprintf("load through %T", p))
	}
	if pp == nil {
		m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	m.noteAccess(pp, false)
	return copyVal(*pp)
}

// store copies v into the cell, preserving the identity of nested cells.
func (m *Machine) store(p Value, v Value) {
	pp, ok := p.(*Value)
	if !ok {
		m.unsupported(fmt.Sprintf("store through %T", p))
	}
	if pp == nil {
		m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	m.noteAccess(pp, true)
	m.assign(pp, v)
}

func (m *Machine) assign(dst *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if d, ok := (*dst).(Struct); ok && len(d) == len(x) {
			for i := range x {
				m.assign(&d[i], x[i])
			}
			return
		}
		m.jset(dst, copyVal(x))
	case Array:
		if d, ok := (*dst).(Array); ok && len(d) == len(x) {
			for i := range x {
				m.assign(&d[i], x[i])
			}
			return
		}
		m.jset(dst, copyVal(x))
	default:
		m.jset(dst, v)
	}
}

func (m *Machine) exec(fr *Frame, ins ssa.Instruction) kont {
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		fr.env[x] = m.unop(fr, x)
	case *ssa.BinOp:
		fr.env[x] = m.binop(x.Op, x.X.Type(), fr.get(x.X), fr.get(x.Y), x.Y.Type())
	case *ssa.Call:
		fn, args := m.prepare(fr, &x.Call)
		r := m.call(fr, fn, args)
		m.curFrame = fr
		fr.env[x] = r
	case *ssa.ChangeInterface:
		fr.env[x] = fr.get(x.X)
	case *ssa.ChangeType:
		fr.env[x] = fr.get(x.X)
	case *ssa.Convert:
		fr.env[x] = m.convert(x.Type(), x.X.Type(), fr.get(x.X))
	case *ssa.MultiConvert:
		fr.env[x] = m.convert(x.Type(), x.X.Type(), fr.get(x.X))
	case *ssa.SliceToArrayPointer:
		m.unsupported("slice to array pointer")
	case *ssa.MakeInterface:
		fr.env[x] = Iface{x.X.Type(), fr.get(x.X)}
	case *ssa.Extract:
		fr.env[x] = fr.get(x.Tuple).(Tuple)[x.Index]
	case *ssa.Slice:
		fr.env[x] = m.slice(fr, x)
	case *ssa.Return:
		switch len(x.Results) {
		case 0:
		case 1:
			fr.result = fr.get(x.Results[0])
		default:
			t := make(Tuple, len(x.Results))
			for i, r := range x.Results {
				t[i] = fr.get(r)
			}
			fr.result = t
		}
		fr.block = nil
		return kReturn
	case *ssa.RunDefers:
		m.runDefers(fr)
		m.curFrame = fr
	case *ssa.Panic:
		m.goPanic(fr.get(x.X))
	case *ssa.Send:
		m.chanSend(fr.get(x.Chan).(*ChanV), fr.get(x.X))
		m.curFrame = fr
	case *ssa.Store:
		m.store(fr.get(x.Addr), fr.get(x.Val))
	case *ssa.If:
		cond := fr.get(x.Cond).(*Term)
		s := 1
		if m.merge && !cond.isConst() && m.single() {
			c, te, fe, k, done := m.branch(fr, x, cond)
			if done {
				return k
			}
			e := fe
			if m.decide(c) {
				e = te
			}
			fr.prev, fr.block = e.prev, e.to
			m.phis(fr)
			return kJump
		}
		if m.decide(cond) {
			s = 0
		}
		fr.prev, fr.block = fr.block, fr.block.Succs[s]
		m.phis(fr)
		return kJump
	case *ssa.Jump:
		fr.prev, fr.block = fr.block, fr.block.Succs[0]
		m.phis(fr)
		return kJump
	case *ssa.Defer:
		fn, args := m.prepare(fr, &x.Call)
		target := fr
		if x.DeferStack != nil {
			if tf, ok := fr.get(x.DeferStack).(*Frame); ok {
				target = tf
			}
		}
		target.defers = append(target.defers, &deferred{fn, args})
	case *ssa.Go:
		fn, args := m.prepare(fr, &x.Call)
		m.goStmt(fn, args)
	case *ssa.MakeChan:
		n := m.intOf(fr.get(x.Size), "chan size")
		fr.env[x] = m.newChan(n, x.Type().Underlying().(*types.Chan).Elem())
	case *ssa.Alloc:
		v := new(Value)
		*v = m.zero(deref(x.Type()))
		if x.Heap {
			fr.env[x] = v
		} else {
			// re-zero the local
			if p, ok := fr.env[x].(*Value); ok && m.spec.depth == 0 {
				*p = *v
			} else {
				fr.env[x] = v
			}
		}
	case *ssa.MakeSlice:
		n := m.intOf(fr.get(x.Len), "make len")
		cp := m.intOf(fr.get(x.Cap), "make cap")
		if n < 0 || n > cp {
			m.goPanicStr("runtime error: makeslice: len out of range")
		}
		if cp > 1<<20 {
			m.end("limit", "huge make")
		}
		el := x.Type().Underlying().(*types.Slice).Elem()
		s := make([]Value, n, cp)
		for i := range s {
			s[i] = m.zero(el)
		}
		full := s[:cp]
		for i := n; i < cp; i++ {
			full[i] = m.zero(el)
		}
		fr.env[x] = s
	case *ssa.MakeMap:
		fr.env[x] = newMap()
	case *ssa.Range:
		fr.env[x] = m.rangeIter(fr.get(x.X))
	case *ssa.Next:
		fr.env[x] = m.iterNext(fr.get(x.Iter).(*iter), x)
	case *ssa.FieldAddr:
		p := fr.get(x.X)
		pp, ok := p.(*Value)
		if !ok {
			m.unsupported(fmt.Sprintf("fieldaddr of %T", p))
		}
		if pp == nil {
			m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		st, ok := (*pp).(Struct)
		if !ok {
			m.unsupported(fmt.Sprintf("fieldaddr into %T (%s)", *pp, x.X.Type()))
		}
		fr.env[x] = &st[x.Field]
	case *ssa.IndexAddr:
		fr.env[x] = m.indexAddr(fr.get(x.X), fr.get(x.Index).(*Term))
	case *ssa.Field:
		fr.env[x] = fr.get(x.X).(Struct)[x.Field]
	case *ssa.Index:
		fr.env[x] = m.index(fr.get(x.X), fr.get(x.Index).(*Term))
	case *ssa.Lookup:
		fr.env[x] = m.lookup(fr.get(x.X), fr.get(x.Index), x)
	case *ssa.MapUpdate:
		mp := fr.get(x.Map).(*MapV)
		if mp == nil {
			m.goPanicStr("assignment to entry in nil map")
		}
		k := fr.get(x.Key)
		m.mapAccess(mp)
		mp.set(m.keyOf(k), k, copyVal(fr.get(x.Value)))
	case *ssa.TypeAssert:
		fr.env[x] = m.typeAssert(x, fr.get(x.X).(Iface))
	case *ssa.MakeClosure:
		var b []Value
		for _, v := range x.Bindings {
			b = append(b, fr.get(v))
		}
		fr.env[x] = &Closure{x.Fn.(*ssa.Function), b}
	case *ssa.Phi:
		// handled on block entry
	case *ssa.Select:
		var cases []selCase
		for _, st := range x.States {
			ch, _ := fr.get(st.Chan).(*ChanV)
			sc := selCase{ch: ch, send: st.Dir == types.SendOnly}
			if sc.send {
				sc.val = fr.get(st.Send)
			}
			cases = append(cases, sc)
		}
		i, v, ok := m.selectStmt(cases, x.Blocking)
		m.curFrame = fr
		r := Tuple{m.c.Int(int64(i)), m.c.Bool(ok)}
		for j, st := range x.States {
			if st.Dir == types.RecvOnly {
				if j == i {
					if v == nil {
						v = m.zero(st.Chan.Type().Underlying().(*types.Chan).Elem())
					}
					r = append(r, v)
				} else {
					r = append(r, m.zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
		}
		fr.env[x] = r
	default:
		m.unsupported(fmt.Sprintf("instruction %T", ins))
	}
	return kNext
}

func (m *Machine) goStmt(fn Value, args []Value) {
	var th *Thread
	th = m.spawn(func() {
		m.curFrame = nil
		m.call(nil, fn, args)
	})
	_ = th
	m.schedPoint("go")
}

func (m *Machine) phis(fr *Frame) {
	idx := -1
	for i, p := range fr.block.Preds {
		if p == fr.prev {
			idx = i
			break
		}
	}
	var vals []Value
	var phis []*ssa.Phi
	for _, ins := range fr.block.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, fr.get(p.Edges[idx]))
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
}

func (m *Machine) prepare(fr *Frame, call *ssa.CallCommon) (Value, []Value) {
	var fn Value
	var args []Value
	v := fr.get(call.Value)
	if call.Method == nil {
		fn = v
	} else {
		recv := v.(Iface)
		if recv.t == nil {
			m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		f := m.findMethod(recv.t, call.Method)
		if f == nil {
			m.unsupported("method " + call.Method.String() + " on " + recv.t.String())
		}
		fn = f
		args = append(args, recv.v)
	}
	for _, a := range call.Args {
		args = append(args, fr.get(a))
	}
	return fn, args
}

func (m *Machine) findMethod(t types.Type, meth *types.Func) *ssa.Function {
	return m.prog.LookupMethod(t, meth.Pkg(), meth.Name())
}

func (m *Machine) callMethod(fr *Frame, i Iface, name string, args ...Value) (Value, bool) {
	ms := m.prog.MethodSets.MethodSet(i.t)
	for k := 0; k < ms.Len(); k++ {
		if ms.At(k).Obj().Name() == name {
			f := m.prog.MethodValue(ms.At(k))
			if f == nil {
				return nil, false
			}
			return m.call(fr, f, append([]Value{i.v}, args...)), true
		}
	}
	return nil, false
}

func (m *Machine) unop(fr *Frame, x *ssa.UnOp) Value {
	v := fr.get(x.X)
	switch x.Op {
	case token.MUL:
		return m.load(v)
	case token.NOT:
		return m.c.Not(v.(*Term))
	case token.SUB:
		t := v.(*Term)
		if t.sort == SFP {
			return m.c.FpNeg(t)
		}
		if t.sort == SFP32 {
			return m.c.Float32(-math.Float32frombits(uint32(t.k)))
		}
		return m.c.BvNeg(t)
	case token.XOR:
		return m.c.BvNot(v.(*Term))
	case token.ARROW:
		ch, _ := v.(*ChanV)
		val, ok := m.chanRecv(ch)
		m.curFrame = fr
		if x.CommaOk {
			return Tuple{val, m.c.Bool(ok)}
		}
		return val
	}
	m.unsupported("unop " + x.Op.String())
	return nil
}

func (m *Machine) binop(op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	c := m.c
	switch op {
	case token.EQL:
		return m.eq(x, y)
	case token.NEQ:
		return c.Not(m.eq(x, y))
	}
	if s, ok := x.(Str); ok {
		r := y.(Str)
		s, r = m.concStr(s), m.concStr(r)
		switch op {
		case token.ADD:
			if s.op != 0 || r.op != 0 {
				return m.opaque()
			}
			return Str{s: s.s + r.s}
		}
		if s.op != 0 || r.op != 0 {
			m.unsupported("ordering of opaque strings")
		}
		switch op {
		case token.LSS:
			return c.Bool(s.s < r.s)
		case token.LEQ:
			return c.Bool(s.s <= r.s)
		case token.GTR:
			return c.Bool(s.s > r.s)
		case token.GEQ:
			return c.Bool(s.s >= r.s)
		}
	}
	a, ok1 := x.(*Term)
	b, ok2 := y.(*Term)
	if !ok1 || !ok2 {
		m.unsupported(fmt.Sprintf("binop %s on %T", op, x))
	}
	if a.sort == SBool {
		switch op {
		case token.AND:
			return c.And(a, b)
		case token.OR:
			return c.Or(a, b)
		}
		m.unsupported("bool binop " + op.String())
	}
	if a.sort == SFP32 {
		p, q := math.Float32frombits(uint32(a.k)), math.Float32frombits(uint32(b.k))
		switch op {
		case token.ADD:
			return c.Float32(p + q)
		case token.SUB:
			return c.Float32(p - q)
		case token.MUL:
			return c.Float32(p * q)
		case token.QUO:
			return c.Float32(p / q)
		case token.LSS:
			return c.Bool(p < q)
		case token.LEQ:
			return c.Bool(p <= q)
		case token.GTR:
			return c.Bool(p > q)
		case token.GEQ:
			return c.Bool(p >= q)
		}
	}
	if a.sort == SFP {
		switch op {
		case token.ADD:
			return c.FpAdd(a, b)
		case token.SUB:
			return c.FpSub(a, b)
		case token.MUL:
			return c.FpMul(a, b)
		case token.QUO:
			return c.FpDiv(a, b)
		case token.LSS:
			return c.FpCmp(OFpLt, a, b)
		case token.LEQ:
			return c.FpCmp(OFpLe, a, b)
		case token.GTR:
			return c.FpCmp(OFpLt, b, a)
		case token.GEQ:
			return c.FpCmp(OFpLe, b, a)
		}
		m.unsupported("float binop " + op.String())
	}
	_, signed, _ := intWidth(t)
	switch op {
	case token.SHL, token.SHR:
		_, ysigned, _ := intWidth(yt)
		if ysigned {
			if m.decide(c.BvCmp(OBvSlt, b, c.BV(0, b.sort))) {
				m.goPanicStr("runtime error: negative shift amount")
			}
		}
		w := a.sort
		if b.sort > w {
			big := c.BvCmp(OBvUle, c.BV(uint64(w), b.sort), b)
			b = c.Ite(big, c.BV(uint64(w), w), c.Resize(b, w, false))
		} else {
			b = c.Resize(b, w, false)
		}
		switch {
		case op == token.SHL:
			return c.BvBin(OBvShl, a, b)
		case signed:
			return c.BvBin(OBvAshr, a, b)
		default:
			return c.BvBin(OBvLshr, a, b)
		}
	case token.ADD:
		return c.BvBin(OBvAdd, a, b)
	case token.SUB:
		return c.BvBin(OBvSub, a, b)
	case token.MUL:
		return c.BvBin(OBvMul, a, b)
	case token.QUO, token.REM:
		if m.decide(c.Eq(b, c.BV(0, b.sort))) {
			m.goPanicStr("runtime error: integer divide by zero")
		}
		o := OBvUDiv
		switch {
		case op == token.QUO && signed:
			o = OBvSDiv
		case op == token.REM && signed:
			o = OBvSRem
		case op == token.REM:
			o = OBvURem
		}
		return c.BvBin(o, a, b)
	case token.AND:
		return c.BvBin(OBvAnd, a, b)
	case token.OR:
		return c.BvBin(OBvOr, a, b)
	case token.XOR:
		return c.BvBin(OBvXor, a, b)
	case token.AND_NOT:
		return c.BvBin(OBvAnd, a, c.BvNot(b))
	}
	lt, le := OBvUlt, OBvUle
	if signed {
		lt, le = OBvSlt, OBvSle
	}
	switch op {
	case token.LSS:
		return c.BvCmp(lt, a, b)
	case token.LEQ:
		return c.BvCmp(le, a, b)
	case token.GTR:
		return c.BvCmp(lt, b, a)
	case token.GEQ:
		return c.BvCmp(le, b, a)
	}
	m.unsupported("binop " + op.String())
	return nil
}

func (m *Machine) opaque() Str {
	m.opSeq++
	return Str{op: m.opSeq}
}

func (m *Machine) convert(dst, src types.Type, v Value) Value {
	c := m.c
	du, su := dst.Underlying(), src.Underlying()
	if tp, ok := dst.(*types.TypeParam); ok {
		_ = tp
		m.unsupported("convert to type parameter")
	}
	switch d := du.(type) {
	case *types.Pointer:
		return v
	case *types.Slice:
		if s, ok := v.(Str); ok {
			s = m.concStr(s)
			if s.op != 0 {
				m.unsupported("bytes of opaque string")
			}
			el := d.Elem().Underlying().(*types.Basic)
			var out []Value
			if el.Kind() == types.Byte {
				for i := 0; i < len(s.s); i++ {
					out = append(out, c.BV(uint64(s.s[i]), 8))
				}
			} else {
				for _, r := range s.s {
					out = append(out, c.BV(uint64(r), 32))
				}
			}
			if out == nil {
				out = []Value{}
			}
			return out
		}
		return v
	case *types.Basic:
		if d.Info()&types.IsString != 0 {
			switch x := v.(type) {
			case Str:
				return x
			case *Term:
				if !x.isConst() {
					return m.opaque()
				}
				return Str{s: string(rune(sext(x.k, x.sort)))}
			case []Value:
				el := su.(*types.Slice).Elem().Underlying().(*types.Basic)
				var b []byte
				var rs []rune
				for _, e := range x {
					t := e.(*Term)
					if !t.isConst() {
						return m.opaque()
					}
					b = append(b, byte(t.k))
					rs = append(rs, rune(sext(t.k, t.sort)))
				}
				if el.Kind() == types.Byte {
					return Str{s: string(b)}
				}
				return Str{s: string(rs)}
			}
		}
		if d.Kind() == types.UnsafePointer {
			return v
		}
		t, ok := v.(*Term)
		if !ok {
			m.unsupported(fmt.Sprintf("convert %T to %s", v, dst))
		}
		dw, _, dint := intWidth(d)
		_, ssigned, sint := intWidth(su)
		switch {
		case dint && sint:
			return c.Resize(t, dw, ssigned)
		case dint && t.sort == SFP:
			if dw == 64 {
				_, ds, _ := intWidth(d)
				if !ds {
					// uint64(f): values < 2^63 go through the signed conversion
					if t.isConst() {
						return c.BV(uint64(t.f64()), 64)
					}
					if m.decide(c.And(c.FpCmp(OFpLt, t, c.Float(9223372036854775808.0)), c.FpCmp(OFpLe, c.Float(0), t))) {
						return c.F2S(t)
					}
					m.unsupported("uint64 conversion outside [0,2^63)")
				}
				return c.F2S(t)
			}
			if dw == 32 {
				_, ds, _ := intWidth(d)
				if ds {
					in := c.And(c.FpCmp(OFpLt, t, c.Float(2147483648)), c.FpCmp(OFpLt, c.Float(-2147483649), t))
					return c.Ite(in, c.Resize(c.F2S(t), 32, true), c.BV(0x80000000, 32))
				}
			}
			return c.Resize(c.F2S(t), dw, true)
		case d.Kind() == types.Float32:
			if t.sort == SFP && t.isConst() {
				return c.Float32(float32(t.f64()))
			}
			if sint && t.isConst() {
				if ssigned {
					return c.Float32(float32(sext(t.k, t.sort)))
				}
				return c.Float32(float32(t.k))
			}
			if t.sort == SFP32 {
				return t
			}
			m.unsupported("symbolic float32")
		case d.Info()&types.IsFloat != 0:
			if t.sort == SFP {
				return t
			}
			if t.sort == SFP32 {
				return c.Float(float64(math.Float32frombits(uint32(t.k))))
			}
			if sint {
				if ssigned {
					return c.S2F(t)
				}
				return c.U2F(t)
			}
		}
	}
	m.unsupported(fmt.Sprintf("convert %s to %s", src, dst))
	return nil
}

func (m *Machine) slice(fr *Frame, x *ssa.Slice) Value {
	v := fr.get(x.X)
	var base []Value
	var str *Str
	switch b := v.(type) {
	case []Value:
		base = b
	case Str:
		if b.op != 0 {
			return m.opaque()
		}
		str = &b
	case *Value:
		if b == nil {
			m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		base = []Value((*b).(Array))
	default:
		m.unsupported(fmt.Sprintf("slice of %T", v))
	}
	n, cp := len(base), cap(base)
	if str != nil {
		n, cp = len(str.s), len(str.s)
	}
	lo, hi, mx := 0, n, cp
	if x.Low != nil {
		lo = m.intOf(fr.get(x.Low), "slice low")
	}
	if x.High != nil {
		hi = m.intOf(fr.get(x.High), "slice high")
	}
	if x.Max != nil {
		mx = m.intOf(fr.get(x.Max), "slice max")
	}
	if lo < 0 || hi < lo || mx < hi || mx > cp {
		m.goPanicStr(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with capacity %d", lo, hi, cp))
	}
	if str != nil {
		return Str{s: str.s[lo:hi]}
	}
	if base == nil {
		return []Value(nil)
	}
	return base[lo:hi:mx]
}

func (m *Machine) idx(t *Term, n int) int {
	if !t.isConst() {
		t64 := m.c.Resize(t, 64, true)
		if m.decide(m.c.Not(m.c.BvCmp(OBvUlt, t64, m.c.Int(int64(n))))) {
			m.goPanicStr("runtime error: index out of range")
		}
		t = m.concretize(t, "index")
	}
	i := int(sext(t.k, t.sort))
	if t.sort < 64 {
		i = int(sext(t.k, t.sort))
	}
	if i < 0 || i >= n {
		m.goPanicStr(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, n))
	}
	return i
}

func (m *Machine) indexAddr(v Value, i *Term) Value {
	switch b := v.(type) {
	case []Value:
		return &b[m.idx(i, len(b))]
	case *Value:
		if b == nil {
			m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		a := (*b).(Array)
		return &a[m.idx(i, len(a))]
	}
	m.unsupported(fmt.Sprintf("indexaddr %T", v))
	return nil
}
func (m *Machine) index(v Value, i *Term) Value {
	switch b := v.(type) {
	case Array:
		return b[m.idx(i, len(b))]
	case Str:
		b = m.concStr(b)
		if b.op != 0 {
			m.unsupported("index of opaque string")
		}
		return m.c.BV(uint64(b.s[m.idx(i, len(b.s))]), 8)
	}
	m.unsupported(fmt.Sprintf("index %T", v))
	return nil
}
func (m *Machine) mapAccess(mp *MapV) {
	if m.shareTrack && m.preempt > 0 {
		m.schedPoint("map access")
	}
}
func (m *Machine) lookup(v Value, k Value, x *ssa.Lookup) Value {
	if s, ok := v.(Str); ok {
		return m.index(s, k.(*Term))
	}
	mp := v.(*MapV)
	var r Value
	ok := false
	if mp != nil {
		m.mapAccess(mp)
		r, ok = mp.get(m.keyOf(k))
	}
	if !ok {
		r = m.zero(x.X.Type().Underlying().(*types.Map).Elem())
	}
	r = copyVal(r)
	if x.CommaOk {
		return Tuple{r, m.c.Bool(ok)}
	}
	return r
}

type iter struct {
	mp      *MapV
	str     string
	pos     int
	visited map[*mapEntry]bool
}

func (m *Machine) rangeIter(v Value) *iter {
	switch x := v.(type) {
	case *MapV:
		return &iter{mp: x, visited: map[*mapEntry]bool{}}
	case Str:
		x = m.concStr(x)
		if x.op != 0 {
			m.unsupported("range over opaque string")
		}
		return &iter{str: x.s}
	}
	m.unsupported(fmt.Sprintf("range over %T", v))
	return nil
}

func (m *Machine) iterNext(it *iter, x *ssa.Next) Value {
	c := m.c
	if x.IsString {
		if it.pos >= len(it.str) {
			return Tuple{c.F, c.Int(0), c.BV(0, 32)}
		}
		for i, r := range it.str[it.pos:] {
			_ = i
			p := it.pos
			it.pos += len(string(r))
			return Tuple{c.T, c.Int(int64(p)), c.BV(uint64(r), 32)}
		}
	}
	tt := x.Type().(*types.Tuple)
	zk, zv := Value(nil), Value(nil)
	if !types.Identical(tt.At(1).Type(), types.Typ[types.Invalid]) {
		zk = m.zero(tt.At(1).Type())
	}
	if !types.Identical(tt.At(2).Type(), types.Typ[types.Invalid]) {
		zv = m.zero(tt.At(2).Type())
	}
	if it.mp != nil {
		var avail []*mapEntry
		for _, e := range it.mp.order {
			if !e.dead && !it.visited[e] {
				avail = append(avail, e)
				if !m.mapNondet {
					break
				}
			}
		}
		if len(avail) > 0 {
			m.mapForked = m.mapForked || len(avail) > 1
			e := avail[m.choose(len(avail), "maporder")]
			it.visited[e] = true
			return Tuple{c.T, e.k, copyVal(e.v)}
		}
	}
	return Tuple{c.F, zk, zv}
}

func (m *Machine) typeAssert(x *ssa.TypeAssert, i Iface) Value {
	ok := false
	var v Value
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		if i.t != nil && m.implements(i.t, it) {
			ok, v = true, i
		}
	} else if i.t != nil && types.Identical(i.t, x.AssertedType) {
		ok, v = true, copyVal(i.v)
	}
	if !ok {
		if !x.CommaOk {
			m.goPanicStr(fmt.Sprintf("interface conversion: interface is not %s", x.AssertedType))
		}
		v = m.zero(x.AssertedType)
	}
	if x.CommaOk {
		return Tuple{v, m.c.Bool(ok)}
	}
	return v
}

func (m *Machine) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

func (m *Machine) callBuiltin(fr *Frame, b *ssa.Builtin, args []Value) Value {
	c := m.c
	switch b.Name() {
	case "len", "cap":
		n := 0
		switch x := args[0].(type) {
		case []Value:
			n = len(x)
			if b.Name() == "cap" {
				n = cap(x)
			}
		case Str:
			x = m.concStr(x)
			if x.op != 0 {
				m.unsupported("len of opaque string")
			}
			n = len(x.s)
		case *MapV:
			if x != nil {
				m.mapAccess(x)
				n = x.n
			}
		case *ChanV:
			if x != nil {
				m.schedPoint("chan len")
				n = len(x.buf)
				if b.Name() == "cap" {
					n = x.cap
				}
			}
		case Array:
			n = len(x)
		case *Value:
			n = len((*x).(Array))
		default:
			m.unsupported(fmt.Sprintf("len of %T", x))
		}
		return c.Int(int64(n))
	case "append":
		s, _ := args[0].([]Value)
		switch t := args[1].(type) {
		case []Value:
			if s == nil && len(t) == 0 {
				return s
			}
			old := cap(s)
			for _, e := range t {
				s = append(s, copyVal(e))
			}
			if cap(s) != old {
				// zero the spare capacity lazily: reslicing beyond len is rare
				el := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
				full := s[:cap(s)]
				for i := len(s); i < cap(s); i++ {
					full[i] = m.zero(el)
				}
			}
			return s
		case Str:
			for i := 0; i < len(t.s); i++ {
				s = append(s, c.BV(uint64(t.s[i]), 8))
			}
			return s
		}
	case "copy":
		d := args[0].([]Value)
		switch s := args[1].(type) {
		case []Value:
			n := len(s)
			if len(d) < n {
				n = len(d)
			}
			tmp := make([]Value, n)
			for i := range tmp {
				tmp[i] = copyVal(s[i])
			}
			for i := range tmp {
				m.assign(&d[i], tmp[i])
			}
			return c.Int(int64(n))
		case Str:
			n := 0
			for i := 0; i < len(s.s) && i < len(d); i++ {
				d[i] = c.BV(uint64(s.s[i]), 8)
				n++
			}
			return c.Int(int64(n))
		}
	case "delete":
		mp := args[0].(*MapV)
		if mp != nil {
			m.mapAccess(mp)
			mp.del(m.keyOf(args[1]))
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				for _, e := range x.order {
					e.dead = true
				}
				x.order, x.idx, x.n = nil, map[any]*mapEntry{}, 0
			}
		case []Value:
			el := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				m.assign(&x[i], m.zero(el))
			}
		}
		return nil
	case "close":
		ch, _ := args[0].(*ChanV)
		m.chanClose(ch)
		return nil
	case "panic":
		m.goPanic(args[0])
	case "recover":
		// fr is the deferred function's frame; its caller runs the defers
		if fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			v := fr.caller.panicV.v
			if v == nil {
				return Iface{}
			}
			return v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			switch x := r.(type) {
			case *Term:
				y := a.(*Term)
				if x.sort == SFP {
					if b.Name() == "min" {
						r = c.FpMin(x, y, true)
					} else {
						r = c.FpMax(x, y, true)
					}
				} else {
					_, signed, _ := intWidth(b.Type().(*types.Signature).Params().At(0).Type())
					lt := OBvUlt
					if signed {
						lt = OBvSlt
					}
					if b.Name() == "min" {
						r = c.Ite(c.BvCmp(lt, y, x), y, x)
					} else {
						r = c.Ite(c.BvCmp(lt, x, y), y, x)
					}
				}
			case Str:
				y := a.(Str)
				if (b.Name() == "min") == (y.s < x.s) {
					r = y
				}
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			m.goPanicStr("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return fr
	}
	m.unsupported("builtin " + b.Name())
	return nil
}

var _ = time.Now
