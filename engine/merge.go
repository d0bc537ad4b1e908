package main

// Path merging (opt-in per harness, vrt.Merge): at a branch on a symbolic
// condition whose arms only compute values and write memory, both arms are
// executed and their results joined with ite terms instead of forking.
// Anything else (calls with effects, panics, decisions on data, values that
// cannot be joined) falls back to forking, so merging never loses behaviours.

import (
	"go/token"
	"reflect"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type specAbort struct{ why string }

type jrec struct {
	p   *Value
	old Value
}

type specState struct {
	depth   int
	journal []jrec
	steps   int
}

const (
	specMaxSteps = 20000
	specMaxBlock = 60
)

type cfgInfo struct {
	once  sync.Once
	ipdom map[*ssa.BasicBlock]*ssa.BasicBlock // nil: function exit
	ok    map[*ssa.BasicBlock]bool            // has an ipdom (reaches exit)
}

var (
	cfgCache  sync.Map // *ssa.Function -> *cfgInfo
	blkCache  sync.Map // *ssa.BasicBlock -> int (bit0 eligible, bit1 store-free)
	regCache  sync.Map // [2]*ssa.BasicBlock -> bool
	pureIntrs = map[string]bool{}
)

func init() {
	for _, n := range strings.Fields("And Or Implies Iff IteF IteI IsFinite SameF") {
		pureIntrs[vrtPath+"."+n] = true
	}
}

func pureIntrinsic(key string) bool {
	return pureIntrs[key] || strings.HasPrefix(key, "math.") || strings.HasPrefix(key, "math/bits.")
}

func cfgOf(fn *ssa.Function) *cfgInfo {
	v, _ := cfgCache.LoadOrStore(fn, &cfgInfo{})
	ci := v.(*cfgInfo)
	ci.once.Do(func() {
		n := len(fn.Blocks)
		// post-dominator sets over blocks 0..n-1 plus exit n; panicking blocks have no successors
		full := make([]bool, n+1)
		for i := range full {
			full[i] = true
		}
		pd := make([][]bool, n+1)
		for i := 0; i <= n; i++ {
			pd[i] = append([]bool{}, full...)
		}
		pd[n] = make([]bool, n+1)
		pd[n][n] = true
		succs := func(b *ssa.BasicBlock) []int {
			if len(b.Instrs) > 0 {
				if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					return []int{n}
				}
			}
			var r []int
			for _, s := range b.Succs {
				r = append(r, s.Index)
			}
			return r
		}
		for ch := true; ch; {
			ch = false
			for i := n - 1; i >= 0; i-- {
				ss := succs(fn.Blocks[i])
				nw := append([]bool{}, full...)
				for _, s := range ss {
					for k := range nw {
						nw[k] = nw[k] && pd[s][k]
					}
				}
				nw[i] = true
				if !reflect.DeepEqual(nw, pd[i]) {
					pd[i] = nw
					ch = true
				}
			}
		}
		cnt := func(i int) int {
			c := 0
			for _, b := range pd[i] {
				if b {
					c++
				}
			}
			return c
		}
		ci.ipdom = map[*ssa.BasicBlock]*ssa.BasicBlock{}
		ci.ok = map[*ssa.BasicBlock]bool{}
		for i := 0; i < n; i++ {
			if len(succs(fn.Blocks[i])) == 0 || !pd[i][n] {
				continue
			}
			// immediate: the strict post-dominator with the largest set
			best, bc := -1, -1
			for k := 0; k <= n; k++ {
				if k != i && pd[i][k] {
					if c := cnt(k); c > bc {
						best, bc = k, c
					}
				}
			}
			if best < 0 {
				continue
			}
			ci.ok[fn.Blocks[i]] = true
			if best < n {
				ci.ipdom[fn.Blocks[i]] = fn.Blocks[best]
			}
		}
	})
	return ci
}

// fnPure classifies a function: bit0 all blocks eligible, bit1 no stores.
func (m *Machine) fnPure(fn *ssa.Function, depth int) int {
	key := m.e.key(fn)
	if intrinsics[key] != nil {
		if pureIntrinsic(key) {
			return 3
		}
		return 0
	}
	if fn.Blocks == nil || depth > 6 || (fn.Pkg != nil && blockedPkgs[fn.Pkg.Pkg.Path()]) {
		return 0
	}
	r := 3
	for _, b := range fn.Blocks {
		r &= m.blkPure(b, depth+1)
		if r == 0 {
			break
		}
	}
	return r
}

func (m *Machine) blkPure(b *ssa.BasicBlock, depth int) int {
	if v, ok := blkCache.Load(b); ok {
		return v.(int)
	}
	if depth > 6 {
		return 0
	}
	r := 3
	for _, ins := range b.Instrs {
		switch x := ins.(type) {
		case *ssa.DebugRef, *ssa.BinOp, *ssa.ChangeInterface, *ssa.ChangeType, *ssa.Convert, *ssa.MakeInterface,
			*ssa.Extract, *ssa.Return, *ssa.If, *ssa.Jump, *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field,
			*ssa.Index, *ssa.Phi, *ssa.RunDefers, *ssa.Slice, *ssa.TypeAssert:
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				r = 0
			}
		case *ssa.Store:
			if _, ok := x.Addr.(*ssa.Alloc); !ok {
				r &= 1
			}
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "len", "cap", "min", "max", "ssa:wrapnilchk":
				default:
					r = 0
				}
				break
			}
			f := x.Call.StaticCallee()
			if f == nil || f == b.Parent() {
				r = 0
				break
			}
			r &= m.fnPure(f, depth)
		default:
			r = 0
		}
		if r == 0 {
			break
		}
	}
	if depth == 0 || r == 3 {
		blkCache.Store(b, r)
	}
	return r
}

// regionOK: every block between the arms and the join is eligible and the
// branch itself is not in the region (no loop through it).
func (m *Machine) regionOK(from, t, f, join *ssa.BasicBlock) bool {
	k := [4]*ssa.BasicBlock{from, t, f, join}
	if v, ok := regCache.Load(k); ok {
		return v.(bool)
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == join || seen[b] {
			return true
		}
		if b == from || len(seen) >= specMaxBlock {
			return false
		}
		seen[b] = true
		if m.blkPure(b, 0)&1 == 0 {
			return false
		}
		for _, s := range b.Succs {
			if !walk(s) {
				return false
			}
		}
		return true
	}
	r := walk(t) && walk(f)
	regCache.Store(k, r)
	return r
}

func (m *Machine) abortSpec(why string) {
	panic(&specAbort{why})
}

// speculate runs f; on abort everything it did is undone.
func (m *Machine) speculate(fr *Frame, f func()) (ok bool) {
	if m.spec.depth > 0 {
		f()
		return true
	}
	block, prev, result, instr := fr.block, fr.prev, fr.result, fr.instr
	cf, frames, call := m.curFrame, m.cur.frames, m.cur.call
	m.spec.depth++
	m.spec.journal = nil
	m.spec.steps = 0
	defer func() {
		m.spec.depth--
		if ok {
			m.spec.journal = nil
			return
		}
		m.undo(0)
		r := recover()
		if _, is := r.(*specAbort); !is {
			panic(r)
		}
		fr.block, fr.prev, fr.result, fr.instr = block, prev, result, instr
		m.curFrame, m.cur.frames, m.cur.call = cf, frames, call
	}()
	f()
	return true
}

func (m *Machine) undo(n int) {
	for i := len(m.spec.journal) - 1; i >= n; i-- {
		*m.spec.journal[i].p = m.spec.journal[i].old
	}
	m.spec.journal = m.spec.journal[:n]
}

func (m *Machine) jset(p *Value, v Value) {
	if m.spec.depth > 0 {
		m.spec.journal = append(m.spec.journal, jrec{p, *p})
	}
	*p = v
}

func (m *Machine) specExec(fr *Frame, ins ssa.Instruction) kont {
	m.steps++
	m.spec.steps++
	if m.spec.steps > specMaxSteps {
		m.abortSpec("steps")
	}
	fr.instr = ins
	m.curFrame = fr
	return m.exec(fr, ins)
}

// runArm executes from the edge prev->b until join (nil: function return).
func (m *Machine) runArm(fr *Frame, prev, b, join *ssa.BasicBlock) {
	fr.prev, fr.block = prev, b
	m.phis(fr)
	for fr.block != join {
		if fr.block == nil {
			m.abortSpec("left region")
		}
		for _, ins := range fr.block.Instrs {
			k := m.specExec(fr, ins)
			if k == kReturn {
				if join != nil {
					m.abortSpec("return inside region")
				}
				return
			}
			if k == kJump {
				break
			}
		}
	}
}

type edge struct{ prev, to *ssa.BasicBlock }

// branch executes an If on a symbolic condition in merge mode. It reports
// handled=false when the caller should fork on (cond, t, f).
func (m *Machine) branch(fr *Frame, x *ssa.If, cond *Term) (c *Term, t, f edge, k kont, handled bool) {
	b := x.Block()
	t, f = edge{b, b.Succs[0]}, edge{b, b.Succs[1]}
	c = cond
	last := b
	// short-circuit chains
	for n := 0; n < 64; n++ {
		var nc *Term
		var nt, nf edge
		var nl *ssa.BasicBlock
		found := m.speculate(fr, func() {
			try := func(next edge, shared edge, or bool) bool {
				nb := next.to
				if nb == shared.to || len(nb.Preds) != 1 || len(nb.Instrs) == 0 || m.blkPure(nb, 0) != 3 {
					return false
				}
				i2, ok := nb.Instrs[len(nb.Instrs)-1].(*ssa.If)
				if !ok {
					return false
				}
				var other *ssa.BasicBlock
				neg := false // does i2 reach shared on false?
				switch shared.to {
				case nb.Succs[0]:
					other = nb.Succs[1]
				case nb.Succs[1]:
					other, neg = nb.Succs[0], true
				default:
					return false
				}
				if other == shared.to {
					return false
				}
				fr.prev, fr.block = next.prev, nb
				m.phis(fr)
				for _, ins := range nb.Instrs[:len(nb.Instrs)-1] {
					m.specExec(fr, ins)
				}
				// the shared target must not tell the two edges apart
				p1, p2 := predIdx(shared.to, shared.prev), predIdx(shared.to, nb)
				for _, ins := range shared.to.Instrs {
					p, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					if !sameVal(fr.get(p.Edges[p1]), fr.get(p.Edges[p2])) {
						return false
					}
				}
				c2 := fr.get(i2.Cond).(*Term) // cond under which i2 goes to Succs[0]
				if neg {
					c2 = m.c.Not(c2)
				}
				// c2: goes to shared
				if or {
					nc = m.c.Or(c, c2)
					nt, nf = shared, edge{nb, other}
				} else {
					nc = m.c.And(c, m.c.Not(c2))
					nt, nf = edge{nb, other}, shared
				}
				nl = nb
				return true
			}
			if try(f, t, true) {
				return
			}
			try(t, f, false)
		})
		if !found || nl == nil {
			break
		}
		c, t, f, last = nc, nt, nf, nl
		if c.isConst() {
			fr.block, fr.prev = b, nil
			return c, t, f, 0, false
		}
	}
	fr.block = b
	ci := cfgOf(b.Parent())
	if !ci.ok[last] {
		return c, t, f, 0, false
	}
	join := ci.ipdom[last]
	if join == nil && len(fr.defers) > 0 {
		return c, t, f, 0, false
	}
	if join == b || !m.regionOK(b, t.to, f.to, join) {
		return c, t, f, 0, false
	}
	ok := m.speculate(fr, func() {
		m.mergeArms(fr, c, t, f, join)
	})
	if !ok {
		return c, t, f, 0, false
	}
	m.e.merged.Add(1)
	if join == nil {
		fr.block = nil
		return c, t, f, kReturn, true
	}
	fr.block = join
	return c, t, f, kJump, true
}

func predIdx(b, p *ssa.BasicBlock) int {
	for i, q := range b.Preds {
		if q == p {
			return i
		}
	}
	return 0
}

func (m *Machine) mergeArms(fr *Frame, c *Term, t, f edge, join *ssa.BasicBlock) {
	var phis []*ssa.Phi
	var saved []Value
	if join != nil {
		for _, ins := range join.Instrs {
			p, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, p)
			saved = append(saved, fr.env[p])
		}
	}
	type outcome struct {
		phi    []Value
		result Value
		prev   *ssa.BasicBlock
		ptrs   []*Value
		val    map[*Value]Value
	}
	run := func(ed edge) outcome {
		n := len(m.spec.journal)
		res := fr.result
		m.runArm(fr, ed.prev, ed.to, join)
		var o outcome
		for _, p := range phis {
			o.phi = append(o.phi, fr.env[p])
		}
		o.result, o.prev = fr.result, fr.prev
		fr.result = res
		o.val = map[*Value]Value{}
		for _, j := range m.spec.journal[n:] {
			if _, ok := o.val[j.p]; !ok {
				o.ptrs = append(o.ptrs, j.p)
				o.val[j.p] = *j.p
			}
		}
		m.undo(n)
		for i, p := range phis {
			if saved[i] == nil {
				delete(fr.env, p)
			} else {
				fr.env[p] = saved[i]
			}
		}
		return o
	}
	a := run(t)
	b := run(f)
	for _, p := range append(a.ptrs, b.ptrs...) {
		va, oka := a.val[p]
		vb, okb := b.val[p]
		if !oka && !okb {
			continue
		}
		if !oka {
			va = *p
		}
		if !okb {
			vb = *p
		}
		m.jset(p, m.mergeVal(c, va, vb))
		delete(a.val, p)
		delete(b.val, p)
	}
	for i, p := range phis {
		fr.env[p] = m.mergeVal(c, a.phi[i], b.phi[i])
	}
	if join == nil {
		if a.result != nil || b.result != nil {
			fr.result = m.mergeVal(c, a.result, b.result)
		}
	}
	fr.prev = a.prev
}

func sameVal(a, b Value) (r bool) {
	switch x := a.(type) {
	case *Term, *Value, *MapV, *ChanV, *ssa.Function, *Closure, nil:
		return a == b
	case Str:
		y, ok := b.(Str)
		return ok && x.op == 0 && y.op == 0 && x.s == y.s || ok && x.op != 0 && x.op == y.op
	case Iface:
		y, ok := b.(Iface)
		if !ok || x.t != y.t {
			return false
		}
		return x.t == nil || sameVal(x.v, y.v)
	case []Value:
		y, ok := b.([]Value)
		if !ok || len(x) != len(y) || cap(x) != cap(y) {
			return false
		}
		if x == nil || y == nil {
			return x == nil && y == nil
		}
		return cap(x) == 0 || &x[:1][0] == &y[:1][0]
	}
	return false
}

func (m *Machine) mergeVal(c *Term, a, b Value) Value {
	if sameVal(a, b) {
		return a
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.sort == y.sort {
			return m.c.Ite(c, x, y)
		}
	case Struct:
		if y, ok := b.(Struct); ok && len(x) == len(y) {
			r := make(Struct, len(x))
			for i := range x {
				r[i] = m.mergeVal(c, x[i], y[i])
			}
			return r
		}
	case Array:
		if y, ok := b.(Array); ok && len(x) == len(y) {
			r := make(Array, len(x))
			for i := range x {
				r[i] = m.mergeVal(c, x[i], y[i])
			}
			return r
		}
	case Tuple:
		if y, ok := b.(Tuple); ok && len(x) == len(y) {
			r := make(Tuple, len(x))
			for i := range x {
				r[i] = m.mergeVal(c, x[i], y[i])
			}
			return r
		}
	case Iface:
		if y, ok := b.(Iface); ok && x.t == y.t && x.t != nil {
			return Iface{x.t, m.mergeVal(c, x.v, y.v)}
		}
	case Str:
		if y, ok := b.(Str); ok && x.op == 0 && y.op == 0 {
			o := m.opaque()
			o.sy = &symStr{m.c.Ite(c, m.c.Int(0), m.c.Int(1)), []string{x.s, y.s}}
			return o
		}
	}
	m.abortSpec("cannot join values")
	return nil
}

// single reports that only the current goroutine can run.
func (m *Machine) single() bool {
	for _, t := range m.threads {
		if !t.done && t != m.cur {
			return false
		}
	}
	return true
}
