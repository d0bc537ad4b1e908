package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	id                       string
	trivial, proved, unknown int
}

type ViolationRec struct {
	ID       string            `json:"assertion"`
	Kind     string            `json:"kind"`
	Msg      string            `json:"message"`
	Pos      string            `json:"position"`
	Harness  string            `json:"harness"`
	Inputs   []InputVal        `json:"inputs"`
	Schedule []string          `json:"schedule,omitempty"`
	RandSeed uint64            `json:"rand_seed,omitempty"`
	Show     map[string]string `json:"values,omitempty"`
	Threads  int               `json:"threads"`
	MapOrder bool              `json:"map_order,omitempty"`
}
type InputVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Bits uint64 `json:"bits"`
	Text string `json:"text"`
}

// Explorer runs one harness over all its paths.
type Explorer struct {
	mu       sync.Mutex
	prog     *ssa.Program
	fn       *ssa.Function
	harness  string
	tier     int
	deadline time.Time

	feasBudget, assertBudget time.Duration

	work       [][]int
	active     int
	cond       *sync.Cond
	obs        map[string]*Obligation
	reachd     map[string]bool
	viols      []*ViolationRec
	violIDs    map[string]bool
	incon      map[string]int
	ends       map[string]int
	endMsgs    map[string]string
	paths      int
	steps      int
	fns        map[*ssa.Function]bool
	fnkeys     sync.Map
	stop       bool
	maxPaths   int
	maxThreads int
	decKinds   map[string]int
	varCache   sync.Map
	stats      Stats
	merged     atomic.Int64
}

func newExplorer(prog *ssa.Program, fn *ssa.Function, tier int, budget time.Duration) *Explorer {
	e := &Explorer{prog: prog, fn: fn, harness: fn.Name(), tier: tier, deadline: time.Now().Add(budget),
		feasBudget: 3 * time.Second, assertBudget: 60 * time.Second,
		obs: map[string]*Obligation{}, reachd: map[string]bool{}, violIDs: map[string]bool{}, incon: map[string]int{}, ends: map[string]int{}, endMsgs: map[string]string{}, fns: map[*ssa.Function]bool{}, decKinds: map[string]int{}, maxPaths: 2000000}
	if tier > 0 {
		e.assertBudget = 240 * time.Second
		e.feasBudget = 10 * time.Second
	}
	e.cond = sync.NewCond(&e.mu)
	return e
}

func (e *Explorer) outOfTime() bool {
	now := time.Now()
	stop := candidateStop.Load()
	return now.After(e.deadline) || stop != 0 && now.UnixNano() > stop
}

// once a candidate for a violation is known the rest of the exploration is
// cut short (0: none yet).
var candidateStop atomic.Int64
var knownKeys = map[string]bool{}

func (e *Explorer) obligation(id string) *Obligation {
	e.mu.Lock()
	defer e.mu.Unlock()
	o := e.obs[id]
	if o == nil {
		o = &Obligation{id: id}
		e.obs[id] = o
	}
	return o
}
func (e *Explorer) inconclusive(s string) {
	e.mu.Lock()
	e.incon[s]++
	e.mu.Unlock()
}
func (e *Explorer) reached(id string) bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.reachd[id]
}
func (e *Explorer) setReached(id string) {
	e.mu.Lock()
	e.reachd[id] = true
	e.mu.Unlock()
}
func (e *Explorer) noteFn(fn *ssa.Function) {
	if _, ok := e.fnkeys.Load(fn); !ok {
		e.key(fn)
	}
	e.mu.Lock()
	e.fns[fn] = true
	e.mu.Unlock()
}
func (e *Explorer) key(fn *ssa.Function) string {
	if k, ok := e.fnkeys.Load(fn); ok {
		return k.(string)
	}
	k := fnKey(fn)
	e.fnkeys.Store(fn, k)
	return k
}

type vkey struct {
	c *TermCtx
	t *Term
}

func (e *Explorer) varsOf(c *TermCtx, t *Term) map[*Term]bool {
	if v, ok := e.varCache.Load(t); ok {
		return v.(map[*Term]bool)
	}
	r := map[*Term]bool{}
	for _, x := range cone([]*Term{t}) {
		if x.op == OVar {
			r[x] = true
		}
	}
	e.varCache.Store(t, r)
	return r
}

func (e *Explorer) violation(m *Machine, id, kind, msg string, mod Model) {
	v := &ViolationRec{ID: id, Kind: kind, Pos: m.where(), Harness: e.harness, Schedule: append([]string{}, m.schedule...), Threads: len(m.threads), Msg: msg, MapOrder: m.mapForked}
	if m.violPos != "" {
		v.Pos = m.violPos
	}
	ev := mod.newEval()
	for _, in := range m.inputs {
		b := ev.eval(in.term)
		txt := m.c.constOf(in.term.sort, b).String()
		v.Inputs = append(v.Inputs, InputVal{in.Name, in.Kind, b, txt})
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	n := 0
	for _, x := range e.viols {
		if x.ID == id {
			n++
		}
	}
	if n < 3 {
		e.viols = append(e.viols, v)
	}
	e.violIDs[id] = true
	if !knownKeys[e.harness+"/"+id] {
		candidateStop.CompareAndSwap(0, time.Now().Add(90*time.Second).UnixNano())
	}
}

func (e *Explorer) newMachine(c *TermCtx, s *Solver, prefix []int) *Machine {
	return &Machine{e: e, prog: e.prog, c: c, s: s, prefix: prefix, varSeq: map[string]int{}, globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{}, yieldCh: make(chan threadMsg), owner: map[*Value]int{}, maxTimerFires: 2000, clock: c.Int(0), maxSteps: 20_000_000, unwind: 20000, locks: map[*Value]*lockState{}, side: map[*Value]any{}, randSeq: 1}
}

// runPath executes one path; returns newly discovered prefixes.
func (e *Explorer) runPath(c *TermCtx, s *Solver, prefix []int) [][]int {
	m := e.newMachine(c, s, prefix)
	pe := m.run(func() { m.callSSA(nil, e.fn, nil, nil) })
	switch pe.kind {
	case "panic", "deadlock":
		id := pe.kind
		r, mod := s.Check(append([]*Term{c.T}, m.pc...), true, e.assertBudget)
		switch r {
		case RSat:
			if mod == nil {
				mod = Model{}
			}
			m.violPos = pe.pos
			e.violation(m, id, pe.kind, pe.msg, mod)
		case RUnknown:
			e.inconclusive(pe.kind + " path undecided: " + pe.msg)
		case RUnsat:
			pe = &pathEnd{kind: "infeasible"}
		}
	case "limit":
		if m.expectHang && pe.msg != "time budget" {
			r, mod := s.Check(append([]*Term{c.T}, m.pc...), true, e.assertBudget)
			if r == RSat {
				e.violation(m, "terminates", "hang", pe.msg, mod)
				break
			}
			if r == RUnsat {
				pe = &pathEnd{kind: "infeasible"}
				break
			}
		}
		r := RUnknown
		if pe.msg != "time budget" {
			r, _ = s.Check(append([]*Term{c.T}, m.pc...), true, 5*time.Second)
		}
		if r == RUnsat {
			pe = &pathEnd{kind: "infeasible"}
		} else {
			e.inconclusive("bound hit: " + pe.msg + " @ " + pe.pos)
		}
	case "unsupported":
		r, _ := s.Check(append([]*Term{c.T}, m.pc...), true, 5*time.Second)
		if r == RUnsat {
			pe = &pathEnd{kind: "infeasible"}
		} else {
			e.inconclusive("unsupported: " + pe.msg + " @ " + pe.pos)
		}
	}
	e.mu.Lock()
	e.paths++
	e.steps += m.steps
	e.ends[pe.kind]++
	if len(m.threads) > e.maxThreads {
		e.maxThreads = len(m.threads)
	}
	for i := len(prefix); i < len(m.trace); i++ {
		e.decKinds[m.trace[i].kind]++
	}
	e.mu.Unlock()
	var out [][]int
	vals := make([]int, len(m.trace))
	for i, d := range m.trace {
		vals[i] = d.val
	}
	for i := len(prefix); i < len(m.trace); i++ {
		for _, r := range m.trace[i].rest {
			p := make([]int, i+1)
			copy(p, vals[:i])
			p[i] = r
			out = append(out, p)
		}
	}
	return out
}

func (e *Explorer) Run(workers int) {
	e.work = [][]int{{}}
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c := newTermCtx()
			s := newSolver(c)
			s.st = &e.stats
			defer s.stop()
			for {
				e.mu.Lock()
				for len(e.work) == 0 && e.active > 0 && !e.stop {
					e.cond.Wait()
				}
				if len(e.work) == 0 || e.stop {
					e.mu.Unlock()
					e.cond.Broadcast()
					return
				}
				p := e.work[len(e.work)-1]
				e.work = e.work[:len(e.work)-1]
				e.active++
				e.mu.Unlock()
				cpu <- struct{}{}
				nw := e.runPath(c, s, p)
				<-cpu
				if c.n > 400000 {
					s.stop()
					c = newTermCtx()
					s = newSolver(c)
					s.st = &e.stats
					e.varCache.Clear()
				}
				e.mu.Lock()
				for i := len(nw) - 1; i >= 0; i-- {
					e.work = append(e.work, nw[i])
				}
				e.active--
				if e.paths >= e.maxPaths || (len(e.viols) >= 12) {
					e.stop = true
				}
				if e.outOfTime() {
					if len(e.work) > 0 {
						e.incon[fmt.Sprintf("time budget: paths left unexplored")] += len(e.work)
					}
					e.stop = true
				}
				e.mu.Unlock()
				e.cond.Broadcast()
			}
		}()
	}
	wg.Wait()
}

func (e *Explorer) repoFns() []string {
	var out []string
	for fn := range e.fns {
		k := fnKey(fn)
		if strings.Contains(k, modPath) && !strings.Contains(k, "zzverif") && fn.Synthetic == "" {
			out = append(out, strings.ReplaceAll(k, modPath+"/", ""))
		}
	}
	sort.Strings(out)
	return out
}

func debugf(f string, a ...any) {
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
