package agent

import (
	"sync"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/internal/zzverif/vrt"
)

func together(fs ...func()) {
	var wg sync.WaitGroup
	for _, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f()
		}()
	}
	wg.Wait()
}

func pre() int { return 2 + vrt.Tier() }

// ConcSetters: setters of different values, run concurrently, all take effect.
func ConcSetters() {
	vrt.FixedRand(1)
	vrt.Preempt(pre())
	a := agent.New("a", agent.WithPhase(1), agent.WithLocalGoal(1), agent.WithEnergy(50))
	p, g, e := within("p", 0, 6), within("g", 0, 6), within("e", 0, 100)
	f := time.Duration(vrt.Int("f", 1, 1000000))
	ops := []func(){
		func() { a.SetPhase(p) },
		func() { a.SetLocalGoal(g) },
		func() { a.SetEnergy(e) },
		func() { a.SetFrequency(f) },
	}
	i := vrt.Choose("first", 4)
	j := vrt.Choose("second", 4)
	vrt.Assume(i < j)
	together(ops[i], ops[j])
	on := func(k int) bool { return i == k || j == k }
	if on(0) {
		vrt.Assert(a.Phase() == core.WrapPhase(p), "phase")
	} else {
		vrt.Assert(a.Phase() == 1, "phase-kept")
	}
	if on(1) {
		vrt.Assert(a.LocalGoal() == core.WrapPhase(g), "goal")
	} else {
		vrt.Assert(a.LocalGoal() == 1, "goal-kept")
	}
	if on(2) {
		vrt.Assert(a.Energy() == e, "energy")
	} else {
		vrt.Assert(a.Energy() == 50, "energy-kept")
	}
	if on(3) {
		vrt.Assert(a.Frequency() == f, "frequency")
	}
	vrt.Reach("end")
}

// ConcBehavior: influence and stubbornness set concurrently both take effect.
func ConcBehavior() {
	vrt.FixedRand(1)
	vrt.Preempt(pre())
	a := agent.New("a")
	x, y := within("i", 0, 1), within("s", 0, 1)
	together(func() { a.SetInfluence(x) }, func() { a.SetStubbornness(y) })
	vrt.Assert(vrt.And(a.Influence() == x, a.Stubbornness() == y), "both")
	vrt.Reach("end")
}

// ConcActions: concurrent actions are each charged; together they never spend
// more than there was, and every accepted phase change takes effect.
func ConcActions() {
	vrt.FixedRand(1)
	vrt.Preempt(1 + vrt.Tier())
	e := within("e", 0, 100)
	a := agent.New("a", agent.WithPhase(1), agent.WithEnergy(e))
	c1, c2 := within("c1", 0, 100), within("c2", 0, 100)
	var ok1, ok2 bool
	together(
		func() { ok1, _, _ = a.ApplyAction(core.Action{Type: "adjust_phase", Value: 0.5, Cost: c1}) },
		func() { ok2, _, _ = a.ApplyAction(core.Action{Type: vrtPulse, Value: 0.25, Cost: c2}) },
	)
	e1 := a.Energy()
	vrt.Assert(e1 >= 0, "non-negative")
	switch {
	case ok1 && ok2:
		vrt.Assert(vrt.Or(e1 == e-c1-c2, e1 == e-c2-c1), "both-charged")
		vrt.Assert(near(a.Phase(), 1.75, 1e-9), "both-moved")
		vrt.Reach("both")
	case ok1:
		vrt.Assert(vrt.And(e1 == e-c1, c2 > e1), "first-only")
		vrt.Assert(near(a.Phase(), 1.5, 1e-9), "first-moved")
		vrt.Reach("first")
	case ok2:
		vrt.Assert(vrt.And(e1 == e-c2, c1 > e1), "second-only")
		vrt.Assert(near(a.Phase(), 1.25, 1e-9), "second-moved")
	default:
		vrt.Assert(vrt.And(e1 == e, c1 > e, c2 > e), "neither")
		vrt.Assert(a.Phase() == 1, "none-moved")
	}
}

const vrtPulse = "pulse"

// ConcActionSetter: an action and an unrelated setter do not undo each other.
func ConcActionSetter() {
	vrt.FixedRand(1)
	vrt.Preempt(pre())
	a := agent.New("a", agent.WithPhase(1), agent.WithEnergy(100))
	c, g := within("c", 0, 100), within("g", 0, 6)
	var ok bool
	together(
		func() { ok, _, _ = a.ApplyAction(core.Action{Type: "adjust_phase", Value: 0.5, Cost: c}) },
		func() { a.SetLocalGoal(g) },
	)
	vrt.Assert(ok, "accepted")
	vrt.Assert(vrt.And(a.Energy() == 100-c, near(a.Phase(), 1.5, 1e-9), a.LocalGoal() == core.WrapPhase(g)), "all-effects")
	vrt.Reach("end")
}

// ConcContext: perceiving neighbours while acting loses neither effect.
func ConcContext() {
	vrt.FixedRand(1)
	vrt.Preempt(1 + vrt.Tier())
	a := agent.New("a", agent.WithPhase(1), agent.WithLocalGoal(1), agent.WithEnergy(100))
	b := agent.New("b", agent.WithPhase(1))
	a.ConnectTo("b", b)
	c := within("c", 0, 100)
	together(
		func() { a.UpdateContext() },
		func() { a.ApplyAction(core.Action{Type: "adjust_phase", Value: 0, Cost: c}) },
	)
	vrt.Assert(a.Energy() == 100-c, "charged")
	vrt.Assert(vrt.And(near(a.Phase(), 1, 1e-9), near(a.LocalGoal(), 1, 1e-9)), "state")
	vrt.Reach("end")
}

// ConcSnapshots: a concurrent reader only ever sees values that were set.
func ConcSnapshots() {
	vrt.FixedRand(1)
	vrt.Preempt(pre())
	a := agent.New("a", agent.WithPhase(1), agent.WithEnergy(10))
	v := within("v", 0, 6)
	s := agent.NewAtomicState()
	s.Store(agent.StateData{Phase: 1, Energy: 1})
	w := core.WrapPhase(v)
	together(
		func() { a.SetPhase(v); s.Store(agent.StateData{Phase: v, Energy: v}) },
		func() {
			q := a.Phase()
			vrt.Assert(vrt.Or(q == 1, q == w), "phase-value")
			d := s.Load()
			vrt.Assert(d.Phase == d.Energy, "untorn")
		},
	)
	vrt.Reach("end")
}

// ConcAtomicUpdate: grouped-state updates are never lost.
func ConcAtomicUpdate() {
	vrt.Preempt(pre())
	s := agent.NewAtomicState()
	b := agent.NewAtomicBehavior()
	x := within("x", 0, 100)
	y := within("y", 0, 100)
	s.Store(agent.StateData{Energy: 0})
	b.Store(agent.BehaviorData{})
	together(
		func() { s.Update(func(d *agent.StateData) { d.Energy += x }); b.Update(func(d *agent.BehaviorData) { d.Influence += x }) },
		func() { s.Update(func(d *agent.StateData) { d.Energy += y }); b.Update(func(d *agent.BehaviorData) { d.Influence += y }) },
	)
	vrt.Assert(vrt.Or(s.Load().Energy == x+y, s.Load().Energy == y+x), "state-sum")
	vrt.Assert(vrt.Or(b.Load().Influence == x+y, b.Load().Influence == y+x), "behavior-sum")
	vrt.Reach("end")
}
