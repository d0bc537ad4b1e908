// Package agent drives emerge/agent with symbolic inputs and schedules.
package agent

import (
	"math"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/internal/config"
	"github.com/carlisia/bio-adapt/internal/zzverif/vrt"
)

const tau = 2 * math.Pi

var phaseActions = []string{"adjust_phase", "phase_nudge", "frequency_lock", "energy_save", "pulse"}

func finite(name string) float64 {
	f := vrt.Float64(name)
	vrt.Assume(vrt.IsFinite(f))
	return f
}

func within(name string, lo, hi float64) float64 {
	f := vrt.Float64(name)
	vrt.Assume(vrt.And(f >= lo, f <= hi))
	return f
}

func near(a, b, eps float64) bool {
	d := a - b
	return vrt.And(d <= eps, d >= -eps)
}
func circNear(a, b, eps float64) bool {
	return vrt.Or(near(a, b, eps), near(a, b+tau, eps), near(a, b-tau, eps))
}

func inTurn(a *agent.Agent) bool {
	p, g := a.Phase(), a.LocalGoal()
	return vrt.And(p >= 0, p < tau, g >= 0, g < tau)
}

// PhaseAgentRandom: whatever the random source yields, a new agent starts in range.
func PhaseAgentRandom() {
	a := agent.New("a")
	vrt.Assert(inTurn(a), "new")
	vrt.Assert(vrt.And(a.Frequency() >= 100*time.Millisecond, a.Frequency() <= 150*time.Millisecond), "frequency")
	vrt.Reach("end")
}

// PhaseAgentSetters: setters and options keep phase and goal in range and land on
// the requested point of the circle; each leaves the other value alone.
func PhaseAgentSetters() {
	vrt.FixedRand(1)
	v := finite("v")
	a := agent.New("a", agent.WithPhase(1), agent.WithLocalGoal(2))
	p0, g0 := a.Phase(), a.LocalGoal()
	switch vrt.Int("op", 0, 3) {
	case 0:
		a.SetPhase(v)
		vrt.Assert(a.LocalGoal() == g0, "goal-kept")
		vrt.Assert(vrt.Implies(vrt.And(v >= 0, v < tau), circNear(a.Phase(), v, 1e-9)), "phase-set")
	case 1:
		a.SetLocalGoal(v)
		vrt.Assert(a.Phase() == p0, "phase-kept")
		vrt.Assert(vrt.Implies(vrt.And(v >= 0, v < tau), circNear(a.LocalGoal(), v, 1e-9)), "goal-set")
	case 2:
		a = agent.New("a", agent.WithPhase(v))
		vrt.Assert(vrt.Implies(vrt.And(v >= 0, v < tau), circNear(a.Phase(), v, 1e-9)), "phase-opt")
	default:
		a = agent.New("a", agent.WithLocalGoal(v))
		vrt.Assert(vrt.Implies(vrt.And(v >= 0, v < tau), circNear(a.LocalGoal(), v, 1e-9)), "goal-opt")
	}
	vrt.Assert(inTurn(a), "in-range")
	vrt.Reach("end")
}

// PhaseAgentActions: every kind of action leaves phase and goal in range.
func PhaseAgentActions() {
	vrt.FixedRand(1)
	a := agent.New("a", agent.WithPhase(finite("start")), agent.WithEnergy(1e6))
	n := 2 + vrt.Tier()
	for range n {
		t := vrt.Str("type", append(append([]string{}, phaseActions...), "maintain", "bogus")...)
		a.ApplyAction(core.Action{Type: t, Value: finite("value"), Cost: within("cost", 0, 10)})
		vrt.Assert(inTurn(a), "in-range")
	}
	vrt.Reach("end")
}

// PhaseActionShift: a successful phase action moves the phase by exactly the
// requested amount around the circle; maintaining does not move it.
func PhaseActionShift() {
	vrt.FixedRand(1)
	p := within("p", 0, 6.283185)
	a := agent.New("a", agent.WithPhase(p), agent.WithEnergy(1000))
	p = a.Phase()
	g := a.LocalGoal()
	f := a.Frequency()
	v := within("v", -3.2, 3.2)
	t := vrt.Str("type", append(append([]string{}, phaseActions...), "maintain", "bogus", "")...)
	ok, _, _ := a.ApplyAction(core.Action{Type: t, Value: v, Cost: 1})
	moves := t != "maintain" && t != "bogus" && t != ""
	if moves {
		vrt.Assert(ok, "accepted")
		vrt.Assert(circNear(a.Phase(), p+v, 1e-9), "moved-by-value")
		vrt.Reach("moves")
	} else {
		vrt.Assert(a.Phase() == p, "not-moved")
		vrt.Reach("stays")
	}
	vrt.Assert(vrt.And(a.LocalGoal() == g, a.Frequency() == f), "others-kept")
}

// PhaseFromConfig: agents built from any configuration start in range.
func PhaseFromConfig() {
	cfg := config.Agent{
		Phase: finite("phase"), LocalGoal: finite("goal"),
		Frequency: 100 * time.Millisecond, InitialEnergy: 50,
		RandomizePhase: vrt.Bool("rp"), RandomizeLocalGoal: vrt.Bool("rg"), RandomizeFrequency: vrt.Bool("rf"),
		SwarmSize: 10, StrategyRate: 0.5,
	}
	var a *agent.Agent
	if vrt.Bool("optimized") {
		a, _ = agent.NewOptimizedFromConfig("a", cfg)
	} else {
		a, _ = agent.NewFromConfig("a", cfg)
	}
	vrt.Assert(a != nil, "built")
	vrt.Assert(inTurn(a), "in-range")
	vrt.Assert(a.Frequency() > 0, "frequency-positive")
	vrt.Reach("end")
}
