package agent

import (
	"errors"
	"math"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/internal/zzverif/vrt"
)

// meter is a resource manager that records what it is asked for.
type meter struct {
	avail     float64
	requests  int
	requested float64
}

func (m *meter) Request(x float64) float64 {
	m.requests++
	m.requested += x
	return x
}
func (m *meter) Release(float64)    {}
func (m *meter) Available() float64 { return m.avail }

var allActions = []string{"adjust_phase", "phase_nudge", "frequency_lock", "energy_save", "pulse", "maintain"}

// EnergyAction: one action of any kind, against any energy and cost.
func EnergyAction() {
	vrt.FixedRand(1)
	a := agent.New("a", agent.WithEnergy(finite("energy")))
	e0, p0 := a.Energy(), a.Phase()
	vrt.Assert(e0 >= 0, "starts-non-negative")
	cost := finite("cost")
	vrt.Assume(cost >= 0)
	t := vrt.Str("type", append(append([]string{}, allActions...), "bogus", "")...)
	ok, spent, err := a.ApplyAction(core.Action{Type: t, Value: 1, Cost: cost})
	e1 := a.Energy()
	known := t != "bogus" && t != ""
	vrt.Assert(e1 >= 0, "non-negative")
	vrt.Assert(ok == (err == nil), "error-iff-refused")
	if ok {
		vrt.Assert(known, "unknown-accepted")
		vrt.Assert(cost <= e0, "unaffordable-accepted")
		vrt.Assert(vrt.And(spent == cost, e1 == e0-cost), "deducts-cost")
		vrt.Reach("accepted")
	} else {
		vrt.Assert(vrt.Implies(known, cost > e0), "affordable-refused")
		vrt.Assert(vrt.And(e1 == e0, a.Phase() == p0, spent == 0), "refusal-changes-nothing")
		if cost > e0 {
			vrt.Assert(errors.Is(err, core.ErrInsufficientEnergy), "insufficient-energy-error")
		} else {
			vrt.Assert(errors.Is(err, core.ErrUnknownActionType), "unknown-type-error")
		}
		vrt.Reach("refused")
	}
}

// EnergyHistory: over a sequence of actions the energy is what was given minus
// what was reported spent, and the resource manager is asked for exactly that.
func EnergyHistory() {
	vrt.FixedRand(1)
	m := &meter{avail: within("avail", 0, 1000)}
	a := agent.New("a", agent.WithResourceManager(m))
	vrt.Assert(a.Energy() == m.avail, "energy-from-manager")
	expect := a.Energy()
	asked, calls := 0.0, 0
	n := 3 + vrt.Tier()
	for range n {
		e0 := a.Energy()
		t := vrt.Str("type", "adjust_phase", "maintain", "pulse", "bogus")
		ok, spent, _ := a.ApplyAction(core.Action{Type: t, Value: 0.5, Cost: within("cost", 0, 1000)})
		if ok {
			expect -= spent
			asked += spent
			calls++
		}
		vrt.Assert(vrt.And(a.Energy() >= 0, a.Energy() <= e0), "never-grows-or-negative")
		vrt.Assert(a.Energy() == expect, "balance")
	}
	vrt.Assert(vrt.And(m.requests == calls, m.requested == asked), "manager-asked-once-per-action")
	vrt.Reach("end")
}

// EnergySetters: energy, influence and stubbornness stay in their domains.
func EnergySetters() {
	vrt.FixedRand(1)
	v := vrt.Float64("v")
	vrt.Assume(!math.IsNaN(v))
	a := agent.New("a", agent.WithPhase(1), agent.WithLocalGoal(2), agent.WithEnergy(30), agent.WithFrequency(time.Second))
	switch vrt.Int("op", 0, 5) {
	case 0:
		a.SetEnergy(v)
		vrt.Assert(a.Energy() == vrt.IteF(v > 0, v, 0), "energy")
		vrt.Assert(vrt.And(a.Influence() == 0.1, a.Stubbornness() == 0.2), "others")
	case 1:
		a.SetInfluence(v)
		vrt.Assert(a.Influence() == vrt.IteF(v < 0, 0, vrt.IteF(v > 1, 1, v)), "influence")
		vrt.Assert(vrt.And(a.Energy() == 30, a.Stubbornness() == 0.2), "others")
	case 2:
		a.SetStubbornness(v)
		vrt.Assert(a.Stubbornness() == vrt.IteF(v < 0, 0, vrt.IteF(v > 1, 1, v)), "stubbornness")
		vrt.Assert(vrt.And(a.Energy() == 30, a.Influence() == 0.1), "others")
	case 3:
		a = agent.New("a", agent.WithEnergy(v), agent.WithPhase(1), agent.WithLocalGoal(2), agent.WithFrequency(time.Second))
		vrt.Assert(a.Energy() == vrt.IteF(v > 0, v, 0), "energy")
	case 4:
		a = agent.New("a", agent.WithInfluence(v), agent.WithPhase(1), agent.WithLocalGoal(2), agent.WithFrequency(time.Second))
		vrt.Assert(a.Influence() == vrt.IteF(v < 0, 0, vrt.IteF(v > 1, 1, v)), "influence")
	default:
		a = agent.New("a", agent.WithStubbornness(v), agent.WithPhase(1), agent.WithLocalGoal(2), agent.WithFrequency(time.Second))
		vrt.Assert(a.Stubbornness() == vrt.IteF(v < 0, 0, vrt.IteF(v > 1, 1, v)), "stubbornness")
	}
	vrt.Assert(vrt.And(a.Phase() == 1, a.LocalGoal() == 2, a.Frequency() == time.Second), "state-kept")
	vrt.Reach("end")
}
