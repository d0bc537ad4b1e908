package agent

import (
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/internal/zzverif/vrt"
)

// probe is a strategy that records what the agent perceives.
type probe struct {
	current, target core.State
	ctx             core.Context
	calls           int
	action          core.Action
	confidence      float64
}

func (p *probe) Propose(current, target core.State, ctx core.Context) (core.Action, float64) {
	p.current, p.target, p.ctx = current, target, ctx
	p.calls++
	return p.action, p.confidence
}
func (*probe) Name() string { return "probe" }

func perceive(a *agent.Agent, p *probe) core.Context {
	a.SetStubbornness(0)
	a.ProposeAdjustment(core.State{Frequency: time.Second, Coherence: 0.5})
	vrt.Assert(p.calls == 1, "strategy-consulted")
	return p.ctx
}

func link(a *agent.Agent, id string, b *agent.Agent, how bool) {
	if how {
		a.ConnectTo(id, b)
	} else {
		a.Neighbors().Store(id, b)
	}
}

// PerceiveNone: without neighbours the perception is neutral and the goal stays.
func PerceiveNone() {
	vrt.FixedRand(1)
	p := &probe{}
	a := agent.New("a", agent.WithStrategy(p), agent.WithPhase(within("p", 0, 6)), agent.WithLocalGoal(within("g", 0, 6)), agent.WithSwarmInfo(vrt.Int("n", 0, 100), vrt.Int("m", 0, 100)))
	g := a.LocalGoal()
	b := agent.New("b", agent.WithPhase(within("q", 0, 6)))
	if vrt.Bool("was-connected") {
		a.ConnectTo("b", b)
		a.DisconnectFrom("b")
	}
	a.UpdateContext()
	c := perceive(a, p)
	vrt.Assert(vrt.And(c.Neighbors == 0, c.Density == 0, c.LocalCoherence == 0, c.Stability == 0.5), "neutral")
	vrt.Assert(a.LocalGoal() == g, "goal-kept")
	vrt.Assert(vrt.And(p.current.Phase == a.Phase(), p.current.Coherence == 0, p.target.Phase == g), "proposal-inputs")
	vrt.Reach("end")
}

// PerceiveOne: one neighbour, however it was linked, is perceived fully and
// becomes the goal.
func PerceiveOne() {
	vrt.FixedRand(1)
	p := &probe{}
	a := agent.New("a", agent.WithStrategy(p), agent.WithPhase(within("p", 0, 6.28)))
	b := agent.New("b", agent.WithPhase(within("q", 0, 6.28)))
	link(a, "b", b, vrt.Bool("direct"))
	e := a.Energy()
	p0 := a.Phase()
	a.UpdateContext()
	vrt.Assert(vrt.And(a.Phase() == p0, a.Energy() == e), "only-goal-changes")
	c := perceive(a, p)
	vrt.Assert(c.Neighbors == 1, "counted")
	vrt.Assert(near(c.LocalCoherence, 1, 1e-6), "coherent")
	vrt.Assert(vrt.And(a.LocalGoal() >= 0, a.LocalGoal() < tau), "goal-in-range")
	vrt.Assert(near(p.current.Coherence, 1, 1e-6), "current-coherence")
	// away from the exact opposite, where the two ways round are equally short
	d := b.Phase() - p0
	far := vrt.Or(near(d, tau/2, 1e-3), near(d, -tau/2, 1e-3))
	vrt.Assert(vrt.Or(far, circNear(a.LocalGoal(), b.Phase(), 1e-4)), "goal-is-neighbour")
	vrt.Reach("end")
}

// PerceiveDensity: the perceived density is the share of possible neighbours.
func PerceiveDensity() {
	vrt.FixedRand(1)
	p := &probe{}
	size, assumed := vrt.Int("size", -1, 40), vrt.Int("assumed", 0, 40)
	a := agent.New("a", agent.WithStrategy(p), agent.WithPhase(1), agent.WithSwarmInfo(size, assumed))
	k := 1 + vrt.Choose("k", 3)
	for i := range k {
		link(a, ids[i+1], agent.New(ids[i+1], agent.WithPhase(1)), i%2 == 0)
	}
	if k < 3 {
		a.Neighbors().Store("b", agent.New("b", agent.WithPhase(1))) // linked a second time
	}
	a.UpdateContext()
	c := perceive(a, p)
	vrt.Assert(vrt.And(c.Neighbors == k, a.NeighborCount() == k), "each-counted-once")
	vrt.Assert(vrt.And(c.Density > 0, c.Density <= 1), "density-range")
	room := vrt.IteI(assumed == 0, size-1, assumed)
	vrt.Assert(vrt.Implies(room >= k, c.Density == float64(k)/float64(room)), "density-value")
	vrt.Reach("end")
}

// PerceiveMany: with several neighbours coherence is a proportion and the goal a phase.
func PerceiveMany() {
	vrt.FixedRand(1)
	p := &probe{}
	a := agent.New("a", agent.WithStrategy(p), agent.WithPhase(within("p", 0, 6.28)))
	a.ConnectTo("b", agent.New("b", agent.WithPhase(within("q", 0, 6.28))))
	a.ConnectTo("c", agent.New("c", agent.WithPhase(within("r", 0, 6.28))))
	a.UpdateContext()
	c := perceive(a, p)
	vrt.Assert(vrt.And(c.LocalCoherence >= 0, c.LocalCoherence <= 1.000001), "coherence-range")
	vrt.Assert(vrt.And(a.LocalGoal() >= 0, a.LocalGoal() < tau), "goal-in-range")
	vrt.Reach("end")
}

// PerceiveAgreeing: neighbours that agree are perceived as one.
func PerceiveAgreeing() {
	vrt.FixedRand(1)
	p := &probe{}
	q := within("q", 0, 6.28)
	a := agent.New("a", agent.WithStrategy(p), agent.WithPhase(within("p", 0, 6.28)))
	a.ConnectTo("b", agent.New("b", agent.WithPhase(q)))
	a.Neighbors().Store("c", agent.New("c", agent.WithPhase(q)))
	a.UpdateContext()
	c := perceive(a, p)
	vrt.Assert(near(c.LocalCoherence, 1, 1e-6), "coherent")
	d := q - a.Phase()
	far := vrt.Or(near(d, tau/2, 1e-3), near(d, -tau/2, 1e-3))
	vrt.Assert(vrt.Or(far, circNear(a.LocalGoal(), q, 1e-4)), "goal-is-neighbours")
	vrt.Reach("end")
}

// picker is a decision maker with an arbitrary answer.
type picker struct {
	idx        int
	acceptance float64
	n          int
}

func (p *picker) Decide(_ core.State, options []core.Action) (core.Action, float64) {
	p.n = len(options)
	if p.idx == 0 {
		return options[0], p.acceptance
	}
	return options[len(options)-1], p.acceptance
}

// ProposeAny: an adjustment is one of the offered actions, affordable, and
// proposing changes nothing.
func ProposeAny() {
	act := core.Action{Type: vrt.Str("type", "phase_nudge", "pulse", "maintain"), Value: finite("value"), Cost: finite("cost"), Benefit: 1}
	p := &probe{action: act, confidence: within("confidence", 0, 1)}
	d := &picker{idx: vrt.Int("pick", 0, 1), acceptance: within("acceptance", 0, 1)}
	s := within("stubborn", 0, 1)
	e := within("energy", 0, 100)
	a := agent.New("a", agent.WithPhase(1), agent.WithLocalGoal(2), agent.WithFrequency(time.Second), agent.WithStrategy(p), agent.WithDecisionMaker(d),
		agent.WithStubbornness(s), agent.WithEnergy(e), agent.WithInfluence(0.5))
	got, ok := a.ProposeAdjustment(core.State{Phase: 1, Frequency: time.Second, Coherence: 0.9})
	same := vrt.And(a.Phase() == 1, a.LocalGoal() == 2, a.Energy() == e, a.Frequency() == time.Second, a.Stubbornness() == s, a.Influence() == 0.5)
	vrt.Assert(same, "proposing-changes-nothing")
	if ok {
		vrt.Assert(s < 1, "fully-stubborn-accepted")
		vrt.Assert(got.Cost <= e, "unaffordable")
		if d.idx == 0 {
			vrt.Assert(vrt.And(got.Type == act.Type, got.Value == act.Value, got.Cost == act.Cost), "is-the-proposal")
		} else {
			vrt.Assert(vrt.And(got.Type == "maintain", got.Value == 0), "is-maintain")
		}
		vrt.Assert(vrt.And(p.confidence > 0, d.acceptance > 0), "no-confidence-accepted")
		vrt.Reach("accepted")
	} else {
		vrt.Assert(vrt.And(got.Type == "maintain", got.Value == 0), "refusal-is-maintain")
		must := vrt.And(s == 0, p.confidence == 1, d.acceptance == 1, vrt.IteF(d.idx == 0, act.Cost, 0.1) <= e)
		vrt.Assert(!must, "certain-proposal-refused")
		vrt.Reach("refused")
	}
}

// ProposeThenApply: an accepted adjustment can always be applied when nothing
// happens in between, and brings a proper phase.
func ProposeThenApply() {
	p := within("p", 0, 6.28)
	g := within("g", 0, 6.28)
	a := agent.New("a", agent.WithPhase(p), agent.WithLocalGoal(g), agent.WithEnergy(within("energy", 0, 100)), agent.WithStubbornness(0))
	e := a.Energy()
	act, ok := a.ProposeAdjustment(core.State{Frequency: time.Second, Coherence: 0.9})
	if ok {
		done, cost, err := a.ApplyAction(act)
		vrt.Assert(vrt.And(done, err == nil), "applies")
		vrt.Assert(vrt.And(a.Energy() >= 0, a.Energy() == e-cost), "charged")
		vrt.Assert(vrt.And(a.Phase() >= 0, a.Phase() < tau), "phase")
		vrt.Reach("applied")
	}
}
