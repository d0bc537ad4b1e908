// Package strategy drives strategies, decisions and goal blending.
package strategy

import (
	"math"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/strategy"
	"github.com/carlisia/bio-adapt/internal/zzverif/vrt"
)

const tau = 2 * math.Pi

func finite(name string) float64 {
	f := vrt.Float64(name)
	vrt.Assume(vrt.IsFinite(f))
	return f
}

func within(name string, lo, hi float64) float64 {
	f := vrt.Float64(name)
	vrt.Assume(vrt.And(f >= lo, f <= hi))
	return f
}

func near(a, b, eps float64) bool {
	d := a - b
	return vrt.And(d <= eps, d >= -eps)
}
func circNear(a, b, eps float64) bool {
	return vrt.Or(near(a, b, eps), near(a, b+tau, eps), near(a, b-tau, eps))
}

func context() core.Context {
	return core.Context{Density: within("density", 0, 1), Stability: within("stability", 0, 1), Progress: within("progress", 0, 1),
		LocalCoherence: within("coherence", 0, 1), Neighbors: vrt.Int("neighbours", 0, 100)}
}

// arc: the shortest way from one phase in [0,2pi] to another, in reals.
func arc(to, from float64) float64 {
	d := to - from
	return vrt.IteF(d > math.Pi, d-tau, vrt.IteF(d < -math.Pi, d+tau, d))
}

func absf(x float64) float64 { return vrt.IteF(x < 0, -x, x) }

type subject struct {
	s    core.SyncStrategy
	rate float64
}

func subjects(rate float64) []subject {
	vrt.FixedRand(1)
	p := strategy.NewPulse(0, rate)
	r := vrt.IteF(rate < 0, 0, vrt.IteF(rate > 1, 1, rate))
	return []subject{
		{strategy.NewPhaseNudge(rate), r},
		{strategy.NewFrequencyLock(rate), r},
		{p, r},
		{strategy.NewEnergyAware(rate), 0.1},
	}
}

// StrategyBounded: for any phases a proposal moves at most half a turn, at a
// non-negative finite cost, with confidence in [0,1].
func StrategyBounded() {
	for _, s := range subjects(finite("rate")) {
		cur := core.State{Phase: finite("from"), Frequency: time.Second}
		tgt := core.State{Phase: finite("to"), Frequency: time.Second}
		vrt.Assume(vrt.IsFinite(tgt.Phase - cur.Phase))
		a, c := s.s.Propose(cur, tgt, context())
		vrt.Assert(vrt.And(a.Value >= -math.Pi, a.Value <= math.Pi), "value-bounded")
		vrt.Assert(vrt.And(a.Cost >= 0, a.Cost <= 4*math.Pi), "cost")
		vrt.Assert(vrt.And(c >= 0, c <= 1), "confidence")
		vrt.Assert(vrt.IsFinite(a.Benefit), "benefit")
		vrt.Assert(a.Type == s.s.Name() || a.Type == "maintain" || a.Type == "energy_save", "type")
	}
	vrt.Reach("end")
}

func toward(s subject) {
	from, to := within("from", 0, 6.283), within("to", 0, 6.283)
	d := arc(to, from)
	vrt.Assume(absf(d) <= math.Pi-1e-6) // at exactly half a turn both ways are shortest
	a, _ := s.s.Propose(core.State{Phase: from}, core.State{Phase: to}, context())
	if a.Type == "maintain" {
		vrt.Assert(a.Value == 0, "maintain-still")
		vrt.Reach("maintain")
		return
	}
	vrt.Assert(near(a.Value, d*s.rate, 1e-8), "rate-times-shortest-way")
	vrt.Assert(absf(d-a.Value) <= absf(d)+1e-8, "does-not-move-away")
	vrt.Reach("moves")
}

// StrategyNudge, StrategyLock, StrategyPulse, StrategyEnergy: proposals follow
// the shortest way to the target at the configured rate.
func StrategyNudge() { toward(subjects(within("rate", -1, 2))[0]) }

// StrategyLock: see StrategyNudge.
func StrategyLock() { toward(subjects(within("rate", -1, 2))[1]) }

// StrategyPulse: see StrategyNudge.
func StrategyPulse() { toward(subjects(within("rate", -1, 2))[2]) }

// StrategyEnergy: see StrategyNudge; differences under 0.1 are left alone.
func StrategyEnergy() {
	s := subjects(within("rate", 0, 2))[3]
	from, to := within("from", 0, 6.283), within("to", 0, 6.283)
	d := arc(to, from)
	vrt.Assume(absf(d) <= math.Pi-1e-6)
	a, _ := s.s.Propose(core.State{Phase: from}, core.State{Phase: to}, context())
	vrt.Assert(vrt.Implies(absf(d) < 0.0999, a.Value == 0), "small-left-alone")
	vrt.Assert(vrt.Implies(absf(d) > 0.1001, near(a.Value, d*0.1, 1e-8)), "large-acted-on")
	vrt.Reach("end")
}

// StrategyPulsePeriod: pulses are never closer together than the period.
func StrategyPulsePeriod() {
	period := time.Duration(vrt.Int("period", 1, int(time.Hour)))
	p := strategy.NewPulse(period, 1)
	w1 := time.Duration(vrt.Int("w1", 0, int(2*time.Hour)))
	w2 := time.Duration(vrt.Int("w2", 0, int(2*time.Hour)))
	cur, tgt := core.State{Phase: 0}, core.State{Phase: 1}
	var ctx core.Context
	vrt.Advance(w1)
	a1, _ := p.Propose(cur, tgt, ctx)
	vrt.Assert((a1.Type == "pulse") == (w1 >= period), "first")
	vrt.Advance(w2)
	a2, _ := p.Propose(cur, tgt, ctx)
	since := w2
	if a1.Type != "pulse" {
		since = w1 + w2
	}
	vrt.Assert((a2.Type == "pulse") == (since >= period), "second")
	vrt.Reach("end")
}

// StrategyAdaptive: the adaptive strategy always delegates to one of its members.
func StrategyAdaptive() {
	n := vrt.Choose("n", 4)
	var list []core.SyncStrategy
	for i := range n {
		list = append(list, strategy.NewPhaseNudge(0.25*float64(i+1)))
	}
	s := strategy.NewAdaptiveStrategy(list)
	custom := vrt.Bool("custom")
	if custom {
		idx := vrt.Int("idx", math.MinInt64, math.MaxInt64)
		s = s.WithSelector(func(core.Context) int { return idx })
	}
	a, c := s.Propose(core.State{Phase: 0}, core.State{Phase: 1}, context())
	vrt.Assert(vrt.And(c >= 0, c <= 1), "confidence")
	if n == 0 {
		vrt.Assert(a.Type == "maintain" && a.Value == 0, "empty-maintains")
	} else {
		ok := false
		for i := range n {
			ok = vrt.Or(ok, near(a.Value, 0.25*float64(i+1), 1e-9))
		}
		vrt.Assert(ok, "delegates")
	}
	vrt.Reach("end")
}

// DecideBest: the chosen action is an offered one and none offered has a
// better benefit per cost.
func DecideBest() {
	n := 1 + vrt.Choose("n", 3)
	var opts []core.Action
	for range n {
		opts = append(opts, core.Action{Type: vrt.Str("t", "a", "b"), Value: finite("value"), Cost: within("cost", 0, 1e6), Benefit: within("benefit", -1e6, 1e6)})
	}
	got, conf := strategy.NewSimpleDecisionMaker().Decide(core.State{Coherence: within("coherence", 0, 1)}, opts)
	vrt.Assert(vrt.And(conf >= 0, conf <= 1), "confidence")
	score := func(a core.Action) float64 {
		return a.Benefit / vrt.IteF(a.Cost > 0.1, a.Cost, 0.1)
	}
	in := false
	g := score(got)
	for _, o := range opts {
		in = vrt.Or(in, vrt.And(o.Type == got.Type, o.Value == got.Value, o.Cost == got.Cost, o.Benefit == got.Benefit))
		vrt.Assert(g >= score(o), "none-better")
	}
	vrt.Assert(in, "one-of-the-options")
	vrt.Assert(conf == vrt.IteF(g/2 > 1, 1, vrt.IteF(g/2 < 0, 0, g/2)), "confidence-value")
	vrt.Reach("end")
}

// DecideTies: equal scores keep the earlier option; no option means maintain.
func DecideTies() {
	b, c := within("benefit", -100, 100), within("cost", 0, 100)
	opts := []core.Action{{Type: "x", Benefit: b, Cost: c}, {Type: "y", Benefit: b, Cost: c}}
	got, _ := strategy.NewSimpleDecisionMaker().Decide(core.State{}, opts)
	vrt.Assert(got.Type == "x", "first-kept")
	coh := within("coherence", 0, 1)
	none, conf := strategy.NewSimpleDecisionMaker().Decide(core.State{Coherence: coh}, nil)
	vrt.Assert(vrt.And(none.Type == "maintain", conf == coh), "none")
	vrt.Reach("end")
}

// BlendAny: a blend is a proper phase, keeps the local frequency, and its
// coherence lies between the two.
func BlendAny() {
	l := core.State{Phase: finite("local"), Frequency: time.Duration(vrt.Int("lf", 1, 1000)), Coherence: within("lc", 0, 1)}
	g := core.State{Phase: finite("global"), Frequency: time.Duration(vrt.Int("gf", 1, 1000)), Coherence: within("gc", 0, 1)}
	vrt.Assume(vrt.And(vrt.IsFinite(g.Phase-l.Phase), absf(l.Phase) < 1e300))
	w := finite("w")
	var m goal.Manager = strategy.NewWeightedGoalManager()
	b := m.Blend(l, g, w)
	vrt.Assert(vrt.And(b.Phase >= 0, b.Phase < tau), "phase-in-range")
	vrt.Assert(b.Frequency == l.Frequency, "frequency")
	lo, hi := vrt.IteF(l.Coherence < g.Coherence, l.Coherence, g.Coherence), vrt.IteF(l.Coherence < g.Coherence, g.Coherence, l.Coherence)
	vrt.Assert(vrt.And(b.Coherence >= lo-1e-9, b.Coherence <= hi+1e-9), "coherence-between")
	vrt.Reach("end")
}

// BlendPhase: the blended phase lies the given share of the shortest way from
// local to global; weights outside [0,1] count as the nearest end.
func BlendPhase() {
	l, g := within("local", 0, 6.283), within("global", 0, 6.283)
	d := arc(g, l)
	vrt.Assume(absf(d) <= math.Pi-1e-6)
	w := within("w", -1, 2)
	b := strategy.NewWeightedGoalManager().Blend(core.State{Phase: l, Coherence: 0.25}, core.State{Phase: g, Coherence: 0.75}, w)
	cw := vrt.IteF(w < 0, 0, vrt.IteF(w > 1, 1, w))
	vrt.Assert(circNear(b.Phase, l+d*cw, 1e-7), "share-of-the-way")
	vrt.Assert(near(b.Coherence, 0.25+0.5*cw, 1e-9), "coherence-share")
	vrt.Reach("end")
}
