// Package tuning drives goal configurations, coherence limits and scales.
package tuning

import (
	"math"
	"time"

	client "github.com/carlisia/bio-adapt/client/emerge"
	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/emerge/trait"
	"github.com/carlisia/bio-adapt/internal/zzverif/vrt"
)

func between(name string, lo, hi float64) float64 {
	f := vrt.Float64(name)
	vrt.Assume(vrt.And(f >= lo, f <= hi))
	return f
}
func anyInt(name string) int { return vrt.Int(name, math.MinInt64, math.MaxInt64) }

const big = 1e9

func validConfig() *swarm.Config {
	c := &swarm.Config{
		Convergence: swarm.ConvergenceConfig{ToleranceSmall: between("tolS", 0, big), ToleranceMedium: between("tolM", 0, big), ToleranceLarge: between("tolL", 0, big),
			PhaseConvergenceGoal: between("goal", 0, 1), PatternDistanceThreshold: between("distance", 0, big), BaseAdjustmentScale: between("scale", 0, 1)},
		Thresholds: swarm.ThresholdConfig{PhaseVariance: between("variance", 0, big), HighCoherence: between("high", 0, 1), VeryHighCoherence: between("very", 0, 1), ModerateCoherence: between("moderate", 0, 1)},
		Variation: swarm.VariationConfig{BaseRange: [2]float64{between("lo", 0, big), between("hi", 0, big)}, CoherenceFactor: between("factor", 0, big),
			RandomWalkMagnitude: between("walk", 0, big), PerturbationMagnitude: between("perturb", 0, big), PerturbationChance: between("chance", 0, 1)},
		Strategy: swarm.StrategyConfig{MaxIterationsFactor: between("iterations", 0, big), UpdateInterval: time.Duration(vrt.Int("update", int(time.Microsecond), int(time.Hour))),
			ExplorationBonusMax: between("bonus", 0, big), ExplorationTimeWindow: time.Duration(vrt.Int("window", 1, int(time.Hour))), RandomExploration: between("explore", 0, 1)},
		Resonance: swarm.ResonanceConfig{NoiseMagnitude: between("noise", 0, big), AffectedAgents: between("affected", 0, 1), ActivationRate: between("rate", 0, 1)},
	}
	vrt.Assume(vrt.And(c.Thresholds.ModerateCoherence <= c.Thresholds.HighCoherence, c.Thresholds.HighCoherence <= c.Thresholds.VeryHighCoherence, c.Variation.BaseRange[0] <= c.Variation.BaseRange[1]))
	return c
}

func wellFormed(c *swarm.Config) bool {
	unit := func(f float64) bool { return vrt.And(f >= 0, f <= 1) }
	return vrt.And(unit(c.Convergence.BaseAdjustmentScale), unit(c.Convergence.PhaseConvergenceGoal), unit(c.Variation.PerturbationChance), unit(c.Resonance.AffectedAgents), unit(c.Resonance.ActivationRate),
		c.Convergence.ToleranceSmall >= 0, c.Convergence.ToleranceMedium >= 0, c.Convergence.ToleranceLarge >= 0, c.Convergence.PatternDistanceThreshold >= 0,
		c.Variation.BaseRange[0] >= 0, c.Variation.BaseRange[0] <= c.Variation.BaseRange[1], c.Strategy.UpdateInterval > 0, c.Strategy.MaxIterationsFactor >= 0,
		c.Strategy.ExplorationTimeWindow > 0, c.Thresholds.ModerateCoherence <= c.Thresholds.HighCoherence, c.Thresholds.HighCoherence <= c.Thresholds.VeryHighCoherence)
}

func clone(c *swarm.Config) *swarm.Config { d := *c; return &d }

// TuneValid: tuning any valid configuration for any trait keeps it valid and
// moves it in the direction the trait names.
func TuneValid() {
	c := validConfig()
	d := clone(c)
	t := trait.Target(anyInt("trait"))
	r := c.TuneFor(t)
	vrt.Assert(r == c, "fluent")
	vrt.Assert(c.Validate() == nil, "validates")
	vrt.Assert(wellFormed(c), "well-formed")
	vrt.Assert(c.Thresholds == d.Thresholds, "thresholds-kept")
	a, b := c, d
	vrt.Assert(vrt.Implies(t == trait.Stability, vrt.And(a.Convergence.BaseAdjustmentScale <= b.Convergence.BaseAdjustmentScale, a.Strategy.UpdateInterval >= b.Strategy.UpdateInterval, a.Resonance.NoiseMagnitude <= b.Resonance.NoiseMagnitude,
		a.Variation.PerturbationMagnitude <= b.Variation.PerturbationMagnitude)), "stability-gentler")
	vrt.Assert(vrt.Implies(t == trait.Speed, vrt.And(a.Convergence.BaseAdjustmentScale >= b.Convergence.BaseAdjustmentScale, a.Strategy.UpdateInterval <= b.Strategy.UpdateInterval, a.Convergence.ToleranceSmall >= b.Convergence.ToleranceSmall,
		a.Convergence.ToleranceMedium >= b.Convergence.ToleranceMedium, a.Convergence.ToleranceLarge >= b.Convergence.ToleranceLarge, a.Strategy.MaxIterationsFactor <= b.Strategy.MaxIterationsFactor)), "speed-faster")
	vrt.Assert(vrt.Implies(t == trait.Efficiency, vrt.And(a.Strategy.UpdateInterval >= b.Strategy.UpdateInterval, a.Variation.PerturbationChance <= b.Variation.PerturbationChance, a.Resonance.AffectedAgents <= b.Resonance.AffectedAgents,
		a.Strategy.ExplorationBonusMax <= b.Strategy.ExplorationBonusMax)), "efficiency-cheaper")
	vrt.Assert(vrt.Implies(t == trait.Throughput, vrt.And(a.Convergence.BaseAdjustmentScale >= b.Convergence.BaseAdjustmentScale, a.Strategy.UpdateInterval <= b.Strategy.UpdateInterval)), "throughput-faster")
	vrt.Assert(vrt.Implies(t == trait.Resilience, vrt.And(a.Resonance.NoiseMagnitude >= b.Resonance.NoiseMagnitude, a.Resonance.AffectedAgents >= b.Resonance.AffectedAgents, a.Resonance.ActivationRate >= b.Resonance.ActivationRate)), "resilience-more-redundant")
	vrt.Assert(vrt.Implies(t == trait.Precision, vrt.And(a.Convergence.ToleranceSmall <= b.Convergence.ToleranceSmall, a.Convergence.ToleranceMedium <= b.Convergence.ToleranceMedium, a.Convergence.ToleranceLarge <= b.Convergence.ToleranceLarge,
		a.Convergence.PatternDistanceThreshold <= b.Convergence.PatternDistanceThreshold)), "precision-tighter")
	known := vrt.And(t >= trait.Stability, t <= trait.Precision)
	vrt.Assert(vrt.Or(known, *c == *d), "unknown-trait-changes-nothing")
	vrt.Reach("end")
}

// SizeValid: sizing any valid configuration for any agent count keeps it valid.
func SizeValid() {
	c := validConfig()
	d := clone(c)
	n := anyInt("n")
	r := c.WithSize(n)
	vrt.Assert(r == c, "fluent")
	vrt.Assert(c.Validate() == nil, "validates")
	vrt.Assert(wellFormed(c), "well-formed")
	vrt.Assert(c.Thresholds == d.Thresholds, "thresholds-kept")
	vrt.Assert(vrt.Implies(vrt.And(n > 50, n <= 200), *c == *d), "medium-unchanged")
	vrt.Assert(vrt.Implies(n > 200, vrt.And(c.Convergence.ToleranceSmall >= d.Convergence.ToleranceSmall, c.Convergence.ToleranceMedium >= d.Convergence.ToleranceMedium, c.Convergence.ToleranceLarge >= d.Convergence.ToleranceLarge,
		c.Strategy.MaxIterationsFactor >= d.Strategy.MaxIterationsFactor)), "large-more-patient")
	vrt.Assert(vrt.Implies(n <= 50, c.Strategy.UpdateInterval <= 50*time.Millisecond), "small-updates-often")
	vrt.Assert(vrt.Implies(n > 200, c.Strategy.UpdateInterval >= 150*time.Millisecond), "large-updates-rarely")
	vrt.Reach("end")
}

// GoalHistory: the configuration of every goal is valid and stays valid through
// every short history of tuning and sizing.
func GoalHistory() {
	g := goal.Type(anyInt("goal"))
	c := swarm.For(g)
	vrt.Assert(c.Validate() == nil, "goal-valid")
	vrt.Assert(wellFormed(c), "goal-well-formed")
	steps := 2
	if vrt.Tier() > 0 {
		steps = 3
	}
	for i := 0; i < steps; i++ {
		if vrt.Choose("step", 2) == 0 {
			c.TuneFor(trait.Target(vrt.Choose("trait", 7)))
		} else {
			c.WithSize([]int{1, 40, 200, 1000, 5000}[vrt.Choose("size", 5)])
		}
		vrt.Assert(c.Validate() == nil, "validates")
		vrt.Assert(wellFormed(c), "well-formed")
	}
	vrt.Reach("end")
}

// ValidateTuning: validation of a goal configuration accepts exactly the
// configurations whose documented ranges hold.
func ValidateTuning() {
	vrt.Merge()
	f := func(name string) float64 { v := vrt.Float64(name); vrt.Assume(!math.IsNaN(v)); return v }
	c := &swarm.Config{
		Convergence: swarm.ConvergenceConfig{PhaseConvergenceGoal: f("goal"), BaseAdjustmentScale: f("scale"), ToleranceSmall: f("tol")},
		Thresholds:  swarm.ThresholdConfig{HighCoherence: f("high"), VeryHighCoherence: f("very"), ModerateCoherence: f("moderate")},
		Variation:   swarm.VariationConfig{BaseRange: [2]float64{f("lo"), f("hi")}, PerturbationChance: f("chance")},
		Strategy:    swarm.StrategyConfig{UpdateInterval: time.Duration(anyInt("update")), ExplorationTimeWindow: time.Duration(anyInt("window"))},
		Resonance:   swarm.ResonanceConfig{AffectedAgents: f("affected"), ActivationRate: f("rate")},
	}
	d := clone(c)
	unit := func(f float64) bool { return vrt.And(f >= 0, f <= 1) }
	ok := vrt.And(unit(c.Convergence.BaseAdjustmentScale), unit(c.Convergence.PhaseConvergenceGoal), unit(c.Variation.PerturbationChance), unit(c.Resonance.AffectedAgents), unit(c.Resonance.ActivationRate),
		c.Variation.BaseRange[0] >= 0, c.Variation.BaseRange[1] >= 0, c.Variation.BaseRange[0] <= c.Variation.BaseRange[1], c.Strategy.UpdateInterval > 0, c.Strategy.ExplorationTimeWindow > 0,
		c.Thresholds.ModerateCoherence <= c.Thresholds.HighCoherence, c.Thresholds.HighCoherence <= c.Thresholds.VeryHighCoherence)
	err := c.Validate()
	vrt.Assert((err == nil) == ok, "accepts-exactly-valid")
	vrt.Assert(*c == *d, "unchanged")
	vrt.Reach("end")
}

// LimitsOrdered: for every size, recommended <= practical <= theoretical, and a
// bigger swarm (of at least two) is never limited more.
func LimitsOrdered() {
	n := anyInt("n")
	l := swarm.GetCoherenceLimits(n)
	vrt.Assert(vrt.And(l.Recommended >= 0, l.Recommended <= l.Practical, l.Practical <= l.Theoretical, l.Theoretical <= 1), "ordered")
	m := anyInt("m")
	vrt.Assume(vrt.And(n >= 2, m >= n))
	k := swarm.GetCoherenceLimits(m)
	vrt.Assert(vrt.And(k.Recommended >= l.Recommended, k.Practical >= l.Practical, k.Theoretical >= l.Theoretical), "monotone")
	vrt.Reach("end")
}

// LimitsTarget: targets are capped at the theoretical maximum only, and every
// target above the recommendation is warned about.
func LimitsTarget() {
	n := anyInt("n")
	t := vrt.Float64("target")
	l := swarm.GetCoherenceLimits(n)
	got, warn := swarm.ValidateCoherenceTarget(n, t)
	if math.IsNaN(t) {
		return
	}
	vrt.Assert(got == vrt.IteF(t > l.Theoretical, l.Theoretical, t), "capped")
	vrt.Assert((warn == "") == (t <= l.Recommended), "warned")
	again, _ := swarm.ValidateCoherenceTarget(n, got)
	vrt.Assert(again == got, "idempotent")
	vrt.Reach("end")
}

// LimitsMinimum: the swarm size named for a target up to 0.99 reaches it
// practically, and higher targets never need fewer agents.
func LimitsMinimum() {
	t, u := vrt.Float64("target"), vrt.Float64("other")
	vrt.Assume(t <= 0.99)
	n := swarm.GetMinimumSwarmSize(t)
	vrt.Assert(n >= 2, "positive")
	l := swarm.GetCoherenceLimits(n)
	vrt.Assert(l.Practical >= t, "reachable")
	vrt.Assert(!math.IsInf(swarm.GetConvergenceTimeFactor(n, t), 1), "finite-time")
	vrt.Assume(u <= t)
	vrt.Assert(swarm.GetMinimumSwarmSize(u) <= n, "monotone")
	vrt.Reach("end")
}

// LimitsTime: the time factor is at least one, grows with the target and is
// infinite exactly when the target is out of practical reach.
func LimitsTime() {
	n := anyInt("n")
	t, u := vrt.Float64("target"), vrt.Float64("other")
	vrt.Assume(vrt.And(!math.IsNaN(t), !math.IsNaN(u)))
	l := swarm.GetCoherenceLimits(n)
	f := swarm.GetConvergenceTimeFactor(n, t)
	vrt.Assert(f >= 1, "at-least-one")
	vrt.Assert(math.IsInf(f, 1) == (t > l.Practical), "infinite-iff-unreachable")
	vrt.Assume(u >= t)
	vrt.Assert(swarm.GetConvergenceTimeFactor(n, u) >= f, "monotone")
	vrt.Reach("end")
}

// ScaleOrder: the size class of a count grows with the count.
func ScaleOrder() {
	a, b := anyInt("a"), anyInt("b")
	vrt.Assume(a <= b)
	s, t := scale.FromCount(a), scale.FromCount(b)
	vrt.Assert(vrt.And(s >= scale.Tiny, s <= t, t <= scale.Huge), "monotone")
	vrt.Reach("end")
}

// ScaleTables: the default count of a class is the largest in that class, and
// the class tables agree with each other.
func ScaleTables() {
	vrt.Merge()
	k := scale.Size(anyInt("class"))
	n := k.DefaultAgentCount()
	vrt.Assert(vrt.And(n > 0, k.DefaultTargetCoherence() > 0, k.DefaultTargetCoherence() <= 1, k.UpdateInterval() > 0, k.DefaultUpdateIntervalMs() > 0, k.DefaultConvergenceTimeFactor() >= 1), "positive")
	vrt.Assert(vrt.And(k.MaxNeighbors() >= 1, k.MaxNeighbors() < n), "neighbours-fit")
	vrt.Assume(vrt.And(k >= scale.Tiny, k <= scale.Huge))
	vrt.Assert(scale.FromCount(n) == k, "count-in-class")
	vrt.Assert(vrt.Or(scale.FromCount(n+1) == k+1, k == scale.Huge), "count-is-largest")
	vrt.Assert(k.UpdateInterval() == k.DefaultUpdateIntervalMs(), "intervals-agree")
	vrt.Assert(k.DefaultTargetCoherence() <= swarm.GetCoherenceLimits(n).Practical, "target-practical")
	vrt.Assert(swarm.GetMinimumSwarmSize(k.DefaultTargetCoherence()) <= n, "target-reachable")
	vrt.Assert(k.String() != "unknown", "named")
	j := k + 1
	vrt.Assert(vrt.Or(k == scale.Huge, vrt.And(j.DefaultAgentCount() > n, j.DefaultTargetCoherence() <= k.DefaultTargetCoherence(), j.UpdateInterval() >= k.UpdateInterval(), j.DefaultConvergenceTimeFactor() >= k.DefaultConvergenceTimeFactor())), "tables-monotone")
	vrt.Reach("end")
}

// built checks a client that was built.
func built(cl *client.Client, s scale.Size) {
	n := s.DefaultAgentCount()
	vrt.Assert(vrt.And(cl.Size() == n, len(cl.Agents()) == n, cl.Swarm().Size() == n), "size")
	vrt.Assert(cl.Config().Validate() == nil, "config-valid")
	cfg := cl.Swarm().Config()
	vrt.Assert(cfg.Validate(n) == nil, "swarm-config-valid")
	linked := true
	for id, a := range cl.Agents() {
		linked = linked && id == a.ID && a.NeighborCount() >= cfg.MinNeighbors
	}
	vrt.Assert(linked, "agents-linked")
	vrt.Assert(vrt.And(cl.Coherence() >= 0, cl.Coherence() <= 1), "coherence-range")
}

// ClientOptions: the coherence option rejects everything outside (0,1]; every
// other client of every goal and of a tiny, small or medium scale is built with
// the class's number of agents, enough connections and a valid configuration.
func ClientOptions() {
	vrt.FixedRand(1)
	c := vrt.Float64("coherence")
	g := goal.Type(vrt.Choose("goal", 9))
	s := scale.Size(vrt.Choose("scale", 3))
	cl, err := client.NewWithOptions(client.WithGoalOption(g), client.WithScaleOption(s), client.WithCoherenceOption(c))
	vrt.Assert((err == nil) == vrt.And(c > 0, c <= 1), "accepts-exactly-unit")
	vrt.Assert((cl == nil) == (err != nil), "client-iff-ok")
	if err != nil {
		vrt.Reach("error")
		return
	}
	built(cl, s)
	vrt.Reach("ok")
}

// ClientBuilder: the builder falls back to the class's target when none (or a
// non-positive one) is set, and otherwise accepts exactly targets up to one.
func ClientBuilder() {
	vrt.FixedRand(1)
	c := vrt.Float64("coherence")
	s := scale.Size(vrt.Choose("scale", 3))
	b := client.New().WithGoal(goal.Type(vrt.Choose("goal", 9))).WithScale(s)
	vrt.Assert(b != nil, "builder")
	cl, err := b.WithTargetCoherence(c).Build()
	vrt.Assert((err == nil) == (c <= 1), "accepts-exactly-up-to-one")
	vrt.Assert((cl == nil) == (err != nil), "client-iff-ok")
	if err != nil {
		vrt.Reach("error")
		return
	}
	built(cl, s)
	vrt.Reach("ok")
}
