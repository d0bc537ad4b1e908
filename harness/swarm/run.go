package swarm

import (
	"context"
	"errors"
	"fmt"
	"math"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/internal/config"
	"github.com/carlisia/bio-adapt/internal/zzverif/vrt"
)

func setPhases(s *swarm.Swarm, ph ...float64) {
	for i, p := range ph {
		a, _ := s.Agent(fmt.Sprintf("agent-%d", i))
		a.SetPhase(p)
	}
}

func phase(name string) float64 {
	f := vrt.Float64(name)
	vrt.Assume(vrt.And(f >= 0, f < tau))
	return f
}

var goals = []goal.Type{goal.MinimizeAPICalls, goal.DistributeLoad, goal.ReachConsensus}

// RunAchieved: a run ends without an error only with the target met, as measured
// on the agents; it ends by the deadline of its context otherwise.
func RunAchieved() {
	vrt.FixedRand(1)
	gc := swarm.For(goals[vrt.Choose("goal", len(goals))])
	n := 1 + vrt.Choose("size", 2)
	target := vrt.Float64("target")
	vrt.Assume(vrt.And(target > 0, target <= 1))
	g := core.State{Phase: 1, Frequency: 120 * time.Millisecond, Coherence: target}
	s, err := swarm.New(n, g, swarm.WithGoalConfig(gc))
	vrt.Assert(err == nil, "built")
	ph := []float64{phase("phase"), 2}[:n]
	setPhases(s, ph...)
	vrt.CutCall("core.IdentifyGaps")
	vrt.Merge() // up to the first adjustment
	ctx, cancel := context.WithTimeout(context.Background(), gc.Strategy.UpdateInterval*3/2)
	defer cancel()
	start := time.Now()
	err = s.Run(ctx)
	took := time.Since(start)
	vrt.Assert(took <= gc.Strategy.UpdateInterval*3/2, "ends-by-deadline")
	vrt.Assert(err == nil || errors.Is(err, context.DeadlineExceeded), "ends-with")
	if err == nil {
		c := s.MeasureCoherence()
		cap := swarm.GetCoherenceLimits(n).Practical
		want := vrt.IteF(target > cap, cap, target)
		vrt.Assert(c >= want-2*gc.Convergence.ToleranceSmall-1e-9, "coherence-reached")
		vrt.Assert(s.CurrentCoherence() == c, "coherence-recorded")
		if want >= gc.Thresholds.HighCoherence {
			vrt.Assert(s.MeasurePhaseConvergence(g.Phase) >= gc.Convergence.PhaseConvergenceGoal, "phases-converged")
		}
	}
	vrt.Reach("end")
}

// RunLeavesAchieved: a swarm that already meets its goal is reported as such at
// the first check and left alone.
func RunLeavesAchieved() {
	vrt.FixedRand(1)
	gc := swarm.For(goals[vrt.Choose("goal", len(goals))])
	f := 120 * time.Millisecond
	n := 1 + vrt.Choose("size", 2)
	g := core.State{Phase: []float64{0, 1, 6}[vrt.Choose("phase", 3)], Frequency: f, Coherence: vrt.Float64("target")}
	cap := swarm.GetCoherenceLimits(n).Practical
	want := vrt.IteF(g.Coherence > cap, cap, g.Coherence)
	// more coherence than aimed for is a distance too
	vrt.Assume(vrt.And(g.Coherence <= 1, 0.3*(1-want) < 0.99*gc.Convergence.PatternDistanceThreshold))
	s, err := swarm.New(n, g, swarm.WithGoalConfig(gc))
	vrt.Assert(err == nil, "built")
	for _, a := range s.Agents() {
		a.SetPhase(g.Phase)
		a.SetFrequency(f)
	}
	start := time.Now()
	vrt.Merge()
	ctx, cancel := context.WithTimeout(context.Background(), gc.Strategy.UpdateInterval*3/2)
	defer cancel()
	err = s.Run(ctx)
	vrt.Assert(err == nil, "achieved")
	vrt.Assert(time.Since(start) <= gc.Strategy.UpdateInterval, "at-once")
	for _, a := range s.Agents() {
		vrt.Assert(vrt.And(a.Phase() == g.Phase, a.Frequency() == f), "left-alone")
	}
	vrt.Reach("end")
}

// RunCancelled: a cancelled run returns the context's error and, if it never
// started, touches no agent.
func RunCancelled() {
	vrt.FixedRand(1)
	s, err := swarm.New(2, someGoal())
	vrt.Assert(err == nil, "built")
	x, _ := s.Agent("agent-0")
	y, _ := s.Agent("agent-1")
	setPhases(s, phase("phase"), phase("other"))
	a, b := x.Phase(), y.Phase()
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	continuous := vrt.Choose("continuous", 2) == 1
	if continuous {
		err = s.RunContinuous(ctx)
	} else {
		err = s.Run(ctx)
	}
	vrt.Assert(errors.Is(err, context.Canceled), "context-error")
	vrt.Assert(vrt.And(x.Phase() == a, y.Phase() == b), "untouched")
	vrt.Reach("end")
}

// RunEnds: however hard the target, a run makes at most the configured number of
// rounds, scaled by the difficulty and capped at a thousand, then gives up.
func RunEnds() {
	vrt.FixedRand(1)
	gc := swarm.For(goal.MinimizeAPICalls)
	gc.Strategy.MaxIterationsFactor = vrt.Float64("factor")
	vrt.Assume(vrt.And(gc.Strategy.MaxIterationsFactor >= 1, gc.Strategy.MaxIterationsFactor <= 3))
	gc.Convergence.PatternDistanceThreshold = 1e-6
	n := 2
	target := []float64{0.5, 0.7, 0.78, 0.85, 1}[vrt.Choose("target", 5)]
	g := core.State{Phase: 1, Frequency: 120 * time.Millisecond, Coherence: target}
	s, err := swarm.New(n, g, swarm.WithGoalConfig(gc))
	vrt.Assert(err == nil, "built")
	setPhases(s, 2, 5)
	vrt.Merge()
	start := time.Now()
	err = s.Run(context.Background())
	rounds := float64(time.Since(start)) / float64(gc.Strategy.UpdateInterval)
	vrt.Assert(err != nil, "gives-up")
	cap := swarm.GetCoherenceLimits(n).Practical
	most := math.Min(gc.Strategy.MaxIterationsFactor*swarm.GetConvergenceTimeFactor(n, math.Min(target, cap)), 1000)
	vrt.Assert(vrt.And(rounds <= most+1e-6, rounds > most-1-1e-6), "rounds")
	vrt.Reach("end")
}

// RunImpossible: nor does it go on forever for a target that is out of reach.
func RunImpossible() {
	vrt.FixedRand(1)
	vrt.MaxSteps(50_000_000)
	n := 2
	g := core.State{Phase: 1, Frequency: 120 * time.Millisecond, Coherence: []float64{0.9, 1}[vrt.Choose("target", 2)]}
	s, err := swarm.NewSwarmFromConfig(n, g, config.AutoScaleConfig(n))
	vrt.Assert(err == nil, "built")
	setPhases(s, 2, 5)
	start := time.Now()
	err = s.Run(context.Background())
	vrt.Assert(time.Since(start) <= 1000*100*time.Millisecond, "rounds")
	vrt.Assert(vrt.Implies(err == nil, s.MeasureCoherence() > 0.8), "gives-up")
	vrt.Reach("end")
}

// RunAdjusts: whatever is drawn at random, a round of adjustments keeps phases on
// the circle and frequencies positive and touches nothing else of an agent.
func RunAdjusts() {
	vrt.FixedRand(1)
	gc := swarm.For(goals[vrt.Choose("goal", 1+2*vrt.Tier())])
	g := core.State{Phase: 1, Frequency: 120 * time.Millisecond, Coherence: []float64{0.3, 0.84, 0.6}[vrt.Choose("target", 2+vrt.Tier())]}
	s, err := swarm.New(2, g, swarm.WithGoalConfig(gc))
	vrt.Assert(err == nil, "built")
	pair := [][]float64{{0, 6.2}, {1, 1.3}, {4, 0.5}, {3, 3}}[vrt.Choose("phases", 3+vrt.Tier())]
	setPhases(s, pair...)
	type own struct{ energy, goal, influence, stubbornness float64 }
	state := func(i int) own {
		a, _ := s.Agent(fmt.Sprintf("agent-%d", i))
		return own{a.Energy(), a.LocalGoal(), a.Influence(), a.Stubbornness()}
	}
	freq := time.Duration(vrt.Int("freq", 1, int(time.Second)))
	for _, a := range s.Agents() {
		a.SetFrequency(freq)
	}
	before := []own{state(0), state(1)}
	vrt.FreeRand()
	vrt.Merge()
	ctx, cancel := context.WithTimeout(context.Background(), gc.Strategy.UpdateInterval*3/2)
	defer cancel()
	_ = s.Run(ctx)
	for _, a := range s.Agents() {
		vrt.Assert(vrt.And(a.Phase() >= 0, a.Phase() < tau), "phase-on-circle")
		vrt.Assert(a.Frequency() > 0, "frequency-positive")
	}
	vrt.Assert(vrt.And(state(0) == before[0], state(1) == before[1]), "nothing-else")
	vrt.Reach("end")
}
