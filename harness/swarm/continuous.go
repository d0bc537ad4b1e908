package swarm

import (
	"context"
	"errors"
	"math"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/internal/zzverif/vrt"
)

// ContinuousConfig: recovery thresholds are usable and ordered for every target,
// and tighten as the target grows.
func ContinuousConfig() {
	a, b := vrt.Float64("target"), vrt.Float64("higher")
	vrt.Assume(vrt.And(a >= 0, a <= b, b <= 1))
	x, y := swarm.DefaultRecoveryConfig(a), swarm.DefaultRecoveryConfig(b)
	vrt.Assert(vrt.And(x.CheckInterval > 0, x.StuckThreshold > 0), "positive")
	vrt.Assert(vrt.And(x.SmallDropRatio > 0, x.SmallDropRatio < x.LargeDropRatio, x.LargeDropRatio < 1), "drops-ordered")
	vrt.Assert(vrt.And(x.TargetMarginRatio > 0, x.TargetMarginRatio <= 1, x.MinimumViableCoherence > 0, x.MinimumViableCoherence < 1), "ratios")
	vrt.Assert(vrt.And(x.TargetMarginRatio <= y.TargetMarginRatio, x.MinimumViableCoherence <= y.MinimumViableCoherence), "margins-tighten")
	vrt.Assert(vrt.And(x.SmallDropRatio >= y.SmallDropRatio, x.LargeDropRatio >= y.LargeDropRatio), "drops-tighten")
	vrt.Reach("end")
}

func continuous(opts ...swarm.Option) (*swarm.Swarm, core.State) {
	vrt.FixedRand(1)
	g := core.State{Phase: 1, Frequency: 120 * time.Millisecond, Coherence: 0.8}
	s, err := swarm.New(2, g, opts...)
	vrt.Assert(err == nil, "built")
	for _, a := range s.Agents() {
		a.SetPhase(1)
		a.SetFrequency(g.Frequency)
	}
	return s, g
}

// ContinuousEnds: continuous operation ends when its context does, whenever that
// is, with the context's error, and not before: neither success nor the failure
// of an attempt ends it.
func ContinuousEnds() {
	gc := swarm.For(goal.MinimizeAPICalls)
	gc.Strategy.MaxIterationsFactor = 1
	s, _ := continuous(swarm.WithGoalConfig(gc))
	if vrt.Choose("apart", 2) == 1 {
		setPhases(s, 1, 1+math.Pi)
	}
	d := time.Duration(vrt.Int("deadline", 1, int(600*time.Millisecond)))
	ctx, cancel := context.WithTimeout(context.Background(), d)
	defer cancel()
	start := time.Now()
	err := s.RunContinuous(ctx)
	vrt.Assert(errors.Is(err, context.DeadlineExceeded), "context-error")
	vrt.Assert(time.Since(start) == d, "at-deadline")
	vrt.Reach("end")
}

// ContinuousRecovers: whenever a synchronised swarm is disrupted, and whether or
// not earlier attempts succeeded, its agents are adjusted again in bounded time.
func ContinuousRecovers() {
	gc := swarm.For(goal.MinimizeAPICalls)
	fails := vrt.Choose("fails", 2) == 1
	if fails {
		gc.Strategy.MaxIterationsFactor = 1
		gc.Convergence.PatternDistanceThreshold = 1e-9
	}
	s, _ := continuous(swarm.WithGoalConfig(gc))
	ctx, cancel := context.WithCancel(context.Background())
	end := make(chan error, 1)
	go func() { end <- s.RunContinuous(ctx) }()
	x, _ := s.Agent("agent-0")
	y, _ := s.Agent("agent-1")
	vrt.Advance(500 * time.Millisecond)
	for i := 0; i < 1+vrt.Tier(); i++ {
		vrt.Advance(time.Duration(vrt.Int("disruption", int(time.Millisecond), int(1200*time.Millisecond))))
		vrt.Assert(len(end) == 0, "still-running")
		if vrt.Choose("whole", 2) == 1 {
			s.DisruptAgents(1)
		}
		setPhases(s, 1, 1+math.Pi)
		a, b := x.Phase(), y.Phase()
		vrt.Advance(swarm.MinResyncInterval + 2*swarm.DefaultCheckInterval + 2*gc.Strategy.UpdateInterval)
		vrt.Assert(vrt.Or(x.Phase() != a, y.Phase() != b), "adjusted-again")
	}
	vrt.Assert(len(end) == 0, "runs-on")
	cancel()
	vrt.Assert(errors.Is(<-end, context.Canceled), "context-error")
	vrt.Reach("end")
}
