// Package swarm drives swarms: construction, storage, topology and runs.
package swarm

import (
	"fmt"
	"math"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/internal/config"
	"github.com/carlisia/bio-adapt/internal/zzverif/vrt"
)

const tau = 2 * math.Pi

func someGoal() core.State {
	return core.State{Phase: 1, Frequency: 200 * time.Millisecond, Coherence: 0.8}
}

var sizes = []int{1, 2, 3, 20, 101, 230}

// SwarmNewErrors: construction fails exactly for a non-positive size or an
// invalid goal, whatever the goal, and never returns a swarm with an error.
func SwarmNewErrors() {
	vrt.FixedRand(1)
	n := []int{math.MinInt64, -1, 0, 1, 2, 101}[vrt.Choose("size", 6)]
	g := core.State{Phase: vrt.Float64("phase"), Frequency: time.Duration(vrt.Int("freq", math.MinInt64, math.MaxInt64)), Coherence: vrt.Float64("coherence")}
	s, err := swarm.New(n, g)
	ok := vrt.And(n > 0, g.Validate() == nil)
	vrt.Assert((err == nil) == ok, "error-iff-invalid")
	vrt.Assert((s == nil) == (err != nil), "swarm-iff-ok")
	if n == 2 {
		t, err := swarm.NewSwarmFromConfig(n, g, config.AutoScaleConfig(n))
		vrt.Assert((err == nil) == ok, "from-config-error-iff-invalid")
		vrt.Assert((t == nil) == (err != nil), "from-config-swarm-iff-ok")
	}
	vrt.Reach("end")
}

// SwarmStorage: a swarm of either storage holds exactly its size of agents,
// under their own distinct ids; lookup, listing and iteration agree.
func SwarmStorage() {
	vrt.FixedRand(1)
	n := sizes[vrt.Choose("size", len(sizes))]
	s, err := swarm.New(n, someGoal())
	vrt.Assert(err == nil, "built")
	vrt.Assert(vrt.And(s.Size() == n, len(s.Agents()) == n), "size")
	good := true
	for id, a := range s.Agents() {
		b, ok := s.Agent(id)
		good = good && a != nil && id == a.ID && ok && a == b
	}
	vrt.Assert(good, "lookup-agrees")
	for i := 0; i < n; i++ {
		_, ok := s.Agent(fmt.Sprintf("agent-%d", i))
		good = good && ok
	}
	vrt.Assert(good, "ids")
	_, ok := s.Agent(fmt.Sprintf("agent-%d", n))
	vrt.Assert(!ok, "stranger")
	seen := map[*agent.Agent]bool{}
	calls := 0
	s.ForEachAgent(func(a *agent.Agent) bool {
		calls++
		seen[a] = true
		b, ok := s.Agent(a.ID)
		good = good && ok && a == b
		return true
	})
	vrt.Assert(vrt.And(good, calls == n, len(seen) == n), "visits-each-once")
	stop := vrt.Int("stop", 1, n)
	if n > 20 {
		vrt.Assume(stop <= 3)
	}
	calls = 0
	s.ForEachAgent(func(*agent.Agent) bool { calls++; return calls < stop })
	vrt.Assert(calls == stop, "visit-stops")
	vrt.Reach("end")
}

// SwarmDisrupt: disrupting a fraction re-draws the phase of exactly that many
// agents, for every fraction (clamped to [0,1]) and either storage.
func SwarmDisrupt() {
	vrt.FixedRand(1)
	n := sizes[vrt.Choose("size", len(sizes)-1)]
	s, err := swarm.New(n, someGoal())
	vrt.Assert(err == nil, "built")
	p := vrt.Float64("fraction")
	vrt.Assume(!math.IsNaN(p))
	before := map[string]float64{}
	for id, a := range s.Agents() {
		before[id] = a.Phase()
	}
	s.DisruptAgents(p)
	changed := 0
	for id, a := range s.Agents() {
		if a.Phase() != before[id] {
			changed++
		}
		vrt.Assert(vrt.And(a.Phase() >= 0, a.Phase() < tau), "phase-range")
	}
	want := int(float64(n) * vrt.IteF(p < 0, 0, vrt.IteF(p > 1, 1, p)))
	vrt.Assert(changed == want, "exactly-that-many")
	vrt.Assert(s.CurrentCoherence() == 0, "tracking-reset")
	vrt.Assert(!s.IsConverged(), "not-converged")
	vrt.Reach("end")
}

// SwarmBuilder: custom agents and a custom topology are used as given, in either
// storage; the topology builder sees all agents.
func SwarmBuilder() {
	vrt.FixedRand(1)
	n := []int{1, 3, 20, 101}[vrt.Choose("size", 4)]
	made := map[string]*agent.Agent{}
	custom := vrt.Choose("agents", 2) == 1
	opts := []swarm.Option{}
	sees := -1
	topo := swarm.WithTopology(func(s *swarm.Swarm) error {
		sees = len(s.Agents())
		return nil
	})
	if vrt.Choose("order", 2) == 1 {
		opts = append(opts, topo)
	}
	if custom {
		opts = append(opts, swarm.WithAgentBuilder(func(id string, size int, cfg config.Swarm) *agent.Agent {
			a := agent.New(id)
			made[id] = a
			return a
		}))
	}
	if len(opts) == 0 || custom && len(opts) == 1 {
		opts = append(opts, topo)
	}
	s, err := swarm.New(n, someGoal(), opts...)
	vrt.Assert(err == nil, "built")
	vrt.Assert(sees == n, "topology-sees-agents")
	vrt.Assert(len(s.Agents()) == n, "size")
	good, links := true, 0
	for id, a := range s.Agents() {
		if custom {
			good = good && made[id] == a
		}
		links += a.NeighborCount()
	}
	vrt.Assert(good, "custom-agents-used")
	vrt.Assert(links == 0, "only-custom-links")
	bad, err := swarm.New(n, someGoal(), swarm.WithTopology(func(*swarm.Swarm) error { return fmt.Errorf("no") }))
	vrt.Assert(vrt.And(bad == nil, err != nil), "topology-error-reported")
	bad, err = swarm.New(n, someGoal(), swarm.WithGoalConfig(nil))
	vrt.Assert(vrt.And(bad == nil, err != nil), "nil-config-rejected")
	vrt.Reach("end")
}

// SwarmMeasure: coherence of two agents is the coherence of their phases, and
// convergence to any target phase lies in [0,1], one exactly at the target.
func SwarmMeasure() {
	vrt.FixedRand(1)
	n := 1 + vrt.Choose("size", 2)
	s, err := swarm.New(n, someGoal())
	vrt.Assert(err == nil, "built")
	var ph []float64
	for i := 0; i < n; i++ {
		a, _ := s.Agent(fmt.Sprintf("agent-%d", i))
		f := vrt.Float64("phase")
		vrt.Assume(vrt.And(f >= 0, f < tau))
		a.SetPhase(f)
		ph = append(ph, a.Phase())
	}
	vrt.Assert(s.MeasureCoherence() == core.MeasureCoherence(ph), "coherence")
	t := vrt.Float64("target")
	vrt.Assume(vrt.And(t >= -2*tau, t <= 3*tau))
	c := s.MeasurePhaseConvergence(t)
	vrt.Assert(vrt.And(c >= 0, c <= 1), "convergence-range")
	vrt.Reach("end")
}
