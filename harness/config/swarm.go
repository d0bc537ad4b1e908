// Package config drives the swarm configuration.
package config

import (
	"math"
	"time"

	"github.com/carlisia/bio-adapt/internal/config"
	"github.com/carlisia/bio-adapt/internal/zzverif/vrt"
)

func number(name string) float64 {
	f := vrt.Float64(name)
	vrt.Assume(!math.IsNaN(f))
	return f
}
func dur(name string) time.Duration { return time.Duration(vrt.Int(name, math.MinInt64, math.MaxInt64)) }
func anyInt(name string) int        { return vrt.Int(name, math.MinInt64, math.MaxInt64) }

func arbitrary(f func(string) float64) config.Swarm {
	return config.Swarm{
		ConnectionProbability: f("connection"), MaxNeighbors: anyInt("max"), MinNeighbors: anyInt("min"),
		CouplingStrength: f("coupling"), Stubbornness: f("stubborn"), InitialEnergy: f("energy"),
		AssumedMaxNeighbors: anyInt("assumed"), BasinStrength: f("basin"), BasinWidth: f("width"),
		BaseConfidence: f("confidence"), InfluenceDefault: f("influence"), MaxSwarmSize: anyInt("limit"),
		MaxConcurrentAgents: anyInt("concurrent"), UseBatchProcessing: vrt.Bool("batch"), BatchSize: anyInt("batchsize"), WorkerPoolSize: anyInt("workers"),
		AgentUpdateInterval: dur("update"), MonitoringInterval: dur("monitor"), ConnectionOptimThreshold: anyInt("optim"),
		EnableConnectionOptim: vrt.Bool("enable"), AutoScale: vrt.Bool("auto"),
	}
}

func unit(f float64) bool { return vrt.And(f >= 0, f <= 1) }

func sizeFits(c config.Swarm, n int) bool {
	return vrt.And(n > 0, vrt.Or(c.MaxSwarmSize <= 0, n <= c.MaxSwarmSize))
}
func probsFit(c config.Swarm) bool {
	return vrt.And(unit(c.ConnectionProbability), unit(c.CouplingStrength), unit(c.Stubbornness), unit(c.BasinStrength), unit(c.BaseConfidence), unit(c.InfluenceDefault))
}
func neighborsFit(c config.Swarm, n int) bool {
	return vrt.And(c.MinNeighbors >= 0, c.MinNeighbors <= c.MaxNeighbors, c.MaxNeighbors <= n-1, vrt.Or(c.MaxNeighbors >= 1, n == 1))
}
func positivesFit(c config.Swarm) bool {
	return vrt.And(c.InitialEnergy > 0, c.BasinWidth > 0, c.AgentUpdateInterval > 0, c.MonitoringInterval > 0)
}
func concurrencyFits(c config.Swarm) bool {
	return vrt.And(c.MaxConcurrentAgents >= 0, c.BatchSize >= 0, c.WorkerPoolSize >= 0, c.ConnectionOptimThreshold >= 0)
}
func valid(c config.Swarm, n int) bool {
	return vrt.And(sizeFits(c, n), probsFit(c), neighborsFit(c, n), positivesFit(c), concurrencyFits(c))
}

func same(a, b config.Swarm) bool {
	return vrt.And(vrt.SameF(a.ConnectionProbability, b.ConnectionProbability), a.MaxNeighbors == b.MaxNeighbors, a.MinNeighbors == b.MinNeighbors,
		vrt.SameF(a.CouplingStrength, b.CouplingStrength), vrt.SameF(a.Stubbornness, b.Stubbornness), vrt.SameF(a.InitialEnergy, b.InitialEnergy),
		a.AssumedMaxNeighbors == b.AssumedMaxNeighbors, vrt.SameF(a.BasinStrength, b.BasinStrength), vrt.SameF(a.BasinWidth, b.BasinWidth),
		vrt.SameF(a.BaseConfidence, b.BaseConfidence), vrt.SameF(a.InfluenceDefault, b.InfluenceDefault), a.MaxSwarmSize == b.MaxSwarmSize,
		a.MaxConcurrentAgents == b.MaxConcurrentAgents, a.UseBatchProcessing == b.UseBatchProcessing, a.BatchSize == b.BatchSize, a.WorkerPoolSize == b.WorkerPoolSize,
		a.AgentUpdateInterval == b.AgentUpdateInterval, a.MonitoringInterval == b.MonitoringInterval, a.ConnectionOptimThreshold == b.ConnectionOptimThreshold,
		a.EnableConnectionOptim == b.EnableConnectionOptim, a.AutoScale == b.AutoScale)
}

// mostlyValid bounds how many constraints the configuration violates at once:
// limit (thorough: one more).
func mostlyValid(c config.Swarm, n, limit int) {
	vrt.Merge()
	if vrt.Tier() > 0 {
		limit++
	}
	over := make([]bool, limit+1) // over[k]: more than k violated so far
	for _, ok := range []bool{
		n > 0, vrt.Or(c.MaxSwarmSize <= 0, n <= c.MaxSwarmSize),
		unit(c.ConnectionProbability), unit(c.CouplingStrength), unit(c.Stubbornness), unit(c.BasinStrength), unit(c.BaseConfidence), unit(c.InfluenceDefault),
		c.MinNeighbors >= 0, c.MinNeighbors <= c.MaxNeighbors, c.MaxNeighbors <= n-1, vrt.Or(c.MaxNeighbors >= 1, n == 1),
		c.InitialEnergy > 0, c.BasinWidth > 0, c.AgentUpdateInterval > 0, c.MonitoringInterval > 0,
		c.MaxConcurrentAgents >= 0, c.BatchSize >= 0, c.WorkerPoolSize >= 0, c.ConnectionOptimThreshold >= 0,
	} {
		for k := limit; k > 0; k-- {
			over[k] = vrt.Or(over[k], vrt.And(over[k-1], !ok))
		}
		over[0] = vrt.Or(over[0], !ok)
	}
	vrt.Assume(!over[limit])
}

// ConfigValidate: validation accepts exactly the well-formed configurations and
// changes nothing.
func ConfigValidate() {
	c := arbitrary(vrt.Float64)
	d := c
	n := vrt.Int("n", -1000, 1000000)
	mostlyValid(c, n, 2)
	err := c.Validate(n)
	vrt.Assert((err == nil) == valid(d, n), "accepts-exactly-valid")
	vrt.Assert(same(c, d), "unchanged")
	vrt.Reach("end")
}

func clamp(f float64) float64 { return vrt.IteF(f < 0, 0, vrt.IteF(f > 1, 1, f)) }

// ConfigNormalize: every configuration for a size within its limit is repaired;
// values already in range are kept, and a second pass changes nothing.
func ConfigNormalize() {
	c := arbitrary(number)
	d := c
	n := vrt.Int("n", -1000, 1000000)
	mostlyValid(c, n, 1)
	err := c.NormalizeAndValidate(n)
	vrt.Assert((err == nil) == sizeFits(d, n), "error-iff-size-unfit")
	if err != nil {
		vrt.Reach("error")
		return
	}
	vrt.Assert(valid(c, n), "valid")
	vrt.Assert(vrt.And(c.ConnectionProbability == clamp(d.ConnectionProbability), c.CouplingStrength == clamp(d.CouplingStrength), c.Stubbornness == clamp(d.Stubbornness),
		c.BasinStrength == clamp(d.BasinStrength), c.BaseConfidence == clamp(d.BaseConfidence), c.InfluenceDefault == clamp(d.InfluenceDefault)), "probabilities-clamped")
	vrt.Assert(vrt.Implies(neighborsFit(d, n), vrt.And(c.MaxNeighbors == d.MaxNeighbors, c.MinNeighbors == d.MinNeighbors)), "neighbours-kept")
	vrt.Assert(vrt.And(vrt.Implies(d.InitialEnergy > 0, c.InitialEnergy == d.InitialEnergy), vrt.Implies(d.BasinWidth > 0, c.BasinWidth == d.BasinWidth),
		vrt.Implies(d.AgentUpdateInterval > 0, c.AgentUpdateInterval == d.AgentUpdateInterval), vrt.Implies(d.MonitoringInterval > 0, c.MonitoringInterval == d.MonitoringInterval)), "positives-kept")
	vrt.Assert(vrt.And(vrt.Implies(d.BatchSize > 0, c.BatchSize == d.BatchSize), vrt.Implies(d.WorkerPoolSize > 0, c.WorkerPoolSize == d.WorkerPoolSize),
		vrt.Implies(d.MaxConcurrentAgents >= 0, c.MaxConcurrentAgents == d.MaxConcurrentAgents), vrt.Implies(d.ConnectionOptimThreshold >= 0, c.ConnectionOptimThreshold == d.ConnectionOptimThreshold)), "concurrency-kept")
	vrt.Assert(vrt.Implies(d.UseBatchProcessing, vrt.And(c.BatchSize > 0, c.WorkerPoolSize > 0)), "batching-has-room")
	vrt.Assert(vrt.And(c.AssumedMaxNeighbors == d.AssumedMaxNeighbors, c.MaxSwarmSize == d.MaxSwarmSize, c.UseBatchProcessing == d.UseBatchProcessing,
		c.EnableConnectionOptim == d.EnableConnectionOptim, c.AutoScale == d.AutoScale), "flags-kept")
	e := c
	vrt.Assert(e.NormalizeAndValidate(n) == nil, "idempotent-ok")
	vrt.Assert(same(c, e), "idempotent")
	vrt.Reach("ok")
}

// ConfigAutoScale: the automatic configuration of every size up to a million is
// valid as it stands, and normalizing it keeps it.
func ConfigAutoScale() {
	n := vrt.Int("n", 1, 1000000)
	c := config.AutoScaleConfig(n)
	vrt.Assert(c.AutoScale, "marked")
	vrt.Assert(c.AssumedMaxNeighbors == 0, "density-from-size")
	vrt.Assert(c.Validate(n) == nil, "valid")
	vrt.Assert(vrt.Implies(n < 10, vrt.And(c.MaxNeighbors == n-1, c.ConnectionProbability == 1)), "tiny-fully-connected")
	d := c
	vrt.Assert(d.NormalizeAndValidate(n) == nil, "normalizes")
	vrt.Assert(vrt.And(d.MaxNeighbors == c.MaxNeighbors, d.MinNeighbors == c.MinNeighbors, d.CouplingStrength == c.CouplingStrength), "kept")
	vrt.Assert(vrt.Implies(d.UseBatchProcessing, vrt.And(d.BatchSize > 0, d.WorkerPoolSize > 0)), "batching-has-room")
	vrt.Reach("end")
}

// ConfigAutoScaleCoupling: the bigger of two automatically configured swarms
// beyond 1000 agents couples no stronger.
func ConfigAutoScaleCoupling() {
	n, m := vrt.Int("n", 1000, 1000000), vrt.Int("m", 1000, 1000000)
	vrt.Assume(n <= m)
	a, b := config.AutoScaleConfig(n), config.AutoScaleConfig(m)
	vrt.Assert(b.CouplingStrength <= a.CouplingStrength, "weaker")
	vrt.Assert(b.MaxNeighbors >= a.MaxNeighbors, "neighbours")
	vrt.Reach("end")
}

// ConfigBatching: the batching configuration of every workload normalizes to a
// valid one.
func ConfigBatching() {
	n := vrt.Int("n", 1, 1000000)
	w := dur("window")
	c := config.ForBatching(n, w)
	vrt.Assert(c.NormalizeAndValidate(n) == nil, "normalizes")
	vrt.Assert(valid(c, n), "valid")
	wide := config.ForBatching(n, 300*time.Millisecond)
	vrt.Assert(vrt.Implies(w < 100*time.Millisecond, vrt.And(c.CouplingStrength >= wide.CouplingStrength, c.Stubbornness <= wide.Stubbornness)), "tight-window-couples-stronger")
	vrt.Assert(vrt.Implies(w > 500*time.Millisecond, c.CouplingStrength <= wide.CouplingStrength), "loose-window-couples-weaker")
	vrt.Reach("end")
}

// ConfigPresets: presets are valid for the sizes they name, and agents built
// from a swarm configuration carry its values.
func ConfigPresets() {
	n := vrt.Int("n", 11, 100)
	s := config.SmallSwarmConfig()
	vrt.Assert(s.Validate(n) == nil, "small")
	m := vrt.Int("m", 9, 1000)
	c := config.MediumSwarmConfig()
	vrt.Assert(c.Validate(m) == nil, "medium")
	d := config.DefaultConfig()
	vrt.Assert(d.Validate(vrt.Int("k", 6, 1000000)) == nil, "default")
	x := arbitrary(number)
	a := config.AgentFromSwarm(x)
	vrt.Assert(vrt.And(a.MaxTokens == x.InitialEnergy, a.InitialEnergy == x.InitialEnergy, a.StrategyRate == x.CouplingStrength, a.Influence == x.InfluenceDefault,
		a.Stubbornness == x.Stubbornness, a.AssumedMaxNeighbors == x.AssumedMaxNeighbors), "agent-values")
	vrt.Reach("end")
}
