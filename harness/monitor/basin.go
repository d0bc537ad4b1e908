package monitor

import (
	"math"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/internal/emerge"
	"github.com/carlisia/bio-adapt/internal/random"
	"github.com/carlisia/bio-adapt/internal/zzverif/vrt"
)

func basinState(name string) core.State {
	s := core.State{Phase: vrt.Float64(name + "-phase"), Frequency: time.Duration(vrt.Int(name+"-freq", 1, int(time.Hour)))}
	vrt.Assume(vrt.And(s.Phase >= 0, s.Phase < tau))
	return s
}

// BasinForce: the force is between zero and the (clamped) strength, zero outside
// the basin, full at its centre; rates follow it and adjustments do not overshoot.
func BasinForce() {
	target, state := basinState("target"), basinState("state")
	strength, radius := vrt.Float64("strength"), vrt.Float64("radius")
	vrt.Assume(vrt.And(vrt.IsFinite(strength), radius >= 0, radius <= math.Pi))
	b := emerge.NewAttractorBasin(target, strength, radius)
	full := vrt.IteF(strength < 0, 0, vrt.IteF(strength > 1, 1, strength))
	d := b.DistanceToTarget(state)
	vrt.Assert(vrt.And(d >= 0, d <= math.Pi+1e-9), "distance-range")
	vrt.Assert(b.DistanceToTarget(target) == 0, "distance-zero")
	vrt.Assert(b.IsInBasin(state) == (d <= radius), "in-basin")
	f := b.AttractionForce(state)
	vrt.Assert(vrt.And(f >= 0, f <= full), "force-range")
	vrt.Assert(vrt.Implies(d > radius, f == 0), "no-force-outside")
	vrt.Assert(b.AttractionForce(target) == full, "full-at-centre")
	r := b.ConvergenceRate(state)
	vrt.Assert(vrt.And(r >= 0, r <= full), "rate-range")
	diff := core.PhaseDifference(target.Phase, state.Phase)
	a := b.OptimalAdjustment(state)
	vrt.Assert(math.Abs(a) <= math.Abs(diff), "no-overshoot")
	vrt.Assert(vrt.And(vrt.Implies(diff > 0, a >= 0), vrt.Implies(diff < 0, a <= 0)), "direction")
	vrt.Reach("end")
}

// RandomRanges: whatever the source delivers, numbers lie in their ranges, and
// invalid bounds panic rather than loop.
func RandomRanges() {
	vrt.MaxDraws(4)
	f := random.Float64()
	vrt.Assert(vrt.And(f >= 0, f < 1), "float-range")
	p := random.Phase()
	vrt.Assert(vrt.And(p >= 0, p < tau), "phase-range")
	n := vrt.Int("n", 1, math.MaxInt32)
	i := random.Intn(n)
	vrt.Assert(vrt.And(i >= 0, i < n), "int-range")
	vrt.Reach("end")
}

// RandomInvalid: a non-positive bound panics.
func RandomInvalid() {
	n := vrt.Int("n", math.MinInt64, 0)
	vrt.Assert(vrt.Panics(func() { random.Intn(n) }), "non-positive-panics")
	vrt.Reach("end")
}
