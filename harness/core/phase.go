// Package core drives emerge/core with symbolic inputs.
package core

import (
	"math"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/internal/zzverif/vrt"
)

const tau = 2 * math.Pi

func finite(name string) float64 {
	f := vrt.Float64(name)
	vrt.Assume(vrt.IsFinite(f))
	return f
}

func within(name string, lo, hi float64) float64 {
	f := vrt.Float64(name)
	vrt.Assume(vrt.And(f >= lo, f <= hi))
	return f
}

func near(a, b, eps float64) bool {
	d := a - b
	return vrt.And(d <= eps, d >= -eps)
}

// circNear: equal as points of the circle, up to eps.
func circNear(a, b, eps float64) bool {
	return vrt.Or(near(a, b, eps), near(a, b+tau, eps), near(a, b-tau, eps))
}

// PhaseWrapRange: wrapping any finite value lands in [0, 2pi).
func PhaseWrapRange() {
	p := finite("p")
	w := core.WrapPhase(p)
	vrt.Assert(vrt.And(w >= 0, w < tau), "in-range")
	vrt.Reach("end")
}

// PhaseWrapSamePoint: wrapping does not move the point on the circle.
func PhaseWrapSamePoint() {
	k := vrt.Choose("turns", 9) - 4
	base := float64(k) * tau
	p := vrt.Float64("p")
	vrt.Assume(vrt.And(p >= base, p <= base+tau))
	vrt.Assert(circNear(core.WrapPhase(p), p-base, 1e-9), "same-point")
	vrt.Reach("end")
}

// arc: the shortest way from one phase in [0,2pi] to another.
func arc(to, from float64) float64 {
	d := to - from
	return vrt.IteF(d > math.Pi, d-tau, vrt.IteF(d < -math.Pi, d+tau, d))
}

func absf(x float64) float64 { return vrt.IteF(x < 0, -x, x) }

// MeasureDifferenceRange: the difference of any two phases is at most half a turn.
func MeasureDifferenceRange() {
	a, b := finite("a"), finite("b")
	vrt.Assume(vrt.IsFinite(a - b))
	d := core.PhaseDifference(a, b)
	vrt.Assert(vrt.And(d >= -math.Pi, d <= math.Pi), "half-turn")
	vrt.Reach("end")
}

// MeasureDifference: the difference is the signed shortest way round.
func MeasureDifference() {
	a, b := within("a", -tau, 2*tau), within("b", -tau, tau)
	d := core.PhaseDifference(a, b)
	e := core.PhaseDifference(b, a)
	k := a - b
	hit := false
	for n := -3; n <= 3; n++ {
		hit = vrt.Or(hit, near(d, k+float64(n)*tau, 1e-8))
	}
	edge := absf(d) >= math.Pi-1e-5
	vrt.Assert(vrt.Or(hit, edge), "same-point")
	vrt.Assert(vrt.Implies(edge, absf(e) >= math.Pi-1e-4), "opposite")
	vrt.Assert(vrt.Or(edge, near(d+e, 0, 1e-7)), "antisymmetric")
	vrt.Assert(vrt.Implies(a == b, d == 0), "zero-for-equal")
	vrt.Reach("end")
}

// MeasureCoherenceRange: coherence of any phases is a proportion.
func MeasureCoherenceRange() {
	n := vrt.Choose("n", 3+vrt.Tier())
	var ps []float64
	for range n {
		ps = append(ps, finite("p"))
	}
	c := core.MeasureCoherence(ps)
	vrt.Assert(vrt.And(c >= 0, c <= 1+1e-9), "proportion")
	if n == 0 {
		vrt.Assert(c == 0, "empty")
	}
	if n == 1 {
		vrt.Assert(near(c, 1, 1e-9), "single")
	}
	vrt.Reach("end")
}

// MeasureCoherenceEqual: agents in phase are fully coherent, whatever the phase.
func MeasureCoherenceEqual() {
	p := finite("p")
	n := 1 + vrt.Choose("n", 4)
	var ps, ws []float64
	for range n {
		ps = append(ps, p)
		ws = append(ws, 2)
	}
	vrt.Assert(near(core.MeasureCoherence(ps), 1, 1e-9), "coherent")
	vrt.Assert(near(core.MeasureCoherenceWeighted(ps, ws), 1, 1e-9), "coherent-weighted")
	vrt.Reach("end")
}

// MeasureWeighted: weighted coherence is a proportion, ignores zero weights and
// equals the plain one for equal weights.
func MeasureWeighted() {
	p, q := finite("p"), finite("q")
	u, w := within("u", 0.001, 1000), within("w", 0.001, 1000)
	c := core.MeasureCoherenceWeighted([]float64{p, q}, []float64{u, w})
	vrt.Assert(vrt.And(c >= 0, c <= 1+1e-9), "proportion")
	z := core.MeasureCoherenceWeighted([]float64{p, q}, []float64{u, 0})
	vrt.Assert(near(z, 1, 1e-9), "zero-weight-ignored")
	s := core.MeasureCoherenceWeighted([]float64{p}, []float64{u, w})
	vrt.Assert(near(s, 1, 1e-9), "shorter-phases")
	t := core.MeasureCoherenceWeighted([]float64{p, q}, []float64{u})
	vrt.Assert(near(t, 1, 1e-9), "shorter-weights")
	vrt.Assert(core.MeasureCoherenceWeighted([]float64{p, q}, []float64{0, 0}) == 0, "no-weight")
	vrt.Assert(vrt.And(core.MeasureCoherenceWeighted(nil, []float64{u}) == 0, core.MeasureCoherenceWeighted([]float64{p}, nil) == 0), "empty")
	e := core.MeasureCoherenceWeighted([]float64{p, q}, []float64{1, 1})
	vrt.Assert(near(e, core.MeasureCoherence([]float64{p, q}), 1e-9), "equal-weights")
	vrt.Reach("end")
}
