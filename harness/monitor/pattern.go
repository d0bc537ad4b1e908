package monitor

import (
	"math"
	"time"

	"github.com/carlisia/bio-adapt/emerge/completion"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/monitoring"
	"github.com/carlisia/bio-adapt/internal/emerge"
	"github.com/carlisia/bio-adapt/internal/zzverif/vrt"
)

func pattern(name string) *core.TargetPattern {
	p := &core.TargetPattern{
		Phase:     vrt.Float64(name + "-phase"),
		Frequency: time.Duration(vrt.Int(name+"-freq", 1, int(time.Hour))),
		Coherence: vrt.Float64(name + "-coherence"),
	}
	vrt.Assume(vrt.And(p.Phase >= -tau, p.Phase <= 2*tau, unit(p.Coherence)))
	return p
}

// PatternDistance: a score in [0,1], zero for equal patterns, unbounded for none.
func PatternDistance() {
	a, b := pattern("current"), pattern("target")
	d := core.PatternDistance(a, b)
	vrt.Assert(vrt.And(d >= 0, d <= 1+1e-9), "range")
	vrt.Assert(core.PatternDistance(a, a) == 0, "zero-on-equal")
	vrt.Assert(vrt.And(core.PatternDistance(nil, b) > 1, core.PatternDistance(a, nil) > 1), "nil-is-far")
	vrt.Reach("end")
}

// PatternGaps: a gap is reported exactly for what differs noticeably, names the
// two values, and has a severity in (0,1].
func PatternGaps() {
	a, b := pattern("current"), pattern("target")
	gaps := core.IdentifyGaps(a, b)
	seen := map[string]bool{}
	for _, g := range gaps {
		vrt.Assert(!seen[g.Type], "once")
		seen[g.Type] = true
		vrt.Assert(vrt.And(g.Severity > 0, g.Severity <= 1+1e-9), "severity-range")
		switch g.Type {
		case "phase":
			vrt.Assert(vrt.And(g.Current == a.Phase, g.Target == b.Phase), "phase-values")
		case "frequency":
			vrt.Assert(vrt.And(g.Current == float64(a.Frequency), g.Target == float64(b.Frequency)), "frequency-values")
		case "coherence":
			vrt.Assert(vrt.And(g.Current == a.Coherence, g.Target == b.Coherence, g.Current < g.Target), "coherence-values")
		default:
			vrt.Assert(false, "known-type")
		}
	}
	vrt.Assert(seen["phase"] == (math.Abs(core.PhaseDifference(b.Phase, a.Phase)) > 0.1), "phase-iff")
	vrt.Assert(seen["coherence"] == (a.Coherence < b.Coherence-0.05), "coherence-iff")
	r := float64(a.Frequency) / float64(b.Frequency)
	vrt.Assert(vrt.Implies(vrt.Or(r > 1.051, r < 0.949), seen["frequency"]), "frequency-if")
	vrt.Assert(vrt.Implies(vrt.And(r < 1.049, r > 0.951), !seen["frequency"]), "frequency-only-if")
	vrt.Reach("end")
}

// PatternCompletion: completing a pattern moves phase and frequency towards the
// template (or, without one, the target) and never past it.
func PatternCompletion() {
	e := completion.NewEngine()
	a := &core.TargetPattern{Phase: 2, Frequency: 100 * time.Millisecond, Coherence: 0.5}
	b := &core.TargetPattern{Phase: 4, Frequency: 150 * time.Millisecond, Coherence: 0.8}
	inner := true
	vary := vrt.Choose("vary", 3)
	switch vary {
	case 0:
		inner = vrt.Choose("inner", 2) == 1 // no wrapping
		a.Phase, b.Phase = vrt.Float64("phase"), vrt.Float64("target")
		if inner {
			b.Phase = 3
		}
		vrt.Assume(vrt.And(a.Phase >= 0, a.Phase < tau, b.Phase >= 0, b.Phase < tau))
		vrt.Assume(!inner || vrt.And(a.Phase >= 1.6, a.Phase <= 4.6, b.Phase >= 1.6, b.Phase <= 4.6))
	case 1:
		b.Frequency = time.Duration(vrt.Int("target-freq", 1, int(time.Hour)))
	case 2:
		a.Frequency = time.Duration(vrt.Int("freq", 1, int(time.Hour)))
	}
	to := b
	if vrt.Choose("template", 2) == 1 {
		to = &core.TargetPattern{Phase: 2.5, Frequency: 125 * time.Millisecond, Coherence: a.Coherence}
		if vary == 0 {
			to.Phase = a.Phase
		}
		e.AddTemplate("near", to)
		vrt.Assume(core.PatternDistance(a, to) < 0.7)
	}
	c := e.CompletePattern(a, core.IdentifyGaps(a, b))
	vrt.Assert(c != nil && c.Base == a, "base")
	f, want := int64(c.GetFrequencyAdjustment()), int64(to.Frequency-a.Frequency)
	vrt.Assert(vrt.And(vrt.Implies(f > 0, f <= want+1000), vrt.Implies(f < 0, f >= want-1000)), "frequency-towards")
	p := c.GetPhaseAdjustment()
	vrt.Assert(math.Abs(p) <= math.Pi, "phase-adjustment-range")
	if d := to.Phase - a.Phase; inner && vrt.Or(vary > 0, d >= 1.58, d <= -1.58) {
		vrt.Assert(vrt.And(vrt.Implies(p > 1e-9, p <= d+1e-9), vrt.Implies(p < -1e-9, p >= d-1e-9)), "phase-towards")
	}
	vrt.Reach("end")
}

// temporal is what the two copies of the temporal pattern have in common.
type gap struct {
	start, end int
	duration   time.Duration
}

type temporal struct {
	detect   func() []gap
	complete func(start, end int) []float64
	similar  func() float64
}

func temporals(ph, other []float64, fr, fo []time.Duration) temporal {
	if vrt.Choose("copy", 2) == 0 {
		p, q := monitoring.NewTargetPattern(ph, fr), monitoring.NewTargetPattern(other, fo)
		return temporal{func() (out []gap) {
			for _, g := range p.Detect() {
				out = append(out, gap{g.StartIdx, g.EndIdx, g.Duration})
			}
			return
		}, func(s, e int) []float64 { return p.Complete(monitoring.PatternGap{StartIdx: s, EndIdx: e}) },
			func() float64 { return p.Similarity(q) }}
	}
	p, q := emerge.NewTargetPattern(ph, fr), emerge.NewTargetPattern(other, fo)
	return temporal{func() (out []gap) {
		for _, g := range p.Detect() {
			out = append(out, gap{g.StartIdx, g.EndIdx, g.Duration})
		}
		return
	}, func(s, e int) []float64 { return p.Complete(emerge.PatternGap{StartIdx: s, EndIdx: e}) },
		func() float64 { return p.Similarity(q) }}
}

func phases(name string, n int) []float64 {
	var out []float64
	for i := 0; i < n; i++ {
		f := vrt.Float64(name)
		vrt.Assume(vrt.And(f >= 0, f < tau))
		out = append(out, f)
	}
	return out
}

// TemporalGaps: exactly the jumps of more than a quarter turn are gaps, in order;
// frequencies may be missing.
func TemporalGaps() {
	ph := phases("phase", vrt.Choose("points", 4))
	var fr []time.Duration
	for i := 0; i < vrt.Choose("frequencies", 3); i++ {
		fr = append(fr, time.Duration(1+i)*time.Second)
	}
	t := temporals(ph, ph, fr, fr)
	got := t.detect()
	k := 0
	for i := 1; i < len(ph); i++ {
		if math.Abs(core.PhaseDifference(ph[i], ph[i-1])) > math.Pi/2 {
			vrt.Assert(k < len(got) && got[k].start == i-1 && got[k].end == i, "gap-at-jump")
			if i-1 < len(fr) {
				vrt.Assert(got[k].duration == fr[i-1], "gap-duration")
			}
			k++
		}
	}
	vrt.Assert(k == len(got), "no-other-gaps")
	vrt.Reach("end")
}

// TemporalComplete: completing a gap yields exactly the missing points, in
// [0,2π), between its ends; an impossible gap yields nothing, without a panic.
func TemporalComplete() {
	n := 1 + vrt.Choose("points", 4)
	ph := phases("phase", n)
	inner := vrt.Choose("inner", 2) == 1 // no wrapping
	for _, p := range ph {
		vrt.Assume(!inner || vrt.And(n <= 3, p >= 2.5, p <= 4.5))
	}
	if inner && n == 3 {
		ph[2] = 3
	}
	t := temporals(ph, ph, nil, nil)
	s, e := 0, 2
	if !inner {
		s, e = vrt.Int("start", math.MinInt64, math.MaxInt64), vrt.Int("end", math.MinInt64, math.MaxInt64)
	}
	got := t.complete(s, e)
	if vrt.And(s >= 0, e < n, s < e) {
		vrt.Assert(len(got) == e-s-1, "missing-points")
		for _, p := range got {
			vrt.Assert(vrt.And(p >= 0, p < tau), "phase-range")
			if inner && e-s == 2 {
				lo, hi := math.Min(ph[s], ph[e]), math.Max(ph[s], ph[e])
				vrt.Assert(vrt.And(p >= lo-1e-9, p <= hi+1e-9), "between")
			}
		}
	} else {
		vrt.Assert(len(got) == 0, "impossible-gap")
	}
	vrt.Reach("end")
}

// TemporalSimilar: similarity is a score in [0,1], and one with itself.
func TemporalSimilar() {
	n, va, vb := 1, 1.5, 0.25
	fa, fb := 40*time.Millisecond, time.Second
	a, b := []float64{6}, []float64{0.01}
	if vrt.Choose("vary", 2) == 0 {
		n += vrt.Choose("points", 2)
		a, b = phases("phase", n), phases("other", n)
	} else {
		va, vb = vrt.Float64("amplitude"), vrt.Float64("other-amplitude")
		vrt.Assume(vrt.And(va >= 0, va <= 100, vb >= 0, vb <= 100))
		fa, fb = time.Duration(vrt.Int("period", 1, int(time.Hour))), time.Duration(vrt.Int("other-period", 1, int(time.Hour)))
	}
	var s, self float64
	if vrt.Choose("copy", 2) == 0 {
		p, q := &monitoring.TargetPattern{Phases: a, Amplitude: va, Period: fa}, &monitoring.TargetPattern{Phases: b, Amplitude: vb, Period: fb}
		s, self = p.Similarity(q), p.Similarity(p)
	} else {
		p, q := &emerge.TargetPattern{Phases: a, Amplitude: va, Period: fa}, &emerge.TargetPattern{Phases: b, Amplitude: vb, Period: fb}
		s, self = p.Similarity(q), p.Similarity(p)
	}
	vrt.Assert(vrt.And(s >= -1e-9, s <= 1+1e-9), "score")
	vrt.Assert(vrt.And(self >= 1-1e-9, self <= 1+1e-9), "one-with-itself")
	vrt.Reach("end")
}

// TemporalFlat: patterns without amplitude or without a period compare too: the
// former by the rest, the latter to nothing.
func TemporalFlat() {
	c := vrt.Float64("phase")
	vrt.Assume(vrt.And(c >= 0, c < tau))
	n := vrt.Choose("frequencies", 2)
	fr := []time.Duration{time.Second, time.Second}[:n]
	t := temporals([]float64{c, c}, []float64{c, c}, fr, fr)
	s := t.similar()
	vrt.Assert(vrt.Implies(n > 0, vrt.And(s >= 1-1e-9, s <= 1+1e-9)), "flat-is-itself")
	vrt.Assert(vrt.Implies(n == 0, !(s > 0.5)), "no-period-no-match")
	vrt.Reach("end")
}
