package core

import (
	"math"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/internal/zzverif/vrt"
)

func valid(s core.State) bool {
	return vrt.And(s.Frequency > 0, s.Coherence >= 0, s.Coherence <= 1, vrt.IsFinite(s.Phase))
}

// GoalValidate: validation accepts exactly the well-formed goals and changes nothing.
func GoalValidate() {
	s := core.State{Phase: vrt.Float64("phase"), Frequency: time.Duration(vrt.Int("freq", math.MinInt64, math.MaxInt64)), Coherence: vrt.Float64("coherence")}
	c := s
	err := s.Validate()
	vrt.Assert((err == nil) == valid(c), "accepts-exactly-valid")
	vrt.Assert(vrt.And(vrt.SameF(s.Phase, c.Phase), s.Frequency == c.Frequency, vrt.SameF(s.Coherence, c.Coherence)), "unchanged")
	vrt.Reach("end")
}

// GoalNormalize: normalization yields a valid goal or an error; it repairs
// everything but NaN and infinite phases and keeps values already in range.
func GoalNormalize() {
	s := core.State{Phase: vrt.Float64("phase"), Frequency: time.Duration(vrt.Int("freq", math.MinInt64, math.MaxInt64)), Coherence: vrt.Float64("coherence")}
	c := s
	err := s.NormalizeAndValidate()
	repairable := vrt.And(vrt.IsFinite(c.Phase), !math.IsNaN(c.Coherence))
	vrt.Assert((err == nil) == repairable, "error-iff-unrepairable")
	if err == nil {
		vrt.Assert(vrt.And(valid(s), s.Phase >= 0, s.Phase < tau), "normalized")
		vrt.Assert(vrt.Implies(vrt.And(c.Phase >= 0, c.Phase < tau), s.Phase == c.Phase), "phase-kept")
		vrt.Assert(s.Coherence == vrt.IteF(c.Coherence < 0, 0, vrt.IteF(c.Coherence > 1, 1, c.Coherence)), "coherence-clamped")
		vrt.Assert(vrt.And(s.Frequency > 0, vrt.Implies(c.Frequency > 0, s.Frequency == c.Frequency)), "frequency")
		vrt.Reach("ok")
		d := s
		vrt.Assert(d.NormalizeAndValidate() == nil, "idempotent-ok")
		vrt.Assert(vrt.And(d.Phase == s.Phase, d.Coherence == s.Coherence, d.Frequency == s.Frequency), "idempotent")
	} else {
		vrt.Reach("error")
	}
}

// GoalNormalizePoint: normalization keeps the point on the circle.
func GoalNormalizePoint() {
	k := vrt.Choose("turns", 7) - 3
	base := float64(k) * tau
	p := vrt.Float64("p")
	vrt.Assume(vrt.And(p >= base, p <= base+tau))
	s := core.State{Phase: p, Frequency: 1, Coherence: 0.5}
	vrt.Assert(s.NormalizeAndValidate() == nil, "ok")
	vrt.Assert(circNear(s.Phase, p-base, 1e-9), "same-point")
	vrt.Reach("end")
}
