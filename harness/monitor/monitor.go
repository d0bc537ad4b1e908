// Package monitor drives the monitors, patterns, attractor basins and random source.
package monitor

import (
	"math"
	"time"

	"github.com/carlisia/bio-adapt/emerge/convergence"
	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/monitoring"
	"github.com/carlisia/bio-adapt/internal/emerge"
	"github.com/carlisia/bio-adapt/internal/zzverif/vrt"
)

const tau = 2 * math.Pi

func unit(f float64) bool { return vrt.And(f >= 0, f <= 1) }

// monitor is what the two copies of the convergence monitor have in common.
type monitor interface {
	Record(float64)
	IsConverged() bool
	ConvergenceTime() time.Duration
	CurrentCoherence() float64
	ConvergenceRate() float64
	Stability() float64
	PredictConvergenceTime() time.Duration
	History() []float64
	Statistics() map[string]any
	Reset()
}

func newMonitor(threshold float64) monitor {
	if vrt.Choose("copy", 2) == 0 {
		return monitoring.NewConvergence(core.State{}, threshold)
	}
	return emerge.NewConvergenceMonitor(core.State{}, threshold)
}

// MonitorConvergence: after any sequence of measurements and resets the monitor
// reports the latest one, has converged exactly when that reaches the threshold,
// and keeps the history, extremes and time of convergence.
func MonitorConvergence() {
	threshold := vrt.Float64("threshold")
	vrt.Assume(unit(threshold))
	m := newMonitor(threshold)
	step := time.Duration(vrt.Int("step", 1, int(time.Hour)))
	var recorded []float64
	since, at := time.Duration(0), time.Duration(0)
	converged := false
	steps := 1 + vrt.Choose("steps", 3+vrt.Tier())
	for i := 0; i < steps; i++ {
		vrt.Advance(step)
		since += step
		if i > 0 && vrt.Choose("reset", 2) == 1 {
			m.Reset()
			recorded, since, converged = nil, 0, false
		} else {
			c := vrt.Float64("coherence")
			vrt.Assume(unit(c))
			m.Record(c)
			recorded = append(recorded, c)
			if c >= threshold {
				if !converged {
					at = since
				}
				converged = true
			} else {
				converged = false
			}
		}
		vrt.Assert(m.IsConverged() == converged, "converged-iff-latest-reaches")
		want := time.Duration(0)
		if converged {
			want = at
		}
		vrt.Assert(m.ConvergenceTime() == want, "convergence-time")
		cur := 0.0
		if len(recorded) > 0 {
			cur = recorded[len(recorded)-1]
		}
		vrt.Assert(m.CurrentCoherence() == cur, "current")
		h := m.History()
		same := len(h) == len(recorded)
		for k := range h {
			same = vrt.And(same, h[k] == recorded[k])
			h[k] = -1 // a copy: must not write through
		}
		vrt.Assert(same, "history")
		vrt.Assert(vrt.Implies(len(recorded) > 0, m.CurrentCoherence() == cur), "history-is-a-copy")
	}
	stats(m, recorded, threshold, converged)
	vrt.Reach("end")
}

func stats(m monitor, recorded []float64, threshold float64, converged bool) {
	s := m.Statistics()
	vrt.Assert(s["samples"] == any(len(recorded)), "stats-samples")
	vrt.Assert(s["converged"] == any(converged), "stats-converged")
	vrt.Assert(s["target_coherence"].(float64) == threshold, "stats-target")
	vrt.Assert(s["current_coherence"].(float64) == m.CurrentCoherence(), "stats-current")
	lo, hi := 1.0, 0.0
	for _, c := range recorded {
		lo = vrt.IteF(c < lo, c, lo)
		hi = vrt.IteF(c > hi, c, hi)
	}
	vrt.Assert(vrt.And(s["min"].(float64) == lo, s["max"].(float64) == hi), "stats-extremes")
	_, has := s["convergence_time"]
	vrt.Assert(has == converged, "stats-time-iff-converged")
}

// MonitorEstimates: rates have the sign of the change, stability is a score, and
// predictions are only made while approaching the threshold, and never negative.
func MonitorEstimates() {
	threshold := vrt.Float64("threshold")
	vrt.Assume(unit(threshold))
	m := newMonitor(threshold)
	vrt.Assert(vrt.And(m.ConvergenceRate() == 0, m.Stability() == 1, m.PredictConvergenceTime() == 0), "empty")
	a, b := vrt.Float64("first"), vrt.Float64("second")
	vrt.Assume(vrt.And(unit(a), unit(b)))
	m.Record(a)
	vrt.Assert(vrt.And(m.ConvergenceRate() == 0, m.PredictConvergenceTime() == 0), "single")
	m.Record(b)
	r := m.ConvergenceRate()
	vrt.Assert(vrt.And(vrt.Implies(b >= a, r >= -1e-12), vrt.Implies(b <= a, r <= 1e-12)), "rate-sign")
	p := m.PredictConvergenceTime()
	vrt.Assert(p >= 0, "prediction-not-negative")
	vrt.Assert(vrt.Implies(vrt.Or(b >= threshold, b <= a), p == 0), "no-prediction")
	vrt.Reach("end")
}

// MonitorStability: stability is one for constant histories and within [0,1].
func MonitorStability() {
	m := newMonitor(0.5)
	if k := vrt.Choose("constant", 5); k < 4 {
		c := []float64{0, 0.25, 0.7, 1}[k]
		m.Record(c)
		m.Record(c)
		vrt.Assert(m.Stability() > 1-1e-9, "constant-is-stable")
		return
	}
	c, d := vrt.Float64("coherence"), vrt.Float64("other")
	vrt.Assume(vrt.And(unit(c), unit(d)))
	m.Record(c)
	m.Record(d)
	vrt.Assert(unit(m.Stability()), "stability-score")
	vrt.Reach("end")
}

// MonitorConcurrent: queries, measurements and resets in any interleaving end,
// and lose no measurement.
func MonitorConcurrent() {
	vrt.Preempt(2 + vrt.Tier())
	vrt.HangIsViolation()
	m := newMonitor(0.5)
	done := make(chan bool)
	go func() { m.Record(0.25); done <- true }()
	go func() {
		switch vrt.Choose("query", 3) {
		case 0:
			vrt.Assert(len(m.Statistics()) > 0, "statistics")
		case 1:
			m.PredictConvergenceTime()
		case 2:
			m.Record(0.75)
			m.Stability()
		}
		done <- true
	}()
	<-done
	<-done
	n := len(m.History())
	vrt.Assert(vrt.And(n >= 1, n <= 2), "no-measurement-lost")
	vrt.Reach("end")
}

// history is what the two copies of the history monitor have in common.
type history interface {
	RecordSample(float64)
	History() []float64
	Latest() float64
	Average() float64
}

// MonitorHistory: the history monitor keeps the latest hundred samples, in order.
func MonitorHistory() {
	var m history = monitoring.New()
	if vrt.Choose("copy", 2) == 1 {
		m = emerge.NewMonitor()
	}
	vrt.Assert(vrt.And(len(m.History()) == 0, m.Latest() == 0, m.Average() == 0), "empty")
	n := []int{1, 2, 99, 100, 101, 250}[vrt.Choose("samples", 6)]
	var want []float64
	lo, hi := 1.0, 0.0
	for i := 0; i < n; i++ {
		c := float64(i%7) / 8
		if i == 0 || i >= n-2 || i == n-100 || i == n-101 {
			c = vrt.Float64("sample")
			vrt.Assume(unit(c))
		}
		m.RecordSample(c)
		want = append(want, c)
		if len(want) > 100 {
			want = want[1:]
		}
	}
	got := m.History()
	same := len(got) == len(want)
	for i := range got {
		same = vrt.And(same, got[i] == want[i])
		lo = vrt.IteF(want[i] < lo, want[i], lo)
		hi = vrt.IteF(want[i] > hi, want[i], hi)
	}
	vrt.Assert(same, "latest-hundred-in-order")
	vrt.Assert(m.Latest() == want[len(want)-1], "latest")
	if n <= 2 {
		avg := m.Average()
		vrt.Assert(vrt.And(avg >= lo-1e-12, avg <= hi+1e-12), "average-between-extremes")
	}
	vrt.Reach("end")
}

// MonitorProgress: progress to the target is within [0,1] whatever was sampled,
// nothing is converging or stuck before enough samples, and reset forgets.
func MonitorProgress() {
	m := convergence.NewMonitor(vrt.Int("window", -1, 3))
	vrt.Assert(vrt.And(m.GetProgress() == 0, m.GetConvergenceRate() == 0, !m.IsStuck(), !m.IsConverging(), !m.ShouldSwitchStrategy()), "empty")
	target := &core.TargetPattern{Coherence: 1, Frequency: time.Second}
	m.SetTarget(target)
	for i := 0; i < 3; i++ {
		vrt.Advance(time.Second)
		c := vrt.Float64("coherence")
		vrt.Assume(unit(c))
		m.RecordSample(&core.TargetPattern{Coherence: c, Frequency: time.Second}, c)
		vrt.Assert(unit(m.GetProgress()), "progress-range")
		vrt.Assert(!m.IsStuck(), "not-stuck-so-soon")
		if i < 2 {
			vrt.Assert(vrt.And(!m.IsConverging(), !m.ShouldSwitchStrategy()), "no-verdict-so-soon")
		}
	}
	m.Reset()
	vrt.Assert(vrt.And(m.GetProgress() == 0, m.GetConvergenceRate() == 0, !m.IsStuck(), !m.IsConverging(), !m.ShouldSwitchStrategy()), "reset")
	vrt.Reach("end")
}
