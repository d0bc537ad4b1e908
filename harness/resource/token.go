// Package resource drives the token pool.
package resource

import (
	"sync"

	"github.com/carlisia/bio-adapt/internal/resource"
	"github.com/carlisia/bio-adapt/internal/zzverif/vrt"
)

func finite(name string) float64 {
	f := vrt.Float64(name)
	vrt.Assume(vrt.IsFinite(f))
	return f
}

func within(name string, lo, hi float64) float64 {
	f := vrt.Float64(name)
	vrt.Assume(vrt.And(f >= lo, f <= hi))
	return f
}

func minf(a, b float64) float64 { return vrt.IteF(a <= b, a, b) }
func maxf(a, b float64) float64 { return vrt.IteF(a >= b, a, b) }

// TokenHistory: any sequence of requests and releases behaves like a bounded pool.
func TokenHistory() {
	limit := finite("max")
	t := resource.NewTokenManager(limit)
	limit = maxf(limit, 0)
	vrt.Assert(t.Available() == limit, "starts-full")
	n := 3 + vrt.Tier()
	for range n {
		before := t.Available()
		x := finite("amount")
		if vrt.Bool("release") {
			t.Release(x)
			vrt.Assert(t.Available() == vrt.IteF(x > 0, minf(before+x, limit), before), "release")
		} else {
			got := t.Request(x)
			vrt.Assert(got == vrt.IteF(x > 0, minf(x, before), 0), "granted")
			vrt.Assert(t.Available() == before-got, "request-deducts")
		}
		vrt.Assert(vrt.And(t.Available() >= 0, t.Available() <= limit), "within-bounds")
	}
	vrt.Reach("end")
}

// TokenConcurrent: concurrent requests never grant more than the pool holds.
func TokenConcurrent() {
	vrt.Preempt(2 + vrt.Tier())
	limit := within("max", 0, 100)
	t := resource.NewTokenManager(limit)
	xs := []float64{within("x", 0, 100), within("y", 0, 100)}
	got := make([]float64, len(xs))
	var wg sync.WaitGroup
	for i, x := range xs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			got[i] = t.Request(x)
		}()
	}
	wg.Wait()
	left := t.Available()
	vrt.Assert(left >= 0, "non-negative")
	ra, rb := limit-got[0], limit-got[1]
	vrt.Assert(vrt.Or(
		vrt.And(got[0] == minf(xs[0], limit), got[1] == minf(xs[1], ra), left == ra-got[1]),
		vrt.And(got[1] == minf(xs[1], limit), got[0] == minf(xs[0], rb), left == rb-got[0])), "serializable")
	vrt.Reach("end")
}

// TokenConcurrentRelease: a release and a request running together take both effects.
func TokenConcurrentRelease() {
	vrt.Preempt(2 + vrt.Tier())
	t := resource.NewTokenManager(100)
	t.Request(60)
	x, y := within("x", 0, 100), within("y", 0, 100)
	var got float64
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); got = t.Request(x) }()
	go func() { defer wg.Done(); t.Release(y) }()
	wg.Wait()
	r2 := minf(40+y, 100)
	vrt.Assert(vrt.Or(
		vrt.And(got == minf(x, 40), t.Available() == minf(40-got+y, 100)),
		vrt.And(got == minf(x, r2), t.Available() == r2-got)), "serializable")
	vrt.Reach("end")
}
