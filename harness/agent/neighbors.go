package agent

import (
	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/internal/zzverif/vrt"
)

var ids = []string{"a", "b", "c", "d"}

// NeighborHistory: the storage behaves like a map of bounded size.
func NeighborHistory() {
	vrt.FixedRand(1)
	capa := 1 + vrt.Choose("cap", 2)
	ns := agent.NewNeighborStorage(capa)
	ag := []*agent.Agent{agent.New("x"), agent.New("y")}
	ref := map[string]*agent.Agent{}
	n := 3 + vrt.Tier()
	for step := range n {
		id := vrt.Str("id", ids[:3]...)
		switch vrt.Int("op", 0, 1) {
		case 0:
			v := ag[step%2]
			_, had := ref[id]
			ok := ns.Store(id, v)
			vrt.Assert(ok == (had || len(ref) < capa), "store-accepts")
			if ok {
				ref[id] = v
			}
		default:
			ns.Delete(id)
			delete(ref, id)
		}
		vrt.Assert(ns.Count() == len(ref), "count")
	}
	seen := 0
	ns.Range(func(id string, a *agent.Agent) bool {
		seen++
		vrt.Assert(ref[id] == a, "range")
		return true
	})
	vrt.Assert(seen == len(ref), "range-count")
	vrt.Assert(len(ns.All()) == len(ref), "all")
	q := vrt.Str("query", ids[:3]...)
	got, ok := ns.Load(q)
	want, had := ref[q]
	vrt.Assert(vrt.And(ok == had, got == want), "load")
	ns.Clear()
	vrt.Assert(ns.Count() == 0 && len(ns.All()) == 0, "clear")
	_, ok = ns.Load(q)
	vrt.Assert(!ok, "load-after-clear")
	vrt.Reach("end")
}

// NeighborLinks: an agent's links behave like a set of other agents.
func NeighborLinks() {
	vrt.FixedRand(1)
	a := agent.New("a")
	other := agent.New("o")
	ref := map[string]bool{}
	n := 3 + vrt.Tier()
	for range n {
		id := vrt.Str("id", "a", "b", "c")
		switch vrt.Int("op", 0, 3) {
		case 0:
			a.ConnectTo(id, other)
			if id != "a" {
				ref[id] = true
			}
		case 1:
			a.ConnectTo(id, nil)
		case 2:
			if id != "a" {
				a.Neighbors().Store(id, other) // the way swarms link agents
				ref[id] = true
			}
		default:
			a.DisconnectFrom(id)
			delete(ref, id)
		}
	}
	q := vrt.Str("query", "a", "b", "c", "zz")
	vrt.Assert(a.IsConnectedTo(q) == ref[q], "connected")
	vrt.Assert(a.NeighborCount() == len(ref), "count")
	vrt.Assert(!a.IsConnectedTo("a"), "never-self")
	vrt.Reach("end")
}

// NeighborConcurrent: concurrent changes of links behave as some serial order.
func NeighborConcurrent() {
	vrt.FixedRand(1)
	vrt.Preempt(1 + vrt.Tier())
	ns := agent.NewNeighborStorage(2)
	x, y := agent.New("x"), agent.New("y")
	ns.Store("a", x)
	p, q := vrt.Str("p", "a", "b"), vrt.Str("q", "a", "b", "c")
	var ok bool
	var ld *agent.Agent
	var lok bool
	together(
		func() { ok = ns.Store(p, y) },
		func() {
			if vrt.Choose("op", 2) == 0 {
				ns.Delete(q)
			} else {
				ns.Store(q, x)
			}
		},
		func() { ld, lok = ns.Load("a") },
	)
	vrt.Assert(vrt.Implies(lok, ld == x || ld == y), "load-value")
	vrt.Assert(ns.Count() <= 2, "bounded")
	vrt.Assert(ns.Count() == len(ns.All()), "count-matches")
	got, has := ns.Load(p)
	vrt.Assert(vrt.Implies(vrt.And(ok, p != q), has && got == y), "kept")
	ids := map[string]bool{}
	ns.Range(func(id string, _ *agent.Agent) bool {
		vrt.Assert(!ids[id], "duplicate")
		ids[id] = true
		return true
	})
	vrt.Reach("end")
}

// NeighborPool: pooled agents come back with their new identity and no old links.
func NeighborPool() {
	vrt.FixedRand(1)
	a := agent.Pool.Get("first")
	b := agent.New("b", agent.WithPhase(1))
	if vrt.Bool("direct") {
		a.ConnectTo("b", b)
	} else {
		a.Neighbors().Store("b", b)
	}
	a.SetEnergy(within("e", 0, 10))
	a.SetPhase(within("p", 0, 6))
	a.SetStubbornness(within("s", 0, 1))
	agent.Pool.Put(a)
	c := agent.Pool.Get("second")
	vrt.Assert(c.ID == "second", "identity")
	vrt.Assert(vrt.And(c.NeighborCount() == 0, !c.IsConnectedTo("b")), "no-old-links")
	vrt.Assert(vrt.And(c.Energy() == 100, c.Phase() >= 0, c.Phase() < tau, c.LocalGoal() >= 0, c.LocalGoal() < tau), "fresh-state")
	vrt.Assert(vrt.And(c.Stubbornness() >= 0, c.Stubbornness() <= 0.3, c.Influence() >= 0.1, c.Influence() <= 0.2), "fresh-behavior")
	vrt.Assert(c.Frequency() > 0, "fresh-frequency")
	gets, puts, _, inUse := agent.Pool.Stats()
	vrt.Assert(int64(gets)-int64(puts) == inUse, "stats")
	vrt.Reach("end")
}
