package swarm

import (
	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/swarm"
	"github.com/carlisia/bio-adapt/internal/config"
	"github.com/carlisia/bio-adapt/internal/zzverif/vrt"
)

// TopologyLinks: whatever is drawn at random and however the neighbour bounds
// are configured, links are mutual, never to oneself, only to members, and give
// every agent at least the configured minimum of neighbours.
func TopologyLinks() {
	n := 1 + vrt.Choose("size", 3)
	_, err := swarm.New(1, someGoal())
	vrt.Assert(err == nil, "built")
	each := vrt.Draws() // an agent takes that many; the rest connect them
	vrt.MaxDraws(each*n + n*(n-1) + vrt.Tier())
	cfg := config.AutoScaleConfig(n)
	cfg.MinNeighbors = vrt.Choose("min", n)
	cfg.MaxNeighbors = n - 1
	if n > 1 {
		cfg.MaxNeighbors = 1 + vrt.Choose("max", n-1)
	}
	vrt.Assume(cfg.MinNeighbors <= cfg.MaxNeighbors)
	cfg.EnableConnectionOptim = vrt.Choose("optimise", 2) == 1
	vrt.Assume(!cfg.EnableConnectionOptim || cfg.MaxNeighbors == n-1)
	if !cfg.EnableConnectionOptim {
		cfg.ConnectionProbability = vrt.Float64("probability")
		vrt.Assume(unit(cfg.ConnectionProbability))
	}
	cfg.ConnectionOptimThreshold = 0
	s, err := swarm.New(n, someGoal(), swarm.WithConfig(cfg))
	vrt.Assert(err == nil, "built")
	checkLinks(s, n, cfg.MinNeighbors, !cfg.EnableConnectionOptim)
	if cfg.ConnectionProbability == 0 && cfg.MinNeighbors == 0 {
		links := 0
		for _, a := range s.Agents() {
			links += a.NeighborCount()
		}
		vrt.Assert(links == 0, "no-probability-no-links")
	}
	vrt.Reach("end")
}

func unit(f float64) bool { return vrt.And(f >= 0, f <= 1) }

func checkLinks(s *swarm.Swarm, n, low int, min bool) {
	mutual, members, self, enough := true, true, false, true
	for _, a := range s.Agents() {
		count := 0
		a.Neighbors().Range(func(k, v any) bool {
			b, ok := v.(*agent.Agent)
			members = members && ok
			if !ok {
				return true
			}
			count++
			c, in := s.Agent(b.ID)
			members = members && in && c == b && k == b.ID
			self = self || b == a
			back, there := b.Neighbors().Load(a.ID)
			mutual = mutual && there && back == any(a)
			return true
		})
		members = members && count == a.NeighborCount()
		enough = enough && count >= low && count <= n-1
	}
	vrt.Assert(mutual, "mutual")
	vrt.Assert(!self, "no-self-links")
	vrt.Assert(members, "members-only")
	if min {
		vrt.Assert(enough, "minimum-met")
	}
}

// TopologyLarge: the same for automatically configured swarms of every storage
// and link strategy, on fixed random streams.
func TopologyLarge() {
	vrt.FixedRand(1 + vrt.Choose("stream", 2))
	n := []int{5, 12, 60, 130, 250}[vrt.Choose("size", 5)]
	s, err := swarm.New(n, someGoal())
	vrt.Assert(err == nil, "built")
	cfg := s.Config()
	checkLinks(s, n, cfg.MinNeighbors, true)
	vrt.Reach("end")
}
