From 73b53d337e037272c20d81cc0264d996c76a77c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:14 +0000
Subject: [PATCH 01/24] fix: make agent state and behavior updates atomic

AtomicState.Update and AtomicBehavior.Update were load-modify-store, so
concurrent setters silently discarded each other's changes. Use a
compare-and-swap loop.
---
 emerge/agent/atomic_state.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/emerge/agent/atomic_state.go b/emerge/agent/atomic_state.go
index b32601c..1aa633f 100644
--- a/emerge/agent/atomic_state.go
+++ b/emerge/agent/atomic_state.go
@@ -47,12 +47,19 @@ func (a *AtomicState) Store(state StateData) {
 }
 
 // Update atomically updates the state.
-// For simplicity, this just loads, modifies, and stores.
-// In high contention scenarios, consider using a mutex instead.
+// fn may run more than once when other goroutines update the state concurrently.
 func (a *AtomicState) Update(fn func(*StateData)) {
-	old := a.Load()
-	fn(&old)
-	a.Store(old)
+	for {
+		old := a.value.Load()
+		next := StateData{}
+		if data, ok := old.(*StateData); ok {
+			next = *data
+		}
+		fn(&next)
+		if a.value.CompareAndSwap(old, &next) {
+			return
+		}
+	}
 }
 
 // AtomicBehavior uses atomic.Value for behavioral parameters.
@@ -83,8 +90,17 @@ func (a *AtomicBehavior) Store(behavior BehaviorData) {
 }
 
 // Update atomically updates the behavior.
+// fn may run more than once when other goroutines update the behavior concurrently.
 func (a *AtomicBehavior) Update(fn func(*BehaviorData)) {
-	old := a.Load()
-	fn(&old)
-	a.Store(old)
+	for {
+		old := a.value.Load()
+		next := BehaviorData{}
+		if data, ok := old.(*BehaviorData); ok {
+			next = *data
+		}
+		fn(&next)
+		if a.value.CompareAndSwap(old, &next) {
+			return
+		}
+	}
 }
-- 
2.43.0


From 2ce51985642cd6f2c994f7b0394de6e2056f5bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:34 +0000
Subject: [PATCH 02/24] fix: check and spend agent energy in one atomic step

ApplyAction compared the cost with a snapshot and deducted it later, so two
concurrent actions could both spend the same energy.
---
 emerge/agent/agent.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/emerge/agent/agent.go b/emerge/agent/agent.go
index 74b94ab..813428a 100644
--- a/emerge/agent/agent.go
+++ b/emerge/agent/agent.go
@@ -451,20 +451,30 @@ func (a *Agent) ApplyAction(action core.Action) (bool, float64, error) {
 	switch action.Type {
 	case "adjust_phase", strategyPhaseNudge, strategyFrequencyLock, "energy_save", "pulse":
 		a.state.Update(func(s *StateData) {
+			// Energy may have been spent concurrently since the check above
+			if success = !(energyCost > s.Energy); !success {
+				return
+			}
 			s.Phase = core.WrapPhase(s.Phase + action.Value)
 			s.Energy = math.Max(0, s.Energy-energyCost)
 		})
-		success = true
 	case "maintain":
 		a.state.Update(func(s *StateData) {
+			if success = !(energyCost > s.Energy); !success {
+				return
+			}
 			s.Energy = math.Max(0, s.Energy-energyCost)
 		})
-		success = true
 	default:
 		return false, 0, fmt.Errorf("%w: %s", core.ErrUnknownActionType, action.Type)
 	}
 
-	if success && a.resources != nil {
+	if !success {
+		return false, 0, fmt.Errorf("%w: required %.2f, available %.2f",
+			core.ErrInsufficientEnergy, energyCost, a.Energy())
+	}
+
+	if a.resources != nil {
 		a.resources.Request(energyCost)
 	}
 
-- 
2.43.0


From 8b3fa66cff781208d44ec26d3e79ba5772612643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:52 +0000
Subject: [PATCH 03/24] fix: hand out usable, unconnected agents from the agent
 pool

Pool.Get panicked on a nil state for every newly created agent, and recycled
agents kept the previous owner's connections.
---
 emerge/agent/pool.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/emerge/agent/pool.go b/emerge/agent/pool.go
index 0aef185..28e221c 100644
--- a/emerge/agent/pool.go
+++ b/emerge/agent/pool.go
@@ -14,10 +14,8 @@ import (
 var Pool = &PoolManager{
 	pool: sync.Pool{
 		New: func() interface{} {
-			// Create a new agent with minimal initialization
-			a := &Agent{}
-			// neighbors is already a sync.Map field, not a pointer
-			return a
+			// Create a fully initialized agent; Get assigns its ID
+			return New("")
 		},
 	},
 	stats: &PoolStats{},
@@ -96,11 +94,14 @@ func (a *Agent) Reset(id string) {
 		Stubbornness: random.Float64() * 0.3,
 	})
 
-	// Clear neighbors but keep the map allocated
+	// Clear neighbors but keep the storage allocated
 	a.neighbors.Range(func(key, _ interface{}) bool {
 		a.neighbors.Delete(key)
 		return true
 	})
+	if a.optimizedNeighbors != nil {
+		a.optimizedNeighbors.Clear()
+	}
 
 	// Reset context
 	a.context.Store(core.Context{})
@@ -120,6 +121,9 @@ func (a *Agent) Clear() {
 		a.neighbors.Delete(key)
 		return true
 	})
+	if a.optimizedNeighbors != nil {
+		a.optimizedNeighbors.Clear()
+	}
 
 	// Don't nil out structures, just clear them
 	a.context.Store(core.Context{})
-- 
2.43.0


From 48d67cd7139e16689b779b83acf425309db81560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:41 +0000
Subject: [PATCH 04/24] fix: let agents perceive the connections their swarm
 established

Swarms record links in the neighbors map while agents only looked at the
optimized storage, so agents of every swarm sensed an empty neighborhood and
IsConnectedTo denied existing links.
---
 emerge/agent/agent.go | 67 +++++++++++++++++--------------------------
 1 file changed, 27 insertions(+), 40 deletions(-)

diff --git a/emerge/agent/agent.go b/emerge/agent/agent.go
index 813428a..0a9c919 100644
--- a/emerge/agent/agent.go
+++ b/emerge/agent/agent.go
@@ -249,23 +249,30 @@ func (a *Agent) SetDecisionMaker(dm core.DecisionMaker) {
 
 // NeighborCount returns the number of connected neighbors.
 func (a *Agent) NeighborCount() int {
-	// Check both storage methods for compatibility
-	optimizedCount := 0
-	if a.useOptimizedNeighbors && a.optimizedNeighbors != nil {
-		optimizedCount = a.optimizedNeighbors.Count()
-	}
+	return len(a.connectedAgents())
+}
 
-	mapCount := 0
-	a.neighbors.Range(func(_, _ any) bool {
-		mapCount++
+// connectedAgents returns every neighbor once, whichever storage recorded the
+// connection: ConnectTo uses the optimized storage, swarms the neighbors map.
+func (a *Agent) connectedAgents() []*Agent {
+	var list []*Agent
+	if a.useOptimizedNeighbors {
+		list = a.optimizedNeighbors.All()
+	}
+	a.neighbors.Range(func(key, value any) bool {
+		neighbor, ok := value.(*Agent)
+		if !ok || neighbor == nil {
+			return true
+		}
+		if id, isString := key.(string); isString && a.useOptimizedNeighbors {
+			if _, exists := a.optimizedNeighbors.Load(id); exists {
+				return true
+			}
+		}
+		list = append(list, neighbor)
 		return true
 	})
-
-	// Return the max to handle both cases
-	if optimizedCount > mapCount {
-		return optimizedCount
-	}
-	return mapCount
+	return list
 }
 
 // Neighbors returns the agent's neighbors map for compatibility.
@@ -292,16 +299,16 @@ func (a *Agent) ConnectTo(otherID string, other *Agent) {
 func (a *Agent) DisconnectFrom(otherID string) {
 	if a.useOptimizedNeighbors {
 		a.optimizedNeighbors.Delete(otherID)
-	} else {
-		a.neighbors.Delete(otherID)
 	}
+	a.neighbors.Delete(otherID)
 }
 
 // IsConnectedTo checks if connected to another agent.
 func (a *Agent) IsConnectedTo(otherID string) bool {
 	if a.useOptimizedNeighbors {
-		_, exists := a.optimizedNeighbors.Load(otherID)
-		return exists
+		if _, exists := a.optimizedNeighbors.Load(otherID); exists {
+			return true
+		}
 	}
 	_, exists := a.neighbors.Load(otherID)
 	return exists
@@ -310,17 +317,7 @@ func (a *Agent) IsConnectedTo(otherID string) bool {
 // UpdateContext updates the agent's perception efficiently with both optimizations.
 func (a *Agent) UpdateContext() {
 	// Get neighbors efficiently
-	var neighborList []*Agent
-	if a.useOptimizedNeighbors {
-		neighborList = a.optimizedNeighbors.All()
-	} else {
-		a.neighbors.Range(func(_, value any) bool {
-			if neighbor, ok := value.(*Agent); ok {
-				neighborList = append(neighborList, neighbor)
-			}
-			return true
-		})
-	}
+	neighborList := a.connectedAgents()
 
 	if len(neighborList) == 0 {
 		a.context.Store(core.Context{
@@ -483,17 +480,7 @@ func (a *Agent) ApplyAction(action core.Action) (bool, float64, error) {
 
 // calculateLocalCoherence efficiently calculates coherence.
 func (a *Agent) calculateLocalCoherence() float64 {
-	var neighborList []*Agent
-	if a.useOptimizedNeighbors {
-		neighborList = a.optimizedNeighbors.All()
-	} else {
-		a.neighbors.Range(func(_, value any) bool {
-			if neighbor, ok := value.(*Agent); ok {
-				neighborList = append(neighborList, neighbor)
-			}
-			return true
-		})
-	}
+	neighborList := a.connectedAgents()
 
 	if len(neighborList) == 0 {
 		return 0
-- 
2.43.0


From 48485d1a4f2363283587bc98141da8067817caec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:44 +0000
Subject: [PATCH 05/24] fix: keep perceived neighbor density within [0, 1]

Without swarm information the density was negative, and a swarm of one gave
+Inf.
---
 emerge/agent/agent.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/emerge/agent/agent.go b/emerge/agent/agent.go
index 0a9c919..c5b96e8 100644
--- a/emerge/agent/agent.go
+++ b/emerge/agent/agent.go
@@ -366,6 +366,9 @@ func (a *Agent) UpdateContext() {
 	if maxNeighbors == 0 {
 		maxNeighbors = a.swarmSize - 1
 	}
+	// The neighborhood holds at least the neighbors seen (the swarm size may be
+	// unknown), which keeps the density within [0, 1]
+	maxNeighbors = max(maxNeighbors, neighborCount)
 	density := float64(neighborCount) / float64(maxNeighbors)
 
 	// Store context
-- 
2.43.0


From 6954db5e0ab50a71222ccef4b3b617ee3f3f902e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:59 +0000
Subject: [PATCH 06/24] fix: normalize huge goal phases in constant time

Wrapping by repeated addition or subtraction never ends once 2*pi is below the
phase's precision.
---
 emerge/core/state.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/emerge/core/state.go b/emerge/core/state.go
index 731e58b..8c688c3 100644
--- a/emerge/core/state.go
+++ b/emerge/core/state.go
@@ -81,11 +81,8 @@ func (s *State) NormalizeAndValidate() error {
 func (s *State) normalize() {
 	// Wrap phase to [0, 2π]
 	if !math.IsNaN(s.Phase) && !math.IsInf(s.Phase, 0) {
-		for s.Phase < 0 {
-			s.Phase += 2 * math.Pi
-		}
-		for s.Phase >= 2*math.Pi {
-			s.Phase -= 2 * math.Pi
+		if s.Phase < 0 || s.Phase >= 2*math.Pi {
+			s.Phase = WrapPhase(s.Phase)
 		}
 	}
 
-- 
2.43.0


From 519dee81775cdff9fabf5556c8d1a1f4a4c9ee8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:35 +0000
Subject: [PATCH 07/24] fix: compute the phase difference between 0 and 3pi/2
 like any other

The special cases returned the difference with the wrong sign, so an agent at
3pi/2 heading for 0 was pushed away from its target.
---
 emerge/core/phase.go | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/emerge/core/phase.go b/emerge/core/phase.go
index 79f3699..162bd59 100644
--- a/emerge/core/phase.go
+++ b/emerge/core/phase.go
@@ -14,22 +14,7 @@ func PhaseDifference(phase1, phase2 float64) float64 {
 	diff := phase1 - phase2
 
 	// Use atan2 to get the correct phase difference considering the circle
-	result := math.Atan2(math.Sin(diff), math.Cos(diff))
-
-	// Handle specific edge cases for test compatibility
-	const eps = 1e-10
-
-	// Special case: 0 to 3π/2 should return -π/2 (clockwise)
-	if math.Abs(phase1) < eps && math.Abs(phase2-3*math.Pi/2) < eps {
-		return -math.Pi / 2
-	}
-
-	// Special case: 3π/2 to 0 should return π/2 (counterclockwise)
-	if math.Abs(phase1-3*math.Pi/2) < eps && math.Abs(phase2) < eps {
-		return math.Pi / 2
-	}
-
-	return result
+	return math.Atan2(math.Sin(diff), math.Cos(diff))
 }
 
 // MeasureCoherence calculates the Kuramoto order parameter for phase synchronization.
-- 
2.43.0


From 002b79d6ff03f780bc56008de651b071e7948ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:35 +0000
Subject: [PATCH 08/24] fix: keep tuned goal configurations valid

---
 emerge/swarm/config.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/emerge/swarm/config.go b/emerge/swarm/config.go
index e559add..6551637 100644
--- a/emerge/swarm/config.go
+++ b/emerge/swarm/config.go
@@ -416,7 +416,7 @@ func (c *Config) TuneFor(t trait.Target) *Config {
 
 	case trait.Throughput:
 		// Optimize for maximum processing
-		c.Convergence.BaseAdjustmentScale *= 1.2
+		c.Convergence.BaseAdjustmentScale = minValue(1.0, c.Convergence.BaseAdjustmentScale*1.2)
 		c.Strategy.UpdateInterval = time.Duration(float64(c.Strategy.UpdateInterval) * 0.7)
 		c.Strategy.RandomExploration *= 1.5
 
@@ -425,8 +425,8 @@ func (c *Config) TuneFor(t trait.Target) *Config {
 		c.Variation.BaseRange[0] *= 1.3
 		c.Variation.BaseRange[1] *= 1.4
 		c.Resonance.NoiseMagnitude *= 1.5
-		c.Resonance.AffectedAgents *= 1.5
-		c.Resonance.ActivationRate *= 1.8
+		c.Resonance.AffectedAgents = minValue(1.0, c.Resonance.AffectedAgents*1.5)
+		c.Resonance.ActivationRate = minValue(1.0, c.Resonance.ActivationRate*1.8)
 
 	case trait.Precision:
 		// Tighten tolerances for accuracy
@@ -458,7 +458,9 @@ func (c *Config) WithSize(agentCount int) *Config {
 		c.Convergence.ToleranceLarge = 0.015
 		c.Variation.BaseRange[0] *= 0.8
 		c.Variation.BaseRange[1] *= 0.9
-		c.Strategy.UpdateInterval = time.Duration(minValue(50, int(c.Strategy.UpdateInterval/time.Millisecond))) * time.Millisecond
+		if c.Strategy.UpdateInterval > 50*time.Millisecond {
+			c.Strategy.UpdateInterval = 50 * time.Millisecond
+		}
 
 	case agentCount <= 200:
 		// Medium swarms use default tolerances
-- 
2.43.0


From 5333b87987fc64d25c0457cd5941e0139607678f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:45 +0000
Subject: [PATCH 09/24] fix: name a swarm size that can reach targets above
 0.98

---
 emerge/swarm/limits.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emerge/swarm/limits.go b/emerge/swarm/limits.go
index da415c7..445947f 100644
--- a/emerge/swarm/limits.go
+++ b/emerge/swarm/limits.go
@@ -81,7 +81,7 @@ func GetCoherenceLimits(swarmSize int) CoherenceLimits {
 func GetMinimumSwarmSize(targetCoherence float64) int {
 	// Based on empirical observations and Kuramoto model theory
 	switch {
-	case targetCoherence >= 0.99:
+	case targetCoherence > 0.98: // 0.98 is the practical limit below 100 agents
 		return 100 // Need large swarm for very high coherence
 	case targetCoherence >= 0.97:
 		return 50
-- 
2.43.0


From 6742343796133dd034faa643d1fe080a22cef4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:49 +0000
Subject: [PATCH 10/24] fix: reject NaN in swarm configurations

---
 internal/config/swarm.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/config/swarm.go b/internal/config/swarm.go
index e347287..96e118c 100644
--- a/internal/config/swarm.go
+++ b/internal/config/swarm.go
@@ -296,7 +296,7 @@ func (c *Swarm) validateProbabilities(errors *ValidationErrors) {
 	}
 
 	for field, value := range probabilities {
-		if value < 0 || value > 1 {
+		if !(value >= 0 && value <= 1) { // NaN is not a probability either
 			*errors = append(*errors, ValidationError{
 				Field: field, Value: value, Message: "must be between 0 and 1",
 			})
@@ -356,7 +356,7 @@ func (c *Swarm) validatePositiveParameters(errors *ValidationErrors) {
 	for field, value := range positiveParams {
 		switch v := value.(type) {
 		case float64:
-			if v <= 0 {
+			if !(v > 0) {
 				*errors = append(*errors, ValidationError{
 					Field: field, Value: v, Message: "must be positive",
 				})
-- 
2.43.0


From d4eb4c1ae87ff8781007703fa705be7e4cca83be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:32 +0000
Subject: [PATCH 11/24] fix: visit and disrupt the agents of large swarms

---
 emerge/swarm/swarm.go | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index 98b97ae..41e5677 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -568,17 +568,13 @@ func (s *Swarm) DisruptAgents(percentage float64) {
 	targetCount := int(float64(s.Size()) * percentage)
 	disrupted := 0
 
-	s.agents.Range(func(_, value any) bool {
+	for _, a := range s.collectAgents() {
 		if disrupted >= targetCount {
-			return false
-		}
-
-		if a, ok := value.(*agent.Agent); ok {
-			a.SetPhase(random.Phase())
-			disrupted++
+			break
 		}
-		return true
-	})
+		a.SetPhase(random.Phase())
+		disrupted++
+	}
 
 	// Important: After disruption, the goal-directed sync may have already
 	// completed and returned from its AchieveSynchronization loop.
@@ -610,12 +606,11 @@ func (s *Swarm) DisruptAgents(percentage float64) {
 // ForEachAgent applies a function to each agent in the swarm.
 // This provides controlled access to agents without exposing the internal map.
 func (s *Swarm) ForEachAgent(fn func(*agent.Agent) bool) {
-	s.agents.Range(func(_, value any) bool {
-		if agent, ok := value.(*agent.Agent); ok {
-			return fn(agent)
+	for _, a := range s.collectAgents() {
+		if !fn(a) {
+			return
 		}
-		return true
-	})
+	}
 }
 
 // AutoScaleConfig returns a configuration that automatically scales based on swarm size.
-- 
2.43.0


From 381f2b83d4bd7b3709883aac0880e39bfd793c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:32 +0000
Subject: [PATCH 12/24] fix: use custom agents in large swarms

---
 emerge/swarm/swarm.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index 41e5677..4e97425 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -290,6 +290,11 @@ func WithAgentBuilder(builder func(id string, swarmSize int, cfg config.Swarm) *
 	return func(s *Swarm) error {
 		for i := range s.size {
 			a := builder(fmt.Sprintf("agent-%d", i), s.size, s.config)
+			if s.optimized {
+				s.agentIndex[a.ID] = len(s.agentSlice)
+				s.agentSlice = append(s.agentSlice, a)
+				continue
+			}
 			s.agents.Store(a.ID, a)
 		}
 		return nil
-- 
2.43.0


From 0abb91dc83bfa86a419980ce7687e9c92d8c8b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:32 +0000
Subject: [PATCH 13/24] fix: build custom topologies once the agents exist

---
 emerge/swarm/swarm.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index 4e97425..5ef30f6 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -45,6 +45,7 @@ type Swarm struct {
 
 	// Track initialization state
 	connectionsEstablished bool
+	topology               func(*Swarm) error // custom topology, built once the agents exist
 
 	// Goal-directed synchronization
 	goalDirectedSync *GoalDirectedSync
@@ -148,6 +149,14 @@ func New(size int, goal core.State, opts ...Option) (*Swarm, error) {
 		}
 	}
 
+	// Build the custom topology, if any
+	if s.topology != nil {
+		if err := s.topology(s); err != nil {
+			return nil, fmt.Errorf("failed to apply swarm option: topology build failed: %w", err)
+		}
+		s.connectionsEstablished = true
+	}
+
 	// Establish connections if not already done
 	if !s.connectionsEstablished {
 		s.establishConnections()
@@ -304,10 +313,7 @@ func WithAgentBuilder(builder func(id string, swarmSize int, cfg config.Swarm) *
 // WithTopology uses a custom topology builder.
 func WithTopology(builder func(*Swarm) error) Option {
 	return func(s *Swarm) error {
-		if err := builder(s); err != nil {
-			return fmt.Errorf("topology build failed: %w", err)
-		}
-		s.connectionsEstablished = true
+		s.topology = builder
 		return nil
 	}
 }
-- 
2.43.0


From d2424064c60ff04137fe5ee654aac2753c2c51fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:32 +0000
Subject: [PATCH 14/24] fix: reject a nil goal configuration instead of
 panicking

---
 emerge/swarm/swarm.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index 5ef30f6..083f804 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -278,6 +278,9 @@ func WithConfig(cfg config.Swarm) Option {
 // WithGoalConfig sets a custom configuration for goal-directed synchronization.
 func WithGoalConfig(cfg *Config) Option {
 	return func(s *Swarm) error {
+		if cfg == nil {
+			return fmt.Errorf("goal config validation failed: config is nil")
+		}
 		if err := cfg.Validate(); err != nil {
 			return fmt.Errorf("goal config validation failed: %w", err)
 		}
-- 
2.43.0


From 8539ae277ebce44c2cd52388f929d6559e5f422d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:32 +0000
Subject: [PATCH 15/24] fix: attempt targets between the practical and the
 theoretical limit

---
 emerge/swarm/goal_directed.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emerge/swarm/goal_directed.go b/emerge/swarm/goal_directed.go
index 1366d36..2798ee6 100644
--- a/emerge/swarm/goal_directed.go
+++ b/emerge/swarm/goal_directed.go
@@ -92,8 +92,8 @@ func (gds *GoalDirectedSync) AchieveSynchronization(ctx context.Context, target
 
 	// Adjust max iterations based on difficulty
 	timeFactor := GetConvergenceTimeFactor(swarmSize, target.Coherence)
-	maxIterations := int(gds.config.Strategy.MaxIterationsFactor * timeFactor)
-	maxIterations = min(maxIterations, 1000) // Cap at reasonable limit
+	// Cap at reasonable limit before converting: the factor is infinite beyond the practical limit
+	maxIterations := int(math.Min(gds.config.Strategy.MaxIterationsFactor*timeFactor, 1000))
 
 	// Goal-directed loop
 	ticker := time.NewTicker(gds.config.Strategy.UpdateInterval)
-- 
2.43.0


From 2fddf260d04349a758daa436873b36c10612f58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:32 +0000
Subject: [PATCH 16/24] fix: record the coherence a running swarm measures

---
 emerge/swarm/goal_directed.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emerge/swarm/goal_directed.go b/emerge/swarm/goal_directed.go
index 2798ee6..820a167 100644
--- a/emerge/swarm/goal_directed.go
+++ b/emerge/swarm/goal_directed.go
@@ -114,6 +114,7 @@ func (gds *GoalDirectedSync) AchieveSynchronization(ctx context.Context, target
 
 			// Step 2: Record convergence
 			gds.convergenceMonitor.RecordSample(currentPattern, coherence)
+			gds.swarm.convergence.Record(coherence)
 
 			// Step 3: Check if we've achieved the goal
 			if gds.isPatternAchieved(currentPattern) {
-- 
2.43.0


From e0462f5358bb1d5d7a9b4a78bc0ed436cf8621a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:32 +0000
Subject: [PATCH 17/24] fix: keep maintaining a swarm after a synchronization
 attempt fails

---
 emerge/swarm/swarm_continuous_run.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/emerge/swarm/swarm_continuous_run.go b/emerge/swarm/swarm_continuous_run.go
index a46aea3..6c2511d 100644
--- a/emerge/swarm/swarm_continuous_run.go
+++ b/emerge/swarm/swarm_continuous_run.go
@@ -2,7 +2,6 @@ package swarm
 
 import (
 	"context"
-	"errors"
 	"math"
 	"time"
 
@@ -214,15 +213,10 @@ func (s *Swarm) RunContinuous(ctx context.Context) error {
 		case <-ctx.Done():
 			return ctx.Err()
 
-		case err := <-syncDone:
+		case <-syncDone:
+			// The attempt ended: monitoring decides whether to make another
 			state.syncActive = false
 
-			if err != nil && !errors.Is(err, context.Canceled) {
-				// Real error occurred
-				return err
-			}
-			// Synchronization completed successfully, continue monitoring
-
 		case <-ticker.C:
 			currentCoherence := s.MeasureCoherence()
 
-- 
2.43.0


From 640220174630eb312d94cdba4fc6cd4a5d8a928d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:32 +0000
Subject: [PATCH 18/24] fix: measure phase convergence to target phases of any
 turn

---
 emerge/swarm/phase_convergence.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/emerge/swarm/phase_convergence.go b/emerge/swarm/phase_convergence.go
index 45c540c..57a0dec 100644
--- a/emerge/swarm/phase_convergence.go
+++ b/emerge/swarm/phase_convergence.go
@@ -2,6 +2,8 @@ package swarm
 
 import (
 	"math"
+
+	"github.com/carlisia/bio-adapt/emerge/core"
 )
 
 // MeasurePhaseConvergence calculates how well agents have converged to a target phase.
@@ -17,7 +19,7 @@ func (s *Swarm) MeasurePhaseConvergence(targetPhase float64) float64 {
 	for _, agent := range agents {
 		phase := agent.Phase()
 		// Calculate circular distance
-		diff := math.Abs(phase - targetPhase)
+		diff := math.Abs(phase - core.WrapPhase(targetPhase))
 		// Handle wraparound
 		if diff > math.Pi {
 			diff = 2*math.Pi - diff
-- 
2.43.0


From f42c7993c82644ef2af825f0d4c60b248c03f49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:32 +0000
Subject: [PATCH 19/24] fix: take the convergence monitor lock once per query

---
 emerge/monitoring/convergence.go | 28 ++++++++++++++++++++++------
 internal/emerge/convergence.go   | 28 ++++++++++++++++++++++------
 2 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/emerge/monitoring/convergence.go b/emerge/monitoring/convergence.go
index 814b669..eda0f6c 100644
--- a/emerge/monitoring/convergence.go
+++ b/emerge/monitoring/convergence.go
@@ -87,7 +87,11 @@ func (m *ConvergenceMonitor) ConvergenceTime() time.Duration {
 func (m *ConvergenceMonitor) CurrentCoherence() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.currentCoherence()
+}
 
+// currentCoherence is CurrentCoherence for callers holding the lock.
+func (m *ConvergenceMonitor) currentCoherence() float64 {
 	if len(m.history) == 0 {
 		return 0
 	}
@@ -99,7 +103,11 @@ func (m *ConvergenceMonitor) CurrentCoherence() float64 {
 func (m *ConvergenceMonitor) ConvergenceRate() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.convergenceRate()
+}
 
+// convergenceRate is ConvergenceRate for callers holding the lock.
+func (m *ConvergenceMonitor) convergenceRate() float64 {
 	if len(m.history) < 2 {
 		return 0
 	}
@@ -135,7 +143,11 @@ func (m *ConvergenceMonitor) ConvergenceRate() float64 {
 func (m *ConvergenceMonitor) Stability() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.stability()
+}
 
+// stability is Stability for callers holding the lock.
+func (m *ConvergenceMonitor) stability() float64 {
 	if len(m.history) < 2 {
 		return 1.0
 	}
@@ -174,17 +186,21 @@ func (m *ConvergenceMonitor) Stability() float64 {
 func (m *ConvergenceMonitor) PredictConvergenceTime() time.Duration {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.predictConvergenceTime()
+}
 
+// predictConvergenceTime is PredictConvergenceTime for callers holding the lock.
+func (m *ConvergenceMonitor) predictConvergenceTime() time.Duration {
 	if m.convergedTime != nil {
 		return 0 // Already converged
 	}
 
-	rate := m.ConvergenceRate()
+	rate := m.convergenceRate()
 	if rate <= 0 {
 		return 0 // Not converging
 	}
 
-	current := m.CurrentCoherence()
+	current := m.currentCoherence()
 	remaining := m.convergenceAt - current
 
 	if remaining <= 0 {
@@ -219,7 +235,7 @@ func (m *ConvergenceMonitor) Statistics() map[string]any {
 	stats := make(map[string]any)
 
 	stats["samples"] = len(m.history)
-	stats["current_coherence"] = m.CurrentCoherence()
+	stats["current_coherence"] = m.currentCoherence()
 	stats["max"] = m.maxCoherence
 	stats["min"] = m.minCoherence
 	stats["converged"] = m.convergedTime != nil
@@ -248,10 +264,10 @@ func (m *ConvergenceMonitor) Statistics() map[string]any {
 		stats["std_dev"] = math.Sqrt(variance)
 	}
 
-	stats["convergence_rate"] = m.ConvergenceRate()
-	stats["stability"] = m.Stability()
+	stats["convergence_rate"] = m.convergenceRate()
+	stats["stability"] = m.stability()
 
-	prediction := m.PredictConvergenceTime()
+	prediction := m.predictConvergenceTime()
 	if prediction > 0 {
 		stats["predicted_convergence_time"] = prediction.Seconds()
 	}
diff --git a/internal/emerge/convergence.go b/internal/emerge/convergence.go
index 19d370a..e010853 100644
--- a/internal/emerge/convergence.go
+++ b/internal/emerge/convergence.go
@@ -87,7 +87,11 @@ func (m *ConvergenceMonitor) ConvergenceTime() time.Duration {
 func (m *ConvergenceMonitor) CurrentCoherence() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.currentCoherence()
+}
 
+// currentCoherence is CurrentCoherence for callers holding the lock.
+func (m *ConvergenceMonitor) currentCoherence() float64 {
 	if len(m.history) == 0 {
 		return 0
 	}
@@ -99,7 +103,11 @@ func (m *ConvergenceMonitor) CurrentCoherence() float64 {
 func (m *ConvergenceMonitor) ConvergenceRate() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.convergenceRate()
+}
 
+// convergenceRate is ConvergenceRate for callers holding the lock.
+func (m *ConvergenceMonitor) convergenceRate() float64 {
 	if len(m.history) < 2 {
 		return 0
 	}
@@ -135,7 +143,11 @@ func (m *ConvergenceMonitor) ConvergenceRate() float64 {
 func (m *ConvergenceMonitor) Stability() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.stability()
+}
 
+// stability is Stability for callers holding the lock.
+func (m *ConvergenceMonitor) stability() float64 {
 	if len(m.history) < 2 {
 		return 1.0
 	}
@@ -174,17 +186,21 @@ func (m *ConvergenceMonitor) Stability() float64 {
 func (m *ConvergenceMonitor) PredictConvergenceTime() time.Duration {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.predictConvergenceTime()
+}
 
+// predictConvergenceTime is PredictConvergenceTime for callers holding the lock.
+func (m *ConvergenceMonitor) predictConvergenceTime() time.Duration {
 	if m.convergedTime != nil {
 		return 0 // Already converged
 	}
 
-	rate := m.ConvergenceRate()
+	rate := m.convergenceRate()
 	if rate <= 0 {
 		return 0 // Not converging
 	}
 
-	current := m.CurrentCoherence()
+	current := m.currentCoherence()
 	remaining := m.convergenceAt - current
 
 	if remaining <= 0 {
@@ -219,7 +235,7 @@ func (m *ConvergenceMonitor) Statistics() map[string]any {
 	stats := make(map[string]any)
 
 	stats["samples"] = len(m.history)
-	stats["current_coherence"] = m.CurrentCoherence()
+	stats["current_coherence"] = m.currentCoherence()
 	stats["max"] = m.maxCoherence
 	stats["min"] = m.minCoherence
 	stats["converged"] = m.convergedTime != nil
@@ -248,10 +264,10 @@ func (m *ConvergenceMonitor) Statistics() map[string]any {
 		stats["std_dev"] = math.Sqrt(variance)
 	}
 
-	stats["convergence_rate"] = m.ConvergenceRate()
-	stats["stability"] = m.Stability()
+	stats["convergence_rate"] = m.convergenceRate()
+	stats["stability"] = m.stability()
 
-	prediction := m.PredictConvergenceTime()
+	prediction := m.predictConvergenceTime()
 	if prediction > 0 {
 		stats["predicted_convergence_time"] = prediction.Seconds()
 	}
-- 
2.43.0


From d0ad9206c8e36460b76d83ee6c5e98e37e87b6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:09 +0000
Subject: [PATCH 20/24] fix: keep the predicted convergence time from
 overflowing

---
 emerge/monitoring/convergence.go | 6 +++++-
 internal/emerge/convergence.go   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/emerge/monitoring/convergence.go b/emerge/monitoring/convergence.go
index eda0f6c..306fa40 100644
--- a/emerge/monitoring/convergence.go
+++ b/emerge/monitoring/convergence.go
@@ -214,7 +214,11 @@ func (m *ConvergenceMonitor) predictConvergenceTime() time.Duration {
 	// Assume each sample is about 100ms apart (configurable)
 	samplePeriod := 100 * time.Millisecond
 
-	return time.Duration(timeToConverge * float64(samplePeriod))
+	estimate := timeToConverge * float64(samplePeriod)
+	if estimate >= math.MaxInt64 {
+		return math.MaxInt64 // Longer than a duration can hold
+	}
+	return time.Duration(estimate)
 }
 
 // History returns the full coherence history.
diff --git a/internal/emerge/convergence.go b/internal/emerge/convergence.go
index e010853..12e6154 100644
--- a/internal/emerge/convergence.go
+++ b/internal/emerge/convergence.go
@@ -214,7 +214,11 @@ func (m *ConvergenceMonitor) predictConvergenceTime() time.Duration {
 	// Assume each sample is about 100ms apart (configurable)
 	samplePeriod := 100 * time.Millisecond
 
-	return time.Duration(timeToConverge * float64(samplePeriod))
+	estimate := timeToConverge * float64(samplePeriod)
+	if estimate >= math.MaxInt64 {
+		return math.MaxInt64 // Longer than a duration can hold
+	}
+	return time.Duration(estimate)
 }
 
 // History returns the full coherence history.
-- 
2.43.0


From 2f0682fe2f023528dd0d7598c17e942c1dceb193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:09 +0000
Subject: [PATCH 21/24] fix: keep the severity of frequency gaps within its
 range

---
 emerge/core/pattern.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emerge/core/pattern.go b/emerge/core/pattern.go
index 61c9038..1983562 100644
--- a/emerge/core/pattern.go
+++ b/emerge/core/pattern.go
@@ -70,7 +70,7 @@ func IdentifyGaps(current, target *TargetPattern) []PatternGap {
 				Type:     "frequency",
 				Current:  float64(current.Frequency),
 				Target:   float64(target.Frequency),
-				Severity: math.Abs(freqRatio - 1.0),
+				Severity: math.Min(math.Abs(freqRatio-1.0), 1.0),
 			})
 		}
 	}
-- 
2.43.0


From 68083754abf010043333d8722052083a9275e926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:09 +0000
Subject: [PATCH 22/24] fix: detect gaps in patterns with fewer frequencies
 than phases

---
 emerge/monitoring/patterns.go | 4 +++-
 internal/emerge/pattern.go    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/emerge/monitoring/patterns.go b/emerge/monitoring/patterns.go
index d0b8c15..09ca564 100644
--- a/emerge/monitoring/patterns.go
+++ b/emerge/monitoring/patterns.go
@@ -53,7 +53,9 @@ func (p *TargetPattern) Detect() []PatternGap {
 			gap := PatternGap{
 				StartIdx: i - 1,
 				EndIdx:   i,
-				Duration: p.Frequencies[i-1],
+			}
+			if i-1 < len(p.Frequencies) {
+				gap.Duration = p.Frequencies[i-1]
 			}
 			gaps = append(gaps, gap)
 		}
diff --git a/internal/emerge/pattern.go b/internal/emerge/pattern.go
index 2ccc5ae..b122554 100644
--- a/internal/emerge/pattern.go
+++ b/internal/emerge/pattern.go
@@ -54,7 +54,9 @@ func (p *TargetPattern) Detect() []PatternGap {
 			gap := PatternGap{
 				StartIdx: i - 1,
 				EndIdx:   i,
-				Duration: p.Frequencies[i-1],
+			}
+			if i-1 < len(p.Frequencies) {
+				gap.Duration = p.Frequencies[i-1]
 			}
 			gaps = append(gaps, gap)
 		}
-- 
2.43.0


From cd5f32bf67dbabc1cd29c9577d9006b84094076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:09 +0000
Subject: [PATCH 23/24] fix: give a basin without width a force at its center

---
 internal/emerge/basin.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/emerge/basin.go b/internal/emerge/basin.go
index e287cc3..190958f 100644
--- a/internal/emerge/basin.go
+++ b/internal/emerge/basin.go
@@ -56,7 +56,10 @@ func (b *AttractorBasin) AttractionForce(state core.State) float64 {
 	}
 
 	// Stronger force when closer to center
-	normalizedDist := distance / b.radius
+	normalizedDist := 0.0
+	if b.radius > 0 {
+		normalizedDist = distance / b.radius
+	}
 
 	// Special handling for negative phase to positive target transitions
 	// This may be needed to match expected test behavior
-- 
2.43.0


From ef913251e93d7df829beb3d7ada14eb7a0d434d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:26 +0000
Subject: [PATCH 24/24] fix: compare patterns without amplitude

---
 emerge/monitoring/patterns.go | 5 ++++-
 internal/emerge/pattern.go    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/emerge/monitoring/patterns.go b/emerge/monitoring/patterns.go
index 09ca564..ee64a4d 100644
--- a/emerge/monitoring/patterns.go
+++ b/emerge/monitoring/patterns.go
@@ -99,7 +99,10 @@ func (p *TargetPattern) Similarity(other *TargetPattern) float64 {
 
 	// Compare amplitudes
 	ampDiff := math.Abs(p.Amplitude - other.Amplitude)
-	ampSim := 1.0 - math.Min(ampDiff/math.Max(p.Amplitude, other.Amplitude), 1.0)
+	ampSim := 1.0
+	if ampDiff != 0 {
+		ampSim = 1.0 - math.Min(ampDiff/math.Max(p.Amplitude, other.Amplitude), 1.0)
+	}
 
 	// Compare periods
 	periodDiff := math.Abs(float64(p.Period - other.Period))
diff --git a/internal/emerge/pattern.go b/internal/emerge/pattern.go
index b122554..56a9e2c 100644
--- a/internal/emerge/pattern.go
+++ b/internal/emerge/pattern.go
@@ -100,7 +100,10 @@ func (p *TargetPattern) Similarity(other *TargetPattern) float64 {
 
 	// Compare amplitudes
 	ampDiff := math.Abs(p.Amplitude - other.Amplitude)
-	ampSim := 1.0 - math.Min(ampDiff/math.Max(p.Amplitude, other.Amplitude), 1.0)
+	ampSim := 1.0
+	if ampDiff != 0 {
+		ampSim = 1.0 - math.Min(ampDiff/math.Max(p.Amplitude, other.Amplitude), 1.0)
+	}
 
 	// Compare periods
 	periodDiff := math.Abs(float64(p.Period - other.Period))
-- 
2.43.0

