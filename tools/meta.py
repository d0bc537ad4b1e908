"""Single source of the property list; tools/gen.py turns it into
properties.jsonl, MANIFEST.json and harness/props.json."""
P = []

def prop(id, title, statement, over, text, why, files, mech, areas, match, bounds, assume, outside, level="model_checking", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  areas=areas, match=match, bounds=bounds, assume=assume, outside=outside, level=level, note=note))

FP = "floats are IEEE-754 doubles; queries the floating-point solver does not settle are decided in a real-arithmetic over-approximation (half-ulp rounding error per operation), so an unsat there is sound for the doubles"
TRIG = "math.Sin/Cos/Atan2/Hypot are modelled by their documented accuracy (see DESIGN.md, trusted lemmas)"
RAND = "the random source returns an arbitrary value of its type and documented range"
SC = "interleavings are sequentially consistent, pre-empted at shared accesses and synchronisation operations"

prop("P01", "Agent phases and local goals always lie in one turn",
 "Whatever finite values, random draws, setters, options, configurations and actions an agent meets, its phase and its local goal always lie in [0, 2π). A value already in that range is stored as given (up to rounding); wrapping any value keeps the same point on the circle; and a successful phase-moving action moves the phase by exactly the requested amount around the circle, while holding still (maintain) or an unknown action never moves it and no action touches the local goal or frequency.",
 ["inputs", "histories", "configurations"], "every finite phase, goal, shift and cost, every action type, every draw of the random source, both agent builds, every sequence of up to 2 (thorough 3) actions",
 "tests probe a handful of round angles; the range and point claims quantify over all 2^64 floats and every order of operations",
 ["emerge/core/phase.go", "emerge/agent/agent.go", "emerge/agent/builder.go", "emerge/agent/atomic_state.go"],
 [("WrapPhase", "emerge/core/phase.go"), ("SetPhase/SetLocalGoal/ApplyAction", "emerge/agent/agent.go")],
 ["core", "agent"], "^Phase",
 "range: every finite double; same-point: ±4 turns; action shift |v|<=3.2; histories of 2 actions (3 thorough)",
 [FP, TRIG, RAND], "NaN and infinite inputs; sequences longer than 3 actions (the pre-state of one action is an arbitrary phase, so one step covers longer histories of the same agent)")

prop("P02", "Agent energy is never negative and every action is paid exactly once",
 "An agent's energy is never negative. An action is accepted exactly when its kind is known and its cost does not exceed the energy at hand; then exactly that cost is deducted, reported and requested once from the resource manager, otherwise nothing changes, zero is reported and the error names the reason. Energy, influence and stubbornness setters and options clamp into their domains ([0,∞), [0,1], [0,1]) and touch nothing else.",
 ["inputs", "histories"], "every finite starting energy and non-negative cost, every action type, every history of 3 (thorough 4) actions, every non-NaN setter argument",
 "tests use round costs such as 10 out of 100; the boundary cost==energy, tiny residues and unknown types under any energy are not sampled",
 ["emerge/agent/agent.go", "emerge/agent/builder.go", "emerge/agent/atomic_state.go"],
 [("ApplyAction", "emerge/agent/agent.go"), ("SetEnergy/SetInfluence/SetStubbornness", "emerge/agent/agent.go")],
 ["agent"], "^Energy", "one action: all finite doubles; histories of 3 (4) actions with costs and energy in [0,1000]",
 [FP, RAND], "NaN arguments; negative costs")

prop("P03", "The token pool never over-grants and never exceeds its limit",
 "A resource pool starts full; a request is granted the smaller of what is asked and what is left (nothing for non-positive amounts); a release returns tokens but never lifts the pool above its limit and ignores non-positive amounts. What is available always lies between zero and the limit. Concurrent requests and releases behave as if executed one after the other.",
 ["inputs", "histories", "schedules"], "every finite limit and amount, every history of 3 (4) operations, every interleaving of two operations with up to 2 (3) pre-emptions",
 "tests use whole numbers and never force an interleaving inside an operation",
 ["internal/resource/token.go"], [("TokenManager.Request/Release/Available", "internal/resource/token.go")],
 ["resource"], "^Token", "histories of 3 (4) operations; 2 goroutines, 2 (3) pre-emptions", [FP, SC], "NaN/Inf amounts; more than two concurrent callers")

prop("P04", "Concurrent use of one agent loses no update and tears no read",
 "Setters of different values, actions, perception updates and grouped-state updates running concurrently on one agent each take full effect: no update is lost or undone by another, concurrent actions are each charged and together never spend more than there was, and a concurrent reader only sees values that were actually set, never a mix of two.",
 ["schedules", "inputs"], "every interleaving of two operations (pre-emption bound 1–2, thorough +1) over symbolic values",
 "the race detector and stress tests see a few schedules; lost read-modify-write updates are not data races and need a precise interleaving",
 ["emerge/agent/agent.go", "emerge/agent/atomic_state.go"],
 [("CAS update loops of grouped state", "emerge/agent/atomic_state.go"), ("ApplyAction", "emerge/agent/agent.go")],
 ["agent"], "^Conc", "two goroutines, one operation each; pre-emption bound 2 (3), 1 (2) for actions", [FP, TRIG, RAND, SC], "three or more goroutines; weak-memory reorderings beyond the Go memory model's guarantees for synchronised accesses")

prop("P05", "Neighbour links behave like a bounded set of other agents",
 "The neighbour storage behaves like a map with a capacity: a new entry is accepted exactly while there is room, an existing one is replaced, removal frees a place, and counting, listing, iterating and looking up always agree; concurrent changes behave as some serial order. An agent is connected to exactly those other agents it was linked to and not unlinked from, however the link was made, and never to itself. Agents taken from the pool carry the requested identity, fresh default values and no links of their previous life.",
 ["histories", "inputs", "schedules"], "every history of 3 (4) operations over 3 keys, every interleaving of three concurrent operations (1–2 pre-emptions)",
 "tests run fixed short sequences; interplay of the two link stores, reuse of freed slots and concurrent changes need particular histories",
 ["emerge/agent/neighbor_storage.go", "emerge/agent/agent.go", "emerge/agent/pool.go"],
 [("NeighborStorage", "emerge/agent/neighbor_storage.go"), ("ConnectTo/DisconnectFrom/IsConnectedTo", "emerge/agent/agent.go"), ("Pool.Get/Put", "emerge/agent/pool.go")],
 ["agent"], "^Neighbor", "capacities 1–2, 3 (4) operations, 3 keys; one pool round trip", [RAND, SC], "capacities above 2 in histories; iteration concurrent with deletion of the visited entry")

prop("P06", "Agents perceive exactly their neighbours",
 "After an agent updates its perception, the number of perceived neighbours is the number of linked agents however each was linked and counted once; the density is that number over the possible neighbours and lies in [0,1]; the local coherence lies in [0,1], is 1 when all neighbours agree and 0 with none. The local goal becomes the neighbours' phase when they agree, always stays a proper phase, and is kept when there are no neighbours; phase, energy and the rest are untouched.",
 ["inputs", "configurations"], "every phase of the agent and of up to two neighbours, up to 3 links made either way, every swarm size and assumed neighbour count",
 "tests use one or two fixed phases with one way of linking",
 ["emerge/agent/agent.go", "emerge/agent/neighbor_storage.go"],
 [("UpdateContext", "emerge/agent/agent.go"), ("ProposeAdjustment", "emerge/agent/agent.go")],
 ["agent"], "^Perceive", "up to 3 neighbours for counting, up to 2 with symbolic phases", [FP, TRIG, RAND], "the exact opposite point (both ways round equally short), neighbours with more than 3 distinct phases")

prop("P07", "Proposing is free of effects and accepted proposals are affordable",
 "Proposing an adjustment changes nothing about the agent. An accepted adjustment is one of the two options offered (the strategy's own proposal or holding still) and is affordable; a refusal is reported as holding still. A fully stubborn agent accepts nothing, zero confidence or acceptance is never accepted, a certain and affordable proposal to an agent without stubbornness is always accepted, and an accepted adjustment can then be applied at its price.",
 ["inputs"], "every proposal of an arbitrary strategy, every answer of an arbitrary decision maker, every energy, stubbornness and random draw",
 "tests fix the strategy and rely on luck of the random source",
 ["emerge/agent/agent.go"], [("ProposeAdjustment", "emerge/agent/agent.go"), ("ApplyAction", "emerge/agent/agent.go")],
 ["agent"], "^Propose", "one proposal from an arbitrary state", [FP, TRIG, RAND], "concurrent proposals (see P04)")

prop("P08", "Every strategy moves toward its target the short way at its rate",
 "Each synchronisation strategy proposes a phase change of its rate (clamped to [0,1]) times the signed shortest way to the target, never more than half a turn and never away from the target, with a cost that is finite and not negative and a confidence in [0,1]; holding still has value zero. Pulses are never closer together than the configured period and are sent once it has passed. The energy-aware strategy leaves differences below 0.1 alone and moves a tenth of larger ones; the adaptive strategy always delegates to one of its members and holds still without any.",
 ["inputs", "histories"], "every finite phase pair (range) and every pair within one turn (direction), every rate, every context, every elapsed time and period up to 2 h, every selector answer",
 "tests check a few pairs; wrap-around pairs and out-of-range rates, selectors and times are not covered",
 ["emerge/strategy/phase_nudge.go", "emerge/strategy/frequency_lock.go", "emerge/strategy/pulse.go", "emerge/strategy/energy_aware.go", "emerge/strategy/adaptive.go"],
 [("Propose", "emerge/strategy/*.go"), ("PhaseDifference", "emerge/core/phase.go")],
 ["strategy"], "^Strategy", "bounds: all finite doubles; direction: phases in [0,6.283], rate in [-1,2]; two consecutive pulses; up to 3 members", [FP, TRIG], "phases exactly opposite (both ways equally short)")

prop("P09", "The default decision maker picks the best value for cost",
 "The default decision maker returns one of the offered actions, and none offered has a better benefit per cost (costs below 0.1 count as 0.1); ties keep the earlier option. Its confidence is half the winning ratio clamped to [0,1]; without options it holds still with the state's coherence as confidence.",
 ["inputs"], "every list of up to 3 options with any value, cost and benefit", "tests use two or three fixed options",
 ["emerge/strategy/strategy.go", "emerge/decision"], [("SimpleDecisionMaker.Decide", "emerge/strategy/strategy.go")],
 ["strategy"], "^Decide", "1–3 options, cost in [0,1e6], |benefit| <= 1e6", [FP], "more than 3 options")

prop("P10", "Blending goals stays on the short way between them",
 "A blend of a local and a global goal has a phase in [0, 2π) lying the given share (clamped to [0,1]) of the shortest way from local to global, the coherence at the same share between the two, and the local frequency.",
 ["inputs"], "every pair of goals and every weight", "tests use weights 0, 0.5, 1 and a few phases",
 ["emerge/strategy/strategy.go", "emerge/goal"], [("WeightedGoalManager.Blend", "emerge/strategy/strategy.go")],
 ["strategy"], "^Blend", "range: |phase| < 1e300; share: phases in [0,6.283], weight in [-1,2]", [FP, TRIG], "exactly opposite phases for the share claim")

prop("P11", "Phase difference and coherence are sound measures",
 "The difference of two phases is the signed shortest way round: it lies in [-π, π], is zero for equal phases, antisymmetric (except at exact opposites) and differs from the plain difference by whole turns. The coherence of any set of phases lies in [0,1], is 0 for none and 1 for phases that are all equal; weighted coherence likewise, zero weights and unmatched entries being ignored and equal weights giving the unweighted value.",
 ["inputs"], "every finite phase (range), phases within ±2 turns (point), up to 3 (4) phases, weights in [0.001,1000]",
 "tests use round angles only, where special cases hide",
 ["emerge/core/phase.go"], [("PhaseDifference/MeasureCoherence/MeasureCoherenceWeighted", "emerge/core/phase.go")],
 ["core"], "^Measure", "differences: all finite doubles (range), a in [-2π,4π], b in [-2π,2π] (point); coherence: up to 2 (3) arbitrary phases, up to 4 equal ones", [FP, TRIG], "more than 4 phases; negative weights")

prop("P12", "Goal states validate exactly and normalise to valid goals",
 "Validating a goal accepts exactly those with positive frequency, coherence in [0,1] and a finite phase, and changes nothing. Normalising repairs every goal whose phase is finite and whose coherence is a number: the phase lands in [0, 2π) at the same point, coherence is clamped, a non-positive frequency gets a positive default, values already valid are kept, and normalising twice changes nothing more; every other goal is an error.",
 ["inputs"], "every bit pattern of phase, frequency and coherence", "tests list a dozen goals",
 ["emerge/core/state.go"], [("State.Validate/NormalizeAndValidate", "emerge/core/state.go")],
 ["core"], "^Goal", "all doubles and all int64 frequencies; same-point within ±3 turns", [FP], "the state of a goal for which an error was returned")

prop("P13", "Swarm configurations validate exactly and normalise to valid ones",
 "Validating a swarm configuration accepts exactly those whose probabilities lie in [0,1], whose neighbour bounds fit the swarm size, whose energy, width and intervals are positive and whose concurrency settings are not negative, and changes nothing. Normalising repairs every numeric configuration whose size fits its limit (all others are errors), clamps only what is out of range, keeps valid values, leaves batching with a positive batch and pool, and is idempotent. The presets, the automatic configuration of every size from 1 to 1,000,000 and the batching configuration of every workload are valid (after normalising for the latter).",
 ["inputs", "configurations"], "every value of every field (all doubles, all integers), every swarm size", "tests list two dozen configurations",
 ["internal/config/swarm.go", "internal/config/agent.go"], [("Validate/NormalizeAndValidate/AutoScaleConfig/ForBatching", "internal/config/swarm.go")],
 ["config"], "^Config", "all field values and sizes -1000..1e6, with at most two (thorough: three) constraints violated at once when validating and at most one (thorough: two) when normalising; automatic and batching configurations for sizes 1..1e6", [FP], "NaN fields when normalising (an error); sizes above a million for the automatic configuration")

prop("P14", "Goal configurations stay valid however they are tuned and sized",
 "The configuration of every goal is valid. Tuning a valid configuration for any trait, or sizing it for any agent count, yields a valid one, and moves it the way the trait names: speed and throughput never lengthen the update interval or weaken adjustments, stability never strengthens them, efficiency never costs more, resilience never lowers redundancy, precision never loosens a tolerance; an unknown trait changes nothing, small swarms update at least every 50 ms and large ones at most every 150 ms. Validation accepts exactly the configurations within the documented ranges and changes nothing.",
 ["inputs", "configurations", "histories"], "every valid configuration (all field values), every trait and agent count", "tests tune the eight presets once",
 ["emerge/swarm/config.go", "emerge/swarm/goal_constants.go", "emerge/swarm/thresholds.go"], [("For/TuneFor/WithSize/Validate", "emerge/swarm/config.go")],
 ["tuning"], "^(Tune|Size|Goal|ValidateT)", "one step from any valid configuration whose unbounded fields are at most 1e9 and whose update interval lies between 1 µs and 1 h; all histories of two (thorough: three) steps from every goal", [FP], "update intervals below a microsecond (halving reaches zero); NaN fields")

prop("P15", "Coherence limits are ordered, monotone and consistent with each other",
 "For every swarm size the recommended coherence is at most the practical one, which is at most the theoretical one, all within [0,1], and a bigger swarm of at least two agents is never limited more. A target is changed only when it exceeds the theoretical maximum, and then to that maximum; a warning is given exactly for targets above the recommendation. The minimum swarm size named for a target up to 0.99 can practically reach it, and a higher target never needs fewer agents. The convergence time factor is at least one, never shrinks as the target grows, and is infinite exactly for targets beyond practical reach.",
 ["inputs"], "every swarm size and every target (all doubles)", "tests list a few sizes and targets per band",
 ["emerge/swarm/limits.go"], [("GetCoherenceLimits/GetMinimumSwarmSize/GetConvergenceTimeFactor/ValidateCoherenceTarget", "emerge/swarm/limits.go")],
 ["tuning"], "^Limits", "none beyond 64-bit sizes and doubles", [FP], "NaN targets; targets above 0.99 for the minimum size (no swarm reaches them practically)")

prop("P25", "Clients are built as asked for, with consistent scale tables",
 "Every agent count has a size class and classes grow with the count; the default count of a class is the largest in that class, and larger classes have lower default targets, longer update intervals and longer convergence times; each default target is practically reachable at the class's size. The client builder accepts exactly target coherences up to one (falling back to the class default for non-positive ones), the option exactly those in (0,1]; a client is returned exactly when there is no error, with the class's number of agents, each connected to at least the configured minimum of neighbours, and valid configurations.",
 ["inputs", "configurations"], "every count, size class, goal and target coherence (all doubles)", "no test covers the client",
 ["emerge/scale/scale.go", "client/emerge/custom.go", "client/emerge/builder.go", "client/emerge/emerge.go", "emerge/swarm/swarm.go"], [("Size tables/FromCount", "emerge/scale/scale.go"), ("Builder.Build/NewWithOptions", "client/emerge/custom.go")],
 ["tuning"], "^(Scale|Client)", "scale tables: all integers; clients: tiny, small and medium scales, nine goals, all doubles as target, one fixed random stream for phases and links", [FP], "large and huge clients; other random streams (see P17 for the topology itself)")
prop("P16", "A swarm holds exactly the agents asked for and every operation sees all of them",
 "Building a swarm fails exactly for a non-positive size, an invalid goal, a nil or invalid configuration or a failing topology builder, and returns a swarm exactly when there is no error; nothing panics. Whatever storage the swarm size selects, it holds exactly its size of agents, under their own distinct ids, and lookup, listing, iteration (with early stop) and size agree; custom agents and a custom topology are used as given, the topology builder sees every agent and no other links are made. Disrupting a fraction re-draws the phase of exactly the (clamped) fraction of agents and resets the recorded coherence. Coherence is that of the agents' phases; convergence to a target phase of any turn lies in [0,1].",
 ["inputs", "configurations", "histories"], "every goal (all doubles and frequencies), fraction and target phase; small and large (separately stored) swarms", "tests build a few small swarms with valid goals; the large-swarm storage is barely covered",
 ["emerge/swarm/swarm.go", "emerge/swarm/goal_directed.go", "emerge/agent/agent.go", "emerge/core/state.go"], [("New/NewSwarmFromConfig", "emerge/swarm/swarm.go"), ("ForEachAgent/Agents/Agent/DisruptAgents", "emerge/swarm/swarm.go"), ("MeasurePhaseConvergence", "emerge/swarm/swarm.go")],
 ["swarm"], "^Swarm", "goals, fractions, early stops and target phases symbolic (all doubles; targets within a few turns); sizes 1, 2, 3, 20, 101, 230 and non-positive ones; one fixed random stream for the agents' initial states", [FP, TRIG], "other sizes; other random streams; goals out of range are covered by the error side only")
prop("P17", "Swarm topologies are mutual, irreflexive and meet the configured minimum",
 "Whatever the random draws and however neighbour bounds and connection probability are configured, the links a swarm establishes are mutual, never from an agent to itself and only between its members, stored under the neighbour's own id; each agent has at most n-1 neighbours and, when links are drawn probabilistically or configured automatically, at least the configured minimum. A zero probability with a zero minimum links nobody.",
 ["inputs", "configurations"], "every sequence of random draws and every connection probability", "tests see one random topology per run and mostly check that some neighbours exist",
 ["emerge/swarm/swarm.go", "internal/random/random.go", "emerge/agent/storage.go"], [("establishConnections", "emerge/swarm/swarm.go"), ("Intn", "internal/random/random.go")],
 ["swarm"], "^Topology", "up to 3 agents with all neighbour bounds and probabilities in [0,1], every outcome of up to n(n-1) link draws (thorough: one more); 5, 12, 60, 130 and 250 automatically configured agents on two fixed random streams", [FP], "longer runs of rejected draws; the configured maximum on the receiving side of a link, which the code deliberately does not enforce")
prop("P18", "A run succeeds only by meeting its target, ends, and obeys its context",
 "Run returns without an error only when, as measured on the agents at its last check, coherence reaches the goal (capped by what the swarm's size can practically reach) within the configured tolerance and, for high targets, the phases have converged as far as configured; the measurement is what CurrentCoherence then reports. A swarm that already meets its goal is reported so at the first check and left alone. Otherwise the run gives up with an error after at most its configured number of rounds scaled by the target's difficulty (never more than a thousand), also for targets out of reach; a cancelled or expired context ends it with the context's error by the deadline, without touching agents if it never started. Whatever is drawn at random, a round keeps every phase on the circle and every frequency positive and touches nothing else of an agent.",
 ["inputs", "schedules", "histories"], "every initial phase, target and sequence of random draws; every configured number of rounds", "tests run a few random swarms for seconds and check that coherence improved, statistically",
 ["emerge/swarm/swarm.go", "emerge/swarm/goal_directed.go", "emerge/swarm/limits.go", "emerge/swarm/phase_convergence.go", "emerge/core/pattern.go", "emerge/completion/engine.go", "emerge/convergence/monitor.go"], [("Run", "emerge/swarm/swarm.go"), ("AchieveSynchronization", "emerge/swarm/goal_directed.go"), ("GetConvergenceTimeFactor", "emerge/swarm/limits.go")],
 ["swarm"], "^Run", "one or two agents; success: one symbolic phase, symbolic target, first check of a run (three goals); failure: symbolic number-of-rounds factor in [1,3], five targets, fixed draws; adjustments: all draws of one round from several concrete phase pairs and symbolic frequency, one goal (thorough: three); virtual time", [FP, TRIG, RAND], "whether and how fast a run converges; success after several rounds with symbolic phases; agents changed by others between a check and the return")
prop("P19", "Continuous runs end with their context and recover from any disruption",
 "RunContinuous returns only when its context ends, at that moment and with the context's error: neither success nor the failure of an attempt ends it. Whenever a swarm is disrupted, and whether earlier attempts succeeded or gave up, and whether through DisruptAgents or from outside, its agents are adjusted again within the minimum resynchronisation interval plus two check and two update intervals. Default recovery thresholds are positive and ordered for every target and tighten as targets grow.",
 ["schedules", "faults", "inputs"], "every moment of disruption and of cancellation, relative to all timers; every target", "tests disrupt at a few fixed moments with real time and loose expectations",
 ["emerge/swarm/swarm_continuous_run.go", "emerge/swarm/thresholds.go", "emerge/swarm/goal_directed.go", "emerge/monitoring/convergence.go"], [("RunContinuous/needsResync", "emerge/swarm/swarm_continuous_run.go"), ("DefaultRecoveryConfig", "emerge/swarm/swarm_continuous_run.go")],
 ["swarm"], "^Continuous", "two agents disrupted to opposite phases; disruption moment any nanosecond within 1.2 s (thorough: two successive disruptions), deadline any nanosecond up to 0.6 s: durations are symbolic and the order of timers is decided by the solver; default recovery configuration for a target of 0.8; fixed draws", [SC, FP], "custom recovery configurations; partial disruptions; how well recovery succeeds")
prop("P20", "Pattern scores are bounded and completion never moves away from its target",
 "The distance between two patterns is a score in [0,1], zero for equal ones, and larger than any score when one is missing. A phase or coherence gap is reported exactly when it exceeds its threshold, a frequency gap when it clearly does and not when it clearly does not, each at most once, naming the two values and with a severity in (0,1]. Completing a pattern moves its frequency and phase towards the matching template, or without one towards the target, and never past it.",
 ["inputs"], "every pair of patterns", "no test covers these packages",
 ["emerge/core/pattern.go", "emerge/completion/engine.go"], [("PatternDistance/IdentifyGaps", "emerge/core/pattern.go"), ("CompletePattern", "emerge/completion/engine.go")],
 ["monitor"], "^Pattern", "phases within three turns, frequencies of up to an hour, coherence in [0,1]; completion varies one quantity at a time; phase completion is decided away from the wrapping point", [FP, TRIG], "waveform gaps, which nothing reports; completion across the wrapping point beyond its range")
prop("P21", "Monitors report exactly what was recorded, under any interleaving",
 "After any sequence of measurements and resets, a convergence monitor reports the latest one, has converged exactly when that reaches the threshold, since when is the time it reports, and keeps the full history (handed out as a copy), extremes and statistics; rates have the sign of the change, stability is a score and predictions are made only while approaching the threshold and are never negative. Queries, measurements and resets in any interleaving end, and lose nothing. The history monitor keeps the latest hundred samples in order, with an average between the extremes. The distance-based monitor's progress is a score, it is neither converging nor stuck before it has enough samples, and reset forgets everything. Both copies of each monitor behave so.",
 ["inputs", "histories", "schedules"], "every sequence of a few measurements with every value and spacing; all interleavings with few pre-emptions", "tests record a few fixed sequences on one goroutine",
 ["emerge/monitoring/convergence.go", "emerge/monitoring/monitor.go", "internal/emerge/convergence.go", "internal/emerge/metrics.go", "emerge/convergence/monitor.go"], [("ConvergenceMonitor", "emerge/monitoring/convergence.go"), ("Monitor", "emerge/monitoring/monitor.go"), ("Monitor", "emerge/convergence/monitor.go")],
 ["monitor"], "^Monitor", "three measurements or resets (thorough: four) with symbolic values, threshold and spacing; two for estimates; up to 250 samples for the window with the boundary ones symbolic; two goroutines with two pre-emptions (thorough: three)", [FP, SC], "coherence values outside [0,1]; accuracy of predictions")
prop("P22", "Temporal patterns find and fill exactly their gaps and compare to bounded scores",
 "A temporal pattern's gaps are exactly its jumps of more than a quarter turn, in order, also when frequencies are missing. Completing a gap yields exactly the missing points, on the circle and between the gap's ends; an impossible gap yields nothing, without a panic. Similarity is a score in [0,1] and one for a pattern with itself, also without amplitude; patterns without a period match nothing. Both copies of the type behave so.",
 ["inputs"], "every short pattern and every pair of gap indices", "tests compare a handful of literal patterns",
 ["emerge/monitoring/patterns.go", "internal/emerge/pattern.go", "emerge/core/phase.go"], [("Detect/Complete/Similarity", "emerge/monitoring/patterns.go"), ("Detect/Complete/Similarity", "internal/emerge/pattern.go")],
 ["monitor"], "^Temporal", "patterns of up to four points with phases on the circle; gap indices all integers; similarity varies phases (one or two points) or amplitudes and periods", [FP, TRIG], "longer patterns; phases beyond one turn; template libraries")
prop("P23", "Basins pull to their centre with bounded force; random draws keep their range",
 "A basin's force lies between zero and its strength clamped to [0,1], is zero outside the basin and full at its centre (also for a basin without width); a state is inside exactly up to the radius; the convergence rate is bounded by the strength; the suggested adjustment points along the shorter way to the centre and never overshoots it. Whatever the system's random source delivers, random floats lie in [0,1), phases in [0,2π) and integers in [0,n), and a non-positive bound panics instead of looping.",
 ["inputs"], "every state on the circle, strength and radius; every byte sequence from the random source and every bound", "no test covers the basin; ranges are sampled",
 ["internal/emerge/basin.go", "internal/random/random.go"], [("AttractorBasin", "internal/emerge/basin.go"), ("Float64/Phase/Intn", "internal/random/random.go")],
 ["monitor"], "^(Basin|Random)", "phases on the circle, radius up to a half turn, every finite strength, frequencies of up to an hour; bounds up to 2^31-1, one rejected draw", [FP, TRIG, RAND], "states with negative phases, for which the basin deliberately doubles its force; uniformity of the random numbers")
