package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type HarnessReport struct {
	Name         string         `json:"name"`
	Paths        int            `json:"paths"`
	PathEnds     map[string]int `json:"path_ends"`
	Steps        int            `json:"ssa_instructions_executed"`
	Obligations  int            `json:"obligations"`
	Discharged   int            `json:"obligations_discharged"`
	BySolver     int            `json:"discharged_by_solver"`
	ByFolding    int            `json:"discharged_by_folding"`
	Asserts      []string       `json:"assertions"`
	Queries      int64          `json:"queries"`
	Unsat        int64          `json:"unsat"`
	Sat          int64          `json:"sat"`
	Unknown      int64          `json:"unknown"`
	Rounds       int64          `json:"refinement_rounds"`
	RealUnsat    int64          `json:"refuted_in_real_relaxation"`
	LocalSat     int64          `json:"models_found_by_local_search"`
	SolverS      float64        `json:"solver_s"`
	WallS        float64        `json:"wall_s"`
	Reached      []string       `json:"reachability_witnesses"`
	Threads      int            `json:"max_threads"`
	Forks        map[string]int `json:"fork_points"`
	Inconclusive []string       `json:"inconclusive,omitempty"`
	Functions    []string       `json:"functions_encoded"`
}

type Confirmed struct {
	V      *ViolationRec
	How    string
	File   string
	Output string
}

type RunReport struct {
	Property, Tier string
	LoadError      string
	cfg            *PropCfg
	hs             []*HarnessReport
	confirmed      []*Confirmed
	unconfirmed    []*ViolationRec
	known          []string
	replayErr      []string
}

func (r *RunReport) add(e *Explorer, f *ssa.Function, d time.Duration) *HarnessReport {
	h := &HarnessReport{Name: f.Name(), Paths: e.paths, PathEnds: e.ends, Steps: e.steps, WallS: d.Seconds(), Threads: e.maxThreads, Forks: e.decKinds,
		Queries: e.stats.Queries, Unsat: e.stats.Unsat, Sat: e.stats.Sat, Unknown: e.stats.Unknown, Rounds: e.stats.CegarRounds, RealUnsat: e.stats.RealUnsat, LocalSat: e.stats.LocalSat, SolverS: float64(e.stats.SolverNs) / 1e9}
	for id, o := range e.obs {
		h.Asserts = append(h.Asserts, id)
		h.Obligations += o.trivial + o.proved + o.unknown
		h.Discharged += o.trivial + o.proved
		h.BySolver += o.proved
		h.ByFolding += o.trivial
	}
	sort.Strings(h.Asserts)
	for id := range e.reachd {
		h.Reached = append(h.Reached, id)
	}
	sort.Strings(h.Reached)
	for k, n := range e.incon {
		h.Inconclusive = append(h.Inconclusive, fmt.Sprintf("%s (x%d)", k, n))
	}
	sort.Strings(h.Inconclusive)
	if len(h.Reached) == 0 && len(e.viols) == 0 {
		h.Inconclusive = append(h.Inconclusive, "vacuous: no reachability witness")
		fmt.Println("   WARNING: vacuous harness", f.Name())
	}
	h.Functions = e.repoFns()
	r.hs = append(r.hs, h)
	return h
}

type finding struct {
	Property, Harness, Assert, Match, Text string
}

func loadFindings(path string) []finding {
	var fs []finding
	if path == "" {
		return nil
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		var f finding
		if json.Unmarshal([]byte(strings.TrimSpace(strings.TrimPrefix(l, "known:"))), &f) == nil {
			fs = append(fs, f)
		}
	}
	return fs
}

// replay runs every candidate against the natively compiled repository code.
func (r *RunReport) replay(e *Explorer, f *ssa.Function, hdir, work string, kf []finding) {
	done := map[string]bool{}
	for _, v := range e.viols {
		if done[v.ID] {
			continue
		}
		k := false
		for _, fd := range kf {
			if fd.Property == r.Property && fd.Harness == v.Harness && fd.Assert == v.ID {
				txt := fd.Text
				r.known = append(r.known, txt)
				k = true
			}
		}
		if k {
			continue
		}
		how, out, ok := nativeReplay(hdir, work, strings.TrimPrefix(f.Pkg.Pkg.Path(), modPath+"/internal/zzverif/"), v, r.Property)
		if ok {
			r.confirmed = append(r.confirmed, &Confirmed{v, how, "", out})
			done[v.ID] = true
		} else {
			r.unconfirmed = append(r.unconfirmed, v)
			r.replayErr = append(r.replayErr, fmt.Sprintf("%s/%s: %s", v.Harness, v.ID, tail(out, 600)))
			fmt.Printf("   candidate %s/%s did not reproduce natively: %s\n", v.Harness, v.ID, tail(out, 600))
		}
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// nativeReplay compiles the harness with the real repository code and feeds it
// the solver's assignment.
func nativeReplay(hdir, work, area string, v *ViolationRec, prop string) (string, string, bool) {
	dir, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		return "", err.Error(), false
	}
	defer os.RemoveAll(dir)
	rep := map[string]string{}
	base := filepath.Join(repoDir, "internal/zzverif")
	rep[filepath.Join(base, "vrt/vrt.go")] = filepath.Join(hdir, "vrt/vrt.go")
	fs, _ := filepath.Glob(filepath.Join(hdir, area, "*.go"))
	pkg := ""
	for _, g := range fs {
		rep[filepath.Join(base, area, filepath.Base(g))] = g
		if pkg == "" {
			b, _ := os.ReadFile(g)
			for _, l := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(l, "package ") {
					pkg = strings.TrimSpace(strings.TrimPrefix(l, "package "))
					break
				}
			}
		}
	}
	stress := v.Threads > 1 && len(v.Schedule) > 0
	test := fmt.Sprintf(`package %s

import (
	"testing"
	"testing/synctest"

	"%s"
)

func TestVerifReplay(t *testing.T) {
	vrt.RunReplay(t, %q, %v, %s, func(f func()) { synctest.Test(t, func(*testing.T) { f() }) })
}
`, pkg, vrtPath, filepath.Join(dir, "trace.json"), stress, v.Harness)
	tf := filepath.Join(dir, "replay_test.go")
	os.WriteFile(tf, []byte(test), 0o644)
	rep[filepath.Join(base, area, "zz_replay_test.go")] = tf
	ob, _ := json.Marshal(map[string]any{"Replace": rep})
	of := filepath.Join(dir, "overlay.json")
	os.WriteFile(of, ob, 0o644)
	tb, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(filepath.Join(dir, "trace.json"), tb, 0o644)
	if stress {
		if f2, err := instrument(dir, rep, v.Schedule); err == nil {
			ob, _ := json.Marshal(map[string]any{"Replace": f2})
			os.WriteFile(of, ob, 0o644)
		}
	}
	bin := filepath.Join(dir, "replay.test")
	build := func() ([]byte, error) {
		cmd := exec.Command("timeout", "-k", "5", "300", "go", "test", "-c", "-vet=off", "-overlay", of, "-o", bin, "./internal/zzverif/"+area)
		cmd.Dir = repoDir
		cmd.Env = goEnv()
		return cmd.CombinedOutput()
	}
	out, err := build()
	if err != nil && stress {
		// fall back to the uninstrumented tree
		ob, _ := json.Marshal(map[string]any{"Replace": rep})
		os.WriteFile(of, ob, 0o644)
		out, err = build()
	}
	if err != nil {
		return "", "build failed: " + string(out), false
	}
	cmd := exec.Command("timeout", "-k", "5", "150", bin, "-test.count=1", "-test.timeout=120s", "-test.run", "^TestVerifReplay$")
	cmd.Dir = dir
	cmd.Env = goEnv()
	out, _ = cmd.CombinedOutput()
	o := string(out)
	ok := false
	how := ""
	switch v.Kind {
	case "assertion":
		ok = strings.Contains(o, "VRT-ASSERT-FAILED "+v.ID)
		how = "assertion fails in the compiled program"
	case "panic":
		ok = strings.Contains(o, "VRT-PANIC") || strings.Contains(o, "panic: ") || strings.Contains(o, "fatal error:")
		how = "compiled program panics"
	case "deadlock", "hang":
		ok = strings.Contains(o, "VRT-HANG") || strings.Contains(o, "panic: test timed out") || strings.Contains(o, "deadlock")
		how = "compiled program does not terminate"
	}
	return how, o, ok
}

func (r *RunReport) finish(evid, work string, t0 time.Time) int {
	seen := map[string]bool{}
	for _, k := range r.known {
		if !seen[k] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Property, k)
			seen[k] = true
		}
	}
	code := 0
	if len(r.confirmed) > 0 {
		code = 1
		dir := filepath.Join(work, "replays")
		os.MkdirAll(dir, 0o755)
		for i, c := range r.confirmed {
			f := filepath.Join(dir, fmt.Sprintf("%s-%d.json", r.Property, i))
			b, _ := json.MarshalIndent(map[string]any{"property": r.Property, "counterexample": c.V, "confirmed": c.How, "native_output": tail(c.Output, 4000)}, "", " ")
			os.WriteFile(f, b, 0o644)
			c.File = f
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, f)
			fmt.Printf("  %s/%s %s at %s (%s)\n", c.V.Harness, c.V.ID, c.V.Msg, c.V.Pos, c.How)
		}
	}
	r.write(evid, t0)
	return code
}

func (r *RunReport) write(evid string, t0 time.Time) {
	var q, us, sa, un, rd int64
	var ss float64
	ob, di, bs, paths, steps := 0, 0, 0, 0, 0
	fset := map[string]bool{}
	var inc []string
	for _, h := range r.hs {
		q += h.Queries
		us += h.Unsat
		sa += h.Sat
		un += h.Unknown
		rd += h.Rounds
		ss += h.SolverS
		ob += h.Obligations
		di += h.Discharged
		bs += h.BySolver
		paths += h.Paths
		steps += h.Steps
		for _, f := range h.Functions {
			fset[f] = true
		}
		for _, i := range h.Inconclusive {
			inc = append(inc, h.Name+": "+i)
		}
	}
	if r.LoadError != "" {
		inc = append(inc, "the tree could not be encoded: "+r.LoadError)
	}
	for _, e := range r.replayErr {
		inc = append(inc, "candidate not reproduced natively: "+e)
	}
	var fns []string
	for f := range fset {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	seed := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	expl := "Symbolic execution of the repository's SSA (regenerated from the working tree on this run); every branch, index and assertion decided by an SMT solver over all input values within the bounds; counterexamples replayed against the compiled code."
	cov := map[string]any{
		"explanation": expl, "technique": "SSA-level symbolic execution + SMT (QF_BVFP with lazily refined floating-point operators)",
		"solver": strings.Join(solverCmd(), " "), "functions_encoded": fns, "functions_encoded_count": len(fns),
		"bounds": r.cfg.Bounds, "outside_bounds": r.cfg.Outside,
		"paths": paths, "ssa_instructions_executed": steps, "obligations": ob, "obligations_discharged": di, "obligations_discharged_by_solver": bs,
		"queries": q, "queries_unsat": us, "queries_sat": sa, "queries_unknown": un, "refinement_rounds": rd, "solver_s": ss,
		"solver_errors": gstats.SolverErrors, "harnesses": r.hs, "inconclusive": inc,
		"complete_within_bounds": len(inc) == 0, "candidates_confirmed": len(r.confirmed), "known_findings": r.known,
	}
	ev := map[string]any{"property": r.Property, "tier": r.Tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": len(r.confirmed), "assumptions": r.cfg.Assume}
	if evid != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(evid), 0o755)
		os.WriteFile(evid, b, 0o644)
	}
	if len(inc) > 0 {
		fmt.Printf("note: %d inconclusive item(s); see evidence\n", len(inc))
	}
	fmt.Printf("property %s: %d/%d obligations discharged, %d queries, %.1fs solver, %.1fs wall\n", r.Property, di, ob, q, ss, time.Since(t0).Seconds())
}
