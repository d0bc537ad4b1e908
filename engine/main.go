package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = "/repo"

// loadProgram type-checks the harness packages together with the current
// working tree of the repository and builds SSA for everything they reach.
func loadProgram(hdir string, areas []string) (*ssa.Program, []*ssa.Package, error) {
	ov := map[string][]byte{}
	add := func(src, dst string) error {
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		ov[dst] = b
		return nil
	}
	base := filepath.Join(repoDir, "internal/zzverif")
	if err := add(filepath.Join(hdir, "vrt/vrt.go"), filepath.Join(base, "vrt/vrt.go")); err != nil {
		return nil, nil, err
	}
	var pats []string
	for _, a := range areas {
		fs, _ := filepath.Glob(filepath.Join(hdir, a, "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			if err := add(f, filepath.Join(base, a, filepath.Base(f))); err != nil {
				return nil, nil, err
			}
		}
		pats = append(pats, modPath+"/internal/zzverif/"+a)
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repoDir,
		Overlay: ov,
		Fset:    token.NewFileSet(),
		Env:     goEnv(),
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, ps := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	return prog, ps, nil
}

func goEnv() []string {
	env := os.Environ()
	set := func(k, v string) {
		for i, e := range env {
			if strings.HasPrefix(e, k+"=") {
				env[i] = k + "=" + v
				return
			}
		}
		env = append(env, k+"="+v)
	}
	set("GOFLAGS", "-mod=mod")
	set("GOPROXY", "off")
	set("GOTOOLCHAIN", "local")
	set("GOWORK", "off")
	set("CGO_ENABLED", "0")
	if d := "/opt/veriftools/go1.25.14/bin"; dirExists(d) {
		set("PATH", d+":"+os.Getenv("PATH"))
	}
	return env
}
func dirExists(d string) bool { st, err := os.Stat(d); return err == nil && st.IsDir() }

type PropCfg struct {
	Property string   `json:"property"`
	Areas    []string `json:"areas"`
	Match    string   `json:"match"` // regexp over harness names
	Bounds   string   `json:"bounds"`
	Assume   []string `json:"assumptions"`
	Outside  string   `json:"outside"`
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick|thorough")
	only := flag.String("only", "", "regexp over harness names")
	hdir := flag.String("harness", "/verif/harness", "harness dir")
	evid := flag.String("evidence", "", "evidence file")
	work := flag.String("work", "", "scratch dir for replays")
	findings := flag.String("findings", "", "known findings file")
	budget := flag.Duration("budget", 0, "total budget")
	noReplay := flag.Bool("noreplay", false, "")
	flag.StringVar(&repoDir, "repo", "/repo", "")
	flag.Parse()
	t0 := time.Now()
	cfgs := map[string]*PropCfg{}
	b, err := os.ReadFile(filepath.Join(*hdir, "props.json"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var list []*PropCfg
	if err := json.Unmarshal(b, &list); err != nil {
		fmt.Fprintln(os.Stderr, "props.json:", err)
		os.Exit(3)
	}
	for _, c := range list {
		cfgs[c.Property] = c
	}
	cfg := cfgs[*prop]
	if cfg == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	tr := 0
	total := 700 * time.Second
	if *tier == "thorough" {
		tr = 1
		total = 3 * time.Hour
	}
	if *budget > 0 {
		total = *budget
	}
	run := &RunReport{Property: *prop, Tier: *tier, cfg: cfg}
	prog, pkgs, err := loadProgram(*hdir, cfg.Areas)
	if err != nil {
		// the tree cannot be encoded (for instance an API the harness drives
		// is gone): no verdict is possible
		run.LoadError = err.Error()
		fmt.Println("INCONCLUSIVE property=" + *prop + " cannot encode: " + firstLine(err.Error()))
		run.write(*evid, t0)
		os.Exit(0)
	}
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	re := regexp.MustCompile(cfg.Match)
	var fns []*ssa.Function
	for _, p := range pkgs {
		if p == nil {
			continue
		}
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			f, ok := p.Members[n].(*ssa.Function)
			if !ok || !re.MatchString(n) || len(f.Params) != 0 {
				continue
			}
			if *only != "" && !regexp.MustCompile(*only).MatchString(n) {
				continue
			}
			fns = append(fns, f)
		}
	}
	if len(fns) == 0 {
		fmt.Fprintln(os.Stderr, "no harness matches")
		os.Exit(3)
	}
	kf := loadFindings(*findings)
	for _, f := range kf {
		knownKeys[f.Harness+"/"+f.Assert] = true
	}
	// harnesses run side by side; cpu bounds the paths executed at once
	cpu = make(chan struct{}, runtime.NumCPU())
	es := make([]*Explorer, len(fns))
	walls := make([]time.Duration, len(fns))
	var wg sync.WaitGroup
	slots := make(chan struct{}, runtime.NumCPU())
	var pm sync.Mutex
	hrs := make([]*HarnessReport, len(fns))
	for i, f := range fns {
		wg.Add(1)
		slots <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-slots }()
			h0 := time.Now()
			e := newExplorer(prog, f, tr, time.Until(t0.Add(total)))
			e.Run(runtime.NumCPU())
			es[i], walls[i] = e, time.Since(h0)
			pm.Lock()
			defer pm.Unlock()
			hr := run.add(e, f, walls[i])
			hrs[i] = hr
			fmt.Printf("harness %-44s paths=%d %v obligations=%d/%d queries=%d rounds=%d real=%d local=%d %.1fs", f.Name(), e.paths, e.ends, hr.Discharged, hr.Obligations, e.stats.Queries, e.stats.CegarRounds, e.stats.RealUnsat, e.stats.LocalSat, walls[i].Seconds())
			if len(e.incon) > 0 {
				fmt.Printf(" INCONCLUSIVE %d", len(e.incon))
			}
			fmt.Println()
			for k, n := range e.incon {
				fmt.Printf("   inconclusive x%d: %s\n", n, k)
			}
			for _, v := range e.viols {
				fmt.Printf("   candidate %s/%s %s at %s\n", v.Harness, v.ID, v.Msg, v.Pos)
				for _, in := range v.Inputs {
					if in.Kind != "rand" {
						fmt.Printf("      %s = %s\n", in.Name, in.Text)
					}
				}
				for _, s := range v.Schedule {
					fmt.Printf("      %s\n", s)
				}
			}
		}()
	}
	wg.Wait()
	run.hs = hrs
	if !*noReplay {
		for i, f := range fns {
			run.replay(es[i], f, *hdir, *work, kf)
		}
	}
	code := run.finish(*evid, *work, t0)
	os.Exit(code)
}

var cpu chan struct{}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}
