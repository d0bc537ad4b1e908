package main

// Solver back end: one live SMT process per worker; hard floating-point
// operators are abstracted by fresh constants constrained by sound axioms, and
// refined lazily (monotone cuts, point lemmas, exact definitions) until the
// query is unsat or a model evaluates correctly under real Go arithmetic.

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Stats struct {
	Queries, Sat, Unsat, Unknown  int64
	CegarRounds, Lemmas, CacheHit int64
	SolverNs                      int64
	SolverErrors                  int64
	RealUnsat, RealSat, LocalSat  int64
}

var gstats Stats // totals over all harnesses

// bump counts for the harness and for the whole run.
func bump(s *Solver, f func(*Stats) *int64, n int64) {
	atomic.AddInt64(f(s.st), n)
	if s.st != &gstats {
		atomic.AddInt64(f(&gstats), n)
	}
}

type Solver struct {
	c      *TermCtx
	bin    []string
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	lemmas map[*Term][]string
	exact  map[*Term]bool
	pairs  map[[2]int]bool
	st     *Stats
	models []Model // recently found true models (for feasibility shortcuts)
}

func newSolver(c *TermCtx) *Solver {
	return &Solver{c: c, st: &gstats, bin: solverCmd(), lemmas: map[*Term][]string{}, exact: map[*Term]bool{}, pairs: map[[2]int]bool{}}
}

func solverCmd() []string {
	if s := os.Getenv("VERIF_SOLVER"); s != "" {
		return strings.Fields(s)
	}
	if _, err := exec.LookPath("z3-new"); err == nil {
		return []string{"z3-new", "-in", "-smt2"}
	}
	return []string{"z3", "-in", "-smt2"}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	var err error
	s.in, err = s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.out = bufio.NewReaderSize(o, 1<<20)
	return nil
}
func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func name(t *Term) string {
	if t.op == OConst {
		return constLit(t)
	}
	if t.op == OVar {
		return "|" + t.name + "|"
	}
	return "n" + strconv.Itoa(t.id)
}

var rms = []string{"RTN", "RTP", "RTZ", "RNA", "RNE"}

// exactDef is the precise SMT definition of a term.
func exactDef(t *Term) string {
	a := func(i int) string { return name(t.args[i]) }
	switch t.op {
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", int(t.sort)-int(t.args[0].sort), a(0))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", int(t.sort)-int(t.args[0].sort), a(0))
	case OTrunc:
		return fmt.Sprintf("((_ extract %d 0) %s)", int(t.sort)-1, a(0))
	case OFpRnd:
		return fmt.Sprintf("(fp.roundToIntegral %s %s)", rms[t.k], a(0))
	case OBits2F:
		return fmt.Sprintf("((_ to_fp 11 53) %s)", a(0))
	case OFpAdd:
		return fmt.Sprintf("(fp.add RNE %s %s)", a(0), a(1))
	case OFpMul:
		return fmt.Sprintf("(fp.mul RNE %s %s)", a(0), a(1))
	case OFpDiv:
		return fmt.Sprintf("(fp.div RNE %s %s)", a(0), a(1))
	case OFpSqrt:
		return fmt.Sprintf("(fp.sqrt RNE %s)", a(0))
	case OS2F:
		return fmt.Sprintf("((_ to_fp 11 53) RNE %s)", a(0))
	case OU2F:
		return fmt.Sprintf("((_ to_fp_unsigned 11 53) RNE %s)", a(0))
	case OF2S:
		return fmt.Sprintf("(ite (and (fp.lt %s %s) (fp.leq %s %s)) ((_ fp.to_sbv 64) RTZ %s) #x8000000000000000)", a(0), fpLit(math.Float64bits(9223372036854775808.0)), fpLit(math.Float64bits(-9223372036854775808.0)), a(0), a(0))
	}
	n := opNames[t.op]
	if n == "" {
		return ""
	}
	var b strings.Builder
	b.WriteString("(" + n)
	for i := range t.args {
		b.WriteString(" " + a(i))
	}
	b.WriteString(")")
	return b.String()
}

const f0 = "(_ +zero 11 53)"

var f1 = fpLit(math.Float64bits(1))

func fl(f float64) string { return fpLit(math.Float64bits(f)) }

// axioms are facts about a hard operator valid for every argument.
func axioms(t *Term) []string {
	r := name(t)
	a := func(i int) string { return name(t.args[i]) }
	F := fmt.Sprintf
	switch t.op {
	case OFpAdd:
		x, y := a(0), a(1)
		return []string{
			F("(= (fp.isNaN %s) (or (fp.isNaN %s) (fp.isNaN %s) (and (fp.isInfinite %s) (fp.isInfinite %s) (not (= %s %s)))))", r, x, y, x, y, x, y),
			F("(or (fp.isNaN %s) (and (= (fp.lt %s %s) (fp.lt %s (fp.neg %s))) (= (fp.gt %s %s) (fp.gt %s (fp.neg %s)))))", r, r, f0, x, y, r, f0, x, y),
			F("(or (fp.isNaN %s) (and (=> (fp.geq %s %s) (fp.geq %s %s)) (=> (fp.leq %s %s) (fp.leq %s %s))))", r, y, f0, r, x, y, f0, r, x),
			F("(or (fp.isNaN %s) (and (=> (fp.geq %s %s) (fp.geq %s %s)) (=> (fp.leq %s %s) (fp.leq %s %s))))", r, x, f0, r, y, x, f0, r, y),
		}
	case OFpMul:
		x, y := a(0), a(1)
		ax := []string{
			F("(= (fp.isNaN %s) (or (fp.isNaN %s) (fp.isNaN %s) (and (fp.isInfinite %s) (fp.isZero %s)) (and (fp.isZero %s) (fp.isInfinite %s))))", r, x, y, x, y, x, y),
			F("(or (fp.isNaN %s) (= (fp.isNegative %s) (xor (fp.isNegative %s) (fp.isNegative %s))))", r, r, x, y),
			F("(=> (and (fp.isZero %s) (not (fp.isNaN %s))) (fp.isZero %s))", x, r, r),
			F("(=> (and (fp.isZero %s) (not (fp.isNaN %s))) (fp.isZero %s))", y, r, r),
		}
		for i := 0; i < 2; i++ {
			p, q := a(i), a(1-i)
			ax = append(ax,
				F("(=> (and (not (fp.isNaN %s)) (fp.leq (fp.abs %s) %s)) (fp.leq (fp.abs %s) (fp.abs %s)))", r, p, f1, r, q),
				F("(=> (and (not (fp.isNaN %s)) (fp.geq (fp.abs %s) %s)) (fp.geq (fp.abs %s) (fp.abs %s)))", r, p, f1, r, q))
		}
		return ax
	case OFpDiv:
		x, y := a(0), a(1)
		return []string{
			F("(= (fp.isNaN %s) (or (fp.isNaN %s) (fp.isNaN %s) (and (fp.isInfinite %s) (fp.isInfinite %s)) (and (fp.isZero %s) (fp.isZero %s))))", r, x, y, x, y, x, y),
			F("(or (fp.isNaN %s) (= (fp.isNegative %s) (xor (fp.isNegative %s) (fp.isNegative %s))))", r, r, x, y),
			F("(=> (and (fp.isZero %s) (not (fp.isNaN %s))) (fp.isZero %s))", x, r, r),
			F("(=> (and (fp.isZero %s) (not (fp.isNaN %s))) (fp.isInfinite %s))", y, r, r),
			F("(=> (and (not (fp.isNaN %s)) (fp.leq (fp.abs %s) %s)) (fp.geq (fp.abs %s) (fp.abs %s)))", r, y, f1, r, x),
			F("(=> (and (not (fp.isNaN %s)) (fp.geq (fp.abs %s) %s)) (fp.leq (fp.abs %s) (fp.abs %s)))", r, y, f1, r, x),
			F("(=> (and (not (fp.isNaN %s)) (fp.leq (fp.abs %s) (fp.abs %s))) (fp.leq (fp.abs %s) %s))", r, x, y, r, f1),
			F("(=> (and (not (fp.isNaN %s)) (fp.geq (fp.abs %s) (fp.abs %s))) (fp.geq (fp.abs %s) %s))", r, x, y, r, f1),
		}
	case OFpSqrt:
		x := a(0)
		var res []string
		if xs := resultant(t); xs != nil {
			lo, hi := resultantBounds(xs)
			res = append(res, F("(or (fp.isNaN %s) (and (fp.leq %s %s) (fp.leq %s %s)))", r, fl(lo), r, r, fl(hi)))
		}
		return append(res, []string{
			F("(= (fp.isNaN %s) (or (fp.isNaN %s) (fp.lt %s %s)))", r, x, x, f0),
			F("(or (fp.isNaN %s) (fp.geq %s %s))", r, r, f0),
			F("(=> (fp.isZero %s) (fp.isZero %s))", x, r),
			F("(=> (fp.gt %s %s) (fp.gt %s %s))", x, f0, r, f0),
			F("(=> (fp.geq %s %s) (and (fp.leq %s %s) (fp.geq %s %s)))", x, f1, r, x, r, f1),
			F("(=> (and (fp.geq %s %s) (fp.leq %s %s)) (and (fp.geq %s %s) (fp.leq %s %s)))", x, f0, x, f1, r, x, r, f1),
		}...)
	case OS2F:
		x := a(0)
		return []string{
			F("(not (fp.isNaN %s))", r),
			F("(= (bvslt %s #x0000000000000000) (fp.lt %s %s))", x, r, f0),
			F("(= (= %s #x0000000000000000) (= %s %s))", x, r, f0),
			F("(not (= %s (_ -zero 11 53)))", r),
			F("(= (bvsge %s #x0000000000000001) (fp.geq %s %s))", x, r, f1),
			F("(= (bvsge %s #x0000000000000002) (fp.geq %s %s))", x, r, fl(2)),
			F("(and (fp.leq %s %s) (fp.geq %s %s))", r, fl(9223372036854775808.0), r, fl(-9223372036854775808.0)),
		}
	case OU2F:
		x := a(0)
		return []string{
			F("(not (fp.isNaN %s))", r),
			F("(fp.geq %s %s)", r, f0),
			F("(not (= %s (_ -zero 11 53)))", r),
			F("(= (= %s #x0000000000000000) (= %s %s))", x, r, f0),
			F("(fp.leq %s %s)", r, fl(18446744073709551616.0)),
			F("(=> (bvult %s #x0020000000000000) (fp.lt %s %s))", x, r, fl(9007199254740992.0)),
		}
	case OF2S:
		x := a(0)
		in := F("(and (fp.lt %s %s) (fp.leq %s %s))", x, fl(9223372036854775808.0), fl(-9223372036854775808.0), x)
		return []string{
			F("(=> (not %s) (= %s #x8000000000000000))", in, r),
			F("(=> (and %s (fp.geq %s %s)) (bvsge %s #x0000000000000000))", in, x, f0, r),
			F("(=> (and %s (fp.leq %s %s)) (bvsle %s #x0000000000000000))", in, x, f0, r),
			F("(=> %s (= (fp.geq %s %s) (bvsge %s #x0000000000000001)))", in, x, f1, r),
			F("(=> %s (= (fp.leq %s %s) (bvsle %s #xffffffffffffffff)))", in, x, fl(-1), r),
		}
	case OFun:
		x := a(0)
		rng := func(lo, hi float64) []string {
			return []string{F("(or (fp.isNaN %s) (and (fp.leq %s %s) (fp.leq %s %s)))", r, fl(lo), r, r, fl(hi))}
		}
		nan1 := F("(= (fp.isNaN %s) (fp.isNaN %s))", r, x)
		switch t.name {
		case "sin", "cos":
			return append(rng(-1, 1), F("(= (fp.isNaN %s) (or (fp.isNaN %s) (fp.isInfinite %s)))", r, x, x))
		case "tanh":
			return append(rng(-1, 1), nan1)
		case "atan":
			return append(rng(-math.Pi/2, math.Pi/2), nan1)
		case "atan2":
			y := a(1)
			return append(rng(-math.Pi, math.Pi), F("(= (fp.isNaN %s) (or (fp.isNaN %s) (fp.isNaN %s)))", r, x, y),
				F("(=> (not (fp.isNaN %s)) (and (=> (fp.gt %s %s) (fp.geq %s %s)) (=> (fp.lt %s %s) (fp.leq %s %s))))", r, x, f0, r, f0, x, f0, r, f0))
		case "acos":
			return rng(0, math.Pi)
		case "asin":
			return rng(-math.Pi/2, math.Pi/2)
		case "exp":
			return []string{nan1, F("(or (fp.isNaN %s) (and (fp.leq %s %s) (not (fp.isNegative %s))))", r, f0, r, r),
				F("(=> (fp.leq %s %s) (fp.leq %s %s))", x, f0, r, f1),
				F("(=> (fp.geq %s %s) (fp.geq %s %s))", x, f0, r, f1)}
		case "mod":
			y := a(1)
			bad := F("(or (fp.isNaN %s) (fp.isNaN %s) (fp.isInfinite %s) (fp.isZero %s))", x, y, x, y)
			return []string{F("(= (fp.isNaN %s) %s)", r, bad),
				F("(or (fp.isNaN %s) (fp.lt (fp.abs %s) (fp.abs %s)))", r, r, y),
				F("(or (fp.isNaN %s) (= (fp.isNegative %s) (fp.isNegative %s)))", r, r, x),
				F("(or (fp.isNaN %s) (fp.leq (fp.abs %s) (fp.abs %s)))", r, r, x),
				F("(=> (and (not (fp.isNaN %s)) (fp.lt (fp.abs %s) (fp.abs %s))) (= %s %s))", r, x, y, r, x)}
		case "rem":
			y := a(1)
			bad := F("(or (fp.isNaN %s) (fp.isNaN %s) (fp.isInfinite %s) (fp.isZero %s))", x, y, x, y)
			return []string{F("(= (fp.isNaN %s) %s)", r, bad),
				F("(or (fp.isNaN %s) (fp.isInfinite %s) (fp.leq (fp.abs %s) (fp.abs %s)))", r, y, r, y)}
		case "hypot":
			y := a(1)
			return []string{F("(=> (not (or (fp.isNaN %s) (fp.isNaN %s))) (and (fp.geq %s (fp.abs %s)) (fp.geq %s (fp.abs %s))))", x, y, r, x, r, y)}
		}
	}
	return nil
}

// refine returns lemmas excluding the model's wrong value for t.
func refine(t *Term, av []uint64, tv uint64) []string {
	r := name(t)
	a := func(i int) string { return name(t.args[i]) }
	f := math.Float64frombits
	F := fmt.Sprintf
	nan := func(i int) bool { return f(av[i]) != f(av[i]) }
	tn := t.sort == SFP && f(tv) != f(tv)
	var out []string
	lit := func(i int) string { return constLit(&Term{op: OConst, sort: t.args[i].sort, k: av[i]}) }
	switch t.op {
	case OFpAdd:
		if !nan(0) && !nan(1) && !tn {
			cond := func(rel string) string {
				var cs []string
				for i := 0; i < 2; i++ {
					if !t.args[i].isConst() {
						cs = append(cs, F("(fp.%s %s %s)", rel, a(i), lit(i)))
					}
				}
				return "(and true " + strings.Join(cs, " ") + ")"
			}
			out = append(out, F("(=> %s (or (fp.isNaN %s) (fp.leq %s %s)))", cond("leq"), r, r, fpLit(tv)),
				F("(=> %s (or (fp.isNaN %s) (fp.geq %s %s)))", cond("geq"), r, r, fpLit(tv)))
		}
	case OFpMul, OFpDiv:
		if !nan(0) && !nan(1) && !tn {
			ab := math.Float64bits(math.Abs(f(tv)))
			rel := [2][2]string{{"leq", "geq"}, {"leq", "geq"}}
			if t.op == OFpDiv {
				rel[1] = [2]string{"geq", "leq"}
			}
			for d := 0; d < 2; d++ {
				cs := "(and true"
				for i := 0; i < 2; i++ {
					if !t.args[i].isConst() {
						cs += F(" (fp.%s (fp.abs %s) %s)", rel[i][d], a(i), fpLit(math.Float64bits(math.Abs(f(av[i])))))
					}
				}
				cs += ")"
				out = append(out, F("(=> %s (or (fp.isNaN %s) (fp.%s (fp.abs %s) %s)))", cs, r, rel[0][d], r, fpLit(ab)))
			}
		}
	case OFpSqrt:
		if !nan(0) && !tn {
			out = append(out, F("(=> (fp.leq %s %s) (or (fp.isNaN %s) (fp.leq %s %s)))", a(0), lit(0), r, r, fpLit(tv)),
				F("(=> (fp.geq %s %s) (fp.geq %s %s))", a(0), lit(0), r, fpLit(tv)))
		}
	case OS2F:
		out = append(out, F("(=> (bvsle %s %s) (fp.leq %s %s))", a(0), lit(0), r, fpLit(tv)),
			F("(=> (bvsge %s %s) (fp.geq %s %s))", a(0), lit(0), r, fpLit(tv)))
	case OU2F:
		out = append(out, F("(=> (bvule %s %s) (fp.leq %s %s))", a(0), lit(0), r, fpLit(tv)),
			F("(=> (bvuge %s %s) (fp.geq %s %s))", a(0), lit(0), r, fpLit(tv)))
	case OF2S:
		x := f(av[0])
		if x < 9223372036854775808.0 && x >= -9223372036854775808.0 {
			tl := F("#x%016x", tv)
			v := int64(tv)
			// cut at the integer cell [v, v+1) (or (v-1, v] below zero)
			if v >= 0 && v < 1<<53 {
				out = append(out, F("(=> (and (fp.geq %s %s) (fp.lt %s %s)) (= %s %s))", a(0), fl(func() float64 {
					if v == 0 {
						return 0
					}
					return float64(v)
				}()), a(0), fl(float64(v+1)), r, tl))
			}
			out = append(out, F("(=> (and (fp.leq %s %s) (fp.geq %s %s)) (bvsle %s %s))", a(0), lit(0), a(0), fl(-9223372036854775808.0), r, tl),
				F("(=> (and (fp.geq %s %s) (fp.lt %s %s)) (bvsge %s %s))", a(0), lit(0), a(0), fl(9223372036854775808.0), r, tl))
		}
	}
	// point lemma (always sound, always excludes this model)
	cs := "(and true"
	for i := range t.args {
		if !t.args[i].isConst() {
			cs += F(" (= %s %s)", a(i), lit(i))
		}
	}
	cs += ")"
	rl := constLit(&Term{op: OConst, sort: t.sort, k: tv})
	out = append(out, F("(=> %s (= %s %s))", cs, r, rl))
	return out
}

// pairLemma relates two applications of one monotone operator.
func pairLemma(p, q *Term) []string {
	F := fmt.Sprintf
	n := name
	r1, r2 := n(p), n(q)
	le := func(x, y *Term) string {
		if x == y {
			return "true"
		}
		return F("(fp.leq %s %s)", n(x), n(y))
	}
	ale := func(x, y *Term) string {
		if x == y {
			return "true"
		}
		return F("(fp.leq (fp.abs %s) (fp.abs %s))", n(x), n(y))
	}
	ok := F("(or (fp.isNaN %s) (fp.isNaN %s) ", r1, r2)
	switch p.op {
	case OFpAdd:
		var o []string
		for _, s := range [][4]int{{0, 0, 1, 1}, {0, 1, 1, 0}} {
			o = append(o, F("(=> (and %s %s) %s (fp.leq %s %s)))", le(p.args[s[0]], q.args[s[1]]), le(p.args[s[2]], q.args[s[3]]), ok, r1, r2),
				F("(=> (and %s %s) %s (fp.leq %s %s)))", le(q.args[s[1]], p.args[s[0]]), le(q.args[s[3]], p.args[s[2]]), ok, r2, r1))
		}
		return o
	case OFpMul:
		var o []string
		for _, s := range [][4]int{{0, 0, 1, 1}, {0, 1, 1, 0}} {
			o = append(o, F("(=> (and %s %s) %s (fp.leq (fp.abs %s) (fp.abs %s))))", ale(p.args[s[0]], q.args[s[1]]), ale(p.args[s[2]], q.args[s[3]]), ok, r1, r2),
				F("(=> (and %s %s) %s (fp.leq (fp.abs %s) (fp.abs %s))))", ale(q.args[s[1]], p.args[s[0]]), ale(q.args[s[3]], p.args[s[2]]), ok, r2, r1))
		}
		return o
	case OFpDiv:
		return []string{F("(=> (and %s %s) %s (fp.leq (fp.abs %s) (fp.abs %s))))", ale(p.args[0], q.args[0]), ale(q.args[1], p.args[1]), ok, r1, r2),
			F("(=> (and %s %s) %s (fp.leq (fp.abs %s) (fp.abs %s))))", ale(q.args[0], p.args[0]), ale(p.args[1], q.args[1]), ok, r2, r1)}
	case OFpSqrt:
		return []string{F("(=> (fp.leq %s %s) %s (fp.leq %s %s)))", n(p.args[0]), n(q.args[0]), ok, r1, r2),
			F("(=> (fp.leq %s %s) %s (fp.leq %s %s)))", n(q.args[0]), n(p.args[0]), ok, r2, r1)}
	case OFun:
		cs := ""
		for i := range p.args {
			if p.args[i] != q.args[i] {
				cs += F(" (= %s %s)", n(p.args[i]), n(q.args[i]))
			}
		}
		return []string{F("(=> (and true%s) (= %s %s))", cs, r1, r2)}
	case OS2F:
		return []string{F("(=> (bvsle %s %s) (fp.leq %s %s))", n(p.args[0]), n(q.args[0]), r1, r2),
			F("(=> (bvsle %s %s) (fp.leq %s %s))", n(q.args[0]), n(p.args[0]), r2, r1)}
	}
	return nil
}

func cone(ts []*Term) []*Term {
	var order []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || t.op == OConst {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			rec(a)
		}
		order = append(order, t)
	}
	for _, t := range ts {
		rec(t)
	}
	return order
}

type Result int

const (
	RUnknown Result = iota
	RSat
	RUnsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

// Check decides the conjunction. precise=true runs the refinement loop so that
// RSat comes with a model that really satisfies every constraint under Go
// arithmetic; precise=false answers RSat whenever the abstraction is
// satisfiable (enough for path pruning).
func (s *Solver) Check(cs []*Term, precise bool, budget time.Duration) (Result, Model) {
	var act []*Term
	for _, t := range cs {
		if t.isTrue() {
			continue
		}
		if t.isFalse() {
			return RUnsat, nil
		}
		act = append(act, t)
	}
	if len(act) == 0 {
		return RSat, Model{}
	}
	// try known models first
	for i := len(s.models) - 1; i >= 0; i-- {
		if satisfies(s.models[i], act) {
			bump(s, func(t *Stats) *int64 { return &t.CacheHit }, 1)
			return RSat, s.models[i]
		}
	}
	order := cone(act)
	var hard, vars []*Term
	for _, t := range order {
		if t.hard() {
			hard = append(hard, t)
		}
		if t.op == OVar {
			vars = append(vars, t)
		}
	}
	deadline := time.Now().Add(budget)
	bump(s, func(t *Stats) *int64 { return &t.Queries }, 1)
	maxRounds := 400
	if !precise {
		maxRounds = 3
	}
	triedReal := !precise || !wantsReal(hard)
	realStart := time.Now().Add(realAfter)
	var again func() Model // second local search, after the solvers had their chance
	var againAt time.Time
	for round := 0; round < maxRounds; round++ {
		left := time.Until(deadline)
		if left <= 0 {
			break
		}
		if !triedReal && (time.Now().After(realStart) || round > 40) {
			triedReal = true
			ls := newLSearch(order, act, s.models)
			local := func(d time.Duration) Model {
				if m := ls.search(min(d, time.Until(deadline))); m != nil && satisfies(m, act) {
					bump(s, func(t *Stats) *int64 { return &t.Sat }, 1)
					bump(s, func(t *Stats) *int64 { return &t.LocalSat }, 1)
					s.models = append(s.models, m)
					return m
				}
				return nil
			}
			if m := local(500 * time.Millisecond); m != nil {
				return RSat, m
			}
			un, m := s.realUnsat(order, act, vars, min(left, realBudget))
			if un {
				bump(s, func(t *Stats) *int64 { return &t.Unsat }, 1)
				return RUnsat, nil
			}
			if m != nil && satisfies(m, act) {
				bump(s, func(t *Stats) *int64 { return &t.Sat }, 1)
				bump(s, func(t *Stats) *int64 { return &t.RealSat }, 1)
				s.models = append(s.models, m)
				return RSat, m
			}
			again = func() Model { return local(5 * time.Second) }
			againAt = time.Now().Add(8 * time.Second)
			continue
		}
		if again != nil && time.Now().After(againAt) {
			f := again
			again = nil
			if m := f(); m != nil {
				return RSat, m
			}
			continue
		}
		next := realStart
		if again != nil {
			next = againAt
		}
		if !triedReal || again != nil {
			if l := time.Until(next) + 50*time.Millisecond; l < left {
				left = l
			}
		}
		var b strings.Builder
		b.WriteString("(reset)\n(set-option :produce-models true)\n")
		fmt.Fprintf(&b, "(set-option :timeout %d)\n", left.Milliseconds()+1)
		for _, t := range order {
			switch {
			case t.op == OVar:
				fmt.Fprintf(&b, "(declare-const |%s| %s)\n", t.name, t.sort)
			case t.op == OF2Bits:
				fmt.Fprintf(&b, "(declare-const %s (_ BitVec 64))\n(assert (= ((_ to_fp 11 53) %s) %s))\n", name(t), name(t), name(t.args[0]))
			case t.hard() && !s.exact[t]:
				fmt.Fprintf(&b, "(declare-const %s %s)\n", name(t), t.sort)
			default:
				fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", name(t), t.sort, exactDef(t))
			}
		}
		for _, t := range hard {
			if s.exact[t] {
				continue
			}
			for _, ax := range axioms(t) {
				fmt.Fprintf(&b, "(assert %s)\n", ax)
			}
			for _, l := range s.lemmas[t] {
				fmt.Fprintf(&b, "(assert %s)\n", l)
			}
		}
		for i := range hard {
			for j := i + 1; j < len(hard); j++ {
				if s.pairs[[2]int{hard[i].id, hard[j].id}] {
					for _, l := range pairLemma(hard[i], hard[j]) {
						fmt.Fprintf(&b, "(assert %s)\n", l)
					}
				}
			}
		}
		for _, t := range act {
			fmt.Fprintf(&b, "(assert %s)\n", name(t))
		}
		b.WriteString("(check-sat)\n")
		res, err := s.roundTrip(b.String(), left+2*time.Second)
		if err != nil || res != "sat" && res != "unsat" {
			if !triedReal {
				realStart = time.Time{}
				continue
			}
			if again != nil {
				againAt = time.Time{}
				continue
			}
			break
		}
		if res == "unsat" {
			bump(s, func(t *Stats) *int64 { return &t.Unsat }, 1)
			return RUnsat, nil
		}
		// fetch model
		want := map[*Term]bool{}
		var names []*Term
		add := func(t *Term) {
			if t.op != OConst && !want[t] {
				want[t] = true
				names = append(names, t)
			}
		}
		for _, t := range vars {
			add(t)
		}
		for _, t := range hard {
			add(t)
			for _, a := range t.args {
				add(a)
			}
		}
		if len(names) == 0 {
			return RUnknown, nil
		}
		var q strings.Builder
		q.WriteString("(get-value (")
		for _, t := range names {
			q.WriteString(name(t) + " ")
		}
		q.WriteString("))\n")
		vals, err := s.getValues(q.String(), len(names))
		if err != nil {
			break
		}
		mv := map[*Term]uint64{}
		for i, t := range names {
			mv[t] = vals[i]
		}
		m := Model{}
		for _, t := range vars {
			m[t.name] = mv[t]
		}
		if satisfies(m, act) {
			bump(s, func(t *Stats) *int64 { return &t.Sat }, 1)
			s.models = append(s.models, m)
			if len(s.models) > 24 {
				s.models = s.models[1:]
			}
			return RSat, m
		}
		if !precise && round == maxRounds-1 {
			bump(s, func(t *Stats) *int64 { return &t.Sat }, 1)
			return RSat, nil
		}
		bump(s, func(t *Stats) *int64 { return &t.CegarRounds }, 1)
		// refine
		valOf := func(t *Term) uint64 {
			if t.op == OConst {
				return t.k
			}
			return mv[t]
		}
		progress := false
		added := 0
		for _, t := range hard {
			if s.exact[t] {
				continue
			}
			av := make([]uint64, len(t.args))
			for i, a := range t.args {
				av[i] = valOf(a)
			}
			tv := applyOp(t, av)
			rv := mv[t]
			if t.sort == SFP {
				rv = canonNaN(math.Float64frombits(rv))
			}
			if tv == rv {
				continue
			}
			progress = true
			ls := refine(t, av, tv)
			s.lemmas[t] = append(s.lemmas[t], ls...)
			added += len(ls)
			bump(s, func(t *Stats) *int64 { return &t.Lemmas }, int64(len(ls)))
			if n := len(s.lemmas[t]); exactAfter(t) > 0 && n >= exactAfter(t) && precise {
				s.exact[t] = true
			}
			// pairs
			for _, u := range hard {
				if u == t || u.op != t.op || u.name != t.name {
					continue
				}
				p, q := t, u
				if pos(hard, p) > pos(hard, q) {
					p, q = q, p
				}
				k := [2]int{p.id, q.id}
				if s.pairs[k] {
					continue
				}
				share := false
				for _, x := range p.args {
					for _, y := range q.args {
						share = share || (x == y && !x.isConst()) || (x == y && x.isConst())
					}
				}
				if len(p.args) == 1 || share || (p.op == OFun) {
					s.pairs[k] = true
				}
			}
			if added > 60 {
				break
			}
		}
		if !progress {
			// all operator values right but evaluation disagrees: encoding bug
			bump(s, func(t *Stats) *int64 { return &t.SolverErrors }, 1)
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "ENCODING MISMATCH\n", b.String(), m)
			}
			return RUnknown, nil
		}
	}
	bump(s, func(t *Stats) *int64 { return &t.Unknown }, 1)
	return RUnknown, nil
}

func pos(h []*Term, t *Term) int {
	for i, x := range h {
		if x == t {
			return i
		}
	}
	return -1
}

func exactAfter(t *Term) int {
	switch t.op {
	case OFpAdd:
		return 24
	case OS2F, OU2F, OF2S:
		return 24
	case OFpMul:
		if t.args[1].isConst() {
			return 36
		}
		return 60
	case OFpDiv:
		return 90
	case OFpSqrt:
		return 90
	}
	return 0
}

func satisfies(m Model, cs []*Term) bool {
	e := m.newEval()
	for _, t := range cs {
		if e.eval(t) != 1 {
			return false
		}
	}
	return true
}

func (s *Solver) roundTrip(script string, wait time.Duration) (string, error) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return "", err
		}
	}
	t0 := time.Now()
	defer func() { bump(s, func(t *Stats) *int64 { return &t.SolverNs }, int64(time.Since(t0))) }()
	if d := os.Getenv("VERIF_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, atomic.LoadInt64(&s.st.Queries)), []byte(script), 0o644)
	}
	if os.Getenv("VERIF_SLOW") != "" {
		defer func() {
			if d := time.Since(t0); d > 3*time.Second {
				os.WriteFile(fmt.Sprintf("/tmp/slow/%d-%d.smt2", int(d.Seconds()), t0.UnixNano()), []byte(script), 0o644)
			}
		}()
	}
	kill := time.AfterFunc(wait, func() { s.cmd.Process.Kill() })
	defer kill.Stop()
	if _, err := io.WriteString(s.in, script); err != nil {
		s.stop()
		return "", err
	}
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.stop()
			return "", err
		}
		line = strings.TrimSpace(line)
		switch {
		case line == "sat" || line == "unsat" || line == "unknown" || line == "timeout":
			return line, nil
		case strings.HasPrefix(line, "(error"):
			bump(s, func(t *Stats) *int64 { return &t.SolverErrors }, 1)
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "SOLVER", line, "\n", script)
			}
			s.stop()
			return "", fmt.Errorf("%s", line)
		}
	}
}

func (s *Solver) rawValues(q string) (any, error) {
	if _, err := io.WriteString(s.in, q); err != nil {
		s.stop()
		return nil, err
	}
	// read one balanced s-expression
	depth := 0
	var b strings.Builder
	inBar := false
	for {
		ch, err := s.out.ReadByte()
		if err != nil {
			s.stop()
			return nil, err
		}
		b.WriteByte(ch)
		if ch == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if ch == '(' {
			depth++
		}
		if ch == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	txt := b.String()
	if strings.Contains(txt, "(error") {
		s.stop()
		return nil, fmt.Errorf("%s", txt)
	}
	x, _ := parseSexp(txt, 0)
	return x, nil
}

// wantsReal: the relaxation pays off when rounded operators are involved.
func wantsReal(hard []*Term) bool {
	for _, t := range hard {
		if t.sort == SFP {
			return true
		}
	}
	return false
}

var realAfter, realBudget = 1 * time.Second, 20 * time.Second

func (s *Solver) getValues(q string, n int) ([]uint64, error) {
	x, err := s.rawValues(q)
	if err != nil {
		return nil, err
	}
	l := x.([]any)
	if len(l) != n {
		return nil, fmt.Errorf("get-value size %d/%d", len(l), n)
	}
	out := make([]uint64, n)
	for i, e := range l {
		v, err := sexpVal(e.([]any)[1])
		if err != nil {
			return nil, err
		}
		out[i] = v
	}
	return out, nil
}

func parseSexp(s string, i int) (any, int) {
	for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\r' || s[i] == '\t') {
		i++
	}
	if s[i] == '(' {
		i++
		var l []any
		for {
			for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\r' || s[i] == '\t') {
				i++
			}
			if s[i] == ')' {
				return l, i + 1
			}
			var e any
			e, i = parseSexp(s, i)
			l = append(l, e)
		}
	}
	j := i
	if s[i] == '|' {
		j++
		for s[j] != '|' {
			j++
		}
		j++
		return s[i:j], j
	}
	for j < len(s) && !strings.ContainsRune(" \n\r\t()", rune(s[j])) {
		j++
	}
	return s[i:j], j
}

func bvLit(s string) (uint64, int, error) {
	if strings.HasPrefix(s, "#x") {
		v, err := strconv.ParseUint(s[2:], 16, 64)
		return v, 4 * (len(s) - 2), err
	}
	if strings.HasPrefix(s, "#b") {
		v, err := strconv.ParseUint(s[2:], 2, 64)
		return v, len(s) - 2, err
	}
	return 0, 0, fmt.Errorf("bv literal %q", s)
}

func sexpVal(e any) (uint64, error) {
	switch x := e.(type) {
	case string:
		if x == "true" {
			return 1, nil
		}
		if x == "false" {
			return 0, nil
		}
		v, _, err := bvLit(x)
		return v, err
	case []any:
		if len(x) == 4 && x[0] == "fp" {
			s, _, e1 := bvLit(x[1].(string))
			ex, _, e2 := bvLit(x[2].(string))
			m, _, e3 := bvLit(x[3].(string))
			if e1 != nil || e2 != nil || e3 != nil {
				return 0, fmt.Errorf("fp literal %v", x)
			}
			return s<<63 | ex<<52 | m, nil
		}
		if len(x) >= 2 && x[0] == "_" {
			switch x[1] {
			case "NaN":
				return 0x7FF8000000000001, nil
			case "+oo":
				return math.Float64bits(math.Inf(1)), nil
			case "-oo":
				return math.Float64bits(math.Inf(-1)), nil
			case "+zero":
				return 0, nil
			case "-zero":
				return 1 << 63, nil
			}
			if n := x[1].(string); strings.HasPrefix(n, "bv") {
				return strconv.ParseUint(n[2:], 10, 64)
			}
		}
	}
	return 0, fmt.Errorf("value %v", e)
}

var _ = sort.Ints
