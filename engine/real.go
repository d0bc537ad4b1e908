package main

// Real relaxation. A query that mixes floating-point operators with order
// constraints is relaxed to (non)linear real arithmetic: every float term t
// gets a real r_t and a flag n_t (NaN); infinities are the reals +-BIG; every
// rounded operator is bounded by the IEEE half-ulp error. Everything asserted
// here is implied by the exact semantics, so "unsat" carries over. A "sat" is
// only used as a source of candidate models, checked by evaluation.

import (
	"context"
	"fmt"
	"math"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"
)

func ratLit(f float64) string {
	r := new(big.Rat)
	r.SetFloat64(f)
	return ratS(r)
}

func ratS(r *big.Rat) string {
	r = new(big.Rat).Set(r)
	neg := r.Sign() < 0
	r.Abs(r)
	s := r.Num().String() + ".0"
	if !r.IsInt() {
		s = "(/ " + r.Num().String() + ".0 " + r.Denom().String() + ".0)"
	}
	if neg {
		s = "(- " + s + ")"
	}
	return s
}

func rr(t *Term) string {
	if t.op == OConst {
		f := t.f64()
		switch {
		case math.IsNaN(f):
			return "0.0"
		case math.IsInf(f, 1):
			return "BIG"
		case math.IsInf(f, -1):
			return "(- BIG)"
		}
		return ratLit(f)
	}
	return fmt.Sprintf("r%d", t.id)
}
func rn(t *Term) string {
	if t.op == OConst {
		if math.IsNaN(t.f64()) {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("m%d", t.id)
}
func rfin(t *Term) string {
	if t.op == OConst {
		f := t.f64()
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return "false"
		}
		return "true"
	}
	return fmt.Sprintf("f%d", t.id)
}

// strip removes operations that leave the real value alone.
func strip(t *Term) *Term {
	for {
		switch {
		case t.op == OFpAdd && t.args[0].isConst() && t.args[0].f64() == 0:
			t = t.args[1]
		case t.op == OFpAdd && t.args[1].isConst() && t.args[1].f64() == 0:
			t = t.args[0]
		case (t.op == OFpDiv || t.op == OFpMul) && t.args[1].isConst() && t.args[1].f64() == 1:
			t = t.args[0]
		case (t.op == OFpDiv && t.args[1].isConst() && t.args[1].f64() == 2 || t.op == OFpMul && t.args[1].isConst() && t.args[1].f64() == 0.5) && dup(t.args[0]) != nil:
			t = dup(t.args[0])
		default:
			return t
		}
	}
}
func dup(t *Term) *Term {
	if t.op == OFpAdd {
		if x, y := strip(t.args[0]), strip(t.args[1]); x == y && x.op == OFun {
			return x
		}
	}
	return nil
}

// isTrigPair recognises atan2(sin x, cos x) and returns x.
func isTrigPair(t *Term) *Term {
	if t.op == OFun && t.name == "atan2" {
		s, c := strip(t.args[0]), strip(t.args[1])
		if s.op == OFun && c.op == OFun && s.name == "sin" && c.name == "cos" && s.args[0] == c.args[0] {
			return s.args[0]
		}
	}
	return nil
}

// leaf is one weighted unit vector of a resultant (w nil: weight one).
type leaf struct{ w, x *Term }

// resultant recognises the length of a sum of weighted unit vectors,
// sqrt(C*C+S*S) with C = sum w_i*cos(x_i), S = sum w_i*sin(x_i).
func resultantW(t *Term) []leaf {
	var c, s *Term
	switch {
	case t.op == OFpSqrt && t.args[0].op == OFpAdd:
		p, q := t.args[0].args[0], t.args[0].args[1]
		if p.op != OFpMul || q.op != OFpMul || p.args[0] != p.args[1] || q.args[0] != q.args[1] {
			return nil
		}
		c, s = p.args[0], q.args[0]
	case t.op == OFun && t.name == "hypot":
		c, s = t.args[0], t.args[1]
	default:
		return nil
	}
	cs, cn := leaves(c)
	ss, sn := leaves(s)
	if cn == "sin" && sn == "cos" {
		cs, ss, cn, sn = ss, cs, sn, cn
	}
	if cn != "cos" || sn != "sin" || len(cs) != len(ss) {
		return nil
	}
	cnt := map[leaf]int{}
	for i := range cs {
		cnt[cs[i]]++
		cnt[ss[i]]--
	}
	for _, n := range cnt {
		if n != 0 {
			return nil
		}
	}
	return cs
}

// resultant is resultantW restricted to weights of one.
func resultant(t *Term) []*Term {
	var xs []*Term
	for _, l := range resultantW(t) {
		if l.w != nil {
			return nil
		}
		xs = append(xs, l.x)
	}
	return xs
}

// leaves flattens a sum of weighted sines (or cosines).
func leaves(t *Term) ([]leaf, string) {
	t = strip(t)
	trigf := func(t *Term) bool { return t.op == OFun && (t.name == "sin" || t.name == "cos") }
	switch {
	case trigf(t):
		return []leaf{{nil, t.args[0]}}, t.name
	case t.op == OFpMul && trigf(t.args[1]):
		return []leaf{{t.args[0], t.args[1].args[0]}}, t.args[1].name
	case t.op == OFpMul && trigf(t.args[0]):
		return []leaf{{t.args[1], t.args[0].args[0]}}, t.args[0].name
	case t.op == OFpAdd:
		a, n := leaves(t.args[0])
		b, m := leaves(t.args[1])
		if n != "" && n == m {
			return append(append([]leaf{}, a...), b...), n
		}
	}
	return nil, ""
}

// coneOpaque is cone, not looking inside resultants.
func coneOpaque(ts []*Term) []*Term {
	var order []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] || t.op == OConst {
			return
		}
		seen[t] = true
		if ls := resultantW(t); ls != nil {
			for _, l := range ls {
				rec(l.x)
				rec(l.w)
			}
		} else {
			for _, a := range t.args {
				rec(a)
			}
		}
		order = append(order, t)
	}
	for _, t := range ts {
		rec(t)
	}
	return order
}

// resultantBounds is the range of such a length (rounding included).
func resultantBounds(xs []*Term) (float64, float64) {
	n := float64(len(xs))
	same := true
	for _, x := range xs {
		same = same && x == xs[0]
	}
	if same {
		return n * (1 - 1e-12), n * (1 + 1e-12)
	}
	return 0, n * (1 + 1e-12)
}

// realScript emits the relaxation.
func realScript(order, act []*Term, ms int64, mode int) string {
	// modes: 0 error terms as bounded variables, 1 absolute error bounds with
	// exactness facts, 2 relative error bounds, 3 is 0 with resultants opaque
	lean, rel, opaque := mode == 0 || mode == 3, mode == 2, mode == 3
	if opaque {
		order = coneOpaque(act)
	}
	var post []string
	var b strings.Builder
	w := func(f string, a ...any) { fmt.Fprintf(&b, f+"\n", a...) }
	w("(reset)\n(set-option :produce-models true)\n(set-option :timeout %d)", ms)
	mx := new(big.Int)
	big.NewFloat(math.MaxFloat64).Int(mx)
	w("(define-fun MAX () Real %s.0)", mx.String())
	bg := new(big.Int).Lsh(big.NewInt(1), 1100)
	w("(define-fun BIG () Real %s.0)", bg.String())
	w("(define-fun U () Real (/ 1.0 9007199254740992.0))")
	w("(define-fun ETA () Real (/ 1.0 1%s.0))", strings.Repeat("0", 300))
	w("(define-fun rabs ((x Real)) Real (ite (< x 0.0) (- x) x))")
	w("(define-fun rnd ((r Real) (e Real)) Bool (and (<= (- r e) (* U (rabs e))) (<= (- e r) (* U (rabs e)))))")
	w("(define-fun rnde ((r Real) (e Real)) Bool (and (<= (- r e) (+ ETA (* U (rabs e)))) (<= (- e r) (+ ETA (* U (rabs e))))))")
	as := func(f string, a ...any) { w("(assert "+f+")", a...) }
	declF := func(t *Term) {
		w("(declare-const r%d Real)\n(declare-const m%d Bool)", t.id, t.id)
		w("(define-fun f%d () Bool (and (not m%d) (<= r%d MAX) (>= r%d (- MAX))))", t.id, t.id, t.id, t.id)
		as("(or m%d f%d (= r%d BIG) (= r%d (- BIG)))", t.id, t.id, t.id, t.id)
	}
	trig := map[*Term][2]*Term{}
	iv, sf := intervals(order, act)
	trigSeen := []*Term{}
	// err bounds the rounding of t's exact value: absolute when a bound on the
	// value is known (simpler for the solver), else relative.
	rnd := func(t *Term, exact string, sub bool) string {
		r := rr(t)
		if v, ok := iv[t]; ok && !rel && v.mag() < 1e100 {
			k := ratLit(v.mag()*2.3e-16 + 1e-300)
			return fmt.Sprintf("(and (<= (- %s %s) %s) (<= (- %s %s) %s))", r, exact, k, exact, r, k)
		}
		if sub {
			return fmt.Sprintf("(rnde %s %s)", r, exact)
		}
		return fmt.Sprintf("(rnd %s %s)", r, exact)
	}
	for _, t := range order {
		if ls := resultantW(t); ls != nil && resultant(t) == nil {
			pre, sum, same := "(and", "(+ 0.0", true
			var first *Term
			for _, l := range ls {
				w := "1.0"
				if l.w != nil {
					pre += fmt.Sprintf(" %s (>= %s 0.0) (<= %s 1000000000000.0)", rfin(l.w), rr(l.w), rr(l.w))
					w = rr(l.w)
				}
				pre += " " + rfin(l.x)
				sum += " " + w
				if l.w != nil && isZero(l.w) {
					continue
				}
				if first == nil {
					first = l.x
				}
				same = same && l.x == first
			}
			sum += ")"
			post = append(post, fmt.Sprintf("(=> %s) (<= %s (+ 0.000000000000000000000000000001 (* 1.000000000001 %s))))", pre, rr(t), sum))
			if same {
				post = append(post, fmt.Sprintf("(=> (and %s) (>= %s 0.000001)) (>= %s (* 0.999999999999 %s)))", pre, sum, rr(t), sum))
			}
		}
		if v, ok := iv[t]; ok && !rel && t.sort == SFP && t.op != OConst && !math.IsInf(v.lo, 0) && !math.IsInf(v.hi, 0) {
			defer1 := fmt.Sprintf("(=> (not %s) (and (<= %s %s) (<= %s %s)))", rn(t), ratLit(v.lo), rr(t), rr(t), ratLit(v.hi))
			post = append(post, defer1)
		}
		a := func(i int) *Term { return t.args[i] }
		switch {
		case t.op == OConst:
		case t.sort == SFP:
			switch t.op {
			case OIte:
				w("(define-fun r%d () Real (ite %s %s %s))", t.id, name(a(0)), rr(a(1)), rr(a(2)))
				w("(define-fun m%d () Bool (ite %s %s %s))", t.id, name(a(0)), rn(a(1)), rn(a(2)))
				w("(define-fun f%d () Bool (ite %s %s %s))", t.id, name(a(0)), rfin(a(1)), rfin(a(2)))
				continue
			case OFpNeg:
				w("(define-fun r%d () Real (- %s))", t.id, rr(a(0)))
				w("(define-fun m%d () Bool %s)", t.id, rn(a(0)))
				w("(define-fun f%d () Bool %s)", t.id, rfin(a(0)))
				continue
			case OFpAbs:
				w("(define-fun r%d () Real (rabs %s))", t.id, rr(a(0)))
				w("(define-fun m%d () Bool %s)", t.id, rn(a(0)))
				w("(define-fun f%d () Bool %s)", t.id, rfin(a(0)))
				continue
			}
			sure := sf[t] && lean && (iv[t].mag() < 1e100 || t.op != OFpAdd && t.op != OFpMul && t.op != OFpDiv)
			if opaque && resultantW(t) != nil {
				if sure {
					w("(define-fun m%d () Bool false)\n(define-fun f%d () Bool true)\n(declare-const r%d Real)", t.id, t.id, t.id)
				} else {
					declF(t)
				}
				if xs := resultant(t); xs != nil {
					pre := "(and true"
					for _, x := range xs {
						pre += " " + rfin(x)
					}
					lo, hi := resultantBounds(xs)
					as("(=> %s) (and f%d (<= %s %s) (<= %s %s)))", pre, t.id, ratLit(lo), rr(t), rr(t), ratLit(hi))
				}
				continue
			}
			if sure {
				w("(define-fun m%d () Bool false)\n(define-fun f%d () Bool true)", t.id, t.id)
				exact := ""
				k := iv[t].mag()*2.3e-16 + 1e-300
				switch t.op {
				case OFpAdd:
					exact = fmt.Sprintf("(+ %s %s)", rr(a(0)), rr(a(1)))
					if isZero(a(0)) || isZero(a(1)) || strip(a(0)) == strip(a(1)) {
						k = 0
					}
				case OFpMul:
					exact = fmt.Sprintf("(* %s %s)", rr(a(0)), rr(a(1)))
					k = pow2Err(k, a(0), a(1))
				case OFpDiv:
					if a(1).isConst() {
						exact = fmt.Sprintf("(/ %s %s)", rr(a(0)), rr(a(1)))
						k = pow2Err(k, a(1), nil)
					} else {
						w("(declare-const e%d Real)", t.id)
						as("(= (* e%d %s) %s)", t.id, rr(a(1)), rr(a(0)))
						exact = fmt.Sprintf("e%d", t.id)
					}
				case OFpSqrt:
					w("(declare-const e%d Real)", t.id)
					as("(and (>= e%d 0.0) (= (* e%d e%d) %s))", t.id, t.id, t.id, rr(a(0)))
					exact = fmt.Sprintf("e%d", t.id)
				}
				if exact != "" {
					if k == 0 {
						w("(define-fun r%d () Real %s)", t.id, exact)
					} else {
						w("(declare-const d%d Real)", t.id)
						as("(and (<= d%d %s) (>= d%d (- %s)))", t.id, ratLit(k), t.id, ratLit(k))
						w("(define-fun r%d () Real (+ %s d%d))", t.id, exact, t.id)
					}
					if t.op == OFpMul && !a(0).isConst() && !a(1).isConst() {
						for _, p := range [][2]*Term{{a(0), a(1)}, {a(1), a(0)}} {
							y := iv[p[1]]
							l, h, x, kk := ratLit(y.lo), ratLit(y.hi), rr(p[0]), ratLit(k)
							as("(=> (>= %s 0.0) (and (<= (- (* %s %s) %s) r%d) (<= r%d (+ (* %s %s) %s))))", x, l, x, kk, t.id, t.id, h, x, kk)
							as("(=> (<= %s 0.0) (and (<= (- (* %s %s) %s) r%d) (<= r%d (+ (* %s %s) %s))))", x, h, x, kk, t.id, t.id, l, x, kk)
						}
					}
					if t.op == OFpMul {
						for _, p := range [][2]*Term{{a(0), a(1)}, {a(1), a(0)}} {
							if q := iv[p[0]]; !p[0].isConst() && q.lo >= 0 && q.hi <= 1 {
								as("(<= (rabs r%d) (rabs %s))", t.id, rr(p[1]))
							}
						}
					}
					continue
				}
				w("(declare-const r%d Real)", t.id)
			} else {
				declF(t)
			}
			r := rr(t)
			switch t.op {
			case OFpAdd:
				x, y := a(0), a(1)
				ff := fmt.Sprintf("(and %s %s)", rfin(x), rfin(y))
				e := fmt.Sprintf("(+ %s %s)", rr(x), rr(y))
				w("(define-fun e%d () Real %s)", t.id, e)
				as("(=> (and %s (<= (rabs e%d) MAX)) (and f%d %s))", ff, t.id, t.id, rnd(t, fmt.Sprintf("e%d", t.id), false))
				as("(=> %s (not m%d))", ff, t.id)
				as("(=> (and %s (= %s 0.0)) (= %s %s))", ff, rr(x), r, rr(y))
				as("(=> (and %s (= %s 0.0)) (= %s %s))", ff, rr(y), r, rr(x))
				// Sterbenz
				as("(=> (and %s (or (and (<= %s 0.0) (>= %s 0.0)) (and (>= %s 0.0) (<= %s 0.0))) (<= (rabs %s) (* 2.0 (rabs %s))) (<= (rabs %s) (* 2.0 (rabs %s)))) (= %s e%d))",
					ff, rr(x), rr(y), rr(x), rr(y), rr(x), rr(y), rr(y), rr(x), r, t.id)
				// monotone rounding against the operands themselves
				as("(=> (and %s (>= %s 0.0)) (>= %s %s))", ff, rr(y), r, rr(x))
				as("(=> (and %s (<= %s 0.0)) (<= %s %s))", ff, rr(y), r, rr(x))
				as("(=> (and %s (>= %s 0.0)) (>= %s %s))", ff, rr(x), r, rr(y))
				as("(=> (and %s (<= %s 0.0)) (<= %s %s))", ff, rr(x), r, rr(y))
				if strip(x) == strip(y) {
					as("(=> (and %s (<= (rabs e%d) MAX)) (= %s e%d))", ff, t.id, r, t.id)
				}
			case OFpMul:
				x, y := a(0), a(1)
				ff := fmt.Sprintf("(and %s %s)", rfin(x), rfin(y))
				w("(define-fun e%d () Real (* %s %s))", t.id, rr(x), rr(y))
				as("(=> (and %s (<= (rabs e%d) MAX)) (and f%d %s))", ff, t.id, t.id, rnd(t, fmt.Sprintf("e%d", t.id), true))
				as("(=> %s (not m%d))", ff, t.id)
				as("(=> (and %s (or (= %s 0.0) (= %s 0.0))) (= %s 0.0))", ff, rr(x), rr(y), r)
				for _, p := range [][2]*Term{{x, y}, {y, x}} {
					if !p[0].isConst() {
						as("(=> (and %s (= %s 1.0)) (= %s %s))", ff, rr(p[0]), r, rr(p[1]))
						as("(=> (and %s (<= 0.0 %s) (<= %s 1.0)) (and (<= (rabs %s) (rabs %s)) (=> (>= %s 0.0) (>= %s 0.0)) (=> (<= %s 0.0) (<= %s 0.0))))", ff, rr(p[0]), rr(p[0]), r, rr(p[1]), rr(p[1]), r, rr(p[1]), r)
					}
				}
				if x == y {
					as("(=> (not m%d) (>= %s 0.0))", t.id, r)
				}
			case OFpDiv:
				x, y := a(0), a(1)
				ff := fmt.Sprintf("(and %s %s (not (= %s 0.0)))", rfin(x), rfin(y), rr(y))
				if y.isConst() && y.f64() != 0 && !math.IsInf(y.f64(), 0) && !math.IsNaN(y.f64()) {
					w("(define-fun e%d () Real (/ %s %s))", t.id, rr(x), rr(y))
				} else {
					w("(declare-const e%d Real)", t.id)
					as("(=> %s (= (* e%d %s) %s))", ff, t.id, rr(y), rr(x))
				}
				as("(=> (and %s (<= (rabs e%d) MAX)) (and f%d %s))", ff, t.id, t.id, rnd(t, fmt.Sprintf("e%d", t.id), true))
				as("(=> %s (not m%d))", ff, t.id)
				as("(=> (and %s (= %s 0.0)) (= %s 0.0))", ff, rr(x), r)
				as("(=> (and %s (= %s %s)) (= %s 1.0))", ff, rr(x), rr(y), r)
			case OFpSqrt:
				x := a(0)
				if xs := resultant(t); xs != nil {
					pre := "(and"
					for _, x := range xs {
						pre += " " + rfin(x)
					}
					lo, hi := resultantBounds(xs)
					as("(=> %s) (and f%d (<= %s %s) (<= %s %s)))", pre, t.id, ratLit(lo), r, r, ratLit(hi))
				}
				w("(declare-const e%d Real)", t.id)
				as("(=> (and %s (>= %s 0.0)) (and (>= e%d 0.0) (= (* e%d e%d) %s) f%d (>= %s 0.0) %s))", rfin(x), rr(x), t.id, t.id, t.id, rr(x), t.id, r, rnd(t, fmt.Sprintf("e%d", t.id), false))
				as("(=> (and (not %s) (= %s 0.0)) (= %s 0.0))", rn(x), rr(x), r)
				as("(=> (and (not %s) (= %s 1.0)) (= %s 1.0))", rn(x), rr(x), r)
				as("(=> (and (not %s) (>= %s 0.0)) (not m%d))", rn(x), rr(x), t.id)
			case OFpRnd:
				x := a(0)
				as("(=> %s (and f%d (<= (- %s %s) 1.0) (<= (- %s %s) 1.0)))", rfin(x), t.id, r, rr(x), rr(x), r)
				// integral values: floor and ceil of a float are exact
				fl := fmt.Sprintf("(to_real (to_int %s))", rr(x))
				ce := fmt.Sprintf("(- (to_real (to_int (- %s))))", rr(x))
				switch t.k {
				case 0:
					as("(=> %s (= %s %s))", rfin(x), r, fl)
				case 1:
					as("(=> %s (= %s %s))", rfin(x), r, ce)
				case 2:
					as("(=> %s (= %s (ite (>= %s 0.0) %s %s)))", rfin(x), r, rr(x), fl, ce)
				}
				switch t.k {
				case 0:
					as("(=> %s (<= %s %s))", rfin(x), r, rr(x))
				case 1:
					as("(=> %s (>= %s %s))", rfin(x), r, rr(x))
				case 2:
					as("(=> %s (and (<= (rabs %s) (rabs %s)) (=> (>= %s 0.0) (>= %s 0.0)) (=> (<= %s 0.0) (<= %s 0.0))))", rfin(x), r, rr(x), rr(x), r, rr(x), r)
				}
			case OS2F:
				as("(and f%d (<= %s 9223372036854775808.0) (>= %s (- 9223372036854775808.0)))", t.id, r, r)
				as("(=> (bvsge %s #x0000000000000000) (>= %s 0.0))", name(a(0)), r)
				as("(=> (bvsle %s #x0000000000000000) (<= %s 0.0))", name(a(0)), r)
			case OU2F:
				as("(and f%d (>= %s 0.0) (<= %s 18446744073709551616.0))", t.id, r, r)
				if a(0).op == OBvAnd || a(0).op == OBvLshr {
					for _, z := range a(0).args {
						if z.isConst() && a(0).op == OBvAnd {
							as("(<= %s %s)", r, ratLit(float64(z.k)))
						}
					}
				}
			case OFun:
				x := a(0)
				switch t.name {
				case "sin", "cos":
					as("(=> %s (and f%d (<= %s 1.0) (>= %s (- 1.0))))", rfin(x), t.id, r, r)
					p := trig[x]
					if t.name == "sin" {
						p[0] = t
					} else {
						p[1] = t
					}
					trig[x] = p
					if p[0] != nil && p[1] != nil {
						w("(define-fun q%d () Real (+ (* %s %s) (* %s %s)))", t.id, rr(p[0]), rr(p[0]), rr(p[1]), rr(p[1]))
						as("(=> %s (and (<= q%d 1.00000000000001) (>= q%d 0.99999999999999)))", rfin(x), t.id, t.id)
						// unit vectors: their products are at most one
						for _, o := range trigSeen {
							if len(trigSeen) > 4 {
								break
							}
							po := trig[o]
							u := fmt.Sprintf("(+ (* %s %s) (* %s %s))", rr(po[0]), rr(p[0]), rr(po[1]), rr(p[1]))
							as("(=> (and %s %s) (and (<= %s 1.00000000000001) (>= %s (- 1.00000000000001))))", rfin(x), rfin(o), u, u)
						}
						trigSeen = append(trigSeen, x)
					}
					if t.name == "sin" {
						as("(=> (and (not %s) (= %s 0.0)) (= %s 0.0))", rn(x), rr(x), r)
					} else {
						as("(=> (and (not %s) (= %s 0.0)) (= %s 1.0))", rn(x), rr(x), r)
					}
				case "atan2":
					pi := ratLit(math.Pi)
					y, z := a(0), a(1)
					as("(=> (and (not %s) (not %s)) (and f%d (<= %s %s) (>= %s (- %s))))", rn(y), rn(z), t.id, r, pi, r, pi)
					as("(=> (and (not %s) (not %s) (> %s 0.0)) (>= %s 0.0))", rn(y), rn(z), rr(y), r)
					as("(=> (and (not %s) (not %s) (< %s 0.0)) (<= %s 0.0))", rn(y), rn(z), rr(y), r)
					as("(=> (and (not %s) (not %s) (> %s 0.0)) (<= (rabs %s) %s))", rn(y), rn(z), rr(z), r, ratLit(math.Pi/2))
					if x := isTrigPair(t); x != nil {
						// accuracy of the library composition, 1e-9
						for k := -3; k <= 3; k++ {
							lo := ratLit(float64(2*k-1)*math.Pi + 1e-7)
							hi := ratLit(float64(2*k+1)*math.Pi - 1e-7)
							sh := ratLit(float64(2*k) * math.Pi)
							as("(=> (and %s (<= %s %s) (<= %s %s)) (and (<= (- %s (- %s %s)) 0.000000001) (>= (- %s (- %s %s)) (- 0.000000001))))", rfin(x), lo, rr(x), rr(x), hi, r, rr(x), sh, r, rr(x), sh)
						}
						for k := -3; k <= 2; k++ {
							lo := ratLit(float64(2*k+1)*math.Pi - 1e-6)
							hi := ratLit(float64(2*k+1)*math.Pi + 1e-6)
							as("(=> (and %s (<= %s %s) (<= %s %s)) (>= (rabs %s) 3.141591))", rfin(x), lo, rr(x), rr(x), hi, r)
						}
						as("(=> (and (not %s) (= %s 0.0)) (= %s 0.0))", rn(x), rr(x), r)
					}
				case "mod":
					y := a(1)
					if y.isConst() && y.f64() > 0 && !math.IsInf(y.f64(), 0) {
						c := y.f64()
						as("(=> %s (and f%d (< (rabs %s) %s) (=> (>= %s 0.0) (>= %s 0.0)) (=> (<= %s 0.0) (<= %s 0.0))))", rfin(x), t.id, r, ratLit(c), rr(x), r, rr(x), r)
						const m = 4
						cur := fmt.Sprintf("(rabs %s)", rr(x))
						for i := m; i >= 0; i-- {
							w("(define-fun s%d_%d () Real %s)", t.id, i, cur)
							step := ratLit(math.Ldexp(c, i))
							cur = fmt.Sprintf("(ite (>= s%d_%d %s) (- s%d_%d %s) s%d_%d)", t.id, i, step, t.id, i, step, t.id, i)
						}
						w("(define-fun s%d () Real %s)", t.id, cur)
						as("(=> (and %s (< (rabs %s) %s)) (= %s (ite (>= %s 0.0) s%d (- s%d))))", rfin(x), rr(x), ratLit(math.Ldexp(c, m+1)), r, rr(x), t.id, t.id)
					}
				case "rem":
					y := a(1)
					if y.isConst() && y.f64() > 0 && !math.IsInf(y.f64(), 0) {
						c := y.f64()
						as("(=> %s (and f%d (<= (rabs %s) %s)))", rfin(x), t.id, r, ratLit(c/2))
						alt := "(or"
						for k := -8; k <= 8; k++ {
							kc := new(big.Rat).Mul(new(big.Rat).SetInt64(int64(k)), new(big.Rat).SetFloat64(c))
							alt += fmt.Sprintf(" (= %s (- %s %s))", r, rr(x), ratS(kc))
						}
						as("(=> (and %s (<= (rabs %s) %s)) %s))", rfin(x), rr(x), ratLit(c*7), alt)
					}
				case "exp":
					as("(=> (not %s) (and (not m%d) (>= %s 0.0)))", rn(x), t.id, r)
					as("(=> (and %s (<= %s 0.0)) (and f%d (<= %s 1.0)))", rfin(x), rr(x), t.id, r)
					as("(=> (and %s (>= %s 0.0)) (>= %s 1.0))", rfin(x), rr(x), r)
				}
			}
		case t.op == OVar:
			w("(declare-const |%s| %s)", t.name, t.sort)
		case t.op == OF2Bits || t.op == OF2S:
			w("(declare-const %s %s)", name(t), t.sort)
			if t.op == OF2S {
				x := a(0)
				as("(=> (and %s (>= %s 0.0) (<= %s 9000000000000000000.0)) (bvsge %s #x0000000000000000))", rfin(x), rr(x), rr(x), name(t))
				as("(=> (and %s (<= %s 0.0) (>= %s (- 9000000000000000000.0))) (bvsle %s #x0000000000000000))", rfin(x), rr(x), rr(x), name(t))
			}
		case t.op == OFpLt, t.op == OFpLe, t.op == OFpEq:
			o := map[Op]string{OFpLt: "<", OFpLe: "<=", OFpEq: "="}[t.op]
			w("(define-fun %s () Bool (and (not %s) (not %s) (%s %s %s)))", name(t), rn(a(0)), rn(a(1)), o, rr(a(0)), rr(a(1)))
		case t.op == OFpIsNaN:
			w("(define-fun %s () Bool %s)", name(t), rn(a(0)))
		case t.op == OFpIsInf:
			w("(define-fun %s () Bool (and (not %s) (not %s)))", name(t), rn(a(0)), rfin(a(0)))
		case t.op == OFpSame:
			w("(declare-const %s Bool)", name(t))
			same := fmt.Sprintf("(or (and %s %s) (and (not %s) (not %s) (= %s %s)))", rn(a(0)), rn(a(1)), rn(a(0)), rn(a(1)), rr(a(0)), rr(a(1)))
			as("(=> %s %s)", name(t), same)
			as("(=> (and %s (not (= %s 0.0))) %s)", same, rr(a(0)), name(t))
		default:
			w("(define-fun %s () %s %s)", name(t), t.sort, exactDef(t))
		}
	}
	for _, p := range post {
		as("%s", p)
	}
	for _, t := range act {
		as("%s", name(t))
	}
	w("(check-sat)")
	return b.String()
}

// realUnsat tries to refute the constraints in real arithmetic; otherwise it
// may return a rounded assignment as a candidate model. Three formulations of
// the relaxation go to two solvers side by side: each is implied by the exact
// query, so the first refutation counts.
func (s *Solver) realUnsat(order, act, vars []*Term, budget time.Duration) (bool, Model) {
	for _, t := range order {
		if t.sort == SFP32 {
			return false, nil
		}
	}
	realSlots <- struct{}{}
	defer func() { <-realSlots }()
	ctx, cancel := context.WithTimeout(context.Background(), budget)
	defer cancel()
	type answer struct {
		res string
		m   Model
	}
	ch := make(chan answer, 16)
	n := 0
	t0 := time.Now()
	var q strings.Builder
	if len(vars) > 0 {
		q.WriteString("(get-value (")
		for _, t := range vars {
			if t.sort == SFP {
				q.WriteString(rr(t) + " " + rn(t) + " ")
			} else {
				q.WriteString(name(t) + " ")
			}
		}
		q.WriteString("))\n")
	}
	modes := 3
	for _, t := range order {
		if resultantW(t) != nil {
			modes = 4
		}
	}
	for mode := 0; mode < modes; mode++ {
		script := realScript(order, act, budget.Milliseconds(), mode)
		if d := os.Getenv("VERIF_DUMP"); d != "" {
			os.WriteFile(fmt.Sprintf("%s/r%d_%d.smt2", d, atomic.LoadInt64(&s.st.Queries), mode), []byte(script), 0o644)
		}
		n += 2
		go func() {
			out := runOnce(ctx, script+q.String(), s.bin[0], "-in", "-smt2")
			r, rest, _ := strings.Cut(out, "\n")
			r = strings.TrimSpace(r)
			var m Model
			if r == "sat" && len(vars) > 0 {
				m = realModel(vars, rest)
			}
			ch <- answer{r, m}
		}()
		go func() {
			sc := strings.Replace(script, "(reset)\n", "(set-logic ALL)\n", 1)
			if i := strings.Index(sc, "(set-option :timeout"); i >= 0 {
				sc = sc[:i] + sc[i+strings.IndexByte(sc[i:], '\n'):]
			}
			r, _, _ := strings.Cut(runOnce(ctx, sc, "cvc5", "--lang=smt2", "-q", "-"), "\n")
			ch <- answer{strings.TrimSpace(r), nil}
		}()
	}
	defer func() {
		bump(s, func(t *Stats) *int64 { return &t.SolverNs }, int64(time.Since(t0)))
	}()
	var cand Model
	for ; n > 0; n-- {
		a := <-ch
		if a.res == "unsat" {
			bump(s, func(t *Stats) *int64 { return &t.RealUnsat }, 1)
			return true, nil
		}
		if a.m != nil {
			cand = a.m
			if satisfies(cand, act) {
				return false, cand
			}
		}
	}
	return false, cand
}

var realSlots = make(chan struct{}, 4)

// runOnce feeds a script to a fresh solver process.
func runOnce(ctx context.Context, script, bin string, args ...string) string {
	if _, err := exec.LookPath(bin); err != nil {
		return ""
	}
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Stdin = strings.NewReader(script)
	out, _ := cmd.Output()
	return string(out)
}

// realModel reads the relaxation's assignment, rounded to floats.
func realModel(vars []*Term, txt string) (m Model) {
	defer func() {
		if recover() != nil {
			m = nil // truncated output
		}
	}()
	sx, _ := parseSexp(txt, 0)
	l, ok := sx.([]any)
	if !ok {
		return nil
	}
	i := 0
	val := func() any {
		p := l[i].([]any)
		i++
		return p[1]
	}
	m = Model{}
	for _, t := range vars {
		if t.sort == SFP {
			v := val()
			if val() == "true" {
				m[t.name] = math.Float64bits(math.NaN())
				continue
			}
			f, ok := sexpReal(v)
			if !ok {
				return nil
			}
			m[t.name] = math.Float64bits(f)
		} else {
			v, err := sexpVal(val())
			if err != nil {
				return nil
			}
			m[t.name] = v
		}
	}
	return m
}

func sexpReal(e any) (float64, bool) {
	r, ok := sexpRat(e)
	if !ok {
		return 0, false
	}
	if r.Cmp(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 1090))) >= 0 {
		return math.Inf(1), true
	}
	f, _ := r.Float64()
	return f, true
}
func sexpRat(e any) (*big.Rat, bool) {
	switch x := e.(type) {
	case string:
		r, ok := new(big.Rat).SetString(strings.TrimSuffix(x, "?"))
		return r, ok
	case []any:
		if len(x) == 2 && x[0] == "-" {
			r, ok := sexpRat(x[1])
			if ok {
				r = new(big.Rat).Neg(r)
			}
			return r, ok
		}
		if len(x) == 3 && x[0] == "/" {
			a, ok1 := sexpRat(x[1])
			b, ok2 := sexpRat(x[2])
			if ok1 && ok2 && b.Sign() != 0 {
				return new(big.Rat).Quo(a, b), true
			}
		}
	}
	return nil, false
}

type ival struct{ lo, hi float64 }

func (v ival) mag() float64 { return math.Max(math.Abs(v.lo), math.Abs(v.hi)) }

func up(f float64) float64 { return math.Nextafter(f, math.Inf(1)) }
func dn(f float64) float64 { return math.Nextafter(f, math.Inf(-1)) }

// outward widens by a rounding step, keeping the sign.
func outward(v ival) ival {
	if v.lo != 0 {
		v.lo = dn(v.lo)
	}
	if v.hi != 0 {
		v.hi = up(v.hi)
	}
	return v
}

// intervals bounds float terms (when they are not NaN) by interval arithmetic
// from the literal bounds among the constraints.
func intervals(order, act []*Term) (map[*Term]ival, map[*Term]bool) {
	sf := map[*Term]bool{}
	out := map[*Term]ival{}
	lo, hi := map[*Term]float64{}, map[*Term]float64{}
	nn, ni := map[*Term]bool{}, map[*Term]bool{}
	var lit func(t *Term, pos bool)
	lit = func(t *Term, pos bool) {
		switch t.op {
		case OAnd:
			if pos {
				for _, a := range t.args {
					lit(a, true)
				}
			}
		case OOr:
			if !pos {
				for _, a := range t.args {
					lit(a, false)
				}
			}
		case ONot:
			lit(t.args[0], !pos)
		case OFpIsNaN:
			if !pos {
				nn[t.args[0]] = true
			}
		case OFpIsInf:
			if !pos {
				ni[t.args[0]] = true
			}
		case OFpLe, OFpLt:
			if !pos {
				return
			}
			x, y := t.args[0], t.args[1]
			if x.isConst() && !math.IsNaN(x.f64()) {
				if v, ok := lo[y]; !ok || x.f64() > v {
					lo[y] = x.f64()
				}
			}
			if y.isConst() && !math.IsNaN(y.f64()) {
				if v, ok := hi[x]; !ok || y.f64() < v {
					hi[x] = y.f64()
				}
			}
		}
	}
	for _, t := range act {
		lit(t, true)
	}
	for t := range nn {
		if ni[t] { // finite
			if v, ok := lo[t]; !ok || v < -math.MaxFloat64 {
				lo[t] = -math.MaxFloat64
			}
			if v, ok := hi[t]; !ok || v > math.MaxFloat64 {
				hi[t] = math.MaxFloat64
			}
		}
	}
	inf := math.Inf(1)
	get := func(t *Term) ival {
		if t.op == OConst {
			f := t.f64()
			if math.IsNaN(f) {
				return ival{-inf, inf}
			}
			return ival{f, f}
		}
		if v, ok := out[t]; ok {
			return v
		}
		return ival{-inf, inf}
	}
	for _, t := range order {
		if t.sort != SFP || t.op == OConst {
			continue
		}
		v := ival{-inf, inf}
		a := func(i int) ival { return get(t.args[i]) }
		switch t.op {
		case OIte:
			x, y := a(1), a(2)
			v = ival{math.Min(x.lo, y.lo), math.Max(x.hi, y.hi)}
		case OFpNeg:
			x := a(0)
			v = ival{-x.hi, -x.lo}
		case OFpAbs:
			x := a(0)
			v = ival{0, x.mag()}
			if x.lo > 0 {
				v.lo = x.lo
			}
			if x.hi < 0 {
				v.lo = -x.hi
			}
		case OFpAdd:
			x, y := a(0), a(1)
			v = ival{dn(x.lo + y.lo), up(x.hi + y.hi)}
			if x.lo >= 0 && y.lo >= 0 {
				v.lo = math.Max(v.lo, 0)
			}
			if x.hi <= 0 && y.hi <= 0 {
				v.hi = math.Min(v.hi, 0)
			}
		case OFpMul:
			x, y := a(0), a(1)
			if x.mag() < inf && y.mag() < inf {
				p := []float64{x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi}
				v = ival{p[0], p[0]}
				for _, q := range p {
					v.lo, v.hi = math.Min(v.lo, q), math.Max(v.hi, q)
				}
				v = outward(v)
			}
			if t.args[0] == t.args[1] && v.lo < 0 {
				v.lo = 0
			}
		case OFpDiv:
			x, y := a(0), a(1)
			if x.mag() < inf && y.mag() < inf && (y.lo > 0 || y.hi < 0) {
				p := []float64{x.lo / y.lo, x.lo / y.hi, x.hi / y.lo, x.hi / y.hi}
				v = ival{p[0], p[0]}
				for _, q := range p {
					v.lo, v.hi = math.Min(v.lo, q), math.Max(v.hi, q)
				}
				v = outward(v)
			}
		case OFpSqrt:
			x := a(0)
			v = ival{0, inf}
			if xs := resultant(t); xs != nil {
				fin := true
				for _, x := range xs {
					fin = fin && sf[x]
				}
				if fin {
					rlo, rhi := resultantBounds(xs)
					lo[t] = math.Max(lo[t], rlo)
					if h, ok := hi[t]; !ok || h > rhi {
						hi[t] = rhi
					}
				}
			}
			if x.hi >= 0 {
				v.hi = up(math.Sqrt(x.hi))
			}
			if x.lo > 0 {
				v.lo = dn(math.Sqrt(x.lo))
			}
		case OFpRnd:
			x := a(0)
			v = ival{x.lo - 1, x.hi + 1}
		case OS2F:
			v = ival{-9223372036854775808, 9223372036854775808}
		case OU2F:
			v = ival{0, 18446744073709551616}
		case OFun:
			switch t.name {
			case "sin", "cos", "tanh":
				v = ival{-1, 1}
			case "atan2":
				v = ival{-math.Pi, math.Pi}
			case "atan", "asin":
				v = ival{-math.Pi / 2, math.Pi / 2}
			case "acos":
				v = ival{0, math.Pi}
			case "mod":
				x, y := a(0), a(1)
				v = ival{-y.mag(), y.mag()}
				if x.lo >= 0 {
					v.lo = 0
				}
				if x.hi <= 0 {
					v.hi = 0
				}
			case "rem":
				v = ival{-a(1).mag(), a(1).mag()}
			case "exp":
				v = ival{0, inf}
				if a(0).hi <= 0 {
					v.hi = 1
				}
			}
		}
		if l, ok := lo[t]; ok && l > v.lo {
			v.lo = l
		}
		if h, ok := hi[t]; ok && h < v.hi {
			v.hi = h
		}
		if math.IsNaN(v.lo) {
			v.lo = -inf
		}
		if math.IsNaN(v.hi) {
			v.hi = inf
		}
		if v.lo > v.hi {
			// contradictory bounds: leave it to the solver
			v = ival{-inf, inf}
		}
		out[t] = v
		if math.IsInf(v.lo, 0) || math.IsInf(v.hi, 0) {
			continue
		}
		_, l := lo[t]
		_, h := hi[t]
		if l && h { // compared on both sides, so not NaN
			sf[t] = true
			continue
		}
		all := true
		for _, x := range t.args {
			all = all && (x.sort != SFP || sf[x] || x.isConst() && !math.IsNaN(x.f64()) && !math.IsInf(x.f64(), 0))
		}
		switch t.op {
		case OIte, OFpNeg, OFpAbs, OFpAdd, OFpMul, OFpRnd:
			sf[t] = all
		case OFpDiv:
			y := get(t.args[1])
			sf[t] = all && (y.lo > 0 || y.hi < 0)
		case OFpSqrt:
			sf[t] = all && get(t.args[0]).lo >= 0
		case OS2F, OU2F:
			sf[t] = true
		case OFun:
			switch t.name {
			case "sin", "cos", "tanh", "atan", "atan2", "exp":
				sf[t] = all
			case "mod", "rem":
				y := get(t.args[1])
				sf[t] = all && (y.lo > 0 || y.hi < 0)
			}
		}
	}
	return out, sf
}

func isZero(t *Term) bool { return t.isConst() && t.f64() == 0 }

// pow2Err: multiplying by a power of two only rounds when it underflows.
func pow2Err(k float64, ts ...*Term) float64 {
	for _, t := range ts {
		if t != nil && t.isConst() {
			if fr, _ := math.Frexp(math.Abs(t.f64())); fr == 0.5 {
				return 1e-300
			}
		}
	}
	return k
}
