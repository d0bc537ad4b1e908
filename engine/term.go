package main

// Hash-consed SMT terms with constant folding. Every scalar Go value the
// interpreter manipulates is a *Term: Bool, BV(1..64) or FP64.

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"strconv"
	"strings"
)

type Sort int

const (
	SBool Sort = 0
	SFP   Sort = 100
	SFP32 Sort = 101
)

func (s Sort) String() string {
	switch s {
	case SBool:
		return "Bool"
	case SFP:
		return "(_ FloatingPoint 11 53)"
	case SFP32:
		return "(_ FloatingPoint 8 24)"
	}
	return fmt.Sprintf("(_ BitVec %d)", int(s))
}

type Op int

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq // structural equality (bool, bv)
	OBvAdd
	OBvSub
	OBvMul
	OBvUDiv
	OBvSDiv
	OBvURem
	OBvSRem
	OBvAnd
	OBvOr
	OBvXor
	OBvNot
	OBvNeg
	OBvShl
	OBvLshr
	OBvAshr
	OBvUlt
	OBvUle
	OBvSlt
	OBvSle
	OZext
	OSext
	OTrunc // low bits
	OFpNeg
	OFpAbs
	OFpLt
	OFpLe
	OFpEq
	OFpIsNaN
	OFpIsInf
	OFpRnd // k: 0 floor,1 ceil,2 trunc,3 nearest-away,4 nearest-even
	OBits2F
	OF2Bits
	OFpSame // SMT structural equality on FP
	// hard (abstracted, refined lazily)
	OFpAdd
	OFpMul
	OFpDiv
	OFpSqrt
	OS2F // signed bv64 -> fp
	OU2F
	OF2S // fp -> signed bv64 (amd64 semantics)
	OFun // library function, name
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OBvAdd: "bvadd", OBvSub: "bvsub", OBvMul: "bvmul", OBvUDiv: "bvudiv", OBvSDiv: "bvsdiv", OBvURem: "bvurem", OBvSRem: "bvsrem", OBvAnd: "bvand", OBvOr: "bvor", OBvXor: "bvxor", OBvNot: "bvnot", OBvNeg: "bvneg", OBvShl: "bvshl", OBvLshr: "bvlshr", OBvAshr: "bvashr", OBvUlt: "bvult", OBvUle: "bvule", OBvSlt: "bvslt", OBvSle: "bvsle", OFpNeg: "fp.neg", OFpAbs: "fp.abs", OFpLt: "fp.lt", OFpLe: "fp.leq", OFpEq: "fp.eq", OFpIsNaN: "fp.isNaN", OFpIsInf: "fp.isInfinite", OFpSame: "="}

type Term struct {
	op   Op
	sort Sort
	args []*Term
	k    uint64
	name string
	id   int
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.sort == SBool && t.k == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.sort == SBool && t.k == 0 }
func (t *Term) f64() float64  { return math.Float64frombits(t.k) }
func (t *Term) hard() bool    { return t.op >= OFpAdd }

// TermCtx owns the hash-consing table (one per worker).
type TermCtx struct {
	tab   map[string]*Term
	n     int
	T, F  *Term
	exact bool
}

func newTermCtx() *TermCtx {
	c := &TermCtx{tab: map[string]*Term{}}
	c.T = c.mk(OConst, SBool, 1, "")
	c.F = c.mk(OConst, SBool, 0, "")
	return c
}

func (c *TermCtx) mk(op Op, s Sort, k uint64, name string, args ...*Term) *Term {
	var b []byte
	b = strconv.AppendInt(b, int64(op), 36)
	b = append(b, ':')
	b = strconv.AppendInt(b, int64(s), 36)
	b = append(b, ':')
	b = strconv.AppendUint(b, k, 36)
	b = append(b, ':')
	b = append(b, name...)
	for _, a := range args {
		b = append(b, ',')
		b = strconv.AppendInt(b, int64(a.id), 36)
	}
	key := string(b)
	if t, ok := c.tab[key]; ok {
		return t
	}
	c.n++
	t := &Term{op: op, sort: s, args: args, k: k, name: name, id: c.n}
	c.tab[key] = t
	return t
}

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}
func mask(w Sort) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}
func sext(v uint64, w Sort) int64 {
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}
func (c *TermCtx) BV(v uint64, w Sort) *Term { return c.mk(OConst, w, v&mask(w), "") }
func (c *TermCtx) Int(v int64) *Term         { return c.BV(uint64(v), 64) }
func (c *TermCtx) Float(f float64) *Term {
	if f != f {
		return c.mk(OConst, SFP, 0x7FF8000000000001, "")
	}
	return c.mk(OConst, SFP, math.Float64bits(f), "")
}
func (c *TermCtx) Float32(f float32) *Term {
	return c.mk(OConst, SFP32, uint64(math.Float32bits(f)), "")
}
func (c *TermCtx) Var(name string, s Sort) *Term {
	if s == SFP {
		return c.mk(OBits2F, SFP, 0, "", c.mk(OVar, 64, 0, name))
	}
	return c.mk(OVar, s, 0, name)
}
func (c *TermCtx) constOf(s Sort, k uint64) *Term {
	if s == SFP {
		return c.Float(math.Float64frombits(k))
	}
	return c.mk(OConst, s, k, "")
}

func (c *TermCtx) Not(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.k == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return c.mk(ONot, SBool, 0, "", a)
}
func (c *TermCtx) And(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, x := range xs {
		if x.isFalse() {
			return c.F
		}
		if x.isTrue() || seen[x] {
			continue
		}
		if seen[c.Not(x)] {
			return c.F
		}
		seen[x] = true
		out = append(out, x)
	}
	if len(out) == 0 {
		return c.T
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(OAnd, SBool, 0, "", out...)
}
func (c *TermCtx) Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, x := range xs {
		if x.isTrue() {
			return c.T
		}
		if x.isFalse() || seen[x] {
			continue
		}
		if seen[c.Not(x)] {
			return c.T
		}
		seen[x] = true
		out = append(out, x)
	}
	if len(out) == 0 {
		return c.F
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(OOr, SBool, 0, "", out...)
}
func (c *TermCtx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }
func (c *TermCtx) Ite(cond, a, b *Term) *Term {
	if cond.isTrue() || a == b {
		return a
	}
	if cond.isFalse() {
		return b
	}
	if a.sort == SBool {
		return c.And(c.Or(c.Not(cond), a), c.Or(cond, b))
	}
	if a.sort != b.sort {
		panic("ite sorts")
	}
	return c.mk(OIte, a.sort, 0, "", cond, a, b)
}
func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %v %v", a.sort, b.sort))
	}
	if a.sort == SFP {
		return c.FpSame(a, b)
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k == b.k)
	}
	if a.sort == SBool {
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return c.Not(a)
		}
	}
	if a.op == OF2Bits && b.op == OF2Bits {
		return c.FpSame(a.args[0], b.args[0])
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OBvSDiv:
			if a.sort == 64 && a.args[1].isConst() && int64(a.args[1].k) > 1 {
				return c.And(c.BvCmp(OBvSle, b, a), c.BvCmp(OBvSle, a, b))
			}
		case OF2Bits:
			return c.FpSame(a.args[0], c.Float(math.Float64frombits(b.k)))
		case OZext:
			w := a.args[0].sort
			if b.k&^mask(w) != 0 {
				return c.F
			}
			return c.Eq(a.args[0], c.BV(b.k, w))
		case OIte:
			if a.args[1].isConst() || a.args[2].isConst() {
				return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
			}
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OEq, SBool, 0, "", a, b)
}
func (c *TermCtx) FpSame(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k == b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
		return c.Ite(a.args[0], c.FpSame(a.args[1], b), c.FpSame(a.args[2], b))
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OFpSame, SBool, 0, "", a, b)
}

func evalBin(op Op, w Sort, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OBvAdd:
		return (x + y) & m
	case OBvSub:
		return (x - y) & m
	case OBvMul:
		return (x * y) & m
	case OBvUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OBvURem:
		if y == 0 {
			return x
		}
		return x % y
	case OBvSDiv:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return m
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OBvSRem:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OBvAnd:
		return x & y
	case OBvOr:
		return x | y
	case OBvXor:
		return x ^ y
	case OBvShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OBvLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OBvAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m
	}
	panic("evalBin")
}

func (c *TermCtx) BvBin(op Op, a, b *Term) *Term {
	w := a.sort
	if a.sort != b.sort {
		panic(fmt.Sprintf("bvbin sorts %v %v %v", op, a.sort, b.sort))
	}
	if a.isConst() && b.isConst() {
		return c.BV(evalBin(op, w, a.k, b.k), w)
	}
	switch op {
	case OBvAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if a.op == OBvAdd && a.args[1].isConst() {
				return c.BvBin(OBvAdd, a.args[0], c.BV(a.args[1].k+b.k, w))
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OBvSub:
		if a == b {
			return c.BV(0, w)
		}
		if b.isConst() {
			return c.BvBin(OBvAdd, a, c.BV(-b.k, w))
		}
		if a.op == OBvAdd && a.args[0] == b {
			return a.args[1]
		}
		if a.op == OBvAdd && a.args[1] == b {
			return a.args[0]
		}
	case OBvMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		}
	case OBvAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
			if a.op == OZext && b.k&mask(a.args[0].sort) == mask(a.args[0].sort) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OBvOr, OBvXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.k == 0 {
			return a
		}
		if op == OBvOr && a == b {
			return a
		}
	case OBvShl, OBvLshr, OBvAshr:
		if b.isConst() && b.k == 0 {
			return a
		}
	case OBvSDiv, OBvUDiv:
		if b.isConst() && b.k == 1 {
			return a
		}
	}
	return c.mk(op, w, 0, "", a, b)
}
func (c *TermCtx) BvNeg(a *Term) *Term {
	if a.isConst() {
		return c.BV(-a.k, a.sort)
	}
	return c.mk(OBvNeg, a.sort, 0, "", a)
}
func (c *TermCtx) BvNot(a *Term) *Term {
	if a.isConst() {
		return c.BV(^a.k, a.sort)
	}
	return c.mk(OBvNot, a.sort, 0, "", a)
}
func (c *TermCtx) BvCmp(op Op, a, b *Term) *Term {
	if a.sort != b.sort {
		panic("bvcmp sorts")
	}
	if a == b {
		return c.Bool(op == OBvUle || op == OBvSle)
	}
	if a.isConst() && b.isConst() {
		return c.Bool(evalCmp(op, a.sort, a.k, b.k))
	}
	if op == OBvUlt && b.isConst() && b.k == 0 {
		return c.F
	}
	if op == OBvSlt || op == OBvSle {
		if r := c.sdivCmp(op, a, b); r != nil {
			return r
		}
	}
	if b.isConst() && a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
		return c.Ite(a.args[0], c.BvCmp(op, a.args[1], b), c.BvCmp(op, a.args[2], b))
	}
	if a.isConst() && b.op == OIte && (b.args[1].isConst() || b.args[2].isConst()) {
		return c.Ite(b.args[0], c.BvCmp(op, a, b.args[1]), c.BvCmp(op, a, b.args[2]))
	}
	if op == OBvUle && a.isConst() && a.k == 0 {
		return c.T
	}
	return c.mk(op, SBool, 0, "", a, b)
}

// sdivCmp rewrites a signed comparison of x/d (d a positive constant) with a
// constant into one on x.
func (c *TermCtx) sdivCmp(op Op, a, b *Term) *Term {
	isDiv := func(t *Term) bool {
		return t.op == OBvSDiv && t.sort == 64 && t.args[1].isConst() && int64(t.args[1].k) > 1
	}
	// x/d >= j
	ge := func(t *Term, j int64) *Term {
		d := int64(t.args[1].k)
		q := new(big.Int).SetInt64(j)
		if j > 0 {
			q.Mul(q, big.NewInt(d))
		} else {
			q.Sub(q, big.NewInt(1)).Mul(q, big.NewInt(d)).Add(q, big.NewInt(1))
		}
		if !q.IsInt64() {
			return c.Bool(q.Sign() < 0)
		}
		return c.BvCmp(OBvSle, c.Int(q.Int64()), t.args[0])
	}
	switch {
	case isDiv(a) && b.isConst():
		k := int64(b.k)
		if op == OBvSle { // x/d <= k
			if k == math.MaxInt64 {
				return c.T
			}
			k++
		}
		return c.Not(ge(a, k)) // x/d < k
	case isDiv(b) && a.isConst():
		k := int64(a.k)
		if op == OBvSlt { // k < x/d
			if k == math.MaxInt64 {
				return c.F
			}
			k++
		}
		return ge(b, k)
	}
	return nil
}

func evalCmp(op Op, w Sort, x, y uint64) bool {
	switch op {
	case OBvUlt:
		return x < y
	case OBvUle:
		return x <= y
	case OBvSlt:
		return sext(x, w) < sext(y, w)
	case OBvSle:
		return sext(x, w) <= sext(y, w)
	}
	panic("evalCmp")
}
func (c *TermCtx) Resize(a *Term, w Sort, signed bool) *Term {
	if a.sort == w {
		return a
	}
	if a.isConst() {
		if w > a.sort && signed {
			return c.BV(uint64(sext(a.k, a.sort)), w)
		}
		return c.BV(a.k, w)
	}
	if w < a.sort {
		if (a.op == OZext || a.op == OSext) && a.args[0].sort <= w {
			return c.Resize(a.args[0], w, a.op == OSext)
		}
		return c.mk(OTrunc, w, 0, "", a)
	}
	if signed {
		if a.op == OZext {
			return c.Resize(a.args[0], w, false)
		}
		return c.mk(OSext, w, 0, "", a)
	}
	if a.op == OZext {
		return c.Resize(a.args[0], w, false)
	}
	return c.mk(OZext, w, 0, "", a)
}

// ---- floating point

func (c *TermCtx) FpNeg(a *Term) *Term {
	if a.isConst() {
		return c.Float(-a.f64())
	}
	if a.op == OFpNeg {
		return a.args[0]
	}
	return c.mk(OFpNeg, SFP, 0, "", a)
}
func (c *TermCtx) FpAbs(a *Term) *Term {
	if a.isConst() {
		return c.Float(math.Abs(a.f64()))
	}
	if a.op == OFpNeg || a.op == OFpAbs {
		return c.FpAbs(a.args[0])
	}
	return c.mk(OFpAbs, SFP, 0, "", a)
}
func (c *TermCtx) FpCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		x, y := a.f64(), b.f64()
		switch op {
		case OFpLt:
			return c.Bool(x < y)
		case OFpLe:
			return c.Bool(x <= y)
		case OFpEq:
			return c.Bool(x == y)
		}
	}
	if (a.isConst() && a.f64() != a.f64()) || (b.isConst() && b.f64() != b.f64()) {
		return c.F
	}
	if a == b {
		if op == OFpLt {
			return c.F
		}
		return c.Not(c.FpIsNaN(a))
	}
	if op == OFpEq {
		if a.isConst() {
			a, b = b, a
		} else if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	}
	// sign-exact: fl(x+y) compared to 0 is x compared to -y
	if b.isConst() && b.f64() == 0 && a.op == OFpAdd {
		return c.signOfSum(op, a.args[0], c.FpNeg(a.args[1]))
	}
	if a.isConst() && a.f64() == 0 && b.op == OFpAdd {
		return c.signOfSum(op, c.FpNeg(b.args[0]), b.args[1])
	}
	if a.op == OFpNeg && b.isConst() {
		if op == OFpEq {
			return c.FpCmp(op, a.args[0], c.FpNeg(b))
		}
		return c.FpCmp(op, c.FpNeg(b), a.args[0])
	}
	if b.op == OFpNeg && a.isConst() {
		return c.FpCmp(op, b.args[0], c.FpNeg(a))
	}
	if a.op == OFpNeg && b.op == OFpNeg {
		return c.FpCmp(op, b.args[0], a.args[0])
	}
	// push comparisons with constants through ite with a constant arm
	if b.isConst() && a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
		return c.Ite(a.args[0], c.FpCmp(op, a.args[1], b), c.FpCmp(op, a.args[2], b))
	}
	if a.isConst() && b.op == OIte && (b.args[1].isConst() || b.args[2].isConst()) {
		return c.Ite(b.args[0], c.FpCmp(op, a, b.args[1]), c.FpCmp(op, a, b.args[2]))
	}
	return c.mk(op, SBool, 0, "", a, b)
}

// signOfSum compares x with y where the program compared fl(x-y) with 0. The
// sign of a rounded sum is exact; only Inf-Inf (NaN) needs excluding.
func (c *TermCtx) signOfSum(op Op, x, y *Term) *Term {
	switch op {
	case OFpLt:
		return c.FpCmp(OFpLt, x, y)
	case OFpEq:
		return c.And(c.FpCmp(OFpEq, x, y), c.Not(c.FpIsInf(x)))
	}
	return c.And(c.FpCmp(OFpLe, x, y), c.Or(c.Not(c.FpIsInf(x)), c.FpCmp(OFpLt, x, y)))
}
func (c *TermCtx) FpIsNaN(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.f64() != a.f64())
	}
	switch a.op {
	case OFpNeg, OFpAbs, OFpRnd:
		return c.FpIsNaN(a.args[0])
	case OS2F, OU2F:
		return c.F
	case OIte:
		return c.Ite(a.args[0], c.FpIsNaN(a.args[1]), c.FpIsNaN(a.args[2]))
	}
	return c.mk(OFpIsNaN, SBool, 0, "", a)
}
func (c *TermCtx) FpIsInf(a *Term) *Term {
	if a.isConst() {
		return c.Bool(math.IsInf(a.f64(), 0))
	}
	switch a.op {
	case OFpNeg, OFpAbs, OFpRnd:
		return c.FpIsInf(a.args[0])
	case OS2F, OU2F:
		return c.F
	}
	return c.mk(OFpIsInf, SBool, 0, "", a)
}
func roundMode(k uint64, x float64) float64 {
	switch k {
	case 0:
		return math.Floor(x)
	case 1:
		return math.Ceil(x)
	case 2:
		return math.Trunc(x)
	case 3:
		return math.Round(x)
	}
	return math.RoundToEven(x)
}
func (c *TermCtx) FpRnd(k uint64, a *Term) *Term {
	if a.isConst() {
		return c.Float(roundMode(k, a.f64()))
	}
	if a.op == OFpRnd || a.op == OS2F {
		return a
	}
	return c.mk(OFpRnd, SFP, k, "", a)
}
func (c *TermCtx) FpAdd(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Float(a.f64() + b.f64())
	}
	if a.isConst() {
		a, b = b, a
	} else if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	if b.isConst() {
		if b.f64() == 0 && math.Signbit(b.f64()) {
			return a // x + -0 = x
		}
		if b.f64() == 0 && (a.op == OFpAbs || a.op == OS2F || a.op == OU2F) {
			return a
		}
		if b.f64() != b.f64() {
			return b
		}
	}
	if a == c.FpNeg(b) {
		return c.Ite(c.Or(c.FpIsNaN(a), c.FpIsInf(a)), c.Float(math.NaN()), c.Float(0))
	}
	return c.mk(OFpAdd, SFP, 0, "", a, b)
}
func (c *TermCtx) FpSub(a, b *Term) *Term { return c.FpAdd(a, c.FpNeg(b)) }
func (c *TermCtx) FpMul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Float(a.f64() * b.f64())
	}
	if a.isConst() {
		a, b = b, a
	} else if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	if b.isConst() {
		f := b.f64()
		if f == 1 {
			return a
		}
		if f == -1 {
			return c.FpNeg(a)
		}
		if f != f {
			return b
		}
		if f < 0 {
			return c.FpNeg(c.FpMul(a, c.Float(-f)))
		}
	}
	// pull signs out: (-x)*y = -(x*y)
	if a.op == OFpNeg {
		return c.FpNeg(c.FpMul(a.args[0], b))
	}
	if b.op == OFpNeg {
		return c.FpNeg(c.FpMul(a, b.args[0]))
	}
	return c.mk(OFpMul, SFP, 0, "", a, b)
}
func (c *TermCtx) FpDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Float(a.f64() / b.f64())
	}
	if b.isConst() {
		f := b.f64()
		if f == 1 {
			return a
		}
		if f != f {
			return b
		}
		if fr, e := math.Frexp(f); fr == 0.5 && e > -1000 && e < 1000 {
			return c.FpMul(a, c.Float(1/f))
		}
		if f < 0 {
			return c.FpNeg(c.FpDiv(a, c.Float(-f)))
		}
	}
	if a.op == OFpNeg {
		return c.FpNeg(c.FpDiv(a.args[0], b))
	}
	if b.op == OFpNeg {
		return c.FpNeg(c.FpDiv(a, b.args[0]))
	}
	return c.mk(OFpDiv, SFP, 0, "", a, b)
}
func (c *TermCtx) FpSqrt(a *Term) *Term {
	if a.isConst() {
		return c.Float(math.Sqrt(a.f64()))
	}
	return c.mk(OFpSqrt, SFP, 0, "", a)
}
func (c *TermCtx) S2F(a *Term) *Term {
	a = c.Resize(a, 64, true)
	if a.isConst() {
		return c.Float(float64(int64(a.k)))
	}
	return c.mk(OS2F, SFP, 0, "", a)
}
func (c *TermCtx) U2F(a *Term) *Term {
	if a.sort < 64 {
		return c.S2F(c.Resize(a, 64, false))
	}
	if a.isConst() {
		return c.Float(float64(a.k))
	}
	return c.mk(OU2F, SFP, 0, "", a)
}

// f2s is Go/amd64 CVTTSD2SQ.
func f2s(x float64) int64 {
	if x != x || x >= 9223372036854775808.0 || x < -9223372036854775808.0 {
		return math.MinInt64
	}
	return int64(x)
}
func (c *TermCtx) F2S(a *Term) *Term {
	if a.isConst() {
		return c.Int(f2s(a.f64()))
	}
	if a.op == OFpRnd && a.k == 2 {
		a = a.args[0]
	}
	return c.mk(OF2S, 64, 0, "", a)
}
func (c *TermCtx) Bits2F(a *Term) *Term {
	if a.isConst() {
		return c.Float(math.Float64frombits(a.k))
	}
	if a.op == OF2Bits {
		return a.args[0]
	}
	if a.op == OIte {
		return c.Ite(a.args[0], c.Bits2F(a.args[1]), c.Bits2F(a.args[2]))
	}
	return c.mk(OBits2F, SFP, 0, "", a)
}
func (c *TermCtx) F2Bits(a *Term) *Term {
	if a.isConst() {
		return c.BV(a.k, 64)
	}
	if a.op == OBits2F {
		return a.args[0]
	}
	return c.mk(OF2Bits, 64, 0, "", a)
}

// FpMax/FpMin follow math.Max/math.Min (NaN propagates, signed zeros ordered,
// Inf dominates NaN only as documented: Max(+Inf, NaN)=+Inf).
func (c *TermCtx) FpMax(a, b *Term, builtin bool) *Term {
	if a.isConst() && b.isConst() {
		if builtin {
			return c.Float(max(a.f64(), b.f64()))
		}
		return c.Float(math.Max(a.f64(), b.f64()))
	}
	if a == b {
		return a
	}
	r := c.Ite(c.FpCmp(OFpLt, a, b), b, c.Ite(c.FpCmp(OFpLt, b, a), a, c.zeroTie(a, b, true)))
	return c.nanWrap(r, a, b, math.Inf(1), builtin)
}
func (c *TermCtx) FpMin(a, b *Term, builtin bool) *Term {
	if a.isConst() && b.isConst() {
		if builtin {
			return c.Float(min(a.f64(), b.f64()))
		}
		return c.Float(math.Min(a.f64(), b.f64()))
	}
	if a == b {
		return a
	}
	r := c.Ite(c.FpCmp(OFpLt, a, b), a, c.Ite(c.FpCmp(OFpLt, b, a), b, c.zeroTie(a, b, false)))
	return c.nanWrap(r, a, b, math.Inf(-1), builtin)
}

// equal values: only ±0 can differ
func (c *TermCtx) zeroTie(a, b *Term, wantMax bool) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && b.f64() != 0 {
		return b
	}
	z := math.Copysign(0, 1)
	if !wantMax {
		z = math.Copysign(0, -1)
	}
	if b.isConst() && math.Float64bits(b.f64()) == math.Float64bits(z) {
		return b
	}
	return c.Ite(c.FpSame(a, c.Float(z)), a, b)
}
func (c *TermCtx) nanWrap(r, a, b *Term, inf float64, builtin bool) *Term {
	nan := c.Or(c.FpIsNaN(a), c.FpIsNaN(b))
	if nan.isFalse() {
		return r
	}
	n := c.Ite(nan, c.Float(math.NaN()), r)
	if builtin {
		return n
	}
	return c.Ite(c.Or(c.FpSame(a, c.Float(inf)), c.FpSame(b, c.Float(inf))), c.Float(inf), n)
}

var libFuns = map[string]func(a []float64) float64{
	"sin":   func(a []float64) float64 { return math.Sin(a[0]) },
	"cos":   func(a []float64) float64 { return math.Cos(a[0]) },
	"tan":   func(a []float64) float64 { return math.Tan(a[0]) },
	"tanh":  func(a []float64) float64 { return math.Tanh(a[0]) },
	"atan2": func(a []float64) float64 { return math.Atan2(a[0], a[1]) },
	"atan":  func(a []float64) float64 { return math.Atan(a[0]) },
	"asin":  func(a []float64) float64 { return math.Asin(a[0]) },
	"acos":  func(a []float64) float64 { return math.Acos(a[0]) },
	"exp":   func(a []float64) float64 { return math.Exp(a[0]) },
	"log":   func(a []float64) float64 { return math.Log(a[0]) },
	"log2":  func(a []float64) float64 { return math.Log2(a[0]) },
	"log10": func(a []float64) float64 { return math.Log10(a[0]) },
	"pow":   func(a []float64) float64 { return math.Pow(a[0], a[1]) },
	"mod":   func(a []float64) float64 { return math.Mod(a[0], a[1]) },
	"rem":   func(a []float64) float64 { return math.Remainder(a[0], a[1]) },
	"hypot": func(a []float64) float64 { return math.Hypot(a[0], a[1]) },
	"cbrt":  func(a []float64) float64 { return math.Cbrt(a[0]) },
}

func (c *TermCtx) Fun(name string, args ...*Term) *Term {
	f := libFuns[name]
	if f == nil {
		panic("no libfun " + name)
	}
	all := true
	for _, a := range args {
		all = all && a.isConst()
	}
	if all {
		v := make([]float64, len(args))
		for i, a := range args {
			v[i] = a.f64()
		}
		return c.Float(f(v))
	}
	switch name {
	case "sin":
		if args[0].op == OFpNeg {
			return c.FpNeg(c.Fun("sin", args[0].args[0]))
		}
	case "cos":
		if args[0].op == OFpNeg || args[0].op == OFpAbs {
			return c.Fun("cos", args[0].args[0])
		}
	}
	return c.mk(OFun, SFP, 0, name, args...)
}

// ---- evaluation under a model (bits of every variable)

type Model map[string]uint64

type evaluator struct {
	m    Model
	memo map[*Term]uint64
}

func (m Model) newEval() *evaluator { return &evaluator{m, map[*Term]uint64{}} }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (e *evaluator) eval(t *Term) uint64 {
	if t.op == OConst {
		return t.k
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	var v uint64
	switch t.op {
	case OVar:
		v = e.m[t.name] & func() uint64 {
			if t.sort == SBool {
				return 1
			}
			return mask(t.sort)
		}()
	case OIte:
		if e.eval(t.args[0]) == 1 {
			v = e.eval(t.args[1])
		} else {
			v = e.eval(t.args[2])
		}
	case OAnd:
		v = 1
		for _, a := range t.args {
			if e.eval(a) == 0 {
				v = 0
				break
			}
		}
	case OOr:
		for _, a := range t.args {
			if e.eval(a) == 1 {
				v = 1
				break
			}
		}
	default:
		var buf [3]uint64
		av := buf[:0]
		for _, a := range t.args {
			av = append(av, e.eval(a))
		}
		v = applyOp(t, av)
	}
	e.memo[t] = v
	return v
}

func canonNaN(f float64) uint64 {
	if f != f {
		return 0x7FF8000000000001
	}
	return math.Float64bits(f)
}

// applyOp evaluates the operator of t on concrete argument bits with Go's own
// arithmetic (the semantics the compiled program has on this machine).
func applyOp(t *Term, a []uint64) uint64 {
	f := math.Float64frombits
	w := SBool
	if len(t.args) > 0 {
		w = t.args[0].sort
	}
	switch t.op {
	case ONot:
		return 1 - a[0]
	case OEq:
		return b2u(a[0] == a[1])
	case OFpSame:
		return b2u(canonNaN(f(a[0])) == canonNaN(f(a[1])))
	case OBvAdd, OBvSub, OBvMul, OBvUDiv, OBvSDiv, OBvURem, OBvSRem, OBvAnd, OBvOr, OBvXor, OBvShl, OBvLshr, OBvAshr:
		return evalBin(t.op, w, a[0], a[1])
	case OBvNot:
		return ^a[0] & mask(w)
	case OBvNeg:
		return -a[0] & mask(w)
	case OBvUlt, OBvUle, OBvSlt, OBvSle:
		return b2u(evalCmp(t.op, w, a[0], a[1]))
	case OZext:
		return a[0]
	case OSext:
		return uint64(sext(a[0], w)) & mask(t.sort)
	case OTrunc:
		return a[0] & mask(t.sort)
	case OFpNeg:
		return canonNaN(-f(a[0]))
	case OFpAbs:
		return canonNaN(math.Abs(f(a[0])))
	case OFpLt:
		return b2u(f(a[0]) < f(a[1]))
	case OFpLe:
		return b2u(f(a[0]) <= f(a[1]))
	case OFpEq:
		return b2u(f(a[0]) == f(a[1]))
	case OFpIsNaN:
		return b2u(f(a[0]) != f(a[0]))
	case OFpIsInf:
		return b2u(math.IsInf(f(a[0]), 0))
	case OFpRnd:
		return canonNaN(roundMode(t.k, f(a[0])))
	case OBits2F, OF2Bits:
		return canonNaN(f(a[0]))
	case OFpAdd:
		return canonNaN(f(a[0]) + f(a[1]))
	case OFpMul:
		return canonNaN(f(a[0]) * f(a[1]))
	case OFpDiv:
		return canonNaN(f(a[0]) / f(a[1]))
	case OFpSqrt:
		return canonNaN(math.Sqrt(f(a[0])))
	case OS2F:
		return canonNaN(float64(int64(a[0])))
	case OU2F:
		return canonNaN(float64(a[0]))
	case OF2S:
		return uint64(f2s(f(a[0])))
	case OFun:
		v := make([]float64, len(a))
		for i := range a {
			v[i] = f(a[i])
		}
		return canonNaN(libFuns[t.name](v))
	}
	panic(fmt.Sprintf("applyOp %d", t.op))
}

func fpLit(k uint64) string {
	f := math.Float64frombits(k)
	switch {
	case f != f:
		return "(_ NaN 11 53)"
	case math.IsInf(f, 1):
		return "(_ +oo 11 53)"
	case math.IsInf(f, -1):
		return "(_ -oo 11 53)"
	}
	return fmt.Sprintf("(fp #b%b #b%011b #x%013x)", k>>63, (k>>52)&0x7ff, k&(1<<52-1))
}
func constLit(t *Term) string {
	switch {
	case t.sort == SBool:
		if t.k == 1 {
			return "true"
		}
		return "false"
	case t.sort == SFP:
		return fpLit(t.k)
	case t.sort%4 == 0:
		return fmt.Sprintf("#x%0*x", int(t.sort)/4, t.k)
	}
	return fmt.Sprintf("#b%0*b", int(t.sort), t.k)
}

func (t *Term) String() string {
	return t.str(6)
}
func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		if t.sort == SFP {
			return strconv.FormatFloat(t.f64(), 'g', -1, 64)
		}
		if t.sort == SBool {
			return fmt.Sprint(t.k == 1)
		}
		return fmt.Sprint(sext(t.k, t.sort))
	case OVar:
		return t.name
	}
	if d == 0 {
		return "…"
	}
	n := opNames[t.op]
	if n == "" {
		n = fmt.Sprintf("op%d%s", t.op, t.name)
	}
	switch t.op {
	case OFpAdd:
		n = "f+"
	case OFpMul:
		n = "f*"
	case OFpDiv:
		n = "f/"
	case OS2F:
		n = "s2f"
	case OF2S:
		n = "f2s"
	case OFun:
		n = t.name
	case OBits2F:
		return t.args[0].str(d)
	}
	var p []string
	for _, a := range t.args {
		p = append(p, a.str(d-1))
	}
	return "(" + n + " " + strings.Join(p, " ") + ")"
}

var _ = bits.Len
