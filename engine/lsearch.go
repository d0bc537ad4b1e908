package main

// Local search for models of queries the solvers leave open. It only ever
// proposes assignments; a proposal counts when it satisfies the whole query
// under Go's own arithmetic and then reproduces natively. It never contributes
// to a verdict that an assertion holds.

import (
	"math"
	"math/rand"
	"os"
	"strconv"
	"time"
)

type lnode struct {
	t    *Term
	args []int
}

type lsearch struct {
	nodes  []lnode
	idx    map[*Term]int
	val    []uint64
	act    []int
	vars   []lvar
	rng    *rand.Rand
	fpool  []float64
	ipool  map[Sort][]uint64
	models []Model
}

type lvar struct {
	name   string
	idx    int
	sort   Sort
	fp     bool
	lo, hi float64
}

func seedBase() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return n
}

func newLSearch(order, act []*Term, models []Model) *lsearch {
	l := &lsearch{idx: map[*Term]int{}, ipool: map[Sort][]uint64{}, models: models, rng: rand.New(rand.NewSource(seedBase()*7919 + int64(len(order))))}
	consts := map[uint64]bool{}
	var get func(t *Term) int
	get = func(t *Term) int {
		if i, ok := l.idx[t]; ok {
			return i
		}
		n := lnode{t: t}
		for _, a := range t.args {
			n.args = append(n.args, get(a))
		}
		i := len(l.nodes)
		l.nodes = append(l.nodes, n)
		l.idx[t] = i
		if t.op == OConst && t.sort == SFP && !consts[t.k] {
			consts[t.k] = true
			f := t.f64()
			if !math.IsNaN(f) {
				l.fpool = append(l.fpool, f, -f, math.Nextafter(f, math.Inf(1)), math.Nextafter(f, math.Inf(-1)))
			}
		}
		if t.op == OConst && t.sort > 1 && t.sort < SFP {
			l.ipool[t.sort] = append(l.ipool[t.sort], t.k, (t.k+1)&mask(t.sort), (t.k-1)&mask(t.sort))
		}
		return i
	}
	for _, t := range order {
		get(t)
	}
	for _, t := range act {
		l.act = append(l.act, get(t))
	}
	l.val = make([]uint64, len(l.nodes))
	for i, n := range l.nodes {
		if n.t.op == OConst {
			l.val[i] = n.t.k
		}
	}
	fpOf := map[*Term]bool{}
	for _, n := range l.nodes {
		if n.t.op == OBits2F && n.t.args[0].op == OVar {
			fpOf[n.t.args[0]] = true
		}
	}
	pos := map[*Term]int{}
	for i, n := range l.nodes {
		if n.t.op == OVar {
			pos[n.t] = len(l.vars)
			l.vars = append(l.vars, lvar{n.t.name, i, n.t.sort, fpOf[n.t], math.Inf(-1), math.Inf(1)})
		}
	}
	// bounds stated by the conjunction
	var scan func(t *Term)
	scan = func(t *Term) {
		switch t.op {
		case OAnd:
			for _, a := range t.args {
				scan(a)
			}
		case OFpLe, OFpLt:
			v := func(x *Term) *lvar {
				if x.op == OBits2F && x.args[0].op == OVar {
					return &l.vars[pos[x.args[0]]]
				}
				return nil
			}
			if p := v(t.args[0]); p != nil && t.args[1].isConst() {
				p.hi = math.Min(p.hi, t.args[1].f64())
			}
			if p := v(t.args[1]); p != nil && t.args[0].isConst() {
				p.lo = math.Max(p.lo, t.args[0].f64())
			}
		}
	}
	for _, t := range act {
		scan(t)
	}
	for _, f := range []float64{0, math.Copysign(0, -1), 5e-324, -5e-324, 1e-300, -1e-300, 1e-17, -1e-17, 3e-16, -3e-16, 1e-12, -1e-12, 1e-9, -1e-9, 1e-6, -1e-6, 1e-3, -1e-3,
		0.1, 0.5, 1, -1, 2, math.Pi, -math.Pi, math.Pi / 2, 2 * math.Pi, -2 * math.Pi, 3 * math.Pi, 4 * math.Pi, 10, 100, 1e6, 1e9, -1e9, 1e15, 1e17, 1e300, -1e300, math.MaxFloat64} {
		l.fpool = append(l.fpool, f)
	}
	return l
}

func (l *lsearch) run() {
	var buf [3]uint64
	for i := range l.nodes {
		n := &l.nodes[i]
		t := n.t
		switch t.op {
		case OConst, OVar:
		case OIte:
			if l.val[n.args[0]] == 1 {
				l.val[i] = l.val[n.args[1]]
			} else {
				l.val[i] = l.val[n.args[2]]
			}
		case OAnd:
			v := uint64(1)
			for _, a := range n.args {
				v &= l.val[a]
			}
			l.val[i] = v
		case OOr:
			v := uint64(0)
			for _, a := range n.args {
				v |= l.val[a]
			}
			l.val[i] = v
		default:
			av := buf[:0]
			for _, a := range n.args {
				av = append(av, l.val[a])
			}
			l.val[i] = applyOp(t, av)
		}
	}
}

func ordf(b uint64) float64 {
	f := math.Float64frombits(b)
	if f == 0 {
		return 0
	}
	if f < 0 {
		return -float64(b & (1<<63 - 1))
	}
	return float64(b)
}

func fdist(a, b uint64) float64 {
	x, y := math.Float64frombits(a), math.Float64frombits(b)
	if x != x || y != y {
		return 2
	}
	d := math.Log2(1+math.Abs(ordf(a)-ordf(b))) / 64
	e := math.Abs(x - y)
	return 0.5*d + 0.5*e/(1+e) + 1e-6
}

func idist(a, b uint64, w Sort) float64 {
	return math.Log2(1+math.Abs(float64(sext(a, w))-float64(sext(b, w))))/64 + 1e-6
}

// cost is 0 when node i has the wanted truth value.
func (l *lsearch) cost(i int, want bool) float64 {
	n := &l.nodes[i]
	if (l.val[i] == 1) == want {
		return 0
	}
	switch n.t.op {
	case ONot:
		return l.cost(n.args[0], !want)
	case OAnd, OOr:
		if (n.t.op == OAnd) == want {
			s := 0.0
			for _, a := range n.args {
				s += l.cost(a, want)
			}
			return s
		}
		m := math.Inf(1)
		for _, a := range n.args {
			m = math.Min(m, l.cost(a, want))
		}
		return m
	case OIte:
		if l.val[n.args[0]] == 1 {
			return math.Min(l.cost(n.args[1], want), 0.5+l.cost(n.args[0], false))
		}
		return math.Min(l.cost(n.args[2], want), 0.5+l.cost(n.args[0], true))
	case OFpLt, OFpLe, OFpEq:
		if n.t.op == OFpEq && !want {
			return 1e-6
		}
		return fdist(l.val[n.args[0]], l.val[n.args[1]])
	case OBvSlt, OBvSle, OBvUlt, OBvUle:
		return idist(l.val[n.args[0]], l.val[n.args[1]], n.t.args[0].sort)
	case OEq:
		if !want {
			return 1e-6
		}
		if s := n.t.args[0].sort; s > 1 && s < SFP {
			return idist(l.val[n.args[0]], l.val[n.args[1]], s)
		}
		if n.t.args[0].sort == SBool {
			a, b := l.val[n.args[0]] == 1, l.val[n.args[1]] == 1
			return math.Min(l.cost(n.args[0], b), l.cost(n.args[1], a))
		}
		return fdist(l.val[n.args[0]], l.val[n.args[1]])
	}
	return 1
}

func (l *lsearch) total() float64 {
	l.run()
	s := 0.0
	for _, a := range l.act {
		s += l.cost(a, true)
	}
	return s
}

func (l *lsearch) fresh(v *lvar) uint64 {
	r := l.rng
	if len(l.models) > 0 && r.Intn(5) == 0 {
		if x, ok := l.models[r.Intn(len(l.models))][v.name]; ok {
			return x
		}
	}
	if v.fp {
		if !math.IsInf(v.lo, 0) && !math.IsInf(v.hi, 0) && r.Intn(2) == 0 {
			return math.Float64bits(v.lo + r.Float64()*(v.hi-v.lo))
		}
		switch r.Intn(8) {
		case 0:
			return math.Float64bits(r.NormFloat64() * 10)
		case 1:
			if !math.IsInf(v.lo, 0) {
				return math.Float64bits(v.lo)
			}
		case 2:
			if !math.IsInf(v.hi, 0) {
				return math.Float64bits(v.hi)
			}
		case 3:
			return r.Uint64()
		}
		return math.Float64bits(l.fpool[r.Intn(len(l.fpool))])
	}
	if v.sort == SBool {
		return uint64(r.Intn(2))
	}
	if p := l.ipool[v.sort]; len(p) > 0 && r.Intn(3) > 0 {
		return p[r.Intn(len(p))]
	}
	switch r.Intn(4) {
	case 0:
		return uint64(r.Intn(4)) & mask(v.sort)
	case 1:
		return (uint64(1)<<(uint(v.sort)-1) - uint64(r.Intn(2))) & mask(v.sort)
	case 2:
		return r.Uint64() >> uint(r.Intn(64)) & mask(v.sort)
	}
	return r.Uint64() & mask(v.sort)
}

func (l *lsearch) move(v *lvar) uint64 {
	r := l.rng
	x := l.val[v.idx]
	if v.sort == SBool {
		return 1 - x
	}
	if !v.fp {
		switch r.Intn(4) {
		case 0:
			return l.fresh(v)
		case 1:
			return (x + uint64(1)<<uint(r.Intn(int(v.sort)))) & mask(v.sort)
		case 2:
			return (x - uint64(1)<<uint(r.Intn(int(v.sort)))) & mask(v.sort)
		}
		return (x + uint64(r.Intn(9)) - 4) & mask(v.sort)
	}
	f := math.Float64frombits(x)
	switch r.Intn(9) {
	case 0, 1:
		return l.fresh(v)
	case 2, 3:
		return math.Float64bits(f + r.NormFloat64()*math.Pow(10, -float64(r.Intn(17)))*math.Max(1, math.Abs(f)))
	case 4:
		return math.Float64bits(f * (1 + r.NormFloat64()*math.Pow(10, -float64(r.Intn(17)))))
	case 5:
		return x + uint64(r.Intn(9)) - 4
	case 6:
		o := &l.vars[r.Intn(len(l.vars))]
		if o.fp {
			g := math.Float64frombits(l.val[o.idx])
			switch r.Intn(6) {
			case 0:
				return math.Float64bits(-g)
			case 1:
				return math.Float64bits(g + math.Pi)
			case 2:
				return math.Float64bits(g - math.Pi)
			case 3:
				return math.Float64bits(g + r.NormFloat64()*math.Pow(10, -float64(r.Intn(17))))
			case 4:
				return math.Float64bits(2*math.Pi - g)
			}
			return math.Float64bits(g)
		}
	case 7:
		return math.Float64bits(f + float64(r.Intn(5)-2)*math.Pi)
	}
	return math.Float64bits(-f)
}

// search looks for a model for at most d.
func (l *lsearch) search(d time.Duration) Model {
	if len(l.vars) == 0 {
		return nil
	}
	end := time.Now().Add(d)
	for time.Now().Before(end) {
		for i := range l.vars {
			l.val[l.vars[i].idx] = l.fresh(&l.vars[i])
		}
		c := l.total()
		stale := 0
		for c > 0 && stale < 120+40*len(l.vars) && time.Now().Before(end) {
			type ch struct {
				i int
				x uint64
			}
			var undo [2]ch
			k := 1
			if l.rng.Intn(4) == 0 {
				k = 2
			}
			for j := 0; j < k; j++ {
				v := &l.vars[l.rng.Intn(len(l.vars))]
				undo[j] = ch{v.idx, l.val[v.idx]}
				l.val[v.idx] = l.move(v)
			}
			n := l.total()
			if n <= c {
				if n < c {
					stale = 0
				} else {
					stale++
				}
				c = n
				continue
			}
			stale++
			for j := k - 1; j >= 0; j-- {
				l.val[undo[j].i] = undo[j].x
			}
		}
		if c == 0 {
			m := Model{}
			for _, v := range l.vars {
				m[v.name] = l.val[v.idx]
			}
			return m
		}
	}
	return nil
}
