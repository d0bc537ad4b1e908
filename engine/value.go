package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is an interpreter value:
//
//	*Term                     bool, integer, float64
//	Str                       string (concrete, or opaque when op!=0)
//	*Value                    pointer (nil pointer: (*Value)(nil))
//	Struct, Array             aggregates (copied on load/store)
//	[]Value                   slice
//	*MapV, *ChanV             reference types
//	Iface                     interface (t==nil: nil interface)
//	*ssa.Function, *Closure, *ssa.Builtin, nil func = (*ssa.Function)(nil)
//	Tuple                     multiple results
type Value = any

type Str struct {
	s  string
	op int // non-zero: opaque (content unknown)
	sy *symStr
}

// symStr is a string that is one of alts, selected by a symbolic index.
type symStr struct {
	t    *Term
	alts []string
}

// concStr forks until the string is concrete.
func (m *Machine) concStr(s Str) Str {
	if s.sy == nil {
		return s
	}
	for i, a := range s.sy.alts {
		if i == len(s.sy.alts)-1 || m.decide(m.c.Eq(s.sy.t, m.c.Int(int64(i)))) {
			return Str{s: a}
		}
	}
	return s
}

func (m *Machine) strEq(a, b Str) *Term {
	c := m.c
	switch {
	case a.op == 0 && b.op == 0:
		return c.Bool(a.s == b.s)
	case a.op == b.op:
		return c.T
	case a.sy != nil && b.sy != nil:
		r := c.F
		for i, x := range a.sy.alts {
			for j, y := range b.sy.alts {
				if x == y {
					r = c.Or(r, c.And(c.Eq(a.sy.t, c.Int(int64(i))), c.Eq(b.sy.t, c.Int(int64(j)))))
				}
			}
		}
		return r
	case a.sy != nil && b.op == 0:
		r := c.F
		for i, x := range a.sy.alts {
			if x == b.s {
				r = c.Or(r, c.Eq(a.sy.t, c.Int(int64(i))))
			}
		}
		return r
	case b.sy != nil && a.op == 0:
		return m.strEq(b, a)
	}
	m.unsupported("comparison of an opaque string")
	return c.F
}

type Struct []Value
type Array []Value
type Tuple []Value
type Iface struct {
	t types.Type
	v Value
}
type Closure struct {
	fn  *ssa.Function
	env []Value
}
type nativeFn struct {
	f func(fr *Frame, args []Value) Value
}
type mapEntry struct {
	k, v Value
	dead bool
}
type MapV struct {
	idx   map[any]*mapEntry
	order []*mapEntry
	n     int
	iters int
}

func newMap() *MapV { return &MapV{idx: map[any]*mapEntry{}} }

func (m *MapV) get(k any) (Value, bool) {
	e, ok := m.idx[k]
	if !ok {
		return nil, false
	}
	return e.v, true
}
func (m *MapV) set(k any, kv, v Value) {
	if e, ok := m.idx[k]; ok {
		e.v = v
		return
	}
	e := &mapEntry{k: kv, v: v}
	m.idx[k] = e
	m.order = append(m.order, e)
	m.n++
}
func (m *MapV) del(k any) {
	if e, ok := m.idx[k]; ok {
		e.dead = true
		delete(m.idx, k)
		m.n--
		if len(m.order) > 32 && m.n < len(m.order)/4 {
			var o []*mapEntry
			for _, x := range m.order {
				if !x.dead {
					o = append(o, x)
				}
			}
			m.order = o
		}
	}
}

func intWidth(t types.Type) (Sort, bool, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func (m *Machine) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UntypedNil {
			return nil
		}
		if w, _, ok := intWidth(u); ok {
			return m.c.BV(0, w)
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return m.c.F
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Kind() == types.Float32:
			return m.c.Float32(0)
		case u.Info()&types.IsFloat != 0:
			return m.c.Float(0)
		case u.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		}
		m.unsupported("zero of " + t.String())
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = m.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		for i := range a {
			a[i] = m.zero(u.Elem())
		}
		return a
	case *types.Slice:
		return []Value(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Tuple:
		tt := make(Tuple, u.Len())
		for i := range tt {
			tt[i] = m.zero(u.At(i).Type())
		}
		return tt
	}
	m.unsupported("zero of " + t.String())
	return nil
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		n := make(Struct, len(x))
		for i := range x {
			n[i] = copyVal(x[i])
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i := range x {
			n[i] = copyVal(x[i])
		}
		return n
	}
	return v
}

func isNilFn(v Value) bool {
	switch f := v.(type) {
	case *ssa.Function:
		return f == nil
	case *Closure:
		return f == nil
	case nil:
		return true
	}
	return false
}

// eq compares two values of one type.
func (m *Machine) eq(x, y Value) *Term {
	c := m.c
	switch a := x.(type) {
	case *Term:
		b := y.(*Term)
		if a.sort == SFP {
			return c.FpCmp(OFpEq, a, b)
		}
		return c.Eq(a, b)
	case Str:
		return m.strEq(a, y.(Str))
	case *Value:
		b, _ := y.(*Value)
		return c.Bool(a == b)
	case Struct:
		b := y.(Struct)
		r := c.T
		for i := range a {
			r = c.And(r, m.eq(a[i], b[i]))
		}
		return r
	case Array:
		b := y.(Array)
		r := c.T
		for i := range a {
			r = c.And(r, m.eq(a[i], b[i]))
		}
		return r
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			return c.Bool(a.t == nil)
		}
		if a.t == nil || b.t == nil {
			return c.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return c.F
		}
		if !types.Comparable(a.t) {
			m.goPanicStr("runtime error: comparing uncomparable type " + a.t.String())
		}
		return m.eq(a.v, b.v)
	case *MapV:
		b, _ := y.(*MapV)
		return c.Bool(a == b)
	case *ChanV:
		b, _ := y.(*ChanV)
		return c.Bool(a == b)
	case []Value:
		b, _ := y.([]Value)
		if a != nil && b != nil {
			m.unsupported("slice comparison")
		}
		return c.Bool(a == nil && b == nil)
	case *ssa.Function, *Closure, *nativeFn:
		return c.Bool(isNilFn(x) && isNilFn(y))
	case nil:
		switch b := y.(type) {
		case nil:
			return c.T
		default:
			return m.eq(b, x)
		}
	}
	m.unsupported(fmt.Sprintf("eq of %T", x))
	return nil
}

// keyOf makes a comparable map key; symbolic scalars are concretised by forking.
func (m *Machine) keyOf(v Value) any {
	switch x := v.(type) {
	case *Term:
		if !x.isConst() {
			x = m.concretize(x, "map key")
		}
		return [2]uint64{uint64(x.sort), x.k}
	case Str:
		return m.concStr(x)
	case *Value:
		return x
	case *ChanV:
		return x
	case Iface:
		if x.t == nil {
			return "nil-iface"
		}
		return [2]any{typeKey(x.t), m.keyOf(x.v)}
	case Struct:
		return m.aggKey([]Value(x))
	case Array:
		return m.aggKey([]Value(x))
	}
	m.unsupported(fmt.Sprintf("map key %T", v))
	return nil
}
func (m *Machine) aggKey(vs []Value) any {
	if len(vs) == 0 {
		return "empty"
	}
	var k any = "agg"
	for _, v := range vs {
		k = [2]any{k, m.keyOf(v)}
	}
	return k
}
func typeKey(t types.Type) string { return types.TypeString(t, nil) }

func (m *Machine) show(v Value, d int) string {
	if d == 0 {
		return "…"
	}
	switch x := v.(type) {
	case *Term:
		return x.String()
	case Str:
		if x.op != 0 {
			return "<opaque string>"
		}
		return fmt.Sprintf("%q", x.s)
	case *Value:
		if x == nil {
			return "nil"
		}
		return "&" + m.show(*x, d-1)
	case Struct:
		var p []string
		for _, e := range x {
			p = append(p, m.show(e, d-1))
		}
		return "{" + strings.Join(p, " ") + "}"
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return x.t.String() + "(" + m.show(x.v, d-1) + ")"
	case []Value:
		return fmt.Sprintf("slice[%d]", len(x))
	}
	return fmt.Sprintf("%T", v)
}

var _ = sort.Ints
