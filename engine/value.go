package main

import (
	"go/types"
	"math"
	"strings"
)

// Value is any interpreted value. Scalars: N (masked to width) when P is nil, else P is *Expr.
// Strings: P string or *SymStr (nil = ""). Aggregates: *Agg. Pointers: *Value. Slices: Slice.
// Maps: *Map. Interfaces: *Iface. Functions: *Closure. Tuples: *Agg.
type Value struct {
	N uint64
	P any
}

type Agg struct{ E []Value }
type Slice []Value
type Iface struct {
	rt *RType
	v  Value
}
type Closure struct {
	fn  *cfunc
	env []Value
}
type SymStr struct {
	e    []*Expr
	frag int8 // 0: not known, 1: without fragments, 2: with one
}

// results of unsafe.SliceData / unsafe.StringData
type dataPtr struct {
	s   Slice
	str Value
	isS bool
}

// RType is a canonical runtime type.
type RType struct {
	id int
	t  types.Type
}

func vInt(i int64) Value  { return Value{N: uint64(i)} }
func vBool(b bool) Value  { return Value{N: b2u(b)} }
func vStr(s string) Value { return Value{P: s} }
func vExpr(e *Expr) Value {
	if e.op == OConst {
		return Value{N: e.v}
	}
	return Value{P: e}
}

func isSym(v Value) bool { _, ok := v.P.(*Expr); return ok }

type scalar struct {
	kind   byte // 'b' bool 'i' int 'f' float 's' string 'p' other
	w      uint8
	signed bool
}

func scalarOf(t types.Type) scalar {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return scalar{kind: 'p'}
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return scalar{'b', 1, false}
	case types.Int, types.Int64, types.UntypedInt:
		return scalar{'i', 64, true}
	case types.Int8:
		return scalar{'i', 8, true}
	case types.Int16:
		return scalar{'i', 16, true}
	case types.Int32, types.UntypedRune:
		return scalar{'i', 32, true}
	case types.Uint, types.Uint64, types.Uintptr:
		return scalar{'i', 64, false}
	case types.Uint8:
		return scalar{'i', 8, false}
	case types.Uint16:
		return scalar{'i', 16, false}
	case types.Uint32:
		return scalar{'i', 32, false}
	case types.Float64, types.UntypedFloat:
		return scalar{'f', 64, true}
	case types.Float32:
		return scalar{'f', 32, true}
	case types.String, types.UntypedString:
		return scalar{kind: 's'}
	}
	return scalar{kind: 'p'}
}

// expr lifts a scalar value to a term.
func (m *M) expr(v Value, s scalar) *Expr {
	if e, ok := v.P.(*Expr); ok {
		return e
	}
	switch s.kind {
	case 'b':
		return m.x.Bool(v.N != 0)
	case 'f':
		return m.x.FConst(s.w, v.N)
	}
	return m.x.Const(s.w, v.N)
}

// zero returns a fresh zero value of t.
func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := &Agg{E: make([]Value, u.NumFields())}
		for i := range a.E {
			a.E[i] = zero(u.Field(i).Type())
		}
		return Value{P: a}
	case *types.Array:
		a := &Agg{E: make([]Value, u.Len())}
		if needsFresh(u.Elem()) {
			for i := range a.E {
				a.E[i] = zero(u.Elem())
			}
		} else if z := zero(u.Elem()); z.P != nil {
			for i := range a.E {
				a.E[i] = z
			}
		}
		return Value{P: a}
	case *types.Tuple:
		a := &Agg{E: make([]Value, u.Len())}
		for i := range a.E {
			a.E[i] = zero(u.At(i).Type())
		}
		return Value{P: a}
	}
	return Value{}
}

func needsFresh(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// load copies an aggregate out of memory.
func loadVal(v Value) Value {
	a, ok := v.P.(*Agg)
	if !ok {
		return v
	}
	n := &Agg{E: make([]Value, len(a.E))}
	for i := range a.E {
		if _, ok := a.E[i].P.(*Agg); ok {
			n.E[i] = loadVal(a.E[i])
		} else {
			n.E[i] = a.E[i]
		}
	}
	return Value{P: n}
}

type undo struct {
	p    *Value
	v    Value
	fn   func()
	redo func()
}

func (m *M) set(p *Value, v Value) {
	if m.tr != nil {
		m.tr.loc(p, true)
	}
	m.log = append(m.log, undo{p: p, v: *p})
	*p = v
}

func (m *M) onUndo(f, redo func()) { m.log = append(m.log, undo{fn: f, redo: redo}) }

func (m *M) rollback(mark int) {
	for i := len(m.log) - 1; i >= mark; i-- {
		u := &m.log[i]
		if u.p != nil {
			*u.p = u.v
		} else {
			u.fn()
		}
		*u = undo{}
	}
	m.log = m.log[:mark]
}

func (m *M) store(p *Value, v Value) {
	if a, ok := v.P.(*Agg); ok {
		d, ok := p.P.(*Agg)
		if !ok || len(d.E) != len(a.E) {
			m.set(p, loadVal(v))
			return
		}
		for i := range a.E {
			m.store(&d.E[i], a.E[i])
		}
		return
	}
	m.set(p, v)
}

// ---- strings

func strLen(v Value) int {
	switch s := v.P.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.e)
	}
	panic("strLen")
}

func conc(v Value) (string, bool) {
	switch s := v.P.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func (m *M) elems(v Value) []*Expr {
	switch s := v.P.(type) {
	case nil:
		return nil
	case string:
		r := make([]*Expr, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = m.x.bytes[s[i]]
		}
		return r
	case *SymStr:
		return s.e
	}
	panic("elems")
}

func mkStr(e []*Expr) Value {
	for _, b := range e {
		if b.op != OConst {
			return Value{P: &SymStr{e: e}}
		}
	}
	var sb strings.Builder
	for _, b := range e {
		sb.WriteByte(byte(b.v))
	}
	return Value{P: sb.String()}
}

func hasFrag(v Value) bool {
	s, ok := v.P.(*SymStr)
	if !ok {
		return false
	}
	if s.frag == 0 {
		s.frag = 1
		for _, e := range s.e {
			if e.sort == 'x' {
				s.frag = 2
				break
			}
		}
	}
	return s.frag == 2
}

func (m *M) concat(a, b Value) Value {
	if x, ok := conc(a); ok {
		if y, ok := conc(b); ok {
			m.allocBytes += len(x) + len(y)
			m.checkMem()
			return vStr(x + y)
		}
		if x == "" {
			return b
		}
	}
	if y, ok := conc(b); ok && y == "" {
		return a
	}
	ea, eb := m.elems(a), m.elems(b)
	m.allocBytes += 8 * (len(ea) + len(eb))
	m.checkMem()
	r := make([]*Expr, 0, len(ea)+len(eb))
	r = append(append(r, ea...), eb...)
	return Value{P: &SymStr{e: r}}
}

func (m *M) bytesOf(v Value) Slice {
	switch s := v.P.(type) {
	case nil:
		return Slice{}
	case string:
		r := make(Slice, len(s))
		for i := 0; i < len(s); i++ {
			r[i].N = uint64(s[i])
		}
		return r
	case *SymStr:
		r := make(Slice, len(s.e))
		for i, e := range s.e {
			r[i] = vExpr(e)
		}
		return r
	}
	panic("bytesOf")
}

func (m *M) strOfBytes(s Slice) Value {
	sym := false
	for i := range s {
		if s[i].P != nil {
			sym = true
			break
		}
	}
	m.allocBytes += len(s)
	m.checkMem()
	if !sym {
		b := make([]byte, len(s))
		for i := range s {
			b[i] = byte(s[i].N)
		}
		return vStr(string(b))
	}
	r := make([]*Expr, len(s))
	for i := range s {
		if e, ok := s[i].P.(*Expr); ok {
			r[i] = e
		} else {
			r[i] = m.x.bytes[byte(s[i].N)]
		}
	}
	return Value{P: &SymStr{e: r}}
}

func substr(v Value, lo, hi int) Value {
	switch s := v.P.(type) {
	case nil:
		return v
	case string:
		return vStr(s[lo:hi])
	case *SymStr:
		return mkStr(s.e[lo:hi:hi])
	}
	panic("substr")
}

func f64(v Value) float64 { return math.Float64frombits(v.N) }
