package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type binFn func(fr *frame, a, b Value) Value

func (k *fnCompiler) binop(op token.Token, t, ty types.Type) binFn {
	s := scalarOf(t)
	switch op {
	case token.EQL, token.NEQ:
		neg := op == token.NEQ
		switch s.kind {
		case 'i', 'b':
			return func(fr *frame, a, b Value) Value {
				if a.P == nil && b.P == nil {
					return vBool((a.N == b.N) != neg)
				}
				m := fr.m
				e := m.x.Eq(m.expr(a, s), m.expr(b, s))
				if neg {
					e = m.x.Not(e)
				}
				return vExpr(e)
			}
		}
		raw := k.c.raw
		return func(fr *frame, a, b Value) Value {
			e := fr.m.valEq(fr, t, a, b, raw)
			if neg {
				e = fr.m.x.Not(e)
			}
			return vExpr(e)
		}
	}
	switch s.kind {
	case 's':
		switch op {
		case token.ADD:
			return func(fr *frame, a, b Value) Value { return fr.m.concat(a, b) }
		case token.LSS:
			return func(fr *frame, a, b Value) Value { return vExpr(fr.m.strLess(a, b)) }
		case token.GTR:
			return func(fr *frame, a, b Value) Value { return vExpr(fr.m.strLess(b, a)) }
		case token.LEQ:
			return func(fr *frame, a, b Value) Value { return vExpr(fr.m.x.Not(fr.m.strLess(b, a))) }
		case token.GEQ:
			return func(fr *frame, a, b Value) Value { return vExpr(fr.m.x.Not(fr.m.strLess(a, b))) }
		}
	case 'f':
		return floatBin(op, s)
	case 'i':
		return intBin(op, s, scalarOf(ty))
	case 'b':
		switch op {
		case token.AND, token.LAND:
			return func(fr *frame, a, b Value) Value { return vExpr(fr.m.x.And(fr.m.expr(a, s), fr.m.expr(b, s))) }
		case token.OR, token.LOR:
			return func(fr *frame, a, b Value) Value { return vExpr(fr.m.x.Or(fr.m.expr(a, s), fr.m.expr(b, s))) }
		}
	}
	return func(fr *frame, a, b Value) Value {
		panic(unsupported{fmt.Sprintf("binop %s on %s in %s", op, t, fr.fn.name)})
	}
}

func floatBin(op token.Token, s scalar) binFn {
	var eop Op
	swap, cmp := false, false
	switch op {
	case token.ADD:
		eop = OFAdd
	case token.SUB:
		eop = OFSub
	case token.MUL:
		eop = OFMul
	case token.QUO:
		eop = OFDiv
	case token.LSS:
		eop, cmp = OFLt, true
	case token.LEQ:
		eop, cmp = OFLe, true
	case token.GTR:
		eop, cmp, swap = OFLt, true, true
	case token.GEQ:
		eop, cmp, swap = OFLe, true, true
	}
	_ = cmp
	return func(fr *frame, a, b Value) Value {
		if swap {
			a, b = b, a
		}
		if a.P == nil && b.P == nil {
			if s.w == 64 {
				x, y := math.Float64frombits(a.N), math.Float64frombits(b.N)
				switch eop {
				case OFAdd:
					return Value{N: math.Float64bits(x + y)}
				case OFSub:
					return Value{N: math.Float64bits(x - y)}
				case OFMul:
					return Value{N: math.Float64bits(x * y)}
				case OFDiv:
					return Value{N: math.Float64bits(x / y)}
				case OFLt:
					return vBool(x < y)
				case OFLe:
					return vBool(x <= y)
				}
			}
		}
		return vExpr(fr.m.x.FBin(eop, fr.m.expr(a, s), fr.m.expr(b, s)))
	}
}

func intBin(op token.Token, s, sy scalar) binFn {
	w := s.w
	mk := mask(w)
	sym := func(eop Op) binFn {
		return func(fr *frame, a, b Value) Value {
			return vExpr(fr.m.x.Bin(eop, fr.m.expr(a, s), fr.m.expr(b, s)))
		}
	}
	pick := func(sg, us Op) Op {
		if s.signed {
			return sg
		}
		return us
	}
	switch op {
	case token.ADD:
		f := sym(OAdd)
		return func(fr *frame, a, b Value) Value {
			if a.P == nil && b.P == nil {
				return Value{N: (a.N + b.N) & mk}
			}
			return f(fr, a, b)
		}
	case token.SUB:
		f := sym(OSub)
		return func(fr *frame, a, b Value) Value {
			if a.P == nil && b.P == nil {
				return Value{N: (a.N - b.N) & mk}
			}
			return f(fr, a, b)
		}
	case token.MUL:
		f := sym(OMul)
		return func(fr *frame, a, b Value) Value {
			if a.P == nil && b.P == nil {
				return Value{N: (a.N * b.N) & mk}
			}
			return f(fr, a, b)
		}
	case token.AND:
		f := sym(OBAnd)
		return func(fr *frame, a, b Value) Value {
			if a.P == nil && b.P == nil {
				return Value{N: a.N & b.N}
			}
			return f(fr, a, b)
		}
	case token.OR:
		f := sym(OBOr)
		return func(fr *frame, a, b Value) Value {
			if a.P == nil && b.P == nil {
				return Value{N: a.N | b.N}
			}
			return f(fr, a, b)
		}
	case token.XOR:
		f := sym(OBXor)
		return func(fr *frame, a, b Value) Value {
			if a.P == nil && b.P == nil {
				return Value{N: a.N ^ b.N}
			}
			return f(fr, a, b)
		}
	case token.AND_NOT:
		return func(fr *frame, a, b Value) Value {
			if a.P == nil && b.P == nil {
				return Value{N: a.N &^ b.N}
			}
			return vExpr(fr.m.x.Bin(OBAnd, fr.m.expr(a, s), fr.m.x.Un(OBNot, fr.m.expr(b, s))))
		}
	case token.QUO, token.REM:
		var eop Op
		if op == token.QUO {
			eop = pick(OSDiv, OUDiv)
		} else {
			eop = pick(OSRem, OURem)
		}
		return func(fr *frame, a, b Value) Value {
			if e, ok := b.P.(*Expr); ok {
				if fr.m.branch(fr.m.x.Eq(e, fr.m.x.Const(w, 0))) {
					fr.m.rtPanic(fr, "integer divide by zero")
				}
			} else if b.N == 0 {
				fr.m.rtPanic(fr, "integer divide by zero")
			}
			return vExpr(fr.m.x.Bin(eop, fr.m.expr(a, s), fr.m.expr(b, s)))
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		lt, le := pick(OSlt, OUlt), pick(OSle, OUle)
		sg := s.signed
		return func(fr *frame, a, b Value) Value {
			if a.P == nil && b.P == nil {
				if sg {
					x, y := sx(a.N, w), sx(b.N, w)
					switch op {
					case token.LSS:
						return vBool(x < y)
					case token.LEQ:
						return vBool(x <= y)
					case token.GTR:
						return vBool(x > y)
					}
					return vBool(x >= y)
				}
				x, y := a.N, b.N
				switch op {
				case token.LSS:
					return vBool(x < y)
				case token.LEQ:
					return vBool(x <= y)
				case token.GTR:
					return vBool(x > y)
				}
				return vBool(x >= y)
			}
			x, y := fr.m.expr(a, s), fr.m.expr(b, s)
			switch op {
			case token.LSS:
				return vExpr(fr.m.x.cmp(lt, x, y))
			case token.LEQ:
				return vExpr(fr.m.x.cmp(le, x, y))
			case token.GTR:
				return vExpr(fr.m.x.cmp(lt, y, x))
			}
			return vExpr(fr.m.x.cmp(le, y, x))
		}
	case token.SHL, token.SHR:
		eop := OShl
		if op == token.SHR {
			eop = pick(OAshr, OLshr)
		}
		return func(fr *frame, a, b Value) Value {
			m := fr.m
			if b.P == nil {
				if sy.signed && sx(b.N, sy.w) < 0 {
					m.rtPanic(fr, "negative shift amount")
				}
				if a.P == nil {
					sh := b.N
					switch {
					case eop == OShl:
						if sh >= uint64(w) {
							return Value{}
						}
						return Value{N: (a.N << sh) & mk}
					case eop == OLshr:
						if sh >= uint64(w) {
							return Value{}
						}
						return Value{N: a.N >> sh}
					default:
						if sh >= uint64(w) {
							sh = uint64(w) - 1
						}
						return Value{N: uint64(sx(a.N, w)>>sh) & mk}
					}
				}
				sh := b.N
				if sh > uint64(w) {
					sh = uint64(w)
				}
				return vExpr(m.x.Bin(eop, m.expr(a, s), m.x.Const(w, sh)))
			}
			be := m.expr(b, sy)
			if sy.signed {
				if m.branch(m.x.cmp(OSlt, be, m.x.Const(sy.w, 0))) {
					m.rtPanic(fr, "negative shift amount")
				}
			}
			if sy.w > w {
				// saturate
				be = m.x.Conv(m.x.Ite(m.x.cmp(OUlt, be, m.x.Const(sy.w, uint64(w))), be, m.x.Const(sy.w, uint64(w))), w, false)
			} else {
				be = m.x.Conv(be, w, false)
			}
			return vExpr(m.x.Bin(eop, m.expr(a, s), be))
		}
	}
	return func(fr *frame, a, b Value) Value { panic(unsupported{"int op " + op.String()}) }
}

// valEq is Go's == on values of type t.
func (m *M) valEq(fr *frame, t types.Type, a, b Value, raw bool) *Expr {
	x := m.x
	switch u := t.Underlying().(type) {
	case *types.Basic:
		s := scalarOf(t)
		switch s.kind {
		case 'i', 'b':
			return x.Eq(m.expr(a, s), m.expr(b, s))
		case 'f':
			return x.FBin(OFEq, m.expr(a, s), m.expr(b, s))
		case 's':
			return m.strEq(a, b)
		}
		return x.Bool(samePtr(a, b))
	case *types.Interface:
		ia, _ := a.P.(*Iface)
		ib, _ := b.P.(*Iface)
		if ia == nil || ib == nil {
			return x.Bool(ia == nil && ib == nil)
		}
		if ia.rt != ib.rt {
			return x.False
		}
		if !types.Comparable(ia.rt.t) {
			m.rtPanic(fr, "comparing uncomparable type "+ia.rt.t.String())
		}
		return m.valEq(fr, ia.rt.t, ia.v, ib.v, raw)
	case *types.Struct:
		aa, ab := a.P.(*Agg), b.P.(*Agg)
		r := x.True
		for i := 0; i < u.NumFields(); i++ {
			r = x.And(r, m.valEq(fr, u.Field(i).Type(), aa.E[i], ab.E[i], raw))
		}
		return r
	case *types.Array:
		aa, ab := a.P.(*Agg), b.P.(*Agg)
		r := x.True
		for i := range aa.E {
			r = x.And(r, m.valEq(fr, u.Elem(), aa.E[i], ab.E[i], raw))
		}
		return r
	}
	return x.Bool(samePtr(a, b))
}

func samePtr(a, b Value) bool {
	switch p := a.P.(type) {
	case nil:
		return b.P == nil && a.N == b.N
	case *Value:
		q, ok := b.P.(*Value)
		return ok && p == q
	case *Map:
		q, ok := b.P.(*Map)
		return ok && p == q
	case Slice, *Closure:
		return false // only compared with nil
	}
	if b.P == nil {
		return false
	}
	if reflect.TypeOf(a.P) != reflect.TypeOf(b.P) {
		return false
	}
	return a.P == b.P
}

// ---- strings

func (m *M) strEq(a, b Value) *Expr {
	if x, ok := conc(a); ok {
		if y, ok := conc(b); ok {
			return m.x.Bool(x == y)
		}
	}
	if hasFrag(a) || hasFrag(b) {
		return m.fragEq(a, b)
	}
	if strLen(a) != strLen(b) {
		return m.x.False
	}
	ea, eb := m.elems(a), m.elems(b)
	// cheap refutation on constants first
	for i := range ea {
		if ea[i].op == OConst && eb[i].op == OConst && ea[i] != eb[i] {
			return m.x.False
		}
	}
	r := m.x.True
	for i := range ea {
		r = m.x.And(r, m.x.Eq(ea[i], eb[i]))
		if r == m.x.False {
			break
		}
	}
	return r
}

func (m *M) strLess(a, b Value) *Expr {
	if x, ok := conc(a); ok {
		if y, ok := conc(b); ok {
			return m.x.Bool(x < y)
		}
	}
	a, b = m.defrag(a), m.defrag(b)
	ea, eb := m.elems(a), m.elems(b)
	n := min(len(ea), len(eb))
	r := m.x.Bool(len(ea) < len(eb))
	for i := n - 1; i >= 0; i-- {
		r = m.x.Or(m.x.cmp(OUlt, ea[i], eb[i]), m.x.And(m.x.Eq(ea[i], eb[i]), r))
	}
	return r
}

func (m *M) strIndex(fr *frame, v, iv Value, is scalar, raw bool) Value {
	if !raw {
		v = m.defrag(v)
	}
	n := strLen(v)
	if e, ok := iv.P.(*Expr); ok {
		m.boundsCheck(fr, e, is, n)
		if s, ok := conc(v); ok {
			if core := byteCore(e); core != nil {
				t := make([]uint64, 256)
				for i := range t {
					if i < len(s) {
						t[i] = uint64(s[i])
					}
				}
				return vExpr(m.x.Lookup(core, t, 8))
			}
		}
		es := m.elems(v)
		if n <= 40 {
			r := es[n-1]
			for i := n - 2; i >= 0; i-- {
				r = m.x.Ite(m.x.Eq(e, m.x.Const(e.w, uint64(i))), es[i], r)
			}
			return vExpr(r)
		}
		iv = Value{N: m.concretize(e)}
	}
	i := sx(iv.N, is.w)
	if !is.signed {
		i = int64(iv.N)
	}
	if i < 0 || i >= int64(n) {
		m.rtPanic(fr, fmt.Sprintf("index out of range [%d] with length %d", i, n))
	}
	switch s := v.P.(type) {
	case string:
		return Value{N: uint64(s[i])}
	case *SymStr:
		return vExpr(s.e[i])
	}
	panic("strIndex")
}

func byteCore(e *Expr) *Expr {
	for e.op == OZext {
		e = e.a
	}
	if e.w <= 8 {
		return e
	}
	return nil
}

func (m *M) boundsCheck(fr *frame, e *Expr, is scalar, n int) {
	var in *Expr
	if is.w < 64 && uint64(n) > mask(is.w) {
		in = m.x.True
	} else {
		in = m.x.cmp(OUlt, e, m.x.Const(e.w, uint64(n)))
	}
	if !m.branch(in) {
		m.rtPanic(fr, fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
}

func (m *M) symIndex(fr *frame, arr []Value, e *Expr, is, es scalar, onlyLoad bool) *Value {
	m.boundsCheck(fr, e, is, len(arr))
	if onlyLoad {
		core := byteCore(e)
		if es.kind == 'i' || es.kind == 'b' {
			allc := true
			for i := range arr {
				if arr[i].P != nil {
					allc = false
					break
				}
			}
			if core != nil && allc {
				t := make([]uint64, 256)
				for i := range t {
					if i < len(arr) {
						t[i] = arr[i].N
					}
				}
				r := m.x.Lookup(core, t, es.w)
				v := vExpr(r)
				if es.kind == 'b' {
					v = vExpr(m.x.Eq(r, m.x.Const(1, 1)))
				}
				return &v
			}
			if len(arr) <= 64 {
				r := m.expr(arr[len(arr)-1], es)
				for i := len(arr) - 2; i >= 0; i-- {
					r = m.x.Ite(m.x.Eq(e, m.x.Const(e.w, uint64(i))), m.expr(arr[i], es), r)
				}
				v := vExpr(r)
				return &v
			}
		}
		if core != nil {
			// partition the index range by identical element
			var reps []int
			var members [][]uint64
			for i := range arr {
				if i > 255 {
					break
				}
				g := -1
				for j, r := range reps {
					if identical(arr[i], arr[r]) {
						g = j
						break
					}
				}
				if g < 0 {
					g = len(reps)
					reps = append(reps, i)
					members = append(members, make([]uint64, 256))
				}
				members[g][i] = 1
			}
			for j := 0; j < len(reps)-1; j++ {
				if m.branch(m.x.Eq(m.x.Lookup(core, members[j], 1), m.x.Const(1, 1))) {
					return &arr[reps[j]]
				}
			}
			return &arr[reps[len(reps)-1]]
		}
	}
	i := m.concretize(e)
	return &arr[i]
}

func identical(a, b Value) bool {
	if a.N != b.N {
		return false
	}
	switch p := a.P.(type) {
	case nil:
		return b.P == nil
	case Slice:
		q, ok := b.P.(Slice)
		return ok && len(p) == len(q) && cap(p) == cap(q) && (len(p) == 0 || &p[0] == &q[0])
	case string:
		q, ok := b.P.(string)
		return ok && p == q
	case *Agg:
		q, ok := b.P.(*Agg)
		if !ok || len(p.E) != len(q.E) {
			return false
		}
		for i := range p.E {
			if !identical(p.E[i], q.E[i]) {
				return false
			}
		}
		return true
	case *Value, *Iface, *Closure, *Map, *Expr, *SymStr:
		return a.P == b.P
	}
	return false
}

type strIter struct {
	s   Value
	pos int
}

func (m *M) strNext(fr *frame, it *strIter) Value {
	n := strLen(it.s)
	if it.pos >= n {
		return Value{P: &Agg{E: []Value{vBool(false), {}, {}}}}
	}
	old := it.pos
	r, sz := m.decodeRune(fr, it.s, it.pos)
	// iterators are registers, not memory, but mutated: paths re-execute from scratch so no undo needed
	it.pos += sz
	return Value{P: &Agg{E: []Value{vBool(true), vInt(int64(old)), r}}}
}

func (m *M) decodeRune(fr *frame, s Value, i int) (Value, int) {
	switch p := s.P.(type) {
	case string:
		r, n := utf8.DecodeRuneInString(p[i:])
		return Value{N: uint64(uint32(r))}, n
	case *SymStr:
		b := p.e[i]
		if b.op == OConst && b.v < 0x80 {
			return Value{N: b.v}, 1
		}
		if b.op != OConst {
			if m.branch(m.x.cmp(OUlt, b, m.x.bytes[0x80])) {
				return vExpr(m.x.Conv(b, 32, false)), 1
			}
		}
		end := min(i+4, len(p.e))
		f := m.P.stdFunc("unicode/utf8", "DecodeRuneInString")
		r := m.call(fr, f, []Value{substr(s, i, end)}, nil).P.(*Agg)
		return r.E[0], int(r.E[1].N)
	}
	panic("decodeRune")
}

// runeToStr is string(rune).
func (m *M) runeToStr(fr *frame, v Value, s scalar) Value {
	e, ok := v.P.(*Expr)
	if !ok {
		r := sx(v.N, s.w)
		if !s.signed {
			r = int64(v.N)
		}
		if r < 0 || r > 0x10ffff {
			r = 0xfffd
		}
		return vStr(string(rune(r)))
	}
	if m.branch(m.x.cmp(OUlt, e, m.x.Const(e.w, min(0x80, mask(e.w))))) {
		return mkStr([]*Expr{m.x.Conv(e, 8, false)})
	}
	if e.w > 32 {
		if !m.branch(m.x.cmp(OUlt, e, m.x.Const(e.w, 0x110000))) {
			return vStr("\uFFFD")
		}
	}
	f := m.P.stdFunc("unicode/utf8", "AppendRune")
	r := m.call(fr, f, []Value{{}, vExpr(m.x.Conv(e, 32, s.signed))}, nil)
	sl, _ := r.P.(Slice)
	return m.strOfBytes(sl)
}

func (P *Program) stdFunc(pkg, name string) *cfunc {
	p := P.L.pkgs[pkg]
	if p == nil || p.Func(name) == nil {
		panic(unsupported{"missing " + pkg + "." + name})
	}
	return P.cfn(p.Func(name))
}

func (m *M) strToRunes(fr *frame, v Value) Slice {
	v = m.defrag(v)
	r := Slice{}
	for i := 0; i < strLen(v); {
		rv, n := m.decodeRune(fr, v, i)
		r = append(r, rv)
		i += n
	}
	return r
}

// ---- conversions

func (k *fnCompiler) convert(from, to types.Type) func(fr *frame, v Value) Value {
	fs, ts := scalarOf(from), scalarOf(to)
	ft, tt := from.Underlying(), to.Underlying()
	switch {
	case fs.kind == 'i' && ts.kind == 'i':
		return func(fr *frame, v Value) Value {
			if e, ok := v.P.(*Expr); ok {
				return vExpr(fr.m.x.Conv(e, ts.w, fs.signed))
			}
			n := v.N
			if fs.signed {
				n = uint64(sx(n, fs.w))
			}
			return Value{N: n & mask(ts.w)}
		}
	case fs.kind == 'i' && ts.kind == 'f':
		return func(fr *frame, v Value) Value {
			op := OUI2F
			if fs.signed {
				op = OSI2F
			}
			return vExpr(fr.m.x.FUn(op, fr.m.expr(v, fs), uint64(ts.w)))
		}
	case fs.kind == 'f' && ts.kind == 'i':
		return func(fr *frame, v Value) Value {
			m := fr.m
			e := m.expr(v, fs)
			if ts.signed || ts.w < 32 {
				return vExpr(m.x.FUn(OF2SI, e, uint64(ts.w)))
			}
			if ts.w == 32 {
				return vExpr(m.x.Conv(m.x.FUn(OF2SI, e, 64), 32, false))
			}
			if e.isConst() {
				return Value{N: f2ui(fval(e.w, e.v), 64)}
			}
			lim := m.x.FConst(e.w, fbits(e.w, 9223372036854775808.0))
			return vExpr(m.x.Ite(m.x.FBin(OFLt, e, lim), m.x.FUn(OF2SI, e, 64),
				m.x.Bin(OBXor, m.x.FUn(OF2SI, m.x.FBin(OFSub, e, lim), 64), m.x.Const(64, 1<<63))))
		}
	case fs.kind == 'f' && ts.kind == 'f':
		return func(fr *frame, v Value) Value { return vExpr(fr.m.x.FUn(OF2F, fr.m.expr(v, fs), uint64(ts.w))) }
	case fs.kind == 's' && ts.kind == 's':
		return func(fr *frame, v Value) Value { return v }
	case fs.kind == 'i' && ts.kind == 's':
		return func(fr *frame, v Value) Value { return fr.m.runeToStr(fr, v, fs) }
	}
	if sl, ok := tt.(*types.Slice); ok && fs.kind == 's' {
		if scalarOf(sl.Elem()).w == 8 {
			raw := k.c.raw
			_ = raw
			return func(fr *frame, v Value) Value {
				b := fr.m.bytesOf(v)
				fr.m.allocBytes += len(b)
				fr.m.checkMem()
				return Value{P: b}
			}
		}
		return func(fr *frame, v Value) Value { return Value{P: fr.m.strToRunes(fr, v)} }
	}
	if sl, ok := ft.(*types.Slice); ok && ts.kind == 's' {
		if scalarOf(sl.Elem()).w == 8 {
			return func(fr *frame, v Value) Value {
				s, _ := v.P.(Slice)
				return fr.m.strOfBytes(s)
			}
		}
		es := scalarOf(sl.Elem())
		return func(fr *frame, v Value) Value {
			s, _ := v.P.(Slice)
			var parts []*Expr
			var sb strings.Builder
			sym := false
			for i := range s {
				if s[i].P != nil {
					sym = true
				}
			}
			for i := range s {
				c := fr.m.runeToStr(fr, s[i], es)
				if sym {
					parts = append(parts, fr.m.elems(c)...)
				} else {
					x, _ := conc(c)
					sb.WriteString(x)
				}
			}
			if sym {
				return mkStr(parts)
			}
			return vStr(sb.String())
		}
	}
	// pointer / unsafe.Pointer conversions: identity on the representation
	return func(fr *frame, v Value) Value { return v }
}

// ---- slices

func (m *M) intArg(fr *frame, v Value, s scalar) int64 {
	if e, ok := v.P.(*Expr); ok {
		return sx(m.concretize(e), s.w)
	}
	if !s.signed {
		return int64(v.N)
	}
	return sx(v.N, s.w)
}

func (k *fnCompiler) slice(in *ssa.Slice, d int) func(fr *frame) {
	x := k.get(in.X)
	var lo, hi, mx getter
	var los, his, mxs scalar
	if in.Low != nil {
		lo, los = k.get(in.Low), scalarOf(in.Low.Type())
	}
	if in.High != nil {
		hi, his = k.get(in.High), scalarOf(in.High.Type())
	}
	if in.Max != nil {
		mx, mxs = k.get(in.Max), scalarOf(in.Max.Type())
	}
	isStr := scalarOf(in.X.Type()).kind == 's'
	_, isPtr := in.X.Type().Underlying().(*types.Pointer)
	raw := k.c.raw
	return func(fr *frame) {
		m := fr.m
		v := x(fr)
		var arr []Value
		n, c := 0, 0
		nilSlice := false
		switch {
		case isStr:
			if !raw {
				v = m.defrag(v)
			}
			n = strLen(v)
			c = n
		case isPtr:
			a, ok := m.ptr(fr, v).P.(*Agg)
			if !ok {
				panic(unsupported{"slice of opaque array"})
			}
			arr = a.E
			n = len(arr)
			c = n
		default:
			if v.P == nil {
				nilSlice = true
			} else {
				s, ok := v.P.(Slice)
				if !ok {
					panic(unsupported{"slice of opaque value"})
				}
				arr = s
				n, c = len(s), cap(s)
			}
		}
		bound := func(g getter, s scalar, def int, limit int, what string) int {
			if g == nil {
				return def
			}
			bv := g(fr)
			if e, ok := bv.P.(*Expr); ok {
				if !m.branch(m.x.cmp(OUle, m.x.Conv(e, 64, s.signed), m.x.Const(64, uint64(limit)))) {
					m.rtPanic(fr, fmt.Sprintf("slice bounds out of range [symbolic] with capacity %d", limit))
				}
			}
			i := m.intArg(fr, bv, s)
			if i < 0 || i > int64(limit) {
				m.rtPanic(fr, fmt.Sprintf("slice bounds out of range [%s%d] with capacity %d", what, i, limit))
			}
			return int(i)
		}
		cm := bound(mx, mxs, c, c, "::")
		h := bound(hi, his, n, cm, ":")
		if h > cm {
			m.rtPanic(fr, "slice bounds out of range")
		}
		l := bound(lo, los, 0, h, "")
		switch {
		case isStr:
			fr.regs[d] = substr(v, l, h)
		case nilSlice:
			fr.regs[d] = Value{}
		default:
			fr.regs[d] = Value{P: Slice(arr[l:h:cm])}
		}
	}
}

func (m *M) makeLen(fr *frame, v Value, s scalar, esz int, what string) int {
	if esz < 1 {
		esz = 1
	}
	if e, ok := v.P.(*Expr); ok {
		e64 := m.x.Conv(e, 64, s.signed)
		if !m.branch(m.x.cmp(OUle, e64, m.x.Const(64, uint64(1<<47)/uint64(esz)))) {
			m.rtPanic(fr, "makeslice: "+what+" out of range")
		}
		if !m.branch(m.x.cmp(OUle, e64, m.x.Const(64, uint64(m.maxAlloc/esz)))) {
			panic(limitHit{"memory", "makeslice of more than the allocation budget in " + fr.fn.name})
		}
		return int(m.concretize(e))
	}
	n := sx(v.N, s.w)
	if !s.signed {
		n = int64(v.N)
	}
	if n < 0 || n > (1<<47)/int64(esz) {
		m.rtPanic(fr, "makeslice: "+what+" out of range")
	}
	if n*int64(esz) > int64(m.maxAlloc) {
		panic(limitHit{"memory", fmt.Sprintf("makeslice of %d elements in %s", n, fr.fn.name)})
	}
	return int(n)
}

func (m *M) makeSlice(n, c int, et types.Type) Slice {
	s := make(Slice, c)
	if needsFresh(et) {
		for i := range s {
			s[i] = zero(et)
		}
	}
	return s[:n]
}

var growCache [4096]struct{ typ reflect.Type }

func growCap(esz, oldLen, oldCap, add int) int {
	if esz == 0 {
		return oldLen + add
	}
	// ask the host runtime, which uses the same policy
	t := reflect.ArrayOf(esz, reflect.TypeOf(byte(0)))
	if oldCap > 1<<16 {
		return oldCap + oldCap/4 + add
	}
	s := reflect.MakeSlice(reflect.SliceOf(t), oldLen, oldCap)
	s = reflect.AppendSlice(s, reflect.MakeSlice(reflect.SliceOf(t), add, add))
	return s.Cap()
}

type growKey struct{ e, l, c, a int }

func (m *M) appendVals(old Slice, add Slice, et types.Type) Slice {
	n := len(old) + len(add)
	if n <= cap(old) {
		r := old[:n]
		for i := range add {
			if _, ok := add[i].P.(*Agg); ok {
				m.store(&r[len(old)+i], add[i])
			} else {
				m.set(&r[len(old)+i], add[i])
			}
		}
		return r
	}
	esz := int(sizes.Sizeof(et))
	c := growCap(esz, len(old), cap(old), len(add))
	if c < n {
		c = n
	}
	m.allocBytes += c * max(esz, 1)
	m.checkMem()
	r := make(Slice, n, c)
	full := r[:c]
	copyVals(full, old)
	copyVals(full[len(old):], add)
	if needsFresh(et) {
		for i := n; i < c; i++ {
			full[i] = zero(et)
		}
	}
	return r
}

func copyVals(dst, src Slice) {
	for i := range src {
		dst[i] = loadVal(src[i])
	}
}

func (k *fnCompiler) builtin(b *ssa.Builtin, c *ssa.CallCommon) func(fr *frame, a []Value) Value {
	raw := k.c.raw
	switch b.Name() {
	case "len":
		t := c.Args[0].Type().Underlying()
		if scalarOf(c.Args[0].Type()).kind == 's' {
			return func(fr *frame, a []Value) Value {
				v := a[0]
				if !raw {
					v = fr.m.defrag(v)
				}
				return vInt(int64(strLen(v)))
			}
		}
		return func(fr *frame, a []Value) Value {
			switch p := a[0].P.(type) {
			case nil:
				if at, ok := t.(*types.Array); ok {
					return vInt(at.Len())
				}
				return Value{}
			case Slice:
				return vInt(int64(len(p)))
			case *Map:
				if fr.m.tr != nil {
					fr.m.tr.accessMap(fr, p, false)
				}
				return vInt(int64(p.live))
			case *Agg:
				return vInt(int64(len(p.E)))
			case *Value:
				return vInt(int64(len(p.P.(*Agg).E)))
			}
			panic(unsupported{"len of opaque value"})
		}
	case "cap":
		return func(fr *frame, a []Value) Value {
			switch p := a[0].P.(type) {
			case nil:
				return Value{}
			case Slice:
				return vInt(int64(cap(p)))
			case *Agg:
				return vInt(int64(len(p.E)))
			}
			panic(unsupported{"cap of opaque value"})
		}
	case "append":
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		return func(fr *frame, a []Value) Value {
			old, _ := a[0].P.(Slice)
			var add Slice
			switch p := a[1].P.(type) {
			case nil:
				return a[0]
			case Slice:
				add = p
			case string, *SymStr:
				add = fr.m.bytesOf(a[1])
			}
			if len(add) == 0 && a[0].P != nil {
				return a[0]
			}
			if len(add) == 0 {
				return Value{}
			}
			if fr.m.tr != nil {
				fr.m.tr.readAll(fr, add)
				if len(old)+len(add) > cap(old) {
					fr.m.tr.readAll(fr, old)
				}
			}
			return Value{P: fr.m.appendVals(old, add, et)}
		}
	case "copy":
		return func(fr *frame, a []Value) Value {
			dst, _ := a[0].P.(Slice)
			var src Slice
			switch p := a[1].P.(type) {
			case Slice:
				src = p
			case string, *SymStr:
				src = fr.m.bytesOf(a[1])
			}
			n := min(len(dst), len(src))
			if n == 0 {
				return Value{}
			}
			if fr.m.tr != nil {
				fr.m.tr.readAll(fr, src[:n])
			}
			tmp := make(Slice, n)
			copyVals(tmp, src[:n])
			for i := 0; i < n; i++ {
				fr.m.store(&dst[i], tmp[i])
			}
			return vInt(int64(n))
		}
	case "delete":
		kt := c.Args[0].Type().Underlying().(*types.Map).Key()
		return func(fr *frame, a []Value) Value {
			if mp, _ := a[0].P.(*Map); mp != nil {
				if fr.m.tr != nil {
					fr.m.tr.accessMap(fr, mp, true)
				}
				fr.m.mapDelete(fr, mp, a[1], kt)
			}
			return Value{}
		}
	case "clear":
		et := types.Type(nil)
		if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			et = s.Elem()
		}
		return func(fr *frame, a []Value) Value {
			switch p := a[0].P.(type) {
			case *Map:
				fr.m.mapClear(p)
			case Slice:
				for i := range p {
					fr.m.store(&p[i], zero(et))
				}
			}
			return Value{}
		}
	case "min", "max":
		t := c.Args[0].Type()
		s := scalarOf(t)
		isMin := b.Name() == "min"
		return func(fr *frame, a []Value) Value {
			m := fr.m
			r := a[0]
			for _, v := range a[1:] {
				var less *Expr
				switch s.kind {
				case 'i':
					op := OUlt
					if s.signed {
						op = OSlt
					}
					less = m.x.cmp(op, m.expr(v, s), m.expr(r, s))
				case 'f':
					r = m.fminmax(v, r, s, isMin)
					continue
				case 's':
					less = m.strLess(v, r)
				}
				if m.branch(less) == isMin {
					r = v
				}
			}
			return r
		}
	case "recover":
		return func(fr *frame, a []Value) Value { return doRecover(fr) }
	case "print", "println":
		return func(fr *frame, a []Value) Value { return Value{} }
	case "panic":
		return func(fr *frame, a []Value) Value { panic(&tpanic{v: a[0], stack: stackOf(fr)}) }
	case "ssa:wrapnilchk":
		return func(fr *frame, a []Value) Value {
			if a[0].P == nil {
				fr.m.rtPanic(fr, "invalid memory address or nil pointer dereference")
			}
			return a[0]
		}
	case "SliceData":
		return func(fr *frame, a []Value) Value {
			s, _ := a[0].P.(Slice)
			if s == nil {
				return Value{}
			}
			return Value{P: &dataPtr{s: s}}
		}
	case "StringData":
		return func(fr *frame, a []Value) Value { return Value{P: &dataPtr{str: a[0], isS: true}} }
	case "String":
		return func(fr *frame, a []Value) Value {
			n := int(fr.m.intArg(fr, a[1], scalarOf(types.Typ[types.Int])))
			if n == 0 {
				return vStr("")
			}
			if p, ok := a[0].P.(*dataPtr); ok {
				if p.isS {
					return substr(p.str, 0, n)
				}
				return fr.m.strOfBytes(p.s[:n])
			}
			panic(unsupported{"unsafe.String"})
		}
	case "Slice":
		return func(fr *frame, a []Value) Value {
			n := int(fr.m.intArg(fr, a[1], scalarOf(types.Typ[types.Int])))
			if p, ok := a[0].P.(*dataPtr); ok {
				if p.isS {
					return Value{P: fr.m.bytesOf(substr(p.str, 0, n))}
				}
				return Value{P: p.s[:n]}
			}
			if a[0].P == nil && n == 0 {
				return Value{}
			}
			panic(unsupported{"unsafe.Slice"})
		}
	}
	name := b.Name()
	return func(fr *frame, a []Value) Value { panic(unsupported{"builtin " + name}) }
}

// fminmax is the builtin min or max of two floats: NaN wins, and -0 is less than 0.
func (m *M) fminmax(v, r Value, s scalar, isMin bool) Value {
	ev, er := m.expr(v, s), m.expr(r, s)
	switch {
	case m.branch(m.x.FUn(OFIsNaN, ev, 0)):
		return v
	case m.branch(m.x.FUn(OFIsNaN, er, 0)):
		return r
	}
	if !isSym(v) && !isSym(r) {
		a, b := fval(s.w, v.N), fval(s.w, r.N)
		c := max(a, b)
		if isMin {
			c = min(a, b)
		}
		if math.Float64bits(c) == math.Float64bits(a) {
			return v
		}
		return r
	}
	if m.branch(m.x.FBin(OFLt, ev, er)) == isMin {
		return v
	}
	return r
}
