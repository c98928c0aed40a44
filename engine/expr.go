package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Expr is a hash-consed symbolic term. Sorts: 'b' bool, 'v' bit-vector of width w,
// 'f' IEEE float of width w (64 or 32), 'x' opaque text atom (see frag).
type Expr struct {
	op   Op
	sort byte
	w    uint8
	id   uint32
	a, b *Expr
	c    *Expr
	v    uint64 // constant payload / var index / table or rounding-mode parameter
	tab  *Table
	vars *VarSet
	// cached value under the current path's model
	stamp uint32
	val   uint64
	set   *bset // for unary 8-bit predicates: satisfying set
	hard  bool  // holds a wide product, quotient or float operation
}

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OShl
	OLshr
	OAshr
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OZext
	OSext
	OTrunc
	OIte
	OTable
	// floats
	OFBits // BV -> FP reinterpretation
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFLt
	OFLe
	OFEq // IEEE equality
	OFRound
	OFSqrt
	OSI2F
	OUI2F
	OF2SI
	OF2UI
	OF2F
	OFIsNaN
	OFIsInf
	// opaque text atoms
	OFragInt   // decimal text of a signed 64-bit value (a)
	OFragUint  // decimal text of an unsigned 64-bit value
	OFragFloat // strconv.FormatFloat(a, byte(v), int8(v>>8), 64)
)

var opNames = [...]string{"const", "var", "not", "and", "or", "=", "bvult", "bvule", "bvslt", "bvsle", "bvadd", "bvsub", "bvmul", "bvudiv", "bvsdiv", "bvurem", "bvsrem", "bvshl", "bvlshr", "bvashr", "bvand", "bvor", "bvxor", "bvnot", "bvneg", "zext", "sext", "trunc", "ite", "table", "fbits", "fadd", "fsub", "fmul", "fdiv", "fneg", "fabs", "flt", "fle", "feq", "fround", "fsqrt", "si2f", "ui2f", "f2si", "f2ui", "f2f", "fisnan", "fisinf", "fragint", "fraguint", "fragfloat"}

type Table struct {
	id   uint32
	vals []uint64
}

type bset [4]uint64

func (s *bset) has(i uint64) bool { return s[i>>6]&(1<<(i&63)) != 0 }
func (s *bset) add(i uint64)      { s[i>>6] |= 1 << (i & 63) }
func (s bset) and(t bset) bset {
	return bset{s[0] & t[0], s[1] & t[1], s[2] & t[2], s[3] & t[3]}
}
func (s bset) andNot(t bset) bset {
	return bset{s[0] &^ t[0], s[1] &^ t[1], s[2] &^ t[2], s[3] &^ t[3]}
}
func (s bset) empty() bool { return s[0]|s[1]|s[2]|s[3] == 0 }
func (s bset) count() int {
	return bits.OnesCount64(s[0]) + bits.OnesCount64(s[1]) + bits.OnesCount64(s[2]) + bits.OnesCount64(s[3])
}
func (s bset) first() uint64 {
	for i := range s {
		if s[i] != 0 {
			return uint64(i*64 + bits.TrailingZeros64(s[i]))
		}
	}
	return 0
}

// VarSet is an interned sorted set of variable indexes.
type VarSet struct {
	v []int
}

type ekey struct {
	op      Op
	sort    byte
	w       uint8
	a, b, c *Expr
	v       uint64
	tab     *Table
}

// Exprs is the per-worker term universe.
type Exprs struct {
	tbl    map[ekey]*Expr
	n      uint32
	bytes  [256]*Expr
	vars   []*Expr // var index -> term (width by index)
	vsets  map[string]*VarSet
	tabs   map[string]*Table
	True   *Expr
	False  *Expr
	stamp  uint32
	model  []uint64
	nconst int
}

var emptyVars = &VarSet{}

func newExprs() *Exprs {
	x := &Exprs{}
	x.reset()
	return x
}

func (x *Exprs) reset() {
	x.tbl = map[ekey]*Expr{}
	x.vsets = map[string]*VarSet{}
	x.tabs = map[string]*Table{}
	x.vars = nil
	x.True = x.mk(ekey{op: OConst, sort: 'b', w: 1, v: 1})
	x.False = x.mk(ekey{op: OConst, sort: 'b', w: 1, v: 0})
	for i := range x.bytes {
		x.bytes[i] = x.Const(8, uint64(i))
	}
}

func (x *Exprs) mk(k ekey) *Expr {
	if e, ok := x.tbl[k]; ok {
		return e
	}
	e := &Expr{op: k.op, sort: k.sort, w: k.w, a: k.a, b: k.b, c: k.c, v: k.v, tab: k.tab, id: x.n}
	x.n++
	e.hard = k.w > 8 && (k.op == OMul || k.op >= OUDiv && k.op <= OSRem) || k.op >= OFBits && k.op < OFragInt
	if k.op == OVar {
		e.vars = x.internVars([]int{int(k.v)})
	} else {
		vs := emptyVars
		for _, s := range [...]*Expr{k.a, k.b, k.c} {
			if s != nil {
				vs = x.unionVars(vs, s.vars)
				e.hard = e.hard || s.hard
			}
		}
		e.vars = vs
	}
	x.tbl[k] = e
	return e
}

func (x *Exprs) internVars(v []int) *VarSet {
	if len(v) == 0 {
		return emptyVars
	}
	var sb strings.Builder
	for _, i := range v {
		sb.WriteByte(byte(i))
		sb.WriteByte(byte(i >> 8))
	}
	s, ok := x.vsets[sb.String()]
	if !ok {
		s = &VarSet{v}
		x.vsets[sb.String()] = s
	}
	return s
}

func (x *Exprs) unionVars(a, b *VarSet) *VarSet {
	if a == b || len(b.v) == 0 {
		return a
	}
	if len(a.v) == 0 {
		return b
	}
	r := make([]int, 0, len(a.v)+len(b.v))
	i, j := 0, 0
	for i < len(a.v) && j < len(b.v) {
		switch {
		case a.v[i] == b.v[j]:
			r = append(r, a.v[i])
			i++
			j++
		case a.v[i] < b.v[j]:
			r = append(r, a.v[i])
			i++
		default:
			r = append(r, b.v[j])
			j++
		}
	}
	r = append(r, a.v[i:]...)
	r = append(r, b.v[j:]...)
	return x.internVars(r)
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (1 << w) - 1
}

func sx(v uint64, w uint8) int64 {
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (x *Exprs) Const(w uint8, v uint64) *Expr {
	return x.mk(ekey{op: OConst, sort: 'v', w: w, v: v & mask(w)})
}
func (x *Exprs) FConst(w uint8, bitsv uint64) *Expr {
	return x.mk(ekey{op: OConst, sort: 'f', w: w, v: bitsv})
}
func (x *Exprs) Bool(b bool) *Expr {
	if b {
		return x.True
	}
	return x.False
}

// Var returns variable idx with the given width.
func (x *Exprs) Var(idx int, w uint8) *Expr {
	for len(x.vars) <= idx {
		x.vars = append(x.vars, nil)
	}
	e := x.mk(ekey{op: OVar, sort: 'v', w: w, v: uint64(idx)})
	x.vars[idx] = e
	return e
}

func (e *Expr) isConst() bool { return e.op == OConst }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (x *Exprs) Not(a *Expr) *Expr {
	if a.op == OConst {
		return x.Bool(a.v == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return x.mk(ekey{op: ONot, sort: 'b', w: 1, a: a})
}
func (x *Exprs) And(a, b *Expr) *Expr {
	if a == x.False || b == x.False {
		return x.False
	}
	if a == x.True || a == b {
		return b
	}
	if b == x.True {
		return a
	}
	if x.Not(a) == b {
		return x.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return x.mk(ekey{op: OAnd, sort: 'b', w: 1, a: a, b: b})
}
func (x *Exprs) Or(a, b *Expr) *Expr { return x.Not(x.And(x.Not(a), x.Not(b))) }

func (x *Exprs) Ite(c, a, b *Expr) *Expr {
	if c == x.True || a == b {
		return a
	}
	if c == x.False {
		return b
	}
	if a.sort == 'b' {
		return x.Or(x.And(c, a), x.And(x.Not(c), b))
	}
	return x.mk(ekey{op: OIte, sort: a.sort, w: a.w, a: c, b: a, c: b})
}

// Eq is identity of values (for floats: identity of the SMT FP value, one NaN).
func (x *Exprs) Eq(a, b *Expr) *Expr {
	if a == b {
		return x.True
	}
	if a.sort != b.sort || a.w != b.w {
		panic(fmt.Sprintf("Eq sort mismatch %c%d %c%d", a.sort, a.w, b.sort, b.w))
	}
	if a.isConst() && b.isConst() {
		if a.sort == 'f' {
			return x.Bool(a.v == b.v || fIsNaN(a.w, a.v) && fIsNaN(b.w, b.v))
		}
		return x.Bool(a.v == b.v)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OZext:
			if b.v > mask(a.a.w) {
				return x.False
			}
			return x.Eq(a.a, x.Const(a.a.w, b.v))
		case OSext:
			lo := b.v & mask(a.a.w)
			if uint64(sx(lo, a.a.w))&mask(a.w) != b.v {
				return x.False
			}
			return x.Eq(a.a, x.Const(a.a.w, lo))
		case OAdd:
			if a.b.isConst() {
				return x.Eq(a.a, x.Const(a.w, b.v-a.b.v))
			}
		case OIte:
			if a.b.isConst() || a.c.isConst() {
				return x.Or(x.And(a.a, x.Eq(a.b, b)), x.And(x.Not(a.a), x.Eq(a.c, b)))
			}
		}
		if a.sort == 'b' {
			if b.v == 1 {
				return a
			}
			return x.Not(a)
		}
	}
	if a.op == OFBits && b.op == OFBits && false {
		return x.Eq(a.a, b.a)
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return x.mk(ekey{op: OEq, sort: 'b', w: 1, a: a, b: b})
}

func (x *Exprs) cmp(op Op, a, b *Expr) *Expr {
	if a.isConst() && b.isConst() {
		return x.Bool(evalOp(op, 1, a, b, a.v, b.v, 0, 0) == 1)
	}
	if a == b {
		return x.Bool(op == OUle || op == OSle)
	}
	// push comparisons of zero-extended values down
	if a.op == OZext && b.isConst() {
		m := mask(a.a.w)
		k := b.v
		signed := op == OSlt || op == OSle
		if signed && sx(k, b.w) < 0 {
			return x.False
		}
		if k > m {
			return x.True
		}
		nop := op
		if op == OSlt {
			nop = OUlt
		} else if op == OSle {
			nop = OUle
		}
		return x.cmp(nop, a.a, x.Const(a.a.w, k))
	}
	if b.op == OZext && a.isConst() {
		m := mask(b.a.w)
		k := a.v
		signed := op == OSlt || op == OSle
		if signed && sx(k, a.w) < 0 {
			return x.True
		}
		if k > m {
			return x.False
		}
		nop := op
		if op == OSlt {
			nop = OUlt
		} else if op == OSle {
			nop = OUle
		}
		return x.cmp(nop, x.Const(b.a.w, k), b.a)
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		nop := op
		if op == OSlt {
			nop = OUlt
		} else if op == OSle {
			nop = OUle
		}
		return x.cmp(nop, a.a, b.a)
	}
	switch op {
	case OUlt:
		if b.isConst() && b.v == 0 {
			return x.False
		}
	case OUle:
		if a.isConst() && a.v == 0 {
			return x.True
		}
	}
	// canonicalise: a<=b  ==  !(b<a)
	if op == OUle {
		return x.Not(x.cmp(OUlt, b, a))
	}
	if op == OSle {
		return x.Not(x.cmp(OSlt, b, a))
	}
	return x.mk(ekey{op: op, sort: 'b', w: 1, a: a, b: b})
}

func (x *Exprs) Bin(op Op, a, b *Expr) *Expr {
	switch op {
	case OUlt, OUle, OSlt, OSle:
		return x.cmp(op, a, b)
	}
	w := a.w
	if a.isConst() && b.isConst() {
		return x.Const(w, evalOp(op, w, a, b, a.v, b.v, 0, 0))
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if a.isConst() {
			a, b = b, a
		}
	}
	if b.isConst() {
		k := b.v
		switch op {
		case OAdd:
			if k == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return x.Bin(OAdd, a.a, x.Const(w, a.b.v+k))
			}
		case OSub:
			return x.Bin(OAdd, a, x.Const(w, -k))
		case OMul:
			if k == 0 {
				return b
			}
			if k == 1 {
				return a
			}
		case OBAnd:
			if k == 0 {
				return b
			}
			if k == mask(w) {
				return a
			}
		case OBOr:
			if k == 0 {
				return a
			}
			if k == mask(w) {
				return b
			}
		case OBXor, OShl, OLshr, OAshr:
			if k == 0 {
				return a
			}
			if op == OLshr && k >= uint64(w) || op == OShl && k >= uint64(w) {
				return x.Const(w, 0)
			}
		case OUDiv, OSDiv:
			if k == 1 {
				return a
			}
		}
	}
	if a == b {
		switch op {
		case OSub, OBXor:
			return x.Const(w, 0)
		case OBAnd, OBOr:
			return a
		}
	}
	if op == OAdd || op == OMul || op == OBAnd || op == OBOr || op == OBXor {
		if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	}
	return x.mk(ekey{op: op, sort: 'v', w: w, a: a, b: b})
}

func (x *Exprs) Un(op Op, a *Expr) *Expr {
	if a.isConst() {
		return x.Const(a.w, evalOp(op, a.w, a, nil, a.v, 0, 0, 0))
	}
	if a.op == op {
		return a.a
	}
	return x.mk(ekey{op: op, sort: 'v', w: a.w, a: a})
}

// Conv resizes a bit-vector.
func (x *Exprs) Conv(a *Expr, w uint8, signed bool) *Expr {
	if a.w == w {
		return a
	}
	if a.isConst() {
		if w > a.w && signed {
			return x.Const(w, uint64(sx(a.v, a.w)))
		}
		return x.Const(w, a.v)
	}
	if w < a.w {
		if (a.op == OZext || a.op == OSext) && a.a.w >= w {
			return x.Conv(a.a, w, false)
		}
		if a.op == OZext && a.a.w < w {
			return x.Conv(a.a, w, false)
		}
		if a.op == OSext && a.a.w < w {
			return x.Conv(a.a, w, true)
		}
		return x.mk(ekey{op: OTrunc, sort: 'v', w: w, a: a})
	}
	if a.op == OZext {
		return x.mk(ekey{op: OZext, sort: 'v', w: w, a: a.a})
	}
	op := OZext
	if signed {
		op = OSext
	}
	return x.mk(ekey{op: op, sort: 'v', w: w, a: a})
}

// Lookup is table[idx] for an 8-bit (or narrower) index over a 256-entry table.
func (x *Exprs) Lookup(idx *Expr, vals []uint64, w uint8) *Expr {
	if idx.isConst() {
		return x.Const(w, vals[idx.v])
	}
	var sb strings.Builder
	for _, v := range vals {
		for i := 0; i < 8; i++ {
			sb.WriteByte(byte(v >> (8 * i)))
		}
	}
	t, ok := x.tabs[sb.String()]
	if !ok {
		t = &Table{id: uint32(len(x.tabs)), vals: append([]uint64(nil), vals...)}
		x.tabs[sb.String()] = t
	}
	return x.mk(ekey{op: OTable, sort: 'v', w: w, a: idx, tab: t})
}

// ---- floats

func fIsNaN(w uint8, b uint64) bool {
	if w == 32 {
		return math.IsNaN(float64(math.Float32frombits(uint32(b))))
	}
	return math.IsNaN(math.Float64frombits(b))
}
func fval(w uint8, b uint64) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(b)))
	}
	return math.Float64frombits(b)
}
func fbits(w uint8, f float64) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func (x *Exprs) FromBits(a *Expr) *Expr {
	if a.isConst() {
		return x.FConst(a.w, a.v)
	}
	return x.mk(ekey{op: OFBits, sort: 'f', w: a.w, a: a})
}

func (x *Exprs) FBin(op Op, a, b *Expr) *Expr {
	srt, w := byte('f'), a.w
	if op == OFLt || op == OFLe || op == OFEq {
		srt, w = 'b', 1
	}
	if a.isConst() && b.isConst() {
		v := evalOp(op, w, a, b, a.v, b.v, 0, 0)
		if srt == 'b' {
			return x.Bool(v == 1)
		}
		return x.FConst(w, v)
	}
	if op == OFEq {
		if a == b && neverNaN(a) {
			return x.True
		}
		for range 2 {
			// float(i) survives the conversion to int64 and back unless it rounds to 2^63
			if b.op == OSI2F && b.a.op == OF2SI && b.a.w == 64 && b.a.a == a && a.op == OSI2F && a.w == 64 && a.a.w == 64 {
				return x.cmp(OSlt, a.a, x.Const(64, 1<<63-512))
			}
			a, b = b, a
		}
	}
	if (op == OFAdd || op == OFMul || op == OFEq) && a.id > b.id {
		a, b = b, a
	}
	return x.mk(ekey{op: op, sort: srt, w: w, a: a, b: b})
}

func (x *Exprs) FUn(op Op, a *Expr, param uint64) *Expr {
	srt, w := byte('f'), a.w
	switch op {
	case OFIsNaN, OFIsInf:
		srt, w = 'b', 1
	case OSI2F, OUI2F:
		w = uint8(param)
	case OF2SI, OF2UI:
		srt, w = 'v', uint8(param)
	case OF2F:
		w = uint8(param)
		if w == a.w {
			return a
		}
	}
	if a.isConst() {
		v := evalOp(op, w, a, nil, a.v, 0, 0, param)
		switch srt {
		case 'b':
			return x.Bool(v == 1)
		case 'v':
			return x.Const(w, v)
		}
		return x.FConst(w, v)
	}
	if op == OFIsNaN && (a.op == OSI2F || a.op == OUI2F) || op == OFIsInf && (a.op == OSI2F || a.op == OUI2F) {
		return x.False
	}
	return x.mk(ekey{op: op, sort: srt, w: w, a: a, v: param})
}

// Frag builds an opaque text atom.
func (x *Exprs) Frag(op Op, a *Expr, param uint64) *Expr {
	return x.mk(ekey{op: op, sort: 'x', w: 0, a: a, v: param})
}

// ---- concrete evaluation

func evalOp(op Op, w uint8, ea, eb *Expr, a, b, c uint64, param uint64) uint64 {
	aw := uint8(0)
	if ea != nil {
		aw = ea.w
	}
	switch op {
	case ONot:
		return a ^ 1
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OEq:
		if ea.sort == 'f' {
			return b2u(a == b || fIsNaN(aw, a) && fIsNaN(aw, b))
		}
		return b2u(a == b)
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sx(a, aw) < sx(b, aw))
	case OSle:
		return b2u(sx(a, aw) <= sx(b, aw))
	case OAdd:
		return (a + b) & mask(w)
	case OSub:
		return (a - b) & mask(w)
	case OMul:
		return (a * b) & mask(w)
	case OUDiv:
		if b == 0 {
			return mask(w)
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x >= 0 {
				return mask(w)
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & mask(w)
		}
		return uint64(x/y) & mask(w)
	case OSRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & mask(w)
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & mask(w)
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sx(a, w)>>b) & mask(w)
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OBNot:
		return ^a & mask(w)
	case ONeg:
		return -a & mask(w)
	case OZext:
		return a
	case OSext:
		return uint64(sx(a, aw)) & mask(w)
	case OTrunc:
		return a & mask(w)
	case OFBits:
		return a
	case OFAdd:
		return fbits(w, fval(w, a)+fval(w, b))
	case OFSub:
		return fbits(w, fval(w, a)-fval(w, b))
	case OFMul:
		return fbits(w, fval(w, a)*fval(w, b))
	case OFDiv:
		return fbits(w, fval(w, a)/fval(w, b))
	case OFNeg:
		return a ^ (1 << (w - 1))
	case OFAbs:
		return a &^ (1 << (w - 1))
	case OFLt:
		return b2u(fval(aw, a) < fval(aw, b))
	case OFLe:
		return b2u(fval(aw, a) <= fval(aw, b))
	case OFEq:
		return b2u(fval(aw, a) == fval(aw, b))
	case OFRound:
		f := fval(w, a)
		switch param {
		case 0:
			f = math.RoundToEven(f)
		case 1:
			f = math.Round(f)
		case 2:
			f = math.Ceil(f)
		case 3:
			f = math.Floor(f)
		case 4:
			f = math.Trunc(f)
		}
		return fbits(w, f)
	case OFSqrt:
		return fbits(w, math.Sqrt(fval(w, a)))
	case OSI2F:
		v := sx(a, aw)
		if w == 32 {
			return uint64(math.Float32bits(float32(v)))
		}
		return math.Float64bits(float64(v))
	case OUI2F:
		if w == 32 {
			return uint64(math.Float32bits(float32(a)))
		}
		return math.Float64bits(float64(a))
	case OF2SI:
		return f2si(fval(aw, a), w)
	case OF2UI:
		return f2ui(fval(aw, a), w)
	case OF2F:
		return fbits(w, fval(aw, a))
	case OFIsNaN:
		return b2u(fIsNaN(aw, a))
	case OFIsInf:
		return b2u(math.IsInf(fval(aw, a), 0))
	}
	panic("evalOp " + opNames[op])
}

// amd64 semantics of float -> signed integer conversion (CVTTSD2SQ, then truncation).
func f2si(f float64, w uint8) uint64 {
	var v int64
	if w <= 32 {
		if f != f || f >= 2147483648.0 || f <= -2147483649.0 {
			return uint64(0x80000000) & mask(w)
		}
		return uint64(int64(f)) & mask(w)
	}
	if f != f || f >= 9223372036854775808.0 || f < -9223372036854775808.0 {
		v = math.MinInt64
	} else {
		v = int64(f)
	}
	return uint64(v) & mask(w)
}

// amd64 semantics of float -> unsigned 64-bit conversion as compiled by gc.
func f2ui(f float64, w uint8) uint64 {
	if w < 64 {
		return f2si(f, 64) & mask(w)
	}
	if f < 9223372036854775808.0 {
		return f2si(f, 64)
	}
	return f2si(f-9223372036854775808.0, 64) ^ (1 << 63)
}

// Eval evaluates e under the current model.
func (x *Exprs) Eval(e *Expr) uint64 {
	if e.op == OConst {
		return e.v
	}
	if e.stamp == x.stamp {
		return e.val
	}
	var r uint64
	switch e.op {
	case OVar:
		if int(e.v) < len(x.model) {
			r = x.model[e.v] & mask(e.w)
		}
	case OIte:
		if x.Eval(e.a) == 1 {
			r = x.Eval(e.b)
		} else {
			r = x.Eval(e.c)
		}
	case OTable:
		r = e.tab.vals[x.Eval(e.a)]
	case OAnd:
		r = 0
		if x.Eval(e.a) == 1 {
			r = x.Eval(e.b)
		}
	default:
		var b uint64
		a := x.Eval(e.a)
		if e.b != nil {
			b = x.Eval(e.b)
		}
		r = evalOp(e.op, e.w, e.a, e.b, a, b, 0, e.v)
	}
	e.stamp = x.stamp
	e.val = r
	return r
}

// evalUnary evaluates an expression whose only variable has value v.
func evalUnary(e *Expr, v uint64) uint64 {
	switch e.op {
	case OConst:
		return e.v
	case OVar:
		return v
	case OIte:
		if evalUnary(e.a, v) == 1 {
			return evalUnary(e.b, v)
		}
		return evalUnary(e.c, v)
	case OTable:
		return e.tab.vals[evalUnary(e.a, v)]
	case OAnd:
		if evalUnary(e.a, v) == 0 {
			return 0
		}
		return evalUnary(e.b, v)
	}
	var b uint64
	a := evalUnary(e.a, v)
	if e.b != nil {
		b = evalUnary(e.b, v)
	}
	return evalOp(e.op, e.w, e.a, e.b, a, b, 0, e.v)
}

// unarySet returns the satisfying set of a predicate over one 8-bit variable.
func (x *Exprs) unarySet(e *Expr) *bset {
	if e.set != nil {
		return e.set
	}
	var s bset
	switch e.op {
	case ONot:
		t := x.unarySet(e.a)
		w := x.vars[e.vars.v[0]].w
		for i := 0; i < 4; i++ {
			s[i] = ^t[i]
		}
		if w < 8 {
			s = s.and(domainFull(w))
		}
	case OAnd:
		if len(e.a.vars.v) == 1 && len(e.b.vars.v) == 1 {
			s = x.unarySet(e.a).and(*x.unarySet(e.b))
			break
		}
		fallthrough
	default:
		w := x.vars[e.vars.v[0]].w
		for i := uint64(0); i <= mask(w); i++ {
			if evalUnary(e, i) == 1 {
				s.add(i)
			}
		}
	}
	e.set = &s
	return e.set
}

func domainFull(w uint8) bset {
	var s bset
	for i := uint64(0); i <= mask(w); i++ {
		s.add(i)
	}
	return s
}

func (e *Expr) String() string {
	switch e.op {
	case OConst:
		if e.sort == 'f' {
			return fmt.Sprint(fval(e.w, e.v))
		}
		if e.sort == 'v' {
			return fmt.Sprint(sx(e.v, e.w))
		}
		return fmt.Sprint(e.v == 1)
	case OVar:
		return fmt.Sprintf("x%d", e.v)
	}
	s := "(" + opNames[e.op]
	for _, a := range []*Expr{e.a, e.b, e.c} {
		if a != nil {
			s += " " + a.String()
		}
	}
	return s + ")"
}

// neverNaN reports that e is no NaN whatever its variables are.
func neverNaN(e *Expr) bool {
	switch e.op {
	case OSI2F, OUI2F:
		return true
	case OFNeg, OFAbs, OFRound:
		return neverNaN(e.a)
	}
	return false
}
