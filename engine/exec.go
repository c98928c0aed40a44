package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---- decisions and paths

type dec struct {
	parent *dec
	kind   byte // 'b' branch, 'c' choice, 'v' concretization, 'a' assertion
	side   bool
	v      uint64
	depth  int32
}

type item struct {
	h     *hstate
	node  *dec
	model []uint64
	rank  byte // 2: takes an alternative of a choice no path has taken, 1: one not taken after the choice before it
}

type inputRec struct {
	isVar bool
	idx   int
	val   uint64
}

type obsRec struct {
	label string
	v     Value
}

// Path is the state of one symbolic path.
type Path struct {
	h          *hstate
	prefix     []*dec
	pos        int
	last       *dec
	conj       []*Expr
	known      map[*Expr]bool
	dom        []bset
	hasDom     []bool
	multi      []bool
	nvars      int
	inputs     []inputRec
	obs        []obsRec
	asserts    int
	nontriv    int
	branches   int
	mapMode    int
	mapDev     int
	nchoice    int
	lastChoice uint64
	isoDepth   int
	hist       []string
	events     []any
}

func (m *M) newVar(w uint8, internal bool, dom *bset, def uint64) *Expr {
	p := m.path
	i := p.nvars
	p.nvars++
	e := m.x.Var(i, w)
	for len(m.x.model) <= i {
		m.x.model = append(m.x.model, def)
	}
	p.dom = append(p.dom, bset{})
	p.hasDom = append(p.hasDom, w <= 8)
	p.multi = append(p.multi, false)
	if w <= 8 {
		p.dom[i] = domainFull(w)
		if dom != nil {
			p.dom[i] = p.dom[i].and(*dom)
			if !p.dom[i].has(m.x.model[i] & mask(w)) {
				m.x.model[i] = p.dom[i].first()
				m.bump()
			}
		}
	}
	if !internal {
		p.inputs = append(p.inputs, inputRec{isVar: true, idx: i})
	}
	return e
}

func (m *M) bump() {
	m.stampCtr++
	m.x.stamp = m.stampCtr
}

func (m *M) push(kind byte, side bool, v uint64) {
	p := m.path
	d := &dec{parent: p.last, kind: kind, side: side, v: v}
	if p.last != nil {
		d.depth = p.last.depth + 1
	}
	p.last = d
}

func (m *M) next(kind byte) *dec {
	p := m.path
	if p.pos >= len(p.prefix) {
		return nil
	}
	d := p.prefix[p.pos]
	if d.kind != kind {
		panic(engineBug{fmt.Sprintf("replay divergence: expected %c, have %c", kind, d.kind)})
	}
	p.pos++
	p.last = d
	return d
}

type engineBug struct{ why string }

// addConj assumes e on the current path.
func (m *M) addConj(e *Expr) {
	if e == m.x.True {
		return
	}
	p := m.path
	if e.op == OAnd {
		m.addConj(e.a)
		m.addConj(e.b)
		p.known[e] = true
		return
	}
	p.known[e] = true
	p.known[m.x.Not(e)] = false
	vs := e.vars.v
	if len(vs) == 1 && p.hasDom[vs[0]] {
		i := vs[0]
		p.dom[i] = p.dom[i].and(*m.x.unarySet(e))
		return
	}
	for _, v := range vs {
		p.multi[v] = true
	}
	p.conj = append(p.conj, e)
}

// slice collects the constraints transitively sharing variables with e.
func (m *M) slice(e *Expr) []*Expr {
	p := m.path
	in := map[int]bool{}
	for _, v := range e.vars.v {
		in[v] = true
	}
	used := make([]bool, len(p.conj))
	var out []*Expr
	for ch := true; ch; {
		ch = false
		for i, c := range p.conj {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.vars.v {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, c)
				for _, v := range c.vars.v {
					if !in[v] {
						in[v] = true
						ch = true
					}
				}
			}
		}
	}
	vs := make([]int, 0, len(in))
	for v := range in {
		vs = append(vs, v)
	}
	sort.Ints(vs)
	for _, v := range vs {
		if d := m.domExpr(v); d != nil {
			out = append(out, d)
		}
	}
	return out
}

func (m *M) domExpr(v int) *Expr {
	p := m.path
	if !p.hasDom[v] {
		return nil
	}
	ve := m.x.vars[v]
	full := domainFull(ve.w)
	if p.dom[v] == full {
		return nil
	}
	t := make([]uint64, 1<<ve.w)
	for i := range t {
		if p.dom[v].has(uint64(i)) {
			t[i] = 1
		}
	}
	return m.x.mkTablePred(ve, t)
}

func (x *Exprs) mkTablePred(v *Expr, t []uint64) *Expr {
	return x.Eq(x.Lookup(v, t, 1), x.Const(1, 1))
}

func (m *M) check(conj []*Expr, timeout int) (Verdict, map[int]uint64) {
	ids := make([]int, len(conj))
	for i, e := range conj {
		ids[i] = int(e.id)
	}
	sort.Ints(ids)
	kb := make([]byte, 0, 4*len(ids))
	for _, i := range ids {
		kb = binary.LittleEndian.AppendUint32(kb, uint32(i))
	}
	k := string(kb)
	if r, ok := m.qcache[k]; ok {
		m.qhits++
		return r.v, r.m
	}
	if !m.pathEnd.IsZero() && time.Now().After(m.pathEnd) {
		// the time of the run, or of this path, is over
		panic(limitHit{"time", "out of time"})
	}
	v, md := m.sol.Check(conj, timeout)
	if v != Unknown {
		if len(m.qcache) > 50000 {
			m.qcache = map[string]qres{}
		}
		m.qcache[k] = qres{v, md}
	}
	return v, md
}

type qres struct {
	v Verdict
	m map[int]uint64
}

func (m *M) merge(md map[int]uint64) []uint64 {
	r := append([]uint64(nil), m.x.model...)
	for i, v := range md {
		for len(r) <= i {
			r = append(r, 0)
		}
		r[i] = v
	}
	return r
}

// feasible decides whether the path constraint plus lit is satisfiable; returns a model.
func (m *M) feasible(lit *Expr) (bool, []uint64) {
	p := m.path
	if lit == m.x.False {
		return false, nil
	}
	vs := lit.vars.v
	if len(vs) == 1 && p.hasDom[vs[0]] {
		s := m.x.unarySet(lit).and(p.dom[vs[0]])
		if s.empty() {
			return false, nil
		}
		if !p.multi[vs[0]] {
			r := append([]uint64(nil), m.x.model...)
			r[vs[0]] = s.first()
			return true, r
		}
	}
	conj := append(m.slice(lit), lit)
	if r := m.guess(conj); r != nil {
		m.guessed++
		return true, r
	}
	v, md := m.check(conj, m.cfg.timeoutMS)
	switch v {
	case SAT:
		return true, m.merge(md)
	case Unknown:
		p.h.addUnknown("branch")
	}
	return false, nil
}

var lures = []uint64{0, 1, ^uint64(0), 2, 10, 3, 255, 1 << 63, 1<<63 - 1, 100, 7, ^uint64(1), 1 << 32, 1 << 53,
	0x3ff0000000000000, 0xbff0000000000000, 0x3fe0000000000000, 0x4004000000000000, 0x7ff0000000000000, 0x7ff8000000000001, 0xfff0000000000000, 0x8000000000000000, 0x43f0000000000000, 0xc1d0000000100000}

// guess looks for a model of conj close to the current one by evaluation alone; a found model is a
// witness of satisfiability, so that the solver is only needed when there is none at hand.
func (m *M) guess(conj []*Expr) []uint64 {
	p := m.path
	seen := map[int]bool{}
	var vs []int
	wide := false
	for _, c := range conj {
		for _, v := range c.vars.v {
			if !seen[v] {
				seen[v] = true
				vs = append(vs, v)
				wide = wide || m.x.vars[v].w > 8
			}
		}
	}
	if len(vs) == 0 || len(vs) > 12 || !wide {
		hard := false
		for _, c := range conj {
			hard = hard || c.hard
		}
		if !hard || len(vs) == 0 || len(vs) > 12 {
			return nil
		}
	}
	old := m.x.model
	cand := append([]uint64(nil), old...)
	for _, v := range vs {
		for len(cand) <= v {
			cand = append(cand, 0)
		}
	}
	m.x.model = cand
	try := func() bool {
		m.bump()
		for i := len(conj) - 1; i >= 0; i-- {
			if m.x.Eval(conj[i]) != 1 {
				return false
			}
		}
		return true
	}
	set := func(v int, x uint64) bool {
		w := m.x.vars[v].w
		x &= mask(w)
		if p.hasDom[v] && !p.dom[v].has(x) {
			return false
		}
		cand[v] = x
		return true
	}
	get := func(i int) uint64 {
		r := m.rng(len(lures) + 4)
		if r < len(lures) {
			return lures[r]
		}
		if r == len(lures) {
			return cand[vs[m.rng(len(vs))]] + uint64(m.rng(3)) - 1
		}
		return uint64(m.rng(1 << 30))
	}
	found := false
	for _, v := range vs {
		o := cand[v]
		for _, x := range lures {
			if set(v, x) && try() {
				found = true
				break
			}
		}
		if found {
			break
		}
		cand[v] = o
	}
	for k := 0; !found && k < 80; k++ {
		save := append([]uint64(nil), cand...)
		for j := 1 + m.rng(2); j >= 0; j-- {
			set(vs[m.rng(len(vs))], get(k))
		}
		if found = try(); !found && k%4 != 3 {
			copy(cand, save)
		}
	}
	m.x.model = old
	m.bump()
	if found {
		return cand
	}
	return nil
}

// branch decides a symbolic condition, forking the path when both sides are possible.
func (m *M) branch(e *Expr) bool {
	if e.op == OConst {
		return e.v != 0
	}
	if e.op == ONot {
		return !m.branch(e.a)
	}
	p := m.path
	if p == nil {
		panic(unsupported{"symbolic branch outside a path"})
	}
	if k, ok := p.known[e]; ok {
		return k
	}
	if vs := e.vars.v; len(vs) == 1 && p.hasDom[vs[0]] {
		s := m.x.unarySet(e)
		d := p.dom[vs[0]]
		if d.and(*s).empty() {
			return false
		}
		if d.andNot(*s).empty() {
			return true
		}
	}
	p.branches++
	if d := m.next('b'); d != nil {
		if d.side {
			m.addConj(e)
		} else {
			m.addConj(m.x.Not(e))
		}
		return d.side
	}
	cur := m.x.Eval(e) == 1
	lit, other := e, m.x.Not(e)
	if !cur {
		lit, other = other, lit
	}
	if ok, md := m.feasible(other); ok {
		m.fork('b', !cur, 0, md)
	}
	m.push('b', cur, 0)
	m.addConj(lit)
	return cur
}

func (m *M) fork(kind byte, side bool, v uint64, model []uint64) {
	p := m.path
	d := &dec{parent: p.last, kind: kind, side: side, v: v}
	if p.last != nil {
		d.depth = p.last.depth + 1
	}
	m.newItems = append(m.newItems, item{h: p.h, node: d, model: model})
}

// choose forks n ways without a symbolic variable. site identifies the place of the choice, when there is one: the path at
// hand takes an alternative at random, one that no path has taken before if there is any, so that a run cut short by its time
// budget has been everywhere.
func (m *M) choose(n int, internal bool, site uint64) int {
	p := m.path
	if n <= 1 {
		if !internal {
			p.inputs = append(p.inputs, inputRec{val: 0})
		}
		return 0
	}
	r := 0
	if d := m.next('c'); d != nil {
		r = int(d.v)
	} else {
		md := append([]uint64(nil), m.x.model...)
		var ranks []byte
		if site != 0 {
			ranks, r = p.h.novel(site, p.lastChoice, n, m.rng(n))
		}
		for i := n - 1; i >= 0; i-- {
			if i != r {
				m.fork('c', false, uint64(i), md)
				if ranks != nil {
					m.newItems[len(m.newItems)-1].rank = ranks[i]
				}
			}
		}
		m.push('c', false, uint64(r))
	}
	p.nchoice++
	if site != 0 {
		p.lastChoice = mix(site, uint64(r))
	}
	if !internal {
		p.inputs = append(p.inputs, inputRec{val: uint64(r)})
	}
	return r
}

func (m *M) chooseInternal(n int) int { return m.choose(n, true, 0) }

func mix(a, b uint64) uint64 {
	a = (a ^ b + 0x9e3779b97f4a7c15) * 0xbf58476d1ce4e5b9
	return a ^ a>>29
}

// siteOf identifies the place in the harness that asks for a choice of n.
func siteOf(fr *frame, n int) uint64 {
	s := mix(1, uint64(n))
	for i := 0; fr != nil && i < 6; i++ {
		s = mix(s, fr.fn.id^uint64(fr.prev))
		fr = fr.caller
	}
	return s | 1
}

// novel ranks the alternatives of a choice and picks one: start, unless another one is of a higher rank.
func (h *hstate) novel(site, last uint64, n, start int) (ranks []byte, pick int) {
	ranks = make([]byte, n)
	h.mu.Lock()
	defer h.mu.Unlock()
	pick = start
	for k := 0; k < n; k++ {
		i := (start + k) % n
		key := mix(site, uint64(i))
		pair := mix(last, key)
		if !h.taken[key] {
			ranks[i] = 2
		} else if !h.taken[pair] {
			ranks[i] = 1
		}
		h.taken[key], h.taken[pair] = true, true
		if ranks[i] > ranks[pick] {
			pick = i
		}
	}
	return ranks, pick
}

// concretize forks on the values of e.
func (m *M) concretize(e *Expr) uint64 {
	for n := 0; ; n++ {
		if e.op == OConst {
			return e.v
		}
		p := m.path
		if d := m.next('v'); d != nil {
			c := m.constLike(e, d.v)
			eq := m.x.Eq(e, c)
			if d.side {
				m.addConj(eq)
				return d.v
			}
			m.addConj(m.x.Not(eq))
			continue
		}
		v := m.x.Eval(e)
		eq := m.x.Eq(e, m.constLike(e, v))
		if n < m.cfg.concCap {
			if ok, md := m.feasible(m.x.Not(eq)); ok {
				m.fork('v', false, v, md)
			}
		} else {
			p.h.addTrunc()
		}
		m.push('v', true, v)
		m.addConj(eq)
		return v
	}
}

func (m *M) constLike(e *Expr, v uint64) *Expr {
	switch e.sort {
	case 'f':
		return m.x.FConst(e.w, v)
	case 'b':
		return m.x.Bool(v != 0)
	}
	return m.x.Const(e.w, v)
}

func (m *M) assume(e *Expr) {
	if e == m.x.True {
		return
	}
	if e == m.x.False {
		panic(pathEnd{"assume"})
	}
	p := m.path
	if k, ok := p.known[e]; ok {
		if k {
			return
		}
		panic(pathEnd{"assume"})
	}
	if m.x.Eval(e) != 1 {
		ok, md := m.feasible(e)
		if !ok {
			panic(pathEnd{"assume"})
		}
		m.setModel(md)
	}
	m.addConj(e)
}

func (m *M) setModel(md []uint64) {
	m.x.model = md
	m.bump()
}

func (m *M) assert(cond *Expr, label string, detail func() string) {
	p := m.path
	p.asserts++
	if cond == m.x.True {
		p.h.countAssert(true)
		return
	}
	if d := m.next('a'); d != nil {
		if d.side {
			m.assume(cond)
		}
		return
	}
	p.nontriv++
	p.h.countAssert(false)
	neg := m.x.Not(cond)
	conj := append(m.slice(neg), neg)
	model := m.guess(conj)
	if model == nil {
		v, md := m.check(conj, m.cfg.assertMS)
		switch v {
		case UNSAT:
			m.push('a', false, 0)
			p.known[cond] = true
			p.known[neg] = false
			return
		case Unknown:
			p.h.addUnknown("assert " + label)
			m.push('a', false, 0)
			return
		}
		model = m.merge(md)
	}
	old := m.x.model
	m.setModel(model)
	m.candidate("assert", label, detail())
	m.setModel(old)
	m.push('a', true, 0)
	m.assume(cond)
}

// Candidate is a counterexample found by the engine, to be replayed natively.
type Candidate struct {
	H      string
	Kind   string
	Label  string
	Msg    string
	Vals   []uint64
	Obs    []string
	Stack  string
	confOK bool
}

func (m *M) inputVals() []uint64 {
	p := m.path
	r := make([]uint64, len(p.inputs))
	for i, in := range p.inputs {
		if in.isVar {
			r[i] = m.x.model[in.idx] & mask(m.x.vars[in.idx].w)
		} else {
			r[i] = in.val
		}
	}
	return r
}

func (m *M) candidate(kind, label, msg string) {
	p := m.path
	p.h.addCandidate(&Candidate{H: p.h.name, Kind: kind, Label: label, Msg: msg, Vals: m.inputVals()})
}

// concStr renders a string value under the current model.
func (m *M) concStr(v Value) string {
	switch s := v.P.(type) {
	case nil:
		return ""
	case string:
		return s
	case *SymStr:
		var sb strings.Builder
		for _, e := range s.e {
			if e.sort == 'x' {
				sb.WriteString(m.fragText(e))
			} else {
				sb.WriteByte(byte(m.x.Eval(e)))
			}
		}
		return sb.String()
	}
	return fmt.Sprintf("<%T>", v.P)
}

func fragFmt(e *Expr, v uint64) string {
	switch e.op {
	case OFragInt:
		return strconv.FormatInt(int64(v), 10)
	case OFragUint:
		return strconv.FormatUint(v, 10)
	case OFragFloat:
		return strconv.FormatFloat(math.Float64frombits(v), byte(e.v), int(int8(e.v>>8)), 64)
	}
	panic("fragFmt")
}

func (m *M) fragText(e *Expr) string { return fragFmt(e, m.x.Eval(e.a)) }

// ---- opaque text atoms

func numClass(e *Expr) bool {
	c := byte(e.v)
	return c >= '0' && c <= '9' || strings.IndexByte("+-.eENaInf", c) >= 0
}

func (m *M) fragEqText(f *Expr, text string) *Expr {
	switch f.op {
	case OFragInt:
		i, err := strconv.ParseInt(text, 10, 64)
		if err != nil || strconv.FormatInt(i, 10) != text {
			return m.x.False
		}
		return m.x.Eq(f.a, m.x.Const(64, uint64(i)))
	case OFragUint:
		i, err := strconv.ParseUint(text, 10, 64)
		if err != nil || strconv.FormatUint(i, 10) != text {
			return m.x.False
		}
		return m.x.Eq(f.a, m.x.Const(64, i))
	case OFragFloat:
		if int8(f.v>>8) != -1 {
			return nil
		}
		x, err := strconv.ParseFloat(text, 64)
		if err != nil || fragFmt(f, math.Float64bits(x)) != text {
			return m.x.False
		}
		return m.x.Eq(f.a, m.x.FConst(64, math.Float64bits(x)))
	}
	return nil
}

// fragEq compares strings containing opaque numeric text.
func (m *M) fragEq(a, b Value) *Expr {
	ea, eb := m.elems(a), m.elems(b)
	for len(ea) > 0 && len(eb) > 0 && ea[0] == eb[0] {
		ea, eb = ea[1:], eb[1:]
	}
	for len(ea) > 0 && len(eb) > 0 && ea[len(ea)-1] == eb[len(eb)-1] {
		ea, eb = ea[:len(ea)-1], eb[:len(eb)-1]
	}
	r := m.x.True
	delim := func(s []*Expr) bool {
		return len(s) == 0 || s[0].sort != 'x' && s[0].op == OConst && !numClass(s[0])
	}
	amb := func() *Expr {
		x := m.defrag(Value{P: &SymStr{e: ea}})
		y := m.defrag(Value{P: &SymStr{e: eb}})
		return m.x.And(r, m.strEq(mkStr(m.elems(x)), mkStr(m.elems(y))))
	}
	for len(ea) > 0 || len(eb) > 0 {
		if len(ea) == 0 || len(eb) == 0 {
			return m.x.False // every element is at least one byte long
		}
		x, y := ea[0], eb[0]
		switch {
		case x == y:
			ea, eb = ea[1:], eb[1:]
		case x.sort != 'x' && y.sort != 'x':
			r = m.x.And(r, m.x.Eq(x, y))
			if r == m.x.False {
				return r
			}
			ea, eb = ea[1:], eb[1:]
		case x.sort == 'x' && y.sort == 'x':
			if !delim(ea[1:]) || !delim(eb[1:]) || x.op != y.op || x.v != y.v {
				return amb()
			}
			if x.op == OFragFloat && int8(x.v>>8) != -1 {
				return amb()
			}
			r = m.x.And(r, m.x.Eq(x.a, y.a))
			ea, eb = ea[1:], eb[1:]
		default:
			sw := y.sort == 'x'
			if sw {
				ea, eb = eb, ea
				x = ea[0]
			}
			n := 0
			for n < len(eb) && eb[n].sort != 'x' && eb[n].op == OConst && numClass(eb[n]) {
				n++
			}
			if !delim(eb[n:]) || !delim(ea[1:]) {
				return amb()
			}
			if n == 0 {
				return m.x.False
			}
			t, _ := conc(mkStr(eb[:n]))
			c := m.fragEqText(x, t)
			if c == nil {
				return amb()
			}
			r = m.x.And(r, c)
			if r == m.x.False {
				return r
			}
			ea, eb = ea[1:], eb[n:]
			if sw {
				ea, eb = eb, ea
			}
		}
	}
	return r
}

// defrag replaces opaque numeric text by explicit bytes (forking on its length).
func (m *M) defrag(v Value) Value {
	if !hasFrag(v) {
		return v
	}
	var out []*Expr
	for _, e := range v.P.(*SymStr).e {
		if e.sort == 'x' {
			out = append(out, m.fragBytes(e)...)
		} else {
			out = append(out, e)
		}
	}
	return mkStr(out)
}

func (m *M) fragBytes(f *Expr) []*Expr {
	if r, ok := m.fragMemo[f]; ok {
		return r
	}
	r := m.fragBytes1(f)
	m.fragMemo[f] = r
	return r
}

func (m *M) fragBytes1(f *Expr) []*Expr {
	x, p := m.x, m.path
	a := f.a
	if vs := a.vars.v; len(vs) == 1 && p.hasDom[vs[0]] {
		v := x.vars[vs[0]]
		n := 1 << v.w
		txt := make([]string, n)
		lens := map[int][]uint64{}
		var order []int
		for i := 0; i < n; i++ {
			if !p.dom[vs[0]].has(uint64(i)) {
				continue
			}
			txt[i] = fragFmt(f, evalUnary(a, uint64(i)))
			l := len(txt[i])
			if lens[l] == nil {
				lens[l] = make([]uint64, 256)
				order = append(order, l)
			}
			lens[l][i] = 1
		}
		sort.Ints(order)
		for j, l := range order {
			if j == len(order)-1 || m.branch(x.mkTablePred(v, lens[l])) {
				r := make([]*Expr, l)
				for k := 0; k < l; k++ {
					t := make([]uint64, 256)
					for i := 0; i < n; i++ {
						if len(txt[i]) == l {
							t[i] = uint64(txt[i][k])
						}
					}
					r[k] = x.Lookup(v, t, 8)
				}
				return r
			}
		}
	}
	if f.op == OFragFloat {
		c := m.concretize(a)
		return m.elems(vStr(fragFmt(f, c)))
	}
	var r []*Expr
	mag := a
	if f.op == OFragInt && m.branch(x.cmp(OSlt, a, x.Const(64, 0))) {
		r = append(r, x.bytes['-'])
		mag = x.Un(ONeg, a)
	}
	n := 1
	pow := uint64(10)
	for ; n < 20; n++ {
		if m.branch(x.cmp(OUlt, mag, x.Const(64, pow))) {
			break
		}
		if n == 19 {
			n++
			break
		}
		pow *= 10
	}
	if n > 20 {
		n = 20
	}
	pw := uint64(1)
	var ds []*Expr
	for i := 0; i < n; i++ {
		d := mag
		if i > 0 {
			d = x.Bin(OUDiv, mag, x.Const(64, pw))
		}
		if i < n-1 {
			d = x.Bin(OURem, d, x.Const(64, 10))
		}
		ds = append(ds, x.Bin(OAdd, x.Conv(d, 8, false), x.bytes['0']))
		pw *= 10
	}
	for i := n - 1; i >= 0; i-- {
		r = append(r, ds[i])
	}
	return r
}

// ---- harness statistics

type hstats struct {
	Paths, Done, Assumed, Unsup, Limits, Panics, Timeouts int
	Branches, Asserts, Trivial, Nontrivial                int64
	Steps                                                 int64
	MaxDepth                                              int
	Unknown, Truncated, Queue                             int
	Inconsistent                                          int
	UnsupWhy                                              map[string]int
	UnknownWhy                                            map[string]int
	Reach                                                 map[string]int
	Exhausted                                             bool
	PCQueries, PCSat                                      int
}

type sample struct {
	Vals []uint64
	Obs  []string
}

type hstate struct {
	name     string
	prop     string
	fn       *cfunc
	mu       sync.Mutex
	queue    []item
	hot      [2][]item // items of rank 1 and 2
	taken    map[uint64]bool
	run      int
	spent    time.Duration
	starts   time.Duration // sum of the start times of the paths being run
	weight   float64
	maxSteps int64
	st       hstats
	cands    map[string][]*Candidate
	samp     []sample
	unsup    [][]uint64
	seen     int
	ex       *Explorer
}

func (h *hstate) addUnknown(why string) {
	h.mu.Lock()
	h.st.Unknown++
	h.st.UnknownWhy[why]++
	h.mu.Unlock()
}
func (h *hstate) addTrunc() { h.mu.Lock(); h.st.Truncated++; h.mu.Unlock() }
func (h *hstate) countAssert(triv bool) {
	h.mu.Lock()
	h.st.Asserts++
	if triv {
		h.st.Trivial++
	} else {
		h.st.Nontrivial++
	}
	h.mu.Unlock()
}
func (h *hstate) reach(l string) { h.mu.Lock(); h.st.Reach[l]++; h.mu.Unlock() }

func (h *hstate) addCandidate(c *Candidate) {
	k := c.Kind + "|" + c.Label
	h.mu.Lock()
	n := len(h.cands[k])
	if n < 6 {
		h.cands[k] = append(h.cands[k], c)
	}
	h.mu.Unlock()
	if n < 6 && h.ex.onCand != nil {
		h.ex.onCand(h, c)
	}
}

// Explorer runs harnesses with a pool of workers.
type Explorer struct {
	P        *Program
	cfg      *runCfg
	hs       []*hstate
	mu       sync.Mutex
	cond     *sync.Cond
	stopped  bool
	deadline time.Time
	onCand   func(h *hstate, c *Candidate)
	workers  []*M
	started  time.Time
	maxRSS   int
}

type runCfg struct {
	tier      int
	timeoutMS int
	pathTime  time.Duration // a path may take no longer
	assertMS  int
	concCap   int
	maxSteps  int64
	maxAlloc  int
	seed      int64
	workers   int
	sampleN   int
	verbose   bool
}

func (ex *Explorer) stop() {
	ex.mu.Lock()
	ex.stopped = true
	ex.mu.Unlock()
	ex.cond.Broadcast()
}

func (it item) depth() int {
	if it.node == nil {
		return 0
	}
	return int(it.node.depth)
}

// pick returns the next item: the harness that has used the least time first, newest item first.
func (ex *Explorer) pick(rng *rand.Rand) (item, time.Duration, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stopped || time.Now().After(ex.deadline) {
			return item{}, 0, false
		}
		var best *hstate
		busy := false
		now := time.Since(ex.started)
		for _, h := range ex.hs {
			if h.run > 0 {
				busy = true
			}
			if h.left() == 0 {
				continue
			}
			if best == nil || h.used(now) < best.used(now) {
				best = h
			}
		}
		if best != nil {
			for r := 1; r >= 0; r-- {
				// every rank 2, and rank 1 in half of the cases
				if q := best.hot[r]; len(q) > 0 && (r == 1 || len(best.queue) == 0 || rng.Intn(2) == 0) {
					i := rng.Intn(len(q))
					it := q[i]
					q[i] = q[len(q)-1]
					q[len(q)-1] = item{}
					best.hot[r] = q[:len(q)-1]
					best.run++
					best.starts += now
					return it, now, true
				}
			}
			n := len(best.queue) - 1
			// mostly depth first; now and then from a random place, so that a run cut short by its
			// time budget has looked everywhere
			if n > 64 && rng.Intn(4) == 0 {
				i := rng.Intn(n + 1)
				for k := 0; k < 2; k++ {
					if j := rng.Intn(n + 1); best.queue[j].depth() < best.queue[i].depth() {
						i = j
					}
				}
				best.queue[i], best.queue[n] = best.queue[n], best.queue[i]
			}
			it := best.queue[n]
			best.queue[n] = item{}
			best.queue = best.queue[:n]
			best.run++
			best.starts += now
			return it, now, true
		}
		if !busy {
			ex.stopped = true
			ex.cond.Broadcast()
			return item{}, 0, false
		}
		ex.cond.Wait()
	}
}

// used is the weighted time spent on h, paths that are being run included.
func (h *hstate) used(now time.Duration) float64 {
	return float64(h.spent+time.Duration(h.run)*now-h.starts) / h.weight
}

func (h *hstate) left() int { return len(h.queue) + len(h.hot[0]) + len(h.hot[1]) }

func (ex *Explorer) finish(h *hstate, start, d time.Duration, items []item) {
	ex.mu.Lock()
	h.run--
	h.starts -= start
	h.spent += d
	for _, it := range items {
		if it.rank > 0 {
			h.hot[it.rank-1] = append(h.hot[it.rank-1], it)
		} else {
			h.queue = append(h.queue, it)
		}
	}
	ex.mu.Unlock()
	ex.cond.Broadcast()
}

func (ex *Explorer) Run() {
	ex.cond = sync.NewCond(&ex.mu)
	ex.started = time.Now()
	var wg sync.WaitGroup
	tick := time.NewTicker(200 * time.Millisecond)
	done := make(chan bool)
	go func() {
		for {
			select {
			case <-tick.C:
				ex.cond.Broadcast()
			case <-done:
				return
			}
		}
	}()
	for _, h := range ex.hs {
		h.queue = []item{{h: h}}
	}
	for i := 0; i < ex.cfg.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			m := newWorker(ex.P, ex.cfg)
			ex.mu.Lock()
			ex.workers = append(ex.workers, m)
			ex.mu.Unlock()
			defer m.sol.stop()
			m.deadline = ex.deadline
			m.rstate = uint64(ex.cfg.seed)<<8 + uint64(i)
			m.rng(2)
			rng := rand.New(rand.NewSource(ex.cfg.seed + int64(i)))
			for {
				it, start, ok := ex.pick(rng)
				if !ok {
					return
				}
				t0 := time.Now()
				m.runPath(it)
				ex.finish(it.h, start, time.Since(t0), m.newItems)
				m.newItems = nil
			}
		}()
	}
	wg.Wait()
	close(done)
	tick.Stop()
	for _, h := range ex.hs {
		h.st.Queue = h.left()
		h.st.Exhausted = h.left() == 0
	}
}

func newWorker(P *Program, cfg *runCfg) *M {
	m := &M{P: P, cfg: cfg, x: newExprs(), mcache: map[mkey]*cfunc{}, icache: map[ikey]bool{}, side: map[sideKey]any{}, nativeC: map[string]int{}, qcache: map[string]qres{}, fragMemo: map[*Expr][]*Expr{}}
	m.sol = newSolver(m.x)
	m.chunk = &stackChunk{buf: make([]Value, 1<<16)}
	m.base = m.chunk
	m.maxSteps = 1 << 60
	m.maxAlloc = 1 << 40
	m.stampCtr = 1
	m.x.stamp = 1
	m.rtErrT = P.rtErrT
	m.initProgram()
	m.maxSteps = cfg.maxSteps
	m.maxAlloc = cfg.maxAlloc
	m.log = m.log[:0]
	return m
}

func (m *M) resetStack() {
	for c := m.base; c != nil; c = c.next {
		clear(c.buf[:c.sp])
		c.sp = 0
	}
	m.chunk = m.base
	m.depth = 0
}

func (m *M) runPath(it item) {
	h := it.h
	if len(m.x.tbl) > 3000000 {
		m.x.reset()
		m.sol.invalidate()
		m.qcache = map[string]qres{}
	}
	m.rollback(0)
	m.resetStack()
	m.bump()
	m.x.model = append([]uint64(nil), it.model...)
	p := &Path{h: h, known: map[*Expr]bool{}}
	if it.node != nil {
		p.prefix = make([]*dec, it.node.depth+1)
		for d := it.node; d != nil; d = d.parent {
			p.prefix[d.depth] = d
		}
	}
	m.path = p
	m.steps, m.allocBytes = 0, 0
	m.maxSteps, m.maxAlloc = m.cfg.maxSteps, m.cfg.maxAlloc
	if h.maxSteps > 0 {
		m.maxSteps = h.maxSteps
		m.maxAlloc = 4 << 30 // of all allocations of the path; most of it is garbage
	}
	clear(m.side)
	clear(m.fragMemo)
	m.newItems = nil
	m.tr = nil
	m.globals = m.globals0
	m.pathEnd = time.Now().Add(m.cfg.pathTime)
	if d := m.deadline.Add(3 * time.Second); !m.deadline.IsZero() && d.Before(m.pathEnd) {
		m.pathEnd = d
	}
	outcome, why := m.exec(h.fn)
	m.pathEnd = time.Time{}
	h.mu.Lock()
	h.st.Paths++
	h.st.Branches += int64(p.branches)
	h.st.Steps += m.steps
	if d := len(p.prefix); d > h.st.MaxDepth {
		h.st.MaxDepth = d
	}
	switch outcome {
	case "done":
		h.st.Done++
	case "assume":
		h.st.Assumed++
	case "unsupported":
		h.st.Unsup++
		h.st.UnsupWhy[why]++
		if n := m.cfg.sampleN; len(h.unsup) < n {
			h.unsup = append(h.unsup, m.inputVals())
		} else if r := m.rng(h.st.Unsup); r < n {
			h.unsup[r] = m.inputVals()
		}
	case "panic":
		h.st.Panics++
	case "limit":
		if why == "out of time" {
			h.st.Timeouts++
			if len(h.unsup) < m.cfg.sampleN {
				h.unsup = append(h.unsup, m.inputVals())
			}
		} else {
			h.st.Limits++
		}
	}
	h.mu.Unlock()
	if outcome == "done" || outcome == "panic" {
		// the model must satisfy the recorded constraints
		ok := true
		for _, c := range p.conj {
			if m.x.Eval(c) != 1 {
				ok = false
			}
		}
		for v := range p.dom {
			if p.hasDom[v] && !p.dom[v].has(m.x.model[v]&mask(m.x.vars[v].w)) {
				ok = false
			}
		}
		v := UNSAT
		if p.nvars > 0 {
			all := append([]*Expr(nil), p.conj...)
			for i := 0; i < p.nvars; i++ {
				if d := m.domExpr(i); d != nil {
					all = append(all, d)
				}
			}
			// evaluation has just shown that the model satisfies the constraints; Z3 confirms it for a
			// share of the paths, as a check of the encoding
			hard := h.st.PCQueries > 100
			for _, c := range all {
				hard = hard || c.hard
			}
			if hard && m.rng(24) != 0 {
				v = SAT
			} else if len(all) > 0 {
				v, _ = m.check(all, 1000)
				h.mu.Lock()
				h.st.PCQueries++
				if v == SAT {
					h.st.PCSat++
				}
				h.mu.Unlock()
			} else {
				v = SAT
			}
		} else {
			v = SAT
		}
		if !ok || v == UNSAT {
			h.mu.Lock()
			h.st.Inconsistent++
			h.mu.Unlock()
			return
		}
	}
	if outcome == "done" {
		// reservoir sample of completed paths for native cross-validation
		h.mu.Lock()
		h.seen++
		slot := -1
		if len(h.samp) < m.cfg.sampleN {
			h.samp = append(h.samp, sample{})
			slot = len(h.samp) - 1
		} else if r := m.rng(h.seen); r < m.cfg.sampleN {
			slot = r
		}
		if slot >= 0 {
			s := sample{Vals: m.inputVals()}
			for _, o := range p.obs {
				s.Obs = append(s.Obs, o.label+"="+m.concStr(o.v))
			}
			h.samp[slot] = s
		}
		h.mu.Unlock()
	}
}

func (m *M) rng(n int) int {
	m.rstate = m.rstate*6364136223846793005 + 1442695040888963407
	return int((m.rstate >> 33) % uint64(n))
}

// exec runs fn on the prepared path and classifies the outcome.
func (m *M) exec(fn *cfunc) (outcome, why string) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch r := r.(type) {
		case pathEnd:
			outcome, why = "assume", r.why
		case unsupported:
			outcome, why = "unsupported", r.why
		case limitHit:
			outcome, why = "limit", r.why
			if r.kind == "time" {
				return
			}
			m.candidate("limit-"+r.kind, r.kind+" "+lastWord(r.why), r.why)
		case *tpanic:
			outcome = "panic"
			why = m.panicText(r)
			m.candidate("panic", "panic in "+strings.SplitN(r.stack, " ", 2)[0], why+" @ "+r.stack)
		case engineBug:
			outcome, why = "unsupported", "engine: "+r.why
		default:
			if m.cfg.verbose {
				panic(r)
			}
			outcome, why = "unsupported", fmt.Sprintf("engine: %v", r)
			if len(why) > 200 {
				why = why[:200]
			}
		}
	}()
	m.call(nil, fn, nil, nil)
	return "done", ""
}

func (m *M) panicText(t *tpanic) string {
	iv, _ := t.v.P.(*Iface)
	if iv == nil {
		return "panic(nil)"
	}
	switch p := iv.v.P.(type) {
	case string, *SymStr:
		return m.concStr(Value{P: p})
	}
	return "panic of type " + iv.rt.t.String()
}

func lastWord(s string) string { return s[strings.LastIndexByte(s, ' ')+1:] }
