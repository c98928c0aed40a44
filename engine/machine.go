package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Program is shared, immutable (lazily compiled) code.
type Program struct {
	L        *Loaded
	mu       sync.Mutex
	fns      map[*ssa.Function]*cfunc
	globals  map[*ssa.Global]int
	gtypes   []types.Type
	gnames   []string
	tmap     typeutil.Map // types.Type -> *RType
	tmu      sync.RWMutex
	tcache   sync.Map // types.Type (pointer identity) -> *RType
	ntypes   int
	subst    map[string]*ssa.Function
	typesMu  sync.Mutex
	modelPkg string
	rtErrT   *RType
	reflT    *RType
	liteT    *RType
	hmod     map[int]bool // globals of the harness module (shared by isolated runs)
}

type cblock struct {
	ins  []func(fr *frame)
	term func(fr *frame) int
	n    int
}

type cfunc struct {
	name    string
	id      uint64
	fn      *ssa.Function
	nregs   int
	nparams int
	blocks  []cblock
	native  nativeFn
	once    sync.Once
	hasDef  bool
	recover int
	raw     bool // element-count view of opaque text atoms is allowed (buffer internals)
	err     string
	results *types.Tuple
	used    atomic.Bool
	steps   int64
}

type frame struct {
	m      *M
	fn     *cfunc
	regs   []Value
	env    []Value
	caller *frame
	defers []deferred
	result Value
	pan    *tpanic
	isPan  bool
	prev   int
}

type deferred struct {
	call func()
}

// tpanic is a panic of the interpreted program.
type tpanic struct {
	v     Value // interface value
	stack string
}

// engine-level aborts
type pathEnd struct{ why string }
type unsupported struct{ why string }
type limitHit struct{ kind, why string }

// G is one interpreted goroutine's stack.
type stackChunk struct {
	buf  []Value
	sp   int
	next *stackChunk
}

// M is one worker: a heap plus the state of the path being executed.
type M struct {
	P       *Program
	x       *Exprs
	sol     *Solver
	globals []*Value
	log     []undo
	chunk   *stackChunk
	depth   int

	steps, maxSteps int64
	allocBytes      int
	maxAlloc        int

	mcache map[mkey]*cfunc
	icache map[ikey]bool
	side   map[sideKey]any

	path *Path
	cfg  *runCfg

	rtErrT  *RType
	nativeC map[string]int
	tr      *tracer
	cur     *frame

	stampCtr uint32
	qcache   map[string]qres
	qhits    int
	guessed  int64
	fragMemo map[*Expr][]*Expr
	newItems []item
	base     *stackChunk
	globals0 []*Value
	iso0     []*Value
	deadline time.Time
	pathEnd  time.Time
	rstate   uint64

	parChunks []*stackChunk
	raceCache map[string]Verdict
	snaps     map[snapKey]*snapshot
	snapSize  int
	snapSeen  map[snapKey]bool
}

type mkey struct {
	rt int
	m  string
}
type ikey struct{ rt, it int }
type sideKey struct {
	p *Value
	k string
}

func newProgram(L *Loaded) *Program {
	return &Program{L: L, fns: map[*ssa.Function]*cfunc{}, globals: map[*ssa.Global]int{}, subst: map[string]*ssa.Function{}}
}

func (P *Program) rtype(t types.Type) *RType {
	t = types.Unalias(t)
	if r, ok := P.tcache.Load(t); ok {
		return r.(*RType)
	}
	P.tmu.Lock()
	defer P.tmu.Unlock()
	if r := P.tmap.At(t); r != nil {
		P.tcache.Store(t, r)
		return r.(*RType)
	}
	r := &RType{id: P.ntypes, t: t}
	P.ntypes++
	P.tmap.Set(t, r)
	P.tcache.Store(t, r)
	return r
}

func (P *Program) global(g *ssa.Global) int {
	P.mu.Lock()
	defer P.mu.Unlock()
	i, ok := P.globals[g]
	if !ok {
		i = len(P.gtypes)
		P.globals[g] = i
		P.gtypes = append(P.gtypes, g.Type().(*types.Pointer).Elem())
		P.gnames = append(P.gnames, g.String())
	}
	return i
}

func (m *M) gptr(i int) *Value {
	for len(m.globals) <= i {
		m.globals = append(m.globals, nil)
	}
	p := m.globals[i]
	if p == nil {
		m.P.mu.Lock()
		t := m.P.gtypes[i]
		m.P.mu.Unlock()
		v := zero(t)
		p = &v
		m.globals[i] = p
	}
	return p
}

func (P *Program) cfn(f *ssa.Function) *cfunc {
	P.mu.Lock()
	defer P.mu.Unlock()
	c, ok := P.fns[f]
	if !ok {
		c = &cfunc{name: f.String(), fn: f}
		for i := 0; i < len(c.name); i++ {
			c.id = c.id*1099511628211 ^ uint64(c.name[i])
		}
		P.fns[f] = c
	}
	return c
}

func (P *Program) ready(c *cfunc) {
	c.once.Do(func() { P.compile(c) })
}

func (m *M) newRegs(n int) []Value {
	c := m.chunk
	if c.sp+n > len(c.buf) {
		if c.next == nil || n > len(c.next.buf) {
			c.next = &stackChunk{buf: make([]Value, max(n, 1<<16))}
		}
		c = c.next
		m.chunk = c
	}
	r := c.buf[c.sp : c.sp+n : c.sp+n]
	c.sp += n
	return r
}

// call runs f on args.
func (m *M) call(caller *frame, f *cfunc, args []Value, env []Value) Value {
	m.P.ready(f)
	if f.native != nil {
		if v, ok := f.native(m, caller, args); ok {
			m.nativeC[f.name]++
			return v
		}
	}
	if f.blocks == nil {
		if f.err != "" {
			panic(unsupported{f.err})
		}
		panic(unsupported{"no body: " + f.name})
	}
	if !f.used.Load() {
		f.used.Store(true)
	}
	m.depth++
	if m.depth > 40000 {
		panic(limitHit{"stack", "call depth limit in " + f.name})
	}
	ch, sp := m.chunk, m.chunk.sp
	fr := &frame{m: m, fn: f, env: env, caller: caller}
	fr.regs = m.newRegs(f.nregs)
	copy(fr.regs, args)
	if f.hasDef {
		m.runDef(fr, ch, sp)
	} else {
		m.run(fr, 0)
	}
	clear(fr.regs)
	m.chunk = ch
	ch.sp = sp
	m.depth--
	return fr.result
}

var profSteps = os.Getenv("VSYM_PROF") != ""

func (m *M) run(fr *frame, b int) {
	for b >= 0 {
		blk := &fr.fn.blocks[b]
		m.steps += int64(blk.n)
		if profSteps {
			fr.fn.steps += int64(blk.n)
		}
		if m.steps > m.maxSteps {
			panic(limitHit{"steps", fmt.Sprintf("step budget %d exceeded in %s", m.maxSteps, fr.fn.name)})
		}
		for _, in := range blk.ins {
			in(fr)
		}
		nb := blk.term(fr)
		fr.prev = b
		b = nb
	}
}

func (m *M) runDef(fr *frame, ch *stackChunk, sp int) {
	depth := m.depth
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			p, ok := r.(*tpanic)
			if !ok {
				panic(r)
			}
			m.depth = depth
			fr.pan, fr.isPan = p, true
			fr.runDefers()
			// recovered
			if fr.fn.recover >= 0 {
				m.run(fr, fr.fn.recover)
			} else {
				fr.result = zeroResult(fr.fn)
			}
		}()
		m.run(fr, 0)
	}()
}

func zeroResult(f *cfunc) Value {
	switch f.results.Len() {
	case 0:
		return Value{}
	case 1:
		return zero(f.results.At(0).Type())
	}
	return zero(f.results)
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runOne(d)
	}
	if fr.isPan {
		panic(fr.pan)
	}
}

func (fr *frame) runOne(d deferred) {
	depth := fr.m.depth
	defer func() {
		if r := recover(); r != nil {
			p, ok := r.(*tpanic)
			if !ok {
				panic(r)
			}
			fr.m.depth = depth
			fr.pan, fr.isPan = p, true
		}
	}()
	d.call()
}

// doRecover implements the recover() builtin called from frame caller.
func doRecover(caller *frame) Value {
	if caller.caller != nil && !caller.isPan && caller.caller.isPan {
		caller.caller.isPan = false
		return caller.caller.pan.v
	}
	return Value{}
}

func (m *M) rtPanic(fr *frame, msg string) {
	panic(&tpanic{v: Value{P: &Iface{rt: m.rtErrT, v: vStr("runtime error: " + msg)}}, stack: stackOf(fr)})
}

func stackOf(fr *frame) string {
	var sb strings.Builder
	for i := 0; fr != nil && i < 12; i++ {
		sb.WriteString(fr.fn.name)
		sb.WriteString(" < ")
		fr = fr.caller
	}
	return sb.String()
}

func (m *M) checkMem() {
	if m.allocBytes > m.maxAlloc {
		panic(limitHit{"memory", fmt.Sprintf("allocation budget of %d bytes exceeded", m.maxAlloc)})
	}
}

// lookupMethod finds the implementation of method on dynamic type rt.
func (m *M) lookupMethod(rt *RType, meth *types.Func) *cfunc {
	k := mkey{rt.id, meth.Id()}
	if c, ok := m.mcache[k]; ok {
		return c
	}
	m.P.typesMu.Lock()
	f := m.P.L.prog.LookupMethod(rt.t, meth.Pkg(), meth.Name())
	m.P.typesMu.Unlock()
	if f == nil {
		panic(unsupported{"method " + meth.Name() + " of " + rt.t.String()})
	}
	c := m.P.cfn(f)
	m.mcache[k] = c
	return c
}

func (m *M) implements(rt *RType, it *types.Interface, itr *RType) bool {
	k := ikey{rt.id, itr.id}
	if b, ok := m.icache[k]; ok {
		return b
	}
	m.P.typesMu.Lock()
	b := types.Implements(rt.t, it)
	m.P.typesMu.Unlock()
	m.icache[k] = b
	return b
}

// methodByName calls a named method (used by natives, e.g. error.Error()).
func (m *M) methodByName(rt *RType, name string) *cfunc {
	k := mkey{rt.id, "." + name}
	if c, ok := m.mcache[k]; ok {
		return c
	}
	m.P.typesMu.Lock()
	defer m.P.typesMu.Unlock()
	ms := m.P.L.prog.MethodSets.MethodSet(rt.t)
	var c *cfunc
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			if f := m.P.L.prog.MethodValue(ms.At(i)); f != nil {
				c = m.P.cfn(f)
			}
		}
	}
	m.mcache[k] = c
	return c
}
