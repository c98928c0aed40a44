package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Concurrency: vrt.Parallel(fs...) decides whether the operations fs may run at the same time.
//
// 1. Every operation runs alone from the same state; its shared-memory accesses and
//    synchronisation operations are recorded.
// 2. For every pair of conflicting accesses of two operations (same location, one of them a
//    write) an SMT query asks for a schedule - an integer position for every event, program order,
//    mutual exclusion of critical sections, Once - in which the two accesses are adjacent. A model
//    is a candidate data race.
// 3. The operations run interleaved. The schedule is a sequence of symbolic choices at the
//    synchronisation operations of the code under test (code without data races has no other
//    schedule-dependent behaviour), with at most maxPreempt preemptions; a happens-before
//    detector watches every access. The results are compared by the harness.

const maxPreempt = 2

type evKind byte

const (
	evAccess evKind = iota
	evAcquire
	evRAcquire
	evRelease
	evOnceBegin
	evOnceEnd
	evOnceRet
)

type pev struct {
	k     evKind
	p     *Value // synchronisation object
	loc   any    // accessed location
	write bool
	fn    string
}

type accKey struct {
	loc   any
	write bool
	seg   int
}

type vclock []int

func (v vclock) join(o vclock) {
	for i := range o {
		if o[i] > v[i] {
			v[i] = o[i]
		}
	}
}

type hbLoc struct {
	wt, wc int
	wfn    string
	rc     []int
	rfn    []string
}

// tracer observes the running operation.
type tracer struct {
	m     *M
	th    int
	off   int
	fr    *frame
	solo  bool // operation alone (phase 1)
	evs   []pev
	seen  map[accKey]bool
	seg   int
	pool  map[*Value]int
	syncs map[*Value]bool // synchronisation objects used by the code under test
	// interleaved
	par     *parRun
	races   map[string]bool
	locs    map[any]*hbLoc
	vc      []vclock
	rel     map[*Value]vclock // release clocks
	rrel    map[*Value]vclock // read-release clocks
	objrel  map[any]vclock    // objects passed through pools
	preempt int
	free    bool // the order matters
}

type parThread struct {
	id     int
	f      Value
	resume chan bool
	chunk  *stackChunk
	depth  int
	off    int
	res    Slice
	done   bool
	pan    any
	block  func() bool // nil: runnable
	what   string
}

type parRun struct {
	ths   []*parThread
	yield chan *parThread
	cur   *parThread
}

type parKill struct{}

func (m *M) quiet(f func()) {
	if m.tr != nil {
		m.tr.off++
		defer func() { m.tr.off-- }()
	}
	f()
}

func fnOf(fr *frame) string {
	for fr != nil {
		if fr.fn.fn != nil {
			return fr.fn.name
		}
		fr = fr.caller
	}
	return "?"
}

// owner is the package path of the code that asked for a synchronisation operation.
func owner(fr *frame) string {
	for ; fr != nil; fr = fr.caller {
		p := pkgOf(fr.fn.fn)
		if p == "sync" || p == "sync/atomic" || p == "internal/sync" {
			continue
		}
		return p
	}
	return ""
}

func pkgOf(f *ssa.Function) string {
	for f != nil {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o != f {
			f = o
			continue
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg().Path()
		}
		f = f.Parent()
	}
	return ""
}

func underTest(pkg string) bool { return strings.HasPrefix(pkg, repoModule) }

const repoModule = "github.com/textwire/textwire/"

func (t *tracer) access(fr *frame, p *Value, write bool) {
	t.fr = fr
	if t.off > 0 {
		return
	}
	if !write {
		t.tree(p, false)
	}
	// writes are recorded by set, leaf by leaf
}

func (t *tracer) tree(p *Value, write bool) {
	if a, ok := p.P.(*Agg); ok {
		for i := range a.E {
			t.tree(&a.E[i], write)
		}
		return
	}
	t.loc(p, write)
}

func (t *tracer) readAll(fr *frame, s Slice) {
	t.fr = fr
	if t.off > 0 {
		return
	}
	for i := range s {
		t.tree(&s[i], false)
	}
}

func (t *tracer) accessMap(fr *frame, mp *Map, write bool) {
	t.fr = fr
	t.loc(mp, write)
}

func (t *tracer) loc(l any, write bool) {
	if t.off > 0 {
		return
	}
	if t.solo {
		k := accKey{l, write, t.seg}
		if t.seen[k] {
			return
		}
		t.seen[k] = true
		t.evs = append(t.evs, pev{k: evAccess, loc: l, write: write, fn: fnOf(t.fr)})
		return
	}
	h := t.locs[l]
	if h == nil {
		h = &hbLoc{wt: -1}
		t.locs[l] = h
	}
	me := t.vc[t.th]
	if h.wt >= 0 && h.wt != t.th && h.wc > me[h.wt] {
		t.race(h.wfn, fnOf(t.fr), true, write)
	}
	if write {
		for o, c := range h.rc {
			if o != t.th && c > me[o] {
				t.race(h.rfn[o], fnOf(t.fr), false, true)
			}
		}
		h.wt, h.wc, h.wfn = t.th, me[t.th], fnOf(t.fr)
		h.rc, h.rfn = nil, nil
		return
	}
	if h.rc == nil {
		h.rc, h.rfn = make([]int, len(t.vc)), make([]string, len(t.vc))
	}
	if h.rc[t.th] < me[t.th] {
		h.rc[t.th], h.rfn[t.th] = me[t.th], fnOf(t.fr)
	}
}

func harnessFn(f string) bool { return strings.HasPrefix(f, "vh/") || strings.HasPrefix(f, "(*vh/") }

func (t *tracer) race(a, b string, aw, bw bool) {
	if harnessFn(a) || harnessFn(b) {
		return
	}
	l := "data race between " + raceSide(a, aw) + " and " + raceSide(b, bw)
	if !t.races[l] {
		t.races[l] = true
		t.m.candidate("race", l, "unsynchronised: no happens-before order between the two accesses")
	}
}

func raceSide(fn string, w bool) string {
	fn = strings.ReplaceAll(fn, "github.com/textwire/textwire/v2", "tw")
	if w {
		return "a write in " + fn
	}
	return "a read in " + fn
}

func clockOf(m map[*Value]vclock, p *Value, n int) vclock {
	c := m[p]
	if c == nil {
		c = make(vclock, n)
		m[p] = c
	}
	return c
}

func (t *tracer) acquire(m map[*Value]vclock, p *Value) {
	t.vc[t.th].join(clockOf(m, p, len(t.vc)))
}

func (t *tracer) release(m map[*Value]vclock, p *Value) {
	clockOf(m, p, len(t.vc)).join(t.vc[t.th])
	t.vc[t.th][t.th]++
}

func (t *tracer) ev(fr *frame, k evKind, p *Value) {
	if t.solo {
		t.evs = append(t.evs, pev{k: k, p: p, fn: fnOf(fr)})
		t.seg++
	}
}

// note registers a synchronisation operation; in interleaved mode other threads may run here.
func (t *tracer) note(fr *frame, p *Value) {
	t.fr = fr
	if !underTest(owner(fr)) {
		return
	}
	if t.solo {
		t.syncs[p] = true
		return
	}
	t.m.point()
}

func (t *tracer) beforeLock(fr *frame, p *Value, kind string) {
	if kind != "unlock" && kind != "runlock" {
		t.note(fr, p)
	}
	if t.solo {
		return
	}
	m := t.m
	busy := func(rd bool) func() bool {
		return func() bool {
			w, _ := m.sideGet(p, "w").(int)
			r, _ := m.sideGet(p, "r").(int)
			return w > 0 || (!rd && r > 0)
		}
	}
	switch kind {
	case "lock":
		m.wait(busy(false), "a mutex in "+stackOf(fr))
	case "rlock":
		m.wait(busy(true), "a mutex in "+stackOf(fr))
	}
}

func (t *tracer) afterLock(fr *frame, p *Value, kind string) {
	switch kind {
	case "lock":
		t.ev(fr, evAcquire, p)
		if !t.solo {
			t.acquire(t.rel, p)
			t.acquire(t.rrel, p)
		}
	case "rlock":
		t.ev(fr, evRAcquire, p)
		if !t.solo {
			t.acquire(t.rel, p)
		}
	case "try", "tryr":
		if w, _ := t.m.sideGet(p, "w").(int); w > 0 || kind == "tryr" {
			if kind == "try" {
				t.ev(fr, evAcquire, p)
			} else {
				t.ev(fr, evRAcquire, p)
			}
			if !t.solo {
				t.acquire(t.rel, p)
				t.acquire(t.rrel, p)
			}
		}
	case "unlock":
		t.ev(fr, evRelease, p)
		if !t.solo {
			t.release(t.rel, p)
		}
	case "runlock":
		t.ev(fr, evRelease, p)
		if !t.solo {
			t.release(t.rrel, p)
		}
	}
	if kind == "unlock" || kind == "runlock" {
		t.note(fr, p)
	}
}

func (t *tracer) onceWait(fr *frame, p *Value) {
	t.note(fr, p)
	if !t.solo {
		t.m.wait(func() bool {
			o, _ := t.m.sideGet(p, "once").(int)
			return o > 0
		}, "a sync.Once")
	}
}
func (t *tracer) onceBegin(fr *frame, p *Value) {
	t.ev(fr, evOnceBegin, p)
	t.m.sideSet(p, "once", t.th+1)
}
func (t *tracer) onceEnd(fr *frame, p *Value) {
	t.ev(fr, evOnceEnd, p)
	t.m.sideSet(p, "once", 0)
	if !t.solo {
		t.release(t.rel, p)
	}
}
func (t *tracer) onceRet(fr *frame, p *Value) {
	t.ev(fr, evOnceRet, p)
	if !t.solo {
		t.acquire(t.rel, p)
	}
}

// syncOp precedes an atomic operation, a sync.Map or a sync.Pool operation. The result is the
// number of pooled objects that belong to the other operations.
func (t *tracer) syncOp(fr *frame, p *Value, kind string) int {
	if t.solo {
		t.seg++
	} else {
		// objects pass from Put to Get, values from store to load
		if kind == "pool.put" {
			t.release(t.rel, p)
		} else {
			t.acquire(t.rel, p)
		}
	}
	t.note(fr, p)
	if kind != "pool.put" && !t.solo {
		t.acquire(t.rel, p)
	}
	if t.solo && kind == "pool.get" && t.th > 0 {
		// objects that are in the pool before the operations belong to the first one
		l, _ := t.m.sideGet(p, "pool").([]Value)
		if _, ok := t.pool[p]; !ok {
			t.pool[p] = len(l)
		}
		if len(l) <= t.pool[p] {
			return len(l)
		}
	}
	return 0
}

func (t *tracer) syncDone(fr *frame, p *Value, kind string) {
	if t.solo {
		return
	}
	if !strings.HasPrefix(kind, "Load") || strings.HasPrefix(kind, "LoadOr") || strings.HasPrefix(kind, "LoadAnd") {
		t.release(t.rel, p)
	}
	t.note(fr, p)
}

// ---- scheduling

// point lets another thread run, if the symbolic schedule says so.
func (m *M) point() {
	t := m.tr
	if t.par == nil || t.preempt <= 0 {
		return
	}
	var o []*parThread
	for _, x := range t.par.ths {
		if x != t.par.cur && !x.done && (x.block == nil || !x.block()) {
			o = append(o, x)
		}
	}
	if len(o) == 0 {
		return
	}
	if c := m.chooseInternal(1 + len(o)); c > 0 {
		t.preempt--
		m.handoff(o[c-1])
	}
}

// wait blocks the running thread while busy().
func (m *M) wait(busy func() bool, what string) {
	t := m.tr
	if t.par == nil || !busy() {
		return
	}
	me := t.par.cur
	me.block, me.what = busy, what
	for busy() {
		var o []*parThread
		for _, x := range t.par.ths {
			if x != me && !x.done && (x.block == nil || !x.block()) {
				o = append(o, x)
			}
		}
		if len(o) == 0 {
			panic(limitHit{"deadlock", "deadlock: every thread waits, one for " + what})
		}
		m.handoff(o[m.chooseInternal(len(o))])
	}
	me.block = nil
}

// handoff parks the running thread and resumes o; it returns when this thread is resumed.
func (m *M) handoff(o *parThread) {
	p := m.tr.par
	me := p.cur
	me.chunk, me.depth, me.off = m.chunk, m.depth, m.tr.off
	m.enter(o)
	o.resume <- true
	if !<-me.resume {
		panic(parKill{})
	}
}

func (m *M) enter(o *parThread) {
	m.tr.par.cur = o
	m.chunk, m.depth, m.tr.off, m.tr.th = o.chunk, o.depth, o.off, o.id
}

func (m *M) interleave(fr *frame, fs []Value, tr *tracer) []Slice {
	p := &parRun{yield: make(chan *parThread)}
	tr.par = p
	m.tr = tr
	chunk, depth := m.chunk, m.depth
	for i, f := range fs {
		for len(m.parChunks) <= i {
			m.parChunks = append(m.parChunks, &stackChunk{buf: make([]Value, 1<<16)})
		}
		c := m.parChunks[i]
		for k := c; k != nil; k = k.next {
			clear(k.buf[:k.sp])
			k.sp = 0
		}
		p.ths = append(p.ths, &parThread{id: i, f: f, resume: make(chan bool), chunk: c, depth: depth})
	}
	for _, th := range p.ths {
		go func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(parKill); ok {
						r = nil
					}
					th.pan = r
				}
				p.yield <- th
			}()
			if !<-th.resume {
				panic(parKill{})
			}
			r := m.callClosure(fr, th.f)
			th.res = loadSlice(m.sliceOf(r))
			th.done = true
		}()
	}
	var fail any
	left := append([]*parThread(nil), p.ths...)
	for len(left) > 0 {
		var ready []*parThread
		for _, x := range left {
			if x.block == nil || !x.block() {
				ready = append(ready, x)
			}
		}
		if len(ready) == 0 {
			fail = limitHit{"deadlock", "deadlock: every thread waits, one for " + left[0].what}
			break
		}
		x := ready[0]
		if tr.free {
			x = ready[m.chooseInternal(len(ready))]
		}
		m.enter(x)
		x.resume <- true
		y := <-p.yield
		if y.pan != nil {
			fail = y.pan
			y.done = true
			break
		}
		left = nil
		for _, o := range p.ths {
			if !o.done {
				left = append(left, o)
			}
		}
	}
	for _, o := range p.ths {
		if !o.done {
			o.resume <- false
			<-p.yield
		}
	}
	m.tr = nil
	m.chunk, m.depth = chunk, depth
	if fail != nil {
		panic(fail)
	}
	var out []Slice
	for _, th := range p.ths {
		out = append(out, th.res)
	}
	return out
}

// parallel implements vrt.Parallel.
func (m *M) parallel(fr *frame, fs []Value) (alone, conc []Slice) {
	var trs []*tracer
	for i, f := range fs {
		mark := len(m.log)
		t := &tracer{m: m, th: i, solo: true, seen: map[accKey]bool{}, syncs: map[*Value]bool{}, pool: map[*Value]int{}}
		func() {
			m.tr = t
			defer func() { m.tr = nil }()
			r := m.callClosure(fr, f)
			alone = append(alone, loadSlice(m.sliceOf(r)))
		}()
		m.rollback(mark)
		trs = append(trs, t)
	}
	races := map[string]bool{}
	common := map[*Value]bool{}
	for i, a := range trs {
		for _, b := range trs[i+1:] {
			m.raceQueries(a, b, races)
			for p := range a.syncs {
				if b.syncs[p] {
					common[p] = true
				}
			}
		}
	}
	n := len(fs)
	t := &tracer{m: m, races: races, locs: map[any]*hbLoc{}, rel: map[*Value]vclock{}, rrel: map[*Value]vclock{}}
	for i := range fs {
		v := make(vclock, n)
		v[i] = 1
		t.vc = append(t.vc, v)
	}
	t.free = len(common) > 0 || len(races) > 0
	if len(common) > 0 {
		t.preempt = maxPreempt
		m.path.h.reach("interleaved at synchronisation operations")
	} else {
		m.path.h.reach("no synchronisation object in common")
	}
	return alone, m.interleave(fr, fs, t)
}

// raceQueries asks the solver for a schedule in which two conflicting accesses are adjacent.
func (m *M) raceQueries(a, b *tracer, races map[string]bool) {
	type lw struct {
		loc   any
		write bool
	}
	at := map[any][]int{}
	for i, e := range a.evs {
		if e.k == evAccess {
			at[e.loc] = append(at[e.loc], i)
		}
	}
	asked := map[string]bool{}
	for j, e := range b.evs {
		if e.k != evAccess {
			continue
		}
		for _, i := range at[e.loc] {
			x := a.evs[i]
			if !x.write && !e.write || harnessFn(x.fn) || harnessFn(e.fn) {
				continue
			}
			l := "data race between " + raceSide(x.fn, x.write) + " and " + raceSide(e.fn, e.write)
			if races[l] || len(asked) > 200 {
				continue
			}
			q := raceSMT(a.evs, b.evs, i, j)
			if asked[q] {
				continue
			}
			asked[q] = true
			v, cached := m.raceCache[q]
			if !cached {
				v = m.sol.Raw(q, 5000)
				if m.raceCache == nil {
					m.raceCache = map[string]Verdict{}
				}
				m.raceCache[q] = v
			}
			m.path.h.reach("race query " + v.String())
			if v == SAT {
				races[l] = true
				m.candidate("race", l, "a schedule in which the two accesses are adjacent exists")
			}
		}
	}
}

// raceSMT encodes the schedules of two recorded traces around the accesses a[i] and b[j].
func raceSMT(a, b []pev, i, j int) string {
	var sb strings.Builder
	type section struct {
		p        *Value
		from, to string
		rd       bool
	}
	type once struct {
		begin, end, ret string
		inside          bool // the access is made by the body
	}
	emit := func(pre string, evs []pev, at int) (secs []section, onces map[*Value]*once, acc string) {
		onces = map[*Value]*once{}
		open := map[*Value]int{}
		prev := ""
		k := 0
		inOnce := map[*Value]bool{}
		for n, e := range evs {
			if e.k == evAccess && n != at {
				continue
			}
			v := fmt.Sprintf("%s%d", pre, k)
			k++
			fmt.Fprintf(&sb, "(declare-const %s Int)\n", v)
			if prev != "" {
				fmt.Fprintf(&sb, "(assert (< %s %s))\n", prev, v)
			}
			prev = v
			switch e.k {
			case evAccess:
				acc = v
				for p := range inOnce {
					onces[p].inside = true
				}
			case evAcquire, evRAcquire:
				open[e.p] = len(secs)
				secs = append(secs, section{e.p, v, "", e.k == evRAcquire})
			case evRelease:
				if s, ok := open[e.p]; ok {
					secs[s].to = v
					delete(open, e.p)
				}
			case evOnceBegin:
				if onces[e.p] == nil {
					onces[e.p] = &once{begin: v}
				}
				inOnce[e.p] = true
			case evOnceEnd:
				onces[e.p].end = v
				delete(inOnce, e.p)
			case evOnceRet:
				if o := onces[e.p]; o != nil && o.ret == "" {
					o.ret = v
				}
			}
		}
		return
	}
	sa, oa, xa := emit("a", a, i)
	sc, ob, xb := emit("b", b, j)
	for _, s := range sa {
		for _, t := range sc {
			if s.p != t.p || s.rd && t.rd {
				continue
			}
			c := "(or"
			if s.to != "" {
				c += fmt.Sprintf(" (< %s %s)", s.to, t.from)
			}
			if t.to != "" {
				c += fmt.Sprintf(" (< %s %s)", t.to, s.from)
			}
			fmt.Fprintf(&sb, "(assert %s false))\n", c)
		}
	}
	// a Once body runs in one of the two threads, and the other one's Do returns after it
	var ks []string
	n := 0
	for p, o := range oa {
		q := ob[p]
		if q == nil || o.end == "" || q.end == "" || o.ret == "" || q.ret == "" {
			continue
		}
		s := fmt.Sprintf("(assert (or (and (< %s %s) %v) (and (< %s %s) %v)))\n", o.end, q.ret, !q.inside, q.end, o.ret, !o.inside)
		ks = append(ks, s)
		n++
	}
	sort.Strings(ks)
	sb.WriteString(strings.Join(ks, ""))
	fmt.Fprintf(&sb, "(assert (or (= (+ %s 1) %s) (= (+ %s 1) %s)))\n", xa, xb, xb, xa)
	return sb.String()
}
