package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// intrinsics of the harness runtime package vh/vrt

func setOf(s string) *bset {
	var b bset
	for i := 0; i < len(s); i++ {
		b.add(uint64(s[i]))
	}
	return &b
}

func (m *M) concArg(v Value) string {
	s, ok := conc(v)
	if !ok {
		return m.concStr(v)
	}
	return s
}

func init() {
	v := func(n string, f func(m *M, fr *frame, a []Value) Value) {
		natives["vh/vrt."+n] = func(m *M, fr *frame, a []Value) (Value, bool) { return f(m, fr, a), true }
	}
	v("Byte", func(m *M, fr *frame, a []Value) Value { return vExpr(m.newVar(8, false, nil, 0)) })
	byteIn := func(m *M, set string) Value {
		b := setOf(set)
		return vExpr(m.newVar(8, false, b, b.first()))
	}
	v("ByteIn", func(m *M, fr *frame, a []Value) Value { return byteIn(m, m.concArg(a[0])) })
	v("Str", func(m *M, fr *frame, a []Value) Value {
		n := int(m.intArg(fr, a[0], i64s))
		set := m.concArg(a[1])
		es := make([]*Expr, n)
		for i := range es {
			if set == "" {
				es[i] = m.newVar(8, false, nil, 0)
			} else {
				b := setOf(set)
				es[i] = m.newVar(8, false, b, b.first())
			}
		}
		return mkStr(es)
	})
	v("Int64", func(m *M, fr *frame, a []Value) Value { return vExpr(m.newVar(64, false, nil, 0)) })
	v("Uint64", func(m *M, fr *frame, a []Value) Value { return vExpr(m.newVar(64, false, nil, 0)) })
	v("Bool", func(m *M, fr *frame, a []Value) Value {
		e := m.newVar(1, false, nil, 0)
		return vExpr(m.x.Eq(e, m.x.Const(1, 1)))
	})
	v("Float64", func(m *M, fr *frame, a []Value) Value { return vExpr(m.x.FromBits(m.newVar(64, false, nil, 0))) })
	v("IntRange", func(m *M, fr *frame, a []Value) Value {
		lo, hi := int64(a[0].N), int64(a[1].N)
		if hi < lo || hi-lo > 255 {
			panic(engineBug{"IntRange"})
		}
		var b bset
		for i := int64(0); i <= hi-lo; i++ {
			b.add(uint64(i))
		}
		e := m.newVar(8, false, &b, 0)
		return vExpr(m.x.Bin(OAdd, m.x.Conv(e, 64, false), m.x.Const(64, uint64(lo))))
	})
	v("Choice", func(m *M, fr *frame, a []Value) Value {
		n := int(m.intArg(fr, a[0], i64s))
		return vInt(int64(m.choose(n, false, siteOf(fr, n))))
	})
	v("Tier", func(m *M, fr *frame, a []Value) Value { return vInt(int64(m.cfg.tier)) })
	v("Symbolic", func(m *M, fr *frame, a []Value) Value { return vBool(true) })
	v("Repeat", func(m *M, fr *frame, a []Value) Value { return vInt(1) })
	v("Assume", func(m *M, fr *frame, a []Value) Value {
		m.assume(m.expr(a[0], scalar{'b', 1, false}))
		return Value{}
	})
	v("Assert", func(m *M, fr *frame, a []Value) Value {
		m.assert(m.expr(a[0], scalar{'b', 1, false}), m.concArg(a[1]), func() string { return "condition is false" })
		return Value{}
	})
	v("AssertEq", func(m *M, fr *frame, a []Value) Value {
		got, want := a[0], a[1]
		m.assert(m.strEq(got, want), m.concArg(a[2]), func() string {
			return fmt.Sprintf("got %q, want %q", m.concStr(got), m.concStr(want))
		})
		return Value{}
	})
	v("Observe", func(m *M, fr *frame, a []Value) Value {
		if m.path.isoDepth == 0 {
			m.path.obs = append(m.path.obs, obsRec{m.concArg(a[0]), a[1]})
		}
		return Value{}
	})
	v("Reach", func(m *M, fr *frame, a []Value) Value {
		m.path.h.reach(m.concArg(a[0]))
		return Value{}
	})
	v("MapOrder", func(m *M, fr *frame, a []Value) Value {
		m.path.mapMode, m.path.mapDev = int(a[0].N), int(a[1].N)
		return Value{}
	})
	v("Isolate", func(m *M, fr *frame, a []Value) Value {
		saved := m.globals
		mark := len(m.log)
		iso := m.isoGlobals()
		m.globals = iso
		m.path.isoDepth++
		r := m.callClosure(fr, a[0])
		m.path.isoDepth--
		out := loadSlice(m.sliceOf(r))
		m.rollback(mark)
		m.globals = saved
		return Value{P: out}
	})
	v("Setup", func(m *M, fr *frame, a []Value) Value {
		k, ok := conc(a[0])
		if !ok {
			return m.callClosure(fr, a[1])
		}
		return m.setupOnce(fr, k, a[1])
	})
	v("Parallel", func(m *M, fr *frame, a []Value) Value {
		alone, conc := m.parallel(fr, m.sliceOf(a[0]))
		list := func(l []Slice) Value {
			s := make(Slice, len(l))
			for i := range l {
				s[i] = Value{P: l[i]}
			}
			return Value{P: s}
		}
		return tuple(list(alone), list(conc))
	})
	for _, n := range []string{"Start", "End", "Panicked"} {
		v(n, func(m *M, fr *frame, a []Value) Value { return Value{} })
	}
}

const maxGlobals = 1 << 15

type snapKey struct {
	key string
	iso bool
}

// snapshot is the effect of a set-up that depends on no input: it is computed by interpreting the
// set-up once per worker and re-applied on later paths.
type snapshot struct {
	undo  []undo
	vals  []Value
	res   Value
	steps int64
	alloc int
}

func symbolic(v Value) bool {
	switch x := v.P.(type) {
	case *Expr, *SymStr:
		return true
	case *Iface:
		return symbolic(x.v)
	}
	return false
}

func (m *M) setupOnce(fr *frame, key string, f Value) Value {
	k := snapKey{m.path.h.name + "|" + key, m.path.isoDepth > 0}
	p := m.path
	if s := m.snaps[k]; s != nil {
		for i, u := range s.undo {
			if u.p != nil {
				m.log = append(m.log, undo{p: u.p, v: *u.p})
				*u.p = s.vals[i]
			} else {
				u.redo()
				m.log = append(m.log, u)
			}
		}
		m.steps += s.steps
		m.allocBytes += s.alloc
		return s.res
	}
	mark, steps, alloc := len(m.log), m.steps, m.allocBytes
	last, nv, nb, mode := p.last, p.nvars, p.branches, p.mapMode
	r := m.callClosure(fr, f)
	if m.snapSeen == nil {
		m.snapSeen, m.snaps = map[snapKey]bool{}, map[snapKey]*snapshot{}
	}
	if !m.snapSeen[k] {
		// kept the second time
		m.snapSeen[k] = true
		return r
	}
	if p.last != last || p.nvars != nv || p.branches != nb || mode != 0 || p.mapMode != mode || symbolic(r) || m.tr != nil {
		return r
	}
	s := &snapshot{res: r, steps: m.steps - steps, alloc: m.allocBytes - alloc}
	seen := map[*Value]bool{}
	for _, u := range m.log[mark:] {
		if u.p != nil {
			if seen[u.p] {
				continue
			}
			seen[u.p] = true
			if symbolic(*u.p) {
				return r
			}
			s.undo = append(s.undo, undo{p: u.p})
			s.vals = append(s.vals, *u.p)
			continue
		}
		s.undo = append(s.undo, u)
		s.vals = append(s.vals, Value{})
	}
	if m.snapSize += len(s.undo); m.snapSize > 400000 {
		return r
	}
	m.snaps[k] = s
	return r
}

func loadSlice(s Slice) Slice {
	r := make(Slice, len(s))
	copyVals(r, s)
	return r
}

// isoGlobals is a second copy of all package state as it is after initialisation; the harness
// module's own globals (virtual files) are shared.
func (m *M) isoGlobals() []*Value {
	if m.iso0 == nil {
		cur, path, log := m.globals, m.path, m.log
		ms, ma := m.maxSteps, m.maxAlloc
		m.maxSteps, m.maxAlloc = 1<<60, 1<<50
		m.globals, m.path, m.log = nil, nil, nil
		m.P.mu.Lock()
		n := len(m.P.gtypes)
		hm := map[int]bool{}
		for i := range m.P.hmod {
			hm[i] = true
		}
		m.P.mu.Unlock()
		m.globals = make([]*Value, max(n, maxGlobals))
		m.initProgram()
		for i := range hm {
			p := m.gptrIn(m.globals0, i)
			*m.gptr(i) = Value{}
			m.globals[i] = p
		}
		m.iso0 = m.globals
		m.globals, m.path, m.log = cur, path, log
		m.maxSteps, m.maxAlloc = ms, ma
	}
	return m.iso0
}

func (m *M) gptrIn(g []*Value, i int) *Value {
	saved := m.globals
	m.globals = g
	p := m.gptr(i)
	m.globals = saved
	return p
}

// initProgram runs the package initialisers into m.globals.
func (m *M) initProgram() {
	P := m.P
	setG := func(pkg, name string, v Value) {
		p := P.L.pkgs[pkg]
		if p == nil {
			return
		}
		if g := p.Var(name); g != nil {
			*m.gptr(P.global(g)) = v
		}
	}
	getG := func(pkg, name string) Value {
		p := P.L.pkgs[pkg]
		if p == nil || p.Var(name) == nil {
			return Value{}
		}
		return *m.gptr(P.global(p.Var(name)))
	}
	runInit := func(pkg string) {
		if p := P.L.pkgs[pkg]; p != nil {
			m.call(nil, P.cfn(p.Func("init")), nil, nil)
		}
	}
	if m.globals == nil {
		m.globals = make([]*Value, maxGlobals)
	}
	runInit("internal/oserror")
	runInit("io/fs")
	for _, n := range []string{"ErrInvalid", "ErrPermission", "ErrExist", "ErrNotExist", "ErrClosed"} {
		setG("os", n, getG("internal/oserror", n))
	}
	for _, n := range []string{"Stdout", "Stderr", "Stdin"} {
		if p := P.L.pkgs["os"]; p != nil {
			z := zero(p.Pkg.Scope().Lookup("File").Type())
			setG("os", n, Value{P: &z})
		}
	}
	for g, s := range P.L.embed {
		v := vStr(s)
		if _, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Slice); ok {
			v = Value{P: m.bytesOf(v)}
		}
		*m.gptr(P.global(g)) = v
	}
	runInit("vh/vmodel")
	runInit("vh/hs")
	m.log = m.log[:0]
	if m.globals0 == nil {
		m.globals0 = m.globals
	}
}

// setup resolves model substitutions and special types.
func (P *Program) setup() error {
	vm := P.L.pkgs["vh/vmodel"]
	if vm == nil {
		return fmt.Errorf("vh/vmodel not loaded")
	}
	P.rtErrT = P.rtype(vm.Type("RuntimeError").Type())
	if p := P.L.pkgs["reflect"]; p != nil {
		P.reflT = P.rtype(types.NewPointer(p.Pkg.Scope().Lookup("rtype").Type()))
	}
	if p := P.L.pkgs["internal/reflectlite"]; p != nil {
		P.liteT = P.rtype(p.Pkg.Scope().Lookup("rtype").Type())
	}
	sub := map[string]string{
		"os.ReadFile": "ReadFile", "os.Stat": "Stat", "os.Lstat": "Lstat", "os.Readlink": "Readlink", "os.ReadDir": "ReadDir", "os.Getwd": "Getwd",
		"os.Open": "Open", "os.OpenFile": "OpenFile", "(*os.File).Close": "FileClose", "(*os.File).Read": "FileRead", "(*os.File).Name": "FileName",
		"(*os.File).Stat": "FileStat", "(*os.File).ReadDir": "FileReadDir", "(*os.File).Readdir": "FileReaddir",
		"(*os.File).Readdirnames": "FileReaddirnames", "os.IsNotExist": "IsNotExist", "os.IsPermission": "IsPermission", "os.IsExist": "IsExist",
		"net/http.Error": "HTTPError", "net/http.StatusText": "StatusText", "(net/http.Header).Set": "HeaderSet", "(net/http.Header).Add": "HeaderAdd", "(net/http.Header).Del": "HeaderDel",
		"(net/http.Header).Get": "HeaderGet", "(net/http.Header).Values": "HeaderValues",
		"os.DirFS": "DirFS", "vh/vrt.WriteFile": "WriteFile", "vh/vrt.Mkdir": "Mkdir", "vh/vrt.Unreadable": "Unreadable", "vh/vrt.Symlink": "Symlink", "vh/vrt.Remove": "Remove", "vh/vrt.Cwd": "Getcwd",
	}
	for k, n := range sub {
		f := vm.Func(n)
		if f == nil {
			return fmt.Errorf("vmodel.%s missing", n)
		}
		P.subst[k] = f
	}
	P.hmod = map[int]bool{}
	var names []string
	for n := range P.L.pkgs {
		if n == "vh" || strings.HasPrefix(n, "vh/") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		p := P.L.pkgs[n]
		for _, mem := range sortedKeys(p.Members) {
			if g := p.Var(mem); g != nil {
				P.hmod[P.global(g)] = true
			}
		}
	}
	return nil
}

// spawn runs a goroutine to completion at once (one legal schedule).
func (m *M) spawn(fr *frame, f func()) { f() }
