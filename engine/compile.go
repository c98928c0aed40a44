package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type getter func(fr *frame) Value

type fnCompiler struct {
	P    *Program
	c    *cfunc
	f    *ssa.Function
	idx  map[ssa.Value]int
	nreg int
}

func (P *Program) compile(c *cfunc) {
	f := c.fn
	c.nparams = len(f.Params)
	c.results = f.Signature.Results()
	name := f.String()
	if n, ok := natives[name]; ok {
		c.native = n
	} else if o := f.Origin(); o != nil {
		if n, ok := natives[o.String()]; ok {
			c.native = n
		}
	}
	if s, ok := P.subst[name]; ok {
		sc := P.cfn(s)
		c.native = func(m *M, fr *frame, args []Value) (Value, bool) { return m.call(fr, sc, args, nil), true }
		return
	}
	if len(f.Blocks) == 0 {
		if f.Name() == "init" && c.native == nil {
			c.native = nop
		}
		return
	}
	pk := f.Pkg
	if pk == nil && f.Origin() != nil {
		pk = f.Origin().Pkg
	}
	if pk != nil {
		switch pk.Pkg.Path() {
		case "bytes", "io", "bufio", "fmt":
			c.raw = true
		case "strings":
			c.raw = strings.HasPrefix(name, "(*strings.Builder)")
		}
	}
	k := &fnCompiler{P: P, c: c, f: f, idx: map[ssa.Value]int{}}
	for _, p := range f.Params {
		k.idx[p] = k.nreg
		k.nreg++
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				k.idx[v] = k.nreg
				k.nreg++
			}
		}
	}
	c.recover = -1
	if f.Recover != nil {
		c.recover = f.Recover.Index
	}
	blocks := make([]cblock, len(f.Blocks))
	for i, b := range f.Blocks {
		k.block(b, &blocks[i])
	}
	c.nregs = k.nreg
	c.blocks = blocks
}

func (k *fnCompiler) get(v ssa.Value) getter {
	switch v := v.(type) {
	case *ssa.Const:
		if needsFresh(v.Type()) && v.Value == nil {
			t := v.Type()
			return func(fr *frame) Value { return zero(t) }
		}
		c := constVal(v)
		return func(fr *frame) Value { return c }
	case *ssa.Global:
		g := k.P.global(v)
		return func(fr *frame) Value { return Value{P: fr.m.gptr(g)} }
	case *ssa.Function:
		cl := Value{P: &Closure{fn: k.P.cfn(v)}}
		return func(fr *frame) Value { return cl }
	case *ssa.FreeVar:
		for i, fv := range k.f.FreeVars {
			if fv == v {
				return func(fr *frame) Value { return fr.env[i] }
			}
		}
	case *ssa.Builtin:
		return func(fr *frame) Value { return Value{} }
	}
	i, ok := k.idx[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s in %s", v, k.f))
	}
	return func(fr *frame) Value { return fr.regs[i] }
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return Value{}
	}
	s := scalarOf(c.Type())
	switch s.kind {
	case 'b':
		return vBool(constant.BoolVal(c.Value))
	case 's':
		if c.Value.Kind() == constant.String {
			return vStr(constant.StringVal(c.Value))
		}
		return vStr(string(rune(c.Int64())))
	case 'i':
		cv := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(cv); ok {
			return Value{N: uint64(i) & mask(s.w)}
		}
		u, _ := constant.Uint64Val(cv)
		return Value{N: u & mask(s.w)}
	case 'f':
		f, _ := constant.Float64Val(c.Value)
		if s.w == 32 {
			f32, _ := constant.Float32Val(c.Value)
			return Value{N: uint64(math.Float32bits(f32))}
		}
		return Value{N: math.Float64bits(f)}
	}
	// unsafe.Pointer / type-param leftovers / complex
	return Value{}
}

func (k *fnCompiler) block(b *ssa.BasicBlock, cb *cblock) {
	cb.n = len(b.Instrs)
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi:
			continue // handled on the edges
		case *ssa.DebugRef:
			continue
		case *ssa.Jump:
			cb.term = k.edge(b, b.Succs[0])
			return
		case *ssa.If:
			c := k.get(in.Cond)
			t, e := k.edge(b, b.Succs[0]), k.edge(b, b.Succs[1])
			cb.term = func(fr *frame) int {
				v := c(fr)
				taken := v.N != 0
				if v.P != nil {
					taken = fr.m.branch(v.P.(*Expr))
				}
				if taken {
					return t(fr)
				}
				return e(fr)
			}
			return
		case *ssa.Return:
			var gs []getter
			for _, r := range in.Results {
				gs = append(gs, k.get(r))
			}
			switch len(gs) {
			case 0:
				cb.term = func(fr *frame) int { return -1 }
			case 1:
				g := gs[0]
				cb.term = func(fr *frame) int { fr.result = g(fr); return -1 }
			default:
				cb.term = func(fr *frame) int {
					a := &Agg{E: make([]Value, len(gs))}
					for i, g := range gs {
						a.E[i] = g(fr)
					}
					fr.result = Value{P: a}
					return -1
				}
			}
			return
		case *ssa.Panic:
			g := k.get(in.X)
			cb.term = func(fr *frame) int {
				v := g(fr)
				if v.P == nil {
					fr.m.rtPanic(fr, "panic called with nil argument")
				}
				panic(&tpanic{v: v, stack: stackOf(fr)})
			}
			return
		default:
			if f := k.instr(in); f != nil {
				cb.ins = append(cb.ins, f)
			}
		}
	}
	panic("block without terminator")
}

// edge compiles the transfer to succ, performing its phi assignments.
func (k *fnCompiler) edge(from, to *ssa.BasicBlock) func(fr *frame) int {
	n := to.Index
	var dst []int
	var src []getter
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		dst = append(dst, k.idx[phi])
		src = append(src, k.get(phi.Edges[pi]))
	}
	switch len(dst) {
	case 0:
		return func(fr *frame) int { return n }
	case 1:
		d, s := dst[0], src[0]
		return func(fr *frame) int { fr.regs[d] = s(fr); return n }
	case 2:
		d0, s0, d1, s1 := dst[0], src[0], dst[1], src[1]
		return func(fr *frame) int {
			a, b := s0(fr), s1(fr)
			fr.regs[d0], fr.regs[d1] = a, b
			return n
		}
	}
	return func(fr *frame) int {
		var tmp [8]Value
		t := tmp[:0]
		for _, s := range src {
			t = append(t, s(fr))
		}
		for i, d := range dst {
			fr.regs[d] = t[i]
		}
		return n
	}
}

func unsup(why string) func(fr *frame) {
	return func(fr *frame) { panic(unsupported{why + " in " + fr.fn.name}) }
}

func (m *M) ptr(fr *frame, v Value) *Value {
	if p, ok := v.P.(*Value); ok {
		return p
	}
	if v.P == nil {
		m.rtPanic(fr, "invalid memory address or nil pointer dereference")
	}
	panic(unsupported{fmt.Sprintf("pointer of kind %T in %s", v.P, fr.fn.name)})
}

func (k *fnCompiler) instr(in ssa.Instruction) func(fr *frame) {
	var d int
	if v, ok := in.(ssa.Value); ok {
		d = k.idx[v]
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		if needsFresh(t) {
			return func(fr *frame) {
				v := zero(t)
				fr.regs[d] = Value{P: &v}
			}
		}
		z := zero(t)
		return func(fr *frame) {
			v := z
			fr.regs[d] = Value{P: &v}
		}
	case *ssa.BinOp:
		x, y := k.get(in.X), k.get(in.Y)
		op := k.binop(in.Op, in.X.Type(), in.Y.Type())
		return func(fr *frame) { fr.regs[d] = op(fr, x(fr), y(fr)) }
	case *ssa.UnOp:
		x := k.get(in.X)
		switch in.Op {
		case token.MUL:
			return func(fr *frame) {
				p := fr.m.ptr(fr, x(fr))
				if fr.m.tr != nil {
					fr.m.tr.access(fr, p, false)
				}
				v := *p
				if _, ok := v.P.(*Agg); ok {
					v = loadVal(v)
				}
				fr.regs[d] = v
			}
		case token.NOT:
			return func(fr *frame) {
				v := x(fr)
				if e, ok := v.P.(*Expr); ok {
					fr.regs[d] = vExpr(fr.m.x.Not(e))
				} else {
					fr.regs[d] = Value{N: v.N ^ 1}
				}
			}
		case token.SUB:
			s := scalarOf(in.X.Type())
			if s.kind == 'f' {
				return func(fr *frame) {
					v := x(fr)
					if e, ok := v.P.(*Expr); ok {
						fr.regs[d] = vExpr(fr.m.x.FUn(OFNeg, e, 0))
					} else {
						fr.regs[d] = Value{N: v.N ^ (1 << (s.w - 1))}
					}
				}
			}
			return func(fr *frame) {
				v := x(fr)
				if e, ok := v.P.(*Expr); ok {
					fr.regs[d] = vExpr(fr.m.x.Un(ONeg, e))
				} else {
					fr.regs[d] = Value{N: -v.N & mask(s.w)}
				}
			}
		case token.XOR:
			s := scalarOf(in.X.Type())
			return func(fr *frame) {
				v := x(fr)
				if e, ok := v.P.(*Expr); ok {
					fr.regs[d] = vExpr(fr.m.x.Un(OBNot, e))
				} else {
					fr.regs[d] = Value{N: ^v.N & mask(s.w)}
				}
			}
		}
		return unsup("unop " + in.Op.String())
	case *ssa.Store:
		a, v := k.get(in.Addr), k.get(in.Val)
		return func(fr *frame) {
			p := fr.m.ptr(fr, a(fr))
			if fr.m.tr != nil {
				fr.m.tr.access(fr, p, true)
			}
			val := v(fr)
			if _, ok := val.P.(*Agg); ok {
				fr.m.store(p, val)
			} else {
				fr.m.set(p, val)
			}
		}
	case *ssa.FieldAddr:
		x, i := k.get(in.X), in.Field
		return func(fr *frame) {
			p := fr.m.ptr(fr, x(fr))
			a, ok := p.P.(*Agg)
			if !ok {
				panic(unsupported{"field address of opaque value in " + fr.fn.name})
			}
			fr.regs[d] = Value{P: &a.E[i]}
		}
	case *ssa.Field:
		x, i := k.get(in.X), in.Field
		return func(fr *frame) {
			a, ok := x(fr).P.(*Agg)
			if !ok {
				panic(unsupported{"field of opaque value in " + fr.fn.name})
			}
			fr.regs[d] = a.E[i]
		}
	case *ssa.IndexAddr:
		x, i := k.get(in.X), k.get(in.Index)
		is := scalarOf(in.Index.Type())
		isArr := false
		et := types.Type(nil)
		switch t := in.X.Type().Underlying().(type) {
		case *types.Pointer:
			isArr = true
			et = t.Elem().Underlying().(*types.Array).Elem()
		case *types.Slice:
			et = t.Elem()
		}
		// a symbolic index used only for an immediate load is kept as one load
		es := scalarOf(et)
		onlyLoad := true
		for _, r := range *in.Referrers() {
			if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
				onlyLoad = false
			}
		}
		return func(fr *frame) {
			var arr []Value
			v := x(fr)
			if isArr {
				a, ok := fr.m.ptr(fr, v).P.(*Agg)
				if !ok {
					panic(unsupported{"index of opaque array"})
				}
				arr = a.E
			} else if v.P != nil {
				s, ok := v.P.(Slice)
				if !ok {
					panic(unsupported{"index of opaque slice"})
				}
				arr = s
			}
			iv := i(fr)
			if e, ok := iv.P.(*Expr); ok {
				fr.regs[d] = Value{P: fr.m.symIndex(fr, arr, e, is, es, onlyLoad)}
				return
			}
			n := sx(iv.N, is.w)
			if !is.signed {
				n = int64(iv.N)
			}
			if n < 0 || n >= int64(len(arr)) {
				fr.m.rtPanic(fr, fmt.Sprintf("index out of range [%d] with length %d", n, len(arr)))
			}
			fr.regs[d] = Value{P: &arr[n]}
		}
	case *ssa.Index:
		x, i := k.get(in.X), k.get(in.Index)
		is := scalarOf(in.Index.Type())
		xs := scalarOf(in.X.Type())
		raw := k.c.raw
		es := scalarOf(in.Type())
		return func(fr *frame) {
			v, iv := x(fr), i(fr)
			if xs.kind == 's' {
				fr.regs[d] = fr.m.strIndex(fr, v, iv, is, raw)
				return
			}
			arr := v.P.(*Agg).E
			if e, ok := iv.P.(*Expr); ok {
				fr.regs[d] = *fr.m.symIndex(fr, arr, e, is, es, true)
				return
			}
			n := sx(iv.N, is.w)
			if !is.signed {
				n = int64(iv.N)
			}
			if n < 0 || n >= int64(len(arr)) {
				fr.m.rtPanic(fr, fmt.Sprintf("index out of range [%d] with length %d", n, len(arr)))
			}
			fr.regs[d] = arr[n]
		}
	case *ssa.Lookup:
		x, i := k.get(in.X), k.get(in.Index)
		mt, ok := in.X.Type().Underlying().(*types.Map)
		if !ok { // string index
			is := scalarOf(in.Index.Type())
			raw := k.c.raw
			return func(fr *frame) { fr.regs[d] = fr.m.strIndex(fr, x(fr), i(fr), is, raw) }
		}
		kt := mt.Key()
		et := mt.Elem()
		commaOk := in.CommaOk
		return func(fr *frame) {
			mp, _ := x(fr).P.(*Map)
			if fr.m.tr != nil && mp != nil {
				fr.m.tr.accessMap(fr, mp, false)
			}
			var v Value
			found := false
			if mp != nil {
				if ix := fr.m.mapFind(fr, mp, i(fr), kt); ix >= 0 {
					v, found = loadVal(mp.ents[ix].v), true
				}
			} else {
				fr.m.mapFind(fr, nil, i(fr), kt)
			}
			if !found {
				v = zero(et)
			}
			if commaOk {
				v = Value{P: &Agg{E: []Value{v, vBool(found)}}}
			}
			fr.regs[d] = v
		}
	case *ssa.MapUpdate:
		x, i, v := k.get(in.Map), k.get(in.Key), k.get(in.Value)
		kt := in.Map.Type().Underlying().(*types.Map).Key()
		return func(fr *frame) {
			mp, _ := x(fr).P.(*Map)
			if mp == nil {
				panic(&tpanic{v: Value{P: &Iface{rt: fr.m.rtErrT, v: vStr("assignment to entry in nil map")}}, stack: stackOf(fr)})
			}
			if fr.m.tr != nil {
				fr.m.tr.accessMap(fr, mp, true)
			}
			fr.m.mapSet(fr, mp, i(fr), v(fr), kt)
		}
	case *ssa.MakeMap:
		return func(fr *frame) { fr.regs[d] = Value{P: newMap()} }
	case *ssa.MakeSlice:
		l, c := k.get(in.Len), k.get(in.Cap)
		ls, cs := scalarOf(in.Len.Type()), scalarOf(in.Cap.Type())
		et := in.Type().Underlying().(*types.Slice).Elem()
		esz := int(sizes.Sizeof(et))
		return func(fr *frame) {
			n := fr.m.makeLen(fr, l(fr), ls, esz, "len")
			cp := fr.m.makeLen(fr, c(fr), cs, esz, "cap")
			if cp < n {
				fr.m.rtPanic(fr, "makeslice: cap out of range")
			}
			fr.m.allocBytes += cp * max(esz, 1)
			fr.m.checkMem()
			fr.regs[d] = Value{P: fr.m.makeSlice(n, cp, et)}
		}
	case *ssa.MakeChan:
		// a channel nobody sends on or receives from: only its identity matters
		return func(fr *frame) { fr.regs[d] = Value{P: &Value{}} }
	case *ssa.MakeClosure:
		fn := k.P.cfn(in.Fn.(*ssa.Function))
		var bs []getter
		for _, b := range in.Bindings {
			bs = append(bs, k.get(b))
		}
		return func(fr *frame) {
			env := make([]Value, len(bs))
			for i, b := range bs {
				env[i] = b(fr)
			}
			fr.regs[d] = Value{P: &Closure{fn: fn, env: env}}
		}
	case *ssa.MakeInterface:
		x := k.get(in.X)
		rt := k.P.rtype(in.X.Type())
		return func(fr *frame) { fr.regs[d] = Value{P: &Iface{rt: rt, v: x(fr)}} }
	case *ssa.ChangeInterface:
		x := k.get(in.X)
		return func(fr *frame) { fr.regs[d] = x(fr) }
	case *ssa.ChangeType:
		x := k.get(in.X)
		return func(fr *frame) { fr.regs[d] = x(fr) }
	case *ssa.Convert:
		x := k.get(in.X)
		cv := k.convert(in.X.Type(), in.Type())
		return func(fr *frame) { fr.regs[d] = cv(fr, x(fr)) }
	case *ssa.MultiConvert:
		return unsup("multiconvert")
	case *ssa.SliceToArrayPointer:
		x := k.get(in.X)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *frame) {
			s, _ := x(fr).P.(Slice)
			if len(s) < n {
				fr.m.rtPanic(fr, "cannot convert slice to array pointer")
			}
			v := Value{P: &Agg{E: s[:n:n]}}
			fr.regs[d] = Value{P: &v}
		}
	case *ssa.Extract:
		x, i := k.get(in.Tuple), in.Index
		return func(fr *frame) { fr.regs[d] = x(fr).P.(*Agg).E[i] }
	case *ssa.Slice:
		return k.slice(in, d)
	case *ssa.Range:
		x := k.get(in.X)
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			return func(fr *frame) {
				mp, _ := x(fr).P.(*Map)
				if fr.m.tr != nil && mp != nil {
					fr.m.tr.accessMap(fr, mp, false)
				}
				fr.regs[d] = Value{P: fr.m.newMapIter(fr, mp)}
			}
		}
		return func(fr *frame) { fr.regs[d] = Value{P: &strIter{s: fr.m.defrag(x(fr))}} }
	case *ssa.Next:
		x := k.get(in.Iter)
		if in.IsString {
			return func(fr *frame) { fr.regs[d] = fr.m.strNext(fr, x(fr).P.(*strIter)) }
		}
		tt := in.Type().(*types.Tuple)
		return func(fr *frame) { fr.regs[d] = fr.m.mapNext(fr, x(fr).P.(*mapIter), tt) }
	case *ssa.TypeAssert:
		return k.typeAssert(in, d)
	case *ssa.Call:
		return k.direct(&in.Call, d)
	case *ssa.Defer:
		k.c.hasDef = true
		call := k.call(&in.Call, nil)
		return func(fr *frame) { fr.defers = append(fr.defers, deferred{wrapCall(call(fr))}) }
	case *ssa.RunDefers:
		return func(fr *frame) { fr.runDefers() }
	case *ssa.Go:
		call := k.call(&in.Call, nil)
		return func(fr *frame) { fr.m.spawn(fr, wrapCall(call(fr))) }
	case *ssa.Send, *ssa.Select:
		return unsup("channel operation")
	}
	return unsup(fmt.Sprintf("instruction %T", in))
}

func wrapCall(f func() Value) func() { return func() { f() } }

var sizes = types.SizesFor("gc", "amd64")

func (k *fnCompiler) typeAssert(in *ssa.TypeAssert, d int) func(fr *frame) {
	x := k.get(in.X)
	commaOk := in.CommaOk
	at := in.AssertedType
	art := k.P.rtype(at)
	it, isIface := at.Underlying().(*types.Interface)
	return func(fr *frame) {
		v := x(fr)
		iv, _ := v.P.(*Iface)
		ok := false
		if iv != nil {
			if isIface {
				ok = fr.m.implements(iv.rt, it, art)
			} else {
				ok = iv.rt == art
			}
		}
		var r Value
		if ok {
			if isIface {
				r = v
			} else {
				r = iv.v
			}
		} else if !commaOk {
			s := "nil"
			if iv != nil {
				s = iv.rt.t.String()
			}
			fr.m.rtPanic(fr, fmt.Sprintf("interface conversion: interface is %s, not %s", s, at))
		} else {
			r = zero(at)
		}
		if commaOk {
			r = Value{P: &Agg{E: []Value{r, vBool(ok)}}}
		}
		fr.regs[d] = r
	}
}

// direct compiles an ordinary call without building a thunk.
func (k *fnCompiler) direct(c *ssa.CallCommon, d int) func(fr *frame) {
	var args []getter
	for _, a := range c.Args {
		args = append(args, k.get(a))
	}
	n := len(args)
	// arguments live on the register stack for the duration of the call
	with := func(fr *frame, off int, f func(vs []Value) Value) {
		m := fr.m
		ch, sp := m.chunk, m.chunk.sp
		vs := m.newRegs(n + off)
		for i, a := range args {
			vs[off+i] = a(fr)
		}
		r := f(vs)
		clear(vs)
		m.chunk = ch
		ch.sp = sp
		fr.regs[d] = r
	}
	if c.IsInvoke() {
		x := k.get(c.Value)
		meth := c.Method
		return func(fr *frame) {
			iv, _ := x(fr).P.(*Iface)
			with(fr, 1, func(vs []Value) Value {
				if iv == nil {
					fr.m.rtPanic(fr, "invalid memory address or nil pointer dereference")
				}
				vs[0] = iv.v
				return fr.m.call(fr, fr.m.lookupMethod(iv.rt, meth), vs, nil)
			})
		}
	}
	switch cv := c.Value.(type) {
	case *ssa.Builtin:
		b := k.builtin(cv, c)
		return func(fr *frame) { with(fr, 0, func(vs []Value) Value { return b(fr, vs) }) }
	case *ssa.Function:
		fn := k.P.cfn(cv)
		return func(fr *frame) { with(fr, 0, func(vs []Value) Value { return fr.m.call(fr, fn, vs, nil) }) }
	}
	f := k.get(c.Value)
	return func(fr *frame) {
		cl, _ := f(fr).P.(*Closure)
		with(fr, 0, func(vs []Value) Value {
			if cl == nil {
				fr.m.rtPanic(fr, "invalid memory address or nil pointer dereference")
			}
			return fr.m.call(fr, cl.fn, vs, cl.env)
		})
	}
}

// call compiles a call; the returned function evaluates callee and arguments and yields a thunk.
func (k *fnCompiler) call(c *ssa.CallCommon, site *ssa.Call) func(fr *frame) func() Value {
	var args []getter
	for _, a := range c.Args {
		args = append(args, k.get(a))
	}
	evalArgs := func(fr *frame, extra int) []Value {
		vs := make([]Value, len(args)+extra)
		for i, a := range args {
			vs[extra+i] = a(fr)
		}
		return vs
	}
	if c.IsInvoke() {
		x := k.get(c.Value)
		meth := c.Method
		return func(fr *frame) func() Value {
			v := x(fr)
			iv, _ := v.P.(*Iface)
			vs := evalArgs(fr, 1)
			return func() Value {
				if iv == nil {
					fr.m.rtPanic(fr, "invalid memory address or nil pointer dereference")
				}
				vs[0] = iv.v
				return fr.m.call(fr, fr.m.lookupMethod(iv.rt, meth), vs, nil)
			}
		}
	}
	switch cv := c.Value.(type) {
	case *ssa.Builtin:
		b := k.builtin(cv, c)
		return func(fr *frame) func() Value {
			vs := evalArgs(fr, 0)
			return func() Value { return b(fr, vs) }
		}
	case *ssa.Function:
		fn := k.P.cfn(cv)
		return func(fr *frame) func() Value {
			vs := evalArgs(fr, 0)
			return func() Value { return fr.m.call(fr, fn, vs, nil) }
		}
	}
	f := k.get(c.Value)
	return func(fr *frame) func() Value {
		fv := f(fr)
		vs := evalArgs(fr, 0)
		return func() Value {
			cl, _ := fv.P.(*Closure)
			if cl == nil {
				if fv.P != nil {
					panic(unsupported{"call of opaque function value"})
				}
				fr.m.rtPanic(fr, "invalid memory address or nil pointer dereference")
			}
			return fr.m.call(fr, cl.fn, vs, cl.env)
		}
	}
}

func (m *M) callClosure(fr *frame, fv Value, args ...Value) Value {
	cl, _ := fv.P.(*Closure)
	if cl == nil {
		m.rtPanic(fr, "invalid memory address or nil pointer dereference")
	}
	return m.call(fr, cl.fn, args, cl.env)
}
