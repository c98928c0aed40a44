package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"
)

// rval is the content of an interpreted reflect.Value.
type rval struct {
	t  *RType
	v  Value
	p  *Value // address, when addressable
	ro bool
}

func (r *rval) get() Value {
	if r.p != nil {
		return loadVal(*r.p)
	}
	return r.v
}

func (r *rval) val() Value { return Value{P: &Agg{E: []Value{{P: r}, {}, {N: 1}}}} }

var rvZero = func() Value { return Value{P: &Agg{E: []Value{{}, {}, {}}}} }

func rvOf(v Value) *rval {
	a, ok := v.P.(*Agg)
	if !ok {
		return nil
	}
	r, _ := a.E[0].P.(*rval)
	return r
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String, types.UntypedString:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	case *types.Pointer:
		return reflect.Pointer
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func typeString(t types.Type) string {
	t = types.Unalias(t)
	switch u := t.(type) {
	case *types.Named:
		s := u.Obj().Name()
		if u.Obj().Pkg() != nil {
			s = u.Obj().Pkg().Name() + "." + s
		}
		if u.TypeArgs() != nil && u.TypeArgs().Len() > 0 {
			var a []string
			for i := 0; i < u.TypeArgs().Len(); i++ {
				a = append(a, typeString(u.TypeArgs().At(i)))
			}
			s += "[" + strings.Join(a, ",") + "]"
		}
		return s
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return "unsafe.Pointer"
		}
		return u.Name()
	case *types.Pointer:
		return "*" + typeString(u.Elem())
	case *types.Slice:
		return "[]" + typeString(u.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", u.Len(), typeString(u.Elem()))
	case *types.Map:
		return "map[" + typeString(u.Key()) + "]" + typeString(u.Elem())
	case *types.Interface:
		if u.NumMethods() == 0 {
			return "interface {}"
		}
	case *types.Chan:
		switch u.Dir() {
		case types.SendOnly:
			return "chan<- " + typeString(u.Elem())
		case types.RecvOnly:
			return "<-chan " + typeString(u.Elem())
		}
		return "chan " + typeString(u.Elem())
	case *types.Signature:
		var ps []string
		for i := 0; i < u.Params().Len(); i++ {
			s := typeString(u.Params().At(i).Type())
			if u.Variadic() && i == u.Params().Len()-1 {
				s = "..." + s[2:]
			}
			ps = append(ps, s)
		}
		s := "func(" + strings.Join(ps, ", ") + ")"
		switch u.Results().Len() {
		case 0:
		case 1:
			s += " " + typeString(u.Results().At(0).Type())
		default:
			var rs []string
			for i := 0; i < u.Results().Len(); i++ {
				rs = append(rs, typeString(u.Results().At(i).Type()))
			}
			s += " (" + strings.Join(rs, ", ") + ")"
		}
		return s
	case *types.Struct:
		if u.NumFields() == 0 {
			return "struct {}"
		}
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			s := u.Field(i).Name() + " " + typeString(u.Field(i).Type())
			if u.Field(i).Embedded() {
				s = typeString(u.Field(i).Type())
			}
			if u.Tag(i) != "" {
				s += " " + strconv.Quote(u.Tag(i))
			}
			fs = append(fs, s)
		}
		return "struct { " + strings.Join(fs, "; ") + " }"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (m *M) typeVal(rt *RType, lite bool) Value {
	if rt == nil {
		return Value{}
	}
	if lite {
		return Value{P: &Iface{rt: m.P.liteT, v: Value{P: rt}}}
	}
	return Value{P: &Iface{rt: m.P.reflT, v: Value{P: rt}}}
}

func typeOfVal(v Value) *RType {
	switch p := v.P.(type) {
	case *RType:
		return p
	case *Iface:
		return typeOfVal(p.v)
	}
	return nil
}

func (m *M) reflPanic(fr *frame, msg string) {
	panic(&tpanic{v: Value{P: &Iface{rt: m.P.rtype(types.Typ[types.String]), v: vStr("reflect: " + msg)}}, stack: stackOf(fr)})
}

func init() {
	for _, pk := range []string{"reflect", "internal/reflectlite"} {
		lite := pk != "reflect"
		T := "(*" + pk + ".rtype)."
		if lite {
			T = "(" + pk + ".rtype)."
		}
		V := "(" + pk + ".Value)."
		reg(pk+".TypeOf", func(m *M, fr *frame, a []Value) (Value, bool) {
			iv, _ := a[0].P.(*Iface)
			if iv == nil {
				return Value{}, true
			}
			return m.typeVal(iv.rt, lite), true
		})
		reg(pk+".ValueOf", func(m *M, fr *frame, a []Value) (Value, bool) {
			iv, _ := a[0].P.(*Iface)
			if iv == nil {
				return rvZero(), true
			}
			return (&rval{t: iv.rt, v: iv.v}).val(), true
		})
		tm := func(names string, f func(m *M, fr *frame, t *RType, a []Value) Value) {
			for _, n := range strings.Fields(names) {
				natives[T+n] = func(m *M, fr *frame, a []Value) (Value, bool) {
					t := typeOfVal(a[0])
					if t == nil {
						m.rtPanic(fr, "invalid memory address or nil pointer dereference")
					}
					return f(m, fr, t, a[1:]), true
				}
			}
		}
		tm("Kind", func(m *M, fr *frame, t *RType, a []Value) Value { return vInt(int64(kindOf(t.t))) })
		tm("String", func(m *M, fr *frame, t *RType, a []Value) Value { return vStr(typeString(t.t)) })
		tm("Name", func(m *M, fr *frame, t *RType, a []Value) Value {
			switch n := types.Unalias(t.t).(type) {
			case *types.Named:
				return vStr(n.Obj().Name())
			case *types.Basic:
				return vStr(n.Name())
			}
			return vStr("")
		})
		tm("PkgPath", func(m *M, fr *frame, t *RType, a []Value) Value {
			if n, ok := types.Unalias(t.t).(*types.Named); ok && n.Obj().Pkg() != nil {
				return vStr(n.Obj().Pkg().Path())
			}
			return vStr("")
		})
		tm("Comparable", func(m *M, fr *frame, t *RType, a []Value) Value { return vBool(types.Comparable(t.t)) })
		tm("Elem", func(m *M, fr *frame, t *RType, a []Value) Value {
			switch u := t.t.Underlying().(type) {
			case *types.Pointer:
				return m.typeVal(m.P.rtype(u.Elem()), lite)
			case *types.Slice:
				return m.typeVal(m.P.rtype(u.Elem()), lite)
			case *types.Array:
				return m.typeVal(m.P.rtype(u.Elem()), lite)
			case *types.Map:
				return m.typeVal(m.P.rtype(u.Elem()), lite)
			case *types.Chan:
				return m.typeVal(m.P.rtype(u.Elem()), lite)
			}
			m.reflPanic(fr, "Elem of invalid type "+typeString(t.t))
			return Value{}
		})
		tm("Key", func(m *M, fr *frame, t *RType, a []Value) Value {
			if u, ok := t.t.Underlying().(*types.Map); ok {
				return m.typeVal(m.P.rtype(u.Key()), lite)
			}
			m.reflPanic(fr, "Key of non-map type")
			return Value{}
		})
		tm("Len", func(m *M, fr *frame, t *RType, a []Value) Value {
			if u, ok := t.t.Underlying().(*types.Array); ok {
				return vInt(u.Len())
			}
			m.reflPanic(fr, "Len of non-array type")
			return Value{}
		})
		tm("NumField", func(m *M, fr *frame, t *RType, a []Value) Value {
			if u, ok := t.t.Underlying().(*types.Struct); ok {
				return vInt(int64(u.NumFields()))
			}
			m.reflPanic(fr, "NumField of non-struct type "+typeString(t.t))
			return Value{}
		})
		tm("NumMethod", func(m *M, fr *frame, t *RType, a []Value) Value {
			if u, ok := t.t.Underlying().(*types.Interface); ok {
				return vInt(int64(u.NumMethods()))
			}
			m.P.typesMu.Lock()
			defer m.P.typesMu.Unlock()
			ms := m.P.L.prog.MethodSets.MethodSet(t.t)
			n := 0
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Exported() {
					n++
				}
			}
			return vInt(int64(n))
		})
		tm("Implements", func(m *M, fr *frame, t *RType, a []Value) Value {
			o := typeOfVal(a[0])
			it, ok := o.t.Underlying().(*types.Interface)
			if !ok {
				m.reflPanic(fr, "non-interface type passed to Type.Implements")
			}
			return vBool(m.implements(t, it, o))
		})
		tm("AssignableTo", func(m *M, fr *frame, t *RType, a []Value) Value {
			return vBool(types.AssignableTo(t.t, typeOfVal(a[0]).t))
		})
		tm("ConvertibleTo", func(m *M, fr *frame, t *RType, a []Value) Value {
			return vBool(types.ConvertibleTo(t.t, typeOfVal(a[0]).t))
		})
		tm("Size", func(m *M, fr *frame, t *RType, a []Value) Value { return vInt(sizes.Sizeof(t.t)) })
		tm("Bits", func(m *M, fr *frame, t *RType, a []Value) Value { return vInt(8 * sizes.Sizeof(t.t)) })
		tm("Field", func(m *M, fr *frame, t *RType, a []Value) Value {
			st, ok := t.t.Underlying().(*types.Struct)
			i := int(a[0].N)
			if !ok || i < 0 || i >= st.NumFields() {
				m.reflPanic(fr, "Field index out of bounds")
			}
			return m.structField(st, i)
		})
		tm("FieldByName", func(m *M, fr *frame, t *RType, a []Value) Value {
			st, ok := t.t.Underlying().(*types.Struct)
			if !ok {
				m.reflPanic(fr, "FieldByName of non-struct type")
			}
			for i := 0; i < st.NumFields(); i++ {
				if m.branch(m.strEq(a[0], vStr(st.Field(i).Name()))) {
					return tuple(m.structField(st, i), vBool(true))
				}
			}
			return tuple(zero(m.P.L.pkgs["reflect"].Pkg.Scope().Lookup("StructField").Type()), vBool(false))
		})

		vm := func(names string, f func(m *M, fr *frame, r *rval, a []Value) Value) {
			for _, n := range strings.Fields(names) {
				natives[V+n] = func(m *M, fr *frame, a []Value) (Value, bool) {
					r := rvOf(a[0])
					if r == nil {
						m.reflPanic(fr, "call of reflect.Value."+n+" on zero Value")
					}
					return f(m, fr, r, a[1:]), true
				}
			}
		}
		natives[V+"Kind"] = func(m *M, fr *frame, a []Value) (Value, bool) {
			r := rvOf(a[0])
			if r == nil {
				return vInt(0), true
			}
			return vInt(int64(kindOf(r.t.t))), true
		}
		natives[V+"IsValid"] = func(m *M, fr *frame, a []Value) (Value, bool) { return vBool(rvOf(a[0]) != nil), true }
		vm("Type", func(m *M, fr *frame, r *rval, a []Value) Value { return m.typeVal(r.t, lite) })
		vm("CanInterface", func(m *M, fr *frame, r *rval, a []Value) Value { return vBool(!r.ro) })
		vm("CanSet", func(m *M, fr *frame, r *rval, a []Value) Value { return vBool(r.p != nil && !r.ro) })
		vm("CanAddr", func(m *M, fr *frame, r *rval, a []Value) Value { return vBool(r.p != nil) })
		vm("Addr", func(m *M, fr *frame, r *rval, a []Value) Value {
			if r.p == nil {
				m.reflPanic(fr, "reflect.Value.Addr of unaddressable value")
			}
			return (&rval{t: m.P.rtype(types.NewPointer(r.t.t)), v: Value{P: r.p}}).val()
		})
		vm("Interface", func(m *M, fr *frame, r *rval, a []Value) Value {
			if r.ro {
				m.reflPanic(fr, "reflect.Value.Interface: cannot return value obtained from unexported field or method")
			}
			if kindOf(r.t.t) == reflect.Interface {
				return r.get()
			}
			return Value{P: &Iface{rt: r.t, v: r.get()}}
		})
		vm("Elem", func(m *M, fr *frame, r *rval, a []Value) Value {
			switch kindOf(r.t.t) {
			case reflect.Interface:
				iv, _ := r.get().P.(*Iface)
				if iv == nil {
					return rvZero()
				}
				return (&rval{t: iv.rt, v: iv.v, ro: r.ro}).val()
			case reflect.Pointer:
				p, _ := r.get().P.(*Value)
				if p == nil {
					return rvZero()
				}
				return (&rval{t: m.P.rtype(r.t.t.Underlying().(*types.Pointer).Elem()), p: p, ro: r.ro}).val()
			}
			m.reflPanic(fr, "call of reflect.Value.Elem on "+kindOf(r.t.t).String()+" Value")
			return Value{}
		})
		vm("IsNil", func(m *M, fr *frame, r *rval, a []Value) Value {
			switch kindOf(r.t.t) {
			case reflect.Pointer, reflect.Map, reflect.Slice, reflect.Interface, reflect.Func, reflect.Chan, reflect.UnsafePointer:
				return vBool(r.get().P == nil)
			}
			m.reflPanic(fr, "call of reflect.Value.IsNil on "+kindOf(r.t.t).String()+" Value")
			return Value{}
		})
		vm("IsZero", func(m *M, fr *frame, r *rval, a []Value) Value {
			if types.Comparable(r.t.t) {
				return vExpr(m.valEq(fr, r.t.t, r.get(), zero(r.t.t), false))
			}
			return vBool(r.get().P == nil)
		})
		vm("Len", func(m *M, fr *frame, r *rval, a []Value) Value {
			switch p := r.get().P.(type) {
			case nil:
				switch kindOf(r.t.t) {
				case reflect.Slice, reflect.Map, reflect.String, reflect.Chan:
					return vInt(0)
				}
			case Slice:
				return vInt(int64(len(p)))
			case *Map:
				return vInt(int64(p.live))
			case *Agg:
				if kindOf(r.t.t) == reflect.Array {
					return vInt(int64(len(p.E)))
				}
			case string, *SymStr:
				return vInt(int64(strLen(m.defrag(Value{P: p}))))
			}
			m.reflPanic(fr, "call of reflect.Value.Len on "+kindOf(r.t.t).String()+" Value")
			return Value{}
		})
		vm("Index", func(m *M, fr *frame, r *rval, a []Value) Value {
			i := m.intArg(fr, a[0], i64s)
			switch u := r.t.t.Underlying().(type) {
			case *types.Slice:
				s := m.sliceOf(r.get())
				if i < 0 || i >= int64(len(s)) {
					m.reflPanic(fr, "slice index out of range")
				}
				return (&rval{t: m.P.rtype(u.Elem()), p: &s[i], ro: r.ro}).val()
			case *types.Array:
				if i < 0 || i >= u.Len() {
					m.reflPanic(fr, "array index out of range")
				}
				if r.p != nil {
					return (&rval{t: m.P.rtype(u.Elem()), p: &r.p.P.(*Agg).E[i], ro: r.ro}).val()
				}
				return (&rval{t: m.P.rtype(u.Elem()), v: r.v.P.(*Agg).E[i], ro: r.ro}).val()
			}
			if kindOf(r.t.t) == reflect.String {
				return (&rval{t: m.P.rtype(types.Typ[types.Uint8]), v: m.strIndex(fr, r.get(), vInt(i), i64s, false)}).val()
			}
			m.reflPanic(fr, "call of reflect.Value.Index on "+kindOf(r.t.t).String()+" Value")
			return Value{}
		})
		vm("NumField", func(m *M, fr *frame, r *rval, a []Value) Value {
			if u, ok := r.t.t.Underlying().(*types.Struct); ok {
				return vInt(int64(u.NumFields()))
			}
			m.reflPanic(fr, "call of reflect.Value.NumField on "+kindOf(r.t.t).String()+" Value")
			return Value{}
		})
		field := func(m *M, r *rval, st *types.Struct, i int) Value {
			f := &rval{t: m.P.rtype(st.Field(i).Type()), ro: r.ro || !st.Field(i).Exported()}
			if r.p != nil {
				f.p = &r.p.P.(*Agg).E[i]
			} else {
				f.v = r.v.P.(*Agg).E[i]
			}
			return f.val()
		}
		vm("Field", func(m *M, fr *frame, r *rval, a []Value) Value {
			st, ok := r.t.t.Underlying().(*types.Struct)
			i := int(m.intArg(fr, a[0], i64s))
			if !ok || i < 0 || i >= st.NumFields() {
				m.reflPanic(fr, "Field index out of range")
			}
			return field(m, r, st, i)
		})
		vm("FieldByName", func(m *M, fr *frame, r *rval, a []Value) Value {
			st, ok := r.t.t.Underlying().(*types.Struct)
			if !ok {
				m.reflPanic(fr, "call of reflect.Value.FieldByName on non-struct Value")
			}
			for i := 0; i < st.NumFields(); i++ {
				if m.branch(m.strEq(a[0], vStr(st.Field(i).Name()))) {
					return field(m, r, st, i)
				}
			}
			return rvZero()
		})
		vm("Int", func(m *M, fr *frame, r *rval, a []Value) Value {
			s := scalarOf(r.t.t)
			if s.kind != 'i' || !s.signed {
				m.reflPanic(fr, "call of reflect.Value.Int on "+kindOf(r.t.t).String()+" Value")
			}
			return vExpr(m.x.Conv(m.expr(r.get(), s), 64, true))
		})
		vm("Uint", func(m *M, fr *frame, r *rval, a []Value) Value {
			s := scalarOf(r.t.t)
			if s.kind != 'i' || s.signed {
				m.reflPanic(fr, "call of reflect.Value.Uint on "+kindOf(r.t.t).String()+" Value")
			}
			return vExpr(m.x.Conv(m.expr(r.get(), s), 64, false))
		})
		vm("Float", func(m *M, fr *frame, r *rval, a []Value) Value {
			s := scalarOf(r.t.t)
			if s.kind != 'f' {
				m.reflPanic(fr, "call of reflect.Value.Float on "+kindOf(r.t.t).String()+" Value")
			}
			return vExpr(m.x.FUn(OF2F, m.expr(r.get(), s), 64))
		})
		vm("Bool", func(m *M, fr *frame, r *rval, a []Value) Value {
			if scalarOf(r.t.t).kind != 'b' {
				m.reflPanic(fr, "call of reflect.Value.Bool on "+kindOf(r.t.t).String()+" Value")
			}
			return r.get()
		})
		natives[V+"String"] = func(m *M, fr *frame, a []Value) (Value, bool) {
			r := rvOf(a[0])
			if r == nil {
				return vStr("<invalid Value>"), true
			}
			if scalarOf(r.t.t).kind == 's' {
				return r.get(), true
			}
			return vStr("<" + typeString(r.t.t) + " Value>"), true
		}
		vm("CanInt", func(m *M, fr *frame, r *rval, a []Value) Value {
			s := scalarOf(r.t.t)
			return vBool(s.kind == 'i' && s.signed)
		})
		vm("CanUint", func(m *M, fr *frame, r *rval, a []Value) Value {
			s := scalarOf(r.t.t)
			return vBool(s.kind == 'i' && !s.signed)
		})
		vm("CanFloat", func(m *M, fr *frame, r *rval, a []Value) Value { return vBool(scalarOf(r.t.t).kind == 'f') })
		vm("MapKeys", func(m *M, fr *frame, r *rval, a []Value) Value {
			u, ok := r.t.t.Underlying().(*types.Map)
			if !ok {
				m.reflPanic(fr, "call of reflect.Value.MapKeys on "+kindOf(r.t.t).String()+" Value")
			}
			mp, _ := r.get().P.(*Map)
			it := m.newMapIter(fr, mp)
			out := Slice{}
			for {
				n := m.mapNext(fr, it, nil).P.(*Agg)
				if n.E[0].N == 0 {
					break
				}
				out = append(out, (&rval{t: m.P.rtype(u.Key()), v: n.E[1], ro: r.ro}).val())
			}
			return Value{P: out}
		})
		vm("MapIndex", func(m *M, fr *frame, r *rval, a []Value) Value {
			u, ok := r.t.t.Underlying().(*types.Map)
			if !ok {
				m.reflPanic(fr, "call of reflect.Value.MapIndex on "+kindOf(r.t.t).String()+" Value")
			}
			mp, _ := r.get().P.(*Map)
			k := rvOf(a[0])
			if mp == nil {
				return rvZero()
			}
			if i := m.mapFind(fr, mp, k.get(), u.Key()); i >= 0 {
				return (&rval{t: m.P.rtype(u.Elem()), v: loadVal(mp.ents[i].v), ro: r.ro}).val()
			}
			return rvZero()
		})
		vm("MapRange", func(m *M, fr *frame, r *rval, a []Value) Value {
			mp, _ := r.get().P.(*Map)
			v := Value{P: &reflIter{it: m.newMapIter(fr, mp), t: r.t.t.Underlying().(*types.Map)}}
			return Value{P: &v}
		})
		vm("Pointer UnsafePointer", func(m *M, fr *frame, r *rval, a []Value) Value {
			if r.get().P == nil {
				return Value{}
			}
			panic(unsupported{"reflect.Value.Pointer"})
		})
		vm("Set", func(m *M, fr *frame, r *rval, a []Value) Value {
			if r.p == nil || r.ro {
				m.reflPanic(fr, "reflect.Value.Set using unaddressable value")
			}
			src := rvOf(a[0])
			v := src.get()
			if kindOf(r.t.t) == reflect.Interface && kindOf(src.t.t) != reflect.Interface {
				v = Value{P: &Iface{rt: src.t, v: v}}
			}
			m.store(r.p, v)
			return Value{}
		})
		vm("SetInt SetUint SetFloat SetString SetBool", func(m *M, fr *frame, r *rval, a []Value) Value {
			if r.p == nil || r.ro {
				m.reflPanic(fr, "reflect.Value.SetX using unaddressable value")
			}
			s := scalarOf(r.t.t)
			v := a[0]
			if s.kind == 'i' {
				v = vExpr(m.x.Conv(m.expr(v, i64s), s.w, s.signed))
			}
			m.set(r.p, v)
			return Value{}
		})
		vm("Convert", func(m *M, fr *frame, r *rval, a []Value) Value {
			t := typeOfVal(a[0])
			if kindOf(t.t) == reflect.Interface {
				return (&rval{t: t, v: Value{P: &Iface{rt: r.t, v: r.get()}}}).val()
			}
			k := &fnCompiler{P: m.P, c: &cfunc{name: "reflect.Convert"}}
			if !types.ConvertibleTo(r.t.t, t.t) {
				m.reflPanic(fr, "value of type "+typeString(r.t.t)+" cannot be converted to type "+typeString(t.t))
			}
			return (&rval{t: t, v: k.convert(r.t.t, t.t)(fr, r.get())}).val()
		})
		vm("NumMethod", func(m *M, fr *frame, r *rval, a []Value) Value {
			return natives0(m, fr, T+"NumMethod", m.typeVal(r.t, lite))
		})
		reg(pk+".Swapper", func(m *M, fr *frame, a []Value) (Value, bool) {
			iv, _ := a[0].P.(*Iface)
			if iv == nil {
				m.reflPanic(fr, "Swapper of nil")
			}
			s := m.sliceOf(iv.v)
			return nativeClosure("swapper", func(m *M, fr *frame, a []Value) (Value, bool) {
				i, j := m.intArg(fr, a[0], i64s), m.intArg(fr, a[1], i64s)
				x, y := loadVal(s[i]), loadVal(s[j])
				m.store(&s[i], y)
				m.store(&s[j], x)
				return Value{}, true
			}), true
		})
	}
	reg("(reflect.Kind).String", func(m *M, fr *frame, a []Value) (Value, bool) { return vStr(reflect.Kind(a[0].N).String()), true })
	reg("(*reflect.MapIter).Next", func(m *M, fr *frame, a []Value) (Value, bool) {
		it := a[0].P.(*Value).P.(*reflIter)
		it.cur = m.mapNext(fr, it.it, nil).P.(*Agg)
		return it.cur.E[0], true
	})
	reg("(*reflect.MapIter).Key", func(m *M, fr *frame, a []Value) (Value, bool) {
		it := a[0].P.(*Value).P.(*reflIter)
		return (&rval{t: m.P.rtype(it.t.Key()), v: it.cur.E[1]}).val(), true
	})
	reg("(*reflect.MapIter).Value", func(m *M, fr *frame, a []Value) (Value, bool) {
		it := a[0].P.(*Value).P.(*reflIter)
		return (&rval{t: m.P.rtype(it.t.Elem()), v: it.cur.E[2]}).val(), true
	})
	reg("reflect.Indirect", func(m *M, fr *frame, a []Value) (Value, bool) {
		r := rvOf(a[0])
		if r == nil || kindOf(r.t.t) != reflect.Pointer {
			return a[0], true
		}
		v, _ := natives["(reflect.Value).Elem"](m, fr, a)
		return v, true
	})
	reg("reflect.Zero", func(m *M, fr *frame, a []Value) (Value, bool) {
		t := typeOfVal(a[0])
		return (&rval{t: t, v: zero(t.t)}).val(), true
	})
	reg("reflect.New", func(m *M, fr *frame, a []Value) (Value, bool) {
		t := typeOfVal(a[0])
		v := zero(t.t)
		return (&rval{t: m.P.rtype(types.NewPointer(t.t)), v: Value{P: &v}}).val(), true
	})
	reg("reflect.MakeSlice", func(m *M, fr *frame, a []Value) (Value, bool) {
		t := typeOfVal(a[0])
		n, c := m.intArg(fr, a[1], i64s), m.intArg(fr, a[2], i64s)
		return (&rval{t: t, v: Value{P: m.makeSlice(int(n), int(c), t.t.Underlying().(*types.Slice).Elem())}}).val(), true
	})
	reg("(reflect.StructTag).Get", func(m *M, fr *frame, a []Value) (Value, bool) {
		t, ok1 := conc(a[0])
		k, ok2 := conc(a[1])
		if !ok1 || !ok2 {
			panic(unsupported{"symbolic struct tag"})
		}
		return vStr(reflect.StructTag(t).Get(k)), true
	})
	reg("(reflect.StructTag).Lookup", func(m *M, fr *frame, a []Value) (Value, bool) {
		t, _ := conc(a[0])
		k, _ := conc(a[1])
		s, ok := reflect.StructTag(t).Lookup(k)
		return tuple(vStr(s), vBool(ok)), true
	})
	reg("(reflect.StructField).IsExported", func(m *M, fr *frame, a []Value) (Value, bool) {
		pp, _ := conc(a[0].P.(*Agg).E[1])
		return vBool(pp == ""), true
	})
	reg("reflect.DeepEqual", func(m *M, fr *frame, a []Value) (Value, bool) {
		ia, _ := a[0].P.(*Iface)
		ib, _ := a[1].P.(*Iface)
		if ia == nil || ib == nil {
			return vBool(ia == ib), true
		}
		if ia.rt != ib.rt {
			return vBool(false), true
		}
		return vBool(m.deepEq(fr, ia.rt.t, ia.v, ib.v, 0)), true
	})
}

func natives0(m *M, fr *frame, n string, a ...Value) Value {
	v, _ := natives[n](m, fr, a)
	return v
}

type reflIter struct {
	it  *mapIter
	t   *types.Map
	cur *Agg
}

func nativeClosure(name string, f nativeFn) Value {
	c := &cfunc{name: name, native: f}
	c.once.Do(func() {})
	return Value{P: &Closure{fn: c}}
}

func (m *M) structField(st *types.Struct, i int) Value {
	sf := zero(m.P.L.pkgs["reflect"].Pkg.Scope().Lookup("StructField").Type()).P.(*Agg)
	f := st.Field(i)
	sf.E[0] = vStr(f.Name())
	if !f.Exported() && f.Pkg() != nil {
		sf.E[1] = vStr(f.Pkg().Path())
	}
	sf.E[2] = m.typeVal(m.P.rtype(f.Type()), false)
	sf.E[3] = vStr(st.Tag(i))
	sf.E[5] = Value{P: Slice{vInt(int64(i))}}
	sf.E[6] = vBool(f.Embedded())
	return Value{P: sf}
}

func (m *M) deepEq(fr *frame, t types.Type, a, b Value, depth int) bool {
	if depth > 200 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if samePtr(a, b) {
			return true
		}
		pa, _ := a.P.(*Value)
		pb, _ := b.P.(*Value)
		if pa == nil || pb == nil {
			return pa == pb
		}
		return m.deepEq(fr, u.Elem(), *pa, *pb, depth+1)
	case *types.Struct:
		aa, ab := a.P.(*Agg), b.P.(*Agg)
		for i := 0; i < u.NumFields(); i++ {
			if !m.deepEq(fr, u.Field(i).Type(), aa.E[i], ab.E[i], depth+1) {
				return false
			}
		}
		return true
	case *types.Array:
		aa, ab := a.P.(*Agg), b.P.(*Agg)
		for i := range aa.E {
			if !m.deepEq(fr, u.Elem(), aa.E[i], ab.E[i], depth+1) {
				return false
			}
		}
		return true
	case *types.Slice:
		if (a.P == nil) != (b.P == nil) {
			return false
		}
		sa, sb := m.sliceOf(a), m.sliceOf(b)
		if len(sa) != len(sb) {
			return false
		}
		if len(sa) > 0 && &sa[0] == &sb[0] {
			return true
		}
		for i := range sa {
			if !m.deepEq(fr, u.Elem(), sa[i], sb[i], depth+1) {
				return false
			}
		}
		return true
	case *types.Map:
		if (a.P == nil) != (b.P == nil) {
			return false
		}
		ma, _ := a.P.(*Map)
		mb, _ := b.P.(*Map)
		if ma == mb {
			return true
		}
		if ma.live != mb.live {
			return false
		}
		for _, e := range ma.ents {
			if e.dead {
				continue
			}
			i := m.mapFind(fr, mb, e.k, u.Key())
			if i < 0 || !m.deepEq(fr, u.Elem(), e.v, mb.ents[i].v, depth+1) {
				return false
			}
		}
		return true
	case *types.Interface:
		ia, _ := a.P.(*Iface)
		ib, _ := b.P.(*Iface)
		if ia == nil || ib == nil {
			return ia == ib
		}
		return ia.rt == ib.rt && m.deepEq(fr, ia.rt.t, ia.v, ib.v, depth+1)
	case *types.Signature:
		return a.P == nil && b.P == nil
	}
	return m.branch(m.valEq(fr, t, a, b, false))
}
