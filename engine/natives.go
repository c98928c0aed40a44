package main

import (
	"fmt"
	"go/types"
	"html"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

type nativeFn func(m *M, fr *frame, a []Value) (Value, bool)

var natives = map[string]nativeFn{}

func tuple(v ...Value) Value { return Value{P: &Agg{E: v}} }

func reg(names string, f nativeFn) {
	for _, n := range strings.Fields(names) {
		natives[n] = f
	}
}

var tInt = types.Typ[types.Int]
var i64s = scalar{'i', 64, true}
var u64s = scalar{'i', 64, false}
var u8s = scalar{'i', 8, false}
var f64s = scalar{'f', 64, true}

func nop(m *M, fr *frame, a []Value) (Value, bool) { return Value{}, true }

// host fast paths: every argument concrete -> run the real function on the host
func hostS_S(f func(string) string) nativeFn {
	return func(m *M, fr *frame, a []Value) (Value, bool) {
		if s, ok := conc(a[0]); ok {
			return vStr(f(s)), true
		}
		return Value{}, false
	}
}
func hostSS_B(f func(a, b string) bool) nativeFn {
	return func(m *M, fr *frame, a []Value) (Value, bool) {
		if s, ok := conc(a[0]); ok {
			if t, ok := conc(a[1]); ok {
				return vBool(f(s, t)), true
			}
		}
		return Value{}, false
	}
}
func hostSS_I(f func(a, b string) int) nativeFn {
	return func(m *M, fr *frame, a []Value) (Value, bool) {
		if s, ok := conc(a[0]); ok {
			if t, ok := conc(a[1]); ok {
				return vInt(int64(f(s, t))), true
			}
		}
		return Value{}, false
	}
}
func hostSS_S(f func(a, b string) string) nativeFn {
	return func(m *M, fr *frame, a []Value) (Value, bool) {
		if s, ok := conc(a[0]); ok {
			if t, ok := conc(a[1]); ok {
				return vStr(f(s, t)), true
			}
		}
		return Value{}, false
	}
}
func hostR_B(f func(r rune) bool) nativeFn {
	return func(m *M, fr *frame, a []Value) (Value, bool) {
		if a[0].P == nil {
			return vBool(f(rune(int32(a[0].N)))), true
		}
		e := a[0].P.(*Expr)
		// a byte-wide character: one table over all its values
		if c := byteCore(e); c != nil {
			t := make([]uint64, 256)
			for i := range t {
				t[i] = b2u(f(rune(i)))
			}
			return vExpr(m.x.Eq(m.x.Lookup(c, t, 1), m.x.Const(1, 1))), true
		}
		return Value{}, false
	}
}
func hostR_R(f func(r rune) rune) nativeFn {
	return func(m *M, fr *frame, a []Value) (Value, bool) {
		if a[0].P == nil {
			return Value{N: uint64(uint32(f(rune(int32(a[0].N)))))}, true
		}
		e := a[0].P.(*Expr)
		if c := byteCore(e); c != nil {
			t := make([]uint64, 256)
			for i := range t {
				t[i] = uint64(uint32(f(rune(i))))
			}
			return vExpr(m.x.Lookup(c, t, 32)), true
		}
		return Value{}, false
	}
}

func f1(op Op, param uint64, host func(float64) float64) nativeFn {
	return func(m *M, fr *frame, a []Value) (Value, bool) {
		if e, ok := a[0].P.(*Expr); ok {
			return vExpr(m.x.FUn(op, e, param)), true
		}
		return Value{N: math.Float64bits(host(f64(a[0])))}, true
	}
}

// asciiMap maps an all-ASCII symbolic string through a byte table after one range check per byte.
func asciiMap(f func(byte) byte) nativeFn {
	return func(m *M, fr *frame, a []Value) (Value, bool) {
		if hasFrag(a[0]) {
			a[0] = m.defrag(a[0])
		}
		s, ok := a[0].P.(*SymStr)
		if !ok {
			return Value{}, false
		}
		all := m.x.True
		for _, e := range s.e {
			all = m.x.And(all, m.x.cmp(OUlt, e, m.x.bytes[0x80]))
		}
		if !m.branch(all) {
			return Value{}, false
		}
		t := make([]uint64, 256)
		for i := range t {
			t[i] = uint64(f(byte(i)))
		}
		r := make([]*Expr, len(s.e))
		for i, e := range s.e {
			if e.op == OTable || e.op == OVar || e.op == OConst {
				r[i] = m.x.Lookup(e, t, 8)
			} else {
				r[i] = m.x.Lookup(e, t, 8)
			}
		}
		return mkStr(r), true
	}
}

func orElse(fs ...nativeFn) nativeFn {
	return func(m *M, fr *frame, a []Value) (Value, bool) {
		for _, f := range fs {
			if v, ok := f(m, fr, a); ok {
				return v, true
			}
		}
		return Value{}, false
	}
}

// fragSplit applies a per-byte homomorphism (identity on numeric text) around opaque atoms.
func fragSplit(name string) nativeFn {
	return func(m *M, fr *frame, a []Value) (Value, bool) {
		if !hasFrag(a[0]) {
			return Value{}, false
		}
		i := strings.LastIndexByte(name, '.')
		f := m.P.stdFunc(name[:i], name[i+1:])
		var out []*Expr
		es := a[0].P.(*SymStr).e
		for i := 0; i < len(es); {
			if es[i].sort == 'x' {
				out = append(out, es[i])
				i++
				continue
			}
			j := i
			for j < len(es) && es[j].sort != 'x' {
				j++
			}
			out = append(out, m.elems(m.call(fr, f, []Value{mkStr(es[i:j:j])}, nil))...)
			i = j
		}
		return Value{P: &SymStr{e: out}}, true
	}
}

func (m *M) sliceOf(v Value) Slice { s, _ := v.P.(Slice); return s }

func (m *M) sideGet(p any, k string) any { q, _ := p.(*Value); return m.side[sideKey{q, k}] }
func (m *M) sideSet(p any, k string, v any) {
	q, _ := p.(*Value)
	key := sideKey{q, k}
	old, had := m.side[key]
	m.side[key] = v
	m.onUndo(func() {
		if had {
			m.side[key] = old
		} else {
			delete(m.side, key)
		}
	}, func() { m.side[key] = v })
}

func byteFind(m *M, s []*Expr, c *Expr, last bool) int {
	n := len(s)
	for k := 0; k < n; k++ {
		i := k
		if last {
			i = n - 1 - k
		}
		if m.branch(m.x.Eq(s[i], c)) {
			return i
		}
	}
	return -1
}

func subFind(m *M, s, sub []*Expr) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		c := m.x.True
		for j := range sub {
			c = m.x.And(c, m.x.Eq(s[i+j], sub[j]))
			if c == m.x.False {
				break
			}
		}
		if m.branch(c) {
			return i
		}
	}
	return -1
}

func (m *M) exprsOf(v Value, str bool) []*Expr {
	if str {
		return m.elems(m.defrag(v))
	}
	return m.elems(m.defrag(m.strOfBytes(m.sliceOf(v))))
}

func init() {
	// ---- runtime & friends
	reg(`runtime.GC runtime.KeepAlive runtime.Gosched runtime.SetFinalizer runtime/debug.SetGCPercent runtime/debug.FreeOSMemory
sync.runtime_registerPoolCleanup sync.runtime_notifyListCheck sync.runtime_Semrelease sync.runtime_Semacquire
internal/race.Acquire internal/race.Release internal/race.ReleaseMerge internal/race.Disable internal/race.Enable internal/race.Read internal/race.Write
internal/race.ReadRange internal/race.WriteRange (*strings.Builder).copyCheck
log.Println log.Printf log.Print (*log.Logger).Println (*log.Logger).Printf (*log.Logger).Print log.SetFlags log.SetOutput log.SetPrefix
os.Setenv time.Sleep log/slog.Info log/slog.Error log/slog.Warn log/slog.Debug`, nop)
	reg("internal/godebug.New", func(m *M, fr *frame, a []Value) (Value, bool) { v := Value{}; return Value{P: &v}, true })
	reg("(*internal/godebug.Setting).Value", func(m *M, fr *frame, a []Value) (Value, bool) { return vStr(""), true })
	reg("(*internal/godebug.Setting).IncNonDefault", nop)
	exit := func(m *M, fr *frame, a []Value) (Value, bool) {
		panic(limitHit{"exit", "the program terminates the process: " + stackOf(fr)})
	}
	reg(`os.Exit log.Fatal log.Fatalf log.Fatalln runtime.Goexit sync.fatal sync.throw`, exit)
	reg("os.Getenv", func(m *M, fr *frame, a []Value) (Value, bool) { return vStr(""), true })
	reg("os.LookupEnv", func(m *M, fr *frame, a []Value) (Value, bool) { return tuple(vStr(""), vBool(false)), true })
	reg("runtime.Callers", func(m *M, fr *frame, a []Value) (Value, bool) { return vInt(0), true })
	reg("runtime.Caller", func(m *M, fr *frame, a []Value) (Value, bool) {
		return tuple(Value{}, vStr(""), Value{}, vBool(false)), true
	})
	reg("runtime.NumGoroutine runtime.NumCPU", func(m *M, fr *frame, a []Value) (Value, bool) { return vInt(1), true })
	reg("runtime.GOMAXPROCS", func(m *M, fr *frame, a []Value) (Value, bool) { return vInt(1), true })
	reg("internal/abi.NoEscape internal/abi.Escape", func(m *M, fr *frame, a []Value) (Value, bool) { return a[0], true })

	// ---- internal/bytealg
	reg("internal/bytealg.MakeNoZero", func(m *M, fr *frame, a []Value) (Value, bool) {
		n := m.makeLen(fr, a[0], i64s, 1, "len")
		m.allocBytes += n
		m.checkMem()
		return Value{P: make(Slice, n)}, true
	})
	reg("internal/bytealg.IndexByteString internal/bytealg.IndexByte", nil)
	idx := func(str, last bool) nativeFn {
		return func(m *M, fr *frame, a []Value) (Value, bool) {
			if str && a[1].P == nil {
				if s, ok := conc(a[0]); ok {
					if last {
						return vInt(int64(strings.LastIndexByte(s, byte(a[1].N)))), true
					}
					return vInt(int64(strings.IndexByte(s, byte(a[1].N)))), true
				}
			}
			return vInt(int64(byteFind(m, m.exprsOf(a[0], str), m.expr(a[1], u8s), last))), true
		}
	}
	natives["internal/bytealg.IndexByteString"] = idx(true, false)
	natives["internal/bytealg.IndexByte"] = idx(false, false)
	natives["internal/bytealg.LastIndexByteString"] = idx(true, true)
	natives["internal/bytealg.LastIndexByte"] = idx(false, true)
	cnt := func(str bool) nativeFn {
		return func(m *M, fr *frame, a []Value) (Value, bool) {
			n := 0
			c := m.expr(a[1], u8s)
			for _, e := range m.exprsOf(a[0], str) {
				if m.branch(m.x.Eq(e, c)) {
					n++
				}
			}
			return vInt(int64(n)), true
		}
	}
	natives["internal/bytealg.CountString"] = cnt(true)
	natives["internal/bytealg.Count"] = cnt(false)
	sub := func(str bool) nativeFn {
		return func(m *M, fr *frame, a []Value) (Value, bool) {
			return vInt(int64(subFind(m, m.exprsOf(a[0], str), m.exprsOf(a[1], str)))), true
		}
	}
	natives["internal/bytealg.IndexString"] = sub(true)
	natives["internal/bytealg.Index"] = sub(false)
	natives["internal/bytealg.Equal"] = func(m *M, fr *frame, a []Value) (Value, bool) {
		return vExpr(m.strEq(m.strOfBytes(m.sliceOf(a[0])), m.strOfBytes(m.sliceOf(a[1])))), true
	}
	cmp3 := func(m *M, x, y Value) Value {
		if m.branch(m.strEq(x, y)) {
			return vInt(0)
		}
		if m.branch(m.strLess(x, y)) {
			return vInt(-1)
		}
		return vInt(1)
	}
	natives["internal/bytealg.Compare"] = func(m *M, fr *frame, a []Value) (Value, bool) {
		return cmp3(m, m.strOfBytes(m.sliceOf(a[0])), m.strOfBytes(m.sliceOf(a[1]))), true
	}
	reg("strings.Compare internal/bytealg.CompareString cmp.Compare[string]", func(m *M, fr *frame, a []Value) (Value, bool) { return cmp3(m, a[0], a[1]), true })
	reg("internal/stringslite.Clone strings.Clone", func(m *M, fr *frame, a []Value) (Value, bool) { return a[0], true })

	// ---- strings (host fast paths on concrete arguments; symbolic arguments run the real body)
	reg("strings.ToUpper", orElse(hostS_S(strings.ToUpper), asciiMap(func(b byte) byte {
		if 'a' <= b && b <= 'z' {
			b -= 32
		}
		return b
	})))
	reg("strings.ToLower", orElse(hostS_S(strings.ToLower), asciiMap(func(b byte) byte {
		if 'A' <= b && b <= 'Z' {
			b += 32
		}
		return b
	})))
	reg("strings.TrimSpace", hostS_S(strings.TrimSpace))
	reg("strings.HasPrefix", hostSS_B(strings.HasPrefix))
	reg("strings.HasSuffix", hostSS_B(strings.HasSuffix))
	reg("strings.Contains", hostSS_B(strings.Contains))
	reg("strings.ContainsAny", hostSS_B(strings.ContainsAny))
	reg("strings.EqualFold", hostSS_B(strings.EqualFold))
	reg("strings.Index", hostSS_I(strings.Index))
	reg("strings.LastIndex", hostSS_I(strings.LastIndex))
	reg("strings.Count", hostSS_I(strings.Count))
	reg("strings.Trim", hostSS_S(strings.Trim))
	reg("strings.TrimLeft", hostSS_S(strings.TrimLeft))
	reg("strings.TrimRight", hostSS_S(strings.TrimRight))
	reg("strings.TrimPrefix", hostSS_S(strings.TrimPrefix))
	reg("strings.TrimSuffix", hostSS_S(strings.TrimSuffix))
	reg("strings.Repeat", func(m *M, fr *frame, a []Value) (Value, bool) {
		s, ok := conc(a[0])
		if !ok || a[1].P != nil {
			return Value{}, false
		}
		n := int64(a[1].N)
		if n < 0 || len(s) > 0 && n > int64(math.MaxInt64)/int64(len(s)) {
			return Value{}, false
		}
		if int64(len(s))*n > int64(m.maxAlloc) {
			panic(limitHit{"memory", "strings.Repeat"})
		}
		m.allocBytes += len(s) * int(n)
		m.checkMem()
		return vStr(strings.Repeat(s, int(n))), true
	})
	reg("strings.ReplaceAll", func(m *M, fr *frame, a []Value) (Value, bool) {
		x, ok1 := conc(a[0])
		y, ok2 := conc(a[1])
		z, ok3 := conc(a[2])
		if ok1 && ok2 && ok3 {
			return vStr(strings.ReplaceAll(x, y, z)), true
		}
		return Value{}, false
	})
	reg("html.EscapeString", orElse(hostS_S(html.EscapeString), fragSplit("html.EscapeString")))
	reg("html.UnescapeString", orElse(hostS_S(html.UnescapeString), fragSplit("html.UnescapeString")))

	// ---- unicode
	reg("unicode.IsLetter", hostR_B(unicode.IsLetter))
	reg("unicode.IsDigit", hostR_B(unicode.IsDigit))
	reg("unicode.IsNumber", hostR_B(unicode.IsNumber))
	reg("unicode.IsSpace", hostR_B(unicode.IsSpace))
	reg("unicode.IsUpper", hostR_B(unicode.IsUpper))
	reg("unicode.IsLower", hostR_B(unicode.IsLower))
	reg("unicode.IsPunct", hostR_B(unicode.IsPunct))
	reg("unicode.IsControl", hostR_B(unicode.IsControl))
	reg("unicode.IsPrint", hostR_B(unicode.IsPrint))
	reg("unicode.ToUpper", hostR_R(unicode.ToUpper))
	reg("unicode.ToLower", hostR_R(unicode.ToLower))
	reg("unicode.ToTitle", hostR_R(unicode.ToTitle))
	reg("unicode/utf8.ValidString", func(m *M, fr *frame, a []Value) (Value, bool) {
		if s, ok := conc(a[0]); ok {
			return vBool(utf8.ValidString(s)), true
		}
		return Value{}, false
	})
	reg("unicode/utf8.RuneCountInString", func(m *M, fr *frame, a []Value) (Value, bool) {
		if s, ok := conc(a[0]); ok {
			return vInt(int64(utf8.RuneCountInString(s))), true
		}
		return Value{}, false
	})

	// ---- strconv
	reg("strconv.Itoa", func(m *M, fr *frame, a []Value) (Value, bool) {
		if e, ok := a[0].P.(*Expr); ok {
			return Value{P: &SymStr{e: []*Expr{m.x.Frag(OFragInt, e, 0)}}}, true
		}
		return vStr(strconv.FormatInt(int64(a[0].N), 10)), true
	})
	fmtInt := func(op Op, app bool) nativeFn {
		return func(m *M, fr *frame, a []Value) (Value, bool) {
			o := 0
			if app {
				o = 1
			}
			if a[o+1].P != nil {
				return Value{}, false
			}
			base := int(a[o+1].N)
			var s Value
			if e, ok := a[o].P.(*Expr); ok {
				if base != 10 {
					return Value{}, false
				}
				s = Value{P: &SymStr{e: []*Expr{m.x.Frag(op, e, 0)}}}
			} else if base >= 2 && base <= 36 {
				if op == OFragInt {
					s = vStr(strconv.FormatInt(int64(a[o].N), base))
				} else {
					s = vStr(strconv.FormatUint(a[o].N, base))
				}
			} else {
				return Value{}, false
			}
			if app {
				return Value{P: m.appendVals(m.sliceOf(a[0]), m.bytesOf(s), types.Typ[types.Byte])}, true
			}
			return s, true
		}
	}
	natives["strconv.FormatInt"] = fmtInt(OFragInt, false)
	natives["strconv.FormatUint"] = fmtInt(OFragUint, false)
	natives["strconv.AppendInt"] = fmtInt(OFragInt, true)
	natives["strconv.AppendUint"] = fmtInt(OFragUint, true)
	fmtFl := func(app bool) nativeFn {
		return func(m *M, fr *frame, a []Value) (Value, bool) {
			o := 0
			if app {
				o = 1
			}
			if a[o+1].P != nil {
				return Value{}, false
			}
			prec := int(m.intArg(fr, a[o+2], i64s))
			bs := int(m.intArg(fr, a[o+3], i64s))
			f := byte(a[o+1].N)
			var s Value
			if e, ok := a[o].P.(*Expr); ok && bs == 64 && prec >= -1 && prec < 100 && strings.IndexByte("fFgGeE", f) >= 0 {
				s = Value{P: &SymStr{e: []*Expr{m.x.Frag(OFragFloat, e, uint64(f)|uint64(uint8(int8(prec)))<<8)}}}
			} else {
				v := a[o].N
				if ok {
					v = m.concretize(e)
				}
				if prec > 1<<20 {
					m.allocBytes += prec
					m.checkMem()
				}
				s = vStr(strconv.FormatFloat(math.Float64frombits(v), f, prec, bs))
			}
			if app {
				return Value{P: m.appendVals(m.sliceOf(a[0]), m.bytesOf(s), types.Typ[types.Byte])}, true
			}
			return s, true
		}
	}
	natives["strconv.FormatFloat"] = fmtFl(false)
	natives["strconv.AppendFloat"] = fmtFl(true)
	// parsing back the text of a symbolic integer gives the integer
	soleFrag := func(v Value) *Expr {
		if s, ok := v.P.(*SymStr); ok && len(s.e) == 1 && s.e[0].sort == 'x' {
			return s.e[0]
		}
		return nil
	}
	reg("strconv.Atoi", func(m *M, fr *frame, a []Value) (Value, bool) {
		if f := soleFrag(a[0]); f != nil && f.op == OFragInt {
			return tuple(vExpr(f.a), Value{}), true
		}
		if s, ok := conc(a[0]); ok {
			if i, err := strconv.Atoi(s); err == nil {
				return tuple(vInt(int64(i)), Value{}), true
			}
			return Value{}, false
		}
		a[0] = m.defrag(a[0])
		return Value{}, false
	})
	reg("strconv.ParseInt", func(m *M, fr *frame, a []Value) (Value, bool) {
		if f := soleFrag(a[0]); f != nil && f.op == OFragInt && (a[1].N == 10 || a[1].N == 0) && (a[2].N == 64 || a[2].N == 0) {
			return tuple(vExpr(f.a), Value{}), true
		}
		if s, ok := conc(a[0]); ok && a[1].P == nil && a[2].P == nil {
			if i, err := strconv.ParseInt(s, int(a[1].N), int(a[2].N)); err == nil {
				return tuple(vInt(i), Value{}), true
			}
			return Value{}, false
		}
		a[0] = m.defrag(a[0])
		return Value{}, false
	})
	reg("strconv.ParseUint", func(m *M, fr *frame, a []Value) (Value, bool) { a[0] = m.defrag(a[0]); return Value{}, false })
	reg("strconv.ParseFloat", func(m *M, fr *frame, a []Value) (Value, bool) {
		if f := soleFrag(a[0]); f != nil && f.op == OFragFloat && int8(f.v>>8) == -1 {
			if nan := m.x.FUn(OFIsNaN, f.a, 0); !m.branch(m.x.Or(nan, m.x.FUn(OFIsInf, f.a, 0))) {
				return tuple(vExpr(f.a), Value{}), true
			}
		}
		if f := soleFrag(a[0]); f != nil && f.op == OFragInt {
			return tuple(vExpr(m.x.FUn(OSI2F, f.a, 64)), Value{}), true
		}
		if s, ok := conc(a[0]); ok && a[1].P == nil {
			if f, err := strconv.ParseFloat(s, int(a[1].N)); err == nil {
				return tuple(Value{N: math.Float64bits(f)}, Value{}), true
			}
			return Value{}, false
		}
		a[0] = m.defrag(a[0])
		return Value{}, false
	})

	// ---- math
	reg("math.Floor", f1(OFRound, 3, math.Floor))
	reg("math.Ceil", f1(OFRound, 2, math.Ceil))
	reg("math.Trunc", f1(OFRound, 4, math.Trunc))
	reg("math.Round", f1(OFRound, 1, math.Round))
	reg("math.RoundToEven", f1(OFRound, 0, math.RoundToEven))
	reg("math.Abs", f1(OFAbs, 0, math.Abs))
	reg("math.Sqrt math.sqrt", f1(OFSqrt, 0, math.Sqrt))
	reg("math.IsNaN", func(m *M, fr *frame, a []Value) (Value, bool) {
		return vExpr(m.x.FUn(OFIsNaN, m.expr(a[0], f64s), 0)), true
	})
	reg("math.Float64frombits", func(m *M, fr *frame, a []Value) (Value, bool) {
		return vExpr(m.x.FromBits(m.expr(a[0], u64s))), true
	})
	reg("math.Float32frombits", func(m *M, fr *frame, a []Value) (Value, bool) {
		return vExpr(m.x.FromBits(m.expr(a[0], scalar{'i', 32, false}))), true
	})
	fb := func(w uint8) nativeFn {
		return func(m *M, fr *frame, a []Value) (Value, bool) {
			e, ok := a[0].P.(*Expr)
			if !ok {
				return a[0], true
			}
			if e.op == OFBits {
				return vExpr(e.a), true
			}
			def := m.x.Eval(e)
			v := m.newVar(w, true, nil, def)
			for len(m.x.model) <= int(v.v) {
				m.x.model = append(m.x.model, 0)
			}
			if m.path.pos >= len(m.path.prefix) {
				m.x.model[v.v] = def
				m.bump()
			}
			m.assume(m.x.Eq(m.x.FromBits(v), e))
			return vExpr(v), true
		}
	}
	for _, isMin := range []bool{false, true} {
		n, inf := "math.Max", math.Inf(1)
		if isMin {
			n, inf = "math.Min", math.Inf(-1)
		}
		reg(n, func(m *M, fr *frame, a []Value) (Value, bool) {
			// an infinity wins even over NaN
			for _, v := range a {
				if m.branch(m.x.FBin(OFEq, m.expr(v, f64s), m.x.FConst(64, math.Float64bits(inf)))) {
					return Value{N: math.Float64bits(inf)}, true
				}
			}
			return m.fminmax(a[1], a[0], f64s, isMin), true
		})
	}
	reg("maps.clone", func(m *M, fr *frame, a []Value) (Value, bool) {
		iv := a[0].P.(*Iface)
		mp, _ := iv.v.P.(*Map)
		if mp == nil {
			return a[0], true
		}
		c := newMap()
		for _, e := range mp.ents {
			if !e.dead {
				m.mapSet(fr, c, e.k, e.v, iv.rt.t.Underlying().(*types.Map).Key())
			}
		}
		return Value{P: &Iface{rt: iv.rt, v: Value{P: c}}}, true
	})
	natives["math.Float64bits"] = fb(64)
	natives["math.Float32bits"] = fb(32)
	for n, f := range map[string]func(float64) float64{"Log": math.Log, "Exp": math.Exp, "Log10": math.Log10, "Log2": math.Log2, "Sin": math.Sin, "Cos": math.Cos} {
		reg("math."+n, func(m *M, fr *frame, a []Value) (Value, bool) {
			v := a[0].N
			if e, ok := a[0].P.(*Expr); ok {
				v = m.concretize(e)
			}
			return Value{N: math.Float64bits(f(math.Float64frombits(v)))}, true
		})
	}
	for n, f := range map[string]func(a, b float64) float64{"Pow": math.Pow, "Mod": math.Mod} {
		reg("math."+n, func(m *M, fr *frame, a []Value) (Value, bool) {
			v := [2]float64{}
			for i := range v {
				v[i] = f64(a[i])
				if e, ok := a[i].P.(*Expr); ok {
					v[i] = math.Float64frombits(m.concretize(e))
				}
			}
			return Value{N: math.Float64bits(f(v[0], v[1]))}, true
		})
	}

	// ---- fmt: the real code runs; symbolic numbers become opaque text atoms
	reg("(*fmt.fmt).fmtInteger", func(m *M, fr *frame, a []Value) (Value, bool) {
		e, ok := a[1].P.(*Expr)
		if !ok {
			return Value{}, false
		}
		f := a[0].P.(*Value).P.(*Agg)
		plain := true
		for _, fl := range f.E[1].P.(*Agg).E {
			if fl.N != 0 {
				plain = false
			}
		}
		if plain && a[2].N == 10 && a[4].N != 'U' && a[4].N != 'c' {
			op := OFragUint
			if a[3].N != 0 {
				op = OFragInt
			}
			buf := f.E[0].P.(*Value)
			m.set(buf, Value{P: m.appendVals(m.sliceOf(*buf), Slice{{P: m.x.Frag(op, e, 0)}}, types.Typ[types.Byte])})
			return Value{}, true
		}
		a[1] = Value{N: m.concretize(e)}
		return Value{}, false
	})
	reg("(*fmt.fmt).fmtFloat", func(m *M, fr *frame, a []Value) (Value, bool) {
		e, ok := a[1].P.(*Expr)
		if !ok {
			return Value{}, false
		}
		f := a[0].P.(*Value).P.(*Agg)
		plain := true
		for i, fl := range f.E[1].P.(*Agg).E {
			if fl.N != 0 && i != 1 {
				plain = false
			}
		}
		verb, prec := a[3].N, int64(a[4].N)
		if f.E[1].P.(*Agg).E[1].N != 0 {
			prec = int64(f.E[3].N)
		}
		if plain && a[2].N == 64 && (verb == 'f' || verb == 'F') && prec >= -1 && prec < 100 && a[3].P == nil {
			buf := f.E[0].P.(*Value)
			m.set(buf, Value{P: m.appendVals(m.sliceOf(*buf), Slice{{P: m.x.Frag(OFragFloat, e, uint64('f')|uint64(uint8(int8(prec)))<<8)}}, types.Typ[types.Byte])})
			return Value{}, true
		}
		a[1] = Value{N: m.concretize(e)}
		return Value{}, false
	})
	reg("(*fmt.fmt).fmtC (*fmt.fmt).fmtQc (*fmt.fmt).fmtUnicode", func(m *M, fr *frame, a []Value) (Value, bool) {
		if e, ok := a[1].P.(*Expr); ok {
			a[1] = Value{N: m.concretize(e)}
		}
		return Value{}, false
	})
	fmtFast := func(name string) {
		reg(name, func(m *M, fr *frame, a []Value) (Value, bool) {
			f, ok := conc(a[0])
			if !ok {
				return Value{}, false
			}
			if v, ok := m.fastSprintf(f, m.sliceOf(a[1])); ok {
				return v, true
			}
			return Value{}, false
		})
	}
	fmtFast("fmt.Sprintf")
	reg("(*os.File).Write (*os.File).WriteString", func(m *M, fr *frame, a []Value) (Value, bool) {
		n := 0
		switch p := a[1].P.(type) {
		case Slice:
			n = len(p)
		case string, *SymStr:
			n = strLen(a[1])
		}
		return tuple(vInt(int64(n)), Value{}), true
	})

	// ---- sync
	lock := func(kind string, d int) nativeFn {
		return func(m *M, fr *frame, a []Value) (Value, bool) {
			p := m.ptr(fr, a[0])
			if m.tr != nil {
				m.tr.beforeLock(fr, p, kind)
				defer m.tr.afterLock(fr, p, kind)
			}
			w, _ := m.sideGet(p, "w").(int)
			r, _ := m.sideGet(p, "r").(int)
			switch kind {
			case "lock":
				if w > 0 || r > 0 {
					panic(limitHit{"deadlock", "self-deadlock: mutex locked twice in " + stackOf(fr)})
				}
				m.sideSet(p, "w", 1)
			case "rlock":
				if w > 0 {
					panic(limitHit{"deadlock", "self-deadlock: RLock of a write-locked mutex in " + stackOf(fr)})
				}
				m.sideSet(p, "r", r+1)
			case "unlock":
				if w == 0 {
					panic(limitHit{"exit", "fatal error: unlock of unlocked mutex"})
				}
				m.sideSet(p, "w", 0)
			case "runlock":
				if r == 0 {
					panic(limitHit{"exit", "fatal error: RUnlock of unlocked mutex"})
				}
				m.sideSet(p, "r", r-1)
			case "try":
				if w > 0 || r > 0 {
					return vBool(false), true
				}
				m.sideSet(p, "w", 1)
				return vBool(true), true
			case "tryr":
				if w > 0 {
					return vBool(false), true
				}
				m.sideSet(p, "r", r+1)
				return vBool(true), true
			}
			return Value{}, true
		}
	}
	reg("(*sync.Mutex).Lock (*sync.RWMutex).Lock", lock("lock", 1))
	reg("(*sync.Mutex).Unlock (*sync.RWMutex).Unlock", lock("unlock", -1))
	reg("(*sync.Mutex).TryLock (*sync.RWMutex).TryLock", lock("try", 0))
	reg("(*sync.RWMutex).RLock", lock("rlock", 1))
	reg("(*sync.RWMutex).RUnlock", lock("runlock", -1))
	reg("(*sync.RWMutex).TryRLock", lock("tryr", -1))
	reg("(*sync.Once).Do", func(m *M, fr *frame, a []Value) (Value, bool) {
		p := m.ptr(fr, a[0])
		if m.tr != nil {
			m.tr.onceWait(fr, p)
			defer m.tr.onceRet(fr, p)
		}
		// the done flag lives in the struct, so that a copied or re-assigned Once behaves as in Go
		ag := p.P.(*Agg)
		done := &ag.E[0]
		for {
			in, ok := done.P.(*Agg)
			if !ok {
				break
			}
			done = &in.E[len(in.E)-1]
		}
		if done.N != 0 {
			return Value{}, true
		}
		defer func() {
			m.quiet(func() { m.set(done, vInt(1)) })
			if m.tr != nil {
				m.tr.onceEnd(fr, p)
			}
		}()
		if m.tr != nil {
			m.tr.onceBegin(fr, p)
		}
		m.callClosure(fr, a[1])
		return Value{}, true
	})
	reg("(*sync.Pool).Get", func(m *M, fr *frame, a []Value) (Value, bool) {
		p := m.ptr(fr, a[0])
		skip := 0
		if m.tr != nil {
			skip = m.tr.syncOp(fr, p, "pool.get")
		}
		if l, _ := m.sideGet(p, "pool").([]Value); len(l) > skip {
			n := len(l) - 1 - skip
			m.sideSet(p, "pool", append(append([]Value(nil), l[:n]...), l[n+1:]...))
			return l[n], true
		}
		ag := p.P.(*Agg)
		nf := ag.E[len(ag.E)-1]
		if nf.P == nil {
			return Value{}, true
		}
		return m.callClosure(fr, nf), true
	})
	reg("(*sync.Pool).Put", func(m *M, fr *frame, a []Value) (Value, bool) {
		p := m.ptr(fr, a[0])
		if a[1].P == nil {
			return Value{}, true
		}
		l, _ := m.sideGet(p, "pool").([]Value)
		m.sideSet(p, "pool", append(l[:len(l):len(l)], a[1]))
		if m.tr != nil {
			m.tr.syncOp(fr, p, "pool.put")
		}
		return Value{}, true
	})
	reg("(*sync.WaitGroup).Add (*sync.WaitGroup).Done (*sync.WaitGroup).Wait", nop)
	anyT := types.NewInterfaceType(nil, nil)
	// syncReg registers an operation that is atomic by itself: its own memory accesses are not races
	syncReg := func(names string, f nativeFn) {
		kind := names[strings.LastIndexByte(names, '.')+1:]
		reg(names, func(m *M, fr *frame, a []Value) (v Value, ok bool) {
			if m.tr == nil {
				return f(m, fr, a)
			}
			p := m.ptr(fr, a[0])
			m.tr.syncOp(fr, p, kind)
			if kind == "Range" {
				v, ok = f(m, fr, a)
			} else {
				m.quiet(func() { v, ok = f(m, fr, a) })
			}
			m.tr.syncDone(fr, p, kind)
			return v, ok
		})
	}
	smap := func(m *M, p *Value) *Map {
		mp, _ := m.sideGet(p, "smap").(*Map)
		if mp == nil {
			mp = newMap()
			m.sideSet(p, "smap", mp)
		}
		return mp
	}
	syncReg("(*sync.Map).Load", func(m *M, fr *frame, a []Value) (Value, bool) {
		mp := smap(m, m.ptr(fr, a[0]))
		if i := m.mapFind(fr, mp, a[1], anyT); i >= 0 {
			return tuple(mp.ents[i].v, vBool(true)), true
		}
		return tuple(Value{}, vBool(false)), true
	})
	syncReg("(*sync.Map).Store", func(m *M, fr *frame, a []Value) (Value, bool) {
		m.mapSet(fr, smap(m, m.ptr(fr, a[0])), a[1], a[2], anyT)
		return Value{}, true
	})
	syncReg("(*sync.Map).LoadOrStore", func(m *M, fr *frame, a []Value) (Value, bool) {
		mp := smap(m, m.ptr(fr, a[0]))
		if i := m.mapFind(fr, mp, a[1], anyT); i >= 0 {
			return tuple(mp.ents[i].v, vBool(true)), true
		}
		m.mapSet(fr, mp, a[1], a[2], anyT)
		return tuple(a[2], vBool(false)), true
	})
	syncReg("(*sync.Map).Delete", func(m *M, fr *frame, a []Value) (Value, bool) {
		m.mapDelete(fr, smap(m, m.ptr(fr, a[0])), a[1], anyT)
		return Value{}, true
	})
	syncReg("(*sync.Map).LoadAndDelete", func(m *M, fr *frame, a []Value) (Value, bool) {
		mp := smap(m, m.ptr(fr, a[0]))
		if i := m.mapFind(fr, mp, a[1], anyT); i >= 0 {
			v := mp.ents[i].v
			m.mapDelete(fr, mp, a[1], anyT)
			return tuple(v, vBool(true)), true
		}
		return tuple(Value{}, vBool(false)), true
	})
	syncReg("(*sync.Map).Clear", func(m *M, fr *frame, a []Value) (Value, bool) {
		m.mapClear(smap(m, m.ptr(fr, a[0])))
		return Value{}, true
	})
	syncReg("(*sync.Map).Range", func(m *M, fr *frame, a []Value) (Value, bool) {
		mp := smap(m, m.ptr(fr, a[0]))
		for _, e := range append([]*mapEnt(nil), mp.ents...) {
			if e.dead {
				continue
			}
			r := m.callClosure(fr, a[1], e.k, e.v)
			if r.N == 0 {
				break
			}
		}
		return Value{}, true
	})

	// ---- sync/atomic
	for _, t := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
		s := scalar{'i', t.w, false}
		syncReg("sync/atomic.Load"+t.n, func(m *M, fr *frame, a []Value) (Value, bool) {
			p := m.ptr(fr, a[0])
			return *p, true
		})
		syncReg("sync/atomic.Store"+t.n, func(m *M, fr *frame, a []Value) (Value, bool) {
			p := m.ptr(fr, a[0])
			m.set(p, a[1])
			return Value{}, true
		})
		syncReg("sync/atomic.Swap"+t.n, func(m *M, fr *frame, a []Value) (Value, bool) {
			p := m.ptr(fr, a[0])
			old := *p
			m.set(p, a[1])
			return old, true
		})
		if t.w > 0 {
			syncReg("sync/atomic.Add"+t.n, func(m *M, fr *frame, a []Value) (Value, bool) {
				p := m.ptr(fr, a[0])
				r := vExpr(m.x.Bin(OAdd, m.expr(*p, s), m.expr(a[1], s)))
				m.set(p, r)
				return r, true
			})
		}
		syncReg("sync/atomic.CompareAndSwap"+t.n, func(m *M, fr *frame, a []Value) (Value, bool) {
			p := m.ptr(fr, a[0])
			eq := false
			if t.w > 0 {
				eq = m.branch(m.x.Eq(m.expr(*p, s), m.expr(a[1], s)))
			} else {
				eq = samePtr(*p, a[1])
			}
			if eq {
				m.set(p, a[2])
			}
			return vBool(eq), true
		})
	}
	av := func(m *M, fr *frame, a []Value) *Value {
		p := m.ptr(fr, a[0])
		return &p.P.(*Agg).E[0]
	}
	syncReg("(*sync/atomic.Value).Load", func(m *M, fr *frame, a []Value) (Value, bool) { return *av(m, fr, a), true })
	syncReg("(*sync/atomic.Value).Store", func(m *M, fr *frame, a []Value) (Value, bool) { m.set(av(m, fr, a), a[1]); return Value{}, true })
	syncReg("(*sync/atomic.Value).Swap", func(m *M, fr *frame, a []Value) (Value, bool) {
		p := av(m, fr, a)
		o := *p
		m.set(p, a[1])
		return o, true
	})

	// ---- time, rand
	reg("time.Now", func(m *M, fr *frame, a []Value) (Value, bool) {
		t := m.P.L.pkgs["time"].Pkg.Scope().Lookup("Time").Type()
		return zero(t), true
	})
	reg("(time.Time).UnixNano (time.Time).Unix (time.Time).UnixMilli (time.Time).Nanosecond time.Since (time.Time).Sub", func(m *M, fr *frame, a []Value) (Value, bool) { return vInt(0), true })
	reg("math/rand.NewSource", func(m *M, fr *frame, a []Value) (Value, bool) { return Value{}, true })
	reg("math/rand.New math/rand/v2.New", func(m *M, fr *frame, a []Value) (Value, bool) { v := Value{}; return Value{P: &v}, true })
	reg("math/rand.Seed (*math/rand.Rand).Seed math/rand/v2.NewPCG", nop)
	intn := func(off int) nativeFn {
		return func(m *M, fr *frame, a []Value) (Value, bool) {
			n := m.intArg(fr, a[off], i64s)
			if n <= 0 {
				panic(&tpanic{v: Value{P: &Iface{rt: m.P.rtype(types.Typ[types.String]), v: vStr("invalid argument to Intn")}}, stack: stackOf(fr)})
			}
			if n > 64 {
				v := m.newVar(64, true, nil, 0)
				m.assume(m.x.cmp(OUlt, v, m.x.Const(64, uint64(n))))
				return vExpr(v), true
			}
			return vInt(int64(m.chooseInternal(int(n)))), true
		}
	}
	reg("math/rand.Intn math/rand.Int63n math/rand.Int31n math/rand/v2.IntN", intn(0))
	reg("(*math/rand.Rand).Intn (*math/rand.Rand).Int63n (*math/rand.Rand).Int31n (*math/rand/v2.Rand).IntN", intn(1))
	shuf := func(off int) nativeFn {
		return func(m *M, fr *frame, a []Value) (Value, bool) {
			n := int(m.intArg(fr, a[off], i64s))
			if n < 0 {
				panic(&tpanic{v: Value{P: &Iface{rt: m.P.rtype(types.Typ[types.String]), v: vStr("invalid argument to Shuffle")}}, stack: stackOf(fr)})
			}
			for i := n - 1; i > 0; i-- {
				j := m.chooseInternal(i + 1)
				m.callClosure(fr, a[off+1], vInt(int64(i)), vInt(int64(j)))
			}
			return Value{}, true
		}
	}
	reg("math/rand.Shuffle math/rand/v2.Shuffle", shuf(0))
	reg("(*math/rand.Rand).Shuffle (*math/rand/v2.Rand).Shuffle", shuf(1))
	perm := func(off int) nativeFn {
		return func(m *M, fr *frame, a []Value) (Value, bool) {
			n := int(m.intArg(fr, a[off], i64s))
			r := make(Slice, n)
			for i := range r {
				r[i] = vInt(int64(i))
			}
			for i := n - 1; i > 0; i-- {
				j := m.chooseInternal(i + 1)
				r[i], r[j] = r[j], r[i]
			}
			return Value{P: r}, true
		}
	}
	reg("math/rand.Perm math/rand/v2.Perm", perm(0))
	reg("(*math/rand.Rand).Perm (*math/rand/v2.Rand).Perm", perm(1))
	rint := func(m *M, fr *frame, a []Value) (Value, bool) {
		v := m.newVar(64, true, nil, 0)
		return vExpr(m.x.Bin(OBAnd, v, m.x.Const(64, 1<<63-1))), true
	}
	reg("math/rand.Int math/rand.Int63 (*math/rand.Rand).Int (*math/rand.Rand).Int63 math/rand/v2.Int", rint)
	rfl := func(m *M, fr *frame, a []Value) (Value, bool) {
		v := m.newVar(64, true, nil, 0)
		e := m.x.FromBits(v)
		m.assume(m.x.And(m.x.FBin(OFLe, m.x.FConst(64, 0), e), m.x.FBin(OFLt, e, m.x.FConst(64, math.Float64bits(1)))))
		return vExpr(e), true
	}
	reg("math/rand.Float64 (*math/rand.Rand).Float64", rfl)

	// ---- unique / weak / maphash style packages are not used
	_ = sort.Ints
	_ = fmt.Sprint
}

// fastSprintf handles the plain verbs on plain argument types; anything else runs the real fmt code.
func (m *M) fastSprintf(f string, args Slice) (Value, bool) {
	var out []*Expr
	var sb strings.Builder
	flush := func() {
		if sb.Len() > 0 {
			out = append(out, m.elems(vStr(sb.String()))...)
			sb.Reset()
		}
	}
	sym := false
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			sb.WriteByte(f[i])
			continue
		}
		i++
		if i >= len(f) {
			return Value{}, false
		}
		if f[i] == '%' {
			sb.WriteByte('%')
			continue
		}
		if n >= len(args) {
			return Value{}, false
		}
		iv, _ := args[n].P.(*Iface)
		n++
		if iv == nil {
			return Value{}, false
		}
		b, ok := iv.rt.t.(*types.Basic)
		if !ok {
			return Value{}, false
		}
		s := scalarOf(b)
		switch {
		case s.kind == 's' && (f[i] == 's' || f[i] == 'v'):
			if c, ok := conc(iv.v); ok {
				sb.WriteString(c)
			} else {
				flush()
				sym = true
				out = append(out, m.elems(iv.v)...)
			}
		case s.kind == 'i' && (f[i] == 'd' || f[i] == 'v'):
			if e, ok := iv.v.P.(*Expr); ok {
				flush()
				sym = true
				op := OFragInt
				if !s.signed {
					op = OFragUint
				}
				out = append(out, m.x.Frag(op, m.x.Conv(e, 64, s.signed), 0))
			} else if s.signed {
				sb.WriteString(strconv.FormatInt(sx(iv.v.N, s.w), 10))
			} else {
				sb.WriteString(strconv.FormatUint(iv.v.N, 10))
			}
		default:
			return Value{}, false
		}
	}
	if n != len(args) {
		return Value{}, false
	}
	if !sym {
		m.allocBytes += sb.Len()
		return vStr(sb.String()), true
	}
	flush()
	return Value{P: &SymStr{e: out}}, true
}
