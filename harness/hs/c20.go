package hs

import (
	"math"
	"strings"

	tw "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"
	"vh/vrt"
)

// what the last custom function saw
var (
	called int
	seen   any
	given  []any
)

var types20 = []struct {
	name string
	kind byte
}{{"STRING", 's'}, {"ARRAY", 'a'}, {"INTEGER", 'i'}, {"FLOAT", 'f'}, {"BOOLEAN", 'b'}}

// register registers function id under the name for the type.
func register(ty int, name string, id int) error {
	note := func(r any, args []any) { called, seen, given = id, r, args }
	switch ty {
	case 0:
		return tw.RegisterStrFunc(name, func(s string, args ...any) string { note(s, args); return s + "#" + itoa(id) })
	case 1:
		return tw.RegisterArrFunc(name, func(a []any, args ...any) []any { note(a, args); return append(a, id, "z") })
	case 2:
		return tw.RegisterIntFunc(name, func(i int, args ...any) int { note(i, args); return i + id })
	case 3:
		return tw.RegisterFloatFunc(name, func(f float64, args ...any) float64 { note(f, args); return float64(id) + 0.25 })
	}
	return tw.RegisterBoolFunc(name, func(b bool, args ...any) bool { note(b, args); return !b })
}

// natEq is true when got is the plain Go value of v.
func natEq(got any, v val) bool {
	switch g := got.(type) {
	case nil:
		return v.k == 'n'
	case int:
		return v.k == 'i' && int64(g) == v.i
	case int64:
		return v.k == 'i' && g == v.i
	case float64:
		return v.k == 'f' && (g == v.f && math.Signbit(g) == math.Signbit(v.f) || g != g && v.f != v.f)
	case string:
		return v.k == 's' && g == v.s
	case bool:
		return v.k == 'b' && g == v.b
	case []any:
		if v.k != 'a' || len(g) != len(v.e) {
			return false
		}
		for i := range g {
			if !natEq(g[i], v.e[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		if v.k != 'o' || len(g) != len(v.e) {
			return false
		}
		for i := range v.e {
			x, ok := g[v.s[i:i+1]]
			if !ok || !natEq(x, v.e[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func argsEq(got []any, want []val) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if !natEq(got[i], want[i]) {
			return false
		}
	}
	return true
}

// names20 are the function names of the histories: two that differ in their case, a prefix, and a built-in of three of the types.
var names20 = []string{"f", "F", "ff", "len"}

func builtin20(ty, name int) bool { return names20[name] == "len" && ty <= 2 }

// expect20 checks a call of names20[name] on a value of the type: id is the registered function, 0 for none.
func expect20(ty, name, id int, rv val, run func(expr string) res, expr, label string) {
	called, seen, given = 0, nil, nil
	r := run(expr + "." + names20[name] + "(7, 'q')")
	if builtin20(ty, name) {
		vrt.Assert(called == 0, label+": a built-in comes first")
		return
	}
	if id == 0 {
		vrt.Assert(called == 0, label+": no function runs for an unregistered name")
		vrt.Assert(r.bad, label+": an unregistered name is an error")
		vrt.Assert(strings.Contains(r.err, "'"+names20[name]+"'") && strings.Contains(r.err, types20[ty].name), label+": the error names the function and the type")
		return
	}
	vrt.Assert(!r.bad, label+": a registered function is callable")
	vrt.Assert(called == id, label+": the function that was registered first runs")
	vrt.Assert(natEq(seen, rv), label+": the function gets the receiver")
	vrt.Assert(argsEq(given, []val{num(7), str("q")}), label+": the function gets the arguments")
	if r.bad {
		return
	}
	switch ty {
	case 0:
		vrt.AssertEq(r.out, rv.s+"#"+itoa(id), label+": result")
	case 1:
		vrt.AssertEq(r.out, i64(rv.e[0].i)+", "+itoa(id)+", z", label+": result")
	case 2:
		vrt.AssertEq(r.out, i64(rv.i+int64(id)), label+": result")
	case 3:
		vrt.AssertEq(r.out, itoa(id)+".25", label+": result")
	case 4:
		w := "1"
		if rv.b {
			w = "0"
		}
		vrt.AssertEq(r.out, w, label+": result")
	}
}

// H_C20_history: every sequence of 2 (thorough 3) operations: register one of four names (two differ in case, one is a prefix, one is a built-in of three types) for one of five types, or load templates, or call
// everything; then every name on every type, on literals and symbolic variables, by string and from a template loaded before or after: the first registration wins, later ones fail, types are independent,
// unregistered names are errors that name function and type.
// vrt:weight 4
func H_C20_history() { history20(quick(2, 3)) }

// H_C20_long: the same for sequences of 3 (thorough 4) operations.
// vrt:weight 3
func H_C20_long() { history20(quick(3, 4)) }

func history20(length int) {
	var ids [5][4]int
	n, s, b, f := vrt.Int64(), vrt.Str(1, letters), vrt.Bool(), 2.5
	recv := []val{str(s), list(num(n)), num(n), flt(f), boolVal(b)}
	data := map[string]any{}
	src := ""
	for i := range recv {
		data["x"+itoa(i)] = recv[i].native()
	}
	lits := []string{"'w'", "[3]", "3", "1.5", "true"}
	litv := []val{str("w"), list(num(3)), num(3), flt(1.5), boolVal(true)}
	byString := func(e string) res {
		out, err := tw.EvaluateString("{{ "+e+" }}", data)
		if err != nil {
			return res{bad: true, err: err.Error()}
		}
		return res{out: out}
	}
	all := ""
	for ty := range types20 {
		for k := range names20 {
			all += "@if(q == " + itoa(ty*10+k) + "){{ x" + itoa(ty) + "." + names20[k] + "(7, 'q') }}@end"
		}
	}
	vrt.WriteFile("tpl/all.tw", all)
	load := func() *tw.Template {
		t, err := tw.NewTemplate(&config.Config{TemplateDir: "tpl", TemplateExt: ".tw"})
		vrt.Assert(err == nil, "the tree loads")
		return t
	}
	var t *tw.Template
	check := func(label string) {
		for ty := range types20 {
			for k := range names20 {
				expect20(ty, k, ids[ty][k], recv[ty], byString, "x"+itoa(ty), label+", variable")
				if label == "in between" {
					continue
				}
				if label == "at the end" {
					expect20(ty, k, ids[ty][k], litv[ty], byString, lits[ty], label+", literal")
				}
				if t != nil {
					expect20(ty, k, ids[ty][k], recv[ty], func(string) res {
						out, ferr := t.String("all", with(data, "q", ty*10+k))
						if ferr != nil {
							return res{bad: true, err: ferr.Message()}
						}
						return res{out: out}
					}, "", label+", template")
				}
			}
		}
	}
	for i := 1; i <= length; i++ {
		switch op := vrt.Choice(22); {
		case op < 20:
			ty, k := op/4, op%4
			err := register(ty, names20[k], i)
			src += "reg" + types20[ty].name + names20[k]
			if ids[ty][k] != 0 {
				vrt.Assert(err != nil, "registering a name again fails")
			} else if !builtin20(ty, k) {
				vrt.Assert(err == nil, "registering a new name succeeds")
				ids[ty][k] = i
			}
		case op == 20:
			t = load()
		default:
			check("in between")
		}
	}
	vrt.Observe("ops", src)
	check("at the end")
	if t == nil {
		t = load()
		check("after loading")
	}
}

// value20 is a value of up to the given depth, as source text or as data.
func value20(data map[string]any, depth int) (string, val) {
	if vrt.Choice(3) > 0 {
		v := elem(depth)
		name := "d" + itoa(len(data))
		data[name] = v.native()
		return name, v
	}
	switch vrt.Choice(9) {
	case 0:
		return "9223372036854775807", num(1<<63 - 1)
	case 1:
		return "0.5", flt(0.5)
	case 2:
		return "-3", num(-3)
	case 3:
		s := vrt.Str(2, letters+" ")
		return "'" + s + "'", str(s)
	case 4:
		return "true", boolVal(true)
	case 5:
		return "nil", none
	case 6:
		return "[]", list()
	case 7:
		if depth > 0 {
			a, va := value20(data, depth-1)
			b, vb := value20(data, 0)
			return "[" + a + ", " + b + "]", list(va, vb)
		}
		return "1 + 1", num(2)
	}
	if depth > 0 {
		a, va := value20(data, depth-1)
		return "{k: " + a + ", m: {}}", val{k: 'o', s: "km", e: []val{va, {k: 'o'}}}
	}
	return "{}", val{k: 'o'}
}

// H_C20_args: receivers of the five types (arrays nested, symbolic contents, boundary numbers) and 0..2 (thorough 3) arguments of every kind nested up to depth 1 (thorough 2), as literals, variables and expressions: the function receives
// the plain Go value of the same content.
// vrt:weight 4
func H_C20_args() {
	for ty := range types20 {
		register(ty, "fn", 1)
	}
	data := map[string]any{}
	var x string
	var rv val
	switch vrt.Choice(7) {
	case 0:
		rv = str(vrt.Str(vrt.Choice(3), ""))
	case 1:
		rv = num(vrt.Int64())
	case 2:
		rv = flt(vrt.Float64())
	case 3:
		rv = boolVal(vrt.Bool())
	case 4, 5:
		rv = list()
		for i := vrt.Choice(quick(2, 3)); i > 0; i-- {
			rv.e = append(rv.e, elem(1))
		}
	case 6:
		x, rv = value20(data, 1)
		vrt.Assume(rv.k != 'n' && rv.k != 'o')
		x = "(" + x + ")"
	}
	if x == "" {
		x = "x"
		data["x"] = rv.native()
	}
	src := ""
	var want []val
	for i := vrt.Choice(quick(3, 4)); i > 0; i-- {
		if src != "" {
			src += ", "
		}
		a, v := value20(data, quick(1, 2))
		src += a
		want = append(want, v)
	}
	called, seen, given = 0, nil, nil
	r := eval("{{ "+x+".fn("+src+") }}", data)
	vrt.Assert(!r.bad, "the call renders")
	vrt.Assert(called == 1, "the function runs")
	vrt.Assert(natEq(seen, rv), "the receiver is the plain Go value of the same content")
	vrt.Assert(argsEq(given, want), "each argument is the plain Go value of the same content")
}

// H_C20_results: results of custom functions: strings of arbitrary bytes, all ints, floats of any bits, booleans, and arrays of Go values of 22 basic types inside of 0..1 (thorough 2) of nine wrappers: they appear as if
// that Go value had been passed as data, also as receivers of built-ins and custom functions.
// vrt:weight 4
func H_C20_results() {
	switch vrt.Choice(8) {
	case 0:
		s := vrt.Str(vrt.Choice(3), "")
		if vrt.Choice(2) == 1 {
			s = pick("<script>alert('x')</script>", "a &amp; &lt;b", "{{ x }}@if(true)a@end", "12", "nil", "true", "  blank\n\n", "<b class=\"c\">é</b>", "\\n\\{{", "http://a/b?c=d&e=f#g") + s
		}
		tw.RegisterStrFunc("mk", func(string, ...any) string { return s })
		shownAs("'a'.mk()", map[string]any{}, str(s), "string result")
	case 1:
		n := vrt.Int64()
		tw.RegisterIntFunc("mk", func(int, ...any) int { return int(n) })
		shownAs("1.mk()", map[string]any{}, num(n), "integer result")
	case 2:
		f := vrt.Float64()
		tw.RegisterFloatFunc("mk", func(float64, ...any) float64 { return f })
		shownAs("1.5.mk()", map[string]any{}, flt(f), "float result")
		r, w := evalq("{{ 1.5.mk() }}", nil), evalq("{{ x }}", map[string]any{"x": f})
		vrt.AssertEq(r.out, w.out, "float result: as data")
	case 3:
		b := vrt.Bool()
		tw.RegisterBoolFunc("mk", func(bool, ...any) bool { return b })
		shownAs("true.mk()", map[string]any{}, boolVal(b), "boolean result")
	case 4:
		tw.RegisterArrFunc("mk", func([]any, ...any) []any { return nil })
		renders("{{ [1].mk() }}|{{ [1].mk().len() }}|@each(x in [1].mk())a@else b@end", nil, "|0| b", "nil array result")
	default:
		x, v := leafVal()
		d, path := wrapped(x, "x", vrt.Choice(quick(2, 3)))
		tw.RegisterArrFunc("mk", func(a []any, args ...any) []any { return append(a, d, 7) })
		data := map[string]any{"x": d}
		shownAs("[1].mk()[1]"+path[1:], data, v, "array result")
		r, w := evalq("{{ [1].mk() }}", data), evalq("{{ [1, x, 7] }}", data)
		vrt.Assert(!r.bad && !w.bad, "array result: prints")
		vrt.AssertEq(r.out, w.out, "array result: as data")
		r = evalq("{{ [1].mk().mk().len() }}", data)
		vrt.AssertEq(r.out, "5", "array result: as a receiver")
	}
}

// H_C20_places: a custom function call as condition, loop subject, loop clause, element, index, argument of a built-in, of another custom function and of a component, insert, slot body and dump, from templates loaded before or after the registration.
func H_C20_places() {
	n := vrt.Int64()
	write("p", "@use('l')@insert('t', n.inc(1))@insert('b')@component('c', {v: n.inc(2)})@slot('s')@if(b.not())T@else F@end@end@end@each(x in [n].dup()){{ x.inc() }};@end@end",
		"l", "<@reserve('t')>@reserve('b'){{ 'l'.tag('b') }}", "c", "[{{ v.inc(v) }}@slot('s')]")
	var t *tw.Template
	load := func() {
		var err error
		t, err = tw.NewTemplate(&config.Config{TemplateDir: "tpl", TemplateExt: ".tw"})
		vrt.Assert(err == nil, "loads")
	}
	before := vrt.Choice(2) == 0
	if before {
		load()
	}
	add := func(i int, args []any) int {
		for _, a := range args {
			switch x := a.(type) {
			case int64:
				i += int(x)
			case int:
				i += x
			}
		}
		return i + 1
	}
	vrt.Assert(tw.RegisterIntFunc("inc", func(i int, args ...any) int { return add(i, args) }) == nil, "registers")
	vrt.Assert(tw.RegisterBoolFunc("not", func(b bool, args ...any) bool { return !b }) == nil, "registers")
	vrt.Assert(tw.RegisterArrFunc("dup", func(a []any, args ...any) []any { return append(a, a...) }) == nil, "registers")
	vrt.Assert(tw.RegisterStrFunc("tag", func(s string, args ...any) string { return args[0].(string) + s }) == nil, "registers")
	if !before {
		load()
	}
	if t == nil {
		return
	}
	data := map[string]any{"n": n, "b": vrt.Bool()}
	w := "T"
	if data["b"].(bool) {
		w = " F"
	}
	shows(t, "p", data, "<"+i64(n+2)+">["+i64(2*(n+3)+1)+w+"]"+i64(n+1)+";"+i64(n+1)+";bl", "in a template")
	renders("{{ [1, 2, 3][0.inc()] }}{{ [n.inc()] }}{{ {k: n.inc()}.k }}{{ 'ab'.at(0.inc()) }}{{ n.inc(n.inc()) }}{{ b.not() ? 1.inc() : 2 }}@for(i = 0; i < 1.inc(); i = i.inc()){{ i }}@end{{ 'x'.tag('y').tag('z') }}{{ 'x'.tag('y').upper() }}{{ [n].dup().dup().len() }}", data,
		"2"+i64(n+1)+i64(n+1)+"b"+i64(n+n+2)+"2"+"01zyxYX4", "in a string")
}

// H_C20_kinds: calls of unregistered names on every kind of value, also those no function can be registered for, name function and type; so do names registered for all other types.
func H_C20_kinds() {
	k := vrt.Choice(7)
	for ty := range types20 {
		if ty != k {
			register(ty, "zap", 1)
		}
	}
	x := []any{vrt.Str(1, letters), []any{vrt.Int64()}, vrt.Int64(), 0.5, vrt.Bool(), map[string]any{"zap": 1}, nil}[k]
	name := []string{"STRING", "ARRAY", "INTEGER", "FLOAT", "BOOLEAN", "OBJECT", "NIL"}[k]
	called = 0
	e := pick("x", "(true ? x : 1)", "[x][0]", "{k: x}.k")
	fn := "zap"
	if k < 5 {
		fn = pick("zap", "zip", "a"+vrt.Str(1, lower))
		vrt.Assume(fn != "at")
	}
	r := fails("{{ "+e+"."+fn+"("+pick("", "1", "x", "1, x", "'a', 2, [x], nil, 1.5")+") }}", map[string]any{"x": x}, "unregistered name")
	vrt.Assert(called == 0, "no function of another type runs")
	vrt.Assert(strings.Contains(r.err, "'"+fn+"'") && strings.Contains(r.err, name), "the error names the function and the type")
}

// H_C20_twice: one of six names (1 to 51 characters) registered for any subset of the five types in either order, then once more for each type: only the types that did not have it accept, and every type calls its first function.
func H_C20_twice() {
	subset := vrt.Choice(32)
	name := pick("fn", "f", "Fn", "fn_2", "isEvenNumber", "aRatherLongNameOfACustomFunctionOf_51_characters_end")
	up := vrt.Choice(2) == 1
	var ids [5]int
	for i := range types20 {
		ty := i
		if !up {
			ty = 4 - i
		}
		if subset>>ty&1 == 1 {
			vrt.Assert(register(ty, name, 1+ty) == nil, "registering a new name succeeds")
			ids[ty] = 1 + ty
		}
	}
	for k := 0; k < 2; k++ {
		for ty := range types20 {
			err := register(ty, name, 20+ty)
			vrt.Assert((err != nil) == (ids[ty] != 0), "registering fails exactly when the type has the name")
			if ids[ty] == 0 {
				ids[ty] = 20 + ty
			}
		}
	}
	for ty, e := range []string{"'w'", "[3]", "3", "1.5", "true"} {
		called = 0
		r := eval("{{ "+e+"."+name+"() }}", nil)
		vrt.Assert(!r.bad && called == ids[ty], "the function that was registered first runs")
	}
}

// H_C20_numbers: one float64 of any bits or int64 as receiver, argument and inside of an array and an object argument: the function sees the same number, sign of zero included.
func H_C20_numbers() {
	data := map[string]any{}
	var v val
	fn, src := "", ""
	if vrt.Choice(2) == 0 {
		v = flt(vrt.Float64())
	} else {
		v = num(vrt.Int64())
	}
	data["x"] = v.native()
	var got []any
	tw.RegisterFloatFunc("f", func(f float64, a ...any) float64 { got = append([]any{f}, a...); return 1 })
	tw.RegisterIntFunc("f", func(i int, a ...any) int { got = append([]any{i}, a...); return 1 })
	tw.RegisterStrFunc("f", func(s string, a ...any) string { got = a; return s })
	fn = "x.f"
	want := v
	switch vrt.Choice(4) {
	case 0:
		src = fn + "()"
	case 1:
		src = "'a'.f(x)"
	case 2:
		src, want = "'a'.f([1, x])", list(num(1), v)
	case 3:
		src, want = "'a'.f({k: x})", val{k: 'o', s: "k", e: []val{v}}
	}
	r := eval("{{ "+src+"; 1 }}", data)
	vrt.Assert(!r.bad && len(got) == 1, "the function runs")
	if len(got) == 1 {
		vrt.Assert(natEq(got[0], want), "the function sees the same number")
	}
}
