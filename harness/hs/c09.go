package hs

import (
	"math"
	"strings"

	tw "github.com/textwire/textwire/v2"
	"vh/vrt"
)

type inner struct {
	V    any
	Next *inner
}

// soup is a piece of an expression (a variable of any kind, or a literal) whose data is added to data under a fresh name.
func soup(data map[string]any) string {
	name := "v" + itoa(len(data))
	switch vrt.Choice(20) {
	case 0:
		data[name] = vrt.Int64()
	case 1:
		data[name] = vrt.Float64()
	case 2:
		data[name] = vrt.Str(vrt.Choice(3), "")
	case 3:
		data[name] = "h\u00e9\u4e16\U0001f600"
	case 4:
		data[name] = vrt.Bool()
	case 5:
		data[name] = nil
	case 6:
		data[name] = (*inner)(nil)
	case 7:
		data[name] = []any{vrt.Int64(), "x", nil}
	case 8:
		data[name] = []int64{}
	case 9:
		data[name] = []any{[]any{}, []any(nil), map[string]any{}, []any{"q", 1.5}}
	case 10:
		data[name] = map[string]any{"a": vrt.Int64(), "": "empty", "len": []any{1}}
	case 11:
		data[name] = map[string]any{}
	case 12:
		data[name] = &inner{V: inner{V: vrt.Bool()}}
	case 13:
		return "nope"
	case 14:
		return pick("''", "'\u00e9'", "\"&\"")
	case 15:
		return pick("0", "9223372036854775807", "(-9223372036854775807 - 1)", "0.0", "-1")
	case 16:
		return pick("[]", "[nil, []]", "{}", "{a: {}}", "{\"\": 1}")
	case 17:
		return pick("true", "!nil", "nil", "loop")
	case 18:
		data[name] = []*inner{nil, {V: (*string)(nil)}}
	case 19:
		data[name] = map[string][]map[string]*int{"a": {nil, {"k": nil}}}
	}
	return name
}

// crashless renders src behind two lines of text: output, or an error that carries the third line. A panic is found by the engine.
func crashless(src string, data map[string]any, label string) {
	r := eval("\n\n"+src, data)
	if r.bad {
		_, line, msg, ok := errText(r.err)
		vrt.Assert(ok, label+": the error is a Textwire error")
		vrt.Assert(line == 3, label+": the error carries the line of the construct")
		vrt.Assert(msg != "", label+": the error has a message")
		vrt.Reach("error")
	} else {
		vrt.Assert(strings.HasPrefix(r.out, "\n\n"), label+": output")
		vrt.Reach("output")
	}
}

// H_C09_binary: 11 binary operators between any two of 20 operand families (symbolic int64, float64 of any bits, strings of 0..2 arbitrary bytes, multi-byte text, booleans,
// nil, nil pointers, arrays, objects, structs with nil pointers, undefined names, boundary literals): output or an error with the line.
// vrt:weight 4
func H_C09_binary() {
	d := map[string]any{}
	x := soup(d)
	op := pick("+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=")
	y := soup(d)
	crashless("{{ "+x+" "+op+" "+y+" }}", d, "binary operator")
}

// H_C09_unary: prefix and postfix operators (also repeated), indexes by an operand of any kind, properties of plain, empty, multi-byte and built-in names, in chains,
// conditions of ternaries and assignments of operands of any kind.
// vrt:weight 3
func H_C09_unary() {
	d := map[string]any{}
	x := soup(d)
	var src string
	switch vrt.Choice(14) {
	case 0:
		src = "-" + x
	case 1:
		src = "!" + x
	case 2:
		src = "--" + x
	case 3:
		src = "!-" + x
	case 4:
		src = x + "++"
	case 5:
		src = x + "--"
	case 6:
		src = x + "[" + soup(d) + "]"
	case 7:
		src = x + "[" + soup(d) + "][0]"
	case 8:
		src = x + "." + pick("a", "len", "V", "v", "next", "a.a", "Next.v", "v.v", "\u00e9", "in", "a[0].k", "v[0]", "upper", "a.len()")
	case 9:
		src = x + "[" + pick("''", "'\u00e9'", "'v'", "'V'", "'a'", "\"<\"", "-1", "9223372036854775807", "nil", "1.5") + "]"
	case 10:
		src = x + " ? 1 : " + pick("2", "[]", x)
	case 11:
		src = "y = " + x + "; y = " + pick("1", "nil", "[]", "'a'") + "; y"
	case 12:
		src = pick("loop", "y") + " = " + x
	case 13:
		src = "{a: " + x + ", b: [" + x + "]}" + pick("", ".a", ".b[0]", ".c", "['a']", ".b.len()")
	}
	crashless("{{ "+src+" }}", d, "unary operator, index or property")
}

// H_C09_headers: operands of any kind as loop subjects, loop clauses (all subsets of absent clauses), conditions and directive arguments, on one line.
// vrt:weight 4
func H_C09_headers() {
	d := map[string]any{}
	x := soup(d)
	var src string
	switch vrt.Choice(16) {
	case 0:
		src = "@each(e in " + x + ")" + pick("{{ e }}", "{{ loop.index }}{{ loop.last }}", "{{ e.a }}", "{{ e[0] }}", "@continueIf(e)", "@breakIf(e)", "{{ e = 1 }}") + "@else z@end"
	case 1:
		src = "@each(e in " + x + ")@each(f in e){{ f }}@end@end"
	case 2:
		src = "@for(i = " + x + "; i < 2; i++){{ i }}@if(i == 2)@break@end@breakIf(i)@end"
	case 3:
		src = "@for(i = 0; " + x + "; i++){{ i }}@break@end"
	case 4:
		src = "@for(i = 0; i < " + x + "; i++)a@breakIf(i > 1)@end"
	case 5:
		src = "@for(i = 0; i < 2; " + x + ")a@break@end"
	case 6:
		src = "@for(i = 0; i < 1; i = " + x + ")a{{ i }}@break@end"
	case 7:
		a, b, c := pick("", "i = 0"), pick("", "i < 2", "false"), pick("", "i++")
		src = "{{ i = 0 }}@for(" + a + ";" + b + ";" + c + "){{ loop }}@breakIf(i > 1)@break@else e@end"
		if vrt.Choice(2) == 1 {
			src = strings.Replace(src, "{{ loop }}", x, 1)
		}
	case 8:
		src = "@if(" + x + ")a@elseif(" + soup(d) + ")b@else c@end"
	case 9:
		src = "@each(e in [1, 2])" + pick("@breakIf(", "@continueIf(") + x + ")b@end"
	case 10:
		src = "@dump(" + x + ", [" + x + "], {k: " + x + "})"
	case 11:
		src = "@dump()" + "{{ " + x + " }}"
	case 12:
		src = pick("@break", "@continue", "@breakIf("+x+")", "@continueIf("+x+")") + "a"
	case 13:
		src = "@if(" + x + ")" + pick("@break", "@continue", "{{ }}", "") + "@end"
	case 14:
		src = "{{ " + x + " }}{{ " + x + ".raw() }}"
	case 15:
		src = "@for(i = 3; i > " + x + "; i--){{ i / i }}@breakIf(i < 0)@end"
	}
	crashless(src, d, "header or directive")
}

// count is an argument: any operand, where an integer is symbolic over all int64 except 4..2^25 (those sizes are allocated one by one).
func count(d map[string]any) string {
	if vrt.Choice(4) == 0 {
		v := vrt.Int64()
		vrt.Assume(v <= 3 || v > 1<<25)
		name := "v" + itoa(len(d))
		d[name] = v
		return name
	}
	switch vrt.Choice(6) {
	case 0:
		return pick("nope", "nil", "true")
	case 1:
		return pick("''", "', '", "'\u00e9'")
	case 2:
		return pick("1.5", "-0.5")
	case 3:
		return pick("[]", "[1, 'a']", "[[]]")
	case 4:
		return pick("{}", "{a: nil}")
	}
	return pick("0", "1", "-1", "'%d'")
}

// H_C09_builtins: every built-in and three unknown names x receivers of every kind (right and wrong ones) x 0..2 (thorough 3) arguments of every kind, integers over all of int64 except 4..2^25.
// vrt:weight 5
func H_C09_builtins() {
	d := map[string]any{}
	name := ""
	k := vrt.Choice(len(builtins) + 3)
	if k < len(builtins) {
		name = builtins[k].name
	} else {
		name = []string{"nope", "a", "\u00e9"}[k-len(builtins)]
	}
	var x string
	if vrt.Choice(3) == 0 {
		x = soup(d)
	} else {
		switch {
		case k >= len(builtins):
			x = pick("1", "'a'", "[1]", "true", "1.5", "{}", "nil")
		case builtins[k].recv == 's':
			x = pick("''", "'a'", "'12'", "'\u00e9\u4e16'", "' '", "'-1.5'")
		case builtins[k].recv == 'a':
			x = pick("[]", "[1]", "[[], 'x', nil]", "[1, 2, 3]")
		case builtins[k].recv == 'i':
			d["v0"] = vrt.Int64()
			x = "v0"
		case builtins[k].recv == 'f':
			d["v0"] = vrt.Float64()
			x = "v0"
		default:
			x = pick("true", "false")
		}
	}
	arg := ""
	for i, n := 0, vrt.Choice(quick(3, 4)); i < n; i++ {
		if i > 0 {
			arg += ", "
		}
		arg += count(d)
	}
	src := "{{ " + x + "." + name + "(" + arg + ") }}"
	if name == "rand" || name == "shuffle" {
		src = "{{ y = " + x + "." + name + "(" + arg + "); 1 }}"
	}
	crashless(src, d, "built-in")
}

// H_C09_ints: every built-in on receivers of its type (strings of 0..2 arbitrary bytes and multi-byte text, arrays of 0..3 elements, every int64, six floats among them NaN and infinity)
// with 1..2 integer arguments that are symbolic over all of int64 except 4..2^25, and indexes by such an integer: output or an error with the line.
// vrt:weight 3
func H_C09_ints() {
	d := map[string]any{}
	num := func(name string) string {
		v := vrt.Int64()
		vrt.Assume(v <= 3 || v > 1<<25)
		d[name] = v
		return name
	}
	k := vrt.Choice(len(builtins) + 1)
	recv := byte('a')
	if k < len(builtins) {
		recv = builtins[k].recv
	} else if vrt.Choice(2) == 0 {
		recv = 's'
	}
	switch recv {
	case 's':
		d["x"] = "h\u00e9\u4e16"
		if n := vrt.Choice(4); n < 3 {
			d["x"] = vrt.Str(n, "")
		}
	case 'a':
		d["x"] = [][]any{{}, {1}, {1, "a"}, {nil, []any{}, 2.5}}[vrt.Choice(4)]
	case 'i':
		d["x"] = vrt.Int64()
	case 'f':
		d["x"] = []float64{0, -0.5, 1e300, math.NaN(), math.Inf(1), 0.1}[vrt.Choice(6)]
	case 'b':
		d["x"] = vrt.Bool()
	}
	if k == len(builtins) {
		crashless("{{ x["+num("m")+"] }}", d, "index")
		return
	}
	arg := num("m")
	switch vrt.Choice(3) {
	case 1:
		arg += ", " + num("n")
	case 2:
		arg = pick("'', ", "'\u00e9', ", "1, ", "[], ") + arg
	}
	src := "{{ x." + builtins[k].name + "(" + arg + ") }}"
	if builtins[k].name == "rand" || builtins[k].name == "shuffle" {
		src = "{{ y = x." + builtins[k].name + "(" + arg + "); 1 }}"
	}
	crashless(src, d, "integers as arguments")
}

// expr9 is an expression of any shape with operands of any kind.
func expr9(d map[string]any, depth int) string {
	if depth == 0 {
		return soup(d)
	}
	switch vrt.Choice(9) {
	case 0:
		return expr9(d, depth-1) + pick(" + ", " % ", " < ", " == ", " / ") + soup(d)
	case 1:
		return soup(d) + pick(" - ", " * ", " != ") + expr9(d, depth-1)
	case 2:
		return "(" + pick("-", "!") + expr9(d, depth-1) + ")"
	case 3:
		return "(" + expr9(d, depth-1) + ")" + pick("++", "--", ".a", "[0]", "['a']", ".len()", ".V", ".contains(1)", ".str()", ".then(1)")
	case 4:
		return "[" + expr9(d, depth-1) + ", " + soup(d) + "]" + pick("", "[0]", "[1]", ".reverse()", ".join()")
	case 5:
		return "{a: " + expr9(d, depth-1) + "}" + pick("", ".a", "['a']", ".b")
	case 6:
		return "(" + soup(d) + " ? " + expr9(d, depth-1) + " : " + soup(d) + ")"
	case 7:
		return soup(d) + "[" + expr9(d, depth-1) + "]"
	}
	return soup(d) + pick(".append(", ".contains(", ".at(", ".nope(") + expr9(d, depth-1) + ")"
}

// H_C09_programs: expressions of depth 2 (thorough 3) with any operand in any position, printed, assigned, dumped, as condition, loop subject, loop clause.
// vrt:weight 6
func H_C09_programs() {
	d := map[string]any{}
	e := expr9(d, quick(2, 3))
	switch vrt.Choice(6) {
	case 0:
		e = "{{ " + e + " }}"
	case 1:
		e = "{{ y = " + e + "; y; y.a }}"
	case 2:
		e = "@dump(" + e + ")"
	case 3:
		e = "@if(" + e + ")1@else 2@end"
	case 4:
		e = "@each(e in " + e + "){{ e }}{{ loop.first }}@end"
	case 5:
		e = "@for(i = " + e + "; i < 3; i++){{ i }}@breakIf(i.str().len() > 0)@end"
	}
	crashless(e, d, "program")
}

// H_C09_data: data maps holding nil pointers at any depth, nil maps and slices, deep and self-referencing values, unsupported values, unusual keys: printing, dumping and walking them.
// vrt:weight 2
func H_C09_data() {
	var x any
	n := vrt.Int64()
	switch vrt.Choice(16) {
	case 0:
		x = (*int)(nil)
	case 1:
		p := (*string)(nil)
		x = &p
	case 2:
		x = []*inner{nil, {}, {V: []any{(*inner)(nil)}}}
	case 3:
		x = map[string]*inner{"a": nil, "b": {Next: nil}}
	case 4:
		x = map[string]any(nil)
	case 5:
		x = []any(nil)
	case 6:
		x = inner{Next: &inner{Next: &inner{V: n}}}
	case 7:
		c := &inner{V: n}
		c.Next = c
		x = c
	case 8:
		c := []any{n, nil}
		c[1] = c
		x = c
	case 9:
		c := map[string]any{"a": n}
		c["v"] = c
		x = c
	case 10:
		x = []any{func() {}}
	case 11:
		x = map[string]any{"a": make(chan int)}
	case 12:
		x = &inner{V: [1]int{1}}
	case 13:
		x = map[int]int{1: 2}
	case 14:
		x = &inner{V: complex(1, 1), Next: &inner{}}
	case 15:
		x = struct {
			error
			A any
		}{nil, nil}
	}
	key := pick("x", "x", "loop", "", "\u00e9", "if")
	d := map[string]any{key: x, "n": n}
	if key == "x" {
		d[""] = 1
	}
	src := pick("{{ x }}", "@dump(x)", "{{ x.a }}", "{{ x.v }}", "{{ x.next.v }}", "{{ x[0] }}", "@each(e in x){{ e }}@end", "{{ n }}", "{{ x ? 1 : 2 }}", "{{ [x].contains(x) }}", "{{ x == x }}", "{{ x.b.next }}", "{{ loop }}")
	out, err := tw.EvaluateString("\n\n"+src, d)
	if err != nil {
		_, line, msg, ok := errText(err.Error())
		vrt.Assert(ok && msg != "", "data: the error is a Textwire error")
		vrt.Assert(line == 3 || line <= 1, "data: the error carries the line of the construct, or none for the data itself")
		return
	}
	vrt.Assert(strings.HasPrefix(out, "\n\n"), "data: output")
}

// H_C09_tree: operands of any kind as component arguments, expression inserts, slot and insert bodies, of a page with layout and component, and a component argument
// that is named like a variable of another kind or like loop: (*Template).String returns output or an error with line and path.
// vrt:weight 3
func H_C09_tree() {
	d := map[string]any{}
	x := soup(d)
	page := pick(
		"@component('c', {a: "+x+"})",
		"@component('c', {a: "+x+", b: "+x+"})@component('c', {a: 1})",
		"{{ a = 1 }}@component('c', {a: "+x+"})",
		"@component('c', {loop: "+x+"})",
		"@component('c', {"+pick("'', x", "v0", "'a': 1, v0")+"})",
		"@component('c', {a: 1})@slot{{ "+x+" }}@end@slot('s'){{ "+x+".a }}@end@end",
		"@use('l')@insert('t', "+x+")",
		"@use('l')@insert('t'){{ "+x+".len() }}@end",
		"@use('l')@insert('t')@each(e in "+x+"){{ e }}@end@end",
		"@each(e in [1, 2])@component('c', {a: e})@slot('s'){{ "+x+" }}@end@end@end",
		"@each(e in "+x+")@component('c', {a: e})@end",
		"@if("+x+")@component('c', {a: "+x+"})@end",
	)
	comp := pick("{{ a }}", "{{ a.b }}@slot[@slot('s')]", "@each(q in a){{ q }}@end", "{{ a + 1 }}", "@slot('s'){{ a[0] }}", "@for(i = a; i < 1; i++)@break@end")
	t, err := site("p", page, "l", "<@reserve('t')>", "c", comp)
	if err != nil {
		_, _, msg, ok := errText(err.Error())
		vrt.Assert(ok && msg != "", "tree: load error is a Textwire error")
		return
	}
	out, ferr := t.String("p", d)
	if ferr != nil {
		vrt.Assert(ferr.Line() == 1, "tree: the error carries the line of the construct")
		vrt.Assert(ferr.Filepath() != "" && ferr.Message() != "", "tree: the error carries file and message")
		return
	}
	vrt.Observe("out", out)
}

// H_C09_argkinds: every built-in on two receivers of its kind with 0..2 arguments, each nil, a number, a string, an empty or non-empty array, an object, true or an undefined name.
// vrt:weight 2
func H_C09_argkinds() {
	g := builtins[vrt.Choice(len(builtins))]
	x := ""
	switch g.recv {
	case 's':
		x = pick("''", "'ab'")
	case 'a':
		x = pick("[]", "[nil, 2]")
	case 'i':
		x = pick("0", "(-7)")
	case 'f':
		x = pick("0.0", "(-2.5)")
	default:
		x = pick("true", "false")
	}
	arg := ""
	for i, n := 0, vrt.Choice(3); i < n; i++ {
		if i > 0 {
			arg += ", "
		}
		arg += pick("nil", "1", "'a'", "2.5", "[]", "[1]", "{a: 1}", "true", "nope")
	}
	src := "{{ " + x + "." + g.name + "(" + arg + ") }}"
	if g.name == "rand" || g.name == "shuffle" {
		src = "{{ y = " + x + "." + g.name + "(" + arg + "); 1 }}"
	}
	crashless(src, nil, "arguments of any kind")
}

// H_C09_results: the result of every built-in (receivers and arguments from the edges: empty, one element, whole range) is consumed: dumped, printed within an array and an object, indexed, iterated over, compared,
// used as condition, and passed on to any other built-in, as its receiver or as its argument.
// vrt:weight 1
func H_C09_results() {
	g := builtins[vrt.Choice(len(builtins))]
	x := ""
	switch g.recv {
	case 's':
		x = pick("''", "'a é'", "s")
	case 'a':
		x = pick("[]", "[1]", "a")
	case 'i':
		x = pick("i", "7")
	case 'f':
		x = pick("f", "2.5")
	default:
		x = pick("true", "b")
	}
	k := vrt.Choice(11)
	arg := ""
	if k < 10 {
		arg = pick("", "0", "1", "1, 1", "''", "'-', 2", "nil", "[]")
	} else {
		arg = pick("", "1", "'-', 2")
	}
	e := x + "." + g.name + "(" + arg + ")"
	if g.name == "rand" || g.name == "shuffle" {
		e = "[" + e + "].slice(1)"
	}
	d := map[string]any{"s": "\xffz", "a": []any{nil, []any{}, map[string]any{}, "b"}, "b": vrt.Bool(), "i": int64(-7), "f": -0.5}
	switch x {
	case "i":
		d["i"] = []int64{-7, math.MinInt64, math.MaxInt64}[vrt.Choice(3)]
	case "f":
		d["f"] = []float64{-0.5, 1e18, 0}[vrt.Choice(3)]
	}
	src := ""
	switch k {
	case 0:
		src = "@dump(" + e + ")"
	case 1:
		src = "@dump([" + e + "], {k: " + e + "})"
	case 2:
		src = "{{ [" + e + ", {k: " + e + "}] }}"
	case 3:
		src = "{{ " + e + "[0] }}"
	case 4:
		src = "@each(q in " + e + "){{ loop.last }}{{ q }}@else none@end"
	case 5:
		src = "{{ " + e + " == " + e + " }}"
	case 6:
		src = "@if(" + e + ")1@else 0@end"
	case 7:
		src = "{{ y = " + e + "; y = " + e + " }}{{ y }}{{ y + y }}"
	case 8:
		src = "{{ " + e + ".k }}"
	case 9:
		src = "{{ -" + e + " }}{{ " + e + "++ }}"
	default:
		h := builtins[vrt.Choice(len(builtins))]
		if h.name == "rand" || h.name == "shuffle" {
			src = "{{ y = " + e + "." + h.name + "(); 1 }}"
			break
		}
		src = "{{ " + pick(e+"."+h.name+"()", e+"."+h.name+"("+e+")", x+"."+h.name+"("+e+")", e+"."+h.name+"(1, 2)") + " }}"
	}
	crashless(src, d, "result of a built-in")
}
