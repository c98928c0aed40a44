package hs

import (
	"strings"

	tw "github.com/textwire/textwire/v2"
	"vh/vrt"
)

// componentFile is a symbolic component: text, arguments a and b, a data variable, placeholders of the default slot
// and of slot s (alone, twice, in @if and in @each).
func componentFile() (src string, show func(args, slots map[string]string) string, dflt, named bool) {
	switch vrt.Choice(9) {
	case 0:
		return "<{{ a }}>", func(a, s map[string]string) string { return "<" + a["a"] + ">" }, false, false
	case 1:
		return "{{ a }}[@slot]{{ v }}", func(a, s map[string]string) string { return a["a"] + "[" + s[""] + "]" + a["v"] }, true, false
	case 2:
		return "(@slot('s')){{ a }}\n@slot", func(a, s map[string]string) string { return "(" + s["s"] + ")" + a["a"] + "\n" + s[""] }, true, true
	case 3:
		return "@if(true)@slot('s')@end:{{ a }}", func(a, s map[string]string) string { return s["s"] + ":" + a["a"] }, false, true
	case 4:
		return "@slot('s')@slot('s')", func(a, s map[string]string) string { return s["s"] + s["s"] }, false, true
	case 5:
		return "@each(q in [1, 2]){{ q }}@slot@end@slot('s')", func(a, s map[string]string) string { return "1" + s[""] + "2" + s[""] + s["s"] }, true, true
	case 6:
		return "@if(false)@slot@else{{ a }}@slot('s')@end", func(a, s map[string]string) string { return a["a"] + s["s"] }, true, true
	case 7:
		return "", func(a, s map[string]string) string { return "" }, false, false
	}
	return "{{ a = a; b = v }}{{ b }}<@slot('s')>{{ a }}@slot\n", func(a, s map[string]string) string {
		return a["v"] + "<" + s["s"] + ">" + a["a"] + s[""] + "\n"
	}, true, true
}

// use is one symbolic use of component c whose argument a is the given expression and shows aw.
func use(name, a, aw, vw string, show func(args, slots map[string]string) string, dflt, named bool, tag string) (src, want string) {
	slots := map[string]string{}
	src = "@component('" + name + "', {" + pick("", "\n ") + "a: " + a + pick("", ", b: v") + "})"
	ws := ""
	if vrt.Choice(2) == 1 {
		ws = "\n  "
	}
	body := ""
	one := func(head, n string) {
		switch vrt.Choice(6) {
		case 0:
			body += ws + head + "S" + tag + n + "@end"
			slots[n] = "S" + tag + n
		case 5:
			w := pick(" ", "\n\t", "0", "\r\n ")
			body += ws + head + w + "@end"
			slots[n] = w
		case 1:
			body += ws + head + "\n{{ v }}<b>" + tag + "@end"
			slots[n] = "\n" + vw + "<b>" + tag
		case 2:
			body += ws + head + "@end"
			slots[n] = ""
		case 3:
			body += ws + head + "@if(v == v){{ v }}" + tag + "@else no@end.@end"
			slots[n] = vw + tag + "."
		case 4:
		}
	}
	if named {
		one("@slot('s')", "s")
	}
	if dflt {
		one("@slot", "")
	}
	if body != "" {
		src += body + ws + "@end"
	}
	return src, show(map[string]string{"a": aw, "v": vw}, slots)
}

// H_C07_use: one use of a component (nine files with arguments and placeholders in every position; slot bodies of
// five kinds or none; argument from data, literal, expression) at top level, in @if, @else, @each, @for, in an insert and in two nested blocks,
// data with symbolic values.
// vrt:weight 3
func H_C07_use() {
	v, x := vrt.Int64(), vrt.Int64()
	data := map[string]any{"v": v, "x": x, "t": true}
	comp, show, d, n := componentFile()
	a, aw := "x", i64(x)
	switch vrt.Choice(4) {
	case 1:
		a, aw = "'lit'", "lit"
	case 2:
		a, aw = "x + 1", i64(x+1)
	case 3:
		a, aw = "[x, v]", i64(x)+", "+i64(v)
	}
	src, want := use("c", a, aw, i64(v), show, d, n, "1")
	lay := ""
	switch vrt.Choice(7) {
	case 0:
		src, want = "A"+src+"B", "A"+want+"B"
	case 1:
		src, want = "@if(t)"+src+"@end.", want+"."
	case 2:
		src, want = "@if(!t)x@else"+src+"@end", want
	case 3:
		src, want = "@each(q in [1, 2])"+src+",@end", want+","+want+","
	case 4:
		src, want = "@for(q = 0; q < 2; q++)"+src+"@end", want+want
	case 5:
		src, want, lay = "@use('l')@insert('t')"+src+"@end", "<"+want+">", "<@reserve('t')>"
	case 6:
		src, want = "@each(q in [1])@if(q == 1)"+src+"@end@end", want
	}
	files := []string{"p", src, "c", comp}
	if lay != "" {
		files = append(files, "l", lay)
	}
	t, err := site(files...)
	vrt.Assert(err == nil, "use: the templates load")
	if err == nil {
		shows(t, "p", data, want, "use")
	}
}

// H_C07_two: two uses of one component with their own arguments and slots (each slot passed or not), next to each other,
// in different blocks, or one after the other around another component.
// vrt:weight 3
func H_C07_two() {
	v, x := vrt.Int64(), vrt.Int64()
	data := map[string]any{"v": v, "x": x, "t": true}
	comp, show, d, n := componentFile()
	s1, w1 := use("c", "x", i64(x), i64(v), show, d, n, "1")
	s2, w2 := use("c", "'two'", "two", i64(v), show, d, n, "2")
	var src, want string
	switch vrt.Choice(4) {
	case 0:
		src, want = s1+"|"+s2, w1+"|"+w2
	case 1:
		src, want = "@if(t)"+s1+"@end@if(t)"+s2+"@end", w1+w2
	case 2:
		src, want = s1+"@component('o', {a: 5})"+s2, w1+"o5"+w2
	case 3:
		src, want = "@each(q in [1, 2])"+s1+s2+"@end", w1+w2+w1+w2
	}
	t, err := site("p", src, "c", comp, "o", "o{{ a }}")
	vrt.Assert(err == nil, "two uses: the templates load")
	if err == nil {
		shows(t, "p", data, want, "two uses")
		shows(t, "p", data, want, "two uses, rendered again")
	}
}

// H_C07_loop: a use in a loop gets the values of each pass (element, loop metadata, counter) as arguments and in slot
// bodies, for 0..3 elements with symbolic values, in @each and @for, with two uses per pass.
// vrt:weight 2
func H_C07_loop() {
	n := vrt.Choice(4)
	var a []int64
	for i := 0; i < n; i++ {
		a = append(a, vrt.Int64())
	}
	data := map[string]any{"arr": a, "n": int64(n)}
	comp := "<{{ a }}@slot('s')@slot>"
	var src, want string
	switch vrt.Choice(4) {
	case 0:
		src = "@each(e in arr)@component('c', {a: e})@slot('s'){{ e }}:@end@slot {{ loop.index }}@end@end@end"
		for i := range a {
			want += "<" + i64(a[i]) + i64(a[i]) + ": " + itoa(i) + ">"
		}
	case 1:
		src = "@for(i = 0; i < n; i++)@component('c', {a: arr[i]})@slot{{ i }}@end@end@end"
		for i := range a {
			want += "<" + i64(a[i]) + itoa(i) + ">"
		}
	case 2:
		src = "@each(e in arr)@component('c', {a: e})@component('c', {a: loop.iter})@slot('s'){{ e }}@end@end@end"
		for i := range a {
			want += "<" + i64(a[i]) + "><" + itoa(i+1) + i64(a[i]) + ">"
		}
	case 3:
		src = "@each(e in arr)@if(loop.first)@component('c', {a: 'f'})@slot(\"s\")!@end@end@else@component('c', {a: e})@end@end"
		for i := range a {
			if i == 0 {
				want += "<f!>"
			} else {
				want += "<" + i64(a[i]) + ">"
			}
		}
	}
	t, err := site("p", src, "c", comp)
	vrt.Assert(err == nil, "loop: the templates load")
	if err == nil {
		shows(t, "p", data, want, "use in a loop")
	}
}

// H_C07_names: slots of symbolic names (1..2 characters) land in the placeholder of their name; an undeclared one is
// reported at load, naming the component.
func H_C07_names() {
	set := "abA0 -_.é"
	p1, p2, in := vrt.Str(1+vrt.Choice(2), set), vrt.Str(1, set), vrt.Str(1+vrt.Choice(2), set)
	vrt.Assume(p1 != p2)
	page := "@component('comp')@slot('" + in + "')X@end@end"
	t, err := site("p", page, "comp", "1@slot('"+p1+"')2@slot(\""+p2+"\")3")
	if in != p1 && in != p2 {
		vrt.Assert(err != nil && t == nil, "an undeclared slot is reported at load")
		if err != nil {
			vrt.Assert(strings.Contains(err.Error(), "'comp'"), "the error names the component")
		}
		return
	}
	vrt.Assert(err == nil, "names: the templates load")
	if err != nil {
		return
	}
	want := "1X23"
	if in == p2 {
		want = "12X3"
	}
	shows(t, "p", nil, want, "slot names")
}

// H_C07_faults: an undeclared slot (named, default), a slot passed twice (named, default, in the first, second or a nested use), a
// missing component file (plain name, alias, in a block, in an insert, in a slot body): reported when the templates are loaded, naming the component.
func H_C07_faults() {
	pre := vrt.Str(1, bytesWithout("{@\\"))
	good := "@component('comp')@slot('s')x@end@end"
	comp := "@slot('s')"
	var src string
	name := "comp"
	switch vrt.Choice(14) {
	case 0:
		src = "@component('comp')@slot('zz')x@end@end"
	case 1:
		src = "@component('comp')@slot x@end@end"
	case 2:
		src = "@component('comp')@slot('s')x@end@slot('s')y@end@end"
	case 3:
		src = "@component('comp')@slot x@end\n@slot y@end@end"
		comp = "@slot"
		good = ""
	case 4:
		src = good + "@component('comp')@slot('s')x@end\n@slot('zz')y@end@end"
	case 5:
		src = "@if(true)@component('comp')@slot('s')x@end@slot('s')x@end@end@end" + good
	case 6:
		src, name = good+"@component('none')", "none"
	case 7:
		src, name = "@component('~none')"+good, "none"
	case 8:
		src, name = "@each(x in [])@component('none', {a: 1})@end", "none"
	case 9:
		src, name = "@use('l')@insert('t')@component('none')@end", "none"
	case 10:
		src, name = "@component('comp')@slot('s')@component('none')@end@end", "none"
	case 11:
		src, name = "@if(false)@component('sub/none')@slot x@end@end@end", "sub/none"
	case 12:
		src = "@use('l')@insert('t')@component('comp')@slot('zz')@end@end@end"
	case 13:
		src = good + "@component('comp')@slot('s')x@end@end@component('comp')@slot('S')x@end@end"
	}
	t, err := site("a", "fine", "p", pre+src, "comp", comp, "l", "@reserve('t')", "z", "fine")
	vrt.Assert(err != nil, "the fault is reported at load")
	vrt.Assert(t == nil, "no template with an error")
	if err != nil {
		vrt.Assert(strings.Contains(err.Error(), name), "the error names the component")
		vrt.Assert(strings.Contains(err.Error(), "/tpl/p.tw"), "the error has the path of the page")
	}
}

// H_C07_alias: '~name' means components/name, for symbolic names, in page, block, insert; the same name without the
// alias is another file; page variables and data are visible inside, arguments win over them.
func H_C07_alias() {
	n := vrt.Str(1+vrt.Choice(2), "abz0~_-") + pick("", "/~e")
	vrt.Assume(n[0] != '~')
	v := vrt.Int64()
	var t *tw.Template
	t, err := site("pp", "{{ u = v }}@component('~"+n+"', {a: u})@component('"+n+"')@component('components/"+n+"', {a: 2, v: 3})", "components/"+n, "C{{ a }}{{ v }}", n, "R{{ u }}")
	vrt.Assert(err == nil, "alias: the templates load")
	if err != nil {
		return
	}
	V := i64(v)
	shows(t, "pp", map[string]any{"v": v}, "C"+V+V+"R"+V+"C23", "alias")
}

// H_C07_args: the arguments are evaluated at the place of use: several keys in any order, trailing comma, shorthand
// values of every kind, keys that shadow page variables of the same type; a failing argument fails the render.
func H_C07_args() {
	data := map[string]any{}
	a, av := kindVal("x", data)
	b, bv := kindVal("y", data)
	k := vrt.Choice(5)
	var arg, want string
	ta, tb := evalText(av), evalText(bv)
	switch k {
	case 0:
		arg, want = "{k: "+a+", m: "+b+"}", ta+"|"+tb
	case 1:
		arg, want = "{m: "+b+", k: "+a+"}", ta+"|"+tb
	case 2:
		arg, want = "{\n\"k\": "+a+",\n'm': "+a+"\n}", ta+"|"+ta
	case 3:
		arg, want = "{k: true ? "+a+" : 1, m: ["+b+"][0]}", ta+"|"+tb
	case 4:
		t, err := site("p", "@component('c', {k: "+a+", m: nope})", "c", "x")
		vrt.Assert(err == nil, "failing argument: the templates load")
		if err == nil {
			_, ferr := t.String("p", data)
			vrt.Assert(ferr != nil, "a failing argument fails the render")
		}
		return
	}
	t, err := site("p", "@component('c', "+arg+")", "c", "{{ k }}|{{ m }}")
	vrt.Assert(err == nil, "arguments: the templates load")
	if err == nil {
		shows(t, "p", data, want, "arguments")
	}
}

// H_C07_shadow: arguments whose names are those of surrounding variables and whose values use these variables (swapped, chained, in any order of
// writing, in page, @each, @for, insert and slot-less or slotted uses): every value is that of the place of use, and after the use the surrounding variables are as before.
// vrt:weight 2
func H_C07_shadow() {
	a, b := vrt.Int64(), vrt.Int64()
	data := map[string]any{"a": a, "b": b, "t": true}
	A, B := i64(a), i64(b)
	args, wa, wb := "", "", ""
	switch vrt.Choice(8) {
	case 0:
		args, wa, wb = "a: b, b: a", B, A
	case 1:
		args, wa, wb = "b: a, a: b", B, A
	case 2:
		args, wa, wb = "a: a, b: b", A, B
	case 3:
		args, wa, wb = "a: a + 1, b: a + 2", i64(a+1), i64(a+2)
	case 4:
		args, wa, wb = "b: b + 1, a: b", B, i64(b+1)
	case 5:
		args, wa, wb = "b: [b, a][1], a: {a: b}.a", B, A
	case 6:
		args, wa, wb = "a: t ? b : a", B, B
	case 7:
		args, wa, wb = "b: a", A, A
	}
	slot, ws := "", ""
	if vrt.Choice(2) == 1 {
		slot, ws = "@slot('s')x@end@end", "x"
	}
	use := "@component('c', {" + args + "})" + slot
	one := "<" + wa + " " + wb + ws + ">"
	after := A + "," + B
	var src, want, lay string
	switch vrt.Choice(6) {
	case 0:
		src, want = use+"{{ a }},{{ b }}", one+after
	case 1:
		src, want = use+use+"{{ a }},{{ b }}", one+one+after
	case 2:
		src, want = "@each(i in [1, 2])"+use+"@end{{ a }},{{ b }}", one+one+after
	case 3:
		src, want = "@for(i = 0; i < 2; i++)@if(t)"+use+"@end@end{{ a }},{{ b }}", one+one+after
	case 4:
		src, want, lay = "@use('l')@insert('t')"+use+"{{ a }},{{ b }}@end", one+after, "@reserve('t')"
	case 5:
		src, want = "{{ a = a; b = b }}@if(t)"+use+"@else x@end{{ a }},{{ b }}", one+after
	}
	files := []string{"p", src, "c", "<{{ a }} {{ b }}@slot('s')>"}
	if lay != "" {
		files = append(files, "l", lay)
	}
	t, err := site(files...)
	vrt.Assert(err == nil, "shadow: the templates load")
	if err == nil {
		shows(t, "p", data, want, "arguments named like surrounding variables")
	}
}

// H_C07_bare: a component without arguments, slots, or both, that shows variables of the place of use (data, assigned before, loop variable, counter, loop object), used once, twice and in
// loops of 0..3 passes, in a page that is rendered twice with different data.
// vrt:weight 2
func H_C07_bare() {
	n := vrt.Choice(4)
	e := []int64{vrt.Int64(), vrt.Int64(), vrt.Int64()}[:n]
	v1, v2 := vrt.Int64(), vrt.Int64()
	use := pick("@component('c')", "@component(\"c\")", "@component('c', {})", "@component('c')@slot('s')@end@end")
	comp, src := "", ""
	var show func(i int, v int64) string
	switch vrt.Choice(5) {
	case 0:
		comp, src = "<{{ e }}>@slot('s')", "@each(e in arr)"+use+"@end"
		show = func(i int, v int64) string { return "<" + i64(e[i]) + ">" }
	case 1:
		comp, src = "<{{ i }}{{ v }}>@slot('s')", "@for(i = 0; i < arr.len(); i++)"+use+"@end"
		show = func(i int, v int64) string { return "<" + itoa(i) + i64(v) + ">" }
	case 2:
		comp, src = "@slot('s'){{ loop.index }}{{ v }}", "@each(e in arr)"+use+"@end"
		show = func(i int, v int64) string { return itoa(i) + i64(v) }
	case 3:
		comp, src = "@if(u == 1){{ u }}@else{{ e }}@end@slot('s')", "@each(e in arr){{ u = loop.iter }}"+use+use+"@end"
		show = func(i int, v int64) string {
			w := i64(e[i])
			if i == 0 {
				w = "1"
			}
			return w + w
		}
	case 4:
		comp, src = "{{ v }}@slot('s')", "@each(e in arr)@if(loop.first)"+use+"@end{{ v }}"+use+"@end"
		show = func(i int, v int64) string {
			w := i64(v) + i64(v)
			if i == 0 {
				w = i64(v) + w
			}
			return w
		}
	}
	tail := vrt.Choice(2) == 1
	t, err := site("p", src+"|"+map[bool]string{true: "@if(true)@component('c2')@end"}[tail], "c", comp, "c2", "{{ v }}")
	vrt.Assert(err == nil, "bare: the templates load")
	if err != nil {
		return
	}
	for _, v := range []int64{v1, v2} {
		want := ""
		for i := range e {
			want += show(i, v)
		}
		out, ferr := t.String("p", map[string]any{"arr": e, "v": v})
		vrt.Assert(ferr == nil, "bare: renders")
		if ferr != nil {
			vrt.Observe("err", ferr.String())
			return
		}
		if want += "|"; tail {
			want += i64(v)
		}
		vrt.AssertEq(out, want, "bare: variables of the place of use")
		// the second time other elements
		for i := range e {
			e[i] = int64(7 - i)
		}
	}
}

// H_C07_mixed: two or three uses of one component, each of its own form (without anything, with arguments, with either slot or both, with arguments and slots), next to each other or in
// different blocks, also with a use of another component with the same slots between them: each shows its own arguments and slots.
// vrt:weight 2
func H_C07_mixed() {
	v, x := vrt.Int64(), vrt.Int64()
	data := map[string]any{"v": v, "x": x}
	form := func(name, tag string) (string, string) {
		arg, w := "", i64(v)
		switch vrt.Choice(3) {
		case 1:
			arg, w = ", {v: x}", i64(x)
		case 2:
			arg = ", {}"
		}
		s, d := "", ""
		body := ""
		if vrt.Choice(2) == 1 {
			body, s = "@slot('s')"+tag+"@end", tag
		}
		if vrt.Choice(2) == 1 {
			body, d = body+"@slot("+"'t'"+"){{ x }}"+tag+"@end", i64(x)+tag
		}
		if body != "" {
			body += "@end"
		}
		return "@component('" + name + "'" + arg + ")" + body, "[" + w + "|" + s + "|" + d + "]"
	}
	s1, w1 := form("c", "A")
	s2, w2 := form("c", "B")
	var src, want string
	switch vrt.Choice(5) {
	case 0:
		src, want = s1+s2, w1+w2
	case 1:
		src, want = "@if(true)"+s1+"@end@each(q in [1, 2])"+s2+"@end", w1+w2+w2
	case 2:
		s3, w3 := form("d", "C")
		src, want = s1+s3+s2, w1+w3+w2
	case 3:
		s3, w3 := form("c", "C")
		src, want = s1+s2+s3, w1+w2+w3
	case 4:
		src, want = "@if(false)"+s1+"@else@if(true)"+s2+"@end@end"+s1, w2+w1
	}
	comp := "[{{ v }}|@slot('s')|@slot('t')]"
	t, err := site("p", src, "c", comp, "d", comp)
	vrt.Assert(err == nil, "mixed: the templates load")
	if err == nil {
		shows(t, "p", data, want, "uses of different form")
	}
}

// H_C07_many: three slots with names that are prefixes of each other, differ in case, or are the default slot, passed in any order to a component that has these and other placeholders: each body lands in the placeholder of its name.
func H_C07_many() {
	names := []string{"", "s", "ss", "as", "S", "a s", "0", "default", "slot"}
	place := func(n, body string) string {
		if n == "" {
			return "@slot" + body
		}
		return "@slot('" + n + "')" + body
	}
	order := vrt.Choice(2)
	comp := ""
	for i := range names {
		if order == 1 {
			i = len(names) - 1 - i
		}
		comp += "<" + place(names[i], "") + ">"
	}
	passed := map[string]string{}
	src := "@component('c')"
	for i := 0; i < 3; i++ {
		n := names[vrt.Choice(len(names))]
		vrt.Assume(passed[n] == "")
		passed[n] = "B" + itoa(i)
		src += place(n, "B"+itoa(i)+"@end")
	}
	want := ""
	for i := range names {
		if order == 1 {
			i = len(names) - 1 - i
		}
		want += "<" + passed[names[i]] + ">"
	}
	t, err := site("p", src+"@end", "c", comp)
	vrt.Assert(err == nil, "many slots: the templates load")
	if err == nil {
		shows(t, "p", nil, want, "many slots")
	}
}

// H_C07_body: a slot body (default or named) of 1..4 out of eight constructs (text, braces, @if with and without @else, @each with @break, @for, assignment, literal,
// another component), passed to a component that has its placeholder two or three times, at top level, in branches and in a loop: each placeholder renders the whole body, with symbolic int64 data.
// vrt:weight 1
func H_C07_body() {
	v := tiny()
	data := map[string]any{"v": v, "t": true}
	body, out := "", ""
	for n := 1 + vrt.Choice(quick(3, 4)); n > 0; n-- {
		switch vrt.Choice(8) {
		case 0:
			body, out = body+"x", out+"x"
		case 1:
			body, out = body+"{{ v }}", out+i64(v)
		case 2:
			body, out = body+"@if(t)1@else 2@end", out+"1"
		case 3:
			body, out = body+"@if(!t)1@end\n", out+"\n"
		case 4:
			body, out = body+"@each(e in [3, 4]){{ e }}@break@end", out+"3"
		case 5:
			body, out = body+"@for(i = 0; i < 2; i++){{ i }}@end", out+"01"
		case 6:
			body, out = body+"{{ 'l' }}", out+"l"
		case 7:
			body, out = body+"@component('d', {a: v})", out+"("+i64(v)+")"
		}
	}
	head := pick("@slot", "@slot('n')")
	comp, want := "", ""
	switch vrt.Choice(5) {
	case 0:
		comp, want = head+"|"+head, out+"|"+out
	case 1:
		comp, want = "<"+head+"@if(t)"+head+"@end>"+head, "<"+out+out+">"+out
	case 2:
		comp, want = "@each(q in [1, 2])"+head+";@end"+head, out+";"+out+";"+out
	case 3:
		comp, want = "@if(!t)"+head+"@else"+head+"@end"+head, out+out
	case 4:
		comp, want = head+"@slot('other')"+head+"{{ v }}", out+out+i64(v)
	}
	t, err := site("p", "@component('c')"+head+body+"@end@end", "c", comp, "d", "({{ a }})")
	vrt.Assert(err == nil, "slot body: the templates load")
	if err == nil {
		shows(t, "p", data, want, "slot body")
	}
}
