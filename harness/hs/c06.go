package hs

import (
	"strings"

	tw "github.com/textwire/textwire/v2"
	"vh/vrt"
)

// site writes the files (pairs of name and content) into the template directory and loads them.
func site(files ...string) (*tw.Template, error) {
	for i := 0; i < len(files); i += 2 {
		vrt.Observe(files[i], files[i+1])
	}
	t, err := loadTree(tplConfig(), nil, files...)
	if err != nil {
		vrt.Observe("load", err.Error())
	}
	return t, err
}

// shows asserts that the page renders to want.
func shows(t *tw.Template, name string, data map[string]any, want, label string) {
	out, ferr := t.String(name, data)
	vrt.Assert(ferr == nil, label+": error instead of output")
	if ferr != nil {
		vrt.Observe("err", ferr.String())
		return
	}
	vrt.Observe("out", out)
	vrt.AssertEq(out, want, label)
}

// rejects asserts that loading fails or rendering the page does.
func rejects(name string, data map[string]any, label string, files ...string) {
	t, err := site(files...)
	if err != nil {
		vrt.Assert(t == nil, label+": no template with an error")
		vrt.Reach("load error")
		return
	}
	_, ferr := t.String(name, data)
	vrt.Assert(ferr != nil, label+": reported as an error")
	if ferr != nil {
		vrt.Observe("err", ferr.String())
		vrt.Reach("render error")
	}
}

// insert is a symbolic filling of a reserve: its source ("" for none) and what it shows.
func insert(name string, v int64, w string) (src, want string) {
	switch vrt.Choice(9) {
	case 0:
		return "", ""
	case 1:
		return "@insert('" + name + "')A" + name + "@end", "A" + name
	case 2:
		return "@insert(\"" + name + "\")\n<{{ v }}>@end", "\n<" + i64(v) + ">"
	case 3:
		return "@insert('" + name + "', v)", i64(v)
	case 4:
		return "@insert('" + name + "', w + \"!\")", w + "!"
	case 5:
		return "@insert('" + name + "')@end", ""
	case 6:
		return "@insert('" + name + "')@if(v > 3)big@else small@end@each(x in [1, 2]){{ x }}@end@end", map[bool]string{true: "big", false: " small"}[v > 3] + "12"
	case 7:
		return "@insert('" + name + "'){{ u = v; u }}@end", i64(v)
	}
	return "@insert('" + name + "', 'it')", "it"
}

// H_C06_fill: a layout with up to three reserves (at top level, in a taken or untaken @if, in a loop) between
// text with symbolic bytes and data, and a page with any of nine kinds of insert for each, in either order,
// with text around them that must not appear; data is an int64 and a string with symbolic values.
// vrt:weight 3
func H_C06_fill() {
	v := vrt.Int64()
	w := vrt.Str(1, "")
	cond := vrt.Bool()
	data := map[string]any{"v": v, "w": w, "c": cond}
	sa, wa := insert("a", v, w)
	sb, wb := insert("b", v, w)
	t0 := vrt.Str(1, bytesWithout("{@\\"))
	var lay, want string
	switch vrt.Choice(7) {
	case 0:
		lay, want = t0+"@reserve('a')-@reserve('b')", t0+wa+"-"+wb
	case 1:
		lay, want = "@reserve('b')\n@reserve('a')"+t0, wb+"\n"+wa+t0
	case 2:
		lay, want = "{{ v }}@if(c)@reserve('a')@end@reserve('b'){{ w }}", i64(v)
		if cond {
			want += wa
		}
		want += wb + w
	case 3:
		lay, want = "@each(q in [1, 2])(@reserve('a'))@end"+t0+"@reserve('b')", "("+wa+")("+wa+")"+t0+wb
	case 4:
		lay, want = "@if(c)x@else@reserve('a')@end@if(c)@if(true)@reserve('b')@end@end", ""
		if cond {
			want += "x" + wb
		} else {
			want += wa
		}
	case 5:
		lay, want = "@reserve('n')@reserve('a')@reserve('b')@reserve('m')", wa+wb
	case 6:
		lay, want = "\\{{ x }}@reserve(\"a\"){{-- @reserve('q') --}}@reserve('b')}}", "{{ x }}"+wa+wb+"}}"
	}
	name := pick("l", "~m", "s/d")
	file := name
	if name == "~m" {
		file = "layouts/m"
	}
	page := pick("", "lost\n") + "@use('" + name + "')" + pick("\n", "lost {{ v }}")
	if vrt.Choice(2) == 1 {
		page += sa + pick("", "\nlost") + sb
	} else {
		page += sb + "\n" + sa
	}
	page += pick("", "tail @if(c)lost@end\n")
	t, err := site("p", page, file, lay)
	vrt.Assert(err == nil, "layout: the templates load")
	if err != nil {
		return
	}
	shows(t, "p", data, want, "layout")
}

// H_C06_outside: page content outside of the inserts, of every construct (text, braces, assignment, @if, @each, @for, a component
// with and without slots, @dump, a comment, an escape), in one or two of the places before @use, between and after
// the inserts, does not appear; the inserts do not see what the reader does not see either: only the data of the call.
// vrt:weight 2
func H_C06_outside() {
	v := vrt.Int64()
	c := vrt.Bool()
	data := map[string]any{"v": v, "w": "q", "c": c}
	any := func() string {
		return pick("lost", "{{ v }}", "{{ 'lost' }}", "@if(c)lost@else gone@end", "@each(e in [1, 2])lost@end", "@each(e in [])x@else lost@end", "@for(i = 0; i < 2; i++)lost@end",
			"@component('k', {a: v})", "@component('k')@slot lost@end@end", "@dump(v)", "{{-- lost --}}", "\\{{ v }}", "\\@if(c)", "@if(true)@if(true){{ v }}@end@end", "{{ x = 'lost'; x }}", "@if(c)@end")
	}
	sa, wa := "@insert('a')A{{ v }}@end", "A"+i64(v)
	sb, wb := "@insert('b', v)", i64(v)
	var page string
	switch vrt.Choice(7) {
	case 0:
		page = any() + "@use('l')" + sa + sb
	case 1:
		page = "@use('l')" + any() + sa + sb
	case 2:
		page = "@use('l')" + sa + any() + sb
	case 3:
		page = "@use('l')" + sa + sb + any()
	case 4:
		page = any() + "@use('l')" + any() + sb + sa
	case 5:
		page = "@use('l')" + sb + any() + sa + any()
	case 6:
		page, wa, wb = any()+"@use('l')"+any(), "", ""
	}
	t, err := site("p", page, "l", "<@reserve('a')|@reserve('b')>", "k", "lost{{ v }}@slot")
	vrt.Assert(err == nil, "outside: the templates load")
	if err == nil {
		shows(t, "p", data, "<"+wa+"|"+wb+">", "content outside of inserts")
	}
}

// H_C06_expr: the expression form of @insert with every kind of value, and text with markup and quotes as data, in both forms: the
// value of the expression is what {{ }} shows in a page without layout, the block what its text shows.
// vrt:weight 2
func H_C06_expr() {
	data := map[string]any{"s": "a<b>&'\"é"}
	e, v := kindVal("x", data)
	want := evalText(v)
	switch vrt.Choice(8) {
	case 1:
		e, want = "s", "a<b>&'\"é"
	case 2:
		e, want = "'a; b'", "a; b"
	case 3:
		e, want = "true ? "+e+" : "+e, want
	case 4:
		e, want = "["+e+", "+e+"]", want+", "+want
	case 5:
		e, want = "{k: "+e+"}.k", want
	case 6:
		e, want = "("+e+")", want
	case 7:
		e, want = "'q'.upper() + 'r'", "Qr"
	}
	arg := pick(", ", ",", ",\n\t") + e
	t, err := site("p", "@use('l')@insert('a'"+arg+")", "q", "@use('l')@insert('a'){{ "+e+" }}@end", "r", "{{ "+e+" }}", "l", "@reserve('a')@if(true)@reserve('b')@end")
	vrt.Assert(err == nil, "expression: the templates load")
	if err == nil {
		shows(t, "p", data, want, "expression form")
		shows(t, "q", data, want, "block form")
		shows(t, "r", data, want, "without layout")
	}
}

// H_C06_bytes: an insert body and a layout of 0..3 (thorough 4) arbitrary bytes around the reserve: the output is the
// rendering of the layout text with the rendering of the body in place of the reserve.
func H_C06_bytes() {
	b := vrt.Str(vrt.Choice(quick(3, 4)), bytesWithout("{@\\"))
	l := vrt.Str(vrt.Choice(quick(3, 4)), bytesWithout("{@\\"))
	t, err := site("p", "@use('l')@insert('t')"+b+"@end", "l", l+"@reserve('t')"+l)
	vrt.Assert(err == nil, "bytes: the templates load")
	if err == nil {
		shows(t, "p", nil, l+b+l, "bytes")
	}
}

// H_C06_shared: two pages use one layout with different inserts, and a third page none of them: each shows its
// own, in any order of rendering and repeatedly, with its own data.
// vrt:weight 2
func H_C06_shared() {
	v1, v2 := vrt.Int64(), vrt.Int64()
	d1, d2 := map[string]any{"v": v1, "w": "q", "c": true}, map[string]any{"v": v2, "w": "r", "c": false}
	s1, w1 := insert("a", v1, "q")
	s2, w2 := insert("a", v2, "r")
	t, err := site("a/p1", "@use('~x')"+s1, "p2", "@use('~x')x"+s2+"@insert('b', v)", "p3", "plain", "p4", "@use('~x')", "layouts/x", "[@reserve('a')|@reserve('b')]")
	vrt.Assert(err == nil, "shared: the templates load")
	if err != nil {
		return
	}
	n1, n2 := "["+w1+"|]", "["+w2+"|"+i64(v2)+"]"
	for n := 3; n > 0; n-- {
		switch vrt.Choice(4) {
		case 0:
			shows(t, "a/p1", d1, n1, "first page")
		case 1:
			shows(t, "p2", d2, n2, "second page")
		case 2:
			shows(t, "p3", d1, "plain", "page without layout")
		case 3:
			shows(t, "p4", d2, "[|]", "page without inserts")
		}
	}
	_, ferr := t.String("layouts/x", d1)
	vrt.Assert(ferr != nil, "a layout is not a page")
}

// H_C06_names: names of reserves of 0..2 symbolic characters: an insert fills exactly the reserve of its name, and
// an insert whose name differs from every reserve is an error.
func H_C06_names() {
	set := "abA0 -_.é"
	r1, r2, in := vrt.Str(vrt.Choice(3), set), vrt.Str(1, set), vrt.Str(vrt.Choice(3), set)
	vrt.Assume(r1 != r2)
	page := "@use('l')@insert('" + in + "')X@end"
	lay := "1@reserve('" + r1 + "')2@reserve('" + r2 + "')3"
	if in != r1 && in != r2 {
		rejects("p", nil, "an insert without reserve", "p", page, "l", lay)
		return
	}
	t, err := site("p", page, "l", lay)
	vrt.Assert(err == nil, "names: the templates load")
	if err != nil {
		return
	}
	want := "1X23"
	if in == r2 {
		want = "12X3"
	}
	shows(t, "p", nil, want, "names")
}

// H_C06_faults: an insert that names no reserve, two inserts with one name (block and expression form), a missing
// layout file, a layout that itself uses a layout (existing, missing or itself), each in every position; a fault inside of an
// insert or of the layout fails the render.
func H_C06_faults() {
	v := vrt.Int64()
	data := map[string]any{"v": v, "w": "q"}
	s1, _ := insert("a", v, "q")
	k := vrt.Choice(15)
	lay := "<@reserve('a')@reserve('b')>"
	body := func() string { return pick("x", "", "\n", "{{ v }}", "@if(true)@end") }
	switch k {
	case 0:
		rejects("p", data, "insert without reserve", "p", "@use('l')"+s1+"@insert('zz')"+body()+"@end", "l", lay)
	case 1:
		rejects("p", data, "insert without reserve, expression", "p", "@use('l')@insert('zz', v)"+s1, "l", lay)
	case 2:
		rejects("p", data, "duplicate insert", "p", "@use('l')@insert('b')"+body()+"@end"+s1+"@insert('b')"+body()+"@end", "l", lay)
	case 3:
		rejects("p", data, "duplicate insert, expression first", "p", "@use('l')@insert('b', 1)@insert('b')y@end"+s1, "l", lay)
	case 4:
		rejects("p", data, "duplicate insert, expressions", "p", "@use('l')"+s1+"@insert('b', v)@insert('b', v)", "l", lay)
	case 5:
		rejects("p", data, "missing layout", "p", "@use('"+pick("zz", "~l", "l.tw", "P")+"')"+s1, "l", lay)
	case 6:
		rejects("p", data, "layout with a layout", "p", "@use('l')"+s1, "l", "@use('m')"+lay, "m", "@reserve('a')")
	case 7:
		rejects("p", data, "layout with a missing layout", "p", "@use('l')"+s1, "l", lay+"@use('zz')")
	case 8:
		rejects("p", data, "layout that uses itself", "p", "@use('l')"+s1, "l", "@use('l')"+lay)
	case 9:
		rejects("p", data, "fault in an insert", "p", "@use('l')"+s1+pick("@insert('b')"+"{{ nope }}@end", "@insert('b', nope)"), "l", lay)
	case 10:
		rejects("p", data, "fault in the layout", "p", "@use('l')"+s1, "l", lay+"{{ nope }}")
	case 11:
		rejects("p", data, "duplicate insert, block first", "p", "@use('l')@insert('b')"+body()+"@end"+s1+"@insert('b', "+pick("v", "''", "nil", "0")+")", "l", lay)
	case 12:
		rejects("p", data, "insert without reserve, value", "p", "@use('l')"+s1+"@insert('zz', "+pick("''", "nil", "0", "false", "[]")+")", "l", lay)
	case 13:
		rejects("p", data, "insert in a layout without reserves", "p", "@use('l')@insert('a')"+body()+"@end", "l", pick("plain", "", "{{ v }}"))
	case 14:
		rejects("p", data, "two faults", "p", "@use('l')@insert('zz')"+body()+"@end@insert('yy')"+body()+"@end", "l", lay)
	}
	if strings.HasPrefix(s1, "@insert('b") {
		panic("unreachable")
	}
}

// H_C06_alias: '~name' names layouts/name and nothing else, for names of symbolic characters, also nested.
func H_C06_alias() {
	n := vrt.Str(1+vrt.Choice(2), "abz0~_-") + pick("", "/d", ".x", "~", "/~e")
	vrt.Assume(n[0] != '~')
	t, err := site("p", "@use('~"+n+"')@insert('a')X@end", "layouts/"+n, "in layouts:@reserve('a')", n, "wrong:@reserve('a')", "q", "@use('"+n+"')@insert('a', 1)", "r", "@use(\"layouts/"+n+"\")")
	vrt.Assert(err == nil, "alias: the templates load")
	if err != nil {
		return
	}
	shows(t, "p", nil, "in layouts:X", "alias")
	shows(t, "q", nil, "wrong:1", "plain name")
	shows(t, "r", nil, "in layouts:", "full name")
}
