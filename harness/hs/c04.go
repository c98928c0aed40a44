package hs

import (
	"strings"

	tw "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"
	"vh/vrt"
)

// scope is the reference environment: one map of bound values per open block.
type scope struct{ vars []map[string]val }

func (s *scope) push() { s.vars = append(s.vars, map[string]val{}) }
func (s *scope) pop()  { s.vars = s.vars[:len(s.vars)-1] }

func (s *scope) get(n string) (val, bool) {
	for i := len(s.vars) - 1; i >= 0; i-- {
		if v, ok := s.vars[i][n]; ok {
			return v, true
		}
	}
	return val{}, false
}

// set binds n in the innermost block; false when n is visible with another type.
func (s *scope) set(n string, v val) bool {
	if n == "loop" {
		return false
	}
	if o, ok := s.get(n); ok && o.k != v.k {
		return false
	}
	s.vars[len(s.vars)-1][n] = v
	return true
}

// prog builds a template and its reference outcome side by side.
type prog struct {
	src, out strings.Builder
	env      scope
	data     map[string]any
	n        int
	dead     bool // the statement at hand is not executed
	fail     bool
}

func (p *prog) live() bool { return !p.dead && !p.fail }

func (p *prog) value() (string, val) {
	name := "d" + itoa(p.n)
	p.n++
	switch vrt.Choice(3) {
	case 0:
		x := vrt.Int64()
		p.data[name] = x
		v := val{k: 'i', i: x}
		p.env.vars[0][name] = v
		return name, v
	case 1:
		return "'s" + itoa(p.n) + "'", val{k: 's', s: "s" + itoa(p.n)}
	}
	return itoa(p.n) + ".5", val{k: 'f', f: float64(p.n) + 0.5}
}

func (v val) text() string {
	switch v.k {
	case 'i':
		return i64(v.i)
	case 's':
		return v.s
	case 'f':
		return itoa(int(v.f)) + ".5"
	}
	return ""
}

func (p *prog) assign(name string) {
	src, v := p.value()
	p.src.WriteString("{{ " + name + " = " + src + " }}")
	if p.live() && !p.env.set(name, v) {
		p.fail = true
	}
}

func (p *prog) read(name string) {
	p.src.WriteString("[{{ " + name + " }}]")
	if !p.live() {
		return
	}
	v, ok := p.env.get(name)
	if !ok {
		p.fail = true
		return
	}
	p.out.WriteString("[" + v.text() + "]")
}

func (p *prog) stmts(n, depth int, names []string) {
	for ; n > 0 && !p.fail; n-- {
		k := 6
		if depth == 0 {
			k = 2
		}
		name := names[vrt.Choice(len(names))]
		switch vrt.Choice(k) {
		case 0:
			p.assign(name)
		case 1:
			p.read(name)
		case 2: // @if / @else with a symbolic condition
			c := "c" + itoa(p.n)
			p.n++
			cv := vrt.Bool()
			p.data[c] = cv
			p.src.WriteString("@if(" + c + ")")
			p.block(cv, func() { p.stmts(1+vrt.Choice(2), depth-1, names) })
			p.src.WriteString("@else")
			p.block(!cv, func() { p.stmts(1, 0, names) })
			p.src.WriteString("@end")
		case 3: // @each of one element binds name
			src, v := p.value()
			p.src.WriteString("@each(" + name + " in [" + src + "])")
			p.block(true, func() {
				if p.live() && !p.env.set(name, v) {
					p.fail = true
				}
				p.stmts(1+vrt.Choice(2), depth-1, names)
			})
			p.src.WriteString("@end")
		case 4: // @for with one pass binds name
			p.src.WriteString("@for(" + name + " = 7; " + name + " == 7; " + name + "++)")
			p.block(true, func() {
				if p.live() && !p.env.set(name, val{k: 'i', i: 7}) {
					p.fail = true
				}
				// an assignment to the counter would change the number of passes
				p.stmts(1+vrt.Choice(2), 0, others(names, name))
				p.read(name)
			})
			p.src.WriteString("@end")
		case 5: // an else body of an empty loop
			p.src.WriteString("@each(" + name + " in [])x@else")
			p.block(true, func() { p.stmts(1, depth-1, names) })
			p.src.WriteString("@end")
		}
	}
}

func others(names []string, n string) []string {
	var r []string
	for _, x := range names {
		if x != n {
			r = append(r, x)
		}
	}
	return r
}

func (p *prog) block(live bool, f func()) {
	dead := p.dead
	p.dead = p.dead || !live
	p.env.push()
	f()
	p.env.pop()
	p.dead = dead
}

// H_C04_scopes: programs of 3..4 (thorough 5) statements out of assignments of int64 (symbolic), string and float values to
// two names, reads of them, @if/@else on a symbolic bool, @each over one element, one-pass @for and the @else body of
// an empty loop, nested two levels deep, then both names read: a scope chain with stable types decides output or error.
// vrt:weight 4
func H_C04_scopes() {
	p := &prog{data: map[string]any{}}
	p.env.push()
	names := []string{"x", "y"}
	if vrt.Choice(2) == 1 {
		v := vrt.Int64()
		p.data["x"] = v
		p.env.vars[0]["x"] = val{k: 'i', i: v}
	}
	p.stmts(3+vrt.Choice(quick(2, 3)), quick(2, 2), names)
	if !p.fail {
		p.read(names[vrt.Choice(2)])
	}
	outcome(p.src.String(), p.data, p.out.String(), p.fail, "scopes")
}

// H_C04_types: re-assigning a visible name (from data, an assignment, an enclosing block, a loop variable) with a value of
// any of seven kinds (arrays and objects also empty): the same kind rebinds, another kind is an error; in the same block, in a nested block, as loop variable.
// vrt:weight 2
func H_C04_types() {
	data := map[string]any{}
	a, va := kindVal("a", data)
	b, vb := kindVal("b", data)
	var pre string
	switch vrt.Choice(3) {
	case 0:
		data["x"] = va.native()
	case 1:
		pre = "{{ x = " + a + " }}"
	case 2:
		pre = "@if(true)@end{{ x = " + a + "; x = " + a + " }}"
	}
	same := va.k == vb.k
	var src, want string
	show := func(v val) string { return evalText(v) }
	switch vrt.Choice(8) {
	case 6: // the second pass binds the name with the kind of the first
		src, want = "@each(x in ["+a+", "+b+"]){{ x }},@end|", show(va)+","+show(vb)+",|"
		delete(data, "x")
	case 7:
		src, want = "@each(x in ["+a+"])@each(x in ["+b+"]){{ x }}@end{{ x }}@end|", show(vb)+show(va)+"|"
		delete(data, "x")
	case 0:
		src, want = pre+"{{ x = "+b+"; x }}", show(vb)
	case 1:
		src, want = pre+"@if(true){{ x = "+b+"; x }}@end|{{ x }}", show(vb)+"|"+show(va)
	case 2:
		src, want = pre+"@each(x in ["+b+"]){{ x }}@end|{{ x }}", show(vb)+"|"+show(va)
	case 3:
		src, want = pre+"@for(x = "+b+"; true;){{ x }}@break@end|{{ x }}", show(vb)+"|"+show(va)
	case 4:
		src, want = pre+"@if(false)@else@each(q in [1]){{ x = "+b+" }}{{ x }}@end@end|{{ x }}", show(vb)+"|"+show(va)
	case 5:
		src, want = "@each(x in ["+a+"]){{ x = "+b+" }}{{ x }}@end|", show(vb)+"|"
		delete(data, "x")
	}
	outcome(src, data, want, !same, "types")
}

// evalText is the printed form of v.
func evalText(v val) string {
	r := evalq("{{ zz }}", map[string]any{"zz": v.native()})
	vrt.Assert(!r.bad, "a value prints")
	return r.out
}

func kindVal(name string, data map[string]any) (string, val) {
	var v val
	switch vrt.Choice(9) {
	case 7:
		v = val{k: 'a'}
	case 8:
		v = val{k: 'o'}
	case 0:
		v = val{k: 'i', i: vrt.Int64()}
	case 1:
		v = val{k: 'f', f: []float64{0, 1.5}[vrt.Choice(2)]}
	case 2:
		v = val{k: 's', s: vrt.Str(1, "")}
	case 3:
		v = boolVal(vrt.Bool())
	case 4:
		v = val{k: 'n'}
	case 5:
		v = val{k: 'a', e: []val{{k: 'i', i: 1}}}
	case 6:
		v = val{k: 'o', s: "k", e: []val{{k: 'i', i: 1}}}
	}
	data[name] = v.native()
	return name, v
}

// H_C04_loop: the name loop is never assignable: by assignment at any depth, as @each or @for variable, as data;
// reading it in a loop still works; a name that merely starts or ends with loop or is spelled with other cases is ordinary.
func H_C04_loop() {
	data := map[string]any{}
	v, vv := kindVal("v", data)
	switch vrt.Choice(8) {
	case 0:
		fails("a{{ loop = "+v+" }}", data, "assignment to loop")
	case 1:
		fails("@each(x in [1])@if(true){{ loop = "+v+" }}@end@end", data, "assignment to loop in a loop")
	case 2:
		fails("@each(loop in ["+v+"])a@end", data, "loop as loop variable")
	case 3:
		fails("@for(loop = "+v+"; false;)a@end", data, "loop as counter")
	case 4:
		data["loop"] = vv.native()
		fails("a", data, "loop as data")
	case 5:
		c := string([]byte{vrt.ByteIn(letters + "_")})
		n := []string{"loop" + c, c + "loop", "Loop", "LOOP", "lOOp", "loo" + c, "l", "lop", "looop", "loop1"}[vrt.Choice(10)]
		vrt.Assume(n != "loop")
		w := "1"
		renders("{{ "+n+" = 1; "+n+" }}@each("+n+" in [2]){{ "+n+" }}{{ loop.iter }}@end", data, w+"21", "names that start with loop")
	case 6:
		fails("@each(x in [{a: 1}]){{ loop = x }}@end", data, "loop with an object")
	case 7:
		fails("{{ loop }}", data, "loop outside of a loop")
	}
}

// H_C04_vanish: names bound in a block or loop are unknown after it, each kind of block.
func H_C04_vanish() {
	data := map[string]any{"c": vrt.Bool(), "v": vrt.Int64()}
	c := data["c"].(bool)
	b := []struct {
		src string
		out string
	}{
		{"@if(c){{ x = v }}{{ x }}@end", ""}, {"@if(c)@else{{ x = v }}@end", ""}, {"@if(c)@elseif(true){{ x = 1 }}@end", ""}, {"@each(x in [v]){{ x }}@end", ""}, {"@for(x = 0; x < 2; x++)@end", ""},
		{"@each(q in [1]){{ x = v }}@end", ""}, {"@for(q = 0; q < 1; q++){{ x = v }}@end", ""}, {"@each(q in [])@else{{ x = v }}@end", ""}, {"@for(; false;)@else{{ x = v }}@end", ""},
		{"@each(q in [1, 2])@if(true){{ x = v }}@breakIf(c)@end@end", ""}, {"@each(q in [1, 2]){{ x = v }}@continue@end", ""},
	}
	k := vrt.Choice(len(b))
	vrt.Observe("c", bit(c))
	fails(b[k].src+"{{ x }}", data, "a name after its block")
	renders(b[k].src+"{{ x = 'other type'; x }}", data, blockOut(k, c, data["v"].(int64))+"other type", "a new variable of the same name")
}

func blockOut(k int, c bool, v int64) string {
	if k == 0 && c || k == 3 {
		return i64(v)
	}
	return ""
}

// H_C04_files: scopes across files: what a component assigns or receives as argument is unknown in the page after it and in the
// next component, page variables and data are visible in components, inserts see the data, arguments shadow
// variables of the page inside of the component only.
// vrt:weight 2
func H_C04_files() {
	v, w := vrt.Int64(), vrt.Int64()
	data := map[string]any{"v": v, "w": w}
	V, W := i64(v), i64(w)
	type tc struct {
		page, comp, layout string
		want               string
		fail               bool
	}
	tcs := []tc{
		{"@component('c', {a: v})|{{ a }}", "{{ a }}", "", "", true},
		{"@component('c')|{{ a }}", "{{ a = v }}{{ a }}", "", "", true},
		{"{{ a = w }}@component('c', {a: v})|{{ a }}", "{{ a }}", "", V + "|" + W, false},
		{"{{ a = w }}@component('c')|{{ a }}", "{{ a }}{{ a = v }}{{ a }}", "", W + V + "|" + W, false},
		{"{{ a = w }}@component('c')", "{{ a = 'x' }}", "", "", true},
		{"@component('c', {a: v})@component('c', {a: w})", "{{ a }}", "", V + W, false},
		{"@component('c', {a: v})@component('c', {a: 'x'})", "{{ a }}", "", V + "x", false},
		{"@component('c', {a: v})@component('c')", "{{ a }}", "", "", true},
		{"@component('c', {loop: v})", "x", "", "", true},
		{"@component('c', {a: v})", "@if(true){{ a = w }}{{ a }}@end{{ a }}", "", W + V, false},
		{"@component('c', {a: v})", "{{ a = 'x' }}", "", "", true},
		{"@each(x in [v, w])@component('c')@end", "{{ x }}{{ v }}{{ loop.index }},", "", V + V + "0," + W + V + "1,", false},
		{"@each(x in [v, w])@component('c', {a: x})@end{{ v }}", "{{ a }}{{ b = a }}{{ b }},", "", V + V + "," + W + W + "," + V, false},
		{"@component('c', {a: v})@slot{{ v }}{{ a }}@end@end", "<@slot>", "", "<" + V + V + ">", false},
		{"@use('l')@insert('t'){{ v }}@end", "x", "{{ w }}@reserve('t'){{ v }}", W + V + V, false},
		{"@use('l')@insert('t', w)", "x", "{{ a = v }}@reserve('t'){{ a }}", W + V, false},
		{"@use('l')@insert('t')@if(true){{ a = v }}@end@component('c', {a: w})@end", "{{ a }}", "@reserve('t')", W, false},
		{"@use('l')@insert('t')@each(x in [v])@end{{ x }}@end", "", "@reserve('t')", "", true},
		{"@use('l')@insert('t')@component('c', {b: w})@end@insert('u'){{ b }}@end", "{{ b }}", "@reserve('t')@reserve('u')", "", true},
	}
	t := tcs[vrt.Choice(len(tcs))]
	vrt.WriteFile("tpl/p.tw", t.page)
	vrt.WriteFile("tpl/c.tw", t.comp)
	if t.layout != "" {
		vrt.WriteFile("tpl/l.tw", t.layout)
	}
	vrt.Observe("page", t.page)
	tpl, err := tw.NewTemplate(&config.Config{TemplateDir: "tpl", TemplateExt: ".tw"})
	vrt.Assert(err == nil, "the templates load")
	if err != nil {
		vrt.Observe("load", err.Error())
		return
	}
	out, ferr := tpl.String("p", data)
	vrt.Observe("out", out)
	vrt.Assert((ferr != nil) == t.fail, "scopes across files: error or output")
	if ferr == nil && !t.fail {
		vrt.AssertEq(out, t.want, "scopes across files")
	}
}
