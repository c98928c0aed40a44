package hs

import (
	"net/http"
	"reflect"

	tw "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"
	"vh/vrt"
)

// the tree of the history harnesses: every construct, failing pages of every kind
func historyTree(errpage, errtext string, debug bool, prepare func()) (*tw.Template, error) {
	files := []string{"p", "@use('l')@insert('t', s)@insert('b')@each(x in a){{ x }}{{ loop.index }}@component('c', {v: x, w: n})@slot('s'){{ x }}@end@end@end@end",
		"l", "<@reserve('t')>@reserve('b'){{ n }}@component('c', {v: 'L'})",
		"c", "[{{ v }}@slot('s')|@slot]",
		"q", "{{ v = n; v = v + 1; v }}@if(flag){{ z = 'in' }}{{ z }}@else{{ [3, n].append(a).reverse() }}@end@for(i = 0; i < 2; i++){{ i }}@end@dump(o){{ o }}",
		"r", "{{ a.append(9) }}{{ a.reverse() }}{{ b.prepend(0) }}{{ x = a.slice(0, 1).append(7); x }}{{ a }}{{ b }}{{ s.upper() }}{{ s.f(a, o) }}{{ a.g(s) }}",
		"f1", "head @component('c', {v: n}){{ nope }}",
		"f2", "\n@use('l')@insert('t', 1 / 0)",
		"f3", "@use('l')\n@insert('b')@component('d', {v: n})@end",
		"d", "\n{{ v.zip() }}",
		"k", "@each(q in [1, 2])@component('c', {v: q, u: o})@slot('s')@if(q == 1){{ s }}@else{{ a }}@end@end@end@end{{ n++ }}{{ -n }}"}
	if errtext != "" {
		files = append(files, "e", errtext)
	}
	return loadTree(&config.Config{TemplateDir: "tpl", TemplateExt: ".tw", ErrorPagePath: errpage, DebugMode: debug}, prepare, files...)
}

// historyPages is an error-page configuration: none, working, failing, missing.
func historyPages() (page, text string) {
	switch vrt.Choice(4) {
	case 1:
		return "e", "error page@component('c', {v: 1})"
	case 2:
		return "e", "part {{ nope }}"
	case 3:
		return "none", ""
	}
	return "", ""
}

func historyFuncs() {
	tw.RegisterStrFunc("f", func(s string, args ...any) string {
		if l, ok := args[0].([]any); ok && len(l) > 0 {
			l[0] = "changed by the function"
		}
		return s + itoa(len(args))
	})
	tw.RegisterArrFunc("g", func(a []any, args ...any) []any {
		for i := range a {
			a[i] = "changed by the function"
		}
		return append(a[:0], "g")
	})
}

func historyData(n int64, s string, flag bool) map[string]any {
	a := append(make([]any, 0, 8), n, s, []any{1})
	b := append(make([]int64, 0, 4), n, 2)
	return map[string]any{"n": n, "s": s, "flag": flag, "a": a, "b": b, "o": map[string]any{"k": n, "l": []string{s}, "z": nil}, "z": nil}
}

// issue performs one call and returns all that can be seen of it.
func issue(t *tw.Template, op int, data map[string]any) []string {
	r := make([]string, 5)
	str := func(name string, d map[string]any) {
		out, err := t.String(name, d)
		r[0] = out
		if err != nil {
			r[1], r[2], r[3] = err.Message(), err.Filepath(), itoa(int(err.Line()))
		}
	}
	resp := func(name string) {
		w := &recorder{h: http.Header{}}
		err := t.Response(w, name, data)
		r[0] = w.body
		if err != nil {
			r[1] = err.Error()
		}
	}
	text := func(src string, d map[string]any) {
		out, err := tw.EvaluateString(src, d)
		r[0] = out
		if err != nil {
			r[1] = err.Error()
		}
	}
	file := func(name string) {
		out, err := tw.EvaluateFile(name, data)
		r[0] = out
		if err != nil {
			r[1] = err.Error()
		}
	}
	switch op {
	case 0:
		str("p", data)
	case 1:
		str("f1", data)
	case 2:
		str("missing", data)
	case 3:
		resp("f3")
	case 4:
		text("{{ n }}@each(x in a){{ x }}@end{{ y = 5; y }}", data)
	case 5:
		text("\n{{ nope }}", data)
	case 6:
		resp("q")
	case 7:
		str("r", data)
	case 8:
		resp("f2")
	case 9:
		str("k", data)
	case 10:
		file(vrt.Cwd() + "/tpl/r.tw")
	case 11:
		file("tpl/none.tw")
	case 12:
		bad := map[string]any{"n": data["n"], "a": data["a"], "u": func() {}, "o": data["o"]}
		str("q", bad)
		if len(bad) != 4 {
			r[4] = "the data is changed"
		}
	case 13:
		text("@if(", nil)
	case 14:
		resp("missing")
	case 15:
		text("@component('c', {v: n})@insert('t', 'x')", data)
	case 16:
		str("f2", data)
	case 17:
		file("tpl/d.tw")
	case 18:
		str("q", map[string]any{"n": "text", "flag": true, "o": nil})
	}
	return r
}

const nOps = 19

// H_C16_history: every sequence of 0..1 (thorough 2) of 19 calls (String, Response, EvaluateString, EvaluateFile; succeeding, failing at load-independent run time in page, layout, component, with unsupported or other data, missing names)
// followed by any of the 19, under error-page configurations {none, working, failing, missing} x debug, on one loaded template tree, the earlier calls with the same shared data map of symbolic content or with other data: output, message, path and line
// equal those of the last call issued alone in a fresh process; the data are unchanged, spare capacity of slices included.
// vrt:weight 4
func H_C16_history() { history(vrt.Choice(quick(2, 3))) }

// H_C16_long: the same for sequences of 2 (thorough 3) calls.
// vrt:weight 3
func H_C16_long() { history(quick(2, 3)) }

func history(length int) {
	n, s, flag := vrt.Int64(), vrt.Str(1, letters+"\n<"), vrt.Bool()
	page, text := historyPages()
	debug := vrt.Choice(2) == 1
	op := vrt.Choice(nOps)
	fresh := vrt.Isolate(func() []string {
		t, err := historyTree(page, text, debug, historyFuncs)
		if err != nil {
			return []string{"", err.Error(), "load", "", ""}
		}
		return issue(t, op, historyData(n, s, flag))
	})
	t, err := historyTree(page, text, debug, historyFuncs)
	vrt.Assert(err == nil, "the tree loads")
	if err != nil {
		return
	}
	data := historyData(n, s, flag)
	for i := length; i > 0; i-- {
		if vrt.Choice(2) == 1 {
			issue(t, vrt.Choice(nOps), historyData(vrt.Int64(), "other", !flag))
		} else {
			issue(t, vrt.Choice(nOps), data)
		}
	}
	got := issue(t, op, data)
	vrt.Observe("out", got[0])
	vrt.Observe("err", got[1])
	for i, what := range []string{"output", "error", "path", "line", "extra"} {
		vrt.AssertEq(got[i], fresh[i], "after a history: "+what)
	}
	vrt.AssertEq(got[4], "", "the data that failed to convert are unchanged")
	vrt.Assert(reflect.DeepEqual(data, historyData(n, s, flag)), "the data are unchanged")
	for _, v := range data["a"].([]any)[:8][3:] {
		vrt.Assert(v == nil, "spare capacity of the data is unchanged")
	}
	for _, v := range data["b"].([]int64)[:4][2:] {
		vrt.Assert(v == 0, "spare capacity of the data is unchanged")
	}
}

// H_C16_same: each of the 19 calls three times in a row, and before and after a call of each other kind with other data: always the same result.
// vrt:weight 2
func H_C16_same() {
	n, m := vrt.Int64(), vrt.Int64()
	t, err := historyTree(pick("", "e"), "error page", false, historyFuncs)
	vrt.Assert(err == nil, "the tree loads")
	if err != nil {
		return
	}
	op, other := vrt.Choice(nOps), vrt.Choice(nOps)
	data := historyData(n, "s", true)
	first := issue(t, op, data)
	again := issue(t, op, data)
	issue(t, other, historyData(m, "other", false))
	issue(t, other, nil)
	last := issue(t, op, data)
	vrt.Observe("out", first[0])
	for i := range first {
		vrt.AssertEq(again[i], first[i], "the same call twice in a row")
		vrt.AssertEq(last[i], first[i], "the same call after another one with other data")
	}
}

// H_C16_programs: one template with any two of 44 constructs, or a page with a layout that has one of them as block insert or one of eight expressions as inline insert, rendered with data A, then with data B, then with data A: the third result is the first one, and what B gives is what B gives alone.
// vrt:weight 3
func H_C16_programs() {
	part := func() string {
		return constructs[vrt.Choice(len(constructs))]
	}
	name, src, ins := pick("p", "i"), "", ""
	if name == "p" {
		src = part() + "\n" + part()
	} else if vrt.Choice(2) == 0 {
		ins = "@insert('t')" + part() + "@end"
	} else {
		ins = "@insert('t', " + pick("x", "x + ''", "[x, b]", "b ? x : 'no'", "o.k", "l.len()", "'lit'", "u") + ")"
	}
	files := []string{"p", src, "c", "[{{ v ? v : 'none' }}@slot('s')|@slot]", "l", "<@reserve('t')>" + pick("", "@if(b){{ x }}@reserve('w')@end"), "i", "@use('l')" + ins}
	t, err := loadTree(tplConfig(), nil, files...)
	vrt.Assert(err == nil, "the tree loads")
	if err != nil {
		return
	}
	n := vrt.Int64()
	a := map[string]any{"x": n, "b": true, "l": []any{n, "q"}, "o": map[string]any{"k": n}}
	b := map[string]any{"x": "text", "b": false, "l": []any{}, "o": map[string]any{"k": nil}, "u": 1}
	do := func(d map[string]any) string {
		out, ferr := t.String(name, d)
		if ferr != nil {
			return "error: " + ferr.Error().Error()
		}
		return out
	}
	a1, b1, a2, b2 := do(a), do(b), do(a), do(b)
	vrt.Observe("a", a1)
	vrt.AssertEq(a2, a1, "the third render equals the first")
	vrt.AssertEq(b2, b1, "the fourth render equals the second")
	fresh := vrt.Isolate(func() []string {
		t, err := loadTree(tplConfig(), nil, files...)
		if err != nil {
			return []string{"load"}
		}
		out, ferr := t.String(name, b)
		if ferr != nil {
			return []string{"error: " + ferr.Error().Error()}
		}
		return []string{out}
	})
	vrt.AssertEq(b1, fresh[0], "the render after another one equals the render alone")
}

var constructs = []string{"{{ x }}", "{{ x = 2 }}{{ x }}", "{{ y = [1, 2]; y.append(x) }}{{ y }}", "{{ {k: x}.k }}", "@if(b){{ x }}@elseif(x == 1)E@else Z@end", "@each(e in [3, 1, 2]){{ e }}{{ loop.last }}@breakIf(b)@end", "@for(i = 0; i < 2; i++){{ i }}{{ x }}@continueIf(b)@end",
	"{{ [1, 2, 3].reverse() }}{{ [1, 2].prepend(x) }}", "{{ x++ }}{{ x-- }}{{ -x }}{{ !b }}", "{{ b ? x : 'no' }}", "@dump(x, l)", "{{ l }}{{ l.len() }}{{ l.join('-') }}", "{{ 'a&b' }}{{ 'a&b'.raw() }}{{ '<'.upper() }}", "{{ 1.5 + 2.0 }}{{ 2.5-- }}{{ 0.5.round() }}", "@each(e in l){{ e }}@else none@end",
	"{{ l.slice(1).append(l) }}", "{{ 'abc'.split('').reverse() }}", "{{ nil }}{{ [nil].contains(nil) }}", "@component('c', {v: x, w: l})", "@component('c')@slot('s'){{ x }}@end@slot{{ b }}@end@end", "{{ o.k }}{{ o }}{{ o['k'] }}", "@component('c')@slot('s'){{ u }}@end@slot{{ x }}@end@end", "@component('c', {v: u})", "@if(b)@if(u){{ x }}@else{{ u }}@end@end", "@each(e in [1, 2])@if(loop.last){{ u }}@end{{ e }}@end", "@component('c', {v: x})@slot('s')@each(e in l){{ e + x }}@end@end@end", "{{ {a: [x, u]}.a[1] }}", "@for(i = 0; i < 2; i = i + u){{ i }}@end", "@dump({a: u}, x)", "@each(e in [1, 2])@component('c', {v: e})@slot('s'){{ e }}@end@end@end", "{{ u }}", "{{ 7 % x }}",
	"@for(i = l.len(); i < 3; i++){{ i }}@end", "@for(i = 0; i < l.len(); i++){{ i }}@else none@end", "@for(i = x; i != x + 2; i++).@end", "@each(e in b ? [x, 1] : l){{ e }}@else none@end", "{{ [x, 1][b ? 0 : 1] }}{{ {k: x, z: 1}[b ? 'k' : 'z'] }}", "@if(l.len() == 0)E@elseif(b)B@end", "{{ l.contains(x) }}{{ l.slice(l.len() - 1) }}{{ 'a'.repeat(l.len()) }}", "@component('c', {v: b ? x : o})", "{{ q = x; q = q; q }}{{ x = x; x }}",
	"@each(e in l)@component('c', {v: e, w: loop})@slot('s')@if(loop.first){{ e }}@end@end@end@end", "{{ o.k ? 1 : 0 }}{{ !b ? 1 : 0 }}{{ -l.len() }}{{ l.len()++ }}", "@each(e in [1, 2, 3])@continueIf(b)@breakIf(e == l.len() + 2){{ e }}@end"}
