package hs

import (
	"net/http"
	"strings"

	tw "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"
	"vh/vrt"
)

// stable runs f once with maps walked in insertion order and then with up to dev arbitrary walks (0: every walk arbitrary); natively 200 times with Go's own random order.
// What f returns must be the same every time.
func stable(dev int, f func() string, label string) {
	first := f()
	vrt.Observe("result", first)
	if dev == 0 {
		vrt.MapOrder(2, 0)
	} else {
		vrt.MapOrder(1, dev)
	}
	for i := 0; i < vrt.Repeat(200); i++ {
		vrt.AssertEq(f(), first, label)
	}
	vrt.MapOrder(0, 0)
}

func result(src string, data map[string]any) string {
	out, err := tw.EvaluateString(src, data)
	if err != nil {
		return "error: " + err.Error()
	}
	return "output: " + out
}

// objects is data with a map, a struct, nested ones and keys that collide when folded, with symbolic values and one symbolic key.
func objects() map[string]any {
	n := vrt.Int64()
	k := vrt.Str(1, letters+digits+" _")
	type in struct {
		B, A, b int
		C       map[string]any
	}
	return map[string]any{
		"m": map[string]any{"b": n, k: "k", "a": []any{1}},
		"s": in{B: 1, A: 2, C: map[string]any{"z": n, "y": nil, k: true}},
		"f": map[string]any{"Name": n, "name": "x", "nAme": 1.5},
	}
}

// H_C14_print: printing, dumping, joining, comparing and passing on of maps, structs and object literals with 2..4 entries, nested, symbolic values and keys, every map walk (one, thorough up to two, deviating at a time) in arbitrary order.
// vrt:weight 3
func H_C14_print() {
	d := objects()
	src := pick("{{ m }}", "{{ s }}", "{{ f }}", "@dump(m)", "@dump(s, f)", "{{ [m, s].join(',') }}", "{{ {z: 1, a: m, b: {y: 1, x: 2}} }}", "@dump({z: 1, a: 'q', m: nil})", "{{ f.name }}{{ f.Name }}{{ f.nAme }}",
		"@each(o in [m, f]){{ o }};@end", "{{ x = {c: 1, b: 2, a: 3}; x }}{{ x.c }}", "{{ [m].contains(m) }}{{ [f].contains(m) }}{{ [s, m].contains(f) }}", "{{ m.k ? 1 : 2 }}", "{{ f.NAME }}", "{{ s.b }}", "{{ f.naMe }}", "{{ [f].append({b: 1, a: 2}) }}",
		"{{ f['Name'] }}{{ f['name'] }}", "{{ s.C.z }}{{ s.c }}", "@dump([m, {b: 1, a: 2}])", "{{ f.NaMe }}")
	stable(quick(1, 2), func() string { return result(src, d) }, "print")
}

// H_C14_literals: object literals, array literals, call arguments, dump arguments, unsupported data with two to four entries that fail in different ways (a symbolic choice of
// six faults, some on different lines, for each of three entries): the same error every time.
// vrt:weight 3
func H_C14_literals() {
	fault := func() string {
		return pick("nope", "1 / 0", "'a' - 1", "\n1", "'x'.zip()", "{b: -'a', a: 2 % 0}", "nil")
	}
	a, b, c := fault(), fault(), fault()
	d := map[string]any{}
	var src string
	switch vrt.Choice(6) {
	case 0:
		src = "{{ {z: " + a + ", b: " + b + ", m: " + c + "} }}"
	case 1:
		src = "{{ [" + a + ", {q: " + b + ", p: " + c + "}] }}"
	case 2:
		src = "@dump({z: " + a + "}, {y: " + b + ", x: " + c + "})"
	case 3:
		src = "{{ {z: 1, a: {y: " + a + ", x: " + b + "}, m: " + c + "}.a.y }}"
	case 4:
		src = "{{ 'abc'.split({b: " + a + ", a: " + b + "}, " + c + ") }}"
	case 5:
		src = "{{ {b: " + a + ", b: " + b + ", a: " + c + "} }}"
	}
	stable(quick(1, 2), func() string { return result(src, d) }, "literal")
}

// H_C14_data: several unsupported or reserved entries in the data at once.
func H_C14_data() {
	bad := func() any {
		switch vrt.Choice(5) {
		case 0:
			return func() {}
		case 1:
			return make(chan int)
		case 2:
			return [1]int{1}
		case 3:
			return map[string]any{"b": complex(1, 1), "a": [2]int{}, "c": vrt.Int64()}
		}
		return vrt.Int64()
	}
	d := map[string]any{"z": bad(), pick("a", "loop"): bad(), "m": bad()}
	src := pick("{{ m }}", "x")
	stable(quick(3, 4), func() string { return result(src, d) }, "data")
}

// loaded loads the tree and renders p; with how, also through Response.
func loaded(how int, data map[string]any) string {
	t, err := tw.NewTemplate(&config.Config{TemplateDir: "tpl", TemplateExt: ".tw"})
	if err != nil {
		return "load: " + err.Error()
	}
	if how == 1 {
		w := &recorder{h: http.Header{}}
		rerr := t.Response(w, "p", data)
		s := "response: " + w.body
		if rerr != nil {
			s += "\nerror: " + rerr.Error()
		}
		return s
	}
	out, ferr := t.String("p", data)
	if ferr != nil {
		return "error: " + ferr.Error().Error() + ferr.Filepath() + itoa(int(ferr.Line())) + ferr.Message()
	}
	return "output: " + out
}

// recorder is a ResponseWriter that keeps everything.
type recorder struct {
	h      http.Header
	body   string
	writes int
	codes  []int
}

func (r *recorder) Header() http.Header { return r.h }
func (r *recorder) Write(b []byte) (int, error) {
	r.body += string(b)
	r.writes++
	return len(b), nil
}
func (r *recorder) WriteHeader(c int) { r.codes = append(r.codes, c) }

func write(files ...string) {
	for i := 0; i < len(files); i += 2 {
		vrt.WriteFile("tpl/"+files[i]+".tw", files[i+1])
	}
}

// H_C14_tree: page, layout and component with several faults at once: undefined, duplicate and failing inserts, undefined and duplicate slots, missing components and layouts, failing component
// arguments, faulty files next to each other; loaded and rendered again each time, by String or Response.
// vrt:weight 4
func H_C14_tree() {
	n := vrt.Int64()
	page := pick(
		"@use('l')@insert('zz', 'a')@insert('yy')b@end@insert('xx', 'c')",
		"@use('l')@insert('zz', 'a')\n@insert('t', nope)\n@insert('yy')b@end",
		"@use('l')@insert('t', nope)@insert('u'){{ 1 / 0 }}@end@insert('v', 'a' - 1)",
		"@use('l')@insert('u'){{ x }}@end@insert('t', 'a')@insert('t', 'b')",
		"@component('c', {z: nope, a: 1 / 0, m: 'a' - 1})",
		"@component('c', {z: 1, a: 2, m: n})",
		"{{ z = 'x'; a = 1.5; m = [] }}@component('c', {z: 1, a: 2, m: n})",
		"@component('c')@slot('s')1@end@slot('s')2@end@slot('r')3@end@slot('r')4@end@end",
		"@component('c')@slot('q')1@end@slot('p')2@end@slot('s')3@end@end",
		"@component('c', {o: {b: 1, a: 2}})@slot('r')3@end@slot3@end@slot('s')1@end@end",
		"@component('c')@component('d')@component('e')",
		"@component('d')@component('c')@slot('p')@end@end@component('e')",
		"@use('k')@component('e')@insert('a', 'b')",
		"@component('c', {o: {b: nope, a: 1 / 0}, loop: 1, z: 2})",
	)
	layout := pick("<@reserve('t')@reserve('u')@reserve('v')>", "<@reserve('t')><@reserve('t')>@component('c')", "none")
	comp := pick("{{ z }}{{ a }}{{ m }}{{ o }}", "[@slot('s')|@slot('r')|@slot]", "@slot('s')@slot('s'){{ nope }}")
	other := pick("", "{{ # }}", "\n@if(")
	write("p", page, "l", layout, "c", comp)
	if other != "" {
		write("a", other, "z", "{{ ) }}", "x/b", "@each(")
	}
	how := vrt.Choice(2)
	d := map[string]any{"x": map[string]any{"b": n, "a": 1}, "n": n}
	stable(quick(1, 2), func() string { return loaded(how, d) }, "tree")
}

// H_C14_once: one loaded Template rendered again and again, with two components, slots, inserts and an object in each place, every map walk (one at a time, thorough two) arbitrary.
// vrt:weight 2
func H_C14_once() {
	n := vrt.Int64()
	write("p", "@use('l')@insert('t', x)@insert('u'){{ {q: x, b: n} }}@end@insert('v')@component('c', {z: x, a: {c: 1, b: 2}})@slot('s'){{ x }}@end@slot d@end@end@component('c', {a: x, z: n})@end",
		"l", "<@reserve('v')|@reserve('u')|@reserve('t')>"+pick("", "{{ x }}", "@dump({b: x, a: 1})", "{{ {b: nope, a: 1 / 0} }}"), "c", "{{ z }}{{ a }}@slot('s')@slot")
	t, err := tw.NewTemplate(&config.Config{TemplateDir: "tpl", TemplateExt: ".tw"})
	vrt.Assert(err == nil, "once: loads")
	if err != nil {
		return
	}
	d := map[string]any{"x": map[string]any{"b": n, "a": 1, "c": nil}, "n": n}
	stable(quick(1, 2), func() string {
		out, ferr := t.String("p", d)
		if ferr != nil {
			return "error: " + ferr.Error().Error()
		}
		return out
	}, "one template")
}

// H_C14_config: the same through custom functions that receive and return objects, and error pages.
func H_C14_config() {
	n := vrt.Int64()
	tw.RegisterArrFunc("objs", func(a []any, args ...any) []any {
		return []any{map[string]any{"b": a, "a": args, "c": map[string]any{"y": n, "x": 2}}}
	})
	tw.RegisterArrFunc("bad", func(a []any, args ...any) []any {
		return []any{map[string]any{"b": func() {}, "a": make(chan int), "c": [1]int{1}}}
	})
	src := pick("{{ [1].objs({b: 1, a: 2}) }}", "@dump([{d: 1, c: 2}].objs(1, {y: 1, x: 2}))", "{{ [].bad() }}", "{{ [nope].objs({b: nope, a: 1 / 0}) }}", "{{ [{b: [].bad(), a: 1 / 0}] }}")
	stable(quick(1, 2), func() string { return result(src, map[string]any{"n": n}) }, "custom function")
	vrt.Assert(strings.TrimSpace(src) != "", "source")
}

// H_C14_faults: each of the faulty constructs of C13 and of the printed and dumped values of every kind, in a string, several times over: the same error or output.
func H_C14_faults() {
	n := len(faults)
	vals := []string{"{{ 1.5[0] }}", "{{ true.x }}", "{{ [1]['a'] }}", "{{ 'a'[0] }}", "{{ {a: 1}[1] }}", "{{ nil[0] }}", "@dump([], {}, nil, 1.5, 'a', true, [nil])", "{{ [[], {a: [1.5]}] }}", "{{ 'a'.len }}", "{{ -[] }}", "{{ !{} }}", "{{ {}++ }}", "{{ [1] == [1] }}", "{{ {} < {} }}", "{{ [1].contains({a: 1}) }}", "{{ 'x'.nope({b: 1, a: 2}) }}", "@each(x in {b: 1, a: 2})@end"}
	k := vrt.Choice(n + len(vals))
	src := ""
	if k < n {
		src = faults[k].src
	} else {
		src = vals[k-n]
	}
	stable(1, func() string { return result(src, map[string]any{"u": 1}) }, "fault")
}
