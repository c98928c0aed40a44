package hs

import (
	"net/http"

	tw "github.com/textwire/textwire/v2"
	"vh/vrt"
)

// a custom function that does not touch its arguments: calls may share nothing
func parallelFuncs() {
	tw.RegisterStrFunc("f", func(s string, args ...any) string { return s + itoa(len(args)) })
	tw.RegisterArrFunc("g", func(a []any, args ...any) []any { return append(a[:len(a):len(a)], "g") })
}

// H_C15_pairs: any two of the 19 calls on one loaded tree, each with its own symbolic data, issued at the same time, under error-page configurations {none, working, failing, missing} x debug:
// no schedule of them has a data race, and each returns what it returns alone.
// vrt:weight 3
// vrt:race
func H_C15_pairs() { inParallel(2, 0) }

func inParallel(calls, before int) {
	page, text := historyPages()
	t, err := historyTree(page, text, vrt.Choice(2) == 1, parallelFuncs)
	vrt.Assert(err == nil, "the tree loads")
	if err != nil {
		return
	}
	for i := 0; i < before; i++ {
		issue(t, vrt.Choice(nOps), historyData(vrt.Int64(), "before", false))
	}
	var fs []func() []string
	for i := 0; i < calls; i++ {
		op, n, s, flag := vrt.Choice(nOps), vrt.Int64(), vrt.Str(1, letters+"\n<"), vrt.Bool()
		fs = append(fs, func() []string { return issue(t, op, historyData(n, s, flag)) })
	}
	agree(vrt.Parallel(fs...))
}

// H_C15_after: the same after one earlier call of any of the 19 kinds with other data (state that earlier calls leave behind).
// vrt:weight 1
// vrt:race
func H_C15_after() { inParallel(2, 1) }

// H_C15_same: the same call twice (thorough: three times) at the same time with different data: any of the 19.
// vrt:weight 1
// vrt:race
func H_C15_same() {
	t, err := historyTree(pick("", "e"), "error page {{ 1 + 1 }}", vrt.Choice(2) == 1, parallelFuncs)
	vrt.Assert(err == nil, "the tree loads")
	if err != nil {
		return
	}
	op := vrt.Choice(nOps)
	var fs []func() []string
	for i := 0; i < quick(2, 3); i++ {
		n, s := vrt.Int64(), "data "+itoa(i)
		fs = append(fs, func() []string { return issue(t, op, historyData(n, s, i == 0)) })
	}
	agree(vrt.Parallel(fs...))
}

// H_C15_programs: two templates (one may use a layout) of any two of 44 constructs each, rendered at the same time by String, Response, EvaluateString or EvaluateFile with different data.
// vrt:weight 2
// vrt:race
func H_C15_programs() {
	part := func() string { return constructs[vrt.Choice(len(constructs))] }
	files := []string{"p", part() + "\n" + part(), "c", "[{{ v ? v : 'none' }}@slot('s')|@slot]", "l", "<@reserve('t')>", "i", "@use('l')@insert('t')" + part() + "@end"}
	c := tplConfig()
	c.DebugMode = vrt.Choice(2) == 1
	t, err := loadTree(c, parallelFuncs, files...)
	vrt.Assert(err == nil, "the tree loads")
	if err != nil {
		return
	}
	n := vrt.Int64()
	data := func(which int) map[string]any {
		if which == 0 {
			return map[string]any{"x": n, "b": true, "l": []any{n, "q"}, "o": map[string]any{"k": n}}
		}
		return map[string]any{"x": "text", "b": false, "l": []any{}, "o": map[string]any{"k": nil}, "u": 1}
	}
	render := func(how, which int) []string {
		r := make([]string, 2)
		var err error
		switch how {
		case 0:
			out, ferr := t.String("p", data(which))
			if r[0] = out; ferr != nil {
				err = ferr.Error()
			}
		case 1:
			w := &recorder{h: http.Header{}}
			err = t.Response(w, "p", data(which))
			r[0] = w.body
		case 2:
			w := &recorder{h: http.Header{}}
			err = t.Response(w, "i", data(which))
			r[0] = w.body
		case 3:
			r[0], err = tw.EvaluateFile("tpl/p.tw", data(which))
		}
		if err != nil {
			r[1] = err.Error()
		}
		return r
	}
	a, b, which := vrt.Choice(4), vrt.Choice(4), vrt.Choice(2)
	vrt.Assume(a <= b)
	agree(vrt.Parallel(func() []string { return render(a, 0) }, func() []string { return render(b, which) }))
}

func agree(alone, conc [][]string) {
	for i := range alone {
		vrt.Observe("out", alone[i][0])
		for k := range alone[i] {
			vrt.AssertEq(conc[i][k], alone[i][k], "concurrently issued: "+[]string{"output", "error", "path", "line", "extra"}[k])
		}
	}
}

// H_C15_fresh: two first calls of a process (nothing but trivial templates, or none, loaded before; no call made): EvaluateString, EvaluateFile, String or Response of any of 44 constructs and of sources
// that fail while lexing, parsing or evaluating: state that the package sets up on first use is no exception.
// vrt:weight 2
// vrt:race
func H_C15_fresh() {
	n := vrt.Int64()
	var t *tw.Template
	if vrt.Choice(2) == 1 {
		c := tplConfig()
		c.ErrorPagePath, c.DebugMode = pick("", "x"), vrt.Choice(2) == 1
		files := []string{"x", "plain"}
		if vrt.Choice(2) == 1 {
			files = append(files, "p", "{{ x }}{{ o.k }}{{ 'a'.upper() }}{{ u }}")
		}
		var err error
		t, err = loadTree(c, parallelFuncs, files...)
		vrt.Assert(err == nil, "the tree loads")
		if err != nil {
			return
		}
	}
	call := func() func() []string {
		k := vrt.Choice(4)
		if t == nil {
			vrt.Assume(k < 2)
		}
		src := "plain"
		if k < 2 {
			if c := vrt.Choice(len(constructs) + 5); c < len(constructs) {
				src = constructs[c]
			} else {
				src = []string{"\n{{ nope }}", "@if(", "{{ # }}", "{{ 'a'.f(1) }}{{ [1].g() }}", "text\\{{ }} \\@if"}[c-len(constructs)]
			}
		}
		if k == 1 {
			vrt.WriteFile("f.txt", src)
		}
		name := "x"
		if k >= 2 {
			name = pick("x", "p", "missing")
		}
		return func() []string {
			r := make([]string, 2)
			var err error
			d := map[string]any{"x": n, "b": true, "l": []any{n, "q"}, "o": map[string]any{"k": n}}
			switch k {
			case 0:
				r[0], err = tw.EvaluateString(src, d)
			case 1:
				r[0], err = tw.EvaluateFile("f.txt", d)
			case 2:
				out, ferr := t.String(name, d)
				if r[0] = out; ferr != nil {
					err = ferr.Error()
				}
			case 3:
				w := &recorder{h: http.Header{}}
				err = t.Response(w, name, d)
				r[0] = w.body
			}
			if err != nil {
				r[1] = err.Error()
			}
			return r
		}
	}
	agree(vrt.Parallel(call(), call()))
}
