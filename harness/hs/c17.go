package hs

import (
	"net/http"
	"strings"

	tw "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"
	"vh/vrt"
)

// failing is a page that fails at run time after and before producing marked output, in any place: the page, a branch, a loop pass, an insert, a layout, a component, a slot,
// a component argument; name is what the message mentions.
func failing(name string) string {
	bad := pick("{{ "+name+" }}", "{{ 1 / 0 }}", "{{ n."+name+"() }}", "{{ {k: 1}."+name+" }}", "{{ 'MARK' - 'b' }}", "@each(x in "+name+")MARK@end", "@if("+name+")MARK@end", "@dump("+name+")", "@component('c', {v: "+name+"})", "@component('bad', {v: 1})", "{{ n = 'MARK' }}", "{{ [1]['"+name+"'] }}")
	switch vrt.Choice(9) {
	case 0:
		return bad
	case 1:
		return "MARK" + bad + "MARK"
	case 2:
		return "MARK{{ n }}\n@if(true)MARK" + bad + "@end"
	case 3:
		return "@each(i in [1, 2, 3])MARK{{ i }}@if(i == 3)" + bad + "@end@end"
	case 4:
		return "@use('l')@insert('t', 'MARK')@insert('b')MARK" + bad + "@end"
	case 5:
		return "MARK@component('c', {v: 'MARK'})@slot('s')MARK" + bad + "@end@end"
	case 6:
		return "@for(i = 0; i < 2; i++)MARK@end" + bad
	case 7:
		return "MARK@component('c', {v: 'MARK'})MARK\n\n" + bad
	}
	return "@use('l2')@insert('b')MARK@end"
}

// errorPages is a configuration of the error page and what its body is when debug mode is off ("builtin": the built-in page).
func errorPages() (name, text, body string) {
	switch vrt.Choice(10) {
	case 0:
		return "", "", "builtin"
	case 1:
		return "err", "custom {{ 1 + 1 }}@component('c', {v: 'ok'})", "custom 2[ok]"
	case 2:
		return "err", "custom", "custom"
	case 3:
		return "err", "part of a page {{ nope }}", ""
	case 4:
		return "none", "", ""
	case 5:
		return "err", "@use('l')@insert('t', 'T')@insert('b')B@end", "<T>B"
	case 6:
		return "err", "", ""
	case 7:
		return "err", "part {{ n }}", ""
	case 8:
		return "sub/err", "nested{{ 'q'.upper() }}", "nestedQ"
	}
	return "err", "part@each(x in [1, 2])x{{ x }}{{ 1 / (2 - x) }}@end", ""
}

func setup17(page string) (t *tw.Template, errBody string, debug bool) {
	ep, text, body := errorPages()
	debug = vrt.Choice(2) == 1
	files := []string{"p", page, "c", "[{{ v }}@slot('s')]", "l", "<@reserve('t')>@reserve('b')", "l2", "MARK@reserve('b'){{ 1 / 0 }}", "bad", "MARK\n{{ v.secretfn() }}", "ok", "fine {{ n }}"}
	if text != "" || ep == "err" {
		files = append(files, ep, text)
	}
	t, err := loadTree(&config.Config{TemplateDir: "tpl", TemplateExt: ".tw", ErrorPagePath: ep, DebugMode: debug}, nil, files...)
	vrt.Assert(err == nil, "the tree loads")
	if err != nil {
		vrt.Observe("load", err.Error())
	}
	return t, body, debug
}

func respond(t *tw.Template, name string, data map[string]any) (string, error) {
	w := &recorder{h: http.Header{}}
	err := t.Response(w, name, data)
	vrt.Observe("body", w.body)
	return w.body, err
}

// noDetail asserts that the body shows no message, path or piece of the failed page.
func noDetail(body, msg, path string) {
	vrt.Assert(!strings.Contains(body, vrt.Cwd()+"/tpl"), "no path leaks")
	vrt.Assert(path == "" || !strings.Contains(body, path), "no path of the error leaks")
	vrt.Assert(!strings.Contains(body, ".tw"), "no file name leaks")
	vrt.Assert(msg != "" && !strings.Contains(body, msg), "no message leaks")
	vrt.Assert(!strings.Contains(body, "secret"), "no name of the page leaks")
	vrt.Assert(!strings.Contains(body, "Error"), "no error header leaks")
}

// H_C17_fail: twelve kinds of run-time faults (with a symbolic identifier) at nine places, always after marked output, under ten error-page configurations (none, working, missing, empty, nested, with layout, failing in three ways) x debug: the body is
// exactly the custom page, the built-in page or empty, without any part of the failed page; with debug on it shows message, path and line, with debug off none of them, and it is the same body
// as for any other failure.
// vrt:weight 4
func H_C17_fail() {
	name := "secret" + vrt.Str(2, letters)
	t, errBody, debug := setup17(failing(name))
	if t == nil {
		return
	}
	d := map[string]any{"n": vrt.Int64()}
	_, ferr := t.String("p", d)
	vrt.Assert(ferr != nil, "the page fails")
	if ferr == nil {
		return
	}
	body, err := respond(t, "p", d)
	vrt.Assert(err != nil, "Response returns an error")
	msg, path := ferr.Message(), ferr.Filepath()
	if debug {
		vrt.Assert(strings.Contains(body, msg), "debug: the message is shown")
		vrt.Assert(strings.Contains(body, path+":"+itoa(int(ferr.Line()))), "debug: the path and line are shown")
		vrt.Assert(strings.HasPrefix(path, vrt.Cwd()), "debug: the path is that of a file")
		rest := strings.ReplaceAll(body, msg, "")
		vrt.Assert(!strings.Contains(rest, "MARK"), "debug: no part of the failed page")
		return
	}
	vrt.Assert(!strings.Contains(body, "MARK"), "no part of the failed page")
	vrt.Assert(!strings.Contains(body, "part"), "no part of a failed error page")
	noDetail(body, msg, path)
	if errBody != "builtin" {
		vrt.AssertEq(body, errBody, "the custom error page, or nothing when it fails")
		return
	}
	other, err := respond(t, "missing", nil)
	vrt.Assert(err != nil, "Response returns an error")
	vrt.AssertEq(body, other, "the built-in page does not depend on the failure")
	vrt.Assert(strings.Contains(body, "<html") && strings.Contains(body, "</html>"), "the built-in page is complete")
}

// H_C17_missing: a missing name (symbolic), or data of an unsupported kind, on all configurations.
// vrt:weight 2
func H_C17_missing() {
	t, errBody, debug := setup17("fine")
	if t == nil {
		return
	}
	name, d := "secret"+vrt.Str(1, letters), map[string]any{}
	switch vrt.Choice(4) {
	case 0:
		name, d = "p", map[string]any{"n": func() {}}
	case 1:
		name, d = "p", map[string]any{"loop": 1}
	case 2:
		name = pick("l", "p.tw", "tpl/p", "", "../tpl/p")
	}
	_, ferr := t.String(name, d)
	vrt.Assert(ferr != nil, "the name or data are refused")
	if ferr == nil {
		return
	}
	body, err := respond(t, name, d)
	vrt.Assert(err != nil, "Response returns an error")
	msg, path := ferr.Message(), ferr.Filepath()
	if debug {
		vrt.Assert(strings.Contains(body, msg), "debug: the message is shown")
		vrt.Assert(strings.Contains(body, path+":"+itoa(int(ferr.Line()))), "debug: the path and line are shown")
		return
	}
	noDetail(body, msg, path)
	if errBody != "builtin" {
		vrt.AssertEq(body, errBody, "the custom error page, or nothing when it fails")
	} else {
		vrt.Assert(strings.Contains(body, "<html") && strings.Contains(body, "</html>"), "the built-in page is complete")
	}
	ok, err := respond(t, "ok", map[string]any{"n": 7})
	vrt.Assert(err == nil, "a later page that renders: no error")
	vrt.AssertEq(ok, "fine 7", "a later page that renders")
}

// H_C17_page: pages that render (symbolic text and data, format verbs, empty output) on all configurations: nil error, and the body is exactly the page, also when rendered
// by a name with a directory; the writer only sees this page.
// vrt:weight 2
func H_C17_page() {
	n, s := vrt.Int64(), vrt.Str(2, "")
	x := vrt.Str(2, bytesWithout("{@\\"))
	src, want := "", ""
	switch vrt.Choice(7) {
	case 0:
		src, want = x, x
	case 1:
		src, want = "{{ s }}", s
	case 2:
		src, want = "%d%s"+x+"{{ n }}", "%d%s"+x+i64(n)
	case 3:
		src, want = "", ""
	case 4:
		src, want = "@use('l')@insert('t', '%v')@insert('b'){{ s }}@end", "<%v>"+s
	case 5:
		src, want = "@component('c', {v: n})@slot('s')"+x+"@end@end", "["+i64(n)+x+"]"
	case 6:
		src, want = "@each(e in [1, 2]){{ e }}{{ s }}@end@if(false)MARK@end", "1"+s+"2"+s
	}
	t, _, _ := setup17(src)
	if t == nil {
		return
	}
	d := map[string]any{"n": n, "s": s}
	body, err := respond(t, "p", d)
	vrt.Assert(err == nil, "a page that renders: no error")
	vrt.AssertEq(body, want, "the page")
	out, ferr := t.String("p", d)
	vrt.Assert(ferr == nil, "String renders it")
	vrt.AssertEq(out, want, "String renders the same page")
}

// H_C17_config: the configuration that counts is the last one: debug on, then off (and the other way round), set by NewTemplate or Configure; a failing page, a working one, and a failing one again.
// vrt:weight 2
func H_C17_config() {
	write("p", "MARK{{ 1 +\nsecretx }}", "err", "custom", "ok", "fine")
	t, err := tw.NewTemplate(&config.Config{TemplateDir: "tpl", TemplateExt: ".tw", ErrorPagePath: pick("", "err"), DebugMode: vrt.Bool()})
	vrt.Assert(err == nil, "loads")
	if err != nil {
		return
	}
	debug := false
	for i := vrt.Choice(quick(3, 4)) + 1; i > 0; i-- {
		debug = vrt.Bool()
		c := &config.Config{DebugMode: debug}
		if vrt.Choice(2) == 1 {
			tw.Configure(c)
		} else {
			t2, err := tw.NewTemplate(c)
			vrt.Assert(err == nil && t2 != nil, "loads again with the same directory and extension")
			if t2 == nil {
				return
			}
			t = t2
		}
		switch vrt.Choice(3) {
		case 0:
			respond(t, "p", nil)
		case 1:
			respond(t, "ok", nil)
		}
	}
	body, rerr := respond(t, "p", nil)
	vrt.Assert(rerr != nil, "Response returns an error")
	vrt.Assert(!strings.Contains(body, "MARK"), "no part of the failed page")
	vrt.Assert(strings.Contains(body, "secretx") == debug, "the message is shown in debug mode only")
	vrt.Assert(strings.Contains(body, vrt.Cwd()+"/tpl/p.tw:2") == debug, "the path and line are shown in debug mode only")
}

// H_C17_errorpage: the page asked for is the one configured as error page itself, working or failing in eight ways, with and without debug, before or after another failing call: the result is that of any other page:
// nil and the page when it renders, else an error and, with debug off, no part of it.
// vrt:weight 2
func H_C17_errorpage() {
	t, errBody, debug := setup17("MARK{{ nope }}")
	if t == nil {
		return
	}
	d := map[string]any{"n": vrt.Int64()}
	if vrt.Choice(2) == 1 {
		respond(t, pick("p", "missing", "ok"), d)
	}
	name := pick("err", "sub/err", "none")
	out, ferr := t.String(name, d)
	body, err := respond(t, name, d)
	vrt.Assert((err == nil) == (ferr == nil), "an error is returned exactly when rendering fails")
	if ferr == nil {
		vrt.AssertEq(body, out, "the page asked for")
		return
	}
	if err == nil {
		return
	}
	if debug {
		vrt.Assert(strings.Contains(body, ferr.Message()), "debug: the message is shown")
		vrt.Assert(strings.Contains(body, ferr.Filepath()+":"+itoa(int(ferr.Line()))), "debug: the path and line are shown")
		return
	}
	vrt.Assert(!strings.Contains(body, "part"), "no part of a failed error page")
	noDetail(body, ferr.Message(), ferr.Filepath())
	if errBody != "builtin" {
		vrt.AssertEq(body, errBody, "the custom error page, or nothing when it fails")
	} else {
		vrt.Assert(strings.Contains(body, "<html") && strings.Contains(body, "</html>"), "the built-in page is complete")
	}
}
