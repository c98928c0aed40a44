package hs

import (
	"path/filepath"

	tw "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"
	"vh/vrt"
)

// prefix is a piece of template without faults that may span lines, with symbolic bytes.
func prefix() string {
	switch vrt.Choice(13) {
	case 0:
		return ""
	case 1:
		return vrt.Str(2, bytesWithout("{@\\"))
	case 2:
		return "a\r\n" + vrt.Str(1, bytesWithout("{@\\"))
	case 3:
		return "{{ \"" + vrt.Str(2, bytesWithout("\"\\")) + "\" }}"
	case 4:
		return "{{--" + vrt.Str(2, bytesWithout("-}")) + "--}}"
	case 5:
		return "{{ 1 +\n\n2 }}"
	case 6:
		return "@if(true)\n" + vrt.Str(1, bytesWithout("{@\\")) + "@end"
	case 7:
		return "{{ [1,\n2]\n.len() }}\n"
	case 8:
		return "\\{{\n\\@if\n"
	case 9:
		return "@for(i = 0;\n i < 1;\n i++)\n@end"
	case 10:
		return "{{ 'it\\'s\n' +\r\n\"x\" }}"
	case 11:
		return "@each(q in\n[1, 2])\n@end\n\n"
	}
	return "{{ qq = {a:\n1}; qq.a }}\t{{-- \n\n --}}"
}

func prefixes() string {
	s := prefix()
	for n := quick(1, 2); n > 0; n-- {
		s += prefix()
	}
	return s
}

func lineIs(src string, want int, label string) {
	r := fails(src, nil, label)
	if !r.bad {
		return
	}
	_, line, _, ok := errText(r.err)
	vrt.Assert(ok, label+": the error has a line")
	vrt.Assert(line == want, label+": the line of the construct")
}

// fault is a construct with one fault; off is the number of lines before the faulty token in it.
type fault struct {
	src string
	off int
}

var faults = []fault{
	{"{{ nope }}", 0}, {"{{\n\nnope\n\n}}", 2}, {"{{ 1 + \"a\" }}", 0}, {"{{ \"a\nb\" + 1 }}", 1}, {"{{ 1.5 * 2 }}", 0}, {"{{ \"a\" - \"b\" }}", 0}, {"{{ true + true }}", 0},
	{"{{ \"a\".nope() }}", 0}, {"{{ \"a\nb\".nope() }}", 1}, {"{{ 1.upper() }}", 0}, {"{{ {a: 1}.b }}", 0}, {"{{ {a: 1}[\"b\"] }}", 0}, {"{{ 1 / 0 }}", 0}, {"{{ 1 % 0 }}", 0}, {"{{\n4 / 0\n}}", 1},
	{"{{ -\"a\" }}", 0}, {"{{ !1 }}", 0}, {"{{ nil.x }}", 0}, {"{{ true++ }}", 0}, {"{{ [1]['a'] }}", 0}, {"{{ 1[0] }}", 0}, {"{{ 'a'.split(1) }}", 0}, {"{{ [1].slice() }}", 0}, {"{{ 'a'.repeat(true) }}", 0},
	{"@each(x in 5)a\n@end", 0}, {"@each(x in\nnope)\n@end", 1}, {"{{ x = 1; x = 'a' }}", 0}, {"{{ loop = 1 }}", 0}, {"@if(nope)\na@end", 0}, {"@if(\nnope\n)a@end", 1}, {"@if(false)\n@elseif(\nnope)@end", 2}, {"@if(true)\n\n{{ nope }}\n@end", 2}, {"@if(false)\na@else\n{{ nope }}\n@end", 2},
	{"@for(i = 0; nope; i++)\n@end", 0}, {"@for(i = 0; i < 1; i++)\n{{ nope }}\n@end", 1}, {"@for(i = nope; i < 1; i++)\n@end", 0}, {"@for(i = 0; i < 1;\nnope)\n@end", 1}, {"@each(x in [1])\n@breakIf(nope)\n@end", 1}, {"@each(x in [1])\n@continueIf(nope)\n@end", 1}, {"@each(x in [])\n@else\n{{ nope }}@end", 2},
	{"@dump(nope)", 0}, {"@dump(1,\nnope)", 1}, {"{{ 99999999999999999999 }}", 0}, {"{{ 1 +\n99999999999999999999 }}", 1}, {"{{ [1,\nnope] }}", 1}, {"{{ {a: 1,\nb: nope} }}", 1}, {"{{ 'x'.repeat(\nnope) }}", 1}, {"{{ true ?\nnope : 1 }}", 1}, {"{{ a = 1;\nb = 2;\nnope }}", 2}, {"{{ 1 +\nnope }}", 1}, {"{{ (1\n+ 2) * nope }}", 1}, {"{{ 'a'[\nnope] }}", 1}, {"{{ -\nnope }}", 1},
	{"@each(x in [1, 'a'])\n\n{{ x }}@end", 0}, {"{{ x = 'a' }}@each(x in [1])\n\nb@end", 0}, {"@each(x in [1])\n{{ x = 'a' }}\n@end", 1}, {"{{ i = 'a' }}@for(i = 0; i < 1; i++)\n\n@end", 0}, {"@for(i = 0; i < 1; i = 'a')\nb\n@end", 0}, {"@each(loop in [1])\nb\n@end", 0}, {"@for(loop = 0; false; 1)\nb\n@end", 0},
	{"{{ x = 1\n}}{{\nx = 'a'\n}}", 2}, {"@if(true)\n{{ loop = 1 }}\n@end", 1}, {"@each(x in 1)\n@else\na@end", 0}, {"@if(true){{ x = 1 }}\n@if(true)\n{{ x = 1.5 }}\n@end@end", 2}, {"@each(x in [1])\n@if(x)\n{{ loop.nope }}\n@end@end", 2}, {"@each(x in [1])\n@each(y in x)\n\n@end@end", 1}, {"@for(;;)\n@break\n@end{{ nope }}", 2},
	{"{{ 'a'.join(1) }}", 0}, {"{{ {}.len() }}", 0}, {"{{ nil.len() }}", 0}, {"{{ ''.at('a') }}", 0}, {"{{ {a: nil}.a.b }}", 0}, {"{{ [1].a }}", 0}, {"{{ 1 < 'a' }}", 0}, {"{{ 1 == 1.5 }}", 0}, {"{{ 5 % 2.5 }}", 0}, {"{{ [] + [] }}", 0},
	{"{{ # }}", 0}, {"{{ 1 +\n# }}", 1}, {"{{ 'a\n' $ }}", 1}, {"{{ a.# }}", 0}, {"@if(\n~)@end", 1}, {"@each(a in [1])\n{{ ^ }}@end", 1}, {"{{ {a: 1,\n& }}", 1},
	{"{{ ) }}", 0}, {"{{ 1 2 }}", 0}, {"{{ 1\n2 }}", 1}, {"{{ 1 + }}", 0}, {"{{ 'a\n' 2 }}", 1}, {"{{ [1\n2] }}", 1}, {"{{ a = }}", 0}, {"{{ }}", 0}, {"{{\n}}", 1}, {"{{ a.1 }}", 0}, {"@each(1 of [1])@end", 0}, {"@if x@end", 0}, {"{{ a ? b }}", 0}, {"{{ a\n? b\n}}", 2}, {"@for(i = 0)@end", 0}, {"@if(a)b@else\nc@elseif(d)e@end", 1}, {"@use(a b)", 0}, {"@component('c', 1)", 0}, {"{{ (1\n2) }}", 1}, {"{{ (a ? b) }}", 0}, {"{{ [a ? b] }}", 0}, {"{{ (1 +) }}", 0}, {"{{ [1,\n(2] }}", 1}, {"{{ a[1 }}", 0}, {"{{ a.b(1\n}}", 1}, {"{{ a.b(1 2) }}", 0}, {"{{ {a: } }}", 0}, {"{{ a = b = }}", 0},
	{"{{ 'a'\n.nope() }}", 1}, {"{{ 1\n.upper() }}", 1}, {"{{ [1]\n.trim() }}", 1}, {"{{ {a: 1}\n.b }}", 1}, {"{{ true\n\n.nope(\n1) }}", 2}, {"{{ {a: {}}\n.a\n.b }}", 2}, {"{{ 'a'\n.upper()\n.nope() }}", 2}, {"{{ a = 'x'\n.len()\n.nope() }}", 2}, {"@if('a'\n.nope())\n@end", 1}, {"@each(x in [1]\n.nope())\n@end", 1},
}

// H_C13_string: two pieces of prefix out of 13 kinds (text, strings, comments, multi-line code, blocks,
// escapes, CRLF) with symbolic bytes, then one of 128 faulty constructs of every kind the property
// lists, then more lines: the error names the line on which the faulty token ends.
// vrt:weight 3
func H_C13_string() {
	p := prefixes()
	f := faults[vrt.Choice(len(faults))]
	lineIs(p+f.src+pick("", "\n\nz{{ 1 }}\n"), 1+newlines(p)+f.off, "fault")
}

// H_C13_plain: every one of the 128 faulty constructs alone and behind two lines with a symbolic byte.
func H_C13_plain() {
	f := faults[vrt.Choice(len(faults))]
	p := ""
	if vrt.Bool() {
		p = "\n" + vrt.Str(1, bytesWithout("{@\\")) + "\n"
	}
	lineIs(p+f.src, 1+newlines(p)+f.off, "fault")
}

// H_C13_bytes: 0..3 (thorough 5) arbitrary bytes of text, string, comment or code whitespace in front
// of an undefined identifier or illegal character.
// vrt:weight 2
func H_C13_bytes() {
	n := vrt.Choice(quick(4, 6))
	var p string
	switch vrt.Choice(4) {
	case 0:
		t := vrt.Str(n, "")
		_, ok := refText(t)
		vrt.Assume(ok && (len(t) == 0 || t[len(t)-1] != '\\' && t[len(t)-1] != '{'))
		p = t
	case 1:
		q := pick("'", "\"")
		p = "{{ " + q + vrt.Str(n, bytesWithout(q+"\\")) + q + " }}"
	case 2:
		p = "{{--" + vrt.Str(n, bytesWithout("-}")) + "--}}"
	case 3:
		w := vrt.Str(n, " \t\r\n")
		lineIs("{{"+w+"nope"+w+"}}"+w, 1+newlines(w), "identifier between whitespace")
		return
	}
	lineIs(p+pick("{{ nope }}", "{{ @ }}", "@if(nope)@end")+"\n", 1+newlines(p), "fault after arbitrary bytes")
}

// failsAt loads the tree and renders the page when page is true; the error must name file and line.
func failsAt(page bool, file string, line int, label string) {
	dir := "tpl"
	if vrt.Choice(4) == 0 {
		dir = pick("tpl/", "tpl//", "./tpl", "tpl/../tpl", "tpl/layouts/..")
	}
	t, err := tw.NewTemplate(&config.Config{TemplateDir: dir, TemplateExt: ".tw"})
	var path, msg string
	var got int
	if page {
		vrt.Assert(err == nil, label+": loads")
		if err != nil {
			vrt.Observe("load", err.Error())
			return
		}
		_, ferr := t.String("a/p", nil)
		vrt.Assert(ferr != nil, label+": the render fails")
		if ferr == nil {
			return
		}
		path, got, msg = ferr.Filepath(), int(ferr.Line()), ferr.Message()
	} else {
		vrt.Assert(err != nil, label+": the load fails")
		if err == nil {
			return
		}
		vrt.Observe("load", err.Error())
		var ok bool
		path, got, msg, ok = errText(err.Error())
		vrt.Assert(ok, label+": the error is well formed")
	}
	vrt.Observe("msg", msg)
	vrt.Observe("path", path)
	vrt.Assert(filepath.IsAbs(path), label+": the path is absolute")
	vrt.AssertEq(filepath.Clean(path), vrt.Cwd()+"/tpl/"+file, label+": the path of the file")
	vrt.Assert(got == line, label+": the line of the construct")
}

var pageFaults = []fault{{"{{ nope }}", 0}, {"{{\n1 / 0 }}", 1}, {"{{ 'a\nb'.nope() }}", 1}, {"@each(x in [1])\n{{ x.y }}@end", 1}, {"@if(1 + 'a')@end", 0}}
var syntaxFaults = []fault{{"{{ # }}", 0}, {"{{ 1\n2 }}", 1}, {"@if(a)b@else\nc@elseif(d)e@end", 1}, {"{{ 'a\n' ) }}", 1}}

// H_C13_files: a prefix of symbolic bytes, then a fault in a page, inside of an insert (block and
// expression), a component argument, a slot body, or a syntax fault in the page, the layout or the
// component, an undefined insert, an unknown component and a missing layout: path and line.
// vrt:weight 2
func H_C13_files() {
	p := prefix()
	page := "x"
	layout := "<h>\n@reserve('t')</h>@reserve('b')"
	comp := "<c>@slot\n@slot('f')</c>"
	k := vrt.Choice(16)
	run, file, line := true, "a/p.tw", 0
	tail := "\n\n"
	f := pageFaults[0]
	switch {
	case k == 2 || k == 3:
	case k <= 4:
		f = pageFaults[vrt.Choice(len(pageFaults))]
	case k <= 7:
		f = syntaxFaults[vrt.Choice(len(syntaxFaults))]
		run = false
	default:
		run = false
	}
	line = 1 + newlines(p) + f.off
	switch k {
	case 0:
		page = p + f.src + tail
	case 1:
		page = "@use('~l')\n@insert('t')" + p + f.src + "\n@end"
		line++
	case 2:
		page = "@use('~l')" + p + "@insert('t', nope)" + tail
		line = 1 + newlines(p)
	case 3:
		page = p + "@component('c', {\na: nope})" + tail
		line = 2 + newlines(p)
	case 4:
		page = p + "@component('c')\n@slot\n" + f.src + tail + "@end\n@end"
		line += 2
	case 5:
		page = p + f.src + tail
	case 6:
		page, layout, file = "@use('~l')", "@reserve('t')"+p+f.src+tail, "layouts/l.tw"
	case 7:
		page, comp, file = "a\n\n@component('c')", p+f.src+tail, "c.tw"
	case 8:
		page = "@use('~l')\n" + p + "@insert('t', 'x')@insert('zz')\nq\n@end" + tail
		line = 2 + newlines(p)
	case 9:
		page = p + "@component('none', {\na: 1})" + tail
		line = 1 + newlines(p)
	case 10:
		page = p + "@use('~none')" + tail
		line = 1 + newlines(p)
	case 11:
		page = p + "@if(true)\n@component('~none')@end" + tail
		line = 2 + newlines(p)
	case 12:
		page = "@use('~l')\n" + p + "@insert('yy', 1)\n@insert('b')\nq\n@end" + tail
		line = 2 + newlines(p)
	case 13:
		page = "@component('c')\n" + p + "@component('c', {\na: 1})\n@component('none')\n@component('c')" + tail
		line = 4 + newlines(p)
	case 14:
		page = "@component('c')@slot('f')\nx@end@end\n" + p + "@each(x in [1])\n@component('c')@slot\n@end@end@component('d/e')@slot\n@end\n@end@end" + tail
		line = 5 + newlines(p)
	case 15:
		page = "@use('~l')\n@insert('t')\n@component('c')@end\n@insert('b')\n" + p + "@component('none')@end\n" + tail
		line = 5 + newlines(p)
	}
	if k == 2 || k == 3 {
		vrt.Reach("argument faults")
	}
	vrt.Observe("page", page)
	if file != "layouts/l.tw" && (k == 1 || k == 2 || k == 8 || k == 12) {
		vrt.Reach("layout used")
	}
	vrt.WriteFile("tpl/a/p.tw", page)
	vrt.WriteFile("tpl/layouts/l.tw", layout)
	vrt.WriteFile("tpl/c.tw", comp)
	failsAt(run, file, line, "fault "+itoa(k))
}
