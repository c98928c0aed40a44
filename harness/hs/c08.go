package hs

import (
	"strings"

	tw "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"
	"github.com/textwire/textwire/v2/lexer"
	"github.com/textwire/textwire/v2/parser"
	"vh/vrt"
)

// parses runs lexer and parser on src and checks the contract "a program without errors or at
// least one error with a line number of the source". It returns the number of errors.
func parses(src string) int {
	vrt.Observe("src", src)
	p := parser.New(lexer.New(src), "/x.tw")
	prog := p.ParseProgram()
	errs := p.Errors()
	vrt.Assert(p.HasErrors() == (len(errs) > 0), "HasErrors agrees with Errors")
	if len(errs) == 0 {
		vrt.Observe("result", "program")
		vrt.Assert(prog != nil, "no program and no error")
		return 0
	}
	n := uint(newlines(src))
	for _, e := range errs {
		vrt.Assert(e != nil && e.Line() >= 1 && e.Line() <= n+1, "the error line is a line of the source")
	}
	vrt.Observe("result", errs[0].String())
	return len(errs)
}

// H_C08_raw: every template of 0..5 (thorough 0..7) arbitrary bytes; lexer and parser return within the
// step budget and give a program or an error with a line of the source.
// vrt:weight 2
func H_C08_raw() {
	parses(vrt.Str(vrt.Choice(quick(6, 8)), ""))
}

// H_C08_code: 1..3 (thorough 4) arbitrary bytes inside of each kind of code position, with the
// construct continued or cut right after them.
// vrt:weight 2
func H_C08_code() {
	pre := pick("{{", "{{ a", "{{ {", "{{ {a:", "{{ [", "{{ a.", "{{ a.f(", "{{ \"", "{{ 'a", "{{--", "@if(", "@elseif(",
		"@for(", "@for(i=0;", "@for(;;", "@each(", "@each(a in ", "@each(a in b)", "@if(a)", "@if(a)b@else", "@insert(", "@insert('a',", "@insert('a')",
		"@use(", "@reserve(", "@component(", "@component('c',", "@component('c', {", "@component('c')", "@component('c')@slot", "@component('c')@slot('a')b@end", "@slot(", "@dump(", "@breakIf(", "@continueIf(", "{{ a = ", "{{ a; ", "{{ a ? ", "{{ a ? b : ", "{{ a[", "{{ (", "{{ -", "{{ 1")
	mid := vrt.Str(1+vrt.Choice(quick(2, 4)), "")
	parses(pre + mid + pick("", " }}", ")@end", "}) }}@end"))
}

type cutCase struct {
	src string
	min int // cuts from here to the end are unterminated
}

func cutCases() []cutCase {
	d := vrt.Str(1, digits)
	v := vrt.Str(1, lower)
	s := vrt.Str(2, bytesWithout("\\\"'"))
	t := vrt.Str(2, bytesWithout("\\@{"))
	if vrt.Choice(2) == 1 {
		t = pick("{{ a }}", "x{{ a }}", "{{ a }}y{{ b }}", "@if(a)b@end", "x@each(a in b){{ a }}@end y", "@component('d')@slot x@end@end", "{{-- c --}}", "\\{{ a }}", "@dump(a)z", "@reserve('q'){{ 1 }}")
	}
	c := vrt.Str(2, bytesWithout("-}"))
	return []cutCase{
		{"{{ " + v + " }}", 2},
		{"{{ \"" + s + "\" }}", 2},
		{"{{ '" + s + "' + \"" + s + "\" }}", 2},
		{"{{ {" + v + ": " + d + ", b: {c: '" + s + "'}} }}", 2},
		{"{{ [" + d + ", [2, " + v + "], {}] }}", 2},
		{"{{ " + v + ".f(" + d + ", {a: 1}, \"" + s + "\").g }}", 2},
		{"{{ " + v + " = " + d + "; " + v + " + 1; -" + d + ".5 }}", 2},
		{"{{ " + v + " ? (" + d + ") : a[" + d + "] }}", 2},
		{"{{ " + v + "++ }}", 2},
		{"{{ !(" + v + " == nil) }}", 2},
		{"{{--" + c + "--}}", 2},
		{"{{ 1 {{--" + c + "--}} + 2 }}", 2},
		{"@if(" + v + ")" + t + "@end", 3},
		{"@if(" + v + " == (" + d + "))" + t + "@elseif(a)x@else" + t + "@end", 3},
		{"@if(true)@if(" + v + ")" + t + "@end@else{{ '" + s + "' }}@end", 3},
		{"@for(i = " + d + "; i < 2; i++)" + t + "@else" + t + "@end", 4},
		{"@for(;;)" + t + "@break@end", 4},
		{"@each(" + v + " in [" + d + ", 2])" + t + "@continueIf(" + v + ")@breakIf(a.b(1))@else" + t + "@end", 5},
		{"@each(" + v + " in {a: ['" + s + "']}.a){{ loop.index }}@end", 5},
		{"@insert(\"" + s + "\")" + t + "@end", 7},
		{"@insert('" + s + "', {a: " + d + "}.a)", 7},
		{"@use('" + s + "')", 4},
		{"@reserve('" + s + "')", 8},
		{"@component('c', {" + v + ": [" + d + ", '" + s + "']})", 10},
		{"@component(\"~c\")", 10},
		{"@dump(" + v + ", " + d + ")", 5},
		{"@slot('" + s + "')", 6},
		{"@breakIf(" + v + ")", 8},
		{"@continueIf(" + v + ")", 11},
		{"{{ 'a\\' }} ) ] @end \" , : b' }}", 2},
		{"@if(a == \"b\\\")@end }}, ' c\")" + t + "@end", 3},
		{"@insert('n', 'a\\')@end , b')", 7},
	}
}

// H_C08_cut: 32 valid constructs covering every bracketed form of the language, with digits,
// identifiers, string bytes, text bytes and comment bytes symbolic, cut at every position from the
// point where the construct is open to just before its last byte: each cut is rejected.
// vrt:weight 3
func H_C08_cut() {
	cs := cutCases()
	c := cs[vrt.Choice(len(cs))]
	n := c.min + vrt.Choice(len(c.src)-c.min)
	pre := pick("", "x\n")
	vrt.Assert(parses(pre+c.src[:n]) > 0, "an unterminated construct is rejected")
}

// H_C08_cutlast: the same constructs cut at every position behind four complete constructs of one kind (nine kinds; quick: inserts and one other kind per position): rejected too.
func H_C08_cutlast() {
	cs := cutCases()
	c := cs[vrt.Choice(len(cs))]
	n := c.min + vrt.Choice(len(c.src)-c.min)
	pre := ""
	k := vrt.Choice(quick(2, 9))
	if quick(1, 0) == 1 && k == 1 {
		k = 1 + n%8
	}
	switch k {
	case 0:
		pre = "@insert('p0', 1)@insert('p1')b@end@insert('p2', 'x')@insert('p3')@end"
	case 1:
		pre = "@reserve('q0')@reserve('q1')@reserve('q2')@reserve('q3')"
	case 2:
		pre = strings.Repeat("@if(t)x@elseif(u)y@else z@end", 4)
	case 3:
		pre = strings.Repeat("@each(k in [1, 2])x{{ k }}@else z@end", 4)
	case 4:
		pre = strings.Repeat("@for(k = 0; k < 2; k++)x{{ k }}@else z@end", 4)
	case 5:
		pre = strings.Repeat("@component('c', {a: 1})", 2) + strings.Repeat("@component('c')@slot a@end@slot('n')b@end@end", 2)
	case 6:
		pre = strings.Repeat("{{ x = {a: [1, 2.5], 'b': -1}; x.a[0] + (2 * 3) }}", 4)
	case 7:
		pre = "@slot@slot('a')@slot('b')@slot"
	case 8:
		pre = strings.Repeat("{{-- c --}}@dump(1)\\{{ x }}", 4)
	}
	vrt.Assert(parses(pre+c.src[:n]) > 0, "an unterminated construct behind complete ones is rejected")
}

// H_C08_slotcut: component uses with slots, cut anywhere after the first @slot.
func H_C08_slotcut() {
	s := vrt.Str(1, bytesWithout("\\\"'"))
	t := vrt.Str(2, bytesWithout("\\@{"))
	cs := []cutCase{
		{"@component('c')@slot" + t + "@end@end", 20},
		{"@component('c') @slot('" + s + "')" + t + "@end\n@slot{{ " + vrt.Str(1, lower) + " }}@end @end", 21},
		{"@component('c', {a: 1})\n\t@slot(\"" + s + "\")@if(a)" + t + "@end@end @end", 30},
	}
	c := cs[vrt.Choice(len(cs))]
	n := c.min + vrt.Choice(len(c.src)-c.min)
	vrt.Assert(parses(c.src[:n]) > 0, "an unterminated slot is rejected")
}

// illegalBytes are the bytes that no token of the language starts with or contains outside of strings.
const legalCode = letters + digits + "_ \t\r\n+-*/%!=<>(){}[]?:,.;\"'"

// H_C08_illegal: one symbolic byte that is legal nowhere in code, at every kind of code position
// (between, before and after tokens, in every directive): the template is rejected.
// vrt:weight 2
func H_C08_illegal() {
	b := vrt.Str(1, bytesWithout(legalCode))
	src := pick("{{ \x00 }}", "{{\x00}}", "{{ a\x00 }}", "{{ a \x00b }}", "{{ 1\x00 }}", "{{ 1 + \x00 }}", "{{ 1 \x00 2 }}", "{{ \x001 }}",
		"{{ a.\x00b }}", "{{ a.b\x00 }}", "{{ a.b(\x00) }}", "{{ a.b(1\x00) }}", "{{ a[\x00] }}", "{{ a[1]\x00 }}", "{{ [\x00] }}", "{{ [1\x00] }}", "{{ [1, \x00] }}",
		"{{ {\x00} }}", "{{ {a\x00} }}", "{{ {a\x00: 1} }}", "{{ {a: \x00} }}", "{{ {a: 1\x00} }}", "{{ {a: 1, \x00} }}", "{{ {a: 1}\x00 }}",
		"{{ 'a'\x00 }}", "{{ \x00'a' }}", "{{ a = \x00 }}", "{{ a \x00= 1 }}", "{{ a = 1\x00 }}", "{{ a = 1; \x00 }}", "{{ a = 1 \x00; a }}", "{{ a ? \x00 : 1 }}", "{{ a ? 1 \x00 : 1 }}", "{{ a ? 1 : 2\x00 }}",
		"{{ (\x00a) }}", "{{ (a\x00) }}", "{{ -\x00a }}", "{{ !\x00a }}", "{{ a++\x00 }}", "{{ nil\x00 }}", "{{ true\x00 }}", "{{ 1.5\x00 }}",
		"@if(\x00)a@end", "@if(a\x00)a@end", "@if(a)@elseif(\x00)@end", "@if(a)@elseif(b\x00)@end", "@if\x00(a)b@end", "@if(a)@elseif\x00(b)@end", "@for(\x00;;)@end", "@for(i = 0\x00; i < 1; i++)@end", "@for(i = 0; \x00; i++)@end", "@for(i = 0; i < 1\x00; i++)@end", "@for(i = 0; i < 1; \x00)@end", "@for(i = 0; i < 1; i++\x00)@end",
		"@each(\x00 in [1])@end", "@each(a\x00 in [1])@end", "@each(a in \x00)@end", "@each(a in [1]\x00)@end", "@each(a \x00 [1])@end",
		"@insert(\x00)a@end", "@insert('a'\x00)a@end", "@insert('a', \x00)", "@insert('a', 1\x00)", "@use(\x00)", "@use('a'\x00)", "@use\x00('a')", "@reserve('a'\x00)", "@reserve(\x00)",
		"@component(\x00)", "@component('a'\x00)", "@component('a', \x00)", "@component('a', {\x00})", "@component('a', {b: 1}\x00)", "@component('a', {b: \x00})",
		"@slot(\x00)", "@slot('a'\x00)", "@component('a')@slot(\x00)b@end@end", "@component('a')@slot('b'\x00)b@end@end", "@dump(\x00)", "@dump(1\x00)", "@dump(1, \x00)", "@breakIf(\x00)", "@breakIf(1\x00)", "@continueIf(\x00)", "@continueIf(1\x00)",
		"a{{ 1 }}b{{ \x00 }}c", "@if(a){{ \x00 }}@end", "@each(a in [1])@if(a){{ b\x00 }}@end@end", "@if(a)x@else{{ \x00 }}@end", "@insert('a'){{ \x00 }}@end", "@component('a')@slot{{ \x00 }}@end@end", "{{ 1 }}{{-- \n --}}{{ \x00 }}")
	i := strings.IndexByte(src, 0)
	src = src[:i] + b + src[i+1:]
	vrt.Assert(parses(src) > 0, "an illegal character is rejected")
}

func bases() []string {
	return []string{
		"a{{ b + 1 }}c",
		"{{ \"a\\\"b\" + 'c' }}",
		"{{ {a: 1, b: [2, {c: 3}]}.b[1].c }}",
		"{{ a = 1; b = -a * 2.5; !b ? a : b++ }}",
		"{{ \"x\".len().str() + [1].join(', ') }}",
		"@if(a)b@elseif(c)d@else e@end",
		"@for(i = 0; i < 3; i++){{ i }}@break@else x@end",
		"@each(v in [1, 2])@continueIf(v == 1){{ loop.last }}@else y@end",
		"@use('~a')@insert('t', 'x')@insert('c')<b>{{ d }}</b>@end",
		"<p>@reserve('t')</p>@slot('a')@slot",
		"@component('~c', {a: 1, b})@slot('h')x@end@slot y@end@end z",
		"@dump(a, [1], {b: 2})\\@if \\{{ x }} {{-- c --}}",
	}
}

// H_C08_edit: 12 valid templates that use every construct, with 0..2 bytes deleted and 0..1 (thorough 0..2)
// arbitrary bytes inserted at any position.
// vrt:weight 3
func H_C08_edit() {
	bs := bases()
	b := bs[vrt.Choice(len(bs))]
	i := vrt.Choice(len(b) + 1)
	del := vrt.Choice(3)
	if i+del > len(b) {
		del = len(b) - i
	}
	ins := vrt.Str(vrt.Choice(quick(2, 3)), "")
	parses(b[:i] + ins + b[i+del:])
}

// H_C08_tokens: every sequence of 3 (thorough 4) lexemes out of 36 covering all token types.
// vrt:weight 2
func H_C08_tokens() {
	lex := []string{"{{", "}}", "{", "}", "(", ")", "[", "]", "'s'", "x", "1", "1.5", ",", ":", ";", ".", "?", "=", "+", "-", "!", "++",
		"@if", "@else", "@elseif", "@end", "@for", "@each", "@use", "@insert", "@reserve", "@component", "@slot", "@dump", "@breakIf", " in "}
	s := pick("", "{{", "@if(", "@each(x in ", "@component('c')")
	for n := quick(3, 4); n > 0; n-- {
		s += lex[vrt.Choice(len(lex))]
	}
	parses(s)
}

// loads calls NewTemplate and checks that it gives a template or an error, never both or neither.
func loads(cfg *config.Config) (*tw.Template, error) {
	t, err := tw.NewTemplate(cfg)
	vrt.Assert((t == nil) == (err != nil), "a template or an error")
	if err != nil {
		vrt.Observe("load", err.Error())
		_, line, msg, ok := errText(err.Error())
		_ = line
		vrt.Assert(ok && msg != "", "a load error is a Textwire error")
	} else {
		vrt.Observe("load", "ok")
	}
	return t, err
}

// H_C08_files: 1..2 (thorough 3) arbitrary bytes within the content of a page, of the layout it uses or
// of the component it uses: NewTemplate returns a template or an error with a line of that file.
// vrt:weight 2
func H_C08_files() {
	s := vrt.Str(1+vrt.Choice(quick(2, 3)), "")
	where := vrt.Choice(3)
	frame := pick("", "{{ ", "@if(", "@component('d')@slot", "@insert('a')", "@reserve('r')", "@slot('")
	s = frame + s + pick("", "@end")
	page, layout, comp := "@use('~l')@insert('r', 'x')", "@reserve('r')", "<b>@slot</b>"
	if where != 1 {
		page = "@component('c')"
	}
	switch where {
	case 0:
		page = s
	case 1:
		layout = "@reserve('r')" + s
	case 2:
		comp = s
	}
	vrt.Observe("content", s)
	vrt.WriteFile("templates/p.tw.html", page)
	vrt.WriteFile("templates/layouts/l.tw.html", layout)
	vrt.WriteFile("templates/c.tw.html", comp)
	t, err := loads(nil)
	if err == nil {
		vrt.Assert(t != nil, "loaded")
		return
	}
	_, line, _, _ := errText(err.Error())
	vrt.Assert(line <= newlines(s)+1, "the error line is a line of the file")
}

// deepKinds are constructs that nest without an end: opening, innermost part, closing. A chain is a
// tree that is deep although its parts stand one behind the other.
var deepKinds = []struct {
	pre, open, mid, close, post string
	chain                       bool
}{
	{"{{ ", "(", "1", ")", " }}", false},
	{"{{ ", "[", "1", "]", " }}", false},
	{"{{ ", "{a:", "1", "}", " }}", false},
	{"{{ ", "- ", "1", "", " }}", false},
	{"{{ ", "1?1:", "1", "", " }}", false},
	{"{{ ", "a[", "1", "]", " }}", false},
	{"{{ ", "1.f(", "1", ")", " }}", false},
	{"", "@if(1)", "x", "@end", "", false},
	{"", "@if(0)@else ", "x", "@end", "", false},
	{"", "@for(;0;)", "x", "@end", "", false},
	{"", "@each(a in [1])", "x", "@end", "", false},
	{"", "@insert('a')", "x", "@end", "", false},
	{"", "@component('c')@slot", "x", "@end@end", "", false},
	{"{{ 1", "++", "", "", " }}", true},
	{"{{ 1", "+1", "", "", " }}", true},
	{"{{ a", "[1]", "", "", " }}", true},
	{"{{ a", ".b", "", "", " }}", true},
}

// H_C08_deep: each kind of construct nested or chained so deep that a recursion over it needs more than
// 40000 calls when nothing limits it, closed or cut; a native replay nests it four million times, which
// is more than the stack of a goroutine holds. Parsing and evaluation return.
// vrt:steps 400000000
func H_C08_deep() {
	k := deepKinds[vrt.Choice(len(deepKinds))]
	n := 4000000
	if vrt.Symbolic() {
		n = 15000
		if k.chain {
			n = 22000
		}
	}
	src := k.pre + strings.Repeat(k.open, n) + k.mid
	if vrt.Choice(2) == 1 {
		src += strings.Repeat(k.close, n) + k.post
	}
	_, err := tw.EvaluateString(src, map[string]any{"a": 1})
	vrt.Assert(err == nil || strings.Contains(err.Error(), "ERROR:"), "an output or an error with a line")
}

// H_C08_illegal2: two or three bytes that are legal nowhere in code, next to each other or around legal ones, where an operator, operand, separator or name is expected: rejected.
func H_C08_illegal2() {
	ill := bytesWithout(legalCode)
	b := vrt.Str(2, ill)
	switch vrt.Choice(4) {
	case 1:
		b += vrt.Str(1, ill)
	case 2:
		b = b[:1] + " " + b[1:]
	case 3:
		b = b[:1] + vrt.Str(1, legalCode) + b[1:]
		vrt.Assume(b[1] != '"' && b[1] != '\'')
	}
	src := pick("{{ a \x00 b }}", "{{ \x00 }}", "{{ a\x00b }}", "{{ \x00a }}", "{{ a\x00 }}", "{{ 1 \x00= 1 }}", "{{ [1 \x00 2] }}", "{{ {a\x00 1} }}", "{{ a.b(1 \x00 2) }}", "{{ a = 1 \x00 b }}", "@if(a \x00 b)@end", "@each(a in b \x00 c)@end", "@for(i = 0; i < 1 \x00 i; i++)@end", "@component('c' \x00)", "@insert('a' \x00 'b')", "@dump(a \x00 b)", "{{ a ? b \x00 c : d }}", "{{ a[1 \x00 2] }}")
	i := strings.IndexByte(src, 0)
	vrt.Assert(parses(src[:i]+b+src[i+1:]) > 0, "illegal characters are rejected")
}
