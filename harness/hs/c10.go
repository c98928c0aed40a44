package hs

import (
	"strings"

	"vh/vrt"
)

// lit is a symbolic string literal: its source and its text.
type lit struct{ src, text string }

// literal is a literal of n bytes of set in single or double quotes; a byte equal to the quote is written with a
// backslash. No backslash stands before a quote otherwise.
func literal(n int, set string) lit {
	q := byte('\'')
	if vrt.Choice(2) == 1 {
		q = '"'
	}
	return quoted(vrt.Str(n, set), q)
}

func quoted(t string, q byte) lit {
	src := string([]byte{q})
	for i := 0; i < len(t); i++ {
		c := t[i]
		if c == '\\' {
			vrt.Assume(i+1 < len(t) && t[i+1] != '\'' && t[i+1] != '"')
		}
		if c == q {
			src += "\\"
		}
		src += t[i : i+1]
	}
	return lit{src + string([]byte{q}), t}
}

// escaped reports whether out is an escaped form of text: no raw angle bracket, every ampersand begins the entity of the
// character that stands there in text, everything else as written.
func escaped(out, text string) bool {
	o := 0
	for i := 0; i < len(text); i++ {
		c := text[i]
		if c == '&' || c == '<' || c == '>' {
			var e []string
			switch c {
			case '&':
				e = []string{"&amp;", "&#38;", "&#x26;"}
			case '<':
				e = []string{"&lt;", "&#60;", "&#x3c;", "&#x3C;"}
			default:
				e = []string{"&gt;", "&#62;", "&#x3e;", "&#x3E;"}
			}
			ok := false
			for _, s := range e {
				if strings.HasPrefix(out[o:], s) {
					o += len(s)
					ok = true
					break
				}
			}
			if !ok {
				return false
			}
			continue
		}
		if o >= len(out) || out[o] != c {
			return false
		}
		o++
	}
	return o == len(out)
}

// shownEscaped asserts that out is pre, an escaped form of text, post.
func shownEscaped(r res, pre, text, post, label string) {
	vrt.Assert(!r.bad, label+": error instead of output")
	if r.bad {
		return
	}
	ok := len(r.out) >= len(pre)+len(post)
	if ok {
		m := r.out[len(pre) : len(r.out)-len(post)]
		vrt.AssertEq(r.out[:len(pre)], pre, label+": text before")
		vrt.AssertEq(r.out[len(r.out)-len(post):], post, label+": text after")
		ok = escaped(m, text)
		if !ok {
			vrt.Observe("literal", text)
			vrt.Observe("shown", m)
		}
	}
	vrt.Assert(ok, label+": the literal is shown escaped")
}

// dense is an alphabet of the characters that matter to escaping and of those that make entities.
const dense = "&<>#;ltgamp'\"x3"

// inContext uses the literals in one of the contexts of a single template; text is what must be shown (escaped unless
// exact), between pre and post.
func inContext(a, b lit) (src string, data map[string]any, pre, text, post string, exact bool) {
	data = map[string]any{"d": "x<", "t": true}
	text = a.text
	k := vrt.Choice(29)
	switch k {
	case 0:
		src = a.src
	case 1:
		src, text = a.src+" + "+b.src, a.text+b.text
	case 2:
		src, pre = "d + "+a.src, "x<"
	case 3:
		src, post = a.src+" + d", "x<"
	case 4:
		src = "[" + a.src + "][0]"
	case 5:
		src, text = "["+a.src+", "+b.src+"]", a.text+", "+b.text
	case 6:
		src = "t ? " + a.src + " : " + b.src
	case 7:
		src, text = "!t ? "+a.src+" : "+b.src, b.text
	case 8:
		src = "{k: " + a.src + "}.k"
	case 9:
		src = "{k: [1, {m: " + a.src + "}]}.k[1].m"
	case 10:
		src, text = "["+a.src+"].append("+b.src+")", a.text+", "+b.text
	case 11:
		src, text = "["+a.src+"].prepend("+b.src+").join(', ')", b.text+", "+a.text
	case 12:
		src, text = "t.then("+b.src+", "+a.src+")", b.text
	case 13:
		src, text = "['p', 'q'].join("+a.src+")", "p"+a.text+"q"
	case 14:
		src = "[1, " + a.src + "].slice(1)"
	case 15:
		src, text = "(("+a.src+" + "+b.src+")) + "+a.src, a.text+b.text+a.text
	case 16:
		return "{{ x = " + a.src + " }}{{ x }}", data, "", a.text, "", false
	case 17:
		return "{{ x = " + a.src + "; x = x + " + b.src + " }}[{{ x }}]", data, "[", a.text + b.text, "]", false
	case 18:
		return "@each(e in [" + a.src + ", " + b.src + "]){{ e }}, @end", data, "", a.text + ", " + b.text, ", ", false
	case 19:
		return "@if(" + a.src + " == " + a.src + ")<{{ " + a.src + " }}>@end", data, "<", a.text, ">", false
	case 20:
		return "@for(i = 0; i < 2; i++){{ " + a.src + " }}.@end", data, "", a.text + "." + a.text, ".", false
	case 21:
		src, exact = a.src+".raw()", true
	case 22:
		src, exact = "("+a.src+" + "+b.src+").raw()", true
		text = a.text + b.text
	case 23:
		src, exact = "["+a.src+"][0].raw()", true
	case 24:
		src, text, exact = a.src+".raw() + "+b.src+".raw()", a.text+b.text, true
	case 25:
		return "{{ x = " + a.src + " }}{{ x.raw() }}", data, "", a.text, "", true
	case 26:
		return "@each(e in [" + a.src + "]){{ e.raw() }}@end", data, "", a.text, "", true
	case 27:
		src, exact = "{k: "+a.src+"}.k.raw()", true
	case 28:
		return "{{ x = " + a.src + ".raw() }}{{ x }}", data, "", a.text, "", true
	}
	return "{{ " + src + " }}", data, pre, text, post, exact
}

func c10(a, b lit, label string) {
	src, data, pre, text, post, exact := inContext(a, b)
	r := eval(src, data)
	if exact {
		vrt.Assert(!r.bad, label+": error instead of output")
		if !r.bad {
			vrt.AssertEq(r.out, pre+text+post, label+": raw() gives the text of the literal")
		}
		return
	}
	shownEscaped(r, pre, text, post, label)
}

// H_C10_bytes: literals of 1..2 (thorough 1..4) arbitrary bytes in both quote styles in 29 contexts (printed, concatenated on either side
// with a literal or data, array, nested object, ternary, arguments and results of built-ins, variable, @each, @if, @for; and raw() on the
// literal, on concatenations, elements, properties and variables).
// vrt:weight 3
func H_C10_bytes() {
	a := literal(1+vrt.Choice(quick(2, 4)), "")
	c10(a, lit{"'m<'", "m<"}, "literal")
}

// H_C10_dense: literals of 3..5 (thorough 3..8) bytes of an alphabet of < > & # ; quotes and the letters of entities, same contexts.
// vrt:weight 4
func H_C10_dense() {
	a := literal(3+vrt.Choice(quick(3, 6)), dense)
	c10(a, lit{"\"&\"", "&"}, "dense literal")
}

// H_C10_pairs: two symbolic literals of 1..3 dense bytes, so that entities may arise where one ends and the other begins.
// vrt:weight 2
func H_C10_pairs() {
	c10(literal(1+vrt.Choice(3), dense), literal(1+vrt.Choice(3), dense), "two literals")
}

// H_C10_entities: every named or numeric entity of a list (also without semicolon and in upper case), with up to two symbolic dense bytes on each side.
func H_C10_entities() {
	e := entity()
	q := byte('\'')
	if vrt.Choice(2) == 1 {
		q = '"'
	}
	c10(quoted(vrt.Str(vrt.Choice(2), dense)+e+vrt.Str(vrt.Choice(3), dense), q), lit{"'<'", "<"}, "entity")
}

// entity is one of a list of entities and odd texts.
func entity() string {
	return pick("&lt;", "&gt;", "&amp;", "&quot;", "&apos;", "&#39;", "&#34;", "&#60;", "&#x3c;", "&LT;", "&lt", "&amp", "&amp;lt;", "&amp;#39;", "&nbsp;", "&eacute;",
		"&notin;", "&NotEqualTilde;", "&#0;", "&#128;", "&#xD800;", "&#1114112;", "&#x;", "&;", "é<\u2028", "😀&", "\xff&\x80<", "}}", "{{ x }}", "@if(", "\n\t<", "--}}", "<!-- -->")
}

// H_C10_files: literals of 1..3 dense bytes, or an entity of the list with up to one symbolic byte on each side, as insert (inline and block), component argument, nested component argument, in
// a slot body, in a layout and in a component, with raw() applied where they arrive.
// vrt:weight 2
func H_C10_files() {
	var a lit
	if vrt.Choice(2) == 0 {
		a = literal(1+vrt.Choice(quick(3, 4)), dense)
	} else {
		a = quoted(vrt.Str(vrt.Choice(2), dense)+entity()+vrt.Str(vrt.Choice(2), dense), []byte("'\"")[vrt.Choice(2)])
	}
	files := []string{}
	exact := false
	switch vrt.Choice(20) {
	case 0:
		files = []string{"p", "@use('l')@insert('t', " + a.src + ")", "l", "[@reserve('t')]"}
	case 1:
		files = []string{"p", "@use('l')@insert('t'){{ " + a.src + " }}@end", "l", "[@reserve('t')]"}
	case 2:
		files = []string{"p", "[@component('c', {a: " + a.src + "})]", "c", "{{ a }}"}
	case 3:
		files = []string{"p", "[@component('c')@slot{{ " + a.src + " }}@end@end]", "c", "@slot"}
	case 4:
		files = []string{"p", "[@component('c')@slot('s'){{ " + a.src + " }}@end@end]", "c", "@slot('s')"}
	case 5:
		files = []string{"p", "@use('l')", "l", "@if(false)@reserve('x')@end[{{ " + a.src + " }}]"}
	case 6:
		files = []string{"p", "[@component('c')]", "c", "{{ " + a.src + " }}"}
	case 7:
		files = []string{"p", "@use('l')@insert('t')@component('c', {a: " + a.src + "})@end", "l", "[@reserve('t')]", "c", "{{ b = a }}{{ b }}"}
	case 8:
		files = []string{"p", "[@component('c', {a: {b: [" + a.src + "]}})]", "c", "{{ a.b[0] }}"}
	case 9:
		exact = true
		files = []string{"p", "[@component('c', {a: " + a.src + "})]", "c", "{{ a.raw() }}"}
	case 10:
		exact = true
		files = []string{"p", "@use('l')@insert('t', " + a.src + ".raw())", "l", "[@reserve('t')]"}
	case 11:
		exact = true
		files = []string{"p", "[@component('c')@slot{{ " + a.src + ".raw() }}@end@end]", "c", "@slot"}
	case 12:
		files = []string{"p", "@use('l')@insert('t', " + a.src + " + '')", "l", "[@reserve('t')]"}
	case 13:
		files = []string{"p", "@use('l')@insert('t', true ? " + a.src + " : 'x')", "l", "[@reserve('t')]"}
	case 14:
		files = []string{"p", "@use('l')@insert('t', [" + a.src + "])", "l", "@if(true)[@reserve('t')]@end"}
	case 15:
		files = []string{"p", "@use('l')@insert('t'){{ x = " + a.src + " }}{{ x }}@end", "l", "@each(q in [1])[@reserve('t')]@end"}
	case 16:
		files = []string{"p", "[@component('c', {a: [" + a.src + ", 'z']})]", "c", "@each(e in a.slice(0, 1)){{ e }}@end"}
	case 17:
		files = []string{"p", "[{{ x = " + a.src + " }}@component('c', {a: x})]", "c", "@if(true){{ b = a; b }}@end"}
	case 18:
		files = []string{"p", "[@component('c', {a: {b: " + a.src + "}})]", "c", "{{ a.b + '' }}"}
	case 19:
		exact = true
		files = []string{"p", "@use('l')@insert('t', [" + a.src + "][0].raw())", "l", "@if(true)[@reserve('t')]@end"}
	}
	t, err := site(files...)
	vrt.Assert(err == nil, "files: the templates load")
	if err != nil {
		return
	}
	out, ferr := t.String("p", nil)
	vrt.Assert(ferr == nil, "files: the page renders")
	if ferr != nil {
		return
	}
	vrt.Observe("src", files[1])
	vrt.Observe("out", out)
	if exact {
		vrt.AssertEq(out, "["+a.text+"]", "files: raw() gives the text of the literal")
		return
	}
	shownEscaped(res{out: out}, "[", a.text, "]", "files")
}

// H_C10_names: a literal with markup and a symbolic byte that reaches the output under one of 20 names (a variable, an argument of a component, a property, an insert, a slot): it is escaped under every name.
func H_C10_names() {
	a := literalOf("<b>&" + vrt.Str(1, dense))
	n := pick("html", "content", "body", "title", "raw", "safe", "class", "style", "script", "attrs", "href", "url", "text", "slot", "value", "children", "markup", "inner_html", "_", "HTML")
	var files []string
	switch vrt.Choice(7) {
	case 0:
		files = []string{"p", "[@component('c', {" + n + ": " + a.src + "})]", "c", "{{ " + n + " }}"}
	case 1:
		files = []string{"p", "[{{ " + n + " = " + a.src + "; " + n + " }}]"}
	case 2:
		files = []string{"p", "[{{ {" + n + ": " + a.src + "}." + n + " }}]"}
	case 3:
		files = []string{"p", "@use('l')@insert('" + n + "', " + a.src + ")", "l", "[@reserve('" + n + "')]"}
	case 4:
		files = []string{"p", "[@component('" + n + "')@slot('" + n + "'){{ " + a.src + " }}@end@end]", n, "@slot('" + n + "')"}
	case 5:
		files = []string{"p", "@use('" + n + "')@insert('t'){{ " + n + " = " + a.src + " }}{{ " + n + " }}@end", n, "[@reserve('t')]"}
	case 6:
		files = []string{"p", "[@each(" + n + " in [" + a.src + "]){{ " + n + " }}@end]"}
	}
	t, err := site(files...)
	vrt.Assert(err == nil, "names: the templates load")
	if err != nil {
		return
	}
	out, ferr := t.String("p", nil)
	vrt.Assert(ferr == nil, "names: the page renders")
	if ferr != nil {
		return
	}
	vrt.Observe("src", files[1])
	vrt.Observe("out", out)
	shownEscaped(res{out: out}, "[", a.text, "]", "names")
}

func literalOf(t string) lit { return quoted(t, []byte("'\"")[vrt.Choice(2)]) }
