package hs

import (
	"strings"

	"vh/vrt"
)

var directiveWords = []string{"@if", "@else", "@elseif", "@end", "@use", "@reserve", "@insert", "@for", "@each", "@continue", "@continueIf", "@break", "@breakIf", "@component", "@slot", "@dump"}

func startsDirective(s string) bool {
	if len(s) == 0 || s[0] != '@' {
		return false
	}
	for _, d := range directiveWords {
		if strings.HasPrefix(s, d) {
			return true
		}
	}
	return false
}

// refText is the rendering of text that may hold escapes and comments. ok is false when s holds code,
// a directive, an unterminated comment, or a form the documentation leaves open ("\{{" followed by
// another brace, "{{--}}", "{{---}}").
func refText(s string) (out string, ok bool) {
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == '{' && strings.HasPrefix(s[i:], "{{--"):
			j := strings.Index(s[i+2:], "--}}")
			if j < 2 {
				return "", false
			}
			i += 2 + j + 4
		case c == '{' && strings.HasPrefix(s[i:], "{{"):
			return "", false
		case c == '\\' && strings.HasPrefix(s[i+1:], "{{"):
			if i+3 < len(s) && s[i+3] == '{' {
				return "", false
			}
			out += "{{"
			i += 3
		case c == '\\' && startsDirective(s[i+1:]):
			out += "@"
			i += 2
		case c == '@' && startsDirective(s[i:]):
			return "", false
		default:
			out += s[i : i+1]
			i++
		}
	}
	return out, true
}

func textIs(s, label string) {
	want, ok := refText(s)
	vrt.Assume(ok)
	renders(s, nil, want, label)
}

// H_C05_raw: every text of 0..5 (thorough 0..7) arbitrary bytes that holds no code and no directive
// renders to itself with escape backslashes and comments removed.
// vrt:weight 3
func H_C05_raw() {
	textIs(vrt.Str(vrt.Choice(quick(6, 8)), ""), "text is emitted byte for byte")
}

// H_C05_dense: texts of 5..6 (thorough 5..8) bytes over the alphabet { } \ @ - i f newline.
// vrt:weight 2
func H_C05_dense() {
	textIs(vrt.Str(5+vrt.Choice(quick(2, 4)), "{}\\@-if\n"), "text is emitted byte for byte")
}

// H_C05_pieces: sequences of 4 (thorough 5) of 22 pieces (braces, escapes, directive words, comment
// delimiters, an arbitrary byte), compared with the reference text rendering.
// vrt:weight 2
func H_C05_pieces() {
	ps := []string{"{{", "}}", "\\", "@if", "@", "{", "}", "--", "{{-- ", "--}}", "{{--c--}}", "\\{{ ", "\\@else", "\n", "\r\n", "\xc3\xa9", "\xff", "@else", "(x)", "@End", " ", ""}
	s := ""
	for n := quick(4, 5); n > 0; n-- {
		k := vrt.Choice(len(ps))
		if ps[k] == "" {
			s += vrt.Str(1, "")
		} else {
			s += ps[k]
		}
	}
	textIs(s, "text is emitted byte for byte")
}

// H_C05_keywords: each of the 16 directive words and 6 words that are none, behind no, one or two
// backslashes and followed by 0..2 arbitrary bytes, within text: escaped words are emitted literally
// without the backslash, other words unchanged.
func H_C05_keywords() {
	ws := append([]string{"@If", "@elf", "@us", "@", "@foreach", "@comp"}, directiveWords...)
	w := ws[vrt.Choice(len(ws))]
	pre := pick("", "a", "\n ", "\\", "\\\\", "{", "@")
	textIs(pre+pick("", "\\")+w+vrt.Str(vrt.Choice(quick(2, 3)), ""), "escaped directive words")
}

// part is text of 0..n arbitrary bytes and its rendering.
func part(n int) (string, string) {
	s := vrt.Str(vrt.Choice(n+1), "")
	out, ok := refText(s)
	vrt.Assume(ok)
	return s, out
}

// openText is text that can stand before code: it neither ends in a backslash nor in a brace.
func openText(n int) (string, string) {
	s, out := part(n)
	if len(s) > 0 {
		l := s[len(s)-1]
		vrt.Assume(l != '\\' && l != '{')
	}
	return s, out
}

func notPrefixed(s string, p ...string) {
	for _, x := range p {
		vrt.Assume(!strings.HasPrefix(s, x))
	}
}

// H_C05_around: 0..2 (thorough 3) arbitrary bytes of text before and after a block of code, a call with
// braces and strings in it, a comment, an escape and each directive form: all of them are emitted
// around the construct's own output.
// vrt:weight 2
func H_C05_around() {
	n := quick(2, 3)
	a, ao := openText(n)
	b, bo := part(n)
	k := vrt.Choice(12)
	src, want := "", ""
	switch k {
	case 0:
		src, want = a+"{{ 12 }}"+b, ao+"12"+bo
	case 1:
		src, want = a+"{{ {a: {b: 3}}.a.b }}"+b, ao+"3"+bo
	case 2:
		src, want = a+"{{ '}}@end{{' }}"+b, ao+"}}@end{{"+bo
	case 3:
		src, want = a+"{{-- {{ x }} @if( '\" \\ --}}"+b, ao+bo
	case 4:
		notPrefixed(b, "if")
		src, want = a+"@if(false)q@else"+b+"{{ 1 }}@end", ao+bo+"1"
		vrt.Assume(len(b) == 0 || b[len(b)-1] != '\\' && b[len(b)-1] != '{')
	case 5:
		src, want = a+"@if(true)(@end"+b, ao+"("+bo
	case 6:
		src, want = a+"@each(v in [1, 2])"+"{{ v }}@end"+b, ao+"12"+bo
	case 7:
		src, want = a+"@for(i = 0; i < 2; i++)("+"{{ i }}@end"+b, ao+"(0(1"+bo
	case 8:
		src, want = a+"\\{{ x }}"+b, ao+"{{ x }}"+bo
	case 9:
		src, want = a+"\\@if(x)"+b, ao+"@if(x)"+bo
	case 10:
		src, want = a+"{{ x = 1; x }}"+b+"{{ x }}", ao+"1"+bo+"1"
		vrt.Assume(len(b) == 0 || b[len(b)-1] != '\\' && b[len(b)-1] != '{')
	}
	if k >= 11 {
		w := pick("@break@end", "@breakIf(1)x@end", "@continueIf(1)x@end", "@continue@end", "@dump(1)@end")
		src, want = "@each(v in [1])"+a+w+b, ao+bo
		if w == "@dump(1)@end" {
			want = ao + eval("@dump(1)", nil).out + bo
		}
	}
	renders(src, nil, want, "text around a construct")
}

// H_C05_bodies: 1..2 arbitrary bytes of text as the body of @if, @elseif, @else, @each, @for and nested
// blocks.
// vrt:weight 2
func H_C05_bodies() {
	t, o := openText(quick(2, 3))
	vrt.Assume(t == "" || t[0] != '(')
	switch vrt.Choice(7) {
	case 0:
		renders("@if(true)"+t+"@end", nil, o, "body of @if")
	case 1:
		renders("@if(false)"+"@elseif(1)"+t+"@else"+"y@end", nil, o, "body of @elseif")
	case 2:
		notPrefixed(t, "if")
		renders("@if(false)x@else"+t+"@end.", nil, o+".", "body of @else")
	case 3:
		renders("@each(a in [1, 2])"+t+"@end", nil, o+o, "body of @each")
	case 4:
		renders("@for(i = 0; i < 2; i++)"+t+"@end", nil, o+o, "body of @for")
	case 5:
		notPrefixed(t, "if")
		renders("@each(a in [])x@else"+t+"@end", nil, o, "@else of @each")
	case 6:
		renders("@if(true)@each(a in [1])"+t+"@if(true)"+t+"@end"+t+"@end@end", nil, o+o+o, "nested bodies")
	}
}

// H_C05_comment: comments holding 0..4 (thorough 6) arbitrary bytes, in text between text, in front of
// and behind code, inside of code and inside of block bodies: they give no output and nothing in
// them is interpreted.
// vrt:weight 2
func H_C05_comment() {
	c := vrt.Str(vrt.Choice(quick(5, 7)), "")
	k := "{{--" + c + "--}}"
	j := strings.Index(k[2:], "--}}")
	vrt.Assume(j >= 2 && j == len(k)-6)
	b := vrt.Str(1, bytesWithout("{@\\"))
	switch vrt.Choice(8) {
	case 0:
		renders(b+k+b, nil, b+b, "comment in text")
	case 1:
		renders("{{ 1 }}"+k+"{{ 2 }}", nil, "12", "comment between code")
	case 2:
		renders("{{ 1 "+k+" + 2 }}", nil, "3", "comment in code")
	case 3:
		renders("{{ 1 + 2 "+k+"}}"+b, nil, "3"+b, "comment at the end of code")
	case 4:
		renders("@if(true)"+k+b+"@end", nil, b, "comment in a body")
	case 5:
		renders(k+k+b, nil, b, "two comments")
	case 6:
		renders("@if("+k+"true)"+b+k+"@end", nil, b, "comment in a condition")
	case 7:
		renders("a"+k+"\\{{"+k+"{{ 3 }}", nil, "a{{3", "comment next to an escape")
	}
}

// H_C05_mixed: sequences of 3 (thorough 4) of 26 pieces out of every escaped directive word, an escaped "{{", code, blocks, comments and text, directly one behind the other, at top level or
// in the body of @if, @else, @each or @for: an escape affects the one word behind it and nothing that follows.
// vrt:weight 2
func H_C05_mixed() {
	type pc struct{ src, out string }
	ps := []pc{{"\\{{ x }}", "{{ x }}"}, {"{{ 1 }}", "1"}, {"@if(true)c@end", "c"}, {"@if(0)d@else(@end", "("}, {"@each(z in [7, 8]){{ z }}@end", "78"}, {"{{-- \\@if @end --}}", ""}, {"t", "t"}, {"(", "("}, {"\n", "\n"}, {"}}", "}}"}}
	for _, w := range directiveWords {
		ps = append(ps, pc{"\\" + w, w})
	}
	src, want := "", ""
	for n := quick(3, 4); n > 0; n-- {
		p := ps[vrt.Choice(len(ps))]
		src += p.src
		want += p.out
	}
	notPrefixed(src, "if", "(")
	switch vrt.Choice(5) {
	case 1:
		src, want = "@if(1)"+src+"@end", want
	case 2:
		src, want = "@if(nil)@else"+src+"@end.", want+"."
	case 3:
		src, want = "@each(q in [1, 2])"+src+"@end", want+want
	case 4:
		src, want = "@for(q = 0; q < 1; q++)"+src+"@end", want
	}
	renders(src, nil, want, "escapes next to directives")
}
