package hs

import (
	"strings"

	"github.com/textwire/textwire/v2/lexer"
	"github.com/textwire/textwire/v2/token"
	"vh/vrt"
)

type lc struct{ line, col uint }

// positions maps each offset of s, and the one past its end, to its line and column.
func positions(s string) []lc {
	r := make([]lc, 0, len(s)+1)
	var p lc
	for i := 0; i < len(s); i++ {
		r = append(r, p)
		p.col++
		if s[i] == '\n' {
			p = lc{p.line + 1, 0}
		}
	}
	return append(r, p)
}

func offsetOf(ps []lc, line, col uint) int {
	for i, p := range ps {
		if p.line == line && p.col == col {
			return i
		}
	}
	return -1
}

// gapKind says whether a gap between tokens holds whitespace outside of comments, and whether it holds
// nothing but whitespace and comments.
func gapKind(g string) (space, ok bool) {
	for i := 0; i < len(g); {
		if g[i] == ' ' || g[i] == '\t' || g[i] == '\n' || g[i] == '\r' {
			space = true
			i++
			continue
		}
		if !strings.HasPrefix(g[i:], "{{--") {
			return space, false
		}
		j := strings.Index(g[i+2:], "--}}")
		if j < 0 {
			return space, false
		}
		i += 2 + j + 4
	}
	return space, true
}

// unescapeText removes the backslashes in front of "{{" and of directive words.
func unescapeText(s string, rest string) (string, bool) {
	out := ""
	all := s + rest
	for i := 0; i < len(s); {
		if s[i] == '\\' && strings.HasPrefix(all[i+1:], "{{") {
			if strings.HasPrefix(all[i+1:], "{{{") {
				return "", false
			}
			out += "{{"
			i += 3
			continue
		}
		if s[i] == '\\' && startsDirective(all[i+1:]) {
			i++
			continue
		}
		out += s[i : i+1]
		i++
	}
	return out, true
}

// tiles lexes src and checks every claim about token positions.
func tiles(src string) {
	vrt.Observe("src", src)
	ps := positions(src)
	l := lexer.New(src)
	at := 0 // the first offset not yet covered
	html := true
	var starts, ends []int
	var toks []token.Token
	for n := 0; ; n++ {
		if n > len(src)+2 {
			vrt.Assert(false, "more tokens than bytes")
			return
		}
		t := l.NextToken()
		toks = append(toks, t)
		a := offsetOf(ps, t.Pos.StartLine, t.Pos.StartCol)
		b := offsetOf(ps, t.Pos.EndLine, t.Pos.EndCol)
		if t.Type == token.EOF {
			vrt.Assert(a == len(src) && b == len(src), "the end token is at the end of the source")
			if a != len(src) || b != len(src) {
				return
			}
		} else {
			vrt.Assert(a >= 0 && b >= 0 && a < len(src) && b < len(src), "a token starts and ends at a byte of the source")
			if a < 0 || b < 0 || a >= len(src) || b >= len(src) {
				return
			}
			vrt.Assert(a <= b, "a token does not end before it starts")
		}
		vrt.Assert(a >= at, "tokens are in order and do not overlap")
		if a < at || b < a {
			return
		}
		space, ok := gapKind(src[at:a])
		vrt.Assert(ok, "gaps hold only whitespace and comments")
		vrt.Assert(!space || !html, "no whitespace is skipped in text")
		if t.Type == token.EOF {
			starts, ends = append(starts, a), append(ends, a)
			break
		}
		text := src[a : b+1]
		switch t.Type {
		case token.STR:
			q := text[0]
			vrt.Assert(len(text) >= 2 && (q == '"' || q == '\'') && text[len(text)-1] == q, "a string token includes its quotes")
			if len(text) < 2 {
				return
			}
			vrt.AssertEq(t.Literal, strings.ReplaceAll(text[1:len(text)-1], "\\"+string(q), string(q)), "the literal of a string is its text")
		case token.HTML:
			if want, ok := unescapeText(text, src[b+1:]); ok {
				vrt.AssertEq(t.Literal, want, "the literal of text is its text")
			}
		default:
			vrt.AssertEq(t.Literal, text, "the literal of a token is its text")
		}
		at = b + 1
		starts, ends = append(starts, a), append(ends, b)
		switch t.Type {
		case token.HTML, token.RBRACES, token.END, token.ELSE, token.BREAK, token.CONTINUE:
			html = true
		default:
			html = false
			if t.Type == token.SLOT && !strings.HasPrefix(src[at:], "(") {
				html = true
			}
		}
		if t.Type == token.HTML {
			// a text token ends where code starts
			vrt.Assert(at == len(src) || strings.HasPrefix(src[at:], "{{") || startsDirective(src[at:]), "text ends only at code")
		}
	}
	same := true
	for o, p := range ps {
		for i, t := range toks {
			if t.Pos.Contains(p.line, p.col) != (starts[i] <= o && o <= ends[i]) {
				same = false
			}
		}
	}
	vrt.Assert(same, "a position is in the range of the token that covers it only")
	d := ""
	for _, t := range toks {
		d += itoa(int(t.Type)) + ","
	}
	vrt.Observe("types", d)
}

// H_C19_raw: every source of 0..4 (thorough 0..6) arbitrary bytes; all tokens, gaps and all positions.
// vrt:weight 3
func H_C19_raw() {
	tiles(vrt.Str(vrt.Choice(quick(5, 7)), ""))
}

// H_C19_code: 1..2 (thorough 3) arbitrary bytes inside code, strings, comments, directive arguments and
// behind escapes, with a following line.
// vrt:weight 3
func H_C19_code() {
	pre := pick("{{", "{{ a\n", "{{ 1", "{{ 'a", "{{ \"\n", "{{-- ", "@if(", "@if(a\r\n", "@else", "@each(a in", "@slot", "@slot(", "\\", "a\n\\{", "{{ {", "@component('c', {", "@break", "{{ a }", "{{ +", "{{ <")
	tiles(pre + vrt.Str(1+vrt.Choice(quick(2, 3)), "") + pick("", " }}\nb", "')\n x@end", "\"}}--}}\n"))
}

// H_C19_edit: the 12 valid templates that use every construct, with 0..1 bytes deleted and 0..1
// (thorough 0..2) arbitrary bytes inserted at any position.
// vrt:weight 2
func H_C19_edit() {
	bs := bases()
	b := bs[vrt.Choice(len(bs))]
	i := vrt.Choice(len(b) + 1)
	del := vrt.Choice(2)
	if i+del > len(b) {
		del = len(b) - i
	}
	ins := vrt.Str(vrt.Choice(quick(2, 3)), "")
	tiles(b[:i] + ins + b[i+del:])
}

// H_C19_lines: constructs separated by every combination of line ends, with symbolic text, string and
// comment bytes between them.
// vrt:weight 2
func H_C19_lines() {
	nl := pick("\n", "\r\n", "\n\n", " \n\t", "\r")
	s := ""
	for n := quick(3, 4); n > 0; n-- {
		switch vrt.Choice(9) {
		case 0:
			s += "a" + nl + vrt.Str(1, bytesWithout("{@\\"))
		case 1:
			s += "{{ x" + nl + "+" + nl + "1 }}"
		case 2:
			s += "{{ \"" + nl + vrt.Str(1, bytesWithout("")) + "\" }}"
		case 3:
			s += "{{--" + nl + vrt.Str(1, "-}\n\\x") + nl + "--}}"
		case 4:
			s += "@if(" + nl + "x" + nl + ")" + nl
		case 5:
			s += "@end"
		case 6:
			s += "\\{{" + nl + "\\@if"
		case 7:
			s += "{{ {a:" + nl + "1}" + nl + ".a }}"
		case 8:
			s += "\xc3\xa9" + nl + "@each(v in" + nl + "['\xc3\xa9'])"
		}
	}
	tiles(s)
}

// H_C19_tokens: every sequence of 3 (thorough 4) of 40 lexemes, inside of code or text.
// vrt:weight 2
func H_C19_tokens() {
	lex := []string{"{{", "}}", "{", "}", "(", ")", "[", "]", "'s'", "x", "12", "1.5", ",", ":", ";", ".", "?", "=", "==", "!=", "<=", ">", "+", "-", "*", "%", "!", "++", "--", "\n",
		"@if", "@else", "@elseif", "@end", "@continueIf", "@break", "@slot", "@dump", "@e", "nil", "{{--c\n--}}"}
	s := pick("", "{{ ", "@if(")
	for n := quick(3, 4); n > 0; n-- {
		s += lex[vrt.Choice(len(lex))]
	}
	tiles(s)
}
