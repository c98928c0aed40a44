package hs

import (
	"math"
	"strings"

	tw "github.com/textwire/textwire/v2"
	"vh/vrt"
)

// char is a character of a symbolic string: any ASCII byte, any two-, three- or four-byte character, or one of a few
// with case. fixed leaves out the symbolic multi-byte ones.
func char(fixed bool) string {
	n := 9
	if fixed {
		n = 6
	}
	switch vrt.Choice(n) {
	case 0, 1:
		b := vrt.Byte()
		vrt.Assume(b < 0x80 && b != 0x0b && b != 0x0c)
		return string([]byte{b})
	case 2:
		return "é"
	case 3:
		return "Я"
	case 4:
		return "€"
	case 5:
		return "😀"
	case 6:
		return string([]byte{0xd0 + vrt.Byte()&0x0f, 0x80 + vrt.Byte()&0x3f})
	case 7:
		return string([]byte{0xe3, 0x80 + vrt.Byte()&0x3f, 0x80 + vrt.Byte()&0x3f})
	}
	return string([]byte{0xf1, 0x80 + vrt.Byte()&0x3f, 0x80 + vrt.Byte()&0x3f, 0x80 + vrt.Byte()&0x3f})
}

func chars(n int, fixed bool) []string {
	r := make([]string, n)
	for i := range r {
		r[i] = char(fixed)
	}
	return r
}

func cat(c []string) string { return strings.Join(c, "") }

func str(s string) val { return val{k: 's', s: s} }
func num(i int64) val  { return val{k: 'i', i: i} }
func flt(f float64) val {
	return val{k: 'f', f: f}
}
func list(e ...val) val { return val{k: 'a', e: e} }

var none = val{k: 'n'}

// contract asserts that the expression has the value want (as printed, and by kind and content), that evaluating it
// leaves the named variables and the data as they were and that it gives the same value again.
func contract(expr string, data map[string]any, want val, label string, vars ...string) {
	before := make([]string, len(vars))
	for i, v := range vars {
		before[i] = show(v, data)
	}
	src := "{{ " + expr + " }}"
	r := eval(src, data)
	if want.k == '?' {
		return
	}
	if want.k == '!' {
		vrt.Assert(r.bad, label+": output instead of error")
		vrt.Reach("error")
		return
	}
	vrt.Assert(!r.bad, label+": error instead of output")
	if r.bad {
		return
	}
	hasKind("("+expr+")", data, want, label)
	printed := evalq("{{ zz }}", map[string]any{"zz": want.native()})
	vrt.AssertEq(r.out, printed.out, label)
	// receiver and arguments afterwards, in the same render and in the caller's data
	all := ""
	ws := r.out
	for i, v := range vars {
		all += "|{{ " + v + " }}"
		ws += "|" + before[i]
	}
	if len(vars) > 0 {
		a := evalq(src+all, data)
		vrt.Assert(!a.bad, label+": error after the call")
		vrt.AssertEq(a.out, ws, label+": receiver and arguments are unchanged")
		for i, v := range vars {
			vrt.AssertEq(show(v, data), before[i], label+": the data is unchanged")
		}
	}
	vrt.Reach("value " + string(want.k))
}

func show(v string, data map[string]any) string {
	r := evalq("{{ "+v+" }}", data)
	if r.bad {
		return "?" + r.err
	}
	return r.out
}

// hasKind asserts the kind of the value of expr, and its content where printing would hide it.
func hasKind(expr string, data map[string]any, want val, label string) {
	d := map[string]any{}
	for k, v := range data {
		d[k] = v
	}
	d["zz"] = want.native()
	src, w := "", "1"
	switch want.k {
	case 'i', 'f', 's':
		src = "{{ " + expr + " == zz }}"
		if want.k == 'f' && want.f != want.f {
			return
		}
	case 'b':
		src, w = "{{ "+expr+".then('T', 'F') }}", "F"
		if want.b {
			w = "T"
		}
	case 'n':
		src = "{{ [nil].contains(" + expr + ") }}"
	case 'a':
		src, w = "{{ "+expr+".len() }}", itoa(len(want.e))
		for i := range want.e {
			e := evalq("{{ zz }}", map[string]any{"zz": want.e[i].native()})
			src += "<{{ " + expr + "[" + itoa(i) + "] }}>"
			w += "<" + e.out + ">"
		}
	case 'o':
		src = "{{ [zz].contains(" + expr + ") }}"
	}
	r := evalq(src, d)
	vrt.Assert(!r.bad, label+": the result is not of the kind its contract gives")
	if !r.bad {
		vrt.AssertEq(r.out, w, label+": kind and content of the result")
	}
	if want.k == 'a' {
		for i := range want.e {
			if want.e[i].k != 'a' {
				hasKind(expr+"["+itoa(i)+"]", data, want.e[i], label)
			}
		}
	}
}

// subject is the receiver: a data variable, or the same value through a variable, an element or a property.
func subject(data map[string]any, v val) string {
	data["x"] = v.native()
	switch vrt.Choice(4) {
	case 1:
		data["w"] = []any{v.native()}
		return "w[0]"
	case 2:
		data["w"] = map[string]any{"k": v.native()}
		return "w.k"
	}
	return "x"
}

// H_C11_strings: len, reverse, at (any int64 index and none), first, last, truncate (any int64 limit, with and without ellipsis),
// split (default, empty, one-character and two-character separators), contains (symbolic needles of 0..2 characters), repeat 0..3 on strings of 0..4 (thorough 6) characters, each any ASCII byte, any
// character of the two-, three- and four-byte ranges, or a fixed one with case.
// vrt:weight 4
func H_C11_strings() {
	c := chars(vrt.Choice(quick(5, 7)), false)
	s := cat(c)
	data := map[string]any{}
	x := subject(data, str(s))
	switch vrt.Choice(12) {
	case 0:
		contract(x+".len()", data, num(int64(len(c))), "len", "x")
	case 1:
		r := ""
		for i := len(c) - 1; i >= 0; i-- {
			r += c[i]
		}
		contract(x+".reverse()", data, str(r), "reverse", "x")
	case 2:
		i := vrt.Int64()
		data["i"] = i
		want := none
		for j := range c {
			if i == int64(j) || i == int64(j-len(c)) {
				want = str(c[j])
			}
		}
		contract(x+".at(i)", data, want, "at", "x", "i")
	case 3:
		want, last := none, none
		if len(c) > 0 {
			want, last = str(c[0]), str(c[len(c)-1])
		}
		f := pick("at", "first", "last")
		if f == "last" {
			want = last
		}
		contract(x+"."+f+"()", data, want, f, "x")
	case 4, 5:
		n := vrt.Int64()
		data["n"], data["e"] = n, "é"
		el, arg := "...", "n"
		switch vrt.Choice(3) {
		case 1:
			el, arg = "é", "n, e"
		case 2:
			el, arg = "", "n, ''"
		}
		want := str(s)
		if n < 0 {
			want = undef
		} else if n < int64(len(c)) {
			want = str(cat(c[:vrtInt(n, len(c))]) + el)
		}
		contract(x+".truncate("+arg+")", data, want, "truncate", "x", "n", "e")
	case 6, 7:
		var sep string
		arg := "p"
		switch vrt.Choice(5) {
		case 0:
			sep, arg = " ", ""
		case 1:
			sep = char(true)
		case 2:
			sep = char(true) + char(true)
		case 3:
			vrt.Assume(len(c) > 0)
			sep = ""
		case 4:
			vrt.Assume(len(c) > 0)
			sep = c[vrt.Choice(len(c))]
		}
		data["p"] = sep
		var parts []val
		if sep == "" {
			for _, ch := range c {
				parts = append(parts, str(ch))
			}
		} else {
			cur := ""
			for i := 0; i < len(s); {
				if strings.HasPrefix(s[i:], sep) {
					parts = append(parts, str(cur))
					cur = ""
					i += len(sep)
				} else {
					cur += s[i : i+1]
					i++
				}
			}
			parts = append(parts, str(cur))
		}
		contract(x+".split("+arg+")", data, list(parts...), "split", "x", "p")
	case 8, 9:
		var sub string
		if len(c) > 0 && vrt.Choice(2) == 1 {
			i := vrt.Choice(len(c))
			sub = cat(c[i : i+1+vrt.Choice(len(c)-i)])
		} else {
			sub = cat(chars(vrt.Choice(3), true))
		}
		data["p"] = sub
		found := false
		for i := 0; i+len(sub) <= len(s); i++ {
			if s[i:i+len(sub)] == sub {
				found = true
			}
		}
		contract(x+".contains(p)", data, boolVal(found), "contains", "x", "p")
	case 10:
		n := vrt.Choice(4)
		data["n"] = n
		r := ""
		for i := 0; i < n; i++ {
			r += s
		}
		contract(x+".repeat(n)", data, str(r), "repeat", "x", "n")
	case 11:
		n := vrt.Int64()
		vrt.Assume(n < 0)
		data["n"] = n
		f := pick("repeat", "truncate")
		r := eval("{{ "+x+"."+f+"(n) }}|{{ x }}", data)
		if !r.bad {
			vrt.Assert(strings.HasSuffix(r.out, "|"+s), "negative count: the receiver is unchanged")
		}
	}
}

// vrtInt is n as an int below max, one path for each.
func vrtInt(n int64, max int) int {
	for i := 0; i < max; i++ {
		if n == int64(i) {
			return i
		}
	}
	return max
}

func asciiUpper(c string) string {
	if len(c) == 1 && c[0] >= 'a' && c[0] <= 'z' {
		return string([]byte{c[0] - 32})
	}
	if c == "é" {
		return "É"
	}
	if c == "я" {
		return "Я"
	}
	return c
}

func asciiLower(c string) string {
	if len(c) == 1 && c[0] >= 'A' && c[0] <= 'Z' {
		return string([]byte{c[0] + 32})
	}
	if c == "Я" {
		return "я"
	}
	return c
}

func inSet(c, set string) bool { return strings.Contains(set, c) }

// H_C11_case: upper, lower, capitalize, trim, trimLeft, trimRight (default white space, and a set of 0..2 characters) on strings of 0..4 (thorough 6) characters
// of any ASCII byte or é я € 😀.
// vrt:weight 3
func H_C11_case() {
	c := chars(vrt.Choice(quick(5, 7)), true)
	data := map[string]any{}
	x := subject(data, str(cat(c)))
	r := ""
	switch vrt.Choice(6) {
	case 0:
		for _, ch := range c {
			r += asciiUpper(ch)
		}
		contract(x+".upper()", data, str(r), "upper", "x")
	case 1:
		for _, ch := range c {
			r += asciiLower(ch)
		}
		contract(x+".lower()", data, str(r), "lower", "x")
	case 2:
		if len(c) > 0 {
			r = asciiUpper(c[0]) + cat(c[1:])
		}
		contract(x+".capitalize()", data, str(r), "capitalize", "x")
	default:
		arg, set := "", " \t\r\n"
		if vrt.Choice(2) == 1 {
			arg, set = "p", cat(chars(vrt.Choice(3), true))
			data["p"] = set
		}
		f := pick("trim", "trimLeft", "trimRight")
		a, b := 0, len(c)
		for f != "trimRight" && a < b && inSet(c[a], set) {
			a++
		}
		for f != "trimLeft" && b > a && inSet(c[b-1], set) {
			b--
		}
		contract(x+"."+f+"("+arg+")", data, str(cat(c[a:b])), f, "x")
	}
}

// H_C11_utf8: valid UTF-8 receivers never give invalid UTF-8: every string function returning strings, on 1..3 characters of any
// two- to four-byte range, with symbolic counts -2..5 and characters as arguments.
func H_C11_utf8() {
	c := chars(1+vrt.Choice(3), false)
	n := vrt.IntRange(-2, 5)
	data := map[string]any{"x": cat(c), "n": n, "p": char(false)}
	f := pick("reverse()", "truncate(n)", "truncate(n, p)", "at(n)", "first()", "last()", "capitalize()", "upper()", "lower()", "trim(p)", "trimLeft(p)", "trimRight(p)",
		"repeat(n)", "decimal()", "raw()", "split(p)", "split('')", "trim()", "split('').reverse()", "split('').join(p)", "reverse().truncate(n).capitalize()")
	r := eval("{{ x."+f+" }}", data)
	if !r.bad {
		vrt.Assert(validUTF8(r.out), f+": the result is valid UTF-8")
	}
}

// anyChar is any character of a valid string, or one of a list of unusual ones.
func anyChar() string {
	switch vrt.Choice(5) {
	case 0:
		b := vrt.Byte()
		vrt.Assume(b < 0x80)
		return string([]byte{b})
	case 1:
		a, b := vrt.Byte(), 0x80+vrt.Byte()&0x3f
		vrt.Assume(a >= 0xc2 && a <= 0xdf)
		return string([]byte{a, b})
	case 2:
		a, b, c := vrt.Byte(), 0x80+vrt.Byte()&0x3f, 0x80+vrt.Byte()&0x3f
		vrt.Assume(a >= 0xe0 && a <= 0xef && (a != 0xe0 || b >= 0xa0) && (a != 0xed || b < 0xa0))
		return string([]byte{a, b, c})
	case 3:
		a, b, c, d := vrt.Byte(), 0x80+vrt.Byte()&0x3f, 0x80+vrt.Byte()&0x3f, 0x80+vrt.Byte()&0x3f
		vrt.Assume(a >= 0xf0 && a <= 0xf4 && (a != 0xf0 || b >= 0x90) && (a != 0xf4 || b < 0x90))
		return string([]byte{a, b, c, d})
	}
	return pick("\u0301", "\u200d", "\ufeff", "\ufffd", "\u00a0", "\u2028", "\U0001f1e9", "\U0010ffff")
}

// H_C11_runes: strings of 0..2 (thorough 3) characters, each any character of Unicode (symbolic bytes) or one of eight unusual ones (combining, joiner, byte order mark, replacement character, ...):
// len, at, first, last, reverse, truncate, repeat, split and contains count and keep every one of them.
// vrt:weight 2
func H_C11_runes() {
	n := vrt.Choice(quick(3, 4))
	c := make([]string, n)
	for i := range c {
		c[i] = anyChar()
	}
	s := cat(c)
	data := map[string]any{"x": s, "k": int64(n)}
	rev := ""
	for _, ch := range c {
		rev = ch + rev
	}
	first, last := none, none
	if n > 0 {
		first, last = str(c[0]), str(c[n-1])
	}
	switch vrt.Choice(8) {
	case 0:
		contract("x.len()", data, num(int64(n)), "len", "x")
	case 1:
		contract("x.reverse()", data, str(rev), "reverse", "x")
	case 2:
		j := vrt.Choice(n + 1)
		data["j"] = int64(j)
		w := none
		if j < n {
			w = str(c[j])
		}
		contract("x.at(j)", data, w, "at", "x")
	case 3:
		contract("x.first()", data, first, "first", "x")
	case 4:
		contract("x.last()", data, last, "last", "x")
	case 5:
		j := vrt.Choice(n + 1)
		data["j"] = int64(j)
		w := s
		if j < n {
			w = cat(c[:j]) + "..."
		}
		contract("x.truncate(j)", data, str(w), "truncate", "x")
	case 6:
		e := make([]val, n)
		for i := range e {
			e[i] = str(c[i])
		}
		contract("x.split('')", data, list(e...), "split", "x")
	case 7:
		o := anyChar()
		data["o"] = o
		in := int64(0)
		for _, ch := range c {
			if ch == o {
				in = 1
			}
		}
		renders("{{ x.contains(o) }}{{ (x + o).contains(o) }}{{ (x + o).last() == o }}", data, i64(in)+"11", "contains")
	}
}

func validUTF8(s string) bool {
	for i := 0; i < len(s); {
		c := s[i]
		n := 1
		switch {
		case c < 0x80:
		case c >= 0xc2 && c < 0xe0:
			n = 2
		case c >= 0xe0 && c < 0xf0:
			n = 3
		case c >= 0xf0 && c < 0xf5:
			n = 4
		default:
			return false
		}
		if i+n > len(s) {
			return false
		}
		for j := 1; j < n; j++ {
			if s[i+j]&0xc0 != 0x80 {
				return false
			}
		}
		i += n
	}
	return true
}

// H_C11_decimal: decimal on integers (any int64) and on strings (1..3 symbolic bytes; digit strings with sign and leading zeros), default,
// with separator, with 0..3 decimals; on strings that are no integer the string itself.
// vrt:weight 2
func H_C11_decimal() {
	data := map[string]any{"p": char(true)}
	n := vrt.Choice(4)
	data["n"] = n
	arg, tail := "", ".00"
	switch vrt.Choice(3) {
	case 1:
		arg, tail = "p", data["p"].(string)+"00"
	case 2:
		arg, tail = "p, n", ""
		if n > 0 {
			tail = data["p"].(string) + strings.Repeat("0", n)
		}
	}
	switch vrt.Choice(3) {
	case 0:
		i := vrt.Int64()
		contract(subject(data, num(i))+".decimal("+arg+")", data, str(i64(i)+tail), "decimal of an integer", "x", "p", "n")
	case 1:
		s := pick("", "-", "0", "00") + vrt.Str(1+vrt.Choice(2), digits)
		contract(subject(data, str(s))+".decimal("+arg+")", data, str(s+tail), "decimal of a digit string", "x", "p", "n")
	case 2:
		s := vrt.Str(1+vrt.Choice(2), "") + pick("x", ".5", " ", "e1", "_0")
		contract(subject(data, str(s))+".decimal("+arg+")", data, str(s), "decimal of another string", "x", "p", "n")
	}
}

// elem is an array element of a symbolic kind.
func elem(depth int) val {
	n := 5
	if depth > 0 {
		n = 7
	}
	switch vrt.Choice(n) {
	case 0:
		return num(vrt.Int64())
	case 1:
		return str(vrt.Str(vrt.Choice(2), ""))
	case 2:
		return boolVal(vrt.Bool())
	case 3:
		return none
	case 4:
		return flt(float64(int64(vrt.Byte())))
	case 5:
		v := list()
		for i := vrt.Choice(2); i >= 0; i-- {
			v.e = append(v.e, elem(0))
		}
		return v
	}
	return val{k: 'o', s: pick("k", "m"), e: []val{elem(0)}}
}

func same(a, b val) bool {
	if a.k != b.k || len(a.e) != len(b.e) {
		return false
	}
	switch a.k {
	case 'i':
		return a.i == b.i
	case 'f':
		return a.f == b.f
	case 's':
		return a.s == b.s
	case 'b':
		return a.b == b.b
	case 'o':
		if a.s != b.s {
			return false
		}
	}
	for i := range a.e {
		if !same(a.e[i], b.e[i]) {
			return false
		}
	}
	return true
}

// clamp is v limited to 0..n.
func clamp(v int64, n int) int {
	if v < 0 {
		return 0
	}
	return vrtInt(v, n)
}

// H_C11_slice: slice on arrays of 0..4 (thorough 6) elements with any int64 start and end (a negative end means the end of the array), and len, reverse, append and prepend of 1..3
// arguments; the elements are symbolic integers.
// vrt:weight 3
func H_C11_slice() {
	n := vrt.Choice(quick(5, 7))
	var e []val
	for i := 0; i < n; i++ {
		e = append(e, num(vrt.Int64()))
	}
	data := map[string]any{}
	x := subject(data, list(e...))
	switch vrt.Choice(6) {
	case 0:
		contract(x+".len()", data, num(int64(n)), "len", "x")
	case 1:
		var r []val
		for i := n - 1; i >= 0; i-- {
			r = append(r, e[i])
		}
		contract(x+".reverse()", data, list(r...), "reverse", "x")
	case 2:
		a := vrt.Int64()
		data["a"] = a
		contract(x+".slice(a)", data, list(e[clamp(a, n):]...), "slice", "x", "a")
	case 3:
		a, b := vrt.Int64(), vrt.Int64()
		data["a"], data["b"] = a, b
		i, j := clamp(a, n), n
		if b >= 0 {
			j = clamp(b, n)
		}
		var r []val
		if i < j {
			r = e[i:j]
		}
		contract(x+".slice(a, b)", data, list(r...), "slice", "x", "a", "b")
	case 4, 5:
		var more []val
		arg := ""
		for i := 0; i <= vrt.Choice(3); i++ {
			v := vrt.Int64()
			data["v"+itoa(i)] = v
			more = append(more, num(v))
			if i > 0 {
				arg += ", "
			}
			arg += "v" + itoa(i)
		}
		var r []val
		if vrt.Choice(2) == 0 {
			contract(x+".append("+arg+")", data, list(append(append(r, e...), more...)...), "append", "x", "v0")
		} else {
			contract(x+".prepend("+arg+")", data, list(append(append(r, more...), e...)...), "prepend", "x", "v0")
		}
	}
}

// H_C11_arrays: contains (same kind and content, at any depth) of an element or of another symbolic value, join, append, reverse and rand on arrays of 0..3 elements of every kind,
// nested arrays and objects included.
// vrt:weight 4
func H_C11_arrays() {
	n := vrt.Choice(quick(3, 4))
	var e []val
	for i := 0; i < n; i++ {
		e = append(e, elem(1))
	}
	data := map[string]any{}
	x := subject(data, list(e...))
	switch vrt.Choice(9) {
	case 6:
		var r []val
		for i := n - 1; i >= 0; i-- {
			r = append(r, e[i])
		}
		contract(x+".reverse()", data, list(r...), "reverse", "x")
	case 7:
		a := vrt.Choice(n + 1)
		b := a + vrt.Choice(n-a+1)
		contract(x+".slice("+itoa(a)+")", data, list(e[a:]...), "slice", "x")
		contract(x+".slice("+itoa(a)+", "+itoa(b)+")", data, list(e[a:b]...), "slice", "x")
	case 8:
		v := elem(0)
		data["v"] = v.native()
		var r []val
		contract(x+".append(v, nil)", data, list(append(append(r, e...), v, none)...), "append", "x", "v")
		contract(x+".prepend(nil, v)", data, list(append(append(r, none, v), e...)...), "prepend", "x", "v")
	case 0, 1, 2:
		t := elem(1)
		data["t"] = t.native()
		found := false
		for _, v := range e {
			found = found || same(v, t)
		}
		contract(x+".contains(t)", data, boolVal(found), "contains", "x", "t")
	case 3:
		arg, sep := "", ","
		switch vrt.Choice(3) {
		case 1:
			arg, sep = "p", char(true)
		case 2:
			arg, sep = "''", ""
		}
		data["p"] = sep
		r := ""
		for i, v := range e {
			if i > 0 {
				r += sep
			}
			p := evalq("{{ zz }}", map[string]any{"zz": v.native()})
			r += p.out
		}
		contract(x+".join("+arg+")", data, str(r), "join", "x", "p")
	case 4:
		v := elem(1)
		data["v"] = v.native()
		contract(x+".append(v)["+itoa(n)+"]", data, v, "appended element", "x", "v")
		contract(x+".prepend(v)[0]", data, v, "prepended element", "x", "v")
		for i := range e {
			contract(x+".prepend(v)["+itoa(i+1)+"]", data, e[i], "element after prepend")
		}
	case 5:
		if n == 0 {
			contract(x+".rand()", data, none, "rand of an empty array", "x")
			return
		}
		r := evalq("{{ r = "+x+".rand(); [x.contains(r), x.len()] }}|{{ x }}", data)
		vrt.Assert(!r.bad, "rand: error instead of output")
		vrt.AssertEq(r.out, "1, "+itoa(n)+"|"+show("x", data), "rand gives an element")
	}
}

// H_C11_shuffle: shuffle of 0..3 (thorough 4) elements with any values, for every choice of the random source: a permutation, and the receiver stays as it was.
func H_C11_shuffle() {
	n := vrt.Choice(quick(4, 5))
	var e []int64
	for i := 0; i < n; i++ {
		v := int64(vrt.Byte())
		e = append(e, v)
	}
	data := map[string]any{"x": e}
	want := show("x", data) + "|" + itoa(n) + "|"
	out, err := tw.EvaluateString("{{ y = x.shuffle() }}{{ x }}|{{ y.len() }}|@each(q in y){{ q }},@end", data)
	vrt.Assert(err == nil, "shuffle: error instead of output")
	if err != nil {
		return
	}
	vrt.Assert(strings.HasPrefix(out, want), "shuffle leaves the receiver and the length")
	ok := false
	perms(n, func(p []int) {
		w := want
		for _, i := range p {
			w += i64(e[i]) + ","
		}
		ok = ok || out == w
	})
	vrt.Assert(ok, "shuffle gives a permutation")
}

func perms(n int, f func([]int)) {
	p := make([]int, 0, n)
	used := make([]bool, n)
	var rec func()
	rec = func() {
		if len(p) == n {
			f(p)
			return
		}
		for i := 0; i < n; i++ {
			if !used[i] {
				used[i] = true
				p = append(p, i)
				rec()
				p = p[:len(p)-1]
				used[i] = false
			}
		}
	}
	rec()
}

// H_C11_numbers: float, abs, str, len of any int64; int, abs, ceil, floor, round of any float64 below 2^62; str of floats;
// binary and then of bools with arguments of every kind.
// vrt:weight 3
func H_C11_numbers() {
	data := map[string]any{}
	switch vrt.Choice(12) {
	case 0:
		i := vrt.Int64()
		contract(subject(data, num(i))+".float()", data, flt(float64(i)), "float of an integer", "x")
	case 1:
		i := vrt.Int64()
		vrt.Assume(i != math.MinInt64)
		a := i
		if i < 0 {
			a = -i
		}
		contract(subject(data, num(i))+".abs()", data, num(a), "abs of an integer", "x")
	case 2:
		i := vrt.Int64()
		contract(subject(data, num(i))+".str()", data, str(i64(i)), "str of an integer", "x")
	case 3:
		i := vrt.Int64()
		n := int64(1)
		u := uint64(i)
		if i < 0 {
			u = -u
		}
		for p := uint64(10); n < 20 && u >= p; p *= 10 {
			n++
			if n == 20 {
				break
			}
		}
		contract(subject(data, num(i))+".len()", data, num(n), "len of an integer", "x")
	case 4, 5, 6, 7:
		f := vrt.Float64()
		vrt.Assume(f > -4.6e18 && f < 4.6e18)
		x := subject(data, flt(f))
		switch vrt.Choice(4) {
		case 0:
			contract(x+".int()", data, num(int64(f)), "int of a float", "x")
		case 1:
			contract(x+".ceil()", data, num(int64(math.Ceil(f))), "ceil", "x")
		case 2:
			contract(x+".floor()", data, num(int64(math.Floor(f))), "floor", "x")
		case 3:
			contract(x+".round()", data, num(int64(math.Round(f))), "round", "x")
		}
	case 8:
		f := vrt.Float64()
		vrt.Assume(f == f)
		a := f
		if f < 0 {
			a = -f
		}
		x := subject(data, flt(f))
		data["zz"] = a
		r := eval("{{ "+x+".abs() == zz }}", data)
		vrt.Assert(!r.bad && r.out == "1", "abs of a float")
	case 9:
		f := []float64{0.5, -0.25, 1.125, 123456.75, -1e-7, 3.14159, 1e21, 0.1}[vrt.Choice(8)]
		s := []string{"0.5", "-0.25", "1.125", "123456.75", "-0.0000001", "3.14159", "1000000000000000000000", "0.1"}
		x := subject(data, flt(f))
		for i, g := range []float64{0.5, -0.25, 1.125, 123456.75, -1e-7, 3.14159, 1e21, 0.1} {
			if g == f {
				contract(x+".str()", data, str(s[i]), "str of a float", "x")
			}
		}
	case 10:
		b := vrt.Bool()
		w := num(0)
		if b {
			w = num(1)
		}
		contract(subject(data, boolVal(b))+".binary()", data, w, "binary", "x")
	case 11:
		b := vrt.Bool()
		x := subject(data, boolVal(b))
		p, q := elem(1), elem(1)
		data["p"], data["q"] = p.native(), q.native()
		if vrt.Choice(2) == 0 {
			if !b {
				p = none
			}
			contract(x+".then(p)", data, p, "then", "x", "p")
			return
		}
		if !b {
			p = q
		}
		contract(x+".then(p, q)", data, p, "then", "x", "p", "q")
	}
}

// H_C11_edges: float, abs, str and len of integers of the form ±2^k + d (k 0..62, d -1..1) and decimal powers with d: conversions at every magnitude.
func H_C11_edges() {
	i := int64(1) << vrt.Choice(63)
	if vrt.Choice(3) == 0 {
		i = 1
		for k := vrt.Choice(19); k > 0; k-- {
			i *= 10
		}
	}
	i += int64(vrt.Choice(3) - 1)
	if vrt.Choice(2) == 1 {
		i = -i
	}
	data := map[string]any{}
	x := subject(data, num(i))
	a := i
	if i < 0 {
		a = -i
	}
	switch vrt.Choice(4) {
	case 0:
		contract(x+".float()", data, flt(float64(i)), "float of an integer", "x")
	case 1:
		contract(x+".abs()", data, num(a), "abs of an integer", "x")
	case 2:
		contract(x+".str()", data, str(i64(i)), "str of an integer", "x")
	case 3:
		contract(x+".len()", data, num(int64(len(i64(a)))), "len of an integer", "x")
	}
}

// sig is a built-in: receiver kind, name, kinds of required and optional arguments (* any kind).
type sig struct {
	recv     byte
	name     string
	req, opt string
}

var builtins = []sig{
	{'s', "len", "", ""}, {'s', "split", "", "s"}, {'s', "raw", "", ""}, {'s', "trim", "", "s"}, {'s', "trimRight", "", "s"}, {'s', "trimLeft", "", "s"},
	{'s', "upper", "", ""}, {'s', "lower", "", ""}, {'s', "capitalize", "", ""}, {'s', "reverse", "", ""}, {'s', "contains", "s", ""}, {'s', "truncate", "i", "s"},
	{'s', "decimal", "", "si"}, {'s', "at", "", "i"}, {'s', "first", "", ""}, {'s', "last", "", ""}, {'s', "repeat", "i", ""},
	{'a', "len", "", ""}, {'a', "join", "", "s"}, {'a', "rand", "", ""}, {'a', "reverse", "", ""}, {'a', "slice", "i", "i"}, {'a', "shuffle", "", ""},
	{'a', "contains", "*", ""}, {'a', "append", "*", ""}, {'a', "prepend", "*", ""},
	{'f', "int", "", ""}, {'f', "str", "", ""}, {'f', "abs", "", ""}, {'f', "ceil", "", ""}, {'f', "floor", "", ""}, {'f', "round", "", ""},
	{'i', "float", "", ""}, {'i', "abs", "", ""}, {'i', "str", "", ""}, {'i', "len", "", ""}, {'i', "decimal", "", "si"},
	{'b', "binary", "", ""}, {'b', "then", "*", "*"},
}

func receiver(k byte) val {
	switch k {
	case 's':
		return str("12345")
	case 'a':
		return list(num(1), num(2), str("q"))
	case 'f':
		return flt(2.5)
	case 'i':
		return num(42)
	}
	return boolVal(true)
}

// argOf is an argument of kind k with a symbolic value.
func argOf(k byte) val {
	switch k {
	case 'i':
		return num(int64(vrt.IntRange(0, 3)))
	case 'f':
		return flt(float64(vrt.IntRange(0, 3)))
	case 's':
		return str(vrt.Str(vrt.Choice(2), "23,. "))
	case 'b':
		return boolVal(vrt.Bool())
	case 'a':
		return list(str("2"))
	case 'o':
		return val{k: 'o', s: "k", e: []val{num(1)}}
	}
	return none
}

// H_C11_kinds: every built-in with every kind in each argument place: a wrong kind and a missing argument are errors that carry the line, right kinds are
// not; the receiver and the arguments stay as they were.
// vrt:weight 2
func H_C11_kinds() {
	g := builtins[vrt.Choice(len(builtins))]
	rv := receiver(g.recv)
	data := map[string]any{"x": rv.native()}
	n := vrt.Choice(len(g.req) + len(g.opt) + 1)
	arg, wrong := "", n < len(g.req)
	all := g.req + g.opt
	vars := []string{"x"}
	for i := 0; i < n; i++ {
		k := "ifsbnao"[vrt.Choice(7)]
		if all[i] != '*' && k != all[i] {
			wrong = true
		}
		name := "p" + itoa(i)
		data[name] = argOf(k).native()
		vars = append(vars, name)
		if i > 0 {
			arg += ", "
		}
		arg += name
	}
	if g.name == "shuffle" && n == 0 {
		return
	}
	src, after, w := "\n{{ x."+g.name+"("+arg+") }}", "", ""
	for _, v := range vars {
		after += "|{{ " + v + " }}"
		w += "|" + show(v, data)
	}
	r := eval(src+after, data)
	if wrong {
		vrt.Assert(r.bad, "wrong or missing argument: output instead of error")
		if r.bad {
			_, line, _, ok := errText(r.err)
			vrt.Assert(ok && line == 2, "wrong or missing argument: the error has its line")
		}
		return
	}
	vrt.Assert(!r.bad, "right arguments: error instead of output")
	if !r.bad {
		vrt.Assert(strings.HasSuffix(r.out, w), "right arguments: receiver and arguments are unchanged")
	}
}

// H_C11_receivers: every built-in name on a receiver of every kind: an error that names the function unless it is one of that kind.
func H_C11_receivers() {
	g := builtins[vrt.Choice(len(builtins))]
	k := "ifsbnao"[vrt.Choice(7)]
	for _, h := range builtins {
		if h.recv == k && h.name == g.name {
			return
		}
	}
	v := argOf(k)
	r := fails("{{ x."+g.name+"('1', 1) }}", map[string]any{"x": v.native()}, "built-in of another kind")
	if r.bad {
		vrt.Assert(strings.Contains(r.err, g.name), "the error names the function")
	}
}

// H_C11_chains: two calls in a row with the results kept in variables: every pair of array functions (aliasing of results with the receiver)
// and of string functions on arrays of 0..3 symbolic elements; all three values afterwards are those of the reference.
// vrt:weight 2
func H_C11_chains() {
	n := vrt.Choice(4)
	var e []val
	for i := 0; i < n; i++ {
		e = append(e, num(int64(vrt.Byte())))
	}
	data := map[string]any{"x": list(e...).native(), "v": int64(900), "w": int64(901)}
	s1, r1 := arrayStep(e, "v", num(900))
	s2, r2 := arrayStep(r1, "w", num(901))
	s3, r3 := arrayStep(r1, "v", num(900))
	src := "{{ y = x." + s1 + "; z = y." + s2 + "; u = y." + s3 + " }}{{ x }}|{{ y }}|{{ z }}|{{ u }}|{{ x }}"
	X, Y, Z, U := evalText(list(e...)), evalText(list(r1...)), evalText(list(r2...)), evalText(list(r3...))
	renders(src, data, X+"|"+Y+"|"+Z+"|"+U+"|"+X, "chained calls")
}

func arrayStep(e []val, name string, v val) (string, []val) {
	var r []val
	switch vrt.Choice(6) {
	case 0:
		return "append(" + name + ")", append(append(r, e...), v)
	case 1:
		return "prepend(" + name + ")", append(append(r, v), e...)
	case 2:
		for i := len(e) - 1; i >= 0; i-- {
			r = append(r, e[i])
		}
		return "reverse()", r
	case 3:
		if len(e) > 1 {
			r = e[1:]
		}
		return "slice(1)", r
	case 4:
		r = e
		if len(e) > 1 {
			r = e[:1]
		}
		return "slice(0, 1)", r
	}
	return "append(" + name + ", " + name + ")", append(append(r, e...), v, v)
}

// H_C11_precedence: a custom function registered under the name of any built-in of its receiver kind, before or after the first call, does not replace it.
func H_C11_precedence() {
	g := builtins[vrt.Choice(len(builtins))]
	if g.name == "rand" || g.name == "shuffle" {
		return
	}
	data := map[string]any{"x": receiver(g.recv).native(), "p": argOf('i').native(), "q": argOf('s').native()}
	arg := ""
	for i := range len(g.req) {
		if i > 0 {
			arg += ", "
		}
		if g.req[i] == 's' {
			arg += "q"
		} else {
			arg += "p"
		}
	}
	src := "{{ x." + g.name + "(" + arg + ") }}"
	before := eval(src, data)
	vrt.Assert(!before.bad, "the built-in works")
	switch g.recv {
	case 's':
		tw.RegisterStrFunc(g.name, func(s string, a ...any) string { return "CUSTOM" })
	case 'a':
		tw.RegisterArrFunc(g.name, func(s []any, a ...any) []any { return []any{"CUSTOM"} })
	case 'f':
		tw.RegisterFloatFunc(g.name, func(f float64, a ...any) float64 { return 12321 })
	case 'i':
		tw.RegisterIntFunc(g.name, func(i int, a ...any) int { return 12321 })
	case 'b':
		tw.RegisterBoolFunc(g.name, func(b bool, a ...any) bool { return !b })
	}
	after := evalq(src, data)
	vrt.Assert(!after.bad, "the built-in works after a custom function of its name is registered")
	vrt.AssertEq(after.out, before.out, "the built-in takes precedence")
}

// H_C11_casemap: upper, lower and capitalize on strings of 1..3 characters out of those whose cases differ in length, have a title case, are in two to four bytes or in none.
func H_C11_casemap() {
	cs := []struct{ c, up, low string }{{"\u01c6", "\u01c4", "\u01c6"}, {"\u01c5", "\u01c4", "\u01c6"}, {"\u01c4", "\u01c4", "\u01c6"}, {"\u2c65", "\u023a", "\u2c65"}, {"\u023a", "\u023a", "\u2c65"}, {"\u00ff", "\u0178", "\u00ff"}, {"\u00b5x", "\u039cX", "\u00b5x"},
		{"\u00e9", "\u00c9", "\u00e9"}, {"\u042f", "\u042f", "\u044f"}, {"\U00010428", "\U00010400", "\U00010428"}, {"\u4e16", "\u4e16", "\u4e16"}, {"a", "A", "a"}, {"Z", "Z", "z"}, {"_", "_", "_"}, {"\U0001f600", "\U0001f600", "\U0001f600"}}
	src, up, low, capi := "", "", "", ""
	title := false
	for i, n := 0, 1+vrt.Choice(3); i < n; i++ {
		k := vrt.Choice(len(cs))
		c := cs[k]
		if src == "" {
			title = k < 3
			capi = c.up
			if k == 6 {
				capi = "\u039cx"
			}
		} else {
			capi += c.c
		}
		src += c.c
		up += c.up
		low += c.low
	}
	data := map[string]any{"x": src}
	contract("x.upper()", data, str(up), "upper", "x")
	contract("x.lower()", data, str(low), "lower", "x")
	if !title { // upper or title case of the first character
		contract("x.capitalize()", data, str(capi), "capitalize", "x")
	}
}
