package hs

import (
	"net/http"
	"strings"

	tw "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"
	"github.com/textwire/textwire/v2/lexer"
	"github.com/textwire/textwire/v2/parser"
	"github.com/textwire/textwire/v2/token"
	"vh/vrt"
)

// The harnesses of this file take one quantity (the length of a text, a number of passes, entries,
// branches, files, lines, ...) to sizes next to powers of two and ten, where limits, buffers, pools and
// narrow integers of a change show, with symbolic data around it.

// big is such a size, not above max+1.
func big(max int) int {
	sizes := []int{8, 10, 16, 32, 64, 100, 128, 256, 512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 65536, 100000}
	lo := -1
	if vrt.Tier() == 0 {
		sizes, lo = []int{10, 16, 64, 128, 256, 1000, 1024, 4096, 65536}, 0
	}
	var ns []int
	for _, n := range sizes {
		if n <= max {
			ns = append(ns, n)
		}
	}
	n := ns[vrt.Choice(len(ns))] + lo + vrt.Choice(2-lo)
	vrt.Observe("size", itoa(n))
	return n
}

// tiny is a small symbolic number, whose sums in long lists stay cheap to print.
func tiny() int64 { return int64(vrt.IntRange(-9, 9)) }

// prints renders a large source.
func prints(src string, data map[string]any, want, label string) {
	out, err := tw.EvaluateString(src, data)
	vrt.Assert(err == nil, label+": no error")
	vrt.Assert(err != nil || len(out) == len(want), label+": the length of the output")
	vrt.Assert(err != nil || out == want, label+": the output")
}

// each is f(0) ... f(n-1).
func each(n int, sep string, f func(i int) string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(sep)
		}
		b.WriteString(f(i))
	}
	return b.String()
}

func always(s string) func(int) string { return func(int) string { return s } }

// H_C01_size: sums, differences and concatenations of up to 1000 (thorough 4096) operands, nesting in up to 256 (thorough 1000) parentheses and prefix operators, ternary chains, arrays and indexes
// of such sizes, with symbolic values.
// vrt:steps 100000000
func H_C01_size() {
	x, y := tiny(), tiny()
	d := map[string]any{"x": x, "y": y}
	switch vrt.Choice(7) {
	case 0:
		n := big(quick(1000, 4096))
		w := x
		for i := 0; i < n; i++ {
			w -= y
		}
		prints("{{ x - "+each(n, " - ", always("y"))+" }}", d, i64(w), "a long difference")
	case 1:
		n := big(quick(1000, 4096))
		prints("{{ "+each(n, " + ", func(i int) string { return pickAt(i, "'a'", "\"b\"", "'<'") })+" }}", nil, each(n, "", func(i int) string { return pickAt(i, "a", "b", "&lt;") }), "a long concatenation")
	case 2:
		n := big(quick(256, 1000))
		prints("{{ "+strings.Repeat("(", n)+"x"+strings.Repeat(")", n)+" + y }}", d, i64(x+y), "parentheses")
	case 3:
		n := big(quick(256, 1000))
		w := x
		for i := 0; i < n; i++ {
			w = -w
		}
		prints("{{ "+strings.Repeat("- ", n)+"x }}", d, i64(w), "prefix operators")
	case 4:
		n := big(quick(256, 1000))
		k := int64(n - 1)
		prints("{{ k = "+itoa(int(k))+"; "+each(n, "", func(i int) string { return "k == " + itoa(i) + " ? " + itoa(i+7) + " : " })+"x }}", d, i64(k+7), "a ternary chain")
	case 5:
		n := big(quick(1000, 4096))
		prints("{{ a = ["+each(n, ", ", func(i int) string { return "x + " + itoa(i) })+"]; a["+itoa(n-1)+"] - a[0] }}{{ a.len() }}", d, itoa(n-1)+itoa(n), "a long array")
	case 6:
		n := big(quick(256, 1000))
		prints("{{ "+strings.Repeat("[", n)+"x"+strings.Repeat("]", n)+strings.Repeat("[0]", n)+" }}{{ "+strings.Repeat("{k: ", n)+"y"+strings.Repeat("}", n)+strings.Repeat(".k", n)+" }}", d, i64(x)+i64(y), "nested arrays and objects")
	}
}

func pickAt(i int, s ...string) string { return s[i%len(s)] }

// H_C02_size: constructs of up to 256 (thorough 1024) @elseif branches of which a symbolic one of the last or none is taken, and as many nested @if.
// vrt:steps 100000000
func H_C02_size() {
	n := big(quick(256, 1024))
	c := vrt.Bool()
	d := map[string]any{"c": c, "f": vrt.Bool()}
	if vrt.Choice(2) == 0 {
		want := "<last>"
		if !c {
			want = "<else>"
		}
		prints("<@if(0)a"+strings.Repeat("@elseif(!true)b", n)+"@elseif(c)last@elseif('')x@else"+"else@end>", d, want, "many branches")
		return
	}
	want := "<" + strings.Repeat("x", n) + pickBool(c, "in", "out") + strings.Repeat("y", n) + ">"
	prints("<"+strings.Repeat("@if(1)x", n)+"@if(c)in@else"+"out@end"+strings.Repeat("y@else"+"z@end", n)+">", d, want, "nested")
}

func pickBool(c bool, a, b string) string {
	if c {
		return a
	}
	return b
}

// H_C03_size: @for and @each of up to 4097 (thorough 10001) passes, with @continueIf on every second pass, a @breakIf next to the end, loop.last, and nested loops.
// vrt:steps 100000000
func H_C03_size() {
	n := big(quick(4096, 10000))
	b := int64(n - vrt.Choice(3))
	d := map[string]any{"n": int64(n), "b": b}
	switch vrt.Choice(5) {
	case 0:
		prints("@for(i = 0; i < n; i++)a@else"+"b@end", d, strings.Repeat("a", n), "for")
	case 1:
		want := ""
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				continue
			}
			want += "a"
			if i >= int(b)-1 {
				break
			}
		}
		prints("@for(i = 0; i < n; i++)@continueIf(i % 2 == 0)a@breakIf(i >= b - 1)@end{{ b }}", d, want+i64(b), "for with controls")
	case 2:
		a := make([]int64, n)
		last := tiny()
		a[n-1] = last
		d["a"] = a
		prints("@each(v in a)@if(loop.last){{ loop.index }},{{ loop.iter }},{{ v }}@elseif(loop.first)f@else{{ v }}@end@end", d, "f"+strings.Repeat("0", n-2)+itoa(n-1)+","+itoa(n)+","+i64(last), "each")
	case 3:
		d["a"] = make([]bool, n)
		prints("@each(v in a)@if(loop.index > b)@break@end{{ v }}@end", d, strings.Repeat("0", min(n, int(b)+1)), "each with break")
	case 4:
		m := big(64)
		d["m"] = int64(m)
		prints("@for(i = 0; i < m; i++)@for(j = m; j > 0; j--)a@end;@end", d, strings.Repeat(strings.Repeat("a", m)+";", m), "nested for")
	}
}

// H_C04_size: up to 256 (thorough 1000) nested blocks that shadow, variables of one block and data entries: all keep their own value (symbolic), also past the innermost block.
// vrt:steps 100000000
func H_C04_size() {
	n := big(quick(256, 1000))
	x := tiny()
	switch vrt.Choice(3) {
	case 0:
		src := "{{ x }}" + strings.Repeat("@if(true){{ x = x + 1 }}", n) + "{{ x }}" + strings.Repeat("@end", n) + "{{ x }}"
		w := x
		for i := 0; i < n; i++ {
			w++
		}
		prints(src, map[string]any{"x": x}, i64(x)+i64(w)+i64(x), "nested scopes")
	case 1:
		src := "{{ " + each(n, "; ", func(i int) string { return "v" + itoa(i) + "q = x + " + itoa(i) }) + " }}@if(true){{ v0q }},{{ v" + itoa(n-1) + "q }},{{ v" + itoa(n/2) + "q - x }}@end"
		prints(src, map[string]any{"x": x}, i64(x)+","+i64(x+int64(n-1))+","+itoa(n/2), "many variables")
	case 2:
		d := map[string]any{"x": x}
		for i := 0; i < n; i++ {
			d["v"+itoa(i)+"q"] = i
		}
		prints(each(n, "", func(i int) string { return "{{ v" + itoa(i) + "q }}" })+"{{ x }}", d, each(n, "", itoa)+i64(x), "many data entries")
	}
}

// H_C05_size: text of up to 64 KiB with an arbitrary byte, an escape, a comment and a block behind it, as many comments, escapes or blocks, and comments of that length.
// vrt:steps 100000000
func H_C05_size() {
	n := big(quick(65536, 100000))
	b := vrt.Str(1, "x-<\n\xc3@\\")
	out, ok := refText("x" + b)
	vrt.Assume(ok)
	switch vrt.Choice(4) {
	case 0:
		prints(strings.Repeat("x", n)+b+"b\\@if {{-- c --}}\\{{ d{{ 1 }}", nil, strings.Repeat("x", n)+out[1:]+"b@if {{ d1", "long text")
	case 1:
		vrt.Assume(b != "-")
		prints("a{{-- "+strings.Repeat("x", n)+b+" --}}b", nil, "ab", "a long comment")
	case 2:
		m := n % 5000
		prints(strings.Repeat("{{-- c --}}x\\{{ ", m)+b+"y", nil, strings.Repeat("x{{ ", m)+out[1:]+"y", "many comments and escapes")
	case 3:
		m := n % 5000
		prints(strings.Repeat("{{ 1 }} @", m)+"z", nil, strings.Repeat("1 @", m)+"z", "many blocks")
	}
}

// H_C06_size: layouts of up to 256 (thorough 1000) reserves of which all or half are filled, long insert bodies and long names.
// vrt:steps 100000000
func H_C06_size() {
	n := big(quick(256, 1000))
	x := tiny()
	page, want := "", ""
	layout := each(n, "", func(i int) string { return itoa(i) + "@reserve('r" + itoa(i) + "')," })
	switch vrt.Choice(3) {
	case 0:
		page = each(n, "", func(i int) string { return "@insert('r" + itoa(i) + "')<{{ x + " + itoa(i) + " }}>@end" })
		want = each(n, "", func(i int) string { return itoa(i) + "<" + i64(x+int64(i)) + ">," })
	case 1:
		page = each(n/2, "", func(i int) string { return "@insert('r" + itoa(2*i) + "', '" + itoa(i) + "')" })
		want = each(n, "", func(i int) string {
			if i%2 == 0 && i/2 < n/2 {
				return itoa(i) + itoa(i/2) + ","
			}
			return itoa(i) + ","
		})
	case 2:
		name := strings.Repeat("n", n)
		layout = "[@reserve('" + name + "n')@reserve('" + name + "')]"
		page = "@insert('" + name + "')" + strings.Repeat("b", n) + "{{ x }}@end"
		want = "[" + strings.Repeat("b", n) + i64(x) + "]"
	}
	t, err := loadTree(tplConfig(), nil, "l", layout, "p", "@use('l')"+page)
	vrt.Assert(err == nil, "a large layout loads")
	if err != nil {
		return
	}
	o, ferr := t.String("p", map[string]any{"x": x})
	vrt.Assert(ferr == nil && o == want, "a large layout")
}

// H_C07_size: up to 64 (thorough 256) uses of a component on one page, arguments, slots, and passes of a loop that uses one, each with its own values.
// vrt:steps 100000000
func H_C07_size() {
	n := big(quick(64, 256))
	x := tiny()
	c, page, want := "", "", ""
	switch vrt.Choice(4) {
	case 0:
		c = "({{ v }}@slot('s')@slot)"
		page = each(n, "", func(i int) string { return "@component('c', {v: " + itoa(i) + "})@slot('s')s" + itoa(i) + "@end@end" })
		want = each(n, "", func(i int) string { return "(" + itoa(i) + "s" + itoa(i) + ")" })
	case 1:
		c = each(n, ",", func(i int) string { return "{{ a" + itoa(i) + "k }}" })
		page = "@component('c', {" + each(n, ", ", func(i int) string { return "a" + itoa(i) + "k: x + " + itoa(i) }) + "})"
		want = each(n, ",", func(i int) string { return i64(x + int64(i)) })
	case 2:
		c = each(n, ",", func(i int) string { return "@slot('s" + itoa(i) + "')" })
		page = "@component('c')" + each(n, "", func(i int) string { return "@slot('s" + itoa(n-1-i) + "')b" + itoa(n-1-i) + "@end" }) + "@end"
		want = each(n, ",", func(i int) string { return "b" + itoa(i) })
	case 3:
		c = "{{ v }}@slot"
		page = "@for(i = 0; i < " + itoa(n) + "; i++)@component('c', {v: i})@slot<{{ i }}>@end@end@end"
		want = each(n, "", func(i int) string { return itoa(i) + "<" + itoa(i) + ">" })
	}
	t, err := loadTree(tplConfig(), nil, "c", c, "p", page)
	vrt.Assert(err == nil, "a page with a large component loads")
	if err != nil {
		return
	}
	o, ferr := t.String("p", map[string]any{"x": x})
	vrt.Assert(ferr == nil && o == want, "a large component")
}

// H_C08_size: tokens of up to 16 KiB (identifier, number, string, comment, text, blanks), up to 256 (thorough 1000) open parentheses, brackets, braces, blocks, slots or errors; complete, cut at the end, or with an illegal byte behind them.
// vrt:steps 100000000
func H_C08_size() {
	n, deep := 0, vrt.Choice(2) == 1
	if deep {
		n = big(quick(256, 1000))
	} else {
		n = big(quick(16384, 65536))
	}
	r := strings.Repeat
	src, end := "", ""
	ok := true
	if deep {
		switch vrt.Choice(7) {
		case 0:
			src, end = "{{ "+r("(", n)+"1", r(")", n)+" }}"
		case 1:
			src, end = "{{ "+r("[", n)+"1", r("]", n)+" }}"
		case 2:
			src, end = "{{ "+r("{a: ", n)+"1", r("}", n)+" }}"
		case 3:
			src, end = r("@if(a)", n)+"1", r("@end", n)
		case 4:
			src, end = r("@each(x in y)@for(;;)", n)+"1", r("@end@end", n)
		case 5:
			src, end = "@component('c')"+each(n, "", func(i int) string { return "@slot('s" + itoa(i) + "')x@end" }), "@end"
		case 6:
			src, end, ok = r("{{ ) }}", n), "{{ 1 }}", false
		}
	} else {
		switch vrt.Choice(6) {
		case 0:
			src, end = "{{ "+r("i", n), " }}"
		case 1:
			src, end, ok = "{{ "+r("7", n), " }}", n < 19
		case 2:
			src, end = "{{ '"+r("s", n), "' }}"
		case 3:
			src, end = "{{-- "+r("c", n), "--}}"
		case 4:
			src, end = "{{"+r(" \n", n)+"1", " }}"
		case 5:
			src, end = r("t", n)+"@if(a)", "@end"
		}
	}
	errs := 0
	switch vrt.Choice(3) {
	case 0:
		errs = large(src + end)
		vrt.Assert(!ok || errs == 0, "a large template parses")
	case 1:
		if src[0] == '{' || src[0] == '@' || strings.HasSuffix(src, ")") {
			errs = large(src)
			vrt.Assert(errs > 0, "a cut large template is rejected")
		}
	case 2:
		errs = large(src + end + "{{ 1 " + vrt.Str(1, "#$&^|`~") + " 2 }}")
		vrt.Assert(errs > 0, "an illegal character after a large template is rejected")
	}
	vrt.Observe("errors", pickBool(errs > 0, "some", "none"))
}

func large(src string) int {
	_, err := tw.EvaluateString(src, nil)
	p := parser.New(lexer.New(src), "/x.tw")
	prog := p.ParseProgram()
	errs := p.Errors()
	vrt.Assert(p.HasErrors() == (len(errs) > 0), "HasErrors agrees with Errors")
	vrt.Assert(len(errs) > 0 || prog != nil, "no program and no error")
	vrt.Assert(len(errs) == 0 || err != nil, "a template with syntax errors does not render")
	n := uint(newlines(src))
	for _, e := range errs {
		vrt.Assert(e != nil && e.Line() >= 1 && e.Line() <= n+1, "the error line is a line of the source")
	}
	return len(errs)
}

// H_C10_size: literals of up to 4096 (thorough 16384) bytes with special characters at symbolic places near both ends, and up to 1000 literals.
// vrt:steps 100000000
func H_C10_size() {
	a, b := vrt.Str(2, "<&a"), vrt.Str(1, "<&\"")
	esc := strings.NewReplacer("<", "&lt;", ">", "&gt;", "&", "&amp;")
	if vrt.Choice(2) == 0 {
		n := big(quick(4096, 16384))
		lit := a + strings.Repeat("é<", n/3) + strings.Repeat("x", n%3) + b
		prints("{{ '"+lit+"' }}", nil, esc.Replace(a)+strings.Repeat("é&lt;", n/3)+strings.Repeat("x", n%3)+esc.Replace(b), "a long literal")
		prints("{{ '"+lit+"'.raw() }}", nil, lit, "raw() of a long literal")
		return
	}
	n := big(1000)
	prints(each(n, "", func(i int) string { return "{{ '" + itoa(i) + "<' }}" })+"{{ '"+a+b+"' }}", nil, each(n, "", func(i int) string { return itoa(i) + "&lt;" })+esc.Replace(a)+esc.Replace(b), "many literals")
}

// H_C11_size: string functions on up to 4096 (thorough 65536) characters of one to four bytes and array functions on as many elements, with the boundary indexes.
// vrt:steps 100000000
func H_C11_size() {
	n := big(quick(4096, 65536))
	ch := pick("a", "é", "日", "𝄞")
	s := strings.Repeat(ch, n-1) + "z"
	d := map[string]any{"s": s, "n": int64(n)}
	switch vrt.Choice(13) {
	case 7:
		u := ""
		v := ""
		for _, c := range []string{"a", "é", "b", "日", "c"} {
			u += c
			v = c + v
		}
		m := n/5 + 1
		d["s"], d["r"], d["k"] = strings.Repeat(u, m), strings.Repeat(v, m), int64(vrt.Choice(5))
		prints("{{ s.reverse() == r }}{{ s.reverse().reverse() == s }}{{ s.reverse().at("+itoa(5*(m/2))+" + k) == r.at(k) }}{{ s.split('').reverse().join('') == r }}{{ s.split('b').len() }}", d, "1111"+itoa(m+1), "a long string of different characters")
	case 0:
		prints("{{ s.len() }},{{ s.at(n - 1) }}{{ s.last() }}{{ s.reverse().first() }}", d, itoa(n)+",zzz", "len, at, last, reverse")
	case 1:
		prints("{{ s.truncate(n - 1) }}", d, strings.Repeat(ch, n-1)+"...", "truncate")
	case 2:
		prints("{{ s.truncate(n) == s }}{{ s.truncate(n + 1) == s }}", d, "11", "truncate at the length")
	case 3:
		prints("{{ 'ab'.repeat(n).len() }}", d, itoa(2*n), "repeat")
	case 4:
		prints("{{ s.upper().lower() == s }}{{ s.capitalize().len() }}", d, "1"+itoa(n), "upper, lower, capitalize")
	case 5:
		prints("{{ s.split('').len() }}{{ s.contains('z') }}{{ s.contains('zz') }}", d, itoa(n)+"10", "split and contains")
	case 6:
		prints("{{ s.trimRight('z').len() }}{{ s.trimLeft('"+ch+"') }}", d, itoa(n-1)+"z", "trim")
	}
	if n > 5000 {
		return
	}
	a := make([]int64, n)
	for i := range a {
		a[i] = int64(i)
	}
	d["a"] = a
	switch vrt.Choice(5) {
	case 4:
		prints("{{ a.reverse().join('-') }}|{{ a.reverse().reverse().join('-') == a.join('-') }}", d, each(n, "-", func(i int) string { return itoa(n - 1 - i) })+"|1", "reverse")
	case 0:
		prints("{{ a.len() }},{{ a[n - 1] }},{{ a.reverse()[0] }},{{ a.append(1).len() }},{{ a.prepend(7)[n] }}", d, itoa(n)+","+itoa(n-1)+","+itoa(n-1)+","+itoa(n+1)+","+itoa(n-1), "array functions")
	case 1:
		prints("{{ a.slice(n - 1) }},{{ a.slice(0, n).len() }},{{ a.slice(n).len() }},{{ a.slice(1, n + 1).len() }}", d, itoa(n-1)+","+itoa(n)+",0,"+itoa(n-1), "slice")
	case 2:
		prints("{{ a.join('-') }}", d, each(n, "-", itoa), "join")
	case 3:
		prints("{{ a.contains(n - 1) }}{{ a.contains(n) }}", d, "10", "contains")
	}
}

// H_C12_size: slices, strings and maps of up to 4096 (thorough 16384; maps 256) entries, and up to 256 (thorough 1000) levels of slices, maps and pointers.
// vrt:steps 100000000
func H_C12_size() {
	x := tiny()
	switch vrt.Choice(5) {
	case 0:
		n := big(quick(4096, 16384))
		a := make([]int64, n)
		a[n-1] = x
		prints("{{ a.len() }},{{ a["+itoa(n-1)+"] }},{{ a }}", map[string]any{"a": a}, itoa(n)+","+i64(x)+","+strings.Repeat("0, ", n-1)+i64(x), "a long slice")
		vrt.Assert(len(a) == n && a[n-1] == x, "the data are as before")
	case 1:
		n := big(quick(4096, 65536))
		s := strings.Repeat("\xff<", n) + vrt.Str(1, "<\x00\xff&")
		prints("{{ s }}", map[string]any{"s": s}, s, "a long string")
	case 2:
		n := big(256)
		m := map[string]any{}
		for i := 0; i < n; i++ {
			m["k"+itoa(i)+"q"] = int64(i)
		}
		m["x"] = x
		prints(each(n, "", func(i int) string { return "{{ m.k" + itoa(i) + "q }}" })+"{{ m.x }}", map[string]any{"m": m}, each(n, "", itoa)+i64(x), "a large map")
		vrt.Assert(len(m) == n+1, "the map is as before")
	case 3:
		n := big(quick(256, 1000))
		var v any = x
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				v = []any{v}
			} else {
				v = map[string]any{"k": v}
			}
		}
		prints("{{ v"+each(n, "", func(i int) string { return pickBool((n-1-i)%2 == 0, "[0]", ".k") })+" }}", map[string]any{"v": v}, i64(x), "deep data")
	case 4:
		n := big(quick(256, 1000))
		var v any = x
		for i := 0; i < n; i++ {
			w := v
			v = &w
		}
		prints("{{ v }}", map[string]any{"v": v}, i64(x), "a chain of pointers")
	}
}

// H_C13_size: a fault behind up to 65536 (thorough 100000) lines of text, comment, blanks of code or a string literal, or as many columns: the line is exact.
// vrt:steps 100000000
func H_C13_size() {
	n := big(quick(65536, 100000))
	nl := pick("\n", "\r\n")
	r := strings.Repeat(nl, n)
	src, line := "", n+1
	switch vrt.Choice(6) {
	case 0:
		src = r
	case 1:
		src = "{{-- " + r + "--}}"
	case 2:
		src = "{{ 1" + r + "}}"
	case 3:
		src = "{{ '" + r + "' }}"
	case 4:
		src = "@if(" + r + "true)a@end"
	case 5:
		src, line = strings.Repeat("x", n), 1
	}
	src += pick("{{ nope }}", "@if(1 / 0)x@end", "{{ 1 # 2 }}", "{{ 1 2 }}")
	_, err := tw.EvaluateString(src, nil)
	vrt.Assert(err != nil, "the fault is reported")
	if err == nil {
		return
	}
	_, got, _, ok := errText(err.Error())
	vrt.Assert(ok && got == line, "the line of the construct")
}

// H_C17_size: a page that fails after up to 64 KiB of output, or renders that much (symbolic last byte): the body has no byte of the failed page, or all of the page.
// vrt:steps 100000000
func H_C17_size() {
	n := big(quick(65536, 100000))
	c := vrt.Str(1, bytesWithout("{@\\"))
	fail := vrt.Choice(2) == 1
	line := 1
	if vrt.Choice(2) == 0 {
		line += n
	}
	page := strings.Repeat(pickBool(line > 1, "\n", "M"), n) + c
	src := page
	if fail {
		src += pick("{{ nope }}", "@each(i in [1, 2]){{ 1 / (2 - i) }}@end")
	}
	errBody, debug := pick("builtin", "custom", ""), vrt.Choice(2) == 1
	cfg := &config.Config{TemplateDir: "tpl", TemplateExt: ".tw", DebugMode: debug}
	if errBody != "builtin" {
		cfg.ErrorPagePath = "err"
	}
	t, err := loadTree(cfg, nil, "p", src, "err", pickBool(errBody == "", "part{{ n }}", errBody))
	vrt.Assert(err == nil, "the tree loads")
	if err != nil {
		return
	}
	w := &recorder{h: http.Header{}}
	err = t.Response(w, "p", nil)
	if !fail {
		vrt.Assert(err == nil && w.body == page, "the complete page is written")
		return
	}
	vrt.Assert(err != nil, "Response returns an error")
	vrt.Assert(!strings.Contains(w.body, "MMMM"), "no part of the failed page")
	if debug && c != "\n" {
		vrt.Assert(strings.Contains(w.body, "p.tw:"+itoa(line)+"<"), "debug: the path and line are shown")
	}
	if !debug && errBody != "builtin" {
		vrt.AssertEq(w.body, errBody, "the custom error page, or nothing when it fails")
	}
	if !debug && errBody == "builtin" {
		other := &recorder{h: http.Header{}}
		vrt.Assert(t.Response(other, "missing", nil) != nil && w.body == other.body, "the built-in page does not depend on the failure")
	}
}

// H_C17_long: messages with an identifier, a function name or a key of up to 4096 (thorough 65536) characters with a symbolic last one, on a line of up to 1000, in a page, a layout or a component: with debug on
// the page shows the whole message, path and line; with debug off the same page as for any other failure.
// vrt:steps 100000000
func H_C17_long() {
	name := strings.Repeat("u", big(quick(4096, 65536))-1) + vrt.Str(1, letters)
	bad := pick("{{ "+name+" }}", "{{ 1."+name+"() }}", "{{ {a: 1}."+name+" }}", "{{ 'a'."+name+"() }}")
	pad := strings.Repeat("\n", []int{0, 1, 2, 3, 4, 9, 999}[vrt.Choice(7)])
	files := []string{"p", pad + bad, "l", "x", "c", "x"}
	switch vrt.Choice(3) {
	case 1:
		files = []string{"p", "@use('l')", "l", pad + bad, "c", "x"}
	case 2:
		files = []string{"p", "@component('c')", "l", "x", "c", pad + bad}
	}
	debug := vrt.Choice(2) == 1
	t, err := loadTree(&config.Config{TemplateDir: "tpl", TemplateExt: ".tw", DebugMode: debug}, nil, files...)
	vrt.Assert(err == nil, "the tree loads")
	if err != nil {
		return
	}
	_, ferr := t.String("p", nil)
	vrt.Assert(ferr != nil, "the page fails")
	if ferr == nil {
		return
	}
	w := &recorder{h: http.Header{}}
	vrt.Assert(t.Response(w, "p", nil) != nil, "Response returns an error")
	if debug {
		vrt.Assert(strings.Contains(ferr.Message(), name), "debug: the message names what is missing")
		vrt.Assert(strings.Contains(w.body, ferr.Message()), "debug: the message is shown")
		vrt.Assert(strings.Contains(w.body, ferr.Filepath()+":"+itoa(int(ferr.Line()))), "debug: the path and line are shown")
		return
	}
	other := &recorder{h: http.Header{}}
	vrt.Assert(t.Response(other, "missing", nil) != nil && w.body == other.body, "the built-in page does not depend on the failure")
}

// H_C18_size: directories of up to 128 (thorough 1000) files, 64 levels, names of 100 bytes, and files of up to 64 KiB (thorough 100000 bytes) with a symbolic last byte.
// vrt:steps 100000000
func H_C18_size() {
	c := vrt.Str(1, bytesWithout("{@\\"))
	switch vrt.Choice(3) {
	case 0:
		n := big(quick(128, 1000))
		var files []string
		for i := 0; i < n; i++ {
			files = append(files, pickAt(i, "", "d/", "d/e/")+"f"+itoa(i)+"q", itoa(i)+c)
		}
		t, err := loadTree(tplConfig(), nil, files...)
		vrt.Assert(err == nil, "many files load")
		if err != nil {
			return
		}
		for _, i := range []int{0, n / 2, n - 1} {
			o, ferr := t.String(files[2*i], nil)
			vrt.Assert(ferr == nil && o == files[2*i+1], "each of many files is registered")
		}
	case 1:
		n := big(64)
		name := strings.Repeat("d/", n) + strings.Repeat("n", 100)
		t, err := loadTree(tplConfig(), nil, name, c, "n", "other")
		vrt.Assert(err == nil, "a deep file loads")
		if err == nil {
			o, ferr := t.String(name, nil)
			vrt.Assert(ferr == nil && o == c, "a deep file")
		}
	case 2:
		n := big(quick(65536, 100000))
		text := strings.Repeat("t", n) + c
		t, err := loadTree(tplConfig(), nil, "p", text)
		vrt.Assert(err == nil, "a large file loads")
		if err == nil {
			o, ferr := t.String("p", nil)
			vrt.Assert(ferr == nil && o == text, "a large file")
			o, e := tw.EvaluateFile(vrt.Cwd()+"/tpl/p.tw", nil)
			vrt.Assert(e == nil && o == text, "a large file by its path")
		}
	}
}

// H_C19_size: tokens behind up to 65536 lines or columns and tokens of up to 65536 (thorough 100000) bytes or lines are at their exact positions.
// vrt:steps 100000000
func H_C19_size() {
	n := big(quick(65536, 100000))
	u := uint(n)
	type tk struct {
		t              token.TokenType
		sl, sc, el, ec uint
	}
	var src string
	var want []tk
	r := strings.Repeat
	q := pick("a", "é", "7")
	switch vrt.Choice(6) {
	case 0:
		src = r("x", n) + "{{ " + q + " }}"
		want = []tk{{token.HTML, 0, 0, 0, u - 1}, {token.LBRACES, 0, u, 0, u + 1}}
	case 1:
		src = r("\n", n) + "{{ 1 }}"
		want = []tk{{token.HTML, 0, 0, u - 1, 0}, {token.LBRACES, u, 0, u, 1}, {token.INT, u, 3, u, 3}}
	case 2:
		src = "{{ '" + r("s", n) + "' }}"
		want = []tk{{token.LBRACES, 0, 0, 0, 1}, {token.STR, 0, 3, 0, 4 + u}, {token.RBRACES, 0, u + 6, 0, u + 7}}
	case 3:
		src = "{{ '" + r("\n", n) + "' }}"
		want = []tk{{token.LBRACES, 0, 0, 0, 1}, {token.STR, 0, 3, u, 0}, {token.RBRACES, u, 2, u, 3}}
	case 4:
		src = "{{-- " + r("\r\n", n) + "--}}{{" + r(" ", n) + "a }}"
		want = []tk{{token.LBRACES, u, 4, u, 5}, {token.IDENT, u, u + 6, u, u + 6}, {token.RBRACES, u, u + 8, u, u + 9}}
	case 5:
		src = "{{ " + r("i", n) + " }}\n"
		want = []tk{{token.LBRACES, 0, 0, 0, 1}, {token.IDENT, 0, 3, 0, u + 2}, {token.RBRACES, 0, u + 4, 0, u + 5}, {token.HTML, 0, u + 6, 0, u + 6}, {token.EOF, 1, 0, 1, 0}}
	}
	l := lexer.New(src)
	for _, w := range want {
		t := l.NextToken()
		vrt.Assert(t.Type == w.t, "the kind of the token")
		vrt.Assert(t.Pos.StartLine == w.sl && t.Pos.StartCol == w.sc, "the start of the token")
		vrt.Assert(t.Pos.EndLine == w.el && t.Pos.EndCol == w.ec, "the end of the token")
	}
}

// H_C20_size: calls of a custom function with up to 256 arguments (symbolic last one), with arrays of as many elements, and as many registered functions.
// vrt:steps 100000000
func H_C20_size() {
	n := big(256)
	x := tiny()
	switch vrt.Choice(3) {
	case 0:
		vrt.Assert(register(2, "fn", 1) == nil, "the first registration succeeds")
		prints("{{ 1.fn("+each(n, ", ", itoa)+", x) }}", map[string]any{"x": x}, "2", "many arguments")
		vrt.Assert(len(given) == n+1 && natEq(given[n], val{k: 'i', i: x}) && natEq(given[n-1], val{k: 'i', i: int64(n - 1)}), "every argument arrives")
	case 1:
		vrt.Assert(register(1, "fn", 1) == nil, "the first registration succeeds")
		a := make([]int64, n)
		a[n-1] = x
		prints("{{ a.fn(a).len() }}", map[string]any{"a": a}, itoa(n+2), "a large receiver")
		s, ok := seen.([]any)
		vrt.Assert(ok && len(s) == n && natEq(s[n-1], val{k: 'i', i: x}), "every element arrives")
	case 2:
		for i := 0; i < n; i++ {
			vrt.Assert(register(0, "fn"+itoa(i)+"q", i) == nil, "the first registration succeeds")
		}
		for _, i := range []int{0, n / 2, n - 1} {
			vrt.Assert(register(0, "fn"+itoa(i)+"q", 1000) != nil, "a second registration fails")
			prints("{{ 'a'.fn"+itoa(i)+"q() }}", nil, "a#"+itoa(i), "one of many functions")
		}
	}
}

// H_C14_size: objects and data maps of 5 to 33 entries, printed, dumped, with several failing entries: the same result whatever the order of the map (all rotations of it and their reverses).
func H_C14_size() {
	n := []int{5, 8, 9, 13, 17, 33}[vrt.Choice(quick(4, 6))]
	m := map[string]any{}
	for i := 0; i < n; i++ {
		m["k"+string(rune('a'+i%26))+strings.Repeat("q", i/26)] = int64(i)
	}
	m["z"] = tiny()
	d := map[string]any{"m": m}
	src := pick("{{ m }}", "@dump(m)", "@dump([m])", "{{ [m].join('') }}", "{{ {a: m} }}", "{{ {"+each(n, ", ", func(i int) string {
		return "k" + string(rune('z'-i%26)) + strings.Repeat("q", i/26) + ": " + pickAt(i, "1", "nope", "1 / 0")
	})+"} }}", "{{ [m].contains(m) }}")
	stable(1, func() string { return result(src, d) }, "a large object")
}

// H_C16_size: up to 257 (thorough 1025) different templates, failing ones and pages are rendered, then the first ones again, with the same result (caches and pools of such sizes overflow).
// vrt:steps 100000000
func H_C16_size() {
	n := big(quick(256, 1024))
	x := tiny()
	d := map[string]any{"x": x}
	t, err := loadTree(tplConfig(), nil, "p", "@component('c', {v: x})@slot('s'){{ x + 1 }}@end@end", "q", "{{ x }}{{ nope }}", "c", "({{ v }}@slot('s'))")
	vrt.Assert(err == nil, "the tree loads")
	if err != nil {
		return
	}
	page := func(name string) string {
		o, ferr := t.String(name, d)
		if ferr != nil {
			return "error: " + ferr.String()
		}
		return o
	}
	src := func(i int) string {
		return "@if(x > " + itoa(i) + "){{ x }}@else{{ y = '" + itoa(i) + "'; y.raw() }}@end"
	}
	first, p, q := result(src(0), d), page("p"), page("q")
	vrt.AssertEq(p, "("+i64(x)+i64(x+1)+")", "the page")
	how := vrt.Choice(4)
	for i := 1; i < n; i++ {
		switch how {
		case 0:
			vrt.Assert(result(src(i), d) == pickBool(x > int64(i), "output: "+i64(x), "output: "+itoa(i)), "one of many templates")
		case 1:
			result("{{ x }}{{ nope"+itoa(i)+" }}", d)
		case 2:
			vrt.Assert(page("p") == p, "one of many renders of a page")
		case 3:
			vrt.Assert(page("q") == q, "one of many failing renders of a page")
		}
	}
	vrt.AssertEq(result(src(0), d), first, "the first template after many others")
	vrt.AssertEq(page("p"), p, "the page after many others")
	vrt.AssertEq(page("q"), q, "the failing page after many others")
}
