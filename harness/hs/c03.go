package hs

import (
	"strings"

	"vh/vrt"
)

// piece of a loop body in the reference: emits text, meta data, or controls the loop.
type piece struct {
	op   string // text, var, meta, break, continue, breakif, contif, if, loop
	s    string
	at   int64 // controls act in passes whose element satisfies n == at
	kids []*piece
	els  []*piece
	has  bool // else part present
	loop *loopSpec
}

type loopSpec struct {
	name string
	arr  string
	n    int
	body []*piece
	els  []*piece
	has  bool

	isFor bool // @for over the same numbers
}

const (
	next = iota
	brk
	cont
)

// frame of a reference loop: i passes so far in the innermost loop; mi of mn in the innermost @each around.
type lframe struct{ i, mi, mn int }

func srcOf(ps []*piece, idx string) string {
	var b strings.Builder
	for _, p := range ps {
		switch p.op {
		case "text":
			b.WriteString(p.s)
		case "meta":
			b.WriteString("[{{ loop.index }}{{ loop.iter }}{{ loop.first }}{{ loop.last }}]")
		case "var":
			b.WriteString("{{ " + p.s + " }}")
		case "break":
			b.WriteString("@break")
		case "continue":
			b.WriteString("@continue")
		case "breakif":
			b.WriteString("@breakIf(" + idx + " == k)")
		case "contif":
			b.WriteString("@continueIf(" + idx + " == k)")
		case "if":
			b.WriteString("@if(" + idx + " == k)" + srcOf(p.kids, idx))
			if p.has {
				b.WriteString("@else")
				b.WriteString(srcOf(p.els, idx))
			}
			b.WriteString("@end")
		case "loop":
			b.WriteString(p.loop.src(idx))
		}
	}
	return b.String()
}

func (l *loopSpec) src(outer string) string {
	s := "@each(" + l.name + " in " + l.arr + ")"
	idx := "loop.index"
	if l.isFor {
		s = "@for(" + l.name + " = 4; " + l.name + " < " + itoa(l.n+4) + "; " + l.name + "++)"
		idx = l.name + " - 4"
	}
	s += srcOf(l.body, idx)
	if l.has {
		s += "@else" + srcOf(l.els, outer)
	}
	return s + "@end"
}

func bit(b bool) string {
	if b {
		return "1"
	}
	return "0"
}

func run(ps []*piece, f lframe, vars map[string]string, out *strings.Builder) int {
	for _, p := range ps {
		r := next
		switch p.op {
		case "text":
			out.WriteString(p.s)
		case "meta":
			out.WriteString("[" + itoa(f.mi) + itoa(f.mi+1) + bit(f.mi == 0) + bit(f.mi == f.mn-1) + "]")
		case "var":
			out.WriteString(vars[p.s])
		case "break":
			r = brk
		case "continue":
			r = cont
		case "breakif":
			if int64(f.i) == p.at {
				r = brk
			}
		case "contif":
			if int64(f.i) == p.at {
				r = cont
			}
		case "if":
			if int64(f.i) == p.at {
				r = run(p.kids, f, vars, out)
			} else if p.has {
				r = run(p.els, f, vars, out)
			}
		case "loop":
			r = p.loop.exec(f, vars, out)
		}
		if r != next {
			return r
		}
	}
	return next
}

func (l *loopSpec) exec(outer lframe, vars map[string]string, out *strings.Builder) int {
	if l.n == 0 {
		if l.has {
			return run(l.els, outer, vars, out)
		}
		return next
	}
	for i := 0; i < l.n; i++ {
		vars[l.name] = itoa(i + 4)
		f := lframe{i, i, l.n}
		if l.isFor {
			f.mi, f.mn = outer.mi, outer.mn
		}
		if run(l.body, f, vars, out) == brk {
			break
		}
	}
	return next
}

// arr is the literal array of n elements 4, 5, ...
func arrLit(n int) string {
	s := "["
	for i := 0; i < n; i++ {
		if i > 0 {
			s += ", "
		}
		s += itoa(i + 4)
	}
	return s + "]"
}

// bodyPieces is a symbolic loop body of at most n pieces; meta: a loop object exists.
func bodyPieces(n int, depth int, at int64, name string, meta bool) []*piece {
	var ps []*piece
	for i := vrt.Choice(n + 1); i > 0; i-- {
		k := 9
		if depth == 0 {
			k = 7
		}
		p := &piece{at: at}
		switch vrt.Choice(k) {
		case 0:
			p.op, p.s = "text", "t"+itoa(i)
		case 1:
			p.op, p.s = "var", name
			if meta {
				p.op = "meta"
			}
		case 2:
			p.op, p.s = "var", name
		case 3:
			p.op = "break"
		case 4:
			p.op = "continue"
		case 5:
			p.op = "breakif"
		case 6:
			p.op = "contif"
		case 7:
			p.op = "if"
			p.kids = bodyPieces(2, depth-1, at, name, meta)
			if p.has = vrt.Choice(2) == 1; p.has {
				p.els = []*piece{{op: "text", s: "(e)"}}
			}
		case 8:
			p.op = "loop"
			m := vrt.Choice(3)
			p.loop = &loopSpec{name: name + "i", arr: arrLit(m), n: m, isFor: vrt.Choice(2) == 1}
			p.loop.body = bodyPieces(2, depth-1, at, name+"i", meta || !p.loop.isFor)
			if p.loop.has = vrt.Choice(2) == 1; p.loop.has {
				p.loop.els = bodyPieces(1, 0, at, name, meta)
			}
		}
		ps = append(ps, p)
	}
	return ps
}

// H_C03_body: an @each or @for over 0..3 elements whose body is up to 3 (thorough 4) pieces out of text, the loop object,
// the element, @break, @continue, @breakIf, @continueIf, an @if holding up to two more of them, and an
// inner @each or @for (0..2 elements, own body and @else), conditions comparing the position with any int64, against a reference interpreter.
// vrt:weight 4
func H_C03_body() {
	n := vrt.Choice(4)
	at := vrt.Int64()
	l := &loopSpec{name: "x", arr: arrLit(n), n: n, isFor: vrt.Choice(2) == 1}
	l.body = bodyPieces(quick(3, 4), quick(1, 2), at, "x", !l.isFor)
	if l.has = vrt.Choice(2) == 1; l.has {
		l.els = []*piece{{op: "text", s: "none"}}
	}
	var want strings.Builder
	want.WriteString("<")
	l.exec(lframe{}, map[string]string{}, &want)
	want.WriteString(">")
	renders("<"+l.src("")+">", map[string]any{"k": at}, want.String(), "each body")
}

// H_C03_each: @each over data of 0..4 (thorough 7) elements of one kind (int64, float64, string, bool,
// array, object; symbolic values) in order with loop metadata, @else exactly when empty.
// vrt:weight 2
func H_C03_each() {
	n := vrt.Choice(quick(5, 8))
	kind := vrt.Choice(6)
	var data any
	var txt []string
	switch kind {
	case 0:
		var a []int64
		for i := 0; i < n; i++ {
			x := vrt.Int64()
			a = append(a, x)
			txt = append(txt, i64(x))
		}
		data = a
	case 1:
		var a []string
		for i := 0; i < n; i++ {
			x := vrt.Str(1, "")
			a = append(a, x)
			txt = append(txt, x)
		}
		data = a
	case 2:
		var a []bool
		for i := 0; i < n; i++ {
			x := vrt.Bool()
			a = append(a, x)
			txt = append(txt, bit(x))
		}
		data = a
	case 3:
		var a []float64
		for i := 0; i < n; i++ {
			a = append(a, float64(i)+0.5)
			txt = append(txt, itoa(i)+".5")
		}
		data = a
	case 4:
		var a []any
		for i := 0; i < n; i++ {
			x := vrt.Int64()
			a = append(a, []int64{x, 1})
			txt = append(txt, i64(x)+", 1")
		}
		data = a
	case 5:
		var a []map[string]any
		for i := 0; i < n; i++ {
			x := vrt.Int64()
			a = append(a, map[string]any{"k": x})
			txt = append(txt, "{k: "+i64(x)+"}")
		}
		data = a
	}
	els := vrt.Choice(2) == 1
	src := "a @each(v in arr)" + pick("", "\n") + "[{{ loop.index }},{{ loop.iter }},{{ loop.first }},{{ loop.last }}:{{ v }}]"
	nl := ""
	if strings.Contains(src, "\n") {
		nl = "\n"
	}
	want := "a "
	for i, t := range txt {
		want += nl + "[" + itoa(i) + "," + itoa(i+1) + "," + bit(i == 0) + "," + bit(i == n-1) + ":" + t + "]"
	}
	if els {
		src += "@else none"
		if n == 0 {
			want += " none"
		}
	}
	renders(src+"@end z", map[string]any{"arr": data}, want+" z", "each")
}

// H_C03_for: @for with symbolic start and bound (0..6 passes), steps ++, --, += 2 and -= 3 written as
// expressions or assignments, conditions < <= > >= !=, an @else body, controls in the body.
// vrt:weight 2
func H_C03_for() {
	a := int64(vrt.IntRange(-3, 3))
	b := int64(vrt.IntRange(-3, 3))
	cmp := vrt.Choice(5)
	step := vrt.Choice(6)
	post := []string{"i++", "i--", "i + 2", "i = i + 2", "i = i - 3", "i - 1"}[step]
	d := []int64{1, -1, 2, 2, -3, -1}[step]
	c := []string{"i < b", "i <= b", "i > b", "i >= b", "i != b"}[cmp]
	cond := func(i int64) bool {
		switch cmp {
		case 0:
			return i < b
		case 1:
			return i <= b
		case 2:
			return i > b
		case 3:
			return i >= b
		}
		return i != b
	}
	stop := int64(100)
	ctl, stopSrc := vrt.Choice(4), ""
	switch ctl {
	case 1:
		stop = 1
		stopSrc = "@breakIf(i == 1)"
	case 2:
		stop = 0
		stopSrc = "@continueIf(i == 0)"
	case 3:
		stop = 1
		stopSrc = "@if(i == 1)!@break@end"
	}
	want := "<"
	n := 0
	i := a
	for cond(i) {
		n++
		if n > 8 {
			vrt.Assume(false) // does not end within the bound
		}
		want += i64(i)
		if i == stop {
			if ctl == 3 {
				want += "!"
			}
			if ctl != 2 {
				break
			}
		} else {
			want += ","
		}
		i += d
	}
	src := "<@for(i = a; " + c + "; " + post + "){{ i }}" + stopSrc + ","
	if vrt.Choice(2) == 1 {
		src += "@else none"
		if n == 0 {
			want += " none"
		}
	}
	renders(src+"@end>", map[string]any{"a": a, "b": b}, want+">", "for")
}

// H_C03_forvar: @for over symbolic int64 bounds: the body sees the counter's exact value in each of up
// to four passes and the counter wraps; a post statement on another variable leaves the counter.
func H_C03_forvar() {
	a := vrt.Int64()
	n := int64(vrt.Choice(4))
	renders("@for(i = a; i - a < n; i++){{ i }},@end", map[string]any{"a": a, "n": n}, func() string {
		s := ""
		for k := int64(0); k < n; k++ {
			s += i64(a+k) + ","
		}
		return s
	}(), "counter")
	renders("@for(i = 0; i < n; i++)@for(j = 0; j < i; j++){{ i }}{{ j }} @end;@end", map[string]any{"n": n}, func() string {
		s := ""
		for i := 0; i < int(n); i++ {
			for j := 0; j < i; j++ {
				s += itoa(i) + itoa(j) + " "
			}
			s += ";"
		}
		return s
	}(), "nested for")
}

// H_C03_meta: nested loops (each in each, for in each, each in for, @else of an inner empty loop, loops inside
// @if and component-free blocks) see their own loop object and the outer one is restored afterwards.
func H_C03_meta() {
	n, m := vrt.Choice(3), vrt.Choice(3)
	meta := "{{ loop.index }}{{ loop.iter }}{{ loop.first }}{{ loop.last }}"
	ref := func(i, n int) string { return itoa(i) + itoa(i+1) + bit(i == 0) + bit(i == n-1) }
	var src, want string
	switch vrt.Choice(4) {
	case 0:
		src = "@each(x in " + arrLit(n) + ")" + meta + "(@each(y in " + arrLit(m) + ")" + meta + ".@end)" + meta + ";@end"
		for i := 0; i < n; i++ {
			want += ref(i, n) + "("
			for j := 0; j < m; j++ {
				want += ref(j, m) + "."
			}
			want += ")" + ref(i, n) + ";"
		}
	case 1:
		src = "@each(x in " + arrLit(n) + ")@for(j = 0; j < " + itoa(m) + "; j++){{ j }}" + meta + "@end" + meta + ";@end"
		for i := 0; i < n; i++ {
			for j := 0; j < m; j++ {
				want += itoa(j) + ref(i, n)
			}
			want += ref(i, n) + ";"
		}
	case 2:
		src = "@for(j = 0; j < " + itoa(m) + "; j++)@each(x in " + arrLit(n) + "){{ j }}{{ x }}" + meta + "@end;@end"
		for j := 0; j < m; j++ {
			for i := 0; i < n; i++ {
				want += itoa(j) + itoa(i+4) + ref(i, n)
			}
			want += ";"
		}
	case 3:
		src = "@each(x in " + arrLit(n) + ")@each(y in [])no@else" + meta + "@end@if(x == 5)@each(z in [1, 2, 3])" + meta + "@end@end" + meta + ";@end"
		for i := 0; i < n; i++ {
			want += ref(i, n)
			if i == 1 {
				want += ref(0, 3) + ref(1, 3) + ref(2, 3)
			}
			want += ref(i, n) + ";"
		}
	}
	renders(src, nil, want, "loop object")
	// after the last loop there is no loop object
	fails(src+"{{ loop.index }}", nil, "loop object after the loop")
}

// H_C03_errors: iterating a value that is not an array (every kind, symbolic value) is an error, with and
// without @else; a control in the @else body of a loop acts on the loop around it.
func H_C03_errors() {
	if vrt.Choice(2) == 0 {
		data := map[string]any{}
		c, v := condition("c", data, true)
		if v.k == 'a' {
			return
		}
		fails("x@each(v in "+c+")y"+pick("", "@else z")+"@end", data, "iterating a non-array")
		return
	}
	n := vrt.Choice(3)
	ctl := pick("@break", "@continue", "@breakIf(true)", "@continueIf(x == 4)", "@if(x == 5)@break@end", "@if(true)@if(true)@continue@end@end")
	inner := pick("@each(y in [])n@else(E)", "@for(j = 1; j < 1; j++)n@else(E)")
	src := "@each(x in " + arrLit(n) + "){{ x }}" + inner + ctl + "|@end~@end."
	want := ""
	for i := 0; i < n; i++ {
		want += itoa(i+4) + "(E)"
		act := next
		switch ctl {
		case "@break", "@breakIf(true)":
			act = brk
		case "@continueIf(x == 4)":
			if i == 0 {
				act = cont
			}
		case "@if(x == 5)@break@end":
			if i == 1 {
				act = brk
			}
		default:
			act = cont
		}
		if act == next {
			want += "|~"
		}
		if act == brk {
			break
		}
	}
	renders(src, nil, want+".", "control in the else body")
}

// H_C03_clauses: @for with absent init, condition or post clauses ends by its condition or by @break.
func H_C03_clauses() {
	n := vrt.Choice(4)
	d := map[string]any{"n": int64(n)}
	up := func(to int, sep string) string {
		s := ""
		for i := 0; i < to; i++ {
			s += itoa(i) + sep
		}
		return s
	}
	switch vrt.Choice(5) {
	case 0:
		renders("{{ i = 0 }}@for(; i < n; i = i + 1){{ i }},@end", d, up(n, ","), "no init")
	case 1:
		renders("@for(i = 0;; i++)@breakIf(i == n){{ i }},@end", d, up(n, ","), "no condition")
	case 2:
		renders("@for(;;)a@break@end", d, "a", "no clause")
	case 3:
		renders("@for(i = 0; i < n;){{ i }},@break@end", d, up(min(n, 1), ","), "no post")
	case 4:
		renders("@for(; false;)a@else b@end", d, " b", "only a condition")
	}
}

// H_C03_branches: @break, @continue and text in every branch of an @if with @elseif and @else (also inside of a nested @if and behind or in front of other text), in the passes a symbolic number selects, of an @each or @for of 1..3 passes.
func H_C03_branches() {
	n := 1 + vrt.Choice(3)
	k := vrt.Int64()
	type act struct {
		src, out string
		do       int
	}
	acts := []act{{"", "", next}, {"(t)", "(t)", next}, {"@break", "", brk}, {"a@continue b", "a", cont}, {"a @breakIf(true)b", "a ", brk}, {"@continueIf(1)b", "", cont}, {"@breakIf(false)b", "b", next},
		{"c@if(false)d@else@break@end e", "c", brk}, {"@if(x)f@if(false)g@elseif(true)h@continue@end@end", "fh", cont}, {"@each(y in [1, 2])y@break@end", "y", next}}
	a, b, c := acts[vrt.Choice(len(acts))], acts[vrt.Choice(len(acts))], acts[vrt.Choice(len(acts))]
	head := "@each(x in " + arrLit(n) + ")"
	if vrt.Choice(2) == 1 {
		head = "@for(x = 4; x < " + itoa(n+4) + "; x++)"
	}
	want := "<"
	for i := int64(4); i < int64(n+4); i++ {
		d := c
		if i == k {
			d = a
		} else if i > k {
			d = b
		}
		want += d.out
		if d.do == brk {
			break
		}
		if d.do == next {
			want += "."
		}
	}
	renders("<"+head+"@if(x == k)"+a.src+"@elseif(x > k)"+b.src+"@else"+c.src+"@end.@end>", map[string]any{"k": k}, want+">", "controls in branches")
}

// H_C03_while: a @for whose condition is a value of any kind (truthy or not; int64 and float64 of any value, strings, arrays, objects) in each of three passes, with and without output in
// the body and @else: the loop runs as long as the value is truthy.
func H_C03_while() {
	vals := []any{}
	n, done := 0, false
	for j := 0; j < 3; j++ {
		v, ok := truthVal()
		vals = append(vals, v)
		if !ok {
			done = true
		}
		if !done {
			n++
		}
	}
	body, out := "x", "x"
	switch vrt.Choice(3) {
	case 1:
		body, out = "", ""
	case 2:
		body, out = "{{ i }}", ""
	}
	src, want := "<@for(i = 0; v["+"i]; i++)"+body, "<"
	for j := 0; j < n; j++ {
		if body == "{{ i }}" {
			out = itoa(j)
		}
		want += out
	}
	if vrt.Choice(2) == 1 {
		src += "@else none"
		if n == 0 {
			want += " none"
		}
	}
	renders(src+"@end>", map[string]any{"v": vals}, want+">", "while")
}

// truthVal is a value of any kind and whether it is truthy.
func truthVal() (any, bool) {
	switch vrt.Choice(7) {
	case 0:
		i := vrt.Int64()
		return i, i != 0
	case 1:
		f := vrt.Float64()
		return f, f != 0
	case 2:
		s := vrt.Str(vrt.Choice(3), "")
		return s, s != ""
	case 3:
		b := vrt.Bool()
		return b, b
	case 4:
		return nil, false
	case 5:
		return []int{}, true
	}
	return map[string]any{}, true
}

// H_C03_repeated: arrays in which elements occur again (the same variable, literal or object, or equal values of each kind): position, first and last follow the position only.
func H_C03_repeated() {
	p, q := vrt.Bool(), vrt.Bool()
	d := map[string]any{"p": p, "q": q, "o": map[string]any{"k": 1}, "r": []any{1}, "z": nil}
	var e []string
	var w []string
	switch vrt.Choice(6) {
	case 0:
		e, w = []string{"p", "q", "true"}, []string{bit(p), bit(q), "1"}
	case 1:
		e, w = []string{"o", "{k: 1}", "o"}, []string{"{k: 1}", "{k: 1}", "{k: 1}"}
	case 2:
		e, w = []string{"r", "r", "[1]"}, []string{"1", "1", "1"}
	case 3:
		e, w = []string{"nil", "z", "nil"}, []string{"", "", ""}
	case 4:
		e, w = []string{"1", "1", "2"}, []string{"1", "1", "2"}
	case 5:
		e, w = []string{"'a'", "'b'", "''"}, []string{"a", "b", ""}
	}
	n := 1 + vrt.Choice(4)
	src, want := "", ""
	for i := 0; i < n; i++ {
		j := vrt.Choice(3)
		if i > 0 {
			src += ", "
		}
		src += e[j]
		want += itoa(i) + bit(i == 0) + bit(i == n-1) + w[j] + ";"
	}
	renders("@each(v in ["+src+"]){{ loop.index }}{{ loop.first }}{{ loop.last }}{{ v }};@end", d, want, "repeated elements")
}
