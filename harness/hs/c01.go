package hs

import (
	"strings"

	"vh/vrt"
)

// val is a value of the reference evaluator: kind i, f, s, b, n (nil), a, o; bad is an error and
// undef a result the property leaves open.
type val struct {
	k byte
	i int64
	f float64
	s string
	b bool
	e []val // elements, or values of the keys in s
}

var bad = val{k: '!'}
var undef = val{k: '?'}

func (v val) native() any {
	switch v.k {
	case 'i':
		return v.i
	case 'f':
		return v.f
	case 's':
		return v.s
	case 'b':
		return v.b
	case 'a':
		a := []any{}
		for _, e := range v.e {
			a = append(a, e.native())
		}
		return a
	case 'o':
		m := map[string]any{}
		for j, e := range v.e {
			m[v.s[j:j+1]] = e.native()
		}
		return m
	}
	return nil
}

func (v val) truthy() bool {
	switch v.k {
	case 'i':
		return v.i != 0
	case 'f':
		return v.f != 0
	case 's':
		return v.s != ""
	case 'b':
		return v.b
	case 'n':
		return false
	}
	return true
}

func boolVal(b bool) val { return val{k: 'b', b: b} }

func binary(op string, l, r val) val {
	if l.k == '!' || r.k == '!' {
		return bad
	}
	if l.k == '?' || r.k == '?' {
		return undef
	}
	if l.k != r.k {
		return bad
	}
	switch l.k {
	case 'i':
		switch op {
		case "+":
			return val{k: 'i', i: l.i + r.i}
		case "-":
			return val{k: 'i', i: l.i - r.i}
		case "*":
			return val{k: 'i', i: l.i * r.i}
		case "/":
			if r.i == 0 {
				return bad
			}
			return val{k: 'i', i: l.i / r.i}
		case "%":
			if r.i == 0 {
				return bad
			}
			return val{k: 'i', i: l.i % r.i}
		case "==":
			return boolVal(l.i == r.i)
		case "!=":
			return boolVal(l.i != r.i)
		case "<":
			return boolVal(l.i < r.i)
		case ">":
			return boolVal(l.i > r.i)
		case "<=":
			return boolVal(l.i <= r.i)
		case ">=":
			return boolVal(l.i >= r.i)
		}
	case 'f':
		switch op {
		case "+":
			return val{k: 'f', f: l.f + r.f}
		case "-":
			return val{k: 'f', f: l.f - r.f}
		case "*":
			return val{k: 'f', f: l.f * r.f}
		case "/":
			return val{k: 'f', f: l.f / r.f}
		case "==":
			return boolVal(l.f == r.f)
		case "!=":
			return boolVal(l.f != r.f)
		case "<":
			return boolVal(l.f < r.f)
		case ">":
			return boolVal(l.f > r.f)
		case "<=":
			return boolVal(l.f <= r.f)
		case ">=":
			return boolVal(l.f >= r.f)
		}
		return undef // a remainder of floats is not defined
	case 's':
		switch op {
		case "+":
			return val{k: 's', s: l.s + r.s}
		case "==":
			return boolVal(l.s == r.s)
		case "!=":
			return boolVal(l.s != r.s)
		}
		return undef // an order of strings is not defined
	}
	return undef
}

var binops = []string{"+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">="}

const (
	lvTern = 1 + iota
	lvEq
	lvCmp
	lvAdd
	lvMul
	lvDot
	lvPrefix
	lvIndex
	lvPostfix
	lvPrim
)

func level(op string) int {
	switch op {
	case "==", "!=":
		return lvEq
	case "<", ">", "<=", ">=":
		return lvCmp
	case "+", "-":
		return lvAdd
	}
	return lvMul
}

// climb is the value of operands and operators grouped by level, left to right among equals.
func climb(v []val, ops []string) val {
	if len(ops) == 0 {
		return v[0]
	}
	low := 0
	for i := range ops {
		if level(ops[i]) <= level(ops[low]) {
			low = i
		}
	}
	return binary(ops[low], climb(v[:low+1], ops[:low]), climb(v[low+1:], ops[low+1:]))
}

// joinToks writes the tokens with sep between them; an empty sep is widened where two tokens would
// become one.
func joinToks(toks []string, sep string) string {
	var b strings.Builder
	for i, t := range toks {
		if i > 0 {
			s := sep
			if s == "" && mergeable(toks[i-1], t) {
				s = " "
			}
			b.WriteString(s)
		}
		b.WriteString(t)
	}
	return b.String()
}

func mergeable(a, b string) bool {
	x, y := a[len(a)-1], b[0]
	word := func(c byte) bool {
		return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_'
	}
	op := func(c byte) bool { return strings.IndexByte("+-*/%=!<>", c) >= 0 }
	if x == '{' && y == '{' || x == '}' && y == '}' {
		return true
	}
	return word(x) && word(y) || op(x) && op(y) || y == '.' && x >= '0' && x <= '9'
}

func seps() string { return pick(" ", "", "\n", " \r\n\t") }

// check renders src and compares the outcome with the reference value.
func check(src string, data map[string]any, want val, label string) {
	r := eval(src, data)
	switch want.k {
	case '?':
		vrt.Reach("undefined by the property")
		return
	case '!':
		vrt.Assert(r.bad, label+": output instead of error")
		vrt.Reach("error")
		return
	}
	vrt.Assert(!r.bad, label+": error instead of output")
	if r.bad {
		return
	}
	w := evalq("{{ zz }}", map[string]any{"zz": want.native()})
	vrt.Assert(!w.bad, label+": the expected value prints")
	vrt.AssertEq(r.out, w.out, label)
	switch want.k {
	case 's':
		vrt.AssertEq(r.out, want.s, label+": text")
	case 'i':
		vrt.AssertEq(r.out, i64(want.i), label+": decimal")
	}
	vrt.Reach("value " + string(want.k))
}

var intNames = []string{"a", "b", "c", "d", "e", "f"}

// chain is n int operands joined by n-1 symbolic operators. The operands are any int64 when at most
// one operator is nonlinear and any of 0..255 otherwise (intermediate values are 64 bits wide).
func chain(n int) (toks []string, v []val, ops []string, data map[string]any) {
	data = map[string]any{}
	hard := 0
	for i := 1; i < n; i++ {
		o := binops[vrt.Choice(len(binops))]
		ops = append(ops, o)
		if level(o) == lvMul {
			hard++
		}
	}
	for i := 0; i < n; i++ {
		var x int64
		if hard > 1 {
			x = smallVal()
		} else {
			x = vrt.Int64()
		}
		data[intNames[i]] = x
		v = append(v, val{k: 'i', i: x})
		if i > 0 {
			toks = append(toks, ops[i-1])
		}
		toks = append(toks, intNames[i])
	}
	return
}

// smallVal is any int64 in 0..255.
func smallVal() int64 { return int64(vrt.Byte()) }

// H_C01_chain: 2..5 (thorough 6) int64 operands with any values (0..255 when several operators are
// nonlinear), joined by any of the 11 binary
// operators: the printed value equals the one of the reference grouping (precedence levels, left to
// right), division and modulo by zero and bool operands of arithmetic are errors.
// vrt:weight 2
func H_C01_chain() {
	toks, v, ops, data := chain(2 + vrt.Choice(quick(4, 5)))
	check("{{ "+joinToks(toks, " ")+" }}", data, climb(v, ops), "operator chain")
}

// H_C01_parens: 3..4 operands, one parenthesised run anywhere, four kinds of whitespace.
// vrt:weight 2
func H_C01_parens() {
	n := 3 + vrt.Choice(2)
	toks, v, ops, data := chain(n)
	i := vrt.Choice(n - 1)
	j := i + 1 + vrt.Choice(n-1-i)
	var t []string
	for k, x := range toks {
		if k == 2*i {
			t = append(t, "(")
		}
		t = append(t, x)
		if k == 2*j {
			t = append(t, ")")
		}
	}
	in := climb(v[i:j+1], ops[i:j])
	var nv []val
	nv = append(nv, v[:i]...)
	nv = append(nv, in)
	nv = append(nv, v[j+1:]...)
	var nops []string
	nops = append(nops, ops[:i]...)
	nops = append(nops, ops[j:]...)
	check("{{"+pick("", " ", "\n")+joinToks(t, seps())+"}}", data, climb(nv, nops), "parenthesised chain")
}

// node of a generated expression.
type node struct {
	op   string // leaf, bin, pre, post, tern, idx, dot, call, par
	tok  string
	kids []*node
	v    val // leaf
}

type gen struct {
	data map[string]any
	n    int
	few  bool // seven kinds of leaf
	wide bool // any int64 and float64 instead of 0..255 and three floats
}

func (g *gen) int() val {
	if g.wide {
		return val{k: 'i', i: vrt.Int64()}
	}
	return val{k: 'i', i: smallVal()}
}

func (g *gen) float() val {
	if g.wide {
		return val{k: 'f', f: vrt.Float64()}
	}
	return val{k: 'f', f: []float64{0, -0.375, 3}[vrt.Choice(3)]}
}

func (g *gen) leafVar(v val) *node {
	name := "v" + string(rune('a'+g.n))
	g.n++
	g.data[name] = v.native()
	return &node{op: "leaf", tok: name, v: v}
}

// leaf is a variable or literal; all kinds when the tree is small.
func (g *gen) leaf() *node {
	k := 12
	if g.few {
		k = 7
	}
	switch vrt.Choice(k) {
	case 0:
		return g.leafVar(g.int())
	case 1:
		return g.leafVar(g.float())
	case 2:
		return g.leafVar(val{k: 's', s: vrt.Str(1, "")})
	case 3:
		return g.leafVar(boolVal(vrt.Bool()))
	case 4:
		return g.leafVar(val{k: 'a', e: []val{g.int(), g.int()}})
	case 5:
		return g.leafVar(val{k: 'o', s: "kl", e: []val{g.int(), {k: 'a', e: []val{{k: 'i', i: 5}, {k: 'i', i: 6}}}}})
	case 6:
		d := vrt.ByteIn("0123456789")
		return &node{op: "leaf", tok: string([]byte{d}), v: val{k: 'i', i: int64(d - '0')}}
	case 7:
		return &node{op: "leaf", tok: "2.5", v: val{k: 'f', f: 2.5}}
	case 8:
		c := vrt.ByteIn("az09 ._-+:?()[]")
		return &node{op: "leaf", tok: "'" + string([]byte{c}) + "'", v: val{k: 's', s: string([]byte{c})}}
	case 9:
		return &node{op: "leaf", tok: "true", v: boolVal(true)}
	case 10:
		return &node{op: "leaf", tok: "nil", v: val{k: 'n'}}
	}
	return &node{op: "leaf", tok: "nope", v: bad}
}

// tree is an expression with at most size inner nodes.
func (g *gen) tree(size int) *node {
	if size == 0 {
		return g.leaf()
	}
	switch vrt.Choice(9) {
	case 0:
		return g.leaf()
	case 1, 2:
		n := &node{op: "bin", tok: binops[vrt.Choice(len(binops))]}
		s := vrt.Choice(size)
		n.kids = []*node{g.tree(s), g.tree(size - 1 - s)}
		return n
	case 3:
		return &node{op: "pre", tok: pick("-", "!"), kids: []*node{g.tree(size - 1)}}
	case 4:
		return &node{op: "post", tok: pick("++", "--"), kids: []*node{g.tree(size - 1)}}
	case 5:
		s := vrt.Choice(size)
		return &node{op: "tern", kids: []*node{g.tree(0), g.tree(s), g.tree(size - 1 - s)}}
	case 6:
		s := vrt.Choice(size)
		return &node{op: "idx", kids: []*node{g.tree(s), g.tree(size - 1 - s)}}
	case 7:
		return &node{op: "dot", tok: pick("k", "l"), kids: []*node{g.tree(size - 1)}}
	}
	return &node{op: "call", tok: pick("abs", "float"), kids: []*node{g.tree(size - 1)}}
}

func (n *node) level() int {
	switch n.op {
	case "bin":
		return level(n.tok)
	case "pre":
		return lvPrefix
	case "post":
		return lvPostfix
	case "tern":
		return lvTern
	case "idx":
		return lvIndex
	case "dot", "call":
		return lvDot
	}
	return lvPrim
}

// dotted reports whether the run of suffixes at the end of n holds a member access.
func (n *node) dotted() bool {
	switch n.op {
	case "dot", "call":
		return true
	case "idx", "post":
		return n.kids[0].dotted()
	}
	return false
}

func paren(t []string) []string {
	r := []string{"("}
	r = append(r, t...)
	return append(r, ")")
}

// toks writes n with the parentheses that the precedence table requires.
func (n *node) toks() []string {
	sub := func(i int, need bool) []string {
		t := n.kids[i].toks()
		if need {
			return paren(t)
		}
		return t
	}
	switch n.op {
	case "par":
		return sub(0, true)
	case "bin":
		t := sub(0, n.kids[0].level() < n.level())
		t = append(t, n.tok)
		return append(t, sub(1, n.kids[1].level() <= n.level())...)
	case "pre":
		k := n.kids[0]
		return append([]string{n.tok}, sub(0, k.level() < lvPrefix || k.dotted())...)
	case "post":
		k := n.kids[0]
		return append(sub(0, k.level() < lvDot || k.op == "pre"), n.tok)
	case "tern":
		t := sub(0, n.kids[0].level() <= lvTern)
		t = append(t, "?")
		t = append(t, sub(1, n.kids[1].level() <= lvTern)...)
		t = append(t, ":")
		return append(t, sub(2, false)...)
	case "idx":
		k := n.kids[0]
		t := append(sub(0, k.level() < lvDot || k.op == "pre"), "[")
		t = append(t, sub(1, false)...)
		return append(t, "]")
	case "dot":
		return append(sub(0, n.kids[0].level() < lvDot), ".", n.tok)
	case "call":
		return append(sub(0, n.kids[0].level() < lvDot), ".", n.tok, "(", ")")
	}
	return []string{n.tok}
}

// fully parenthesised form.
func (n *node) full() []string {
	if n.op == "leaf" {
		return []string{n.tok}
	}
	var k [][]string
	for _, c := range n.kids {
		k = append(k, paren(c.full()))
	}
	t := k[0]
	switch n.op {
	case "par":
		return paren(n.kids[0].full())
	case "bin":
		return append(append(t, n.tok), k[1]...)
	case "pre":
		return append([]string{n.tok}, t...)
	case "post":
		return append(t, n.tok)
	case "tern":
		t = append(append(t, "?"), k[1]...)
		return append(append(t, ":"), k[2]...)
	case "idx":
		return append(append(append(t, "["), k[1]...), "]")
	case "dot":
		return append(t, ".", n.tok)
	}
	return append(t, ".", n.tok, "(", ")")
}

func (n *node) eval() val {
	switch n.op {
	case "leaf":
		return n.v
	case "par":
		return n.kids[0].eval()
	case "bin":
		return binary(n.tok, n.kids[0].eval(), n.kids[1].eval())
	case "tern":
		c := n.kids[0].eval()
		if c.k == '!' || c.k == '?' {
			return c
		}
		if c.truthy() {
			return n.kids[1].eval()
		}
		return n.kids[2].eval()
	}
	k := n.kids[0].eval()
	if k.k == '!' {
		return bad
	}
	switch n.op {
	case "idx":
		x := n.kids[1].eval()
		if x.k == '!' {
			return bad
		}
		if k.k == '?' || x.k == '?' {
			return undef
		}
		switch {
		case k.k == 'a' && x.k == 'i':
			for j := range k.e {
				if x.i == int64(j) {
					return k.e[j]
				}
			}
			return undef // out of range: nil today
		case k.k == 'o' && x.k == 's':
			return undef // C12
		}
		return bad
	}
	if k.k == '?' {
		return undef
	}
	switch n.op {
	case "pre":
		switch {
		case n.tok == "-" && k.k == 'i':
			return val{k: 'i', i: -k.i}
		case n.tok == "-" && k.k == 'f':
			return val{k: 'f', f: -k.f}
		case n.tok == "!" && k.k == 'b':
			return boolVal(!k.b)
		case n.tok == "!" && k.k == 'n':
			return boolVal(true)
		case n.tok == "-" && (k.k == 's' || k.k == 'b' || k.k == 'a' || k.k == 'o' || k.k == 'n'):
			return bad
		}
		return undef
	case "post":
		switch {
		case n.tok == "++" && k.k == 'i':
			return val{k: 'i', i: k.i + 1}
		case n.tok == "--" && k.k == 'i':
			return val{k: 'i', i: k.i - 1}
		case n.tok == "++" && k.k == 'f':
			return val{k: 'f', f: k.f + 1}
		case k.k == 'f':
			return undef // decimal subtraction, C11
		}
		return bad
	case "dot":
		if k.k == 'o' {
			if n.tok == "k" {
				return k.e[0]
			}
			return k.e[1]
		}
		return bad
	case "call":
		switch {
		case n.tok == "abs" && k.k == 'i':
			if k.i == -1<<63 {
				return undef
			}
			if k.i < 0 {
				return val{k: 'i', i: -k.i}
			}
			return k
		case n.tok == "abs" && k.k == 'f':
			if k.f != k.f {
				return undef
			}
			if k.f < 0 {
				return val{k: 'f', f: -k.f}
			}
			if k.f == 0 {
				return val{k: 'f', f: 0}
			}
			return k
		case n.tok == "float" && k.k == 'i':
			return val{k: 'f', f: float64(k.i)}
		}
		return bad
	}
	return undef
}

// H_C01_tree: expression trees of 1..3 (thorough 4) inner nodes over literals and variables of every
// kind with symbolic values (int64, float64, string bytes, bool, array, object, nil, unknown name), unary, postfix,
// binary, ternary, index, property and call nodes: written with only the parentheses the precedence table
// requires, the value is the one of the reference tree, or an error.
// vrt:weight 4
func H_C01_tree() {
	g := &gen{data: map[string]any{}}
	size := 1 + vrt.Choice(quick(3, 4))
	g.few = size > 1
	n := g.tree(size)
	check("{{ "+joinToks(n.toks(), pick(" ", ""))+" }}", g.data, n.eval(), "expression tree")
}

// H_C01_deep: chains of three prefix, suffix and binary operators around one int, array or object
// operand, minimal against full parentheses.
// vrt:weight 2
func H_C01_deep() {
	g := &gen{data: map[string]any{}}
	var n *node
	switch vrt.Choice(3) {
	case 0:
		n = g.leafVar(g.int())
	case 1:
		n = g.leafVar(val{k: 'a', e: []val{g.int(), {k: 'a', e: []val{{k: 'i', i: 7}}}}})
	case 2:
		n = g.leafVar(val{k: 'o', s: "kl", e: []val{g.int(), {k: 'a', e: []val{{k: 'i', i: 5}, {k: 'o', s: "kl", e: []val{g.int(), {k: 'n'}}}}}}})
	}
	for d := 1 + vrt.Choice(quick(3, 5)); d > 0; d-- {
		switch vrt.Choice(7) {
		case 0:
			n = &node{op: "pre", tok: "-", kids: []*node{n}}
		case 1:
			n = &node{op: "post", tok: pick("++", "--"), kids: []*node{n}}
		case 2:
			n = &node{op: "idx", kids: []*node{n, g.smallInt()}}
		case 3:
			n = &node{op: "dot", tok: pick("k", "l"), kids: []*node{n}}
		case 4:
			n = &node{op: "call", tok: "abs", kids: []*node{n}}
		case 5:
			n = &node{op: "bin", tok: pick("-", "*", "<", "=="), kids: []*node{n, g.leafVar(g.int())}}
		case 6:
			n = &node{op: "bin", tok: pick("-", "*", "<", "=="), kids: []*node{g.leafVar(g.int()), n}}
		}
	}
	sep := pick(" ", "")
	check("{{ "+joinToks(n.toks(), sep)+" }}", g.data, n.eval(), "suffix chain")
	a, b := evalq("{{ "+joinToks(n.toks(), " ")+" }}", g.data), evalq("{{"+joinToks(n.full(), sep)+"}}", g.data)
	vrt.Assert(a.bad == b.bad, "redundant parentheses change the outcome")
	vrt.AssertEq(a.out, b.out, "redundant parentheses change the value")
}

func (g *gen) smallInt() *node {
	c := vrt.Choice(2)
	return &node{op: "leaf", tok: itoa(c), v: val{k: 'i', i: int64(c)}}
}

// H_C01_ternary: up to three ternaries nested in the else part, the condition or (parenthesised) the
// consequence, with binary operators around them, all operands symbolic.
func H_C01_ternary() {
	g := &gen{data: map[string]any{}}
	in := func() *node { return g.leafVar(g.int()) }
	operand := func() *node {
		if vrt.Choice(2) == 0 {
			return in()
		}
		return &node{op: "bin", tok: binops[vrt.Choice(len(binops))], kids: []*node{in(), in()}}
	}
	n := &node{op: "tern", kids: []*node{operand(), operand(), operand()}}
	for d := vrt.Choice(quick(2, 3)); d > 0; d-- {
		o := &node{op: "tern", kids: []*node{in(), in(), in()}}
		o.kids[vrt.Choice(3)] = n
		n = o
	}
	check("{{ "+joinToks(n.toks(), seps())+" }}", g.data, n.eval(), "ternary")
}

// form is an operand that ends in (or begins with) one of the closed forms: variable, literal, index of an array or object,
// property, call with and without argument, parentheses, prefix and postfix operator, array literal with an index.
func (g *gen) form() *node {
	x := val{k: 'i', i: tiny()}
	one := &node{op: "leaf", tok: "1", v: val{k: 'i', i: 1}}
	switch vrt.Choice(9) {
	case 0:
		return g.leafVar(x)
	case 1:
		return &node{op: "idx", kids: []*node{g.leafVar(val{k: 'a', e: []val{{k: 'i', i: 9}, x}}), one}}
	case 2:
		return &node{op: "dot", tok: "k", kids: []*node{g.leafVar(val{k: 'o', s: "k", e: []val{x}})}}
	case 3:
		return &node{op: "call", tok: "abs", kids: []*node{g.leafVar(x)}}
	case 4:
		return &node{op: "par", kids: []*node{g.leafVar(x)}}
	case 5:
		return &node{op: "pre", tok: "-", kids: []*node{g.leafVar(x)}}
	case 6:
		return &node{op: "post", tok: "++", kids: []*node{g.leafVar(x)}}
	case 7:
		return &node{op: "idx", kids: []*node{&node{op: "dot", tok: "k", kids: []*node{g.leafVar(val{k: 'o', s: "k", e: []val{{k: 'a', e: []val{x}}}})}}, &node{op: "leaf", tok: "0", v: val{k: 'i'}}}}
	}
	return &node{op: "leaf", tok: "7", v: val{k: 'i', i: 7}}
}

// H_C01_forms: one operator or a ternary, or both, between operands of nine forms (variable, literal, index, property, call, parentheses,
// prefix, postfix, index of a property) with values in -9..9: what an operand ends with does not change the grouping.
// vrt:weight 2
func H_C01_forms() {
	g := &gen{data: map[string]any{}}
	bin := func() *node {
		return &node{op: "bin", tok: binops[vrt.Choice(len(binops))], kids: []*node{g.form(), g.form()}}
	}
	in := func() *node { return g.leafVar(val{k: 'i', i: tiny()}) }
	var n *node
	switch vrt.Choice(6) {
	case 0:
		n = &node{op: "tern", kids: []*node{bin(), in(), in()}}
	case 1:
		n = &node{op: "tern", kids: []*node{in(), in(), bin()}}
	case 2:
		n = &node{op: "tern", kids: []*node{in(), bin(), in()}}
	case 3:
		n = &node{op: "bin", tok: pick("-", "*", "==", "<"), kids: []*node{bin(), in()}}
	case 4:
		n = &node{op: "bin", tok: pick("-", "*", "==", "<"), kids: []*node{in(), bin()}}
	case 5:
		n = &node{op: "tern", kids: []*node{g.form(), g.form(), g.form()}}
	}
	check("{{ "+joinToks(n.toks(), pick(" ", ""))+" }}", g.data, n.eval(), "operand forms")
}

// H_C01_types: every binary operator on every pair of operand kinds with symbolic values: same-typed
// operands compute, mixed ones are an error; both as variables and in either order with literals.
// vrt:weight 1
func H_C01_types() {
	g := &gen{data: map[string]any{}, wide: true}
	l, r := g.leaf(), g.leaf()
	n := &node{op: "bin", tok: binops[vrt.Choice(len(binops))], kids: []*node{l, r}}
	w := n.eval()
	if w.k == 'f' {
		// the value itself, not its digits
		g.data["zr"] = w.f
		want := "same"
		if w.f != w.f {
			want = "nan"
		}
		renders("{{"+joinToks(append(paren(n.toks()), "==", "zr", "?", "'same'", ":", "'nan'"), seps())+"}}", g.data, want, "float operator")
		return
	}
	check("{{"+joinToks(n.toks(), seps())+"}}", g.data, w, "typed operator")
}

// H_C01_unary: one or two unary operators on a full-range int64, float64 of any bits, bool or string variable, and its sum with one: integers wrap at both ends.
func H_C01_unary() {
	g := &gen{data: map[string]any{}, wide: true}
	n := g.leaf()
	for i := 1 + vrt.Choice(2); i > 0; i-- {
		if op := pick("-", "!", "++", "--"); op == "-" || op == "!" {
			n = &node{op: "pre", tok: op, kids: []*node{n}}
		} else {
			n = &node{op: "post", tok: op, kids: []*node{n}}
		}
	}
	w := n.eval()
	if w.k == 'f' {
		g.data["zr"] = w.f
		want := "same"
		if w.f != w.f {
			want = "nan"
		}
		renders("{{"+joinToks(append(paren(n.toks()), "==", "zr", "?", "'same'", ":", "'nan'"), seps())+"}}", g.data, want, "unary operator")
		return
	}
	check("{{"+joinToks(n.toks(), seps())+"}}", g.data, w, "unary operator")
}

// H_C01_assign: the right-hand side of an assignment is a complete expression: chains, ternaries,
// suffix operators.
func H_C01_assign() {
	g := &gen{data: map[string]any{}}
	var n *node
	if vrt.Choice(2) == 0 {
		n = g.tree(1)
	} else {
		in := func() *node { return g.leafVar(g.int()) }
		n = &node{op: "bin", tok: binops[vrt.Choice(len(binops))], kids: []*node{in(), in()}}
		n = &node{op: "bin", tok: binops[vrt.Choice(len(binops))], kids: []*node{n, in()}}
		if vrt.Choice(2) == 0 {
			n = &node{op: "tern", kids: []*node{n, in(), in()}}
		}
	}
	w := n.eval()
	x := pick("{{ q = ", "{{q=")
	check(x+joinToks(n.toks(), pick(" ", ""))+pick("; q }}", " }}{{ q }}"), g.data, w, "assigned expression")
}

// H_C01_ints: integer literals of 1..3 digits and of 19..20 digits with up to 2 arbitrary digits
// around 2^63: in range they print their digits, out of range they are an error; negated too.
func H_C01_ints() {
	var lit string
	want := true
	switch vrt.Choice(5) {
	case 0:
		lit = string([]byte{vrt.ByteIn("123456789")}) + vrt.Str(vrt.Choice(3), digits)
	case 1:
		d := vrt.Str(2, digits)
		lit = "92233720368547758" + d
		want = d <= "07"
	case 2:
		lit = "92" + itoa(vrt.Choice(10)) + "337203685477580" + vrt.Str(1, digits)
		want = lit <= "9223372036854775807"
	case 3:
		lit = "1" + pick("00", "84", "99") + vrt.Str(1, digits) + "0000000000000000"
		want = false
	case 4:
		lit = "1" + pick("00", "84", "99") + vrt.Str(1, digits) + "000000000000000"
	}
	neg := pick("", "-")
	if want {
		renders("{{ "+neg+lit+" }}", nil, neg+lit, "integer literal")
	} else {
		fails("{{ "+neg+lit+" }}", nil, "integer literal out of range")
	}
}

// H_C01_zeros: integer literals of 0..2 arbitrary digits behind one, two or 21 zeros are decimal.
func H_C01_zeros() {
	z, d := pick("0", "00", "000000000000000000000"), vrt.Str(vrt.Choice(3), digits)
	w := strings.TrimLeft(z+d, "0")
	if w == "" {
		w = "0"
	}
	renders("{{ "+z+d+" }}{{ "+z+d+" == "+w+" }}", nil, w+"1", "integer literal with leading zeros")
}

// H_C01_floats: the float literals 0.0..9.9 (thorough 99.9) used as operands equal the same
// float64 passed as data; strings of two symbolic characters concatenate in order.
func H_C01_floats() {
	if vrt.Choice(2) == 0 {
		i := vrt.Choice(quick(100, 1000))
		lit := itoa(i/10) + "." + itoa(i%10)
		renders("{{ "+lit+" }}", nil, lit, "float literal")
		f := float64(i) / 10
		for _, x := range []float64{3, -0.125, 1e300} {
			check("{{ "+lit+" * x - "+lit+" }}", map[string]any{"x": x}, val{k: 'f', f: f*x - f}, "float literal as operand")
		}
		return
	}
	x, y := vrt.Str(2, letters), vrt.Str(2, "")
	check("{{ '"+x+"' + y + \""+x+"\" }}", map[string]any{"y": y}, val{k: 's', s: x + y + x}, "concatenation")
}
