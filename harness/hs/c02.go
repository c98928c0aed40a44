package hs

import "vh/vrt"

// cond is a condition of a symbolic kind and value.
type cond struct {
	src  string
	v    val
	data map[string]any
}

// condition writes the condition named name; fault allows conditions that fail when evaluated.
func condition(name string, data map[string]any, fault bool) (src string, v val) {
	n := 9
	if fault {
		n = 11
	}
	switch vrt.Choice(n) {
	case 0:
		v = boolVal(vrt.Bool())
	case 1:
		v = val{k: 'i', i: vrt.Int64()}
	case 2:
		v = val{k: 'f', f: vrt.Float64()}
	case 3:
		v = val{k: 's', s: vrt.Str(vrt.Choice(2), "")}
	case 4:
		v = val{k: 'n'}
	case 5:
		v = val{k: 'a'}
		if vrt.Choice(2) == 1 {
			v.e = []val{{k: 'i', i: 0}}
		}
	case 6:
		v = val{k: 'o'}
		if vrt.Choice(2) == 1 {
			v = val{k: 'o', s: "k", e: []val{{k: 'b'}}}
		}
	case 7:
		a, b := vrt.Int64(), vrt.Int64()
		data[name], data[name+"x"] = a, b
		return name + " < " + name + "x", boolVal(a < b)
	case 8:
		switch vrt.Choice(8) {
		case 0:
			return "false", boolVal(false)
		case 1:
			return "nil", val{k: 'n'}
		case 2:
			return "0", val{k: 'i'}
		case 3:
			return "0.0", val{k: 'f'}
		case 4:
			return "''", val{k: 's'}
		case 5:
			return "[]", val{k: 'a'}
		case 6:
			return "{}", val{k: 'o'}
		}
		return "'0'", val{k: 's', s: "0"}
	case 9:
		return "nope", bad
	case 10:
		return "1 / 0", bad
	}
	data[name] = v.native()
	return name, v
}

// ifShape is an @if construct with its expected text; fail reports that its evaluation fails.
func ifShape(name string, data map[string]any, fault bool, body func(i int) (string, string, bool)) (src, want string, fail bool) {
	n := 1 + vrt.Choice(3)
	chosen := false
	for i := 0; i < n; i++ {
		c, v := condition(name+string(rune('a'+i)), data, fault)
		if i == 0 {
			src += "@if(" + c + ")"
		} else {
			src += "@elseif(" + c + ")"
		}
		b, w, f := body(i)
		src += b
		if chosen || fail {
			continue
		}
		if v.k == '!' {
			fail = true
			continue
		}
		if v.truthy() {
			chosen, want, fail = true, w, f
		}
	}
	if vrt.Choice(2) == 1 {
		b, w, f := body(n)
		src += "@else" + b
		if !chosen && !fail {
			want, fail = w, f
		}
	}
	return src + "@end", want, fail
}

func outcome(src string, data map[string]any, want string, fail bool, label string) {
	if fail {
		fails(src, data, label)
		vrt.Reach("error")
		return
	}
	renders(src, data, want, label)
}

// text is one of a few pieces of text around constructs, with a symbolic byte.
func text() string {
	switch vrt.Choice(4) {
	case 0:
		return ""
	case 1:
		return vrt.Str(1, bytesWithout("{@\\"))
	case 2:
		return "\n  x\n"
	}
	return "é<b>}}{ "
}

// H_C02_branches: 1..3 conditions of any kind (bool, int64, float64, string, nil, array, object,
// comparison, all with symbolic values, literals, and conditions that fail when evaluated), with and
// without @else, empty and non-empty bodies, text with a symbolic byte before and after.
// vrt:weight 3
func H_C02_branches() {
	data := map[string]any{}
	bodies := []string{"A", "B", "C", "D"}
	empty := vrt.Choice(5)
	pre, post := text(), text()
	src, want, fail := ifShape("c", data, true, func(i int) (string, string, bool) {
		if i == empty {
			return "", "", false
		}
		return bodies[i], bodies[i], false
	})
	outcome(pre+src+post, data, pre+want+post, fail, "if")
}

// H_C02_nested: the bodies of up to two branches and @else hold another construct each, with text
// between; one more level in thorough.
// vrt:weight 2
func H_C02_nested() {
	data := map[string]any{}
	k := 0
	var build func(depth int) (string, string, bool)
	build = func(depth int) (string, string, bool) {
		k++
		name := "n" + string(rune('a'+k))
		at := vrt.Choice(3)
		n := 1 + vrt.Choice(2)
		var src, want string
		fail, chosen := false, false
		for i := 0; i <= n; i++ {
			t := name[1:] + itoa(i)
			b, w, f := t, t, false
			if i == at && depth > 0 {
				s, sw, sf := build(depth - 1)
				b, w, f = "<"+s+"\n", "<"+sw+"\n", sf
			}
			if i == n {
				if vrt.Choice(2) == 1 {
					src += "@else" + b
					if !chosen && !fail {
						want, fail = w, f
					}
				}
				break
			}
			v := vrt.Int64()
			c := name + itoa(i)
			data[c] = v
			if i == 0 {
				src += "@if(" + c + ")"
			} else {
				src += "@elseif(" + c + ")"
			}
			src += b
			if !chosen && v != 0 {
				chosen, want, fail = true, w, f
			}
		}
		return src + "@end", want, fail
	}
	src, want, fail := build(quick(2, 3))
	outcome("("+src+")", data, "("+want+")", fail, "nested if")
}

// H_C02_between: two constructs in a row and inside of a loop, with text between them.
func H_C02_between() {
	data := map[string]any{}
	body := func(i int) (string, string, bool) { t := "b" + itoa(i); return t, t, false }
	var src, want string
	fail := false
	for n := 0; n < 2; n++ {
		v := vrt.Int64()
		c := "c" + itoa(n)
		data[c] = v
		t := vrt.Str(1, bytesWithout("{@\\"))
		b, _, _ := body(n)
		src += t + "@if(" + c + ")" + b
		want += t
		switch vrt.Choice(3) {
		case 0:
			if v != 0 {
				want += b
			}
		case 1:
			src += "@else!"
			if v != 0 {
				want += b
			} else {
				want += "!"
			}
		case 2:
			src += "@elseif(true)?@elseif(nope)@else!"
			if v != 0 {
				want += b
			} else {
				want += "?"
			}
		}
		src += "@end"
	}
	if vrt.Choice(2) == 1 {
		src, want = "@each(q in [1, 2])"+src+"@end.", want+want+"."
	}
	outcome(src, data, want, fail, "text between")
}

// H_C02_truth: the truth of every kind of value agrees with the language's list in @if, the ternary,
// @breakIf and @continueIf, and in @if around a loop control.
// vrt:weight 2
func H_C02_truth() {
	data := map[string]any{}
	c, v := condition("c", data, true)
	t := v.k != '!' && v.truthy()
	want := func(a, b string) string {
		if t {
			return a
		}
		return b
	}
	var src, w string
	switch vrt.Choice(6) {
	case 0:
		src, w = "@if("+c+")T@else F@end", want("T", " F")
	case 1:
		src, w = "{{ ("+c+") ? 'T' : 'F' }}", want("T", "F")
	case 2:
		src, w = "@each(x in [1, 2]){{ x }}@breakIf("+c+")-@end", want("1", "1-2-")
	case 3:
		src, w = "@each(x in [1, 2]){{ x }}@continueIf("+c+")-@end", want("12", "1-2-")
	case 4:
		src, w = "@for(i = 0; i < 2; i++){{ i }}@breakIf("+c+")-@end", want("0", "0-1-")
	case 5:
		src, w = "@for(i = 0; i < 2; i++){{ i }}@continueIf("+c+")-@end", want("01", "0-1-")
	}
	outcome(src, data, w, v.k == '!', "truth")
}

// H_C02_unused: whatever follows the chosen branch is not evaluated: faults in later conditions,
// in the bodies of branches not taken and in the unused part of a ternary do not surface.
func H_C02_unused() {
	data := map[string]any{}
	c, v := condition("c", data, false)
	f := pick("nope", "1 / 0", "'a' + 1", "[1].nope()", "nil.x", "{a: 1}.b", "-'a'")
	if v.truthy() {
		switch vrt.Choice(3) {
		case 0:
			renders("@if("+c+")T@elseif("+f+")F@end", data, "T", "later condition")
		case 1:
			renders("@if("+c+")T@elseif(false){{ "+f+" }}@else{{ "+f+" }}@end", data, "T", "body of a later branch")
		case 2:
			renders("{{ ("+c+") ? 'T' : "+f+" }}", data, "T", "else part")
		}
		return
	}
	switch vrt.Choice(3) {
	case 0:
		renders("@if("+c+"){{ "+f+" }}@else T@end", data, " T", "body not taken")
	case 1:
		renders("@if("+c+"){{ "+f+" }}@elseif(1)T@elseif("+f+")F@end", data, "T", "conditions around the chosen one")
	case 2:
		renders("{{ ("+c+") ? "+f+" : 'T' }}", data, "T", "then part")
	}
}
