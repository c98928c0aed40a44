package hs

import (
	"math"
	"reflect"
	"strings"
	"unsafe"

	"vh/vrt"
)

type (
	myInt  int16
	myStr  string
	myBool bool
	myF    float32
	myMap  map[myStr]myInt
	myList []myStr
)

type person struct {
	Name   string
	Age    uint8
	secret string
	Tags   []string
}

type house struct {
	Owner  *person
	Rooms  []person
	ByName map[string]person
	Any    any
	ok     chan int
	Next   *house
	ID     int64
	person // embedded, not exported
}

type Base struct {
	Code int32
}

type wide struct {
	Base
	A  int
	B  int8
	C  int16
	D  int32
	E  uint
	F  uint16
	G  uint32
	H  uint64
	I  float32
	J  bool
	K  myInt
	L  myStr
	M  []any
	N  *int
	O  **string
	P  any
	Éa string
	Q  myBool
	R  myF
	S  myMap
	T  myList
	U  [][]int8
	V  []*person
	W  map[string]*person
	X  []byte
	xX string
}

// leafVal is a Go value of a basic type with a symbolic value, and what it is in the template.
func leafVal() (any, val) {
	switch vrt.Choice(22) {
	case 0:
		b := vrt.Bool()
		return b, boolVal(b)
	case 1:
		s := vrt.Str(vrt.Choice(3), "")
		return s, str(s)
	case 2:
		v := int(vrt.Int64())
		return v, num(int64(v))
	case 3:
		v := int8(vrt.Int64())
		return v, num(int64(v))
	case 4:
		v := int16(vrt.Int64())
		return v, num(int64(v))
	case 5:
		v := int32(vrt.Int64())
		return v, num(int64(v))
	case 6:
		v := vrt.Int64()
		return v, num(v)
	case 7:
		v := uint(vrt.Uint64())
		vrt.Assume(v < 1<<63)
		return v, num(int64(v))
	case 8:
		v := uint8(vrt.Byte())
		return v, num(int64(v))
	case 9:
		v := uint16(vrt.Uint64())
		return v, num(int64(v))
	case 10:
		v := uint32(vrt.Uint64())
		return v, num(int64(v))
	case 11:
		v := vrt.Uint64()
		vrt.Assume(v < 1<<63)
		return v, num(int64(v))
	case 12:
		v := []float64{0, 0.5, -2.25, 3, 1e15, 0.1}[vrt.Choice(6)]
		return v, flt(v)
	case 13:
		v := []float32{0, 0.5, -2.25, 3, 0.1}[vrt.Choice(5)]
		return v, flt(float64(v))
	case 14:
		v := myInt(vrt.Int64())
		return v, num(int64(v))
	case 15:
		s := vrt.Str(vrt.Choice(2), "")
		return myStr(s), str(s)
	case 16:
		b := vrt.Bool()
		return myBool(b), boolVal(b)
	case 17:
		return nil, none
	case 18:
		return (*int)(nil), none
	case 19:
		return (*person)(nil), none
	case 20:
		v := vrt.Float64()
		return v, flt(v)
	}
	return (**string)(nil), none
}

// place is a way to reach a value inside a data value.
type place struct {
	path string
	v    val
}

// wrapped puts the leaf inside the data at a symbolic position and returns the expression that reaches it, starting with name.
func wrapped(x any, name string, depth int) (any, string) {
	if depth == 0 {
		return x, name
	}
	switch vrt.Choice(9) {
	case 0:
		v, p := wrapped(x, name+"[1]", depth-1)
		return []any{0, v, "z"}, p
	case 1:
		v, p := wrapped(x, name+".k", depth-1)
		return map[string]any{"k": v, "m": 1}, p
	case 2:
		v, p := wrapped(x, name+pick(".Any", ".any", "['Any']", "[\"any\"]"), depth-1)
		return house{Any: v}, p
	case 3:
		v, p := wrapped(x, name+pick(".P", ".p"), depth-1)
		return &wide{P: v}, p
	case 4:
		v, p := wrapped(x, name, depth-1)
		return &v, p
	case 5:
		v, p := wrapped(x, name+".a b"[:0]+"['a b']", depth-1)
		return map[myStr]any{"a b": v}, p
	case 6:
		v, p := wrapped(x, name+".Next.any", depth-1)
		return &house{Next: &house{Any: v}}, p
	case 7:
		v, p := wrapped(x, name+".q[0]", depth-1)
		return map[string][]any{"q": {v}}, p
	}
	v, p := wrapped(x, name+".m[1]", depth-1)
	return []wide{{M: []any{1, v}}}, strings.Replace(p, name+".m", name+"[0].m", 1)
}

// shownAs asserts that the expression prints v the way the equal literal does and that it is of the kind of v.
func shownAs(expr string, data map[string]any, v val, label string) {
	r := eval("{{ "+expr+" }}", data)
	vrt.Assert(!r.bad, label+": error instead of output")
	if r.bad {
		return
	}
	switch v.k {
	case 'i':
		vrt.AssertEq(r.out, i64(v.i), label+": integer")
		k := evalq("{{ "+expr+" * 1 }}", data)
		vrt.AssertEq(k.out, i64(v.i), label+": is an integer")
	case 's':
		vrt.AssertEq(r.out, v.s, label+": string")
		k := evalq("{{ "+expr+" + 'q' }}", data)
		vrt.AssertEq(k.out, v.s+"q", label+": is a string")
	case 'b':
		w := evalq("{{ false }}", nil)
		t := "F"
		if v.b {
			w, t = evalq("{{ true }}", nil), "T"
		}
		vrt.AssertEq(r.out, w.out, label+": boolean")
		k := evalq("{{ "+expr+".then('T', 'F') }}", data)
		vrt.AssertEq(k.out, t, label+": is a boolean")
	case 'n':
		w := evalq("{{ nil }}", nil)
		vrt.AssertEq(r.out, w.out, label+": nil")
		k := evalq("{{ [nil].contains("+expr+") }}", data)
		vrt.AssertEq(k.out, "1", label+": is nil")
	case 'f':
		for f, s := range map[float64]string{0: "0.0", 0.5: "0.5", -2.25: "-2.25", 3: "3.0", 1e15: "1000000000000000.0", 0.1: "0.1"} {
			if math.Float64bits(v.f) == math.Float64bits(f) {
				w := evalq("{{ "+s+" }}", nil)
				vrt.AssertEq(r.out, w.out, label+": float")
			}
		}
		if v.f == v.f {
			// the same number, whatever way it is computed
			k := evalq("{{ "+expr+" == zz }}", with(data, "zz", v.f))
			vrt.AssertEq(k.out, "1", label+": is the float")
		}
	}
	vrt.Reach("kind " + string(v.k))
}

func with(data map[string]any, k string, v any) map[string]any {
	d := map[string]any{k: v}
	for a, b := range data {
		d[a] = b
	}
	return d
}

// H_C12_leaf: a value of each of 22 basic types (all integer widths, named types, nil, nil pointers; symbolic values) inside 0..2 (thorough 3) of nine
// wrappers (slice, maps with string and named keys, struct fields by both spellings and syntaxes, pointers, interfaces): reached by its path, printed like the equal literal, of the same kind.
// vrt:weight 4
func H_C12_leaf() {
	x, v := leafVal()
	d, path := wrapped(x, "x", vrt.Choice(quick(3, 4)))
	shownAs(path, map[string]any{"x": d, "other": 1}, v, "leaf")
}

// H_C12_struct: every field of two struct types covering all widths, named types, pointers, slices, maps, embedding, with symbolic values, by its name, with the first letter
// lower-cased, through dot and index; fields that are not exported are out of reach.
// vrt:weight 3
func H_C12_struct() {
	n := int(vrt.Int64())
	s := vrt.Str(2, "")
	ps := &s
	pe := &person{Name: s, Age: vrt.Byte(), secret: "HIDDEN", Tags: []string{"t", s}}
	w := wide{Base: Base{int32(n)}, A: n, B: int8(n), C: int16(n), D: int32(n), E: uint(n) >> 1, F: uint16(n), G: uint32(n), H: uint64(n) >> 1, I: 0.5, J: n > 5, K: myInt(n), L: myStr(s),
		M: []any{n, s, nil, pe}, N: &n, O: &ps, P: *pe, Éa: s, Q: n > 5, R: 2, S: myMap{"k": myInt(n)}, T: myList{"a", myStr(s)}, U: [][]int8{{1}, {int8(n), 2}}, V: []*person{nil, pe},
		W: map[string]*person{"p": pe, "z": nil}, X: []byte{1, byte(n)}, xX: "HIDDEN"}
	var root any = w
	if vrt.Choice(2) == 1 {
		root = &w
	}
	data := map[string]any{"x": root}
	p := place{}
	ps2 := []place{{"Base.Code", num(int64(w.Code))}, {"A", num(int64(n))}, {"B", num(int64(int8(n)))}, {"C", num(int64(int16(n)))}, {"D", num(int64(int32(n)))}, {"E", num(int64(uint(n) >> 1))},
		{"F", num(int64(uint16(n)))}, {"G", num(int64(uint32(n)))}, {"H", num(int64(uint64(n) >> 1))}, {"I", flt(0.5)}, {"J", boolVal(n > 5)}, {"K", num(int64(myInt(n)))}, {"L", str(s)},
		{"M[0]", num(int64(n))}, {"M[1]", str(s)}, {"M[2]", none}, {"M[3].Name", str(s)}, {"N", num(int64(n))}, {"O", str(s)}, {"P.Tags[1]", str(s)}, {"P.Age", num(int64(pe.Age))},
		{"Q", boolVal(n > 5)}, {"R", flt(2)}, {"S.k", num(int64(myInt(n)))}, {"T[1]", str(s)}, {"U[1][0]", num(int64(int8(n)))}, {"V[0]", none}, {"V[1].Name", str(s)}, {"W.p.Name", str(s)},
		{"W.z", none}, {"X[1]", num(int64(byte(n)))}, {"V.len()", num(2)}, {"W.p.Tags.len()", num(2)}}
	p = ps2[vrt.Choice(len(ps2))]
	path := p.path
	first := path[:1]
	rest := path[1:]
	switch vrt.Choice(4) {
	case 0:
		path = "x." + path
	case 1:
		path = "x." + strings.ToLower(first) + rest
	default:
		// through index syntax, by both spellings
		name := ""
		for len(rest) > 0 && rest[0] != '.' && rest[0] != '[' {
			name += rest[:1]
			rest = rest[1:]
		}
		if vrt.Choice(2) == 1 {
			first = strings.ToLower(first)
		}
		path = "x['" + first + name + "']" + rest
	}
	shownAs(path, data, p.v, "struct field")
}

// H_C12_fieldnames: fields whose names have several capitals, digits and underscores, alone or several in one struct, with the zero value or a symbolic one: each by its name and with its first letter
// lower-cased, through dot and index, in the struct, behind a pointer, in a slice and in a map.
func H_C12_fieldnames() {
	n := vrt.Int64()
	type shapes struct {
		ID, IDs, Id, HTMLText, URLPath, X, XY, A1, B2B, A_b, A__, ABC, Abc, Path_URL int64
		N                                                                            *int64
	}
	names := []string{"ID", "IDs", "Id", "HTMLText", "URLPath", "X", "XY", "A1", "B2B", "A_b", "A__", "ABC", "Abc", "Path_URL"}
	k := vrt.Choice(len(names))
	s := shapes{}
	f := []*int64{&s.ID, &s.IDs, &s.Id, &s.HTMLText, &s.URLPath, &s.X, &s.XY, &s.A1, &s.B2B, &s.A_b, &s.A__, &s.ABC, &s.Abc, &s.Path_URL}
	for i := range f {
		*f[i] = int64(i)
	}
	*f[k] = n
	var v any = s
	at := "x"
	switch vrt.Choice(4) {
	case 1:
		v = &s
	case 2:
		v, at = []shapes{{}, s}, "x[1]"
	case 3:
		v, at = map[string]any{"k": &s}, "x.k"
	}
	name := names[k]
	if vrt.Bool() {
		name = strings.ToLower(name[:1]) + name[1:]
	}
	prints("{{ "+at+pick("."+name, "['"+name+"']", "[\""+name+"\"]")+" }}", map[string]any{"x": v}, i64(n), "a field by its name")
}

// H_C12_letters: fields whose names begin with a capital that is not ASCII (two- and three-byte), alone or next to others, by name and with the first letter lower-cased, through index syntax; symbolic values.
func H_C12_letters() {
	type letters struct {
		Émile, Яков, Ωmega, Ấn, Ñ, Zoë int64
		A                              string
	}
	up := []string{"Émile", "Яков", "Ωmega", "Ấn", "Ñ", "Zoë"}
	lo := []string{"émile", "яков", "ωmega", "ấn", "ñ", "zoë"}
	s := letters{1, 2, 3, 4, 5, 6, "a"}
	f := []*int64{&s.Émile, &s.Яков, &s.Ωmega, &s.Ấn, &s.Ñ, &s.Zoë}
	k := vrt.Choice(len(f))
	n := vrt.Int64()
	*f[k] = n
	var v any = s
	at := "x"
	switch vrt.Choice(3) {
	case 1:
		v = &s
	case 2:
		v, at = []letters{s}, "x[0]"
	}
	renders("{{ "+at+"['"+pickBool(vrt.Bool(), up[k], lo[k])+"'] }}{{ "+at+".a }}", map[string]any{"x": v}, i64(n)+"a", "a field by its name")
}

// H_C12_hidden: fields that are not exported (also of an unsupported kind, in nested structs, behind pointers, next to an exported field of the same letters)
// are out of reach and do not matter; an exported field wins over them with its first letter lower-cased.
func H_C12_hidden() {
	s := vrt.Str(1, letters)
	type twins struct {
		name string
		Name string
	}
	pe := person{Name: s, secret: "HIDDEN"}
	data := map[string]any{"p": pe, "h": house{Owner: &pe, ok: make(chan int), person: person{Name: "HIDDEN", secret: "HIDDEN"}}, "t": twins{"HIDDEN", s}, "w": &wide{xX: "HIDDEN"}}
	switch vrt.Choice(3) {
	case 0:
		e := pick("p.secret", "p['secret']", "h.ok", "h.person", "h['person']", "w.xX", "w['xX']", "h.Owner.secret", "p.Secret", "w.XX", "h.person.Name", "h.Ok")
		r := eval("{{ "+e+" }}", data)
		vrt.Assert(r.bad || !strings.Contains(r.out, "HIDDEN") && r.out == "", "a field that is not exported is out of reach")
	case 1:
		renders("{{ "+pick("t.name", "t.Name", "t['name']", "t['Name']", "h.owner.name", "p.name")+" }}", data, s, "the exported field")
	case 2:
		r := eval(pick("{{ p }}", "{{ h }}", "{{ t }}", "{{ w }}", "@dump(p)", "@dump(h)", "@dump(t, w)"), data)
		vrt.Assert(!r.bad, "a value with hidden fields prints")
		vrt.Assert(!strings.Contains(r.out, "HIDDEN"), "printing a value leaves out fields that are not exported")
	}
}

// H_C12_keys: a map key of 1..2 symbolic bytes is reached through index syntax, one of letters and digits also with a dot; with a key and its spelling with another first letter
// in one map each finds its own value.
func H_C12_keys() {
	a, b := vrt.Int64(), vrt.Int64()
	var k string
	if vrt.Choice(2) == 0 {
		k = vrt.Str(1+vrt.Choice(2), bytesWithout("'\\&<>\"\x00"))
		vrt.Assume(k[0] < 0x80)
		var m any = map[string]any{k: a}
		switch vrt.Choice(3) {
		case 1:
			m = map[myStr]int64{myStr(k): a}
		case 2:
			m = &map[myStr]any{myStr(k): a}
		}
		renders("{{ m['"+k+"'] }}", map[string]any{"m": m}, i64(a), "key through index syntax")
		return
	}
	k = vrt.Str(1, letters) + vrt.Str(vrt.Choice(3), letters+digits+"_")
	vrt.Assume(k != "in" && k != "nil" && k != "true" && k != "false" && k != "If")
	o := k
	if k[0] >= 'a' && k[0] <= 'z' {
		o = string([]byte{k[0] - 32}) + k[1:]
	} else {
		o = string([]byte{k[0] + 32}) + k[1:]
	}
	vrt.Assume(o != "in" && o != "nil")
	data := map[string]any{"m": map[string]int64{k: a, o: b}}
	if vrt.Choice(2) == 1 {
		data["m"] = map[myStr]int64{myStr(k): a, myStr(o): b}
	}
	renders("{{ m."+k+" }}|{{ m."+o+" }}|{{ m['"+k+"'] }}|{{ m[\""+o+"\"] }}", data, i64(a)+"|"+i64(b)+"|"+i64(a)+"|"+i64(b), "keys that differ in their first letter")
}

// H_C12_slices: slices of 0..3 elements of 8 element types (symbolic values) by position, by length, in @each, printed; nil slices and maps are empty.
func H_C12_slices() {
	n := vrt.Choice(4)
	var e []int64
	for i := 0; i < n; i++ {
		e = append(e, int64(vrt.Byte()))
	}
	var x any
	suffix := ""
	switch vrt.Choice(8) {
	case 0:
		x = e
	case 1:
		var s []uint16
		for _, v := range e {
			s = append(s, uint16(v))
		}
		x = s
	case 2:
		s := []any{}
		for _, v := range e {
			s = append(s, v)
		}
		x = s
	case 3:
		var s []*int64
		for i := range e {
			s = append(s, &e[i])
		}
		x = &s
	case 4:
		s := []person{}
		for _, v := range e {
			s = append(s, person{Age: uint8(v)})
		}
		x, suffix = s, ".age"
	case 5:
		s := [][]int64{}
		for i := range e {
			s = append(s, e[i:i+1])
		}
		x, suffix = s, "[0]"
	case 6:
		s := []map[string]int64{}
		for i := range e {
			s = append(s, map[string]int64{"v": e[i]})
		}
		x, suffix = s, ".v"
	case 7:
		s := []*person{}
		for _, v := range e {
			s = append(s, &person{Age: uint8(v)})
		}
		x, suffix = s, "['Age']"
	}
	src, want := "{{ x.len() }}@each(v in x)<{{ v"+suffix+" }}>@else none@end", itoa(n)
	for i := range e {
		want += "<" + i64(e[i]) + ">"
	}
	if n == 0 {
		want += " none"
	}
	for i := range e {
		src += "[{{ x[" + itoa(i) + "]" + suffix + " }}]"
		want += "[" + i64(e[i]) + "]"
	}
	renders(src, map[string]any{"x": x}, want, "slice")
}

// H_C12_unsupported: a value of an unsupported kind (channel, function, complex, array, map with integer keys, unsafe pointer, uintptr) at any of 12 positions
// makes the call fail, also when the template does not use it, next to supported data with symbolic values, by string and by file.
func H_C12_unsupported() {
	var u any
	switch vrt.Choice(9) {
	case 0:
		u = make(chan int)
	case 1:
		u = func() {}
	case 2:
		u = complex(1, 2)
	case 3:
		u = [2]int{1, 2}
	case 4:
		u = map[int]string{1: "x"}
	case 5:
		u = uintptr(7)
	case 6:
		u = unsafe.Pointer(nil)
	case 7:
		u = (chan string)(nil)
	case 8:
		u = complex64(1)
	}
	var d any
	switch vrt.Choice(13) {
	case 0:
		d = u
	case 1:
		d = []any{1, u}
	case 2:
		d = map[string]any{"a": 1, "k": u}
	case 3:
		d = struct{ A any }{u}
	case 4:
		d = &u
	case 5:
		d = []any{[]any{map[string]any{"k": []any{u}}}}
	case 6:
		d = house{Next: &house{Any: u}}
	case 7:
		d = map[string]house{"k": {Any: u}}
	case 8:
		d = []wide{{}, {M: []any{nil, u}}}
	case 9:
		d = struct {
			A int
			C chan int
			Z string
		}{1, make(chan int), "z"}
	case 10:
		d = []func(){func() {}}
	case 11:
		d = map[string][2]int{"k": {1, 2}}
	case 12:
		d = map[myStr]*complex128{"k": new(complex128)}
	}
	v := vrt.Int64()
	data := map[string]any{"a": v, "x": d, "zz": "q"}
	src := pick("text", "{{ a }}", "{{ x }}", "")
	fails(src, data, "unsupported value")
	t, err := site("p", src)
	vrt.Assert(err == nil, "the template loads")
	if err == nil {
		_, ferr := t.String("p", data)
		vrt.Assert(ferr != nil, "unsupported value: (*Template).String fails")
	}
	_, has := data["x"]
	vrt.Assert(len(data) == 3 && has && data["a"] == v && data["zz"] == "q", "unsupported value: the data map is as before")
}

// H_C12_untouched: rendering a template that assigns, loops, appends, reverses, sorts out, passes to components and shadows never changes the caller's map nor anything in it,
// spare capacity of slices included; symbolic values.
func H_C12_untouched() {
	n, s := vrt.Int64(), vrt.Str(1, "")
	build := func() (map[string]any, []int64, []any) {
		ints := make([]int64, 2, 6)
		ints[0], ints[1] = n, 7
		anys := append(make([]any, 0, 4), n, s)
		pe := &person{Name: s, Age: 3, Tags: []string{"t", s}}
		return map[string]any{"n": n, "s": s, "a": ints, "b": anys, "m": map[string]any{"k": n, "l": []any{s, n}}, "p": pe, "h": house{Owner: pe, Rooms: []person{*pe}, ByName: map[string]person{"x": *pe}}, "z": nil}, ints, anys
	}
	data, ints, anys := build()
	copied, _, _ := build()
	src := pick(
		"{{ n = 5; s = 'x'; a = [1]; m = {k: 1} }}{{ n }}{{ a }}",
		"{{ n++ }}{{ x = n; x-- }}{{ n = n * 2 }}",
		"{{ a.append(1, 2, 3) }}{{ b.append('x') }}{{ b.prepend(1) }}{{ a.reverse() }}{{ b.shuffle() }}",
		"{{ x = a.slice(0, 1) }}{{ y = x.append(99) }}{{ z = x.append(98) }}{{ a }}",
		"@each(v in a){{ v = 3 }}@end@each(q in m.l){{ q }}@end@for(n = 0; n < 3; n++){{ s = 'y' }}@end",
		"{{ p.name.upper() }}{{ p.tags.append('x') }}{{ h.rooms[0].tags.reverse() }}{{ h.byName.x.name }}",
		"{{ m }}{{ h }}{{ p }}@dump(m, h, p, a)",
		"@if(true){{ n = 1; y = m; y = {k: 2} }}@end{{ nope }}",
		"{{ s.repeat(3) }}{{ s.split('') }}{{ x = b.join('-') }}{{ b = [] }}")
	eval(src, data)
	check := func(what string) {
		vrt.Assert(reflect.DeepEqual(data, copied), what+": the caller's data is as before")
		vrt.Assert(len(data) == len(copied), what+": no key was added")
		for _, v := range ints[:cap(ints)][2:] {
			vrt.Assert(v == 0, what+": spare capacity of an int slice is as before")
		}
		for _, v := range anys[:cap(anys)][2:] {
			vrt.Assert(v == nil, what+": spare capacity of a slice is as before")
		}
	}
	check("EvaluateString")
	t, err := site("p", src+"@component('c', {n: n, a: b, m: m})", "c", "{{ n = 1; m = {} }}{{ a.append(2) }}")
	if err == nil {
		t.String("p", data)
		check("String")
	}
}

type linked struct {
	Text *string
	Num  *int64
	Flag *bool
	Next *linked
	List *[]int
	Map  *map[string]int
	F    *float64
	Any  any
}

// H_C12_pointers: a struct whose pointer fields are each nil or set (symbolic values): a set one shows its value, a nil one is there and is nil, by both spellings, in conditions, in the printed object, two levels deep, in a slice and in a map.
// vrt:weight 2
func H_C12_pointers() {
	k := vrt.Choice(7)
	set := vrt.Bool()
	n, s, b := vrt.Int64(), vrt.Str(1, ""), vrt.Bool()
	var l linked
	name := []string{"Text", "Num", "Flag", "List", "Map", "F", "Next"}[k]
	want := ""
	if set {
		switch k {
		case 0:
			l.Text, want = &s, s
		case 1:
			l.Num, want = &n, i64(n)
		case 2:
			l.Flag, want = &b, bit(b)
		case 3:
			l.List, want = &[]int{7, 8}, "7, 8"
		case 4:
			l.Map, want = &map[string]int{"k": 7}, "{k: 7}"
		case 5:
			f := 2.5
			l.F, want = &f, "2.5"
		case 6:
			l.Next, want = &linked{Any: n}, ""
		}
	}
	low := string([]byte{name[0] + 32}) + name[1:]
	var x any
	path := "x"
	switch vrt.Choice(6) {
	case 0:
		x = l
	case 1:
		x = &l
	case 2:
		x, path = []linked{{}, l}, "x[1]"
	case 3:
		x, path = map[string]*linked{"a": nil, "k": &l}, "x.k"
	case 4:
		x, path = linked{Next: &l}, "x.next"
	case 5:
		x, path = []any{nil, &linked{Any: []*linked{nil, &l}}}, "x[1].any[1]"
	}
	data := map[string]any{"x": x}
	end := ""
	if k == 6 && set {
		end, want = ".any", i64(n)
	}
	for _, e := range []string{path + "." + name, path + "." + low, path + "['" + name + "']", path + "['" + low + "']"} {
		renders("[{{ "+e+end+" }}]", data, "["+want+"]", "pointer field")
		if !set {
			renders("{{ [nil].contains("+e+") }}@if("+e+")a@else b@end", data, "1 b", "nil pointer field")
		}
	}
	if set {
		return
	}
	r := evalq("{{ "+path+" }}", data)
	for _, f := range []string{"Text: ", "Num: ", "Flag: ", "Next: ", "List: ", "Map: ", "F: ", "Any: "} {
		vrt.Assert(!r.bad && strings.Contains(r.out, f), "every field is printed")
	}
}
