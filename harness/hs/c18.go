package hs

import (
	"path/filepath"
	"strings"

	tw "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"
	"vh/vrt"
)

// spelling is a way to write the template directory, and the directory it is.
func spelling() (dir, real string) {
	switch vrt.Choice(quick(14, 16)) {
	case 0:
		return "tpl", "tpl"
	case 1:
		return "tpl/", "tpl"
	case 2:
		return "tpl//", "tpl"
	case 3:
		return "./tpl", "tpl"
	case 4:
		return "x/../tpl", "tpl"
	case 5:
		return "x/y/../../tpl/", "tpl"
	case 6:
		return "x/tpl", "x/tpl"
	case 7:
		return "./x//tpl/", "x/tpl"
	case 8:
		return "tpl/.", "tpl"
	case 9:
		return ".", "."
	case 10:
		return "../" + filepath.Base(vrt.Cwd()) + "/tpl", "tpl"
	case 11:
		return "x/y/../tpl/d/..", "x/tpl"
	case 12:
		return "a.tw", "a.tw"
	case 13:
		return "x/tw.tw/tw", "x/tw.tw/tw"
	case 14:
		return "tpl/tpl/../../tpl", "tpl"
	}
	return "./", "."
}

// H_C18_tree: two (thorough three) files in six places (one begins with a dot) of a directory in 14 spellings (nested, trailing slashes, parent segments, "."), names of symbolic letters and dots, endings that are, contain, repeat
// or change the case of one of five extensions, some of which occur inside other names: exactly the files that end in the extension are registered, under their relative path; what is not a template is not even read.
// vrt:weight 4
func H_C18_tree() {
	dir, real := spelling()
	ext := pick(".tw", ".tw.html", ".html", "tw", ".t")
	vrt.Mkdir("x/y")
	vrt.Mkdir("tpl/tpl")
	vrt.Mkdir(real + "/d")
	type file struct{ path, name, content string }
	var files []file
	for i := 0; i < quick(2, 3); i++ {
		sub := pick("", "d/", "d/e/f/", "a.tw/", "tpl/", ".p/")
		base := vrt.Str(1, "at.w_") + pick("", "t", ".tw", ".t")
		switch vrt.Choice(6) {
		case 0:
			base += ext
		case 1:
			base += ext + ".bak"
		case 2:
			base += ext + "x"
		case 3:
			base += strings.ToUpper(ext)
		case 4:
			base += ext + ext
		case 5:
			base += ".txt"
		}
		f := file{path: sub + base, content: "file " + itoa(i)}
		vrt.Assume(base != ext && base != "." && base != "..")
		for _, o := range files {
			vrt.Assume(o.path != f.path && !strings.HasPrefix(o.path, f.path+"/") && !strings.HasPrefix(f.path, o.path+"/"))
		}
		if strings.HasSuffix(base, ext) {
			f.name = f.path[:len(f.path)-len(ext)]
			vrt.Reach("template")
		} else {
			f.content = "{{ # not a template }}"
			vrt.Reach("no template")
		}
		files = append(files, f)
	}
	for _, f := range files {
		vrt.WriteFile(real+"/"+f.path, f.content)
		vrt.Observe("file", f.path)
	}
	t, err := tw.NewTemplate(&config.Config{TemplateDir: dir, TemplateExt: ext})
	vrt.Assert(err == nil && t != nil, "the directory loads")
	if err != nil {
		return
	}
	known := func(name string) bool {
		for _, f := range files {
			if f.name != "" && f.name == name {
				return true
			}
		}
		return false
	}
	unknown := func(name string) {
		if known(name) {
			return
		}
		out, ferr := t.String(name, nil)
		vrt.Assert(ferr != nil, "an unknown name is an error")
		vrt.AssertEq(out, "", "an unknown name has no output")
		if ferr != nil {
			vrt.Assert(strings.Contains(ferr.Message(), "not found"), "an unknown name is reported as not found")
		}
	}
	for _, f := range files {
		if f.name != "" {
			shows(t, f.name, nil, f.content, "a file by its relative name")
			unknown(f.name + ext)
			unknown(real + "/" + f.name)
			unknown(f.name + "x")
		} else {
			unknown(f.path)
			for _, e := range []string{ext, ".bak", "x", ext + ".bak", ".txt"} {
				if n := strings.TrimSuffix(f.path, e); n != f.path {
					unknown(n)
				}
			}
			unknown(strings.Replace(f.path, ext, "", 1))
		}
		unknown(filepath.Base(f.path))
		if i := strings.LastIndex(f.name, "/"); i >= 0 {
			unknown(f.name[i+1:])
		}
	}
	unknown("")
	unknown("d")
}

// H_C18_names: a file whose name, and the name of the directory it is in (directly, or two deep), are 1..3 symbolic characters of letters, digits, dots, blanks, punctuation and
// multi-byte text (without "/" and the bytes that cannot be typed): it is registered under this name and renders; a page that uses it as component or layout finds it.
// vrt:weight 2
func H_C18_names() {
	set := "a.Z0 _-~+#%&()[]{}$!,;=@'\xc3\xa9"
	base, dir := vrt.Str(1+vrt.Choice(3), set), vrt.Str(1+vrt.Choice(2), set)
	vrt.Assume(dir != "." && dir != ".." && dir != "~" && base[0] != '~')
	name := pick("", dir+"/", dir+"/d/", "d/"+dir+"/") + base
	ext := pick(".tw", ".tw.html")
	vrt.WriteFile("tpl/"+name+ext, "it's {{ 1 }}")
	plain := true
	for i := 0; i < len(name); i++ {
		plain = plain && name[i] != '\''
	}
	if plain {
		vrt.WriteFile("tpl/user"+ext, "<@component('"+name+"')>")
		vrt.Assume(name[0] != '~' && name != "user")
	}
	t, err := tw.NewTemplate(&config.Config{TemplateDir: "tpl", TemplateExt: ext})
	vrt.Assert(err == nil, "names: the tree loads")
	vrt.Observe("name", name)
	if err != nil {
		vrt.Observe("load", err.Error())
		return
	}
	shows(t, name, nil, "it's 1", "a file by its relative name")
	if plain {
		shows(t, "user", nil, "<it's 1>", "a component by its relative name")
	}
	for _, other := range []string{name + ext, name + "/", "/" + name, "./" + name, name + " ", "tpl/" + name, name + "\x00"} {
		_, ferr := t.String(other, nil)
		vrt.Assert(ferr != nil, "any other spelling of the name is unknown")
	}
}

// H_C18_links: a symbolic link to a file (in or outside of the directory) whose name ends in the extension is a file of that name; one that does not end in it is none.
func H_C18_links() {
	vrt.WriteFile("tpl/p.tw", "page")
	vrt.WriteFile("other/x.txt", "{{ 1 + 1 }}")
	vrt.WriteFile("tpl/data.txt", "{{ # }}")
	target := pick("p.tw", "../other/x.txt", vrt.Cwd()+"/other/x.txt")
	want := "2"
	if target == "p.tw" {
		want = "page"
	}
	vrt.Symlink(target, "tpl/q.tw")
	vrt.Symlink("data.txt", "tpl/r.txt")
	t, err := tw.NewTemplate(tplConfig())
	vrt.Assert(err == nil, "links: the tree loads")
	if err != nil {
		return
	}
	shows(t, "p", nil, "page", "the file")
	shows(t, "q", nil, want, "the link to a file")
}

// H_C18_layouts: layouts, pages and components in three directories, named by their relative paths, in five directory spellings: the pages render, files that declare reserves (anywhere, nested in blocks as well) are not renderable themselves.
// vrt:weight 2
func H_C18_layouts() {
	dir := pick("tpl", "tpl/", "./tpl", "x/../tpl", "tpl//")
	vrt.Mkdir("x")
	ext := pick(".tw", ".tw.html")
	ld, cd, pd := pick("", "d/", "d/e/"), pick("", "d/", "d/e/"), pick("", "d/", "p/")
	layout := pick("<@reserve('t')>", "@if(true)<@reserve('t')>@end", "{{ 1 }}@each(x in [1])<@reserve('t')>@end")
	vrt.WriteFile("tpl/"+ld+"l"+ext, layout)
	vrt.WriteFile("tpl/"+cd+"c"+ext, "[{{ v }}]")
	vrt.WriteFile("tpl/"+pd+"p"+ext, "@use('"+ld+"l')@insert('t')P@component('"+cd+"c', {v: 1})@end")
	vrt.WriteFile("tpl/q"+ext, "{{ 1 }}@component('"+cd+"c', {v: 'q'})")
	t, err := tw.NewTemplate(&config.Config{TemplateDir: dir, TemplateExt: ext})
	vrt.Assert(err == nil, "the tree loads")
	if err != nil {
		vrt.Observe("load", err.Error())
		return
	}
	out, ferr := t.String(ld+"l", nil)
	vrt.Assert(ferr != nil && out == "", "a layout is not renderable")
	if layout[0] == '<' {
		shows(t, pd+"p", nil, "<P[1]>", "page with layout and component")
	}
	v := vrt.Int64()
	shows(t, cd+"c", map[string]any{"v": v}, "["+i64(v)+"]", "component as a page")
	shows(t, "q", nil, "1[q]", "page with component")
}

// H_C18_faults: a tree of two pages, a layout, two components (one nested in a directory) where one symbolic file is deleted, truncated at every prefix, replaced by garbage (symbolic illegal bytes and nine other
// contents), made unreadable, replaced by a link to nothing or replaced by a directory: either the tree loads and the other pages render as before, or the template is nil and the error identifies the file; a fault that breaks the file never goes unnoticed.
// vrt:weight 3
func H_C18_faults() {
	names := []string{"p", "q", "l", "sub/c", "b"}
	texts := []string{"@use('l')@insert('t')P{{ 1 }}@component('sub/c', {v: 1})@end", "plain {{ 1 + 1 }}{{-- note --}}{{ 'a' }}\n", "<@reserve('t')>{{ 'L' }}", "[{{ v }}]{{ [1, 2] }}", "b@component('sub/c', {v: 2})"}
	outs := []string{"<P1[1]12>L", "plain 2a\n", "", "", "b[2]12"}
	outs[0] = "<P1[1]1, 2>L"
	outs[4] = "b[2]1, 2"
	k := vrt.Choice(len(names))
	for i := range names {
		if i != k {
			vrt.WriteFile("tpl/"+names[i]+".tw", texts[i])
		}
	}
	file := "tpl/" + names[k] + ".tw"
	broken, gone := true, false
	changed := texts[k]
	switch vrt.Choice(6) {
	case 5:
		gone = true
		vrt.Symlink(pick("none", vrt.Cwd()+"/tpl/none.tw", "../none/x.tw"), file)
	case 0:
		gone = true
		broken = k == 2 || k == 3
	case 1:
		n := vrt.Choice(len(changed))
		changed = changed[:n]
		broken = inBraces(changed) || k == 0 && n > len("@use('l')@insert('t')") || k == 4 && n > len("b@component")
		if !broken && (k == 0 || k == 4 || k == 2) && strings.Contains(changed, "@") && changed != "@use('l')" {
			// a cut inside of a directive: text or an error
			broken = false
			vrt.WriteFile(file, changed)
			t, err := tw.NewTemplate(&config.Config{TemplateDir: "tpl", TemplateExt: ".tw"})
			vrt.Assert((t == nil) == (err != nil), "a template or an error")
			if err != nil {
				vrt.Assert(names[k] == "l" || strings.Contains(err.Error(), file), "the error identifies the file")
			}
			return
		}
		if k == 2 && n < len("<@reserve('t')>")-1 {
			// the layout without its reserve: the insert of the page is the fault
			vrt.WriteFile(file, changed)
			_, err := tw.NewTemplate(&config.Config{TemplateDir: "tpl", TemplateExt: ".tw"})
			vrt.Assert(err != nil, "an insert without a reserve")
			return
		}
		vrt.WriteFile(file, changed)
	case 2:
		changed += pick("{{ # }}", "{{", "@if(", "{{ 'abc }}", "@each(x in", "{{ \x00 }}", "{{ 1 2 }}", "@component('sub/c'", "{{--", "{{"+string([]byte{vrt.ByteIn("#$^&~|`\x01\x7f\xff\xc3")})+"}}", "@if(true)", "@each(x in [1])a")
		vrt.WriteFile(file, changed)
	case 3:
		vrt.Unreadable(file)
	case 4:
		vrt.Mkdir(file)
		gone = true
		broken = k == 2 || k == 3
	}
	t, err := tw.NewTemplate(&config.Config{TemplateDir: "tpl", TemplateExt: ".tw"})
	if err != nil {
		vrt.Observe("load", err.Error())
		vrt.Assert(broken, "a tree without a faulty file loads")
		vrt.Assert(t == nil, "no template with an error")
		vrt.Assert(strings.Contains(err.Error(), vrt.Cwd()+"/"+file) || gone && strings.Contains(err.Error(), names[k]), "the error identifies the faulty file")
		vrt.Reach("refused")
		return
	}
	vrt.Assert(!broken, "a faulty file fails the load")
	vrt.Assert(t != nil, "a template without an error")
	if t == nil {
		return
	}
	for i, w := range outs {
		if i == k || w == "" || k == 2 && i == 0 || k == 3 && i != 1 {
			continue
		}
		shows(t, names[i], nil, w, "the other pages render as before")
	}
	if k != 2 && k != 3 && gone {
		_, ferr := t.String(names[k], nil)
		vrt.Assert(ferr != nil && strings.Contains(ferr.Message(), "not found"), "a file that is gone is not found")
	}
	vrt.Reach("loaded")
}

// inBraces is true when the text ends inside of a braces statement or comment.
func inBraces(s string) bool {
	return strings.LastIndex(s, "{{") > strings.LastIndex(s, "}}")
}

// H_C18_dir: a template directory that is missing, is a file, or is empty.
func H_C18_dir() {
	switch vrt.Choice(3) {
	case 0:
		t, err := tw.NewTemplate(&config.Config{TemplateDir: pick("none", "none/", "./x/none"), TemplateExt: ".tw"})
		vrt.Assert(t == nil && err != nil, "a missing directory is an error")
	case 1:
		vrt.Mkdir("tpl/d")
		vrt.WriteFile("tpl/readme.md", "{{ # }}")
		t, err := tw.NewTemplate(&config.Config{TemplateDir: "tpl", TemplateExt: ".tw"})
		vrt.Assert(t != nil && err == nil, "a directory without templates loads")
		if t != nil {
			_, ferr := t.String(pick("readme", "readme.md", "d", ""), nil)
			vrt.Assert(ferr != nil && strings.Contains(ferr.Message(), "not found"), "nothing is registered")
		}
	case 2:
		// sticky: the second load uses the directory and extension of the first
		vrt.WriteFile("one/p.a", "one")
		vrt.WriteFile("two/p.b", "two")
		vrt.WriteFile("two/p.a", "two a")
		t, err := tw.NewTemplate(&config.Config{TemplateDir: "one", TemplateExt: ".a"})
		vrt.Assert(err == nil, "first load")
		t2, err2 := tw.NewTemplate(&config.Config{TemplateDir: "two/", TemplateExt: pick(".a", ".b")})
		vrt.Assert(err2 == nil, "second load")
		if err != nil || err2 != nil {
			return
		}
		shows(t, "p", nil, "one", "the templates of the first load")
		out, ferr := t2.String("p", nil)
		vrt.Assert(ferr == nil && (out == "two" || out == "two a"), "the templates of the second load")
	}
}

// H_C18_file: EvaluateFile of a file with 0..3 (thorough 4) arbitrary bytes among constructs, with and without errors, by absolute, relative and odd paths, equals EvaluateString of its content
// (same output, same message, same line); a missing, unreadable or directory path is an error.
// vrt:weight 2
func H_C18_file() {
	content := pick("", "a{{ n }}", "{{ 'x' }}\n{{-- c --}}", "\r\n@each(x in [1, 2]){{ x }}\n@end", "\n{{ ", "{{ n }}\n\n{{ nope }}", "@if(true)") + vrt.Str(vrt.Choice(quick(4, 5)), "") + pick("", "z{{ n }}", "}}", "\n\n")
	path := pick("f.txt", "./f.txt", "d/../f.txt", vrt.Cwd()+"/f.txt", "d/f.tw")
	vrt.Mkdir("d")
	vrt.WriteFile("f.txt", content)
	vrt.WriteFile("d/f.tw", content)
	vrt.Observe("content", content)
	n := vrt.Int64()
	d := map[string]any{"n": n}
	out, err := tw.EvaluateFile(path, d)
	want, werr := tw.EvaluateString(content, d)
	vrt.Assert((err == nil) == (werr == nil), "file and string both succeed or both fail")
	if err != nil && werr != nil {
		_, line, msg, ok := errText(err.Error())
		_, wline, wmsg, wok := errText(werr.Error())
		vrt.Assert(ok && wok, "the errors are well formed")
		vrt.AssertEq(msg, wmsg, "the same message")
		vrt.Assert(line == wline, "the same line")
		vrt.Reach("error")
		return
	}
	vrt.AssertEq(out, want, "the same output")
	vrt.Reach("output")
	for _, p := range []string{"none.txt", "d", "d/none/x"} {
		out, err := tw.EvaluateFile(p, d)
		vrt.Assert(err != nil && out == "", "a path that cannot be read is an error")
	}
	vrt.Unreadable("u")
	_, err = tw.EvaluateFile("u", d)
	vrt.Assert(err != nil, "an unreadable file is an error")
}

// H_C18_extra: a file that no other file uses, at one of 12 places of the tree (among them layouts, components, hidden and deep directories; sorted before, between and behind the others), with one of eight faults: the load fails and names it; without a fault it is a page.
func H_C18_extra() {
	name := pick("components/x", "components/d/x", "layouts/x", "x/y/z/w", "a", "zz", ".x", ".d/x", "error", "partials/_p", "b/components/c", "p2")
	files := []string{"p", "@use('~l')@insert('t')@component('~c')@end", "layouts/l", "<@reserve('t')>", "components/c", "c"}
	write(files...)
	path := "tpl/" + name + ".tw"
	bad := true
	switch vrt.Choice(8) {
	case 0:
		vrt.WriteFile(path, pick("{{ # }}", "\n{{ 'a", "@if(x)", "{{ 1 2 }}"))
	case 1:
		vrt.WriteFile(path, "@component('none')")
	case 2:
		vrt.WriteFile(path, "@use('none')")
	case 3:
		vrt.WriteFile(path, "@use('~l')@insert('zz')a@end")
	case 4:
		vrt.WriteFile(path, "@component('~c')@slot('zz')a@end@end")
	case 5:
		vrt.Unreadable(path)
	case 6:
		vrt.WriteFile(path, "@use('~l')@insert('t')a@end@insert('t')b@end")
	case 7:
		vrt.WriteFile(path, "fine {{ 1 }}")
		bad = false
	}
	t, err := tw.NewTemplate(&config.Config{TemplateDir: "tpl", TemplateExt: ".tw"})
	vrt.Assert((err != nil) == bad, "a faulty file fails the load")
	vrt.Assert((t == nil) == bad, "no template with an error")
	if err != nil {
		vrt.Observe("load", err.Error())
		vrt.Assert(strings.Contains(err.Error(), vrt.Cwd()+"/"+path), "the error identifies the file")
	}
	if t != nil {
		shows(t, name, nil, "fine 1", "a file nothing uses")
		shows(t, "p", nil, "<c>", "the page")
	}
}
