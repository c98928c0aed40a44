package hs

import (
	"strconv"
	"strings"

	tw "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"
	"vh/vrt"
)

// res is the outcome of one render.
type res struct {
	out string
	err string
	bad bool
}

// eval renders src and records source and outcome for the cross-validation.
func eval(src string, data map[string]any) res {
	vrt.Observe("src", src)
	return evalq(src, data)
}

func evalq(src string, data map[string]any) res {
	out, err := tw.EvaluateString(src, data)
	if err != nil {
		vrt.Observe("err", err.Error())
		return res{err: err.Error(), bad: true}
	}
	vrt.Observe("out", out)
	return res{out: out}
}

// renders asserts that src renders to want.
func renders(src string, data map[string]any, want, label string) {
	r := eval(src, data)
	vrt.Assert(!r.bad, label+": error instead of output")
	if !r.bad {
		vrt.AssertEq(r.out, want, label)
	}
}

// fails asserts that src fails to render.
func fails(src string, data map[string]any, label string) res {
	r := eval(src, data)
	vrt.Assert(r.bad, label+": output instead of error")
	return r
}

// errText splits the text of an error: "[Textwire ERROR in PATH:LINE]:\nMESSAGE".
func errText(s string) (path string, line int, msg string, ok bool) {
	const pre = "[Textwire ERROR"
	if !strings.HasPrefix(s, pre) {
		return "", 0, "", false
	}
	i := strings.Index(s, "]:\n")
	if i < 0 {
		return "", 0, "", false
	}
	head, msg := s[len(pre):i], s[i+3:]
	j := strings.LastIndex(head, ":")
	if j < 0 || j+1 == len(head) {
		return "", 0, "", false
	}
	for k := j + 1; k < len(head); k++ {
		c := head[k]
		if c < '0' || c > '9' {
			return "", 0, "", false
		}
		line = line*10 + int(c-'0')
	}
	if j > 0 {
		if !strings.HasPrefix(head, " in ") {
			return "", 0, "", false
		}
		path = head[4:j]
	}
	return path, line, msg, true
}

func newlines(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			n++
		}
	}
	return n
}

// pick is one of the alternatives.
func pick(s ...string) string { return s[vrt.Choice(len(s))] }

const (
	digits  = "0123456789"
	lower   = "abcdefghijklmnopqrstuvwxyz"
	letters = lower + "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
)

// bytesWithout is every byte that is not in s.
func bytesWithout(s string) string {
	b := make([]byte, 0, 256)
	for i := 0; i < 256; i++ {
		if strings.IndexByte(s, byte(i)) < 0 {
			b = append(b, byte(i))
		}
	}
	return string(b)
}

func quick(a, b int) int {
	if vrt.Tier() == 0 {
		return a
	}
	return b
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	neg := n < 0
	if neg {
		n = -n
	}
	for n > 0 {
		s = string(rune('0'+n%10)) + s
		n /= 10
	}
	if neg {
		s = "-" + s
	}
	return s
}

// i64 is the decimal form of v.
func i64(v int64) string { return strconv.FormatInt(v, 10) }

type tree struct {
	t   *tw.Template
	err error
}

// loadTree writes files (pairs of name and content) into the template directory and loads it, in a
// fresh process: nothing else has been called yet.
func loadTree(c *config.Config, prepare func(), files ...string) (*tw.Template, error) {
	debug := "-"
	if c.DebugMode {
		debug = "d"
	}
	key := c.TemplateDir + "\x00" + c.TemplateExt + "\x00" + c.ErrorPagePath + "\x00" + debug + "\x00" + strings.Join(files, "\x00")
	r := vrt.Setup(key, func() any {
		for i := 0; i < len(files); i += 2 {
			vrt.WriteFile("tpl/"+files[i]+c.TemplateExt, files[i+1])
		}
		if prepare != nil {
			prepare()
		}
		t, err := tw.NewTemplate(c)
		return &tree{t, err}
	}).(*tree)
	return r.t, r.err
}

func tplConfig() *config.Config { return &config.Config{TemplateDir: "tpl", TemplateExt: ".tw"} }
