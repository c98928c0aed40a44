// Package vmodel holds Go-source models used by the symbolic engine in place of code that talks
// to the operating system: an in-memory file system.
package vmodel

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net/http"
	"os"
	"path"
	"sort"
	"strings"
	"time"
)

// RuntimeError is the dynamic type of runtime panics in the engine.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}

type node struct {
	path string
	dir  bool
	link string // target of a symbolic link
	data string
}

var nodes []*node

const cwd = "/w"

func resolve(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = cwd + "/" + p
	}
	return path.Clean(p)
}

func find(p string) *node {
	for _, n := range nodes {
		if n.path == p {
			return n
		}
	}
	return nil
}

type errno struct {
	msg string
	is  error
}

func (e *errno) Error() string        { return e.msg }
func (e *errno) Is(target error) bool { return target == e.is }

var (
	enoent  = &errno{"no such file or directory", fs.ErrNotExist}
	eisdir  = &errno{"is a directory", nil}
	enotdir = &errno{"not a directory", nil}
	eloop   = &errno{"too many levels of symbolic links", nil}
)

func Mkdir(p string) { mkdirAll(resolve(p)) }

func mkdirAll(p string) {
	if p == "/" || p == "." {
		return
	}
	mkdirAll(path.Dir(p))
	if find(p) == nil {
		nodes = append(nodes, &node{path: p, dir: true})
	}
}

func WriteFile(p, content string) {
	p = resolve(p)
	mkdirAll(path.Dir(p))
	if n := find(p); n != nil {
		n.data = content
		return
	}
	nodes = append(nodes, &node{path: p, data: content})
}

// Unreadable is a link to itself.
func Unreadable(p string) { Symlink(path.Base(p), p) }

func Symlink(target, p string) {
	p = resolve(p)
	mkdirAll(path.Dir(p))
	if find(p) == nil {
		nodes = append(nodes, &node{path: p, link: target})
	}
}

func Remove(p string) {
	p = resolve(p)
	for i, n := range nodes {
		if n.path == p {
			var r []*node
			r = append(r, nodes[:i]...)
			nodes = append(r, nodes[i+1:]...)
			return
		}
	}
	panic("vmodel.Remove: no such file")
}

func Getcwd() string         { return cwd }
func Getwd() (string, error) { return cwd, nil }

// lookup resolves name the way the kernel does: every parent must be a directory or a link to one; a link at the end is followed
// when follow is set.
func lookup(name string, follow bool) (*node, *errno) {
	if name == "" {
		return nil, enoent
	}
	rest := name
	at := &node{path: cwd, dir: true}
	if name[0] == '/' {
		at = &node{path: "/", dir: true}
	}
	links := 0
	for {
		for len(rest) > 0 && rest[0] == '/' {
			rest = rest[1:]
			if !at.dir {
				return nil, enotdir
			}
		}
		if rest == "" {
			return at, nil
		}
		if !at.dir {
			return nil, enotdir
		}
		i := strings.IndexByte(rest, '/')
		if i < 0 {
			i = len(rest)
		}
		elem := rest[:i]
		rest = rest[i:]
		switch elem {
		case ".":
			continue
		case "..":
			at = dirNode(path.Dir(at.path))
			continue
		}
		p := path.Join(at.path, elem)
		n := find(p)
		if n == nil {
			if n = dirNode(p); n == nil {
				return nil, enoent
			}
		}
		if n.link != "" && (rest != "" || follow) {
			if links++; links > 40 {
				return nil, eloop
			}
			rest = n.link + rest
			if n.link[0] == '/' {
				at = dirNode("/")
			}
			continue
		}
		at = n
	}
}

// dirNode is the directory p; the working directory and those above it always exist.
func dirNode(p string) *node {
	if p == "/" || p == cwd {
		return &node{path: p, dir: true}
	}
	return find(p)
}

func pathErr(op, name string, e *errno) error { return &fs.PathError{Op: op, Path: name, Err: e} }

func ReadFile(name string) ([]byte, error) {
	n, e := lookup(name, true)
	if e != nil {
		return nil, pathErr("open", name, e)
	}
	if n.dir {
		return nil, pathErr("read", name, eisdir)
	}
	return []byte(n.data), nil
}

type info struct {
	n    *node
	name string // when it differs from that of the node
}

func (i info) Name() string {
	if i.name != "" {
		return i.name
	}
	return path.Base(i.n.path)
}
func (i info) Size() int64 { return int64(len(i.n.data)) }
func (i info) Mode() fs.FileMode {
	if i.n.dir {
		return fs.ModeDir | 0o755
	}
	if i.n.link != "" {
		return fs.ModeSymlink | 0o777
	}
	return 0o644
}
func (i info) ModTime() time.Time         { return time.Time{} }
func (i info) IsDir() bool                { return i.n.dir }
func (i info) Sys() any                   { return nil }
func (i info) Type() fs.FileMode          { return i.Mode().Type() }
func (i info) Info() (fs.FileInfo, error) { return i, nil }

func Lstat(name string) (fs.FileInfo, error) {
	n, e := lookup(name, false)
	if e != nil {
		return nil, pathErr("lstat", name, e)
	}
	return info{n, path.Base(name)}, nil
}

func Readlink(name string) (string, error) {
	n, e := lookup(name, false)
	if e == nil && n.link == "" {
		e = &errno{"invalid argument", fs.ErrInvalid}
	}
	if e != nil {
		return "", pathErr("readlink", name, e)
	}
	return n.link, nil
}

func Stat(name string) (fs.FileInfo, error) {
	n, e := lookup(name, true)
	if e != nil {
		return nil, pathErr("stat", name, e)
	}
	return info{n, path.Base(name)}, nil
}

func children(n *node) []*node {
	var r []*node
	for _, c := range nodes {
		if path.Dir(c.path) == n.path {
			r = append(r, c)
		}
	}
	return r
}

func ReadDir(name string) ([]fs.DirEntry, error) {
	n, e := lookup(name, true)
	if e != nil {
		return nil, pathErr("open", name, e)
	}
	if !n.dir {
		return nil, pathErr("readdirent", name, enotdir)
	}
	c := children(n)
	sort.Slice(c, func(i, j int) bool { return c[i].path < c[j].path })
	var r []fs.DirEntry
	for _, x := range c {
		r = append(r, info{n: x})
	}
	return r, nil
}

type handle struct {
	name string
	n    *node
	off  int
}

var handles map[*os.File]*handle

func Open(name string) (*os.File, error) {
	n, e := lookup(name, true)
	if e != nil {
		return nil, pathErr("open", name, e)
	}
	f := new(os.File)
	if handles == nil {
		handles = map[*os.File]*handle{}
	}
	handles[f] = &handle{name: name, n: n}
	return f, nil
}

func OpenFile(name string, flag int, perm fs.FileMode) (*os.File, error) { return Open(name) }

func FileClose(f *os.File) error { return nil }
func FileName(f *os.File) string { return handles[f].name }
func FileRead(f *os.File, b []byte) (int, error) {
	h := handles[f]
	if h.n.dir {
		return 0, pathErr("read", h.name, eisdir)
	}
	if h.off >= len(h.n.data) {
		return 0, io.EOF
	}
	n := copy(b, h.n.data[h.off:])
	h.off += n
	return n, nil
}
func FileStat(f *os.File) (fs.FileInfo, error) {
	return info{handles[f].n, path.Base(handles[f].name)}, nil
}
func FileReadDir(f *os.File, n int) ([]fs.DirEntry, error) {
	return ReadDir(handles[f].name)
}
func FileReaddir(f *os.File, n int) ([]fs.FileInfo, error) {
	d, err := ReadDir(handles[f].name)
	var r []fs.FileInfo
	for _, e := range d {
		r = append(r, e.(info))
	}
	return r, err
}
func FileReaddirnames(f *os.File, n int) ([]string, error) {
	h := handles[f]
	if !h.n.dir {
		return nil, pathErr("readdirent", h.name, enotdir)
	}
	var r []string
	for _, c := range children(h.n) {
		r = append(r, path.Base(c.path))
	}
	return r, nil
}
func IsNotExist(err error) bool   { return errors.Is(err, fs.ErrNotExist) }
func IsPermission(err error) bool { return errors.Is(err, fs.ErrPermission) }
func IsExist(err error) bool      { return errors.Is(err, fs.ErrExist) }

type dirFS string

func DirFS(dir string) fs.FS { return dirFS(dir) }

func (d dirFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: errors.New("invalid argument")}
	}
	f, err := Open(string(d) + "/" + name)
	if err != nil {
		err.(*fs.PathError).Path = name
		return nil, err
	}
	return f, nil
}
func (d dirFS) ReadFile(name string) ([]byte, error) {
	b, err := ReadFile(string(d) + "/" + name)
	if err != nil {
		err.(*fs.PathError).Path = name
	}
	return b, err
}
func (d dirFS) ReadDir(name string) ([]fs.DirEntry, error) { return ReadDir(string(d) + "/" + name) }
func (d dirFS) Stat(name string) (fs.FileInfo, error)      { return Stat(string(d) + "/" + name) }

// HTTPError is net/http.Error.
func HTTPError(w http.ResponseWriter, error string, code int) {
	h := w.Header()
	HeaderDel(h, "Content-Length")
	HeaderSet(h, "Content-Type", "text/plain; charset=utf-8")
	HeaderSet(h, "X-Content-Type-Options", "nosniff")
	w.WriteHeader(code)
	fmt.Fprintln(w, error)
}

// canonical is the canonical form of a header key.
func canonical(k string) string {
	b := []byte(k)
	up := true
	for i, c := range b {
		if up && 'a' <= c && c <= 'z' {
			b[i] = c - 32
		} else if !up && 'A' <= c && c <= 'Z' {
			b[i] = c + 32
		}
		up = c == '-'
	}
	return string(b)
}

func HeaderSet(h http.Header, k, v string) { h[canonical(k)] = []string{v} }
func HeaderAdd(h http.Header, k, v string) {
	k = canonical(k)
	h[k] = append(h[k], v)
}
func HeaderDel(h http.Header, k string)             { delete(h, canonical(k)) }
func HeaderValues(h http.Header, k string) []string { return h[canonical(k)] }
func HeaderGet(h http.Header, k string) string {
	if v := h[canonical(k)]; len(v) > 0 {
		return v[0]
	}
	return ""
}

func StatusText(code int) string {
	switch code {
	case 200:
		return "OK"
	case 400:
		return "Bad Request"
	case 404:
		return "Not Found"
	case 500:
		return "Internal Server Error"
	}
	return ""
}
