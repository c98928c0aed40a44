package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type listPkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Imports    []string
	ImportMap  map[string]string
	Standard   bool
	EmbedFiles []string
	Error      *struct{ Err string }
	DepsErrors []struct{ Err string }
	Module     *struct {
		Path      string
		GoVersion string
	}
}

// standard-library packages whose bodies are encoded (everything else in std is
// declaration-only and must be reached through natives or models).
var bodyPkgs = map[string]bool{}

func init() {
	for _, p := range strings.Fields(`strings bytes strconv html unicode unicode/utf8 unicode/utf16 sort slices maps cmp errors math math/bits
internal/bytealg internal/stringslite io io/fs iter path path/filepath internal/filepathlite internal/oserror internal/itoa
container/list container/heap container/ring bufio text/tabwriter regexp regexp/syntax internal/byteorder net/url encoding/hex encoding/base64 encoding/binary
hash hash/fnv hash/crc32 text/template/parse encoding/csv internal/fmtsort fmt sync sync/atomic internal/race`) {
		bodyPkgs[p] = true
	}
}

// Loaded is the whole program in SSA form.
type Loaded struct {
	hsFiles []*ast.File
	prog    *ssa.Program
	fset    *token.FileSet
	pkgs    map[string]*ssa.Package
	order   []*listPkg // dependency order
	byth    map[string]*listPkg
	embed   map[*ssa.Global]string
	repo    string
}

var goBin = "/opt/veriftools/go1.23.12/bin/go"

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := e[:strings.IndexByte(e+"=", '=')]
		switch k {
		case "GOFLAGS", "CGO_ENABLED", "GOTOOLCHAIN", "GOWORK", "GOROOT", "GO111MODULE", "GOPROXY", "GOSUMDB":
			continue
		}
		env = append(env, e)
	}
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	return append(env, "GOFLAGS=-mod=mod", "CGO_ENABLED=0", "GOTOOLCHAIN=local", "GOWORK=off", "GOPROXY=off", "GOSUMDB=off")
}

func load(harnessDir string, patterns ...string) (*Loaded, error) {
	cmd := exec.Command(goBin, append([]string{"list", "-e", "-deps", "-json=ImportPath,Dir,GoFiles,Imports,ImportMap,Standard,EmbedFiles,Error,DepsErrors,Module"}, patterns...)...)
	cmd.Dir = harnessDir
	cmd.Env = goEnv()
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, errb.String())
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	L := &Loaded{fset: token.NewFileSet(), pkgs: map[string]*ssa.Package{}, byth: map[string]*listPkg{}, embed: map[*ssa.Global]string{}}
	for dec.More() {
		p := &listPkg{}
		if err := dec.Decode(p); err != nil {
			return nil, err
		}
		if p.Error != nil {
			return nil, fmt.Errorf("package %s: %s", p.ImportPath, p.Error.Err)
		}
		L.order = append(L.order, p)
		L.byth[p.ImportPath] = p
	}
	// parse in parallel
	type parsed struct {
		files []*ast.File
		err   error
	}
	res := make([]parsed, len(L.order))
	sem := make(chan bool, runtime.NumCPU())
	var wg sync.WaitGroup
	for i, p := range L.order {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			body := !p.Standard || bodyPkgs[p.ImportPath]
			for _, f := range p.GoFiles {
				mode := parser.SkipObjectResolution
				if !p.Standard {
					mode |= parser.ParseComments
				}
				af, err := parser.ParseFile(L.fset, filepath.Join(p.Dir, f), nil, mode)
				if err != nil {
					res[i].err = err
					return
				}
				if !body {
					for _, d := range af.Decls {
						if fd, ok := d.(*ast.FuncDecl); ok {
							fd.Body = nil
						}
					}
				}
				res[i].files = append(res[i].files, af)
			}
		}()
	}
	wg.Wait()
	tp := map[string]*types.Package{"unsafe": types.Unsafe}
	L.prog = ssa.NewProgram(L.fset, ssa.InstantiateGenerics)
	var built []*ssa.Package
	for i, p := range L.order {
		if p.ImportPath == "unsafe" {
			L.prog.CreatePackage(types.Unsafe, nil, nil, true)
			continue
		}
		if res[i].err != nil {
			return nil, res[i].err
		}
		body := !p.Standard || bodyPkgs[p.ImportPath]
		info := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
			Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
		}
		var firstErr error
		conf := types.Config{
			Importer: importerFunc(func(path string) (*types.Package, error) {
				if m, ok := p.ImportMap[path]; ok {
					path = m
				}
				if t := tp[path]; t != nil {
					return t, nil
				}
				return nil, fmt.Errorf("no package %s", path)
			}),
			Sizes: types.SizesFor("gc", "amd64"),
			Error: func(err error) {
				if firstErr == nil {
					firstErr = err
				}
			},
		}
		if p.Module != nil && p.Module.GoVersion != "" {
			conf.GoVersion = "go" + p.Module.GoVersion
		}
		pkg, _ := conf.Check(p.ImportPath, L.fset, res[i].files, info)
		if firstErr != nil && body {
			return nil, fmt.Errorf("typecheck %s: %v", p.ImportPath, firstErr)
		}
		tp[p.ImportPath] = pkg
		sp := L.prog.CreatePackage(pkg, res[i].files, info, true)
		L.pkgs[p.ImportPath] = sp
		if body {
			built = append(built, sp)
		}
		if p.ImportPath == "vh/hs" {
			L.hsFiles = res[i].files
		}
		if len(p.EmbedFiles) > 0 {
			L.findEmbeds(p, sp, res[i].files)
		}
	}
	for _, sp := range built {
		sp.Build()
	}
	return L, nil
}

type importerFunc func(path string) (*types.Package, error)

func (f importerFunc) Import(path string) (*types.Package, error) { return f(path) }

// findEmbeds records string/[]byte variables initialised by //go:embed of a single file.
func (L *Loaded) findEmbeds(p *listPkg, sp *ssa.Package, files []*ast.File) {
	for _, f := range files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				docs := []*ast.CommentGroup{vs.Doc}
				if len(gd.Specs) == 1 {
					docs = append(docs, gd.Doc)
				}
				for _, doc := range docs {
					if doc == nil {
						continue
					}
					for _, c := range doc.List {
						if !strings.HasPrefix(c.Text, "//go:embed ") || len(vs.Names) != 1 {
							continue
						}
						pat := strings.Fields(strings.TrimPrefix(c.Text, "//go:embed "))
						if len(pat) != 1 {
							continue
						}
						data, err := os.ReadFile(filepath.Join(p.Dir, strings.Trim(pat[0], "\"`")))
						if err != nil {
							continue
						}
						if g, ok := sp.Members[vs.Names[0].Name].(*ssa.Global); ok {
							L.embed[g] = string(data)
						}
					}
				}
			}
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
