package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// noiseOverlay instruments every statement of the module at root with a random yield, on the line
// where the statement begins, and returns an overlay for go build. Replays of schedule-dependent
// candidates use it: yields reorder goroutines but never synchronise them.
func noiseOverlay(root, dir string) (string, error) {
	repl := map[string]string{}
	n := 0
	done := map[string]bool{}
	err := filepath.WalkDir(root, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			if b := d.Name(); p != root && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			return nil // the ordinary build reports it
		}
		var at []int
		list := func(l []ast.Stmt) {
			for _, s := range l {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt, *ast.LabeledStmt:
					continue
				}
				at = append(at, fset.Position(s.Pos()).Offset)
			}
		}
		ast.Inspect(f, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			}
			return true
		})
		sort.Ints(at)
		var sb strings.Builder
		last := 0
		for _, o := range at {
			sb.Write(src[last:o])
			sb.WriteString("vhYield();")
			last = o
		}
		sb.Write(src[last:])
		n++
		out := filepath.Join(dir, fmt.Sprintf("noise%d.go", n))
		if err := os.WriteFile(out, []byte(sb.String()), 0o644); err != nil {
			return err
		}
		repl[p] = out
		pd := filepath.Dir(p)
		if !done[pd] {
			done[pd] = true
			y := filepath.Join(dir, fmt.Sprintf("yield%d.go", n))
			code := "package " + f.Name.Name + `

import (
	"math/rand/v2"
	"runtime"
	"time"
)

func vhYield() {
	switch n := rand.Uint32(); {
	case n&1023 == 0:
		time.Sleep(time.Duration(n>>24) * time.Microsecond)
	case n&63 == 0:
		runtime.Gosched()
	}
}
`
			if err := os.WriteFile(y, []byte(code), 0o644); err != nil {
				return err
			}
			repl[filepath.Join(pd, "zz_vhyield.go")] = y
		}
		return nil
	})
	if err != nil {
		return "", err
	}
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	o := filepath.Join(dir, "overlay.json")
	return o, os.WriteFile(o, b, 0o644)
}
