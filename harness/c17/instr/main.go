// instr writes copies of the library's sources with a call of verifyield.Y before their statements, and the
// overlay that makes the go command build them in place of the originals.
//
// usage: instr REPO OUTDIR
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const yield = `// Package verifyield is the hook of the scheduler of the verification.
package verifyield

// Hook is called at every yield point.
var Hook func(site int32)

// Y is a yield point.
func Y(site int32) {
	if h := Hook; h != nil {
		h(site)
	}
}

// Spawns tells whether the library starts goroutines.
const Spawns = %v
`

// coarse files hold the vector kernels: only their outermost statements are yield points.
var coarse = map[string]bool{"ring_vector_ops.go": true, "ckks_vector_ops.go": true, "ring_ntt.go": true, "ring_ntt_interface.go": true, "ring_operations.go": true}

// tiny leaf functions are not instrumented at all.
var leaf = map[string]bool{"modular_reduction.go": true, "int.go": true, "complex128.go": true}

func main() {
	repo, out := os.Args[1], os.Args[2]
	rep := map[string]string{}
	site := 0
	var names []string
	for _, pkg := range []string{"utils", "ring", "rlwe", "ckks", "frlwe", "fckks"} {
		files, _ := filepath.Glob(filepath.Join(repo, pkg, "*.go"))
		sort.Strings(files)
		os.MkdirAll(filepath.Join(out, pkg), 0o755)
		for _, f := range files {
			b := filepath.Base(f)
			if strings.HasSuffix(b, "_test.go") || leaf[b] {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				panic(err)
			}
			res := instrument(b, src, pkg, &site, &names)
			dst := filepath.Join(out, pkg, b)
			if err := os.WriteFile(dst, res, 0o644); err != nil {
				panic(err)
			}
			rep[f] = dst
		}
	}
	os.MkdirAll(filepath.Join(out, "verifyield"), 0o755)
	y := filepath.Join(out, "verifyield", "y.go")
	os.WriteFile(y, []byte(fmt.Sprintf(yield, spawns)), 0o644)
	rep[filepath.Join(repo, "verifyield", "y.go")] = y
	j, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644)
	os.WriteFile(filepath.Join(out, "sites.txt"), []byte(strings.Join(names, "\n")), 0o644)
}

var spawns bool

func instrument(base string, src []byte, pkg string, site *int, names *[]string) []byte {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, base, src, parser.SkipObjectResolution)
	if err != nil {
		// the build reports it
		return src
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if _, ok := n.(*ast.GoStmt); ok {
			spawns = true
		}
		return true
	})
	at := map[int]string{}
	add := func(p token.Pos, fn string) {
		o := fs.Position(p).Offset
		if _, ok := at[o]; ok {
			return
		}
		at[o] = fmt.Sprintf("verifyield.Y(%d); ", *site)
		*names = append(*names, fmt.Sprintf("%s/%s:%d %s", pkg, base, fs.Position(p).Line, fn))
		*site++
	}
	list := func(l []ast.Stmt, fn string) {
		for _, s := range l {
			add(s.Pos(), fn)
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || fd.Name.Name == "init" {
			continue
		}
		if coarse[base] {
			list(fd.Body.List, fd.Name.Name)
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool { return visit(n, list, fd.Name.Name) })
	}
	if len(at) == 0 {
		return src
	}
	at[fs.Position(f.Name.End()).Offset] = `; import verifyield "fast-ksw/verifyield"`
	var offs []int
	for o := range at {
		offs = append(offs, o)
	}
	sort.Ints(offs)
	var out []byte
	last := 0
	for _, o := range offs {
		out = append(out, src[last:o]...)
		out = append(out, at[o]...)
		last = o
	}
	return append(out, src[last:]...)
}

// visit instruments the blocks; the bodies of switches are made of clauses, which are not statements.
func visit(n ast.Node, list func([]ast.Stmt, string), fn string) bool {
	switch s := n.(type) {
	case *ast.BlockStmt:
		ok := true
		for _, st := range s.List {
			switch st.(type) {
			case *ast.CaseClause, *ast.CommClause:
				ok = false
			}
		}
		if ok {
			list(s.List, fn)
		}
	case *ast.CaseClause:
		list(s.Body, fn)
	case *ast.CommClause:
		list(s.Body, fn)
	}
	return true
}
