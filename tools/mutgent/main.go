// mutgent lists changes that exchange an identifier, field, method or function for another one of the same type, as
// JSON lines like those of mutgen.  Run in the repository's directory.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Desc string `json:"desc"`
}

func main() {
	for _, fn := range os.Args[1:] {
		one(fn)
	}
}

func one(fn string) {
	fs := token.NewFileSet()
	all, _ := filepath.Glob(filepath.Join(filepath.Dir(fn), "*.go"))
	var files []*ast.File
	var this *ast.File
	for _, x := range all {
		if strings.HasSuffix(x, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fs, x, nil, 0)
		if err != nil {
			panic(err)
		}
		files = append(files, f)
		if filepath.Base(x) == filepath.Base(fn) {
			this = f
		}
	}
	info := &types.Info{Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Types: map[ast.Expr]types.TypeAndValue{}, Scopes: map[ast.Node]*types.Scope{}}
	cfg := types.Config{Importer: importer.ForCompiler(fs, "source", nil), Error: func(error) {}}
	pkg, _ := cfg.Check(filepath.Base(filepath.Dir(fn)), fs, files, info)
	enc := json.NewEncoder(os.Stdout)
	for _, d := range this.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		add := func(n ast.Node, new, old string) {
			p := fs.Position(n.Pos())
			enc.Encode(mut{fn, p.Offset, fs.Position(n.End()).Offset, new, fmt.Sprintf("%d %s: %s -> %s", p.Line, fd.Name.Name, old, new)})
		}
		lhs := map[ast.Node]bool{}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					if id, ok := l.(*ast.Ident); ok {
						lhs[id] = true
					}
				}
			case *ast.RangeStmt:
				lhs[x.Key], lhs[x.Value] = true, true
			case *ast.SelectorExpr:
				s := info.Selections[x]
				if s == nil {
					// a function of another package
					if o, ok := info.Uses[x.Sel].(*types.Func); ok && o.Pkg() != nil && o.Pkg() != pkg {
						for _, nm := range o.Pkg().Scope().Names() {
							if g, ok := o.Pkg().Scope().Lookup(nm).(*types.Func); ok && g != o && g.Exported() && types.Identical(g.Type(), o.Type()) {
								add(x.Sel, nm, o.Name())
							}
						}
					}
					lhs[x.Sel] = true
					return true
				}
				lhs[x.Sel] = true
				t := s.Recv()
				switch s.Kind() {
				case types.FieldVal:
					u := t.Underlying()
					if p, ok := u.(*types.Pointer); ok {
						u = p.Elem().Underlying()
					}
					if st, ok := u.(*types.Struct); ok {
						for i := 0; i < st.NumFields(); i++ {
							f := st.Field(i)
							if f.Name() != x.Sel.Name && types.Identical(f.Type(), s.Obj().Type()) {
								add(x.Sel, f.Name(), "."+x.Sel.Name)
							}
						}
					}
				case types.MethodVal:
					if _, ok := t.(*types.Pointer); !ok {
						if _, ok := t.Underlying().(*types.Interface); !ok {
							t = types.NewPointer(t)
						}
					}
					ms := types.NewMethodSet(t)
					sig := s.Obj().Type().(*types.Signature)
					for i := 0; i < ms.Len(); i++ {
						o := ms.At(i).Obj()
						if o.Name() == x.Sel.Name || !o.Exported() && o.Pkg() != pkg {
							continue
						}
						g := o.Type().(*types.Signature)
						if types.Identical(g.Params(), sig.Params()) && types.Identical(g.Results(), sig.Results()) {
							add(x.Sel, o.Name(), "."+x.Sel.Name)
						}
					}
				}
			case *ast.Ident:
				o := info.Uses[x]
				if o == nil || lhs[x] {
					return true
				}
				switch v := o.(type) {
				case *types.Var:
					if v.IsField() {
						return true
					}
					seen := map[string]bool{x.Name: true}
					var names []string
					for sc := pkg.Scope().Innermost(x.Pos()); sc != nil && sc != pkg.Scope() && sc != types.Universe; sc = sc.Parent() {
						for _, nm := range sc.Names() {
							p := sc.Lookup(nm)
							pv, ok := p.(*types.Var)
							if ok && !seen[nm] && p.Pos() < x.Pos() && types.Identical(pv.Type(), v.Type()) {
								names = append(names, nm)
							}
							seen[nm] = true
						}
					}
					sort.Strings(names)
					for _, nm := range names {
						if nm != "_" {
							add(x, nm, x.Name)
						}
					}
				case *types.Func:
					if v.Pkg() == pkg {
						for _, nm := range pkg.Scope().Names() {
							if g, ok := pkg.Scope().Lookup(nm).(*types.Func); ok && g != v && types.Identical(g.Type(), v.Type()) {
								add(x, nm, x.Name)
							}
						}
					}
				}
			}
			return true
		})
	}
}
