// mutgenc lists changes that skip a statement when a condition on the parameters of the function holds (equal or small
// operands, several limbs, large degrees, ...), as JSON lines like those of mutgen.  Run in the repository's directory.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Desc string `json:"desc"`
}

func main() {
	for _, fn := range os.Args[1:] {
		one(fn)
	}
}

func one(fn string) {
	fs := token.NewFileSet()
	all, _ := filepath.Glob(filepath.Join(filepath.Dir(fn), "*.go"))
	var files []*ast.File
	var this *ast.File
	for _, x := range all {
		if strings.HasSuffix(x, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fs, x, nil, 0)
		if err != nil {
			panic(err)
		}
		files = append(files, f)
		if filepath.Base(x) == filepath.Base(fn) {
			this = f
		}
	}
	info := &types.Info{Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Types: map[ast.Expr]types.TypeAndValue{}, Scopes: map[ast.Node]*types.Scope{}}
	cfg := types.Config{Importer: importer.ForCompiler(fs, "source", nil), Error: func(error) {}}
	cfg.Check(filepath.Base(filepath.Dir(fn)), fs, files, info)
	enc := json.NewEncoder(os.Stdout)
	for _, d := range this.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		add := func(n ast.Node, new, old string) {
			p := fs.Position(n.Pos())
			enc.Encode(mut{fn, p.Offset, fs.Position(n.End()).Offset, new, fmt.Sprintf("%d %s: skipped if %s", p.Line, fd.Name.Name, old)})
		}
		type par struct {
			name string
			t    types.Type
		}
		var ps []par
		fields := []*ast.FieldList{fd.Type.Params}
		for _, fl := range fields {
			for _, f := range fl.List {
				for _, nm := range f.Names {
					if nm.Name != "_" && info.Defs[nm] != nil {
						ps = append(ps, par{nm.Name, info.Defs[nm].Type()})
					}
				}
			}
		}
		has := func(t types.Type, m string) bool {
			ms := types.NewMethodSet(t)
			for i := 0; i < ms.Len(); i++ {
				o := ms.At(i).Obj()
				if o.Name() == m {
					return o.Type().(*types.Signature).Params().Len() == 0
				}
			}
			return false
		}
		var pred []string
		for i, p := range ps {
			n := p.name
			switch t := p.t.Underlying().(type) {
			case *types.Basic:
				switch t.Kind() {
				case types.Int:
					pred = append(pred, n+" == 0", n+" == 1", n+" >= 3", n+" < 0", n+"&1 == 1")
				case types.Uint64:
					pred = append(pred, n+" == 0", n+"&1 == 1", n+" >= 1<<40", n+" < 64")
				case types.Float64:
					pred = append(pred, n+" < 0", n+" < 1", n+" > 1000")
				case types.Bool:
					pred = append(pred, n, "!"+n)
				}
			case *types.Slice:
				pred = append(pred, "len("+n+") == 1", "len("+n+") >= 3", "len("+n+") >= 2048")
			}
			if strings.HasSuffix(p.t.String(), "ring.Poly") {
				pred = append(pred, "len("+n+".Coeffs) == 1", "len("+n+".Coeffs) >= 4", "len("+n+".Coeffs[0]) >= 2048", n+".IsNTT", "!"+n+".IsNTT")
			}
			if strings.HasSuffix(p.t.String(), "big.Int") {
				pred = append(pred, n+".Sign() < 0", n+".BitLen() > 64", n+".Sign() == 0")
			}
			if has(p.t, "Degree") && !strings.HasSuffix(p.t.String(), "ring.Poly") {
				pred = append(pred, n+".Degree() == 0", n+".Degree() == 2")
			}
			if has(p.t, "Level") {
				pred = append(pred, n+".Level() == 0", n+".Level() >= 2")
			}
			for _, q := range ps[:i] {
				m := q.name
				_, ptr := p.t.Underlying().(*types.Pointer)
				_, ifc := p.t.Underlying().(*types.Interface)
				if types.Identical(p.t, q.t) {
					if b, ok := p.t.Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
						pred = append(pred, n+" == "+m, n+" < "+m, n+" > "+m)
					} else if ptr || ifc {
						pred = append(pred, n+" == "+m)
					} else if _, ok := p.t.Underlying().(*types.Slice); ok {
						pred = append(pred, "len("+n+") > 0 && len("+m+") > 0 && &"+n+"[0] == &"+m+"[0]", "len("+n+") > len("+m+")", "len("+n+") < len("+m+")")
					}
				} else if ptr {
					if _, ok := q.t.Underlying().(*types.Interface); ok {
						pred = append(pred, m+" == Operand("+n+")")
					}
				}
				if has(p.t, "Level") && has(q.t, "Level") {
					pred = append(pred, n+".Level() > "+m+".Level()", n+".Level() < "+m+".Level()")
				}
				if has(p.t, "Degree") && has(q.t, "Degree") && !strings.HasSuffix(p.t.String(), "ring.Poly") && !strings.HasSuffix(q.t.String(), "ring.Poly") {
					pred = append(pred, n+".Degree() > "+m+".Degree()", n+".Degree() < "+m+".Degree()")
				}
				if has(p.t, "ScalingFactor") && has(q.t, "ScalingFactor") {
					pred = append(pred, n+".ScalingFactor() > "+m+".ScalingFactor()", n+".ScalingFactor() < "+m+".ScalingFactor()")
				}
			}
		}
		if len(pred) == 0 {
			continue
		}
		src, _ := os.ReadFile(fn)
		inHead := map[ast.Node]bool{}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ForStmt:
				inHead[x.Init], inHead[x.Post] = true, true
			case *ast.IfStmt:
				inHead[x.Init] = true
			case *ast.SwitchStmt:
				inHead[x.Init] = true
			}
			return true
		})
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			st, ok := n.(ast.Stmt)
			if !ok || inHead[n] {
				return true
			}
			switch x := st.(type) {
			case *ast.AssignStmt:
				if x.Tok == token.DEFINE {
					return true
				}
			case *ast.ExprStmt:
				if c, ok := x.X.(*ast.CallExpr); ok {
					if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
						return true
					}
				}
			case *ast.IncDecStmt, *ast.ForStmt, *ast.RangeStmt:
			default:
				return true
			}
			old := string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset])
			short := old
			if i := strings.IndexByte(short, '\n'); i > 0 {
				short = short[:i]
			}
			for _, p := range pred {
				add(n, "if !("+p+") { "+old+" }", "["+p+"] "+short)
			}
			return true
		})
	}
}
