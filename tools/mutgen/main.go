// mutgen lists small syntactic changes of Go files, as JSON lines {file, off, end, new, desc}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Desc string `json:"desc"`
}

var bin = map[token.Token][]string{token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.LSS: {"<="}, token.LEQ: {"<"},
	token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"},
	token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"}, token.REM: {"/"}}

var idents = map[string][]string{"levelQ": {"levelP"}, "levelP": {"levelQ"}, "ringQ": {"ringP"}, "ringP": {"ringQ"}, "ctIn": {"ctOut"}, "ctOut": {"ctIn"},
	"ct0": {"ctOut"}, "op0": {"op1"}, "op1": {"op0"}, "sk": nil, "RingQ": {"RingP"}, "RingP": {"RingQ"}, "c0": {"c1"}, "c1": {"c0"}, "i": {"j", "0"}, "j": {"i"}, "level": {"0"},
	"p1": {"p2"}, "p2": {"p1"}, "p0": {"p1"}, "min": {"max"}, "Min": {"Max"}, "MinInt": {"MaxInt"}, "true": {"false"}, "false": {"true"},
	"NTTLvl": {"NTTLazyLvl"}, "InvNTTLvl": {"InvNTTLazyLvl"}, "NTT": {"NTTLazy"}, "MaxLevel": {"QCount"}}

func main() {
	for _, fn := range os.Args[1:] {
		src, _ := os.ReadFile(fn)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, src, 0)
		if err != nil {
			panic(err)
		}
		enc := json.NewEncoder(os.Stdout)
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		fun := ""
		add := func(a, b token.Pos, n, d string) {
			l := fs.Position(a).Line
			enc.Encode(mut{fn, off(a), off(b), n, fmt.Sprintf("%d %s: %s", l, fun, d)})
		}
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fun = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, o := range bin[x.Op] {
						add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, txt(x)+" -> "+o)
					}
				case *ast.BasicLit:
					if x.Kind == token.INT && len(x.Value) < 20 {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							add(x.Pos(), x.End(), fmt.Sprint(v+1), x.Value+" -> +1")
							if v > 0 {
								add(x.Pos(), x.End(), fmt.Sprint(v-1), x.Value+" -> -1")
							}
						}
					}
				case *ast.Ident:
					for _, o := range idents[x.Name] {
						add(x.Pos(), x.End(), o, x.Name+" -> "+o)
					}
				case *ast.ExprStmt:
					if c, ok := x.X.(*ast.CallExpr); ok {
						if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
							return true
						}
						add(x.Pos(), x.End(), "", "delete "+txt(x))
					}
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						add(x.Pos(), x.End(), "", "delete "+txt(x))
					}
				case *ast.IfStmt:
					if x.Init == nil {
						add(x.Cond.Pos(), x.Cond.End(), "(true || ("+txt(x.Cond)+"))", "always "+txt(x.Cond))
						add(x.Cond.Pos(), x.Cond.End(), "(false && ("+txt(x.Cond)+"))", "never "+txt(x.Cond))
					}
				case *ast.CallExpr:
					for i := 0; i+1 < len(x.Args); i++ {
						a, b := x.Args[i], x.Args[i+1]
						if txt(a) != txt(b) {
							add(a.Pos(), b.End(), txt(b)+", "+txt(a), "swap in "+txt(x))
						}
					}
				}
				return true
			})
		}
	}
}
