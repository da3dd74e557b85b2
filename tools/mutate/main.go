// mutate writes syntactic mutants of Go files, one directory per mutant, with a
// description each. A development aid for measuring the checks; no check uses it.
//
//	mutate OUTDIR FILE...
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

type mut struct {
	pos  token.Pos
	desc string
	do   func()
	undo func()
}

var swaps = map[token.Token][]token.Token{
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL},
	token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS, token.GTR},
	token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR, token.LSS},
	token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD}, token.QUO: {token.MUL},
	token.LAND: {token.LOR}, token.LOR: {token.LAND},
}

func main() {
	out := os.Args[1]
	n := 0
	for _, file := range os.Args[2:] {
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, nil, 0)
		if err != nil {
			panic(err)
		}
		var ms []mut
		fn := ""
		ast.Inspect(f, func(nd ast.Node) bool {
			if d, ok := nd.(*ast.FuncDecl); ok {
				fn = d.Name.Name
				if d.Recv != nil {
					var b bytes.Buffer
					printer.Fprint(&b, fs, d.Recv.List[0].Type)
					fn = b.String() + "." + fn
				}
			}
			name := fn
			add := func(p token.Pos, d string, do, undo func()) {
				ms = append(ms, mut{p, name + ": " + d, do, undo})
			}
			switch x := nd.(type) {
			case *ast.BinaryExpr:
				for _, o := range swaps[x.Op] {
					old, o := x.Op, o
					add(x.OpPos, fmt.Sprintf("%s -> %s", old, o), func() { x.Op = o }, func() { x.Op = old })
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					old := x.Value
					if v, err := strconv.Atoi(old); err == nil {
						add(x.Pos(), old+" -> "+strconv.Itoa(v+1), func() { x.Value = strconv.Itoa(v + 1) }, func() { x.Value = old })
						if v > 0 {
							add(x.Pos(), old+" -> "+strconv.Itoa(v-1), func() { x.Value = strconv.Itoa(v - 1) }, func() { x.Value = old })
						}
					}
				}
				if x.Kind == token.FLOAT {
					old := x.Value
					add(x.Pos(), old+" -> 3.0", func() { x.Value = "3.0" }, func() { x.Value = old })
				}
			case *ast.Ident:
				if x.Name == "true" || x.Name == "false" {
					old := x.Name
					nw := map[string]string{"true": "false", "false": "true"}[old]
					add(x.Pos(), old+" -> "+nw, func() { x.Name = nw }, func() { x.Name = old })
				}
			case *ast.IfStmt:
				old := x.Cond
				add(x.Pos(), "if negated", func() { x.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: old}} }, func() { x.Cond = old })
				add(x.Pos(), "if never", func() {
					x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: old}, Op: token.LAND, Y: ast.NewIdent("false")}
				}, func() { x.Cond = old })
				if x.Else != nil {
					oe := x.Else
					add(x.Pos(), "else dropped", func() { x.Else = nil }, func() { x.Else = oe })
				}
			case *ast.AssignStmt:
				if x.Tok == token.ADD_ASSIGN || x.Tok == token.MUL_ASSIGN || x.Tok == token.SUB_ASSIGN {
					old := x.Tok
					add(x.Pos(), old.String()+" -> =", func() { x.Tok = token.ASSIGN }, func() { x.Tok = old })
				}
			case *ast.CallExpr:
				if len(x.Args) == 2 {
					a, b := x.Args[0], x.Args[1]
					add(x.Pos(), "arguments swapped", func() { x.Args[0], x.Args[1] = b, a }, func() { x.Args[0], x.Args[1] = a, b })
				}
				if s, ok := x.Fun.(*ast.SelectorExpr); ok {
					for _, pr := range [][2]string{{"Plus", "Minus"}, {"Minus", "Plus"}, {"LessEq", "GreaterEq"}, {"GreaterEq", "LessEq"}, {"Left", "Right"}, {"Right", "Left"}} {
						if s.Sel.Name == pr[0] {
							s, pr := s, pr
							add(s.Sel.Pos(), pr[0]+" -> "+pr[1], func() { s.Sel.Name = pr[1] }, func() { s.Sel.Name = pr[0] })
						}
					}
					if (s.Sel.Name == "Copy" || s.Sel.Name == "AsSimplifiedExpression") && len(x.Args) == 0 {
						of := x.Fun
						oa := x.Args
						_ = oa
						// x.Copy() -> (x)
						add(s.Sel.Pos(), s.Sel.Name+" dropped", func() { x.Fun = ast.NewIdent("mutID"); x.Args = []ast.Expr{s.X} }, func() { x.Fun = of; x.Args = nil })
					}
				}
			case *ast.RangeStmt:
				b := x.Body.List
				if len(b) > 0 {
					add(x.Pos(), "loop ends after first round", func() {
						x.Body.List = append(append([]ast.Stmt{}, b...), &ast.BranchStmt{Tok: token.BREAK})
					}, func() { x.Body.List = b })
					add(x.Pos(), "loop body dropped", func() { x.Body.List = nil }, func() { x.Body.List = b })
				}
			case *ast.BlockStmt:
				list := x.List
				for i, s := range list {
					switch q := s.(type) {
					case *ast.ExprStmt:
					case *ast.AssignStmt:
						if q.Tok == token.DEFINE {
							continue
						}
					case *ast.BranchStmt:
					case *ast.IncDecStmt:
					default:
						continue
					}
					i := i
					add(s.Pos(), "statement dropped", func() {
						x.List = append(append([]ast.Stmt{}, list[:i]...), list[i+1:]...)
					}, func() { x.List = list })
				}
			}
			return true
		})
		for _, m := range ms {
			m.do()
			var b bytes.Buffer
			if err := printer.Fprint(&b, fs, f); err == nil {
				d := filepath.Join(out, fmt.Sprintf("%05d", n))
				os.MkdirAll(d, 0o755)
				src := b.String()
				if bytes.Contains(b.Bytes(), []byte("mutID(")) {
					src += "\nfunc mutID[T any](x T) T { return x }\n"
				}
				os.WriteFile(filepath.Join(d, "m.go"), []byte(src), 0o644)
				p := fs.Position(m.pos)
				os.WriteFile(filepath.Join(d, "desc"), []byte(fmt.Sprintf("%s\n%s:%d %s\n", file, filepath.Base(file), p.Line, m.desc)), 0o644)
				n++
			}
			m.undo()
		}
	}
	fmt.Println(n, "mutants")
}
