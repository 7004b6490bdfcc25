// mutate lists and applies small changes to Go files, to look for gaps in the
// checks: mutate FILE... prints one line per mutant; mutate -apply N FILE
// writes the N-th mutant of FILE over it.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	pos  token.Pos
	what string
	do   func()
}

var swap = map[token.Token][]token.Token{
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL},
	token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR},
	token.LAND: {token.LOR}, token.LOR: {token.LAND},
	token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.SHL: {token.SHR}, token.SHR: {token.SHL},
	token.AND: {token.OR}, token.OR: {token.AND}, token.XOR: {token.OR}, token.MUL: {token.ADD},
}

func isLog(s ast.Stmt) bool {
	e, ok := s.(*ast.ExprStmt)
	if !ok {
		return false
	}
	c, ok := e.X.(*ast.CallExpr)
	if !ok {
		return false
	}
	id, ok := c.Fun.(*ast.Ident)
	return ok && (id.Name == "logf" || id.Name == "panic")
}

func list(fs *token.FileSet, f *ast.File) []mutant {
	var ms []mutant
	add := func(p token.Pos, what string, do func()) { ms = append(ms, mutant{p, what, do}) }
	fn := ""
	inLog := 0
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			fn = x.Name.Name
			if fn == "String" || fn == "logf" || fn == "init" {
				return false
			}
		case *ast.GenDecl:
			if fn == "" && x.Tok != token.CONST && x.Tok != token.VAR {
				return false
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "logf" {
				return false
			}
			if s, ok := x.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "Errorf" || s.Sel.Name == "Sprintf") {
				return false
			}
		case *ast.BinaryExpr:
			for _, op := range swap[x.Op] {
				op, old := op, x.Op
				if x.Op == token.ADD {
					if b, ok := x.X.(*ast.BasicLit); ok && b.Kind == token.STRING {
						continue
					}
				}
				add(x.OpPos, fmt.Sprintf("%s -> %s", old, op), func() { x.Op = op })
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				t := "true"
				if x.Op == token.LOR {
					t = "false"
				}
				add(x.OpPos, "drop left of "+x.Op.String(), func() { x.X = ast.NewIdent(t) })
				add(x.OpPos, "drop right of "+x.Op.String(), func() { x.Y = ast.NewIdent(t) })
			}
		case *ast.IfStmt:
			add(x.Pos(), "if -> false", func() {
				x.Cond = &ast.BinaryExpr{X: ast.NewIdent("false"), Op: token.LAND, Y: &ast.ParenExpr{X: x.Cond}}
			})
			add(x.Pos(), "if -> true", func() {
				x.Cond = &ast.BinaryExpr{X: ast.NewIdent("true"), Op: token.LOR, Y: &ast.ParenExpr{X: x.Cond}}
			})
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, err := strconv.ParseInt(x.Value, 0, 64)
				if err == nil {
					add(x.Pos(), fmt.Sprintf("%d -> %d", v, v+1), func() { x.Value = fmt.Sprint(v + 1) })
				}
			}
		case *ast.BlockStmt:
			for i, s := range x.List {
				i, s := i, s
				if isLog(s) {
					continue
				}
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.BranchStmt:
					add(s.Pos(), "delete statement", func() { x.List[i] = &ast.EmptyStmt{Semicolon: s.Pos()} })
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						add(s.Pos(), "delete assignment", func() {
							// keep the right-hand sides used
							l := []ast.Expr{}
							for range s.Lhs {
								l = append(l, ast.NewIdent("_"))
							}
							s.Tok = token.ASSIGN
							s.Lhs = l
						})
					}
				}
			}
		case *ast.CaseClause:
			for i, s := range x.Body {
				i, s := i, s
				if isLog(s) {
					continue
				}
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt:
					add(s.Pos(), "delete statement", func() { x.Body[i] = &ast.EmptyStmt{Semicolon: s.Pos()} })
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						add(s.Pos(), "delete assignment", func() {
							l := []ast.Expr{}
							for range s.Lhs {
								l = append(l, ast.NewIdent("_"))
							}
							s.Tok = token.ASSIGN
							s.Lhs = l
						})
					}
				}
			}
			for i, e := range x.List {
				i, e := i, e
				if len(x.List) > 1 {
					add(e.Pos(), "drop case", func() { x.List = append(x.List[:i:i], x.List[i+1:]...) })
				}
			}
		case *ast.CompositeLit:
			for i, e := range x.Elts {
				i := i
				if kv, ok := e.(*ast.KeyValueExpr); ok && fn != "" {
					add(kv.Pos(), "drop field", func() { x.Elts = append(x.Elts[:i:i], x.Elts[i+1:]...) })
				}
			}
		case *ast.ReturnStmt:
			if len(x.Results) > 0 {
				if id, ok := x.Results[len(x.Results)-1].(*ast.Ident); ok && id.Name == "err" {
					add(x.Pos(), "return nil error", func() { x.Results[len(x.Results)-1] = ast.NewIdent("nil") })
				}
			}
		}
		return true
	}
	_ = inLog
	ast.Inspect(f, visit)
	return ms
}

func main() {
	apply := flag.Int("apply", -1, "")
	flag.Parse()
	for _, name := range flag.Args() {
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, nil, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		src, _ := os.ReadFile(name)
		lines := strings.Split(string(src), "\n")
		ms := list(fs, f)
		if *apply >= 0 {
			ms[*apply].do()
			var b bytes.Buffer
			if err := format.Node(&b, fs, f); err != nil {
				fmt.Println(err)
				os.Exit(3)
			}
			os.WriteFile(name, b.Bytes(), 0644)
			continue
		}
		for i, m := range ms {
			p := fs.Position(m.pos)
			fmt.Printf("%s\t%d\t%d:%d\t%s\t%s\n", name, i, p.Line, p.Column, m.what, strings.TrimSpace(lines[p.Line-1]))
		}
	}
}
