// mutate lists or applies small changes of a Go file, to test the checks.
//
//	mutate count FILE            number of mutants
//	mutate apply FILE N          writes the file with mutant N to stdout, its description to stderr
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	at   token.Pos
	what string
	do   func()
}

func main() {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[2], nil, parser.ParseComments)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var ms []mut
	add := func(at token.Pos, what string, do func()) { ms = append(ms, mut{at, what, do}) }
	fn := ""
	str := func(n ast.Node) string {
		var b bytes.Buffer
		format.Node(&b, fset, n)
		s := b.String()
		s = strings.ReplaceAll(s, "\n", " ")
		if len(s) > 90 {
			s = s[:90] + "..."
		}
		return s
	}
	stmts := func(list []ast.Stmt, set func(int, ast.Stmt)) {
		for i, s := range list {
			i, s := i, s
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt:
				add(s.Pos(), fn+": delete "+str(s), func() { set(i, &ast.EmptyStmt{Semicolon: s.Pos(), Implicit: false}) })
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					add(s.Pos(), fn+": delete "+str(s), func() { set(i, &ast.EmptyStmt{Semicolon: s.Pos(), Implicit: false}) })
				}
			case *ast.BranchStmt:
				if x.Label == nil && x.Tok == token.CONTINUE {
					add(s.Pos(), fn+": continue->break", func() { x.Tok = token.BREAK })
				} else if x.Label == nil && x.Tok == token.BREAK {
					add(s.Pos(), fn+": break->continue", func() { x.Tok = token.CONTINUE })
				}
			case *ast.IfStmt:
				if x.Else == nil {
					add(s.Pos(), fn+": if false: "+str(x.Cond), func() {
						x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.Cond}, Op: token.LAND, Y: ast.NewIdent("false")}
					})
				}
				add(s.Pos(), fn+": if true: "+str(x.Cond), func() {
					x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.Cond}, Op: token.LOR, Y: ast.NewIdent("true")}
				})
			}
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		fn = fd.Name.Name
		ast.Inspect(fd, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				stmts(x.List, func(i int, s ast.Stmt) { x.List[i] = s })
			case *ast.CaseClause:
				stmts(x.Body, func(i int, s ast.Stmt) { x.Body[i] = s })
			case *ast.BinaryExpr:
				old := x.Op
				var to []token.Token
				switch old {
				case token.LSS:
					to = []token.Token{token.LEQ, token.GTR}
				case token.LEQ:
					to = []token.Token{token.LSS}
				case token.GTR:
					to = []token.Token{token.GEQ, token.LSS}
				case token.GEQ:
					to = []token.Token{token.GTR}
				case token.EQL:
					to = []token.Token{token.NEQ}
				case token.NEQ:
					to = []token.Token{token.EQL}
				case token.LAND:
					to = []token.Token{token.LOR}
				case token.LOR:
					to = []token.Token{token.LAND}
				case token.ADD:
					to = []token.Token{token.SUB}
				case token.SUB:
					to = []token.Token{token.ADD}
				case token.MUL:
					to = []token.Token{token.QUO}
				case token.QUO:
					to = []token.Token{token.MUL}
				case token.SHL:
					to = []token.Token{token.SHR}
				case token.SHR:
					to = []token.Token{token.SHL}
				case token.AND:
					to = []token.Token{token.OR}
				case token.OR:
					to = []token.Token{token.AND}
				}
				for _, t := range to {
					t := t
					add(x.OpPos, fmt.Sprintf("%s: %s -> %s in %s", fn, old, t, str(x)), func() { x.Op = t })
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						old := x.Value
						add(x.Pos(), fmt.Sprintf("%s: %s -> %d", fn, old, v+1), func() { x.Value = fmt.Sprint(v + 1) })
						if v > 0 {
							add(x.Pos(), fmt.Sprintf("%s: %s -> %d", fn, old, v-1), func() { x.Value = fmt.Sprint(v - 1) })
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					add(x.Pos(), fn+": true -> false", func() { x.Name = "false" })
				} else if x.Name == "false" {
					add(x.Pos(), fn+": false -> true", func() { x.Name = "true" })
				}
			}
			return true
		})
	}
	switch os.Args[1] {
	case "count":
		fmt.Println(len(ms))
	case "list":
		for i, m := range ms {
			fmt.Printf("%d:%d: %s\n", i, fset.Position(m.at).Line, m.what)
		}
	case "apply":
		n, _ := strconv.Atoi(os.Args[3])
		fmt.Fprintf(os.Stderr, "%d: %s\n", fset.Position(ms[n].at).Line, ms[n].what)
		ms[n].do()
		if err := format.Node(os.Stdout, fset, f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
}
