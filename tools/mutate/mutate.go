// Command mutate lists or applies small changes to a Go file, to look for changes that no check notices.
//
//	mutate FILE          lists: index, function, line, description
//	mutate FILE INDEX    writes the changed file to standard output
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type edit struct {
	from, to int
	text     string
}

type mutant struct {
	fn, what string
	line     int
	edits    []edit
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var out []mutant
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		add := func(n ast.Node, repl, what string) {
			out = append(out, mutant{fd.Name.Name, what, fset.Position(n.Pos()).Line, []edit{{off(n.Pos()), off(n.End()), repl}}})
		}
		short := func(n ast.Node) string {
			t := text(n)
			for i, c := range t {
				if c == '\n' || i > 80 {
					return t[:i]
				}
			}
			return t
		}
		stmts := func(l []ast.Stmt) {
			for _, s := range l {
				switch s := s.(type) {
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						for i, e := range s.Lhs {
							if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
								_ = i
							}
						}
						// keep the names used
						repl := ""
						for _, e := range s.Rhs {
							repl += "_ = " + text(e) + "; "
						}
						add(s, "{ "+repl+"}", "drop: "+short(s))
					}
				case *ast.ExprStmt:
					if _, ok := s.X.(*ast.CallExpr); ok {
						add(s, "", "drop: "+short(s))
					}
				case *ast.IncDecStmt:
					add(s, "", "drop: "+short(s))
				case *ast.BranchStmt:
					if s.Tok == token.CONTINUE || s.Tok == token.BREAK {
						add(s, "", "drop: "+short(s))
					}
				case *ast.DeferStmt:
					add(s, "", "drop: "+short(s))
				}
			}
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
				if len(n.List) > 1 {
					for i, e := range n.List {
						next := off(n.Colon)
						from := off(e.Pos())
						if i+1 < len(n.List) {
							next = off(n.List[i+1].Pos())
						} else {
							from = off(n.List[i-1].End())
						}
						out = append(out, mutant{fd.Name.Name, "drop case: " + short(e), fset.Position(e.Pos()).Line, []edit{{from, next, ""}}})
					}
				}
			case *ast.IfStmt:
				add(n.Cond, "!("+text(n.Cond)+")", "negate: "+short(n.Cond))
				add(n.Cond, "("+text(n.Cond)+") && os_false", "never: "+short(n.Cond))
			case *ast.BinaryExpr:
				switch n.Op {
				case token.LAND, token.LOR:
					add(n, text(n.X), "left only: "+short(n))
					add(n, text(n.Y), "right only: "+short(n))
				case token.LSS:
					add(n, text(n.X)+"<="+text(n.Y), "<=: "+short(n))
				case token.GTR:
					add(n, text(n.X)+">="+text(n.Y), ">=: "+short(n))
				case token.LEQ:
					add(n, text(n.X)+"<"+text(n.Y), "<: "+short(n))
				case token.GEQ:
					add(n, text(n.X)+">"+text(n.Y), ">: "+short(n))
				case token.ADD:
					if l, ok := n.Y.(*ast.BasicLit); ok && l.Kind == token.INT {
						add(n, text(n.X), "no +: "+short(n))
					}
				case token.SUB:
					if l, ok := n.Y.(*ast.BasicLit); ok && l.Kind == token.INT {
						add(n, text(n.X), "no -: "+short(n))
					}
				}
			case *ast.Ident:
				if n.Name == "true" {
					add(n, "false", "true->false")
				} else if n.Name == "false" {
					add(n, "true", "false->true")
				}
			}
			return true
		})
	}
	for i := range out {
		for j, e := range out[i].edits {
			out[i].edits[j].text = replaceAll(e.text)
		}
	}
	if len(os.Args) < 3 {
		for i, m := range out {
			fmt.Printf("%d\t%s\t%d\t%s\n", i, m.fn, m.line, m.what)
		}
		return
	}
	i, _ := strconv.Atoi(os.Args[2])
	e := out[i].edits[0]
	os.Stdout.Write(src[:e.from])
	os.Stdout.WriteString(e.text)
	os.Stdout.Write(src[e.to:])
}

func replaceAll(s string) string {
	const k = "os_false"
	for i := 0; i+len(k) <= len(s); i++ {
		if s[i:i+len(k)] == k {
			return s[:i] + "(len(\"\") > 0)" + s[i+len(k):]
		}
	}
	return s
}
