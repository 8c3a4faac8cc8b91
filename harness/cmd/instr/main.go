// Command instr writes copies of the library's source files in which a call to
// vsched.P precedes every statement, together with a go build overlay.
//
// usage: instr REPO OUTDIR
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

var (
	fset  = token.NewFileSet()
	sites []string
)

func point(pos token.Pos) ast.Stmt {
	id := len(sites)
	p := fset.Position(pos)
	sites = append(sites, fmt.Sprintf("%s:%d", p.Filename, p.Line))
	return &ast.ExprStmt{X: &ast.CallExpr{
		Fun:  &ast.SelectorExpr{X: ast.NewIdent("vschedPt"), Sel: ast.NewIdent("P")},
		Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(id)}},
	}}
}

func list(l []ast.Stmt, end token.Pos, tail bool) (r []ast.Stmt) {
	for _, s := range l {
		if _, empty := s.(*ast.EmptyStmt); !empty {
			r = append(r, point(s.Pos()))
		}
		if b, ok := s.(*ast.BlockStmt); ok {
			b.List = list(b.List, 0, false)
		}
		r = append(r, s)
	}
	if tail {
		r = append(r, point(end))
	}
	return
}

func terminating(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	switch s := l[len(l)-1].(type) {
	case *ast.ReturnStmt, *ast.BranchStmt:
		return true
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
				return true
			}
		}
	}
	return false
}

func funcBody(t *ast.FuncType, b *ast.BlockStmt) {
	if b == nil {
		return
	}
	tail := t.Results == nil && !terminating(b.List)
	b.List = list(b.List, b.Rbrace, tail)
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	overlay := map[string]string{}
	err := filepath.Walk(repo, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		base := filepath.Base(path)
		if info.IsDir() {
			if path != repo && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(base, ".go") || strings.HasSuffix(base, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(fset, path, nil, parser.ParseComments)
		if err != nil {
			return err
		}
		before := len(sites)
		// drop all comments except those before the package clause: the
		// printer would otherwise misplace them
		var keep []*ast.CommentGroup
		for _, c := range f.Comments {
			if c.End() < f.Package {
				keep = append(keep, c)
			}
		}
		f.Comments = keep
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.GenDecl:
				n.Doc = nil
			case *ast.Field:
				n.Doc, n.Comment = nil, nil
			case *ast.ValueSpec:
				n.Doc, n.Comment = nil, nil
			case *ast.TypeSpec:
				n.Doc, n.Comment = nil, nil
			case *ast.ImportSpec:
				n.Doc, n.Comment = nil, nil
			case *ast.FuncDecl:
				n.Doc = nil
				if n.Name.Name == "P" && n.Recv == nil {
					return true
				}
			}
			return true
		})
		// collect first, then rewrite: rewriting must not visit new nodes
		var fns []func()
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				if n.Body != nil {
					fns = append(fns, func() { funcBody(n.Type, n.Body) })
				}
			case *ast.FuncLit:
				fns = append(fns, func() { funcBody(n.Type, n.Body) })
			case *ast.IfStmt:
				fns = append(fns, func() { n.Body.List = list(n.Body.List, 0, false) })
				if b, ok := n.Else.(*ast.BlockStmt); ok {
					fns = append(fns, func() { b.List = list(b.List, 0, false) })
				}
			case *ast.ForStmt:
				fns = append(fns, func() { n.Body.List = list(n.Body.List, 0, false) })
			case *ast.RangeStmt:
				fns = append(fns, func() { n.Body.List = list(n.Body.List, 0, false) })
			case *ast.CaseClause:
				fns = append(fns, func() { n.Body = list(n.Body, 0, false) })
			case *ast.CommClause:
				fns = append(fns, func() { n.Body = list(n.Body, 0, false) })
			}
			return true
		})
		for _, fn := range fns {
			fn()
		}
		if len(sites) == before {
			return nil
		}
		imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{
			Name: ast.NewIdent("vschedPt"),
			Path: &ast.BasicLit{Kind: token.STRING, Value: `"pargoverif/vsched"`},
		}}}
		f.Decls = append([]ast.Decl{imp}, f.Decls...)
		rel, _ := filepath.Rel(repo, path)
		dst := filepath.Join(out, strings.ReplaceAll(rel, "/", "__"))
		w, err := os.Create(dst)
		if err != nil {
			return err
		}
		if err := printer.Fprint(w, fset, f); err != nil {
			return err
		}
		w.Close()
		overlay[path] = dst
		return nil
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": overlay})
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
	os.WriteFile(filepath.Join(out, "sites.txt"), []byte(strings.Join(sites, "\n")+"\n"), 0o644)
	fmt.Println(len(sites), "points")
}
