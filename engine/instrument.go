package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

// instrument adds a yield call in front of every statement of the repository's
// library code (in an overlay only) so that a concurrency counterexample found
// by the solver is easy to provoke natively.
func instrument(dir string, rep map[string]string, schedule []string) (map[string]string, error) {
	out := map[string]string{}
	hot := map[string]bool{}
	for _, l := range schedule {
		if i := strings.LastIndex(l, " "); i >= 0 {
			hot[l[i+1:]] = true // file:line relative to the repository
		}
	}
	for k, v := range rep {
		out[k] = v
	}
	n := 0
	for _, sub := range []string{"emerge", "internal", "client", "simulations/emerge/simulation"} {
		filepath.Walk(filepath.Join(repoDir, sub), func(p string, st os.FileInfo, err error) error {
			if err != nil || st.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || strings.Contains(p, "zzverif") {
				return nil
			}
			fs := token.NewFileSet()
			f, err := parser.ParseFile(fs, p, nil, 0)
			if err != nil {
				return nil
			}
			changed := false
			rel := strings.TrimPrefix(p, repoDir+"/")
			y := func(s ast.Stmt) ast.Stmt {
				from, to := s.Pos(), s.End()
				switch x := s.(type) {
				case *ast.IfStmt:
					to = x.Body.Pos()
				case *ast.ForStmt:
					to = x.Body.Pos()
				case *ast.RangeStmt:
					to = x.Body.Pos()
				case *ast.SwitchStmt:
					to = x.Body.Pos()
				case *ast.TypeSwitchStmt:
					to = x.Body.Pos()
				case *ast.SelectStmt:
					to = x.Body.Pos()
				}
				name := "Y"
				for l := fs.Position(from).Line; l <= fs.Position(to).Line; l++ {
					if hot[fmt.Sprintf("%s:%d", rel, l)] {
						name = "H"
					}
				}
				return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("zzvrt"), Sel: ast.NewIdent(name)}}}
			}
			weave := func(l []ast.Stmt) []ast.Stmt {
				var o []ast.Stmt
				for _, s := range l {
					o = append(o, y(s), s)
				}
				changed = changed || len(l) > 0
				return o
			}
			ast.Inspect(f, func(nd ast.Node) bool {
				switch x := nd.(type) {
				case *ast.BlockStmt:
					isCases := false
					for _, s := range x.List {
						switch s.(type) {
						case *ast.CaseClause, *ast.CommClause:
							isCases = true
						}
					}
					if !isCases {
						x.List = weave(x.List)
					}
				case *ast.CaseClause:
					x.Body = weave(x.Body)
				case *ast.CommClause:
					x.Body = weave(x.Body)
				}
				return true
			})
			if !changed {
				return nil
			}
			imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("zzvrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"` + vrtPath + `"`}}}}
			f.Decls = append([]ast.Decl{imp}, f.Decls...)
			var b bytes.Buffer
			if err := printer.Fprint(&b, fs, f); err != nil {
				return nil
			}
			n++
			dst := filepath.Join(dir, strings.ReplaceAll(strings.TrimPrefix(p, repoDir+"/"), "/", "__"))
			os.WriteFile(dst, b.Bytes(), 0o644)
			out[p] = dst
			return nil
		})
	}
	return out, nil
}
