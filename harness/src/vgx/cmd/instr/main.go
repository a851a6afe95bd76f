// instr copies a Go package, giving it a scheduling point before every
// statement and swapping sync and sync/atomic for their controlled stand-ins.
//
// usage: instr LEVEL SRCDIR DSTDIR   (level 2: everything; 2t: and sleeping; 1: imports only)
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

func main() {
	level, src, dst := os.Args[1], os.Args[2], os.Args[3]
	names, err := filepath.Glob(filepath.Join(src, "*.go"))
	must(err)
	must(os.MkdirAll(dst, 0755))
	for _, n := range names {
		base := filepath.Base(n)
		if strings.HasSuffix(base, "_test.go") {
			continue
		}
		if ok, err := build.Default.MatchFile(src, base); err != nil || !ok {
			continue
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, n, nil, 0)
		must(err)
		used := false
		for _, im := range f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			if p == "sync" || p == "sync/atomic" || p == "time" && level == "2t" {
				if im.Name == nil {
					im.Name = ast.NewIdent(filepath.Base(p))
				}
				im.Path.Value = strconv.Quote("vgx/sched/" + filepath.Base(p))
			}
		}
		if level[0] == '2' {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil && fd.Name.Name != "init" {
					instrument(fd.Body)
					used = true
				}
			}
		}
		var out bytes.Buffer
		must((&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&out, token.NewFileSet(), f))
		s := out.String()
		if used {
			i := strings.Index(s, "package "+f.Name.Name)
			j := i + strings.IndexByte(s[i:], '\n')
			s = s[:j+1] + "import gxsched \"vgx/sched\"\n" + s[j+1:]
		}
		must(os.WriteFile(filepath.Join(dst, base), []byte(s), 0644))
	}
}

func yield() ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("gxsched"), Sel: ast.NewIdent("Yield")}}}
}

func instrument(b *ast.BlockStmt) {
	ast.Inspect(b, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			x.List = list(x.List, true)
		case *ast.CaseClause:
			x.Body = list(x.Body, false)
		case *ast.CommClause:
			x.Body = list(x.Body, false)
		}
		return true
	})
}

func list(in []ast.Stmt, always bool) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause: // the body of a switch: not statements
			return in
		}
		out = append(out, yield(), split(s))
	}
	if len(in) == 0 && always {
		out = append(out, yield())
	}
	return out
}

// split puts a point between reading and writing shared memory.
func split(s ast.Stmt) ast.Stmt {
	set := func(l, r ast.Expr) ast.Stmt {
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("gxsched"), Sel: ast.NewIdent("Set")},
			Args: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: l}, r}}}
	}
	shared := func(e ast.Expr) bool {
		switch e.(type) {
		case *ast.SelectorExpr, *ast.StarExpr:
			return true
		}
		return false
	}
	switch x := s.(type) {
	case *ast.IncDecStmt:
		if shared(x.X) {
			op := token.ADD
			if x.Tok == token.DEC {
				op = token.SUB
			}
			return set(x.X, &ast.BinaryExpr{X: x.X, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}})
		}
	case *ast.AssignStmt:
		if len(x.Lhs) == 1 && len(x.Rhs) == 1 && shared(x.Lhs[0]) && x.Tok != token.DEFINE {
			if x.Tok == token.ASSIGN {
				return set(x.Lhs[0], x.Rhs[0])
			}
			op := x.Tok - token.ADD_ASSIGN + token.ADD
			return set(x.Lhs[0], &ast.BinaryExpr{X: x.Lhs[0], Op: op, Y: &ast.ParenExpr{X: x.Rhs[0]}})
		}
	}
	return s
}

func must(err error) {
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
}
