// dict collects the constants written in the code under test: whatever the
// code treats specially tends to be named in it, so generators draw them as
// sizes, values and pieces of text now and then. It only steers the search;
// what is right is decided by the checks alone.
//
// usage: dict FILE.go... (writes JSON)
package main

import (
	"encoding/json"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"os"
	"sort"
)

const tooMany = 300 // constants of one file: a table

func main() {
	ints, strs := map[int64]bool{}, map[string]bool{}
	for _, f := range os.Args[1:] {
		t, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue
		}
		i, s := map[int64]bool{}, map[string]bool{}
		ast.Inspect(t, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case ast.Expr:
				add(eval(x), i, s)
			}
			return true
		})
		if len(i) <= tooMany {
			for v := range i {
				ints[v] = true
			}
		}
		if len(s) <= tooMany {
			for v := range s {
				strs[v] = true
			}
		}
	}
	var out struct {
		Ints []int64
		Strs []string
	}
	for v := range ints {
		out.Ints = append(out.Ints, v)
	}
	for v := range strs {
		out.Strs = append(out.Strs, v)
	}
	sort.Slice(out.Ints, func(a, b int) bool { return out.Ints[a] < out.Ints[b] })
	sort.Strings(out.Strs)
	json.NewEncoder(os.Stdout).Encode(out)
}

func add(v constant.Value, ints map[int64]bool, strs map[string]bool) {
	if v == nil {
		return
	}
	switch v.Kind() {
	case constant.Int:
		if n, ok := constant.Int64Val(v); ok {
			ints[n] = true
			if n > 0 && n < 256 {
				strs[string([]byte{byte(n)})] = true
			}
		} else if n, ok := constant.Uint64Val(v); ok {
			ints[int64(n)] = true
		}
	case constant.String:
		if s := constant.StringVal(v); s != "" && len(s) <= 60 {
			strs[s] = true
		}
	}
}

// eval computes expressions of literals only.
func eval(e ast.Expr) (v constant.Value) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	switch x := e.(type) {
	case *ast.BasicLit:
		if x.Kind == token.IMAG || x.Kind == token.FLOAT {
			return nil
		}
		v = constant.MakeFromLiteral(x.Value, x.Kind, 0)
	case *ast.ParenExpr:
		v = eval(x.X)
	case *ast.UnaryExpr:
		if a := eval(x.X); a != nil && (x.Op == token.SUB || x.Op == token.ADD) {
			v = constant.UnaryOp(x.Op, a, 0)
		}
	case *ast.BinaryExpr:
		a, b := eval(x.X), eval(x.Y)
		if a == nil || b == nil {
			return nil
		}
		switch x.Op {
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(b); ok && n < 64 {
				v = constant.Shift(a, x.Op, uint(n))
			}
		case token.QUO:
			v = constant.BinaryOp(a, token.QUO_ASSIGN, b)
		case token.ADD, token.SUB, token.MUL, token.REM, token.AND, token.OR, token.XOR:
			v = constant.BinaryOp(a, x.Op, b)
		}
	}
	if v != nil && v.Kind() == constant.Unknown {
		v = nil
	}
	return
}
