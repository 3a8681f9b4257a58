package main

import (
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// dictionary holds literals found in the sources of the tree under test. It
// only steers the workload (lengths, counts, tokens worth trying), never the
// verdicts.
type dictionary struct {
	ints   []int    // sorted, 1..maxDictInt
	large  []int    // larger ones
	tokens []string // short strings
}

const maxDictInt = 1 << 17

func loadDict(repo string) *dictionary {
	ints, large := map[int]bool{}, map[int]bool{}
	toks := map[string]bool{}
	addStr := func(s string) {
		if len(s) == 0 {
			return
		}
		if len(s) <= 48 {
			toks[s] = true
		}
		for _, f := range strings.FieldsFunc(s, func(r rune) bool {
			return r <= ' ' || r == '"' || r > 126 || r == '<' || r == '>' || r == '`' || r == '\\' || r == '[' || r == ']' || r == '{' || r == '}' || r == '^' || r == '|'
		}) {
			if len(f) >= 1 && len(f) <= 48 {
				toks[f] = true
			}
		}
	}
	fset := token.NewFileSet()
	filepath.Walk(repo, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if b := filepath.Base(path); b == ".git" || b == "tools" || b == "docs" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(fset, path, nil, 0)
		if f == nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.CompositeLit, *ast.CaseClause:
				addStr(charChain(x))
			case *ast.IfStmt:
				addStr(charChain(x.Cond))
			case *ast.ReturnStmt:
				if len(x.Results) > 0 {
					addStr(charChain(x.Results[0]))
				}
			case *ast.BasicLit, *ast.BinaryExpr:
				v := constEval(x.(ast.Expr))
				if v == nil {
					return true
				}
				switch v.Kind() {
				case constant.Int:
					if i, ok := constant.Int64Val(v); ok && i > 0 && i <= maxDictInt {
						ints[int(i)] = true
					} else if ok && i > maxDictInt && i <= 1<<24 {
						large[int(i)] = true
					}
				case constant.String:
					addStr(constant.StringVal(v))
				}
			}
			return true
		})
		return nil
	})
	d := &dictionary{}
	for i := range ints {
		d.ints = append(d.ints, i)
	}
	for s := range toks {
		d.tokens = append(d.tokens, s)
	}
	for i := range large {
		d.large = append(d.large, i)
	}
	sort.Ints(d.ints)
	sort.Ints(d.large)
	if len(d.large) > 16 {
		d.large = d.large[:16]
	}
	sort.Strings(d.tokens)
	return d
}

func constEval(e ast.Expr) (v constant.Value) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	switch x := e.(type) {
	case *ast.BasicLit:
		v := constant.MakeFromLiteral(x.Value, x.Kind, 0)
		if v.Kind() == constant.Unknown {
			return nil
		}
		return v
	case *ast.ParenExpr:
		return constEval(x.X)
	case *ast.BinaryExpr:
		a, b := constEval(x.X), constEval(x.Y)
		if a == nil || b == nil {
			return nil
		}
		switch x.Op {
		case token.SHL, token.SHR:
			s, ok := constant.Uint64Val(b)
			if !ok || s > 40 {
				return nil
			}
			return constant.Shift(a, x.Op, uint(s))
		case token.ADD, token.SUB, token.MUL:
			return constant.BinaryOp(a, x.Op, b)
		}
	}
	return nil
}

// charChain strings together the characters named in an expression or clause,
// such as those of a chain of comparisons.
func charChain(n ast.Node) string {
	var b []byte
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return false
		case *ast.BinaryExpr:
			if x.Op == token.EQL || x.Op == token.NEQ {
				for _, y := range []ast.Expr{x.X, x.Y} {
					if l, ok := y.(*ast.BasicLit); ok && l.Kind == token.INT {
						if i, ok := constant.Int64Val(constEval(l)); ok && i > 0 && i < 256 {
							b = append(b, byte(i))
						}
					}
				}
			}
		case *ast.BasicLit:
			if x.Kind == token.CHAR {
				if v := constEval(x); v != nil {
					if i, ok := constant.Int64Val(v); ok && i > 0 && i < 256 {
						b = append(b, byte(i))
					}
				}
			}
		}
		return len(b) < 48
	})
	return string(b)
}
