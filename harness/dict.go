package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/aiq/tok"
)

// Literals of the tree under test, used only to steer generators (as a fuzzer
// dictionary does). They never take part in a verdict.
type Dict struct {
	Ints  []int64
	Strs  []string
	Runes []rune
}

var dict Dict

func harvest(root string) Dict {
	ints := map[int64]bool{}
	strs := map[string]bool{}
	runes := map[rune]bool{}
	fset := token.NewFileSet()
	for _, dir := range []string{root, filepath.Join(root, "grammar")} {
		ents, err := os.ReadDir(dir)
		if err != nil {
			continue
		}
		for _, e := range ents {
			n := e.Name()
			if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			f, err := parser.ParseFile(fset, filepath.Join(dir, n), nil, 0)
			if err != nil {
				continue
			}
			ast.Inspect(f, func(x ast.Node) bool {
				switch l := x.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.BinaryExpr:
					if v, ok := constInt(l); ok {
						ints[v] = true
					}
				case *ast.SelectorExpr:
					if v, ok := constInt(l); ok {
						ints[v] = true
					}
				case *ast.BasicLit:
					switch l.Kind {
					case token.INT:
						if v, err := strconv.ParseInt(l.Value, 0, 64); err == nil {
							ints[v] = true
							if v >= 32 && v < 0x110000 {
								runes[rune(v)] = true
							}
						}
					case token.STRING:
						if v, err := strconv.Unquote(l.Value); err == nil && v != "" && len(v) <= 64 && !invalidMark(v) {
							strs[v] = true
							for _, r := range v {
								if r >= 0x80 {
									runes[r] = true
								}
							}
						}
					case token.CHAR:
						if v, err := strconv.Unquote(l.Value); err == nil {
							for _, r := range v {
								runes[r] = true
							}
						}
					}
				}
				return true
			})
		}
	}
	d := Dict{}
	for v := range ints {
		d.Ints = append(d.Ints, v)
	}
	for v := range strs {
		d.Strs = append(d.Strs, v)
	}
	for v := range runes {
		d.Runes = append(d.Runes, v)
	}
	sort.Slice(d.Ints, func(i, j int) bool { return d.Ints[i] < d.Ints[j] })
	sort.Strings(d.Strs)
	sort.Slice(d.Runes, func(i, j int) bool { return d.Runes[i] < d.Runes[j] })
	return d
}

// constInt evaluates the constants that limits are usually written as.
func constInt(x ast.Expr) (int64, bool) {
	switch e := x.(type) {
	case *ast.BasicLit:
		if e.Kind == token.INT {
			v, err := strconv.ParseInt(e.Value, 0, 64)
			return v, err == nil
		}
	case *ast.ParenExpr:
		return constInt(e.X)
	case *ast.SelectorExpr:
		v, ok := map[string]int64{"MaxInt8": 127, "MaxUint8": 255, "MaxInt16": 32767, "MaxUint16": 65535, "MaxInt32": 1<<31 - 1, "MaxUint32": 1<<32 - 1}[e.Sel.Name]
		return v, ok
	case *ast.BinaryExpr:
		a, ok := constInt(e.X)
		b, ok2 := constInt(e.Y)
		if !ok || !ok2 {
			return 0, false
		}
		switch e.Op {
		case token.SHL:
			if b >= 0 && b < 63 && a > 0 && a < 1<<20 {
				return a << uint(b), true
			}
		case token.MUL:
			return a * b, a < 1<<30 && b < 1<<30
		case token.ADD:
			return a + b, a < 1<<60 && b < 1<<60
		case token.SUB:
			return a - b, a < 1<<60 && b < 1<<60
		}
	}
	return 0, false
}

// The mark of an invalid reader would make a valid literal look invalid.
func invalidMark(s string) bool {
	return tok.HasInvalidReader(s) || strings.Contains(strings.ToUpper(s), "INVALID") || strings.Contains(strings.ToUpper(s), "READER")
}
