//go:build ignore

// Development aid: mutate.go DIR OUT writes one small mutation of the package's
// non-test files per directory OUT/NNN (the changed file and a line in list.txt).
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

var skip = map[string]bool{"outbound-utils.go": true}
var skipFn = map[string]bool{"Close": true, "String": true, "peekVarUint": true, "peekVarInt": true, "peekVarInt64": true, "peekVarUint64": true,
	"peekCompactNullableBytes": true, "peekCompactNullableString": true, "peekTags": true, "peekObjectCompactVarArray": true, "peekUint8": true, "peekUint16": true, "peekUint64": true, "peekFloat64": true, "peekBool": true,
	"makeZigzag32": true, "makeVarUint": true, "makeZigzag64": true, "makeVarUint64": true, "encodeVarInt": true, "encodeVarUint": true, "encodeVarInt64": true, "encodeVarUint64": true, "encodeUuid": true, "encodeFloat64": true, "encodeCompactString": true, "encodeCompactNullableString": true, "encodeCompactBytes": true, "encodeCompactNullableBytes": true, "encodeCompactArray": true, "encodeTags": true, "encodeUint8": true, "encodeUint16": true, "encodeUint64": true}

type edit struct {
	do, undo func()
	what     string
	pos      token.Pos
}

func main() {
	dir, out := os.Args[1], os.Args[2]
	files, _ := filepath.Glob(dir + "/*.go")
	n := 0
	list, _ := os.Create(out + "/list.txt")
	for _, fn := range files {
		base := filepath.Base(fn)
		if strings.HasSuffix(base, "_test.go") || skip[base] {
			continue
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, fn, nil, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		var edits []edit
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || skipFn[fd.Name.Name] {
				continue
			}
			ast.Inspect(fd.Body, func(x ast.Node) bool {
				switch v := x.(type) {
				case *ast.CallExpr:
					if s, ok := v.Fun.(*ast.SelectorExpr); ok && strings.HasPrefix(s.Sel.Name, "Trace") || ok && strings.HasPrefix(s.Sel.Name, "Warn") || ok && s.Sel.Name == "Errorf" || ok && s.Sel.Name == "Sprintf" {
						return false
					}
				case *ast.BinaryExpr:
					alts := map[token.Token][]token.Token{token.LSS: {token.LEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ}, token.GEQ: {token.GTR}, token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.MUL: {token.ADD}}
					for _, a := range alts[v.Op] {
						o, a := v.Op, a
						edits = append(edits, edit{func() { v.Op = a }, func() { v.Op = o }, fmt.Sprintf("%s -> %s", o, a), v.OpPos})
					}
				case *ast.BasicLit:
					if v.Kind == token.INT {
						o := v.Value
						for _, r := range []string{"(" + o + "+1)", "(" + o + "-1)"} {
							r := r
							if o == "0" && r == "(0-1)" {
								continue
							}
							edits = append(edits, edit{func() { v.Value = r }, func() { v.Value = o }, o + " -> " + r, v.Pos()})
						}
					}
				case *ast.IfStmt:
					o := v.Cond
					for _, c := range []string{"false", "true"} {
						c := c
						edits = append(edits, edit{func() { v.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: o}, Op: map[string]token.Token{"false": token.LAND, "true": token.LOR}[c], Y: ast.NewIdent(c)} }, func() { v.Cond = o }, "if -> " + c, v.Pos()})
					}
				case *ast.BlockStmt:
					for i, s := range v.List {
						i, s := i, s
						ok := false
						switch y := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.BranchStmt, *ast.SendStmt, *ast.GoStmt:
							ok = true
							if es, is := s.(*ast.ExprStmt); is {
								if c, is := es.X.(*ast.CallExpr); is {
									if se, is := c.Fun.(*ast.SelectorExpr); is && (strings.HasPrefix(se.Sel.Name, "Trace") || strings.HasPrefix(se.Sel.Name, "Warn")) {
										ok = false
									}
								}
							}
						case *ast.AssignStmt:
							ok = y.Tok != token.DEFINE
						case *ast.ReturnStmt:
							ok = i+1 < len(v.List) || len(y.Results) == 0
						}
						if ok {
							edits = append(edits, edit{func() { v.List[i] = &ast.EmptyStmt{Implicit: false} }, func() { v.List[i] = s }, "delete", s.Pos()})
						}
						if i+1 < len(v.List) {
							_, a := s.(*ast.ExprStmt)
							_, b := v.List[i+1].(*ast.ExprStmt)
							_, a2 := s.(*ast.AssignStmt)
							_, b2 := v.List[i+1].(*ast.AssignStmt)
							if (a || a2) && (b || b2) {
								edits = append(edits, edit{func() { v.List[i], v.List[i+1] = v.List[i+1], v.List[i] }, func() { v.List[i], v.List[i+1] = v.List[i+1], v.List[i] }, "swap", s.Pos()})
							}
						}
					}
				case *ast.KeyValueExpr:
					if _, ok := v.Value.(*ast.BasicLit); !ok {
						if id, ok := v.Key.(*ast.Ident); ok {
							_ = id
						}
					}
				case *ast.CompositeLit:
					for i, el := range v.Elts {
						if _, ok := el.(*ast.KeyValueExpr); ok {
							i, el := i, el
							o := v.Elts
							edits = append(edits, edit{func() {
								v.Elts = append(append([]ast.Expr{}, o[:i]...), o[i+1:]...)
							}, func() { v.Elts = o }, "drop field", el.Pos()})
						}
					}
				}
				return true
			})
		}
		for _, e := range edits {
			e.do()
			var b bytes.Buffer
			err := format.Node(&b, fset, f)
			p := fset.Position(e.pos)
			e.undo()
			if err != nil {
				continue
			}
			n++
			d := fmt.Sprintf("%s/%04d", out, n)
			os.MkdirAll(d, 0o755)
			os.WriteFile(d+"/"+base, b.Bytes(), 0o644)
			fmt.Fprintf(list, "%04d\t%s:%d\t%s\n", n, base, p.Line, e.what)
		}
	}
	list.Close()
	fmt.Println(n)
}
