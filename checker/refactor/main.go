// Development aid: applies one kind of behaviour-preserving rewriting to a copy
// of a Go package, everywhere or in one function. Not used by any check.
//
// usage: refactor -kind K [-func NAME] [-list] DIR   (rewrites DIR in place)
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

var (
	kind  = flag.String("kind", "", "")
	only  = flag.String("func", "", "")
	list  = flag.Bool("list", false, "")
	nth   = flag.Int("nth", -1, "only the n-th site")
	info  *types.Info
	pkg   *types.Package
	fset  *token.FileSet
	seq   int
	sites int
	extra []ast.Decl
	cur   *ast.FuncDecl
)

func fresh(p string) *ast.Ident {
	seq++
	return ast.NewIdent(fmt.Sprintf("%s%s%d", p, strings.ReplaceAll(fname(cur), ".", ""), seq))
}

func site() bool {
	sites++
	return *nth < 0 || sites-1 == *nth
}

func main() {
	flag.Parse()
	dir := flag.Arg(0)
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: dir}
	ps, err := packages.Load(cfg, ".")
	if err != nil || len(ps) != 1 || len(ps[0].Errors) > 0 {
		fmt.Println("load:", err, ps)
		os.Exit(2)
	}
	p := ps[0]
	info, pkg, fset = p.TypesInfo, p.Types, p.Fset
	for i, f := range p.Syntax {
		name := p.CompiledGoFiles[i]
		f.Comments = keepDirectives(f)
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			n := fname(fd)
			fd.Doc = nil
			if *list {
				fmt.Println(n)
				continue
			}
			if *only != "" && n != *only {
				continue
			}
			cur = fd
			fileOf[fd] = f
			extra = nil
			apply(f, fd)
			f.Decls = append(f.Decls, extra...)
		}
		if *list {
			continue
		}
		if strings.HasPrefix(*kind, "rename") {
			continue
		}
		write(name, f)
	}
	if strings.HasPrefix(*kind, "rename") {
		rename(p, dir)
		for i, f := range p.Syntax {
			write(p.CompiledGoFiles[i], f)
		}
	}
	if !*list {
		fmt.Println("sites", sites)
	}
}

func write(name string, f *ast.File) {
	var b bytes.Buffer
	// positions of moved nodes confuse the printer about comments: none are kept
	if err := format.Node(&b, fset, f); err != nil {
		fmt.Println("print:", name, err)
		os.Exit(2)
	}
	os.WriteFile(name, b.Bytes(), 0o644)
}

func keepDirectives(f *ast.File) []*ast.CommentGroup {
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			n.Doc = nil
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		}
		return true
	})
	f.Doc = nil
	return nil
}

func fname(fd *ast.FuncDecl) string {
	if fd.Recv != nil && len(fd.Recv.List) == 1 {
		return strings.TrimLeft(types.ExprString(fd.Recv.List[0].Type), "*") + "." + fd.Name.Name
	}
	return fd.Name.Name
}

func apply(f *ast.File, fd *ast.FuncDecl) {
	switch *kind {
	case "rename", "renamefn", "renamefield", "renamelocal", "renametype":
		return
	case "wrapfn":
		wrapfn(f, fd)
		return
	case "closurebody":
		closureBody(fd)
		return
	}
	if strings.HasSuffix(*kind, "out") {
		*kind = strings.TrimSuffix(*kind, "out")
		defer func() { *kind += "out" }()
		// outermost first, and nothing inside it
		astutil.Apply(fd.Body, func(c *astutil.Cursor) bool {
			n := sites
			rewrite(c)
			return sites == n
		}, nil)
		return
	}
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		rewrite(c)
		return true
	})
}

func typ(e ast.Expr) types.Type {
	if tv, ok := info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func isConstE(e ast.Expr) bool {
	tv, ok := info.Types[e]
	return ok && tv.Value != nil
}

func qual(p *types.Package) string {
	if p == pkg {
		return ""
	}
	return p.Name()
}

func texpr(t types.Type) ast.Expr { return ast.NewIdent(types.TypeString(t, qual)) }

func localType(t types.Type) bool {
	// a type declared inside a function
	bad := false
	var walk func(t types.Type, d int)
	walk = func(t types.Type, d int) {
		switch t := t.(type) {
		case *types.Named:
			if o := t.Obj(); o.Pkg() == pkg && o.Parent() != pkg.Scope() {
				bad = true
			}
		case *types.Pointer:
			walk(t.Elem(), d+1)
		case *types.Slice:
			walk(t.Elem(), d+1)
		case *types.Array:
			walk(t.Elem(), d+1)
		case *types.Map:
			walk(t.Key(), d+1)
			walk(t.Elem(), d+1)
		case *types.Chan:
			walk(t.Elem(), d+1)
		case *types.Signature:
			for i := 0; i < t.Params().Len(); i++ {
				walk(t.Params().At(i).Type(), d+1)
			}
			for i := 0; i < t.Results().Len(); i++ {
				walk(t.Results().At(i).Type(), d+1)
			}
		case *types.Struct:
			for i := 0; i < t.NumFields(); i++ {
				walk(t.Field(i).Type(), d+1)
			}
		}
	}
	walk(t, 0)
	return bad
}

func usable(t types.Type) bool {
	if t == nil || localType(t) {
		return false
	}
	if b, ok := t.(*types.Basic); ok && (b.Info()&types.IsUntyped != 0 || b.Kind() == types.Invalid) {
		return false
	}
	if _, ok := t.(*types.Tuple); ok {
		return false
	}
	// packages not imported in the file: only what the package's own files use
	return true
}

func simple(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return simple(e.X)
	case *ast.ParenExpr:
		return simple(e.X)
	case *ast.BasicLit:
		return true
	}
	return false
}

func hasCall(e ast.Node) bool {
	r := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if tv, ok := info.Types[n.Fun]; ok && (tv.IsType() || tv.IsBuiltin()) {
				if id, ok := n.Fun.(*ast.Ident); ok && (id.Name == "len" || id.Name == "cap") || tv.IsType() {
					return true
				}
			}
			r = true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				r = true
			}
		case *ast.FuncLit:
			return false
		}
		return !r
	})
	return r
}

// escapes: control leaves the node other than by its end.
func escapes(n ast.Node) bool {
	bad := false
	var walk func(n ast.Node, inLoop, inSwitch bool)
	walk = func(n ast.Node, inLoop, inSwitch bool) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == nil || bad {
				return false
			}
			switch m := m.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ReturnStmt, *ast.DeferStmt, *ast.LabeledStmt:
				bad = true
			case *ast.BranchStmt:
				if m.Label != nil || m.Tok == token.GOTO || m.Tok == token.FALLTHROUGH && !inSwitch {
					bad = true
				}
				if m.Tok == token.BREAK && !inLoop && !inSwitch || m.Tok == token.CONTINUE && !inLoop {
					bad = true
				}
			case *ast.ForStmt:
				if m != n {
					walk(m.Body, true, true)
					return false
				}
			case *ast.RangeStmt:
				if m != n {
					walk(m.Body, true, true)
					return false
				}
			case *ast.SwitchStmt:
				if m != n {
					walk(m.Body, inLoop, true)
					return false
				}
			case *ast.TypeSwitchStmt:
				if m != n {
					walk(m.Body, inLoop, true)
					return false
				}
			case *ast.SelectStmt:
				if m != n {
					walk(m.Body, inLoop, true)
					return false
				}
			case *ast.CallExpr:
				if id, ok := m.Fun.(*ast.Ident); ok && id.Name == "recover" {
					bad = true
				}
			}
			return true
		})
	}
	walk(n, false, false)
	return bad
}

// freeVars of a node: local variables declared outside it; mods are those it changes.
func freeVars(n ast.Node) (fv []*types.Var, mods map[*types.Var]bool, ok bool) {
	ok = true
	mods = map[*types.Var]bool{}
	seen := map[*types.Var]bool{}
	var mod func(e ast.Expr)
	varOf := func(e ast.Expr) *types.Var {
		if id, k := e.(*ast.Ident); k {
			v, _ := info.ObjectOf(id).(*types.Var)
			return v
		}
		return nil
	}
	outside := func(v *types.Var) bool {
		return v != nil && !v.IsField() && v.Parent() != pkg.Scope() && v.Pkg() == pkg && !(v.Pos() >= n.Pos() && v.Pos() < n.End())
	}
	mod = func(e ast.Expr) {
		switch e := e.(type) {
		case *ast.Ident:
			if v := varOf(e); outside(v) {
				mods[v] = true
			}
		case *ast.SelectorExpr:
			if _, p := types.Unalias(typeOr(e.X)).Underlying().(*types.Pointer); !p {
				mod(e.X)
			}
		case *ast.IndexExpr:
			if _, a := typeOr(e.X).Underlying().(*types.Array); a {
				mod(e.X)
			}
		case *ast.ParenExpr:
			mod(e.X)
		}
	}
	ast.Inspect(n, func(m ast.Node) bool {
		switch m := m.(type) {
		case *ast.Ident:
			if v := varOf(m); outside(v) {
				if !seen[v] {
					seen[v] = true
					fv = append(fv, v)
				}
				if !usable(v.Type()) {
					ok = false
				}
			}
			if o, isT := info.ObjectOf(m).(*types.TypeName); isT && o.Pkg() == pkg && o.Parent() != pkg.Scope() {
				ok = false
			}
		case *ast.AssignStmt:
			for _, l := range m.Lhs {
				mod(l)
			}
		case *ast.IncDecStmt:
			mod(m.X)
		case *ast.RangeStmt:
			if m.Tok == token.ASSIGN {
				if m.Key != nil {
					mod(m.Key)
				}
				if m.Value != nil {
					mod(m.Value)
				}
			}
		case *ast.UnaryExpr:
			if m.Op == token.AND {
				if _, lit := m.X.(*ast.CompositeLit); !lit {
					x := m.X
					for {
						if s, k := x.(*ast.SelectorExpr); k {
							if _, p := typeOr(s.X).Underlying().(*types.Pointer); p {
								break
							}
							x = s.X
							continue
						}
						break
					}
					if v := varOf(x); outside(v) {
						ok = false
					}
				}
			}
		case *ast.SelectorExpr:
			// a method with pointer receiver called on an addressable local
			if s, k := info.Selections[m]; k && s.Kind() == types.MethodVal {
				if v := varOf(m.X); outside(v) {
					if _, p := v.Type().Underlying().(*types.Pointer); !p {
						if sg, k := s.Obj().Type().(*types.Signature); k && sg.Recv() != nil {
							if _, pr := sg.Recv().Type().(*types.Pointer); pr {
								ok = false
							}
						}
					}
				}
			}
		case *ast.FuncLit:
			// captures: let it be when it changes nothing
		}
		return true
	})
	sort.Slice(fv, func(i, j int) bool { return fv[i].Pos() < fv[j].Pos() })
	return
}

func typeOr(e ast.Expr) types.Type {
	if t := typ(e); t != nil {
		return t
	}
	return types.Typ[types.Invalid]
}

// captured: a local variable used in a function literal anywhere in the function.
func captured(v *types.Var) bool {
	r := false
	ast.Inspect(cur.Body, func(n ast.Node) bool {
		if fl, ok := n.(*ast.FuncLit); ok {
			ast.Inspect(fl, func(m ast.Node) bool {
				if id, ok := m.(*ast.Ident); ok && info.ObjectOf(id) == v {
					if !(v.Pos() >= fl.Pos() && v.Pos() < fl.End()) {
						r = true
					}
				}
				return true
			})
		}
		return true
	})
	return r
}

func ids(n string) *ast.Ident { return ast.NewIdent(n) }

func not(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}} }

func define(id *ast.Ident, e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
}

func inBlock(c *astutil.Cursor) bool {
	if c.Index() < 0 {
		return false
	}
	switch c.Parent().(type) {
	case *ast.BlockStmt, *ast.CaseClause:
		_, ok := c.Node().(ast.Stmt)
		return ok
	case *ast.CommClause:
		_, ok := c.Node().(ast.Stmt)
		return ok && c.Name() == "Body"
	}
	return false
}

func terminates(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	switch s := b.List[len(b.List)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return s.Tok == token.CONTINUE || s.Tok == token.BREAK && false
	}
	return false
}

func addFunc(name string, fv []*types.Var, res []types.Type, body []ast.Stmt) {
	ft := &ast.FuncType{Params: &ast.FieldList{}}
	for _, v := range fv {
		ft.Params.List = append(ft.Params.List, &ast.Field{Names: []*ast.Ident{ids(v.Name())}, Type: texpr(v.Type())})
	}
	if len(res) > 0 {
		ft.Results = &ast.FieldList{}
		for _, t := range res {
			ft.Results.List = append(ft.Results.List, &ast.Field{Type: texpr(t)})
		}
	}
	extra = append(extra, &ast.FuncDecl{Name: ids(name), Type: ft, Body: &ast.BlockStmt{List: body}})
}

func fileHasPkgs(ts ...types.Type) bool {
	// every package named in the types must be imported by the file of cur
	ok := true
	for _, t := range ts {
		types.TypeString(t, func(p *types.Package) string {
			if p != pkg {
				found := false
				for _, f := range curFile().Imports {
					if strings.Trim(f.Path.Value, `"`) == p.Path() {
						found = true
					}
				}
				if !found {
					ok = false
				}
			}
			return p.Name()
		})
	}
	return ok
}

var fileOf = map[*ast.FuncDecl]*ast.File{}

func curFile() *ast.File { return fileOf[cur] }

func extractBody(b *ast.BlockStmt) bool {
	if len(b.List) == 0 || escapes(b) {
		return false
	}
	if holds(b) {
		return false
	}
	fv, mods, ok := freeVars(b)
	if !ok {
		return false
	}
	var ts []types.Type
	for _, v := range fv {
		ts = append(ts, v.Type())
		if captured(v) && mods[v] {
			return false
		}
	}
	// a captured variable changed by someone else between: leave such blocks
	for _, v := range fv {
		if captured(v) {
			return false
		}
	}
	if !fileHasPkgs(ts...) || !site() {
		return false
	}
	name := fresh("extracted").Name
	call := &ast.CallExpr{Fun: ids(name)}
	made[call] = true
	var res []types.Type
	var lhs, ret []ast.Expr
	for _, v := range fv {
		call.Args = append(call.Args, ids(v.Name()))
		if mods[v] {
			res = append(res, v.Type())
			lhs = append(lhs, ids(v.Name()))
			ret = append(ret, ids(v.Name()))
		}
	}
	body := append([]ast.Stmt{}, b.List...)
	if len(res) > 0 {
		body = append(body, &ast.ReturnStmt{Results: ret})
		b.List = []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{call}}}
	} else {
		b.List = []ast.Stmt{&ast.ExprStmt{X: call}}
	}
	addFunc(name, fv, res, body)
	return true
}

var made = map[ast.Node]bool{}

// holds: something in the node was extracted already.
func holds(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(m ast.Node) bool {
		if made[m] {
			r = true
		}
		return !r
	})
	return r
}

func rewrite(c *astutil.Cursor) {
	switch *kind {
	case "rangeidx":
		r, ok := c.Node().(*ast.RangeStmt)
		if !ok || !inBlock(c) || r.Tok == token.ASSIGN {
			return
		}
		if r.X == nil || typ(r.X) == nil {
			return
		}
		if _, ok := typ(r.X).Underlying().(*types.Slice); !ok {
			return
		}
		if !site() {
			return
		}
		var xs ast.Expr = r.X
		if !simple(xs) || true {
			id := fresh("xs")
			c.InsertBefore(define(id, r.X))
			xs = ids(id.Name)
		}
		i := fresh("ix")
		key, _ := r.Key.(*ast.Ident)
		if key != nil && key.Name != "_" {
			i = key
		}
		if val, _ := r.Value.(*ast.Ident); val != nil && val.Name != "_" {
			r.Body.List = append([]ast.Stmt{define(ids(val.Name), &ast.IndexExpr{X: xs, Index: ids(i.Name)})}, r.Body.List...)
		}
		c.Replace(&ast.ForStmt{Init: define(ids(i.Name), &ast.BasicLit{Kind: token.INT, Value: "0"}),
			Cond: &ast.BinaryExpr{X: ids(i.Name), Op: token.LSS, Y: &ast.CallExpr{Fun: ids("len"), Args: []ast.Expr{xs}}},
			Post: &ast.IncDecStmt{X: ids(i.Name), Tok: token.INC}, Body: r.Body})
	case "rangeval":
		// for _, v := range xs  ->  for i := range xs { v := xs[i] }
		r, ok := c.Node().(*ast.RangeStmt)
		if !ok || !inBlock(c) || r.Tok == token.ASSIGN || r.Value == nil || typ(r.X) == nil {
			return
		}
		if _, ok := typ(r.X).Underlying().(*types.Slice); !ok || !simple(r.X) {
			return
		}
		val, _ := r.Value.(*ast.Ident)
		if val == nil || val.Name == "_" || !site() {
			return
		}
		i := fresh("ix")
		if k, _ := r.Key.(*ast.Ident); k != nil && k.Name != "_" {
			i = ids(k.Name)
		}
		r.Body.List = append([]ast.Stmt{define(ids(val.Name), &ast.IndexExpr{X: r.X, Index: ids(i.Name)})}, r.Body.List...)
		r.Key, r.Value = ids(i.Name), nil
	case "ifinv":
		s, ok := c.Node().(*ast.IfStmt)
		if !ok || !site() {
			return
		}
		els, plain := s.Else.(*ast.BlockStmt)
		if s.Else != nil && !plain {
			els = &ast.BlockStmt{List: []ast.Stmt{s.Else}}
		}
		if els == nil {
			els = &ast.BlockStmt{}
		}
		s.Cond = not(s.Cond)
		s.Body, s.Else = els, s.Body
	case "incr":
		s, ok := c.Node().(*ast.IncDecStmt)
		if !ok || !site() {
			return
		}
		op := token.ADD_ASSIGN
		if s.Tok == token.DEC {
			op = token.SUB_ASSIGN
		}
		c.Replace(&ast.AssignStmt{Lhs: []ast.Expr{s.X}, Tok: op, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "1"}}})
	case "opassign":
		// x += y -> x = x + y
		s, ok := c.Node().(*ast.AssignStmt)
		if !ok || !simple(s.Lhs[0]) {
			return
		}
		ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.OR_ASSIGN: token.OR, token.SHL_ASSIGN: token.SHL}
		o, k := ops[s.Tok]
		if !k || !site() {
			return
		}
		s.Rhs[0] = &ast.BinaryExpr{X: s.Lhs[0], Op: o, Y: &ast.ParenExpr{X: s.Rhs[0]}}
		s.Tok = token.ASSIGN
	case "andsplit":
		s, ok := c.Node().(*ast.IfStmt)
		if !ok || s.Else != nil {
			return
		}
		b, ok := s.Cond.(*ast.BinaryExpr)
		if !ok || b.Op != token.LAND || !site() {
			return
		}
		s.Cond = b.X
		s.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: s.Body}}}
	case "orsplit":
		// if a || b { terminating } -> if a {…}; if b {…}
		s, ok := c.Node().(*ast.IfStmt)
		if !ok || s.Else != nil || s.Init != nil || !inBlock(c) {
			return
		}
		b, ok := s.Cond.(*ast.BinaryExpr)
		if !ok || b.Op != token.LOR || !site() {
			return
		}
		s.Cond = b.X
		s.Else = &ast.IfStmt{Cond: b.Y, Body: s.Body}
	case "demorgan":
		b, ok := c.Node().(*ast.BinaryExpr)
		if !ok || b.Op != token.LAND && b.Op != token.LOR || isConstE(b) || !site() {
			return
		}
		op := token.LOR
		if b.Op == token.LOR {
			op = token.LAND
		}
		c.Replace(&ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: &ast.BinaryExpr{X: not(b.X), Op: op, Y: not(b.Y)}}})
	case "retvar":
		s, ok := c.Node().(*ast.ReturnStmt)
		if !ok || !inBlock(c) || len(s.Results) == 0 {
			return
		}
		for _, e := range s.Results {
			if _, tup := typeOr(e).(*types.Tuple); tup {
				return
			}
		}
		if !site() {
			return
		}
		for i, e := range s.Results {
			if !usable(typ(e)) || isConstE(e) {
				continue
			}
			id := fresh("rv")
			c.InsertBefore(define(id, e))
			s.Results[i] = ids(id.Name)
		}
	case "hoistcond":
		s, ok := c.Node().(*ast.IfStmt)
		if !ok || !inBlock(c) || s.Init != nil || !site() {
			return
		}
		id := fresh("cond")
		c.InsertBefore(define(id, s.Cond))
		s.Cond = ids(id.Name)
	case "initout":
		// if v := e; cond -> v := e in a block
		s, ok := c.Node().(*ast.IfStmt)
		if !ok || !inBlock(c) || s.Init == nil || !site() {
			return
		}
		in := s.Init
		s.Init = nil
		c.Replace(&ast.BlockStmt{List: []ast.Stmt{in, s}})
	case "forcond":
		s, ok := c.Node().(*ast.ForStmt)
		if !ok || s.Cond == nil || !site() {
			return
		}
		s.Body.List = append([]ast.Stmt{&ast.IfStmt{Cond: not(s.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}, s.Body.List...)
		s.Cond = nil
	case "forbreak":
		// for { if c { break }; … } -> for !c { … }
		s, ok := c.Node().(*ast.ForStmt)
		if !ok || s.Cond != nil || len(s.Body.List) == 0 {
			return
		}
		f, ok := s.Body.List[0].(*ast.IfStmt)
		if !ok || f.Init != nil || f.Else != nil || len(f.Body.List) != 1 {
			return
		}
		br, ok := f.Body.List[0].(*ast.BranchStmt)
		if !ok || br.Tok != token.BREAK || br.Label != nil || !site() {
			return
		}
		s.Cond = not(f.Cond)
		s.Body.List = s.Body.List[1:]
	case "ifswitch":
		s, ok := c.Node().(*ast.IfStmt)
		if !ok || s.Init != nil || !inBlock(c) {
			return
		}
		var cl []ast.Stmt
		var x ast.Stmt = s
		for x != nil {
			switch y := x.(type) {
			case *ast.IfStmt:
				if y.Init != nil || hasBreak(y.Body) {
					return
				}
				cl = append(cl, &ast.CaseClause{List: []ast.Expr{y.Cond}, Body: y.Body.List})
				x = y.Else
			case *ast.BlockStmt:
				if hasBreak(y) {
					return
				}
				cl = append(cl, &ast.CaseClause{Body: y.List})
				x = nil
			}
		}
		if !site() {
			return
		}
		c.Replace(&ast.SwitchStmt{Body: &ast.BlockStmt{List: cl}})
	case "switchif":
		s, ok := c.Node().(*ast.SwitchStmt)
		if !ok || !inBlock(c) || s.Init != nil {
			return
		}
		if s.Tag != nil && !simple(s.Tag) {
			return
		}
		var def *ast.BlockStmt
		var arms []*ast.IfStmt
		for _, x := range s.Body.List {
			cc := x.(*ast.CaseClause)
			b := &ast.BlockStmt{List: cc.Body}
			if hasBreak(b) {
				return
			}
			for _, st := range cc.Body {
				if br, ok := st.(*ast.BranchStmt); ok && br.Tok == token.FALLTHROUGH {
					return
				}
			}
			if cc.List == nil {
				def = b
				continue
			}
			var cond ast.Expr
			for _, e := range cc.List {
				t := e
				if s.Tag != nil {
					t = &ast.BinaryExpr{X: s.Tag, Op: token.EQL, Y: e}
				}
				if cond == nil {
					cond = t
				} else {
					cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: t}
				}
			}
			arms = append(arms, &ast.IfStmt{Cond: cond, Body: b})
		}
		if len(arms) == 0 || !site() {
			return
		}
		for i := 0; i+1 < len(arms); i++ {
			arms[i].Else = arms[i+1]
		}
		if def != nil {
			arms[len(arms)-1].Else = def
		}
		c.Replace(arms[0])
	case "swapcmp":
		b, ok := c.Node().(*ast.BinaryExpr)
		if !ok {
			return
		}
		m := map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
		op, k := m[b.Op]
		if !k || isConstE(b) || hasCall(b.X) && hasCall(b.Y) || !site() {
			return
		}
		b.X, b.Y, b.Op = b.Y, b.X, op
	case "negcmp":
		b, ok := c.Node().(*ast.BinaryExpr)
		if !ok {
			return
		}
		m := map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS}
		op, k := m[b.Op]
		if !k || isConstE(b) || isFloatT(b.X) || !site() {
			return
		}
		c.Replace(&ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: &ast.BinaryExpr{X: b.X, Op: op, Y: b.Y}}})
	case "intcmp":
		// a > k -> a >= k+1, a < k -> a <= k-1 for constants
		b, ok := c.Node().(*ast.BinaryExpr)
		if !ok || isConstE(b) || !isConstE(b.Y) {
			return
		}
		bt, k := typeOr(b.X).Underlying().(*types.Basic)
		if !k || bt.Info()&types.IsInteger == 0 {
			return
		}
		n, k := constant.Int64Val(constant.ToInt(info.Types[b.Y].Value))
		if !k {
			return
		}
		lit := func(n int64) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(n)} }
		switch b.Op {
		case token.GTR:
			if site() {
				b.Op, b.Y = token.GEQ, lit(n+1)
			}
		case token.GEQ:
			if site() {
				b.Op, b.Y = token.GTR, lit(n-1)
			}
		case token.LSS:
			if site() {
				b.Op, b.Y = token.LEQ, lit(n-1)
			}
		case token.LEQ:
			if site() {
				b.Op, b.Y = token.LSS, lit(n+1)
			}
		}
	case "vardecl":
		s, ok := c.Node().(*ast.AssignStmt)
		if !ok || s.Tok != token.DEFINE || len(s.Lhs) != 1 || len(s.Rhs) != 1 || !inBlock(c) {
			return
		}
		id := s.Lhs[0].(*ast.Ident)
		v, _ := info.Defs[id].(*types.Var)
		if v == nil || !usable(v.Type()) || !fileHasPkgs(v.Type()) || !site() {
			return
		}
		c.Replace(&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ids(id.Name)}, Type: texpr(v.Type())}}}})
		c.InsertAfter(&ast.AssignStmt{Lhs: []ast.Expr{ids(id.Name)}, Tok: token.ASSIGN, Rhs: s.Rhs})
	case "complit":
		s, ok := c.Node().(*ast.AssignStmt)
		if !ok || s.Tok != token.DEFINE || len(s.Lhs) != 1 || len(s.Rhs) != 1 || !inBlock(c) {
			return
		}
		x := s.Rhs[0]
		if u, ok := x.(*ast.UnaryExpr); ok && u.Op == token.AND {
			x = u.X
		}
		cl, ok := x.(*ast.CompositeLit)
		if !ok || len(cl.Elts) == 0 {
			return
		}
		if _, st := typeOr(cl).Underlying().(*types.Struct); !st {
			return
		}
		for _, e := range cl.Elts {
			if _, kv := e.(*ast.KeyValueExpr); !kv {
				return
			}
		}
		// the variable must not be used in its own literal (shadowing)
		name := s.Lhs[0].(*ast.Ident).Name
		for _, e := range cl.Elts {
			bad := false
			ast.Inspect(e.(*ast.KeyValueExpr).Value, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok && id.Name == name {
					bad = true
				}
				return true
			})
			if bad {
				return
			}
		}
		if !site() {
			return
		}
		el := cl.Elts
		cl.Elts = nil
		for i := len(el) - 1; i >= 0; i-- {
			kv := el[i].(*ast.KeyValueExpr)
			c.InsertAfter(&ast.AssignStmt{Lhs: []ast.Expr{&ast.SelectorExpr{X: ids(name), Sel: kv.Key.(*ast.Ident)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{kv.Value}})
		}
	case "fieldorder":
		cl, ok := c.Node().(*ast.CompositeLit)
		if !ok || len(cl.Elts) < 2 || hasCall(cl) {
			return
		}
		if _, st := typeOr(cl).Underlying().(*types.Struct); !st {
			return
		}
		if _, kv := cl.Elts[0].(*ast.KeyValueExpr); !kv || !site() {
			return
		}
		for i, j := 0, len(cl.Elts)-1; i < j; i, j = i+1, j-1 {
			cl.Elts[i], cl.Elts[j] = cl.Elts[j], cl.Elts[i]
		}
	case "hoistargs":
		var call *ast.CallExpr
		switch s := c.Node().(type) {
		case *ast.ExprStmt:
			call, _ = s.X.(*ast.CallExpr)
		case *ast.AssignStmt:
			if len(s.Rhs) == 1 && simple(s.Lhs[0]) {
				call, _ = s.Rhs[0].(*ast.CallExpr)
			}
		}
		if call == nil || !inBlock(c) || !simple(call.Fun) || call.Ellipsis.IsValid() {
			return
		}
		if tv, ok := info.Types[call.Fun]; ok && (tv.IsType() || tv.IsBuiltin()) {
			return
		}
		if len(call.Args) == 0 || !site() {
			return
		}
		for i, a := range call.Args {
			if isConstE(a) || !usable(typ(a)) {
				continue
			}
			if _, fl := a.(*ast.FuncLit); fl {
				continue
			}
			id := fresh("arg")
			c.InsertBefore(define(id, a))
			call.Args[i] = ids(id.Name)
		}
	case "hoistrecv":
		// a.b.f(x) -> r := a.b; r.f(x)
		var call *ast.CallExpr
		switch s := c.Node().(type) {
		case *ast.ExprStmt:
			call, _ = s.X.(*ast.CallExpr)
		case *ast.AssignStmt:
			if len(s.Rhs) == 1 && simple(s.Lhs[0]) {
				call, _ = s.Rhs[0].(*ast.CallExpr)
			}
		}
		if call == nil || !inBlock(c) {
			return
		}
		se, ok := call.Fun.(*ast.SelectorExpr)
		if !ok {
			return
		}
		sl := info.Selections[se]
		if sl == nil || sl.Kind() != types.MethodVal || !simple(se.X) {
			return
		}
		if _, isID := se.X.(*ast.Ident); isID {
			return
		}
		if _, p := typeOr(se.X).Underlying().(*types.Pointer); !p {
			return
		}
		if !site() {
			return
		}
		id := fresh("rc")
		c.InsertBefore(define(id, se.X))
		se.X = ids(id.Name)
	case "elsetail":
		// if c { …return } rest -> if c {…} else { rest }
		var lst *[]ast.Stmt
		switch b := c.Node().(type) {
		case *ast.BlockStmt:
			lst = &b.List
		default:
			return
		}
		for i := len(*lst) - 2; i >= 0; i-- {
			s, ok := (*lst)[i].(*ast.IfStmt)
			if !ok || s.Else != nil || !terminates(s.Body) {
				continue
			}
			// labels in the rest
			if !site() {
				continue
			}
			s.Else = &ast.BlockStmt{List: append([]ast.Stmt{}, (*lst)[i+1:]...)}
			*lst = (*lst)[:i+1]
		}
	case "elseless":
		// if c { A; return/continue } else { B } -> if c { A } B
		s, ok := c.Node().(*ast.IfStmt)
		if !ok || !inBlock(c) || !terminates(s.Body) || s.Init != nil {
			return
		}
		b, ok := s.Else.(*ast.BlockStmt)
		if !ok || !site() {
			return
		}
		s.Else = nil
		c.InsertAfter(b)
	case "earlycont":
		// the last if of a loop body -> if !c { continue }; A
		var b *ast.BlockStmt
		switch s := c.Node().(type) {
		case *ast.ForStmt:
			b = s.Body
		case *ast.RangeStmt:
			b = s.Body
		default:
			return
		}
		if len(b.List) == 0 {
			return
		}
		s, ok := b.List[len(b.List)-1].(*ast.IfStmt)
		if !ok || s.Else != nil || s.Init != nil || !site() {
			return
		}
		b.List[len(b.List)-1] = &ast.IfStmt{Cond: not(s.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}}
		b.List = append(b.List, s.Body.List...)
	case "earlyret":
		// the last if of a function without results -> if !c { return }; A
		if c.Node() != cur.Body || cur.Type.Results != nil {
			return
		}
		b := cur.Body
		if len(b.List) == 0 {
			return
		}
		s, ok := b.List[len(b.List)-1].(*ast.IfStmt)
		if !ok || s.Else != nil || s.Init != nil || !site() {
			return
		}
		b.List[len(b.List)-1] = &ast.IfStmt{Cond: not(s.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{}}}}
		b.List = append(b.List, s.Body.List...)
	case "closure":
		// bodies of ifs and loops called as a literal
		var b *ast.BlockStmt
		switch s := c.Node().(type) {
		case *ast.ForStmt:
			b = s.Body
		case *ast.RangeStmt:
			b = s.Body
		case *ast.IfStmt:
			b = s.Body
		}
		if b == nil || len(b.List) == 0 || escapes(b) || !site() {
			return
		}
		b.List = []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: b.List}}}}}
	case "extract":
		switch s := c.Node().(type) {
		case *ast.ForStmt:
			extractBody(s.Body)
		case *ast.RangeStmt:
			extractBody(s.Body)
		case *ast.IfStmt:
			extractBody(s.Body)
		}
	case "extractfor":
		switch s := c.Node().(type) {
		case *ast.ForStmt:
			extractBody(s.Body)
		case *ast.RangeStmt:
			extractBody(s.Body)
		}
	case "extractloop":
		// the whole loop
		switch s := c.Node().(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			if !inBlock(c) {
				return
			}
			b := &ast.BlockStmt{Lbrace: s.Pos(), List: []ast.Stmt{s.(ast.Stmt)}, Rbrace: s.End()}
			if extractBody(b) {
				c.Replace(b.List[0])
			}
		}
	case "extractstmt":
		// assignments and calls
		s, ok := c.Node().(ast.Stmt)
		if !ok || !inBlock(c) {
			return
		}
		switch x := s.(type) {
		case *ast.ExprStmt:
		case *ast.AssignStmt:
			if x.Tok == token.DEFINE {
				return
			}
		default:
			return
		}
		b := &ast.BlockStmt{Lbrace: s.Pos(), List: []ast.Stmt{s}, Rbrace: s.End()}
		if extractBody(b) {
			c.Replace(b.List[0])
		}
	case "extractcond", "extractrhs":
		var at *ast.Expr
		switch s := c.Node().(type) {
		case *ast.IfStmt:
			if *kind == "extractcond" && s.Init == nil {
				at = &s.Cond
			}
		case *ast.AssignStmt:
			if *kind == "extractrhs" && len(s.Rhs) == 1 && len(s.Lhs) == 1 && (s.Tok == token.DEFINE || s.Tok == token.ASSIGN) {
				at = &s.Rhs[0]
			}
		}
		if at == nil || isConstE(*at) || simple(*at) {
			return
		}
		t := typ(*at)
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedBool {
			t = types.Typ[types.Bool]
		}
		if !usable(t) {
			return
		}
		if _, fl := (*at).(*ast.FuncLit); fl {
			return
		}
		if u, ok := (*at).(*ast.UnaryExpr); ok && u.Op == token.AND {
			if _, cl := u.X.(*ast.CompositeLit); !cl {
				return
			}
		}
		fv, mods, ok := freeVars(*at)
		if !ok || len(mods) > 0 {
			return
		}
		ts := []types.Type{t}
		for _, v := range fv {
			ts = append(ts, v.Type())
			if captured(v) {
				return
			}
		}
		if !fileHasPkgs(ts...) || !site() {
			return
		}
		name := fresh("extracted").Name
		call := &ast.CallExpr{Fun: ids(name)}
		for _, v := range fv {
			call.Args = append(call.Args, ids(v.Name()))
		}
		addFunc(name, fv, []types.Type{t}, []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{*at}}})
		*at = call
	case "appendmany":
		// append(x, v) -> append(x, []T{v}...)
		call, ok := c.Node().(*ast.CallExpr)
		if !ok || call.Ellipsis.IsValid() || len(call.Args) != 2 {
			return
		}
		id, ok := call.Fun.(*ast.Ident)
		if !ok || id.Name != "append" {
			return
		}
		t := typeOr(call.Args[0])
		if !usable(t) || !site() {
			return
		}
		call.Args[1] = &ast.CompositeLit{Type: texpr(t), Elts: []ast.Expr{call.Args[1]}}
		call.Ellipsis = call.Rparen
	case "emptylit":
		// []T{} -> make([]T, 0)
		cl, ok := c.Node().(*ast.CompositeLit)
		if !ok || len(cl.Elts) > 0 || cl.Type == nil {
			return
		}
		switch typeOr(cl).Underlying().(type) {
		case *types.Slice:
			if site() {
				c.Replace(&ast.CallExpr{Fun: ids("make"), Args: []ast.Expr{cl.Type, &ast.BasicLit{Kind: token.INT, Value: "0"}}})
			}
		case *types.Map:
			if site() {
				c.Replace(&ast.CallExpr{Fun: ids("make"), Args: []ast.Expr{cl.Type}})
			}
		}
	case "newlit":
		// &T{} -> new(T)
		u, ok := c.Node().(*ast.UnaryExpr)
		if !ok || u.Op != token.AND {
			return
		}
		cl, ok := u.X.(*ast.CompositeLit)
		if !ok || len(cl.Elts) > 0 || !site() {
			return
		}
		c.Replace(&ast.CallExpr{Fun: ids("new"), Args: []ast.Expr{cl.Type}})
	case "block":
		// every non-declaring statement in a block of its own
		s, ok := c.Node().(ast.Stmt)
		if !ok || !inBlock(c) {
			return
		}
		switch x := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.IfStmt, *ast.RangeStmt, *ast.ForStmt:
		case *ast.AssignStmt:
			if x.Tok == token.DEFINE {
				return
			}
		default:
			return
		}
		if site() {
			c.Replace(&ast.BlockStmt{List: []ast.Stmt{s}})
		}
	case "defervar":
		// defer x.f() -> defer func() { x.f() }()
		s, ok := c.Node().(*ast.DeferStmt)
		if !ok {
			return
		}
		if _, fl := s.Call.Fun.(*ast.FuncLit); fl {
			return
		}
		for _, a := range s.Call.Args {
			if !isConstE(a) {
				return
			}
		}
		if !site() {
			return
		}
		s.Call = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: s.Call}}}}}
	case "undefer":
		// a leading lock/defer unlock pair without returns inside: unlock at the end
		b, ok := c.Node().(*ast.BlockStmt)
		if !ok || b != cur.Body || cur.Type.Results != nil {
			return
		}
		for i, st := range b.List {
			d, ok := st.(*ast.DeferStmt)
			if !ok {
				continue
			}
			if _, fl := d.Call.Fun.(*ast.FuncLit); fl {
				return
			}
			rest := &ast.BlockStmt{List: b.List[i+1:]}
			if escapes(rest) || !site() {
				return
			}
			b.List = append(append(append([]ast.Stmt{}, b.List[:i]...), b.List[i+1:]...), &ast.ExprStmt{X: d.Call})
			return
		}
	case "gonamed":
		// go func() {…}() -> f := func() {…}; go f()
		s, ok := c.Node().(*ast.GoStmt)
		if !ok || !inBlock(c) {
			return
		}
		fl, ok := s.Call.Fun.(*ast.FuncLit)
		if !ok || !site() {
			return
		}
		id := fresh("work")
		c.InsertBefore(define(id, fl))
		s.Call.Fun = ids(id.Name)
	case "convvar":
		// conversions and calls nested in expressions of an assignment: v := int(x)
		s, ok := c.Node().(*ast.AssignStmt)
		if !ok || !inBlock(c) || len(s.Rhs) != 1 || len(s.Lhs) != 1 || hasCall(s.Rhs[0]) {
			return
		}
		astutil.Apply(s.Rhs[0], func(k *astutil.Cursor) bool {
			call, ok := k.Node().(*ast.CallExpr)
			if !ok || k.Parent() == nil || isConstE(call) {
				_, fl := k.Node().(*ast.FuncLit)
				b, bin := k.Node().(*ast.BinaryExpr)
				return !fl && !(bin && (b.Op == token.LAND || b.Op == token.LOR))
			}
			if k.Node() == s.Rhs[0] || !usable(typ(call)) || !site() {
				return true
			}
			id := fresh("cv")
			c.InsertBefore(define(id, call))
			k.Replace(ids(id.Name))
			return false
		}, nil)
	case "parens":
		if e, ok := c.Node().(*ast.BinaryExpr); ok && site() {
			c.Replace(&ast.ParenExpr{X: e})
		}
	case "swapadd":
		b, ok := c.Node().(*ast.BinaryExpr)
		if !ok || b.Op != token.ADD && b.Op != token.MUL || isConstE(b) || hasCall(b) {
			return
		}
		if bt, k := typeOr(b.X).Underlying().(*types.Basic); !k || bt.Info()&types.IsNumeric == 0 {
			return
		}
		if site() {
			b.X, b.Y = b.Y, b.X
		}
	case "swapstmt":
		// exchange two neighbouring definitions that do not touch each other
		b, ok := c.Node().(*ast.BlockStmt)
		if !ok {
			return
		}
		for i := 0; i+1 < len(b.List); i++ {
			x, ok1 := b.List[i].(*ast.AssignStmt)
			y, ok2 := b.List[i+1].(*ast.AssignStmt)
			if !ok1 || !ok2 || !pureAssign(x) || !pureAssign(y) || touches(x, y) || touches(y, x) {
				continue
			}
			if site() {
				b.List[i], b.List[i+1] = b.List[i+1], b.List[i]
				i++
			}
		}
	case "dupelse":
		// if c {A}; B (last, short) -> if c {A; B} else {B} when A does not leave
		b, ok := c.Node().(*ast.BlockStmt)
		if !ok || len(b.List) < 2 {
			return
		}
		i := len(b.List) - 2
		s, ok := b.List[i].(*ast.IfStmt)
		if !ok || s.Else != nil || s.Init != nil || terminates(s.Body) {
			return
		}
		switch b.List[i+1].(type) {
		case *ast.ReturnStmt, *ast.ExprStmt:
		default:
			return
		}
		if len(s.Body.List) > 0 {
			if br, ok := s.Body.List[len(s.Body.List)-1].(*ast.BranchStmt); ok && br != nil {
				return
			}
		}
		// shadowing
		if declares(s.Body) || !site() {
			return
		}
		s.Body.List = append(s.Body.List, b.List[i+1])
		s.Else = &ast.BlockStmt{List: []ast.Stmt{b.List[i+1]}}
		b.List = b.List[:i+1]
	case "ifassign":
		// x := a (simple const) ; … nothing
	}
}

func declares(b *ast.BlockStmt) bool {
	for _, s := range b.List {
		switch s := s.(type) {
		case *ast.AssignStmt:
			if s.Tok == token.DEFINE {
				return true
			}
		case *ast.DeclStmt:
			return true
		}
	}
	return false
}

func pureAssign(s *ast.AssignStmt) bool {
	if len(s.Lhs) != 1 {
		return false
	}
	if _, ok := s.Lhs[0].(*ast.Ident); !ok {
		return false
	}
	for _, e := range s.Rhs {
		pure := !hasCall(e)
		ast.Inspect(e, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.IndexExpr, *ast.StarExpr, *ast.TypeAssertExpr, *ast.SliceExpr, *ast.FuncLit:
				pure = false
			case *ast.BinaryExpr:
				if n.Op == token.QUO || n.Op == token.REM {
					pure = false
				}
			}
			return true
		})
		if !pure {
			return false
		}
	}
	return true
}

// touches: b uses or changes what a changes.
func touches(a, b *ast.AssignStmt) bool {
	id := a.Lhs[0].(*ast.Ident)
	o := info.ObjectOf(id)
	r := false
	ast.Inspect(b, func(n ast.Node) bool {
		if x, ok := n.(*ast.Ident); ok && (info.ObjectOf(x) == o || x.Name == id.Name) {
			r = true
		}
		return true
	})
	return r
}

func isFloatT(e ast.Expr) bool {
	b, ok := typeOr(e).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func hasBreak(b *ast.BlockStmt) bool {
	r := false
	ast.Inspect(b, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.SelectStmt, *ast.TypeSwitchStmt:
			return false
		case *ast.BranchStmt:
			if n.Tok == token.BREAK && n.Label == nil {
				r = true
			}
		}
		return true
	})
	return r
}

func named(fd *ast.FuncDecl) bool {
	for _, f := range fd.Type.Params.List {
		if len(f.Names) == 0 {
			return false
		}
		for _, n := range f.Names {
			if n.Name == "_" {
				return false
			}
		}
	}
	if fd.Recv != nil && (len(fd.Recv.List[0].Names) == 0 || fd.Recv.List[0].Names[0].Name == "_") {
		return false
	}
	return true
}

func wrapfn(f *ast.File, fd *ast.FuncDecl) {
	if !named(fd) || fd.Name.Name == "init" || !site() {
		return
	}
	impl := ids(fd.Name.Name + "Impl")
	call := &ast.CallExpr{Fun: impl}
	if fd.Recv != nil {
		call.Fun = &ast.SelectorExpr{X: ids(fd.Recv.List[0].Names[0].Name), Sel: impl}
	}
	for _, p := range fd.Type.Params.List {
		for _, n := range p.Names {
			call.Args = append(call.Args, ids(n.Name))
		}
		if _, v := p.Type.(*ast.Ellipsis); v {
			call.Ellipsis = 1
		}
	}
	w := &ast.FuncDecl{Recv: fd.Recv, Name: fd.Name, Type: fd.Type}
	// results of the wrapper stay unnamed
	if fd.Type.Results != nil {
		rs := &ast.FieldList{}
		for _, x := range fd.Type.Results.List {
			k := len(x.Names)
			if k == 0 {
				k = 1
			}
			for i := 0; i < k; i++ {
				rs.List = append(rs.List, &ast.Field{Type: x.Type})
			}
		}
		w.Type = &ast.FuncType{Params: fd.Type.Params, Results: rs}
		w.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{call}}}}
	} else {
		w.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}
	}
	extra = append(extra, w)
	fd.Name = impl
}

func closureBody(fd *ast.FuncDecl) {
	if len(fd.Body.List) == 0 {
		return
	}
	rec := false
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Name == "recover" {
			rec = true
		}
		return true
	})
	if rec {
		return
	}
	rs := fd.Type.Results
	if rs != nil {
		for _, x := range rs.List {
			if len(x.Names) > 0 {
				return
			}
		}
	}
	if !site() {
		return
	}
	call := &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: rs}, Body: &ast.BlockStmt{List: fd.Body.List}}}
	if rs != nil {
		fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{call}}}}
	} else {
		fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}
	}
}

// rename every unexported package-level name, method and field and every local
// that the test files do not use.
func rename(p *packages.Package, dir string) {
	used := map[string]bool{}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if strings.HasSuffix(e.Name(), "_test.go") {
			b, _ := os.ReadFile(dir + "/" + e.Name())
			for _, w := range strings.FieldsFunc(string(b), func(r rune) bool {
				return !(r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z')
			}) {
				used[w] = true
			}
		}
	}
	want := func(o types.Object) bool {
		if o == nil || o.Pkg() != pkg || o.Exported() || o.Name() == "_" || o.Name() == "init" || o.Name() == "main" || used[o.Name()] {
			return false
		}
		switch o := o.(type) {
		case *types.PkgName, *types.Label:
			return false
		case *types.Func:
			if *kind != "rename" && *kind != "renamefn" {
				return false
			}
		case *types.TypeName:
			return *kind == "rename" || *kind == "renametype"
		case *types.Var:
			if o.Embedded() {
				return false
			}
			if *kind == "renametype" || *kind == "renamefn" || *kind == "renamefield" && !o.IsField() || *kind == "renamelocal" && o.IsField() {
				return false
			}
		}
		return true
	}
	for _, f := range p.Syntax {
		// embedded fields and type switches: keep names by skipping objects without an ident
		ast.Inspect(f, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				o := info.ObjectOf(id)
				if v, ok := o.(*types.Var); ok && v.Embedded() {
					return true
				}
				if want(o) {
					if t, ok := o.(*types.TypeName); ok && embedded(t) {
						return true
					}
					id.Name = o.Name() + "Q"
					sites++
				}
			}
			return true
		})
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				fd.Doc = nil
			}
		}
	}
}

func embedded(t *types.TypeName) bool {
	r := false
	for _, n := range pkg.Scope().Names() {
		if s, ok := pkg.Scope().Lookup(n).Type().Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Embedded() && s.Field(i).Name() == t.Name() {
					r = true
				}
			}
		}
	}
	return r
}
