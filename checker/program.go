package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Options struct {
	unrollMaps  bool
	reverseMaps bool
}

type Program struct {
	roots []*Engine // every entry point, when several properties are decided in one run
	dynW  map[string]map[string]bool
	taken map[*ssa.Function]bool
	prog  *ssa.Program
	pkg   *ssa.Package
	tpkg  *types.Package
	fset  *token.FileSet
	infos map[*ssa.Function]*FnInfo
	fns   []*ssa.Function // every function of the repository, anonymous ones and instances included
	opts  Options
	files []string

	mutF    map[string]bool
	nilF    map[string]bool
	storesF map[string][]ssa.Instruction
	guardOf map[string]string // guarded field aux -> mutex field aux of the same struct
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir,
		Env: append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOSUMDB=off", "CGO_ENABLED=0", "GOWORK=off")}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range ps {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "; "))
	}
	if len(ps) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	for _, p := range ps {
		if p.Name != "kafkamock" {
			continue
		}
		if o := overlay(p); len(o) > 0 {
			cfg.Overlay = o
			again, err := packages.Load(cfg, "./...")
			ok := err == nil
			for _, q := range again {
				ok = ok && len(q.Errors) == 0
			}
			if ok {
				ps = again
			}
		}
		break
	}
	prog, pkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	pr := &Program{prog: prog, fset: prog.Fset, infos: map[*ssa.Function]*FnInfo{}}
	for i, p := range pkgs {
		if p != nil && p.Pkg.Name() == "kafkamock" {
			pr.pkg, pr.tpkg = p, p.Pkg
			pr.files = ps[i].GoFiles
		}
	}
	if pr.pkg == nil {
		return nil, fmt.Errorf("package kafkamock not found")
	}
	for fn := range ssautil.AllFunctions(prog) {
		if pr.inRepo(fn) && len(fn.Blocks) > 0 {
			pr.fns = append(pr.fns, fn)
		}
	}
	pr.fieldFacts()
	return pr, nil
}

func (pr *Program) inRepo(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	return f.Pkg == pr.pkg
}

func (pr *Program) fn(name string) *ssa.Function { return pr.pkg.Func(name) }

func (pr *Program) method(typ, name string) *ssa.Function {
	o := pr.tpkg.Scope().Lookup(typ)
	if o == nil {
		return nil
	}
	t := o.Type()
	for _, T := range []types.Type{t, types.NewPointer(t)} {
		sel := pr.prog.MethodSets.MethodSet(T).Lookup(pr.tpkg, name)
		if sel == nil {
			continue
		}
		if m := pr.prog.MethodValue(sel); m != nil && m.Blocks != nil && m.Synthetic == "" {
			return m
		}
	}
	return nil
}

func (pr *Program) typ(name string) types.Type {
	o := pr.tpkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// ---- per-function facts --------------------------------------------------------

func (pr *Program) info(fn *ssa.Function) *FnInfo {
	if i, ok := pr.infos[fn]; ok {
		return i
	}
	i := &FnInfo{loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, back: map[[2]*ssa.BasicBlock]bool{}, idx: map[ssa.Instruction]int{}}
	pr.infos[fn] = i
	for _, b := range fn.Blocks {
		for n, in := range b.Instrs {
			i.idx[in] = n
		}
		for _, t := range b.Succs {
			if t.Dominates(b) {
				i.back[[2]*ssa.BasicBlock{b, t}] = true
				body := i.loops[t]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{t: true}
					i.loops[t] = body
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[x] {
						continue
					}
					body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	pr.liveness(fn, i)
	return i
}

func (pr *Program) liveness(fn *ssa.Function, info *FnInfo) {
	info.liveIn = map[*ssa.BasicBlock]map[ssa.Value]bool{}
	tracked := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
			return false
		}
		return true
	}
	for changed := true; changed; {
		changed = false
		for n := len(fn.Blocks) - 1; n >= 0; n-- {
			b := fn.Blocks[n]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range info.liveIn[s] {
					live[v] = true
				}
				pi := 0
				for i, p := range s.Preds {
					if p == b {
						pi = i
					}
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if tracked(ph.Edges[pi]) {
						live[ph.Edges[pi]] = true
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && tracked(*op) {
						live[*op] = true
					}
				}
			}
			// phis of b are live at entry in this representation
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				_ = ph
			}
			if len(live) != len(info.liveIn[b]) {
				info.liveIn[b] = live
				changed = true
			}
		}
	}
	info.at = map[*ssa.BasicBlock][]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		live := map[ssa.Value]bool{}
		for _, s := range b.Succs {
			for v := range info.liveIn[s] {
				live[v] = true
			}
			pi := 0
			for i, p := range s.Preds {
				if p == b {
					pi = i
				}
			}
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if tracked(ph.Edges[pi]) {
					live[ph.Edges[pi]] = true
				}
			}
		}
		at := make([]map[ssa.Value]bool, len(b.Instrs)+1)
		cp := func() map[ssa.Value]bool {
			m := make(map[ssa.Value]bool, len(live))
			for v := range live {
				m[v] = true
			}
			return m
		}
		at[len(b.Instrs)] = cp()
		for k := len(b.Instrs) - 1; k >= 0; k-- {
			in := b.Instrs[k]
			if _, ok := in.(*ssa.Phi); ok {
				// a phi's value is live if used later
				at[k] = cp()
				continue
			}
			if v, ok := in.(ssa.Value); ok {
				delete(live, v)
			}
			for _, op := range in.Operands(nil) {
				if *op != nil && tracked(*op) {
					live[*op] = true
				}
			}
			at[k] = cp()
		}
		info.at[b] = at
	}
}

func (pr *Program) liveAt(fn *ssa.Function, b *ssa.BasicBlock, pc int) map[ssa.Value]bool {
	return pr.info(fn).at[b][pc]
}

// dependsOnPhi: is v computed from a phi of header h by arithmetic, or from a
// call or map iteration step in the loop?
func (pr *Program) dependsOnPhi(v ssa.Value, h *ssa.BasicBlock) bool {
	seen := map[ssa.Value]bool{}
	var f func(v ssa.Value, d int) bool
	f = func(v ssa.Value, d int) bool {
		if seen[v] || d > 12 {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			if x.Block() == h {
				return true
			}
			for _, e := range x.Edges {
				if f(e, d+1) {
					return true
				}
			}
		case *ssa.BinOp:
			return f(x.X, d+1) || f(x.Y, d+1)
		case *ssa.UnOp:
			return f(x.X, d+1)
		case *ssa.Convert:
			return f(x.X, d+1)
		case *ssa.ChangeType:
			return f(x.X, d+1)
		case *ssa.Extract:
			return f(x.Tuple, d+1)
		case *ssa.Next:
			return pr.opts.unrollMaps
		case *ssa.Alloc:
			return true
		}
		return false
	}
	return f(v, 0)
}

// ---- facts about struct fields -------------------------------------------------

func isMutexType(t types.Type) bool {
	s := typeKey(t)
	return s == "sync.Mutex" || s == "sync.RWMutex" || s == "*sync.Mutex" || s == "*sync.RWMutex"
}

func fieldOfAddr(v ssa.Value) (string, *ssa.FieldAddr) {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return "", nil
	}
	return fieldAux(pointee(fa.X.Type()), fa.Field), fa
}

func isFreshBase(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return isFreshBase(x.X)
	}
	return false
}

// fieldFacts computes, without regard to flow: which fields are written after
// construction, which pointer fields may hold nil, and which fields a mutex of
// the same struct guards.
func (pr *Program) fieldFacts() {
	pr.mutF, pr.nilF, pr.storesF, pr.guardOf = map[string]bool{}, map[string]bool{}, map[string][]ssa.Instruction{}, map[string]string{}
	markMut := func(v ssa.Value) {
		// the field a map or slice value was loaded from
		for i := 0; i < 6; i++ {
			switch x := v.(type) {
			case *ssa.UnOp:
				if aux, fa := fieldOfAddr(x.X); fa != nil && !isFreshBase(fa.X) {
					pr.mutF[aux] = true
				}
				return
			case *ssa.ChangeType:
				v = x.X
				continue
			case *ssa.Slice:
				v = x.X
				continue
			}
			return
		}
	}
	for _, fn := range pr.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if aux, fa := fieldOfAddr(x.Addr); fa != nil {
						pr.storesF[aux] = append(pr.storesF[aux], x)
						if !isFreshBase(fa.X) {
							pr.mutF[aux] = true
						}
					}
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
						markMut(ia.X)
					}
				case *ssa.MapUpdate:
					markMut(x.Map)
				case ssa.CallInstruction:
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
						markMut(x.Common().Args[0])
					}
					// a field whose address is passed on may be written there
					for _, a := range x.Common().Args {
						if aux, fa := fieldOfAddr(a); fa != nil {
							ft := pointee(a.Type())
							if isMutexType(ft) || strings.HasPrefix(typeKey(ft), "sync.") || strings.HasPrefix(typeKey(ft), "atomic.") {
								continue
							}
							pr.mutF[aux] = true
						}
					}
				}
			}
		}
	}
	// guards: a struct of this package that has a mutex guards its own fields
	// that change after construction
	sc := pr.tpkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		mu := ""
		for i := 0; i < st.NumFields(); i++ {
			if isMutexType(st.Field(i).Type()) {
				mu = fieldAux(tn.Type(), i)
			}
		}
		if mu == "" {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			aux := fieldAux(tn.Type(), i)
			if aux != mu && pr.mutF[aux] {
				pr.guardOf[aux] = mu
			}
		}
	}
	// nilability, to a fixpoint
	for changed := true; changed; {
		changed = false
		mark := func(aux string) {
			if !pr.nilF[aux] {
				pr.nilF[aux] = true
				changed = true
			}
		}
		for _, fn := range pr.fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						if aux, fa := fieldOfAddr(x.Addr); fa != nil && pr.mayNil(x.Val, 0) {
							mark(aux)
						}
					case *ssa.Alloc:
						T := pointee(x.Type())
						st, ok := T.Underlying().(*types.Struct)
						if !ok || !pr.ownType(T) {
							continue
						}
						set := map[int]bool{}
						whole := false
						for _, r := range *x.Referrers() {
							switch y := r.(type) {
							case *ssa.FieldAddr:
								for _, r2 := range *y.Referrers() {
									if sto, ok := r2.(*ssa.Store); ok && sto.Addr == y {
										set[y.Field] = true
									}
								}
							case *ssa.Store:
								if y.Addr == x {
									whole = true
								}
							}
						}
						if whole {
							continue
						}
						for i := 0; i < st.NumFields(); i++ {
							if !set[i] {
								mark(fieldAux(T, i))
							}
						}
					}
				}
			}
		}
	}
}

func (pr *Program) ownType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == pr.tpkg
}

func nilableType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface, *types.Signature, *types.Chan:
		return true
	}
	return false
}

func (pr *Program) mayNil(v ssa.Value, d int) bool {
	if !nilableType(v.Type()) || d > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && pr.mayNil(e, d+1) {
				return true
			}
		}
		return false
	case *ssa.Lookup:
		return true
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Lookup:
			return true
		case *ssa.TypeAssert:
			return true
		case *ssa.Call:
			return pr.callMayNil(t, x.Index, d)
		}
		return false
	case *ssa.Call:
		return pr.callMayNil(x, 0, d)
	case *ssa.UnOp:
		if aux, fa := fieldOfAddr(x.X); fa != nil {
			return pr.nilF[aux]
		}
		return false
	case *ssa.ChangeType:
		return pr.mayNil(x.X, d+1)
	case *ssa.Parameter:
		return false
	}
	return false
}

func (pr *Program) callMayNil(c *ssa.Call, idx, d int) bool {
	f := c.Common().StaticCallee()
	if f == nil || !pr.inRepo(f) {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok && idx < len(r.Results) {
				if pr.mayNil(r.Results[idx], d+1) {
					return true
				}
			}
		}
	}
	return false
}

func (pr *Program) nilableField(aux string) bool {
	if pr.nilF[aux] {
		return true
	}
	return pr.requestField(aux)
}

// fields of decoded requests hold whatever was sent
func (pr *Program) requestField(aux string) bool {
	return strings.Contains(strings.ToLower(auxStruct(aux)), "request") || len(pr.storesF[aux]) == 0
}

func (pr *Program) mutableField(aux string) bool {
	aux, _, _ = strings.Cut(aux, "@")
	return pr.mutF[aux]
}

// singleStore: is the variable stored to exactly once, here and in closures?
func (pr *Program) singleStore(a *ssa.Alloc) bool {
	n := 0
	var count func(v ssa.Value)
	count = func(v ssa.Value) {
		if v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == v {
					n++
				} else {
					n += 2
				}
			case *ssa.MakeClosure:
				f := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v {
						count(f.FreeVars[i])
					}
				}
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				n += 2
			}
		}
	}
	count(a)
	return n <= 1
}

// closureStored: is the local variable stored to in a closure that is not just
// called or deferred where it is made?
func (pr *Program) closureStored(ins ssa.Instruction) bool {
	al, ok := ins.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return false
	}
	if _, isStruct := pointee(al.Type()).Underlying().(*types.Struct); isStruct {
		return false
	}
	var stored func(v ssa.Value) bool
	stored = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == v {
					return true
				}
			case *ssa.MakeClosure:
				for i, b := range x.Bindings {
					if b == v && stored(x.Fn.(*ssa.Function).FreeVars[i]) {
						return true
					}
				}
			}
		}
		return false
	}
	for _, r := range *al.Referrers() {
		mc, ok := r.(*ssa.MakeClosure)
		if !ok {
			continue
		}
		kept := false
		for _, u := range *mc.Referrers() {
			switch x := u.(type) {
			case *ssa.Call:
				kept = kept || x.Call.Value != mc
			case *ssa.Defer:
				kept = kept || x.Call.Value != mc
			case *ssa.DebugRef:
			default:
				kept = true
			}
		}
		if !kept {
			continue
		}
		for i, b := range mc.Bindings {
			if b == al && stored(mc.Fn.(*ssa.Function).FreeVars[i]) {
				return true
			}
		}
	}
	return false
}

func (pr *Program) hasMutex(t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if isMutexType(st.Field(i).Type()) {
			return true
		}
	}
	return false
}
