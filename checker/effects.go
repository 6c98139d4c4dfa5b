package main

// Which fields code that is called through a function value may write.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// dynWrites: the fields that any function of this signature whose address is
// taken may store to, with everything it calls; nil if that is not known.
func (pr *Program) dynWrites(sig *types.Signature) map[string]bool {
	key := types.TypeString(types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic()), nil)
	if pr.dynW == nil {
		pr.dynW = map[string]map[string]bool{}
	}
	if w, ok := pr.dynW[key]; ok {
		return w
	}
	out := map[string]bool{}
	pr.dynW[key] = out
	seen := map[*ssa.Function]bool{}
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if f.Origin() != nil && len(f.Blocks) == 0 {
			f = f.Origin()
		}
		if !seen[f] {
			seen[f] = true
			work = append(work, f)
		}
	}
	bySig := func(sig *types.Signature) {
		for f := range pr.addressTaken() {
			if identicalSig(f.Signature, types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())) {
				add(f)
			}
		}
	}
	bySig(sig)
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if aux, fa := fieldOfAddr(x.Addr); fa != nil {
						out[aux] = true
					} else if st, ok := pointee(x.Addr.Type()).Underlying().(*types.Struct); ok {
						if _, local := x.Addr.(*ssa.Alloc); !local {
							for i := 0; i < st.NumFields(); i++ {
								out[fieldAux(pointee(x.Addr.Type()), i)] = true
							}
						}
					}
				case *ssa.MakeClosure:
					add(x.Fn.(*ssa.Function))
				case ssa.CallInstruction:
					cc := x.Common()
					for _, a := range cc.Args {
						if aux, fa := fieldOfAddr(a); fa != nil {
							ft := typeKey(pointee(a.Type()))
							if !strings.HasPrefix(ft, "sync.") && !strings.HasPrefix(ft, "atomic.") {
								out[aux] = true
							}
						}
					}
					if cc.IsInvoke() {
						for _, g := range pr.fns {
							if g.Name() == cc.Method.Name() && g.Signature.Recv() != nil {
								add(g)
							}
						}
						continue
					}
					if g := cc.StaticCallee(); g != nil {
						if pr.inRepo(g) {
							add(g)
						}
						continue
					}
					if _, ok := cc.Value.(*ssa.Builtin); ok {
						continue
					}
					if s, ok := cc.Value.Type().Underlying().(*types.Signature); ok {
						bySig(s)
					}
				}
			}
		}
	}
	return out
}

// addressTaken: functions used as values.
func (pr *Program) addressTaken() map[*ssa.Function]bool {
	if pr.taken != nil {
		return pr.taken
	}
	pr.taken = map[*ssa.Function]bool{}
	fns := append([]*ssa.Function{}, pr.fns...)
	if f := pr.fn("init"); f != nil {
		fns = append(fns, f)
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					pr.taken[mc.Fn.(*ssa.Function)] = true
				}
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					callee = c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && (*op != callee || strings.HasPrefix(g.Name(), "init#")) {
						pr.taken[g] = true
					}
				}
			}
		}
	}
	return pr.taken
}
