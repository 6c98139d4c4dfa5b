package main

import (
	"go/ast"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/packages"
)

// The rules name a few unexported types. What a type is called is not part of
// any property, so they are found by what they are – the store is what the mock
// points to that maps names to topics, and so on – and when one goes by another
// name its source is read under the name the rules use.

func ownStructOf(p *types.Package, t types.Type) (*types.TypeName, *types.Struct) {
	if x, ok := t.(*types.Pointer); ok {
		t = x.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() != p {
		return nil, nil
	}
	st, _ := n.Underlying().(*types.Struct)
	if st == nil {
		return nil, nil
	}
	return n.Obj(), st
}

// mapOf: the struct a field maps keys of the given kind to.
func mapOf(p *types.Package, st *types.Struct, key types.BasicKind) (*types.TypeName, *types.Struct) {
	for i := 0; i < st.NumFields(); i++ {
		m, ok := st.Field(i).Type().Underlying().(*types.Map)
		if !ok {
			continue
		}
		if b, ok := m.Key().Underlying().(*types.Basic); !ok || b.Kind() != key {
			continue
		}
		if n, s := ownStructOf(p, m.Elem()); n != nil {
			return n, s
		}
	}
	return nil, nil
}

func sliceOf(p *types.Package, st *types.Struct) (*types.TypeName, *types.Struct) {
	for i := 0; i < st.NumFields(); i++ {
		if m, ok := st.Field(i).Type().Underlying().(*types.Slice); ok {
			if n, s := ownStructOf(p, m.Elem()); n != nil {
				return n, s
			}
		}
	}
	return nil, nil
}

func roleNames(p *types.Package) map[string]*types.TypeName {
	out := map[string]*types.TypeName{}
	o := p.Scope().Lookup("KafkaMock")
	if o == nil {
		return out
	}
	mock, _ := o.Type().Underlying().(*types.Struct)
	if mock == nil {
		return out
	}
	for _, n := range p.Scope().Names() {
		if v, ok := p.Scope().Lookup(n).(*types.Var); ok {
			if m, ok := v.Type().Underlying().(*types.Map); ok {
				if h, ok := m.Elem().(*types.Named); ok && h.Obj().Pkg() == p {
					if _, fn := h.Underlying().(*types.Signature); fn {
						out["dispatchHandler"] = h.Obj()
					}
				}
			}
		}
	}
	for i := 0; i < mock.NumFields(); i++ {
		ft := mock.Field(i).Type()
		if n, s := ownStructOf(p, ft); n != nil {
			tn, ts := mapOf(p, s, types.String)
			if tn == nil {
				continue
			}
			pn, ps := mapOf(p, ts, types.Int32)
			if pn == nil {
				continue
			}
			out["kafkaDataStore"], out["kafkaTopic"], out["kafkaPartition"] = n, tn, pn
			if rn, rs := sliceOf(p, ps); rn != nil {
				out["kafkaRecord"] = rn
				if hn, _ := sliceOf(p, rs); hn != nil {
					out["kafkaRecordHeader"] = hn
				}
			}
			continue
		}
		var el types.Type
		switch x := ft.Underlying().(type) {
		case *types.Map:
			el = x.Elem()
		case *types.Slice:
			el = x.Elem()
		}
		if el == nil {
			continue
		}
		if n, s := ownStructOf(p, el); n != nil {
			for j := 0; j < s.NumFields(); j++ {
				if types.TypeString(s.Field(j).Type(), nil) == "net.Conn" {
					out["kafkaClient"] = n
				}
			}
		}
	}
	return out
}

// overlay gives the files that need other names.
func overlay(p *packages.Package) map[string][]byte {
	if p.Types == nil {
		return nil
	}
	to := map[types.Object]string{}
	for want, n := range roleNames(p.Types) {
		if n.Name() != want && p.Types.Scope().Lookup(want) == nil && !n.IsAlias() {
			to[n] = want
		}
	}
	if len(to) == 0 {
		return nil
	}
	out := map[string][]byte{}
	for i, f := range p.Syntax {
		if i >= len(p.CompiledGoFiles) {
			return nil
		}
		name := p.CompiledGoFiles[i]
		src, err := os.ReadFile(name)
		if err != nil {
			return nil
		}
		type edit struct {
			at, n int
			s     string
		}
		var es []edit
		bad := false
		ast.Inspect(f, func(n ast.Node) bool {
			id, ok := n.(*ast.Ident)
			if !ok {
				return true
			}
			o := p.TypesInfo.ObjectOf(id)
			if v, ok := o.(*types.Var); ok && v.Embedded() {
				if t, _ := ownStructOf(p.Types, v.Type()); t != nil && to[t] != "" {
					bad = true // its name is also a field's
				}
			}
			if s := to[o]; s != "" {
				es = append(es, edit{p.Fset.Position(id.Pos()).Offset, len(id.Name), s})
			}
			return true
		})
		if bad {
			return nil
		}
		if len(es) == 0 {
			continue
		}
		sort.Slice(es, func(i, j int) bool { return es[i].at > es[j].at })
		for _, x := range es {
			src = append(src[:x.at:x.at], append([]byte(x.s), src[x.at+x.n:]...)...)
		}
		out[name] = src
	}
	return out
}
