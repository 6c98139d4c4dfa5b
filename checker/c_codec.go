package main

// The codec applied to the types that are decoded and encoded: C05 (layouts),
// C07 (truncation), C08 (bounded work), C23 (no crash).

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// codecUse: one type that is decoded or encoded, and how.
type codecUse struct {
	Fn    *ssa.Function
	T     types.Type
	Args  []*Term // of the call; decode: reader, offset, type, ...
	Where string
}

func (u *codecUse) String() string {
	s := shortFn(u.Fn) + " of " + typeKey(u.T)
	return s
}

// codecUses lists what the given analyses decode and encode.
func (r *Report) codecUses(engines []*Engine) (dec, enc []*codecUse) {
	seen := map[string]bool{}
	for _, e := range engines {
		for _, ev := range e.evlist {
			if ev.Kind != "decode" && ev.Kind != "encode" || ev.Kind == "decode" && (ev.Name != "ok" || len(ev.Args) < 3) {
				continue
			}
			call, ok := ev.Site.ins.(ssa.CallInstruction)
			if !ok || call.Common().StaticCallee() == nil {
				r.fail("analysis", e.where(ev), "undecided: a call of the codec that is not static")
				continue
			}
			u := &codecUse{Fn: call.Common().StaticCallee(), Args: ev.Args, Where: e.where(ev)}
			if ev.Kind == "decode" {
				u.T = rtypeOf(ev.Args[2])
			} else {
				u.T = ifaceType(ev.Args[1])
			}
			if v := ev.Args[1]; u.T == nil && ev.Kind == "encode" && v.op == "res" && v.site != nil && strings.HasPrefix(v.aux, "dynamic@") {
				continue // what a handler returned: see responseUses
			}
			if u.T == nil {
				r.fail("analysis", u.Where, "undecided: the type that is "+ev.Kind+"d", ev.String())
				continue
			}
			k := ev.Kind + " " + u.String()
			for _, a := range u.Args[2:] {
				if isConst(a) {
					k += " " + a.String()
				}
			}
			if seen[k] {
				continue
			}
			seen[k] = true
			if ev.Kind == "decode" {
				dec = append(dec, u)
			} else {
				enc = append(enc, u)
			}
		}
	}
	sort.Slice(dec, func(i, j int) bool { return dec[i].String() < dec[j].String() })
	sort.Slice(enc, func(i, j int) bool { return enc[i].String() < enc[j].String() })
	return
}

// responseUses: what the handlers return, which is encoded where one is called.
func (r *Report) responseUses(engines []*Engine) (enc []*codecUse) {
	var u0 *codecUse
	for _, e := range engines {
		for _, ev := range e.evlist {
			if ev.Kind == "encode" && ev.Args[1].op == "res" && strings.HasPrefix(ev.Args[1].aux, "dynamic@") {
				if call, ok := ev.Site.ins.(ssa.CallInstruction); ok && call.Common().StaticCallee() != nil {
					u0 = &codecUse{Fn: call.Common().StaticCallee(), Args: ev.Args, Where: e.where(ev)}
				}
			}
		}
	}
	if u0 == nil {
		r.fail("analysis", "package", "anchor lost: no place where a handler's response is encoded")
		return nil
	}
	handlers := map[string]bool{}
	for _, f := range r.pr.handlerFuncs() {
		handlers[shortFn(f)] = true
	}
	seen := map[string]bool{}
	for _, e := range engines {
		if !handlers[e.cfg.Name] {
			continue
		}
		for _, pe := range e.ends {
			if pe.Kind != "return" || pe.Label != "" || len(pe.Res) != 3 || !pe.Res[2].isNil() {
				continue
			}
			T := ifaceType(pe.Res[0])
			if T == nil {
				r.fail("analysis", e.cfg.Name, "undecided: type of the response", str(pe.Res[0]))
				continue
			}
			if !seen[typeKey(T)] {
				seen[typeKey(T)] = true
				enc = append(enc, &codecUse{Fn: u0.Fn, T: T, Args: u0.Args, Where: e.cfg.Name})
			}
		}
	}
	sort.Slice(enc, func(i, j int) bool { return enc[i].String() < enc[j].String() })
	return
}

// decodeRun analyses the decoder for one type, from any offset of any bytes.
func decodeCfg(u *codecUse) *RootCfg {
	cfg := &RootCfg{Name: "decoding " + typeKey(u.T), Fn: u.Fn, NoDecodeModel: true}
	cfg.ArgsOf = func(e *Engine) []*Term {
		args := e.paramTerms(u.Fn, "")
		for i := 2; i < len(args); i++ {
			if typeKey(u.Fn.Params[i].Type()) == "reflect.Type" {
				args[i] = e.p.mk("iface", "*reflect.rtype", nil, rtypeMarker, e.rtype(u.T))
			} else if i < len(u.Args) && isConst(u.Args[i]) {
				args[i] = e.p.constLike(u.Args[i])
			}
		}
		return args
	}
	cfg.Init = func(e *Engine, s *State) {
		args := cfg.ArgsOf(e)
		s.mem[e.contentCell(args[0])] = e.p.Int(0)
		e.assume(s, e.p.Ge0(args[1]), true)
	}
	return cfg
}

// encodeCfg analyses the encoder for any value of one type.
func encodeCfg(u *codecUse) *RootCfg {
	cfg := &RootCfg{Name: "encoding " + typeKey(u.T), Fn: u.Fn, NoDecodeModel: true}
	cfg.ArgsOf = func(e *Engine) []*Term {
		args := e.paramTerms(u.Fn, "")
		for i := 1; i < len(args); i++ {
			T := u.Fn.Params[i].Type()
			switch {
			case typeKey(T) == "reflect.Type":
				args[i] = e.p.mk("iface", "*reflect.rtype", nil, rtypeMarker, e.rtype(u.T))
			case isAny(T):
				args[i] = e.mkIface(e.p.sym("param", "!val", u.T, nil), u.T)
			}
		}
		return args
	}
	return cfg
}

// constLike carries a constant from one term pool to another.
func (p *TermPool) constLike(t *Term) *Term {
	switch {
	case t.isInt():
		return p.Int(t.intVal())
	case t.isBool():
		return p.Bool(t.op == "true")
	case t.op == "str":
		return p.Str(t.aux)
	}
	return p.Nil()
}

func codecDump(pr *Program, kind, name string) *RootCfg {
	T := pr.typ(name)
	if T == nil {
		return nil
	}
	for _, f := range pr.fns {
		if codecRole(f) == kind && (f.Name() == "peekObject" || f.Name() == "encodeObject") {
			u := &codecUse{Fn: f, T: T}
			if kind == "decode" {
				return decodeCfg(u)
			}
			return encodeCfg(u)
		}
	}
	fmt.Println("no codec")
	return nil
}
