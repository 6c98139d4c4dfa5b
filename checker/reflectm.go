package main

// Partial evaluation of package reflect: the types the codec is applied to
// are known, so every question about a type has a constant answer.

import (
	"go/types"
	"reflect"
	"strings"
)

func (e *Engine) rtype(T types.Type) *Term {
	return e.p.mk("rtype", rtKey(T), nil, T)
}

func rtKey(T types.Type) string { return types.TypeString(T, nil) }

// rtypeOf gives the type a reflect.Type value stands for, or nil.
func rtypeOf(t *Term) types.Type {
	if t == nil {
		return nil
	}
	if t.op == "iface" {
		t = t.args[0]
	}
	if t.op == "rtype" {
		return t.obj.(types.Type)
	}
	return nil
}

// rval is a reflect.Value: a value, or a place when addressable.
func (e *Engine) rval(v *Term, T types.Type) *Term {
	return e.p.mk("rval", rtKey(T), nil, T, v)
}
func (e *Engine) rplace(addr *Term, T types.Type) *Term {
	return e.p.mk("rplace", rtKey(T), nil, T, addr)
}

func (e *Engine) rload(s *State, r *Term) (*Term, types.Type) {
	T := r.obj.(types.Type)
	if r.op == "rplace" {
		return e.load(s, r.args[0], T), T
	}
	return r.args[0], T
}

func kindOf(T types.Type) reflect.Kind {
	switch u := T.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.String:
			return reflect.String
		}
	case *types.Array:
		return reflect.Array
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	case *types.Pointer:
		return reflect.Pointer
	case *types.Map:
		return reflect.Map
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func typeName(T types.Type) string {
	switch n := types.Unalias(T).(type) {
	case *types.Named:
		return n.Obj().Name()
	case *types.Basic:
		return n.Name()
	}
	return ""
}

func elemType(T types.Type) types.Type {
	switch u := T.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	}
	return nil
}

func (e *Engine) reflectCall(s *State, c *CallInfo, n string) (res []*Term, ok, handled bool) {
	p := e.p
	a := c.args
	one := func(t *Term) ([]*Term, bool, bool) { return []*Term{t}, true, true }
	rt := func(T types.Type) *Term { return p.mk("iface", "*reflect.rtype", nil, rtypeMarker, e.rtype(T)) }
	switch {
	case n == "reflect.TypeOf":
		x := a[0]
		if x.op == "iface" {
			return one(rt(x.obj.(types.Type)))
		}
		if x.op == "elemiface" {
			return one(rt(x.obj.(types.Type)))
		}
		return nil, false, false
	case n == "reflect.ValueOf":
		x := a[0]
		if x.op == "iface" {
			return one(e.rval(x.args[0], x.obj.(types.Type)))
		}
		if x.isNil() {
			return one(p.mk("rval0", "", nil, nil))
		}
		return nil, false, false
	case n == "reflect.SliceOf":
		if T := rtypeOf(a[0]); T != nil {
			return one(rt(types.NewSlice(T)))
		}
	case n == "reflect.PointerTo" || n == "reflect.PtrTo":
		if T := rtypeOf(a[0]); T != nil {
			return one(rt(types.NewPointer(T)))
		}
	case n == "reflect.New":
		if T := rtypeOf(a[0]); T != nil {
			o := e.fresh(c.fr, c.ins, "new", types.NewPointer(T))
			e.initObj(s, o, T)
			return one(e.rval(o, types.NewPointer(T)))
		}
	case n == "reflect.Zero":
		if T := rtypeOf(a[0]); T != nil {
			return one(e.rval(p.zero(T), T))
		}
	case n == "reflect.Indirect":
		if a[0].op == "rval" || a[0].op == "rplace" {
			v, T := e.rload(s, a[0])
			if pt, isP := T.Underlying().(*types.Pointer); isP {
				e.nonNil(s, c.ins, "nil dereference", v)
				return one(e.rplace(v, pt.Elem()))
			}
			return one(a[0])
		}
	case n == "reflect.MakeSlice":
		if T := rtypeOf(a[0]); T != nil {
			e.emit(s, c.ins, "alloc", "reflect.MakeSlice", []*Term{a[1], a[2]}, nil)
			if !e.require(s, c.ins, "make with a negative length", p.Ge0(a[1]), a[1]) || !e.require(s, c.ins, "make with a capacity below the length", p.Ge0(p.Sub(a[2], a[1])), a[2], a[1]) {
				return nil, false, true
			}
			o := e.fresh(c.fr, c.ins, "makeslice", T, a[1], a[2])
			e.clearObj(s, o)
			return one(e.rval(o, T))
		}
	case n == "reflect.Append":
		if a[0].op == "rval" || a[0].op == "rplace" {
			sl, T := e.rload(s, a[0])
			args := []*Term{sl}
			if sl.op == "append" {
				args = append([]*Term{}, sl.args...)
			}
			for _, x := range e.variadic(s, a[1]) {
				if x.op != "rval" && x.op != "rplace" {
					e.require(s, c.ins, "reflection on an invalid value", p.Bool(false), x)
					return nil, false, true
				}
				v, VT := e.rload(s, x)
				if !types.AssignableTo(VT, elemType(T)) {
					e.require(s, c.ins, "reflect: value is not assignable to the element type", p.Bool(false), x)
					return nil, false, true
				}
				args = append(args, v)
			}
			return one(e.rval(p.mk("append", "", T, nil, args...), T))
		}
	case strings.HasPrefix(n, "(reflect.Type)."), strings.HasPrefix(n, "(*reflect.rtype)."):
		T := rtypeOf(a[0])
		if T == nil {
			return nil, false, false
		}
		switch n[strings.LastIndexByte(n, '.')+1:] {
		case "Kind":
			return one(p.Int(int64(kindOf(T))))
		case "Name":
			return one(p.Str(typeName(T)))
		case "String":
			return one(p.Str(typeKey(T)))
		case "Elem":
			if et := elemType(T); et != nil {
				return one(rt(et))
			}
			e.require(s, c.ins, "reflect: Elem of a type without one", p.Bool(false), a[0])
			return nil, false, true
		case "NumField":
			if st, is := T.Underlying().(*types.Struct); is {
				return one(p.Int(int64(st.NumFields())))
			}
		case "Len":
			if at, is := T.Underlying().(*types.Array); is {
				return one(p.Int(at.Len()))
			}
		case "Field":
			st, is := T.Underlying().(*types.Struct)
			if is && a[1].isInt() && int(a[1].intVal()) < st.NumFields() && a[1].intVal() >= 0 {
				i := int(a[1].intVal())
				f := st.Field(i)
				sf := c.result().At(0).Type()
				ss := sf.Underlying().(*types.Struct)
				var vals []*Term
				for k := 0; k < ss.NumFields(); k++ {
					switch ss.Field(k).Name() {
					case "Name":
						vals = append(vals, p.Str(f.Name()))
					case "Type":
						vals = append(vals, rt(f.Type()))
					case "Tag":
						vals = append(vals, p.Str(st.Tag(i)))
					case "Anonymous":
						vals = append(vals, p.Bool(f.Anonymous()))
					case "PkgPath":
						if f.Exported() {
							vals = append(vals, p.Str(""))
						} else {
							vals = append(vals, p.Str("p"))
						}
					default:
						vals = append(vals, p.mk("sfield", ss.Field(k).Name(), ss.Field(k).Type(), nil, a[0], a[1]))
					}
				}
				return one(p.mk("struct", typeKey(sf), sf, nil, vals...))
			}
		}
	case n == "(reflect.StructTag).Get":
		if a[0].op == "str" && a[1].op == "str" {
			return one(p.Str(reflect.StructTag(a[0].aux).Get(a[1].aux)))
		}
	case n == "(reflect.StructTag).Lookup":
		if a[0].op == "str" && a[1].op == "str" {
			v, has := reflect.StructTag(a[0].aux).Lookup(a[1].aux)
			return []*Term{p.Str(v), p.Bool(has)}, true, true
		}
	case n == "(reflect.StructField).IsExported", n == "(*reflect.StructField).IsExported":
		return nil, false, false
	case strings.HasPrefix(n, "(reflect.Value)."):
		m := n[strings.LastIndexByte(n, '.')+1:]
		v := a[0]
		if v.op == "rval0" {
			switch m {
			case "IsValid":
				return one(p.Bool(false))
			case "Kind":
				return one(p.Int(0))
			}
			e.require(s, c.ins, "reflection on an invalid value", p.Bool(false), v)
			return nil, false, true
		}
		if v.op != "rval" && v.op != "rplace" {
			return nil, false, false
		}
		T := v.obj.(types.Type)
		switch m {
		case "IsValid":
			return one(p.Bool(true))
		case "Kind":
			return one(p.Int(int64(kindOf(T))))
		case "Type":
			return one(rt(T))
		case "NumField":
			if st, is := T.Underlying().(*types.Struct); is {
				return one(p.Int(int64(st.NumFields())))
			}
		case "Elem":
			if pt, is := T.Underlying().(*types.Pointer); is {
				x, _ := e.rload(s, v)
				e.nonNil(s, c.ins, "nil dereference", x)
				return one(e.rplace(x, pt.Elem()))
			}
		case "Field":
			st, is := T.Underlying().(*types.Struct)
			if is && a[1].isInt() && int(a[1].intVal()) < st.NumFields() {
				i := int(a[1].intVal())
				ft := st.Field(i).Type()
				var r *Term
				if v.op == "rplace" {
					r = e.rplace(e.fieldAddr(v.args[0], T, i), ft)
				} else {
					r = e.rval(e.fldOf(v.args[0], T, i), ft)
				}
				if !st.Field(i).Exported() {
					r = p.mk(r.op, r.aux+"!unexported", nil, r.obj, r.args...)
				}
				return one(r)
			}
		case "CanInterface", "CanSet":
			if strings.HasSuffix(v.aux, "!unexported") {
				return one(p.Bool(false))
			}
			return one(p.Bool(m == "CanInterface" || v.op == "rplace"))
		case "Interface":
			if strings.HasSuffix(v.aux, "!unexported") {
				e.require(s, c.ins, "reflect: Interface of an unexported field", p.Bool(false), v)
				return nil, false, true
			}
			x, _ := e.rload(s, v)
			if _, isI := T.Underlying().(*types.Interface); isI {
				return one(x)
			}
			return one(e.mkIface(x, T))
		case "Len":
			x, _ := e.rload(s, v)
			return one(e.lenOf(x))
		case "Index":
			x, _ := e.rload(s, v)
			if et := elemType(T); et != nil {
				if !e.bounds(s, c.ins, x, a[1], e.lenOf(x)) {
					return nil, false, true
				}
				return one(e.rplace(e.indexAddr(s, x, a[1], et), et))
			}
		case "IsNil":
			x, _ := e.rload(s, v)
			if !nilableType(T) {
				e.require(s, c.ins, "reflect: IsNil of a value that cannot be nil", p.Bool(false), v)
				return nil, false, true
			}
			return one(p.Eq(x, p.Nil()))
		case "Set":
			if v.op != "rplace" || strings.HasSuffix(v.aux, "!unexported") {
				e.require(s, c.ins, "reflect: Set on a value that is not settable", p.Bool(false), v)
				return nil, false, true
			}
			if a[1].op != "rval" && a[1].op != "rplace" {
				e.require(s, c.ins, "reflection on an invalid value", p.Bool(false), a[1])
				return nil, false, true
			}
			x, XT := e.rload(s, a[1])
			if !types.AssignableTo(XT, T) {
				e.require(s, c.ins, "reflect: value is not assignable to the field ("+typeKey(XT)+" to "+typeKey(T)+")", p.Bool(false), a[1])
				return nil, false, true
			}
			e.store(s, c.fr, c.ins, v.args[0], x)
			return nil, true, true
		case "Int":
			x, _ := e.rload(s, v)
			return one(x)
		case "Uint", "Bool", "String", "Bytes", "Float":
			x, _ := e.rload(s, v)
			return one(x)
		case "SetInt", "SetUint", "SetBool", "SetString", "SetBytes":
			if v.op == "rplace" {
				e.store(s, c.fr, c.ins, v.args[0], a[1])
				return nil, true, true
			}
		case "SetLen", "Grow":
		case "Addr":
			if v.op == "rplace" {
				return one(e.rval(v.args[0], types.NewPointer(T)))
			}
		case "Convert":
			if CT := rtypeOf(a[1]); CT != nil {
				x, _ := e.rload(s, v)
				return one(e.rval(x, CT))
			}
		}
	}
	return nil, false, false
}

var rtypeMarker types.Type = types.NewPointer(types.NewNamed(types.NewTypeName(0, types.NewPackage("reflect", "reflect"), "rtype", nil), types.NewStruct(nil, nil), nil))
