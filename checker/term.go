package main

// Value terms: the abstract values of the analysis. Terms are hash-consed, so
// equal terms are the same pointer and aliasing of the same symbolic location
// is pointer equality.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Ctx struct {
	id     int
	parent *Ctx
	call   ssa.Instruction
	fn     *ssa.Function
	depth  int
}

type Site struct {
	ctx *Ctx
	blk *ssa.BasicBlock
	ins ssa.Instruction
}

type lin struct {
	coef map[*Term]int64
	c    int64
}

type Term struct {
	id   int
	op   string
	aux  string
	args []*Term
	typ  types.Type
	obj  any
	site *Site // for symbols
	syms []*Term
	lin  *lin
}

type TermPool struct {
	tab  map[string]*Term
	list []*Term
}

func newPool() *TermPool { return &TermPool{tab: map[string]*Term{}} }

func (p *TermPool) mk(op, aux string, typ types.Type, obj any, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(aux)
	for _, a := range args {
		b.WriteByte('|')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t, ok := p.tab[k]; ok {
		return t
	}
	t := &Term{id: len(p.list), op: op, aux: aux, args: args, typ: typ, obj: obj}
	seen := map[*Term]bool{}
	for _, a := range args {
		for _, s := range a.syms {
			if !seen[s] {
				seen[s] = true
				t.syms = append(t.syms, s)
			}
		}
	}
	p.tab[k] = t
	p.list = append(p.list, t)
	return t
}

// sym makes a leaf symbol that is its own free symbol.
func (p *TermPool) sym(op, aux string, typ types.Type, site *Site, args ...*Term) *Term {
	k := op + "|" + aux
	for _, a := range args {
		k += "|" + strconv.Itoa(a.id)
	}
	if t, ok := p.tab[k]; ok {
		return t
	}
	t := p.mk(op, aux, typ, nil, args...)
	t.site = site
	t.syms = append([]*Term{t}, t.syms...)
	return t
}

func (p *TermPool) Int(n int64) *Term {
	return p.mk("const", strconv.FormatInt(n, 10), types.Typ[types.Int], nil)
}
func (p *TermPool) Nil() *Term { return p.mk("nil", "", nil, nil) }
func (p *TermPool) Bool(b bool) *Term {
	if b {
		return p.mk("true", "", types.Typ[types.Bool], nil)
	}
	return p.mk("false", "", types.Typ[types.Bool], nil)
}
func (p *TermPool) Str(s string) *Term {
	return p.mk("str", s, types.Typ[types.String], nil)
}

func (t *Term) isInt() bool { return t.op == "const" }
func (t *Term) intVal() int64 {
	n, _ := strconv.ParseInt(t.aux, 10, 64)
	return n
}
func (t *Term) isNil() bool  { return t.op == "nil" }
func (t *Term) isBool() bool { return t.op == "true" || t.op == "false" }

func (p *TermPool) constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return p.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return p.Bool(constant.BoolVal(c.Value))
	case constant.Int:
		if isFloat(c.Type()) {
			return p.mk("float", c.Value.ExactString(), c.Type(), nil)
		}
		if n, ok := constant.Int64Val(c.Value); ok {
			return p.Int(n)
		}
		return p.mk("bigconst", c.Value.ExactString(), c.Type(), nil)
	case constant.String:
		return p.Str(constant.StringVal(c.Value))
	default:
		return p.mk("float", c.Value.ExactString(), c.Type(), nil)
	}
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// zero is the zero value of a type.
func (p *TermPool) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return p.Bool(false)
		case u.Info()&types.IsInteger != 0:
			return p.Int(0)
		case u.Info()&types.IsString != 0:
			return p.Str("")
		case u.Info()&types.IsFloat != 0:
			return p.mk("float", "0", t, nil)
		}
		return p.Nil()
	case *types.Struct:
		return p.mk("zero", typeKey(t), t, nil)
	case *types.Array:
		return p.mk("zero", typeKey(t), t, nil)
	}
	return p.Nil()
}

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// ---- linear integer arithmetic -------------------------------------------------

func toLin(t *Term) lin {
	if t.op == "const" {
		return lin{coef: map[*Term]int64{}, c: t.intVal()}
	}
	if t.op == "lin" {
		return *t.lin
	}
	return lin{coef: map[*Term]int64{t: 1}}
}

func linAdd(a, b lin, k int64) lin {
	r := lin{coef: map[*Term]int64{}, c: a.c + k*b.c}
	for t, v := range a.coef {
		r.coef[t] = v
	}
	for t, v := range b.coef {
		n := r.coef[t] + k*v
		if n == 0 {
			delete(r.coef, t)
		} else {
			r.coef[t] = n
		}
	}
	return r
}

func (p *TermPool) fromLin(l lin) *Term {
	if len(l.coef) == 0 {
		return p.Int(l.c)
	}
	atoms := make([]*Term, 0, len(l.coef))
	for t := range l.coef {
		atoms = append(atoms, t)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	if len(atoms) == 1 && l.c == 0 && l.coef[atoms[0]] == 1 {
		return atoms[0]
	}
	aux := strconv.FormatInt(l.c, 10)
	for _, a := range atoms {
		aux += "," + strconv.FormatInt(l.coef[a], 10)
	}
	t := p.mk("lin", aux, types.Typ[types.Int], nil, atoms...)
	if t.lin == nil {
		cp := lin{coef: map[*Term]int64{}, c: l.c}
		for k, v := range l.coef {
			cp.coef[k] = v
		}
		t.lin = &cp
	}
	return t
}

func (p *TermPool) Add(a, b *Term) *Term { return p.fromLin(linAdd(toLin(a), toLin(b), 1)) }
func (p *TermPool) Sub(a, b *Term) *Term { return p.fromLin(linAdd(toLin(a), toLin(b), -1)) }
func (p *TermPool) Scale(a *Term, k int64) *Term {
	if k == 0 {
		return p.Int(0)
	}
	return p.fromLin(linAdd(lin{coef: map[*Term]int64{}}, toLin(a), k))
}

// Ge0 is the condition t >= 0.
func (p *TermPool) Ge0(t *Term) *Term {
	if t.op == "const" {
		return p.Bool(t.intVal() >= 0)
	}
	return p.mk("ge0", "", types.Typ[types.Bool], nil, t)
}

func (p *TermPool) Not(c *Term) *Term {
	switch c.op {
	case "true":
		return p.Bool(false)
	case "false":
		return p.Bool(true)
	case "not":
		return c.args[0]
	case "ge0":
		return p.Ge0(p.Sub(p.Int(-1), c.args[0]))
	}
	return p.mk("not", "", types.Typ[types.Bool], nil, c)
}

func (p *TermPool) Eq(a, b *Term) *Term {
	if a == b {
		return p.Bool(true)
	}
	if a.id > b.id {
		a, b = b, a
	}
	// boolean comparison with a constant
	if a.isBool() {
		if a.op == "true" {
			return b
		}
		return p.Not(b)
	}
	if b.isBool() {
		if b.op == "true" {
			return a
		}
		return p.Not(a)
	}
	if isConst(a) && isConst(b) {
		return p.Bool(false) // distinct constants of one type
	}
	// a map entry that is a pointer is nil exactly when the key is absent
	if a.isNil() || b.isNil() {
		x := a
		if a.isNil() {
			x = b
		}
		if x.op == "mapval" && x.typ != nil {
			if _, ok := x.typ.Underlying().(*types.Pointer); ok {
				return p.Not(p.MapOk(x))
			}
		}
		if nonNilTerm(x) {
			return p.Bool(false)
		}
	}
	if (a.op == "lin" || b.op == "lin" || a.isInt() || b.isInt()) && !a.isNil() && !b.isNil() {
		d := linAdd(toLin(a), toLin(b), -1)
		if len(d.coef) == 0 {
			return p.Bool(d.c == 0)
		}
	}
	return p.mk("eq", "", types.Typ[types.Bool], nil, a, b)
}

// MapOk is the presence condition that belongs to a mapval term.
func (p *TermPool) MapOk(v *Term) *Term {
	return p.mk("mapok", v.aux, types.Typ[types.Bool], nil, v.args...)
}

func isConst(t *Term) bool {
	switch t.op {
	case "const", "true", "false", "str", "nil", "bigconst", "float":
		return true
	}
	return false
}

// nonNilTerm tells values that cannot be nil by construction.
func nonNilTerm(t *Term) bool {
	switch t.op {
	case "new", "field", "index", "global", "fn", "closure", "iface", "makemap", "makeslice", "append", "struct", "rtype", "str", "errnew", "bytesbuf", "bufr", "bufw", "strm":
		return true
	case "slice":
		return len(t.args) > 0 && nonNilTerm(t.args[0])
	case "param":
		return t.aux != "" && strings.HasPrefix(t.aux, "!")
	}
	return false
}

// ---- printing ------------------------------------------------------------------

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 14 {
		return "…"
	}
	a := func(i int) string { return t.args[i].str(d + 1) }
	switch t.op {
	case "const", "bigconst", "float":
		return t.aux
	case "nil", "true", "false":
		return t.op
	case "str":
		return strconv.Quote(t.aux)
	case "param":
		return strings.TrimPrefix(t.aux, "!")
	case "lin":
		atoms := t.args
		s := ""
		for _, x := range atoms {
			c := t.lin.coef[x]
			switch {
			case c == 1 && s == "":
				s = x.str(d + 1)
			case c == 1:
				s += "+" + x.str(d+1)
			case c == -1:
				s += "-" + x.str(d+1)
			default:
				s += fmt.Sprintf("%+d*%s", c, x.str(d+1))
			}
		}
		if t.lin.c != 0 {
			s += fmt.Sprintf("%+d", t.lin.c)
		}
		return "(" + s + ")"
	case "ge0":
		return a(0) + ">=0"
	case "not":
		return "!" + a(0)
	case "eq":
		return "(" + a(0) + "==" + a(1) + ")"
	case "field":
		return "&" + a(0) + "." + fieldNameOf(t.aux)
	case "fld":
		return a(0) + "." + fieldNameOf(t.aux)
	case "deref":
		return "*" + a(0)
	case "index":
		return "&" + a(0) + "[" + a(1) + "]"
	case "elem":
		return a(0) + "[" + a(1) + "]"
	case "conv":
		return t.aux + "(" + a(0) + ")"
	case "iface":
		return a(0)
	}
	parts := []string{}
	for i := range t.args {
		parts = append(parts, a(i))
	}
	s := t.op
	if t.aux != "" {
		s += ":" + shortAux(t.aux)
	}
	if len(parts) > 0 {
		s += "(" + strings.Join(parts, ", ") + ")"
	}
	return s
}

func shortAux(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 && strings.Contains(s[:i], "github.com") {
		s = s[i+1:]
	}
	return s
}

func fieldNameOf(aux string) string {
	aux, _, _ = strings.Cut(aux, "@")
	if i := strings.LastIndexByte(aux, '.'); i >= 0 {
		return aux[i+1:]
	}
	return aux
}

// hasSym reports whether t depends on symbol s.
func (t *Term) hasSym(s *Term) bool {
	for _, x := range t.syms {
		if x == s {
			return true
		}
	}
	return false
}

// walk visits t and its subterms.
func (t *Term) walk(f func(*Term)) {
	f(t)
	for _, a := range t.args {
		a.walk(f)
	}
}
