package main

// The fixpoint engine: abstract interpretation of SSA over value-numbering
// terms. Calls inside the repository are analysed in the caller's context,
// loops are taken to a fixpoint by replacing everything they change with loop
// symbols, and control paths are kept apart (trace partitioning) until their
// abstract states coincide.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Event struct {
	id   int
	Kind string
	Name string
	Args []*Term
	Res  []*Term
	Site *Site
	Fn   *ssa.Function
	Pos  token.Pos
	Ctl  string // of loop events: the flags at the loop
}

func (ev *Event) String() string {
	var a, r []string
	for _, t := range ev.Args {
		a = append(a, t.String())
	}
	for _, t := range ev.Res {
		r = append(r, t.String())
	}
	s := ev.Kind + " " + ev.Name + "(" + strings.Join(a, ", ") + ")"
	if len(r) > 0 {
		s += " -> " + strings.Join(r, ", ")
	}
	if ev.Ctl != "" {
		s += " {" + ev.Ctl + "}"
	}
	return s
}

type RootCfg struct {
	Name   string
	Fn     *ssa.Function
	Args   []*Term // optional; default parameters
	ArgsOf func(e *Engine) []*Term
	Model  func(e *Engine, s *State, c *CallInfo) (ok, handled bool)
	Keep   func(ev *Event) bool
	Hook   func(s *State, ev *Event)
	Init   func(e *Engine, s *State)
	// follow goroutines started by this root, in the context of the start
	Spawn         bool
	Extra         []func(*Engine) (*ssa.Function, []*Term) // functions to run after Fn, in sequence
	NoDecodeModel bool
	MaxStates     int
}

type Widen struct {
	phis     map[string]bool
	wrap     map[string]*Term // a value kept in an interface or reflect.Value of one type
	cells    map[*Term]bool
	vers     map[string]bool
	esc      map[*Term]bool
	shr      map[*Term]bool
	noUnroll bool
	cands    map[*Term]bool // invariant candidates over loop symbols; false = refuted
	ctl      map[*Term]bool // cells that hold flags, told apart rather than widened
	cond     map[*Term]bool
	fields   map[fieldKey]bool // of struct values carried round
}

type fieldKey struct {
	name string
	i    int
}

type LoopVar struct {
	T    *Term
	Init *Term
	Phi  *ssa.Phi
	Cell *Term
}

type Iter struct {
	H     string
	Next  map[*Term]*Term
	Evs   []*Event
	Facts map[*Term]bool
	Lins  []*Term
	State *State
	// flags at the start and at the end of the iteration
	CtlIn, CtlOut string
}

type LoopInfo struct {
	Key    string
	Header *ssa.BasicBlock
	Ctx    *Ctx
	Vars   map[*Term]*LoopVar
	Inits  []map[*Term]*Term
	Iters  []*Iter
	Cond   []*Term
	Pos    token.Pos
}

type PathEnd struct {
	S     *State
	Kind  string // "return", "panic", "block"
	Res   []*Term
	Evs   []*Event
	Fn    *ssa.Function
	Label string
}

type FnInfo struct {
	loops  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
	back   map[[2]*ssa.BasicBlock]bool
	liveIn map[*ssa.BasicBlock]map[ssa.Value]bool
	idx    map[ssa.Instruction]int
	at     map[*ssa.BasicBlock][]map[ssa.Value]bool
}

type Spawned struct {
	id    int
	State *State
	Fn    *ssa.Function
	Args  []*Term
	Bind  []*Term
	Ev    *Event
	Label string
}

type Engine struct {
	open      []*Oblig
	p         *TermPool
	pr        *Program
	cfg       *RootCfg
	ctxs      map[string]*Ctx
	nctx      int
	wid       map[string]*Widen
	change    bool
	final     bool
	fetch     *FetchModel
	work      []*State
	seen      map[string]bool
	events    map[string]*Event
	evlist    []*Event
	loops     map[string]*LoopInfo
	ends      []*PathEnd
	spawns    []*Spawned
	spawnSeen map[string]bool
	segList   []*Seg
	serving   map[*Event]*Term
	problems  map[string]bool
	nstates   int
	steps     int
	passes    int
	callSites map[string]bool
	fns       map[string]bool
	oblig     map[string]bool
}

func newEngine(pr *Program, cfg *RootCfg) *Engine {
	e := &Engine{p: newPool(), pr: pr, cfg: cfg, ctxs: map[string]*Ctx{}, wid: map[string]*Widen{}}
	return e
}

func (e *Engine) problem(f string, a ...any) {
	if e.problems == nil {
		e.problems = map[string]bool{}
	}
	e.problems[fmt.Sprintf(f, a...)] = true
}

// Run analyses the root to a fixpoint, then once more with the hooks on.
func (e *Engine) Run() {
	for e.passes = 0; e.passes < 60; e.passes++ {
		e.change = false
		e.final = false
		e.pass()
		if !e.change {
			break
		}
		if len(e.problems) > 0 {
			break
		}
	}
	if e.change && len(e.problems) == 0 {
		e.problem("no fixpoint for %s", e.cfg.Name)
	}
	e.final = true
	e.pass()
}

func (e *Engine) reset() {
	e.work = nil
	e.seen = map[string]bool{}
	e.events = map[string]*Event{}
	e.evlist = nil
	e.loops = map[string]*LoopInfo{}
	e.ends = nil
	e.spawns = nil
	e.spawnSeen = map[string]bool{}
	e.problems = nil
	e.nstates = 0
	e.steps = 0
	e.callSites = map[string]bool{}
	e.fns = map[string]bool{}
	e.oblig = map[string]bool{}
}

func (e *Engine) newState() *State {
	return &State{mem: map[*Term]*Term{}, memver: map[string]*Term{}, facts: map[*Term]bool{}, shared: map[*Term]bool{}, escaped: map[*Term]bool{}}
}

func (e *Engine) pass() {
	e.reset()
	s := e.newState()
	fn := e.cfg.Fn
	args := e.cfg.Args
	if e.cfg.ArgsOf != nil {
		args = e.cfg.ArgsOf(e)
	}
	if args == nil {
		args = e.paramTerms(fn, "")
	}
	if e.cfg.Init != nil {
		e.cfg.Init(e, s)
	}
	e.enter(s, fn, args, nil, nil, nil, nil)
	e.push(s)
	max := e.cfg.MaxStates
	if max == 0 {
		max = 60000
	}
	si := 0
	for {
		for len(e.work) > 0 {
			st := e.work[len(e.work)-1]
			e.work = e.work[:len(e.work)-1]
			e.nstates++
			if e.nstates > max {
				e.problem("state budget exceeded in %s", e.cfg.Name)
				return
			}
			e.run(st)
			if len(e.problems) > 0 && !e.final {
				return
			}
		}
		if si >= len(e.spawns) {
			break
		}
		sp := e.spawns[si]
		si++
		ns := sp.State.clone()
		e.enter(ns, sp.Fn, sp.Args, sp.Bind, nil, sp.Ev, nil)
		ns.label = sp.Label
		ns.spawn = sp
		e.push(ns)
	}
}

func (e *Engine) paramTerms(fn *ssa.Function, pfx string) []*Term {
	var args []*Term
	for i, p := range fn.Params {
		name := p.Name()
		if name == "" || name == "_" {
			name = "arg" + strconv.Itoa(i)
		}
		pre := ""
		if i == 0 && fn.Signature.Recv() != nil || e.assumeNonNilParam(p.Type()) {
			pre = "!"
		}
		args = append(args, e.p.sym("param", pre+pfx+name, p.Type(), nil))
	}
	return args
}

// pointers, functions and interfaces handed to a root by this repository are
// never nil; slices, maps and strings may be.
func (e *Engine) assumeNonNilParam(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature, *types.Chan:
		return true
	}
	return false
}

func (e *Engine) ctx(parent *Ctx, call ssa.Instruction, fn *ssa.Function, sfx string) *Ctx {
	k := "r"
	d := 0
	if parent != nil {
		k = strconv.Itoa(parent.id)
		d = parent.depth + 1
	}
	if call != nil {
		k += fmt.Sprintf("@%p", call)
	}
	k += "|" + fn.String() + "|" + sfx
	if c, ok := e.ctxs[k]; ok {
		return c
	}
	e.nctx++
	c := &Ctx{id: e.nctx, parent: parent, call: call, fn: fn, depth: d}
	e.ctxs[k] = c
	return c
}

func (e *Engine) siteKey(fr *Frame, ins ssa.Instruction) string {
	return fmt.Sprintf("%d.%d.%d%s", fr.ctx.id, ins.Block().Index, e.pr.info(fr.fn).idx[ins], fr.usfx)
}

func (e *Engine) site(fr *Frame, ins ssa.Instruction) *Site {
	return &Site{ctx: fr.ctx, blk: ins.Block(), ins: ins}
}

// fresh symbol named by its program point.
func (e *Engine) fresh(fr *Frame, ins ssa.Instruction, op string, typ types.Type, args ...*Term) *Term {
	return e.p.sym(op, e.siteKey(fr, ins), typ, e.site(fr, ins), args...)
}

func (e *Engine) enter(s *State, fn *ssa.Function, args, bind []*Term, call ssa.Instruction, ev *Event, retTo ssa.Value) {
	var parent *Ctx
	sfx := ""
	if len(s.frames) > 0 {
		t := s.top()
		parent = t.ctx
		sfx = t.usfx
	}
	var c *Ctx
	if ev != nil { // spawned
		parent = ev.Site.ctx
		c = e.ctx(parent, ev.Site.ins, fn, "go")
		s.frames = nil
		sfx = ""
	} else {
		c = e.ctx(parent, call, fn, "")
	}
	fr := &Frame{fn: fn, ctx: c, env: map[ssa.Value]*Term{}, blk: fn.Blocks[0], retTo: retTo, usfx: sfx, usfx0: sfx}
	if c.depth > 70 {
		e.problem("call depth exceeded at %s", fn.String())
	}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(bind) {
			fr.env[v] = bind[i]
		} else {
			fr.env[v] = e.p.sym("param", "!free."+fn.Name()+"."+v.Name(), v.Type(), nil)
		}
	}
	s.frames = append(s.frames, fr)
	if e.final {
		e.fns[fn.String()] = true
	}
}

func (e *Engine) push(s *State) { e.work = append(e.work, s) }

// ---- events --------------------------------------------------------------------

func (e *Engine) emit(s *State, ins ssa.Instruction, kind, name string, args, res []*Term) *Event {
	fr := s.top()
	var st *Site
	pos := token.NoPos
	var k strings.Builder
	k.WriteString(kind)
	k.WriteByte('|')
	k.WriteString(name)
	for _, a := range args {
		k.WriteByte(',')
		k.WriteString(strconv.Itoa(a.id))
	}
	k.WriteByte('>')
	for _, a := range res {
		k.WriteByte(',')
		k.WriteString(strconv.Itoa(a.id))
	}
	if ins != nil {
		st = e.site(fr, ins)
		pos = ins.Pos()
		k.WriteString(e.siteKey(fr, ins))
	}
	ev, ok := e.events[k.String()]
	if !ok {
		ev = &Event{id: len(e.evlist), Kind: kind, Name: name, Args: args, Res: res, Site: st, Fn: fr.fn, Pos: pos}
		e.events[k.String()] = ev
		e.evlist = append(e.evlist, ev)
	}
	if e.cfg.Keep == nil || e.cfg.Keep(ev) {
		s.ev = append(s.ev, ev)
	}
	if e.final && e.cfg.Hook != nil {
		e.cfg.Hook(s, ev)
	}
	return ev
}

// where describes an event's position for reports.
func (e *Engine) where(ev *Event) string {
	s := ev.Fn.Name()
	pos := ev.Pos
	if !pos.IsValid() && ev.Site != nil {
		for c := ev.Site.ctx; c != nil && !pos.IsValid(); c = c.parent {
			if c.call != nil {
				pos = c.call.Pos()
			}
		}
	}
	if pos.IsValid() {
		p := e.pr.fset.Position(pos)
		s = fmt.Sprintf("%s:%d (%s)", baseName(p.Filename), p.Line, s)
	}
	return s
}

func baseName(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[i+1:]
	}
	return s
}

func (e *Engine) stackOf(ev *Event) string {
	var parts []string
	if ev.Site != nil {
		for c := ev.Site.ctx; c != nil; c = c.parent {
			parts = append(parts, c.fn.Name())
		}
	}
	for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
		parts[i], parts[j] = parts[j], parts[i]
	}
	return strings.Join(parts, " > ")
}

// ---- obligations ---------------------------------------------------------------

// require states that cond must hold here. It is an event of kind "oblig" when
// it cannot be shown; afterwards it is assumed.
// require notes a condition that the instruction needs, and assumes it.
func (e *Engine) require(s *State, ins ssa.Instruction, what string, cond *Term, args ...*Term) bool {
	return e.oblige(s, ins, what, cond, args...) || e.assume(s, cond, true)
}

// oblige notes a condition that the instruction needs, and says whether it is known to hold.
func (e *Engine) oblige(s *State, ins ssa.Instruction, what string, cond *Term, args ...*Term) bool {
	if known, v := e.eval(s, cond); known && v {
		if e.final {
			e.oblig[what+"|"+e.siteKey(s.top(), ins)] = true
		}
		return true
	}
	if e.final {
		e.oblig[what+"|"+e.siteKey(s.top(), ins)] = true
		fr := s.top()
		ev := &Event{id: -1, Kind: "oblig", Name: what, Args: append([]*Term{cond}, args...), Site: e.site(fr, ins), Fn: fr.fn, Pos: ins.Pos()}
		e.open = append(e.open, &Oblig{Ev: ev, S: s.clone()})
		if e.cfg.Hook != nil {
			e.cfg.Hook(s, ev)
		}
	}
	return false
}

// Oblig: a condition that an instruction needs and that is not known to hold.
type Oblig struct {
	Ev *Event
	S  *State
}

func (e *Engine) nonNil(s *State, ins ssa.Instruction, what string, x *Term) bool {
	if nonNilTerm(x) || x.op == "slice" {
		return true
	}
	if !e.nilable(s, x) {
		return true
	}
	return e.require(s, ins, what, e.p.Not(e.p.Eq(x, e.p.Nil())), x)
}

// nilable: may this pointer value be nil as far as its origin tells?
func (e *Engine) nilable(s *State, x *Term) bool {
	switch x.op {
	case "nil":
		return true
	case "mapval":
		return true
	case "fld":
		return e.pr.nilableField(x.aux)
	case "elem":
		// elements of pointer slices are required to be non-nil when stored
		b := x.args[0]
		for b.op == "slice" || b.op == "append" || b.op == "concat" {
			b = b.args[0]
		}
		return b.op == "makeslice" || b.op == "zero"
	case "loop", "havoc", "assert", "zero":
		return true
	case "param":
		return !strings.HasPrefix(x.aux, "!") && false
	}
	return false
}

// ---- running -------------------------------------------------------------------

func (e *Engine) run(s *State) {
	for {
		if len(s.frames) == 0 {
			return
		}
		fr := s.top()
		if fr.pc >= len(fr.blk.Instrs) {
			return
		}
		ins := fr.blk.Instrs[fr.pc]
		e.steps++
		s.steps++
		if s.steps > 400000 {
			e.problem("path too long in %s", e.cfg.Name)
			return
		}
		if len(e.problems) > 0 {
			return
		}
		cont := e.step(s, fr, ins)
		if !cont {
			return
		}
	}
}

// val is the term of an SSA operand.
func (e *Engine) val(s *State, fr *Frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return e.p.constTerm(v)
	case *ssa.Global:
		return e.globalTerm(v)
	case *ssa.Function:
		return e.p.mk("fn", v.String(), v.Type(), v)
	case *ssa.Builtin:
		return e.p.mk("builtin", v.Name(), nil, nil)
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	t := e.p.sym("unset", fmt.Sprintf("%d.%s", fr.ctx.id, v.Name()), v.Type(), nil)
	fr.env[v] = t
	return t
}

func (e *Engine) step(s *State, fr *Frame, ins ssa.Instruction) bool {
	set := func(v ssa.Value, t *Term) {
		if t.typ == nil && v.Type() != nil && !isConst(t) {
			if _, ok := v.Type().(*types.Tuple); !ok {
				t.typ = v.Type()
			}
		}
		fr.env[v] = t
	}
	V := func(v ssa.Value) *Term { return e.val(s, fr, v) }
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		// handled on the edge
	case *ssa.Alloc:
		n := e.fresh(fr, ins, "new", x.Type())
		e.initObj(s, n, pointee(x.Type()))
		set(x, n)
	case *ssa.BinOp:
		set(x, e.binop(s, fr, x, V(x.X), V(x.Y)))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a := V(x.X)
			if !e.nonNil(s, ins, "nil dereference", a) {
				return false
			}
			if a.op == "new" && s.shared[a] && a.site != nil && e.pr.closureStored(a.site.ins) {
				// a goroutine that holds the closure may have stored to it since
				s.mem[a] = e.p.sym("havoc", e.siteKey(fr, x)+"/captured", x.Type(), e.site(fr, x))
			}
			v := e.load(s, a, x.Type())
			e.noteAccess(s, ins, "load", a, v)
			set(x, v)
		case token.NOT:
			set(x, e.p.Not(V(x.X)))
		case token.SUB:
			if isInteger(x.Type()) {
				set(x, e.wrap(s, x.Type(), e.p.Scale(V(x.X), -1)))
			} else {
				set(x, e.p.mk("un:-", "", x.Type(), nil, V(x.X)))
			}
		case token.ARROW:
			ch := V(x.X)
			v := e.fresh(fr, ins, "recv", nil, ch)
			e.emit(s, ins, "recv", "", []*Term{ch}, nil)
			if x.CommaOk {
				set(x, e.p.mk("tuple", "", nil, nil, v, e.fresh(fr, ins, "recvok", types.Typ[types.Bool], ch)))
			} else {
				set(x, v)
			}
		default:
			set(x, e.p.mk("un:"+x.Op.String(), "", x.Type(), nil, V(x.X)))
		}
	case *ssa.ChangeType:
		set(x, e.changeType(V(x.X), x.Type()))
	case *ssa.Convert:
		set(x, e.convert(s, fr, ins, V(x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		set(x, e.convert(s, fr, ins, V(x.X), x.X.Type(), x.Type()))
	case *ssa.ChangeInterface:
		fr.env[x] = V(x.X)
	case *ssa.SliceToArrayPointer:
		set(x, e.p.mk("toarr", "", x.Type(), nil, V(x.X)))
	case *ssa.MakeInterface:
		set(x, e.mkIface(V(x.X), x.X.Type()))
	case *ssa.MakeClosure:
		args := []*Term{}
		for _, b := range x.Bindings {
			t := V(b)
			e.escape(s, t)
			args = append(args, t)
		}
		set(x, e.p.mk("closure", x.Fn.String(), x.Type(), x.Fn, args...))
	case *ssa.MakeMap:
		if x.Reserve != nil {
			e.emit(s, ins, "alloc", "make", []*Term{V(x.Reserve), V(x.Reserve)}, nil)
		}
		n := e.fresh(fr, ins, "makemap", x.Type())
		e.clearObj(s, n)
		set(x, n)
	case *ssa.MakeChan:
		e.emit(s, ins, "alloc", "make", []*Term{V(x.Size), V(x.Size)}, nil)
		set(x, e.fresh(fr, ins, "makechan", x.Type()))
	case *ssa.MakeSlice:
		l, c := V(x.Len), V(x.Cap)
		e.emit(s, ins, "alloc", "make", []*Term{l, c}, nil)
		if !e.require(s, ins, "make with a negative length", e.p.Ge0(l), l) {
			return false
		}
		if c != l && !e.require(s, ins, "make with a capacity below the length", e.p.Ge0(e.p.Sub(c, l)), c, l) {
			return false
		}
		n := e.fresh(fr, ins, "makeslice", x.Type(), l, c)
		e.clearObj(s, n)
		s.mem[n] = e.p.mk("zeroes", "", nil, nil)
		set(x, n)
	case *ssa.Slice:
		t, ok := e.slice(s, fr, x)
		if !ok {
			return false
		}
		set(x, t)
	case *ssa.FieldAddr:
		b := V(x.X)
		if !e.nonNil(s, ins, "nil dereference", b) {
			return false
		}
		fr.env[x] = e.fieldAddr(b, pointee(x.X.Type()), x.Field)
	case *ssa.Field:
		fr.env[x] = e.fldOf(V(x.X), x.X.Type(), x.Field)
	case *ssa.IndexAddr:
		b, i := V(x.X), V(x.Index)
		var n *Term
		et := pointee(x.Type())
		if pt := pointee(x.X.Type()); pt != nil {
			n = e.p.Int(pt.Underlying().(*types.Array).Len())
		} else {
			n = e.lenOf(b)
		}
		if !e.bounds(s, ins, b, i, n) {
			return false
		}
		fr.env[x] = e.indexAddr(s, b, i, et)
	case *ssa.Index:
		b, i := V(x.X), V(x.Index)
		var n *Term
		if at, ok := x.X.Type().Underlying().(*types.Array); ok {
			n = e.p.Int(at.Len())
		} else {
			n = e.lenOf(b)
		}
		if !e.bounds(s, ins, b, i, n) {
			return false
		}
		set(x, e.elemOf(s, b, i, x.Type()))
	case *ssa.Lookup:
		return e.lookup(s, fr, x)
	case *ssa.Extract:
		t := V(x.Tuple)
		if t.op == "tuple" && x.Index < len(t.args) {
			r := t.args[x.Index]
			set(x, r)
		} else {
			set(x, e.p.mk("extract", strconv.Itoa(x.Index), x.Type(), nil, t))
		}
	case *ssa.Range:
		m := V(x.X)
		it := e.fresh(fr, ins, "iter", nil, m)
		s.mem[it] = e.p.Int(0)
		e.noteMap(s, ins, "maprange", m, nil, nil)
		fr.env[x] = it
	case *ssa.Next:
		return e.next(s, fr, x)
	case *ssa.TypeAssert:
		return e.typeAssert(s, fr, x)
	case *ssa.Store:
		a, v := V(x.Addr), V(x.Val)
		if !e.nonNil(s, ins, "nil dereference", a) {
			return false
		}
		if _, el := x.Addr.(*ssa.IndexAddr); el && isPtr(x.Val.Type()) && !e.nonNil(s, ins, "nil stored in a slice", v) {
			return false
		}
		e.noteAccess(s, ins, "store", a, v)
		e.store(s, fr, ins, a, v)
	case *ssa.MapUpdate:
		m, k, v := V(x.Map), V(x.Key), V(x.Value)
		if m.isNil() || m.op == "zero" {
			e.require(s, ins, "write to a nil map", e.p.Bool(false), m)
			return false
		}
		if m.op != "makemap" {
			if !e.require2nilmap(s, ins, m) {
				return false
			}
		}
		if isPtr(x.Value.Type()) && !e.nonNil(s, ins, "nil stored in a map", v) {
			return false
		}
		e.noteMap(s, ins, "mapset", m, k, v)
		e.mapset(s, fr, ins, m, k, v)
	case *ssa.Send:
		ch, v := V(x.Chan), V(x.X)
		e.escape(s, v)
		e.share(s, v)
		e.emit(s, ins, "send", "", []*Term{ch, v}, nil)
	case *ssa.Select:
		return e.selectIns(s, fr, x)
	case *ssa.Go:
		return e.call(s, fr, ins, x.Common(), nil, "go")
	case *ssa.Defer:
		d := &DeferRec{call: x.Common(), ins: ins}
		if !x.Common().IsInvoke() {
			d.fnv = V(x.Common().Value)
		} else {
			d.fnv = V(x.Common().Value)
		}
		for _, a := range x.Common().Args {
			d.args = append(d.args, V(a))
		}
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		if len(fr.defers) > 0 {
			return e.runDefer(s, fr, ins)
		}
	case *ssa.Call:
		return e.call(s, fr, ins, x.Common(), x, "")
	case *ssa.Panic:
		e.emit(s, ins, "panic", "", []*Term{V(x.X)}, nil)
		return e.unwind(s, ins)
	case *ssa.Return:
		var res []*Term
		for _, r := range x.Results {
			res = append(res, V(r))
		}
		return e.ret(s, fr, ins, res)
	case *ssa.Jump:
		return e.edge(s, fr, fr.blk.Succs[0])
	case *ssa.If:
		c := V(x.Cond)
		e.noteExitTest(s, fr, x, c)
		known, v := e.eval(s, c)
		if known {
			if !c.isBool() {
				e.assume(s, c, v)
			}
			if v {
				return e.edge(s, fr, fr.blk.Succs[0])
			}
			return e.edge(s, fr, fr.blk.Succs[1])
		}
		o := s.clone()
		if e.assume(o, c, false) {
			if e.edge(o, o.top(), o.top().blk.Succs[1]) {
				e.push(o)
			}
		}
		if !e.assume(s, c, true) {
			return false
		}
		return e.edge(s, fr, fr.blk.Succs[0])
	default:
		e.problem("unhandled instruction %T in %s", ins, fr.fn.String())
		return false
	}
	fr.pc++
	return true
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func (e *Engine) initObj(s *State, n *Term, T types.Type) {
	e.clearObj(s, n)
	s.mem[n] = e.p.zero(T)
}

func (e *Engine) clearObj(s *State, n *Term) {
	for c := range s.mem {
		if c == n || under(c, n) || (c.op != "field" && c.op != "index" && c.op != "new" && c.hasSym(n) && (c.op == "content" || c.op == "mapcell" || c.op == "under")) {
			delete(s.mem, c)
		}
	}
	delete(s.escaped, n)
	delete(s.shared, n)
	s.dropFacts(func(t *Term) bool { return t == n })
}

// a map held in a struct field that is always initialised is not nil
func (e *Engine) require2nilmap(s *State, ins ssa.Instruction, m *Term) bool {
	if !e.nilable(s, m) {
		return true
	}
	return e.require(s, ins, "write to a nil map", e.p.Not(e.p.Eq(m, e.p.Nil())), m)
}

func (e *Engine) bounds(s *State, ins ssa.Instruction, b, i, n *Term) bool {
	if !e.require(s, ins, "index out of range", e.p.Ge0(i), i, n, b) {
		return false
	}
	return e.require(s, ins, "index out of range", e.p.Ge0(e.p.Sub(e.p.Sub(n, i), e.p.Int(1))), i, n, b)
}

func (e *Engine) binop(s *State, fr *Frame, x *ssa.BinOp, a, b *Term) *Term {
	T := x.X.Type()
	if isInteger(T) {
		switch x.Op {
		case token.ADD:
			return e.wrap(s, T, e.p.Add(a, b))
		case token.SUB:
			return e.wrap(s, T, e.p.Sub(a, b))
		case token.MUL:
			if b.isInt() {
				return e.wrap(s, T, e.p.Scale(a, b.intVal()))
			}
			if a.isInt() {
				return e.wrap(s, T, e.p.Scale(b, a.intVal()))
			}
		case token.SHL:
			if b.isInt() && b.intVal() < 62 && b.intVal() >= 0 && a.isInt() {
				return e.wrap(s, T, e.p.Scale(a, 1<<uint(b.intVal())))
			}
		case token.LSS:
			return e.p.Ge0(e.p.Sub(e.p.Sub(b, a), e.p.Int(1)))
		case token.LEQ:
			return e.p.Ge0(e.p.Sub(b, a))
		case token.GTR:
			return e.p.Ge0(e.p.Sub(e.p.Sub(a, b), e.p.Int(1)))
		case token.GEQ:
			return e.p.Ge0(e.p.Sub(a, b))
		}
		if a.isInt() && b.isInt() {
			av, bv := a.intVal(), b.intVal()
			switch x.Op {
			case token.QUO:
				if bv != 0 {
					return e.p.Int(av / bv)
				}
			case token.REM:
				if bv != 0 {
					return e.p.Int(av % bv)
				}
			case token.AND:
				return e.p.Int(av & bv)
			case token.OR:
				return e.p.Int(av | bv)
			case token.XOR:
				return e.p.Int(av ^ bv)
			case token.SHR:
				return e.p.Int(av >> uint(bv))
			}
		}
		if x.Op == token.QUO || x.Op == token.REM {
			if !b.isInt() {
				e.require(s, x, "division by zero", e.p.Not(e.p.Eq(b, e.p.Int(0))), b)
			}
		}
	}
	switch x.Op {
	case token.EQL:
		return e.eqTerms(s, a, b)
	case token.NEQ:
		return e.p.Not(e.eqTerms(s, a, b))
	case token.ADD:
		if isString(T) {
			if a.op == "str" && b.op == "str" {
				return e.p.Str(a.aux + b.aux)
			}
			return e.p.mk("concat", "", T, nil, a, b)
		}
	}
	rt := x.Type()
	return e.p.mk("bin:"+x.Op.String(), "", rt, nil, a, b)
}

// wrap: the result r of arithmetic in the integer type T. Signed 64-bit
// arithmetic is taken as unbounded; in narrower types, and below zero in
// unsigned ones, a result that is not known to fit is reduced to the type.
func (e *Engine) wrap(s *State, T types.Type, r *Term) *Term {
	bits, signed, ok := intRange(T)
	if !ok || bits == 64 && signed {
		return r
	}
	if r.isInt() && (bits < 64 || r.intVal() >= 0) {
		n := r.intVal()
		if bits == 64 {
			return r
		}
		m := n & (1<<uint(bits) - 1)
		if signed && m >= 1<<uint(bits-1) {
			m -= 1 << uint(bits)
		}
		return e.p.Int(m)
	}
	lo, hi := int64(0), int64(0)
	if signed {
		lo, hi = -1<<uint(bits-1), 1<<uint(bits-1)-1
	} else if bits < 64 {
		hi = 1<<uint(bits) - 1
	}
	if e.entails(s, e.p.Sub(r, e.p.Int(lo))) && (bits == 64 || e.entails(s, e.p.Sub(e.p.Int(hi), r))) {
		return r
	}
	return e.p.mk("conv", typeKey(T.Underlying()), T, nil, r)
}

func (e *Engine) eqTerms(s *State, a, b *Term) *Term {
	// comparing an interface holding a known type with nil
	if a.op == "iface" && b.op == "iface" {
		if a.aux == b.aux {
			return e.p.Eq(a.args[0], b.args[0])
		}
		return e.p.Bool(false)
	}
	// a string equals "" exactly when its length is 0
	return e.p.Eq(a, b)
}

func (e *Engine) mkIface(v *Term, T types.Type) *Term {
	return e.p.mk("iface", typeKey(T), T, T, v)
}

func ifaceType(t *Term) types.Type {
	if t.op == "iface" {
		return t.obj.(types.Type)
	}
	return nil
}

func (e *Engine) changeType(v *Term, T types.Type) *Term {
	if v.op == "zero" || v.op == "struct" {
		// struct conversion keeps the fields
		return e.p.mk(v.op, typeKey(T), T, nil, v.args...)
	}
	return v
}

func intRange(t types.Type) (bits int, signed bool, ok bool) {
	b, is := t.Underlying().(*types.Basic)
	if !is {
		return
	}
	ok = true
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func (e *Engine) convert(s *State, fr *Frame, ins ssa.Instruction, v *Term, from, to types.Type) *Term {
	if isInteger(from) && isInteger(to) {
		fb, fs, _ := intRange(from)
		tb, ts, _ := intRange(to)
		if v.isInt() {
			n := v.intVal()
			if tb == 64 && ts {
				return v
			}
			if tb == 64 {
				if n >= 0 {
					return v
				}
				return e.p.mk("conv", typeKey(to), to, nil, v)
			}
			m := n & (1<<uint(tb) - 1)
			if ts && m >= 1<<uint(tb-1) {
				m -= 1 << uint(tb)
			}
			return e.p.Int(m)
		}
		if tb > fb && (ts || !fs) || tb == fb && ts == fs {
			return v
		}
		// an inner conversion that lost nothing
		if v.op == "conv" && v.typ != nil {
			w := v.args[0]
			ib, is := 0, false
			if w.typ != nil {
				ib, is, _ = intRange(w.typ)
			}
			vb, _, _ := intRange(v.typ)
			if ib == tb && is == ts && vb >= tb {
				return w
			}
		}
		return e.p.mk("conv", typeKey(to.Underlying()), to, nil, v)
	}
	if isString(to) || isString(from) {
		if v.op == "str" && isString(to) && isString(from) {
			return v
		}
		if v.op == "str" && v.aux == "" {
			return e.p.mk("conv", typeKey(to.Underlying()), to, nil, v)
		}
		if v.op == "conv" && isString(to) && v.args[0].typ != nil && isString(v.args[0].typ) {
			return v.args[0]
		}
		if isString(to) && isString(from) {
			return v
		}
		if v.isNil() && isString(to) {
			return e.p.Str("")
		}
		if runes(from) || runes(to) {
			return e.p.mk("runes", typeKey(to.Underlying()), to, nil, v)
		}
		r := e.p.mk("conv", typeKey(to.Underlying()), to, nil, v)
		return r
	}
	return e.p.mk("conv", typeKey(to), to, nil, v)
}

// runes: not bytes that a string can be converted to or from unchanged.
func runes(T types.Type) bool {
	if isString(T) {
		return false
	}
	return !isByteSlice(T)
}

// lenOf is the length of a slice, string, map or array value.
func (e *Engine) lenOf(x *Term) *Term {
	switch x.op {
	case "nil":
		return e.p.Int(0)
	case "str":
		return e.p.Int(int64(len(x.aux)))
	case "makeslice":
		return x.args[0]
	case "slice":
		return e.p.Sub(x.args[2], x.args[1])
	case "append":
		return e.p.Add(e.lenOf(x.args[0]), e.p.Int(int64(len(x.args)-1)))
	case "concat":
		n := e.p.Int(0)
		for _, a := range x.args {
			n = e.p.Add(n, e.lenOf(a))
		}
		return n
	case "conv":
		return e.lenOf(x.args[0])
	case "clone", "bytesval":
		return e.lenOf(x.args[0])
	case "cat":
		n := e.p.Int(0)
		for _, a := range x.args {
			n = e.p.Add(n, e.partLen(a))
		}
		return n
	case "peek":
		return e.p.mk("len", "", types.Typ[types.Int], nil, x)
	case "slicelit":
		return e.p.Int(int64(len(x.args)))
	}
	return e.p.mk("len", "", types.Typ[types.Int], nil, x)
}

func (e *Engine) partLen(a *Term) *Term {
	switch a.op {
	case "be":
		return e.p.Int(int64(a.obj.(int)))
	case "raw":
		return e.lenOf(a.args[0])
	}
	return e.p.mk("len", "", types.Typ[types.Int], nil, a)
}

func (e *Engine) slice(s *State, fr *Frame, x *ssa.Slice) (*Term, bool) {
	b := e.val(s, fr, x.X)
	var n *Term
	isArr := false
	if pt := pointee(x.X.Type()); pt != nil {
		n = e.p.Int(pt.Underlying().(*types.Array).Len())
		isArr = true
	} else {
		n = e.lenOf(b)
	}
	lo, hi := e.p.Int(0), n
	if x.Low != nil {
		lo = e.val(s, fr, x.Low)
	}
	if x.High != nil {
		hi = e.val(s, fr, x.High)
	}
	limit := n
	if b.op == "makeslice" {
		limit = b.args[1]
	}
	if x.Low != nil {
		if !e.require(s, x, "slice bounds out of range", e.p.Ge0(lo), lo, hi, b) {
			return nil, false
		}
		if !e.require(s, x, "slice bounds out of range", e.p.Ge0(e.p.Sub(hi, lo)), lo, hi, b) {
			return nil, false
		}
	} else if x.High != nil {
		if !e.require(s, x, "slice bounds out of range", e.p.Ge0(hi), lo, hi, b) {
			return nil, false
		}
	}
	if x.High != nil {
		in := e.p.Ge0(e.p.Sub(limit, hi))
		if _, isStr := x.X.Type().Underlying().(*types.Basic); isArr || isStr || limit != n {
			if !e.require(s, x, "slice bounds out of range", in, lo, hi, b) {
				return nil, false
			}
		} else {
			// only the capacity bounds it, so nothing follows about the length
			e.oblige(s, x, "slice bounds out of range", in, lo, hi, b)
		}
	}
	if !isArr && x.Low == nil && hi == n {
		return b, true
	}
	if !isArr && lo.isInt() && lo.intVal() == 0 && hi == n {
		return b, true
	}
	for b.op == "slice" {
		lo = e.p.Add(b.args[1], lo)
		hi = e.p.Add(b.args[1], hi)
		b = b.args[0]
	}
	return e.p.mk("slice", "", x.Type(), nil, b, lo, hi), true
}

// ---- maps ----------------------------------------------------------------------

func (e *Engine) mapKeyVer(m *Term) string {
	k := "m:"
	if m.typ != nil {
		k += typeKey(m.typ.Underlying())
	}
	return k
}

func (e *Engine) mapcell(m, k *Term) *Term { return e.p.mk("mapcell", "", nil, nil, m, k) }

func (e *Engine) mapget(s *State, m, k *Term, VT types.Type) (v, ok *Term) {
	if w, have := s.mem[e.mapcell(m, k)]; have {
		if w.op == "deleted" {
			return e.p.zero(VT), e.p.Bool(false)
		}
		return w, e.p.Bool(true)
	}
	if m.op == "makemap" && (!s.escaped[m] || e.pr.opts.unrollMaps) && s.memver["m1:"+strconv.Itoa(m.id)] == nil {
		// never given to anyone: only the entries seen here
		all := true
		for c := range s.mem {
			if c.op == "mapcell" && c.args[0] == m {
				if kn, v := e.eval(s, e.p.Eq(c.args[1], k)); !kn || v {
					all = false
				}
			}
		}
		if all {
			return e.p.zero(VT), e.p.Bool(false)
		}
	}
	args := []*Term{m, k}
	if ver := s.memver[e.mapKeyVer(m)]; ver != nil {
		args = append(args, ver)
	}
	v = e.p.mk("mapval", "", VT, nil, args...)
	ok = e.p.mk("mapok", "", types.Typ[types.Bool], nil, args...)
	if kn, val := e.eval(s, ok); kn && !val {
		v = e.p.zero(VT)
	}
	return v, ok
}

func (e *Engine) mapset(s *State, fr *Frame, ins ssa.Instruction, m, k, v *Term) {
	cell := e.mapcell(m, k)
	for c := range s.mem {
		if c.op == "mapcell" && c != cell {
			if c.args[0] == m || e.mayAliasMap(s, c.args[0], m) {
				if kn, val := e.eval(s, e.p.Eq(c.args[1], k)); kn && !val {
					continue
				}
				if c.args[0] != m && !e.mayAliasMap(s, c.args[0], m) {
					continue
				}
				delete(s.mem, c)
				if m.op == "makemap" {
					s.memver["m1:"+strconv.Itoa(m.id)] = e.fresh(fr, ins, "ver", nil)
				}
			}
		}
	}
	s.mem[cell] = v
	if !(m.op == "makemap" && !s.escaped[m]) {
		s.memver[e.mapKeyVer(m)] = e.fresh(fr, ins, "ver", nil)
		e.escape(s, v)
		e.share(s, v)
		e.escape(s, k)
	} else if s.shared[m] {
		e.share(s, v)
	}
}

func (e *Engine) mayAliasMap(s *State, a, b *Term) bool {
	if a == b {
		return true
	}
	if a.typ != nil && b.typ != nil && !types.Identical(a.typ.Underlying(), b.typ.Underlying()) {
		return false
	}
	return e.mayAliasBase(s, a, b)
}

func (e *Engine) lookup(s *State, fr *Frame, x *ssa.Lookup) bool {
	m, k := e.val(s, fr, x.X), e.val(s, fr, x.Index)
	if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
		if m.isNil() {
			if x.CommaOk {
				fr.env[x] = e.p.mk("tuple", "", nil, nil, e.p.zero(mt.Elem()), e.p.Bool(false))
			} else {
				fr.env[x] = e.p.zero(mt.Elem())
			}
			fr.pc++
			return true
		}
		v, okT := e.mapget(s, m, k, mt.Elem())
		e.noteMap(s, x, "mapget", m, k, v)
		if x.CommaOk {
			fr.env[x] = e.p.mk("tuple", "", nil, nil, v, okT)
		} else {
			fr.env[x] = v
		}
		fr.pc++
		return true
	}
	// string index
	if !e.bounds(s, x, m, k, e.lenOf(m)) {
		return false
	}
	fr.env[x] = e.elemOf(s, m, k, x.Type())
	fr.pc++
	return true
}

// knownEntries: the exact entries of a map built in this run, or nil.
func (e *Engine) knownEntries(s *State, m *Term) ([]*Term, bool) {
	if m.op != "makemap" || s.memver["m1:"+strconv.Itoa(m.id)] != nil {
		return nil, false
	}
	var ks []*Term
	for c, v := range s.mem {
		if c.op == "mapcell" && c.args[0] == m && v.op != "deleted" {
			if !isConst(c.args[1]) {
				return nil, false
			}
			ks = append(ks, c.args[1])
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks, true
}

func (e *Engine) next(s *State, fr *Frame, x *ssa.Next) bool {
	it := e.val(s, fr, x.Iter)
	tt := x.Type().(*types.Tuple)
	m := it
	if it.op == "iter" {
		m = it.args[0]
	}
	if !x.IsString && it.op == "iter" {
		mt := m.typ
		var kt, vt types.Type = tt.At(1).Type(), tt.At(2).Type()
		if mt != nil {
			if mm, ok := mt.Underlying().(*types.Map); ok {
				kt, vt = mm.Key(), mm.Elem()
			}
		}
		if ks, ok := e.knownEntries(s, m); ok && e.pr.opts.unrollMaps {
			n := 0
			if c := s.mem[it]; c != nil && c.isInt() {
				n = int(c.intVal())
			}
			if len(fr.loops) > 0 {
				fr.loops[len(fr.loops)-1].decided = true
			}
			if n >= len(ks) {
				fr.env[x] = e.p.mk("tuple", "", nil, nil, e.p.Bool(false), e.p.zero(kt), e.p.zero(vt))
			} else {
				k := ks[n]
				if e.pr.opts.reverseMaps {
					k = ks[len(ks)-1-n]
				}
				s.mem[it] = e.p.Int(int64(n + 1))
				fr.env[x] = e.p.mk("tuple", "", nil, nil, e.p.Bool(true), k, s.mem[e.mapcell(m, k)])
			}
			fr.pc++
			return true
		}
		e.noteMap(s, x, "mapnext", m, nil, nil)
		k := e.fresh(fr, x, "mapkey", kt, m)
		v, ok := e.mapget(s, m, k, vt)
		// done
		o := s.clone()
		of := o.top()
		of.env[x] = e.p.mk("tuple", "", nil, nil, e.p.Bool(false), e.p.zero(kt), e.p.zero(vt))
		e.emit(o, x, "mapdone", "", []*Term{it, m}, nil)
		of.pc++
		e.push(o)
		if !e.assume(s, ok, true) {
			return false
		}
		if m.isNil() {
			return false
		}
		fr.env[x] = e.p.mk("tuple", "", nil, nil, e.p.Bool(true), k, v)
		fr.pc++
		return true
	}
	o := s.clone()
	of := o.top()
	of.env[x] = e.p.mk("tuple", "", nil, nil, e.p.Bool(false), e.p.Int(0), e.p.Int(0))
	of.pc++
	e.push(o)
	fr.env[x] = e.p.mk("tuple", "", nil, nil, e.p.Bool(true), e.fresh(fr, x, "runeidx", types.Typ[types.Int], m), e.fresh(fr, x, "rune", types.Typ[types.Rune], m))
	fr.pc++
	return true
}

func (e *Engine) typeAssert(s *State, fr *Frame, x *ssa.TypeAssert) bool {
	v := e.val(s, fr, x.X)
	T := x.AssertedType
	_, toIface := T.Underlying().(*types.Interface)
	if v.isNil() {
		if x.CommaOk {
			fr.env[x] = e.p.mk("tuple", "", nil, nil, e.p.zero(T), e.p.Bool(false))
			fr.pc++
			return true
		}
		e.require(s, x, "failed type conversion", e.p.Bool(false), v)
		return false
	}
	if it := ifaceType(v); it != nil {
		var ok bool
		var r *Term
		if toIface {
			ok = types.Implements(it, T.Underlying().(*types.Interface))
			r = v
		} else {
			ok = types.Identical(it, T)
			r = v.args[0]
		}
		if x.CommaOk {
			if !ok {
				r = e.p.zero(T)
			}
			fr.env[x] = e.p.mk("tuple", "", nil, nil, r, e.p.Bool(ok))
			fr.pc++
			return true
		}
		if !ok {
			e.require(s, x, "failed type conversion", e.p.Bool(false), v)
			return false
		}
		fr.env[x] = r
		fr.pc++
		return true
	}
	r := e.p.mk("assert", typeKey(T), T, nil, v)
	if toIface {
		r = v
	}
	ok := e.p.mk("isa", typeKey(T), types.Typ[types.Bool], nil, v)
	if x.CommaOk {
		// decide here, so that the failed value is the zero value
		if kn, val := e.eval(s, ok); kn {
			if !val {
				r = e.p.zero(T)
			}
			fr.env[x] = e.p.mk("tuple", "", nil, nil, r, e.p.Bool(val))
			fr.pc++
			return true
		}
		if e.trustedAssert(v, T) {
			e.assume(s, ok, true)
			e.assume(s, e.p.Eq(r, e.p.Nil()), false)
			fr.env[x] = e.p.mk("tuple", "", nil, nil, r, e.p.Bool(true))
			fr.pc++
			return true
		}
		o := s.clone()
		if e.assume(o, ok, false) {
			of := o.top()
			of.env[x] = e.p.mk("tuple", "", nil, nil, e.p.zero(T), e.p.Bool(false))
			of.pc++
			e.push(o)
		}
		e.assume(s, ok, true)
		if !toIface {
			if _, isPtr := T.Underlying().(*types.Pointer); isPtr {
				e.assume(s, e.p.Eq(r, e.p.Nil()), false)
			}
		}
		fr.env[x] = e.p.mk("tuple", "", nil, nil, r, e.p.Bool(true))
		fr.pc++
		return true
	}
	if e.trustedAssert(v, T) {
		e.assume(s, e.p.Eq(r, e.p.Nil()), false)
		fr.env[x] = r
		fr.pc++
		return true
	}
	if !e.require(s, x, "failed type conversion", ok, v) {
		return false
	}
	fr.env[x] = r
	fr.pc++
	return true
}

// a net.Conn handed out by a TCP listener is a *net.TCPConn with TCP addresses
func (e *Engine) trustedAssert(v *Term, T types.Type) bool {
	return typeKey(T) == "*net.TCPConn" || typeKey(T) == "*net.TCPAddr"
}

func (e *Engine) selectIns(s *State, fr *Frame, x *ssa.Select) bool {
	var chans []*Term
	for _, st := range x.States {
		chans = append(chans, e.val(s, fr, st.Chan))
	}
	tt := x.Type().(*types.Tuple)
	mkTuple := func(idx int) *Term {
		args := []*Term{e.p.Int(int64(idx)), e.p.Bool(true)}
		for i := 2; i < tt.Len(); i++ {
			args = append(args, e.p.sym("recv", e.siteKey(fr, x)+"."+strconv.Itoa(i), tt.At(i).Type(), e.site(fr, x)))
		}
		return e.p.mk("tuple", "", nil, nil, args...)
	}
	var outs []int
	for i := range x.States {
		outs = append(outs, i)
	}
	if !x.Blocking {
		outs = append(outs, -1)
	}
	for n, o := range outs {
		t := s
		if n < len(outs)-1 {
			t = s.clone()
		}
		tf := t.top()
		kind := "select"
		if x.Blocking {
			kind = "selectwait"
		}
		e.emit(t, x, kind, strconv.Itoa(o), chans, nil)
		for i, st := range x.States {
			if st.Dir == types.SendOnly && o == i {
				e.escape(t, e.val(t, tf, st.Send))
			}
			// path condition: readiness of the channel at this point
			c := e.p.sym("ready", e.siteKey(tf, x)+"."+strconv.Itoa(i), types.Typ[types.Bool], e.site(tf, x), chans[i])
			if o == i {
				t.facts[c] = true
			} else if o == -1 {
				t.facts[c] = false
			}
		}
		tf.env[x] = mkTuple(o)
		tf.pc++
		if t != s {
			e.push(t)
		}
	}
	return len(outs) > 0
}

// ---- control -------------------------------------------------------------------

func (e *Engine) noteExitTest(s *State, fr *Frame, x *ssa.If, c *Term) {
	for i := len(fr.loops) - 1; i >= 0; i-- {
		l := fr.loops[i]
		body := e.pr.info(fr.fn).loops[l.header]
		in0, in1 := body[fr.blk.Succs[0]], body[fr.blk.Succs[1]]
		if in0 == in1 {
			continue
		}
		if c.isBool() {
			if e.pr.dependsOnPhi(x.Cond, l.header) {
				l.decided = true
			}
		} else if e.final == false {
			// an exit test gives a candidate bound on the loop symbols
			w := e.widen(l.key)
			t := c
			if in1 {
				t = e.p.Not(c)
			}
			if t.op == "ge0" && fr.blk == l.header {
				e.addCand(w, e.p.Ge0(e.p.Add(t.args[0], e.p.Int(1))), l)
			}
		}
		break
	}
}

func (e *Engine) addCand(w *Widen, c *Term, l *loopRec) {
	if c.isBool() {
		return
	}
	if _, ok := w.cands[c]; ok {
		return
	}
	// only about this loop's symbols and values from outside
	has := false
	for _, y := range c.syms {
		if y.op == "loop" && strings.HasPrefix(y.aux, l.key+"/") {
			has = true
			continue
		}
		if y.site != nil && e.inLoopSite(y.site, l) {
			return
		}
	}
	if !has {
		return
	}
	w.cands[c] = true
	e.change = true
}

func (e *Engine) inLoopSite(st *Site, l *loopRec) bool {
	blk, c := st.blk, st.ctx
	for c != nil && c != l.ctx {
		if c.call == nil {
			return false
		}
		blk = c.call.Block()
		c = c.parent
	}
	if c == nil {
		return false
	}
	return e.pr.info(l.ctx.fn).loops[l.header][blk]
}

func (e *Engine) widen(k string) *Widen {
	w := e.wid[k]
	if w == nil {
		w = &Widen{phis: map[string]bool{}, cells: map[*Term]bool{}, vers: map[string]bool{}, esc: map[*Term]bool{}, shr: map[*Term]bool{}, cands: map[*Term]bool{}, cond: map[*Term]bool{}, ctl: map[*Term]bool{}}
		e.wid[k] = w
	}
	return w
}

func isCtl(t *Term) bool { return t.isBool() || t.isNil() }

// edge moves the top frame along an edge; false when the path ends here.
func (e *Engine) edge(s *State, fr *Frame, succ *ssa.BasicBlock) bool {
	info := e.pr.info(fr.fn)
	from := fr.blk
	// phi values on this edge
	pi := -1
	for i, p := range succ.Preds {
		if p == from {
			pi = i
			if from.Succs[0] == from.Succs[len(from.Succs)-1] || true {
				break
			}
		}
	}
	type pv struct {
		phi *ssa.Phi
		v   *Term
	}
	var phis []pv
	for _, in := range succ.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, pv{ph, e.val(s, fr, ph.Edges[pi])})
	}
	// leave loops
	for len(fr.loops) > 0 {
		l := fr.loops[len(fr.loops)-1]
		if info.loops[l.header][succ] {
			break
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
		e.emitLoop(s, "loopend", l)
	}
	_, isHdr := info.loops[succ]
	if isHdr && len(fr.loops) > 0 && fr.loops[len(fr.loops)-1].header == succ {
		vals := map[*ssa.Phi]*Term{}
		for _, q := range phis {
			vals[q.phi] = q.v
		}
		return e.backEdge(s, fr, succ, vals)
	}
	for _, q := range phis {
		fr.env[q.phi] = q.v
	}
	fr.prev, fr.blk, fr.pc = from, succ, len(phis)
	if isHdr {
		vals := map[*ssa.Phi]*Term{}
		for _, q := range phis {
			vals[q.phi] = q.v
		}
		return e.enterLoop(s, fr, succ, vals)
	}
	if len(succ.Preds) > 1 {
		return e.visit(s)
	}
	return true
}

func (e *Engine) visit(s *State) bool {
	e.gcFacts(s)
	k := s.key(e)
	if e.seen[k] {
		return false
	}
	e.seen[k] = true
	return true
}

func (e *Engine) emitLoop(s *State, kind string, l *loopRec) {
	ctl := ""
	if kind == "loop" {
		ctl = e.ctlOf(l, l.phi, s.mem)
	} else {
		ctl = e.loopCtl(l)
	}
	k := kind + "|" + l.key + "|" + ctl
	ev, ok := e.events[k]
	if !ok {
		var syms []*Term
		for t := range l.init {
			if t.op == "loop" {
				syms = append(syms, t)
			}
		}
		sort.Slice(syms, func(i, j int) bool { return syms[i].id < syms[j].id })
		ev = &Event{id: len(e.evlist), Kind: kind, Name: l.key, Args: syms, Site: &Site{ctx: l.ctx, blk: l.header}, Fn: l.ctx.fn, Ctl: ctl}
		e.events[k] = ev
		e.evlist = append(e.evlist, ev)
	}
	s.ev = append(s.ev, ev)
	if e.final && e.cfg.Hook != nil {
		e.cfg.Hook(s, ev)
	}
}

// loopCtl: the flags at the start of the iteration under way.
func (e *Engine) loopCtl(l *loopRec) string {
	if l.entry == nil {
		return e.ctlOf(l, l.phi, nil)
	}
	return e.ctlOf(l, l.phi, l.entry.mem)
}

// ctlOf: the flags (booleans, nils) of a loop at one point.
func (e *Engine) ctlOf(l *loopRec, phi map[*ssa.Phi]*Term, mem map[*Term]*Term) string {
	var out []string
	for ph, v := range phi {
		if v != nil && isCtl(v) && !e.widen(l.key).phis[ph.Name()] {
			out = append(out, ph.Name()+"="+v.String())
		}
	}
	for c := range e.widen(l.key).ctl {
		if v := mem[c]; v != nil && isCtl(v) {
			out = append(out, "c"+strconv.Itoa(c.id)+"="+v.String())
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func (e *Engine) loopSym(l *loopRec, name string, typ types.Type) *Term {
	return e.p.sym("loop", l.key+"/"+name, typ, &Site{ctx: l.ctx, blk: l.header})
}

func (e *Engine) enterLoop(s *State, fr *Frame, h *ssa.BasicBlock, vals map[*ssa.Phi]*Term) bool {
	key := fmt.Sprintf("%d.%d%s", fr.ctx.id, h.Index, fr.usfx)
	l := &loopRec{header: h, key: key, ctx: fr.ctx, phi: map[*ssa.Phi]*Term{}, init: map[*Term]*Term{}}
	w := e.widen(key)
	li := e.loops[key]
	if li == nil {
		li = &LoopInfo{Key: key, Header: h, Ctx: fr.ctx, Vars: map[*Term]*LoopVar{}}
		e.loops[key] = li
	}
	add := func(t, init *Term, ph *ssa.Phi, cell *Term) {
		l.init[t] = init
		if li.Vars[t] == nil {
			li.Vars[t] = &LoopVar{T: t, Init: init, Phi: ph, Cell: cell}
		}
	}
	for ph, v := range vals {
		if w.phis[ph.Name()] {
			T := ph.Type()
			wr := w.wrap[ph.Name()]
			if wr != nil && !sameWrap(wr, v) {
				w.wrap[ph.Name()] = nil
				wr = nil
				e.change = true
			}
			if wr != nil {
				T = wr.obj.(types.Type)
				v = v.args[0]
			}
			if st := e.ownStruct(T); st != nil && wr == nil {
				// a struct is carried field by field
				var fs []*Term
				for i := 0; i < st.NumFields(); i++ {
					f := e.fldOf(v, T, i)
					if w.fields[fieldKey{ph.Name(), i}] {
						t := e.loopSym(l, ph.Name()+"."+strconv.Itoa(i), st.Field(i).Type())
						add(t, f, ph, nil)
						f = t
					}
					fs = append(fs, f)
				}
				fr.env[ph] = e.p.mk("struct", typeKey(T), T, nil, fs...)
				l.phi[ph] = fr.env[ph]
				continue
			}
			t := e.loopSym(l, ph.Name(), T)
			add(t, v, ph, nil)
			fr.env[ph] = t
			if wr != nil {
				fr.env[ph] = e.p.mk(wr.op, wr.aux, wr.typ, wr.obj, t)
			}
		}
		l.phi[ph] = fr.env[ph]
	}
	var cells []*Term
	for c := range w.cells {
		cells = append(cells, c)
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].id < cells[j].id })
	for _, c := range cells {
		var init *Term
		typ := pointee(c.typ)
		if v, ok := s.mem[c]; ok {
			init = v
			if typ == nil {
				typ = v.typ
			}
		} else if typ != nil {
			init = e.load(s, c, typ)
		}
		t := e.loopSym(l, "c"+strconv.Itoa(c.id), typ)
		if init != nil {
			add(t, init, nil, c)
		}
		for d := range s.mem {
			if under(d, c) {
				delete(s.mem, d)
			}
		}
		s.mem[c] = t
	}
	for k := range w.vers {
		s.memver[k] = e.loopSym(l, "v"+k, nil)
	}
	for o := range w.esc {
		s.escaped[o] = true
	}
	for o := range w.shr {
		s.shared[o] = true
	}
	// invariant candidates
	e.autoCands(w, l)
	for c, ok := range w.cands {
		if !ok {
			continue
		}
		sc := e.subst(c, l.init)
		if kn, v := e.eval(s, sc); !(kn && v) {
			w.cands[c] = false
			e.change = true
		}
	}
	l.assumed = make(map[*Term]bool, len(w.cands))
	for c, ok := range w.cands {
		if ok {
			e.assume(s, c, true)
			l.assumed[c] = true
		}
	}
	m := map[*Term]*Term{}
	for t, v := range l.init {
		m[t] = v
	}
	if s.inits == nil {
		s.inits = map[string]*loopInit{}
	}
	s.inits[key] = newLoopInit(m)
	if e.final {
		li.Inits = append(li.Inits, m)
	}
	l.locks = s.lockKey()
	e.emitLoop(s, "loop", l)
	l.nev = len(s.ev)
	fr.loops = append(fr.loops, l)
	e.gcFacts(s)
	l.entry = s.clone()
	l.entry.top().loops[len(l.entry.top().loops)-1].entry = nil
	return e.visit(s)
}

// autoCands: bounds of integer and length symbols against their initial
// values, and constant differences between them.
func (e *Engine) autoCands(w *Widen, l *loopRec) {
	type atom struct{ t, i *Term }
	var as []atom
	var ts []*Term
	for t := range l.init {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	for _, t := range ts {
		if t.typ == nil {
			continue
		}
		i := l.init[t]
		if isInteger(t.typ) {
			as = append(as, atom{t, i})
		} else if _, ok := t.typ.Underlying().(*types.Slice); ok {
			as = append(as, atom{e.lenOf(t), e.lenOf(i)})
			if nonNilTerm(i) {
				e.addCand(w, e.p.Not(e.p.mk("eq", "", types.Typ[types.Bool], nil, e.ordered(t, e.p.Nil())...)), l)
			}
		} else if _, ok := t.typ.Underlying().(*types.Pointer); ok && nonNilTerm(i) {
			e.addCand(w, e.p.Not(e.p.mk("eq", "", types.Typ[types.Bool], nil, e.ordered(t, e.p.Nil())...)), l)
		}
	}
	for _, a := range as {
		e.addCand(w, e.p.Ge0(e.p.Sub(a.t, a.i)), l)
		e.addCand(w, e.p.Ge0(e.p.Sub(a.i, a.t)), l)
	}
	if len(as) <= 6 {
		for i := range as {
			for j := range as {
				if i != j {
					e.addCand(w, e.p.Ge0(e.p.Sub(e.p.Sub(as[i].t, as[i].i), e.p.Sub(as[j].t, as[j].i))), l)
				}
			}
		}
	}
}

// ownStruct: a struct type of the analysed package itself.
func (e *Engine) ownStruct(t types.Type) *types.Struct {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || st.NumFields() == 0 {
		return nil
	}
	if n := namedOf(t); n != nil && n.Obj().Pkg() != e.pr.tpkg {
		return nil
	}
	return st
}

func sameWrap(a, b *Term) bool {
	return a != nil && b != nil && a.op == b.op && a.aux == b.aux && len(a.args) == 1 && len(b.args) == 1 && (a.op == "rval" || a.op == "iface")
}

func (e *Engine) ordered(a, b *Term) []*Term {
	if a.id > b.id {
		a, b = b, a
	}
	return []*Term{a, b}
}

func (e *Engine) backEdge(s *State, fr *Frame, h *ssa.BasicBlock, vals map[*ssa.Phi]*Term) bool {
	l := fr.loops[len(fr.loops)-1]
	w := e.widen(l.key)
	unrolling := l.decided && !w.noUnroll
	if unrolling {
		// did anything change at all that is not yet widened?
		if os.Getenv("KM_DEBUG") != "" && l.unroll%50 == 49 {
			debugf("unroll %s %d %s mem %d facts %d lins %d ev %d", l.key, l.unroll, fr.fn.Name(), len(s.mem), len(s.facts), len(s.lins), len(s.ev))
		}
		if l.unroll >= 64 {
			w.noUnroll = true
			e.change = true
			return false
		}
		any := false
		for ph := range vals {
			if w.phis[ph.Name()] {
				any = true
			}
		}
		if !any && len(w.cells) == 0 {
			for ph, v := range vals {
				fr.env[ph] = v
			}
			nl := *l
			nl.unroll++
			nl.decided = false
			nl.phi = map[*ssa.Phi]*Term{}
			for ph, v := range vals {
				nl.phi[ph] = v
			}
			fr.loops[len(fr.loops)-1] = &nl
			fr.prev, fr.blk, fr.pc = fr.blk, h, len(vals)
			fr.usfx = fr.loopSfx()
			return e.visit(s)
		}
		w.noUnroll = true
	}
	if s.lockKey() != l.locks {
		// locks taken and not released within one iteration
		e.emitLocksLoop(s, l)
	}
	if l.entry == nil {
		e.problem("loop entry lost in %s", fr.fn.String())
		return false
	}
	entry := l.entry
	ef := entry.top()
	it := &Iter{H: l.key, Next: map[*Term]*Term{}, Evs: append([]*Event(nil), s.ev[l.nev:]...), Facts: s.snapshotFacts(), Lins: append([]*Term(nil), s.lins...)}
	variant := map[*ssa.Phi]*Term{}
	cvariant := map[*Term]*Term{}
	stable := true
	for ph, v := range vals {
		if st := e.ownStruct(ph.Type()); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				k := fieldKey{ph.Name(), i}
				a, b := e.fldOf(l.phi[ph], ph.Type(), i), e.fldOf(v, ph.Type(), i)
				if w.fields[k] {
					it.Next[a] = b
					continue
				}
				if a == b {
					continue
				}
				if w.fields == nil {
					w.fields = map[fieldKey]bool{}
				}
				w.fields[k] = true
				w.phis[ph.Name()] = true
				stable = false
			}
			continue
		}
		if w.phis[ph.Name()] {
			if wr := w.wrap[ph.Name()]; wr != nil && l.phi[ph].op == wr.op {
				if sameWrap(wr, v) {
					it.Next[l.phi[ph].args[0]] = v.args[0]
					continue
				}
				w.wrap[ph.Name()] = nil
				stable = false
			}
			it.Next[l.phi[ph]] = v
			continue
		}
		if v == l.phi[ph] {
			continue
		}
		if isCtl(v) && (isCtl(l.phi[ph])) {
			variant[ph] = v
			continue
		}
		w.phis[ph.Name()] = true
		if v.op == "rval" || v.op == "iface" {
			if _, seen := w.wrap[ph.Name()]; !seen && sameWrap(l.phi[ph], v) {
				if w.wrap == nil {
					w.wrap = map[string]*Term{}
				}
				w.wrap[ph.Name()] = v
			}
		}
		stable = false
	}
	mine := func(t *Term) bool {
		for _, y := range t.syms {
			if y.site != nil && e.inLoopSite(y.site, l) {
				return true
			}
		}
		return false
	}
	var check func(c *Term)
	check = func(c *Term) {
		if mine(c) {
			return
		}
		if w.cells[c] {
			var v *Term
			if x, ok := s.mem[c]; ok {
				v = x
			} else if T := pointee(c.typ); T != nil {
				v = e.load(s, c, T)
			}
			if v != nil {
				// changed below as well?
				if T := pointee(c.typ); T != nil {
					v = e.load(s, c, T)
				}
				if lv, ok := entry.mem[c]; ok {
					it.Next[lv] = v
				}
			}
			return
		}
		for cc := c; cc.op == "field" || cc.op == "index"; {
			cc = cc.args[0]
			if w.cells[cc] {
				return // part of a widened whole
			}
		}
		var a, b *Term
		T := pointee(c.typ)
		if T != nil {
			a, b = e.load(entry, c, T), e.load(s, c, T)
		} else {
			a, b = entry.mem[c], s.mem[c]
			if a == nil && c.op == "mapcell" {
				if mt, ok := mapType(c.args[0]); ok {
					a, _ = e.mapget(entry, c.args[0], c.args[1], mt.Elem())
				}
			}
			if b == nil && c.op == "mapcell" {
				return
			}
			if a == nil {
				a = e.p.mk("absent", "", nil, nil)
			}
			if b == nil {
				b = e.p.mk("absent", "", nil, nil)
			}
		}
		if a == b {
			return
		}
		if isCtl(a) && isCtl(b) {
			cvariant[c] = b
			if !w.ctl[c] {
				w.ctl[c] = true
				stable = false
			}
			return
		}
		if T != nil {
			if st, ok := T.Underlying().(*types.Struct); ok {
				// only the fields that change, if some stay
				var diff []*Term
				for i := 0; i < st.NumFields(); i++ {
					if e.fldOf(a, T, i) != e.fldOf(b, T, i) {
						diff = append(diff, e.fieldAddr(c, T, i))
					}
				}
				if len(diff) < st.NumFields() {
					for _, f := range diff {
						check(f)
					}
					return
				}
			}
		}
		for d := range w.cells {
			if under(d, c) {
				delete(w.cells, d)
			}
		}
		w.cells[c] = true
		stable = false
	}
	for c := range s.mem {
		check(c)
	}
	for c := range entry.mem {
		if _, ok := s.mem[c]; !ok {
			check(c)
		}
	}
	for k, v := range s.memver {
		if w.vers[k] {
			continue
		}
		if entry.memver[k] != v {
			w.vers[k] = true
			stable = false
		}
	}
	for o := range s.escaped {
		if !entry.escaped[o] && !(o.site != nil && e.inLoopSite(o.site, l)) && !w.esc[o] {
			w.esc[o] = true
			stable = false
		}
	}
	for o := range s.shared {
		if !entry.shared[o] && !(o.site != nil && e.inLoopSite(o.site, l)) && !w.shr[o] {
			w.shr[o] = true
			stable = false
		}
	}
	if !stable {
		e.change = true
		return false
	}
	// candidates must be kept by this iteration
	m := map[*Term]*Term{}
	for k, v := range it.Next {
		m[k] = v
	}
	for c, ok := range w.cands {
		if !ok || !l.assumed[c] && !e.final {
			continue // came up after this loop was entered: the next pass decides
		}
		if kn, v := e.eval(s, e.subst(c, m)); !(kn && v) {
			w.cands[c] = false
			e.change = true
		}
	}
	if e.final {
		it.State = s.clone()
		it.CtlIn = e.ctlOf(l, l.phi, entry.mem)
		it.CtlOut = e.ctlOf(l, vals, s.mem)
	}
	li := e.loops[l.key]
	li.Iters = append(li.Iters, it)
	if e.final && e.cfg.Hook != nil {
		ev := &Event{id: -2, Kind: "iterend", Name: l.key, Site: &Site{ctx: l.ctx, blk: h}, Fn: fr.fn}
		e.cfg.Hook(s, ev)
	}
	if len(variant)+len(cvariant) > 0 {
		ns := entry.clone()
		nf := ns.top()
		for ph, v := range variant {
			nf.env[ph] = v
		}
		for c, v := range cvariant {
			ns.mem[c] = v
		}
		nl := nf.loops[len(nf.loops)-1]
		np := map[*ssa.Phi]*Term{}
		for ph := range nl.phi {
			np[ph] = nf.env[ph]
		}
		nl.phi = np
		ne := ns.clone()
		nl.entry = ne
		if e.visit(ns) {
			e.push(ns)
		}
	}
	_ = ef
	return false
}

func mapType(m *Term) (*types.Map, bool) {
	if m.typ == nil {
		return nil, false
	}
	t, ok := m.typ.Underlying().(*types.Map)
	return t, ok
}

func (e *Engine) emitLocksLoop(s *State, l *loopRec) {
	if e.final && e.cfg.Hook != nil {
		ev := &Event{id: -2, Kind: "lockloop", Name: l.key, Site: &Site{ctx: l.ctx, blk: l.header}, Fn: l.ctx.fn}
		e.cfg.Hook(s, ev)
	}
}

func (f *Frame) loopSfx() string {
	x := f.usfx0
	for _, l := range f.loops {
		if l.unroll > 0 {
			x += fmt.Sprintf("u%d.%d", l.header.Index, l.unroll)
		}
	}
	return x
}

// subst replaces symbols in t.
func (e *Engine) subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	if v, ok := m[t]; ok {
		return v
	}
	hit := false
	for _, y := range t.syms {
		if _, ok := m[y]; ok {
			hit = true
			break
		}
	}
	if !hit {
		// what is replaced need not be a symbol
		for k := range m {
			if len(k.syms) == 0 || k.syms[0] != k {
				hit = true
			}
		}
	}
	if !hit || len(t.args) == 0 {
		return t
	}
	args := make([]*Term, len(t.args))
	same := true
	for i, a := range t.args {
		args[i] = e.subst(a, m)
		if args[i] != a {
			same = false
		}
	}
	if same {
		return t
	}
	switch t.op {
	case "lin":
		l := lin{coef: map[*Term]int64{}, c: t.lin.c}
		for i, a := range t.args {
			l = linAdd(l, toLin(args[i]), t.lin.coef[a])
		}
		return e.p.fromLin(l)
	case "ge0":
		return e.p.Ge0(args[0])
	case "not":
		return e.p.Not(args[0])
	case "eq":
		return e.p.Eq(args[0], args[1])
	case "len":
		return e.lenOf(args[0])
	case "fld":
		if st, ok := t.obj.(types.Type); ok && len(args) == 1 {
			return e.fldOf(args[0], st, auxIndex(t.aux))
		}
	case "slice":
		return e.p.mk("slice", "", t.typ, nil, args...)
	}
	if t.site != nil {
		return e.p.sym(t.op, t.aux, t.typ, t.site, args...)
	}
	return e.p.mk(t.op, t.aux, t.typ, t.obj, args...)
}

// gcFacts forgets facts none of whose symbols can be reached any more.
func (e *Engine) gcFacts(s *State) {
	live := map[*Term]bool{}
	add := func(t *Term) {
		for _, y := range t.syms {
			live[y] = true
		}
	}
	for _, f := range s.frames {
		for v := range e.pr.liveAt(f.fn, f.blk, f.pc) {
			if t, ok := f.env[v]; ok {
				add(t)
			}
		}
		for _, d := range f.defers {
			for _, a := range d.args {
				add(a)
			}
			if d.fnv != nil {
				add(d.fnv)
			}
		}
		for _, l := range f.loops {
			for _, i := range l.init {
				add(i)
			}
		}
	}
	for c, v := range s.mem {
		add(c)
		add(v)
	}
	for _, l := range s.locks {
		add(l.addr)
		if l.epoch != nil {
			live[l.epoch] = true
		}
	}
	for _, ev := range s.ev {
		for _, a := range ev.Args {
			add(a)
		}
		for _, a := range ev.Res {
			add(a)
		}
	}
	for f := range s.facts {
		ok := len(f.syms) == 0
		for _, y := range f.syms {
			if live[y] {
				ok = true
				break
			}
		}
		if !ok {
			delete(s.facts, f)
		}
	}
	var keep []*Term
	for _, f := range s.lins {
		ok := len(f.syms) == 0
		for _, y := range f.syms {
			if live[y] {
				ok = true
				break
			}
		}
		if ok {
			keep = append(keep, f)
		}
	}
	s.lins = keep
}

// ---- calls and returns ---------------------------------------------------------

func (e *Engine) ret(s *State, fr *Frame, ins ssa.Instruction, res []*Term) bool {
	for len(fr.loops) > 0 {
		l := fr.loops[len(fr.loops)-1]
		fr.loops = fr.loops[:len(fr.loops)-1]
		e.emitLoop(s, "loopend", l)
	}
	if len(s.frames) == 1 {
		if s.nextRoot(e, res) {
			return true
		}
		e.emit(s, ins, "return", "", res, nil)
		e.end(s, "return", res)
		return false
	}
	s.frames = s.frames[:len(s.frames)-1]
	up := s.top()
	if fr.runDefer {
		if up.panicking {
			return e.unwindFrame(s)
		}
		// stay on RunDefers; it goes on with the next one
		return true
	}
	if fr.retTo != nil {
		switch len(res) {
		case 0:
		case 1:
			up.env[fr.retTo] = res[0]
		default:
			up.env[fr.retTo] = e.p.mk("tuple", "", nil, nil, res...)
		}
	}
	up.pc++
	return e.visit(s)
}

func (e *Engine) end(s *State, kind string, res []*Term) {
	e.ends = append(e.ends, &PathEnd{S: s, Kind: kind, Res: res, Evs: append([]*Event(nil), s.ev...), Label: s.label})
}

func (e *Engine) runDefer(s *State, fr *Frame, ins ssa.Instruction) bool {
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	return e.callDefer(s, fr, ins, d)
}

func (e *Engine) callDefer(s *State, fr *Frame, ins ssa.Instruction, d *DeferRec) bool {
	c := &CallInfo{fr: fr, ins: d.ins, common: d.call, fnv: d.fnv, args: d.args, mode: "defer", at: ins}
	return e.dispatch(s, c)
}

// unwind: an explicit panic runs the deferred calls of every frame.
func (e *Engine) unwind(s *State, ins ssa.Instruction) bool {
	s.top().panicking = true
	return e.unwindFrame(s)
}

func (e *Engine) unwindFrame(s *State) bool {
	for {
		fr := s.top()
		fr.panicking = true
		if s.recovered {
			s.recovered = false
			fr.panicking = false
			fr.loops = nil
			if fr.fn.Recover != nil {
				fr.blk, fr.pc = fr.fn.Recover, 0
				return true
			}
			var res []*Term
			rs := fr.fn.Signature.Results()
			for i := 0; i < rs.Len(); i++ {
				res = append(res, e.p.zero(rs.At(i).Type()))
			}
			return e.ret(s, fr, nil, res)
		}
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			n := len(s.frames)
			c := &CallInfo{fr: fr, ins: d.ins, common: d.call, fnv: d.fnv, args: d.args, mode: "defer", at: d.ins}
			if !e.dispatch(s, c) {
				return false
			}
			if len(s.frames) > n {
				return true // run the deferred body; ret() comes back here
			}
			continue
		}
		if len(s.frames) == 1 {
			e.emit(s, nil, "panicend", "", nil, nil)
			e.end(s, "panic", nil)
			return false
		}
		if fr.runDefer {
			// a panic inside a deferred call: the frame below keeps unwinding
		}
		s.frames = s.frames[:len(s.frames)-1]
	}
}

type CallInfo struct {
	fr     *Frame
	ins    ssa.Instruction
	common *ssa.CallCommon
	fnv    *Term
	args   []*Term
	mode   string // "", "go", "defer"
	ret    ssa.Value
	at     ssa.Instruction
	name   string
	fn     *ssa.Function
	bind   []*Term
	method string
}

func (c *CallInfo) result() *types.Tuple { return c.common.Signature().Results() }

func (e *Engine) call(s *State, fr *Frame, ins ssa.Instruction, cc *ssa.CallCommon, ret ssa.Value, mode string) bool {
	c := &CallInfo{fr: fr, ins: ins, common: cc, mode: mode, ret: ret, at: ins}
	c.fnv = e.val(s, fr, cc.Value)
	for _, a := range cc.Args {
		c.args = append(c.args, e.val(s, fr, a))
	}
	return e.dispatch(s, c)
}

// setRes delivers a call's results without entering a body.
func (e *Engine) setRes(s *State, c *CallInfo, res ...*Term) bool {
	fr := s.top()
	if c.mode == "defer" {
		if fr.panicking {
			return true
		}
		return true // RunDefers is re-executed
	}
	if c.ret != nil {
		rs := c.result()
		for i, r := range res {
			if r.typ == nil && i < rs.Len() && !isConst(r) {
				r.typ = rs.At(i).Type()
			}
		}
		switch len(res) {
		case 0:
		case 1:
			fr.env[c.ret] = res[0]
		default:
			fr.env[c.ret] = e.p.mk("tuple", "", nil, nil, res...)
		}
	}
	fr.pc++
	return true
}

func (e *Engine) dispatch(s *State, c *CallInfo) bool {
	cc := c.common
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return e.builtin(s, c, b.Name())
	}
	if cc.IsInvoke() {
		recv := c.fnv
		if it := ifaceType(recv); it != nil && it != rtypeMarker {
			if m := e.pr.prog.LookupMethod(it, cc.Method.Pkg(), cc.Method.Name()); m != nil {
				c.fn = m
				c.args = append([]*Term{recv.args[0]}, c.args...)
			}
		}
		if c.fn == nil {
			c.method = cc.Method.Name()
			c.name = "(" + typeKey(cc.Value.Type()) + ")." + cc.Method.Name()
			c.args = append([]*Term{recv}, c.args...)
		}
	} else {
		switch c.fnv.op {
		case "fn":
			c.fn = c.fnv.obj.(*ssa.Function)
		case "closure":
			c.fn = c.fnv.obj.(*ssa.Function)
			c.bind = c.fnv.args
		}
	}
	if c.fn != nil {
		c.name = fnName(c.fn)
	} else if c.name == "" {
		c.name = "dynamic"
		c.args = append([]*Term{c.fnv}, c.args...)
	}
	if c.mode == "go" {
		return e.goCall(s, c)
	}
	if e.final && c.fn != nil {
		e.callSites[e.siteKey(c.fr, c.ins)] = true
	}
	if e.cfg.Model != nil {
		if ok, handled := e.cfg.Model(e, s, c); handled {
			return ok
		}
	}
	if c.fn != nil && len(c.fn.Blocks) > 0 {
		if ok, handled := e.codecModel(s, c); handled {
			return ok
		}
		n := len(s.frames)
		e.enter(s, c.fn, c.args, c.bind, c.at, nil, c.ret)
		if c.mode == "defer" {
			s.frames[n].runDefer = true
		}
		e.emit(s, nil, "enter", c.fn.String(), c.args, nil)
		return true
	}
	return e.external(s, c)
}

func fnName(fn *ssa.Function) string {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	return fn.String()
}

func (e *Engine) goCall(s *State, c *CallInfo) bool {
	for _, a := range c.args {
		e.escape(s, a)
		e.share(s, a)
	}
	for _, a := range c.bind {
		e.escape(s, a)
		e.share(s, a)
	}
	ev := e.emit(s, c.ins, "go", c.name, append(append([]*Term{}, c.args...), c.bind...), nil)
	if e.cfg.Spawn && c.fn != nil && len(c.fn.Blocks) > 0 {
		ns := s.clone()
		ns.locks = nil
		ns.ev = nil
		// what other goroutines may change is forgotten
		for a := range ns.mem {
			if !e.stableCell(ns, a) {
				delete(ns.mem, a)
				if base := baseOf(a); base.op == "new" {
					e.forget(ns, a, "go/"+e.siteKey(c.fr, c.ins), ev.Site, nil)
				}
			} else if a.op == "new" && ns.escaped[a] {
				e.forget(ns, a, "go/"+e.siteKey(c.fr, c.ins), ev.Site, nil)
			}
		}
		k := fmt.Sprintf("%d|%s", ev.id, ns.memKey())
		if !e.spawnSeen[k] {
			e.spawnSeen[k] = true
			e.spawns = append(e.spawns, &Spawned{id: len(e.spawns), State: ns, Fn: c.fn, Args: c.args, Bind: c.bind, Ev: ev, Label: c.name})
		}
	}
	if c.mode == "go" {
		s.top().pc++
	}
	return true
}

// stableCell: is this memory never written again once another goroutine can see it?
func (e *Engine) stableCell(s *State, a *Term) bool {
	base := baseOf(a)
	if base.op == "new" && !s.escaped[base] {
		return false // not visible there at all; drop it
	}
	switch a.op {
	case "field":
		return !e.pr.mutableField(a.aux)
	case "new":
		if a.site != nil {
			if al, ok := a.site.ins.(*ssa.Alloc); ok {
				if _, isStruct := pointee(a.typ).Underlying().(*types.Struct); isStruct {
					return true // fields are judged one by one
				}
				return e.pr.singleStore(al)
			}
		}
		return false
	case "mapcell", "content", "iter":
		return false
	}
	return false
}

func (s *State) memKey() string {
	var b strings.Builder
	writeMap(&b, "M", s.mem)
	return b.String()
}

func (s *State) nextRoot(e *Engine, res []*Term) bool {
	if s.label != "" || s.rootN >= len(e.cfg.Extra) {
		return false
	}
	fn, args := e.cfg.Extra[s.rootN](e)
	s.rootN++
	s.frames = nil
	e.enter(s, fn, args, nil, nil, nil, nil)
	s.top().ctx = e.ctx(nil, nil, fn, fmt.Sprintf("seq%d", s.rootN))
	return true
}

func debugf(f string, a ...any) {
	if os.Getenv("KM_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func (e *Engine) globalTerm(g *ssa.Global) *Term {
	return e.p.mk("global", g.RelString(nil), g.Type(), g)
}
