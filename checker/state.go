package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type DeferRec struct {
	call *ssa.CallCommon
	ins  ssa.Instruction
	fnv  *Term
	args []*Term
	in   []*DeferRec
}

type loopRec struct {
	header  *ssa.BasicBlock
	key     string
	ctx     *Ctx
	phi     map[*ssa.Phi]*Term // header value on this path
	init    map[*Term]*Term    // loop symbol -> value on entry
	nev     int
	locks   string
	decided bool
	unroll  int
	entry   *State
	assumed map[*Term]bool // the invariants this entry relies on
}

type Frame struct {
	fn     *ssa.Function
	ctx    *Ctx
	env    map[ssa.Value]*Term
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	defers []*DeferRec
	loops  []*loopRec
	usfx   string
	usfx0  string
	// how to hand the result back
	retTo     ssa.Value // value in the caller's frame, or nil
	runDefer  bool      // this frame is a deferred call
	panicking bool
	once      bool // the function of a package-wide sync.Once
}

type LockHold struct {
	addr  *Term
	mode  byte // 'W' or 'R'
	epoch *Term
	pos   token.Pos
}

type State struct {
	frames    []*Frame
	mem       map[*Term]*Term
	memver    map[string]*Term
	facts     map[*Term]bool
	lins      []*Term // each >= 0
	locks     []LockHold
	shared    map[*Term]bool
	escaped   map[*Term]bool
	ev        []*Event
	recovered bool
	label     string
	spawn     *Spawned // the start of the goroutine this path belongs to
	rootN     int
	steps     int
	inits     map[string]*loopInit // how each loop was last entered on this path
}

type loopInit struct {
	m   map[*Term]*Term
	key string
}

func newLoopInit(m map[*Term]*Term) *loopInit {
	var ks []string
	for t, v := range m {
		ks = append(ks, strconv.Itoa(t.id)+"="+strconv.Itoa(v.id))
	}
	sort.Strings(ks)
	return &loopInit{m, strings.Join(ks, ",")}
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) clone() *State {
	n := &State{
		mem:       make(map[*Term]*Term, len(s.mem)),
		memver:    make(map[string]*Term, len(s.memver)),
		facts:     make(map[*Term]bool, len(s.facts)),
		shared:    make(map[*Term]bool, len(s.shared)),
		escaped:   make(map[*Term]bool, len(s.escaped)),
		steps:     s.steps,
		recovered: s.recovered,
		label:     s.label,
		spawn:     s.spawn,
		rootN:     s.rootN,
	}
	if s.inits != nil {
		n.inits = make(map[string]*loopInit, len(s.inits))
		for k, v := range s.inits {
			n.inits[k] = v
		}
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.memver {
		n.memver[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k := range s.shared {
		n.shared[k] = true
	}
	for k := range s.escaped {
		n.escaped[k] = true
	}
	n.lins = append([]*Term(nil), s.lins...)
	n.locks = append([]LockHold(nil), s.locks...)
	n.ev = append([]*Event(nil), s.ev...)
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		nf := *f
		nf.env = make(map[ssa.Value]*Term, len(f.env))
		for k, v := range f.env {
			nf.env[k] = v
		}
		nf.defers = append([]*DeferRec(nil), f.defers...)
		nf.loops = make([]*loopRec, len(f.loops))
		for j, l := range f.loops {
			nl := *l
			nf.loops[j] = &nl
		}
		n.frames[i] = &nf
	}
	return n
}

// ---- facts ---------------------------------------------------------------------

func (e *Engine) lowerBound(t *Term) (int64, bool) {
	switch t.op {
	case "len", "cap", "be", "byteat", "idx", "natsym":
		return 0, true
	case "conv":
		if t.typ != nil {
			if b, ok := t.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
				return 0, true
			}
		}
	case "after":
		return 0, false
	}
	if t.typ != nil {
		if b, ok := t.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 && t.op != "lin" {
			return 0, true
		}
		if bits, signed, ok := intRange(t.typ); ok && signed && bits < 64 {
			return -1 << uint(bits-1), true
		}
	}
	return 0, false
}

// linNonNeg: is l >= 0 by itself (constants and atom lower bounds)?
func (e *Engine) linNonNeg(l lin) bool {
	min := l.c
	for t, k := range l.coef {
		if k < 0 {
			ub, ok := e.upperBound(t)
			if !ok {
				return false
			}
			min += k * ub
			continue
		}
		lb, ok := e.lowerBound(t)
		if !ok {
			return false
		}
		min += k * lb
	}
	return min >= 0
}

// upperBound: what a value of a narrow integer type cannot exceed.
func (e *Engine) upperBound(t *Term) (int64, bool) {
	if t.typ == nil {
		return 0, false
	}
	bits, signed, ok := intRange(t.typ)
	if !ok || bits >= 64 {
		return 0, false
	}
	if signed {
		return 1<<uint(bits-1) - 1, true
	}
	return 1<<uint(bits) - 1, true
}

// entails: do the facts of s imply t >= 0? Sums of up to three facts are tried.
func (e *Engine) entails(s *State, t *Term) bool {
	g := toLin(t)
	return e.entailsLin(s, g, 3)
}

func (e *Engine) entailsLin(s *State, g lin, depth int) bool {
	if e.linNonNeg(g) {
		return true
	}
	if depth == 0 {
		return false
	}
	for _, f := range s.lins {
		fl := toLin(f)
		// only useful when it cancels an atom of g
		useful := false
		for t, k := range fl.coef {
			if gk, ok := g.coef[t]; ok && (gk > 0) == (k > 0) {
				useful = true
				break
			}
		}
		if !useful {
			continue
		}
		if e.entailsLin(s, linAdd(g, fl, -1), depth-1) {
			return true
		}
	}
	return false
}

// eval: truth of a condition under the facts (known, value).
func (e *Engine) eval(s *State, c *Term) (bool, bool) {
	switch c.op {
	case "true":
		return true, true
	case "false":
		return true, false
	case "not":
		k, v := e.eval(s, c.args[0])
		return k, !v
	case "ge0":
		if e.entails(s, c.args[0]) {
			return true, true
		}
		if e.entails(s, e.p.Sub(e.p.Int(-1), c.args[0])) {
			return true, false
		}
		return false, false
	}
	if v, ok := s.facts[c]; ok {
		return true, v
	}
	if c.op == "eq" {
		a, b := c.args[0], c.args[1]
		if a.isNil() || b.isNil() {
			x := a
			if a.isNil() {
				x = b
			}
			if nonNilTerm(x) || s.facts[e.p.mk("nonnil", "", nil, nil, x)] {
				return true, false
			}
			if x.op == "slice" { // slicing keeps nilness
				return e.eval(s, e.p.Eq(x.args[0], b2(x, a, b)))
			}
			return false, false
		}
		if numeric(a) && numeric(b) {
			d := e.p.Sub(a, b)
			if e.entails(s, e.p.Sub(d, e.p.Int(1))) || e.entails(s, e.p.Sub(e.p.Scale(d, -1), e.p.Int(1))) {
				return true, false
			}
			if e.entails(s, d) && e.entails(s, e.p.Scale(d, -1)) {
				return true, true
			}
		}
		// equal to another constant already
		for f, v := range s.facts {
			if v && f.op == "eq" {
				for i := 0; i < 2; i++ {
					for j := 0; j < 2; j++ {
						if f.args[i] == c.args[j] && f.args[1-i] != c.args[1-j] && isConst(f.args[1-i]) && isConst(c.args[1-j]) {
							return true, false
						}
					}
				}
			}
		}
	}
	return false, false
}

func b2(x, a, b *Term) *Term {
	if x == a {
		return b
	}
	return a
}

func numeric(t *Term) bool {
	if t.op == "const" || t.op == "lin" {
		return true
	}
	if t.typ != nil {
		return isInteger(t.typ)
	}
	return false
}

// assume adds a condition; false means the path is infeasible.
func (e *Engine) assume(s *State, c *Term, truth bool) bool {
	if known, v := e.eval(s, c); known {
		if v != truth {
			return false
		}
		// keep it recorded, as path information
	}
	if c.op == "not" {
		return e.assume(s, c.args[0], !truth)
	}
	if c.isBool() {
		return true
	}
	if c.op == "ge0" {
		t := c.args[0]
		if !truth {
			t = e.p.Sub(e.p.Int(-1), t)
		}
		for _, x := range s.lins {
			if x == t {
				return true
			}
		}
		s.lins = append(s.lins, t)
		return true
	}
	s.facts[c] = truth
	if c.op == "eq" && numeric(c.args[0]) && numeric(c.args[1]) {
		d := e.p.Sub(c.args[0], c.args[1])
		m := e.p.Scale(d, -1)
		if truth {
			s.lins = append(s.lins, d, m)
		} else if e.entails(s, d) {
			s.lins = append(s.lins, e.p.Sub(d, e.p.Int(1)))
		} else if e.entails(s, m) {
			s.lins = append(s.lins, e.p.Sub(m, e.p.Int(1)))
		}
	}
	return true
}

// dropSyms forgets facts that mention any of the given symbols.
func (s *State) dropFacts(bad func(*Term) bool) {
	for f := range s.facts {
		for _, y := range f.syms {
			if bad(y) {
				delete(s.facts, f)
				break
			}
		}
	}
	keep := s.lins[:0:0]
	for _, f := range s.lins {
		ok := true
		for _, y := range f.syms {
			if bad(y) {
				ok = false
				break
			}
		}
		if ok {
			keep = append(keep, f)
		}
	}
	s.lins = keep
}

// condSnapshot: the path conditions of s, for reports and recurrences.
type Cond struct {
	T     *Term
	Truth bool
}

func (s *State) snapshotFacts() map[*Term]bool {
	m := make(map[*Term]bool, len(s.facts)+len(s.lins))
	for k, v := range s.facts {
		m[k] = v
	}
	return m
}

// ---- memory --------------------------------------------------------------------

func baseOf(addr *Term) *Term {
	for addr.op == "field" || addr.op == "index" {
		addr = addr.args[0]
	}
	return addr
}

func verKeyOf(addr *Term) string {
	switch addr.op {
	case "field":
		return "f:" + addr.aux
	case "index":
		if addr.typ != nil {
			return "e:" + typeKey(addr.typ)
		}
		return "e:"
	}
	if addr.typ != nil {
		return "p:" + typeKey(addr.typ)
	}
	return "p:"
}

func fieldAux(st types.Type, i int) string {
	name := "?"
	if n, ok := types.Unalias(st).(*types.Named); ok {
		name = n.Obj().Name()
	}
	s := st.Underlying().(*types.Struct)
	return fmt.Sprintf("%s#%d.%s", name, i, s.Field(i).Name())
}

func auxIndex(aux string) int {
	i := strings.IndexByte(aux, '#')
	j := strings.IndexByte(aux[i:], '.')
	n, _ := strconv.Atoi(aux[i+1 : i+j])
	return n
}
func auxStruct(aux string) string {
	i := strings.IndexByte(aux, '#')
	if i < 0 {
		return ""
	}
	return aux[:i]
}

// FieldAddr term
func (e *Engine) fieldAddr(base *Term, st types.Type, i int) *Term {
	s := st.Underlying().(*types.Struct)
	return e.p.mk("field", fieldAux(st, i), types.NewPointer(s.Field(i).Type()), st, base)
}

func (e *Engine) indexAddr(s *State, x, i *Term, et types.Type) *Term {
	// &slice(arr, lo, hi)[i] == &arr[lo+i]
	for x.op == "slice" {
		i = e.p.Add(x.args[1], i)
		x = x.args[0]
	}
	return e.p.mk("index", "", types.NewPointer(et), nil, x, i)
}

func (e *Engine) fldOf(v *Term, st types.Type, i int, extra ...*Term) *Term {
	s := st.Underlying().(*types.Struct)
	ft := s.Field(i).Type()
	switch v.op {
	case "struct":
		return v.args[i]
	case "zero":
		return e.p.zero(ft)
	}
	args := append([]*Term{v}, extra...)
	return e.p.mk("fld", fieldAux(st, i), ft, st, args...)
}

func (e *Engine) elemOf(s *State, x, i *Term, et types.Type) *Term {
	for {
		switch x.op {
		case "slice":
			i = e.p.Add(x.args[1], i)
			x = x.args[0]
			continue
		case "append":
			// append(s, a, b)[len(s)+k]
			if i.isInt() {
				if l := e.lenOf(x.args[0]); l.isInt() {
					k := i.intVal() - l.intVal()
					if k >= 0 && int(k) < len(x.args)-1 {
						return x.args[1+k]
					}
					if k < 0 {
						x = x.args[0]
						continue
					}
				}
			} else if d := e.p.Sub(i, e.lenOf(x.args[0])); d.isInt() && d.intVal() >= 0 && int(d.intVal()) < len(x.args)-1 && !e.permuted(s, et) {
				return x.args[1+d.intVal()]
			}
		}
		break
	}
	args := []*Term{x, i}
	if s != nil {
		if v := s.memver["e:"+typeKey(types.NewPointer(et))]; v != nil {
			args = append(args, v)
		}
	}
	return e.p.mk("elem", "", et, nil, args...)
}

// permuted: were elements of this type reordered in place?
func (e *Engine) permuted(s *State, et types.Type) bool {
	if s == nil {
		return false
	}
	v := s.memver["e:"+typeKey(types.NewPointer(et))]
	return v != nil && v.op == "perm"
}

func pointee(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// load reads memory at addr; T is the type of the value.
func (e *Engine) load(s *State, addr *Term, T types.Type) *Term {
	hasSub := false
	if _, ok := T.Underlying().(*types.Struct); ok {
		for c := range s.mem {
			if c != addr && under(c, addr) {
				hasSub = true
				break
			}
		}
		if !hasSub && addr.op != "new" {
			if _, ok := s.mem[addr]; !ok {
				st := T.Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					if s.memver["f:"+fieldAux(T, i)] != nil {
						hasSub = true
						break
					}
				}
			}
		}
		if hasSub {
			st := T.Underlying().(*types.Struct)
			args := make([]*Term, st.NumFields())
			for i := range args {
				args[i] = e.load(s, e.fieldAddr(addr, T, i), st.Field(i).Type())
			}
			return e.p.mk("struct", typeKey(T), T, nil, args...)
		}
	}
	if v, ok := s.mem[addr]; ok {
		return v
	}
	switch addr.op {
	case "field":
		st := addr.obj.(types.Type)
		i := auxIndex(addr.aux)
		base := addr.args[0]
		// data behind a lock of an object others can see is not remembered
		_, guarded := e.pr.guardOf[addr.aux]
		if guarded && base.op == "new" && s.shared[base] {
			return e.p.mk("fld", fieldAux(st, i), st.Underlying().(*types.Struct).Field(i).Type(), st, e.p.mk("deref", "", st, nil, base), e.guardEpoch(s, addr))
		}
		// an enclosing whole value known?
		if v, ok := s.mem[base]; ok {
			return e.fldOf(v, st, i)
		}
		if base.op == "field" || base.op == "index" {
			if known := e.wholeKnown(s, base); known {
				return e.fldOf(e.whole(s, base, st), st, i)
			}
		}
		var extra []*Term
		if v := s.memver["f:"+addr.aux]; v != nil {
			extra = append(extra, v)
		}
		if ep := e.guardEpoch(s, addr); ep != nil {
			extra = append(extra, ep)
		}
		return e.fldOf(e.content(s, base, st), st, i, extra...)
	case "index":
		et := T
		if pt := pointee(addr.typ); pt != nil {
			et = pt
		}
		return e.elemOf(s, addr.args[0], addr.args[1], et)
	case "global":
		args := []*Term{addr}
		if v := s.memver[verKeyOf(addr)]; v != nil {
			args = append(args, v)
		}
		return e.p.mk("gval", addr.aux, T, nil, args[1:]...)
	}
	return e.content(s, addr, T)
}

// whole is the last value stored to all of base at once, parts stored since
// left aside.
func (e *Engine) whole(s *State, base *Term, T types.Type) *Term {
	if v, ok := s.mem[base]; ok {
		return v
	}
	switch base.op {
	case "field":
		st := base.obj.(types.Type)
		return e.fldOf(e.whole(s, base.args[0], st), st, auxIndex(base.aux))
	case "index":
		return e.elemOf(s, base.args[0], base.args[1], T)
	}
	return e.content(s, base, T)
}

func (e *Engine) wholeKnown(s *State, a *Term) bool {
	for {
		if _, ok := s.mem[a]; ok {
			return true
		}
		if a.op != "field" && a.op != "index" {
			return false
		}
		a = a.args[0]
	}
}

// content is the canonical (unwritten) value at an address.
func (e *Engine) content(s *State, addr *Term, T types.Type) *Term {
	switch addr.op {
	case "index":
		return e.elemOf(s, addr.args[0], addr.args[1], T)
	case "field":
		st := addr.obj.(types.Type)
		var extra []*Term
		if v := s.memver["f:"+addr.aux]; v != nil {
			extra = append(extra, v)
		}
		return e.fldOf(e.content(s, addr.args[0], st), st, auxIndex(addr.aux), extra...)
	case "global":
		return e.p.mk("gval", addr.aux, T, nil)
	case "new":
		return e.p.mk("deref", "lost", T, nil, addr)
	}
	args := []*Term{addr}
	if _, ok := T.Underlying().(*types.Struct); !ok {
		if v := s.memver[verKeyOf(addr)]; v != nil {
			args = append(args, v)
		}
	}
	return e.p.mk("deref", "", T, nil, args...)
}

func under(c, a *Term) bool {
	for c.op == "field" || c.op == "index" {
		c = c.args[0]
		if c == a {
			return true
		}
	}
	return false
}

func (e *Engine) mayAlias(s *State, a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op == "mapcell" || a.op == "iter" || b.op == "mapcell" || b.op == "iter" {
		return false // not memory that has an address
	}
	if a.op != b.op {
		// an index/field cell never aliases a different kind of cell, unless via plain pointers
		if a.op == "field" || b.op == "field" || a.op == "index" || b.op == "index" {
			pa, pb := pointee(a.typ), pointee(b.typ)
			if pa == nil || pb == nil || !types.Identical(pa, pb) {
				return false
			}
			ba, bb := baseOf(a), baseOf(b)
			if ba.op == "new" && !s.escaped[ba] || bb.op == "new" && !s.escaped[bb] {
				return false
			}
			return true
		}
	}
	switch a.op {
	case "field":
		if a.aux != b.aux {
			return false
		}
		return e.mayAliasBase(s, a.args[0], b.args[0])
	case "index":
		pa, pb := pointee(a.typ), pointee(b.typ)
		if pa == nil || pb == nil || !types.Identical(pa, pb) {
			return false
		}
		if a.args[0] == b.args[0] {
			if k, v := e.eval(s, e.p.Eq(a.args[1], b.args[1])); k && !v {
				return false
			}
			return true
		}
		return e.mayAliasBase(s, a.args[0], b.args[0])
	}
	return e.mayAliasBase(s, a, b)
}

func (e *Engine) mayAliasBase(s *State, a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op == "field" || a.op == "index" || b.op == "field" || b.op == "index" {
		if a.op == b.op {
			return e.mayAlias(s, a, b)
		}
		ba, bb := baseOf(a), baseOf(b)
		if ba.op == "new" && !s.escaped[ba] || bb.op == "new" && !s.escaped[bb] {
			return false
		}
		return true
	}
	fresh := func(t *Term) bool { return t.op == "new" || t.op == "makeslice" || t.op == "makemap" }
	if fresh(a) && fresh(b) {
		return false
	}
	if fresh(a) && !s.escaped[a] && !b.hasSym(a) || fresh(b) && !s.escaped[b] && !a.hasSym(b) {
		return false
	}
	if a.op == "global" && (b.op == "global" || fresh(b)) || b.op == "global" && fresh(a) {
		return false // a variable is not part of what was allocated
	}
	return true
}

func (e *Engine) store(s *State, fr *Frame, ins ssa.Instruction, addr, v *Term) {
	base := baseOf(addr)
	local := (base.op == "new" || base.op == "makeslice") && !s.escaped[base]
	for c := range s.mem {
		if under(c, addr) {
			delete(s.mem, c)
			continue
		}
		if c != addr && !under(addr, c) && e.mayAlias(s, c, addr) {
			s.mem[c] = e.p.sym("havoc", e.siteKey(fr, ins)+"/"+strconv.Itoa(c.id), nil, e.site(fr, ins))
		}
	}
	if under2 := addr.op == "field" || addr.op == "index"; under2 {
		// materialise an enclosing whole value first: split it into cells
		for a := addr.args[0]; ; a = a.args[0] {
			if w, ok := s.mem[a]; ok {
				if w.op == "zero" || w.op == "struct" || w.typ != nil {
					// keep the whole value and shadow it by the cell: load() prefers cells
				}
				break
			}
			if a.op != "field" && a.op != "index" {
				break
			}
		}
	}
	s.mem[addr] = v
	if !local {
		s.memver[verKeyOf(addr)] = e.p.sym("ver", e.siteKey(fr, ins), nil, e.site(fr, ins))
	}
	// escape of what is stored
	if base.op == "new" && !s.escaped[base] && !s.shared[base] {
		// stored into local memory: reachable from it only
		return
	}
	e.escape(s, v)
	if !(base.op == "new" || base.op == "makeslice") || s.shared[base] {
		e.share(s, v)
	}
}

func (e *Engine) escape(s *State, v *Term) {
	for _, y := range v.syms {
		if (y.op == "new" || y.op == "makemap" || y.op == "makeslice") && !s.escaped[y] {
			s.escaped[y] = true
			for c, w := range s.mem {
				if baseOf(c) == y {
					e.escape(s, w)
				}
			}
		}
	}
}

func (e *Engine) share(s *State, v *Term) {
	for _, y := range v.syms {
		if (y.op == "new" || y.op == "makemap" || y.op == "makeslice") && !s.shared[y] {
			s.shared[y] = true
			s.escaped[y] = true
			for c, w := range s.mem {
				if baseOf(c) == y {
					e.share(s, w)
				}
			}
		}
	}
}

// ---- state keys ----------------------------------------------------------------

func (s *State) key(e *Engine) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s.%d.%v", s.label, s.rootN, s.recovered)
	if s.spawn != nil {
		fmt.Fprintf(&b, "go%d", s.spawn.id)
	}
	for i, f := range s.frames {
		fmt.Fprintf(&b, "F%d.%s.%d.%d.%v.%v{", f.ctx.id, f.fn.Name(), f.blk.Index, f.pc, f.runDefer, f.panicking)
		var ks []string
		var lv map[ssa.Value]bool
		if i == len(s.frames)-1 {
			lv = e.pr.liveAt(f.fn, f.blk, f.pc)
		} else {
			lv = e.pr.liveAt(f.fn, f.blk, f.pc)
		}
		for v := range lv {
			if t, ok := f.env[v]; ok {
				ks = append(ks, v.Name()+"="+strconv.Itoa(t.id))
			}
		}
		sort.Strings(ks)
		b.WriteString(strings.Join(ks, ","))
		fmt.Fprintf(&b, "|d%d", len(f.defers))
		for _, d := range f.defers {
			fmt.Fprintf(&b, ":%d", d.ins.Pos())
			for _, a := range d.args {
				fmt.Fprintf(&b, ",%d", a.id)
			}
		}
		for _, l := range f.loops {
			fmt.Fprintf(&b, "|L%d.%d.%v.%d.%s", l.header.Index, l.nev, l.decided, l.unroll, e.loopCtl(l))
		}
		b.WriteString("}")
	}
	writeMap(&b, "M", s.mem)
	var vs []string
	for k, v := range s.memver {
		vs = append(vs, k+"="+strconv.Itoa(v.id))
	}
	sort.Strings(vs)
	b.WriteString("V" + strings.Join(vs, ","))
	var fs []string
	for k, v := range s.facts {
		fs = append(fs, strconv.Itoa(k.id)+fmt.Sprint(v))
	}
	for _, l := range s.lins {
		fs = append(fs, "l"+strconv.Itoa(l.id))
	}
	sort.Strings(fs)
	b.WriteString("T" + strings.Join(fs, ","))
	b.WriteString("K" + s.lockKey())
	b.WriteString("E")
	for _, x := range s.ev {
		fmt.Fprintf(&b, "%d,", x.id)
	}
	var is []string
	for k, v := range s.inits {
		is = append(is, k+":"+v.key)
	}
	sort.Strings(is)
	b.WriteString("I" + strings.Join(is, ";"))
	var sh []string
	for k := range s.shared {
		sh = append(sh, "s"+strconv.Itoa(k.id))
	}
	for k := range s.escaped {
		sh = append(sh, "e"+strconv.Itoa(k.id))
	}
	sort.Strings(sh)
	b.WriteString(strings.Join(sh, ","))
	return b.String()
}

func (s *State) lockKey() string {
	var b strings.Builder
	for _, l := range s.locks {
		fmt.Fprintf(&b, "%d%c,", l.addr.id, l.mode)
	}
	return b.String()
}

func writeMap(b *strings.Builder, tag string, m map[*Term]*Term) {
	var ks []string
	for k, v := range m {
		ks = append(ks, strconv.Itoa(k.id)+"="+strconv.Itoa(v.id))
	}
	sort.Strings(ks)
	b.WriteString(tag + strings.Join(ks, ","))
}
