package main

// Lists that answer lists: what a response's arrays hold, one entry per entry
// of the request.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// List: a slice with exactly one entry for each entry of Src, in order.
type List struct {
	T     *Term
	ET    types.Type
	Loop  *LoopInfo
	Src   *Term
	Cur   *Term // index of the entry, in an iteration
	Items []*ListItem
}

type ListItem struct {
	It    *Iter
	S     *State
	field func(i int) *Term
	val   *Term
}

func sliceBase(t *Term) *Term {
	for t != nil && t.op == "slice" {
		t = t.args[0]
	}
	return t
}

// appendBase: the slice that was appended to.
func appendBase(t *Term) *Term {
	for t != nil && (t.op == "slice" || t.op == "append" || t.op == "concat") {
		t = t.args[0]
	}
	return t
}

// addrSlice: the slice an address is an element (or part of one) of, and the index.
func addrSlice(a *Term) (x, i *Term) {
	for a != nil && a.op == "field" {
		a = a.args[0]
	}
	if a != nil && a.op == "index" {
		return a.args[0], a.args[1]
	}
	return nil, nil
}

// list decides that t, in state s, holds one entry per entry of src, in order.
func (e *Engine) list(s *State, evs []*Event, t *Term, ET types.Type, src *Term) (*List, string) {
	if t == nil {
		return nil, "no list"
	}
	n := e.lenOf(src)
	if t.isNil() || t.op == "zero" || t.op != "loop" && e.lenOf(t) == e.p.Int(0) && t.op != "makeslice" {
		if e.entails(s, e.p.Scale(n, -1)) {
			return &List{T: t, ET: ET, Src: src}, ""
		}
		return nil, "empty though there may be entries in " + clip(src.String(), 120)
	}
	li := &List{T: t, ET: ET, Src: src}
	if t.op == "makeslice" {
		if t.args[0] != n {
			if t.args[0] == e.p.Int(0) && e.entails(s, e.p.Scale(n, -1)) {
				return li, ""
			}
			return nil, "has " + clip(t.args[0].String(), 120) + " entries, not one per entry of " + clip(src.String(), 120)
		}
		// filled by index
		for _, l := range e.loops {
			_, cur, ok := e.counter(l)
			if !ok {
				continue
			}
			if e.fills(l, t, cur) {
				if li.Loop != nil && li.Loop != l {
					return nil, "filled by several loops"
				}
				li.Loop, li.Cur = l, cur
			}
		}
		if li.Loop == nil {
			return nil, "not filled entry by entry in a loop"
		}
		if why := e.ownFill(t, li.Loop); why != "" {
			return nil, why
		}
		for _, it := range li.Loop.Iters {
			it := it
			li.Items = append(li.Items, &ListItem{It: it, S: it.State, field: func(i int) *Term { return e.madeField(it.State, t, li.Cur, ET, i) }, val: e.madeVal(it.State, t, li.Cur, ET)})
		}
	} else {
		sq, why := e.seq(t)
		if sq == nil {
			return nil, why
		}
		if sq.Map != nil {
			return nil, "in the order of a map"
		}
		if sq.Idx == nil {
			return nil, "not built by a loop that counts"
		}
		li.Loop, li.Cur = sq.Loop, sq.Idx
		for _, x := range sq.Items {
			x := x
			a := e.indexAddr(x.S, x.It.Next[t], e.lenOf(t), ET)
			v := e.load(x.S, a, ET)
			li.Items = append(li.Items, &ListItem{It: x.It, S: x.S, val: v, field: func(i int) *Term {
				if pt := pointee(ET); pt != nil {
					if v.op == "new" {
						return e.fldOf(e.load(x.S, v, pt), pt, i)
					}
					return e.p.mk("unknown", "", nil, nil, v)
				}
				return e.fldOf(v, ET, i)
			}})
		}
	}
	// the loop visits every entry of src
	for _, it := range li.Loop.Iters {
		if !e.entails(it.State, e.p.Sub(e.p.Sub(n, e.p.Int(1)), li.Cur)) {
			return nil, fmt.Sprintf("goes on at %s beyond the entries of %s", li.Cur, clip(src.String(), 120))
		}
	}
	if ok, why := e.exhausted(s, evs, li.Loop, src, li.Cur); !ok {
		return nil, why
	}
	if why := e.touched(li); why != "" {
		return nil, why
	}
	return li, ""
}

// touched: is the list changed other than by adding its own entry in turn?
func (e *Engine) touched(li *List) string {
	for _, ev := range e.evlist {
		switch ev.Kind {
		case "store":
			x, i := addrSlice(ev.Args[0])
			if x == nil {
				continue
			}
			b := sliceBase(x)
			if b == li.T && b.op == "makeslice" {
				if i != li.Cur {
					return "entries may be overwritten at " + e.where(ev)
				}
				continue
			}
			if appendBase(x) != li.T {
				continue
			}
			if b.op == "append" && b.args[0] == li.T && i == e.lenOf(li.T) {
				continue
			}
			return "entries may be overwritten at " + e.where(ev)
		case "permute":
			if appendBase(ev.Args[0]) == li.T {
				return "reordered at " + e.where(ev)
			}
		case "copy":
			if len(ev.Args) > 0 && appendBase(ev.Args[0]) == li.T {
				return "entries may be overwritten at " + e.where(ev)
			}
		}
	}
	return ""
}

// madeField: field i of element cur of a slice made in this iteration's past,
// zero unless stored.
func (e *Engine) madeField(s *State, ms, cur *Term, ET types.Type, i int) *Term {
	if ET2 := pointee(ET); ET2 != nil {
		v := e.madeVal(s, ms, cur, ET)
		if v.op == "new" {
			return e.fldOf(e.load(s, v, ET2), ET2, i)
		}
		return e.p.mk("unknown", "", nil, nil, v)
	}
	a := e.indexAddr(s, ms, cur, ET)
	fa := e.fieldAddr(a, ET, i)
	if v, ok := s.mem[fa]; ok {
		return v
	}
	if v, ok := s.mem[a]; ok {
		return e.fldOf(v, ET, i)
	}
	return e.p.zero(ET.Underlying().(*types.Struct).Field(i).Type())
}

func (e *Engine) madeVal(s *State, ms, cur *Term, ET types.Type) *Term {
	a := e.indexAddr(s, ms, cur, ET)
	if v, ok := s.mem[a]; ok {
		return v
	}
	return e.p.zero(ET)
}

// ---- request and response items --------------------------------------------------

// itemSpec: where the names, numbers and error codes are, by field position.
type itemSpec struct {
	what                                 string
	inTopics, inName, inParts, inIdx     int // inName -1: the entry is the name; inIdx -1: the entry is the number
	outTopics, outName, outParts, outIdx int
	outErr                               int // of a partition, or of a topic when there are no partitions
	inGroup                              int
	perTopic                             bool
}

var itemSpecs = map[apiSlot]itemSpec{
	{1, 2}: {what: "Fetch v2", inTopics: 3, inName: 0, inParts: 1, inIdx: 0, outTopics: 1, outName: 0, outParts: 1, outIdx: 0, outErr: 1},
	{2, 1}: {what: "ListOffsets v1", inTopics: 1, inName: 0, inParts: 1, inIdx: 0, outTopics: 0, outName: 0, outParts: 1, outIdx: 0, outErr: 1},
	{8, 2}: {what: "OffsetCommit v2", inTopics: 4, inName: 0, inParts: 1, inIdx: 0, outTopics: 0, outName: 0, outParts: 1, outIdx: 0, outErr: 1},
	{9, 1}: {what: "OffsetFetch v1", inTopics: 1, inName: 0, inParts: 1, inIdx: -1, outTopics: 0, outName: 0, outParts: 1, outIdx: 0, outErr: 3},
	{3, 1}: {what: "Metadata v1", inTopics: 0, inName: -1, outTopics: 2, outName: 1, outErr: 0, perTopic: true},
}

var itemSlots = []apiSlot{{1, 2}, {2, 1}, {3, 1}, {8, 2}, {9, 1}}

// Answer: one entry of a response that answers a topic, or a topic and a partition.
type Answer struct {
	e     *Engine
	S     *State // the iteration that made the entry
	It    *Iter
	Req   *Term // the request
	Name  *Term // the topic asked about
	Part  *Term // the partition asked about, or nil
	Elem  *Term // the request's entry
	ElemT types.Type
	Out   func(i int) *Term
	Pos   string
	List  *List
	PE    *PathEnd
	// of a partition's entry: the list of topic entries it is in
	Outer  *List
	outerT types.Type
}

func (e *Engine) elemAt(s *State, src, cur *Term, ET types.Type) *Term {
	return e.load(s, e.indexAddr(s, src, cur, ET), ET)
}

// decoded: the request read on a path that succeeds.
func (pe *PathEnd) decoded() (*Term, types.Type) {
	for _, ev := range pe.Evs {
		if ev.Kind == "decode" && ev.Name == "ok" && len(ev.Res) > 1 && len(ev.Args) > 2 {
			v := ev.Res[1]
			if v.op == "iface" {
				v = v.args[0]
			}
			return v, rtypeOf(ev.Args[2])
		}
	}
	return nil, nil
}

// answers walks the entries of all responses a handler can give. topic is
// called for each topic entry, part for each partition entry.
func (r *Report) answers(e *Engine, fn *ssa.Function, sp itemSpec, rule string, topic, part func(*Answer)) (n int) {
	w := shortFn(fn)
	for _, pe := range e.ends {
		if pe.Kind != "return" || pe.Label != "" || len(pe.Res) != 3 || !pe.Res[2].isNil() {
			continue
		}
		n++
		req, RT := pe.decoded()
		if req == nil || RT == nil {
			r.fail(rule, w, "undecided: answers without having read a request")
			continue
		}
		v, VT := e.respStruct(pe.S, pe.Res[0])
		if v == nil {
			r.fail(rule, w, "undecided: the response is not a struct", str(pe.Res[0]))
			continue
		}
		rst, vst := RT.Underlying().(*types.Struct), VT.Underlying().(*types.Struct)
		if sp.inTopics >= rst.NumFields() || sp.outTopics >= vst.NumFields() {
			r.fail(rule, w, "anchor lost: request or response has fewer fields")
			continue
		}
		src := e.fldOf(req, RT, sp.inTopics)
		inT, outT := elemT(rst.Field(sp.inTopics).Type()), elemT(vst.Field(sp.outTopics).Type())
		if inT == nil || outT == nil {
			r.fail(rule, w, "anchor lost: the topics of the request or response are not lists")
			continue
		}
		li, why := e.list(pe.S, pe.Evs, e.fldOf(v, VT, sp.outTopics), outT, src)
		if !r.check(li != nil, rule, w, "one topic entry per topic of the request, in order", why) {
			continue
		}
		for _, it := range li.Items {
			el := e.elemAt(it.S, src, li.Cur, inT)
			a := &Answer{e: e, S: it.S, It: it.It, Req: req, Elem: el, ElemT: inT, Out: it.field, Pos: w, List: li, PE: pe}
			a.Name = el
			if sp.inName >= 0 {
				a.Name = e.fldOf(el, inT, sp.inName)
			}
			topic(a)
			if sp.perTopic || part == nil {
				continue
			}
			ist, ost := structOf(inT), structOf(outT)
			if ist == nil || ost == nil || sp.inParts >= ist.NumFields() || sp.outParts >= ost.NumFields() {
				r.fail(rule, w, "anchor lost: partitions of a topic entry")
				continue
			}
			psrc := e.fldOf(el, inT, sp.inParts)
			pin, pout := elemT(ist.Field(sp.inParts).Type()), elemT(ost.Field(sp.outParts).Type())
			pl, why := e.list(it.S, it.S.ev, it.field(sp.outParts), pout, psrc)
			if !r.check(pl != nil, rule, w, "one partition entry per partition asked about, in order", why) {
				continue
			}
			for _, pi := range pl.Items {
				pel := e.elemAt(pi.S, psrc, pl.Cur, pin)
				b := &Answer{e: e, S: pi.S, It: pi.It, Req: req, Name: a.Name, Elem: pel, ElemT: pin, Out: pi.field, Pos: w, List: pl, PE: pe, Outer: li, outerT: inT}
				b.Part = pel
				if sp.inIdx >= 0 {
					b.Part = e.fldOf(pel, pin, sp.inIdx)
				}
				part(b)
			}
		}
	}
	return n
}

func structOf(T types.Type) *types.Struct {
	if T == nil {
		return nil
	}
	if p := pointee(T); p != nil {
		T = p
	}
	st, _ := T.Underlying().(*types.Struct)
	return st
}

// indexField: the field of a partition that holds its own number.
func (pr *Program) indexField() string {
	return pr.fieldOfType("kafkaPartition", typeIs("int32"))
}

// isIndex: is t the number k, possibly by way of the partition found under k?
func (r *Report) isIndex(e *Engine, m *storeModel, t, k *Term) bool {
	if t == k {
		return true
	}
	if t.op == "fld" && t.aux == r.pr.indexField() && t.args[0].op == "deref" {
		p := t.args[0].args[0]
		if p.op == "mapval" && p.args[1] == k {
			aux, _ := valueOwner(p.args[0])
			return aux == m.partitions && r.indexOK()
		}
	}
	return false
}

// indexOK: every partition carries the number it is entered under, for ever.
func (r *Report) indexOK() bool {
	if r.idx != 0 {
		return r.idx > 0
	}
	r.idx = 1
	pr := r.pr
	aux := pr.indexField()
	r.rule("index", "a partition's own number is the key it is entered under and never changes")
	m := r.storeModel()
	bad := func(w, what string, d ...string) {
		r.idx = -1
		r.fail("index", w, what, d...)
	}
	n := 0
	for _, fn := range pr.exportedAPI() {
		var e *Engine
		e = newEngine(pr, &RootCfg{Name: "index: " + shortFn(fn), Fn: fn, Hook: func(s *State, ev *Event) {
			switch ev.Kind {
			case "store":
				a := ev.Args[0]
				if a.op == "field" && a.aux == aux && !(a.args[0].op == "new" && !s.shared[a.args[0]] && !s.escaped[a.args[0]]) {
					bad(e.where(ev), "the number of a partition is changed")
				}
				if a.op != "field" && typeKey(ev.Args[1].typ) == "kafkamock.kafkaPartition" && !(baseOf(a).op == "new" && !s.shared[baseOf(a)]) {
					bad(e.where(ev), "a partition is overwritten")
				}
			case "mapset":
				if o, _ := valueOwner(ev.Args[0]); o != m.partitions {
					if mt, ok := mapType(ev.Args[0]); !ok || typeKey(mt) != "map[int32]*kafkamock.kafkaPartition" {
						return
					}
				}
				n++
				p := ev.Args[2]
				if p.op != "new" {
					bad(e.where(ev), "undecided: the partition entered is not a new one", p.String())
					return
				}
				PT := pointee(p.typ)
				got := e.fldOf(e.load(s, p, PT), PT, auxIndex(aux))
				if got != ev.Args[1] {
					bad(e.where(ev), "a partition is entered under another number than its own", "number: "+got.String(), "key: "+ev.Args[1].String())
				}
			}
		}})
		e.Run()
		r.account(e)
	}
	if n == 0 {
		bad("package", "anchor lost: no partition is ever entered")
	}
	if r.idx > 0 {
		r.pass("index", "package", fmt.Sprintf("%d places enter partitions, each under its own number", n))
	}
	return r.idx > 0
}

// constField: a field of the store that nothing ever writes is zero.
func (r *Report) constField(e *Engine, t *Term) *Term {
	for t.op == "conv" {
		v := r.constField(e, t.args[0])
		if v.isInt() {
			return v
		}
		return t
	}
	if t.op == "fld" && r.pr.storeField(t.aux) && len(r.pr.storesF[t.aux]) == 0 && !r.pr.wholeStored(auxStruct(t.aux)) {
		return e.p.zero(t.typ)
	}
	return t
}

// wholeStored: is a value of this struct type ever stored as a whole, or the
// address of one of its fields passed on?
func (pr *Program) wholeStored(name string) bool {
	for _, fn := range pr.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if n := namedOf(st.Val.Type()); n != nil && n.Obj().Name() == name {
						return true
					}
				}
				if fa, ok := in.(*ssa.FieldAddr); ok {
					if aux, _ := fieldOfAddr(fa); auxStruct(aux) == name {
						for _, ref := range *fa.Referrers() {
							switch x := ref.(type) {
							case *ssa.UnOp, *ssa.Store, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
								if st, ok := x.(*ssa.Store); ok && st.Addr != fa {
									return true
								}
							default:
								ft := pointee(fa.Type())
								if !isMutexType(ft) {
									return true
								}
							}
						}
					}
				}
			}
		}
	}
	return false
}

// found: was the thing looked up present (1), absent (-1), or not known (0)?
func (e *Engine) found(s *State, v *Term) int {
	if k, ok := e.eval(s, e.p.MapOk(v)); k {
		if ok {
			return 1
		}
		return -1
	}
	if k, isNil := e.eval(s, e.p.Eq(v, e.p.Nil())); k {
		if isNil {
			return -1
		}
		return 1
	}
	return 0
}

// Existence of what an answer is about, as far as its path has looked.
type Existence struct {
	absent, present bool
	topics, parts   []*Term // those found
	why             string
}

func (r *Report) exists(a *Answer, m *storeModel) *Existence {
	e, s := a.e, a.S
	x := &Existence{}
	seen := false
	for _, ev := range s.ev {
		if ev.Kind != "mapget" || len(ev.Args) < 3 {
			continue
		}
		o, base := valueOwner(ev.Args[0])
		if o != m.topics || ev.Args[1] != a.Name || !r.mockStore(e, m, base) {
			continue
		}
		seen = true
		switch e.found(s, ev.Args[2]) {
		case 1:
			x.topics = append(x.topics, ev.Args[2])
		case -1:
			x.absent = true
		}
	}
	if a.Part == nil {
		x.present = len(x.topics) > 0
		if !x.absent && !x.present {
			x.why = "whether the topic exists is not looked up or not tested on this path"
		}
		return x
	}
	for _, ev := range s.ev {
		if ev.Kind != "mapget" || len(ev.Args) < 3 {
			continue
		}
		o, base := valueOwner(ev.Args[0])
		if o != m.partitions || !r.isIndex(e, m, ev.Args[1], a.Part) {
			continue
		}
		ok := false
		for _, t := range x.topics {
			if t == base {
				ok = true
			}
		}
		if !ok {
			continue
		}
		seen = true
		switch e.found(s, ev.Args[2]) {
		case 1:
			x.parts = append(x.parts, ev.Args[2])
		case -1:
			x.absent = true
		}
	}
	x.present = len(x.parts) > 0
	if !x.absent && !x.present {
		x.why = "whether the partition exists is not looked up or not tested on this path"
		if !seen {
			x.why = "the topic asked about is not looked up on this path"
		}
	}
	return x
}

// mockStore: is base this mock's store, as the handler's client has it?
func (r *Report) mockStore(e *Engine, m *storeModel, base *Term) bool {
	return base != nil && base.op == "fld" && typeKey(base.typ) == "*kafkamock.kafkaDataStore" && base.args[0].op == "deref" && base.args[0].args[0].op == "param"
}

func (r *Report) handlerRun(as *apiSetup, sl apiSlot, hook func(e *Engine, s *State, ev *Event)) (*Engine, *ssa.Function) {
	fn := as.fns[sl]
	if fn == nil {
		r.fail("analysis", "handler table", fmt.Sprintf("anchor lost: no handler for key %d version %d", sl.key, sl.ver))
		return nil, nil
	}
	var e *Engine
	e = newEngine(r.pr, &RootCfg{Name: shortFn(fn), Fn: fn, Hook: func(s *State, ev *Event) {
		if hook != nil {
			hook(e, s, ev)
		}
	}})
	e.Run()
	r.account(e)
	return e, fn
}

func checkC15(r *Report) {
	r.rule("topics", "a response has one topic entry for each topic entry of its request, in that order, and it carries that topic's name")
	r.rule("partitions", "a topic entry has one partition entry for each partition its request names, in that order, and it carries that partition's number")
	as := r.apiSetup()
	m := r.storeModel()
	if as == nil {
		return
	}
	for _, sl := range itemSlots {
		sp := itemSpecs[sl]
		e, fn := r.handlerRun(as, sl, nil)
		if e == nil {
			continue
		}
		w := shortFn(fn)
		n := r.answers(e, fn, sp, "topics", func(a *Answer) {
			got := a.Out(sp.outName)
			r.check(got == a.Name, "topics", w, "a topic entry carries the name of the topic it answers", "carries: "+got.String(), "asked: "+a.Name.String())
		}, func(a *Answer) {
			got := a.Out(sp.outIdx)
			ok, why := r.isIndex(e, m, got, a.Part), ""
			if !ok {
				ok, why = r.keptPart(a, got)
			}
			r.check(ok, "partitions", w, "a partition entry carries the number of the partition it answers", "carries: "+got.String(), "asked: "+a.Part.String(), why)
		})
		r.check(n > 0, "topics", w, sp.what+" is answered on some path")
	}
	r.need("topics", 10)
	r.need("partitions", 4)
}
