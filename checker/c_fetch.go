package main

// Fetch: entries kept in objects that are set up per requested partition,
// filled while waiting, and answered from afterwards (C10, C11, C21; codes for C14).

import (
	"fmt"
	"go/types"
	"strings"
)

// ---- paths through loops ---------------------------------------------------------

// PathPred says what is looked for along a path: single events, or whole
// iterations.
type PathPred struct {
	ev func(*Event) bool
	it func(*Iter) bool
}

// must: does every run of this path contain what is looked for?
func (e *Engine) must(evs []*Event, q PathPred) bool { return e.mustD(evs, q, 0) }

func (e *Engine) mustD(evs []*Event, q PathPred, d int) bool {
	if d > 6 {
		return false
	}
	for i, ev := range evs {
		if q.ev != nil && q.ev(ev) {
			return true
		}
		if ev.Kind != "loop" {
			continue
		}
		end := loopEnd(evs, i)
		if end == nil {
			continue
		}
		l := e.loops[ev.Name]
		if l != nil && !e.avoids(l, ev.Ctl, end.Ctl, q, d) {
			return true
		}
	}
	return false
}

func loopEnd(evs []*Event, i int) *Event {
	for j := i + 1; j < len(evs); j++ {
		if evs[j].Kind == "loopend" && evs[j].Name == evs[i].Name {
			return evs[j]
		}
	}
	return nil
}

// avoids: can the loop get from flags c0 to flags c1 without it?
func (e *Engine) avoids(l *LoopInfo, c0, c1 string, q PathPred, d int) bool {
	seen := map[string]bool{c0: true}
	work := []string{c0}
	for len(work) > 0 {
		c := work[0]
		work = work[1:]
		if c == c1 {
			return true
		}
		for _, it := range l.Iters {
			if it.CtlIn != c || seen[it.CtlOut] {
				continue
			}
			if q.it != nil && q.it(it) || e.mustD(it.Evs, q, d+1) {
				continue
			}
			seen[it.CtlOut] = true
			work = append(work, it.CtlOut)
		}
	}
	return false
}

// between: the iterations a loop may have gone through from flags c0 to c1.
func (e *Engine) between(l *LoopInfo, c0, c1 string) []*Iter {
	fwd := map[string]bool{c0: true}
	for again := true; again; {
		again = false
		for _, it := range l.Iters {
			if fwd[it.CtlIn] && !fwd[it.CtlOut] {
				fwd[it.CtlOut], again = true, true
			}
		}
	}
	bwd := map[string]bool{c1: true}
	for again := true; again; {
		again = false
		for _, it := range l.Iters {
			if bwd[it.CtlOut] && !bwd[it.CtlIn] {
				bwd[it.CtlIn], again = true, true
			}
		}
	}
	var out []*Iter
	for _, it := range l.Iters {
		if fwd[it.CtlIn] && bwd[it.CtlOut] {
			out = append(out, it)
		}
	}
	return out
}

// along: all iterations of the loops a path runs through, of loops inside them
// as well.
func (e *Engine) along(evs []*Event) []*Iter {
	var out []*Iter
	seen := map[*Iter]bool{}
	var rec func(evs []*Event)
	rec = func(evs []*Event) {
		for i, ev := range evs {
			if ev.Kind != "loop" {
				continue
			}
			l := e.loops[ev.Name]
			if l == nil {
				continue
			}
			its := l.Iters
			if end := loopEnd(evs, i); end != nil {
				its = e.between(l, ev.Ctl, end.Ctl)
			}
			for _, it := range its {
				if !seen[it] {
					seen[it] = true
					out = append(out, it)
					rec(it.Evs)
				}
			}
		}
	}
	rec(evs)
	return out
}

// bounded: does the loop walk a fixed range (or a map), once?
func (e *Engine) bounded(l *LoopInfo) bool {
	if _, m := e.mapIterOf(l); m != nil {
		return true
	}
	own := func(t *Term) bool {
		for _, y := range t.syms {
			if y.op == "loop" && strings.HasPrefix(y.aux, l.Key+"/") {
				return true
			}
			if y.site != nil && y.op != "loop" && inLoop(e, y.site, l) {
				return true
			}
		}
		return false
	}
	for t := range l.Vars {
		if t.typ == nil || !isInteger(t.typ) {
			continue
		}
		good := len(l.Iters) > 0
		for _, it := range l.Iters {
			n := it.Next[t]
			if n == nil {
				good = false
				break
			}
			d := e.p.Sub(n, t)
			if !d.isInt() || d.intVal() == 0 {
				good = false
				break
			}
			up := d.intVal() > 0
			ok := false
			for _, f := range it.Lins {
				lf := toLin(f)
				c := lf.coef[t]
				if up && c >= 0 || !up && c <= 0 {
					continue
				}
				fix := true
				for x := range lf.coef {
					if x != t && own(x) {
						fix = false
					}
				}
				if fix {
					ok = true
				}
			}
			if !ok {
				good = false
				break
			}
		}
		if good {
			return true
		}
	}
	return false
}

func inLoop(e *Engine, st *Site, l *LoopInfo) bool {
	return e.inLoopSite(st, &loopRec{header: l.Header, ctx: l.Ctx, key: l.Key})
}

// ---- entries kept in objects -----------------------------------------------------

// FetchItem: the object set up for one requested partition.
type FetchItem struct {
	D *Term
	A *Answer // S is the state right after it was entered in the list
}

type FetchModel struct {
	e      *Engine
	FT     types.Type // of the objects
	X      *Term      // the list of them
	Items  []*FetchItem
	loops  []*LoopInfo
	later  map[string][]*fetchStore // stores to a field through the list
	paired map[*Term]int            // indexes of entries known to be the answer's own: 1, else -1
}

type fetchStore struct {
	elem *Term // the list entry
	via  string
	f    string
	ev   *Event
	s    *State
}

// famElem: is t a part of a list entry? Which one, and which field of it.
func famElem(t *Term, FT types.Type) (elem *Term, aux string) {
	if t == nil || t.op != "fld" {
		return nil, ""
	}
	b := t.args[0]
	if b.op == "deref" {
		b = b.args[0]
	}
	if b.op == "elem" && FT != nil && b.typ != nil && structKey(b.typ) == structKey(FT) {
		return b, t.aux
	}
	return nil, ""
}

func structKey(T types.Type) string {
	if p := pointee(T); p != nil {
		T = p
	}
	return typeKey(T)
}

// sameEntry: the same entry of the same list.
func sameEntry(a, b *Term) bool {
	return a != nil && b != nil && (a == b || a.op == "elem" && b.op == "elem" && a.args[0] == b.args[0] && a.args[1] == b.args[1])
}

// entryOfAddr: the list entry an address lies in, directly or one pointer on.
func (e *Engine) entryOfAddr(a *Term, FT types.Type) (elem *Term, via, f string) {
	if a.op != "field" {
		return nil, "", ""
	}
	b := a.args[0]
	if b.op == "elem" && b.typ != nil && structKey(b.typ) == structKey(FT) {
		return b, "", a.aux
	}
	if b.op == "index" && pointee(b.typ) != nil && structKey(pointee(b.typ)) == structKey(FT) {
		return e.p.mk("elem", "", pointee(b.typ), nil, b.args[0], b.args[1]), "", a.aux
	}
	if el, aux := famElem(b, FT); el != nil {
		return el, aux, a.aux
	}
	return nil, "", ""
}

// fetchModel works out, from an answered entry whose parts come from a list
// entry, the objects behind it.
func (r *Report) fetchModel(a *Answer, t *Term) (*FetchModel, *Term, string) {
	e := a.e
	if t.op != "fld" {
		return nil, nil, ""
	}
	b := t.args[0]
	if b.op == "deref" {
		b = b.args[0]
	}
	if b.op != "elem" || structOf(b.typ) == nil {
		return nil, nil, ""
	}
	if n := namedOf(b.typ); n != nil && (r.pr.storeField(n.Obj().Name()+"#0") || r.pr.recordField(n.Obj().Name()+"#0")) {
		return nil, nil, ""
	}
	X, n := b.args[0], b.args[1]
	if e.fetch != nil && e.fetch.X == X {
		m := e.fetch
		return m, b, r.pairing(m, a, n)
	}
	m := &FetchModel{e: e, FT: b.typ, X: X, paired: map[*Term]int{}}
	if p := pointee(b.typ); p != nil {
		m.FT = p
	}
	if why := r.build(m, a); why != "" {
		return nil, nil, why
	}
	e.fetch = m
	return m, b, r.pairing(m, a, n)
}

// build: the list is made by two nested loops over the topics of the request
// and their partitions, one new object each.
func (r *Report) build(m *FetchModel, a *Answer) string {
	e := m.e
	sp := itemSpecs[apiSlot{1, 2}]
	B1 := e.loopOf(m.X)
	if B1 == nil || B1.Vars[m.X] == nil {
		return "the list an entry is taken from is not built by a loop: " + clip(m.X.String(), 100)
	}
	for _, in := range B1.Inits {
		if n := e.lenOf(in[m.X]); !n.isInt() || n.intVal() != 0 {
			return "the list an entry is taken from does not start empty"
		}
	}
	_, cur1, ok := e.counter(B1)
	if !ok {
		return "the list is not built by counting over the topics"
	}
	req, RT := a.Req, reqType(a.PE)
	rst := RT.Underlying().(*types.Struct)
	src1 := e.fldOf(req, RT, sp.inTopics)
	T1 := elemT(rst.Field(sp.inTopics).Type())
	if ok, why := e.exhausted(a.PE.S, a.PE.Evs, B1, src1, cur1); !ok {
		return "setting up: " + why
	}
	m.loops = append(m.loops, B1)
	for _, it1 := range B1.Iters {
		if !e.entails(it1.State, e.p.Sub(e.p.Sub(e.lenOf(src1), e.p.Int(1)), cur1)) {
			return "setting up goes beyond the topics"
		}
		el1 := e.elemAt(it1.State, src1, cur1, T1)
		name := e.fldOf(el1, T1, sp.inName)
		src2 := e.fldOf(el1, T1, sp.inParts)
		T2 := elemT(structOf(T1).Field(sp.inParts).Type())
		Y := it1.Next[m.X]
		B2 := e.loopOf(Y)
		if B2 == nil || B2 == B1 || B2.Vars[Y] == nil {
			if Y == m.X && e.entails(it1.State, e.p.Scale(e.lenOf(src2), -1)) {
				continue
			}
			return "setting up a topic does not add one object per partition of it"
		}
		for _, in := range B2.Inits {
			if in[Y] != m.X {
				return "setting up a topic does not go on with the list"
			}
		}
		_, cur2, ok := e.counter(B2)
		if !ok {
			return "setting up does not count over the partitions"
		}
		if ok, why := e.exhausted(it1.State, it1.State.ev, B2, src2, cur2); !ok {
			return "setting up: " + why
		}
		had := false
		for _, l := range m.loops {
			had = had || l == B2
		}
		if had {
			continue
		}
		m.loops = append(m.loops, B2)
		for _, it2 := range B2.Iters {
			if !e.entails(it2.State, e.p.Sub(e.p.Sub(e.lenOf(src2), e.p.Int(1)), cur2)) {
				return "setting up goes beyond the partitions"
			}
			nx := it2.Next[Y]
			if nx == nil || nx.op != "append" || nx.args[0] != Y || len(nx.args) != 2 {
				return "setting up a partition does not add exactly one object"
			}
			D := nx.args[1]
			if pointee(D.typ) != nil && D.op != "new" {
				return "the object set up for a partition is not a new one: " + clip(D.String(), 100)
			}
			el2 := e.elemAt(it2.State, src2, cur2, T2)
			m.Items = append(m.Items, &FetchItem{D: D, A: &Answer{e: e, S: it2.State, It: it2, Req: req, Name: name, Part: e.fldOf(el2, T2, sp.inIdx), Elem: el2, ElemT: T2, Out: nil, PE: a.PE, Pos: a.Pos}})
		}
	}
	if len(m.Items) == 0 {
		return "no object is ever set up"
	}
	// nothing else touches the list
	for _, ev := range e.evlist {
		switch ev.Kind {
		case "store":
			x, i := addrSlice(ev.Args[0])
			if x == nil || appendBase(x) != m.X && e.loopOf(appendBase(x)) == nil {
				continue
			}
			xb := appendBase(x)
			mine := xb == m.X
			for _, l := range m.loops {
				if lo := e.loopOf(xb); lo == l && structKey2(xb) == structKey2(m.X) {
					mine = true
				}
			}
			if !mine {
				continue
			}
			if b := sliceBase(x); b.op == "append" && i == e.lenOf(b.args[0]) {
				continue
			}
			if ev.Args[0].op == "field" && pointee(m.X.typ) == nil {
				if xx := elemT(m.X.typ); xx != nil && pointee(xx) == nil {
					continue // part of an entry kept by value
				}
			}
			return "entries of the list may be replaced at " + e.where(ev)
		case "permute", "copy":
			if len(ev.Args) > 0 && appendBase(ev.Args[0]) == m.X {
				return "the list is changed at " + e.where(ev)
			}
		}
	}
	return ""
}

func structKey2(t *Term) string {
	if t == nil || t.typ == nil {
		return ""
	}
	return typeKey(t.typ)
}

// pairing: in an answered entry, n is the number of entries before it.
func (r *Report) pairing(m *FetchModel, a *Answer, n *Term) string {
	e := m.e
	_, li2 := a.List, a.List
	if a.Outer == nil {
		return "an entry that is not inside a topic's"
	}
	R1 := a.Outer.Loop
	j := li2.Cur
	var tried []string
	for v, lv := range R1.Vars {
		if v.typ == nil || !isInteger(v.typ) || lv.Phi == nil && lv.Cell == nil {
			continue
		}
		// any constant start: n − (v − start) − j = 0
		good := len(R1.Inits) > 0
		var c0 *Term
		for _, in := range R1.Inits {
			x := in[v]
			if x == nil || !x.isInt() || c0 != nil && c0 != x {
				good = false
			}
			c0 = x
		}
		if !good {
			continue
		}
		d := e.p.Add(e.p.Sub(e.p.Sub(n, v), j), c0)
		if !(d == e.p.Int(0) || e.entails(a.S, d) && e.entails(a.S, e.p.Scale(d, -1))) {
			tried = append(tried, "at "+clip(n.String(), 60)+", not known to be "+v.String()+" + "+j.String())
			continue
		}
		for _, it := range R1.Iters {
			el := e.elemAt(it.State, a.Outer.Src, a.Outer.Cur, a.outerT)
			ps := e.fldOf(el, a.outerT, itemSpecs[apiSlot{1, 2}].inParts)
			nx := it.Next[v]
			if nx == nil {
				good = false
				break
			}
			x := e.p.Sub(e.p.Sub(nx, v), e.lenOf(ps))
			if !(e.entails(it.State, x) && e.entails(it.State, e.p.Scale(x, -1))) {
				good = false
				tried = append(tried, v.String()+" does not grow by the partitions of each topic")
				break
			}
		}
		if good {
			if m.paired[n] == 0 {
				m.paired[n] = 1
			}
			return ""
		}
	}
	m.paired[n] = -1
	return "an entry is not known to be taken from its own object: " + strings.Join(tried, "; ")
}

// viaObject: error codes kept in the objects.
func (r *Report) viaObject(a *Answer, t *Term, sm *storeModel) ([]Code, string) {
	m, _, why := r.fetchModel(a, t)
	if m == nil || why != "" {
		return nil, why
	}
	if ev := m.stored(t.aux); ev != nil {
		return nil, "the code kept for an entry is changed later at " + m.e.where(ev)
	}
	var out []Code
	for _, it := range m.Items {
		v := it.field(m, t.aux)
		x := r.exists(it.A, sm)
		out = append(out, Code{code: r.constField(m.e, unconvW(v, 16)), ex: x, why: "", at: it.A})
	}
	return out, ""
}

// keptPart: the partition number, kept in the object set up for the entry.
func (r *Report) keptPart(a *Answer, t *Term) (bool, string) {
	m, _, why := r.fetchModel(a, t)
	if m == nil || why != "" || len(m.Items) == 0 {
		return false, why
	}
	if ev := m.stored(t.aux); ev != nil {
		return false, "the number kept for an entry is changed later at " + m.e.where(ev)
	}
	for _, it := range m.Items {
		if v := it.field(m, t.aux); v != it.A.Part {
			return false, "an object is set up for " + it.A.Part.String() + " with " + v.String()
		}
	}
	return true, ""
}

// field of the object as it was set up.
func (it *FetchItem) field(m *FetchModel, aux string) *Term {
	e := m.e
	if it.D.op == "new" {
		return e.fldOf(e.load(it.A.S, it.D, m.FT), m.FT, auxIndex(aux))
	}
	return e.fldOf(it.D, m.FT, auxIndex(aux))
}

// stored: is the field written through the list?
func (m *FetchModel) stored(aux string) *Event {
	for _, ev := range m.e.evlist {
		if ev.Kind != "store" {
			continue
		}
		a := ev.Args[0]
		if el, via, f := m.e.entryOfAddr(a, m.FT); el != nil && via == "" && f == aux {
			return ev
		}
		// the whole object
		if (a.op == "elem" || a.op == "index") && structKey(ev.Args[1].typ) == typeKey(m.FT) && pointee(ev.Args[1].typ) == nil && a.op == "elem" {
			return ev
		}
	}
	return nil
}

var _ = fmt.Sprint
