package main

// C10, C11, C21: what a fetch gives, when it ends, and what its message sets say.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type fetchRun struct {
	e     *Engine
	fn    *ssa.Function
	w     string
	m     *FetchModel
	sm    *storeModel
	sites map[*Event][]*State // stores, with the states before them
	hwm   string              // fields of the objects
	set   string
	msgs  string // field of the message sets: the messages
	kp    string
	size  string
	ok    bool
}

// fetchRun analyses the Fetch handler and pairs its entries with their objects.
func (r *Report) fetchRun(rule string) *fetchRun {
	as := r.apiSetup()
	sm := r.storeModel()
	if as == nil {
		return nil
	}
	f := &fetchRun{sm: sm, sites: map[*Event][]*State{}}
	sl := apiSlot{1, 2}
	sp := itemSpecs[sl]
	f.e, f.fn = r.handlerRun(as, sl, func(e *Engine, s *State, ev *Event) {
		if ev.Kind == "store" && ev.Args[0].op == "field" {
			f.sites[ev] = append(f.sites[ev], s.clone())
		}
	})
	if f.e == nil {
		return nil
	}
	f.w = shortFn(f.fn)
	n, good := 0, true
	r.answers(f.e, f.fn, sp, rule, func(*Answer) {}, func(a *Answer) {
		n++
		for k, what := range map[int]string{2: "high watermark", 3: "record set"} {
			t := a.Out(k)
			if k == 2 {
				t = unconvW(t, 64)
			}
			m, _, why := r.fetchModel(a, t)
			if m == nil && why == "" {
				why = "the " + what + " is not kept in an object set up for the entry: " + clip(t.String(), 120)
			}
			if why == "" && f.m != nil && f.m != m {
				why = "entries are taken from different lists"
			}
			if why != "" {
				good = false
				r.fail(rule, f.w, "undecided: "+why)
				continue
			}
			r.pass(rule, f.w, "the "+what+" of an entry is that of its own object")
			f.m = m
			p := &f.hwm
			if k == 3 {
				p = &f.set
			}
			if *p != "" && *p != t.aux {
				good = false
				r.fail(rule, f.w, "undecided: different fields are answered from")
			}
			*p = t.aux
		}
	})
	if n == 0 {
		r.fail(rule, f.w, "anchor lost: no partition is ever answered")
	}
	if !good || f.m == nil || f.hwm == "" || f.set == "" {
		return f
	}
	st := f.m.FT.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if typeKey(st.Field(i).Type()) == "*kafkamock.kafkaPartition" {
			if f.kp != "" {
				r.fail(rule, f.w, "undecided: an object has two partitions")
				return f
			}
			f.kp = fieldAux(f.m.FT, i)
		}
	}
	if f.kp == "" {
		r.fail(rule, f.w, "undecided: an object has no partition")
		return f
	}
	mst := structOf(st.Field(auxIndex(f.set)).Type())
	if mst == nil {
		r.fail(rule, f.w, "undecided: the record set of an object is not a struct")
		return f
	}
	MT := pointee(st.Field(auxIndex(f.set)).Type())
	if MT == nil {
		r.fail(rule, f.w, "undecided: the record set of an object is not kept by reference")
		return f
	}
	for i := 0; i < mst.NumFields(); i++ {
		if et := elemT(mst.Field(i).Type()); et != nil && structOf(et) != nil && shapeOf(et, 0) == messageSpec {
			f.msgs = fieldAux(MT, i)
		}
	}
	if f.msgs == "" {
		r.fail(rule, f.w, "anchor lost: a message set has no list of messages")
		return f
	}
	f.ok = true
	return f
}

// FetchAppend: a place that adds a message to an object's set.
type FetchAppend struct {
	ev  *Event
	s   *State
	el  *Term // the list entry
	set *Term // its message set
	msg func(i int) *Term
}

// appends: every message added, in every state it is added in.
func (f *fetchRun) appends(r *Report, rule string) []*FetchAppend {
	e := f.e
	var out []*FetchAppend
	for ev, ss := range f.sites {
		a := ev.Args[0]
		if a.aux != f.msgs {
			continue
		}
		wh := e.where(ev)
		el, via, _ := e.entryOfAddr(a, f.m.FT)
		for _, s := range ss {
			if el == nil || via != f.set {
				b := baseOf(a)
				if b.op == "new" && !s.shared[b] && e.lenOf(ev.Args[1]) == e.p.Int(0) {
					continue // set up empty
				}
				r.fail(rule, wh, "undecided: the message set written to is not that of an object of the list", a.String())
				continue
			}
			v := ev.Args[1]
			if v.op != "append" || len(v.args) != 2 || v.args[0].op != "fld" || v.args[0].aux != f.msgs || v.args[0].args[0] != e.p.mk("deref", "", v.args[0].args[0].typ, v.args[0].args[0].obj, a.args[0]) && !(v.args[0].args[0].op == "deref" && v.args[0].args[0].args[0] == a.args[0]) {
				r.fail(rule, wh, "the messages of a set are changed other than by adding one", clip(v.String(), 200))
				continue
			}
			m := v.args[1]
			MT := elemT(v.typ)
			if MT == nil {
				MT = elemT(pointee(a.typ))
			}
			x := &FetchAppend{ev: ev, s: s, el: el, set: a.args[0]}
			switch {
			case m.op == "struct":
				x.msg = func(i int) *Term { return m.args[i] }
			case m.op == "new" && pointee(MT) != nil:
				x.msg = func(i int) *Term { return e.fldOf(e.load(s, m, pointee(MT)), pointee(MT), i) }
			default:
				r.fail(rule, wh, "undecided: the message added", clip(m.String(), 200))
				continue
			}
			out = append(out, x)
		}
	}
	return out
}

// own: the value, before this store, of the cell it stores to.
func ownValue(a, v *Term) bool {
	return v.op == "fld" && v.aux == a.aux && v.args[0].op == "deref" && v.args[0].args[0] == a.args[0]
}

// cursorOf: which field of an object (or of its set) of entry el is t?
func (f *fetchRun) cursorOf(el, t *Term) string {
	t = unconvW(t, 64)
	if x, aux := famElem(t, f.m.FT); x != nil {
		if sameEntry(x, el) {
			return aux
		}
		return ""
	}
	if t.op == "fld" && t.args[0].op == "deref" {
		if x, aux := famElem(t.args[0].args[0], f.m.FT); x != nil && aux == f.set && sameEntry(x, el) {
			return f.set + ">" + t.aux
		}
	}
	return ""
}

// fieldOfItem: the value a field had when its object was set up.
func (f *fetchRun) initial(it *FetchItem, cur string) *Term {
	e := f.e
	if i := strings.Index(cur, ">"); i >= 0 {
		p := it.field(f.m, cur[:i])
		PT := pointee(p.typ)
		if PT == nil || p.op != "new" {
			return e.p.mk("unknown", "", nil, nil, p)
		}
		return e.fldOf(e.load(it.A.S, p, PT), PT, auxIndex(cur[i+1:]))
	}
	return it.field(f.m, cur)
}

// storesTo: the stores to a field of an object, or of its set, of some entry.
func (f *fetchRun) storesTo(cur string) map[*Event]*Term {
	out := map[*Event]*Term{}
	for ev := range f.sites {
		el, via, fl := f.e.entryOfAddr(ev.Args[0], f.m.FT)
		if el == nil {
			continue
		}
		k := fl
		if via != "" {
			k = via + ">" + fl
		}
		if k == cur {
			out[ev] = el
		}
	}
	return out
}

func checkC10(r *Report) {
	r.rule("pairing", "the high watermark and the record set of a partition's entry are those kept in the object set up for that same entry of the request")
	r.rule("partition", "an object's partition is the one found under the entry's topic and number in this mock's store, or the entry carries an error; it never changes")
	r.rule("watermark", "the high watermark kept in an object is the number of records of its own partition, read anew each time the partition is looked at, and every partition is looked at")
	r.rule("records", "a message is added only to the set of the object whose partition it was read from, with that record's timestamp, key and value, read at the object's position, and labelled with it")
	r.rule("position", "an object's position starts at the offset asked for and moves on by one exactly when a message is added")
	r.rule("limit", "a message is added only where the set with it is known to be within the entry's own byte limit")
	f := r.fetchRun("pairing")
	if f == nil || !f.ok {
		return
	}
	e, m, w := f.e, f.m, f.w
	// partitions
	nfound := 0
	r.check(m.stored(f.kp) == nil, "partition", w, "the partition of an object never changes")
	r.check(m.stored(f.set) == nil, "partition", w, "the message set of an object never changes")
	errF := ""
	r.answers(e, f.fn, itemSpecs[apiSlot{1, 2}], "partition", func(*Answer) {}, func(a *Answer) {
		t := unconvW(a.Out(1), 16)
		if mm, _, why := r.fetchModel(a, t); mm == m && why == "" {
			errF = t.aux
		}
	})
	for _, it := range m.Items {
		kp := it.field(m, f.kp)
		x := r.exists(it.A, f.sm)
		mine := false
		for _, p := range x.parts {
			mine = mine || p == kp
		}
		if kp.isNil() || kp.op == "zero" {
			code := e.p.Int(0)
			if errF != "" {
				code = r.constField(e, unconvW(it.field(m, errF), 16))
			}
			r.check(code.isInt() && code.intVal() != 0, "partition", w, "an entry without a partition carries an error", "code: "+code.String())
			continue
		}
		if k, v := e.eval(it.A.S, e.p.Eq(kp, e.p.Nil())); k && v {
			continue
		}
		nfound++
		r.check(mine, "partition", w, "the partition of an object is the one found for the entry", "partition: "+kp.String(), x.why)
		// the message set starts empty, and is this object's alone
		ms := it.field(m, f.set)
		r.check(ms.op == "new" && inLoopNew(e, ms, m), "position", w, "an object has a message set of its own", ms.String())
		msgs := f.initial(it, f.set+">"+f.msgs)
		r.check(e.lenOf(msgs) == e.p.Int(0), "position", w, "an object's message set starts empty", clip(msgs.String(), 100))
	}
	r.check(nfound > 0, "partition", w, "some objects have a partition")
	// watermarks
	hs := f.storesTo(f.hwm)
	for ev, el := range hs {
		v := unconvW(ev.Args[1], 64)
		ok := false
		if v.op == "len" && v.args[0].op == "fld" {
			aux, base := valueOwner(v.args[0])
			if aux == f.sm.records && base != nil {
				x, a := famElem(base, m.FT)
				ok = a == f.kp && sameEntry(x, el)
			}
		}
		r.check(ok, "watermark", e.where(ev), "the watermark kept is the number of records of the object's own partition", clip(v.String(), 200))
	}
	r.check(len(hs) > 0, "watermark", w, "the watermark is read while waiting")
	f.visits(r, hs)
	// messages
	apps := f.appends(r, "records")
	r.check(len(apps) > 0, "records", w, "messages are added on some path")
	cursors := map[string]bool{}
	totals := map[string]bool{}
	for _, x := range apps {
		wh := e.where(x.ev)
		ts, key, val := x.msg(5), x.msg(6), x.msg(7)
		rec := func(t *Term, name string) *Term {
			if t.op == "fld" && fieldName(t) == name && t.args[0].op == "deref" && auxStruct(t.aux) == "kafkaRecord" {
				return t.args[0].args[0]
			}
			return nil
		}
		R := rec(ts, "Timestamp")
		ok := R != nil && rec(key, "Key") == R && rec(val, "Value") == R
		if !r.check(ok, "records", wh, "a message carries the timestamp, key and value of one record", "timestamp: "+clip(ts.String(), 120), "key: "+clip(key.String(), 120), "value: "+clip(val.String(), 120)) {
			continue
		}
		own := false
		if R.op == "elem" {
			aux, base := valueOwner(R.args[0])
			if aux == f.sm.records && R.args[0].op == "fld" && base != nil {
				y, a := famElem(base, m.FT)
				own = a == f.kp && sameEntry(y, x.el)
			}
		}
		if !r.check(own, "records", wh, "the record is one of the partition of the object it is added to", R.String()) {
			continue
		}
		ci, co := f.cursorOf(x.el, R.args[1]), f.cursorOf(x.el, x.msg(0))
		r.check(ci != "", "records", wh, "the record is the one at the object's position", R.args[1].String())
		r.check(co != "", "records", wh, "the message is labelled with the object's position", x.msg(0).String())
		if ci != "" {
			cursors[ci] = true
		}
		if co != "" {
			cursors[co] = true
		}
	}
	// positions
	for c := range cursors {
		for _, it := range m.Items {
			in := unconvW(f.initial(it, c), 64)
			kp := it.field(m, f.kp)
			if kp.isNil() || kp.op == "zero" {
				continue
			}
			want := e.fldOf(it.A.Elem, it.A.ElemT, 1)
			r.check(in == want, "position", w, "a position starts at the offset asked for", "starts at: "+in.String())
		}
		for ev := range f.storesTo(c) {
			a, v := ev.Args[0], ev.Args[1]
			r.check(len(v.args) > 0 && v.op == "lin" && v.lin.c == 1 && len(v.args) == 1 && v.lin.coef[v.args[0]] == 1 && ownValue(a, v.args[0]), "position", e.where(ev), "a position moves on by one", v.String())
		}
	}
	// sizes kept
	for ev := range f.sites {
		el, via, fl := e.entryOfAddr(ev.Args[0], m.FT)
		if el == nil || via != f.set || fl == f.msgs || cursors[via+">"+fl] {
			continue
		}
		totals[via+">"+fl] = true
	}
	// in step
	step := func(evs []*Event, where string) {
		nm := map[*Term]int{}
		nc := map[string]map[*Term]int{}
		entries := map[*Term]*Term{}
		canon := func(el *Term) *Term {
			for k := range entries {
				if sameEntry(k, el) {
					return k
				}
			}
			entries[el] = el
			return el
		}
		for _, ev := range evs {
			if ev.Kind != "store" {
				continue
			}
			el, via, fl := e.entryOfAddr(ev.Args[0], m.FT)
			if el == nil {
				continue
			}
			el = canon(el)
			k := fl
			if via != "" {
				k = via + ">" + fl
			}
			if via == f.set && fl == f.msgs {
				nm[el]++
				continue
			}
			if cursors[k] || totals[k] {
				if nc[k] == nil {
					nc[k] = map[*Term]int{}
				}
				nc[k][el]++
			}
		}
		for el := range entries {
			if nm[el] > 1 {
				r.fail("position", where, "undecided: several messages are added in one step")
			}
			for k := range cursors {
				r.check(nc[k][el] == nm[el], "position", where, "position and messages move on together", fmt.Sprintf("%s moves %d times where %d messages are added", k, nc[k][el], nm[el]))
			}
		}
	}
	for _, l := range e.loops {
		for _, it := range l.Iters {
			step(it.Evs, w)
		}
	}
	for _, pe := range e.ends {
		if pe.Kind == "return" && pe.Label == "" {
			step(pe.Evs, w)
		}
	}
	// limits
	st := m.FT.Underlying().(*types.Struct)
	var limits []string
	for i := 0; i < st.NumFields(); i++ {
		aux := fieldAux(m.FT, i)
		if !isInteger(st.Field(i).Type()) || m.stored(aux) != nil {
			continue
		}
		good := true
		for _, it := range m.Items {
			if unconv(it.field(m, aux)) != e.fldOf(it.A.Elem, it.A.ElemT, 2) {
				good = false
			}
		}
		if good {
			limits = append(limits, aux)
		}
	}
	tot := f.total(r, "limit", apps)
	for _, x := range apps {
		wh := e.where(x.ev)
		if tot == nil {
			r.fail("limit", wh, "undecided: the size of a set is not kept in it")
			continue
		}
		nt := tot(x)
		if nt == nil {
			r.fail("limit", wh, "undecided: the size of the set with the message")
			continue
		}
		ok := false
		for _, a := range limits {
			i := auxIndex(a)
			lim := e.fldOf(e.load(x.s, x.el, m.FT), m.FT, i)
			if pointee(x.el.typ) == nil {
				lim = e.fldOf(x.el, m.FT, i)
			}
			if e.entails(x.s, e.p.Sub(lim, nt)) {
				ok = true
			}
		}
		r.check(ok, "limit", wh, "the set with the message is within the byte limit of its own entry", "size: "+clip(nt.String(), 200))
	}
}

func fieldName(t *Term) string {
	if st, ok := t.obj.(types.Type); ok {
		if s := structOf(st); s != nil && auxIndex(t.aux) < s.NumFields() {
			return s.Field(auxIndex(t.aux)).Name()
		}
	}
	return ""
}

// inLoopNew: is this object made anew in each iteration that sets up an entry?
func inLoopNew(e *Engine, t *Term, m *FetchModel) bool {
	if t.site == nil || len(m.loops) == 0 {
		return false
	}
	for _, it := range m.Items {
		for _, l := range m.loops {
			if l.Key == it.A.It.H && inLoop(e, t.site, l) {
				return true
			}
		}
	}
	return false
}

// visits: before an answer is given, every object that has a partition has had
// its watermark read.
func (f *fetchRun) visits(r *Report, hs map[*Event]*Term) {
	e, m := f.e, f.m
	visiting := map[*LoopInfo]*Term{}
	for _, l := range e.loops {
		for _, it := range l.Iters {
			for _, ev := range it.Evs {
				el, ok := hs[ev]
				if !ok || ev.Site == nil || !inLoop(e, ev.Site, l) {
					continue
				}
				if _, cur, ok := e.counter(l); ok && el.args[0] == m.X && el.args[1] == cur {
					visiting[l] = cur
				}
			}
		}
	}
	for l, cur := range visiting {
		for _, it := range l.Iters {
			read := false
			for _, ev := range it.Evs {
				if el, ok := hs[ev]; ok && el.args[1] == cur {
					read = true
				}
			}
			if read {
				continue
			}
			el := e.elemOf(it.State, m.X, cur, elemT(m.X.typ))
			kp := e.fldOf(e.load(it.State, el, m.FT), m.FT, auxIndex(f.kp))
			if pointee(el.typ) == nil {
				kp = e.fldOf(el, m.FT, auxIndex(f.kp))
			}
			k, v := e.eval(it.State, e.p.Eq(kp, e.p.Nil()))
			r.check(k && v, "watermark", f.w, "an object passed over has no partition", pathOf(e, it.Evs)...)
		}
	}
	for _, pe := range e.ends {
		if pe.Kind != "return" || pe.Label != "" || len(pe.Res) != 3 || !pe.Res[2].isNil() {
			continue
		}
		ok, why := false, "no loop over the objects reads the watermarks"
		for l, cur := range visiting {
			good, w := e.exhausted(pe.S, pe.Evs, l, m.X, cur)
			if good && f.onPath(pe.Evs, l) || e.must(pe.Evs, PathPred{it: func(it *Iter) bool {
				g, _ := e.exhausted(it.State, it.State.ev, l, m.X, cur)
				return g && f.onPath(it.Evs, l)
			}}) {
				ok = true
			} else {
				why = w
			}
		}
		r.check(ok, "watermark", f.w, "every partition is looked at before the answer", why)
	}
}

func (f *fetchRun) onPath(evs []*Event, l *LoopInfo) bool {
	for _, ev := range evs {
		if ev.Kind == "loop" && ev.Name == l.Key {
			return true
		}
	}
	return false
}

// total: the size of a set with a message, as kept in the set. It starts at 0
// and grows, with each message and only then, by what the message takes.
func (f *fetchRun) total(r *Report, rule string, apps []*FetchAppend) func(*FetchAppend) *Term {
	e, m := f.e, f.m
	var name string
	vals := map[*Event]*Term{}
	for ev := range f.sites {
		el, via, fl := e.entryOfAddr(ev.Args[0], m.FT)
		if el == nil || via != f.set || fl == f.msgs {
			continue
		}
		v := ev.Args[1]
		// more than a step of one
		if v.op == "lin" && len(v.args) == 1 && v.lin.c == 1 {
			continue
		}
		if name != "" && name != fl {
			r.fail(rule, e.where(ev), "undecided: several sizes are kept in a set")
			return nil
		}
		name = fl
		vals[ev] = v
	}
	if name == "" {
		return nil
	}
	f.size = name
	for _, it := range m.Items {
		in := f.initial(it, f.set+">"+name)
		kp := it.field(m, f.kp)
		if kp.isNil() || kp.op == "zero" {
			continue
		}
		r.check(in == e.p.Int(0), rule, f.w, "the size of a set starts at 0", in.String())
	}
	steps := func(evs []*Event) {
		nm, nt := 0, 0
		for _, ev := range evs {
			if ev.Kind != "store" {
				continue
			}
			if el, via, fl := e.entryOfAddr(ev.Args[0], m.FT); el != nil && via == f.set {
				if fl == f.msgs {
					nm++
				}
				if fl == name {
					nt++
				}
			}
		}
		if nm > 0 || nt > 0 {
			r.check(nm == nt, rule, f.w, "the size of a set changes exactly when a message is added")
		}
	}
	for _, l := range e.loops {
		for _, it := range l.Iters {
			steps(it.Evs)
		}
	}
	for _, pe := range e.ends {
		steps(pe.Evs)
	}
	return func(x *FetchAppend) *Term {
		// the size after this message: stored in the same step
		own := e.fieldAddr(x.set, pointee(x.set.typ), auxIndex(name))
		for _, s := range []*State{x.s} {
			for i := len(s.ev) - 1; i >= 0; i-- {
				ev := s.ev[i]
				if ev.Kind == "store" && ev.Args[0] == own {
					return ev.Args[1]
				}
				if ev.Kind == "loop" {
					break
				}
			}
		}
		// or stored after it
		var got *Term
		for ev, v := range vals {
			if ev.Args[0] == own {
				if got != nil && got != v {
					return nil
				}
				got = v
			}
		}
		return got
	}
}

// ---- C21 -------------------------------------------------------------------------

func checkC21(r *Report) {
	r.rule("message", "the size field of every message added to a set is what its fields after it take, for any lengths of key and value")
	r.rule("set", "the size kept in a set starts at 0 and grows, with every message and only then, by all the message takes")
	r.rule("checksum", "the checksum of every message added is the CRC-32 (IEEE) of its encoding from after the checksum on, encoded when every other field had its final value")
	r.rule("format", "every message added is marked as format version 1, with no attributes (uncompressed, no timestamp type of its own)")
	r.rule("layout", "a message's fields take the widths Kafka defines, and a set is written as its size followed by its messages in order")
	f := r.fetchRun("set")
	if f == nil || !f.ok {
		return
	}
	e, w := f.e, f.w
	apps := f.appends(r, "message")
	tot := f.total(r, "set", apps)
	if tot == nil {
		r.fail("set", w, "undecided: the size of a set is not kept in it")
	}
	MT := elemT(structOf(f.m.FT.Underlying().(*types.Struct).Field(auxIndex(f.set)).Type()).Field(auxIndex(f.msgs)).Type())
	if p := pointee(MT); p != nil {
		MT = p
	}
	r.check(shapeOf(MT, 0) == messageSpec, "layout", "package", "a message is laid out as Kafka defines", shapeOf(MT, 0))
	for _, x := range apps {
		wh := e.where(x.ev)
		k, v := e.lenOf(x.msg(6)), e.lenOf(x.msg(7))
		// crc 4, magic 1, attributes 1, timestamp 8, key length 4, value length 4
		want := e.p.Add(e.p.Add(k, v), e.p.Int(22))
		size := x.msg(1)
		r.check(unconv(size) == want, "message", wh, "the size of a message counts what follows it", "size: "+size.String())
		if tot != nil {
			nt := tot(x)
			ok := false
			if nt != nil {
				own := e.fldOf(e.p.mk("deref", "", nil, nil, x.set), pointee(x.set.typ), auxIndex(f.size))
				_ = own
				for _, sz := range []*Term{size, unconv(size), e.p.mk("conv", size.aux, size.typ, size.obj, size)} {
					d := e.p.Sub(e.p.Sub(nt, sz), e.p.Int(12))
					if ownValue(e.fieldAddr(x.set, pointee(x.set.typ), auxIndex(f.size)), d) {
						ok = true
					}
				}
			}
			r.check(ok, "set", wh, "the size of the set grows by the message's size and the 12 bytes before it", "size: "+clip(str(nt), 200))
		}
		magic, attr := r.constField(e, unconvW(x.msg(3), 8)), r.constField(e, unconvW(x.msg(4), 8))
		r.check(magic == e.p.Int(1), "format", wh, "a message is of format version 1", magic.String())
		r.check(attr == e.p.Int(0), "format", wh, "a message has no attributes", attr.String())
		f.crc(r, x)
	}
	r.check(len(apps) > 0, "message", w, "messages are added on some path")
	r.need("checksum", 1)
	f.layout(r)
}

// crc: the message's checksum.
func (f *fetchRun) crc(r *Report, x *FetchAppend) {
	e := f.e
	wh := e.where(x.ev)
	c := unconv(x.msg(2))
	var data *Term
	switch {
	case c.op == "call" && c.aux == "hash/crc32.Update" && len(c.args) == 3:
		r.check(c.args[0] == e.p.Int(0), "checksum", wh, "the checksum starts from 0", c.args[0].String())
		r.check(r.tableIEEE(e, c.args[1]), "checksum", wh, "the checksum uses the IEEE table", c.args[1].String())
		data = c.args[2]
	case c.op == "call" && c.aux == "hash/crc32.Checksum" && len(c.args) == 2:
		r.check(r.tableIEEE(e, c.args[1]), "checksum", wh, "the checksum uses the IEEE table", c.args[1].String())
		data = c.args[0]
	case c.op == "call" && c.aux == "hash/crc32.ChecksumIEEE" && len(c.args) == 1:
		data = c.args[0]
	}
	if data == nil {
		r.fail("checksum", wh, "the checksum is not a CRC-32", clip(c.String(), 200))
		return
	}
	// all of the encoding but the first 16 bytes: offset 8, size 4, checksum 4
	full := data
	if data.op == "slice" {
		full = data.args[0]
	}
	okRange := data.op == "slice" && len(data.args) >= 3 && data.args[1] == e.p.Int(16) && data.args[2] == e.lenOf(full)
	r.check(okRange, "checksum", wh, "the checksum covers what follows the checksum, to the end", clip(data.String(), 200))
	enc := full
	if enc.op == "bytesval" {
		enc = enc.args[0]
	}
	if enc.op == "cat" && len(enc.args) == 1 {
		enc = enc.args[0]
	}
	if enc.op != "enc" {
		r.fail("checksum", wh, "undecided: the checksum is not taken of one encoded message", clip(enc.String(), 200))
		return
	}
	v := enc.args[0]
	var VT types.Type
	if v.op == "iface" {
		VT, _ = v.obj.(types.Type)
		v = v.args[0]
	}
	if v.op == "at" {
		v = v.args[0]
		VT = pointee(VT)
	}
	if v.op != "struct" || VT == nil || shapeOf(VT, 0) != messageSpec {
		r.fail("checksum", wh, "undecided: what the checksum is taken of", clip(v.String(), 200))
		return
	}
	for i := 3; i < 8; i++ {
		r.check(v.args[i] == x.msg(i), "checksum", wh, "the checksum is taken of the message's final contents", fmt.Sprintf("field %d is %s, was %s", i, clip(x.msg(i).String(), 100), clip(v.args[i].String(), 100)))
	}
}

// tableIEEE: is t the table of the IEEE polynomial?
func (r *Report) tableIEEE(e *Engine, t *Term) bool {
	if t.op == "call" && t.aux == "hash/crc32.MakeTable" {
		return len(t.args) == 1 && t.args[0].isInt() && uint32(t.args[0].intVal()) == 0xedb88320
	}
	if t.op != "gval" {
		return false
	}
	if strings.HasSuffix(t.aux, "crc32.IEEETable") {
		return true
	}
	n, ok := 0, true
	for _, fn := range r.pr.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, isG := (*op).(*ssa.Global)
					if !isG || e.globalTerm(g).aux != t.aux {
						continue
					}
					switch x := in.(type) {
					case *ssa.Store:
						if x.Addr != g {
							ok = false
							continue
						}
						n++
						v := x.Val
						switch y := v.(type) {
						case *ssa.Call:
							c, isC := y.Call.Value.(*ssa.Function)
							if !isC || c.String() != "hash/crc32.MakeTable" {
								ok = false
								continue
							}
							k, isK := y.Call.Args[0].(*ssa.Const)
							if !isK || uint32(k.Uint64()) != 0xedb88320 {
								ok = false
							}
						case *ssa.UnOp:
							if g2, is := y.X.(*ssa.Global); !is || g2.String() != "hash/crc32.IEEETable" {
								ok = false
							}
						default:
							ok = false
						}
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						ok = false
					}
				}
			}
		}
	}
	return ok && n == 1
}

// layout: what the encoder writes for a message and for a set.
func (f *fetchRun) layout(r *Report) {
	e := f.e
	_, enc := r.codecUses([]*Engine{e})
	if len(enc) == 0 {
		r.fail("layout", f.w, "undecided: the encoder")
		return
	}
	n := 0
	for _, u := range enc {
		T := u.T
		if p := pointee(T); p != nil {
			T = p
		}
		if shapeOf(T, 0) == messageSpec {
			n++
			r.checkCodec(u, false, "layout")
		}
	}
	r.check(n > 0, "layout", f.w, "a message is encoded for its checksum")
	seen := map[string]bool{}
	for _, pe := range e.ends {
		if pe.Kind != "return" || pe.Label != "" || len(pe.Res) != 3 || !pe.Res[2].isNil() {
			continue
		}
		T := ifaceType(pe.Res[0])
		if T == nil || seen[typeKey(T)] {
			continue
		}
		seen[typeKey(T)] = true
		r.checkCodec(&codecUse{Fn: enc[0].Fn, T: T, Args: enc[0].Args, Where: f.w}, false, "layout")
	}
	r.check(len(seen) > 0, "layout", f.w, "a response is returned")
	for aux := range r.setSize {
		r.check(aux == f.size, "layout", f.w, "what is written as the size of a set is the size that is kept in it", "written: "+aux, "kept: "+f.size)
	}
	r.check(len(r.setSize) == 1, "layout", f.w, "the size of a set is written before its messages")
}
