package main

// C25: searching offsets by time. C26: group membership. C27: creating topics.

import "go/types"

// ---- C25 -------------------------------------------------------------------------

// scan is a loop over a partition's records that compares their timestamps
// with the one asked for.
type scan struct {
	e   *Engine
	l   *LoopInfo
	rec *Term               // the records
	idx func(s *Term) *Term // index examined, given the counter
	sym *Term               // the counter
	T   *Term               // timestamp asked for
}

// stamp: the timestamp of the record at index i, as state s sees it.
func (e *Engine) stamp(s *State, rec, i *Term) *Term {
	el := e.elemAt(s, rec, i, elemT(rec.typ))
	T := el.typ
	if pt := pointee(T); pt != nil {
		n := fieldIndex(pt, "Timestamp")
		if n < 0 {
			return nil
		}
		return e.load(s, e.fieldAddr(el, pt, n), pt.Underlying().(*types.Struct).Field(n).Type())
	}
	if T == nil || fieldIndex(T, "Timestamp") < 0 {
		return nil
	}
	return e.structField(el, T, "Timestamp")
}

// side: is the record at i known to be before the time (-1), or at or after it (1)?
func (sc *scan) side(s *State, i *Term) int {
	ts := sc.e.stamp(s, sc.rec, i)
	if ts == nil {
		return 0
	}
	d := sc.e.p.Sub(ts, sc.T)
	if sc.e.entails(s, d) {
		return 1
	}
	if sc.e.entails(s, sc.e.p.Sub(sc.e.p.Scale(d, -1), sc.e.p.Int(1))) {
		return -1
	}
	return 0
}

func (e *Engine) same(s *State, a, b *Term) bool {
	if a == b {
		return true
	}
	d := e.p.Sub(a, b)
	return e.entails(s, d) && e.entails(s, e.p.Scale(d, -1))
}

func checkC25(r *Report) {
	r.rule("offset", "where the timestamp asked for is no sentinel and the partition was found, the offset is where the longest run of records at or after that time, up to the end, begins: all records from there on have been found at or after it, and there is none before there or the one before is earlier")
	r.rule("time", "the timestamp given is that record's own, or a constant if there is none")
	r.rule("error", "no error is given")
	as := r.apiSetup()
	m := r.storeModel()
	if as == nil {
		return
	}
	sl := apiSlot{2, 1}
	sp := itemSpecs[sl]
	e, fn := r.handlerRun(as, sl, nil)
	if e == nil {
		return
	}
	w := shortFn(fn)
	n := 0
	r.answers(e, fn, sp, "offset", func(*Answer) {}, func(a *Answer) {
		x := r.exists(a, m)
		if !x.present {
			r.check(x.absent, "offset", w, "an entry is about a partition known to be there or not", x.why)
			return
		}
		s := a.S
		ts := e.fldOf(a.Elem, a.ElemT, 1)
		for _, k := range []int64{-1, -2} {
			if kn, v := e.eval(s, e.p.Eq(ts, e.p.Int(k))); kn && v {
				return
			}
		}
		n++
		errc := r.constField(e, unconvW(a.Out(sp.outErr), 16))
		r.check(errc == e.p.Int(0), "error", w, "no error is given for a search by time", errc.String())
		off, stamp := unconvW(a.Out(3), 64), a.Out(2)
		sc, why := e.findScan(m, x, s, ts)
		if sc == nil {
			rec := e.noRecords(m, x, s)
			if rec != nil {
				r.check(e.same(s, off, e.p.Int(0)), "offset", w, "the offset is 0 where there are no records", off.String())
				r.check(stamp.isInt(), "time", w, "the time given where there is no record is a constant", stamp.String())
				return
			}
			r.fail("offset", w, "undecided: "+why, append([]string{"offset: " + off.String()}, pathOf(e, s.ev)...)...)
			return
		}
		sc.judge(r, w, s, off, stamp)
	})
	r.check(n > 0, "offset", w, "a search by time is answered on some path")
	r.need("offset", 3)
	r.need("time", 1)
}

// noRecords: the record list of the partition found, if it is known to be empty.
func (e *Engine) noRecords(m *storeModel, x *Existence, s *State) *Term {
	for _, ev := range s.ev {
		if ev.Kind != "load" || len(ev.Args) < 2 {
			continue
		}
		aux, base := valueOwner(ev.Args[1])
		for _, p := range x.parts {
			if aux == m.records && base == p && e.entails(s, e.p.Scale(e.lenOf(ev.Args[1]), -1)) {
				return ev.Args[1]
			}
		}
	}
	return nil
}

// findScan: the loop on this path that walks the records of the partition found.
func (e *Engine) findScan(m *storeModel, x *Existence, s *State, T *Term) (*scan, string) {
	why := "no loop over the partition's records on this path"
	var found *scan
	for _, ev := range s.ev {
		if ev.Kind != "loopend" {
			continue
		}
		l := e.loops[ev.Name]
		if l == nil {
			continue
		}
		for sym, v := range l.Vars {
			if v.Phi == nil || sym.typ == nil || !isInteger(sym.typ) || len(l.Inits) != 1 {
				continue
			}
			in := l.Inits[0][sym]
			if in == nil || len(l.Iters) == 0 {
				continue
			}
			step := int64(0)
			for _, it := range l.Iters {
				d := e.p.Sub(it.Next[sym], sym)
				if !d.isInt() || d.intVal() != 1 && d.intVal() != -1 || step != 0 && d.intVal() != step {
					step = 0
					break
				}
				step = d.intVal()
			}
			if step == 0 {
				continue
			}
			for _, p := range x.parts {
				rec := e.recordsSeen(m, p, s, l)
				if rec == nil {
					continue
				}
				// where the walk starts, and so which record is examined
				first := e.p.Int(0)
				if step < 0 {
					first = e.p.Sub(e.lenOf(rec), e.p.Int(1))
				}
				k := e.p.Sub(first, in)
				if !k.isInt() {
					why = "the loop does not start at an end of the records"
					continue
				}
				found = &scan{e: e, l: l, rec: rec, sym: sym, T: T, idx: func(c *Term) *Term { return e.p.Add(c, k) }}
				// prefer the counter that the comparisons are about
				for _, it := range l.Iters {
					if found.side(it.State, found.idx(sym)) != 0 {
						return found, ""
					}
				}
			}
		}
	}
	if found == nil {
		return nil, why
	}
	return found, ""
}

// recordsSeen: the record list of partition p that a loop looks at.
func (e *Engine) recordsSeen(m *storeModel, p *Term, s *State, l *LoopInfo) *Term {
	look := func(evs []*Event) *Term {
		for _, ev := range evs {
			if ev.Kind == "load" && len(ev.Args) > 1 {
				if aux, base := valueOwner(ev.Args[1]); aux == m.records && base == p && ev.Args[1].op == "fld" {
					return ev.Args[1]
				}
			}
		}
		return nil
	}
	for _, it := range l.Iters {
		if t := look(it.Evs); t != nil {
			return t
		}
	}
	return look(s.ev)
}

func (sc *scan) judge(r *Report, w string, s *State, off, stamp *Term) {
	e := sc.e
	step := e.p.Sub(sc.l.Iters[0].Next[sc.sym], sc.sym).intVal()
	i := sc.idx(sc.sym)
	n := e.lenOf(sc.rec)
	if step < 0 {
		// every record after i has been found at or after the time
		for _, it := range sc.l.Iters {
			r.check(sc.side(it.State, i) == 1, "offset", w, "the search goes back past a record only if that is at or after the time", "examined: "+i.String())
		}
		if e.entails(s, e.p.Sub(e.p.Int(-1), i)) {
			r.check(e.same(s, off, e.p.Int(0)), "offset", w, "the offset is 0 where the search went past the first record", off.String())
		} else {
			r.check(sc.side(s, i) == -1, "offset", w, "the search ends at a record only if that is before the time", "examined: "+i.String())
			r.check(e.same(s, off, e.p.Add(i, e.p.Int(1))), "offset", w, "the offset is that of the record after it", off.String())
		}
		if v := sc.l.Vars[stamp]; v != nil {
			// the time of the last record gone past
			in := sc.l.Inits[0][stamp]
			r.check(in != nil && in.isInt(), "time", w, "the time given where there is no record is a constant", str(in))
			for _, it := range sc.l.Iters {
				ts := e.stamp(it.State, sc.rec, i)
				r.check(ts != nil && it.Next[stamp] == ts, "time", w, "the time kept is that of the record gone past", str(it.Next[stamp]))
			}
			return
		}
	} else {
		// off is where the run that reaches up to i begins
		var keep *Term
		if sc.l.Vars[off] != nil {
			keep = off
		}
		if keep == nil {
			r.fail("offset", w, "undecided: the offset is not kept by the search", off.String())
			return
		}
		in := sc.l.Inits[0][keep]
		r.check(in == e.p.Int(0), "offset", w, "the search starts with the offset of the first record", str(in))
		for _, it := range sc.l.Iters {
			switch sc.side(it.State, i) {
			case 1:
				r.check(it.Next[keep] == keep, "offset", w, "a record at or after the time leaves the offset", str(it.Next[keep]))
			case -1:
				r.check(e.same(it.State, it.Next[keep], e.p.Add(i, e.p.Int(1))), "offset", w, "a record before the time moves the offset to the record after it", str(it.Next[keep]))
			default:
				r.fail("offset", w, "undecided: a round does not compare its record with the time")
			}
		}
		r.check(e.entails(s, e.p.Sub(i, n)), "offset", w, "the search ends after the last record", i.String())
		if v := sc.l.Vars[stamp]; v != nil {
			in := sc.l.Inits[0][stamp]
			r.check(in != nil && in.isInt(), "time", w, "the time given where there is no record is a constant", str(in))
			for _, it := range sc.l.Iters {
				nx := it.Next[stamp]
				if sc.side(it.State, i) == -1 {
					r.check(nx != nil && nx.isInt(), "time", w, "the time given where there is no record is a constant", str(nx))
					continue
				}
				kn, v := e.eval(it.State, e.p.Eq(keep, i))
				ts := e.stamp(it.State, sc.rec, i)
				ok := kn && v && ts != nil && nx == ts || kn && !v && nx == stamp
				r.check(ok, "time", w, "the time kept is that of the record the run begins with", str(nx))
			}
			return
		}
	}
	if stamp.isInt() {
		r.check(e.entails(s, e.p.Sub(off, n)) || step < 0 && e.entails(s, e.p.Scale(n, -1)), "time", w, "a constant time is given only where there is no such record", stamp.String())
		return
	}
	ts := e.stamp(s, sc.rec, off)
	r.check(ts != nil && stamp == ts, "time", w, "the time given is that of the record at the offset given", stamp.String())
}

// ---- C26 -------------------------------------------------------------------------

func checkC26(r *Report) {
	r.rule("accepted", "every answer to a find-coordinator, join-group, sync-group, heartbeat or leave-group request has error 0")
	r.rule("follower", "the member id given to one who joins is a constant, not empty, and is not the leader's id, which is a constant too")
	r.rule("brought", "a sync-group request is answered only where it was found to bring no assignments: those of a client that believes it leads are never silently dropped")
	r.rule("protocol", "the group protocol and generation given are constants")
	as := r.apiSetup()
	if as == nil {
		return
	}
	for _, sl := range []apiSlot{{10, 0}, {11, 1}, {12, 0}, {13, 0}, {14, 0}} {
		e, fn := r.handlerRun(as, sl, nil)
		if e == nil {
			continue
		}
		w := shortFn(fn)
		n := 0
		for _, pe := range e.ends {
			if pe.Kind != "return" || pe.Label != "" || len(pe.Res) != 3 || !pe.Res[2].isNil() {
				continue
			}
			v, T := e.respStruct(pe.S, pe.Res[0])
			if v == nil {
				r.fail("accepted", w, "undecided: response", str(pe.Res[0]))
				continue
			}
			n++
			f := fieldIndex(T, "ErrorCode")
			if f < 0 {
				f = 0
			}
			c := e.fldOf(v, T, f)
			r.check(c == e.p.Int(0), "accepted", w, "the answer has no error", c.String())
			if sl.key == 14 {
				req, RT := pe.decoded()
				st := structOf(RT)
				ok := false
				if req != nil && st != nil {
					for i := 0; i < st.NumFields(); i++ {
						if elemT(st.Field(i).Type()) == nil {
							continue
						}
						x := e.fldOf(req, RT, i)
						known, empty := e.eval(pe.S, e.p.Eq(e.lenOf(x), e.p.Int(0)))
						ok = known && empty || e.nilness(pe.S, x) > 0 || e.entails(pe.S, e.p.Sub(e.p.Int(0), e.lenOf(x)))
					}
				}
				r.checkL(ok, "brought", w, "only a request that brings no assignments is answered", func() []string { return pathOf(e, pe.Evs) })
			}
			if sl.key != 11 {
				continue
			}
			st := structOf(T)
			if st == nil || st.NumFields() != 6 {
				r.fail("follower", w, "anchor lost: the fields of a join-group response")
				continue
			}
			gen, proto, lead, me := e.fldOf(v, T, 1), e.fldOf(v, T, 2), e.fldOf(v, T, 3), e.fldOf(v, T, 4)
			r.check(gen.isInt() && gen.intVal() >= 0, "protocol", w, "the generation is a constant, not negative", gen.String())
			r.check(proto.op == "str" && proto.aux != "", "protocol", w, "the group protocol is a constant", proto.String())
			r.check(me.op == "str" && me.aux != "", "follower", w, "the member id is a constant", me.String())
			r.check(lead.op == "str", "follower", w, "the leader's id is a constant", lead.String())
			r.check(me.op == "str" && lead.op == "str" && me.aux != lead.aux, "follower", w, "who joins is not made leader", "member: "+me.String(), "leader: "+lead.String())
		}
		r.check(n > 0, "accepted", w, "such a request is answered")
	}
	r.need("accepted", 10)
	r.need("follower", 3)
	r.need("brought", 1)
}

// ---- C27 -------------------------------------------------------------------------

func checkC27(r *Report) {
	pr := r.pr
	m := r.storeModel()
	r.rule("each", "whenever creating partition topics returns, every topic of the list given was visited, and each visit found or entered in this mock's store a topic under that name and, in it, a partition under the number given")
	r.rule("only", "topics and partitions are entered only under a name and number given to the call (created or posted to), and only by creating and posting")
	fn := pr.method("KafkaMock", "CreatePartitionTopics")
	if fn == nil {
		r.fail("each", "CreatePartitionTopics", "anchor lost: no such method")
		return
	}
	named := map[string]bool{}
	for _, f := range pr.postRoots() {
		if f != nil {
			named[shortFn(f)] = true
		}
	}
	maker := shortFn(fn)
	args := func(e *Engine) (names, num *Term) {
		pt := e.paramTerms(e.cfg.Fn, "")
		if len(pt) < 3 {
			return nil, nil
		}
		return pt[1], pt[2]
	}
	mine := func(e *Engine, root *Term) bool {
		o, _ := valueOwner(root)
		return o == m.mockDS
	}
	// is key one of the names given?
	isName := func(e *Engine, k, names *Term) bool {
		if k == nil || names == nil {
			return false
		}
		if e.cfg.Fn != fn {
			return k == names
		}
		return k.op == "elem" && k.args[0] == names
	}
	type entry struct {
		e  *Engine
		s  *State
		ev *Event
	}
	var entries []entry
	engines := r.allRoots(func(e *Engine, s *State, ev *Event) {
		if ev.Kind != "mapset" {
			return
		}
		aux, base := valueOwner(ev.Args[0])
		if aux != m.topics && aux != m.partitions || base != nil && base.op == "new" && !s.shared[base] {
			return
		}
		w := e.where(ev)
		if e.cfg.Fn != fn && !named[shortFn(e.cfg.Fn)] {
			r.fail("only", w, "enters into "+aux+" from "+shortFn(e.cfg.Fn))
			return
		}
		entries = append(entries, entry{e, s.clone(), ev})
	})
	for _, en := range entries {
		e, ev := en.e, en.ev
		w := e.where(ev) + " from " + shortFn(e.cfg.Fn)
		names, num := args(e)
		aux, base := valueOwner(ev.Args[0])
		if aux == m.topics {
			o, _ := valueOwner(base)
			r.check(o == m.mockDS, "only", w, "a topic is entered in this mock's store", str(base))
			r.check(isName(e, ev.Args[1], names), "only", w, "a topic is entered under a name given", ev.Args[1].String())
			continue
		}
		r.check(isParamConv(ev.Args[1], num), "only", w, "a partition is entered under the number given", ev.Args[1].String())
		root, keys, ok := e.storePath(m, en.s.ev, base)
		r.check(ok && mine(e, root) && len(keys) == 1 && isName(e, keys[0], names), "only", w, "a partition is entered in a topic of the name given", str(base))
	}
	var e *Engine
	for _, x := range engines {
		if x.cfg.Fn == fn {
			e = x
		}
	}
	if e == nil {
		r.fail("each", maker, "anchor lost: not analysed")
		return
	}
	names, num := args(e)
	if names == nil || !isByteSliceOrList(names.typ) {
		r.fail("each", maker, "anchor lost: parameters")
		return
	}
	n := 0
	for _, pe := range e.ends {
		if pe.Label != "" {
			r.fail("each", maker, "undecided: creating goes on in another goroutine")
			continue
		}
		if pe.Kind != "return" {
			r.fail("each", maker, "creating may end in a "+pe.Kind, pathOf(e, pe.Evs)...)
			continue
		}
		if e.entails(pe.S, e.p.Scale(e.lenOf(names), -1)) {
			continue // nothing asked for
		}
		// the loop that visits the names
		done := false
		why := "no loop over the names given"
		for _, ev := range pe.Evs {
			if ev.Kind != "loopend" {
				continue
			}
			l := e.loops[ev.Name]
			if l == nil {
				continue
			}
			_, cur, ok := e.counter(l)
			if !ok {
				continue
			}
			if ex, y := e.exhausted(pe.S, pe.Evs, l, names, cur); !ex {
				why = y
				continue
			}
			good := len(l.Iters) > 0
			for _, it := range l.Iters {
				if it.State == nil {
					continue
				}
				if !r.there(e, m, it.State, it.Evs, func(k *Term) bool {
					return k.op == "elem" && k.args[0] == names && k.args[1] == cur
				}, func(k *Term) bool { return isParamConv(k, num) }, mine) {
					good = false
					why = "a round may leave its topic or partition out"
				}
			}
			if good {
				done = true
			}
		}
		n++
		r.check(done, "each", maker, "every topic named is there with the partition: "+why, pathOf(e, pe.Evs)...)
	}
	r.check(n > 0, "each", maker, "creating returns on some path")
	r.need("only", 6)
	r.need("each", 2)
}

func isByteSliceOrList(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// there: a partition of the topic is known to be in the store at the end of
// these events, either found there or entered.
func (r *Report) there(e *Engine, m *storeModel, s *State, evs []*Event, name, num func(*Term) bool, mine func(*Engine, *Term) bool) bool {
	for _, ev := range evs {
		var p *Term
		aux, _ := valueOwner(ev.Args0())
		switch {
		case aux != m.partitions:
			continue
		case ev.Kind == "mapset":
			p = ev.Args[2]
		case ev.Kind == "mapget" && e.found(s, ev.Args[2]) == 1:
			p = ev.Args[2]
		default:
			continue
		}
		root, keys, ok := e.storePath(m, evs, p)
		if ok && len(keys) == 2 && mine(e, root) && name(keys[0]) && num(keys[1]) {
			return true
		}
	}
	return false
}

// Args0: the first argument of an event, if it has one.
func (ev *Event) Args0() *Term {
	if len(ev.Args) == 0 {
		return nil
	}
	return ev.Args[0]
}
