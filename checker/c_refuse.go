package main

// What becomes of requests that are cut short or too long (C07), how much a
// declared length can cost (C08), and whether field values can crash the
// process (C23).

import (
	"fmt"
	"go/types"
	"strings"
)

// decRun: the decoder analysed for one type.
type decRun struct {
	u    *codecUse
	e    *Engine
	args []*Term
	w    *wire
}

// decRuns analyses the decoder for every type that is decoded anywhere.
func (r *Report) decRuns(engines []*Engine) []*decRun {
	dec, _ := r.codecUses(engines)
	var out []*decRun
	for _, u := range dec {
		cfg := decodeCfg(u)
		e := r.run(cfg)
		d := &decRun{u: u, e: e, args: cfg.ArgsOf(e)}
		d.w = &wire{r: r, e: e, seen: map[string]bool{}, bounds: map[*Term]bool{}}
		d.w.decodes(u.T, d.args)
		out = append(out, d)
	}
	return out
}

func (d *decRun) where() string { return "decoding a " + typeKey(d.u.T) }

func failedEnd(pe *PathEnd) bool {
	return pe.Kind == "return" && len(pe.Res) == 2 && pe.Res[0].isInt() && pe.Res[0].intVal() < 0
}

// total: how many bytes the stream has.
func (e *Engine) total(reader *Term) *Term { return e.lenOf(e.strm(reader)) }

// received: is t no more than what has been received? Loop variables are taken
// to have been before a round if they are at the loop's start, and shown to be
// after it.
func (w *wire) received(s *State, t, total *Term, d int) bool {
	e, p := w.e, w.e.p
	if e.entails(s, p.Sub(total, t)) {
		return true
	}
	if d > 4 {
		return false
	}
	for _, c := range t.syms {
		l := e.loopOf(c)
		if l == nil || c.typ == nil || !isInteger(c.typ) {
			continue
		}
		in := s.inits[l.Key]
		if in == nil || in.m[c] == nil {
			continue
		}
		ok := e.entails(s, p.Sub(total, in.m[c])) || w.received(s, in.m[c], total, d+1)
		for _, it := range w.rounds(s, l) {
			if ok && it.Next[c] != c {
				st := it.State.clone()
				ok = e.assume(st, p.Ge0(p.Sub(total, c)), true) && w.received(st, it.Next[c], total, d+1)
			}
		}
		if !ok {
			continue
		}
		st := s.clone()
		if !e.assume(st, p.Ge0(p.Sub(total, c)), true) || e.entails(st, p.Sub(total, t)) {
			return true
		}
	}
	return false
}

// ---- C07 -------------------------------------------------------------------------

func checkC07(r *Report) {
	r.rule("reach", "whenever decoding a type succeeds, all of the bytes up to the place it ends at have been received")
	r.rule("read", "decoding looks only at bytes that have been received")
	r.rule("value", "decoding succeeds only with values taken from the bytes that belong to them; otherwise it fails")
	r.rule("refuse", "where decoding a request failed, no handler is called, and the handler that was decoding it returns an error without having had any effect")
	r.rule("consumed", "a handler that succeeds has taken exactly the bytes it decoded, and no place of the stream is skipped or gone back to")
	r.rule("leftover", "a response is sent only where the path has found that the handler left no bytes of the request")
	r.assume = append(r.assume, "a reader over a byte slice gives its bytes in order, and peeking further than its end reports an error")
	as := r.apiSetup()
	if as == nil {
		return
	}
	engines := r.allRoots(nil)
	for _, d := range r.decRuns(engines) {
		e := d.e
		total := e.total(d.args[0])
		n := 0
		for _, pe := range e.ends {
			if pe.Kind != "return" || failedEnd(pe) || len(pe.Res) != 2 {
				continue
			}
			n++
			w := d.w
			r.checkL(w.received(pe.S, pe.Res[0], total, 0), "reach", d.where(), "what is decoded has been received", func() []string {
				return []string{"ends at: " + pe.Res[0].String(), "path: " + strings.Join(pathOf(e, pe.Evs), " ")}
			})
		}
		r.check(n > 0, "reach", d.where(), "something is decoded")
		bad := 0
		for _, o := range e.open {
			if strings.Contains(fmt.Sprint(o.Ev.Args), "strm") || mentionsOp(o.Ev.Args, "strm") {
				bad++
				r.fail("read", d.where(), "bytes are looked at that may not have been received: "+o.Ev.Name, e.where(o.Ev), clip(o.Ev.String(), 400))
			}
		}
		if bad == 0 {
			r.pass("read", d.where(), "every index and bound of received bytes is in range")
		}
		for _, b := range d.w.bad {
			r.check(false, "value", d.where(), "success only with the request's own values", clip(b, 600))
		}
		if len(d.w.bad) == 0 {
			r.pass("value", d.where(), "success only with the request's own values")
		}
	}
	r.refusals(as, engines)
	r.leftovers(engines)
	r.need("reach", 10)
	r.need("read", 10)
	r.need("refuse", 12)
	r.need("consumed", 8)
	r.need("leftover", 1)
}

func mentionsOp(ts []*Term, op string) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if t.op == op {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	for _, t := range ts {
		if rec(t) {
			return true
		}
	}
	return false
}

// outward: does the event change anything that outlives the request, or let
// somebody know of it?
func (r *Report) outward(ev *Event) bool {
	switch ev.Kind {
	case "store", "mapset", "mapdel", "mapclear", "copy", "permute", "bytestore":
		b := baseOf(ev.Args[0])
		for b != nil && b.op == "slice" && len(b.args) > 0 {
			b = baseOf(b.args[0])
		}
		return b == nil || b.op != "new" && b.op != "makeslice" && b.op != "makemap" && b.op != "cell" && b.op != "append"
	case "send", "close", "go":
		return true
	}
	if c, _ := r.connWrite(ev); c != nil {
		return true
	}
	return false
}

func (r *Report) refusals(as *apiSetup, engines []*Engine) {
	handlers := map[string]bool{}
	for _, f := range as.fns {
		handlers[shortFn(f)] = true
	}
	for _, e := range engines {
		if handlers[e.cfg.Name] {
			w := e.cfg.Name
			for _, pe := range e.ends {
				failed := -1
				for i, ev := range pe.Evs {
					if ev.Kind == "decode" && ev.Name == "fail" && failed < 0 {
						failed = i
					}
				}
				path := func() []string { return []string{"path: " + strings.Join(pathOf(e, pe.Evs), " ")} }
				if failed >= 0 {
					if pe.Kind == "return" && pe.Label == "" {
						r.checkL(len(pe.Res) == 3 && e.nilness(pe.S, pe.Res[2]) < 0, "refuse", w, "an error is returned when the request cannot be decoded", path)
					}
					for _, ev := range pe.Evs {
						r.checkL(!r.outward(ev), "refuse", w, "nothing is done when the request cannot be decoded", func() []string {
							return append([]string{e.where(ev) + " " + clip(ev.String(), 200)}, path()...)
						})
					}
					for _, it := range e.along(pe.Evs) {
						for _, ev := range it.Evs {
							r.checkL(!r.outward(ev), "refuse", w, "nothing is done when the request cannot be decoded", func() []string {
								return append([]string{e.where(ev) + " " + clip(ev.String(), 200)}, path()...)
							})
						}
					}
					continue
				}
				if pe.Kind != "return" || pe.Label != "" || len(pe.Res) != 3 || e.nilness(pe.S, pe.Res[2]) < 0 {
					continue
				}
				// how far the reader has gone
				pos := map[*Term]*Term{}
				end := map[*Term]*Term{}
				for _, ev := range pe.Evs {
					switch {
					case ev.Kind == "discard":
						rd := ev.Args[0]
						if pos[rd] == nil {
							pos[rd] = e.p.Int(0)
						}
						pos[rd] = e.p.Add(pos[rd], ev.Args[1])
					case ev.Kind == "decode" && ev.Name == "ok":
						rd := ev.Args[0]
						if pos[rd] == nil {
							pos[rd] = e.p.Int(0)
						}
						end[rd] = e.p.Add(pos[rd], ev.Res[0])
					}
				}
				any := false
				for rd, at := range end {
					any = true
					r.checkL(pos[rd] == at, "consumed", w, "the bytes taken are those decoded", func() []string {
						return append([]string{"taken: " + str(pos[rd]), "decoded: " + str(at)}, path()...)
					})
				}
				if !any && len(pos) > 0 {
					r.checkL(false, "consumed", w, "bytes are taken only when they were decoded", path)
				} else if !any {
					r.pass("consumed", w, "takes no bytes")
				}
			}
			for _, l := range e.loops {
				for _, it := range l.Iters {
					for _, ev := range it.Evs {
						if ev.Kind == "discard" || ev.Kind == "decode" {
							r.fail("consumed", w, "undecided: a request is decoded in a loop", e.where(ev))
						}
					}
				}
			}
			for _, o := range e.open {
				if strings.HasPrefix(o.Ev.Name, "stream: ") {
					r.fail("consumed", w, o.Ev.Name, e.where(o.Ev), clip(o.Ev.String(), 300))
				}
			}
			continue
		}
		sps := serveSpawns(r, e)
		if len(sps) == 0 {
			continue
		}
		for _, sg := range e.segs() {
			failed := false
			for _, ev := range sg.Evs {
				if ev.Kind == "decode" && ev.Name == "fail" {
					failed = true
				}
				if !failed {
					continue
				}
				path := func() []string { return []string{"path: " + strings.Join(pathOf(e, sg.Evs), " ")} }
				r.checkL(!r.handlerCall(ev), "refuse", e.whereSeg(sg, ev), "no handler is called when the request's header cannot be decoded", path)
				if c, _ := r.connWrite(ev); c != nil {
					r.checkL(false, "refuse", e.whereSeg(sg, ev), "nothing is sent when the request's header cannot be decoded", path)
				}
			}
		}
		for _, o := range e.open {
			if strings.HasPrefix(o.Ev.Name, "stream: ") {
				r.fail("consumed", shortFn(o.Ev.Fn), o.Ev.Name, e.where(o.Ev), clip(o.Ev.String(), 300))
			}
		}
	}
}

// leftovers: nothing is sent for a request that has more bytes than its fields.
func (r *Report) leftovers(engines []*Engine) {
	for _, e := range engines {
		if len(serveSpawns(r, e)) == 0 {
			continue
		}
		for _, sg := range e.segs() {
			var rd *Term
			after := -1
			for i, ev := range sg.Evs {
				if r.handlerCall(ev) {
					rd, after = readerOf(ev), i
				}
				c, _ := r.connWrite(ev)
				if c == nil || after < 0 || rd == nil {
					continue
				}
				left := e.p.Sub(e.total(rd), e.rpos(sg.S, rd))
				r.checkL(e.entails(sg.S, e.p.Scale(left, -1)), "leftover", e.whereSeg(sg, ev), "no byte of the request was left when it is answered", func() []string {
					return []string{"left: " + left.String(), "known: " + fmt.Sprint(sg.S.lins), "path: " + strings.Join(pathOf(e, sg.Evs), " ")}
				})
			}
		}
	}
}

// ---- C08 -------------------------------------------------------------------------

func checkC08(r *Report) {
	r.rule("alloc", "while a request is received and decoded, memory is allocated only for a constant number of elements, or for no more than the bytes received")
	r.rule("work", "each round of a loop that decodes takes at least one more received byte, or the loop's rounds are bounded by a constant or by received bytes")
	r.rule("extent", "bytes and text copied out of a request are of received bytes")
	as := r.apiSetup()
	if as == nil {
		return
	}
	engines := r.allRoots(nil)
	// the decoder
	for _, d := range r.decRuns(engines) {
		e := d.e
		total := e.total(d.args[0])
		for _, sg := range e.segs() {
			r.allocs(e, sg, d.where(), func(t *Term) bool { return d.w.received(sg.S, t, total, 0) || e.entails(sg.S, e.p.Sub(e.p.Int(1024), t)) })
		}
		r.pass("alloc", d.where(), "looked at")
		for _, k := range sortedKeys(e.loops) {
			l := e.loops[k]
			if len(l.Iters) == 0 {
				continue
			}
			r.checkL(d.takes(l, total) || d.few(l, total), "work", d.where(), "every round takes bytes that were received", func() []string {
				return []string{"loop in " + shortFn(l.Header.Parent()) + " " + l.Key}
			})
		}
		bad := false
		for _, pe := range e.ends {
			if pe.Kind == "return" && !failedEnd(pe) && len(pe.Res) == 2 && !d.w.received(pe.S, pe.Res[0], total, 0) {
				bad = true
			}
		}
		r.check(!bad, "extent", d.where(), "what is decoded has been received")
	}
	handlers := map[string]bool{}
	for _, f := range as.fns {
		handlers[shortFn(f)] = true
	}
	for _, e := range engines {
		// handlers, until the request is decoded
		if handlers[e.cfg.Name] {
			for _, pe := range e.ends {
				sg := &Seg{S: pe.S, End: pe}
				for _, ev := range pe.Evs {
					if ev.Kind == "decode" {
						break
					}
					sg.Evs = append(sg.Evs, ev)
				}
				r.allocs(e, sg, e.cfg.Name, func(t *Term) bool { return e.existing(sg.S, t) })
			}
			r.pass("alloc", e.cfg.Name, "looked at")
			continue
		}
		sps := serveSpawns(r, e)
		if len(sps) == 0 {
			continue
		}
		// receiving
		n := 0
		for _, sg := range e.segs() {
			if sg.Spawn == nil || sps[sg.Spawn.Ev] == nil {
				continue
			}
			n++
			// until the request is handled
			for i, ev := range sg.Evs {
				if r.handlerCall(ev) {
					cut := *sg
					cut.Evs = sg.Evs[:i]
					sg = &cut
					break
				}
			}
			r.allocs(e, sg, e.whereSeg(sg, nil), func(t *Term) bool { return e.byArrived(r, sg, t) })
		}
		if n > 0 {
			r.pass("alloc", e.cfg.Name, "receiving: looked at")
		}
	}
	r.need("alloc", 20)
	r.need("work", 4)
	r.need("extent", 10)
}

// byArrived: is t no more than the length of the buffered bytes?
func (e *Engine) byArrived(r *Report, sg *Seg, t *Term) bool {
	for _, ev := range sg.Evs {
		if ev.Kind == "newreader" {
			if v := frameOf(ev.Res[0]); v != nil {
				if e.entails(sg.S, e.p.Sub(e.lenOf(v), t)) {
					return true
				}
				if b, _, ok := e.frame(v); ok && e.entails(sg.S, e.p.Sub(e.lenOf(b), t)) {
					return true
				}
			}
		}
	}
	return e.existing(sg.S, t)
}

// existing: no more than the length of something there already is.
func (e *Engine) existing(s *State, t *Term) bool {
	if t.op == "len" {
		return true
	}
	for _, x := range t.syms {
		if x.op == "len" && e.entails(s, e.p.Sub(x, t)) {
			return true
		}
	}
	return false
}

// allocs: what a path allocates.
func (r *Report) allocs(e *Engine, sg *Seg, where string, small func(*Term) bool) {
	for _, ev := range sg.Evs {
		var sizes []*Term
		switch {
		case ev.Kind == "alloc":
			sizes = ev.Args
		case ev.Kind == "newreader":
			sizes = ev.Args[1:]
		case (ev.Kind == "call" || ev.Kind == "lib") && growing(ev.Name):
			for _, a := range ev.Args {
				if a.typ != nil && isInteger(a.typ) || a.isInt() {
					sizes = append(sizes, a)
				}
			}
		}
		for _, t := range sizes {
			r.checkL(t.isInt() || small(t), "alloc", where, "what is allocated is constant or bounded by received bytes: "+shortFn(ev.Fn), func() []string {
				return []string{e.where(ev), "size: " + t.String()}
			})
		}
	}
}

// growing: library calls that allocate as much as they are told.
func growing(n string) bool {
	for _, x := range []string{"Grow", "Repeat", "MakeMapWithSize", "MakeChan", "ArrayOf", "NewWriterSize", "CopyN", "Extend"} {
		if strings.HasSuffix(n, x) {
			return true
		}
	}
	return false
}

// takes: a place of the stream moves on in every round, and only to where
// bytes have been received.
func (d *decRun) takes(l *LoopInfo, total *Term) bool {
	e, p := d.e, d.e.p
	for _, t := range sortedVars(l) {
		if t.typ == nil || !isInteger(t.typ) {
			continue
		}
		ok := true
		for _, it := range l.Iters {
			nx := it.Next[t]
			if nx == nil || !e.entails(it.State, p.Sub(p.Sub(nx, t), p.Int(1))) && !d.beyond(it.State, nx, t) || !d.w.received(it.State, nx, total, 0) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// beyond: nx > t, where nx comes out of inner loops that started after t.
func (d *decRun) beyond(s *State, nx, t *Term) bool {
	e, p := d.e, d.e.p
	for _, c := range nx.syms {
		l := e.loopOf(c)
		if l == nil || c == t || c.typ == nil || !isInteger(c.typ) {
			continue
		}
		in := s.inits[l.Key]
		if in == nil || in.m[c] == nil {
			continue
		}
		grows := true
		for _, it := range d.w.rounds(s, l) {
			if it.Next[c] != c && !e.entails(it.State, p.Sub(it.Next[c], c)) && !d.beyond(it.State, it.Next[c], c) {
				grows = false
			}
		}
		if !grows {
			continue
		}
		st := s.clone()
		e.assume(st, p.Ge0(p.Sub(c, in.m[c])), true)
		if e.entails(st, p.Sub(p.Sub(nx, t), p.Int(1))) {
			return true
		}
	}
	return false
}

func sortedVars(l *LoopInfo) []*Term {
	m := map[*Term]*Term{}
	for t := range l.Vars {
		m[t] = t
	}
	return sortedTerms(m)
}

// few: a counter that stops at a constant, or at a number of received bytes.
func (d *decRun) few(l *LoopInfo, total *Term) bool {
	e, p := d.e, d.e.p
	for _, t := range sortedVars(l) {
		if t.typ == nil || !isInteger(t.typ) {
			continue
		}
		up, down := true, true
		for _, it := range l.Iters {
			nx := it.Next[t]
			if nx == nil {
				up, down = false, false
				break
			}
			up = up && e.entails(it.State, p.Sub(p.Sub(nx, t), p.Int(1)))
			down = down && e.entails(it.State, p.Sub(p.Sub(t, nx), p.Int(1)))
		}
		if up {
			for _, lim := range []*Term{p.Int(1 << 16), total} {
				ok := true
				for _, it := range l.Iters {
					ok = ok && e.entails(it.State, p.Sub(lim, t))
				}
				for _, in := range l.Inits {
					ok = ok && in[t] != nil && in[t].isInt()
				}
				if ok {
					return true
				}
			}
		}
		if down {
			ok := true
			for _, it := range l.Iters {
				ok = ok && e.entails(it.State, t)
			}
			for _, in := range l.Inits {
				ok = ok && in[t] != nil && in[t].isInt()
			}
			if ok {
				return true
			}
		}
	}
	return false
}

// ---- C23 -------------------------------------------------------------------------

func checkC23(r *Report) {
	r.rule("oblig", "every pointer that is followed, index and bound, type assertion, map write and reflective operation in decoding, dispatching, handling and encoding a request is shown to be in order for all field values")
	r.rule("panic", "decoding and encoding never panic of their own accord; a connection's goroutine panics only for a request that cannot be decoded, is not served, was refused by its handler or has bytes left over, or when reading or writing the connection failed")
	r.rule("refuse", "a handler returns an error only when its request cannot be decoded, or (SyncGroup) when it brings assignments of its own, which the mock does not support")
	r.rule("present", "a record set that is encoded is there")
	as := r.apiSetup()
	if as == nil {
		return
	}
	engines := r.allRoots(nil)
	for _, d := range r.decRuns(engines) {
		r.noCrash(d.e, d.where(), d.e.open, func(pe *PathEnd) bool { return false })
	}
	_, enc := r.codecUses(engines)
	resp := r.responseUses(engines)
	for _, u := range append(append([]*codecUse{}, resp...), enc...) {
		cfg := encodeCfg(u)
		e := r.run(cfg)
		r.noCrash(e, "encoding a "+typeKey(u.T), e.open, func(pe *PathEnd) bool { return e.missingSet(pe.S) })
	}
	for _, sl := range as.slots {
		r.handlerCrash(as, sl)
	}
	for _, e := range engines {
		sps := serveSpawns(r, e)
		if len(sps) == 0 {
			continue
		}
		n := 0
		for _, o := range e.open {
			if o.S.spawn == nil || sps[o.S.spawn.Ev] == nil || strings.HasPrefix(o.Ev.Name, "stream: ") {
				continue
			}
			r.check(false, "oblig", shortFn(o.Ev.Fn), "may crash: "+o.Ev.Name, e.where(o.Ev), clip(o.Ev.String(), 300))
		}
		r.pass("oblig", e.cfg.Name, "the goroutine of a connection was looked at")
		for _, sg := range e.segs() {
			if sg.Spawn == nil || sps[sg.Spawn.Ev] == nil || sg.End == nil || sg.End.Kind != "panic" {
				continue
			}
			n++
			r.checkL(r.mayPanic(e, sg), "panic", e.whereSeg(sg, nil), "a request that is well formed and served does not make the connection's goroutine panic", func() []string {
				return []string{"path: " + strings.Join(pathOf(e, sg.Evs), " ")}
			})
		}
		r.pass("panic", e.cfg.Name, fmt.Sprintf("panics of a connection's goroutine were looked at"))
	}
	r.need("oblig", 25)
	r.need("panic", 20)
	r.need("refuse", 9)
}

// noCrash: nothing undecided, and no panic.
func (r *Report) noCrash(e *Engine, w string, open []*Oblig, allowed func(*PathEnd) bool) {
	bad := false
	for _, o := range open {
		if strings.HasPrefix(o.Ev.Name, "stream: ") {
			continue
		}
		bad = true
		r.fail("oblig", w, "may crash: "+o.Ev.Name+" in "+shortFn(o.Ev.Fn), e.where(o.Ev), clip(o.Ev.String(), 400))
	}
	if !bad {
		r.check(true, "oblig", w, fmt.Sprintf("all %d conditions are met", len(e.oblig)))
	}
	bad = false
	for _, pe := range e.ends {
		if pe.Kind == "panic" && !allowed(pe) {
			bad = true
			r.fail("panic", w, "panics", "path: "+strings.Join(pathOf(e, pe.Evs), " "))
		}
	}
	if !bad {
		r.pass("panic", w, "no panic is reached")
	}
}

// keyKnown: a condition that a map has a key that is an entry of the list of
// its keys, taken when the map was as it is now.
func (r *Report) keyKnown(e *Engine, o *Oblig) bool {
	c := o.Ev.Args[0]
	if c.op != "mapok" || len(c.args) < 2 || c.args[1].op != "elem" {
		return false
	}
	m, l := c.args[0], c.args[1].args[0]
	sq, _ := e.seq(l)
	if sq == nil || sq.Map != m {
		return false
	}
	if km, _ := r.keysOf(e, o.S, o.S.ev, l, r.storeModel()); km != m {
		return false
	}
	var ver *Term
	if len(c.args) > 2 {
		ver = c.args[2]
	}
	for _, it := range sq.Items {
		if it.S.memver[e.mapKeyVer(m)] != ver {
			return false
		}
	}
	return true
}

// withinMap: a condition that an index that counts the rounds of a loop over a
// map is below the length of that map, which has not changed since.
func (e *Engine) withinMap(o *Oblig) bool {
	a := o.Ev.Args
	if len(a) < 3 || a[0] != e.p.Ge0(e.p.Sub(e.p.Sub(a[2], a[1]), e.p.Int(1))) || a[2].op != "len" {
		return false
	}
	for _, k := range sortedKeys(e.loops) {
		l := e.loops[k]
		_, m := e.mapIterOf(l)
		_, cur, ok := e.counter(l)
		if m == nil || !ok || cur != a[1] || a[2].args[0] != m {
			continue
		}
		var ver *Term
		if len(a[2].args) > 1 {
			ver = a[2].args[1]
		}
		if o.S.memver[e.mapKeyVer(m)] != ver {
			continue
		}
		// in a round of the loop
		for i := len(o.S.ev) - 1; i >= 0; i-- {
			ev := o.S.ev[i]
			if ev.Kind == "mapnext" && ev.Site != nil && ev.Site.ctx == l.Ctx && ev.Site.blk == l.Header {
				return true
			}
			if ev.Kind == "mapdone" && ev.Site != nil && ev.Site.ctx == l.Ctx && ev.Site.blk == l.Header || ev.Kind == "loopend" && ev.Name == l.Key {
				break
			}
		}
	}
	return false
}

// missingSet: is this a path on which a record set is nil?
func (e *Engine) missingSet(s *State) bool {
	for f, v := range s.facts {
		if !v || f.op != "eq" || len(f.args) != 2 {
			continue
		}
		for i, x := range f.args {
			if f.args[1-i].isNil() && x.typ != nil && pointee(x.typ) != nil && isMessageSet(pointee(x.typ)) {
				return true
			}
		}
	}
	return false
}

// handlerCrash decides one handler.
func (r *Report) handlerCrash(as *apiSetup, sl apiSlot) {
	var f *fetchRun
	e, fn := r.handlerRun(as, sl, nil)
	if e == nil {
		return
	}
	if sl == (apiSlot{1, 2}) && len(e.open) > 0 {
		quiet := newReport(r.id, r.pr)
		if g := quiet.fetchRun("oblig"); g != nil && g.e != nil && g.m != nil {
			f, e = g, g.e
		}
	}
	w := shortFn(fn)
	// conditions left open
	var left []*Oblig
	for _, o := range e.open {
		if strings.HasPrefix(o.Ev.Name, "stream: ") {
			continue
		}
		if f != nil && f.discharge(o) || r.keyKnown(e, o) || e.withinMap(o) {
			continue
		}
		left = append(left, o)
	}
	r.noCrash(e, w, left, func(*PathEnd) bool { return false })
	// refusals
	n := 0
	for _, pe := range e.ends {
		if pe.Kind != "return" || pe.Label != "" || len(pe.Res) != 3 {
			continue
		}
		n++
		path := func() []string { return []string{"path: " + strings.Join(pathOf(e, pe.Evs), " ")} }
		switch e.nilness(pe.S, pe.Res[2]) {
		case 1:
			r.pass("refuse", w, "no error")
			T := ifaceType(pe.Res[0])
			r.checkL(T != nil, "refuse", w, "there is a response when there is no error", path)
		case 0:
			r.checkL(false, "refuse", w, "undecided: whether an error is returned", path)
		case -1:
			ok := false
			for _, ev := range pe.Evs {
				ok = ok || ev.Kind == "decode" && ev.Name == "fail"
			}
			if !ok && sl.key == 14 {
				req, RT := pe.decoded()
				if st := structOf(RT); req != nil && st != nil {
					for i := 0; i < st.NumFields(); i++ {
						if elemT(st.Field(i).Type()) != nil && e.entails(pe.S, e.p.Sub(e.lenOf(e.fldOf(req, RT, i)), e.p.Int(1))) {
							ok = true
						}
					}
				}
			}
			r.checkL(ok, "refuse", w, "a well-formed request is not refused", path)
		}
	}
	r.check(n > 0, "refuse", w, "the handler returns")
	// record sets
	for _, pe := range e.ends {
		if pe.Kind == "return" && pe.Label == "" && len(pe.Res) == 3 && pe.Res[2].isNil() {
			if T := ifaceType(pe.Res[0]); T != nil && hasSet(T, 0) {
				n := &nulls{r: r, e: e, seen: map[string]bool{}, onlySets: true}
				n.value(pe.S, T, pe.Res[0].args[0], typeKey(T))
			}
		}
	}
}

// hasSet: is there a record set in values of the type?
func hasSet(T types.Type, d int) bool {
	if d > 8 {
		return false
	}
	if isMessageSet(T) {
		return true
	}
	switch u := T.Underlying().(type) {
	case *types.Pointer:
		return hasSet(u.Elem(), d+1)
	case *types.Slice:
		return hasSet(u.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasSet(u.Field(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

// mayPanic: is there a reason, other than field values, for the goroutine of a
// connection to give up?
func (r *Report) mayPanic(e *Engine, sg *Seg) bool {
	var hc *Event
	hi := 0
	for i, ev := range sg.Evs {
		switch {
		case ev.Kind == "decode" && ev.Name == "fail":
			return true
		case r.handlerCall(ev):
			hc, hi = ev, i
		case ev.Kind == "mapget" && r.tableGet(e, ev):
			// not served
			if v := ev.Args[2]; v.op == "mapval" {
				if kn, ok := e.eval(sg.S, e.p.mk("mapok", "", types.Typ[types.Bool], nil, v.args...)); kn && !ok {
					return true
				}
			} else if v.isNil() {
				return true
			}
			for _, x := range append(append([]*Term{}, ev.Res...), ev.Args[2:]...) {
				if kn, null := e.eval(sg.S, e.p.Eq(x, e.p.Nil())); kn && null && !isBoolT(typOf(x)) {
					return true
				}
				if isBoolT(typOf(x)) {
					if kn, v := e.eval(sg.S, x); kn && !v {
						return true
					}
				}
			}
		}
		if c, _ := r.connWrite(ev); c != nil && len(ev.Res) == 2 && e.nilness(sg.S, ev.Res[1]) < 0 {
			return true
		}
		if r.connRead(ev) != nil && len(ev.Res) == 2 && e.nilness(sg.S, ev.Res[1]) < 0 {
			return true
		}
	}
	if hc == nil {
		return false
	}
	return e.nilness(sg.S, hc.Res[2]) < 0 || e.leftover(sg, hi)
}

func typOf(t *Term) types.Type {
	if t.typ == nil {
		return types.Typ[types.Invalid]
	}
	return t.typ
}

func (r *Report) tableGet(e *Engine, ev *Event) bool {
	for _, g := range r.pr.apiTables() {
		t := e.globalTerm(g)
		m := ev.Args[0]
		if m == t || len(m.args) > 0 && m.args[0] == t || m.op == "gval" && m.aux == t.aux {
			return true
		}
	}
	return false
}

// discharge: conditions that hold because of how Fetch's list of objects is
// built and paired with what is answered.
func (f *fetchRun) discharge(o *Oblig) bool {
	m := f.m
	debugf("discharge %v", o.Ev)
	// the index of an object
	if a := o.Ev.Args; len(a) >= 4 && a[3] == m.X && m.paired[a[1]] > 0 && a[0] == f.e.p.Ge0(f.e.p.Sub(f.e.p.Sub(f.e.lenOf(m.X), a[1]), f.e.p.Int(1))) {
		return true
	}
	return f.notNegative(o)
}

// notNegative: a condition that a number kept in an object is at least some
// constant, which it was set up to be and never falls below.
func (f *fetchRun) notNegative(o *Oblig) bool {
	e, m := f.e, f.m
	c := o.Ev.Args[0]
	if c.op != "ge0" {
		return false
	}
	l := toLin(c.args[0])
	var at, entry *Term
	aux := ""
	for t, k := range l.coef {
		if el, x := f.keptIn(t); el != nil && k == 1 && at == nil && len(l.coef) == 1 {
			at, entry, aux = t, el, x
		}
	}
	if at == nil {
		debugf("not a field of an object: %v", c)
		return false
	}
	// as set up, unless what is known of the object rules it out
	for _, it := range m.Items {
		v := f.initial(it, aux)
		if e.entails(it.A.S, e.subst(c.args[0], map[*Term]*Term{at: v})) {
			continue
		}
		if !f.ruledOut(o.S, it, entry) {
			debugf("may be set up as %v: facts %v; known of the entry: %v", v, it.A.S.facts, o.S.facts)
			return false
		}
	}
	// later
	for ev, ss := range f.sites {
		el, via, x := e.entryOfAddr(ev.Args[0], m.FT)
		if via != "" {
			x = via + ">" + x
		}
		if el == nil || x != aux {
			continue
		}
		for _, s := range ss {
			ok := e.entails(s, e.subst(c.args[0], map[*Term]*Term{at: ev.Args[1]}))
			d := toLin(ev.Args[1])
			for t, k := range d.coef {
				if y, ya := f.keptIn(t); k == 1 && len(d.coef) == 1 && sameEntry(y, el) && ya == aux && d.c >= 0 {
					ok = true
				}
			}
			if !ok {
				debugf("later set to %v", ev)
				return false
			}
		}
	}
	for _, ev := range e.evlist {
		if ev.Kind == "store" && (ev.Args[0].op == "elem" || ev.Args[0].op == "index") && ev.Args[1].typ != nil && typeKey(ev.Args[1].typ) == typeKey(m.FT) && ev.Args[0].op == "elem" {
			return false
		}
	}
	return true
}

// keptIn: the entry a number is kept in, or in the message set of, and where.
func (f *fetchRun) keptIn(t *Term) (*Term, string) {
	if el, aux := famElem(t, f.m.FT); el != nil {
		return el, aux
	}
	if t.op == "fld" && t.args[0].op == "deref" {
		if el, aux := famElem(t.args[0].args[0], f.m.FT); el != nil && aux == f.set {
			return el, f.set + ">" + t.aux
		}
	}
	return nil, ""
}

// ruledOut: do the facts of a state about an entry exclude that it is this
// object, by fields that are never changed after it was set up?
func (f *fetchRun) ruledOut(s *State, it *FetchItem, entry *Term) bool {
	e, m := f.e, f.m
	for fact, truth := range s.facts {
		sub := map[*Term]*Term{}
		ok := true
		var walk func(t *Term)
		walk = func(t *Term) {
			if el, aux := famElem(t, m.FT); el != nil {
				if !sameEntry(el, entry) || m.stored(aux) != nil {
					ok = false
					return
				}
				sub[t] = it.field(m, aux)
				return
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		walk(fact)
		if !ok || len(sub) == 0 {
			continue
		}
		if kn, v := e.eval(it.A.S, e.subst(fact, sub)); kn && v != truth {
			return true
		}
	}
	return false
}
