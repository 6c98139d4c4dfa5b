package main

// C11: when a fetch ends.

import (
	"fmt"
	"go/types"
	"strings"
)

type waitRun struct {
	*fetchRun
	req     *Term
	RT      types.Type
	cursors map[string]bool
	hs      map[*Event]*Term
}

func (f *waitRun) isAppend(ev *Event) bool {
	if ev.Kind != "store" || ev.Args[0].op != "field" || ev.Args[0].aux != f.msgs {
		return false
	}
	el, via, _ := f.e.entryOfAddr(ev.Args[0], f.m.FT)
	return el != nil && via == f.set
}

// gives: had the object looked at in this iteration a record to give at its
// position: 1 yes, -1 no, 0 not known; looked says whether one was looked at.
func (f *waitRun) gives(it *Iter) (looked bool, g int) {
	e := f.e
	for _, ev := range it.Evs {
		if f.isAppend(ev) {
			return true, 1
		}
	}
	for _, ev := range it.Evs {
		el, ok := f.hs[ev]
		if !ok {
			continue
		}
		looked = true
		n := unconvW(ev.Args[1], 64)
		s := it.State
		cands := map[*Term]bool{}
		note := func(t *Term) {
			if c := f.cursorOf(el, t); f.cursors[c] {
				cands[t] = true
			}
		}
		for _, l := range it.Lins {
			for a := range toLin(l).coef {
				note(a)
			}
		}
		for c := range cands {
			if e.entails(s, e.p.Sub(c, n)) {
				return true, -1
			}
		}
		for t, v := range it.Facts {
			// the record at the position is nil: not in the list
			if t.op == "eq" {
				for i := 0; i < 2; i++ {
					x := t.args[i]
					if x.op == "elem" && t.args[1-i].isNil() {
						if aux, _ := valueOwner(x.args[0]); aux == f.sm.records && f.cursors[f.cursorOf(el, x.args[1])] {
							if v {
								return true, -1
							}
						}
					}
				}
			}
		}
		for c := range cands {
			if e.entails(s, e.p.Sub(e.p.Sub(n, c), e.p.Int(1))) {
				return true, 1
			}
		}
	}
	return looked, 0
}

// deadline: is t the time the request came plus its maximum wait?
func (f *waitRun) deadline(t *Term, l *LoopInfo) bool {
	e := f.e
	if t.op != "call" || t.aux != "(time.Time).Add" || len(t.args) != 2 {
		return false
	}
	n := t.args[0]
	return n.op == "now" && !(n.site != nil && inLoop(e, n.site, l)) && f.isWait(t.args[1])
}

func (f *waitRun) isWait(d *Term) bool {
	e := f.e
	return d == e.p.Scale(e.fldOf(f.req, f.RT, 1), 1000000)
}

// expired: 1 the deadline was found passed, -1 found not passed, 0 not looked at.
func (f *waitRun) expired(s *State, evs []*Event, l *LoopInfo) int {
	e := f.e
	out := 0
	fresh := func(t *Term) bool { return t.op == "now" && t.site != nil && inLoop(e, t.site, l) }
	for _, ev := range evs {
		if ev.Kind != "call" || len(ev.Res) == 0 {
			continue
		}
		switch ev.Name {
		case "(time.Time).After":
			a, b := ev.Args[0], ev.Args[1]
			k, v := e.eval(s, ev.Res[0])
			if !k {
				continue
			}
			if fresh(a) && f.deadline(b, l) {
				if v {
					out = 1
				} else {
					out = -1
				}
			}
			if fresh(b) && f.deadline(a, l) {
				if v {
					out = -1
				} else {
					out = 1
				}
			}
		}
	}
	// elapsed time against the wait
	for _, fct := range s.lins {
		lf := toLin(fct)
		for a, c := range lf.coef {
			if a.op != "call" || a.aux != "(time.Time).Sub" || len(a.args) != 2 {
				continue
			}
			x, y := a.args[0], a.args[1]
			if fresh(x) && y.op == "now" && !fresh(y) {
				w := e.p.Scale(e.fldOf(f.req, f.RT, 1), 1000000)
				rest := e.p.Sub(fct, e.p.Scale(e.p.Sub(a, w), c))
				if rest.isInt() && rest.intVal() >= -1 && rest.intVal() <= 0 {
					if c == 1 {
						out = 1
					} else if c == -1 {
						out = -1
					}
				}
			}
			if fresh(y) && f.deadline(x, l) {
				rest := e.p.Sub(fct, e.p.Scale(a, c))
				if rest.isInt() && rest.intVal() >= -1 && rest.intVal() <= 0 {
					if c == 1 {
						out = -1
					} else if c == -1 {
						out = 1
					}
				}
			}
		}
	}
	return out
}

// stopped: 1 the shutdown signal was found set, -1 found not set, 0 not looked at.
func (e *Engine) stopped(s *State, evs []*Event) int {
	out := 0
	for _, ev := range evs {
		switch ev.Kind {
		case "select", "selectwait":
			for i, c := range ev.Args {
				if !isDone(c) {
					continue
				}
				if ev.Name == fmt.Sprint(i) {
					out = 1
				} else if out == 0 {
					out = -1
				}
			}
		case "recv":
			if len(ev.Args) > 0 && isDone(ev.Args[0]) {
				out = 1
			}
		case "call":
			if strings.HasSuffix(ev.Name, ".Err") && len(ev.Res) == 1 && len(ev.Args) > 0 && laneOf(ev.Args[0]) {
				if k, v := e.eval(s, e.p.Eq(ev.Res[0], e.p.Nil())); k {
					if v {
						out = -1
					} else {
						out = 1
					}
				}
			}
		}
	}
	return out
}

// isDone: the shutdown channel of a lane.
func isDone(c *Term) bool {
	return c != nil && c.op == "call" && (strings.HasSuffix(c.aux, "lane.Lane).Done") || c.aux == "(lane.Lane).Done") && len(c.args) == 1 && laneOf(c.args[0])
}

func laneOf(t *Term) bool {
	return t != nil && t.typ != nil && strings.HasSuffix(typeKey(t.typ), "Lane")
}

// slept: the time an iteration sleeps, a constant.
func slept(evs []*Event) (d int64, ok bool, other bool) {
	after := map[*Term]*Term{}
	for _, ev := range evs {
		switch {
		case ev.Kind == "call" && ev.Name == "time.Sleep" && len(ev.Args) == 1:
			if ev.Args[0].isInt() {
				d, ok = d+ev.Args[0].intVal(), true
			} else {
				other = true
			}
		case ev.Kind == "call" && ev.Name == "time.After" && len(ev.Args) == 1 && len(ev.Res) == 1:
			after[ev.Res[0]] = ev.Args[0]
		case ev.Kind == "selectwait":
			good := false
			for i, c := range ev.Args {
				if a := after[c]; a != nil && a.isInt() {
					good = true
					if ev.Name == fmt.Sprint(i) {
						d, ok = d+a.intVal(), true
					}
				}
			}
			if !good {
				other = true
			}
		case ev.Kind == "recv" && len(ev.Args) > 0:
			if a := after[ev.Args[0]]; a != nil && a.isInt() {
				d, ok = d+a.intVal(), true
			} else {
				other = true
			}
		case ev.Kind == "call" && blockingName(ev.Name):
			other = true
		}
	}
	return
}

func blockingName(n string) bool {
	return strings.HasSuffix(n, ".Wait") || strings.HasSuffix(n, "net.Conn).Read") || strings.HasSuffix(n, "net.Conn).Write") || strings.HasSuffix(n, ".Accept")
}

func checkC11(r *Report) {
	r.rule("bounded", "every loop of the fetch handler walks a fixed range once, or is a waiting loop whose every round and end is judged")
	r.rule("round", "a waiting loop goes round only if it added a message, or if no object had a record to give, the request's deadline was looked at and not passed, the shutdown signal was looked at and not set, and it slept a fixed short time")
	r.rule("end", "a waiting loop ends only where an object had a record to give and the last look added none, or the deadline was found passed, or the shutdown signal was found set")
	f0 := r.fetchRun("bounded")
	if f0 == nil || !f0.ok {
		return
	}
	f := &waitRun{fetchRun: f0, cursors: map[string]bool{}}
	e, w := f.e, f.w
	f.hs = f.storesTo(f.hwm)
	for _, x := range f.appends(r, "bounded") {
		if R := x.msg(5); R.op == "fld" && R.args[0].op == "deref" && R.args[0].args[0].op == "elem" {
			if c := f.cursorOf(x.el, R.args[0].args[0].args[1]); c != "" {
				f.cursors[c] = true
			}
		}
	}
	for _, pe := range e.ends {
		if req, RT := pe.decoded(); req != nil {
			f.req, f.RT = req, RT
			break
		}
	}
	if f.req == nil || structOf(f.RT) == nil || structOf(f.RT).NumFields() < 2 {
		r.fail("bounded", w, "anchor lost: the request of a fetch")
		return
	}
	nw := 0
	for _, l := range e.loops {
		if e.bounded(l) {
			r.pass("bounded", w, fmt.Sprintf("loop %s walks a fixed range", l.Key))
			// nothing in it waits
			for _, it := range l.Iters {
				d, ok, other := slept(it.Evs)
				r.check(!other && (!ok || d == 0), "bounded", w, "a loop over a fixed range does not wait", pathOf(e, it.Evs)...)
			}
			continue
		}
		nw++
		r.pass("bounded", w, fmt.Sprintf("loop %s is judged round by round", l.Key))
		// flags from which the loop does not go round again
		last := func(c string) bool {
			for _, it := range l.Iters {
				if it.CtlIn == c {
					return false
				}
			}
			return true
		}
		for _, it := range l.Iters {
			path := pathOf(e, it.Evs)
			d, ok, other := slept(it.Evs)
			if last(it.CtlOut) && it.CtlOut != it.CtlIn {
				continue // judged as an end
			}
			r.check(!other && d <= 1e9, "round", w, "a round waits no longer than a second", path...)
			if e.must(it.Evs, PathPred{ev: f.isAppend}) {
				r.pass("round", w, "goes round having added a message")
				continue
			}
			r.check(ok && d > 0, "round", w, "a round that adds nothing sleeps", path...)
			r.check(f.expired(it.State, it.Evs, l) < 0, "round", w, "a round that adds nothing has found the deadline not passed", path...)
			r.check(e.stopped(it.State, it.Evs) < 0, "round", w, "a round that adds nothing has found the shutdown signal not set", path...)
			none := true
			nlook := 0
			its := e.along(it.Evs)
			for _, x := range append([]*Iter{{Evs: it.Evs, State: it.State, Lins: it.Lins, Facts: it.Facts}}, its...) {
				looked, g := f.gives(x)
				if looked {
					nlook++
					if g >= 0 {
						none = false
					}
				}
			}
			r.check(none, "round", w, "a round that waits has found nothing to give", path...)
			_ = nlook
		}
		// ends
		ne := 0
		gave := PathPred{ev: f.isAppend, it: func(it *Iter) bool { _, g := f.gives(it); return g > 0 }}
		decide := func(s *State, seg, tail []*Event, had bool) {
			path := pathOf(e, tail)
			if f.expired(s, tail, l) > 0 || e.stopped(s, tail) > 0 {
				r.pass("end", w, "ends at the deadline or at shutdown")
				return
			}
			had = had || e.must(seg, gave)
			r.check(had, "end", w, "it ends before the deadline only if an object had a record to give", path...)
			more := false
			for _, ev := range tail {
				more = more || f.isAppend(ev)
			}
			for _, it := range e.along(tail) {
				for _, ev := range it.Evs {
					more = more || f.isAppend(ev)
				}
			}
			r.check(!more, "end", w, "it ends before the deadline only if the last look added nothing", path...)
		}
		judge := func(s *State, evs []*Event) {
			i, j := -1, -1
			for k, ev := range evs {
				if ev.Kind == "loop" && ev.Name == l.Key {
					i, j = k, -1
				}
				if ev.Kind == "loopend" && ev.Name == l.Key && i >= 0 {
					j = k
				}
			}
			if i < 0 {
				return
			}
			ne++
			if j < 0 {
				j = len(evs)
			}
			if j < len(evs) && last(evs[j].Ctl) && evs[j].Ctl != evs[i].Ctl {
				// decided in the iteration before
				for _, it := range l.Iters {
					if it.CtlOut == evs[j].Ctl {
						decide(it.State, it.Evs, it.Evs, !e.avoids(l, evs[i].Ctl, it.CtlIn, gave, 0))
					}
				}
				return
			}
			seg := evs[i:]
			if j < len(evs) {
				seg = evs[i : j+1]
			}
			decide(s, seg, evs[i+1:j], false)
		}
		for _, pe := range e.ends {
			if pe.Kind == "return" && pe.Label == "" && len(pe.Res) == 3 && pe.Res[2].isNil() {
				judge(pe.S, pe.Evs)
			}
		}
		for _, l2 := range e.loops {
			if l2 != l {
				for _, it := range l2.Iters {
					judge(it.State, it.Evs)
				}
			}
		}
		r.check(ne > 0, "end", w, "the waiting loop ends")
	}
	r.check(nw > 0, "bounded", w, "a fetch waits on some path")
	for _, pe := range e.ends {
		if pe.Kind == "return" && pe.Label == "" && len(pe.Res) == 3 && pe.Res[2].isNil() {
			waited := false
			for _, l := range e.loops {
				if !e.bounded(l) && f.onPath(pe.Evs, l) {
					waited = true
				}
			}
			r.check(waited, "end", w, "every answer comes by way of the waiting loop", pathOf(e, pe.Evs)...)
			d, ok, other := slept(pe.Evs)
			_, _, _ = d, ok, other
			for _, ev := range pe.Evs {
				if ev.Kind == "loopend" {
					continue
				}
			}
			r.check(!other && d <= 1e9, "end", w, "nothing else waits", pathOf(e, pe.Evs)...)
		}
	}
}
