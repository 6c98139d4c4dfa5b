package main

// Connections: ownership of connections and descriptors (C17), the life cycle
// (C16), shutdown (C18), the client list (C24), responses (C04) and the
// reassembly of requests (C09). All of them read the events of the server: the
// start function with every goroutine it leads to, followed with the variables
// it captures.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Seg is a path of a function to its end, or one iteration of a loop.
type Seg struct {
	Evs   []*Event
	S     *State
	End   *PathEnd
	It    *Iter
	Loop  *LoopInfo
	Spawn *Spawned
}

func (sg *Seg) kind() string {
	if sg.It != nil {
		return "iteration"
	}
	return sg.End.Kind
}

func (e *Engine) segs() []*Seg {
	if e.segList != nil {
		return e.segList
	}
	var out []*Seg
	for _, pe := range e.ends {
		out = append(out, &Seg{Evs: pe.Evs, S: pe.S, End: pe, Spawn: pe.S.spawn})
	}
	for _, k := range sortedKeys(e.loops) {
		l := e.loops[k]
		for _, it := range l.Iters {
			out = append(out, &Seg{Evs: it.Evs, S: it.State, It: it, Loop: l, Spawn: it.State.spawn})
		}
	}
	e.segList = out
	return out
}

// baseVal strips what leaves a value the same thing: type assertions,
// interfaces around it, the embedded part of a network type.
func baseVal(t *Term) *Term {
	for {
		switch t.op {
		case "assert", "iface":
			if len(t.args) == 0 {
				return t
			}
			t = t.args[0]
			continue
		case "field", "fld":
			if n := auxStruct(t.aux); n == "TCPConn" || n == "conn" || n == "TCPListener" {
				t = t.args[0]
				continue
			}
		case "deref":
			if len(t.args) > 0 && (t.args[0].op == "assert" || t.args[0].op == "field") {
				t = t.args[0]
				continue
			}
		}
		return t
	}
}

func callName(ev *Event) string {
	if ev.Kind != "call" && ev.Kind != "go" {
		return ""
	}
	return ev.Name
}

// method splits a method call into its name and its receiver.
func method(ev *Event) (string, *Term) {
	n := callName(ev)
	if !strings.HasPrefix(n, "(") || len(ev.Args) == 0 {
		return "", nil
	}
	return n[strings.LastIndexByte(n, '.')+1:], baseVal(ev.Args[0])
}

func acquired(ev *Event) *Term {
	if ev.Kind == "call" && acquires(ev.Name) && len(ev.Res) == 2 && !ev.Res[0].isNil() {
		return ev.Res[0]
	}
	return nil
}

func closes(ev *Event, v *Term) bool {
	m, x := method(ev)
	return m == "Close" && x == v
}

// mentions: is the value among the arguments, or in an object reachable from them?
func mentions(s *State, ev *Event, v *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term, d int) bool
	rec = func(t *Term, d int) bool {
		if t == v || t.hasSym(v) {
			return true
		}
		if d > 4 || seen[t] {
			return false
		}
		seen[t] = true
		for _, y := range t.syms {
			if y.op == "new" {
				for c, w := range s.mem {
					if baseOf(c) == y && rec(w, d+1) {
						return true
					}
				}
			}
		}
		return false
	}
	for _, a := range ev.Args {
		if rec(a, 0) {
			return true
		}
	}
	return false
}

// spawnedBy: the ends of the goroutine started by a go statement.
func (e *Engine) spawnedBy(ev *Event) []*PathEnd {
	var out []*PathEnd
	for _, pe := range e.ends {
		if pe.S.spawn != nil && pe.S.spawn.Ev == ev {
			out = append(out, pe)
		}
	}
	return out
}

func (e *Engine) whereSeg(sg *Seg, ev *Event) string {
	if ev != nil {
		return shortFn(ev.Fn)
	}
	if sg.Loop != nil {
		return shortFn(sg.Loop.Ctx.fn)
	}
	if sg.Spawn != nil && sg.Spawn.Fn != nil {
		return shortFn(sg.Spawn.Fn)
	}
	return shortFn(e.cfg.Fn)
}

// ---- C17 -------------------------------------------------------------------------

func checkC17(r *Report) {
	r.rule("closed", "on every path, what a call that opens a connection, listener or descriptor gave is closed, or handed to a goroutine all of whose ways to return close it, or (a listener) kept in the field that a requested stop closes")
	r.rule("stop", "every way a requested stop can return has closed the listener, unless there is none, the mock is not started, or an earlier request does it")
	r.assume = append(r.assume, "a panic that nothing recovers ends the process and with it every descriptor")
	var listenerFields = map[string]bool{}
	engines := r.allRoots(nil)
	for _, e := range engines {
		for _, sg := range e.segs() {
			for i, ev := range sg.Evs {
				v := acquired(ev)
				if v == nil {
					continue
				}
				if sg.End != nil && sg.End.Kind != "return" && !sg.S.recovered {
					continue
				}
				ok, why := e.released(r, sg, sg.Evs[i+1:], v, listenerFields)
				r.check(ok, "closed", e.whereSeg(sg, ev), fmt.Sprintf("what %s gives is closed", ev.Name), why, "path: "+strings.Join(pathOf(e, sg.Evs), " "))
			}
		}
	}
	r.need("closed", 3)
	stop := r.pr.method("KafkaMock", "RequestStop")
	for _, e := range engines {
		if e.cfg.Fn != stop {
			continue
		}
		sr := r.stopRules(e)
		for aux := range listenerFields {
			n := 0
			for _, pe := range e.ends {
				if pe.Kind != "return" || pe.S.spawn != nil {
					continue
				}
				n++
				ok := sr.skipped(pe) != "" || sr.closedListener(pe, aux)
				r.check(ok, "stop", shortFn(stop), "the listener is closed", "path: "+strings.Join(pathOf(e, pe.Evs), " "))
			}
			if n == 0 {
				r.fail("stop", shortFn(stop), "undecided: no way to return was found")
			}
		}
	}
	if len(listenerFields) > 0 {
		r.need("stop", 1)
	}
}

// released: is the value closed on the rest of the path, or kept by someone who will?
func (e *Engine) released(r *Report, sg *Seg, evs []*Event, v *Term, lf map[string]bool) (bool, string) {
	for _, ev := range evs {
		if closes(ev, v) {
			return true, ""
		}
		if ev.Kind == "go" && mentions(sg.S, ev, v) {
			ends := e.spawnedBy(ev)
			n := 0
			for _, pe := range ends {
				if pe.Kind == "panic" && !pe.S.recovered {
					continue
				}
				n++
				ok := false
				for _, x := range pe.Evs {
					if closes(x, v) {
						ok = true
					}
				}
				if !ok {
					return false, "the goroutine it is handed to can end without closing it: " + strings.Join(pathOf(e, pe.Evs), " ")
				}
			}
			if n > 0 {
				return true, ""
			}
			if strings.HasSuffix(ev.Name, ".Close") {
				return true, ""
			}
		}
	}
	if v.typ != nil && isListener(v.typ) {
		for _, ev := range evs {
			if ev.Kind == "store" && ev.Args[0].op == "field" && baseVal(ev.Args[1]) == v && auxStruct(ev.Args[0].aux) == "KafkaMock" {
				lf[ev.Args[0].aux] = true
				return true, ""
			}
		}
	}
	return false, "nothing closes it on this path"
}

func isListener(t types.Type) bool {
	k := typeKey(t)
	return k == "net.Listener" || k == "*net.TCPListener"
}

// ---- the stop request ------------------------------------------------------------

// stopRules: what the paths of RequestStop tell about themselves.
type stopRules struct {
	r       *Report
	e       *Engine
	skipEvs map[string]string // flag field -> why a path may return without work
	start   *Engine
}

// flagRead: a read of a boolean flag of the mock, and what it gave on this path.
func (e *Engine) flagRead(s *State, ev *Event) (aux string, was int) {
	aux, was = boolRead(e, s, ev)
	if auxStruct(aux) != "KafkaMock" {
		return "", -1
	}
	return
}

// flagSet: a write to a boolean flag of the mock (1, 0; 2 if not known which).
func flagSet(ev *Event) (aux string, v int) {
	aux, v = boolSet(ev)
	if auxStruct(aux) != "KafkaMock" {
		return "", -1
	}
	return
}

func (r *Report) stopRules(e *Engine) *stopRules {
	sr := &stopRules{r: r, e: e}
	sr.start = r.run(&RootCfg{Name: "Start", Fn: r.pr.method("KafkaMock", "Start"), Spawn: true})
	return sr
}

// startSets: does every way Start returns leave the flag so, before it starts anything?
func (sr *stopRules) startSets(aux string, v int) bool {
	n := 0
	for _, pe := range sr.start.ends {
		if pe.Kind != "return" || pe.S.spawn != nil {
			continue
		}
		n++
		last := -1
		for _, ev := range pe.Evs {
			if a, x := flagSet(ev); a == aux {
				last = x
			}
			if ev.Kind == "go" && last != v {
				return false
			}
		}
		if last != v {
			return false
		}
	}
	return n > 0
}

// skipped: the reason this path need not do the work, "" if it has none.
func (sr *stopRules) skipped(pe *PathEnd) string {
	for _, ev := range pe.Evs {
		aux, was := sr.e.flagRead(pe.S, ev)
		if aux == "" || was < 0 {
			continue
		}
		if was == 1 && sr.startSets(aux, 0) && sr.onlyStop(aux) {
			return "an earlier request"
		}
		if was == 0 && sr.startSets(aux, 1) && sr.onlyEnd(aux) {
			return "not started"
		}
	}
	return ""
}

// onlyStop: the flag is set nowhere but by a stop request that then does the work.
func (sr *stopRules) onlyStop(aux string) bool {
	for _, sg := range sr.start.segs() {
		for _, ev := range sg.Evs {
			if a, v := flagSet(ev); a == aux && v != 0 {
				return false
			}
		}
	}
	return true
}

// onlyEnd: the flag is cleared nowhere but by a goroutine that is ending.
func (sr *stopRules) onlyEnd(aux string) bool {
	for _, sg := range append(sr.start.segs(), sr.e.segs()...) {
		for i, ev := range sg.Evs {
			a, v := flagSet(ev)
			if a != aux || v == 1 {
				continue
			}
			if sg.Spawn == nil || sg.It != nil {
				return false
			}
			for _, x := range sg.Evs[i+1:] {
				if x.Kind == "go" || x.Kind == "loop" {
					return false
				}
			}
		}
	}
	return true
}

func (sr *stopRules) closedListener(pe *PathEnd, aux string) bool {
	var vals []*Term
	for _, ev := range pe.Evs {
		if ev.Kind == "load" && ev.Args[0].op == "field" && ev.Args[0].aux == aux {
			vals = append(vals, ev.Args[1])
		}
		m, x := method(ev)
		if m == "Close" {
			for _, v := range vals {
				if baseVal(v) == x {
					return true
				}
			}
			if a, _ := valueOwner(x); a == aux {
				return true
			}
		}
	}
	for _, v := range vals {
		if known, is := sr.e.eval(pe.S, sr.e.p.Eq(v, sr.e.p.Nil())); known && is {
			return true
		}
	}
	return false
}

var _ = ssa.NaiveForm
