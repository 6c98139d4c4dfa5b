package main

// The life of the mock: the list of connected clients (C24), the accounting of
// its goroutines and the stop and restart sequences (C16), shutdown (C18) and
// what mocks and restarts may share (C22).

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// heldAt: the lock operations in force before the i-th event, by mutex.
func heldAt(evs []*Event, i int) map[*Term]*Event {
	out := map[*Term]*Event{}
	for _, ev := range evs[:i] {
		switch ev.Kind {
		case "lock":
			out[ev.Args[0]] = ev
		case "unlock":
			delete(out, ev.Args[0])
		}
	}
	return out
}

// section: the mutexes held without a break from one event to another.
func section(evs []*Event, i, j int) []*Term {
	if i > j {
		i, j = j, i
	}
	var out []*Term
	for m := range heldAt(evs, i) {
		broken := false
		for _, ev := range evs[i:j] {
			if ev.Kind == "unlock" && ev.Args[0] == m {
				broken = true
			}
		}
		if !broken {
			out = append(out, m)
		}
	}
	return out
}

// died: an end that takes the process with it.
func died(pe *PathEnd) bool { return pe.Kind == "panic" && !pe.S.recovered || pe.Kind == "block" }

func (e *Engine) pathText(evs []*Event) func() []string {
	return func() []string { return []string{"path: " + strings.Join(pathOf(e, evs), " ")} }
}

// owner: the field of the mock a value was read from, or an address names.
func ownField(t *Term) string {
	if t == nil {
		return ""
	}
	if t.op == "field" {
		return t.aux
	}
	a, _ := valueOwner(t)
	return a
}

// ---- C24 -------------------------------------------------------------------------

func checkC24(r *Report) {
	r.rule("entered", "on every path that starts a goroutine for an accepted connection, that connection's client is entered in the client list exactly once, before the goroutine starts or in the critical section it is started in and the removal waits for; no other path enters anything")
	r.rule("number", "the number a client is entered under is larger than every number used before it: taken from a counter that only moves forward, and moved by the same path")
	r.rule("removed", "every way the goroutine of a connection can end removes exactly one entry, with the number that connection was entered under, after its last use of the connection, and it removes nothing before")
	r.rule("list", "the client list is replaced as a whole only by a fresh one, before anything is started")
	cf := r.pr.clientsField()
	if cf == "" {
		r.fail("entered", "KafkaMock", "anchor lost: the client list")
		return
	}
	if !strings.HasPrefix(typeKey(r.pr.fieldType(cf)), "map[") {
		r.fail("entered", "KafkaMock", "undecided: the client list is not a map")
		return
	}
	engines := r.allRoots(nil)
	for _, e := range engines {
		sps := serveSpawns(r, e)
		fresh := map[*Term]bool{} // maps stored in the field
		for _, ev := range e.evlist {
			if ev.Kind == "store" && ev.Args[0].op == "field" && ev.Args[0].aux == cf {
				fresh[ev.Args[1]] = true
			}
		}
		mine := func(m *Term) bool { return ownField(m) == cf || fresh[m] }
		for _, sg := range e.segs() {
			w := e.whereSeg(sg, nil)
			nset := 0
			var goEv *Event
			gi, si := -1, -1
			for i, ev := range sg.Evs {
				if sps[ev] != nil {
					goEv, gi = ev, i
				}
				switch ev.Kind {
				case "mapset":
					if mine(ev.Args[0]) {
						nset++
						si = i
					}
				case "store":
					if ev.Args[0].op == "field" && ev.Args[0].aux == cf {
						r.freshList(e, sg, i, ev)
					}
				case "mapclear":
					if mine(ev.Args[0]) {
						r.fail("list", e.whereSeg(sg, ev), "the client list is cleared", e.where(ev))
					}
				case "mapdel":
					if mine(ev.Args[0]) && (sg.It != nil || sg.Spawn == nil || sps[sg.Spawn.Ev] == nil) {
						r.fail("removed", e.whereSeg(sg, ev), "an entry is removed elsewhere than at the end of a connection's goroutine", e.where(ev))
					}
				}
			}
			if sg.End != nil && died(sg.End) {
				continue
			}
			if goEv == nil {
				r.checkL(nset == 0, "entered", w, "nothing is entered without a connection being served", e.pathText(sg.Evs))
				continue
			}
			conn := sps[goEv]
			if !r.checkL(nset == 1, "entered", w, fmt.Sprintf("an accepted connection's client is entered once, not %d times", nset), e.pathText(sg.Evs)) {
				continue
			}
			set := sg.Evs[si]
			r.check(mentions(sg.S, &Event{Args: []*Term{set.Args[2]}}, conn), "entered", w, "what is entered is the client of the connection that was accepted", e.where(set), set.String())
			key := set.Args[1]
			common := section(sg.Evs, gi, si)
			if si > gi {
				r.checkL(len(common) > 0, "entered", w, "the client is entered before its goroutine starts or under the same lock", e.pathText(sg.Evs))
			}
			r.number(e, engines, sg, si, key)
			// the ends
			n := 0
			for _, pe := range e.spawnedBy(goEv) {
				if died(pe) {
					continue
				}
				n++
				nd, di := 0, -1
				for i, ev := range pe.Evs {
					if ev.Kind == "mapdel" && mine(ev.Args[0]) {
						nd++
						di = i
					}
				}
				if !r.checkL(nd == 1, "removed", w, fmt.Sprintf("the goroutine of a connection removes one entry when it ends, not %d", nd), e.pathText(pe.Evs)) {
					continue
				}
				del := pe.Evs[di]
				r.check(del.Args[1] == key, "removed", shortFn(del.Fn), "the entry removed is the one that was entered for this connection", "entered under "+key.String()+", removed "+del.Args[1].String(), e.where(del))
				if si > gi {
					held := heldAt(pe.Evs, di)
					ok := false
					for _, m := range common {
						ok = ok || held[m] != nil
					}
					r.check(ok, "entered", shortFn(del.Fn), "the removal waits for the lock the entry is made under", e.where(del))
				}
				late := ""
				for _, ev := range pe.Evs[di:] {
					if c, _ := r.connWrite(ev); c != nil || r.connRead(ev) != nil || r.handlerCall(ev) || ev.Kind == "loop" {
						late = ev.String()
					}
				}
				r.check(late == "", "removed", shortFn(del.Fn), "the entry is removed after the last use of the connection", late)
			}
			r.check(n > 0, "removed", w, "the goroutine of a connection can end")
		}
	}
	r.need("entered", 3)
	r.need("number", 1)
	r.need("removed", 4)
	r.need("list", 1)
}

func (pr *Program) fieldType(aux string) types.Type {
	T := pr.typ(auxStruct(aux))
	if T == nil {
		return nil
	}
	st := structOf(T)
	i := auxIndex(aux)
	if st == nil || i < 0 || i >= st.NumFields() {
		return nil
	}
	return st.Field(i).Type()
}

// freshList: the list is replaced by a new one, and only before anything runs.
func (r *Report) freshList(e *Engine, sg *Seg, i int, ev *Event) {
	w := e.whereSeg(sg, ev)
	v := ev.Args[1]
	if baseOf(ev.Args[0]).op == "new" && sg.Spawn == nil {
		r.pass("list", w, "a new mock gets its list")
		return
	}
	r.check(v.op == "makemap", "list", w, "the list is replaced by an empty one", ev.String())
	before, after := false, false
	for j, x := range sg.Evs {
		if x.Kind == "go" {
			if j < i {
				before = true
			} else {
				after = true
			}
		}
	}
	ok := sg.Spawn == nil && sg.It == nil && !before && (after || died(sg.End) || sg.End.Kind == "panic")
	r.checkL(ok, "list", w, "the list is replaced only where the mock is started, before anything runs", e.pathText(sg.Evs))
}

// number: the key moves forward with every use.
func (r *Report) number(e *Engine, engines []*Engine, sg *Seg, si int, key *Term) {
	w := e.whereSeg(sg, sg.Evs[si])
	p := e.p
	key = unconv(key)
	// a counter held in a variable of the loop
	if sg.It != nil {
		for t := range sg.Loop.Vars {
			if t.typ == nil || !isInteger(t.typ) || !p.Sub(key, t).isInt() {
				continue
			}
			ok := true
			for _, it := range sg.Loop.Iters {
				n := it.Next[t]
				if n == nil {
					n = t
				}
				d := p.Sub(n, t)
				least := int64(0)
				if it == sg.It {
					least = 1
				}
				if !e.entails(it.State, p.Sub(d, p.Int(least))) {
					ok = false
				}
			}
			r.checkL(ok, "number", w, "the counter moves forward with every client entered", func() []string {
				return append([]string{"key: " + key.String(), "counter: " + t.String()}, e.pathText(sg.Evs)()...)
			})
			return
		}
	}
	// an atomic counter
	for _, ev := range sg.Evs[:si] {
		if ev.Kind != "call" || !strings.Contains(ev.Name, "sync/atomic") || len(ev.Res) != 1 || !p.Sub(key, ev.Res[0]).isInt() {
			continue
		}
		if strings.Contains(ev.Name, "Add") && len(ev.Args) == 2 && ev.Args[1].isInt() && ev.Args[1].intVal() > 0 {
			a := ownField(ev.Args[0])
			ok := true
			for _, e2 := range engines {
				for _, s2 := range e2.segs() {
					for i, x := range s2.Evs {
						if x.Kind != "call" || !strings.Contains(x.Name, "sync/atomic") || len(x.Args) == 0 || ownField(x.Args[0]) != a || strings.Contains(x.Name, "Load") {
							continue
						}
						if strings.Contains(x.Name, "Add") && x.Args[1].isInt() && x.Args[1].intVal() > 0 {
							continue
						}
						if !startsAfter(s2, i) {
							ok = false
						}
					}
				}
			}
			r.check(ok && a != "", "number", w, "the counter only moves forward", ev.String())
			return
		}
	}
	// a counter held in a field
	for i, ld := range sg.Evs[:si] {
		if ld.Kind != "load" || ld.Args[0].op != "field" || !p.Sub(key, unconv(ld.Args[1])).isInt() || key.isInt() {
			continue
		}
		a := ld.Args[0].aux
		moved := false
		for j, st := range sg.Evs {
			if st.Kind == "store" && st.Args[0] == ld.Args[0] {
				d := p.Sub(st.Args[1], ld.Args[1])
				moved = moved || j > i && e.entails(sg.S, p.Sub(d, p.Int(1)))
			}
		}
		ok := true
		for _, e2 := range engines {
			for _, s2 := range e2.segs() {
				for k, x := range s2.Evs {
					if x.Kind != "store" || x.Args[0].op != "field" || x.Args[0].aux != a {
						continue
					}
					fwd := false
					for _, y := range s2.Evs[:k] {
						if y.Kind == "load" && y.Args[0] == x.Args[0] && e2.entails(s2.S, e2.p.Sub(x.Args[1], y.Args[1])) {
							fwd = s2.Spawn != nil && sg.Spawn != nil && s2.Spawn.Fn == sg.Spawn.Fn || len(section(s2.Evs, k, k)) > 0
						}
					}
					if !fwd && !startsAfter(s2, k) && baseOf(x.Args[0]).op != "new" {
						ok = false
					}
				}
			}
		}
		r.checkL(moved && ok, "number", w, "the counter moves forward with every client entered", func() []string {
			return append([]string{"key: " + key.String(), "counter: " + ld.String()}, e.pathText(sg.Evs)()...)
		})
		return
	}
	r.fail("number", w, "the number is not taken from a counter of this mock that moves forward: "+key.String(), e.pathText(sg.Evs)()...)
}

// startsAfter: the event is on the path that starts the mock, before anything runs.
func startsAfter(sg *Seg, i int) bool {
	if sg.Spawn != nil || sg.It != nil {
		return false
	}
	after := sg.End.Kind == "panic"
	for j, x := range sg.Evs {
		if x.Kind == "go" {
			if j < i {
				return false
			}
			after = true
		}
	}
	return after
}

// ---- C16 -------------------------------------------------------------------------

// wgOp: an operation on a wait group: its key, the change, and whether it waits.
func wgOp(ev *Event) (key string, delta int, wait, known bool) {
	if ev.Kind != "call" || !strings.HasPrefix(ev.Name, "(*sync.WaitGroup).") {
		return "", 0, false, true
	}
	a := ev.Args[0]
	key = a.String()
	if a.op == "field" && auxStruct(a.aux) == "KafkaMock" {
		key = a.aux
	}
	switch ev.Name {
	case "(*sync.WaitGroup).Add":
		if !ev.Args[1].isInt() {
			return key, 0, false, false
		}
		return key, int(ev.Args[1].intVal()), false, true
	case "(*sync.WaitGroup).Done":
		return key, -1, false, true
	case "(*sync.WaitGroup).Wait":
		return key, 0, true, true
	}
	return key, 0, false, ev.Name == "(*sync.WaitGroup).Go"
}

type lifeRun struct {
	r       *Report
	engines []*Engine
	e       *Engine // the start
	stopE   *Engine
	waitE   *Engine
	T       map[string]bool // wait groups a termination waits for
	direct  map[string]bool
	nets    map[*Event]map[string]int
	sr      *stopRules
	startWG map[string]bool
	started string // the flag that keeps the mock from being started twice
	lf      string // the listener
	lanef   string // the lane that is cancelled
	cancelf string // what cancels it
}

func (lr *lifeRun) root(m string) *Engine {
	fn := lr.r.pr.method("KafkaMock", m)
	for _, e := range lr.engines {
		if e.cfg.Fn == fn && fn != nil {
			return e
		}
	}
	lr.r.fail("analysis", "KafkaMock", "anchor lost: "+m)
	return nil
}

func returns(e *Engine) []*PathEnd {
	var out []*PathEnd
	for _, pe := range e.ends {
		if pe.Kind == "return" && pe.S.spawn == nil {
			out = append(out, pe)
		}
	}
	return out
}

// net: what a goroutine started by a go statement does to the wait groups in
// all: the same on every end.
func (lr *lifeRun) net(e *Engine, goEv *Event) map[string]int {
	if n, ok := lr.nets[goEv]; ok {
		return n
	}
	lr.nets[goEv] = map[string]int{}
	var out map[string]int
	for _, pe := range e.spawnedBy(goEv) {
		if died(pe) {
			continue
		}
		n := lr.sum(e, pe.Evs)
		if out == nil {
			out = n
			continue
		}
		for _, k := range keysOf(out, n) {
			if out[k] != n[k] {
				lr.r.fail("balance", shortFn(goEv.Fn), fmt.Sprintf("the goroutine changes a wait group by %d on one way to end and by %d on another", out[k], n[k]), "group: "+k, strings.Join(pathOf(e, pe.Evs), " "))
			}
		}
	}
	if out == nil {
		out = map[string]int{}
	}
	lr.nets[goEv] = out
	return out
}

func keysOf(ms ...map[string]int) []string {
	all := map[string]int{}
	for _, m := range ms {
		for k := range m {
			all[k] = 1
		}
	}
	return sortedKeys(all)
}

// sum: the changes along a path, those of the goroutines it starts included.
func (lr *lifeRun) sum(e *Engine, evs []*Event) map[string]int {
	out := map[string]int{}
	for _, ev := range evs {
		k, d, _, known := wgOp(ev)
		if !known {
			lr.r.fail("balance", shortFn(ev.Fn), "undecided: how far a wait group is changed", e.where(ev))
		}
		if k != "" {
			out[k] += d
		}
		if ev.Kind == "go" {
			for g, d := range lr.net(e, ev) {
				out[g] += d
			}
		}
	}
	return out
}

// uses: work on the store, a connection or a request.
func (r *Report) uses(e *Engine, ev *Event) bool {
	if c, _ := r.connWrite(ev); c != nil || r.connRead(ev) != nil || r.handlerCall(ev) || acquired(ev) != nil {
		return true
	}
	switch ev.Kind {
	case "go":
		return true
	case "loop":
		l := e.loops[ev.Name]
		return l == nil || !e.bounded(l)
	case "call":
		if m, x := method(ev); x != nil && r.pr.connType(x.typ) && m != "LocalAddr" && m != "RemoteAddr" && m != "String" {
			return true
		}
	case "load", "loadstruct", "store", "mapget", "mapset", "mapdel", "maplen", "maprange", "append":
		for _, a := range ev.Args {
			if r.pr.storeField(ownField(a)) {
				return true
			}
		}
	}
	return false
}

func checkC16(r *Report) {
	r.rule("balance", "on every path, what is added to a wait group is what the goroutines started on it, and the path itself, take off again, the same on every way they can end")
	r.rule("counted", "every goroutine that works on a connection, a listener or the store is counted in a wait group that a termination waits for, before it starts or in the critical section its discharge waits for, by someone who is counted himself")
	r.rule("last", "every way such a goroutine can end discharges it after its last use of the store and the connection")
	r.rule("waits", "every return of WaitForTermination has waited for the wait groups")
	r.rule("unstarted", "for a mock that is not started, waiting for termination and requesting a stop do nothing that can block or call what was never set")
	r.rule("stop", "a requested stop that is not an earlier one's repetition, on a started mock, waits for the start-up, then closes the listener and cancels the running work")
	r.rule("startup", "the start-up that is waited for ends after the listener was stored and before the first connection is accepted")
	r.rule("again", "a restart starts anew only after a stop was requested and everything was waited for, and finds the mock startable")
	r.assume = append(r.assume, "one goroutine controls the life cycle of a mock; a panic that nothing recovers ends the process")
	lr := &lifeRun{r: r, engines: r.allRoots(nil), nets: map[*Event]map[string]int{}}
	lr.e, lr.stopE, lr.waitE = lr.root("Start"), lr.root("RequestStop"), lr.root("WaitForTermination")
	if lr.e == nil || lr.stopE == nil || lr.waitE == nil {
		return
	}
	lr.fields()
	lr.terminates()
	for _, e := range lr.engines {
		lr.balance(e)
		lr.counts(e)
	}
	lr.stops()
	lr.again()
	r.need("balance", 5)
	r.need("counted", 2)
	r.need("last", 2)
	r.need("waits", 1)
	r.need("unstarted", 2)
	r.need("stop", 2)
	r.need("startup", 1)
	r.need("again", 2)
}

// fields finds the parts of the mock the rules speak of.
func (lr *lifeRun) fields() {
	r := lr.r
	lr.sr = &stopRules{r: r, e: lr.stopE, start: lr.e}
	for _, pe := range lr.e.ends {
		if pe.S.spawn != nil {
			continue
		}
		if pe.Kind == "panic" {
			for _, ev := range pe.Evs {
				if a, was := lr.e.flagRead(pe.S, ev); a != "" && was == 1 {
					lr.started = a
				}
			}
		}
	}
	lr.lanef, lr.cancelf = lr.e.cancelPair(r)
	for _, ev := range lr.e.evlist {
		if ev.Kind == "store" && ev.Args[0].op == "field" && auxStruct(ev.Args[0].aux) == "KafkaMock" {
			if v := baseVal(ev.Args[1]); v.op == "res" && v.typ != nil && isListener(v.typ) {
				lr.lf = ev.Args[0].aux
			}
		}
	}
	r.check(lr.lf != "", "stop", "Start", "the listener is kept in the mock")
	r.check(lr.lanef != "" && lr.cancelf != "", "stop", "Start", "the work's lane and what cancels it are kept in the mock")
}

// cancelPair: the fields Start keeps a cancellable lane and its cancel function in.
func (e *Engine) cancelPair(r *Report) (lanef, cancelf string) {
	for _, pe := range returns(e) {
		for _, d := range pe.Evs {
			if d.Kind != "call" || !strings.Contains(d.Name, "WithCancel") && !strings.Contains(d.Name, "WithTimeout") && !strings.Contains(d.Name, "WithDeadline") || len(d.Res) != 2 {
				continue
			}
			lanef, cancelf = "", ""
			for _, st := range pe.Evs {
				if st.Kind == "store" && st.Args[0].op == "field" && auxStruct(st.Args[0].aux) == "KafkaMock" {
					if st.Args[1] == d.Res[0] {
						lanef = st.Args[0].aux
					}
					if st.Args[1] == d.Res[1] {
						cancelf = st.Args[0].aux
					}
				}
			}
		}
	}
	if lanef == "" || cancelf == "" {
		return
	}
	// the last stores of every start keep the two together
	for _, pe := range returns(e) {
		var l, c *Term
		for _, st := range pe.Evs {
			if st.Kind == "store" && st.Args[0].op == "field" {
				switch st.Args[0].aux {
				case lanef:
					l = st.Args[1]
				case cancelf:
					c = st.Args[1]
				}
			}
		}
		ok := false
		for _, d := range pe.Evs {
			if d.Kind == "call" && len(d.Res) == 2 && strings.Contains(d.Name, "With") && d.Res[0] == l && d.Res[1] == c && l != nil {
				ok = true
			}
		}
		if !ok {
			return "", ""
		}
	}
	// and nothing else changes either
	for _, sg := range e.segs() {
		if sg.Spawn == nil && sg.It == nil {
			continue
		}
		for _, st := range sg.Evs {
			if st.Kind == "store" && st.Args[0].op == "field" && (st.Args[0].aux == lanef || st.Args[0].aux == cancelf) {
				return "", ""
			}
		}
	}
	return
}

// terminates finds the wait groups a termination waits for.
func (lr *lifeRun) terminates() {
	r := lr.r
	for n, pe := range returns(lr.waitE) {
		w := map[string]bool{}
		for _, ev := range pe.Evs {
			if k, _, wait, _ := wgOp(ev); wait && k != "" {
				w[k] = true
			}
		}
		if n == 0 {
			lr.direct = w
			continue
		}
		for k := range lr.direct {
			if !w[k] {
				delete(lr.direct, k)
			}
		}
	}
	lr.T = map[string]bool{}
	for k := range lr.direct {
		lr.T[k] = true
	}
	r.check(len(lr.T) > 0, "waits", shortFn(lr.waitE.cfg.Fn), "every return has waited for a wait group")
	// groups that someone counted waits for before he is discharged
	for again := true; again; {
		again = false
		cand := map[string]int{}
		seen := map[*Event]bool{}
		for _, pe := range lr.e.ends {
			if pe.S.spawn == nil || seen[pe.S.spawn.Ev] {
				continue
			}
			seen[pe.S.spawn.Ev] = true
			var all map[string]bool
			for _, x := range lr.e.spawnedBy(pe.S.spawn.Ev) {
				if died(x) {
					continue
				}
				w := map[string]bool{}
				done := false
				for _, ev := range x.Evs {
					k, d, wait, _ := wgOp(ev)
					if wait && !done {
						w[k] = true
					}
					if d < 0 && lr.T[k] {
						done = true
					}
				}
				if !done {
					w = nil
				}
				if all == nil {
					all = w
					if all == nil {
						all = map[string]bool{}
					}
				}
				for k := range all {
					if !w[k] {
						delete(all, k)
					}
				}
			}
			for k := range all {
				cand[k]++
			}
		}
		for k := range cand {
			if !lr.T[k] {
				lr.T[k], again = true, true
			}
		}
	}
}

func (lr *lifeRun) balance(e *Engine) {
	for _, sg := range e.segs() {
		if sg.End != nil && (died(sg.End) || sg.Spawn != nil) {
			if !died(sg.End) {
				lr.net(e, sg.Spawn.Ev)
			}
			continue
		}
		n := lr.sum(e, sg.Evs)
		for _, k := range keysOf(n) {
			lr.r.checkL(n[k] == 0, "balance", e.whereSeg(sg, nil), fmt.Sprintf("wait group %s comes out even, not at %+d", k, n[k]), e.pathText(sg.Evs))
		}
	}
}

func (lr *lifeRun) counts(e *Engine) {
	r := lr.r
	for _, sg := range e.segs() {
		if sg.End != nil && died(sg.End) {
			continue
		}
		for gi, g := range sg.Evs {
			if g.Kind != "go" {
				continue
			}
			ends := e.spawnedBy(g)
			work := len(ends) == 0
			for _, pe := range ends {
				for _, ev := range pe.Evs {
					if r.uses(e, ev) {
						work = true
					}
				}
			}
			if !work {
				continue
			}
			w := e.whereSeg(sg, g)
			why := "no wait group that a termination waits for is added to before it"
			good := ""
			for _, k := range sortedKeys(lr.T) {
				if lr.net(e, g)[k] >= 0 {
					continue
				}
				if !lr.inTime(e, sg, g, gi, k) {
					continue
				}
				if sg.Spawn != nil && !lr.countedStarter(e, sg, k) {
					why = "the goroutine that starts it is not counted in the same wait group"
					continue
				}
				if s := lr.lastUse(e, g, k); s != "" {
					why = "it is discharged before " + s
					continue
				}
				good = k
				break
			}
			for _, k := range sortedKeys(lr.net(e, g)) {
				if lr.net(e, g)[k] < 0 && !lr.inTime(e, sg, g, gi, k) {
					r.fail("counted", w, "the goroutine may be discharged from a wait group before it is added to it: "+k, e.pathText(sg.Evs)()...)
				}
			}
			rule := "counted"
			if strings.HasPrefix(why, "it is discharged") {
				rule = "last"
			}
			if r.checkL(good != "", rule, w, "the goroutine is counted: "+why, e.pathText(sg.Evs)) {
				r.pass("last", w, "the goroutine is discharged after its last use of the store and the connection")
			}
		}
	}
}

// inTime: is the wait group added to for the goroutine before it can be
// discharged?
func (lr *lifeRun) inTime(e *Engine, sg *Seg, g *Event, gi int, k string) bool {
	n := 0
	for i, ev := range sg.Evs {
		if i < gi {
			if ev.Kind == "go" {
				n += lr.net(e, ev)[k]
			}
			if kk, d, _, _ := wgOp(ev); kk == k {
				n += d
			}
			continue
		}
		if kk, d, _, _ := wgOp(ev); kk == k && d > 0 && lr.sharedSection(e, sg, g, gi, i, k) {
			n += d
		}
	}
	return n >= -lr.net(e, g)[k]
}

// sharedSection: the addition after the start is under a lock that the
// discharge is made under as well.
func (lr *lifeRun) sharedSection(e *Engine, sg *Seg, g *Event, gi, i int, k string) bool {
	for _, m := range section(sg.Evs, gi, i) {
		ok := true
		for _, pe := range e.spawnedBy(g) {
			if died(pe) {
				continue
			}
			for j, ev := range pe.Evs {
				if kk, d, _, _ := wgOp(ev); kk == k && d < 0 && heldAt(pe.Evs, j)[m] == nil {
					ok = false
				}
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func (lr *lifeRun) countedStarter(e *Engine, sg *Seg, k string) bool {
	if lr.net(e, sg.Spawn.Ev)[k] < 0 {
		return true
	}
	n := 0
	for _, pe := range e.spawnedBy(sg.Spawn.Ev) {
		if died(pe) {
			continue
		}
		n++
		waited := false
		for _, ev := range pe.Evs {
			if kk, _, wait, _ := wgOp(ev); wait && kk == k {
				waited = true
			} else if waited && ev.Kind == "loop" {
				waited = false
			}
		}
		if !waited {
			return false
		}
	}
	return n > 0
}

// lastUse: something used after the discharge, "" if there is nothing.
func (lr *lifeRun) lastUse(e *Engine, g *Event, k string) string {
	for _, pe := range e.spawnedBy(g) {
		if died(pe) {
			continue
		}
		done := false
		for _, ev := range pe.Evs {
			if kk, d, _, _ := wgOp(ev); kk == k && d < 0 {
				done = true
			}
			if done && lr.r.uses(e, ev) {
				return ev.String()
			}
		}
	}
	return ""
}

// cancels: is what cancels the work called?
func (lr *lifeRun) cancels(ev *Event) bool {
	return ev.Kind == "call" && ev.Name == "dynamic" && len(ev.Args) > 0 && lr.cancelf != "" && ownField(ev.Args[0]) == lr.cancelf
}

func (lr *lifeRun) stops() {
	r := lr.r
	// the wait group of the start-up: taken off by a goroutine before it accepts
	lr.startWG = map[string]bool{}
	for _, sg := range lr.e.segs() {
		if sg.End == nil || sg.Spawn != nil || sg.End.Kind != "return" {
			continue
		}
		for _, g := range sg.Evs {
			if g.Kind != "go" {
				continue
			}
			for k, d := range lr.net(lr.e, g) {
				if d < 0 && !lr.T[k] && lr.startup(g, k) {
					lr.startWG[k] = true
				}
			}
		}
	}
	w := shortFn(lr.stopE.cfg.Fn)
	r.check(len(lr.startWG) > 0, "startup", w, "there is a wait group for the start-up, discharged once the listener is kept and before connections are accepted")
	for _, pe := range returns(lr.stopE) {
		if why := lr.sr.skipped(pe); why != "" {
			r.pass("stop", w, "nothing to do: "+why)
			continue
		}
		ready, closed, cancelled := -1, false, false
		for i, ev := range pe.Evs {
			if k, _, wait, _ := wgOp(ev); wait && lr.startWG[k] && ready < 0 {
				ready = i
			}
			if lr.cancels(ev) && ready >= 0 {
				cancelled = true
			}
		}
		r.checkL(ready >= 0, "stop", w, "it waits for the start-up", lr.stopE.pathText(pe.Evs))
		if ready >= 0 {
			closed = lr.sr.closedListener(&PathEnd{S: pe.S, Kind: pe.Kind, Evs: pe.Evs[ready:]}, lr.lf)
		}
		r.checkL(closed, "stop", w, "it closes the listener after that", lr.stopE.pathText(pe.Evs))
		r.checkL(cancelled, "stop", w, "it cancels the running work", lr.stopE.pathText(pe.Evs))
	}
	// nothing that was never set is called; nothing else blocks
	for _, e := range []*Engine{lr.stopE, lr.waitE, lr.root("FinishRequests")} {
		if e == nil {
			continue
		}
		w := shortFn(e.cfg.Fn)
		for _, pe := range returns(e) {
			running := false
			for i, ev := range pe.Evs {
				if a, was := e.flagRead(pe.S, ev); a == lr.started && a != "" && was == 1 {
					running = true
				}
				if ev.Kind == "call" && ev.Name == "dynamic" && len(ev.Args) > 0 {
					f := ev.Args[0]
					r.checkL(running || e.nilness(pe.S, f) < 0, "unstarted", w, "a function kept in the mock is called only if the mock was started or it is known to be set", e.pathText(pe.Evs[:i+1]))
					continue
				}
				if running {
					continue
				}
				if ev.Kind == "call" {
					k, _, wait, _ := wgOp(ev)
					if wait {
						r.check(lr.T[k] || lr.startWG[k] || strings.HasPrefix(k, "KafkaMock"), "unstarted", w, "a wait is for a wait group of the mock", e.where(ev))
						continue
					}
					m, x := method(ev)
					if m == "Close" && x != nil && ownField(x) == lr.lf {
						r.checkL(e.nilness(pe.S, x) < 0, "unstarted", w, "the listener is closed only if there is one", e.pathText(pe.Evs[:i+1]))
					}
					if blockingCall(ev.Name) {
						r.fail("unstarted", w, "it may block though the mock is not started: "+ev.Name, e.where(ev))
					}
				}
				if ev.Kind == "recv" || ev.Kind == "send" || ev.Kind == "selectwait" {
					r.fail("unstarted", w, "it may block though the mock is not started", e.where(ev))
				}
			}
			r.pass("unstarted", w, "a path without anything to stop")
		}
	}
}

// startup: is the group taken off after the listener is kept and before the
// first connection is accepted?
func (lr *lifeRun) startup(g *Event, k string) bool {
	n := 0
	for _, pe := range lr.e.spawnedBy(g) {
		if died(pe) {
			continue
		}
		kept, done := -1, -1
		for i, ev := range pe.Evs {
			if ev.Kind == "store" && ev.Args[0].op == "field" && ev.Args[0].aux == lr.lf && lr.lf != "" && !ev.Args[1].isNil() {
				kept = i
			}
			if kk, d, _, _ := wgOp(ev); kk == k && d < 0 {
				if done < 0 {
					done = i
				}
			}
			m, _ := method(ev)
			if (m == "Accept" || m == "AcceptTCP") && done < 0 {
				return false
			}
			if ev.Kind == "loop" && done < 0 {
				if l := lr.e.loops[ev.Name]; l == nil || !lr.e.bounded(l) {
					return false
				}
			}
		}
		if kept < 0 || done < kept {
			return false
		}
		n++
	}
	return n > 0
}

func (lr *lifeRun) again() {
	r := lr.r
	e := lr.root("Restart")
	if e == nil {
		return
	}
	w := shortFn(e.cfg.Fn)
	sr := &stopRules{r: r, e: e, start: lr.e}
	for _, pe := range returns(e) {
		first := -1
		for i, ev := range pe.Evs {
			if ev.Kind == "go" {
				first = i
				break
			}
		}
		if !r.checkL(first >= 0, "again", w, "a restart starts the mock", e.pathText(pe.Evs)) {
			continue
		}
		for k := range lr.direct {
			at := -1
			for i, ev := range pe.Evs[:first] {
				if kk, _, wait, _ := wgOp(ev); wait && kk == k {
					at = i
				}
			}
			if !r.checkL(at >= 0, "again", w, "everything is waited for before the mock is started again", e.pathText(pe.Evs)) {
				continue
			}
			pre := &PathEnd{S: pe.S, Kind: pe.Kind, Evs: pe.Evs[:at]}
			cancelled := false
			for _, ev := range pre.Evs {
				cancelled = cancelled || lr.cancels(ev)
			}
			r.checkL(sr.skipped(pre) != "" || cancelled && sr.closedListener(pre, lr.lf), "again", w, "a stop is requested before everything is waited for", e.pathText(pe.Evs))
		}
	}
	// it is startable: what refuses a second start is taken back before the discharge
	if lr.started != "" {
		for _, pe := range lr.e.ends {
			if pe.S.spawn == nil || died(pe) {
				continue
			}
			if pe.S.spawn.State == nil || pe.S.spawn.State.spawn != nil {
				continue // started by a goroutine
			}
			cleared, ok, any := false, true, false
			for _, ev := range pe.Evs {
				if a, v := flagSet(ev); a == lr.started {
					cleared = v == 0
				}
				if kk, d, _, _ := wgOp(ev); d < 0 && lr.direct[kk] {
					any = true
					if !cleared {
						ok = false
					}
				}
			}
			if any {
				r.checkL(ok, "again", shortFn(pe.S.spawn.Fn), "the mock is startable again before the server's end is made known", lr.e.pathText(pe.Evs))
			}
		}
	}
}

var _ = ssa.NaiveForm
