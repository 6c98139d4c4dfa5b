package main

// Shutdown (C18) and what mocks share (C22).

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C18 -------------------------------------------------------------------------

// mineLane: is this the lane that a stop cancels, or one derived from it?
func (e *Engine) mineLane(evs []*Event, t *Term, lanef string, d int) bool {
	t = baseVal(t)
	if ownField(t) == lanef && lanef != "" {
		return true
	}
	for _, ev := range e.evlist {
		if ev.Kind != "call" {
			continue
		}
		for i, x := range ev.Res {
			if x != t {
				continue
			}
			if ev.Name != "dynamic" && strings.Contains(ev.Name, "Derive") && len(ev.Args) > 0 {
				if d < 4 && e.mineLane(evs, ev.Args[0], lanef, d+1) {
					return true
				}
				// the one that Start keeps
				for _, st := range e.evlist {
					if i == 0 && st.Kind == "store" && st.Args[0].op == "field" && st.Args[0].aux == lanef && st.Args[1] == t {
						return true
					}
				}
			}
		}
	}
	return false
}

// lookAt: 1 if this event finds the mock's shutdown signal set, -1 if it finds
// it not set, 0 if it does not look at it.
func (e *Engine) lookAt(s *State, ev *Event, lanef string) int {
	mine := func(c *Term) bool { return isDone(c) && e.mineLane(nil, c.args[0], lanef, 0) }
	switch ev.Kind {
	case "select", "selectwait":
		for i, c := range ev.Args {
			if mine(c) {
				if ev.Name == fmt.Sprint(i) {
					return 1
				}
				return -1
			}
		}
	case "recv":
		if len(ev.Args) > 0 && mine(ev.Args[0]) {
			return 1
		}
	case "call":
		if strings.HasSuffix(ev.Name, ".Err") && len(ev.Args) > 0 && e.mineLane(nil, ev.Args[0], lanef, 0) {
			return e.stopped(s, []*Event{ev})
		}
	}
	return 0
}

type stopRun struct {
	r       *Report
	lanef   string
	cancelf string
	max     int64
}

// told: a stop or finish request cancels the work.
func (sr *stopRun) told(e, start *Engine) {
	r := sr.r
	fn := e.cfg.Fn
	if fn != r.pr.method("KafkaMock", "FinishRequests") && fn != r.pr.method("KafkaMock", "RequestStop") {
		return
	}
	st := &stopRules{r: r, e: e, start: start}
	for _, pe := range returns(e) {
		ok := st.skipped(pe) != ""
		for _, ev := range pe.Evs {
			if ev.Kind == "call" && ev.Name == "dynamic" && len(ev.Args) > 0 && ownField(ev.Args[0]) == sr.cancelf {
				ok = true
			}
			if ev.Kind == "load" && ev.Args[0].op == "field" && ev.Args[0].aux == sr.cancelf && e.nilness(pe.S, ev.Args[1]) > 0 {
				ok = true
			}
		}
		r.checkL(ok, "told", shortFn(fn), "the running work is cancelled", e.pathText(pe.Evs))
	}
}

func checkC18(r *Report) {
	r.rule("told", "a request to finish, and a request to stop that is not a repetition, calls what cancels the lane of this mock, unless there is none yet; and every connection is served with that lane")
	r.rule("look", "before every read of a connection, and after the read before it, the shutdown signal of this mock is looked at and found not set")
	r.rule("deadline", "before every read of a connection, and after the read before it, a read deadline is set on it: the present time, taken after the read before, and a fixed time of at most 5 seconds")
	r.rule("leave", "a connection's goroutine that has found the signal set reads no more and goes round no more, and a connection accepted with the signal set is not served")
	r.rule("round", "every round of a loop that may go round for ever and blocks or sleeps has looked at the signal, accepted a connection, or taken a request off the bytes received")
	r.rule("closed", "an accept loop goes round after a failed accept only if the failure is known not to be a closed socket, and panics only then")
	start := r.pr.method("KafkaMock", "Start")
	engines := r.allRoots(nil)
	sr := &stopRun{r: r, max: 5e9}
	for _, e := range engines {
		if e.cfg.Fn == start && start != nil {
			sr.lanef, sr.cancelf = e.cancelPair(r)
		}
	}
	if sr.lanef == "" {
		r.fail("look", "Start", "undecided: the mock does not keep a lane and what cancels it")
		return
	}
	var startE *Engine
	for _, e := range engines {
		if e.cfg.Fn == start {
			startE = e
		}
	}
	for _, e := range engines {
		sr.told(e, startE)
		sps := serveSpawns(r, e)
		for _, ev := range e.evlist {
			if ev.Kind == "store" && ev.Args[0].op == "field" && auxStruct(ev.Args[0].aux) == "kafkaClient" && laneOf(ev.Args[1]) {
				r.check(e.mineLane(nil, ev.Args[1], sr.lanef, 0), "told", shortFn(ev.Fn), "what serves a connection is given the lane that a stop cancels", ev.String(), e.where(ev))
			}
		}
		for _, sg := range e.segs() {
			if sg.End != nil && sg.End.Kind == "panic" {
				for _, ev := range sg.Evs {
					if m, _ := method(ev); (m == "Accept" || m == "AcceptTCP") && len(ev.Res) == 2 && acquired(ev) == nil {
						r.checkL(e.ruledOutErr(sg.S, ev.Res[1], "net.ErrClosed", -1), "closed", e.whereSeg(sg, ev), "an accept that fails because the socket was closed does not bring the process down", e.pathText(sg.Evs))
					}
				}
			}
			if sg.End != nil && died(sg.End) {
				continue
			}
			sr.reads(e, sg)
			sr.leaves(e, sg, sps)
			sr.rounds(e, sg)
		}
	}
	r.need("told", 3)
	r.need("look", 1)
	r.need("deadline", 1)
	r.need("leave", 2)
	r.need("round", 3)
	r.need("closed", 1)
}

// back: the events before the i-th that belong to the same stretch of a path:
// since the start of the iteration or the read before.
func (sr *stopRun) back(e *Engine, sg *Seg, i int) []*Event {
	c := sr.r.connRead(sg.Evs[i])
	for j := i - 1; j >= 0; j-- {
		if ev := sg.Evs[j]; sr.r.connRead(ev) == c || ev.Kind == "loop" || ev.Kind == "loopend" {
			return sg.Evs[j+1 : i]
		}
	}
	return sg.Evs[:i]
}

func (sr *stopRun) reads(e *Engine, sg *Seg) {
	r := sr.r
	for i, ev := range sg.Evs {
		c := r.connRead(ev)
		if c == nil {
			continue
		}
		w := e.whereSeg(sg, ev)
		seg := sr.back(e, sg, i)
		r.checkL(sr.looked(e, sg.S, seg) || sr.carried(e, sg, i, sr.looked), "look", w, "the shutdown signal is looked at before a read", e.pathText(sg.Evs[:i+1]))
		r.checkL(sr.deadlined(e, sg.S, seg, c) || sr.carried(e, sg, i, func(e *Engine, s *State, evs []*Event) bool { return sr.deadlined(e, s, evs, c) }), "deadline", w, "a read carries a fresh deadline", e.pathText(sg.Evs[:i+1]))
	}
}

// carried: what is asked for before the first read of a round was done at the
// end of every round before it, and before the loop.
func (sr *stopRun) carried(e *Engine, sg *Seg, i int, q func(*Engine, *State, []*Event) bool) bool {
	if sg.It == nil {
		return false
	}
	for _, ev := range sg.Evs[:i] {
		if sr.r.connRead(ev) != nil || ev.Kind == "loop" {
			return false
		}
	}
	tail := func(evs []*Event) []*Event {
		for j := len(evs) - 1; j >= 0; j-- {
			if sr.r.connRead(evs[j]) != nil || evs[j].Kind == "loop" || evs[j].Kind == "loopend" {
				return evs[j+1:]
			}
		}
		return evs
	}
	for _, it := range sg.Loop.Iters {
		if it.CtlOut == sg.It.CtlIn && !q(e, it.State, tail(it.Evs)) {
			return false
		}
	}
	n := 0
	for _, s2 := range e.segs() {
		for j, ev := range s2.Evs {
			if ev.Kind == "loop" && ev.Name == sg.Loop.Key {
				n++
				if !q(e, s2.S, tail(s2.Evs[:j])) {
					return false
				}
			}
		}
	}
	return n > 0
}

func (sr *stopRun) looked(e *Engine, s *State, evs []*Event) bool {
	for _, ev := range evs {
		if e.lookAt(s, ev, sr.lanef) < 0 {
			return true
		}
	}
	return false
}

func (sr *stopRun) deadlined(e *Engine, s *State, evs []*Event, c *Term) bool {
	now := map[*Term]bool{}
	ok := false
	for _, ev := range evs {
		if ev.Kind != "call" {
			continue
		}
		if ev.Name == "time.Now" && len(ev.Res) == 1 {
			now[ev.Res[0]] = true
		}
		m, x := method(ev)
		if (m == "SetReadDeadline" || m == "SetDeadline") && x == c && len(ev.Args) == 2 {
			t := ev.Args[1]
			d := int64(0)
			for t.op == "call" && t.aux == "(time.Time).Add" && len(t.args) == 2 && t.args[1].isInt() {
				d += t.args[1].intVal()
				t = t.args[0]
			}
			ok = now[t] && d > 0 && d <= sr.max
		}
	}
	return ok
}

func (sr *stopRun) leaves(e *Engine, sg *Seg, sps map[*Event]*Term) {
	r := sr.r
	set := -1
	for i, ev := range sg.Evs {
		if e.lookAt(sg.S, ev, sr.lanef) > 0 {
			set = i
			break
		}
	}
	if set < 0 {
		return
	}
	w := e.whereSeg(sg, sg.Evs[set])
	for _, ev := range sg.Evs[set:] {
		if r.connRead(ev) != nil {
			r.fail("leave", w, "a connection is read though the signal was found set", e.where(ev))
		}
		if sps[ev] != nil {
			r.fail("leave", w, "a connection is served though the signal was found set", e.where(ev))
		}
	}
	if sg.It != nil && sg.Spawn != nil && sps[sg.Spawn.Ev] != nil {
		again := false
		for _, it := range sg.Loop.Iters {
			again = again || it.CtlIn == sg.It.CtlOut
		}
		r.checkL(!again, "leave", w, "the goroutine of a connection goes round no more once it found the signal set", e.pathText(sg.Evs))
	}
	r.pass("leave", w, "the signal found set ends the work")
}

// blocks: does the event wait for something outside this goroutine?
func blocks(ev *Event) bool {
	switch ev.Kind {
	case "recv", "send", "selectwait":
		return true
	case "call":
		return blockingCall(ev.Name)
	}
	return false
}

func (sr *stopRun) rounds(e *Engine, sg *Seg) {
	r := sr.r
	if sg.It == nil {
		return
	}
	l, it := sg.Loop, sg.It
	w := e.whereSeg(sg, nil)
	if e.bounded(l) {
		r.pass("round", w, "loop "+l.Key+" walks a fixed range")
		return
	}
	blocking := false
	look := 0
	taken, accepted := false, false
	for _, ev := range append(append([]*Event{}, it.Evs...), flat(e, it.Evs)...) {
		blocking = blocking || blocks(ev)
		if x := e.lookAt(it.State, ev, sr.lanef); x != 0 {
			look = x
		}
		if ev.Kind == "newreader" && frameOf(ev.Res[0]) != nil {
			taken = true
		}
		if m, _ := method(ev); (m == "Accept" || m == "AcceptTCP") && len(ev.Res) == 2 {
			if acquired(ev) != nil {
				accepted = true
				continue
			}
			r.checkL(e.notClosed(it, ev.Res[1]), "closed", w, "an accept loop goes on only if the socket was not closed", e.pathText(it.Evs))
		}
	}
	if !blocking {
		r.pass("round", w, "a round of loop "+l.Key+" that does not wait")
		return
	}
	if e.handlerLane(r) {
		// a request's own waiting: the lane it is given is the connection's
		for _, ev := range append(append([]*Event{}, it.Evs...), flat(e, it.Evs)...) {
			if x := e.stopped(it.State, []*Event{ev}); x != 0 {
				look = x
			}
		}
		if !taken && look == 0 && grows(e, it) {
			taken = true
		}
	}
	r.checkL(look != 0 || accepted || taken, "round", w, "a round that blocks or sleeps looks at the signal or makes headway", e.pathText(it.Evs))
	if look == 0 && !accepted && taken {
		// headway lasts only as long as there are bytes: a read looks again
		r.pass("round", w, "a round that takes a request off the bytes received")
	}
	// a failed accept
	seen := false
	for _, ev := range it.Evs {
		if m, _ := method(ev); m == "Accept" || m == "AcceptTCP" {
			seen = true
		}
	}
	if seen {
		r.pass("closed", w, "an accept loop's rounds are judged")
	}
}

// flat: the events of all loops inside a stretch of a path.
func flat(e *Engine, evs []*Event) []*Event {
	var out []*Event
	for _, it := range e.along(evs) {
		out = append(out, it.Evs...)
	}
	return out
}

// handlerLane: is this root a request handler, which is given its connection?
func (e *Engine) handlerLane(r *Report) bool {
	for _, f := range r.pr.handlerFuncs() {
		if e.cfg.Fn == f {
			return true
		}
	}
	return false
}

// grows: does the round add a message to what will be answered?
func grows(e *Engine, it *Iter) bool {
	for _, ev := range append(append([]*Event{}, it.Evs...), flat(e, it.Evs)...) {
		if ev.Kind == "append" && len(ev.Args) == 2 && ev.Args[1].typ != nil {
			if sl, ok := ev.Args[1].typ.Underlying().(*types.Slice); ok && strings.Contains(typeKey(sl.Elem()), "message") {
				return true
			}
		}
	}
	return false
}

// notClosed: is the error known not to be that of a closed socket?
func (e *Engine) notClosed(it *Iter, err *Term) bool {
	for _, ev := range it.Evs {
		if ev.Kind == "call" && ev.Name == "errors.Is" && len(ev.Args) == 2 && ev.Args[0] == err && ev.Args[1].op == "gval" && strings.HasSuffix(ev.Args[1].aux, "net.ErrClosed") {
			if k, v := e.eval(it.State, ev.Res[0]); k && !v {
				return true
			}
		}
	}
	return false
}

// ---- C22 -------------------------------------------------------------------------

// ownGlobal: the variable of this package that a value or address is rooted in.
func (pr *Program) ownGlobal(t *Term) *Term {
	for d := 0; t != nil && d < 20; d++ {
		if t.op == "global" || t.op == "gval" {
			if strings.HasPrefix(t.aux, pr.pkg.Pkg.Path()+".") {
				return t
			}
			return nil
		}
		switch t.op {
		case "field", "index", "slice", "fld", "deref", "elem", "mapval", "assert", "iface", "conv", "append", "concat", "snap":
			if len(t.args) == 0 {
				return nil
			}
			t = t.args[0]
			continue
		}
		return nil
	}
	return nil
}

// inGlobal: a variable of this package anywhere in the value.
func (pr *Program) inGlobal(t *Term) *Term {
	seen := map[*Term]bool{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t == nil || seen[t] {
			return nil
		}
		seen[t] = true
		if (t.op == "global" || t.op == "gval") && strings.HasPrefix(t.aux, pr.pkg.Pkg.Path()+".") {
			return t
		}
		for _, a := range t.args {
			if g := rec(a); g != nil {
				return g
			}
		}
		return nil
	}
	return rec(t)
}

// refs: could memory be shared through a value of this type?
func refs(t types.Type, d int) bool {
	if t == nil || d > 6 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refs(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return refs(u.Elem(), d+1)
	case *types.Signature:
		return false
	}
	return true
}

type gWrite struct {
	e    *Engine
	ev   *Event
	g    *Term
	lock string // a mutex of the package held
	once bool
	free bool // known not built yet
	when string
}

func checkC22(r *Report) {
	r.rule("global", "a variable of the package, and memory reached through one, is written only while a mock is being constructed, under a lock of the package, on a path that has found under that lock that it was not built yet (or inside a once); nothing else that runs writes there")
	r.rule("built", "every mock that is handed out has either found the package's tables built, under the lock they are built under, or built them itself")
	r.rule("fresh", "the store of a mock is made for that mock alone, is given to it when it is constructed and never replaced; nothing kept in it is memory of a package variable")
	r.rule("client", "a connection's client works on the store of the mock that accepted it")
	r.rule("kept", "starting, stopping and restarting, and the goroutines that serve, change nothing in the store outside request handlers")
	T := r.pr.typ("KafkaMock")
	SF, CF := "", ""
	for _, n := range []string{"KafkaMock", "kafkaClient"} {
		X := r.pr.typ(n)
		if X == nil || structOf(X) == nil {
			r.fail("fresh", n, "anchor lost: the type")
			return
		}
		for i := 0; i < structOf(X).NumFields(); i++ {
			if typeKey(structOf(X).Field(i).Type()) == "*kafkamock.kafkaDataStore" {
				if n == "KafkaMock" {
					SF = fieldAux(X, i)
				} else {
					CF = fieldAux(X, i)
				}
			}
		}
	}
	if SF == "" || CF == "" || T == nil {
		r.fail("fresh", "KafkaMock", "anchor lost: the store of a mock and of a client")
		return
	}
	var writes []*gWrite
	guards := map[string]bool{}
	hook := func(e *Engine, s *State, ev *Event) {
		ws := r.globalWrites(e, s, ev)
		writes = append(writes, ws...)
	}
	engines := r.allRoots(hook)
	ctor := map[*ssa.Function]bool{}
	for _, e := range engines {
		f := e.cfg.Fn
		rs := f.Signature.Results()
		if f.Signature.Recv() == nil && rs.Len() > 0 {
			for i := 0; i < rs.Len(); i++ {
				if typeKey(rs.At(i).Type()) == "*kafkamock.KafkaMock" {
					ctor[f] = true
				}
			}
		}
	}
	if len(ctor) == 0 {
		r.fail("built", "KafkaMock", "anchor lost: what constructs a mock")
		return
	}
	// writes to the package's variables
	built := map[*Engine]map[string]bool{} // lock -> something is built under it
	seen := map[string]bool{}
	for _, w := range writes {
		k := fmt.Sprintf("%d|%v|%s|%v|%v", w.ev.id, w.e.cfg.Name, w.lock, w.once, w.free)
		if seen[k] {
			continue
		}
		seen[k] = true
		where := shortFn(w.ev.Fn)
		name := strings.TrimPrefix(w.g.aux, r.pr.pkg.Pkg.Path()+".")
		if !r.check(ctor[w.e.cfg.Fn] && w.when == "", "global", where, "package variable "+name+" is written only while a mock is constructed", w.e.where(w.ev), w.ev.String(), "in "+w.e.cfg.Name) {
			continue
		}
		ok := w.once || w.lock != "" && w.free
		r.check(ok, "global", where, "package variable "+name+" is written under a lock, by the one who found it not built", w.e.where(w.ev), w.ev.String(), "lock: "+w.lock)
		if ok {
			if built[w.e] == nil {
				built[w.e] = map[string]bool{}
			}
			built[w.e][w.lock] = true
		}
	}
	_ = guards
	for _, e := range engines {
		if ctor[e.cfg.Fn] {
			r.constructor(e, SF, built[e])
		}
		f := e.cfg.Fn
		life := f.Signature.Recv() != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 0
		for _, ev := range e.evlist {
			switch ev.Kind {
			case "store":
				a := ev.Args[0]
				if a.op == "field" && a.aux == SF && !ctor[f] {
					r.fail("fresh", shortFn(ev.Fn), "the store of a mock is replaced", e.where(ev))
				}
				if a.op == "field" && a.aux == CF {
					v := ev.Args[1]
					r.check(ownField(v) == SF, "client", shortFn(ev.Fn), "a client is given the store of its mock", ev.String(), e.where(ev))
				}
				if a.op == "field" && r.pr.storeField(a.aux) {
					r.keptIn(e, ev, ev.Args[1])
				}
			case "mapset":
				if r.pr.storeField(ownField(ev.Args[0])) {
					r.keptIn(e, ev, ev.Args[2])
				}
			}
			if life {
				if wr := r.storeWrite(ev); wr != "" {
					r.fail("kept", shortFn(ev.Fn), "the life cycle changes the store: "+wr, e.where(ev), "in "+e.cfg.Name)
				}
			}
		}
		if life {
			r.pass("kept", shortFn(f), "no write to the store")
		}
	}
	r.need("global", 2)
	r.need("built", 1)
	r.need("fresh", 3)
	r.need("client", 1)
	r.need("kept", 4)
}

// storeWrite: does the event change something in the data store?
func (r *Report) storeWrite(ev *Event) string {
	switch ev.Kind {
	case "store":
		if a := ev.Args[0]; a.op == "field" && r.pr.storeField(a.aux) && baseOf(a).op != "new" {
			return ev.String()
		}
	case "mapset", "mapdel", "mapclear", "permute", "copy":
		if r.pr.storeField(ownField(ev.Args[0])) {
			return ev.String()
		}
	}
	return ""
}

// keptIn: what is put into the store is not memory of a package variable.
func (r *Report) keptIn(e *Engine, ev *Event, v *Term) {
	if v.typ != nil && !refs(v.typ, 0) {
		return
	}
	g := r.pr.inGlobal(v)
	r.check(g == nil, "fresh", shortFn(ev.Fn), "what is kept in a store is not memory of a package variable", ev.String(), e.where(ev))
}

// globalWrites: the writes an event does to package variables.
func (r *Report) globalWrites(e *Engine, s *State, ev *Event) []*gWrite {
	var gs []*Term
	add := func(t *Term) {
		if g := r.pr.ownGlobal(t); g != nil {
			gs = append(gs, g)
		}
	}
	kept := func(m *Term) {
		// memory that a package variable holds by now
		add(m)
		if m.op == "makemap" || m.op == "new" || m.op == "makeslice" {
			for a, v := range s.mem {
				if g := r.pr.ownGlobal(a); g != nil && baseOf(v) == m {
					gs = append(gs, g)
				}
			}
		}
	}
	switch ev.Kind {
	case "store", "bytestore":
		b := ev.Args[0]
		for b.op == "field" || b.op == "index" || b.op == "slice" {
			b = b.args[0]
		}
		kept(b)
	case "mapset", "mapdel", "mapclear", "permute":
		kept(ev.Args[0])
	case "copy":
		kept(ev.Args[0])
	case "lib":
		if !globalSafe(ev.Name) {
			for _, a := range ev.Args {
				if a.typ == nil || refs(a.typ, 0) {
					add(a)
				}
			}
		}
	}
	var out []*gWrite
	for _, g := range gs {
		w := &gWrite{e: e, ev: ev, g: g}
		for _, l := range s.locks {
			if r.pr.ownGlobal(l.addr) != nil && l.mode == 'W' {
				w.lock = l.addr.String()
			}
		}
		for _, f := range s.frames {
			if f.once {
				w.once = true
			}
		}
		w.free = r.notBuilt(e, s)
		if s.spawn != nil {
			w.when = "in a goroutine"
		}
		out = append(out, w)
	}
	return out
}

// globalSafe: library calls that do not write to what they are given.
func globalSafe(n string) bool {
	for _, p := range []string{"(*sync.Mutex)", "(*sync.RWMutex)", "(*sync.Once)", "hash/crc32.", "fmt.", "errors.", "strings.", "strconv.", "(lane.Lane)", "maps.Keys", "maps.Clone", "slices.Clone", "slices.Contains", "slices.Index", "bytes.Equal", "bytes.Clone", "reflect.TypeOf", "reflect.ValueOf", "(reflect.", "(*reflect."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return strings.HasSuffix(n, ".Load") || strings.HasSuffix(n, ".Error")
}

// notBuilt: is it known that a package variable was nil, empty or false when it
// was read on this path?
func (r *Report) notBuilt(e *Engine, s *State) bool {
	// only what was read since the lock was taken
	from := 0
	for i, ev := range s.ev {
		if ev.Kind == "lock" && r.pr.ownGlobal(ev.Args[0]) != nil {
			from = i
		}
	}
	fresh := map[*Term]bool{}
	for _, ev := range s.ev[from:] {
		if ev.Kind == "load" && len(ev.Args) > 1 && r.pr.ownGlobal(ev.Args[0]) != nil {
			fresh[unconv(ev.Args[1])] = true
		}
	}
	for _, ev := range s.ev[:from] {
		if ev.Kind == "load" && len(ev.Args) > 1 {
			delete(fresh, unconv(ev.Args[1]))
		}
	}
	recent := func(t *Term) bool {
		for x := range fresh {
			if t == x || t.hasSym(x) {
				return true
			}
			for _, a := range t.args {
				if unconv(a) == x {
					return true
				}
			}
		}
		return false
	}
	for t, v := range s.facts {
		if r.pr.inGlobal(t) == nil || !recent(t) {
			continue
		}
		switch t.op {
		case "eq":
			if v {
				for _, a := range t.args {
					if a.isNil() || a.isInt() && a.intVal() == 0 && (t.args[0].op == "len" || t.args[1].op == "len") {
						return true
					}
				}
			}
		case "gval":
			if !v {
				return true
			}
		}
	}
	for _, l := range s.lins {
		for a := range toLin(l).coef {
			if r.pr.inGlobal(a) != nil && a.op == "len" && recent(a) && e.entails(s, e.p.Sub(e.p.Int(0), a)) {
				return true
			}
		}
	}
	return false
}

// constructor: the mock that is handed out has its tables and a store of its own.
func (r *Report) constructor(e *Engine, SF string, locks map[string]bool) {
	w := shortFn(e.cfg.Fn)
	for _, pe := range returns(e) {
		ok := false
		for i, ev := range pe.Evs {
			if ev.Kind == "once" && r.pr.ownGlobal(ev.Args[0]) != nil {
				ok = true
			}
			if ev.Kind == "load" && ev.Args[0].op == "global" && r.pr.ownGlobal(ev.Args[0]) != nil {
				for m := range heldAt(pe.Evs, i) {
					if locks[m.String()] {
						ok = true
					}
				}
			}
		}
		r.checkL(ok, "built", w, "the tables are looked at, under their lock, before a mock is handed out", e.pathText(pe.Evs))
		for _, ev := range pe.Evs {
			if ev.Kind != "load" || ev.Args[0].op != "global" || r.pr.ownGlobal(ev.Args[0]) == nil {
				continue
			}
			name := strings.TrimPrefix(ev.Args[0].aux, r.pr.pkg.Pkg.Path()+".")
			if !r.mutableGlobal(ev.Args[0]) {
				continue
			}
			i := 0
			for i < len(pe.Evs) && pe.Evs[i] != ev {
				i++
			}
			held := false
			for m := range heldAt(pe.Evs, i) {
				held = held || r.pr.ownGlobal(m) != nil
			}
			for _, x := range pe.Evs[:i] {
				held = held || x.Kind == "once" && r.pr.ownGlobal(x.Args[0]) != nil
			}
			r.check(held, "built", w, "package variable "+name+" is looked at under a lock while a mock is constructed", e.where(ev))
		}
		// the store
		for i, m := range pe.Res {
			if typeKey(e.cfg.Fn.Signature.Results().At(i).Type()) != "*kafkamock.KafkaMock" {
				continue
			}
			if m.isNil() {
				continue
			}
			var st *Term
			for _, ev := range pe.Evs {
				if ev.Kind == "store" && ev.Args[0].op == "field" && ev.Args[0].aux == SF && ev.Args[0].args[0] == m {
					st = ev.Args[1]
				}
			}
			if !r.checkL(st != nil && m.op == "new" && st.op == "new", "fresh", w, "a new mock gets a new store", e.pathText(pe.Evs)) {
				continue
			}
			for a, v := range pe.S.mem {
				if g := r.pr.ownGlobal(a); g != nil && (v.hasSym(st) || v.hasSym(m)) {
					r.fail("fresh", w, "the new mock or its store is kept in package variable "+g.aux)
				}
			}
			for a, v := range pe.S.mem {
				if a.op == "field" && a.args[0] == st && v.typ != nil && refs(v.typ, 0) {
					r.check(v.op == "makemap" || v.op == "new" || v.isNil() || v.isInt() || v.op == "zero" || v.op == "makeslice", "fresh", w, "what a new store holds is new", a.String()+" = "+v.String())
				}
			}
		}
	}
}

// mutableGlobal: is the variable stored to anywhere but at its initialisation?
func (r *Report) mutableGlobal(g *Term) bool {
	G, _ := g.obj.(*ssa.Global)
	if G == nil {
		return true
	}
	for _, f := range r.pr.fns {
		if f.Name() == "init" && f.Signature.Recv() == nil && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == G {
					return true
				}
			}
		}
	}
	return false
}
