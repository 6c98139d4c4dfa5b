package main

import (
	"fmt"
	"go/types"
	"strings"
)

// ---- C28: no call of the mock's own interface brings the process down by what
// it is given, or by when it is made.

func checkC28(r *Report) {
	r.rule("oblig", "in every exported method of the mock, on the caller's goroutine, every pointer that is followed, index and bound, type assertion and map write is shown to be in order for all arguments, existing topics and partitions or not")
	r.rule("panic", "an exported method panics of its own accord only when the mock is told to start although it is started")
	r.rule("set", "a function or interface kept in a field of the mock is called only where the field is set: by every constructor, or found set on the path, or the mock was found started and every start sets it")
	T := r.pr.typ("KafkaMock")
	if T == nil || structOf(T) == nil {
		r.fail("set", "KafkaMock", "anchor lost: the type")
		return
	}
	engines := r.allRoots(nil)
	lr := &lifeRun{r: r, engines: engines, nets: map[*Event]map[string]int{}}
	lr.e = lr.root("Start")
	if lr.e == nil {
		return
	}
	started := map[string]bool{} // flags whose being set makes a start panic
	for _, pe := range lr.e.ends {
		if pe.S.spawn == nil && pe.Kind == "panic" {
			for _, ev := range pe.Evs {
				if a, was := lr.e.flagRead(pe.S, ev); a != "" && was == 1 {
					started[a] = true
				}
			}
		}
	}
	ctor, nulled := map[string]bool{}, map[string]bool{}
	first := true
	for _, e := range engines {
		makes := false
		for _, pe := range returns(e) {
			if len(pe.Res) == 0 || typeKey(pe.Res[0].typ) != "*kafkamock.KafkaMock" || pe.Res[0].op != "new" {
				continue
			}
			makes = true
			set := map[string]bool{}
			for a, v := range pe.S.mem {
				if a.op == "field" && a.args[0] == pe.Res[0] && !v.isNil() && e.nilness(pe.S, v) <= 0 {
					set[a.aux] = true
				}
			}
			if first {
				ctor, first = set, false
			}
			for k := range ctor {
				if !set[k] {
					delete(ctor, k)
				}
			}
		}
		if makes {
			continue
		}
		for _, ev := range e.evlist {
			if ev.Kind == "store" && ev.Args[0].op == "field" && baseOf(ev.Args[0]).op != "new" && ev.Args[1].isNil() {
				nulled[ev.Args[0].aux] = true
			}
		}
	}
	startSets := map[string]bool{}
	for i, pe := range returns(lr.e) {
		set := map[string]bool{}
		for _, ev := range pe.Evs {
			if ev.Kind == "store" && ev.Args[0].op == "field" {
				set[ev.Args[0].aux] = !ev.Args[1].isNil()
			}
		}
		for k, v := range set {
			if i == 0 && v {
				startSets[k] = true
			}
		}
		for k := range startSets {
			if !set[k] {
				delete(startSets, k)
			}
		}
	}
	n := 0
	for _, e := range engines {
		f := e.cfg.Fn
		if f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() == nil || typeKey(f.Signature.Recv().Type()) != "*kafkamock.KafkaMock" {
			continue
		}
		n++
		w := shortFn(f)
		bad := false
		for _, o := range e.open {
			if o.S.spawn != nil || strings.HasPrefix(o.Ev.Name, "stream: ") {
				continue
			}
			bad = true
			r.fail("oblig", w, "may crash: "+o.Ev.Name+" in "+shortFn(o.Ev.Fn), e.where(o.Ev), clip(o.Ev.String(), 400))
		}
		if !bad {
			r.pass("oblig", w, fmt.Sprintf("all %d conditions are met", len(e.oblig)))
		}
		for _, pe := range e.ends {
			if pe.S.spawn != nil || pe.Kind != "panic" {
				continue
			}
			ok := false
			for _, ev := range pe.Evs {
				if a, was := e.flagRead(pe.S, ev); started[a] && was == 1 {
					ok = true
				}
			}
			r.checkL(ok, "panic", w, "panics only when told to start a mock that is started", e.pathText(pe.Evs))
		}
		r.pass("panic", w, "its panics were looked at")
		for _, sg := range e.segs() {
			if sg.Spawn != nil {
				continue
			}
			field := map[*Term]string{} // a loaded value -> the field of the mock
			for i, ev := range sg.Evs {
				switch ev.Kind {
				case "load":
					if a := ev.Args[0]; a.op == "field" && auxStruct(a.aux) == "KafkaMock" {
						field[ev.Args[1]] = a.aux
					}
					continue
				case "call":
				default:
					continue
				}
				if len(ev.Args) == 0 {
					continue
				}
				c := baseVal(ev.Args[0])
				fl := field[c]
				if fl == "" {
					fl = field[ev.Args[0]]
				}
				if fl == "" {
					fl = ownField(c)
				}
				if fl == "" || auxStruct(fl) != "KafkaMock" {
					continue
				}
				if ev.Name != "dynamic" && ev.Name != "call dynamic" {
					if _, ok := ev.Args[0].typ.Underlying().(*types.Interface); !ok {
						continue
					}
				}
				ok := ctor[fl] && !nulled[fl] || e.nilness(sg.S, ev.Args[0]) < 0
				if !ok && startSets[fl] && !nulled[fl] {
					for _, x := range sg.Evs[:i] {
						if a, was := e.flagRead(sg.S, x); started[a] && was == 1 {
							ok = true
						}
					}
				}
				r.checkL(ok, "set", e.where(ev), "what is called through "+fieldLabel(fl)+" is there", e.pathText(sg.Evs[:i+1]))
			}
		}
	}
	r.check(n >= 9, "oblig", "KafkaMock", fmt.Sprintf("the mock's methods were looked at (%d)", n))
	r.need("oblig", 9)
	r.need("panic", 9)
	r.need("set", 3)
}

func fieldLabel(aux string) string {
	if i := strings.Index(aux, "."); i >= 0 {
		return aux[i+1:]
	}
	return aux
}

// ---- C29: when Restart returns, the mock is listening, on the same port, and
// nothing it does is already cancelled.

func checkC29(r *Report) {
	r.rule("listening", "every return of Restart has waited, after starting the accepting goroutine, for a signal which that goroutine gives only once it holds the listening socket and has kept it in the mock")
	r.rule("alive", "each start makes the lane that the mock's work watches anew, from a lane that the mock was given and never cancels or replaces, before anything that watches it is started")
	r.rule("same", "the port and the parent lane of a mock are set when it is constructed and never changed")
	engines := r.allRoots(nil)
	lr := &lifeRun{r: r, engines: engines, nets: map[*Event]map[string]int{}}
	lr.e = lr.root("Start")
	re := lr.root("Restart")
	if lr.e == nil || re == nil {
		return
	}
	lr.fields()
	for i, pe := range returns(re) {
		gi := -1
		for j, ev := range pe.Evs {
			if ev.Kind == "go" && re.accepts(ev) {
				gi = j
			}
		}
		w := shortFn(re.cfg.Fn)
		if !r.checkL(gi >= 0, "listening", w, "a restart starts accepting connections", re.pathText(pe.Evs)) {
			continue
		}
		ok := re.listened(pe.S, pe.Evs)
		for j, ev := range pe.Evs {
			if ok || j < gi {
				continue
			}
			if k, _, wait, _ := wgOp(ev); wait && re.signals(lr.lf, pe.Evs, gi, k) {
				ok = true
			}
			if ev.Kind == "recv" && len(ev.Args) > 0 && re.sendsAfter(lr.lf, pe.Evs[gi], ev.Args[0]) {
				ok = true
			}
		}
		if i < 40 || !ok {
			r.checkL(ok, "listening", w, "a restart returns once the mock listens", re.pathText(pe.Evs))
		}
	}
	// the lane
	parents := map[string]bool{}
	for _, pe := range returns(lr.e) {
		w := shortFn(lr.e.cfg.Fn)
		gi := len(pe.Evs)
		for j, ev := range pe.Evs {
			if ev.Kind == "go" {
				gi = j
				break
			}
		}
		if gi == len(pe.Evs) {
			continue // nothing is started
		}
		var l *Term
		for _, ev := range pe.Evs[:gi] {
			if ev.Kind == "store" && ev.Args[0].op == "field" && ev.Args[0].aux == lr.lanef {
				l = ev.Args[1]
			}
		}
		if !r.checkL(l != nil && lr.lanef != "", "alive", w, "a start makes the lane of its work anew", lr.e.pathText(pe.Evs)) {
			continue
		}
		src := l
		for d := 0; d < 4; d++ {
			var up *Term
			for _, ev := range pe.Evs[:gi] {
				if ev.Kind == "call" && strings.Contains(ev.Name, "Derive") && len(ev.Args) > 0 && len(ev.Res) > 0 && ev.Res[0] == src {
					up = baseVal(ev.Args[0])
				}
			}
			if up == nil {
				break
			}
			src = up
		}
		p := ownField(src)
		r.checkL(src != l && p != "" && p != lr.lanef && auxStruct(p) == "KafkaMock", "alive", w, "the lane is derived from the one the mock was given", func() []string {
			return append([]string{"derived from: " + src.String()}, lr.e.pathText(pe.Evs)()...)
		})
		if p != "" {
			parents[p] = true
		}
	}
	port := ""
	for _, e := range engines {
		if e.cfg.Fn.Signature.Recv() != nil {
			continue
		}
		for _, pe := range returns(e) {
			if len(pe.Res) == 0 || pe.Res[0].op != "new" || typeKey(pe.Res[0].typ) != "*kafkamock.KafkaMock" {
				continue
			}
			for a, v := range pe.S.mem {
				if a.op == "field" && a.args[0] == pe.Res[0] {
					if b, ok := v.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && v.op == "param" {
						port = a.aux
					}
				}
			}
		}
	}
	r.check(port != "", "same", "KafkaMock", "the port is kept in the mock")
	fixed := map[string]bool{}
	for p := range parents {
		fixed[p] = true
	}
	if port != "" {
		fixed[port] = true
	}
	for f := range fixed {
		clean := true
		for _, e := range engines {
			for _, ev := range e.evlist {
				if ev.Kind == "store" && ev.Args[0].op == "field" && ev.Args[0].aux == f && baseOf(ev.Args[0]).op != "new" {
					clean = false
					r.fail("same", shortFn(ev.Fn), fieldLabel(f)+" is changed after construction", e.where(ev), ev.String())
				}
			}
		}
		if clean {
			r.pass("same", fieldLabel(f), "set when the mock is constructed, and by nothing else")
		}
	}
	r.need("listening", 2)
	r.need("alive", 2)
	r.need("same", 3)
}

// accepts: does this go statement start what accepts connections?
func (e *Engine) accepts(g *Event) bool {
	for _, sg := range e.segs() {
		if sg.Spawn == nil || sg.Spawn.Ev != g {
			continue
		}
		for _, ev := range sg.Evs {
			if m, _ := method(ev); m == "Accept" || m == "AcceptTCP" {
				return true
			}
		}
	}
	return false
}

// listened: a listener was opened on this path.
func (e *Engine) listened(s *State, evs []*Event) bool {
	for _, ev := range evs {
		if ev.Kind == "call" && len(ev.Res) == 2 && ev.Res[0].typ != nil && isListener(ev.Res[0].typ) && !ev.Res[0].isNil() && (ev.Res[1].isNil() || e.nilness(s, ev.Res[1]) > 0) {
			return true
		}
	}
	return false
}

// signals: is the wait group k, counted up before the go statement on this
// path, taken off by what it starts only once the listener is there and kept?
func (e *Engine) signals(lf string, evs []*Event, gi int, k string) bool {
	up := 0
	for _, ev := range evs[:gi] {
		if kk, d, _, _ := wgOp(ev); kk == k {
			up += d
		}
	}
	if up <= 0 {
		return false
	}
	for _, pe := range e.spawnedBy(evs[gi]) {
		for i, ev := range pe.Evs {
			if kk, d, _, _ := wgOp(ev); kk == k && d < 0 && !(e.listened(pe.S, pe.Evs[:i]) && kept(lf, pe.Evs[:i])) && !died(pe) {
				return false
			}
		}
	}
	for _, sg := range e.segs() {
		if sg.It == nil || sg.Spawn == nil || sg.Spawn.Ev != evs[gi] {
			continue
		}
		for _, ev := range sg.Evs {
			if kk, d, _, _ := wgOp(ev); kk == k && d < 0 {
				return false
			}
		}
	}
	return true
}

func kept(lf string, evs []*Event) bool {
	for _, ev := range evs {
		if ev.Kind == "store" && ev.Args[0].op == "field" && ev.Args[0].aux == lf && !ev.Args[1].isNil() {
			return true
		}
	}
	return false
}

// sendsAfter: the same with a channel.
func (e *Engine) sendsAfter(lf string, g *Event, ch *Term) bool {
	n := 0
	for _, pe := range e.spawnedBy(g) {
		for i, ev := range pe.Evs {
			if (ev.Kind == "send" || ev.Kind == "close") && len(ev.Args) > 0 && (ev.Args[0] == ch || ownField(ev.Args[0]) != "" && ownField(ev.Args[0]) == ownField(ch)) && !died(pe) {
				n++
				if !(e.listened(pe.S, pe.Evs[:i]) && kept(lf, pe.Evs[:i])) {
					return false
				}
			}
		}
	}
	return n > 0
}
