package main

import "strings"

// ---- C30: a client that goes away takes only its own connection with it.

func checkC30(r *Report) {
	r.rule("read", "where a failed read of a connection ends in a panic, the failure was found to be none of: the end of the stream, a reset by the peer, an expired read deadline")
	r.rule("write", "where a failed write to a connection ends in a panic, the peer was found to be still there after it: a look at the socket failed for want of data, or the failure was found to be neither a reset nor a broken pipe")
	nr, nw, np := 0, 0, 0
	for _, e := range r.allRoots(nil) {
		sps := serveSpawns(r, e)
		if len(sps) == 0 {
			continue
		}
		for _, sg := range e.segs() {
			if sg.Spawn == nil || sps[sg.Spawn.Ev] == nil {
				continue
			}
			for i, ev := range sg.Evs {
				if r.connRead(ev) != nil {
					nr++
					if err := ev.Res[1]; sg.End != nil && sg.End.Kind == "panic" && e.nilness(sg.S, err) <= 0 && !err.isNil() {
						np++
						path := e.pathText(sg.Evs)
						r.checkL(e.ruledOutErr(sg.S, err, "io.EOF", -1), "read", e.whereSeg(sg, ev), "a client that closes its connection does not bring the process down", path)
						r.checkL(e.ruledOutErr(sg.S, err, "", 104), "read", e.whereSeg(sg, ev), "a client that resets its connection does not bring the process down", path)
						r.checkL(e.ruledOutErr(sg.S, err, "os.ErrDeadlineExceeded", -1), "read", e.whereSeg(sg, ev), "a client that is silent does not bring the process down", path)
					}
				}
				c, _ := r.connWrite(ev)
				if c == nil || len(ev.Res) != 2 {
					continue
				}
				nw++
				err := ev.Res[1]
				if sg.End == nil || sg.End.Kind != "panic" || e.nilness(sg.S, err) > 0 || err.isNil() {
					continue
				}
				np++
				ok := e.ruledOutErr(sg.S, err, "", 104) && e.ruledOutErr(sg.S, err, "", 32)
				for _, x := range sg.Evs[i+1:] {
					if x.Kind == "call" && x.Name == "syscall.Recvfrom" && len(x.Res) == 3 && e.nilness(sg.S, x.Res[2]) < 0 && len(x.Args) == 3 && x.Args[2].isInt() && x.Args[2].intVal()&0x42 == 0x42 {
						ok = true
					}
				}
				r.checkL(ok, "write", e.whereSeg(sg, ev), "a client that is gone before it is answered does not bring the process down", e.pathText(sg.Evs))
			}
		}
	}
	r.check(nr > 0, "read", "the goroutine of a connection", "reads of connections were looked at")
	r.check(nw > 0, "write", "the goroutine of a connection", "writes to connections were looked at")
	r.sample("%d panics after failed reads and writes", np)
	r.need("read", 2)
	r.need("write", 2)
}

// ruledOutErr: was the error found, on this path, not to be the one of that
// name, or of that number?
func (e *Engine) ruledOutErr(s *State, err *Term, name string, no int64) bool {
	is := func(t *Term) bool {
		if name != "" {
			return (t.op == "gval" || t.op == "global") && (t.aux == name || strings.HasSuffix(t.aux, "."+name))
		}
		t = baseVal(t)
		return t.isInt() && t.intVal() == no
	}
	for f, v := range s.facts {
		switch {
		case v:
		case f.op == "call" && strings.HasSuffix(f.aux, "errors.Is") && len(f.args) == 2 && f.args[0] == err && is(f.args[1]):
			return true
		case f.op == "eq" && len(f.args) == 2:
			for i, x := range f.args {
				y := f.args[1-i]
				if is(x) && (y == err || y.hasSym(err) || y.typ != nil && typeKey(y.typ) == "syscall.Errno") {
					return true
				}
			}
		case name == "" && f.op == "isa" && len(f.args) > 0 && f.args[0].hasSym(err) && (strings.HasSuffix(f.aux, "net.OpError") || strings.HasSuffix(f.aux, "os.SyscallError") || strings.HasSuffix(f.aux, "syscall.Errno")):
			return true
		case name == "" && f.op == "call" && strings.HasSuffix(f.aux, "errors.As") && len(f.args) == 2 && f.args[0] == err && (strings.HasSuffix(f.args[1].aux, "net.OpError") || strings.HasSuffix(f.args[1].aux, "os.SyscallError") || strings.HasSuffix(f.args[1].aux, "syscall.Errno")):
			return true
		}
	}
	return false
}

// ---- C31: no client waits for another.

func checkC31(r *Report) {
	r.rule("own", "the goroutine that accepts connections neither reads, decodes, handles nor writes anything of a connection: each accepted connection is served by a goroutine started for it, before the next is accepted")
	r.rule("waits", "what the goroutine of a connection waits for is only its own connection, a bounded sleep of its own, the shutdown signal, or a lock: no channel, wait group or condition that another connection works on")
	r.rule("posts", "posting, creating and setting offsets wait for nothing but locks")
	na := 0
	engines := r.allRoots(nil)
	for _, e := range engines {
		f := e.cfg.Fn
		sps := serveSpawns(r, e)
		// the loop that accepts
		var loop *LoopInfo
		for _, sg := range e.segs() {
			for _, ev := range sg.Evs {
				if sg.It != nil && acquired(ev) != nil && r.pr.connType(ev.Res[0].typ) {
					loop = sg.Loop
				}
			}
		}
		for _, sg := range e.segs() {
			switch {
			case sg.Spawn == nil:
				if f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() == nil || f.Signature.Params().Len() == 0 {
					continue
				}
				for _, ev := range sg.Evs {
					if waitsOn(ev) != nil || sleeps(ev) {
						r.fail("posts", e.where(ev), shortFn(f)+" waits for something other than a lock", ev.String())
					}
				}
				r.pass("posts", shortFn(f), "waits for nothing")
			case sps[sg.Spawn.Ev] == nil:
				// what accepts
				mine := false
				for _, ev := range sg.Evs {
					if acquired(ev) != nil && r.pr.connType(ev.Res[0].typ) {
						mine = true
					}
				}
				for _, ev := range sg.Evs {
					bad := r.handlerCall(ev) || r.connRead(ev) != nil || ev.Kind == "decode"
					if c, _ := r.connWrite(ev); c != nil {
						bad = true
					}
					if mine && sg.It != nil && (sleeps(ev) || waitsOn(ev) != nil) {
						bad = true
					}
					if bad {
						r.fail("own", e.where(ev), "the goroutine that accepts connections serves, or waits, itself", ev.String())
					}
				}
				if mine {
					na++
					r.pass("own", e.whereSeg(sg, nil), "accepting only hands connections over")
				}
			default:
				for _, ev := range sg.Evs {
					x := waitsOn(ev)
					if x == nil {
						continue
					}
					r.checkL(r.ownThing(e, loop, x), "waits", e.where(ev), "a connection waits only for what is its own", func() []string {
						return []string{ev.String(), "on: " + x.String()}
					})
				}
				r.pass("waits", e.whereSeg(sg, nil), "waits for nothing of others")
			}
		}
	}
	for _, f := range r.pr.handlerFuncs() {
		for _, e := range engines {
			if e.cfg.Fn != f {
				continue
			}
			for _, sg := range e.segs() {
				for _, ev := range sg.Evs {
					if x := waitsOn(ev); x != nil {
						r.checkL(r.ownThing(e, nil, x), "waits", e.where(ev), "a handler waits only for what is its own", func() []string {
							return []string{ev.String(), "on: " + x.String()}
						})
					}
				}
			}
			r.pass("waits", shortFn(f), "waits for nothing of others")
		}
	}
	r.check(na > 0, "own", "the goroutine that accepts connections", "it was found")
	r.need("own", 2)
	r.need("waits", 10)
	r.need("posts", 3)
}

func sleeps(ev *Event) bool { return ev.Kind == "call" && ev.Name == "time.Sleep" }

// waitsOn: what the event may wait for, if it is not network traffic, a sleep
// or a lock.
func waitsOn(ev *Event) *Term {
	switch ev.Kind {
	case "recv", "send":
		if len(ev.Args) > 0 {
			return ev.Args[0]
		}
	case "selectwait":
		for _, c := range ev.Args {
			if isDone(c) {
				return nil // the shutdown ends it
			}
		}
		for _, c := range ev.Args {
			return c
		}
	case "call":
		if ev.Name == "(*sync.WaitGroup).Wait" || ev.Name == "(*sync.Cond).Wait" {
			return ev.Args[0]
		}
	}
	return nil
}

// ownThing: a timer, the shutdown signal, or something made for this connection
// (in the round that accepted it, or since).
func (r *Report) ownThing(e *Engine, loop *LoopInfo, x *Term) bool {
	if isDone(x) {
		return true
	}
	b := baseOf(x)
	switch {
	case b.site != nil && (b.op == "new" || b.op == "makechan"):
		if loop == nil {
			return true // a handler's own
		}
		if inLoop(e, b.site, loop) {
			return true
		}
		c := b.site.ctx
		for c != nil && c.parent != nil {
			c = c.parent
		}
		lc := loop.Ctx
		for lc.parent != nil {
			lc = lc.parent
		}
		for _, sp := range e.spawns {
			if c != nil && c.fn == sp.Fn && c.fn != lc.fn {
				return true
			}
		}
		return false
	case x.op == "call" && strings.Contains(x.aux, "time."):
		return true
	}
	return strings.Contains(typeKey(typOf(x)), "time.Time")
}
