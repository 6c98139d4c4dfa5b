package main

// Serving a connection: how its bytes become requests (C09) and how each
// request is answered (C04).

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// connType: is this the type of a network connection?
func (pr *Program) connType(t types.Type) bool {
	if t == nil {
		return false
	}
	if k := typeKey(t); k == "net.Conn" || k == "*net.TCPConn" {
		return true
	}
	n := pr.netType("Conn")
	if n == nil {
		return false
	}
	i, ok := n.Underlying().(*types.Interface)
	return ok && types.Implements(t, i)
}

func (pr *Program) netType(name string) types.Type {
	for _, im := range pr.pkg.Pkg.Imports() {
		if im.Path() == "net" {
			if o := im.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

// connArg: the connection among the arguments of a call, nil if there is none.
func (pr *Program) connArg(ev *Event) *Term {
	for _, a := range ev.Args {
		b := baseVal(a)
		for _, t := range []*Term{a, b} {
			if t.op != "nil" && pr.connType(t.typ) {
				return b
			}
		}
	}
	return nil
}

// connWrite: the connection and the bytes of a write to it.
func (r *Report) connWrite(ev *Event) (c, data *Term) {
	if ev.Kind != "call" || len(ev.Args) != 2 {
		return nil, nil
	}
	m, _ := method(ev)
	if ev.Name != "write" && m != "Write" {
		return nil, nil
	}
	c = r.pr.connArg(&Event{Args: ev.Args[:1]})
	if c == nil {
		return nil, nil
	}
	return c, ev.Args[1]
}

func (r *Report) connRead(ev *Event) *Term {
	if m, _ := method(ev); m == "Read" && ev.Kind == "call" && len(ev.Args) == 2 && len(ev.Res) == 2 {
		return r.pr.connArg(&Event{Args: ev.Args[:1]})
	}
	return nil
}

// otherUse: a call that may read from or write to a connection in a way that is not known.
func (r *Report) otherUse(ev *Event) string {
	if ev.Kind != "call" && ev.Kind != "go" {
		return ""
	}
	if ev.Kind == "go" && ev.Site != nil && strings.HasPrefix(ev.Name, "(*") && strings.Contains(ev.Name, "kafka-mock-go") {
		return ""
	}
	n := strings.ReplaceAll(ev.Name, "github.com/jimsnab/go-lane.", "lane.")
	if strings.HasPrefix(n, "syscall.") {
		if n == "syscall.Recvfrom" && len(ev.Args) == 3 && ev.Args[2].isInt() && ev.Args[2].intVal()&2 != 0 {
			return "" // MSG_PEEK takes nothing away
		}
		return ev.Name
	}
	m, recv := method(ev)
	if recv != nil && recv.op == "res" && strings.Contains(recv.aux, ".File@") {
		switch m {
		case "Fd", "Close", "Name", "Stat":
			return ""
		}
		return ev.Name
	}
	if r.pr.connArg(ev) == nil {
		return ""
	}
	if recv != nil && r.pr.connType(recv.typ) {
		switch m {
		case "Read", "Write", "Close", "LocalAddr", "RemoteAddr", "SetDeadline", "SetReadDeadline", "SetWriteDeadline", "File",
			"SetNoDelay", "SetKeepAlive", "SetKeepAlivePeriod", "SetLinger", "SetReadBuffer", "SetWriteBuffer":
			return ""
		}
	}
	if ev.Name == "write" || strings.Contains(n, "lane.Lane).") || strings.HasPrefix(n, "fmt.S") || strings.HasPrefix(n, "fmt.Errorf") {
		return ""
	}
	return ev.Name
}

// handlerCall: a call of a request handler out of the API table.
func (r *Report) handlerCall(ev *Event) bool {
	if ev.Kind != "call" || len(ev.Res) != 3 || len(ev.Args) == 0 {
		return false
	}
	if ev.Name != "dynamic" {
		return false
	}
	T := r.pr.typ("dispatchHandler")
	f := ev.Args[0]
	if T == nil || f.typ == nil {
		return false
	}
	sig, ok := f.typ.Underlying().(*types.Signature)
	return ok && identicalSig(sig, T)
}

// readerOf: the reader a call of a handler is given.
func readerOf(ev *Event) *Term {
	for _, a := range ev.Args[1:] {
		if a.typ != nil && isPtrTo(a.typ, "bufio.Reader") {
			return a
		}
	}
	return nil
}

// frameOf: the bytes under a reader.
func frameOf(rd *Term) *Term {
	if rd == nil || rd.op != "bufr" || len(rd.args) == 0 {
		return nil
	}
	b := rd.args[0]
	if b.op == "iface" {
		b = b.args[0]
	}
	if b.op != "bytesbuf" || len(b.args) == 0 {
		return nil
	}
	return b.args[0]
}

// frame: is x the request at the start of the bytes v: what follows its length?
func (e *Engine) frame(x *Term) (v, n *Term, ok bool) {
	p := e.p
	lo, hi := p.Int(0), (*Term)(nil)
	for x.op == "slice" && len(x.args) == 3 {
		lo2, hi2 := x.args[1], x.args[2]
		lo = p.Add(lo2, lo)
		if hi == nil {
			hi = hi2
		} else {
			hi = p.Add(lo2, hi)
		}
		x = x.args[0]
	}
	if hi == nil || lo != p.Int(4) {
		return nil, nil, false
	}
	n = p.mk("rd", "4", types.Typ[types.Uint32], nil, x, p.Int(0))
	return x, n, hi == p.Add(p.Int(4), n)
}

// known: 1 if the value is known nil on the path, -1 if known not nil.
func (e *Engine) nilness(s *State, t *Term) int {
	if k, v := e.eval(s, e.p.Eq(t, e.p.Nil())); k {
		if v {
			return 1
		}
		return -1
	}
	return 0
}

// spawnsOf: the go statements after which another goroutine has the connection.
func serveSpawns(r *Report, e *Engine) map[*Event]*Term {
	if e.serving != nil {
		return e.serving
	}
	out := map[*Event]*Term{}
	for _, sg := range e.segs() {
		for i, ev := range sg.Evs {
			v := acquired(ev)
			if v == nil || !r.pr.connType(v.typ) {
				continue
			}
			for _, x := range sg.Evs[i+1:] {
				if x.Kind == "go" && mentions(sg.S, x, v) {
					out[x] = v
				}
			}
		}
	}
	e.serving = out
	return out
}

// leftover: bytes were found after the request's last field.
func (e *Engine) leftover(sg *Seg, after int) bool {
	for _, ev := range sg.Evs[after:] {
		if ev.Kind != "peek" {
			continue
		}
		if left := e.p.Sub(e.lenOf(e.strm(ev.Args[0])), ev.Args[2]); e.entails(sg.S, e.p.Sub(left, e.p.Int(1))) {
			return true
		}
	}
	if rd := readerOf(sg.Evs[after]); rd != nil && e.entails(sg.S, e.p.Sub(e.p.Sub(e.total(rd), e.rpos(sg.S, rd)), e.p.Int(1))) {
		return true
	}
	return false
}

func checkC04(r *Report) {
	r.rule("answer", "on every path on which a request handler returned no error and nothing was left over, the bytes written to the connection after it are exactly: four bytes holding 4 + the length of the rest, the correlation id of this request's header in four bytes, the encoded response and, if there are any, its tags")
	r.rule("reject", "on a path on which decoding failed, no handler ran, a handler failed or bytes were left over, nothing is written to the connection")
	r.rule("once", "between two looks at the buffered bytes at most one handler runs, and a request that is taken from them reaches a handler or ends the connection")
	r.rule("order", "handlers run, and connections are written to, only in the one goroutine started for the connection")
	r.rule("only", "no other call is given a connection that could read from it or write to it")
	r.assume = append(r.assume, "a write to a connection either takes all its bytes or reports an error")
	for _, e := range r.allRoots(nil) {
		sps := serveSpawns(r, e)
		conns := map[*Term]*Event{}
		for ev, v := range sps {
			if conns[v] != nil {
				r.fail("order", shortFn(ev.Fn), "a connection is handed to two goroutines", e.where(ev), e.where(conns[v]))
			}
			conns[v] = ev
		}
		if len(sps) > 0 {
			r.pass("order", shortFn(e.cfg.Fn), "each connection has one goroutine")
		}
		for _, sg := range e.segs() {
			r.answersOf(e, sg, sps)
		}
	}
	r.need("answer", 4)
	r.need("reject", 2)
	r.need("once", 2)
	r.need("order", 2)
	r.need("only", 4)
}

func (r *Report) answersOf(e *Engine, sg *Seg, sps map[*Event]*Term) {
	p := e.p
	path := func() string { return "path: " + strings.Join(pathOf(e, sg.Evs), " ") }
	var conn *Term
	if sg.Spawn != nil {
		conn = sps[sg.Spawn.Ev]
	}
	var hc *Event
	hi := -1
	failed := false // decoding
	frames := 0
	seen := map[*Term]bool{}
	for i, ev := range sg.Evs {
		if u := r.otherUse(ev); u != "" {
			r.fail("only", e.whereSeg(sg, ev), "a connection is given to "+u, e.where(ev))
		} else if r.pr.connArg(ev) != nil {
			r.pass("only", e.whereSeg(sg, ev), "known use of a connection: "+ev.Name)
		}
		if ev.Kind == "decode" && ev.Name == "fail" {
			failed = true
		}
		if ev.Kind == "newreader" && frameOf(ev.Res[0]) != nil && !seen[ev.Res[0]] {
			seen[ev.Res[0]] = true
			frames++
		}
		if r.handlerCall(ev) {
			r.check(conn != nil, "order", e.whereSeg(sg, ev), "handlers run in the goroutine of the connection", e.where(ev))
			if hc != nil {
				r.fail("once", e.whereSeg(sg, ev), "two handlers run for one request", path())
			}
			hc, hi = ev, i
		}
	}
	// what is written
	var parts []*Term
	broken, any := false, false
	for i, ev := range sg.Evs {
		c, data := r.connWrite(ev)
		if c == nil {
			continue
		}
		any = true
		w := e.whereSeg(sg, ev)
		if !r.check(conn != nil && c == conn, "order", w, "only the connection's own goroutine writes to it", e.where(ev)) {
			continue
		}
		if i < hi || hc == nil {
			r.fail("reject", w, "something is written though no handler has run for the request", e.where(ev), path())
			continue
		}
		if broken {
			r.fail("answer", w, "a write follows one that failed", e.where(ev), path())
		}
		if len(ev.Res) == 2 && e.nilness(sg.S, ev.Res[1]) < 0 {
			broken = true
		}
		parts = append(parts, e.parts(sg.S, data)...)
	}
	if hc == nil {
		if frames > 0 && sg.It != nil {
			r.checkL(failed && !any, "once", e.whereSeg(sg, nil), "a request that was taken reaches a handler", func() []string { return []string{path()} })
			if failed {
				r.fail("once", e.whereSeg(sg, nil), "a request that cannot be decoded ends the connection", path())
			}
		}
		if failed {
			r.checkL(!any, "reject", e.whereSeg(sg, nil), "nothing is written for a request that cannot be decoded", func() []string { return []string{path()} })
		}
		return
	}
	w := e.whereSeg(sg, hc)
	r.checkL(frames <= 1, "once", w, "one request is taken for one handler", func() []string { return []string{path()} })
	errT := hc.Res[2]
	switch {
	case e.nilness(sg.S, errT) < 0:
		r.checkL(!any, "reject", w, "nothing is written when the handler fails", func() []string { return []string{path()} })
		return
	case e.leftover(sg, hi):
		r.checkL(!any, "reject", w, "nothing is written when bytes are left over", func() []string { return []string{path()} })
		return
	}
	if !any {
		r.checkL(sg.It == nil && sg.End.Kind != "return", "answer", w, "every request that was handled is answered", func() []string { return []string{path()} })
		return
	}
	r.checkL(e.nilness(sg.S, errT) > 0, "reject", w, "an answer is written only if the handler returned no error", func() []string { return []string{path()} })
	// the answer
	want, why := r.wantAnswer(e, sg, hc, hi)
	if why != "" {
		r.fail("answer", w, "undecided: "+why, path())
		return
	}
	if len(parts) != len(want) && !broken {
		if len(parts) < len(want) {
			r.fail("answer", w, "a part of the answer is not written: "+p.mk("cat", "", nil, nil, parts...).String(), path())
			return
		}
	}
	for i, x := range parts {
		if i >= len(want) {
			r.fail("answer", w, "more than the answer is written: "+x.String(), path())
			return
		}
		if !r.checkL(x == want[i], "answer", w, fmt.Sprintf("part %d of the answer is as it must be", i+1), func() []string { return []string{"written: " + x.String(), "expected: " + want[i].String(), path()} }) {
			return
		}
	}
}

// wantAnswer: the bytes that answer a request.
func (r *Report) wantAnswer(e *Engine, sg *Seg, hc *Event, hi int) ([]*Term, string) {
	p := e.p
	resp, tags := hc.Res[0], hc.Res[1]
	pay := []*Term{p.mk("enc", "", nil, nil, resp)}
	switch e.nilness(sg.S, tags) {
	case -1:
		pay = append(pay, p.mk("enctags", "", nil, nil, tags))
	case 0:
		return nil, "it is not known whether the response has tags"
	}
	rd := readerOf(hc)
	if rd == nil {
		return nil, "the reader the handler is given is not known"
	}
	var hdr *Term
	for _, ev := range sg.Evs[:hi] {
		if ev.Kind == "decode" && ev.Name == "ok" && ev.Args[0] == rd && ev.Args[1] == p.Int(0) && len(ev.Args) > 2 {
			if T := rtypeOf(ev.Args[2]); T != nil && ev.Res[1].op == "iface" {
				if i := fieldAtOffset(T, 4, 4); i >= 0 {
					hdr = e.fldOf(ev.Res[1].args[0], T, i)
				}
			}
		}
	}
	if hdr == nil {
		return nil, "the request's correlation id is not decoded from the start of its bytes"
	}
	n := p.Int(4)
	for _, x := range pay {
		n = p.Add(n, e.partLen(x))
	}
	return append([]*Term{e.be(4, n), e.be(4, hdr)}, pay...), ""
}

// fieldAtOffset: the field of a struct of fixed-size numbers that lies at the
// offset and has the size, -1 if there is none.
func fieldAtOffset(T types.Type, off, size int) int {
	st := structOf(T)
	if st == nil {
		return -1
	}
	at := 0
	for i := 0; i < st.NumFields(); i++ {
		b, _, ok := intRange(st.Field(i).Type())
		if !ok {
			return -1
		}
		if at == off && b/8 == size {
			return i
		}
		at += b / 8
	}
	return -1
}

// ---- C09 -------------------------------------------------------------------------

func checkC09(r *Report) {
	r.rule("frame", "a request is decoded from exactly the bytes that follow its four-byte length at the start of the buffered bytes, as many as that length says, and only where the path has found that they have all arrived")
	r.rule("carry", "the buffered bytes of the next round are those of this one, without the request that was taken, followed by exactly the bytes read in it")
	r.rule("start", "the buffered bytes of a connection start empty, and only its own goroutine changes them")
	r.rule("prompt", "the connection is read only where the path has found that the buffered bytes do not hold a complete request")
	r.rule("size", "the reader over a request can hold all of it")
	r.rule("end", "a connection is given up only where a read failed other than by its deadline, or the shutdown signal was found set")
	r.assume = append(r.assume, "a read of a connection gives bytes or an error, not both", "a reader over a byte slice gives its bytes in order")
	whole := map[*Event]bool{}    // requests whose bytes were known to have arrived when they were taken
	out := map[*Engine][]*Event{} // indexes and bounds that are not known to be in range
	engines := r.allRoots(func(e *Engine, s *State, ev *Event) {
		if ev.Kind == "newreader" && frameOf(ev.Res[0]) != nil {
			if v, n, ok := e.frame(frameOf(ev.Res[0])); ok && e.entails(s, e.p.Sub(e.lenOf(v), e.p.Add(n, e.p.Int(4)))) {
				whole[ev] = true
			}
		}
		if ev.Kind == "oblig" {
			out[e] = append(out[e], ev)
		}
	})
	for _, e := range engines {
		sps := serveSpawns(r, e)
		if len(sps) == 0 {
			continue
		}
		st := &stream{r: r, e: e, roles: map[*Term]*LoopInfo{}, at: map[*LoopInfo][]*Term{}, engines: engines, whole: whole}
		st.empty = e.p.mk("nobytes", "", nil, nil)
		segs := e.segs()
		for _, sg := range segs {
			if sg.Spawn == nil || sps[sg.Spawn.Ev] == nil {
				for _, ev := range sg.Evs {
					if r.connRead(ev) != nil {
						r.fail("start", e.whereSeg(sg, ev), "a connection is read outside its own goroutine", e.where(ev))
					}
				}
				continue
			}
			st.findRoles(sg)
		}
		if len(st.roles) == 0 {
			r.fail("frame", shortFn(e.cfg.Fn), "anchor lost: no buffer of received bytes from which requests are taken")
			continue
		}
		for _, sg := range segs {
			if sg.Spawn != nil && sps[sg.Spawn.Ev] != nil {
				st.walk(sg, sps[sg.Spawn.Ev])
			}
		}
		st.inits(segs, sps)
		for _, ev := range out[e] {
			for _, x := range ev.Args[1:] {
				if b := bufBase(x); st.roles[b] != nil {
					r.fail("frame", shortFn(ev.Fn), "the buffered bytes are indexed only within what has arrived: "+ev.Name, e.where(ev))
					break
				}
			}
		}
	}
	r.need("frame", 2)
	r.need("carry", 4)
	r.need("start", 1)
	r.need("prompt", 1)
	r.need("size", 1)
	r.need("end", 2)
}

// stream follows the bytes of a connection from its reads to its requests.
type stream struct {
	r       *Report
	e       *Engine
	roles   map[*Term]*LoopInfo
	at      map[*LoopInfo][]*Term // the bytes buffered where a loop is entered
	empty   *Term
	engines []*Engine
	whole   map[*Event]bool
}

func bufBase(t *Term) *Term {
	for t.op == "slice" || t.op == "concat" {
		t = t.args[0]
	}
	return t
}

// findRoles: the loop variables that hold the buffered bytes.
func (st *stream) findRoles(sg *Seg) {
	note := func(t *Term) {
		if t.op == "loop" {
			if l := st.e.loopOf(t); l != nil {
				st.roles[t] = l
			}
		}
	}
	for _, ev := range sg.Evs {
		if ev.Kind == "newreader" {
			if x := frameOf(ev.Res[0]); x != nil {
				note(bufBase(x))
			}
		}
	}
	if sg.It != nil {
		// whatever takes up the bytes of a read
		for v, nx := range sg.It.Next {
			if nx.op == "concat" && bufBase(nx) == v {
				for _, ev := range sg.Evs {
					if c := st.r.connRead(ev); c != nil && nx.hasSym(ev.Res[0]) {
						note(v)
					}
				}
			}
		}
	}
}

func (st *stream) roleOf(l *LoopInfo) *Term {
	for v, x := range st.roles {
		if x == l {
			return v
		}
	}
	return nil
}

func (st *stream) walk(sg *Seg, conn *Term) {
	e, r, p := st.e, st.r, st.e.p
	w := e.whereSeg(sg, nil)
	path := func() string { return "path: " + strings.Join(pathOf(e, sg.Evs), " ") }
	cur := st.empty
	if sg.It != nil {
		v := st.roleOf(sg.Loop)
		if v == nil {
			for _, ev := range sg.Evs {
				if r.connRead(ev) != nil || ev.Kind == "newreader" && frameOf(ev.Res[0]) != nil {
					r.fail("carry", w, "undecided: a loop reads or takes requests but carries no buffered bytes", path())
					return
				}
			}
			return
		}
		cur = v
	}
	stop, failed, late, panics := false, false, false, false
	for i, ev := range sg.Evs {
		switch {
		case ev.Kind == "loop":
			l := e.loops[ev.Name]
			if l == nil {
				continue
			}
			if v := st.roleOf(l); v != nil {
				st.at[l] = append(st.at[l], cur)
				cur = v
			}
		case ev.Kind == "newreader" && frameOf(ev.Res[0]) != nil:
			x := frameOf(ev.Res[0])
			v, n, ok := e.frame(x)
			if !r.checkL(ok && v == cur, "frame", w, "a request is the bytes after the length at the start of the buffered bytes", func() []string { return []string{"decoded: " + x.String(), "buffered: " + cur.String(), path()} }) {
				return
			}
			r.checkL(st.whole[ev], "frame", w, "a request is decoded only when all its bytes have arrived", func() []string { return []string{path()} })
			r.check(e.entails(sg.S, p.Sub(ev.Args[1], n)), "size", w, "the reader over a request can hold all of it", "size: "+ev.Args[1].String())
			cur = p.mk("slice", "", v.typ, nil, v, p.Add(n, p.Int(4)), e.lenOf(v))
		case r.connRead(ev) != nil:
			r.check(r.connRead(ev) == conn, "carry", w, "the connection that is read is the goroutine's own", e.where(ev))
			if cur != st.empty {
				n := p.mk("rd", "4", types.Typ[types.Uint32], nil, cur, p.Int(0))
				few := e.entails(sg.S, p.Sub(p.Int(3), e.lenOf(cur))) || e.entails(sg.S, p.Sub(p.Add(n, p.Int(3)), e.lenOf(cur)))
				r.checkL(few, "prompt", w, "a read follows only if the buffered bytes do not hold a complete request", func() []string { return []string{path()} })
			}
			switch e.nilness(sg.S, ev.Res[1]) {
			case 1:
				data := p.mk("slice", "", ev.Args[1].typ, nil, bufOf(ev.Args[1]), bufLo(p, ev.Args[1]), p.Add(bufLo(p, ev.Args[1]), ev.Res[0]))
				if cur == st.empty {
					cur = data
				} else {
					cur = p.mk("concat", "", cur.typ, nil, cur, data)
				}
			case -1:
				failed = true
				late = st.timedOut(sg, ev.Res[1])
				if sg.It != nil {
					r.checkL(late, "end", w, "a failed read that is not a timeout ends the connection", func() []string { return []string{path()} })
				}
			default:
				r.fail("carry", w, "undecided: whether the read succeeded", e.where(ev))
			}
			_ = i
		case ev.Kind == "panic":
			panics = true
		}
	}
	if sg.It == nil {
		stop = e.stopped(sg.S, sg.Evs) > 0
		if sg.End.Kind == "return" && !panics {
			r.checkL(stop || failed && !late, "end", w, "the connection is given up only after a failed read or at shutdown", func() []string { return []string{path()} })
		}
		return
	}
	v := st.roleOf(sg.Loop)
	next := sg.It.Next[v]
	if next == nil {
		next = v
	}
	ok := st.sameBytes(next, cur)
	if !ok && st.ignored(sg) {
		r.pass("carry", w, "bytes read are ignored only once the client is being closed, which nothing does")
		return
	}
	r.checkL(ok, "carry", w, "the bytes carried to the next round are those not yet taken", func() []string { return []string{"carried: " + next.String(), "expected: " + cur.String(), path()} })
}

func bufOf(t *Term) *Term {
	for t.op == "slice" {
		t = t.args[0]
	}
	return t
}

func bufLo(p *TermPool, t *Term) *Term {
	lo := p.Int(0)
	for t.op == "slice" {
		lo = p.Add(lo, t.args[1])
		t = t.args[0]
	}
	return lo
}

// sameBytes: do two values hold the same bytes, however they were put together?
func (st *stream) sameBytes(a, b *Term) bool {
	if a == b {
		return true
	}
	flat := func(t *Term) []*Term {
		var out []*Term
		var rec func(t *Term)
		rec = func(t *Term) {
			switch t.op {
			case "concat":
				for _, x := range t.args {
					rec(x)
				}
			case "clone":
				rec(t.args[0])
			case "nobytes", "nil":
			default:
				if l := st.e.lenOf(t); l.isInt() && l.intVal() == 0 {
					return
				}
				if t.op == "slice" {
					// of a slice
					x, lo, hi := t.args[0], t.args[1], t.args[2]
					for x.op == "slice" {
						lo, hi, x = st.e.p.Add(lo, x.args[1]), st.e.p.Add(hi, x.args[1]), x.args[0]
					}
					if lo == st.e.p.Int(0) && hi == st.e.lenOf(x) {
						rec(x)
						return
					}
					t = st.e.p.mk("slice", "", nil, nil, x, lo, hi)
				}
				out = append(out, t)
			}
		}
		rec(t)
		return out
	}
	x, y := flat(a), flat(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

// timedOut: the error of a read was found to be its deadline passing.
func (st *stream) timedOut(sg *Seg, err *Term) bool {
	e := st.e
	for _, ev := range sg.Evs {
		if ev.Kind != "call" || len(ev.Res) == 0 || len(ev.Args) == 0 {
			continue
		}
		k, v := e.eval(sg.S, ev.Res[0])
		if !k {
			continue
		}
		if ev.Name == "errors.Is" && ev.Args[0] == err {
			deadline := strings.Contains(ev.Args[1].aux, "DeadlineExceeded")
			if deadline {
				return v
			}
			if v {
				return false
			}
		}
		if strings.HasSuffix(ev.Name, ".Timeout") && baseVal(ev.Args[0]) == err || ev.Name == "os.IsTimeout" && ev.Args[0] == err {
			return v
		}
	}
	return true // not told apart
}

// ignored: the path found a flag set that nothing sets.
func (st *stream) ignored(sg *Seg) bool {
	for _, ev := range sg.Evs {
		aux, was := boolRead(st.e, sg.S, ev)
		if aux == "" || was != 1 {
			continue
		}
		set := false
		for _, e := range st.engines {
			for _, x := range e.evlist {
				if a, v := boolSet(x); a == aux && v != 0 {
					set = true
				}
			}
		}
		if !set {
			return true
		}
	}
	return false
}

// boolRead: a read of a boolean field and what it gave on this path.
func boolRead(e *Engine, s *State, ev *Event) (aux string, was int) {
	val := func(t *Term) int {
		if known, v := e.eval(s, t); known {
			if v {
				return 1
			}
			return 0
		}
		return -1
	}
	switch ev.Kind {
	case "call":
		if !strings.HasPrefix(ev.Name, "(*sync/atomic.Bool).") || ev.Args[0].op != "field" {
			return "", -1
		}
		switch ev.Name {
		case "(*sync/atomic.Bool).Swap", "(*sync/atomic.Bool).Load":
			return ev.Args[0].aux, val(ev.Res[0])
		case "(*sync/atomic.Bool).CompareAndSwap":
			w := val(ev.Res[0])
			if w < 0 || !ev.Args[1].isBool() {
				return ev.Args[0].aux, -1
			}
			if (ev.Args[1].op == "true") == (w == 1) {
				return ev.Args[0].aux, 1
			}
			return ev.Args[0].aux, 0
		}
	case "load":
		if ev.Args[0].op == "field" && isBoolT(ev.Args[1].typ) {
			return ev.Args[0].aux, val(ev.Args[1])
		}
	}
	return "", -1
}

// boolSet: a write to a boolean field: 1, 0, or 2 if it is not known which.
func boolSet(ev *Event) (aux string, v int) {
	switch ev.Kind {
	case "call":
		if !strings.HasPrefix(ev.Name, "(*sync/atomic.Bool).") || ev.Args[0].op != "field" {
			return "", -1
		}
		switch ev.Name {
		case "(*sync/atomic.Bool).Swap", "(*sync/atomic.Bool).Store":
			return ev.Args[0].aux, bit(ev.Args[1])
		case "(*sync/atomic.Bool).CompareAndSwap":
			return ev.Args[0].aux, bit(ev.Args[2])
		}
	case "store":
		if ev.Args[0].op == "field" && (ev.Args[1].isBool() || isBoolT(ev.Args[1].typ)) {
			return ev.Args[0].aux, bit(ev.Args[1])
		}
	}
	return "", -1
}

func bit(t *Term) int {
	switch t.op {
	case "true":
		return 1
	case "false":
		return 0
	}
	return 2
}

// inits: what the loops' buffers start with.
func (st *stream) inits(segs []*Seg, sps map[*Event]*Term) {
	e, r := st.e, st.r
	for v, l := range st.roles {
		w := shortFn(l.Ctx.fn)
		seen := map[*Term]bool{}
		at := map[*Term]bool{}
		for _, cur := range st.at[l] {
			at[cur] = true
		}
		for _, in := range l.Inits {
			t := in[v]
			if t == nil {
				r.fail("start", w, "undecided: what the buffered bytes start as")
				continue
			}
			if seen[t] {
				continue
			}
			seen[t] = true
			ok := false
			for cur := range at {
				if cur == st.empty {
					if t.isNil() || e.lenOf(t) == e.p.Int(0) {
						ok = true
					} else if t.op == "havoc" && strings.HasPrefix(t.aux, "go/") {
						ok = st.confined(t, segs, sps, w)
					}
				} else if st.sameBytes(t, cur) {
					ok = true
				}
			}
			r.check(ok, "start", w, "the buffered bytes start empty", "start: "+t.String())
		}
	}
}

// confined: the field was empty when the goroutine was started, and nothing
// but that goroutine changes it.
func (st *stream) confined(t *Term, segs []*Seg, sps map[*Event]*Term, w string) bool {
	e, r := st.e, st.r
	id, err := strconv.Atoi(t.aux[strings.LastIndexByte(t.aux, '/')+1:])
	if err != nil || id < 0 || id >= len(e.p.list) {
		return false
	}
	cell := e.p.list[id]
	if cell.op != "field" {
		return false
	}
	aux := cell.aux
	ok := true
	n := 0
	for _, sg := range segs {
		var last *Event
		for _, ev := range sg.Evs {
			if ev.Kind == "store" && ev.Args[0] == cell {
				last = ev
			}
			if ev.Kind == "go" && sps[ev] != nil && mentions(sg.S, ev, cell.args[0]) {
				n++
				if last != nil && !(last.Args[1].isNil() || e.lenOf(last.Args[1]) == e.p.Int(0)) {
					ok = false
				}
			}
		}
	}
	for _, e2 := range st.engines {
		sp2 := serveSpawns(r, e2)
		for _, sg := range e2.segs() {
			own := sg.Spawn != nil && sp2[sg.Spawn.Ev] != nil
			gone := false
			for _, ev := range sg.Evs {
				if ev.Kind == "go" && sp2[ev] != nil {
					gone = true
				}
				if ev.Kind != "store" || ev.Args[0].op != "field" || ev.Args[0].aux != aux || own {
					continue
				}
				if !r.check(ev.Args[0].args[0].op == "new" && !gone, "start", e2.whereSeg(sg, ev), "the buffered bytes are changed by the connection's own goroutine only", e2.where(ev)) {
					ok = false
				}
			}
		}
	}
	return ok && n > 0
}
