package main

// Models of builtins and of the library functions the repository uses.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) guardEpoch(s *State, addr *Term) *Term {
	mu, ok := e.pr.guardOf[addr.aux]
	if !ok {
		return nil
	}
	base := addr.args[0]
	if base.op == "new" && !s.shared[base] {
		return nil
	}
	for i := len(s.locks) - 1; i >= 0; i-- {
		l := s.locks[i]
		if (l.addr.op == "field" || l.addr.op == "fld") && l.addr.aux == mu && l.addr.args[0] == base {
			return l.epoch
		}
	}
	return e.p.sym("unheld", "", nil, nil)
}

// noteAccess reports loads and stores of fields, elements and globals.
func (e *Engine) noteAccess(s *State, ins ssa.Instruction, kind string, a, v *Term) {
	if kind == "load" && a.op != "field" {
		if pt := pointee(a.typ); pt != nil && e.pr.hasMutex(pt) {
			e.emit(s, ins, "loadstruct", a.aux, []*Term{a, v}, nil)
			return
		}
	}
	switch a.op {
	case "field":
		if kind == "load" {
			if _, g := e.pr.guardOf[a.aux]; !g {
				return
			}
		}
	case "index":
	case "global":
	default:
		if kind == "load" || a.op == "new" {
			return
		}
	}
	if kind == "load" && a.op == "index" {
		return
	}
	e.emit(s, ins, kind, a.aux, []*Term{a, v}, nil)
}

func (e *Engine) noteMap(s *State, ins ssa.Instruction, kind string, m, k, v *Term) {
	args := []*Term{m}
	if k != nil {
		args = append(args, k)
	}
	if v != nil {
		args = append(args, v)
	}
	e.emit(s, ins, kind, "", args, nil)
}

// ---- byte contents -------------------------------------------------------------

func (e *Engine) cat(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		if p.op == "cat" {
			out = append(out, p.args...)
		} else {
			out = append(out, p)
		}
	}
	return e.p.mk("cat", "", nil, nil, e.joinBytes(out)...)
}

// joinBytes puts together the bytes of a number written one by one.
func (e *Engine) joinBytes(ps []*Term) []*Term {
	for i := 1; i < len(ps); i++ {
		if !isByte(ps[i]) || !isByte(ps[i-1]) {
			continue
		}
		for _, w := range []int{8, 4, 2} {
			if i+1 < w {
				continue
			}
			v := e.be(w, ps[i].args[0]).args[0]
			ok := true
			for k := 1; k < w && ok; k++ {
				x := ps[i-k]
				ok = isByte(x) && x.args[0].op == "bin:>>" && x.args[0].args[1] == e.p.Int(int64(8*k)) && e.be(w, x.args[0].args[0]).args[0] == v
			}
			if ok && !v.isInt() {
				out := append([]*Term{}, ps[:i+1-w]...)
				out = append(out, e.be(w, v))
				return e.joinBytes(append(out, ps[i+1:]...))
			}
		}
	}
	return ps
}

func isByte(t *Term) bool { return t.op == "be" && t.aux == "1" }

// be is a big-endian part of the given width: only the low bits of v count.
func (e *Engine) be(w int, v *Term) *Term {
	for v.op == "conv" && v.typ != nil {
		b, _, ok := intRange(v.typ)
		if !ok || b < 8*w {
			break
		}
		v = v.args[0]
	}
	if v.isInt() && w < 8 {
		v = e.p.Int(v.intVal() & (1<<uint(8*w) - 1))
	}
	return e.p.mk("be", strconv.Itoa(w), nil, w, v)
}

func (e *Engine) contentCell(x *Term) *Term {
	if x.op == "iface" {
		x = x.args[0]
	}
	return e.p.mk("content", "", nil, nil, x)
}

func (e *Engine) getContent(s *State, x *Term) *Term {
	c := e.contentCell(x)
	if v, ok := s.mem[c]; ok {
		if v.op != "cat" {
			return e.cat(v)
		}
		return v
	}
	x = c.args[0]
	if x.op == "new" || x.op == "bufw" {
		return e.cat()
	}
	if x.op == "param" && x.typ != nil && strings.HasSuffix(typeKey(x.typ), "bufio.Writer") {
		return e.cat()
	}
	return e.cat(e.p.mk("before", "", nil, nil, x))
}

func (e *Engine) addContent(s *State, x *Term, parts ...*Term) {
	v := e.getContent(s, x)
	s.mem[e.contentCell(x)] = e.cat(append([]*Term{v}, parts...)...)
}

// parts gives the bytes a value consists of, as far as they are known.
func (e *Engine) parts(s *State, t *Term) []*Term {
	switch t.op {
	case "nil":
		return nil
	case "str":
		if t.aux == "" {
			return nil
		}
	case "bytesval":
		return e.parts(s, t.args[0])
	case "cat":
		return t.args
	case "concat":
		var out []*Term
		for _, a := range t.args {
			out = append(out, e.parts(s, a)...)
		}
		return out
	case "append":
		out := e.parts(s, t.args[0])
		for _, a := range t.args[1:] {
			out = append(append([]*Term{}, out...), e.be(1, a))
		}
		return out
	case "conv":
		return e.parts(s, t.args[0])
	case "clone":
		return e.parts(s, t.args[0])
	case "makeslice":
		if o, ok := e.region(s, t, e.p.Int(0), t.args[0]); ok {
			return o
		}
	case "slice":
		if t.args[0].op == "new" || t.args[0].op == "makeslice" {
			if o, ok := e.region(s, t.args[0], t.args[1], t.args[2]); ok {
				return o
			}
		}
		if inner := t.args[0]; inner.op != "strm" && inner.op != "loop" && inner.op != "param" {
			ps := e.parts(s, inner)
			if !(len(ps) == 1 && ps[0].op == "raw") {
				if o, ok := e.cutParts(ps, t.args[1], t.args[2]); ok {
					return o
				}
			}
		}
	}
	return []*Term{e.p.mk("raw", "", nil, nil, t)}
}

func (e *Engine) cutParts(ps []*Term, lo, hi *Term) ([]*Term, bool) {
	cur := e.p.Int(0)
	i := 0
	for i < len(ps) && cur != lo {
		cur = e.p.Add(cur, e.partLen(ps[i]))
		i++
	}
	if cur != lo {
		return nil, false
	}
	var out []*Term
	for i < len(ps) && cur != hi {
		out = append(out, ps[i])
		cur = e.p.Add(cur, e.partLen(ps[i]))
		i++
	}
	if cur != hi {
		return nil, false
	}
	return out, true
}

// region assembles the bytes [lo,hi) of a buffer from what was stored there.
func (e *Engine) region(s *State, base, lo, hi *Term) ([]*Term, bool) {
	type w struct{ off, part *Term }
	var ws []w
	for c, v := range s.mem {
		if c.op == "wr" && c.args[0] == base {
			ws = append(ws, w{c.args[1], v})
		}
		if c.op == "index" && c.args[0] == base {
			ws = append(ws, w{c.args[1], e.be(1, v)})
		}
	}
	zero := base.op == "makeslice" || s.mem[base] != nil && s.mem[base].op == "zero"
	var out []*Term
	cur := lo
	for n := 0; n < 4000 && cur != hi; n++ {
		found := false
		for _, x := range ws {
			if x.off == cur {
				out = append(out, x.part)
				cur = e.p.Add(cur, e.partLen(x.part))
				found = true
				break
			}
		}
		if found {
			continue
		}
		// an unwritten stretch of constant length is zero
		d := e.p.Sub(hi, cur)
		for _, x := range ws {
			k := e.p.Sub(x.off, cur)
			if k.isInt() && k.intVal() > 0 && (!d.isInt() || k.intVal() < d.intVal()) {
				d = k
			}
		}
		if zero && d.isInt() && d.intVal() > 0 && d.intVal() <= 4096 {
			for i := int64(0); i < d.intVal(); i++ {
				out = append(out, e.be(1, e.p.Int(0)))
			}
			cur = e.p.Add(cur, d)
			continue
		}
		return nil, false
	}
	return mergeBytes(e, out), cur == hi
}

// mergeBytes joins single constant or shifted bytes into wider parts.
func mergeBytes(e *Engine, ps []*Term) []*Term {
	// byte(v>>24), byte(v>>16), byte(v>>8), byte(v)  ==> be4(v)
	for _, w := range []int{8, 4, 2} {
		var out []*Term
		for i := 0; i < len(ps); {
			if i+w <= len(ps) {
				if v := sameShifts(ps[i : i+w]); v != nil {
					out = append(out, e.be(w, v))
					i += w
					continue
				}
			}
			out = append(out, ps[i])
			i++
		}
		ps = out
	}
	return ps
}

func sameShifts(ps []*Term) *Term {
	strip := func(t *Term) *Term {
		for t.op == "conv" {
			t = t.args[0]
		}
		return t
	}
	n := len(ps)
	last := ps[n-1]
	if last.op != "be" || last.aux != "1" || last.args[0].isInt() {
		return nil
	}
	v := strip(last.args[0])
	for i := 0; i < n-1; i++ {
		p := ps[i]
		if p.op != "be" || p.aux != "1" {
			return nil
		}
		x := p.args[0]
		for x.op == "conv" {
			x = x.args[0]
		}
		if x.op != "bin:>>" || !x.args[1].isInt() || x.args[1].intVal() != int64(8*(n-1-i)) || strip(x.args[0]) != v {
			return nil
		}
	}
	return v
}

// writeBytes stores a part at an offset of a byte buffer.
func (e *Engine) writeBytes(s *State, fr *Frame, ins ssa.Instruction, dst *Term, part *Term) {
	base, off := dst, e.p.Int(0)
	for base.op == "slice" {
		off = e.p.Add(base.args[1], off)
		base = base.args[0]
	}
	n := e.partLen(part)
	for c, v := range s.mem {
		if (c.op == "wr" || c.op == "index") && c.args[0] == base {
			d := e.p.Sub(c.args[1], off)
			if !d.isInt() {
				continue
			}
			cl := int64(1)
			if c.op == "wr" {
				l := e.partLen(v)
				if !l.isInt() {
					if d.intVal() == 0 {
						delete(s.mem, c)
					}
					continue
				}
				cl = l.intVal()
			}
			k := d.intVal()
			if n.isInt() && k+cl > 0 && k < n.intVal() || !n.isInt() && k >= 0 {
				delete(s.mem, c)
			}
		}
	}
	s.mem[e.p.mk("wr", "", nil, nil, base, off)] = part
	if base.op != "new" && base.op != "makeslice" || s.escaped[base] {
		s.memver["e:*byte"] = e.fresh(fr, ins, "ver", nil)
		s.memver["e:*uint8"] = e.fresh(fr, ins, "ver", nil)
	}
	e.emit(s, ins, "bytestore", "", []*Term{dst, part}, nil)
}

// ---- builtins ------------------------------------------------------------------

func (e *Engine) builtin(s *State, c *CallInfo, name string) bool {
	fr, ins := c.fr, c.ins
	switch name {
	case "len":
		x := c.args[0]
		if pt := pointee(c.common.Args[0].Type()); pt != nil {
			return e.setRes(s, c, e.p.Int(pt.Underlying().(*types.Array).Len()))
		}
		if mt, ok := c.common.Args[0].Type().Underlying().(*types.Map); ok {
			_ = mt
			if x.op == "nil" || x.op == "zero" {
				return e.setRes(s, c, e.p.Int(0))
			}
			e.noteMap(s, ins, "maplen", x, nil, nil)
			if ks, ok := e.knownEntries(s, x); ok && e.pr.opts.unrollMaps {
				return e.setRes(s, c, e.p.Int(int64(len(ks))))
			}
			args := []*Term{x}
			if v := s.memver[e.mapKeyVer(x)]; v != nil {
				args = append(args, v)
			}
			return e.setRes(s, c, e.p.mk("len", "", types.Typ[types.Int], nil, args...))
		}
		return e.setRes(s, c, e.lenOf(x))
	case "cap":
		x := c.args[0]
		if x.op == "makeslice" {
			return e.setRes(s, c, x.args[1])
		}
		return e.setRes(s, c, e.p.mk("cap", "", types.Typ[types.Int], nil, x))
	case "append":
		a, b := c.args[0], c.args[1]
		T := c.common.Args[0].Type()
		var r *Term
		var elems []*Term
		known := false
		if b.op == "slice" && b.args[0].op == "new" && b.args[1].isInt() && b.args[2].isInt() && b.args[2].intVal()-b.args[1].intVal() <= 64 {
			et := T.Underlying().(*types.Slice).Elem()
			for i := b.args[1].intVal(); i < b.args[2].intVal(); i++ {
				elems = append(elems, e.load(s, e.p.mk("index", "", types.NewPointer(et), nil, b.args[0], e.p.Int(i)), et))
			}
			known = true
		}
		switch {
		case b.isNil():
			r = a
		case known:
			if a.op == "append" {
				r = e.p.mk("append", "", T, nil, append(append([]*Term{}, a.args...), elems...)...)
			} else {
				r = e.p.mk("append", "", T, nil, append([]*Term{a}, elems...)...)
			}
		case a.isNil():
			r = e.p.mk("concat", "", T, nil, b)
			if b.typ != nil && isString(b.typ) {
				r = e.p.mk("concat", "", T, nil, e.p.mk("conv", "[]byte", T, nil, b))
			}
		default:
			// byte contents that are known now must not change with the buffer
			if isByteSlice(T) {
				r = e.p.mk("concat", "", T, nil, e.snapshot(s, a), e.snapshot(s, b))
			} else {
				r = e.p.mk("concat", "", T, nil, a, b)
			}
		}
		e.emit(s, ins, "append", "", append([]*Term{a}, r), nil)
		return e.setRes(s, c, r)
	case "copy":
		d, src := c.args[0], c.args[1]
		base := d
		for base.op == "slice" {
			base = base.args[0]
		}
		if isByteSlice(c.common.Args[0].Type()) {
			ps := e.parts(s, src)
			off := e.p.Int(0)
			for _, p := range ps {
				e.writeBytes(s, fr, ins, e.p.mk("slice", "", nil, nil, d, off, off), p)
				off = e.p.Add(off, e.partLen(p))
			}
		}
		e.emit(s, ins, "copy", "", []*Term{d, src}, nil)
		if c.mode == "" {
			n := e.fresh(fr, ins, "copied", types.Typ[types.Int], d, src)
			return e.setRes(s, c, n)
		}
		return e.setRes(s, c)
	case "delete":
		m, k := c.args[0], c.args[1]
		e.noteMap(s, ins, "mapdel", m, k, nil)
		cell := e.mapcell(m, k)
		for x := range s.mem {
			if x.op == "mapcell" && x != cell && e.mayAliasMap(s, x.args[0], m) {
				if kn, v := e.eval(s, e.p.Eq(x.args[1], k)); !(kn && !v) {
					delete(s.mem, x)
				}
			}
		}
		s.mem[cell] = e.p.mk("deleted", "", nil, nil)
		s.memver[e.mapKeyVer(m)] = e.fresh(fr, ins, "ver", nil)
		return e.setRes(s, c)
	case "clear":
		e.noteMap(s, ins, "mapclear", c.args[0], nil, nil)
		for x := range s.mem {
			if x.op == "mapcell" && e.mayAliasMap(s, x.args[0], c.args[0]) {
				delete(s.mem, x)
			}
		}
		s.memver[e.mapKeyVer(c.args[0])] = e.fresh(fr, ins, "ver", nil)
		return e.setRes(s, c)
	case "close":
		e.emit(s, ins, "close", "", c.args, nil)
		return e.setRes(s, c)
	case "recover":
		// a deferred call that recovers stops the unwinding
		n := len(s.frames)
		if n >= 2 && s.frames[n-2].panicking {
			s.recovered = true
			return e.setRes(s, c, e.fresh(fr, ins, "errnew", c.result().At(0).Type()))
		}
		return e.setRes(s, c, e.p.Nil())
	case "min", "max":
		if len(c.args) == 2 && isInteger(c.common.Args[0].Type()) {
			a, b := c.args[0], c.args[1]
			cond := e.p.Ge0(e.p.Sub(b, a)) // a <= b
			pick := func(le bool) *Term {
				if (name == "min") == le {
					return a
				}
				return b
			}
			if kn, v := e.eval(s, cond); kn {
				return e.setRes(s, c, pick(v))
			}
			o := s.clone()
			if e.assume(o, cond, false) {
				co := *c
				co.fr = o.top()
				if e.setRes(o, &co, pick(false)) {
					e.push(o)
				}
			}
			e.assume(s, cond, true)
			return e.setRes(s, c, pick(true))
		}
		return e.setRes(s, c, e.p.mk(name, "", c.common.Args[0].Type(), nil, c.args...))
	case "ssa:wrapnilchk":
		return e.setRes(s, c, c.args[0])
	case "print", "println":
		return e.setRes(s, c)
	}
	e.problem("unhandled builtin %s in %s", name, fr.fn.String())
	return false
}

func isByteSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// snapshot fixes the present contents of a byte buffer in a value.
func (e *Engine) snapshot(s *State, t *Term) *Term {
	ps := e.parts(s, t)
	if len(ps) == 1 && ps[0].op == "raw" && ps[0].args[0] == t {
		return t
	}
	return e.p.mk("bytesval", "", nil, nil, e.cat(ps...))
}

// ---- library calls -------------------------------------------------------------

// calls that neither change memory the analysis tracks nor keep their arguments
func quietCall(n string) bool {
	for _, p := range []string{"fmt.", "errors.", "strings.", "strconv.", "time.", "(time.", "(lane.Lane).", "(go-lane.", "math.", "(net.", "net.", "(*net.", "(*os.", "os.", "syscall.", "(sync/atomic", "sync/atomic", "(*sync", "hash/", "bytes.", "unicode", "(error)", "(context", "context.", "github.com/google/uuid", "(github.com/google/uuid", "(reflect", "reflect.", "(*bufio", "(*bytes", "bufio.", "slices.", "maps.", "sort."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// acquires: calls that give a connection, listener or file to close, or an error.
func acquires(n string) bool {
	switch n {
	case "(net.Listener).Accept", "(*net.TCPListener).Accept", "(*net.TCPListener).AcceptTCP", "net.Listen", "net.ListenTCP",
		"(*net.ListenConfig).Listen", "(net.ListenConfig).Listen", "(*net.conn).File", "(*net.TCPConn).File", "(*net.TCPListener).File",
		"net.Dial", "net.DialTimeout", "net.DialTCP", "os.Open", "os.Create", "os.OpenFile", "net.FileConn", "net.FileListener":
		return true
	}
	return false
}

func pureCall(n string) bool {
	switch n {
	case "(time.Time).Add", "(time.Time).After", "(time.Time).Before", "(time.Time).UnixMilli", "(time.Time).Sub", "(time.Time).UnixNano", "(time.Time).Unix", "(time.Time).IsZero", "(time.Time).Equal", "(time.Time).Compare", "(time.Duration).Milliseconds", "time.UnixMilli",
		"errors.Is", "strconv.Itoa", "strconv.FormatInt", "hash/crc32.Update", "hash/crc32.Checksum", "hash/crc32.ChecksumIEEE", "hash/crc32.MakeTable",
		"(net.Conn).LocalAddr", "(net.Conn).RemoteAddr", "(net.Addr).String", "(lane.Lane).Done", "(context.Context).Done", "strings.ToLower", "strings.HasPrefix", "strings.Split", "strings.Cut", "math.Float64bits", "math.Float64frombits", "bytes.Equal", "(*os.File).Fd":
		return true
	}
	return false
}

func (e *Engine) external(s *State, c *CallInfo) bool {
	n := c.name
	fr, ins := c.fr, c.ins
	n = strings.ReplaceAll(n, "github.com/jimsnab/go-lane.", "lane.")
	p := e.p
	a := c.args
	for _, x := range a {
		if e.pr.ownGlobal(x) != nil {
			e.emit(s, ins, "lib", n, a, nil)
			break
		}
	}
	switch n {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(sync.Locker).Lock":
		mode := byte('W')
		if strings.HasSuffix(n, "RLock") {
			mode = 'R'
		}
		e.lock(s, c, a[0], mode)
		return e.setRes(s, c)
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock", "(sync.Locker).Unlock":
		mode := byte('W')
		if strings.HasSuffix(n, "RUnlock") {
			mode = 'R'
		}
		e.unlock(s, c, a[0], mode)
		return e.setRes(s, c)
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		if c.mode == "" {
			o := s.clone()
			co := *c
			co.fr = o.top()
			if e.setRes(o, &co, p.Bool(false)) {
				e.push(o)
			}
			e.lock(s, c, a[0], 'W')
			return e.setRes(s, c, p.Bool(true))
		}
	case "(*sync.Once).Do":
		// runs the function at most once; both cases
		if c.mode == "" && (a[1].op == "closure" || a[1].op == "fn") {
			done := p.mk("oncedone", "", nil, nil, a[0])
			if v := s.mem[done]; v != nil && v.op == "true" {
				return e.setRes(s, c)
			}
			if !e.pr.opts.unrollMaps { // else all that ever ran is on this path
				o := s.clone()
				co := *c
				co.fr = o.top()
				e.emit(o, ins, "once", "done before", []*Term{a[0]}, nil)
				if e.setRes(o, &co) {
					e.push(o)
				}
			}
			s.mem[done] = p.Bool(true)
			f := a[1].obj.(*ssa.Function)
			e.emit(s, ins, "once", n, []*Term{a[0]}, nil)
			if len(f.Blocks) > 0 {
				var bind []*Term
				if a[1].op == "closure" {
					bind = a[1].args
				}
				e.enter(s, f, nil, bind, c.at, nil, nil)
				s.top().once = e.pr.ownGlobal(a[0]) != nil
				return true
			}
		}
	case "(*sync.WaitGroup).Go":
		e.emit(s, ins, "call", "(*sync.WaitGroup).Add", []*Term{a[0], p.Int(1)}, nil)
		cc := *c
		if a[1].op == "closure" || a[1].op == "fn" {
			cc.fn = a[1].obj.(*ssa.Function)
			cc.name = fnName(cc.fn)
			if a[1].op == "closure" {
				cc.bind = a[1].args
			}
		}
		cc.args = nil
		cc.mode = "wggo"
		e.goCall(s, &cc)
		return e.setRes(s, c)
	case "time.Now":
		r := e.fresh(fr, ins, "now", c.result().At(0).Type())
		e.emit(s, ins, "call", n, nil, []*Term{r})
		return e.setRes(s, c, r)
	case "time.Since", "time.Until":
		r := e.fresh(fr, ins, "now", c.args[0].typ)
		e.emit(s, ins, "call", "time.Now", nil, []*Term{r})
		x, y := r, c.args[0]
		if n == "time.Until" {
			x, y = y, x
		}
		return e.setRes(s, c, p.mk("call", "(time.Time).Sub", c.result().At(0).Type(), nil, x, y))
	case "(time.Time).Before":
		r := p.mk("call", "(time.Time).After", c.result().At(0).Type(), nil, a[1], a[0])
		e.emit(s, ins, "call", "(time.Time).After", []*Term{a[1], a[0]}, []*Term{r})
		return e.setRes(s, c, r)
	case "errors.Is":
		if a[0].isNil() && a[1].op == "gval" {
			return e.setRes(s, c, p.Bool(false)) // the errors of the library's variables are none of them nil
		}
	case "errors.As":
		// true: the target holds an error found in the chain; false: it is as it was
		if a[0].isNil() {
			return e.setRes(s, c, p.Bool(false))
		}
		if it := ifaceType(a[1]); it != nil && c.mode == "" {
			if T := pointee(it); T != nil {
				is := p.mk("call", "errors.As", types.Typ[types.Bool], nil, a[0], p.Str(typeKey(T)))
				o := s.clone()
				co := *c
				co.fr = o.top()
				e.emit(o, ins, "call", n, a, []*Term{is})
				if e.assume(o, is, false) && e.setRes(o, &co, p.Bool(false)) {
					e.push(o)
				}
				e.emit(s, ins, "call", n, a, []*Term{is})
				if !e.assume(s, is, true) {
					return false
				}
				v := p.mk("errfound", typeKey(T), T, nil, a[0])
				if pointee(T) != nil {
					e.assume(s, p.Eq(v, p.Nil()), false)
				}
				e.store(s, fr, ins, a[1].args[0], v)
				return e.setRes(s, c, p.Bool(true))
			}
		}
	case "fmt.Errorf", "errors.New":
		return e.setRes(s, c, e.fresh(fr, ins, "errnew", c.result().At(0).Type()))
	case "fmt.Sprintf":
		if r := e.sprintf(s, a); r != nil {
			return e.setRes(s, c, r)
		}
		if c.mode == "" {
			args := append([]*Term{a[0]}, e.variadic(s, a[1])...)
			return e.setRes(s, c, p.mk("call", n, types.Typ[types.String], nil, args...))
		}
	case "strconv.Atoi":
		if a[0].op == "str" {
			if v, err := strconv.Atoi(a[0].aux); err == nil {
				return e.setRes(s, c, p.Int(int64(v)), p.Nil())
			}
		}
	case "strconv.Itoa":
		if a[0].isInt() {
			return e.setRes(s, c, p.Str(a[0].aux))
		}
	case "strings.Split":
		if a[0].op == "str" && a[1].op == "str" {
			return e.setRes(s, c, e.strList(s, c, strings.Split(a[0].aux, a[1].aux)))
		}
	case "strings.SplitN":
		if a[0].op == "str" && a[1].op == "str" && a[2].isInt() {
			return e.setRes(s, c, e.strList(s, c, strings.SplitN(a[0].aux, a[1].aux, int(a[2].intVal()))))
		}
	case "strings.Cut":
		if a[0].op == "str" && a[1].op == "str" {
			x, y, ok := strings.Cut(a[0].aux, a[1].aux)
			return e.setRes(s, c, p.Str(x), p.Str(y), p.Bool(ok))
		}
	case "sort.Ints", "slices.Sort":
		if e.sortConst(s, a[0]) {
			return e.setRes(s, c)
		}
		return e.permute(s, c, a[0])
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "sort.Sort", "sort.Strings":
		return e.permute(s, c, a[0])
	case "bytes.Clone", "slices.Clone", "strings.Clone":
		if a[0].isNil() {
			return e.setRes(s, c, a[0])
		}
		ps := a[0]
		r := p.mk("clone", "", c.result().At(0).Type(), nil, ps)
		// nil stays nil
		return e.setRes(s, c, r)
	case "bufio.NewReader", "bufio.NewReaderSize":
		r := e.fresh(fr, ins, "bufr", c.result().At(0).Type(), a[0])
		size := p.Int(4096)
		if len(a) > 1 {
			size = a[1]
		}
		s.mem[p.mk("under", "", nil, nil, r)] = a[0]
		s.mem[e.contentCell(r)] = p.Int(0)
		u := a[0]
		if u.op == "iface" {
			u = u.args[0]
		}
		if u.op == "bytesbuf" {
			d := p.Sub(e.lenOf(e.strm(r)), e.lenOf(e.getContent(s, u)))
			e.assume(s, p.Ge0(d), true)
			e.assume(s, p.Ge0(p.Scale(d, -1)), true)
		}
		e.emit(s, ins, "newreader", n, []*Term{a[0], size}, []*Term{r})
		return e.setRes(s, c, r)
	case "bufio.NewWriter", "bufio.NewWriterSize":
		r := e.fresh(fr, ins, "bufw", c.result().At(0).Type(), a[0])
		e.clearObj(s, r)
		s.mem[p.mk("under", "", nil, nil, r)] = a[0]
		s.mem[e.contentCell(r)] = e.cat()
		return e.setRes(s, c, r)
	case "(*bufio.Reader).Peek":
		return e.peek(s, c)
	case "(*bufio.Reader).Discard":
		pos := e.rpos(s, a[0])
		e.emit(s, ins, "discard", "", []*Term{a[0], a[1]}, nil)
		e.within(s, ins, "discard", a[0], a[1])
		s.mem[e.contentCell(a[0])] = p.Add(pos, a[1])
		if c.mode == "" {
			return e.setRes(s, c, a[1], e.fresh(fr, ins, "err", c.result().At(1).Type()))
		}
		return e.setRes(s, c)
	case "(*bufio.Reader).Buffered":
		return e.setRes(s, c, p.Sub(p.mk("len", "", types.Typ[types.Int], nil, e.strm(a[0])), e.rpos(s, a[0])))
	case "(*bufio.Writer).Write", "(*bytes.Buffer).Write":
		e.addContent(s, a[0], e.parts(s, a[1])...)
		return e.setRes(s, c, e.lenOf(a[1]), p.Nil())
	case "(*bufio.Writer).WriteString", "(*bytes.Buffer).WriteString":
		e.addContent(s, a[0], e.parts(s, a[1])...)
		return e.setRes(s, c, e.lenOf(a[1]), p.Nil())
	case "(*bufio.Writer).WriteByte", "(*bytes.Buffer).WriteByte":
		e.addContent(s, a[0], e.be(1, a[1]))
		return e.setRes(s, c, p.Nil())
	case "encoding/binary.Write":
		if a[0].op != "iface" || a[1].op != "iface" || !strings.HasSuffix(a[1].aux, "bigEndian") || a[2].op != "iface" || a[2].typ == nil {
			break
		}
		w, _, fixed := intRange(a[2].typ)
		if b, is := a[2].typ.Underlying().(*types.Basic); !fixed || is && (b.Kind() == types.Int || b.Kind() == types.Uint) {
			break
		}
		part := e.be(w/8, a[2].args[0])
		if e.isBuffer(a[0]) || strings.HasSuffix(a[0].aux, "bufio.Writer") {
			e.addContent(s, a[0].args[0], part)
			return e.setRes(s, c, p.Nil())
		}
	case "(*bufio.Writer).Flush":
		if u, ok := s.mem[p.mk("under", "", nil, nil, a[0])]; ok {
			v := e.getContent(s, a[0])
			if e.isBuffer(u) {
				e.addContent(s, u, v)
			} else {
				k := e.siteKey(fr, ins)
				nw, err := p.sym("res", n+"@"+k+".n", types.Typ[types.Int], e.site(fr, ins)), p.sym("res", n+"@"+k+".0", c.result().At(0).Type(), e.site(fr, ins))
				e.emit(s, ins, "call", "write", []*Term{u, p.mk("bytesval", "", nil, nil, v)}, []*Term{nw, err})
				s.mem[e.contentCell(a[0])] = e.cat()
				e.emit(s, ins, "flush", "", []*Term{a[0]}, nil)
				return e.setRes(s, c, err)
			}
			s.mem[e.contentCell(a[0])] = e.cat()
		}
		e.emit(s, ins, "flush", "", []*Term{a[0]}, nil)
		return e.setRes(s, c, p.Nil())
	case "bytes.NewBuffer":
		r := e.fresh(fr, ins, "bytesbuf", c.result().At(0).Type(), a[0])
		s.mem[e.contentCell(r)] = e.cat(e.parts(s, a[0])...)
		return e.setRes(s, c, r)
	case "bytes.NewReader":
		r := e.fresh(fr, ins, "bytesbuf", c.result().At(0).Type(), a[0])
		s.mem[e.contentCell(r)] = e.cat(e.parts(s, a[0])...)
		return e.setRes(s, c, r)
	case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String":
		if e.pending(s, a[0]) {
			return e.setRes(s, c, e.fresh(fr, ins, "unflushed", c.result().At(0).Type()))
		}
		return e.setRes(s, c, p.mk("bytesval", "", c.result().At(0).Type(), nil, e.getContent(s, a[0])))
	case "(*bytes.Buffer).Len", "(*bytes.Reader).Len":
		if e.pending(s, a[0]) {
			return e.setRes(s, c, e.fresh(fr, ins, "unflushed", c.result().At(0).Type()))
		}
		for x, u := range s.mem {
			if x.op == "under" && s.mem[p.mk("drained", "", nil, nil, x.args[0])] != nil && e.contentCell(u) == e.contentCell(a[0]) {
				// a reader has taken some of it
				l := e.fresh(fr, ins, "undrained", c.result().At(0).Type())
				e.assume(s, p.Ge0(l), true)
				return e.setRes(s, c, l)
			}
		}
		return e.setRes(s, c, e.lenOf(e.getContent(s, a[0])))
	case "(*bytes.Buffer).Reset", "(*bytes.Buffer).Truncate":
		if n == "(*bytes.Buffer).Reset" {
			s.mem[e.contentCell(a[0])] = e.cat()
		} else {
			s.mem[e.contentCell(a[0])] = e.cat(e.fresh(fr, ins, "trunc", nil))
		}
		return e.setRes(s, c)
	case "(encoding/binary.bigEndian).Uint16", "(encoding/binary.bigEndian).Uint32", "(encoding/binary.bigEndian).Uint64",
		"(encoding/binary.littleEndian).Uint16", "(encoding/binary.littleEndian).Uint32", "(encoding/binary.littleEndian).Uint64":
		bits, _ := strconv.Atoi(n[strings.LastIndex(n, "Uint")+4:])
		w := bits / 8
		x := a[len(a)-1]
		if !e.require(s, ins, "index out of range", p.Ge0(p.Sub(e.lenOf(x), p.Int(int64(w)))), x) {
			return false
		}
		op := "rd"
		if strings.Contains(n, "little") {
			op = "rdle"
		}
		base, off := x, p.Int(0)
		for base.op == "slice" {
			off = p.Add(base.args[1], off)
			base = base.args[0]
		}
		if (base.op == "new" || base.op == "makeslice") && op == "rd" {
			if ps, ok := e.region(s, base, off, p.Add(off, p.Int(int64(w)))); ok && len(ps) == 1 && ps[0].op == "be" && ps[0].aux == strconv.Itoa(w) {
				return e.setRes(s, c, ps[0].args[0])
			}
		}
		return e.setRes(s, c, p.mk(op, strconv.Itoa(w), c.result().At(0).Type(), nil, base, off))
	case "(encoding/binary.bigEndian).PutUint16", "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.bigEndian).PutUint64":
		bits, _ := strconv.Atoi(n[strings.LastIndex(n, "Uint")+4:])
		x, v := a[len(a)-2], a[len(a)-1]
		if !e.require(s, ins, "index out of range", p.Ge0(p.Sub(e.lenOf(x), p.Int(int64(bits/8)))), x) {
			return false
		}
		e.writeBytes(s, fr, ins, x, e.be(bits/8, v))
		return e.setRes(s, c)
	case "(encoding/binary.littleEndian).PutUint16", "(encoding/binary.littleEndian).PutUint32", "(encoding/binary.littleEndian).PutUint64":
		bits, _ := strconv.Atoi(n[strings.LastIndex(n, "Uint")+4:])
		x, v := a[len(a)-2], a[len(a)-1]
		part := p.mk("be", strconv.Itoa(bits/8)+"le", nil, bits/8, v)
		e.writeBytes(s, fr, ins, x, part)
		return e.setRes(s, c)
	case "(encoding/binary.bigEndian).AppendUint16", "(encoding/binary.bigEndian).AppendUint32", "(encoding/binary.bigEndian).AppendUint64":
		bits, _ := strconv.Atoi(n[strings.LastIndex(n, "Uint")+4:])
		x, v := a[len(a)-2], a[len(a)-1]
		r := p.mk("concat", "", c.result().At(0).Type(), nil, e.snapshot(s, x), p.mk("bytesval", "", nil, nil, e.cat(e.be(bits/8, v))))
		return e.setRes(s, c, r)
	}
	if r, ok, handled := e.reflectCall(s, c, n); handled {
		if !ok {
			return false
		}
		return e.setRes(s, c, r...)
	}
	// anything that writes to a connection shows what it writes
	evArgs := append([]*Term{}, a...)
	if strings.HasSuffix(n, ".Write") && len(a) == 2 {
		evArgs[1] = p.mk("bytesval", "", nil, nil, e.cat(e.parts(s, a[1])...))
	}
	for i, x := range evArgs {
		// variadic arguments are shown one by one
		if i == len(evArgs)-1 && c.common.Signature().Variadic() {
			evArgs = append(evArgs[:i:i], e.variadic(s, x)...)
			break
		}
	}
	rs := c.result()
	if acquires(n) && c.mode == "" && rs.Len() == 2 {
		// told apart: it fails and gives nothing, or it succeeds
		mk := func(i int) *Term {
			t := p.sym("res", n+"@"+e.siteKey(fr, ins)+"."+strconv.Itoa(i), rs.At(i).Type(), e.site(fr, ins))
			return t
		}
		fs := s.clone()
		co := *c
		co.fr = fs.top()
		r0, r1 := mk(0), mk(1)
		e.emit(fs, ins, "call", n, evArgs, []*Term{p.Nil(), r1})
		if e.assume(fs, p.Eq(r1, p.Nil()), false) && e.setRes(fs, &co, p.Nil(), r1) {
			e.push(fs)
		}
		e.emit(s, ins, "call", n, evArgs, []*Term{r0, p.Nil()})
		if !e.assume(s, p.Eq(r0, p.Nil()), false) {
			return false
		}
		return e.setRes(s, c, r0, p.Nil())
	}
	var res []*Term
	for i := 0; i < rs.Len(); i++ {
		T := rs.At(i).Type()
		if pureCall(n) {
			res = append(res, p.mk("call", n, T, nil, a...))
		} else {
			res = append(res, p.sym("res", n+"@"+e.siteKey(fr, ins)+"."+strconv.Itoa(i), T, e.site(fr, ins)))
		}
		// results of dynamic calls and of generated code may share memory with arguments
	}
	e.emit(s, ins, "call", n, evArgs, res)
	if strings.HasSuffix(n, ".Read") && len(a) >= 2 {
		e.havocBytes(s, fr, ins, a[1])
		// n <= len(buffer)
		if len(res) == 2 {
			e.assume(s, p.Ge0(res[0]), true)
			e.assume(s, p.Ge0(p.Sub(e.lenOf(a[1]), res[0])), true)
		}
	} else if !quietCall(n) {
		for _, x := range a {
			e.escape(s, x)
			e.share(s, x)
		}
		var w map[string]bool
		for _, x := range a {
			if x.typ != nil && isPtrTo(x.typ, "bufio.Reader") {
				// it reads on, as far as there is something (C07)
				was := e.rpos(s, x)
				at := e.fresh(fr, ins, "readon", types.Typ[types.Int], x)
				e.assume(s, p.Ge0(p.Sub(at, was)), true)
				e.assume(s, p.Ge0(at), true)
				e.assume(s, p.Ge0(p.Sub(e.lenOf(e.strm(x)), at)), true)
				s.mem[e.contentCell(x)] = at
				e.drain(s, x)
			}
		}
		if c.name == "dynamic" {
			w = e.pr.dynWrites(c.common.Signature())
		}
		e.havocArgs(s, fr, ins, a, w)
	}
	if pureCall(n) && len(res) > 0 && c.mode == "" {
		return e.setRes(s, c, res...)
	}
	return e.setRes(s, c, res...)
}

func (e *Engine) havocBytes(s *State, fr *Frame, ins ssa.Instruction, x *Term) {
	base := x
	for base.op == "slice" {
		base = base.args[0]
	}
	for c := range s.mem {
		if (c.op == "wr" || c.op == "index") && c.args[0] == base {
			delete(s.mem, c)
		}
	}
	s.mem[e.p.mk("wr", "", nil, nil, base, e.p.Int(0))] = e.p.mk("raw", "", nil, nil, e.fresh(fr, ins, "readdata", nil, base))
}

// forget: the cell may have been changed by code that is not followed. Fields
// that nothing in the package changes after construction keep their values.
func (e *Engine) forget(s *State, c *Term, key string, site *Site, writes map[string]bool) {
	if c.op == "field" && (!e.pr.mutableField(c.aux) || writes != nil && !writes[c.aux]) {
		return
	}
	if c.op == "new" {
		T := pointee(c.typ)
		if c.site != nil {
			if al, ok := c.site.ins.(*ssa.Alloc); ok && e.pr.singleStore(al) {
				if _, isStruct := T.Underlying().(*types.Struct); !isStruct {
					return
				}
			}
		}
		if n := namedOf(T); n != nil && e.pr.ownType(T) {
			if st, ok := T.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					f := e.fieldAddr(c, T, i)
					if e.pr.mutableField(f.aux) && (writes == nil || writes[f.aux]) {
						s.mem[f] = e.p.sym("havoc", key+"/"+strconv.Itoa(f.id), st.Field(i).Type(), site)
					}
				}
				return
			}
		}
	}
	s.mem[c] = e.p.sym("havoc", key+"/"+strconv.Itoa(c.id), pointee(c.typ), site)
}

func (e *Engine) havocArgs(s *State, fr *Frame, ins ssa.Instruction, a []*Term, writes map[string]bool) {
	for _, x := range a {
		base := baseOf(x)
		for c := range s.mem {
			if baseOf(c) == base && (base.op == "new" || base.op == "makeslice") {
				e.forget(s, c, e.siteKey(fr, ins), e.site(fr, ins), writes)
			}
		}
	}
}

// pending: a buffering writer holds bytes for this buffer, which it may hand on at any time.
func (e *Engine) pending(s *State, b *Term) bool {
	for c, u := range s.mem {
		if c.op == "under" && c.args[0].op == "bufw" && e.contentCell(u) == e.contentCell(b) && len(e.getContent(s, c.args[0]).args) > 0 {
			return true
		}
	}
	return false
}

func (e *Engine) isBuffer(u *Term) bool {
	if u.op == "iface" {
		return strings.HasSuffix(u.aux, "bytes.Buffer")
	}
	return u.typ != nil && strings.HasSuffix(typeKey(u.typ), "bytes.Buffer")
}

// variadic lists the arguments packed in a variadic slice.
func (e *Engine) variadic(s *State, t *Term) []*Term {
	if t.op == "slice" && t.args[0].op == "new" && t.args[1].isInt() && t.args[2].isInt() {
		var out []*Term
		for i := t.args[1].intVal(); i < t.args[2].intVal(); i++ {
			at := e.p.mk("index", "", nil, nil, t.args[0], e.p.Int(i))
			if v, ok := s.mem[at]; ok {
				out = append(out, v)
			}
		}
		return out
	}
	return nil
}

func (e *Engine) sprintf(s *State, a []*Term) *Term {
	if a[0].op != "str" {
		return nil
	}
	var vals []any
	for _, v := range e.variadic(s, a[1]) {
		x := v
		if x.op == "iface" {
			x = x.args[0]
		}
		switch {
		case x.isInt():
			vals = append(vals, x.intVal())
		case x.op == "str":
			vals = append(vals, x.aux)
		default:
			return nil
		}
	}
	return e.p.Str(fmt.Sprintf(a[0].aux, vals...))
}

// strList is a slice of constant strings.
func (e *Engine) strList(s *State, c *CallInfo, xs []string) *Term {
	T := types.NewArray(types.Typ[types.String], int64(len(xs)))
	n := e.fresh(c.fr, c.ins, "new", types.NewPointer(T))
	e.initObj(s, n, T)
	for i, x := range xs {
		s.mem[e.p.mk("index", "", types.NewPointer(types.Typ[types.String]), nil, n, e.p.Int(int64(i)))] = e.p.Str(x)
	}
	return e.p.mk("slice", "", types.NewSlice(types.Typ[types.String]), nil, n, e.p.Int(0), e.p.Int(int64(len(xs))))
}

// sortConst sorts a slice whose elements are known constants.
func (e *Engine) sortConst(s *State, x *Term) bool {
	if x.op != "append" {
		return x.op == "makeslice" && x.args[0].isInt() && x.args[0].intVal() == 0 || x.isNil()
	}
	for _, v := range x.args[1:] {
		if !v.isInt() {
			return false
		}
	}
	if l := e.lenOf(x.args[0]); !l.isInt() || l.intVal() != 0 {
		return false
	}
	vs := append([]*Term{}, x.args[1:]...)
	sort.Slice(vs, func(i, j int) bool { return vs[i].intVal() < vs[j].intVal() })
	// the sorted elements become visible as memory of this slice
	for i, v := range vs {
		s.mem[e.p.mk("index", "", nil, nil, x, e.p.Int(int64(i)))] = v
	}
	return true
}

// permute: sorting reorders the elements, and nothing else.
func (e *Engine) permute(s *State, c *CallInfo, x *Term) bool {
	y := x
	if y.op == "iface" {
		y = y.args[0]
	}
	k := "e:"
	if y.typ != nil {
		if sl, ok := y.typ.Underlying().(*types.Slice); ok {
			k = "e:" + typeKey(types.NewPointer(sl.Elem()))
		}
	}
	s.memver[k] = e.fresh(c.fr, c.ins, "perm", nil, y)
	base := y
	for base.op == "slice" {
		base = base.args[0]
	}
	for m := range s.mem {
		if m.op == "index" && m.args[0] == base || m.op == "wr" && m.args[0] == base {
			delete(s.mem, m)
		}
	}
	e.emit(s, c.ins, "permute", c.name, []*Term{y}, nil)
	return e.setRes(s, c)
}

// ---- locks ---------------------------------------------------------------------

func (e *Engine) lock(s *State, c *CallInfo, a *Term, mode byte) {
	if a.op == "iface" {
		a = a.args[0]
	}
	e.emit(s, c.ins, "lock", string(mode), []*Term{a}, nil)
	e.dropGuarded(s, a)
	s.locks = append(s.locks, LockHold{addr: a, mode: mode, epoch: e.fresh(c.fr, c.ins, "epoch", nil, a), pos: c.ins.Pos()})
}

func (e *Engine) unlock(s *State, c *CallInfo, a *Term, mode byte) {
	if a.op == "iface" {
		a = a.args[0]
	}
	for i := len(s.locks) - 1; i >= 0; i-- {
		if s.locks[i].addr == a && s.locks[i].mode == mode {
			e.emit(s, c.ins, "unlock", string(mode), []*Term{a}, nil)
			s.locks = append(append([]LockHold{}, s.locks[:i]...), s.locks[i+1:]...)
			e.dropGuarded(s, a)
			return
		}
	}
	e.emit(s, c.ins, "badunlock", string(mode), []*Term{a}, nil)
}

// dropGuarded forgets what is known of the data behind a lock.
func (e *Engine) dropGuarded(s *State, a *Term) {
	if a.op != "field" && a.op != "fld" {
		return
	}
	base := a.args[0]
	if base.op == "new" && !s.shared[base] {
		return
	}
	for m := range s.mem {
		if m.op == "field" && m.args[0] == base && e.pr.guardOf[m.aux] == a.aux {
			delete(s.mem, m)
		}
	}
}

// ---- readers -------------------------------------------------------------------

func (e *Engine) strm(r *Term) *Term {
	return e.p.mk("strm", "", types.NewSlice(types.Typ[types.Byte]), nil, r)
}

func (e *Engine) rpos(s *State, r *Term) *Term {
	if v, ok := s.mem[e.contentCell(r)]; ok {
		return v
	}
	return e.p.Int(0)
}

// drain: the reader may have taken bytes from what is under it.
func (e *Engine) drain(s *State, r *Term) {
	s.mem[e.p.mk("drained", "", nil, nil, r)] = e.p.Int(1)
}

// within: n bytes on is a place of the stream, or its end.
func (e *Engine) within(s *State, ins ssa.Instruction, what string, r, n *Term) {
	e.drain(s, r)
	e.oblige(s, ins, "stream: "+what+" at a place before the current one", e.p.Ge0(n), r, n)
	e.oblige(s, ins, "stream: "+what+" beyond the end", e.p.Ge0(e.p.Sub(e.p.Sub(e.lenOf(e.strm(r)), e.rpos(s, r)), n)), r, n)
}

func (e *Engine) peek(s *State, c *CallInfo) bool {
	p := e.p
	r, n := c.args[0], c.args[1]
	st := e.strm(r)
	pos := e.rpos(s, r)
	total := p.mk("len", "", types.Typ[types.Int], nil, st)
	e.drain(s, r)
	have := p.Ge0(p.Sub(p.Sub(total, pos), n))
	nonneg := p.Ge0(n)
	T := c.result().At(0).Type()
	e.emit(s, c.ins, "peek", "", []*Term{r, n, pos}, nil)
	fail := func(data func() *Term, facts ...func(o *State) bool) {
		o := s.clone()
		for _, f := range facts {
			if !f(o) {
				return
			}
		}
		co := *c
		co.fr = o.top()
		if e.setRes(o, &co, data(), e.fresh(co.fr, c.ins, "errnew", c.result().At(1).Type())) {
			e.push(o)
		}
	}
	// short: what there is
	fail(func() *Term { return p.mk("slice", "", T, nil, st, pos, total) },
		func(o *State) bool { return e.assume(o, nonneg, true) },
		func(o *State) bool { return e.assume(o, p.Ge0(p.Sub(total, pos)), true) },
		func(o *State) bool { return e.assume(o, have, false) })
	if kn, _ := e.eval(s, nonneg); !kn {
		fail(p.Nil, func(o *State) bool { return e.assume(o, nonneg, false) })
	}
	if !e.assume(s, nonneg, true) || !e.assume(s, have, true) {
		return false
	}
	data := p.mk("slice", "", T, nil, st, pos, p.Add(pos, n))
	return e.setRes(s, c, data, p.Nil())
}

// ---- the codec as seen from the handlers ---------------------------------------

func isPtrTo(t types.Type, name string) bool { return typeKey(t) == "*"+name }
func isAny(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

// codecRole: is fn the decoder ("decode"), the encoder ("encode") of objects,
// or the tag decoder or encoder?
func codecRole(fn *ssa.Function) string {
	sig := fn.Signature
	if sig.Recv() != nil || sig.Params().Len() < 2 {
		return ""
	}
	p0 := sig.Params().At(0).Type()
	if isPtrTo(p0, "bufio.Reader") && sig.Results().Len() == 2 && isInteger(sig.Results().At(0).Type()) {
		hasType, hasOff := false, false
		for i := 1; i < sig.Params().Len(); i++ {
			if typeKey(sig.Params().At(i).Type()) == "reflect.Type" {
				hasType = true
			}
			if isInteger(sig.Params().At(i).Type()) {
				hasOff = true
			}
		}
		if hasType && hasOff && isAny(sig.Results().At(1).Type()) && sig.Params().Len() <= 5 {
			if sig.Params().Len() >= 3 && isInteger(sig.Params().At(1).Type()) && typeKey(sig.Params().At(2).Type()) == "reflect.Type" {
				return "decode"
			}
			return ""
		}
		if _, ok := sig.Results().At(1).Type().Underlying().(*types.Map); ok {
			return "decodetags"
		}
	}
	if isPtrTo(p0, "bufio.Writer") && sig.Results().Len() == 0 {
		for i := 1; i < sig.Params().Len(); i++ {
			if isAny(sig.Params().At(i).Type()) {
				return "encode"
			}
		}
		if _, ok := sig.Params().At(1).Type().Underlying().(*types.Map); ok {
			return "encodetags"
		}
	}
	return ""
}

func (e *Engine) codecModel(s *State, c *CallInfo) (ok, handled bool) {
	if e.cfg.NoDecodeModel || !e.pr.inRepo(c.fn) {
		return
	}
	p := e.p
	switch codecRole(c.fn) {
	case "decode":
		r, off := c.args[0], c.args[1]
		e.within(s, c.ins, "decode", r, off)
		T := rtypeOf(c.args[2])
		// failure
		o := s.clone()
		co := *c
		co.fr = o.top()
		fail := p.Int(-1)
		e.emit(o, c.ins, "decode", "fail", []*Term{r, off, c.args[2]}, nil)
		if e.setRes(o, &co, fail, p.Nil()) {
			e.push(o)
		}
		next := e.fresh(c.fr, c.ins, "next", types.Typ[types.Int])
		var obj *Term
		if T != nil {
			d := e.fresh(c.fr, c.ins, "dec", T, r)
			obj = e.mkIface(d, T)
			if _, isPtr := T.Underlying().(*types.Pointer); isPtr {
				obj = e.fresh(c.fr, c.ins, "decany", nil, r)
			}
		} else {
			obj = e.fresh(c.fr, c.ins, "decany", nil, r)
		}
		e.assume(s, p.Ge0(p.Sub(next, off)), true)
		e.assume(s, p.Ge0(next), true)
		e.assume(s, p.Ge0(p.Sub(p.Sub(e.lenOf(e.strm(r)), e.rpos(s, r)), next)), true) // C07
		e.emit(s, c.ins, "decode", "ok", c.args, []*Term{next, obj})
		return e.setRes(s, c, next, obj), true
	case "decodetags":
		r, off := c.args[0], c.args[1]
		e.within(s, c.ins, "decode", r, off)
		o := s.clone()
		co := *c
		co.fr = o.top()
		e.emit(o, c.ins, "decode", "fail", []*Term{r, off}, nil)
		if e.setRes(o, &co, p.Int(-1), p.Nil()) {
			e.push(o)
		}
		next := e.fresh(c.fr, c.ins, "next", types.Typ[types.Int])
		m := e.fresh(c.fr, c.ins, "dectags", c.result().At(1).Type(), r)
		e.assume(s, p.Ge0(p.Sub(next, off)), true)
		e.assume(s, p.Ge0(next), true)
		e.assume(s, p.Ge0(p.Sub(p.Sub(e.lenOf(e.strm(r)), e.rpos(s, r)), next)), true)
		e.emit(s, c.ins, "decode", "ok", []*Term{r, off}, []*Term{next, m})
		return e.setRes(s, c, next, m), true
	case "encode":
		var obj *Term
		for i := len(c.args) - 1; i >= 1; i-- {
			if isAny(c.fn.Signature.Params().At(i).Type()) && typeKey(c.fn.Signature.Params().At(i).Type()) != "reflect.Type" {
				obj = c.args[i]
				break
			}
		}
		val := obj
		if obj.op == "iface" {
			// what is encoded is the value now
			val = e.deepValue(s, obj.args[0], obj.obj.(types.Type), 0)
			val = e.p.mk("iface", obj.aux, obj.typ, obj.obj, val)
		}
		e.emit(s, c.ins, "encode", c.fn.Name(), []*Term{c.args[0], val}, nil)
		enc := p.mk("enc", "", nil, nil, val)
		if T := ifaceType(val); T != nil && (pointee(T) == nil || val.args[0].op == "at") {
			e.assume(s, p.Ge0(p.Sub(e.partLen(enc), p.Int(int64(minSize(T, 0))))), true)
		}
		e.addContent(s, c.args[0], enc)
		return e.setRes(s, c), true
	case "encodetags":
		e.emit(s, c.ins, "encodetags", c.fn.Name(), []*Term{c.args[0], c.args[1]}, nil)
		e.addContent(s, c.args[0], p.mk("enctags", "", nil, nil, c.args[1]))
		return e.setRes(s, c), true
	}
	return
}

// deepValue replaces a pointer to a struct by the struct it points to now.
func (e *Engine) deepValue(s *State, v *Term, T types.Type, d int) *Term {
	if d > 3 {
		return v
	}
	if pt, ok := T.Underlying().(*types.Pointer); ok && (v.op == "new" || v.op == "field" || v.op == "index") {
		if _, isStruct := pt.Elem().Underlying().(*types.Struct); isStruct {
			return e.p.mk("at", "", T, nil, e.load(s, v, pt.Elem()))
		}
	}
	return v
}
