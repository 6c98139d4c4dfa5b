package main

// C05: what the decoder reads and the encoder writes for a type, compared with
// the layout the type stands for, one field at a time and for any values.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// wire checks one analysed codec run against a layout.
type wire struct {
	r    *Report
	e    *Engine
	rule string
	seen map[string]bool // loops already compared
	bad  []string
	obl  int // fields and elements compared
	// places up to which bytes must have been received for decoding to succeed
	bounds map[*Term]bool
}

func (w *wire) fail(f string, a ...any) bool {
	m := fmt.Sprintf(f, a...)
	for _, b := range w.bad {
		if b == m {
			return false
		}
	}
	w.bad = append(w.bad, m)
	return false
}

func named(T types.Type) string {
	if n := namedOf(T); n != nil {
		return n.Obj().Name()
	}
	return ""
}

// ---- decoding ----------------------------------------------------------------

// rd: the number of w bytes at a place of the stream, as the decoder sees it.
func (w *wire) rd(n int, st, off *Term) *Term {
	if n == 1 {
		return w.e.elemOf(nil, st, off, types.Typ[types.Uint8])
	}
	return w.e.p.mk("rd", strconv.Itoa(n), types.Typ[[]types.BasicKind{0, 0, types.Uint16, 0, types.Uint32, 0, 0, 0, types.Uint64}[n]], nil, st, off)
}

// signed: the number as a signed one.
func (w *wire) signed(n int, st, off *Term) *Term {
	T := types.Typ[[]types.BasicKind{0, types.Int8, types.Int16, 0, types.Int32, 0, 0, 0, types.Int64}[n]]
	return w.e.p.mk("conv", typeKey(T), T, nil, w.rd(n, st, off))
}

func (w *wire) isRd(v *Term, n int, st, off *Term) bool {
	if n == 1 && v.op == "elem" || v.op == "rd" && v.aux == strconv.Itoa(n) {
		return v.args[0] == st && v.args[1] == off
	}
	return false
}

// isRead: is v the w bytes at off, as a number of type T?
func (w *wire) isRead(v *Term, n int, T types.Type, st, off *Term) bool {
	_, signed, ok := intRange(T)
	if !ok {
		return false
	}
	for v.op == "conv" && v.typ != nil {
		// conversions that keep every value
		b, _, ok := intRange(v.typ)
		if !ok || b < 8*n {
			return false
		}
		in := v.args[0]
		if w.isRd(in, n, st, off) {
			_, s, _ := intRange(v.typ)
			return s == signed && b == 8*n || !signed && b >= 8*n
		}
		v = in
	}
	return !signed && w.isRd(v, n, st, off)
}

// isSlice: are these exactly the bytes [lo, hi) of the stream?
func (w *wire) isSlice(v *Term, st, lo, hi *Term) bool {
	for v.op == "conv" || v.op == "clone" || v.op == "bytesval" {
		v = v.args[0]
	}
	if v.op == "slice" {
		a, b := v.args[1], v.args[2]
		x := v.args[0]
		for x.op == "slice" {
			b = w.e.p.Add(b, x.args[1])
			a = w.e.p.Add(a, x.args[1])
			x = x.args[0]
		}
		return x == st && a == lo && b == hi
	}
	return v.op == "raw" && w.isSlice(v.args[0], st, lo, hi)
}

// read compares the value v of type T with the bytes of the stream from off
// on, and gives the place after them.
func (w *wire) read(s *State, T types.Type, v, st, off *Term, path string) (*Term, bool) {
	e, p := w.e, w.e.p
	w.obl++
	if v == nil {
		return nil, w.fail("%s: no value", path)
	}
	if v.op == "rval" || v.op == "iface" {
		v = v.args[0]
	}
	if b, _, ok := intRange(T); ok {
		w.bound(p.Add(off, p.Int(int64(b/8))))
	} else if _, ok := T.Underlying().(*types.Slice); ok {
		w.bound(p.Add(off, p.Int(4)))
	} else if isBoolT(T) {
		w.bound(p.Add(off, p.Int(1)))
	}
	if named(T) == "NullableString" {
		return w.readString(s, T, v, st, off, true, path)
	}
	switch u := T.Underlying().(type) {
	case *types.Basic:
		n := map[types.BasicKind]int{types.Bool: 1, types.Int8: 1, types.Uint8: 1, types.Int16: 2, types.Uint16: 2,
			types.Int32: 4, types.Uint32: 4, types.Int64: 8, types.Uint64: 8}[u.Kind()]
		switch {
		case u.Kind() == types.String:
			return w.readString(s, T, v, st, off, false, path)
		case n == 0:
			return nil, w.fail("%s: undecided: no layout for %s", path, u)
		case u.Kind() == types.Bool:
			z := p.Eq(w.rd(1, st, off), p.Int(0))
			kn, zero := e.eval(s, z)
			ok := v.isBool() && kn && (v.op == "true") == !zero || v == p.Not(z)
			if !ok {
				w.fail("%s: not the byte at %s: %s", path, off, v)
			}
			return p.Add(off, p.Int(1)), ok
		}
		ok := w.isRead(v, n, T, st, off)
		if !ok {
			w.fail("%s: not the %d bytes at %s, big-endian: %s", path, n, off, v)
		}
		return p.Add(off, p.Int(int64(n))), ok
	case *types.Pointer:
		if _, isStruct := u.Elem().Underlying().(*types.Struct); isStruct {
			return w.read(s, u.Elem(), e.load(s.clone(), v, u.Elem()), st, off, path)
		}
	case *types.Struct:
		if v.op != "struct" && v.op != "zero" {
			return nil, w.fail("%s: undecided: not a value built here: %s", path, v)
		}
		for i := 0; i < u.NumFields(); i++ {
			var ok bool
			if off, ok = w.read(s, u.Field(i).Type(), e.fldOf(v, T, i), st, off, path+"."+u.Field(i).Name()); !ok {
				return nil, false
			}
		}
		return off, true
	case *types.Slice:
		n := w.signed(4, st, off)
		start := p.Add(off, p.Int(4))
		if v.isNil() || v.op == "zero" {
			ok := e.entails(s, p.Sub(p.Int(-1), n))
			if !ok {
				w.fail("%s: nothing is read though the length at %s need not be negative", path, off)
			}
			return start, ok
		}
		if !e.entails(s, n) {
			w.fail("%s: not null though the length at %s may be negative", path, off)
			return nil, false
		}
		if minSize(u.Elem(), 0) > 0 {
			w.bound(p.Add(start, n)) // each element takes a byte at least
		}
		if isByteSlice(T) {
			if end := p.Add(start, n); w.isSlice(v, st, start, end) {
				return end, true
			}
		}
		return w.readArray(s, u.Elem(), v, n, st, start, path)
	}
	return nil, w.fail("%s: undecided: no layout for %s", path, typeKey(T))
}

func (w *wire) readString(s *State, T types.Type, v, st, off *Term, nullable bool, path string) (*Term, bool) {
	e, p := w.e, w.e.p
	n := w.signed(2, st, off)
	start := p.Add(off, p.Int(2))
	end := p.Add(start, n)
	w.bound(start)
	w.bound(end)
	if nullable {
		if v.isNil() || v.op == "zero" {
			ok := e.entails(s, p.Sub(p.Int(-1), n))
			if !ok {
				w.fail("%s: null though the length at %s need not be negative", path, off)
			}
			return start, ok
		}
		v = e.load(s.clone(), v, types.Typ[types.String])
	}
	if v.op == "str" && v.aux == "" || v.op == "zero" {
		if e.entails(s, p.Sub(p.Int(0), n)) && !nullable {
			if e.entails(s, n) { // of length 0
				return end, true
			}
			if e.entails(s, p.Sub(p.Int(-1), n)) {
				return start, true
			}
		}
		return nil, w.fail("%s: empty though the length at %s may not be 0", path, off)
	}
	if !e.entails(s, n) {
		return nil, w.fail("%s: the length at %s may be negative", path, off)
	}
	if !w.isSlice(v, st, start, end) {
		return nil, w.fail("%s: not the bytes after the 16-bit length at %s: %s", path, off, v)
	}
	return end, true
}

// readArray: v was grown by a loop that read one element at a time.
func (w *wire) readArray(s *State, ET types.Type, v, n, st, start *Term, path string) (*Term, bool) {
	e, p := w.e, w.e.p
	if l := e.lenOf(v); l.isInt() && l.intVal() == 0 && nonNilTerm(v) {
		if e.entails(s, p.Sub(p.Int(0), n)) {
			return start, true
		}
		return nil, w.fail("%s: empty though more elements may be declared", path)
	}
	l := e.loopOf(v)
	if l == nil {
		return nil, w.fail("%s: undecided: not read by a loop: %s", path, v)
	}
	in := s.inits[l.Key]
	if in == nil {
		return nil, w.fail("%s: undecided: the loop that reads it is not on this path", path)
	}
	if i := in.m[v]; i == nil || !nonNilTerm(i) || e.lenOf(i) != p.Int(0) {
		return nil, w.fail("%s: does not start empty: %s", path, str(in.m[v]))
	}
	if len(l.Iters) == 0 {
		return nil, w.fail("%s: the loop never goes round", path)
	}
	// where the next element is read
	var pos *Term
	for _, t := range sortedTerms(in.m) {
		if in.m[t] == start && t != v {
			moves := true
			for _, it := range l.Iters {
				if it.Next[t] == t {
					moves = false
				}
			}
			if moves {
				pos = t
			}
		}
	}
	if pos == nil {
		return nil, w.fail("%s: the first element is not read right after the count at %s", path, p.Sub(start, p.Int(4)))
	}
	if w.steps(s, l, n) == nil && !w.grown(s, l, v, n) {
		return nil, w.fail("%s: undecided: rounds are not seen to be made exactly as often as declared", path)
	}
	if key := fmt.Sprint(l.Key, " ", in.key, " ", v.id, " ", n.id, " ", pos.id); !w.seen[key] {
		w.seen[key] = true
		rounds := w.rounds(s, l)
		if len(rounds) == 0 {
			return nil, w.fail("%s: undecided: no round of the loop that reads it", path)
		}
		for _, it := range rounds {
			nx := it.Next[v]
			if nx == nil || nx.op != "append" || nx.args[0] != v || len(nx.args) != 2 {
				return nil, w.fail("%s: a round does not add exactly one element: %s", path, str(nx))
			}
			end, ok := w.read(it.State, ET, nx.args[1], st, pos, path+"[]")
			if !ok {
				return nil, false
			}
			if it.Next[pos] != end {
				return nil, w.fail("%s: the next element is not read where this one ends: %s instead of %s", path, str(it.Next[pos]), end)
			}
		}
	}
	return pos, true
}

func (w *wire) initKey(s *State, l *LoopInfo) string {
	if i := s.inits[l.Key]; i != nil {
		return i.key
	}
	return "?"
}

// rounds: the iterations of a loop entered as it was on this path.
func (w *wire) rounds(s *State, l *LoopInfo) []*Iter {
	var out []*Iter
	for _, it := range l.Iters {
		if it.State != nil && w.initKey(it.State, l) == w.initKey(s, l) {
			out = append(out, it)
		}
	}
	return out
}

// steps: the number of rounds made so far, by a counter of the loop, such that
// a round is made only while fewer than n were made, and the loop ends when n were.
func (w *wire) steps(s *State, l *LoopInfo, n *Term) *Term {
	e, p := w.e, w.e.p
	in := s.inits[l.Key]
	rounds := w.rounds(s, l)
	for _, t := range sortedTerms(in.m) {
		if t.typ == nil || !isInteger(t.typ) || len(rounds) == 0 {
			continue
		}
		i := in.m[t]
		up, down, ok := true, true, true
		for _, it := range rounds {
			up = up && it.Next[t] == p.Add(t, p.Int(1))
			down = down && it.Next[t] == p.Sub(t, p.Int(1))
		}
		k := p.Sub(t, i)
		if down {
			k = p.Sub(i, t)
		}
		if !up && !down || !e.entails(s, p.Sub(k, n)) {
			continue
		}
		for _, it := range rounds {
			ok = ok && e.entails(it.State, p.Sub(p.Sub(n, k), p.Int(1)))
		}
		if ok {
			return k
		}
	}
	return nil
}

// grown: rounds are made until the list that grows in each has n elements.
func (w *wire) grown(s *State, l *LoopInfo, v, n *Term) bool {
	e, p := w.e, w.e.p
	if !e.entails(s, p.Sub(e.lenOf(v), n)) {
		return false
	}
	for _, it := range w.rounds(s, l) {
		if !e.entails(it.State, p.Sub(p.Sub(n, e.lenOf(v)), p.Int(1))) {
			return false
		}
	}
	return true
}

func sortedTerms(m map[*Term]*Term) []*Term {
	var ts []*Term
	for t := range m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	return ts
}

func (w *wire) bound(t *Term) {
	if w.bounds != nil {
		w.bounds[t] = true
	}
}

// accepts: decoding fails only where bytes are missing that it needs.
func (w *wire) accepts(args []*Term) {
	e, p := w.e, w.e.p
	total := e.total(args[0])
	for _, pe := range e.ends {
		if !failedEnd(pe) {
			continue
		}
		ok := false
		for b := range w.bounds {
			if e.entails(pe.S, p.Sub(p.Sub(b, total), p.Int(1))) {
				ok = true
				break
			}
		}
		if !ok {
			w.fail("decoding may fail though all bytes of a request are there: path %s", strings.Join(pathOf(e, pe.Evs), " "))
		}
	}
}

// decodes compares all that the decoder does for a type.
func (w *wire) decodes(T types.Type, args []*Term) {
	e := w.e
	st := e.strm(args[0])
	n := 0
	for _, pe := range e.ends {
		if pe.Kind != "return" {
			continue // C23
		}
		if len(pe.Res) != 2 {
			w.fail("undecided: the decoder's results")
			continue
		}
		if pe.Res[0].isInt() && pe.Res[0].intVal() < 0 {
			continue // failed: C07
		}
		if pe.Res[1].op != "iface" || ifaceType(pe.Res[1]) == nil {
			w.fail("undecided: the value that is returned: %s", pe.Res[1])
			continue
		}
		n++
		if RT := ifaceType(pe.Res[1]); !types.Identical(RT, T) {
			w.fail("a %s is returned", typeKey(RT))
			continue
		}
		end, ok := w.read(pe.S, T, pe.Res[1].args[0], st, args[1], typeKey(T))
		if ok && end != pe.Res[0] {
			w.fail("returns %s as the place where it ends, instead of %s", pe.Res[0], end)
		}
	}
	if n == 0 {
		w.fail("nothing is ever decoded")
	}
}

// ---- encoding ----------------------------------------------------------------

type wpart struct {
	t    *Term     // bytes
	loop *LoopInfo // or the rounds of a loop that writes
	cell *Term
	init map[*Term]*Term
}

// flatten lists what was written since base, in order.
func (w *wire) flatten(s *State, c, base *Term, d int) ([]wpart, bool) {
	var ps []*Term
	if c.op == "cat" {
		ps = c.args
	} else {
		ps = []*Term{c}
	}
	var out []wpart
	for i, t := range ps {
		if t == base && i == 0 {
			continue
		}
		if t.op == "loop" && i == 0 {
			l := w.e.loopOf(t)
			in := s.inits[l.Key]
			if l == nil || in == nil || in.m[t] == nil || d > 20 {
				return nil, w.fail("undecided: what was written before %s", t)
			}
			pre, ok := w.flatten(s, in.m[t], base, d+1)
			if !ok {
				return nil, false
			}
			out = append(append(out, pre...), wpart{loop: l, cell: t, init: in.m})
			continue
		}
		if i == 0 && base != nil {
			return nil, w.fail("undecided: what was written before this round is gone: %s", c)
		}
		out = append(out, wpart{t: t})
	}
	return out, true
}

func (x wpart) String() string {
	if x.loop != nil {
		return "the rounds of loop " + x.loop.Key
	}
	return x.t.String()
}

// be: the next part is the number v in n bytes.
func (w *wire) be(s *State, ps []wpart, n int, v *Term, path string) ([]wpart, bool) {
	want := w.e.be(n, v)
	if len(ps) == 0 || ps[0].loop != nil {
		return nil, w.fail("%s: nothing is written where %s belongs", path, want)
	}
	if ps[0].t == want {
		return ps[1:], true
	}
	// one byte at a time
	if v.isInt() && len(ps) >= n {
		same := true
		for i := 0; i < n; i++ {
			b := w.e.p.Int(v.intVal() >> (8 * uint(n-1-i)) & 255)
			same = same && ps[i].loop == nil && ps[i].t == w.e.be(1, b)
		}
		if same {
			return ps[n:], true
		}
	}
	// a constant the value is known to have
	if g := ps[0].t; g.op == "be" && g.aux == strconv.Itoa(n) && g.args[0].isInt() {
		for _, k := range []int64{g.args[0].intVal(), g.args[0].intVal() - 1<<(8*uint(n)%64)} {
			if kn, val := w.e.eval(s, w.e.p.Eq(v, w.e.p.Int(k))); kn && val {
				return ps[1:], true
			}
		}
	}
	return nil, w.fail("%s: %s is written where %s belongs", path, ps[0], want)
}

// write compares what was written with the value v of type T, and gives the
// parts after it.
func (w *wire) write(s *State, T types.Type, v *Term, ps []wpart, path string) ([]wpart, bool) {
	e, p := w.e, w.e.p
	w.obl++
	isNil := func(x *Term) (bool, bool) { return e.eval(s, p.Eq(x, p.Nil())) }
	if named(T) == "NullableString" {
		kn, null := isNil(v)
		if !kn {
			return nil, w.fail("%s: written without telling null from a string", path)
		}
		if null {
			return w.be(s, ps, 2, p.Int(-1), path+" (null)")
		}
		return w.text(s, 2, e.load(s.clone(), v, types.Typ[types.String]), ps, path)
	}
	switch u := T.Underlying().(type) {
	case *types.Basic:
		n := map[types.BasicKind]int{types.Int8: 1, types.Uint8: 1, types.Int16: 2, types.Uint16: 2,
			types.Int32: 4, types.Uint32: 4, types.Int64: 8, types.Uint64: 8, types.Int: 4, types.Uint: 4}[u.Kind()]
		switch {
		case u.Kind() == types.String:
			return w.text(s, 2, v, ps, path)
		case u.Kind() == types.Bool:
			if v.isBool() {
				return w.be(s, ps, 1, p.Int(map[bool]int64{true: 1, false: 0}[v.op == "true"]), path)
			}
			kn, val := e.eval(s, v)
			if !kn {
				return nil, w.fail("%s: written without looking at it", path)
			}
			return w.be(s, ps, 1, p.Int(map[bool]int64{true: 1, false: 0}[val]), path)
		case n == 0:
			return nil, w.fail("%s: undecided: no layout for %s", path, u)
		}
		return w.be(s, ps, n, v, path)
	case *types.Pointer:
		if _, isStruct := u.Elem().Underlying().(*types.Struct); isStruct {
			if kn, null := isNil(v); kn && null {
				return nil, w.fail("%s: something is written for a missing value", path)
			}
			return w.write(s, u.Elem(), e.load(s.clone(), v, u.Elem()), ps, path)
		}
	case *types.Struct:
		if isMessageSet(T) {
			return w.messages(s, T, v, ps, path)
		}
		for i := 0; i < u.NumFields(); i++ {
			var ok bool
			if ps, ok = w.write(s, u.Field(i).Type(), e.fldOf(v, T, i), ps, path+"."+u.Field(i).Name()); !ok {
				return nil, false
			}
		}
		return ps, true
	case *types.Slice:
		if kn, null := isNil(v); kn && null {
			return w.be(s, ps, 4, p.Int(-1), path+" (null)")
		} else if !kn {
			return nil, w.fail("%s: written without telling null from an empty one", path)
		}
		if isByteSlice(T) {
			return w.text(s, 4, v, ps, path)
		}
		ps, ok := w.be(s, ps, 4, e.lenOf(v), path+" (count)")
		if !ok {
			return nil, false
		}
		return w.elems(s, u.Elem(), v, ps, path)
	}
	return nil, w.fail("%s: undecided: no layout for %s", path, typeKey(T))
}

// text: a length of n bytes, then the bytes.
func (w *wire) text(s *State, n int, v *Term, ps []wpart, path string) ([]wpart, bool) {
	e := w.e
	ps, ok := w.be(s, ps, n, e.lenOf(v), path+" (length)")
	if !ok {
		return nil, false
	}
	for _, want := range e.parts(s, v) {
		if len(ps) > 0 && ps[0].loop == nil && ps[0].t == want {
			ps = ps[1:]
			continue
		}
		if e.entails(s, e.p.Scale(e.lenOf(v), -1)) {
			return ps, true // nothing to write
		}
		got := "nothing"
		if len(ps) > 0 {
			got = ps[0].String()
		}
		return nil, w.fail("%s: %s is written where its bytes belong", path, got)
	}
	return ps, true
}

// elems: one round of a loop per element, in order.
func (w *wire) elems(s *State, ET types.Type, v *Term, ps []wpart, path string) ([]wpart, bool) {
	e, p := w.e, w.e.p
	n := e.lenOf(v)
	if e.entails(s, p.Scale(n, -1)) {
		return ps, true
	}
	if len(ps) == 0 || ps[0].loop == nil {
		return nil, w.fail("%s: no loop writes its elements", path)
	}
	l, cell := ps[0].loop, ps[0].cell
	// the index: the number of rounds made
	cur := w.steps(s, l, n)
	if cur == nil {
		return nil, w.fail("%s: undecided: the loop that writes it is not seen to visit every element", path)
	}
	if key := fmt.Sprint(l.Key, " ", w.initKey(s, l), " ", v.id); !w.seen[key] {
		w.seen[key] = true
		rounds := w.rounds(s, l)
		if len(rounds) == 0 {
			return nil, w.fail("%s: undecided: no round of the loop that writes it", path)
		}
		for _, it := range rounds {
			nx := it.Next[cell]
			if nx == nil {
				return nil, w.fail("%s: undecided: a round writes nothing known", path)
			}
			rest, ok := w.flatten(it.State, nx, cell, 0)
			if !ok {
				return nil, false
			}
			rest, ok = w.write(it.State, ET, e.elemOf(it.State, v, cur, ET), rest, path+"[]")
			if !ok {
				return nil, false
			}
			if len(rest) != 0 {
				return nil, w.fail("%s: %s is written after an element", path, rest[0])
			}
		}
	}
	return ps[1:], true
}

// messages: the size in bytes, then the messages, without a count.
func (w *wire) messages(s *State, T types.Type, v *Term, ps []wpart, path string) ([]wpart, bool) {
	st := T.Underlying().(*types.Struct)
	var sizes []int
	msgs := -1
	for i := 0; i < st.NumFields(); i++ {
		switch u := st.Field(i).Type().Underlying().(type) {
		case *types.Slice:
			if structOf(u.Elem()) != nil && shapeOf(u.Elem(), 0) == messageSpec {
				msgs = i
			}
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				sizes = append(sizes, i)
			}
		}
	}
	if msgs < 0 {
		return nil, w.fail("%s: no messages of Kafka's layout in it", path)
	}
	for _, i := range sizes {
		if len(ps) > 0 && ps[0].t == w.e.be(4, w.e.fldOf(v, T, i)) {
			w.sizeField(fieldAux(T, i))
			return w.elems(s, st.Field(msgs).Type().Underlying().(*types.Slice).Elem(), w.e.fldOf(v, T, msgs), ps[1:], path+"."+st.Field(msgs).Name())
		}
	}
	got := "nothing"
	if len(ps) > 0 {
		got = ps[0].String()
	}
	return nil, w.fail("%s: %s is written where the size of the messages belongs", path, got)
}

// sizeField: the field of a set that is written as its size (C21 keeps it right).
func (w *wire) sizeField(aux string) {
	if w.r.setSize == nil {
		w.r.setSize = map[string]bool{}
	}
	w.r.setSize[aux] = true
}

// encodes compares all that the encoder writes for a type.
func (w *wire) encodes(T types.Type, args []*Term, v *Term) {
	e := w.e
	n := 0
	for _, pe := range e.ends {
		if pe.Kind != "return" {
			continue // C23
		}
		n++
		ps, ok := w.flatten(pe.S, e.getContent(pe.S, args[0]), nil, 0)
		if !ok {
			continue
		}
		rest, ok := w.write(pe.S, T, v, ps, typeKey(T))
		if ok && len(rest) != 0 {
			w.fail("%s is written after the last field", rest[0])
		}
	}
	if n == 0 {
		w.fail("nothing is ever encoded")
	}
}

// checkCodec decides what the decoder or encoder does for one type.
func (r *Report) checkCodec(u *codecUse, dec bool, rule string) bool {
	w := &wire{r: r, rule: rule, seen: map[string]bool{}, bounds: map[*Term]bool{}}
	what := "reads a " + typeKey(u.T) + " field by field"
	if dec {
		cfg := decodeCfg(u)
		w.e = r.run(cfg)
		w.decodes(u.T, cfg.ArgsOf(w.e))
		if len(w.bad) == 0 {
			w.accepts(cfg.ArgsOf(w.e))
		}
	} else {
		cfg := encodeCfg(u)
		w.e = r.run(cfg)
		what = "writes a " + typeKey(u.T) + " field by field"
		args := cfg.ArgsOf(w.e)
		var v *Term
		for _, a := range args[1:] {
			if a.op == "iface" && a.aux != "*reflect.rtype" {
				v = a.args[0]
			}
		}
		if v == nil {
			w.fail("undecided: the value")
		} else {
			w.encodes(u.T, args, v)
		}
	}
	r.fieldsSeen += w.obl
	for _, b := range w.bad {
		r.check(false, rule, shortFn(u.Fn), what, clip(b, 600), "used at "+u.Where)
	}
	if len(w.bad) == 0 {
		r.pass(rule, shortFn(u.Fn), what)
	}
	return len(w.bad) == 0
}

// checkC05: requests and responses are laid out as Kafka defines.
func checkC05(r *Report) {
	r.rule("shape", "the Go types of a request, response, header, assignment and message have the fields, widths and nullability that Kafka defines for that API and version, in order")
	r.rule("decode", "decoding a type reads each field, in order, from exactly the bytes that belong to it (big-endian, with the length prefix or null marker of its kind), for any values and any number of elements")
	r.rule("encode", "encoding a type writes each field, in order, as exactly the bytes that belong to it, for any values and any number of elements")
	r.rule("order", "the header, the client id and the request are read one right after the other from the start of the received request")
	r.rule("null", "a list, string or byte string that Kafka does not allow to be null is never null in a response")
	as := r.apiSetup()
	if as == nil {
		return
	}
	for _, sl := range as.slots {
		r.checkShape(as, sl)
	}
	engines := r.allRoots(nil)
	dec, enc := r.codecUses(engines)
	for _, u := range dec {
		r.checkCodec(u, true, "decode")
	}
	resp := r.responseUses(engines)
	for _, u := range append(append([]*codecUse{}, resp...), enc...) {
		r.checkCodec(u, false, "encode")
	}
	r.need("decode", 10)
	r.need("encode", 12)
	r.headerOrder(engines)
	r.otherShapes(as, enc)
	r.noTags(as, engines)
	r.noNulls(as, engines)
}

// otherShapes: what is encoded besides the responses.
func (r *Report) otherShapes(as *apiSetup, enc []*codecUse) {
	resp := map[string]bool{}
	for _, sl := range as.slots {
		if sp, ok := apiSpec[sl]; ok {
			resp[sp[1]] = true
		}
	}
	n := 0
	for _, u := range enc {
		T := u.T
		if p := pointee(T); p != nil {
			T = p
		}
		switch sh := shapeOf(T, 0); {
		case resp[sh]:
		case sh == assignmentSpec:
			n++
			r.pass("shape", u.Where, "a group assignment is laid out as Kafka defines")
		case sh == messageSpec:
			r.pass("shape", u.Where, "a message is laid out as Kafka defines")
		default:
			r.fail("shape", u.Where, "a "+typeKey(u.T)+" is written, which is neither a response, nor a group assignment, nor a message", sh)
		}
	}
	r.check(n > 0, "shape", "package", "a group assignment is written somewhere", "Kafka: "+assignmentSpec)
}

// noTags: no API that is served has tagged fields, so none are read or written.
func (r *Report) noTags(as *apiSetup, engines []*Engine) {
	flags := map[*ssa.Global]bool{}
	for _, m := range r.pr.pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			if mt, ok := pointee(g.Type()).Underlying().(*types.Map); ok && isBoolT(mt.Elem()) {
				v := as.s.mem[as.e.globalTerm(g)]
				set := ""
				if v == nil || v.op != "zero" && !v.isNil() {
					ks, ok := []*Term(nil), false
					if v != nil {
						ks, ok = as.e.knownEntries(as.s, v)
					}
					if !ok {
						set = "undecided entries"
					}
					for _, k := range ks {
						for _, sl := range as.slots {
							if as.terms[sl] == k && as.s.mem[as.e.mapcell(v, k)].op != "false" {
								set = k.String()
							}
						}
					}
				}
				flags[g] = set == ""
			}
		}
	}
	for _, e := range engines {
		off := map[*Term]bool{}
		for g, ok := range flags {
			off[e.globalTerm(g)] = ok
		}
		global := func(m *Term) *Term {
			for g := range off {
				if m == g || m.hasSym(g) || len(m.args) > 0 && m.args[0] == g || m.op == "gval" && m.aux == g.aux {
					return g
				}
			}
			return nil
		}
		for _, ev := range e.evlist {
			if (ev.Kind == "mapset" || ev.Kind == "store") && len(ev.Args) > 0 && global(ev.Args[0]) != nil {
				off[global(ev.Args[0])] = false
			}
		}
		for _, pe := range e.ends {
			flag := false
			for _, ev := range pe.Evs {
				if ev.Kind == "mapget" && global(ev.Args[0]) != nil && off[global(ev.Args[0])] {
					flag = true
				}
				if ev.Kind == "decode" && len(ev.Args) == 2 {
					r.check(flag, "order", e.where(ev), "tagged fields are read only for an API that is marked as having them, and none that is served is")
				}
			}
		}
	}
	handlers := map[string]bool{}
	for _, f := range as.fns {
		handlers[shortFn(f)] = true
	}
	for _, e := range engines {
		for _, pe := range e.ends {
			if handlers[e.cfg.Name] && pe.Kind == "return" && pe.Label == "" && len(pe.Res) == 3 && pe.Res[2].isNil() {
				r.check(pe.Res[1].isNil(), "order", e.cfg.Name, "no tagged fields are sent", pe.Res[1].String())
			}
		}
	}
}

// headerOrder follows the position in the received bytes.
func (r *Report) headerOrder(engines []*Engine) {
	n := 0
	handlers := map[string]bool{}
	for _, f := range r.pr.handlerFuncs() {
		handlers[shortFn(f)] = true
	}
	for _, e := range engines {
		if len(e.ends) == 0 {
			continue
		}
		isHandler := handlers[e.cfg.Name]
		for _, sg := range e.segs() {
			pos := map[*Term]*Term{}  // how far each reader has gone
			next := map[*Term]*Term{} // where the next field starts
			kth := map[*Term]int{}
			for _, ev := range sg.Evs {
				switch {
				case ev.Kind == "newreader":
					pos[ev.Res[0]], next[ev.Res[0]] = e.p.Int(0), e.p.Int(0)
				case ev.Kind == "discard" && pos[ev.Args[0]] != nil:
					pos[ev.Args[0]] = e.p.Add(pos[ev.Args[0]], ev.Args[1])
				case ev.Kind == "decode" && ev.Name == "ok" && len(ev.Args) == 2 && pos[ev.Args[0]] != nil:
					rd := ev.Args[0]
					at := e.p.Add(pos[rd], ev.Args[1])
					r.check(at == next[rd], "order", e.where(ev), "what is decoded next starts where the last field ended", "starts at: "+at.String(), "ended at: "+next[rd].String())
					next[rd] = e.p.Add(pos[rd], ev.Res[0])
				case ev.Kind == "decode" && ev.Name == "ok" && len(ev.Args) > 2:
					rd := ev.Args[0]
					if pos[rd] == nil {
						if !isHandler {
							r.check(false, "order", e.where(ev), "undecided: where the bytes that are decoded come from")
							continue
						}
						pos[rd], next[rd] = e.p.Int(0), e.p.Int(0)
						kth[rd] = 2
					}
					at := e.p.Add(pos[rd], ev.Args[1])
					r.check(at == next[rd], "order", e.where(ev), "what is decoded next starts where the last field ended", "starts at: "+at.String(), "ended at: "+next[rd].String())
					next[rd] = e.p.Add(pos[rd], ev.Res[0])
					sh := "?"
					if T := rtypeOf(ev.Args[2]); T != nil {
						sh = shapeOf(T, 0)
					}
					switch kth[rd] {
					case 0:
						r.check(sh == headerSpec, "order", e.where(ev), "a request starts with Kafka's header", sh)
					case 1:
						r.check(sh == "s" || sh == "n", "order", e.where(ev), "the client id follows the header", sh)
					case 2:
						n++
					}
					kth[rd]++
				case r.handlerCall(ev) && readerOf(ev) != nil:
					rd := readerOf(ev)
					if pos[rd] == nil {
						r.check(false, "order", e.where(ev), "undecided: where the bytes of a request come from")
						continue
					}
					n++
					r.check(kth[rd] == 2 && pos[rd] == next[rd], "order", e.where(ev), "a handler reads on right after the header and the client id", "at: "+pos[rd].String(), "after: "+next[rd].String())
				}
			}
		}
	}
	r.check(n > 0, "order", "package", "requests are decoded somewhere")
}

// noNulls: the lists and byte strings of a response are never nil, which would
// be written as null where Kafka allows none.
func (r *Report) noNulls(as *apiSetup, engines []*Engine) {
	handlers := map[string]bool{}
	for _, f := range as.fns {
		handlers[shortFn(f)] = true
	}
	for _, e := range engines {
		if !handlers[e.cfg.Name] {
			continue
		}
		for _, pe := range e.ends {
			if pe.Kind != "return" || pe.Label != "" || len(pe.Res) != 3 || !pe.Res[2].isNil() {
				continue
			}
			T := ifaceType(pe.Res[0])
			if T == nil {
				continue
			}
			n := &nulls{r: r, e: e, seen: map[string]bool{}}
			n.value(pe.S, T, pe.Res[0].args[0], typeKey(T))
		}
	}
	r.need("null", 8)
}

type nulls struct {
	r    *Report
	e    *Engine
	seen map[string]bool
	// byte strings may be null here
	nullBytes bool
	onlySets  bool // only record sets are asked about
}

// encOf: the value whose encoding the bytes are.
func encOf(v *Term) *Term {
	for v.op == "bytesval" || v.op == "clone" {
		v = v.args[0]
	}
	if v.op == "cat" && len(v.args) == 1 {
		v = v.args[0]
	}
	if v.op == "enc" {
		return v.args[0]
	}
	return nil
}

// present: v is not nil.
func (n *nulls) present(s *State, v *Term) bool {
	e := n.e
	if kn, null := e.eval(s, e.p.Eq(v, e.p.Nil())); kn {
		return !null
	}
	if x := encOf(v); x != nil && v.op == "bytesval" {
		return minSize(ifaceType(x), 0) > 0 // something was written
	}
	// a field of an element of a list built here
	if v.op == "fld" && v.args[0].op == "deref" {
		el := v.args[0].args[0]
		T, _ := v.obj.(types.Type)
		if el.op != "elem" || T == nil || e.loopOf(el.args[0]) == nil {
			return false
		}
		for _, ev := range e.evlist {
			if ev.Kind == "store" && ev.Args[0].op == "field" && ev.Args[0].aux == v.aux && !nonNilTerm(ev.Args[1]) {
				return false
			}
		}
		return n.all(el.args[0], func(s *State, x *Term) bool {
			return nonNilTerm(e.load(s.clone(), e.fieldAddr(x, T, auxIndex(v.aux)), structOf(T).Field(auxIndex(v.aux)).Type()))
		}, 0)
	}
	return false
}

// all: do all elements ever put into a list have a property?
func (n *nulls) all(v *Term, f func(s *State, x *Term) bool, d int) bool {
	e := n.e
	l := e.loopOf(v)
	if l == nil || d > 5 {
		return false
	}
	for _, it := range l.Iters {
		nx := it.Next[v]
		for nx != nil && nx.op == "append" {
			for _, x := range nx.args[1:] {
				if !f(it.State, x) {
					return false
				}
			}
			nx = nx.args[0]
		}
		if nx != nil && nx != v {
			if nx.op != "loop" || !n.all(nx, f, d+1) {
				return false
			}
		}
	}
	for _, in := range l.Inits {
		if i := in[v]; i == nil || e.lenOf(i) != e.p.Int(0) && e.loopOf(i) == nil {
			return false
		}
	}
	return true
}

// minSize: the fewest bytes the encoding of a type takes.
func minSize(T types.Type, d int) int {
	if T == nil || d > 8 {
		return 0
	}
	switch named(T) {
	case "NullableString":
		return 2
	case "NullableBytes":
		return 4
	}
	switch u := T.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.String {
			return 2
		}
		if u.Kind() == types.Bool {
			return 1
		}
		b, _, _ := intRange(u)
		return b / 8
	case *types.Slice:
		return 4
	case *types.Pointer:
		return minSize(u.Elem(), d+1)
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Exported() {
				n += minSize(u.Field(i).Type(), d+1)
			}
		}
		return n
	}
	return 0
}

func (n *nulls) value(s *State, T types.Type, v *Term, path string) {
	e, r := n.e, n.r
	if named(T) == "NullableString" || named(T) == "NullableBytes" || v == nil {
		return
	}
	k := fmt.Sprint(path, " ", v.id)
	if n.seen[k] {
		return
	}
	n.seen[k] = true
	switch u := T.Underlying().(type) {
	case *types.Pointer:
		if structOf(u.Elem()) == nil {
			return
		}
		if isMessageSet(u.Elem()) {
			rule := "null"
			if n.onlySets {
				rule = "present"
			}
			r.check(n.present(s, v), rule, e.cfg.Name, path+" is present", str(v))
			return
		}
		n.value(s, u.Elem(), e.load(s.clone(), v, u.Elem()), path)
	case *types.Struct:
		if isMessageSet(T) {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			n.value(s, u.Field(i).Type(), e.fldOf(v, T, i), path+"."+u.Field(i).Name())
		}
	case *types.Slice:
		if isByteSlice(T) && n.nullBytes {
			return
		}
		if !n.onlySets {
			r.check(n.present(s, v), "null", e.cfg.Name, path+" is not null", str(v))
		}
		if x := encOf(v); x != nil && isByteSlice(T) && ifaceType(x) != nil {
			// an assignment, whose own bytes may be null
			in := &nulls{r: r, e: e, seen: n.seen, nullBytes: true}
			in.value(s, ifaceType(x), x.args[0], path+"("+typeKey(ifaceType(x))+")")
		}
		if !isByteSlice(T) && structOf(u.Elem()) != nil {
			n.elems(s, u.Elem(), v, path+"[]", 0)
		}
	}
}

// elems: every element that was ever put in.
func (n *nulls) elems(s *State, ET types.Type, v *Term, path string, d int) {
	e := n.e
	switch {
	case d > 20:
	case v.op == "append":
		for _, x := range v.args[1:] {
			n.value(s, ET, x, path)
		}
		n.elems(s, ET, v.args[0], path, d+1)
	case v.op == "loop" && e.loopOf(v) != nil:
		l := e.loopOf(v)
		if n.seen["loop "+v.String()] {
			return
		}
		n.seen["loop "+v.String()] = true
		for _, it := range l.Iters {
			if nx := it.Next[v]; nx != nil {
				n.elems(it.State, ET, nx, path, d+1)
			}
		}
		for _, in := range l.Inits {
			if i := in[v]; i != nil {
				n.elems(s, ET, i, path, d+1)
			}
		}
	case e.lenOf(v) == e.p.Int(0):
	case v.op == "slice" && v.args[0].op == "new" && e.lenOf(v).isInt() && e.lenOf(v).intVal() < 16:
		for i := int64(0); i < e.lenOf(v).intVal(); i++ {
			n.value(s, ET, e.load(s.clone(), e.indexAddr(s, v, e.p.Int(i), ET), ET), path)
		}
	case v.op == "makeslice":
		// filled by index: every entry, by one loop
		var l *LoopInfo
		var cur *Term
		for _, x := range e.loops {
			if _, c, ok := e.counter(x); ok && e.fills(x, v, c) {
				l, cur = x, c
			}
		}
		if l == nil || !e.entails(s, e.p.Sub(cur, e.lenOf(v))) {
			n.r.check(false, map[bool]string{true: "present", false: "null"}[n.onlySets], e.cfg.Name, path+": undecided: whether every entry is filled", str(v))
			return
		}
		for _, it := range l.Iters {
			if st := structOf(ET); st != nil && pointee(ET) == nil {
				for i := 0; i < st.NumFields(); i++ {
					n.value(it.State, st.Field(i).Type(), e.madeField(it.State, v, cur, ET, i), path+"."+st.Field(i).Name())
				}
			} else {
				n.value(it.State, ET, e.madeVal(it.State, v, cur, ET), path)
			}
		}
	default:
		if n.onlySets && !hasSet(ET, 0) {
			return
		}
		n.r.check(false, map[bool]string{true: "present", false: "null"}[n.onlySets], e.cfg.Name, path+": undecided: what it holds", str(v))
	}
}

// fills: does some round of the loop store to the entry cur of ms?
func (e *Engine) fills(l *LoopInfo, ms, cur *Term) bool {
	for _, it := range l.Iters {
		for _, ev := range it.Evs {
			if ev.Kind == "store" && ev.Site != nil {
				if x, i := addrSlice(ev.Args[0]); x == ms && i == cur {
					return true
				}
			}
		}
	}
	return false
}
