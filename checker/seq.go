package main

// Sequences built by loops: what a slice that grew in a loop holds, one
// iteration at a time.

import (
	"fmt"
	"go/types"
	"sort"
)

// SeqItem is what one kind of iteration contributes.
type SeqItem struct {
	Elem *Term
	It   *Iter
	S    *State
}

// Seq: a slice holding exactly one element per iteration of a loop, in order.
type Seq struct {
	Loop  *LoopInfo
	Sym   *Term
	Items []SeqItem
	// what is iterated
	Map   *Term // map ranged over, or nil
	Slice *Term // slice ranged over, or nil
	Idx   *Term // index of the current element, during an iteration
	Iter  *Term
	Made  bool // made with that length, and filled entry by entry
}

func (e *Engine) loopOf(t *Term) *LoopInfo {
	if t == nil || t.op != "loop" {
		return nil
	}
	for k, l := range e.loops {
		if len(t.aux) > len(k) && t.aux[:len(k)] == k && t.aux[len(k)] == '/' {
			return l
		}
	}
	return nil
}

// mapIterOf finds the map a loop ranges over, by the steps its iterations take.
func (e *Engine) mapIterOf(l *LoopInfo) (it, m *Term) {
	for _, i := range l.Iters {
		for _, ev := range i.Evs {
			if ev.Kind == "mapnext" && ev.Site != nil && ev.Site.ctx == l.Ctx && ev.Site.blk == l.Header {
				return e.iterTerm(ev), ev.Args[0]
			}
		}
	}
	return nil, nil
}

func (e *Engine) iterTerm(ev *Event) *Term { return ev.Args[0] }

// counter: the index symbol of a loop that walks a slice from its start, and
// the value it has during an iteration.
func (e *Engine) counter(l *LoopInfo) (sym, cur *Term, ok bool) {
	for t, v := range l.Vars {
		if t.typ == nil || !isInteger(t.typ) || v.Phi == nil {
			continue
		}
		start, good := int64(0), true
		for n, in := range l.Inits {
			i := in[t]
			if i == nil || !i.isInt() || n > 0 && i.intVal() != start {
				good = false
				break
			}
			start = i.intVal()
		}
		if !good || start != -1 && start != 0 || len(l.Inits) == 0 {
			continue
		}
		for _, it := range l.Iters {
			if it.Next[t] != e.p.Add(t, e.p.Int(1)) {
				good = false
			}
		}
		if !good {
			continue
		}
		cur = t
		if start == -1 {
			cur = e.p.Add(t, e.p.Int(1))
		}
		if sym == nil || start == -1 {
			sym, ok = t, true
			if start == -1 {
				return sym, cur, true
			}
		}
	}
	return sym, cur, ok
}

// seq decides whether t is a slice with one element per iteration.
func (e *Engine) seq(t *Term) (*Seq, string) {
	if t != nil && t.op == "makeslice" {
		return e.seqMade(t)
	}
	l := e.loopOf(t)
	if l == nil {
		return nil, "not built by a loop: " + clip(t.String(), 120)
	}
	if why := e.ownMemory(t); why != "" {
		return nil, why
	}
	v := l.Vars[t]
	if v == nil {
		return nil, "unknown loop variable"
	}
	for _, in := range l.Inits {
		if n := e.lenOf(in[t]); !n.isInt() || n.intVal() != 0 {
			return nil, "does not start empty"
		}
	}
	sq := &Seq{Loop: l, Sym: t}
	if len(l.Iters) == 0 {
		return nil, "the loop never goes round"
	}
	for _, it := range l.Iters {
		n := it.Next[t]
		if n == nil || n.op != "append" || n.args[0] != t || len(n.args) != 2 {
			if n != nil && n.op == "append" && n.args[0] == t {
				return nil, "an iteration adds several elements"
			}
			if n == t {
				return nil, "an iteration adds nothing"
			}
			return nil, "an iteration does not add exactly one element: " + clip(str(n), 160)
		}
		sq.Items = append(sq.Items, SeqItem{n.args[1], it, it.State})
	}
	if itT, m := e.mapIterOf(l); m != nil {
		sq.Map, sq.Iter = m, itT
		return sq, ""
	}
	if _, cur, ok := e.counter(l); ok {
		sq.Idx = cur
	}
	return sq, ""
}

// seqMade: a slice made as long as a map, and given one entry in each round of
// a loop over that map.
func (e *Engine) seqMade(t *Term) (*Seq, string) {
	ET := elemT(t.typ)
	var sq *Seq
	for _, k := range sortedKeys(e.loops) {
		l := e.loops[k]
		itT, m := e.mapIterOf(l)
		_, cur, ok := e.counter(l)
		if m == nil || !ok || !e.fills(l, t, cur) {
			continue
		}
		if sq != nil {
			return nil, "filled by several loops"
		}
		if n := t.args[0]; n.op != "len" || n.args[0] != m {
			return nil, "is not made as long as the map it is filled from"
		}
		if why := e.ownFill(t, l); why != "" {
			return nil, why
		}
		sq = &Seq{Loop: l, Sym: t, Map: m, Iter: itT, Made: true}
		for _, it := range l.Iters {
			v := e.madeVal(it.State, t, cur, ET)
			if st, ok := ET.Underlying().(*types.Struct); ok {
				var fs []*Term
				for i := 0; i < st.NumFields(); i++ {
					fs = append(fs, e.madeField(it.State, t, cur, ET, i))
				}
				v = e.p.mk("struct", typeKey(ET), ET, nil, fs...)
			}
			sq.Items = append(sq.Items, SeqItem{v, it, it.State})
		}
		for _, ev := range e.evlist {
			switch ev.Kind {
			case "store":
				if x, i := addrSlice(ev.Args[0]); x == t && i != cur {
					return nil, "entries may be overwritten at " + e.where(ev)
				}
			case "copy", "permute":
				if ev.Args[0] == t {
					return nil, "entries may be overwritten at " + e.where(ev)
				}
			}
		}
	}
	if sq == nil {
		return nil, "not filled entry by entry in a loop over a map: " + clip(t.String(), 120)
	}
	return sq, ""
}

// exhausted: in state s (with events evs), did the loop end because everything
// had been visited?
func (e *Engine) exhausted(s *State, evs []*Event, l *LoopInfo, src *Term, cur *Term) (bool, string) {
	if src != nil && cur != nil {
		// cur is the next index to visit
		if s != nil && e.entails(s, e.p.Sub(cur, e.lenOf(src))) {
			return true, ""
		}
		return false, fmt.Sprintf("may stop at %s before reaching the end of %s", cur, clip(src.String(), 100))
	}
	// map: the iterator said so
	for i := len(evs) - 1; i >= 0; i-- {
		ev := evs[i]
		if ev.Kind == "loopend" && ev.Name == l.Key {
			for j := i - 1; j >= 0; j-- {
				if evs[j].Kind == "mapdone" && evs[j].Site != nil && evs[j].Site.ctx == l.Ctx && evs[j].Site.blk == l.Header {
					return true, ""
				}
				if evs[j].Kind == "loop" && evs[j].Name == l.Key {
					break
				}
			}
			return false, "may stop before every entry was visited"
		}
	}
	return false, "the loop is not on this path"
}

// ---- reading struct values -------------------------------------------------------

// structField: field named n of a struct value.
func (e *Engine) structField(v *Term, T types.Type, n string) *Term {
	st, ok := T.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == n {
			return e.fldOf(v, T, i)
		}
	}
	return nil
}

func fieldIndex(T types.Type, n string) int {
	st, ok := T.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == n {
			return i
		}
	}
	return -1
}

// copyOf: is v a copy of the byte string p of the caller, nil when p is nil,
// in memory of its own?
func (e *Engine) copyOf(s *State, v, p *Term) bool {
	if v.op == "clone" && v.args[0] == p {
		return true
	}
	isNil := e.p.Eq(p, e.p.Nil())
	kn, val := e.eval(s, isNil)
	if kn && val {
		return v.isNil() || v.op == "zero" || v == p
	}
	if kn && !val {
		switch v.op {
		case "concat":
			// append([]byte{}, p...)
			return len(v.args) == 2 && v.args[1] == p && nonNilTerm(v.args[0]) && e.lenOf(v.args[0]) == e.p.Int(0)
		case "makeslice":
			ps, ok := e.region(s, v, e.p.Int(0), v.args[0])
			return ok && len(ps) == 1 && ps[0].op == "raw" && ps[0].args[0] == p && v.args[0] == e.lenOf(p)
		}
	}
	return false
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}


// ---- whose memory a list is in ---------------------------------------------------

// ownMemory decides that a list built by appending is in memory nothing else
// is put into: whatever room to grow it is given is made for it alone, and is
// appended to once only.
func (e *Engine) ownMemory(t *Term) string {
	fam := map[*Term]bool{}
	roots := map[*Term]bool{}
	var visit func(t *Term) string
	visit = func(t *Term) string {
		if t == nil || fam[t] {
			return ""
		}
		switch {
		case t.isNil() || t.op == "zero":
			return ""
		case t.op == "loop":
			fam[t] = true
			l := e.loopOf(t)
			if l == nil || l.Vars[t] == nil {
				return "in memory of unknown origin: " + clip(t.String(), 120)
			}
			for _, in := range l.Inits {
				if why := visit(in[t]); why != "" {
					return why
				}
			}
			for _, it := range l.Iters {
				if why := visit(it.Next[t]); why != "" {
					return why
				}
			}
			return ""
		case t.op == "append" || t.op == "concat":
			fam[t] = true
			return visit(t.args[0])
		case t.op == "makeslice":
			if len(t.args) > 1 && t.args[1].isInt() && t.args[1].intVal() == 0 {
				return ""
			}
			fam[t], roots[t] = true, true
			return ""
		case t.op == "slice":
			b := t.args[0]
			if b.op == "new" && b.typ != nil {
				n := int64(-1)
				if pt := pointee(b.typ); pt != nil {
					if at, ok := pt.Underlying().(*types.Array); ok {
						n = at.Len()
					}
				}
				if n >= 0 && t.args[2] == e.p.Int(n) {
					return "" // no room to grow
				}
			}
			if b.op == "new" || b.op == "makeslice" {
				fam[t], fam[b], roots[b] = true, true, true
				return ""
			}
			return "in memory that may also be in use elsewhere: " + clip(t.String(), 160)
		}
		return "in memory of unknown origin: " + clip(t.String(), 160)
	}
	if why := visit(t); why != "" || len(roots) == 0 {
		return why
	}
	// where the memory is made, as seen from a use of it
	again := func(st *Site, base *Term, skip *LoopInfo) string {
		for _, k := range sortedKeys(e.loops) {
			l := e.loops[k]
			if l == skip || l.Vars[base] != nil && base.op == "loop" || st == nil || !inLoop(e, st, l) {
				continue
			}
			for rt := range roots {
				if rt.site == nil || !inLoop(e, rt.site, l) {
					return "the memory it is in is used again in each round of a loop: " + clip(rt.String(), 120)
				}
			}
		}
		return ""
	}
	for _, sg := range e.segs() {
		used := map[*Term]int{}
		for _, ev := range sg.Evs {
			switch ev.Kind {
			case "append":
				if b := ev.Args[0]; fam[b] {
					if used[b]++; used[b] > 1 {
						return "appended to twice at " + e.where(ev)
					}
					if why := again(ev.Site, b, nil); why != "" {
						return why
					}
				}
			case "loop":
				l := e.loops[ev.Name]
				if l == nil {
					continue
				}
				seen := map[*Term]bool{}
				for v := range l.Vars {
					if !fam[v] {
						continue
					}
					for _, in := range l.Inits {
						if b := in[v]; fam[b] && !seen[b] {
							seen[b] = true
						}
					}
				}
				for b := range seen {
					if used[b]++; used[b] > 1 {
						return "used twice, at " + e.where(ev)
					}
					if why := again(&Site{ctx: l.Ctx, blk: l.Header}, b, l); why != "" {
						return why
					}
				}
			}
		}
	}
	return ""
}

// ownFill: a slice filled by a loop is made anew whenever that loop runs.
func (e *Engine) ownFill(t *Term, fl *LoopInfo) string {
	st := &Site{ctx: fl.Ctx, blk: fl.Header}
	for _, k := range sortedKeys(e.loops) {
		l := e.loops[k]
		if l != fl && inLoop(e, st, l) && (t.site == nil || !inLoop(e, t.site, l)) {
			return "the memory it is in is used again in each round of a loop: " + clip(t.String(), 120)
		}
	}
	return ""
}
