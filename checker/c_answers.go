package main

// C12, C13, C14, C19, C20: what the answers about the store say.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	errNone           = 0
	errUnknownTopic   = 3
	errOffsetOutRange = 1
)

// unconv strips integer conversions that keep the value of any 16-bit code.
func unconv(t *Term) *Term { return unconvW(t, 32) }

// unconvW removes conversions that keep at least the low w bits.
func unconvW(t *Term, w int) *Term {
	for t != nil && t.op == "conv" && t.typ != nil && isInteger(t.typ) {
		if bits, _, _ := intRange(t.typ); bits < w {
			break
		}
		t = t.args[0]
	}
	return t
}

func checkC14(r *Report) {
	r.rule("error", "an entry has error 3 only where its topic or partition was looked up in this mock's store and found absent, and has not error 3 only where it was looked up and found")
	r.rule("unchanged", "no request handler enters or removes a topic or partition, or writes to one (committed offsets apart, see C12)")
	as := r.apiSetup()
	m := r.storeModel()
	if as == nil {
		return
	}
	for _, sl := range itemSlots {
		sp := itemSpecs[sl]
		e, fn := r.handlerRun(as, sl, nil)
		if e == nil {
			continue
		}
		w := shortFn(fn)
		sides := map[string]int{}
		judge := func(a *Answer) {
			for _, c := range r.codes(a, a.Out(sp.outErr), m) {
				x := c.ex
				if c.why != "" {
					r.fail("error", w, "undecided: "+c.why, pathOf(e, a.It.Evs)...)
					continue
				}
				if !x.absent && !x.present {
					r.fail("error", w, "undecided: "+x.why, pathOf(e, a.It.Evs)...)
					continue
				}
				code := r.constField(e, unconvW(c.code, 16))
				if !code.isInt() {
					r.fail("error", w, "undecided: error code", code.String())
					continue
				}
				n := code.intVal()
				if n == errUnknownTopic {
					sides["absent"]++
					r.check(x.absent, "error", w, "error 3 is given for what is absent", "code: "+code.String())
				} else {
					sides["present"]++
					r.check(x.present, "error", w, "error 3 is missing only for what is there", "code: "+code.String())
				}
				if sl == (apiSlot{1, 2}) {
					r.check(n == errNone || n == errUnknownTopic || n == errOffsetOutRange, "error", w, fmt.Sprintf("error %d", n))
					if n == errOffsetOutRange {
						// only an offset that can hold nothing is refused
						at := c.at
						off := unconv(e.fldOf(at.Elem, at.ElemT, sp.inIdx+1))
						r.checkL(at != nil && e.entails(at.S, e.p.Sub(e.p.Int(-1), off)), "error", w, "a fetch is refused as out of range only where the offset asked for is negative", func() []string {
							return append([]string{"offset: " + off.String()}, pathOf(e, at.S.ev)...)
						})
					}
				} else {
					r.check(n == errNone || n == errUnknownTopic, "error", w, fmt.Sprintf("error %d", n))
				}
			}
		}
		none := func(*Answer) {}
		if sp.perTopic {
			r.answers(e, fn, sp, "error", judge, nil)
		} else {
			r.answers(e, fn, sp, "error", none, judge)
		}
		r.check(sides["absent"] > 0, "error", w, sp.what+" can report what is absent")
		r.check(sides["present"] > 0, "error", w, sp.what+" can answer about what is there")
	}
	for _, fn := range r.pr.handlerFuncs() {
		var e *Engine
		e = newEngine(r.pr, &RootCfg{Name: shortFn(fn), Fn: fn, Spawn: true, Hook: func(s *State, ev *Event) {
			r.unchanged(e, m, s, ev)
		}})
		e.Run()
		r.account(e)
		r.pass("unchanged", shortFn(fn), "analysed")
	}
	r.need("error", 30)
	r.need("unchanged", 8)
}

// Code: an error code an entry may carry, and what is known where it does.
type Code struct {
	code *Term
	ex   *Existence
	why  string
	at   *Answer // where it is set up
}

// codes: the error codes of an entry. A code kept in an object that was set up
// earlier is judged where it was set up.
func (r *Report) codes(a *Answer, t *Term, m *storeModel) []Code {
	t = r.constField(a.e, unconvW(t, 16))
	if t.isInt() {
		return []Code{{code: t, ex: r.exists(a, m), at: a}}
	}
	if cs, why := r.viaObject(a, t, m); cs != nil || why != "" {
		if why != "" {
			return []Code{{why: why}}
		}
		return cs
	}
	return []Code{{why: "error code " + t.String()}}
}

func (r *Report) unchanged(e *Engine, m *storeModel, s *State, ev *Event) {
	w := e.where(ev)
	switch ev.Kind {
	case "mapset", "mapdel", "mapclear":
		aux, _ := valueOwner(ev.Args[0])
		if aux == m.topics || aux == m.partitions {
			r.fail("unchanged", w, ev.Kind+" on "+aux+" by a request", pathOf(e, s.ev)...)
		}
		if mt, ok := mapType(ev.Args[0]); ok && aux == "" {
			if k := typeKey(mt); k == "map[string]*kafkamock.kafkaTopic" || k == "map[int32]*kafkamock.kafkaPartition" {
				r.fail("unchanged", w, "undecided: "+ev.Kind+" on a map of topics or partitions")
			}
		}
	case "store":
		a := ev.Args[0]
		if a.op == "field" && r.pr.storeField(a.aux) {
			b := baseOf(a)
			if b.op != "new" || s.shared[b] {
				r.fail("unchanged", w, "a request writes "+a.aux)
			}
		}
		if a.op == "index" {
			if aux, _ := valueOwner(a.args[0]); r.pr.storeField(aux) {
				r.fail("unchanged", w, "a request overwrites an element of "+aux)
			}
		}
	case "permute", "copy", "bytestore":
		if aux, _ := valueOwner(ev.Args[0]); r.pr.storeField(aux) || r.pr.recordField(aux) {
			r.fail("unchanged", w, "a request changes "+aux)
		}
	}
}

// ---- C13 -------------------------------------------------------------------------

func checkC13(r *Report) {
	r.rule("latest", "where the timestamp asked for is -1 and the partition was found, the offset is the length of that partition's record list and the error is 0")
	r.rule("earliest", "where it is -2, the offset is 0 and the error is 0, and the timestamp is that of the partition's first record unless it was found to have none")
	r.rule("decided", "every path that answers a partition that exists has told the two sentinels from other timestamps")
	as := r.apiSetup()
	m := r.storeModel()
	if as == nil {
		return
	}
	sl := apiSlot{2, 1}
	sp := itemSpecs[sl]
	e, fn := r.handlerRun(as, sl, nil)
	if e == nil {
		return
	}
	w := shortFn(fn)
	nl, ne := 0, 0
	r.answers(e, fn, sp, "decided", func(*Answer) {}, func(a *Answer) {
		x := r.exists(a, m)
		if !x.present {
			r.check(x.absent, "decided", w, "an entry is about a partition known to be there or not", x.why)
			return
		}
		s := a.S
		ts := e.fldOf(a.Elem, a.ElemT, 1)
		errc := r.constField(e, unconvW(a.Out(sp.outErr), 16))
		off := a.Out(3)
		is := func(n int64) (bool, bool) { return e.eval(s, e.p.Eq(ts, e.p.Int(n))) }
		k1, v1 := is(-1)
		k2, v2 := is(-2)
		latest := func() bool {
			if off.op == "len" && off.args[0].op == "fld" {
				aux, base := valueOwner(off.args[0])
				for _, p := range x.parts {
					if aux == m.records && base == p {
						return true
					}
				}
			}
			return false
		}
		if !k1 || v1 {
			if !k1 && k2 && v2 {
				goto early
			}
			nl++
			r.check(latest(), "latest", w, "the offset given for -1 is the number of that partition's records", "offset: "+off.String(), "known: "+fmt.Sprint(k1))
			r.check(errc == e.p.Int(0), "latest", w, "no error is given for -1", errc.String())
		}
	early:
		if !k2 || v2 {
			if k1 && v1 {
				return
			}
			ne++
			r.check(off == e.p.Int(0) || e.entails(s, off) && e.entails(s, e.p.Scale(off, -1)), "earliest", w, "the offset given for -2 is 0", "offset: "+off.String(), "known: "+fmt.Sprint(k2))
			r.check(errc == e.p.Int(0), "earliest", w, "no error is given for -2", errc.String())
			r.checkL(e.firstStamp(s, a.Out(2), x.parts, m), "earliest", w, "the timestamp given for -2 is that of the first record, if there is one", func() []string {
				return append([]string{"timestamp: " + clip(a.Out(2).String(), 200)}, pathOf(e, s.ev)...)
			})
		}
		r.pass("decided", w, "sentinels are told apart")
	})
	r.check(nl > 0, "latest", w, "-1 is answered on some path")
	r.check(ne > 0, "earliest", w, "-2 is answered on some path")
}

// firstStamp: is the value the timestamp of the first record of one of the
// partitions, or was its list found empty?
func (e *Engine) firstStamp(s *State, t *Term, parts []*Term, m *storeModel) bool {
	list := func(v *Term) bool {
		if v.op != "fld" {
			return false
		}
		aux, base := valueOwner(v)
		for _, p := range parts {
			if aux == m.records && base == p {
				return true
			}
		}
		return false
	}
	t = unconv(t)
	if t.op == "fld" && fieldName(t) == "Timestamp" && t.args[0].op == "deref" {
		if el := t.args[0].args[0]; el.op == "elem" && len(el.args) > 1 && list(el.args[0]) && el.args[1].isInt() && el.args[1].intVal() == 0 {
			return true
		}
	}
	for _, ev := range s.ev {
		if ev.Kind == "load" && len(ev.Args) > 1 && list(ev.Args[1]) && e.entails(s, e.p.Scale(e.lenOf(ev.Args[1]), -1)) {
			return true
		}
	}
	return false
}

// ---- C12 -------------------------------------------------------------------------

func checkC12(r *Report) {
	pr := r.pr
	r.rule("commit", "for each partition of a commit that exists, the request's group in that partition's own map is set to the committed offset where the current value, read in the same critical section, is not higher, and is left alone only where it is known not to be lower")
	r.rule("set", "a direct set stores exactly the given offset for the given group, topic and partition, wherever that partition exists")
	r.rule("fetch", "an offset fetch answers the value found for the request's group in that partition's own map, 0 if there is none, with no error, and -1 for a partition that does not exist")
	r.rule("only", "nothing else writes committed offsets, except a 0 where there was none")
	as := r.apiSetup()
	m := r.storeModel()
	if as == nil {
		return
	}
	// commits
	{
		sl := apiSlot{8, 2}
		sp := itemSpecs[sl]
		sets := map[*Event]string{}
		order := map[*Event]*State{}
		e, fn := r.handlerRun(as, sl, func(e *Engine, s *State, ev *Event) {
			if ev.Kind == "mapset" {
				if aux, _ := valueOwner(ev.Args[0]); aux == m.commits {
					sets[ev] = e.where(ev)
					order[ev] = s.clone()
				}
			}
		})
		if e != nil {
			w := shortFn(fn)
			judged := map[*Event]bool{}
			nset, nkeep := 0, 0
			r.answers(e, fn, sp, "commit", func(*Answer) {}, func(a *Answer) {
				x := r.exists(a, m)
				var mine []*Event
				for _, ev := range a.It.Evs {
					if _, ok := sets[ev]; ok {
						mine = append(mine, ev)
						judged[ev] = true
					}
				}
				if !x.present {
					r.check(x.absent, "commit", w, "an entry is about a partition known to be there or not", x.why)
					r.check(len(mine) == 0, "commit", w, "nothing is committed for a partition that is not there")
					return
				}
				val := e.fldOf(a.Elem, a.ElemT, 1)
				group := e.fldOf(a.Req, reqType(a.PE), 0)
				own := func(mp *Term) bool {
					aux, base := valueOwner(mp)
					if aux != m.commits || mp.op != "fld" {
						return false
					}
					for _, p := range x.parts {
						if p == base {
							return true
						}
					}
					return false
				}
				// current values seen
				cur := func(mp *Term, s *State) []*Term {
					var out []*Term
					for _, ev := range s.ev {
						if ev.Kind == "mapget" && own(ev.Args[0]) && ev.Args[1] == group && (mp == nil || ev.Args[0] == mp) {
							out = append(out, ev.Args[2])
							if e.found(s, ev.Args[2]) < 0 {
								out = append(out, e.p.Int(0))
							}
						}
					}
					return out
				}
				switch len(mine) {
				case 0:
					nkeep++
					ok := false
					for _, c := range cur(nil, a.S) {
						if e.entails(a.S, e.p.Sub(c, val)) {
							ok = true
						}
					}
					r.check(ok, "commit", w, "the offset is left alone only where it is not lower than the one committed", pathOf(e, a.It.Evs)...)
				case 1:
					nset++
					ev := mine[0]
					wh := e.where(ev)
					s := order[ev]
					r.check(own(ev.Args[0]), "commit", wh, "the committed offset is that of the partition named", ev.Args[0].String())
					r.check(ev.Args[1] == group, "commit", wh, "it is entered under the request's group", ev.Args[1].String())
					ok := false
					for _, c := range cur(ev.Args[0], s) {
						if ev.Args[2] == val && e.entails(s, e.p.Sub(val, c)) {
							ok = true
						}
						if ev.Args[2] == c && e.entails(s, e.p.Sub(c, val)) {
							ok = true
							nkeep++
						}
					}
					r.check(ok, "commit", wh, "it becomes the committed value, which is not lower than the one it has in this critical section", "stored: "+ev.Args[2].String())
				default:
					r.fail("commit", w, "one answer commits several times")
				}
			})
			for ev, wh := range sets {
				r.check(judged[ev], "commit", wh, "a commit is made while answering for its partition")
			}
			r.check(nset > 0, "commit", w, "a commit can raise an offset")
			r.check(nkeep > 0, "commit", w, "a commit can leave an offset alone")
		}
	}
	// offset fetch
	{
		sl := apiSlot{9, 1}
		sp := itemSpecs[sl]
		e, fn := r.handlerRun(as, sl, nil)
		if e != nil {
			w := shortFn(fn)
			n := 0
			r.answers(e, fn, sp, "fetch", func(*Answer) {}, func(a *Answer) {
				x := r.exists(a, m)
				if !x.present {
					r.check(x.absent, "fetch", w, "an entry is about a partition known to be there or not", x.why)
					if x.absent {
						c := r.constField(e, unconvW(a.Out(1), 64))
						r.check(c == e.p.Int(-1), "fetch", w, "no offset (-1) is answered for a partition that does not exist", c.String())
					}
					return
				}
				n++
				group := e.fldOf(a.Req, reqType(a.PE), 0)
				got := a.Out(1)
				ok := false
				for _, ev := range a.S.ev {
					if ev.Kind != "mapget" || ev.Args[1] != group {
						continue
					}
					aux, base := valueOwner(ev.Args[0])
					if aux != m.commits {
						continue
					}
					for _, p := range x.parts {
						if p == base && (got == ev.Args[2] || got == e.p.Int(0) && e.found(a.S, ev.Args[2]) < 0) {
							ok = true
						}
					}
				}
				r.check(ok, "fetch", w, "the offset answered is the one found for the request's group in the partition named", "answered: "+got.String())
				c := r.constField(e, unconvW(a.Out(sp.outErr), 16))
				r.check(c == e.p.Int(0), "fetch", w, "no error is given for a partition that exists", c.String())
			})
			r.check(n > 0, "fetch", w, "a partition that exists is answered")
		}
	}
	// everything else
	commitFn := as.fns[apiSlot{8, 2}]
	setFn := pr.method("KafkaMock", "SetConsumerGroupOffset")
	if setFn == nil {
		r.fail("set", "SetConsumerGroupOffset", "anchor lost: no such method")
	}
	setEvs := map[*Event]bool{}
	engs := r.allRoots(func(e *Engine, s *State, ev *Event) {
		w := e.where(ev)
		switch ev.Kind {
		case "mapset":
			aux, base := valueOwner(ev.Args[0])
			if aux != m.commits {
				if mt, ok := mapType(ev.Args[0]); ok && aux == "" && typeKey(mt) == "map[string]int64" && ev.Args[0].op != "makemap" {
					r.fail("only", w, "undecided: a map of offsets is changed")
				}
				return
			}
			if base != nil && base.op == "new" && !s.shared[base] {
				return
			}
			if e.cfg.Fn == commitFn {
				return
			}
			if e.cfg.Fn == setFn {
				setEvs[ev] = true
				return
			}
			_, okT := e.mapget(s, ev.Args[0], ev.Args[1], ev.Args[2].typ)
			kn, val := e.eval(s, okT)
			r.check(ev.Args[2] == e.p.Int(0) && kn && !val, "only", w, "outside commits and direct sets, only a 0 is entered, where there was none ("+shortFn(e.cfg.Fn)+")", ev.Args[2].String())
		case "mapdel", "mapclear":
			if aux, _ := valueOwner(ev.Args[0]); aux == m.commits {
				r.fail("only", w, "committed offsets are removed")
			}
		case "store":
			a := ev.Args[0]
			if a.op == "field" && a.aux == m.commits {
				b := a.args[0]
				if !r.check(b.op == "new" && !s.shared[b], "only", w, "a partition's map of offsets is set only while the partition is built", b.String()) {
					return
				}
				r.check(ev.Args[1].op == "makemap", "only", w, "a partition's map of offsets is its own", ev.Args[1].String())
			}
		}
	})
	for _, e := range engs {
		if e.cfg.Fn != setFn || setFn == nil {
			continue
		}
		r.directSet(e, m, setFn, setEvs)
	}
	r.need("only", 2)
	r.need("commit", 6)
	r.need("set", 3)
	r.need("fetch", 3)
}

func reqType(pe *PathEnd) types.Type {
	_, T := pe.decoded()
	return T
}

func (r *Report) directSet(e *Engine, m *storeModel, fn *ssa.Function, setEvs map[*Event]bool) {
	w := shortFn(fn)
	pt := e.paramTerms(fn, "")
	if len(pt) != 5 {
		r.fail("set", w, "anchor lost: parameters")
		return
	}
	e.eachIterEvent(func(l *LoopInfo, it *Iter, ev *Event) {
		if setEvs[ev] {
			r.fail("set", e.where(ev), "sets an offset inside a loop")
		}
	})
	n := 0
	for _, pe := range e.ends {
		if pe.Kind != "return" || pe.Label != "" {
			r.fail("set", w, "a direct set may end without an effect ("+pe.Kind+pe.Label+")")
			continue
		}
		// what was looked up
		absent := false
		for _, ev := range pe.Evs {
			if ev.Kind != "mapget" || e.found(pe.S, ev.Args[2]) >= 0 {
				continue
			}
			aux, base := valueOwner(ev.Args[0])
			switch aux {
			case m.topics:
				if o, _ := valueOwner(base); o == m.mockDS && ev.Args[1] == pt[1] {
					absent = true
				}
			case m.partitions:
				if root, keys, ok := e.storePath(m, pe.Evs, e.p.mk("mapval", ev.Args[2].aux, ev.Args[2].typ, ev.Args[2].obj, ev.Args[2].args...)); ok && len(keys) == 2 {
					if o, _ := valueOwner(root); o == m.mockDS && keys[0] == pt[1] && isParamConv(keys[1], pt[2]) {
						absent = true
					}
				}
			}
		}
		var mine []*Event
		for _, ev := range pe.Evs {
			if setEvs[ev] {
				mine = append(mine, ev)
			}
		}
		if len(mine) == 0 {
			r.check(absent, "set", w, "nothing is set only where the topic or partition is absent", pathOf(e, pe.Evs)...)
			continue
		}
		n++
		ev := mine[len(mine)-1]
		wh := e.where(ev)
		r.check(len(mine) == 1, "set", wh, "one offset is set")
		_, p := valueOwner(ev.Args[0])
		ok := false
		if p != nil {
			root, keys, good := e.storePath(m, pe.Evs, p)
			if good && len(keys) == 2 {
				o, _ := valueOwner(root)
				ok = o == m.mockDS && keys[0] == pt[1] && isParamConv(keys[1], pt[2])
			}
		}
		r.check(ok, "set", wh, "the partition is the one named", str(p))
		r.check(ev.Args[1] == pt[3], "set", wh, "the group is the one named", ev.Args[1].String())
		r.check(ev.Args[2] == pt[4], "set", wh, "the offset is the one given", ev.Args[2].String())
	}
	r.check(n > 0, "set", w, "an offset can be set")
}

// ---- lists over maps --------------------------------------------------------------

// MapList: one entry for each key of a map.
type MapList struct {
	Map   *Term
	Items []*MapItem
}
type MapItem struct {
	*ListItem
	Key *Term
}

// mapKeyOf: the key of m visited, as it occurs in t.
func mapKeyOf(m *Term, ts ...*Term) *Term {
	for _, t := range ts {
		for _, y := range t.syms {
			if y.op == "mapkey" && y.args[0] == m {
				return y
			}
		}
	}
	return nil
}

// keysOf: t lists every key of a map once.
func (r *Report) keysOf(e *Engine, s *State, evs []*Event, t *Term, m *storeModel) (*Term, string) {
	if t == nil {
		return nil, "no list"
	}
	sq, why := e.seq(t)
	if sq == nil {
		return nil, why
	}
	if sq.Map == nil {
		return nil, "not built from a map: " + clip(t.String(), 120)
	}
	for _, it := range sq.Items {
		k := mapKeyOf(sq.Map, it.Elem)
		if k == nil || !r.isIndex(e, m, it.Elem, k) {
			return nil, "an entry is not the key visited: " + clip(it.Elem.String(), 160)
		}
	}
	if ok, why := e.exhausted(s, evs, sq.Loop, nil, nil); !ok {
		return nil, why
	}
	if why := e.touched2(t); why != "" && !sq.Made {
		return nil, why
	}
	return sq.Map, ""
}

// touched2: are entries of a list built by appending overwritten?
func (e *Engine) touched2(t *Term) string {
	for _, ev := range e.evlist {
		switch ev.Kind {
		case "store":
			if x, i := addrSlice(ev.Args[0]); x != nil && appendBase(x) == t {
				if b := sliceBase(x); b.op == "append" && b.args[0] == t && i == e.lenOf(t) {
					continue
				}
				return "entries may be overwritten at " + e.where(ev)
			}
		case "copy":
			if appendBase(ev.Args[0]) == t {
				return "entries may be overwritten at " + e.where(ev)
			}
		}
	}
	return ""
}

// overMap: t has one entry per key of a map, built from the map directly or
// from a list of its keys.
func (r *Report) overMap(e *Engine, s *State, evs []*Event, t *Term, ET types.Type, m *storeModel) (*MapList, string) {
	if t == nil {
		return nil, "no list"
	}
	sq, why := e.seq(t)
	if sq != nil && sq.Map != nil {
		ml := &MapList{Map: sq.Map}
		for _, x := range sq.Items {
			x := x
			v := x.Elem
			if !sq.Made {
				v = e.load(x.S, e.indexAddr(x.S, x.It.Next[t], e.lenOf(t), ET), ET)
			}
			k := mapKeyOf(sq.Map, v)
			if k == nil {
				return nil, "an entry does not carry the key visited: " + clip(v.String(), 160)
			}
			ml.Items = append(ml.Items, &MapItem{&ListItem{It: x.It, S: x.S, val: v, field: func(i int) *Term { return e.fldOf(v, ET, i) }}, k})
		}
		if ok, why := e.exhausted(s, evs, sq.Loop, nil, nil); !ok {
			return nil, why
		}
		if why := e.touched2(t); why != "" && !sq.Made {
			return nil, why
		}
		return ml, ""
	}
	// a list over a list of keys: find it among the lengths the loop counts to
	for _, src := range e.loopSources(t) {
		mp, why1 := r.keysOf(e, s, evs, src, m)
		if mp == nil {
			why = why1
			continue
		}
		li, why2 := e.list(s, evs, t, ET, src)
		if li == nil {
			why = why2
			continue
		}
		mt, _ := mapType(mp)
		if mt == nil {
			continue
		}
		ml := &MapList{Map: mp}
		for _, it := range li.Items {
			ml.Items = append(ml.Items, &MapItem{it, e.elemAt(it.S, src, li.Cur, mt.Key())})
		}
		return ml, ""
	}
	if why == "" {
		why = "not built from a map or a list of its keys"
	}
	return nil, why
}

// loopSources: the lists whose lengths bound the loop that builds t.
func (e *Engine) loopSources(t *Term) []*Term {
	var loops []*LoopInfo
	if l := e.loopOf(t); l != nil {
		loops = append(loops, l)
	} else if t.op == "makeslice" {
		for _, l := range e.loops {
			for _, it := range l.Iters {
				for _, ev := range it.Evs {
					if ev.Kind == "store" {
						if x, _ := addrSlice(ev.Args[0]); x == t {
							loops = append(loops, l)
						}
					}
				}
			}
		}
	}
	seen := map[*Term]bool{}
	var out []*Term
	for _, l := range loops {
		_, cur, ok := e.counter(l)
		if !ok {
			continue
		}
		for _, it := range l.Iters {
			for _, f := range it.State.lins {
				for a, k := range toLin(f).coef {
					if k > 0 && a.op == "len" && !seen[a.args[0]] && e.entails(it.State, e.p.Sub(e.p.Sub(a, e.p.Int(1)), cur)) {
						seen[a.args[0]] = true
						out = append(out, a.args[0])
					}
				}
			}
		}
	}
	return out
}

// literal: the entries of a list of constant length.
func (e *Engine) literal(s *State, t *Term, ET types.Type) ([]*Term, bool) {
	n := e.lenOf(t)
	if !n.isInt() || n.intVal() > 100 {
		return nil, false
	}
	var out []*Term
	for i := int64(0); i < n.intVal(); i++ {
		out = append(out, e.load(s, e.indexAddr(s, t, e.p.Int(i), ET), ET))
	}
	return out, true
}

// ---- C19 -------------------------------------------------------------------------

func checkC19(r *Report) {
	pr := r.pr
	r.rule("brokers", "every broker in a metadata response is this mock: one constant node id, which is also the controller's and the coordinator's, and the port of the client's mock")
	r.rule("partitions", "the entry of a topic that was found has one partition entry per key of that topic's own partition map, read in one critical section, with that number, led by and replicated on that node id")
	r.rule("port", "the port the answers name is the one given to the mock, and is the port the mock listens on")
	as := r.apiSetup()
	m := r.storeModel()
	if as == nil {
		return
	}
	node := int64(-1)
	isPort := func(t *Term) bool {
		t = unconv(t)
		return t.op == "fld" && auxStruct(t.aux) == "kafkaClient" && isInteger(t.typ) && t.args[0].op == "deref" && t.args[0].args[0].op == "param"
	}
	ports := map[string]bool{}
	notePort := func(w string, t *Term, what string) {
		if r.check(isPort(t), "brokers", w, what+" has the port of this client's mock", t.String()) {
			ports[unconv(t).aux] = true
		}
	}
	{
		sl := apiSlot{3, 1}
		sp := itemSpecs[sl]
		e, fn := r.handlerRun(as, sl, nil)
		if e == nil {
			return
		}
		w := shortFn(fn)
		nex := 0
		for _, pe := range e.ends {
			if pe.Kind != "return" || pe.Label != "" || len(pe.Res) != 3 || !pe.Res[2].isNil() {
				continue
			}
			v, T := e.respStruct(pe.S, pe.Res[0])
			if v == nil {
				r.fail("brokers", w, "undecided: response", str(pe.Res[0]))
				continue
			}
			st := T.Underlying().(*types.Struct)
			bt := elemT(st.Field(0).Type())
			bs, ok := e.literal(pe.S, e.fldOf(v, T, 0), bt)
			if !r.check(ok && len(bs) > 0, "brokers", w, "the broker list is not empty and of known length", e.fldOf(v, T, 0).String()) {
				continue
			}
			for _, b := range bs {
				id := e.fldOf(b, bt, 0)
				if !r.check(id.isInt(), "brokers", w, "a broker's node id is constant", id.String()) {
					continue
				}
				if node < 0 {
					node = id.intVal()
				}
				r.check(id.intVal() == node, "brokers", w, "all brokers have one node id", id.String())
				r.host(w, e.fldOf(b, bt, 1), "a broker")
				notePort(w, e.fldOf(b, bt, 2), "a broker")
			}
			c := e.fldOf(v, T, 1)
			r.check(c.isInt() && c.intVal() == node, "brokers", w, "the controller is that broker", c.String())
		}
		r.check(node >= 0, "brokers", w, "the node id is known")
		r.answers(e, fn, sp, "partitions", func(a *Answer) {
			x := r.exists(a, m)
			if !x.present {
				r.check(x.absent, "partitions", w, "an entry is about a topic known to be there or not", x.why)
				return
			}
			nex++
			ost := structOf(a.List.ET)
			pT := elemT(ost.Field(3).Type())
			ml, why := r.overMap(e, a.S, a.S.ev, a.Out(3), pT, m)
			if !r.check(ml != nil, "partitions", w, "the partitions listed are those of a partition map, each once", why) {
				return
			}
			aux, base := valueOwner(ml.Map)
			mine := false
			for _, t := range x.topics {
				mine = mine || t == base
			}
			r.check(aux == m.partitions && mine, "partitions", w, "the partition map is that of the topic asked about", ml.Map.String())
			pst := structOf(pT)
			for _, it := range ml.Items {
				r.check(r.isIndex(e, m, it.field(1), it.Key), "partitions", w, "a partition entry carries the number of its partition", it.field(1).String())
				r.check(it.field(0) == e.p.Int(0), "partitions", w, "a partition entry has no error", it.field(0).String())
				ld := it.field(2)
				r.check(ld.isInt() && ld.intVal() == node, "partitions", w, "a partition is led by the broker listed", ld.String())
				for f := 3; f <= 4; f++ {
					ns, ok := e.literal(it.S, it.field(f), elemT(pst.Field(f).Type()))
					if !r.check(ok, "partitions", w, "the "+pst.Field(f).Name()+" are of known number", it.field(f).String()) {
						continue
					}
					r.check(f != 3 || len(ns) > 0, "partitions", w, "a partition has a replica")
					for _, n := range ns {
						r.check(n.isInt() && n.intVal() == node, "partitions", w, "the "+pst.Field(f).Name()+" are on the broker listed", n.String())
					}
				}
			}
		}, nil)
		r.check(nex > 0, "partitions", w, "a topic that exists is answered")
	}
	{
		e, fn := r.handlerRun(as, apiSlot{10, 0}, nil)
		if e == nil {
			return
		}
		w := shortFn(fn)
		n := 0
		for _, pe := range e.ends {
			if pe.Kind != "return" || pe.Label != "" || len(pe.Res) != 3 || !pe.Res[2].isNil() {
				continue
			}
			v, T := e.respStruct(pe.S, pe.Res[0])
			if v == nil {
				r.fail("brokers", w, "undecided: response", str(pe.Res[0]))
				continue
			}
			n++
			r.check(e.fldOf(v, T, 0) == e.p.Int(0), "brokers", w, "the coordinator is found without error", e.fldOf(v, T, 0).String())
			id := e.fldOf(v, T, 1)
			r.check(id.isInt() && id.intVal() == node, "brokers", w, "the coordinator is the broker that metadata lists", id.String())
			r.host(w, e.fldOf(v, T, 2), "the coordinator")
			notePort(w, e.fldOf(v, T, 3), "the coordinator")
		}
		r.check(n > 0, "brokers", w, "a coordinator is answered")
	}
	r.check(len(ports) == 1, "port", "kafkaClient", "one field holds the port", fmt.Sprint(ports))
	// where that field comes from, and what is listened on
	mockPort := ""
	listens := 0
	for _, f := range pr.exportedAPI() {
		var e *Engine
		isMockPort := func(t *Term) bool {
			t = unconv(t)
			if t.op == "fld" && auxStruct(t.aux) == "KafkaMock" && isInteger(t.typ) && t.args[0].op == "deref" {
				if mockPort == "" {
					mockPort = t.aux
				}
				return t.aux == mockPort
			}
			return false
		}
		e = newEngine(pr, &RootCfg{Name: shortFn(f), Fn: f, Spawn: true, Hook: func(s *State, ev *Event) {
			w := e.where(ev)
			switch ev.Kind {
			case "go":
				// what the goroutine works with has its port by now
				seen := map[*Term]bool{}
				for c := range s.mem {
					b := c
					for b.op == "field" {
						b = b.args[0]
					}
					if b.op != "new" || seen[b] || pointee(b.typ) == nil {
						continue
					}
					seen[b] = true
					T := pointee(b.typ)
					st, ok := T.Underlying().(*types.Struct)
					if !ok {
						continue
					}
					for i := 0; i < st.NumFields(); i++ {
						if a := e.fieldAddr(b, T, i); ports[a.aux] && auxStruct(a.aux) != "KafkaMock" {
							v := unconv(e.load(s.clone(), a, st.Field(i).Type()))
							r.check(!v.isInt() && v.op != "zero", "port", w, "a client has its port when its goroutine is started", v.String())
						}
					}
				}
			case "store":
				a := ev.Args[0]
				if a.op == "field" && ports[a.aux] {
					b := a.args[0]
					r.check(b.op == "new" && !s.shared[b], "port", w, "a client's port is set only while it is built")
					r.check(isMockPort(ev.Args[1]), "port", w, "a client's port is that of its mock", ev.Args[1].String())
				}
				if a.op == "field" && auxStruct(a.aux) == "KafkaMock" && (a.aux == mockPort || mockPort == "" && isInteger(ev.Args[1].typ) && strings.Contains(strings.ToLower(a.aux), "port")) {
					b := a.args[0]
					r.check(b.op == "new" && !s.shared[b] && ev.Args[1].op == "param", "port", w, "a mock's port is the one given when it is made", ev.Args[1].String())
				}
			case "call":
				if ev.Name == "net.Listen" && len(ev.Args) == 2 {
					listens++
					txt, hole := e.portText(ev.Args[1], isMockPort)
					r.check(hole && strings.HasSuffix(txt, ":<p>"), "port", w, "the address listened on ends in the mock's port", ev.Args[1].String())
				} else if strings.HasPrefix(ev.Name, "net.Listen") || strings.Contains(ev.Name, "ListenConfig") {
					r.fail("port", w, "undecided: "+ev.Name)
				}
			}
		}})
		e.Run()
		r.account(e)
	}
	r.check(listens > 0, "port", "package", "the mock listens")
	r.need("partitions", 6)
	r.need("brokers", 8)
	r.need("port", 4)
}

func (r *Report) host(w string, t *Term, what string) {
	if !(t.op == "str" && (t.aux == "localhost" || t.aux == "127.0.0.1")) {
		r.fail("brokers", w, what+" is on this host", t.String())
	} else {
		r.pass("brokers", w, what+" is on this host")
	}
}

// portText: an address as text, with the port as <p>.
func (e *Engine) portText(t *Term, isPort func(*Term) bool) (string, bool) {
	txt, ok := e.keyText(t, isPort, func(*Term) bool { return false })
	return strings.ReplaceAll(txt, "<k>", "<p>"), ok
}

// ---- C20 -------------------------------------------------------------------------

func checkC20(r *Report) {
	r.rule("assigned", "the assignment encoded for a member has one entry per key of this mock's topic map, under that name, and each entry one number per key of that topic's own partition map, each map read in one critical section")
	r.rule("given", "the response carries exactly that encoding, and no error")
	as := r.apiSetup()
	m := r.storeModel()
	if as == nil {
		return
	}
	type enc struct {
		s   *State
		evs []*Event
	}
	encs := map[*Event]*State{}
	e, fn := r.handlerRun(as, apiSlot{14, 0}, func(e *Engine, s *State, ev *Event) {
		if ev.Kind == "encode" {
			encs[ev] = s.clone()
		}
	})
	if e == nil {
		return
	}
	w := shortFn(fn)
	n := 0
	for _, pe := range e.ends {
		if pe.Kind != "return" || pe.Label != "" || len(pe.Res) != 3 || !pe.Res[2].isNil() {
			continue
		}
		v, T := e.respStruct(pe.S, pe.Res[0])
		if v == nil {
			r.fail("given", w, "undecided: response", str(pe.Res[0]))
			continue
		}
		n++
		r.check(e.fldOf(v, T, 0) == e.p.Int(0), "given", w, "no error is given", e.fldOf(v, T, 0).String())
		b := e.fldOf(v, T, 1)
		ps := e.parts(pe.S, b)
		if !r.check(len(ps) == 1 && ps[0].op == "enc", "given", w, "the bytes given are the encoding of one assignment", b.String()) {
			continue
		}
		val := ps[0].args[0]
		var s *State
		for ev, st := range encs {
			if len(ev.Args) > 1 && ev.Args[1] == val {
				for _, x := range pe.Evs {
					if x == ev {
						s = st
					}
				}
			}
		}
		if s == nil {
			r.fail("given", w, "undecided: the encoding of the assignment is not on the path")
			continue
		}
		AT, _ := val.obj.(types.Type)
		if pt := pointee(AT); pt != nil {
			AT = pt
		}
		if val.op != "iface" || AT == nil || structOf(AT) == nil {
			r.fail("assigned", w, "undecided: what is encoded", val.String())
			continue
		}
		sh := shapeOf(AT, 0)
		if !r.check(sh == assignmentSpec, "assigned", w, "the assignment has the layout the protocol defines", sh) {
			continue
		}
		x := val.args[0]
		lt := e.fldOf(x, AT, 1)
		ET := elemT(structOf(AT).Field(1).Type())
		ml, why := r.overMap(e, s, s.ev, lt, ET, m)
		if !r.check(ml != nil, "assigned", w, "one entry per topic of a topic map", why) {
			continue
		}
		aux, base := valueOwner(ml.Map)
		r.check(aux == m.topics && r.mockStore(e, m, base), "assigned", w, "the topics are those of this mock's store", ml.Map.String())
		for _, it := range ml.Items {
			r.check(it.field(0) == it.Key, "assigned", w, "an entry carries its topic's name", it.field(0).String())
			pm, why := r.keysOf(e, it.S, it.S.ev, it.field(1), m)
			if !r.check(pm != nil, "assigned", w, "an entry lists every partition of a partition map", why) {
				continue
			}
			aux, tp := valueOwner(pm)
			ok := aux == m.partitions && tp != nil && tp.op == "mapval" && tp.args[1] == it.Key
			if ok {
				a2, b2 := valueOwner(tp.args[0])
				ok = a2 == m.topics && r.mockStore(e, m, b2)
			}
			r.check(ok, "assigned", w, "the partitions are those of the entry's topic", pm.String())
		}
	}
	r.check(n > 0, "given", w, "an assignment is answered")
	r.need("assigned", 5)
}
