package main

// C03: posted records are kept, unchanged, at their offsets.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// recordsField: the field of a partition that lists its records.
func (pr *Program) fieldOfType(tn string, want func(types.Type) bool) string {
	T := pr.typ(tn)
	if T == nil {
		return ""
	}
	st, ok := T.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if want(st.Field(i).Type()) {
			return fieldAux(T, i)
		}
	}
	return ""
}

func typeIs(s string) func(types.Type) bool {
	return func(t types.Type) bool { return typeKey(t.Underlying()) == s || typeKey(t) == s }
}

type storeModel struct {
	topics, partitions, records, commits, mockDS string
}

func (r *Report) storeModel() *storeModel {
	pr := r.pr
	m := &storeModel{
		topics:     pr.fieldOfType("kafkaDataStore", typeIs("map[string]*kafkamock.kafkaTopic")),
		partitions: pr.fieldOfType("kafkaTopic", typeIs("map[int32]*kafkamock.kafkaPartition")),
		records:    pr.fieldOfType("kafkaPartition", typeIs("[]*kafkamock.kafkaRecord")),
		commits:    pr.fieldOfType("kafkaPartition", typeIs("map[string]int64")),
		mockDS:     pr.fieldOfType("KafkaMock", typeIs("*kafkamock.kafkaDataStore")),
	}
	for n, f := range map[string]string{"topics": m.topics, "partitions": m.partitions, "records": m.records, "committed offsets": m.commits, "the mock's store": m.mockDS} {
		if f == "" {
			r.fail("anchor", n, "anchor lost: no field of the expected type")
		}
	}
	return m
}

// path: the topic and partition a partition (or topic) pointer stands for.
// It gives the keys used to reach it from a data store, outermost first.
func (e *Engine) storePath(m *storeModel, evs []*Event, p *Term) (root *Term, keys []*Term, ok bool) {
	var find func(p *Term, field string) (owner, key *Term, ok bool)
	find = func(p *Term, field string) (*Term, *Term, bool) {
		if p.op == "mapval" {
			aux, base := valueOwner(p.args[0])
			if aux == field && base != nil {
				return base, p.args[1], true
			}
			return nil, nil, false
		}
		if p.op == "new" {
			for _, ev := range evs {
				if ev.Kind == "mapset" && len(ev.Args) == 3 && ev.Args[2] == p {
					aux, base := valueOwner(ev.Args[0])
					if aux == field && base != nil {
						return base, ev.Args[1], true
					}
					// the map of an object still being built
					if ev.Args[0].op == "makemap" {
						for _, ev2 := range evs {
							if ev2.Kind == "store" && ev2.Args[0].op == "field" && ev2.Args[0].aux == field && ev2.Args[1] == ev.Args[0] {
								return ev2.Args[0].args[0], ev.Args[1], true
							}
						}
					}
				}
			}
		}
		return nil, nil, false
	}
	if pt := pointee(p.typ); pt != nil && strings.HasSuffix(typeKey(pt), "kafkaTopic") {
		o, k, ok := find(p, m.topics)
		if !ok {
			return nil, nil, false
		}
		return o, []*Term{k}, true
	}
	t, k, ok := find(p, m.partitions)
	if !ok {
		return nil, nil, false
	}
	o, k2, ok := find(t, m.topics)
	if !ok {
		return nil, nil, false
	}
	return o, []*Term{k2, k}, true
}

func param(fn *ssa.Function, name string) int {
	for i, p := range fn.Params {
		if p.Name() == name {
			return i
		}
	}
	return -1
}

// allStores visits the events of a path, those of its loops included.
func (e *Engine) eachIterEvent(f func(l *LoopInfo, it *Iter, ev *Event)) {
	for _, l := range e.loops {
		for _, it := range l.Iters {
			for _, ev := range it.Evs {
				f(l, it, ev)
			}
		}
	}
}

func (pr *Program) postRoots() map[string]*ssa.Function {
	return map[string]*ssa.Function{"SimplePost": pr.method("KafkaMock", "SimplePost"), "ExtendedPost": pr.method("KafkaMock", "ExtendedPost")}
}

func checkC03(r *Report) {
	pr := r.pr
	m := r.storeModel()
	r.rule("append-one", "every path of a post stores exactly once to a partition's records, the list as it is now with one new record appended")
	r.rule("target", "the partition stored to is the one reached from this mock's store by the posted topic and partition number")
	r.rule("content", "the new record carries the posted key, value, headers and time, copied")
	r.rule("only-post", "no other operation stores to a partition's records, their elements, or a record's fields and bytes")
	r.rule("keep", "a topic or partition is entered only under a key found absent in the same critical section; none is removed and the maps are never replaced")
	posts := pr.postRoots()
	recT := pr.typ("kafkaRecord")
	if recT == nil {
		r.fail("content", "kafkaRecord", "anchor lost")
		return
	}
	isPost := func(e *Engine) bool {
		for _, f := range posts {
			if f != nil && f == e.cfg.Fn {
				return true
			}
		}
		return false
	}
	type postStore struct {
		e   *Engine
		ev  *Event
		rec *Term
		val map[string]*Term
		s   *State
	}
	var stores []postStore
	storeEvs := map[*Event]bool{}
	engines := r.allRoots(func(e *Engine, s *State, ev *Event) {
		w := e.where(ev)
		switch ev.Kind {
		case "store":
			a := ev.Args[0]
			if a.op == "field" && a.aux == m.records {
				base, v := a.args[0], ev.Args[1]
				if base.op == "new" && !s.shared[base] {
					n := e.lenOf(v)
					r.check(n.isInt() && n.intVal() == 0, "append-one", w, "a new partition has no records", v.String())
					return
				}
				aux, own := valueOwner(v)
				cur := e.load(s, a, v.typ)
				if v == cur {
					return
				}
				if !isPost(e) {
					r.fail("only-post", w, "stores to the records of a partition outside a post ("+shortFn(e.cfg.Fn)+")", v.String())
					return
				}
				ok := v.op == "append" && len(v.args) == 2 && v.args[0] == cur && aux == m.records && own == base
				if !r.check(ok, "append-one", w, "stores the present list with one record appended", "stored: "+v.String(), "present: "+cur.String()) {
					return
				}
				rec := v.args[1]
				fresh := rec.op == "new" && !s.shared[rec]
				if !r.check(fresh, "append-one", w, "the record appended is a new one", rec.String()) {
					return
				}
				storeEvs[ev] = true
				stores = append(stores, postStore{e: e, ev: ev, rec: rec, s: s.clone()})
			}
			if a.op == "field" && (a.aux == m.topics || a.aux == m.partitions || a.aux == m.mockDS) {
				b := a.args[0]
				r.check(b.op == "new" && !s.shared[b], "keep", w, "store to "+a.aux+" only while the object is built", b.String())
			}
			if a.op == "field" && pr.recordField(a.aux) {
				b := baseOf(a)
				r.check((b.op == "new" || b.op == "makeslice") && !s.shared[b], "only-post", w, "store to "+a.aux+" only before the record is kept", b.String())
			}
			if a.op == "index" {
				if aux, _ := valueOwner(a.args[0]); aux == m.records || pr.recordField(aux) {
					r.fail("only-post", w, "overwrites an element of "+aux)
				}
			}
		case "bytestore", "copy", "permute":
			if aux, _ := valueOwner(ev.Args[0]); aux == m.records || pr.recordField(aux) {
				r.fail("only-post", w, ev.Kind+" into "+aux)
			}
		case "append":
			aux, own := valueOwner(ev.Args[0])
			if aux == m.records && ev.Args[1] != ev.Args[0] {
				// only the whole present list may be extended
				ok := ev.Args[0].op == "fld"
				if own != nil && ok {
					ok = isPost(e)
				}
				r.check(ok, "only-post", w, "append to a partition's record list", ev.Args[0].String())
			} else if pr.recordField(aux) && ev.Args[0].op != "fld" {
				r.fail("only-post", w, "append into part of "+aux)
			}
		case "mapset":
			aux, base := valueOwner(ev.Args[0])
			if aux != m.topics && aux != m.partitions {
				return
			}
			if base != nil && base.op == "new" && !s.shared[base] {
				return
			}
			_, okT := e.mapget(s, ev.Args[0], ev.Args[1], ev.Args[2].typ)
			kn, val := e.eval(s, okT)
			r.check(kn && !val, "keep", w, "entry of "+aux+" set only where its key is absent", "key: "+ev.Args[1].String(), "holding: "+lockNames(s))
			v := ev.Args[2]
			r.check(v.op == "new" && !s.shared[v], "keep", w, "entry of "+aux+" is a new object", v.String())
		case "mapdel", "mapclear":
			if aux, _ := valueOwner(ev.Args[0]); aux == m.topics || aux == m.partitions {
				r.fail("keep", w, "removes from "+aux)
			}
		}
	})
	for _, e := range engines {
		if !isPost(e) {
			continue
		}
		fn := e.cfg.Fn
		w := shortFn(fn)
		args := map[string]*Term{}
		for i, t := range e.paramTerms(fn, "") {
			args[fn.Params[i].Name()] = t
		}
		e.eachIterEvent(func(l *LoopInfo, it *Iter, ev *Event) {
			if storeEvs[ev] {
				r.fail("append-one", e.where(ev), "stores to the records inside a loop")
			}
		})
		for _, pe := range e.ends {
			if pe.Label != "" {
				r.fail("append-one", w, "undecided: a post continues in another goroutine")
				continue
			}
			if pe.Kind != "return" {
				r.fail("append-one", w, "a post may end without keeping the record ("+pe.Kind+")")
				continue
			}
			n := 0
			for _, ev := range pe.Evs {
				if ev.Kind == "go" {
					r.fail("append-one", w, "undecided: a post starts a goroutine")
				}
				if !storeEvs[ev] {
					continue
				}
				n++
				root, keys, ok := e.storePath(m, pe.Evs, ev.Args[0].args[0])
				good := ok && len(keys) == 2 && len(fn.Params) >= 3 && keys[0] == args[fn.Params[1].Name()] && isParamConv(keys[1], args[fn.Params[2].Name()])
				if good {
					aux, _ := valueOwner(root)
					good = aux == m.mockDS
				}
				r.check(good, "target", e.where(ev), "the record goes to the posted topic and partition", "partition: "+ev.Args[0].args[0].String())
			}
			r.check(n == 1, "append-one", w, fmt.Sprintf("a path stores %d records", n), pathOf(e, pe.Evs)...)
		}
	}
	// content, at the moment of storing
	for _, ps := range stores {
		e, s, fn := ps.e, ps.s, ps.e.cfg.Fn
		w := e.where(ps.ev) + " from " + fn.Name()
		pt := e.paramTerms(fn, "")
		byName := map[string]*Term{}
		for i, t := range pt {
			byName[fn.Params[i].Name()] = t
		}
		get := func(f string) *Term {
			i := fieldIndex(recT, f)
			if i < 0 {
				return e.p.mk("nofield", f, nil, nil)
			}
			return e.load(s, e.fieldAddr(ps.rec, recT, i), recT.Underlying().(*types.Struct).Field(i).Type())
		}
		var bytesP []*Term
		var hdrs, ts *Term
		for i, p := range fn.Params {
			switch {
			case isByteSlice(p.Type()):
				bytesP = append(bytesP, pt[i])
			case typeKey(p.Type()) == "time.Time":
				ts = pt[i]
			case isMapT(p.Type()):
				hdrs = pt[i]
			}
		}
		if len(bytesP) != 2 {
			r.fail("content", w, "anchor lost: key and value parameters not found")
			continue
		}
		key, val := get("Key"), get("Value")
		r.check(e.copyOf(s, key, bytesP[0]), "content", w, "the key is a copy of the posted key", key.String())
		r.check(e.copyOf(s, val, bytesP[1]), "content", w, "the value is a copy of the posted value", val.String())
		t := get("Timestamp")
		okT := t.op == "call" && t.aux == "(time.Time).UnixMilli"
		if okT {
			x := t.args[0]
			if ts != nil {
				kn, zero := e.eval(s, e.p.mk("call", "(time.Time).IsZero", types.Typ[types.Bool], nil, ts))
				okT = x == ts || kn && zero && x.op == "now"
			} else {
				okT = x.op == "now"
			}
		}
		r.check(okT, "content", w, "the time is the posted one, or now", t.String())
		h := get("Headers")
		if hdrs == nil {
			n := e.lenOf(h)
			ok := n.isInt() && n.intVal() == 0
			if !ok && h.op == "loop" {
				if sq, _ := e.seq(h); sq != nil && sq.Map != nil && (sq.Map.isNil() || sq.Map.op == "zero") {
					ok = true
				}
				if l := e.loopOf(h); l != nil && len(l.Iters) == 0 {
					ok = true
				}
			}
			r.check(ok, "content", w, "no headers when none are posted", h.String())
			continue
		}
		if kn, v := e.eval(s, e.p.Eq(hdrs, e.p.Nil())); kn && v {
			continue
		}
		n := e.lenOf(h)
		if n.isInt() && n.intVal() == 0 && e.entails(s, e.p.Scale(e.p.mk("len", "", types.Typ[types.Int], nil, hdrs), -1)) {
			continue
		}
		sq, why := e.seq(h)
		if sq == nil || sq.Map != hdrs {
			r.fail("content", w, "the headers are one for each posted header: "+why, h.String())
			continue
		}
		for _, it := range sq.Items {
			hk := e.structField(it.Elem, elemT(h.typ), "HeaderKey")
			hv := e.structField(it.Elem, elemT(h.typ), "HeaderValue")
			ok := hk != nil && hv != nil && hk.op == "mapkey" && hk.args[0] == hdrs
			if ok {
				mv, _ := e.mapget(it.S, hdrs, hk, hv.typ)
				ok = e.copyOf(it.S, hv, mv)
			}
			r.check(ok, "content", w, "each header is kept with a copy of its value", it.Elem.String())
		}
		ex, why := e.exhausted(s, s.ev, sq.Loop, nil, nil)
		r.check(ex, "content", w, "every posted header is kept", why)
	}
	for n, f := range posts {
		if f == nil {
			r.fail("append-one", n, "anchor lost: no such method")
		}
	}
	r.need("append-one", 4)
	r.need("content", 6)
	r.need("keep", 4)
	r.need("target", 2)
}

func isMapT(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok }

func elemT(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Int]
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return t
}

// isParamConv: is k the parameter p converted to int32?
func isParamConv(k, p *Term) bool {
	if k == nil || p == nil {
		return false
	}
	if k == p {
		return true
	}
	return k.op == "conv" && k.args[0] == p && k.typ != nil && typeKey(k.typ.Underlying()) == "int32"
}

func pathOf(e *Engine, evs []*Event) []string {
	var out []string
	for _, ev := range evs {
		out = append(out, e.where(ev)+" "+clip(ev.String(), 200))
	}
	return out
}
