package main

// C01 (every access to shared data under its lock) and C02 (no operation can
// hang another through a lock).

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func namedOf(t types.Type) *types.Named {
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

func identicalSig(sig *types.Signature, T types.Type) bool {
	u, ok := T.Underlying().(*types.Signature)
	if !ok {
		return false
	}
	return types.Identical(types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic()), types.NewSignatureType(nil, nil, nil, u.Params(), u.Results(), u.Variadic()))
}

// storeTypes: the structs that make up the data store, and what they hold.
var storeTypes = []string{"kafkaDataStore", "kafkaTopic", "kafkaPartition"}
var recordTypes = []string{"kafkaRecord", "kafkaRecordHeader"}

// lockOwner gives the mutex field and the object it belongs to.
func lockOwner(a *Term) (aux string, base *Term) {
	switch a.op {
	case "field":
		return a.aux, a.args[0]
	case "fld":
		if b := a.args[0]; b.op == "deref" {
			return a.aux, b.args[0]
		}
		return a.aux, nil
	}
	return "", nil
}

// valueOwner: the field a loaded map or slice value came from, and its object.
func valueOwner(v *Term) (aux string, base *Term) {
	if v == nil {
		return "", nil
	}
	for v.op == "slice" || v.op == "append" {
		v = v.args[0]
	}
	if v.op == "fld" {
		if b := v.args[0]; b.op == "deref" || b.op == "elem" {
			return v.aux, b.args[0]
		}
		return v.aux, nil
	}
	return "", nil
}

func (pr *Program) storeField(aux string) bool {
	st := auxStruct(aux)
	for _, n := range storeTypes {
		if n == st {
			return true
		}
	}
	return false
}

func (pr *Program) recordField(aux string) bool {
	st := auxStruct(aux)
	for _, n := range recordTypes {
		if n == st {
			return true
		}
	}
	return false
}

// clientsField: the field of the mock that holds its clients.
func (pr *Program) clientsField() string {
	T := pr.typ("KafkaMock")
	if T == nil {
		return ""
	}
	st, ok := T.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		switch x := st.Field(i).Type().Underlying().(type) {
		case *types.Map:
			if typeKey(x.Elem()) == "*kafkamock.kafkaClient" {
				return fieldAux(T, i)
			}
		case *types.Slice:
			if typeKey(x.Elem()) == "*kafkamock.kafkaClient" {
				return fieldAux(T, i)
			}
		}
	}
	return ""
}

func holds(s *State, mu string, base *Term, write bool) bool {
	for _, l := range s.locks {
		aux, b := lockOwner(l.addr)
		if aux == mu && b == base && (!write || l.mode == 'W') {
			return true
		}
	}
	return false
}

func lockNames(s *State) string {
	var out []string
	for _, l := range s.locks {
		out = append(out, string(l.mode)+l.addr.String())
	}
	if len(out) == 0 {
		return "no lock"
	}
	return strings.Join(out, ", ")
}

func checkC01(r *Report) {
	pr := r.pr
	r.rule("guarded", "every access to a field of the data store that is written after construction, and to the client list, is made with the mutex of the same object held (exclusively for writes), unless the object is not yet visible to anyone else")
	r.rule("published", "records are not written once they are stored")
	shared := func(aux string) bool { return pr.storeField(aux) || aux == pr.clientsField() }
	if pr.clientsField() == "" {
		r.fail("guarded", "KafkaMock", "anchor lost: client list not found")
	}
	guardedMaps := map[string]bool{}
	nf := 0
	for _, tn := range append(append([]string{}, storeTypes...), "KafkaMock") {
		T := pr.typ(tn)
		if T == nil {
			r.fail("guarded", tn, "anchor lost: type not found")
			continue
		}
		st, _ := T.Underlying().(*types.Struct)
		if st == nil {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			aux := fieldAux(T, i)
			if !shared(aux) || !pr.mutF[aux] {
				continue
			}
			nf++
			r.check(pr.guardOf[aux] != "", "guarded", aux, "shared field that is changed has a mutex in its struct")
			if _, ok := st.Field(i).Type().Underlying().(*types.Map); ok {
				guardedMaps[typeKey(st.Field(i).Type().Underlying())] = true
			}
		}
	}
	r.counts["shared fields"] = nf
	if nf < 4 {
		r.fail("guarded", "package", fmt.Sprintf("anchor lost: only %d changing shared fields found", nf))
	}
	var eng *Engine
	require := func(s *State, ev *Event, aux string, base *Term, write bool, what string) {
		mu := pr.guardOf[aux]
		if mu == "" {
			if pr.mutF[aux] {
				r.fail("guarded", eng.where(ev), what+" of "+aux+" which no mutex owns")
			}
			return
		}
		if base != nil && base.op == "new" && !s.shared[base] {
			return
		}
		ok := base != nil && holds(s, mu, base, write)
		m := "read"
		if write {
			m = "write"
		}
		r.check(ok, "guarded", eng.where(ev), fmt.Sprintf("%s (%s) of %s with %s held", what, m, aux, mu), "object: "+str(base), "holding: "+lockNames(s), "call path: "+eng.stackOf(ev))
	}
	r.allRoots(func(e *Engine, s *State, ev *Event) {
		eng = e
		switch ev.Kind {
		case "load", "store":
			a := ev.Args[0]
			w := ev.Kind == "store"
			switch a.op {
			case "field":
				if shared(a.aux) {
					require(s, ev, a.aux, a.args[0], w, ev.Kind)
				} else if w && pr.recordField(a.aux) {
					b := baseOf(a)
					r.check((b.op == "new" || b.op == "makeslice") && !s.shared[b], "published", e.where(ev), "write of "+a.aux+" only before the record is stored", "object: "+b.String())
				}
			case "index":
				if aux, base := valueOwner(a.args[0]); aux != "" && shared(aux) {
					require(s, ev, aux, base, w, "element "+ev.Kind)
				}
			}
		case "loadstruct":
			T := pointee(ev.Args[0].typ)
			if st, ok := T.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if aux := fieldAux(T, i); shared(aux) && pr.mutF[aux] {
						require(s, ev, aux, ev.Args[0], false, "copy")
					}
				}
			}
		case "append":
			if aux, base := valueOwner(ev.Args[0]); aux != "" && shared(aux) && len(ev.Args) > 1 && ev.Args[1] != ev.Args[0] {
				require(s, ev, aux, base, true, "append")
			}
		case "copy":
			if aux, base := valueOwner(ev.Args[0]); aux != "" && shared(aux) {
				require(s, ev, aux, base, true, "copy")
			}
		case "permute":
			if aux, base := valueOwner(ev.Args[0]); aux != "" && shared(aux) {
				require(s, ev, aux, base, true, "sort")
			}
		case "mapget", "mapset", "mapdel", "mapclear", "maplen", "maprange", "mapnext":
			m := ev.Args[0]
			w := ev.Kind == "mapset" || ev.Kind == "mapdel" || ev.Kind == "mapclear"
			if aux, base := valueOwner(m); aux != "" {
				if shared(aux) {
					require(s, ev, aux, base, w, ev.Kind)
				}
				return
			}
			if m.op == "makemap" && !s.shared[m] || m.isNil() || m.op == "zero" {
				return
			}
			if m.typ != nil && guardedMaps[typeKey(m.typ.Underlying())] {
				r.fail("guarded", e.where(ev), "undecided: "+ev.Kind+" of a map of unknown origin", m.String())
			}
		}
	})
	r.need("guarded", 10)
}

func str(t *Term) string {
	if t == nil {
		return "?"
	}
	return t.String()
}

// ---- C02 -----------------------------------------------------------------------

func blockingCall(n string) bool {
	switch n {
	case "time.Sleep", "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "net.Dial", "net.DialTimeout", "io.Copy", "io.ReadFull", "io.ReadAll", "write", "syscall.Recvfrom", "syscall.Read", "syscall.Write", "syscall.Select", "net.Listen":
		return n != "net.Listen"
	}
	if strings.HasPrefix(n, "(net.") || strings.HasPrefix(n, "(*net.") || strings.HasPrefix(n, "(io.") || strings.HasPrefix(n, "(*bufio.Reader).Read") {
		for _, x := range []string{".Read", ".Write", ".Accept", ".ReadFrom", ".WriteTo", ".AcceptTCP"} {
			if strings.HasSuffix(n, x) {
				return true
			}
		}
	}
	return false
}

func checkC02(r *Report) {
	r.rule("balance", "on every path to a return or an unwinding panic every lock acquired has been released, once")
	r.rule("reentry", "no lock is acquired that is already held, nor another of the same kind")
	r.rule("order", "the acquired-while-holding relation between locks has no cycle")
	r.rule("blocking", "nothing that can wait (sleep, wait group, channel, network read, write or accept, call of unknown code) runs while a lock is held")
	r.rule("loop", "no loop iteration leaves with other locks than it came with")
	type edge struct{ a, b string }
	edges := map[edge]string{}
	locksSeen := map[string]bool{}
	name := func(a *Term) string {
		aux, _ := lockOwner(a)
		if aux != "" {
			return aux
		}
		return a.String()
	}
	engines := r.allRoots(func(e *Engine, s *State, ev *Event) {
		switch ev.Kind {
		case "lock":
			a := ev.Args[0]
			locksSeen[name(a)] = true
			ok := true
			for _, l := range s.locks {
				if name(l.addr) == name(a) {
					ok = false
				}
			}
			r.check(ok, "reentry", e.where(ev), "acquires "+name(a), "holding: "+lockNames(s), "call path: "+e.stackOf(ev))
			for _, l := range s.locks {
				if n := name(l.addr); n != name(a) {
					edges[edge{n, name(a)}] = e.where(ev)
				}
			}
		case "badunlock":
			r.fail("balance", e.where(ev), "releases "+name(ev.Args[0])+" which is not held here", "holding: "+lockNames(s), "call path: "+e.stackOf(ev))
		case "lockloop":
			r.fail("loop", e.where(ev), "an iteration ends holding other locks than it started with", "holding: "+lockNames(s))
		case "iterend":
			r.pass("loop", e.where(ev), "iteration keeps the lock set")
		case "call":
			if blockingCall(ev.Name) {
				r.check(len(s.locks) == 0, "blocking", e.where(ev), ev.Name, "holding: "+lockNames(s), "call path: "+e.stackOf(ev))
			} else if len(s.locks) > 0 && ev.Name == "dynamic" {
				r.fail("blocking", e.where(ev), "undecided: call of a function that is not known, while holding a lock", "holding: "+lockNames(s))
			}
		case "recv", "send", "selectwait":
			r.check(len(s.locks) == 0, "blocking", e.where(ev), ev.Kind+" on a channel", "holding: "+lockNames(s), "call path: "+e.stackOf(ev))
		}
	})
	for _, e := range engines {
		for _, pe := range e.ends {
			if pe.Label != "" && pe.Kind == "panic" {
				continue // unwinding out of a goroutine ends the process
			}
			w := shortFn(e.cfg.Fn)
			if pe.Label != "" {
				w += " > go " + pe.Label
			}
			var det []string
			for _, l := range pe.S.locks {
				det = append(det, fmt.Sprintf("%s acquired at %s", l.addr, r.pr.fset.Position(l.pos)))
			}
			held := map[string]bool{}
			for _, l := range pe.S.locks {
				held[name(l.addr)] = true
			}
			var hs []string
			for h := range held {
				hs = append(hs, h)
			}
			sort.Strings(hs)
			what := "ends by " + pe.Kind
			if len(hs) > 0 {
				what += " still holding " + strings.Join(hs, ", ")
			}
			r.check(len(pe.S.locks) == 0, "balance", w, what, det...)
		}
	}
	// cycles
	adj := map[string][]string{}
	for x := range edges {
		adj[x.a] = append(adj[x.a], x.b)
	}
	for x, where := range edges {
		seen := map[string]bool{}
		var dfs func(n string) bool
		dfs = func(n string) bool {
			if n == x.a {
				return true
			}
			if seen[n] {
				return false
			}
			seen[n] = true
			for _, m := range adj[n] {
				if dfs(m) {
					return true
				}
			}
			return false
		}
		r.check(!dfs(x.b), "order", where, x.b+" acquired while holding "+x.a, "and elsewhere the other way round")
	}
	r.need("reentry", 4)
	r.need("balance", 10)
	if len(locksSeen) < 3 {
		r.fail("order", "package", "anchor lost: fewer than three kinds of lock found")
	}
	for l := range locksSeen {
		r.sample("lock %s", l)
	}
}
