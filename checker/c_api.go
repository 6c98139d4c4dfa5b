package main

// C06 (ApiVersions advertises exactly what can be served), and the anchoring
// of handlers by Kafka API key and version that the other checks use.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type apiSlot struct{ key, ver int }

type apiSetup struct {
	global *Term // the handler table, as a global
	fns    map[apiSlot]*ssa.Function
	terms  map[apiSlot]*Term
	slots  []apiSlot
	e      *Engine // of the set-up
	s      *State  // at its end
}

// apiTables: the globals that hold request handlers.
func (pr *Program) apiTables() []*ssa.Global {
	T := pr.typ("dispatchHandler")
	var out []*ssa.Global
	if T == nil {
		return nil
	}
	for _, m := range pr.pkg.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		if mt, ok := pointee(g.Type()).Underlying().(*types.Map); ok && identicalSigT(mt.Elem(), T) {
			out = append(out, g)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

func identicalSigT(a, b types.Type) bool {
	s, ok := a.Underlying().(*types.Signature)
	return ok && identicalSig(s, b)
}

// setupRun runs package initialisation and the constructor of a mock exactly
// (everything is constant there), then the given functions.
func (r *Report) setupRun(reverse bool, extra ...func(*Engine) (*ssa.Function, []*Term)) *Engine {
	pr := r.pr
	pr.opts = Options{unrollMaps: true, reverseMaps: reverse}
	defer func() { pr.opts = Options{} }()
	ctor := pr.fn("NewKafkaMock")
	if ctor == nil {
		r.fail("setup", "NewKafkaMock", "anchor lost: no constructor")
		return nil
	}
	ini := pr.pkg.Func("init")
	name := "package init, NewKafkaMock"
	if reverse {
		name += " (maps ranged backwards)"
	}
	for range extra {
		name += ", handler"
	}
	cfg := &RootCfg{Name: name, Fn: ini, MaxStates: 200000}
	cfg.Init = func(e *Engine, s *State) {
		for _, m := range pr.pkg.Members {
			if g, ok := m.(*ssa.Global); ok {
				T := pointee(g.Type())
				s.mem[e.globalTerm(g)] = e.p.zero(T)
			}
		}
	}
	cfg.Extra = append(cfg.Extra, func(e *Engine) (*ssa.Function, []*Term) { return ctor, e.paramTerms(ctor, "") })
	cfg.Extra = append(cfg.Extra, extra...)
	e := newEngine(pr, cfg)
	e.Run()
	r.account(e)
	return e
}

// apiSetup reads the handler table as it stands when a mock is handed out.
func (r *Report) apiSetup() *apiSetup {
	e := r.setupRun(false)
	if e == nil {
		return nil
	}
	return r.readTable(e, "setup")
}

func (r *Report) readTable(e *Engine, rule string) *apiSetup {
	tabs := r.pr.apiTables()
	if len(tabs) != 1 {
		r.fail(rule, "package", fmt.Sprintf("anchor lost: %d handler tables found", len(tabs)))
		return nil
	}
	var as *apiSetup
	for _, pe := range e.ends {
		if pe.Kind != "return" {
			r.fail(rule, e.cfg.Name, "undecided: set-up may end by "+pe.Kind)
			continue
		}
		g := e.globalTerm(tabs[0])
		m := pe.S.mem[g]
		if m == nil || m.op != "makemap" {
			r.fail(rule, tabs[0].Name(), "undecided: the handler table is not a map made at start-up", str(m))
			continue
		}
		ks, ok := e.knownEntries(pe.S, m)
		if !ok {
			r.fail(rule, tabs[0].Name(), "undecided: keys of the handler table are not constants")
			continue
		}
		cur := &apiSetup{global: g, fns: map[apiSlot]*ssa.Function{}, terms: map[apiSlot]*Term{}}
		for _, k := range ks {
			v := pe.S.mem[e.mapcell(m, k)]
			sl, ok := parseSlot(k)
			fn, isFn := v.obj.(*ssa.Function)
			if !ok || v.op != "fn" || !isFn {
				r.fail(rule, tabs[0].Name(), "undecided: entry "+k.String()+" of the handler table", str(v))
				continue
			}
			cur.fns[sl] = fn
			cur.terms[sl] = k
			cur.slots = append(cur.slots, sl)
		}
		sort.Slice(cur.slots, func(i, j int) bool {
			a, b := cur.slots[i], cur.slots[j]
			return a.key < b.key || a.key == b.key && a.ver < b.ver
		})
		if as != nil && fmt.Sprint(as.slots) != fmt.Sprint(cur.slots) {
			r.fail(rule, tabs[0].Name(), "undecided: the handler table differs between paths")
		}
		cur.e, cur.s = e, pe.S
		as = cur
	}
	if as == nil || len(as.slots) == 0 {
		r.fail(rule, tabs[0].Name(), "anchor lost: the handler table is empty")
		return nil
	}
	return as
}

func parseSlot(k *Term) (apiSlot, bool) {
	if k.op != "str" {
		return apiSlot{}, false
	}
	i := strings.IndexFunc(k.aux, func(c rune) bool { return (c < '0' || c > '9') && c != '-' })
	if i <= 0 {
		return apiSlot{}, false
	}
	j := strings.LastIndexFunc(k.aux, func(c rune) bool { return (c < '0' || c > '9') && c != '-' })
	a, err1 := strconv.Atoi(k.aux[:i])
	b, err2 := strconv.Atoi(k.aux[j+1:])
	return apiSlot{a, b}, err1 == nil && err2 == nil
}

// keyText writes a table key as text with the places of the header's key and
// version: constant parts and <k>, <v>.
func (e *Engine) keyText(t *Term, isKey, isVer func(*Term) bool) (string, bool) {
	switch {
	case t.op == "iface":
		return e.keyText(t.args[0], isKey, isVer)
	case isKey(t):
		return "<k>", true
	case isVer(t):
		return "<v>", true
	case t.op == "str":
		return t.aux, true
	case t.op == "concat":
		a, ok1 := e.keyText(t.args[0], isKey, isVer)
		b, ok2 := e.keyText(t.args[1], isKey, isVer)
		return a + b, ok1 && ok2
	case t.op == "call" && (t.aux == "strconv.Itoa" || t.aux == "strconv.FormatInt" && t.args[1] == e.p.Int(10)):
		return e.keyText(t.args[0], isKey, isVer)
	case t.op == "call" && t.aux == "fmt.Sprintf" && t.args[0].op == "str":
		f := t.args[0].aux
		out := ""
		n := 1
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				out += f[i : i+1]
				continue
			}
			i++
			if i >= len(f) || (f[i] != 'd' && f[i] != 'v' && f[i] != 's') || n >= len(t.args) {
				return "", false
			}
			a, ok := e.keyText(t.args[n], isKey, isVer)
			if !ok {
				return "", false
			}
			if (f[i] == 's') != (t.args[n].op == "str" || t.args[n].op == "call" || t.args[n].op == "concat") && f[i] != 'v' {
				return "", false
			}
			out += a
			n++
		}
		return out, n == len(t.args)
	}
	return "", false
}

// headerField: is t field i of the request header decoded on this path (possibly
// converted to a wider integer)?
func headerField(t *Term, i int) (dec *Term, ok bool) {
	for t.op == "conv" || t.op == "iface" {
		if t.op == "conv" && (t.typ == nil || !isInteger(t.typ)) {
			return nil, false
		}
		t = t.args[0]
	}
	if t.op == "fld" && t.args[0].op == "dec" && auxIndex(t.aux) == i {
		return t.args[0], true
	}
	return nil, false
}

func checkC06(r *Report) {
	pr := r.pr
	r.rule("setup", "the handler table is complete, with constant keys, when NewKafkaMock returns")
	r.rule("advertised", "the ApiVersions response, computed for exactly that table and for both orders of ranging over maps, has error 0 and lists every key of the table once and no other")
	r.rule("range", "the advertised minimum and maximum of a key are the lowest and highest version with a handler, and every version between them has one")
	r.rule("dispatch", "a request goes to the entry of the table at the text of its own header's key and version, and only if there is one; table keys are that text for constants")
	r.rule("shape", "the handler of a key and version reads the request type and answers with the response type that Kafka defines for them")
	as := r.apiSetup()
	if as == nil {
		return
	}
	// where does an ApiVersions request go?
	var av *ssa.Function
	for _, sl := range as.slots {
		if sl.key == 18 {
			av = as.fns[sl]
		}
	}
	if av == nil {
		r.fail("advertised", "handler table", "no handler for ApiVersions (key 18)")
		return
	}
	for _, rev := range []bool{false, true} {
		e := r.setupRun(rev, func(e *Engine) (*ssa.Function, []*Term) { return av, e.paramTerms(av, "av.") })
		if e == nil {
			return
		}
		tab := r.readTable(e, "setup")
		if tab == nil {
			return
		}
		r.check(fmt.Sprint(tab.slots) == fmt.Sprint(as.slots), "setup", "handler table", "answering ApiVersions leaves the handler table as it was")
		n := 0
		for _, pe := range e.ends {
			if pe.Kind != "return" || pe.Label != "" {
				continue
			}
			n++
			r.advertised(e, pe, as, shortFn(av), rev)
		}
		r.check(n > 0, "advertised", shortFn(av), "answers on some path")
	}
	// dispatch
	nd := 0
	seen := map[string]bool{}
	for _, f := range pr.exportedAPI() {
		if f != pr.method("KafkaMock", "Start") {
			continue
		}
		var e *Engine
		e = newEngine(pr, &RootCfg{Name: shortFn(f), Fn: f, Spawn: true, Hook: func(s *State, ev *Event) {
			if ev.Kind != "call" || ev.Name != "dynamic" || len(ev.Args) == 0 {
				return
			}
			c := ev.Args[0]
			if c.typ == nil || !identicalSigT(c.typ, pr.typ("dispatchHandler")) {
				return
			}
			nd++
			w := e.where(ev)
			if !r.check(c.op == "mapval" && c.args[0].op == "gval" && c.args[0].aux == as.global.aux, "dispatch", w, "the handler called is an entry of the handler table", c.String()) {
				return
			}
			var dk, dv *Term
			txt, ok := e.keyText(c.args[1], func(t *Term) bool {
				d, ok := headerField(t, 0)
				if ok {
					dk = d
				}
				return ok
			}, func(t *Term) bool {
				d, ok := headerField(t, 1)
				if ok {
					dv = d
				}
				return ok
			})
			if !r.check(ok && dk != nil && dk == dv, "dispatch", w, "the entry is looked up by the request header's own key and version", c.args[1].String()) {
				return
			}
			kn, val := e.eval(s, e.p.MapOk(c))
			kn2, val2 := e.eval(s, e.p.Eq(c, e.p.Nil()))
			r.check(kn && val || kn2 && !val2, "dispatch", w, "only a handler that is present is called", c.String())
			for _, sl := range as.slots {
				k := strings.ReplaceAll(strings.ReplaceAll(txt, "<k>", strconv.Itoa(sl.key)), "<v>", strconv.Itoa(sl.ver))
				r.check(k == as.terms[sl].aux, "dispatch", w, fmt.Sprintf("key %d version %d is entered under the text requests for it look up", sl.key, sl.ver), "entered: "+as.terms[sl].aux, "looked up: "+k)
			}
			// key and version cannot run into each other
			i, j := strings.Index(txt, "<k>"), strings.Index(txt, "<v>")
			sep := ""
			if i >= 0 && j > i {
				sep = txt[i+3 : j]
			}
			r.check(i >= 0 && j > i && strings.Trim(sep, "0123456789") != "" && strings.Count(txt, "<k>") == 1 && strings.Count(txt, "<v>") == 1, "dispatch", w, "different keys and versions have different texts", txt)
			// handler arguments: this connection's reader and client
			seen[w] = true
		}})
		e.Run()
		r.account(e)
	}
	r.check(nd > 0, "dispatch", "Start", "requests reach the handler table")
	// shapes
	for _, sl := range as.slots {
		r.checkShape(as, sl)
	}
	r.need("shape", 22)
	r.need("range", 11)
	for _, sl := range as.slots {
		r.sample("api key %d version %d: %s", sl.key, sl.ver, shortFn(as.fns[sl]))
	}
}

// advertised compares one computed ApiVersions response with the table.
func (r *Report) advertised(e *Engine, pe *PathEnd, as *apiSetup, w string, rev bool) {
	if len(pe.Res) < 3 {
		r.fail("advertised", w, "undecided: results")
		return
	}
	if !pe.Res[2].isNil() {
		r.fail("advertised", w, "may fail", str(pe.Res[2]))
		return
	}
	v, T := e.respStruct(pe.S, pe.Res[0])
	if v == nil {
		r.fail("advertised", w, "undecided: the response is not a struct", str(pe.Res[0]))
		return
	}
	r.check(e.fldOf(v, T, 0) == e.p.Int(0), "advertised", w, "error code 0", e.fldOf(v, T, 0).String())
	st := T.Underlying().(*types.Struct)
	list := e.fldOf(v, T, 1)
	n := e.lenOf(list)
	if !n.isInt() {
		r.fail("advertised", w, "undecided: the number of keys listed", n.String())
		return
	}
	ET := elemT(st.Field(1).Type())
	got := map[int]int{}
	for i := int64(0); i < n.intVal(); i++ {
		el := e.load(pe.S, e.indexAddr(pe.S, list, e.p.Int(i), ET), ET)
		k, lo, hi := e.fldOf(el, ET, 0), e.fldOf(el, ET, 1), e.fldOf(el, ET, 2)
		if !k.isInt() || !lo.isInt() || !hi.isInt() {
			r.fail("advertised", w, "undecided: an entry is not constant", el.String())
			continue
		}
		key := int(k.intVal())
		got[key]++
		min, max, any := 0, 0, false
		for _, sl := range as.slots {
			if sl.key == key {
				if !any || sl.ver < min {
					min = sl.ver
				}
				if !any || sl.ver > max {
					max = sl.ver
				}
				any = true
			}
		}
		if !r.check(any, "advertised", w, fmt.Sprintf("key %d listed has a handler", key)) {
			continue
		}
		r.check(int(lo.intVal()) == min && int(hi.intVal()) == max, "range", w, fmt.Sprintf("key %d", key), fmt.Sprintf("advertised %d to %d, handlers for %d to %d", lo.intVal(), hi.intVal(), min, max))
		for ver := int(lo.intVal()); ver <= int(hi.intVal()) && ver < int(lo.intVal())+1000; ver++ {
			r.check(as.fns[apiSlot{key, ver}] != nil, "range", w, fmt.Sprintf("key %d version %d has a handler", key, ver))
		}
	}
	for _, sl := range as.slots {
		r.check(got[sl.key] == 1, "advertised", w, fmt.Sprintf("key %d is listed once", sl.key), fmt.Sprintf("listed %d times", got[sl.key]))
	}
}

// respStruct: the struct a response is (or points to), and its type.
func (e *Engine) respStruct(s *State, t *Term) (*Term, types.Type) {
	if t == nil || t.op != "iface" {
		return nil, nil
	}
	T, _ := t.obj.(types.Type)
	v := t.args[0]
	if T == nil {
		return nil, nil
	}
	if pt := pointee(T); pt != nil {
		if v.op != "new" {
			return nil, nil
		}
		v = e.load(s, v, pt)
		T = pt
	}
	if _, ok := T.Underlying().(*types.Struct); !ok {
		return nil, nil
	}
	return v, T
}
