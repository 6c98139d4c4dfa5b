package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Viol struct {
	Rule, Where, What string
	Detail            []string
}

// Report collects what one property check decided.
type Report struct {
	id      string
	pr      *Program
	viols   []Viol
	vseen   map[string]bool
	obl     map[string]bool // obligations by rule and instance
	bad     map[string]bool
	counts  map[string]int
	roots   []string
	fns     map[string]bool
	calls   int
	states  int
	steps   int
	paths   int
	loops   int
	samples []string
	rules   map[string]string
	assume  []string
	idx     int

	setSize    map[string]bool // fields written as the size of a message set
	fieldsSeen int
}

func newReport(id string, pr *Program) *Report {
	return &Report{id: id, pr: pr, vseen: map[string]bool{}, obl: map[string]bool{}, bad: map[string]bool{}, counts: map[string]int{}, fns: map[string]bool{}, rules: map[string]string{}}
}

func (r *Report) rule(name, text string) { r.rules[name] = text }

// check records one obligation of a rule.
func (r *Report) check(ok bool, rule, where, what string, detail ...string) bool {
	k := rule + "|" + where + "|" + what
	r.obl[k] = true
	r.counts[rule]++
	if !ok {
		r.bad[k] = true
		if !r.vseen[k] {
			r.vseen[k] = true
			r.viols = append(r.viols, Viol{rule, where, what, detail})
		}
	}
	return ok
}

// checkL: the details are put together only if they are needed.
func (r *Report) checkL(ok bool, rule, where, what string, detail func() []string) bool {
	if ok {
		return r.check(true, rule, where, what)
	}
	return r.check(false, rule, where, what, detail()...)
}

func (r *Report) fail(rule, where, what string, detail ...string) {
	r.check(false, rule, where, what, detail...)
}

func (r *Report) pass(rule, where, what string) { r.check(true, rule, where, what) }

// need: a rule that found nothing to look at has lost its anchor.
func (r *Report) need(rule string, n int) {
	if r.counts[rule] < n {
		r.fail(rule, "package", fmt.Sprintf("anchor lost: the rule applied to %d instances, at least %d expected", r.counts[rule], n))
	}
}

func (r *Report) sample(f string, a ...any) {
	if len(r.samples) < 12 {
		r.samples = append(r.samples, fmt.Sprintf(f, a...))
	}
}

// run analyses one root and accounts for it.
func (r *Report) run(cfg *RootCfg) *Engine {
	e := newEngine(r.pr, cfg)
	if cfg.Fn == nil {
		r.fail("analysis", cfg.Name, "anchor lost: no such function")
		return e
	}
	key := ""
	if group != nil && cfg.Hook == nil && cfg.NoDecodeModel {
		key = cfg.Name + fmt.Sprint(cfg.ArgsOf(e))
		if old := group.runs[key]; old != nil {
			r.account(old)
			return old
		}
	}
	e.Run()
	if key != "" {
		group.runs[key] = e
	}
	r.account(e)
	return e
}

func (r *Report) account(e *Engine) {
	r.roots = append(r.roots, fmt.Sprintf("%s: %d paths, %d states, %d loops", e.cfg.Name, len(e.ends), e.nstates, len(e.loops)))
	for p := range e.problems {
		r.fail("analysis", e.cfg.Name, "undecided: "+p)
	}
	for f := range e.fns {
		r.fns[f] = true
	}
	r.calls += len(e.callSites)
	r.states += e.nstates
	r.steps += e.steps
	r.paths += len(e.ends)
	r.loops += len(e.loops)
}

func (r *Report) write(dir, tier string, seed int, known map[string]bool, start time.Time) (viols int, replay string) {
	var rules []string
	for k, t := range r.rules {
		rules = append(rules, k+": "+t)
	}
	sort.Strings(rules)
	var fns []string
	for f := range r.fns {
		fns = append(fns, strings.ReplaceAll(f, "github.com/jimsnab/kafka-mock-go", "kafkamock"))
	}
	sort.Strings(fns)
	sort.Strings(r.roots)
	insts := map[string]int{}
	for k := range r.obl {
		insts[k[:strings.IndexByte(k, '|')]]++
	}
	var open []Viol
	for _, v := range r.viols {
		if known[v.key()] {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s: %s\n", r.id, v.Rule, v.Where, v.What)
			continue
		}
		open = append(open, v)
	}
	cov := map[string]any{
		"explanation":        fmt.Sprintf("Static analysis of /repo's current source: %d roots, %d functions inlined into them, %d abstract states, %d path ends, %d loops taken to a fixpoint; %d obligations of %d rules, %d of them not shown.", len(r.roots), len(fns), r.states, r.paths, r.loops, len(r.obl), len(insts), len(r.bad)),
		"obligations":        len(r.obl),
		"discharged":         len(r.obl) - len(r.bad),
		"instances_per_rule": insts,
		"rules":              rules,
		"roots":              r.roots,
		"functions":          fns,
		"abstract_states":    r.states,
		"instructions":       r.steps,
		"path_ends":          r.paths,
		"loops":              r.loops,
		"samples":            r.samples,
	}
	ev := map[string]any{
		"property": r.id, "tier": tier, "seed": seed, "level": "other",
		"coverage":    cov,
		"assumptions": append([]string{"the models of library calls in checker/models.go and checker/reflectm.go"}, r.assume...),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(open),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, r.id+".json"), b, 0o644)
	replay = filepath.Join(dir, r.id+".replay.txt")
	os.Remove(replay)
	if len(open) > 0 {
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s: run `bin/kmcheck -prop %s` in /verif to repeat\n\n", r.id, r.id)
		for _, v := range open {
			fmt.Fprintf(&sb, "%s at %s\n  %s\n", v.Rule, v.Where, v.What)
			for _, d := range v.Detail {
				fmt.Fprintf(&sb, "    %s\n", d)
			}
		}
		os.WriteFile(replay, []byte(sb.String()), 0o644)
		for i, v := range open {
			if i == 20 {
				fmt.Printf("  ... and %d more\n", len(open)-20)
				break
			}
			fmt.Printf("  %s: %s: %s\n", v.Rule, v.Where, clip(v.What, 600))
		}
	}
	return len(open), replay
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// key identifies a violation for the known-findings file: no line numbers.
func (v Viol) key() string {
	w := v.Where
	if i := strings.IndexByte(w, '('); i >= 0 {
		w = strings.Trim(w[i:], "()")
	}
	return v.Rule + "|" + w + "|" + v.What
}

func knownFindings(path, id string) map[string]bool {
	m := map[string]bool{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if rest, ok := strings.CutPrefix(l, "finding: property="+id+" "); ok {
			m[strings.TrimSpace(rest)] = true
		}
	}
	return m
}

// ---- roots ---------------------------------------------------------------------

// exportedAPI: every exported function, and method of an exported type.
func (pr *Program) exportedAPI() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range pr.fns {
		if f.Parent() != nil || len(f.Blocks) == 0 || f.Synthetic != "" || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		if recv := f.Signature.Recv(); recv != nil {
			t := recv.Type()
			if p := pointee(t); p != nil {
				t = p
			}
			if n := namedOf(t); n == nil || !n.Obj().Exported() {
				continue
			}
		}
		if f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
			continue
		}
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// handlerFuncs: functions with the type of the API table's values.
func (pr *Program) handlerFuncs() []*ssa.Function {
	T := pr.typ("dispatchHandler")
	var out []*ssa.Function
	if T == nil {
		return nil
	}
	for _, f := range pr.fns {
		if f.Parent() == nil && f.Signature.Recv() == nil && len(f.Blocks) > 0 && identicalSig(f.Signature, T) {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// allRoots analyses every entry point: the exported API (with the goroutines
// it starts) and the request handlers.
func (r *Report) allRoots(hook func(e *Engine, s *State, ev *Event)) []*Engine {
	if group != nil {
		v := &visit{r, hook, make(chan []*Engine)}
		group.wants <- v
		return <-v.back
	}
	return r.allRootsAlone(hook)
}

func (r *Report) allRootsAlone(hook func(e *Engine, s *State, ev *Event)) []*Engine {
	if hook == nil && r.pr.roots != nil {
		for _, e := range r.pr.roots {
			r.account(e)
		}
		return r.pr.roots
	}
	var out []*Engine
	fs := append(append([]*ssa.Function{}, r.pr.exportedAPI()...), r.pr.handlerFuncs()...)
	if len(fs) < 5 {
		r.fail("analysis", "package", "anchor lost: entry points not found")
	}
	for _, f := range fs {
		cfg := &RootCfg{Name: shortFn(f), Fn: f, Spawn: true}
		var e *Engine
		cfg.Hook = func(s *State, ev *Event) {
			if hook != nil {
				hook(e, s, ev)
			}
		}
		e = newEngine(r.pr, cfg)
		e.Run()
		r.account(e)
		out = append(out, e)
	}
	if hook == nil {
		r.pr.roots = out
	}
	return out
}

func shortFn(f *ssa.Function) string {
	return strings.ReplaceAll(f.String(), "github.com/jimsnab/kafka-mock-go", "kafkamock")
}
