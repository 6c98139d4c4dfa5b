package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

var (
	fDump  = flag.Bool("dump", false, "analyse the named functions and print what was found")
	fEnds  = flag.Bool("ends", false, "dump: print path ends")
	fEvs   = flag.Bool("evs", false, "dump: print events")
	fLoops = flag.Bool("loops", false, "dump: print loops")
	fSpawn = flag.Bool("spawn", false, "dump: follow goroutines")
	fProp  = flag.String("prop", "", "property to decide")
	fOut   = flag.String("out", "evidence", "where evidence goes")
	fProf  = flag.String("prof", "", "")
	fRepo  = flag.String("repo", "/repo", "repository")
	fFirst = flag.Bool("first", false, "stop at the first property that is violated")
	fList  = flag.Bool("list", false, "list the properties with a check")
)

func main() {
	flag.Parse()
	if *fProf != "" {
		f, _ := os.Create(*fProf)
		pprof.StartCPUProfile(f)
		go func() {
			time.Sleep(14 * time.Second)
			pprof.StopCPUProfile()
			f.Close()
			os.Exit(3)
		}()
	}
	if *fList {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	if *fProp != "" {
		ids := strings.Split(*fProp, ",")
		if len(ids) == 1 {
			os.Exit(runCheck(ids[0]))
		}
		os.Exit(runTogether(ids, *fFirst))
	}
	pr, err := loadProgram(*fRepo)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	if *fDump {
		dump(pr)
	}
}

var checks = map[string]func(*Report){
	"C01": checkC01,
	"C02": checkC02,
	"C03": checkC03,
	"C05": checkC05,
	"C06": checkC06,
	"C12": checkC12,
	"C13": checkC13,
	"C14": checkC14,
	"C15": checkC15,
	"C19": checkC19,
	"C20": checkC20,
	"C10": checkC10,
	"C11": checkC11,
	"C21": checkC21,
	"C17": checkC17,
	"C04": checkC04,
	"C07": checkC07,
	"C08": checkC08,
	"C23": checkC23,
	"C09": checkC09,
	"C16": checkC16,
	"C24": checkC24,
	"C18": checkC18,
	"C22": checkC22,
	"C25": checkC25,
	"C26": checkC26,
	"C27": checkC27,
	"C28": checkC28,
	"C29": checkC29,
	"C30": checkC30,
	"C31": checkC31,
}

// the program, when several properties are decided in one run
var loaded *Program

// runCheck decides one property; the exit code is 0 or 1, whatever happens.
func runCheck(id string) (code int) {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var r *Report
	func() {
		defer func() {
			if p := recover(); p != nil {
				r.fail("analysis", "checker", fmt.Sprintf("undecided: the analysis gave up: %v", p), strings.Split(string(debug.Stack()), "\n")...)
			}
		}()
		r = newReport(id, nil)
		pr := loaded
		if pr == nil {
			var err error
			pr, err = loadProgram(*fRepo)
			if err != nil {
				r.fail("analysis", "package", "undecided: "+err.Error())
				return
			}
			loaded = pr
		}
		r.pr = pr
		f := checks[id]
		if f == nil {
			r.fail("analysis", "checker", "no such check")
			return
		}
		f(r)
	}()
	n, replay := r.write(*fOut, tier, seed, knownFindings(filepath.Join(filepath.Dir(*fOut), "known_findings.txt"), id), start)
	if n > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	fmt.Printf("ok property=%s obligations=%d in %.2fs\n", id, len(r.obl), time.Since(start).Seconds())
	return 0
}

func dump(pr *Program) {
	for _, n := range flag.Args() {
		fn := pr.fn(n)
		if fn == nil {
			for _, f := range pr.fns {
				if f.String() == n || f.Name() == n {
					fn = f
				}
			}
		}
		cfg := &RootCfg{Name: n, Fn: fn, Spawn: *fSpawn}
		if k, T, ok := strings.Cut(n, ":"); ok {
			cfg = codecDump(pr, k, T)
			fn = cfg.Fn
		}
		if fn == nil {
			fmt.Println("no", n)
			continue
		}
		t := time.Now()
		seen := map[string]bool{}
		var e *Engine
		cfg.Hook = func(s *State, ev *Event) {
			if ev.Kind == "oblig" || ev.Kind == "badunlock" || ev.Kind == "lockloop" {
				x := e.where(ev) + " " + ev.String()
				if !seen[x] {
					seen[x] = true
					fmt.Println(x)
				}
			}
		}
		e = newEngine(pr, cfg)
		e.Run()
		fmt.Printf("== %s: passes %d states %d steps %d events %d ends %d loops %d spawns %d problems %v in %v\n", n, e.passes, e.nstates, e.steps, len(e.evlist), len(e.ends), len(e.loops), len(e.spawns), e.problems, time.Since(t).Round(time.Millisecond))
		if *fEnds {
			for _, pe := range e.ends {
				fmt.Println("-- end", pe.Kind, pe.Res)
				if *fEvs {
					for _, ev := range pe.Evs {
						fmt.Println("   ", ev)
					}
				}
			}
		}
		if !*fLoops {
			continue
		}
		var ks []string
		for k := range e.loops {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			l := e.loops[k]
			fmt.Println("-- loop", k, l.Ctx.fn.Name())
			for t, v := range l.Vars {
				fmt.Println("   var", t, "init", v.Init)
			}
			for _, it := range l.Iters {
				fmt.Printf("   iter: {%s} -> {%s}\n", it.CtlIn, it.CtlOut)
				for a, b := range it.Next {
					fmt.Println("      ", a, ":=", b)
				}
				if *fEvs {
					for _, ev := range it.Evs {
						fmt.Println("        ", ev)
					}
				}
			}
		}
	}
}
