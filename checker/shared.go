package main

// Deciding several properties in one run (a development aid): the checks run
// one at a time, and those that want the entry points analysed wait for each
// other, so that the analysis is done once for all of them.

type visit struct {
	r    *Report
	hook func(e *Engine, s *State, ev *Event)
	back chan []*Engine
}

type together struct {
	wants chan *visit // a check asks for the entry points
	done  chan int    // a check is finished, with its exit code
	runs  map[string]*Engine
}

var group *together

// runTogether decides the properties; with first, it stops when one is violated.
func runTogether(ids []string, first bool) int {
	group = &together{wants: make(chan *visit), done: make(chan int), runs: map[string]*Engine{}}
	code := 0
	var waiting []*visit
	step := func() bool { // one check is running: until it stops or waits
		select {
		case v := <-group.wants:
			waiting = append(waiting, v)
		case c := <-group.done:
			if c != 0 {
				code = c
			}
		}
		return !(first && code != 0)
	}
	for _, id := range ids {
		go func() { group.done <- runCheck(id) }()
		if !step() {
			return code
		}
	}
	for len(waiting) > 0 {
		now := waiting
		waiting = nil
		r := newReport("", loaded)
		es := r.allRootsAlone(func(e *Engine, s *State, ev *Event) {
			for _, v := range now {
				if v.hook != nil {
					v.hook(e, s, ev)
				}
			}
		})
		for _, v := range now {
			for _, e := range es {
				v.r.account(e)
			}
			v.back <- es
			if !step() {
				return code
			}
		}
	}
	return code
}
