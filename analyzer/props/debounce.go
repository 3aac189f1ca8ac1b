package props

import (
	"fmt"
	"go/types"

	"verif/analyzer/ai"
)

// realTime: the clock is not mocked (only tests do that).
func (s *Sc) realTime(st *ai.State, pkg string) {
	if g := s.Pkg(pkg).SSA.Var("nowMock"); g != nil {
		t := g.Type().Underlying().(*types.Pointer).Elem()
		st.Assume(s.Eq(st.Load(s.Global(g), t), s.Zero(t)), true)
	}
}

func isTime(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Time" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time"
}

// pending is a way the debouncer may represent the oldest unserved request: a time variable, and a test whether
// there is one.
type pending struct {
	at   *ai.LoopVar
	flag *ai.LoopVar // nil: the time is zero if there is none
	set  bool        // value of the flag if there is one
}

func (p pending) none(s *Sc, at, flag *Term) *Term {
	if p.flag == nil {
		return s.Eq(at, s.Zero(p.at.T))
	}
	if p.set {
		return s.Not(flag)
	}
	return flag
}

// debounces simulates "the oldest request not served yet" through every iteration of the loop.
func (s *Sc) debounces(l *ai.LoopSum, p pending, doit, need, threshold *Term) []string {
	flag := func(v *Term) *Term { return v }
	pre := p.at.Pre
	var f0, fPre *Term
	if p.flag != nil {
		f0, fPre = p.flag.Head, p.flag.Pre
	}
	if v, k := l.Pre.Holds(p.none(s, pre, flag(fPre))); !k || !v {
		return []string{"it starts with a request pending"}
	}
	var bad []string
	for i, it := range l.Iters {
		i, it := i, it
		bad = append(bad, s.Cases(it.St, func(st *ai.State) []string {
			idle := st.Need(p.none(s, p.at.Head, f0))
			at := p.at.Head
			got := false // a request came while nothing was pending
			fired := false
			var clocks []*Term
			tried := false // to trigger, but the receiver was busy
			for _, ef := range it.New {
				for _, ch := range append(ef.Alts, ef.Args...) {
					tried = tried || ch == doit && (ef.Kind == "recv" || ef.Kind == "select")
				}
				switch {
				case ef.Kind == "loop" && len(sends(flat(ef))) > 0:
					return []string{fmt.Sprintf("it triggers in a loop at %s", s.C.pos(ef.Pos))}
				case ef.Kind == "call" && ef.Name == "time.Now":
					clocks = append(clocks, ef.Res)
				case ef.Kind == "recv" && ef.Recv == need:
					if !idle {
						wakes := ef.Name == "select" && len(ef.Alts) == 0
						for _, a := range ef.Alts {
							wakes = wakes || isTimer(a, l.Pre.Trace, it.New)
						}
						if !wakes {
							return []string{fmt.Sprintf("a pending request waits for another one at %s", s.C.pos(ef.Pos))}
						}
					} else {
						idle, got, at = false, true, nil
					}
				case ef.Kind == "recv" && !isTimer(ef.Recv, l.Pre.Trace, it.New):
					return []string{fmt.Sprintf("it waits for %v at %s", ef.Recv, s.C.pos(ef.Pos))}
				case ef.Kind == "send" && ef.Recv == doit:
					if idle || fired {
						return []string{fmt.Sprintf("it triggers at %s although nothing was requested", s.C.pos(ef.Pos))}
					}
					q := st.WithFacts(ef.Fs)
					ok := false
					for _, n := range clocks {
						for _, o := range append([]*Term{at}, clocks...) {
							if o == nil || at != nil && o != at {
								continue
							}
							if v, k := q.Holds(s.Lt(threshold, s.App("time.Sub", i64T(), n, o))); k && v {
								ok = true
							}
						}
					}
					if !ok {
						return []string{fmt.Sprintf("it triggers at %s although the oldest request may be recent", s.C.pos(ef.Pos))}
					}
					idle, fired = true, true
				case ef.Kind == "send" || ef.Kind == "close":
					return []string{fmt.Sprintf("it does%s", opNames(s, []*ai.Effect{ef}))}
				}
			}
			var f1 *Term
			if p.flag != nil {
				f1 = p.flag.Next[i]
			}
			end := p.at.Next[i]
			if st.Need(p.none(s, end, f1)) != idle {
				if idle {
					return []string{"a served request stays pending"}
				}
				return []string{"a request is forgotten before it was served"}
			}
			if idle {
				return nil
			}
			if got {
				ok := false
				for _, n := range clocks {
					ok = ok || n == end
				}
				if !ok {
					return []string{fmt.Sprintf("the request is recorded as made at %v", end)}
				}
			} else if end != at {
				return []string{fmt.Sprintf("the oldest request's time changes to %v", end)}
			}
			if tried && !fired {
				return nil
			}
			// not served: it must not have been due
			for _, n := range clocks {
				if v, k := st.Holds(s.Lt(threshold, s.App("time.Sub", i64T(), n, end))); k && !v {
					return nil
				}
			}
			return []string{"a request that is due may be left unserved"}
		})...)
	}
	return bad
}

func checkC36(c *Ctx) {
	check := func(s *Sc, st *ai.State, fn *Term, args []*Term, doit, need, threshold *Term) {
		s.realTime(st, HD)
		from := s.LoopCount()
		xs := s.RunValue(st, fn, args)
		s.Ok(len(xs) == 0, "the debouncer keeps running", "it can end")
		n := 0
		for _, l := range s.OuterLoops(from) {
			fires := false
			for _, it := range l.Iters {
				fires = fires || len(sends(it.New)) > 0
			}
			if !fires {
				continue
			}
			n++
			var ps []pending
			for _, v := range l.Vars {
				if !isTime(v.T) {
					continue
				}
				ps = append(ps, pending{at: v})
				for _, f := range l.Vars {
					if b, ok := f.T.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
						ps = append(ps, pending{v, f, true}, pending{v, f, false})
					}
				}
			}
			var first []string
			ok := false
			for _, p := range ps {
				bad := s.debounces(l, p, doit, need, threshold)
				if len(bad) == 0 {
					ok = true
					break
				}
				if first == nil {
					first = bad
				}
			}
			if first == nil {
				first = []string{"nothing remembers the oldest request"}
			}
			if ok {
				first = nil
			}
			s.Msgs("a trigger follows every burst of requests, and nothing else", first)
		}
		s.Ok(n == 1, "the debouncer triggers", "%d loops do", n)
	}
	c.Scen("the debouncer", func(s *Sc) {
		fn := s.Fn(HD, "debouncer")
		s.On(fn)
		st := s.NewState()
		var args []*Term
		var doit, need *Term
		var durs []*Term
		for _, p := range fn.Params {
			v := s.Sym(p.Name(), p.Type())
			args = append(args, v)
			if ch, ok := p.Type().Underlying().(*types.Chan); ok {
				if ch.Dir() == types.SendOnly {
					doit = v
				} else {
					need = v
				}
			} else {
				durs = append(durs, v)
			}
		}
		if doit == nil || need == nil || len(durs) != 2 {
			s.giveUp("the debouncer has an unknown form")
		}
		check(s, st, s.FuncTerm(fn), args, doit, need, durs[0])
	})
	c.Scen("the worker's debouncer", func(s *Sc) {
		n := 0
		for _, cm := range s.healthd() {
			for _, l := range s.workerLoops(cm, cm.st) {
				for _, ef := range l.Pre.Trace {
					if ef.Kind != "go" || ef.Fn.Op != "func" || ef.Fn.F != s.Fn(HD, "debouncer") {
						continue
					}
					n++
					s.connected(l, ef)
				}
			}
		}
		s.Ok(n == 1, "the worker starts one debouncer", "it starts %d", n)
	})
}

// connected: the worker sends its requests to the debouncer and receives its triggers.
func (s *Sc) connected(l wloop, g *ai.Effect) {
	var doit, need *Term
	for i, p := range g.Fn.F.Params {
		if ch, ok := p.Type().Underlying().(*types.Chan); ok {
			if ch.Dir() == types.SendOnly {
				doit = g.Args[i]
			} else {
				need = g.Args[i]
			}
		}
	}
	asks, hears := false, false
	for _, it := range l.Iters {
		Flatten(it.New, func(ef *ai.Effect, _ []*ai.LoopSum) {
			asks = asks || ef.Kind == "send" && ef.Recv == need
			hears = hears || ef.Kind == "recv" && ef.Recv == doit
		})
	}
	s.Ok(asks && hears && doit != need, "the worker and its debouncer are connected", "requests sent: %v, triggers received: %v", asks, hears)
}
