package props

import (
	"go/types"

	"verif/analyzer/ai"
)

// comp is a component after its constructor ran: the started goroutines are its workers.
type comp struct {
	st   *ai.State
	recv *Term
	gos  []*ai.Effect
}

// construct runs a constructor and returns its successful outcomes.
func (s *Sc) construct(pkg, fn string, prep func(st *ai.State) []*Term) []comp {
	f := s.Fn(pkg, fn)
	s.On(f)
	st := s.NewState()
	var r []comp
	for _, x := range s.Call(st, f, prep(st)...) {
		if v, k := x.St.Holds(s.Eq(x.Vals[0], s.Nil())); k && v {
			continue
		}
		c := comp{st: x.St, recv: x.Vals[0]}
		for _, ef := range x.St.Trace {
			if ef.Kind == "go" {
				c.gos = append(c.gos, ef)
			}
		}
		r = append(r, c)
	}
	s.Ok(len(r) > 0, "the component can be constructed", "%s never succeeds", fn)
	return r
}

// sent is one message queued by a method call.
type sent struct {
	st  *ai.State
	ch  *Term
	msg *Term
	ef  *ai.Effect
}

// sends lists the channel sends a trace ends with.
func sends(tr []*ai.Effect) (r []*ai.Effect) {
	for _, ef := range tr {
		if ef.Kind == "send" {
			r = append(r, ef)
		}
	}
	return
}

// wloop is the main loop of a worker.
type wloop struct {
	*ai.LoopSum
	w    *ai.Effect
	ends []wend
}

// wend is one way the worker goroutine ends: what it does from the iteration that leaves the loop on.
type wend struct {
	x    *ai.Exit
	tail []*ai.Effect
	part bool // left in the middle of an iteration
}

// workerLoops analyses the worker goroutines of c from state st and returns their main loops.
func (s *Sc) workerLoops(c comp, st *ai.State) []wloop {
	var r []wloop
	for _, g := range c.gos {
		from := s.LoopCount()
		cur := st.Clone()
		cur.Trace = nil
		xs := s.runGo(cur, g)
		for _, l := range s.OuterLoops(from) {
			w := wloop{LoopSum: l, w: g}
			for _, x := range xs {
				for i, ef := range x.St.Trace {
					if ef.Kind == "loop" && ef.Loop == l {
						w.ends = append(w.ends, wend{x, x.St.Trace[i+1:], ef.Part})
						break
					}
				}
			}
			r = append(r, w)
		}
	}
	return r
}

// runGo analyses the body of a started goroutine.
func (s *Sc) runGo(st *ai.State, g *ai.Effect) []*ai.Exit {
	return s.RunValue(st, g.Fn, g.Args)
}

// got: the iterations (and ways out) of a loop that received msg from ch.
func (l wloop) got(ch, msg *Term) (in, out []*ai.Iter) {
	has := func(it *ai.Iter) bool {
		for _, ef := range it.New {
			if ef.Kind == "recv" && ef.Recv == ch && ef.Res == msg {
				return true
			}
		}
		return false
	}
	for _, it := range l.Iters {
		if has(it) {
			in = append(in, it)
		}
	}
	for _, it := range l.Breaks {
		if has(it) {
			out = append(out, it)
		}
	}
	return
}

// deliver calls method on the component, and follows the one message it queues to the worker's main loop.
// It returns, per outcome, the iterations that handle the message.
type handled struct {
	x     *ai.Exit // exit of the method
	ch    *Term
	msg   *Term
	loop  wloop
	iters []*ai.Iter
	outs  []*ai.Iter
}

func (s *Sc) deliver(c comp, pkg, typ, method string, args ...*Term) []handled {
	return s.deliverThen(c, pkg, typ, method, nil, args...)
}

// deliverThen changes the state between the method and the worker.
func (s *Sc) deliverThen(c comp, pkg, typ, method string, then func(st *ai.State), args ...*Term) []handled {
	fn := s.M(pkg, typ, method)
	s.On(fn)
	n0 := len(c.st.Trace)
	var r []handled
	for _, x := range s.Call(c.st.Clone(), fn, append([]*Term{c.recv}, args...)...) {
		se := sends(x.St.Trace[n0:])
		bad := false
		for _, ef := range x.St.Trace[n0:] {
			if ef.Kind == "go" || ef.Kind == "loop" && len(sends(flat(ef))) > 0 {
				bad = true
			}
		}
		if !s.Ok(len(se) == 1 && !bad, "the record is queued exactly once", "%s.%s queues %d messages", typ, method, len(se)) {
			continue
		}
		st := x.St.Clone()
		ch, msg := se[0].Recv, se[0].Args[0]
		st.SetInbox(ch, msg)
		if then != nil {
			then(st)
		}
		found := false
		for _, l := range s.workerLoops(c, st) {
			in, out := l.got(ch, msg)
			if len(in)+len(out) == 0 {
				continue
			}
			found = true
			s.selfFed(l, ch, typ)
			r = append(r, handled{x: x, ch: ch, msg: msg, loop: l, iters: in, outs: out})
		}
		s.Ok(found, "the worker takes the record", "no worker loop receives what %s.%s queues", typ, method)
	}
	return r
}

// selfFed: a worker that puts something into the queue it reads itself handles records nobody made (and waits for itself
// when the queue is full).
func (s *Sc) selfFed(l wloop, ch *Term, typ string) {
	fed := func(tr []*ai.Effect) {
		Flatten(tr, func(ef *ai.Effect, _ []*ai.LoopSum) {
			if ef.Kind == "send" && ef.Recv == ch {
				s.Ok(false, "the worker handles what callers emitted, and nothing else", "the worker of %s sends into its own queue", typ)
			}
		})
	}
	for _, it := range append(append([]*ai.Iter(nil), l.Iters...), l.Breaks...) {
		fed(it.New)
		Flatten(it.New, func(ef *ai.Effect, _ []*ai.LoopSum) {
			if ef.Kind == "go" {
				st := it.St.Clone()
				n := len(st.Trace)
				for _, x := range s.runGo(st, ef) {
					fed(x.St.Trace[min(n, len(x.St.Trace)):])
				}
			}
		})
	}
}

func flat(ef *ai.Effect) (r []*ai.Effect) {
	Flatten([]*ai.Effect{ef}, func(e *ai.Effect, _ []*ai.LoopSum) { r = append(r, e) })
	return
}

func strT() types.Type { return types.Typ[types.String] }
func i64T() types.Type { return types.Typ[types.Int64] }
func f64T() types.Type { return types.Typ[types.Float64] }
func errT() types.Type { return types.Universe.Lookup("error").Type() }
