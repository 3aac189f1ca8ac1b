package props

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// asked is one request a method makes of the worker: a message, and the channel it waits on for the acknowledgement.
type asked struct {
	x    *ai.Exit
	req  *ai.Effect
	ack  *Term // nil: the worker's taking the message is the acknowledgement
	stop bool
	name string
}

func chanOp(ef *ai.Effect) bool {
	switch ef.Kind {
	case "send", "recv", "close", "select":
		return true
	}
	return false
}

// chanOps lists the channel operations of a trace; those inside loops are reported in loops.
func chanOps(tr []*ai.Effect) (ops, loops []*ai.Effect) {
	Flatten(tr, func(ef *ai.Effect, ls []*ai.LoopSum) {
		if chanOp(ef) {
			if len(ls) > 0 {
				loops = append(loops, ef)
			} else {
				ops = append(ops, ef)
			}
		}
		if ef.Kind == "loop" && ef.Loop.Kind == "chanrange" {
			loops = append(loops, ef)
		}
	})
	return
}

// ask runs a requesting method. mayDecline: it may return without having asked.
func (s *Sc) ask(c comp, pkg, typ, method string, stop, mayDecline bool) []asked {
	fn := s.M(pkg, typ, method)
	s.On(fn)
	n0 := len(c.st.Trace)
	var r []asked
	for _, x := range s.Call(c.st.Clone(), fn, c.recv) {
		ops, loops := chanOps(x.St.Trace[n0:])
		gos := false
		for _, ef := range x.St.Trace[n0:] {
			gos = gos || ef.Kind == "go"
		}
		if !s.Ok(len(loops) == 0 && !gos, "one request, one answer", "%s communicates in a loop or another goroutine", method) {
			continue
		}
		if len(ops) == 0 && mayDecline {
			continue
		}
		if !s.Ok(len(ops) > 0 && ops[0].Kind == "send" && ops[0].Name != "select", "the request is made unconditionally", "%s does not always send its request", method) {
			continue
		}
		a := asked{x: x, req: ops[0], stop: stop, name: method}
		if len(ops) == 1 {
			n := s.ChanCap(ops[0].Recv)
			k, ok := int64(1), false
			if n != nil {
				k, ok = n.IntVal()
			}
			if !s.Ok(stop && ok && k == 0, "no return before the worker answered", "%s does not wait for the worker", method) {
				continue
			}
		} else {
			if !s.Ok(len(ops) == 2 && ops[1].Kind == "recv" && ops[1].Name != "select", "no return before the worker answered", "%s does not wait exactly once for the worker", method) {
				continue
			}
			a.ack = ops[1].Recv
		}
		r = append(r, a)
	}
	return r
}

// acks counts the answers on ch in a trace; other blocking operations and receives after the first are in rest.
func acks(tr []*ai.Effect, got *ai.Effect, ch *Term) (n int, rest []*ai.Effect) {
	ops, loops := chanOps(tr)
	rest = loops
	for i, ef := range ops {
		switch {
		case ef == got:
		case closesAfter(ops[:i], ef, got):
		case ch != nil && (ef.Kind == "send" && ef.Name != "select" || ef.Kind == "close") && ef.Recv == ch:
			n++
		case ef.Kind == "recv", ef.Kind == "send" && ef.Name != "select", ef.Kind == "close", ef.Kind == "send" && ef.Recv == ch:
			rest = append(rest, ef)
		}
	}
	return
}

// closesAfter: ef closes the channel that came with the request, after it was answered there.
func closesAfter(before []*ai.Effect, ef, got *ai.Effect) bool {
	if ef.Kind != "close" || got == nil || !ef.Recv.Mentions(got.Res) {
		return false
	}
	for _, b := range before {
		if b.Kind == "send" && b.Name != "select" && b.Recv == ef.Recv {
			return true
		}
	}
	return false
}

func gotFrom(tr []*ai.Effect, ch, msg *Term) *ai.Effect {
	for _, ef := range tr {
		if ef.Kind == "recv" && ef.Recv == ch && (msg == nil || ef.Res == msg) {
			return ef
		}
	}
	return nil
}

func opNames(s *Sc, efs []*ai.Effect) string {
	r := ""
	for _, ef := range efs {
		r += fmt.Sprintf(" %s at %s", ef.Kind, s.C.pos(ef.Pos))
	}
	return r
}

// answered follows the request to the worker: it is taken by exactly one loop, answered exactly once on every path.
// each is called for every iteration (or, for a stop, way out) that takes it.
func (s *Sc) answered(c comp, a asked, each func(l wloop, st *ai.State, tr []*ai.Effect, got *ai.Effect)) {
	st := a.x.St.Clone()
	ch, msg := a.req.Recv, a.req.Args[0]
	st.SetInbox(ch, msg)
	want := 1
	if a.ack == nil {
		want = 0
	}
	found := map[token.Pos]bool{}
	for _, l := range s.workerLoops(c, st) {
		n := 0
		for _, it := range l.Iters {
			got := gotFrom(it.New, ch, msg)
			if got == nil {
				continue
			}
			n++
			if !s.Ok(!a.stop, "a stop is obeyed", "the worker goes on after %s", a.name) {
				continue
			}
			k, rest := acks(it.New, got, a.ack)
			s.Ok(k == want, "a request is answered exactly once", "%s is answered %d times on a path", a.name, k)
			s.Ok(len(rest) == 0, "nothing else blocks the worker", "while answering %s the worker does%s", a.name, opNames(s, rest))
			if each != nil {
				each(l, it.St, it.New, got)
			}
		}
		for _, e := range l.ends {
			got := gotFrom(e.tail, ch, msg)
			if got == nil {
				continue
			}
			n++
			if !s.Ok(a.stop, "only a stop ends the worker", "the worker ends after %s", a.name) {
				continue
			}
			k, rest := acks(e.tail, got, a.ack)
			s.Ok(k == want, "a request is answered exactly once", "%s is answered %d times on a path", a.name, k)
			s.Ok(len(rest) == 0, "nothing is handled after a stop", "after %s the worker does%s", a.name, opNames(s, rest))
			s.Ok(e.x.Kind != ai.Panics, "a stop is obeyed", "the worker panics after %s", a.name)
			if each != nil {
				each(l, e.x.St, e.tail, got)
			}
		}
		if n > 0 {
			found[l.Pos] = true
		}
	}
	s.Ok(len(found) == 1, "one worker takes the request", "%d worker loops take what %s sends", len(found), a.name)
}

// matches: the received message is the given stop request.
func (s *Sc) isRequest(st *ai.State, got *ai.Effect, a asked) bool {
	if got.Recv != a.req.Recv {
		return false
	}
	m := a.req.Args[0]
	if m.Op != "struct" {
		return true
	}
	stt, ok := m.T.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i, f := range m.A {
		if k, ok := f.IntVal(); ok && k != 0 {
			return st.Is(s.Eq(s.Field(got.Res, i, stt.Field(i).Type()), f))
		}
	}
	return false
}

// workerRules checks an arbitrary iteration of the worker and every way it can end.
// all: every request the worker answers (found by ask).
func (s *Sc) workerRules(c comp, all []asked, f func(l wloop, it *ai.Iter)) {
	for _, l := range s.workerLoops(c, c.st) {
		main := false
		for _, it := range l.Iters {
			for _, a := range all {
				main = main || received(it, a.req.Recv)
			}
		}
		for _, e := range l.ends {
			for _, a := range all {
				main = main || gotFrom(e.tail, a.req.Recv, nil) != nil
			}
		}
		if !main {
			continue
		}
		for _, it := range l.Iters {
			ops, loops := chanOps(it.New)
			var rs []*ai.Effect
			for _, ef := range ops {
				if ef.Kind == "recv" && ef.Name != "select" || ef.Kind == "recv" && len(rs) == 0 {
					rs = append(rs, ef)
				}
			}
			s.Ok(len(loops) == 0, "the worker waits for nothing but its inputs", "it does%s inside a loop", opNames(s, loops))
			s.Ok(len(rs) <= 1, "one input per iteration", "it does%s in one iteration", opNames(s, rs))
			answers := map[*Term]int{}
			for i, ef := range ops {
				if ef.Kind == "close" || ef.Kind == "send" && ef.Name != "select" {
					if len(rs) == 1 && closesAfter(ops[:i], ef, rs[0]) {
						continue
					}
					ok := len(rs) == 1 && ef.Recv.Mentions(rs[0].Res)
					s.Ok(ok, "the worker waits for nothing but its inputs", "it does%s although nobody asked", opNames(s, []*ai.Effect{ef}))
					answers[ef.Recv]++
				}
			}
			for _, n := range answers {
				s.Ok(n == 1, "a request is answered exactly once", "one request is answered %d times", n)
			}
			if f != nil {
				f(l, it)
			}
		}
		for _, e := range l.ends {
			if !e.part && l.Kind == "chanrange" && !s.closes(l.Coll) {
				continue // the channel is never closed
			}
			ok := false
			for _, a := range all {
				if a.stop {
					if got := gotFrom(e.tail, a.req.Recv, nil); got != nil && s.isRequest(e.x.St, got, a) {
						ok = true
					}
				}
			}
			s.Ok(ok, "only a stop ends the worker", "the worker can end without having been stopped, at %s", s.C.pos(lastPos(e.tail, l.LoopSum)))
		}
	}
}

// closes: some code of the library closes a channel of this type.
func (s *Sc) closes(ch *Term) bool {
	if ch == nil || ch.T == nil {
		return true
	}
	for _, fn := range s.repoFuncs() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						if types.Identical(chanElem(ci.Common().Args[0].Type()), chanElem(ch.T)) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func chanElem(t types.Type) types.Type {
	if c, ok := t.Underlying().(*types.Chan); ok {
		return c.Elem()
	}
	return t
}

func lastPos(tr []*ai.Effect, l *ai.LoopSum) token.Pos {
	if len(tr) == 0 {
		return l.Pos
	}
	return tr[len(tr)-1].Pos
}

func checkC26(c *Ctx) {
	req := func(s *Sc, cs []comp, pkg, typ string, stop string, asks ...string) {
		for _, cm := range cs {
			all := s.ask(cm, pkg, typ, stop, true, false)
			for _, m := range asks {
				all = append(all, s.ask(cm, pkg, typ, m, false, pkg == HD)...)
			}
			s.Ok(len(all) > len(asks), "requests can be made", "%d requests", len(all))
			for _, a := range all {
				s.On(s.M(pkg, typ, a.name))
				if a.ack != nil {
					s.Ok(a.ack == a.req.Args[0] || a.req.Args[0].Mentions(a.ack) || a.stop, "the answer goes to the one who asked", "%s waits on %v", a.name, a.ack)
				}
				s.answered(cm, a, nil)
			}
			s.On(s.M(pkg, typ, stop))
			s.workerRules(cm, all, nil)
		}
	}
	c.Scen("requests to the polling sink", func(s *Sc) {
		req(s, s.construct(H, "NewJsonPollingSink", func(st *ai.State) []*Term {
			return []*Term{s.Sym("interval", i64T()), s.Sym("retain", i64T())}
		}), H, "JsonPollingSink", "ShutdownServer", "GetMetrics")
	})
	c.Scen("requests to the Librato sink", func(s *Sc) {
		s.sanitizers(HL, "SanitizationFunc")
		req(s, s.construct(HL, "New", func(st *ai.State) []*Term {
			return []*Term{s.Sym("user", strT()), s.Sym("key", strT()), s.Sym("prefix", strT())}
		}), HL, "Sink", "Stop")
	})
	c.Scen("requests to the Bugsnag sink", func(s *Sc) {
		req(s, s.construct(HB, "NewSink", func(st *ai.State) []*Term {
			return []*Term{s.Ptr(st, "config", s.PT(HB, "Config"))}
		}), HB, "Sink", "ShutdownServer")
	})
	c.Scen("requests to runtime metrics", func(s *Sc) {
		req(s, s.runtimeMetrics(), HR, "RuntimeMetrics", "Stop")
	})
	c.Scen("requests to healthd", func(s *Sc) {
		req(s, s.healthd(), HD, "HealthD", "Stop", "getAggregationSequence", "getHosts")
	})
}

// runtimeMetrics constructs and starts the runtime metrics.
func (s *Sc) runtimeMetrics() (r []comp) {
	cs := s.construct(HR, "NewRuntimeMetrics", func(st *ai.State) []*Term {
		return []*Term{s.Ptr(st, "stream", s.T(HR, "RuntimeMetrics").Underlying().(*types.Struct).Field(0).Type()), s.Sym("options", s.PT(HR, "Options"))}
	})
	start := s.M(HR, "RuntimeMetrics", "Start")
	for _, cm := range cs {
		for _, x := range s.Call(cm.st, start, cm.recv) {
			q := comp{st: x.St, recv: cm.recv}
			for _, ef := range x.St.Trace {
				if ef.Kind == "go" {
					q.gos = append(q.gos, ef)
				}
			}
			r = append(r, q)
		}
	}
	return
}

func (s *Sc) healthd() []comp {
	return s.construct(HD, "StartNewHealthD", func(st *ai.State) []*Term {
		return []*Term{s.Sym("hosts", types.NewSlice(strT())), s.Sym("addr", strT()), s.Ptr(st, "stream", s.PT(H, "Stream"))}
	})
}
