package props

import (
	"fmt"
	"go/types"

	"verif/analyzer/ai"
)

// rounds: the polling rounds the worker starts.
type round struct {
	cm comp
	l  wloop
	st *ai.State  // where it is started
	g  *ai.Effect // the go statement
}

// workerOf: the loop of the aggregation worker (it answers the requests).
func (s *Sc) workerOf(cm comp) (r []wloop) {
	reqs := s.ask(cm, HD, "HealthD", "getHosts", false, true)
	for _, l := range s.workerLoops(cm, cm.st) {
		main := false
		for _, it := range l.Iters {
			for _, a := range reqs {
				main = main || a.req != nil && received(it, a.req.Recv)
			}
		}
		if main {
			r = append(r, l)
		}
	}
	s.Ok(len(r) > 0, "there is an aggregation worker", "no loop answers requests")
	return
}

// responses: the channel on which the worker receives poll results.
func (s *Sc) responses(l wloop) *Term {
	pt := s.PT(HD, "pollResponse")
	var ch *Term
	for _, it := range l.Iters {
		for _, ef := range it.New {
			if ef.Kind == "recv" && ef.Res != nil && ef.Res.T != nil && types.Identical(ef.Res.T, pt) {
				if ch != nil && ch != ef.Recv {
					s.giveUp("results come from several channels")
				}
				ch = ef.Recv
			}
		}
	}
	if ch == nil {
		s.giveUp("the worker does not receive poll results")
	}
	return ch
}

// startsRound: the goroutine sends poll results.
func (s *Sc) startsRound(st *ai.State, g *ai.Effect, ch *Term) bool {
	for _, a := range g.Args {
		if a == ch {
			return true
		}
	}
	return g.Fn.Any(func(t *Term) bool { return t == ch || t.Op == "obj" && st.CellOf(t) == ch })
}

func (s *Sc) rounds() (r []round) {
	for _, cm := range s.healthd() {
		for _, l := range s.workerOf(cm) {
			ch := s.responses(l)
			n := 0
			for _, ef := range l.Pre.Trace {
				if ef.Kind == "go" && s.startsRound(l.Pre, ef, ch) {
					n++
					r = append(r, round{cm, l, l.Pre.WithFacts(ef.Fs).At(ef.Mem), ef})
				}
			}
			s.Ok(n == 1, "polling starts with a round", "%d rounds", n)
			ticked := false
			for _, it := range l.Iters {
				n, tick := 0, false
				Flatten(it.New, func(ef *ai.Effect, ls []*ai.LoopSum) {
					if ef.Kind == "recv" && ticks(ef.Recv, l.Pre.Trace, it.New) {
						tick = true
					}
					if ef.Kind == "go" && s.startsRound(it.St, ef, ch) {
						n++
						if len(ls) > 0 {
							n++
						}
						if len(r) < 2 {
							r = append(r, round{cm, l, it.St.WithFacts(ef.Fs).At(ef.Mem), ef})
						}
					}
				})
				ticked = ticked || tick
				if tick {
					s.Ok(n == 1, "every tick starts a round", "%d rounds", n)
				}
			}
			s.Ok(ticked, "hosts are polled periodically", "no ticker drives the worker")
		}
	}
	s.Ok(len(r) > 0, "hosts are polled", "nothing polls them")
	return
}

// wgOps: the uses of wait groups in a trace.
func wgOps(tr []*ai.Effect, name string) (r []*ai.Effect) {
	for _, ef := range tr {
		if ef.Kind == "call" && ef.Name == "(*sync.WaitGroup)."+name {
			r = append(r, ef)
		}
	}
	return
}

// round: every host is polled by one goroutine, and the marker follows all of them.
func (s *Sc) round(r round) []string {
	ch := s.responses(r.l)
	mt := s.hostMapT()
	st := r.st.Clone()
	st.Trace = nil
	hosts := st.MapContent(s.hdField(st, r.cm.recv, func(t types.Type) bool { return types.Identical(t.Underlying(), mt) }), mt)
	var bad []string
	for _, x := range s.runGo(st, r.g) {
		if x.Kind == ai.Panics {
			return []string{"a round can panic"}
		}
		var loop, wait, mark *ai.Effect
		for _, ef := range x.St.Trace {
			switch {
			case ef.Kind == "loop":
				gos := 0
				for _, y := range flat(ef) {
					if y.Kind == "go" {
						gos++
					}
					if chanOp(y) {
						bad = append(bad, fmt.Sprintf("a round does%s inside a loop", opNames(s, []*ai.Effect{y})))
					}
				}
				if gos == 0 {
					continue
				}
				if loop != nil {
					bad = append(bad, "hosts are polled several times in one round")
				}
				loop = ef
			case ef.Kind == "go":
				bad = append(bad, fmt.Sprintf("a round starts another goroutine at %s", s.C.pos(ef.Pos)))
			case ef.Kind == "call" && ef.Name == "(*sync.WaitGroup).Wait":
				if loop != nil {
					wait = ef
				}
			case ef.Kind == "send" && ef.Recv == ch && ef.Args[0].Op == "nil" && ef.Name != "select":
				if loop == nil || wait == nil || mark != nil {
					bad = append(bad, fmt.Sprintf("the end of the round is reported at %s before all hosts were polled, or twice", s.C.pos(ef.Pos)))
				}
				mark = ef
			case chanOp(ef):
				bad = append(bad, fmt.Sprintf("a round does%s", opNames(s, []*ai.Effect{ef})))
			}
		}
		if loop == nil {
			// there may be no hosts at all
			if hosts.Op != "mempty" {
				bad = append(bad, "no host is polled")
			}
			continue
		}
		if mark == nil {
			bad = append(bad, "the end of the round is not reported")
			continue
		}
		l := loop.Loop
		if l.Kind != "maprange" || !l.Full || loop.Part || l.CollContent != hosts {
			bad = append(bad, "not every host is polled")
			continue
		}
		adds := wgOps(x.St.Trace, "Add")
		for _, it := range l.Iters {
			var g *ai.Effect
			n := 0
			for _, ef := range it.New {
				if ef.Kind == "go" {
					g = ef
					n++
				}
				if ef.Kind == "loop" && len(flat(ef)) > 0 {
					for _, y := range flat(ef) {
						if y.Kind == "go" {
							n += 2
						}
					}
				}
			}
			if n != 1 {
				bad = append(bad, fmt.Sprintf("a host is polled by %d goroutines", n))
				continue
			}
			// registered with the wait group before the goroutine starts
			in := wgOps(it.New, "Add")
			switch {
			case len(in) == 1 && len(adds) == 0:
				if in[0].Args[0] != wait.Args[0] || in[0].Args[1] != s.Int(1) || !earlier(it.New, in[0], g) {
					bad = append(bad, "the round does not wait for each goroutine")
				}
			case len(in) == 0 && len(adds) == 1:
				if adds[0].Args[0] != wait.Args[0] || !st.Is(s.Eq(adds[0].Args[1], s.Len(l.CollContent))) || !earlier(x.St.Trace, adds[0], loop) {
					bad = append(bad, "the round does not wait for each goroutine")
				}
			default:
				bad = append(bad, "the round does not wait for each goroutine")
			}
			bad = append(bad, s.pollHost(r, ch, it, g, l.Key, l.Val, wait.Args[0])...)
		}
	}
	return bad
}

func earlier(tr []*ai.Effect, a, b *ai.Effect) bool {
	for _, ef := range tr {
		if ef == a {
			return true
		}
		if ef == b {
			return false
		}
	}
	return false
}

// pollHost: the goroutine for one host.
func (s *Sc) pollHost(r round, ch *Term, it *ai.Iter, g *ai.Effect, key, hs, wg *Term) (bad []string) {
	pt := s.PT(HD, "pollResponse")
	rt := s.T(HD, "pollResponse")
	st := it.St.WithFacts(g.Fs).At(g.Mem).Clone()
	st.Trace = nil
	s.realTime(st, HD)
	host := s.F(st, hs, s.PT(HD, "HostStatus"), "HostPort")
	// statuses are filed under their own host (checked by hostsKnown)
	st.Assume(s.Eq(host, key), true)
	stream := s.hdField(st, r.cm.recv, func(t types.Type) bool { return types.Identical(t, s.PT(H, "Stream")) })
	sinks := s.F(st, stream, s.T(H, "Stream"), "Sinks")
	for _, x := range s.runGo(st, g) {
		if x.Kind == ai.Panics {
			bad = append(bad, "polling a host can panic")
			continue
		}
		bad = append(bad, s.Cases(x.St, func(q *ai.State) []string { return s.pollResult(q, x.St.Trace, ch, pt, rt, host, key, wg, sinks) })...)
	}
	return
}

func (s *Sc) pollResult(st *ai.State, tr []*ai.Effect, ch *Term, pt, rt types.Type, host, key, wg, sinks *Term) []string {
	var send, done, get, read, dec, unmade *ai.Effect
	n := 0
	for _, ef := range tr {
		switch {
		case ef.Kind == "send" && ef.Recv == ch && ef.Name != "select":
			if send != nil {
				return []string{"a host's result is delivered twice"}
			}
			send = ef
		case chanOp(ef):
			return []string{fmt.Sprintf("polling a host does%s", opNames(s, []*ai.Effect{ef}))}
		case ef.Kind == "go":
			return []string{fmt.Sprintf("polling a host starts a goroutine at %s", s.C.pos(ef.Pos))}
		case ef.Kind == "call" && ef.Name == "(*sync.WaitGroup).Done" && ef.Args[0] == wg:
			if send == nil {
				return []string{"the round may end before a host's result is delivered"}
			}
			done = ef
			n++
		case ef.Kind == "call" && isHTTPSend(ef.Name):
			if get != nil {
				return []string{"a host is requested twice in one round"}
			}
			get = ef
		case ef.Kind == "call" && ef.Name == "net/http.NewRequest" && !succeeded(ef):
			unmade = ef
		case ef.Kind == "call" && ef.Name == "io.ReadAll":
			read = ef
		case ef.Kind == "call" && ef.Name == "json.Unmarshal":
			dec = ef
		case ef.Kind == "loop":
			for _, y := range flat(ef) {
				if chanOp(y) || y.Kind == "call" && isHTTPSend(y.Name) {
					return []string{fmt.Sprintf("a host is polled in a loop at %s", s.C.pos(y.Pos))}
				}
			}
		}
	}
	if send == nil {
		return []string{"no result is delivered for a host"}
	}
	if done == nil || n != 1 {
		return []string{"the round never ends: a poll is not counted as done exactly once"}
	}
	if get == nil && unmade == nil {
		return []string{"a host is not requested"}
	}
	if get == nil {
		get = unmade
	} else if m := s.bounded(st, get); m != "" {
		return []string{m}
	}
	url, method, _ := s.sentTo(st, tr, get)
	if get == unmade {
		url, method = get.Args[1], get.Args[0]
	}
	if url == nil || !st.Is(s.Eq(url, s.Cat(s.Str("http://"), host, s.Str("/health")))) && !st.Is(s.Eq(url, s.Cat(s.Str("http://"), key, s.Str("/health")))) {
		return []string{fmt.Sprintf("the request for a host goes to %v", url)}
	}
	if m, ok := method.StrVal(); !ok || m != "GET" && m != "" {
		return []string{fmt.Sprintf("the request's method is %v", method)}
	}
	at := st.At(send.Mem)
	msg := send.Args[0]
	if msg.Op != "obj" {
		return []string{fmt.Sprintf("the result delivered is %v", msg)}
	}
	var bad []string
	if v := s.F(at, msg, rt, "HostPort"); !st.Is(s.Eq(v, host)) && !st.Is(s.Eq(v, key)) {
		bad = append(bad, fmt.Sprintf("the result is for host %v", v))
	}
	// the error
	var fails []*Term
	for _, ef := range []*ai.Effect{get, read, dec} {
		if ef != nil && !succeeded(ef) {
			fails = append(fails, ef.Res.A[len(ef.Res.A)-1])
		}
	}
	er := s.F(at, msg, rt, "Err")
	if len(fails) > 0 {
		ok := false
		for _, f := range fails {
			ok = ok || er == f || s.wraps(at, er, f)
		}
		if !ok {
			bad = append(bad, fmt.Sprintf("a failed poll is reported with error %v", er))
		}
	} else if er.Op != "nil" && !st.Is(s.Eq(er, s.Nil())) {
		bad = append(bad, fmt.Sprintf("a poll that worked is reported with error %v", er))
	}
	if w := s.F(at, msg, rt, "Timestamp"); !isClock(w, tr) {
		bad = append(bad, fmt.Sprintf("the result's time is %v", w))
	}
	if succeeded(get) {
		resp := get.Res.A[0]
		rsT := resp.T
		if rsT == nil {
			return []string{"the response is unknown"}
		}
		code := s.F(st, resp, rsT, "StatusCode")
		if v := s.F(at, msg, rt, "Code"); v != code {
			bad = append(bad, fmt.Sprintf("the result's status code is %v", v))
		}
		body := s.F(st, resp, rsT, "Body")
		if read != nil && !mentionsAny(read.Args, body) {
			bad = append(bad, "something else than the answer is read")
		}
		if read != nil && succeeded(read) || read == nil {
			if dec == nil {
				if v, k := st.Holds(s.Eq(code, s.Int(200))); !k || v {
					bad = append(bad, "the answer is not decoded")
				}
			} else {
				src := dec.Args[0]
				if !(read != nil && src == read.Res.A[0] || src.Mentions(body)) {
					bad = append(bad, fmt.Sprintf("%v is decoded instead of the answer", src))
				}
				if succeeded(dec) {
					bad = append(bad, s.decodedInto(st, at, unbox(dec.Args[1]), msg, rt)...)
				}
			}
		}
	} else if v := s.F(at, msg, rt, "Code"); !st.Is(s.Eq(v, s.Int(0))) {
		bad = append(bad, fmt.Sprintf("the status code of an unanswered request is %v", v))
	}
	// completion
	bs, m := s.broadcasts(st, tr, sinks)
	if m != "" {
		return append(bad, m)
	}
	k := 0
	want := s.ConstInt(H, "Success")
	if len(fails) > 0 {
		want = s.ConstInt(H, "Error")
	}
	for _, b := range bs {
		if b.Method == "EmitComplete" {
			k++
			for _, c := range b.Calls {
				if c.Args[1] != want {
					bad = append(bad, fmt.Sprintf("the poll is completed with status %v instead of %v", c.Args[1], want))
				}
			}
		}
	}
	if k != 1 {
		bad = append(bad, fmt.Sprintf("the poll is completed %d times", k))
	}
	return bad
}

func mentionsAny(ts []*Term, x *Term) bool {
	for _, t := range ts {
		if t == x || t.Mentions(x) {
			return true
		}
	}
	return false
}

// isClock: the time read in the trace.
func isClock(t *Term, tr []*ai.Effect) bool {
	for _, ef := range tr {
		if ef.Kind == "call" && ef.Name == "time.Now" && ef.Res == t {
			return true
		}
	}
	return false
}

// wraps: the error v is an UnmutedError or MutedError around f.
func (s *Sc) wraps(st *ai.State, v, f *Term) bool {
	o := unbox(v)
	if o.Op != "obj" {
		return false
	}
	for _, n := range []string{"UnmutedError", "MutedError"} {
		if t := s.T(H, n); types.Identical(o.T, t) {
			return s.F(st, o, t, "Err") == f
		}
	}
	return false
}

// bounded: a request cannot hang forever.
func (s *Sc) bounded(st *ai.State, get *ai.Effect) string {
	if len(get.Args) > 0 && get.Args[0].Op == "obj" {
		if idx, _ := fieldPath(get.Args[0].T, "Timeout"); idx != nil {
			if st.Is(s.Lt(s.Int(0), s.F(st.At(get.Mem), get.Args[0], get.Args[0].T, "Timeout"))) {
				return ""
			}
		}
	}
	return fmt.Sprintf("the request at %s has no time limit: a silent host gets no result", s.C.pos(get.Pos))
}

// decodedInto: what was decoded into p is what the result carries.
func (s *Sc) decodedInto(st, at *ai.State, p, msg *Term, rt types.Type) []string {
	ht := s.T(H, "HealthAggregationsResponse")
	u := ht.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		n := u.Field(i).Name()
		if a, b := s.F(at, msg, rt, n), s.F(st, p, ht, n); a != b {
			return []string{fmt.Sprintf("%s of the result is %v instead of what was decoded", n, a)}
		}
	}
	return nil
}

// hostsKnown: every monitored host has a status filed under its name.
func (s *Sc) hostsKnown() {
	mt := s.hostMapT()
	pt := s.PT(HD, "HostStatus")
	for _, cm := range s.healthd() {
		st := cm.st
		hosts := st.MapContent(s.hdField(st, cm.recv, func(t types.Type) bool { return types.Identical(t.Underlying(), mt) }), mt)
		if hosts.Op == "mempty" {
			continue
		}
		if !s.Ok(hosts.Op == "layer", "every given host is monitored", "hosts are %v", hosts) {
			continue
		}
		l := s.LoopOf(hosts)
		names := s.Sym("hosts", types.NewSlice(strT()))
		s.Ok(l.Kind == "index" && l.Full && st.Is(s.Eq(l.Lo, s.Int(0))) && st.Is(s.Eq(l.Hi, s.Len(names))) && hosts.A[0].Op == "mempty",
			"every given host is monitored", "the loop at %s does not cover all hosts", s.C.pos(l.Pos))
		for i, items := range s.Items(hosts) {
			it := l.Iters[i]
			n := it.St.Elem(it.St.Seq(names, types.NewSlice(strT())), l.Idx, strT())
			if len(items) == 0 && s.duplicate(it, n) {
				continue
			}
			if s.Ok(len(items) == 1 && items[0].Op == "updp" && items[0].A[1] == n && items[0].A[2].Op == "obj", "every given host is monitored", "%v is filed", items) {
				v := s.F(it.St, items[0].A[2], pt, "HostPort")
				s.Ok(v == n, "a host's status has its name", "it is %v", v)
			}
		}
	}
}

// duplicate: the iteration is skipped because the host is known already.
func (s *Sc) duplicate(it *ai.Iter, n *Term) bool {
	for a, v := range it.Conds {
		if a.Op == "has" && v && a.A[1] == n {
			return true
		}
		if a.Op == "eq" && !v && a.Mentions(n) && a.Any(func(t *Term) bool { return t.Op == "lk" && t.A[1] == n }) {
			return true
		}
	}
	return false
}

func checkC30(c *Ctx) {
	c.Scen("monitored hosts", func(s *Sc) { s.hostsKnown() })
	c.Scen("polling rounds", func(s *Sc) {
		s.noFrames()
		for _, r := range s.rounds() {
			if r.g.Fn.F != nil {
				s.On(r.g.Fn.F)
			}
			s.Msgs("every host gives one result, and the marker follows all of them", s.round(r))
		}
	})
}
