package props

import (
	"fmt"
	"go/types"

	"verif/analyzer/ai"
)

// hd is healthd's aggregation worker.
type hd struct {
	s      *Sc
	cm     comp
	l      wloop
	ch     *Term // poll results
	hostT  types.Type
	storeT *types.Map // host data by time, instance and host
	needT  *types.Map // intervals to recalculate
	rt     types.Type // poll result
	iaT    types.Type
}

func (s *Sc) hds() (r []*hd) {
	for _, cm := range s.healthd() {
		s.realTime(cm.st, HD)
		s.ownAtomics(cm)
		for _, l := range s.workerOf(cm) {
			h := &hd{s: s, cm: cm, l: l, ch: s.responses(l), hostT: s.T(HD, "HostStatus"), rt: s.T(HD, "pollResponse"), iaT: s.T(H, "IntervalAggregation")}
			u := s.T(HD, "HealthD").Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				m, ok := u.Field(i).Type().Underlying().(*types.Map)
				switch {
				case !ok:
				case types.Identical(m.Elem(), types.NewPointer(h.iaT)):
					h.storeT = m
				case isTime(m.Key()):
					h.needT = m
				}
			}
			if h.storeT == nil || h.needT == nil {
				s.giveUp("healthd's state has an unknown form")
			}
			r = append(r, h)
		}
	}
	s.On(s.M(HD, "HealthD", "pollAndAggregate"))
	return
}

// ownAtomics: cells of healthd that only its worker stores to.
func (s *Sc) ownAtomics(cm comp) {
	t := s.T(HD, "HealthD")
	u := t.Underlying().(*types.Struct)
	own := map[*Term]bool{}
	for i := 0; i < u.NumFields(); i++ {
		if a, _ := s.Addr(cm.st, cm.recv, t, u.Field(i).Name()); a != nil {
			own[a] = true
		}
	}
	for _, fn := range s.exported(t) {
		for _, x := range s.Call(cm.st.Clone(), fn, cm.recv) {
			Flatten(x.St.Trace, func(ef *ai.Effect, _ []*ai.LoopSum) {
				if ef.Kind == "call" && ef.Name == "atomic.Store" {
					delete(own, ef.Args[0])
				}
			})
		}
	}
	s.OwnAtomics = own
}

// field is the value of the healthd field of this type.
func (h *hd) field(st *ai.State, t types.Type) *Term {
	return h.s.hdField(st, h.cm.recv, func(u types.Type) bool { return types.Identical(u.Underlying(), t.Underlying()) })
}

func (h *hd) store(st *ai.State) *Term { return st.MapContent(h.field(st, h.storeT), h.storeT) }
func (h *hd) need(st *ai.State) *Term  { return st.MapContent(h.field(st, h.needT), h.needT) }
func (h *hd) hosts(st *ai.State) *Term {
	return st.MapContent(h.field(st, h.s.hostMapT()), h.s.hostMapT())
}

// result: the poll result an iteration handles (nil: none, or the end of a round).
func (h *hd) result(it *ai.Iter) (msg *Term, end bool) {
	for _, ef := range it.New {
		if ef.Kind == "recv" && ef.Recv == h.ch {
			if v, k := it.St.Holds(h.s.Eq(ef.Res, h.s.Nil())); k && v {
				return nil, true
			}
			return ef.Res, false
		}
	}
	return nil, false
}

// statusWrites: the statuses whose fields the iteration changes.
func (h *hd) statusWrites(st *ai.State) map[*Term]bool {
	r := map[*Term]bool{}
	for _, a := range h.s.allWritten(st, h.l.Head.Mem()) {
		if a.Op == "fa" && a.A[0] != nil && !(ai.RootOf(a).Op == "obj" && h.l.Fresh(ai.RootOf(a))) {
			if b := a.A[0]; a.T != nil && types.Identical(a.T, h.hostT) {
				r[b] = true
			}
		}
	}
	return r
}

// showsPoll: the host's status shows the result; other hosts' statuses stay.
func (h *hd) showsPoll(st *ai.State, it *ai.Iter, msg *Term) []string {
	s := h.s
	pre := h.l.Head
	ok := st.Need(s.Eq(s.F(pre, msg, h.rt, "Code"), s.Int(200))) && st.Need(s.Eq(s.F(pre, msg, h.rt, "Err"), s.Nil()))
	host := s.F(pre, msg, h.rt, "HostPort")
	hs, has := st.Lookup(h.hosts(pre), host, types.NewPointer(h.hostT))
	known := st.Need(has)
	var bad []string
	for b := range h.statusWrites(it.St) {
		if !known || b != hs {
			bad = append(bad, fmt.Sprintf("the status %v changes although the result is for %v", b, host))
		}
	}
	if h.hosts(st) != h.hosts(pre) {
		bad = append(bad, "the set of hosts changes")
	}
	if !known || len(bad) > 0 {
		return bad
	}
	for f, w := range map[string]string{"LastCheckTime": "Timestamp", "LastNanos": "Nanos", "LastInstanceId": "InstanceId", "LastIntervalDuration": "IntervalDuration", "LastCode": "Code"} {
		if v := s.F(st, hs, h.hostT, f); !st.Is(s.Eq(v, s.F(pre, msg, h.rt, w))) {
			bad = append(bad, fmt.Sprintf("%s of the polled host is %v instead of the result's %s", f, v, w))
		}
	}
	if v := s.F(st, hs, h.hostT, "HostPort"); v != s.F(pre, hs, h.hostT, "HostPort") && v != host {
		bad = append(bad, fmt.Sprintf("the polled host is renamed to %v", v))
	}
	er := s.F(pre, msg, h.rt, "Err")
	want := st.ErrText(er)
	if st.Need(s.Eq(er, s.Nil())) {
		want = s.Str("")
	}
	if v := s.F(st, hs, h.hostT, "LastErr"); !st.Is(s.Eq(v, want)) {
		bad = append(bad, fmt.Sprintf("the error of the polled host is %v instead of %v", v, want))
	}
	for _, f := range []string{"FirstSuccessfulResponse", "LastSuccessfulResponse"} {
		old, v := s.F(pre, hs, h.hostT, f), s.F(st, hs, h.hostT, f)
		change := ok
		if f[0] == 'F' && ok {
			change = st.Need(s.Eq(old, s.Zero(old.T)))
		}
		if !change && v != old {
			bad = append(bad, fmt.Sprintf("%s changes to %v although the poll failed or was not the first success", f, v))
		}
		if change && !isClock(v, it.New) && v != s.F(pre, msg, h.rt, "Timestamp") {
			bad = append(bad, fmt.Sprintf("%s is %v after a successful poll", f, v))
		}
	}
	return bad
}

// keyParts: the fields of a key of the stored data.
func (h *hd) keyParts(key *Term) (at *Term, ids []*Term) {
	st := h.storeT.Key().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		v := h.s.Field(key, i, st.Field(i).Type())
		if isTime(st.Field(i).Type()) {
			at = v
		} else {
			ids = append(ids, v)
		}
	}
	return
}

// isUTC: t is the time x in UTC.
func isUTC(t, x *Term) bool {
	return t.IsApp("time.UTC") && (t.A[0] == x || isUTC(t.A[0], x)) || t == x && x.IsApp("time.UTC")
}

// rightKey: key stands for the interval start of e as reported by the result's instance and host.
func (h *hd) rightKey(key, start, inst, host *Term) string {
	at, ids := h.keyParts(key)
	if at == nil || !isUTC(at, start) {
		return fmt.Sprintf("the data is filed under time %v instead of its start in UTC", at)
	}
	if len(ids) != 2 || !(ids[0] == inst && ids[1] == host || ids[1] == inst && ids[0] == host) {
		return fmt.Sprintf("the data is filed under %v instead of its instance and host", ids)
	}
	return ""
}

// takesData: the interval data of the result is stored, and changed intervals are marked.
func (h *hd) takesData(st *ai.State, it *ai.Iter, msg *Term) []string {
	s := h.s
	pre := h.l.Head
	ok := st.Need(s.Eq(s.F(pre, msg, h.rt, "Code"), s.Int(200))) && st.Need(s.Eq(s.F(pre, msg, h.rt, "Err"), s.Nil()))
	s0, s1 := h.store(pre), h.store(it.St)
	n0, n1 := h.need(pre), h.need(it.St)
	if h.field(it.St, h.storeT) != h.field(pre, h.storeT) || h.field(it.St, h.needT) != h.field(pre, h.needT) {
		return []string{"a poll result replaces the stored data or the marked intervals"}
	}
	dur := s.F(pre, msg, h.rt, "IntervalDuration")
	known := h.duration(pre)
	valid := ok && st.Need(s.Lt(s.Int(0), dur)) && (st.Need(s.Eq(known, s.Int(0))) || st.Need(s.Eq(known, dur)))
	if !valid {
		if s1 != s0 || n1 != n0 {
			return []string{"data of an unusable poll result is stored"}
		}
		return nil
	}
	list := s.F(pre, msg, h.rt, "IntervalAggregations")
	pt := types.NewPointer(h.iaT)
	lt := types.NewSlice(pt)
	if st.Is(s.Eq(s.Len(list), s.Int(0))) && s1 == s0 && n1 == n0 {
		return nil
	}
	if s1.Op != "layer" || s1.A[0] != s0 || n1.Op != "layer" || n1.A[0] != n0 || s1.S != n1.S {
		return []string{fmt.Sprintf("the data of a usable poll result is not stored, or not marked: %v, %v", s1, n1)}
	}
	l := s.LoopOf(s1)
	if l.Kind != "index" || !l.Full || l.Lo != s.Int(0) || l.Hi != s.Len(list) {
		return []string{"not every interval of a poll result is stored"}
	}
	inst, host := s.F(pre, msg, h.rt, "InstanceId"), s.F(pre, msg, h.rt, "HostPort")
	var bad []string
	for i, jt := range l.Iters {
		hi, ni := s.Items(s1)[i], s.Items(n1)[i]
		jt := jt
		bad = append(bad, s.Cases(jt.St, func(q *ai.State) []string {
			e := q.Elem(l.Pre.Seq(list, lt), l.Idx, pt)
			if q.Need(s.Eq(e, s.Nil())) {
				if len(hi)+len(ni) > 0 {
					return []string{"an interval that is not there is stored"}
				}
				return nil
			}
			start := s.F(l.Head, e, h.iaT, "IntervalStart")
			var key *Term
			if len(hi) > 0 {
				if len(hi) != 1 || hi[0].Op != "updp" || hi[0].A[2] != e {
					return []string{fmt.Sprintf("an interval is stored as %v", hi)}
				}
				key = hi[0].A[1]
			} else {
				key = h.lookedUp(jt, l)
				if key == nil {
					return []string{"an interval is left out without looking whether it is known"}
				}
			}
			if m := h.rightKey(key, start, inst, host); m != "" {
				return []string{m}
			}
			old, has := q.Lookup(h.store(l.Head), key, pt)
			if q.Need(has) && q.Need(s.Eq(s.F(l.Head, old, h.iaT, "SerialNumber"), s.F(l.Head, e, h.iaT, "SerialNumber"))) {
				return nil
			}
			if len(hi) == 0 {
				return []string{"new data for an interval is not stored"}
			}
			at, _ := h.keyParts(key)
			if len(ni) != 1 || ni[0].Op != "updp" || ni[0].A[1] != at {
				return []string{fmt.Sprintf("an interval with new data is not marked for recalculation (%v)", ni)}
			}
			if v, k := ni[0].A[2].BoolVal(); k && !v {
				return []string{"an interval with new data is marked as not needing recalculation"}
			}
			return nil
		})...)
		for _, a := range s.allWritten(jt.St, l.Head.Mem()) {
			if n := ai.FieldName(a); a.Op == "fa" && n != "IntervalStart" && a.Mentions(list) {
				bad = append(bad, fmt.Sprintf("the data's %s is changed before it is stored", n))
			}
		}
		pt2 := q0(l, jt, s, list, lt, pt)
		if v := s.F(jt.St, pt2, h.iaT, "IntervalStart"); v != s.F(l.Head, pt2, h.iaT, "IntervalStart") && !isUTC(v, s.F(l.Head, pt2, h.iaT, "IntervalStart")) {
			bad = append(bad, fmt.Sprintf("the data's interval start is changed to %v", v))
		}
	}
	return bad
}

func q0(l *ai.LoopSum, it *ai.Iter, s *Sc, list *Term, lt, pt types.Type) *Term {
	return it.St.Elem(l.Pre.Seq(list, lt), l.Idx, pt)
}

// lookedUp: the key looked up in the stored data by the iteration.
func (h *hd) lookedUp(it *ai.Iter, l *ai.LoopSum) *Term {
	c := h.store(l.Head)
	var key *Term
	for a := range it.Conds {
		a.Any(func(t *Term) bool {
			if (t.Op == "lk" || t.Op == "has") && t.A[0] == c {
				key = t.A[1]
			}
			return false
		})
	}
	return key
}

// duration is the interval duration in effect.
func (h *hd) duration(st *ai.State) *Term {
	return h.s.F(st, h.cm.recv, h.s.T(HD, "HealthD"), "intervalDuration")
}

// recalcs: the loop of an iteration that goes through all marked intervals.
func (h *hd) recalcs(it *ai.Iter) *ai.LoopSum {
	for _, ef := range it.New {
		if ef.Kind == "loop" && !ef.Part && ef.Loop.Kind == "maprange" && ef.Loop.Full && ef.Loop.CollContent == h.need(h.l.Head) {
			return ef.Loop
		}
	}
	return nil
}

// triggers: the channels on which goroutines started by the worker ask it to recalculate.
func (h *hd) debouncer() (doit, need *Term) {
	for _, ef := range h.l.Pre.Trace {
		if ef.Kind != "go" || ef.Fn.Op != "func" {
			continue
		}
		var d, n *Term
		for i, p := range ef.Fn.F.Params {
			if ch, ok := p.Type().Underlying().(*types.Chan); ok && i < len(ef.Args) {
				if ch.Dir() == types.SendOnly {
					d = ef.Args[i]
				} else if ch.Dir() == types.RecvOnly {
					n = ef.Args[i]
				}
			}
		}
		if d != nil && n != nil {
			return d, n
		}
	}
	h.s.giveUp("no goroutine debounces recalculations")
	return
}

func checkC31(c *Ctx) {
	c.Scen("poll results", func(s *Sc) {
		for _, h := range s.hds() {
			n := 0
			_, need := h.debouncer()
			for _, it := range h.l.Iters {
				msg, _ := h.result(it)
				if msg == nil {
					continue
				}
				n++
				it := it
				s.Msgs("the status of a host shows its latest poll", s.Cases(it.St, func(st *ai.State) []string { return h.showsPoll(st, it, msg) }))
				s.Msgs("the data of a successful poll is stored", s.Cases(it.St, func(st *ai.State) []string { return h.takesData(st, it, msg) }))
				asks := h.need(it.St) == h.need(h.l.Head)
				for _, ef := range it.New {
					asks = asks || ef.Kind == "send" && ef.Recv == need
					for _, ch := range ef.Args {
						asks = asks || ef.Kind == "select" && ch == need
					}
				}
				s.Ok(asks, "new data asks for a recalculation", "nothing is asked for")
			}
			s.Ok(n > 0, "poll results are handled", "none is")
		}
	})
	c.Scen("other work of the worker", func(s *Sc) {
		for _, h := range s.hds() {
			doit, _ := h.debouncer()
			ended, told := 0, 0
			for _, it := range h.l.Iters {
				msg, end := h.result(it)
				if msg != nil {
					continue
				}
				for b := range h.statusWrites(it.St) {
					s.Ok(false, "only polls change a host's status", "%v changes", b)
				}
				recalc := h.recalcs(it) != nil
				if end {
					ended++
					s.Ok(recalc, "the end of a round recalculates what changed", "it does not")
				}
				if received(it, doit) {
					told++
					s.Ok(recalc, "a trigger recalculates what changed", "it does not")
				}
				same := h.need(it.St) == h.need(h.l.Head) && h.field(it.St, h.needT) == h.field(h.l.Head, h.needT)
				s.Ok(same || recalc, "an interval stays marked until it is recalculated", "marked intervals change at %s", s.C.pos(lastPos(it.New, h.l.LoopSum)))
				s.Msgs("stored data is kept", s.Cases(it.St, func(st *ai.State) []string { return h.keeps(st, it) }))
			}
			s.Ok(ended > 0 && told > 0, "changed intervals are recalculated", "after rounds: %d, after triggers: %d", ended, told)
		}
	})
}

// keeps: without a new result stored data is at most dropped when it is old.
func (h *hd) keeps(st *ai.State, it *ai.Iter) []string {
	s := h.s
	s0, s1 := h.store(h.l.Head), h.store(it.St)
	if h.field(it.St, h.storeT) != h.field(h.l.Head, h.storeT) {
		return []string{"the stored data is replaced"}
	}
	if s0 == s1 {
		return nil
	}
	if s1.Op != "layer" || s1.A[0] != s0 {
		return []string{fmt.Sprintf("the stored data becomes %v", s1)}
	}
	l := s.LoopOf(s1)
	if l.Kind != "maprange" || l.CollContent != s0 {
		return []string{"stored data is changed by a loop over something else"}
	}
	var bad []string
	for i, jt := range l.Iters {
		items := s.Items(s1)[i]
		if len(items) == 0 {
			continue
		}
		if len(items) != 1 || items[0].Op != "delp" && items[0].Op != "del" {
			bad = append(bad, fmt.Sprintf("stored data is changed: %v", items))
			continue
		}
		at, _ := h.keyParts(l.Key)
		ok := false
		for _, n := range append(append([]*ai.Effect{}, it.New...), jt.New...) {
			if n.Kind == "call" && n.Name == "time.Now" {
				for k := int64(2); k <= 100; k++ {
					lim := s.Lin(0, k, h.duration(l.Head))
					if v, kn := jt.St.Holds(s.Lt(lim, s.App("time.Sub", i64T(), n.Res, at))); kn && v {
						ok = true
					}
				}
			}
		}
		if !ok {
			bad = append(bad, fmt.Sprintf("stored data is dropped although it may be recent (at %s)", s.C.pos(l.Pos)))
		}
	}
	return bad
}
