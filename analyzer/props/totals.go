package props

import (
	"fmt"
	"go/types"

	"verif/analyzer/ai"
)

// ---- C32: healthd's totals

func (h *hd) windowT() types.Type { return types.NewSlice(types.NewPointer(h.iaT)) }

// window: the ordered totals.
func (h *hd) window(st *ai.State) *Term { return st.Seq(h.field(st, h.windowT()), h.windowT()) }

// span: a sequence as a part of a content.
func (s *Sc) span(q *Term) (c, lo, hi *Term) {
	if q.Op == "seq" && len(q.A) == 1 && q.A[0].Op == "sp" {
		return q.A[0].A[0], q.A[0].A[1], q.A[0].A[2]
	}
	return q, s.Int(0), s.Len(q)
}

// limit: the number of totals kept.
func (h *hd) limit(st *ai.State) *Term {
	return h.s.F(st, h.cm.recv, h.s.T(HD, "HealthD"), "maxIntervals")
}

// sameTime compares two times by == or Equal, whichever the code has compared.
func (s *Sc) sameTime(st *ai.State, a, b *Term) (same, known bool) {
	if e, k := st.Holds(s.Eq(a, b)); k {
		return e, true
	}
	if a.ID() > b.ID() {
		a, b = b, a
	}
	return st.Holds(s.App("time.Equal", types.Typ[types.Bool], a, b))
}

func checkC32(c *Ctx) {
	c.Scen("recalculation", func(s *Sc) {
		for _, h := range s.hds() {
			n := 0
			for _, it := range h.l.Iters {
				l := h.recalcs(it)
				if l == nil {
					continue
				}
				n++
				it := it
				for _, jt := range l.Iters {
					jt := jt
					s.Msgs("the total of an interval is that of all its data", s.Cases(jt.St, func(q *ai.State) []string { return h.recalc(l, jt, q) }))
				}
				s.Ok(len(l.Breaks) == 0, "every marked interval is recalculated", "the loop at %s may end early", s.C.pos(l.Pos))
				s.Msgs("recalculated intervals are no longer marked", s.Cases(it.St, func(q *ai.State) []string { return h.unmarked(l, q) }))
			}
			s.Ok(n > 0, "totals are recalculated", "they are not")
		}
	})
	c.Scen("window", func(s *Sc) {
		for _, h := range s.hds() {
			pre := h.cm.st
			s.Ok(s.Len(h.window(pre)) == s.Int(0), "the window starts empty", "it does not")
			for _, it := range h.l.Iters {
				it := it
				s.Msgs("the window is limited to the retention", s.Cases(it.St, func(q *ai.State) []string { return h.limits(q) }))
				if h.recalcs(it) != nil {
					continue
				}
				s.Msgs("only recalculation changes the window", s.Cases(it.St, func(q *ai.State) []string { return h.trimmed(h.l.Head, q) }))
				if msg, _ := h.result(it); msg != nil {
					s.Msgs("data is stored per instant, instance and host", s.Cases(it.St, func(q *ai.State) []string { return h.takesData(q, it, msg) }))
				}
			}
		}
	})
}

// recalc: one marked interval is recalculated.
func (h *hd) recalc(l *ai.LoopSum, jt *ai.Iter, q *ai.State) []string {
	s := h.s
	pt := types.NewPointer(h.iaT)
	w0, w1 := h.window(l.Head), h.window(q)
	k := l.Key
	if h.field(q, h.storeT) != h.field(l.Head, h.storeT) || h.store(q) != h.store(l.Head) {
		return []string{"recalculating changes the stored data"}
	}
	c0, a0, b0 := s.span(w0)
	c1, a1, b1 := s.span(w1)
	if u := c1; u.Op == "aupd" && u.A[0] == c0 && a1 == a0 && b1 == b0 && a0 == s.Int(0) {
		// replaced
		old := q.At(l.Head.Mem()).Elem(w0, u.A[1], pt)
		if e, kn := s.sameTime(q, s.F(l.Head, old, h.iaT, "IntervalStart"), k); !kn || !e {
			return []string{fmt.Sprintf("the total of another interval is replaced (%v)", old)}
		}
		return h.total(l, jt, q, u.A[2], k)
	}
	// added, sorted, limited
	full, lo := c1, a1
	if b1 != s.Len(full) {
		return []string{fmt.Sprintf("the newest totals are dropped (%v)", w1)}
	}
	if !full.IsApp("sorted") {
		return []string{fmt.Sprintf("the totals become %v", w1)}
	}
	max := h.limit(q)
	n := s.Len(full)
	if over := q.Need(s.Lt(max, n)); over && lo != s.Sub(n, max) || !over && lo != s.Int(0) {
		return []string{fmt.Sprintf("%v of %v totals are dropped where %v are to be kept", lo, n, max)}
	}
	in := full.A[0]
	if in.Op != "seq" || len(in.A) != 2 {
		return []string{fmt.Sprintf("the sorted totals are %v", in)}
	}
	var add *Term
	for i, p := range in.A {
		o := in.A[1-i]
		if p.Op == "el" && o.Op == "sp" && o.A[0] == c0 && o.A[1] == a0 && o.A[2] == b0 {
			add = p.A[0]
		}
	}
	if add == nil {
		return []string{fmt.Sprintf("the sorted totals are %v from %v", in, w0)}
	}
	if !h.absent(l, jt, w0, k) {
		return []string{"a total is added although there may be one for its interval"}
	}
	ordered := false
	for _, ef := range jt.New {
		if ef.Kind == "sort" && ef.Args[1] == full.A[1] {
			ordered = true
			if m := s.ordered(q, ef, pt, func(r *ai.State, x, y *Term) *Term {
				return s.App("time.Before", types.Typ[types.Bool], s.F(r, x, h.iaT, "IntervalStart"), s.F(r, y, h.iaT, "IntervalStart"))
			}); m != "" {
				return []string{m}
			}
		}
	}
	if !ordered {
		return []string{"the totals are not sorted"}
	}
	return h.total(l, jt, q, add, k)
}

// absent: the path has compared every total's start with k.
func (h *hd) absent(l *ai.LoopSum, jt *ai.Iter, w0, k *Term) bool {
	s := h.s
	pt := types.NewPointer(h.iaT)
	for _, ef := range jt.New {
		m := ef.Loop
		if ef.Kind != "loop" || ef.Part || m.Kind != "index" || m.Lo != s.Int(0) || m.Hi != s.Len(w0) || m.Idx == nil {
			continue
		}
		all := len(m.Iters) > 0
		for _, nt := range m.Iters {
			st := s.F(m.Head, nt.St.At(m.Head.Mem()).Elem(w0, m.Idx, pt), h.iaT, "IntervalStart")
			e, kn := s.sameTime(nt.St, st, k)
			all = all && kn && !e
		}
		if all {
			return true
		}
	}
	return false
}

// total: o is the merge of all stored data for time k.
func (h *hd) total(outer *ai.LoopSum, jt *ai.Iter, q *ai.State, o, k *Term) []string {
	s := h.s
	pt := types.NewPointer(h.iaT)
	if o.Op != "obj" || !outer.Fresh(o) {
		return []string{fmt.Sprintf("the total is %v instead of a new aggregate", o)}
	}
	if v := s.F(q, o, h.iaT, "IntervalStart"); v != k {
		if e, kn := s.sameTime(q, v, k); !e || !kn {
			return []string{fmt.Sprintf("the total is labelled %v instead of its start", v)}
		}
	}
	var l *ai.LoopSum
	for _, ef := range jt.New {
		if ef.Kind != "loop" {
			continue
		}
		for _, c := range ef.Loop.Cells {
			r := ai.RootOf(c)
			if r == o || r == s.mapOf(q, o, "Jobs") {
				if l != nil && l != ef.Loop {
					return []string{"the total is changed by several loops"}
				}
				l = ef.Loop
			}
		}
	}
	if l == nil {
		return []string{"nothing is merged into the total"}
	}
	if !l.Full {
		return []string{"merging may end early"}
	}
	for _, f := range []string{"Jobs", "Timers", "Gauges", "Events", "EventErrs"} {
		_, mt := fieldPath(h.iaT, f)
		if m := s.F(l.Pre, o, h.iaT, f); m.Op != "obj" || l.Pre.MapContent(m, mt).Op != "mempty" {
			return []string{fmt.Sprintf("%s of the total does not start empty", f)}
		}
	}
	store := h.store(outer.Head)
	// mine: whether the data at this key of the store belongs to the interval
	mine := func(st *ai.State, r *ai.LoopSum) (bool, bool) {
		at, _ := h.keyParts(r.Key)
		return s.sameTime(st, at, k)
	}
	var bad []string
	switch l.Kind {
	case "maprange":
		if l.CollContent != store {
			return []string{"the total is merged from something else than the stored data"}
		}
		for _, nt := range l.Iters {
			m, kn := mine(nt.St, l)
			switch {
			case !kn:
				bad = append(bad, "data is merged whatever its interval")
			case m:
				bad = append(bad, s.Cases(nt.St, func(r *ai.State) []string { return s.mergedInto(l.Head, r, o, l.Val) })...)
			default:
				for _, a := range s.allWritten(nt.St, l.Head.Mem()) {
					if r := ai.RootOf(a); r.Op == "obj" && l.Fresh(r) {
						continue
					}
					bad = append(bad, fmt.Sprintf("data of another interval changes the total: %v", a))
				}
			}
		}
	case "index":
		if !l.Hi.IsApp("count") || l.Hi.A[0].Op != "each" || l.Lo != s.Int(0) {
			return []string{"not every collected aggregate is merged"}
		}
		each := l.Hi.A[0]
		r := s.LoopOf(each)
		if r.Kind != "maprange" || !r.Full || r.CollContent != store {
			return []string{"the merged data is collected from something else than the stored data"}
		}
		for i, items := range s.Items(each) {
			m, kn := mine(r.Iters[i].St, r)
			if !kn {
				return []string{"data is collected whatever its interval"}
			}
			if m != (len(items) == 1) || m && (items[0].Op != "el" || items[0].A[0] != r.Val) {
				return []string{fmt.Sprintf("for data whose being of the interval is %v, %v is merged", m, items)}
			}
		}
		for _, nt := range l.Iters {
			bad = append(bad, s.Cases(nt.St, func(st *ai.State) []string {
				return s.mergedInto(l.Head, st, o, st.Elem(s.SeqOf(each, h.windowT()), l.Idx, pt))
			})...)
		}
	default:
		bad = append(bad, "data is merged by a loop of unknown form")
	}
	return bad
}

func (s *Sc) mapOf(st *ai.State, o *Term, f string) *Term {
	return s.F(st, o, s.T(H, "IntervalAggregation"), f)
}

// unmarked: after recalculation nothing is marked.
func (h *hd) unmarked(l *ai.LoopSum, q *ai.State) []string {
	c := h.need(q)
	if c.Op == "mempty" {
		return nil
	}
	if c.Op == "layer" && c.A[0] == h.need(h.l.Head) && h.s.LoopOf(c) == l {
		all := true
		for _, items := range h.s.Items(c) {
			all = all && len(items) == 1 && items[0].Op == "delp" && items[0].A[1] == l.Key
		}
		if all {
			return nil
		}
	}
	return []string{fmt.Sprintf("the marked intervals become %v", c)}
}

// limits: the limit is the retention divided by the interval duration.
func (h *hd) limits(q *ai.State) []string {
	s := h.s
	t := s.T(HD, "HealthD")
	pre := h.l.Head
	r0, r1 := s.F(pre, h.cm.recv, t, "retain"), s.F(q, h.cm.recv, t, "retain")
	if r0 != r1 {
		return []string{"the retention changes"}
	}
	d0, d1 := h.duration(pre), h.duration(q)
	m0, m1 := h.limit(pre), h.limit(q)
	if d0 == d1 && m0 == m1 {
		return nil
	}
	if !q.Need(s.Eq(d0, s.Int(0))) {
		return []string{"the interval duration changes after it has become known"}
	}
	if !q.Need(s.Lt(s.Int(0), d1)) {
		return []string{fmt.Sprintf("the interval duration becomes %v", d1)}
	}
	if want := s.App("div", m1.T, r1, d1); !q.Is(s.Eq(m1, want)) {
		return []string{fmt.Sprintf("the number of totals kept becomes %v", m1)}
	}
	return nil
}

// trimmed: the window is unchanged but for the oldest totals beyond the limit.
func (h *hd) trimmed(pre, q *ai.State) []string {
	s := h.s
	w0, w1 := h.window(pre), h.window(q)
	if w0 == w1 {
		return nil
	}
	c0, a0, b0 := s.span(w0)
	c1, a1, b1 := s.span(w1)
	if c1 != c0 || b1 != b0 || a0 != s.Int(0) {
		return []string{fmt.Sprintf("the totals become %v", w1)}
	}
	max := h.limit(q)
	if over := q.Need(s.Lt(max, s.Len(w0))); !over || a1 != s.Sub(b0, max) {
		return []string{fmt.Sprintf("totals from %v on are kept where the limit is %v", a1, max)}
	}
	return nil
}
