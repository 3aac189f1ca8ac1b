package props

import (
	"fmt"
	"go/types"

	"verif/analyzer/ai"
)

// ---------- deep, independent copies

// sameV: dv (read in post) is an equal copy of sv (read in pre) that shares no mutable memory with it.
func (s *Sc) sameV(pre *ai.State, sv *Term, post *ai.State, dv *Term, t types.Type, where string) string {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if !s.IsRepoStruct(t) {
			break
		}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if m := s.sameV(pre, s.Field(sv, i, f.Type()), post, s.Field(dv, i, f.Type()), f.Type(), where+"."+f.Name()); m != "" {
				return m
			}
		}
		return ""
	case *types.Pointer:
		if post.Is(s.Eq(sv, s.Nil())) {
			if post.Is(s.Eq(dv, s.Nil())) {
				return ""
			}
			return where + " is set although the original has none"
		}
		if dv.Op != "obj" {
			return fmt.Sprintf("%s is %v instead of a copy of its own", where, dv)
		}
		et := u.Elem()
		return s.sameV(pre, pre.Load(sv, et), post, post.Load(dv, et), et, where)
	case *types.Map:
		if dv.Op != "obj" {
			if dv.Op == "nil" && post.Is(s.Eq(sv, s.Nil())) {
				return ""
			}
			return fmt.Sprintf("%s is %v instead of a map of its own", where, dv)
		}
		return s.sameMap(pre, pre.MapContent(sv, t), post, post.MapContent(dv, t), u, where)
	case *types.Slice:
		if dv.Op == "slice" && dv.A[0].Op == "obj" && post.Is(s.Eq(post.Seq(dv, t), pre.Seq(sv, t))) {
			return ""
		}
		return fmt.Sprintf("%s is %v instead of a copy of its own", where, dv)
	case *types.Chan, *types.Signature:
		return ""
	}
	if post.Is(s.Eq(sv, dv)) {
		return ""
	}
	return fmt.Sprintf("%s is %v instead of %v", where, dv, sv)
}

func (s *Sc) sameMap(pre *ai.State, cs *Term, post *ai.State, cd *Term, t *types.Map, where string) string {
	if cd == cs {
		if types.IsInterface(t.Elem()) || !isPointerLike(t.Elem()) {
			return ""
		}
	}
	if cd.Op == "mempty" {
		if cs.Op == "mempty" || post.Is(s.Eq(s.Len(cs), s.Int(0))) {
			return ""
		}
		return where + " is not copied"
	}
	if cd.Op != "layer" || cd.A[0].Op != "mempty" {
		return fmt.Sprintf("%s is filled as %v", where, cd)
	}
	l := s.LoopOf(cd)
	if l.Kind != "maprange" || l.CollContent != cs {
		return fmt.Sprintf("%s is filled from %v instead of the original's %v", where, l.CollContent, cs)
	}
	if !l.Full {
		return fmt.Sprintf("the copying of %s can stop early", where)
	}
	for i, ups := range s.Items(cd) {
		it := l.Iters[i]
		if len(ups) == 0 {
			if it.St.Is(s.Eq(l.Val, s.Nil())) && isPointerLike(t.Elem()) {
				continue
			}
			return where + ": some entries are not copied"
		}
		if len(ups) != 1 || ups[0].Op != "updp" || ups[0].A[1] != l.Key {
			return fmt.Sprintf("%s: an entry is stored as %v", where, ups)
		}
		if m := s.sameV(l.Head, l.Val, it.St, ups[0].A[2], t.Elem(), where+"[k]"); m != "" {
			return m
		}
	}
	return ""
}

func isPointerLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan:
		return true
	}
	return false
}

// onlyFreshWrites: every location written since pre belongs to an object created by the analysed call.
func (s *Sc) onlyFreshWrites(st *ai.State, m0 *ai.Mem, n0 int) string {
	for _, a := range st.Written(m0) {
		r := ai.RootOf(a)
		if r.Op != "obj" || r.ID() <= n0 {
			if v, ok := st.Raw(a); ok && v.Op == "init" && v.A[0] == a {
				continue
			}
			return fmt.Sprintf("%v is changed", a)
		}
	}
	for _, m := range st.Mods() {
		return fmt.Sprintf("%v is changed in a loop", m.Addr)
	}
	return ""
}

func checkC12(c *Ctx) {
	c.Scen("cloning an interval", func(s *Sc) {
		fn := s.M(H, "IntervalAggregation", "Clone")
		s.On(fn)
		st := s.NewState()
		t := s.T(H, "IntervalAggregation")
		ia := s.Ptr(st, "ia", s.PT(H, "IntervalAggregation"))
		for _, f := range []string{"Jobs", "Timers", "Gauges", "Events", "EventErrs"} {
			st.Assume(s.Eq(s.F(st, ia, t, f), s.Nil()), false)
		}
		pre := st.Clone()
		n0 := s.Terms()
		for _, x := range s.Call(st, fn, ia) {
			m := s.sameV(pre, ia, x.St, x.Vals[0], types.NewPointer(t), "the clone")
			s.Ok(m == "", "equal and independent copy", "%s", m)
			m = s.onlyFreshWrites(x.St, pre.Mem(), n0)
			s.Ok(m == "", "the original is not changed", "%s", m)
			// using the clone must be possible: its maps exist
			for _, f := range []string{"Jobs", "Timers", "Gauges", "Events", "EventErrs"} {
				v := s.F(x.St, x.Vals[0], t, f)
				s.Ok(v.Op == "obj", "the clone's maps exist", "%s of the clone is %v", f, v)
			}
		}
	})
}

// ---------- merging

type merger struct {
	s   *Sc
	src *Term
	n0  int
}

// oldOf resolves values read from the target's map at the head of a merge loop.
func (m *merger) intMerged(post *ai.State, got, old, src *Term, where string) string {
	want := m.s.Add(old, src)
	if post.Is(m.s.Eq(got, want)) {
		return ""
	}
	return fmt.Sprintf("%s becomes %v instead of the sum of both sides", where, got)
}

// timer compares a merged timer; old may be nil (no timer before).
func (m *merger) timer(pre, post *ai.State, into, src *Term, fresh bool, t types.Type, where string) []string {
	s := m.s
	zero := func(f string) *Term {
		if f == "NanosSumSquares" {
			return s.Zero(f64T())
		}
		return s.Int(0)
	}
	old := func(f string) *Term {
		if fresh {
			return zero(f)
		}
		return s.F(pre, into, t, f)
	}
	sv := func(f string) *Term { return s.F(pre, src, t, f) }
	var bad []string
	for _, f := range []string{"Count", "NanosSum"} {
		if r := m.intMerged(post, s.F(post, into, t, f), old(f), sv(f), where+"."+f); r != "" {
			bad = append(bad, r)
		}
	}
	got := s.F(post, into, t, "NanosSumSquares")
	if !post.Is(s.Eq(got, s.FAdd(old("NanosSumSquares"), sv("NanosSumSquares")))) {
		bad = append(bad, fmt.Sprintf("%s.NanosSumSquares becomes %v", where, got))
	}
	bad = append(bad, s.Cases(post, func(st *ai.State) []string {
		oc, sc := old("Count"), sv("Count")
		st.Assume(s.Lt(oc, s.Int(0)), false)
		st.Assume(s.Lt(sc, s.Int(0)), false)
		for _, f := range []string{"NanosMin", "NanosMax"} {
			got := s.F(st, into, t, f)
			o, v := old(f), sv(f)
			noOld, noSrc := st.Need(s.Eq(oc, s.Int(0))), st.Need(s.Eq(sc, s.Int(0)))
			want := o
			switch {
			case noOld && noSrc:
				continue
			case noOld:
				want = v
			case noSrc:
			default:
				lt := s.Lt(v, o)
				if f == "NanosMax" {
					lt = s.Lt(o, v)
				}
				if st.Need(lt) {
					want = v
				}
			}
			if !st.Is(s.Eq(got, want)) {
				return []string{fmt.Sprintf("%s.%s becomes %v instead of %v (old count 0: %v, merged count 0: %v)", where, f, got, want, noOld, noSrc)}
			}
		}
		return nil
	})...)
	return bad
}

// mapMerged examines one map field of the target after merging.
func (m *merger) mapMerged(pre, post *ai.State, into, src *Term, fresh bool, t types.Type, field string, where string,
	entry func(l *ai.LoopSum, it *ai.Iter, old, val *Term, fresh bool, upd *Term, elem types.Type) []string) []string {
	s := m.s
	a, mt := s.Addr(post, into, t, field)
	mp := post.Load(a, mt)
	where = where + "." + field
	var c0 *Term
	if fresh {
		if mp.Op == "nil" && post.Is(s.Eq(s.F(pre, src, t, field), s.Nil())) {
			return nil
		}
		if mp.Op != "obj" {
			return []string{fmt.Sprintf("%s is %v, shared with or missing from the merged data", where, mp)}
		}
		c0 = s.EmptyMap(mt)
	} else {
		if mp0 := s.F(pre, into, t, field); mp != mp0 {
			return []string{fmt.Sprintf("%s is replaced by %v", where, mp)}
		}
		c0 = pre.MapContent(mp, mt)
	}
	cs := pre.MapContent(s.F(pre, src, t, field), mt)
	c1 := post.MapContent(mp, mt)
	if fresh && c1 == cs && !isPointerLike(mt.Underlying().(*types.Map).Elem()) {
		return nil // the whole map copied at once
	}
	if c1.Op != "layer" || c1.A[0] != c0 {
		return []string{fmt.Sprintf("%s is not merged entry by entry: %v", where, c1)}
	}
	l := s.LoopOf(c1)
	if l.Kind != "maprange" || l.CollContent != cs || !l.Full {
		return []string{fmt.Sprintf("%s does not take all entries of the merged side (ranges over %v)", where, l.CollContent)}
	}
	sym := c1.A[1]
	et := mt.Underlying().(*types.Map).Elem()
	var bad []string
	n := 0
	for i, ups := range s.Items(c1) {
		it := l.Iters[i]
		if isPointerLike(et) && it.St.Is(s.Eq(l.Val, s.Nil())) && len(ups) == 0 {
			continue // nothing to merge
		}
		raw := s.Lk(sym, l.Key, et)
		has := s.Has(sym, l.Key)
		hv, known := it.St.Holds(has)
		entryFresh := false
		if fresh {
			if known && hv {
				continue // keys are distinct: the entry cannot exist yet
			}
			entryFresh = true
		} else if isPointerLike(et) {
			if !known {
				bad = append(bad, where+": it makes no difference whether the entry exists already")
				continue
			}
			entryFresh = !hv
		}
		var upd *Term
		if len(ups) > 1 {
			upd = ups[len(ups)-1]
		} else if len(ups) == 1 {
			upd = ups[0]
		}
		for _, u := range ups {
			if u.Op != "updp" || u.A[1] != l.Key {
				bad = append(bad, fmt.Sprintf("%s: entry %v is changed while merging another one", where, u.A[1]))
			}
		}
		n++
		bad = append(bad, entry(l, it, raw, l.Val, entryFresh, upd, et)...)
	}
	if n == 0 && len(bad) == 0 {
		bad = append(bad, where+" is never merged")
	}
	return bad
}

func (m *merger) maps(pre, post *ai.State, into, src *Term, fresh bool, t types.Type, where string) []string {
	s := m.s
	var bad []string
	bad = append(bad, m.mapMerged(pre, post, into, src, fresh, t, "Events", where, func(l *ai.LoopSum, it *ai.Iter, old, val *Term, fr bool, upd *Term, et types.Type) []string {
		if upd == nil {
			return []string{where + ".Events: an entry is not merged"}
		}
		if v, k := it.St.Holds(s.Has(upd.A[0], l.Key)); k && !v {
			fr = true
		}
		if fr {
			old = s.Int(0)
		}
		got := upd.A[2]
		if fr {
			got = s.Subst(got, map[*Term]*Term{s.Lk(upd.A[0], l.Key, et): s.Int(0)})
		}
		if !it.St.Is(s.Eq(got, s.Add(old, val))) {
			return []string{fmt.Sprintf("%s.Events: a count becomes %v", where, got)}
		}
		return nil
	})...)
	bad = append(bad, m.mapMerged(pre, post, into, src, fresh, t, "Gauges", where, func(l *ai.LoopSum, it *ai.Iter, old, val *Term, fr bool, upd *Term, et types.Type) []string {
		if upd == nil || !it.St.Is(s.Eq(upd.A[2], val)) {
			return []string{fmt.Sprintf("%s.Gauges: the merged side's gauge does not replace the old one: %v", where, upd)}
		}
		return nil
	})...)
	// entry by pointer: existing ones are updated in place, others get a copy of their own
	ptr := func(what string, l *ai.LoopSum, it *ai.Iter, old, val *Term, fr bool, upd *Term, et types.Type, f func(pre, post *ai.State, into, src *Term, fresh bool, t types.Type) []string) []string {
		into := old
		if fr {
			if upd == nil {
				return []string{what + ": a new entry is not added"}
			}
			into = upd.A[2]
			if into.Op != "obj" {
				return []string{fmt.Sprintf("%s: a new entry becomes %v instead of a copy of its own", what, into)}
			}
		} else if upd != nil && upd.A[2] != old {
			return []string{fmt.Sprintf("%s: an existing entry is replaced by %v", what, upd.A[2])}
		}
		return f(l.Head, it.St, into, val, fr, et.Underlying().(*types.Pointer).Elem())
	}
	bad = append(bad, m.mapMerged(pre, post, into, src, fresh, t, "Timers", where, func(l *ai.LoopSum, it *ai.Iter, old, val *Term, fr bool, upd *Term, et types.Type) []string {
		return ptr(where+".Timers", l, it, old, val, fr, upd, et, func(pre, post *ai.State, into, src *Term, fresh bool, t types.Type) []string {
			return m.timer(pre, post, into, src, fresh, t, where+".Timers[k]")
		})
	})...)
	bad = append(bad, m.mapMerged(pre, post, into, src, fresh, t, "EventErrs", where, func(l *ai.LoopSum, it *ai.Iter, old, val *Term, fr bool, upd *Term, et types.Type) []string {
		return ptr(where+".EventErrs", l, it, old, val, fr, upd, et, func(pre, post *ai.State, into, src *Term, fresh bool, t types.Type) []string {
			o := s.Int(0)
			if !fresh {
				o = s.F(pre, into, t, "Count")
			}
			if r := m.intMerged(post, s.F(post, into, t, "Count"), o, s.F(pre, src, t, "Count"), where+".EventErrs[k].Count"); r != "" {
				return []string{r}
			}
			return nil
		})
	})...)
	return bad
}

var jobCounts = []string{"CountSuccess", "CountValidationError", "CountPanic", "CountError", "CountJunk"}

func (m *merger) job(pre, post *ai.State, into, src *Term, fresh bool, t types.Type, where string) []string {
	s := m.s
	bad := m.maps(pre, post, into, src, fresh, t, where)
	bad = append(bad, m.timer(pre, post, into, src, fresh, t, where)...)
	for _, f := range jobCounts {
		o := s.Int(0)
		if !fresh {
			o = s.F(pre, into, t, f)
		}
		if r := m.intMerged(post, s.F(post, into, t, f), o, s.F(pre, src, t, f), where+"."+f); r != "" {
			bad = append(bad, r)
		}
	}
	return bad
}

func checkC13(c *Ctx) {
	c.Scen("merging an interval into another", func(s *Sc) {
		fn := s.M(H, "IntervalAggregation", "Merge")
		s.On(fn)
		st := s.NewState()
		t := s.T(H, "IntervalAggregation")
		into := s.Ptr(st, "ia", s.PT(H, "IntervalAggregation"))
		src := s.Ptr(st, "other", s.PT(H, "IntervalAggregation"))
		for _, f := range []string{"Jobs", "Timers", "Gauges", "Events", "EventErrs"} {
			st.Assume(s.Eq(s.F(st, into, t, f), s.Nil()), false)
		}
		pre := st.Clone()
		m := &merger{s: s, src: src}
		for _, x := range s.Call(st, fn, into, src) {
			s.Msgs("sums, replacement and extremes key by key", m.maps(pre, x.St, into, src, false, t, "interval"))
			s.Msgs("jobs are merged one by one", m.mapMerged(pre, x.St, into, src, false, t, "Jobs", "interval", func(l *ai.LoopSum, it *ai.Iter, old, val *Term, fr bool, upd *Term, et types.Type) []string {
				j := old
				if fr {
					if upd == nil || upd.A[2].Op != "obj" {
						return []string{fmt.Sprintf("a job of the merged side is not added as a copy: %v", upd)}
					}
					j = upd.A[2]
				} else if upd != nil && upd.A[2] != old {
					return []string{fmt.Sprintf("an existing job is replaced by %v", upd.A[2])}
				}
				return m.job(l.Head, it.St, j, val, fr, et.Underlying().(*types.Pointer).Elem(), "job")
			}))
			n0, n1 := s.F(pre, into, t, "SerialNumber"), s.F(x.St, into, t, "SerialNumber")
			s.Ok(x.St.Is(s.Lt(n0, n1)), "the serial number grows", "it becomes %v", n1)
			s.Ok(s.F(x.St, into, t, "IntervalStart") == s.F(pre, into, t, "IntervalStart"), "the target keeps its start", "it changes")
			for _, a := range s.allWritten(x.St, pre.Mem()) {
				s.Ok(!a.Mentions(src), "the source is left unchanged", "%v is changed", a)
			}
		}
	})
}

// allWritten lists the locations changed, including those changed per iteration by loops.
func (s *Sc) allWritten(st *ai.State, m0 *ai.Mem) []*Term {
	r := st.Written(m0)
	for _, m := range st.Mods() {
		r = append(r, m.Addr)
	}
	return r
}
