package props

import (
	"fmt"
	"go/types"

	"verif/analyzer/ai"
)

func durT(s *Sc) types.Type {
	o := s.Fn(H, "NewJsonPollingSink").Signature.Params().At(0)
	return o.Type()
}

// polling is the polling sink, constructed with symbolic parameters, together with what is known about its window.
type polling struct {
	s                *Sc
	cm               comp
	interval, retain *Term
	iaP, iaT         types.Type
	winT             types.Type
}

// window: the cell of the worker loop holding the retained intervals.
func (p *polling) window(l *ai.LoopSum) *Term {
	var w *Term
	for _, a := range l.Cells {
		if t := p.s.CellType(a); t != nil && types.Identical(t, p.winT) && (a.Op == "fa" || a.Op == "obj") && l.Pre.Is(p.s.Bool(true)) && !isBacking(a) {
			if w != nil {
				return nil
			}
			w = a
		}
	}
	return w
}

func isBacking(a *Term) bool {
	return a.Op == "bk" || a.Op == "obj" && len(a.S) >= 4 && a.S[:4] == "back"
}

// max is the number of intervals that may be retained, in a state that has decided whether retain/interval is positive.
func (p *polling) max(st *ai.State) *Term {
	s := p.s
	q := s.App("div", durT(s), p.retain, p.interval)
	v, k := st.Holds(s.Lt(q, s.Int(1)))
	if !k {
		if v, k := st.Holds(s.Lt(s.Int(1), q)); k && !v {
			return s.Int(1)
		}
		return nil
	}
	if v {
		return s.Int(1)
	}
	return q
}

// pollingSinks constructs the sink; HeadAssume is the window bound (an induction hypothesis checked by C10).
func (s *Sc) pollingSinks() []*polling {
	var r []*polling
	s.ringInvariant()
	p0 := &polling{s: s, iaT: s.T(H, "IntervalAggregation"), iaP: s.PT(H, "IntervalAggregation")}
	p0.winT = types.NewSlice(p0.iaP)
	cms := s.construct(H, "NewJsonPollingSink", func(st *ai.State) []*Term {
		p0.interval, p0.retain = s.Sym("interval", durT(s)), s.Sym("retain", durT(s))
		st.Assume(s.Lt(s.Int(0), p0.interval), true)
		return []*Term{p0.interval, p0.retain}
	})
	for _, c := range cms {
		q := *p0
		q.cm = c
		r = append(r, &q)
	}
	s.HeadAssume = func(st *ai.State, l *ai.LoopSum) {
		if l.Outer != nil {
			return
		}
		w := p0.window(l)
		if w == nil {
			return
		}
		v := st.Load(w, p0.winT)
		if m := p0.max(st); m != nil {
			st.Assume(s.Lt(m, s.Len(v)), false)
		}
	}
	return r
}

// view is the window before and after one iteration of the worker.
type view struct {
	p         *polling
	l         wloop
	it        *ai.Iter
	pre, post *ai.State
	w         *Term
	pseq      *Term
	qseq      *Term
	cur, old  *Term // newest interval afterwards; the same interval before, or nil if it is new
	T         []*Term
	maps      map[*Term]bool
}

func (p *polling) view(l wloop, it *ai.Iter) *view {
	v := &view{p: p, l: l, it: it, pre: l.Head, post: it.St, w: p.window(l.LoopSum), maps: map[*Term]bool{}}
	if v.w == nil {
		return nil
	}
	v.pseq = v.pre.Seq(v.pre.Load(v.w, p.winT), p.winT)
	v.qseq = v.post.Seq(v.post.Load(v.w, p.winT), p.winT)
	return v
}

// in evaluates f in every refinement of the state after the iteration in which the newest interval is determined.
func (v *view) in(f func(v *view) []string) []string {
	s := v.p.s
	return s.Cases(v.post, func(st *ai.State) []string {
		x := *v
		x.post = st
		x.T, x.maps = nil, map[*Term]bool{}
		n := s.Len(x.qseq)
		if st.Need(s.Eq(n, s.Int(0))) {
			return f(&x)
		}
		x.cur = st.Elem(x.qseq, s.Sub(n, s.Int(1)), v.p.iaP)
		m := s.Len(x.pseq)
		if !st.Need(s.Eq(m, s.Int(0))) {
			if o := x.pre.WithFacts(st.Facts()).Elem(x.pseq, s.Sub(m, s.Int(1)), v.p.iaP); o == x.cur || st.Is(s.Eq(o, x.cur)) {
				x.old = o
			}
		}
		return f(&x)
	})
}

func (v *view) fresh(t *Term) bool { return t != nil && t.Op == "obj" && v.l.Fresh(t) }

// field values before (zero for new things) and after
func (v *view) was(p *Term, t types.Type, f string) *Term {
	s := v.p.s
	if p == nil {
		_, ft := fieldPath(t, f)
		if isInt64(ft) {
			return s.Int(0)
		}
		return s.Zero(ft)
	}
	return s.F(v.pre, p, t, f)
}

func isInt64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (v *view) is(p *Term, t types.Type, f string) *Term { return v.p.s.F(v.post, p, t, f) }

// entry looks a key up in a map field before and after.
func (v *view) entry(was, is *Term, t types.Type, field string, k *Term) (v0, ok0, v1, ok1 *Term) {
	s := v.p.s
	_, mt := fieldPath(t, field)
	et := mt.Underlying().(*types.Map).Elem()
	v0, ok0 = s.Zero(et), s.Bool(false)
	if was != nil {
		st := v.post.At(v.pre.Mem())
		m := s.F(st, was, t, field)
		v0, ok0 = st.Lookup(st.MapContent(m, mt), k, et)
		if isPtrT(et) && !v.post.Need(ok0) {
			v0 = s.Nil()
		}
	}
	m := s.F(v.post, is, t, field)
	v1, ok1 = v.post.Lookup(v.post.MapContent(m, mt), k, et)
	return
}

func isPtrT(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

// sameKey: nothing changed under key k of a map field.
func (v *view) sameKey(was, is *Term, t types.Type, field string, k *Term, what string) string {
	s := v.p.s
	v0, ok0, v1, ok1 := v.entry(was, is, t, field, k)
	h0, h1 := v.post.Need(ok0), v.post.Need(ok1)
	if h0 != h1 {
		return fmt.Sprintf("%s: an unrelated entry of %s appears or disappears", what, field)
	}
	if h0 && !v.post.Is(s.Eq(v0, v1)) {
		return fmt.Sprintf("%s: an unrelated entry of %s changes to %v", what, field, v1)
	}
	return ""
}

var mapFields = []string{"Timers", "Gauges", "Events", "EventErrs"}

// record describes one emission.
type record struct {
	method      string
	job, event  *Term
	val         *Term
	status      string
	field       string // map that must change
	args        []*Term
	onlyCounter bool
}

func (s *Sc) emissions() []record {
	job, event := s.Sym("job", strT()), s.Sym("event", strT())
	kv := s.Sym("kvs", mapSS())
	ns, val, er := s.Sym("nanos", i64T()), s.Sym("value", f64T()), s.Sym("err", errT())
	r := []record{
		{method: "EmitEvent", job: job, event: event, field: "Events", args: []*Term{job, event, kv}},
		{method: "EmitEventErr", job: job, event: event, val: er, field: "EventErrs", args: []*Term{job, event, er, kv}},
		{method: "EmitTiming", job: job, event: event, val: ns, field: "Timers", args: []*Term{job, event, ns, kv}},
		{method: "EmitGauge", job: job, event: event, val: val, field: "Gauges", args: []*Term{job, event, val, kv}},
	}
	for _, st := range statusNames {
		r = append(r, record{method: "EmitComplete", job: job, val: ns, status: st, args: []*Term{job, s.ConstInt(H, st), ns, kv}})
	}
	return r
}

var statusNames = []string{"Success", "ValidationError", "Panic", "Error", "Junk"}

// ingested: the timer at is is the one at was (nil: none) with one more sample.
func (v *view) ingested(was, is *Term, t types.Type, ns *Term, what string) []string {
	s := v.p.s
	var bad []string
	eq := func(f string, want *Term) {
		if got := v.is(is, t, f); !v.post.Is(s.Eq(got, want)) {
			bad = append(bad, fmt.Sprintf("%s.%s becomes %v instead of %v", what, f, got, want))
		}
	}
	fl := s.App("float", f64T(), ns)
	c0 := v.was(was, t, "Count")
	if !v.post.Assume(s.Lt(c0, s.Int(0)), false) {
		return nil
	}
	first := v.post.Need(s.Eq(c0, s.Int(0)))
	eq("Count", s.Add(c0, s.Int(1)))
	eq("NanosSum", s.Add(v.was(was, t, "NanosSum"), ns))
	sq := v.is(is, t, "NanosSumSquares")
	if w := v.was(was, t, "NanosSumSquares"); !v.post.Is(s.Eq(sq, s.FAdd(w, s.FMul(fl, fl)))) {
		bad = append(bad, fmt.Sprintf("%s.NanosSumSquares becomes %v", what, sq))
	}
	lo, hi := v.was(was, t, "NanosMin"), v.was(was, t, "NanosMax")
	// by induction: the first sample sets both, and every further one is shown to keep them in order
	if !first && !v.post.Assume(s.Lt(hi, lo), false) {
		return nil
	}
	if first || v.post.Need(s.Lt(ns, lo)) {
		lo = ns
	}
	if first || v.post.Need(s.Lt(hi, ns)) {
		hi = ns
	}
	eq("NanosMin", lo)
	eq("NanosMax", hi)
	return bad
}

// same: the named fields keep their values.
func (v *view) same(was, is *Term, t types.Type, what string, fs ...string) []string {
	s := v.p.s
	var bad []string
	for _, f := range fs {
		if w, g := v.was(was, t, f), v.is(is, t, f); !v.post.Is(s.Eq(w, g)) {
			bad = append(bad, fmt.Sprintf("%s.%s becomes %v", what, f, g))
		}
	}
	return bad
}

var timerFields = []string{"Count", "NanosSum", "NanosSumSquares", "NanosMin", "NanosMax"}

// scope checks one map of an interval or a job after a record.
func (v *view) scope(was, is *Term, t types.Type, f string, r record, what string) []string {
	s := v.p.s
	var bad []string
	k := s.Sym("anykey", strT())
	_, mt := fieldPath(t, f)
	et := mt.Underlying().(*types.Map).Elem()
	if was != nil {
		m0 := s.F(v.pre, was, t, f)
		if m1 := v.is(is, t, f); m0 != m1 && !v.fresh(m1) {
			return []string{fmt.Sprintf("%s.%s is replaced by %v", what, f, m1)}
		}
	} else if m1 := v.is(is, t, f); !v.fresh(m1) {
		return []string{fmt.Sprintf("%s.%s of a new entry is %v", what, f, m1)}
	}
	if r.field != f {
		if m := v.sameKey(was, is, t, f, k, what); m != "" {
			bad = append(bad, m)
		}
		return bad
	}
	if !v.post.Need(s.Eq(k, r.event)) {
		if m := v.sameKey(was, is, t, f, k, what); m != "" {
			bad = append(bad, m)
		}
		return bad
	}
	v0, ok0, v1, ok1 := v.entry(was, is, t, f, r.event)
	had := v.post.Need(ok0)
	if !v.post.Need(ok1) {
		return append(bad, fmt.Sprintf("%s.%s has no entry for the event", what, f))
	}
	w := fmt.Sprintf("%s.%s[event]", what, f)
	switch f {
	case "Gauges":
		if !v.post.Is(s.Eq(v1, r.val)) {
			bad = append(bad, fmt.Sprintf("%s becomes %v", w, v1))
		}
	case "Events":
		o := v0
		if !had {
			o = s.Int(0)
		}
		// a missing entry reads as 0
		got := v1
		if !had && was != nil {
			mp := s.F(v.pre, was, t, f)
			c := v.pre.MapContent(mp, mt)
			got = s.Subst(v1, map[*Term]*Term{s.Lk(c, r.event, et): s.Int(0)})
		}
		if !v.post.Is(s.Eq(got, s.Add(o, s.Int(1)))) {
			bad = append(bad, fmt.Sprintf("%s becomes %v instead of %v", w, got, s.Add(o, s.Int(1))))
		}
	case "Timers", "EventErrs":
		pt := et.Underlying().(*types.Pointer).Elem()
		var o *Term
		if had {
			o = v0
			if v1 != v0 && !v.fresh(v1) {
				return append(bad, fmt.Sprintf("%s is replaced by %v", w, v1))
			}
		} else if !v.fresh(v1) {
			return append(bad, fmt.Sprintf("%s becomes %v, which is not new", w, v1))
		}
		if f == "Timers" {
			bad = append(bad, v.ingested(o, v1, pt, r.val, w)...)
		} else if c0, c1 := v.was(o, pt, "Count"), v.is(v1, pt, "Count"); !v.post.Is(s.Eq(c1, s.Add(c0, s.Int(1)))) {
			bad = append(bad, fmt.Sprintf("%s.Count becomes %v", w, c1))
		}
	}
	return bad
}

// may collects what a record may modify: the maps of the scope and the entry of the event.
func (v *view) may(was *Term, t types.Type, r record) {
	s := v.p.s
	if was == nil {
		return
	}
	v.T = append(v.T, was)
	for _, f := range mapFields {
		m := s.F(v.pre, was, t, f)
		v.maps[m] = true
		if f != r.field {
			continue
		}
		_, mt := fieldPath(t, f)
		if et := mt.Underlying().(*types.Map).Elem(); isPtrT(et) {
			st := v.post.At(v.pre.Mem())
			if o, ok := st.Lookup(st.MapContent(m, mt), r.event, et); v.post.Need(ok) {
				v.T = append(v.T, o)
			}
		}
	}
}

// job finds the entry of the record's job before (nil: none) and after.
func (v *view) job(r record) (j0, j1 *Term, jt types.Type, bad string) {
	t := v.p.iaT
	j0, ok0, j1, ok1 := v.entry(v.old, v.cur, t, "Jobs", r.job)
	had := v.post.Need(ok0)
	if !v.post.Need(ok1) {
		return nil, nil, nil, "the record is missing under its job"
	}
	_, mt := fieldPath(t, "Jobs")
	jt = mt.Underlying().(*types.Map).Elem().Underlying().(*types.Pointer).Elem()
	if !had {
		if !v.fresh(j1) {
			return nil, nil, nil, fmt.Sprintf("a new job is %v", j1)
		}
		return nil, j1, jt, ""
	}
	if j1 != j0 {
		return nil, nil, nil, fmt.Sprintf("the job is replaced by %v", j1)
	}
	return j0, j1, jt, ""
}

// recorded checks the complete effect of an emission: a list of independent comparisons.
func (r record) recorded() []func(v *view) []string {
	ir := r
	if r.status != "" {
		ir.field = ""
	}
	fs := []func(v *view) []string{func(v *view) []string {
		s, t := v.p.s, v.p.iaT
		var bad []string
		if n0, n1 := v.was(v.old, t, "SerialNumber"), v.is(v.cur, t, "SerialNumber"); !v.post.Is(s.Eq(n1, s.Add(n0, s.Int(1)))) {
			bad = append(bad, fmt.Sprintf("the serial number becomes %v", n1))
		}
		if v.old != nil {
			bad = append(bad, v.same(v.old, v.cur, t, "interval", "IntervalStart")...)
		}
		return bad
	}, func(v *view) []string {
		s, t := v.p.s, v.p.iaT
		k := s.Sym("anyjob", strT())
		if !v.post.Need(s.Eq(k, r.job)) {
			if m := v.sameKey(v.old, v.cur, t, "Jobs", k, "interval"); m != "" {
				return []string{m}
			}
		}
		return nil
	}, func(v *view) []string {
		s := v.p.s
		j0, j1, jt, b := v.job(r)
		if b != "" {
			return []string{b}
		}
		if r.status == "" {
			return v.same(j0, j1, jt, "job", append(append([]string{}, timerFields...), jobCounts...)...)
		}
		var bad []string
		for _, f := range jobCounts {
			w := v.was(j0, jt, f)
			if f == "Count"+r.status {
				w = s.Add(w, s.Int(1))
			}
			if g := v.is(j1, jt, f); !v.post.Is(s.Eq(g, w)) {
				bad = append(bad, fmt.Sprintf("status %s: job.%s becomes %v instead of %v", r.status, f, g, w))
			}
		}
		return append(bad, v.ingested(j0, j1, jt, r.val, "job")...)
	}, func(v *view) []string {
		if v.old != nil {
			v.maps[v.p.s.F(v.pre, v.old, v.p.iaT, "Jobs")] = true
			v.may(v.old, v.p.iaT, ir)
			j0, _, jt, b := v.job(r)
			if b != "" {
				return []string{b}
			}
			v.may(j0, jt, ir)
		}
		return v.frame()
	}}
	for _, f := range mapFields {
		fs = append(fs, func(v *view) []string { return v.scope(v.old, v.cur, v.p.iaT, f, ir, "interval") }, func(v *view) []string {
			j0, j1, jt, b := v.job(r)
			if b != "" {
				return []string{b}
			}
			return v.scope(j0, j1, jt, f, ir, "job")
		})
	}
	for i, f := range fs {
		fs[i] = func(v *view) []string {
			if v.cur == nil {
				return []string{"no interval is retained after a record"}
			}
			if v.old == nil && !v.fresh(v.cur) {
				return []string{fmt.Sprintf("the newest interval becomes %v", v.cur)}
			}
			return f(v)
		}
	}
	return fs
}

// frame: nothing existing was written except what has been compared already.
func (v *view) frame() []string {
	var bad []string
	for _, a := range v.p.s.allWritten(v.post, v.pre.Mem()) {
		r := a
		for r.Op == "fa" || r.Op == "ia" {
			r = r.A[0]
		}
		ok := r.Op == "obj" || r.Op == "bk"
		if r.Op == "mc" && (v.maps[r.A[0]] || r.A[0].Op == "obj" && v.fresh(r.A[0])) {
			ok = true
		}
		for _, t := range v.T {
			if r == t {
				ok = true
			}
		}
		if x, known := v.post.Raw(a); known && x.Op == "init" && x.A[0] == a {
			ok = true
		}
		if !ok {
			bad = append(bad, fmt.Sprintf("%v is changed as well", a))
		}
	}
	return bad
}

// others: iterations that handle no record must not change any interval.
func (v *view) untouched() []string {
	var bad []string
	if v.cur != nil && v.old == nil {
		if v.fresh(v.cur) {
			bad = append(bad, v.empty(v.cur)...)
		}
	}
	return append(bad, v.frame()...)
}

// empty: a newly created interval holds nothing.
func (v *view) empty(cur *Term) []string {
	s := v.p.s
	var bad []string
	t := v.p.iaT
	if n, ok := v.is(cur, t, "SerialNumber").IntVal(); !ok || n != 0 {
		bad = append(bad, "a new interval has a serial number")
	}
	for _, f := range append([]string{"Jobs"}, mapFields...) {
		_, mt := fieldPath(t, f)
		m := v.is(cur, t, f)
		if !v.fresh(m) || v.post.MapContent(m, mt).Op != "mempty" {
			bad = append(bad, fmt.Sprintf("%s of a new interval is %v", f, m))
		}
	}
	_ = s
	return bad
}

// received tells whether an iteration takes something from channel ch.
func received(it *ai.Iter, ch *Term) bool {
	for _, ef := range it.New {
		if ef.Kind == "recv" && ef.Recv == ch {
			return true
		}
	}
	return false
}

func (s *Sc) pollingRecords(want func(r record) bool, f func(p *polling, r record, h handled)) {
	for _, p := range s.pollingSinks() {
		for _, r := range s.emissions() {
			if !want(r) {
				continue
			}
			for _, h := range s.deliver(p.cm, H, "JsonPollingSink", r.method, r.args...) {
				s.Ok(len(h.outs) == 0, "the worker goes on after a record", "%s makes the worker stop", r.method)
				if !s.Ok(p.window(h.loop.LoopSum) != nil, "the worker keeps a window of intervals", "no list of intervals is maintained by the worker") {
					continue
				}
				f(p, r, h)
			}
		}
	}
}

func checkC08(c *Ctx) {
	c.Scen("records of the polling sink", func(s *Sc) {
		s.pollingRecords(func(r record) bool { return true }, func(p *polling, r record, h handled) {
			for _, it := range h.iters {
				for _, f := range r.recorded() {
					s.Msgs("recorded once, overall and under the job", p.view(h.loop, it).in(f))
				}
			}
			if r.method != "EmitEvent" {
				return
			}
			for _, it := range h.loop.Iters {
				if !received(it, h.ch) {
					s.Msgs("nothing changes without a record", p.view(h.loop, it).in(func(v *view) []string { return v.untouched() }))
				}
			}
		})
	})
}

func checkC09(c *Ctx) {
	c.Scen("samples of the polling sink", func(s *Sc) {
		s.pollingRecords(func(r record) bool { return r.field == "Timers" || r.status != "" }, func(p *polling, r record, h handled) {
			for _, it := range h.iters {
				for _, f := range r.recorded() {
					s.Msgs("exact running aggregates", p.view(h.loop, it).in(f))
				}
			}
		})
	})
}

func checkC10(c *Ctx) {
	c.Scen("window of intervals", func(s *Sc) {
		s.pollingRecords(func(r record) bool { return r.status == "" || r.status == "Success" }, func(p *polling, r record, h handled) {
			pre := h.loop.Pre
			w := p.window(h.loop.LoopSum)
			s.Ok(pre.Is(s.Eq(s.Len(pre.Load(w, p.winT)), s.Int(0))), "the window starts empty", "it starts as %v", pre.Load(w, p.winT))
			for _, o := range pre.Obl {
				s.Ok(o.OK || o.Kind == "nilderef", "starting never crashes", "%s: %v is not certain at %s", o.Kind, o.Cond, s.C.pos(o.Pos))
			}
			for _, it := range h.loop.Iters {
				isRec := false
				for _, x := range h.iters {
					isRec = isRec || x == it
				}
				if !isRec && r.method != "EmitEvent" {
					continue
				}
				v := p.view(h.loop, it)
				s.Msgs("bounded, ordered window", v.in(func(v *view) []string { return v.slides() }))
				for _, o := range it.St.Obl {
					if o.Kind != "nilderef" && o.Kind != "nilmap" && o.Kind != "makecap" {
						s.Ok(o.OK, "the worker never crashes", "%s: %v is not certain at %s", o.Kind, o.Cond, s.C.pos(o.Pos))
					}
				}
				if isRec {
					s.Msgs("the interval of the current time", v.in(func(v *view) []string { return v.current() }))
				}
			}
		})
	})
}

// slides: the window is the old one, possibly without its oldest and possibly with a new newest interval.
func (v *view) slides() []string {
	s := v.p.s
	st := v.post
	if v.pseq == v.qseq {
		return nil
	}
	n, m := s.Len(v.pseq), s.Len(v.qseq)
	max := v.p.max(st)
	if max == nil {
		return []string{"the number of retained intervals does not follow retention and interval duration"}
	}
	if st.Need(s.Lt(max, m)) {
		return []string{fmt.Sprintf("%v intervals can be retained instead of at most %v", m, max)}
	}
	if v.cur == nil {
		return []string{"the window can become empty"}
	}
	if v.old == nil && !v.fresh(v.cur) {
		return []string{fmt.Sprintf("the newest interval becomes %v", v.cur)}
	}
	add := int64(1)
	if v.old != nil {
		add = 0
	}
	drop := s.Sub(s.Add(n, s.Int(add)), m)
	d := int64(0)
	if !st.Need(s.Eq(drop, s.Int(0))) {
		d = 1
		if !st.Is(s.Eq(drop, s.Int(1))) || !st.Is(s.Eq(n, max)) || add == 0 {
			return []string{"intervals are dropped although the window is not full"}
		}
	}
	i := s.Sym("anyindex", types.Typ[types.Int])
	st.Assume(s.Lt(i, s.Int(0)), false)
	if !st.Assume(s.Lt(s.Add(i, s.Int(1)), m), true) {
		return nil
	}
	got := st.Elem(v.qseq, i, v.p.iaP)
	want := st.At(v.pre.Mem()).Elem(v.pseq, s.Add(i, s.Int(d)), v.p.iaP)
	if got != want && !st.Is(s.Eq(got, want)) {
		return []string{fmt.Sprintf("the order of the retained intervals changes: %v where %v is expected", got, want)}
	}
	return nil
}

// current: the newest interval starts at the current time rounded down.
func (v *view) current() []string {
	s := v.p.s
	if v.cur == nil {
		return []string{"no interval after a record"}
	}
	got := v.is(v.cur, v.p.iaT, "IntervalStart")
	tt := got.T
	_, ft := fieldPath(v.p.iaT, "IntervalStart")
	tt = ft
	var starts []*Term
	for _, ef := range v.it.New {
		if ef.Kind == "call" && ef.Name == "time.Now" {
			starts = append(starts, s.App("time.Truncate", tt, ef.Res, v.p.interval))
		}
	}
	if g := s.Pkg(H).SSA.Var("nowMock"); g != nil {
		starts = append(starts, s.App("time.Truncate", tt, v.post.Load(s.Global(g), tt), v.p.interval))
	}
	sameTime := func(a, b *Term) (bool, bool) {
		if e, k := v.post.Holds(s.Eq(a, b)); k {
			return e, true
		}
		x, y := a, b
		if x.ID() > y.ID() {
			x, y = y, x
		}
		return v.post.Holds(s.App("time.Equal", types.Typ[types.Bool], x, y))
	}
	for _, w := range starts {
		if e, k := sameTime(got, w); !k || !e {
			continue
		}
		if v.old == nil {
			// created: the previous newest one must have a different start
			n := s.Len(v.pseq)
			if !v.post.Need(s.Eq(n, s.Int(0))) {
				last := v.post.At(v.pre.Mem()).Elem(v.pseq, s.Sub(n, s.Int(1)), v.p.iaP)
				if v.post.Is(s.Eq(last, s.Nil())) {
					return nil // intervals are only ever added as new objects, never as nil
				}
				if e, k := sameTime(s.F(v.pre, last, v.p.iaT, "IntervalStart"), w); !k || e {
					return []string{"an interval is created although the newest one may have the same start"}
				}
			}
		}
		return nil
	}
	return []string{fmt.Sprintf("the record goes to the interval starting at %v instead of the current time rounded down to the interval", got)}
}

func checkC11(c *Ctx) {
	c.Scen("snapshots of the polling sink", func(s *Sc) {
		for _, p := range s.pollingSinks() {
			for _, h := range s.deliver(p.cm, H, "JsonPollingSink", "GetMetrics") {
				// what the caller gets is what the worker sends
				s.Ok(len(h.outs) == 0, "the worker goes on after a snapshot", "it stops")
				if !s.Ok(p.window(h.loop.LoopSum) != nil, "the worker keeps a window of intervals", "no list of intervals is maintained by the worker") {
					continue
				}
				for _, it := range h.iters {
					se := sends(it.New)
					if !s.Ok(len(se) == 1 && se[0].Recv == h.msg, "one answer on the request's own channel", "%d answers", len(se)) {
						continue
					}
					got := false
					for _, ef := range h.x.St.Trace {
						if ef.Kind == "recv" && ef.Recv == h.msg && ef.Res == h.x.Vals[0] {
							got = true
						}
					}
					s.Ok(got, "the caller gets the answer", "GetMetrics returns %v", h.x.Vals[0])
					s.Msgs("a complete snapshot of its own", p.view(h.loop, it).in(func(v *view) []string { return v.snapshot(se[0].Args[0]) }))
				}
				for _, it := range h.loop.Iters {
					s.Msgs("intervals but the newest never change", p.view(h.loop, it).in(func(v *view) []string { return v.onlyNewest() }))
				}
			}
			// the same for every kind of record
			for _, r := range s.emissions() {
				for _, h := range s.deliver(p.cm, H, "JsonPollingSink", r.method, r.args...) {
					if p.window(h.loop.LoopSum) == nil {
						continue
					}
					for _, it := range h.iters {
						s.Msgs("intervals but the newest never change", p.view(h.loop, it).in(func(v *view) []string { return v.onlyNewest() }))
					}
				}
			}
		}
	})
}

// onlyNewest: everything written belongs to the worker itself, to new things or to the newest interval.
func (v *view) onlyNewest() []string {
	for _, a := range v.p.s.allWritten(v.post, v.pre.Mem()) {
		r := a
		for r.Op == "fa" || r.Op == "ia" {
			r = r.A[0]
		}
		if r.Op == "obj" || r.Op == "bk" {
			continue
		}
		if v.old != nil && v.within(a, v.old, 0) {
			continue
		}
		if r.Op == "mc" && r.A[0].Op == "obj" {
			continue
		}
		if x, known := v.post.Raw(a); known && x.Op == "init" && x.A[0] == a {
			continue
		}
		return []string{fmt.Sprintf("%v is changed, which may be part of an earlier snapshot", a)}
	}
	return nil
}

// within: the address lies below an object, possibly through cells the loop keeps.
func (v *view) within(a, o *Term, depth int) bool {
	if a.Mentions(o) {
		return true
	}
	return depth < 6 && a.Any(func(t *Term) bool {
		c := v.l.CellOfSym(t)
		return c != nil && v.within(c, o, depth+1)
	})
}

// snapshot compares the answer with the window.
func (v *view) snapshot(ans *Term) []string {
	s := v.p.s
	st := v.post
	if ans.Op != "slice" || !v.fresh(ans.A[0]) {
		if st.Is(s.Eq(s.Len(v.qseq), s.Int(0))) {
			return nil
		}
		return []string{fmt.Sprintf("the answer %v shares the worker's list", ans)}
	}
	seq := st.Seq(ans, v.p.winT)
	n := s.Len(v.qseq)
	last := s.Sub(n, s.Int(1))
	copyOf := func(pre, post *ai.State, src, dst *Term, newest bool) string {
		if src == dst || post.Is(s.Eq(src, dst)) {
			if newest {
				return "the newest interval is handed out although it still changes"
			}
			return ""
		}
		if dst.Op != "obj" || !v.fresh(dst) {
			return fmt.Sprintf("the answer holds %v", dst)
		}
		return s.sameV(pre, src, post, dst, v.p.iaP, "the snapshot")
	}
	if seq.Op == "seq" && len(seq.A) == 1 && seq.A[0].Op == "each" {
		l := s.LoopOf(seq.A[0])
		if l.Kind != "index" || !l.Full || l.Desc || !st.Is(s.Eq(l.Lo, s.Int(0))) || !st.Is(s.Eq(l.Hi, n)) {
			return []string{"the snapshot does not contain every interval in order"}
		}
		for i, parts := range s.Items(seq.A[0]) {
			it := l.Iters[i]
			if len(parts) != 1 || parts[0].Op != "el" {
				return []string{"an interval is left out of the snapshot or included twice"}
			}
			bad := s.Cases(it.St, func(q *ai.State) []string {
				src := q.Elem(v.qseq, l.Idx, v.p.iaP)
				dst := parts[0].A[0]
				// could this be the newest one? only if the facts allow it after replacing the index
				sub := map[*Term]*Term{l.Idx: last}
				newest := true
				for a, val := range it.Conds {
					if b, ok := q.Holds(s.Subst(a, sub)); ok && b != val {
						newest = false
					}
				}
				if v, k := q.Holds(s.Eq(l.Idx, last)); k {
					if v && !newest {
						return nil
					}
					newest = v
				}
				if m := copyOf(l.Head, q, src, dst, newest); m != "" {
					return []string{m}
				}
				return nil
			})
			for _, b := range bad {
				if b != "" {
					return bad
				}
			}
		}
		return nil
	}
	if !st.Is(s.Eq(s.Len(seq), n)) {
		return []string{fmt.Sprintf("the snapshot has %v entries instead of %v", s.Len(seq), n)}
	}
	i := s.Sym("anyindex", types.Typ[types.Int])
	st.Assume(s.Lt(i, s.Int(0)), false)
	if !st.Assume(s.Lt(i, n), true) {
		return nil
	}
	newest := st.Need(s.Eq(i, last))
	if newest {
		i = last
	}
	if m := copyOf(st, st, st.Elem(v.qseq, i, v.p.iaP), st.Elem(seq, i, v.p.iaP), newest); m != "" {
		return []string{m}
	}
	return nil
}
