package props

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// apiCtx is the healthd API of a constructed healthd: handlers by path, and a request context prepared by the
// middleware.
type apiCtx struct {
	s     *Sc
	cm    comp
	paths map[string]*ssa.Function
	mids  []*Term
	st    *ai.State // after the routes were set up
	ctxT  types.Type
	field string // the context's field with the healthd
}

// healthdAPI resolves the routes registered with the router of the HTTP server.
func (s *Sc) healthdAPI() *apiCtx {
	hp := s.PT(HD, "HealthD")
	for _, cm := range s.healthd() {
		a := &apiCtx{s: s, cm: cm, paths: map[string]*ssa.Function{}}
		for _, g := range cm.gos {
			st := cm.st.Clone()
			st.Trace = nil
			for _, x := range s.runGo(st, g) {
				prefix := map[*Term]string{}
				for _, ef := range x.St.Trace {
					if ef.Kind != "call" || !strings.Contains(ef.Name, "gocraft/web") {
						continue
					}
					m := ef.Name[strings.LastIndex(ef.Name, ".")+1:]
					switch m {
					case "New":
						prefix[ef.Res] = ""
					case "Subrouter":
						p, ok := ef.Args[2].StrVal()
						q, known := prefix[ef.Args[0]]
						s.Ok(ok && known, "routes are known", "a subrouter at %s is not", s.C.pos(ef.Pos))
						prefix[ef.Res] = q + p
					case "NotFound", "Error":
						prefix[ef.Res] = prefix[ef.Args[0]]
					case "Middleware":
						prefix[ef.Res] = prefix[ef.Args[0]]
						a.mids, a.st = append(a.mids, unbox(ef.Args[1])), x.St
					case "Get":
						prefix[ef.Res] = prefix[ef.Args[0]]
						p, ok := ef.Args[1].StrVal()
						f := unbox(ef.Args[2])
						if s.Ok(ok && f.Op == "func", "routes are known", "the route at %s is not", s.C.pos(ef.Pos)) {
							a.paths[prefix[ef.Args[0]]+p] = f.F
							a.ctxT = f.F.Signature.Params().At(0).Type()
							if f.F.Signature.Recv() != nil {
								a.ctxT = f.F.Signature.Recv().Type()
							}
						}
					}
				}
			}
		}
		if len(a.paths) == 0 {
			continue
		}
		st, ok := a.ctxT.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for i := 0; ok && i < st.NumFields(); i++ {
			if types.Identical(st.Field(i).Type(), hp) {
				a.field = st.Field(i).Name()
			}
		}
		if a.field == "" {
			s.giveUp("handlers do not know their healthd")
		}
		return a
	}
	s.giveUp("no API routes are registered")
	return nil
}

// middleware: the context gets its healthd, and the handler is called exactly once.
func (a *apiCtx) middleware() {
	s := a.s
	set := false
	for _, m := range a.mids {
		sig, ok := m.T.Underlying().(*types.Signature)
		if !ok || sig.Params().Len() != 4 {
			s.Ok(false, "middleware is known", "%v is not", m)
			continue
		}
		st := a.st.Clone()
		st.Trace = nil
		ctx := s.NewObj("ctx", a.ctxT.Underlying().(*types.Pointer).Elem(), 0)
		if set {
			s.SetF(st, ctx, a.ctxT, a.field, a.cm.recv)
		}
		rw, req, next := s.Ptr(st, "rw", sig.Params().At(1).Type()), s.Ptr(st, "req", sig.Params().At(2).Type()), s.Ptr(st, "next", sig.Params().At(3).Type())
		st.Assume(s.Eq(s.F(st, req, sig.Params().At(2).Type(), "Request"), s.Nil()), false)
		all := true
		for _, x := range s.RunValue(st, m, []*Term{ctx, rw, req, next}) {
			n := 0
			Flatten(x.St.Trace, func(ef *ai.Effect, ls []*ai.LoopSum) {
				if ef.Kind == "dyn" && ef.Fn == next {
					n++
					if len(ls) > 0 {
						n++
					}
					s.Ok(len(ef.Args) == 2 && ef.Args[0] == rw && ef.Args[1] == req, "middleware passes the request on", "%v is passed on", ef.Args)
				}
			})
			s.Ok(n == 1 && x.Kind != ai.Panics, "middleware passes the request on", "it is handled %d times", n)
			if s.F(x.St, ctx, a.ctxT, a.field) != a.cm.recv {
				all = false
			}
		}
		set = set || all
	}
	s.Ok(set, "handlers work on the running healthd", "no middleware sets it")
}

// handled is one way a handler answers a request.
type answer struct {
	x    *ai.Exit
	st   *ai.State // when the answer was encoded
	body map[string]jsonField
	list *Term // what the worker answered (nil if it was not asked)
	req  *Term
}

// handle runs the handler of a path.
func (a *apiCtx) call(path string) (xs []*ai.Exit, rw, req *Term) {
	s := a.s
	fn := a.paths[path]
	s.On(fn)
	st := a.cm.st.Clone()
	st.Trace = nil
	ctx := s.NewObj("ctx", a.ctxT.Underlying().(*types.Pointer).Elem(), 0)
	s.SetF(st, ctx, a.ctxT, a.field, a.cm.recv)
	args := []*Term{ctx}
	for _, p := range fn.Params[len(args):] {
		v := s.Ptr(st, p.Name(), p.Type())
		args = append(args, v)
		if idx, _ := fieldPath(p.Type(), "URL"); idx != nil {
			req = v
			st.Assume(s.Eq(s.F(st, req, p.Type(), "Request"), s.Nil()), false)
		}
	}
	return s.Call(st, fn, args...), args[1], req
}

func (a *apiCtx) handle(path string) (r []answer) {
	s := a.s
	if !s.Ok(a.paths[path] != nil, "the route exists", "nothing handles %s", path) {
		return
	}
	xs, rw, req := a.call(path)
	for _, x := range xs {
		enc := jsonArg(x.St.Trace)
		if !s.Ok(len(enc) == 1, "the answer is encoded once", "%d values are encoded", len(enc)) {
			continue
		}
		res := s.respond(x.St.Trace, rw)
		if !succeeded(enc[0]) {
			s.Ok(res.status >= 400, "an encoding failure is reported", "the status is %d", res.status)
			continue
		}
		s.Ok(res.status == 200 && res.bad == "" && res.body == enc[0].Res.A[0], "the answer is what was encoded", "status %d %s, body %v", res.status, res.bad, res.body)
		body, _ := s.encoded(x.St, enc[0])
		w := answer{x: x, st: x.St.WithFacts(nil).At(enc[0].Mem), body: body, req: req}
		var asked []*ai.Effect
		for _, ef := range x.St.Trace {
			if ef.Kind == "recv" {
				asked = append(asked, ef)
			}
		}
		if s.Ok(len(asked) <= 1, "the worker is asked once", "%d times", len(asked)) && len(asked) == 1 {
			w.list = asked[0].Res
		}
		r = append(r, w)
	}
	s.Ok(len(r) > 0, "requests can be answered", "%s never is", path)
	return
}

// combined: o is the merge of all intervals in list, in order; "" if so.
func (s *Sc) combined(st *ai.State, tr []*ai.Effect, o, list *Term) []string {
	t := s.T(H, "IntervalAggregation")
	pt := types.NewPointer(t)
	if o.Op != "obj" {
		return []string{fmt.Sprintf("the total is %v instead of a new aggregate", o)}
	}
	lt := types.NewSlice(pt)
	var l *ai.LoopSum
	for _, ef := range tr {
		if ef.Kind == "loop" {
			touches := false
			for _, c := range ef.Loop.Cells {
				touches = touches || ai.RootOf(c) == o
			}
			if touches {
				if l != nil {
					return []string{"the total is changed by several loops"}
				}
				l = ef.Loop
			}
		}
	}
	if l == nil {
		return []string{"no interval is merged into the total"}
	}
	if l.Kind != "index" || !l.Full || l.Desc {
		return []string{"not every interval is merged into the total"}
	}
	// the loop may count the elements of list[off:]
	off, from := s.Sub(s.Len(list), l.Hi), s.Add(l.Lo, s.Sub(s.Len(list), l.Hi))
	first := l.Pre.Elem(l.Pre.Seq(list, lt), s.Int(0), pt)
	if s.F(st, o, t, "IntervalStart") != s.F(l.Pre, first, t, "IntervalStart") {
		return []string{fmt.Sprintf("the total starts at %v", s.F(st, o, t, "IntervalStart"))}
	}
	maps := []string{"Jobs", "Timers", "Gauges", "Events", "EventErrs"}
	switch {
	case from == s.Int(0):
		for _, f := range maps {
			_, mt := fieldPath(t, f)
			m := s.F(l.Pre, o, t, f)
			if m.Op != "obj" || l.Pre.MapContent(m, mt).Op != "mempty" {
				return []string{fmt.Sprintf("%s of the total does not start empty", f)}
			}
		}
	case from == s.Int(1):
		for _, f := range maps {
			_, mt := fieldPath(t, f)
			if m := s.sameV(l.Pre, s.F(l.Pre, first, t, f), l.Pre, s.F(l.Pre, o, t, f), mt, "the total"); m != "" {
				return []string{m}
			}
		}
	default:
		return []string{"not every interval is merged into the total"}
	}
	var bad []string
	for _, it := range l.Iters {
		bad = append(bad, s.Cases(it.St, func(q *ai.State) []string {
			src := q.Elem(l.Pre.Seq(list, lt), s.Add(l.Idx, off), pt)
			if q.Is(s.Eq(src, s.Nil())) {
				return nil
			}
			return s.mergedInto(l.Head, q, o, src)
		})...)
	}
	return bad
}

// mergedInto: src was merged into the aggregate o.
func (s *Sc) mergedInto(pre, post *ai.State, o, src *Term) []string {
	t := s.T(H, "IntervalAggregation")
	m := &merger{s: s, src: src}
	bad := m.maps(pre, post, o, src, false, t, "total")
	bad = append(bad, m.jobs(pre, post, o, src, "total", nil)...)
	if s.F(post, o, t, "IntervalStart") != s.F(pre, o, t, "IntervalStart") {
		bad = append(bad, "the total's start changes")
	}
	for _, a := range s.allWritten(post, pre.Mem()) {
		if a.Mentions(src) {
			bad = append(bad, fmt.Sprintf("merging changes the merged interval: %v", a))
		}
	}
	return bad
}

// jobs compares merged jobs; counts restricts the comparison to these fields.
func (m *merger) jobs(pre, post *ai.State, into, src *Term, where string, counts []string) []string {
	t := m.s.T(H, "IntervalAggregation")
	return m.mapMerged(pre, post, into, src, false, t, "Jobs", where, func(l *ai.LoopSum, it *ai.Iter, old, val *Term, fr bool, upd *Term, et types.Type) []string {
		j := old
		if fr {
			if upd == nil || upd.A[2].Op != "obj" {
				return []string{fmt.Sprintf("a job of the merged side is not added as a copy: %v", upd)}
			}
			j = upd.A[2]
		} else if upd != nil && upd.A[2] != old {
			return []string{fmt.Sprintf("an existing job is replaced by %v", upd.A[2])}
		}
		jt := et.Underlying().(*types.Pointer).Elem()
		if counts != nil {
			return m.counts(l.Head, it.St, j, val, fr, jt, "job", counts)
		}
		return m.job(l.Head, it.St, j, val, fr, jt, "job")
	})
}

func (m *merger) counts(pre, post *ai.State, into, src *Term, fresh bool, t types.Type, where string, fs []string) (bad []string) {
	s := m.s
	for _, f := range fs {
		o := s.Int(0)
		if !fresh {
			o = s.F(pre, into, t, f)
		}
		if r := m.intMerged(post, s.F(post, into, t, f), o, s.F(pre, src, t, f), where+"."+f); r != "" {
			bad = append(bad, r)
		}
	}
	return
}

// ordered: less orders elements of type t by before: strictly smaller ones first.
// before gives the term "x comes before y".
func (s *Sc) ordered(st *ai.State, sort *ai.Effect, t types.Type, before func(st *ai.State, x, y *Term) *Term) string {
	i, j := s.Sym("i", types.Typ[types.Int]), s.Sym("j", types.Typ[types.Int])
	base := st.WithFacts(nil).At(sort.Mem).Clone()
	base.Trace = nil
	lt := types.NewSlice(t)
	list := sort.Args[0]
	if list.Op == "slice" {
		// any elements will do
		base.Forget(list.A[0], lt)
	}
	seq := base.Seq(list, lt)
	for _, k := range []*Term{i, j} {
		base.Assume(s.Lt(k, s.Int(0)), false)
		base.Assume(s.Lt(k, s.Len(seq)), true)
	}
	x, y := base.Elem(seq, i, t), base.Elem(seq, j, t)
	base.Assume(s.Eq(x, s.Nil()), false)
	base.Assume(s.Eq(y, s.Nil()), false)
	msg := ""
	run := func(q *ai.State) []*ai.Exit {
		fn := sort.Fn
		if fn.IsApp("ifaceless") {
			v := fn.A[0]
			m := s.methodOf(v.T, "Less")
			if m == nil {
				return nil
			}
			return s.Run(q, m, []*Term{v.A[0], i, j})
		}
		sig, ok := fn.T.Underlying().(*types.Signature)
		if !ok || sig.Params().Len() != 2 {
			return nil
		}
		if types.Identical(sig.Params().At(0).Type(), t) {
			return s.RunValue(q, fn, []*Term{x, y})
		}
		return s.RunValue(q, fn, []*Term{i, j})
	}
	xs := run(base.Clone())
	if len(xs) == 0 {
		return "the order cannot be determined"
	}
	for _, e := range xs {
		if e.Kind == ai.Panics {
			return "comparing can panic"
		}
		for _, b := range s.Cases(e.St, func(q *ai.State) []string {
			res := e.Vals[0]
			yes := func() bool {
				if isInt(res.T) {
					return q.Need(s.Lt(res, s.Int(0)))
				}
				return q.Need(res)
			}
			if q.Need(before(q, x, y)) {
				if !yes() {
					return []string{"an element that belongs before another one is not sorted before it"}
				}
				return nil
			}
			if q.Need(before(q, y, x)) && yes() {
				return []string{"an element that belongs after another one is sorted before it"}
			}
			return nil
		}) {
			if b != "" {
				msg = b
			}
		}
	}
	return msg
}

// methodOf finds a method in the method set of exactly this type.
func (s *Sc) methodOf(t types.Type, name string) *ssa.Function {
	ms := s.Prog.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return s.Prog.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// finite: a floating point value that is neither infinite nor not a number, as far as zero divisors and roots of
// negative numbers are concerned.
func (s *Sc) finite(st *ai.State, v *Term) string {
	switch {
	case v.Op == "app" && v.S == "f/":
		if m := s.finite(st, v.A[0]); m != "" {
			return m
		}
		if !s.nonzero(st, v.A[1]) {
			return fmt.Sprintf("%v may be zero, and is divided by", v.A[1])
		}
		return s.finite(st, v.A[1])
	case v.IsApp("math.Sqrt"):
		if !s.nonneg(st, v.A[0]) {
			return fmt.Sprintf("%v may be negative, and its root is taken", v.A[0])
		}
		return s.finite(st, v.A[0])
	case v.Op == "app" && (v.S == "math.Log" || v.S == "math.Inf" || v.S == "math.NaN"):
		return fmt.Sprintf("%v may not be finite", v)
	case v.Op == "app" && v.S != "float":
		for _, a := range v.A {
			if m := s.finite(st, a); m != "" {
				return m
			}
		}
	}
	return ""
}

func (s *Sc) nonzero(st *ai.State, v *Term) bool {
	if v.Op == "app" && (v.S == "float" || v.S == "mul" || v.S == "f*") {
		for _, a := range v.A {
			if !s.nonzero(st, a) {
				return false
			}
		}
		return true
	}
	if x, known := st.Holds(s.Eq(v, s.Int(0))); known && isInt(v.T) {
		return !x
	}
	return false
}

func (s *Sc) nonneg(st *ai.State, v *Term) bool {
	if v.Op == "app" && v.S == "f/" {
		return s.nonneg(st, v.A[0]) && s.positive(st, v.A[1])
	}
	if x, known := st.Holds(s.FLt(v, s.Float(0))); known {
		return !x
	}
	return false
}

func (s *Sc) positive(st *ai.State, v *Term) bool {
	return s.nonzero(st, v)
}

var sortKeys = map[string]string{"name": "Name", "count": "Count", "count_success": "CountSuccess", "count_validation_error": "CountValidationError",
	"count_panic": "CountPanic", "count_error": "CountError", "count_junk": "CountJunk", "total_time": "NanosSum", "avg": "NanosAvg",
	"min": "NanosMin", "max": "NanosMax", "stddev": "NanosStdDev"}

var copied = []string{"Count", "CountSuccess", "CountValidationError", "CountPanic", "CountError", "CountJunk", "NanosSum", "NanosSumSquares", "NanosMin", "NanosMax"}

// jobEntries: the list holds one new entry per job of the total; each checks an entry.
func (s *Sc) jobEntries(st *ai.State, content, total *Term, each func(l *ai.LoopSum, it *ai.State, key, job, agg *Term) []string) (bad []string) {
	t := s.T(H, "IntervalAggregation")
	_, mt := fieldPath(t, "Jobs")
	if content.Op == "seq" && len(content.A) == 1 {
		content = content.A[0]
	}
	if content.Op != "each" {
		return []string{fmt.Sprintf("the list is %v instead of the total's jobs", content)}
	}
	l := s.LoopOf(content)
	if l.Kind != "maprange" || !l.Full || l.CollContent != l.Pre.MapContent(s.F(l.Pre, total, t, "Jobs"), mt) {
		return []string{fmt.Sprintf("the list is made from %v instead of all jobs of the total", l.CollContent)}
	}
	for i, items := range s.Items(content) {
		it := l.Iters[i]
		if len(items) == 0 && it.St.Is(s.Eq(l.Val, s.Nil())) {
			continue
		}
		if len(items) != 1 || items[0].Op != "el" || items[0].A[0].Op != "obj" || !l.Fresh(items[0].A[0]) {
			bad = append(bad, fmt.Sprintf("a job is listed as %v", items))
			continue
		}
		bad = append(bad, each(l, it.St, l.Key, items[0].A[0], l.Val)...)
	}
	return
}

func checkC33(c *Ctx) {
	c.Scen("API middleware", func(s *Sc) { s.healthdAPI().middleware() })
	c.Scen("GET /healthd/aggregations", func(s *Sc) {
		a := s.healthdAPI()
		for _, w := range a.handle("/healthd/aggregations") {
			f, ok := w.body["aggregations"]
			s.Ok(ok && (w.list == nil || f.val == w.list), "the worker's intervals are listed", "%v is", f.val)
		}
	})
	c.Scen("GET /healthd/aggregations/overall", func(s *Sc) {
		a := s.healthdAPI()
		for _, w := range a.handle("/healthd/aggregations/overall") {
			f, ok := w.body["overall"]
			if !s.Ok(ok, "there is a total", "the answer has no field overall") {
				continue
			}
			s.Msgs("the total is the merge of all intervals", s.Cases(w.x.St, func(st *ai.State) []string {
				if w.list == nil || st.Need(s.Eq(s.Len(w.list), s.Int(0))) {
					return nil
				}
				return s.combined(st, w.x.St.Trace, f.val, w.list)
			}))
		}
	})
	c.Scen("GET /healthd/jobs", func(s *Sc) {
		a := s.healthdAPI()
		seen := map[string]bool{}
		for _, w := range a.handle("/healthd/jobs") {
			w := w
			f, ok := w.body["jobs"]
			if !s.Ok(ok, "jobs are listed", "the answer has no field jobs") || w.list == nil {
				continue
			}
			for _, b := range s.Cases(w.x.St, func(st *ai.State) []string { return a.jobs(st, w, f.val, seen) }) {
				s.Msgs("jobs are listed, sorted and limited as requested", []string{b})
			}
		}
		for k := range sortKeys {
			s.Ok(seen[k], "every sort key is understood", "%s is not", k)
		}
	})
	c.Scen("GET /healthd/hosts", func(s *Sc) {
		a := s.healthdAPI()
		pt := s.PT(HD, "HostStatus")
		for _, w := range a.handle("/healthd/hosts") {
			f, ok := w.body["hosts"]
			if !s.Ok(ok && (w.list == nil || f.val == w.list), "the worker's hosts are listed", "%v is", f.val) || w.list == nil {
				continue
			}
			var last *ai.Effect
			for _, ef := range w.x.St.Trace {
				if ef.Kind == "sort" && ef.Args[0] == w.list {
					last = ef
				}
			}
			if s.Ok(last != nil, "hosts are sorted", "they are not") {
				m := s.ordered(w.x.St, last, pt, func(st *ai.State, x, y *Term) *Term {
					return s.Lt(s.F(st, x, pt, "HostPort"), s.F(st, y, pt, "HostPort"))
				})
				s.Ok(m == "", "hosts are sorted by name", "%s", m)
			}
		}
	})
	c.Scen("the worker's answers", func(s *Sc) {
		for _, cm := range s.healthd() {
			for _, q := range []string{"getAggregationSequence", "getHosts"} {
				for _, a := range s.ask(cm, HD, "HealthD", q, false, true) {
					if a.req == nil {
						continue
					}
					s.answered(cm, a, func(l wloop, st *ai.State, tr []*ai.Effect, got *ai.Effect) {
						for _, se := range sends(tr) {
							if se.Recv == a.ack {
								if q == "getHosts" {
									s.Msgs("every host is listed, as a copy", s.hostCopies(l.LoopSum, cm, st, se.Args[0]))
								} else {
									s.Msgs("every interval is listed, as a copy", s.intervalCopies(l.LoopSum, cm, st, se.Args[0]))
								}
							}
						}
					})
				}
			}
		}
	})
}

// field of the healthd, by its type.
func (s *Sc) hdField(st *ai.State, recv *Term, is func(t types.Type) bool) *Term {
	t := s.T(HD, "HealthD")
	u := t.Underlying().(*types.Struct)
	var r *Term
	for i := 0; i < u.NumFields(); i++ {
		if is(u.Field(i).Type()) {
			if r != nil {
				s.giveUp("healthd has several fields of type %s", u.Field(i).Type())
			}
			r = s.F(st, recv, t, u.Field(i).Name())
		}
	}
	if r == nil {
		s.giveUp("healthd's state has an unknown form")
	}
	return r
}

func (s *Sc) hostMapT() types.Type { return types.NewMap(strT(), s.PT(HD, "HostStatus")) }

func (s *Sc) hostCopies(l *ai.LoopSum, cm comp, st *ai.State, ans *Term) []string {
	mt := s.hostMapT()
	pt := s.PT(HD, "HostStatus")
	hosts := st.MapContent(s.hdField(st, cm.recv, func(t types.Type) bool { return types.Identical(t.Underlying(), mt) }), mt)
	seq := st.Seq(ans, types.NewSlice(pt))
	if seq.Op == "seq" && len(seq.A) == 1 {
		seq = seq.A[0]
	}
	if seq.Op != "each" {
		return []string{fmt.Sprintf("the answer is %v", seq)}
	}
	k := s.LoopOf(seq)
	if k.Kind != "maprange" || !k.Full || k.CollContent != hosts {
		return []string{"not every host is listed"}
	}
	for i, items := range s.Items(seq) {
		if len(items) != 1 || items[0].Op != "el" {
			return []string{"a host is left out or listed twice"}
		}
		if m := s.sameV(k.Head, k.Val, k.Iters[i].St, items[0].A[0], pt, "the listed host"); m != "" {
			return []string{m}
		}
	}
	return nil
}

func (s *Sc) intervalCopies(l *ai.LoopSum, cm comp, st *ai.State, ans *Term) []string {
	pt := s.PT(H, "IntervalAggregation")
	wt := types.NewSlice(pt)
	win := st.Seq(s.hdField(st, cm.recv, func(t types.Type) bool { return types.Identical(t.Underlying(), wt) }), wt)
	seq := st.Seq(ans, wt)
	if seq.Op == "seq" && len(seq.A) == 1 {
		seq = seq.A[0]
	}
	if seq.Op != "each" {
		return []string{fmt.Sprintf("the answer is %v", seq)}
	}
	k := s.LoopOf(seq)
	if k.Kind != "index" || !k.Full || k.Desc || !st.Is(s.Eq(k.Lo, s.Int(0))) || !st.Is(s.Eq(k.Hi, s.Len(win))) {
		return []string{"not every interval is listed, in order"}
	}
	var bad []string
	for i, items := range s.Items(seq) {
		if len(items) != 1 || items[0].Op != "el" {
			return []string{"an interval is left out or listed twice"}
		}
		bad = append(bad, s.Cases(k.Iters[i].St, func(q *ai.State) []string {
			return []string{s.sameV(k.Head, q.Elem(win, k.Idx, pt), q, items[0].A[0], pt, "the listed interval")}
		})...)
	}
	return bad
}

// jobs checks one answer of the jobs listing.
func (a *apiCtx) jobs(st *ai.State, w answer, v *Term, seen map[string]bool) []string {
	s := a.s
	pj := s.PT(HD, "Job")
	jt := s.T(HD, "Job")
	if st.Need(s.Eq(s.Len(w.list), s.Int(0))) {
		if st.Is(s.Eq(v, s.Nil())) || st.Is(s.Eq(s.Len(v), s.Int(0))) {
			return nil
		}
		return []string{fmt.Sprintf("without intervals the answer lists %v", v)}
	}
	// the request's parameters
	var sortBy, limit, parsed *Term
	failed := false
	for _, ef := range w.x.St.Trace {
		if ef.Kind == "call" && strings.HasSuffix(ef.Name, "url.Values).Get") {
			if n, _ := ef.Args[1].StrVal(); n == "sort" {
				sortBy = ef.Res
			} else if n == "limit" {
				limit = ef.Res
			}
		}
		if ef.Kind == "call" && strings.HasPrefix(ef.Name, "strconv.") && limit != nil && ef.Args[0] == limit {
			parsed, failed = ef.Res.A[0], !succeeded(ef)
		}
	}
	if sortBy == nil || limit == nil {
		return []string{"the sort key and limit of the request are not looked at"}
	}
	if v.Op != "slice" || v.A[1] != s.Int(0) {
		return []string{fmt.Sprintf("the answer lists %v", v)}
	}
	content := w.st.CellOf(v.A[0])
	var sorted *ai.Effect
	for _, ef := range w.x.St.Trace {
		if ef.Kind == "sort" && ef.Args[0].Op == "slice" && ef.Args[0].A[0] == v.A[0] {
			sorted = ef
		}
	}
	if content.IsApp("sorted") {
		content = content.A[0]
	}
	n := s.Len(content)
	// limit
	want := n
	switch {
	case parsed == nil:
		if !st.Is(s.Eq(s.Len(limit), s.Int(0))) {
			return []string{"a limit is ignored"}
		}
	case !failed:
		if st.Need(s.Lt(s.Int(0), parsed)) && st.Need(s.Lt(parsed, n)) {
			want = parsed
		}
	}
	if got := s.Len(v); !st.Is(s.Eq(got, want)) {
		return []string{fmt.Sprintf("%v jobs are listed instead of %v", got, want)}
	}
	// order
	for k, field := range sortKeys {
		if eq, known := st.Holds(s.Eq(sortBy, s.Str(k))); known && !eq {
			continue
		} else if !known {
			return []string{"sort key " + k + " makes no difference"}
		}
		seen[k] = true
		if sorted == nil {
			return []string{"the list is not sorted by " + k}
		}
		if sorted.Args[0].A[1] != s.Int(0) || !st.Is(s.Eq(s.Len(sorted.Args[0]), n)) {
			return []string{"only a part of the list is sorted by " + k}
		}
		m := s.ordered(w.x.St, sorted, pj, func(q *ai.State, x, y *Term) *Term {
			fx, fy := s.F(q, x, pj, field), s.F(q, y, pj, field)
			if k == "name" {
				return s.Lt(fx, fy)
			}
			if fx.T.Underlying() == f64T() {
				return s.FLt(fy, fx)
			}
			return s.Lt(fy, fx)
		})
		if m != "" {
			return []string{"sorting by " + k + ": " + m}
		}
	}
	// entries
	var total *Term
	for _, ef := range w.x.St.Trace {
		if ef.Kind == "loop" && ef.Loop.Kind == "index" {
			for _, c := range ef.Loop.Cells {
				if r := ai.RootOf(c); r.Op == "obj" && s.CellType(r) == nil && types.Identical(objT(r), s.T(H, "IntervalAggregation")) {
					total = r
				}
			}
		}
	}
	if total == nil {
		return []string{"the intervals are not merged"}
	}
	bad := s.combined(st, w.x.St.Trace, total, w.list)
	return append(bad, s.jobEntries(st, content, total, func(l *ai.LoopSum, it *ai.State, key, job, agg *Term) []string {
		at := s.T(H, "JobAggregation")
		if s.F(it, job, jt, "Name") != key {
			return []string{fmt.Sprintf("a job is listed under the name %v", s.F(it, job, jt, "Name"))}
		}
		for _, f := range copied {
			if g, x := s.F(it, job, jt, f), s.F(it, agg, at, f); g != x && !it.Is(s.Eq(g, x)) {
				return []string{fmt.Sprintf("%s of a job is listed as %v", f, g)}
			}
		}
		return s.Cases(it, func(q *ai.State) []string {
			cnt := s.F(q, agg, at, "Count")
			avg := s.F(q, job, jt, "NanosAvg")
			if q.Need(s.Eq(cnt, s.Int(0))) {
				if !q.Is(s.Eq(avg, s.Float(0))) {
					return []string{fmt.Sprintf("the average without samples is %v", avg)}
				}
			} else if x := s.FDiv(s.App("float", f64T(), s.F(q, agg, at, "NanosSum")), s.App("float", f64T(), cnt)); avg != x {
				return []string{fmt.Sprintf("the average is %v", avg)}
			}
			return []string{s.finite(q, s.F(q, job, jt, "NanosStdDev"))}
		})
	})...)
}

func objT(o *Term) types.Type {
	if p, ok := o.T.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return o.T
}
