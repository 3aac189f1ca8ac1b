package props

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"verif/analyzer/ai"
)

var wordRE = regexp.MustCompile(`[A-Za-z_]+`)

// statusWords lists the status names among the constant parts of a text.
func (s *Sc) statusWords(t *Term, into map[string]bool) {
	names := map[string]bool{}
	for _, n := range statusText {
		names[n] = true
	}
	t.Any(func(x *Term) bool {
		if v, ok := x.StrVal(); ok {
			for _, w := range wordRE.FindAllString(v, -1) {
				if names[w] {
					into[w] = true
				}
			}
		}
		return false
	})
}

// cutText: a name in the text goes through something that can change it.
func cutText(t *Term) bool {
	return t.Any(func(x *Term) bool {
		if x.Op != "app" || x.S != "substr" && !strings.HasPrefix(x.S, "strings.") {
			return false
		}
		for _, a := range x.A {
			if v, ok := a.StrVal(); ok {
				for _, n := range statusText {
					if v == n {
						return true
					}
				}
			}
		}
		return false
	})
}

// onlyStatus: the texts name this status and no other one.
func (s *Sc) onlyStatus(r record, must bool, ts ...*Term) []string {
	got := map[string]bool{}
	for _, t := range ts {
		if cutText(t) {
			return []string{fmt.Sprintf("the name of status %s is changed: %v", r.status, t)}
		}
		s.statusWords(t, got)
	}
	want := statusText[r.status]
	for w := range got {
		if w != want {
			return []string{fmt.Sprintf("status %s is named %s: %v", r.status, w, ts)}
		}
	}
	if must && !got[want] {
		return []string{fmt.Sprintf("status %s is not named: %v", r.status, ts)}
	}
	return nil
}

func checkC35(c *Ctx) {
	c.Scen("names of statuses", func(s *Sc) {
		fn := s.M(H, "CompletionStatus", "String")
		s.On(fn)
		ct := s.T(H, "CompletionStatus")
		sc := s.Pkg(H).Types.Scope()
		names, vals := map[string]string{}, map[string]string{}
		n := 0
		for _, name := range sc.Names() {
			k, ok := sc.Lookup(name).(*types.Const)
			if !ok || !types.Identical(k.Type(), ct) {
				continue
			}
			n++
			if o := vals[k.Val().ExactString()]; o != "" {
				s.Ok(false, "statuses are distinct", "%s and %s have the same value", name, o)
			}
			vals[k.Val().ExactString()] = name
			m := s.methodOf(ct, "String")
			if m == nil {
				m = fn
			}
			for _, x := range s.Call(s.NewState(), m, s.Const(k.Val(), ct)) {
				t, ok := x.Vals[0].StrVal()
				if !s.Ok(ok && t != "", "every status has a name", "%s is named %v", name, x.Vals[0]) {
					continue
				}
				if o := names[t]; o != "" && o != name {
					s.Ok(false, "names are distinct", "%s and %s are both named %q", name, o, t)
				}
				names[t] = name
				if w := statusText[name]; w != "" {
					s.Ok(t == w, "the documented name", "%s is named %q", name, t)
				}
			}
		}
		for name := range statusText {
			_, ok := sc.Lookup(name).(*types.Const)
			s.Ok(ok, "the documented statuses exist", "%s does not", name)
		}
		s.Ok(n >= len(statusText), "the documented statuses exist", "there are %d", n)
	})
	c.Scen("statuses in log lines", func(s *Sc) {
		s.emitCalls(H, "WriterSink", func(r record, x *ai.Exit, recv *Term) {
			if r.status == "" {
				return
			}
			ws, _ := s.writeEffects(x.St.Trace)
			for _, w := range ws {
				s.Msgs("the line names the status", s.onlyStatus(r, len(ws) == 1, w.Args[0]))
			}
			s.Ok(len(ws) > 0, "the status is written", "it is not")
		})
		s.emitCalls(H, "JsonWriterSink", func(r record, x *ai.Exit, recv *Term) {
			if r.status == "" {
				return
			}
			enc := jsonArg(x.St.Trace)
			if !s.Ok(len(enc) == 1, "the record is encoded", "%d times", len(enc)) {
				return
			}
			fs, _ := s.encoded(x.St, enc[0])
			f, ok := fs["Status"]
			s.Ok(ok && f.val != nil && x.St.Is(s.Eq(f.val, s.Str(statusText[r.status]))), "the object names the status", "status %s is encoded as %v", r.status, f.val)
		})
	})
	c.Scen("statuses sent to StatsD", func(s *Sc) {
		s.sanitizers(H, "StatsDSinkSanitizationFunc")
		for _, d := range s.statsdSinks(2) {
			for _, r := range s.emissions() {
				if r.status == "" {
					continue
				}
				named := false
				for _, h := range s.deliver(d.cm, H, "StatsDSink", r.method, r.args...) {
					l := h.loop.LoopSum
					p := d.pending(l)
					if !s.Ok(p != nil, "metrics are gathered in one buffer", "the worker keeps no single buffer of pending metrics") {
						continue
					}
					for _, it := range h.iters {
						s.Msgs("cached keys depend on nothing but their cache key", d.inserts(l, it))
						ts := []*Term{d.cached(l, it.St, it.St.CellOf(p))}
						for _, w := range d.datagrams(it.New) {
							if w.data != nil {
								ts = append(ts, d.cached(l, it.St, w.data))
							}
						}
						s.Msgs("the metric names the status", s.onlyStatus(r, false, ts...))
						var keys []*Term
						for _, t := range ts {
							t.Any(func(x *Term) bool {
								if x.IsApp("key") || x.IsApp("dyn") {
									keys = append(keys, x)
								}
								return false
							})
						}
						named = named || len(s.onlyStatus(r, true, keys...)) == 0
					}
				}
				s.Ok(named, "the metric names the status", "status %s is never named", r.status)
			}
		}
	})
	c.Scen("statuses sent to Librato", func(s *Sc) {
		for _, d := range s.libratos() {
			for _, r := range s.emissions() {
				if r.status == "" {
					continue
				}
				for _, h := range s.deliver(d.cm, HL, "Sink", r.method, r.args...) {
					for _, it := range h.iters {
						var ks []*Term
						for _, f := range []string{"counters", "timers"} {
							_, m1, mt := d.maps(h.loop.LoopSum, it.St, f)
							for c := it.St.MapContent(m1, mt); c.Op == "upd"; c = c.A[0] {
								ks = append(ks, c.A[1])
							}
						}
						// an existing measurement may be updated in place
						for _, a := range s.allWritten(it.St, h.loop.Head.Mem()) {
							a.Any(func(t *Term) bool {
								if t.Op == "lk" {
									ks = append(ks, t.A[1])
								}
								return false
							})
						}
						s.Msgs("the measurement names the status", s.onlyStatus(r, true, ks...))
					}
				}
			}
		}
	})
	c.Scen("counters of the polling sink", func(s *Sc) {
		s.pollingRecords(func(r record) bool { return r.status != "" || r.method == "EmitEvent" }, func(p *polling, r record, h handled) {
			for _, it := range h.iters {
				s.Msgs("a completion counts for its own status only", p.view(h.loop, it).in(func(v *view) []string {
					if v.cur == nil {
						return []string{"no interval is retained after a record"}
					}
					j0, j1, jt, b := v.job(r)
					if b != "" {
						return []string{b}
					}
					var bad []string
					for _, f := range jobCounts {
						w := v.was(j0, jt, f)
						if f == "Count"+r.status {
							w = s.Add(w, s.Int(1))
						}
						if g := v.is(j1, jt, f); !v.post.Is(s.Eq(g, w)) {
							bad = append(bad, fmt.Sprintf("status %s: job.%s becomes %v instead of %v", r.status, f, g, w))
						}
					}
					return bad
				}))
			}
		})
	})
	c.Scen("counters in copies and merges", func(s *Sc) {
		t, jt := s.T(H, "IntervalAggregation"), s.T(H, "JobAggregation")
		_, mt := fieldPath(t, "Jobs")
		prep := func(name string) (*ai.State, *Term) {
			st := s.NewState()
			ia := s.Ptr(st, name, types.NewPointer(t))
			for _, f := range []string{"Jobs", "Timers", "Gauges", "Events", "EventErrs"} {
				st.Assume(s.Eq(s.F(st, ia, t, f), s.Nil()), false)
			}
			return st, ia
		}
		fn := s.M(H, "IntervalAggregation", "Clone")
		s.On(fn)
		st, ia := prep("ia")
		pre := st.Clone()
		for _, x := range s.Call(st, fn, ia) {
			cd := x.St.MapContent(s.F(x.St, x.Vals[0], t, "Jobs"), mt)
			if !s.Ok(cd.Op == "layer" && s.LoopOf(cd).CollContent == pre.MapContent(s.F(pre, ia, t, "Jobs"), mt), "jobs are copied", "the copy's jobs are %v", cd) {
				continue
			}
			l := s.LoopOf(cd)
			for i, ups := range s.Items(cd) {
				for _, u := range ups {
					if u.Op != "updp" {
						s.Ok(false, "jobs are copied", "as %v", u)
						continue
					}
					for _, f := range jobCounts {
						g, w := s.F(l.Iters[i].St, u.A[2], jt, f), s.F(l.Head, l.Val, jt, f)
						s.Ok(l.Iters[i].St.Is(s.Eq(g, w)), "copies keep every counter", "%s becomes %v", f, g)
					}
				}
			}
		}
		fn = s.M(H, "IntervalAggregation", "Merge")
		s.On(fn)
		st, ia = prep("ia")
		src := s.Ptr(st, "other", types.NewPointer(t))
		pre = st.Clone()
		m := &merger{s: s, src: src}
		for _, x := range s.Call(st, fn, ia, src) {
			s.Msgs("merging adds up every counter", m.jobs(pre, x.St, ia, src, "interval", jobCounts))
		}
	})
	c.Scen("counters in JSON", func(s *Sc) {
		for _, t := range []types.Type{s.T(H, "JobAggregation"), s.T(HD, "Job")} {
			fs := map[string]string{}
			jsonNames(t, fs)
			for name, text := range statusText {
				s.Ok(fs["Count"+name] == "count_"+text, "counters keep their names in JSON", "Count%s of %s is called %q", name, t, fs["Count"+name])
			}
			seen := map[string]string{}
			for f, n := range fs {
				s.Ok(seen[n] == "", "names in JSON are distinct", "%s and %s are both called %q", f, seen[n], n)
				seen[n] = f
			}
		}
	})
	c.Scen("counters in the jobs listing", func(s *Sc) {
		a := s.healthdAPI()
		jt, at := s.T(HD, "Job"), s.T(H, "JobAggregation")
		n := 0
		for _, w := range a.handle("/healthd/jobs") {
			f, ok := w.body["jobs"]
			if !ok || w.list == nil || f.val.Op != "slice" {
				continue
			}
			content := w.st.CellOf(f.val.A[0])
			if content.IsApp("sorted") {
				content = content.A[0]
			}
			if content.Op == "seq" && len(content.A) == 1 {
				content = content.A[0]
			}
			if content.Op != "each" {
				continue
			}
			l := s.LoopOf(content)
			for i, items := range s.Items(content) {
				for _, e := range items {
					it := l.Iters[i].St
					if e.Op != "el" || l.Val == nil {
						continue
					}
					n++
					for _, f := range jobCounts {
						g, x := s.F(it, e.A[0], jt, f), s.F(it, l.Val, at, f)
						s.Ok(g == x || it.Is(s.Eq(g, x)), "the listing shows every counter", "%s is %v", f, g)
					}
				}
			}
		}
		s.Ok(n > 0, "the listing shows the counters", "no entry was found")
	})
	c.Scen("columns of healthtop", func(s *Sc) { s.columns() })
}

// jsonNames maps the fields of a struct to their JSON names, embedded structs included.
func jsonNames(t types.Type, into map[string]string) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		name, _, _ := strings.Cut(reflectTag(u.Tag(i)), ",")
		if f.Embedded() && name == "" {
			jsonNames(f.Type(), into)
			continue
		}
		if reflectTag(u.Tag(i)) == "-" || !f.Exported() {
			continue
		}
		if name == "" {
			name = f.Name()
		}
		into[f.Name()] = name
	}
}

// cells splits written texts into table cells.
func cells(ts []*Term) (r [][]*Term) {
	cur := []*Term{}
	for _, t := range ts {
		for _, p := range partsOf(t) {
			v, ok := p.StrVal()
			if !ok {
				cur = append(cur, p)
				continue
			}
			for i, x := range strings.Split(v, "\t") {
				if i > 0 {
					r = append(r, cur)
					cur = nil
				}
				_ = x
				if x != "" {
					cur = append(cur, p)
				}
			}
		}
	}
	return append(r, cur)
}

// columns: under the heading of a status, healthtop shows that status's counter.
func (s *Sc) columns() {
	pr := s.PT(HD, "ApiResponseJobs")
	found := 0
	for _, fn := range s.repoFuncs() {
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != HT || fn.Parent() != nil {
			continue
		}
		has := -1
		for i, p := range fn.Params {
			if types.Identical(p.Type(), pr) {
				has = i
			}
		}
		if has < 0 {
			continue
		}
		st := s.NewState()
		var args []*Term
		for _, p := range fn.Params {
			args = append(args, s.Ptr(st, p.Name(), p.Type()))
		}
		s.On(fn)
		for _, x := range s.Run(st, fn, args) {
			var head []*Term
			var table *Term
			for _, ef := range x.St.Trace {
				if ef.Kind == "write" {
					head = append(head, ef.Args[0])
					table = ef.Recv
				}
				if ef.Kind != "loop" || table == nil {
					continue
				}
				want := map[int]string{}
				for i, c := range cells(head) {
					for _, p := range c {
						p.Any(func(t *Term) bool {
							if v, ok := t.StrVal(); ok && statusText[strings.TrimSpace(v)] != "" {
								want[i] = "Count" + strings.TrimSpace(v)
							}
							return false
						})
					}
				}
				for _, it := range ef.Loop.Iters {
					var row []*Term
					for _, e := range it.New {
						if e.Kind == "write" && e.Recv == table {
							row = append(row, e.Args[0])
						}
					}
					if len(row) == 0 {
						continue
					}
					found++
					got := map[int]string{}
					for i, c := range cells(row) {
						for _, p := range c {
							p.Any(func(t *Term) bool {
								if t.Op == "init" && t.A[0].Op == "fa" {
									if n := ai.FieldName(t.A[0]); n != "Name" && n != "" && strings.HasPrefix(n, "Count") {
										if got[i] != "" && got[i] != n {
											n = got[i] + " and " + n
										}
										got[i] = n
									}
								}
								return false
							})
						}
					}
					s.Ok(len(want) == len(statusText), "every status has a column", "%d have: %v", len(want), want)
					for i, w := range want {
						s.Ok(got[i] == w, "the column of a status shows its counter", "column %d, headed %s, shows %s", i+1, strings.TrimPrefix(w, "Count"), got[i])
					}
					for i, g := range got {
						s.Ok(want[i] == g || g == "Count", "every counter has its own column", "column %d shows %s", i+1, g)
					}
				}
			}
		}
	}
	s.Ok(found > 0, "healthtop lists jobs", "no table of jobs was found")
}
