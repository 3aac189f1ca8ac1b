package props

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// notice is what a report to Bugsnag has to contain (nil: not checked here).
type notice struct {
	job, event, msg, trace        *Term
	kvs                           *Term // content of the key/values
	endpoint, key, release, host  *Term
	identityOnly, withoutIdentity bool
}

// noFrames keeps (*stack.Trace).Frames out of the analysis: C05 is about what it returns.
func (s *Sc) noFrames() *ssa.Function {
	fn := s.M(HS, "Trace", "Frames")
	s.NoInline[fn] = true
	return fn
}

// reportMade finds the one request of a trace.
func (s *Sc) reportMade(tr []*ai.Effect) (post, enc *ai.Effect, bad string) {
	n := 0
	Flatten(tr, func(ef *ai.Effect, ls []*ai.LoopSum) {
		switch {
		case ef.Kind == "call" && isHTTPSend(ef.Name):
			post = ef
			n++
			if len(ls) > 0 {
				n++
			}
		case ef.Kind == "go" || ef.Kind == "dyn":
			bad = "the report is made elsewhere"
		case ef.Kind == "call" && (ef.Name == "json.Marshal" || ef.Name == "json.MarshalIndent"):
			enc = ef
		}
	})
	if n > 1 {
		bad = "more than one request is made for a report"
	}
	return
}

// report checks one report: tr is what the code did for it, st the state afterwards.
func (s *Sc) report(st *ai.State, tr []*ai.Effect, w notice) []string {
	post, enc, bad := s.reportMade(tr)
	if bad != "" {
		return []string{bad}
	}
	if post == nil {
		failed := false
		for _, ef := range tr {
			if ef.Kind == "call" && (ef == enc || ef.Name == "net/http.NewRequest") && ef.Res != nil && ef.Res.Op == "tuple" && !isNilErr(s, st, ef.Res.A[len(ef.Res.A)-1]) {
				failed = true
			}
		}
		if failed {
			return nil // it cannot be encoded
		}
		return []string{"no report is made"}
	}
	url, method, body := s.sentTo(st, tr, post)
	if body == nil || enc == nil || enc.Res == nil || enc.Res.Op != "tuple" {
		return []string{"the request made at " + s.C.pos(post.Pos) + " is not understood"}
	}
	if method != s.Str("POST") {
		return []string{fmt.Sprintf("method %v is used", method)}
	}
	if w.endpoint != nil && url != w.endpoint && !st.Is(s.Eq(url, w.endpoint)) {
		return []string{fmt.Sprintf("the report is posted to %v instead of %v", url, w.endpoint)}
	}
	if body != enc.Res.A[0] {
		return []string{fmt.Sprintf("%v is posted instead of the encoded report", body)}
	}
	return s.payload(st, tr, enc, w)
}

// sentTo describes the request of a sending call.
func (s *Sc) sentTo(st *ai.State, tr []*ai.Effect, post *ai.Effect) (url, method, body *Term) {
	content := func(r *Term) *Term {
		r = unbox(r)
		if r.Op == "nil" {
			return nil
		}
		return st.At(post.Mem).CellOf(s.BC(r))
	}
	switch post.Name {
	case "(*net/http.Client).Get":
		return post.Args[1], s.Str("GET"), nil
	case "net/http.Get":
		return post.Args[0], s.Str("GET"), nil
	case "(*net/http.Client).Post":
		return post.Args[1], s.Str("POST"), content(post.Args[3])
	case "net/http.Post":
		return post.Args[0], s.Str("POST"), content(post.Args[2])
	case "(*net/http.Client).Do":
		for _, ef := range tr {
			if ef.Kind == "call" && ef.Name == "net/http.NewRequest" && ef.Res.A[0] == post.Args[1] {
				return ef.Args[1], ef.Args[0], content(ef.Args[2])
			}
		}
	}
	return nil, nil, nil
}

// at follows names through nested JSON objects.
func (s *Sc) jsonAt(v *Term, t types.Type, names ...string) (*Term, types.Type) {
	for _, n := range names {
		var f *jsonField
		for _, g := range s.jsonFields(v, t) {
			if g.name == n {
				g := g
				f = &g
			}
		}
		if f == nil || f.val == nil {
			return nil, nil
		}
		v, t = f.val, f.t
	}
	return v, t
}

// single is the only element of a list.
func (s *Sc) single(st *ai.State, v *Term, t types.Type) (*Term, types.Type) {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil, nil
	}
	q := st.Seq(v, t)
	if q.Op != "seq" || len(q.A) != 1 || q.A[0].Op != "el" {
		return nil, nil
	}
	return s.deref(st, q.A[0].A[0], sl.Elem())
}

func (s *Sc) deref(st *ai.State, v *Term, t types.Type) (*Term, types.Type) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return st.Load(v, p.Elem()), p.Elem()
	}
	return v, t
}

func (s *Sc) payload(st0 *ai.State, tr []*ai.Effect, enc *ai.Effect, w notice) []string {
	if enc.Args[0].Op != "iface" {
		return []string{"what is encoded is not understood"}
	}
	st := st0.At(enc.Mem)
	v, t := s.deref(st, enc.Args[0].A[0], enc.Args[0].T)
	events, et := s.jsonAt(v, t, "events")
	if events == nil {
		return []string{"the report has no events"}
	}
	ev, evt := s.single(st, events, et)
	if ev == nil {
		return []string{"the report is not about exactly one event"}
	}
	exs, ext := s.jsonAt(ev, evt, "exceptions")
	if exs == nil {
		return []string{"the report has no exceptions"}
	}
	ex, xt := s.single(st, exs, ext)
	if ex == nil {
		return []string{"the report is not about exactly one error"}
	}
	var bad []string
	is := func(name string, want *Term, v *Term, t types.Type, path ...string) {
		if want == nil {
			return
		}
		got, _ := s.jsonAt(v, t, path...)
		if got != want && (got == nil || !st.Is(s.Eq(got, want))) {
			bad = append(bad, fmt.Sprintf("%s is %v instead of %v", name, got, want))
		}
	}
	is("the API key", w.key, v, t, "apiKey")
	is("the release stage", w.release, ev, evt, "app", "releaseStage")
	is("the host name", w.host, ev, evt, "device", "hostname")
	is("the context", w.job, ev, evt, "context")
	is("the error class", w.event, ex, xt, "errorClass")
	is("the message", w.msg, ex, xt, "message")
	if w.kvs != nil {
		got, gt := s.jsonAt(ev, evt, "metaData", "kvs")
		if got == nil {
			bad = append(bad, "the key/values are missing")
		} else if m, ok := gt.Underlying().(*types.Map); ok {
			if d := s.sameMap(st, w.kvs, st, st.MapContent(got, gt), m, "the report's key/values"); d != "" {
				bad = append(bad, d)
			}
		}
	}
	if w.trace != nil {
		bad = append(bad, s.stacktrace(st, tr, ex, xt, w.trace)...)
	}
	return bad
}

// stacktrace checks that a report lists the frames of the trace.
func (s *Sc) stacktrace(st *ai.State, tr []*ai.Effect, ex *Term, xt types.Type, trace *Term) []string {
	frames := s.M(HS, "Trace", "Frames")
	var fr *Term
	for _, ef := range tr {
		if ef.Kind == "call" && ef.Name == ai.FuncName(frames) {
			if ef.Args[0] != trace {
				return []string{fmt.Sprintf("the frames reported are those of %v", ef.Args[0])}
			}
			fr = ef.Res
		}
	}
	if fr == nil {
		return []string{"the frames of the trace are not reported"}
	}
	v, t := s.jsonAt(ex, xt, "stacktrace")
	if v == nil {
		return []string{"the report has no stack trace"}
	}
	q := st.Seq(v, t)
	if q.Op == "seq" && len(q.A) == 0 && st.Is(s.Eq(s.Len(fr), s.Int(0))) {
		return nil
	}
	if q.Op == "seq" && len(q.A) == 1 && q.A[0].Op == "sp" && q.A[0].A[0].Op == "seq" && len(q.A[0].A[0].A) == 1 && q.A[0].A[1] == s.Int(0) && st.Is(s.Eq(q.A[0].A[2], s.Len(fr))) {
		q = q.A[0].A[0]
	}
	if q.Op != "seq" || len(q.A) != 1 || q.A[0].Op != "each" {
		return []string{fmt.Sprintf("the stack trace is %v", q)}
	}
	l := s.LoopOf(q.A[0])
	if l.Kind != "index" || l.Step != 1 || l.Desc || !l.Full || !st.Is(s.Eq(l.Lo, s.Int(0))) || !st.Is(s.Eq(l.Hi, s.Len(fr))) {
		return []string{fmt.Sprintf("the stack trace is made from frames %v to %v of %v", l.Lo, l.Hi, s.Len(fr))}
	}
	ft := s.T(HS, "Frame")
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return []string{"the stack trace is not a list"}
	}
	for i, els := range s.Items(q.A[0]) {
		if len(els) != 1 || els[0].Op != "el" {
			return []string{"a frame yields another number of entries than one"}
		}
		ist := l.Iters[i].St
		f := ist.Elem(ist.Seq(fr, types.NewSlice(ft)), l.Idx, ft)
		g, gt := s.deref(ist, els[0].A[0], sl.Elem())
		of := func(n string) *Term { return s.FieldV(f, ft, n) }
		for n, want := range map[string]*Term{"file": of("File"), "lineNumber": of("LineNumber"), "method": s.Cat(of("Package"), s.Str(":"), of("Name")), "inProject": s.Not(of("IsSystemPackage"))} {
			if got, _ := s.jsonAt(g, gt, n); got != want && (got == nil || !ist.Is(s.Eq(got, want))) {
				return []string{fmt.Sprintf("%s of frame i is %v instead of %v", n, got, want)}
			}
		}
	}
	return nil
}

// bugsnagErr is an unmuted error with unknown contents.
func (s *Sc) bugsnagErr(st *ai.State) (er, boxed *Term) {
	er = s.Ptr(st, "er", s.T(H, "UnmutedError"))
	st.Assume(s.Eq(s.F(st, er, s.T(H, "UnmutedError"), "Err"), s.Nil()), false)
	return er, s.MkIface(er, s.PT(H, "UnmutedError"))
}

type bugsnagSink struct {
	comp
	cfg                          *Term
	endpoint, key, release, host *Term
}

// bugsnags constructs the sink with every kind of configuration.
func (s *Sc) bugsnags() (r []bugsnagSink) {
	ct := s.T(HB, "Config")
	var cfg *Term
	var cs []comp
	for _, c := range s.construct(HB, "NewSink", func(st *ai.State) []*Term {
		cfg = s.Ptr(st, "config", ct)
		for _, f := range []string{"APIKey", "Endpoint", "ReleaseStage", "Hostname"} {
			s.SetF(st, cfg, ct, f, s.Sym("cfg."+f, strT()))
		}
		return []*Term{cfg}
	}) {
		// settings the constructor did not look at may be empty or not
		all := []comp{c}
		for _, f := range []string{"Endpoint", "ReleaseStage", "Hostname"} {
			var next []comp
			for _, c := range all {
				for _, empty := range []bool{true, false} {
					n := c
					n.st = c.st.Clone()
					if n.st.Assume(s.Eq(s.Sym("cfg."+f, strT()), s.Str("")), empty) {
						next = append(next, n)
					}
				}
			}
			all = next
		}
		cs = append(cs, all...)
	}
	for _, c := range cs {
		b := bugsnagSink{comp: c, cfg: cfg, key: s.Sym("cfg.APIKey", strT())}
		def := func(f string, d func() *Term) *Term {
			v := s.Sym("cfg."+f, strT())
			if c.st.Is(s.Eq(v, s.Str(""))) {
				return d()
			}
			return v
		}
		b.endpoint = def("Endpoint", func() *Term { return s.Str("https://notify.bugsnag.com/") })
		b.release = def("ReleaseStage", func() *Term { return s.Str("production") })
		b.host = def("Hostname", func() *Term {
			for _, ef := range c.st.Trace {
				if ef.Kind == "call" && ef.Name == "os.Hostname" && ef.Res != nil && ef.Res.Op == "tuple" {
					return ef.Res.A[0]
				}
			}
			return s.Str("?") // not asked for
		})
		r = append(r, b)
	}
	return
}

func checkC06(c *Ctx) {
	ut := func(s *Sc) types.Type { return s.T(H, "UnmutedError") }
	c.Scen("unmuted errors", func(s *Sc) {
		s.noFrames()
		for _, b := range s.bugsnags() {
			for _, emitted := range []bool{false, true} {
				cm := b.comp
				cm.st = cm.st.Clone()
				er, boxed := s.bugsnagErr(cm.st)
				s.SetF(cm.st, er, ut(s), "Emitted", s.Bool(emitted))
				job, event, kvs := s.Sym("job", strT()), s.Sym("event", strT()), s.Sym("kvs", mapSS())
				if emitted {
					s.silent(cm, "EmitEventErr", "an error already reported", job, event, boxed, kvs)
					continue
				}
				n := notice{job: job, event: event, msg: cm.st.ErrText(boxed), trace: s.F(cm.st, er, ut(s), "Stack"), kvs: cm.st.MapContent(kvs, mapSS())}
				for _, h := range s.deliverThen(cm, HB, "Sink", "EmitEventErr", func(st *ai.State) {
					// what the reporter and the application do before the worker gets to it
					s.SetF(st, er, ut(s), "Emitted", s.Sym("emitted.later", types.Typ[types.Bool]))
					st.Forget(s.MC(kvs, mapSS()), mapSS())
				}, job, event, boxed, kvs) {
					s.Ok(len(h.outs) == 0, "one report for each unmuted error", "the worker may stop at a report")
					for _, it := range h.iters {
						s.Msgs("one report for each unmuted error, made from what was emitted", s.report(it.St, it.New, n))
					}
				}
			}
		}
	})
	c.Scen("other records", func(s *Sc) {
		for _, b := range s.bugsnags() {
			for _, r := range s.emissions() {
				args := append([]*Term(nil), r.args...)
				cm := b.comp
				cm.st = cm.st.Clone()
				if r.method == "EmitEventErr" {
					m := s.Ptr(cm.st, "muted", s.T(H, "MutedError"))
					args[2] = s.MkIface(m, s.PT(H, "MutedError"))
				}
				s.silent(cm, r.method, "a record other than an unmuted error", args...)
			}
			break
		}
		// nothing else makes the worker report
		for _, b := range s.bugsnags() {
			for _, l := range s.workerLoops(b.comp, b.st) {
				for _, it := range append(append([]*ai.Iter(nil), l.Iters...), l.Breaks...) {
					got := 0
					for _, ef := range it.New {
						if ef.Kind == "recv" && ef.Res != nil && ef.Res.T != nil {
							if _, ok := ef.Res.T.Underlying().(*types.Pointer); ok {
								got++
							} else if _, ok := ef.Res.T.Underlying().(*types.Struct); ok {
								got++
							}
						}
					}
					n := 0
					Flatten(it.New, func(ef *ai.Effect, _ []*ai.LoopSum) {
						if ef.Kind == "call" && isHTTPSend(ef.Name) {
							n++
						}
					})
					var from []*Term
					for _, ef := range it.New {
						if ef.Kind == "recv" {
							from = append(from, ef.Recv)
						}
					}
					Flatten(it.New, func(ef *ai.Effect, _ []*ai.LoopSum) {
						if ef.Kind != "send" {
							return
						}
						for _, ch := range from {
							s.Ok(ef.Recv != ch, "no other reports", "the worker hands an error to itself once more")
						}
					})
					s.Ok(n <= got, "no other reports", "the worker makes %d requests after receiving %d errors", n, got)
				}
			}
			break
		}
	})
}

// silent: the record leads to nothing.
func (s *Sc) silent(c comp, method, what string, args ...*Term) {
	fn := s.M(HB, "Sink", method)
	s.On(fn)
	n0 := len(c.st.Trace)
	for _, x := range s.Call(c.st.Clone(), fn, append([]*Term{c.recv}, args...)...) {
		bad := ""
		Flatten(x.St.Trace[n0:], func(ef *ai.Effect, _ []*ai.LoopSum) {
			if ef.Kind == "send" || ef.Kind == "select" || ef.Kind == "go" || ef.Kind == "dyn" || ef.Kind == "call" && isHTTPSend(ef.Name) {
				bad = ef.Kind + " at " + s.C.pos(ef.Pos)
			}
		})
		s.Ok(bad == "", "no report for other records", "%s of %s leads to a report (%s)", method, what, bad)
	}
}

func checkC07(c *Ctx) {
	c.Scen("reports made directly", func(s *Sc) {
		s.noFrames()
		fn := s.Fn(HB, "Notify")
		s.On(fn)
		st := s.NewState()
		ct := s.T(HB, "Config")
		cfg := s.Ptr(st, "config", ct)
		er := s.Sym("err", errT())
		st.Assume(s.Eq(er, s.Nil()), false)
		trace := s.Ptr(st, "trace", s.T(HS, "Trace"))
		job, event, kvs := s.Sym("job", strT()), s.Sym("event", strT()), s.Sym("kvs", mapSS())
		n := notice{job: job, event: event, msg: st.ErrText(er), trace: trace, kvs: st.MapContent(kvs, mapSS()),
			endpoint: s.F(st, cfg, ct, "Endpoint"), key: s.F(st, cfg, ct, "APIKey"), release: s.F(st, cfg, ct, "ReleaseStage"), host: s.F(st, cfg, ct, "Hostname")}
		for _, x := range s.Call(st, fn, cfg, job, event, er, trace, kvs) {
			s.Msgs("a complete report, posted once to the endpoint", s.report(x.St, x.St.Trace, n))
			s.Msgs("failures are returned", s.outcome(x))
		}
	})
	c.Scen("reports of the sink", func(s *Sc) {
		s.noFrames()
		seen := map[string]bool{}
		for _, b := range s.bugsnags() {
			for _, f := range []string{"Endpoint", "ReleaseStage", "Hostname"} {
				if e, k := b.st.Holds(s.Eq(s.Sym("cfg."+f, strT()), s.Str(""))); k && e {
					seen[f] = true
				}
			}
			cm := b.comp
			cm.st = cm.st.Clone()
			er, boxed := s.bugsnagErr(cm.st)
			s.SetF(cm.st, er, s.T(H, "UnmutedError"), "Emitted", s.Bool(false))
			job, event, kvs := s.Sym("job", strT()), s.Sym("event", strT()), s.Sym("kvs", mapSS())
			for _, h := range s.deliver(cm, HB, "Sink", "EmitEventErr", job, event, boxed, kvs) {
				for _, it := range h.iters {
					s.Msgs("a report with the configured identity or its defaults", s.report(it.St, it.New, notice{endpoint: b.endpoint, key: b.key, release: b.release, host: b.host}))
				}
			}
		}
		for _, f := range []string{"Endpoint", "ReleaseStage", "Hostname"} {
			s.Ok(seen[f], "defaults for empty settings", "an empty %s gets no default", f)
		}
	})
}

// outcome checks what Notify returns.
func (s *Sc) outcome(x *ai.Exit) []string {
	return s.Cases(x.St, func(st *ai.State) []string {
		ret := x.Vals[0]
		isNil := ret == s.Nil() || st.Need(s.Eq(ret, s.Nil()))
		var read *ai.Effect
		for _, ef := range x.St.Trace {
			if ef.Kind != "call" || ef.Res == nil || ef.Res.Op != "tuple" {
				continue
			}
			switch {
			case ef.Name == "json.Marshal", ef.Name == "json.MarshalIndent", ef.Name == "net/http.NewRequest", isHTTPSend(ef.Name), ef.Name == "io.ReadAll":
				if ef.Name == "io.ReadAll" {
					read = ef
				}
				if !isNilErr(s, st, ef.Res.A[1]) {
					if isNil {
						return []string{"no error is returned although " + ef.Name + " failed"}
					}
					return nil
				}
			}
		}
		if read == nil {
			if isNil {
				return []string{"success is reported without reading the answer"}
			}
			return nil
		}
		ok := st.Need(s.Eq(read.Res.A[0], s.Str("OK")))
		if ok && !isNil {
			return []string{fmt.Sprintf("%v is returned although the answer is OK", ret)}
		}
		if !ok && isNil {
			return []string{"no error is returned although the answer is not OK"}
		}
		return nil
	})
}
