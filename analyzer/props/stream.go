package props

import (
	"fmt"
	"go/types"
	"strings"

	"verif/analyzer/ai"
)

type bcast struct {
	Method string
	Calls  []*ai.Effect // one per iteration path of the loop over the sinks
	Loop   *ai.LoopSum
}

func isEmit(ef *ai.Effect) bool { return ef.Kind == "invoke" && strings.HasPrefix(ef.Name, "Emit") }

// broadcasts reads a trace as a sequence of complete broadcasts to all sinks.
func (s *Sc) broadcasts(st *ai.State, tr []*ai.Effect, sinks *Term) ([]bcast, string) {
	sinkT := types.NewSlice(s.T(H, "Sink"))
	var r []bcast
	for _, ef := range tr {
		if isEmit(ef) {
			return nil, fmt.Sprintf("%s is called outside a loop over all sinks (at %s)", ef.Name, s.C.pos(ef.Pos))
		}
		if ef.Kind == "go" {
			return nil, fmt.Sprintf("work is handed to another goroutine at %s", s.C.pos(ef.Pos))
		}
		if ef.Kind != "loop" {
			continue
		}
		l := ef.Loop
		n := 0
		Flatten([]*ai.Effect{ef}, func(x *ai.Effect, _ []*ai.LoopSum) {
			if isEmit(x) {
				n++
			}
		})
		if n == 0 {
			continue
		}
		at := s.C.pos(l.Pos)
		if ef.Part || !l.Full {
			return nil, fmt.Sprintf("the loop over the sinks at %s can be left before every sink was served", at)
		}
		if l.Kind != "index" || !st.Is(s.Eq(l.Lo, s.Int(0))) || !st.Is(s.Eq(l.Hi, s.Len(sinks))) || (l.Step != 1 && l.Step != -1) {
			return nil, fmt.Sprintf("the emitting loop at %s does not cover all sinks (from %v to %v)", at, l.Lo, l.Hi)
		}
		b := bcast{Loop: l}
		for _, it := range l.Iters {
			var calls []*ai.Effect
			for _, x := range it.New {
				if isEmit(x) {
					calls = append(calls, x)
				} else if x.Kind == "loop" {
					k := 0
					Flatten([]*ai.Effect{x}, func(y *ai.Effect, _ []*ai.LoopSum) {
						if isEmit(y) {
							k++
						}
					})
					if k > 0 {
						return nil, fmt.Sprintf("emission inside a nested loop at %s", at)
					}
				}
			}
			want := it.St.Elem(it.St.Seq(sinks, sinkT), l.Idx, s.T(H, "Sink"))
			if len(calls) == 0 && it.St.Is(s.Eq(want, s.Nil())) {
				continue // a nil sink cannot be served
			}
			if len(calls) != 1 {
				return nil, fmt.Sprintf("a sink is called %d times in one pass of the loop at %s", len(calls), at)
			}
			if calls[0].Recv != want {
				return nil, fmt.Sprintf("the loop at %s calls %v instead of the current sink", at, calls[0].Recv)
			}
			if b.Method != "" && b.Method != calls[0].Name {
				return nil, "sinks get different kinds of records at " + at
			}
			b.Method = calls[0].Name
			b.Calls = append(b.Calls, calls[0])
		}
		r = append(r, b)
	}
	return r, ""
}

type recKind struct {
	Method string
	Sink   string
	Kv     bool
	Val    string // parameter carried: "", ns, value, err, status
}

var recKinds = []recKind{
	{"Event", "EmitEvent", false, ""}, {"EventKv", "EmitEvent", true, ""},
	{"EventErr", "EmitEventErr", false, "err"}, {"EventErrKv", "EmitEventErr", true, "err"},
	{"Timing", "EmitTiming", false, "ns"}, {"TimingKv", "EmitTiming", true, "ns"},
	{"Gauge", "EmitGauge", false, "value"}, {"GaugeKv", "EmitGauge", true, "value"},
	{"Complete", "EmitComplete", false, "status"}, {"CompleteKv", "EmitComplete", true, "status"},
}

// recScene is a job or stream prepared with symbolic sinks and key/values.
type recScene struct {
	st                    *ai.State
	recv                  *Term
	typ                   string
	stream, job           *Term
	name, start           *Term
	sinks, skv, jkv, ckv  *Term
	skv0, jkv0            *Term // what the constructor left
	event, ns, val, er, s *Term
	mem0                  *ai.Mem
	tr0                   int
}

func mapSS() types.Type { return types.NewMap(types.Typ[types.String], types.Typ[types.String]) }

func (s *Sc) recScenes() []*recScene {
	var out []*recScene
	str := types.Typ[types.String]
	fill := func(r *recScene) {
		r.sinks = s.Sym("sinks", types.NewSlice(s.T(H, "Sink")))
		r.skv = s.Sym("streamKvs", mapSS())
		r.jkv = s.Sym("jobKvs", mapSS())
		r.ckv = s.Sym("callKvs", mapSS())
		r.skv0 = s.F(r.st, r.stream, s.T(H, "Stream"), "KeyValues")
		r.jkv0 = s.F(r.st, r.job, s.T(H, "Job"), "KeyValues")
		s.SetF(r.st, r.stream, s.T(H, "Stream"), "Sinks", r.sinks)
		s.SetF(r.st, r.stream, s.T(H, "Stream"), "KeyValues", r.skv)
		s.SetF(r.st, r.job, s.T(H, "Job"), "KeyValues", r.jkv)
		r.start = s.F(r.st, r.job, s.T(H, "Job"), "Start")
		r.event = s.Sym("event", str)
		r.ns = s.Sym("ns", types.Typ[types.Int64])
		r.val = s.Sym("value", types.Typ[types.Float64])
		r.er = s.Sym("err", types.Universe.Lookup("error").Type())
		r.s = s.Sym("status", s.T(H, "CompletionStatus"))
		r.st.Assume(s.Eq(r.er, s.Nil()), false)
		for _, m := range []string{"MutedError", "UnmutedError"} {
			_, as := s.AssertTo(r.er, s.PT(H, m))
			r.st.Assume(s.Eq(as, s.Nil()), false)
		}
		r.mem0 = r.st.Mem()
		r.tr0 = len(r.st.Trace)
		out = append(out, r)
	}
	// a job made from an arbitrary stream
	{
		st := s.NewState()
		stream := s.Ptr(st, "stream", s.PT(H, "Stream"))
		name := s.Sym("jobName", str)
		nj := s.M(H, "Stream", "NewJob")
		s.On(nj)
		for _, x := range s.Call(st, nj, stream, name) {
			fill(&recScene{st: x.St, recv: x.Vals[0], job: x.Vals[0], typ: "Job", stream: stream, name: name})
		}
	}
	// a stream made by NewStream
	{
		st := s.NewState()
		ns := s.Fn(H, "NewStream")
		s.On(ns)
		for _, x := range s.Call(st, ns) {
			job := s.F(x.St, x.Vals[0], s.T(H, "Stream"), "Job")
			if !s.Ok(job.Op == "obj", "a new stream has its own job", "NewStream leaves Job at %v", job) {
				continue
			}
			fill(&recScene{st: x.St, recv: x.Vals[0], job: job, typ: "Stream", stream: x.Vals[0], name: s.Str("general")})
		}
	}
	return out
}

func (s *Sc) runRec(r *recScene, k recKind) []*ai.Exit {
	fn := s.M(H, r.typ, k.Method)
	s.On(fn)
	args := []*Term{r.recv}
	if k.Val == "status" {
		args = append(args, r.s)
	} else {
		args = append(args, r.event)
		switch k.Val {
		case "ns":
			args = append(args, r.ns)
		case "value":
			args = append(args, r.val)
		case "err":
			args = append(args, r.er)
		}
	}
	if k.Kv {
		args = append(args, r.ckv)
	}
	return s.Call(r.st.Clone(), fn, args...)
}

func (s *Sc) isElapsed(t, start *Term) bool {
	return t.IsApp("time.Sub") && t.A[1] == start && t.A[0] != start && t.A[0].Op == "sym" && strings.HasPrefix(t.A[0].S, "now")
}

// sameJob compares what a job and its stream are after a call with what they were before.
func (s *Sc) sameJob(r *recScene, st *ai.State) []string {
	var bad []string
	cmp := func(obj *Term, typ string, fields ...string) {
		for _, f := range fields {
			if was, is := s.F(r.st, obj, s.T(H, typ), f), s.F(st, obj, s.T(H, typ), f); !st.Is(s.Eq(was, is)) {
				bad = append(bad, fmt.Sprintf("%s.%s becomes %v", typ, f, is))
			}
		}
	}
	cmp(r.job, "Job", "Stream", "JobName", "Start")
	cmp(r.stream, "Stream", "Sinks")
	if r.typ == "Stream" {
		cmp(r.stream, "Stream", "Job")
	}
	return bad
}

func checkC01(c *Ctx) {
	c.Scen("records reach all sinks", func(s *Sc) {
		for _, r := range s.recScenes() {
			s.Ok(r.start.Op == "sym" && strings.HasPrefix(r.start.S, "now"), "a job's start is the time it was created", "Start is %v", r.start)
			for _, k := range recKinds {
				for _, x := range s.runRec(r, k) {
					s.Msgs("recording leaves job and stream as they are", s.sameJob(r, x.St))
					bs, prob := s.broadcasts(x.St, x.St.Trace[r.tr0:], r.sinks)
					if !s.Ok(prob == "", "every sink exactly once", "%s.%s: %s", r.typ, k.Method, prob) {
						continue
					}
					if !s.Ok(len(bs) == 1 && bs[0].Method == k.Sink, "one broadcast of the right kind", "%s.%s makes %d broadcasts %v instead of one %s", r.typ, k.Method, len(bs), bnames(bs), k.Sink) {
						continue
					}
					for _, ef := range bs[0].Calls {
						var want []*Term
						what := "job name"
						bad := ""
						st := x.St
						chk := func(i int, w *Term, n string) {
							if !st.Is(s.Eq(ef.Args[i], w)) && bad == "" {
								what = n
								bad = fmt.Sprintf("%v instead of %v", ef.Args[i], w)
							}
						}
						chk(0, r.name, "job name")
						switch k.Val {
						case "status":
							chk(1, r.s, "status")
							if !s.isElapsed(ef.Args[2], r.start) {
								what, bad = "elapsed time", fmt.Sprintf("%v instead of the time since the job's start", ef.Args[2])
							}
						case "":
							chk(1, r.event, "event name")
						case "ns":
							chk(1, r.event, "event name")
							chk(2, r.ns, "timing")
						case "value":
							chk(1, r.event, "event name")
							chk(2, r.val, "gauge value")
						case "err":
							chk(1, r.event, "event name")
						}
						_ = want
						s.Ok(bad == "", "sinks get the record unchanged", "%s.%s: %s is %s", r.typ, k.Method, what, bad)
					}
				}
			}
		}
	})
	c.Scen("attaching a sink", func(s *Sc) {
		fn := s.M(H, "Stream", "AddSink")
		s.On(fn)
		st := s.NewState()
		stream := s.Ptr(st, "stream", s.PT(H, "Stream"))
		old := s.F(st, stream, s.T(H, "Stream"), "Sinks")
		sink := s.Sym("sink", s.T(H, "Sink"))
		slT := types.NewSlice(s.T(H, "Sink"))
		for _, x := range s.Call(st, fn, stream, sink) {
			if x.St.Is(s.Eq(sink, s.Nil())) {
				continue
			}
			now := s.F(x.St, stream, s.T(H, "Stream"), "Sinks")
			oldSeq := x.St.Seq(old, slT)
			got := x.St.Seq(now, slT)
			// generic element: indices below the old length keep their sink, the new one is added exactly once
			s.Ok(x.St.Is(s.Eq(s.Len(got), s.Add(s.Len(oldSeq), s.Int(1)))), "attaching adds exactly one sink", "the sinks become %v", got)
			msgs := s.Cases(x.St, func(st *ai.State) []string {
				i := s.Sym("i", types.Typ[types.Int])
				st.Assume(s.Lt(i, s.Int(0)), false)
				st.Assume(s.Lt(i, s.Len(oldSeq)), true)
				if st.Elem(got, i, s.T(H, "Sink")) != st.Elem(oldSeq, i, s.T(H, "Sink")) {
					// maybe prepended
					if st.Elem(got, s.Add(i, s.Int(1)), s.T(H, "Sink")) != st.Elem(oldSeq, i, s.T(H, "Sink")) {
						return []string{fmt.Sprintf("an attached sink is lost: sinks become %v", got)}
					}
					if st.Elem(got, s.Int(0), s.T(H, "Sink")) != sink {
						return []string{"the new sink is not attached"}
					}
					return nil
				}
				if st.Elem(got, s.Len(oldSeq), s.T(H, "Sink")) != sink {
					return []string{"the new sink is not attached"}
				}
				return nil
			})
			s.Msgs("attaching keeps all other sinks", msgs)
		}
	})
}

func bnames(bs []bcast) []string {
	var r []string
	for _, b := range bs {
		r = append(r, b.Method)
	}
	return r
}

// kvUnion compares the contents of a key/value map with the union of call, job and stream values for an arbitrary key.
func (s *Sc) kvUnion(st *ai.State, got *Term, prec ...*Term) []string {
	T := mapSS()
	str := types.Typ[types.String]
	return s.Cases(st, func(st *ai.State) []string {
		k := s.Sym("anykey", str)
		c := st.MapContent(got, T)
		v, ok := st.Lookup(c, k, str)
		for i, m := range prec {
			var mc *Term
			if m.Op == "nil" {
				continue
			}
			mc = s.Init(s.MC(m, T), T)
			if !st.Need(s.Has(mc, k)) {
				continue
			}
			w, _ := st.Lookup(mc, k, str)
			if !st.Need(ok) {
				return []string{fmt.Sprintf("a key of %v is missing", m)}
			}
			if !st.Is(s.Eq(v, w)) {
				return []string{fmt.Sprintf("for a key of %v (precedence %d) the value is %v", m, i, v)}
			}
			return nil
		}
		if st.Need(ok) {
			return []string{"a key that was never set is present"}
		}
		return nil
	})
}

func checkC02(c *Ctx) {
	c.Scen("key/values of records", func(s *Sc) {
		T := mapSS()
		for _, r := range s.recScenes() {
			mine := r.typ == "Job" || r.skv0 != r.jkv0 || r.jkv0.Op == "nil"
			empty := func(m *Term) bool {
				return m.Op == "nil" || m.Op == "obj" && r.st.Is(s.Eq(s.Len(r.st.MapContent(m, T)), s.Int(0)))
			}
			s.Ok(empty(r.jkv0) && (r.typ == "Job" || empty(r.skv0)) && mine, "jobs and streams start with no key/values", "a new job has the key/values %v, its stream %v", r.jkv0, r.skv0)
			for _, k := range recKinds {
				for _, x := range s.runRec(r, k) {
					call := s.Nil()
					if k.Kv {
						call = r.ckv
					}
					n := 0
					Flatten(x.St.Trace[r.tr0:], func(ef *ai.Effect, ls []*ai.LoopSum) {
						if !isEmit(ef) {
							return
						}
						n++
						kv := ef.Args[len(ef.Args)-1]
						st := x.St.WithFacts(ef.Fs).At(ef.Mem)
						s.Msgs("union with call over job over stream", s.kvUnion(st, kv, call, r.jkv, r.skv))
					})
					s.Ok(n > 0, "records are emitted", "%s.%s emits nothing", r.typ, k.Method)
					for _, m := range []*Term{r.skv, r.jkv, r.ckv} {
						a := s.MC(m, T)
						got := x.St.CellOf(a)
						s.Ok(got == s.Init(a, T), "recording leaves the maps alone", "%s.%s changes the contents of %v", r.typ, k.Method, m)
					}
					s.Ok(s.F(x.St, r.stream, s.T(H, "Stream"), "KeyValues") == r.skv, "recording leaves the maps alone", "%s.%s replaces the stream's map", r.typ, k.Method)
					s.Ok(s.F(x.St, r.job, s.T(H, "Job"), "KeyValues") == r.jkv, "recording leaves the maps alone", "%s.%s replaces the job's map", r.typ, k.Method)
				}
			}
		}
	})
	c.Scen("key/values of a second record", func(s *Sc) {
		for _, r := range s.recScenes() {
			for _, k := range recKinds[:2] {
				for _, x := range s.runRec(r, k) {
					// other key/values are in force by now
					q := *r
					q.st = x.St
					q.tr0 = len(x.St.Trace)
					q.skv, q.jkv = s.Sym("streamKvs2", mapSS()), s.Sym("jobKvs2", mapSS())
					s.SetF(q.st, r.stream, s.T(H, "Stream"), "KeyValues", q.skv)
					s.SetF(q.st, r.job, s.T(H, "Job"), "KeyValues", q.jkv)
					for _, y := range s.runRec(&q, recKinds[0]) {
						Flatten(y.St.Trace[q.tr0:], func(ef *ai.Effect, ls []*ai.LoopSum) {
							if isEmit(ef) {
								st := y.St.WithFacts(ef.Fs).At(ef.Mem)
								s.Msgs("a record has nothing left over from an earlier one", s.kvUnion(st, ef.Args[len(ef.Args)-1], s.Nil(), q.jkv, q.skv))
							}
						})
					}
				}
			}
		}
	})
	for _, typ := range []string{"Stream", "Job"} {
		c.Scen("setting a key/value on a "+typ, func(s *Sc) {
			fn := s.M(H, typ, "KeyValue")
			s.On(fn)
			st := s.NewState()
			str := types.Typ[types.String]
			recv := s.Ptr(st, "recv", s.PT(H, typ))
			key, val := s.Sym("key", str), s.Sym("val", str)
			m0 := s.F(st, recv, s.T(H, typ), "KeyValues")
			c0 := st.MapContent(m0, mapSS())
			var jkv *Term
			if typ == "Stream" {
				jkv = s.F(st, recv, s.T(H, typ), "Job.KeyValues")
			}
			others := []string{"Sinks", "Job"}
			if typ == "Job" {
				others = []string{"Stream", "JobName", "Start"}
			}
			before := st.Clone()
			for _, x := range s.Call(st, fn, recv, key, val) {
				for _, f := range others {
					was, is := s.F(before, recv, s.T(H, typ), f), s.F(x.St, recv, s.T(H, typ), f)
					s.Ok(x.St.Is(s.Eq(was, is)), "everything else stays", "%s.%s becomes %v", typ, f, is)
				}
				if m := s.F(x.St, recv, s.T(H, typ), "KeyValues"); m != m0 {
					s.Ok(m.Op == "obj", "the map is its own", "KeyValues becomes %v", m)
				}
				s.Msgs("the key gets the value, others keep theirs", s.Cases(x.St, func(st *ai.State) []string {
					k := s.Sym("anykey", str)
					m := s.F(st, recv, s.T(H, typ), "KeyValues")
					v, ok := st.Lookup(st.MapContent(m, mapSS()), k, str)
					if st.Need(s.Eq(k, key)) {
						if !st.Need(ok) || !st.Is(s.Eq(v, val)) {
							return []string{fmt.Sprintf("the key is set to %v", v)}
						}
						return nil
					}
					nilMap := st.Need(s.Eq(m0, s.Nil()))
					if !nilMap && st.Need(s.Has(c0, k)) {
						w, _ := st.Lookup(c0, k, str)
						if !st.Need(ok) || !st.Is(s.Eq(v, w)) {
							return []string{"another key changes"}
						}
						return nil
					}
					if st.Need(ok) {
						return []string{"an unrelated key appears"}
					}
					return nil
				}))
				if jkv != nil {
					s.Ok(s.F(x.St, recv, s.T(H, typ), "Job.KeyValues") == jkv, "stream and job key/values are separate", "the job's map changes")
				}
			}
		})
	}
}

func checkC03(c *Ctx) {
	for _, typ := range []string{"Job", "Stream"} {
		c.Scen("running a function as a job of a "+typ, func(s *Sc) {
			fn := s.M(H, typ, "Run")
			s.On(fn)
			st := s.NewState()
			recv := s.Ptr(st, "recv", s.PT(H, typ))
			errT := types.Universe.Lookup("error").Type()
			f := s.Sym("f", types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", errT)), false))
			s.PanickingFuncs[f] = true
			args := []*Term{recv}
			var sinks, name *Term
			if typ == "Stream" {
				name = s.Sym("jobName", types.Typ[types.String])
				args = append(args, name)
				sinks = s.F(st, recv, s.T(H, "Stream"), "Sinks")
			} else {
				name = s.F(st, recv, s.T(H, "Job"), "JobName")
				stp := s.F(st, recv, s.T(H, "Job"), "Stream")
				st.Assume(s.Eq(stp, s.Nil()), false)
				sinks = s.F(st, recv, s.T(H, "Job"), "Stream.Sinks")
			}
			args = append(args, f)
			seen := map[string]int{}
			for _, x := range s.Run(st, fn, args) {
				var call *ai.Effect
				calls := 0
				first := -1
				for i, ef := range x.St.Trace {
					if ef.Kind == "dyn" && ef.Fn == f {
						call = ef
						calls++
						first = i
					}
				}
				if !s.Ok(calls == 1, "the function is called once", "the function is called %d times", calls) {
					continue
				}
				if !s.Ok(x.Kind == ai.Ret, "a panic never escapes", "the call panics with %v", x.Vals) {
					continue
				}
				pre, prob0 := s.broadcasts(x.St, x.St.Trace[:first], sinks)
				s.Ok(prob0 == "" && len(pre) == 0, "nothing is reported before the function ran", "%v %s", bnames(pre), prob0)
				bs, prob := s.broadcasts(x.St, x.St.Trace[first:], sinks)
				if !s.Ok(prob == "", "reports reach all sinks", "%s", prob) {
					continue
				}
				completes := 0
				for _, b := range bs {
					if b.Method == "EmitComplete" {
						completes++
					}
				}
				s.Ok(completes == 1 && len(bs) > 0 && bs[len(bs)-1].Method == "EmitComplete", "the job is completed exactly once, last", "broadcasts are %v", bnames(bs))
				status := func(b bcast, want string) {
					for _, ef := range b.Calls {
						s.Ok(x.St.Is(s.Eq(ef.Args[1], s.ConstInt(H, want))), "completion status", "completed with %v instead of %s", ef.Args[1], want)
						s.Ok(x.St.Is(s.Eq(ef.Args[0], name)), "job name", "completed under %v", ef.Args[0])
					}
				}
				if call.Name == "panicked" {
					seen["panic"]++
					if !s.Ok(len(bs) == 2 && bs[0].Method == "EmitEventErr", "a panic is reported before the completion", "broadcasts are %v", bnames(bs)) {
						continue
					}
					status(bs[1], "Panic")
					res := x.Vals[0]
					var pv *Term
					text := x.St.ErrText(res)
					text.Any(func(t *Term) bool {
						if t.Op == "sym" && strings.HasPrefix(t.S, "panicval") {
							pv = t
						}
						return false
					})
					v, k := x.St.Holds(s.Eq(res, s.Nil()))
					s.Ok(k && !v && res.Op != "init", "a panic yields an error", "returns %v", res)
					s.Ok(pv != nil, "the error carries the panic value's text", "error text is %v", text)
					for _, ef := range bs[0].Calls {
						n, _ := ef.Args[1].StrVal()
						s.Ok(n == "panic", "the event is named panic", "event is %v", ef.Args[1])
						et := x.St.At(ef.Mem).ErrText(ef.Args[2])
						s.Ok(pv != nil && et.Mentions(pv), "the reported error carries the panic value", "reported error is %v", et)
						stt := x.St.WithFacts(ef.Fs).At(ef.Mem)
						s.Msgs("a stack key/value is attached", s.Cases(stt, func(st *ai.State) []string {
							_, ok := st.Lookup(st.MapContent(ef.Args[3], mapSS()), s.Str("stack"), types.Typ[types.String])
							if !st.Need(ok) {
								return []string{fmt.Sprintf("no \"stack\" key/value in %v = %v", ef.Args[3], st.MapContent(ef.Args[3], mapSS()))}
							}
							return nil
						}))
					}
					continue
				}
				if !s.Ok(len(bs) == 1, "a normal return is only completed", "broadcasts are %v", bnames(bs)) {
					continue
				}
				s.Ok(x.St.Is(s.Eq(x.Vals[0], call.Res)), "the function's own error is returned", "returns %v", x.Vals[0])
				isNil, known := x.St.Holds(s.Eq(call.Res, s.Nil()))
				if !s.Ok(known, "the status depends on the result", "the status does not depend on whether the function returned an error") {
					continue
				}
				if isNil {
					seen["nil"]++
					status(bs[0], "Success")
				} else {
					seen["err"]++
					status(bs[0], "Error")
				}
			}
			for _, k := range []string{"nil", "err", "panic"} {
				s.Ok(seen[k] > 0, "all outcomes covered", "no path for outcome %s", k)
			}
		})
	}
}

func checkC04(c *Ctx) {
	c.Scen("reporting an error", func(s *Sc) {
		um := s.T(H, "UnmutedError")
		for _, r := range s.recScenes() {
			for _, k := range recKinds {
				if k.Val != "err" {
					continue
				}
				seen := map[string]bool{}
				for _, x := range s.runRec(r, k) {
					bs, prob := s.broadcasts(x.St, x.St.Trace[r.tr0:], r.sinks)
					if !s.Ok(prob == "" && len(bs) == 1, "one broadcast", "%s.%s: %s", r.typ, k.Method, prob) {
						continue
					}
					ret := x.Vals[0]
					isM, _ := s.AssertTo(r.er, s.PT(H, "MutedError"))
					isU, asU := s.AssertTo(r.er, s.PT(H, "UnmutedError"))
					msgs := s.Cases(x.St, func(st *ai.State) []string {
						var bad []string
						fail := func(f string, a ...interface{}) { bad = append(bad, k.Method+": "+fmt.Sprintf(f, a...)) }
						emitted := func(m *ai.State, p *Term) *Term { return s.F(m, p, um, "Emitted") }
						for _, ef := range bs[0].Calls {
							if ef.Args[2] != ret {
								fail("the sinks see %v but the caller gets %v", ef.Args[2], ret)
							}
						}
						if st.Need(isM) {
							seen["muted"] = true
							if ret != r.er {
								fail("a muted error is not passed through: %v", ret)
							}
							return bad
						}
						if st.Need(isU) {
							seen["wrapped"] = true
							if ret != r.er {
								fail("an already wrapped error is not passed through: %v", ret)
								return bad
							}
							a, at := s.Addr(st, asU, um, "Emitted")
							for _, ef := range bs[0].Calls {
								if emitted(st.At(ef.Mem), asU) != s.Init(a, at) {
									fail("sinks see the emitted mark changed before emission")
								}
							}
							if v, ok := emitted(st, asU).BoolVal(); !ok || !v {
								fail("an already wrapped error is not marked emitted afterwards")
							}
							for _, fld := range []string{"Err", "Stack"} {
								a, at := s.Addr(st, asU, um, fld)
								if s.F(st, asU, um, fld) != s.Init(a, at) {
									fail("%s of an already wrapped error is changed", fld)
								}
							}
							return bad
						}
						seen["plain"] = true
						if ret.Op != "iface" || !types.Identical(ret.T, s.PT(H, "UnmutedError")) || ret.A[0].Op != "obj" {
							fail("a plain error is not wrapped: %v", ret)
							return bad
						}
						w := ret.A[0]
						for _, ef := range bs[0].Calls {
							m := st.At(ef.Mem)
							if s.F(m, w, um, "Err") != r.er {
								fail("the original error is not kept inside the wrapper")
							}
							if v, ok := emitted(m, w).BoolVal(); !ok || v {
								fail("sinks see a new wrapper marked emitted (%v)", emitted(m, w))
							}
							tr := s.F(m, w, um, "Stack")
							if v, known := m.Holds(s.Eq(tr, s.Nil())); tr.Op != "obj" && (!known || v) {
								fail("the wrapper has no stack trace: %v", tr)
							}
						}
						if v, ok := emitted(st, w).BoolVal(); !ok || !v {
							fail("a new wrapper is not marked emitted afterwards")
						}
						n := 0
						for _, ef := range st.Trace[r.tr0:] {
							if ef.Kind == "call" && ef.Name == "runtime.Callers" {
								n++
							}
						}
						if n == 0 {
							fail("no stack trace is taken for a new wrapper")
						}
						return bad
					})
					s.Msgs("identity, wrapping and emitted mark", msgs)
				}
				for _, w := range []string{"muted", "wrapped", "plain"} {
					s.Ok(seen[w], "all kinds of errors covered", "%s: no path for %s errors", k.Method, w)
				}
			}
		}
	})
	c.Scen("error messages", func(s *Sc) {
		for _, n := range []string{"MutedError", "UnmutedError"} {
			fn := s.M(H, n, "Error")
			s.On(fn)
			st := s.NewState()
			p := s.Ptr(st, "e", s.PT(H, n))
			inner := s.F(st, p, s.T(H, n), "Err")
			st.Assume(s.Eq(inner, s.Nil()), false)
			for _, x := range s.Call(st, fn, p) {
				s.Ok(x.Vals[0].IsApp("Error") && x.Vals[0].A[0] == inner, "message of the wrapped error", "%s.Error returns %v", n, x.Vals[0])
			}
		}
		fn := s.Fn(H, "Mute")
		s.On(fn)
		st := s.NewState()
		er := s.Sym("err", types.Universe.Lookup("error").Type())
		st.Assume(s.Eq(er, s.Nil()), false)
		for _, x := range s.Call(st, fn, er) {
			inner := s.F(x.St, x.Vals[0], s.T(H, "MutedError"), "Err")
			ok := inner == er
			s.Ok(ok, "muting keeps the error", "Mute keeps %v", inner)
		}
	})
}
