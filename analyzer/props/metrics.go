package props

import (
	"fmt"
	"go/types"
	"strings"

	"verif/analyzer/ai"
)

// gauge is one runtime quantity.
type rtGauge struct {
	key, opt string
	// value: the ways of computing it from what the runtime reported before the gauge was emitted.
	value func(s *Sc, st *ai.State, tr []*ai.Effect, at *ai.Effect) []*Term
}

// lastCall is the last call of a function before an effect.
func lastCall(tr []*ai.Effect, at *ai.Effect, names ...string) *ai.Effect {
	var r *ai.Effect
	for _, ef := range tr {
		if ef == at {
			break
		}
		for _, n := range names {
			if ef.Kind == "call" && ef.Name == n {
				r = ef
			}
		}
	}
	return r
}

func memStat(fields ...string) func(s *Sc, st *ai.State, tr []*ai.Effect, at *ai.Effect) []*Term {
	return func(s *Sc, st *ai.State, tr []*ai.Effect, at *ai.Effect) (r []*Term) {
		rd := lastCall(tr, at, "runtime.ReadMemStats")
		if rd == nil {
			return nil
		}
		t := s.Fn(HR, "NewRuntimeMetrics").Prog.ImportedPackage("runtime").Type("MemStats").Type()
		for _, f := range fields {
			_, ft := fieldPath(t, f)
			v := s.F(st.At(at.Mem), rd.Args[0], t, f)
			if b, ok := ft.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat == 0 {
				v = s.App("float", f64T(), v)
			}
			r = append(r, v)
		}
		return
	}
}

func plainCall(name string) func(s *Sc, st *ai.State, tr []*ai.Effect, at *ai.Effect) []*Term {
	return func(s *Sc, st *ai.State, tr []*ai.Effect, at *ai.Effect) []*Term {
		rd := lastCall(tr, at, name)
		if rd == nil {
			return nil
		}
		return []*Term{s.App("float", f64T(), rd.Res)}
	}
}

func quantile(max bool) func(s *Sc, st *ai.State, tr []*ai.Effect, at *ai.Effect) []*Term {
	return func(s *Sc, st *ai.State, tr []*ai.Effect, at *ai.Effect) []*Term {
		rd := lastCall(tr, at, "runtime/debug.ReadGCStats")
		if rd == nil {
			return nil
		}
		t := s.Fn(HR, "NewRuntimeMetrics").Prog.ImportedPackage("runtime/debug").Type("GCStats").Type()
		m := st.At(at.Mem)
		_, sliceT := fieldPath(t, "PauseQuantiles")
		q := s.F(m, rd.Args[0], t, "PauseQuantiles")
		n, ok := s.Len(q).IntVal()
		if !ok || n < 2 || !max && n%2 == 0 {
			return nil
		}
		i := n - 1
		if !max {
			i = i / 2
		}
		v := m.Elem(m.Seq(q, sliceT), s.Int(i), sliceT.Underlying().(*types.Slice).Elem())
		return []*Term{
			s.FDiv(s.App("float", f64T(), s.App("div", i64T(), v, s.Int(1000))), s.Float(1000)),
			s.FDiv(s.App("float", f64T(), v), s.Float(1e6)),
		}
	}
}

func fdCount(s *Sc, st *ai.State, tr []*ai.Effect, at *ai.Effect) []*Term {
	rd := lastCall(tr, at, "os.ReadDir", "io/ioutil.ReadDir")
	if rd == nil || rd.Args[0] != s.Str("/proc/self/fd") {
		return nil
	}
	return []*Term{s.App("float", f64T(), s.Len(rd.Res.A[0]))}
}

var rtGauges = []rtGauge{
	{"alloc", "Memory", memStat("Alloc", "HeapAlloc")},
	{"heap_objects", "Memory", memStat("HeapObjects")},
	{"pause_total_ns", "GC", memStat("PauseTotalNs")},
	{"num_gc", "GC", memStat("NumGC")},
	{"next_gc", "GC", memStat("NextGC")},
	{"gc_cpu_fraction", "GC", memStat("GCCPUFraction")},
	{"gc_pause_quantile_50", "GCQuantile", quantile(false)},
	{"gc_pause_quantile_max", "GCQuantile", quantile(true)},
	{"num_goroutines", "Goroutines", plainCall("runtime.NumGoroutine")},
	{"num_cgo_call", "Cgo", plainCall("runtime.NumCgoCall")},
	{"num_fds_used", "FDs", fdCount},
}

// reported checks what one report emits. opts nil: everything is enabled.
func (s *Sc) reported(st0 *ai.State, tr []*ai.Effect, stream, opts *Term) []string {
	got := map[string][]*ai.Effect{}
	var other []string
	var fdsRead []*ai.Effect
	Flatten(tr, func(ef *ai.Effect, ls []*ai.LoopSum) {
		if ef.Kind == "call" && (ef.Name == "os.ReadDir" || ef.Name == "io/ioutil.ReadDir") {
			fdsRead = append(fdsRead, ef)
		}
		if ef.Kind != "invoke" || ef.Recv != stream {
			return
		}
		k, ok := ef.Args[0].StrVal()
		if !ok || len(ls) > 0 || ef.Name != "Gauge" && ef.Name != "GaugeKv" {
			other = append(other, fmt.Sprintf("%s is called with %v at %s", ef.Name, ef.Args[0], s.C.pos(ef.Pos)))
			return
		}
		got[k] = append(got[k], ef)
	})
	if len(other) > 0 {
		return other
	}
	var bad []string
	known := map[string]bool{}
	for _, g := range rtGauges {
		g := g
		known[g.key] = true
		efs := got[g.key]
		bad = append(bad, s.Cases(st0, func(st *ai.State) []string {
			on := opts == nil || st.Need(s.F(s.NewState(), opts, s.T(HR, "Options"), g.opt))
			if !on {
				if len(efs) > 0 {
					return []string{fmt.Sprintf("%s is reported although %s is off", g.key, g.opt)}
				}
				return nil
			}
			if g.key == "num_fds_used" && len(fdsRead) > 0 {
				if f := fdsRead[len(fdsRead)-1]; !isNilErr(s, st, f.Res.A[1]) {
					if len(efs) > 0 {
						return []string{g.key + " is reported although it could not be read"}
					}
					return nil
				}
			}
			if len(efs) != 1 {
				return []string{fmt.Sprintf("%s is reported %d times", g.key, len(efs))}
			}
			vs := g.value(s, st, tr, efs[0])
			for _, v := range vs {
				if v == efs[0].Args[1] || st.Is(s.Eq(v, efs[0].Args[1])) {
					return nil
				}
			}
			return []string{fmt.Sprintf("%s is reported as %v", g.key, efs[0].Args[1])}
		})...)
	}
	for k, efs := range got {
		if !known[k] {
			bad = append(bad, fmt.Sprintf("an unknown gauge %s is reported at %s", k, s.C.pos(efs[0].Pos)))
		}
	}
	return bad
}

// safeOps: indexing and slicing in a trace's state that could fail.
func (s *Sc) safeOps(obl []*ai.Obligation) []string {
	for _, o := range obl {
		if !o.OK && (o.Kind == "index" || o.Kind == "div" || o.Kind == "nilmap" || o.Kind == "truncate" || o.Kind == "slicecap" || o.Kind == "makecap") {
			return []string{fmt.Sprintf("%s at %s can fail", o.Kind, s.C.pos(o.Pos))}
		}
	}
	return nil
}

func checkC29(c *Ctx) {
	for _, given := range []bool{true, false} {
		given := given
		desc := "reports with options given"
		if !given {
			desc = "reports without options"
		}
		c.Scen(desc, func(s *Sc) {
			ctor := s.Fn(HR, "NewRuntimeMetrics")
			var stream, opts, carg *Term
			cs := s.construct(HR, "NewRuntimeMetrics", func(st *ai.State) []*Term {
				stream = s.Ptr(st, "stream", ctor.Params[0].Type())
				if given {
					opts = s.Ptr(st, "options", s.PT(HR, "Options"))
					carg = opts
				} else {
					carg = s.Nil()
				}
				return []*Term{stream, carg}
			})
			rep := s.M(HR, "RuntimeMetrics", "Report")
			for _, cm := range cs {
				s.On(rep)
				n0 := len(cm.st.Trace)
				for _, x := range s.Call(cm.st.Clone(), rep, cm.recv) {
					s.Msgs("exactly the enabled gauges, each with its own value", s.reported(x.St, x.St.Trace[n0:], stream, opts))
					s.Msgs("reporting cannot fail", s.safeOps(x.St.Obl))
				}
			}
		})
		c.Scen(strings.Replace(desc, "reports", "periodic reports", 1), func(s *Sc) {
			ctor := s.Fn(HR, "NewRuntimeMetrics")
			var stream, opts, carg *Term
			cs := s.construct(HR, "NewRuntimeMetrics", func(st *ai.State) []*Term {
				stream = s.Ptr(st, "stream", ctor.Params[0].Type())
				if given {
					opts = s.Ptr(st, "options", s.PT(HR, "Options"))
					carg = opts
				} else {
					carg = s.Nil()
				}
				return []*Term{stream, carg}
			})
			start := s.M(HR, "RuntimeMetrics", "Start")
			s.On(start)
			n := 0
			for _, cm := range cs {
				for _, x := range s.Call(cm.st, start, cm.recv) {
					q := comp{st: x.St, recv: cm.recv}
					for _, ef := range x.St.Trace {
						if ef.Kind == "go" {
							q.gos = append(q.gos, ef)
						}
					}
					for _, l := range s.workerLoops(q, q.st) {
						for _, ef := range l.Pre.Trace {
							if ef.Kind == "call" && (ef.Name == "time.Tick" || ef.Name == "time.After") {
								ok := opts != nil && len(ef.Args) == 1 && ef.Args[0] == s.F(s.NewState(), opts, s.T(HR, "Options"), "Interval")
								if k, isC := ef.Args[0].IntVal(); opts == nil && isC && k > 0 {
									ok = true
								}
								s.Ok(ok, "reports are made at the configured interval", "the timer runs with %v", ef.Args)
							}
						}
						for _, it := range l.Iters {
							tick := false
							for _, ef := range it.New {
								if ef.Kind == "recv" && ticks(ef.Recv, l.Pre.Trace, it.New) {
									tick = true
								}
							}
							if tick {
								n++
								s.Msgs("each tick makes one report", s.reported(it.St, it.New, stream, opts))
								continue
							}
							Flatten(it.New, func(ef *ai.Effect, _ []*ai.LoopSum) {
								s.Ok(ef.Kind != "invoke" || ef.Recv != stream, "nothing is reported in between", "%s is called at %s", ef.Name, s.C.pos(ef.Pos))
							})
						}
					}
				}
			}
			s.Ok(n > 0, "reports are made periodically", "no timer makes a report")
		})
	}
}
