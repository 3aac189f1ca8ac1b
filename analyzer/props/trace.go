package props

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// maxDepth makes the configured maximum depth arbitrary.
func (s *Sc) maxDepth(st *ai.State) *Term {
	g, ok := s.Pkg(HS).SSA.Members["MaxStackDepth"].(*ssa.Global)
	if !ok {
		s.giveUp("stack.MaxStackDepth not found")
	}
	m := s.Sym("maxdepth", types.Typ[types.Int])
	st.Assume(s.Lt(m, s.Int(0)), false)
	st.Store(s.Global(g), m, types.Typ[types.Int])
	return m
}

// captured checks the one capture of program counters in a trace: extra is the number of additional frames to skip.
func (s *Sc) captured(tr []*ai.Effect, max, extra *Term) (*ai.Effect, string) {
	var cap *ai.Effect
	n, loop := 0, false
	Flatten(tr, func(ef *ai.Effect, ls []*ai.LoopSum) {
		if ef.Kind == "call" && ef.Name == "runtime.Callers" {
			cap = ef
			n++
			loop = loop || len(ls) > 0
		}
	})
	if n != 1 || loop {
		return nil, fmt.Sprintf("the stack is captured %d times", n)
	}
	// the frames of runtime.Callers itself (counted as 0) and of the library come first
	want := s.Add(s.Add(cap.Args[2], s.Int(1)), extra)
	if cap.Args[0] != want {
		return cap, fmt.Sprintf("the trace starts %v frames from the reporting code (skips %v, the library's frames are %v)", s.Sub(cap.Args[0], want), cap.Args[0], want)
	}
	if s.Len(cap.Args[1]) != max {
		return cap, fmt.Sprintf("the trace holds up to %v frames instead of the configured maximum", s.Len(cap.Args[1]))
	}
	return cap, ""
}

// frames checks that the frames of a trace are those captured.
func (s *Sc) frames(st *ai.State, trace *Term, cap *ai.Effect) []string {
	fn := s.M(HS, "Trace", "Frames")
	s.On(fn)
	ft := s.T(HS, "Frame")
	var bad []string
	n0 := len(st.Trace)
	for _, x := range s.Call(st.Clone(), fn, trace) {
		for _, ef := range x.St.Trace[n0:] {
			if ef.Kind == "call" && ef.Name == "runtime.Callers" {
				bad = append(bad, "frames are captured when they are asked for")
			}
		}
		bad = append(bad, s.framesOf(x.St, x.Vals[0], cap, ft)...)
		// asking again
		for _, y := range s.Call(x.St.Clone(), fn, trace) {
			if y.Vals[0] != x.Vals[0] {
				bad = append(bad, s.framesOf(y.St, y.Vals[0], cap, ft)...)
			}
		}
	}
	return bad
}

func (s *Sc) framesOf(st *ai.State, v *Term, cap *ai.Effect, ft types.Type) []string {
	n := cap.Res
	if st.Is(s.Eq(n, s.Int(0))) && st.Is(s.Eq(s.Len(v), s.Int(0))) {
		return nil
	}
	q := st.Seq(v, types.NewSlice(ft))
	if q.Op != "seq" || len(q.A) != 1 || q.A[0].Op != "each" && q.A[0].Op != "sp" {
		return []string{fmt.Sprintf("the frames are %v", q)}
	}
	ea := q.A[0]
	if ea.Op == "sp" {
		// the frames are all elements of an array filled completely
		if ea.A[0].Op == "seq" && len(ea.A[0].A) == 1 && ea.A[0].A[0].Op == "each" && ea.A[1] == s.Int(0) && st.Is(s.Eq(ea.A[2], n)) {
			ea = ea.A[0].A[0]
		} else {
			return []string{fmt.Sprintf("the frames are %v", q)}
		}
	}
	l := s.LoopOf(ea)
	if l.Kind != "index" || l.Step != 1 || l.Desc || !l.Full || !st.Is(s.Eq(l.Lo, s.Int(0))) || !st.Is(s.Eq(l.Hi, n)) {
		return []string{fmt.Sprintf("the frames are made from elements %v to %v of the %v captured", l.Lo, l.Hi, n)}
	}
	it := s.Items(ea)
	for i, els := range it {
		if len(els) != 1 || els[0].Op != "el" {
			return []string{"a captured frame yields another number of entries than one"}
		}
		f := els[0].A[0]
		ist := l.Iters[i].St
		pc := ist.Elem(ist.Seq(cap.Args[1], types.NewSlice(types.Typ[types.Uintptr])), l.Idx, types.Typ[types.Uintptr])
		fld := func(nm string) *Term { return s.FieldV(f, ft, nm) }
		if got := fld("ProgramCounter"); got != pc && !ist.Is(s.Eq(got, pc)) {
			return []string{fmt.Sprintf("entry i is about %v instead of %v", got, pc)}
		}
		fnT := s.App("runtime.FuncForPC", nil, s.Sub(pc, s.Int(1)))
		if ist.Is(s.Eq(pc, s.Int(0))) || nilKnown(s, ist, fnT) {
			continue
		}
		for j, nm := range []string{"File", "LineNumber"} {
			got := fld(nm)
			ok := got.IsApp(fmt.Sprintf("(*runtime.Func).FileLine#%d", j)) && got.A[0].IsApp("runtime.FuncForPC") && got.A[0].A[0] == fnT.A[0] && got.A[1] == fnT.A[0]
			if !ok {
				return []string{fmt.Sprintf("%s of entry i is %v", nm, got)}
			}
		}
		full := s.App("(*runtime.Func).Name", strT(), fnT)
		if bad := s.nameParts(ist, full, fld("Package"), fld("Name")); bad != "" {
			return []string{bad}
		}
		sys := fld("IsSystemPackage")
		if b, ok := sys.BoolVal(); ok || sys.IsApp("strings.HasPrefix") && !(sys.A[0] == fld("File") && sys.A[1].IsApp("runtime.GOROOT")) {
			return []string{fmt.Sprintf("entry i counts as part of the system if %v %v", sys, b)}
		}
	}
	return nil
}

// nameParts checks that package and name of a frame together are the function's full name: "pkg.name", split at the first
// period after the last slash. Other ways to compute them than by substrings are not judged.
func (s *Sc) nameParts(st *ai.State, full, pkg, name *Term) string {
	type piece struct{ lo, hi *Term }
	var sub func(t *Term) (piece, bool)
	sub = func(t *Term) (piece, bool) {
		if t == full {
			return piece{s.Int(0), s.Len(full)}, true
		}
		if t.IsApp("substr") {
			p, ok := sub(t.A[0])
			hi := s.Add(p.lo, t.A[2])
			if t.A[2] == s.Len(t.A[0]) {
				hi = p.hi
			}
			return piece{s.Add(p.lo, t.A[1]), hi}, ok
		}
		return piece{}, false
	}
	// the position of a separator: the last slash, or the first period after it
	slash := s.App("strings.LastIndex", types.Typ[types.Int], full, s.Str("/"))
	Any := func(f func(x *Term) bool) bool { return pkg.Any(f) || name.Any(f) }
	Any(func(x *Term) bool {
		if x.IsApp("strings.LastIndexByte") && x.A[0] == full && x.A[1] == s.Int('/') {
			slash = x
		}
		return false
	})
	at, atName := s.Int(0), ""
	period := false
	for _, t := range append(parts(s.Cat(pkg, s.Str("\x00"), name)), s.Str("")) {
		txt, isText := t.StrVal()
		switch {
		case isText:
			for _, ch := range txt {
				switch ch {
				case '/':
					if !st.Is(s.Eq(at, slash)) {
						return fmt.Sprintf("a slash is put at %v of the function's name", at)
					}
					at = s.Add(at, s.Int(1))
				case 0:
					atName = "name"
				default:
					return fmt.Sprintf("package and name contain %q", txt)
				}
			}
		default:
			p, ok := sub(t)
			if !ok {
				return ""
			}
			if atName != "" && !period && !st.Is(s.Eq(p.lo, at)) {
				// the period between them is left out
				bad, known := "", false
				at.Any(func(x *Term) bool {
					switch {
					case x.IsApp("strings.Index"), x.IsApp("strings.IndexByte"), x.IsApp("strings.IndexRune"):
						if q, ok := sub(x.A[0]); ok && st.Is(s.Eq(at, s.Add(q.lo, x))) {
							known = true
							after := s.Add(slash, s.Int(1))
							if v, k := st.Holds(s.Lt(slash, s.Int(0))); k && v {
								after = s.Int(0)
							}
							if !st.Is(s.Eq(q.lo, after)) {
								bad = fmt.Sprintf("the name is looked for after %v of the function's name", q.lo)
							}
						}
					case x.IsApp("strings.LastIndexByte") && x.A[1] == s.Int('.'), x.IsApp("strings.LastIndex") && x.A[1] == s.Str("."):
						bad = "the name starts after the last period"
					}
					return false
				})
				if bad != "" {
					return bad
				}
				if !known {
					return ""
				}
				at = s.Add(at, s.Int(1))
				period = true
			}
			if !st.Is(s.Eq(p.lo, at)) {
				return fmt.Sprintf("package and name leave out or repeat parts %v to %v of the function's name", at, p.lo)
			}
			at = p.hi
		}
	}
	if !st.Is(s.Eq(at, s.Len(full))) {
		return fmt.Sprintf("package and name end at %v of the function's name", at)
	}
	return ""
}

func parts(t *Term) []*Term {
	if t.Op == "cat" {
		return t.A
	}
	return []*Term{t}
}

// nilKnown reports whether the function of a frame is known to be unknown.
func nilKnown(s *Sc, st *ai.State, fn *Term) bool {
	for _, a := range st.Facts().Atoms() {
		if a.Op == "eq" && st.Is(a) {
			for i := 0; i < 2; i++ {
				if a.A[i].IsApp("runtime.FuncForPC") && a.A[i].A[0] == fn.A[0] && a.A[1-i].Op == "nil" {
					return true
				}
			}
		}
	}
	return false
}

func checkC05(c *Ctx) {
	c.Scen("traces of reported errors", func(s *Sc) {
		for _, r := range s.recScenes() {
			max := s.maxDepth(r.st)
			for _, k := range recKinds {
				if k.Val != "err" {
					continue
				}
				for _, x := range s.runRec(r, k) {
					ret := unbox(x.Vals[0])
					tr := x.St.Trace[r.tr0:]
					if ret.Op != "obj" || ret == unbox(r.er) {
						continue // reported before, or muted (C02 says when)
					}
					s.On(s.M(H, r.typ, k.Method))
					cap, bad := s.captured(tr, max, s.Int(0))
					if !s.Ok(bad == "", "the trace starts at the reporting line", "%s.%s: %s", r.typ, k.Method, bad) {
						continue
					}
					stack := s.F(x.St, ret, s.T(H, "UnmutedError"), "Stack")
					if !s.Ok(stack.Op == "obj", "a trace is attached", "%s.%s: the trace is %v", r.typ, k.Method, stack) {
						continue
					}
					// the trace is complete before the record is handed to the sinks
					for _, ef := range tr {
						if ef.Kind == "call" && ef == cap {
							break
						}
						n := 0
						Flatten([]*ai.Effect{ef}, func(g *ai.Effect, _ []*ai.LoopSum) {
							if g.Kind == "invoke" && g.Name == "EmitEventErr" {
								n++
							}
						})
						s.Ok(n == 0, "a trace is attached", "%s.%s: sinks get the error before its trace is captured", r.typ, k.Method)
					}
					s.Msgs("every captured frame, in order", s.frames(x.St, stack, cap))
				}
			}
		}
	})
	c.Scen("traces made directly", func(s *Sc) {
		fn := s.Fn(HS, "NewTrace")
		s.On(fn)
		st := s.NewState()
		max := s.maxDepth(st)
		skip := s.Sym("skip", types.Typ[types.Int])
		for _, x := range s.Call(st, fn, skip) {
			cap, bad := s.captured(x.St.Trace, max, skip)
			if !s.Ok(bad == "", "the trace starts at the caller", "%s", bad) {
				continue
			}
			s.Msgs("every captured frame, in order", s.frames(x.St, x.Vals[0], cap))
			s.Msgs("the text lists every frame, in order", s.traceText(x.St, x.Vals[0], cap))
		}
	})
}

// traceText checks the printed form: one line per frame.
func (s *Sc) traceText(st *ai.State, trace *Term, cap *ai.Effect) []string {
	fn := s.M(HS, "Trace", "Stack")
	s.On(fn)
	ft := s.T(HS, "Frame")
	for _, x := range s.Call(st.Clone(), fn, trace) {
		if x.St.Is(s.Eq(cap.Res, s.Int(0))) {
			continue
		}
		v := x.Vals[0]
		if v.Op != "each" {
			return []string{fmt.Sprintf("the text is %v", v)}
		}
		l := s.LoopOf(v)
		if l.Kind != "index" || l.Step != 1 || l.Desc || !l.Full || !x.St.Is(s.Eq(l.Lo, s.Int(0))) || !x.St.Is(s.Eq(l.Hi, cap.Res)) {
			return []string{fmt.Sprintf("the text is made from entries %v to %v of %v", l.Lo, l.Hi, cap.Res)}
		}
		for i, parts := range s.Items(v) {
			ist := l.Iters[i].St
			fr := s.F(ist, trace, s.T(HS, "Trace"), "frames")
			f := ist.Elem(ist.Seq(fr, types.NewSlice(ft)), l.Idx, ft)
			want := s.Cat(s.FieldV(f, ft, "File"), s.Str(":"), s.App("dec", strT(), s.FieldV(f, ft, "LineNumber")), s.Str(" "), s.FieldV(f, ft, "Name"), s.Str("\n"))
			if got := s.Cat(parts...); got != want {
				return []string{fmt.Sprintf("entry i is printed as %v", got)}
			}
		}
	}
	return nil
}
