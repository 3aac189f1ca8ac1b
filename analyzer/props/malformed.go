package props

import (
	"fmt"
	"go/types"
	"strings"

	"verif/analyzer/ai"
)

// shapes decides, by induction over loops, which values are never nil (or negative) and which collections hold only
// such values. A value found in a loop is what it was before the loop or at the end of some iteration; while one of
// these is examined, the loop's own value may be assumed to be right.
type shapes struct {
	s     *Sc
	vars  map[*Term]*loopVar
	loops int
	seen  map[seenKey]bool
	// whole: aggregates in collections must have all their maps, too
	whole bool
	w     *shapes // the same with whole values
	// given: contents assumed to hold only right values; has: map values assumed to exist
	given, has func(t *Term) bool
}

type seenKey struct {
	what string
	t    *Term
}

type loopVar struct {
	l *ai.LoopSum
	*ai.LoopVar
}

func (s *Sc) shapes() *shapes {
	g := &shapes{s: s, vars: map[*Term]*loopVar{}, seen: map[seenKey]bool{}}
	no := func(*Term) bool { return false }
	g.given, g.has = no, no
	return g
}

func (g *shapes) loopVar(t *Term) *loopVar {
	for ; g.loops < g.s.LoopCount(); g.loops++ {
		if l := g.s.LoopNo(g.loops + 1); l != nil {
			for _, v := range l.Vars {
				g.vars[v.Head] = &loopVar{l, v}
			}
		}
	}
	return g.vars[t]
}

// induct: ok holds for the values a loop variable has before the loop and after an iteration.
func (g *shapes) induct(what string, t *Term, ok func(st *ai.State, v *Term) bool) (res, is bool) {
	if t.Op == "loopval" {
		t = t.A[0]
	}
	v := g.loopVar(t)
	if v == nil {
		return false, false
	}
	k := seenKey{what, t}
	if g.seen[k] {
		return true, true
	}
	g.seen[k] = true
	if v.Pre == nil || !ok(v.l.Pre, v.Pre) {
		delete(g.seen, k)
		return false, true
	}
	for i, n := range v.Next {
		if n == nil || !ok(v.l.Iters[i].St, n) {
			delete(g.seen, k)
			return false, true
		}
	}
	return true, true
}

// nonnil: t is not nil.
func (g *shapes) nonnil(st *ai.State, t *Term) bool {
	switch t.Op {
	case "obj", "fa", "ia", "global", "func", "closure":
		return t.Op != "obj" || g.complete(st, t)
	case "nil":
		return false
	case "slice":
		return true
	}
	if v, k := st.Holds(g.s.Eq(t, g.s.Nil())); k && (v || !g.whole || t.T == nil || !isPointer(t.T)) {
		return !v
	}
	switch t.Op {
	case "elem":
		return g.elems(st, t.A[0])
	case "lk":
		h, k := st.Holds(g.s.Has(t.A[0], t.A[1]))
		return k && h && g.values(st, t.A[0])
	}
	if r, is := g.induct("nonnil", t, g.nonnil); is {
		return r
	}
	return g.has(t) || g.ofWhole(st, t)
}

// ofWhole: t was read from a field of a value of a map that holds only whole values.
func (g *shapes) ofWhole(st *ai.State, t *Term) bool {
	if t.Op != "init" || t.A[0].Op != "fa" || t.T == nil {
		return false
	}
	if _, ok := t.T.Underlying().(*types.Map); !ok {
		return false
	}
	r := ai.RootOf(t.A[0])
	return r.Op == "lk" && g.asWhole().nonnil(st, r)
}

func (g *shapes) asWhole() *shapes {
	if g.whole {
		return g
	}
	if g.w == nil {
		w := *g
		w.seen, w.vars, w.loops, w.whole = map[seenKey]bool{}, map[*Term]*loopVar{}, 0, true
		g.w = &w
	}
	return g.w
}

func isPointer(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// complete: if whole values are asked for, an aggregate has all its maps, with whole values in them.
func (g *shapes) complete(st *ai.State, o *Term) bool {
	t := objT(o)
	if !g.whole || t == nil {
		return true
	}
	k := seenKey{"complete", o}
	if g.seen[k] {
		return true
	}
	g.seen[k] = true
	return g.maps(st, o, t)
}

func (g *shapes) maps(st *ai.State, a *Term, t types.Type) bool {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return true
	}
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		fa := g.s.FAT(a, i, t)
		if mt, ok := f.Type().Underlying().(*types.Map); ok {
			m := st.Load(fa, f.Type())
			if !g.nonnil(st, m) {
				return false
			}
			if _, ok := mt.Elem().Underlying().(*types.Pointer); ok && !g.values(st, st.MapContent(m, f.Type())) {
				return false
			}
		}
		if f.Embedded() && !g.maps(st, fa, f.Type()) {
			return false
		}
	}
	return true
}

// values: the map content c holds no nil.
func (g *shapes) values(st *ai.State, c *Term) bool {
	switch c.Op {
	case "mempty":
		return true
	case "upd":
		return g.values(st, c.A[0]) && g.nonnil(st, c.A[2])
	case "del":
		return g.values(st, c.A[0])
	case "layer":
		if !g.values(st, c.A[0]) {
			return false
		}
		l := g.s.LoopOf(c)
		for i, items := range g.s.Items(c) {
			for _, it := range items {
				switch it.Op {
				case "updp":
					if !g.nonnil(l.Iters[i].St, it.A[2]) {
						return false
					}
				case "delp":
				default:
					return false
				}
			}
		}
		return true
	}
	if r, is := g.induct("values", c, g.values); is {
		return r
	}
	if c.Op == "init" && c.A[0].Op == "mc" && g.ofWhole(st, c.A[0].A[0]) {
		return true
	}
	return g.given(c)
}

// elems: the sequence c holds no nil.
func (g *shapes) elems(st *ai.State, c *Term) bool {
	switch c.Op {
	case "aupd":
		return g.elems(st, c.A[0]) && g.nonnil(st, c.A[2])
	case "sp":
		return g.elems(st, c.A[0])
	case "el":
		return g.nonnil(st, c.A[0])
	case "seq", "arr":
		for _, p := range c.A {
			if c.Op == "arr" && !g.nonnil(st, p) || c.Op == "seq" && !g.elems(st, p) {
				return false
			}
		}
		return true
	case "each":
		l := g.s.LoopOf(c)
		for i, items := range g.s.Items(c) {
			for _, it := range items {
				if !g.elems(l.Iters[i].St, it) {
					return false
				}
			}
		}
		return true
	case "init":
		if c.A[0].Op == "bk" {
			x := c.A[0].A[0]
			if x.Op == "loopval" {
				x = x.A[0]
			}
			if v := g.loopVar(x); v != nil {
				r, _ := g.induct("elems of", v.Head, func(st *ai.State, x *Term) bool { return g.elems(st, st.Seq(x, v.T)) })
				return r
			}
		}
	}
	if c.IsApp("sorted") {
		return g.elems(st, c.A[0])
	}
	if r, is := g.induct("elems", c, g.elems); is {
		return r
	}
	return g.given(c)
}

// natural: the number t is not negative.
func (g *shapes) natural(st *ai.State, t *Term) bool {
	s := g.s
	if n, ok := t.IntVal(); ok {
		return n >= 0
	}
	if v, k := st.Holds(s.Lt(t, s.Int(0))); k {
		return !v
	}
	if t.IsApp("div") {
		return g.natural(st, t.A[0]) && g.natural(st, t.A[1])
	}
	r, is := g.induct("natural", t, g.natural)
	return is && r
}

// discharged: the obligation is met after all.
func (g *shapes) discharged(st *ai.State, o *ai.Obligation) bool {
	if o.OK {
		return true
	}
	s := g.s
	q := st.WithFacts(o.Fs)
	if o.Kind == "nilderef" || o.Kind == "nilmap" {
		if o.Subj != nil && strings.HasPrefix(o.Subj.Op, "as") && o.Subj.A[0].Op == "sym" && strings.HasPrefix(o.Subj.A[0].S, "err.") {
			return true // errors of the library are not of our types
		}
		return o.Subj != nil && g.nonnil(q, o.Subj)
	}
	if o.Cond == nil {
		return false
	}
	syms := map[*Term]bool{}
	o.Cond.Any(func(t *Term) bool {
		if t.Op == "sym" && g.loopVar(t) != nil && isInt(g.loopVar(t).T) {
			syms[t] = true
		}
		return false
	})
	for t := range syms {
		if g.natural(q, t) {
			q.Assume(s.Lt(t, s.Int(0)), false)
		}
	}
	v, k := q.Holds(o.Cond)
	return k && v
}

// open reports the obligations that are not met.
func (g *shapes) open(st *ai.State, obl []*ai.Obligation, skip func(o *ai.Obligation) bool) (bad []string) {
	seen := map[string]bool{}
	for _, o := range obl {
		if g.discharged(st, o) || skip != nil && skip(o) {
			continue
		}
		m := fmt.Sprintf("%s at %s (%v)", o.Kind, g.s.C.pos(o.Pos), o.Subj)
		if !seen[m] {
			seen[m] = true
			bad = append(bad, m)
		}
	}
	return
}

func checkC34(c *Ctx) {
	ia := func(s *Sc) types.Type { return s.T(H, "IntervalAggregation") }
	c.Scen("merging anything into an aggregate", func(s *Sc) {
		s.NilMapValues = true
		s.ringInvariant()
		fn := s.M(H, "IntervalAggregation", "Merge")
		s.On(fn)
		{
			st := s.NewState()
			into, src := s.Ptr(st, "into", fn.Params[0].Type()), s.Ptr(st, "src", fn.Params[1].Type())
			g := s.shapes()
			mine := func(t *Term) bool { return t.Mentions(into) && !t.Mentions(src) }
			g.given, g.has = mine, func(t *Term) bool { return t.Op == "init" && mine(t) }
			for _, x := range s.Call(st, fn, into, src) {
				s.Ok(x.Kind != ai.Panics, "merging does not panic", "it can")
				for _, m := range g.open(x.St, x.St.Obl, nil) {
					s.Ok(false, "merging malformed data does not panic", "%s", m)
				}
				s.Ok(len(x.St.Obl) > 0, "merging is analysed", "no operation found")
				w := s.shapes()
				w.given, w.has, w.whole = g.given, g.has, true
				s.Ok(w.maps(x.St, into, ia(s)), "an aggregate stays well-formed", "a nil may enter it")
			}
		}
	})
	c.Scen("copying anything", func(s *Sc) {
		s.NilMapValues = true
		s.ringInvariant()
		fn := s.M(H, "IntervalAggregation", "Clone")
		s.On(fn)
		st := s.NewState()
		src := s.Ptr(st, "src", fn.Params[0].Type())
		for _, x := range s.Call(st, fn, src) {
			s.Ok(x.Kind != ai.Panics, "copying does not panic", "it can")
			for _, m := range s.shapes().open(x.St, x.St.Obl, nil) {
				s.Ok(false, "copying malformed data does not panic", "%s", m)
			}
			w := s.shapes()
			w.whole = true
			s.Ok(w.nonnil(x.St, x.Vals[0]), "a copy is well-formed", "a nil may be in it")
		}
	})
	c.Scen("new aggregates", func(s *Sc) {
		s.NilMapValues = true
		fn := s.Fn(H, "NewIntervalAggregation")
		s.On(fn)
		st := s.NewState()
		for _, x := range s.Call(st, fn, s.Sym("start", fn.Params[0].Type())) {
			w := s.shapes()
			w.whole = true
			s.Ok(x.Kind != ai.Panics && w.nonnil(x.St, x.Vals[0]), "a new aggregate is well-formed", "it is not")
		}
	})
	c.Scen("the worker", func(s *Sc) {
		s.NilMapValues = true
		s.ringInvariant()
		for _, h := range s.hds() {
			g := s.shapes()
			n := 0
			for _, it := range h.l.Iters {
				n += len(it.St.Obl)
				for _, m := range g.open(it.St, it.St.Obl, nil) {
					s.Ok(false, "the worker does not crash", "%s", m)
				}
				s.Msgs("the worker does not wait for others", h.waits(it.New))
			}
			s.Ok(n > 0, "the worker is analysed", "no operation found")
			for _, e := range h.l.ends {
				s.Ok(e.x.Kind != ai.Panics, "the worker does not panic", "it can")
			}
		}
	})
	c.Scen("polling", func(s *Sc) {
		s.NilMapValues = true
		s.ringInvariant()
		s.noFrames()
		for _, r := range s.rounds() {
			s.Msgs("polling does not crash", s.pollCrashes(r))
		}
	})
	c.Scen("the API", func(s *Sc) {
		s.ringInvariant()
		a := s.healthdAPI()
		for p := range a.paths {
			for _, m := range s.apiCrashes(a, p) {
				s.Ok(false, "answering requests does not crash", "%s: %s", p, m)
			}
		}
	})
}

// waits: what the worker could wait for besides its next work and the one who asked.
func (h *hd) waits(tr []*ai.Effect) (bad []string) {
	s := h.s
	asked := map[*Term]bool{}
	first := true
	Flatten(tr, func(ef *ai.Effect, ls []*ai.LoopSum) {
		blocks := ef.Blk || len(ef.Alts) > 0
		switch {
		case ef.Kind == "recv":
			if blocks && (!first || len(ls) > 0) {
				bad = append(bad, "the worker waits for a message in the middle of its work at "+s.C.pos(ef.Pos))
			}
			first = false
			asked[ef.Res] = true
		case ef.Kind == "send" && blocks && !asked[ef.Recv]:
			bad = append(bad, "the worker may wait for a receiver at "+s.C.pos(ef.Pos))
		case ef.Kind == "call" && (strings.HasSuffix(ef.Name, ").Wait") || strings.HasSuffix(ef.Name, ").Lock") || isHTTPSend(ef.Name)):
			bad = append(bad, "the worker waits at "+s.C.pos(ef.Pos))
		}
	})
	return
}

// pollCrashes: what can fail in a round's goroutines.
func (s *Sc) pollCrashes(r round) (bad []string) {
	n := 0
	var run func(st *ai.State, g *ai.Effect, depth int)
	run = func(st *ai.State, g *ai.Effect, depth int) {
		st = st.Clone()
		st.Trace, st.Obl = nil, nil
		for _, x := range s.runGo(st, g) {
			n++
			if x.Kind == ai.Panics {
				bad = append(bad, "polling can panic")
			}
			bad = append(bad, s.shapes().open(x.St, x.St.Obl, nil)...)
			Flatten(x.St.Trace, func(ef *ai.Effect, ls []*ai.LoopSum) {
				if ef.Kind != "go" {
					return
				}
				if depth > 2 {
					s.giveUp("polling starts goroutines that start goroutines")
				}
				from := x.St
				if len(ls) > 0 {
					from = ls[len(ls)-1].Head
				}
				run(from.WithFacts(ef.Fs).At(ef.Mem), ef, depth+1)
			})
		}
	}
	run(r.st, r.g, 0)
	if n == 0 {
		bad = append(bad, "polling cannot be analysed")
	}
	return
}

// apiCrashes: what can fail in a handler, given complete answers of the worker.
func (s *Sc) apiCrashes(a *apiCtx, path string) (bad []string) {
	xs, _, _ := a.call(path)
	for _, x := range xs {
		g := s.shapes()
		var asked []*Term
		for _, ef := range x.St.Trace {
			if ef.Kind == "recv" {
				asked = append(asked, ef.Res)
			}
		}
		g.given = func(t *Term) bool {
			for _, r := range asked {
				if t.Mentions(r) {
					return true
				}
			}
			return false
		}
		if x.Kind == ai.Panics {
			bad = append(bad, "it can panic")
		}
		bad = append(bad, g.open(x.St, x.St.Obl, nil)...)
	}
	if len(xs) == 0 {
		bad = append(bad, "it cannot be analysed")
	}
	return
}
