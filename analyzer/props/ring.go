package props

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// ring describes the sample buffer of an error counter: an array of errors and the position of the newest one.
type ring struct {
	s       *Sc
	t       types.Type
	arr     int
	idx     int
	n       int64
	arrT    types.Type
	idxT    types.Type
	samples string
	index   string
}

// ringOf finds the buffer's fields by their types.
func (s *Sc) ringOf() *ring {
	t := s.T(H, "ErrorCounter")
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	r := &ring{s: s, t: t, arr: -1, idx: -1}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if a, ok := f.Type().Underlying().(*types.Array); ok && types.Identical(a.Elem(), errT()) && r.arr < 0 {
			r.arr, r.n, r.arrT, r.samples = i, a.Len(), f.Type(), f.Name()
		} else if isInt64(f.Type()) && !f.Exported() && r.idx < 0 {
			r.idx, r.idxT, r.index = i, f.Type(), f.Name()
		}
	}
	if r.arr < 0 || r.idx < 0 {
		return nil
	}
	return r
}

// ringInvariant assumes, for counters the analysed code did not make itself, that the position lies inside the buffer.
// C14 shows that every store to the field preserves this.
func (s *Sc) ringInvariant() *ring {
	r := s.ringOf()
	if r == nil {
		return nil
	}
	s.FieldInv = func(st *ai.State, a, v *Term) {
		if a.T == nil || !types.Identical(a.T, r.t) || a.S != strconv.Itoa(r.idx) || v == nil {
			return
		}
		if _, c := v.IntVal(); c {
			return
		}
		st.Assume(s.Lt(v, s.Int(0)), false)
		st.Assume(s.Lt(v, s.Int(r.n)), true)
	}
	return r
}

// at reads the buffer of counter p (nil: a new, empty counter).
func (r *ring) at(st *ai.State, p *Term) (arr, idx *Term) {
	if p == nil {
		return r.s.Zero(r.arrT), r.s.Int(0)
	}
	return r.s.F(st, p, r.t, r.samples), r.s.F(st, p, r.t, r.index)
}

// small simplifies "x mod n" where x is known to be below 2n.
func (r *ring) small(st *ai.State, v *Term) *Term {
	s := r.s
	sub := map[*Term]*Term{}
	v.Any(func(t *Term) bool {
		if t.IsApp("mod") {
			if d, ok := t.A[1].IntVal(); ok && d > 0 {
				x := t.A[0]
				if st.Is(s.Not(s.Lt(x, s.Int(0)))) {
					if st.Is(s.Lt(x, s.Int(d))) {
						sub[t] = x
					} else if st.Is(s.Not(s.Lt(x, s.Int(d)))) && st.Is(s.Lt(x, s.Int(2*d))) {
						sub[t] = s.Sub(x, s.Int(d))
					}
				}
			}
		}
		return false
	})
	if len(sub) == 0 {
		return v
	}
	return s.Subst(v, sub)
}

// step: the buffer of p1 in post is that of p0 in pre after adding er. post is a state inside Cases.
func (r *ring) step(pre, post *ai.State, p0, p1, er *Term) []string {
	s := r.s
	p := post.At(pre.Mem())
	a0, i0 := r.at(p, p0)
	a1, i1 := r.at(post, p1)
	post.Assume(s.Lt(i0, s.Int(0)), false)
	post.Assume(s.Lt(i0, s.Int(r.n)), true)
	e0 := func(i *Term) *Term { return post.Elem(a0, i, errT()) }
	j := s.Sym("anyslot", types.Typ[types.Int])
	post.Assume(s.Lt(j, s.Int(0)), false)
	post.Assume(s.Lt(j, s.Int(r.n)), true)
	last := e0(i0)
	wi, store := i0, true
	if !post.Need(s.Eq(last, s.Nil())) {
		if post.Need(s.Eq(er, s.Nil())) {
			return nil // not an error; nothing is promised
		}
		x, y := last, er
		if x.ID() > y.ID() {
			x, y = y, x
		}
		if post.Need(s.App("DeepEqual", types.Typ[types.Bool], x, y)) {
			store = false
		} else if post.Need(s.Lt(i0, s.Int(r.n-1))) {
			wi = s.Add(i0, s.Int(1))
		} else {
			wi = s.Int(0)
		}
	}
	i1 = r.small(post, i1)
	if !post.Is(s.Eq(i1, wi)) {
		return []string{fmt.Sprintf("the position of the newest sample becomes %v instead of %v", i1, wi)}
	}
	a1 = r.small(post, a1)
	slots := []*Term{j}
	if a1.Op == "arr" || a0.Op == "arr" { // known slot by slot
		slots = nil
		for k := int64(0); k < r.n; k++ {
			slots = append(slots, s.Int(k))
		}
	}
	for _, j := range slots {
		if store && post.Need(s.Eq(j, wi)) {
			if got := post.Elem(a1, j, errT()); !post.Is(s.Eq(got, er)) {
				if got = post.Elem(a1, wi, errT()); !post.Is(s.Eq(got, er)) {
					return []string{fmt.Sprintf("the new error is not stored: its slot holds %v", got)}
				}
			}
			continue
		}
		if got, was := post.Elem(a1, j, errT()), e0(j); got != was && !post.Is(s.Eq(got, was)) {
			return []string{fmt.Sprintf("another sample changes from %v to %v", was, got)}
		}
	}
	return nil
}

func checkC14(c *Ctx) {
	c.Scen("errors recorded by the polling sink", func(s *Sc) {
		r := s.ringOf()
		if !s.Ok(r != nil, "a bounded buffer", "error counters have no fixed-size buffer of errors") {
			return
		}
		s.pollingRecords(func(r record) bool { return r.field == "EventErrs" }, func(p *polling, rec record, h handled) {
			er := rec.val
			isU, asU := s.AssertTo(er, s.PT(H, "UnmutedError"))
			for _, it := range h.iters {
				v := p.view(h.loop, it)
				// the error is added to the counter of the event, overall and under the job
				for _, scope := range []string{"interval", "job"} {
					s.Msgs("a ring of distinct errors", v.in(func(v *view) []string {
						if v.cur == nil {
							return []string{"no interval is retained after a record"}
						}
						x := er
						if v.post.Need(isU) {
							x = s.F(v.post, asU, s.T(H, "UnmutedError"), "Err")
						}
						was, is, t := v.old, v.cur, v.p.iaT
						if scope == "job" {
							j0, j1, jt, bad := v.job(rec)
							if bad != "" {
								return []string{bad}
							}
							was, is, t = j0, j1, jt
						}
						v0, ok0, v1, ok1 := v.entry(was, is, t, "EventErrs", rec.event)
						if !v.post.Need(ok1) {
							return []string{scope + ": no counter for the event"}
						}
						if !v.post.Need(ok0) {
							v0 = nil
						}
						var bad []string
						for _, m := range r.step(v.pre, v.post, v0, v1, x) {
							bad = append(bad, scope+": "+m)
						}
						return bad
					}))
				}
				for _, o := range it.St.Obl {
					if o.Kind == "index" || o.Kind == "div" {
						s.Ok(o.OK, "adding an error never fails", "%s: %v is not certain at %s", o.Kind, o.Cond, s.C.pos(o.Pos))
					}
				}
			}
		})
		s.noIfaceCompare(r)
	})
	c.Scen("errors of merged counters", func(s *Sc) {
		r := s.ringInvariant()
		if !s.Ok(r != nil, "a bounded buffer", "error counters have no fixed-size buffer of errors") {
			return
		}
		fn := s.M(H, "IntervalAggregation", "Merge")
		s.On(fn)
		st := s.NewState()
		t := s.T(H, "IntervalAggregation")
		into := s.Ptr(st, "ia", s.PT(H, "IntervalAggregation"))
		src := s.Ptr(st, "other", s.PT(H, "IntervalAggregation"))
		st.Assume(s.Eq(s.F(st, into, t, "EventErrs"), s.Nil()), false)
		pre := st.Clone()
		m := &merger{s: s, src: src}
		for _, x := range s.Call(st, fn, into, src) {
			s.Msgs("samples of merged counters are added", m.mapMerged(pre, x.St, into, src, false, t, "EventErrs", "interval", func(l *ai.LoopSum, it *ai.Iter, old, val *Term, fr bool, upd *Term, et types.Type) []string {
				if fr {
					if upd == nil || upd.A[2].Op != "obj" {
						return []string{"a new counter is not added as a copy"}
					}
					if bad := s.sameV(l.Head, val, it.St, upd.A[2], et, "the copy"); bad != "" {
						return []string{bad}
					}
					return nil
				}
				for _, o := range it.St.Obl {
					if o.Kind == "index" && !o.OK {
						return []string{fmt.Sprintf("index %v is not certain at %s", o.Cond, s.C.pos(o.Pos))}
					}
				}
				return r.merged(it, old, val)
			}))
		}
	})
	c.Scen("reporting the stored errors", func(s *Sc) {
		r := s.ringInvariant()
		if !s.Ok(r != nil, "a bounded buffer", "error counters have no fixed-size buffer of errors") {
			return
		}
		fn := s.M(H, "ErrorCounter", "getErrorSamples")
		s.On(fn)
		st := s.NewState()
		p := s.Ptr(st, "ec", s.PT(H, "ErrorCounter"))
		arr, _ := r.at(st, p)
		slT := types.NewSlice(errT())
		for _, x := range s.Call(st, fn, p) {
			bad := r.lists(x.St, x.St.Seq(x.Vals[0], slT), arr)
			s.Ok(bad == "", "all stored errors are reported", "%s", bad)
			for _, o := range x.St.Obl {
				if o.Kind == "index" || o.Kind == "slicecap" {
					s.Ok(o.OK, "reporting never fails", "%v is not certain at %s", o.Cond, s.C.pos(o.Pos))
				}
			}
		}
	})
	c.Scen("stores to the position in the buffer", func(s *Sc) {
		r := s.ringInvariant()
		if !s.Ok(r != nil, "a bounded buffer", "error counters have no fixed-size buffer of errors") {
			return
		}
		r.storesInRange()
	})
}

// lists: seq holds every stored error of arr once.
func (r *ring) lists(st *ai.State, seq, arr *Term) string {
	s := r.s
	if seq.Op != "seq" || len(seq.A) != 1 || seq.A[0].Op != "each" {
		return fmt.Sprintf("the result is %v", seq)
	}
	l := s.LoopOf(seq.A[0])
	if l.Kind != "index" || !l.Full || !st.Is(s.Eq(l.Lo, s.Int(0))) || !st.Is(s.Eq(l.Hi, s.Int(r.n))) || l.Step != 1 && l.Step != -1 {
		return fmt.Sprintf("slots %v to %v are visited", l.Lo, l.Hi)
	}
	for i, parts := range s.Items(seq.A[0]) {
		q := l.Iters[i].St
		w := q.Elem(arr, l.Idx, errT())
		if q.Is(s.Eq(w, s.Nil())) {
			if len(parts) != 0 {
				return fmt.Sprintf("an empty slot is reported as %v", parts)
			}
			continue
		}
		if len(parts) != 1 || parts[0].Op != "el" || parts[0].A[0] != w {
			return fmt.Sprintf("for a slot holding %v the result gets %v", w, parts)
		}
	}
	return ""
}

// merged: a loop over all slots of val adds each stored error to old.
func (r *ring) merged(it *ai.Iter, old, val *Term) []string {
	s := r.s
	var in *ai.LoopSum
	for _, ef := range it.New {
		if ef.Kind == "loop" && ef.Loop.Kind == "index" {
			for _, a := range ef.Loop.Cells {
				if a.Mentions(old) {
					if in != nil && in != ef.Loop {
						return []string{"the samples of a counter are merged in more than one loop"}
					}
					in = ef.Loop
				}
			}
			if ef.Part {
				return []string{"merging samples can stop early"}
			}
		}
	}
	if in == nil {
		return []string{"the samples of a counter are not merged"}
	}
	var list *Term // samples collected into a list first
	if in.Hi.IsApp("count") {
		list = s.SeqOf(in.Hi.A[0], types.NewSlice(errT()))
		av, _ := r.at(in.Pre, val)
		if bad := r.lists(it.St, list, av); bad != "" {
			return []string{"samples to merge: " + bad}
		}
	}
	if !in.Full || !it.St.Is(s.Eq(in.Lo, s.Int(0))) || list == nil && !it.St.Is(s.Eq(in.Hi, s.Int(r.n))) {
		return []string{"not all samples of a counter are merged"}
	}
	var bad []string
	for _, x := range in.Iters {
		bad = append(bad, s.Cases(x.St, func(st *ai.State) []string {
			pre := st.At(in.Head.Mem())
			av, _ := r.at(pre, val)
			e := pre.Elem(av, in.Idx, errT())
			if list != nil {
				return r.step(in.Head, st, old, old, pre.Elem(list, in.Idx, errT()))
			}
			if st.Need(s.Eq(e, s.Nil())) {
				a0, i0 := r.at(pre, old)
				a1, i1 := r.at(st, old)
				if a0 != a1 || !st.Is(s.Eq(i0, i1)) {
					return []string{"an empty slot of the merged side changes the samples"}
				}
				return nil
			}
			return r.step(in.Head, st, old, old, e)
		})...)
	}
	return bad
}

// storesInRange: every function that stores the position leaves it inside the buffer.
func (r *ring) storesInRange() {
	s := r.s
	n := 0
	for _, fn := range s.repoFuncs() {
		if !r.storesIndex(fn) {
			continue
		}
		n++
		s.On(fn)
		st := s.NewState()
		var args []*Term
		for i, p := range fn.Params {
			args = append(args, s.Sym(fmt.Sprintf("p%d", i), p.Type()))
		}
		for _, x := range s.Run(st, fn, args) {
			for _, a := range s.allWritten(x.St, st.Mem()) {
				if a.Op != "fa" || a.T == nil || !types.Identical(a.T, r.t) || a.S != strconv.Itoa(r.idx) {
					continue
				}
				v := x.St.CellOf(a)
				s.Ok(x.St.Is(s.Not(s.Lt(v, s.Int(0)))) && x.St.Is(s.Lt(v, s.Int(r.n))), "the position stays inside the buffer", "it can become %v", v)
			}
		}
	}
	s.C.Rules["functions storing the position"] += n
}

func (r *ring) storesIndex(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			fa, ok := ins.(*ssa.FieldAddr)
			if !ok || fa.Field != r.idx {
				continue
			}
			pt, ok := fa.X.Type().Underlying().(*types.Pointer)
			if !ok || !types.Identical(pt.Elem(), r.t) {
				continue
			}
			for _, ref := range *fa.Referrers() {
				if _, load := ref.(*ssa.UnOp); !load {
					return true
				}
			}
		}
	}
	return false
}

// noIfaceCompare: errors are not compared with ==, which fails for errors of uncomparable types.
func (s *Sc) noIfaceCompare(r *ring) {
	for fn := range s.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				op, ok := ins.(*ssa.BinOp)
				if !ok || op.Op.String() != "==" && op.Op.String() != "!=" || !types.IsInterface(op.X.Type()) || !types.IsInterface(op.Y.Type()) {
					continue
				}
				if isConstIface(op.X) || isConstIface(op.Y) {
					continue
				}
				if types.Identical(op.X.Type(), errT()) {
					s.Pos, s.Fnm = op.Pos(), fn.Name()
					s.Ok(false, "adding an error never fails", "errors are compared with %s at %s, which panics for errors of uncomparable types", op.Op, s.C.pos(op.Pos()))
				}
			}
		}
	}
}

// isConstIface: nil or a package-level error value.
func isConstIface(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.UnOp:
		_, ok := x.X.(*ssa.Global)
		return ok
	}
	return false
}

// repoFuncs lists the functions of the repository, in a fixed order.
func (s *Sc) repoFuncs() []*ssa.Function {
	var r []*ssa.Function
	for fn := range s.C.P.Functions() {
		if fn.Pkg != nil && s.IsRepo(fn.Pkg.Pkg) && len(fn.Blocks) > 0 {
			r = append(r, fn)
		}
	}
	sort.Slice(r, func(i, j int) bool { return ai.FuncName(r[i])+r[i].Name() < ai.FuncName(r[j])+r[j].Name() })
	return r
}
