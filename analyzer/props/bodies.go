package props

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func isResponse(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "Response" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "net/http"
}

// yields: which result of a call is an HTTP response.
func yields(t types.Type) int {
	if t == nil {
		return -1
	}
	if tu, ok := t.(*types.Tuple); ok {
		for i := 0; i < tu.Len(); i++ {
			if isResponse(tu.At(i).Type()) {
				return i
			}
		}
		return -1
	}
	if isResponse(t) {
		return 0
	}
	return -1
}

// outermost is the declared function a closure belongs to.
func outermost(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

type respSite struct {
	in *ssa.Function
	at ssa.CallInstruction
}

func checkC27(c *Ctx) {
	own := c.P.Functions()
	calls := map[*ssa.Function][]*ssa.Function{} // function -> functions (outermost) calling it
	spawned := map[*ssa.Function]bool{}
	var sites []respSite
	for f := range own {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := ci.Common().StaticCallee()
				if callee != nil && own[callee] {
					if _, isGo := ins.(*ssa.Go); isGo {
						spawned[callee] = true
					} else {
						calls[callee] = append(calls[callee], outermost(f))
					}
					continue
				}
				if yields(ci.Common().Signature().Results()) >= 0 {
					sites = append(sites, respSite{f, ci})
				}
			}
		}
	}
	sort.Slice(sites, func(i, j int) bool { return sites[i].at.Pos() < sites[j].at.Pos() })
	queue := []*ssa.Function{}
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if !seen[f] {
			seen[f] = true
			queue = append(queue, f)
		}
	}
	for _, x := range sites {
		add(outermost(x.in))
	}
	total := 0
	for i := 0; i < len(queue); i++ {
		f := queue[i]
		c.Scen("responses received by "+ai.FuncName(f), func(s *Sc) {
			s.On(f)
			var args []*Term
			for _, p := range f.Params {
				args = append(args, s.Sym(p.Name(), p.Type()))
			}
			b := &bodies{s: s, rt: nil}
			from := s.LoopCount()
			for _, x := range s.Run(s.NewState(), f, args) {
				if x.Kind == ai.Panics {
					continue
				}
				b.scan(x.St, x.St.Trace, func(r *Term) bool {
					ret := false
					for _, v := range x.Vals {
						ret = ret || b.reaches(x.St, v, r, 0)
					}
					if !ret {
						return false
					}
					for _, g := range calls[f] {
						add(g)
					}
					return len(calls[f]) > 0 && !spawned[f] || f.Object() != nil && f.Object().Exported()
				})
			}
			for _, l := range s.OuterLoops(from) {
				b.loop(l)
			}
			total += b.n
		})
	}
	c.Scen("requests made", func(s *Sc) {
		s.Ok(total > 0 || len(sites) == 0, "every request made is followed", "no path to any of the %d calls that yield responses", len(sites))
	})
}

type bodies struct {
	s  *Sc
	rt types.Type
	n  int
}

// reaches: v is r or leads to it.
func (b *bodies) reaches(st *ai.State, v, r *Term, depth int) bool {
	if v.Mentions(r) {
		return true
	}
	if depth > 3 || v.Op != "obj" && v.Op != "iface" {
		return false
	}
	if v.Op == "iface" {
		return b.reaches(st, v.A[0], r, depth)
	}
	for _, a := range st.Written(b.s.NewState().Mem()) {
		root := a
		for root.Op == "fa" || root.Op == "ia" {
			root = root.A[0]
		}
		if x, ok := st.Raw(a); ok && root == v && x != v && b.reaches(st, x, r, depth+1) {
			return true
		}
	}
	return false
}

func (b *bodies) loop(l *ai.LoopSum) {
	for _, it := range append(append([]*ai.Iter{}, l.Iters...), l.Breaks...) {
		brk := false
		for _, x := range l.Breaks {
			brk = brk || x == it
		}
		if !brk { // what leaves the loop is followed in the trace of the exit
			b.scan(it.St, it.New, func(*Term) bool { return false })
		}
	}
}

// scan: every response a trace yields is closed later in the same trace.
func (b *bodies) scan(st *ai.State, tr []*ai.Effect, escapes func(r *Term) bool) {
	s := b.s
	for i, ef := range tr {
		if ef.Kind == "loop" {
			b.loop(ef.Loop)
			continue
		}
		if ef.Kind == "go" {
			for _, x := range s.RunValue(st.Clone(), ef.Fn, ef.Args) {
				if x.Kind != ai.Panics && len(x.St.Trace) >= len(st.Trace) {
					b.scan(x.St, x.St.Trace[len(st.Trace):], func(*Term) bool { return false })
				}
			}
			continue
		}
		r := b.response(ef)
		if r == nil {
			continue
		}
		if v, k := st.Holds(s.Eq(r, s.Nil())); k && v {
			continue
		}
		b.n++
		body, _ := s.Addr(st, r, r.T.Underlying().(*types.Pointer).Elem(), "Body")
		closed := b.closedIn(st, tr[i+1:], body, 0)
		if !closed && escapes(r) {
			continue
		}
		s.Ok(closed, "the response body is closed", "the body of the response received at %s is not closed on a path", s.C.pos(ef.Pos))
	}
}

func (b *bodies) closedIn(st *ai.State, tr []*ai.Effect, body *Term, depth int) bool {
	for _, g := range tr {
		if g.Kind == "invoke" && g.Name == "Close" && g.Recv.Op == "init" && g.Recv.A[0] == body {
			return true
		}
		if g.Kind == "go" && depth == 0 {
			// a goroutine that closes it on every path
			all, n := true, 0
			n0 := len(st.Trace)
			for _, x := range b.s.RunValue(st.Clone(), g.Fn, g.Args) {
				if x.Kind == ai.Panics {
					continue
				}
				n++
				all = all && b.closedIn(x.St, x.St.Trace[n0:], body, 1)
			}
			if all && n > 0 {
				return true
			}
		}
	}
	return false
}

// response is the response an outside call yields.
func (b *bodies) response(ef *ai.Effect) *Term {
	if ef.Kind != "call" && ef.Kind != "invoke" && ef.Kind != "dyn" || ef.Res == nil {
		return nil
	}
	if ef.Res.Op == "tuple" {
		for _, x := range ef.Res.A {
			if x.T != nil && isResponse(x.T) && x.Op != "nil" {
				return x
			}
		}
		return nil
	}
	if ef.Res.T != nil && isResponse(ef.Res.T) && ef.Res.Op != "nil" {
		return ef.Res
	}
	return nil
}
