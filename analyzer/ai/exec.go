package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	call *ssa.CallCommon
	fn   *Term
	args []*Term
	pos  token.Pos
	ins  *ssa.Defer
}

// path is one control path inside a function activation.
type path struct {
	st     *State
	env    map[ssa.Value]*Term
	defers []deferred
}

func (p *path) clone() *path {
	n := &path{st: p.st.Clone(), env: make(map[ssa.Value]*Term, len(p.env)+4), defers: p.defers[:len(p.defers):len(p.defers)]}
	for k, v := range p.env {
		n.env[k] = v
	}
	return n
}

type frame struct {
	fn      *ssa.Function
	isDefer bool
	loops   map[*ssa.BasicBlock]*natLoop
	parent  *frame
}

type exitKind int

const (
	Ret exitKind = iota
	Panics
	edge
)

// Exit is one way out of an analysed function.
type Exit struct {
	St   *State
	Kind exitKind
	Vals []*Term
	p    *path
	from *ssa.BasicBlock
	to   *ssa.BasicBlock
}

// Run analyses fn with the given arguments from state st (which is consumed).
func (e *Engine) Run(st *State, fn *ssa.Function, args []*Term) []*Exit {
	return e.callFn(nil, st, fn, args, nil, false)
}

// RunValue analyses a call of a function value.
func (e *Engine) RunValue(st *State, fv *Term, args []*Term) []*Exit {
	return e.callValue(nil, st, fv, args, token.NoPos, nil)
}

const maxDepth = 60

func (e *Engine) callFn(parent *frame, st *State, fn *ssa.Function, args, bindings []*Term, isDefer bool) []*Exit {
	if len(fn.Blocks) == 0 {
		e.undecided("no body for %s", fn)
	}
	d := 0
	for f := parent; f != nil; f = f.parent {
		if f.fn == fn {
			d++
		}
	}
	if d > 3 {
		e.undecided("recursion through %s", fn)
	}
	e.depth++
	defer func() { e.depth-- }()
	if e.depth > maxDepth {
		e.undecided("call depth exceeded at %s", fn)
	}
	e.Funcs[fn]++
	fr := &frame{fn: fn, isDefer: isDefer, parent: parent, loops: e.loopsOf(fn)}
	p := &path{st: st, env: map[ssa.Value]*Term{}}
	if len(args) != len(fn.Params) {
		e.undecided("arity mismatch calling %s: %d args for %d params", fn, len(args), len(fn.Params))
	}
	for i, a := range args {
		p.env[fn.Params[i]] = a
		e.noteType(a, fn.Params[i].Type())
	}
	for i, b := range bindings {
		p.env[fn.FreeVars[i]] = b
	}
	outs := e.runRegion(fr, p, fn.Blocks[0], nil, nil)
	var res []*Exit
	for _, o := range outs {
		switch o.Kind {
		case Ret:
			res = append(res, o)
		case Panics:
			res = append(res, e.unwind(fr, o)...)
		default:
			e.undecided("stray edge out of %s", fn)
		}
	}
	e.Paths += len(res)
	return res
}

func (e *Engine) noteType(a *Term, t types.Type) {
	if (a.Op == "sym" || a.Op == "app") && a.T == nil {
		a.T = t
	}
}

// unwind runs the deferred calls of a panicking activation.
func (e *Engine) unwind(fr *frame, o *Exit) []*Exit {
	p := o.p
	if len(p.defers) == 0 {
		return []*Exit{{St: o.St, Kind: Panics, Vals: o.Vals}}
	}
	p.st.panick = o.Vals[0]
	p.st.recov = false
	var res []*Exit
	for _, q := range e.runDefers(fr, p, true) {
		if q.Kind == Panics { // a deferred function panicked: remaining defers run with the new value
			res = append(res, e.unwind(fr, q)...)
			continue
		}
		if q.p.st.recov {
			q.p.st.recov = false
			q.p.st.panick = nil
			if fr.fn.Recover != nil {
				for _, r := range e.runRegion(fr, q.p, fr.fn.Recover, nil, nil) {
					if r.Kind != Ret {
						e.undecided("panic in recover block of %s", fr.fn)
					}
					res = append(res, r)
				}
			} else {
				var vals []*Term
				rs := fr.fn.Signature.Results()
				for i := 0; i < rs.Len(); i++ {
					vals = append(vals, e.Zero(rs.At(i).Type()))
				}
				res = append(res, &Exit{St: q.p.st, Kind: Ret, Vals: vals, p: q.p})
			}
			continue
		}
		v := q.p.st.panick
		q.p.st.panick = nil
		res = append(res, &Exit{St: q.p.st, Kind: Panics, Vals: []*Term{v}, p: q.p})
	}
	return res
}

// runDefers executes the pending deferred calls in LIFO order.
func (e *Engine) runDefers(fr *frame, p *path, panicking bool) []*Exit {
	cur := []*path{p}
	var res []*Exit
	for {
		var next []*path
		progressed := false
		for _, q := range cur {
			if len(q.defers) == 0 {
				res = append(res, &Exit{St: q.st, Kind: edge, p: q})
				continue
			}
			progressed = true
			d := q.defers[len(q.defers)-1]
			q.defers = q.defers[:len(q.defers)-1]
			for _, r := range e.withSplit(q, func(q *path) []*Exit { return e.callDeferred(fr, q, d) }) {
				n := &path{st: r.St, env: q.env, defers: q.defers}
				if r.Kind == Panics {
					n2 := n.clone()
					res = append(res, &Exit{St: n2.st, Kind: Panics, Vals: r.Vals, p: n2})
					continue
				}
				next = append(next, n.clone())
			}
		}
		cur = next
		if !progressed || len(cur) == 0 {
			return res
		}
	}
}

func (e *Engine) callDeferred(fr *frame, q *path, d deferred) []*Exit {
	c := d.call
	if c.IsInvoke() {
		return e.invoke(fr, q.st, c, d.fn, d.args, d.pos)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		v, xs := e.builtin(fr, q, b, c, d.args, d.pos, nil)
		if xs != nil {
			return xs
		}
		return []*Exit{{St: q.st, Kind: Ret, Vals: []*Term{v}}}
	}
	if d.fn.Op == "func" || d.fn.Op == "closure" {
		return e.callStatic(fr, q.st, d.fn.F, d.args, d.fn.A, d.pos, true, c)
	}
	return e.callValue(fr, q.st, d.fn, d.args, d.pos, c)
}

// withSplit runs f on p, re-running it on both refinements whenever it needs an undetermined condition.
func (e *Engine) withSplit(p *path, f func(*path) []*Exit) (res []*Exit) {
	var atom *Term
	snap := p.clone()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if s, ok := r.(splitReq); ok {
					atom = s.atom
					return
				}
				panic(r)
			}
		}()
		res = f(p)
	}()
	if atom == nil {
		return res
	}
	e.Splits++
	if _, k := snap.st.Holds(atom); k {
		panic(Undecided{Msg: fmt.Sprintf("case distinction on %v does not help", atom)})
	}
	a, b := snap, snap.clone()
	res = nil
	if a.st.Assume(atom, true) {
		res = append(res, e.withSplit(a, f)...)
	}
	if b.st.Assume(atom, false) {
		res = append(res, e.withSplit(b, f)...)
	}
	return res
}

// ---------- region execution

type work struct {
	p    *path
	b    *ssa.BasicBlock
	pred *ssa.BasicBlock
	idx  int
}

// runRegion executes from block b. Edges leaving region (a loop) and back edges to its header are returned as edge exits.
func (e *Engine) runRegion(fr *frame, p *path, b, pred *ssa.BasicBlock, region *natLoop) []*Exit {
	var outs []*Exit
	wl := []work{{p, b, pred, 0}}
	first := true
	for len(wl) > 0 {
		w := wl[len(wl)-1]
		wl = wl[:len(wl)-1]
		if w.idx == 0 {
			// loop entry?
			if l := fr.loops[w.b]; l != nil && !(first && region == l) {
				if l == region {
					outs = append(outs, &Exit{St: w.p.st, Kind: edge, p: w.p, from: w.pred, to: w.b})
					continue
				}
				if region == nil || region.blocks[w.b] {
					first = false
					for _, o := range e.execLoop(fr, w.p, l, w.pred) {
						if o.Kind == edge {
							wl = append(wl, work{o.p, o.to, o.from, 0})
						} else {
							outs = append(outs, o)
						}
					}
					continue
				}
			}
			if region != nil && !region.blocks[w.b] {
				outs = append(outs, &Exit{St: w.p.st, Kind: edge, p: w.p, from: w.pred, to: w.b})
				continue
			}
			if w.pred != nil && !(first && region != nil) {
				e.enterPhis(w.p, w.b, w.pred)
			}
		}
		first = false
		e.steps++
		if e.steps > e.MaxSteps {
			e.undecided("analysis budget exceeded in %s", fr.fn)
		}
		next, exits := e.runBlock(fr, w)
		wl = append(wl, next...)
		outs = append(outs, exits...)
	}
	return outs
}

func (e *Engine) enterPhis(p *path, b, pred *ssa.BasicBlock) {
	pi := -1
	for i, q := range b.Preds {
		if q == pred {
			pi = i
			break
		}
	}
	var vals []*Term
	var phis []*ssa.Phi
	for _, ins := range b.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, e.val(p, ph.Edges[pi]))
	}
	for i, ph := range phis {
		p.env[ph] = vals[i]
	}
}

// runBlock runs the instructions of one block from w.idx; it returns successor work and exits.
func (e *Engine) runBlock(fr *frame, w work) (next []work, exits []*Exit) {
	p := w.p
	for i := w.idx; i < len(w.b.Instrs); i++ {
		ins := w.b.Instrs[i]
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			return []work{{p, w.b.Succs[0], w.b, 0}}, nil
		case *ssa.If:
			c := e.val(p, x.Cond)
			v, k := p.st.Holds(c)
			if k {
				s := w.b.Succs[1]
				if v {
					s = w.b.Succs[0]
				}
				return []work{{p, s, w.b, 0}}, nil
			}
			if a, _ := normAtom(c); a.Op == "and" {
				e.undecided("compound condition")
			}
			e.Splits++
			q := p.clone()
			if q.st.Assume(c, false) {
				next = append(next, work{q, w.b.Succs[1], w.b, 0})
			}
			if p.st.Assume(c, true) {
				next = append(next, work{p, w.b.Succs[0], w.b, 0})
			}
			return next, nil
		case *ssa.Return:
			vals := make([]*Term, len(x.Results))
			for j, r := range x.Results {
				vals[j] = e.val(p, r)
			}
			return nil, []*Exit{{St: p.st, Kind: Ret, Vals: vals, p: p}}
		case *ssa.Panic:
			return nil, []*Exit{{St: p.st, Kind: Panics, Vals: []*Term{e.val(p, x.X)}, p: p}}
		default:
			var outs []*Exit
			if e.maySplit(ins) {
				outs = e.withSplit(p, func(q *path) []*Exit { return e.step(fr, q, ins) })
			} else {
				outs = e.step(fr, p, ins)
			}
			if len(outs) == 1 && outs[0].Kind == edge && outs[0].p == p {
				continue
			}
			for _, o := range outs {
				if o.Kind == Panics {
					exits = append(exits, o)
					continue
				}
				next = append(next, work{o.p, w.b, w.pred, i + 1})
			}
			return next, exits
		}
	}
	e.undecided("block without terminator in %s", fr.fn)
	return
}

// maySplit: instructions whose evaluation may need a case distinction.
func (e *Engine) maySplit(ins ssa.Instruction) bool {
	switch x := ins.(type) {
	case *ssa.BinOp:
		return (x.Op == token.LEQ || x.Op == token.GEQ) && isFloat(x.X.Type())
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice, *ssa.MakeClosure,
		*ssa.MakeInterface, *ssa.ChangeInterface, *ssa.ChangeType, *ssa.Convert, *ssa.Extract, *ssa.Range, *ssa.Next, *ssa.Go, *ssa.Defer, *ssa.Send,
		*ssa.MapUpdate, *ssa.RunDefers:
		return false
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 && e.inlinable(f) && !e.NoInline[f] {
			return false
		}
	}
	return true
}

func one(p *path) []*Exit { return []*Exit{{St: p.st, Kind: edge, p: p}} }

// val evaluates an SSA operand.
func (e *Engine) val(p *path, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constTerm(x)
	case *ssa.Global:
		return e.Global(x)
	case *ssa.Function:
		return e.in.mk(Term{Op: "func", F: x, T: x.Signature})
	case *ssa.Builtin:
		e.undecided("builtin value")
	}
	t, ok := p.env[v]
	if !ok {
		e.undecided("no value for %s = %s in %s", v.Name(), v, v.Parent())
	}
	return t
}

func (e *Engine) constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return e.Zero(c.Type())
	}
	return e.Const(c.Value, c.Type())
}

func (e *Engine) Global(g *ssa.Global) *Term {
	if t := e.globals[g]; t != nil {
		return t
	}
	t := e.in.mk(Term{Op: "global", S: g.Pkg.Pkg.Path() + "." + g.Name(), T: g.Type()})
	e.globals[g] = t
	e.globalOf[t] = g
	e.cellT[t] = g.Type().(*types.Pointer).Elem()
	return t
}

// step executes one non-control instruction.
func (e *Engine) step(fr *frame, p *path, ins ssa.Instruction) []*Exit {
	e.steps++
	st := p.st
	set := func(v ssa.Value, t *Term) []*Exit {
		p.env[v] = t
		return one(p)
	}
	switch x := ins.(type) {
	case *ssa.Alloc:
		o := e.NewObj("o", x.Type().(*types.Pointer).Elem(), x.Pos())
		return set(x, o)
	case *ssa.UnOp:
		return set(x, e.unop(fr, p, x))
	case *ssa.BinOp:
		return set(x, e.binop(fr, p, x))
	case *ssa.Store:
		a := e.val(p, x.Addr)
		if a.Op == "byteaddr" {
			e.undecided("a character of a byte slice is changed in place")
		}
		e.derefOb(fr, p, a, x.Pos())
		e.access(fr, st, a, x.Val.Type(), true, false, x.Pos())
		st.Store(a, e.val(p, x.Val), x.Val.Type())
		return one(p)
	case *ssa.FieldAddr:
		b := e.val(p, x.X)
		e.derefOb(fr, p, b, x.Pos())
		stt := x.X.Type().Underlying().(*types.Pointer).Elem()
		a := e.FAT(b, x.Field, stt)
		if e.cellT[a] == nil {
			e.cellT[a] = stt.Underlying().(*types.Struct).Field(x.Field).Type()
		}
		return set(x, a)
	case *ssa.Field:
		b := e.val(p, x.X)
		return set(x, e.Field(b, x.Field, x.Type()))
	case *ssa.IndexAddr:
		return set(x, e.indexAddr(fr, p, x))
	case *ssa.Index:
		b, i := e.val(p, x.X), e.val(p, x.Index)
		if isStringish(x.X.Type()) {
			e.indexOb(fr, p, i, e.Len(b), x.Pos())
			return set(x, e.byteAt(b, i))
		}
		e.indexOb(fr, p, i, e.Len(b), x.Pos())
		return set(x, st.Elem(b, i, x.Type()))
	case *ssa.Lookup:
		b, k := e.val(p, x.X), e.val(p, x.Index)
		if isStringish(x.X.Type()) {
			e.indexOb(fr, p, k, e.Len(b), x.Pos())
			return set(x, e.byteAt(b, k))
		}
		mt := x.X.Type().Underlying().(*types.Map)
		e.access(fr, st, e.mcOf(b, x.X.Type()), nil, false, false, x.Pos())
		c := st.MapContent(b, x.X.Type())
		v, ok := st.Lookup(c, k, mt.Elem())
		if x.CommaOk {
			return set(x, e.Tuple(v, ok))
		}
		return set(x, v)
	case *ssa.MapUpdate:
		m, k, v := e.val(p, x.Map), e.val(p, x.Key), e.val(p, x.Value)
		if m.Op != "obj" {
			e.oblige(fr, p, "nilmap", e.Not(e.Eq(m, e.Nil())), m, x.Pos())
		}
		e.access(fr, st, e.mcOf(m, x.Map.Type()), nil, true, false, x.Pos())
		c := st.MapContent(m, x.Map.Type())
		st.set(e.MC(m, x.Map.Type()), e.mapUpd(c, k, v))
		return one(p)
	case *ssa.MakeMap:
		o := e.NewObj("map", x.Type(), x.Pos())
		e.MC(o, x.Type())
		return set(x, o)
	case *ssa.MakeChan:
		o := e.NewObj("chan", x.Type(), x.Pos())
		e.chanCap(o, e.val(p, x.Size))
		return set(x, o)
	case *ssa.MakeSlice:
		n := e.val(p, x.Len)
		if isStringish(x.Type()) {
			if k, ok := n.IntVal(); ok && k == 0 {
				return set(x, e.Str(""))
			}
			e.ctr++
			return set(x, e.in.mk(Term{Op: "app", S: "mkbytes", A: []*Term{n, e.Int(int64(e.ctr))}, T: x.Type()}))
		}
		if c := e.val(p, x.Cap); c != n {
			e.oblige(fr, p, "makecap", e.Not(e.Lt(c, n)), c, x.Pos())
		}
		e.oblige(fr, p, "makelen", e.Not(e.Lt(n, e.Int(0))), n, x.Pos())
		var c *Term
		if k, ok := n.IntVal(); ok && k == 0 {
			c = e.seq(nil, x.Type())
		} else {
			c = e.in.mk(Term{Op: "zeros", A: []*Term{n}, T: x.Type()})
		}
		return set(x, st.newSlice(c, x.Type(), x.Pos()))
	case *ssa.MakeClosure:
		b := make([]*Term, len(x.Bindings))
		for i, v := range x.Bindings {
			b[i] = e.val(p, v)
		}
		return set(x, e.in.mk(Term{Op: "closure", F: x.Fn.(*ssa.Function), A: b, T: x.Type()}))
	case *ssa.MakeInterface:
		return set(x, e.MkIface(e.val(p, x.X), x.X.Type()))
	case *ssa.ChangeInterface:
		return set(x, e.val(p, x.X))
	case *ssa.ChangeType:
		return set(x, e.val(p, x.X))
	case *ssa.Convert:
		return set(x, e.convert(p, x))
	case *ssa.MultiConvert, *ssa.SliceToArrayPointer:
		e.undecided("unsupported conversion in %s", fr.fn)
	case *ssa.TypeAssert:
		return e.typeAssert(fr, p, x)
	case *ssa.Extract:
		t := e.val(p, x.Tuple)
		if t.Op != "tuple" {
			e.undecided("extract of non-tuple %s", t)
		}
		return set(x, t.A[x.Index])
	case *ssa.Slice:
		return set(x, e.sliceOp(fr, p, x))
	case *ssa.Range:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			e.access(fr, st, e.mcOf(e.val(p, x.X), x.X.Type()), nil, false, false, x.Pos())
		}
		return set(x, e.in.mk(Term{Op: "range", A: []*Term{e.val(p, x.X)}, T: x.X.Type()}))
	case *ssa.Next:
		return e.nextOutsideLoop(fr, p, x)
	case *ssa.Send:
		ch, v := e.val(p, x.Chan), e.val(p, x.X)
		st.emit(&Effect{Kind: "send", Recv: ch, Args: []*Term{v}, Pos: x.Pos(), In: fr.fn, Blk: true})
		return one(p)
	case *ssa.Select:
		return e.selectOp(fr, p, x)
	case *ssa.Go:
		fv, args := e.callTarget(fr, p, &x.Call)
		st.emit(&Effect{Kind: "go", Fn: fv, Args: args, Pos: x.Pos(), In: fr.fn})
		return one(p)
	case *ssa.Defer:
		if fr.inLoop(x.Block()) {
			e.undecided("defer inside a loop in %s", fr.fn)
		}
		fv, args := e.callTarget(fr, p, &x.Call)
		p.defers = append(p.defers[:len(p.defers):len(p.defers)], deferred{call: &x.Call, fn: fv, args: args, pos: x.Pos(), ins: x})
		return one(p)
	case *ssa.RunDefers:
		var res []*Exit
		for _, o := range e.runDefers(fr, p, false) {
			res = append(res, o)
		}
		return res
	case *ssa.Call:
		return e.callInstr(fr, p, x)
	}
	e.undecided("unsupported instruction %T in %s", ins, fr.fn)
	return nil
}

func (fr *frame) inLoop(b *ssa.BasicBlock) bool {
	for _, l := range fr.loops {
		if l.blocks[b] {
			return true
		}
	}
	return false
}

func (e *Engine) chanCap(o, size *Term) {
	e.cellT[e.special("cap", o, nil)] = types.Typ[types.Int]
	chanCaps[o] = size
}

var chanCaps = map[*Term]*Term{}

// ChanCap returns the buffer size a channel object was made with.
func (e *Engine) ChanCap(o *Term) *Term { return chanCaps[o] }

func (s *State) emit(ef *Effect) *Effect {
	ef.Mem = s.snapshot()
	ef.Fs = s.facts.clone()
	ef.Cur = s.e.curLoop
	s.Trace = append(s.Trace, ef)
	s.e.Effects++
	return ef
}

// MkIface boxes a value.
func (e *Engine) MkIface(v *Term, t types.Type) *Term {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	if v.Op == "as" && types.Identical(v.T, t) { // taken out of an interface of this very type and put back
		return v.A[0]
	}
	return e.in.mk(Term{Op: "iface", A: []*Term{v}, T: t})
}

func (e *Engine) byteAt(s, i *Term) *Term {
	if c, ok := s.StrVal(); ok {
		if n, ok := i.IntVal(); ok && n >= 0 && int(n) < len(c) {
			return e.Int(int64(c[n]))
		}
	}
	return e.App("byteat", types.Typ[types.Uint8], s, i)
}

func (e *Engine) derefOb(fr *frame, p *path, a *Term, pos token.Pos) {
	switch a.Op {
	case "obj", "fa", "ia", "global":
		return
	}
	e.oblige(fr, p, "nilderef", e.Not(e.Eq(a, e.Nil())), a, pos)
}

func (e *Engine) oblige(fr *frame, p *path, kind string, cond, subj *Term, pos token.Pos) {
	v, k := p.st.Holds(cond)
	if k && v {
		if kind != "nilderef" {
			p.st.Obl = append(p.st.Obl, &Obligation{Kind: kind, Cond: cond, Subj: subj, OK: true, Pos: pos, In: fr.fn})
		}
		return
	}
	p.st.Obl = append(p.st.Obl, &Obligation{Kind: kind, Cond: cond, Subj: subj, OK: false, Pos: pos, In: fr.fn, Fs: p.st.facts.clone()})
	if k && !v {
		return // certainly panics; recorded
	}
	// the instruction completed, so from here on the condition holds
	p.st.Assume(cond, true)
}

func (e *Engine) indexOb(fr *frame, p *path, i, n *Term, pos token.Pos) {
	e.oblige(fr, p, "index", e.Not(e.Lt(i, e.Int(0))), i, pos)
	e.oblige(fr, p, "index", e.Lt(i, n), i, pos)
}

func (e *Engine) indexAddr(fr *frame, p *path, x *ssa.IndexAddr) *Term {
	b, i := e.val(p, x.X), e.val(p, x.Index)
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		if isByte(u.Elem()) {
			e.indexOb(fr, p, i, e.Len(b), x.Pos())
			return e.in.mk(Term{Op: "byteaddr", A: []*Term{b, i}})
		}
		bk, lo, hi, ok := p.st.sliceParts(b, x.X.Type())
		if !ok {
			e.oblige(fr, p, "index", e.Bool(false), i, x.Pos())
			return e.IA(e.BK(b, x.X.Type()), i)
		}
		e.indexOb(fr, p, i, e.Sub(hi, lo), x.Pos())
		if e.cellT[bk] == nil {
			e.cellT[bk] = x.X.Type()
		}
		return e.iaT(bk, e.Add(lo, i), u.Elem())
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		e.indexOb(fr, p, i, e.Int(at.Len()), x.Pos())
		if e.cellT[b] == nil {
			e.cellT[b] = u.Elem()
		}
		return e.iaT(b, i, at.Elem())
	}
	e.undecided("IndexAddr on %s", x.X.Type())
	return nil
}

func (e *Engine) iaT(bk, i *Term, t types.Type) *Term {
	a := e.IA(bk, i)
	if e.cellT[a] == nil {
		e.cellT[a] = t
	}
	return a
}

func (e *Engine) unop(fr *frame, p *path, x *ssa.UnOp) *Term {
	v := e.val(p, x.X)
	switch x.Op {
	case token.MUL:
		e.derefOb(fr, p, v, x.Pos())
		if v.Op == "byteaddr" {
			return e.byteAt(v.A[0], v.A[1])
		}
		e.access(fr, p.st, v, x.Type(), false, false, x.Pos())
		r := p.st.Load(v, x.Type())
		e.noteTermType(r, x.Type())
		return r
	case token.NOT:
		return e.Not(v)
	case token.SUB:
		if isFloat(x.Type()) {
			if v.Op == "const" {
				return e.Const(constant.UnaryOp(token.SUB, v.C, 0), x.Type())
			}
			return e.App("fneg", x.Type(), v)
		}
		return e.Lin(0, -1, v)
	case token.XOR:
		return e.App("compl", x.Type(), v)
	case token.ARROW:
		return p.st.recv(fr, v, x.CommaOk, x.Pos(), elemType(x.X.Type()))
	}
	e.undecided("unop %s", x.Op)
	return nil
}

func (e *Engine) noteTermType(t *Term, ty types.Type) {}

func (s *State) recv(fr *frame, ch *Term, commaOk bool, pos token.Pos, et types.Type) *Term {
	e := s.e
	var v *Term
	if v = s.fromInbox(ch); v == nil {
		v = e.Fresh("msg", et)
	}
	ef := s.emit(&Effect{Kind: "recv", Recv: ch, Res: v, Pos: pos, In: fr.fn, Blk: true})
	if commaOk {
		ok := e.Fresh("recvok", types.Typ[types.Bool])
		ef.Ok = ok
		return e.Tuple(v, ok)
	}
	return v
}

// fromInbox: the first receive from a channel with an inbox yields each of the given messages or (nil) any other one.
func (s *State) fromInbox(ch *Term) *Term {
	q := s.inbox[ch]
	if len(q) == 0 {
		return nil
	}
	for _, m := range q {
		if s.need(s.e.App("gets", types.Typ[types.Bool], ch, m)) {
			delete(s.inbox, ch)
			return m
		}
	}
	delete(s.inbox, ch)
	return nil
}

func (e *Engine) selectOp(fr *frame, p *path, x *ssa.Select) []*Exit {
	var res []*Exit
	// result tuple: index, recvOk, recv values for each RECV state
	var recvs []*ssa.SelectState
	for _, s := range x.States {
		if s.Dir == types.RecvOnly {
			recvs = append(recvs, s)
		}
	}
	var alts, tried []*Term
	for _, st := range x.States {
		if ch := e.val(p, st.Chan); ch.Op != "nil" {
			tried = append(tried, ch)
			if x.Blocking {
				alts = append(alts, ch)
			}
		}
	}
	mk := func(q *path, idx int) {
		var msgs []*Term
		okT := e.Bool(false)
		for _, r := range recvs {
			msgs = append(msgs, e.Zero(elemType(r.Chan.Type())))
		}
		if idx >= 0 {
			s := x.States[idx]
			ch := e.val(q, s.Chan)
			if ch.Op == "nil" {
				return // never ready
			}
			if s.Dir == types.RecvOnly {
				et := elemType(s.Chan.Type())
				var v *Term
				if v = q.st.fromInbox(ch); v == nil {
					v = e.Fresh("msg", et)
				}
				okT = e.Fresh("recvok", types.Typ[types.Bool])
				q.st.emit(&Effect{Kind: "recv", Recv: ch, Res: v, Ok: okT, Pos: s.Pos, In: fr.fn, Name: "select", Alts: alts})
				for i, r := range recvs {
					if r == s {
						msgs[i] = v
					}
				}
			} else {
				q.st.emit(&Effect{Kind: "send", Recv: ch, Args: []*Term{e.val(q, s.Send)}, Pos: s.Pos, In: fr.fn, Name: "select", Alts: alts})
			}
		} else {
			q.st.emit(&Effect{Kind: "select", Name: "default", Args: tried, Pos: x.Pos(), In: fr.fn})
		}
		q.env[x] = e.Tuple(append([]*Term{e.Int(int64(idx)), okT}, msgs...)...)
		res = append(res, &Exit{St: q.st, Kind: edge, p: q})
	}
	for i := range x.States {
		mk(p.clone(), i)
	}
	if !x.Blocking {
		mk(p.clone(), -1)
	}
	return res
}

var commut = map[token.Token]bool{token.ADD: true, token.MUL: true, token.AND: true, token.OR: true, token.XOR: true}

func (e *Engine) binop(fr *frame, p *path, x *ssa.BinOp) *Term {
	a, b := e.val(p, x.X), e.val(p, x.Y)
	switch x.Op {
	case token.QUO, token.REM:
		if isInt(x.X.Type()) {
			e.oblige(fr, p, "div", e.Not(e.Eq(b, e.Int(0))), b, x.Pos())
		}
	}
	return e.arith(p.st, x.Op, a, b, x.X.Type(), x.Type())
}

// arith evaluates a binary operation on terms.
func (e *Engine) arith(st *State, op token.Token, a, b *Term, t, rt types.Type) *Term {
	switch op {
	case token.EQL, token.NEQ:
		r := e.eqIn(st, a, b)
		if a == b && isFloat(t) && a.Op != "const" {
			r = e.Not(e.nan(a)) // a float is different from itself if it is not a number
		}
		if op == token.NEQ {
			return e.Not(r)
		}
		return r
	case token.LSS:
		return e.ltT(a, b, t)
	case token.GTR:
		return e.ltT(b, a, t)
	case token.LEQ:
		return e.leT(st, a, b, t)
	case token.GEQ:
		return e.leT(st, b, a, t)
	}
	if isFloat(t) {
		if a.Op == "const" && b.Op == "const" && !(op == token.QUO && constant.Sign(b.C) == 0) {
			return e.Const(constant.BinaryOp(constant.ToFloat(a.C), op, constant.ToFloat(b.C)), rt)
		}
		if op == token.ADD && a.Op == "const" && constant.Sign(a.C) == 0 {
			return b
		}
		if (op == token.ADD || op == token.SUB) && b.Op == "const" && constant.Sign(b.C) == 0 {
			return a
		}
		if commut[op] && a.id > b.id {
			a, b = b, a
		}
		return e.App("f"+op.String(), rt, a, b)
	}
	if isInt(t) {
		na, ca := a.IntVal()
		nb, cb := b.IntVal()
		switch op {
		case token.ADD:
			return e.wrap(st, e.Add(a, b), rt)
		case token.SUB:
			return e.wrap(st, e.Sub(a, b), rt)
		case token.MUL:
			if ca && cb {
				return e.Const(constant.BinaryOp(a.C, op, b.C), rt)
			}
			if ca {
				return e.scale(na, b)
			}
			if cb {
				return e.scale(nb, a)
			}
			if a.id > b.id {
				a, b = b, a
			}
			return e.App("mul", rt, a, b)
		case token.QUO:
			if ca && cb && nb != 0 {
				return e.Int(na / nb)
			}
			if cb && nb == 1 {
				return a
			}
			return e.App("div", rt, a, b)
		case token.REM:
			if ca && cb && nb != 0 {
				return e.Int(na % nb)
			}
			return e.App("mod", rt, a, b)
		}
		if ca && cb {
			switch op {
			case token.SHL:
				return e.Int(na << uint(nb))
			case token.SHR:
				return e.Int(na >> uint(nb))
			case token.AND:
				return e.Int(na & nb)
			case token.OR:
				return e.Int(na | nb)
			}
		}
		if op == token.SHL && cb && nb < 62 {
			return e.scale(1<<uint(nb), a)
		}
		if commut[op] && a.id > b.id {
			a, b = b, a
		}
		return e.App("i"+op.String(), rt, a, b)
	}
	if isStringish(t) && op == token.ADD {
		return e.Cat(a, b)
	}
	if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
		switch op {
		case token.AND:
			return e.and(a, b)
		case token.OR:
			return e.Not(e.and(e.Not(a), e.Not(b)))
		}
	}
	e.undecided("binary %s on %s", op, t)
	return nil
}

func (e *Engine) scale(n int64, a *Term) *Term {
	l := &linAcc{m: map[*Term]int64{}}
	l.add(a, n)
	return e.mkLin(l)
}

func (e *Engine) ltT(a, b *Term, t types.Type) *Term {
	if isInt(t) {
		if a.Op == "const" && b.Op == "const" {
			return e.Bool(constant.Compare(a.C, token.LSS, b.C))
		}
		return e.le0(e.Lin(1, 1, a, -1, b))
	}
	return e.Lt(a, b)
}

// leT is a <= b; with something that is not a number that is false although b < a is, too.
func (e *Engine) leT(st *State, a, b *Term, t types.Type) *Term {
	if isFloat(t) {
		if st.need(e.ltT(b, a, t)) {
			return e.Bool(false)
		}
		for _, x := range []*Term{a, b} {
			if x.Op != "const" && !x.IsApp("float") && st.need(e.nan(x)) {
				return e.Bool(false)
			}
		}
		return e.Bool(true)
	}
	return e.Not(e.ltT(b, a, t))
}

// nan says that a float is not a number.
func (e *Engine) nan(x *Term) *Term {
	if x.Op == "const" || x.IsApp("float") {
		return e.Bool(false)
	}
	if x.IsApp("fneg") {
		return e.nan(x.A[0])
	}
	return e.App("nan", types.Typ[types.Bool], x)
}

func (e *Engine) NaN(x *Term) *Term { return e.nan(x) }

// eqIn is equality, using the state for maps and slices compared with nil.
func (e *Engine) eqIn(st *State, a, b *Term) *Term {
	if a.Op == "nil" {
		a, b = b, a
	}
	if b.Op == "nil" && a.T != nil {
		if _, ok := a.T.Underlying().(*types.Slice); ok && isStringish(a.T) {
			return e.Eq(e.Len(a), e.Int(0))
		}
	}
	return e.Eq(a, b)
}

func (e *Engine) convert(p *path, x *ssa.Convert) *Term {
	v := e.val(p, x.X)
	if isStringT(x.Type()) {
		if r := e.textOf(p.st, v, x.X.Type(), x.Type()); r != nil {
			return r
		}
	}
	return e.Conv(v, x.X.Type(), x.Type())
}

// Conv converts v from type f to type t.
func (e *Engine) Conv(v *Term, f, t types.Type) *Term {
	fu, tu := f.Underlying(), t.Underlying()
	if isStringish(f) && isStringish(t) {
		return v
	}
	fi, ti := isInt(f), isInt(t)
	ff, tf := isFloat(f), isFloat(t)
	switch {
	case fi && ti:
		if v.Op == "const" {
			return e.Const(v.C, t)
		}
		if intNarrows(f, t) {
			return e.App("trunc:"+tu.String(), t, v)
		}
		if isUnsigned(t) && !isUnsigned(f) {
			return e.wrap(nil, v, t)
		}
		return v
	case fi && tf:
		if v.Op == "const" {
			return e.Const(constant.ToFloat(v.C), t)
		}
		if v.Op == "app" && v.S == "div" && false {
			return v
		}
		return e.App("float", t, v)
	case ff && ti:
		if v.Op == "const" {
			if c := constant.ToInt(v.C); c.Kind() == constant.Int {
				return e.Const(c, t)
			}
		}
		return e.App("toint", t, v)
	case ff && tf:
		return v
	case fi && isStringT(tu):
		if n, ok := v.IntVal(); ok {
			return e.Str(string(rune(n)))
		}
		return e.App("runestr", t, v)
	}
	if isStringT(fu) {
		if sl, ok := tu.(*types.Slice); ok {
			_ = sl
			return e.App("runes", t, v)
		}
	}
	if _, ok := fu.(*types.Slice); ok && isStringT(tu) {
		return e.App("fromrunes", t, v)
	}
	if _, ok := fu.(*types.Pointer); ok {
		return v
	}
	return v
}

// textOf is the text of a list of characters whose elements are known one by one or were added by the iterations of a
// loop (nil: not known).
func (e *Engine) textOf(s *State, v *Term, st, t types.Type) *Term {
	el, ok := st.Underlying().(*types.Slice)
	if !ok || v.Op != "slice" {
		return nil
	}
	b, ok := el.Elem().Underlying().(*types.Basic)
	if !ok {
		return nil
	}
	isRune := b.Kind() == types.Int32
	seq := s.Seq(v, st)
	if seq.Op != "seq" {
		return nil
	}
	var out []*Term
	for _, p := range seq.A {
		switch p.Op {
		case "el":
			out = append(out, e.charTerm(p.A[0], isRune))
		case "each":
			l := e.loops[p.S]
			sym := e.in.mk(Term{Op: "sym", S: "text of " + p.A[0].S, T: types.Typ[types.String]})
			items := make([][]*Term, len(l.items[p.A[0]]))
			for i, part := range l.items[p.A[0]] {
				for _, q := range part {
					if q.Op != "el" {
						return nil
					}
					items[i] = append(items[i], e.charTerm(q.A[0], isRune))
				}
			}
			l.items[sym] = items
			out = append(out, e.in.mk(Term{Op: "each", S: p.S, A: []*Term{sym}, T: types.Typ[types.String]}))
		default:
			return nil
		}
	}
	return e.Cat(out...)
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

var intSize = map[types.BasicKind]int{types.Int: 64, types.Int64: 64, types.Uint: 65, types.Uint64: 65, types.Uintptr: 65, types.Int32: 32, types.Uint32: 33, types.Int16: 16, types.Uint16: 17, types.Int8: 8, types.Uint8: 9, types.UntypedInt: 64, types.UntypedRune: 32}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func intNarrows(f, t types.Type) bool {
	a, b := f.Underlying().(*types.Basic), t.Underlying().(*types.Basic)
	if a == nil || b == nil {
		return false
	}
	sa, sb := intSize[a.Kind()], intSize[b.Kind()]
	// 64-bit signed<->unsigned conversions are treated as value preserving
	if sb >= 64 {
		return false
	}
	return sb < sa
}

func (e *Engine) typeAssert(fr *frame, p *path, x *ssa.TypeAssert) []*Exit {
	v := e.val(p, x.X)
	is, val := e.assertTerm(v, x.AssertedType)
	if !x.CommaOk {
		e.oblige(fr, p, "assert", is, v, x.Pos())
		p.env[x] = val
		return one(p)
	}
	if p.st.need(is) {
		p.env[x] = e.Tuple(val, e.Bool(true))
	} else {
		p.env[x] = e.Tuple(e.Zero(x.AssertedType), e.Bool(false))
	}
	return one(p)
}

func (e *Engine) assertTerm(v *Term, t types.Type) (is, val *Term) {
	it, isI := t.Underlying().(*types.Interface)
	switch v.Op {
	case "nil":
		return e.Bool(false), e.Zero(t)
	case "iface":
		if isI {
			return e.Bool(types.Implements(v.T, it)), v
		}
		if types.Identical(v.T, t) {
			return e.Bool(true), v.A[0]
		}
		return e.Bool(false), e.Zero(t)
	case "app":
		if dt := dynTypes[v.S]; dt != "" && !isI { // value of a known opaque dynamic type
			return e.Bool(types.TypeString(t, nil) == dt), v
		}
	}
	is = e.in.mk(Term{Op: "is", A: []*Term{v}, T: t})
	if isI {
		return is, v
	}
	return is, e.in.mk(Term{Op: "as", A: []*Term{v}, T: t})
}

// dynTypes: dynamic types of values returned by modelled functions.
var dynTypes = map[string]string{"errors.New": "*errors.errorString", "fmt.Errorf": "*fmt.wrapError"}

func (e *Engine) sliceOp(fr *frame, p *path, x *ssa.Slice) *Term {
	b := e.val(p, x.X)
	st := p.st
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return e.val(p, v)
	}
	if isStringish(x.X.Type()) {
		n := e.Len(b)
		lo, hi := get(x.Low, e.Int(0)), get(x.High, n)
		e.sliceOb(fr, p, lo, hi, n, x)
		return e.Substr(st, b, lo, hi)
	}
	var bk, blo, n *Term
	switch u := x.X.Type().Underlying().(type) {
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		bk, blo, n = b, e.Int(0), e.Int(at.Len())
		if isByte(at.Elem()) {
			if b.Op != "obj" {
				e.undecided("slicing a byte array")
			}
			lo, hi := get(x.Low, e.Int(0)), get(x.High, n)
			e.sliceOb(fr, p, lo, hi, n, x)
			c := st.cell(b, u.Elem())
			var s *Term
			if c.Op == "arr" {
				var parts []*Term
				for _, v := range c.A {
					parts = append(parts, e.charTerm(v, false))
				}
				s = e.Cat(parts...)
			} else {
				e.ctr++
				s = e.in.mk(Term{Op: "app", S: "mkbytes", A: []*Term{n, e.Int(int64(e.ctr))}, T: x.Type()})
			}
			return e.Substr(st, s, lo, hi)
		}
		if e.cellT[bk] == nil {
			e.cellT[bk] = u.Elem()
		}
		if b.Op == "obj" {
			// contents of the array cell
			if _, ok := st.mem.get(b); !ok {
				st.set(b, st.cell(b, u.Elem()))
			}
		}
	default:
		var hi *Term
		var ok bool
		bk, blo, hi, ok = st.sliceParts(b, x.X.Type())
		if !ok {
			return b
		}
		n = e.Sub(hi, blo)
	}
	lo, hi := get(x.Low, e.Int(0)), get(x.High, n)
	e.sliceOb(fr, p, lo, hi, n, x)
	if lo == e.Int(0) && hi == n && b.Op != "obj" && !isPtr(x.X.Type()) {
		return b
	}
	return e.mkSlice(bk, e.Add(blo, lo), e.Add(blo, hi), x.Type())
}

func (e *Engine) sliceOb(fr *frame, p *path, lo, hi, n *Term, x *ssa.Slice) {
	if x.Low != nil {
		e.oblige(fr, p, "slice", e.Not(e.Lt(lo, e.Int(0))), lo, x.Pos())
	}
	e.oblige(fr, p, "slice", e.Not(e.Lt(hi, lo)), lo, x.Pos())
	if x.High != nil {
		// slicing up to the capacity is legal; only the common case is proved
		if v, k := p.st.Holds(e.Not(e.Lt(n, hi))); !(k && v) {
			p.st.Obl = append(p.st.Obl, &Obligation{Kind: "slicecap", Cond: e.Not(e.Lt(n, hi)), Subj: hi, Pos: x.Pos(), In: fr.fn})
		}
	}
}

// Substr is s[lo:hi].
func (e *Engine) Substr(st *State, s, lo, hi *Term) *Term {
	if st.Is(e.Eq(lo, hi)) {
		return e.Str("")
	}
	if st.Is(e.Eq(lo, e.Int(0))) {
		if st.Is(e.Eq(hi, e.Len(s))) {
			return s
		}
		// prefix made of whole parts
		if s.Op == "cat" {
			n := e.Int(0)
			for i, q := range s.A {
				if st.Is(e.Eq(n, hi)) {
					return e.Cat(s.A[:i]...)
				}
				if c, ok := q.StrVal(); ok {
					if d, ok := e.Sub(hi, n).IntVal(); ok && d >= 0 && int(d) <= len(c) {
						return e.Cat(append(append([]*Term(nil), s.A[:i]...), e.Str(c[:d]))...)
					}
				}
				n = e.Add(n, e.Len(q))
			}
		}
	}
	if c, ok := s.StrVal(); ok {
		l, ok1 := lo.IntVal()
		h, ok2 := hi.IntVal()
		if ok1 && ok2 && l >= 0 && l <= h && int(h) <= len(c) {
			return e.Str(c[l:h])
		}
	}
	if s.Op == "cat" {
		// suffix made of whole parts
		if st.Is(e.Eq(hi, e.Len(s))) {
			n := e.Int(0)
			for i, q := range s.A {
				if st.Is(e.Eq(n, lo)) {
					return e.Cat(s.A[i:]...)
				}
				if c, ok := q.StrVal(); ok {
					if d, ok := e.Sub(lo, n).IntVal(); ok && d >= 0 && int(d) <= len(c) {
						return e.Cat(append([]*Term{e.Str(c[d:])}, s.A[i+1:]...)...)
					}
				}
				n = e.Add(n, e.Len(q))
			}
		}
	}
	return e.App("substr", types.Typ[types.String], s, lo, hi)
}

// ---------- calls

// callTarget evaluates the callee and arguments of a call for go/defer. For invoke calls fn is the receiver.
func (e *Engine) callTarget(fr *frame, p *path, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	for _, a := range c.Args {
		args = append(args, e.val(p, a))
	}
	if c.IsInvoke() {
		return e.val(p, c.Value), args
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return e.Nil(), args
	}
	return e.val(p, c.Value), args
}

func (e *Engine) callInstr(fr *frame, p *path, x *ssa.Call) []*Exit {
	c := &x.Call
	var args []*Term
	for _, a := range c.Args {
		args = append(args, e.val(p, a))
	}
	var outs []*Exit
	if b, ok := c.Value.(*ssa.Builtin); ok {
		v, xs := e.builtin(fr, p, b, c, args, x.Pos(), x)
		if xs == nil {
			p.env[x] = v
			return one(p)
		}
		outs = xs
	} else if c.IsInvoke() {
		outs = e.invoke(fr, p.st, c, e.val(p, c.Value), args, x.Pos())
	} else if f := c.StaticCallee(); f != nil {
		var bind []*Term
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			bind = e.val(p, mc).A
		}
		outs = e.callStatic(fr, p.st, f, args, bind, x.Pos(), false, c)
	} else {
		outs = e.callValue(fr, p.st, e.val(p, c.Value), args, x.Pos(), c)
	}
	return e.bind(p, x, outs)
}

// bind turns exits of a callee into continuations of the caller.
func (e *Engine) bind(p *path, x ssa.Value, outs []*Exit) []*Exit {
	var res []*Exit
	for i, o := range outs {
		q := &path{st: o.St, env: p.env, defers: p.defers}
		if len(outs) > 1 {
			q.env = make(map[ssa.Value]*Term, len(p.env)+1)
			for k, v := range p.env {
				q.env[k] = v
			}
		} else {
			p.st = o.St
			q = p
		}
		_ = i
		if o.Kind == Panics {
			res = append(res, &Exit{St: q.st, Kind: Panics, Vals: o.Vals, p: q})
			continue
		}
		switch len(o.Vals) {
		case 0:
			q.env[x] = e.Tuple()
		case 1:
			q.env[x] = o.Vals[0]
		default:
			q.env[x] = e.Tuple(o.Vals...)
		}
		res = append(res, &Exit{St: q.st, Kind: edge, p: q})
	}
	return res
}

func (e *Engine) callValue(fr *frame, st *State, fv *Term, args []*Term, pos token.Pos, c *ssa.CallCommon) []*Exit {
	if (fv.Op == "func" || fv.Op == "closure") && !e.Opaque[fv.F] {
		return e.callStatic(fr, st, fv.F, args, fv.A, pos, false, c)
	}
	var in *ssa.Function
	if fr != nil {
		in = fr.fn
	}
	if fv.Op == "ctxcancel" {
		return []*Exit{{St: st, Kind: Ret}}
	}
	// unknown function value
	var sig *types.Signature
	if c != nil {
		sig = c.Signature()
	} else if fv.T != nil {
		sig, _ = fv.T.Underlying().(*types.Signature)
	}
	if sig == nil {
		e.undecided("call of untyped function value %s", fv)
	}
	ef := &Effect{Kind: "dyn", Fn: fv, Args: args, Pos: pos, In: in}
	var exits []*Exit
	if e.PanickingFuncs[fv] {
		ps := st.Clone()
		pe := *ef
		pe.Name = "panicked"
		ps.emit(&pe)
		pv := e.Fresh("panicval", types.NewInterfaceType(nil, nil))
		ps.Assume(e.Eq(pv, e.Nil()), false)
		exits = append(exits, &Exit{St: ps, Kind: Panics, Vals: []*Term{pv}})
	}
	st.emit(ef)
	var vals []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		// results of an unknown function: a function of nothing we know (may differ between calls), but recorded in the effect
		t := sig.Results().At(i).Type()
		var r *Term
		if pureDyn(sig) {
			r = e.App(fmt.Sprintf("dyn%d", i), t, append([]*Term{fv}, args...)...)
		} else {
			r = e.Fresh("dynres", t)
		}
		vals = append(vals, r)
	}
	// an unknown function given a buffer appends something that depends only on it and its arguments
	for i, a := range args {
		if i < sig.Params().Len() && isBufPtr(sig.Params().At(i).Type()) {
			var rest []*Term
			rest = append(rest, fv)
			for j, b := range args {
				if j != i {
					rest = append(rest, b)
				}
			}
			bc := e.BC(a)
			cur := st.cell(bc, types.Typ[types.String])
			st.set(bc, e.Cat(cur, e.App("dyn", types.Typ[types.String], rest...)))
		}
	}
	if len(vals) == 1 {
		ef.Res = vals[0]
	} else {
		ef.Res = e.Tuple(vals...)
	}
	return append(exits, &Exit{St: st, Kind: Ret, Vals: vals})
}

// pureDyn: a function from strings/numbers to strings/numbers is taken as a function of its arguments.
func pureDyn(sig *types.Signature) bool {
	if sig.Params().Len() == 0 {
		return false
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if _, ok := sig.Params().At(i).Type().Underlying().(*types.Basic); !ok {
			return false
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		if _, ok := sig.Results().At(i).Type().Underlying().(*types.Basic); !ok {
			return false
		}
	}
	return true
}

func isBufPtr(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	return ok && isBufType(pt.Elem())
}

// FuncName is the canonical name of a function: pkg.Func or (pkg.T).Method / (*pkg.T).Method.
func FuncName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.RelString(nil)
}

func (e *Engine) callStatic(fr *frame, st *State, f *ssa.Function, args, bind []*Term, pos token.Pos, isDefer bool, c *ssa.CallCommon) []*Exit {
	if f.Synthetic == "package initializer" {
		return []*Exit{{St: st, Kind: Ret}}
	}
	if e.Opaque[f] && len(bind) == 0 {
		return e.callValue(fr, st, e.FuncTerm(f), args, pos, c)
	}
	if e.NoInline[f] {
		return e.opaqueCall(fr, st, f.Signature, FuncName(f), args, pos)
	}
	if len(f.Blocks) > 0 && e.inlinable(f) {
		return e.callFn(fr, st, f, args, bind, isDefer)
	}
	return e.external(fr, st, f, args, pos)
}

func (e *Engine) inlinable(f *ssa.Function) bool {
	if f.Pkg != nil {
		return e.Prog.Pkgs[f.Pkg.Pkg.Path()] != nil
	}
	// synthetic wrappers, bound methods, instantiations
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return e.Prog.Pkgs[o.Pkg.Pkg.Path()] != nil
	}
	return true
}

// invoke handles a dynamic method call.
func (e *Engine) invoke(fr *frame, st *State, c *ssa.CallCommon, recv *Term, args []*Term, pos token.Pos) []*Exit {
	if recv.Op == "iface" {
		sel := e.Prog.SSA.MethodSets.MethodSet(recv.T).Lookup(c.Method.Pkg(), c.Method.Name())
		if sel == nil {
			e.undecided("method %s not found on %s", c.Method.Name(), recv.T)
		}
		fn := e.Prog.SSA.MethodValue(sel)
		if fn == nil {
			e.undecided("no method value %s", sel)
		}
		if len(fn.Blocks) > 0 && e.inlinable(fn) {
			return e.callFn(fr, st, fn, append([]*Term{recv.A[0]}, args...), nil, false)
		}
		return e.external(fr, st, fn, append([]*Term{recv.A[0]}, args...), pos)
	}
	var in *ssa.Function
	if fr != nil {
		in = fr.fn
	}
	if recv.Op == "nil" {
		st.Obl = append(st.Obl, &Obligation{Kind: "nilderef", Cond: e.Bool(false), Subj: recv, Pos: pos, In: in})
	}
	name := c.Method.Name()
	it := types.TypeString(c.Value.Type(), nil)
	sig := c.Signature()
	if r, ok := e.invokeModel(fr, st, it, name, recv, args, sig, pos); ok {
		return r
	}
	var vals []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		vals = append(vals, e.Fresh("inv."+name, sig.Results().At(i).Type()))
	}
	ef := st.emit(&Effect{Kind: "invoke", Name: name, Recv: recv, Args: args, Pos: pos, In: in})
	if len(vals) == 1 {
		ef.Res = vals[0]
	} else {
		ef.Res = e.Tuple(vals...)
	}
	return []*Exit{{St: st, Kind: Ret, Vals: vals}}
}

// opaqueCall records a call and returns fresh results.
func (e *Engine) opaqueCall(fr *frame, st *State, sig *types.Signature, name string, args []*Term, pos token.Pos) []*Exit {
	var in *ssa.Function
	if fr != nil {
		in = fr.fn
	}
	var vals []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		vals = append(vals, e.Fresh(shortName(name), sig.Results().At(i).Type()))
	}
	ef := st.emit(&Effect{Kind: "call", Name: name, Args: args, Pos: pos, In: in})
	switch len(vals) {
	case 0:
	case 1:
		ef.Res = vals[0]
	default:
		ef.Res = e.Tuple(vals...)
	}
	return []*Exit{{St: st, Kind: Ret, Vals: vals}}
}

func shortName(n string) string {
	if i := strings.LastIndex(n, "/"); i >= 0 {
		return n[i+1:]
	}
	return n
}

// external handles calls of functions outside the repository.
func (e *Engine) external(fr *frame, st *State, f *ssa.Function, args []*Term, pos token.Pos) []*Exit {
	name := FuncName(f)
	cx := &callCtx{e: e, fr: fr, st: st, name: name, args: args, sig: f.Signature, pos: pos, fn: f}
	if e.OnAccess != nil {
		var at []types.Type
		if r := f.Signature.Recv(); r != nil {
			at = append(at, r.Type())
		}
		for i := 0; i < f.Signature.Params().Len(); i++ {
			at = append(at, f.Signature.Params().At(i).Type())
		}
		e.accessExternal(fr, st, name, args, at, pos)
	}
	if m := models[name]; m != nil {
		if r := m(cx); r != nil {
			return r
		}
	}
	// pure by signature: only basic/opaque value arguments
	if purePkgs[pkgOf(f)] || e.allValueArgs(f) {
		return cx.pure()
	}
	// unknown: fresh objects passed by pointer become unknown
	for i, a := range args {
		cx.havocArg(i, a)
	}
	return e.opaqueCall(fr, st, f.Signature, name, args, pos)
}

func pkgOf(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

var purePkgs = map[string]bool{"strconv": true, "math": true, "unicode": true, "unicode/utf8": true, "path": true, "net/url": false}

func (e *Engine) allValueArgs(f *ssa.Function) bool {
	if len(f.Params) == 0 && f.Signature.Params().Len() == 0 {
		return false
	}
	ok := func(t types.Type) bool {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return true
		case *types.Struct:
			return e.atomicStruct(t)
		case *types.Slice:
			return isByte(u.Elem())
		}
		return false
	}
	sig := f.Signature
	if r := sig.Recv(); r != nil && !ok(r.Type()) {
		return false
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if !ok(sig.Params().At(i).Type()) {
			return false
		}
	}
	if sig.Results().Len() == 0 {
		return false
	}
	switch pkgOf(f) {
	case "os", "net", "net/http", "log", "io", "runtime", "syscall", "math/rand", "crypto/rand":
		return false
	}
	return true
}

func (e *Engine) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*natLoop {
	if e.loopCache == nil {
		e.loopCache = map[*ssa.Function]map[*ssa.BasicBlock]*natLoop{}
	}
	l, ok := e.loopCache[fn]
	if !ok {
		l = naturalLoops(fn)
		e.loopCache[fn] = l
	}
	return l
}
