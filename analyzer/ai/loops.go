package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type natLoop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	latch  []*ssa.BasicBlock
}

var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]*natLoop{}

func naturalLoops(fn *ssa.Function) map[*ssa.BasicBlock]*natLoop {
	if l, ok := loopCache[fn]; ok {
		return l
	}
	res := map[*ssa.BasicBlock]*natLoop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := res[s]
				if l == nil {
					l = &natLoop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					res[s] = l
				}
				l.latch = append(l.latch, b)
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					st = append(st, x.Preds...)
				}
			}
		}
	}
	loopCache[fn] = res
	return res
}

// Iter is one control path through a generic iteration of a loop.
type Iter struct {
	St    *State    // state at the back edge
	New   []*Effect // effects of this iteration
	Conds map[*Term]bool
}

// LoopVar is a variable (or memory cell) that changes from iteration to iteration.
type LoopVar struct {
	Head *Term   // value at the start of a generic iteration
	Pre  *Term   // before the loop
	Next []*Term // at the end of an iteration, parallel to LoopSum.Iters
	T    types.Type
	Cell *Term // nil for a local variable
	Name string
}

// LoopSum summarises a loop: it stands for all iterations.
type LoopSum struct {
	ID    string
	Kind  string // maprange, index, strrange, chanrange, infinite, other
	Fn    *ssa.Function
	Pos   token.Pos
	Iters []*Iter

	// ranged collection
	Coll        *Term // map/string/channel value, or slice for an index loop if it is used to index it
	CollContent *Term
	Key, Val    *Term // key and value (maprange), index and rune (strrange), message (chanrange)

	// index loops: Idx takes lo, lo+step, ... (step 1: < hi; step -1: >= lo descending from hi-1)
	Idx    *Term
	Lo, Hi *Term
	Desc   bool
	Step   int64

	Head   *State // state at the start of a generic iteration
	Pre    *State // state before the loop
	Cells  []*Term
	havoc  map[*Term]*Term // cell -> symbol
	phis   map[*ssa.Phi]*Term
	vars   map[*Term]bool
	items  map[*Term][][]*Term // accumulator symbol -> per iteration path, parts added
	ctr0   int
	id0    int
	Vars   []*LoopVar
	Breaks []*Iter  // ways out of the loop other than its normal end
	Outer  *LoopSum // enclosing loop, if any (across calls)
	Exits  int      // number of break/return exits
	Full   bool     // no break/return exits: normal termination runs all iterations
	conv   bool
}

func (l *LoopSum) isVar(t *Term) bool {
	return t == l.Key && t != nil || t == l.Idx && t != nil || t == l.Val && t != nil && t.Op == "sym"
}

// soleUpd: the layer's per-iteration update if it is the same on every iteration path and unconditional.
func (l *LoopSum) soleUpd(layer *Term) *Term {
	items := l.accItems(layer.A[1])
	if len(items) != 1 || len(items[0]) != 1 || items[0][0].Op != "updp" {
		return nil
	}
	return items[0][0]
}

// ownKeyUpd: for a complete range over a map whose iterations update nothing of the layered map but the entry of their
// own key, and choose what they do only by whether that entry exists: the update made when it does not exist and the one
// made when it does (nil: none).
func (l *LoopSum) ownKeyUpd(layer *Term) (absent, present *Term, ok bool) {
	if l.Kind != "maprange" || l.Exits > 0 || len(l.Breaks) > 0 || l.CollContent == nil {
		return nil, nil, false
	}
	sym := layer.A[1]
	items := l.accItems(sym)
	if len(items) == 0 || len(items) != len(l.Iters) {
		return nil, nil, false
	}
	var got [2]*Term
	var seen [2]bool
	for i, it := range l.Iters {
		var up *Term
		switch {
		case len(items[i]) == 0:
		case len(items[i]) == 1 && items[i][0].Op == "updp" && items[i][0].A[1] == l.Key && !items[i][0].A[2].Mentions(sym):
			up = items[i][0]
		default:
			return nil, nil, false
		}
		has, known := it.St.Holds(it.St.e.Has(sym, l.Key))
		for n, h := range []bool{false, true} {
			if known && has != h {
				continue
			}
			if seen[n] && got[n] != up {
				return nil, nil, false
			}
			seen[n], got[n] = true, up
		}
	}
	return got[0], got[1], seen[0] && seen[1]
}

// accItems: for the accumulator symbol, per iteration path the list of added parts.
func (l *LoopSum) accItems(sym *Term) [][]*Term {
	return l.items[sym]
}

// CellOfSym is the cell whose value at the start of an iteration is the given symbol.
func (l *LoopSum) CellOfSym(sym *Term) *Term {
	if sym.Op != "sym" {
		return nil
	}
	for c, s := range l.havoc {
		if s == sym {
			return c
		}
	}
	return nil
}

func (e *Engine) LoopOf(t *Term) *LoopSum { return e.loops[t.S] }

// Items returns, for an each/layer term, the added parts per iteration path (parallel to LoopSum.Iters).
func (e *Engine) Items(t *Term) [][]*Term {
	l := e.loops[t.S]
	switch t.Op {
	case "each":
		return l.items[t.A[0]]
	case "layer":
		return l.items[t.A[1]]
	}
	return nil
}

// ---------- loop execution

type indexInfo struct {
	phi   *ssa.Phi
	step  int64
	off   int64 // compared value = phi + off
	bound ssa.Value
	op    token.Token // relation that keeps looping: compared OP bound
	cmp   ssa.Value
}

// indexLoop recognises a counted loop at the header.
func (l *natLoop) indexLoop() *indexInfo {
	iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	stayTrue := l.blocks[l.header.Succs[0]]
	if stayTrue == l.blocks[l.header.Succs[1]] {
		return nil
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || !isInt(cmp.X.Type()) {
		return nil
	}
	op := cmp.Op
	if !stayTrue {
		switch op {
		case token.LSS:
			op = token.GEQ
		case token.LEQ:
			op = token.GTR
		case token.GTR:
			op = token.LEQ
		case token.GEQ:
			op = token.LSS
		case token.EQL:
			op = token.NEQ
		default:
			return nil
		}
	}
	try := func(x, y ssa.Value, op token.Token) *indexInfo {
		phi, off, ok := phiPlus(x)
		if !ok || phi.Block() != l.header {
			return nil
		}
		if !l.invariant(y) {
			return nil
		}
		step := int64(0)
		for i, pr := range l.header.Preds {
			if !l.blocks[pr] {
				continue
			}
			q, o, ok := phiPlus(phi.Edges[i])
			if !ok || q != phi || o == 0 {
				return nil
			}
			if step != 0 && step != o {
				return nil
			}
			step = o
		}
		if step != 1 && step != -1 {
			return nil
		}
		return &indexInfo{phi: phi, step: step, off: off, bound: y, op: op, cmp: x}
	}
	if r := try(cmp.X, cmp.Y, op); r != nil {
		return r
	}
	fl := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.NEQ: token.NEQ}
	if o, ok := fl[op]; ok {
		return try(cmp.Y, cmp.X, o)
	}
	return nil
}

func phiPlus(v ssa.Value) (*ssa.Phi, int64, bool) {
	switch x := v.(type) {
	case *ssa.Phi:
		return x, 0, true
	case *ssa.BinOp:
		c, ok := x.Y.(*ssa.Const)
		if !ok || c.Value == nil || !isInt(c.Type()) {
			return nil, 0, false
		}
		p, o, ok := phiPlus(x.X)
		if !ok {
			return nil, 0, false
		}
		switch x.Op {
		case token.ADD:
			return p, o + c.Int64(), true
		case token.SUB:
			return p, o - c.Int64(), true
		}
	}
	return nil, 0, false
}

// invariant: v is computed outside the loop (or is re-evaluated in the header from such values, e.g. len(x)).
func (l *natLoop) invariant(v ssa.Value) bool {
	ins, ok := v.(ssa.Instruction)
	if !ok {
		return true
	}
	if !l.blocks[ins.Block()] {
		return true
	}
	switch x := v.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return l.invariant(x.Call.Args[0])
		}
	case *ssa.BinOp:
		return l.invariant(x.X) && l.invariant(x.Y)
	case *ssa.UnOp:
		if x.Op == token.MUL { // a load: checked dynamically (cell must not be modified by the loop)
			return l.invariant(x.X)
		}
	case *ssa.FieldAddr:
		return l.invariant(x.X)
	case *ssa.Convert:
		return l.invariant(x.X)
	}
	return false
}

func (l *natLoop) rangeNext() *ssa.Next {
	for _, i := range l.header.Instrs {
		if n, ok := i.(*ssa.Next); ok {
			return n
		}
	}
	return nil
}

// chanRange: header receives with comma-ok and leaves on !ok.
func (l *natLoop) chanRange() *ssa.UnOp {
	for _, i := range l.header.Instrs {
		if u, ok := i.(*ssa.UnOp); ok && u.Op == token.ARROW && u.CommaOk {
			return u
		}
	}
	return nil
}

func (l *natLoop) headerExits() bool {
	for _, s := range l.header.Succs {
		if !l.blocks[s] {
			return true
		}
	}
	return false
}

const unrollMax = 40

func (e *Engine) execLoop(fr *frame, p *path, l *natLoop, pred *ssa.BasicBlock) []*Exit {
	if outs, ok := e.tryUnroll(fr, p, l, pred); ok {
		return outs
	}
	return e.genericLoop(fr, p, l, pred)
}

// tryUnroll executes loops whose number of iterations is fixed by the code around them (ranging over a literal).
func (e *Engine) tryUnroll(fr *frame, p *path, l *natLoop, pred *ssa.BasicBlock) ([]*Exit, bool) {
	ix := l.indexLoop()
	if ix == nil {
		return nil, false
	}
	if c, ok := ix.bound.(*ssa.Const); ok && c.Value != nil && c.Int64() > 3 {
		return nil, false
	}
	// evaluate the header on a copy to see whether the bound is a constant
	q := p.clone()
	e.enterPhis(q, l.header, pred)
	var cond *Term
	okHdr := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(splitReq); is {
					ok = false
					return
				}
				panic(r)
			}
		}()
		for _, ins := range l.header.Instrs {
			switch x := ins.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.If:
				cond = e.val(q, x.Cond)
			default:
				if outs := e.step(fr, q, ins); len(outs) != 1 || outs[0].p != q {
					return false
				}
			}
		}
		return true
	}()
	if !okHdr || cond == nil {
		return nil, false
	}
	b := e.val(q, ix.bound)
	n, isC := b.IntVal()
	v0, isC0 := q.env[ix.phi].IntVal()
	if !isC || !isC0 || n-v0 > unrollMax || v0-n > unrollMax {
		return nil, false
	}
	var outs []*Exit
	cur := []*Exit{{St: p.st, Kind: edge, p: p, from: pred, to: l.header}}
	for it := 0; it < 2*unrollMax && len(cur) > 0; it++ {
		var next []*Exit
		for _, c := range cur {
			e.enterPhis(c.p, l.header, c.from)
			for _, o := range e.runRegion(fr, c.p, l.header, c.from, l) {
				if o.Kind == edge && o.to == l.header {
					next = append(next, o)
				} else {
					outs = append(outs, o)
				}
			}
		}
		cur = next
	}
	if len(cur) > 0 {
		e.undecided("loop in %s does not terminate within its constant bound", fr.fn)
	}
	return outs, true
}

func (e *Engine) nextOutsideLoop(fr *frame, p *path, x *ssa.Next) []*Exit {
	e.undecided("iterator used outside a loop header in %s", fr.fn)
	return nil
}

func (e *Engine) genericLoop(fr *frame, p *path, nl *natLoop, pred *ssa.BasicBlock) []*Exit {
	e.loopCtr++
	e.Loops++
	l := &LoopSum{ID: fmt.Sprintf("L%d", e.loopCtr), Fn: fr.fn, Pos: nl.header.Instrs[0].Pos(), havoc: map[*Term]*Term{},
		phis: map[*ssa.Phi]*Term{}, items: map[*Term][][]*Term{}, Pre: p.st.Clone()}
	for _, i := range nl.header.Instrs {
		if l.Pos != token.NoPos {
			break
		}
		l.Pos = i.Pos()
	}
	if l.Pos == token.NoPos {
		for b := range nl.blocks {
			for _, i := range b.Instrs {
				if i.Pos() != token.NoPos && (l.Pos == token.NoPos || i.Pos() < l.Pos) {
					l.Pos = i.Pos()
				}
			}
		}
	}
	e.loops[l.ID] = l
	l.Outer = e.curLoop
	e.curLoop = l
	defer func() { e.curLoop = l.Outer }()

	pre := p.clone()
	e.enterPhis(pre, nl.header, pred) // phi values on entry
	ix := nl.indexLoop()
	next := nl.rangeNext()
	chr := nl.chanRange()
	switch {
	case next != nil && next.IsString:
		l.Kind = "strrange"
	case next != nil:
		l.Kind = "maprange"
	case ix != nil:
		l.Kind = "index"
	case chr != nil && nl.headerExits():
		l.Kind = "chanrange"
	case nl.headerExits():
		l.Kind = "other"
	default:
		l.Kind = "infinite"
	}

	var outs []*Exit
	var iters []*Exit
	unchanged := map[*ssa.Phi]bool{}
	notOwn := map[*Term]bool{} // cells written at other indices than the current one
	for round := 0; ; round++ {
		if round > 16 {
			e.undecided("loop in %s does not stabilise", fr.fn)
		}
		h := pre.clone()
		h.st.Trace = nil
		h.st.Obl = nil
		// phis
		for _, ins := range nl.header.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			if unchanged[ph] {
				continue
			}
			if l.phis[ph] == nil {
				l.phis[ph] = e.Fresh("phi."+l.ID+"."+ph.Comment, ph.Type())
			}
			h.env[ph] = l.phis[ph]
		}
		for _, c := range l.Cells {
			if l.havoc[c] == nil {
				l.havoc[c] = e.Fresh("cell."+l.ID, e.cellT[c])
			}
			h.st.set(c, l.havoc[c])
		}
		if l.Kind == "index" {
			if b0, b1 := e.evalHeaderValue(fr, pre, nl, ix.bound), e.evalHeaderValue(fr, h, nl, ix.bound); b0 != b1 {
				// the bound changes while looping
				l.Kind = "other"
				l.Idx = nil
				delete(l.phis, ix.phi)
				ix = nil
				continue
			}
			e.setupIndex(fr, h, pre, nl, l, ix)
		}
		if l.Kind == "maprange" || l.Kind == "strrange" {
			rg := e.val(h, next.Iter)
			if rg.Op != "range" {
				e.undecided("unexpected iterator in %s", fr.fn)
			}
			l.Coll = rg.A[0]
			if l.Kind == "maprange" {
				mt := rg.T.Underlying().(*types.Map)
				l.CollContent = l.Pre.MapContent(l.Coll, rg.T)
				if l.Key == nil {
					l.Key = e.Fresh("key."+l.ID, mt.Key())
				}
				if l.CollContent.Op == "mempty" {
					// nothing to iterate
					iters, outs = nil, nil
					break
				}
				v, has := h.st.lookupNoSplit(l.CollContent, l.Key, mt.Elem(), l)
				l.Val = v
				if !h.st.Assume(has, true) {
					break
				}
				// presence is reflected in the value for pointer-valued maps
			} else {
				if l.Key == nil {
					l.Key = e.Fresh("pos."+l.ID, types.Typ[types.Int])
					l.Val = e.Fresh("rune."+l.ID, types.Typ[types.Rune])
				}
				l.CollContent = l.Coll
				h.st.Assume(e.Lt(l.Key, e.Int(0)), false)
				h.st.Assume(e.Lt(l.Key, e.Len(l.Coll)), true)
				h.st.Assume(e.Lt(l.Val, e.Int(0)), false)
				h.st.Assume(e.Lt(e.Int(0x10FFFF), l.Val), false)
			}
		}
		if e.FieldInv != nil {
			for _, a := range l.Cells {
				if v, ok := h.st.mem.get(a); ok && a.Op == "fa" {
					e.FieldInv(h.st, a, v)
				}
			}
		}
		if e.HeadAssume != nil {
			e.HeadAssume(h.st, l)
		}
		l.Head = h.st.Clone()
		l.id0 = e.in.n
		exits := e.withSplit(h, func(h *path) []*Exit {
			for _, c := range l.Cells {
				if l.Kind == "index" && !notOwn[c] && l.elementwise(c, e.cellT[c]) {
					// assuming that each iteration writes at its own index only, the element there is still the old one
					v0 := l.Pre.cell(c, e.cellT[c])
					if v0.Op == "seq" && len(v0.A) > 3 {
						notOwn[c] = true
						continue
					}
					old := h.st.Elem(v0, l.Idx, elemType(e.cellT[c]))
					h.st.set(c, e.in.mk(Term{Op: "aupd", A: []*Term{l.havoc[c], l.Idx, old}, T: l.havoc[c].T}))
				}
			}
			return e.runIteration(fr, h, nl, l, next, chr)
		})
		iters, outs = nil, nil
		for _, o := range exits {
			if o.Kind == edge && o.to == nl.header {
				iters = append(iters, o)
			} else {
				outs = append(outs, o)
			}
		}
		// which cells and phis change?
		grew := false
		for _, it := range iters {
			for a, v := range it.p.st.mem.m {
				if hv, ok := l.Head.mem.get(a); ok && hv == v {
					continue
				}
				if l.havoc[a] != nil {
					continue
				}
				if e.iterLocal(a, l) {
					continue
				}
				if _, ok := l.Head.mem.get(a); !ok && v == l.Head.cell(a, e.cellT[a]) {
					continue
				}
				l.Cells = append(l.Cells, a)
				l.havoc[a] = e.Fresh("cell."+l.ID, e.cellT[a])
				grew = true
			}
		}
		// exits through break may also carry changed cells, but they are final
		if !grew {
			// phis/cells that in fact never change keep their initial value
			for ph, sym := range l.phis {
				if unchanged[ph] || ix != nil && ph == ix.phi {
					continue
				}
				same := true
				v0 := pre.env[ph]
				for _, it := range iters {
					if nv := e.phiOn(it, ph); nv != sym && nv != v0 {
						same = false
					}
				}
				if same {
					unchanged[ph] = true
					delete(l.phis, ph)
					grew = true
				}
			}
		}
		if !grew && l.Kind == "index" {
			for _, c := range l.Cells {
				if notOwn[c] || !l.elementwise(c, e.cellT[c]) {
					continue
				}
				for _, it := range iters {
					if w, _ := it.p.st.mem.get(c); w.Op != "aupd" || w.A[0] != l.havoc[c] || w.A[1] != l.Idx {
						notOwn[c], grew = true, true
						break
					}
				}
			}
		}
		if !grew {
			break
		}
	}
	sort.Slice(l.Cells, func(i, j int) bool { return l.Cells[i].id < l.Cells[j].id })
	l.Exits = len(outs)
	l.Full = len(outs) == 0
	for _, it := range iters {
		im := &Iter{St: it.p.st, New: it.p.st.Trace, Conds: map[*Term]bool{}}
		for a, v := range it.p.st.facts.atoms {
			if hv, ok := l.Head.facts.atoms[a]; !ok || hv != v {
				im.Conds[a] = v
			}
		}
		l.Iters = append(l.Iters, im)
	}
	for ph, sym := range l.phis {
		v := &LoopVar{Head: sym, Pre: pre.env[ph], T: ph.Type(), Name: ph.Comment}
		for _, it := range iters {
			v.Next = append(v.Next, e.phiOn(it, ph))
		}
		l.Vars = append(l.Vars, v)
	}
	for c, sym := range l.havoc {
		v := &LoopVar{Head: sym, Pre: l.Pre.cell(c, e.cellT[c]), T: e.cellT[c], Cell: c}
		for _, it := range iters {
			w, _ := it.p.st.mem.get(c)
			v.Next = append(v.Next, w)
		}
		l.Vars = append(l.Vars, v)
	}
	sort.Slice(l.Vars, func(i, j int) bool { return l.Vars[i].Head.id < l.Vars[j].Head.id })
	var res []*Exit
	// exits by break, return or panic: some iterations happened before
	for _, o := range outs {
		own := o.p.st.Trace
		l.Breaks = append(l.Breaks, &Iter{St: o.p.st.Clone(), New: own})
		ef := &Effect{Kind: "loop", Loop: l, Part: true, Pos: l.Pos, In: fr.fn, Mem: l.Pre.snapshot(), Fs: l.Pre.facts}
		tr := append(append([]*Effect(nil), l.Pre.Trace...), ef)
		o.p.st.Trace = append(tr, own...)
		o.p.st.Obl = append(append([]*Obligation(nil), l.Pre.Obl...), o.p.st.Obl...)
		o.p.st.mods = append(o.p.st.mods, e.iterMods(l, iters)...)
		res = append(res, o)
	}
	for _, it := range iters {
		for _, ob := range it.p.st.Obl {
			pre.st.Obl = append(pre.st.Obl, ob)
		}
	}
	if l.Kind == "infinite" {
		return res
	}
	// normal exit
	a := pre.clone()
	a.st.Trace = append(append([]*Effect(nil), l.Pre.Trace...), &Effect{Kind: "loop", Loop: l, Pos: l.Pos, In: fr.fn, Mem: l.Pre.snapshot(), Fs: l.Pre.facts})
	a.st.mods = append(a.st.mods, e.iterMods(l, iters)...)
	if l.Kind == "other" || l.Kind == "chanrange" {
		for _, c := range l.Cells {
			a.st.set(c, l.havoc[c])
		}
		for ph, s := range l.phis {
			a.env[ph] = s
		}
	} else {
		for _, c := range l.Cells {
			var vs []*Term
			for _, it := range iters {
				v, _ := it.p.st.mem.get(c)
				vs = append(vs, v)
			}
			if isContentCell(c) {
				a.st.set(c, e.closeAcc(l, a.st, l.havoc[c], l.Pre.cell(c, e.cellT[c]), vs, e.cellT[c], c))
			} else {
				a.st.set(c, e.closeVal(l, a.st, l.havoc[c], l.Pre.cell(c, e.cellT[c]), vs, iters, e.cellT[c]))
			}
		}
		for ph, s := range l.phis {
			if ix != nil && ph == ix.phi && l.Kind == "index" {
				continue
			}
			var vs []*Term
			for _, it := range iters {
				vs = append(vs, e.phiOn(it, ph))
			}
			a.env[ph] = e.closeVal(l, a.st, s, pre.env[ph], vs, iters, ph.Type())
		}
	}
	if l.Kind == "index" {
		// final value of the counter
		fin := l.Hi
		if l.Desc {
			fin = e.Sub(l.Lo, e.Int(1))
		}
		empty := e.Not(e.Lt(l.Lo, l.Hi))
		z, k := a.st.Holds(empty)
		if k && z {
			a.env[ix.phi] = pre.env[ix.phi]
		} else if k {
			a.env[ix.phi] = e.Sub(fin, e.Int(ix.off))
		} else {
			fv := e.Fresh("iend."+l.ID, ix.phi.Type())
			a.env[ix.phi] = fv
		}
	}
	res = append(res, e.leaveLoop(fr, a, nl, l)...)
	return res
}

func (e *Engine) phiOn(it *Exit, ph *ssa.Phi) *Term {
	for i, pr := range ph.Block().Preds {
		if pr == it.from {
			return e.val(it.p, ph.Edges[i])
		}
	}
	e.undecided("phi edge")
	return nil
}

// iterLocal: the cell belongs to an object of one iteration, or to a location that differs between iterations.
func (e *Engine) iterLocal(a *Term, l *LoopSum) bool {
	return a.Any(func(t *Term) bool {
		if (t.Op == "sym" || t.Op == "obj") && t.id > l.id0 {
			return true
		}
		return t == l.Key || t == l.Idx || t == l.Val && t != nil
	})
}

// iterMods: locations modified by a generic iteration at an address that depends on the loop variable.
func (e *Engine) iterMods(l *LoopSum, iters []*Exit) []*loopMod {
	var res []*loopMod
	seen := map[*Term]bool{}
	for _, it := range iters {
		for a, v := range it.p.st.mem.m {
			if hv, ok := l.Head.mem.get(a); ok && hv == v || seen[a] || l.havoc[a] != nil {
				continue
			}
			if rootOf(a).Op == "obj" && rootOf(a).id > l.id0 {
				continue
			}
			if e.iterLocal(a, l) && v != l.Head.cell(a, e.cellT[a]) {
				seen[a] = true
				res = append(res, &loopMod{l: l, addr: a})
			}
		}
	}
	return res
}

func (e *Engine) setupIndex(fr *frame, h, pre *path, nl *natLoop, l *LoopSum, ix *indexInfo) {
	if l.Idx == nil {
		l.Idx = e.Fresh("i."+l.ID, ix.phi.Type())
	}
	iv := l.Idx
	h.env[ix.phi] = e.Sub(iv, e.Int(ix.off))
	l.phis[ix.phi] = h.env[ix.phi]
	v0 := e.Add(pre.env[ix.phi], e.Int(ix.off)) // first compared value
	// bound, evaluated on entry
	bound := e.evalHeaderValue(fr, pre, nl, ix.bound)
	l.Step = ix.step
	if ix.step > 0 {
		l.Lo = v0
		switch ix.op {
		case token.LSS, token.NEQ:
			l.Hi = bound
		case token.LEQ:
			l.Hi = e.Add(bound, e.Int(1))
		default:
			e.undecided("unusual loop bound in %s", fr.fn)
		}
		if ix.op == token.NEQ && !pre.st.Is(e.Not(e.Lt(bound, v0))) {
			e.undecided("loop in %s may miss its bound", fr.fn)
		}
	} else {
		l.Desc = true
		l.Hi = e.Add(v0, e.Int(1))
		switch ix.op {
		case token.GEQ:
			l.Lo = bound
		case token.GTR, token.NEQ:
			l.Lo = e.Add(bound, e.Int(1))
		default:
			e.undecided("unusual loop bound in %s", fr.fn)
		}
	}
	h.st.Assume(e.Lt(iv, l.Lo), false)
	h.st.Assume(e.Lt(iv, l.Hi), true)
}

// evalHeaderValue evaluates a loop-invariant header expression in the entry state.
func (e *Engine) evalHeaderValue(fr *frame, pre *path, nl *natLoop, v ssa.Value) *Term {
	q := pre.clone()
	var f func(v ssa.Value) *Term
	f = func(v ssa.Value) *Term {
		ins, ok := v.(ssa.Instruction)
		if !ok || !nl.blocks[ins.Block()] {
			return e.val(q, v)
		}
		switch x := v.(type) {
		case *ssa.Call:
			return e.Len(f(x.Call.Args[0]))
		case *ssa.BinOp:
			return e.arith(q.st, x.Op, f(x.X), f(x.Y), x.X.Type(), x.Type())
		case *ssa.UnOp:
			return q.st.Load(f(x.X), x.Type())
		case *ssa.FieldAddr:
			return e.FAT(f(x.X), x.Field, x.X.Type().Underlying().(*types.Pointer).Elem())
		case *ssa.Convert:
			return e.Conv(f(x.X), x.X.Type(), x.Type())
		}
		e.undecided("loop bound in %s", fr.fn)
		return nil
	}
	return f(v)
}

// runIteration runs the loop body once from the header, assuming the loop is not left at the header.
func (e *Engine) runIteration(fr *frame, h *path, nl *natLoop, l *LoopSum, next *ssa.Next, chr *ssa.UnOp) []*Exit {
	cur := []*path{h}
	var outs []*Exit
	for _, ins := range nl.header.Instrs {
		var nxt []*path
		for _, p := range cur {
			switch x := ins.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				nxt = append(nxt, p)
			case *ssa.Next:
				p.env[x] = e.Tuple(e.Bool(true), l.Key, l.Val)
				nxt = append(nxt, p)
			case *ssa.Jump:
				outs = append(outs, e.runFrom(fr, p, nl.header.Succs[0], nl)...)
			case *ssa.If:
				c := e.val(p, x.Cond)
				in0, in1 := nl.blocks[nl.header.Succs[0]], nl.blocks[nl.header.Succs[1]]
				if in0 && in1 {
					q := p.clone()
					if q.st.Assume(c, false) {
						outs = append(outs, e.runFrom(fr, q, nl.header.Succs[1], nl)...)
					}
					if p.st.Assume(c, true) {
						outs = append(outs, e.runFrom(fr, p, nl.header.Succs[0], nl)...)
					}
				} else if in0 {
					if p.st.Assume(c, true) {
						outs = append(outs, e.runFrom(fr, p, nl.header.Succs[0], nl)...)
					}
				} else if in1 {
					if p.st.Assume(c, false) {
						outs = append(outs, e.runFrom(fr, p, nl.header.Succs[1], nl)...)
					}
				}
			case *ssa.Return:
				e.undecided("return in loop header")
			default:
				if u, ok := ins.(*ssa.UnOp); ok && u == chr && l.Kind == "chanrange" {
					for _, o := range e.withSplit(p, func(p *path) []*Exit {
						ch := e.val(p, u.X)
						l.Coll = ch
						t := p.st.recv(fr, ch, true, u.Pos(), elemType(u.X.Type()))
						l.Val = t.A[0]
						p.st.Trace[len(p.st.Trace)-1].Name = "range"
						p.env[u] = e.Tuple(t.A[0], e.Bool(true))
						return one(p)
					}) {
						nxt = append(nxt, o.p)
					}
					continue
				}
				for _, o := range e.withSplit(p, func(q *path) []*Exit { return e.step(fr, q, ins) }) {
					if o.Kind == Panics {
						outs = append(outs, o)
					} else {
						nxt = append(nxt, o.p)
					}
				}
			}
		}
		cur = nxt
	}
	return outs
}

func (e *Engine) runFrom(fr *frame, p *path, b *ssa.BasicBlock, nl *natLoop) []*Exit {
	if b == nl.header {
		return []*Exit{{St: p.st, Kind: edge, p: p, from: nl.header, to: b}}
	}
	if l := fr.loops[b]; l != nil { // inner loop directly behind the header
		var outs []*Exit
		for _, o := range e.execLoop(fr, p, l, nl.header) {
			if o.Kind == edge {
				outs = append(outs, e.cont(fr, o, nl)...)
			} else {
				outs = append(outs, o)
			}
		}
		return outs
	}
	e.enterPhis(p, b, nl.header)
	return e.runRegion(fr, p, b, nl.header, nl)
}

// cont continues an edge exit inside loop nl.
func (e *Engine) cont(fr *frame, o *Exit, nl *natLoop) []*Exit {
	if o.to == nl.header || !nl.blocks[o.to] {
		return []*Exit{o}
	}
	if l := fr.loops[o.to]; l != nil {
		var outs []*Exit
		for _, x := range e.execLoop(fr, o.p, l, o.from) {
			if x.Kind == edge {
				outs = append(outs, e.cont(fr, x, nl)...)
			} else {
				outs = append(outs, x)
			}
		}
		return outs
	}
	e.enterPhis(o.p, o.to, o.from)
	return e.runRegion(fr, o.p, o.to, o.from, nl)
}

// leaveLoop evaluates the header once more, taking the exit branch.
func (e *Engine) leaveLoop(fr *frame, a *path, nl *natLoop, l *LoopSum) []*Exit {
	cur := []*path{a}
	var res []*Exit
	trace := a.st.Trace
	for _, ins := range nl.header.Instrs {
		var nxt []*path
		for _, p := range cur {
			switch x := ins.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				nxt = append(nxt, p)
			case *ssa.Next:
				p.env[x] = e.Tuple(e.Bool(false), e.Nil(), e.Nil())
				nxt = append(nxt, p)
			case *ssa.If:
				for i, s := range nl.header.Succs {
					if nl.blocks[s] {
						continue
					}
					q := p
					if l.Kind != "index" && l.Kind != "maprange" && l.Kind != "strrange" && l.Kind != "chanrange" {
						c := e.val(p, x.Cond)
						if !q.st.Assume(c, i == 0) {
							continue
						}
					} else if l.Kind == "index" {
						c := e.val(p, x.Cond)
						if a, _ := normAtom(c); a.Op != "const" {
							q.st.Assume(c, i == 0)
						}
					}
					if l.Kind == "chanrange" {
						q.st.Trace = trace
					}
					res = append(res, &Exit{St: q.st, Kind: edge, p: q, from: nl.header, to: s})
				}
			case *ssa.Jump:
			default:
				if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.ARROW && l.Kind == "chanrange" {
					p.env[u] = e.Tuple(e.Zero(elemType(u.X.Type())), e.Bool(false))
					nxt = append(nxt, p)
					continue
				}
				for _, o := range e.withSplit(p, func(q *path) []*Exit { return e.step(fr, q, ins) }) {
					if o.Kind == Panics {
						res = append(res, o)
					} else {
						nxt = append(nxt, o.p)
					}
				}
			}
		}
		cur = nxt
	}
	return res
}

func (s *State) lookupNoSplit(c, k *Term, vt types.Type, l *LoopSum) (*Term, *Term) {
	// the generic key is present; the value is looked up in the contents at loop entry
	switch c.Op {
	case "layer":
		ll := s.e.loops[c.S]
		if it := ll.soleUpd(c); it != nil && ll.Kind == "maprange" && it.A[1] == ll.Key && c.A[0].Op == "mempty" {
			_, in := s.lookupNoSplit(ll.CollContent, k, elemType(ll.CollContent.T), l)
			return s.e.Subst(it.A[2], map[*Term]*Term{ll.Key: k}), in
		}
	}
	return s.e.lkRaw(c, k, vt), s.e.Has(c, k)
}

// ---------- accumulators

// closeAcc computes the value of a modified cell after all iterations.
func (e *Engine) closeAcc(l *LoopSum, st *State, sym, v0 *Term, vs []*Term, t types.Type, cell *Term) *Term {
	allSame := true
	for _, v := range vs {
		if v != sym {
			allSame = false
		}
	}
	if allSame {
		return v0
	}
	// string accumulation
	if t != nil && isStringish(t) {
		items := make([][]*Term, len(vs))
		ok := true
		for i, v := range vs {
			switch {
			case v == sym:
			case v.Op == "cat" && v.A[0] == sym && !e.Cat(v.A[1:]...).Mentions(sym):
				items[i] = v.A[1:]
			default:
				ok = false
			}
		}
		if ok {
			l.items[sym] = items
			return e.Cat(v0, e.in.mk(Term{Op: "each", S: l.ID, A: []*Term{sym}, T: types.Typ[types.String]}))
		}
	}
	// map accumulation
	if t != nil {
		if _, isM := t.Underlying().(*types.Map); isM {
			items := make([][]*Term, len(vs))
			ok := true
			for i, v := range vs {
				var ups []*Term
				for v != sym && (v.Op == "upd" || v.Op == "del") {
					if v.Op == "upd" {
						ups = append([]*Term{e.in.mk(Term{Op: "updp", A: []*Term{sym, v.A[1], v.A[2]}})}, ups...)
					} else {
						ups = append([]*Term{e.in.mk(Term{Op: "delp", A: []*Term{sym, v.A[1]}})}, ups...)
					}
					v = v.A[0]
				}
				if v != sym {
					ok = false
					break
				}
				items[i] = ups
			}
			if ok && l.deletesAll(v0, items) {
				return e.EmptyMap(t)
			}
			if ok {
				l.items[sym] = items
				return e.in.mk(Term{Op: "layer", S: l.ID, A: []*Term{v0, sym}, T: t})
			}
		}
		switch t.Underlying().(type) {
		case *types.Slice, *types.Array:
			if r := e.closeArr(l, st, sym, v0, vs, t); r != nil {
				return r
			}
		}
		if isInt(t) {
			if r := e.closeSum(l, sym, v0, vs); r != nil {
				return r
			}
		}
	}
	return e.in.mk(Term{Op: "loopval", S: l.ID, A: []*Term{sym, v0}, T: t})
}

// deletesAll: each iteration removes its own key from a map with the contents ranged over.
func (l *LoopSum) deletesAll(v0 *Term, items [][]*Term) bool {
	if l.Kind != "maprange" || v0 != l.CollContent || l.Key.T == nil || len(items) == 0 {
		return false
	}
	if b, ok := l.Key.T.Underlying().(*types.Basic); !ok || b.Info()&(types.IsString|types.IsInteger|types.IsBoolean) == 0 {
		return false // other keys might not equal themselves
	}
	for _, ups := range items {
		if len(ups) == 0 {
			return false
		}
		for _, u := range ups {
			if u.Op != "delp" || u.A[1] != l.Key {
				return false
			}
		}
	}
	return true
}

// closeSum: the same constant is added on every iteration path, or 0/constant depending on the path.
func (e *Engine) closeSum(l *LoopSum, sym, v0 *Term, vs []*Term) *Term {
	items := make([][]*Term, len(vs))
	for i, v := range vs {
		d := e.Sub(v, sym)
		if d.Mentions(sym) {
			return nil
		}
		items[i] = []*Term{d}
	}
	l.items[sym] = items
	return e.Add(v0, e.in.mk(Term{Op: "app", S: "loopsum:" + l.ID, A: []*Term{sym}, T: sym.T}))
}

// closeArr: contents of an array/slice backing written element-wise by an index loop.
func (e *Engine) closeArr(l *LoopSum, st *State, sym, v0 *Term, vs []*Term, t types.Type) *Term {
	if l.Kind == "maprange" && l.Exits == 0 {
		return e.closeCounted(l, st, sym, v0, vs, t)
	}
	if l.Kind == "index" && len(vs) > 1 && l.Exits == 0 {
		return e.closeFill(l, st, sym, v0, vs, t)
	}
	if l.Kind != "index" || len(vs) != 1 || l.Exits != 0 {
		return nil
	}
	v := vs[0]
	if v.Op != "aupd" || v.A[0] != sym {
		return nil
	}
	idx, val := v.A[1], v.A[2]
	off, isC := e.Sub(idx, l.Idx).IntVal()
	if !isC {
		return nil
	}
	if val.Op == "elem" && val.A[0] == sym {
		src, isC2 := e.Sub(val.A[1], l.Idx).IntVal()
		if isC2 && (!l.Desc && src >= off || l.Desc && src <= off) {
			// memmove: reads are ahead of the writes
			n := e.Len(v0)
			a, b := e.Add(l.Lo, e.Int(off)), e.Add(l.Hi, e.Int(off))
			if z, k := st.Holds(e.Not(e.Lt(l.Lo, l.Hi))); k && z {
				return v0
			} else if !k {
				// possibly empty range: the pieces below are still right when lo==hi, which is all we accept
				if !st.Is(e.Not(e.Lt(l.Hi, l.Lo))) {
					return nil
				}
			}
			return st.normSeq([]*Term{e.sp(v0, e.Int(0), a), e.sp(v0, e.Add(l.Lo, e.Int(src)), e.Add(l.Hi, e.Int(src))), e.sp(v0, b, n)}, t)
		}
		return nil
	}
	if val.Mentions(sym) {
		return nil
	}
	// element-wise fill
	if l.Step != 1 && l.Step != -1 {
		return nil
	}
	l.items[sym] = [][]*Term{{e.el(val)}}
	if off == 0 && !l.Desc {
		return e.closeFill(l, st, sym, v0, vs, t)
	}
	each := e.in.mk(Term{Op: "each", S: l.ID, A: []*Term{sym}, T: t})
	a, b := e.Add(l.Lo, e.Int(off)), e.Add(l.Hi, e.Int(off))
	if st.Is(e.Eq(a, e.Int(0))) && st.Is(e.Eq(b, e.Len(v0))) && !l.Desc {
		return e.seq([]*Term{each}, t)
	}
	return nil
}

// closeCounted: each iteration over a map sets the element a counter from 0 points at.
func (e *Engine) closeCounted(l *LoopSum, st *State, sym, v0 *Term, vs []*Term, t types.Type) *Term {
	items := make([][]*Term, len(vs))
	var ctr *Term
	for i, v := range vs {
		if v.Op != "aupd" || v.A[0] != sym || ctr != nil && v.A[1] != ctr || v.A[2].Mentions(sym) {
			return nil
		}
		ctr = v.A[1]
		items[i] = []*Term{e.el(v.A[2])}
	}
	counts := false
	for _, v := range l.Vars {
		if v.Head != ctr {
			continue
		}
		if n, ok := v.Pre.IntVal(); !ok || n != 0 {
			return nil
		}
		for _, nx := range v.Next {
			if nx != e.Add(ctr, e.Int(1)) {
				return nil
			}
		}
		counts = true
	}
	n := e.Len(l.CollContent)
	if !counts || !st.Is(e.Not(e.Lt(e.Len(v0), n))) {
		return nil
	}
	var fill *Term
	if len(items) == 1 && items[0][0] == e.el(l.Key) {
		ks := e.App("keys", t, l.CollContent)
		fill = e.sp(ks, e.Int(0), e.Len(ks))
	} else {
		l.items[sym] = items
		fill = e.in.mk(Term{Op: "each", S: l.ID, A: []*Term{sym}, T: t})
		st.Assume(e.Eq(e.App("count", types.Typ[types.Int], fill), n), true)
	}
	return st.normSeq([]*Term{fill, e.sp(v0, n, e.Len(v0))}, t)
}

// closeFill: every path through an iteration sets the element at the index.
func (e *Engine) closeFill(l *LoopSum, st *State, sym, v0 *Term, vs []*Term, t types.Type) *Term {
	if l.Step != 1 || l.Desc {
		return nil
	}
	items := make([][]*Term, len(vs))
	for i, v := range vs {
		if v.Op != "aupd" || v.A[0] != sym || v.A[1] != l.Idx || v.A[2].Mentions(sym) {
			return nil
		}
		items[i] = []*Term{e.el(v.A[2])}
	}
	n := e.Len(v0)
	if !st.Is(e.Not(e.Lt(l.Lo, e.Int(0)))) || !st.Is(e.Not(e.Lt(n, l.Hi))) || !st.Is(e.Not(e.Lt(l.Hi, l.Lo))) {
		return nil
	}
	l.items[sym] = items
	each := e.in.mk(Term{Op: "each", S: l.ID, A: []*Term{sym}, T: t})
	st.Assume(e.Eq(e.App("count", types.Typ[types.Int], each), e.Sub(l.Hi, l.Lo)), true)
	if st.Is(e.Eq(l.Lo, e.Int(0))) && st.Is(e.Eq(l.Hi, n)) {
		return e.seq([]*Term{each}, t)
	}
	return st.normSeq([]*Term{e.sp(v0, e.Int(0), l.Lo), each, e.sp(v0, l.Hi, n)}, t)
}

// elementwise: an index loop over a slice or array may treat each element on its own.
func (l *LoopSum) elementwise(c *Term, t types.Type) bool {
	if t == nil || l.Idx == nil || l.Step != 1 && l.Step != -1 {
		return false
	}
	switch t := t.Underlying().(type) {
	case *types.Slice:
		return isContentCell(c) && !isByte(t.Elem())
	case *types.Array:
		return !isByte(t.Elem())
	}
	return false
}

func isContentCell(c *Term) bool {
	switch c.Op {
	case "mc", "bc", "bk":
		return true
	case "obj":
		return len(c.S) > 4 && c.S[:4] == "back"
	}
	return false
}

// closeVal: value of a header phi or variable after all iterations.
func (e *Engine) closeVal(l *LoopSum, st *State, sym, v0 *Term, vs []*Term, iters []*Exit, t types.Type) *Term {
	same := true
	for _, v := range vs {
		if v != sym {
			same = false
		}
	}
	if same {
		return v0
	}
	if _, ok := t.Underlying().(*types.Map); ok { // a variable holding a map reference, not map contents
		return e.in.mk(Term{Op: "loopval", S: l.ID, A: []*Term{sym, v0}, T: t})
	}
	if sl, ok := t.Underlying().(*types.Slice); ok && !isByte(sl.Elem()) {
		// slice grown by append
		items := make([][]*Term, len(vs))
		good := true
		base := e.Init(e.BK(sym, t), t)
		for i, v := range vs {
			if v == sym {
				continue
			}
			c := iters[i].p.st.Seq(v, t)
			if c.Op == "seq" && len(c.A) >= 1 && c.A[0].Op == "sp" && c.A[0].A[0] == base && c.A[0].A[1] == e.Int(0) && c.A[0].A[2] == e.Len(sym) {
				items[i] = c.A[1:]
			} else {
				good = false
			}
			for _, p := range items[i] {
				if p.Mentions(base) {
					good = false
				}
			}
		}
		if good {
			l.items[sym] = items
			// keys of a map collected unconditionally
			each := e.in.mk(Term{Op: "each", S: l.ID, A: []*Term{sym}, T: t})
			parts := []*Term{}
			bk, lo, hi, ok := l.Pre.sliceParts(v0, t)
			if ok {
				parts = append(parts, e.sp(l.Pre.content(bk), lo, hi))
			}
			if l.Kind == "maprange" && l.Exits == 0 && len(items) == 1 && len(items[0]) == 1 && items[0][0] == e.el(l.Key) {
				ks := e.App("keys", t, l.CollContent)
				parts = append(parts, e.sp(ks, e.Int(0), e.Len(ks)))
			} else {
				parts = append(parts, each)
			}
			r := st.newSlice(st.normSeq(parts, t), t, l.Pos)
			if ok && !(bk.Op == "obj") {
				st.share[r.A[0]] = append(st.share[r.A[0]], bk)
			}
			one := l.Exits == 0 && l.Step == 1
			for _, it := range items {
				one = one && len(it) == 1 && it[0].Op == "el"
			}
			if l.Kind == "index" && one {
				st.Assume(e.Eq(e.App("count", types.Typ[types.Int], each), e.Sub(l.Hi, l.Lo)), true)
			}
			if l.Kind == "maprange" && len(items) == 1 && len(items[0]) == 1 {
				st.Assume(e.Eq(e.App("count", types.Typ[types.Int], each), e.Len(l.CollContent)), true)
			}
			return r
		}
	}
	return e.closeAcc(l, st, sym, v0, vs, t, nil)
}
