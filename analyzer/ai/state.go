package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/load"
)

// Engine holds everything shared by the abstract runs of one check.
type Engine struct {
	Prog     *load.Program
	in       *interner
	ctr      int
	objPos   map[*Term]token.Pos
	cellT    map[*Term]types.Type
	symT     map[*Term]types.Type
	loops    map[string]*LoopSum
	globals  map[*ssa.Global]*Term // address terms
	base     *State                // state after package initialisation
	mutGlob  map[*ssa.Global]bool  // globals stored to outside init
	globalOf map[*Term]*ssa.Global
	known    map[*ssa.Package]bool // packages whose initialiser was interpreted

	// NilMapValues: do not assume that pointer values stored in maps are non-nil.
	NilMapValues bool
	// PanickingFuncs: function values (terms) that may panic when called.
	PanickingFuncs map[*Term]bool
	// NoInline: functions that are recorded as a call effect instead of being inlined.
	NoInline map[*ssa.Function]bool
	// Opaque: functions treated like unknown function values (one given a buffer appends some text of its arguments).
	Opaque map[*ssa.Function]bool
	// HeadAssume is called with the state at the head of a generic loop iteration.
	HeadAssume func(st *State, l *LoopSum)
	// FieldInv may assume an invariant about a value read from a field that the analysed code has not stored itself.
	FieldInv func(st *State, addr, val *Term)

	// OwnAtomics: cells that only the analysed goroutine stores to; its atomic loads see its own stores.
	OwnAtomics map[*Term]bool

	// OnAccess is told about every use of memory.
	OnAccess func(a *Access)

	loopCache map[*ssa.Function]map[*ssa.BasicBlock]*natLoop

	steps    int
	MaxSteps int
	depth    int
	loopCtr  int
	curLoop  *LoopSum

	// statistics for evidence
	Funcs   map[*ssa.Function]int
	Paths   int
	Loops   int
	Splits  int
	Effects int
	Undec   []string
}

// Undecided is thrown (as a Go panic) when the analysis meets something it cannot interpret.
type Undecided struct{ Msg string }

func (u Undecided) Error() string { return u.Msg }

func New(p *load.Program) *Engine {
	return &Engine{Prog: p, in: newInterner(), objPos: map[*Term]token.Pos{}, cellT: map[*Term]types.Type{}, symT: map[*Term]types.Type{},
		loops: map[string]*LoopSum{}, globals: map[*ssa.Global]*Term{}, globalOf: map[*Term]*ssa.Global{}, known: map[*ssa.Package]bool{}, PanickingFuncs: map[*Term]bool{}, NoInline: map[*ssa.Function]bool{}, Opaque: map[*ssa.Function]bool{},
		MaxSteps: 40000000, Funcs: map[*ssa.Function]int{}}
}

func (e *Engine) IsRepo(p *types.Package) bool {
	rp := e.Prog.Pkgs[p.Path()]
	return rp != nil && rp.Types == p
}

func (e *Engine) undecided(format string, a ...interface{}) {
	panic(Undecided{fmt.Sprintf(format, a...)})
}

// Mem is a copy-on-write map from addresses to values.
type Mem struct {
	m      map[*Term]*Term
	shared bool
}

func (m *Mem) get(a *Term) (*Term, bool) { v, ok := m.m[a]; return v, ok }

// Effect is an interaction with something outside the analysed code, in program order.
type Effect struct {
	Kind string // invoke, call, dyn, send, recv, go, loop, close, select
	Name string
	Recv *Term
	Args []*Term
	Res  *Term
	Loop *LoopSum
	Part bool     // loop effect of a loop left by break/return
	Cur  *LoopSum // loop whose iteration it happened in
	Pos  token.Pos
	In   *ssa.Function
	Mem  *Mem
	Fs   *Facts
	Fn   *Term
	Ok   *Term   // comma-ok of a receive
	Blk  bool    // blocking channel operation
	Alts []*Term // the channels a blocking select waits for
}

// Obligation is a condition that must hold for an instruction not to panic.
type Obligation struct {
	Kind string // div, index, nilderef, nilmap
	Cond *Term  // must be true
	Subj *Term
	OK   bool
	Pos  token.Pos
	In   *ssa.Function
	Fs   *Facts // what is known when an obligation is not met
}

type loopMod struct {
	l    *LoopSum
	addr *Term
	val  *Term // nil: unknown
}

// State is one abstract state (one trace partition).
type State struct {
	e       *Engine
	mem     *Mem
	facts   *Facts
	Trace   []*Effect
	Obl     []*Obligation
	panick  *Term
	recov   bool
	inbox   map[*Term][]*Term
	mods    []*loopMod
	share   map[*Term][]*Term // backing that may share memory with another backing
	havoc   map[*Term]bool    // roots whose contents are unknown
	started map[*Term]bool
	held    map[*Term]bool // locks held (true: for writing)
}

func (e *Engine) NewState() *State {
	if e.base != nil {
		return e.base.Clone()
	}
	return &State{e: e, mem: &Mem{m: map[*Term]*Term{}}, facts: newFacts(), inbox: map[*Term][]*Term{}, share: map[*Term][]*Term{}, havoc: map[*Term]bool{}}
}

func (s *State) Clone() *State {
	s.mem.shared = true
	n := &State{e: s.e, mem: s.mem, facts: s.facts.clone(), panick: s.panick, recov: s.recov}
	n.Trace = s.Trace[:len(s.Trace):len(s.Trace)]
	n.Obl = s.Obl[:len(s.Obl):len(s.Obl)]
	n.mods = s.mods[:len(s.mods):len(s.mods)]
	n.inbox = map[*Term][]*Term{}
	for k, v := range s.inbox {
		n.inbox[k] = v
	}
	n.share = map[*Term][]*Term{}
	for k, v := range s.share {
		n.share[k] = v
	}
	if len(s.held) > 0 {
		n.held = map[*Term]bool{}
		for k, v := range s.held {
			n.held[k] = v
		}
	}
	n.havoc = map[*Term]bool{}
	for k, v := range s.havoc {
		n.havoc[k] = v
	}
	return n
}

func (s *State) snapshot() *Mem { s.mem.shared = true; return s.mem }

func (s *State) set(a, v *Term) {
	if s.mem.shared {
		m := make(map[*Term]*Term, len(s.mem.m)+1)
		for k, x := range s.mem.m {
			m[k] = x
		}
		s.mem = &Mem{m: m}
	}
	s.mem.m[a] = v
}

func (s *State) Facts() *Facts { return s.facts }

// Engine returns the owning engine.
func (s *State) Engine() *Engine { return s.e }

// Mem returns a snapshot of memory.
func (s *State) Mem() *Mem { return s.snapshot() }

// At returns a view of the state with the given memory snapshot.
func (s *State) At(m *Mem) *State {
	n := s.Clone()
	if m != nil {
		m.shared = true
		n.mem = m
	}
	return n
}

// Holds decides a boolean term.
func (s *State) Holds(t *Term) (val, known bool) { return s.e.Decide(s.facts, t) }

// Is: t is certainly true.
func (s *State) Is(t *Term) bool { v, k := s.e.Decide(s.facts, t); return k && v }

// Assume adds a fact; false means the state is infeasible.
func (s *State) Assume(t *Term, v bool) bool { return s.e.Assume(s.facts, t, v) }

type splitReq struct{ atom *Term }

// need returns the truth of cond, splitting the state if it is not determined.
func (s *State) need(cond *Term) bool {
	v, k := s.e.Decide(s.facts, cond)
	if k {
		return v
	}
	a, pol := normAtom(cond)
	if a.Op == "and" {
		// split on a component that is unknown
		for _, c := range a.A {
			if _, k := s.e.Decide(s.facts, c); !k {
				b, _ := normAtom(c)
				panic(splitReq{b})
			}
		}
	}
	_ = pol
	panic(splitReq{a})
}

// ---------- addresses and memory

func hasIA(a *Term) bool {
	for {
		switch a.Op {
		case "ia":
			return true
		case "fa":
			a = a.A[0]
		default:
			return false
		}
	}
}

func (e *Engine) isRepoStruct(t types.Type) (*types.Struct, bool) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || e.atomicStruct(t) {
		return nil, false
	}
	return st, true
}

func isBufType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	q := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	return q == "bytes.Buffer" || q == "strings.Builder"
}

func (e *Engine) special(op string, base *Term, t types.Type) *Term {
	a := e.in.mk(Term{Op: op, A: []*Term{base}})
	if t != nil && e.cellT[a] == nil {
		e.cellT[a] = t
	}
	return a
}

// BC is the address of the contents of a buffer, MC that of a map, BK the backing array of a symbolic slice.
func (e *Engine) BC(p *Term) *Term { return e.special("bc", p, types.Typ[types.String]) }
func (e *Engine) MC(m *Term, t types.Type) *Term {
	return e.special("mc", m, t)
}
func (e *Engine) BK(s *Term, t types.Type) *Term { return e.special("bk", s, t) }

// Load reads a value of type t at address a.
func (s *State) Load(a *Term, t types.Type) *Term {
	e := s.e
	if hasIA(a) {
		return s.loadIA(a, t)
	}
	if st, ok := e.isRepoStruct(t); ok {
		f := make([]*Term, st.NumFields())
		for i := range f {
			f[i] = s.Load(e.FAT(a, i, t), st.Field(i).Type())
		}
		return e.StructV(t, f)
	}
	if isBufType(t) {
		return e.in.mk(Term{Op: "bufv", A: []*Term{s.cell(e.BC(a), types.Typ[types.String])}, T: t})
	}
	return s.cell(a, t)
}

// FAT is FA with type information for printing.
func (e *Engine) FAT(base *Term, i int, structT types.Type) *Term {
	a := e.FA(base, i)
	if a.T == nil {
		a.T = structT
	}
	return a
}

func (s *State) cell(a *Term, t types.Type) *Term {
	v, stored := s.cell1(a, t)
	if !stored && s.e.FieldInv != nil && a.Op == "fa" {
		s.e.FieldInv(s, a, v)
	}
	return v
}

// cell1 also tells whether the value was stored by the analysed code (or is the zero value of a new object).
func (s *State) cell1(a *Term, t types.Type) (*Term, bool) {
	e := s.e
	if e.cellT[a] == nil && t != nil {
		e.cellT[a] = t
	}
	if v, ok := s.mem.get(a); ok {
		return v, v.Op != "init"
	}
	for i := len(s.mods) - 1; i >= 0; i-- {
		m := s.mods[i]
		if sub, ok := matchKey(m.addr, a, m.l); ok {
			var v *Term
			if m.val != nil {
				v = e.Subst(m.val, sub)
			} else {
				v = e.Fresh("afterloop", t)
			}
			s.set(a, v)
			return v, m.val != nil
		}
	}
	r := rootOf(a)
	if s.havoc[r] {
		v := e.Fresh("hv", t)
		s.set(a, v)
		return v, false
	}
	if r.Op == "obj" {
		switch a.Op {
		case "mc":
			return e.in.mk(Term{Op: "mempty", S: "", T: t}), true
		case "bc":
			return e.Str(""), true
		}
		return e.Zero(t), true
	}
	if r.Op == "global" && a.Op != "mc" && a.Op != "bc" && e.knownGlobal(r) {
		return e.Zero(t), false
	}
	return e.Init(a, t), false
}

// elemAddrBase returns content cell type for an ia base
func (s *State) content(base *Term) *Term {
	if hasIA(base) {
		return s.loadIA(base, s.e.cellT[base])
	}
	return s.cell(base, s.e.cellT[base])
}

func (s *State) loadIA(a *Term, t types.Type) *Term {
	e := s.e
	switch a.Op {
	case "ia":
		return s.Elem(s.content(a.A[0]), a.A[1], t)
	case "fa":
		i, _ := strconv.Atoi(a.S)
		st := a.T
		if st == nil {
			e.undecided("field of untyped element address")
		}
		return e.Field(s.loadIA(a.A[0], st), i, t)
	}
	return s.Load(a, t)
}

// Elem is content[idx].
func (s *State) Elem(c, idx *Term, t types.Type) *Term {
	e := s.e
	n, isC := idx.IntVal()
	switch c.Op {
	case "arr":
		if isC && n >= 0 && int(n) < len(c.A) {
			return c.A[n]
		}
		if !isC && len(c.A) <= 8 {
			for i, x := range c.A {
				if s.need(e.Eq(idx, e.Int(int64(i)))) {
					return x
				}
			}
		}
	case "zeros":
		return e.Zero(t)
	case "aupd":
		if s.need(e.Eq(c.A[1], idx)) {
			return c.A[2]
		}
		return s.Elem(c.A[0], idx, t)
	case "seq":
		off := e.Int(0)
		for _, p := range c.A {
			switch p.Op {
			case "el":
				d := e.Eq(idx, off)
				if v, k := s.Holds(d); k {
					if v {
						return p.A[0]
					}
				} else if lt, k2 := s.Holds(e.Lt(idx, off)); k2 && !lt || !hasEach(c) {
					if s.need(d) {
						return p.A[0]
					}
				} else {
					return e.in.mk(Term{Op: "elem", A: []*Term{c, idx}, T: t})
				}
				off = e.Add(off, e.Int(1))
			case "sp":
				l := e.Sub(p.A[2], p.A[1])
				end := e.Add(off, l)
				v, k := s.Holds(e.Lt(idx, end))
				if !k {
					if hasEach(c) {
						return e.in.mk(Term{Op: "elem", A: []*Term{c, idx}, T: t})
					}
					v = s.need(e.Lt(idx, end))
				}
				if v {
					return s.Elem(p.A[0], e.Add(p.A[1], e.Sub(idx, off)), t)
				}
				off = end
			default:
				// inside an each: maybe resolvable if idx is certainly within; keep opaque
				return e.in.mk(Term{Op: "elem", A: []*Term{c, idx}, T: t})
			}
		}
	}
	return e.in.mk(Term{Op: "elem", A: []*Term{c, idx}, T: t})
}

func hasEach(c *Term) bool {
	for _, p := range c.A {
		if p.Op == "each" {
			return true
		}
	}
	return false
}

// Store writes v (of type t) at address a.
func (s *State) Store(a, v *Term, t types.Type) {
	e := s.e
	if hasIA(a) {
		s.storeIA(a, v, t)
		return
	}
	if st, ok := e.isRepoStruct(t); ok {
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			s.Store(e.FAT(a, i, t), e.Field(v, i, ft), ft)
		}
		return
	}
	if isBufType(t) {
		c := e.Str("")
		if v.Op == "bufv" {
			c = v.A[0]
		} else if v.Op != "zero" {
			c = e.Fresh("buf", types.Typ[types.String])
		}
		s.set(e.BC(a), c)
		return
	}
	if e.cellT[a] == nil {
		e.cellT[a] = t
	}
	s.set(a, v)
}

func (s *State) storeIA(a, v *Term, t types.Type) {
	e := s.e
	switch a.Op {
	case "ia":
		base, idx := a.A[0], a.A[1]
		c := s.content(base)
		nc := s.arrUpd(c, idx, v)
		if hasIA(base) {
			s.storeIA(base, nc, e.cellT[base])
			return
		}
		// slices that may share this backing become unknown there
		for _, o := range s.share[base] {
			s.set(o, e.Fresh("shared", e.cellT[o]))
		}
		for o, l := range s.share {
			for _, b := range l {
				if b == base {
					s.set(o, e.Fresh("shared", e.cellT[o]))
				}
			}
		}
		s.set(base, nc)
	case "fa":
		i, _ := strconv.Atoi(a.S)
		whole := s.loadIA(a.A[0], a.T)
		st := a.T.Underlying().(*types.Struct)
		f := make([]*Term, st.NumFields())
		for j := range f {
			if j == i {
				f[j] = v
			} else {
				f[j] = e.Field(whole, j, st.Field(j).Type())
			}
		}
		s.storeIA(a.A[0], e.StructV(a.T, f), a.T)
	default:
		s.Store(a, v, t)
	}
}

func (s *State) arrUpd(c, idx, v *Term) *Term {
	e := s.e
	if n, ok := idx.IntVal(); ok && c.Op == "arr" && n >= 0 && int(n) < len(c.A) {
		f := append([]*Term(nil), c.A...)
		f[n] = v
		return e.in.mk(Term{Op: "arr", A: f, T: c.T})
	}
	if n, ok := c.zerosLen(); ok && n <= maxArray {
		if i, ok2 := idx.IntVal(); ok2 && i >= 0 && i < n {
			f := make([]*Term, n)
			for j := range f {
				f[j] = e.Zero(elemType(c.T))
			}
			f[i] = v
			return e.in.mk(Term{Op: "arr", A: f, T: c.T})
		}
	}
	if c.Op == "seq" && !hasEach(c) {
		// locate the position
		off := e.Int(0)
		for k, p := range c.A {
			switch p.Op {
			case "el":
				if s.Is(e.Eq(idx, off)) {
					f := append([]*Term(nil), c.A...)
					f[k] = e.el(v)
					return e.seq(f, c.T)
				}
				off = e.Add(off, e.Int(1))
			case "sp":
				end := e.Add(off, e.Sub(p.A[2], p.A[1]))
				if s.Is(e.Lt(idx, end)) && s.Is(e.Not(e.Lt(idx, off))) {
					at := e.Add(p.A[1], e.Sub(idx, off))
					var f []*Term
					f = append(f, c.A[:k]...)
					f = append(f, e.sp(p.A[0], p.A[1], at), e.el(v), e.sp(p.A[0], e.Add(at, e.Int(1)), p.A[2]))
					f = append(f, c.A[k+1:]...)
					return s.normSeq(f, c.T)
				}
				off = end
			}
		}
	}
	if c.Op == "aupd" && c.A[1] == idx {
		c = c.A[0]
	}
	return e.in.mk(Term{Op: "aupd", A: []*Term{c, idx, v}, T: c.T})
}

func (t *Term) zerosLen() (int64, bool) {
	if t.Op == "zeros" {
		return t.A[0].IntVal()
	}
	return 0, false
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

func (e *Engine) el(v *Term) *Term         { return e.in.mk(Term{Op: "el", A: []*Term{v}}) }
func (e *Engine) sp(c, lo, hi *Term) *Term { return e.in.mk(Term{Op: "sp", A: []*Term{c, lo, hi}}) }
func (e *Engine) seq(p []*Term, t types.Type) *Term {
	return e.in.mk(Term{Op: "seq", A: p, T: t})
}

// normSeq normalises a list of parts.
func (s *State) normSeq(parts []*Term, t types.Type) *Term {
	e := s.e
	var out []*Term
	var push func(p *Term)
	push = func(p *Term) {
		if p.Op == "sp" {
			c, lo, hi := p.A[0], p.A[1], p.A[2]
			if s.Is(e.Eq(lo, hi)) {
				return
			}
			full := s.Is(e.Eq(lo, e.Int(0))) && s.Is(e.Eq(hi, e.Len(c)))
			if c.Op == "seq" && full {
				for _, q := range c.A {
					push(q)
				}
				return
			}
			if c.Op == "arr" {
				l, ok1 := lo.IntVal()
				h, ok2 := hi.IntVal()
				if ok1 && ok2 && l >= 0 && int(h) <= len(c.A) {
					for _, x := range c.A[l:h] {
						push(e.el(x))
					}
					return
				}
			}
			if c.Op == "seq" {
				// cut parts off both ends when the boundaries are decided
				off := e.Int(0)
				ok := true
				var mid []*Term
				for _, q := range c.A {
					var ln *Term
					switch q.Op {
					case "el":
						ln = e.Int(1)
					case "sp":
						ln = e.Sub(q.A[2], q.A[1])
					default:
						ln = e.App("count", types.Typ[types.Int], q)
					}
					end := e.Add(off, ln)
					switch {
					case s.Is(e.Not(e.Lt(lo, end))): // entirely before
					case s.Is(e.Not(e.Lt(off, hi))): // entirely after
					case s.Is(e.Not(e.Lt(off, lo))) && s.Is(e.Not(e.Lt(hi, end))):
						mid = append(mid, q)
					case q.Op == "sp":
						a, b := q.A[1], q.A[2]
						okA, okB := true, true
						if s.Is(e.Lt(off, lo)) {
							a = e.Add(q.A[1], e.Sub(lo, off))
						} else if !s.Is(e.Not(e.Lt(off, lo))) {
							okA = false
						}
						if s.Is(e.Lt(hi, end)) {
							b = e.Add(q.A[1], e.Sub(hi, off))
						} else if !s.Is(e.Not(e.Lt(hi, end))) {
							okB = false
						}
						if !okA || !okB {
							ok = false
						} else {
							mid = append(mid, e.sp(q.A[0], a, b))
						}
					default:
						ok = false
					}
					off = end
				}
				if ok {
					for _, q := range mid {
						push(q)
					}
					return
				}
			}
			if n := len(out); n > 0 && out[n-1].Op == "sp" && out[n-1].A[0] == c && s.Is(e.Eq(out[n-1].A[2], lo)) {
				out[n-1] = e.sp(c, out[n-1].A[1], hi)
				return
			}
			// one-element piece of an array
			if d, ok := e.Sub(hi, lo).IntVal(); ok && d == 1 {
				out = append(out, e.el(s.Elem(c, lo, elemType(t))))
				return
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		push(p)
	}
	if len(out) == 1 && out[0].Op == "sp" && s.Is(e.Eq(out[0].A[1], e.Int(0))) && s.Is(e.Eq(out[0].A[2], e.Len(out[0].A[0]))) {
		return out[0].A[0]
	}
	return e.seq(out, t)
}

// ---------- slices

// sliceParts decomposes a slice value into (backing address, lo, hi); ok=false for nil.
func (s *State) sliceParts(v *Term, t types.Type) (bk, lo, hi *Term, ok bool) {
	e := s.e
	switch v.Op {
	case "slice":
		return v.A[0], v.A[1], v.A[2], true
	case "nil":
		return nil, e.Int(0), e.Int(0), false
	}
	return e.BK(v, t), e.Int(0), e.Len(v), true
}

// Seq returns the contents of a slice value as a sequence term.
func (s *State) Seq(v *Term, t types.Type) *Term {
	bk, lo, hi, ok := s.sliceParts(v, t)
	if !ok {
		return s.e.seq(nil, t)
	}
	c := s.content(bk)
	return s.normSeq([]*Term{s.e.sp(c, lo, hi)}, t)
}

func (e *Engine) mkSlice(bk, lo, hi *Term, t types.Type) *Term {
	return e.in.mk(Term{Op: "slice", A: []*Term{bk, lo, hi}, T: t})
}

// newSlice makes a slice value with fresh backing holding content c.
func (s *State) newSlice(c *Term, t types.Type, pos token.Pos) *Term {
	e := s.e
	o := e.NewObj("back", t, pos)
	e.cellT[o] = t
	s.set(o, c)
	return e.mkSlice(o, e.Int(0), e.Len(c), t)
}

func (s *State) appendSlice(v *Term, extra []*Term, t types.Type, pos token.Pos) *Term {
	e := s.e
	bk, lo, hi, ok := s.sliceParts(v, t)
	var parts []*Term
	if ok {
		parts = append(parts, e.sp(s.content(bk), lo, hi))
	}
	parts = append(parts, extra...)
	r := s.newSlice(s.normSeq(parts, t), t, pos)
	if ok {
		if z, k := s.Holds(e.Eq(hi, lo)); !(k && z && bk.Op == "obj") {
			nb := r.A[0]
			s.share[nb] = append(append([]*Term(nil), s.share[bk]...), bk)
		}
	}
	return r
}

// ---------- maps

func (s *State) MapContent(m *Term, t types.Type) *Term {
	if m.Op == "nil" {
		return s.e.in.mk(Term{Op: "mempty", T: t})
	}
	return s.cell(s.e.MC(m, t), t)
}

func (e *Engine) lkRaw(c, k *Term, vt types.Type) *Term {
	return e.in.mk(Term{Op: "lk", A: []*Term{c, k}, T: vt})
}

func (e *Engine) nonNilValues(z *Term) bool { return !e.NilMapValues }

// Has is the atom "key k is present in map content c" for an unresolved content.
func (e *Engine) Has(c, k *Term) *Term {
	if c.Op == "mempty" {
		return e.Bool(false)
	}
	if !e.NilMapValues && c.T != nil {
		if mt, ok := c.T.Underlying().(*types.Map); ok && isPtr(mt.Elem()) {
			return e.Not(e.Eq(e.lkRaw(c, k, mt.Elem()), e.Nil()))
		}
	}
	return e.in.mk(Term{Op: "has", A: []*Term{c, k}, T: types.Typ[types.Bool]})
}

// Lookup returns (value, present) of key k.
func (s *State) Lookup(c, k *Term, vt types.Type) (*Term, *Term) {
	e := s.e
	switch c.Op {
	case "mempty":
		return e.Zero(vt), e.Bool(false)
	case "upd":
		if s.need(e.Eq(c.A[1], k)) {
			return c.A[2], e.Bool(true)
		}
		return s.Lookup(c.A[0], k, vt)
	case "del":
		if s.need(e.Eq(c.A[1], k)) {
			return e.Zero(vt), e.Bool(false)
		}
		return s.Lookup(c.A[0], k, vt)
	case "layer":
		l := e.loops[c.S]
		if it := l.soleUpd(c); it != nil && l.Kind == "maprange" {
			// value for key k if k is in the ranged map
			if key := it.A[1]; key == l.Key {
				_, in := s.Lookup(l.CollContent, k, elemType(l.CollContent.T))
				if s.need(in) {
					return e.Subst(it.A[2], map[*Term]*Term{l.Key: k}), e.Bool(true)
				}
				return s.Lookup(c.A[0], k, vt)
			}
		} else if absent, present, ok := l.ownKeyUpd(c); ok {
			// each iteration touches only its own key, depending on whether the map already has it
			_, in := s.Lookup(l.CollContent, k, elemType(l.CollContent.T))
			if !s.need(in) {
				return s.Lookup(c.A[0], k, vt)
			}
			_, had := s.Lookup(c.A[0], k, vt)
			it := absent
			if s.need(had) {
				it = present
			}
			if it == nil {
				return s.Lookup(c.A[0], k, vt)
			}
			return e.Subst(it.A[2], map[*Term]*Term{l.Key: k}), e.Bool(true)
		}
	}
	h := e.Has(c, k)
	if v, kn := s.Holds(h); kn && !v {
		return e.Zero(vt), e.Bool(false)
	}
	if _, isP := vt.Underlying().(*types.Pointer); !isP || e.NilMapValues {
		// missing keys read as zero: the value depends on presence only through the term itself
	}
	return e.lkRaw(c, k, vt), h
}

func (e *Engine) mapUpd(c, k, v *Term) *Term {
	// overwrite of the same key
	if c.Op == "upd" && c.A[1] == k {
		c = c.A[0]
	}
	if c.Op == "del" && c.A[1] == k {
		c = c.A[0]
	}
	return e.in.mk(Term{Op: "upd", A: []*Term{c, k, v}, T: c.T})
}
func (e *Engine) mapDel(c, k *Term) *Term {
	if c.Op == "mempty" {
		return c
	}
	if c.Op == "upd" && c.A[1] == k {
		c = c.A[0]
	}
	return e.in.mk(Term{Op: "del", A: []*Term{c, k}, T: c.T})
}

func strArg(a []*Term) (string, bool) {
	if len(a) != 2 {
		return "", false
	}
	return a[0].StrVal()
}

// fold evaluates an integer operation whose operands have become constants.
func (e *Engine) fold(x *Term, a []*Term) *Term {
	if x.Op != "app" {
		return nil
	}
	if r := e.foldText(x, a); r != nil {
		return r
	}
	if txt, ok := strArg(a); ok {
		switch x.S {
		case "strings.ContainsRune", "strings.IndexRune", "strings.IndexByte":
			n, ok := a[1].IntVal()
			if !ok || n < math.MinInt32 || n > math.MaxInt32 {
				return nil
			}
			switch x.S {
			case "strings.ContainsRune":
				return e.Bool(strings.ContainsRune(txt, rune(n)))
			case "strings.IndexRune":
				return e.Int(int64(strings.IndexRune(txt, rune(n))))
			}
			return e.Int(int64(strings.IndexByte(txt, byte(n))))
		}
		return nil
	}
	n := make([]int64, len(a))
	for i, t := range a {
		v, ok := t.IntVal()
		if !ok {
			return nil
		}
		n[i] = v
	}
	if w, ok := strings.CutPrefix(x.S, "wrap:"); ok {
		return e.Int(wrapTo(w, n[0]))
	}
	if w, ok := strings.CutPrefix(x.S, "trunc:"); ok && wrapBits[w] > 0 {
		return e.Int(wrapTo(w, n[0]))
	}
	if len(n) != 2 {
		return nil
	}
	switch x.S {
	case "i|":
		return e.Int(n[0] | n[1])
	case "i&":
		return e.Int(n[0] & n[1])
	case "i^":
		return e.Int(n[0] ^ n[1])
	case "i&^":
		return e.Int(n[0] &^ n[1])
	case "i<<":
		if n[1] >= 0 && n[1] < 32 && n[0]>>31 == 0 {
			return e.Int(n[0] << uint(n[1]))
		}
	case "i>>":
		if n[1] >= 0 && n[1] < 64 {
			return e.Int(n[0] >> uint(n[1]))
		}
	case "div":
		if n[1] != 0 {
			return e.Int(n[0] / n[1])
		}
	case "mod":
		if n[1] != 0 {
			return e.Int(n[0] % n[1])
		}
	}
	return nil
}

// foldText evaluates a function of package strings whose arguments are all constants.
func (e *Engine) foldText(x *Term, a []*Term) *Term {
	name, ok := strings.CutPrefix(x.S, "strings.")
	if !ok && x.S != "substr" || len(a) == 0 {
		return nil
	}
	var txt []string
	var num []int64
	for _, t := range a {
		if v, ok := t.StrVal(); ok {
			txt = append(txt, v)
		} else if v, ok := t.IntVal(); ok {
			num = append(num, v)
		} else {
			return nil
		}
	}
	switch {
	case len(txt) == 1 && len(num) == 2 && x.S == "substr":
		if l, h := num[0], num[1]; l >= 0 && l <= h && h <= int64(len(txt[0])) {
			return e.Str(txt[0][l:h])
		}
	case len(txt) == 1 && len(num) == 0:
		switch name {
		case "ToLower":
			return e.Str(strings.ToLower(txt[0]))
		case "ToUpper":
			return e.Str(strings.ToUpper(txt[0]))
		case "Title":
			return e.Str(strings.Title(txt[0]))
		case "TrimSpace":
			return e.Str(strings.TrimSpace(txt[0]))
		}
	case len(txt) == 1 && len(num) == 1:
		c := num[0]
		if c < 0 || c > math.MaxInt32 {
			return nil
		}
		switch name {
		case "LastIndexByte":
			return e.Int(int64(strings.LastIndexByte(txt[0], byte(c))))
		case "IndexByte":
			return e.Int(int64(strings.IndexByte(txt[0], byte(c))))
		case "IndexRune":
			return e.Int(int64(strings.IndexRune(txt[0], rune(c))))
		case "ContainsRune":
			return e.Bool(strings.ContainsRune(txt[0], rune(c)))
		}
	case len(txt) == 2 && len(num) == 0:
		s, t := txt[0], txt[1]
		switch name {
		case "HasPrefix":
			return e.Bool(strings.HasPrefix(s, t))
		case "HasSuffix":
			return e.Bool(strings.HasSuffix(s, t))
		case "Contains":
			return e.Bool(strings.Contains(s, t))
		case "ContainsAny":
			return e.Bool(strings.ContainsAny(s, t))
		case "EqualFold":
			return e.Bool(strings.EqualFold(s, t))
		case "Index":
			return e.Int(int64(strings.Index(s, t)))
		case "IndexAny":
			return e.Int(int64(strings.IndexAny(s, t)))
		case "LastIndex":
			return e.Int(int64(strings.LastIndex(s, t)))
		case "Count":
			return e.Int(int64(strings.Count(s, t)))
		case "TrimPrefix":
			return e.Str(strings.TrimPrefix(s, t))
		case "TrimSuffix":
			return e.Str(strings.TrimSuffix(s, t))
		case "Trim":
			return e.Str(strings.Trim(s, t))
		case "TrimLeft":
			return e.Str(strings.TrimLeft(s, t))
		case "TrimRight":
			return e.Str(strings.TrimRight(s, t))
		}
	case len(txt) == 3 && len(num) == 0 && name == "ReplaceAll":
		return e.Str(strings.ReplaceAll(txt[0], txt[1], txt[2]))
	case len(txt) == 3 && len(num) == 1 && name == "Replace":
		return e.Str(strings.Replace(txt[0], txt[1], txt[2], int(num[0])))
	}
	return nil
}

var wrapBits = map[string]uint{"uint8": 8, "byte": 8, "uint16": 16, "uint32": 32}

func wrapTo(w string, n int64) int64 {
	if b := wrapBits[w]; b > 0 {
		return n & (1<<b - 1)
	}
	if n < 0 { // a large number; only its size matters
		return math.MaxInt64 + n
	}
	return n
}

// wrap brings the exact result of unsigned arithmetic into the range of its type.
func (e *Engine) wrap(st *State, x *Term, t types.Type) *Term {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsUnsigned == 0 || b.Kind() == types.Uintptr {
		return x
	}
	w := types.Typ[b.Kind()].Name()
	if n, ok := x.IntVal(); ok {
		return e.Int(wrapTo(w, n))
	}
	low := nonNegTerm(x) || st != nil && st.Is(e.Not(e.Lt(x, e.Int(0))))
	bits := wrapBits[w]
	high := bits == 0 || st != nil && st.Is(e.Lt(x, e.Int(1<<bits)))
	if low && high || x.IsApp("wrap:"+w) || bits == 0 && x.Op != "lin" {
		return x
	}
	return e.App("wrap:"+w, t, x)
}

// Subst replaces terms.
func (e *Engine) Subst(t *Term, sub map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(*Term) *Term
	f = func(x *Term) *Term {
		if r, ok := sub[x]; ok {
			return r
		}
		if len(x.A) == 0 {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		ch := false
		na := make([]*Term, len(x.A))
		for i, a := range x.A {
			na[i] = f(a)
			if na[i] != a {
				ch = true
			}
		}
		r := x
		if ch {
			switch x.Op {
			case "lin":
				l := &linAcc{k: x.K, m: map[*Term]int64{}}
				for i, a := range na {
					l.add(a, x.Co[i])
				}
				r = e.mkLin(l)
			case "cat":
				r = e.Cat(na...)
			case "le0":
				r = e.le0(na[0])
			case "not":
				r = e.Not(na[0])
			case "eq0":
				r = e.Eq(na[0], e.Int(0))
			case "eq":
				r = e.Eq(na[0], na[1])
			default:
				if r = e.fold(x, na); r != nil {
					break
				}
				c := *x
				c.A = na
				c.id = 0
				r = e.in.mk(c)
			}
		}
		memo[x] = r
		return r
	}
	return f(t)
}

// matchKey matches address a against pattern pat, whose loop variables (key/index of l) act as wildcards.
func matchKey(pat, a *Term, l *LoopSum) (map[*Term]*Term, bool) {
	sub := map[*Term]*Term{}
	var f func(p, x *Term) bool
	f = func(p, x *Term) bool {
		if l.isVar(p) {
			if o, ok := sub[p]; ok {
				return o == x
			}
			sub[p] = x
			return true
		}
		if p == x {
			return true
		}
		if p.Op != x.Op || p.S != x.S || len(p.A) != len(x.A) || len(p.A) == 0 || p.Op == "lin" {
			return false
		}
		for i := range p.A {
			if !f(p.A[i], x.A[i]) {
				return false
			}
		}
		return true
	}
	return sub, f(pat, a)
}
