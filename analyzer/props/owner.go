package props

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// owner looks for memory that goroutines of a component use at the same time without synchronisation.
type owner struct {
	s     *Sc
	t0    int // terms made up to the end of the constructor
	recv  *Term
	gors  []*gor
	havoc map[*Term]*Term
	done  map[string]bool
}

// gor is one goroutine (or all callers of one method).
type gor struct {
	name   string
	multi  bool
	ctor   bool
	parent *gor
	start  *ai.Effect
	acc    []*use
	seen   map[string]bool
}

// use is an access to one cell.
type use struct {
	*ai.Access
	key   string // exact cell
	field string // any cell of this kind
	base  *Term
	sure  bool // the object accessed is known exactly
}

// base follows an address to the object or symbol everything was read from.
func (o *owner) base(t *Term) (b *Term, direct bool) {
	direct = true
	for i := 0; i < 200; i++ {
		switch t.Op {
		case "fa", "ia", "mc", "bc", "bk":
			t = t.A[0]
		case "slice", "init", "lk", "ver", "hv", "at", "elem", "fld", "iface", "sp", "seq", "el", "idx", "struct":
			if len(t.A) == 0 {
				return t, false
			}
			direct = false
			t = t.A[0]
		case "sym":
			c, ok := o.havoc[t]
			if !ok {
				c = o.s.HavocCell(t)
				o.havoc[t] = c
			}
			if c == nil {
				return t, direct
			}
			direct = false
			t = c
		default:
			return t, direct
		}
	}
	return t, false
}

// cells splits an access to a whole struct into its fields.
func (o *owner) cells(a *Term, t types.Type, f func(a *Term)) {
	if t != nil && o.s.IsRepoStruct(t) {
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			o.cells(o.s.FAT(a, i, t), st.Field(i).Type(), f)
		}
		return
	}
	f(a)
}

func (o *owner) keys(a *Term) (exact, kind string) {
	path := ""
	kind = "?"
	for {
		switch a.Op {
		case "fa":
			path = "." + a.S + path
			if a.T != nil {
				kind = types.TypeString(a.T, nil) + "." + a.S
			}
			a = a.A[0]
		case "ia":
			path = "[]" + path
			a = a.A[0]
		default:
			if i := strings.Index(path, "[]"); i >= 0 || kind == "?" {
				if ct := o.s.CellType(a); ct != nil {
					kind = a.Op + ":" + types.TypeString(ct, nil) + path
				}
			} else {
				kind += path[strings.LastIndex(path, "."):]
			}
			return fmt.Sprintf("%d%s", a.ID(), path), kind
		}
	}
}

// run analyses one goroutine and records what it uses.
func (o *owner) run(g *gor, f func() []*ai.Exit) []*ai.Exit {
	s := o.s
	o.gors = append(o.gors, g)
	g.seen = map[string]bool{}
	prev := s.OnAccess
	s.OnAccess = func(a *ai.Access) {
		o.cells(a.Addr, a.T, func(c *Term) {
			u := &use{Access: a}
			u.key, u.field = o.keys(c)
			u.base, u.sure = o.base(c)
			id := fmt.Sprint(u.key, a.Write, a.Atomic, len(a.Held), len(a.Trace), a.Pos, a.Loop == nil)
			if len(a.Trace) > 0 {
				id += fmt.Sprint(a.Trace[len(a.Trace)-1].Pos)
			}
			if !g.seen[id] {
				g.seen[id] = true
				g.acc = append(g.acc, u)
			}
		})
	}
	from := s.LoopCount()
	xs := f()
	s.OnAccess = prev
	// goroutines it starts
	var gos []*ai.Effect
	var sts []*ai.State
	add := func(st *ai.State, tr []*ai.Effect) {
		for _, ef := range tr {
			if ef.Kind == "go" {
				gos = append(gos, ef)
				sts = append(sts, st)
			}
		}
	}
	for _, x := range xs {
		add(x.St, x.St.Trace)
	}
	for i := from + 1; i <= s.LoopCount(); i++ {
		if l := s.LoopNo(i); l != nil {
			for _, it := range append(append([]*ai.Iter(nil), l.Iters...), l.Breaks...) {
				add(it.St, it.New)
			}
		}
	}
	for i, ef := range gos {
		id := g.name + " " + s.C.pos(ef.Pos)
		if o.done[id] || strings.Count(g.name, "<") > 3 {
			continue
		}
		o.done[id] = true
		st := sts[i].At(ef.Mem)
		st.Trace = nil
		ef := ef
		o.run(&gor{name: "the goroutine started at " + s.C.pos(ef.Pos) + " < " + g.name, multi: ef.Cur != nil || g.multi, parent: g, start: ef}, func() []*ai.Exit {
			return s.runGo(st, ef)
		})
	}
	return xs
}

// after: the use may happen after (or at the same time as something that follows) the effect.
func (o *owner) after(u *use, ef *ai.Effect) bool {
	in := func(tr []*ai.Effect) bool {
		for _, x := range tr {
			if x == ef || x.Kind == ef.Kind && x.Pos == ef.Pos {
				return true
			}
		}
		return false
	}
	if in(u.Trace) {
		return true
	}
	for l := u.Loop; l != nil; l = l.Outer {
		if l.Pre != nil && in(l.Pre.Trace) {
			return true
		}
		if ef.Cur == l && !(u.base.Op == "obj" && l.Fresh(u.base)) {
			return true
		}
	}
	return false
}

// concurrent: the two goroutines may be at these uses at the same time.
func (o *owner) concurrent(g *gor, a *use, h *gor, b *use) bool {
	if g == h {
		return g.multi || a.base.Op == "global"
	}
	if g.ctor && h.parent == nil || h.ctor && g.parent == nil {
		return false // nobody has the component before it is constructed
	}
	for p := h.parent; p != nil; p = p.parent {
		if p == g {
			c := h
			for c.parent != g {
				c = c.parent
			}
			if g.multi && a.base.Op == "obj" && a.base.ID() <= o.t0 {
				return true
			}
			return o.after(a, c.start)
		}
	}
	for p := g.parent; p != nil; p = p.parent {
		if p == h {
			return o.concurrent(h, b, g, a)
		}
	}
	return true
}

// shared: memory reached from the component or from package variables.
func (o *owner) shared(u *use) bool {
	return o.sharedBase(u.base)
}

func (o *owner) sharedBase(b *Term) bool {
	switch b.Op {
	case "global":
		return true
	case "obj", "layer", "upd", "each":
		return b.ID() <= o.t0
	}
	return b == o.recv
}

func guarded(a, b *use) bool {
	if a.Atomic && b.Atomic {
		return true
	}
	for l, w := range a.Held {
		if x, ok := b.Held[l]; ok && (w || x || !a.Write && !b.Write) {
			return true
		}
	}
	return false
}

// conflicts reports pairs of uses that race.
func (o *owner) conflicts() (bad []string, n int) {
	type ref struct {
		g *gor
		u *use
	}
	byKind := map[string][]ref{}
	for _, g := range o.gors {
		for _, u := range g.acc {
			byKind[u.field] = append(byKind[u.field], ref{g, u})
		}
	}
	var ks []string
	for k := range byKind {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		rs := byKind[k]
		any := false
		for _, r := range rs {
			any = any || r.u.Write
		}
		if !any {
			continue
		}
		n++
		for i, r := range rs {
			for _, q := range rs[i:] {
				if !r.u.Write && !q.u.Write || guarded(r.u, q.u) {
					continue
				}
				same := r.u.key == q.u.key
				if !same && (r.u.sure && q.u.sure || !o.shared(r.u) || !o.shared(q.u)) {
					continue
				}
				if same && r.g == q.g && !o.shared(r.u) {
					continue // made by each call for itself
				}
				if r.g.parent == nil && q.g.parent == nil && r.g != q.g && !o.shared(r.u) {
					continue
				}
				if !o.concurrent(r.g, r.u, q.g, q.u) {
					continue
				}
				w, x := r, q
				if !w.u.Write {
					w, x = q, r
				}
				what := "read"
				if x.u.Write {
					what = "written"
				}
				bad = append(bad, fmt.Sprintf("%s is written at %s (%s) and %s at %s (%s) without synchronisation", o.describe(w.u), o.s.C.pos(w.u.Pos), w.g.name, what, o.s.C.pos(x.u.Pos), x.g.name))
			}
		}
	}
	return
}

func (o *owner) describe(u *use) string {
	k := u.field
	if i := strings.LastIndex(k, "."); i > 0 && u.Addr.Op == "fa" && u.Addr.T != nil {
		if st, ok := u.Addr.T.Underlying().(*types.Struct); ok {
			for j := 0; j < st.NumFields(); j++ {
				if fmt.Sprint(j) == u.Addr.S {
					return types.TypeString(u.Addr.T, func(p *types.Package) string { return p.Name() }) + "." + st.Field(j).Name()
				}
			}
		}
	}
	return fmt.Sprint(u.Addr)
}

// sentAway: uses of what was sent to another goroutine after it was sent.
func (o *owner) sentAway() (bad []string) {
	h := &shared{s: o.s, base: o.s.NewState().Mem()}
	for _, g := range o.gors {
		for _, u := range g.acc {
			if !u.Write || u.base.Op != "obj" || o.shared(u) {
				continue
			}
			for _, ef := range u.Trace {
				if ef.Kind == "send" && u.base.ID() < ef.Args[0].ID()+1<<30 && h.holds(o.s.NewState().At(ef.Mem), ef.Args[0], u.base) {
					bad = append(bad, fmt.Sprintf("%s is written at %s (%s) after it was sent at %s", o.describe(u), o.s.C.pos(u.Pos), g.name, o.s.C.pos(ef.Pos)))
				}
			}
		}
	}
	return
}

// published: what a worker sends to others and goes on writing.
func (o *owner) published(from int) (bad []string) {
	s := o.s
	wrote := map[string]*use{}
	for _, g := range o.gors {
		if g.ctor {
			continue
		}
		for _, u := range g.acc {
			if u.Write && !u.sure && u.Addr.T != nil && o.sharedBase(u.base) && u.Addr.Op == "fa" {
				wrote[types.TypeString(u.Addr.T, nil)] = u
			}
		}
	}
	for i := from + 1; i <= s.LoopCount(); i++ {
		l := s.LoopNo(i)
		if l == nil || l.Outer != nil {
			continue
		}
		for _, it := range l.Iters {
			for _, ef := range it.New {
				if ef.Kind != "send" {
					continue
				}
				s.pointersIn(it.St, ef.Args[0], 0, func(p *Term, t types.Type) {
					b, direct := o.base(p)
					if direct && b.Op == "obj" && l.Fresh(b) {
						return
					}
					if u := wrote[types.TypeString(t, nil)]; u != nil && o.sharedBase(b) {
						bad = append(bad, fmt.Sprintf("what is sent at %s contains a %s that is written at %s afterwards", s.C.pos(ef.Pos), types.TypeString(t, nil), s.C.pos(u.Pos)))
					}
				})
			}
		}
	}
	return
}

// pointersIn: the structs a list refers to.
func (s *Sc) pointersIn(st *ai.State, v *Term, depth int, f func(p *Term, t types.Type)) {
	if v.T == nil || depth > 3 {
		return
	}
	switch t := v.T.Underlying().(type) {
	case *types.Pointer:
		f(v, t.Elem())
	case *types.Slice:
		q := st.Seq(v, v.T)
		if q.Op != "seq" {
			if _, ok := t.Elem().Underlying().(*types.Pointer); ok {
				f(q, t.Elem().Underlying().(*types.Pointer).Elem())
			}
			return
		}
		for _, p := range q.A {
			switch p.Op {
			case "el":
				if pt, ok := t.Elem().Underlying().(*types.Pointer); ok {
					f(p.A[0], pt.Elem())
				}
			case "each":
				for _, els := range s.Items(p) {
					for _, e := range els {
						if pt, ok := t.Elem().Underlying().(*types.Pointer); ok && e.Op == "el" {
							f(e.A[0], pt.Elem())
						}
					}
				}
			default:
				if pt, ok := t.Elem().Underlying().(*types.Pointer); ok {
					f(p, pt.Elem())
				}
			}
		}
	}
}

// methods: how the component can be called.
func (o *owner) method(st *ai.State, recv *Term, fn *ssa.Function) {
	s := o.s
	s.On(fn)
	args := []*Term{recv}
	cur := st.Clone()
	cur.Trace = nil
	for _, p := range fn.Params[1:] {
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok {
			args = append(args, s.Ptr(cur, p.Name(), pt.Elem()))
		} else {
			args = append(args, s.Sym(p.Name(), p.Type()))
		}
	}
	if fn.Name() == "EmitEventErr" {
		cur.Assume(s.Eq(args[3], s.Nil()), false)
	}
	o.run(&gor{name: "callers of " + strings.TrimPrefix(ai.FuncName(fn), "github.com/gocraft/"), multi: true}, func() []*ai.Exit {
		return s.Run(cur, fn, args)
	})
}

// exported methods declared for a type.
func (s *Sc) exported(t types.Type) (r []*ssa.Function) {
	n, ok := t.(*types.Named)
	if !ok {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if m := n.Method(i); m.Exported() {
			if fn := s.C.P.SSA.FuncValue(m); fn != nil && len(fn.Blocks) > 0 {
				r = append(r, fn)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return
}

// owned checks one component: comps constructs it.
func (c *Ctx) owned(name string, comps func(s *Sc) []comp, each func(s *Sc, o *owner, cm comp)) {
	c.Scen("goroutines of "+name, func(s *Sc) {
		o := &owner{s: s, havoc: map[*Term]*Term{}, done: map[string]bool{}}
		ctor := &gor{name: "the constructor", ctor: true}
		var cms []comp
		// the constructor, and the goroutines it starts
		s.OnAccess = nil
		o.gors = append(o.gors, ctor)
		ctor.seen = map[string]bool{}
		s.OnAccess = func(a *ai.Access) {
			o.cells(a.Addr, a.T, func(k *Term) {
				u := &use{Access: a}
				u.key, u.field = o.keys(k)
				u.base, u.sure = o.base(k)
				ctor.acc = append(ctor.acc, u)
			})
		}
		cms = comps(s)
		s.OnAccess = nil
		for i, cm := range cms {
			q := &owner{s: s, havoc: o.havoc, done: map[string]bool{}, t0: s.Terms(), recv: cm.recv, gors: []*gor{ctor}}
			if i > 2 {
				break
			}
			from := s.LoopCount()
			for _, g := range cm.gos {
				st := cm.st.Clone()
				st.Trace = nil
				g := g
				w := &gor{name: "the goroutine started at " + s.C.pos(g.Pos), parent: ctor, start: g, multi: g.Cur != nil}
				q.run(w, func() []*ai.Exit { return s.runGo(st, g) })
				s.On(g.In)
				q.handshake(cm, w)
			}
			each(s, q, cm)
			bad, n := q.conflicts()
			s.C.Obl += n
			if os.Getenv("HV_OWN") != "" {
				for _, g := range q.gors {
					fmt.Println("##", g.name, g.multi, len(g.acc))
					for _, u := range g.acc {
						fmt.Println("    ", u.field, u.Write, u.Atomic, u.base, u.sure, q.shared(u), s.C.pos(u.Pos))
					}
				}
			}
			s.Msgs("no two goroutines use the same memory at the same time, one of them writing, without synchronisation", bad)
			if name == "healthd" { // for the polling sink, C12 decides this interval by interval
				s.Msgs("what was handed out is not written any more", q.published(from))
			}
			s.Msgs("what was sent to another goroutine is not written any more", q.sentAway())
		}
	})
}

// handshake: what a goroutine does before a message the constructor waits for comes before everything else.
func (o *owner) handshake(cm comp, w *gor) {
	waits := map[*Term]bool{}
	started := false
	for _, ef := range cm.st.Trace {
		if ef == w.start {
			started = true
		}
		if started && ef.Kind == "recv" {
			waits[ef.Recv] = true
		}
	}
	if len(waits) == 0 {
		return
	}
	var keep []*use
	for _, u := range w.acc {
		told := u.Loop != nil
		for _, ef := range u.Trace {
			if (ef.Kind == "send" || ef.Kind == "close") && waits[ef.Recv] {
				told = true
			}
		}
		if told {
			keep = append(keep, u)
		}
	}
	w.acc = keep
}

func checkC23(c *Ctx) {
	sink := func(pkg, typ string) func(s *Sc, o *owner, cm comp) {
		return func(s *Sc, o *owner, cm comp) {
			for _, fn := range s.exported(s.T(pkg, typ)) {
				o.method(cm.st, cm.recv, fn)
			}
		}
	}
	c.owned("the polling sink", func(s *Sc) (r []comp) {
		for _, p := range s.pollingSinks() {
			r = append(r, p.cm)
		}
		return
	}, sink(H, "JsonPollingSink"))
	c.owned("the StatsD sink", func(s *Sc) (r []comp) {
		s.sanitizers(H, "StatsDSinkSanitizationFunc")
		for _, d := range s.statsdSinks(2) {
			r = append(r, d.cm)
		}
		return
	}, sink(H, "StatsDSink"))
	c.owned("the Librato sink", func(s *Sc) (r []comp) {
		for _, d := range s.libratos() {
			r = append(r, d.cm)
		}
		return
	}, sink(HL, "Sink"))
	c.owned("the Bugsnag sink", func(s *Sc) (r []comp) {
		s.noFrames()
		for _, b := range s.bugsnags() {
			return []comp{b.comp}
		}
		return
	}, sink(HB, "Sink"))
	c.owned("runtime metrics", func(s *Sc) []comp { return s.runtimeMetrics() }, func(s *Sc, o *owner, cm comp) {
		for _, fn := range s.exported(s.T(HR, "RuntimeMetrics")) {
			if fn.Name() != "Start" {
				o.method(cm.st, cm.recv, fn)
			}
		}
	})
	c.owned("healthd", func(s *Sc) []comp { return s.healthd() }, func(s *Sc, o *owner, cm comp) {
		sink(HD, "HealthD")(s, o, cm)
		hp := s.PT(HD, "HealthD")
		sc := s.Pkg(HD).Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if types.Identical(st.Field(i).Type(), hp) {
					for _, fn := range s.exported(tn.Type()) {
						ct := cm.st.Clone()
						ctx := s.NewObj("ctx", tn.Type(), fn.Pos())
						s.SetF(ct, ctx, tn.Type(), st.Field(i).Name(), cm.recv)
						o.method(ct, ctx, fn)
					}
				}
			}
		}
	})
	c.globals()
}

// globals: package variables are written only while packages are initialised.
func (c *Ctx) globals() {
	c.Scen("package variables", func(s *Sc) {
		reach := map[*ssa.Function]bool{}
		var visit func(f *ssa.Function)
		visit = func(f *ssa.Function) {
			if f == nil || reach[f] || len(f.Blocks) == 0 || f.Pkg == nil && f.Parent() == nil && f.Origin() == nil {
				return
			}
			reach[f] = true
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					for _, op := range ins.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok {
							visit(g)
						}
					}
				}
			}
			for _, g := range f.AnonFuncs {
				visit(g)
			}
		}
		all := s.repoFuncs()
		for _, f := range all {
			if f.Name() == "main" || f.Object() != nil && f.Object().Exported() || c.P.AddrTaken()[f] && f.Parent() == nil && f.Signature.Recv() == nil {
				visit(f)
			}
		}
		n := 0
		for _, f := range all {
			if !reach[f] || f.Synthetic == "package initializer" || strings.HasPrefix(f.Name(), "init#") || f.Pkg != nil && f.Pkg.Pkg.Name() == "main" {
				continue
			}
			n++
			locks := false
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if ci, ok := ins.(ssa.CallInstruction); ok {
						if cal := ci.Common().StaticCallee(); cal != nil && strings.HasPrefix(ai.FuncName(cal), "(*sync.") {
							locks = true
						}
					}
				}
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					var to ssa.Value
					switch x := ins.(type) {
					case *ssa.Store:
						to = x.Addr
					case *ssa.MapUpdate:
						to = x.Map
					}
					if to == nil {
						continue
					}
					g := globalOf(to, 0)
					s.Ok(g == nil || locks || !s.IsRepo(g.Pkg.Pkg), "package variables are not written by running code", "%s writes %s at %s, which all goroutines share", ai.FuncName(f), gname(g), c.pos(ins.Pos()))
				}
			}
		}
		s.Ok(n > 0, "functions are analysed", "none")
	})
}

func gname(g *ssa.Global) string {
	if g == nil {
		return ""
	}
	return g.Name()
}

func globalOf(v ssa.Value, depth int) *ssa.Global {
	for ; depth < 50; depth++ {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Lookup:
			v = x.X
		case *ssa.Phi:
			for _, e := range x.Edges {
				if e != v {
					if g := globalOf(e, depth+10); g != nil {
						return g
					}
				}
			}
			return nil
		default:
			return nil
		}
	}
	return nil
}
