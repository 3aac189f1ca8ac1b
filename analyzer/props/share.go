package props

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"verif/analyzer/ai"
)

// sinkType is a type of the library that records can be emitted to.
type sinkType struct {
	pkg, name string
	comps     func(s *Sc) []comp
}

// sinkTypes finds every type that implements health.Sink.
func sinkTypes(s *Sc) (r []sinkType) {
	it, ok := s.T(H, "Sink").Underlying().(*types.Interface)
	if !ok {
		s.giveUp("health.Sink is not an interface")
	}
	var paths []string
	for p := range s.C.P.Pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		sc := s.C.P.Pkgs[p].Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) || !types.Implements(types.NewPointer(tn.Type()), it) {
				continue
			}
			k := sinkType{pkg: p, name: n}
			switch p + "." + n {
			case H + ".JsonPollingSink":
				k.comps = func(s *Sc) (r []comp) {
					for _, p := range s.pollingSinks() {
						r = append(r, p.cm)
					}
					return
				}
			case H + ".StatsDSink":
				k.comps = func(s *Sc) (r []comp) {
					s.sanitizers(H, "StatsDSinkSanitizationFunc")
					for _, opts := range []int{2} {
						for _, d := range s.statsdSinks(opts) {
							r = append(r, d.cm)
						}
					}
					return
				}
			case HL + ".Sink":
				k.comps = func(s *Sc) (r []comp) {
					for _, d := range s.libratos() {
						r = append(r, d.cm)
					}
					return
				}
			case HB + ".Sink":
				k.comps = func(s *Sc) (r []comp) {
					s.noFrames()
					for _, b := range s.bugsnags() {
						return []comp{b.comp}
					}
					return
				}
			default:
				k.comps = func(s *Sc) []comp {
					st := s.NewState()
					return []comp{{st: st, recv: s.Ptr(st, "sink", s.T(k.pkg, k.name))}}
				}
			}
			r = append(r, k)
		}
	}
	return
}

// shared tells what data of the caller a sink may use after an emit call.
type shared struct {
	s    *Sc
	kvs  *Term // the caller's map
	er   *Term // the caller's error wrapper (may be nil)
	lkv  *Term // what is in the map later
	base *ai.Mem
	lem  *Term // whether the error is marked emitted, later
}

// holds: v is or contains a reference to x (through memory, as st has it).
func (h *shared) holds(st *ai.State, v, x *Term) bool {
	objs := map[*Term]bool{}
	found := false
	var walk func(v *Term)
	walk = func(v *Term) {
		if v == x {
			found = true
		}
		if found || objs[v] {
			return
		}
		objs[v] = true
		switch v.Op {
		case "init", "app", "const", "len", "lin":
			return
		case "fa", "ia":
			walk(ai.RootOf(v))
			return
		}
		if v.T != nil && v.Op != "obj" {
			if _, ok := v.T.Underlying().(*types.Basic); ok {
				return
			}
		}
		if v.Op == "obj" || v.Op == "sym" {
			for _, a := range st.Written(h.base) {
				if ai.RootOf(a) == v {
					if c, ok := st.Raw(a); ok {
						walk(c)
					}
				}
			}
			for _, m := range st.Mods() {
				if ai.RootOf(m.Addr) == v {
					walk(m.Val)
				}
			}
		}
		for _, a := range v.A {
			walk(a)
		}
	}
	walk(v)
	return found
}

// keeps: what an emit call leaves behind that refers to the caller's map.
func (h *shared) keeps(st *ai.State, m0 *ai.Mem, t0 int, tr []*ai.Effect) []string {
	s := h.s
	var bad []string
	for _, a := range st.Written(m0) {
		if r := ai.RootOf(a); r.Op == "obj" && r.ID() > t0 || r == h.er {
			continue
		}
		v, _ := st.Raw(a)
		if v != nil && h.holds(st, v, h.kvs) {
			bad = append(bad, fmt.Sprintf("%v keeps the key/values it was given", a))
		}
		if ai.RootOf(a) == h.kvs {
			bad = append(bad, "the key/values given are changed")
		}
	}
	for _, m := range st.Mods() {
		if r := ai.RootOf(m.Addr); !(r.Op == "obj" && r.ID() > t0) && m.Val != nil && h.holds(st, m.Val, h.kvs) {
			bad = append(bad, fmt.Sprintf("%v keeps the key/values it was given", m.Addr))
		}
	}
	Flatten(tr, func(ef *ai.Effect, _ []*ai.LoopSum) {
		all := append([]*Term(nil), ef.Args...)
		switch {
		case ef.Kind == "send":
		case ef.Kind == "go":
			all = append(all, ef.Fn)
		case ef.Kind == "call" && strings.Contains(ef.Name, "sync."):
		default:
			return
		}
		cur := st
		if ef.Mem != nil && ef.Kind == "call" {
			cur = st.At(ef.Mem)
		}
		for _, a := range all {
			if a != nil && h.holds(cur, a, h.kvs) {
				bad = append(bad, "the key/values given are handed over at "+s.C.pos(ef.Pos)+" ("+ef.Kind+")")
			}
		}
	})
	return bad
}

// later: what happens after the call returned depends on something the caller still changes.
func (h *shared) later(st *ai.State, conds map[*Term]bool, m0 *ai.Mem, tr []*ai.Effect) []string {
	s := h.s
	var bad []string
	dep := func(v *Term) string {
		r := ""
		v.Any(func(t *Term) bool {
			switch {
			case t == h.lkv:
				r = "the key/values of the caller"
			case t == h.lem:
				r = "whether the error is marked as reported"
			case t.Op == "app" && (t.S == "DeepEqual" || strings.HasPrefix(t.S, "fmt") || strings.HasPrefix(t.S, "json")):
				for _, a := range t.A {
					if h.er != nil && h.holds(st, a, h.er) {
						r = "all of the error given (" + t.S + ")"
					}
				}
			}
			return r != ""
		})
		return r
	}
	add := func(v *Term, where string) {
		if v == nil {
			return
		}
		if d := dep(v); d != "" {
			bad = append(bad, "after the call returned, "+d+" is read ("+where+")")
		}
	}
	Flatten(tr, func(ef *ai.Effect, _ []*ai.LoopSum) {
		for _, a := range append(append([]*Term(nil), ef.Args...), ef.Fn, ef.Recv) {
			add(a, s.C.pos(ef.Pos))
			if a != nil && h.er != nil && ef.Kind == "call" && strings.HasPrefix(ef.Name, "json.") && ef.Mem != nil && h.holds(st.At(ef.Mem), a, h.er) {
				bad = append(bad, "after the call returned, the error given is encoded ("+s.C.pos(ef.Pos)+")")
			}
		}
	})
	for c := range conds {
		add(c, "a decision")
	}
	for _, c := range st.Facts().Atoms() {
		add(c, "a decision")
	}
	for _, a := range st.Written(m0) {
		if r := ai.RootOf(a); r == h.kvs || r == h.er {
			continue
		}
		if v, _ := st.Raw(a); v != nil {
			add(v, fmt.Sprintf("stored at %v", a))
		}
	}
	return bad
}

func checkC28(c *Ctx) {
	var kinds []sinkType
	c.Scen("sinks of the library", func(s *Sc) {
		kinds = sinkTypes(s)
		s.Ok(len(kinds) > 0, "sinks are found", "no type implements health.Sink")
	})
	errKinds := []string{"plain", "muted", "unmuted", "emitted"}
	for _, k := range kinds {
		k := k
		c.Scen("data given to "+strings.TrimPrefix(k.pkg, "github.com/gocraft/")+"."+k.name, func(s *Sc) {
			for _, cm := range k.comps(s) {
				for _, r := range s.emissions() {
					for _, ek := range errKinds {
						if r.method != "EmitEventErr" && ek != "plain" {
							continue
						}
						s.unshared(k, cm, r, ek)
					}
				}
			}
		})
	}
}

// unshared follows one record through a sink.
func (s *Sc) unshared(k sinkType, cm comp, r record, ek string) {
	h := &shared{s: s, kvs: s.Sym("kvs", mapSS()), base: s.NewState().Mem()}
	st := cm.st.Clone()
	args := append([]*Term(nil), r.args...)
	ut := s.T(H, "UnmutedError")
	if r.method == "EmitEventErr" {
		switch ek {
		case "plain":
			st.Assume(s.Eq(args[2], s.Nil()), false)
		case "muted":
			m := s.Ptr(st, "muted", s.T(H, "MutedError"))
			args[2] = s.MkIface(m, s.PT(H, "MutedError"))
		default:
			h.er, args[2] = s.bugsnagErr(st)
			s.SetF(st, h.er, ut, "Emitted", s.Bool(ek == "emitted"))
		}
	}
	fn := s.M(k.pkg, k.name, r.method)
	s.On(fn)
	n0, t0, m0 := len(st.Trace), s.Terms(), st.Mem()
	for _, x := range s.Call(st, fn, append([]*Term{cm.recv}, args...)...) {
		tr := x.St.Trace[n0:]
		s.Msgs("no reference to the caller's key/values remains", h.keeps(x.St, m0, t0, tr))
		// what the caller does afterwards
		ls := x.St.Clone()
		mc := s.MC(h.kvs, mapSS())
		ls.Forget(mc, mapSS())
		h.lkv, _ = ls.Raw(mc)
		if h.er != nil {
			h.lem = s.Fresh("marked later", types.Typ[types.Bool])
			s.SetF(ls, h.er, ut, "Emitted", h.lem)
		}
		base := ls.Mem()
		var pend []*ai.Effect
		Flatten(tr, func(ef *ai.Effect, _ []*ai.LoopSum) {
			if ef.Kind == "send" || ef.Kind == "go" {
				pend = append(pend, ef)
			}
		})
		for _, ef := range pend {
			if ef.Kind == "go" {
				cur := ls.Clone()
				cur.Trace = nil
				for _, y := range s.runGo(cur, ef) {
					s.Msgs("workers do not read what the caller still writes", h.later(y.St, nil, base, y.St.Trace))
				}
				continue
			}
			cur := ls.Clone()
			cur.SetInbox(ef.Recv, ef.Args[0])
			found := false
			for _, l := range s.workerLoops(cm, cur) {
				in, out := l.got(ef.Recv, ef.Args[0])
				for _, it := range append(in, out...) {
					found = true
					s.Msgs("workers do not read what the caller still writes", h.later(it.St, it.Conds, base, it.New))
				}
			}
			s.Ok(found || len(cm.gos) == 0, "the worker takes the record", "no worker loop receives what %s queues", r.method)
		}
	}
}
