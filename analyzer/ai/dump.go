package ai

import (
	"fmt"
	"sort"
	"strings"
)

// Dump renders a state for diagnostics.
func (s *State) Dump() string {
	var b strings.Builder
	fmt.Fprintf(&b, "facts: %s\n", s.facts)
	var ks []*Term
	base := map[*Term]*Term{}
	if s.e.base != nil {
		base = s.e.base.mem.m
	}
	for k, v := range s.mem.m {
		if base[k] != v {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, k := range ks {
		fmt.Fprintf(&b, "  %s := %s\n", k, s.mem.m[k])
	}
	for _, m := range s.mods {
		fmt.Fprintf(&b, "  mod[%s] %s := %v\n", m.l.ID, m.addr, m.val)
	}
	for _, ef := range s.Trace {
		fmt.Fprintf(&b, "  ! %s\n", ef)
	}
	for _, o := range s.Obl {
		if !o.OK {
			fmt.Fprintf(&b, "  ? %s %s\n", o.Kind, o.Cond)
		}
	}
	return b.String()
}

func (f *Facts) String() string {
	var l []string
	for t, v := range f.atoms {
		x := t.String()
		if !v {
			x = "!" + x
		}
		l = append(l, x)
	}
	sort.Strings(l)
	for _, c := range f.lin {
		l = append(l, c.String()+"<=0")
	}
	return strings.Join(l, " & ")
}

func (ef *Effect) String() string {
	s := ef.Kind + " " + ef.Name
	if ef.Recv != nil {
		s += " recv=" + ef.Recv.String()
	}
	if ef.Fn != nil {
		s += " fn=" + ef.Fn.String()
	}
	s += fmt.Sprintf(" %v", ef.Args)
	if ef.Res != nil {
		s += " -> " + ef.Res.String()
	}
	if ef.Loop != nil {
		s += " " + ef.Loop.Kind + " " + ef.Loop.ID
		if ef.Part {
			s += " (partial)"
		}
		for i, it := range ef.Loop.Iters {
			s += fmt.Sprintf("\n      iter %d:", i)
			for _, x := range it.New {
				s += "\n        " + strings.ReplaceAll(x.String(), "\n", "\n        ")
			}
		}
	}
	return s
}
