package props

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// sanSpec: what a sanitizer must do with one character.
type sanSpec struct {
	bytes bool // works on bytes, otherwise on characters
	keep  func(v int64) bool
	repl  string
}

func alnum(v int64) bool {
	return 'a' <= v && v <= 'z' || 'A' <= v && v <= 'Z' || '0' <= v && v <= '9'
}

var statsdSan = sanSpec{true, func(v int64) bool { return alnum(v) || v == '_' || v == '.' }, "$"}
var libratoSan = sanSpec{false, func(v int64) bool { return alnum(v) || v == '_' || v == '.' || v == ':' || v == '-' }, "_"}

// char is the current character of a loop over text k, or nil.
func (s *Sc) char(l *ai.LoopSum, k *Term, sp sanSpec) *Term {
	if sp.bytes {
		if l.Kind != "index" || l.Desc || l.Step != 1 {
			return nil
		}
		if n, ok := l.Lo.IntVal(); !ok || n != 0 || l.Hi != s.Len(k) {
			return nil
		}
		return s.ByteAt(k, l.Idx)
	}
	if l.Kind != "strrange" || l.Coll != k {
		return nil
	}
	return l.Val
}

// values to try: every byte, and around every number the code compares with.
func samples(sp sanSpec, its []*ai.Iter) []int64 {
	max := int64(0x10FFFF)
	if sp.bytes {
		max = 255
	}
	have := map[int64]bool{}
	add := func(v int64) {
		if v >= 0 && v <= max {
			have[v] = true
		}
	}
	for v := int64(0); v < 256; v++ {
		add(v)
	}
	add(0xFFFD)
	add(max)
	for _, it := range its {
		for a := range it.Conds {
			a.Any(func(t *Term) bool {
				if n, ok := t.IntVal(); ok {
					for d := int64(-2); d <= 2; d++ {
						add(n + d)
						add(d - n)
					}
				}
				if txt, ok := t.StrVal(); ok {
					for _, r := range txt {
						for d := int64(-2); d <= 2; d++ {
							add(int64(r) + d)
						}
					}
				}
				for n := t.K; n != 0; n = 0 {
					for d := int64(-2); d <= 2; d++ {
						add(n + d)
						add(d - n)
					}
				}
				return false
			})
		}
	}
	var r []int64
	for v := range have {
		r = append(r, v)
	}
	return r
}

// possible: the iteration can happen for character c being v.
func (s *Sc) possible(it *ai.Iter, c *Term, v int64) (bool, string) {
	sub := map[*Term]*Term{c: s.Int(v)}
	for a, val := range it.Conds {
		if !a.Mentions(c) {
			continue
		}
		b := s.Subst(a, sub)
		k, ok := b.BoolVal()
		if !ok {
			return true, fmt.Sprintf("cannot tell whether %v", a)
		}
		if k != val {
			return false, ""
		}
	}
	return true, ""
}

// cleaned: the text out is k with every character treated as required.
func (s *Sc) cleaned(st *ai.State, tr []*ai.Effect, k, out *Term, sp sanSpec) string {
	if v, ok := st.Holds(s.Eq(s.Len(k), s.Int(0))); ok && v && (out == k || out == s.Str("")) {
		return ""
	}
	if out == k {
		// every character has been looked at and is fine
		for _, ef := range tr {
			if ef.Kind != "loop" || ef.Part {
				continue
			}
			l := ef.Loop
			c := s.char(l, k, sp)
			if c == nil {
				continue
			}
			ok := true
			for _, v := range samples(sp, l.Iters) {
				if sp.keep(v) {
					continue
				}
				for _, it := range l.Iters {
					if p, _ := s.possible(it, c, v); p {
						ok = false
					}
				}
			}
			if ok {
				return ""
			}
		}
		return "a name can stay as it is although it contains other characters"
	}
	if out.Op != "each" {
		return fmt.Sprintf("%v", out)
	}
	l := s.LoopOf(out)
	c := s.char(l, k, sp)
	if c == nil || !l.Full {
		return "the text is not built from every single character"
	}
	items := s.Items(out)
	for _, v := range samples(sp, l.Iters) {
		n := 0
		for i, it := range l.Iters {
			p, bad := s.possible(it, c, v)
			if bad != "" {
				return bad
			}
			if !p {
				continue
			}
			n++
			want := []*Term{s.Str(sp.repl)}
			if sp.keep(v) {
				want = []*Term{s.CharTerm(c, !sp.bytes), s.Str(string(rune(v)))}
			}
			got := s.Cat(items[i]...)
			if got != want[0] && got != want[len(want)-1] {
				return fmt.Sprintf("character %q becomes %v", rune(v), got)
			}
		}
		if n == 0 {
			return fmt.Sprintf("nothing is written for character %q", rune(v))
		}
	}
	return ""
}

func (s *Sc) sanitizes(fn *ssa.Function, sp sanSpec) {
	s.On(fn)
	st := s.NewState()
	k := s.Sym("name", strT())
	var buf *Term
	var args []*Term
	for _, p := range fn.Params {
		if strings.HasSuffix(p.Type().String(), "bytes.Buffer") {
			buf = s.Ptr(st, "buf", p.Type())
			args = append(args, buf)
		} else {
			args = append(args, k)
		}
	}
	var old *Term
	if buf != nil {
		old = st.CellOf(s.BC(buf))
	}
	for _, x := range s.Call(st, fn, args...) {
		var out *Term
		if buf == nil {
			out = x.Vals[0]
		} else {
			out = x.St.CellOf(s.BC(buf))
			switch {
			case out == old:
				out = s.Str("")
			case out.Op == "cat" && out.A[0] == old:
				out = s.Cat(out.A[1:]...)
			default:
				s.Ok(false, "a sanitizer only appends", "the buffer becomes %v", out)
				continue
			}
		}
		s.Msgs("allowed characters are kept, every other is replaced by one", []string{s.cleaned(x.St, x.St.Trace, k, out, sp)})
	}
}

func checkC22(c *Ctx) {
	for opts, n := range []string{"no options", "no sanitizer"} {
		c.Scen("default StatsD sanitizer with "+n, func(s *Sc) {
			s.sanitizers(H, "StatsDSinkSanitizationFunc")
			for _, d := range s.statsdSinks(opts) {
				fn := s.defaultSanitizer(d)
				if !s.Ok(fn != nil, "a sanitizer is always used", "no sanitizer is used with %s", n) {
					continue
				}
				q := &Sc{Engine: ai.New(c.P), C: c, Desc: s.Desc}
				q.InitGlobals()
				q.sanitizes(fn.F, statsdSan)
			}
		})
	}
	c.Scen("names given to the StatsD sink", func(s *Sc) {
		s.sanitizers(H, "StatsDSinkSanitizationFunc")
		for _, d := range s.statsdSinks(2) {
			s.statsdRecords(d, false, func(r record, h handled, p *Term) {
				for _, it := range h.iters {
					for _, w := range d.datagrams(it.New) {
						s.sanitized(w.data, "dyn", d.san, r.job, r.event, d.prefix)
					}
					for _, a := range h.loop.Cells {
						if a.Op == "bc" {
							s.sanitized(it.St.CellOf(a), "dyn", d.san, r.job, r.event, d.prefix)
						}
					}
				}
			})
		}
	})
	c.Scen("Librato sanitizer", func(s *Sc) {
		s.sanitizers(HL, "SanitizationFunc")
		for _, cm := range s.libratoSinks() {
			san := s.F(cm.st, cm.recv, s.T(HL, "Sink"), "SanitizationFunc")
			if !s.Ok(san.Op == "func", "a new sink uses the default sanitizer", "the sanitizer is %v", san) {
				continue
			}
			q := &Sc{Engine: ai.New(c.P), C: c, Desc: s.Desc}
			q.InitGlobals()
			q.sanitizes(san.F, libratoSan)
		}
	})
	c.Scen("names given to the Librato sink", func(s *Sc) {
		s.sanitizers(HL, "SanitizationFunc")
		for _, cm := range s.libratoSinks() {
			san := s.Sym("sanitizer", s.T(HL, "SanitizationFunc"))
			s.SetF(cm.st, cm.recv, s.T(HL, "Sink"), "SanitizationFunc", san)
			cm.st.Assume(s.Eq(san, s.Nil()), false)
			for _, r := range s.emissions() {
				for _, h := range s.deliver(cm, HL, "Sink", r.method, r.args...) {
					for _, it := range h.iters {
						for _, a := range h.loop.Cells {
							if a.Op == "mc" {
								for m := it.St.CellOf(a); m.Op == "upd"; m = m.A[0] {
									s.sanitized(m.A[1], "dyn0", san, r.job, r.event)
								}
							}
						}
					}
				}
			}
		}
	})
}

// sanitized: a text contains the names only in sanitized form.
func (s *Sc) sanitized(t *Term, op string, san *Term, names ...*Term) {
	if t == nil {
		s.Ok(false, "names are sanitized", "something is written")
		return
	}
	bad := ""
	var walk func(t *Term)
	walk = func(t *Term) {
		switch {
		case t.IsApp(op) && len(t.A) > 0 && t.A[0] == san:
			return
		case t.IsApp("trunc"), t.Op == "lk":
			return // read from the cache of keys
		}
		for _, n := range names {
			if t == n {
				bad = fmt.Sprintf("%v is used as it is", n)
			}
		}
		if t.Op == "cat" || t.Op == "app" {
			for _, a := range t.A {
				walk(a)
			}
		}
	}
	walk(t)
	s.Ok(bad == "", "names are sanitized", "%s in %v", bad, t)
}

func (s *Sc) libratoSinks() []comp {
	return s.construct(HL, "New", func(st *ai.State) []*Term {
		return []*Term{s.Sym("user", strT()), s.Sym("key", strT()), s.Sym("prefix", strT())}
	})
}
