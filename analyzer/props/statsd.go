package props

import (
	"fmt"
	"go/types"
	"strings"

	"verif/analyzer/ai"
)

const maxDatagram = 1440

// statsd is a StatsD sink constructed with symbolic options.
type statsd struct {
	s            *Sc
	cm           comp
	prefix       *Term
	skipN, skipT *Term
	san          *Term
	addr         *Term
	perms        [][]int // possible roles (job, event, suffix) of the fields of the cache's keys
}

// sanitizers: package-level functions of the sanitizer's type are kept as they are; C22 analyses them.
func (s *Sc) sanitizers(pkg, typ string) {
	bt := s.T(pkg, typ).Underlying()
	for _, fn := range s.repoFuncs() {
		if fn.Signature.Recv() == nil && fn.Parent() == nil && types.Identical(fn.Signature, bt) && s.C.P.AddrTaken()[fn] {
			s.Opaque[fn] = true
		}
	}
}

// statsdSinks constructs the sink without options (0), without (1) or with (2) a sanitizer.
func (s *Sc) statsdSinks(opts int) []*statsd {
	var r []*statsd
	d0 := &statsd{s: s}
	ot := s.T(H, "StatsDSinkOptions")
	cms := s.construct(H, "NewStatsDSink", func(st *ai.State) []*Term {
		addr := s.Sym("addr", strT())
		o := s.Nil()
		d0.prefix, d0.skipN, d0.skipT = s.Str(""), s.Bool(false), s.Bool(false)
		if opts > 0 {
			o = s.Ptr(st, "options", s.PT(H, "StatsDSinkOptions"))
			d0.prefix, d0.skipN, d0.skipT = s.F(st, o, ot, "Prefix"), s.F(st, o, ot, "SkipNestedEvents"), s.F(st, o, ot, "SkipTopLevelEvents")
			d0.san = s.F(st, o, ot, "SanitizationFunc")
			st.Assume(s.Eq(d0.san, s.Nil()), opts == 1)
			if opts == 1 {
				d0.san = nil
			}
		}
		return []*Term{addr, o}
	})
	for _, c := range cms {
		q := *d0
		q.cm = c
		for _, ef := range c.st.Trace {
			if ef.Kind == "call" && strings.HasPrefix(ef.Name, "net.Resolve") && len(ef.Args) > 1 && ef.Args[1] == s.Sym("addr", strT()) {
				q.addr = ef.Res.A[0]
			}
		}
		r = append(r, &q)
	}
	s.HeadAssume = func(st *ai.State, l *ai.LoopSum) {
		if l.Outer == nil {
			for _, p := range d0.pendings(l) {
				st.Assume(s.Lt(s.Int(maxDatagram), s.Len(st.CellOf(p))), false)
			}
		}
	}
	return r
}

// pendings: the buffers of the sink itself that the worker changes.
func (d *statsd) pendings(l *ai.LoopSum) (r []*Term) {
	for _, a := range l.Cells {
		if a.Op == "bc" && !a.Any(func(t *Term) bool { return t.Op == "lk" }) {
			r = append(r, a)
		}
	}
	return
}

// pending: the buffer that holds what is not sent yet.
func (d *statsd) pending(l *ai.LoopSum) *Term {
	ps := d.pendings(l)
	if len(ps) == 1 {
		return ps[0]
	}
	var r *Term
	for _, p := range ps {
		used := false
		for _, it := range l.Iters {
			for _, w := range d.datagrams(it.New) {
				used = used || w.data.Mentions(l.Head.CellOf(p))
			}
		}
		if used {
			if r != nil {
				return nil
			}
			r = p
		}
	}
	return r
}

type datagram struct {
	data *Term
	to   *Term
	ef   *ai.Effect
	loop bool
}

// datagrams lists what is sent.
func (d *statsd) datagrams(tr []*ai.Effect) (r []datagram) {
	Flatten(tr, func(ef *ai.Effect, ls []*ai.LoopSum) {
		switch {
		case ef.Kind == "call" && strings.HasPrefix(ef.Name, "(*net.UDPConn).Write"):
			w := datagram{data: ef.Args[1], ef: ef, loop: len(ls) > 0}
			if len(ef.Args) > 2 {
				w.to = ef.Args[2]
				if w.to.Op == "iface" {
					w.to = w.to.A[0]
				}
			}
			r = append(r, w)
		case ef.Kind == "write", ef.Kind == "invoke" && strings.HasPrefix(ef.Name, "Write"):
			w := datagram{ef: ef, loop: len(ls) > 0}
			if len(ef.Args) > 0 {
				w.data = ef.Args[0]
			}
			if len(ef.Args) > 1 {
				w.to = ef.Args[1]
			}
			r = append(r, w)
		}
	})
	return
}

// cached replaces what is read from the cache of keys by app:key(fields of the cache key).
func (d *statsd) cached(l *ai.LoopSum, st *ai.State, t *Term) *Term {
	s := d.s
	sub := map[*Term]*Term{}
	lkOf := func(t *Term) *Term {
		var r *Term
		var find func(t *Term, depth int)
		find = func(t *Term, depth int) {
			t.Any(func(x *Term) bool {
				if x.Op == "lk" && r == nil {
					r = x
				}
				if c := l.CellOfSym(x); c != nil && depth < 4 {
					find(c, depth+1)
				}
				return r != nil
			})
		}
		find(t, 0)
		return r
	}
	t.Any(func(x *Term) bool {
		if x.IsApp("trunc") {
			a, b := lkOf(x.A[0]), lkOf(x.A[1])
			if a != nil && a == b && (x.A[0].Op == "sym" || x.A[0].Op == "init") {
				sub[x] = s.App("key", strT(), a.A[1])
				return false
			}
		}
		if x.Op == "lk" && x.T != nil && isStringy(x.T) {
			sub[x] = s.App("key", strT(), x.A[1])
		}
		return false
	})
	if len(sub) == 0 {
		return t
	}
	return s.Subst(t, sub)
}

func isStringy(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}

// keyText is the text of a key, in a state inside Cases.
func (d *statsd) keyText(st *ai.State, parts ...*Term) *Term {
	s := d.s
	var r []*Term
	for _, p := range append([]*Term{d.prefix}, parts...) {
		if x, ok := p.StrVal(); ok && x == "" || !ok && st.Need(s.Eq(p, s.Str(""))) {
			continue
		}
		if len(r) > 0 {
			r = append(r, s.Str("."))
		}
		r = append(r, s.App("dyn", strT(), d.san, p))
	}
	return s.Cat(append(r, s.Str(":"))...)
}

// keyFields are the values making up a key of the cache.
func keyFields(k *Term) []*Term {
	if k.Op == "struct" || k.Op == "arr" {
		return k.A
	}
	return nil
}

func perms3() [][]int {
	return [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
}

// inserts checks everything added to the cache in an iteration: what is stored under a key must be that key's text,
// whichever record it was computed for.
func (d *statsd) inserts(l *ai.LoopSum, it *ai.Iter) []string {
	s := d.s
	var bad []string
	for _, a := range l.Cells {
		if a.Op != "mc" {
			continue
		}
		head, now := l.Head.CellOf(a), it.St.CellOf(a)
		if f := l.CellOfSym(a.A[0]); f != nil {
			if w := it.St.CellOf(f); w != a.A[0] { // the cache was replaced
				if w.Op != "obj" {
					return []string{fmt.Sprintf("the cache of keys becomes %v", w)}
				}
				now = it.St.CellOf(s.MC(w, w.T))
			}
		}
		for now != head {
			if now.Op == "del" {
				now = now.A[0]
				continue
			}
			if now.Op == "mempty" {
				break
			}
			if now.Op != "upd" {
				return []string{fmt.Sprintf("the cache of keys becomes %v", now)}
			}
			fs := keyFields(now.A[1])
			if len(fs) != 3 {
				return []string{fmt.Sprintf("keys are cached under %v, which does not determine job, event and suffix", now.A[1])}
			}
			text := d.entryText(it.St, now.A[2])
			if text == nil {
				return []string{fmt.Sprintf("the cache of keys stores %v", now.A[2])}
			}
			if d.perms == nil {
				d.perms = perms3()
			}
			var left [][]int
			for _, p := range d.perms {
				ms := s.Cases(it.St, func(st *ai.State) []string {
					if want := d.keyText(st, fs[p[0]], fs[p[1]], fs[p[2]]); want != text && !st.Is(s.Eq(want, text)) {
						return []string{fmt.Sprintf("the key %v is cached under %v", text, now.A[1])}
					}
					return nil
				})
				if len(ms) == 0 {
					left = append(left, p)
				} else {
					bad = append(bad, ms[0])
				}
			}
			d.perms = left
			if len(left) == 0 {
				return bad[:1]
			}
			now = now.A[0]
		}
	}
	return nil
}

// entryText: the text that later uses of a cache entry start with.
func (d *statsd) entryText(st *ai.State, v *Term) *Term {
	s := d.s
	if v.T != nil && isStringy(v.T) {
		return v
	}
	var buf, n *Term
	look := func(get func(i int, ft types.Type) *Term, stt *types.Struct) {
		for i := 0; i < stt.NumFields(); i++ {
			ft := stt.Field(i).Type()
			if isInt64(ft) {
				n = get(i, ft)
			} else if p, ok := ft.(*types.Pointer); ok && p.Elem().String() == "bytes.Buffer" {
				buf = get(i, ft)
			}
		}
	}
	if v.Op == "struct" {
		if stt, ok := v.T.Underlying().(*types.Struct); ok {
			look(func(i int, ft types.Type) *Term { return s.Field(v, i, ft) }, stt)
		}
	} else if v.Op == "obj" && v.T != nil {
		if stt, ok := v.T.Underlying().(*types.Struct); ok {
			look(func(i int, ft types.Type) *Term { return st.Load(s.FAT(v, i, v.T), ft) }, stt)
		}
	}
	if buf == nil || n == nil || buf.Op != "obj" {
		return nil
	}
	return s.Truncate(st, st.CellOf(s.BC(buf)), n)
}

// value is the metric's value and type.
func (d *statsd) value(st *ai.State, r record) []*Term {
	s := d.s
	ms := func() []*Term {
		if !st.Need(s.Lt(r.val, s.Int(10000000))) {
			return []*Term{s.App("dec", strT(), s.App("div", i64T(), r.val, s.Int(1000000))), s.Str("|ms\n")}
		}
		return []*Term{s.App("ffmt:f.2", strT(), s.FDiv(s.App("float", f64T(), r.val), s.Float(1e6))), s.Str("|ms\n")}
	}
	switch r.method {
	case "EmitTiming", "EmitComplete":
		return ms()
	case "EmitGauge":
		if st.Is(s.NaN(r.val)) {
			return []*Term{s.Str("NaN"), s.Str("|g\n")}
		}
		if st.Need(s.FLt(r.val, s.Float(0.1))) && st.Need(s.FLt(s.Float(-0.1), r.val)) {
			return []*Term{s.App("ffmt:f.-1", strT(), r.val), s.Str("|g\n")}
		}
		return []*Term{s.App("ffmt:f.2", strT(), r.val), s.Str("|g\n")}
	}
	return []*Term{s.Str("1|c\n")}
}

// metrics lists what a record must produce; out is the (normalised) output to compare with.
func (d *statsd) metrics(l *ai.LoopSum, st *ai.State, r record, out *Term) []*Term {
	s := d.s
	val := d.value(st, r)
	suffix := s.Str("")
	if r.method == "EmitEventErr" {
		suffix = s.Str("error")
	}
	var ms, pieces []*Term
	for _, c := range d.seen(l, st) {
		pieces = append(pieces, d.cached(l, st, c))
	}
	add := func(job, event, suffix *Term) {
		var key *Term
		find := func(t *Term) bool {
			if t.IsApp("key") {
				fs := keyFields(t.A[0])
				for _, p := range d.perms {
					if len(fs) == 3 && fs[p[0]] == job && fs[p[1]] == event && fs[p[2]] == suffix {
						key = t
					}
				}
			}
			return false
		}
		out.Any(find)
		for _, c := range pieces {
			find(c)
		}
		if key == nil {
			key = d.keyText(st, job, event, suffix)
		}
		ms = append(ms, s.Cat(append([]*Term{key}, val...)...))
	}
	if r.status != "" {
		add(r.job, s.Str(""), s.Str(statusText[r.status]))
		return ms
	}
	if !st.Need(d.skipT) {
		add(s.Str(""), r.event, suffix)
	}
	if !st.Need(d.skipN) {
		add(r.job, r.event, suffix)
	}
	return ms
}

// packed checks one iteration handling record r.
func (d *statsd) packed(l *ai.LoopSum, p *Term, it *ai.Iter, r record, sizes bool) []string {
	s := d.s
	ws := d.datagrams(it.New)
	var parts []*Term
	for _, w := range ws {
		if w.loop {
			return []string{"datagrams are sent in a loop while handling a record"}
		}
		if w.data == nil {
			return []string{"something is written at " + s.C.pos(w.ef.Pos)}
		}
		if w.to != d.addr {
			return []string{fmt.Sprintf("metrics are sent to %v", w.to)}
		}
		parts = append(parts, d.cached(l, it.St, w.data))
	}
	return s.Cases(it.St, func(st *ai.State) []string {
		left := d.cached(l, st, st.CellOf(p))
		got := s.Cat(append(append([]*Term{}, parts...), left)...)
		old := l.Head.CellOf(p)
		ms := d.metrics(l, st, r, got)
		// metrics that do not fit into a datagram of their own are dropped
		want := []*Term{old}
		for _, m := range ms {
			if st.Need(s.Lt(s.Int(maxDatagram), d.length(l, st, m))) {
				continue
			}
			want = append(want, m)
		}
		if w := s.Cat(want...); w != got && !st.Is(s.Eq(w, got)) {
			return []string{fmt.Sprintf("sent and pending: %v instead of %v", got, w)}
		}
		if !sizes {
			return nil
		}
		// whole metrics only, in every datagram
		i := 0
		for _, w := range append(append([]*Term{}, parts...), left) {
			var acc []*Term
			for i < len(want) && s.Cat(acc...) != w {
				acc = append(acc, want[i])
				i++
			}
			if s.Cat(acc...) != w {
				return []string{fmt.Sprintf("a datagram does not consist of whole metrics: %v", w)}
			}
		}
		return nil
	})
}

// length of a metric; a cached key has the length of the text it stands for.
func (d *statsd) length(l *ai.LoopSum, st *ai.State, m *Term) *Term {
	s := d.s
	// facts speak about the text as it was read from the cache
	for _, c := range d.seen(l, st) {
		if n := d.cached(l, st, c); n != c {
			m = s.Subst(m, map[*Term]*Term{n: c})
		}
	}
	return s.Len(m)
}

// seen: the pieces read from the cache that occur in the state's facts or memory.
func (d *statsd) seen(l *ai.LoopSum, st *ai.State) []*Term {
	var r []*Term
	have := map[*Term]bool{}
	find := func(t *Term) {
		t.Any(func(x *Term) bool {
			if (x.IsApp("trunc") || x.Op == "lk") && !have[x] {
				have[x] = true
				if d.cached(l, st, x) != x {
					r = append(r, x)
				}
			}
			return false
		})
	}
	for _, a := range l.Cells {
		if a.Op == "bc" {
			find(st.CellOf(a))
		}
	}
	for _, a := range st.Facts().Atoms() {
		find(a)
	}
	return r
}

// few: one kind of record and one status are enough.
func (s *Sc) statsdRecords(d *statsd, few bool, f func(r record, h handled, p *Term)) {
	for i, r := range s.emissions() {
		if few && i > 0 && r.status != "Success" {
			continue
		}
		for _, h := range s.deliver(d.cm, H, "StatsDSink", r.method, r.args...) {
			s.Ok(len(h.outs) == 0, "the worker goes on after a record", "%s makes the worker stop", r.method)
			p := d.pending(h.loop.LoopSum)
			if !s.Ok(p != nil, "metrics are gathered in one buffer", "the worker keeps no single buffer of pending metrics") {
				continue
			}
			f(r, h, p)
		}
	}
}

func checkC19(c *Ctx) {
	for opts, n := range []string{"no options", "no sanitizer", "all options"} {
		c.Scen("metrics of the StatsD sink with "+n, func(s *Sc) {
			s.sanitizers(H, "StatsDSinkSanitizationFunc")
			for _, d := range s.statsdSinks(opts) {
				if d.san == nil {
					d.san = s.defaultSanitizer(d)
				}
				if !s.Ok(d.san != nil, "a sanitizer is always used", "no sanitizer is used with %s", n) {
					continue
				}
				type item struct {
					r record
					h handled
					p *Term
				}
				var todo []item
				s.statsdRecords(d, opts < 2 && !c.Thorough, func(r record, h handled, p *Term) {
					l := h.loop.LoopSum
					for _, a := range l.Cells {
						if a.Op == "mc" {
							first := l.Pre.CellOf(a)
							if f := l.CellOfSym(a.A[0]); f != nil {
								if m := l.Pre.CellOf(f); m.Op == "obj" {
									first = l.Pre.CellOf(s.MC(m, m.T))
								}
							}
							s.Ok(first.Op == "mempty", "the cache of keys starts empty", "%v", first)
						}
					}
					for _, it := range h.iters {
						s.Msgs("cached keys depend on nothing but their cache key", d.inserts(l, it))
					}
					todo = append(todo, item{r, h, p})
				})
				for _, t := range todo {
					for _, it := range t.h.iters {
						s.Msgs("the required metrics, and no others", d.packed(t.h.loop.LoopSum, t.p, it, t.r, false))
					}
				}
			}
		})
	}
}

// defaultSanitizer: the function the constructed sink applies to names when none was given.
func (s *Sc) defaultSanitizer(d *statsd) *Term {
	var r *Term
	e := s.emissions()[0]
	for _, h := range s.deliver(d.cm, H, "StatsDSink", e.method, e.args...) {
		for _, it := range h.iters {
			for _, ef := range it.New {
				if ef.Kind == "dyn" && ef.Fn.Op == "func" && s.Opaque[ef.Fn.F] {
					r = ef.Fn
				}
			}
		}
	}
	return r
}

// sizes: what is sent and what is kept after an iteration never exceeds a datagram, and nothing empty is sent.
func (d *statsd) sizes(l *ai.LoopSum, st0 *ai.State, tr []*ai.Effect) []string {
	s := d.s
	for _, w := range d.datagrams(tr) {
		if w.loop {
			return []string{"datagrams are sent in a loop at " + s.C.pos(w.ef.Pos)}
		}
		if w.data == nil {
			return []string{"something is written at " + s.C.pos(w.ef.Pos)}
		}
		if w.to != d.addr {
			return []string{fmt.Sprintf("metrics are sent to %v", w.to)}
		}
		if ms := s.Cases(st0, func(st *ai.State) []string {
			if st.Need(s.Lt(s.Int(maxDatagram), s.Len(w.data))) {
				return []string{"a datagram sent at " + s.C.pos(w.ef.Pos) + " can be too large"}
			}
			if !st.Need(s.Lt(s.Int(0), s.Len(w.data))) {
				return []string{"the datagram sent at " + s.C.pos(w.ef.Pos) + " can be empty"}
			}
			return nil
		}); len(ms) > 0 {
			return ms
		}
	}
	for _, p := range d.pendings(l) {
		if ms := s.Cases(st0, func(st *ai.State) []string {
			if st.Need(s.Lt(s.Int(maxDatagram), s.Len(st.CellOf(p)))) {
				return []string{"more is kept pending than fits into a datagram"}
			}
			return nil
		}); len(ms) > 0 {
			return ms
		}
	}
	return nil
}

// kept: whatever was pending is sent or still pending afterwards, once and in front of everything newer.
func (d *statsd) kept(l *ai.LoopSum, p *Term, st *ai.State, tr []*ai.Effect) []string {
	s := d.s
	var parts []*Term
	for _, w := range d.datagrams(tr) {
		parts = append(parts, w.data)
	}
	old := l.Head.CellOf(p)
	got := s.Cat(append(parts, st.CellOf(p))...)
	first, rest := got, []*Term(nil)
	if got.Op == "cat" {
		first, rest = got.A[0], got.A[1:]
	}
	if first != old {
		// nothing was pending
		if v, known := st.Holds(s.Eq(s.Len(old), s.Int(0))); !known || !v {
			return []string{fmt.Sprintf("what was pending is lost: sent and pending are %v", got)}
		}
		rest = append(rest, first)
	}
	for _, t := range rest {
		if t == old {
			return []string{"what was pending is sent twice"}
		}
	}
	return nil
}

// flushed: everything pending was sent, and nothing else.
func (d *statsd) flushed(l *ai.LoopSum, p *Term, st0 *ai.State, tr []*ai.Effect) []string {
	s := d.s
	old := l.Head.CellOf(p)
	var parts []*Term
	for _, w := range d.datagrams(tr) {
		parts = append(parts, w.data)
	}
	return s.Cases(st0, func(st *ai.State) []string {
		if st.Need(s.Lt(s.Int(0), s.Len(st.CellOf(p)))) {
			return []string{fmt.Sprintf("%v is still pending", st.CellOf(p))}
		}
		if got := s.Cat(parts...); got != old && !(len(parts) == 0 && !st.Need(s.Lt(s.Int(0), s.Len(old)))) {
			return []string{fmt.Sprintf("sent %v instead of %v", got, old)}
		}
		return nil
	})
}

// theBuffer finds the pending buffer by following one event.
func (d *statsd) theBuffer() *Term {
	s := d.s
	e := s.emissions()[0]
	var p *Term
	for _, h := range s.deliver(d.cm, H, "StatsDSink", e.method, e.args...) {
		if q := d.pending(h.loop.LoopSum); q != nil {
			p = q
		}
	}
	return p
}

func checkC20(c *Ctx) {
	c.Scen("datagrams of the StatsD sink", func(s *Sc) {
		s.sanitizers(H, "StatsDSinkSanitizationFunc")
		for _, d := range s.statsdSinks(2) {
			type item struct {
				r record
				h handled
				p *Term
			}
			var todo []item
			s.statsdRecords(d, false, func(r record, h handled, p *Term) {
				l := h.loop.LoopSum
				s.Ok(l.Pre.CellOf(p) == s.Str(""), "nothing is pending at first", "%v", l.Pre.CellOf(p))
				for _, it := range h.iters {
					s.Msgs("cached keys depend on nothing but their cache key", d.inserts(l, it))
				}
				todo = append(todo, item{r, h, p})
			})
			for _, t := range todo {
				for _, it := range t.h.iters {
					s.Msgs("whole metrics, each exactly once and in order", d.packed(t.h.loop.LoopSum, t.p, it, t.r, true))
				}
			}
		}
	})
	c.Scen("any input of the StatsD worker", func(s *Sc) {
		s.sanitizers(H, "StatsDSinkSanitizationFunc")
		for _, d := range s.statsdSinks(2) {
			p := d.theBuffer()
			if !s.Ok(p != nil, "metrics are gathered in one buffer", "the worker keeps no single buffer of pending metrics") {
				continue
			}
			n := 0
			for _, l := range s.workerLoops(d.cm, d.cm.st) {
				if !l.has(p) {
					continue
				}
				n++
				for _, it := range l.Iters {
					s.Msgs("datagrams are neither too large nor empty", d.sizes(l.LoopSum, it.St, it.New))
					s.Msgs("nothing pending is lost or repeated", d.kept(l.LoopSum, p, it.St, it.New))
				}
				for _, e := range l.ends {
					if e.part {
						s.Msgs("datagrams are neither too large nor empty", d.sizes(l.LoopSum, e.x.St, e.tail))
					}
				}
			}
			s.Ok(n > 0, "there is a worker", "no worker keeps pending metrics")
		}
	})
	c.Scen("periodic flush of the StatsD sink", func(s *Sc) {
		s.sanitizers(H, "StatsDSinkSanitizationFunc")
		for _, d := range s.statsdSinks(2) {
			p := d.theBuffer()
			if !s.Ok(p != nil, "metrics are gathered in one buffer", "the worker keeps no single buffer of pending metrics") {
				continue
			}
			d.periodic(p)
		}
	})
}

func (l wloop) has(p *Term) bool {
	for _, a := range l.Cells {
		if a == p {
			return true
		}
	}
	return false
}

// periodic: a timer makes the worker send what is pending.
func (d *statsd) periodic(p *Term) {
	s := d.s
	n := 0
	for _, l := range s.workerLoops(d.cm, d.cm.st) {
		if !l.has(p) {
			continue
		}
		// the worker waits for a timer itself
		for _, it := range l.Iters {
			for _, ef := range it.New {
				if ef.Kind == "recv" && ticks(ef.Recv, l.Pre.Trace, it.New) {
					n++
					s.Msgs("the timer flushes", d.flushed(l.LoopSum, p, it.St, it.New))
				}
			}
		}
		// or is told by a goroutine that does
		var gos []*ai.Effect
		gos = append(gos, d.cm.gos...)
		for _, ef := range l.Pre.Trace {
			if ef.Kind == "go" {
				gos = append(gos, ef)
			}
		}
		for _, g := range gos {
			from := s.LoopCount()
			st := l.Pre.Clone()
			st.Trace = nil
			s.runGo(st, g)
			for _, tl := range s.OuterLoops(from) {
				timed := false
				for _, it := range tl.Iters {
					for _, ef := range it.New {
						if ef.Kind == "recv" && isTimer(ef.Recv, l.Pre.Trace, tl.Pre.Trace, it.New) || ef.Kind == "call" && ef.Name == "time.Sleep" {
							timed = true
						}
					}
				}
				if !timed {
					continue
				}
				for _, it := range tl.Breaks {
					told := false
					for _, ef := range it.New {
						told = told || ef.Kind == "recv" && !isTimer(ef.Recv, l.Pre.Trace, tl.Pre.Trace, it.New)
					}
					s.Ok(told, "the timer goes on as long as the worker does", "the goroutine that asks for flushes can end on its own")
				}
				for _, it := range tl.Iters {
					se := sends(it.New)
					if len(se) != 1 || se[0].Args[0].Any(func(t *Term) bool { return t.Op == "sym" }) {
						continue
					}
					st := d.cm.st.Clone()
					st.SetInbox(se[0].Recv, se[0].Args[0])
					for _, wl := range s.workerLoops(d.cm, st) {
						in, out := wl.got(se[0].Recv, se[0].Args[0])
						if len(in)+len(out) == 0 {
							continue
						}
						n++
						s.Ok(len(out) == 0, "the worker goes on after a flush", "the worker stops after a flush")
						for _, it := range in {
							s.Msgs("the timer flushes", d.flushed(wl.LoopSum, p, it.St, it.New))
						}
					}
				}
			}
		}
	}
	s.Ok(n > 0, "a timer flushes what is pending", "no timer makes the worker send what is pending")
}

func checkC21(c *Ctx) {
	c.Scen("requests to the StatsD sink", func(s *Sc) {
		s.sanitizers(H, "StatsDSinkSanitizationFunc")
		for _, d := range s.statsdSinks(2) {
			p := d.theBuffer()
			if !s.Ok(p != nil, "metrics are gathered in one buffer", "the worker keeps no single buffer of pending metrics") {
				continue
			}
			e := s.emissions()[0]
			var recCh *Term
			for _, h := range s.deliver(d.cm, H, "StatsDSink", e.method, e.args...) {
				recCh = h.ch
			}
			mark := s.Fresh("mark", strT()).ID()
			all := append(s.ask(d.cm, H, "StatsDSink", "Stop", true, false), s.ask(d.cm, H, "StatsDSink", "Drain", false, false)...)
			s.Ok(len(all) >= 2, "requests can be made", "%d requests", len(all))
			for _, a := range all {
				s.On(s.M(H, "StatsDSink", a.name))
				s.Ok(a.ack != nil, "drain and stop wait for their own answer", "%s does not wait", a.name)
				if a.ack == nil {
					continue
				}
				s.Ok(a.req.Args[0].Mentions(a.ack) && a.ack.Op == "obj" && a.ack.ID() > mark, "drain and stop wait for their own answer", "%s waits on %v, which other requests use as well", a.name, a.ack)
				if !a.stop {
					s.Ok(a.req.Recv == recCh, "a drain is queued behind what was emitted before", "%s is not queued with the records", a.name)
				}
				s.answered(d.cm, a, func(l wloop, st *ai.State, tr []*ai.Effect, got *ai.Effect) {
					if a.stop {
						return
					}
					s.Msgs("a drain sends everything pending", d.flushed(l.LoopSum, p, st, tr))
					acked := false
					for _, ef := range tr {
						if (ef.Kind == "send" || ef.Kind == "close") && ef.Recv == a.ack {
							acked = true
						} else if acked {
							s.Ok(len(d.datagrams([]*ai.Effect{ef})) == 0, "a drain is answered after sending", "metrics are sent after the drain was answered")
						}
					}
				})
			}
			s.On(s.M(H, "StatsDSink", "Stop"))
			s.workerRules(d.cm, all, nil)
		}
	})
}

// isTimer: ch is the channel of a timer made in one of the traces.
func isTimer(ch *Term, trs ...[]*ai.Effect) bool {
	for _, tr := range trs {
		for _, ef := range tr {
			if ef.Kind == "call" && (ef.Name == "time.Tick" || ef.Name == "time.After") && ef.Res == ch && ch != nil {
				return true
			}
		}
	}
	return false
}

// ticks: ch is the channel of a ticker made before the loop, or of a timer set again by the iteration it.
// (A timer made anew in each iteration would never fire while there is other work.)
func ticks(ch *Term, pre, it []*ai.Effect) bool {
	if ch == nil {
		return false
	}
	for _, ef := range pre {
		if ef.Kind == "call" && ef.Name == "time.Tick" && ef.Res == ch {
			for _, g := range it {
				if g.Kind == "call" && g.Recv == ch && g.Name != "(*time.Timer).Reset" {
					return false
				}
			}
			return true
		}
		if ef.Kind == "call" && ef.Name == "time.After" && ef.Res == ch {
			for _, g := range it {
				if g.Kind == "call" && g.Name == "(*time.Timer).Reset" && g.Recv == ch && g.Args[1] == ef.Args[0] {
					return true
				}
			}
		}
	}
	return false
}
