package props

import (
	"fmt"
	"go/types"

	"verif/analyzer/ai"
)

// libr is a Librato sink with an arbitrary sanitizer.
type libr struct {
	s   *Sc
	cm  comp
	t   types.Type
	san *Term
}

func (s *Sc) libratos() []*libr {
	s.sanitizers(HL, "SanitizationFunc")
	var r []*libr
	for _, cm := range s.libratoSinks() {
		d := &libr{s: s, cm: cm, t: s.T(HL, "Sink"), san: s.Sym("sanitizer", s.T(HL, "SanitizationFunc"))}
		// all of these are documented settings
		s.SetF(cm.st, cm.recv, d.t, "SanitizationFunc", d.san)
		s.SetF(cm.st, cm.recv, d.t, "Source", s.Sym("source", strT()))
		s.SetF(cm.st, cm.recv, d.t, "FlushPeriod", s.Sym("period", i64T()))
		cm.st.Assume(s.Eq(d.san, s.Nil()), false)
		r = append(r, d)
	}
	return r
}

// keys a record is counted or measured under, and the value measured (nil: counted).
func (d *libr) keys(st *ai.State, r record) ([]*Term, *Term) {
	s := d.s
	san := func(n *Term) *Term { return s.App("dyn0", strT(), d.san, n) }
	key := func(parts ...*Term) *Term {
		var ps []*Term
		if !st.Need(s.Eq(s.Sym("prefix", strT()), s.Str(""))) {
			ps = append(ps, s.Sym("prefix", strT()), s.Str("."))
		}
		for i, p := range parts {
			if i > 0 {
				ps = append(ps, s.Str("."))
			}
			ps = append(ps, p)
		}
		return s.Cat(ps...)
	}
	both := func(kind string) []*Term {
		return []*Term{key(san(r.event), s.Str(kind)), key(san(r.job), san(r.event), s.Str(kind))}
	}
	switch r.method {
	case "EmitEvent":
		return both("count"), nil
	case "EmitEventErr":
		return both("error.count"), nil
	case "EmitTiming":
		return both("timing"), s.FDiv(s.App("float", f64T(), r.val), s.Float(1e6))
	case "EmitGauge":
		return both("gauge"), r.val
	}
	return []*Term{key(san(r.job), s.Str(statusText[r.status]), s.Str("timing"))}, s.FDiv(s.App("float", f64T(), r.val), s.Float(1e6))
}

// maps: the map in a field before and after an iteration.
func (d *libr) maps(l *ai.LoopSum, st *ai.State, field string) (m0, m1 *Term, mt types.Type) {
	_, mt = fieldPath(d.t, field)
	return d.s.F(l.Head.WithFacts(st.Facts()), d.cm.recv, d.t, field), d.s.F(st, d.cm.recv, d.t, field), mt
}

// targets are the keys to look at: those of the record, and any other.
func (d *libr) targets(st0 *ai.State, r *record, f func(st *ai.State, k *Term, n int, v *Term) []string) []string {
	s := d.s
	var bad []string
	for i := 0; i < 3; i++ {
		i := i
		bad = append(bad, s.Cases(st0, func(st *ai.State) []string {
			var ks []*Term
			var v *Term
			if r != nil {
				ks, v = d.keys(st, *r)
			}
			if i > len(ks) {
				return nil
			}
			if i == len(ks) {
				k := s.Sym("anykey", strT())
				for _, x := range ks {
					if st.Need(s.Eq(k, x)) {
						return nil
					}
				}
				return f(st, k, 0, v)
			}
			n := 0
			for j, x := range ks {
				if st.Need(s.Eq(ks[i], x)) {
					n++
					if j < i {
						return nil
					}
				}
			}
			return f(st, ks[i], n, v)
		})...)
	}
	return bad
}

// counted compares the counters; r nil: nothing may change.
func (d *libr) counted(l *ai.LoopSum, st0 *ai.State, r *record) []string {
	s := d.s
	return d.targets(st0, r, func(st *ai.State, k *Term, n int, v *Term) []string {
		if v != nil {
			n = 0
		}
		m0, m1, mt := d.maps(l, st, "counters")
		if m0 != m1 {
			return []string{"the counters are replaced"}
		}
		pre := st.At(l.Head.Mem())
		c0 := pre.MapContent(m0, mt)
		v0, ok0 := pre.Lookup(c0, k, i64T())
		v1, ok1 := st.Lookup(st.MapContent(m1, mt), k, i64T())
		had, has := st.Need(ok0), st.Need(ok1)
		if has != (had || n > 0) {
			return []string{"a counter is added or removed without having been counted"}
		}
		if !has {
			return nil
		}
		if !had {
			v1 = s.Subst(v1, map[*Term]*Term{s.Lk(c0, k, i64T()): s.Int(0)})
			v0 = s.Int(0)
		}
		if w := s.Add(v0, s.Int(int64(n))); w != v1 && !st.Is(s.Eq(w, v1)) {
			return []string{fmt.Sprintf("the counter of %v becomes %v instead of %v", k, v1, w)}
		}
		return nil
	})
}

// measured compares the measurements.
func (d *libr) measured(l *ai.LoopSum, st0 *ai.State, r *record) []string {
	s := d.s
	_, mt := fieldPath(d.t, "timers")
	pt := mt.Underlying().(*types.Map).Elem()
	gt := pt.Underlying().(*types.Pointer).Elem()
	return d.targets(st0, r, func(st *ai.State, k *Term, n int, x *Term) []string {
		if x == nil {
			n = 0
		}
		m0, m1, mt := d.maps(l, st, "timers")
		if m0 != m1 {
			return []string{"the measurements are replaced"}
		}
		pre := st.At(l.Head.Mem())
		g0, ok0 := pre.Lookup(pre.MapContent(m0, mt), k, pt)
		g1, ok1 := st.Lookup(st.MapContent(m1, mt), k, pt)
		had, has := st.Need(ok0), st.Need(ok1)
		if has != (had || n > 0) {
			return []string{"a measurement is added or removed without having been taken"}
		}
		if !has {
			return nil
		}
		if had && g0 != g1 && !st.Is(s.Eq(g0, g1)) {
			return []string{"a measurement is replaced"}
		}
		if !had && !(g1.Op == "obj" && l.Fresh(g1)) {
			return []string{fmt.Sprintf("a new measurement is %v", g1)}
		}
		f := func(name string) *Term {
			_, ft := fieldPath(gt, name)
			if !had {
				return s.Zero(ft)
			}
			return s.F(pre, g0, gt, name)
		}
		cnt, sum, sq, lo, hi := f("Count"), f("Sum"), f("SumSquares"), f("Min"), f("Max")
		// by induction: the first sample sets both, and every further one is shown to keep them in order
		if had && !st.Assume(s.FLt(hi, lo), false) {
			return nil
		}
		for i := 0; i < n; i++ {
			if !had && i == 0 {
				cnt, sum, sq, lo, hi = s.Int(1), x, s.FMul(x, x), x, x
				continue
			}
			cnt, sum, sq = s.Add(cnt, s.Int(1)), s.FAdd(sum, x), s.FAdd(sq, s.FMul(x, x))
			if st.Need(s.FLt(x, lo)) {
				lo = x
			}
			if st.Need(s.FLt(hi, x)) {
				hi = x
			}
		}
		var bad []string
		for i, nm := range []string{"Count", "Sum", "SumSquares", "Min", "Max"} {
			w := []*Term{cnt, sum, sq, lo, hi}[i]
			if g := s.F(st, g1, gt, nm); g != w && !st.Is(s.Eq(g, w)) {
				bad = append(bad, fmt.Sprintf("%s becomes %v instead of %v", nm, g, w))
			}
		}
		return bad
	})
}

// untouchedBut: nothing that existed before is written except the measurements looked at above.
func (d *libr) frame(l *ai.LoopSum, st *ai.State) []string {
	s := d.s
	_, mt := fieldPath(d.t, "timers")
	gt := mt.Underlying().(*types.Map).Elem().Underlying().(*types.Pointer).Elem().Underlying()
	m0, _, _ := d.maps(l, st, "timers")
	c0, _, _ := d.maps(l, st, "counters")
	for _, a := range s.allWritten(st, l.Head.Mem()) {
		r := a
		for r.Op == "fa" || r.Op == "ia" {
			r = r.A[0]
		}
		ok := r.Op == "obj" && l.Fresh(r) || r.Op == "bk" || (r.Op == "mc" || r.Op == "bc") && r.A[0].Op == "obj" && l.Fresh(r.A[0])
		if r.Op == "mc" && (r.A[0] == m0 || r.A[0] == c0) {
			ok = true
		}
		// the measurement read from the map
		if r.Op == "lk" && a.Op == "fa" && r.T != nil {
			if p, isP := r.T.Underlying().(*types.Pointer); isP && types.Identical(p.Elem().Underlying(), gt) {
				ok = true
			}
		}
		if x, known := st.Raw(a); known && x.Op == "init" && x.A[0] == a {
			ok = true
		}
		if !ok {
			return []string{fmt.Sprintf("%v is changed as well", a)}
		}
	}
	return nil
}

func (d *libr) posts(tr []*ai.Effect) (r []*ai.Effect, loop bool) {
	Flatten(tr, func(ef *ai.Effect, ls []*ai.LoopSum) {
		if ef.Kind == "call" && isHTTPSend(ef.Name) {
			r = append(r, ef)
			loop = loop || len(ls) > 0
		}
	})
	return
}

func isHTTPSend(n string) bool {
	switch n {
	case "(*net/http.Client).Do", "(*net/http.Client).Post", "(*net/http.Client).PostForm", "(*net/http.Client).Get", "(*net/http.Client).Head",
		"net/http.Post", "net/http.Get", "net/http.Head", "net/http.PostForm", "(*net/http.Transport).RoundTrip":
		return true
	}
	return false
}

func checkC24(c *Ctx) {
	c.Scen("records of the Librato sink", func(s *Sc) {
		for _, d := range s.libratos() {
			for _, r := range s.emissions() {
				r := r
				for _, h := range s.deliver(d.cm, HL, "Sink", r.method, r.args...) {
					s.Ok(len(h.outs) == 0, "the worker goes on after a record", "%s makes the worker stop", r.method)
					for _, it := range h.iters {
						l := h.loop.LoopSum
						s.Msgs("counters of the record's keys, and no others", d.counted(l, it.St, &r))
						s.Msgs("measurements of the record's keys, and no others", d.measured(l, it.St, &r))
						s.Msgs("nothing else changes", d.frame(l, it.St))
					}
				}
			}
		}
	})
	c.Scen("new Librato sink", func(s *Sc) {
		for _, cm := range s.libratoSinks() {
			for _, f := range []string{"counters", "timers"} {
				_, mt := fieldPath(s.T(HL, "Sink"), f)
				m := s.F(cm.st, cm.recv, s.T(HL, "Sink"), f)
				s.Ok(m.Op == "obj" && cm.st.MapContent(m, mt).Op == "mempty", "the first period starts empty", "%s is %v", f, m)
			}
			s.Ok(s.F(cm.st, cm.recv, s.T(HL, "Sink"), "prefix") == s.Sym("prefix", strT()), "the configured prefix is used", "prefix")
		}
	})
}

// flushIters: the iterations of the worker in which the timer fired.
func (d *libr) flushIters(f func(l wloop, it *ai.Iter, flush bool)) {
	s := d.s
	n := 0
	for _, l := range s.workerLoops(d.cm, d.cm.st) {
		uses := false
		for _, it := range l.Iters {
			for _, ef := range it.New {
				uses = uses || ef.Kind == "recv"
			}
		}
		if !uses {
			continue
		}
		for _, it := range l.Iters {
			fl := false
			for _, ef := range it.New {
				if ef.Kind == "recv" && ticks(ef.Recv, l.Pre.Trace, it.New) {
					fl = true
				}
			}
			if fl {
				n++
			}
			f(l, it, fl)
		}
		for _, ef := range l.Pre.Trace {
			if ef.Kind == "call" && (ef.Name == "time.Tick" || ef.Name == "time.After") {
				s.Ok(len(ef.Args) == 1 && ef.Args[0] == s.Sym("period", i64T()), "a period lasts as long as configured", "the timer runs with %v", ef.Args)
			}
		}
	}
	s.Ok(n > 0, "a timer ends the period", "no timer makes the worker flush")
}

// emptied: the new period starts with nothing.
func (d *libr) emptied(l *ai.LoopSum, st *ai.State) []string {
	for _, f := range []string{"timers", "counters"} {
		_, m1, mt := d.maps(l, st, f)
		if c := st.MapContent(m1, mt); c.Op != "mempty" && !st.Is(d.s.Eq(d.s.Len(c), d.s.Int(0))) {
			return []string{fmt.Sprintf("%s still holds %v", f, c)}
		}
	}
	return nil
}

// posted checks what is sent at the end of a period.
func (d *libr) posted(l *ai.LoopSum, st0 *ai.State, tr []*ai.Effect) []string {
	s := d.s
	posts, loop := d.posts(tr)
	if loop || len(posts) > 1 {
		return []string{"more than one request is made for a period"}
	}
	// failures that keep the request from being made
	var failed bool
	var body, req *ai.Effect
	for _, ef := range tr {
		if ef.Kind != "call" {
			continue
		}
		switch ef.Name {
		case "json.Marshal", "json.MarshalIndent":
			body = ef
			failed = failed || !isNilErr(s, st0, ef.Res.A[1])
		case "net/http.NewRequest":
			req = ef
			failed = failed || !isNilErr(s, st0, ef.Res.A[1])
		}
	}
	return s.Cases(st0, func(st *ai.State) []string {
		t0, _, tt := d.maps(l, st, "timers")
		c0, _, ct := d.maps(l, st, "counters")
		pre := st.At(l.Head.Mem())
		tc, cc := pre.MapContent(t0, tt), pre.MapContent(c0, ct)
		empty := st.Need(s.Eq(s.Len(tc), s.Int(0))) && st.Need(s.Eq(s.Len(cc), s.Int(0)))
		if empty {
			if len(posts) > 0 {
				return []string{"a request is made although nothing was gathered"}
			}
			return nil
		}
		if len(posts) == 0 {
			if failed {
				return nil
			}
			return []string{"what was gathered is not posted"}
		}
		if body == nil || req == nil || posts[0].Name != "(*net/http.Client).Do" {
			return []string{"the request made is not understood"}
		}
		if posts[0].Args[1] != req.Res.A[0] {
			return []string{"another request is sent"}
		}
		if req.Args[0] != s.Str("POST") {
			return []string{fmt.Sprintf("method %v is used", req.Args[0])}
		}
		auth := false
		for _, ef := range tr {
			if ef.Kind == "call" && ef.Name == "(*net/http.Request).SetBasicAuth" && ef.Args[0] == req.Res.A[0] {
				if ef.Args[1] != s.Sym("user", strT()) || ef.Args[2] != s.Sym("key", strT()) {
					return []string{"other credentials are used"}
				}
				auth = true
			}
			if ef == posts[0] && !auth {
				return []string{"the request is not authenticated"}
			}
		}
		// body
		data := body.Args[0]
		if data.Op != "iface" {
			return []string{"the body is not understood"}
		}
		if st.At(posts[0].Mem).CellOf(s.BC(unbox(req.Args[2]))) != body.Res.A[0] {
			return []string{"the request does not carry the encoded metrics"}
		}
		v, vt := data.A[0], data.T
		at := st.At(body.Mem)
		if p, ok := vt.Underlying().(*types.Pointer); ok {
			v, vt = at.Load(v, p.Elem()), p.Elem()
		}
		fs := map[string]jsonField{}
		for _, f := range s.jsonFields(v, vt) {
			fs[f.name] = f
		}
		if f := fs["period"]; f.val != s.App("div", i64T(), s.Sym("period", i64T()), s.Int(1000000000)) {
			return []string{fmt.Sprintf("period is %v", f.val)}
		}
		if f := fs["source"]; f.val != s.Sym("source", strT()) {
			return []string{fmt.Sprintf("source is %v", f.val)}
		}
		g := fs["gauges"]
		if g.val == nil {
			return []string{"nothing is posted as gauges"}
		}
		mt, ok := g.t.Underlying().(*types.Map)
		if !ok {
			return []string{"gauges are not a map"}
		}
		k := s.Sym("anykey", strT())
		pt := tt.Underlying().(*types.Map).Elem()
		g0, okt := pre.Lookup(tc, k, pt)
		n0, okc := pre.Lookup(cc, k, i64T())
		v1, ok1 := at.Lookup(at.MapContent(g.val, mt), k, mt.Elem())
		hast, hasc, has := st.Need(okt), st.Need(okc), st.Need(ok1)
		at = at.WithFacts(st.Facts())
		v1, _ = at.Lookup(at.MapContent(g.val, mt), k, mt.Elem())
		if hast && hasc {
			return nil // cannot be: the kinds of key differ
		}
		if has != (hast || hasc) {
			return []string{"a key is left out of the post, or posted without having been gathered"}
		}
		if !has {
			return nil
		}
		x := unbox(v1)
		if hast {
			if x != g0 && !st.Is(s.Eq(x, g0)) && x != at.Load(g0, pt.Underlying().(*types.Pointer).Elem()) {
				return []string{fmt.Sprintf("%v is posted for a measurement", v1)}
			}
			return nil
		}
		if v1.Op != "iface" {
			return []string{fmt.Sprintf("%v is posted for a counter", v1)}
		}
		xt := v1.T
		if p, ok := xt.Underlying().(*types.Pointer); ok {
			x, xt = at.Load(x, p.Elem()), p.Elem()
		}
		// a value made for each counter
		for ly := at.MapContent(g.val, mt); ly.Op == "layer"; ly = ly.A[0] {
			l := s.LoopOf(ly)
			for i, ups := range s.Items(ly) {
				for _, u := range ups {
					if p, ok := v1.T.Underlying().(*types.Pointer); ok && u.Op == "updp" && u.A[2] == v1 && l.Kind == "maprange" && l.CollContent == cc && u.A[1] == l.Key {
						for _, f := range s.jsonFields(l.Iters[i].St.Load(v1.A[0], p.Elem()), p.Elem()) {
							if f.name == "value" && f.val == l.Val {
								return nil
							}
						}
					}
				}
			}
		}
		for _, f := range s.jsonFields(x, xt) {
			if f.name == "value" && (f.val == n0 || st.Is(s.Eq(f.val, n0))) {
				return nil
			}
		}
		return []string{fmt.Sprintf("%v is posted for a counter", v1)}
	})
}

func unbox(t *Term) *Term {
	if t.Op == "iface" {
		return t.A[0]
	}
	return t
}

func isNilErr(s *Sc, st *ai.State, e *Term) bool {
	v, k := st.Holds(s.Eq(e, s.Nil()))
	return k && v
}

func checkC25(c *Ctx) {
	c.Scen("periods of the Librato sink", func(s *Sc) {
		for _, d := range s.libratos() {
			s.On(s.M(HL, "Sink", "Stop"))
			d.flushIters(func(l wloop, it *ai.Iter, flush bool) {
				if flush {
					s.Msgs("a period's data is posted once and completely", d.posted(l.LoopSum, it.St, it.New))
					s.Msgs("the next period starts empty", d.emptied(l.LoopSum, it.St))
					return
				}
				ps, _ := d.posts(it.New)
				s.Ok(len(ps) == 0, "nothing is posted during a period", "a request is made at %s", func() string {
					if len(ps) > 0 {
						return s.C.pos(ps[0].Pos)
					}
					return ""
				}())
			})
		}
	})
	c.Scen("during a period of the Librato sink", func(s *Sc) {
		for _, d := range s.libratos() {
			d.flushIters(func(l wloop, it *ai.Iter, flush bool) {
				for _, f := range []string{"timers", "counters"} {
					if m0, m1, _ := d.maps(l.LoopSum, it.St, f); !flush {
						s.Ok(m0 == m1, "nothing gathered is dropped during a period", "%s are replaced", f)
					}
				}
			})
		}
	})
}
