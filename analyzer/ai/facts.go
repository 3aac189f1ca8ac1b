package ai

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// Facts is the path condition kept with an abstract state: truth values of atoms plus a conjunction of linear integer
// inequalities (term <= 0). Entailment is decided by Fourier-Motzkin elimination over the few constraints that share
// variables with the query; it is incomplete (answers "unknown") but never wrong.
type Facts struct {
	atoms map[*Term]bool
	lin   []*Term // each: t <= 0
	neq   []*Term // each: t != 0
	dead  bool
}

func newFacts() *Facts { return &Facts{atoms: map[*Term]bool{}} }

func (f *Facts) clone() *Facts {
	g := &Facts{atoms: make(map[*Term]bool, len(f.atoms)), lin: append([]*Term(nil), f.lin...), neq: append([]*Term(nil), f.neq...), dead: f.dead}
	for k, v := range f.atoms {
		g.atoms[k] = v
	}
	return g
}

// normAtom reduces a boolean term to (atom, polarity).
func normAtom(t *Term) (*Term, bool) {
	pol := true
	for t.Op == "not" {
		t = t.A[0]
		pol = !pol
	}
	return t, pol
}

// Decide returns the truth value of a boolean term under the facts, if it is determined.
func (e *Engine) Decide(f *Facts, t *Term) (val, known bool) {
	if b, ok := t.BoolVal(); ok {
		return b, true
	}
	a, pol := normAtom(t)
	v, k := e.decideAtom(f, a)
	return v == pol, k
}

// congruent: the same function applied to arguments that are equal, or integers known to be equal.
func (e *Engine) congruent(f *Facts, x, y *Term) bool {
	if x.Op != y.Op || x.S != y.S || len(x.A) != len(y.A) || len(x.A) == 0 || x.Op != "elem" && x.Op != "lk" {
		return false
	}
	for i := range x.A {
		if x.A[i] == y.A[i] {
			continue
		}
		d := e.Eq(x.A[i], y.A[i])
		if d.Op != "eq0" {
			return false
		}
		if v, k := e.decideAtom(f, d); !k || !v {
			return false
		}
	}
	return true
}

// initLen is the number of entries a map had when it was first seen.
func (e *Engine) initLen(z *Term) *Term {
	if z.T == nil || z.Op == "obj" || z.Op == "nil" {
		return nil
	}
	if _, ok := z.T.Underlying().(*types.Map); !ok {
		return nil
	}
	a := e.MC(z, z.T)
	return e.Len(e.Init(a, e.cellT[a]))
}

func (e *Engine) decideAtom(f *Facts, a *Term) (bool, bool) {
	if b, ok := a.BoolVal(); ok {
		return b, true
	}
	if v, ok := f.atoms[a]; ok {
		return v, true
	}
	switch a.Op {
	case "le0":
		x := a.A[0]
		if e.infeasible(f, e.Lin(1, -1, x)) { // x >= 1 impossible
			return true, true
		}
		if e.infeasible(f, x) {
			return false, true
		}
	case "eq0":
		x := a.A[0]
		for _, n := range f.neq {
			if n == x {
				return false, true
			}
		}
		le := e.infeasible(f, e.Lin(1, -1, x)) // x<=0
		ge := e.infeasible(f, e.Lin(1, 1, x))  // x>=0
		if le && ge {
			return true, true
		}
		if e.infeasible(f, x) || e.infeasible(f, e.Lin(0, -1, x)) {
			return false, true
		}
		// congruence: x is a variable with known atoms on an equal one -- not attempted
	case "and":
		v1, k1 := e.Decide(f, a.A[0])
		v2, k2 := e.Decide(f, a.A[1])
		if k1 && !v1 || k2 && !v2 {
			return false, true
		}
		if k1 && k2 {
			return v1 && v2, true
		}
	case "eq":
		x, y := a.A[0], a.A[1]
		if e.congruent(f, x, y) {
			return true, true
		}
		for b, v := range f.atoms {
			if !v || b.Op != "eq" {
				continue
			}
			var o, c *Term
			switch {
			case b.A[0] == x:
				o, c = b.A[1], y
			case b.A[1] == x:
				o, c = b.A[0], y
			case b.A[0] == y:
				o, c = b.A[1], x
			case b.A[1] == y:
				o, c = b.A[0], x
			default:
				continue
			}
			// x == o is known, question is x == c: same as o == c
			if r, ok := e.Eq(o, c).BoolVal(); ok {
				return r, true
			}
			if r, ok := f.atoms[e.Eq(o, c)]; ok {
				return r, true
			}
		}
		// an interface value with a known dynamic type is not nil
		if y.Op == "nil" || x.Op == "nil" {
			z := x
			if x.Op == "nil" {
				z = y
			}
			for b, v := range f.atoms {
				if v && b.Op == "is" && b.A[0] == z {
					return false, true
				}
				if v && b.Op == "has" && z.Op == "lk" && b.A[0] == z.A[0] && b.A[1] == z.A[1] && e.nonNilValues(z) {
					return false, true
				}
			}
			if z.Op == "lk" {
				if v, ok := f.atoms[e.Has(z.A[0], z.A[1])]; ok && !v {
					return true, true
				}
			}
			if d := e.initLen(z); d != nil && e.infeasible(f, d) {
				return false, true // a map with entries
			}
		}
		if v, ok := f.atoms[e.ltRaw(x, y)]; ok && v {
			return false, true
		}
		if v, ok := f.atoms[e.ltRaw(y, x)]; ok && v {
			return false, true
		}
	case "lt":
		x, y := a.A[0], a.A[1]
		if v, ok := f.atoms[e.ltRaw(y, x)]; ok && v {
			return false, true
		}
		if v, ok := f.atoms[e.Eq(x, y)]; ok && v {
			return false, true
		}
		if v, ok := f.bounded(x, y); ok {
			return v, true
		}
		for b, v := range f.atoms {
			if b.Op != "lt" || !v {
				continue
			}
			switch {
			case b.A[0] == y: // x < y < z, but not x < z
				if v, ok := f.atoms[e.ltRaw(x, b.A[1])]; ok && !v {
					return false, true
				}
			case b.A[1] == x: // z < x < y, but not z < y
				if v, ok := f.atoms[e.ltRaw(b.A[0], y)]; ok && !v {
					return false, true
				}
			case b.A[0] == x: // x < z < y
				if v, ok := f.atoms[e.ltRaw(b.A[1], y)]; ok && v {
					return true, true
				}
			}
		}
	case "app":
		if a.S == "nan" {
			for b, v := range f.atoms {
				if v && b.Op == "lt" && (b.A[0] == a.A[0] || b.A[1] == a.A[0]) {
					return false, true
				}
			}
		}
	case "is":
		x := a.A[0]
		// nil interface has no dynamic type
		if v, ok := f.atoms[e.Eq(x, e.Nil())]; ok && v {
			return false, true
		}
		if _, isIface := a.T.Underlying().(*types.Interface); !isIface {
			for b, v := range f.atoms {
				if v && b.Op == "is" && b.A[0] == x && b != a {
					if _, bi := b.T.Underlying().(*types.Interface); !bi {
						return false, true
					}
				}
			}
		} else {
			for b, v := range f.atoms {
				if v && b.Op == "is" && b.A[0] == x && b != a {
					if _, bi := b.T.Underlying().(*types.Interface); !bi {
						return types.Implements(b.T, a.T.Underlying().(*types.Interface)), true
					}
				}
			}
		}
	case "has":
		lk := e.in.mk(Term{Op: "lk", A: a.A, T: nil})
		_ = lk
		// a non-nil looked-up pointer is present
		for b, v := range f.atoms {
			if b.Op == "eq" && !v && (b.A[0].Op == "nil" || b.A[1].Op == "nil") {
				z := b.A[0]
				if z.Op == "nil" {
					z = b.A[1]
				}
				if z.Op == "lk" && z.A[0] == a.A[0] && z.A[1] == a.A[1] {
					return true, true
				}
			}
		}
		// an empty map has nothing
		if v, k := e.Decide(f, e.Eq(e.Len(a.A[0]), e.Int(0))); k && v {
			return false, true
		}
	}
	return false, false
}

// bounded decides x < y for floats, one of them constant, by what is known about the other. Less follows from a
// comparison that failed: the value may not be a number.
func (f *Facts) bounded(x, y *Term) (bool, bool) {
	z := x
	if x.Op == "const" {
		z = y
	}
	if (x.Op == "const") == (y.Op == "const") || !isFloat(z.T) {
		return false, false
	}
	le := func(p, q *Term) bool { return constant.Compare(p.C, token.LEQ, q.C) }
	number := false // known to be one
	for b, v := range f.atoms {
		switch {
		case b.IsApp("nan") && b.A[0] == z:
			if v {
				return false, true
			}
			number = true
		case b.Op == "lt" && v && (b.A[0] == z || b.A[1] == z), b.Op == "eq" && v && (b.A[0] == z && b.A[1].Op == "const" || b.A[1] == z && b.A[0].Op == "const"):
			number = true
		}
	}
	lt := func(p, q *Term) bool { return constant.Compare(p.C, token.LSS, q.C) }
	for b, v := range f.atoms {
		if b.Op != "lt" {
			continue
		}
		p, q := b.A[0], b.A[1]
		switch {
		case p == z && q.Op == "const" && z == x: // z < q known, z < y asked
			if v && le(q, y) {
				return true, true
			}
			if !v && le(y, q) {
				return false, true
			}
		case q == z && p.Op == "const" && z == x: // p < z known, z < y asked
			if v && le(y, p) {
				return false, true
			}
			if !v && number && lt(p, y) { // z <= p
				return true, true
			}
		case q == z && p.Op == "const" && z == y: // p < z known, x < z asked
			if v && le(x, p) {
				return true, true
			}
			if !v && le(p, x) {
				return false, true
			}
		case p == z && q.Op == "const" && z == y: // z < q known, x < z asked
			if v && le(q, x) {
				return false, true
			}
			if !v && number && lt(x, q) { // q <= z
				return true, true
			}
		}
	}
	return false, false
}

func (e *Engine) ltRaw(x, y *Term) *Term {
	return e.in.mk(Term{Op: "lt", A: []*Term{x, y}, T: types.Typ[types.Bool]})
}

// Assume adds a fact; it reports false if the facts become contradictory.
func (e *Engine) Assume(f *Facts, t *Term, val bool) bool {
	if f.dead {
		return false
	}
	if v, k := e.Decide(f, t); k {
		if v != val {
			f.dead = true
			return false
		}
		// still record (cheap) so that later lookups are direct
	}
	a, pol := normAtom(t)
	v := pol == val
	if a.Op == "const" {
		return true
	}
	if a.Op == "and" {
		if v {
			return e.Assume(f, a.A[0], true) && e.Assume(f, a.A[1], true)
		}
		f.atoms[a] = false
		if x, k := e.Decide(f, a.A[0]); k && x {
			return e.Assume(f, a.A[1], false)
		}
		if x, k := e.Decide(f, a.A[1]); k && x {
			return e.Assume(f, a.A[0], false)
		}
		return true
	}
	if a.Op == "le0" && !v {
		a, v = e.Not(a), true
		if b, ok := a.BoolVal(); ok {
			if !b {
				f.dead = true
			}
			return b
		}
	}
	f.atoms[a] = v
	switch a.Op {
	case "le0":
		f.lin = append(f.lin, a.A[0])
		e.tighten(f)
	case "eq0":
		if v {
			f.lin = append(f.lin, a.A[0], e.Lin(0, -1, a.A[0]))
		} else {
			f.neq = append(f.neq, a.A[0])
			e.tighten(f)
		}
	case "eq":
		if v {
			// equal lengths for equal string-like values, equality of a string with a constant fixes its length
			x, y := a.A[0], a.A[1]
			for i := 0; i < 2; i++ {
				if s, ok := y.StrVal(); ok {
					d := e.Sub(e.Len(x), e.Int(int64(len(s))))
					f.lin = append(f.lin, d, e.Lin(0, -1, d))
				}
				x, y = y, x
			}
			if x.Op == "nil" || y.Op == "nil" {
				z := x
				if x.Op == "nil" {
					z = y
				}
				if z.T != nil {
					switch z.T.Underlying().(type) {
					case *types.Slice:
						d := e.Len(z)
						f.lin = append(f.lin, d)
					case *types.Map:
						if d := e.initLen(z); d != nil {
							f.lin = append(f.lin, d)
						}
					}
				}
			}
		}
	}
	if (a.Op == "le0" || a.Op == "eq0") && e.infeasible(f, nil) {
		f.dead = true
		return false
	}
	return true
}

// tighten turns x<=0, x!=0 into x<=-1.
func (e *Engine) tighten(f *Facts) {
	for round := 0; round < 3; round++ {
		changed := false
		for _, n := range f.neq {
			for i, l := range f.lin {
				m := e.Lin(0, -1, n)
				if l == n || l == m {
					f.lin[i] = e.Lin(1, 1, l)
					changed = true
				}
			}
		}
		if !changed {
			return
		}
	}
}

// nonNegTerm: terms that are never negative.
func nonNegTerm(t *Term) bool {
	if t.Op == "app" {
		switch t.S {
		case "len", "count", "cap", "bit", "int:byte", "byteat":
			return true
		}
		return strings.HasPrefix(t.S, "wrap:")
	}
	return false
}

const fmLimit = 160

// infeasible reports that facts ∧ extra<=0 has no integer solution (extra may be nil).
func (e *Engine) infeasible(f *Facts, extra *Term) bool {
	var cs []*Term
	vars := map[*Term]bool{}
	addVars := func(t *Term) {
		if t.Op == "lin" {
			for _, a := range t.A {
				vars[a] = true
			}
		} else if t.Op != "const" {
			vars[t] = true
		}
	}
	pool := f.lin
	if extra != nil {
		if n, ok := extra.IntVal(); ok {
			if n > 0 {
				return true
			}
			return false
		}
		cs = append(cs, extra)
		addVars(extra)
		// transitively relevant constraints
		used := make([]bool, len(pool))
		for ch := true; ch; {
			ch = false
			for i, l := range pool {
				if used[i] {
					continue
				}
				rel := false
				if l.Op == "lin" {
					for _, a := range l.A {
						if vars[a] {
							rel = true
						}
					}
				} else if vars[l] {
					rel = true
				}
				if rel {
					used[i] = true
					ch = true
					cs = append(cs, l)
					addVars(l)
				}
			}
		}
	} else {
		for _, l := range pool {
			cs = append(cs, l)
			addVars(l)
		}
	}
	var vl []*Term
	for v := range vars {
		vl = append(vl, v)
	}
	sort.Slice(vl, func(i, j int) bool { return vl[i].id < vl[j].id })
	for _, v := range vl {
		if nonNegTerm(v) {
			k := int64(0)
			if v.S == "len" && v.A[0].Op == "upd" {
				k = 1
			}
			if b, ok := f.atoms[e.Eq(v, e.Int(0))]; ok && !b {
				k = 1
			}
			cs = append(cs, e.Lin(k, -1, v))
		}
		if v.Op == "app" && (v.S == "div" || v.S == "mod") {
			if d, ok := v.A[1].IntVal(); ok && d > 0 {
				// truncated division bounds for a non-negative dividend only
				if x := v.A[0]; e.nonNegSimple(f, x) {
					if v.S == "mod" {
						q := e.App("div", v.T, x, v.A[1]) // v = x - d*q
						cs = append(cs, e.Lin(0, -1, v), e.Lin(1-d, 1, v), e.Lin(0, -1, q))
						cs = append(cs, e.Lin(0, 1, v, -1, x, d, q), e.Lin(0, -1, v, 1, x, -d, q))
					} else {
						cs = append(cs, e.Lin(0, -1, v), e.Lin(0, d, v, -1, x), e.Lin(1-d, -d, v, 1, x))
					}
				}
			}
		}
	}
	return e.fm(cs)
}

// nonNegSimple: x >= 0 follows from a single constraint.
func (e *Engine) nonNegSimple(f *Facts, x *Term) bool {
	if n, ok := x.IntVal(); ok {
		return n >= 0
	}
	if nonNegTerm(x) {
		return true
	}
	m := e.Lin(0, -1, x)
	for _, l := range f.lin {
		d := e.Sub(m, l) // m - l const <= 0  ==> m <= l <= 0
		if n, ok := d.IntVal(); ok && n <= 0 {
			return true
		}
	}
	if x.Op == "lin" {
		if x.K < 0 {
			return false
		}
		for i, a := range x.A {
			if x.Co[i] < 0 || !e.nonNegSimple(f, a) {
				return false
			}
		}
		return true
	}
	return false
}

func coef(t, v *Term) int64 {
	if t == v {
		return 1
	}
	if t.Op == "lin" {
		for i, a := range t.A {
			if a == v {
				return t.Co[i]
			}
		}
	}
	return 0
}

func (e *Engine) fm(cs []*Term) bool {
	seen := map[*Term]bool{}
	var work []*Term
	add := func(t *Term) bool { // returns true on contradiction
		a := e.le0(t)
		if b, ok := a.BoolVal(); ok {
			return !b
		}
		t = a.A[0]
		if !seen[t] {
			seen[t] = true
			work = append(work, t)
		}
		return false
	}
	for _, c := range cs {
		if add(c) {
			return true
		}
	}
	for iter := 0; iter < 40; iter++ {
		cnt := map[*Term][2]int{}
		for _, t := range work {
			if t.Op == "lin" {
				for i, a := range t.A {
					c := cnt[a]
					if t.Co[i] > 0 {
						c[0]++
					} else {
						c[1]++
					}
					cnt[a] = c
				}
			} else {
				c := cnt[t]
				c[0]++
				cnt[t] = c
			}
		}
		if len(cnt) == 0 {
			return false
		}
		var vs []*Term
		for v := range cnt {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool {
			a, b := cnt[vs[i]], cnt[vs[j]]
			pa, pb := a[0]*a[1], b[0]*b[1]
			if pa != pb {
				return pa < pb
			}
			return vs[i].id < vs[j].id
		})
		v := vs[0]
		var pos, neg, rest []*Term
		for _, t := range work {
			switch c := coef(t, v); {
			case c > 0:
				pos = append(pos, t)
			case c < 0:
				neg = append(neg, t)
			default:
				rest = append(rest, t)
			}
		}
		if len(rest)+len(pos)*len(neg) > fmLimit {
			return false
		}
		work = nil
		seen = map[*Term]bool{}
		for _, t := range rest {
			if add(t) {
				return true
			}
		}
		for _, p := range pos {
			for _, n := range neg {
				cp, cn := coef(p, v), -coef(n, v)
				l := &linAcc{m: map[*Term]int64{}}
				l.add(p, cn)
				l.add(n, cp)
				if add(e.mkLin(l)) {
					return true
				}
			}
		}
	}
	return false
}
