// Package ai is a path-partitioned abstract interpreter over go/ssa.
//
// Values are hash-consed terms (access paths into symbolic inputs, fresh objects, constants, linear integer forms,
// string concatenations, map contents); nothing is executed and no concrete input is chosen.
package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is an interned abstract value. Two terms are equal iff their pointers are.
type Term struct {
	Op string
	S  string
	A  []*Term
	T  types.Type
	F  *ssa.Function
	C  constant.Value
	K  int64   // lin: constant part
	Co []int64 // lin: coefficients of A
	id int
}

func (t *Term) ID() int { return t.id }

type interner struct {
	m map[string]*Term
	n int
}

func newInterner() *interner { return &interner{m: map[string]*Term{}} }

func (in *interner) mk(t Term) *Term {
	var b strings.Builder
	b.WriteString(t.Op)
	b.WriteByte('|')
	b.WriteString(t.S)
	b.WriteByte('|')
	for i, a := range t.A {
		b.WriteString(strconv.Itoa(a.id))
		if t.Co != nil {
			b.WriteByte('*')
			b.WriteString(strconv.FormatInt(t.Co[i], 10))
		}
		b.WriteByte(',')
	}
	if t.Op == "lin" {
		b.WriteString(strconv.FormatInt(t.K, 10))
	}
	if t.F != nil {
		fmt.Fprintf(&b, "|%p", t.F)
	}
	switch t.Op {
	case "struct", "iface", "as", "is", "zero":
		b.WriteByte('|')
		b.WriteString(types.TypeString(t.T, nil))
	}
	k := b.String()
	if o := in.m[k]; o != nil {
		return o
	}
	in.n++
	t.id = in.n
	o := &t
	in.m[k] = o
	return o
}

// ---------- constructors

func (e *Engine) Const(v constant.Value, t types.Type) *Term {
	kind := ""
	switch v.Kind() {
	case constant.Bool:
		kind = "b"
	case constant.String:
		kind = "s"
	default:
		if t != nil && isFloat(t) {
			kind = "f"
			v = constant.ToFloat(v)
		} else {
			kind = "i"
			if iv := constant.ToInt(v); iv.Kind() == constant.Int {
				v = iv
			} else {
				kind = "f"
			}
		}
	}
	return e.in.mk(Term{Op: "const", S: kind + v.ExactString(), C: v, T: t})
}
func (e *Engine) Int(n int64) *Term {
	return e.in.mk(Term{Op: "const", S: "i" + strconv.FormatInt(n, 10), C: constant.MakeInt64(n), T: types.Typ[types.Int]})
}
func (e *Engine) Str(s string) *Term {
	v := constant.MakeString(s)
	return e.in.mk(Term{Op: "const", S: "s" + v.ExactString(), C: v, T: types.Typ[types.String]})
}
func (e *Engine) Bool(b bool) *Term {
	v := constant.MakeBool(b)
	return e.in.mk(Term{Op: "const", S: "b" + v.ExactString(), C: v, T: types.Typ[types.Bool]})
}
func (e *Engine) Nil() *Term                          { return e.in.mk(Term{Op: "nil"}) }
func (e *Engine) Sym(name string, t types.Type) *Term { return e.in.mk(Term{Op: "sym", S: name, T: t}) }
func (e *Engine) App(name string, t types.Type, a ...*Term) *Term {
	return e.in.mk(Term{Op: "app", S: name, A: a, T: t})
}
func (e *Engine) Fresh(name string, t types.Type) *Term {
	e.ctr++
	return e.Sym(fmt.Sprintf("%s#%d", name, e.ctr), t)
}

// NewObj makes a fresh object; the term is the pointer (or map/chan/slice reference) to it. t is the pointee type.
func (e *Engine) NewObj(kind string, t types.Type, pos token.Pos) *Term {
	e.ctr++
	o := e.in.mk(Term{Op: "obj", S: fmt.Sprintf("%s%d", kind, e.ctr), T: t})
	e.objPos[o] = pos
	return o
}

func (e *Engine) FA(base *Term, i int) *Term {
	return e.in.mk(Term{Op: "fa", S: strconv.Itoa(i), A: []*Term{base}})
}
func (e *Engine) IA(base, idx *Term) *Term {
	return e.in.mk(Term{Op: "ia", A: []*Term{base, idx}})
}
func (e *Engine) Init(addr *Term, t types.Type) *Term {
	return e.in.mk(Term{Op: "init", A: []*Term{addr}, T: t})
}
func (e *Engine) Tuple(a ...*Term) *Term { return e.in.mk(Term{Op: "tuple", A: a}) }
func (e *Engine) StructV(t types.Type, f []*Term) *Term {
	// collapse struct{field(v,0),field(v,1),...} to v
	if len(f) > 0 && f[0].Op == "field" && f[0].S == "0" {
		v := f[0].A[0]
		same := true
		for i, x := range f {
			if !(x.Op == "field" && x.S == strconv.Itoa(i) && x.A[0] == v) {
				same = false
				break
			}
		}
		if same && v.T != nil && types.Identical(v.T, t) {
			return v
		}
	}
	return e.in.mk(Term{Op: "struct", A: f, T: t})
}
func (e *Engine) Field(v *Term, i int, t types.Type) *Term {
	if v.Op == "struct" && i < len(v.A) {
		return v.A[i]
	}
	if v.Op == "zero" {
		return e.Zero(t)
	}
	return e.in.mk(Term{Op: "field", S: strconv.Itoa(i), A: []*Term{v}, T: t})
}

// Zero is the zero value of t.
func (e *Engine) Zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.Bool(false)
		case u.Info()&types.IsString != 0:
			return e.Str("")
		case u.Info()&types.IsFloat != 0:
			return e.Const(constant.MakeFloat64(0), t)
		case u.Info()&types.IsInteger != 0:
			return e.Int(0)
		}
	case *types.Struct:
		if e.atomicStruct(t) {
			return e.in.mk(Term{Op: "zero", T: t})
		}
		var f []*Term
		for i := 0; i < u.NumFields(); i++ {
			f = append(f, e.Zero(u.Field(i).Type()))
		}
		return e.StructV(t, f)
	case *types.Array:
		if u.Len() <= maxArray {
			var f []*Term
			for i := int64(0); i < u.Len(); i++ {
				f = append(f, e.Zero(u.Elem()))
			}
			return e.in.mk(Term{Op: "arr", A: f, T: t})
		}
		return e.in.mk(Term{Op: "zeros", A: []*Term{e.Int(u.Len())}, T: t})
	}
	return e.Nil()
}

const maxArray = 64

// atomicStruct: struct types declared outside the repository are opaque values, unless they have no hidden fields.
func (e *Engine) atomicStruct(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		p := n.Obj().Pkg()
		if p == nil {
			return true
		}
		if e.IsRepo(p) {
			return false
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			return true
		}
		for i := 0; i < st.NumFields(); i++ {
			if !st.Field(i).Exported() {
				return true
			}
		}
		return st.NumFields() == 0
	}
	return false
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isStringish(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		return isByte(u.Elem())
	}
	return false
}
func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// ---------- integers: linear forms

type linAcc struct {
	k int64
	m map[*Term]int64
}

func (l *linAcc) add(t *Term, c int64) {
	if c == 0 {
		return
	}
	switch t.Op {
	case "const":
		if n, ok := t.IntVal(); ok {
			l.k += c * n
			return
		}
	case "lin":
		l.k += c * t.K
		for i, a := range t.A {
			l.m[a] += c * t.Co[i]
		}
		return
	}
	l.m[t] += c
}

func (e *Engine) mkLin(l *linAcc) *Term {
	var as []*Term
	for a, c := range l.m {
		if c != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return e.Int(l.k)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && l.k == 0 && l.m[as[0]] == 1 {
		return as[0]
	}
	co := make([]int64, len(as))
	for i, a := range as {
		co[i] = l.m[a]
	}
	return e.in.mk(Term{Op: "lin", A: as, Co: co, K: l.k, T: as[0].T})
}

// Lin returns c0*x0 + c1*x1 + ... + k
func (e *Engine) Lin(k int64, pairs ...interface{}) *Term {
	l := &linAcc{k: k, m: map[*Term]int64{}}
	for i := 0; i < len(pairs); i += 2 {
		l.add(pairs[i+1].(*Term), toI64(pairs[i]))
	}
	return e.mkLin(l)
}
func (e *Engine) Add(x, y *Term) *Term { return e.Lin(0, 1, x, 1, y) }
func (e *Engine) Sub(x, y *Term) *Term { return e.Lin(0, 1, x, -1, y) }

func (t *Term) IntVal() (int64, bool) {
	if t.Op == "const" && t.C.Kind() == constant.Int {
		return constant.Int64Val(t.C)
	}
	return 0, false
}
func (t *Term) StrVal() (string, bool) {
	if t.Op == "const" && t.C.Kind() == constant.String {
		return constant.StringVal(t.C), true
	}
	return "", false
}
func (t *Term) BoolVal() (val, ok bool) {
	if t.Op == "const" && t.C.Kind() == constant.Bool {
		return constant.BoolVal(t.C), true
	}
	return false, false
}

// ---------- booleans

func (e *Engine) Not(t *Term) *Term {
	if b, ok := t.BoolVal(); ok {
		return e.Bool(!b)
	}
	if t.Op == "not" {
		return t.A[0]
	}
	if t.Op == "le0" { // not (x <= 0)  ==  -x+1 <= 0
		return e.le0(e.Lin(1, -1, t.A[0]))
	}
	return e.in.mk(Term{Op: "not", A: []*Term{t}, T: types.Typ[types.Bool]})
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// le0 is the atom "x <= 0" over integers.
func (e *Engine) le0(x *Term) *Term {
	if n, ok := x.IntVal(); ok {
		return e.Bool(n <= 0)
	}
	if x.Op == "lin" {
		g := int64(0)
		for _, c := range x.Co {
			g = gcd(g, c)
		}
		if g > 1 {
			l := &linAcc{m: map[*Term]int64{}}
			for i, a := range x.A {
				l.m[a] = x.Co[i] / g
			}
			// sum*g + k <= 0  ==  sum <= floor(-k/g)
			q := -x.K
			f := q / g
			if q%g != 0 && q < 0 {
				f--
			}
			l.k = -f
			x = e.mkLin(l)
		}
	}
	return e.in.mk(Term{Op: "le0", A: []*Term{x}, T: types.Typ[types.Bool]})
}

func (e *Engine) Eq(x, y *Term) *Term {
	if x == y {
		return e.Bool(true)
	}
	if x.Op == "const" && y.Op == "const" {
		if x.C.Kind() == constant.Bool || x.C.Kind() == constant.String || y.C.Kind() == constant.String {
			return e.Bool(false)
		}
		return e.Bool(constant.Compare(x.C, token.EQL, y.C))
	}
	if (isInt(x.T) || x.Op == "lin") && (isInt(y.T) || y.Op == "lin") {
		d := e.Sub(x, y)
		if n, ok := d.IntVal(); ok {
			return e.Bool(n == 0)
		}
		if d.Op == "lin" && d.Co[0] < 0 {
			d = e.Lin(0, -1, d)
		}
		return e.in.mk(Term{Op: "eq0", A: []*Term{d}, T: types.Typ[types.Bool]})
	}
	if b, ok := x.BoolVal(); ok {
		if b {
			return y
		}
		return e.Not(y)
	}
	if b, ok := y.BoolVal(); ok {
		if b {
			return x
		}
		return e.Not(x)
	}
	if x.Op == "nil" {
		x, y = y, x
	}
	if y.Op == "nil" {
		switch x.Op {
		case "obj", "fa", "ia", "func", "closure", "iface", "global", "slice", "struct", "const":
			return e.Bool(false)
		case "seq":
			for _, p := range x.A {
				if p.Op == "el" {
					return e.Bool(false)
				}
			}
			if len(x.A) == 0 {
				return e.Bool(false)
			}
		case "app":
			if nonNilApp[x.S] {
				return e.Bool(false)
			}
		}
	}
	if x.Op == "struct" && y.Op == "struct" && len(x.A) == len(y.A) {
		var r *Term = e.Bool(true)
		for i := range x.A {
			r = e.and(r, e.Eq(x.A[i], y.A[i]))
		}
		return r
	}
	if distinctPtr(e, x, y) || distinctPtr(e, y, x) {
		return e.Bool(false)
	}
	if x.Op == "iface" && y.Op == "iface" {
		if !types.Identical(x.T, y.T) {
			return e.Bool(false)
		}
		return e.Eq(x.A[0], y.A[0])
	}
	if c, ok := y.StrVal(); ok && c == "" && isStringish(x.T) { // s == ""  ==  len(s) == 0
		return e.Eq(e.Len(x), e.Int(0))
	}
	if c, ok := x.StrVal(); ok && c == "" && isStringish(y.T) {
		return e.Eq(e.Len(y), e.Int(0))
	}
	if x.Op == "cat" || y.Op == "cat" {
		a, b, differ := e.stripCommon(x, y)
		if differ {
			return e.Bool(false)
		}
		if a != x || b != y {
			return e.Eq(a, b)
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return e.in.mk(Term{Op: "eq", A: []*Term{x, y}, T: types.Typ[types.Bool]})
}

// stripCommon removes what two concatenations begin and end with in common, which does not change
// whether they are equal. differ: they certainly are not.
func (e *Engine) stripCommon(x, y *Term) (a, b *Term, differ bool) {
	parts := func(t *Term) []*Term {
		if t.Op == "cat" {
			return append([]*Term{}, t.A...)
		}
		if s, ok := t.StrVal(); ok && s == "" {
			return nil
		}
		return []*Term{t}
	}
	p, q := parts(x), parts(y)
	changed := false
	for len(p) > 0 && len(q) > 0 {
		if p[0] == q[0] {
			p, q, changed = p[1:], q[1:], true
			continue
		}
		s, ok1 := p[0].StrVal()
		t, ok2 := q[0].StrVal()
		if !ok1 || !ok2 {
			break
		}
		n := 0
		for n < len(s) && n < len(t) && s[n] == t[n] {
			n++
		}
		if n < len(s) && n < len(t) {
			return nil, nil, true
		}
		changed = true
		cut := func(l []*Term, s string) []*Term {
			if s == "" {
				return l[1:]
			}
			return append([]*Term{e.Str(s)}, l[1:]...)
		}
		p, q = cut(p, s[n:]), cut(q, t[n:])
	}
	for len(p) > 0 && len(q) > 0 {
		i, j := len(p)-1, len(q)-1
		if p[i] == q[j] {
			p, q, changed = p[:i], q[:j], true
			continue
		}
		s, ok1 := p[i].StrVal()
		t, ok2 := q[j].StrVal()
		if !ok1 || !ok2 {
			break
		}
		n := 0
		for n < len(s) && n < len(t) && s[len(s)-1-n] == t[len(t)-1-n] {
			n++
		}
		if n < len(s) && n < len(t) {
			return nil, nil, true
		}
		changed = true
		cut := func(l []*Term, s string) []*Term {
			l = append([]*Term{}, l[:len(l)-1]...)
			if s == "" {
				return l
			}
			return append(l, e.Str(s))
		}
		p, q = cut(p, s[:len(s)-n]), cut(q, t[:len(t)-n])
	}
	if !changed {
		return x, y, false
	}
	a, b = e.Cat(p...), e.Cat(q...)
	// a nonempty constant on one side only
	for _, z := range [][2]*Term{{a, b}, {b, a}} {
		if s, ok := z[0].StrVal(); ok && s == "" && z[1].Op == "cat" {
			for _, p := range z[1].A {
				if p.Op == "const" {
					return nil, nil, true
				}
			}
		}
	}
	return a, b, false
}

var nonNilApp = map[string]bool{"errors.New": true, "fmt.Errorf": true}

// distinctPtr: x is an object (or inside one) that certainly differs from y.
func distinctPtr(e *Engine, x, y *Term) bool {
	if x.Op != "obj" && x.Op != "global" && x.Op != "fa" && x.Op != "ia" {
		return false
	}
	rx := rootOf(x)
	if rx.Op != "obj" && rx.Op != "global" {
		return false
	}
	switch y.Op {
	case "obj", "global":
		return rx != y || x != y
	case "fa", "ia":
		ry := rootOf(y)
		if ry.Op == "obj" || ry.Op == "global" {
			return rx != ry || x.Op != "ia" && y.Op != "ia"
		}
		return rx.Op == "obj" && e.older(ry, rx)
	}
	return rx.Op == "obj" && e.older(y, rx)
}

// older: every symbol in y existed before object x was created, so y cannot denote x.
func (e *Engine) older(y, x *Term) bool {
	return !y.Any(func(t *Term) bool {
		switch t.Op {
		case "sym", "obj":
			return t.id >= x.id
		case "each", "loopval":
			return true
		}
		return false
	})
}

func (e *Engine) and(x, y *Term) *Term {
	if b, ok := x.BoolVal(); ok {
		if b {
			return y
		}
		return x
	}
	if b, ok := y.BoolVal(); ok {
		if b {
			return x
		}
		return y
	}
	return e.in.mk(Term{Op: "and", A: []*Term{x, y}, T: types.Typ[types.Bool]})
}

// Lt is x < y.
func (e *Engine) Lt(x, y *Term) *Term {
	if x.Op == "const" && y.Op == "const" {
		return e.Bool(constant.Compare(x.C, token.LSS, y.C))
	}
	if (isInt(x.T) || x.Op == "lin") && (isInt(y.T) || y.Op == "lin") {
		return e.le0(e.Lin(1, 1, x, -1, y))
	}
	if x == y {
		return e.Bool(false)
	}
	neg := func(t *Term) *Term { // -t, if that is simple
		if t.IsApp("fneg") {
			return t.A[0]
		}
		if t.Op == "const" && t.C.Kind() != constant.String {
			return e.Const(constant.UnaryOp(token.SUB, t.C, 0), t.T)
		}
		return nil
	}
	if x.IsApp("fneg") || y.IsApp("fneg") {
		if p, q := neg(x), neg(y); p != nil && q != nil {
			return e.Lt(q, p)
		}
	}
	return e.in.mk(Term{Op: "lt", A: []*Term{x, y}, T: types.Typ[types.Bool]})
}

// ---------- strings

// Cat concatenates string-domain terms.
func (e *Engine) Cat(parts ...*Term) *Term {
	var out []*Term
	var push func(p *Term)
	push = func(p *Term) {
		if p.Op == "cat" {
			for _, q := range p.A {
				push(q)
			}
			return
		}
		if p.Op == "nil" {
			return
		}
		if s, ok := p.StrVal(); ok {
			if s == "" {
				return
			}
			if n := len(out); n > 0 {
				if l, ok := out[n-1].StrVal(); ok {
					out[n-1] = e.Str(l + s)
					return
				}
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		push(p)
	}
	if len(out) == 0 {
		return e.Str("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return e.in.mk(Term{Op: "cat", A: out, T: types.Typ[types.String]})
}

// Len is len(x) for strings, slices, maps.
func (e *Engine) Len(x *Term) *Term {
	switch x.Op {
	case "const":
		if s, ok := x.StrVal(); ok {
			return e.Int(int64(len(s)))
		}
	case "nil":
		return e.Int(0)
	case "cat":
		l := &linAcc{m: map[*Term]int64{}}
		for _, p := range x.A {
			l.add(e.Len(p), 1)
		}
		return e.mkLin(l)
	case "seq":
		l := &linAcc{m: map[*Term]int64{}}
		for _, p := range x.A {
			switch p.Op {
			case "el":
				l.k++
			case "sp":
				l.add(p.A[2], 1)
				l.add(p.A[1], -1)
			case "each":
				l.add(e.App("count", types.Typ[types.Int], p), 1)
			}
		}
		return e.mkLin(l)
	case "slice":
		return e.Sub(x.A[2], x.A[1])
	case "sub":
		return e.Sub(x.A[2], x.A[1])
	case "arr":
		return e.Int(int64(len(x.A)))
	case "zeros":
		return x.A[0]
	case "aupd":
		return e.Len(x.A[0])
	case "fill":
		return e.Len(x.A[0])
	case "init":
		if x.A[0].Op == "bk" {
			return e.Len(x.A[0].A[0])
		}
		if x.T != nil {
			if at, ok := x.T.Underlying().(*types.Array); ok {
				return e.Int(at.Len())
			}
		}
	case "mempty":
		return e.Int(0)
	case "upd":
		n := int64(0)
		keys := map[*Term]bool{}
		b := x
		for b.Op == "upd" && b.A[1].Op == "const" {
			if !keys[b.A[1]] {
				keys[b.A[1]] = true
				n++
			}
			b = b.A[0]
		}
		if b.Op == "mempty" {
			return e.Int(n)
		}
	case "app":
		switch x.S {
		case "chr":
			return e.Int(1)
		case "sorted":
			return e.Len(x.A[0])
		case "keys":
			return e.Len(x.A[0])
		case "substr":
			return e.Sub(x.A[2], x.A[1])
		case "mkbytes":
			return x.A[0]
		}
	}
	return e.App("len", types.Typ[types.Int], x)
}

// ---------- printing

func (t *Term) String() string {
	var b strings.Builder
	t.print(&b, 0)
	return b.String()
}

func (t *Term) print(b *strings.Builder, d int) {
	if d > 12 {
		b.WriteString("…")
		return
	}
	switch t.Op {
	case "const":
		if s, ok := t.StrVal(); ok {
			fmt.Fprintf(b, "%q", s)
		} else {
			b.WriteString(t.C.String())
		}
	case "nil":
		b.WriteString("nil")
	case "sym":
		b.WriteString(t.S)
	case "obj":
		b.WriteString("&" + t.S)
	case "global":
		b.WriteString("&" + t.S)
	case "func", "closure":
		b.WriteString("func " + t.F.String())
	case "fa":
		t.A[0].print(b, d+1)
		b.WriteString("." + fieldName(t))
	case "ia":
		t.A[0].print(b, d+1)
		b.WriteString("[")
		t.A[1].print(b, d+1)
		b.WriteString("]")
	case "init":
		if t.A[0].Op == "fa" || t.A[0].Op == "ia" || t.A[0].Op == "global" {
			t.A[0].print(b, d+1)
		} else {
			b.WriteString("*")
			t.A[0].print(b, d+1)
		}
	case "lin":
		for i, a := range t.A {
			if i > 0 || t.Co[i] < 0 {
				if t.Co[i] < 0 {
					b.WriteString("-")
				} else {
					b.WriteString("+")
				}
			}
			c := t.Co[i]
			if c < 0 {
				c = -c
			}
			if c != 1 {
				fmt.Fprintf(b, "%d*", c)
			}
			a.print(b, d+1)
		}
		if t.K != 0 {
			fmt.Fprintf(b, "%+d", t.K)
		}
	case "le0":
		b.WriteString("(")
		t.A[0].print(b, d+1)
		b.WriteString("<=0)")
	case "eq0":
		b.WriteString("(")
		t.A[0].print(b, d+1)
		b.WriteString("==0)")
	case "eq", "lt":
		b.WriteString("(")
		t.A[0].print(b, d+1)
		if t.Op == "eq" {
			b.WriteString("==")
		} else {
			b.WriteString("<")
		}
		t.A[1].print(b, d+1)
		b.WriteString(")")
	case "not":
		b.WriteString("!")
		t.A[0].print(b, d+1)
	case "field":
		t.A[0].print(b, d+1)
		b.WriteString("." + t.S)
	case "as", "is":
		fmt.Fprintf(b, "%s<%s>(", t.Op, types.TypeString(t.T, shortQual))
		t.A[0].print(b, d+1)
		b.WriteString(")")
	case "struct":
		b.WriteString(types.TypeString(t.T, shortQual))
		fallthrough
	default:
		if t.Op != "struct" {
			b.WriteString(t.Op)
			if t.S != "" {
				b.WriteString(":" + t.S)
			}
		}
		b.WriteString("(")
		for i, a := range t.A {
			if i > 0 {
				b.WriteString(", ")
			}
			a.print(b, d+1)
		}
		b.WriteString(")")
	}
}

func shortQual(p *types.Package) string { return p.Name() }

func fieldName(t *Term) string {
	if t.T != nil {
		if st, ok := t.T.Underlying().(*types.Struct); ok {
			i, _ := strconv.Atoi(t.S)
			return st.Field(i).Name()
		}
	}
	return "f" + t.S
}

// rootOf strips field/index address steps.
func rootOf(t *Term) *Term {
	for {
		switch t.Op {
		case "fa", "ia":
			t = t.A[0]
		case "mc", "bc", "ver", "hv":
			t = t.A[0]
		default:
			return t
		}
	}
}

// Mentions reports whether sub occurs in t.
func (t *Term) Mentions(sub *Term) bool {
	seen := map[*Term]bool{}
	var f func(*Term) bool
	f = func(x *Term) bool {
		if x == sub {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, a := range x.A {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// Any reports whether pred holds for t or any sub-term.
func (t *Term) Any(pred func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var f func(*Term) bool
	f = func(x *Term) bool {
		if pred(x) {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, a := range x.A {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

func toI64(v interface{}) int64 {
	if k, ok := v.(int64); ok {
		return k
	}
	return int64(v.(int))
}
