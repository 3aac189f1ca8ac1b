// Package props states the properties of gocraft/health as rules over the abstract runs computed by package ai.
package props

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
	"verif/analyzer/load"
)

type Term = ai.Term

// Violation is one construct that breaks (or could not be shown to satisfy) the property.
type Violation struct {
	Where string // file:line
	Func  string
	Msg   string
	Key   string // stable identification for the known-findings file
}

// Ctx collects the results of one check.
type Ctx struct {
	ID       string
	P        *load.Program
	Thorough bool
	Viols    []Violation
	Funcs    map[string]bool
	Paths    int
	Loops    int
	Splits   int
	Effects  int
	Obl      int
	Scens    []string
	Rules    map[string]int
	seen     map[string]bool
}

func NewCtx(id string, p *load.Program) *Ctx {
	return &Ctx{ID: id, P: p, Funcs: map[string]bool{}, Rules: map[string]int{}, seen: map[string]bool{}}
}

func (c *Ctx) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := c.P.Fset.Position(p)
	rel, err := filepath.Rel(c.P.Root, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

func (c *Ctx) Fail(pos token.Pos, fn string, format string, a ...interface{}) {
	m := fmt.Sprintf(format, a...)
	k := fn + "|" + m
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	if len(m) > 900 {
		m = m[:900] + "..."
	}
	c.Viols = append(c.Viols, Violation{Where: c.pos(pos), Func: fn, Msg: m})
}

// Sc is one scenario: an engine, its base state and the function under analysis.
type Sc struct {
	*ai.Engine
	C    *Ctx
	Desc string
	Fnm  string
	Pos  token.Pos
}

const (
	H  = "github.com/gocraft/health"
	HB = H + "/sinks/bugsnag"
	HL = H + "/sinks/librato"
	HS = H + "/stack"
	HR = H + "/runtime_metrics"
	HD = H + "/healthd"
	HT = H + "/cmd/healthtop"
)

// Scen runs one scenario; anything the analysis cannot interpret counts as a failure of the property.
func (c *Ctx) Scen(desc string, f func(s *Sc)) {
	s := &Sc{Engine: ai.New(c.P), C: c, Desc: desc}
	if os.Getenv("HV_TIME") != "" {
		t0 := time.Now()
		defer func() { fmt.Println("   scenario", desc, time.Since(t0)) }()
	}
	c.Scens = append(c.Scens, desc)
	defer func() {
		for fn := range s.Funcs {
			c.Funcs[strings.TrimPrefix(ai.FuncName(fn), "github.com/gocraft/")] = true
		}
		c.Paths += s.Engine.Paths
		c.Loops += s.Engine.Loops
		c.Splits += s.Engine.Splits
		c.Effects += s.Engine.Effects
		if r := recover(); r != nil {
			switch u := r.(type) {
			case ai.Undecided:
				c.Fail(s.Pos, s.Fnm, "%s: cannot be decided: %s", desc, u.Msg)
			case giveUp:
				c.Fail(u.pos, u.fn, "%s: %s", desc, u.msg)
			default:
				panic(r)
			}
		}
	}()
	s.InitGlobals()
	f(s)
}

type giveUp struct {
	pos     token.Pos
	fn, msg string
}

func (s *Sc) giveUp(format string, a ...interface{}) {
	panic(giveUp{s.Pos, s.Fnm, fmt.Sprintf(format, a...)})
}

// Ok records one obligation.
func (s *Sc) Ok(cond bool, rule string, format string, a ...interface{}) bool {
	s.C.Obl++
	s.C.Rules[rule]++
	if !cond {
		s.C.Fail(s.Pos, s.Fnm, "%s: %s: %s", s.Desc, rule, fmt.Sprintf(format, a...))
	}
	return cond
}

// Msgs records an obligation with the messages found.
func (s *Sc) Msgs(rule string, msgs []string) bool {
	s.C.Obl++
	s.C.Rules[rule]++
	ok := true
	for _, m := range msgs {
		if m != "" {
			ok = false
			s.C.Fail(s.Pos, s.Fnm, "%s: %s: %s", s.Desc, rule, m)
			break
		}
	}
	return ok
}

func (s *Sc) Pkg(path string) *load.Package {
	p := s.C.P.Pkgs[path]
	if p == nil {
		s.giveUp("package %s not found", path)
	}
	return p
}

func (s *Sc) T(pkg, name string) types.Type {
	o := s.Pkg(pkg).Types.Scope().Lookup(name)
	if o == nil {
		s.giveUp("type %s.%s not found", pkg, name)
	}
	return o.Type()
}

func (s *Sc) PT(pkg, name string) types.Type { return types.NewPointer(s.T(pkg, name)) }

// Fn finds a package-level function.
func (s *Sc) Fn(pkg, name string) *ssa.Function {
	f := s.Pkg(pkg).SSA.Func(name)
	if f == nil {
		s.giveUp("function %s.%s not found", pkg, name)
	}
	return f
}

// M finds a method.
func (s *Sc) M(pkg, typ, name string) *ssa.Function {
	f := s.Method(s.T(pkg, typ), name)
	if f == nil {
		s.giveUp("method %s.%s.%s not found", pkg, typ, name)
	}
	return f
}

// ConstInt is the value of a package-level constant.
func (s *Sc) ConstInt(pkg, name string) *Term {
	o, ok := s.Pkg(pkg).Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		s.giveUp("constant %s.%s not found", pkg, name)
	}
	return s.Const(o.Val(), o.Type())
}

// On sets the function the following messages are about.
func (s *Sc) On(fn *ssa.Function) {
	s.Fnm = strings.TrimPrefix(ai.FuncName(fn), "github.com/gocraft/")
	s.Pos = fn.Pos()
}

// Call runs fn and returns its normal exits; panicking exits are reported unless allowed.
func (s *Sc) Call(st *ai.State, fn *ssa.Function, args ...*Term) []*ai.Exit {
	var r []*ai.Exit
	for _, x := range s.Run(st, fn, args) {
		if x.Kind == ai.Panics {
			s.Ok(false, "no explicit panic", "%s panics with %v", ai.FuncName(fn), x.Vals)
			continue
		}
		r = append(r, x)
	}
	if len(r) == 0 {
		s.Ok(false, "returns", "%s has no normal exit", ai.FuncName(fn))
	}
	return r
}

// Ptr is a non-nil symbolic pointer (or map etc.).
func (s *Sc) Ptr(st *ai.State, name string, t types.Type) *Term {
	x := s.Sym(name, t)
	st.Assume(s.Eq(x, s.Nil()), false)
	return x
}

// FieldPath resolves a (possibly promoted) field name of a struct type.
func fieldPath(t types.Type, name string) ([]int, types.Type) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	var pkg *types.Package
	if n, ok := types.Unalias(t).(*types.Named); ok {
		pkg = n.Obj().Pkg()
	}
	o, idx, _ := types.LookupFieldOrMethod(t, true, pkg, name)
	v, ok := o.(*types.Var)
	if !ok {
		return nil, nil
	}
	return idx, v.Type()
}

// Addr is the address of field path (dot separated) below a pointer base of (pointer to) struct type t.
func (s *Sc) Addr(st *ai.State, base *Term, t types.Type, path string) (*Term, types.Type) {
	parts := strings.Split(path, ".")
	for k, name := range parts {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		idx, ft := fieldPath(t, name)
		if idx == nil {
			s.giveUp("no field %s in %s", name, t)
		}
		cur := base
		ct := t
		for n, i := range idx {
			stt := ct.Underlying().(*types.Struct)
			cur = s.FAT(cur, i, ct)
			ct = stt.Field(i).Type()
			if n < len(idx)-1 {
				if p, ok := ct.Underlying().(*types.Pointer); ok {
					cur = st.Load(cur, ct)
					ct = p.Elem()
				}
			}
		}
		if k == len(parts)-1 {
			return cur, ft
		}
		if _, ok := ft.Underlying().(*types.Pointer); ok {
			base = st.Load(cur, ft)
		} else {
			base = cur
		}
		t = ft
	}
	return nil, nil
}

// F reads a field.
func (s *Sc) F(st *ai.State, base *Term, t types.Type, path string) *Term {
	a, ft := s.Addr(st, base, t, path)
	return st.Load(a, ft)
}

// SetF writes a field.
func (s *Sc) SetF(st *ai.State, base *Term, t types.Type, path string, v *Term) {
	a, ft := s.Addr(st, base, t, path)
	st.Store(a, v, ft)
}

// FieldV reads a field of a struct value by name.
func (s *Sc) FieldV(v *Term, t types.Type, name string) *Term {
	idx, _ := fieldPath(t, name)
	if idx == nil {
		s.giveUp("no field %s in %s", name, t)
	}
	for _, i := range idx {
		stt := t.Underlying().(*types.Struct)
		ft := stt.Field(i).Type()
		v = s.Field(v, i, ft)
		t = ft
	}
	return v
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (c *Ctx) FuncList() []string { return sortedKeys(c.Funcs) }

// Flatten walks effects including those inside loop iterations.
func Flatten(tr []*ai.Effect, f func(ef *ai.Effect, loops []*ai.LoopSum)) {
	var walk func(tr []*ai.Effect, ls []*ai.LoopSum)
	walk = func(tr []*ai.Effect, ls []*ai.LoopSum) {
		for _, ef := range tr {
			f(ef, ls)
			if ef.Kind == "loop" {
				for _, it := range ef.Loop.Iters {
					walk(it.New, append(ls[:len(ls):len(ls)], ef.Loop))
				}
			}
		}
	}
	walk(tr, nil)
}
