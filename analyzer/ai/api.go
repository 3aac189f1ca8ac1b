package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Cases runs f on st and on every refinement f asks for (through Need or a map/element lookup), and returns the
// concatenated results.
func (e *Engine) Cases(st *State, f func(*State) []string) []string {
	var out []string
	p := &path{st: st.Clone(), env: map[ssa.Value]*Term{}}
	e.withSplit(p, func(q *path) []*Exit {
		r := f(q.st)
		out = append(out, r...)
		return nil
	})
	return out
}

// Need decides cond, asking for a case distinction if necessary (only inside Cases).
func (s *State) Need(cond *Term) bool { return s.need(cond) }

// CellOf reads a special cell (buffer, map or backing contents).
func (s *State) CellOf(a *Term) *Term { return s.cell(a, s.e.cellT[a]) }

// CellType is the recorded type of a cell.
func (e *Engine) CellType(a *Term) types.Type { return e.cellT[a] }

// RootOf is the object, symbol or global an address belongs to.
func RootOf(t *Term) *Term { return rootOf(t) }

// Written lists the cells that differ from m0.
func (s *State) Written(m0 *Mem) []*Term {
	var r []*Term
	for a, v := range s.mem.m {
		if w, ok := m0.get(a); !ok || w != v {
			r = append(r, a)
		}
	}
	sortTerms(r)
	return r
}

func sortTerms(r []*Term) {
	for i := 1; i < len(r); i++ {
		for j := i; j > 0 && r[j].id < r[j-1].id; j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
}

// Raw returns the memory entry of an address.
func (s *State) Raw(a *Term) (*Term, bool) { return s.mem.get(a) }

// RawAt reads an entry of a snapshot.
func (m *Mem) RawAt(a *Term) (*Term, bool) { return m.get(a) }

// WithFacts replaces the facts of a cloned state.
func (s *State) WithFacts(f *Facts) *State {
	n := s.Clone()
	if f != nil {
		n.facts = f.clone()
	}
	return n
}

// Mods lists the cells changed generically by loops (address pattern, value pattern).
func (s *State) Mods() (r []struct {
	L         *LoopSum
	Addr, Val *Term
}) {
	for _, m := range s.mods {
		r = append(r, struct {
			L         *LoopSum
			Addr, Val *Term
		}{m.l, m.addr, m.val})
	}
	return
}

// Method finds a method of a (pointer to a) named type, promoted ones included.
func (e *Engine) Method(t types.Type, name string) *ssa.Function {
	for _, tt := range []types.Type{types.NewPointer(t), t} {
		ms := e.Prog.SSA.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return e.Prog.SSA.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

// ErrText is the text of an error value.
func (s *State) ErrText(v *Term) *Term {
	c := &callCtx{e: s.e, st: s}
	return c.strOf(v, 'v')
}

// SetInbox makes the first receive from ch yield any of the given messages or an arbitrary other one.
func (s *State) SetInbox(ch *Term, msgs ...*Term) { s.inbox[ch] = msgs }

// Forget makes the contents of a cell unknown.
func (s *State) Forget(a *Term, t types.Type) {
	if s.e.cellT[a] == nil {
		s.e.cellT[a] = t
	}
	s.set(a, s.e.Fresh("later", t))
}

// IsApp tests for an application of a named operation.
func (t *Term) IsApp(name string) bool { return t.Op == "app" && t.S == name }

// HasPrefixOp is a helper for diagnostics.
func (t *Term) HasPrefixOp(p string) bool { return strings.HasPrefix(t.Op, p) }

// AssertTo gives the terms "v holds a t" and "v as t".
func (e *Engine) AssertTo(v *Term, t types.Type) (is, val *Term) { return e.assertTerm(v, t) }

// LoopCount and OuterLoops give access to the loops analysed since a point in time that are not nested in others.
func (e *Engine) LoopCount() int { return e.loopCtr }

func (e *Engine) OuterLoops(from int) []*LoopSum {
	var r []*LoopSum
	for i := from + 1; i <= e.loopCtr; i++ {
		if l := e.loops[fmt.Sprintf("L%d", i)]; l != nil && l.Outer == nil {
			r = append(r, l)
		}
	}
	return r
}

// Fresh reports that an object or symbol was created after loop l's generic iteration started.
func (l *LoopSum) Fresh(t *Term) bool { return t.id > l.id0 }

// IsRepoStruct: a struct type declared in the repository (its fields are tracked one by one).
func (e *Engine) IsRepoStruct(t types.Type) bool { _, ok := e.isRepoStruct(t); return ok }

// Terms is the number of terms made so far: terms with a higher ID are newer.
func (e *Engine) Terms() int { return e.in.n }

// EmptyMap is the contents of an empty map.
func (e *Engine) EmptyMap(t types.Type) *Term { return e.in.mk(Term{Op: "mempty", T: t}) }

// Lk is the value stored under k in unresolved map contents c.
func (e *Engine) Lk(c, k *Term, t types.Type) *Term { return e.lkRaw(c, k, t) }

// FAdd and FMul are floating point operations as the analysis represents them.
func (e *Engine) FAdd(a, b *Term) *Term {
	return e.arith(nil, token.ADD, a, b, types.Typ[types.Float64], types.Typ[types.Float64])
}
func (e *Engine) FMul(a, b *Term) *Term {
	return e.arith(nil, token.MUL, a, b, types.Typ[types.Float64], types.Typ[types.Float64])
}

// SeqOf is the sequence made of the given parts.
func (e *Engine) SeqOf(part *Term, t types.Type) *Term { return e.seq([]*Term{part}, t) }

// FuncTerm is the value of a function.
func (e *Engine) FuncTerm(f *ssa.Function) *Term {
	return e.in.mk(Term{Op: "func", F: f, T: f.Signature})
}

// Float is a float64 constant.
func (e *Engine) Float(f float64) *Term {
	return e.Const(constant.MakeFloat64(f), types.Typ[types.Float64])
}

// Atoms lists the facts' atoms.
func (f *Facts) Atoms() []*Term {
	var r []*Term
	for a := range f.atoms {
		r = append(r, a)
	}
	sortTerms(r)
	return r
}

// FLt and FDiv are floating point comparison and division.
func (e *Engine) FLt(a, b *Term) *Term { return e.ltT(a, b, types.Typ[types.Float64]) }
func (e *Engine) FDiv(a, b *Term) *Term {
	return e.arith(nil, token.QUO, a, b, types.Typ[types.Float64], types.Typ[types.Float64])
}

// ByteAt is the byte of text s at index i.
func (e *Engine) ByteAt(s, i *Term) *Term { return e.byteAt(s, i) }

// CharTerm is the text consisting of one character (or byte).
func (e *Engine) CharTerm(x *Term, isRune bool) *Term { return e.charTerm(x, isRune) }

// HavocCell is the cell a symbol stands for the contents of at the start of a loop iteration.
func (e *Engine) HavocCell(sym *Term) *Term {
	if sym.Op != "sym" {
		return nil
	}
	for i := 1; i <= e.loopCtr; i++ {
		if l := e.loops[fmt.Sprintf("L%d", i)]; l != nil {
			if c := l.CellOfSym(sym); c != nil {
				return c
			}
		}
	}
	return nil
}

// LoopNo is the i-th loop analysed.
func (e *Engine) LoopNo(i int) *LoopSum { return e.loops[fmt.Sprintf("L%d", i)] }

// FieldName is the name of the field a field address selects.
func FieldName(a *Term) string { return fieldName(a) }
