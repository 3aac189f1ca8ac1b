package ai

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// InitGlobals interprets the package initialisers of the repository, so that package-level variables that are never
// changed afterwards are known by value. Variables that are stored to (or whose contents are changed, or whose
// address is taken) outside initialisers stay symbolic.
func (e *Engine) InitGlobals() {
	e.mutGlob = map[*ssa.Global]bool{}
	for _, rp := range e.Prog.Pkgs {
		for fn := range e.Prog.Functions() {
			if fn.Pkg == rp.SSA && !isInit(fn) {
				e.scanGlobals(fn)
			}
		}
	}
	var paths []string
	for p := range e.Prog.Pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	done := map[string]bool{}
	var visit func(p string)
	visit = func(p string) {
		rp := e.Prog.Pkgs[p]
		if rp == nil || done[p] {
			return
		}
		done[p] = true
		for _, i := range rp.Types.Imports() {
			visit(i.Path())
		}
		e.initPkg(rp.SSA)
	}
	for _, p := range paths {
		visit(p)
	}
}

func isInit(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Signature.Recv() == nil && (fn.Name() == "init" || len(fn.Name()) > 5 && fn.Name()[:5] == "init#")
}

func (e *Engine) scanGlobals(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				g, ok := (*op).(*ssa.Global)
				if !ok {
					continue
				}
				if !readOnlyUse(ins, g, 0) {
					e.mutGlob[g] = true
				}
			}
		}
	}
}

// readOnlyUse: instruction ins uses address v only to read through it (and the read value is not used to write).
func readOnlyUse(ins ssa.Instruction, v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	refsOK := func(x ssa.Value) bool {
		rs := x.Referrers()
		if rs == nil {
			return false
		}
		for _, r := range *rs {
			if !readOnlyUse(r, x, depth+1) {
				return false
			}
		}
		return true
	}
	switch x := ins.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return true
		}
		switch x.Type().Underlying().(type) {
		case *types.Map, *types.Slice, *types.Pointer, *types.Array:
			return refsOK(x)
		}
		return true
	case *ssa.FieldAddr:
		return refsOK(x)
	case *ssa.IndexAddr:
		return x.X == v && refsOK(x) || x.X != v
	case *ssa.Store:
		return false
	case *ssa.MapUpdate:
		return x.Map != v
	case *ssa.Slice, *ssa.Phi, *ssa.ChangeType:
		return refsOK(x.(ssa.Value))
	case *ssa.Lookup, *ssa.Index, *ssa.Range, *ssa.Field, *ssa.BinOp, *ssa.DebugRef, *ssa.If, *ssa.Extract, *ssa.MakeInterface, *ssa.Return:
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap" || b.Name() == "append" && len(x.Call.Args) > 1 && x.Call.Args[1] == v && x.Call.Args[0] != v
		}
		// values (not addresses of globals) may be passed on
		_, isG := v.(*ssa.Global)
		if isG {
			return false
		}
		f := x.Call.StaticCallee()
		if f == nil || len(f.Blocks) == 0 {
			_, isMap := v.Type().Underlying().(*types.Map)
			return !isMap && f != nil && f.Pkg != nil && (f.Pkg.Pkg.Path() == "strings" || f.Pkg.Pkg.Path() == "fmt" || f.Pkg.Pkg.Path() == "bytes")
		}
		for i, a := range x.Call.Args {
			if a == v && !refsOK(f.Params[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func (e *Engine) initPkg(sp *ssa.Package) {
	fn := sp.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		return
	}
	st := e.NewState()
	if g, ok := sp.Members["init$guard"].(*ssa.Global); ok {
		st.Store(e.Global(g), e.Bool(false), types.Typ[types.Bool])
	}
	var exits []*Exit
	bad := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(Undecided); ok {
					bad = true
					return
				}
				panic(r)
			}
		}()
		exits = e.Run(st, fn, nil)
	}()
	if bad {
		return
	}
	var rets []*Exit
	for _, x := range exits {
		if x.Kind == Ret {
			rets = append(rets, x)
		}
	}
	if len(rets) == 0 {
		return
	}
	n := e.NewState()
	first := rets[0].St
	// what the initialiser left untouched has its zero value
	whole := true
	for _, r := range rets {
		whole = whole && len(r.St.mods) == 0
		for o := range r.St.havoc {
			if o.Op == "global" {
				whole = false
			}
		}
	}
	if whole {
		e.known[sp] = true
	}
	for a, v := range first.mem.m {
		same := true
		for _, r := range rets[1:] {
			if w, ok := r.St.mem.get(a); !ok || w != v {
				same = false
			}
		}
		r := rootOf(a)
		if r.Op == "global" && e.isMutGlobal(r) {
			continue
		}
		if same {
			n.set(a, v)
		} else {
			n.set(a, e.Fresh("init", e.cellT[a]))
		}
	}
	for _, r := range rets[1:] {
		for a := range r.St.mem.m {
			if _, ok := n.mem.get(a); !ok && (rootOf(a).Op == "obj" || rootOf(a).Op == "global" && !e.isMutGlobal(rootOf(a))) {
				n.set(a, e.Fresh("init", e.cellT[a]))
			}
		}
	}
	n.Trace, n.Obl = nil, nil
	e.base = n
}

// knownGlobal: a variable that keeps the value its package's initialiser gave it.
func (e *Engine) knownGlobal(t *Term) bool {
	g := e.globalOf[t]
	return g != nil && g.Pkg != nil && e.known[g.Pkg] && !e.mutGlob[g]
}

func (e *Engine) isMutGlobal(t *Term) bool {
	for g, gt := range e.globals {
		if gt == t {
			return e.mutGlob[g]
		}
	}
	return true
}
