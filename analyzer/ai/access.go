package ai

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Access is one use of memory by analysed code.
type Access struct {
	Addr   *Term
	T      types.Type // type of what is accessed, if it is not a single cell
	Write  bool
	Atomic bool
	Held   map[*Term]bool // locks held (true: for writing)
	Trace  []*Effect      // what the code did before, since the start of the loop iteration
	Loop   *LoopSum
	Pos    token.Pos
	In     *ssa.Function
}

// access reports a use of memory to OnAccess.
func (e *Engine) access(fr *frame, st *State, a *Term, t types.Type, write, atomic bool, pos token.Pos) {
	if e.OnAccess == nil || a == nil {
		return
	}
	var in *ssa.Function
	if fr != nil {
		in = fr.fn
	}
	e.OnAccess(&Access{Addr: a, T: t, Write: write, Atomic: atomic, Held: st.held, Trace: st.Trace[:len(st.Trace):len(st.Trace)], Loop: e.curLoop, Pos: pos, In: in})
}

func (e *Engine) mcOf(m *Term, t types.Type) *Term {
	if m.Op == "nil" {
		return nil
	}
	return e.MC(m, t)
}

// accessExternal reports what a function outside the repository does to the memory it is given.
func (e *Engine) accessExternal(fr *frame, st *State, name string, args []*Term, at []types.Type, pos token.Pos) {
	if e.OnAccess == nil || len(args) == 0 {
		return
	}
	backing := func(i int, write bool) {
		a := args[i]
		if a.Op == "iface" {
			a = a.A[0]
		}
		if a.Op == "slice" {
			e.access(fr, st, a.A[0], nil, write, false, pos)
		} else if i < len(at) {
			if _, ok := at[i].Underlying().(*types.Slice); ok {
				e.access(fr, st, e.BK(a, at[i]), nil, write, false, pos)
			}
		}
	}
	switch {
	case strings.HasPrefix(name, "(*bytes.Buffer)."), strings.HasPrefix(name, "(*strings.Builder)."):
		read := strings.HasSuffix(name, ".Len") || strings.HasSuffix(name, ".String") || strings.HasSuffix(name, ".Bytes") || strings.HasSuffix(name, ".Cap")
		e.access(fr, st, e.BC(args[0]), nil, !read, false, pos)
	case strings.HasPrefix(name, "(*bufio."), strings.HasPrefix(name, "(*math/rand.Rand)."), strings.HasPrefix(name, "(*container/"), strings.HasPrefix(name, "(*text/"):
		e.access(fr, st, args[0], nil, true, false, pos)
	case strings.HasPrefix(name, "fmt.Fprint") && args[0].Op == "iface":
		if p, ok := args[0].T.(*types.Pointer); ok && isBufType(p.Elem()) {
			e.access(fr, st, e.BC(args[0].A[0]), nil, true, false, pos)
		}
	case strings.HasPrefix(name, "sort."), strings.HasPrefix(name, "slices.Sort"), strings.HasPrefix(name, "slices.Reverse"):
		backing(0, !strings.Contains(name, "Search") && !strings.Contains(name, "AreSorted"))
	case strings.HasPrefix(name, "maps.Copy"):
		if len(args) > 1 && len(at) > 1 {
			e.access(fr, st, e.mcOf(args[0], at[0]), nil, true, false, pos)
			e.access(fr, st, e.mcOf(args[1], at[1]), nil, false, false, pos)
		}
	case strings.HasPrefix(name, "maps.Clone"):
		if len(at) > 0 {
			e.access(fr, st, e.mcOf(args[0], at[0]), nil, false, false, pos)
		}
	case name == "runtime.ReadMemStats", name == "runtime/debug.ReadGCStats":
		e.access(fr, st, args[0], nil, true, false, pos)
	case name == "encoding/json.Unmarshal", name == "(*encoding/json.Decoder).Decode":
		if a := args[1]; a.Op == "iface" {
			if p, ok := a.T.Underlying().(*types.Pointer); ok {
				e.access(fr, st, a.A[0], p.Elem(), true, false, pos)
			}
		}
	case strings.HasPrefix(name, "sync/atomic."):
		if !strings.Contains(name, ".Load") && !strings.Contains(name, ".Store") {
			e.access(fr, st, args[0], nil, true, true, pos)
		}
	}
}
