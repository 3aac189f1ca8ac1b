package ai

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	e    *Engine
	fr   *frame
	st   *State
	name string
	args []*Term
	sig  *types.Signature
	pos  token.Pos
	fn   *ssa.Function
}

type model func(c *callCtx) []*Exit

func (c *callCtx) ret(vals ...*Term) []*Exit {
	return []*Exit{{St: c.st, Kind: Ret, Vals: vals}}
}

// pure: result terms are functions of the arguments.
func (c *callCtx) pure() []*Exit {
	n := c.sig.Results().Len()
	var vals []*Term
	for i := 0; i < n; i++ {
		nm := c.name
		if n > 1 {
			nm += "#" + string(rune('0'+i))
		}
		v := c.e.App(nm, c.sig.Results().At(i).Type(), c.args...)
		if n == 1 {
			if f := c.e.fold(v, c.args); f != nil {
				v = f
			}
		}
		vals = append(vals, v)
	}
	return c.ret(vals...)
}

func (c *callCtx) call() []*Exit {
	return c.e.opaqueCall(c.fr, c.st, c.sig, c.name, c.args, c.pos)
}

// fallible records a call whose last result is an error and whose other results are only valid without error.
func (c *callCtx) havocArg(i int, a *Term) {
	e := c.e
	switch a.Op {
	case "obj":
		if strings.HasPrefix(a.S, "chan") {
			return
		}
		c.st.havocRoot(a)
	case "iface":
		c.havocArg(i, a.A[0])
	case "slice":
		c.st.set(a.A[0], e.Fresh("hvback", e.cellT[a.A[0]]))
	case "fa":
		c.st.havocUnder(a)
	}
}

// havocRoot makes everything directly inside object o unknown.
func (s *State) havocRoot(o *Term) {
	for a := range s.mem.m {
		if rootOf(a) == o {
			s.set(a, s.e.Fresh("hv", s.e.cellT[a]))
		}
	}
	s.havoc[o] = true
}

func (s *State) havocUnder(a *Term) {
	var under func(x *Term) bool
	under = func(x *Term) bool {
		for {
			if x == a {
				return true
			}
			switch x.Op {
			case "fa", "ia", "mc", "bc":
				x = x.A[0]
			default:
				return false
			}
		}
	}
	for x := range s.mem.m {
		if under(x) {
			s.set(x, s.e.Fresh("hv", s.e.cellT[x]))
		}
	}
	if t := s.e.cellT[a]; t != nil {
		s.Store(a, s.freshOf("hv", t), t)
	}
}

func (s *State) freshOf(n string, t types.Type) *Term {
	if st, ok := s.e.isRepoStruct(t); ok {
		f := make([]*Term, st.NumFields())
		for i := range f {
			f[i] = s.freshOf(n+"."+st.Field(i).Name(), st.Field(i).Type())
		}
		return s.e.StructV(t, f)
	}
	return s.e.Fresh(n, t)
}

// ---------- buffers

func (c *callCtx) buf(p *Term) *Term { return c.st.cell(c.e.BC(p), types.Typ[types.String]) }
func (c *callCtx) bufAppend(p, s *Term) {
	cur := c.buf(p)
	c.st.set(c.e.BC(p), c.e.Cat(cur, s))
}

func (e *Engine) charTerm(x *Term, isRune bool) *Term {
	if n, ok := x.IntVal(); ok {
		if isRune {
			return e.Str(string(rune(n)))
		}
		if n < 128 {
			return e.Str(string(rune(n)))
		}
	}
	if isRune {
		return e.App("runestr", types.Typ[types.String], x)
	}
	return e.App("chr", types.Typ[types.String], x)
}

// dec is the decimal representation of an integer.
func (e *Engine) dec(x *Term) *Term {
	if x.Op == "const" {
		return e.Str(x.C.ExactString())
	}
	return e.App("dec", types.Typ[types.String], x)
}

// StrOf renders a value the way fmt's %v does.
func (c *callCtx) strOf(v *Term, verb byte) *Term {
	e := c.e
	if v.Op == "iface" {
		t, x := v.T, v.A[0]
		// Error / String methods
		if verb == 'v' || verb == 's' {
			if r := c.methodStr(v, "Error"); r != nil {
				return r
			}
			if r := c.methodStr(v, "String"); r != nil {
				return r
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsString != 0:
				if verb == 'v' || verb == 's' {
					return x
				}
				if verb == 'q' {
					return e.App("quote", types.Typ[types.String], x)
				}
			case u.Info()&types.IsInteger != 0:
				if verb == 'v' || verb == 'd' {
					return e.dec(x)
				}
				if verb == 'c' {
					return e.charTerm(x, true)
				}
			case u.Info()&types.IsFloat != 0:
				if verb == 'v' {
					verb = 'g'
				}
				return e.fmtFloat(x, verb, "")
			case u.Info()&types.IsBoolean != 0:
				if b, ok := x.BoolVal(); ok {
					if b {
						return e.Str("true")
					}
					return e.Str("false")
				}
			}
		case *types.Slice:
			if isByte(u.Elem()) && verb == 's' {
				return x
			}
		}
		return e.App("fmt%"+string(verb), types.Typ[types.String], v)
	}
	if v.T != nil && (verb == 'v' || verb == 's') {
		if it, ok := v.T.Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
			for i := 0; i < it.NumMethods(); i++ {
				if it.Method(i).Name() == "Error" {
					return e.App("Error", types.Typ[types.String], v)
				}
			}
		}
	}
	if v.Op == "app" && (v.S == "errors.New" || v.S == "fmt.Errorf") && (verb == 'v' || verb == 's') {
		return v.A[0]
	}
	return e.App("fmt%"+string(verb), types.Typ[types.String], v)
}

func (e *Engine) fmtFloat(x *Term, verb byte, prec string) *Term {
	if x.Op == "const" && verb == 'g' && prec == "" {
		f, _ := constant.Float64Val(x.C)
		return e.Str(strconvG(f))
	}
	return e.App("ffmt:"+string(verb)+prec, types.Typ[types.String], x)
}

// methodStr calls a repository Error/String method of a boxed value, if it has one and yields a single result.
func (c *callCtx) methodStr(v *Term, name string) *Term {
	e := c.e
	sel := e.Prog.SSA.MethodSets.MethodSet(v.T).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	sig := sel.Type().(*types.Signature)
	if sig.Params().Len() != 0 || sig.Results().Len() != 1 || !isStringT(sig.Results().At(0).Type()) {
		return nil
	}
	fn := e.Prog.SSA.MethodValue(sel)
	if fn == nil || len(fn.Blocks) == 0 || !e.inlinable(fn) {
		return e.App(name, types.Typ[types.String], v)
	}
	outs := e.callFn(c.fr, c.st.Clone(), fn, []*Term{v.A[0]}, nil, false)
	if len(outs) == 1 && outs[0].Kind == Ret {
		return outs[0].Vals[0]
	}
	// a case distinction inside the method: surface it
	for _, o := range outs {
		for a := range o.St.facts.atoms {
			if _, k := c.st.Holds(a); !k {
				panic(splitReq{a})
			}
		}
	}
	return e.App(name, types.Typ[types.String], v)
}

// format interprets a constant format string.
func (c *callCtx) format(f *Term, va *Term) *Term {
	e := c.e
	fs, ok := f.StrVal()
	if !ok {
		return e.App("Sprintf", types.Typ[types.String], f, c.varargs(va))
	}
	args := c.varargList(va)
	if args == nil && va.Op != "nil" {
		return e.App("Sprintf", types.Typ[types.String], f, c.varargs(va))
	}
	var parts []*Term
	ai := 0
	for i := 0; i < len(fs); {
		j := strings.IndexByte(fs[i:], '%')
		if j < 0 {
			parts = append(parts, e.Str(fs[i:]))
			break
		}
		parts = append(parts, e.Str(fs[i:i+j]))
		i += j + 1
		if i >= len(fs) {
			parts = append(parts, e.Str("%!(NOVERB)"))
			break
		}
		st := i
		for i < len(fs) && strings.IndexByte("+-# 0123456789.", fs[i]) >= 0 {
			i++
		}
		if i >= len(fs) {
			break
		}
		flags, verb := fs[st:i], fs[i]
		i++
		if verb == '%' {
			parts = append(parts, e.Str("%"))
			continue
		}
		if ai >= len(args) {
			parts = append(parts, e.Str("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := args[ai]
		ai++
		if flags == "" {
			parts = append(parts, c.strOf(a, verb))
		} else if a.Op == "iface" && isFloat(a.T) {
			parts = append(parts, e.fmtFloat(a.A[0], verb, flags))
		} else {
			parts = append(parts, e.App("fmt%"+flags+string(verb), types.Typ[types.String], a))
		}
	}
	if ai < len(args) {
		parts = append(parts, e.App("fmtEXTRA", types.Typ[types.String], args[ai:]...))
	}
	return e.Cat(parts...)
}

func (c *callCtx) varargs(va *Term) *Term {
	return c.st.Seq(va, types.NewSlice(types.NewInterfaceType(nil, nil)))
}

func (c *callCtx) varargList(va *Term) []*Term {
	s := c.varargs(va)
	if s.Op != "seq" && s.Op != "arr" {
		return nil
	}
	res := []*Term{}
	for _, p := range s.A {
		if s.Op == "arr" {
			res = append(res, p)
			continue
		}
		if p.Op != "el" {
			return nil
		}
		res = append(res, p.A[0])
	}
	return res
}

// sprint joins operands like fmt.Sprint (ln=false) or Sprintln.
func (c *callCtx) sprint(va *Term, ln bool) *Term {
	e := c.e
	args := c.varargList(va)
	if args == nil && va.Op != "nil" {
		return e.App("Sprint", types.Typ[types.String], c.varargs(va))
	}
	var parts []*Term
	isStr := func(t *Term) bool { return t.Op == "iface" && isStringT(t.T) }
	for i, a := range args {
		if i > 0 && (ln || !isStr(a) && !isStr(args[i-1])) {
			parts = append(parts, e.Str(" "))
		}
		parts = append(parts, c.strOf(a, 'v'))
	}
	if ln {
		parts = append(parts, e.Str("\n"))
	}
	return e.Cat(parts...)
}

// writeTo appends to a known buffer or records a canonical Write effect on an unknown writer.
func (c *callCtx) writeTo(w, data *Term) []*Term {
	e := c.e
	n := e.Len(data)
	if w.Op == "iface" && isBufPtr(w.T) {
		c.bufAppend(w.A[0], data)
		return []*Term{n, e.Nil()}
	}
	n = e.Fresh("nwritten", types.Typ[types.Int])
	er := e.Fresh("werr", types.Universe.Lookup("error").Type())
	in := c.inFn()
	if w.Op == "iface" { // a concrete writer: if the repository defines its Write, run it is not attempted
		if w.T.String() == "*bufio.Writer" {
			cell := e.special("bufio", w.A[0], types.Typ[types.String])
			cur := c.st.cell(cell, types.Typ[types.String])
			if cur.Op == "init" {
				cur = e.Str("")
			}
			c.st.set(cell, e.Cat(cur, data))
			return []*Term{e.Len(data), e.Nil()}
		}
	}
	c.st.emit(&Effect{Kind: "write", Name: "Write", Recv: w, Args: []*Term{data}, Res: e.Tuple(n, er), Pos: c.pos, In: in})
	return []*Term{n, er}
}

func (c *callCtx) inFn() *ssa.Function {
	if c.fr != nil {
		return c.fr.fn
	}
	return nil
}

func errT() types.Type { return types.Universe.Lookup("error").Type() }

// outcome forks a fallible call into success and failure.
func (c *callCtx) fallible(okVals func(st *State, ef *Effect) []*Term, badVals func(st *State, ef *Effect) []*Term) []*Exit {
	e := c.e
	bad := c.st.Clone()
	ef := c.st.emit(&Effect{Kind: "call", Name: c.name, Args: c.args, Pos: c.pos, In: c.inFn()})
	vs := append(okVals(c.st, ef), e.Nil())
	ef.Res = e.Tuple(vs...)
	ef2 := bad.emit(&Effect{Kind: "call", Name: c.name, Args: c.args, Pos: c.pos, In: c.inFn()})
	er := e.Fresh("err."+shortName(c.name), errT())
	bad.Assume(e.Eq(er, e.Nil()), false)
	bs := append(badVals(bad, ef2), er)
	ef2.Res = e.Tuple(bs...)
	return []*Exit{{St: c.st, Kind: Ret, Vals: vs}, {St: bad, Kind: Ret, Vals: bs}}
}

func (c *callCtx) withName(n string) *callCtx { d := *c; d.name = n; return &d }

func (e *Engine) nowTerm(st *State, c *callCtx) *Term {
	t := e.Fresh("now", c.sig.Results().At(0).Type())
	st.Assume(e.Eq(t, e.Zero(t.T)), false)
	st.emit(&Effect{Kind: "call", Name: "time.Now", Res: t, Pos: c.pos, In: c.inFn()})
	return t
}

// before: a comes before b; comparisons with a time plus a duration are comparisons of durations.
func (e *Engine) before(a, b *Term) *Term {
	d := types.Typ[types.Int64]
	switch {
	case a.IsApp("time.Add") && !b.IsApp("time.Add"):
		return e.Lt(a.A[1], e.App("time.Sub", d, b, a.A[0]))
	case b.IsApp("time.Add") && !a.IsApp("time.Add"):
		return e.Lt(e.App("time.Sub", d, a, b.A[0]), b.A[1])
	}
	return e.App("time.Before", types.Typ[types.Bool], a, b)
}

var timeT types.Type

func (e *Engine) timeType() types.Type {
	for _, p := range e.Prog.SSA.AllPackages() {
		if p.Pkg.Path() == "time" {
			return p.Pkg.Scope().Lookup("Time").Type()
		}
	}
	return nil
}

func (e *Engine) durType() types.Type {
	for _, p := range e.Prog.SSA.AllPackages() {
		if p.Pkg.Path() == "time" {
			return p.Pkg.Scope().Lookup("Duration").Type()
		}
	}
	return nil
}

func (e *Engine) fresh2(n string, t types.Type) *Term { return e.Fresh(n, t) }

// jsonMarshal: canonical term for the encoding of the value reachable from v in the current memory.
func (c *callCtx) jsonMarshal(v *Term, indent string) []*Exit {
	e := c.e
	return c.withName("json.Marshal").fallible(func(st *State, ef *Effect) []*Term {
		enc := e.Fresh("json", types.NewSlice(types.Typ[types.Uint8]))
		return []*Term{enc}
	}, func(st *State, ef *Effect) []*Term { return []*Term{e.Nil()} })
}

var models map[string]model

func init() {
	models = map[string]model{}
	reg := func(m model, names ...string) {
		for _, n := range names {
			models[n] = m
		}
	}
	pure := func(c *callCtx) []*Exit { return c.pure() }
	nop := func(c *callCtx) []*Exit {
		var v []*Term
		for i := 0; i < c.sig.Results().Len(); i++ {
			v = append(v, c.e.Zero(c.sig.Results().At(i).Type()))
		}
		return c.ret(v...)
	}
	_ = nop

	// errors, fmt
	reg(func(c *callCtx) []*Exit { return c.ret(c.e.App("errors.New", errT(), c.args[0])) }, "errors.New")
	reg(func(c *callCtx) []*Exit {
		return c.ret(c.e.App("fmt.Errorf", errT(), c.format(c.args[0], c.args[1])))
	}, "fmt.Errorf")
	reg(func(c *callCtx) []*Exit { return c.ret(c.format(c.args[0], c.args[1])) }, "fmt.Sprintf")
	reg(func(c *callCtx) []*Exit { return c.ret(c.sprint(c.args[0], false)) }, "fmt.Sprint")
	reg(func(c *callCtx) []*Exit { return c.ret(c.sprint(c.args[0], true)) }, "fmt.Sprintln")
	reg(func(c *callCtx) []*Exit { return c.ret(c.writeTo(c.args[0], c.format(c.args[1], c.args[2]))...) }, "fmt.Fprintf")
	reg(func(c *callCtx) []*Exit { return c.ret(c.writeTo(c.args[0], c.sprint(c.args[1], false))...) }, "fmt.Fprint")
	reg(func(c *callCtx) []*Exit { return c.ret(c.writeTo(c.args[0], c.sprint(c.args[1], true))...) }, "fmt.Fprintln")
	reg(func(c *callCtx) []*Exit { return c.ret(c.e.Cat(c.args[0], c.format(c.args[1], c.args[2]))) }, "fmt.Appendf")
	reg(func(c *callCtx) []*Exit { return c.ret(c.e.Cat(c.args[0], c.sprint(c.args[1], false))) }, "fmt.Append")
	reg(func(c *callCtx) []*Exit { return c.ret(c.e.Cat(c.args[0], c.sprint(c.args[1], true))) }, "fmt.Appendln")
	reg(func(c *callCtx) []*Exit { return c.ret(c.writeTo(c.args[0], c.args[1])...) }, "io.WriteString")
	reg(func(c *callCtx) []*Exit {
		c.st.emit(&Effect{Kind: "print", Name: c.name, Args: c.args, Pos: c.pos, In: c.inFn()})
		return c.ret(c.e.Fresh("n", types.Typ[types.Int]), c.e.Nil())
	}, "fmt.Printf", "fmt.Println", "fmt.Print")

	// buffers
	for _, T := range []string{"(*bytes.Buffer)", "(*strings.Builder)"} {
		reg(func(c *callCtx) []*Exit {
			c.bufAppend(c.args[0], c.args[1])
			return c.ret(c.e.Len(c.args[1]), c.e.Nil())
		}, T+".WriteString", T+".Write")
		reg(func(c *callCtx) []*Exit {
			c.bufAppend(c.args[0], c.e.charTerm(c.args[1], false))
			return c.ret(c.e.Nil())
		}, T+".WriteByte")
		reg(func(c *callCtx) []*Exit {
			r := c.e.charTerm(c.args[1], true)
			c.bufAppend(c.args[0], r)
			return c.ret(c.e.Len(r), c.e.Nil())
		}, T+".WriteRune")
		reg(func(c *callCtx) []*Exit { return c.ret(c.buf(c.args[0])) }, T+".String", T+".Bytes")
		reg(func(c *callCtx) []*Exit { return c.ret(c.e.Len(c.buf(c.args[0]))) }, T+".Len")
		reg(func(c *callCtx) []*Exit { return c.ret() }, T+".Grow")
		reg(func(c *callCtx) []*Exit {
			c.st.set(c.e.BC(c.args[0]), c.e.Str(""))
			return c.ret()
		}, T+".Reset")
		reg(func(c *callCtx) []*Exit { return c.ret(c.e.App("cap", types.Typ[types.Int], c.args[0])) }, T+".Cap")
	}
	reg(func(c *callCtx) []*Exit {
		cur := c.buf(c.args[0])
		c.st.Obl = append(c.st.Obl, &Obligation{Kind: "truncate", Subj: c.args[1], OK: c.st.Is(c.e.Not(c.e.Lt(c.e.Len(cur), c.args[1]))), Pos: c.pos, In: c.inFn()})
		c.st.set(c.e.BC(c.args[0]), c.e.Truncate(c.st, cur, c.args[1]))
		return c.ret()
	}, "(*bytes.Buffer).Truncate")
	reg(func(c *callCtx) []*Exit {
		if w := c.args[1]; true {
			data := c.buf(c.args[0])
			c.st.set(c.e.BC(c.args[0]), c.e.Str(""))
			r := c.writeTo(w, data)
			return c.ret(r...)
		}
		return nil
	}, "(*bytes.Buffer).WriteTo")
	reg(func(c *callCtx) []*Exit { return c.ret(c.e.Str("")) }, "(*bytes.Buffer).AvailableBuffer")
	newBuf := func(c *callCtx) []*Exit {
		o := c.e.NewObj("buf", c.sig.Results().At(0).Type().(*types.Pointer).Elem(), c.pos)
		c.st.set(c.e.BC(o), c.args[0])
		return c.ret(o)
	}
	reg(newBuf, "bytes.NewBuffer", "bytes.NewBufferString", "bytes.NewReader", "strings.NewReader")

	// strings
	reg(pure, "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.Index", "strings.LastIndex", "strings.IndexByte",
		"strings.LastIndexByte", "strings.Count", "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.TrimPrefix", "strings.TrimSuffix",
		"strings.Split", "strings.Trim", "strings.TrimRight", "strings.TrimLeft", "strings.Replace", "strings.ReplaceAll", "strings.EqualFold",
		"strings.Fields", "strings.ContainsRune", "strings.IndexRune", "strings.Title", "strings.IndexAny", "strings.ContainsAny", "strings.Cut")
	reg(func(c *callCtx) []*Exit {
		if n, ok := c.args[1].IntVal(); ok && n >= 0 && n <= 8 {
			var ps []*Term
			for i := int64(0); i < n; i++ {
				ps = append(ps, c.args[0])
			}
			return c.ret(c.e.Cat(ps...))
		}
		return c.pure()
	}, "strings.Repeat", "bytes.Repeat")
	reg(func(c *callCtx) []*Exit {
		s := c.st.Seq(c.args[0], types.NewSlice(types.Typ[types.String]))
		e := c.e
		if s.Op == "seq" || s.Op == "arr" {
			var parts []*Term
			ok := true
			for i, p := range s.A {
				if i > 0 {
					parts = append(parts, c.args[1])
				}
				if s.Op == "arr" {
					parts = append(parts, p)
				} else if p.Op == "el" {
					parts = append(parts, p.A[0])
				} else {
					ok = false
				}
			}
			if ok {
				return c.ret(e.Cat(parts...))
			}
		}
		return c.ret(e.App("join", types.Typ[types.String], s, c.args[1]))
	}, "strings.Join", "bytes.Join")
	reg(func(c *callCtx) []*Exit { return c.strMap() }, "strings.Map", "bytes.Map")
	reg(func(c *callCtx) []*Exit { return c.ret(c.e.Eq(c.args[0], c.args[1])) }, "bytes.Equal")
	reg(func(c *callCtx) []*Exit { return c.ret(c.args[0]) }, "strings.Clone", "bytes.Clone", "slices.Clone[byte]")

	// strconv
	reg(func(c *callCtx) []*Exit { return c.ret(c.e.dec(c.args[0])) }, "strconv.Itoa")
	reg(func(c *callCtx) []*Exit {
		if n, ok := c.args[1].IntVal(); ok && n == 10 {
			return c.ret(c.e.dec(c.args[0]))
		}
		return c.pure()
	}, "strconv.FormatInt", "strconv.FormatUint")
	reg(func(c *callCtx) []*Exit {
		if n, ok := c.args[2].IntVal(); ok && n == 10 {
			return c.ret(c.e.Cat(c.args[0], c.e.dec(c.args[1])))
		}
		return nil
	}, "strconv.AppendInt", "strconv.AppendUint")
	ff := func(c *callCtx, a []*Term) *Term { // value, fmt, prec, bits
		e := c.e
		v, ok1 := a[1].IntVal()
		p, ok2 := a[2].IntVal()
		if ok1 && ok2 {
			prec := ""
			if p >= 0 {
				prec = "." + e.Int(p).C.ExactString()
			} else if v == 'f' {
				prec = ".-1"
			}
			if is, known := c.st.Holds(e.nan(a[0])); known && is {
				return e.Str("NaN")
			}
			return e.fmtFloat(a[0], byte(v), prec)
		}
		return e.App("ffmt", types.Typ[types.String], a...)
	}
	reg(func(c *callCtx) []*Exit { return c.ret(ff(c, c.args)) }, "strconv.FormatFloat")
	reg(func(c *callCtx) []*Exit { return c.ret(c.e.Cat(c.args[0], ff(c, c.args[1:]))) }, "strconv.AppendFloat")
	reg(func(c *callCtx) []*Exit {
		return c.ret(c.e.Cat(c.args[0], c.e.App("quote", types.Typ[types.String], c.args[1])))
	}, "strconv.AppendQuote")
	reg(func(c *callCtx) []*Exit {
		return c.fallible(func(st *State, ef *Effect) []*Term {
			return []*Term{c.e.App(c.name, c.sig.Results().At(0).Type(), c.args...)}
		}, func(st *State, ef *Effect) []*Term { return []*Term{c.e.Fresh("badint", c.sig.Results().At(0).Type())} })
	}, "strconv.ParseInt", "strconv.Atoi", "strconv.ParseUint", "strconv.ParseFloat", "strconv.ParseBool")
	reg(func(c *callCtx) []*Exit {
		return c.ret(c.e.Cat(c.args[0], c.e.charTerm(c.args[1], true)))
	}, "unicode/utf8.AppendRune")

	// time
	reg(func(c *callCtx) []*Exit { return c.ret(c.e.nowTerm(c.st, c)) }, "time.Now")
	reg(func(c *callCtx) []*Exit {
		d := *c
		n := c.e.Fresh("now", c.e.timeType())
		c.st.emit(&Effect{Kind: "call", Name: "time.Now", Res: n, Pos: c.pos, In: c.inFn()})
		return d.ret(c.e.App("time.Sub", c.sig.Results().At(0).Type(), n, c.args[0]))
	}, "time.Since")
	reg(func(c *callCtx) []*Exit {
		return c.ret(c.e.App("time.Sub", c.sig.Results().At(0).Type(), c.args[0], c.args[1]))
	}, "(time.Time).Sub")
	reg(func(c *callCtx) []*Exit { return c.ret(c.args[0]) }, "(time.Duration).Nanoseconds")
	reg(func(c *callCtx) []*Exit {
		return c.ret(c.e.App("div", types.Typ[types.Int64], c.args[0], c.e.Int(1000000)))
	}, "(time.Duration).Milliseconds")
	reg(func(c *callCtx) []*Exit {
		return c.ret(c.e.App("div", types.Typ[types.Int64], c.args[0], c.e.Int(1000)))
	}, "(time.Duration).Microseconds")
	reg(func(c *callCtx) []*Exit { return c.ret(c.e.Eq(c.args[0], c.e.Zero(c.e.timeType()))) }, "(time.Time).IsZero")
	reg(func(c *callCtx) []*Exit { return c.ret(c.e.App("time.UTC", c.e.timeType(), c.args[0])) }, "(time.Time).UTC")
	reg(func(c *callCtx) []*Exit { return c.ret(c.e.App("time.Truncate", c.e.timeType(), c.args[0], c.args[1])) }, "(time.Time).Truncate")
	reg(func(c *callCtx) []*Exit {
		return c.ret(c.e.App("time.Format", types.Typ[types.String], c.args[0], c.args[1]))
	}, "(time.Time).Format")
	reg(func(c *callCtx) []*Exit {
		return c.ret(c.e.Cat(c.args[1], c.e.App("time.Format", types.Typ[types.String], c.args[0], c.args[2])))
	}, "(time.Time).AppendFormat")
	reg(func(c *callCtx) []*Exit { return c.ret(c.e.App("time.Equal", types.Typ[types.Bool], ord2(c.args)...)) }, "(time.Time).Equal")
	reg(func(c *callCtx) []*Exit { return c.ret(c.e.before(c.args[0], c.args[1])) }, "(time.Time).Before")
	reg(func(c *callCtx) []*Exit { return c.ret(c.e.before(c.args[1], c.args[0])) }, "(time.Time).After")
	reg(func(c *callCtx) []*Exit {
		return c.ret(c.e.App("time.Add", c.e.timeType(), c.args[0], c.args[1]))
	}, "(time.Time).Add")
	reg(func(c *callCtx) []*Exit {
		o := c.e.NewObj("chan", c.sig.Results().At(0).Type(), c.pos)
		c.st.emit(&Effect{Kind: "call", Name: c.name, Args: c.args, Res: o, Pos: c.pos, In: c.inFn()})
		return c.ret(o)
	}, "time.Tick", "time.After")
	reg(func(c *callCtx) []*Exit {
		o := c.e.NewObj("ticker", c.sig.Results().At(0).Type().(*types.Pointer).Elem(), c.pos)
		c.st.havoc[o] = true
		ch := c.e.NewObj("chan", nil, c.pos)
		c.st.set(c.e.FA(o, 0), ch)
		nm := "time.Tick"
		if c.name == "time.NewTimer" {
			nm = "time.After"
		}
		c.st.emit(&Effect{Kind: "call", Name: nm, Args: c.args, Res: ch, Pos: c.pos, In: c.inFn()})
		return c.ret(o)
	}, "time.NewTicker", "time.NewTimer")
	// Reset also names the channel of the timer
	reg(func(c *callCtx) []*Exit {
		ft := c.fn.Signature.Recv().Type().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(0).Type()
		ch := c.st.Load(c.e.FA(c.args[0], 0), ft)
		c.st.emit(&Effect{Kind: "call", Name: c.name, Args: c.args, Recv: ch, Pos: c.pos, In: c.inFn()})
		if c.sig.Results().Len() == 0 {
			return c.ret()
		}
		return c.ret(c.e.Fresh("active", types.Typ[types.Bool]))
	}, "(*time.Timer).Reset", "(*time.Timer).Stop", "(*time.Ticker).Reset")

	// atomics, locks
	reg(func(c *callCtx) []*Exit {
		t := c.fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem()
		v := c.e.Fresh("atomic", t)
		if c.e.OwnAtomics[c.args[0]] {
			v = c.st.Load(c.args[0], t)
		}
		c.e.access(c.fr, c.st, c.args[0], t, false, true, c.pos)
		c.st.emit(&Effect{Kind: "call", Name: "atomic.Load", Args: c.args, Res: v, Pos: c.pos, In: c.inFn()})
		return c.ret(v)
	}, "sync/atomic.LoadInt64", "sync/atomic.LoadInt32", "sync/atomic.LoadUint32", "sync/atomic.LoadUint64")
	reg(func(c *callCtx) []*Exit {
		c.e.access(c.fr, c.st, c.args[0], nil, true, true, c.pos)
		c.st.Store(c.args[0], c.args[1], c.fn.Signature.Params().At(1).Type())
		c.st.emit(&Effect{Kind: "call", Name: "atomic.Store", Args: c.args, Pos: c.pos, In: c.inFn()})
		return c.ret()
	}, "sync/atomic.StoreInt64", "sync/atomic.StoreInt32", "sync/atomic.StoreUint32", "sync/atomic.StoreUint64")
	lock := func(c *callCtx) []*Exit {
		if h := c.st.held; strings.HasSuffix(c.name, "Lock") || strings.HasSuffix(c.name, "Unlock") {
			n := map[*Term]bool{}
			for k, v := range h {
				n[k] = v
			}
			if strings.HasSuffix(c.name, "nlock") {
				delete(n, c.args[0])
			} else {
				n[c.args[0]] = !strings.HasSuffix(c.name, "RLock")
			}
			c.st.held = n
		}
		c.st.emit(&Effect{Kind: "call", Name: c.name, Args: c.args, Pos: c.pos, In: c.inFn()})
		return c.ret()
	}
	reg(lock, "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
		"(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait", "time.Sleep", "(*time.Ticker).Stop", "runtime.Gosched")

	// math
	reg(func(c *callCtx) []*Exit {
		e := c.e
		if f, ok := floatConst(c.args[1]); ok && f == 2 {
			return c.ret(e.App("f*", c.sig.Results().At(0).Type(), c.args[0], c.args[0]))
		}
		return c.pure()
	}, "math.Pow")
	reg(func(c *callCtx) []*Exit {
		x := c.args[0]
		if c.st.need(c.e.Lt(x, c.e.Const(constant.MakeFloat64(0), types.Typ[types.Float64]))) {
			return c.ret(c.e.App("fneg", c.sig.Results().At(0).Type(), x))
		}
		return c.ret(x)
	}, "math.Abs")
	reg(func(c *callCtx) []*Exit { return c.ret(c.e.nan(c.args[0])) }, "math.IsNaN")
	reg(func(c *callCtx) []*Exit { // NaN aside, min/max by comparison
		if c.st.need(c.e.Lt(c.args[1], c.args[0])) {
			return c.ret(c.args[1])
		}
		return c.ret(c.args[0])
	}, "math.Min")
	reg(func(c *callCtx) []*Exit {
		if c.st.need(c.e.Lt(c.args[0], c.args[1])) {
			return c.ret(c.args[1])
		}
		return c.ret(c.args[0])
	}, "math.Max")

	// sorting: contents become a sorted permutation
	reg(func(c *callCtx) []*Exit {
		c.sortPlain(c.args[0], c.sig.Params().At(0).Type())
		return c.ret()
	}, "sort.Strings", "slices.Sort", "sort.Ints", "sort.Float64s")
	reg(func(c *callCtx) []*Exit {
		c.sortPlain(c.args[0], c.sig.Recv().Type().Underlying())
		return c.ret()
	}, "(sort.StringSlice).Sort", "(sort.IntSlice).Sort", "(sort.Float64Slice).Sort")
	reg(func(c *callCtx) []*Exit { return c.sortBy() }, "sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc")
	reg(func(c *callCtx) []*Exit {
		t := c.sig.Results().At(0).Type()
		a := c.args[0]
		if a.Op == "app" && a.S == "maps.Keys" {
			return c.ret(c.st.newSlice(c.e.App("sorted", t, c.e.App("keys", t, a.A[0])), t, c.pos))
		}
		return nil
	}, "slices.Sorted")
	reg(func(c *callCtx) []*Exit {
		t := c.sig.Results().At(0).Type()
		a := c.args[0]
		if a.Op == "app" && a.S == "maps.Keys" {
			return c.ret(c.st.newSlice(c.e.App("keys", t, a.A[0]), t, c.pos))
		}
		return nil
	}, "slices.Collect")
	reg(func(c *callCtx) []*Exit {
		return c.ret(c.e.App("maps.Keys", c.sig.Results().At(0).Type(), c.st.MapContent(c.args[0], c.mapT(0))))
	}, "maps.Keys")
	reg(func(c *callCtx) []*Exit {
		c.st.mapCopy(c.args[0], c.args[1], c.mapT(0), c.mapT(1), c.inFn(), c.pos)
		return c.ret()
	}, "maps.Copy")
	reg(func(c *callCtx) []*Exit {
		t := c.sig.Results().At(0).Type()
		if c.args[0].Op == "nil" {
			return c.ret(c.args[0])
		}
		if c.args[0].Op != "obj" {
			if c.st.need(c.e.Eq(c.args[0], c.e.Nil())) {
				return c.ret(c.e.Nil())
			}
		}
		o := c.e.NewObj("map", t, c.pos)
		c.st.set(c.e.MC(o, t), c.st.MapContent(c.args[0], c.mapT(0)))
		return c.ret(o)
	}, "maps.Clone")
	reg(func(c *callCtx) []*Exit {
		t := c.sig.Results().At(0).Type()
		if isStringish(t) {
			return c.ret(c.args[0])
		}
		return c.ret(c.st.newSlice(c.st.Seq(c.args[0], t), t, c.pos))
	}, "slices.Clone")
	// slices.Delete moves the tail down in place and zeroes what is left behind
	reg(func(c *callCtx) []*Exit {
		e, st := c.e, c.st
		t := c.sig.Params().At(0).Type()
		i, j := c.args[1], c.args[2]
		bk, lo, hi, ok := st.sliceParts(c.args[0], t)
		if !ok {
			return nil
		}
		n := e.Sub(hi, lo)
		for _, cond := range []*Term{e.Not(e.Lt(i, e.Int(0))), e.Not(e.Lt(j, i)), e.Not(e.Lt(n, j))} {
			e.oblige(c.fr, &path{st: st}, "slice", cond, i, c.pos)
		}
		cont, d := st.content(bk), e.Sub(j, i)
		e.access(c.fr, st, bk, nil, true, false, c.pos)
		st.set(bk, st.normSeq([]*Term{e.sp(cont, e.Int(0), e.Add(lo, i)), e.sp(cont, e.Add(lo, j), hi), e.sp(e.in.mk(Term{Op: "zeros", A: []*Term{d}}), e.Int(0), d), e.sp(cont, hi, e.Len(cont))}, e.cellT[bk]))
		return c.ret(e.mkSlice(bk, lo, e.Sub(hi, d), t))
	}, "slices.Delete")
	reg(func(c *callCtx) []*Exit { return c.ret(c.e.App("DeepEqual", types.Typ[types.Bool], ord2(c.args)...)) }, "reflect.DeepEqual")

	// encoding/json
	reg(func(c *callCtx) []*Exit { return c.jsonMarshal(c.args[0], "") }, "encoding/json.Marshal", "encoding/json.MarshalIndent")
	reg(func(c *callCtx) []*Exit {
		e := c.e
		return c.withName("json.Unmarshal").fallible(func(st *State, ef *Effect) []*Term {
			st.unmarshalInto(c.args[1])
			return nil
		}, func(st *State, ef *Effect) []*Term { st.unmarshalInto(c.args[1]); _ = e; return nil })
	}, "encoding/json.Unmarshal")
	reg(func(c *callCtx) []*Exit {
		return c.ret(c.e.App("json.Encoder", c.sig.Results().At(0).Type(), c.args[0]))
	}, "encoding/json.NewEncoder")
	reg(func(c *callCtx) []*Exit {
		return c.ret(c.e.App("json.Decoder", c.sig.Results().At(0).Type(), c.args[0]))
	}, "encoding/json.NewDecoder")
	reg(func(c *callCtx) []*Exit { return c.ret() }, "(*encoding/json.Encoder).SetIndent", "(*encoding/json.Encoder).SetEscapeHTML")
	reg(func(c *callCtx) []*Exit {
		enc := c.args[0]
		if enc.Op != "app" || enc.S != "json.Encoder" {
			return nil
		}
		d := *c
		d.args = []*Term{c.args[1]}
		return d.withName("json.Marshal").fallible(func(st *State, ef *Effect) []*Term {
			data := c.e.Fresh("json", types.NewSlice(types.Typ[types.Uint8]))
			ef.Args = []*Term{c.args[1], data}
			dd := *c
			dd.st = st
			dd.writeTo(enc.A[0], c.e.Cat(data, c.e.Str("\n")))
			return nil
		}, func(st *State, ef *Effect) []*Term { return nil })
	}, "(*encoding/json.Encoder).Encode")
	reg(func(c *callCtx) []*Exit {
		return c.withName("json.Unmarshal").fallible(func(st *State, ef *Effect) []*Term {
			st.unmarshalInto(c.args[1])
			return nil
		}, func(st *State, ef *Effect) []*Term { st.unmarshalInto(c.args[1]); return nil })
	}, "(*encoding/json.Decoder).Decode")

	// io
	reg(func(c *callCtx) []*Exit {
		return c.withName("io.ReadAll").fallible(func(st *State, ef *Effect) []*Term {
			return []*Term{c.e.Fresh("body", c.sig.Results().At(0).Type())}
		}, func(st *State, ef *Effect) []*Term {
			return []*Term{c.e.Fresh("partbody", c.sig.Results().At(0).Type())}
		})
	}, "io.ReadAll", "io/ioutil.ReadAll")
	reg(func(c *callCtx) []*Exit {
		n := strings.Replace(c.name, "io/ioutil", "os", 1)
		return c.withName(n).fallible(func(st *State, ef *Effect) []*Term {
			return []*Term{c.e.Fresh("dir", c.sig.Results().At(0).Type())}
		}, func(st *State, ef *Effect) []*Term {
			return []*Term{c.e.Fresh("partdir", c.sig.Results().At(0).Type())}
		})
	}, "io/ioutil.ReadDir", "os.ReadDir")
	reg(func(c *callCtx) []*Exit {
		return c.fallible(func(st *State, ef *Effect) []*Term {
			return []*Term{c.e.App("os.Hostname", types.Typ[types.String])}
		}, func(st *State, ef *Effect) []*Term { return []*Term{c.e.Str("")} })
	}, "os.Hostname")
	reg(func(c *callCtx) []*Exit { return c.ret(c.e.App(c.name, c.sig.Results().At(0).Type())) }, "os.Getpid", "runtime.GOROOT")

	// net/http: a call yields (response, nil) or (nil, error)
	httpDo := func(c *callCtx) []*Exit {
		rt := c.sig.Results().At(0).Type()
		return c.fallible(func(st *State, ef *Effect) []*Term {
			r := c.e.Fresh("resp", rt)
			st.Assume(c.e.Eq(r, c.e.Nil()), false)
			return []*Term{r}
		}, func(st *State, ef *Effect) []*Term { return []*Term{c.e.Nil()} })
	}
	reg(httpDo, "(*net/http.Client).Do", "(*net/http.Client).Get", "(*net/http.Client).Post", "(*net/http.Client).Head", "(*net/http.Client).PostForm",
		"net/http.Get", "net/http.Post", "net/http.Head", "net/http.PostForm", "(*net/http.Transport).RoundTrip")
	reg(func(c *callCtx) []*Exit {
		rt := c.sig.Results().At(0).Type()
		return c.withName("net/http.NewRequest").fallible(func(st *State, ef *Effect) []*Term {
			a := c.args[len(c.args)-3:]
			r := c.e.NewObj("req", rt.(*types.Pointer).Elem(), c.pos)
			st.havoc[r] = true
			ef.Args = a
			return []*Term{r}
		}, func(st *State, ef *Effect) []*Term { return []*Term{c.e.Nil()} })
	}, "net/http.NewRequest", "net/http.NewRequestWithContext")
	reg(func(c *callCtx) []*Exit { return c.callKeep() }, "(*net/http.Request).SetBasicAuth", "(net/http.Header).Add", "(net/http.Header).Set")
	reg(func(c *callCtx) []*Exit {
		rt := c.sig.Results().At(0).Type()
		return c.fallible(func(st *State, ef *Effect) []*Term { return []*Term{c.e.Fresh(shortName(c.name), rt)} },
			func(st *State, ef *Effect) []*Term { return []*Term{c.e.Nil()} })
	}, "net.ListenPacket", "net.ResolveUDPAddr", "net.ListenUDP", "net.Dial", "net.DialUDP", "time.Parse")
	reg(func(c *callCtx) []*Exit { return c.callKeep() }, "(*net.UDPConn).WriteToUDP", "(*net.UDPConn).WriteTo", "(*net.UDPConn).Write", "(*net.UDPConn).Close", "(*net.UDPConn).WriteMsgUDP")

	// runtime
	reg(func(c *callCtx) []*Exit { // fills buf[:n], 0 <= n <= len(buf)
		n := c.e.Fresh("nstack", types.Typ[types.Int])
		c.st.Assume(c.e.Lt(n, c.e.Int(0)), false)
		c.st.Assume(c.e.Lt(c.e.Len(c.args[0]), n), false)
		c.st.emit(&Effect{Kind: "call", Name: c.name, Args: c.args, Res: n, Pos: c.pos, In: c.inFn()})
		return c.ret(n)
	}, "runtime.Stack")
	reg(func(c *callCtx) []*Exit {
		bk, lo, hi, ok := c.st.sliceParts(c.args[1], c.sig.Params().At(1).Type())
		n := c.e.Fresh("ncallers", types.Typ[types.Int])
		c.st.Assume(c.e.Lt(n, c.e.Int(0)), false)
		if ok {
			c.st.Assume(c.e.Lt(c.e.Sub(hi, lo), n), false)
			c.st.set(bk, c.e.Fresh("pcs", c.e.cellT[bk]))
		}
		c.st.emit(&Effect{Kind: "call", Name: c.name, Args: append(append([]*Term(nil), c.args...), c.e.Int(int64(c.callDepth()))), Res: n, Pos: c.pos, In: c.inFn()})
		return c.ret(n)
	}, "runtime.Callers")
	reg(func(c *callCtx) []*Exit { return c.ret(c.e.App(c.name, c.sig.Results().At(0).Type(), c.args...)) }, "runtime.FuncForPC")
	reg(func(c *callCtx) []*Exit { return c.pure() }, "(*runtime.Func).Name", "(*runtime.Func).FileLine", "(*runtime.Func).Entry")
	reg(func(c *callCtx) []*Exit {
		v := c.e.Fresh(shortName(c.name), c.sig.Results().At(0).Type())
		c.st.emit(&Effect{Kind: "call", Name: c.name, Res: v, Pos: c.pos, In: c.inFn()})
		return c.ret(v)
	}, "runtime.NumGoroutine", "runtime.NumCgoCall", "runtime/debug.Stack")

	// ReadGCStats fills the quantiles it finds room for, and keeps the slice
	reg(func(c *callCtx) []*Exit {
		t := c.sig.Params().At(0).Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for i := 0; i < t.NumFields(); i++ {
			a, ft := c.e.FA(c.args[0], i), t.Field(i).Type()
			if t.Field(i).Name() != "PauseQuantiles" {
				c.st.Store(a, c.e.Fresh("gc."+t.Field(i).Name(), ft), ft)
				continue
			}
			if bk, _, _, ok := c.st.sliceParts(c.st.Load(a, ft), ft); ok {
				c.st.set(bk, c.e.Fresh("quantiles", c.e.cellT[bk]))
			}
		}
		c.st.emit(&Effect{Kind: "call", Name: c.name, Args: c.args, Pos: c.pos, In: c.inFn()})
		return c.ret()
	}, "runtime/debug.ReadGCStats")
	reg(func(c *callCtx) []*Exit { return nil }, "net/http.ListenAndServe")
}

func ord2(a []*Term) []*Term {
	if len(a) == 2 && a[0].id > a[1].id {
		return []*Term{a[1], a[0]}
	}
	return a
}

func floatConst(t *Term) (float64, bool) {
	if t.Op == "const" && (t.C.Kind() == constant.Float || t.C.Kind() == constant.Int) {
		f, _ := constant.Float64Val(constant.ToFloat(t.C))
		return f, true
	}
	return 0, false
}

func (c *callCtx) mapT(i int) types.Type {
	// concrete type of a generic map argument
	if c.fn.Signature.Params().Len() > i {
		return c.fn.Signature.Params().At(i).Type()
	}
	return nil
}

// callKeep records the call without making its pointer arguments unknown.
func (c *callCtx) callKeep() []*Exit { return c.call() }

// callDepth: number of repository frames between here and the analysed entry function.
func (c *callCtx) callDepth() int {
	d := 0
	for f := c.fr; f != nil; f = f.parent {
		if f.fn.Synthetic == "" || !strings.Contains(f.fn.Synthetic, "wrapper") && !strings.Contains(f.fn.Synthetic, "thunk") && !strings.Contains(f.fn.Synthetic, "bound") {
			d++
		}
	}
	return d
}

// Truncate keeps the first n bytes.
func (e *Engine) Truncate(st *State, s, n *Term) *Term {
	if k, ok := n.IntVal(); ok && k == 0 {
		return e.Str("")
	}
	if s.Op == "app" && s.S == "trunc" && s.A[1] == n {
		return s
	}
	if s.Op == "cat" && s.A[0].Op == "app" && s.A[0].S == "trunc" && s.A[0].A[1] == n {
		return s.A[0]
	}
	r := e.Substr(st, s, e.Int(0), n)
	if r.Op == "app" && r.S == "substr" {
		return e.App("trunc", types.Typ[types.String], s, n)
	}
	return r
}

// unmarshalInto makes the target unknown: whatever the bytes said (or partially, on error).
func (s *State) unmarshalInto(v *Term) {
	if v.Op == "iface" {
		v = v.A[0]
	}
	t := s.e.pointee(v)
	if t == nil {
		s.havocRoot(v)
		return
	}
	s.Store(v, s.freshOf("decoded", t), t)
}

func (e *Engine) pointee(a *Term) types.Type {
	switch a.Op {
	case "obj":
		return a.T
	case "fa", "ia", "global":
		return e.cellT[a]
	}
	if a.T != nil {
		if p, ok := a.T.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
	}
	return nil
}

// strMap models strings.Map: the mapping is applied to every rune.
func (c *callCtx) strMap() []*Exit {
	e := c.e
	fv, s := c.args[0], c.args[1]
	if fv.Op != "func" && fv.Op != "closure" {
		return nil
	}
	e.loopCtr++
	l := &LoopSum{ID: "L" + e.Int(int64(e.loopCtr)).C.ExactString(), Kind: "strrange", Fn: c.inFn(), Pos: c.pos, Coll: s, CollContent: s, items: map[*Term][][]*Term{},
		havoc: map[*Term]*Term{}, Pre: c.st.Clone(), Full: true}
	e.loops[l.ID] = l
	l.Key = e.Fresh("pos."+l.ID, types.Typ[types.Int])
	l.Val = e.Fresh("rune."+l.ID, types.Typ[types.Rune])
	h := c.st.Clone()
	h.Trace = nil
	h.Assume(e.Lt(l.Val, e.Int(0)), false)
	h.Assume(e.Lt(e.Int(0x10FFFF), l.Val), false)
	l.Head = h.Clone()
	sym := e.Fresh("acc", types.Typ[types.String])
	for _, o := range e.callFn(c.fr, h, fv.F, []*Term{l.Val}, fv.A, false) {
		if o.Kind != Ret {
			return nil
		}
		im := &Iter{St: o.St, New: o.St.Trace, Conds: map[*Term]bool{}}
		for a, v := range o.St.facts.atoms {
			if hv, ok := l.Head.facts.atoms[a]; !ok || hv != v {
				im.Conds[a] = v
			}
		}
		l.Iters = append(l.Iters, im)
		parts := []*Term{e.charTerm(o.Vals[0], true)}
		if n, ok := o.Vals[0].IntVal(); ok && n < 0 {
			parts = nil // dropped
		}
		l.items[sym] = append(l.items[sym], parts)
	}
	c.st.Trace = append(c.st.Trace, &Effect{Kind: "loop", Loop: l, Pos: c.pos, In: c.inFn(), Mem: c.st.snapshot(), Fs: c.st.facts})
	return c.ret(e.Cat(e.in.mk(Term{Op: "each", S: l.ID, A: []*Term{sym}, T: types.Typ[types.String]})))
}

// sortPlain models sorting strings or numbers in their natural order.
func (c *callCtx) sortPlain(v *Term, t types.Type) {
	bk, lo, hi, ok := c.st.sliceParts(v, t)
	if !ok {
		return
	}
	cont := c.st.content(bk)
	if c.e.cellT[bk] != nil {
		t = c.e.cellT[bk]
	}
	sq := c.st.normSeq([]*Term{c.e.sp(cont, lo, hi)}, t)
	if !c.st.Is(c.e.Eq(lo, c.e.Int(0))) || !c.st.Is(c.e.Eq(hi, c.e.Len(cont))) {
		nc := c.e.App("sorted", t, sq)
		c.st.set(bk, c.st.normSeq([]*Term{c.e.sp(cont, c.e.Int(0), lo), c.e.sp(nc, c.e.Int(0), c.e.Len(nc)), c.e.sp(cont, hi, c.e.Len(cont))}, t))
		return
	}
	c.st.set(bk, c.e.App("sorted", t, sq)) // the slice keeps its bounds: the term keeps its length
}

// sortBy models sorting with a comparison: the slice becomes sortedBy(less, contents).
func (c *callCtx) sortBy() []*Exit {
	e := c.e
	v := c.args[0]
	var t types.Type
	var less *Term
	switch c.name {
	case "sort.Sort", "sort.Stable":
		if v.Op != "iface" {
			return nil
		}
		t = v.T
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sort" {
			switch n.Obj().Name() {
			case "StringSlice", "IntSlice", "Float64Slice":
				c.sortPlain(v.A[0], t.Underlying())
				return c.ret()
			}
		}
		less = e.App("ifaceless", nil, v)
		v = v.A[0]
		if _, ok := t.Underlying().(*types.Slice); !ok {
			// pointer to a struct holding the slice: find it
			pt, ok := t.Underlying().(*types.Pointer)
			if !ok {
				return nil
			}
			stt, ok := pt.Elem().Underlying().(*types.Struct)
			if !ok {
				return nil
			}
			found := -1
			for i := 0; i < stt.NumFields(); i++ {
				if _, ok := stt.Field(i).Type().Underlying().(*types.Slice); ok {
					if found >= 0 {
						return nil
					}
					found = i
				}
			}
			if found < 0 {
				return nil
			}
			t = stt.Field(found).Type()
			v = c.st.Load(e.FAT(v, found, pt.Elem()), t)
		}
	default:
		less = c.args[1]
		if v.Op == "iface" {
			t = v.T
			v = v.A[0]
		} else {
			t = c.sig.Params().At(0).Type()
		}
	}
	bk, lo, hi, ok := c.st.sliceParts(v, t)
	if ok {
		if e.cellT[bk] == nil {
			e.cellT[bk] = t
		}
		sq := c.st.normSeq([]*Term{e.sp(c.st.content(bk), lo, hi)}, t)
		c.st.emit(&Effect{Kind: "sort", Name: c.name, Args: []*Term{v, less, sq}, Pos: c.pos, In: c.inFn(), Fn: less})
		nc := e.App("sorted", t, sq, less)
		if full := c.st.Is(e.Eq(lo, e.Int(0))) && c.st.Is(e.Eq(hi, e.Len(c.st.content(bk)))); full {
			c.st.set(bk, nc)
		} else {
			cont := c.st.content(bk)
			c.st.set(bk, c.st.normSeq([]*Term{e.sp(cont, e.Int(0), lo), e.sp(nc, e.Int(0), e.Len(nc)), e.sp(cont, hi, e.Len(cont))}, t))
		}
	} else {
		c.st.emit(&Effect{Kind: "sort", Name: c.name, Args: []*Term{v, less, e.seq(nil, t)}, Pos: c.pos, In: c.inFn(), Fn: less})
	}
	return c.ret()
}

// mapCopy models maps.Copy as the loop it is.
func (s *State) mapCopy(dst, src *Term, dt, stt types.Type, in *ssa.Function, pos token.Pos) {
	e := s.e
	srcC := s.MapContent(src, stt)
	dc := s.MapContent(dst, dt)
	if srcC.Op == "mempty" {
		return
	}
	e.loopCtr++
	l := &LoopSum{ID: "L" + e.Int(int64(e.loopCtr)).C.ExactString(), Kind: "maprange", Fn: in, Pos: pos, Coll: src, CollContent: srcC, items: map[*Term][][]*Term{},
		havoc: map[*Term]*Term{}, Pre: s.Clone(), Full: true}
	e.loops[l.ID] = l
	mt := stt.Underlying().(*types.Map)
	l.Key = e.Fresh("key."+l.ID, mt.Key())
	h := s.Clone()
	h.Trace = nil
	l.Val = e.lkRaw(srcC, l.Key, mt.Elem())
	h.Assume(e.Has(srcC, l.Key), true)
	l.Head = h.Clone()
	sym := e.Fresh("acc", dt)
	mcA := e.MC(dst, dt)
	l.Cells = []*Term{mcA}
	l.havoc[mcA] = sym
	it := h.Clone()
	it.set(mcA, e.mapUpd(sym, l.Key, l.Val))
	l.Iters = []*Iter{{St: it}}
	l.items[sym] = [][]*Term{{e.in.mk(Term{Op: "updp", A: []*Term{sym, l.Key, l.Val}})}}
	s.set(mcA, e.in.mk(Term{Op: "layer", S: l.ID, A: []*Term{dc, sym}, T: dt}))
	s.Trace = append(s.Trace, &Effect{Kind: "loop", Loop: l, Pos: pos, In: in, Mem: s.snapshot(), Fs: s.facts})
}

// ---------- interface methods with a fixed meaning

func (e *Engine) invokeModel(fr *frame, st *State, it, name string, recv *Term, args []*Term, sig *types.Signature, pos token.Pos) ([]*Exit, bool) {
	c := &callCtx{e: e, fr: fr, st: st, name: it + "." + name, args: append([]*Term{recv}, args...), sig: sig, pos: pos}
	switch name {
	case "Error":
		if sig.Params().Len() == 0 {
			if recv.Op == "app" && (recv.S == "errors.New" || recv.S == "fmt.Errorf") {
				return c.ret(recv.A[0]), true
			}
			return c.ret(e.App("Error", types.Typ[types.String], recv)), true
		}
	case "Write":
		if sig.Params().Len() == 1 && isStringish(sig.Params().At(0).Type()) {
			return c.ret(c.writeTo(recv, args[0])...), true
		}
	case "WriteString":
		if sig.Params().Len() == 1 && isStringish(sig.Params().At(0).Type()) {
			return c.ret(c.writeTo(recv, args[0])...), true
		}
	case "Header":
		if sig.Params().Len() == 0 {
			return c.ret(e.App("Header", sig.Results().At(0).Type(), recv)), true
		}
	}
	return nil, false
}

// ---------- builtins

func (e *Engine) builtin(fr *frame, p *path, b *ssa.Builtin, c *ssa.CallCommon, args []*Term, pos token.Pos, x *ssa.Call) (*Term, []*Exit) {
	st := p.st
	switch b.Name() {
	case "len":
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			e.access(fr, st, e.mcOf(args[0], c.Args[0].Type()), nil, false, false, pos)
		}
		t := c.Args[0].Type()
		if _, ok := t.Underlying().(*types.Map); ok {
			cont := st.MapContent(args[0], t)
			if cont.Op == "mempty" {
				return e.Int(0), nil
			}
			return e.Len(cont), nil
		}
		if isPtr(t) {
			return e.Int(t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()), nil
		}
		if _, ok := t.Underlying().(*types.Chan); ok {
			return e.Fresh("chanlen", types.Typ[types.Int]), nil
		}
		return e.Len(args[0]), nil
	case "cap":
		return e.App("cap", types.Typ[types.Int], args[0]), nil
	case "append":
		t := c.Args[0].Type()
		if isStringish(t) {
			if len(args) == 1 {
				return args[0], nil
			}
			extra := args[1]
			if extra.Op == "slice" { // variadic byte elements
				s := st.Seq(extra, t)
				var parts []*Term
				for _, q := range s.A {
					v := q
					if s.Op == "seq" {
						if q.Op != "el" {
							e.undecided("append of unknown bytes")
						}
						v = q.A[0]
					}
					parts = append(parts, e.charTerm(v, false))
				}
				return e.Cat(append([]*Term{args[0]}, parts...)...), nil
			}
			return e.Cat(args[0], extra), nil
		}
		if len(args) == 1 {
			return args[0], nil
		}
		bk, lo, hi, ok := st.sliceParts(args[1], t)
		if !ok {
			return args[0], nil
		}
		if e.cellT[bk] == nil {
			e.cellT[bk] = c.Args[1].Type()
		}
		sq := st.normSeq([]*Term{e.sp(st.content(bk), lo, hi)}, t)
		var extra []*Term
		switch sq.Op {
		case "seq":
			extra = sq.A
		default:
			extra = []*Term{e.sp(sq, e.Int(0), e.Len(sq))}
		}
		if len(extra) == 0 {
			return args[0], nil
		}
		return st.appendSlice(args[0], extra, t, pos), nil
	case "copy":
		t := c.Args[0].Type()
		if isStringish(t) {
			e.undecided("copy of bytes")
		}
		bk, lo, hi, ok := st.sliceParts(args[0], t)
		sk, slo, shi, ok2 := st.sliceParts(args[1], t)
		if !ok || !ok2 {
			return e.Int(0), nil
		}
		n1, n2 := e.Sub(hi, lo), e.Sub(shi, slo)
		n := n1
		if n1 != n2 && st.need(e.Lt(n2, n1)) {
			n = n2
		}
		cont := st.content(bk)
		src := st.content(sk)
		e.access(fr, st, bk, nil, true, false, pos)
		e.access(fr, st, sk, nil, false, false, pos)
		st.set(bk, st.normSeq([]*Term{e.sp(cont, e.Int(0), lo), e.sp(src, slo, e.Add(slo, n)), e.sp(cont, e.Add(lo, n), e.Len(cont))}, e.cellT[bk]))
		return n, nil
	case "delete":
		t := c.Args[0].Type()
		if args[0].Op == "nil" {
			return e.Tuple(), nil
		}
		e.access(fr, st, e.MC(args[0], t), nil, true, false, pos)
		st.set(e.MC(args[0], t), e.mapDel(st.MapContent(args[0], t), args[1]))
		return e.Tuple(), nil
	case "clear":
		t := c.Args[0].Type()
		if _, ok := t.Underlying().(*types.Map); ok {
			e.access(fr, st, e.MC(args[0], t), nil, true, false, pos)
			st.set(e.MC(args[0], t), e.in.mk(Term{Op: "mempty", T: t}))
			return e.Tuple(), nil
		}
	case "close":
		st.emit(&Effect{Kind: "close", Recv: args[0], Pos: pos, In: fr.fn})
		return e.Tuple(), nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			lt := e.ltT(a, r, c.Args[0].Type())
			if b.Name() == "max" {
				lt = e.ltT(r, a, c.Args[0].Type())
			}
			if st.need(lt) {
				r = a
			}
		}
		return r, nil
	case "recover":
		if fr.isDefer && st.panick != nil && !st.recov {
			st.recov = true
			return st.panick, nil
		}
		return e.Nil(), nil
	case "print", "println":
		return e.Tuple(), nil
	case "ssa:wrapnilchk":
		return args[0], nil
	}
	e.undecided("builtin %s", b.Name())
	return nil, nil
}
