package props

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// response is what a handler sends.
type response struct {
	ctype  *Term
	status int64
	body   *Term
	bad    string
}

// respond reads a trace as an HTTP answer on rw.
func (s *Sc) respond(tr []*ai.Effect, rw *Term) response {
	r := response{status: 200}
	var parts []*Term
	begun := false
	Flatten(tr, func(ef *ai.Effect, ls []*ai.LoopSum) {
		switch {
		case ef.Kind == "call" && (ef.Name == "(net/http.Header).Set" || ef.Name == "(net/http.Header).Add") && ef.Args[0].Mentions(rw):
			if n, ok := ef.Args[1].StrVal(); ok && strings.EqualFold(n, "Content-Type") && !begun {
				r.ctype = ef.Args[2]
			}
		case ef.Kind == "invoke" && ef.Name == "WriteHeader" && ef.Recv == rw:
			if n, ok := ef.Args[0].IntVal(); ok && !begun {
				r.status = n
			} else {
				r.bad = fmt.Sprintf("the status is set to %v after the answer was begun", ef.Args[0])
			}
			begun = true
		case ef.Kind == "write" && ef.Recv == rw:
			if len(ls) > 0 {
				r.bad = "the answer is written in pieces by a loop"
			}
			begun = true
			parts = append(parts, ef.Args[0])
		}
	})
	r.body = s.Cat(parts...)
	return r
}

func (s *Sc) request(st *ai.State, fn *ssa.Function) (rw, req, path *Term) {
	ps := fn.Params
	n := len(ps)
	rw = s.Ptr(st, "rw", ps[n-2].Type())
	req = s.Ptr(st, "req", ps[n-1].Type())
	rt := ps[n-1].Type().(*types.Pointer).Elem()
	u := s.F(st, req, rt, "URL")
	st.Assume(s.Eq(u, s.Nil()), false)
	path = s.F(st, req, rt, "URL.Path")
	return
}

func jsonType(ct *Term) bool {
	if ct == nil {
		return false
	}
	v, ok := ct.StrVal()
	v, _, _ = strings.Cut(v, ";")
	return ok && strings.EqualFold(strings.TrimSpace(v), "application/json")
}

// jsonArg finds the call that encoded the answer.
func jsonArg(tr []*ai.Effect) (enc []*ai.Effect) {
	for _, ef := range tr {
		if ef.Kind == "call" && ef.Name == "json.Marshal" {
			enc = append(enc, ef)
		}
	}
	return
}

// encoded lists the JSON fields of the value given to an encoder.
func (s *Sc) encoded(st *ai.State, m *ai.Effect) (map[string]jsonField, types.Type) {
	if m.Args[0].Op != "iface" {
		return nil, nil
	}
	v, t := m.Args[0].A[0], m.Args[0].T
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		v = st.At(m.Mem).Load(v, t)
	}
	r := map[string]jsonField{}
	for _, f := range s.jsonFields(v, t) {
		r[f.name] = f
	}
	return r, t
}

func (s *Sc) failAnswer(r response, status int64, what string) string {
	switch {
	case r.bad != "":
		return r.bad
	case r.status != status:
		return fmt.Sprintf("%s is answered with status %d", what, r.status)
	case !jsonType(r.ctype):
		return fmt.Sprintf("%s is answered with content type %v", what, r.ctype)
	case s.Len(r.body) == s.Int(0):
		return what + " is answered with an empty body"
	}
	return ""
}

func checkC15(c *Ctx) {
	c.Scen("health endpoint", func(s *Sc) {
		for _, p := range s.pollingSinks() {
			// the request for a snapshot
			get := s.M(H, "JsonPollingSink", "GetMetrics")
			var ask *Term
			for _, x := range s.Call(p.cm.st.Clone(), get, p.cm.recv) {
				if se := sends(x.St.Trace[len(p.cm.st.Trace):]); len(se) == 1 {
					ask = se[0].Recv
				}
			}
			fn := s.M(H, "JsonPollingSink", "ServeHTTP")
			s.On(fn)
			st := p.cm.st.Clone()
			rw, req, path := s.request(st, fn)
			n0 := len(st.Trace)
			for _, x := range s.Call(st, fn, p.cm.recv, rw, req) {
				s.Msgs("the answer of the health endpoint", s.Cases(x.St, func(q *ai.State) []string {
					tr := q.Trace[n0:]
					r := s.respond(tr, rw)
					if r.bad != "" {
						return []string{r.bad}
					}
					if !q.Need(s.Eq(path, s.Str("/health"))) {
						return []string{s.failAnswer(r, 404, "an unknown path")}
					}
					enc := jsonArg(tr)
					if len(enc) != 1 {
						return []string{fmt.Sprintf("the snapshot is encoded %d times", len(enc))}
					}
					got, _ := s.encoded(q, enc[0])
					ok := func(n string, want *Term) string {
						f, has := got[n]
						if !has || f.val == nil {
							return "the answer has no " + n
						}
						if f.val != want && !q.Is(s.Eq(f.val, want)) {
							return fmt.Sprintf("%s is %v", n, f.val)
						}
						return ""
					}
					id := q.Load(s.Global(s.Pkg(H).SSA.Var("Identifier")), strT())
					bad := []string{ok("instance_id", id), ok("interval_duration", p.interval)}
					f, has := got["aggregations"]
					if !has || f.val == nil {
						return append(bad, "the answer has no aggregations")
					}
					snap := false
					for _, ef := range tr {
						if ef.Kind == "recv" && ef.Res == f.val {
							for _, se := range sends(tr) {
								if se.Recv == ask && ask != nil && se.Args[0] == ef.Recv {
									snap = true
								}
							}
						}
					}
					if !snap {
						bad = append(bad, fmt.Sprintf("aggregations is %v, not the current snapshot", f.val))
					}
					if !succeeded(enc[0]) {
						return append(bad, s.failAnswer(r, 500, "a snapshot that cannot be encoded"))
					}
					if r.status != 200 || !jsonType(r.ctype) {
						bad = append(bad, fmt.Sprintf("the snapshot is sent with status %d and content type %v", r.status, r.ctype))
					}
					if r.body != enc[0].Res.A[0] {
						bad = append(bad, fmt.Sprintf("the answer is %v instead of the encoded snapshot itself", r.body))
					}
					return bad
				}))
			}
		}
	})
}

// ---- C16: the wire format

// schema lists the JSON paths of a type with the kinds of their values.
func (s *Sc) schema(t types.Type, path string, out map[string]string, depth int) {
	add := func(k string) {
		if old, ok := out[path]; ok && old != k {
			k = "conflict"
		}
		out[path] = k
	}
	if depth > 12 {
		add("recursive")
		return
	}
	for _, q := range []types.Type{t, types.NewPointer(t)} {
		for _, n := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText"} {
			o, _, _ := types.LookupFieldOrMethod(q, true, nil, n)
			if f, ok := o.(*types.Func); ok {
				if nt, ok := types.Unalias(t).(*types.Named); ok && nt.Obj().Pkg() != nil && nt.Obj().Pkg().Path() == "time" && nt.Obj().Name() == "Time" {
					continue
				}
				add("custom encoding by " + f.FullName())
				return
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			add("string")
		case u.Info()&types.IsInteger != 0:
			add("integer")
		case u.Info()&types.IsFloat != 0:
			if u.Kind() == types.Float32 {
				add("float32")
			} else {
				add("number")
			}
		case u.Info()&types.IsBoolean != 0:
			add("bool")
		default:
			add("unsupported")
		}
	case *types.Pointer:
		s.schema(u.Elem(), path, out, depth+1)
	case *types.Slice:
		s.schema(u.Elem(), path+"[]", out, depth+1)
	case *types.Array:
		s.schema(u.Elem(), path+"[]", out, depth+1)
	case *types.Map:
		if b, ok := u.Key().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
			add("unsupported key")
			return
		}
		s.schema(u.Elem(), path+"{}", out, depth+1)
	case *types.Struct:
		if nt, ok := types.Unalias(t).(*types.Named); ok && nt.Obj().Pkg() != nil && nt.Obj().Pkg().Path() == "time" {
			add("time")
			return
		}
		// fields by depth of embedding, as encoding/json does
		type fd struct {
			t    types.Type
			opts string
			dep  int
			n    int
		}
		fs := map[string]fd{}
		var walk func(u *types.Struct, dep int)
		walk = func(u *types.Struct, dep int) {
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				tag := structTag(u.Tag(i))
				name, opts, _ := strings.Cut(tag, ",")
				if f.Embedded() && name == "" {
					ft := f.Type()
					if p, ok := ft.Underlying().(*types.Pointer); ok {
						ft = p.Elem()
						if !f.Exported() {
							fs[f.Name()] = fd{t: types.Typ[types.Invalid], n: 1}
						}
					}
					if e, ok := ft.Underlying().(*types.Struct); ok {
						walk(e, dep+1)
						continue
					}
				}
				if !f.Exported() {
					continue
				}
				if tag == "-" {
					fs["field "+f.Name()+" is left out"] = fd{t: types.Typ[types.Invalid], n: 1}
					continue
				}
				if name == "" {
					name = f.Name()
				}
				old, ok := fs[name]
				switch {
				case !ok || old.dep > dep && old.n == 0:
					n := fd{t: f.Type(), opts: opts, dep: dep, n: 1}
					if ok {
						n.n = 2 // hides another field: its data is missing
					}
					fs[name] = n
				default:
					old.n = 2
					fs[name] = old
				}
			}
		}
		walk(u, 0)
		for n, f := range fs {
			p := strings.TrimPrefix(path+"."+n, ".")
			switch {
			case f.n > 1:
				out[p] = "two fields of this name"
			case f.opts != "":
				out[p] = "option " + f.opts
			default:
				s.schema(f.t, p, out, depth+1)
			}
		}
		if len(fs) == 0 {
			add("empty object")
		}
	default:
		add("unsupported " + t.String())
	}
}

func structTag(tag string) string {
	return reflectTag(tag)
}

var timerNames = map[string]string{"count": "integer", "nanos_sum": "integer", "nanos_sum_squares": "number", "nanos_min": "integer", "nanos_max": "integer"}
var statusNamesJ = []string{"count_success", "count_validation_error", "count_panic", "count_error", "count_junk"}

func wireAggregation(prefix string) map[string]string {
	r := map[string]string{}
	maps := func(p string) {
		for k, v := range timerNames {
			r[p+"timers{}."+k] = v
		}
		r[p+"gauges{}"] = "number"
		r[p+"events{}"] = "integer"
		r[p+"event_errs{}.count"] = "integer"
	}
	r[prefix+"interval_start"] = "time"
	r[prefix+"serial_number"] = "integer"
	maps(prefix)
	maps(prefix + "jobs{}.")
	for k, v := range timerNames {
		r[prefix+"jobs{}."+k] = v
	}
	for _, k := range statusNamesJ {
		r[prefix+"jobs{}."+k] = "integer"
	}
	return r
}

func wire(more map[string]string) map[string]string {
	r := map[string]string{"instance_id": "string", "interval_duration": "integer"}
	for k, v := range more {
		r[k] = v
	}
	return r
}

type wireRoot struct {
	pkg, name string
	want      map[string]string
}

func wireRoots() []wireRoot {
	jobs := map[string]string{"jobs[].name": "string", "jobs[].nanos_avg": "number", "jobs[].nanos_std_dev": "number"}
	for k, v := range timerNames {
		jobs["jobs[]."+k] = v
	}
	for _, k := range statusNamesJ {
		jobs["jobs[]."+k] = "integer"
	}
	hosts := map[string]string{}
	for k, v := range map[string]string{"host_port": "string", "last_check_time": "time", "last_instance_id": "string", "last_interval_duration": "integer",
		"last_err": "string", "last_nanos": "integer", "last_code": "integer", "first_successful_response": "time", "last_successful_response": "time"} {
		hosts["hosts[]."+k] = v
	}
	return []wireRoot{
		{H, "HealthAggregationsResponse", wire(wireAggregation("aggregations[]."))},
		{HD, "ApiResponseAggregations", wire(wireAggregation("aggregations[]."))},
		{HD, "ApiResponseAggregationsOverall", wire(wireAggregation("overall."))},
		{HD, "ApiResponseJobs", wire(jobs)},
		{HD, "ApiResponseHosts", wire(hosts)},
	}
}

func diffSchema(got, want map[string]string) (r []string) {
	for k, v := range want {
		if g, ok := got[k]; !ok {
			r = append(r, fmt.Sprintf("%s is missing", k))
		} else if g != v {
			r = append(r, fmt.Sprintf("%s is %s instead of %s", k, g, v))
		}
	}
	for k, v := range got {
		if _, ok := want[k]; !ok && v != "empty object" {
			r = append(r, fmt.Sprintf("%s (%s) is not a documented field", k, v))
		}
	}
	sort.Strings(r)
	return
}

func checkC16(c *Ctx) {
	c.Scen("wire format", func(s *Sc) {
		roots := wireRoots()
		for _, r := range roots {
			t := s.T(r.pkg, r.name)
			s.Fnm, s.Pos = r.pkg+"."+r.name, s.Pkg(r.pkg).Types.Scope().Lookup(r.name).Pos()
			got := map[string]string{}
			s.schema(t, "", got, 0)
			s.C.Paths += len(got)
			d := diffSchema(got, r.want)
			s.Ok(len(d) == 0, "every field under its own documented name", "%s", strings.Join(d, "; "))
		}
		// consumers decode what producers encode
		decoders := map[string]bool{}
		for _, pkg := range []string{HD, HT} {
			for fn := range s.C.P.Functions() {
				if fn.Pkg == nil || fn.Pkg.Pkg.Path() != pkg {
					continue
				}
				for _, b := range fn.Blocks {
					for _, ins := range b.Instrs {
						call, ok := ins.(ssa.CallInstruction)
						if !ok {
							continue
						}
						f := call.Common().StaticCallee()
						if f == nil {
							continue
						}
						var arg ssa.Value
						switch f.String() {
						case "encoding/json.Unmarshal", "(*encoding/json.Decoder).Decode":
							arg = call.Common().Args[1]
						default:
							continue
						}
						s.On(fn)
						s.Pos = ins.Pos()
						for _, t := range s.boxed(arg, 0) {
							name := ""
							if t != nil {
								got := map[string]string{}
								s.schema(t, "", got, 0)
								for _, r := range roots {
									if len(diffSchema(got, r.want)) == 0 {
										name = r.name
										decoders[name] = true
									}
								}
							}
							s.Ok(name != "", "answers are decoded into the type they were encoded from", "an answer is decoded into %v", t)
						}
					}
				}
			}
		}
		s.Ok(decoders["HealthAggregationsResponse"] && decoders["ApiResponseJobs"] && decoders["ApiResponseHosts"],
			"every consumer decodes its producer's type", "only %v are decoded", sortedKeys(decoders))
	})
}

// boxed: the (pointed-to) types of the values a decoder may be given.
func (s *Sc) boxed(v ssa.Value, depth int) []types.Type {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return []types.Type{p.Elem()}
		}
	case *ssa.ChangeInterface:
		return s.boxed(x.X, depth)
	case *ssa.Parameter:
		if depth > 3 {
			return []types.Type{nil}
		}
		var r []types.Type
		for i, p := range x.Parent().Params {
			if p != x {
				continue
			}
			for fn := range s.C.P.Functions() {
				for _, b := range fn.Blocks {
					for _, ins := range b.Instrs {
						if call, ok := ins.(ssa.CallInstruction); ok && call.Common().StaticCallee() == x.Parent() {
							r = append(r, s.boxed(call.Common().Args[i], depth+1)...)
						}
					}
				}
			}
		}
		return r
	}
	return []types.Type{nil}
}
