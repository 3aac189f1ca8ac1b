package props

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"verif/analyzer/ai"
)

var statusText = map[string]string{"Success": "success", "ValidationError": "validation_error", "Panic": "panic", "Error": "error", "Junk": "junk"}

// writeEffects checks that a trace touches the outside world only through writes, and returns them.
func (s *Sc) writeEffects(tr []*ai.Effect) (ws []*ai.Effect, bad string) {
	Flatten(tr, func(ef *ai.Effect, ls []*ai.LoopSum) {
		switch ef.Kind {
		case "write":
			if len(ls) > 0 {
				bad = "a record is written in pieces by the loop at " + s.C.pos(ls[0].Pos)
			}
			ws = append(ws, ef)
		case "go", "send", "print":
			bad = fmt.Sprintf("%s at %s: the record is not written by the call itself", ef.Kind, s.C.pos(ef.Pos))
		case "dyn", "invoke":
			if ef.Name != "Error" && ef.Name != "String" {
				bad = fmt.Sprintf("%s %s at %s", ef.Kind, ef.Name, s.C.pos(ef.Pos))
			}
		}
	})
	return
}

func partsOf(t *Term) []*Term {
	if t.Op == "cat" {
		return t.A
	}
	return []*Term{t}
}

// isNow: a formatted current time, read during the call.
func isNow(t *Term, tr []*ai.Effect) bool {
	if t.Op != "app" || t.S != "time.Format" {
		return false
	}
	ok := false
	for _, ef := range tr {
		if ef.Kind == "call" && ef.Name == "time.Now" && t.A[0].Mentions(ef.Res) {
			ok = true
		}
	}
	return ok
}

// emitCalls analyses every emit method of a sink for an arbitrary receiver.
func (s *Sc) emitCalls(pkg, typ string, f func(r record, x *ai.Exit, recv *Term)) {
	for _, r := range s.emissions() {
		fn := s.M(pkg, typ, r.method)
		s.On(fn)
		st := s.NewState()
		recv := s.Ptr(st, "sink", s.PT(pkg, typ))
		if r.method == "EmitEventErr" {
			st.Assume(s.Eq(r.val, s.Nil()), false)
		}
		for _, x := range s.Call(st, fn, append([]*Term{recv}, r.args...)...) {
			f(r, x, recv)
		}
	}
}

func (r record) kvs() *Term { return r.args[len(r.args)-1] }

// pairs: the text holds every key and value of kvs, sorted by key, separated by sep.
func (s *Sc) pairs(st *ai.State, t, kvs *Term, sep string) string {
	content := st.MapContent(kvs, mapSS())
	keys := s.App("keys", types.NewSlice(strT()), content)
	each := t
	join := false
	if t.Op == "app" && t.S == "join" {
		if x, ok := t.A[1].StrVal(); !ok || x != sep {
			return "key/values are joined by something else than " + sep
		}
		join = true
		each = t.A[0]
		for {
			if each.Op == "seq" && len(each.A) == 1 {
				each = each.A[0]
			} else if each.Op == "sp" && st.Is(s.Eq(each.A[1], s.Int(0))) && st.Is(s.Eq(each.A[2], s.Len(content))) {
				each = each.A[0]
			} else {
				break
			}
		}
	}
	if each.Op != "each" {
		return fmt.Sprintf("key/values are written as %v", t)
	}
	l := s.LoopOf(each)
	if l.Kind != "index" || !l.Full || l.Desc || !st.Is(s.Eq(l.Lo, s.Int(0))) {
		return "not every key is written, or not in order"
	}
	sk := s.App("sorted", types.NewSlice(strT()), keys)
	if !st.Is(s.Eq(l.Hi, s.Len(content))) && !st.Is(s.Eq(l.Hi, s.Len(sk))) {
		return fmt.Sprintf("keys are written up to %v only", l.Hi)
	}
	try := func(style int) string {
		for i, items := range s.Items(each) {
			it := l.Iters[i]
			bad := s.Cases(it.St, func(q *ai.State) []string {
				k := q.Elem(sk, l.Idx, strT())
				if !q.Assume(s.Has(content, k), true) {
					return nil
				}
				v, has := q.Lookup(content, k, strT())
				_ = has
				want := s.Cat(k, s.Str(":"), v)
				got := items
				if join {
					if len(items) != 1 || items[0].Op != "el" {
						return []string{"a key is left out or written twice"}
					}
					got = []*Term{items[0].A[0]}
				} else if style == 0 {
					if !q.Need(s.Eq(l.Idx, s.Sub(s.Len(content), s.Int(1)))) {
						want = s.Cat(want, s.Str(sep))
					}
				} else if !q.Need(s.Eq(l.Idx, s.Int(0))) {
					want = s.Cat(s.Str(sep), want)
				}
				if g := s.Cat(got...); g != want && !q.Is(s.Eq(g, want)) {
					return []string{fmt.Sprintf("a key/value is written as %v instead of %v", g, want)}
				}
				return nil
			})
			for _, b := range bad {
				if b != "" {
					return b
				}
			}
		}
		return ""
	}
	m := try(0)
	if m != "" && !join && try(1) == "" {
		return ""
	}
	return m
}

func checkC17(c *Ctx) {
	c.Scen("log writer sink", func(s *Sc) {
		s.emitCalls(H, "WriterSink", func(r record, x *ai.Exit, recv *Term) {
			s.Msgs("one complete line in one write", s.Cases(x.St, func(st *ai.State) []string {
				return s.line(r, st, recv)
			}))
		})
	})
}

func (s *Sc) line(r record, st *ai.State, recv *Term) []string {
	ws, bad := s.writeEffects(st.Trace)
	if bad != "" {
		return []string{bad}
	}
	if len(ws) != 1 {
		return []string{fmt.Sprintf("a record leads to %d writes", len(ws))}
	}
	if w := s.F(st, recv, s.T(H, "WriterSink"), "Writer"); ws[0].Recv != w {
		return []string{fmt.Sprintf("the line is written to %v", ws[0].Recv)}
	}
	data := ws[0].Args[0]
	ps := partsOf(data)
	var ts *Term
	for _, p := range ps {
		if isNow(p, st.Trace) {
			ts = p
			break
		}
	}
	if ts == nil {
		return []string{"the line has no timestamp of the record"}
	}
	ns := func() []*Term {
		if st.Need(s.Lt(s.Int(2000000), r.val)) {
			return []*Term{s.App("dec", strT(), s.App("div", i64T(), r.val, s.Int(1000000))), s.Str(" ms")}
		}
		if st.Need(s.Lt(s.Int(2000), r.val)) {
			return []*Term{s.App("dec", strT(), s.App("div", i64T(), r.val, s.Int(1000))), s.Str(" μs")}
		}
		return []*Term{s.App("dec", strT(), r.val), s.Str(" ns")}
	}
	want := []*Term{s.Str("["), ts, s.Str("]: job:"), r.job}
	if r.status != "" {
		want = append(want, s.Str(" status:"), s.Str(statusText[r.status]), s.Str(" time:"))
		want = append(want, ns()...)
	} else {
		want = append(want, s.Str(" event:"), r.event)
	}
	switch r.method {
	case "EmitEventErr":
		want = append(want, s.Str(" err:"), s.App("Error", strT(), r.val))
	case "EmitTiming":
		want = append(want, s.Str(" time:"))
		want = append(want, ns()...)
	case "EmitGauge":
		want = append(want, s.Str(" gauge:"), s.App("ffmt:g", strT(), r.val))
	}
	none := s.Cat(append(want, s.Str("\n"))...)
	if st.Need(s.Eq(r.kvs(), s.Nil())) {
		if data != none {
			return []string{fmt.Sprintf("the line is %v instead of %v", data, none)}
		}
		return nil
	}
	if data == none && st.Is(s.Eq(s.Len(st.MapContent(r.kvs(), mapSS())), s.Int(0))) {
		return nil
	}
	pre := partsOf(s.Cat(append(want, s.Str(" kvs:["))...))
	end := s.Str("]\n")
	if data == s.Cat(append(append([]*Term{}, pre...), end)...) && st.Is(s.Eq(s.Len(st.MapContent(r.kvs(), mapSS())), s.Int(0))) {
		return nil
	}
	if len(ps) != len(pre)+2 || ps[len(ps)-1] != end || !reflect.DeepEqual(ps[:len(pre)], pre) {
		return []string{fmt.Sprintf("the line is %v instead of %v, the key/values and ]", data, s.Cat(pre...))}
	}
	return []string{s.pairs(st, ps[len(pre)], r.kvs(), " ")}
}

// jsonField is one field of a value as encoding/json sees it.
type jsonField struct {
	name string
	val  *Term
	t    types.Type
	opts string
}

// jsonFields lists the JSON fields of a struct type; name collisions and hidden fields are reported.
func (s *Sc) jsonFields(v *Term, t types.Type) (r []jsonField) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		name, opts, _ := strings.Cut(tag, ",")
		if tag == "-" {
			continue
		}
		var fv *Term
		if v != nil {
			fv = s.Field(v, i, f.Type())
		}
		if f.Embedded() && name == "" {
			ft := f.Type()
			if p, ok := ft.Underlying().(*types.Pointer); ok {
				ft, fv = p.Elem(), nil
			}
			if _, ok := ft.Underlying().(*types.Struct); ok {
				r = append(r, s.jsonFields(fv, ft)...)
				continue
			}
		}
		if !f.Exported() {
			continue
		}
		if name == "" {
			name = f.Name()
		}
		r = append(r, jsonField{name, fv, f.Type(), opts})
	}
	return
}

func checkC18(c *Ctx) {
	c.Scen("JSON writer sink", func(s *Sc) {
		s.emitCalls(H, "JsonWriterSink", func(r record, x *ai.Exit, recv *Term) {
			s.Msgs("one complete JSON object in one write", s.object(r, x.St, recv))
		})
	})
}

func (s *Sc) object(r record, st *ai.State, recv *Term) []string {
	ws, bad := s.writeEffects(st.Trace)
	if bad != "" {
		return []string{bad}
	}
	var m *ai.Effect
	for _, ef := range st.Trace {
		if ef.Kind == "call" && ef.Name == "json.Marshal" {
			if m != nil {
				return []string{"a record is encoded twice"}
			}
			m = ef
		}
	}
	if m == nil {
		return []string{"the record is not encoded"}
	}
	if m.Args[0].Op != "iface" {
		return []string{fmt.Sprintf("%v is encoded", m.Args[0])}
	}
	if !succeeded(m) {
		if len(ws) > 0 {
			return []string{"something is written although the record could not be encoded"}
		}
	} else {
		if len(ws) != 1 {
			return []string{fmt.Sprintf("a record leads to %d writes", len(ws))}
		}
		if w := s.F(st, recv, s.T(H, "JsonWriterSink"), "Writer"); ws[0].Recv != w {
			return []string{fmt.Sprintf("the object is written to %v", ws[0].Recv)}
		}
		if d := ws[0].Args[0]; m.Res == nil || m.Res.Op != "tuple" || d != m.Res.A[0] {
			return []string{fmt.Sprintf("%v is written instead of the encoded object", d)}
		}
	}
	v, t := m.Args[0].A[0], m.Args[0].T
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		v = st.WithFacts(nil).At(m.Mem).Load(v, t)
	}
	got := map[string]jsonField{}
	for _, f := range s.jsonFields(v, t) {
		if _, dup := got[f.name]; dup || f.opts != "" {
			return []string{fmt.Sprintf("field %s may be missing", f.name)}
		}
		got[f.name] = f
	}
	if len(got) == 0 {
		return []string{fmt.Sprintf("a value of type %s is encoded, which is not a JSON object with fields", t)}
	}
	want := map[string]*Term{"Job": r.job, "Kvs": r.kvs(), "Timestamp": nil}
	if r.status != "" {
		want["Status"], want["Nanoseconds"] = s.Str(statusText[r.status]), r.val
	} else {
		want["Event"] = r.event
	}
	switch r.method {
	case "EmitEventErr":
		want["Err"] = s.App("Error", strT(), r.val)
	case "EmitTiming":
		want["Nanoseconds"] = r.val
	case "EmitGauge":
		want["Value"] = r.val
	}
	for n, w := range want {
		f, ok := got[n]
		if !ok || f.val == nil {
			return []string{"the object has no field " + n}
		}
		if w == nil {
			if !isNow(f.val, st.Trace) {
				return []string{fmt.Sprintf("%s is %v", n, f.val)}
			}
		} else if f.val != w && !st.Is(s.Eq(f.val, w)) && !(n == "Kvs" && s.sameContent(st, f, w)) {
			return []string{fmt.Sprintf("%s is %v instead of %v", n, f.val, w)}
		}
	}
	for n := range got {
		if _, ok := want[n]; !ok {
			return []string{"the object has an additional field " + n}
		}
	}
	return nil
}

// sameContent: a map with the same entries.
func (s *Sc) sameContent(st *ai.State, f jsonField, w *Term) bool {
	if _, ok := f.t.Underlying().(*types.Map); !ok {
		return false
	}
	return s.sameMap(st, st.MapContent(w, mapSS()), st, st.MapContent(f.val, mapSS()), mapSS().Underlying().(*types.Map), "kvs") == ""
}

// succeeded: a call that can fail returned without an error.
func succeeded(ef *ai.Effect) bool {
	r := ef.Res
	return r != nil && r.Op == "tuple" && r.A[len(r.A)-1].Op == "nil"
}

func reflectTag(tag string) string { return reflect.StructTag(tag).Get("json") }
