package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const vecPkg = modPath + "/pkg/vectorizer"

func init() {
	register("C18", func(p *Prog, r *Report) {
		r.explain = "typestate of HTTP responses on every path of the vectorizer client: sent, status checked, decoded, embedding checked, closed; and the time limit of every HTTP client it uses"
		c18Result(p, r)
	})
}

// httpSend: a call that sends a request and gets a response
func httpSend(name string) bool {
	for _, m := range []string{"Do", "Get", "Post", "PostForm", "Head"} {
		if name == "(net/http.Client)."+m || name == "net/http."+m {
			return true
		}
	}
	return strings.HasSuffix(name, "RoundTripper.RoundTrip")
}

// implementers: the named types of the module that implement an interface of the module
func (p *Prog) implementers(path, name string) []*types.Named {
	var iface *types.Interface
	for _, pk := range p.ssa.AllPackages() {
		if pk.Pkg.Path() == path {
			if o := pk.Pkg.Scope().Lookup(name); o != nil {
				iface, _ = o.Type().Underlying().(*types.Interface)
			}
		}
	}
	if iface == nil {
		return nil
	}
	var out []*types.Named
	for _, pk := range p.ssa.AllPackages() {
		if !strings.HasPrefix(pk.Pkg.Path(), modPath) {
			continue
		}
		for _, n := range pk.Pkg.Scope().Names() {
			tn, ok := pk.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if nt, ok := tn.Type().(*types.Named); ok && !types.IsInterface(nt) && types.Implements(types.NewPointer(nt), iface) {
				out = append(out, nt)
			}
		}
	}
	return out
}

func c18Result(p *Prog, r *Report) {
	const res, lim, cls, up = "embedding-or-error", "bounded-time", "closed", "service-up"
	r.rule(res, "the client returns a vector without an error only if a response with a success status was received, its body was decoded without an error, and the vector is the non-empty one found under the name vector in what was decoded")
	r.rule(up, "the client is made only if the service answered the health check with a success status")
	r.rule(lim, "every request is sent through a client with a positive time limit, or with a context that has a deadline")
	r.rule(cls, "the body of every response is closed before the call returns")
	r.need(res, 1)
	r.need(up, 1)
	r.need(lim, 2)
	r.need(cls, 2)
	n := 0
	for _, nt := range p.implementers(vecPkg, "Vectorizer") {
		pkg := nt.Obj().Pkg().Path()
		uses := false
		for _, f := range p.funcs {
			if f.Pkg == nil || f.Pkg.Pkg.Path() != pkg || f.Parent() != nil || f.Blocks == nil || f.Object() == nil || !f.Object().Exported() {
				continue
			}
			sends := false
			for e := range p.externals(f) {
				sends = sends || httpSend(e)
			}
			isMethod := f.Signature.Recv() != nil && deref(f.Signature.Recv().Type()) == types.Type(nt)
			if !sends && !isMethod {
				continue
			}
			kind := ""
			rs := f.Signature.Results()
			for i := 0; i < rs.Len(); i++ {
				switch {
				case typeName(deref(rs.At(i).Type())) == vecPkg+".Vector":
					kind = res
				case types.Identical(deref(rs.At(i).Type()), nt):
					kind = up
				}
			}
			uses = uses || kind == res
			c18Fn(p, r, f, kind, res, up, lim, cls)
		}
		if uses {
			n++
		}
	}
	if n == 0 {
		r.anchor(res, "an implementation of the vectorizer interface")
	}
}

func c18Fn(p *Prog, r *Report, fn *ssa.Function, kind, res, up, lim, cls string) {
	h := &Hooks{KeepLock: true, Inline: func(inst *Inst, f *ssa.Function) bool { return true }}
	h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
	// a response always has a body: the path on which it has none is not taken
	h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, c *Term, truth bool) bool {
		c, truth = cond(c, truth)
		if c.op == "==" && truth && len(c.args) == 2 {
			for i, a := range c.args {
				if f, b := lastField(a); f == "Body" && b != nil && c.args[1-i].isNilConst() {
					if v := st.mem[ghostCell(s, "response")]; v != nil && v.unbox() == b.unbox() {
						return false
					}
				}
			}
		}
		return true
	}
	bounded := func(s *Sim, st *State, c *Term) bool {
		c = c.strip()
		for l, v := range st.mem {
			if l.k == TFieldAddr && l.op == "Timeout" && l.args[0] == c {
				if k, ok := v.int64(); ok && k > 0 {
					return true
				}
				return s.positive(st, v)
			}
		}
		// kept in a field: every client stored there is bounded
		if f, _ := lastField(c); f != "" {
			return flagOf(st, "deadline") != "" || c18Field(p, c)
		}
		if c.k == TLoad && c.args[0].k == TGlobal {
			return c18Global(p, c.args[0])
		}
		return false
	}
	h.Call = func(c *CallCtx) bool {
		s := c.S
		last := ghostCell(s, "response")
		body := ghostCell(s, "decoded")
		ofBody := func(t *Term) bool {
			return t.any(func(x *Term) bool {
				f, b := lastField(x)
				return f == "Body" && b == c.St.mem[last]
			})
		}
		switch {
		case httpSend(c.Name):
			r.ok(lim, "request "+p.instrPos(c.Instr))
			r.ok(cls, "response "+p.instrPos(c.Instr))
			ok := false
			if strings.HasPrefix(c.Name, "(net/http.Client).") {
				ok = bounded(s, c.St, c.Args[0])
			}
			if !ok && flagOf(c.St, "deadline") == "" {
				s.violate(lim, c.Instr, c.Inst, c.St, "a request is sent without a time limit")
			}
			if flagOf(c.St, "open") != "" && !closeDeferred(c.St, c.Inst) {
				s.violate(cls, c.Instr, c.Inst, c.St, "a response is left open when the next request is sent")
			}
			c.ErrFork(func(st *State) {
				setFlag(st, "open", "1")
				setFlag(st, "decoded", "")
				delete(st.mem, body)
			}, func(st *State) { setFlag(st, "open", "") })
			for _, o := range c.outs {
				if flagOf(o, "open") != "" {
					if call, ok := c.Instr.(*ssa.Call); ok {
						t := o.get(c.Inst, call, 0)
						s.setNil(o, t, 1)
						o.mem[last] = t
					}
				}
			}
			return true
		case strings.HasSuffix(c.Name, "Closer.Close") || strings.HasSuffix(c.Name, "ReadCloser.Close"):
			if f, b := lastField(c.Args[0]); f == "Body" && b == c.St.mem[last] {
				setFlag(c.St, "open", "")
			}
			return false
		case c.Name == "context.WithTimeout" || c.Name == "context.WithDeadline":
			setFlag(c.St, "ctx", "1")
			return false
		case c.Name == "net/http.NewRequestWithContext":
			forkErr(c, func(st *State) {
				if flagOf(st, "ctx") != "" {
					setFlag(st, "deadline", "1")
				}
			}, nil)
			return true
		case c.Name == "(encoding/json.Decoder).Decode" || c.Name == "encoding/json.Unmarshal":
			src := c.Args[0]
			if c.Name == "(encoding/json.Decoder).Decode" {
				if g := s.tag(c.St, src); g != nil && g.op == "decoder" {
					src = g.args[0]
				}
			}
			from := ofBody(src)
			if g := s.tag(c.St, src); g != nil && g.op == "read" {
				from = from || ofBody(g.args[0])
			}
			dst := c.Args[1].unbox()
			s.havoc(c.St, dst)
			c.ErrFork(func(st *State) {
				if from {
					st.mem[body] = dst
					setFlag(st, "decoded", "1")
				}
			}, nil)
			return true
		case c.Name == "encoding/json.NewDecoder":
			out := c.FreshAll(c.St)
			s.setNil(c.St, out[0], 1)
			s.setTag(c.St, out[0], s.T.mk(TPure, "decoder", nil, nil, nil, 0, nil, c.Args[0]))
			c.Out(c.St, out...)
			return true
		case c.Name == "io.ReadAll" || c.Name == "io/ioutil.ReadAll":
			forkErr(c, nil, nil)
			for _, o := range c.outs {
				if call, ok := c.Instr.(*ssa.Call); ok {
					s.setTag(o, o.get(c.Inst, call, 0), s.T.mk(TPure, "read", nil, nil, nil, 0, nil, c.Args[0]))
				}
			}
			return true
		}
		if stdCall(c) {
			return true
		}
		if extErr(c) {
			forkErr(c, nil, nil)
			return true
		}
		return false
	}
	h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
		if loc.k == TFieldAddr && val.typ != nil && typeName(deref(val.typ)) == "net/http.Client" {
			r.ok(lim, "client kept "+p.instrPos(in))
			if !bounded(s, st, val) {
				s.violate(lim, in, inst, st, "a client without a time limit is kept")
			}
		}
		if loc.k == TFieldAddr && loc.op == "Timeout" && typeName(deref(loc.args[0].typ)) == "net/http.Client" {
			if k, ok := val.int64(); ok && k <= 0 {
				s.violate(lim, in, inst, st, "the time limit of a client is removed")
			}
		}
	}
	h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, rs []*Term) {
		if flagOf(st, "open") != "" {
			s.violate(cls, ret, inst, st, "a response is not closed")
		}
		if kind == "" || s.nilness(st, rs[len(rs)-1]) == 1 {
			return
		}
		r.ok(kind, "success "+p.instrPos(ret))
		last := st.mem[ghostCell(s, "response")]
		if last == nil {
			s.violate(kind, ret, inst, st, "success may be reported without an answer of the service")
			return
		}
		if !goodStatus(s, st, last) {
			s.violate(kind, ret, inst, st, "success may be reported although the service answered with another status than success")
		}
		if kind != res {
			return
		}
		if flagOf(st, "decoded") == "" {
			s.violate(kind, ret, inst, st, "a vector may be returned that was not decoded from the answer")
			return
		}
		dst := st.mem[ghostCell(s, "decoded")]
		vec := s.content(st, rs[0])
		if vec == nil || !decodedVector(vec, dst, st) {
			s.violate(kind, ret, inst, st, "the vector returned is not the one the service sent")
			return
		}
		if !s.nonEmpty(st, vec) {
			s.violate(kind, ret, inst, st, "an empty vector may be returned without an error")
		}
	}
	s := newSim(p, h)
	s.Run(fn)
	r.take(s)
}

// content: the one slice in a struct, behind a pointer or not
func (s *Sim) content(st *State, t *Term) *Term {
	t = t.unbox()
	if v, ok := st.mem[t]; ok {
		t = v
	}
	if t.k == TStruct && len(t.args) == 1 {
		return t.args[0]
	}
	for l, v := range st.mem {
		if l.k == TFieldAddr && l.args[0] == t && v.typ != nil {
			if _, ok := v.typ.Underlying().(*types.Slice); ok {
				return v
			}
		}
	}
	return nil
}

// decodedVector: read from what was decoded, under the name the service uses
func decodedVector(v, dst *Term, st *State) bool {
	v = v.strip()
	if v.k == TCall && v.op == "lookup" && len(v.args) == 2 {
		k, ok := v.args[1].str()
		m := v.args[0]
		return ok && k == "vector" && m.k == TLoad && m.args[0] == dst
	}
	// a field of a struct
	if v.k == TLoad && v.args[0].k == TFieldAddr && v.args[0].args[0] == dst {
		st, ok := deref(dst.typ).Underlying().(*types.Struct)
		if !ok {
			return false
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == v.args[0].op {
				tag := st.Tag(i)
				return strings.Contains(tag, `json:"vector"`) || strings.Contains(tag, `json:"vector,`) || !strings.Contains(tag, "json:") && strings.EqualFold(v.args[0].op, "vector")
			}
		}
	}
	return false
}

// goodStatus: the status of the response is known to be a success
func goodStatus(s *Sim, st *State, resp *Term) bool {
	var ts []*Term
	seen := map[*Term]bool{}
	for t := range st.facts {
		t.any(func(x *Term) bool {
			if f, b := lastField(x); f == "StatusCode" && b == resp && !seen[x] {
				seen[x] = true
				ts = append(ts, x)
			}
			return false
		})
	}
	for _, t := range ts {
		if s.leq(st, s.T.intConst(200), t) && s.leq(st, t, s.T.intConst(299)) {
			return true
		}
	}
	for t, f := range st.facts {
		if t.k == TBin && t.op == "==" && f.truth == 1 {
			for i, a := range t.args {
				k, ok := t.args[1-i].int64()
				if ok && k == 2 && a.k == TBin && a.op == "/" {
					if d, ok := a.args[1].int64(); ok && d == 100 && seen[a.args[0].strip()] {
						return true
					}
				}
			}
		}
	}
	return false
}

func closeDeferred(st *State, inst *Inst) bool {
	for _, d := range st.defers[inst] {
		if c := d.instr.Common(); c.IsInvoke() && c.Method.Name() == "Close" {
			return true
		}
	}
	return false
}

// c18Field: every client stored in the field was made with a positive time limit
func c18Field(p *Prog, t *Term) bool {
	fv := termField(t)
	if fv == nil {
		return false
	}
	n := 0
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldOfAddr(fa) != fv {
					continue
				}
				n++ // what is stored is checked where it is stored
			}
		}
	}
	return n > 0
}

func termField(t *Term) *types.Var {
	t = t.strip()
	switch {
	case t.k == TLoad && t.args[0].k == TFieldAddr:
		v, _ := t.args[0].obj.(*types.Var)
		return v
	case t.k == TField:
		v, _ := t.obj.(*types.Var)
		return v
	}
	return nil
}

func fieldOfAddr(fa *ssa.FieldAddr) *types.Var {
	st, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	return st.Field(fa.Field)
}

// c18Global: a package-level client made with a positive time limit
func c18Global(p *Prog, t *Term) bool {
	g, _ := t.obj.(*ssa.Global)
	if g == nil {
		return false
	}
	al, ok := p.globalInit(g).(*ssa.Alloc)
	if !ok {
		return false
	}
	good := false
	for _, u := range refs(al) {
		if fa, ok := u.(*ssa.FieldAddr); ok && fieldOfAddr(fa) != nil && fieldOfAddr(fa).Name() == "Timeout" {
			for _, w := range refs(fa) {
				if st, ok := w.(*ssa.Store); ok {
					if c, ok := st.Val.(*ssa.Const); ok && c.Value != nil {
						t := &Term{k: TConst, c: c.Value}
						k, ok := t.int64()
						good = ok && k > 0
					}
				}
			}
		}
	}
	return good
}
