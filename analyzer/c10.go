package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

const opsPkg = modPath + "/restapi/operations"

func init() {
	register("C10", func(p *Prog, r *Report) {
		r.explain = "the documented operations against the route table, the specification that is served and the handlers registered; and, on every path of every handler, the outcome of the operation behind it against the status of the answer"
		ops := c10Routes(p, r)
		c10Serve(p, r, ops)
		hs := c10Registered(p, r, ops)
		c10Handlers(p, r, ops, hs)
	})
}

// specOp: an operation of the specification
type specOp struct {
	method, path, id, name string
	codes                  map[int]bool
}

// the operation of the client behind each documented operation, and the parts of the
// request that have to be there
var behind = map[string]struct {
	op    string
	parts []string
}{
	"fave.root":                        {"", nil},
	"fave.createCollection":            {"CreateCollection", []string{"Name", "Indexes"}},
	"fave.deleteCollection":            {"DeleteCollection", nil},
	"fave.getCollections":              {"GetCollections", nil},
	"fave.addDocuments":                {"AddDocuments", []string{"Name", "Documents", "PropertiesToVectorize"}},
	"fave.getDocuments":                {"GetDocument", []string{"Collection"}},
	"fave.getNearestDocuments":         {"GetNearDocuments", []string{"Name", "Text"}},
	"fave.getNearestDocumentsByVector": {"GetNearDocumentsByVector", []string{"Name", "Vector"}},
}

// given: the parts of the request an operation gets as its parameters
var given = map[string][]string{
	"DeleteCollection":         {"Collection"},
	"AddDocuments":             {"Name", "PropertiesToVectorize"},
	"GetDocument":              {"Collection", "Property", "Value"},
	"GetNearDocuments":         {"Name", "Text", "Distance", "Limit"},
	"GetNearDocumentsByVector": {"Name", "", "Distance", "Limit"},
}

func goName(id string) string {
	out, up := "", true
	for _, c := range id {
		if !unicode.IsLetter(c) && !unicode.IsDigit(c) {
			up = true
			continue
		}
		if up {
			c = unicode.ToUpper(c)
			up = false
		}
		out += string(c)
	}
	return out
}

func readSpec(b []byte) (map[string]map[string]json.RawMessage, map[string]any, error) {
	var d struct {
		Paths map[string]map[string]json.RawMessage
	}
	if err := json.Unmarshal(b, &d); err != nil {
		return nil, nil, err
	}
	var all map[string]any
	err := json.Unmarshal(b, &all)
	return d.Paths, all, err
}

func c10Routes(p *Prog, r *Report) []*specOp {
	const rule, same = "routed", "served-specification"
	r.rule(rule, "each documented operation is registered once, at its documented method and path, with its own handler, and nothing else is")
	r.rule(same, "the specification the server routes by has the documented operations, parameters and responses")
	r.need(rule, 8)
	r.need(same, 1)
	b, err := os.ReadFile(filepath.Join(p.dir, "openapi-spec/schema.json"))
	if err != nil {
		r.anchor(rule, "openapi-spec/schema.json")
		return nil
	}
	paths, doc, err := readSpec(b)
	if err != nil {
		r.failf(rule, "openapi-spec/schema.json", "", "the specification cannot be read: %v", err)
		return nil
	}
	var ops []*specOp
	byID := map[string]*specOp{}
	for path, ms := range paths {
		for m, raw := range ms {
			var o struct {
				OperationID string `json:"operationId"`
				Responses   map[string]any
			}
			if m == "parameters" || json.Unmarshal(raw, &o) != nil {
				continue
			}
			op := &specOp{method: strings.ToUpper(m), path: path, id: o.OperationID, name: goName(o.OperationID), codes: map[int]bool{}}
			for c := range o.Responses {
				n := 0
				fmt.Sscan(c, &n)
				op.codes[n] = true
			}
			ops = append(ops, op)
			byID[op.id] = op
		}
	}
	sort.Slice(ops, func(i, j int) bool { return ops[i].id < ops[j].id })
	for id := range behind {
		if byID[id] == nil {
			r.failf(rule, "openapi-spec/schema.json", "", "the operation %s is not documented", id)
		}
	}
	// the specification the server has
	found := false
	for _, pk := range p.pkgs {
		if pk.PkgPath != modPath+"/restapi" {
			continue
		}
		for _, f := range pk.Syntax {
			ast.Inspect(f, func(n ast.Node) bool {
				e, ok := n.(ast.Expr)
				if !ok {
					return true
				}
				tv, ok := pk.TypesInfo.Types[e]
				if !ok || tv.Value == nil || tv.Value.Kind() != constant.String {
					return true
				}
				s := constant.StringVal(tv.Value)
				if !strings.Contains(s, `"paths"`) {
					return true
				}
				_, emb, err := readSpec([]byte(s))
				at := p.pos(e.Pos())
				if err != nil {
					r.failf(same, at, "", "the specification served cannot be read: %v", err)
					return false
				}
				found = true
				r.ok(same, at)
				if !reflect.DeepEqual(emb["paths"], doc["paths"]) || emb["basePath"] != doc["basePath"] {
					r.failf(same, at, "", "the operations of the specification served differ from the documented ones")
				}
				return false
			})
		}
	}
	if !found {
		r.anchor(same, "the embedded specification")
	}
	// the route table
	fn := mustFn(p, r, rule, "restapi/operations.(*FaveAPI).initHandlerCache")
	if fn == nil {
		return ops
	}
	got := map[string]string{}
	at := map[string]string{}
	h := &Hooks{KeepLock: true}
	h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
	h.Inline = func(inst *Inst, f *ssa.Function) bool {
		return f.Pkg != nil && f.Pkg.Pkg.Path() == opsPkg && f.Name() != "Context"
	}
	h.Tag = func(s *Sim, st *State, t *Term) *Term {
		if t.k == TCall && t.op == "lookup" && len(t.args) == 2 {
			if n, ok := t.args[1].str(); ok && isHandlerMap(t.typ) {
				return s.T.mk(TPure, "method:"+n, nil, nil, nil, 0, nil)
			}
		}
		return nil
	}
	h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
		mu, isMU := in.(*ssa.MapUpdate)
		if !isMU {
			return
		}
		k, ok := loc.args[1].str()
		if isHandlerMap(mu.Value.Type()) {
			if ok {
				s.setTag(st, val, s.T.mk(TPure, "method:"+k, nil, nil, nil, 0, nil))
			}
			return
		}
		if !isHandlerMap(mu.Map.Type()) {
			return
		}
		m := s.tag(st, loc.args[0])
		dbg("route", loc, val, m)
		if !ok || m == nil {
			s.violate(rule, in, inst, st, "a handler is registered at a method or path that cannot be told")
			return
		}
		key := strings.TrimPrefix(m.op, "method:") + " " + k
		v := val.unbox()
		name := strings.TrimPrefix(typeName(v.typ), opsPkg+".")
		if got[key] != "" && got[key] != name {
			s.violate(rule, in, inst, st, key+" is registered twice")
		}
		got[key], at[key] = name, p.instrPos(in)
		hf := ""
		for l, x := range st.mem {
			if l.k == TFieldAddr && l.op == "Handler" && l.args[0] == v {
				hf, _ = lastField(x)
			}
		}
		if hf != name+"Handler" {
			s.violate(rule, in, inst, st, "the operation "+name+" is registered with another handler than its own")
		}
	}
	s := newSim(p, h)
	s.Run(fn)
	r.take(s)
	for _, op := range ops {
		path := op.path
		if path == "/" {
			path = ""
		}
		key := op.method + " " + path
		r.ok(rule, key+" "+op.id)
		if got[key] != op.name {
			w := at[key]
			if w == "" {
				w = p.pos(fn.Pos())
			}
			r.failf(rule, w, shortFn(fn), "%s %s is documented as %s, but %s is registered there", op.method, op.path, op.id, orNothing(got[key]))
		}
		delete(got, key)
	}
	for key, n := range got {
		r.failf(rule, at[key], shortFn(fn), "%s is registered at %s, which is not documented", n, key)
	}
	return ops
}

func orNothing(s string) string {
	if s == "" {
		return "nothing"
	}
	return s
}

func isHandlerMap(t types.Type) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	return ok && typeName(m.Elem()) == "net/http.Handler"
}

const mwCtx = "(github.com/go-openapi/runtime/middleware.Context)."

// c10Serve: how a request gets to the handler of its operation
func c10Serve(p *Prog, r *Report, ops []*specOp) {
	const rule = "bound-first"
	r.rule(rule, "the handler of an operation is called only with parameters bound from the request without an error, and its answer is the one that is sent; a request that cannot be bound is answered with that error")
	r.need(rule, 8)
	for _, op := range ops {
		fn := mustFn(p, r, rule, "restapi/operations.(*"+op.name+").ServeHTTP")
		if fn == nil {
			continue
		}
		h := &Hooks{KeepLock: true}
		h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
		h.Inline = func(inst *Inst, f *ssa.Function) bool { return !strings.HasPrefix(f.Name(), "New") }
		h.Call = func(c *CallCtx) bool {
			s := c.S
			switch {
			case c.Name == mwCtx+"BindValidRequest":
				dst := c.Args[3].strip()
				forkErr(c, func(st *State) {
					setFlag(st, "bound", "1")
					st.mem[ghostCell(s, "params")] = dst
				}, func(st *State) { setFlag(st, "refused", "1") })
				call, _ := c.Instr.(*ssa.Call)
				for _, o := range c.outs {
					if flagOf(o, "refused") != "" && call != nil {
						o.mem[ghostCell(s, "err")] = s.val(o, c.Inst, call)
					}
				}
				return true
			case strings.HasSuffix(c.Name, "Handler.Handle"):
				r.ok(rule, op.id+" handled "+p.instrPos(c.Instr))
				if flagOf(c.St, "bound") == "" {
					s.violate(rule, c.Instr, c.Inst, c.St, "the handler of "+op.id+" may be called with a request that was not bound")
				}
				if a := c.St.mem[ghostCell(s, "params")]; a != nil && !c.Args[1].any(func(x *Term) bool { return x == a }) {
					s.violate(rule, c.Instr, c.Inst, c.St, "the handler of "+op.id+" is not called with the parameters of the request")
				}
				if flagOf(c.St, "handled") != "" {
					s.violate(rule, c.Instr, c.Inst, c.St, "the handler of "+op.id+" may be called twice")
				}
				out := c.FreshAll(c.St)
				setFlag(c.St, "handled", "1")
				c.St.mem[ghostCell(s, "answer")] = out[0]
				c.Out(c.St, out...)
				return true
			case c.Name == mwCtx+"Respond":
				want := c.St.mem[ghostCell(s, "answer")]
				if flagOf(c.St, "refused") != "" {
					want = c.St.mem[ghostCell(s, "err")]
				}
				if want == nil || c.Args[5].unbox() != want.unbox() {
					s.violate(rule, c.Instr, c.Inst, c.St, "what is sent for "+op.id+" may not be the answer of its handler")
				}
				if flagOf(c.St, "sent") != "" {
					s.violate(rule, c.Instr, c.Inst, c.St, "a request of "+op.id+" may be answered twice")
				}
				setFlag(c.St, "sent", "1")
			}
			return false
		}
		h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
			if flagOf(st, "sent") == "" {
				s.violate(rule, ret, inst, st, "a request of "+op.id+" may not be answered")
			}
		}
		s := newSim(p, h)
		s.Run(fn)
		r.take(s)
	}
}

// c10Registered: the function that handles each operation
func c10Registered(p *Prog, r *Report, ops []*specOp) map[string]*ssa.Function {
	const rule = "handled"
	r.rule(rule, "the handler set for each operation is the one that runs the operation of the client it is documented to run")
	r.need(rule, 8)
	out := map[string]*ssa.Function{}
	conf := mustFn(p, r, rule, "restapi.configureAPI")
	if conf == nil {
		return out
	}
	for _, f := range p.reach(conf) {
		if f.Pkg == nil || f.Pkg.Pkg.Path() == opsPkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || typeName(fa.X.Type()) != opsPkg+".FaveAPI" {
					continue
				}
				v := fieldVar(fa.X.Type(), fa.Field)
				if v == nil || !strings.HasSuffix(v.Name(), "Handler") {
					continue
				}
				g := p.funcOf(st.Val)
				op := strings.TrimSuffix(v.Name(), "Handler")
				if g == nil {
					r.failf(rule, p.instrPos(in), shortFn(f), "which function handles %s cannot be told", op)
					continue
				}
				if out[op] != nil && out[op] != g {
					r.failf(rule, p.instrPos(in), shortFn(f), "the handler of %s is set twice", op)
				}
				out[op] = g
			}
		}
	}
	for _, op := range ops {
		g := out[op.name]
		if g == nil {
			r.failf(rule, p.pos(conf.Pos()), shortFn(conf), "no handler is set for %s", op.id)
			continue
		}
		want := behind[op.id].op
		var calls []string
		for n := range p.clientCalls(g) {
			calls = append(calls, n)
		}
		sortStrings(calls)
		r.ok(rule, op.id+" by "+shortFn(g))
		if got := strings.Join(calls, ", "); got != want {
			r.failf(rule, p.pos(g.Pos()), shortFn(g), "the handler of %s runs %s, not %s", op.id, orNothing(got), orNothing(want))
		}
	}
	return out
}

// funcOf: the function behind a function value (possibly converted and boxed)
func (p *Prog) funcOf(v ssa.Value) *ssa.Function {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.MakeClosure:
			v = x.Fn
		case *ssa.Function:
			if x.Synthetic != "" && x.Object() != nil {
				if o, ok := x.Object().(*types.Func); ok {
					return p.ssa.FuncValue(o)
				}
			}
			return x
		default:
			return nil
		}
	}
}

// c10Handlers: the answer of a handler against the outcome of its operation
func c10Handlers(p *Prog, r *Report, ops []*specOp, hs map[string]*ssa.Function) {
	const rule, listed, parts, all, vals = "answers-outcome", "documented-status", "required-parts", "nothing-left-out", "request-values"
	r.rule(rule, "a handler answers with a success status exactly on the paths on which the operation behind it was run and neither it nor anything after it failed")
	r.rule(listed, "every status a handler answers with is documented for its operation")
	r.rule(parts, "the operation is run only with a request known to have its required parts")
	r.rule(all, "every document of an add request is passed on with its own id and properties, and every result of an operation is in the answer")
	r.rule(vals, "what the operation is given are the values of the request")
	r.need(vals, 8)
	r.need(rule, 14)
	r.need(listed, 14)
	r.need(parts, 8)
	r.need(all, 4)
	for _, op := range ops {
		if fn := hs[op.name]; fn != nil {
			c10Handler(p, r, op, fn, rule, listed, parts, all, vals)
		}
	}
}

func c10Handler(p *Prog, r *Report, op *specOp, fn *ssa.Function, rule, listed, parts, all, vals string) {
	b := behind[op.id]
	opName := "(" + docPkg + ".Client)." + b.op
	h := &Hooks{KeepLock: true, Inline: notClient}
	h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
	isResult := func(s *Sim, st *State, t *Term) bool {
		g := s.tag(st, t)
		return g != nil && g.op == "result"
	}
	res := &scan{name: "res", isList: isResult}
	docs := &scan{name: "doc", isList: func(s *Sim, st *State, t *Term) bool {
		path, root := rootFieldPath(t)
		return b.op == "AddDocuments" && root != nil && root.k == TParam && len(path) > 0 && path[len(path)-1] == "Documents"
	}}
	vec := &scan{name: "vec", isList: func(s *Sim, st *State, t *Term) bool {
		path, root := rootFieldPath(t)
		return b.op == "GetNearDocumentsByVector" && root != nil && root.k == TParam && len(path) > 0 && path[len(path)-1] == "Vector"
	}}
	h.Load = func(s *Sim, inst *Inst, in *ssa.UnOp, st *State, loc, val *Term) {
		vec.load(s, st, loc)
		docs.load(s, st, loc)
		res.load(s, st, loc)
	}
	h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, c *Term, truth bool) bool {
		vec.refine(s, st, c, truth)
		docs.refine(s, st, c, truth)
		res.refine(s, st, c, truth)
		c, truth = cond(c, truth)
		if f, ok := givenPart(c, truth); ok {
			setFlag(st, "has-"+f, "1")
		}
		return true
	}
	h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
		// an element was put into a list
		if loc.k == TIndexAddr {
			_, fixed := loc.args[1].int64()
			for _, n := range []string{"doc-last", "res-last"} {
				if last := st.mem[ghostCell(s, n)]; last != nil && len(last.args) > 1 && last.args[1] == loc.args[1] {
					fixed = false
				}
			}
			if !fixed {
				c10Put(s, st, docs, res, val)
			}
			if last := st.mem[ghostCell(s, "vec-last")]; last != nil && len(last.args) > 1 && val.any(func(x *Term) bool { return x == last }) {
				if locRoot(loc).k == TAlloc && isArray(locRoot(loc).typ) {
					// the list of what is appended
				} else if loc.args[1] == last.args[1] {
					vec.done(st)
					s.setTag(st, loc.args[0], s.T.mk(TPure, "vector", nil, nil, nil, 0, nil))
				} else {
					s.violate(vals, in, inst, st, "a number of the query vector is moved to another position")
				}
			}
		}
	}
	h.Call = func(c *CallCtx) bool {
		s := c.S
		if c.Name == opName && b.op != "" {
			for _, q := range b.parts {
				r.ok(parts, q+" of "+op.id)
				if flagOf(c.St, "has-"+q) == "" {
					s.violate(parts, c.Instr, c.Inst, c.St, "the operation behind "+op.id+" may be run although the request has no "+q)
				}
			}
			for i, want := range given[b.op] {
				if want == "" || i+1 >= len(c.Args) {
					continue
				}
				r.ok(vals, want+" of "+op.id)
				path, root := rootFieldPath(c.Args[i+1])
				if root == nil || root.k != TParam || len(path) == 0 || path[len(path)-1] != want {
					s.violate(vals, c.Instr, c.Inst, c.St, "the operation behind "+op.id+" is not given the "+want+" of the request")
				}
			}
			if b.op == "GetNearDocumentsByVector" {
				r.ok(vals, "Vector of "+op.id)
				if path, root := rootFieldPath(c.Args[2]); root != nil && root.k == TParam && len(path) > 0 && path[len(path)-1] == "Vector" {
				} else if why := vec.problem(s, c.St); why != "" {
					s.violate(vals, c.Instr, c.Inst, c.St, "the query vector may not be the one of the request: "+why)
				}
			}
			if flagOf(c.St, "op") != "" {
				s.violate(rule, c.Instr, c.Inst, c.St, "the operation behind "+op.id+" may be run twice")
			}
			if b.op == "AddDocuments" {
				r.ok(all, "documents "+p.instrPos(c.Instr))
				if why := docs.problem(s, c.St); why != "" {
					s.violate(all, c.Instr, c.Inst, c.St, "documents of the request may not be passed on: "+why)
				}
			}
			forkErr(c, func(st *State) { setFlag(st, "op", "ok") }, func(st *State) { setFlag(st, "op", "failed") })
			call, _ := c.Instr.(*ssa.Call)
			for _, o := range c.outs {
				if call == nil || flagOf(o, "op") != "ok" {
					continue
				}
				if call.Call.Signature().Results().Len() > 1 {
					if t := o.get(c.Inst, call, 0); t != nil {
						s.setTag(o, t, s.T.mk(TPure, "result", nil, nil, nil, 0, nil))
					}
				}
			}
			return true
		}
		if c.Name == "builtin:append" && len(c.Args) > 1 {
			if vs, ok := s.Varargs(c.St, c.Args[1]); ok {
				last := c.St.mem[ghostCell(s, "vec-last")]
				for _, v := range vs {
					if len(vs) == 1 && last != nil && v.any(func(x *Term) bool { return x == last }) && isFloats(c.Args[0].typ) {
						vec.done(c.St)
					}
					c10Put(s, c.St, docs, res, v)
				}
			}
		}
		if c.Name == "builtin:len" || stdCall(c) {
			return false
		}
		if extErr(c) {
			forkErr(c, nil, func(st *State) {
				if flagOf(st, "op") == "ok" {
					setFlag(st, "op", "late")
				}
			})
			return true
		}
		return false
	}
	h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, rs []*Term) {
		code := responderStatus(p, rs[0])
		at := p.instrPos(ret)
		if code == 0 {
			s.violate(listed, ret, inst, st, "what "+op.id+" is answered with cannot be told")
			return
		}
		good := code >= 200 && code < 300
		r.ok(rule, fmt.Sprintf("%s %d %s", op.id, code, at))
		r.ok(listed, fmt.Sprintf("%s %d %s", op.id, code, at))
		if !op.codes[code] {
			s.violate(listed, ret, inst, st, fmt.Sprintf("%s may be answered with status %d, which is not documented for it", op.id, code))
		}
		o := flagOf(st, "op")
		switch {
		case b.op == "":
			if !good {
				s.violate(rule, ret, inst, st, op.id+" may be answered with a failure although nothing failed")
			}
		case good && o == "":
			s.violate(rule, ret, inst, st, op.id+" may be answered with success although the operation was not run")
		case good && o == "failed":
			s.violate(rule, ret, inst, st, op.id+" may be answered with success although the operation failed")
		case good && o == "late":
			s.violate(rule, ret, inst, st, op.id+" may be answered with success although its result could not be read")
		case !good && o == "ok":
			s.violate(rule, ret, inst, st, op.id+" may be answered with a failure although the operation succeeded")
		}
		if good && o == "ok" && b.op != "GetDocument" && fnResults(p, opName) > 1 {
			r.ok(all, "results "+at)
			if why := res.problem(s, st); why != "" {
				s.violate(all, ret, inst, st, "results of the operation behind "+op.id+" may not be in the answer: "+why)
			}
		}
	}
	s := newSim(p, h)
	s.Run(fn)
	r.take(s)
}

func fnResults(p *Prog, name string) int {
	for _, f := range clientOps(p) {
		if "("+docPkg+".Client)."+f.Name() == name {
			return f.Signature.Results().Len()
		}
	}
	return 0
}

// c10Put: an element is put into a list that is passed on or answered
func c10Put(s *Sim, st *State, docs, res *scan, val *Term) {
	switch typeName(val.unbox().typ) {
	case docPkg + ".Document":
		last := st.mem[ghostCell(s, "doc-last")]
		own := map[string]bool{}
		for l, v := range st.mem {
			if l.k == TFieldAddr && l.args[0] == val.unbox() && last != nil && v.any(func(x *Term) bool { return x == last }) {
				if f, _ := lastField(v); f == l.op || v.any(func(x *Term) bool { return (x.k == TFieldAddr || x.k == TField) && x.op == l.op }) {
					own[l.op] = true
				}
			}
		}
		if own["ID"] && own["Properties"] {
			docs.done(st)
		}
	case modPath + "/models.Document", modPath + "/models.Collection":
		res.done(st)
	}
}

// givenPart: the condition tells that a part of the request is there
func givenPart(c *Term, truth bool) (string, bool) {
	if c.k != TBin || len(c.args) != 2 {
		return "", false
	}
	part := func(t *Term) (string, bool) {
		path, root := rootFieldPath(t)
		if root != nil && root.k == TParam && len(path) > 0 {
			return path[len(path)-1], true
		}
		return "", false
	}
	for i, a := range c.args {
		o := c.args[1-i]
		if c.op == "==" && !truth {
			if e, ok := o.str(); o.isNilConst() || ok && e == "" {
				if f, ok := part(a); ok {
					return f, true
				}
			}
		}
		if a.k == TLen {
			n, isC := o.int64()
			if !isC {
				continue
			}
			f, ok := part(a.args[0])
			if !ok {
				continue
			}
			switch {
			case c.op == "==" && !truth && n == 0,
				c.op == "<" && i == 1 && truth && n >= 0,  // n < len
				c.op == "<" && i == 0 && !truth && n >= 1, // !(len < n)
				c.op == "<=" && i == 1 && truth && n >= 1,
				c.op == "<=" && i == 0 && !truth && n >= 0:
				return f, true
			}
		}
	}
	return "", false
}

// clientCalls: the operations of the client a function of another package calls
func (p *Prog) clientCalls(f *ssa.Function) map[string]bool {
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if g.Synthetic != "" && g.Object() != nil {
						if o, ok := g.Object().(*types.Func); ok && p.ssa.FuncValue(o) != nil {
							g = p.ssa.FuncValue(o)
						}
					}
					if rc := g.Signature.Recv(); rc != nil && typeName(rc.Type()) == docPkg+".Client" {
						out[g.Name()] = true
					} else if p.inRepo[g] {
						walk(g)
					}
				}
			}
		}
	}
	walk(f)
	return out
}

func isArray(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := deref(t).Underlying().(*types.Array)
	return ok
}
