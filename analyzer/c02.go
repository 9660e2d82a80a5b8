package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	dfsAPI  = "(github.com/fairdatasociety/fairOS-dfs/pkg/dfs.API)."
	kvType  = "(github.com/fairdatasociety/fairOS-dfs/pkg/collection.KeyValue)."
	docPkg  = modPath + "/pkg/document"
	hnswPkg = modPath + "/pkg/hnsw"
	hndPkg  = modPath + "/adapters/handlers"
)

// failures that an operation is meant to tolerate
var tolerated = map[string][]string{
	dfsAPI + "DocCreate":     {"ErrDocumentDBAlreadyPresent", "ErrDocumentDBAlreadyOpened"},
	kvType + "CreateKVTable": {"ErrKvTableAlreadyPresent"},
	dfsAPI + "DocOpen":       {"ErrDocumentDBAlreadyOpened"},
	kvType + "KVGet":         {"ErrEntryNotFound"},
}

// calls whose error is of no consequence for the operation
func errIrrelevant(name string) bool {
	for _, p := range []string{"fmt.", "(strings.Builder)", "(bytes.Buffer)", "(os.File).Close", "iface:io.Closer.Close", "iface:io.ReadCloser.Close", "(os.File).Sync", "os.Stat"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// fa is the automaton state of the failure analysis: nothing failed yet, or the
// step at site failed with error err
type fa struct {
	site string
	name string
	err  *Term
	in   ssa.Instruction
	inst *Inst
	late bool            // the code around the failing step was left, or is run again
	fns  []*ssa.Function // the failing function, when it belongs to the repository
}

func (a fa) Key() string {
	if a.site == "" {
		return ""
	}
	if a.late {
		return "L:" + a.site
	}
	return "F:" + a.site
}
func (a fa) Kill(map[int]bool) AState { return a }

type failOpts struct {
	opaque   func(c *CallCtx) bool // treat as one failing step even though it is in the repository
	success  func(s *Sim, st *State, inst *Inst, ret *ssa.Return, res []*Term) (bad bool)
	creation bool
	rule     string
	only     func(c *CallCtx) bool // the steps whose failure is followed; all when nil
}

// failHooks: a step that fails makes the root report failure
func failHooks(r *Report, o failOpts) *Hooks {
	h := &Hooks{Unroll: true}
	h.Init = func(s *Sim, st *State, root *Inst) { st.A = fa{} }
	fail := func(c *CallCtx, st *State, e *Term) {
		site := fmt.Sprintf("%s %s", shortFn(c.Instr.Parent()), shortName(c.Name))
		st.A = fa{site: fmt.Sprintf("%p", c.Instr), name: c.Name, err: e, in: c.Instr, inst: c.Inst}
		if !nonNilErr[c.Name] {
			a := st.A.(fa)
			for _, t := range c.S.targets(c) {
				a.fns = append(a.fns, t.fn)
			}
			st.A = a
		}
		st.note("fails: " + shortName(c.Name) + " at " + r.p.instrPos(c.Instr))
		r.ok(o.rule, site+" "+r.p.instrPos(c.Instr)+" from "+shortFn(c.S.root.fn))
	}
	h.BackEdge = func(s *Sim, inst *Inst, st *State) {
		if a, _ := st.A.(fa); a.site != "" {
			a.late = true
			st.A = a
		}
	}
	h.CallReturn = func(s *Sim, callee *Inst, ret *ssa.Return, st *State, res []*Term) {
		if a, _ := st.A.(fa); a.site != "" && a.inst == callee {
			a.late = true
			st.A = a
		}
	}
	h.Call = func(c *CallCtx) bool {
		a, _ := c.St.A.(fa)
		s := c.S
		// absorbing tolerated failures
		if c.Name == "errors.Is" || c.Name == "github.com/pkg/errors.Is" {
			if s.nilness(c.St, c.Args[0]) == -1 {
				c.Out(c.St, s.T.boolConst(false))
				return true
			}
			t := s.T.mk(TPure, "errors.Is", nil, nil, nil, 0, types.Typ[types.Bool], c.Args[0], c.Args[1])
			c.Out(c.St, t)
			return true
		}
		if c.Name == "errors.As" || c.Name == "github.com/pkg/errors.As" {
			tgt := c.Args[1].unbox()
			name := ""
			if tgt.typ != nil {
				name = typeName(deref(tgt.typ))
			}
			s.havoc(c.St, tgt)
			t := s.T.mk(TPure, "errors.As:"+name, nil, nil, nil, 0, types.Typ[types.Bool], c.Args[0])
			c.Out(c.St, t)
			return true
		}
		// the tables of a collection may not be open yet
		if a.site != "" && a.name == kvType+"KVCount" && c.Name == kvType+"OpenKVTable" {
			c.St.A = fa{}
			a = fa{}
		}
		// a vector that is not cached is read from its node
		if c.Name == "dynamic" || strings.Contains(c.Name, "$") {
			if fieldOfFunc(c) == "VectorForIDThunk" {
				c.Out(c.St, c.FreshAll(c.St)...)
				return true
			}
		}
		n := errResult(c.Com.Signature())
		if nonNilErr[c.Name] && o.creation && a.site == "" {
			t := s.fresh(c.St, c.Inst, c.Instr, 0)
			s.setNil(c.St, t, 1)
			fail(c, c.St, t)
			c.Out(c.St, t)
			return true
		}
		// a function that returns a list of errors: every element may be one
		if m := c.NRes(); m > 0 && isErrSlice(c.Com.Signature().Results().At(m-1).Type()) && c.Kind == 'c' {
			ts := s.targets(c)
			mod := len(ts) > 0 && (c.Fv == nil || c.Fv.k != TClosure)
			for _, t := range ts {
				mod = mod && errListFn(t.fn)
			}
			if mod {
				res := c.FreshAll(c.St)
				c.St.facts[s.T.mk(TPure, "errlist", nil, nil, nil, 0, types.Typ[types.Bool], res[m-1])] = Fact{truth: 1}
				c.Out(c.St, res...)
				return true
			}
		}
		// a value from such a list is used: its error must have been looked at
		if !strings.HasPrefix(c.Name, "builtin:") {
			used, checked := false, false
			for _, ar := range c.Args {
				u := ar.strip()
				if u == nil || u.k != TLoad || u.args[0].k != TIndexAddr {
					continue
				}
				list := u.args[0].args[0]
				call, ok := list.val.(*ssa.Call)
				if list.k != TCall || !ok {
					continue
				}
				m := call.Call.Signature().Results().Len()
				if m < 2 || list.idx == m-1 || !isErrSlice(call.Call.Signature().Results().At(m-1).Type()) {
					continue
				}
				used = true
				errs := s.T.mk(TCall, list.op, nil, list.inst, list.val, m-1, call.Call.Signature().Results().At(m-1).Type())
				ck := s.T.mk(TPure, "errchecked", nil, nil, nil, 0, types.Typ[types.Bool], errs, u.args[0].args[1])
				if c.St.facts[ck].truth == 1 {
					checked = true
				}
			}
			if used {
				r.ok(o.rule, "element of a list with errors used by "+shortName(c.Name)+" at "+r.p.instrPos(c.Instr))
				if !checked {
					s.violate(o.rule, c.Instr, c.Inst, c.St, "an element that may have failed to load is used by "+shortName(c.Name)+" before its error is looked at")
				}
			}
		}
		if n < 0 || wrapErr[c.Name] || nonNilErr[c.Name] || strings.HasPrefix(c.Name, "builtin:") || c.Name == "errors.Join" {
			return false
		}
		if strings.HasPrefix(c.Name, ecType) || strings.HasPrefix(c.Name, egType) || errIrrelevant(c.Name) {
			return false
		}
		// a cache of constant positive size can always be made
		if strings.HasPrefix(c.Name, "github.com/hashicorp/golang-lru") && strings.Contains(c.Name, ".New") && len(c.Args) > 0 {
			if n, ok := c.Args[0].int64(); ok && n > 0 {
				res := c.FreshAll(c.St)
				res[len(res)-1] = s.T.constVal(nil, errType)
				s.setNil(c.St, res[0], 1)
				c.Out(c.St, res...)
				return true
			}
		}
		// noting a dangling link is best effort: the node is skipped either way
		if c.Name == "("+hnswPkg+".hnsw).addTombstone" && !modularFn(c.Inst.fn) {
			c.Out(c.St, c.FreshAll(c.St)...)
			return true
		}
		forced := o.opaque != nil && o.opaque(c) || modularStep(c)
		if !forced {
			for _, t := range s.targets(c) {
				if s.inlinable(c.Inst, t.fn) {
					return false
				}
			}
		}
		for _, ar := range c.Args {
			u := ar.strip()
			if u.k == TAlloc || u.k == TFieldAddr {
				s.havoc(c.St, u)
			}
		}
		if a.site != "" {
			// only the first failure is followed
			c.Out(c.St, c.FreshAll(c.St)...)
			return true
		}
		if o.only != nil && !o.only(c) {
			c.ErrFork(nil, nil)
			return true
		}
		c.ErrFork(nil, func(st *State) { fail(c, st, nil) })
		return true
	}
	h.Load = func(s *Sim, inst *Inst, in *ssa.UnOp, st *State, loc, val *Term) {
		if loc.k != TIndexAddr || !isErr(in.Type()) {
			return
		}
		if st.facts[s.T.mk(TPure, "errlist", nil, nil, nil, 0, types.Typ[types.Bool], loc.args[0])].truth != 1 {
			return
		}
		ck := s.T.mk(TPure, "errchecked", nil, nil, nil, 0, types.Typ[types.Bool], loc.args[0], loc.args[1])
		st.facts[ck] = Fact{truth: 1}
		if a, _ := st.A.(fa); a.site != "" {
			return
		}
		ok := st.clone()
		ok.set(inst, in, -1, s.T.constVal(nil, errType))
		s.setNil(st, val, 1)
		st.A = fa{site: fmt.Sprintf("%p", in), name: "an element of the list", in: in, inst: inst}
		st.note("element failed: " + r.p.instrPos(in))
		r.ok(o.rule, "element of an error list "+r.p.instrPos(in))
		s.pending = []*State{ok, st}
	}
	h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, cond *Term, truth bool) bool {
		a, _ := st.A.(fa)
		if a.site == "" {
			return true
		}
		for cond.k == TNot {
			cond, truth = cond.args[0], !truth
		}
		if !truth {
			return true
		}
		if cond.k == TPure && cond.op == "errors.Is" {
			if g := globalName(cond.args[1]); g != "" && s.nilness(st, cond.args[0]) == 1 {
				if toleratedBy(r.p, a, g) {
					st.A = fa{}
					return true
				}
			}
		}
		if cond.k == TPure && cond.op == "errors.As:github.com/weaviate/weaviate/entities/storobj.ErrNotFound" {
			st.A = fa{}
		}
		// err == collection.ErrX
		if cond.k == TBin && cond.op == "==" {
			for i := 0; i < 2; i++ {
				if g := globalName(cond.args[i]); g != "" {
					if toleratedBy(r.p, a, g) {
						st.A = fa{}
					}
				}
			}
		}
		return true
	}
	h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
		a, _ := st.A.(fa)
		if a.site == "" {
			return
		}
		if o.success(s, st, inst, ret, res) {
			if os.Getenv("DBG") != "" && strings.Contains(shortFn(s.root.fn), os.Getenv("DBG")) {
				s.dump(st)
				inst.fn.WriteTo(os.Stderr)
			}
			s.violate(o.rule, a.in, nil, st, fmt.Sprintf("%s fails, yet %s may report success", shortName(a.name), shortFn(s.root.fn)))
		}
	}
	return h
}

func globalName(t *Term) string {
	t = t.unbox()
	if t.k == TLoad && t.args[0].k == TGlobal {
		return t.args[0].obj.(*ssa.Global).Name()
	}
	return ""
}

func shortName(n string) string {
	n = strings.ReplaceAll(n, modPath+"/", "")
	if i := strings.LastIndex(n, "/"); i >= 0 {
		pre := ""
		if strings.HasPrefix(n, "(") {
			pre = "("
		}
		n = pre + n[i+1:]
	}
	return n
}

// fieldOfFunc: the struct field a called function value was loaded from
func fieldOfFunc(c *CallCtx) string {
	if f := loadedField(c.Com.Value); f != nil {
		return f.Name()
	}
	if c.Fv != nil && c.Fv.k == TField {
		return c.Fv.op
	}
	if c.Fv != nil && c.Fv.k == TLoad && c.Fv.args[0].k == TFieldAddr {
		return c.Fv.args[0].op
	}
	return ""
}

func errNotSurelyReported(s *Sim, st *State, inst *Inst, ret *ssa.Return, res []*Term) bool {
	n := errResult(inst.fn.Signature)
	return n < 0 || s.nilness(st, res[n]) != 1
}

func isCommitLogCall(c *CallCtx) bool {
	return strings.HasPrefix(c.Name, "iface:"+hnswPkg+".CommitLogger.") || strings.HasPrefix(c.Name, "iface:"+hnswPkg+".BufferedLinksLogger.")
}

// modularStep: a call to a function of the repository that reports failure through
// its last result is one step here; that it reports every failure of its own steps is
// decided for that function by itself
func modularStep(c *CallCtx) bool {
	if c.Kind != 'c' || c.Fv != nil && c.Fv.k == TClosure {
		return false
	}
	if mc, ok := c.Com.Value.(*ssa.MakeClosure); ok && mc != nil {
		return false
	}
	ts := c.S.targets(c)
	if len(ts) == 0 {
		return false
	}
	for _, t := range ts {
		if !modularFn(t.fn) {
			return false
		}
		// what it answers may tell whether the error counts
		if res := t.fn.Signature.Results(); res.Len() == 2 && isBool(res.At(0).Type()) && c.S.inlinable(c.Inst, t.fn) {
			return false
		}
	}
	return true
}

func modularFn(fn *ssa.Function) bool {
	if errResult(fn.Signature) < 0 {
		return false
	}
	for _, q := range fn.Params {
		if carriesErr(q.Type()) {
			return false
		}
	}
	return true
}

func isErrSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && isErr(sl.Elem())
}

// errListFn: a function that reports failures in a list of errors
func errListFn(fn *ssa.Function) bool {
	n := fn.Signature.Results().Len()
	if n == 0 || !isErrSlice(fn.Signature.Results().At(n-1).Type()) {
		return false
	}
	for _, q := range fn.Params {
		if carriesErr(q.Type()) {
			return false
		}
	}
	return true
}

func errListNotSurelySet(s *Sim, st *State, inst *Inst, ret *ssa.Return, res []*Term) bool {
	v, ok := st.mem[s.elems(res[len(res)-1])]
	return !ok || s.nilness(st, v) != 1
}

func carriesErr(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return carriesErr(u.Elem())
	case *types.Slice:
		return carriesErr(u.Elem())
	case *types.Chan:
		return carriesErr(u.Elem())
	case *types.Signature:
		return true
	}
	return isErr(t)
}

func toleratedBy(p *Prog, a fa, sentinel string) bool {
	has := func(name string) bool {
		for _, t := range tolerated[name] {
			if t == sentinel {
				return true
			}
		}
		return false
	}
	if has(a.name) {
		return true
	}
	for _, f := range a.fns {
		for n := range p.externals(f) {
			if has(n) {
				return true
			}
		}
	}
	return false
}

func init() {
	register("C02", func(p *Prog, r *Report) {
		rule := "failure-reported"
		r.rule(rule, "from every step that can fail, every path of the operation ends in an error result (or a non-2xx response), unless the failure is one the operation tolerates")
		r.need(rule, 60)
		roots := append(clientOps(p), handlerFns(p)...)
		for _, f := range append(p.methodsOf("pkg/hnsw", "hnsw"), p.fn("adapters/handlers.NewHandler"), p.fn("pkg/document.New")) {
			if f != nil && f.Object().Exported() {
				roots = append(roots, f)
			}
		}
		for _, fn := range p.reach(roots...) {
			o := failOpts{rule: rule, creation: true, opaque: isCommitLogCall}
			switch {
			case modularFn(fn):
				o.success = errNotSurelyReported
			case errListFn(fn):
				o.success = errListNotSurelySet
			case isHandlerFn(fn):
				o.success = func(s *Sim, st *State, inst *Inst, ret *ssa.Return, res []*Term) bool {
					code := responderStatus(p, res[0])
					return code < 300
				}
			default:
				continue
			}
			s := newSim(p, failHooks(r, o))
			s.Run(fn)
			r.take(s)
		}
	})
}

// handlerFns: the functions of the handlers package that answer a request
func handlerFns(p *Prog) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.funcs {
		if f.Parent() == nil && isHandlerFn(f) {
			out = append(out, f)
		}
	}
	return out
}

func isHandlerFn(f *ssa.Function) bool {
	if f.Pkg == nil || f.Pkg.Pkg.Path() != hndPkg || f.Synthetic != "" {
		return false
	}
	rs := f.Signature.Results()
	if rs.Len() != 1 || !strings.HasSuffix(typeName(rs.At(0).Type()), "runtime/middleware.Responder") {
		return false
	}
	for _, q := range f.Params {
		if carriesErr(q.Type()) {
			return false
		}
	}
	return f.Object() != nil && f.Object().Exported()
}

// responderStatus: the status code a responder writes, 0 if unknown
func responderStatus(p *Prog, t *Term) int {
	if t.k != TIface || t.typ == nil {
		return 0
	}
	n, ok := deref(t.typ).(*types.Named)
	if !ok {
		return 0
	}
	sel := p.ssa.MethodSets.MethodSet(t.typ).Lookup(n.Obj().Pkg(), "WriteResponse")
	if sel == nil {
		return 0
	}
	return writtenStatus(p, p.ssa.FuncValue(sel.Obj().(*types.Func)))
}

// writtenStatus: the constant a WriteResponse method passes to WriteHeader
func writtenStatus(p *Prog, fn *ssa.Function) int {
	if fn == nil {
		return 0
	}
	code := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(*ssa.Call)
			if !ok || calleeName(&ci.Call) != "iface:net/http.ResponseWriter.WriteHeader" {
				continue
			}
			c, ok := ci.Call.Args[0].(*ssa.Const)
			if !ok {
				return 0
			}
			v := int(c.Int64())
			if code != 0 && code != v {
				return 0
			}
			code = v
		}
	}
	return code
}

func clientOps(p *Prog) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.methodsOf("pkg/document", "Client") {
		if f.Object().Exported() && errResult(f.Signature) >= 0 {
			out = append(out, f)
		}
	}
	return out
}
