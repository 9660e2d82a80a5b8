package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	panNil    = "nil"
	panBounds = "bounds"
	panType   = "type"
	panOther  = "stops"
	panInit   = "set-up"
	panNode   = "missing-node"
)

func init() {
	register("C06", func(p *Prog, r *Report) {
		r.explain = "every instruction of the request-serving code that can panic is an obligation, for any content of the request, any answer of the vectorizer and any failure of the store"
		r.rule(panNil, "what is dereferenced, called or written to is not nil: contents of requests, elements of lists, results of failed calls and parts of the client that are not there from the start are tested first")
		r.rule(panBounds, "every index and every bound of a slice is within the length, and no length is negative")
		r.rule(panType, "a value is taken for one of a type only after its type was tested, or if nothing else is ever put there")
		r.rule(panOther, "serving a request divides by nothing that may be zero, and neither panics nor ends the process on purpose")
		r.rule(panInit, "what the client and the handler work with is there from the start and never set to nil")
		r.rule(panNode, "a node that may be missing in the index is tested before it is used")
		r.need(panNil, 40)
		r.need(panBounds, 12)
		r.need(panType, 1)
		r.need(panInit, 3)
		r.need(panNode, 12)
		c := &panics{p: p, r: r, sure: map[string]bool{}}
		c.setUp()
		c.serve()
		c.index()
	})
}

type panics struct {
	p    *Prog
	r    *Report
	sure map[string]bool // "type.field" never nil
}

const restVec = vecPkg + "/rest"

func (c *panics) serving(f *ssa.Function) bool {
	f = rootFn(f)
	if f.Pkg == nil {
		return false
	}
	switch f.Pkg.Pkg.Path() {
	case docPkg, hndPkg, vecPkg, restVec:
		return true
	}
	return false
}

func nilable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

// requestData: structs whose content comes from outside
func requestData(t types.Type) bool {
	n := typeName(deref(t))
	return strings.HasPrefix(n, modPath+"/models.") || n == docPkg+".Document" || n == docPkg+".Collection"
}

func (c *panics) holder(t types.Type) bool {
	n := typeName(deref(t))
	return n == docPkg+".Client" || n == hndPkg+".Handler" || strings.HasPrefix(n, restVec+".")
}

// trusted: what is loaded from there is not nil
func (c *panics) trusted(loc *Term, typ types.Type) bool {
	switch loc.k {
	case TGlobal:
		return true
	case TFieldAddr, TField:
		own := loc.args[0].typ
		if own == nil {
			return false
		}
		switch {
		case c.holder(own):
			return c.sure[typeName(deref(own))+"."+loc.op]
		case requestData(own):
			return false
		case strings.HasPrefix(typeName(deref(own)), modPath+"/restapi/operations."):
			return loc.op == "Body" || loc.op == "HTTPRequest"
		case strings.HasPrefix(typeName(deref(own)), modPath):
			return false
		}
		return loc.args[0].k != TAlloc
	case TIndexAddr, TIndex:
		return !requestData(typ) && !isAny(typ) && fromOutside(loc.args[0])
	}
	return false
}

func isAny(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

// fromOutside: a list some other module made
func fromOutside(t *Term) bool {
	for t != nil {
		switch t.k {
		case TCall:
			return t.op != "lookup"
		case TLoad, TFieldAddr, TField, TSlice, TConv, TIndexAddr:
			t = t.args[0]
		default:
			return false
		}
	}
	return false
}

// setUp: what a constructor guarantees
func (c *panics) setUp() {
	p, r := c.p, c.r
	for _, name := range []string{"pkg/document.New", "adapters/handlers.NewHandler", "pkg/vectorizer/rest.NewVectorizer"} {
		fn := mustFn(p, r, panInit, name)
		if fn == nil {
			continue
		}
		var typ *types.Named
		at := -1
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			if n, ok := deref(fn.Signature.Results().At(i).Type()).(*types.Named); ok && c.holder(n) {
				typ, at = n, i
			}
		}
		if typ == nil {
			r.anchor(panInit, "what "+name+" makes")
			continue
		}
		sty := typ.Underlying().(*types.Struct)
		good := map[string]bool{}
		first := true
		h := &Hooks{KeepLock: true}
		h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{}; c.params(s, st, root) }
		h.Inline = func(inst *Inst, f *ssa.Function) bool { return c.serving(f) }
		h.Load = c.load
		h.Call = func(cc *CallCtx) bool { return c.call(cc) }
		h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
			if n := errResult(fn.Signature); n >= 0 && s.nilness(st, res[n]) == 1 {
				return
			}
			obj := res[at].strip()
			if s.nilness(st, obj) != 1 {
				r.failf(panInit, p.instrPos(ret), shortFn(fn), "%s may be nil without an error", typ.Obj().Name())
				return
			}
			now := map[string]bool{}
			for i := 0; i < sty.NumFields(); i++ {
				f := sty.Field(i)
				if !nilable(f.Type()) {
					continue
				}
				v := st.mem[s.fieldAddr(obj, f, i)]
				if v == nil && obj.k == TStruct && i < len(obj.args) {
					v = obj.args[i]
				}
				now[f.Name()] = v != nil && s.nilness(st, v) == 1
			}
			for n, ok := range now {
				good[n] = ok && (first || good[n])
			}
			first = false
		}
		s := newSim(p, h)
		s.Run(fn)
		r.take(s)
		for n, ok := range good {
			if ok {
				c.sure[typeName(typ)+"."+n] = true
				r.ok(panInit, typ.Obj().Name()+"."+n)
			}
		}
	}
}

func (c *panics) params(s *Sim, st *State, root *Inst) {
	for _, q := range root.fn.Params {
		if nilable(q.Type()) {
			s.setNil(st, st.get(root, q, -1), 1)
		}
	}
}

// full: a list none of whose elements is nil
func (c *panics) full(s *Sim, st *State, t *Term) *Term {
	yes := s.T.mk(TPure, "full", nil, nil, nil, 0, nil)
	if t.typ == nil {
		return nil
	}
	if _, ok := t.typ.Underlying().(*types.Slice); !ok {
		return nil
	}
	switch {
	case t.isNilConst():
		return yes
	case t.k == TMake:
		if n, ok := s.lenOf(st, t).int64(); ok && n == 0 {
			return yes
		}
	case t.k == TSlice && t.args[0].k == TAlloc:
		vs, ok := s.Varargs(st, t)
		for _, v := range vs {
			ok = ok && s.nilness(st, v) == 1
		}
		if ok {
			return yes
		}
	}
	return nil
}

func isFull(s *Sim, st *State, t *Term) bool {
	g := s.tag(st, t)
	return g != nil && g.k == TPure && g.op == "full"
}

func (c *panics) load(s *Sim, inst *Inst, in *ssa.UnOp, st *State, loc, val *Term) {
	if val.k == TLoad && nilable(in.Type()) && s.nilness(st, val) == 0 && (c.trusted(loc, in.Type()) || loc.k == TIndexAddr && isFull(s, st, loc.args[0])) {
		s.setNil(st, val, 1)
	}
}

// call: what others return is there unless they fail
func (c *panics) call(cc *CallCtx) bool {
	s := cc.S
	// what it returned
	fill := func(from int) {
		call, ok := cc.Instr.(*ssa.Call)
		if !ok {
			return
		}
		sg := cc.Com.Signature()
		e := errResult(sg)
		for _, o := range cc.outs[from:] {
			if e >= 0 {
				et := o.get(cc.Inst, call, e)
				if sg.Results().Len() == 1 {
					et = o.get(cc.Inst, call, -1)
				}
				if et != nil && s.nilness(o, et) != -1 {
					continue
				}
			}
			var slices []*Term
			for i := 0; i < sg.Results().Len(); i++ {
				k := i
				if sg.Results().Len() == 1 {
					k = -1
				}
				t := o.get(cc.Inst, call, k)
				if t == nil {
					continue
				}
				if i != e && nilable(sg.Results().At(i).Type()) && s.nilness(o, t) == 0 {
					s.setNil(o, t, 1)
				}
				if _, ok := sg.Results().At(i).Type().Underlying().(*types.Slice); ok {
					slices = append(slices, t)
				}
			}
			// as many distances as ids: decided by C05
			if isIndexCall(cc) != "" && len(slices) == 2 {
				o.mem[s.T.mk(TLenOf, "", nil, nil, nil, 0, nil, slices[1])] = s.lenOf(o, slices[0])
			}
		}
	}
	switch cc.Name {
	case "builtin:append":
		whole := len(cc.Args) == 2 && isFull(s, cc.St, cc.Args[0]) && isFull(s, cc.St, cc.Args[1])
		s.builtin(cc)
		if call, ok := cc.Instr.(*ssa.Call); ok && whole {
			for _, o := range cc.outs {
				s.setTag(o, o.get(cc.Inst, call, -1), s.T.mk(TPure, "full", nil, nil, nil, 0, nil))
			}
		}
		return true
	case "github.com/hashicorp/golang-lru.New", "github.com/hashicorp/golang-lru.NewWithEvict":
		if n, ok := cc.Args[0].int64(); ok && n > 0 {
			res := cc.FreshAll(cc.St)
			s.setNil(cc.St, res[0], 1)
			res[1] = s.T.constVal(nil, errType)
			cc.Out(cc.St, res...)
			return true
		}
	case "encoding/json.Unmarshal":
		// what was stored is an object
		u := cc.Args[1].unbox()
		s.havoc(cc.St, u)
		cc.ErrFork(func(o *State) {
			if u.typ == nil {
				return
			}
			if _, ok := deref(u.typ).Underlying().(*types.Map); ok {
				t := s.fresh(o, cc.Inst, cc.Instr, 7)
				s.setNil(o, t, 1)
				o.mem[u] = t
			}
		}, nil)
		return true
	}
	n := len(cc.outs)
	if clientCall(cc) {
		fill(n)
		return true
	}
	if strings.HasPrefix(cc.Name, "builtin:") || nonNilErr[cc.Name] || wrapErr[cc.Name] || pureFns[cc.Name] {
		return false
	}
	for _, t := range s.targets(cc) {
		if s.inlinable(cc.Inst, t.fn) {
			return false
		}
	}
	if cc.Name == "dynamic" {
		return false
	}
	if _, ok := lockOp(cc.Name); ok || strings.HasPrefix(cc.Name, "(sync.") || strings.HasPrefix(cc.Name, egType) || strings.HasPrefix(cc.Name, ecType) {
		return false
	}
	for _, ar := range cc.Args {
		if u := ar.strip(); !readOnly(cc.Name) && (u.k == TAlloc || u.k == TFieldAddr) {
			s.havoc(cc.St, u)
		}
	}
	cc.Out(cc.St, cc.FreshAll(cc.St)...)
	fill(n)
	return true
}

// serve: every obligation in the code that serves requests
func (c *panics) serve() {
	p, r := c.p, c.r
	roots := append([]*ssa.Function{}, handlerFns(p)...)
	for _, f := range p.methodsOf("pkg/document", "Client") {
		if f.Object().Exported() {
			roots = append(roots, f)
		}
	}
	for _, nt := range p.implementers(vecPkg, "Vectorizer") {
		for _, f := range p.funcs {
			if rv := f.Signature.Recv(); rv != nil && f.Parent() == nil && f.Synthetic == "" && types.Identical(deref(rv.Type()), nt) {
				roots = append(roots, f)
			}
		}
	}
	for _, fn := range p.funcs {
		if isPkg(fn, vecPkg) && fn.Parent() == nil && fn.Signature.Recv() != nil && fn.Synthetic == "" {
			roots = append(roots, fn)
		}
	}
	seen := map[*ssa.Function]bool{}
	for _, fn := range roots {
		if fn == nil || seen[fn] || len(fn.Blocks) == 0 {
			continue
		}
		seen[fn] = true
		h := &Hooks{KeepLock: true}
		h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{}; c.params(s, st, root) }
		h.Inline = func(inst *Inst, f *ssa.Function) bool { return c.serving(f) }
		h.Load = c.load
		h.Tag = c.full
		h.Call = func(cc *CallCtx) bool {
			c.callOb(cc)
			return c.call(cc)
		}
		h.Instr = func(s *Sim, inst *Inst, in ssa.Instruction, st *State) {
			if c.serving(inst.fn) {
				c.obligation(s, inst, in, st)
			}
		}
		h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
			if loc.k == TFieldAddr && loc.args[0].typ != nil && c.sure[typeName(deref(loc.args[0].typ))+"."+loc.op] && loc.args[0].k != TAlloc {
				r.ok(panInit, loc.op+" "+p.instrPos(in))
				if s.nilness(st, val) != 1 {
					s.violate(panInit, in, inst, st, loc.op+" of the "+shortType(loc.args[0].typ)+" may be set to nil")
				}
			}
		}
		h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, t *Term, truth bool) bool {
			t, truth = cond(t, truth)
			if lk, ok := t.val.(*ssa.Lookup); ok && t.idx == 1 && truth && nilable(mapElemType(lk.X.Type())) && !isAny(mapElemType(lk.X.Type())) {
				if m := s.val(st, t.inst, lk.X); m != nil && c.ownMap(m) {
					if v := st.get(t.inst, lk, 0); v != nil && s.nilness(st, v) == 0 {
						s.setNil(st, v, 1)
					}
				}
			}
			if t.k == TBin && (t.op == "<" || t.op == "<=" || t.op == "==") && mentionsLen(t) && !isLoopHead(in.Block()) && flagOf(st, "cut:"+p.instrPos(in)) == "" && len(flagsWith(st, "cut:")) < 5 {
				setFlag(st, "cut:"+p.instrPos(in), map[bool]string{true: "1", false: "0"}[truth])
			}
			return true
		}
		// what was returned where: lists of different lengths are not mixed up
		h.CallReturn = func(s *Sim, callee *Inst, ret *ssa.Return, st *State, res []*Term) {
			lists := 0
			for _, t := range res {
				if t != nil && t.typ != nil {
					if _, ok := t.typ.Underlying().(*types.Slice); ok {
						lists++
					}
				}
			}
			if callee.parent != nil && lists > 1 {
				setFlag(st, "ret:"+callee.fn.Name(), p.instrPos(ret))
			}
		}
		h.Panic = func(s *Sim, inst *Inst, in ssa.Instruction, st *State) {
			if c.serving(inst.fn) {
				s.violate(panOther, in, inst, st, "serving a request may panic on purpose")
			}
		}
		s := newSim(p, h)
		s.Run(fn)
		r.take(s)
	}
}

func isLoopHead(b *ssa.BasicBlock) bool {
	for _, q := range b.Preds {
		if b.Dominates(q) {
			return true
		}
	}
	return false
}

func mentionsLen(t *Term) bool {
	if t == nil {
		return false
	}
	if t.k == TLen {
		return true
	}
	for _, a := range t.args {
		if a != nil && mentionsLen(a) {
			return true
		}
	}
	return false
}

// ownMap: a map of the client, which holds only what the client put there
func (c *panics) ownMap(m *Term) bool {
	m = m.strip()
	return m.k == TLoad && m.args[0].k == TFieldAddr && m.args[0].args[0].typ != nil && c.holder(m.args[0].args[0].typ)
}

func (c *panics) where(in ssa.Instruction, what string) string {
	return what + " " + c.p.instrPos(in)
}

func (c *panics) notNil(s *Sim, inst *Inst, in ssa.Instruction, st *State, t *Term, what string) {
	if t == nil {
		return
	}
	u := t.strip()
	switch u.k {
	case TAlloc, TGlobal, TFieldAddr, TIndexAddr, TFunc, TClosure, TMake, TIface:
		return
	}
	c.r.ok(panNil, c.where(in, what))
	if s.nilness(st, t) == 1 || s.nilness(st, u) == 1 || u.k == TField && c.trusted(u, u.typ) {
		return
	}
	s.violate(panNil, in, inst, st, what)
	s.setNil(st, u, 1)
}

// callOb: what a call needs
func (c *panics) callOb(cc *CallCtx) {
	if !c.serving(cc.Inst.fn) || strings.HasPrefix(cc.Name, "builtin:") {
		return
	}
	s, st := cc.S, cc.St
	switch {
	case cc.Com.IsInvoke():
		c.notNil(s, cc.Inst, cc.Instr, st, cc.Args[0], "a method of something that may be nil is called")
	case cc.Com.StaticCallee() == nil:
		if _, ok := cc.Com.Value.(*ssa.Builtin); !ok && cc.Fv != nil {
			c.notNil(s, cc.Inst, cc.Instr, st, cc.Fv, "a function that may be nil is called")
		}
	default:
		f := cc.Com.StaticCallee()
		if rv := f.Signature.Recv(); rv != nil && len(cc.Args) > 0 && !c.serving(f) {
			if _, ok := rv.Type().Underlying().(*types.Pointer); ok {
				c.notNil(s, cc.Inst, cc.Instr, st, cc.Args[0], "a method of something that may be nil is called")
			}
		}
		if stops(cc.Name) {
			s.violate(panOther, cc.Instr, cc.Inst, st, "serving a request may end the process")
		}
	}
}

func stops(name string) bool {
	if name == "os.Exit" || strings.HasPrefix(name, "log.Fatal") || strings.HasPrefix(name, "log.Panic") {
		return true
	}
	i := strings.LastIndex(name, ".")
	return strings.Contains(name, "logrus") && i > 0 && (strings.HasPrefix(name[i+1:], "Fatal") || strings.HasPrefix(name[i+1:], "Panic") || name[i+1:] == "Exit")
}

func (c *panics) obligation(s *Sim, inst *Inst, in ssa.Instruction, st *State) {
	r := c.r
	switch in := in.(type) {
	case *ssa.FieldAddr:
		c.notNil(s, inst, in, st, s.val(st, inst, in.X), fieldVar(in.X.Type(), in.Field).Name()+" of something that may be nil is used")
	case *ssa.UnOp:
		if in.Op == token.MUL {
			c.notNil(s, inst, in, st, s.val(st, inst, in.X), "something that may be nil is read")
		}
	case *ssa.Store:
		c.notNil(s, inst, in, st, s.val(st, inst, in.Addr), "something that may be nil is written to")
	case *ssa.MapUpdate:
		c.notNil(s, inst, in, st, s.val(st, inst, in.Map), "a map that may be nil is written to")
	case *ssa.IndexAddr:
		c.bounds(s, inst, in, st, in.X, in.Index)
	case *ssa.Index:
		c.bounds(s, inst, in, st, in.X, in.Index)
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			c.bounds(s, inst, in, st, in.X, in.Index)
		}
	case *ssa.Slice:
		c.slice(s, inst, in, st)
	case *ssa.MakeSlice:
		n := s.val(st, inst, in.Len)
		r.ok(panBounds, c.where(in, "make"))
		if !c.nonNeg(s, st, inst, in.Len, n) {
			s.violate(panBounds, in, inst, st, "something is made with a length that may be negative")
		}
	case *ssa.TypeAssert:
		if !in.CommaOk {
			c.assert(s, inst, in, st)
		}
	case *ssa.BinOp:
		if in.Op == token.QUO || in.Op == token.REM {
			if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				r.ok(panOther, c.where(in, "division"))
				d := s.val(st, inst, in.Y)
				if n, ok := d.int64(); ok && n != 0 || s.positive(st, d) {
					return
				}
				s.violate(panOther, in, inst, st, "there may be a division by zero")
			}
		}
	}
}

// nonNeg: at least zero
func (c *panics) nonNeg(s *Sim, st *State, inst *Inst, v ssa.Value, t *Term) bool {
	if n, ok := t.int64(); ok {
		return n >= 0
	}
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		return true
	}
	_, ov, _ := outer(inst, v, nil)
	if atLeast(ov, 0, map[ssa.Value]bool{}) || s.leq(st, s.T.intConst(0), t) {
		return true
	}
	l := linear(t)
	if l.c < 0 {
		return false
	}
	for x, n := range l.m {
		if n < 0 || x.k != TLen && !s.leq(st, s.T.intConst(0), x) {
			return false
		}
	}
	return true
}

// atLeast: by how it is counted
func atLeast(v ssa.Value, low int64, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true // round a loop, only upwards
	}
	switch v := v.(type) {
	case *ssa.Const:
		n, ok := constant.Int64Val(constant.ToInt(v.Value))
		return ok && n >= low
	case *ssa.Phi:
		seen[v] = true
		for _, e := range v.Edges {
			if !atLeast(e, low, seen) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		if k, ok := v.Y.(*ssa.Const); ok && v.Op == token.ADD {
			n, ok := constant.Int64Val(constant.ToInt(k.Value))
			if ok && n >= 0 {
				// one more in every round
				s2 := map[ssa.Value]bool{}
				for k := range seen {
					s2[k] = true
				}
				return atLeast(v.X, low-n, s2) || atLeast(v.X, low, seen)
			}
		}
		if v.Op == token.ADD || v.Op == token.MUL {
			return atLeast(v.X, 0, seen) && atLeast(v.Y, 0, seen) && low <= 0
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return low <= 0
		}
	case *ssa.Convert:
		return atLeast(v.X, low, seen)
	case *ssa.Extract:
		if n, ok := v.Tuple.(*ssa.Next); ok && v.Index == 1 && n.IsString {
			return low <= 0
		}
	}
	return false
}

// onlyValue: what a local variable that is set once holds
func onlyValue(inst *Inst, v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if al, ok := u.X.(*ssa.Alloc); ok {
			if set := setOnce(al); set != nil && set.Block().Dominates(u.Block()) {
				return set.Val
			}
		}
	}
	return nil
}

// setOnce: the one place where a variable is set, if nothing else gets at it
func setOnce(al *ssa.Alloc) *ssa.Store {
	var set *ssa.Store
	for _, u := range *al.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if set != nil || u.Addr != al {
				return nil
			}
			set = u
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			f, ok := u.Fn.(*ssa.Function)
			if !ok {
				return nil
			}
			for i, b := range u.Bindings {
				if b == al && (i >= len(f.FreeVars) || !onlyRead(f.FreeVars[i])) {
					return nil
				}
			}
		default:
			return nil
		}
	}
	if set == nil || loopOf(set.Block()) != loopOf(al.Block()) {
		return nil // set anew while someone still uses it
	}
	return set
}

func onlyRead(v ssa.Value) bool {
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if u.Op != token.MUL {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// captured: a variable of the function around, set once before the function was made
func captured(inst *Inst, v ssa.Value) (*Inst, ssa.Value, *ssa.BasicBlock) {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL || inst.parent == nil || inst.site == nil || inst.kind == 'z' {
		return nil, nil, nil
	}
	fv, ok := u.X.(*ssa.FreeVar)
	ci, ok2 := inst.site.(ssa.CallInstruction)
	if !ok || !ok2 {
		return nil, nil, nil
	}
	mc, ok := ci.Common().Value.(*ssa.MakeClosure)
	if !ok || mc.Fn != inst.fn {
		for _, a := range ci.Common().Args { // started by someone else
			if m, is := a.(*ssa.MakeClosure); is && m.Fn == inst.fn {
				mc, ok = m, true
			}
		}
	}
	if !ok || mc.Fn != inst.fn {
		return nil, nil, nil
	}
	for i, x := range inst.fn.FreeVars {
		if x != fv {
			continue
		}
		al, ok := mc.Bindings[i].(*ssa.Alloc)
		if !ok {
			return nil, nil, nil
		}
		if set := setOnce(al); set != nil && set.Block().Dominates(mc.Block()) {
			return inst.parent, set.Val, mc.Block()
		}
	}
	return nil, nil, nil
}

// outer: a parameter of an inlined function is what it was given
func outer(inst *Inst, v ssa.Value, at *ssa.BasicBlock) (*Inst, ssa.Value, *ssa.BasicBlock) {
	for {
		if x := onlyValue(inst, v); x != nil {
			v = x
			continue
		}
		if fi, fx, fb := captured(inst, v); fx != nil {
			inst, v, at = fi, fx, fb
			continue
		}
		q, ok := v.(*ssa.Parameter)
		if !ok || inst.parent == nil || inst.site == nil || inst.kind == 'z' {
			return inst, v, at
		}
		ci, ok := inst.site.(ssa.CallInstruction)
		if !ok || ci.Common().IsInvoke() {
			return inst, v, at
		}
		k := -1
		for i, x := range inst.fn.Params {
			if x == q {
				k = i
			}
		}
		if k < 0 || k >= len(ci.Common().Args) {
			return inst, v, at
		}
		inst, v, at = inst.parent, ci.Common().Args[k], inst.site.Block()
	}
}

// below: limits the value was tested against on the way here
func below(v ssa.Value, at *ssa.BasicBlock) []ssa.Value {
	var out []ssa.Value
	for b := at; b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			break
		}
		test, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || len(b.Preds) != 1 {
			continue
		}
		op, ok := test.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		yes := d.Succs[0] == b
		switch {
		case op.Op == token.LSS && op.X == v && yes, op.Op == token.GEQ && op.X == v && !yes:
			out = append(out, op.Y)
		case op.Op == token.GTR && op.Y == v && yes, op.Op == token.LEQ && op.Y == v && !yes:
			out = append(out, op.X)
		}
	}
	return out
}

// le: a <= b, perhaps by way of something both are compared with
func (c *panics) le(s *Sim, st *State, a, b *Term) bool {
	if s.leq(st, a, b) {
		return true
	}
	for t, f := range st.facts {
		if t.k == TPure && f.truth == 1 && len(t.args) == 2 && (strings.HasSuffix(t.op, ".HasPrefix") || strings.HasSuffix(t.op, ".HasSuffix")) {
			if s.leq(st, a, s.lenOf(st, t.args[1])) && s.leq(st, s.lenOf(st, t.args[0]), b) {
				return true
			}
		}
		if t.k != TBin || f.truth == 0 {
			continue
		}
		x, y := t.args[0], t.args[1]
		switch {
		case t.op == "==" && f.truth == 1:
			if s.leq(st, a, x) && s.leq(st, y, b) || s.leq(st, a, y) && s.leq(st, x, b) {
				return true
			}
		case (t.op == "<" || t.op == "<=") && f.truth == 1:
			if s.leq(st, a, x) && s.leq(st, y, b) {
				return true
			}
		case t.op == "<" && f.truth == -1:
			if s.leq(st, a, y) && s.leq(st, x, b) {
				return true
			}
		}
	}
	return false
}

func (c *panics) bounds(s *Sim, inst *Inst, in ssa.Instruction, st *State, X, I ssa.Value) {
	x, i := s.val(st, inst, X), s.val(st, inst, I)
	var n *Term
	if a, ok := deref(X.Type()).Underlying().(*types.Array); ok {
		n = s.T.intConst(a.Len())
	} else {
		n = s.lenOf(st, x)
	}
	if k, ok := i.int64(); ok {
		if m, ok := n.int64(); ok && k >= 0 && k < m {
			return // written out
		}
	}
	c.r.ok(panBounds, c.where(in, "index"))
	low := c.nonNeg(s, st, inst, I, i)
	high := c.le(s, st, s.T.bin(token.ADD, i, s.T.intConst(1), types.Typ[types.Int]), n)
	if k, ok := i.int64(); ok && k == 0 && !high {
		high = s.nonEmpty(st, x) || s.positive(st, n)
	}
	if !high {
		oi, ov, ob := outer(inst, I, in.Block())
		for _, l := range below(ov, ob) {
			if t := s.val(st, oi, l); t != nil && c.le(s, st, t, n) {
				high = true
			}
		}
	}
	if !low || !high {
		s.violate(panBounds, in, inst, st, "an index may be out of range")
	}
}

func (c *panics) slice(s *Sim, inst *Inst, in *ssa.Slice, st *State) {
	if in.Low == nil && in.High == nil && in.Max == nil {
		return
	}
	x := s.val(st, inst, in.X)
	n := s.lenOf(st, x)
	c.r.ok(panBounds, c.where(in, "slice"))
	up := n
	if in.High != nil {
		hi := s.val(st, inst, in.High)
		if !c.le(s, st, hi, n) {
			s.violate(panBounds, in, inst, st, "the end of a slice may be beyond the length")
			return
		}
		up = hi
		if in.Low == nil && !c.nonNeg(s, st, inst, in.High, hi) {
			s.violate(panBounds, in, inst, st, "the end of a slice may be negative")
			return
		}
	}
	if in.Low != nil {
		lo := s.val(st, inst, in.Low)
		if !c.nonNeg(s, st, inst, in.Low, lo) || !c.le(s, st, lo, up) {
			s.violate(panBounds, in, inst, st, "the start of a slice may be out of range")
		}
	}
}

func (c *panics) assert(s *Sim, inst *Inst, in *ssa.TypeAssert, st *State) {
	x := s.val(st, inst, in.X)
	c.r.ok(panType, c.where(in, "assertion"))
	u := x.strip()
	if x.k == TIface && types.Identical(x.typ, in.AssertedType) {
		return
	}
	is := s.T.mk(TPure, "is:"+typeKey(in.AssertedType), nil, nil, nil, 0, types.Typ[types.Bool], x)
	if s.truth(st, is) == 1 {
		return
	}
	for t, f := range st.facts {
		if t.k == TPure && strings.HasPrefix(t.op, "is:") && f.truth == 1 && (t.args[0] == x || t.args[0] == u) && t.op == "is:"+typeKey(in.AssertedType) {
			return
		}
	}
	if call, ok := u.val.(*ssa.Call); ok && u.k == TCall && (strings.HasSuffix(calleeName(&call.Call), "golang-lru.Cache).Get") || strings.HasSuffix(calleeName(&call.Call), "golang-lru.Cache).Peek")) {
		if f := cacheField(call.Call.Args[0]); f != nil && c.onlyHolds(f, in.AssertedType) {
			return
		}
	}
	s.violate(panType, in, inst, st, "a value may be of another type than it is taken for")
}

// cacheField: the field a cache is kept in
func cacheField(v ssa.Value) *types.Var {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return fieldVar(fa.X.Type(), fa.Field)
		}
	}
	return nil
}

// onlyHolds: everything put into the cache is of that type
func (c *panics) onlyHolds(f *types.Var, typ types.Type) bool {
	n := 0
	for _, fn := range c.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				name := calleeName(ci.Common())
				if !strings.Contains(name, "golang-lru.Cache).") || !strings.HasSuffix(name, "Add") && !strings.HasSuffix(name, "OrAdd") {
					continue
				}
				g := cacheField(ci.Common().Args[0])
				if g == nil {
					return false // some cache, perhaps this one
				}
				if g != f {
					continue
				}
				n++
				mi, ok := ci.Common().Args[2].(*ssa.MakeInterface)
				if !ok || !types.Identical(mi.X.Type(), typ) {
					return false
				}
			}
		}
	}
	return n > 0
}

// index: what the index looks up may not be there
func (c *panics) index() {
	p, r := c.p, c.r
	isV := func(t types.Type) bool {
		_, ok := t.Underlying().(*types.Pointer)
		return ok && isVertex(t)
	}
	// finders: functions a node comes from
	finds := map[*ssa.Function]int{}
	for _, f := range p.funcs {
		if !isPkg(f, hnswPkg) || len(f.Blocks) == 0 || f.Signature.Recv() != nil && isV(f.Signature.Recv().Type()) {
			continue
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if isV(f.Signature.Results().At(i).Type()) {
				finds[f] = i
			}
		}
	}
	// passes: a helper that is given a node or passes one on
	passes := func(f *ssa.Function) bool {
		if !isPkg(f, hnswPkg) || hasLoop(f) {
			return false
		}
		_, has := finds[f]
		for _, q := range f.Params {
			has = has || isV(q.Type())
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if n := calleeName(ci.Common()); strings.Contains(n, "golang-lru.Cache).") || strings.HasSuffix(n, ".KVGet") || n == "encoding/json.Unmarshal" {
						return false
					}
				}
			}
		}
		return has
	}
	none := map[string]bool{} // a finder that may find nothing, without an error
	run := func(fn *ssa.Function, ret func(s *Sim, in *ssa.Return, st *State, res []*Term), check bool) {
		h := &Hooks{KeepLock: true}
		h.Init = func(s *Sim, st *State, root *Inst) {
			st.A = sig{}
			c.params(s, st, root)
		}
		h.Inline = func(inst *Inst, f *ssa.Function) bool { return f.Parent() != nil || passes(f) }
		use := func(s *Sim, inst *Inst, in ssa.Instruction, st *State, v ssa.Value, what string) {
			if !isV(v.Type()) {
				return
			}
			t := s.val(st, inst, v)
			if t == nil {
				return
			}
			call, ok := t.strip().val.(*ssa.Call)
			if !ok || t.strip().k != TCall || !none[calleeName(&call.Call)] {
				return
			}
			r.ok(panNode, c.where(in, what))
			if s.nilness(st, t) != 1 {
				s.violate(panNode, in, inst, st, what+" of a node that may be missing is used")
				s.setNil(st, t, 1)
			}
		}
		h.Call = func(cc *CallCtx) bool {
			if f := cc.Com.StaticCallee(); check && f != nil && p.inRepo[f] && len(cc.Com.Args) > 0 && f.Signature.Recv() != nil {
				use(cc.S, cc.Inst, cc.Instr, cc.St, cc.Com.Args[0], f.Name())
			}
			return stdCall(cc)
		}
		h.Instr = func(s *Sim, inst *Inst, in ssa.Instruction, st *State) {
			if fa, ok := in.(*ssa.FieldAddr); ok && check {
				use(s, inst, in, st, fa.X, fieldVar(fa.X.Type(), fa.Field).Name())
			}
		}
		if ret != nil {
			h.RootReturn = func(s *Sim, inst *Inst, in *ssa.Return, st *State, res []*Term) { ret(s, in, st, res) }
		}
		s := newSim(p, h)
		s.Run(fn)
		r.take(s)
	}
	for fn, k := range finds {
		fn, k := fn, k
		run(fn, func(s *Sim, in *ssa.Return, st *State, res []*Term) {
			if e := errResult(fn.Signature); e >= 0 && s.nilness(st, res[e]) == 1 {
				return
			}
			if s.nilness(st, res[k]) != 1 {
				none[funcName(fn)] = true
			}
		}, false)
	}
	if len(none) == 0 {
		r.anchor(panNode, "the function that looks up a node")
		return
	}
	calls := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && none[calleeName(ci.Common())] {
					return true
				}
			}
		}
		return false
	}
	for _, fn := range p.funcs {
		if !isPkg(fn, hnswPkg) || fn.Parent() != nil || len(fn.Blocks) == 0 || fn.Synthetic != "" {
			continue
		}
		does := calls(fn)
		for _, a := range fn.AnonFuncs {
			does = does || calls(a)
		}
		if does {
			run(fn, nil, true)
		}
	}
	// what the client makes the index do
	var roots []*ssa.Function
	for _, f := range p.funcs {
		if !isPkg(rootFn(f), docPkg) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !ci.Common().IsInvoke() {
					continue
				}
				for _, m := range p.impls(ci.Common().Method, ci.Common().Value.Type()) {
					if isPkg(m, hnswPkg) {
						roots = append(roots, m)
					}
				}
			}
		}
	}
	if len(roots) == 0 {
		r.anchor(panOther, "what the client calls of the index")
	}
	for _, f := range p.reach(roots...) {
		if !isPkg(rootFn(f), hnswPkg) {
			continue
		}
		r.ok(panOther, shortFn(f))
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if pn, ok := in.(*ssa.Panic); ok {
					r.failf(panOther, p.instrPos(pn), shortFn(f), "the index may panic on purpose while a request is served")
				}
				if ci, ok := in.(ssa.CallInstruction); ok && stops(calleeName(ci.Common())) {
					r.failf(panOther, p.instrPos(in), shortFn(f), "the index may end the process while a request is served")
				}
			}
		}
	}
}
