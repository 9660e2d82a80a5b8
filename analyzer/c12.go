package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isNormalize(name string) bool {
	return strings.HasSuffix(name, "hnsw/distancer.Normalize")
}

func isTypeCall(name string) bool {
	return strings.HasSuffix(name, "hnsw/distancer.Provider.Type")
}

// cosineType: the name the cosine metric goes by
func cosineType(p *Prog) string {
	name := ""
	for _, f := range p.funcs {
		if f.Name() != "Type" || f.Signature.Recv() == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != distPkg || f.Synthetic != "" ||
			!strings.Contains(typeName(deref(f.Signature.Recv().Type())), "Cosine") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ret, ok := in.(*ssa.Return); ok {
					c, ok := ret.Results[0].(*ssa.Const)
					if !ok || name != "" {
						return ""
					}
					name = constant.StringVal(c.Value)
				}
			}
		}
	}
	return name
}

// callsDirectly: the function itself calls something of that kind
func callsDirectly(f *ssa.Function, is func(string) bool) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && is(calleeName(ci.Common())) {
				return true
			}
		}
	}
	for _, a := range f.AnonFuncs {
		if callsDirectly(a, is) {
			return true
		}
	}
	return false
}

// useOf: a vector handed over through a value is kept or compared
type useOf struct {
	p    *Prog
	seen map[ssa.Value]bool
}

func (u *useOf) consumed(v ssa.Value) bool {
	if u.seen[v] {
		return false
	}
	u.seen[v] = true
	for _, in := range refs(v) {
		switch x := in.(type) {
		case *ssa.Phi:
			if u.consumed(x) {
				return true
			}
		case *ssa.ChangeType:
			if u.consumed(x) {
				return true
			}
		case *ssa.Slice:
			if u.consumed(x) {
				return true
			}
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == v && u.consumed(x.Fn.(*ssa.Function).FreeVars[i]) {
					return true
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL && isFloats(x.Type()) && u.consumed(x) {
				return true
			}
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			if al, ok := x.Addr.(*ssa.Alloc); ok {
				if u.consumed(al) {
					return true
				}
				continue
			}
			return true
		case *ssa.MapUpdate, *ssa.Send, *ssa.Return:
			return true
		case *ssa.MakeInterface:
			// formatted or logged
		case ssa.CallInstruction:
			if u.callConsumes(x, v) {
				return true
			}
		}
	}
	return false
}

func (u *useOf) callConsumes(ci ssa.CallInstruction, v ssa.Value) bool {
	com := ci.Common()
	name := calleeName(com)
	if isNormalize(name) || strings.HasPrefix(name, "builtin:") && name != "builtin:append" {
		return false
	}
	for i, a := range com.Args {
		if a != v {
			continue
		}
		if f := com.StaticCallee(); f != nil {
			if !u.p.isRepoFn(f) {
				if strings.Contains(name, "weaviate") {
					return true
				}
				continue
			}
			if i < len(f.Params) && u.consumed(f.Params[i]) {
				return true
			}
			continue
		}
		return true
	}
	return false
}

func init() {
	register("C12", func(p *Prog, r *Report) {
		c12Entries(p, r)
		c12Cache(p, r)
		c12Pure(p, r)
		c12Normalize(p, r)
	})
}

// cosineFlag follows what a path knows about the metric: flag "cos" is y or n
func cosineFlag(p *Prog, cos string) func(s *Sim, st *State, c *Term, truth bool) {
	return func(s *Sim, st *State, c *Term, truth bool) {
		c, truth = cond(c, truth)
		if c.k == TBin && c.op == "==" {
			for i, a := range c.args {
				a = a.strip()
				if a.k != TPure || a.op != "metric" {
					continue
				}
				n, ok := c.args[1-i].str()
				if !ok {
					n, ok = p.globalString(c.args[1-i])
				}
				if !ok {
					continue
				}
				switch {
				case n == cos && truth:
					setFlag(st, "cos", "y")
				case n == cos || truth:
					setFlag(st, "cos", "n")
				}
			}
		}
		if f, _ := lastField(c); f == "normalizeOnRead" {
			v := "n"
			if truth {
				v = "y"
			}
			setFlag(st, "cos", v)
		}
	}
}

func c12Entries(p *Prog, r *Report) {
	const rule = "normalised-on-entry"
	r.rule(rule, "on every path of every exported operation of the index that takes a vector, the vector given is compared, kept or handed on only when the metric is known not to be cosine; otherwise what was normalised from it is used")
	r.need(rule, 4)
	cos := cosineType(p)
	if cos == "" {
		r.anchor(rule, "the name of the cosine metric")
		return
	}
	flag := cosineFlag(p, cos)
	entry := map[*ssa.Function]bool{}
	var roots []*ssa.Function
	for _, f := range p.methodsOf("pkg/hnsw", "hnsw") {
		if !f.Object().Exported() {
			continue
		}
		for _, q := range f.Params {
			if isFloats(q.Type()) && !entry[f] {
				entry[f] = true
				roots = append(roots, f)
			}
		}
	}
	for _, f := range roots {
		h := &Hooks{KeepLock: true}
		h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
		h.Inline = func(inst *Inst, g *ssa.Function) bool {
			if entry[g] || g.Parent() != nil && entry[g.Parent()] {
				return g.Parent() != nil
			}
			if callsDirectly(g, isNormalize) || callsDirectly(g, isTypeCall) {
				return true
			}
			vec, ret := false, false
			for _, q := range g.Params {
				vec = vec || isFloats(q.Type())
			}
			for i := 0; i < g.Signature.Results().Len(); i++ {
				ret = ret || isFloats(g.Signature.Results().At(i).Type())
			}
			return vec && ret && g.Signature.Results().Len() == 1
		}
		raw := func(s *Sim, st *State, t *Term) bool {
			t = t.strip()
			for t.k == TSlice {
				t = t.args[0].strip()
			}
			return t.k == TParam && t.inst == s.root && t.typ != nil && isFloats(t.typ)
		}
		h.Call = func(c *CallCtx) bool {
			s := c.S
			if isTypeCall(c.Name) {
				c.Out(c.St, s.T.mk(TPure, "metric", nil, nil, nil, 0, types.Typ[types.String]))
				return true
			}
			if isNormalize(c.Name) {
				out := c.FreshAll(c.St)
				setFlag(c.St, "normed", "1") // keeps the paths apart
				c.Out(c.St, out...)
				return true
			}
			ts := s.targets(c)
			for _, t := range ts {
				if s.inlinable(c.Inst, t.fn) {
					return false
				}
			}
			ok := true
			for i, a := range c.Args {
				if a == nil || !raw(s, c.St, a) {
					// what is reachable from a new object
					if u := a.strip(); u == nil || u.k != TAlloc || flagOf(c.St, "cos") == "n" || len(ts) == 0 {
						continue
					}
					for l, v := range c.St.mem {
						if l.k == TFieldAddr && l.args[0] == a.strip() && raw(s, c.St, v) {
							r.ok(rule, "object handed on "+p.instrPos(c.Instr))
							s.violate(rule, c.Instr, c.Inst, c.St, "an object holding a vector that was not normalised is handed to "+shortName(c.Name))
						}
					}
					continue
				}
				used := false
				if len(ts) == 0 {
					used = !strings.HasPrefix(c.Name, "builtin:") && (c.Com.IsInvoke() || c.Com.StaticCallee() == nil || strings.Contains(c.Name, "weaviate"))
					if c.Com.IsInvoke() && entryIface(c.Name) {
						used = false
					}
				}
				for _, t := range ts {
					if entry[t.fn] {
						continue
					}
					j := i
					if c.Com.IsInvoke() && len(t.fn.Params) == len(c.Args)+1 {
						j = i + 1
					}
					if j >= len(t.fn.Params) || (&useOf{p, map[ssa.Value]bool{}}).consumed(t.fn.Params[j]) {
						used = true
					}
				}
				if used {
					r.ok(rule, "vector used by "+shortName(c.Name)+" "+p.instrPos(c.Instr))
					if flagOf(c.St, "cos") != "n" {
						ok = false
					}
				}
			}
			if !ok {
				s.violate(rule, c.Instr, c.Inst, c.St, shortName(c.Name)+" is given a vector that was not normalised though the metric may be cosine")
			}
			// normalised vectors in use
			for _, a := range c.Args {
				if a != nil && a.k == TCall && isNormalize(a.op) {
					r.ok(rule, "normalised vector used by "+shortName(c.Name)+" "+p.instrPos(c.Instr))
				}
			}
			return false
		}
		h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
			if val == nil || !raw(s, st, val) || localRoot(loc) || flagOf(st, "cos") == "n" {
				return
			}
			s.violate(rule, in, inst, st, "a vector that was not normalised is kept though the metric may be cosine")
		}
		h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, c *Term, truth bool) bool {
			flag(s, st, c, truth)
			return true
		}
		s := newSim(p, h)
		s.Run(f)
		r.ok(rule, "entry "+shortFn(f))
		r.take(s)
	}
}

// entryIface: an operation of the index interface
func entryIface(name string) bool { return strings.HasPrefix(name, "iface:"+hnswPkg+".VectorIndex.") }

// c12Cache: what the vector cache keeps and hands out
func c12Cache(p *Prog, r *Report) {
	const rule = "normalised-in-cache"
	r.rule(rule, "a vector read from storage enters the vector cache, or is handed out by it, only after it was normalised, unless normalising on read is off; it is off only when the metric is not cosine")
	r.need(rule, 4)
	cos := cosineType(p)
	flag := cosineFlag(p, cos)
	var owner *types.Named
	var fn *types.Var
	// the cache is the type with the switch and the source of vectors
	for _, f := range p.funcs {
		if f.Signature.Recv() == nil {
			continue
		}
		nt, ok := deref(f.Signature.Recv().Type()).(*types.Named)
		if !ok || nt.Obj().Pkg() == nil || nt.Obj().Pkg().Path() != hnswPkg {
			continue
		}
		st := structOf(nt)
		if st == nil {
			continue
		}
		var sw, src *types.Var
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "normalizeOnRead" {
				sw = st.Field(i)
			}
			if sg, ok := st.Field(i).Type().Underlying().(*types.Signature); ok && sg.Results().Len() == 2 && isFloats(sg.Results().At(0).Type()) {
				src = st.Field(i)
			}
		}
		if sw != nil && src != nil {
			owner, fn = nt, src
		}
	}
	if owner == nil {
		r.anchor(rule, "the vector cache")
		return
	}
	for _, f := range p.methodsOf("pkg/hnsw", owner.Obj().Name()) {
		h := &Hooks{KeepLock: true}
		h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
		isRaw := func(s *Sim, st *State, t *Term) bool {
			t = t.strip()
			return t.any(func(x *Term) bool {
				return st.mem[ghostCell(s, "raw")] == x || s.tag(st, x) != nil && s.tag(st, x).op == "raw"
			})
		}
		h.Call = func(c *CallCtx) bool {
			s := c.S
			if isNormalize(c.Name) {
				setFlag(c.St, "normed", "1") // keeps the paths apart
				c.Out(c.St, c.FreshAll(c.St)...)
				return true
			}
			if fieldOfFunc(c) == fn.Name() {
				setFlag(c.St, "normed", "0")
				r.ok(rule, "vector read "+p.instrPos(c.Instr))
				out := c.FreshAll(c.St)
				s.setTag(c.St, out[0], s.T.mk(TPure, "raw", nil, nil, nil, 0, nil))
				c.Out(c.St, out...)
				return true
			}
			return false
		}
		bad := func(s *Sim, st *State, t *Term) bool { return isRaw(s, st, t) && flagOf(st, "cos") != "n" }
		h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
			if val == nil || localRoot(loc) && loc.k != TIndexAddr || val.typ == nil || !isFloats(val.typ) {
				return
			}
			r.ok(rule, "vector kept "+p.instrPos(in))
			if bad(s, st, val) {
				s.violate(rule, in, inst, st, "a vector read from storage is kept without being normalised")
			}
		}
		h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, c *Term, truth bool) bool {
			flag(s, st, c, truth)
			return true
		}
		h.BackEdge = func(s *Sim, inst *Inst, st *State) { setFlag(st, "normed", "") }
		h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
			for _, x := range res {
				if x.typ == nil || !isFloats(x.typ) || x.isNilConst() {
					continue
				}
				if n := errResult(inst.fn.Signature); n >= 0 && s.nilness(st, res[n]) == 1 {
					continue
				}
				r.ok(rule, "vector handed out "+p.instrPos(ret))
				if bad(s, st, x) {
					s.violate(rule, ret, inst, st, "a vector read from storage is handed out without being normalised")
				}
			}
		}
		s := newSim(p, h)
		s.Run(f)
		r.take(s)
	}
	// the switch
	n := 0
	for _, f := range p.funcs {
		if f.Parent() != nil || f.Synthetic != "" || f.Pkg == nil || f.Pkg.Pkg.Path() != hnswPkg {
			continue
		}
		if !callsDirectly(f, isTypeCall) {
			continue
		}
		makes := false
		for _, g := range append([]*ssa.Function{f}, p.callees(f)...) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if fa, ok := in.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field) != nil && fieldVar(fa.X.Type(), fa.Field).Name() == "normalizeOnRead" {
						for _, u := range refs(fa) {
							if _, ok := u.(*ssa.Store); ok {
								makes = true
							}
						}
					}
				}
			}
		}
		if !makes {
			continue
		}
		n++
		c12Switch(p, r, f, rule, cos, flag, owner)
	}
	if n == 0 {
		r.anchor(rule, "where normalising on read is switched on")
	}
	// nobody else switches it
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldVar(fa.X.Type(), fa.Field) == nil || fieldVar(fa.X.Type(), fa.Field).Name() != "normalizeOnRead" {
					continue
				}
				if c, ok := st.Val.(*ssa.Const); ok && c.Value != nil && !constant.BoolVal(c.Value) {
					r.failf(rule, p.instrPos(in), shortFn(f), "%s", "normalising on read is switched off whatever the metric")
				}
			}
		}
	}
}

func c12Switch(p *Prog, r *Report, f *ssa.Function, rule, cos string, flag func(*Sim, *State, *Term, bool), owner *types.Named) {
	h := &Hooks{KeepLock: true}
	h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
	h.Inline = func(inst *Inst, g *ssa.Function) bool {
		if callsDirectly(g, isTypeCall) {
			return true
		}
		for i := 0; i < g.Signature.Results().Len(); i++ {
			if deref(g.Signature.Results().At(i).Type()) == types.Type(owner) {
				return true
			}
		}
		return false
	}
	h.Call = func(c *CallCtx) bool {
		if isTypeCall(c.Name) {
			c.Out(c.St, c.S.T.mk(TPure, "metric", nil, nil, nil, 0, types.Typ[types.String]))
			return true
		}
		return false
	}
	h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, c *Term, truth bool) bool {
		flag(s, st, c, truth)
		return true
	}
	h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
		if loc.k != TFieldAddr || loc.op != "normalizeOnRead" {
			return
		}
		r.ok(rule, "switch set "+p.instrPos(in))
		// on whenever the metric is cosine
		on := s.truth(st, val) == 1
		if b, ok := val.boolVal(); ok {
			on = b
		}
		if on || flagOf(st, "cos") == "n" {
			return
		}
		v, t := cond(val, true)
		if t && v.k == TBin && v.op == "==" {
			for i, a := range v.args {
				if a.strip().k == TPure && a.strip().op == "metric" {
					if n, ok := v.args[1-i].str(); ok && n == cos {
						return
					}
				}
			}
		}
		s.violate(rule, in, inst, st, "normalising on read may be off though the metric is cosine")
	}
	s := newSim(p, h)
	s.Run(f)
	r.take(s)
}

// c12Pure: no element of a vector that belongs to someone else is written
func c12Pure(p *Prog, r *Report) {
	const rule = "caller-vector-unchanged"
	r.rule(rule, "no function writes an element of, appends into or copies over a vector it was given or read from the graph, a cache or a document")
	foreign := func(v ssa.Value) string { return "" }
	var seen map[ssa.Value]bool
	foreign = func(v ssa.Value) string {
		if seen[v] {
			return ""
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Parameter:
			return "a parameter"
		case *ssa.Slice:
			return foreign(x.X)
		case *ssa.ChangeType:
			return foreign(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if f := foreign(e); f != "" {
					return f
				}
			}
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return ""
			}
			switch a := x.X.(type) {
			case *ssa.Alloc:
				for _, u := range refs(a) {
					if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
						if f := foreign(st.Val); f != "" {
							return f
						}
					}
				}
			case *ssa.FieldAddr:
				if fieldVar(a.X.Type(), a.Field) != nil && fieldVar(a.X.Type(), a.Field).Name() == "Vector" {
					return "the vector of a node"
				}
				return ""
			case *ssa.FreeVar:
				fn := a.Parent()
				for i, fv := range fn.FreeVars {
					if fv != a || fn.Parent() == nil {
						continue
					}
					for _, b := range fn.Parent().Blocks {
						for _, in := range b.Instrs {
							if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
								if al, ok := mc.Bindings[i].(*ssa.Alloc); ok {
									for _, u := range refs(al) {
										if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
											if f := foreign(st.Val); f != "" {
												return f
											}
										}
									}
								}
							}
						}
					}
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return foreign(x.Call.Args[0])
			}
			if f := x.Call.StaticCallee(); f != nil && p.isRepoFn(f) {
				// a helper that hands its argument back
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						ret, ok := in.(*ssa.Return)
						if !ok || len(ret.Results) == 0 || !isFloats(ret.Results[0].Type()) {
							continue
						}
						for i, q := range f.Params {
							if ret.Results[0] == ssa.Value(q) {
								if w := foreign(x.Call.Args[i]); w != "" {
									return w
								}
							}
						}
					}
				}
			}
		}
		return ""
	}
	nfn := 0
	for _, f := range p.funcs {
		if f.Pkg == nil && f.Parent() == nil {
			continue
		}
		path := ""
		if g := rootFn(f); g.Pkg != nil {
			path = g.Pkg.Pkg.Path()
		}
		if !strings.HasPrefix(path, modPath+"/pkg/") || strings.Contains(path, "/asm") {
			continue
		}
		nfn++
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				seen = map[ssa.Value]bool{}
				what := ""
				switch x := in.(type) {
				case *ssa.Store:
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok && isFloats(ia.X.Type()) {
						what = foreign(ia.X)
						if what == "" {
							r.ok(rule, "element written "+p.instrPos(in))
						}
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && len(x.Call.Args) > 0 && isFloats(x.Call.Args[0].Type()) {
						switch bi.Name() {
						case "copy":
							what = foreign(x.Call.Args[0])
						case "append":
							// only what is cut short can be written over
							if sl, ok := x.Call.Args[0].(*ssa.Slice); ok && sl.High != nil {
								what = foreign(sl)
							}
						case "clear":
							what = foreign(x.Call.Args[0])
						}
					}
					if !x.Call.IsInvoke() {
						n := calleeName(&x.Call)
						if strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort") || strings.HasPrefix(n, "slices.Reverse") {
							for _, a := range x.Call.Args {
								if isFloats(a.Type()) {
									what = foreign(a)
								}
							}
						}
					}
				}
				if what != "" {
					r.failf(rule, p.instrPos(in), shortFn(f), "%s", "an element of "+what+" is written")
				}
			}
		}
	}
	r.ok(rule, "functions of the packages below pkg")
	if nfn == 0 {
		r.anchor(rule, "functions")
	}
}

func rootFn(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// c12Normalize: what normalising means here
func c12Normalize(p *Prog, r *Report) {
	const rule = "normalising"
	r.rule(rule, "the result of normalising is new, as long as the vector, and each element is the vector's element at the same place divided by the root of the sum of squares")
	fn := p.fn("pkg/hnsw/distancer.Normalize")
	if fn == nil {
		return
	}
	h := &Hooks{KeepLock: true, Inline: func(inst *Inst, f *ssa.Function) bool { return true }}
	h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
	h.Call = func(c *CallCtx) bool {
		if strings.HasPrefix(c.Name, "math.") {
			out := c.S.T.mk(TPure, c.Name, nil, nil, nil, 0, types.Typ[types.Float64], c.Args...)
			c.Out(c.St, out)
			return true
		}
		return false
	}
	h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
		if loc.k != TIndexAddr || !isFloats(loc.args[0].typ) {
			return
		}
		r.ok(rule, "element written "+p.instrPos(in))
		root := func(t *Term) bool { // depends on a root
			return t.any(func(x *Term) bool { return x.k == TPure && (x.op == "math.Sqrt" || x.op == "math.Hypot") })
		}
		elem := func(t *Term) bool { // the vector's element at this place
			t = t.strip()
			for t.k == TConv {
				t = t.args[0].strip()
			}
			return t.k == TLoad && t.args[0].k == TIndexAddr && vecRoot(t.args[0].args[0]) != nil && t.args[0].args[1] == loc.args[1]
		}
		v := val.strip()
		for v.k == TConv {
			v = v.args[0].strip()
		}
		ok := v.k == TBin && (v.op == "/" && elem(v.args[0]) && root(v.args[1]) && !inverted(v.args[1]) ||
			v.op == "*" && (elem(v.args[0]) && inverted(v.args[1]) || elem(v.args[1]) && inverted(v.args[0])))
		if !ok {
			s.violate(rule, in, inst, st, "an element of the result is not the vector's element at that place divided by the root")
		}
	}
	h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
		x := res[0]
		if vecRoot(x) != nil {
			s.violate(rule, ret, inst, st, "the vector itself is returned")
			return
		}
		r.ok(rule, "result "+p.instrPos(ret))
		q := st.get(s.root, s.root.fn.Params[0], -1)
		if q == nil {
			q = s.val(st, s.root, s.root.fn.Params[0])
		}
		if !s.sameLen(st, x, q) {
			s.violate(rule, ret, inst, st, "the result may be shorter or longer than the vector")
		}
	}
	s := newSim(p, h)
	s.Run(fn)
	r.take(s)
}

// inverted: one over something that depends on a root
func inverted(t *Term) bool {
	t = t.strip()
	for t.k == TConv {
		t = t.args[0].strip()
	}
	return t.k == TBin && t.op == "/" && t.args[1].any(func(x *Term) bool { return x.k == TPure && x.op == "math.Sqrt" })
}
