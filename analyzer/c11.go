package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const distPkg = hnswPkg + "/distancer"

func isFloats(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float32
}

// isKernel: a comparison of two vectors that cannot report that their lengths differ
func isKernel(sig *types.Signature) bool {
	if sig.Params().Len() != 2 || sig.Results().Len() != 1 {
		return false
	}
	b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float32 && isFloats(sig.Params().At(0).Type()) && isFloats(sig.Params().At(1).Type())
}

// vecRoot: the parameter a vector was given through, unchanged
func vecRoot(t *Term) *Term {
	t = t.strip()
	for t != nil {
		switch t.k {
		case TParam:
			return t
		case TLoad, TField, TFieldAddr:
			t = t.args[0]
		default:
			return nil
		}
	}
	return nil
}

// sameLen: the two vectors are known to have the same length
func (s *Sim) sameLen(st *State, a, b *Term) bool {
	x, y := s.lenOf(st, a), s.lenOf(st, b)
	if s.truth(st, s.T.bin(tokEQL, x, y, nil)) == 1 || s.leq(st, x, y) && s.leq(st, y, x) {
		return true
	}
	for t, f := range st.facts {
		if t.k != TBin || t.op != "==" || f.truth != 1 {
			continue
		}
		for i := range t.args {
			if k, ok := t.args[i].int64(); ok && t.args[1-i] == x {
				if s.truth(st, s.T.bin(tokEQL, y, s.T.intConst(k), nil)) == 1 {
					return true
				}
			}
		}
	}
	return false
}

// vecLens: vectors of whose length something is known
func vecLens(st *State) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	for t, f := range st.facts {
		if f.truth == 0 {
			continue
		}
		t.any(func(x *Term) bool {
			if x.k == TLen && !seen[x.args[0]] && vecRoot(x.args[0]) != nil {
				seen[x.args[0]] = true
				out = append(out, x.args[0])
			}
			return false
		})
	}
	return out
}

func (s *Sim) lensMatch(st *State) bool {
	vs := vecLens(st)
	for _, a := range vs {
		for _, b := range vs {
			if vecRoot(a) != vecRoot(b) && s.sameLen(st, a, b) {
				return true
			}
		}
	}
	return false
}

func init() {
	register("C11", func(p *Prog, r *Report) {
		c11Lengths(p, r)
		c11Reported(p, r)
		c11Validate(p, r)
	})
}

func c11Lengths(p *Prog, r *Report) {
	const rule = "length-checked"
	r.rule(rule, "every function that compares two vectors and can fail reads an element, calls a comparison kernel or succeeds only where the two lengths are known to be equal; a kernel is called nowhere else")
	r.need(rule, 10)
	roots := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		if f.Pkg == nil || f.Synthetic != "" || f.Blocks == nil || isKernel(f.Signature) {
			continue
		}
		// public comparisons
		n := 0
		count := func(t types.Type) {
			if isFloats(t) {
				n++
				return
			}
			if st := structOf(deref(t)); st != nil && (f.Pkg.Pkg.Path() == distPkg || f.Pkg.Pkg.Path() == vecPkg) {
				for i := 0; i < st.NumFields(); i++ {
					if isFloats(st.Field(i).Type()) {
						n++
						return
					}
				}
			}
		}
		for _, q := range f.Params {
			count(q.Type())
		}
		public := (f.Pkg.Pkg.Path() == distPkg || f.Pkg.Pkg.Path() == vecPkg) && n >= 2 && errResult(f.Signature) >= 0
		// callers of kernels
		calls := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() && isKernel(ci.Common().Signature()) {
					if _, bi := ci.Common().Value.(*ssa.Builtin); !bi {
						calls = true
					}
				}
			}
		}
		if public || calls && f.Parent() == nil {
			roots[f] = public
		}
	}
	for _, f := range p.funcs {
		public, ok := roots[f]
		if !ok {
			continue
		}
		h := &Hooks{KeepLock: true, Inline: func(inst *Inst, g *ssa.Function) bool { return !isKernel(g.Signature) }}
		h.Call = func(c *CallCtx) bool {
			if !isKernel(c.Com.Signature()) || c.Com.IsInvoke() || strings.HasPrefix(c.Name, "builtin:") {
				return false
			}
			s := c.S
			a, b := c.Args[len(c.Args)-2], c.Args[len(c.Args)-1]
			r.ok(rule, "kernel call in "+shortFn(c.Instr.Parent())+" "+p.instrPos(c.Instr))
			if !s.sameLen(c.St, a, b) {
				s.violate(rule, c.Instr, c.Inst, c.St, "two vectors are compared whose lengths are not known to be equal")
			} else if ra, rb := vecRoot(a), vecRoot(b); ra == nil || rb == nil || ra == rb {
				s.violate(rule, c.Instr, c.Inst, c.St, "what is compared is not the two vectors that were given")
			}
			c.Out(c.St, c.FreshAll(c.St)...)
			return true
		}
		if public {
			h.Load = func(s *Sim, inst *Inst, in *ssa.UnOp, st *State, loc, val *Term) {
				if loc.k != TIndexAddr || vecRoot(loc.args[0]) == nil || !isFloats(loc.args[0].typ) {
					return
				}
				r.ok(rule, "element read in "+shortFn(in.Parent())+" "+p.instrPos(in))
				if !s.lensMatch(st) {
					s.violate(rule, in, inst, st, "an element of a vector is read before the lengths are known to be equal")
				}
			}
			h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
				n := errResult(inst.fn.Signature)
				if s.nilness(st, res[n]) == 1 {
					return
				}
				r.ok(rule, "success of "+shortFn(inst.fn)+" "+p.instrPos(ret))
				if !s.lensMatch(st) {
					s.violate(rule, ret, inst, st, shortFn(inst.fn)+" may succeed for vectors of different lengths")
				}
			}
		}
		s := newSim(p, h)
		s.Run(f)
		r.take(s)
	}
	// every distance the index can be given
	for _, m := range []string{"Provider", "Distancer"} {
		if len(p.implementers(distPkg, m)) == 0 {
			r.anchor(rule, "an implementation of "+m)
		}
	}
}

// distFns: functions that can fail because a distance cannot be computed
func (p *Prog) distFns() func(c *ssa.CallCommon) bool {
	isDist := func(sig *types.Signature) bool {
		rs := sig.Results()
		if rs.Len() != 3 || !isErr(rs.At(2).Type()) {
			return false
		}
		b, ok := rs.At(0).Type().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Float32 && isBool(rs.At(1).Type())
	}
	base := func(c *ssa.CallCommon) bool {
		n := calleeName(c)
		return isDist(c.Signature()) || strings.HasSuffix(n, "vectorizer.Vector).Distance")
	}
	in := map[*ssa.Function]bool{}
	for again := true; again; {
		again = false
		for _, f := range p.funcs {
			if in[f] || f.Blocks == nil {
				continue
			}
			hit := false
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					ci, ok := i.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if base(ci.Common()) {
						hit = true
					}
				}
			}
			for _, g := range p.callees(f) {
				hit = hit || in[g]
			}
			if hit {
				in[f] = true
				again = true
			}
		}
	}
	return func(c *ssa.CallCommon) bool {
		if base(c) {
			return true
		}
		if f := c.StaticCallee(); f != nil {
			return in[f]
		}
		if c.IsInvoke() {
			for _, f := range p.impls(c.Method, c.Value.Type()) {
				if in[f] {
					return true
				}
			}
			return false
		}
		for _, f := range p.funcsOf(c.Value, 0) {
			if in[f] {
				return true
			}
		}
		return false
	}
}

func c11Reported(p *Prog, r *Report) {
	const rule = "mismatch-reported"
	r.rule(rule, "a distance that cannot be computed makes every function it is computed in fail, up to the add or the search")
	r.need(rule, 12)
	dist := p.distFns()
	var roots []*ssa.Function
	for _, f := range p.methodsOf("pkg/hnsw", "hnsw") {
		if f.Object().Exported() {
			roots = append(roots, f)
		}
	}
	if len(roots) == 0 {
		r.anchor(rule, "the index")
	}
	for _, fn := range p.reach(append(roots, clientOps(p)...)...) {
		if !modularFn(fn) {
			continue
		}
		hit := false
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok && dist(ci.Common()) {
					hit = true
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			for _, b := range a.Blocks {
				for _, i := range b.Instrs {
					if ci, ok := i.(ssa.CallInstruction); ok && dist(ci.Common()) {
						hit = true
					}
				}
			}
		}
		if !hit {
			continue
		}
		o := failOpts{rule: rule, opaque: isCommitLogCall, success: errNotSurelyReported,
			only: func(c *CallCtx) bool { return dist(c.Com) }}
		s := newSim(p, failHooks(r, o))
		s.Run(fn)
		r.take(s)
	}
}

// c11Validate: what the check before an insert accepts
func c11Validate(p *Prog, r *Report) {
	const rule = "validated"
	r.rule(rule, "the check before an insert accepts a vector only for an empty index or when it is as long as a stored vector")
	fn := p.fn("pkg/hnsw.(*hnsw).ValidateBeforeInsert")
	if fn == nil {
		return
	}
	h := &Hooks{KeepLock: true}
	h.Call = func(c *CallCtx) bool {
		rs := c.Com.Signature().Results()
		if rs.Len() == 2 && isBool(rs.At(0).Type()) && isErr(rs.At(1).Type()) && len(c.S.targets(c)) > 0 {
			out := c.FreshAll(c.St)
			c.St.mem[ghostCell(c.S, "empty")] = out[0]
			c.Out(c.St, out...)
			return true
		}
		return extErr(c) && false
	}
	h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
		n := errResult(inst.fn.Signature)
		if n < 0 || s.nilness(st, res[n]) == 1 {
			return
		}
		r.ok(rule, "acceptance "+p.instrPos(ret))
		if e := st.mem[ghostCell(s, "empty")]; e != nil && s.truth(st, e) == 1 {
			return
		}
		for t, f := range st.facts {
			if f.truth != 0 && t.any(func(x *Term) bool { return x.k == TLen && vecRoot(x.args[0]) != nil }) {
				ok := false
				t.any(func(x *Term) bool {
					if x.k == TLen && vecRoot(x.args[0]) == nil {
						t.any(func(y *Term) bool {
							if y.k == TLen && vecRoot(y.args[0]) != nil && s.sameLen(st, x.args[0], y.args[0]) {
								ok = true
							}
							return false
						})
					}
					return false
				})
				if ok {
					return
				}
			}
		}
		s.violate(rule, ret, inst, st, "a vector may be accepted whose length differs from that of the stored ones")
	}
	s := newSim(p, h)
	s.Run(fn)
	r.take(s)
}
