package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	visPkg  = hnswPkg + "/visited"
	poolGet = "(sync.Pool).Get"
	poolPut = "(sync.Pool).Put"
	visGet  = "(" + visPkg + ".Pool).Borrow"
	visPut  = "(" + visPkg + ".Pool).Return"
)

// isPoolWrapper: a method of a type that wraps a pool
func isPoolWrapper(f *ssa.Function) bool {
	if f.Signature.Recv() == nil {
		return false
	}
	st := structOf(deref(f.Signature.Recv().Type()))
	if st == nil || st.NumFields() > 2 {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if typeName(deref(st.Field(i).Type())) == "sync.Pool" {
			return true
		}
	}
	return false
}

// poolID: which pool, by the fields that lead to it
func poolID(t *Term) string {
	path, _ := rootFieldPath(t)
	for len(path) > 0 && (path[0] == "graph" || path[0] == "pools") {
		path = path[1:]
	}
	if len(path) > 1 && path[len(path)-1] == "pool" {
		path = path[:len(path)-1]
	}
	return strings.Join(path, ".")
}

// pooledBase: the object behind what was cut from or appended to it
func pooledBase(t *Term) *Term {
	for t != nil {
		t = t.unbox()
		for t.k == TAssert || t.k == TConv {
			t = t.args[0].unbox()
		}
		if t.k == TSlice {
			t = t.args[0]
			continue
		}
		if t.k == TPure && t.op == "builtin:append" {
			t = t.args[0]
			continue
		}
		return t
	}
	return t
}

func pooledKey(t *Term) string {
	b := pooledBase(t)
	if b == nil || b.k == TConst {
		return ""
	}
	return fmt.Sprintf("o%d", b.id)
}

func init() {
	register("C23", func(p *Prog, r *Report) {
		c23Use(p, r)
		c23Visited(p, r)
	})
}

// emptying: the methods of a type that leave every list in it empty
func (p *Prog) emptying(nt *types.Named) map[string]bool {
	out := map[string]bool{}
	for _, f := range p.funcs {
		if f.Signature.Recv() == nil || deref(f.Signature.Recv().Type()) != types.Type(nt) || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		st := structOf(nt)
		if st == nil {
			continue
		}
		all, any := true, false
		h := &Hooks{KeepLock: true}
		h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, stt *State, res []*Term) {
			any = true
			recv := s.val(stt, s.root, s.root.fn.Params[0])
			n := 0
			for i := 0; i < st.NumFields(); i++ {
				if _, ok := st.Field(i).Type().Underlying().(*types.Slice); !ok {
					continue
				}
				n++
				v, ok := stt.mem[s.fieldAddr(recv, st.Field(i), i)]
				if !ok || !s.zeroLen(stt, v) {
					all = false
				}
			}
			all = all && n > 0
		}
		s := newSim(p, h)
		s.Run(f)
		if all && any {
			out[f.Name()] = true
		}
	}
	return out
}

// pooledResult: the pool a function's result was taken from, "" if none
func (p *Prog) pooledResult(f *ssa.Function) string {
	seen := map[ssa.Value]bool{}
	var of func(v ssa.Value) string
	of = func(v ssa.Value) string {
		if seen[v] {
			return ""
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if s := of(e); s != "" {
					return s
				}
			}
		case *ssa.TypeAssert:
			return of(x.X)
		case *ssa.Extract:
			return of(x.Tuple)
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
				for _, u := range refs(al) {
					if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
						if s := of(st.Val); s != "" {
							return s
						}
					}
				}
			}
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil && g != f && len(x.Call.Args) > 0 {
				if isPoolWrapper(g) && p.externals(g)[poolGet] || funcName(g) == poolGet {
					if u, ok := x.Call.Args[0].(*ssa.UnOp); ok {
						if fa, ok := u.X.(*ssa.FieldAddr); ok {
							return fieldVar(fa.X.Type(), fa.Field).Name()
						}
					}
				}
				if p.isRepoFn(g) && !isPoolWrapper(g) {
					return p.pooledResult(g)
				}
			}
		}
		return ""
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ret, ok := in.(*ssa.Return); ok {
				for _, x := range ret.Results {
					if _, ok := x.Type().Underlying().(*types.Pointer); !ok {
						continue
					}
					if s := of(x); s != "" {
						return s
					}
				}
			}
		}
	}
	return ""
}

// releases: the parameters a function gives back to a pool itself
func (p *Prog) releases(f *ssa.Function) map[int]bool {
	out := map[int]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			g := ci.Common().StaticCallee()
			if g == nil || len(ci.Common().Args) < 2 {
				continue
			}
			n := funcName(g)
			if n != poolPut && n != visPut && !(isPoolWrapper(g) && p.externals(g)[poolPut]) {
				continue
			}
			v := ci.Common().Args[1]
			if mi, ok := v.(*ssa.MakeInterface); ok {
				v = mi.X
			}
			for i, q := range f.Params {
				if v == ssa.Value(q) {
					out[i] = true
				}
			}
		}
	}
	return out
}

func c23Use(p *Prog, r *Report) {
	const clean, after, same = "clean-when-taken", "unused-once-returned", "same-pool"
	r.rule(clean, "an object taken from a pool is emptied before it is used or handed out, unless only emptied objects are ever put into that pool")
	r.rule(after, "on every path, an object that was given back to a pool is not used, returned, stored or given back again")
	r.rule(same, "an object goes back to the pool it was taken from")
	r.need(clean, 3)
	r.need(after, 5)
	empt := map[string]map[string]bool{}
	emptying := func(t types.Type) map[string]bool {
		nt, ok := deref(t).(*types.Named)
		if !ok {
			return nil
		}
		k := typeName(nt)
		if empt[k] == nil {
			empt[k] = p.emptying(nt)
		}
		return empt[k]
	}
	var fns []*ssa.Function
	for _, f := range p.methodsOf("pkg/hnsw", "hnsw") {
		if f.Object().Exported() {
			fns = append(fns, f)
		}
	}
	// pools into which only empty objects are put
	dirty := map[string]bool{}
	put := map[string]bool{}
	reach := p.reach(fns...)
	for _, pass := range []int{0, 1} {
		for _, f := range reach {
			if f.Pkg == nil || f.Pkg.Pkg.Path() != hnswPkg || f.Parent() != nil {
				continue
			}
			touches := false
			for _, g := range append(p.callees(f), f) {
				touches = touches || isPoolWrapper(g) || callsDirectly(g, func(n string) bool { return n == poolGet || n == poolPut || n == visGet || n == visPut }) || p.pooledResult(g) != ""
			}
			if !touches {
				continue
			}
			h := &Hooks{KeepLock: true, Inline: func(inst *Inst, g *ssa.Function) bool { return isPoolWrapper(g) || g.Parent() != nil }}
			h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
			used := func(s *Sim, inst *Inst, in ssa.Instruction, st *State, t *Term, how string) {
				k := pooledKey(t)
				if k == "" || pass == 0 {
					return
				}
				v := flagOf(st, k)
				switch {
				case v == "put":
					s.violate(after, in, inst, st, "an object that was given back to its pool is "+how)
				case strings.HasPrefix(v, "dirty:"):
					s.violate(clean, in, inst, st, "an object taken from a pool is "+how+" before it is emptied")
				}
			}
			h.Call = func(c *CallCtx) bool {
				s := c.S
				switch {
				case c.Name == poolGet || c.Name == visGet:
					id := "visitedLists"
					if c.Name == poolGet {
						id = poolID(c.Args[0])
					}
					out := c.FreshAll(c.St)
					if k := pooledKey(out[0]); k != "" {
						state := "clean:" + id
						if c.Name == poolGet && (!put[id] && pass == 1 || dirty[id]) {
							state = "dirty:" + id
						}
						setFlag(c.St, k, state)
					}
					if pass == 1 {
						r.ok(clean, "taken from "+id+" "+p.instrPos(c.Instr))
						if v, ok := c.Instr.(ssa.Value); ok && c.Name == poolGet && (dirty[id] || !put[id]) && put[id] && keepsElements(v) {
							s.violate(clean, c.Instr, c.Inst, c.St, "a list taken from a pool is used with what was left in it")
						}
					}
					c.Out(c.St, out...)
					return true
				case c.Name == poolPut || c.Name == visPut:
					id := "visitedLists"
					v := c.Args[1]
					if c.Name == poolPut {
						id = poolID(c.Args[0])
						put[id] = true
						if u := v.unbox(); !(u.typ != nil && isSlice(u.typ) && s.zeroLen(c.St, u)) {
							dirty[id] = true
						}
					}
					ks := []string{pooledKey(v)}
					if c.Name == visPut {
						// the variable it was in
						if call, ok := c.Instr.(ssa.CallInstruction); ok && len(call.Common().Args) > 1 {
							if u, ok := call.Common().Args[1].(*ssa.UnOp); ok && u.Op == token.MUL {
								ks = append(ks, pooledKey(s.val(c.St, c.Inst, u.X)))
							}
						}
					}
					for i, k := range ks {
						if k == "" {
							continue
						}
						if pass == 1 && i == 0 {
							r.ok(after, "given back to "+id+" "+p.instrPos(c.Instr))
							was := flagOf(c.St, k)
							if was == "put" {
								s.violate(after, c.Instr, c.Inst, c.St, "an object is given back twice")
							} else if j := strings.Index(was, ":"); j > 0 {
								r.ok(same, "given back to "+id+" "+p.instrPos(c.Instr))
								if from := was[j+1:]; from != id && from != "pool" && id != "pool" && id != "" && from != "" {
									s.violate(same, c.Instr, c.Inst, c.St, "an object taken from "+from+" is given back to "+id)
								}
							}
						}
						setFlag(c.St, k, "put")
					}
					c.Out(c.St, c.FreshAll(c.St)...)
					return true
				}
				if strings.HasPrefix(c.Name, "builtin:") && c.Name != "builtin:append" && c.Name != "builtin:copy" {
					return false
				}
				ts := s.targets(c)
				for _, t := range ts {
					if s.inlinable(c.Inst, t.fn) {
						return false
					}
				}
				for i, a := range c.Args {
					k := pooledKey(a)
					if k == "" || flagOf(c.St, k) == "" {
						continue
					}
					if i == 0 && len(ts) > 0 && ts[0].fn.Signature.Recv() != nil && strings.HasPrefix(flagOf(c.St, k), "dirty:") {
						f := ts[0].fn
						if emptying(f.Signature.Recv().Type())[f.Name()] {
							setFlag(c.St, k, "clean:"+strings.TrimPrefix(flagOf(c.St, k), "dirty:"))
							continue
						}
						rs := f.Signature.Results()
						if f.Signature.Params().Len() == 0 && rs.Len() == 1 && isIntT(rs.At(0).Type()) {
							continue // its size
						}
					}
					used(s, c.Inst, c.Instr, c.St, a, "used by "+shortName(c.Name))
				}
				for _, t := range ts {
					for i := range p.releases(t.fn) {
						if i < len(c.Args) {
							if k := pooledKey(c.Args[i]); k != "" {
								setFlag(c.St, k, "put")
							}
						}
					}
				}
				// a result is a new object each time
				if call, ok := c.Instr.(*ssa.Call); ok && !strings.HasPrefix(c.Name, "builtin:") {
					for i := 0; i < c.NRes(); i++ {
						if _, ok := c.Com.Signature().Results().At(i).Type().Underlying().(*types.Pointer); ok {
							setFlag(c.St, fmt.Sprintf("o%d", s.T.mk(TCall, c.Name, nil, c.Inst, call, i, c.Com.Signature().Results().At(i).Type()).id), "")
						}
					}
				}
				// results taken from a pool
				if len(ts) == 1 {
					if id := p.pooledResult(ts[0].fn); id != "" && !isPoolWrapper(ts[0].fn) {
						n := errResult(c.Com.Signature())
						tag := func(st *State, out []*Term) {
							for i, o := range out {
								if i != n {
									if _, ok := c.Com.Signature().Results().At(i).Type().Underlying().(*types.Pointer); ok {
										setFlag(st, pooledKey(o), "clean:"+id)
									}
								}
							}
						}
						if n < 0 {
							out := c.FreshAll(c.St)
							tag(c.St, out)
							c.Out(c.St, out...)
							return true
						}
						ok, fail := c.St.clone(), c.St
						out := c.FreshAll(ok)
						out[n] = s.T.constVal(nil, errType)
						tag(ok, out)
						c.Out(ok, out...)
						out = c.FreshAll(fail)
						s.setNil(fail, out[n], 1)
						c.Out(fail, out...)
						return true
					}
				}
				return false
			}
			h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
				// a variable is given a new object
				if k := pooledKey(loc); loc.k == TAlloc && k != "" && flagOf(st, k) != "" {
					setFlag(st, k, "")
				}
				if loc.k == TFieldAddr || loc.k == TIndexAddr {
					used(s, inst, in, st, loc.args[0], "written to")
				}
				if val != nil && !localRoot(loc) {
					used(s, inst, in, st, val, "kept")
				}
			}
			h.Load = func(s *Sim, inst *Inst, in *ssa.UnOp, st *State, loc, val *Term) {
				if loc.k == TFieldAddr || loc.k == TIndexAddr {
					if k := pooledKey(loc.args[0]); k != "" && flagOf(st, k) == "put" {
						used(s, inst, in, st, loc.args[0], "read")
					}
				}
			}
			h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
				for _, x := range res {
					used(s, inst, ret, st, x, "returned")
				}
			}
			s := newSim(p, h)
			s.Run(f)
			if pass == 1 {
				r.take(s)
			}
		}
	}
	// what a pool makes itself is new
	r.ok(clean, "pools analysed")
}

// keepsElements: a list is used other than by cutting it to nothing first
func keepsElements(v ssa.Value) bool {
	for _, u := range refs(v) {
		switch x := u.(type) {
		case *ssa.TypeAssert:
			if isSlice(x.AssertedType) && keepsElements(x) {
				return true
			}
		case *ssa.Slice:
			if c, ok := x.High.(*ssa.Const); !ok || c.Int64() != 0 {
				return true
			}
		default:
			if isSlice(v.Type()) {
				return true
			}
		}
	}
	return false
}

func isSlice(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// c23Visited: the pool of visited lists
func c23Visited(p *Prog, r *Report) {
	const lk, vis = "visited-lock", "visited-clean"
	r.rule(lk, "the lists of the pool of visited lists are touched only while a lock is held: the pool's own, or one held at every call")
	r.rule(vis, "a visited list is reset before it can be borrowed again, and a borrowed list leaves the pool")
	r.need(lk, 2)
	r.need(vis, 2)
	var list *types.Var
	var idx int
	var owner types.Type
	for _, f := range p.methodsOf("pkg/hnsw/visited", "Pool") {
		owner = deref(f.Signature.Recv().Type())
	}
	if owner == nil {
		r.anchor(lk, "visited.Pool")
		return
	}
	st := structOf(owner)
	for i := 0; i < st.NumFields(); i++ {
		if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && strings.HasSuffix(typeName(sl.Elem()), "ListSet") {
			list, idx = st.Field(i), i
		}
	}
	if list == nil {
		r.anchor(lk, "the lists of visited.Pool")
		return
	}
	_ = idx
	outside := map[*ssa.Function]bool{}
	resets := map[string]bool{}
	for _, f := range p.methodsOf("pkg/hnsw/visited", "Pool") {
		f := f
		h := &Hooks{KeepLock: true}
		h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
		h.Inline = func(inst *Inst, g *ssa.Function) bool {
			return g.Signature.Recv() != nil && deref(g.Signature.Recv().Type()) == owner
		}
		h.Call = func(c *CallCtx) bool {
			if op, ok := lockOp(c.Name); ok {
				switch op {
				case "Lock":
					setFlag(c.St, "locked", "1")
				case "Unlock":
					setFlag(c.St, "locked", "")
				}
				return false
			}
			if c.Name == "("+visPkg+".ListSet).Reset" {
				setFlag(c.St, "reset", "1")
				return false
			}
			if c.Name == visPkg+".NewList" {
				setFlag(c.St, "new", "1")
			}
			return false
		}
		touch := func(s *Sim, inst *Inst, in ssa.Instruction, st *State) {
			r.ok(lk, "lists touched "+p.instrPos(in))
			if flagOf(st, "locked") == "" {
				outside[f] = true
			}
		}
		h.Load = func(s *Sim, inst *Inst, in *ssa.UnOp, st *State, loc, val *Term) {
			if loc.k == TFieldAddr && loc.op == list.Name() {
				touch(s, inst, in, st)
			}
			// an element is taken
			if loc.k == TIndexAddr && isListOf(loc.args[0], list.Name()) && strings.HasSuffix(typeName(in.Type()), "ListSet") {
				st.mem[ghostCell(s, "taken")] = loc.args[1]
				setFlag(st, "taken", "1")
			}
		}
		h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
			if loc.k != TFieldAddr || loc.op != list.Name() || localRoot(loc) {
				return
			}
			touch(s, inst, in, st)
			if v := val.strip(); v.k == TPure && v.op == "builtin:append" || v.k == TCall && v.op == "builtin:append" {
				r.ok(vis, "list put back "+p.instrPos(in))
				if flagOf(st, "reset") != "" {
					resets["put"] = true
				} else {
					resets["noput"] = true
				}
			}
			if t := st.mem[ghostCell(s, "taken")]; t != nil && val.strip().k == TSlice {
				if hi := val.strip().args[2]; hi != nil {
					if d, ok := diff(hi, t); ok && d == 0 {
						setFlag(st, "taken", "")
					}
				}
				if lo := val.strip().args[1]; lo != nil {
					if d, ok := diff(lo, t); ok && d == 1 {
						setFlag(st, "taken", "")
					}
				}
			}
		}
		h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
			if len(res) != 1 || !strings.HasSuffix(typeName(inst.fn.Signature.Results().At(0).Type()), "ListSet") {
				return
			}
			r.ok(vis, "list lent "+p.instrPos(ret))
			if flagOf(st, "taken") != "" {
				s.violate(vis, ret, inst, st, "a list is lent that stays in the pool")
			}
			if flagOf(st, "reset") != "" || flagOf(st, "new") != "" {
				resets["get"] = true
			} else {
				resets["noget"] = true
			}
		}
		s := newSim(p, h)
		s.Run(f)
		r.take(s)
	}
	if resets["noput"] && resets["noget"] {
		r.failf(vis, p.pos(list.Pos()), "visited.Pool", "a visited list can be lent again without having been reset")
	}
	// without a lock of its own, every caller must hold one
	for f := range outside {
		sites := p.callSites(f)
		if f.Object() == nil || len(sites) == 0 {
			continue
		}
		for _, site := range sites {
			g := site.Parent()
			h := &Hooks{KeepLock: true, Inline: func(inst *Inst, g *ssa.Function) bool { return false }}
			h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
			h.Call = func(c *CallCtx) bool {
				if op, ok := lockOp(c.Name); ok {
					if path, _ := rootFieldPath(c.Args[0]); len(path) > 0 && strings.Contains(path[len(path)-1], "isited") {
						switch op {
						case "Lock":
							setFlag(c.St, "locked", "1")
						case "Unlock":
							setFlag(c.St, "locked", "")
						}
					}
				}
				if c.Instr == ssa.Instruction(site) {
					r.ok(lk, "call "+p.instrPos(c.Instr))
					if flagOf(c.St, "locked") == "" {
						c.S.violate(lk, c.Instr, c.Inst, c.St, "visited lists are borrowed or returned without a lock")
					}
				}
				return false
			}
			s := newSim(p, h)
			s.Run(g)
			r.take(s)
		}
	}
}

func isListOf(t *Term, field string) bool {
	f, _ := lastField(t)
	return f == field
}
