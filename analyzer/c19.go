package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C19", func(p *Prog, r *Report) {
		r.explain = "typestate over every operation of the document client with everything it calls: which of the two checks (session present, pod opened) the path went through before each storage, key-value and index access; provenance of the session and pod values the client keeps"
		c19Ops(p, r)
		c19Set(p, r)
		c19Start(p, r)
	})
}

// subterms visits a term and its parts
func subterms(t *Term, seen map[*Term]bool, f func(*Term)) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	f(t)
	for _, a := range t.args {
		subterms(a, seen, f)
	}
}

func c19Ops(p *Prog, r *Report) {
	const acc, succ = "checked-access", "refused"
	r.rule(acc, "every storage, key-value or index access of an operation comes after the operation found a session and an opened pod (only logging in needs neither, and opening a pod needs a session)")
	r.rule(succ, "an operation on collections or documents never reports success without having found a session and an opened pod")
	r.need(acc, 20)
	r.need(succ, 7)
	ops := dataOps(p, r, acc)
	data := map[*ssa.Function]bool{}
	for _, f := range ops {
		data[f] = true
	}
	for _, fn := range clientOps(p) {
		fn := fn
		h := docHooks(p)
		h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, c *Term, truth bool) bool {
			subterms(c, map[*Term]bool{}, func(t *Term) {
				if _, ok := clientField(s, st, t, "sessionId"); ok && s.nonEmpty(st, t) {
					setFlag(st, "session", "1")
				}
				if _, ok := clientField(s, st, t, "podInfo"); ok && s.nilness(st, t) == 1 {
					setFlag(st, "pod", "1")
				}
			})
			return true
		}
		h.Call = func(c *CallCtx) bool {
			need := ""
			switch {
			case c.Name == dfsAPI+"OpenPod" || c.Name == dfsAPI+"CreatePod" || c.Name == dfsAPI+"IsPodExist":
				need = "session"
			case strings.HasPrefix(c.Name, dfsAPI+"LoginUser"):
			case isStorage(c) || isIndexCall(c) != "" || c.Name == hnswPkg+".New":
				need = "session,pod"
			}
			if need != "" {
				r.ok(acc, c.Name[strings.LastIndex(c.Name, ".")+1:]+" "+p.instrPos(c.Instr)+" in "+fn.Name())
				for _, n := range strings.Split(need, ",") {
					if flagOf(c.St, n) == "" {
						what := "session was found"
						if n == "pod" {
							what = "pod was found open"
						}
						c.S.violate(acc, c.Instr, c.Inst, c.St, shortName(c.Name)+" may be reached although no "+what)
					}
				}
			}
			return clientCall(c)
		}
		h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
			if !data[fn] || s.nilness(st, res[len(res)-1]) == 1 {
				return
			}
			r.ok(succ, "success of "+fn.Name()+" "+p.instrPos(ret))
			if flagOf(st, "session") == "" || flagOf(st, "pod") == "" {
				s.violate(succ, ret, inst, st, "success may be reported although no session and open pod were found")
			}
		}
		s := newSim(p, h)
		s.Run(fn)
		r.take(s)
	}
}

// c19Set: the client has a session only after a login and a pod only after opening it, and never loses them
func c19Set(p *Prog, r *Report) {
	const rule = "set-by-success"
	r.rule(rule, "the session the client keeps is the one of a login that succeeded, the pod info the one of a pod opened without error; nothing else changes them")
	r.need(rule, 2)
	for _, fn := range p.funcs {
		stores := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && typeName(fa.X.Type()) == docPkg+".Client" {
					n := fieldVar(fa.X.Type(), fa.Field).Name()
					if n != "sessionId" && n != "podInfo" {
						continue
					}
					for _, u := range refs(fa) {
						if st, ok := u.(*ssa.Store); ok && st.Addr == fa {
							stores = true
						} else if _, ok := u.(*ssa.UnOp); !ok {
							if _, ok := u.(*ssa.DebugRef); !ok {
								r.failf(rule, p.instrPos(u), shortFn(fn), "the address of the client's %s is handed on", n)
							}
						}
					}
				}
			}
		}
		if !stores {
			continue
		}
		roots := []*ssa.Function{fn}
		if fn.Object() == nil || !fn.Object().Exported() {
			roots = nil
		}
		if roots == nil {
			// a helper: judged from the operations that use it
			for _, f := range clientOps(p) {
				for _, g := range p.reach(f) {
					if g == fn {
						roots = append(roots, f)
						break
					}
				}
			}
		}
		for _, root := range roots {
			h := docHooks(p)
			h.Call = func(c *CallCtx) bool {
				if strings.HasPrefix(c.Name, dfsAPI+"LoginUser") || c.Name == dfsAPI+"OpenPod" {
					call, _ := c.Instr.(*ssa.Call)
					forkErr(c, nil, nil)
					for _, o := range c.outs {
						if t := o.get(c.Inst, call, 0); t != nil && c.S.nilness(o, o.get(c.Inst, call, 1)) == -1 {
							c.S.setTag(o, t, c.S.T.mk(TPure, "got:"+c.Name[len(dfsAPI):], nil, nil, nil, 0, nil))
							c.S.setNil(o, t, 1)
						}
					}
					return true
				}
				if strings.HasSuffix(c.Name, ".GetSessionId") {
					ok := false
					subterms(c.Args[0], map[*Term]bool{}, func(t *Term) {
						g := c.S.tag(c.St, t)
						ok = ok || g != nil && strings.HasPrefix(g.op, "got:LoginUser")
					})
					c.Out(c.St, c.FreshAll(c.St)...)
					if ok {
						call, _ := c.Instr.(*ssa.Call)
						c.S.setTag(c.St, c.St.get(c.Inst, call, -1), c.S.T.mk(TPure, "got:session", nil, nil, nil, 0, nil))
					}
					return true
				}
				return clientCall(c)
			}
			h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
				if loc.k != TFieldAddr || loc.args[0].typ == nil || typeName(loc.args[0].typ) != docPkg+".Client" || localRoot(loc) {
					return
				}
				want := map[string]string{"sessionId": "got:session", "podInfo": "got:OpenPod"}[loc.op]
				if want == "" {
					return
				}
				r.ok(rule, loc.op+" "+p.instrPos(in))
				if g := s.tag(st, val); g == nil || g.op != want {
					s.violate(rule, in, inst, st, "the client's "+loc.op+" is set to something that is not the result of a successful login or pod opening")
				}
			}
			s := newSim(p, h)
			s.Run(root)
			r.take(s)
		}
	}
}

// c19Start: the server only starts with a session and an open pod
func c19Start(p *Prog, r *Report) {
	const rule = "started"
	r.rule(rule, "the request handlers are only created after login and pod opening succeeded")
	r.need(rule, 1)
	fn := mustFn(p, r, rule, "adapters/handlers.NewHandler")
	if fn == nil {
		return
	}
	h := &Hooks{}
	h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
	h.Inline = func(inst *Inst, f *ssa.Function) bool {
		return f.Signature.Recv() == nil || typeName(f.Signature.Recv().Type()) != docPkg+".Client"
	}
	h.Call = func(c *CallCtx) bool {
		if f := c.Com.StaticCallee(); f != nil && f.Signature.Recv() != nil && typeName(f.Signature.Recv().Type()) == docPkg+".Client" {
			n := f.Name()
			if n == "OpenPod" && flagOf(c.St, "Login") == "" {
				c.S.violate(rule, c.Instr, c.Inst, c.St, "a pod is opened before the login")
			}
			if errResult(c.Com.Signature()) >= 0 {
				forkErr(c, func(st *State) { setFlag(st, n, "1") }, nil)
				return true
			}
		}
		if stdCall(c) {
			return true
		}
		if extErr(c) {
			forkErr(c, nil, nil)
			return true
		}
		return false
	}
	h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
		if s.nilness(st, res[len(res)-1]) == 1 {
			return
		}
		r.ok(rule, "success "+p.instrPos(ret))
		if flagOf(st, "Login") == "" || flagOf(st, "OpenPod") == "" {
			s.violate(rule, ret, inst, st, "the server may start without a session or an open pod")
		}
	}
	s := newSim(p, h)
	s.Run(fn)
	r.take(s)
}
