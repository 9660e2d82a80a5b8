package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// kvKeys: the constant keys a function reads from the key-value store
func kvConstKeys(p *Prog, fn *ssa.Function, op string) []string {
	var out []string
	s := newSim(p, &Hooks{Init: func(s *Sim, st *State, root *Inst) { st.A = sig{} }, Call: func(c *CallCtx) bool {
		if stdCall(c) {
			return true
		}
		if c.Name == kvType+op {
			if k, ok := c.Args[2].strip().str(); ok {
				out = append(out, k)
			}
		}
		if extErr(c) {
			forkErr(c, nil, nil)
			return true
		}
		return false
	}})
	s.Run(fn)
	sortStrings(out)
	return uniq(out)
}

// track is a scan over a list: every element must be dealt with and the scan must end
// because there are no more elements
func scanLoad(s *Sim, st *State, list *Term, loc *Term) bool {
	if loc.k != TIndexAddr || loc.args[0] != list {
		return false
	}
	if flagOf(st, "pending") != "" {
		setFlag(st, "missed", "1")
	}
	setFlag(st, "pending", "1")
	return true
}

func init() {
	register("C01", func(p *Prog, r *Report) {
		r.explain = "flow- and path-sensitive dataflow over AddDocuments and Flush with everything they call: an automaton follows which documents were stored, and whether flush and feed commit came after; every return that may report success is an obligation"
		c01Add(p, r)
		c01Flush(p, r)
	})
}

func c01Add(p *Prog, r *Report) {
	const rule = "add-durable"
	r.rule(rule, "every return of AddDocuments that may report success comes after: every document of the batch was accepted by DocPut, then the index was flushed without error, then CommitPodFeeds succeeded, with no document or vector added in between")
	r.need(rule, 3)
	fn := mustFn(p, r, rule, "pkg/document.(*Client).AddDocuments")
	if fn == nil {
		return
	}
	docs := fn.Params[len(fn.Params)-1]
	var list *Term
	h := &Hooks{}
	h.Init = func(s *Sim, st *State, root *Inst) {
		st.A = sig{}
		list = st.get(root, docs, -1)
	}
	mutated := func(st *State) {
		setFlag(st, "flushed", "")
		setFlag(st, "committed", "")
		setFlag(st, "dirty", "1")
	}
	// the pod and session documents are stored with
	used := func(c *CallCtx) map[string]*Term {
		out := map[string]*Term{}
		for _, role := range []string{"podName", "sessionId"} {
			out[role] = c.S.T.mk(TPure, "put-"+role, nil, nil, nil, 0, nil)
		}
		return out
	}
	h.Call = func(c *CallCtx) bool {
		if stdCall(c) {
			return true
		}
		idx := isIndexCall(c)
		switch {
		case c.Name == dfsAPI+"DocPut":
			r.ok(rule, "DocPut "+p.instrPos(c.Instr))
			data := c.Args[4]
			for role, cell := range used(c) {
				if x := roleArg(c, role); x != nil {
					c.St.mem[cell] = x.strip()
				}
			}
			forkErr(c, func(st *State) {
				mutated(st)
				if data.any(func(t *Term) bool { return t.k == TLoad && t.args[0].k == TIndexAddr && t.args[0].args[0] == list }) {
					setFlag(st, "pending", "")
				}
				st.note("document stored: " + p.instrPos(c.Instr))
			}, func(st *State) { mutated(st); st.note("DocPut fails") })
			return true
		case idx == "Add":
			r.ok(rule, "index.Add "+p.instrPos(c.Instr))
			forkErr(c, mutated, mutated)
			return true
		case idx == "Flush":
			r.ok(rule, "index.Flush "+p.instrPos(c.Instr))
			forkErr(c, func(st *State) {
				setFlag(st, "flushed", "1")
				st.note("index flushed: " + p.instrPos(c.Instr))
			}, func(st *State) { st.note("Flush fails: " + p.instrPos(c.Instr)) })
			return true
		case c.Name == dfsAPI+"CommitPodFeeds":
			r.ok(rule, "CommitPodFeeds "+p.instrPos(c.Instr))
			rightPod := true
			for role, cell := range used(c) {
				if x, y := roleArg(c, role), c.St.mem[cell]; x != nil && y != nil && y != x.strip() {
					f, _ := lastField(x)
					g, _ := lastField(y)
					rightPod = rightPod && f == g
				}
			}
			forkErr(c, func(st *State) {
				if flagOf(st, "flushed") != "" && rightPod {
					setFlag(st, "committed", "1")
				}
				st.note("feeds committed: " + p.instrPos(c.Instr))
			}, func(st *State) { st.note("CommitPodFeeds fails") })
			return true
		case idx != "":
			if errResult(c.Com.Signature()) >= 0 {
				forkErr(c, nil, nil)
			} else {
				c.Out(c.St, c.FreshAll(c.St)...)
			}
			return true
		}
		if extErr(c) || errResult(c.Com.Signature()) >= 0 && c.Name == "(github.com/fairDataSociety/FaVe/pkg/document.Client).indexFor" {
			forkErr(c, nil, nil)
			return true
		}
		return false
	}
	h.Load = func(s *Sim, inst *Inst, in *ssa.UnOp, st *State, loc, val *Term) {
		if loc.k != TIndexAddr || loc.args[0] != list {
			return
		}
		if last, _ := st.A.(sig); last["pending"] != "" {
			// the same element again, or the next one while the last was not stored
			if !sameElem(s, st, loc) {
				setFlag(st, "missed", "1")
			}
		}
		setFlag(st, "pending", "1")
		lastElem(s, st, loc)
	}
	h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, c *Term, truth bool) bool {
		c, truth = cond(c, truth)
		if c.k == TBin && c.op == "<" && c.args[1] == s.lenOf(st, list) {
			if truth {
				setFlag(st, "all", "")
			} else {
				setFlag(st, "all", "1")
			}
		}
		return true
	}
	h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
		if s.nilness(st, res[0]) == 1 {
			return
		}
		at := p.instrPos(ret)
		r.ok(rule, "return "+at)
		empty := st.facts[s.T.bin(token.EQL, s.lenOf(st, list), s.T.intConst(0), nil)].truth == 1
		switch {
		case flagOf(st, "missed") != "" || flagOf(st, "pending") != "":
			s.violate(rule, ret, inst, st, "AddDocuments may report success although a document of the batch was not stored")
		case flagOf(st, "all") == "" && !empty:
			s.violate(rule, ret, inst, st, "AddDocuments may report success before it went through all documents of the batch")
		case flagOf(st, "dirty") != "" && flagOf(st, "flushed") == "":
			s.violate(rule, ret, inst, st, "AddDocuments may report success without a successful flush of the index after the last document")
		case flagOf(st, "dirty") != "" && flagOf(st, "committed") == "":
			s.violate(rule, ret, inst, st, "AddDocuments may report success without committing the pod's feeds after the flush")
		}
	}
	s := newSim(p, h)
	s.Run(fn)
	r.take(s)
	r.assume = append(r.assume, "fairOS: data written to documents and key-value tables is durable once CommitPodFeeds succeeded")
}

// the element last taken from the list
func lastElem(s *Sim, st *State, loc *Term) {
	st.mem[s.T.mk(TPure, "last-elem", nil, nil, nil, 0, nil)] = loc
}
func sameElem(s *Sim, st *State, loc *Term) bool {
	return st.mem[s.T.mk(TPure, "last-elem", nil, nil, nil, 0, nil)] == loc
}

func c01Flush(p *Prog, r *Report) {
	const rule = "flush-complete"
	r.rule(rule, "every return of the index's Flush that may report success comes after: every node held in memory was looked at and written under its id unless already written, the entry point was written (unless the index is empty), the count was written, and the commit log was flushed")
	r.need(rule, 5)
	fn := mustFn(p, r, rule, "pkg/hnsw.(*hnsw).Flush")
	ld := mustFn(p, r, rule, "pkg/hnsw.(*hnsw).LoadEntrypoint")
	gc := mustFn(p, r, rule, "pkg/hnsw.(*hnsw).GetDocCount")
	if fn == nil || ld == nil || gc == nil {
		return
	}
	epKeys, cntKeys := kvConstKeys(p, ld, "KVGet"), kvConstKeys(p, gc, "KVGet")
	if len(epKeys) != 1 || len(cntKeys) != 1 || epKeys[0] == cntKeys[0] {
		r.failf(rule, p.pos(ld.Pos()), shortFn(ld), "the entry point and the count are not read back from one key each (%v, %v)", epKeys, cntKeys)
		return
	}
	ep, cnt := epKeys[0], cntKeys[0]
	count := fn.Params[1]
	var list, countT *Term
	h := &Hooks{}
	h.Init = func(s *Sim, st *State, root *Inst) {
		st.A = sig{}
		countT = st.get(root, count, -1)
	}
	h.Call = func(c *CallCtx) bool {
		s := c.S
		if stdCall(c) {
			return true
		}
		switch {
		case c.Name == lruCache+"Keys":
			res := c.FreshAll(c.St)
			list = res[0]
			c.Out(c.St, res...)
			setFlag(c.St, "keys", "1")
			return true
		case c.Name == lruCache+"Get" || c.Name == lruCache+"Peek":
			a, b := c.St.clone(), c.St
			ra := c.FreshAll(a)
			c.Out(a, ra[0], s.T.boolConst(true))
			// gone from the cache
			rb := c.FreshAll(b)
			setFlag(b, "pending", "")
			c.Out(b, rb[0], s.T.boolConst(false))
			return true
		case c.Name == kvType+"KVPut":
			key, val := c.Args[2].strip(), c.Args[3].strip()
			str, isConst := key.str()
			what := ""
			switch {
			case isConst && str == ep:
				if val.any(func(t *Term) bool { return loadOfField(t, "entryPointID") }) {
					what = "ep"
				} else {
					s.violate(rule, c.Instr, c.Inst, c.St, "what is stored as entry point is not the index's entry point")
				}
			case isConst && str == cnt:
				if val.mentions(countT) {
					what = "count"
				} else {
					s.violate(rule, c.Instr, c.Inst, c.St, "what is stored as count is not the count the caller gave")
				}
			case isConst:
			default:
				what = "node"
			}
			r.ok(rule, "KVPut "+what+" "+p.instrPos(c.Instr))
			forkErr(c, func(st *State) {
				if what == "node" {
					setFlag(st, "pending", "")
					setFlag(st, "late", "")
				} else if what != "" {
					setFlag(st, what, "1")
				}
				st.note("stored: " + what)
			}, func(st *State) { st.note("KVPut fails: " + what + " " + p.instrPos(c.Instr)) })
			return true
		case c.Name == kvType+"KVGet":
			if str, ok := c.Args[2].strip().str(); ok && str == ep {
				forkErr(c, nil, func(st *State) { setFlag(st, "noep", "?") })
				return true
			}
		case strings.HasSuffix(c.Name, "CommitLogger.Flush"):
			r.ok(rule, "commit log flush "+p.instrPos(c.Instr))
			forkErr(c, func(st *State) { setFlag(st, "log", "1") }, nil)
			return true
		case isCommitLogCall(c):
			if errResult(c.Com.Signature()) >= 0 {
				forkErr(c, nil, nil)
				return true
			}
		}
		if extErr(c) {
			forkErr(c, nil, nil)
			return true
		}
		return false
	}
	h.Load = func(s *Sim, inst *Inst, in *ssa.UnOp, st *State, loc, val *Term) {
		if loc.k == TIndexAddr && list != nil && loc.args[0] == list {
			if flagOf(st, "pending") != "" && !sameElem(s, st, loc) {
				setFlag(st, "missed", "1")
			}
			setFlag(st, "pending", "1")
			lastElem(s, st, loc)
		}
	}
	h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, c *Term, truth bool) bool {
		c, truth = cond(c, truth)
		if list != nil && c.k == TBin && c.op == "<" && c.args[1] == s.lenOf(st, list) {
			if truth {
				setFlag(st, "all", "")
			} else {
				setFlag(st, "all", "1")
			}
		}
		if truth && loadOfField(c, "Committed") {
			setFlag(st, "pending", "")
		}
		if c.k == TPure && c.op == "errors.Is" && flagOf(st, "noep") == "?" {
			if truth && globalName(c.args[1]) == "ErrEntryNotFound" {
				setFlag(st, "noep", "1")
			} else {
				setFlag(st, "noep", "")
			}
		}
		return true
	}
	h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
		if s.nilness(st, res[len(res)-1]) == 1 {
			return
		}
		r.ok(rule, "return "+p.instrPos(ret))
		bad := ""
		switch {
		case flagOf(st, "keys") == "" || flagOf(st, "all") == "":
			bad = "without looking at every node in memory"
		case flagOf(st, "missed") != "" || flagOf(st, "pending") != "":
			bad = "although a changed node was not written"
		case flagOf(st, "ep") == "" && flagOf(st, "noep") != "1":
			bad = "without writing the entry point of an index that is not empty"
		case flagOf(st, "count") == "":
			bad = "without writing the count"
		case flagOf(st, "log") == "" && !(res[0].k == TCall && strings.HasSuffix(res[0].op, "CommitLogger.Flush")):
			bad = "without flushing the commit log"
		}
		if bad != "" {
			s.violate(rule, ret, inst, st, "Flush may report success "+bad)
		}
	}
	s := newSim(p, h)
	s.Run(fn)
	r.take(s)
}
