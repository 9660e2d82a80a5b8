package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func ghostCell(s *Sim, what string, args ...*Term) *Term {
	return s.T.mk(TPure, "ghost-"+what, nil, nil, nil, 0, nil, args...)
}

// docFields: the constant-key entries of the map a JSON document was made of
func docFields(s *Sim, st *State, data *Term) map[string]*Term {
	out := map[string]*Term{}
	data = data.strip()
	for l, v := range st.mem {
		if l.k == TPure && strings.HasPrefix(l.op, "ghost-doc:") && len(l.args) == 1 && l.args[0] == data {
			out[strings.TrimPrefix(l.op, "ghost-doc:")] = v
		}
	}
	return out
}

// marshalDoc: json.Marshal, remembering the entries of a map
func marshalDoc(c *CallCtx) bool {
	if c.Name != "encoding/json.Marshal" {
		return false
	}
	s := c.S
	src := c.Args[0].unbox()
	es := map[string]*Term{}
	for l, v := range c.St.mem {
		if l.k == TMapElem && l.args[0] == src {
			if k, ok := l.args[1].str(); ok {
				es[k] = v.unbox()
			}
		}
	}
	stdCall(c)
	data := s.T.mk(TPure, "json", nil, nil, nil, 0, c.Com.Signature().Results().At(0).Type(), src, s.snapshot(c.St, src))
	for _, o := range c.outs {
		for k, v := range es {
			o.mem[ghostCell(s, "doc:"+k, data)] = v
		}
	}
	return true
}

type idRec struct{ id *Term }

type edgeRec struct {
	inst     *Inst
	from, to *ssa.BasicBlock
	back     bool
	st       *State
}

func init() {
	register("C03", func(p *Prog, r *Report) {
		r.explain = "value-flow and critical-section analysis of the add operation (the terms stored as id, indexed and cached, and their difference from one loop round to the next) and of the searches (the id looked up for every slot of the answer)"
		name := c03Search(p, r)
		c03Create(p, r, name)
		c03Add(p, r, name)
		c03Count(p, r)
	})
}

// knnHooks: tags the results of the vector search
func knnCall(c *CallCtx) bool {
	m := isIndexCall(c)
	if m == "" || !strings.Contains(m, "Search") {
		return false
	}
	forkErr(c, nil, nil)
	call, _ := c.Instr.(*ssa.Call)
	for _, o := range c.outs {
		for i := 0; i < c.NRes()-1; i++ {
			if t := o.get(c.Inst, call, i); t != nil {
				c.S.setTag(o, t, c.S.T.mk(TPure, fmt.Sprintf("found:%d", i), nil, nil, nil, 0, nil))
			}
		}
	}
	return true
}

func knnTag(s *Sim, st *State, t *Term) *Term {
	if t.k == TSlice && t.args[1] == nil {
		return s.tag(st, t.args[0])
	}
	return nil
}

// foundElem: element i of the ids (0) or distances (1) the search returned
func foundElem(s *Sim, st *State, t *Term, comp int) (*Term, bool) {
	t = t.strip()
	if t.k != TLoad || t.args[0].k != TIndexAddr {
		return nil, false
	}
	g := s.tag(st, t.args[0].args[0])
	if g == nil || g.op != fmt.Sprintf("found:%d", comp) {
		return nil, false
	}
	return t.args[0].args[1], true
}

func inGo(i *Inst) bool {
	for ; i != nil; i = i.parent {
		if i.kind == 'g' || i.kind == 'e' {
			return true
		}
	}
	return false
}

// searchOps: operations that ask the vector index and look documents up
func searchOps(p *Prog, r *Report, rule string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range clientOps(p) {
		ex := p.externals(f)
		knn := false
		for n := range ex {
			if strings.Contains(n, "VectorIndex.") && strings.Contains(n, "Search") {
				knn = true
			}
		}
		if !knn {
			for _, g := range p.reach(f) {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if ci, ok := in.(ssa.CallInstruction); ok {
							n := calleeName(ci.Common())
							if strings.Contains(n, "VectorIndex.") && strings.Contains(n, "Search") {
								knn = true
							}
						}
					}
				}
			}
		}
		if knn && ex[dfsAPI+"DocFind"] {
			out = append(out, f)
		}
	}
	if len(out) < 2 {
		r.anchor(rule, fmt.Sprintf("the search operations of the client (%d found)", len(out)))
	}
	return out
}

func c03Search(p *Prog, r *Report) string { return searchIDs(p, r, "search-ids") }

func searchIDs(p *Prog, r *Report, rule string) string {
	r.rule(rule, "every slot of a search's answer is filled with the first document found under the id the index returned for that slot")
	r.need(rule, 2)
	names := map[string]bool{}
	for _, fn := range searchOps(p, r, rule) {
		fn := fn
		h := docHooks(p)
		tag := h.Tag
		h.Tag = func(s *Sim, st *State, t *Term) *Term {
			if g := tag(s, st, t); g != nil {
				return g
			}
			return knnTag(s, st, t)
		}
		h.Call = func(c *CallCtx) bool {
			s := c.S
			if knnCall(c) {
				return true
			}
			if c.Name == dfsAPI+"DocFind" {
				r.ok(rule, "lookup "+p.instrPos(c.Instr)+" in "+fn.Name())
				ps := concat(roleArg(c, "expr"))
				ok := len(ps) == 2 && ps[0].t == nil && strings.HasSuffix(ps[0].s, "=") && ps[1].t != nil
				var slot *Term
				if ok {
					slot, ok = foundElem(s, c.St, ps[1].t, 0)
				}
				if !ok {
					s.violate(rule, c.Instr, c.Inst, c.St, "documents are looked up by "+showParts(ps)+", which is not an id the index returned")
				} else {
					names[strings.TrimSuffix(ps[0].s, "=")] = true
				}
				forkErr(c, nil, nil)
				call, _ := c.Instr.(*ssa.Call)
				for _, o := range c.outs {
					if t := o.get(c.Inst, call, 0); t != nil && slot != nil {
						s.setTag(o, t, s.T.mk(TPure, "docs-of-slot", nil, nil, nil, 0, nil, slot))
					}
				}
				return true
			}
			if c.Name == "builtin:append" && len(c.Args) > 1 {
				vs, _ := s.Varargs(c.St, c.Args[1])
				for _, v := range vs {
					if v.typ == nil || !isBytes(v.typ) {
						continue
					}
					r.ok(rule, "slot "+p.instrPos(c.Instr)+" in "+fn.Name())
					before := flagOf(c.St, "appended")
					setFlag(c.St, "appended", map[string]string{"": "1", "1": "2"}[before])
					if before != "" && before != "1" {
						setFlag(c.St, "appended", "more")
					}
					ok := false
					if g := s.tag(c.St, v); g != nil && g.op == "doc-of-slot" {
						ok = roundIndex(g.args[0])
						if n, is := g.args[0].int64(); is {
							ok = before == "more" || n == map[string]int64{"": 0, "1": 1, "2": 2}[before]
						}
					}
					if !ok {
						s.violate(rule, c.Instr, c.Inst, c.St, "a slot of the answer is not filled with the document of the id in that slot")
					}
				}
			}
			return clientCall(c)
		}
		h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
			if flagOf(st, "appended") == "" || s.nilness(st, res[len(res)-1]) == 1 || len(res) < 3 || res[0].isNilConst() {
				return
			}
			all := s.sameLen(st, res[0], res[1])
			if n := s.lenOf(st, res[0]); n.k == TLen {
				if g := s.tag(st, n.args[0]); g != nil && strings.HasPrefix(g.op, "found:") {
					all = true
				}
			}
			if !all {
				s.violate(rule, ret, inst, st, "a document may be missing from the answer, so that those after it are in the slots of others")
			}
		}
		load := h.Load
		h.Load = func(s *Sim, inst *Inst, in *ssa.UnOp, st *State, loc, val *Term) {
			load(s, inst, in, st, loc, val)
			if loc.k != TIndexAddr {
				return
			}
			if n, is := loc.args[1].int64(); is && n == 0 {
				if g := s.tag(st, loc.args[0]); g != nil && g.op == "docs-of-slot" {
					s.setTag(st, val, s.T.mk(TPure, "doc-of-slot", nil, nil, nil, 0, nil, g.args[0]))
				}
			}
		}
		h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
			// an element of the answer
			if loc.k != TIndexAddr || val.typ == nil || !isBytes(val.typ) {
				return
			}
			if _, ok := loc.args[0].typ.Underlying().(*types.Slice); !ok {
				return
			}
			r.ok(rule, "slot "+p.instrPos(in)+" in "+fn.Name())
			okv := false
			if g := s.tag(st, val); g != nil && g.op == "doc-of-slot" {
				if d, ok := diff(g.args[0], loc.args[1]); ok && d == 0 {
					okv = true
				}
			}
			if !okv {
				s.violate(rule, in, inst, st, "a slot of the answer is not filled with the document of the id in that slot")
			}
		}
		s := newSim(p, h)
		s.Run(fn)
		r.take(s)
	}
	if len(names) != 1 {
		r.failf(rule, "pkg/document/document.go", "", "searches look ids up under %d different properties", len(names))
		return ""
	}
	for n := range names {
		return n
	}
	return ""
}

func c03Create(p *Prog, r *Report, name string) {
	const rule = "id-index"
	r.rule(rule, "every collection is created with a number index on the property that ids are looked up by")
	r.need(rule, 1)
	for _, fn := range clientOps(p) {
		if !p.externals(fn)[dfsAPI+"DocCreate"] {
			continue
		}
		h := docHooks(p)
		h.Call = func(c *CallCtx) bool {
			s := c.S
			if c.Name == dfsAPI+"DocCreate" {
				r.ok(rule, "DocCreate "+p.instrPos(c.Instr))
				ix := roleArg(c, "indexes")
				found := false
				want := indexConst(p, "NumberIndex")
				for l, v := range c.St.mem {
					if ix != nil && l.k == TMapElem && l.args[0] == ix.strip() {
						if k, ok := l.args[1].str(); ok && k == name {
							if n, ok := v.int64(); ok && n == want {
								found = true
							}
						}
					}
				}
				if !found {
					s.violate(rule, c.Instr, c.Inst, c.St, "the collection may be created without a number index on the property ids are looked up by")
				}
			}
			return clientCall(c)
		}
		s := newSim(p, h)
		s.Run(fn)
		r.take(s)
	}
}

// indexConst: the value of a constant of fairOS' collection package
func indexConst(p *Prog, name string) int64 {
	for _, pk := range p.ssa.AllPackages() {
		if pk.Pkg.Path() == "github.com/fairdatasociety/fairOS-dfs/pkg/collection" {
			if c, ok := pk.Pkg.Scope().Lookup(name).(*types.Const); ok {
				if t := (&Term{k: TConst, c: c.Val()}); t != nil {
					n, _ := t.int64()
					return n
				}
			}
		}
	}
	return -1
}

func c03Add(p *Prog, r *Report, name string) {
	const idRule, uniqRule, csRule = "one-id", "ids-grow", "one-adder"
	r.rule(idRule, "the id a vector is indexed and cached under is the id its document was stored with; a document with a vector is stored with an id and indexed, one without gets none")
	r.rule(uniqRule, "ids start at the persisted count, the next document's id is larger than every id used before, ids are reserved before the first is used, and every count persisted covers the ids used before")
	r.rule(csRule, "reading the count, using ids and persisting the count happen under one lock of the client, held throughout")
	r.need(idRule, 3)
	r.need(uniqRule, 4)
	r.need(csRule, 4)
	n := 0
	for _, fn := range clientOps(p) {
		if !p.externals(fn)[dfsAPI+"DocPut"] {
			continue
		}
		n++
		c03AddFn(p, r, fn, name, idRule, uniqRule, csRule)
	}
	if n == 0 {
		r.anchor(idRule, "the operation that adds documents")
	}
}

func c03AddFn(p *Prog, r *Report, fn *ssa.Function, name, idRule, uniqRule, csRule string) {
	ids := map[*Term]bool{}
	type put struct {
		in   ssa.Instruction
		inst *Inst
		st   *State
	}
	type vecAt struct {
		inst *Inst
		v    ssa.Value
	}
	vecs := map[vecAt][]*Term{}
	type noVecPut struct{ put }
	var docs *Term

	h := docHooks(p)
	init := h.Init
	h.Init = func(s *Sim, st *State, root *Inst) {
		init(s, st, root)
		docs = st.get(root, fn.Params[len(fn.Params)-1], -1)
	}
	held := func(st *State) []string {
		return strings.Fields(flagOf(st, "cs"))
	}
	needCS := func(c *CallCtx, what string) {
		r.ok(csRule, what+" "+p.instrPos(c.Instr))
		if flagOf(c.St, "counted") == "" {
			return
		}
		if len(held(c.St)) == 0 {
			c.S.violate(csRule, c.Instr, c.Inst, c.St, what+" is called without a lock that was held since the count was read")
		}
	}
	h.Call = func(c *CallCtx) bool {
		s := c.S
		cnt := ghostCell(s, "count")
		used := ghostCell(s, "used")
		if op, ok := lockOp(c.Name); ok {
			l := c.Args[0].strip()
			if l.k == TFieldAddr && l.args[0].typ != nil && typeName(l.args[0].typ) == docPkg+".Client" {
				switch op {
				case "Lock":
					setFlag(c.St, "l-"+l.op, "1")
				case "Unlock":
					setFlag(c.St, "l-"+l.op, "")
					var keep []string
					for _, x := range held(c.St) {
						if x != l.op {
							keep = append(keep, x)
						}
					}
					setFlag(c.St, "cs", strings.Join(keep, " "))
				}
			}
			return clientCall(c)
		}
		if marshalDoc(c) {
			return true
		}
		switch m := isIndexCall(c); {
		case m == "GetDocCount":
			forkErr(c, func(st *State) {
				a, _ := st.A.(sig)
				var hs []string
				for k := range a {
					if strings.HasPrefix(k, "l-") && a[k] != "" {
						hs = append(hs, strings.TrimPrefix(k, "l-"))
					}
				}
				sortStrings(hs)
				setFlag(st, "cs", strings.Join(hs, " "))
				setFlag(st, "counted", "1")
			}, nil)
			call, _ := c.Instr.(*ssa.Call)
			for _, o := range c.outs {
				if t := o.get(c.Inst, call, 0); t != nil && flagOf(o, "counted") != "" {
					o.mem[cnt] = t
				}
			}
			r.ok(csRule, "GetDocCount "+p.instrPos(c.Instr))
			for _, o := range c.outs {
				if flagOf(o, "counted") != "" && flagOf(o, "cs") == "" {
					s.violate(csRule, c.Instr, c.Inst, o, "the count is read without a lock of the client")
				}
			}
			return true
		case m == "Flush":
			needCS(c, m)
			arg := c.Args[1]
			r.ok(uniqRule, "Flush "+p.instrPos(c.Instr))
			if u, ok := c.St.mem[used]; ok && flagOf(c.St, "used") != "" {
				if d, ok := diff(arg, u); !ok || d < 1 {
					s.violate(uniqRule, c.Instr, c.Inst, c.St, "the count persisted may not cover the id used last")
				}
			}
			s.record(fmt.Sprintf("fl%p|%d|%s", c.Instr, c.Inst.id, c.St.key()), put{c.Instr, c.Inst, c.St.clone()})
			forkErr(c, func(st *State) {
				if t, ok := st.mem[cnt]; ok {
					d := linear(arg).add(linear(t), -1)
					if len(d.m) == 1 && d.c >= 0 && d.m[s.lenOf(st, docs)] >= 1 {
						setFlag(st, "reserved", "all")
					}
					st.mem[ghostCell(s, "flushed")] = arg
				}
			}, nil)
			return true
		case m == "Add":
			needCS(c, m)
			id := c.Args[1]
			if n := len(c.Com.Args); n > 0 {
				oi, ov, _ := outer(c.Inst, c.Com.Args[n-1], nil)
				k := vecAt{oi, ov}
				vecs[k] = append(vecs[k], c.Args[2])
			}
			r.ok(idRule, "index.Add "+p.instrPos(c.Instr))
			if u, ok := c.St.mem[used]; !ok || flagOf(c.St, "used") == "" {
				s.violate(idRule, c.Instr, c.Inst, c.St, "a vector is indexed although no document was stored with its id before")
			} else if d, ok := diff(id, u); !ok || d != 0 {
				s.violate(idRule, c.Instr, c.Inst, c.St, "a vector is indexed under another id than its document was stored with")
			}
			forkErr(c, func(st *State) { setFlag(st, "noidx", "") }, func(st *State) { setFlag(st, "noidx", "") })
			return true
		}
		if c.Name == lruCache+"Add" && loadOfField(c.Args[0], "documentCache") {
			r.ok(idRule, "cached vector "+p.instrPos(c.Instr))
			ps := concat(c.Args[1].unbox())
			u, ok := c.St.mem[used]
			good := ok && len(ps) > 0 && ps[len(ps)-1].t != nil
			if good {
				d, k := diff(ps[len(ps)-1].t, u)
				good = k && d == 0
			}
			if !good {
				s.violate(idRule, c.Instr, c.Inst, c.St, "a vector is cached under another id than its document was stored with")
			}
		}
		if c.Name == dfsAPI+"DocPut" {
			needCS(c, "DocPut")
			r.ok(idRule, "DocPut "+p.instrPos(c.Instr))
			v := docFields(s, c.St, roleArg(c, "data0"))[name]
			if v == nil {
				for _, a := range c.Args {
					if x := docFields(s, c.St, a)[name]; x != nil {
						v = x
					}
				}
			}
			neg := false
			if k, ok := v.int64(); ok && k < 0 {
				neg = true
			}
			if v == nil {
				s.violate(idRule, c.Instr, c.Inst, c.St, "a document may be stored without the property ids are looked up by")
			} else if !neg {
				s.record(fmt.Sprintf("id%p|%d|%s", c.Instr, c.Inst.id, c.St.key()), idRec{v})
				if flagOf(c.St, "counted") == "" {
					s.violate(uniqRule, c.Instr, c.Inst, c.St, "an id is used before the persisted count was read")
				}
				if flagOf(c.St, "used") != "" {
					if u, ok := c.St.mem[used]; ok {
						if d, ok := diff(v, u); !ok || d < 1 {
							s.violate(uniqRule, c.Instr, c.Inst, c.St, "an id may be used for two documents")
						}
					}
				}
				if fl, ok := c.St.mem[ghostCell(s, "flushed")]; !ok {
					s.violate(uniqRule, c.Instr, c.Inst, c.St, "an id is used that was not reserved by persisting a larger count before")
				} else if flagOf(c.St, "reserved") != "all" {
					if d, ok := diff(fl, v); !ok || d < 1 {
						s.violate(uniqRule, c.Instr, c.Inst, c.St, "an id is used that was not reserved by persisting a larger count before")
					}
				}
			} else {
				s.record(fmt.Sprintf("nv%p|%d|%s", c.Instr, c.Inst.id, c.St.key()), noVecPut{put{c.Instr, c.Inst, c.St.clone()}})
			}
			forkErr(c, func(st *State) {
				if v != nil && !neg {
					st.mem[used] = v
					setFlag(st, "used", "1")
					setFlag(st, "noidx", "1")
				}
			}, nil)
			return true
		}
		return clientCall(c)
	}
	h.Edge = func(s *Sim, inst *Inst, from, to *ssa.BasicBlock, back bool, st *State) {
		isHead := false
		for _, q := range to.Preds {
			if to.Dominates(q) {
				isHead = true
			}
		}
		if !isHead {
			return
		}
		if back && p.loopCalls(to, dfsAPI+"DocPut") {
			setFlag(st, "vec", "")
		}
		if back && flagOf(st, "used") != "" {
			if u, ok := st.mem[ghostCell(s, "used")]; ok && p.loopCalls(to, dfsAPI+"DocPut") {
				if flagOf(st, "noidx") != "" {
					s.violate(idRule, from.Instrs[len(from.Instrs)-1], inst, st, "a document may be stored with an id without its vector being indexed")
				}
				r.ok(uniqRule, "next round "+p.blockPos(from))
				d, ok := diff(s.current(st, u), u)
				if !ok || d < 1 {
					s.violate(uniqRule, from.Instrs[len(from.Instrs)-1], inst, st, "the next document may get an id that is already used")
				} else if d > 1 && flagOf(st, "reserved") == "all" {
					s.violate(uniqRule, from.Instrs[len(from.Instrs)-1], inst, st, "ids may grow beyond those reserved")
				}
				setFlag(st, "used", "")
				delete(st.mem, ghostCell(s, "used"))
			}
		}
		s.record(fmt.Sprintf("%d|%p|%p|%s", inst.id, from, to, st.key()), edgeRec{inst, from, to, back, st.clone()})
	}
	h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, c *Term, truth bool) bool {
		// with and without a vector
		if v, empty := vecCond(c, truth); v != nil {
			if empty {
				setFlag(st, "vec", "no")
			} else {
				setFlag(st, "vec", "yes")
			}
		}
		return true
	}
	h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
		if s.nilness(st, res[len(res)-1]) != 1 && flagOf(st, "noidx") != "" {
			s.violate(idRule, ret, inst, st, "success may be reported although a document was stored with an id without its vector being indexed")
		}
	}
	s := newSim(p, h)
	s.Run(fn)
	s.src = nk{}
	edges := records[edgeRec](s)
	for _, v := range records[idRec](s) {
		ids[v.id] = true
	}
	// rounds that used no id, and the first round
	for _, e := range edges {
		for id := range ids {
			if !belongs(s, id, e.inst, e.to) || e.st.frames[e.inst] == nil {
				continue
			}
			cur := s.current(e.st, id)
			if e.back {
				if d, ok := diff(cur, id); !ok || d < 0 {
					s.violate(uniqRule, e.from.Instrs[len(e.from.Instrs)-1], e.inst, e.st, "the next document may get an id that is already used")
				} else if d > 1 {
					s.violate(uniqRule, e.from.Instrs[len(e.from.Instrs)-1], e.inst, e.st, "ids may grow beyond those reserved")
				}
				continue
			}
			r.ok(uniqRule, "first round "+p.blockPos(e.from))
			c, ok := e.st.mem[ghostCell(s, "count")]
			if ok {
				d, k := diff(cur, c)
				ok = k && d >= 0
				if k && d != 0 {
					ok = false
				}
			}
			if !ok {
				s.violate(uniqRule, e.from.Instrs[len(e.from.Instrs)-1], e.inst, e.st, "the first id is not the persisted count")
			}
		}
	}
	// a count persisted when no id is outstanding must not fall behind the next id
	for _, f := range records[put](s) {
		if flagOf(f.st, "used") != "" || f.st.mem[ghostCell(s, "count")] == nil {
			continue
		}
		call, ok := f.in.(*ssa.Call)
		if !ok {
			continue
		}
		arg := s.val(f.st, f.inst, call.Call.Args[len(call.Call.Args)-1])
		c := f.st.mem[ghostCell(s, "count")]
		d := linear(arg).add(linear(c), -1)
		if len(d.m) == 0 && d.c >= 0 && f.st.mem[ghostCell(s, "flushed")] == nil {
			continue // before the first id
		}
		if len(d.m) == 1 && d.c >= 0 && d.m[s.lenOf(f.st, docs)] >= 1 {
			continue
		}
		for id := range ids {
			if k, ok := diff(arg, s.current(f.st, id)); !ok || k < 0 {
				s.violate(uniqRule, f.in, f.inst, f.st, "the count persisted may not cover the ids used")
			}
		}
	}
	for _, q := range records[noVecPut](s) {
		for at, given := range vecs {
			if q.st.frames[q.inst] == nil {
				continue
			}
			// what it is at this put
			if now := q.st.get(at.inst, at.v, -1); now != nil && q.st.frames[at.inst] != nil {
				given = []*Term{now}
			}
			for _, v := range given {
				if v.inst != nil && q.st.frames[v.inst] == nil {
					continue
				}
				if s.nilness(q.st, v) != -1 && !s.zeroLen(q.st, v) {
					s.violate(idRule, q.in, q.inst, q.st, "a document with a vector may be stored without an id")
				}
			}
		}
	}
	r.take(s)
}

// zeroLen: the length is known to be 0
func (s *Sim) zeroLen(st *State, t *Term) bool {
	n := s.lenOf(st, t)
	if k, ok := n.int64(); ok {
		return k == 0
	}
	z := s.T.intConst(0)
	return s.truth(st, s.T.bin(tokEQL, z, n, nil)) == 1 || s.truth(st, s.T.bin(tokLSS, z, n, nil)) == -1
}

// belongs: the term depends on a value joined at that loop head
func belongs(s *Sim, t *Term, inst *Inst, head *ssa.BasicBlock) bool {
	return t.any(func(x *Term) bool {
		n := s.joinedAt(x)
		return n != nil && n.k.inst == inst && n.k.blk == head && n.k.idx == 0
	})
}

// the count handed out is the count persisted
func c03Count(p *Prog, r *Report) {
	const rule = "count-roundtrip"
	r.rule(rule, "a flush that reports success has stored the count it was given, and the count the index returns is the one stored, or 0 when there is none")
	r.need(rule, 2)
	storedCount(p, r, rule)
}

// vecCond: a test whether a vector is there at all
func vecCond(c *Term, truth bool) (*Term, bool) {
	c, truth = cond(c, truth)
	isVec := func(t *Term) bool {
		if t == nil || t.typ == nil {
			return false
		}
		sl, ok := t.typ.Underlying().(*types.Slice)
		return ok && types.Identical(sl.Elem(), types.Typ[types.Float32])
	}
	if c.k != TBin {
		return nil, false
	}
	x, y := c.args[0], c.args[1]
	switch c.op {
	case "==":
		if x.isNilConst() {
			x, y = y, x
		}
		if y.isNilConst() && isVec(x) {
			return x, truth
		}
		if x.k != TLen {
			x, y = y, x
		}
		if n, ok := y.int64(); ok && n == 0 && x.k == TLen && isVec(x.args[0]) {
			return x.args[0], truth
		}
	case "<":
		if n, ok := x.int64(); ok && n == 0 && y.k == TLen && isVec(y.args[0]) {
			return y.args[0], !truth
		}
		if n, ok := y.int64(); ok && n == 1 && x.k == TLen && isVec(x.args[0]) {
			return x.args[0], truth
		}
	}
	return nil, false
}

// roundIndex: the index of the round of a loop that takes one element after the other
func roundIndex(t *Term) bool {
	l := linear(t)
	for x, k := range l.m {
		return len(l.m) == 1 && k == 1 && x.k == TJoin && l.c >= 0 && l.c <= 1
	}
	return false
}
