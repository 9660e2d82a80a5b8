package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const pqPkg = hnswPkg + "/priorityqueue"

func init() {
	register("C05", func(p *Prog, r *Report) {
		r.explain = "value-flow analysis of searches: bounds of the answer against the limit, pairing of ids, documents and distances slot by slot, inductive index relations of the loops that order results, guards of every result by the requested distance"
		searchIDs(p, r, "own-distance")
		ms := c05Client(p, r)
		c05Handlers(p, r)
		c05Index(p, r, ms)
		c05Queues(p, r)
	})
}

// leq: a <= b is known
func (s *Sim) leq(st *State, a, b *Term) bool {
	if a.strip().k == TPure && a.strip().op == "builtin:min" {
		for _, x := range a.strip().args {
			if s.leq(st, x, b) {
				return true
			}
		}
	}
	return s.leqLin(st, linear(a).add(linear(b), -1))
}

// leqLin: want <= 0 is known
func (s *Sim) leqLin(st *State, want lin) bool {
	if len(want.m) == 0 {
		return want.c <= 0
	}
	for t, f := range st.facts {
		if t.k != TBin || f.truth == 0 {
			continue
		}
		x, y := t.args[0], t.args[1]
		try := func(x, y *Term, c int64) bool {
			d := want.add(linear(x), -1).add(linear(y), 1)
			return len(d.m) == 0 && c+d.c <= 0
		}
		switch {
		case t.op == "<" && f.truth == 1:
			if try(x, y, -1) {
				return true
			}
		case t.op == "<" && f.truth == -1:
			if try(y, x, 0) {
				return true
			}
		case t.op == "<=" && f.truth == 1:
			if try(x, y, 0) {
				return true
			}
		case t.op == "<=" && f.truth == -1:
			if try(y, x, -1) {
				return true
			}
		case t.op == "==" && f.truth == 1:
			if try(x, y, 0) || try(y, x, 0) {
				return true
			}
		}
	}
	return false
}

func reorders(name string) bool {
	return strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "slices.Sort") || strings.HasPrefix(name, "slices.Reverse") || strings.HasPrefix(name, "math/rand.")
}

func paramOfType(fn *ssa.Function, ok func(types.Type) bool) *ssa.Parameter {
	for _, q := range fn.Params {
		if ok(q.Type()) {
			return q
		}
	}
	return nil
}

func basicKind(t types.Type, k types.BasicKind) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == k
}

// c05Client: limit, distance and pairing in the client
func c05Client(p *Prog, r *Report) map[string]bool {
	const lim, dst, pair = "limit", "distance-asked", "own-distance"
	r.rule(lim, "a search returns at most as many documents as a non-zero limit says")
	r.rule(dst, "the index is asked for vectors within the distance of the request")
	r.rule(pair, "the distances returned are those the index returned with the ids, in the same order, and the answer pairs every document with the distance at its position")
	r.need(lim, 2)
	r.need(dst, 2)
	methods := map[string]bool{}
	for _, fn := range searchOps(p, r, lim) {
		limit := paramOfType(fn, func(t types.Type) bool { return basicKind(t, types.Int) })
		distance := paramOfType(fn, func(t types.Type) bool { return basicKind(t, types.Float32) })
		if limit == nil || distance == nil {
			r.anchor(lim, "limit and distance parameters of "+fn.Name())
			continue
		}
		var lt, dt *Term
		h := docHooks(p)
		init := h.Init
		h.Init = func(s *Sim, st *State, root *Inst) {
			init(s, st, root)
			lt, dt = st.get(root, limit, -1), st.get(root, distance, -1)
		}
		tag := h.Tag
		h.Tag = func(s *Sim, st *State, t *Term) *Term {
			if g := tag(s, st, t); g != nil {
				return g
			}
			return knnTag(s, st, t)
		}
		h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, c *Term, truth bool) bool {
			c, truth = cond(c, truth)
			if c.mentions(lt) && !inLoop(in.Block()) {
				setFlag(st, fmt.Sprintf("L%p", in), fmt.Sprint(truth))
			}
			return true
		}
		h.Call = func(c *CallCtx) bool {
			s := c.S
			if m := isIndexCall(c); m != "" && strings.Contains(m, "Search") {
				methods[m] = true
				r.ok(dst, m+" "+p.instrPos(c.Instr)+" from "+fn.Name())
				ok := false
				for _, a := range c.Args {
					if a.typ != nil && basicKind(a.typ, types.Float32) {
						ok = a == dt
					}
				}
				if !ok {
					s.violate(dst, c.Instr, c.Inst, c.St, "the index is asked with another distance than the request's")
				}
			}
			if knnCall(c) {
				return true
			}
			if reorders(c.Name) {
				for _, a := range c.Args {
					if g := s.tag(c.St, a.unbox()); g != nil && strings.HasPrefix(g.op, "found:") {
						s.violate(pair, c.Instr, c.Inst, c.St, "what the index returned is reordered")
					}
				}
			}
			return clientCall(c)
		}
		h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
			if loc.k == TIndexAddr {
				if g := s.tag(st, loc.args[0]); g != nil && strings.HasPrefix(g.op, "found:") {
					s.violate(pair, in, inst, st, "what the index returned is changed")
				}
			}
		}
		h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
			if s.nilness(st, res[len(res)-1]) == 1 {
				return
			}
			docs, dists := res[0], res[1]
			r.ok(lim, "success of "+fn.Name()+" "+p.instrPos(ret))
			if docs.isNilConst() && dists.isNilConst() {
				return
			}
			z := s.T.intConst(0)
			if s.truth(st, s.T.bin(tokEQL, lt, z, nil)) != 1 && !s.leq(st, lt, z) && !s.leq(st, s.lenOf(st, docs), lt) {
				s.violate(lim, ret, inst, st, "more documents than the limit may be returned")
			}
			r.ok(pair, "success of "+fn.Name()+" "+p.instrPos(ret))
			if g := s.tag(st, dists); g == nil || g.op != "found:1" {
				s.violate(pair, ret, inst, st, "the distances returned are not those the index returned, from the first on")
			}
		}
		s := newSim(p, h)
		s.Run(fn)
		r.take(s)
	}
	return methods
}

// c05Handlers: what is asked of the client and how its answer is put together
func c05Handlers(p *Prog, r *Report) {
	const req, pair = "request-values", "own-distance"
	r.rule(req, "a search handler passes on the limit and the distance of the request")
	r.need(req, 4)
	n := 0
	for _, fn := range handlerFns(p) {
		near := false
		for _, f := range p.reach(fn) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && isNear(p, ci.Common()) {
						near = true
					}
				}
			}
		}
		if !near {
			continue
		}
		n++
		h := &Hooks{KeepLock: true}
		h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
		h.Tag = func(s *Sim, st *State, t *Term) *Term { return knnTag(s, st, t) }
		h.Call = func(c *CallCtx) bool {
			s := c.S
			if isNear(p, c.Com) {
				for i, q := range c.Com.StaticCallee().Params {
					want := ""
					if basicKind(q.Type(), types.Float32) {
						want = "Distance"
					} else if basicKind(q.Type(), types.Int) {
						want = "Limit"
					}
					if want == "" {
						continue
					}
					r.ok(req, want+" "+p.instrPos(c.Instr)+" from "+fn.Name())
					path, root := rootFieldPath(c.Args[i])
					if root == nil || root.k != TParam || len(path) == 0 || path[len(path)-1] != want {
						s.violate(req, c.Instr, c.Inst, c.St, "the "+strings.ToLower(want)+" passed on is not the one of the request")
					}
				}
				forkErr(c, nil, nil)
				call, _ := c.Instr.(*ssa.Call)
				for _, o := range c.outs {
					for i := 0; i < 2; i++ {
						if t := o.get(c.Inst, call, i); t != nil {
							s.setTag(o, t, s.T.mk(TPure, fmt.Sprintf("found:%d", i), nil, nil, nil, 0, nil))
						}
					}
				}
				return true
			}
			if c.Name == "encoding/json.Unmarshal" {
				g := s.tag(c.St, c.Args[0])
				dst := c.Args[1].strip()
				forkErr(c, func(st *State) {
					if g != nil && g.op == "elem:0" {
						st.mem[ghostCell(s, "decoded", dst)] = g.args[0]
					}
				}, nil)
				return true
			}
			if reorders(c.Name) {
				for _, a := range c.Args {
					if g := s.tag(c.St, a.unbox()); g != nil && strings.HasPrefix(g.op, "found:") {
						s.violate(pair, c.Instr, c.Inst, c.St, "what the search returned is reordered")
					}
				}
			}
			return stdCall(c)
		}
		h.Load = func(s *Sim, inst *Inst, in *ssa.UnOp, st *State, loc, val *Term) {
			if loc.k == TIndexAddr {
				if g := s.tag(st, loc.args[0]); g != nil && strings.HasPrefix(g.op, "found:") {
					s.setTag(st, val, s.T.mk(TPure, "elem:"+g.op[6:], nil, nil, nil, 0, nil, loc.args[1]))
				}
			}
			if slot, ok := st.mem[ghostCell(s, "decoded", loc)]; ok && s.tag(st, val) == nil {
				s.setTag(st, val, s.T.mk(TPure, "props", nil, nil, nil, 0, nil, slot))
			}
		}
		answers := 0
		h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
			if loc.k == TIndexAddr {
				if g := s.tag(st, loc.args[0]); g != nil && strings.HasPrefix(g.op, "found:") {
					s.violate(pair, in, inst, st, "what the search returned is changed")
				}
			}
			if val.typ == nil || typeName(val.typ) != modPath+"/models.Document" || loc.k != TIndexAddr {
				return
			}
			answers++
			r.ok(pair, "answer "+p.instrPos(in)+" in "+fn.Name())
			var props *Term
			for l, v := range st.mem {
				if l.k == TFieldAddr && l.args[0] == val.strip() && l.op == "Properties" {
					props = v.unbox()
				}
			}
			if props == nil {
				s.violate(pair, in, inst, st, "a document of the answer may have no properties")
				return
			}
			g := s.tag(st, props)
			d := st.mem[s.mapElem(props, s.T.constVal(constantString("distance"), nil))]
			var dg *Term
			if d != nil {
				dg = s.tag(st, d)
			}
			if g == nil || g.op != "props" || dg == nil || dg.op != "elem:1" {
				s.violate(pair, in, inst, st, "a document of the answer is not given the distance the search returned for it")
				return
			}
			if k, ok := diff(g.args[0], dg.args[0]); !ok || k != 0 {
				s.violate(pair, in, inst, st, "a document of the answer may be given the distance of another one")
			}
			// its place, when it is put into a slot (a one-element array is an append)
			if at, ok := deref(loc.args[0].typ).Underlying().(*types.Array); ok && at.Len() == 1 {
				return
			}
			if k, ok := diff(g.args[0], loc.args[1]); !ok || k != 0 {
				s.violate(pair, in, inst, st, "a document of the answer may be put at another place than the search did")
			}
		}
		s := newSim(p, h)
		s.Run(fn)
		r.take(s)
		if answers == 0 {
			r.anchor(pair, "the documents of the answer of "+fn.Name())
		}
	}
	if n < 2 {
		r.anchor(req, "the handlers of searches")
	}
}

// isNear: a call of a search operation of the client
func isNear(p *Prog, com *ssa.CallCommon) bool {
	f := com.StaticCallee()
	if f == nil || f.Signature.Recv() == nil || typeName(f.Signature.Recv().Type()) != docPkg+".Client" {
		return false
	}
	res := f.Signature.Results()
	return res.Len() == 3 && paramOfType(f, func(t types.Type) bool { return basicKind(t, types.Float32) }) != nil
}

// ---------------------------------------------------------------- the index

// part: an item's id or distance
func part(t *Term, names ...string) *Term {
	t = t.strip()
	is := func(n string) bool {
		for _, x := range names {
			if n == x {
				return true
			}
		}
		return false
	}
	if t.k == TField && is(t.op) {
		return t.args[0]
	}
	if t.k == TLoad && t.args[0].k == TFieldAddr && is(t.args[0].op) {
		return t.args[0].args[0]
	}
	return nil
}

func idPart(t *Term) *Term   { return part(t, "ID", "id") }
func distPart(t *Term) *Term { return part(t, "Dist", "dist") }

// ghostOf: whose ghost cell of that kind holds v
func ghostOf(st *State, what string, v *Term) *Term {
	for l, x := range st.mem {
		if x == v && l.k == TPure && l.op == "ghost-"+what && len(l.args) == 1 {
			return l.args[0]
		}
	}
	return nil
}

// elemOf: the slice and the index an item was read at
func elemOf(x *Term) (*Term, *Term) {
	if x.k == TLoad {
		x = x.args[0]
	}
	if x.k == TIndexAddr {
		return x.args[0], x.args[1]
	}
	return nil, nil
}

// distFn: computes the distance of the query to the node of an id
func distFn(sig *types.Signature) int {
	res := sig.Results()
	if res.Len() != 3 || !basicKind(res.At(0).Type(), types.Float32) || !basicKind(res.At(1).Type(), types.Bool) {
		return -1
	}
	at := -1
	for i := 0; i < sig.Params().Len(); i++ {
		if basicKind(sig.Params().At(i).Type(), types.Uint64) {
			if at >= 0 {
				return -1
			}
			at = i
		}
	}
	return at
}

func queueOp(name string) string {
	for _, t := range []string{"Queue", "QueueWithIndex"} {
		if strings.HasPrefix(name, "("+pqPkg+"."+t+").") {
			return name[strings.LastIndex(name, ".")+1:]
		}
	}
	return ""
}

// pairKey: the id a distance belongs to
func pairTag(s *Sim, st *State, d *Term) *Term {
	if g := s.tag(st, d); g != nil && g.op == "dist-of" {
		return g.args[0]
	}
	return nil
}

func paired(s *Sim, st *State, id, d *Term) bool {
	if g := pairTag(s, st, d); g != nil && g == id.strip() {
		return true
	}
	if x := distPart(d); x != nil {
		return idPart(id) == x
	}
	return false
}

// isItem: a struct that keeps an id with its distance
func itemFields(t types.Type) (id, dist int, ok bool) {
	sty := structOf(t)
	if sty == nil {
		return 0, 0, false
	}
	id, dist = -1, -1
	for i := 0; i < sty.NumFields(); i++ {
		switch sty.Field(i).Name() {
		case "ID", "id":
			if basicKind(sty.Field(i).Type(), types.Uint64) {
				id = i
			}
		case "Dist", "dist":
			if basicKind(sty.Field(i).Type(), types.Float32) {
				dist = i
			}
		}
	}
	return id, dist, id >= 0 && dist >= 0
}

// searchHooks: the model of the index' inside for searches
func searchHooks(p *Prog, r *Report, rule string, where string) *Hooks {
	h := &Hooks{KeepLock: true}
	h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
	h.Inline = func(inst *Inst, fn *ssa.Function) bool {
		if fn.Pkg != nil && fn.Pkg.Pkg.Path() == pqPkg {
			return false
		}
		return true
	}
	h.Tag = func(s *Sim, st *State, t *Term) *Term {
		if x := t.strip(); x.k == TField && distPart(x) != nil {
			if i, _, ok := itemFields(x.args[0].typ); ok {
				return s.T.mk(TPure, "dist-of", nil, nil, nil, 0, nil, s.fieldOf(st, x.args[0], structOf(x.args[0].typ).Field(i), i))
			}
		}
		return nil
	}
	h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
		if loc.k == TIndexAddr {
			checkItem(s, r, rule, in, inst, st, val)
		}
	}
	return h
}

func checkItem(s *Sim, r *Report, rule string, in ssa.Instruction, inst *Inst, st *State, val *Term) {
	if val.k != TStruct {
		return
	}
	i, d, ok := itemFields(val.typ)
	if !ok || val.args[i] == nil && val.args[d] == nil {
		return
	}
	r.ok(rule, "item "+s.p.instrPos(in))
	if val.args[i] == nil || val.args[d] == nil || !paired(s, st, val.args[i], val.args[d]) {
		s.violate(rule, in, inst, st, "an id is kept with a distance that was not computed for it")
	}
}

func searchCall(p *Prog, r *Report, rule string, c *CallCtx) bool {
	s, st := c.S, c.St
	call, _ := c.Instr.(*ssa.Call)
	if op := queueOp(c.Name); op != "" {
		q := c.Args[0]
		cell := ghostCell(s, "qlen", q)
		old := st.mem[cell]
		switch op {
		case "Insert":
			r.ok(rule, "Insert "+p.instrPos(c.Instr))
			if strings.Contains(c.Name, ".Queue)") && !paired(s, st, c.Args[1], c.Args[2]) {
				s.violate(rule, c.Instr, c.Inst, st, "an id is queued with a distance that was not computed for it")
			}
			if old != nil {
				st.mem[cell] = s.T.bin(tokADD, old, s.T.intConst(1), types.Typ[types.Int])
			}
		case "Len":
			if old == nil {
				old = s.fresh(st, c.Inst, c.Instr, 0)
				st.mem[cell] = old
			}
			c.Out(st, old)
			return true
		case "Pop":
			if old != nil {
				st.mem[cell] = s.T.bin(tokSUB, old, s.T.intConst(1), types.Typ[types.Int])
			}
			c.Out(st, c.FreshAll(st)...)
			if t := st.get(c.Inst, call, -1); t != nil {
				s.setTag(st, t, s.T.mk(TPure, "popped", nil, nil, nil, 0, nil, q))
			}
			return true
		case "Top":
			c.Out(st, c.FreshAll(st)...)
			if t := st.get(c.Inst, call, -1); t != nil {
				s.setTag(st, t, s.T.mk(TPure, "top", nil, nil, nil, 0, nil, q))
			}
			return true
		case "Cap":
		default:
			delete(st.mem, cell)
		}
		delete(st.mem, ghostCell(s, "near", q))
		c.Out(st, c.FreshAll(st)...)
		return true
	}
	if c.Name == "builtin:append" && len(c.Args) > 1 {
		if vs, ok := s.Varargs(st, c.Args[1]); ok {
			for _, v := range vs {
				checkItem(s, r, rule, c.Instr, c.Inst, st, v)
			}
		}
		return false
	}
	if strings.HasSuffix(c.Name, ".GetMax") || strings.HasSuffix(c.Name, ".NewMax") || strings.HasSuffix(c.Name, ".GetMin") || strings.HasSuffix(c.Name, ".NewMin") {
		c.Out(st, c.FreshAll(st)...)
		t := st.get(c.Inst, call, -1)
		s.setNil(st, t, 1)
		s.setTag(st, t, s.T.mk(TPure, "queue:"+c.Name[len(c.Name)-3:], nil, nil, nil, 0, nil))
		return true
	}
	if f := c.Com.StaticCallee(); f != nil && p.inRepo[f] {
		if i := distFn(f.Signature); i >= 0 {
			id := c.Args[len(c.Args)-f.Signature.Params().Len()+i]
			forkErr(c, nil, nil)
			for _, o := range c.outs {
				if t := o.get(c.Inst, call, 0); t != nil {
					s.setTag(o, t, s.T.mk(TPure, "dist-of", nil, nil, nil, 0, nil, id.strip()))
				}
			}
			return true
		}
		if res := f.Signature.Results(); res.Len() == 2 && typeName(res.At(0).Type()) == pqPkg+".Queue" && f != s.root.fn {
			forkErr(c, nil, nil)
			for _, o := range c.outs {
				if t := o.get(c.Inst, call, 0); t != nil && s.nilness(o, o.get(c.Inst, call, 1)) == -1 {
					s.setTag(o, t, s.T.mk(TPure, "queue:Max", nil, nil, nil, 0, nil))
				}
			}
			return true
		}
		if f.Name() == "loadNode" || f.Name() == "isEmpty" {
			forkErr(c, nil, nil)
			return true
		}
	}
	if stdCall(c) {
		return true
	}
	if extErr(c) {
		forkErr(c, nil, nil)
		return true
	}
	return false
}

// emptied: results used after a loop ended because i went below 0
type emptied struct {
	st   *State
	in   ssa.Instruction
	inst *Inst
	qc   *Term
	i    *Term
}

type fillRec struct {
	st       *State
	in       ssa.Instruction
	inst     *Inst
	i        *Term // index
	q        *Term // queue length after the pop
	from     *Term // index it was copied from
	arr      *Term
	qc       *Term
	dec      bool
	appended bool
}

func c05Index(p *Prog, r *Report, methods map[string]bool) {
	const pair, order, within = "distance-of-id", "nearest-first", "within-distance"
	r.rule(pair, "wherever the search keeps an id with a distance, the distance was computed for that id, and the two are returned at the same position")
	r.rule(order, "results are taken out of a queue that hands out the farthest first, filled in from the last position backwards with one position per result, and copied in order without gaps")
	r.rule(within, "every result is checked against the requested distance before it is returned")
	r.need(pair, 5)
	r.need(order, 3)
	r.need(within, 1)
	for m := range methods {
		fn := mustFn(p, r, order, "pkg/hnsw.(*hnsw)."+m)
		if fn == nil {
			continue
		}
		c05Search(p, r, fn, pair, order, within)
		// what it and its helpers put into queues
		for _, g := range p.reach(fn) {
			res := g.Signature.Results()
			if g.Signature.Recv() == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != hnswPkg {
				continue
			}
			if res.Len() == 2 && typeName(res.At(0).Type()) == pqPkg+".Queue" && isErr(res.At(1).Type()) {
				h := searchHooks(p, r, pair, g.Name())
				h.Call = func(c *CallCtx) bool { return searchCall(p, r, pair, c) }
				h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
					if s.nilness(st, res[1]) == 1 {
						return
					}
					r.ok(order, "queue returned "+p.instrPos(ret))
					if g := s.tag(st, res[0]); g == nil || g.op != "queue:Max" {
						s.violate(order, ret, inst, st, "the queue returned may not hand out the farthest result first")
					}
				}
				s := newSim(p, h)
				s.Run(g)
				r.take(s)
			}
			if at := distFn(g.Signature); at >= 0 {
				c05DistFn(p, r, g, at, pair)
			}
		}
	}
}

// c05DistFn: the distance returned for an id is one of that node's vector
func c05DistFn(p *Prog, r *Report, fn *ssa.Function, at int, rule string) {
	h := &Hooks{KeepLock: true}
	h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
	var id *Term
	h.Inline = func(inst *Inst, f *ssa.Function) bool {
		return f.Name() != "loadNode" && f.Pkg != nil && f.Pkg.Pkg.Path() == hnswPkg
	}
	h.Call = func(c *CallCtx) bool {
		s := c.S
		call, _ := c.Instr.(*ssa.Call)
		id = c.S.root.fnParam(c.St, c.S.root.fn.Params[len(c.S.root.fn.Params)-c.S.root.fn.Signature.Params().Len()+at])
		ofID := func(t *Term) bool {
			t = t.strip()
			if g := s.tag(c.St, t); g != nil && g.op == "of-id" {
				return true
			}
			if t.k == TLoad && t.args[0].k == TFieldAddr {
				g := s.tag(c.St, t.args[0].args[0])
				return g != nil && g.op == "of-id"
			}
			return false
		}
		name := c.Name[strings.LastIndex(c.Name, ".")+1:]
		switch {
		case name == "loadNode" || strings.EqualFold(name, "get") || strings.Contains(strings.ToLower(name), "vectorforid") || c.Name == "dynamic":
			ok := false
			for _, a := range c.Args {
				if a.strip() == id {
					ok = true
				}
			}
			if errResult(c.Com.Signature()) < 0 || !ok {
				break
			}
			forkErr(c, nil, nil)
			for _, o := range c.outs {
				if t := o.get(c.Inst, call, 0); t != nil {
					s.setTag(o, t, s.T.mk(TPure, "of-id", nil, nil, nil, 0, nil))
				}
			}
			return true
		case c.Com.StaticCallee() != nil && c.Com.StaticCallee() != c.S.root.fn && distFn(c.Com.Signature()) >= 0 && p.inRepo[c.Com.StaticCallee()]:
			// checked on its own
			k := distFn(c.Com.Signature()) + len(c.Args) - c.Com.Signature().Params().Len()
			ok := c.Args[k].strip() == id
			forkErr(c, nil, nil)
			for _, o := range c.outs {
				if t := o.get(c.Inst, call, 0); t != nil && ok {
					s.setTag(o, t, s.T.mk(TPure, "dist-of-id", nil, nil, nil, 0, nil))
				}
			}
			return true
		case strings.Contains(name, "Distance") || strings.Contains(name, "Dist"):
			if t := c.Com.StaticCallee(); t != nil && p.inRepo[t] && s.inlinable(c.Inst, t) && t.Pkg.Pkg.Path() == hnswPkg {
				return false
			}
			ok := false
			for _, a := range c.Args {
				if ofID(a) {
					ok = true
				}
			}
			if c.NRes() == 0 {
				break
			}
			at := 0
			if errResult(c.Com.Signature()) < 0 {
				c.Out(c.St, c.FreshAll(c.St)...)
				if c.NRes() == 1 {
					at = -1
				}
			} else {
				forkErr(c, nil, nil)
			}
			if ok {
				for _, o := range c.outs {
					if t := o.get(c.Inst, call, at); t != nil {
						s.setTag(o, t, s.T.mk(TPure, "dist-of-id", nil, nil, nil, 0, nil))
					}
				}
			}
			return true
		}
		if stdCall(c) {
			return true
		}
		if extErr(c) {
			forkErr(c, nil, nil)
			return true
		}
		return false
	}
	h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
		if s.nilness(st, res[2]) == 1 || s.truth(st, res[1]) == -1 {
			return
		}
		r.ok(rule, "distance of "+fn.Name()+" "+p.instrPos(ret))
		if g := s.tag(st, res[0]); g == nil || g.op != "dist-of-id" {
			s.violate(rule, ret, inst, st, "the distance returned may not be that of the node asked for")
		}
	}
	s := newSim(p, h)
	s.Run(fn)
	r.take(s)
}

func (i *Inst) fnParam(st *State, q *ssa.Parameter) *Term { return st.get(i, q, -1) }

func c05Search(p *Prog, r *Report, fn *ssa.Function, pair, order, within string) {
	dist := paramOfType(fn, func(t types.Type) bool { return basicKind(t, types.Float32) })
	if dist == nil {
		r.anchor(within, "the distance parameter of "+fn.Name())
		return
	}
	var dt *Term
	outs := 0
	queueOf := map[*Term]*Term{}
	h := searchHooks(p, r, pair, fn.Name())
	init := h.Init
	h.Init = func(s *Sim, st *State, root *Inst) {
		init(s, st, root)
		dt = st.get(root, dist, -1)
	}
	fill := func(s *Sim, in ssa.Instruction, inst *Inst, st *State, loc, q *Term) {
		r.ok(order, "filled "+p.instrPos(in))
		if t := s.tag(st, q); t == nil || t.op != "queue:Max" {
			s.violate(order, in, inst, st, "results are taken from a queue that may not hand out the farthest first")
		}
		queueOf[loc.args[0]] = q
		if l := st.mem[ghostCell(s, "qlen", q)]; l != nil {
			s.record(fmt.Sprintf("f%p|%d|%s", in, inst.id, st.key()), fillRec{st: st.clone(), in: in, inst: inst, i: loc.args[1], q: l, qc: ghostCell(s, "qlen", q), arr: loc.args[0], dec: true})
		} else {
			s.violate(order, in, inst, st, "results are put at a position that does not follow the queue")
		}
	}
	drained := func(s *Sim, in ssa.Instruction, inst *Inst, st *State, g *Term) {
		if q := st.mem[ghostCell(s, "qlen", g)]; q == nil || s.truth(st, s.T.bin(tokLSS, s.T.intConst(0), q, nil)) != -1 && !s.zeroInt(st, q) {
			// emptied by a loop that counted its positions down: settled with the positions
			s.record(fmt.Sprintf("e%p|%d|%s", in, inst.id, st.key()), emptied{st: st.clone(), in: in, inst: inst, qc: ghostCell(s, "qlen", g), i: st.mem[ghostCell(s, "below", s.T.intConst(0))]})
		}
	}
	note := func(s *Sim, in ssa.Instruction, inst *Inst, st *State, x *Term, loc *Term, what string) {
		// half of a result: the item it is of
		outs++
		half := flagOf(st, "half")
		me := fmt.Sprintf("%d", x.id)
		at := "-"
		if loc != nil {
			at = fmt.Sprint(loc.args[1].id)
		}
		me += "@" + at
		if half == "" {
			setFlag(st, "half", what+":"+me)
		} else if half[:2] != what[:2] && half[strings.Index(half, ":")+1:] == me {
			setFlag(st, "half", "")
			setFlag(st, "stored", "1")
		} else {
			s.violate(pair, in, inst, st, "an id and a distance of different results are returned at one position")
		}
		r.ok(within, "result "+p.instrPos(in))
		d := x
		if d.k != TIndexAddr && d.k != TFieldAddr && d.k != TAlloc {
			_, di, ok := itemFields(x.typ)
			if ok {
				d = s.fieldOf(st, x, structOf(x.typ).Field(di), di)
			}
		}
		okd := s.truth(st, s.T.bin(tokLSS, dt, d, nil)) == -1 || s.truth(st, s.T.bin(tokLEQ, d, dt, nil)) == 1
		if !okd {
			// the distance may have been loaded through a pointer
			for t, f := range st.facts {
				if t.k == TBin && f.truth != 0 {
					if t.op == "<" && f.truth == -1 && t.args[0] == dt && distPart(t.args[1]) == x || t.op == "<=" && f.truth == 1 && t.args[1] == dt && distPart(t.args[0]) == x {
						okd = true
					}
				}
			}
		}
		// taken from a queue all of which is near enough, as its farthest is
		popped := s.tag(st, x)
		if popped != nil && popped.op != "popped" {
			popped = nil
		}
		if popped != nil && !okd {
			okd = st.mem[ghostCell(s, "near", popped.args[0])] != nil
		}
		if !okd {
			s.violate(within, in, inst, st, "a result may be returned that is farther than the requested distance")
		}
		if popped != nil && loc != nil {
			fill(s, in, inst, st, loc, popped.args[0])
			return
		}
		arr, k := elemOf(x)
		if arr == nil {
			s.violate(order, in, inst, st, "a result is returned that was not put in order")
			return
		}
		if g := queueOf[arr]; g == nil {
			s.violate(order, in, inst, st, "a result is returned from a list that was not filled from the queue")
		} else {
			drained(s, in, inst, st, g)
		}
		rec := fillRec{st: st.clone(), in: in, inst: inst, from: k, appended: loc == nil}
		if loc != nil {
			rec.i, rec.arr = loc.args[1], loc.args[0]
		}
		s.record(fmt.Sprintf("o%p|%d|%s", in, inst.id, st.key()), rec)
	}
	store := h.Store
	h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
		store(s, inst, in, st, loc, val)
		if loc.k != TIndexAddr {
			return
		}
		if g := s.tag(st, val); g != nil && g.op == "popped" && loc.args[0].k == TMake {
			fill(s, in, inst, st, loc, g.args[0])
			return
		}
		if el := val.typ; el != nil && loc.args[0].k == TMake {
			if x := idPart(val); x != nil {
				note(s, in, inst, st, x, loc, "id")
			} else if x := distPart(val); x != nil {
				note(s, in, inst, st, x, loc, "dist")
			}
		}
	}
	h.Call = func(c *CallCtx) bool {
		s := c.S
		if c.Name == "builtin:append" && len(c.Args) > 1 {
			if vs, ok := s.Varargs(c.St, c.Args[1]); ok && len(vs) == 1 {
				if x := idPart(vs[0]); x != nil {
					note(s, c.Instr, c.Inst, c.St, x, nil, "id")
				} else if x := distPart(vs[0]); x != nil {
					note(s, c.Instr, c.Inst, c.St, x, nil, "dist")
				}
				base := c.Args[0]
				g := s.tag(c.St, base)
				if base.isNilConst() || g != nil && g.op == "appended" || s.zeroLen(c.St, base) {
					s.builtin(c)
					call, _ := c.Instr.(*ssa.Call)
					for _, o := range c.outs {
						s.setTag(o, o.get(c.Inst, call, -1), s.T.mk(TPure, "appended", nil, nil, nil, 0, nil))
					}
					return true
				}
			}
		}
		if reorders(c.Name) {
			for _, a := range c.Args {
				if _, ok := a.unbox().typ.Underlying().(*types.Slice); ok {
					s.violate(order, c.Instr, c.Inst, c.St, "results are reordered by other means than the queue")
				}
			}
		}
		return searchCall(p, r, pair, c)
	}
	h.Tag = func(t func(*Sim, *State, *Term) *Term) func(*Sim, *State, *Term) *Term {
		return func(s *Sim, st *State, x *Term) *Term {
			if g := t(s, st, x); g != nil {
				return g
			}
			if x.isNilConst() || x.k == TMake && s.zeroLen(st, x) {
				return s.T.mk(TPure, "appended", nil, nil, nil, 0, nil)
			}
			return nil
		}
	}(h.Tag)
	h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, c *Term, truth bool) bool {
		if c, truth = cond(c, truth); c.k == TBin && (c.op == "<" || c.op == "<=") {
			// x < k
			x, y := c.args[0], c.args[1]
			k, ok := y.int64()
			if !truth {
				x = y
				k, ok = c.args[0].int64()
			}
			if (c.op == "<") != truth {
				k++
			}
			if qc := ghostOf(st, "qlen", x); ok && k <= 1 && qc != nil {
				st.mem[ghostCell(s, "near", qc)] = s.T.intConst(1)
			}
			near := c.args[1]
			if truth {
				near = c.args[0]
			}
			if x := distPart(near); x != nil && (c.args[0] == dt || c.args[1] == dt) && near != dt {
				if g := s.tag(st, x); g != nil && g.op == "top" {
					st.mem[ghostCell(s, "near", g.args[0])] = s.T.intConst(1)
				}
			}
			if ok && k <= 0 && x.k != TConst && inLoop(in.Block()) {
				st.mem[ghostCell(s, "below", s.T.intConst(0))] = x
			}
		}
		return true
	}
	h.Edge = func(s *Sim, inst *Inst, from, to *ssa.BasicBlock, back bool, st *State) {
		head := false
		for _, q := range to.Preds {
			head = head || to.Dominates(q)
		}
		if !head {
			return
		}
		if flagOf(st, "half") != "" {
			s.violate(pair, from.Instrs[len(from.Instrs)-1], inst, st, "an id may be returned without a distance, or a distance without an id")
		}
		s.record(fmt.Sprintf("%d|%p|%p|%s", inst.id, from, to, st.key()), edgeRec{inst, from, to, back, st.clone()})
		setFlag(st, "stored", "")
	}
	h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
		if s.nilness(st, res[2]) == 1 {
			return
		}
		if flagOf(st, "half") != "" {
			s.violate(pair, ret, inst, st, "an id may be returned without a distance, or a distance without an id")
		}
		a, b := res[0], res[1]
		r.ok(pair, "returned "+p.instrPos(ret))
		ap := func(t *Term) bool { g := s.tag(st, t); return g != nil && g.op == "appended" }
		if ap(a) && ap(b) {
			return
		}
		// filled to the last position, straight from the queue
		whole := func(t *Term) *Term {
			if t.k == TSlice && t.args[1] == nil && t.args[3] == nil && t.args[2] != nil {
				if d, ok := diff(t.args[2], s.lenOf(st, t.args[0])); ok && d == 0 {
					return t.args[0]
				}
			}
			return t
		}
		if q := queueOf[whole(a)]; q != nil && queueOf[whole(b)] == q {
			drained(s, ret, inst, st, q)
			return
		}
		if a.k == TSlice && b.k == TSlice && a.args[1] == nil && b.args[1] == nil && a.args[2] != nil && b.args[2] != nil {
			if d, ok := diff(a.args[2], b.args[2]); ok && d == 0 {
				s.record(fmt.Sprintf("r%p|%s", ret, st.key()), fillRec{st: st.clone(), in: ret, inst: inst, i: a.args[2], arr: nil})
				return
			}
		}
		s.violate(pair, ret, inst, st, "ids and distances returned do not end at the last result")
	}
	s := newSim(p, h)
	s.Run(fn)
	s.src = nk{}
	edges, fills := records[edgeRec](s), records[fillRec](s)
	for _, e := range records[emptied](s) {
		ok := false
		for _, f := range fills {
			ok = ok || e.i != nil && f.dec && f.qc == e.qc && f.i == e.i
		}
		if !ok {
			s.violate(order, e.in, e.inst, e.st, "results are returned before the queue was emptied")
		}
	}
	if outs < 2 {
		r.anchor(within, "the results of "+fn.Name())
	}
	// inductive index relations
	var idx *Term
	for _, f := range fills {
		if f.dec {
			r.ok(order, "position "+p.instrPos(f.in))
			d := linear(f.i).add(linear(f.q), -1)
			ok, entries := true, 0
			for _, e := range edges {
				if e.st.frames[e.inst] == nil || !belongs(s, f.i, e.inst, e.to) {
					continue
				}
				cur := linear(s.current(e.st, f.i)).add(linear(s.current(e.st, f.q)), -1)
				if e.back {
					if k := cur.add(d, -1); len(k.m) != 0 || k.c != 0 {
						ok = false
					}
				} else {
					entries++
					if len(cur.m) != 0 || cur.c != 0 {
						ok = false
					}
					if ql := e.st.mem[f.qc]; ql == nil {
						ok = false
					} else if k, is := diff(s.lenOf(e.st, f.arr), ql); !is || k != 0 {
						ok = false
					}
				}
			}
			if !ok || entries == 0 {
				s.violate(order, f.in, f.inst, f.st, "results are not filled in from the last position backwards, one position per result")
			}
			continue
		}
		if f.arr == nil && f.from == nil {
			continue
		}
		r.ok(order, "copied "+p.instrPos(f.in))
		entries := 0
		bad := ""
		for _, e := range edges {
			if e.st.frames[e.inst] == nil {
				continue
			}
			if belongs(s, f.from, e.inst, e.to) && e.back {
				if k, is := diff(s.current(e.st, f.from), f.from); !is || k < 1 {
					bad = "results are not copied in order"
				}
				entries++
			}
			if f.i != nil && belongs(s, f.i, e.inst, e.to) {
				cur := s.current(e.st, f.i)
				if e.back {
					k, is := diff(cur, f.i)
					want := int64(0)
					if flagOf(e.st, "stored") != "" {
						want = 1
					}
					if !is || k != want {
						bad = "results are not copied without gaps"
					}
				} else if k, is := cur.int64(); !is || k != 0 {
					bad = "the first result is not at the first position"
				}
			}
		}
		if f.i != nil {
			idx = f.i
		}
		if bad != "" || entries == 0 {
			if bad == "" {
				bad = "results are not copied in order"
			}
			s.violate(order, f.in, f.inst, f.st, bad)
		}
	}
	for _, f := range fills {
		if f.arr != nil || f.from != nil || f.dec {
			continue
		}
		ok := false
		if idx != nil {
			if d, is := diff(f.i, s.current(f.st, idx)); is && d == 0 {
				ok = true
			}
			if d, is := diff(f.i, idx); is && d == 0 {
				ok = true
			}
		}
		if !ok {
			s.violate(pair, f.in, f.inst, f.st, "what is returned does not end at the last result")
		}
	}
	r.take(s)
}

// zeroInt: the number is known to be 0 (lengths are never negative)
func (s *Sim) zeroInt(st *State, n *Term) bool {
	if k, ok := n.int64(); ok {
		return k == 0
	}
	return s.truth(st, s.T.bin(tokEQL, n, s.T.intConst(0), nil)) == 1
}

// c05Queues: what the queues order by
func c05Queues(p *Prog, r *Report) {
	const rule = "queue-order"
	r.rule(rule, "a maximum queue puts the larger distance first, a minimum queue the smaller, and the pools of maximum queues make maximum queues")
	r.need(rule, 3)
	for _, x := range []struct {
		name string
		max  bool
	}{{"NewMax", true}, {"NewMin", false}} {
		fn := mustFn(p, r, rule, "pkg/hnsw/priorityqueue."+x.name)
		if fn == nil {
			continue
		}
		n := 0
		for _, cl := range fn.AnonFuncs {
			if cl.Signature.Results().Len() != 1 || !isBool(cl.Signature.Results().At(0).Type()) || len(cl.Params) != 3 {
				continue
			}
			n++
			h := &Hooks{Init: func(s *Sim, st *State, root *Inst) { st.A = sig{} }}
			h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
				r.ok(rule, x.name+" "+p.instrPos(ret))
				c, truth := cond(res[0], true)
				ok := false
				if c.k == TBin && (c.op == "<" && truth) {
					_, a := elemOf(orNil(distPart(c.args[0])))
					_, b := elemOf(orNil(distPart(c.args[1])))
					i, j := st.get(inst, cl.Params[1], -1), st.get(inst, cl.Params[2], -1)
					if x.max {
						i, j = j, i
					}
					ok = a != nil && a == i && b == j
				}
				if !ok {
					s.violate(rule, ret, inst, st, x.name+" does not order its items by distance as its name says")
				}
			}
			s := newSim(p, h)
			s.Run(cl)
			r.take(s)
		}
		if n == 0 {
			r.anchor(rule, "the order of "+x.name)
		}
	}
	fn := mustFn(p, r, rule, "pkg/hnsw.newPqMaxPool")
	if fn != nil {
		r.ok(rule, "pool of maximum queues")
		mx, mn := false, false
		for _, g := range p.reach(fn) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						n := calleeName(ci.Common())
						mx = mx || strings.HasSuffix(n, "priorityqueue.NewMax")
						mn = mn || strings.HasSuffix(n, "priorityqueue.NewMin")
					}
				}
			}
		}
		if !mx || mn {
			r.failf(rule, p.pos(fn.Pos()), shortFn(fn), "the pool of maximum queues makes other queues")
		}
	}
}

func orNil(t *Term) *Term {
	if t == nil {
		return &Term{k: TUnknown}
	}
	return t
}
