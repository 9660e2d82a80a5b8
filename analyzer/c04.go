package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// operations of the client on collections and documents
func dataOps(p *Prog, r *Report, rule string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range clientOps(p) {
		uses := false
		for n := range p.externals(f) {
			if strings.HasPrefix(n, dfsAPI+"Doc") || strings.HasPrefix(n, kvType) {
				uses = true
			}
		}
		if uses {
			out = append(out, f)
		}
	}
	if len(out) < 7 {
		r.anchor(rule, fmt.Sprintf("the operations of the document client (%d found)", len(out)))
	}
	return out
}

func init() {
	register("C04", func(p *Prog, r *Report) {
		r.explain = "value-flow analysis of every operation of the document client with everything it calls: the terms passed as collection, pod and session of every storage call, as class of every index, as key of every map of indexes and of the vector cache; the values that listing returns; provenance of the table name in the index"
		prefix := map[string]bool{}
		c04Names(p, r, prefix)
		c04List(p, r, prefix)
		c04Pod(p, r)
		c04Index(p, r)
		c04Handlers(p, r)
		if len(prefix) != 1 {
			var ps []string
			for x := range prefix {
				ps = append(ps, x)
			}
			sortStrings(ps)
			r.failf("names-collection", "pkg/document/document.go", "", "collections are stored under %d different prefixes: %q", len(prefix), ps)
		}
	})
}

func c04Names(p *Prog, r *Report, prefix map[string]bool) {
	const rule = "names-collection"
	const podRule = "one-pod"
	const cacheRule = "cache-key"
	r.rule(rule, "the collection of every storage call, index and map access of an operation is the reserved prefix followed by the collection the caller named, and nothing else")
	r.rule(podRule, "all storage calls of an operation use one session and one pod: those of the client at the time it checked them")
	r.rule(cacheRule, "the vector cache is written and read under keys made of pod, collection and id in the same way")
	r.need(rule, 25)
	r.need(podRule, 15)
	r.need(cacheRule, 2)
	shapes := map[string]bool{}
	for _, fn := range dataOps(p, r, rule) {
		fn := fn
		h := docHooks(p)
		var isCol func(t *Term) bool
		var root *Inst
		init := h.Init
		h.Init = func(s *Sim, st *State, ro *Inst) {
			init(s, st, ro)
			root = ro
			isCol = collectionParam(s, st, ro)
		}
		okName := func(t *Term) bool {
			ps := concat(t)
			if isCol == nil || len(ps) != 2 || ps[0].t != nil || ps[1].t == nil || !isCol(ps[1].t) {
				return false
			}
			prefix[ps[0].s] = true
			return true
		}
		ghost := func(s *Sim, what string) *Term { return s.T.mk(TPure, "used-"+what, nil, nil, nil, 0, nil) }
		oneOf := func(c *CallCtx, what, field string, t *Term) {
			s := c.S
			at := p.instrPos(c.Instr)
			r.ok(podRule, what+" of "+shortName(c.Name)+" at "+at+" from "+fn.Name())
			u, ok := clientField(s, c.St, t, field)
			if !ok {
				s.violate(podRule, c.Instr, c.Inst, c.St, fmt.Sprintf("%s is called with a %s that is not the client's", shortName(c.Name), what))
				return
			}
			g := ghost(s, "")
			if old, ok := c.St.mem[g]; ok && old != u {
				s.violate(podRule, c.Instr, c.Inst, c.St, fmt.Sprintf("%s is called with a %s read again, which may not be the one this operation started with", shortName(c.Name), what))
				return
			}
			c.St.mem[g] = u
		}
		name := func(c *CallCtx, what string, t *Term) {
			at := p.instrPos(c.Instr)
			r.ok(rule, what+" at "+at+" from "+fn.Name())
			if !okName(t) {
				c.S.violate(rule, c.Instr, c.Inst, c.St, fmt.Sprintf("%s names %s, which is not the collection the caller asked for under the reserved prefix", what, showParts(concat(t))))
			}
		}
		h.Call = func(c *CallCtx) bool {
			s := c.S
			if isStorage(c) {
				if t := roleArg(c, "name"); t != nil {
					name(c, shortName(c.Name), t)
				}
				if t := roleArg(c, "sessionId"); t != nil {
					oneOf(c, "session", "sessionId", t)
				}
				if t := roleArg(c, "podName"); t != nil {
					oneOf(c, "pod", "pod", t)
				}
				if strings.HasPrefix(c.Name, kvType) {
					kv := c.Args[0].strip()
					if kv.k == TPure && kv.op == podInfoType+"GetKVStore" {
						oneOf(c, "pod info", "podInfo", kv.args[0])
					} else {
						s.violate(podRule, c.Instr, c.Inst, c.St, shortName(c.Name)+" is called on a key-value store that is not the open pod's")
					}
				}
			}
			if c.Name == hnswPkg+".New" {
				if sty := structOf(c.Args[0].typ); sty != nil {
					for i := 0; i < sty.NumFields(); i++ {
						if sty.Field(i).Name() == "ClassName" {
							name(c, "the table of a new index", s.fieldOf(c.St, c.Args[0], sty.Field(i), i))
						}
					}
				}
				kv := c.Args[len(c.Args)-1].strip()
				if !(kv.k == TPure && kv.op == podInfoType+"GetKVStore") {
					s.violate(podRule, c.Instr, c.Inst, c.St, "the index is created on a key-value store that is not the open pod's")
				} else {
					oneOf(c, "pod info", "podInfo", kv.args[0])
				}
			}
			if m := isIndexCall(c); m != "" {
				tag := s.tag(c.St, c.Args[0])
				at := p.instrPos(c.Instr)
				r.ok(rule, "index used by "+m+" at "+at+" from "+fn.Name())
				if tag == nil || !okName(tag.args[0]) {
					s.violate(rule, c.Instr, c.Inst, c.St, m+" is called on an index that is not surely the one of the named collection")
				}
			}
			if c.Name == "builtin:delete" && loadOfField(c.Args[0], "indices") {
				name(c, "deletion from the map of indexes", c.Args[1])
			}
			if strings.HasPrefix(c.Name, lruCache) && loadOfField(c.Args[0], "documentCache") && len(c.Args) > 1 {
				at := p.instrPos(c.Instr)
				r.ok(cacheRule, shortName(c.Name)+" at "+at)
				ps := concat(c.Args[1].unbox())
				shape := ""
				col, podSeen := false, false
				for i, x := range ps {
					switch {
					case x.t == nil:
						shape += fmt.Sprintf("%q", x.s)
						if !col && i+1 < len(ps) && ps[i+1].t != nil && isCol != nil && isCol(ps[i+1].t) {
							col = true
						}
					case isCol != nil && isCol(x.t):
						col = true
						shape += "<collection>"
					case isPod(s, c.St, x.t):
						podSeen = true
						shape += "<pod>"
					default:
						shape += "<id>"
					}
				}
				shapes[shape] = true
				if !col || !podSeen {
					s.violate(cacheRule, c.Instr, c.Inst, c.St, "the vector cache is used under a key that does not tell collections or pods apart: "+showParts(ps))
				}
			}
			return clientCall(c)
		}
		h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
			if loc.k == TMapElem && loadOfField(loc.args[0], "indices") {
				r.ok(rule, "entry of the map of indexes at "+p.instrPos(in)+" from "+fn.Name())
				tag := s.tag(st, val)
				if !okName(loc.args[1]) || tag == nil || tag.args[0] != loc.args[1] {
					s.violate(rule, in, inst, st, "the map of indexes gets an index under another name than its collection's")
				}
			}
		}
		h.Instr = func(s *Sim, inst *Inst, in ssa.Instruction, st *State) {
			lk, ok := in.(*ssa.Lookup)
			if !ok {
				return
			}
			m := s.val(st, inst, lk.X)
			if loadOfField(m, "indices") {
				r.ok(rule, "lookup in the map of indexes at "+p.instrPos(in)+" from "+fn.Name())
				if !okName(s.val(st, inst, lk.Index)) {
					s.violate(rule, in, inst, st, "the index of another name than the collection's is looked up")
				}
			}
		}
		s := newSim(p, h)
		s.Run(fn)
		r.take(s)
		_ = root
	}
	if len(shapes) > 1 {
		var ss []string
		for x := range shapes {
			ss = append(ss, x)
		}
		sortStrings(ss)
		r.failf(cacheRule, "pkg/document/document.go", "", "the vector cache is written and read under different keys: %s", strings.Join(ss, " / "))
	}
}

func isPod(s *Sim, st *State, t *Term) bool {
	_, ok := clientField(s, st, t, "pod")
	return ok
}

// listing shows the entries under the prefix, without the prefix
func c04List(p *Prog, r *Report, prefix map[string]bool) {
	const rule = "list-own"
	r.rule(rule, "listing returns exactly the stored collections whose name starts with the reserved prefix, under their name without it, each with its own indexes")
	r.need(rule, 3)
	var fn *ssa.Function
	for _, f := range clientOps(p) {
		if p.externals(f)[dfsAPI+"DocList"] {
			fn = f
		}
	}
	if fn == nil {
		r.anchor(rule, "the operation that lists collections")
		return
	}
	h := docHooks(p)
	var elemName *Term
	isName := func(t *Term) bool { return loadOfField(t, "Name") }
	h.Call = func(c *CallCtx) bool {
		s := c.S
		switch c.Name {
		case "strings.CutPrefix":
			a, b := c.St.clone(), c.St
			has := s.T.mk(TPure, "strings.HasPrefix", nil, nil, nil, 0, types.Typ[types.Bool], c.Args...)
			_ = b
			c.Out(a, s.T.mk(TPure, "strings.TrimPrefix", nil, nil, nil, 0, types.Typ[types.String], c.Args...), has)
			return true
		}
		return clientCall(c)
	}
	h.Instr = func(s *Sim, inst *Inst, in ssa.Instruction, st *State) {
		// next element: the one before must have been listed
		if nx, ok := in.(*ssa.Next); ok {
			it := s.val(st, inst, nx.Iter)
			if it.k == TRange && it.args[0].k == TCall && it.args[0].op == dfsAPI+"DocList" {
				if flagOf(st, "own") == "1" {
					s.violate(rule, in, inst, st, "a collection under the prefix may be left out of the list")
				}
				setFlag(st, "own", "")
				r.ok(rule, "loop over the stored collections "+p.instrPos(in))
			}
		}
	}
	h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, c *Term, truth bool) bool {
		c, truth = cond(c, truth)
		if c.k == TPure && c.op == "strings.HasPrefix" && isName(c.args[0]) {
			if pr, ok := c.args[1].str(); ok {
				prefix[pr] = true
				if truth {
					setFlag(st, "own", "1")
				}
				r.ok(rule, "prefix test "+p.instrPos(in))
			}
		}
		return true
	}
	h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
		if loc.k == TFieldAddr && loc.op == "Name" && loc.args[0].typ != nil && typeName(loc.args[0].typ) == docPkg+".Collection" {
			r.ok(rule, "name of a listed collection "+p.instrPos(in))
			v := val.strip()
			var src *Term
			pre := ""
			switch {
			case v.k == TPure && v.op == "strings.TrimPrefix":
				src = v.args[0]
				pre, _ = v.args[1].str()
			case v.k == TSlice && v.args[1] != nil && v.args[2] == nil:
				if n, ok := v.args[1].int64(); ok {
					src = v.args[0]
					for q := range prefix {
						if len(q) == int(n) {
							pre = q
						}
					}
				}
			}
			if src == nil || !isName(src) || pre == "" {
				s.violate(rule, in, inst, st, "the name of a listed collection is not its stored name without the prefix")
				return
			}
			prefix[pre] = true
			has := s.T.mk(TPure, "strings.HasPrefix", nil, nil, nil, 0, types.Typ[types.Bool], src, s.T.constVal(constantString(pre), types.Typ[types.String]))
			if st.facts[has].truth != 1 {
				s.violate(rule, in, inst, st, "an entry that may not be under the prefix is listed as a collection")
			}
			elemName = src
			setFlag(st, "own", "")
		}
		// the indexes of a listed collection
		if loc.k == TMapElem && val.typ != nil && strings.HasSuffix(typeName(val.typ), "collection.IndexType") {
			r.ok(rule, "index of a listed collection "+p.instrPos(in))
			kp, kr := rootFieldPath(loc.args[1])
			vp, vr := rootFieldPath(val)
			if len(kp) == 0 || len(vp) == 0 || kp[len(kp)-1] != "FieldName" || vp[len(vp)-1] != "FieldType" || kr != vr {
				s.violate(rule, in, inst, st, "a listed collection gets an index whose name and type are not those of one stored index")
			}
		}
	}
	_ = elemName
	s := newSim(p, h)
	s.Run(fn)
	r.take(s)
	// every kind of stored index is listed
	kinds := map[string]bool{}
	for _, f := range p.reach(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var fv *types.Var
				switch x := in.(type) {
				case *ssa.FieldAddr:
					fv = fieldVar(x.X.Type(), x.Field)
				case *ssa.Field:
					fv = fieldVar(x.X.Type(), x.Field)
				}
				if fv != nil && strings.HasSuffix(fv.Name(), "Indexes") && fv.Pkg() != nil && strings.HasSuffix(fv.Pkg().Path(), "pkg/collection") {
					kinds[fv.Name()] = true
				}
			}
		}
	}
	for _, k := range []string{"SimpleIndexes", "ListIndexes", "MapIndexes"} {
		r.ok(rule, "stored "+k)
		if !kinds[k] {
			r.failf(rule, p.pos(fn.Pos()), shortFn(fn), "the %s of a collection are not listed", k)
		}
	}
}

// the client's pod changes only to a pod that was opened, and takes the indexes with it
func c04Pod(p *Prog, r *Report) {
	const rule = "pod-switch"
	r.rule(rule, "the client's pod and pod info change together, to the pod that was just opened without error, and the indexes of the pod before are dropped with it")
	r.need(rule, 3)
	for _, fn := range p.methodsOf("pkg/document", "Client") {
		stores := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						n := fieldVar(fa.X.Type(), fa.Field).Name()
						if typeName(fa.X.Type()) == docPkg+".Client" && (n == "pod" || n == "podInfo") {
							stores = true
						}
					}
				}
			}
		}
		if !stores {
			continue
		}
		h := docHooks(p)
		var opened *Term // argument of the successful OpenPod
		h.Call = func(c *CallCtx) bool {
			if c.Name == dfsAPI+"OpenPod" {
				arg := roleArg(c, "podName")
				forkErr(c, func(st *State) {
					setFlag(st, "opened", "1")
					opened = arg
				}, nil)
				return true
			}
			return clientCall(c)
		}
		h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
			if loc.k != TFieldAddr || loc.args[0].typ == nil || typeName(loc.args[0].typ) != docPkg+".Client" || localRoot(loc) {
				return
			}
			switch loc.op {
			case "pod":
				r.ok(rule, "store of the pod "+p.instrPos(in))
				if flagOf(st, "opened") == "" || val != opened {
					s.violate(rule, in, inst, st, "the client's pod is changed to one that was not opened before")
				}
				setFlag(st, "pod", "1")
			case "podInfo":
				r.ok(rule, "store of the pod info "+p.instrPos(in))
				if flagOf(st, "opened") == "" || !(val.k == TCall && val.op == dfsAPI+"OpenPod") {
					s.violate(rule, in, inst, st, "the client's pod info is not that of the pod it opened")
				}
				setFlag(st, "info", "1")
			case "indices":
				if val.k == TMake {
					setFlag(st, "fresh", "1")
				}
			}
		}
		// emptied: cleared, or every entry deleted
		isIndices := func(t *Term) bool {
			f, at := lastField(t)
			return f == "indices" && at != nil && at.typ != nil && typeName(at.typ) == docPkg+".Client"
		}
		each := &scan{name: "indices", isList: func(s *Sim, st *State, t *Term) bool { return isIndices(t) }}
		h.Instr = func(s *Sim, inst *Inst, in ssa.Instruction, st *State) { each.instr(s, inst, in, st) }
		h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, c *Term, truth bool) bool {
			each.refine(s, st, c, truth)
			if each.problem(s, st) == "" {
				setFlag(st, "fresh", "1")
			}
			return true
		}
		open := h.Call
		h.Call = func(c *CallCtx) bool {
			switch {
			case c.Name == "builtin:clear" && isIndices(c.Args[0]):
				setFlag(c.St, "fresh", "1")
			case c.Name == "builtin:delete" && isIndices(c.Args[0]):
				if k := c.Args[1].strip(); k.k == TCall && k.op == "next" {
					each.done(c.St)
				}
			}
			return open(c)
		}
		h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
			n := flagOf(st, "pod") + flagOf(st, "info") + flagOf(st, "fresh")
			r.ok(rule, "return "+p.instrPos(ret))
			if n != "" && n != "111" {
				s.violate(rule, ret, inst, st, "pod, pod info and open indexes do not change together")
			}
			if n == "" && len(res) > 0 && s.nilness(st, res[len(res)-1]) != 1 {
				s.violate(rule, ret, inst, st, "success is reported although the client does not use the opened pod")
			}
		}
		s := newSim(p, h)
		s.Run(fn)
		r.take(s)
	}
}

// the index only touches its own table
func c04Index(p *Prog, r *Report) {
	const rule = "index-table"
	r.rule(rule, "every access of the vector index to the key-value store names the table the index was created for, and the index is created for the class and store it was given")
	r.need(rule, 9)
	for _, fn := range p.funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != hnswPkg && !strings.HasPrefix(fn.Pkg.Pkg.Path(), hnswPkg) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					n := calleeName(ci.Common())
					if strings.HasPrefix(n, kvType) {
						sg := ci.Common().Signature()
						for i := 0; i < sg.Params().Len(); i++ {
							if sg.Params().At(i).Name() != "name" {
								continue
							}
							r.ok(rule, shortName(n)+" "+p.instrPos(in))
							if !p.traceField(ci.Common().Args[i+1], "hnsw.hnsw", "className", 0) {
								r.failf(rule, p.instrPos(in), shortFn(fn), "%s does not name the index's own table", shortName(n))
							}
							if !p.traceField(ci.Common().Args[0], "hnsw.hnsw", "nodes", 0) {
								r.failf(rule, p.instrPos(in), shortFn(fn), "%s is not called on the index's own store", shortName(n))
							}
						}
					}
				}
				if st, ok := in.(*ssa.Store); ok {
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok || typeName(fa.X.Type()) != hnswPkg+".hnsw" {
						continue
					}
					switch fieldVar(fa.X.Type(), fa.Field).Name() {
					case "className":
						r.ok(rule, "store of the class name "+p.instrPos(in))
						if !p.traceField(st.Val, "hnsw.Config", "ClassName", 0) {
							r.failf(rule, p.instrPos(in), shortFn(fn), "the index's table is not the class it was created for")
						}
					case "nodes":
						r.ok(rule, "store of the node store "+p.instrPos(in))
						if _, ok := st.Val.(*ssa.Parameter); !ok {
							r.failf(rule, p.instrPos(in), shortFn(fn), "the index's store is not the one it was given")
						}
					}
				}
			}
		}
	}
}

// the handlers pass on the collection of the request
func c04Handlers(p *Prog, r *Report) {
	const rule = "handler-collection"
	r.rule(rule, "every handler passes the collection named in its own request to the client")
	r.need(rule, 6)
	for _, fn := range handlerFns(p) {
		fn := fn
		h := docHooks(p)
		var req *Term
		init := h.Init
		h.Init = func(s *Sim, st *State, root *Inst) {
			init(s, st, root)
			req = st.get(root, fn.Params[len(fn.Params)-1], -1)
		}
		h.Inline = func(inst *Inst, f *ssa.Function) bool { return f.Pkg == nil || f.Pkg.Pkg.Path() != docPkg }
		h.Call = func(c *CallCtx) bool {
			if strings.HasPrefix(c.Name, "("+docPkg+".Client).") && len(c.Args) > 1 {
				a := c.Args[1]
				if typeName(a.typ) == docPkg+".Collection" {
					for l, v := range c.St.mem {
						if l.k == TFieldAddr && l.args[0] == a && l.op == "Name" {
							a = v
							break
						}
					}
				}
				path, root := rootFieldPath(a)
				last := ""
				if len(path) > 0 {
					last = path[len(path)-1]
				}
				r.ok(rule, shortName(c.Name)+" "+p.instrPos(c.Instr))
				if root != req && !(root != nil && root.k == TAlloc) || last != "Name" && last != "Collection" {
					c.S.violate(rule, c.Instr, c.Inst, c.St, shortName(c.Name)+" is not called with the collection named in the request")
				}
				if errResult(c.Com.Signature()) >= 0 {
					forkErr(c, nil, nil)
					return true
				}
			}
			return clientCall(c)
		}
		s := newSim(p, h)
		s.Run(fn)
		r.take(s)
	}
}
