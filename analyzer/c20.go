package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const colPkg = "github.com/fairdatasociety/fairOS-dfs/pkg/collection"

var indexTypes = map[string]string{"string": "StringIndex", "number": "NumberIndex", "map": "MapIndex", "list": "ListIndex"}

func init() {
	register("C20", func(p *Prog, r *Report) {
		r.explain = "value-flow and path analysis of the handlers and client operations that create and list collections: for every path, the type name an index was found to have against the type constant stored for it, and the way back; scans over the indexes are complete"
		c20Create(p, r)
		c20Store(p, r)
		c20Load(p, r)
		c20List(p, r)
	})
}

func isIndexType(t types.Type) bool { return t != nil && typeName(t) == colPkg+".IndexType" }

// lastField: the last field a value was read from and what it was read from
func lastField(t *Term) (string, *Term) {
	t = t.strip()
	switch {
	case t.k == TLoad && t.args[0].k == TFieldAddr:
		b := t.args[0].args[0]
		if b.k == TLoad { // through a pointer
			return t.args[0].op, b
		}
		return t.args[0].op, b
	case t.k == TField:
		b := t.args[0]
		if b.k == TLoad {
			b = b.args[0]
		}
		return t.op, b
	}
	return "", nil
}

// handlerOf: the handlers that end up calling an operation of the client
func handlersOf(p *Prog, ops ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range handlerFns(p) {
		hit := false
		for n := range p.externals(fn) {
			for _, op := range ops {
				hit = hit || n == "("+docPkg+".Client)."+op
			}
		}
		if hit {
			out = append(out, fn)
		}
	}
	return out
}

func handlerCall(c *CallCtx, onOp func(op string, st *State)) bool {
	if f := c.Com.StaticCallee(); f != nil && f.Signature.Recv() != nil && typeName(f.Signature.Recv().Type()) == docPkg+".Client" {
		if errResult(c.Com.Signature()) >= 0 {
			forkErr(c, nil, nil)
			return true
		}
	}
	if stdCall(c) {
		return true
	}
	if extErr(c) {
		forkErr(c, nil, nil)
		return true
	}
	return false
}

func notClient(inst *Inst, f *ssa.Function) bool {
	return f.Signature.Recv() == nil || typeName(f.Signature.Recv().Type()) != docPkg+".Client"
}

func c20Create(p *Prog, r *Report) {
	const rule = "created-as-asked"
	r.rule(rule, "every index of a create request is passed on under its own name with the type its type name stands for; with any other type name nothing is created")
	r.need(rule, 5)
	fns := handlersOf(p, "CreateCollection")
	if len(fns) == 0 {
		r.anchor(rule, "the handler that creates collections")
	}
	for _, fn := range fns {
		sc := &scan{name: "ix", isList: func(s *Sim, st *State, t *Term) bool {
			path, root := rootFieldPath(t)
			return root != nil && root.k == TParam && len(path) > 0 && path[len(path)-1] == "Indexes"
		}}
		h := &Hooks{KeepLock: true, Inline: notClient}
		h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
		h.Load = func(s *Sim, inst *Inst, in *ssa.UnOp, st *State, loc, val *Term) {
			if sc.load(s, st, loc) {
				setFlag(st, "type", "")
			}
		}
		h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, c *Term, truth bool) bool {
			sc.refine(s, st, c, truth)
			c, truth = cond(c, truth)
			if c.k == TBin && c.op == "==" && truth {
				for i, a := range c.args {
					if f, el := lastField(a); f == "FieldType" {
						if n, ok := c.args[1-i].str(); ok {
							setFlag(st, "type", n)
							st.mem[ghostCell(s, "type-of")] = el
						}
					}
				}
			}
			return true
		}
		h.Tag = func(s *Sim, st *State, t *Term) *Term {
			// a type read from a table of types
			t = t.strip()
			if t.k != TCall || t.op != "lookup" || len(t.args) != 2 || !isIndexType(t.typ) {
				return nil
			}
			f, el := lastField(t.args[1])
			if f != "FieldType" {
				return nil
			}
			tab, good := p.globalMap(t.args[0])
			good = good && len(tab) == len(indexTypes)
			for n, cn := range indexTypes {
				c, has := p.pkgConst(colPkg, cn)
				good = good && has && tab[fmt.Sprintf("%q", n)] != nil && tab[fmt.Sprintf("%q", n)].ExactString() == c.ExactString()
			}
			if good {
				return s.T.mk(TPure, "table:ok", nil, nil, nil, 0, nil, el)
			}
			return s.T.mk(TPure, "table:wrong", nil, nil, nil, 0, nil, el)
		}
		maps := map[*Term]bool{}
		names := map[string]bool{}
		h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
			if loc.k != TMapElem || !isIndexType(val.typ) && !isIndexType(mapElemType(loc.args[0].typ)) {
				return
			}
			r.ok(rule, "index "+p.instrPos(in))
			maps[loc.args[0]] = true
			f, el := lastField(loc.args[1])
			if f != "FieldName" {
				s.violate(rule, in, inst, st, "an index is created for something else than the field it was asked for")
				return
			}
			val = val.strip()
			if g := s.tag(st, val); g != nil && strings.HasPrefix(g.op, "table:") {
				for n := range indexTypes {
					names[n] = true
				}
				if g.op != "table:ok" || g.args[0] != el {
					s.violate(rule, in, inst, st, "an index may be created with another type than asked for")
				} else if flagOf(st, "looked") == "" {
					s.violate(rule, in, inst, st, "an index may be created although its type name is not known")
				}
				sc.done(st)
				return
			}
			n := flagOf(st, "type")
			same := st.mem[ghostCell(s, "type-of")] == el
			got, isC := val.int64()
			want := int64(-1)
			if cn := indexTypes[n]; cn != "" {
				want = indexConst(p, cn)
			}
			if !same || !isC || got != want {
				s.violate(rule, in, inst, st, "an index may be created with another type than asked for")
			}
			names[n] = true
			sc.done(st)
		}
		h.Call = func(c *CallCtx) bool {
			if c.Name == "("+docPkg+".Client).CreateCollection" {
				r.ok(rule, "create "+p.instrPos(c.Instr))
				if why := sc.problem(c.S, c.St); why != "" {
					c.S.violate(rule, c.Instr, c.Inst, c.St, "the collection may be created without all its indexes: "+why)
				}
				var m *Term
				for l, v := range c.St.mem {
					if l.k == TFieldAddr && l.op == "Indexes" && l.args[0] == c.Args[1].strip() {
						m = v
					}
				}
				if m == nil || !maps[m] && m.k != TMake {
					c.S.violate(rule, c.Instr, c.Inst, c.St, "the collection is not created with the indexes of the request")
				}
			}
			if c.Name == "builtin:delete" && maps[c.Args[0]] {
				c.S.violate(rule, c.Instr, c.Inst, c.St, "an index asked for is left out")
			}
			return handlerCall(c, nil)
		}
		ref := h.Refine
		h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, c *Term, truth bool) bool {
			if okLookup(in.Cond, isIndexType) {
				if _, tr := cond(c, truth); tr {
					setFlag(st, "looked", "1")
				} else {
					setFlag(st, "looked", "")
				}
			}
			return ref(s, inst, in, st, c, truth)
		}
		s := newSim(p, h)
		s.Run(fn)
		r.take(s)
		for n := range indexTypes {
			r.ok(rule, "type "+n)
			if !names[n] {
				r.failf(rule, p.pos(fn.Pos()), shortFn(fn), "an index of type %q cannot be created", n)
			}
		}
	}
}

// okLookup: the condition is whether a map lookup found something (possibly handed through helpers)
func okLookup(v ssa.Value, elem func(types.Type) bool) bool {
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			v = x.X
			continue
		case *ssa.Extract:
			switch t := x.Tuple.(type) {
			case *ssa.Lookup:
				return t.CommaOk && x.Index == 1 && elem(mapElemType(t.X.Type()))
			case *ssa.Call:
				res := t.Call.Signature().Results()
				return x.Index == 1 && res.Len() == 2 && elem(res.At(0).Type())
			}
		}
		return false
	}
}

// c20Store: the client passes the indexes on
func c20Store(p *Prog, r *Report) {
	const rule = "passed-on"
	r.rule(rule, "the client creates the collection with the indexes it was given and adds only its own")
	r.need(rule, 1)
	fn := mustFn(p, r, rule, "pkg/document.(*Client).CreateCollection")
	if fn == nil {
		return
	}
	h := docHooks(p)
	isMap := func(s *Sim, st *State, t *Term) bool {
		path, root := rootFieldPath(t)
		if root != nil && root.k == TParam && len(path) == 1 && path[0] == "Indexes" {
			return true
		}
		for l, v := range st.mem {
			if v == t && l.k == TFieldAddr && l.op == "Indexes" && l.args[0].k == TParam {
				return true
			}
		}
		return false
	}
	h.Call = func(c *CallCtx) bool {
		if c.Name == dfsAPI+"DocCreate" {
			r.ok(rule, "DocCreate "+p.instrPos(c.Instr))
			ok := false
			for _, a := range c.Args {
				if isIndexType(mapElemType(a.typ)) {
					ok = isMap(c.S, c.St, a)
				}
			}
			if !ok {
				c.S.violate(rule, c.Instr, c.Inst, c.St, "the collection may be created without the indexes it was asked for")
			}
		}
		if c.Name == "builtin:delete" && isMap(c.S, c.St, c.Args[0]) {
			c.S.violate(rule, c.Instr, c.Inst, c.St, "an index asked for is left out")
		}
		return clientCall(c)
	}
	h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
		if loc.k == TMapElem && isMap(s, st, loc.args[0]) {
			if k, ok := loc.args[1].str(); !ok || !strings.HasPrefix(k, "hnsw") {
				s.violate(rule, in, inst, st, "an index the request asked for may be changed")
			}
		}
		if loc.k == TFieldAddr && loc.op == "Indexes" && loc.args[0].k == TParam {
			cur := st.mem[loc]
			if (cur == nil || s.nilness(st, cur) != -1) && !isMap(s, st, val) {
				s.violate(rule, in, inst, st, "the indexes asked for may be replaced")
			}
			// keep apart the path on which there were none
			setFlag(st, "own", p.instrPos(in))
		}
	}
	s := newSim(p, h)
	s.Run(fn)
	r.take(s)
}

// c20Load: the client lists what is stored
func c20Load(p *Prog, r *Report) {
	const rule = "listed-as-stored"
	r.rule(rule, "a listed collection has every index of its stored schema, under its own name with its own type")
	r.need(rule, 2)
	fn := mustFn(p, r, rule, "pkg/document.(*Client).GetCollections")
	if fn == nil {
		return
	}
	lists := []string{"SimpleIndexes", "MapIndexes", "ListIndexes"}
	nameOf := func(s *Sim, st *State, t *Term, n string) bool {
		for t.k == TSlice {
			t = t.args[0]
		}
		if f, _ := lastField(t); f == n {
			return true
		}
		// an element of a literal of lists
		if t.k == TLoad && t.args[0].k == TIndexAddr {
			b := t.args[0].args[0]
			for b.k == TSlice {
				b = b.args[0]
			}
			if at, isC := t.args[0].args[1].int64(); b.k == TAlloc {
				for l, v := range st.mem {
					if l.k == TIndexAddr && l.args[0] == b {
						if n, ok := l.args[1].int64(); isC && (!ok || n != at) {
							continue
						}
						if f, _ := lastField(v); f == n {
							return true
						}
					}
				}
			}
		}
		return false
	}
	var scs []*scan
	for _, n := range lists {
		n := n
		scs = append(scs, &scan{name: n, isList: func(s *Sim, st *State, t *Term) bool { return nameOf(s, st, t, n) }})
	}
	h := docHooks(p)
	load := h.Load
	h.Load = func(s *Sim, inst *Inst, in *ssa.UnOp, st *State, loc, val *Term) {
		load(s, inst, in, st, loc, val)
		for _, c := range scs {
			c.load(s, st, loc)
		}
	}
	h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, c *Term, truth bool) bool {
		for _, x := range scs {
			x.refine(s, st, c, truth)
		}
		return true
	}
	maps := map[*Term]bool{}
	listed := func(s *Sim, in ssa.Instruction, inst *Inst, st *State) {
		r.ok(rule, "listed "+p.instrPos(in))
		for _, c := range scs {
			if why := c.problem(s, st); why != "" {
				s.violate(rule, in, inst, st, "a collection may be listed without all of its "+c.name+": "+why)
			}
			c.reset(st)
		}
	}
	h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
		if loc.k == TIndexAddr && val.typ != nil && typeName(deref(val.typ)) == docPkg+".Collection" && !isArray(locRoot(loc).typ) {
			listed(s, in, inst, st)
		}
		if loc.k == TMapElem && isIndexType(mapElemType(loc.args[0].typ)) {
			r.ok(rule, "index "+p.instrPos(in))
			f1, e1 := lastField(loc.args[1])
			f2, e2 := lastField(val)
			if f1 != "FieldName" || f2 != "FieldType" || e1 != e2 {
				s.violate(rule, in, inst, st, "an index is listed with a name or type that is not its own")
			}
			maps[loc.args[0]] = true
			for _, c := range scs {
				if last := st.mem[ghostCell(s, c.name+"-last")]; flagOf(st, c.name+"-pending") != "" && last != nil {
					c.done(st)
				}
			}
			return
		}
		if loc.k == TFieldAddr && loc.op == "Indexes" && loc.args[0].typ != nil && typeName(loc.args[0].typ) == docPkg+".Collection" {
			r.ok(rule, "collection "+p.instrPos(in))
			if val.strip().k != TMake && !maps[val] {
				s.violate(rule, in, inst, st, "a collection is listed with indexes that are not its own")
			} else if flagOf(st, "given") != "" {
				s.violate(rule, in, inst, st, "a collection may be listed with the indexes of another one")
			}
			setFlag(st, "given", "1")
		}
	}
	instr := h.Instr
	h.Instr = func(s *Sim, inst *Inst, in ssa.Instruction, st *State) {
		if instr != nil {
			instr(s, inst, in, st)
		}
		if m, ok := in.(*ssa.MakeMap); ok && isIndexType(mapElemType(m.Type())) {
			setFlag(st, "given", "")
		}
	}
	h.Call = func(c *CallCtx) bool {
		if c.Name == "builtin:append" && len(c.Args) > 1 {
			if vs, ok := c.S.Varargs(c.St, c.Args[1]); ok {
				for _, v := range vs {
					if v.typ != nil && typeName(deref(v.typ)) == docPkg+".Collection" {
						listed(c.S, c.Instr, c.Inst, c.St)
					}
				}
			}
		}
		if c.Name == "builtin:delete" && maps[c.Args[0]] {
			c.S.violate(rule, c.Instr, c.Inst, c.St, "an index of a collection is not listed")
		}
		return clientCall(c)
	}
	s := newSim(p, h)
	s.Run(fn)
	r.take(s)
}

// c20List: the handler names the types
func c20List(p *Prog, r *Report) {
	const rule = "listed-as-named"
	r.rule(rule, "every index of a listed collection is answered under its own name with the name of its type")
	r.need(rule, 4)
	fns := handlersOf(p, "GetCollections")
	if len(fns) == 0 {
		r.anchor(rule, "the handler that lists collections")
	}
	for _, fn := range fns {
		var kind *Term // the type at hand
		sc := &scan{name: "ix", isList: func(s *Sim, st *State, t *Term) bool {
			f, _ := lastField(t)
			m, ok := t.typ.(*types.Map)
			return f == "Indexes" && ok && isIndexType(m.Elem())
		}, skip: func(s *Sim, st *State) bool {
			if flagOf(st, "looked") == "0" {
				return true
			}
			if kind == nil {
				return false
			}
			for _, cn := range indexTypes {
				c := s.T.constVal(constantInt(indexConst(p, cn)), kind.typ)
				if s.truth(st, s.T.bin(tokEQL, kind, c, nil)) != -1 {
					return false
				}
			}
			return true
		}}
		cols := &scan{name: "col", isList: func(s *Sim, st *State, t *Term) bool {
			sl, ok := t.typ.Underlying().(*types.Slice)
			return ok && typeName(sl.Elem()) == docPkg+".Collection"
		}}
		h := &Hooks{KeepLock: true, Inline: notClient}
		h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
		h.Load = func(s *Sim, inst *Inst, in *ssa.UnOp, st *State, loc, val *Term) {
			if cols.load(s, st, loc) {
				sc.reset(st)
			}
		}
		h.Instr = func(s *Sim, inst *Inst, in ssa.Instruction, st *State) {
			sc.instr(s, inst, in, st)
			if n, ok := in.(*ssa.Next); ok && !n.IsString {
				setFlag(st, "kind", "")
				setFlag(st, "looked", "")
			}
		}
		h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, c *Term, truth bool) bool {
			sc.refine(s, st, c, truth)
			cols.refine(s, st, c, truth)
			if okLookup(in.Cond, isString) {
				if _, tr := cond(c, truth); tr {
					setFlag(st, "looked", "1")
				} else {
					setFlag(st, "looked", "0")
				}
			}
			c, truth = cond(c, truth)
			if c.k == TBin && c.op == "==" {
				for i, a := range c.args {
					x := a.strip()
					if x.k == TCall && x.op == "next" && x.idx == 2 && isIndexType(x.typ) {
						kind = x
						if k, ok := c.args[1-i].int64(); ok && truth {
							setFlag(st, "kind", fmt.Sprint(k))
						}
					}
				}
			}
			return true
		}
		named := map[string]bool{}
		h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
			if loc.k != TFieldAddr || loc.args[0].typ == nil {
				return
			}
			switch typeName(loc.args[0].typ) {
			case modPath + "/models.Index":
				val = val.strip()
				switch loc.op {
				case "FieldName":
					r.ok(rule, "name "+p.instrPos(in))
					if val.k != TCall || val.op != "next" || val.idx != 1 {
						s.violate(rule, in, inst, st, "an index is answered under another name than its own")
					}
				case "FieldType":
					r.ok(rule, "type "+p.instrPos(in))
					if val.k == TCall && val.op == "lookup" && len(val.args) == 2 {
						tab, ok := p.globalMap(val.args[0])
						k := val.args[1].strip()
						good := ok && k.k == TCall && k.op == "next" && k.idx == 2 && flagOf(st, "looked") == "1"
						for n, cn := range indexTypes {
							c, has := p.pkgConst(colPkg, cn)
							good = good && has && tab[c.ExactString()] != nil && tab[c.ExactString()].ExactString() == fmt.Sprintf("%q", n)
							named[n] = true
						}
						if !good {
							s.violate(rule, in, inst, st, "an index may be answered with another type than its own")
						}
						return
					}
					n, ok := val.str()
					if !ok || indexTypes[n] == "" || flagOf(st, "kind") != fmt.Sprint(indexConst(p, indexTypes[n])) {
						s.violate(rule, in, inst, st, "an index may be answered with another type than its own")
					}
					named[n] = true
				}
			}
		}
		h.Call = func(c *CallCtx) bool {
			if c.Name == "builtin:append" && len(c.Args) > 1 {
				if vs, ok := c.S.Varargs(c.St, c.Args[1]); ok {
					for _, v := range vs {
						if v.typ != nil && typeName(v.typ) == modPath+"/models.Index" {
							sc.done(c.St)
						}
					}
				}
			}
			return handlerCall(c, nil)
		}
		h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
			if code := responderStatus(p, res[0]); code >= 300 {
				return
			}
			r.ok(rule, "answer "+p.instrPos(ret))
			if flagOf(st, "ix-missed") != "" {
				s.violate(rule, ret, inst, st, "an index of a known type may not be listed")
			}
		}
		s := newSim(p, h)
		s.Run(fn)
		r.take(s)
		for n := range indexTypes {
			r.ok(rule, "type "+n)
			if !named[n] {
				r.failf(rule, p.pos(fn.Pos()), shortFn(fn), "an index of type %q is never listed", n)
			}
		}
	}
}
