package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const lruPkg = "github.com/hashicorp/golang-lru"

// nodeFields: what makes up a node of the graph
var nodeFields = map[string]bool{"Level": true, "Connections": true, "Vector": true}

func init() {
	register("C14", func(p *Prog, r *Report) {
		r.explain = "typestate of graph nodes (changed, marked as not written, serialised, stored, marked as written), followed through every function that changes, stores or loads a node"
		w := &nodeWrites{p: p, r: r, puts: map[string]map[string]string{}, gets: map[string]map[string]string{}, climb: map[*ssa.Function]bool{}}
		w.rules()
		w.layout()
		w.changes()
		w.flush()
		w.keys()
		w.cache()
		storedCount(p, r, nwRest)
		storedEntry(p, r, nwRest)
		opened(p, r, nwRest)
	})
}

type nodeWrites struct {
	p          *Prog
	r          *Report
	puts, gets map[string]map[string]string // constant key, type, where
	climb      map[*ssa.Function]bool       // its callers tell the key
}

const (
	nwMark  = "marked"
	nwPut   = "written"
	nwFlush = "flushed"
	nwKey   = "keys"
	nwJSON  = "layout"
	nwCache = "kept"
	nwRest  = "restored"
)

func (w *nodeWrites) rules() {
	w.r.rule(nwMark, "whatever changes the level, links or vector of a node others can reach marks it as not written before it lets go of the node's lock")
	w.r.rule(nwPut, "a node is marked as written only when the store has accepted it, serialised as it is, under its own id, and it was not changed since")
	w.r.rule(nwFlush, "a flush that reports success has dealt with every node that may have changed")
	w.r.rule(nwKey, "what is stored beside the nodes has names of its own, and is read under the name and as the type it was written")
	w.r.rule(nwJSON, "id, level, links and vector of a node are part of its stored form, each under its own name")
	w.r.rule(nwCache, "a changed node is kept until it is written")
	w.r.rule(nwRest, "a flush that reports success has stored the current entry point and the count it was given, and reading them gives back what was stored")
	w.r.need(nwRest, 4)
	w.r.need(nwMark, 3)
	w.r.need(nwPut, 1)
	w.r.need(nwFlush, 1)
	w.r.need(nwKey, 2)
	w.r.need(nwJSON, 4)
}

// layout: the fields of a node in its stored form
func (w *nodeWrites) layout() {
	n := w.p.namedType(vertexType)
	if n == nil {
		w.r.anchor(nwJSON, "the type of a node")
		return
	}
	st := n.Underlying().(*types.Struct)
	names := map[string]string{}
	found := 0
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		name, opt, _ := strings.Cut(tag, ",")
		mine := nodeFields[f.Name()] || f.Name() == "Id"
		if mine {
			found++
			w.r.ok(nwJSON, f.Name())
		}
		fail := func(what string) {
			w.r.failf(nwJSON, w.p.pos(f.Pos()), vertexType[strings.LastIndex(vertexType, "/")+1:], "%s", what)
		}
		if !f.Exported() || tag == "-" {
			if mine {
				fail(f.Name() + " is not part of the stored form of a node")
			}
			continue
		}
		if name == "" {
			name = f.Name()
		}
		if o := names[strings.ToLower(name)]; o != "" {
			fail(f.Name() + " and " + o + " have the same name in the stored form of a node")
		}
		names[strings.ToLower(name)] = f.Name()
		_ = opt
	}
	if found < 4 {
		w.r.anchor(nwJSON, "id, level, links and vector of a node")
	}
	for _, m := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText"} {
		if o, _, _ := types.LookupFieldOrMethod(types.NewPointer(n), true, n.Obj().Pkg(), m); o != nil {
			if f, ok := o.(*types.Func); ok {
				w.r.failf(nwJSON, w.p.pos(f.Pos()), m, "a node has a stored form of its own making, which is not looked into")
			}
		}
	}
}

func (p *Prog) namedType(full string) *types.Named {
	i := strings.LastIndex(full, ".")
	for _, pk := range p.ssa.AllPackages() {
		if pk.Pkg.Path() == full[:i] {
			if o, ok := pk.Pkg.Scope().Lookup(full[i+1:]).(*types.TypeName); ok {
				n, _ := o.Type().(*types.Named)
				return n
			}
		}
	}
	return nil
}

// changesNode: the function stores into a field of a node, or into its lists
func changesNode(fn *ssa.Function) bool {
	var from func(v ssa.Value, depth int) bool
	from = func(v ssa.Value, depth int) bool {
		if depth == 0 {
			return false
		}
		switch v := v.(type) {
		case *ssa.FieldAddr:
			return typeName(v.X.Type()) == vertexType && (nodeFields[fieldVar(v.X.Type(), v.Field).Name()] || fieldVar(v.X.Type(), v.Field).Name() == "Committed")
		case *ssa.UnOp:
			return from(v.X, depth-1)
		case *ssa.IndexAddr:
			return from(v.X, depth-1)
		case *ssa.Slice:
			return from(v.X, depth-1)
		}
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if from(in.Addr, 8) {
					return true
				}
			case *ssa.Call:
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "copy" || bi.Name() == "clear") && from(in.Call.Args[0], 8) {
					return true
				}
			}
		}
	}
	return false
}

func usesStore(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				n := calleeName(ci.Common())
				if strings.HasSuffix(n, ".KVPut") || strings.HasSuffix(n, ".KVGet") || strings.HasPrefix(n, "("+lruPkg) && isCachePut(n) {
					return true
				}
			}
		}
	}
	return false
}

func isCachePut(name string) bool {
	return strings.HasPrefix(name, "("+lruPkg) && (strings.HasSuffix(name, ".Add") || strings.HasSuffix(name, ".PeekOrAdd") || strings.HasSuffix(name, ".ContainsOrAdd"))
}

func (w *nodeWrites) changes() {
	p := w.p
	reach := p.funcs
	var todo []*ssa.Function
	in := map[*ssa.Function]bool{}
	direct := map[*ssa.Function]bool{}
	for _, f := range reach {
		if !isPkg(f, hnswPkg) && !(f.Parent() != nil && isPkg(rootFn(f), hnswPkg)) {
			continue
		}
		if changesNode(f) || usesStore(f) {
			direct[f] = true
		}
	}
	add := func(f *ssa.Function) {
		f = rootFn(f)
		if !in[f] && !recvIs(f, vertexType) {
			in[f] = true
			todo = append(todo, f)
		}
	}
	for _, f := range reach {
		if direct[f] && !recvIs(f, vertexType) {
			add(f)
		}
		if !recvIs(f, vertexType) {
			for _, g := range p.callees(f) {
				if direct[g] && recvIs(g, vertexType) {
					add(f)
				}
			}
		}
	}
	if len(todo) < 3 {
		w.r.anchor(nwMark, "the functions that change nodes")
		return
	}
	rank := map[*ssa.Function]int{}
	for _, f := range todo {
		for _, g := range p.reach(f) {
			if in[g] && g != f {
				rank[f]++
			}
		}
	}
	sort.SliceStable(todo, func(i, j int) bool { return rank[todo[i]] < rank[todo[j]] })
	open := map[*ssa.Function]bool{}
	for f := range direct {
		open[f] = recvIs(f, vertexType)
	}
	run := func(f *ssa.Function) *Sim {
		ws := map[*ssa.Function]bool{}
		for f := range open {
			ws[f] = open[f]
		}
		for more := true; more; {
			more = false
			for _, g := range reach {
				if ws[g] || in[g] {
					continue
				}
				for _, x := range p.callees(g) {
					if ws[x] {
						ws[g], more = true, true
						break
					}
				}
			}
		}
		return w.run(f, ws)
	}
	var settle func(f *ssa.Function, s *Sim, depth int) []*Sim
	settle = func(f *ssa.Function, s *Sim, depth int) []*Sim {
		if len(s.viol) == 0 && !w.climb[f] {
			return nil
		}
		cs := map[*ssa.Function]bool{}
		for _, c := range p.callSites(f) {
			cs[rootFn(c.Parent())] = true
		}
		if depth == 0 || len(cs) == 0 {
			return []*Sim{s}
		}
		open[f] = true
		var out []*Sim
		for _, g := range p.funcs {
			if cs[g] {
				t := run(g)
				if t.over {
					return []*Sim{s}
				}
				out = append(out, settle(g, t, depth-1)...)
			}
		}
		return out
	}
	for _, f := range todo {
		for _, s := range settle(f, run(f), 4) {
			w.r.take(s)
		}
	}
}

// node: the node a term is, under a name that stays the same
func (w *nodeWrites) node(v *Term) string {
	path, root := rootFieldPath(v)
	if root == nil {
		return ""
	}
	return fmt.Sprintf("%d.%s", root.id, strings.Join(path, "."))
}

func freshNode(v *Term) bool {
	path, root := rootFieldPath(v)
	return len(path) == 0 && root != nil && root.k == TAlloc && root.typ != nil && isVertex(deref(root.typ))
}

// nodeOf: the node a location is part of
func nodeOf(s *Sim, st *State, loc *Term) *Term {
	for i := 0; i < 12 && loc != nil; i++ {
		if g := s.tag(st, loc); g != nil && g.op == "part" {
			return g.args[0]
		}
		switch loc.k {
		case TFieldAddr:
			if isVertex(loc.args[0].typ) {
				if nodeFields[loc.op] {
					return loc.args[0]
				}
				return nil
			}
			return nil
		case TIndexAddr, TLoad, TSlice, TConv:
			loc = loc.args[0]
		default:
			return nil
		}
	}
	return nil
}

// ofLog: nodes rebuilt from a commit log are copies the index never sees
func ofLog(in ssa.Instruction, v *Term) bool {
	const res = "hnsw.DeserializationResult"
	slot := false
	for i := 0; i < 8 && v != nil; i++ {
		switch v.k {
		case TFieldAddr:
			return strings.HasSuffix(typeName(v.args[0].typ), res)
		case TIndexAddr, TLoad, TSlice, TConv:
			slot = slot || v.k == TIndexAddr
			v = v.args[0]
			continue
		}
		break
	}
	if !slot {
		return false
	}
	for _, q := range rootFn(in.Parent()).Params {
		if strings.HasSuffix(typeName(q.Type()), res) {
			return true
		}
	}
	return false
}

func (w *nodeWrites) changed(s *Sim, in ssa.Instruction, st *State, v *Term) {
	if ofLog(in, v) {
		return
	}
	k := w.node(v)
	w.r.ok(nwMark, "change "+w.p.instrPos(in))
	setFlag(st, "mar:"+k, "")
	setFlag(st, "put:"+k, "")
	if freshNode(v) && flagOf(st, "pub:"+k) == "" {
		return // nobody else knows it yet; a new node is not marked as written
	}
	setFlag(st, "d:"+k, "1")
}

func (w *nodeWrites) settled(s *Sim, in ssa.Instruction, inst *Inst, st *State, k string) {
	if flagOf(st, "d:"+k) != "" && flagOf(st, "f:"+k) == "" {
		s.violate(nwMark, in, inst, st, "a node is changed without being marked as not written")
	}
}

func isIDOfNode(s *Sim, st *State, t, v *Term) bool {
	t = t.unbox().strip()
	if n := structOf(v.typ); n != nil {
		for i := 0; i < n.NumFields(); i++ {
			if f := n.Field(i); f.Name() == "Id" {
				if cur := st.mem[s.fieldAddr(v, f, i)]; cur != nil && cur.strip() == t {
					return true
				}
			}
		}
	}
	if t.k == TLoad {
		t = t.args[0]
	}
	return (t.k == TFieldAddr || t.k == TField) && t.op == "Id" && isVertex(t.args[0].typ) && sameNode(t.args[0], v)
}

func (w *nodeWrites) run(fn *ssa.Function, open map[*ssa.Function]bool) *Sim {
	p, r := w.p, w.r
	reads := nodeSig(fn.Signature)
	h := &Hooks{KeepLock: true}
	h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
	h.Inline = func(inst *Inst, f *ssa.Function) bool {
		return open[f] || f.Parent() != nil || recvIs(f, vertexType) || namesThing(f)
	}
	h.Load = func(s *Sim, inst *Inst, in *ssa.UnOp, st *State, loc, val *Term) {
		if _, sl := in.Type().Underlying().(*types.Slice); !sl {
			return
		}
		if v := nodeOf(s, st, loc); v != nil && s.tag(st, val) == nil && val.k != TMake && val.k != TAlloc {
			s.setTag(st, val, s.T.mk(TPure, "part", nil, nil, nil, 0, nil, v))
		}
	}
	h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
		if loc.k == TFieldAddr && isVertex(loc.args[0].typ) && loc.op == "Committed" {
			v := loc.args[0]
			k := w.node(v)
			switch b, ok := val.boolVal(); {
			case ok && !b:
				setFlag(st, "f:"+k, "1")
			case ok && b:
				r.ok(nwPut, "marked as written "+p.instrPos(in))
				if flagOf(st, "put:"+k) == "" {
					s.violate(nwPut, in, inst, st, "a node is marked as written though the store may not have accepted it as it is now")
				}
				setFlag(st, "f:"+k, "")
			default:
				s.violate(nwPut, in, inst, st, "whether a node is marked as written cannot be told")
			}
			return
		}
		if _, isPtr := loc.typ.(*types.Pointer); isPtr && isVertex(loc.typ) && !freshNode(loc) && loc.k != TFieldAddr {
			w.changed(s, in, st, loc)
			return
		}
		if v := nodeOf(s, st, loc); v != nil {
			w.changed(s, in, st, v)
		}
	}
	h.Call = func(c *CallCtx) bool {
		s, st := c.S, c.St
		if op, ok := lockOp(c.Name); ok {
			l := c.Args[0].strip()
			if op == "Unlock" && l.k == TFieldAddr && isVertex(l.args[0].typ) {
				k := w.node(l.args[0])
				w.settled(s, c.Instr, c.Inst, st, k)
				for _, f := range []string{"d:", "f:", "put:", "mar:"} {
					setFlag(st, f+k, "")
				}
			} else if reads && op == "Lock" {
				setFlag(st, "excl", "1")
			} else if reads && op == "Unlock" {
				setFlag(st, "excl", "")
				setFlag(st, "looked", "")
			}
			return false
		}
		switch {
		case c.Name == "builtin:copy" || c.Name == "builtin:clear":
			if v := nodeOf(s, st, c.Args[0]); v != nil {
				w.changed(s, c.Instr, st, v)
			}
			return false
		case c.Name == "encoding/json.Marshal":
			if src := c.Args[0].unbox(); isVertex(src.typ) {
				stdCall(c)
				for _, o := range c.outs {
					setFlag(o, "mar:"+w.node(src), "1")
				}
				return true
			}
		case strings.HasSuffix(c.Name, ".KVPut"):
			w.put(c)
			return true
		case strings.HasSuffix(c.Name, ".KVGet"):
			w.get(c)
			return true
		case c.Name == "encoding/json.Unmarshal":
			w.decode(c)
			return true
		case isCachePut(c.Name):
			v := c.Args[2].unbox().strip()
			if !isVertex(v.typ) {
				return false
			}
			r.ok(nwKey, "cached "+p.instrPos(c.Instr))
			key := c.Args[1].unbox().strip()
			g := s.tag(st, v)
			if !isIDOfNode(s, st, key, v) && !(g != nil && (g.op == "stored" || g.op == "loaded") && g.args[0].strip() == key) {
				s.violate(nwKey, c.Instr, c.Inst, st, "a node is kept under an id that may not be its own")
			}
			setFlag(st, "pub:"+w.node(v), "1")
			if g == nil || g.op != "stored" {
				return false
			}
			// a copy read from the store must not take the place of the node others use
			r.ok(nwCache, "copy from the store kept "+p.instrPos(c.Instr))
			if strings.HasSuffix(c.Name, ".Add") {
				if flagOf(st, "looked") == "" {
					s.violate(nwCache, c.Instr, c.Inst, st, "a node read from the store may take the place of one that was read, and changed, in the meantime")
				}
				return false
			}
			there, isNew := st.clone(), st
			res, res2 := c.FreshAll(there), c.FreshAll(isNew)
			k := 0
			if strings.HasSuffix(c.Name, ".PeekOrAdd") {
				k = 1
				s.setNil(there, res[0], 1)
				// only nodes are kept there
				there.facts[s.T.mk(TPure, "is:"+typeKey(v.typ), nil, nil, nil, 0, types.Typ[types.Bool], res[0])] = Fact{truth: 1}
			}
			res[k], res2[k] = s.T.boolConst(true), s.T.boolConst(false)
			setFlag(there, "stale:"+strconv.Itoa(v.id), "1")
			c.Out(there, res...)
			c.Out(isNew, res2...)
			return true
		case strings.HasPrefix(c.Name, "("+lruPkg) && (strings.HasSuffix(c.Name, ".Get") || strings.HasSuffix(c.Name, ".Peek") || strings.HasSuffix(c.Name, ".Contains")):
			if flagOf(st, "excl") != "" {
				setFlag(st, "looked", "1")
			}
			return false
		}
		if f := c.Com.StaticCallee(); f != nil && p.inRepo[f] && nodeSig(f.Signature) && f != s.root.fn {
			off := len(c.Args) - 1
			call, _ := c.Instr.(*ssa.Call)
			c.ErrFork(nil, nil)
			for _, o := range c.outs {
				if t := o.get(c.Inst, call, 0); t != nil {
					s.setTag(o, t, s.T.mk(TPure, "loaded", nil, nil, nil, 0, nil, c.Args[off].strip()))
				}
			}
			return true
		}
		if stdCall(c) {
			return true
		}
		if extErr(c) {
			c.ErrFork(nil, nil)
			return true
		}
		return false
	}
	h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
		for _, k := range flagsWith(st, "d:") {
			w.settled(s, ret, inst, st, k[2:])
		}
		for _, t := range res {
			if flagOf(st, "stale:"+strconv.Itoa(t.strip().id)) != "" {
				s.violate(nwCache, ret, inst, st, "a node read from the store is handed out although another copy of it is in use")
			}
		}
	}
	s := newSim(p, h)
	s.limit = 80_000
	s.Run(fn)
	if s.over {
		s.violate(nwMark, fn.Blocks[0].Instrs[0], s.root, nil, "too many states to decide what is changed here")
	}
	return s
}

func typeShort(t types.Type) string {
	for t != nil {
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		t = pt.Elem()
	}
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

func numeric(s string) bool {
	for _, c := range s {
		if c < '0' || c > '9' {
			return false
		}
	}
	return s != ""
}

func note(m map[string]map[string]string, key, typ, where string) {
	if m[key] == nil {
		m[key] = map[string]string{}
	}
	m[key][typ] = where
}

func (w *nodeWrites) put(c *CallCtx) {
	s, st := c.S, c.St
	n := len(c.Args)
	key, val := concat(c.Args[n-2]), c.Args[n-1].strip()
	at := w.p.instrPos(c.Instr)
	var v *Term
	switch {
	case len(key) == 1 && key[0].t == nil:
		w.r.ok(nwKey, "put "+at)
		if val.k != TPure || val.op != "json" {
			s.violate(nwKey, c.Instr, c.Inst, st, "what is stored as "+key[0].s+" is not something serialised here")
			break
		}
		note(w.puts, key[0].s, typeShort(val.args[0].typ), at)
		if numeric(key[0].s) {
			s.violate(nwKey, c.Instr, c.Inst, st, "something is stored under "+key[0].s+", which is also the name of a node")
		}
	default:
		w.r.ok(nwPut, "stored "+at)
		if val.k != TPure || val.op != "json" || !isVertex(val.args[0].typ) {
			s.violate(nwPut, c.Instr, c.Inst, st, "what is stored under the name of a node is not a node serialised here")
			break
		}
		v = val.args[0]
		if len(key) != 1 || !isIDOfNode(s, st, key[0].t, v) {
			s.violate(nwPut, c.Instr, c.Inst, st, "a node is stored under a name that is not its own id")
		}
	}
	c.ErrFork(func(o *State) {
		if v != nil && flagOf(o, "mar:"+w.node(v)) != "" {
			setFlag(o, "put:"+w.node(v), "1")
		}
	}, nil)
}

func (w *nodeWrites) get(c *CallCtx) {
	s := c.S
	key := c.Args[len(c.Args)-1]
	ps := concat(key)
	at := w.p.instrPos(c.Instr)
	w.r.ok(nwKey, "get "+at)
	var tag *Term
	if len(ps) == 1 {
		if ps[0].t != nil {
			tag = s.T.mk(TPure, "at", nil, nil, nil, 0, nil, ps[0].t.strip())
			if k := ps[0].t.strip(); k.k == TParam && basicKindT(k.typ, types.String) {
				w.climb[s.root.fn] = true
			}
		} else {
			tag = s.T.mk(TPure, "at:"+ps[0].s, nil, nil, nil, 0, nil)
			if !numeric(ps[0].s) {
				note(w.gets, ps[0].s, "", at)
			}
		}
	}
	c.ErrFork(nil, nil)
	call, _ := c.Instr.(*ssa.Call)
	for _, o := range c.outs {
		res := c.Com.Signature().Results()
		for i := 0; i < res.Len(); i++ {
			if t := o.get(c.Inst, call, i); t != nil && isBytes(res.At(i).Type()) && tag != nil {
				s.setTag(o, t, tag)
			}
		}
	}
}

func (w *nodeWrites) decode(c *CallCtx) {
	s, st := c.S, c.St
	dst := c.Args[1].unbox().strip()
	g := s.tag(st, c.Args[0].strip())
	typ := typeShort(dst.typ)
	if g != nil && strings.HasPrefix(g.op, "at:") && !numeric(g.op[3:]) {
		note(w.gets, g.op[3:], typ, w.p.instrPos(c.Instr))
	}
	var tag *Term
	if typ == vertexType {
		w.r.ok(nwKey, "node read "+w.p.instrPos(c.Instr))
		switch {
		case g != nil && g.op == "at":
			tag = s.T.mk(TPure, "stored", nil, nil, nil, 0, nil, g.args[0])
		case g != nil && strings.HasPrefix(g.op, "at:") && numeric(g.op[3:]):
		default:
			s.violate(nwKey, c.Instr, c.Inst, st, "a node is read from something that is not stored under an id")
		}
	}
	c.ErrFork(func(o *State) {
		s.havoc(o, dst)
		if _, ok := deref(dst.typ).Underlying().(*types.Pointer); ok {
			x := s.freshVal(o, c.Inst, c.Instr, 9, deref(dst.typ))
			o.mem[dst] = x
			if tag != nil {
				s.setTag(o, x, tag)
			}
		} else if tag != nil {
			s.setTag(o, dst, tag)
		}
	}, func(o *State) { s.havoc(o, dst) })
}

// keys: what is read was written, as what it is read
func (w *nodeWrites) keys() {
	if len(w.puts) == 0 {
		w.r.anchor(nwKey, "what is stored beside the nodes")
	}
	for k, ts := range w.puts {
		if len(ts) > 1 {
			var all, at []string
			for t, x := range ts {
				all, at = append(all, t), append(at, x)
			}
			sort.Strings(all)
			sort.Strings(at)
			w.r.failf(nwKey, at[0], "", "two different things are stored as %q: %s", k, strings.Join(all, " and "))
		}
	}
	for k, ts := range w.gets {
		for t, at := range ts {
			switch {
			case len(w.puts[k]) == 0:
				w.r.failf(nwKey, at, "", "%q is read but never stored", k)
			case t != "" && w.puts[k][t] == "":
				w.r.failf(nwKey, at, "", "%q is read as a %s, which it is not stored as", k, t)
			}
		}
	}
	for k := range w.puts {
		if len(w.gets[k]) == 0 {
			for _, at := range w.puts[k] {
				w.r.failf(nwKey, at, "", "%q is stored but never read", k)
			}
		}
	}
}

// flush: every node in the cache is dealt with
func (w *nodeWrites) flush() {
	p, r := w.p, w.r
	n := 0
	for _, fn := range p.funcs {
		if !isPkg(fn, hnswPkg) || fn.Name() != "Flush" || fn.Parent() != nil || !recvIs(fn, indexType) {
			continue
		}
		n++
		puts := map[*ssa.Function]bool{}
		for _, f := range p.reach(fn) {
			puts[f] = usesStore(f)
		}
		sc := &scan{name: "node", isList: func(s *Sim, st *State, t *Term) bool {
			g := s.tag(st, t.strip())
			return g != nil && g.op == "allkeys"
		}}
		cached := func(s *Sim, st *State, t *Term) bool {
			_, root := rootFieldPath(t)
			if root == nil {
				return false
			}
			g := s.tag(st, root)
			return g != nil && g.op == "cached"
		}
		h := &Hooks{KeepLock: true}
		h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
		h.Inline = func(inst *Inst, f *ssa.Function) bool {
			if f.Parent() != nil || recvIs(f, vertexType) {
				return true
			}
			for _, g := range p.reach(f) {
				if changesNode(g) && usesStore(g) {
					return true
				}
			}
			return callsCache(f)
		}
		h.Load = func(s *Sim, inst *Inst, in *ssa.UnOp, st *State, loc, val *Term) { sc.load(s, st, loc) }
		h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, c *Term, truth bool) bool {
			sc.refine(s, st, c, truth)
			c, truth = cond(c, truth)
			if g := s.tag(st, c); g != nil && g.op == "gotkey" && !truth {
				sc.done(st)
			}
			if loadOfField(c, "Committed") && truth && cached(s, st, c) {
				sc.done(st)
			}
			if ta, ok := c.val.(*ssa.TypeAssert); ok && c.idx == 1 && !truth && ta.CommaOk {
				sc.done(st)
			}
			return true
		}
		h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
			if loc.k == TFieldAddr && loc.op == "Committed" && isVertex(loc.args[0].typ) && cached(s, st, loc) {
				if b, ok := val.boolVal(); ok && b {
					r.ok(nwFlush, "written "+p.instrPos(in))
					sc.done(st)
				}
			}
		}
		h.Call = func(c *CallCtx) bool {
			s, st := c.S, c.St
			call, _ := c.Instr.(*ssa.Call)
			if strings.HasPrefix(c.Name, "("+lruPkg) {
				res := c.FreshAll(st)
				c.Out(st, res...)
				switch {
				case strings.HasSuffix(c.Name, ".Keys"):
					sc.reset(st)
					s.setTag(st, res[0], s.T.mk(TPure, "allkeys", nil, nil, nil, 0, nil))
				case (strings.HasSuffix(c.Name, ".Get") || strings.HasSuffix(c.Name, ".Peek")) && call != nil:
					if l, _ := elemOf(c.Args[1].strip()); l != nil && sc.isList(s, st, l) {
						s.setTag(st, res[0], s.T.mk(TPure, "cached", nil, nil, nil, 0, nil))
						s.setTag(st, res[1], s.T.mk(TPure, "gotkey", nil, nil, nil, 0, nil))
					}
				}
				return true
			}
			if stdCall(c) {
				return true
			}
			if extErr(c) {
				c.ErrFork(nil, nil)
				return true
			}
			return false
		}
		h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
			if s.nilness(st, res[len(res)-1]) == 1 {
				return
			}
			r.ok(nwFlush, "end "+p.instrPos(ret))
			if why := sc.problem(s, st); why != "" {
				s.violate(nwFlush, ret, inst, st, "a flush may end without an error though a changed node was not written: "+why)
			}
		}
		s := newSim(p, h)
		s.Run(fn)
		r.take(s)
	}
	if n == 0 {
		r.anchor(nwFlush, "the flush of the index")
	}
}

func callsCache(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if n := calleeName(ci.Common()); strings.HasPrefix(n, "("+lruPkg) && (strings.HasSuffix(n, ".Get") || strings.HasSuffix(n, ".Peek") || strings.HasSuffix(n, ".Keys")) {
					return true
				}
			}
		}
	}
	return false
}

// cache: the cache of nodes does not drop changed ones
func (w *nodeWrites) cache() {
	n := 0
	for _, f := range w.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !isPkg(rootFn(f), hnswPkg) {
					continue
				}
				name := calleeName(ci.Common())
				if !strings.HasPrefix(name, lruPkg+".New") {
					continue
				}
				n++
				w.r.ok(nwCache, "made "+w.p.instrPos(in))
				args := ci.Common().Args
				if k, isNil := args[len(args)-1].(*ssa.Const); len(args) < 2 || isNil && k.Value == nil {
					w.r.fail(&Violation{Rule: nwCache, Where: w.p.instrPos(in), Func: shortFn(f), What: "the cache of nodes drops the least recently used one when it is full, written or not", Key: fmt.Sprintf("%s|a cache of %s nodes drops unwritten nodes", nwCache, capacity(args[0]))})
				}
			}
		}
	}
	if n == 0 {
		w.r.ok(nwCache, "no bounded cache")
	}
}

func capacity(v ssa.Value) string {
	if k, ok := v.(*ssa.Const); ok && k.Value != nil {
		return k.Value.ExactString()
	}
	return "some"
}

// namesThing: a helper that only works out a name
func namesThing(f *ssa.Function) bool {
	res := f.Signature.Results()
	return res.Len() == 1 && basicKind(res.At(0).Type(), types.String) && !hasLoop(f)
}
