package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const allowListType = "github.com/weaviate/weaviate/adapters/repos/db/helpers.AllowList"

// members follows which ids the queues and lists of a function can hold. An id has
// qualities: L it was seen to have no tombstone, A it was seen to pass the filter,
// I it came out of the queue the function was given.
type members struct {
	p     *Prog
	allow *Term
	level *Term
	input *Term
	terms map[int]*Term
	quals string // those that matter
	kinds map[int]*Term
	owner map[int]*Term // kinds that are the links of a node

	inserted func(c *CallCtx)
	appended func(c *CallCtx, q string) (string, *Term)
	copied   func(c *CallCtx)
}

func isAllowList(t types.Type) bool { return typeName(t) == allowListType }
func isQueue(t types.Type) bool {
	n := typeName(t)
	return n == pqPkg+".Queue" || n == pqPkg+".QueueWithIndex"
}
func isIDs(t types.Type) bool {
	if t == nil {
		return false
	}
	sl, ok := t.Underlying().(*types.Slice)
	return ok && basicKind(sl.Elem(), types.Uint64)
}

const vertexType = hnswPkg + ".vertex"

// searchSig: a search with a filter; what it finds is its first result
func searchSig(sig *types.Signature) bool {
	res := sig.Results()
	allow, vec := false, false
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		allow = allow || isAllowList(t)
		if sl, ok := t.Underlying().(*types.Slice); ok {
			vec = vec || basicKind(sl.Elem(), types.Float32)
		}
	}
	if !allow || !vec || res.Len() < 2 || !isErr(res.At(res.Len()-1).Type()) {
		return false
	}
	return isIDs(res.At(0).Type()) || isQueue(res.At(0).Type())
}

// narrowSig: reduces the queue it is given to a number of entries
func narrowSig(sig *types.Signature) bool {
	q, n := false, false
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		q = q || typeName(t) == pqPkg+".Queue"
		n = n || basicKind(t, types.Int)
	}
	return q && n && sig.Results().Len() == 1 && isErr(sig.Results().At(0).Type())
}

// nodeSig: gives the node of an id
func nodeSig(sig *types.Signature) bool {
	return sig.Params().Len() == 1 && basicKind(sig.Params().At(0).Type(), types.Uint64) && sig.Results().Len() == 2 &&
		typeName(sig.Results().At(0).Type()) == vertexType && isErr(sig.Results().At(1).Type())
}

func recvIs(fn *ssa.Function, name string) bool {
	return fn.Signature.Recv() != nil && typeName(fn.Signature.Recv().Type()) == name
}

// levelParam: the layer is the int parameter some caller gives as 0
func levelParam(p *Prog, fn *ssa.Function) *ssa.Parameter {
	var cand *ssa.Parameter
	for i, q := range fn.Params {
		if !basicKind(q.Type(), types.Int) {
			continue
		}
		if strings.Contains(strings.ToLower(q.Name()), "level") || strings.Contains(strings.ToLower(q.Name()), "layer") {
			return q
		}
		for _, c := range p.callSites(fn) {
			if k, ok := c.Common().Args[i].(*ssa.Const); ok && k.Value != nil && k.Int64() == 0 {
				cand = q
			}
		}
	}
	return cand
}

func idsTag(s *Sim, q string) *Term { return s.T.mk(TPure, "ids:"+q, nil, nil, nil, 0, nil) }

func meet(a, b string) string {
	out := ""
	for _, x := range a {
		if strings.ContainsRune(b, x) {
			out += string(x)
		}
	}
	return out
}

// lacks: the qualities some member of a queue or list lacks
// leave: what was noted of things made in a call goes with it
func (m *members) leave(callee *Inst, st *State, res []*Term) {
	kept := map[*Term]bool{}
	for _, t := range res {
		if t != nil {
			kept[t], kept[t.strip()] = true, true
		}
	}
	if callee.parent == nil {
		return
	}
	setFlag(st, fmt.Sprintf("cap:%d", callee.id), "")
	for _, p := range []string{"lack:", "used:", "m:", "fill:", "z:", "new:"} {
		for _, k := range flagsWith(st, p) {
			var n int
			fmt.Sscanf(k[len(p):], "%d", &n)
			t := m.terms[n]
			gone := t == nil && p == "z:"
			if t != nil && !kept[t] {
				for i := t.inst; i != nil; i = i.parent {
					gone = gone || i == callee
				}
			}
			if gone {
				setFlag(st, k, "")
			}
		}
	}
}

func (m *members) key(p string, t *Term) string {
	if m.terms == nil {
		m.terms = map[int]*Term{}
	}
	m.terms[t.id] = t
	return fmt.Sprintf("%s:%d", p, t.id)
}

func lacks(st *State, c *Term) string { return flagOf(st, fmt.Sprintf("lack:%d", c.id)) }

func (m *members) addLack(st *State, c *Term, have string) {
	l := lacks(st, c)
	for _, x := range m.quals {
		if !strings.ContainsRune(have, x) && !strings.ContainsRune(l, x) {
			l += string(x)
		}
	}
	b := []byte(l)
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	setFlag(st, m.key("lack", c), string(b))
}

func (m *members) minus(l string) string {
	out := ""
	for _, x := range m.quals {
		if !strings.ContainsRune(l, x) {
			out += string(x)
		}
	}
	return out
}

func (m *members) allQueue(s *Sim, st *State, q *Term) string {
	if m.input != nil && q == m.input {
		return meet(m.minus(lacks(st, q)), "I")
	}
	g := s.tag(st, q)
	switch {
	case g != nil && g.op == "queue":
		return m.minus(lacks(st, q))
	case g != nil && strings.HasPrefix(g.op, "found:"):
		return meet(m.minus(lacks(st, q)), g.op[6:])
	}
	return ""
}

func (m *members) list(s *Sim, st *State, x *Term) string {
	x = x.strip()
	if x.k == TSlice {
		return m.list(s, st, x.args[0])
	}
	g := s.tag(st, x)
	if g != nil && strings.HasPrefix(g.op, "ids:") {
		return meet(g.op[4:], m.minus(lacks(st, x)))
	}
	return ""
}

// of: the qualities of an id or of an item that has one
func (m *members) of(s *Sim, st *State, id *Term) string {
	id = id.strip()
	out := ""
	if st.mem[ghostCell(s, "live", id)] != nil {
		out += "L"
	} else if s.truth(st, s.T.mk(TPure, "tombstone", nil, nil, nil, 0, types.Typ[types.Bool], id)) == -1 {
		out += "L"
	}
	if m.allowed(s, st, id) {
		out += "A"
	}
	add := func(q string) {
		for _, x := range q {
			if !strings.ContainsRune(out, x) {
				out += string(x)
			}
		}
	}
	if id.k == TStruct {
		if i, _, ok := itemFields(id.typ); ok && id.args[i] != nil {
			add(m.of(s, st, id.args[i]))
		}
	}
	x := id
	if y := idPart(id); y != nil {
		x = y
	}
	if g := s.tag(st, x); g != nil && g.op == "popped" {
		add(m.allQueue(s, st, g.args[0]))
	}
	if l, _ := elemOf(x); l != nil {
		add(m.list(s, st, l))
	}
	if g := s.tag(st, x); g != nil && strings.HasPrefix(g.op, "id:") {
		add(g.op[3:])
	}
	return out
}

func (m *members) allowed(s *Sim, st *State, id *Term) bool {
	if m.allow == nil || s.nilness(st, m.allow) == -1 {
		return true
	}
	if m.level != nil && s.truth(st, s.T.bin(tokEQL, m.level, s.T.intConst(0), nil)) == -1 {
		return true
	}
	if g := s.tag(st, id); g != nil && g.op == "listed" && g.args[0] == m.allow {
		return true
	}
	return s.truth(st, s.T.mk(TPure, "contains", nil, nil, nil, 0, types.Typ[types.Bool], m.allow, id)) == 1
}

func (m *members) split(s *Sim, st *State) {
	if m.allow != nil {
		setFlag(st, "allow", fmt.Sprint(s.nilness(st, m.allow)))
	}
	if m.level != nil {
		t := s.truth(st, s.T.bin(tokEQL, m.level, s.T.intConst(0), nil))
		if s.truth(st, s.T.bin(tokLSS, s.T.intConst(0), m.level, nil)) == 1 || s.truth(st, s.T.bin(tokLSS, m.level, s.T.intConst(1), nil)) == -1 {
			t = -1
			st.facts[s.T.bin(tokEQL, m.level, s.T.intConst(0), nil)] = Fact{truth: -1}
		}
		setFlag(st, "level", fmt.Sprint(t))
	}
}

// hooks: the model shared by the analyses of this property
func (m *members) hooks() *Hooks {
	h := &Hooks{KeepLock: true}
	h.Init = func(s *Sim, st *State, root *Inst) {
		st.A = sig{}
		m.allow, m.level, m.input = nil, nil, nil
		for _, q := range root.fn.Params {
			if isAllowList(q.Type()) && searchSig(root.fn.Signature) {
				m.allow = st.get(root, q, -1)
			}
			if narrowSig(root.fn.Signature) && typeName(q.Type()) == pqPkg+".Queue" {
				m.input = st.get(root, q, -1)
			}
		}
		if q := levelParam(m.p, root.fn); q != nil && searchSig(root.fn.Signature) && isQueue(root.fn.Signature.Results().At(0).Type()) {
			m.level = st.get(root, q, -1)
		}
	}
	h.Inline = func(inst *Inst, fn *ssa.Function) bool {
		return fn.Pkg == nil || fn.Pkg.Pkg.Path() != pqPkg
	}
	h.Tag = func(s *Sim, st *State, t *Term) *Term {
		if t.isNilConst() || t.k == TMake && t.typ != nil && isSlice(t.typ) {
			return idsTag(s, m.quals)
		}
		return nil
	}
	h.Instr = func(s *Sim, inst *Inst, in ssa.Instruction, st *State) {
		if l, ok := in.(*ssa.Lookup); ok && l.CommaOk && loadOfField(s.val(st, inst, l.X), "tombstones") {
			st.mem[lookupKey(s, l, inst)] = s.val(st, inst, l.Index).strip()
		}
	}
	h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, c *Term, truth bool) bool {
		c, truth = cond(c, truth)
		if l, ok := c.val.(*ssa.Lookup); ok && c.k == TCall && c.idx == 1 && !truth {
			if id := st.mem[lookupKey(s, l, c.inst)]; id != nil {
				st.mem[ghostCell(s, "live", id)] = s.T.boolConst(true)
			}
		}
		m.split(s, st)
		if c.k != TBin || !c.args[0].isNilConst() && !c.args[1].isNilConst() {
			for _, k := range flagsWith(st, "b:") {
				setFlag(st, k, "")
			}
		}
		return true
	}
	// a condition put together of several keeps what each of them said until it is asked
	h.Edge = func(s *Sim, inst *Inst, from, to *ssa.BasicBlock, back bool, st *State) {
		if ph, ok := to.Instrs[0].(*ssa.Phi); ok && isBool(ph.Type()) {
			for i, q := range to.Preds {
				if q == from {
					setFlag(st, fmt.Sprintf("b:%d:%d", inst.id, to.Index), fmt.Sprint(i))
				}
			}
		}
	}
	h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
		m.store(s, st, loc, val)
	}
	h.Call = func(c *CallCtx) bool { return m.call(c) }
	h.CallReturn = func(s *Sim, callee *Inst, ret *ssa.Return, st *State, res []*Term) { m.leave(callee, st, res) }
	return h
}

func lookupKey(s *Sim, l *ssa.Lookup, i *Inst) *Term {
	return ghostCell(s, fmt.Sprintf("key%p/%d", l, i.id))
}

// store: an id, or an item with an id, is put into a list
func (m *members) store(s *Sim, st *State, loc, val *Term) {
	l := loc
	if l.k == TFieldAddr {
		l = l.args[0]
	}
	if l.k != TIndexAddr || val.typ == nil {
		return
	}
	_, _, item := itemFields(val.typ)
	if !basicKind(val.typ, types.Uint64) && !item {
		return
	}
	if l.k == TIndexAddr && deref(l.args[0].typ) != nil {
		if _, arr := deref(l.args[0].typ).Underlying().(*types.Array); arr {
			return // settled by the append it is for
		}
	}
	b := l.args[0].strip()
	for b.k == TSlice {
		b = b.args[0].strip()
	}
	m.addLack(st, b, m.of(s, st, val))
}

func (m *members) call(c *CallCtx) bool {
	s, st, p := c.S, c.St, m.p
	call, _ := c.Instr.(*ssa.Call)
	if op := queueOp(c.Name); op != "" {
		q := c.Args[0]
		cell := ghostCell(s, "qlen", q)
		old := st.mem[cell]
		switch op {
		case "Insert":
			m.addLack(st, q, m.of(s, st, c.Args[1]))
			if old != nil {
				st.mem[cell] = s.T.bin(tokADD, old, s.T.intConst(1), types.Typ[types.Int])
			}
			m.joins(s, st, q, c.Args[1])
			delete(st.mem, ghostCell(s, "bound", q))
			if m.inserted != nil {
				m.inserted(c)
			}
		case "Len":
			if old == nil {
				old = s.fresh(st, c.Inst, c.Instr, 0)
				st.mem[cell] = old
			}
			c.Out(st, old)
			return true
		case "Pop":
			if old != nil {
				st.mem[cell] = s.T.bin(tokSUB, old, s.T.intConst(1), types.Typ[types.Int])
			}
			c.Out(st, c.FreshAll(st)...)
			if t := st.get(c.Inst, call, -1); t != nil {
				s.setTag(st, t, s.T.mk(TPure, "popped", nil, nil, nil, 0, nil, q))
				if m.kinds != nil {
					setFlag(st, m.key("used", q), "")
				}
			}
			return true
		case "Top", "Cap":
			c.Out(st, c.FreshAll(st)...)
			if t := st.get(c.Inst, call, -1); t != nil && op == "Top" {
				s.setTag(st, t, s.T.mk(TPure, "popped", nil, nil, nil, 0, nil, q))
				if m.kinds != nil {
					setFlag(st, m.key("used", q), "1")
				}
			}
			return true
		case "Reset":
			for _, k := range flagsWith(st, fmt.Sprintf("m:%d:", q.id)) {
				setFlag(st, k, "")
			}
			setFlag(st, fmt.Sprintf("lack:%d", q.id), "")
			st.mem[cell] = s.T.intConst(0)
		default:
			delete(st.mem, cell)
		}
		c.Out(st, c.FreshAll(st)...)
		return true
	}
	if f := c.Com.StaticCallee(); f != nil && f.Signature.Results().Len() == 1 && isQueue(f.Signature.Results().At(0).Type()) && (!p.inRepo[f] || f.Pkg != nil && f.Pkg.Pkg.Path() == pqPkg || recvPool(p, f)) {
		c.Out(st, c.FreshAll(st)...)
		t := st.get(c.Inst, call, -1)
		s.setNil(st, t, 1)
		s.setTag(st, t, s.T.mk(TPure, "queue", nil, nil, nil, 0, nil))
		setFlag(st, fmt.Sprintf("lack:%d", t.id), "")
		for _, k := range flagsWith(st, fmt.Sprintf("m:%d:", t.id)) {
			setFlag(st, k, "")
		}
		st.mem[ghostCell(s, "qlen", t)] = s.T.intConst(0)
		return true
	}
	if f := c.Com.StaticCallee(); f != nil && tellsTombstone(f) {
		c.Out(st, s.T.mk(TPure, "tombstone", nil, nil, nil, 0, types.Typ[types.Bool], c.Args[len(c.Args)-1].strip()))
		return true
	}
	switch {
	case strings.HasSuffix(c.Name, "helpers.AllowList).Contains") || strings.HasSuffix(c.Name, "helpers.AllowList.Contains"):
		c.Out(st, s.T.mk(TPure, "contains", nil, nil, nil, 0, types.Typ[types.Bool], c.Args[0], c.Args[1].strip()))
		return true
	case strings.HasSuffix(c.Name, "AllowList.Iterator") || strings.HasSuffix(c.Name, "AllowList).Iterator"):
		c.Out(st, c.FreshAll(st)...)
		s.setTag(st, st.get(c.Inst, call, -1), s.T.mk(TPure, "listed", nil, nil, nil, 0, nil, c.Args[0]))
		return true
	case strings.HasSuffix(c.Name, "Iterator.Next") || strings.HasSuffix(c.Name, "Iterator).Next"):
		g := s.tag(st, c.Args[0])
		res := c.FreshAll(st)
		c.Out(st, res...)
		if g != nil && g.op == "listed" {
			s.setTag(st, res[0], g)
		}
		return true
	case c.Name == "builtin:append" && len(c.Args) > 1 && c.Args[0].typ != nil || c.Name == "builtin:append" && len(c.Args) > 1:
		q := m.list(s, st, c.Args[0])
		if vs, ok := s.Varargs(st, c.Args[1]); ok {
			for _, v := range vs {
				q = meet(q, m.of(s, st, v))
			}
		} else {
			q = meet(q, m.list(s, st, c.Args[1]))
		}
		var mark *Term
		if m.appended != nil {
			q, mark = m.appended(c, q)
		}
		s.builtin(c)
		for _, o := range c.outs {
			t := o.get(c.Inst, call, -1)
			if t == nil {
				continue
			}
			setFlag(o, fmt.Sprintf("lack:%d", t.id), "")
			s.setTag(o, t, idsTag(s, meet(m.quals, q)))
			if mark != nil {
				s.setTag(o, t, mark)
			}
		}
		return true
	case c.Name == "builtin:copy":
		if m.copied != nil {
			m.copied(c)
		}
		if isIDs(c.Args[0].typ) {
			b := c.Args[0].strip()
			for b.k == TSlice {
				b = b.args[0].strip()
			}
			m.addLack(st, b, m.list(s, st, c.Args[1]))
		}
		return false
	}
	if f := c.Com.StaticCallee(); f != nil && p.inRepo[f] && f != s.root.fn {
		sg := f.Signature
		off := len(c.Args) - sg.Params().Len()
		switch {
		case searchSig(sg) && isPkg(f, hnswPkg):
			q := "L"
			for i := 0; i < sg.Params().Len(); i++ {
				if isAllowList(sg.Params().At(i).Type()) {
					a := c.Args[off+i]
					if m.allow == nil || a == m.allow || s.nilness(st, m.allow) == -1 {
						q = "LA"
					}
				}
			}
			if isQueue(sg.Results().At(0).Type()) {
				if lp := levelParam(p, f); lp == nil {
					q = "L"
				} else {
					for i, x := range f.Params {
						if n, ok := c.Args[i].int64(); x == lp && (!ok || n != 0) {
							q = meet(q, "L")
						}
					}
				}
			}
			forkErr(c, nil, nil)
			for _, o := range c.outs {
				t := o.get(c.Inst, call, 0)
				if t == nil {
					continue
				}
				setFlag(o, fmt.Sprintf("lack:%d", t.id), "")
				if isIDs(sg.Results().At(0).Type()) {
					s.setTag(o, t, idsTag(s, meet(m.quals, q)))
				} else {
					s.setTag(o, t, s.T.mk(TPure, "found:"+q, nil, nil, nil, 0, nil))
					for _, k := range flagsWith(o, fmt.Sprintf("m:%d:", t.id)) {
						setFlag(o, k, "")
					}
					if m.kinds != nil {
						setFlag(o, m.key("m", t)+":any", "1")
					}
				}
			}
			return true
		case nodeSig(sg):
			forkErr(c, nil, nil)
			for _, o := range c.outs {
				if t := o.get(c.Inst, call, 0); t != nil {
					s.setTag(o, t, s.T.mk(TPure, "loaded", nil, nil, nil, 0, nil, c.Args[off].strip()))
				}
			}
			return true
		case narrowSig(sg):
			var q, n *Term
			for i := 0; i < sg.Params().Len(); i++ {
				if typeName(sg.Params().At(i).Type()) == pqPkg+".Queue" {
					q = c.Args[off+i]
				} else if basicKind(sg.Params().At(i).Type(), types.Int) {
					n = c.Args[off+i]
				}
			}
			forkErr(c, nil, nil)
			for _, o := range c.outs {
				delete(o.mem, ghostCell(s, "qlen", q))
				o.mem[ghostCell(s, "bound", q)] = n
			}
			return true
		case distFn(sg) >= 0:
			forkErr(c, nil, nil)
			return true
		}
	}
	if stdCall(c) {
		return true
	}
	if extErr(c) {
		forkErr(c, nil, nil)
		return true
	}
	return false
}

func isPkg(f *ssa.Function, path string) bool { return f.Pkg != nil && f.Pkg.Pkg.Path() == path }

// recvPool: a queue out of a pool
func recvPool(p *Prog, f *ssa.Function) bool {
	get := false
	for _, g := range p.reach(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					n := calleeName(ci.Common())
					if queueOp(n) == "Insert" {
						return false
					}
					get = get || strings.HasSuffix(n, "sync.Pool).Get")
				}
			}
		}
	}
	return get
}

func fieldByName(t types.Type, name string) (*types.Var, int) {
	if t == nil {
		return nil, 0
	}
	sty := structOf(deref(t))
	if sty == nil {
		return nil, 0
	}
	for i := 0; i < sty.NumFields(); i++ {
		if sty.Field(i).Name() == name {
			return sty.Field(i), i
		}
	}
	return nil, 0
}

// joins: notes what an id put into a queue is, for what is later known of all of them
func (m *members) joins(s *Sim, st *State, q, id *Term) {
	id = id.strip()
	if m.kinds == nil {
		return
	}
	if l, _ := elemOf(id); l != nil {
		for l.strip().k == TSlice {
			l = l.strip().args[0]
		}
		if g := s.tag(st, l.strip()); g != nil && g.op == "links" {
			v := g.args[0]
			m.owner[v.id] = v
			setFlag(st, m.key("m", q)+fmt.Sprintf(":o%d", v.id), "1")
			return
		}
	}
	m.kinds[id.id] = id
	setFlag(st, m.key("m", q)+fmt.Sprintf(":k%d", id.id), "1")
}

func c13Search(p *Prog, r *Report) {
	const rule = "results"
	r.rule(rule, "everything a search returns was seen to have no tombstone and, in the layer of the answer, to pass the filter of the search; a search that hands on to another one gives it its own filter")
	r.need(rule, 5)
	n := 0
	for _, fn := range p.funcs {
		if !isPkg(fn, hnswPkg) || !searchSig(fn.Signature) || fn.Parent() != nil {
			continue
		}
		n++
		m := &members{p: p, quals: "LA"}
		h := m.hooks()
		h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
			if s.nilness(st, res[len(res)-1]) == 1 {
				return
			}
			r.ok(rule, fn.Name()+" "+p.instrPos(ret))
			q := ""
			if res[0].isNilConst() {
				return
			}
			if isQueue(fn.Signature.Results().At(0).Type()) {
				q = m.allQueue(s, st, res[0])
			} else {
				q = m.list(s, st, res[0])
			}
			if !strings.Contains(q, "L") {
				s.violate(rule, ret, inst, st, "an id with a tombstone may be among the results")
			}
			if !strings.Contains(q, "A") {
				s.violate(rule, ret, inst, st, "an id outside the filter may be among the results")
			}
		}
		s := newSim(p, h)
		s.Run(fn)
		r.take(s)
	}
	if n < 3 {
		r.anchor(rule, "the searches of the index")
	}
}

func init() {
	register("C13", func(p *Prog, r *Report) {
		r.explain = "value-flow analysis of ids: what is known (no tombstone, in the filter, different from the node itself) of every id that is put into a queue or list whose members are returned by a search or become links, with the sizes of link lists bounded by the layer's maximum"
		c13Search(p, r)
		c13Narrow(p, r)
		c13Links(p, r)
		c13Maximum(p, r)
		c13Tombstones(p, r)
	})
}

// c13Narrow: what reduces a queue leaves at most as many entries as it was told, all of them from the queue
func c13Narrow(p *Prog, r *Report) {
	const rule = "narrowed"
	r.rule(rule, "the selection of neighbours leaves at most as many as it was told, and only ones it was given")
	r.need(rule, 2)
	n := 0
	for _, fn := range p.funcs {
		if !isPkg(fn, hnswPkg) || !narrowSig(fn.Signature) || fn.Parent() != nil {
			continue
		}
		n++
		m := &members{p: p, quals: "BI"}
		h := m.hooks()
		var max *Term
		init := h.Init
		h.Init = func(s *Sim, st *State, root *Inst) {
			init(s, st, root)
			max = st.get(root, paramOfType(fn, func(t types.Type) bool { return basicKind(t, types.Int) }), -1)
		}
		h.Tag = func(s *Sim, st *State, t *Term) *Term {
			switch {
			case t.isNilConst(), t.k == TMake && t.typ != nil && isSlice(t.typ) && s.zeroLen(st, t):
				return idsTag(s, "BI")
			case t.k == TMake && t.typ != nil && isSlice(t.typ):
				return idsTag(s, "I")
			case t.k == TAssert && t.typ != nil && isSlice(t.typ):
				if x := t.args[0].unbox(); x.k == TCall {
					if call, ok := x.val.(*ssa.Call); ok && call.Call.StaticCallee() != nil && call.Call.StaticCallee().String() == "(*sync.Pool).Get" {
						return idsTag(s, "BI") // handed back empty: settled where it is put back
					}
				}
			}
			return nil
		}
		m.appended = func(c *CallCtx, q string) (string, *Term) {
			s := c.S
			q = meet(q, "I")
			if vs, ok := s.Varargs(c.St, c.Args[1]); ok && len(vs) == 1 && s.leq(c.St, s.T.bin(tokADD, s.lenOf(c.St, c.Args[0]), s.T.intConst(1), types.Typ[types.Int]), max) {
				q += "B"
			}
			b := []byte(q)
			sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
			return string(b), nil
		}
		m.inserted = func(c *CallCtx) {
			s, st := c.S, c.St
			if c.Args[0] != m.input {
				return
			}
			r.ok(rule, "kept "+p.instrPos(c.Instr))
			over := func(why string) { setFlag(st, "over", why) }
			x := c.Args[1].strip()
			if y := idPart(x); y != nil {
				x = y
			}
			l, _ := elemOf(x)
			switch {
			case flagOf(st, "once") != "":
				over("one neighbour is put back more than once")
			case l == nil || !strings.Contains(m.list(s, st, l), "B"):
				over("what is put back is not counted against the maximum")
			case flagOf(st, "filled") == "" && flagOf(st, "empty") == "":
				over("neighbours are put back into a queue that may not be empty")
			case flagOf(st, "filled") != "" && flagOf(st, "filled") != fmt.Sprint(l.strip().id):
				over("neighbours of two lists are put back")
			default:
				setFlag(st, "filled", fmt.Sprint(l.strip().id))
			}
			setFlag(st, "once", "1")
		}
		ref := h.Refine
		h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, c *Term, truth bool) bool {
			if !ref(s, inst, in, st, c, truth) {
				return false
			}
			if l := st.mem[ghostCell(s, "qlen", m.input)]; l != nil && flagOf(st, "filled") == "" && (s.zeroInt(st, l) || s.truth(st, s.T.bin(tokLSS, s.T.intConst(0), l, nil)) == -1 || s.leq(st, l, s.T.intConst(0))) {
				setFlag(st, "empty", "1")
			}
			return true
		}
		h.BackEdge = func(s *Sim, inst *Inst, st *State) { setFlag(st, "once", "") }
		call := h.Call
		h.Call = func(c *CallCtx) bool {
			if c.Name == "(sync.Pool).Put" || c.Name == "(*sync.Pool).Put" {
				if x := c.Args[1].unbox(); x.typ != nil && isSlice(x.typ) {
					r.ok(rule, "handed back "+p.instrPos(c.Instr))
					if !c.S.zeroLen(c.St, x) {
						c.S.violate(rule, c.Instr, c.Inst, c.St, "a list that may not be empty is handed back to the pool it is later taken from as empty")
					}
				}
			}
			return call(c)
		}
		h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
			if s.nilness(st, res[0]) == 1 {
				return
			}
			r.ok(rule, fn.Name()+" "+p.instrPos(ret))
			if strings.Contains(lacks(st, m.input), "I") {
				s.violate(rule, ret, inst, st, "an id may be put into the queue that was not in it")
			}
			if o := flagOf(st, "over"); o != "" {
				s.violate(rule, ret, inst, st, o)
				return
			}
			if flagOf(st, "filled") != "" || flagOf(st, "empty") != "" {
				return
			}
			if l := st.mem[ghostCell(s, "qlen", m.input)]; l == nil || !s.leq(st, l, max) {
				s.violate(rule, ret, inst, st, "more neighbours than the maximum may be left")
			}
		}
		s := newSim(p, h)
		s.Run(fn)
		r.take(s)
	}
	if n == 0 {
		r.anchor(rule, "the selection of neighbours")
	}
}

// writesLinks: stores into the links of a node, itself
func writesLinks(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			a := st.Addr
			if ia, ok := a.(*ssa.IndexAddr); ok {
				if u, ok := ia.X.(*ssa.UnOp); ok {
					a = u.X
				}
			}
			if fa, ok := a.(*ssa.FieldAddr); ok && typeName(fa.X.Type()) == vertexType && fieldVar(fa.X.Type(), fa.Field).Name() == "Connections" {
				return true
			}
		}
	}
	return false
}

func c13Links(p *Prog, r *Report) {
	const rule = "links"
	r.rule(rule, "a node gets only links to other nodes, a node being inserted or reconnected only to ones seen to have no tombstone, and never more than its layer's maximum")
	r.need(rule, 5)
	var roots []*ssa.Function
	for _, n := range []string{"Add", "CleanUpTombstonedNodes", "Delete"} {
		if f := mustFn(p, r, rule, "pkg/hnsw.(*hnsw)."+n); f != nil {
			roots = append(roots, f)
		}
	}
	reach := p.reach(roots...)
	direct := map[*ssa.Function]bool{}
	for _, f := range reach {
		if writesLinks(f) {
			direct[f] = true
		}
	}
	var todo []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		for f.Parent() != nil {
			f = f.Parent()
		}
		if !seen[f] && !recvIs(f, vertexType) {
			seen[f] = true
			todo = append(todo, f)
		}
	}
	for _, f := range reach {
		if direct[f] && !recvIs(f, vertexType) {
			add(f)
		}
		if !recvIs(f, vertexType) {
			for _, g := range p.callees(f) {
				if direct[g] && recvIs(g, vertexType) {
					add(f)
				}
			}
		}
	}
	if len(todo) < 2 {
		r.anchor(rule, "the functions that set links")
		return
	}
	// callees first; what is settled in itself is not followed into again
	rank := map[*ssa.Function]int{}
	in := map[*ssa.Function]bool{}
	for _, f := range todo {
		in[f] = true
	}
	for _, f := range todo {
		for _, g := range p.reach(f) {
			if in[g] && g != f {
				rank[f]++
			}
		}
	}
	sort.SliceStable(todo, func(i, j int) bool { return rank[todo[i]] < rank[todo[j]] })
	open := map[*ssa.Function]bool{}
	for f := range direct {
		open[f] = recvIs(f, vertexType)
	}
	// assumed: functions settled for ids given that are not the node's own; checked where they are called
	assumed := map[*ssa.Function]bool{}
	run := func(f *ssa.Function) *Sim {
		ws := map[*ssa.Function]bool{}
		for f := range open {
			ws[f] = open[f]
		}
		for more := true; more; {
			more = false
			for _, g := range reach {
				if ws[g] || in[g] {
					continue
				}
				for _, x := range p.callees(g) {
					if ws[x] && !assumed[x] {
						ws[g], more = true, true
						break
					}
				}
			}
		}
		return c13Link(p, r, rule, f, ws, assumed)
	}
	callers := func(f *ssa.Function) []*ssa.Function {
		cs := map[*ssa.Function]bool{}
		for _, c := range p.callSites(f) {
			g := c.Parent()
			for g.Parent() != nil {
				g = g.Parent()
			}
			cs[g] = true
		}
		var out []*ssa.Function
		for _, g := range p.funcs {
			if cs[g] {
				out = append(out, g)
			}
		}
		return out
	}
	// in a function itself, or else in everything that calls it
	var settle func(f *ssa.Function, s *Sim, depth int) []*Sim
	settle = func(f *ssa.Function, s *Sim, depth int) []*Sim {
		cs := callers(f)
		if len(s.viol) == 0 {
			return nil
		}
		if depth == 0 || len(cs) == 0 {
			return []*Sim{s}
		}
		for i := 0; i < f.Signature.Params().Len(); i++ {
			assumed[f] = assumed[f] || basicKind(f.Signature.Params().At(i).Type(), types.Uint64)
		}
		if assumed[f] {
			if s = run(f); len(s.viol) == 0 {
				var out []*Sim
				for _, g := range cs {
					if !in[g] || rank[g] < rank[f] {
						out = append(out, settle(g, run(g), depth-1)...)
					}
				}
				return out
			}
		}
		assumed[f] = false
		open[f] = true
		var out []*Sim
		for _, g := range cs {
			t := run(g)
			if t.over {
				return []*Sim{s}
			}
			out = append(out, settle(g, t, depth-1)...)
		}
		return out
	}
	for _, f := range todo {
		for _, s := range settle(f, run(f), 2) {
			r.take(s)
		}
	}
}

func sameNode(a, b *Term) bool {
	if a == b {
		return true
	}
	pa, ra := rootFieldPath(a)
	pb, rb := rootFieldPath(b)
	return ra != nil && ra == rb && strings.Join(pa, ".") == strings.Join(pb, ".")
}

func isVertex(t types.Type) bool { return t != nil && typeName(t) == vertexType }

func c13Link(p *Prog, r *Report, rule string, fn *ssa.Function, writers, assumed map[*ssa.Function]bool) *Sim {
	m := &members{p: p, quals: "BLNZ", kinds: map[int]*Term{}, owner: map[int]*Term{}}
	h := m.hooks()
	h.Inline = func(inst *Inst, f *ssa.Function) bool {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == pqPkg {
			return false
		}
		if assumed[f] {
			return false
		}
		if writers[f] || f.Parent() != nil {
			return true
		}
		res := f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if t := res.At(i).Type(); isIDs(t) || isQueue(t) {
				return true
			}
		}
		return res.Len() > 0 && errResult(f.Signature) < 0 && !hasLoop(f)
	}
	h.Tag = func(s *Sim, st *State, t *Term) *Term {
		if t.isNilConst() || t.k == TMake && t.typ != nil && isIDs(t.typ) && s.zeroLen(st, t) {
			return idsTag(s, "BLNZ")
		}
		return nil
	}
	fresh := func(s *Sim, st *State, v *Term) bool { g := s.tag(st, v); return g == nil || g.op != "loaded" }
	// ownID: the id of a node that was not loaded, the one being inserted
	ownID := func(s *Sim, st *State, t *Term) *Term {
		if g := s.tag(st, t.strip()); g != nil && g.op == "idof" && fresh(s, st, g.args[0]) {
			return g.args[0]
		}
		return nil
	}
	notOwn := func(s *Sim, st *State, id *Term) bool {
		id = id.strip()
		for t, f := range st.facts {
			if t.k == TBin && t.op == "==" && f.truth == -1 {
				if t.args[0].strip() == id && ownID(s, st, t.args[1]) != nil || t.args[1].strip() == id && ownID(s, st, t.args[0]) != nil {
					return true
				}
			}
		}
		return strings.Contains(m.of(s, st, id), "N")
	}
	idOf := func(s *Sim, st *State, v *Term) *Term {
		if g := s.tag(st, v); g != nil && g.op == "loaded" {
			return g.args[0]
		}
		return nil
	}
	isIDOf := func(s *Sim, st *State, t, v *Term) bool {
		t = t.strip()
		if t == idOf(s, st, v) {
			return true
		}
		g := s.tag(st, t)
		return g != nil && g.op == "idof" && sameNode(g.args[0], v)
	}
	// differs: id is not the id of node v
	differs := func(s *Sim, st *State, id, v *Term) bool {
		id = id.strip()
		if fresh(s, st, v) && notOwn(s, st, id) {
			return true
		}
		if vid := idOf(s, st, v); vid != nil && ownID(s, st, id) != nil && notOwn(s, st, vid) {
			return true
		}
		for t, f := range st.facts {
			if t.k == TBin && t.op == "==" && f.truth == -1 {
				if t.args[0].strip() == id && isIDOf(s, st, t.args[1], v) || t.args[1].strip() == id && isIDOf(s, st, t.args[0], v) {
					return true
				}
			}
		}
		return false
	}
	// within: n is at most the maximum of the layer
	within := func(s *Sim, st *State, n, level *Term) bool {
		if n == nil {
			return false
		}
		if loadOfField(n, "maximumConnections") {
			return true
		}
		return loadOfField(n, "maximumConnectionsLayerZero") && level != nil && s.truth(st, s.T.bin(tokEQL, level, s.T.intConst(0), nil)) == 1
	}
	popOf := func(s *Sim, st *State, id *Term) *Term {
		x := id.strip()
		if y := idPart(x); y != nil {
			x = y
		}
		if g := s.tag(st, x); g != nil && g.op == "popped" && flagOf(st, m.key("used", g.args[0])) == "" {
			return g.args[0]
		}
		return nil
	}
	conns := func(s *Sim, st *State, x *Term) *Term { // x is the list of lists of a node
		x = x.strip()
		if g := s.tag(st, x); g != nil && g.op == "conns" {
			return g.args[0]
		}
		if x.k == TLoad && x.args[0].k == TFieldAddr && x.args[0].op == "Connections" && isVertex(x.args[0].args[0].typ) {
			return x.args[0].args[0]
		}
		return nil
	}
	// links: the node and the layer a list of links is of
	links := func(s *Sim, st *State, l *Term) (*Term, *Term) {
		l = l.strip()
		for l.k == TSlice {
			l = l.args[0].strip()
		}
		if g := s.tag(st, l); g != nil && g.op == "links" {
			return g.args[0], g.args[1]
		}
		for loc, x := range st.mem {
			if loc.k == TIndexAddr && x != nil && x.strip() == l {
				if v := conns(s, st, loc.args[0]); v != nil {
					return v, loc.args[1]
				}
			}
		}
		return nil, nil
	}
	if assumed[fn] {
		init := h.Init
		h.Init = func(s *Sim, st *State, root *Inst) {
			init(s, st, root)
			for _, q := range fn.Params {
				if basicKind(q.Type(), types.Uint64) {
					s.setTag(st, st.get(root, q, -1), s.T.mk(TPure, "id:N", nil, nil, nil, 0, nil))
				}
			}
		}
	}
	callHook := h.Call
	h.Call = func(c *CallCtx) bool {
		if f := c.Com.StaticCallee(); f != nil && assumed[f] && f != fn {
			off := len(c.Args) - f.Signature.Params().Len()
			for i := 0; i < f.Signature.Params().Len(); i++ {
				if basicKind(f.Signature.Params().At(i).Type(), types.Uint64) {
					r.ok(rule, "given "+p.instrPos(c.Instr))
					if !notOwn(c.S, c.St, c.Args[off+i]) {
						c.S.violate(rule, c.Instr, c.Inst, c.St, "a node may be linked to itself: its own id may be given to "+f.Name())
					}
				}
			}
			if errResult(f.Signature) >= 0 {
				forkErr(c, nil, nil)
				return true
			}
		}
		return callHook(c)
	}
	fillKey := func(v *Term) string { return m.key("fill", v) }
	set := func(s *Sim, in ssa.Instruction, inst *Inst, st *State, v, level, list *Term) {
		r.ok(rule, "set "+p.instrPos(in))
		q := m.list(s, st, list)
		if fresh(s, st, v) {
			if !strings.Contains(q, "L") {
				s.violate(rule, in, inst, st, "a link to a node with a tombstone may be set")
			}
			if !strings.Contains(q, "N") {
				s.violate(rule, in, inst, st, "a node may be linked to itself")
			}
		} else if o, _ := links(s, st, list); o == nil || !sameNode(o, v) {
			s.violate(rule, in, inst, st, "the links of another node are replaced")
		}
		if !strings.Contains(q, "B") && !(strings.Contains(q, "Z") && s.truth(st, s.T.bin(tokEQL, level, s.T.intConst(0), nil)) == 1) {
			s.violate(rule, in, inst, st, "more links than the maximum of the layer may be set")
		}
		setFlag(st, fillKey(v), "")
	}
	m.appended = func(c *CallCtx, q string) (string, *Term) {
		s, st := c.S, c.St
		vs, ok := s.Varargs(st, c.Args[1])
		v, level := links(s, st, c.Args[0])
		if v == nil {
			if !ok || len(vs) != 1 || !isIDs(c.Args[0].typ) && !basicKind(vs[0].typ, types.Uint64) {
				return "", nil
			}
			base := m.list(s, st, c.Args[0])
			id := vs[0]
			out := meet(base, m.of(s, st, id))
			if strings.Contains(base, "N") && !strings.Contains(out, "N") && notOwn(s, st, id) {
				out += "N"
			}
			if src := popOf(s, st, id); src != nil {
				b := st.mem[ghostCell(s, "bound", src)]
				if flagOf(st, "bq") == "" {
					setFlag(st, "bq", fmt.Sprint(src.id))
				}
				if flagOf(st, "bq") == fmt.Sprint(src.id) {
					if loadOfField2(b, "maximumConnections") {
						out += meet(base, "BZ")
					} else if loadOfField2(b, "maximumConnectionsLayerZero") {
						out += meet(base, "Z")
					}
				}
				setFlag(st, m.key("used", src), "1")
			}
			return order(out), nil
		}
		// one more link
		if !ok || len(vs) != 1 {
			r.ok(rule, "append "+p.instrPos(c.Instr))
			s.violate(rule, c.Instr, c.Inst, st, "links are added that are not looked at one by one")
			return "", nil
		}
		r.ok(rule, "add "+p.instrPos(c.Instr))
		id := vs[0].strip()
		src := popOf(s, st, id)
		okID := differs(s, st, id, v)
		if !okID && src != nil {
			okID = true
			ks := flagsWith(st, fmt.Sprintf("m:%d:", src.id))
			for _, k := range ks {
				k = k[strings.LastIndex(k, ":")+1:]
				var n int
				switch {
				case strings.HasPrefix(k, "o"):
					fmt.Sscan(k[1:], &n)
					okID = okID && sameNode(m.owner[n], v)
				case strings.HasPrefix(k, "k"):
					fmt.Sscan(k[1:], &n)
					okID = okID && differs(s, st, m.kinds[n], v)
				default:
					okID = false
				}
			}
			okID = okID && len(ks) > 0
		}
		if !okID {
			s.violate(rule, c.Instr, c.Inst, st, "a node may be linked to itself")
		}
		if fresh(s, st, v) && !strings.Contains(m.of(s, st, id), "L") {
			s.violate(rule, c.Instr, c.Inst, st, "a link to a node with a tombstone may be added")
		}
		okN := false
		one := s.T.bin(tokADD, s.lenOf(st, c.Args[0]), s.T.intConst(1), types.Typ[types.Int])
		for t, f := range st.facts {
			if t.k == TBin && f.truth != 0 {
				for _, x := range t.args {
					if (loadOfField(x, "maximumConnections") || loadOfField(x, "maximumConnectionsLayerZero")) && within(s, st, x, level) && s.leq(st, one, x) {
						okN = true
					}
				}
			}
		}
		if !okN && src != nil && within(s, st, st.mem[ghostCell(s, "bound", src)], level) {
			f := flagOf(st, fillKey(v))
			if f == "empty" || f == fmt.Sprint(src.id) {
				okN = true
				setFlag(st, fillKey(v), fmt.Sprint(src.id))
			}
		}
		if !okN {
			s.violate(rule, c.Instr, c.Inst, st, "a node may get more links than the maximum of its layer")
		}
		if src != nil {
			setFlag(st, m.key("used", src), "1")
		}
		return "", s.T.mk(TPure, "links", nil, nil, nil, 0, nil, v, level)
	}
	m.copied = func(c *CallCtx) {
		s, st := c.S, c.St
		dst, src := c.Args[0].strip(), c.Args[1].strip()
		if v, level := links(s, st, dst); v != nil {
			set(s, c.Instr, c.Inst, st, v, level, src)
			return
		}
		for dst.k == TSlice {
			dst = dst.args[0].strip()
		}
		if v, level := links(s, st, src); v != nil && dst.k == TMake {
			s.setTag(st, dst, s.T.mk(TPure, "links", nil, nil, nil, 0, nil, v, level))
		} else if v := conns(s, st, src); v != nil && dst.k == TMake {
			s.setTag(st, dst, s.T.mk(TPure, "conns", nil, nil, nil, 0, nil, v))
		}
	}
	h.Load = func(s *Sim, inst *Inst, in *ssa.UnOp, st *State, loc, val *Term) {
		if loc.k == TFieldAddr && loc.op == "Id" && isVertex(loc.args[0].typ) {
			s.setTag(st, val, s.T.mk(TPure, "idof", nil, nil, nil, 0, nil, loc.args[0]))
		}
		if loc.k == TFieldAddr && loc.op == "Connections" && isVertex(loc.args[0].typ) {
			if s.tag(st, val) == nil {
				s.setTag(st, val, s.T.mk(TPure, "conns", nil, nil, nil, 0, nil, loc.args[0]))
			}
		}
		if loc.k == TIndexAddr && val.typ != nil && isIDs(val.typ) && st.facts[val].tag == nil {
			if v := conns(s, st, loc.args[0]); v != nil && !(val.k == TMake && s.zeroLen(st, val)) {
				s.setTag(st, val, s.T.mk(TPure, "links", nil, nil, nil, 0, nil, v, loc.args[1]))
			}
		}
	}
	h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
		switch {
		case loc.k == TIndexAddr && conns(s, st, loc.args[0]) != nil:
			v, level := conns(s, st, loc.args[0]), loc.args[1]
			if s.zeroLen(st, val) {
				r.ok(rule, "cleared "+p.instrPos(in))
				setFlag(st, fillKey(v), "empty")
				s.setTag(st, val, s.T.mk(TPure, "links", nil, nil, nil, 0, nil, v, level))
				return
			}
			if o, _ := links(s, st, val); o != nil && sameNode(o, v) {
				return
			}
			set(s, in, inst, st, v, level, val)
		case loc.k == TFieldAddr && loc.op == "Connections" && isVertex(loc.args[0].typ):
			r.ok(rule, "new lists "+p.instrPos(in))
			v := loc.args[0]
			setFlag(st, m.key("new", v), "1")
			if o := conns(s, st, val); o != nil && sameNode(o, v) {
				return
			}
			x := val.strip()
			for x.k == TSlice {
				x = x.args[0].strip()
			}
			ok := x.isNilConst() || x.k == TMake
			if x.k == TAlloc {
				ok = true
				for l, e := range st.mem {
					if l.k == TIndexAddr && l.args[0] == x && !s.zeroLen(st, e) {
						ok = false
					}
				}
			}
			if g := s.tag(st, x); g != nil && g.op == "conns" && !sameNode(g.args[0], v) {
				ok = false
			}
			if !ok {
				s.violate(rule, in, inst, st, "the links of a node are replaced by lists that may not be empty")
			}
			s.setTag(st, val, s.T.mk(TPure, "conns", nil, nil, nil, 0, nil, v))
		default:
			m.store(s, st, loc, val)
		}
	}
	ref := h.Refine
	h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, c *Term, truth bool) bool {
		if !ref(s, inst, in, st, c, truth) {
			return false
		}
		c, truth = cond(c, truth)
		if c.k == TBin && c.op == "==" {
			for i, x := range c.args {
				if n, ok := x.int64(); ok && n == 0 && basicKindT(c.args[1-i].typ, types.Int) && !c.args[1-i].any(func(t *Term) bool { return t.k == TLen || t.k == TCap }) {
					setFlag(st, m.key("z", c.args[1-i]), fmt.Sprint(truth))
				}
			}
		}
		if c.any(func(t *Term) bool { return t.k == TCap }) {
			setFlag(st, fmt.Sprintf("cap:%d", inst.id), fmt.Sprint(truth))
		}
		return true
	}
	h.Edge = func(s *Sim, inst *Inst, from, to *ssa.BasicBlock, back bool, st *State) {
		if !back {
			return
		}
		for _, k := range flagsWith(st, "z:") {
			var n int
			fmt.Sscanf(k[2:], "%d", &n)
			if t := m.terms[n]; t != nil && t.k != TParam {
				setFlag(st, k, "")
			}
		}
		setFlag(st, fmt.Sprintf("cap:%d", inst.id), "")
	}
	s := newSim(p, h)
	s.limit = 60_000
	s.Run(fn)
	if s.over {
		s.violate(rule, fn.Blocks[0].Instrs[0], s.root, nil, "too many states to decide what is linked here")
	}
	return s
}

func basicKindT(t types.Type, k types.BasicKind) bool { return t != nil && basicKind(t, k) }

func loadOfField2(t *Term, name string) bool { return t != nil && loadOfField(t, name) }

func order(q string) string {
	b := []byte(q)
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	return string(b)
}

func hasLoop(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		if inLoop(b) {
			return true
		}
	}
	return false
}

// fieldStores: the stores into a field of the index that do not fill a new one
func (p *Prog) fieldStores(typ, field string) []ssa.Instruction {
	var out []ssa.Instruction
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || typeName(fa.X.Type()) != typ || fieldVar(fa.X.Type(), fa.Field).Name() != field {
					continue
				}
				if _, local := fa.X.(*ssa.Alloc); local {
					continue
				}
				for _, u := range refs(fa) {
					if st, ok := u.(*ssa.Store); ok && st.Addr == fa {
						out = append(out, st)
					} else if _, ok := u.(*ssa.UnOp); !ok {
						if _, ok := u.(*ssa.DebugRef); !ok {
							out = append(out, u)
						}
					}
				}
			}
		}
	}
	return out
}

const indexType = hnswPkg + ".hnsw"

// c13Maximum: the maximum of a layer is what was configured, twice that in the lowest
func c13Maximum(p *Prog, r *Report) {
	const rule = "maximum"
	r.rule(rule, "the maximum of a layer is the configured one, at most twice that in the lowest layer, and nothing changes it")
	r.need(rule, 2)
	for _, n := range []string{"maximumConnections", "maximumConnectionsLayerZero"} {
		for _, in := range p.fieldStores(indexType, n) {
			r.failf(rule, p.instrPos(in), shortFn(in.Parent()), "%s is changed after the index was made", n)
		}
	}
	fn := mustFn(p, r, rule, "pkg/hnsw.New")
	if fn == nil {
		return
	}
	h := &Hooks{KeepLock: true}
	h.Inline = func(inst *Inst, f *ssa.Function) bool {
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if typeName(f.Signature.Results().At(i).Type()) == indexType {
				return true
			}
		}
		return f.Signature.Results().Len() == 1 && basicKind(f.Signature.Results().At(0).Type(), types.Int) && !hasLoop(f)
	}
	h.Call = func(c *CallCtx) bool {
		if stdCall(c) {
			return true
		}
		if extErr(c) {
			forkErr(c, nil, nil)
			return true
		}
		return false
	}
	h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
		if loc.k != TFieldAddr || typeName(loc.args[0].typ) != indexType || loc.args[0].k != TAlloc {
			return
		}
		k := int64(0)
		switch loc.op {
		case "maximumConnections":
			k = 1
		case "maximumConnectionsLayerZero":
			k = 2
		default:
			return
		}
		r.ok(rule, loc.op+" "+p.instrPos(in))
		l := linear(val)
		ok := l.c == 0 && len(l.m) == 1
		for t, n := range l.m {
			ok = ok && n == k && (loadOfField(t, "MaxConnections") || t.k == TField && t.op == "MaxConnections" || strings.HasSuffix(t.String(), ".MaxConnections"))
		}
		if !ok {
			s.violate(rule, in, inst, st, loc.op+" is not the configured maximum"+map[int64]string{1: "", 2: " times two"}[k])
		}
	}
	s := newSim(p, h)
	s.Run(fn)
	r.take(s)
}

func fromTombstones(t *Term) bool { return t != nil && loadOfField(t.strip(), "tombstones") }

// c13Tombstones: tombstones are set for every id that is deleted and stay until its node is gone
func c13Tombstones(p *Prog, r *Report) {
	const rule = "tombstones"
	r.rule(rule, "a delete that reports success has given every id a tombstone; a tombstone goes only after the node of its id was removed from the store")
	r.need(rule, 2)
	for _, in := range p.fieldStores(indexType, "tombstones") {
		r.failf(rule, p.instrPos(in), shortFn(in.Parent()), "the tombstones of an index are replaced")
	}
	// every id
	if fn := mustFn(p, r, rule, "pkg/hnsw.(*hnsw).Delete"); fn != nil {
		marks := map[*ssa.Function]bool{}
		for _, f := range p.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if u, ok := in.(*ssa.MapUpdate); ok && isTombstones(u.Map) {
						marks[f] = true
					}
				}
			}
		}
		need := map[*ssa.Function]bool{}
		for _, f := range p.funcs {
			for _, g := range p.reach(f) {
				need[f] = need[f] || marks[g]
			}
		}
		// looks: in a loop that sets tombstones
		looks := func(in ssa.Instruction) bool {
			h := loopOf(in.Block())
			if h == nil {
				return false
			}
			for b := range loopBlocks(h) {
				for _, x := range b.Instrs {
					switch x := x.(type) {
					case *ssa.MapUpdate:
						if isTombstones(x.Map) {
							return true
						}
					case ssa.CallInstruction:
						if f := x.Common().StaticCallee(); f != nil && need[f] {
							return true
						}
					}
				}
			}
			return false
		}
		var ids *Term
		sc := &scan{name: "id", isList: func(s *Sim, st *State, t *Term) bool { return t.strip() == ids }}
		h := &Hooks{KeepLock: true}
		h.Init = func(s *Sim, st *State, root *Inst) {
			st.A = sig{}
			ids = st.get(root, paramOfType(fn, isIDs), -1)
		}
		h.Inline = func(inst *Inst, f *ssa.Function) bool { return need[f] || f.Parent() != nil }
		h.Call = func(c *CallCtx) bool {
			if f := c.Com.StaticCallee(); f != nil && need[f] {
				return false
			}
			if stdCall(c) {
				return true
			}
			if errResult(c.Com.Signature()) >= 0 {
				forkErr(c, nil, nil)
				return true
			}
			return false
		}
		h.Load = func(s *Sim, inst *Inst, in *ssa.UnOp, st *State, loc, val *Term) {
			if looks(in) {
				sc.load(s, st, loc)
			}
		}
		h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, c *Term, truth bool) bool {
			if looks(in) {
				sc.refine(s, st, c, truth)
			}
			return true
		}
		h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
			if loc.k != TMapElem || !fromTombstones(loc.args[0]) {
				return
			}
			r.ok(rule, "set "+p.instrPos(in))
			if l, _ := elemOf(loc.args[1]); l != nil && l.strip() == ids {
				sc.done(st)
			}
		}
		h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
			if s.nilness(st, res[len(res)-1]) == 1 {
				return
			}
			r.ok(rule, "deleted "+p.instrPos(ret))
			if why := sc.problem(s, st); why != "" {
				s.violate(rule, ret, inst, st, "an id that is deleted may get no tombstone: "+why)
			}
		}
		s := newSim(p, h)
		s.Run(fn)
		r.take(s)
	}
	// only after the node is gone
	var roots []*ssa.Function
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				bi, ok := ci.Common().Value.(*ssa.Builtin)
				if ok && (bi.Name() == "delete" || bi.Name() == "clear") && isTombstones(ci.Common().Args[0]) {
					roots = append(roots, rootFn(f))
				}
			}
		}
	}
	run := func(fn *ssa.Function, in map[*ssa.Function]bool) *Sim {
		h := &Hooks{KeepLock: true}
		h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
		h.Inline = func(inst *Inst, f *ssa.Function) bool {
			return in[f] || f.Parent() != nil || !hasLoop(f) && removes(p, f)
		}
		h.Call = func(c *CallCtx) bool {
			s, st := c.S, c.St
			switch {
			case c.Name == "builtin:delete" && fromTombstones(c.Args[0]):
				r.ok(rule, "taken away "+p.instrPos(c.Instr))
				if st.mem[ghostCell(s, "gone", c.Args[1].strip())] == nil {
					s.violate(rule, c.Instr, c.Inst, st, "a tombstone is taken away though the node may still be in the store")
				}
				return false
			case c.Name == "builtin:clear" && fromTombstones(c.Args[0]):
				s.violate(rule, c.Instr, c.Inst, st, "all tombstones are taken away")
				return false
			case strings.HasSuffix(c.Name, ".KVDelete"):
				ps := concat(c.Args[len(c.Args)-1])
				forkErr(c, func(o *State) {
					if len(ps) == 1 && ps[0].t != nil {
						o.mem[ghostCell(s, "gone", ps[0].t.strip())] = s.T.boolConst(true)
					}
				}, nil)
				return true
			}
			if f := c.Com.StaticCallee(); f != nil && h.Inline(c.Inst, f) && p.inRepo[f] {
				return false
			}
			if stdCall(c) {
				return true
			}
			if errResult(c.Com.Signature()) >= 0 {
				forkErr(c, nil, nil)
				return true
			}
			return false
		}
		s := newSim(p, h)
		s.Run(fn)
		return s
	}
	for _, f := range roots {
		s := run(f, nil)
		if len(s.viol) == 0 || len(p.callSites(f)) == 0 {
			r.take(s)
			continue
		}
		for _, c := range p.callSites(f) {
			r.take(run(rootFn(c.Parent()), map[*ssa.Function]bool{f: true}))
		}
	}
}

func removes(p *Prog, f *ssa.Function) bool {
	for _, g := range p.reach(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && ci.Common().Method.Name() == "KVDelete" {
					return true
				}
			}
		}
	}
	return false
}

func isTombstones(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return ok && typeName(fa.X.Type()) == indexType && fieldVar(fa.X.Type(), fa.Field).Name() == "tombstones"
}

// tellsTombstone: returns whether the id it is given has a tombstone
func tellsTombstone(f *ssa.Function) bool {
	if f.Signature.Params().Len() != 1 || !basicKind(f.Signature.Params().At(0).Type(), types.Uint64) || f.Signature.Results().Len() != 1 || !isBool(f.Signature.Results().At(0).Type()) || len(f.Blocks) == 0 {
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ret, ok := in.(*ssa.Return)
			if !ok {
				continue
			}
			n++
			v := ret.Results[0]
			if u, ok := v.(*ssa.UnOp); ok {
				if a, ok := u.X.(*ssa.Alloc); ok {
					for _, w := range refs(a) {
						if st, ok := w.(*ssa.Store); ok && st.Addr == a {
							if v != u && v != st.Val {
								return false
							}
							v = st.Val
						}
					}
				}
			}
			if k, ok := v.(*ssa.Const); ok && b == f.Recover && k != nil {
				continue
			}
			x, ok := v.(*ssa.Extract)
			if !ok || x.Index != 1 {
				return false
			}
			l, ok := x.Tuple.(*ssa.Lookup)
			if !ok || !isTombstones(l.X) || l.Index != f.Params[len(f.Params)-1] {
				return false
			}
		}
	}
	return n > 0
}
