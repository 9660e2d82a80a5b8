package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	visSet  = "(" + visPkg + ".ListSet).Visit"
	visTest = "(" + visPkg + ".ListSet).Visited"
)

func init() {
	register("C28", func(p *Prog, r *Report) {
		c28List(p, r)
		c28Copies(p, r)
		c28Search(p, r)
		c23Visited(p, r) // lists are reset and lent to one search at a time
	})
}

func isListSet(t types.Type) bool { return typeName(t) == visPkg+".ListSet" }

// c28List: the marks of a list. An element equal to the mark counter is marked; elements are never
// greater than the counter, so moving the counter by one leaves nothing marked, until it wraps around.
func c28List(p *Prog, r *Report) {
	const seen, clean, grown = "mark-is-seen", "reset-leaves-no-marks", "growing-keeps-marks"
	r.rule(seen, "marking a node sets its element to the counter on every path, and testing a node compares that same element with the counter and answers no without comparing only beyond the end of the list")
	r.rule(clean, "a new list's counter is not zero; a reset moves the counter by one, and when it wraps around to zero every element is cleared and the counter starts above zero")
	r.rule(grown, "when a list grows, all of the old list is copied to the start of the new one")
	r.need(seen, 2)
	ms := map[string]*ssa.Function{}
	var field *types.Var
	var bits int64
	for _, f := range p.methodsOf("pkg/hnsw/visited", "ListSet") {
		ms[f.Name()] = f
		st := structOf(deref(f.Signature.Recv().Type()))
		if st == nil || st.NumFields() != 1 {
			continue
		}
		if sl, ok := st.Field(0).Type().Underlying().(*types.Slice); ok && isIntT(sl.Elem()) {
			field = st.Field(0)
			bits = types.SizesFor("gc", "amd64").Sizeof(sl.Elem()) * 8
		}
	}
	if ms["Visit"] == nil || ms["Visited"] == nil || ms["Reset"] == nil {
		r.anchor(seen, "visited.ListSet")
		return
	}
	if field == nil || bits > 32 {
		r.ok(seen, "marks are kept in another way")
		r.ok(seen, "and are not judged")
		return
	}
	name := field.Name()
	last := int64(1)<<uint(bits) - 1
	isArr := func(st *State, t *Term) bool {
		t = t.strip()
		f, _ := lastField(t)
		return f == name || flagOf(st, fmt.Sprintf("cur:%d", t.id)) != ""
	}
	// elem: the array and index of an element
	elem := func(t *Term) (arr, idx *Term, off int64) {
		if t.k != TIndexAddr && t.k != TIndex {
			return nil, nil, 0
		}
		arr, idx = t.args[0].strip(), t.args[1]
		for arr.k == TSlice {
			if lo := arr.args[1]; lo != nil {
				n, ok := lo.int64()
				if !ok {
					return nil, nil, 0
				}
				off += n
			}
			arr = arr.args[0].strip()
		}
		return arr, idx, off
	}
	marker := func(st *State, t *Term) bool {
		t = t.strip()
		if t.k != TLoad {
			return false
		}
		a, i, off := elem(t.args[0])
		if a == nil {
			return false
		}
		n, ok := i.int64()
		return ok && n+off == 0
	}
	at := map[string]map[int64]bool{"Visit": {}, "Visited": {}}
	// nodeElem: the element of the node a method was given
	nodeElem := func(s *Sim, t *Term, in string) bool {
		a, i, off := elem(t)
		if a == nil {
			return false
		}
		k, ok := offsetOf(s, i)
		if !ok || k+off < 1 {
			return false
		}
		at[in][k+off] = true
		return true
	}
	inPkg := func(inst *Inst, g *ssa.Function) bool {
		return g.Pkg != nil && g.Pkg.Pkg.Path() == visPkg && g.Name() != "growth" || g.Parent() != nil
	}

	// marking
	h := &Hooks{KeepLock: true, Inline: inPkg}
	h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
	h.Call = func(c *CallCtx) bool {
		if c.Name == "builtin:copy" {
			d, src := c.Args[0].strip(), c.Args[1].strip()
			if d != src && isArr(c.St, src) && d.k != TSlice && src.k != TSlice {
				setFlag(c.St, fmt.Sprintf("copied:%d", d.id), "1")
				if isArr(c.St, d) {
					setFlag(c.St, "grown", "")
				}
			}
		}
		return false
	}
	h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
		if loc.k == TFieldAddr && loc.op == name && !localRoot(loc) {
			v := val.strip()
			keeps := isArr(st, v) || flagOf(st, fmt.Sprintf("copied:%d", v.id)) != ""
			if x, ok := in.(*ssa.Store); ok {
				if call, ok := x.Val.(*ssa.Call); ok && isBuiltin(&call.Call, "append") && isArr(st, s.val(st, inst, call.Call.Args[0])) {
					keeps = true
				}
			}
			r.ok(grown, "list replaced "+p.instrPos(in))
			if !keeps {
				setFlag(st, "grown", p.instrPos(in))
			}
			setFlag(st, fmt.Sprintf("cur:%d", v.id), "1")
			return
		}
		if a, i, off := elem(loc); a != nil && (isArr(st, a) || a.typ != nil && types.Identical(a.typ, field.Type())) {
			if n, ok := i.int64(); ok && n+off == 0 {
				if !marker(st, val) {
					s.violate(seen, in, inst, st, "marking a node changes the counter")
				}
				return
			}
			if nodeElem(s, loc, "Visit") && marker(st, val) {
				setFlag(st, "marked", "1")
			}
		}
	}
	h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
		r.ok(seen, "Visit returns "+p.instrPos(ret))
		if flagOf(st, "marked") == "" {
			s.violate(seen, ret, inst, st, "returns without the node's element set to the counter")
		}
		if g := flagOf(st, "grown"); g != "" {
			s.violate(grown, ret, inst, st, "the list was replaced at "+g+" without all of the old one copied to it")
		}
	}
	s := newSim(p, h)
	s.Run(ms["Visit"])
	r.take(s)

	// testing
	h = &Hooks{KeepLock: true, Inline: inPkg}
	h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
	same := func(s *Sim, c *Term) bool {
		if c.k != TBin || c.op != "==" {
			return false
		}
		for i := 0; i < 2; i++ {
			x, y := c.args[i].strip(), c.args[1-i].strip()
			if x.k == TLoad && !marker(nil, x) && nodeElem(s, x.args[0], "Visited") && marker(nil, y) {
				return true
			}
		}
		return false
	}
	// beyond: the node's element is known to lie beyond the end
	beyond := func(s *Sim, st *State) bool {
		node := s.val(st, s.root, s.root.fn.Params[len(s.root.fn.Params)-1])
		for t := range st.facts {
			if t.k != TBin {
				continue
			}
			for x := range linear(t.args[0]).add(linear(t.args[1]), 3).m {
				if x.k != TLen {
					continue
				}
				for k := range at["Visit"] {
					if s.leqC(st, x, node, k) {
						return true
					}
				}
			}
		}
		return false
	}
	h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, c *Term, truth bool) bool {
		c, truth = cond(c, truth)
		if same(s, c) {
			setFlag(st, "eq", map[bool]string{true: "yes", false: "no"}[truth])
		} else if c.k == TBin && beyond(s, st) {
			setFlag(st, "beyond", "1")
		}
		return true
	}
	h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
		if len(res) != 1 {
			return
		}
		r.ok(seen, "Visited returns "+p.instrPos(ret))
		t, truth := cond(res[0], true)
		if truth && same(s, t) {
			return
		}
		known := 0
		switch f := s.fact(st, res[0]); {
		case f.truth != 0:
			known = int(f.truth)
		}
		if known == 0 {
			s.violate(seen, ret, inst, st, "what is answered is not whether the node's element equals the counter")
			return
		}
		eq := 0
		switch flagOf(st, "eq") {
		case "yes":
			eq = 1
		case "no":
			eq = -1
		}
		for c, f := range st.facts {
			if c2, tr := cond(c, f.truth == 1); f.truth != 0 && same(s, c2) {
				eq = -1
				if tr {
					eq = 1
				}
			}
		}
		if known == 1 && eq != 1 {
			s.violate(seen, ret, inst, st, "answers that a node is marked without its element being the counter")
		}
		if known == -1 && eq != -1 {
			ok := flagOf(st, "beyond") != "" || beyond(s, st)
			if !ok {
				s.violate(seen, ret, inst, st, "answers that a node within the list is not marked without comparing its element")
			}
		}
	}
	s = newSim(p, h)
	s.Run(ms["Visited"])
	r.take(s)
	for k := range at["Visited"] {
		if !at["Visit"][k] || len(at["Visit"]) > 1 || len(at["Visited"]) > 1 {
			r.failf(seen, p.pos(ms["Visited"].Pos()), "visited.ListSet", "a node's mark is tested in another element than it is set in")
		}
	}

	// starting over
	h = &Hooks{KeepLock: true, Inline: inPkg}
	h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
	zeroed := func(st *State, from int64) {
		setFlag(st, "zeroed", "1")
		if from == 0 {
			setFlag(st, "counter", "zero")
		}
	}
	// counts: the counter at the start plus k
	counts := func(st *State, t *Term) (int64, bool) {
		l := linear(t)
		if len(l.m) != 1 {
			return 0, false
		}
		for x, k := range l.m {
			if k == 1 && marker(st, x) {
				return l.c, true
			}
		}
		return 0, false
	}
	h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, c *Term, truth bool) bool {
		c, truth = cond(c, truth)
		if c.k != TBin {
			return true
		}
		set := func(wraps bool) {
			if wraps {
				setFlag(st, "wrap", "yes")
			} else {
				setFlag(st, "wrap", "no")
			}
		}
		// a list has at least the counter
		if n, ok := c.args[0].int64(); ok && c.op == "<" && !truth {
			l := linear(c.args[1])
			for t, k := range l.m {
				if len(l.m) != 1 || k != 1 || t.k != TLen {
					continue
				}
				n, b := n-l.c, t.args[0].strip()
				if b.k == TSlice && b.args[2] == nil && b.args[1] != nil {
					if lo, ok := b.args[1].int64(); ok {
						n, b = n+lo, b.args[0].strip()
					}
				}
				if isArr(st, b) && n == 0 {
					return false
				}
				if isArr(st, b) && n == 1 {
					zeroed(st, 1)
				}
			}
		}
		for i := 0; i < 2; i++ {
			k, ok := counts(st, c.args[i])
			n, ok2 := c.args[1-i].int64()
			if !ok || !ok2 {
				continue
			}
			switch {
			case c.op == "==" && (n-k)&last == last:
				set(truth)
			case c.op == "==" && truth:
				set(false)
			case c.op == "<" && i == 0 && k == 0 && n == last, c.op == "<=" && i == 0 && k == 0 && n == last-1:
				set(!truth)
			case c.op == "<" && i == 1 && k == 0 && n == last-1, c.op == "<=" && i == 1 && k == 0 && n == last:
				set(truth)
			case c.op == "<" && i == 1 && k == 1 && n == 0, c.op == "<=" && i == 1 && k == 1 && n == 1:
				set(!truth)
			case c.op == "<" && i == 0 && k == 1 && n == 1:
				set(truth)
			}
		}
		return true
	}
	h.Call = func(c *CallCtx) bool {
		if c.Name == "builtin:clear" {
			t := c.Args[0].strip()
			from := int64(0)
			if t.k == TSlice && t.args[2] == nil {
				if t.args[1] != nil {
					n, ok := t.args[1].int64()
					if !ok {
						return false
					}
					from = n
				}
				t = t.args[0].strip()
			}
			if isArr(c.St, t) && from <= 1 {
				zeroed(c.St, from)
			}
		}
		return false
	}
	h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
		if loc.k == TFieldAddr && loc.op == name && !localRoot(loc) {
			v := val.strip()
			setFlag(st, fmt.Sprintf("cur:%d", v.id), "1")
			if v.k == TMake || v.k == TAlloc {
				zeroed(st, 0)
			}
			return
		}
		a, i, off := elem(loc)
		if a == nil || !isArr(st, a) {
			return
		}
		r.ok(clean, "element written "+p.instrPos(in))
		if x, ok := in.(*ssa.Store); ok {
			if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
				if _, ok := ia.Index.(*ssa.Const); !ok {
					n, z := val.int64()
					if from, ok := wholeLoop(s, inst, st, x, ia, a, off); z && n == 0 && ok {
						zeroed(st, from)
					}
					return
				}
			}
		}
		if n, ok := i.int64(); !ok || n+off != 0 {
			return
		}
		k, ok := counts(st, val)
		n, isC := val.int64()
		switch {
		case ok && k == 1:
			setFlag(st, "counter", "next")
		case isC && n > 0 && n <= last:
			setFlag(st, "counter", "const")
		case isC && n == 0:
			setFlag(st, "counter", "zero")
		default:
			setFlag(st, "counter", "other")
		}
	}
	h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
		r.ok(clean, "Reset returns "+p.instrPos(ret))
		switch c := flagOf(st, "counter"); {
		case c == "next" && flagOf(st, "wrap") != "no":
			s.violate(clean, ret, inst, st, "the counter is moved and may have wrapped around to the value of elements never marked")
		case c == "const" && flagOf(st, "zeroed") == "":
			s.violate(clean, ret, inst, st, "the counter starts over with marks of earlier searches left in the list")
		case c == "":
			s.violate(clean, ret, inst, st, "the counter is not moved, marks of this search stay")
		case c == "zero" || c == "other":
			s.violate(clean, ret, inst, st, "the counter is left at a value that elements may have")
		}
	}
	s = newSim(p, h)
	s.Run(ms["Reset"])
	r.take(s)

	// new lists
	for _, f := range p.funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != visPkg || f.Parent() != nil || f.Signature.Results().Len() != 1 || !isListSet(deref(f.Signature.Results().At(0).Type())) {
			continue
		}
		makes := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeSlice); ok && types.Identical(m.Type(), field.Type()) {
					makes = true
				}
			}
		}
		if !makes {
			continue
		}
		h := &Hooks{KeepLock: true, Inline: inPkg}
		h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
		h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
			a, i, off := elem(loc)
			if a == nil || a.typ == nil || !types.Identical(a.typ, field.Type()) {
				return
			}
			if n, ok := i.int64(); ok && n+off == 0 {
				if v, ok := val.int64(); ok && v > 0 && v <= last {
					setFlag(st, "counter", "1")
				} else {
					setFlag(st, "counter", "")
				}
			}
		}
		h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
			r.ok(clean, "new list "+p.instrPos(ret))
			if flagOf(st, "counter") == "" {
				s.violate(clean, ret, inst, st, "a new list's counter is zero, as the elements of nodes never marked")
			}
		}
		s := newSim(p, h)
		s.Run(f)
		r.take(s)
	}
}

// offsetOf: t is the method's argument plus a constant
func offsetOf(s *Sim, t *Term) (int64, bool) {
	l := linear(t)
	if len(l.m) != 1 || narrowed(t) {
		return 0, false
	}
	for x, k := range l.m {
		if k == 1 && x.k == TParam && x.inst == s.root {
			return l.c, true
		}
	}
	return 0, false
}

// narrowed: some of the bits of a number may be lost
func narrowed(t *Term) bool {
	if t.k == TConv && t.typ != nil && isIntT(t.typ) && types.SizesFor("gc", "amd64").Sizeof(t.typ) < 8 {
		return true
	}
	for _, a := range t.args {
		if a != nil && narrowed(a) {
			return true
		}
	}
	return false
}

// leqC: a <= b+k is known
func (s *Sim) leqC(st *State, a, b *Term, k int64) bool {
	return s.leqLin(st, linear(a).add(linear(b), -1).add(lin{c: k}, -1))
}

// wholeLoop: the store is done in every round of a loop over all elements; which is the first
func wholeLoop(s *Sim, inst *Inst, st *State, x *ssa.Store, ia *ssa.IndexAddr, arr *Term, off int64) (int64, bool) {
	head := loopOf(x.Block())
	if head == nil || !everyRound(x.Block()) {
		return 0, false
	}
	i, ok := head.Instrs[len(head.Instrs)-1].(*ssa.If)
	if !ok {
		return 0, false
	}
	cmp, ok := i.Cond.(*ssa.BinOp)
	if !ok {
		return 0, false
	}
	if cmp.Op == token.GEQ || cmp.Op == token.GTR {
		return off, true // counts down
	}
	if cmp.Op != token.LSS && cmp.Op != token.NEQ {
		return 0, false
	}
	idx, add := ia.Index, off
	for idx != cmp.X {
		b, ok := idx.(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return 0, false
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok {
			return 0, false
		}
		add += c.Int64()
		idx = b.X
	}
	start := int64(0)
	phi, ok := idx.(*ssa.Phi)
	if !ok {
		b, ok2 := idx.(*ssa.BinOp)
		if !ok2 || b.Op != token.ADD || !isOne(b.Y) {
			return 0, false
		}
		phi, ok = b.X.(*ssa.Phi)
		if !ok {
			return 0, false
		}
		start = 1
	}
	for k, e := range phi.Edges {
		if head.Dominates(head.Preds[k]) {
			if b, ok := e.(*ssa.BinOp); !ok || b.Op != token.ADD || !isOne(b.Y) || b.X != ssa.Value(phi) {
				return 0, false
			}
			continue
		}
		c, ok := e.(*ssa.Const)
		if !ok {
			return 0, false
		}
		start += c.Int64()
	}
	bound := linear(s.val(st, inst, cmp.Y))
	if len(bound.m) != 1 {
		return 0, false
	}
	for t, k := range bound.m {
		if k != 1 || t.k != TLen {
			return 0, false
		}
		n := bound.c
		b := t.args[0].strip()
		for b.k == TSlice {
			if b.args[2] != nil {
				return 0, false
			}
			if lo := b.args[1]; lo != nil {
				m, ok := lo.int64()
				if !ok {
					return 0, false
				}
				n -= m
			}
			b = b.args[0].strip()
		}
		if b != arr || n+add < 0 || start+add > 1 {
			return 0, false
		}
	}
	return start + add, true
}

// c28Copies: a mark made on a copy of a list is lost when the copy grows
func c28Copies(p *Prog, r *Report) {
	const rule = "marked-where-it-is-tested"
	r.rule(rule, "nodes are marked on the list itself, not on a copy: a copy that grows for a mark leaves the list without it")
	r.need(rule, 1)
	for _, f := range p.funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != hnswPkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || calleeName(ci.Common()) != visSet || len(ci.Common().Args) == 0 {
					continue
				}
				r.ok(rule, "marked "+p.instrPos(in))
				for _, al := range origins(p, ci.Common().Args[0], 0) {
					if returnsList(al.Parent()) {
						continue
					}
					for _, u := range refs(al) {
						st, ok := u.(*ssa.Store)
						if !ok || st.Addr != ssa.Value(al) {
							continue
						}
						switch v := st.Val.(type) {
						case *ssa.Parameter:
							r.failf(rule, p.instrPos(in), shortFn(f), "a node is marked on "+al.Comment+", a copy of the caller's list: when the copy grows the caller's list is not marked")
						case *ssa.UnOp:
							src := origin(v.X)
							if src != nil && src != al && testedAfter(src) {
								r.failf(rule, p.instrPos(in), shortFn(f), "a node is marked on "+al.Comment+", a copy of "+src.Comment+", which is tested as well")
							}
						}
					}
				}
			}
		}
	}
}

// origins: the variables a pointer to a list may point to
func origins(p *Prog, v ssa.Value, depth int) []*ssa.Alloc {
	if al := origin(v); al != nil {
		return []*ssa.Alloc{al}
	}
	q, ok := v.(*ssa.Parameter)
	if !ok || depth > 4 {
		return nil
	}
	var out []*ssa.Alloc
	for _, site := range p.callSites(q.Parent()) {
		if site.Common().StaticCallee() != q.Parent() {
			continue
		}
		for i, x := range q.Parent().Params {
			if x == q && i < len(site.Common().Args) {
				out = append(out, origins(p, site.Common().Args[i], depth+1)...)
			}
		}
	}
	return out
}

func returnsList(f *ssa.Function) bool {
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if isListSet(f.Signature.Results().At(i).Type()) {
			return true
		}
	}
	return false
}

// origin: the variable an address is of, through the closures that share it
func origin(v ssa.Value) *ssa.Alloc {
	for d := 0; d < 10; d++ {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FreeVar:
			f := x.Parent()
			i := -1
			for j, fv := range f.FreeVars {
				if fv == x {
					i = j
				}
			}
			var b ssa.Value
			if f.Parent() != nil {
				for _, blk := range f.Parent().Blocks {
					for _, in := range blk.Instrs {
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) && i >= 0 {
							b = mc.Bindings[i]
						}
					}
				}
			}
			if b == nil {
				return nil
			}
			v = b
		default:
			return nil
		}
	}
	return nil
}

// testedAfter: nodes are tested on this variable
func testedAfter(al *ssa.Alloc) bool {
	for _, u := range refs(al) {
		if ci, ok := u.(ssa.CallInstruction); ok && len(ci.Common().Args) > 0 && ci.Common().Args[0] == ssa.Value(al) && strings.HasPrefix(calleeName(ci.Common()), "("+visPkg+".ListSet).Visit") {
			return true
		}
	}
	return false
}

// c28Search: what a search takes from a node's links or from its entry points
func c28Search(p *Prog, r *Report) {
	const rule = "taken-once"
	r.rule(rule, "a neighbour that a search takes further (into a queue or list) was tested before and is marked in the same round; so is an entry point")
	for _, f := range p.funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != hnswPkg || f.Parent() != nil || returnsList(f) {
			continue
		}
		root := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && returnsList(g) {
						root = true
					}
				}
			}
		}
		if !root {
			continue
		}
		late := false // nodes are marked in another loop than the one that tests them
		type bad struct {
			s    *Sim
			in   ssa.Instruction
			inst *Inst
			st   *State
			what string
		}
		var unmarked []bad
		h := &Hooks{}
		h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
		h.Inline = func(inst *Inst, g *ssa.Function) bool {
			if g.Parent() != nil {
				return true
			}
			if g.Pkg == nil || g.Pkg.Pkg.Path() != hnswPkg {
				return false
			}
			for _, q := range g.Params {
				if isListSet(deref(q.Type())) || isIDs(q.Type()) && len(g.Blocks) < 12 && !hasLoop(g) {
					return true
				}
			}
			rs := g.Signature.Results()
			for i := 0; i < rs.Len(); i++ {
				if isIDs(rs.At(i).Type()) && g.Name() != "flatSearch" && len(g.Blocks) < 12 {
					return true
				}
			}
			return false
		}
		h.GoBody = func(s *Sim, parent, child *Inst, g *ssa.Go, st *State) (bool, bool) { return true, false }
		born := func(inst *Inst, in ssa.Instruction) string {
			head := loopOf(in.Block())
			for head == nil && inst.parent != nil && inst.site != nil {
				head = loopOf(inst.site.Block())
				inst = inst.parent
			}
			if head == nil {
				return ""
			}
			return fmt.Sprintf("%d/%d", inst.id, head.Index)
		}
		links := func(st *State, t *Term) bool {
			for d := 0; t != nil && d < 12; d++ {
				t = t.strip()
				if flagOf(st, fmt.Sprintf("links:%d", t.id)) != "" {
					return true
				}
				switch t.k {
				case TFieldAddr, TField:
					return t.op == "Connections"
				case TLoad, TIndexAddr, TIndex, TSlice:
					t = t.args[0]
					continue
				}
				return false
			}
			return false
		}
		key := func(t *Term) string { return fmt.Sprint(t.strip().id) }
		h.Load = func(s *Sim, inst *Inst, in *ssa.UnOp, st *State, loc, val *Term) {
			if loc.k == TIndexAddr && isIDs(loc.args[0].typ) && links(st, loc.args[0]) {
				if b := born(inst, in); b != "" {
					setFlag(st, "b:"+key(val), b)
				}
			}
		}
		take := func(inst *Inst, in ssa.Instruction, st *State, t *Term) {
			k := key(t)
			if flagOf(st, "b:"+k) != "" {
				setFlag(st, "t:"+k, "1")
				r.ok(rule, "neighbour taken "+p.instrPos(in))
			}
		}
		h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
			if loc.k == TFieldAddr || loc.k == TIndexAddr {
				take(inst, in, st, val)
			}
		}
		h.Call = func(c *CallCtx) bool {
			s, st := c.S, c.St
			switch {
			case c.Name == visTest && len(c.Args) == 2:
				k := key(c.Args[1])
				a, b := st.clone(), st
				if flagOf(st, "b:"+k) != "" {
					setFlag(a, "v:"+k, "seen")
					setFlag(b, "v:"+k, "new")
				}
				c.Out(a, s.T.boolConst(true))
				c.Out(b, s.T.boolConst(false))
				return true
			case c.Name == visSet && len(c.Args) == 2:
				k := key(c.Args[1])
				x := c.Args[1].strip()
				if x.k == TField {
					if b := flagOf(st, "p:"+key(x.args[0])); b != "" {
						setFlag(st, "b:"+k, b)
						setFlag(st, "e:"+k, "1")
					}
				}
				if flagOf(st, "b:"+k) != "" {
					setFlag(st, "m:"+k, "1")
				} else if x.k == TLoad && x.args[0].k == TIndexAddr {
					late = true
				}
				c.Out(st)
				return true
			case c.Name == "builtin:copy":
				if links(st, c.Args[1]) {
					t := c.Args[0].strip()
					for t.k == TSlice {
						t = t.args[0].strip()
					}
					setFlag(st, fmt.Sprintf("links:%d", t.id), "1")
					setFlag(st, fmt.Sprintf("links:%d", c.Args[0].strip().id), "1")
				}
				return false
			case strings.HasSuffix(c.Name, ".Queue).Pop") && len(c.Args) == 1:
				if q := c.Args[0].strip(); q.k == TParam && q.inst == s.root {
					out := c.FreshAll(st)
					setFlag(st, "p:"+key(out[0]), born(c.Inst, c.Instr))
					c.Out(st, out...)
					return true
				}
			case strings.HasSuffix(c.Name, ".Queue).Insert") && len(c.Args) > 1:
				id := c.Args[1].strip()
				take(c.Inst, c.Instr, st, id)
				if b := born(c.Inst, c.Instr); b != "" && id.k != TConst {
					k := "i:" + key(c.Args[0]) + ":" + key(id)
					if flagOf(st, k) != "" {
						s.violate(rule, c.Instr, c.Inst, st, "a node is put into the same queue twice in one round")
					}
					setFlag(st, k, b)
				}
				if id.k == TField {
					if b := flagOf(st, "p:"+key(id.args[0])); b != "" {
						r.ok(rule, "entry point taken "+p.instrPos(c.Instr))
						setFlag(st, "b:"+key(id), b)
						setFlag(st, "e:"+key(id), "1")
						setFlag(st, "t:"+key(id), "1")
					}
				}
			}
			return false
		}
		h.Edge = func(s *Sim, inst *Inst, from, to *ssa.BasicBlock, back bool, st *State) {
			if !back {
				return
			}
			at := fmt.Sprintf("%d/%d", inst.id, to.Index)
			a, _ := st.A.(sig)
			var ks []string
			for k, v := range a {
				if strings.HasPrefix(k, "b:") && v == at {
					ks = append(ks, k[2:])
				}
			}
			for k, v := range a {
				if strings.HasPrefix(k, "i:") && v == at {
					setFlag(st, k, "")
				}
			}
			in := from.Instrs[len(from.Instrs)-1]
			for _, k := range ks {
				if flagOf(st, "t:"+k) != "" {
					entry := flagOf(st, "e:"+k) != ""
					switch {
					case !entry && flagOf(st, "v:"+k) != "new":
						s.violate(rule, in, inst, st, "a neighbour is taken that was not tested or had been visited")
					case flagOf(st, "m:"+k) == "" && entry:
						s.violate(rule, in, inst, st, "an entry point is taken without being marked as visited")
					case flagOf(st, "m:"+k) == "":
						unmarked = append(unmarked, bad{s, in, inst, st.clone(), "a neighbour is taken without being marked as visited"})
					}
				}
				for _, x := range []string{"b:", "t:", "v:", "m:", "e:"} {
					setFlag(st, x+k, "")
				}
			}
		}
		s := newSim(p, h)
		s.Run(f)
		if !late {
			for _, b := range unmarked {
				b.s.violate(rule, b.in, b.inst, b.st, b.what)
			}
		}
		r.take(s)
	}
}
