package main

import (
	"container/heap"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Sim is a forward dataflow analysis over the repository's SSA. Calls inside the
// repository are inlined by call string, so the graph it walks is the supergraph
// of one root function. A dataflow fact is a set of abstract states, at most one
// per automaton state ("property simulation"): states that agree on the automaton
// state are joined, states that differ in it stay apart. Inside a state, values are
// Terms (a global value numbering), memory cells map to Terms, and branch conditions
// leave facts about Terms. Nothing is executed and no solver is asked.

type Inst struct {
	id     int
	fn     *ssa.Function
	parent *Inst
	site   ssa.Instruction // call, go, defer instruction
	at     ssa.Instruction // where the parent continues (RunDefers for deferred calls)
	kind   byte            // 'r' root, 'c' call, 'g' go, 'd' deferred, 'x' called back by an external function, 'z' called some other time
	depth  int
	blk    *ssa.BasicBlock // parent's block to continue in
	idx    int             // and instruction index
	rpo    map[*ssa.BasicBlock]int
}

func (i *Inst) chain() string {
	var s []string
	for x := i; x != nil; x = x.parent {
		s = append([]string{x.fn.Name()}, s...)
	}
	return strings.Join(s, " > ")
}

type AState interface {
	Key() string
	Kill(dead map[int]bool) AState
}

type SA string

func (a SA) Key() string              { return string(a) }
func (a SA) Kill(map[int]bool) AState { return a }

// 1: non-nil / true, -1: nil / false; tag: what a check knows about the value
type Fact struct {
	nil_, truth int8
	tag         *Term
}

type fkey struct {
	v ssa.Value
	i int
}

type frame struct {
	m   map[fkey]*Term
	own *State
}

type deferred struct {
	instr *ssa.Defer
	fv    *Term
	args  []*Term
}

type State struct {
	A      AState
	frames map[*Inst]*frame
	mem    map[*Term]*Term
	facts  map[*Term]Fact
	defers map[*Inst][]deferred
	marks  map[string]bool
	trace  []string
}

func (st *State) clone() *State {
	n := &State{A: st.A, frames: make(map[*Inst]*frame, len(st.frames)), mem: make(map[*Term]*Term, len(st.mem)+4),
		facts: make(map[*Term]Fact, len(st.facts)+4), marks: st.marks, trace: st.trace, defers: st.defers}
	for k, v := range st.frames {
		n.frames[k] = v
	}
	for k, v := range st.mem {
		n.mem[k] = v
	}
	for k, v := range st.facts {
		n.facts[k] = v
	}
	// frames are shared from now on: neither may write them
	for _, f := range st.frames {
		f.own = nil
	}
	return n
}

func (st *State) set(i *Inst, v ssa.Value, c int, t *Term) {
	f := st.frames[i]
	if f == nil {
		f = &frame{m: map[fkey]*Term{}, own: st}
		st.frames[i] = f
	}
	if f.own != st {
		nf := &frame{m: make(map[fkey]*Term, len(f.m)+4), own: st}
		for k, x := range f.m {
			nf.m[k] = x
		}
		st.frames[i] = nf
		f = nf
	}
	f.m[fkey{v, c}] = t
}

func (st *State) get(i *Inst, v ssa.Value, c int) *Term {
	if f := st.frames[i]; f != nil {
		return f.m[fkey{v, c}]
	}
	return nil
}

func (st *State) note(s string) {
	if len(st.trace) > 40 {
		return
	}
	if n := len(st.trace); n > 0 && st.trace[n-1] == s {
		return
	}
	st.trace = append(st.trace[:len(st.trace):len(st.trace)], s)
}

func (st *State) mark(m string) {
	n := map[string]bool{m: true}
	for k := range st.marks {
		n[k] = true
	}
	st.marks = n
}

func (st *State) unmark(prefixes ...string) {
	n := map[string]bool{}
	for k := range st.marks {
		drop := false
		for _, p := range prefixes {
			drop = drop || strings.HasPrefix(k, p)
		}
		if !drop {
			n[k] = true
		}
	}
	st.marks = n
}

func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (st *State) pushDefer(i *Inst, d deferred) {
	n := map[*Inst][]deferred{}
	for k, v := range st.defers {
		n[k] = v
	}
	for _, x := range n[i] {
		if x.instr == d.instr { // in a loop: once is enough
			return
		}
	}
	n[i] = append(n[i][:len(n[i]):len(n[i])], d)
	st.defers = n
}

func (st *State) popDefer(i *Inst) (deferred, bool) {
	l := st.defers[i]
	if len(l) == 0 {
		return deferred{}, false
	}
	d := l[len(l)-1]
	n := map[*Inst][]deferred{}
	for k, v := range st.defers {
		n[k] = v
	}
	n[i] = l[: len(l)-1 : len(l)-1]
	if len(n[i]) == 0 {
		delete(n, i)
	}
	st.defers = n
	return d, true
}

func (st *State) key() string {
	k := st.A.Key()
	if len(st.defers) > 0 {
		var ds []string
		for i, l := range st.defers {
			s := fmt.Sprintf("%d:", i.id)
			for _, d := range l {
				s += fmt.Sprintf("%p,", d.instr)
			}
			ds = append(ds, s)
		}
		sort.Strings(ds)
		k += "|" + strings.Join(ds, ";")
	}
	if len(st.marks) > 0 {
		var ms []string
		for m := range st.marks {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		k += "|m" + strings.Join(ms, ",")
	}
	return k
}

type nodeKey struct {
	inst *Inst
	blk  *ssa.BasicBlock
	idx  int
}

type Node struct {
	k       nodeKey
	states  map[string]*State
	dirty   map[string]bool
	order   []int
	inq     bool
	hi      int
	joins   map[int]bool
	seq     int
	visits  map[string]int
	contrib map[string][]contrib
}

type Violation struct {
	Rule  string   `json:"rule"`
	Where string   `json:"where"`
	Func  string   `json:"function"`
	What  string   `json:"what"`
	Path  []string `json:"path,omitempty"`
	Key   string   `json:"key"`
	at    nk
}

type Hooks struct {
	Init       func(s *Sim, st *State, root *Inst)
	Call       func(c *CallCtx) bool
	CallReturn func(s *Sim, callee *Inst, ret *ssa.Return, st *State, res []*Term)
	RootReturn func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term)
	Store      func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term)
	Load       func(s *Sim, inst *Inst, in *ssa.UnOp, st *State, loc, val *Term)
	Refine     func(s *Sim, inst *Inst, in *ssa.If, st *State, cond *Term, truth bool) bool
	Instr      func(s *Sim, inst *Inst, in ssa.Instruction, st *State)
	Inline     func(inst *Inst, fn *ssa.Function) bool
	GoBody     func(s *Sim, parent, child *Inst, g *ssa.Go, st *State) (run, skip bool)
	AfterGo    func(s *Sim, parent *Inst, g *ssa.Go, st *State)
	Panic      func(s *Sim, inst *Inst, in ssa.Instruction, st *State)
	BackEdge   func(s *Sim, inst *Inst, st *State)
	Edge       func(s *Sim, inst *Inst, from, to *ssa.BasicBlock, back bool, st *State)
	Tag        func(s *Sim, st *State, t *Term) *Term // what a value is by its structure
	KeepLock   bool                                   // do not forget shared memory when a lock is taken
	NoImpl     func(c *CallCtx) bool
	Unroll     bool // the rounds of a loop over a written-out list are told apart
}

type Sim struct {
	p        *Prog
	T        *Terms
	root     *Inst
	h        *Hooks
	nodes    map[nodeKey]*Node
	q        nodeHeap
	insts    map[string]*Inst
	instList []*Inst
	viol     map[string]*Violation
	nStates  int
	steps    int
	limit    int            // of steps, for runs that may be given up
	over     bool           // it was reached
	calls    map[string]int // resolved callees seen
	opaque   map[string]int
	maxDepth int
	data     any
	noted    map[string]bool
	pending  []*State
	seq      int
	src      nk
	sent     map[nk]int
	outs     map[nk]map[nk]bool
	ran      map[nk]bool
	stale    map[nk]bool
	loops    map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	bySeq    map[int]*Node
	recs     map[string]rec
}

// rec is something a check notes down on the way; it goes when the state it was seen in goes
type rec struct {
	at nk
	v  any
}

func (s *Sim) record(key string, v any) {
	s.recs[fmt.Sprintf("%s@%p/%s", key, s.src.n, s.src.k)] = rec{s.src, v}
}

func records[T any](s *Sim) []T {
	var ks []string
	for k, r := range s.recs {
		if _, ok := r.v.(T); ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var out []T
	for _, k := range ks {
		out = append(out, s.recs[k].v.(T))
	}
	return out
}

type nodeHeap []*Node

func (h nodeHeap) Len() int { return len(h) }
func (h nodeHeap) Less(i, j int) bool {
	a, b := h[i].order, h[j].order
	for k := 0; k < len(a) && k < len(b); k++ {
		if a[k] != b[k] {
			return a[k] < b[k]
		}
	}
	if len(a) != len(b) {
		return len(a) > len(b)
	}
	return h[i].seq < h[j].seq
}
func (h nodeHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].hi = i; h[j].hi = j }
func (h *nodeHeap) Push(x any)   { n := x.(*Node); n.hi = len(*h); *h = append(*h, n) }
func (h *nodeHeap) Pop() any {
	o := *h
	n := o[len(o)-1]
	*h = o[:len(o)-1]
	return n
}

func newSim(p *Prog, h *Hooks) *Sim {
	h.Unroll = true
	return &Sim{p: p, T: newTerms(), h: h, nodes: map[nodeKey]*Node{}, insts: map[string]*Inst{}, viol: map[string]*Violation{},
		calls: map[string]int{}, opaque: map[string]int{}, maxDepth: 24, noted: map[string]bool{}, recs: map[string]rec{}, bySeq: map[int]*Node{}}
}

func (s *Sim) inst(parent *Inst, site, at ssa.Instruction, fn *ssa.Function, kind byte, blk *ssa.BasicBlock, idx int) *Inst {
	pid := 0
	if parent != nil {
		pid = parent.id
	}
	key := fmt.Sprintf("%d|%p|%p|%p|%c", pid, site, at, fn, kind)
	if i, ok := s.insts[key]; ok {
		return i
	}
	i := &Inst{id: len(s.instList) + 1, fn: fn, parent: parent, site: site, at: at, kind: kind, blk: blk, idx: idx, rpo: rpo(fn)}
	if parent != nil {
		i.depth = parent.depth + 1
	}
	s.insts[key] = i
	s.instList = append(s.instList, i)
	return i
}

func rpo(fn *ssa.Function) map[*ssa.BasicBlock]int {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	m := map[*ssa.BasicBlock]int{}
	for i, b := range post {
		m[b] = len(post) - i
	}
	return m
}

func (s *Sim) node(inst *Inst, blk *ssa.BasicBlock, idx int) *Node {
	k := nodeKey{inst, blk, idx}
	if n, ok := s.nodes[k]; ok {
		return n
	}
	s.seq++
	n := &Node{k: k, states: map[string]*State{}, dirty: map[string]bool{}, joins: map[int]bool{}, seq: s.seq}
	var ord []int
	b, i, x := blk, idx, inst
	for x != nil {
		ord = append([]int{x.rpo[b], i}, ord...)
		b, i, x = x.blk, x.idx, x.parent
	}
	n.order = ord
	s.nodes[k] = n
	s.bySeq[n.seq] = n
	return n
}

func (s *Sim) violate(rule string, in ssa.Instruction, inst *Inst, st *State, what string) {
	where := s.p.instrPos(in)
	fn := ""
	if in != nil && in.Parent() != nil {
		fn = shortFn(in.Parent())
	}
	key := rule + "|" + fn + "|" + what
	vk := fmt.Sprintf("%s@%p/%s", key, s.src.n, s.src.k)
	if _, ok := s.viol[vk]; ok {
		return
	}
	v := &Violation{Rule: rule, Where: where, Func: fn, What: what, Key: key, at: s.src}
	if inst != nil {
		v.Path = append(v.Path, "call path: "+inst.chain())
	}
	if st != nil {
		v.Path = append(v.Path, st.trace...)
	}
	s.viol[vk] = v
}

// Run analyses one root function
func (s *Sim) Run(root *ssa.Function) {
	s.root = s.inst(nil, nil, nil, root, 'r', nil, 0)
	st := &State{A: SA(""), frames: map[*Inst]*frame{}, mem: map[*Term]*Term{}, facts: map[*Term]Fact{}}
	for _, p := range root.Params {
		st.set(s.root, p, -1, s.T.mk(TParam, p.Name(), nil, s.root, p, 0, p.Type()))
	}
	for _, fv := range root.FreeVars {
		st.set(s.root, fv, -1, s.T.mk(TParam, fv.Name(), nil, s.root, fv, 0, fv.Type()))
	}
	if len(root.Params) > 0 && root.Signature.Recv() != nil {
		if _, ok := root.Params[0].Type().Underlying().(*types.Pointer); ok {
			st.facts[st.get(s.root, root.Params[0], -1)] = Fact{nil_: 1}
		}
	}
	if s.h.Init != nil {
		s.h.Init(s, st, s.root)
	}
	s.outs, s.ran, s.stale = map[nk]map[nk]bool{}, map[nk]bool{}, map[nk]bool{}
	s.arrive(s.root, root.Blocks[0], 0, st)
	s.fix(root)
}

func (s *Sim) fix(root *ssa.Function) bool {
	for purges := 0; ; {
		if s.q.Len() == 0 && (purges >= 12 || !s.purge()) {
			break
		} else if s.q.Len() == 0 {
			purges++
			continue
		}
		n := heap.Pop(&s.q).(*Node)
		n.inq = false
		var keys []string
		for k := range n.dirty {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		n.dirty = map[string]bool{}
		for _, k := range keys {
			if st := n.states[k]; st != nil {
				x := nk{n, k}
				if n.visits == nil {
					n.visits = map[string]int{}
				}
				n.visits[k]++
				if s.ran[x] && n.visits[k] < 30 {
					s.retract(x)
				}
				s.ran[x] = true
				s.src = x
				s.sent = map[nk]int{}
				s.run(n.k.inst, n.k.blk, n.k.idx, st.clone())
			}
		}
		if s.limit > 0 && s.steps > s.limit {
			s.over = true
			return false
		}
		if s.steps > 60_000_000 {
			s.violate("analysis-budget", nil, s.root, nil, "analysis of "+shortFn(root)+" exceeded its budget")
			return false
		}
	}
	return true
}

// nk is a node together with an automaton state
type nk struct {
	n *Node
	k string
}

type contrib struct {
	src   nk
	seq   int
	st    *State
	stale bool // what it came from was taken back and did not run again yet
}

// arrive merges a state into a node. A node's state is the join of what last came in
// along each edge.
func (s *Sim) arrive(inst *Inst, blk *ssa.BasicBlock, idx int, st *State) {
	n := s.node(inst, blk, idx)
	s.killJoins(st, n)
	k := st.key()
	x := nk{n, k}
	seq := 0
	if s.src.n != nil {
		s.sent[x]++
		seq = s.sent[x]
		if s.outs[s.src] == nil {
			s.outs[s.src] = map[nk]bool{}
		}
		s.outs[s.src][x] = true
	}
	if n.contrib == nil {
		n.contrib = map[string][]contrib{}
	}
	cs := n.contrib[k]
	found := false
	for i := range cs {
		if cs[i].src == s.src && cs[i].seq == seq {
			if len(st.trace) == 0 || len(cs[i].st.trace) > 0 {
				st.trace = cs[i].st.trace
			}
			cs[i].st, cs[i].stale, found = st, false, true
		}
	}
	if !found {
		cs = append(cs, contrib{src: s.src, seq: seq, st: st})
	}
	n.contrib[k] = cs
	s.refresh(x)
}

// refresh joins the contributions of a node again
func (s *Sim) refresh(x nk) {
	n, k := x.n, x.k
	cs := n.contrib[k]
	old, ok := n.states[k]
	nu := cs[0].st
	if len(cs) > 1 {
		nu = nu.clone()
		for _, c := range cs[1:] {
			s.merge(nu, c.st, n)
		}
	}
	if !ok {
		s.nStates++
	} else {
		if n.visits[k] > 30 && n.k.idx == 0 && isLoopHead(n.k.blk) {
			y := old.clone()
			s.merge(y, nu, n)
			nu = y
		}
		if sameState(old, nu) {
			return
		}
	}
	n.states[k] = nu
	n.dirty[k] = true
	if !n.inq {
		n.inq = true
		heap.Push(&s.q, n)
	}
}

// retract forgets everything that was derived from a state that is now run again, so
// that what a half-finished fixpoint let through leaves no trace
func (s *Sim) retract(x nk) {
	R, at := map[nk]bool{}, map[nk]bool{}
	var order []nk
	todo := []nk{x}
	for len(todo) > 0 {
		y := todo[0]
		todo = todo[1:]
		var zs []nk
		for z := range s.outs[y] {
			zs = append(zs, z)
		}
		sort.Slice(zs, func(i, j int) bool {
			if zs[i].n != zs[j].n {
				return zs[i].n.seq < zs[j].n.seq
			}
			return zs[i].k < zs[j].k
		})
		for _, z := range zs {
			if z == x || R[z] {
				continue
			}
			if s.around(z.n, x.n) {
				// a loop keeps its state while one of its rounds is done again
				at[z] = true
				continue
			}
			{
				R[z] = true
				order = append(order, z)
				todo = append(todo, z)
			}
		}
	}
	delete(s.outs, x)
	for _, y := range order {
		delete(s.outs, y)
		delete(s.ran, y)
		var keep []contrib
		for _, c := range y.n.contrib[y.k] {
			if c.src != x && !R[c.src] {
				keep = append(keep, c)
			}
		}
		delete(y.n.states, y.k)
		delete(y.n.dirty, y.k)
		if len(keep) == 0 {
			delete(y.n.contrib, y.k)
			continue
		}
		y.n.contrib[y.k] = keep
		s.refresh(y)
	}
	R[x] = true
	at[x] = true
	for z := range at {
		for i, c := range z.n.contrib[z.k] {
			if R[c.src] {
				z.n.contrib[z.k][i].stale = true
				s.stale[z] = true
			}
		}
	}
	for key, v := range s.viol {
		if R[v.at] {
			delete(s.viol, key)
		}
	}
	for key, v := range s.recs {
		if R[v.at] {
			delete(s.recs, key)
		}
	}
}

// purge drops what came from states that are no longer there
func (s *Sim) purge() bool {
	var zs []nk
	for z := range s.stale {
		zs = append(zs, z)
	}
	s.stale = map[nk]bool{}
	sort.Slice(zs, func(i, j int) bool {
		if zs[i].n != zs[j].n {
			return zs[i].n.seq < zs[j].n.seq
		}
		return zs[i].k < zs[j].k
	})
	for _, z := range zs {
		var keep []contrib
		n := 0
		for _, c := range z.n.contrib[z.k] {
			if c.stale {
				n++
			} else {
				keep = append(keep, c)
			}
		}
		if n == 0 {
			continue
		}
		if len(keep) == 0 {
			s.retract(z)
			delete(z.n.contrib, z.k)
			delete(z.n.states, z.k)
			delete(z.n.dirty, z.k)
			delete(s.ran, z)
		} else {
			z.n.contrib[z.k] = keep
			s.refresh(z)
		}
	}
	return len(zs) > 0
}

// around: one node starts a loop the other is part of
func (s *Sim) around(z, x *Node) bool {
	if z.k.idx != 0 || !isLoopHead(z.k.blk) {
		return false
	}
	blk := x.k.blk
	for i := x.k.inst; i != nil; i = i.parent {
		if i == z.k.inst {
			if s.loops == nil {
				s.loops = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
			}
			if s.loops[z.k.blk] == nil {
				s.loops[z.k.blk] = loopBlocks(z.k.blk)
			}
			return s.loops[z.k.blk][blk]
		}
		if i.parent != nil {
			if at := i.at; at != nil {
				blk = at.Block()
			} else if i.site != nil {
				blk = i.site.Block()
			}
		}
	}
	return false
}

func sameState(a, b *State) bool {
	if a == b {
		return true
	}
	if len(a.frames) != len(b.frames) || len(a.mem) != len(b.mem) || len(a.facts) != len(b.facts) {
		return false
	}
	for i, fa := range a.frames {
		fb := b.frames[i]
		if fa == fb {
			continue
		}
		if fb == nil || len(fa.m) != len(fb.m) {
			return false
		}
		for k, t := range fa.m {
			if fb.m[k] != t {
				return false
			}
		}
	}
	for l, v := range a.mem {
		if b.mem[l] != v {
			return false
		}
	}
	for t, f := range a.facts {
		if b.facts[t] != f {
			return false
		}
	}
	for i, la := range a.defers {
		lb := b.defers[i]
		if len(la) != len(lb) {
			return false
		}
		for j := range la {
			if la[j].fv != lb[j].fv {
				return false
			}
			for x := range la[j].args {
				if la[j].args[x] != lb[j].args[x] {
					return false
				}
			}
		}
	}
	return true
}

// carried: statements about values that stay known when the values get new names
func carried(t *Term) bool {
	return t.k == TPure && (t.op == "tombstone" || t.op == "contains")
}

// within: the statement with other arguments
func (s *Sim) within(t *Term, arg func(i int) *Term) *Term {
	args := make([]*Term, len(t.args))
	for i := range args {
		if args[i] = arg(i); args[i] == nil {
			return nil
		}
	}
	return s.T.mk(t.k, t.op, t.obj, t.inst, t.val, t.idx, t.typ, args...)
}

func (s *Sim) joinTerm(n *Node, tag string, obj any, inst *Inst, val any, idx int, typ types.Type) *Term {
	t := s.T.mk(TJoin, fmt.Sprintf("%s@%d", tag, n.seq), obj, inst, val, idx, typ)
	n.joins[t.id] = true
	return t
}

// joinedAt: the node at which a joined value was made
func (s *Sim) joinedAt(t *Term) *Node {
	if t.k != TJoin {
		return nil
	}
	var n int
	if i := strings.IndexByte(t.op, '@'); i > 0 {
		fmt.Sscan(t.op[i+1:], &n)
	}
	return s.bySeq[n]
}

func (s *Sim) joinEnv(n *Node, inst *Inst, k fkey) *Term {
	return s.joinTerm(n, "e", nil, inst, k.v, k.i, valType(k.v, k.i))
}

func (s *Sim) joinMem(n *Node, loc *Term) *Term {
	return s.joinTerm(n, "m", loc, nil, nil, 0, nil)
}

func valType(v ssa.Value, i int) types.Type {
	if v == nil {
		return nil
	}
	t := v.Type()
	if i >= 0 {
		if tu, ok := t.(*types.Tuple); ok && i < tu.Len() {
			return tu.At(i).Type()
		}
	}
	return t
}

// killJoins: terms that name a value joined at n in an earlier round are stale now
func (s *Sim) killJoins(st *State, n *Node) {
	if len(n.joins) == 0 {
		return
	}
	s.killWith(st, n.joins, func(inst *Inst, k fkey) *Term { return s.joinEnv(n, inst, k) }, func(loc *Term) *Term { return s.joinMem(n, loc) })
}

// killSite: the site terms in ids are about to be defined anew
func (s *Sim) killSite(st *State, ids map[int]bool, tag string) {
	s.killWith(st, ids, func(inst *Inst, k fkey) *Term {
		return s.T.mk(TStale, tag, nil, inst, k.v, k.i, valType(k.v, k.i))
	}, func(loc *Term) *Term { return s.T.mk(TStale, tag+"m", loc, nil, nil, 0, nil) })
}

func (s *Sim) killWith(st *State, dead map[int]bool, env func(*Inst, fkey) *Term, mem func(*Term) *Term) {
	type upd struct {
		i *Inst
		k fkey
		f Fact
		t *Term
	}
	var us []upd
	for i, fr := range st.frames {
		for k, t := range fr.m {
			if t.dependsOn(dead) {
				us = append(us, upd{i, k, s.fact(st, t), t})
			}
		}
	}
	sort.Slice(us, func(a, b int) bool { return keyLess(us[a].i, us[a].k, us[b].i, us[b].k) })
	rep := map[*Term]*Term{} // equal values keep equal names
	type mupd struct {
		loc *Term
		f   Fact
		t   *Term
	}
	var ms []mupd
	var drop []*Term
	for l, v := range st.mem {
		if l.dependsOn(dead) {
			drop = append(drop, l)
		} else if v.dependsOn(dead) {
			ms = append(ms, mupd{l, s.fact(st, v), v})
		}
	}
	sort.Slice(ms, func(a, b int) bool { return ms[a].loc.id < ms[b].loc.id })
	for _, l := range drop {
		delete(st.mem, l)
	}
	for _, u := range us {
		if rep[u.t] == nil {
			rep[u.t] = env(u.i, u.k)
		}
	}
	for _, u := range ms {
		if rep[u.t] == nil {
			rep[u.t] = mem(u.loc)
		}
	}
	kept := map[*Term]Fact{}
	for t, f := range st.facts {
		if t.dependsOn(dead) {
			delete(st.facts, t)
			if carried(t) {
				if u := s.within(t, func(i int) *Term { return s.rename(t.args[i], dead, rep) }); u != nil {
					kept[u] = f
				}
			}
		} else if f.tag != nil && f.tag.dependsOn(dead) {
			f.tag = s.rename(f.tag, dead, rep)
			st.facts[t] = f
		}
	}
	for t, f := range kept {
		st.facts[t] = f
	}
	for _, u := range us {
		if u.f.tag != nil && u.f.tag.dependsOn(dead) {
			u.f.tag = s.rename(u.f.tag, dead, rep)
		}
		t := rep[u.t]
		st.set(u.i, u.k.v, u.k.i, t)
		if u.f != (Fact{}) {
			st.facts[t] = u.f
		}
	}
	for _, u := range ms {
		if u.f.tag != nil && u.f.tag.dependsOn(dead) {
			u.f.tag = s.rename(u.f.tag, dead, rep)
		}
		t := rep[u.t]
		st.mem[u.loc] = t
		if u.f != (Fact{}) {
			st.facts[t] = u.f
		}
	}
	if len(st.defers) > 0 {
		for i, l := range st.defers {
			for j, d := range l {
				ch := d.fv != nil && d.fv.dependsOn(dead)
				for _, a := range d.args {
					ch = ch || a.dependsOn(dead)
				}
				if ch {
					nl := append([]deferred{}, l...)
					nd := d
					nd.args = append([]*Term{}, d.args...)
					for x, a := range nd.args {
						if a.dependsOn(dead) {
							nd.args[x] = s.T.mk(TStale, "defer", nil, i, d.instr, x, a.typ)
						}
					}
					if nd.fv != nil && nd.fv.dependsOn(dead) && nd.fv.k != TClosure {
						nd.fv = s.T.mk(TStale, "defer", nil, i, d.instr, -2, nd.fv.typ)
					}
					nl[j] = nd
					m := map[*Inst][]deferred{}
					for k, v := range st.defers {
						m[k] = v
					}
					m[i] = nl
					st.defers = m
					l = nl
				}
			}
		}
	}
	st.A = st.A.Kill(dead)
}

func joinFact(a, b Fact) Fact {
	if a.nil_ != b.nil_ {
		a.nil_ = 0
	}
	if a.truth != b.truth {
		a.truth = 0
	}
	if a.tag != b.tag {
		a.tag = nil
	}
	return a
}

func (s *Sim) tag(st *State, t *Term) *Term { return s.fact(st, t).tag }

func (s *Sim) setTag(st *State, t, tag *Term) {
	f := st.facts[t]
	f.tag = tag
	st.facts[t] = f
}

func keyLess(i *Inst, a fkey, j *Inst, b fkey) bool {
	if i != j {
		return i.id < j.id
	}
	if a.v != b.v {
		x, y := a.v.Name(), b.v.Name()
		if x != y {
			return x < y
		}
		return a.v.Pos() < b.v.Pos()
	}
	return a.i < b.i
}

// rename: a tag after values got new names, nil if one of them has none
func (s *Sim) rename(t *Term, dead map[int]bool, rep map[*Term]*Term) *Term {
	if r := rep[t]; r != nil {
		return r
	}
	if !t.dependsOn(dead) {
		return t
	}
	if len(t.args) == 0 || dead[t.id] {
		return nil
	}
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		if a == nil {
			continue
		}
		if args[i] = s.rename(a, dead, rep); args[i] == nil {
			return nil
		}
	}
	return s.T.mk(t.k, t.op, t.obj, t.inst, t.val, t.idx, t.typ, args...)
}

// unify: what two tags say alike, in terms of the joined values
func (s *Sim) unify(a, b *Term, rep map[[2]*Term]*Term) *Term {
	if a == nil || b == nil {
		return nil
	}
	if a == b {
		return a
	}
	if j := rep[[2]*Term{a, b}]; j != nil {
		return j
	}
	if a.k != b.k || a.op != b.op || a.obj != b.obj || a.inst != b.inst || a.val != b.val || a.idx != b.idx || len(a.args) != len(b.args) || len(a.args) == 0 {
		return nil
	}
	args := make([]*Term, len(a.args))
	for i := range args {
		if a.args[i] == nil && b.args[i] == nil {
			continue
		}
		if args[i] = s.unify(a.args[i], b.args[i], rep); args[i] == nil {
			return nil
		}
	}
	return s.T.mk(a.k, a.op, a.obj, a.inst, a.val, a.idx, a.typ, args...)
}

func isText(t *Term) bool {
	if t.k == TConst {
		_, ok := t.str()
		return ok
	}
	return t.typ != nil && isString(t.typ)
}

// merge joins src into dst at n, reports whether dst changed
func (s *Sim) merge(dst, src *State, n *Node) bool {
	changed := false
	nf := map[*Term]Fact{}
	rep := map[[2]*Term]*Term{} // values equal on both sides stay equal
	tags := map[*Term][2]*Term{}
	both := func(a, b, j *Term) { // texts that are not empty on either side
		if !isText(a) && !isText(b) || !s.nonEmpty(dst, a) || !s.nonEmpty(src, b) {
			return
		}
		e := s.T.bin(tokEQL, j, s.T.constVal(constantString(""), types.Typ[types.String]), nil)
		nf[e] = Fact{truth: -1}
		if dst.facts[e].truth != -1 {
			changed = true
		}
	}
	var is []*Inst
	for i := range dst.frames {
		is = append(is, i)
	}
	sort.Slice(is, func(a, b int) bool { return is[a].id < is[b].id })
	for _, i := range is {
		df := dst.frames[i]
		sf := src.frames[i]
		if sf == nil {
			delete(dst.frames, i)
			changed = true
			continue
		}
		if sf == df {
			continue
		}
		var ks []fkey
		for k, dt := range df.m {
			if sf.m[k] != dt {
				ks = append(ks, k)
			}
		}
		sort.Slice(ks, func(a, b int) bool { return keyLess(i, ks[a], i, ks[b]) })
		for _, k := range ks {
			dt := df.m[k]
			stt := sf.m[k]
			f := df
			if f.own != dst {
				f = &frame{m: make(map[fkey]*Term, len(df.m)), own: dst}
				for k2, x := range dst.frames[i].m {
					f.m[k2] = x
				}
				dst.frames[i] = f
				df = f
			}
			if stt == nil {
				delete(f.m, k)
				changed = true
				continue
			}
			j := rep[[2]*Term{dt, stt}]
			if j == nil {
				j = s.joinEnv(n, i, k)
				rep[[2]*Term{dt, stt}] = j
			}
			ga, gb := s.fact(dst, dt), s.fact(src, stt)
			fa := joinFact(ga, gb)
			tags[j] = [2]*Term{ga.tag, gb.tag}
			if dt != j {
				changed = true
				f.m[k] = j
			} else if fa != dst.facts[j] {
				changed = true
			}
			nf[j] = fa
			both(dt, stt, j)
		}
	}
	var ls []*Term
	fields := map[*Term][]*Term{} // of objects that are joined
	held := map[*Term]*Term{}
	for l, dv := range dst.mem {
		if src.mem[l] != dv {
			ls = append(ls, l)
		}
		if l.k == TFieldAddr {
			fields[l.args[0]] = append(fields[l.args[0]], l)
			held[l] = dv
		}
	}
	sort.Slice(ls, func(a, b int) bool { return ls[a].id < ls[b].id })
	for _, l := range ls {
		dv, sv := dst.mem[l], src.mem[l]
		if sv == nil {
			delete(dst.mem, l)
			changed = true
			continue
		}
		j := rep[[2]*Term{dv, sv}]
		if j == nil {
			j = s.joinMem(n, l)
			rep[[2]*Term{dv, sv}] = j
		}
		ga, gb := s.fact(dst, dv), s.fact(src, sv)
		fa := joinFact(ga, gb)
		if _, ok := tags[j]; !ok {
			tags[j] = [2]*Term{ga.tag, gb.tag}
		}
		if dv != j {
			dst.mem[l] = j
			changed = true
		} else if fa != dst.facts[j] {
			changed = true
		}
		nf[j] = fa
		both(dv, sv, j)
	}
	// fields of the one object become fields of the joined one
	for done := map[[2]*Term]bool{}; len(fields) > 0; {
		var todo [][2]*Term
		for pr := range rep {
			if !done[pr] && len(fields[pr[0]]) > 0 {
				todo = append(todo, pr)
			}
		}
		if len(todo) == 0 {
			break
		}
		sort.Slice(todo, func(a, b int) bool {
			return todo[a][0].id < todo[b][0].id || todo[a][0] == todo[b][0] && todo[a][1].id < todo[b][1].id
		})
		for _, pr := range todo {
			done[pr] = true
			of := rep[pr]
			fs := fields[pr[0]]
			sort.Slice(fs, func(a, b int) bool { return fs[a].id < fs[b].id })
			for _, l := range fs {
				lj := s.within(l, func(int) *Term { return of })
				sl := s.within(l, func(int) *Term { return pr[1] })
				if lj == nil || sl == nil || src.mem[sl] == nil {
					continue
				}
				dv, sv := held[l], src.mem[sl]
				j := dv
				if dv != sv {
					if j = rep[[2]*Term{dv, sv}]; j == nil {
						j = s.joinMem(n, lj)
						rep[[2]*Term{dv, sv}] = j
					}
					ga, gb := s.fact(dst, dv), s.fact(src, sv)
					nf[j] = joinFact(ga, gb)
					if _, ok := tags[j]; !ok {
						tags[j] = [2]*Term{ga.tag, gb.tag}
					}
					both(dv, sv, j)
				}
				if dst.mem[lj] != j {
					dst.mem[lj] = j
					changed = true
				}
			}
		}
	}
	for j, g := range tags {
		if f := nf[j]; f.tag == nil {
			f.tag = s.unify(g[0], g[1], rep)
			if f != nf[j] {
				nf[j] = f
				changed = true
			}
		}
	}
	for t, fd := range dst.facts {
		if !carried(t) || src.facts[t] == fd {
			continue
		}
		for u, fs := range src.facts {
			if !carried(u) || u.op != t.op {
				continue
			}
			if j := s.within(t, func(i int) *Term { return s.unify(t.args[i], u.args[i], rep) }); j != nil {
				if f := joinFact(fd, fs); f != (Fact{}) {
					nf[j] = f
					if dst.facts[j] != f {
						changed = true
					}
				}
			}
		}
	}
	for t, fd := range dst.facts {
		if _, ok := nf[t]; ok {
			continue
		}
		fs, ok := src.facts[t]
		if !ok {
			fs = s.fact(src, t)
		}
		j := joinFact(fd, fs)
		if j.tag == nil {
			j.tag = s.unify(fd.tag, fs.tag, rep)
		}
		if j != fd {
			changed = true
			if j == (Fact{}) {
				delete(dst.facts, t)
			} else {
				dst.facts[t] = j
			}
		}
	}
	for t, f := range nf {
		if f == (Fact{}) {
			delete(dst.facts, t)
		} else {
			dst.facts[t] = f
		}
	}
	for i, dl := range dst.defers {
		sl := src.defers[i]
		for j := range dl {
			if j >= len(sl) {
				break
			}
			for a := range dl[j].args {
				if dl[j].args[a] != sl[j].args[a] {
					t := s.joinTerm(n, "d", nil, i, dl[j].instr, a, dl[j].args[a].typ)
					if dl[j].args[a] != t {
						nl := append([]deferred{}, dl...)
						nl[j].args = append([]*Term{}, dl[j].args...)
						nl[j].args[a] = t
						m := map[*Inst][]deferred{}
						for k, v := range dst.defers {
							m[k] = v
						}
						m[i] = nl
						dst.defers = m
						dl = nl
						changed = true
					}
				}
			}
		}
	}
	if len(src.trace) > 0 && len(dst.trace) == 0 {
		dst.trace = src.trace
	}
	return changed
}

// fact of a term, including what follows from its structure
func (s *Sim) fact(st *State, t *Term) Fact {
	if t == nil {
		return Fact{}
	}
	f := st.facts[t]
	if f.tag == nil && s.h.Tag != nil {
		f.tag = s.h.Tag(s, st, t)
	}
	switch t.k {
	case TConst:
		if t.isNilConst() {
			f.nil_ = -1
		} else if t.c != nil {
			f.nil_ = 1
			if t.c.Kind() == constant.Bool {
				f.truth = -1
				if constant.BoolVal(t.c) {
					f.truth = 1
				}
			}
		}
	case TAlloc, TGlobal, TFunc, TClosure, TMake, TFieldAddr, TIndexAddr, TIface:
		f.nil_ = 1
		if t.k == TIface && f.tag == nil {
			f.tag = s.fact(st, t.args[0]).tag
		}
	case TLoad:
		if t.args[0].k == TGlobal && t.typ != nil && isErr(t.typ) {
			f.nil_ = 1
		}
	case TPure:
		if t.op == "errwrap" {
			if g := s.fact(st, t.args[0]); g.nil_ != 0 {
				f.nil_ = g.nil_
			}
		}
	case TAssert, TConv:
		g := s.fact(st, t.args[0])
		if f.nil_ == 0 && t.k == TConv {
			f.nil_ = g.nil_
		}
		if f.tag == nil {
			f.tag = g.tag
		}
	case TNot:
		if g := s.truth(st, t.args[0]); g != 0 {
			f.truth = -g
		}
	case TBin:
		if f.truth == 0 {
			f.truth = s.binTruth(st, t)
		}
	}
	return f
}

func (s *Sim) truth(st *State, t *Term) int8   { return s.fact(st, t).truth }
func (s *Sim) nilness(st *State, t *Term) int8 { return s.fact(st, t).nil_ }

func (s *Sim) binTruth(st *State, t *Term) int8 {
	if t.op != "==" && t.op != "<" && t.op != "<=" {
		return 0
	}
	x, y := t.args[0], t.args[1]
	if t.op == "==" {
		if x == y && !isFloat(x.typ) {
			return 1
		}
		var o *Term
		if x.isNilConst() {
			o = y
		} else if y.isNilConst() {
			o = x
		}
		if o != nil {
			switch s.nilness(st, o) {
			case 1:
				return -1
			case -1:
				return 1
			}
			return 0
		}
		// one is nil, the other is not
		a, b := s.nilness(st, x), s.nilness(st, y)
		if a*b == -1 && isRef(x.typ) && isRef(y.typ) {
			return -1
		}
		// x == 0 where 0 < x is known
		if n, ok := y.int64(); ok && n == 0 {
			if st.facts[s.T.bin(token.LSS, y, x, nil)].truth == 1 {
				return -1
			}
		}
		if n, ok := x.int64(); ok && n == 0 {
			if st.facts[s.T.bin(token.LSS, x, y, nil)].truth == 1 {
				return -1
			}
		}
	}
	if t.op == "<" && x == y {
		return -1
	}
	return 0
}

func isRef(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Slice, *types.Chan, *types.Signature:
		return true
	}
	return false
}

// assume adds the truth of a condition, reports whether it is possible
func (s *Sim) assume(st *State, t *Term, truth bool) bool {
	if t.k == TNot {
		return s.assume(st, t.args[0], !truth)
	}
	want := int8(-1)
	if truth {
		want = 1
	}
	if g := s.truth(st, t); g != 0 {
		return g == want
	}
	if t.k == TConst {
		return true
	}
	if t.k == TBin && t.op == "==" {
		x, y := t.args[0], t.args[1]
		var o *Term
		if x.isNilConst() {
			o = y
		} else if y.isNilConst() {
			o = x
		}
		if o != nil {
			s.setNil(st, o, -want)
			return true
		}
		if truth {
			// equal values share what is known about them
			a, b := s.nilness(st, x), s.nilness(st, y)
			if a != 0 && b == 0 {
				s.setNil(st, y, a)
			} else if b != 0 && a == 0 {
				s.setNil(st, x, b)
			}
		}
	}
	f := st.facts[t]
	f.truth = want
	st.facts[t] = f
	// what has elements is not nil
	if t.k == TBin && len(t.args) == 2 {
		for i, x := range t.args {
			if n, ok := t.args[1-i].int64(); ok && x.k == TLen && isRef(x.args[0].typ) && s.nilness(st, x.args[0]) == 0 {
				if t.op == "==" && (n == 0 && !truth || n > 0 && truth) ||
					i == 1 && (t.op == "<" && n >= 0 || t.op == "<=" && n > 0) && truth ||
					i == 0 && (t.op == "<" && n > 0 || t.op == "<=" && n >= 0) && !truth {
					s.setNil(st, x.args[0], 1)
				}
			}
		}
	}
	return true
}

func (s *Sim) setNil(st *State, t *Term, n int8) {
	if t.k == TPure && t.op == "errwrap" {
		s.setNil(st, t.args[0], n)
		return
	}
	f := st.facts[t]
	f.nil_ = n
	st.facts[t] = f
}

// ---------------------------------------------------------------- values

func (s *Sim) val(st *State, inst *Inst, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return s.T.constTerm(v)
	case *ssa.Function:
		return s.T.mk(TFunc, "", v, nil, nil, 0, v.Type())
	case *ssa.Global:
		return s.T.mk(TGlobal, "", v, nil, nil, 0, v.Type())
	case *ssa.Builtin:
		return s.T.mk(TBuiltin, v.Name(), nil, nil, nil, 0, v.Type())
	}
	if t := st.get(inst, v, -1); t != nil {
		return t
	}
	return s.T.mk(TUnknown, "", nil, inst, v, -1, v.Type())
}

func (s *Sim) comp(st *State, inst *Inst, v ssa.Value, i int) *Term {
	if t := st.get(inst, v, i); t != nil {
		return t
	}
	return s.T.mk(TUnknown, "", nil, inst, v, i, valType(v, i))
}

// root of an address
func locRoot(l *Term) *Term {
	for {
		switch l.k {
		case TFieldAddr, TIndexAddr, TMapElem, TElems, TChanBuf, TDeref, TSlice, TLenOf:
			l = l.args[0]
		default:
			return l
		}
	}
}

func localRoot(l *Term) bool {
	r := locRoot(l)
	return r.k == TAlloc || r.k == TMake || r.k == TClosure
}

func (s *Sim) elems(t *Term) *Term {
	return s.T.mk(TElems, "", nil, nil, nil, 0, nil, t)
}

func (s *Sim) zero(typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return s.T.constVal(constant.MakeBool(false), typ)
		case u.Info()&types.IsInteger != 0:
			return s.T.constVal(constant.MakeInt64(0), typ)
		case u.Info()&types.IsFloat != 0:
			return s.T.constVal(constant.MakeFloat64(0), typ)
		case u.Info()&types.IsString != 0:
			return s.T.constVal(constant.MakeString(""), typ)
		}
	case *types.Pointer, *types.Interface, *types.Map, *types.Slice, *types.Chan, *types.Signature:
		return s.T.constVal(nil, typ)
	}
	return nil
}

func (s *Sim) fieldAddr(base *Term, v *types.Var, i int) *Term {
	name := fmt.Sprint(i)
	var t types.Type
	if v != nil {
		name = v.Name()
		t = types.NewPointer(v.Type())
	}
	return s.T.mk(TFieldAddr, name, v, nil, nil, i, t, base)
}

func (s *Sim) fieldOf(st *State, x *Term, v *types.Var, i int) *Term {
	if x.k == TStruct && i < len(x.args) && x.args[i] != nil {
		return x.args[i]
	}
	name := fmt.Sprint(i)
	var t types.Type
	if v != nil {
		name, t = v.Name(), v.Type()
	}
	if x.k == TConst && x.c == nil && v != nil {
		if z := s.zero(v.Type()); z != nil {
			return z
		}
	}
	return s.T.mk(TField, name, v, nil, nil, i, t, x)
}

// structAt: a struct of which fields are known
func (s *Sim) structAt(st *State, loc *Term, typ types.Type) *Term {
	sty, ok := typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	args := make([]*Term, sty.NumFields())
	any := false
	for i := 0; i < sty.NumFields(); i++ {
		at := s.fieldAddr(loc, sty.Field(i), i)
		v, ok := st.mem[at]
		if !ok {
			v = s.structAt(st, at, sty.Field(i).Type())
		}
		if v != nil {
			args[i] = v
			any = true
		}
	}
	if !any {
		return nil
	}
	return s.T.mk(TStruct, typeName(typ), nil, nil, nil, 0, typ, args...)
}

func (s *Sim) load(st *State, inst *Inst, in *ssa.UnOp, loc *Term) *Term {
	typ := in.Type()
	if v, ok := st.mem[loc]; ok {
		return v
	}
	// a whole struct, known field by field
	if v := s.structAt(st, loc, typ); v != nil {
		return v
	}
	// a field of a struct that is known as a whole
	if loc.k == TFieldAddr {
		if v, ok := st.mem[loc.args[0]]; ok {
			fv, _ := loc.obj.(*types.Var)
			return s.fieldOf(st, v, fv, loc.idx)
		}
	}
	t := s.T.mk(TLoad, "", nil, inst, in, 0, typ, loc)
	if loc.k == TGlobal && isErr(typ) {
		// sentinel errors are set once
		t = s.T.mk(TLoad, "", nil, nil, nil, 0, typ, loc)
		s.setNil(st, t, 1)
		st.mem[loc] = t
		return t
	}
	s.killSite(st, map[int]bool{t.id: true}, fmt.Sprintf("l%d", t.id))
	if len(t.deps) > 0 {
		st.mem[loc] = t
	}
	return t
}

func (s *Sim) mayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	ra, rb := locRoot(a), locRoot(b)
	if ra != rb && localRoot(a) && localRoot(b) {
		return false
	}
	if ra != rb && (ra.k == TAlloc && !escapes(ra) || rb.k == TAlloc && !escapes(rb)) {
		return false
	}
	switch {
	case a.k == TFieldAddr && b.k == TFieldAddr:
		return a.obj == b.obj && s.mayAlias(a.args[0], b.args[0])
	case a.k == TIndexAddr && b.k == TIndexAddr:
		if x, ok := a.args[1].int64(); ok {
			if y, ok := b.args[1].int64(); ok && x != y {
				return false
			}
		}
		return true
	case a.k == TMapElem && b.k == TMapElem:
		if x, ok := a.args[1].strip().str(); ok {
			if y, ok := b.args[1].strip().str(); ok && x != y {
				return false
			}
		}
		return a.args[0] == b.args[0]
	case a.k == TGlobal && b.k == TGlobal:
		return false
	case a.k == TFieldAddr || b.k == TFieldAddr:
		// a field against a whole struct or an unknown pointer
		if a.k == TAlloc || b.k == TAlloc || a.k == TGlobal || b.k == TGlobal {
			return ra == rb
		}
		if a.typ != nil && b.typ != nil {
			return types.Identical(a.typ, b.typ)
		}
		return false
	}
	if a.k == TAlloc || b.k == TAlloc {
		return ra == rb
	}
	if a.k != b.k {
		return false
	}
	return a.typ == nil || b.typ == nil || types.Identical(a.typ, b.typ)
}

func escapes(t *Term) bool {
	a, ok := t.val.(*ssa.Alloc)
	return !ok || a.Heap
}

func (s *Sim) store(st *State, inst *Inst, in ssa.Instruction, loc, val *Term) {
	for l := range st.mem {
		if l != loc && s.mayAlias(l, loc) {
			delete(st.mem, l)
		} else if l != loc && under(l, loc) {
			delete(st.mem, l)
		}
	}
	st.mem[loc] = val
	if val.k == TStruct {
		if sty, ok := val.typ.Underlying().(*types.Struct); ok {
			delete(st.mem, loc)
			for i := 0; i < sty.NumFields() && i < len(val.args); i++ {
				if val.args[i] != nil {
					s.spread(st, s.fieldAddr(loc, sty.Field(i), i), val.args[i])
				}
			}
		}
	}
	if loc.k == TIndexAddr && s.nilness(st, val) == 1 && val.typ != nil && isErr(val.typ) {
		st.mem[s.elems(loc.args[0])] = val
	}
}

// spread stores a value, a struct field by field
func (s *Sim) spread(st *State, loc, val *Term) {
	if val.k == TStruct {
		if sty, ok := val.typ.Underlying().(*types.Struct); ok {
			for i := 0; i < sty.NumFields() && i < len(val.args); i++ {
				if val.args[i] != nil {
					s.spread(st, s.fieldAddr(loc, sty.Field(i), i), val.args[i])
				}
			}
			return
		}
	}
	st.mem[loc] = val
}

// under reports whether l is a part of base
func under(l, base *Term) bool {
	for l != nil {
		if l == base {
			return true
		}
		switch l.k {
		case TFieldAddr, TIndexAddr, TMapElem, TElems, TSlice:
			l = l.args[0]
		default:
			return false
		}
	}
	return false
}

// havoc forgets what is stored below an address
func (s *Sim) havoc(st *State, base *Term) {
	base = base.strip()
	for l := range st.mem {
		if under(l, base) || l == base {
			delete(st.mem, l)
		}
	}
}

// killShared forgets memory that other goroutines may have changed
func (s *Sim) killShared(st *State) {
	for l := range st.mem {
		switch l.k {
		case TFieldAddr, TGlobal:
			if !localRoot(l) {
				delete(st.mem, l)
			}
		case TIndexAddr, TMapElem:
			if !localRoot(l) {
				delete(st.mem, l)
			}
		}
	}
}

// ---------------------------------------------------------------- transfer

func (s *Sim) run(inst *Inst, blk *ssa.BasicBlock, idx int, st *State) {
	for i := idx; i < len(blk.Instrs); i++ {
		s.steps++
		in := blk.Instrs[i]
		if s.h.Instr != nil {
			s.h.Instr(s, inst, in, st)
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			s.edge(inst, blk, blk.Succs[0], 0, st)
			return
		case *ssa.If:
			c := s.val(st, inst, in.Cond)
			for j, truth := range []bool{true, false} {
				n := st
				if j == 0 {
					n = st.clone()
				}
				if !s.assume(n, c, truth) {
					continue
				}
				if !s.scanExit(n, in, c, truth) {
					continue
				}
				s.collected(inst, in, n, truth)
				if s.h.Refine != nil && !s.h.Refine(s, inst, in, n, c, truth) {
					continue
				}
				s.edge(inst, blk, blk.Succs[j], j, n)
			}
			return
		case *ssa.Return:
			var res []*Term
			for _, r := range in.Results {
				res = append(res, s.val(st, inst, r))
			}
			s.ret(inst, in, st, res)
			return
		case *ssa.Panic:
			if s.h.Panic != nil {
				s.h.Panic(s, inst, in, st)
			}
			return
		case *ssa.RunDefers:
			d, ok := st.popDefer(inst)
			if !ok {
				continue
			}
			s.callDeferred(inst, blk, i, in, d, st)
			return
		case *ssa.Defer:
			d := deferred{instr: in}
			if !in.Call.IsInvoke() {
				d.fv = s.val(st, inst, in.Call.Value)
			} else {
				d.args = append(d.args, s.val(st, inst, in.Call.Value))
			}
			for _, a := range in.Call.Args {
				d.args = append(d.args, s.val(st, inst, a))
			}
			st.pushDefer(inst, d)
			continue
		case *ssa.Go:
			s.goStmt(inst, blk, i, in, st)
			return
		case *ssa.Call:
			var args []*Term
			var fv *Term
			if in.Call.IsInvoke() {
				args = append(args, s.val(st, inst, in.Call.Value))
			} else {
				fv = s.val(st, inst, in.Call.Value)
			}
			for _, a := range in.Call.Args {
				args = append(args, s.val(st, inst, a))
			}
			s.call(inst, blk, i, in, &in.Call, fv, args, 'c', i+1, st)
			return
		default:
			s.simple(inst, in, st)
		}
		if st.A == nil {
			return
		}
		// forks asked for by simple instructions
		if fs := s.pending; fs != nil {
			s.pending = nil
			for _, f := range fs {
				s.run(inst, blk, i+1, f)
			}
			return
		}
	}
}

// scanExit: a full scan over a slice known to hold an error must have seen it
func (s *Sim) scanExit(st *State, in *ssa.If, c *Term, truth bool) bool {
	for c.k == TNot {
		c, truth = c.args[0], !truth
	}
	if truth || c.k != TBin || c.op != "<" {
		return true
	}
	n := c.args[1]
	for l := range st.mem {
		if l.k != TElems {
			continue
		}
		sl := l.args[0]
		if n.k == TLen && n.args[0] == sl || s.lenOf(st, sl) == n && loopReadsErrs(in) {
			return st.marks[fmt.Sprintf("saw%d", sl.id)]
		}
	}
	return true
}

// loopReadsErrs: the loop headed by this test loads elements of an error slice
func loopReadsErrs(in *ssa.If) bool {
	h := in.Block()
	for _, b := range in.Parent().Blocks {
		if b == h || !h.Dominates(b) {
			continue
		}
		for _, i := range b.Instrs {
			if ia, ok := i.(*ssa.IndexAddr); ok && isErrSlice(ia.X.Type()) {
				return true
			}
		}
	}
	return false
}

func (s *Sim) edge(inst *Inst, from, to *ssa.BasicBlock, succ int, st *State) {
	// which predecessor edge
	pi := -1
	seen := 0
	for i, p := range to.Preds {
		if p == from {
			// two edges from the same block: the succ-th one
			if len(from.Succs) == 2 && from.Succs[0] == from.Succs[1] && seen < succ {
				seen++
				continue
			}
			pi = i
			break
		}
	}
	type pv struct {
		phi *ssa.Phi
		t   *Term
	}
	var pvs []pv
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if pi >= 0 {
			pvs = append(pvs, pv{phi, s.val(st, inst, phi.Edges[pi])})
		}
	}
	for _, p := range pvs {
		st.set(inst, p.phi, -1, p.t)
	}
	// the rounds of a loop are not told apart by what was called last
	for _, q := range to.Preds {
		if to.Dominates(q) {
			st.unmark(fmt.Sprintf("r%d=", inst.id), fmt.Sprintf("s%d.", inst.id))
			break
		}
	}
	// ok := a && b: how it came about
	for _, x := range pvs {
		if sides(x.phi) && !to.Dominates(from) {
			key := fmt.Sprintf("s%d.%s=", inst.id, x.phi.Name())
			st.unmark(key)
			if _, c := x.phi.Edges[pi].(*ssa.Const); c {
				st.mark(key + "c")
			} else {
				st.mark(key + "v")
			}
		}
	}
	if s.h.Unroll {
		s.round(inst, from, to, succ, st)
	}
	if s.h.BackEdge != nil && to.Dominates(from) {
		s.h.BackEdge(s, inst, st)
	}
	if s.h.Edge != nil {
		s.h.Edge(s, inst, from, to, to.Dominates(from), st)
	}
	s.arrive(inst, to, 0, st)
}

// sides: what && and || evaluate to, one side of which is a constant
func sides(phi *ssa.Phi) bool {
	if b, ok := phi.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 || isLoopHead(phi.Block()) {
		return false
	}
	consts := 0
	for _, e := range phi.Edges {
		if _, ok := e.(*ssa.Const); ok {
			consts++
		}
	}
	return consts > 0 && consts == len(phi.Edges)-1 && (phi.Comment == "&&" || phi.Comment == "||")
}

// round marks the state with the round of a loop of a few rounds
func (s *Sim) round(inst *Inst, from, to *ssa.BasicBlock, succ int, st *State) {
	if succ == 1 {
		st.unmark(fmt.Sprintf("u%d.%d=", inst.id, from.Index))
	}
	test, ok := to.Instrs[len(to.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	lt, ok := test.Cond.(*ssa.BinOp)
	if !ok || lt.Op != token.LSS {
		return
	}
	if in, ok := lt.Y.(ssa.Instruction); ok && in.Block() == to {
		return
	}
	if n, ok := s.val(st, inst, lt.Y).int64(); !ok || n > 24 {
		return
	}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if n, ok := s.val(st, inst, phi).int64(); ok && basicKind(phi.Type(), types.Int) {
			key := fmt.Sprintf("u%d.%d=", inst.id, to.Index)
			st.unmark(key)
			st.mark(fmt.Sprintf("%s%d", key, n))
			return
		}
	}
}

func (s *Sim) ret(inst *Inst, in *ssa.Return, st *State, res []*Term) {
	if s.h.CallReturn != nil {
		s.h.CallReturn(s, inst, in, st, res)
	}
	if inst.parent == nil {
		if s.h.RootReturn != nil {
			s.h.RootReturn(s, inst, in, st, res)
		}
		return
	}
	if inst.kind == 'z' { // looked at, but it runs some other time
		return
	}
	delete(st.frames, inst)
	if inst.kind == 'c' {
		// keep success and failure of a callee apart until the caller calls the next one
		st.unmark(fmt.Sprintf("r%d=", inst.id), fmt.Sprintf("r%d=", inst.parent.id), fmt.Sprintf("s%d.", inst.id))
		how := ""
		for i, v := range res {
			rt, x := inst.fn.Signature.Results().At(i).Type(), 0
			switch {
			case isErr(rt) || isRef(rt):
				x = int(s.nilness(st, v))
			case isBool(rt):
				x = int(s.truth(st, v))
			default:
				if c, ok := v.str(); ok && c == "" {
					x = -1
				} else if ok {
					x = 1
				}
			}
			how += [...]string{"-", "?", "+"}[x+1]
		}
		if strings.Trim(how, "?") != "" {
			st.mark(fmt.Sprintf("r%d=%s", inst.parent.id, how))
		}
	}
	if call, ok := inst.site.(*ssa.Call); ok && inst.kind == 'c' {
		s.setResults(st, inst.parent, call, res)
	}
	if inst.kind == 'x' {
		if call, ok := inst.site.(*ssa.Call); ok {
			var fr []*Term
			n := call.Call.Signature().Results().Len()
			for i := 0; i < n; i++ {
				fr = append(fr, s.fresh(st, inst.parent, call, i))
			}
			s.setResults(st, inst.parent, call, fr)
		}
	}
	if inst.kind == 'e' {
		// errgroup keeps the first error
		if call, ok := inst.site.(*ssa.Call); ok && len(res) == 1 && s.nilness(st, res[0]) == 1 {
			g := s.val(st, inst.parent, call.Call.Args[0])
			st.mem[s.T.mk(TDeref, "eg", nil, nil, nil, 0, nil, g)] = res[0]
		}
	}
	if inst.kind == 'g' && s.h.AfterGo != nil {
		s.h.AfterGo(s, inst.parent, inst.site.(*ssa.Go), st)
	}
	s.gc(st)
	s.arrive(inst.parent, inst.blk, inst.idx, st)
}

// gc drops facts and cells nothing refers to any more
func (s *Sim) gc(st *State) {
	live := map[int]bool{}
	add := func(t *Term) {
		for _, d := range t.deps {
			live[d] = true
		}
	}
	for _, f := range st.frames {
		for _, t := range f.m {
			add(t)
		}
	}
	for _, l := range st.defers {
		for _, d := range l {
			if d.fv != nil {
				add(d.fv)
			}
			for _, a := range d.args {
				add(a)
			}
		}
	}
	if x, ok := st.A.(interface{ Terms() []*Term }); ok {
		for _, t := range x.Terms() {
			add(t)
		}
	}
	// values in cells that are reachable
	for ch := true; ch; {
		ch = false
		for l, v := range st.mem {
			ok := len(l.deps) == 0
			for _, d := range l.deps {
				if live[d] {
					ok = true
				}
			}
			if !ok {
				continue
			}
			for _, d := range v.deps {
				if !live[d] {
					live[d] = true
					ch = true
				}
			}
		}
	}
	dead := func(t *Term) bool {
		for _, d := range t.deps {
			if !live[d] {
				return true
			}
		}
		return false
	}
	for l := range st.mem {
		if dead(l) {
			delete(st.mem, l)
		}
	}
	for t := range st.facts {
		if dead(t) {
			delete(st.facts, t)
		}
	}
}

func (s *Sim) setResults(st *State, inst *Inst, call *ssa.Call, res []*Term) {
	if len(res) == 1 {
		st.set(inst, call, -1, res[0])
		return
	}
	for i, r := range res {
		st.set(inst, call, i, r)
	}
}

// fresh result of an opaque call
func (s *Sim) fresh(st *State, inst *Inst, in ssa.Instruction, i int) *Term {
	var typ types.Type
	name := ""
	if ci, ok := in.(ssa.CallInstruction); ok {
		r := ci.Common().Signature().Results()
		if i >= 0 && i < r.Len() {
			typ = r.At(i).Type()
		}
		name = calleeName(ci.Common())
	} else if v, ok := in.(ssa.Value); ok {
		typ = valType(v, i)
	}
	t := s.T.mk(TCall, name, nil, inst, in, i, typ)
	s.killSite(st, map[int]bool{t.id: true}, fmt.Sprintf("c%d", t.id))
	return t
}
