package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Locks. Every function is analysed on its own, with closures and functions that
// leave with a different set of locks than they came with inlined; other calls are
// replaced by a summary: which kinds of lock the callee may acquire, which locks it
// expects its caller to hold, which arguments it makes visible to other goroutines.
// A kind of lock is a field (hnsw.RWMutex, vertex.Mutex): there is one index, cache,
// client per operation, so only vertex locks are told apart by the vertex and shard
// locks by the shard.

type lockReq struct {
	obj, class, mode, what, where, idx string
	hard                               bool // the object was visible to others by then
}

func (q lockReq) key() string {
	return fmt.Sprint(q.hard) + q.obj + "|" + q.class + "|" + q.mode + "|" + q.idx + "|" + q.what
}

type lockSum struct {
	fn      *ssa.Function
	acq     map[string]string // classes acquired, here or further down, and where
	wrapper bool
	reqs    map[string]lockReq
	pub     map[int]bool
	fresh   bool
	rets    map[string]bool // the locks held at its returns
}

// uneven: too big, or nothing tells the caller whether it still holds a lock
func (s *lockSum) uneven() bool {
	return len(s.rets) > 1 && s.fn.Signature.Results().Len() == 0 || len(s.fn.Blocks) > 14
}

var localTerm = regexp.MustCompile(`t\d`)

type lockEdge struct{ from, to, where, fn string }

type locks struct {
	p      *Prog
	owner  map[*types.Var]string
	sum    map[*ssa.Function]*lockSum
	roots  map[*ssa.Function]string
	edges  map[string]lockEdge
	seen   map[*ssa.Function]bool
	goes   map[*ssa.Function]bool // goroutine bodies nobody waits for
	final  bool
	r      *Report
	prop   string
	count  map[string]map[string]bool
	sites  map[string]lockSite
	value  map[*ssa.Function]bool // used as a value somewhere: callbacks, method values
	sites2 map[*ssa.Function]int
}

type lockSite struct {
	in   ssa.Instruction
	inst *Inst
}

// guarded fields: what has to be held to read or write them
type guard struct {
	lock string
	deep bool // calls on what the field points to as well
}

var guards = map[string]guard{
	"hnsw.entryPointID":             {lock: "hnsw.RWMutex"},
	"hnsw.currentMaximumLayer":      {lock: "hnsw.RWMutex"},
	"hnsw.initialInsertOnce":        {lock: "hnsw.RWMutex"},
	"hnsw.tombstones":               {lock: "hnsw.tombstoneLock"},
	"hnsw.resetCtx":                 {lock: "hnsw.resetLock"},
	"hnsw.resetCtxCancel":           {lock: "hnsw.resetLock"},
	"vertex.Level":                  {lock: "vertex.Mutex"},
	"vertex.Connections":            {lock: "vertex.Mutex"},
	"vertex.Maintenance":            {lock: "vertex.Mutex"},
	"vertex.Committed":              {lock: "vertex.Mutex"},
	"Client.sessionId":              {lock: "Client.lock"},
	"Client.pod":                    {lock: "Client.lock"},
	"Client.podInfo":                {lock: "Client.lock"},
	"Client.indices":                {lock: "Client.hnswLock"},
	"hnswCommitLogger.commitLogger": {lock: "hnswCommitLogger.Mutex", deep: true},
	"Pool.listSets":                 {lock: "Pool.Mutex"},
	"pools.visitedLists":            {lock: "pools.visitedListsLock", deep: true},
}

var shardCaches = map[string]string{"shardedLockCache.cache": "shardedLockCache.shardedLocks", "compressedShardedLockCache.cache": "compressedShardedLockCache.shardedLocks"}

var atomicOnly = map[string]bool{"hnsw.ef": true, "hnsw.efMin": true, "hnsw.efMax": true, "hnsw.efFactor": true, "hnsw.flatSearchCutoff": true,
	"shardedLockCache.count": true, "shardedLockCache.maxSize": true, "shardedLockCache.dims": true,
	"compressedShardedLockCache.count": true, "compressedShardedLockCache.maxSize": true}

func newLocks(p *Prog, r *Report, prop string) *locks {
	l := &locks{p: p, r: r, prop: prop, owner: map[*types.Var]string{}, sum: map[*ssa.Function]*lockSum{}, roots: map[*ssa.Function]string{}, edges: map[string]lockEdge{}, seen: map[*ssa.Function]bool{}, goes: map[*ssa.Function]bool{}, count: map[string]map[string]bool{}}
	for _, pk := range p.ssa.AllPackages() {
		if !strings.HasPrefix(pk.Pkg.Path(), modPath) {
			continue
		}
		for _, m := range pk.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			st, ok := t.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				l.owner[st.Field(i)] = t.Name() + "." + st.Field(i).Name()
			}
		}
	}
	return l
}

func (l *locks) note(rule, what string) {
	if l.count[rule] == nil {
		l.count[rule] = map[string]bool{}
	}
	l.count[rule][what] = true
}

func (l *locks) field(v *types.Var) string {
	if s, ok := l.owner[v]; ok {
		return s
	}
	return "?." + v.Name()
}

// staticClass: the kind of lock behind a mutex address
func (l *locks) staticClass(v ssa.Value) string {
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return ""
			}
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.FieldAddr:
			return l.field(fieldVar(x.X.Type(), x.Field))
		default:
			return ""
		}
	}
}

// canon names a value by how it is reached, not by when it was loaded
func (l *locks) canon(s *Sim, t *Term) string {
	for d := 0; t != nil && d < 20; d++ {
		switch t.k {
		case TLoad, TIface, TAssert, TConv, TDeref:
			t = t.args[0]
			continue
		case TParam:
			if t.inst == s.root {
				for i, q := range s.root.fn.Params {
					if t.val == any(q) {
						return fmt.Sprintf("$%d", i)
					}
				}
			}
		case TFieldAddr, TField:
			if fv, ok := t.obj.(*types.Var); ok {
				return l.canon(s, t.args[0]) + "." + fv.Name()
			}
		case TIndexAddr, TIndex:
			if len(t.args) > 1 {
				return l.canon(s, t.args[0]) + "[" + l.idx(s, t.args[1]) + "]"
			}
		case TGlobal:
			if g, ok := t.obj.(*ssa.Global); ok {
				return "g:" + g.Name()
			}
		case TConst:
			return t.String()
		}
		break
	}
	if t == nil {
		return "?"
	}
	return fmt.Sprintf("t%d", t.id)
}

func (l *locks) idx(s *Sim, t *Term) string {
	t = t.strip()
	for t.k == TConv {
		t = t.args[0]
	}
	switch t.k {
	case TBin:
		return "(" + l.idx(s, t.args[0]) + t.op + l.idx(s, t.args[1]) + ")"
	case TConst:
		if n, ok := t.int64(); ok {
			return fmt.Sprint(n)
		}
	}
	return l.canon(s, t)
}

// lock names the lock behind an address
func (l *locks) lock(s *Sim, t *Term) (class, key string, idx *Term) {
	t = t.strip()
	for t.k == TLoad {
		t = t.args[0]
	}
	if t.k == TIndexAddr {
		idx = t.args[1]
		t = t.args[0]
		for t.k == TLoad {
			t = t.args[0]
		}
	}
	if t.k == TFieldAddr || t.k == TField {
		if fv, ok := t.obj.(*types.Var); ok {
			class = l.field(fv)
			key = class
			if strings.HasPrefix(class, "vertex.") {
				key += "(" + l.canon(s, t.args[0]) + ")"
			}
			if idx != nil {
				key += "[" + l.idx(s, idx) + "]"
			}
			return
		}
	}
	c := l.canon(s, t)
	return "local:" + c, "local:" + c, nil
}

func classOf(key string) string {
	if i := strings.IndexAny(key, "([<"); i > 0 {
		return key[:i]
	}
	return key
}

type heldLock struct{ key, class, mode, at string }

func held(st *State) []heldLock {
	a, _ := st.A.(sig)
	var out []heldLock
	for k, v := range a {
		if strings.HasPrefix(k, "L:") && !strings.HasPrefix(v, "rel") {
			key := k[2:]
			i := strings.Index(v, "@")
			out = append(out, heldLock{key, classOf(key), v[:i], v[i+1:]})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	return out
}

// subst puts a call's arguments into a callee's name for a value
func (l *locks) subst(c *CallCtx, args []*Term, s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '$' {
			b.WriteByte(s[i])
			continue
		}
		j := i + 1
		n := 0
		for j < len(s) && s[j] >= '0' && s[j] <= '9' {
			n = n*10 + int(s[j]-'0')
			j++
		}
		if n < len(args) {
			b.WriteString(l.idx(c.S, args[n]))
		} else {
			b.WriteString("?")
		}
		i = j - 1
	}
	return b.String()
}

func rootTok(s string) string {
	if i := strings.IndexAny(s, ".["); i > 0 {
		return s[:i]
	}
	return s
}

// unpublished: an object this function made and nobody else can see yet
func (l *locks) unpublished(s *Sim, st *State, t *Term) bool {
	t = t.strip()
	for {
		switch t.k {
		case TFieldAddr, TIndexAddr, TIface, TConv:
			t = t.args[0]
			continue
		}
		break
	}
	if t.k != TAlloc && flagOf(st, fmt.Sprintf("fresh:%d", t.id)) == "" {
		return false
	}
	return flagOf(st, fmt.Sprintf("pub:%d", t.id)) == ""
}

func (l *locks) publish(st *State, t *Term) {
	t = t.unbox()
	if t.k == TAlloc || flagOf(st, fmt.Sprintf("fresh:%d", t.id)) != "" {
		setFlag(st, fmt.Sprintf("pub:%d", t.id), "1")
	}
}

func (l *locks) isRoot(f *ssa.Function) bool {
	if l.goes[f] {
		return true
	}
	if f.Parent() != nil {
		return false
	}
	if f.Object() != nil && f.Object().Exported() {
		return true
	}
	if f.Name() == "main" || f.Name() == "init" {
		return true
	}
	return len(l.p.callSites(f)) == 0
}

func (l *locks) goBody(g *ssa.Go) *ssa.Function {
	switch v := g.Call.Value.(type) {
	case *ssa.MakeClosure:
		return v.Fn.(*ssa.Function)
	case *ssa.Function:
		return v
	}
	return nil
}

func (l *locks) callees(f *ssa.Function) []*ssa.Function {
	skip := map[*ssa.Function]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if g, ok := in.(*ssa.Go); ok && !joinsLocally(g) {
				if h := l.goBody(g); h != nil {
					skip[h] = true
				}
			}
		}
	}
	var out []*ssa.Function
	for _, g := range l.p.callees(f) {
		if !skip[g] {
			out = append(out, g)
		}
	}
	return out
}

// acquires: the kinds of lock a function may take, itself or further down
func (l *locks) acquires(f *ssa.Function) map[string]string {
	if s := l.sum[f]; s != nil && s.acq != nil {
		return s.acq
	}
	out := map[string]string{}
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		if g == nil || seen[g] || g.Synthetic == "" && !l.p.inRepo[g] {
			return
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || len(ci.Common().Args) == 0 {
					continue
				}
				op, ok := lockOp(calleeName(ci.Common()))
				if !ok || op != "Lock" && op != "RLock" {
					continue
				}
				if c := l.staticClass(ci.Common().Args[0]); c != "" {
					if _, ok := out[c]; !ok {
						out[c] = shortFn(g) + " " + l.p.instrPos(in)
					}
				}
			}
		}
		for _, h := range l.callees(g) {
			walk(h)
		}
	}
	walk(f)
	l.get(f).acq = out
	return out
}

func (l *locks) get(f *ssa.Function) *lockSum {
	if l.sum[f] == nil {
		l.sum[f] = &lockSum{fn: f, reqs: map[string]lockReq{}, pub: map[int]bool{}}
	}
	return l.sum[f]
}

// relevant: the function takes locks, touches guarded fields or calls something with a summary
func (l *locks) relevant(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.FieldAddr:
				n := l.field(fieldVar(in.X.Type(), in.Field))
				if _, ok := guards[n]; ok || atomicOnly[n] || shardCaches[n] != "" {
					return true
				}
			case ssa.CallInstruction:
				if _, ok := lockOp(calleeName(in.Common())); ok {
					return true
				}
			case *ssa.MakeClosure:
				if l.relevant(in.Fn.(*ssa.Function)) {
					return true
				}
			}
		}
	}
	for _, g := range l.callees(f) {
		if s := l.sum[g]; s != nil && (s.wrapper || len(s.reqs) > 0) {
			return true
		}
		if len(l.acquires(g)) > 0 {
			return true
		}
	}
	return false
}

func (l *locks) violate(s *Sim, rule string, in ssa.Instruction, inst *Inst, st *State, what string) {
	if l.final {
		s.violate(rule, in, inst, st, what)
	}
}

const (
	lkBalance = "released-on-every-path"
	lkTwice   = "never-taken-twice"
	lkOrder   = "one-global-order"
	lkGuard   = "accessed-under-its-lock"
	lkAtomic  = "atomic-access-only"
	lkWait    = "held-until-workers-are-done"
)

// targets of a call that is not inlined
func (l *locks) targets(c *CallCtx) []target {
	var out []target
	for _, t := range c.S.targets(c) {
		if l.p.inRepo[t.fn] || t.fn.Synthetic != "" && t.fn.Blocks != nil {
			out = append(out, t)
		}
	}
	return out
}

// through synthetic wrappers to the method they call
func (l *locks) real(t target) target {
	if t.fn.Synthetic == "" || l.p.inRepo[t.fn] {
		return t
	}
	for _, b := range t.fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(*ssa.Call); ok {
				if f := ci.Call.StaticCallee(); f != nil && l.p.inRepo[f] {
					return target{fn: f, args: t.args, binds: t.binds}
				}
			}
		}
	}
	return t
}

func (l *locks) analyse(f *ssa.Function) (*Sim, bool) {
	sum := l.get(f)
	root := l.isRoot(f)
	changed := false
	req := func(q lockReq) {
		if _, ok := sum.reqs[q.key()]; !ok && len(sum.reqs) < 64 {
			sum.reqs[q.key()] = q
			changed = true
		}
	}
	wrapper := func() {
		if !sum.wrapper {
			sum.wrapper = true
			changed = true
		}
	}
	h := &Hooks{}
	h.Inline = func(inst *Inst, g *ssa.Function) bool {
		if g.Parent() != nil || g.Synthetic != "" && !l.p.inRepo[g] {
			return true
		}
		s := l.sum[g]
		if s != nil && s.wrapper && !l.isRoot(g) && !s.uneven() {
			return true
		}
		// plain accessors
		if len(g.Blocks) == 1 && len(g.Blocks[0].Instrs) < 16 && g.Signature.Results().Len() > 0 && l.p.inRepo[g] && l.relevant(g) {
			return true
		}
		// what it answers may tell what it did with what it was given
		if res := g.Signature.Results(); res.Len() == 2 && isBool(res.At(0).Type()) && isErr(res.At(1).Type()) && len(g.Blocks) < 16 && !hasLoop(g) && l.p.inRepo[g] && l.relevant(g) && !l.isRoot(g) {
			return true
		}
		// functions that are given a function to run
		for i := 0; i < g.Signature.Params().Len(); i++ {
			if _, ok := g.Signature.Params().At(i).Type().Underlying().(*types.Signature); ok && len(g.Blocks) < 30 && l.relevant(g) {
				return true
			}
		}
		return false
	}
	h.Init = func(s *Sim, st *State, r *Inst) { st.A = sig{} }
	h.GoBody = func(s *Sim, parent, child *Inst, g *ssa.Go, st *State) (bool, bool) {
		if joinsLocally(g) {
			l.seen[child.fn] = true
			return true, false
		}
		l.goes[child.fn] = true
		return false, true
	}
	where := func(inst *Inst, in ssa.Instruction) string { return shortFn(in.Parent()) + " " + l.p.instrPos(in) }

	// need: an access or a callee that expects a lock
	need := func(s *Sim, inst *Inst, in ssa.Instruction, st *State, obj, class, mode, idx, what, wh string, fresh, hard bool) {
		if l.prop != "C08" || fresh && !hard || loading(f) {
			return
		}
		l.note(lkGuard, what+" "+wh)
		for _, x := range held(st) {
			if x.class != class || mode == "w" && x.mode != "w" {
				continue
			}
			ok := true
			switch {
			case strings.HasPrefix(class, "vertex."):
				ok = x.key == class+"("+obj+")"
			case idx != "" && idx != "any":
				ok = strings.HasSuffix(x.key, "[*]") || strings.HasSuffix(x.key, "["+idx+"]")
			}
			if ok {
				// a worker relies on a lock its spawner holds
				if g := goInst(inst); g != nil && l.sites[x.at].inst != nil && !within(l.sites[x.at].inst, g) {
					setFlag(st, "rely:"+x.key, l.p.instrPos(in))
				}
				return
			}
		}
		q := lockReq{obj: obj, class: class, mode: mode, idx: idx, what: what, where: wh}
		tok := rootTok(obj)
		q.hard = flagOf(st, "pub:"+tok) != "" || hard
		switch {
		case strings.HasPrefix(tok, "$") && (idx == "" || idx == "any" || idx == "*" || !localTerm.MatchString(idx)) && (!root || strings.HasPrefix(class, "vertex.") && f.Parent() == nil):
			req(q) // nobody outside has a vertex, so every caller is known
		case !strings.HasPrefix(class, "vertex.") && !root && f.Parent() == nil && (idx == "" || idx == "any" || idx == "*" || !localTerm.MatchString(idx)):
			q.obj = "*"
			req(q)
		default:
			m := "holding " + class
			if mode == "w" {
				m = "holding " + class + " for writing"
			}
			if idx != "" && idx != "any" {
				m += " of shard " + idx
			}
			l.violate(s, lkGuard, in, inst, st, what+" without "+m+" ("+wh+")")
		}
	}
	access := func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc *Term, write, content bool) {
		// walk to the outermost guarded field
		for t := loc; t != nil; {
			if t.k == TFieldAddr || t.k == TField {
				fv, _ := t.obj.(*types.Var)
				if fv == nil {
					return
				}
				n := l.field(fv)
				fresh := l.unpublished(s, st, t.args[0])
				verb := "reading"
				mode := "r"
				if write {
					verb, mode = "writing", "w"
				}
				if atomicOnly[n] && t == loc {
					if l.prop == "C08" && !fresh {
						l.note(lkAtomic, n+" "+where(inst, in))
						l.violate(s, lkAtomic, in, inst, st, verb+" "+n+" without an atomic operation")
					}
					return
				}
				if g, ok := guards[n]; ok {
					need(s, inst, in, st, l.canon(s, t.args[0]), g.lock, mode, "", verb+" "+n, where(inst, in), fresh, false)
					return
				}
				if sh := shardCaches[n]; sh != "" {
					idx := "any"
					if write {
						idx = "*"
					}
					for e := loc; e != nil && e != t; {
						if e.k == TIndexAddr {
							idx = "(" + l.idx(s, e.args[1]) + "%g:shardFactor)"
						}
						if len(e.args) == 0 {
							break
						}
						e = e.args[0]
					}
					need(s, inst, in, st, l.canon(s, t.args[0]), sh, mode, idx, verb+" "+n, where(inst, in), fresh, false)
					return
				}
				return
			}
			switch t.k {
			case TIndexAddr, TLoad, TMapElem, TSlice, TElems, TLen, TCap:
				t = t.args[0]
			default:
				return
			}
		}
	}
	h.Load = func(s *Sim, inst *Inst, in *ssa.UnOp, st *State, loc, val *Term) {
		access(s, inst, in, st, loc, false, false)
	}
	h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
		access(s, inst, in, st, loc, true, false)
		if !localRoot(loc) {
			l.publish(st, val)
		}
	}
	h.Instr = func(s *Sim, inst *Inst, in ssa.Instruction, st *State) {
		switch in := in.(type) {
		case *ssa.Alloc:
			if t := st.get(inst, in, -1); t != nil {
				setFlag(st, fmt.Sprintf("pub:%d", t.id), "")
			}
		case *ssa.Lookup:
			access(s, inst, in, st, s.val(st, inst, in.X), false, true)
		case *ssa.Range:
			access(s, inst, in, st, s.val(st, inst, in.X), false, true)
		case *ssa.UnOp:
			if in.Op == token.ARROW { // something was waited for
				l.joined(st)
			}
		case *ssa.Select:
			l.joined(st)
		}
	}
	h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, c *Term, truth bool) bool {
		c, truth = cond(c, truth)
		if c.k != TBin {
			return true
		}
		x, ok := l.constant(s, c.args[0])
		y, ok2 := l.constant(s, c.args[1])
		if !ok || !ok2 {
			return true
		}
		switch c.op {
		case "<":
			return (x < y) == truth
		case "<=":
			return (x <= y) == truth
		case "==":
			return (x == y) == truth
		}
		return true
	}
	h.Edge = func(s *Sim, inst *Inst, from, to *ssa.BasicBlock, back bool, st *State) {
		if !back {
			return
		}
		var loop map[*ssa.BasicBlock]bool
		for _, x := range held(st) {
			if !strings.HasSuffix(x.key, "]") || strings.HasSuffix(x.key, "[*]") {
				continue
			}
			if loop == nil {
				loop = loopBlocks(to)
			}
			site := l.sites[x.at]
			b := site.in.Block()
			for i := site.inst; i != nil && i != inst; i = i.parent {
				if i.site != nil {
					b = i.site.Block()
				}
			}
			if loop[b] {
				setFlag(st, "L:"+x.key, "")
				setFlag(st, "L:"+x.key[:strings.Index(x.key, "[")]+"[*]", x.mode+"@"+x.at)
			}
		}
	}
	acquire := func(c *CallCtx, st *State, class, key, mode string, try bool) bool {
		s := c.S
		at := fmt.Sprintf("%s#%d", l.p.instrPos(c.Instr), c.Inst.id)
		l.sites[at] = lockSite{c.Instr, c.Inst}
		l.note(lkTwice, class+" "+where(c.Inst, c.Instr))
		for _, x := range held(st) {
			if x.class != class {
				l.edge(x.class, class, where(c.Inst, c.Instr), f)
				continue
			}
			if strings.HasSuffix(x.key, "[*]") && x.at == at {
				return true // the next shard
			}
			if try {
				continue
			}
			l.violate(s, lkTwice, c.Instr, c.Inst, st, "takes "+key+" while holding "+x.key+" (taken at "+l.p.instrPos(l.sites[x.at].in)+")")
		}
		setFlag(st, "L:"+key, mode+"@"+at)
		return true
	}
	release := func(c *CallCtx, st *State, class, key, mode string) {
		s := c.S
		if k := "rely:" + key; flagOf(st, k) != "" && goInst(c.Inst) == nil {
			l.violate(s, lkWait, c.Instr, c.Inst, st, "releases "+key+" while a worker that relies on it may still run ("+flagOf(st, k)+")")
		}
		l.note(lkBalance, class+" "+where(c.Inst, c.Instr))
		v := flagOf(st, "L:"+key)
		if v != "" {
			if m := v[:1]; m != mode {
				l.violate(s, lkBalance, c.Instr, c.Inst, st, fmt.Sprintf("releases %s in mode %s, it was taken in mode %s", key, mode, m))
			}
			setFlag(st, "L:"+key, "")
			return
		}
		if i := strings.Index(key, "["); i > 0 {
			all := "L:" + key[:i] + "[*]"
			if v := flagOf(st, all); v != "" {
				setFlag(st, all, "rel@"+at(l, c))
				return
			}
		}
		if !root && !sum.uneven() {
			wrapper()
			return
		}
		l.violate(s, lkBalance, c.Instr, c.Inst, st, "releases "+key+", which it does not hold")
	}
	h.Call = func(c *CallCtx) bool {
		s := c.S
		if op, ok := lockOp(c.Name); ok && c.Kind != 'g' {
			m := c.Fv
			if len(c.Args) > 0 {
				m = c.Args[0]
			} else if m != nil && m.k == TClosure && len(m.args) > 0 {
				m = m.args[0] // a method value
			} else {
				return false
			}
			class, key, _ := l.lock(s, m)
			st := c.St
			switch op {
			case "Lock":
				acquire(c, st, class, key, "w", false)
			case "RLock":
				acquire(c, st, class, key, "r", false)
			case "Unlock":
				release(c, st, class, key, "w")
			case "RUnlock":
				release(c, st, class, key, "r")
			case "TryLock", "TryRLock":
				m := "w"
				if op == "TryRLock" {
					m = "r"
				}
				a, b := st.clone(), st
				acquire(c, a, class, key, m, true)
				c.Out(a, s.T.boolConst(true))
				c.Out(b, s.T.boolConst(false))
				return true
			}
			if op == "Lock" || op == "RLock" {
				s.killShared(st)
			}
			if st.A == nil {
				return true
			}
			c.Out(st)
			return true
		}
		switch c.Name {
		case "(sync.WaitGroup).Wait", egType + ".Wait":
			l.joined(c.St)
		case "builtin:delete":
			access(s, c.Inst, c.Instr, c.St, c.Args[0], true, true)
			return false
		case "builtin:append":
			if len(c.Args) > 1 {
				access(s, c.Inst, c.Instr, c.St, c.Args[1], false, true)
			}
			return false
		case "builtin:len", "builtin:cap":
			access(s, c.Inst, c.Instr, c.St, c.Args[0], false, true)
			return false
		case "builtin:copy":
			access(s, c.Inst, c.Instr, c.St, c.Args[0], true, true)
			access(s, c.Inst, c.Instr, c.St, c.Args[1], false, true)
			return false
		}
		if strings.HasPrefix(c.Name, "builtin:") {
			return false
		}
		// calls on something a lock protects
		if len(c.Args) > 0 {
			t := c.Args[0].strip()
			if t.k == TLoad {
				t = t.args[0]
			}
			if t.k == TFieldAddr || t.k == TField {
				if fv, ok := t.obj.(*types.Var); ok {
					if g, ok := guards[l.field(fv)]; ok && g.deep {
						need(s, c.Inst, c.Instr, c.St, l.canon(s, t.args[0]), g.lock, "w", "", "using "+l.field(fv), where(c.Inst, c.Instr), l.unpublished(s, c.St, t.args[0]), false)
					}
				}
			}
		}
		ts := l.targets(c)
		if len(ts) == 0 {
			if !readOnly(c.Name) && c.Name != "dynamic" && c.Kind != 'g' {
				for _, a := range c.Args {
					l.publish(c.St, a)
				}
			}
			return false
		}
		inlined := false
		freshRes := len(ts) > 0
		for _, t := range ts {
			if s.inlinable(c.Inst, t.fn) {
				inlined = true
				continue
			}
			rt := l.real(t)
			cs := l.get(rt.fn)
			if c.Kind == 'c' {
				for i, a := range rt.args {
					if readsElems(l.p, rt.fn, i, 0) {
						access(s, c.Inst, c.Instr, c.St, a, false, true)
					}
				}
			}
			freshRes = freshRes && cs.fresh
			for cl, wh := range l.acquires(rt.fn) {
				l.note(lkTwice, cl+" via "+where(c.Inst, c.Instr))
				for _, x := range held(c.St) {
					if x.class != cl {
						l.edge(x.class, cl, where(c.Inst, c.Instr), f)
						continue
					}
					l.violate(s, lkTwice, c.Instr, c.Inst, c.St, "calls "+shortFn(rt.fn)+" which takes "+cl+" ("+wh+") while holding "+x.key)
				}
			}
			ks := make([]string, 0, len(cs.reqs))
			for k := range cs.reqs {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			if c.Kind == 'g' {
				ks = nil
			}
			for _, k := range ks {
				q := cs.reqs[k]
				obj := l.subst(c, rt.args, q.obj)
				idx := l.subst(c, rt.args, q.idx)
				fresh := false
				if strings.HasPrefix(q.obj, "$") && !strings.Contains(q.obj, ".") {
					n := 0
					fmt.Sscanf(q.obj, "$%d", &n)
					if n < len(rt.args) {
						fresh = l.unpublished(s, c.St, rt.args[n].unbox())
					}
				}
				need(s, c.Inst, c.Instr, c.St, obj, q.class, q.mode, idx, q.what, q.where, fresh, q.hard)
			}
			for i := range cs.pub {
				if i < len(rt.args) {
					if rt.args[i].k == TParam {
						l.notePub(s, c.St, sum, rt.args[i], &changed)
					}
					l.publish(c.St, rt.args[i])
				}
			}
		}
		if inlined {
			return false
		}
		if c.St.A == nil {
			return true
		}
		if freshRes && c.Kind == 'c' && c.NRes() > 0 {
			out := c.FreshAll(c.St)
			setFlag(c.St, fmt.Sprintf("fresh:%d", out[0].id), "1")
			setFlag(c.St, fmt.Sprintf("pub:%d", out[0].id), "")
			c.Out(c.St, out...)
			return true
		}
		return false
	}
	freshAll, anyRet := true, false
	h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
		anyRet = true
		var ks []string
		for _, x := range held(st) {
			ks = append(ks, x.key)
		}
		if sum.rets == nil {
			sum.rets = map[string]bool{}
		}
		sum.rets[strings.Join(ks, ",")] = true
		for _, x := range held(st) {
			if !root && !sum.uneven() {
				wrapper()
				continue
			}
			l.violate(s, lkBalance, ret, inst, st, "returns holding "+x.key+" (taken at "+l.p.instrPos(l.sites[x.at].in)+")")
		}
		if len(res) == 0 || !(l.unpublished(s, st, res[0]) || res[0].isNilConst()) {
			freshAll = false
		}
	}
	// parameters that are stored somewhere others see
	st0 := h.Store
	h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
		st0(s, inst, in, st, loc, val)
		if !localRoot(loc) {
			l.notePub(s, st, sum, val, &changed)
		}
	}
	c0 := h.Call
	h.Call = func(c *CallCtx) bool {
		if _, ok := lockOp(c.Name); !ok && !strings.HasPrefix(c.Name, "builtin:") && !readOnly(c.Name) && len(l.targets(c)) == 0 {
			for _, a := range c.Args {
				l.notePub(c.S, c.St, sum, a, &changed)
			}
		}
		return c0(c)
	}
	s := newSim(l.p, h)
	s.Run(f)
	for _, i := range s.instList {
		l.seen[i.fn] = true
	}
	fr := anyRet && freshAll
	if fr != sum.fresh {
		sum.fresh = fr
		changed = true
	}
	return s, changed
}

// constant: a number known from the source: literals, variables that are only initialised, the number of shard locks
func (l *locks) constant(s *Sim, t *Term) (int64, bool) {
	t = t.strip()
	for t.k == TConv {
		t = t.args[0]
	}
	if n, ok := t.int64(); ok {
		return n, true
	}
	if t.k == TLen {
		u := t.args[0].strip()
		if u.k == TLoad && u.args[0].k == TFieldAddr {
			if fv, ok := u.args[0].obj.(*types.Var); ok && fv.Name() == "shardedLocks" {
				return 512, true
			}
		}
		return 0, false
	}
	if t.k == TLoad && t.args[0].k == TGlobal {
		if g, ok := t.args[0].obj.(*ssa.Global); ok {
			v := l.p.globalInit(g)
			for {
				cv, ok := v.(*ssa.Convert)
				if !ok {
					break
				}
				v = cv.X
			}
			if c, ok := v.(*ssa.Const); ok && c.Value != nil && isIntT(c.Type()) {
				return c.Int64(), true
			}
		}
	}
	return 0, false
}

// readsElems: the function looks into the slice or map it is given
func readsElems(p *Prog, f *ssa.Function, i, depth int) bool {
	if i >= len(f.Params) || depth > 3 {
		return false
	}
	switch f.Params[i].Type().Underlying().(type) {
	case *types.Slice, *types.Map:
	default:
		return false
	}
	for _, u := range *f.Params[i].Referrers() {
		switch u := u.(type) {
		case *ssa.IndexAddr, *ssa.Range, *ssa.Lookup:
			return true
		case *ssa.Call:
			if g := u.Call.StaticCallee(); g != nil && p.inRepo[g] {
				for j, a := range u.Call.Args {
					if a == ssa.Value(f.Params[i]) && readsElems(p, g, j, depth+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

// loading: state that is being read from disk, nobody else has it yet
func loading(f *ssa.Function) bool {
	for _, q := range f.Params {
		switch typeName(deref(q.Type())) {
		case hnswPkg + ".Deserializer", hnswPkg + ".DeserializationResult", hnswPkg + ".MemoryCondensor":
			return true
		}
	}
	return false
}

func at(l *locks, c *CallCtx) string {
	k := fmt.Sprintf("%s#%d", l.p.instrPos(c.Instr), c.Inst.id)
	l.sites[k] = lockSite{c.Instr, c.Inst}
	return k
}

func (l *locks) notePub(s *Sim, st *State, sum *lockSum, t *Term, changed *bool) {
	t = t.unbox()
	if t.k != TParam || t.inst != s.root {
		return
	}
	for i, q := range s.root.fn.Params {
		if t.val == any(q) {
			if _, ok := q.Type().Underlying().(*types.Pointer); ok {
				setFlag(st, fmt.Sprintf("pub:$%d", i), "1")
				if !sum.pub[i] {
					sum.pub[i] = true
					*changed = true
				}
			}
		}
	}
}

func (l *locks) joined(st *State) {
	a, _ := st.A.(sig)
	for k := range a {
		if strings.HasPrefix(k, "rely:") {
			setFlag(st, k, "")
		}
	}
}

// goInst: the goroutine body this code runs in
func goInst(i *Inst) *Inst {
	for ; i != nil; i = i.parent {
		if i.kind == 'g' {
			return i
		}
	}
	return nil
}

func within(i, top *Inst) bool {
	for ; i != nil; i = i.parent {
		if i == top {
			return true
		}
	}
	return false
}

func (l *locks) edge(from, to, where string, f *ssa.Function) {
	if !l.final || strings.HasPrefix(from, "local:") || strings.HasPrefix(to, "local:") {
		return
	}
	k := from + ">" + to
	if _, ok := l.edges[k]; !ok {
		l.edges[k] = lockEdge{from, to, where, shortFn(f)}
	}
}

func (l *locks) wrappers() int {
	n := 0
	for _, s := range l.sum {
		if s.wrapper {
			n++
		}
	}
	return n
}

// run: summaries until nothing changes, then once more to report
func (l *locks) run() {
	l.sites = map[string]lockSite{}
	l.value = map[*ssa.Function]bool{}
	live := map[*ssa.Function]bool{}
	for _, f := range l.p.funcs {
		for _, g := range l.p.callees(f) {
			live[g] = true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok && !joinsLocally(g) {
					if h := l.goBody(g); h != nil {
						l.goes[h] = true
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						live[g] = true
					}
				}
			}
		}
	}
	for _, fs := range l.p.fieldFn {
		for _, f := range fs {
			live[f] = true
		}
	}
	var todo []*ssa.Function
	for _, f := range l.p.funcs {
		if f.Synthetic != "" || f.Parent() != nil && !l.goes[f] {
			continue
		}
		if !live[f] && !(f.Object() != nil && f.Object().Exported()) && f.Name() != "main" && f.Parent() == nil {
			continue // nobody calls it
		}
		todo = append(todo, f)
	}
	for round := 0; round < 12; round++ {
		changed := map[*ssa.Function]bool{}
		n, wr := 0, l.wrappers()
		for _, f := range todo {
			if !l.relevant(f) {
				continue
			}
			n++
			if _, ch := l.analyse(f); ch {
				changed[f] = true
			}
		}
		dbg("round", round, "functions", n, "changed", len(changed))
		if l.wrappers() != wr {
			// what was expected of callers without them may be too much
			for _, s := range l.sum {
				s.reqs, s.pub, s.fresh = map[string]lockReq{}, map[int]bool{}, false
			}
			continue
		}
		if len(changed) == 0 {
			break
		}
	}
	l.final = true
	for _, f := range todo {
		if !l.relevant(f) {
			continue
		}
		if s := l.get(f); s.wrapper && !l.isRoot(f) && !s.uneven() {
			continue // judged where it is used
		}
		s, _ := l.analyse(f)
		l.r.take(s)
	}
	// closures nobody was seen to call
	for _, f := range l.p.funcs {
		if f.Parent() != nil && !l.seen[f] && f.Synthetic == "" && l.relevant(f) {
			l.goes[f] = true
			s, _ := l.analyse(f)
			l.r.take(s)
		}
	}
}
