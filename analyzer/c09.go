package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	fanJoin  = "workers-joined-before-success"
	fanUse   = "results-used-after-join"
	fanSlot  = "own-slot-or-under-lock"
	fanCount = "every-worker-counted-and-signals"
	fanErr   = "worker-error-reaches-caller"
)

// fan follows the workers an operation starts: what they write, when they signal that
// they are done, and when that signal has been waited for
type fan struct {
	p      *Prog
	r      *Report
	writes map[*ssa.Function]map[int]bool // parameters through which a function writes, without taking a lock
	busy   map[*ssa.Function]bool
	insts  map[string]*Inst // by worker
	sites  map[string]*ssa.Go
	objs   map[string]*Term // what a signal is given on
	lift   map[*ssa.Function]bool
	used   map[*ssa.Function]bool // roots
	req    map[*ssa.Function]bool // functions that serve requests
}

// root of a location, through everything it was loaded from
func deepRoot(t *Term) *Term {
	for t != nil {
		t = t.unbox()
		switch t.k {
		case TFieldAddr, TField, TIndexAddr, TIndex, TMapElem, TElems, TChanBuf, TDeref, TSlice, TLenOf, TLoad, TConv, TAssert:
			if len(t.args) == 0 {
				return t
			}
			t = t.args[0]
		default:
			return t
		}
	}
	return t
}

// container: the object an element or field belongs to
func container(t *Term) *Term {
	for {
		t = t.unbox()
		switch t.k {
		case TFieldAddr, TIndexAddr, TMapElem, TElems, TSlice, TDeref, TConv:
			t = t.args[0]
		default:
			return t
		}
	}
}

func (f *fan) worker(inst *Inst) *Inst {
	for ; inst != nil; inst = inst.parent {
		if inst.kind == 'g' || inst.kind == 'e' {
			return inst
		}
	}
	return nil
}

func gid(i *Inst) string {
	if i == nil {
		return ""
	}
	return fmt.Sprintf("%d", i.id)
}

func holder(w *Inst) string {
	if w == nil {
		return "main"
	}
	return gid(w)
}

// made inside the worker
func madeIn(t *Term, w *Inst) bool {
	t = deepRoot(t)
	if t == nil || t.inst == nil {
		return t != nil && t.k == TConst
	}
	return within(t.inst, w)
}

func flagsWith(st *State, prefix string) []string {
	a, _ := st.A.(sig)
	var out []string
	for k, v := range a {
		if v != "" && strings.HasPrefix(k, prefix) {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// writesThrough: the parameters behind which a function stores, taking no lock itself
func (f *fan) writesThrough(fn *ssa.Function) map[int]bool {
	if m, ok := f.writes[fn]; ok {
		return m
	}
	if f.busy[fn] || len(fn.Blocks) == 0 {
		return nil
	}
	f.busy[fn] = true
	defer delete(f.busy, fn)
	out := map[int]bool{}
	base := func(v ssa.Value) int {
		seen := map[ssa.Value]bool{}
		var walk func(v ssa.Value) int
		walk = func(v ssa.Value) int {
			if seen[v] {
				return -1
			}
			seen[v] = true
			switch v := v.(type) {
			case *ssa.Parameter:
				for i, p := range fn.Params {
					if p == v {
						return i
					}
				}
			case *ssa.FieldAddr:
				return walk(v.X)
			case *ssa.IndexAddr:
				return walk(v.X)
			case *ssa.Field:
				return walk(v.X)
			case *ssa.Slice:
				return walk(v.X)
			case *ssa.UnOp:
				if v.Op == token.MUL {
					return walk(v.X)
				}
			case *ssa.ChangeType:
				return walk(v.X)
			case *ssa.Phi:
				for _, e := range v.Edges {
					if i := walk(e); i >= 0 {
						return i
					}
				}
			case *ssa.Alloc:
				// a parameter kept in a variable
				for _, r := range refs(v) {
					if s, ok := r.(*ssa.Store); ok && s.Addr == v {
						if i := walk(s.Val); i >= 0 {
							return i
						}
					}
				}
			}
			return -1
		}
		return walk(v)
	}
	shared := func(v ssa.Value) bool { // not just a local variable
		for {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
					return true
				}
				v = x.X
			case *ssa.Alloc:
				return false
			default:
				return true
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if i := base(in.Addr); i >= 0 && shared(in.Addr) {
					out[i] = true
				}
			case *ssa.MapUpdate:
				if i := base(in.Map); i >= 0 {
					out[i] = true
				}
			case *ssa.Call:
				if _, ok := lockOp(calleeName(&in.Call)); ok {
					f.writes[fn] = map[int]bool{}
					return f.writes[fn]
				}
				if calleeName(&in.Call) == "builtin:delete" {
					if i := base(in.Call.Args[0]); i >= 0 {
						out[i] = true
					}
				}
				if g := in.Call.StaticCallee(); g != nil && f.p.inRepo[g] {
					for j := range f.writesThrough(g) {
						if j < len(in.Call.Args) {
							if i := base(in.Call.Args[j]); i >= 0 {
								out[i] = true
							}
						}
					}
				}
			case *ssa.Defer:
				if _, ok := lockOp(calleeName(&in.Call)); ok {
					f.writes[fn] = map[int]bool{}
					return f.writes[fn]
				}
			}
		}
	}
	f.writes[fn] = out
	return out
}

// inductive: the values that differ in every round of the loop around a go statement
func inductive(b *ssa.BasicBlock) []ssa.Value {
	var out []ssa.Value
	// the innermost loop
	head := loopOf(b)
	if head == nil {
		return nil
	}
	loop := loopBlocks(head)
	for _, in := range head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		good, steps := true, []ssa.Value{}
		for i, e := range phi.Edges {
			if !loop[head.Preds[i]] {
				continue
			}
			bo, ok := e.(*ssa.BinOp)
			if !ok || bo.Op != token.ADD && bo.Op != token.SUB || bo.X != phi {
				good = false
				break
			}
			if k, ok := bo.Y.(*ssa.Const); !ok || k.Value == nil || k.Int64() == 0 {
				good = false
				break
			}
			steps = append(steps, bo)
		}
		if good && len(steps) > 0 {
			out = append(out, phi)
			out = append(out, steps...)
		}
	}
	return out
}

func chanLike(t types.Type) bool {
	t = deref(t)
	if _, ok := t.Underlying().(*types.Chan); ok {
		return true
	}
	switch typeName(t) {
	case "sync.WaitGroup", "golang.org/x/sync/errgroup.Group", "sync.Mutex", "sync.RWMutex":
		return true
	}
	return false
}

func (f *fan) run(root *ssa.Function) *Sim {
	h := &Hooks{KeepLock: true}
	h.Init = func(s *Sim, st *State, r *Inst) { st.A = sig{} }
	where := func(in ssa.Instruction) string { return shortFn(in.Parent()) + " " + f.p.instrPos(in) }

	key := func(t *Term) string {
		t = t.strip()
		k := fmt.Sprintf("%d", t.id)
		f.objs[k] = t
		return k
	}
	own := func(s *Sim, st *State, w *Inst, idx *Term) bool {
		idx = idx.strip()
		var terms []*Term
		for i := w; i != nil && i.site != nil; i = i.parent {
			vs := inductive(i.site.Block())
			for _, v := range vs {
				if t := st.get(i.parent, v, -1); t != nil {
					terms = append(terms, t.strip())
				}
			}
			if inLoop(i.site.Block()) {
				break
			}
		}
		var is func(t *Term, depth int) bool
		is = func(t *Term, depth int) bool {
			for _, o := range terms {
				if t == o {
					return true
				}
				if _, ok := diff(t, o); ok {
					return true
				}
			}
			// received from a channel: nobody else gets it
			if u, ok := t.val.(*ssa.UnOp); ok && u.Op == token.ARROW {
				return true
			}
			// counted up inside the worker from its own start
			if n := s.joinedAt(t); n != nil && within(n.k.inst, w) && depth < 3 {
				if phi, ok := t.val.(*ssa.Phi); ok {
					for i, e := range phi.Edges {
						if !phi.Block().Dominates(phi.Block().Preds[i]) {
							if x := st.get(n.k.inst, e, -1); x != nil && is(x, depth+1) {
								return true
							}
							if x := s.val(st, n.k.inst, e); x != nil && is(x, depth+1) {
								return true
							}
						}
					}
				}
			}
			return false
		}
		return is(idx, 0)
	}
	locksOf := func(st *State, w *Inst) []string {
		var out []string
		for _, k := range flagsWith(st, "lk:") {
			l := strings.TrimPrefix(k, "lk:")
			if flagOf(st, k) == holder(w) && (w == nil || f.objs[l] == nil || !madeIn(f.objs[l], w)) {
				out = append(out, l)
			}
		}
		return out
	}
	held := func(st *State, w *Inst, lock string) bool {
		return flagOf(st, "lk:"+lock) == holder(w)
	}
	unjoined := func(st *State, g string) bool { return flagOf(st, "w:"+g) != "" }

	// write: a worker, or the operation itself, writes to something
	write := func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc *Term) {
		w := f.worker(inst)
		c := container(loc)
		ck := fmt.Sprintf("%d", c.id)
		if w == nil {
			for _, k := range flagsWith(st, "p:"+ck+":") {
				g := strings.TrimPrefix(k, "p:"+ck+":")
				if unjoined(st, g) {
					if lk := flagOf(st, k); strings.HasPrefix(lk, "L") && held(st, nil, lk[1:]) {
						continue
					}
					s.violate(fanUse, in, inst, st, "written while workers that write to it may still run ("+where(f.sites[g])+")")
				}
			}
			for _, k := range flagsWith(st, "rd:"+ck+":") {
				g := strings.TrimPrefix(k, "rd:"+ck+":")
				if unjoined(st, g) {
					s.violate(fanSlot, in, inst, st, "changed while a worker that reads it may still run ("+where(f.sites[g])+")")
				}
			}
			return
		}
		if madeIn(loc, w) {
			return
		}
		g := gid(w)
		// made anew for every worker
		if c.k == TAlloc || c.k == TMake {
			if a, ok := c.val.(ssa.Instruction); ok && a.Parent() == w.site.Parent() && inLoop(w.site.Block()) {
				if hd := loopOf(w.site.Block()); hd != nil && loopBlocks(hd)[a.Block()] {
					// one per round: only the operation itself and this worker have it
					setFlag(st, "p:"+ck+":"+g, "S")
					setFlag(st, "aft:"+g, "1")
					f.r.ok(fanSlot, "its own variable "+where(in))
					return
				}
			}
		}
		mode := ""
		if ls := locksOf(st, w); len(ls) > 0 {
			mode = "L" + ls[0]
			for _, l := range ls {
				if flagOf(st, "p:"+ck+":"+g) == "L"+l {
					mode = "L" + l
				}
			}
		} else if !looped(w) {
			mode = fmt.Sprintf("I%d", loc.id)
		} else {
			for t := loc; mode == "" && len(t.args) > 0 && t != c; t = t.args[0] {
				if t.k == TIndexAddr && own(s, st, w, t.args[1]) {
					mode = "S"
				}
			}
		}
		f.r.ok(fanSlot, "written by a worker "+where(in))
		if mode == "" {
			s.violate(fanSlot, in, inst, st, "written by several workers without a lock, not each its own element")
			return
		}
		if old := flagOf(st, "p:"+ck+":"+g); old != "" && old != mode && (old[0] == 'L' || mode[0] == 'L') {
			s.violate(fanSlot, in, inst, st, "written by workers under different locks, or only sometimes under a lock")
		}
		// what other workers do with it
		for _, k := range flagsWith(st, "p:"+ck+":") {
			o := strings.TrimPrefix(k, "p:"+ck+":")
			if o == g || !unjoined(st, o) {
				continue
			}
			om := flagOf(st, k)
			if om == mode && om[0] == 'L' || om[0] == 'I' && mode[0] == 'I' && om != mode {
				continue
			}
			s.violate(fanSlot, in, inst, st, "written by two workers at once, without a common lock ("+where(f.sites[o])+")")
		}
		setFlag(st, "p:"+ck+":"+g, mode)
		setFlag(st, "aft:"+g, "1")
	}
	read := func(s *Sim, inst *Inst, in ssa.Instruction, st *State, c *Term, what string) {
		w := f.worker(inst)
		ck := fmt.Sprintf("%d", c.id)
		for _, k := range flagsWith(st, "p:"+ck+":") {
			o := strings.TrimPrefix(k, "p:"+ck+":")
			if w != nil && o == gid(w) {
				m := flagOf(st, k)
				if m[0] == 'L' && !held(st, w, m[1:]) {
					s.violate(fanSlot, in, inst, st, what+" without the lock other workers write it under")
				}
				continue
			}
			if !unjoined(st, o) {
				continue
			}
			if m := flagOf(st, k); m[0] == 'L' && held(st, w, m[1:]) {
				continue
			}
			if w != nil && strings.HasPrefix(flagOf(st, "w:"+o), "J"+gid(w)) {
				continue // this worker waited for it
			}
			s.violate(fanUse, in, inst, st, what+" before the workers that write it were waited for ("+where(f.sites[o])+")")
		}
	}
	// a value is handed on
	hand := func(s *Sim, inst *Inst, in ssa.Instruction, st *State, t *Term, what string) {
		if t == nil {
			return
		}
		c := container(t)
		if c.k == TConst {
			return
		}
		read(s, inst, in, st, c, what)
	}
	signal := func(st *State, inst *Inst, k string) {
		w := f.worker(inst)
		if w == nil {
			return
		}
		g := gid(w)
		if cur := flagOf(st, "w:"+g); cur != "" {
			setFlag(st, "w:"+g, k)
		}
		setFlag(st, "aft:"+g, "")
		for _, o := range flagsWith(st, "w:") {
			if flagOf(st, o) == "J"+g {
				setFlag(st, o, k)
			}
		}
	}
	join := func(s *Sim, st *State, inst *Inst, k string, in ssa.Instruction) {
		w := f.worker(inst)
		for _, o := range flagsWith(st, "w:") {
			if flagOf(st, o) != k {
				continue
			}
			g := strings.TrimPrefix(o, "w:")
			if w != nil && f.insts[g] != nil && !within(f.insts[g], w) {
				if g != gid(w) {
					setFlag(st, o, "J"+gid(w))
				}
				continue
			}
			if k[0] == 'C' && looped(f.insts[g]) && !inLoop(in.Block()) {
				continue // one answer of many
			}
			setFlag(st, o, "")
			f.r.ok(fanJoin, "worker "+where(f.sites[g])+" waited for "+where(in))
			for _, p := range flagsWith(st, "p:") {
				if strings.HasSuffix(p, ":"+g) {
					setFlag(st, p, "")
				}
			}
			for _, p := range flagsWith(st, "rd:") {
				if strings.HasSuffix(p, ":"+g) {
					setFlag(st, p, "")
				}
			}
		}
	}

	start := func(s *Sim, child *Inst, st *State) {
		g := gid(child)
		f.insts[g] = child
		setFlag(st, "w:"+g, "?")
		setFlag(st, "aft:"+g, "")
	}
	h.GoBody = func(s *Sim, parent, child *Inst, g *ssa.Go, st *State) (bool, bool) {
		f.sites[gid(child)] = g
		start(s, child, st)
		if joinsLocally(g) {
			return true, false
		}
		return true, false
	}
	h.CallReturn = func(s *Sim, callee *Inst, ret *ssa.Return, st *State, res []*Term) {
		if callee.kind != 'g' {
			return
		}
		g := gid(callee)
		if flagOf(st, "w:"+g) == "?" {
			if joinsLocally(callee.site.(*ssa.Go)) {
				s.violate(fanCount, ret, callee, st, "a worker may end without signalling that it is done")
			}
		} else if flagOf(st, "aft:"+g) != "" {
			s.violate(fanCount, ret, callee, st, "a worker goes on working after it has signalled that it is done")
		}
		for _, k := range flagsWith(st, "lk:") {
			if flagOf(st, k) == g {
				setFlag(st, k, "")
			}
		}
	}
	wgOf := func(s *Sim, st *State, t *Term) (k string, local bool) {
		r := deepRoot(t)
		return key(t), r.k == TAlloc || r.k == TMake
	}
	h.Call = func(c *CallCtx) bool {
		s, st := c.S, c.St
		w := f.worker(c.Inst)
		if op, ok := lockOp(c.Name); ok && len(c.Args) > 0 {
			k := "lk:" + key(c.Args[0])
			switch op {
			case "Lock":
				setFlag(st, k, holder(w))
				if w != nil && !madeIn(c.Args[0], w) {
					setFlag(st, "aft:"+gid(w), "1")
				}
			case "Unlock":
				setFlag(st, k, "")
			}
			return false
		}
		switch c.Name {
		case "(sync.WaitGroup).Add":
			k, local := wgOf(s, st, c.Args[0])
			if !local {
				return false
			}
			if w != nil && !madeIn(c.Args[0], w) {
				s.violate(fanCount, c.Instr, c.Inst, st, "a worker counts itself in only after it was started: the wait may be over before")
				return false
			}
			cur := flagOf(st, "n:"+k)
			n, ok := c.Args[1].strip().int64()
			var m int
			fmt.Sscan(cur, &m)
			switch {
			case !ok || cur == "s":
				setFlag(st, "n:"+k, "s")
			case n+int64(m) > 8:
				setFlag(st, "n:"+k, "9")
			case n+int64(m) == 0:
				setFlag(st, "n:"+k, "")
			default:
				setFlag(st, "n:"+k, fmt.Sprint(n+int64(m)))
			}
			return false
		case "(sync.WaitGroup).Done":
			k, local := wgOf(s, st, c.Args[0])
			if local {
				cur := flagOf(st, "n:"+k)
				var m int
				fmt.Sscan(cur, &m)
				switch {
				case cur == "s" || cur == "9":
				case m == 0:
					s.violate(fanCount, c.Instr, c.Inst, st, "signals done on a wait group it was not counted in")
				case m == 1:
					setFlag(st, "n:"+k, "")
				default:
					setFlag(st, "n:"+k, fmt.Sprint(m-1))
				}
			}
			f.r.ok(fanCount, "signalled "+where(c.Instr))
			signal(st, c.Inst, "W"+k)
			return false
		case "(sync.WaitGroup).Wait":
			k, local := wgOf(s, st, c.Args[0])
			if local {
				if cur := flagOf(st, "n:"+k); cur != "" && cur != "s" {
					s.violate(fanCount, c.Instr, c.Inst, st, "waits for a worker that was counted in but never signals")
				}
				setFlag(st, "n:"+k, "")
			}
			join(s, st, c.Inst, "W"+k, c.Instr)
			return false
		case egType + ".Go", egType + ".TryGo":
			for _, t := range s.funcTargets(st, c.Args[1], nil) {
				if s.inlinable(c.Inst, t.fn) {
					cc := *c
					cc.Kind = 'e'
					ch := s.inst(c.Inst, c.Instr, c.At, t.fn, 'e', c.blk, c.next)
					n := st.clone()
					start(s, ch, n)
					setFlag(n, "w:"+gid(ch), "W"+key(c.Args[0]))
					s.enter(&cc, t, n)
					return true
				}
			}
			return false
		case egType + ".Wait":
			join(s, st, c.Inst, "W"+key(c.Args[0]), c.Instr)
			return false
		case "builtin:close":
			signal(st, c.Inst, "X"+key(c.Args[0]))
			return false
		case "builtin:append":
			return false
		case "builtin:copy":
			write(s, c.Inst, c.Instr, st, c.Args[0])
			hand(s, c.Inst, c.Instr, st, c.Args[1], "copied")
			return false
		case "builtin:delete":
			write(s, c.Inst, c.Instr, st, c.Args[0])
			return false
		}
		if strings.HasPrefix(c.Name, "builtin:") || strings.HasPrefix(c.Name, "sync/atomic.") || strings.HasPrefix(c.Name, "(sync") {
			return false
		}
		if c.Kind == 'g' {
			return false
		}
		ts := s.targets(c)
		if w != nil && (strings.HasPrefix(c.Name, dfsAPI) || strings.HasPrefix(c.Name, kvType)) {
			setFlag(st, "aft:"+gid(w), "1")
		}
		inline := len(ts) > 0
		for _, t := range ts {
			if !s.inlinable(c.Inst, t.fn) {
				inline = false
			}
		}
		if inline {
			want := c.Kind == 'd'
			for _, t := range ts {
				if t.fn.Parent() != nil || t.fn.Synthetic != "" || f.lift[t.fn] {
					want = true
				}
				sg := t.fn.Signature
				for i := 0; i < sg.Params().Len(); i++ {
					if chanLike(sg.Params().At(i).Type()) {
						want = true
					}
				}
				for i := 0; i < sg.Results().Len(); i++ {
					if chanLike(sg.Results().At(i).Type()) {
						want = true
					}
				}
			}
			for _, a := range c.Args {
				if r := container(a); (r.k == TAlloc || r.k == TMake) && len(ts[0].fn.Blocks) < 25 {
					want = true
				}
			}
			if want {
				return false
			}
		}
		for i, a := range c.Args {
			u := a.unbox()
			if u.typ == nil {
				continue
			}
			wr := false
			for _, t := range ts {
				if f.p.inRepo[t.fn] && f.writesThrough(t.fn)[i] {
					wr = true
				}
			}
			if len(ts) == 0 && w != nil {
				// an outside function given the address of a variable
				if _, ok := u.typ.Underlying().(*types.Pointer); ok && container(u).k == TAlloc && !chanLike(u.typ) {
					wr = true
				}
			}
			if wr {
				write(s, c.Inst, c.Instr, st, u)
			} else {
				switch u.typ.Underlying().(type) {
				case *types.Slice, *types.Map, *types.Pointer:
					hand(s, c.Inst, c.Instr, st, u, "used by "+shortName(c.Name))
				}
			}
		}
		if inline {
			for _, ar := range c.Args {
				u := ar.strip()
				if u.k == TAlloc || u.k == TFieldAddr {
					s.havoc(st, u)
				}
			}
			c.Out(st, c.FreshAll(st)...)
			return true
		}
		return false
	}
	h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
		write(s, inst, in, st, loc)
	}
	h.Load = func(s *Sim, inst *Inst, in *ssa.UnOp, st *State, loc, val *Term) {
		c := container(loc)
		read(s, inst, in, st, c, "read")
		if w := f.worker(inst); w != nil && c.k == TAlloc && !madeIn(c, w) {
			if len(locksOf(st, w)) == 0 {
				setFlag(st, fmt.Sprintf("rd:%d:%s", c.id, gid(w)), "1")
			}
		}
	}
	h.Instr = func(s *Sim, inst *Inst, in ssa.Instruction, st *State) {
		switch in := in.(type) {
		case *ssa.Go:
			if !in.Call.IsInvoke() && in.Call.StaticCallee() != nil && f.p.inRepo[in.Call.StaticCallee()] {
				return
			}
			if !f.hasBody(in) && f.matters(in) {
				s.violate(fanJoin, in, inst, st, "work of a request is started and nobody waits for it")
			}
		case *ssa.Send:
			ck := key(s.val(st, inst, in.Chan))
			setFlag(st, "snt:"+ck, "1")
			signal(st, inst, "C"+ck)
		case *ssa.Alloc:
			// a new variable
			if t := st.get(inst, in, -1); t != nil {
				for _, k := range flagsWith(st, fmt.Sprintf("p:%d:", t.id)) {
					setFlag(st, k, "")
				}
				for _, k := range flagsWith(st, fmt.Sprintf("rd:%d:", t.id)) {
					setFlag(st, k, "")
				}
			}
		case *ssa.Range:
			hand(s, inst, in, st, s.val(st, inst, in.X), "ranged over")
		case *ssa.Lookup:
			hand(s, inst, in, st, s.val(st, inst, in.X), "read")
		case *ssa.Return:
			if inst.parent == nil {
				return
			}
		case *ssa.UnOp:
			if in.Op != token.ARROW {
				return
			}
			k := key(s.val(st, inst, in.X))
			if in.CommaOk {
				return
			}
			join(s, st, inst, "C"+k, in)
			// nothing was sent: what is received is that it was closed
			if flagOf(st, "snt:"+k) == "" {
				join(s, st, inst, "X"+k, in)
			}
			if ch, ok := in.X.Type().Underlying().(*types.Chan); ok {
				if e, ok := ch.Elem().Underlying().(*types.Struct); ok && e.NumFields() == 0 {
					join(s, st, inst, "X"+k, in)
				}
			}
		case *ssa.Select:
			for _, sc := range in.States {
				ck := key(s.val(st, inst, sc.Chan))
				if sc.Dir == types.SendOnly {
					setFlag(st, "snt:"+ck, "1")
					if !in.Blocking {
						signal(st, inst, "C"+ck)
					}
				}
			}
		}
	}
	h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, t *Term, truth bool) bool {
		t, truth = cond(t, truth)
		if u, ok := t.val.(*ssa.UnOp); ok && t.k == TCall && u.Op == token.ARROW && t.idx == 1 && t.inst != nil {
			ck := key(s.val(st, t.inst, u.X))
			if truth {
				// nothing was sent on this path
				if o := f.objs[ck]; o != nil && o.k == TMake && flagOf(st, "snt:"+ck) == "" {
					return false
				}
				join(s, st, inst, "C"+ck, in)
			} else {
				join(s, st, inst, "X"+ck, in)
			}
		}
		if t.k == TBin && t.op == "==" && truth {
			for i := 0; i < 2; i++ {
				n, ok := t.args[1-i].int64()
				if !ok {
					continue
				}
				x := t.args[i]
				if _, ok := x.val.(*ssa.Select); !ok && len(x.args) > 0 {
					x = x.args[0]
				}
				if sel, ok := x.val.(*ssa.Select); ok && x.inst != nil && n >= 0 && int(n) < len(sel.States) {
					if sc := sel.States[n]; sc.Dir == types.RecvOnly {
						ck := key(s.val(st, x.inst, sc.Chan))
						join(s, st, inst, "C"+ck, in)
						join(s, st, inst, "X"+ck, in)
					}
				}
			}
		}
		return true
	}
	h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
		n := errResult(inst.fn.Signature)
		for _, t := range res {
			hand(s, inst, ret, st, t, "returned")
		}
		if n >= 0 && s.nilness(st, res[n]) == 1 {
			return
		}
		for _, o := range flagsWith(st, "w:") {
			g := strings.TrimPrefix(o, "w:")
			k := flagOf(st, o)
			site := f.sites[g]
			if site == nil {
				s.violate(fanJoin, ret, inst, st, "may end successfully before a worker it started has been waited for")
				continue
			}
			// waited for elsewhere
			if k != "?" && len(k) > 1 {
				if t := f.objs[k[1:]]; t != nil {
					r := deepRoot(t)
					passed := false
					for _, x := range res {
						if deepRoot(x) == r {
							passed = true
						}
					}
					if r.k != TAlloc && r.k != TMake || passed {
						f.lift[inst.fn] = true
						continue
					}
				}
			}
			if k == "?" && !f.matters(site) {
				continue
			}
			s.violate(fanJoin, site, inst, st, "the operation may end successfully before this worker has been waited for")
		}
	}
	s := newSim(f.p, h)
	s.Run(root)
	return s
}

// matters: a goroutine nobody waits for does part of a request's work
func (f *fan) matters(g *ssa.Go) bool {
	if !f.req[g.Parent()] {
		return false
	}
	var bodies []*ssa.Function
	if g.Call.IsInvoke() {
		bodies = f.p.impls(g.Call.Method, g.Call.Value.Type())
		n := calleeName(&g.Call)
		if strings.HasPrefix(n, "iface:"+hnswPkg) {
			return true
		}
	} else {
		bodies = f.p.funcsOf(g.Call.Value, 4)
	}
	if n := calleeName(&g.Call); strings.HasPrefix(n, dfsAPI) || strings.HasPrefix(n, kvType) {
		return true
	}
	for _, b := range bodies {
		for n := range f.p.externals(b) {
			if strings.HasPrefix(n, dfsAPI) || strings.HasPrefix(n, kvType) {
				return true
			}
		}
	}
	return false
}

// loopOf: the head of the innermost loop around a block
func loopOf(b *ssa.BasicBlock) *ssa.BasicBlock {
	for h := b; h != nil; h = h.Idom() {
		for _, q := range h.Preds {
			if h.Dominates(q) {
				if loopBlocks(h)[b] {
					return h
				}
				break
			}
		}
	}
	return nil
}

// looped: the worker is started in a loop
func looped(w *Inst) bool {
	for i := w; i != nil && i.site != nil; i = i.parent {
		if inLoop(i.site.Block()) {
			return true
		}
	}
	return false
}

func init() {
	register("C09", func(p *Prog, r *Report) {
		r.rule(fanJoin, "every worker an operation starts signals when it is done, and that signal has been waited for when the operation ends without an error")
		r.rule(fanUse, "what a worker writes is read, written, passed on or returned by others only after the worker's signal has been waited for")
		r.rule(fanSlot, "a worker writes only what it made itself, the element of its own index, a variable no other worker touches, or under one common lock; nothing it reads is changed meanwhile")
		r.rule(fanCount, "a worker is counted in before it starts, signals on every path and after its last write, and nobody waits for a signal that never comes")
		r.rule(fanErr, "an error in a worker makes the operation that started it return an error")
		f := &fan{p: p, r: r, writes: map[*ssa.Function]map[int]bool{}, busy: map[*ssa.Function]bool{}, insts: map[string]*Inst{}, sites: map[string]*ssa.Go{}, objs: map[string]*Term{}, lift: map[*ssa.Function]bool{}, used: map[*ssa.Function]bool{}, req: map[*ssa.Function]bool{}}
		reqRoots := append(clientOps(p), handlerFns(p)...)
		for _, fn := range p.reach(reqRoots...) {
			f.req[fn] = true
		}
		spawns := func(fn *ssa.Function) bool {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Go:
						return true
					case *ssa.Call:
						if n := calleeName(&in.Call); n == egType+".Go" || n == egType+".TryGo" {
							return true
						}
					}
				}
			}
			return false
		}
		var todo []*ssa.Function
		queued := map[*ssa.Function]bool{}
		add := func(fn *ssa.Function) {
			for fn.Parent() != nil {
				fn = fn.Parent()
			}
			if !queued[fn] && p.inRepo[fn] && fn.Synthetic == "" {
				queued[fn] = true
				todo = append(todo, fn)
			}
		}
		n := 0
		for _, fn := range p.funcs {
			if spawns(fn) && !strings.Contains(funcName(fn), "/restapi") {
				add(fn)
			}
		}
		var sims []*Sim
		for len(todo) > 0 && n < 60 {
			fn := todo[0]
			todo = todo[1:]
			n++
			f.insts, f.sites, f.objs = map[string]*Inst{}, map[string]*ssa.Go{}, map[string]*Term{}
			was := f.lift[fn]
			s := f.run(fn)
			if f.lift[fn] && !was {
				// its workers are waited for by its callers
				for _, c := range p.callSites(fn) {
					add(c.Parent())
				}
			}
			sims = append(sims, s)
		}
		for _, s := range sims {
			r.take(s)
		}
		r.need(fanJoin, 3)
		r.need(fanSlot, 2)
		// errors
		m := 0
		for _, fn := range p.reach(append(reqRoots, p.methodsOf("pkg/hnsw", "hnsw")...)...) {
			if !modularFn(fn) {
				continue
			}
			has := spawns(fn)
			var walk func(g *ssa.Function, d int)
			seen := map[*ssa.Function]bool{}
			walk = func(g *ssa.Function, d int) {
				if seen[g] || d > 4 {
					return
				}
				seen[g] = true
				if spawns(g) {
					has = true
				}
				for _, x := range p.callees(g) {
					if p.inRepo[x] && (x.Parent() != nil || !modularFn(x)) {
						walk(x, d+1)
					}
				}
			}
			walk(fn, 0)
			if !has {
				continue
			}
			m++
			o := failOpts{rule: fanErr, creation: true, opaque: isCommitLogCall, success: errNotSurelyReported}
			o.only = func(c *CallCtx) bool { return f.worker(c.Inst) != nil }
			h := failHooks(r, o)
			call := h.Call
			h.Call = func(c *CallCtx) bool {
				if nonNilErr[c.Name] && f.worker(c.Inst) == nil {
					return false
				}
				return call(c)
			}
			s := newSim(p, h)
			s.Run(fn)
			r.take(s)
		}
		r.need(fanErr, 2)
	})
}

// hasBody: what is started is a function of the repository
func (f *fan) hasBody(g *ssa.Go) bool {
	for _, b := range f.p.funcsOf(g.Call.Value, 4) {
		if f.p.inRepo[b] && len(b.Blocks) > 0 {
			return true
		}
	}
	return false
}
