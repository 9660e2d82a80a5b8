package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C21", func(p *Prog, r *Report) {
		r.explain = "ownership analysis of files, HTTP responses, tickers, timers and cancel functions: on every path of every function that opens one it is released or handed on, and one that is kept is released before it is replaced"
		c21(p, r)
	})
}

// opens: the result of a call that has to be released
func opens(name string) (kind string, result int) {
	switch name {
	case "os.Open", "os.OpenFile", "os.Create", "os.CreateTemp":
		return "file", 0
	case "time.NewTicker":
		return "ticker", 0
	case "time.NewTimer":
		return "timer", 0
	case "context.WithCancel", "context.WithTimeout", "context.WithDeadline", "context.WithCancelCause":
		return "cancel function", 1
	}
	if httpSend(name) {
		return "response", 0
	}
	return "", 0
}

// releases: a call that releases what it is given
func releases(name string) string {
	switch name {
	case "(os.File).Close":
		return "file"
	case "(time.Ticker).Stop":
		return "ticker"
	case "(time.Timer).Stop":
		return "timer"
	}
	if strings.HasSuffix(name, "Closer.Close") {
		return "response"
	}
	return ""
}

func resourceKind(t types.Type) string {
	switch typeName(deref(t)) {
	case "os.File":
		return "file"
	case "time.Ticker":
		return "ticker"
	case "time.Timer":
		return "timer"
	case "net/http.Response":
		return "response"
	case "context.CancelFunc", "context.CancelCauseFunc":
		return "cancel function"
	}
	return ""
}

func c21(p *Prog, r *Report) {
	const rule, over = "released", "replaced"
	r.rule(rule, "what a function opens is released on every path that leaves the function, or returned, or kept in an object that outlives the call, or given to a goroutine that releases it")
	r.rule(over, "a cancel function, file or log kept in an object is released before another one takes its place")
	r.need(rule, 12)
	r.need(over, 2)
	var roots []*ssa.Function
	queued := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && !queued[f] && p.inRepo[f] && f.Blocks != nil && f.Synthetic == "" {
			queued[f] = true
			roots = append(roots, f)
		}
	}
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if k, _ := opens(calleeName(ci.Common())); k != "" {
						add(f)
					}
					if g := ci.Common().StaticCallee(); g != nil {
						callers[g] = append(callers[g], f)
					}
				}
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && resourceKind(st.Val.Type()) != "" {
						if _, isParam := fa.X.(*ssa.Parameter); isParam {
							add(f)
						}
					}
				}
			}
		}
	}
	for i := 0; i < len(roots); i++ {
		if c21Fn(p, r, roots[i], rule, over) {
			for _, c := range callers[roots[i]] {
				add(c)
			}
		}
	}
}

func c21Fn(p *Prog, r *Report, fn *ssa.Function, rule, over string) (handsOn bool) {
	h := &Hooks{KeepLock: true}
	h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
	h.Inline = func(inst *Inst, f *ssa.Function) bool {
		sg := f.Signature
		for i := 0; i < sg.Params().Len(); i++ {
			t := sg.Params().At(i).Type()
			if resourceKind(t) != "" || types.IsInterface(t) && !isErr(t) {
				return true
			}
		}
		for i := 0; i < sg.Results().Len(); i++ {
			t := sg.Results().At(i).Type()
			if resourceKind(t) != "" || closable(t) {
				return true
			}
		}
		if f.Parent() != nil {
			return true
		}
		for e := range p.externals(f) {
			if k, _ := opens(e); k != "" || releases(e) != "" {
				return true
			}
		}
		return false
	}
	h.GoBody = func(s *Sim, parent, child *Inst, g *ssa.Go, st *State) (bool, bool) { return false, true }
	site := map[string]ssa.Instruction{}
	kinds := map[string]string{}
	keyOf := func(in ssa.Instruction, inst *Inst) string { return fmt.Sprintf("res%d.%s", inst.id, p.instrPos(in)) }
	open := func(st *State) []string {
		a, _ := st.A.(sig)
		var out []string
		for k, v := range a {
			if strings.HasPrefix(k, "res") && v != "" {
				out = append(out, k)
			}
		}
		sortStrings(out)
		return out
	}
	release := func(s *Sim, st *State, t *Term, body bool) {
		t = t.unbox()
		if body {
			f, b := lastField(t)
			if f == "Body" && b != nil {
				t = b
			}
		}
		for _, k := range open(st) {
			for _, g := range []string{k, k + "w"} {
				if v := st.mem[ghostCell(s, g)]; v != nil && v.unbox() == t {
					setFlag(st, k, "")
				}
			}
		}
		// a kept one
		if l, ok := keptAt(st, t); ok {
			setFlag(st, "old."+l.String(), "1")
		}
	}
	h.Call = func(c *CallCtx) bool {
		s := c.S
		if kind, res := opens(c.Name); kind != "" {
			k := keyOf(c.Instr, c.Inst)
			site[k], kinds[k] = c.Instr, kind
			r.ok(rule, kind+" "+p.instrPos(c.Instr))
			if flagOf(c.St, k) != "" && !anyDeferred(c.St) {
				s.violate(rule, c.Instr, c.Inst, c.St, "a "+kind+" may be left behind when the next one is made")
			}
			set := func(st *State) { setFlag(st, k, "1") }
			if errResult(c.Com.Signature()) >= 0 {
				c.ErrFork(set, nil)
			} else {
				set(c.St)
				c.Out(c.St, c.FreshAll(c.St)...)
			}
			call, _ := c.Instr.(*ssa.Call)
			for _, o := range c.outs {
				if flagOf(o, k) == "" || call == nil {
					continue
				}
				var t *Term
				if call.Call.Signature().Results().Len() > 1 {
					t = o.get(c.Inst, call, res)
				} else {
					t = s.val(o, c.Inst, call)
				}
				if t != nil {
					s.setNil(o, t, 1)
					o.mem[ghostCell(s, k)] = t
				}
			}
			return true
		}
		if kind := releases(c.Name); kind != "" {
			release(s, c.St, c.Args[0], kind == "response")
			return false
		}
		if c.Fv != nil {
			release(s, c.St, c.Fv, false) // a cancel function
		}
		if stdCall(c) {
			return true
		}
		if strings.HasSuffix(c.Name, ".Close") && len(c.Args) > 0 {
			release(s, c.St, c.Args[0], false)
		}
		if extErr(c) {
			c.ErrFork(nil, nil)
			return true
		}
		// an object made around it takes it over
		if f := c.Com.StaticCallee(); f != nil && !p.inRepo[f] && f.Signature.Results().Len() == 1 {
			t := f.Signature.Results().At(0).Type()
			if o, _, _ := types.LookupFieldOrMethod(t, true, nil, "Close"); o != nil && resourceKind(t) == "" {
				for _, k := range open(c.St) {
					v := c.St.mem[ghostCell(s, k)]
					for _, a := range c.Args {
						if v != nil && a.unbox() == v.unbox() {
							out := c.FreshAll(c.St)
							s.setNil(c.St, out[0], 1)
							c.St.mem[ghostCell(s, k+"w")] = out[0]
							c.Out(c.St, out...)
							return true
						}
					}
				}
			}
		}
		return false
	}
	// a response always has a body: the path on which it has none is not taken
	h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, c *Term, truth bool) bool {
		c, truth = cond(c, truth)
		if c.op == "==" && truth && len(c.args) == 2 {
			for i, a := range c.args {
				if f, b := lastField(a); f == "Body" && b != nil && c.args[1-i].isNilConst() {
					for _, k := range open(st) {
						if v := st.mem[ghostCell(s, k)]; v != nil && v.unbox() == b.unbox() {
							return false
						}
					}
				}
			}
		}
		return true
	}
	// given to a goroutine that releases it
	h.Instr = func(s *Sim, inst *Inst, in ssa.Instruction, st *State) {
		g, ok := in.(*ssa.Go)
		if !ok {
			return
		}
		var ts []*Term
		var body *ssa.Function
		if f := g.Call.StaticCallee(); f != nil {
			body = f
		}
		if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
			body = mc.Fn.(*ssa.Function)
			for _, b := range mc.Bindings {
				t := s.val(st, inst, b)
				if v, ok := st.mem[t]; ok {
					t = v
				}
				ts = append(ts, t)
			}
		}
		for _, a := range g.Call.Args {
			ts = append(ts, s.val(st, inst, a))
		}
		for _, k := range open(st) {
			v := st.mem[ghostCell(s, k)]
			for _, t := range ts {
				if v != nil && t.unbox() == v.unbox() && body != nil && releasesKind(p, body, kinds[k]) {
					setFlag(st, k, "")
				}
			}
		}
	}
	h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
		if root := locRoot(loc); localRoot(loc) && root != loc {
			for _, k := range open(st) {
				for _, g := range []string{k, k + "w"} {
					if v := st.mem[ghostCell(s, g)]; v != nil && val != nil && v.unbox() == val.unbox() {
						st.mem[ghostCell(s, k+"o")] = root // the object that holds it
					}
				}
			}
		}
		if loc.k != TFieldAddr || localRoot(loc) || resourceKind(loc.typ2()) == "" && !closable(loc.typ2()) {
			return
		}
		if s.nilness(st, st.memOr(loc)) != -1 && flagOf(st, "old."+loc.String()) == "" {
			setFlag(st, "over."+loc.String(), "1")
		}
		if flagOf(st, "old."+loc.String()) != "" {
			setFlag(st, "renewed."+loc.String(), "1")
		}
		setFlag(st, "old."+loc.String(), "")
	}
	h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, rs []*Term) {
		for _, k := range open(st) {
			v := st.mem[ghostCell(s, k)]
			if v == nil {
				continue
			}
			how, at := s.keeps(st, v, rs)
			if how == "" {
				if w := st.mem[ghostCell(s, k+"w")]; w != nil {
					how, at = s.keeps(st, w, rs)
				}
			}
			if how == "" {
				if w := st.mem[ghostCell(s, k+"o")]; w != nil {
					how, at = s.keeps(st, w, rs)
				}
			}
			if how == "result" {
				for _, t := range rs {
					if t.unbox() == v.unbox() || closable(t.typ) {
						handsOn = true
					}
				}
			}
			if how == "kept" && at.k == TFieldAddr {
				r.ok(over, kinds[k]+" kept "+p.instrPos(site[k]))
				if flagOf(st, "over."+at.String()) != "" {
					s.violate(over, ret, inst, st, "a "+kinds[k]+" that is kept may be replaced without being released")
				}
			}
			if how == "kept" && at.k == TFieldAddr && flagOf(st, "renewed."+at.String()) == "" && flagOf(st, "over."+at.String()) == "" && !releasedElsewhere(p, at, site[k].Parent()) {
				how = "" // nobody releases what the object keeps
			}
			if how != "" {
				// with an error the caller gets nothing to release
				if how == "result" && len(rs) > 1 && isErr(rs[len(rs)-1].typ) && s.nilness(st, rs[len(rs)-1]) == 1 {
					s.violate(rule, ret, inst, st, "a "+kinds[k]+" opened at "+p.instrPos(site[k])+" may be left open when an error is returned")
				}
				continue
			}
			s.violate(rule, ret, inst, st, "a "+kinds[k]+" opened at "+p.instrPos(site[k])+" may be left open")
		}
	}
	s := newSim(p, h)
	s.Run(fn)
	r.take(s)
	return handsOn
}

// releasedElsewhere: some other function releases what the field holds
func releasedElsewhere(p *Prog, at *Term, opener *ssa.Function) bool {
	v, ok := at.obj.(*types.Var)
	if !ok {
		return true
	}
	for _, f := range p.funcs {
		if f == opener || f.Parent() == opener {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := ci.Common()
				x := com.Value
				if n := calleeName(com); com.StaticCallee() != nil && len(com.Args) > 0 && (releases(n) != "" || strings.HasSuffix(n, ".Close")) {
					x = com.Args[0]
				}
				if u, ok := x.(*ssa.UnOp); ok {
					if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field) == v {
						return true
					}
				}
			}
		}
	}
	return false
}

func anyDeferred(st *State) bool { return len(st.defers) > 0 }

// keptAt: the field a value was read from
func keptAt(st *State, t *Term) (*Term, bool) {
	if t.k == TLoad && t.args[0].k == TFieldAddr {
		return t.args[0], true
	}
	return nil, false
}

func (t *Term) typ2() types.Type {
	if v, ok := t.obj.(*types.Var); ok {
		return v.Type()
	}
	if t.typ != nil {
		return deref(t.typ)
	}
	return types.Typ[types.Int]
}

func (st *State) memOr(l *Term) *Term {
	if v, ok := st.mem[l]; ok {
		return v
	}
	return l
}

func releasesKind(p *Prog, f *ssa.Function, kind string) bool {
	for _, g := range p.reach(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if k := releases(calleeName(ci.Common())); k == kind {
					return true
				}
				if kind == "cancel function" && resourceKind(ci.Common().Value.Type()) == kind {
					return true
				}
			}
		}
	}
	return false
}

// keeps: the value is among the results, or in an object that outlives the call
func (s *Sim) keeps(st *State, v *Term, rs []*Term) (string, *Term) {
	v = v.unbox()
	holds := func(t *Term) bool {
		return t != nil && t.any(func(x *Term) bool { return x == v })
	}
	// objects of this call that hold it
	held := map[*Term]bool{}
	for changed := true; changed; {
		changed = false
		for l, x := range st.mem {
			if l.k == TPure && strings.HasPrefix(l.op, "ghost-") {
				continue
			}
			in := holds(x)
			for o := range held {
				in = in || x.any(func(y *Term) bool { return y == o })
			}
			if !in {
				continue
			}
			root := locRoot(l)
			if !localRoot(l) {
				return "kept", l
			}
			if !held[root] && l != root {
				held[root] = true
				changed = true
			}
		}
	}
	for _, t := range rs {
		if holds(t) {
			return "result", nil
		}
		for o := range held {
			if t.any(func(y *Term) bool { return y == o }) {
				return "result", nil
			}
		}
	}
	return "", nil
}

// closable: an object of the module that is made around one resource
func closable(t types.Type) bool {
	if t == nil || isErr(t) {
		return false
	}
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, "Close")
	return o != nil
}
