package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// beside: the entry point and the count, stored by a flush and read back
type beside struct {
	p     *Prog
	r     *Report
	rule  string
	key   string // under which it is stored
	field string // of the stored form
}

// shared by the run over a function that stores or reads them
func (b *beside) hooks(touch func(f *ssa.Function) bool) *Hooks {
	h := &Hooks{KeepLock: true}
	h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
	h.Inline = func(inst *Inst, f *ssa.Function) bool {
		return f.Parent() != nil || isPkg(f, hnswPkg) && !touch(f)
	}
	return h
}

func constKey(t *Term) (string, bool) {
	ps := concat(t)
	if len(ps) == 1 && ps[0].t == nil {
		return ps[0].s, true
	}
	return "", false
}

// reader: what is read is what the function hands on; want tells what it is handed on as
func (b *beside) reader(fn *ssa.Function, want func(s *Sim, st *State, res []*Term) *Term, what string) {
	h := b.hooks(func(f *ssa.Function) bool { return false })
	h.Call = func(c *CallCtx) bool {
		s, st := c.S, c.St
		switch {
		case strings.HasSuffix(c.Name, ".KVGet"):
			k, ok := constKey(c.Args[len(c.Args)-1])
			if !ok {
				return false
			}
			b.r.ok(b.rule, "read "+b.p.instrPos(c.Instr))
			if b.key != "" && b.key != k {
				s.violate(b.rule, c.Instr, c.Inst, st, what+" is read under two names")
			}
			b.key = k
			c.ErrFork(func(o *State) { setFlag(o, "read", "1") }, nil)
			return true
		case c.Name == "encoding/json.Unmarshal":
			dst := c.Args[1].unbox().strip()
			c.ErrFork(func(o *State) {
				s.havoc(o, dst)
				setFlag(o, "read", "2")
			}, func(o *State) { s.havoc(o, dst) })
			return true
		}
		return stdCall(c)
	}
	h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
		if s.nilness(st, res[len(res)-1]) == 1 {
			return
		}
		switch flagOf(st, "read") {
		case "":
			if k, ok := res[0].strip().int64(); len(res) > 1 && !(ok && k == 0) {
				s.violate(b.rule, ret, inst, st, "what is taken as the "+what+" may not be what was stored as it")
			}
		case "1":
			s.violate(b.rule, ret, inst, st, "the stored "+what+" is found and not used")
		case "2":
			v := want(s, st, res)
			if v != nil {
				v = v.strip()
			}
			if v == nil || v.k != TLoad || v.args[0].k != TFieldAddr || v.args[0].args[0].k != TAlloc {
				s.violate(b.rule, ret, inst, st, "what is taken as the "+what+" may not be what was stored as it")
				return
			}
			b.field = v.args[0].op
			b.r.ok(b.rule, "taken over "+b.p.instrPos(ret))
		}
	}
	s := newSim(b.p, h)
	s.Run(fn)
	b.r.take(s)
	if b.key == "" || b.field == "" {
		b.r.anchor(b.rule, "where the stored "+what+" is read")
	}
}

func (b *beside) writer(fn *ssa.Function, right func(s *Sim, st *State, v *Term) bool, mayEmpty bool, what string) {
	nodes := map[*ssa.Function]bool{}
	for _, f := range b.p.reach(fn) {
		for _, g := range b.p.reach(f) {
			if isPkg(g, hnswPkg) && (changesNode(g) || callsCache(g)) && f != fn {
				nodes[f] = true
			}
		}
	}
	h := b.hooks(func(f *ssa.Function) bool { return nodes[f] || tellsEmpty(f) })
	h.Call = func(c *CallCtx) bool {
		s, st := c.S, c.St
		if strings.HasSuffix(c.Name, ".KVPut") {
			k, ok := constKey(c.Args[len(c.Args)-2])
			if !ok || k != b.key {
				c.ErrFork(nil, nil)
				return true
			}
			b.r.ok(b.rule, "stored "+b.p.instrPos(c.Instr))
			v := storedField(c.Args[len(c.Args)-1].strip(), b.field)
			if v == nil || !right(s, st, v.strip()) {
				s.violate(b.rule, c.Instr, c.Inst, st, "what is stored as the "+what+" may not be the "+what)
			}
			c.ErrFork(func(o *State) { setFlag(o, "stored", "1") }, nil)
			return true
		}
		return stdCall(c)
	}
	h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, c *Term, truth bool) bool {
		if !mayEmpty {
			return true
		}
		c, truth = cond(c, truth)
		if f := termFn(c); f != nil && tellsEmpty(f) && c.idx == 0 && truth {
			setFlag(st, "stored", "0")
		}
		return true
	}
	h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
		if s.nilness(st, res[len(res)-1]) == 1 {
			return
		}
		b.r.ok(b.rule, "end "+b.p.instrPos(ret))
		if flagOf(st, "stored") == "" {
			s.violate(b.rule, ret, inst, st, "a flush may end without an error and without storing the "+what)
		}
	}
	s := newSim(b.p, h)
	s.Run(fn)
	b.r.take(s)
}

// storedField: a field of what was encoded
func storedField(t *Term, name string) *Term {
	if t.k != TPure || t.op != "json" {
		return nil
	}
	x := t.args[len(t.args)-1]
	if x.k != TStruct {
		return nil
	}
	n := structOf(x.typ)
	for i := 0; i < n.NumFields() && i < len(x.args); i++ {
		if n.Field(i).Name() == name {
			return x.args[i]
		}
	}
	return nil
}

func termFn(c *Term) *ssa.Function {
	if call, ok := c.val.(*ssa.Call); ok {
		return call.Call.StaticCallee()
	}
	return nil
}

// tellsEmpty: whether there is nothing in the index
func tellsEmpty(f *ssa.Function) bool {
	res := f.Signature.Results()
	return isPkg(f, hnswPkg) && recvIs(f, indexType) && f.Signature.Params().Len() == 0 && res.Len() == 2 && res.At(0).Type().String() == "bool" && errResult(f.Signature) == 1
}

func storedCount(p *Prog, r *Report, rule string) {
	get, put := mustFn(p, r, rule, "pkg/hnsw.(*hnsw).GetDocCount"), mustFn(p, r, rule, "pkg/hnsw.(*hnsw).Flush")
	if get == nil || put == nil {
		return
	}
	b := &beside{p: p, r: r, rule: rule}
	b.reader(get, func(s *Sim, st *State, res []*Term) *Term { return res[0] }, "count")
	b.writer(put, func(s *Sim, st *State, v *Term) bool {
		return v.k == TParam && v.val != nil && v.val == ssa.Value(put.Params[1])
	}, false, "count")
}

func storedEntry(p *Prog, r *Report, rule string) {
	get, put := mustFn(p, r, rule, "pkg/hnsw.(*hnsw).LoadEntrypoint"), mustFn(p, r, rule, "pkg/hnsw.(*hnsw).Flush")
	if get == nil || put == nil {
		return
	}
	b := &beside{p: p, r: r, rule: rule}
	b.reader(get, func(s *Sim, st *State, res []*Term) *Term {
		for l, v := range st.mem {
			if l.k == TFieldAddr && l.op == "entryPointID" {
				return v
			}
		}
		return nil
	}, "entry point")
	b.writer(put, func(s *Sim, st *State, v *Term) bool { return loadOfField(v, "entryPointID") }, true, "entry point")
}

// opened: an index is kept for use only with its stored entry point
func opened(p *Prog, r *Report, rule string) {
	fresh := mustFn(p, r, rule, "pkg/hnsw.New")
	if fresh == nil {
		return
	}
	keeps := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok && keptIndex(mu.Value) {
					return true
				}
			}
		}
		return false
	}
	made := map[*ssa.Function]bool{}
	var work []*ssa.Function
	for _, f := range p.funcs {
		if !isPkg(rootFn(f), docPkg) {
			continue
		}
		for _, g := range p.reach(f) {
			made[f] = made[f] || g == fresh
		}
		if keeps(f) {
			work = append(work, rootFn(f))
		}
	}
	done := map[*ssa.Function]bool{}
	for i := 0; i < len(work) && i < 20; i++ {
		fn := work[i]
		if done[fn] {
			continue
		}
		done[fn] = true
		climb := false
		h := &Hooks{KeepLock: true}
		h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
		h.Inline = func(inst *Inst, f *ssa.Function) bool {
			return f.Parent() != nil || isPkg(f, docPkg) && (made[f] || keeps(f) || callsLoad(f))
		}
		h.Call = func(c *CallCtx) bool {
			if strings.HasSuffix(c.Name, ").LoadEntrypoint") || strings.HasSuffix(c.Name, ".LoadEntrypoint") {
				id := indexKey(c.Args[0])
				c.ErrFork(func(o *State) { setFlag(o, "l:"+id, "1") }, nil)
				return true
			}
			if c.Name == funcName(fresh) {
				c.ErrFork(nil, nil)
				return true
			}
			return stdCall(c)
		}
		h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || !keptIndex(mu.Value) {
				return
			}
			v := val.unbox().strip()
			if v.k == TParam && len(p.callSites(fn)) > 0 {
				climb = true
				return
			}
			r.ok(rule, "kept "+p.instrPos(in))
			if flagOf(st, "l:"+indexKey(val)) == "" {
				s.violate(rule, in, inst, st, "an index is kept for use though its stored entry point may not have been loaded")
			}
		}
		s := newSim(p, h)
		s.Run(fn)
		if climb {
			for _, c := range p.callSites(fn) {
				work = append(work, rootFn(c.Parent()))
			}
			continue
		}
		r.take(s)
	}
	if len(work) == 0 {
		r.anchor(rule, "where indexes are kept")
	}
}

func indexKey(t *Term) string {
	return fmt.Sprint(t.unbox().strip().id)
}

func keptIndex(v ssa.Value) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	n := typeName(v.Type())
	return strings.HasSuffix(n, "hnsw.hnsw") || strings.HasSuffix(n, "hnsw.VectorIndex")
}

func callsLoad(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && strings.HasSuffix(calleeName(ci.Common()), ".LoadEntrypoint") {
				return true
			}
		}
	}
	return false
}
