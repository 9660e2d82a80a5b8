package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callees of a function: static calls, implementations of interface methods,
// functions stored in the called field, functions it makes values of. Work handed
// to a background cycle is left out.
func (p *Prog) callees(fn *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && f.Blocks != nil && !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				com := ci.Common()
				if com.IsInvoke() {
					for _, f := range p.impls(com.Method, com.Value.Type()) {
						add(f)
					}
				} else if f := com.StaticCallee(); f != nil {
					add(f)
				} else if v := loadedField(com.Value); v != nil {
					for _, f := range p.fieldFn[v] {
						add(f)
					}
				}
			}
			for _, op := range in.Operands(nil) {
				switch v := (*op).(type) {
				case *ssa.Function:
					if !background(in) {
						add(v)
					}
				case *ssa.MakeClosure:
					if !background(in) {
						add(v.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	return out
}

func background(in ssa.Instruction) bool {
	if ci, ok := in.(ssa.CallInstruction); ok {
		n := calleeName(ci.Common())
		return strings.HasSuffix(n, "cyclemanager.New") || strings.HasPrefix(n, "time.AfterFunc")
	}
	return false
}

func (p *Prog) reach(roots ...*ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if f.Synthetic == "" && !p.inRepo[f] {
			return
		}
		if p.inRepo[f] {
			out = append(out, f)
		}
		for _, g := range p.callees(f) {
			walk(g)
		}
	}
	for _, r := range roots {
		walk(r)
	}
	return out
}

// externals reachable from a function: the names of the functions outside the
// repository it may end up calling
func (p *Prog) externals(fn *ssa.Function) map[string]bool {
	p.mu.Lock()
	if m, ok := p.extMem[fn]; ok {
		p.mu.Unlock()
		return m
	}
	p.mu.Unlock()
	m := map[string]bool{}
	for _, f := range p.reach(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					m[calleeName(ci.Common())] = true
				}
			}
		}
	}
	p.mu.Lock()
	p.extMem[fn] = m
	p.mu.Unlock()
	return m
}

// loopBlocks: the natural loop of a head
func loopBlocks(head *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{head: true}
	var todo []*ssa.BasicBlock
	for _, q := range head.Preds {
		if head.Dominates(q) && !in[q] {
			in[q] = true
			todo = append(todo, q)
		}
	}
	for len(todo) > 0 {
		b := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, q := range b.Preds {
			if !in[q] {
				in[q] = true
				todo = append(todo, q)
			}
		}
	}
	return in
}

// loopCalls: the loop calls a function, directly or further down
func (p *Prog) loopCalls(head *ssa.BasicBlock, name string) bool {
	for b := range loopBlocks(head) {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if calleeName(ci.Common()) == name {
				return true
			}
			var fs []*ssa.Function
			if f := ci.Common().StaticCallee(); f != nil && p.inRepo[f] {
				fs = append(fs, f)
			} else if mc, ok := ci.Common().Value.(*ssa.MakeClosure); ok {
				fs = append(fs, mc.Fn.(*ssa.Function))
			}
			for _, a := range ci.Common().Args {
				if mc, ok := a.(*ssa.MakeClosure); ok {
					fs = append(fs, mc.Fn.(*ssa.Function))
				}
			}
			for _, f := range fs {
				if p.externals(f)[name] {
					return true
				}
			}
		}
	}
	return false
}

// inLoop: the block lies in a loop of its function
func inLoop(b *ssa.BasicBlock) bool {
	for _, h := range b.Parent().Blocks {
		for _, q := range h.Preds {
			if h.Dominates(q) {
				if loopBlocks(h)[b] {
					return true
				}
				break
			}
		}
	}
	return false
}
