package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// collected: when a loop over all indexes of a list ends, every list that got one
// element in every round has grown by the length of the list
func (s *Sim) collected(inst *Inst, in *ssa.If, st *State, truth bool) {
	if truth {
		return
	}
	head := in.Block()
	cmp, ok := in.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS || cmp.Block() != head {
		return
	}
	// the index counts from 0 up to the bound
	counts := false
	phi, pre := cmp.X.(*ssa.Phi)
	if inc, ok := cmp.X.(*ssa.BinOp); ok && inc.Op == token.ADD && isOne(inc.Y) {
		if p, ok := inc.X.(*ssa.Phi); ok && p.Block() == head {
			counts = true
			for i, e := range p.Edges {
				if head.Dominates(head.Preds[i]) {
					counts = counts && e == ssa.Value(inc)
				} else {
					counts = counts && isIntConst(e, -1)
				}
			}
		}
	} else if pre && phi.Block() == head {
		counts = true
		for i, e := range phi.Edges {
			if head.Dominates(head.Preds[i]) {
				b, ok := e.(*ssa.BinOp)
				counts = counts && ok && b.Op == token.ADD && b.X == ssa.Value(phi) && isOne(b.Y)
			} else {
				counts = counts && isIntConst(e, 0)
			}
		}
	}
	if !counts {
		return
	}
	// the bound does not change
	if b, ok := cmp.Y.(ssa.Instruction); ok && b.Block() != nil && (b.Block() == head || head.Dominates(b.Block())) {
		if c, ok := cmp.Y.(*ssa.Call); !ok || !isBuiltin(&c.Call, "len") || definedIn(c.Call.Args[0], head) {
			return
		}
	}
	bound := s.val(st, inst, cmp.Y)
	for _, x := range head.Instrs {
		p, ok := x.(*ssa.Phi)
		if !ok {
			break
		}
		if _, isSlice := p.Type().Underlying().(*types.Slice); !isSlice {
			continue
		}
		grows := true
		for i, e := range p.Edges {
			if head.Dominates(head.Preds[i]) {
				c, ok := e.(*ssa.Call)
				grows = grows && ok && isBuiltin(&c.Call, "append") && len(c.Call.Args) == 2 && c.Call.Args[0] == ssa.Value(p) && oneElement(c.Call.Args[1])
			} else {
				grows = grows && emptySlice(e)
			}
		}
		if !grows {
			continue
		}
		t := s.val(st, inst, p)
		st.mem[s.T.mk(TLenOf, "", nil, nil, nil, 0, nil, t)] = bound
	}
}

func isBuiltin(c *ssa.CallCommon, name string) bool {
	b, ok := c.Value.(*ssa.Builtin)
	return ok && b.Name() == name
}

func isIntConst(v ssa.Value, n int64) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Int64() == n
}

func isOne(v ssa.Value) bool { return isIntConst(v, 1) }

// definedIn: the value may be another one in every round
func definedIn(v ssa.Value, head *ssa.BasicBlock) bool {
	in, ok := v.(ssa.Instruction)
	return ok && (in.Block() == head || head.Dominates(in.Block()))
}

// oneElement: the list of arguments of a call that appends one element
func oneElement(v ssa.Value) bool {
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return false
	}
	a, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	at, ok := deref(a.Type()).Underlying().(*types.Array)
	return ok && at.Len() == 1
}

// emptySlice: nil, an empty literal, or made with length zero
func emptySlice(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value == nil
	case *ssa.MakeSlice:
		return isIntConst(v.Len, 0)
	case *ssa.Slice:
		if v.High != nil && isIntConst(v.High, 0) {
			return true
		}
		a, ok := v.X.(*ssa.Alloc)
		if !ok || v.Low != nil || v.High != nil {
			return false
		}
		at, ok := deref(a.Type()).Underlying().(*types.Array)
		return ok && at.Len() == 0
	}
	return false
}
