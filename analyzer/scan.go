package main

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// scan follows a loop over a list or map: every element has to be dealt with before
// the next one is taken and before the result is used, and the loop has to end
// because there are no more elements
type scan struct {
	name   string
	isList func(s *Sim, st *State, t *Term) bool // the list, or the map
	skip   func(s *Sim, st *State) bool          // the element at hand need not be dealt with
}

func (c *scan) missed(s *Sim, st *State) {
	if flagOf(st, c.name+"-pending") != "" && (c.skip == nil || !c.skip(s, st)) {
		setFlag(st, c.name+"-missed", "1")
	}
}

func (c *scan) load(s *Sim, st *State, loc *Term) bool {
	if loc.k != TIndexAddr || !c.isList(s, st, loc.args[0]) {
		return false
	}
	last := ghostCell(s, c.name+"-last")
	if st.mem[last] != loc {
		c.missed(s, st)
	}
	st.mem[last] = loc
	setFlag(st, c.name+"-pending", "1")
	return true
}

func (c *scan) instr(s *Sim, inst *Inst, in ssa.Instruction, st *State) {
	if n, ok := in.(*ssa.Next); ok && !n.IsString {
		if it := s.val(st, inst, n.Iter); it.k == TRange && c.isList(s, st, it.args[0]) {
			c.missed(s, st)
			setFlag(st, c.name+"-pending", "")
		}
	}
}

func (c *scan) refine(s *Sim, st *State, t *Term, truth bool) {
	t, truth = cond(t, truth)
	switch {
	case t.k == TBin && t.op == "<" && t.args[1].k == TLen && c.isList(s, st, t.args[1].args[0]):
		if truth {
			setFlag(st, c.name+"-all", "")
		} else {
			setFlag(st, c.name+"-all", "1")
		}
	case t.k == TCall && t.op == "next" && t.idx == 0 && t.args[0].k == TRange && c.isList(s, st, t.args[0].args[0]):
		if truth {
			setFlag(st, c.name+"-pending", "1")
			setFlag(st, c.name+"-all", "")
		} else {
			setFlag(st, c.name+"-all", "1")
		}
	}
}

func (c *scan) done(st *State) { setFlag(st, c.name+"-pending", "") }

func (c *scan) reset(st *State) {
	for _, k := range []string{"-pending", "-missed", "-all"} {
		setFlag(st, c.name+k, "")
	}
}

func (c *scan) problem(s *Sim, st *State) string {
	switch {
	case flagOf(st, c.name+"-missed") != "":
		return "an element may have been left out"
	case flagOf(st, c.name+"-pending") != "" && (c.skip == nil || !c.skip(s, st)):
		return "an element may have been left out"
	case flagOf(st, c.name+"-all") == "":
		return "not all elements may have been looked at"
	}
	return ""
}

// globalMap: the entries of a package-level map that is filled when its package starts and never changed
func (p *Prog) globalMap(t *Term) (map[string]constant.Value, bool) {
	if t.k == TLoad {
		t = t.args[0]
	}
	g, _ := t.obj.(*ssa.Global)
	if t.k != TGlobal || g == nil {
		return nil, false
	}
	mm, ok := p.globalInit(g).(*ssa.MakeMap)
	if !ok {
		return nil, false
	}
	out := map[string]constant.Value{}
	for _, u := range refs(mm) {
		switch u := u.(type) {
		case *ssa.MapUpdate:
			k, ok1 := u.Key.(*ssa.Const)
			v, ok2 := u.Value.(*ssa.Const)
			if !ok1 || !ok2 || k.Value == nil || v.Value == nil {
				return nil, false
			}
			out[k.Value.ExactString()] = v.Value
		case *ssa.Store, *ssa.DebugRef:
		default:
			return nil, false
		}
	}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ld, ok := in.(*ssa.UnOp); ok && ld.X == g {
					for _, u := range refs(ld) {
						switch u.(type) {
						case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
						default:
							return nil, false
						}
					}
				}
			}
		}
	}
	return out, true
}

// constsOf: the constants of a package by name
func (p *Prog) pkgConst(path, name string) (constant.Value, bool) {
	for _, pk := range p.ssa.AllPackages() {
		if pk.Pkg.Path() == path {
			if c, ok := pk.Pkg.Scope().Lookup(name).(*types.Const); ok {
				return c.Val(), true
			}
		}
	}
	return nil, false
}
