package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// the world of the document client: storage, key-value store, vector index

const podInfoType = "(github.com/fairdatasociety/fairOS-dfs/pkg/pod.Info)."

// which lock guards which fields of the client (decided by C08)
var clientGuard = map[string][]string{
	"lock":     {"sessionId", "pod", "podInfo"},
	"hnswLock": {"indices"},
}

// roleArg: the argument of a storage call passed for the parameter of that name
func roleArg(c *CallCtx, role string) *Term {
	sig := c.Com.Signature()
	off := 0
	if sig.Recv() != nil || c.Com.IsInvoke() {
		off = 1
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if sig.Params().At(i).Name() == role && i+off < len(c.Args) {
			return c.Args[i+off]
		}
	}
	return nil
}

func isStorage(c *CallCtx) bool {
	return strings.HasPrefix(c.Name, dfsAPI) || strings.HasPrefix(c.Name, kvType)
}

func indexOf(s *Sim, name *Term) *Term {
	return s.T.mk(TPure, "index-of", nil, nil, nil, 0, nil, name)
}

// docHooks: the model of everything the client calls; checks add to it
func docHooks(p *Prog) *Hooks {
	h := &Hooks{KeepLock: true}
	h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
	h.Load = func(s *Sim, inst *Inst, in *ssa.UnOp, st *State, loc, val *Term) { clientLoad(s, st, loc, val) }
	h.Tag = func(s *Sim, st *State, t *Term) *Term {
		if t.k == TCall && t.op == "lookup" && t.idx == 0 && len(t.args) == 2 && loadOfField(t.args[0], "indices") {
			return indexOf(s, t.args[1])
		}
		return nil
	}
	return h
}

// clientLoad: a field of the client, together with how often its lock was taken before
func clientLoad(s *Sim, st *State, loc, val *Term) {
	if val.k == TLoad && val.args[0] == loc && loc.k == TFieldAddr && loc.args[0].typ != nil && typeName(loc.args[0].typ) == docPkg+".Client" {
		for l, fs := range clientGuard {
			for _, f := range fs {
				if f == loc.op && s.tag(st, val) == nil {
					s.setTag(st, val, s.T.mk(TPure, "client:"+loc.op, nil, nil, nil, 0, nil, s.T.constVal(constantString(flagOf(st, "ep-"+l)), nil)))
				}
			}
		}
	}
}

// clientField: the value is that field of the client; the time it was read
func clientField(s *Sim, st *State, t *Term, field string) (*Term, bool) {
	g := s.tag(st, t)
	if g == nil || g.k != TPure || g.op != "client:"+field {
		return nil, false
	}
	return g.args[0], true
}

// clientCall models a call; the check looked at it before
func clientCall(c *CallCtx) bool {
	s, st := c.S, c.St
	if op, ok := lockOp(c.Name); ok {
		if l := c.Args[0].strip(); l.k == TFieldAddr {
			base := l.args[0]
			for _, f := range clientGuard[l.op] {
				for a := range st.mem {
					if a.k == TFieldAddr && a.args[0] == base && a.op == f {
						delete(st.mem, a)
					}
				}
			}
		}
		if op == "Lock" || op == "RLock" {
			if l := c.Args[0].strip(); l.k == TFieldAddr {
				if _, ok := clientGuard[l.op]; ok && len(flagOf(st, "ep-"+l.op)) < 3 {
					setFlag(st, "ep-"+l.op, flagOf(st, "ep-"+l.op)+"i")
				}
			}
		}
		c.Out(st, c.FreshAll(st)...)
		return true
	}
	if stdCall(c) {
		return true
	}
	switch c.Name {
	case podInfoType + "GetKVStore", podInfoType + "GetPodPassword":
		c.Out(st, s.T.mk(TPure, c.Name, nil, nil, nil, 0, c.Com.Signature().Results().At(0).Type(), c.Args[0]))
		return true
	case hnswPkg + ".New":
		cfg := c.Args[0]
		var class *Term
		if sty := structOf(cfg.typ); sty != nil {
			for i := 0; i < sty.NumFields(); i++ {
				v := s.fieldOf(st, cfg, sty.Field(i), i)
				switch sty.Field(i).Name() {
				case "ClassName":
					class = v
				case "VectorForIDThunk":
					// it may be called any time
					for _, t := range s.funcTargets(st, v, nil) {
						if s.inlinable(c.Inst, t.fn) {
							cc := *c
							cc.Kind = 'z'
							s.enter(&cc, t, st.clone())
						}
					}
				}
			}
		}
		a, b := st.clone(), st
		ra := c.FreshAll(a)
		if class != nil {
			s.setTag(a, ra[0], indexOf(s, class.strip()))
		}
		s.setNil(a, ra[0], 1)
		c.Out(a, ra[0], s.T.constVal(nil, errType))
		rb := c.FreshAll(b)
		s.setNil(b, rb[1], 1)
		c.Out(b, rb...)
		return true
	}
	if isIndexCall(c) != "" {
		if errResult(c.Com.Signature()) >= 0 {
			forkErr(c, nil, nil)
		} else {
			c.Out(st, c.FreshAll(st)...)
		}
		return true
	}
	if extErr(c) {
		forkErr(c, nil, nil)
		return true
	}
	return false
}

// the collection an operation of the client was asked to work on
func collectionParam(s *Sim, st *State, root *Inst) (match func(t *Term) bool) {
	for _, q := range root.fn.Params[1:] {
		if isString(q.Type()) {
			t := st.get(root, q, -1)
			return func(x *Term) bool { return x == t }
		}
		if typeName(q.Type()) == docPkg+".Collection" {
			t := st.get(root, q, -1)
			return func(x *Term) bool {
				x = x.strip()
				return x.k == TLoad && x.args[0].k == TFieldAddr && x.args[0].op == "Name" && x.args[0].args[0] == t
			}
		}
	}
	return nil
}

func isParamOf(t *Term, root *Inst) bool { return t != nil && t.k == TParam && t.inst == root }

// rootFieldPath: the names of the fields a value was reached through, from a parameter
func rootFieldPath(t *Term) (path []string, root *Term) {
	for t != nil {
		switch t.k {
		case TConv, TIface, TAssert:
			t = t.args[0]
		case TLoad:
			t = t.args[0]
		case TField, TFieldAddr:
			path = append([]string{t.op}, path...)
			t = t.args[0]
		default:
			return path, t
		}
	}
	return path, nil
}

// callSites of a function in the repository
func (p *Prog) callSites(fn *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, g := range p.funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn {
					out = append(out, ci)
				}
			}
		}
	}
	return out
}

// traceField: the value is the field of that name, directly or through the parameters
// of helpers at all their call sites
func (p *Prog) traceField(v ssa.Value, owner, name string, depth int) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			fv := fieldVar(fa.X.Type(), fa.Field)
			return fv != nil && fv.Name() == name && strings.HasSuffix(typeName(fa.X.Type()), owner)
		}
	case *ssa.Field:
		fv := fieldVar(x.X.Type(), x.Field)
		return fv != nil && fv.Name() == name && strings.HasSuffix(typeName(x.X.Type()), owner)
	case *ssa.Convert:
		return p.traceField(x.X, owner, name, depth)
	case *ssa.ChangeType:
		return p.traceField(x.X, owner, name, depth)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !p.traceField(e, owner, name, depth+1) {
				return false
			}
		}
		return depth < 6
	case *ssa.Parameter:
		if depth > 6 {
			return false
		}
		idx := -1
		for i, q := range x.Parent().Params {
			if q == x {
				idx = i
			}
		}
		sites := p.callSites(x.Parent())
		for _, c := range sites {
			if idx >= len(c.Common().Args) || !p.traceField(c.Common().Args[idx], owner, name, depth+1) {
				return false
			}
		}
		return len(sites) > 0
	}
	return false
}

var _ = types.Typ

// globalString: the value of a package variable that is set once, when its package starts
func (p *Prog) globalString(t *Term) (string, bool) {
	g, _ := t.obj.(*ssa.Global)
	if g == nil {
		return "", false
	}
	v := p.globalInit(g)
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value), true
	}
	return "", false
}

// globalInit: the one value a package variable is ever given
func (p *Prog) globalInit(g *ssa.Global) ssa.Value {
	var val ssa.Value
	n := 0
	scan := func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == g {
					val = st.Val
					n++
				}
			}
		}
	}
	for _, f := range p.funcs {
		if f.Name() != "init" || f.Synthetic == "" {
			scan(f)
		}
	}
	if f := g.Pkg.Func("init"); f != nil {
		scan(f)
	}
	if n != 1 {
		return nil
	}
	return val
}
