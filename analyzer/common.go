package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// what calls outside the analysed code mean, shared by the checks

const lruCache = "(github.com/hashicorp/golang-lru.Cache)."

// isIndexCall: a call of a method of the vector index, through the interface or directly
func isIndexCall(c *CallCtx) string {
	for _, p := range []string{"iface:" + hnswPkg + ".VectorIndex.", "(" + hnswPkg + ".hnsw)."} {
		if strings.HasPrefix(c.Name, p) {
			return c.Name[len(p):]
		}
	}
	return ""
}

// snapshot is the value of a struct behind a pointer, as a term
func (s *Sim) snapshot(st *State, t *Term) *Term {
	u := t.unbox()
	if u.typ == nil {
		return u
	}
	pt, ok := u.typ.Underlying().(*types.Pointer)
	if !ok {
		return u
	}
	sty, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return u
	}
	args := make([]*Term, sty.NumFields())
	any := false
	for i := 0; i < sty.NumFields(); i++ {
		if v, ok := st.mem[s.fieldAddr(u, sty.Field(i), i)]; ok {
			args[i] = v
			any = true
		}
	}
	if !any {
		return u
	}
	return s.T.mk(TStruct, typeName(pt.Elem()), nil, nil, nil, 0, pt.Elem(), args...)
}

// freshErr: made here, of nothing else
func freshErr(t *Term) bool {
	call, ok := t.strip().val.(*ssa.Call)
	if !ok || t.strip().k != TCall {
		return false
	}
	switch calleeName(&call.Call) {
	case "errors.New", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
		return true
	}
	return false
}

// stdCall models error classification and JSON encoding
func stdCall(c *CallCtx) bool {
	s := c.S
	switch c.Name {
	case "errors.Is", "github.com/pkg/errors.Is":
		if s.nilness(c.St, c.Args[0]) == -1 || freshErr(c.Args[0]) && c.Args[1].strip().k == TLoad {
			c.Out(c.St, s.T.boolConst(false))
			return true
		}
		c.Out(c.St, s.T.mk(TPure, "errors.Is", nil, nil, nil, 0, types.Typ[types.Bool], c.Args[0], c.Args[1]))
		return true
	case "encoding/json.Marshal":
		src := c.Args[0].unbox()
		snap := s.snapshot(c.St, src)
		a, b := c.St.clone(), c.St
		ok := s.T.mk(TPure, "json", nil, nil, nil, 0, c.Com.Signature().Results().At(0).Type(), src, snap)
		c.Out(a, ok, s.T.constVal(nil, errType))
		rb := c.FreshAll(b)
		s.setNil(b, rb[1], 1)
		c.Out(b, rb...)
		return true
	}
	return false
}

// extErr: an error-returning call that is not inlined
func extErr(c *CallCtx) bool {
	n := errResult(c.Com.Signature())
	if n < 0 || wrapErr[c.Name] || nonNilErr[c.Name] || strings.HasPrefix(c.Name, "builtin:") || c.Name == "errors.Join" ||
		strings.HasPrefix(c.Name, ecType) || strings.HasPrefix(c.Name, egType) {
		return false
	}
	for _, t := range c.S.targets(c) {
		if c.S.inlinable(c.Inst, t.fn) {
			return false
		}
	}
	return true
}

// forkErr: success and failure of an external call; what it was given pointers to changes
func forkErr(c *CallCtx, ok, fail func(*State)) {
	if !readOnly(c.Name) {
		for _, ar := range c.Args {
			u := ar.strip()
			if u.k == TAlloc || u.k == TFieldAddr {
				c.S.havoc(c.St, u)
			}
		}
	}
	c.ErrFork(ok, fail)
}

// sig is an automaton state made of named flags
type sig map[string]string

func (a sig) Key() string {
	var ks []string
	for k, v := range a {
		if v != "" {
			ks = append(ks, k+"="+v)
		}
	}
	sortStrings(ks)
	return strings.Join(ks, ",")
}
func (a sig) Kill(map[int]bool) AState { return a }

func (a sig) with(k, v string) sig {
	n := sig{}
	for x, y := range a {
		n[x] = y
	}
	if v == "" {
		delete(n, k)
	} else {
		n[k] = v
	}
	return n
}

func flagOf(st *State, k string) string {
	if a, ok := st.A.(sig); ok {
		return a[k]
	}
	return ""
}

func setFlag(st *State, k, v string) {
	a, _ := st.A.(sig)
	st.A = a.with(k, v)
}

// a condition with its negations removed
func cond(c *Term, truth bool) (*Term, bool) {
	for c.k == TNot {
		c, truth = c.args[0], !truth
	}
	return c, truth
}

// storeField: the field a FieldAddr term names, "type.field"
func fieldName(t *Term) string {
	if t == nil || t.k != TFieldAddr && t.k != TField {
		return ""
	}
	v, _ := t.obj.(*types.Var)
	if v == nil {
		return ""
	}
	return v.Name()
}

// loadOf: t is the value of a struct field
func loadOfField(t *Term, name string) bool {
	t = t.strip()
	if t == nil {
		return false
	}
	if t.k == TLoad && t.args[0].k == TFieldAddr {
		return t.args[0].op == name
	}
	return t.k == TField && t.op == name
}

func mustFn(p *Prog, r *Report, rule, name string) *ssa.Function {
	f := p.fn(name)
	if f == nil || f.Blocks == nil {
		r.anchor(rule, name)
		return nil
	}
	return f
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}
