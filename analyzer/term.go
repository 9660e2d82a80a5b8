package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A Term names an abstract value. Two program points that hold the same Term hold
// the same value. Terms are interned: equality is pointer equality.
type TK uint8

const (
	TConst TK = iota
	TParam
	TGlobal
	TFunc
	TAlloc
	TFieldAddr
	TIndexAddr
	TField
	TIndex
	TMapElem
	TElems
	TChanBuf
	TLoad
	TCall
	TBin
	TNot
	TUn
	TConv
	TIface
	TAssert
	TLen
	TCap
	TClosure
	TMake
	TSlice
	TRange
	TStruct
	TPure
	TJoin
	TStale
	TUnknown
	TDeref
	TBuiltin
	TLenOf
)

var tkNames = map[TK]string{TConst: "const", TParam: "param", TGlobal: "global", TFunc: "func", TAlloc: "alloc",
	TFieldAddr: "&field", TIndexAddr: "&index", TField: "field", TIndex: "index", TMapElem: "mapelem", TElems: "elems",
	TChanBuf: "chanbuf", TLoad: "load", TCall: "call", TBin: "bin", TNot: "not", TUn: "un", TConv: "conv", TIface: "iface",
	TAssert: "assert", TLen: "len", TCap: "cap", TClosure: "closure", TMake: "make", TSlice: "slice", TRange: "range",
	TStruct: "struct", TPure: "pure", TJoin: "join", TStale: "stale", TUnknown: "unknown", TDeref: "deref", TBuiltin: "builtin", TLenOf: "lenof"}

type Term struct {
	id   int
	k    TK
	op   string
	obj  any // *types.Var, *ssa.Function, *ssa.Global, *Node ...
	args []*Term
	inst *Inst
	val  any // ssa.Instruction / ssa.Value of a site term
	idx  int // component for calls
	c    constant.Value
	typ  types.Type
	deps []int
}

type Terms struct {
	tab map[string]*Term
	n   int
}

func newTerms() *Terms { return &Terms{tab: map[string]*Term{}} }

func (ts *Terms) mk(k TK, op string, obj any, inst *Inst, val any, idx int, typ types.Type, args ...*Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|%p|%d|", k, op, obj, idx)
	if inst != nil {
		fmt.Fprintf(&sb, "i%d|", inst.id)
	}
	if val != nil {
		fmt.Fprintf(&sb, "%p|", val)
	}
	for _, a := range args {
		if a == nil {
			sb.WriteString("_,")
			continue
		}
		fmt.Fprintf(&sb, "%d,", a.id)
	}
	key := sb.String()
	if t, ok := ts.tab[key]; ok {
		return t
	}
	ts.n++
	t := &Term{id: ts.n, k: k, op: op, obj: obj, inst: inst, val: val, idx: idx, args: args, typ: typ}
	set := map[int]bool{}
	for _, a := range args {
		if a == nil {
			continue
		}
		for _, d := range a.deps {
			set[d] = true
		}
	}
	if t.isSite() {
		set[t.id] = true
	}
	for d := range set {
		t.deps = append(t.deps, d)
	}
	sort.Ints(t.deps)
	ts.tab[key] = t
	return t
}

func (t *Term) isSite() bool {
	switch t.k {
	case TAlloc, TLoad, TCall, TMake, TJoin, TStale, TUnknown, TParam, TClosure:
		return true
	}
	return false
}

func (t *Term) dependsOn(ids map[int]bool) bool {
	if len(ids) == 0 {
		return false
	}
	for _, d := range t.deps {
		if ids[d] {
			return true
		}
	}
	return false
}

func (t *Term) mentions(u *Term) bool {
	if t == nil {
		return false
	}
	if t == u {
		return true
	}
	for _, a := range t.args {
		if a.mentions(u) {
			return true
		}
	}
	return false
}

// any reports whether p holds for t or a term inside t
func (t *Term) any(p func(*Term) bool) bool {
	if t == nil {
		return false
	}
	if p(t) {
		return true
	}
	for _, a := range t.args {
		if a.any(p) {
			return true
		}
	}
	return false
}

func (ts *Terms) constTerm(c *ssa.Const) *Term {
	return ts.constVal(c.Value, c.Type())
}

func (ts *Terms) constVal(v constant.Value, typ types.Type) *Term {
	s := "nil"
	if v != nil {
		s = v.Kind().String() + ":" + v.ExactString()
	} else if typ != nil {
		if _, ok := typ.Underlying().(*types.Struct); ok {
			s = "zero:" + typ.String()
		}
	}
	t := ts.mk(TConst, s, nil, nil, nil, 0, typ)
	t.c = v
	return t
}

func (ts *Terms) intConst(n int64) *Term {
	return ts.constVal(constant.MakeInt64(n), types.Typ[types.Int])
}

func (ts *Terms) boolConst(b bool) *Term {
	return ts.constVal(constant.MakeBool(b), types.Typ[types.Bool])
}

func (t *Term) isNilConst() bool { return t.k == TConst && t.c == nil && t.op == "nil" }

func (t *Term) str() (string, bool) {
	if t != nil && t.k == TConst && t.c != nil && t.c.Kind() == constant.String {
		return constant.StringVal(t.c), true
	}
	return "", false
}

func (t *Term) int64() (int64, bool) {
	if t != nil && t.k == TConst && t.c != nil {
		v := constant.ToInt(t.c)
		if v.Kind() == constant.Int {
			return constant.Int64Val(v)
		}
	}
	return 0, false
}

func (t *Term) boolVal() (bool, bool) {
	if t != nil && t.k == TConst && t.c != nil && t.c.Kind() == constant.Bool {
		return constant.BoolVal(t.c), true
	}
	return false, false
}

func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// bin builds a canonical comparison or arithmetic term
func (ts *Terms) bin(op token.Token, x, y *Term, typ types.Type) *Term {
	switch op {
	case token.NEQ:
		return ts.not(ts.bin(token.EQL, x, y, typ))
	case token.GTR:
		return ts.bin(token.LSS, y, x, typ)
	case token.GEQ:
		if isFloat(x.typ) || isFloat(y.typ) {
			return ts.bin(token.LEQ, y, x, typ)
		}
		return ts.not(ts.bin(token.LSS, x, y, typ))
	case token.LEQ:
		if isFloat(x.typ) || isFloat(y.typ) {
			return ts.mk(TBin, "<=", nil, nil, nil, 0, types.Typ[types.Bool], x, y)
		}
		return ts.not(ts.bin(token.LSS, y, x, typ))
	case token.EQL:
		if x.k == TConst && y.k == TConst && x.c != nil && y.c != nil && x.c.Kind() == y.c.Kind() {
			return ts.boolConst(constant.Compare(x.c, token.EQL, y.c))
		}
		// comparing with a bool constant
		if b, ok := y.boolVal(); ok {
			if b {
				return x
			}
			return ts.not(x)
		}
		if b, ok := x.boolVal(); ok {
			if b {
				return y
			}
			return ts.not(y)
		}
		if y.id < x.id {
			x, y = y, x
		}
		return ts.mk(TBin, "==", nil, nil, nil, 0, types.Typ[types.Bool], x, y)
	case token.LSS:
		if x.k == TConst && y.k == TConst && x.c != nil && y.c != nil && x.c.Kind() == y.c.Kind() && x.c.Kind() != constant.Bool {
			return ts.boolConst(constant.Compare(x.c, token.LSS, y.c))
		}
		return ts.mk(TBin, "<", nil, nil, nil, 0, types.Typ[types.Bool], x, y)
	}
	if x.k == TConst && y.k == TConst && x.c != nil && y.c != nil {
		func() {
			defer func() { recover() }()
			switch op {
			case token.ADD, token.SUB, token.MUL, token.AND, token.OR:
				if v := constant.BinaryOp(x.c, op, y.c); v.Kind() != constant.Unknown {
					x, y = ts.constVal(v, typ), nil
				}
			}
		}()
		if y == nil {
			return x
		}
	}
	if op == token.ADD && isIntT(typ) && y.id < x.id {
		x, y = y, x
	}
	if op == token.ADD && isIntT(typ) {
		if n, ok := x.int64(); ok && n == 0 {
			return y
		}
		if n, ok := y.int64(); ok && n == 0 {
			return x
		}
	}
	return ts.mk(TBin, op.String(), nil, nil, nil, 0, typ, x, y)
}

func isIntT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (ts *Terms) not(t *Term) *Term {
	if t.k == TNot {
		return t.args[0]
	}
	if b, ok := t.boolVal(); ok {
		return ts.boolConst(!b)
	}
	return ts.mk(TNot, "!", nil, nil, nil, 0, types.Typ[types.Bool], t)
}

func (t *Term) String() string { return t.show(6) }

func (t *Term) show(d int) string {
	if t == nil {
		return "_"
	}
	if d == 0 {
		return "…"
	}
	as := func() string {
		var s []string
		for _, a := range t.args {
			s = append(s, a.show(d-1))
		}
		return strings.Join(s, ", ")
	}
	switch t.k {
	case TConst:
		if t.c != nil {
			return t.c.String()
		}
		return t.op
	case TParam:
		if v, ok := t.val.(ssa.Value); ok {
			return v.Name()
		}
		return "param"
	case TGlobal:
		return t.obj.(*ssa.Global).Name()
	case TFunc:
		return t.obj.(*ssa.Function).Name()
	case TFieldAddr, TField:
		return t.args[0].show(d-1) + "." + t.op
	case TLoad, TDeref:
		return "*(" + t.args[0].show(d-1) + ")"
	case TCall:
		return fmt.Sprintf("%s#%d", t.op, t.idx)
	case TBin:
		return "(" + t.args[0].show(d-1) + t.op + t.args[1].show(d-1) + ")"
	case TConv, TIface:
		return t.args[0].show(d - 1)
	case TLen:
		return "len(" + as() + ")"
	case TPure:
		return t.op + "(" + as() + ")"
	case TAlloc:
		if v, ok := t.val.(*ssa.Alloc); ok {
			return "&" + v.Comment
		}
	case TJoin:
		return fmt.Sprintf("φ%d", t.id)
	}
	return tkNames[t.k] + t.op + "(" + as() + ")"
}

// strip removes conversions and interface boxing
func (t *Term) strip() *Term {
	for t != nil && (t.k == TConv || t.k == TIface) {
		t = t.args[0]
	}
	return t
}

// unbox removes interface boxing
func (t *Term) unbox() *Term {
	for t != nil && t.k == TIface {
		t = t.args[0]
	}
	return t
}
