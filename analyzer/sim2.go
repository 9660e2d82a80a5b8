package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (s *Sim) simple(inst *Inst, in ssa.Instruction, st *State) {
	switch in := in.(type) {
	case *ssa.Alloc:
		t := s.T.mk(TAlloc, "", nil, inst, in, 0, in.Type())
		s.killSite(st, map[int]bool{t.id: true}, fmt.Sprintf("a%d", t.id))
		st.set(inst, in, -1, t)
		el := deref(in.Type())
		if z := s.zero(el); z != nil {
			st.mem[t] = z
		} else if sty, ok := el.Underlying().(*types.Struct); ok {
			for i := 0; i < sty.NumFields(); i++ {
				if z := s.zero(sty.Field(i).Type()); z != nil {
					st.mem[s.fieldAddr(t, sty.Field(i), i)] = z
				}
			}
		}
	case *ssa.UnOp:
		x := s.val(st, inst, in.X)
		switch in.Op {
		case token.MUL:
			// scanning a slice that holds an error
			if x.k == TIndexAddr && isErr(in.Type()) {
				if e, ok := st.mem[s.elems(x.args[0])]; ok {
					if _, exact := st.mem[x]; !exact {
						saw := st.clone()
						saw.mark(fmt.Sprintf("saw%d", x.args[0].id))
						saw.set(inst, in, -1, e)
						st.set(inst, in, -1, s.T.constVal(nil, in.Type()))
						s.pending = []*State{st, saw}
						return
					}
				}
			}
			v := s.load(st, inst, in, x)
			st.set(inst, in, -1, v)
			if s.h.Load != nil {
				s.h.Load(s, inst, in, st, x, v)
			}
		case token.ARROW:
			buf := s.T.mk(TChanBuf, "", nil, nil, nil, 0, nil, x)
			v, ok := st.mem[buf]
			okT := (*Term)(nil)
			if ok && s.nilness(st, v) == 1 {
				okT = s.T.boolConst(true)
				delete(st.mem, buf)
				st.mark(fmt.Sprintf("rcv%d", x.id))
			} else {
				v = s.freshVal(st, inst, in, 0, in.X.Type().Underlying().(*types.Chan).Elem())
				okT = s.freshVal(st, inst, in, 1, types.Typ[types.Bool])
				if m := fmt.Sprintf("rcv%d", x.id); st.marks[m] {
					st.mark(m + "+") // after the error was received
				}
			}
			if in.CommaOk {
				st.set(inst, in, 0, v)
				st.set(inst, in, 1, okT)
			} else {
				st.set(inst, in, -1, v)
			}
		case token.NOT:
			st.set(inst, in, -1, s.T.not(x))
		default:
			st.set(inst, in, -1, s.T.mk(TUn, in.Op.String(), nil, nil, nil, 0, in.Type(), x))
		}
	case *ssa.BinOp:
		st.set(inst, in, -1, s.T.bin(in.Op, s.val(st, inst, in.X), s.val(st, inst, in.Y), in.Type()))
	case *ssa.ChangeInterface:
		st.set(inst, in, -1, s.val(st, inst, in.X))
	case *ssa.ChangeType:
		st.set(inst, in, -1, s.val(st, inst, in.X))
	case *ssa.Convert:
		x := s.val(st, inst, in.X)
		if narrows(in.X.Type(), in.Type()) && x.k != TConst {
			st.set(inst, in, -1, s.T.mk(TPure, "narrow:"+in.Type().Underlying().String(), nil, nil, nil, 0, in.Type(), x))
			break
		}
		st.set(inst, in, -1, s.conv(x, in.Type()))
	case *ssa.MakeInterface:
		x := s.val(st, inst, in.X)
		st.set(inst, in, -1, s.T.mk(TIface, typeKey(in.X.Type()), nil, nil, nil, 0, in.X.Type(), x))
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		v := in.(ssa.Value)
		st.set(inst, v, -1, s.freshVal(st, inst, in, -1, v.Type()))
	case *ssa.Extract:
		st.set(inst, in, -1, s.comp(st, inst, in.Tuple, in.Index))
	case *ssa.Field:
		st.set(inst, in, -1, s.fieldOf(st, s.val(st, inst, in.X), fieldVar(in.X.Type(), in.Field), in.Field))
	case *ssa.FieldAddr:
		t := s.fieldAddr(s.val(st, inst, in.X), fieldVar(in.X.Type(), in.Field), in.Field)
		st.set(inst, in, -1, t)
	case *ssa.Index:
		st.set(inst, in, -1, s.T.mk(TIndex, "", nil, nil, nil, 0, in.Type(), s.val(st, inst, in.X), s.val(st, inst, in.Index)))
	case *ssa.IndexAddr:
		x := s.val(st, inst, in.X)
		if s.h.Unroll && x.k == TSlice && x.args[0].k == TAlloc && x.args[1] == nil {
			x = x.args[0] // the list it was written out in
		}
		st.set(inst, in, -1, s.T.mk(TIndexAddr, "", nil, nil, nil, 0, in.Type(), x, s.val(st, inst, in.Index)))
	case *ssa.Lookup:
		m, k := s.val(st, inst, in.X), s.val(st, inst, in.Index)
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			st.set(inst, in, -1, s.T.mk(TIndex, "", nil, nil, nil, 0, in.Type(), m, k))
			return
		}
		loc := s.mapElem(m, k)
		var v, ok *Term
		if x, found := st.mem[loc]; found {
			v = x
			ok = s.T.boolConst(true)
			if x.k == TCall && x.val == any(in) {
				ok = s.T.mk(TCall, "lookup", nil, inst, in, 1, types.Typ[types.Bool])
			}
		} else {
			v = s.freshVal(st, inst, in, 0, mapElemType(in.X.Type()))
			v2 := s.T.mk(TCall, "lookup", nil, inst, in, 0, v.typ, m, k)
			s.killSite(st, map[int]bool{v2.id: true}, fmt.Sprintf("k%d", v2.id))
			v = v2
			ok = s.freshVal(st, inst, in, 1, types.Typ[types.Bool])
			st.mem[loc] = v
		}
		if in.CommaOk {
			st.set(inst, in, 0, v)
			st.set(inst, in, 1, ok)
		} else {
			st.set(inst, in, -1, v)
		}
	case *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		t := s.T.mk(TMake, "", nil, inst, in, 0, v.Type())
		s.killSite(st, map[int]bool{t.id: true}, fmt.Sprintf("k%d", t.id))
		st.set(inst, v, -1, t)
	case *ssa.MakeSlice:
		t := s.T.mk(TMake, "", nil, inst, in, 0, in.Type())
		s.killSite(st, map[int]bool{t.id: true}, fmt.Sprintf("k%d", t.id))
		st.set(inst, in, -1, t)
		st.mem[s.T.mk(TLenOf, "", nil, nil, nil, 0, nil, t)] = s.val(st, inst, in.Len)
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, s.val(st, inst, b))
		}
		st.set(inst, in, -1, s.T.mk(TClosure, fn.Name(), fn, inst, in, 0, in.Type(), bs...))
	case *ssa.Slice:
		x := s.val(st, inst, in.X)
		o := func(v ssa.Value) *Term {
			if v == nil {
				return nil
			}
			return s.val(st, inst, v)
		}
		lo, hi, mx := o(in.Low), o(in.High), o(in.Max)
		if n, ok := lo.int64(); lo != nil && ok && n == 0 {
			lo = nil
		}
		if lo == nil && hi == nil && mx == nil {
			if _, isSlice := in.X.Type().Underlying().(*types.Slice); isSlice {
				st.set(inst, in, -1, x)
				return
			}
		}
		st.set(inst, in, -1, s.T.mk(TSlice, "", nil, nil, nil, 0, in.Type(), x, lo, hi, mx))
	case *ssa.Range:
		st.set(inst, in, -1, s.T.mk(TRange, "", nil, nil, nil, 0, in.Type(), s.val(st, inst, in.X)))
	case *ssa.Next:
		r := s.val(st, inst, in.Iter)
		for i := 0; i < 3; i++ {
			t := s.T.mk(TCall, "next", nil, inst, in, i, valType(in, i), r)
			s.killSite(st, map[int]bool{t.id: true}, fmt.Sprintf("c%d", t.id))
			st.set(inst, in, i, t)
		}
	case *ssa.Select:
		n := in.Type().(*types.Tuple).Len()
		for i := 0; i < n; i++ {
			st.set(inst, in, i, s.freshVal(st, inst, in, i, valType(in, i)))
		}
		for _, ss := range in.States {
			if ss.Dir == types.SendOnly {
				s.send(st, s.val(st, inst, ss.Chan), s.val(st, inst, ss.Send))
			}
		}
	case *ssa.TypeAssert:
		x := s.val(st, inst, in.X)
		var v *Term
		known := int8(0)
		if x.k == TIface {
			if types.Identical(x.typ, in.AssertedType) {
				v, known = x.args[0], 1
			} else if !types.IsInterface(in.AssertedType) {
				known = -1
			} else {
				v = x
			}
		}
		if v == nil {
			v = s.T.mk(TAssert, typeKey(in.AssertedType), nil, nil, nil, 0, in.AssertedType, x)
		}
		if in.CommaOk {
			st.set(inst, in, 0, v)
			ok := s.T.mk(TPure, "is:"+typeKey(in.AssertedType), nil, nil, nil, 0, types.Typ[types.Bool], x)
			if known != 0 {
				ok = s.T.boolConst(known == 1)
			}
			st.set(inst, in, 1, ok)
		} else {
			if known == -1 {
				st.A = nil
				return
			}
			st.set(inst, in, -1, v)
		}
	case *ssa.Store:
		loc, val := s.val(st, inst, in.Addr), s.val(st, inst, in.Val)
		if s.h.Store != nil {
			s.h.Store(s, inst, in, st, loc, val)
		}
		s.store(st, inst, in, loc, val)
	case *ssa.MapUpdate:
		loc, val := s.mapElem(s.val(st, inst, in.Map), s.val(st, inst, in.Key)), s.val(st, inst, in.Value)
		if s.h.Store != nil {
			s.h.Store(s, inst, in, st, loc, val)
		}
		s.store(st, inst, in, loc, val)
	case *ssa.Send:
		s.send(st, s.val(st, inst, in.Chan), s.val(st, inst, in.X))
	default:
		if v, ok := in.(ssa.Value); ok {
			st.set(inst, v, -1, s.freshVal(st, inst, in, -1, v.Type()))
		}
	}
}

func (s *Sim) conv(x *Term, typ types.Type) *Term {
	if x.k == TConst && x.c != nil {
		if b, ok := typ.Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsInteger != 0:
				if v := constant.ToInt(x.c); v.Kind() == constant.Int {
					return s.T.constVal(v, typ)
				}
			case b.Info()&types.IsFloat != 0:
				if v := constant.ToFloat(x.c); v.Kind() == constant.Float {
					return s.T.constVal(v, typ)
				}
			}
		}
	}
	if x.typ != nil && types.Identical(x.typ, typ) {
		return x
	}
	return s.T.mk(TConv, typeKey(typ), nil, nil, nil, 0, typ, x)
}

func (s *Sim) send(st *State, ch, v *Term) {
	buf := s.T.mk(TChanBuf, "", nil, nil, nil, 0, nil, ch)
	if old, ok := st.mem[buf]; ok && s.nilness(st, old) == 1 {
		return
	}
	st.mem[buf] = v
}

func (s *Sim) mapElem(m, k *Term) *Term {
	return s.T.mk(TMapElem, "", nil, nil, nil, 0, nil, m, k.strip())
}

func mapElemType(t types.Type) types.Type {
	if m, ok := t.Underlying().(*types.Map); ok {
		return m.Elem()
	}
	return nil
}

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func (s *Sim) freshVal(st *State, inst *Inst, in ssa.Instruction, i int, typ types.Type) *Term {
	t := s.T.mk(TCall, strings.TrimPrefix(fmt.Sprintf("%T", in), "*ssa."), nil, inst, in, i, typ)
	s.killSite(st, map[int]bool{t.id: true}, fmt.Sprintf("c%d", t.id))
	return t
}

// ---------------------------------------------------------------- calls

type CallCtx struct {
	S      *Sim
	Inst   *Inst
	Instr  ssa.Instruction // *ssa.Call, *ssa.Go or *ssa.Defer
	At     ssa.Instruction
	Com    *ssa.CallCommon
	Name   string
	Fv     *Term
	Args   []*Term // receiver first
	St     *State
	Kind   byte
	method *ssa.Function // of a method value
	outs   []*State
	blk    *ssa.BasicBlock
	next   int
}

// Out adds an outcome: the call returned with these results
func (c *CallCtx) Out(st *State, res ...*Term) {
	if call, ok := c.Instr.(*ssa.Call); ok && c.Kind == 'c' {
		c.S.setResults(st, c.Inst, call, res)
	}
	c.outs = append(c.outs, st)
}

func (c *CallCtx) NRes() int { return c.Com.Signature().Results().Len() }

// FreshAll returns fresh results
func (c *CallCtx) FreshAll(st *State) []*Term {
	var out []*Term
	for i := 0; i < c.NRes(); i++ {
		out = append(out, c.S.fresh(st, c.Inst, c.Instr, i))
	}
	return out
}

// ErrFork makes two outcomes: success and failure of a call with an error result
func (c *CallCtx) ErrFork(ok func(*State), fail func(*State)) {
	n := c.NRes() - 1
	a, b := c.St.clone(), c.St.clone()
	ra := c.FreshAll(a)
	ra[n] = c.S.T.constVal(nil, errType)
	if ok != nil {
		ok(a)
	}
	if a.A != nil {
		c.Out(a, ra...)
	}
	rb := c.FreshAll(b)
	c.S.setNil(b, rb[n], 1)
	if fail != nil {
		fail(b)
	}
	if b.A != nil {
		c.Out(b, rb...)
	}
}

func (c *CallCtx) Arg(i int) *Term {
	if i < len(c.Args) {
		return c.Args[i]
	}
	return nil
}

// Varargs resolves the elements of a variadic argument
func (s *Sim) Varargs(st *State, t *Term) ([]*Term, bool) {
	if t == nil || t.isNilConst() {
		return nil, true
	}
	if t.k == TSlice && t.args[0].k == TAlloc {
		at, ok := deref(t.args[0].typ).Underlying().(*types.Array)
		if !ok {
			return nil, false
		}
		var out []*Term
		for i := int64(0); i < at.Len(); i++ {
			var v *Term
			for l, x := range st.mem {
				if l.k == TIndexAddr && l.args[0] == t.args[0] {
					if n, ok := l.args[1].int64(); ok && n == i {
						v = x
					}
				}
			}
			if v == nil {
				return nil, false
			}
			out = append(out, v)
		}
		return out, true
	}
	return nil, false
}

func (s *Sim) lenOf(st *State, x *Term) *Term {
	x2 := x
	if v, ok := st.mem[s.T.mk(TLenOf, "", nil, nil, nil, 0, nil, x)]; ok {
		return v
	}
	if str, ok := x.str(); ok {
		return s.T.intConst(int64(len(str)))
	}
	if x.isNilConst() {
		return s.T.intConst(0)
	}
	if x.k == TSlice && x.args[2] != nil && x.args[3] == nil {
		if x.args[1] == nil {
			return s.conv(x.args[2], types.Typ[types.Int])
		}
		return s.T.bin(token.SUB, x.args[2], x.args[1], types.Typ[types.Int])
	}
	if x.k == TSlice && x.args[2] == nil && x.args[1] != nil {
		return s.T.bin(token.SUB, s.lenOf(st, x.args[0]), x.args[1], types.Typ[types.Int])
	}
	if x.k == TAlloc || x.k == TSlice && x.args[1] == nil && x.args[2] == nil {
		b := x
		if x.k == TSlice {
			b = x.args[0]
		}
		if b.typ != nil {
			if at, ok := deref(b.typ).Underlying().(*types.Array); ok {
				return s.T.intConst(at.Len())
			}
		}
	}
	return s.T.mk(TLen, "", nil, nil, nil, 0, types.Typ[types.Int], x2)
}

func (s *Sim) finish(c *CallCtx) {
	for _, o := range c.outs {
		s.run(c.Inst, c.blk, c.next, o)
	}
}

func (s *Sim) call(inst *Inst, blk *ssa.BasicBlock, i int, in ssa.Instruction, com *ssa.CallCommon, fv *Term, args []*Term, kind byte, next int, st *State) {
	c := &CallCtx{S: s, Inst: inst, Instr: in, At: blk.Instrs[i], Com: com, Fv: fv, Args: args, St: st, Kind: kind, blk: blk, next: next}
	c.Name = calleeName(com)
	// a call through a variable that is known
	if c.Name == "dynamic" && fv != nil {
		if fv.k == TFunc {
			c.Name = funcName(fv.obj.(*ssa.Function))
		} else if fv.k == TClosure {
			c.Name = funcName(fv.obj.(*ssa.Function))
		}
	}
	// a method value: the receiver is the first argument
	if fv != nil && fv.k == TClosure && len(fv.args) == 1 {
		f := fv.obj.(*ssa.Function)
		if o, ok := f.Object().(*types.Func); ok && strings.HasPrefix(f.Synthetic, "bound ") {
			if m := s.p.ssa.FuncValue(o); m != nil {
				c.Args, c.method = append([]*Term{fv.args[0]}, args...), m
			} else {
				c.Name = "dynamic"
			}
		}
	}
	s.calls[c.Name]++
	if s.h.Call != nil && s.h.Call(c) {
		s.finish(c)
		return
	}
	if s.model(c) {
		s.finish(c)
		return
	}
	targets := s.targets(c)
	entered := false
	for _, t := range targets {
		if !s.inlinable(inst, t.fn) {
			continue
		}
		n := st.clone()
		s.enter(c, t, n)
		entered = true
	}
	if entered {
		return
	}
	s.opaqueCall(c)
	s.finish(c)
}

type target struct {
	fn    *ssa.Function
	binds []*Term
	args  []*Term
}

func (s *Sim) targets(c *CallCtx) []target {
	com := c.Com
	if c.method != nil {
		return []target{{fn: c.method, args: c.Args}}
	}
	if com.IsInvoke() {
		recv := c.Args[0]
		if recv.k == TIface && !types.IsInterface(recv.typ) {
			sel := s.p.ssa.MethodSets.MethodSet(recv.typ).Lookup(com.Method.Pkg(), com.Method.Name())
			if sel != nil {
				if fn := s.p.ssa.MethodValue(sel); fn != nil {
					a := append([]*Term{recv.args[0]}, c.Args[1:]...)
					return []target{{fn: fn, args: a}}
				}
			}
		}
		var out []target
		for _, fn := range s.p.impls(com.Method, com.Value.Type()) {
			a := append([]*Term{}, c.Args...)
			a[0] = s.T.mk(TAssert, "dyn", fn, nil, nil, 0, fn.Params[0].Type(), a[0])
			out = append(out, target{fn: fn, args: a})
		}
		return out
	}
	if fn := com.StaticCallee(); fn != nil {
		t := target{fn: fn, args: c.Args}
		if c.Fv != nil && c.Fv.k == TClosure {
			t.binds = c.Fv.args
		} else if mc, ok := com.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				t.binds = append(t.binds, s.val(c.St, c.Inst, b))
			}
		}
		return []target{t}
	}
	return s.funcTargets(c.St, c.Fv, c.Args)
}

func (s *Sim) funcTargets(st *State, fv *Term, args []*Term) []target {
	if fv == nil {
		return nil
	}
	switch fv.k {
	case TFunc:
		return []target{{fn: fv.obj.(*ssa.Function), args: args}}
	case TClosure:
		return []target{{fn: fv.obj.(*ssa.Function), binds: fv.args, args: args}}
	case TLoad, TField:
		var v *types.Var
		if fv.k == TLoad && fv.args[0].k == TFieldAddr {
			v, _ = fv.args[0].obj.(*types.Var)
		} else if fv.k == TField {
			v, _ = fv.obj.(*types.Var)
		}
		var out []target
		if v != nil {
			for _, f := range s.p.fieldFn[v] {
				out = append(out, target{fn: f, args: args})
			}
		}
		return out
	}
	return nil
}

func (s *Sim) inlinable(inst *Inst, fn *ssa.Function) bool {
	if fn.Blocks == nil {
		return false
	}
	if !s.p.inRepo[fn] {
		// synthetic wrappers of repository methods
		if fn.Synthetic == "" {
			return false
		}
		if fn.Pkg == nil && fn.Object() != nil && fn.Object().Pkg() != nil && !strings.HasPrefix(fn.Object().Pkg().Path(), modPath) {
			return false
		}
	}
	if s.h.Inline != nil && !s.h.Inline(inst, fn) {
		return false
	}
	if inst.depth >= s.maxDepth {
		return false
	}
	for x := inst; x != nil; x = x.parent {
		if x.fn == fn {
			return false
		}
	}
	return true
}

func (s *Sim) enter(c *CallCtx, t target, st *State) *Inst {
	ch := s.inst(c.Inst, c.Instr, c.At, t.fn, c.Kind, c.blk, c.next)
	delete(st.frames, ch)
	for i, p := range t.fn.Params {
		if i < len(t.args) {
			st.set(ch, p, -1, t.args[i])
			if i == 0 && t.args[0].k == TAssert && t.args[0].op == "dyn" {
				s.setNil(st, t.args[0], 1)
			}
		} else {
			tt := s.T.mk(TUnknown, "cb", nil, ch, p, -1, p.Type())
			s.killSite(st, map[int]bool{tt.id: true}, fmt.Sprintf("p%d", tt.id))
			st.set(ch, p, -1, tt)
		}
	}
	for i, f := range t.fn.FreeVars {
		if i < len(t.binds) {
			st.set(ch, f, -1, t.binds[i])
		} else {
			st.set(ch, f, -1, s.T.mk(TUnknown, "fv", nil, ch, f, -1, f.Type()))
		}
	}
	s.arrive(ch, t.fn.Blocks[0], 0, st)
	return ch
}

// opaqueCall: outside the repository, or not resolved
func (s *Sim) opaqueCall(c *CallCtx) {
	s.opaque[c.Name]++
	// callbacks may be called or not
	for ai, a := range c.Args {
		if background(c.Instr) {
			break
		}
		for _, t := range s.funcTargets(c.St, a.unbox(), nil) {
			if !s.inlinable(c.Inst, t.fn) {
				continue
			}
			n := c.St.clone()
			cc := *c
			cc.Kind = 'x'
			_ = ai
			s.enter(&cc, t, n)
		}
	}
	st := c.St
	if !readOnly(c.Name) {
		for _, a := range c.Args {
			u := a.strip()
			switch u.k {
			case TAlloc, TFieldAddr, TIndexAddr, TGlobal:
				s.havoc(st, u)
			case TSlice:
				s.havoc(st, u.args[0])
			default:
				if u.typ != nil {
					if _, ok := u.typ.Underlying().(*types.Pointer); ok {
						s.havoc(st, u)
					}
					if _, ok := u.typ.Underlying().(*types.Map); ok {
						s.havoc(st, u)
					}
				}
			}
		}
	}
	c.Out(st, c.FreshAll(st)...)
}

var pureFns = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "strconv.Itoa": true, "strconv.FormatUint": true, "strconv.FormatInt": true,
	"strings.HasPrefix": true, "strings.HasSuffix": true, "strings.TrimPrefix": true, "strings.TrimSuffix": true, "strings.CutPrefix": false,
	"strings.Contains": true, "strings.TrimSpace": true, "strings.ToLower": true, "strings.TrimLeft": true, "strings.Trim": true, "strings.Replace": true, "strings.ReplaceAll": true,
	"(github.com/go-openapi/strfmt.UUID).String": true,
	"path/filepath.Join": true, "path.Join": true, "math.IsNaN": true, "math.IsInf": true, "math.Abs": true, "math.Float32bits": true,
}

func readOnly(name string) bool {
	if pureFns[name] {
		return true
	}
	for _, p := range []string{"fmt.", "encoding/json.Marshal", "iface:github.com/sirupsen/logrus", "(github.com/sirupsen/logrus", "iface:github.com/fairdatasociety/fairOS-dfs/pkg/logging", "errors.", "github.com/pkg/errors.", "time.", "(time.", "math.", "strings.", "strconv.", "iface:context.", "context.", "os.Stat", "os.Remove", "os.Rename", "os.Open", "os.Create", "os.MkdirAll"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

var nonNilErr = map[string]bool{"fmt.Errorf": true, "errors.New": true, "github.com/pkg/errors.New": true, "github.com/pkg/errors.Errorf": true}
var wrapErr = map[string]bool{"github.com/pkg/errors.Wrap": true, "github.com/pkg/errors.Wrapf": true, "github.com/pkg/errors.WithMessage": true, "github.com/pkg/errors.WithMessagef": true, "github.com/pkg/errors.WithStack": true}

func lockOp(name string) (op string, ok bool) {
	switch name {
	case "(sync.Mutex).Lock", "(sync.RWMutex).Lock", "(sync.RWMutex).RLock", "(sync.Mutex).Unlock", "(sync.RWMutex).Unlock", "(sync.RWMutex).RUnlock", "(sync.Mutex).TryLock", "(sync.RWMutex).TryLock", "(sync.RWMutex).TryRLock":
		return name[strings.LastIndex(name, ".")+1:], true
	case "iface:sync.Locker.Lock", "iface:sync.Locker.Unlock":
		return name[strings.LastIndex(name, ".")+1:], true
	}
	return "", false
}

const ecType = "(github.com/weaviate/weaviate/entities/errorcompounder.ErrorCompounder)"
const egType = "(golang.org/x/sync/errgroup.Group)"

// model: what the standard library and a few helpers do
func (s *Sim) model(c *CallCtx) bool {
	st := c.St
	if op, ok := lockOp(c.Name); ok {
		if (op == "Lock" || op == "RLock") && !s.h.KeepLock {
			s.killShared(st)
		}
		c.Out(st, c.FreshAll(st)...)
		return true
	}
	switch {
	case strings.HasPrefix(c.Name, "builtin:"):
		s.builtin(c)
		return true
	case nonNilErr[c.Name]:
		t := s.fresh(st, c.Inst, c.Instr, 0)
		s.setNil(st, t, 1)
		c.Out(st, t)
		return true
	case wrapErr[c.Name]:
		e := c.Args[0]
		switch s.nilness(st, e) {
		case -1:
			c.Out(st, s.T.constVal(nil, errType))
		default:
			c.Out(st, s.T.mk(TPure, "errwrap", nil, nil, nil, 0, errType, e))
		}
		return true
	case c.Name == "errors.Join":
		t := s.fresh(st, c.Inst, c.Instr, 0)
		if as, ok := s.Varargs(st, c.Args[0]); ok {
			for _, a := range as {
				if s.nilness(st, a) == 1 {
					s.setNil(st, t, 1)
				}
			}
		} else if _, ok := st.mem[s.elems(c.Args[0])]; ok {
			s.setNil(st, t, 1)
		}
		c.Out(st, t)
		return true
	case pureFns[c.Name]:
		as := append([]*Term{}, c.Args...)
		if c.Com.Signature().Variadic() && len(as) > 0 {
			if vs, ok := s.Varargs(st, as[len(as)-1]); ok {
				as = as[:len(as)-1]
				for _, v := range vs {
					as = append(as, v.unbox())
				}
			}
		}
		typ := c.Com.Signature().Results().At(0).Type()
		c.Out(st, s.T.mk(TPure, c.Name, nil, nil, nil, 0, typ, as...))
		return true
	case c.Name == ecType+".Add" || c.Name == ecType+".AddWrap" || c.Name == ecType+".Addf" || c.Name == ecType+".AddGroups":
		loc := s.T.mk(TDeref, "ec", nil, nil, nil, 0, nil, c.Args[0])
		if len(c.Args) > 1 && s.nilness(st, c.Args[1]) == 1 {
			st.mem[loc] = c.Args[1]
		}
		c.Out(st)
		return true
	case c.Name == ecType+".ToError" || c.Name == ecType+".First":
		loc := s.T.mk(TDeref, "ec", nil, nil, nil, 0, nil, c.Args[0])
		t := s.fresh(st, c.Inst, c.Instr, 0)
		if v, ok := st.mem[loc]; ok && s.nilness(st, v) == 1 {
			s.setNil(st, t, 1)
		}
		c.Out(st, t)
		return true
	case c.Name == "(sync.Once).Do":
		skip := st.clone()
		c.Out(skip)
		for _, t := range s.funcTargets(st, c.Args[1], nil) {
			if s.inlinable(c.Inst, t.fn) {
				s.enter(c, t, st.clone())
			}
		}
		return true
	case strings.HasPrefix(c.Name, "(sync.WaitGroup)."):
		if strings.HasSuffix(c.Name, ".Go") && len(c.Args) > 1 {
			for _, t := range s.funcTargets(st, c.Args[1], nil) {
				if s.inlinable(c.Inst, t.fn) {
					s.enter(c, t, st.clone())
					return true
				}
			}
		}
		c.Out(st, c.FreshAll(st)...)
		return true
	case c.Name == egType+".Go" || c.Name == egType+".TryGo":
		for _, t := range s.funcTargets(st, c.Args[1], nil) {
			if s.inlinable(c.Inst, t.fn) {
				cc := *c
				cc.Kind = 'e'
				s.enter(&cc, t, st.clone())
				return true
			}
		}
		return false
	case c.Name == egType+".Wait":
		loc := s.T.mk(TDeref, "eg", nil, nil, nil, 0, nil, c.Args[0])
		t := s.fresh(st, c.Inst, c.Instr, 0)
		if v, ok := st.mem[loc]; ok && s.nilness(st, v) == 1 {
			s.setNil(st, t, 1)
		}
		c.Out(st, t)
		return true
	}
	return false
}

func (s *Sim) builtin(c *CallCtx) {
	st := c.St
	switch strings.TrimPrefix(c.Name, "builtin:") {
	case "len":
		c.Out(st, s.lenOf(st, c.Args[0]))
	case "ssa:wrapnilchk":
		c.Out(st, c.Args[0])
	case "cap":
		c.Out(st, s.T.mk(TCap, "", nil, nil, nil, 0, types.Typ[types.Int], c.Args[0]))
	case "append":
		t := s.fresh(st, c.Inst, c.Instr, 0)
		if len(c.Args) > 1 {
			old := c.Args[0]
			if e, ok := st.mem[s.elems(old)]; ok {
				st.mem[s.elems(t)] = e
			}
			if vs, ok := s.Varargs(st, c.Args[1]); ok {
				for _, v := range vs {
					if v.typ != nil && isErr(v.typ) && s.nilness(st, v) == 1 || v.k == TPure && v.op == "errwrap" && s.nilness(st, v) == 1 {
						st.mem[s.elems(t)] = v
					}
				}
				if len(vs) > 0 {
					s.setNil(st, t, 1)
					// 0 < len(t)
					st.facts[s.T.bin(token.LSS, s.T.intConst(0), s.lenOf(st, t), nil)] = Fact{truth: 1}
				}
			} else if e, ok := st.mem[s.elems(c.Args[1])]; ok {
				st.mem[s.elems(t)] = e
			}
		}
		c.Out(st, t)
	case "delete":
		for l := range st.mem {
			if l.k == TMapElem && l.args[0] == c.Args[0] {
				k1, ok1 := l.args[1].str()
				k2, ok2 := c.Args[1].strip().str()
				if !ok1 || !ok2 || k1 == k2 {
					delete(st.mem, l)
				}
			}
		}
		c.Out(st)
	case "min", "max":
		c.Out(st, s.T.mk(TPure, c.Name, nil, nil, nil, 0, c.Com.Signature().Results().At(0).Type(), c.Args...))
	case "copy":
		c.Out(st, s.fresh(st, c.Inst, c.Instr, 0))
	default:
		c.Out(st, c.FreshAll(st)...)
	}
}

func (s *Sim) callDeferred(inst *Inst, blk *ssa.BasicBlock, i int, in *ssa.RunDefers, d deferred, st *State) {
	s.call(inst, blk, i, d.instr, &d.instr.Call, d.fv, d.args, 'd', i, st)
}

func (s *Sim) goStmt(inst *Inst, blk *ssa.BasicBlock, i int, g *ssa.Go, st *State) {
	var args []*Term
	var fv *Term
	if g.Call.IsInvoke() {
		args = append(args, s.val(st, inst, g.Call.Value))
	} else {
		fv = s.val(st, inst, g.Call.Value)
	}
	for _, a := range g.Call.Args {
		args = append(args, s.val(st, inst, a))
	}
	c := &CallCtx{S: s, Inst: inst, Instr: g, At: g, Com: &g.Call, Fv: fv, Args: args, St: st, Kind: 'g', blk: blk, next: i + 1}
	c.Name = calleeName(&g.Call)
	entered := false
	run, skip := true, !joinsLocally(g)
	var ts []target
	for _, t := range s.targets(c) {
		if s.inlinable(inst, t.fn) {
			ts = append(ts, t)
		}
	}
	for _, t := range ts {
		n := st.clone()
		if s.h.GoBody != nil {
			ch := s.inst(c.Inst, c.Instr, c.At, t.fn, 'g', c.blk, c.next)
			run, skip = s.h.GoBody(s, inst, ch, g, n)
		}
		if run {
			s.enter(c, t, n)
			entered = true
		}
	}
	if !entered || skip {
		s.run(inst, blk, i+1, st)
	}
}

// joinsLocally: the goroutine signals its end (WaitGroup, channel), so the spawner can wait for it
func joinsLocally(g *ssa.Go) bool {
	var fn *ssa.Function
	switch v := g.Call.Value.(type) {
	case *ssa.MakeClosure:
		fn = v.Fn.(*ssa.Function)
	case *ssa.Function:
		fn = v
	}
	if fn == nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Send:
				return true
			case *ssa.Defer:
				n := calleeName(&in.Call)
				if n == "(sync.WaitGroup).Done" || n == "builtin:close" {
					return true
				}
			case *ssa.Call:
				n := calleeName(&in.Call)
				if n == "(sync.WaitGroup).Done" || n == "builtin:close" {
					return true
				}
			}
		}
	}
	return false
}

var sizes64 = types.SizesFor("gc", "amd64")

// narrows: a conversion that may lose part of an integer
func narrows(from, to types.Type) bool {
	f, ok := from.Underlying().(*types.Basic)
	t, ok2 := to.Underlying().(*types.Basic)
	if !ok || !ok2 || f.Info()&types.IsInteger == 0 || t.Info()&types.IsInteger == 0 || f.Info()&types.IsUntyped != 0 {
		return f != nil && t != nil && f.Info()&types.IsFloat != 0 && t.Info()&types.IsInteger != 0
	}
	return sizes64.Sizeof(t) < sizes64.Sizeof(f)
}
