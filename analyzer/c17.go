package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	setParsed = "own-field"
	setDef    = "defaults"
	setMin    = "minimums"
	setConst  = "immutable"
	setUse    = "applied"
	confType  = hnswPkg + ".UserConfig"
)

func init() {
	register("C17", func(p *Prog, r *Report) {
		r.explain = "value flow from the keys of the settings given to the fields of the parsed settings, and from these to the parameters of the index"
		r.rule(setParsed, "each field of the parsed settings gets only the value given under its own name; a value given under the name of a setting is stored in its field or rejected; no setting is left unread")
		r.rule(setDef, "before anything given is looked at every field has its default")
		r.rule(setMin, "settings are accepted only with at least the minimum number of connections and construction candidates")
		r.rule(setConst, "an update is accepted only if every immutable setting stays the same")
		r.rule(setUse, "each parameter of the index is made from its own setting, on creation and on an update")
		r.need(setParsed, 8)
		r.need(setDef, 8)
		r.need(setMin, 2)
		r.need(setConst, 3)
		r.need(setUse, 8)
		c := &settings{p: p, r: r}
		c.leaves()
		if len(c.leaf) < 8 {
			r.anchor(setParsed, "the settings of the index")
			return
		}
		c.parse()
		c.update()
		c.use()
	})
}

type leaf struct {
	path  string // names of fields
	key   string // names under which it is given
	typ   types.Type
	def   constant.Value
	hasDf bool
}

type settings struct {
	p    *Prog
	r    *Report
	leaf map[string]*leaf // by path
	keys map[string]*leaf // by key
}

// leaves: the settings, by the names in their stored form
func (c *settings) leaves() {
	c.leaf, c.keys = map[string]*leaf{}, map[string]*leaf{}
	n := c.p.namedType(confType)
	if n == nil {
		return
	}
	var walk func(t *types.Struct, path, key string)
	walk = func(t *types.Struct, path, key string) {
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			name, _, _ := strings.Cut(reflect.StructTag(t.Tag(i)).Get("json"), ",")
			if name == "" {
				name = f.Name()
			}
			p, k := path+f.Name(), key+name
			if st, ok := f.Type().Underlying().(*types.Struct); ok {
				walk(st, p+".", k+".")
				continue
			}
			l := &leaf{path: p, key: k, typ: f.Type()}
			for _, s := range []string{"", "Metric"} {
				if v, ok := c.p.pkgConst(hnswPkg, "Default"+strings.ReplaceAll(p, ".", "")+s); ok {
					l.def, l.hasDf = v, true
				}
			}
			if o := c.keys[k]; o != nil {
				c.r.failf(setParsed, c.p.pos(f.Pos()), "UserConfig", "%s and %s are given under the same name", o.path, p)
			}
			c.leaf[p], c.keys[k] = l, l
		}
	}
	walk(n.Underlying().(*types.Struct), "", "")
}

func (c *settings) sorted() []*leaf {
	var out []*leaf
	for _, l := range c.leaf {
		out = append(out, l)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].path < out[j].path })
	return out
}

// keyPath: the names a value was given under
func keyPath(t *Term) (string, bool) {
	t = t.strip()
	switch {
	case t.k == TAssert || t.k == TPure && (t.op == "narrow:int64" || t.op == "narrow:int"):
		return keyPath(t.args[0])
	case t.k == TParam:
		return "", true
	case t.k == TCall && t.op == "lookup":
		b, ok := keyPath(t.args[0])
		k, is := constKey(t.args[1])
		if !ok || !is {
			return "", false
		}
		if b != "" {
			b += "."
		}
		return b + k, true
	}
	return "", false
}

func (c *settings) from(s *Sim, t *Term) *Term {
	if k, ok := keyPath(t); ok && k != "" {
		return s.T.mk(TPure, "from:"+k, nil, nil, nil, 0, nil)
	}
	return nil
}

// givenAs: the names a value was given under
func givenAs(s *Sim, st *State, t *Term) string {
	if g := s.tag(st, t); g != nil && strings.HasPrefix(g.op, "from:") {
		return g.op[5:]
	}
	if g := s.tag(st, t.strip()); g != nil && strings.HasPrefix(g.op, "from:") {
		return g.op[5:]
	}
	if k, ok := keyPath(t); ok {
		return k
	}
	return ""
}

func (c *settings) isConf(t types.Type) bool { return typeName(t) == confType }

// fieldOfConf: the setting a location is
func (c *settings) fieldOfConf(loc *Term) (string, *Term) {
	var path []string
	for loc.k == TFieldAddr {
		path = append([]string{loc.op}, path...)
		if c.isConf(loc.args[0].typ) {
			return strings.Join(path, "."), loc.args[0]
		}
		loc = loc.args[0]
	}
	return "", nil
}

func (c *settings) isDefault(l *leaf, v *Term) bool {
	if !l.hasDf {
		return true
	}
	if v == nil {
		return zeroConst(l.def)
	}
	v = v.strip()
	return v.k == TConst && v.c != nil && constant.Compare(constant.ToFloat(orSame(v.c)), token.EQL, constant.ToFloat(orSame(l.def)))
}

func (c *settings) parse() {
	p, r := c.p, c.r
	fn := mustFn(p, r, setParsed, "pkg/hnsw.ParseAndValidateConfig")
	if fn == nil {
		return
	}
	mins := map[string]constant.Value{}
	for _, f := range []string{"MaxConnections", "EFConstruction"} {
		if v, ok := p.pkgConst(hnswPkg, "Minmum"+f); ok {
			mins[f] = v
		} else if v, ok := p.pkgConst(hnswPkg, "Minimum"+f); ok {
			mins[f] = v
		} else {
			r.anchor(setMin, "the minimum of "+f)
		}
	}
	confs := map[string]*Term{}
	name := func(st *State, t *Term) {
		key := strconv.Itoa(t.id)
		confs[key] = t
		setFlag(st, "conf", key)
	}
	var conf *Term // in the state looked at: where settings were put last
	look := func(st *State) { conf = confs[flagOf(st, "conf")] }
	at := func(s *Sim, path string) *Term {
		t, typ := conf, c.p.namedType(confType).Underlying().(*types.Struct)
		for _, n := range strings.Split(path, ".") {
			for i := 0; i < typ.NumFields(); i++ {
				if f := typ.Field(i); f.Name() == n {
					t = s.fieldAddr(t, f, i)
					if u, ok := f.Type().Underlying().(*types.Struct); ok {
						typ = u
					}
					break
				}
			}
		}
		return t
	}
	cur := func(s *Sim, st *State, l *leaf) *Term {
		look(st)
		if conf == nil {
			return nil
		}
		if v := st.mem[at(s, l.path)]; v != nil {
			return v
		}
		// part of a struct stored as a whole
		parts := strings.Split(l.path, ".")
		for i := len(parts) - 1; i > 0; i-- {
			v := st.mem[at(s, strings.Join(parts[:i], "."))]
			for _, n := range parts[i:] {
				if v == nil || v.k != TStruct {
					v = nil
					break
				}
				v = fieldNamed(v, n)
			}
			if v != nil {
				return v
			}
		}
		return nil
	}
	check := func(s *Sim, inst *Inst, in ssa.Instruction, st *State) {
		if flagOf(st, "checked") != "" {
			return
		}
		setFlag(st, "checked", "1")
		if look(st); conf == nil {
			s.violate(setDef, in, inst, st, "settings are looked at before there is anything to put them in")
			return
		}
		for _, l := range c.sorted() {
			r.ok(setDef, l.path)
			if !c.isDefault(l, cur(s, st, l)) {
				s.violate(setDef, in, inst, st, l.path+" may not have its default when it is not given")
			}
		}
	}
	h := &Hooks{KeepLock: true, Unroll: true}
	h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
	h.Inline = func(inst *Inst, f *ssa.Function) bool {
		return isPkg(rootFn(f), hnswPkg) && !checksName(f)
	}
	h.Tag = func(s *Sim, st *State, t *Term) *Term { return c.from(s, t) }
	take := func(s *Sim, inst *Inst, in ssa.Instruction, st *State, l *leaf, v *Term) {
		setFlag(st, "min:"+l.path, "")
		if v != nil {
			if k := givenAs(s, st, v); k != "" {
				if k != l.key {
					s.violate(setParsed, in, inst, st, "what is given as "+k+" is stored as "+l.path)
				}
				if strings.HasSuffix(l.key, "encoder.type") || strings.HasSuffix(l.key, "encoder.distribution") {
					if flagOf(st, "valid:"+k) == "" {
						s.violate(setParsed, in, inst, st, "what is given as "+k+" is stored without being checked")
					}
				}
				r.ok(setParsed, l.path+" "+p.instrPos(in))
				setFlag(st, "given:"+l.key, "")
				setFlag(st, "range:"+l.key, "")
				setFlag(st, "failed:"+l.key, "")
				setFlag(st, "valid:"+l.key, "")
				return
			}
			if flagOf(st, "range:"+l.key) != "" && v.strip().k == TConst {
				setFlag(st, "given:"+l.key, "")
				setFlag(st, "range:"+l.key, "")
				setFlag(st, "failed:"+l.key, "")
				return
			}
		}
		if flagOf(st, "checked") == "" {
			return // defaults are looked at when they matter
		}
		if flagOf(st, "given:"+l.key) == "" && c.isDefault(l, v) && l.hasDf {
			return
		}
		s.violate(setParsed, in, inst, st, l.path+" gets a value that was not given as "+l.key)
	}
	h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
		if loc.k == TAlloc && c.isConf(loc.typ) {
			if val.k != TStruct {
				return
			}
			for _, l := range c.sorted() {
				v := val
				for _, n := range strings.Split(l.path, ".") {
					if v != nil {
						v = fieldNamed(v, n)
					}
				}
				if v != nil && v != cur(s, st, l) {
					take(s, inst, in, st, l, v)
				}
			}
			name(st, loc)
			return
		}
		path, root := c.fieldOfConf(loc)
		if root == nil || root.k != TAlloc {
			return
		}
		name(st, root)
		if l := c.leaf[path]; l != nil {
			take(s, inst, in, st, l, val)
			return
		}
		for _, l := range c.sorted() {
			if rest, ok := strings.CutPrefix(l.path, path+"."); ok {
				v := val
				for _, n := range strings.Split(rest, ".") {
					if v != nil {
						v = fieldNamed(v, n)
					}
				}
				take(s, inst, in, st, l, v)
			}
		}
	}
	h.Instr = func(s *Sim, inst *Inst, in ssa.Instruction, st *State) {
		if lk, ok := in.(*ssa.Lookup); ok && strings.HasSuffix(lk.X.Type().String(), "]interface{}") {
			check(s, inst, in, st)
		}
	}
	h.Call = func(cc *CallCtx) bool {
		s := cc.S
		if cc.Name == "(encoding/json.Number).Int64" || cc.Name == "(encoding/json.Number).Float64" {
			k := givenAs(s, cc.St, cc.Args[0])
			cc.ErrFork(nil, func(o *State) { setFlag(o, "failed:"+k, "1") })
			if call, ok := cc.Instr.(*ssa.Call); ok && k != "" {
				for _, o := range cc.outs {
					for i := 0; i < 2; i++ {
						if t := o.get(cc.Inst, call, i); t != nil && t.k != TConst {
							s.setTag(o, t, s.T.mk(TPure, "from:"+k, nil, nil, nil, 0, nil))
						}
					}
				}
			}
			return true
		}
		if f := cc.Com.StaticCallee(); f != nil && checksName(f) {
			k := givenAs(s, cc.St, cc.Args[0])
			cc.ErrFork(func(o *State) {
				if k != "" {
					setFlag(o, "valid:"+k, "1")
				}
			}, nil)
			return true
		}
		return stdCall(cc)
	}
	low := func(s *Sim, st *State) {
		for f, m := range mins {
			v := cur(s, st, c.leaf[f])
			if v == nil {
				continue
			}
			k := s.T.constVal(m, types.Typ[types.Int])
			one := s.T.constVal(constant.BinaryOp(m, token.SUB, constant.MakeInt64(1)), types.Typ[types.Int])
			if s.leq(st, k, v) {
				setFlag(st, "min:"+f, "1")
			} else if s.leq(st, v, one) {
				setFlag(st, "min:"+f, "0")
			}
		}
	}
	h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, t *Term, truth bool) bool {
		t, truth = cond(t, truth)
		if lk, ok := t.val.(*ssa.Lookup); ok && t.idx == 1 {
			if v := st.get(t.inst, lk, 0); v != nil {
				if k := givenAs(s, st, v); k != "" {
					setFlag(st, "seen:"+k, "1")
					if truth {
						setFlag(st, "given:"+k, "1")
					}
				}
			}
		}
		if t.k == TBin && t.op == "==" && (t.args[0].isNilConst() || t.args[1].isNilConst()) {
			v := t.args[0]
			if v.isNilConst() {
				v = t.args[1]
			}
			if k, ok := keyPath(v); ok && k != "" {
				setFlag(st, "seen:"+k, "1")
				if truth {
					setFlag(st, "given:"+k, "")
				} else if v.strip().k == TCall {
					setFlag(st, "given:"+k, "1")
				}
			}
		}
		if t.k == TPure && strings.HasPrefix(t.op, "is:") {
			if k, ok := keyPath(t.args[0]); ok {
				isMap := strings.HasPrefix(t.op, "is:map[")
				l := c.keys[k]
				switch {
				case isMap && truth:
					setFlag(st, "open:"+k, "1")
					setFlag(st, "given:"+k, "")
				case isMap:
					setFlag(st, "given:"+k, "")
				case !truth && l != nil && !basicKind(l.typ, types.Int):
					setFlag(st, "given:"+k, "")
				}
			}
		}
		if t.k == TPure && t.op == "errors.Is" && truth && strings.Contains(t.args[1].String(), "ErrRange") {
			if k := givenAs(s, st, t.args[0]); k != "" {
				setFlag(st, "range:"+k, "1")
			}
		}
		low(s, st)
		return true
	}
	h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
		if s.nilness(st, res[1]) == 1 {
			return
		}
		check(s, inst, ret, st)
		low(s, st)
		for f := range mins {
			r.ok(setMin, f+" "+p.instrPos(ret))
			if flagOf(st, "min:"+f) != "1" {
				s.violate(setMin, ret, inst, st, "settings may be accepted with "+f+" below its minimum")
			}
		}
		for _, k := range flagsWith(st, "given:") {
			k = k[len("given:"):]
			if c.keys[k] != nil {
				s.violate(setParsed, ret, inst, st, "a value given as "+k+" may be ignored")
			}
		}
		for _, l := range c.sorted() {
			i := strings.LastIndex(l.key, ".")
			parent := ""
			if i >= 0 {
				parent = l.key[:i]
			}
			if flagOf(st, "open:"+parent) != "" && flagOf(st, "seen:"+l.key) == "" {
				s.violate(setParsed, ret, inst, st, "settings may be accepted without looking whether "+l.key+" is given")
			}
		}
		v := res[0].unbox()
		if look(st); v.k == TStruct && conf != nil {
			n := structOf(v.typ)
			for i := 0; i < n.NumFields() && i < len(v.args); i++ {
				if l := c.leaf[n.Field(i).Name()]; l != nil && v.args[i] != nil && v.args[i] != st.mem[at(s, l.path)] && !c.isDefault(l, v.args[i]) {
					s.violate(setParsed, ret, inst, st, "the settings returned are not the ones parsed")
				}
			}
		}
	}
	s := newSim(p, h)
	s.Run(fn)
	r.take(s)
}

// checksName: tells whether a name stands for something
func checksName(f *ssa.Function) bool {
	sig := f.Signature
	return strings.HasPrefix(f.Name(), "Valid") && sig.Params().Len() == 1 && basicKind(sig.Params().At(0).Type(), types.String) && errResult(sig) == 1
}

func fieldNamed(v *Term, name string) *Term {
	if v.k == TStruct {
		n := structOf(v.typ)
		for i := 0; i < n.NumFields() && i < len(v.args); i++ {
			if n.Field(i).Name() == name {
				return v.args[i]
			}
		}
	}
	return nil
}

// update: what an update may not change
func (c *settings) update() {
	p, r := c.p, c.r
	fn := mustFn(p, r, setConst, "pkg/hnsw.ValidateUserConfigUpdate")
	if fn == nil {
		return
	}
	fixed := []string{"EFConstruction", "MaxConnections", "CleanupIntervalSeconds"}
	listed := map[string]bool{}
	size := int64(-1)
	side := func(t *Term) (string, string) {
		path, root := rootFieldPath(t)
		if root == nil || root.k != TParam {
			return "", ""
		}
		return root.String(), strings.Join(path, ".")
	}
	sc := &scan{name: "fixed", isList: func(s *Sim, st *State, t *Term) bool {
		el := t.typ
		if el == nil {
			return false
		}
		var e types.Type
		switch u := el.Underlying().(type) {
		case *types.Slice:
			e = u.Elem()
		case *types.Pointer:
			if a, ok := u.Elem().Underlying().(*types.Array); ok {
				e = a.Elem()
			}
		}
		if e == nil {
			return false
		}
		if t.k == TSlice {
			if a, ok := deref(t.args[0].typ).Underlying().(*types.Array); ok {
				size = a.Len()
			}
		}
		if _, ok := e.Underlying().(*types.Signature); ok {
			return true
		}
		n := structOf(e)
		for i := 0; n != nil && i < n.NumFields(); i++ {
			if _, ok := n.Field(i).Type().Underlying().(*types.Signature); ok {
				return true
			}
		}
		return false
	}}
	h := &Hooks{KeepLock: true}
	h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
	h.Inline = func(inst *Inst, f *ssa.Function) bool { return isPkg(rootFn(f), hnswPkg) }
	h.Load = func(s *Sim, inst *Inst, in *ssa.UnOp, st *State, loc, val *Term) { sc.load(s, st, loc) }
	h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
		if f := funcOf(val); f != nil {
			if n := readsField(f); n != "" {
				listed[n] = true
			}
		}
	}
	h.Call = func(cc *CallCtx) bool {
		s := cc.S
		if cc.Name == "dynamic" && cc.Fv != nil && len(cc.Args) == 1 {
			if funcOf(cc.Fv) != nil {
				return false
			}
			res := cc.FreshAll(cc.St)
			who, rest := side(cc.Args[0])
			if len(res) == 1 && who != "" && rest == "" {
				s.setTag(cc.St, res[0], s.T.mk(TPure, "acc:"+who, nil, nil, nil, 0, nil, cc.Fv.strip()))
			}
			cc.Out(cc.St, res...)
			return true
		}
		return stdCall(cc)
	}
	h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, t *Term, truth bool) bool {
		sc.refine(s, st, t, truth)
		t, truth = cond(t, truth)
		if t.k == TBin && t.op == "<" {
			if n, ok := t.args[1].int64(); ok && size > 0 && n >= size {
				setFlag(st, "fixed-all", map[bool]string{true: "", false: "1"}[truth])
			}
		}
		if t.k == TBin && t.op == "==" && truth {
			a, b := t.args[0].strip(), t.args[1].strip()
			ga, gb := s.tag(st, a), s.tag(st, b)
			if ga != nil && gb != nil && strings.HasPrefix(ga.op, "acc:") && strings.HasPrefix(gb.op, "acc:") && ga.op != gb.op && ga.args[0] == gb.args[0] {
				sc.done(st)
			}
			wa, fa := side(a)
			wb, fb := side(b)
			if wa != "" && wb != "" && wa != wb && fa == fb && fa != "" {
				setFlag(st, "same:"+fa, "1")
			}
		}
		return true
	}
	h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
		if s.nilness(st, res[0]) == 1 {
			return
		}
		why := sc.problem(s, st)
		for _, f := range fixed {
			r.ok(setConst, f+" "+p.instrPos(ret))
			if flagOf(st, "same:"+f) == "" && !(listed[f] && why == "") {
				s.violate(setConst, ret, inst, st, "an update that changes "+f+" may be accepted")
			}
		}
	}
	s := newSim(p, h)
	s.Run(fn)
	r.take(s)
}

func funcOf(t *Term) *ssa.Function {
	t = t.strip()
	if t.k == TFunc || t.k == TClosure {
		switch v := t.val.(type) {
		case *ssa.Function:
			return v
		case *ssa.MakeClosure:
			f, _ := v.Fn.(*ssa.Function)
			return f
		}
		if f, ok := t.obj.(*ssa.Function); ok {
			return f
		}
	}
	return nil
}

// readsField: the function returns this field of what it is given
func readsField(f *ssa.Function) string {
	if len(f.Blocks) != 1 || len(f.Params) != 1 {
		return ""
	}
	name := ""
	for _, in := range f.Blocks[0].Instrs {
		switch v := in.(type) {
		case *ssa.FieldAddr:
			name = fieldVar(v.X.Type(), v.Field).Name()
		case *ssa.Field:
			name = fieldVar(v.X.Type(), v.Field).Name()
		case *ssa.BinOp, *ssa.Call:
			return ""
		}
	}
	return name
}

// use: from settings to the parameters of the index
func (c *settings) use() {
	p, r := c.p, c.r
	// parameter of the index: setting, factor
	type src struct {
		field string
		k     int64
	}
	params := map[string]src{
		"maximumConnections": {"MaxConnections", 1}, "maximumConnectionsLayerZero": {"MaxConnections", 2},
		"efConstruction": {"EFConstruction", 1}, "flatSearchCutoff": {"FlatSearchCutoff", 1},
		"ef": {"EF", 1}, "efMin": {"DynamicEFMin", 1}, "efMax": {"DynamicEFMax", 1}, "efFactor": {"DynamicEFFactor", 1},
		"cleanupInterval": {"CleanupIntervalSeconds", 1000000000},
	}
	changeable := []string{"ef", "efMin", "efMax", "efFactor", "flatSearchCutoff"}
	is := func(v *Term, want src) bool {
		l := linear(v)
		if l.c != 0 || len(l.m) != 1 {
			return false
		}
		for t, n := range l.m {
			path, _ := rootFieldPath(t.strip())
			if n != want.k || len(path) == 0 || path[len(path)-1] != want.field {
				return false
			}
		}
		return true
	}
	put := func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
		if loc.k != TFieldAddr || typeName(loc.args[0].typ) != indexType {
			return
		}
		want, ok := params[loc.op]
		if !ok {
			return
		}
		r.ok(setUse, loc.op+" "+p.instrPos(in))
		if !is(val, want) {
			s.violate(setUse, in, inst, st, loc.op+" is not made from "+want.field)
		}
		setFlag(st, "put:"+loc.op, "1")
	}
	inline := func(inst *Inst, f *ssa.Function) bool {
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if typeName(f.Signature.Results().At(i).Type()) == indexType {
				return true
			}
		}
		for _, g := range p.reach(f) {
			if g == f && isPkg(g, hnswPkg) && setsParam(g) {
				return true
			}
		}
		return f.Parent() != nil || f.Signature.Results().Len() == 1 && isNumber(f.Signature.Results().At(0).Type()) && !hasLoop(f) && isPkg(f, hnswPkg)
	}
	run := func(name string, done []string) {
		fn := mustFn(p, r, setUse, name)
		if fn == nil {
			return
		}
		h := &Hooks{KeepLock: true, Inline: inline, Store: put}
		h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
		h.GoBody = func(s *Sim, parent, child *Inst, g *ssa.Go, st *State) (bool, bool) { return true, true }
		h.Call = func(cc *CallCtx) bool {
			s, st := cc.S, cc.St
			f := cc.Com.StaticCallee()
			switch {
			case strings.HasPrefix(cc.Name, "sync/atomic.StoreInt"):
				put(s, cc.Inst, cc.Instr, st, cc.Args[0], cc.Args[1])
				cc.Out(st)
				return true
			case strings.HasSuffix(cc.Name, ".updateMaxSize"):
				r.ok(setUse, "cache "+p.instrPos(cc.Instr))
				if !is(cc.Args[1], src{"VectorCacheMaxObjects", 1}) {
					s.violate(setUse, cc.Instr, cc.Inst, st, "the size of a cache is not made from VectorCacheMaxObjects")
				}
				setFlag(st, "put:cache", "1")
				return false
			case f != nil && isPkg(f, hnswPkg) && makesCache(f):
				for i, q := range f.Params {
					if basicKind(q.Type(), types.Int) {
						r.ok(setUse, "cache "+p.instrPos(cc.Instr))
						if !is(cc.Args[i], src{"VectorCacheMaxObjects", 1}) {
							s.violate(setUse, cc.Instr, cc.Inst, st, "the size of a cache is not made from VectorCacheMaxObjects")
						}
					}
				}
				return false
			case f != nil && f.Name() == "Compress" && recvIs(f, indexType):
				r.ok(setUse, "compression "+p.instrPos(cc.Instr))
				for i, n := range []string{"Segments", "Centroids", "BitCompression", "Type", "Distribution"} {
					if i+1 >= len(cc.Args) {
						break
					}
					path, root := rootFieldPath(cc.Args[i+1])
					got := ""
					if len(path) > 0 {
						got = path[len(path)-1]
					}
					if root != nil {
						if g := s.tag(st, root); g != nil && strings.HasPrefix(g.op, "named:") {
							got = g.op[6:]
						}
					}
					if got != n {
						s.violate(setUse, cc.Instr, cc.Inst, st, "what is given to the compression as "+n+" is not made from that setting")
					}
				}
			case f != nil && checksName(f):
				path, _ := rootFieldPath(cc.Args[0])
				cc.ErrFork(nil, nil)
				if call, ok := cc.Instr.(*ssa.Call); ok && len(path) > 0 {
					for _, o := range cc.outs {
						if t := o.get(cc.Inst, call, 0); t != nil {
							s.setTag(o, t, s.T.mk(TPure, "named:"+path[len(path)-1], nil, nil, nil, 0, nil))
						}
					}
				}
				return true
			}
			if stdCall(cc) {
				return true
			}
			if extErr(cc) {
				forkErr(cc, nil, nil)
				return true
			}
			return false
		}
		h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
			if s.nilness(st, res[len(res)-1]) == 1 {
				return
			}
			for _, d := range done {
				if flagOf(st, "put:"+d) == "" {
					s.violate(setUse, ret, inst, st, "the "+d+" of the index may not get its setting")
				}
			}
		}
		s := newSim(p, h)
		s.Run(fn)
		r.take(s)
	}
	var all []string
	for k := range params {
		all = append(all, k)
	}
	sort.Strings(all)
	run("pkg/hnsw.New", all)
	run("pkg/hnsw.(*hnsw).UpdateUserConfig", append(changeable, "cache"))
}

func isNumber(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func setsParam(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && strings.HasPrefix(calleeName(ci.Common()), "sync/atomic.StoreInt") {
				if fa, ok := ci.Common().Args[0].(*ssa.FieldAddr); ok && typeName(fa.X.Type()) == indexType {
					return true
				}
			}
		}
	}
	return false
}

func makesCache(f *ssa.Function) bool {
	res := f.Signature.Results()
	return res.Len() == 1 && strings.Contains(strings.ToLower(typeName(res.At(0).Type())), "cache") && f.Signature.Recv() == nil
}

func zeroConst(v constant.Value) bool {
	switch v.Kind() {
	case constant.Bool:
		return !constant.BoolVal(v)
	case constant.String:
		return constant.StringVal(v) == ""
	}
	return constant.Sign(v) == 0
}

// orSame: numbers as numbers, everything else as text
func orSame(v constant.Value) constant.Value {
	switch v.Kind() {
	case constant.Bool, constant.String:
		return constant.MakeInt64(int64(hashStr(v.ExactString())))
	}
	return v
}

func hashStr(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return h
}
