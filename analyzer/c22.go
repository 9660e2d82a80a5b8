package main

import (
	"fmt"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const handlersPkg = modPath + "/adapters/handlers"

// the documented settings and what they configure
var envFields = map[string]string{
	"VERBOSE": "Verbose", "BEE_API": "BeeAPI", "RPC_API": "RPCEndpoint", "STAMP_ID": "StampId",
	"VECTORIZER_URL": "GloveLevelDBUrl", "USER": "Username", "PASSWORD": "Password", "POD": "Pod",
}

var envDefaults = map[string]*regexp.Regexp{
	"BeeAPI":  regexp.MustCompile(`^https?://`),
	"StampId": regexp.MustCompile(`^[0-9a-f]{64}$`),
}

func init() {
	register("C22", func(p *Prog, r *Report) {
		r.explain = "value-flow analysis of the start of the server: which environment variable each configuration field takes its value from and under which condition, and the configuration value every component is given"
		c22Start(p, r)
		c22Client(p, r)
	})
}

// tableField: a value read from a field of an element of a list
func tableField(t *Term) (base, idx *Term, f string) {
	t = t.strip()
	switch {
	case t.k == TLoad && t.args[0].k == TFieldAddr && t.args[0].args[0].k == TIndexAddr:
		base, idx, f = t.args[0].args[0].args[0], t.args[0].args[0].args[1], t.args[0].op
	case t.k == TField && t.args[0].k == TLoad && t.args[0].args[0].k == TIndexAddr:
		base, idx, f = t.args[0].args[0].args[0], t.args[0].args[0].args[1], t.op
	}
	for base != nil && base.k == TSlice {
		base = base.args[0]
	}
	return
}

// tablePairs: constant names and the fields they are paired with in a table
func tablePairs(s *Sim, st *State, name, dst *Term) (out [][2]*Term, ok bool) {
	b1, i1, f1 := tableField(name)
	b2, i2, f2 := tableField(dst)
	if b1 == nil || b1 != b2 || i1 != i2 {
		return nil, false
	}
	elems := map[int64]*[2]*Term{}
	for l, v := range st.mem {
		if l.k != TFieldAddr || l.args[0].k != TIndexAddr || l.args[0].args[0] != b1 {
			continue
		}
		k, isC := l.args[0].args[1].int64()
		if !isC {
			return nil, false
		}
		if elems[k] == nil {
			elems[k] = &[2]*Term{}
		}
		if l.op == f1 {
			elems[k][0] = v
		}
		if l.op == f2 {
			elems[k][1] = v
		}
	}
	for l, v := range st.mem {
		if l.k != TIndexAddr || l.args[0] != b1 || v.k != TStruct {
			continue
		}
		k, isC := l.args[1].int64()
		sty := structOf(v.typ)
		if !isC || sty == nil {
			return nil, false
		}
		e := &[2]*Term{}
		for i := 0; i < sty.NumFields() && i < len(v.args); i++ {
			if sty.Field(i).Name() == f1 {
				e[0] = v.args[i]
			}
			if sty.Field(i).Name() == f2 {
				e[1] = v.args[i]
			}
		}
		elems[k] = e
	}
	for _, e := range elems {
		if e[0] == nil || e[1] == nil {
			return nil, false
		}
		out = append(out, *e)
	}
	return out, len(out) > 0
}

func c22Start(p *Prog, r *Report) {
	const env, def, use = "env-field", "defaults", "reaches-component"
	r.rule(env, "each documented variable is read and, when it is set, stored in its own configuration field, and nothing else is stored there")
	r.rule(def, "a default is stored only in a field known to be empty, and every field with a default got it before it is used")
	r.rule(use, "each configuration value is what the component it is meant for is given, after the environment was read")
	r.need(env, 8)
	r.need(def, 2)
	r.need(use, 8)
	fn := mustFn(p, r, env, "adapters/handlers.NewHandler")
	if fn == nil {
		return
	}
	isCfg := func(loc *Term) bool {
		return loc.k == TFieldAddr && loc.args[0].typ != nil && typeName(loc.args[0].typ) == handlersPkg+".HandlerConfig"
	}
	var cfg *Term
	seen := map[string]bool{}
	tables := map[*Term][][2]*Term{}
	envName := func(t *Term) (string, bool) {
		t = t.strip()
		if t.k == TPure && t.op == "env" {
			return t.args[0].str()
		}
		return "", false
	}
	h := &Hooks{}
	h.Init = func(s *Sim, st *State, root *Inst) {
		st.A = sig{}
		for _, q := range fn.Params {
			if typeName(q.Type()) == handlersPkg+".HandlerConfig" {
				cfg = st.get(root, q, -1)
			}
		}
	}
	h.Inline = func(inst *Inst, f *ssa.Function) bool { return f.Pkg != nil && f.Pkg.Pkg.Path() == handlersPkg }
	cur := func(s *Sim, st *State, f string) *Term {
		sty := structOf(cfg.typ)
		for i := 0; i < sty.NumFields(); i++ {
			if sty.Field(i).Name() == f {
				a := s.fieldAddr(cfg, sty.Field(i), i)
				if v, ok := st.mem[a]; ok {
					return v
				}
				return s.T.mk(TLoad, "", nil, nil, nil, 0, sty.Field(i).Type(), a)
			}
		}
		return nil
	}
	same := func(s *Sim, st *State, v *Term, f string) bool {
		c := cur(s, st, f)
		if v == nil || c == nil {
			return false
		}
		v, c = v.strip(), c.strip()
		if v == c {
			return true
		}
		// both unread so far
		pa, ra := rootFieldPath(v)
		return v.k == TLoad && c.k == TLoad && ra == cfg && len(pa) == 1 && pa[0] == f
	}
	settle := func(s *Sim, in ssa.Instruction, inst *Inst, st *State) {
		if n := flagOf(st, "pending"); n != "" {
			s.violate(env, in, inst, st, n+" is set but may not reach its configuration field")
			setFlag(st, "pending", "")
		}
	}
	h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, c *Term, truth bool) bool {
		subterms(c, map[*Term]bool{}, func(t *Term) {
			if t.k == TPure && t.op == "env" {
				n, ok := t.args[0].str()
				if !ok {
					n = "?"
				}
				if n == "VERBOSE" {
					cc, tr := cond(c, truth)
					if cc.k == TBin && cc.op == "==" && tr {
						for _, a := range cc.args {
							if v, ok := a.str(); ok && v != "" {
								setFlag(st, "verbose", v)
							}
						}
					}
				} else if s.nonEmpty(st, t) && flagOf(st, "pending") != n && (envFields[n] == "" || cur(s, st, envFields[n]) != t) {
					settle(s, in, inst, st)
					setFlag(st, "pending", n)
				}
			}
			for f := range envDefaults {
				if same(s, st, t, f) && s.nonEmpty(st, t) {
					setFlag(st, "def:"+f, "1")
				}
			}
		})
		return true
	}
	onUse := func(c *CallCtx, f string, v *Term) {
		s, st := c.S, c.St
		r.ok(use, f+" "+p.instrPos(c.Instr))
		if !same(s, st, v, f) {
			s.violate(use, c.Instr, c.Inst, st, "the value given to "+shortName(c.Name)+" is not the configured "+f)
		}
		for n, g := range envFields {
			if g == f && flagOf(st, "env:"+n) == "" && !seen["table:"+n] {
				s.violate(use, c.Instr, c.Inst, st, f+" is used before "+n+" was read")
			}
		}
		if envDefaults[f] != nil {
			r.ok(def, f+" "+p.instrPos(c.Instr))
			if flagOf(st, "def:"+f) == "" {
				s.violate(def, c.Instr, c.Inst, st, f+" may be used without a value and without its default")
			}
		}
		if f == "Verbose" {
			if on := map[string]bool{"on": true, "enabled": true, "1": true, "true": true}[flagOf(st, "verbose")]; on {
				seen["verbose:"+flagOf(st, "verbose")] = true
				if b, ok := cur(s, st, f).boolVal(); !ok || !b {
					s.violate(env, c.Instr, c.Inst, st, "VERBOSE is set but may not reach its configuration field")
				}
			}
		}
	}
	field := func(s *Sim, st *State, t *Term, f string) *Term {
		t = t.strip()
		if t.k == TStruct {
			sty := structOf(t.typ)
			for i := 0; i < sty.NumFields(); i++ {
				if sty.Field(i).Name() == f {
					return s.fieldOf(st, t, sty.Field(i), i)
				}
			}
		}
		for l, v := range st.mem {
			if l.k == TFieldAddr && l.op == f && l.args[0] == t {
				return v
			}
		}
		return nil
	}
	h.Call = func(c *CallCtx) bool {
		s, st := c.S, c.St
		switch {
		case c.Name == "os.Getenv" || c.Name == "os.LookupEnv":
			settle(s, c.Instr, c.Inst, st)
			if n, ok := c.Args[0].strip().str(); ok {
				setFlag(st, "env:"+n, "1")
				if _, known := envFields[n]; !known {
					// read for something else
					r.ok(env, "other variable "+n)
				}
			} else if b, _, f := tableField(c.Args[0]); b != nil {
				for l, v := range st.mem {
					if n, ok := v.strip().str(); ok && l.k == TFieldAddr && l.op == f && l.args[0].k == TIndexAddr && l.args[0].args[0] == b {
						seen["table:"+n] = true
					}
				}
			}
			v := s.T.mk(TPure, "env", nil, nil, nil, 0, c.Com.Signature().Results().At(0).Type(), c.Args[0].strip())
			if c.Name == "os.Getenv" {
				c.Out(st, v)
			} else {
				rs := c.FreshAll(st)
				c.Out(st, v, rs[1])
			}
			return true
		case strings.HasSuffix(c.Name, "dfs.NewDfsAPI"):
			settle(s, c.Instr, c.Inst, st)
			seen["dfs"] = true
			for _, a := range c.Args {
				if a.typ == nil || !strings.HasSuffix(typeName(a.typ), "dfs.Options") {
					continue
				}
				onUse(c, "BeeAPI", field(s, st, a, "BeeApiEndpoint"))
				onUse(c, "StampId", field(s, st, a, "Stamp"))
				var pb *Term
				if e := field(s, st, a, "EnsConfig"); e != nil {
					pb = field(s, st, e, "ProviderBackend")
				}
				onUse(c, "RPCEndpoint", pb)
			}
		case c.Name == docPkg+".New":
			settle(s, c.Instr, c.Inst, st)
			seen["doc"] = true
			onUse(c, "Verbose", field(s, st, c.Args[0], "Verbose"))
			onUse(c, "GloveLevelDBUrl", field(s, st, c.Args[0], "VectorizerUrl"))
		case c.Name == "("+docPkg+".Client).Login":
			settle(s, c.Instr, c.Inst, st)
			seen["login"] = true
			onUse(c, "Username", c.Args[1])
			onUse(c, "Password", c.Args[2])
		case c.Name == "("+docPkg+".Client).OpenPod":
			settle(s, c.Instr, c.Inst, st)
			seen["pod"] = true
			onUse(c, "Pod", c.Args[1])
		}
		if stdCall(c) {
			return true
		}
		if extErr(c) {
			// the components do not change the configuration they are handed by value
			keep := map[*Term]*Term{}
			for l, v := range st.mem {
				if isCfg(l) {
					keep[l] = v
				}
			}
			forkErr(c, nil, nil)
			for _, o := range c.outs {
				for l, v := range keep {
					o.mem[l] = v
				}
			}
			return true
		}
		return false
	}
	h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
		val = val.strip()
		if val.k == TPure && val.op == "env" && !isCfg(loc) {
			// through a pointer: a table of names and fields
			pairs, ok := tablePairs(s, st, val.args[0], loc)
			base, _, _ := tableField(val.args[0])
			if old := tables[base]; base != nil && old != nil {
				// the literal does not change, but the store may hide that
				pairs, ok = old, true
			}
			if ok {
				tables[base] = pairs
				for _, q := range pairs {
					n, isC := q[0].strip().str()
					want, known := envFields[n]
					r.ok(env, fmt.Sprintf("%s table %s", n, p.instrPos(in)))
					if !isC || !isCfg(q[1]) || known && q[1].op != want || !known {
						s.violate(env, in, inst, st, n+" is stored in the field of another setting")
						continue
					}
				}
				if !s.nonEmpty(st, val) {
					s.violate(env, in, inst, st, "a variable that is not set overwrites a configured value")
				}
				setFlag(st, "pending", "")
				// the fields behind the pointers change
				for _, q := range pairs {
					if isCfg(q[1]) {
						delete(st.mem, q[1])
					}
				}
			}
			return
		}
		if !isCfg(loc) {
			return
		}
		f := loc.op
		if n, ok := envName(val); ok {
			r.ok(env, n+" "+p.instrPos(in))
			if envFields[n] != f {
				s.violate(env, in, inst, st, n+" is stored in "+f)
			}
			if !s.nonEmpty(st, val) {
				s.violate(env, in, inst, st, f+" is overwritten although "+n+" is not set")
			}
			if flagOf(st, "pending") == n {
				setFlag(st, "pending", "")
			}
			if envDefaults[f] != nil {
				setFlag(st, "def:"+f, "1")
			}
			return
		}
		if val == cur(s, st, f) {
			return
		}
		if f == "Verbose" {
			r.ok(env, "VERBOSE "+p.instrPos(in))
			b, isC := val.boolVal()
			on := map[string]bool{"on": true, "enabled": true, "1": true, "true": true}[flagOf(st, "verbose")]
			if !isC || !b || !on {
				s.violate(env, in, inst, st, "Verbose is changed by something else than VERBOSE being switched on")
			}
			return
		}
		// a default
		r.ok(def, f+" "+p.instrPos(in))
		emp := s.T.bin(tokEQL, cur(s, st, f), s.T.constVal(constantString(""), nil), nil)
		str, ok := val.str()
		if !ok && val.k == TLoad && val.args[0].k == TGlobal {
			str, ok = p.globalString(val.args[0])
		}
		re := envDefaults[f]
		if re == nil || !ok || !re.MatchString(str) {
			s.violate(def, in, inst, st, f+" is set to something that is neither its variable nor its default")
		} else if s.truth(st, emp) != 1 {
			s.violate(def, in, inst, st, "a default may overwrite a configured "+f)
		}
		setFlag(st, "def:"+f, "1")
	}
	s := newSim(p, h)
	s.Run(fn)
	r.take(s)
	for _, v := range []string{"on", "enabled", "1", "true"} {
		r.ok(env, "VERBOSE="+v)
		if !seen["verbose:"+v] {
			r.failf(env, p.pos(fn.Pos()), shortFn(fn), "VERBOSE=%s does not switch on Verbose", v)
		}
	}
	for _, k := range []string{"dfs", "doc", "login", "pod"} {
		if !seen[k] {
			r.anchor(use, "the component "+k+" of NewHandler")
		}
	}
}

func c22Client(p *Prog, r *Report) {
	const use = "reaches-component"
	fn := mustFn(p, r, use, "pkg/document.New")
	if fn == nil {
		return
	}
	restNew := modPath + "/pkg/vectorizer/rest.NewVectorizer"
	h := &Hooks{}
	h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
	h.Inline = func(inst *Inst, f *ssa.Function) bool { return f.Pkg != nil && f.Pkg.Pkg.Path() == docPkg }
	isURL := func(t *Term) bool {
		path, root := rootFieldPath(t)
		return root != nil && root.k == TParam && len(path) == 1 && path[0] == "VectorizerUrl"
	}
	h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, c *Term, truth bool) bool {
		subterms(c, map[*Term]bool{}, func(t *Term) {
			if isURL(t) {
				if s.nonEmpty(st, t) {
					setFlag(st, "url", "1")
				} else {
					setFlag(st, "url", "0")
				}
			}
		})
		return true
	}
	h.Call = func(c *CallCtx) bool {
		if c.Name == restNew {
			r.ok(use, "vectorizer "+p.instrPos(c.Instr))
			if !isURL(c.Args[0]) {
				c.S.violate(use, c.Instr, c.Inst, c.St, "the vectorizer is created with another address than the configured one")
			}
			call, _ := c.Instr.(*ssa.Call)
			forkErr(c, nil, nil)
			for _, o := range c.outs {
				if t := o.get(c.Inst, call, 0); t != nil {
					c.S.setTag(o, t, c.S.T.mk(TPure, "vectorizer", nil, nil, nil, 0, nil))
				}
			}
			return true
		}
		if stdCall(c) {
			return true
		}
		if extErr(c) {
			forkErr(c, nil, nil)
			return true
		}
		return false
	}
	h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
		if loc.k == TFieldAddr && loc.op == "lookup" {
			if g := s.tag(st, val.unbox()); g != nil && g.op == "vectorizer" {
				setFlag(st, "lookup", "1")
			}
		}
	}
	h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
		if s.nilness(st, res[1]) == 1 {
			return
		}
		r.ok(use, "client "+p.instrPos(ret))
		if flagOf(st, "lookup") == "" && flagOf(st, "url") != "0" {
			s.violate(use, ret, inst, st, "a client may be created without the configured vectorizer")
		}
	}
	s := newSim(p, h)
	s.Run(fn)
	r.take(s)
	// the address is what requests go to
	v := mustFn(p, r, use, "pkg/vectorizer/rest.NewVectorizer")
	if v == nil {
		return
	}
	h = &Hooks{}
	h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
	h.Call = func(c *CallCtx) bool {
		if stdCall(c) {
			return true
		}
		if extErr(c) {
			forkErr(c, nil, nil)
			return true
		}
		return false
	}
	h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
		if s.nilness(st, res[1]) == 1 {
			return
		}
		r.ok(use, "vectorizer address "+p.instrPos(ret))
		ok := false
		for l, x := range st.mem {
			if l.k == TFieldAddr && l.op == "url" && l.args[0] == res[0].strip() && isParamOf(x.strip(), inst) {
				ok = true
			}
		}
		if !ok {
			s.violate(use, ret, inst, st, "the vectorizer does not keep the address it was given")
		}
	}
	s = newSim(p, h)
	s.Run(v)
	r.take(s)
}
