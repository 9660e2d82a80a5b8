package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	cfRemove = "removed-when-replaced"
	cfRename = "named-when-complete"
	cfOpen   = "never-emptied"
	cfLeft   = "leftovers-left-out"
	cfPick   = "log-in-use-left-alone"
	cond16   = ".condensed"
)

func init() {
	register("C16", func(p *Prog, r *Report) {
		r.explain = "typestate of the files commit-log maintenance reads, writes, renames and removes, followed on every path and through every failing file operation; membership of the names in the lists it works on"
		r.rule(cfRemove, "a log is removed only after what replaces it was written out and closed without error (a condensed log made from all of it, or a combined log that got its name), or when it is a leftover: a temporary file, or a condensed log whose original is there")
		r.rule(cfRename, "a file gets the name of a log only after both logs were copied into it completely, in order, and it was closed without error")
		r.rule(cfOpen, "no file operation of the commit logs empties a log: only condensed and temporary files are opened from scratch, others for appending")
		r.rule(cfLeft, "temporary files are never listed as logs, and a condensed log whose original is there is neither listed by the fixer nor combined")
		r.rule(cfPick, "the log in use, which is the newest, is never condensed, nor is a condensed log, and logs are listed from the oldest to the newest")
		r.need(cfRemove, 3)
		r.need(cfRename, 1)
		r.need(cfOpen, 3)
		r.need(cfLeft, 3)
		r.need(cfPick, 3)
		c := &logFiles{p: p, r: r, member: map[*ssa.Function]int{}}
		c.files()
		c.leftovers()
		c.pick()
	})
}

type logFiles struct {
	p      *Prog
	r      *Report
	member map[*ssa.Function]int
	tmp    map[string]bool // suffixes of temporary files
}

// lists: gives the names of the logs
func (c *logFiles) lists(f *ssa.Function) bool {
	if f == nil || !isPkg(f, hnswPkg) || f.Signature.Recv() != nil || f.Parent() != nil {
		return false
	}
	res := f.Signature.Results()
	if res.Len() != 2 || !isErr(res.At(1).Type()) || f.Signature.Params().Len() == 0 {
		return false
	}
	sl, ok := res.At(0).Type().Underlying().(*types.Slice)
	if !ok || !isString(sl.Elem()) {
		return false
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if !isString(f.Signature.Params().At(i).Type()) {
			return false
		}
	}
	for _, g := range c.p.reach(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && strings.HasSuffix(calleeName(ci.Common()), "os.ReadDir") {
					return true
				}
			}
		}
	}
	return false
}

var fileOps = map[string]bool{"os.Remove": true, "os.RemoveAll": true, "os.Rename": true, "os.Create": true, "os.OpenFile": true, "os.Truncate": true, "os.WriteFile": true, "(os.File).Truncate": true, "(*os.File).Truncate": true,
	"io/ioutil.WriteFile": true, "os.CreateTemp": false}

// roots: where the functions with file operations are entered
func (c *logFiles) roots() []*ssa.Function {
	p := c.p
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var climb func(f *ssa.Function, depth int)
	climb = func(f *ssa.Function, depth int) {
		f = rootFn(f)
		if seen[f] {
			return
		}
		seen[f] = true
		cs := p.callSites(f)
		if len(cs) == 0 && f.Object() != nil && !f.Object().Exported() && !mentioned(p, f) {
			return // never used
		}
		if depth == 0 || len(cs) == 0 || c.lists(f) || f.Object() != nil && f.Object().Exported() && f.Signature.Recv() != nil && len(f.Params) < 4 {
			out = append(out, f)
			return
		}
		for _, x := range cs {
			climb(x.Parent(), depth-1)
		}
	}
	for _, f := range p.funcs {
		if !isPkg(f, hnswPkg) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && fileOps[strings.Replace(calleeName(ci.Common()), "(*", "(", 1)] {
					climb(f, 5)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// mentioned: used as a value
func mentioned(p *Prog, f *ssa.Function) bool {
	for _, g := range p.funcs {
		if g.Synthetic != "" {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if *o == nil {
						continue
					}
					x, ok := (*o).(*ssa.Function)
					if ok && (x == f || x.Object() != nil && x.Object() == f.Object()) {
						return true
					}
				}
			}
		}
	}
	return false
}

// nameOf: what a file is called, and the end of its name when that is known
func (c *logFiles) nameOf(s *Sim, st *State, t *Term) (base, suffix string) {
	t = t.unbox()
	ps := c.parts(s, st, t)
	if n := len(ps); n > 0 && ps[n-1].t == nil {
		suffix = ps[n-1].s
		ps = ps[:n-1]
	}
	for i, x := range ps {
		if x.t == nil {
			base += "/" + x.s
			continue
		}
		if of, k := trimmed(x.t); of != nil {
			base += "/trim(" + locID(of) + "," + k + ")"
			continue
		}
		if i == len(ps)-1 && suffix == "" {
			if k := c.endsIn(s, st, x.t, 1); len(k) > 0 {
				base += "/trim(" + locID(x.t) + "," + k[0] + ")"
				suffix = k[0]
				continue
			}
		}
		base += "/" + locID(x.t)
	}
	return base, suffix
}

func (c *logFiles) key(s *Sim, st *State, t *Term) string {
	b, x := c.nameOf(s, st, t)
	return b + "+" + x
}

func (c *logFiles) parts(s *Sim, st *State, t *Term) []spart {
	t = t.unbox()
	if t.k == TPure && (t.op == "path/filepath.Join" || t.op == "path.Join") {
		var out []spart
		for _, a := range t.args {
			out = append(out, c.parts(s, st, a)...)
		}
		return out
	}
	ps := concat(t)
	if len(ps) == 1 && ps[0].t != nil && ps[0].t != t && ps[0].t.k == TPure && strings.HasSuffix(ps[0].t.op, ".Join") {
		return c.parts(s, st, ps[0].t)
	}
	return ps
}

// endsIn: the ends a name is known to have (1) or known not to have (-1)
func (c *logFiles) endsIn(s *Sim, st *State, x *Term, truth int8) []string {
	var out []string
	for t, f := range st.facts {
		if t.k == TPure && f.truth == truth && locID(t.args[0]) == locID(x) {
			switch t.op {
			case "strings.HasSuffix":
				if k, ok := t.args[1].str(); ok {
					out = append(out, k)
				}
			case "ext":
				if k, ok := t.args[1].str(); ok {
					out = append(out, k)
				}
			}
		}
	}
	sort.Strings(out)
	return out
}

// trimmed: a name without its end
func trimmed(x *Term) (*Term, string) {
	if x.k == TPure && x.op == "strings.TrimSuffix" {
		if k, ok := x.args[1].str(); ok {
			return x.args[0], k
		}
	}
	if x.k == TSlice && x.args[1] == nil && x.args[2] != nil && isString(x.typ) {
		l := linear(x.args[2])
		if l.c == -int64(len(cond16)) && len(l.m) == 1 {
			for t, n := range l.m {
				if t.k == TLen && n == 1 && locID(t.args[0]) == locID(x.args[0]) {
					return x.args[0], cond16
				}
			}
		}
	}
	return nil, ""
}

// locID: the same for every look at one element of a list
func locID(t *Term) string {
	t = t.unbox()
	if t.k == TLoad && t.args[0].k == TIndexAddr {
		return "*" + strconv.Itoa(t.args[0].id)
	}
	if t.k == TPure && t.op == "name" {
		return "name(" + locID(t.args[0]) + ")"
	}
	return strconv.Itoa(t.id)
}

// isMember: tells whether a name is in a list
func (c *logFiles) isMember(f *ssa.Function) bool {
	if f == nil || !isPkg(f, hnswPkg) || len(f.Blocks) == 0 || f.Parent() != nil {
		return false
	}
	if k, ok := c.member[f]; ok {
		return k == 1
	}
	c.member[f] = 0
	list, item := memberParams(f)
	res := f.Signature.Results()
	if list == nil || item == nil || res.Len() != 1 || !isBool(res.At(0).Type()) {
		return false
	}
	ok, ends := true, 0
	var lt, it *Term
	sc := &scan{name: "all", isList: func(s *Sim, st *State, t *Term) bool { return t == lt }}
	h := &Hooks{KeepLock: true}
	h.Init = func(s *Sim, st *State, root *Inst) {
		st.A = sig{}
		lt, it = st.get(root, list, -1), st.get(root, item, -1)
	}
	h.Load = func(s *Sim, inst *Inst, in *ssa.UnOp, st *State, loc, val *Term) { sc.load(s, st, loc) }
	h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, t *Term, truth bool) bool {
		sc.refine(s, st, t, truth)
		t, truth = cond(t, truth)
		if t.k == TBin && t.op == "==" && (t.args[0] == it || t.args[1] == it) {
			x := t.args[0]
			if x == it {
				x = t.args[1]
			}
			if l, _ := elemOf(x); l == lt {
				if truth {
					setFlag(st, "found", "1")
				} else {
					sc.done(st)
				}
			}
		}
		return true
	}
	h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
		ends++
		switch s.truth(st, res[0]) {
		case 1:
			ok = ok && flagOf(st, "found") == "1"
		case -1:
			ok = ok && flagOf(st, "found") == "" && sc.problem(s, st) == ""
		default:
			ok = false
		}
	}
	s := newSim(c.p, h)
	s.Run(f)
	if ok && ends > 1 {
		c.member[f] = 1
	}
	return c.member[f] == 1
}

func memberParams(f *ssa.Function) (list, item *ssa.Parameter) {
	for _, q := range f.Params {
		if isString(q.Type()) {
			if item != nil {
				return nil, nil
			}
			item = q
		}
		if sl, ok := q.Type().Underlying().(*types.Slice); ok && isString(sl.Elem()) {
			if list != nil {
				return nil, nil
			}
			list = q
		}
	}
	return
}

// common: what the analyses of this property have in common
func (c *logFiles) common(cc *CallCtx) bool {
	s, st := cc.S, cc.St
	call, _ := cc.Instr.(*ssa.Call)
	f := cc.Com.StaticCallee()
	switch {
	case strings.HasSuffix(cc.Name, "DirEntry.Name") || strings.HasSuffix(cc.Name, "FileInfo.Name"):
		cc.Out(st, s.T.mk(TPure, "name", nil, nil, nil, 0, types.Typ[types.String], cc.Args[0]))
		return true
	case cc.Name == "path/filepath.Ext" || cc.Name == "path.Ext":
		cc.Out(st, s.T.mk(TPure, "Ext", nil, nil, nil, 0, types.Typ[types.String], cc.Args[0]))
		return true
	case strings.HasPrefix(cc.Name, "slices.Contains") && len(cc.Args) == 2:
		cc.Out(st, s.T.mk(TPure, "member", nil, nil, nil, 0, types.Typ[types.Bool], cc.Args[0], cc.Args[1]))
		return true
	case f != s.root.fn && c.isMember(f):
		list, item := memberParams(f)
		var l, x *Term
		for i, q := range f.Params {
			if q == list {
				l = cc.Args[i]
			}
			if q == item {
				x = cc.Args[i]
			}
		}
		cc.Out(st, s.T.mk(TPure, "member", nil, nil, nil, 0, types.Typ[types.Bool], l, x))
		return true
	case f != s.root.fn && c.lists(f):
		forkErr(cc, nil, nil)
		for _, o := range cc.outs {
			if t := o.get(cc.Inst, call, 0); t != nil {
				s.setTag(o, t, s.T.mk(TPure, "names", nil, nil, nil, 0, nil))
			}
		}
		return true
	case strings.HasPrefix(cc.Name, "sort.") || strings.HasPrefix(cc.Name, "slices.Sort"):
		cc.Out(st, cc.FreshAll(st)...)
		return true
	}
	return false
}

func (c *logFiles) inline(inst *Inst, f *ssa.Function) bool {
	return isPkg(rootFn(f), hnswPkg) && !recvIs(f, hnswPkg+".bufWriter") && f.Name() != "NewWriterSize" && f.Name() != "NewWriter" && !strings.HasSuffix(f.String(), "Deserializer).Do") && !recvIs(f, hnswPkg+".hnsw") && !c.lists(f)
}

const fileTag, bufTag = "file:", "buf:"

func fileOf(s *Sim, st *State, t *Term) (string, bool) {
	if t == nil {
		return "", false
	}
	for _, x := range []*Term{t, t.unbox(), t.strip(), t.unbox().strip()} {
		if g := s.tag(st, x); g != nil {
			if strings.HasPrefix(g.op, fileTag) {
				return g.op[len(fileTag):], false
			}
			if strings.HasPrefix(g.op, bufTag) {
				return g.op[len(bufTag):], true
			}
		}
	}
	return "", false
}

// files: the typestate of every file
func (c *logFiles) files() {
	p, r := c.p, c.r
	c.tmp = map[string]bool{}
	roots := c.roots()
	if len(roots) == 0 {
		r.anchor(cfRemove, "file operations of the commit logs")
	}
	for _, fn := range roots {
		h := &Hooks{KeepLock: true}
		h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
		h.Inline = func(inst *Inst, f *ssa.Function) bool { return c.inline(inst, f) }
		terms := map[string]*Term{} // a name for every key
		h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, t *Term, truth bool) bool {
			t, truth = cond(t, truth)
			// path.Ext(x) == ".condensed"
			if t.k == TBin && t.op == "==" {
				for i, x := range t.args {
					if x.k == TPure && x.op == "Ext" {
						if k, ok := t.args[1-i].str(); ok {
							e := s.T.mk(TPure, "ext", nil, nil, nil, 0, types.Typ[types.Bool], x.args[0], s.T.constVal(constantString(k), nil))
							f := st.facts[e]
							f.truth = -1
							if truth {
								f.truth = 1
							}
							st.facts[e] = f
						}
					}
				}
			}
			return true
		}
		h.Call = func(cc *CallCtx) bool {
			s, st := cc.S, cc.St
			call, _ := cc.Instr.(*ssa.Call)
			name := strings.Replace(cc.Name, "(*", "(", 1)
			handle := func(o *State, op string) {
				if call == nil {
					return
				}
				i := 0
				if cc.NRes() == 1 {
					i = -1
				}
				if t := o.get(cc.Inst, call, i); t != nil {
					s.setTag(o, t, s.T.mk(TPure, op, nil, nil, nil, 0, nil))
				}
			}
			outs := func(op string) {
				for _, o := range cc.outs {
					if e := o.get(cc.Inst, call, 1); e != nil && s.nilness(o, e) == -1 {
						handle(o, op)
					}
				}
			}
			scratch := func(nt *Term, what string) string {
				k := c.key(s, st, nt)
				_, suf := c.nameOf(s, st, nt)
				r.ok(cfOpen, what+" "+p.instrPos(cc.Instr))
				switch {
				case suf == cond16 || strings.HasSuffix(suf, cond16):
				case strings.HasSuffix(suf, ".tmp"):
					i := strings.LastIndex(strings.TrimSuffix(suf, ".tmp"), ".")
					if i < 0 {
						i = len(suf) - 4
					}
					c.tmp[suf[i:]] = true
				default:
					s.violate(cfOpen, cc.Instr, cc.Inst, st, "a file is opened from scratch that may be a log")
				}
				return k
			}
			fresh := func(o *State, k string) {
				for _, x := range []string{"bad:", "dirty:", "closed:", "src:"} {
					setFlag(o, x+k, "")
				}
				setFlag(o, "new:"+k, "1")
			}
			switch name {
			case "os.Open":
				k := c.key(s, st, cc.Args[0])
				terms[k] = cc.Args[0]
				forkErr(cc, nil, nil)
				outs(fileTag + k)
				return true
			case "os.Create":
				k := scratch(cc.Args[0], "created")
				forkErr(cc, func(o *State) { fresh(o, k) }, nil)
				outs(fileTag + k)
				return true
			case "os.WriteFile", "io/ioutil.WriteFile":
				k := scratch(cc.Args[0], "written")
				forkErr(cc, func(o *State) { fresh(o, k); setFlag(o, "closed:"+k, "1") }, func(o *State) { setFlag(o, "bad:"+k, "1") })
				return true
			case "os.OpenFile":
				fl, ok := cc.Args[1].int64()
				const wr, rw, app, cre, exc, trunc = 1, 2, 0x400, 0x40, 0x80, 0x200
				k := c.key(s, st, cc.Args[0])
				switch {
				case !ok:
					s.violate(cfOpen, cc.Instr, cc.Inst, st, "how a file is opened cannot be told")
				case fl&trunc != 0:
					scratch(cc.Args[0], "opened from scratch")
				case fl&(wr|rw) != 0 && fl&app == 0 && fl&exc == 0:
					r.ok(cfOpen, "opened "+p.instrPos(cc.Instr))
					s.violate(cfOpen, cc.Instr, cc.Inst, st, "a file is opened for writing over what it holds")
				default:
					r.ok(cfOpen, "opened "+p.instrPos(cc.Instr))
				}
				forkErr(cc, func(o *State) {
					if fl&(trunc|exc) != 0 {
						fresh(o, k)
					}
				}, nil)
				outs(fileTag + k)
				return true
			case "os.Truncate":
				r.ok(cfOpen, "cut off "+p.instrPos(cc.Instr))
				s.violate(cfOpen, cc.Instr, cc.Inst, st, "a log may be cut off")
			case "os.RemoveAll":
				r.ok(cfRemove, "directory "+p.instrPos(cc.Instr))
				if !strings.HasPrefix(s.root.fn.Name(), "Drop") {
					s.violate(cfRemove, cc.Instr, cc.Inst, st, "logs are removed with their directory though the index is not dropped")
				}
			case "os.Rename":
				c.rename(cc, terms)
				from, src := c.key(s, st, cc.Args[0]), ""
				src = flagOf(st, "src:"+from)
				forkErr(cc, func(o *State) {
					for _, k := range strings.Split(src, ";") {
						if k != "" {
							setFlag(o, "in:"+k, "1")
						}
					}
				}, nil)
				return true
			case "os.Remove":
				c.remove(cc)
				forkErr(cc, nil, nil)
				return true
			case "io.MultiReader":
				if vs, ok := s.Varargs(st, cc.Args[0]); ok {
					var ks []string
					for _, v := range vs {
						k, _ := fileOf(s, st, v)
						ks = append(ks, k)
					}
					cc.Out(st, cc.FreshAll(st)...)
					handle(st, fileTag+strings.Join(ks, ";"))
					return true
				}
			case "io.Copy", "io.CopyBuffer", "(os.File).ReadFrom", "(bufio.Writer).ReadFrom":
				dst, buf := fileOf(s, st, cc.Args[0])
				src, _ := fileOf(s, st, cc.Args[1])
				if dst == "" {
					break
				}
				forkErr(cc, func(o *State) {
					old := flagOf(o, "src:"+dst)
					if src == "" {
						src = "?"
					}
					if strings.Count(old, ";") < 6 {
						setFlag(o, "src:"+dst, strings.TrimPrefix(old+";"+src, ";"))
					}
					setFlag(o, "closed:"+dst, "")
					if buf {
						setFlag(o, "dirty:"+dst, "1")
					}
				}, func(o *State) { setFlag(o, "bad:"+dst, "1") })
				return true
			case "bufio.NewReader", "bufio.NewReaderSize", "bufio.NewWriter", "bufio.NewWriterSize":
				k, _ := fileOf(s, st, cc.Args[0])
				cc.Out(st, cc.FreshAll(st)...)
				if k != "" {
					op := fileTag
					if strings.Contains(name, "Writer") {
						op = bufTag
					}
					handle(st, op+k)
				}
				return true
			}
			m := name[strings.LastIndex(name, ".")+1:]
			f := cc.Com.StaticCallee()
			if f != nil && isPkg(f, hnswPkg) && (f.Name() == "NewWriterSize" || f.Name() == "NewWriter") {
				k, _ := fileOf(s, st, cc.Args[0])
				cc.Out(st, cc.FreshAll(st)...)
				handle(st, bufTag+k)
				return true
			}
			if f != nil && strings.HasSuffix(f.String(), "Deserializer).Do") {
				k := ""
				for _, a := range cc.Args {
					if x, _ := fileOf(s, st, a); x != "" {
						k = x
					}
				}
				forkErr(cc, func(o *State) { setFlag(o, "read:"+k, "1") }, nil)
				return true
			}
			if len(cc.Args) > 0 {
				if k, buf := fileOf(s, st, cc.Args[0]); k != "" && (strings.HasPrefix(name, "(") || name == "encoding/binary.Write" || strings.HasPrefix(name, "fmt.Fprint") || name == "io.WriteString") {
					switch {
					case m == "Close":
						one := func(o *State, ok bool) {
							if ok {
								setFlag(o, "closed:"+k, "1")
							} else if flagOf(o, "closed:"+k) == "" && flagOf(o, "new:"+k) != "" {
								setFlag(o, "bad:"+k, "1")
							}
						}
						forkErr(cc, func(o *State) { one(o, true) }, func(o *State) { one(o, false) })
						return true
					case m == "Flush":
						forkErr(cc, func(o *State) { setFlag(o, "dirty:"+k, "") }, func(o *State) { setFlag(o, "bad:"+k, "1") })
						return true
					case m == "Sync":
						forkErr(cc, nil, func(o *State) { setFlag(o, "bad:"+k, "1") })
						return true
					case strings.HasPrefix(m, "Write") || strings.HasPrefix(m, "Fprint"):
						forkErr(cc, func(o *State) {
							if buf {
								setFlag(o, "dirty:"+k, "1")
							} else {
								setFlag(o, "closed:"+k, "")
							}
						}, func(o *State) { setFlag(o, "bad:"+k, "1") })
						return true
					case m == "Truncate":
						r.ok(cfOpen, "cut off "+p.instrPos(cc.Instr))
						if flagOf(st, "new:"+k) == "" {
							s.violate(cfOpen, cc.Instr, cc.Inst, st, "a log may be cut off")
						}
					}
				}
			}
			if c.common(cc) || stdCall(cc) {
				return true
			}
			if extErr(cc) {
				forkErr(cc, nil, nil)
				return true
			}
			return false
		}
		s := newSim(p, h)
		s.Run(fn)
		r.take(s)
	}
}

func (c *logFiles) remove(cc *CallCtx) {
	s, st := cc.S, cc.St
	base, suf := c.nameOf(s, st, cc.Args[0])
	k := base + "+" + suf
	c.r.ok(cfRemove, "removed "+c.p.instrPos(cc.Instr)+" from "+shortFn(s.root.fn))
	if strings.HasSuffix(suf, ".tmp") {
		return
	}
	if flagOf(st, "in:"+k) != "" {
		return // in a combined log that has its name
	}
	// condensed
	n := base + "+" + suf + cond16
	if flagOf(st, "new:"+n) != "" {
		switch {
		case flagOf(st, "read:"+k) == "":
			s.violate(cfRemove, cc.Instr, cc.Inst, st, "a log is removed that may not have been read to its end")
		case flagOf(st, "bad:"+n) != "":
			s.violate(cfRemove, cc.Instr, cc.Inst, st, "a log is removed though writing its replacement may have failed")
		case flagOf(st, "dirty:"+n) != "":
			s.violate(cfRemove, cc.Instr, cc.Inst, st, "a log is removed before its replacement was written out")
		case flagOf(st, "closed:"+n) == "":
			s.violate(cfRemove, cc.Instr, cc.Inst, st, "a log is removed before its replacement was closed")
		}
		return
	}
	// a leftover
	if suf == cond16 && c.original(s, st, base) == 1 {
		return
	}
	s.violate(cfRemove, cc.Instr, cc.Inst, st, "a log may be removed that nothing replaces")
}

// original: whether the log of that name is known to be there (1) or not to be there (-1)
func (c *logFiles) original(s *Sim, st *State, base string) int8 {
	for t, f := range st.facts {
		if t.k == TPure && t.op == "member" && f.truth != 0 && c.full(s, st, t.args[0]) {
			if b, x := c.nameOf(s, st, t.args[1]); x == "" && b == base {
				return f.truth
			}
		}
	}
	return 0
}

// full: the list of all logs
func (c *logFiles) full(s *Sim, st *State, l *Term) bool {
	if g := s.tag(st, l); g != nil && g.op == "names" {
		return true
	}
	return l.k == TParam && l.inst == s.rootInst() || l.k == TParam
}

func (s *Sim) rootInst() *Inst { return s.root }

func (c *logFiles) rename(cc *CallCtx, terms map[string]*Term) {
	s, st := cc.S, cc.St
	from := c.key(s, st, cc.Args[0])
	c.r.ok(cfRename, "renamed "+c.p.instrPos(cc.Instr))
	bad := func(msg string) { s.violate(cfRename, cc.Instr, cc.Inst, st, msg) }
	switch {
	case flagOf(st, "new:"+from) == "":
		bad("a file gets another name that was not made from scratch")
		return
	case flagOf(st, "bad:"+from) != "":
		bad("a file gets the name of a log though writing it may have failed")
		return
	case flagOf(st, "dirty:"+from) != "":
		bad("a file gets the name of a log before it was written out")
		return
	case flagOf(st, "closed:"+from) == "":
		bad("a file gets the name of a log before it was closed")
		return
	}
	src := strings.Split(flagOf(st, "src:"+from), ";")
	if len(src) != 2 || src[0] == "" || src[0] == src[1] {
		bad("a file gets the name of a log that does not hold two logs")
		return
	}
	base, suf := c.nameOf(s, st, cc.Args[1])
	own := false
	for _, k := range src {
		own = own || k == base+"+"+suf+cond16
	}
	if !own {
		bad("a combined log gets a name that is not that of one of its logs")
	}
	a, b := terms[src[0]], terms[src[1]]
	if a != nil && b != nil {
		l1, i := elemOf(a.unbox())
		l2, j := elemOf(b.unbox())
		if l1 != nil && l1 == l2 {
			if d, ok := diff(j, i); !ok || d != 1 {
				bad("logs are combined that do not follow each other in this order")
			}
			return
		}
	}
	bad("which logs are combined cannot be told")
}

// leftovers: what the lists leave out
func (c *logFiles) leftovers() {
	p, r := c.p, c.r
	type want struct {
		fn   *ssa.Function
		prop string
	}
	var todo []want
	var tmps []string
	for k := range c.tmp {
		tmps = append(tmps, k)
	}
	sort.Strings(tmps)
	for _, f := range p.funcs {
		if !isPkg(f, hnswPkg) || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		if c.lists(f) || c.current(f) {
			for _, k := range tmps {
				todo = append(todo, want{f, k})
			}
		}
		if f.Name() == "Do" && (recvIs(f, hnswPkg+".CommitLogCombiner") || recvIs(f, hnswPkg+".CorruptCommitLogFixer")) {
			todo = append(todo, want{f, "clean"})
		}
	}
	for _, w := range todo {
		c.leave(w.fn, w.prop)
	}
	if len(tmps) < 2 {
		r.anchor(cfLeft, "temporary files")
	}
}

// current: gives the name of the newest log
func (c *logFiles) current(f *ssa.Function) bool {
	res := f.Signature.Results()
	if f.Signature.Recv() != nil || res.Len() != 3 || !isString(res.At(0).Type()) || !isBool(res.At(1).Type()) || !isErr(res.At(2).Type()) {
		return false
	}
	for _, g := range p16reach(c.p, f) {
		if g == "os.ReadDir" {
			return true
		}
	}
	return false
}

func p16reach(p *Prog, f *ssa.Function) []string {
	var out []string
	for _, g := range p.reach(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					out = append(out, calleeName(ci.Common()))
				}
			}
		}
	}
	return out
}

type spoil struct {
	list *Term
	deps []*Term
	ok   bool
}

type listUse struct {
	st   *State
	in   ssa.Instruction
	inst *Inst
	deps []*Term
	ok   bool
	msg  string
}

func (c *logFiles) leave(fn *ssa.Function, prop string) {
	p, r := c.p, c.r
	maps := map[*Term]*Term{}
	base := func(l *Term) *Term {
		for l.k == TSlice || l.k == TConv {
			l = l.args[0]
		}
		return l
	}
	var holds func(s *Sim, st *State, l *Term) (bool, []*Term)
	holds = func(s *Sim, st *State, l *Term) (bool, []*Term) {
		l = base(l)
		if l.isNilConst() || l.k == TMake {
			return true, []*Term{l}
		}
		if g := s.tag(st, l); g != nil && g.op == "holds" {
			return true, g.args
		}
		return false, nil
	}
	var has func(s *Sim, st *State, e *Term) (bool, []*Term)
	has = func(s *Sim, st *State, e *Term) (bool, []*Term) {
		e = e.unbox()
		if prop == "clean" {
			if flagOf(st, "clean:"+locID(e)) != "" {
				return true, nil
			}
		} else {
			ps := c.parts(s, st, e)
			if n := len(ps); n > 0 && ps[n-1].t != nil {
				e = ps[n-1].t
			}
			n := e
			if e.k != TPure || e.op != "name" {
				n = s.T.mk(TPure, "name", nil, nil, nil, 0, types.Typ[types.String], e)
			} else {
				e = e.args[0]
			}
			for _, k := range c.endsIn(s, st, n, -1) {
				if strings.HasSuffix(prop, k) && k != "" {
					return true, nil
				}
			}
			// it ends in something else
			for _, k := range c.endsIn(s, st, n, 1) {
				if !strings.HasSuffix(prop, k) && !strings.HasSuffix(k, prop) {
					return true, nil
				}
			}
		}
		if l, _ := elemOf(e); l != nil {
			return holds(s, st, l)
		}
		return false, nil
	}
	what := "a temporary file may be taken for a log"
	if prop == "clean" {
		what = "a condensed log whose original is there may be taken for a complete one"
	}
	h := &Hooks{KeepLock: true}
	h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
	h.Inline = func(inst *Inst, f *ssa.Function) bool { return c.inline(inst, f) }
	h.Tag = func(s *Sim, st *State, t *Term) *Term {
		if t.isNilConst() || t.k == TMake {
			return s.T.mk(TPure, "holds", nil, nil, nil, 0, nil)
		}
		return nil
	}
	h.Store = func(s *Sim, inst *Inst, in ssa.Instruction, st *State, loc, val *Term) {
		if loc.k == TMapElem && prop == "clean" {
			if l, _ := elemOf(loc.args[1].unbox()); l != nil && c.full(s, st, l) && everyRound(in.Block()) {
				maps[loc.args[0]] = l
			}
			return
		}
		if loc.k == TIndexAddr && loc.args[0].k == TMake {
			ok, deps := has(s, st, val)
			s.record(fmt.Sprintf("s%p|%d|%s", in, inst.id, st.key()), spoil{loc.args[0], deps, ok})
		}
	}
	use := func(s *Sim, in ssa.Instruction, inst *Inst, st *State, ok bool, deps []*Term) {
		r.ok(cfLeft, prop+" "+p.instrPos(in)+" in "+shortFn(fn))
		s.record(fmt.Sprintf("u%p|%d|%s", in, inst.id, st.key()), listUse{st.clone(), in, inst, deps, ok, what})
	}
	h.Refine = func(s *Sim, inst *Inst, in *ssa.If, st *State, t *Term, truth bool) bool {
		if prop != "clean" {
			return true
		}
		t, truth = cond(t, truth)
		if lk, ok := t.val.(*ssa.Lookup); ok && t.k == TCall && (t.idx == 1 || isBool(t.typ)) {
			m := s.val(st, t.inst, lk.X)
			k := s.val(st, t.inst, lk.Index)
			if l := maps[m]; l != nil && k != nil {
				e := s.T.mk(TPure, "member", nil, nil, nil, 0, types.Typ[types.Bool], l, k)
				f := st.facts[e]
				f.truth = -1
				if truth {
					f.truth = 1
				}
				st.facts[e] = f
				t = e
			}
		}
		if !truth {
			switch {
			case t.k == TPure && t.op == "strings.HasSuffix":
				if k, ok := t.args[1].str(); ok && k == cond16 {
					setFlag(st, "clean:"+locID(t.args[0]), "1")
				}
			case t.k == TPure && t.op == "member" && c.full(s, st, t.args[0]):
				if of, k := trimmed(t.args[1].unbox()); of != nil && k == cond16 {
					setFlag(st, "clean:"+locID(of), "1")
				}
			}
		}
		return true
	}
	h.BackEdge = func(s *Sim, inst *Inst, st *State) {
		for _, k := range flagsWith(st, "clean:") {
			setFlag(st, k, "")
		}
	}
	h.Call = func(cc *CallCtx) bool {
		s, st := cc.S, cc.St
		call, _ := cc.Instr.(*ssa.Call)
		if cc.Name == "builtin:append" && len(cc.Args) > 1 {
			if vs, ok := s.Varargs(st, cc.Args[1]); ok && len(vs) == 1 {
				if ok, deps := holds(s, st, cc.Args[0]); ok {
					if ok2, d2 := has(s, st, vs[0]); ok2 {
						_ = append(deps, d2...)
						s.builtin(cc)
						for _, o := range cc.outs {
							s.setTag(o, o.get(cc.Inst, call, -1), s.T.mk(TPure, "holds", nil, nil, nil, 0, nil))
						}
						return true
					}
				}
			}
		}
		if prop == "clean" && cc.Name == "io.Copy" {
			if k := s.tag(st, cc.Args[1].unbox().strip()); k != nil && k.op == "opened" {
				ok, deps := has(s, st, k.args[0])
				use(s, cc.Instr, cc.Inst, st, ok, deps)
			} else {
				use(s, cc.Instr, cc.Inst, st, false, nil)
			}
		}
		if cc.Name == "os.Open" {
			forkErr(cc, nil, nil)
			for _, o := range cc.outs {
				if t := o.get(cc.Inst, call, 0); t != nil {
					s.setTag(o, t, s.T.mk(TPure, "opened", nil, nil, nil, 0, nil, cc.Args[0]))
				}
			}
			return true
		}
		if c.common(cc) || stdCall(cc) {
			return true
		}
		if extErr(cc) {
			forkErr(cc, nil, nil)
			return true
		}
		return false
	}
	h.RootReturn = func(s *Sim, inst *Inst, ret *ssa.Return, st *State, res []*Term) {
		if n := errResult(fn.Signature); n >= 0 && s.nilness(st, res[n]) == 1 {
			return
		}
		if isStrings(fn.Signature.Results().At(0).Type()) {
			ok, deps := holds(s, st, res[0])
			use(s, ret, inst, st, ok, deps)
		}
		if c.current(fn) && s.truth(st, res[1]) != -1 {
			ok, deps := has(s, st, res[0])
			use(s, ret, inst, st, ok, deps)
		}
	}
	s := newSim(p, h)
	s.Run(fn)
	s.src = nk{}
	var good func(l *Term, seen map[*Term]bool) bool
	stores := records[spoil](s)
	good = func(l *Term, seen map[*Term]bool) bool {
		if seen[l] {
			return true
		}
		seen[l] = true
		for _, x := range stores {
			if x.list != l {
				continue
			}
			if !x.ok {
				return false
			}
			for _, d := range x.deps {
				if !good(d, seen) {
					return false
				}
			}
		}
		return true
	}
	for _, u := range records[listUse](s) {
		ok := u.ok
		for _, d := range u.deps {
			ok = ok && good(d, map[*Term]bool{})
		}
		if !ok {
			s.violate(cfLeft, u.in, u.inst, u.st, u.msg)
		}
	}
	r.take(s)
}

func isStrings(t types.Type) bool {
	if t == nil {
		return false
	}
	sl, ok := t.Underlying().(*types.Slice)
	return ok && isString(sl.Elem())
}

// pick: which log is condensed
func (c *logFiles) pick() {
	p, r := c.p, c.r
	for _, fn := range p.funcs {
		if !isPkg(fn, hnswPkg) {
			continue
		}
		// the order of the lists
		if c.lists(fn) || c.current(fn) {
			c.order(fn)
		}
		site := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && condenses(ci.Common()) {
					site = true
				}
			}
		}
		if !site {
			continue
		}
		root := rootFn(fn)
		// a helper that is given the log: where it is called
		if cs := p.callSites(root); len(cs) > 0 && paramOfType(root, isString) != nil {
			root = rootFn(cs[0].Parent())
		}
		h := &Hooks{KeepLock: true}
		h.Init = func(s *Sim, st *State, root *Inst) { st.A = sig{} }
		h.Inline = func(inst *Inst, f *ssa.Function) bool { return c.inline(inst, f) }
		h.Call = func(cc *CallCtx) bool {
			s, st := cc.S, cc.St
			if condenses(cc.Com) {
				e := cc.Args[len(cc.Args)-1].unbox()
				r.ok(cfPick, "condensed "+p.instrPos(cc.Instr))
				not := false
				for _, k := range c.endsIn(s, st, e, -1) {
					not = not || k == cond16
				}
				if !not {
					s.violate(cfPick, cc.Instr, cc.Inst, st, "a log may be condensed that already is")
				}
				l, i := elemOf(e)
				ok := false
				if l != nil {
					if l.k == TSlice && l.args[2] != nil {
						b := l.args[0]
						if g := s.tag(st, b); g != nil && g.op == "names" {
							ok = s.leq(st, s.T.bin(tokADD, l.args[2], s.T.intConst(1), types.Typ[types.Int]), s.lenOf(st, b))
						}
					}
					if g := s.tag(st, l); g != nil && g.op == "names" {
						ok = s.leq(st, s.T.bin(tokADD, i, s.T.intConst(2), types.Typ[types.Int]), s.lenOf(st, l))
					}
				}
				if !ok {
					s.violate(cfPick, cc.Instr, cc.Inst, st, "the log in use, the last one, may be condensed")
				}
				forkErr(cc, nil, nil)
				return true
			}
			if c.common(cc) || stdCall(cc) {
				return true
			}
			if extErr(cc) {
				forkErr(cc, nil, nil)
				return true
			}
			return false
		}
		s := newSim(p, h)
		s.Run(root)
		r.take(s)
	}
}

func condenses(com *ssa.CallCommon) bool {
	return com.IsInvoke() && com.Method.Name() == "Do" && typeName(com.Value.Type()) == hnswPkg+".condensor"
}

// order: logs are sorted by their time stamps
func (c *logFiles) order(fn *ssa.Function) {
	p, r := c.p, c.r
	for _, g := range p.reach(fn) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := calleeName(ci.Common())
				if n != "sort.Slice" && n != "sort.SliceStable" {
					continue
				}
				mc, ok := ci.Common().Args[1].(*ssa.MakeClosure)
				if !ok {
					continue
				}
				less, _ := mc.Fn.(*ssa.Function)
				if less == nil || len(less.Params) != 2 {
					continue
				}
				up, ok := ascending(less)
				if !ok {
					continue
				}
				r.ok(cfPick, "order "+p.instrPos(in)+" for "+shortFn(fn))
				if c.lists(fn) && !up {
					r.failf(cfPick, p.instrPos(in), shortFn(fn), "logs are listed from the newest to the oldest")
				}
				if c.current(fn) {
					first, known := firstTaken(fn)
					if known && first == up {
						r.failf(cfPick, p.instrPos(in), shortFn(fn), "a log that is not the newest may be taken for the one in use")
					}
				}
			}
		}
	}
}

// firstTaken: the name returned is of the first entry (true) or of another
func firstTaken(fn *ssa.Function) (first, known bool) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			if k, ok := ia.Index.(*ssa.Const); ok && k.Value != nil {
				return k.Int64() == 0, true
			}
			if bo, ok := ia.Index.(*ssa.BinOp); ok && bo.Op == token.SUB {
				return false, true
			}
		}
	}
	return false, false
}

// ascending: less(a, b) compares what comes from a with what comes from b
func ascending(less *ssa.Function) (up, ok bool) {
	from := func(v ssa.Value) (a, b bool) {
		seen := map[ssa.Value]bool{}
		var walk func(v ssa.Value)
		walk = func(v ssa.Value) {
			if v == nil || seen[v] {
				return
			}
			seen[v] = true
			if v == less.Params[0] {
				a = true
			}
			if v == less.Params[1] {
				b = true
			}
			if in, ok := v.(ssa.Instruction); ok {
				for _, o := range in.Operands(nil) {
					walk(*o)
				}
			}
		}
		walk(v)
		return
	}
	for _, bl := range less.Blocks {
		ret, is := bl.Instrs[len(bl.Instrs)-1].(*ssa.Return)
		if !is {
			continue
		}
		bo, is := ret.Results[0].(*ssa.BinOp)
		if !is {
			return false, false
		}
		xa, xb := from(bo.X)
		ya, yb := from(bo.Y)
		ab := xa && !xb && yb && !ya
		ba := xb && !xa && ya && !yb
		switch {
		case (bo.Op == token.LSS || bo.Op == token.LEQ) && ab, (bo.Op == token.GTR || bo.Op == token.GEQ) && ba:
			up, ok = true, true
		case (bo.Op == token.LSS || bo.Op == token.LEQ) && ba, (bo.Op == token.GTR || bo.Op == token.GEQ) && ab:
			return false, true
		default:
			return false, false
		}
	}
	return
}

// everyRound: done in every round of its loop, but perhaps for condensed logs
func everyRound(b *ssa.BasicBlock) bool {
	head := loopOf(b)
	if head == nil {
		return false
	}
	latch := func(x *ssa.BasicBlock) bool {
		for _, q := range head.Preds {
			if head.Dominates(q) && !x.Dominates(q) {
				return false
			}
		}
		return true
	}
	for ; b != head && !latch(b); b = b.Idom() {
		if i, ok := b.Idom().Instrs[len(b.Idom().Instrs)-1].(*ssa.If); ok {
			c := i.Cond
			if n, ok := c.(*ssa.UnOp); ok && n.Op == token.NOT {
				c = n.X
			}
			if call, ok := c.(*ssa.Call); !ok || calleeName(call.Common()) != "strings.HasSuffix" {
				return false
			}
		}
	}
	// left only when there are no more
	for x := range loopBlocks(head) {
		for _, y := range x.Succs {
			if x != head && !loopBlocks(head)[y] {
				return false
			}
		}
	}
	return true
}
