package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/fairDataSociety/FaVe"

type Prog struct {
	dir     string
	fset    *token.FileSet
	pkgs    []*packages.Package
	byPath  map[string]*packages.Package
	ssa     *ssa.Program
	spkgs   map[string]*ssa.Package
	funcs   []*ssa.Function // all functions of the repository with a body
	inRepo  map[*ssa.Function]bool
	fieldFn map[*types.Var][]*ssa.Function // functions stored in a struct field
	named   []*types.Named                 // named types of the repository
	implMem map[string][]*ssa.Function
	callers map[*ssa.Function]int // static in-repo references
	files   int
	allSSA  map[*ssa.Function]bool
	mu      sync.Mutex
	extMem  map[*ssa.Function]map[string]bool
}

func repoDir() string {
	if d := os.Getenv("FAVE_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func load(dir string) (*Prog, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Tests: false}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Prog{dir: dir, byPath: map[string]*packages.Package{}, spkgs: map[string]*ssa.Package{},
		inRepo: map[*ssa.Function]bool{}, fieldFn: map[*types.Var][]*ssa.Function{}, implMem: map[string][]*ssa.Function{}, callers: map[*ssa.Function]int{}, extMem: map[*ssa.Function]map[string]bool{}}
	for _, pkg := range pkgs {
		for _, e := range pkg.Errors {
			return nil, fmt.Errorf("%s: %v", pkg.PkgPath, e)
		}
		if pkg.PkgPath == modPath+"/pkg/hnsw/distancer/asm" && len(pkg.Syntax) == 0 {
			continue
		}
		p.pkgs = append(p.pkgs, pkg)
		p.byPath[pkg.PkgPath] = pkg
		p.fset = pkg.Fset
		p.files += len(pkg.Syntax)
	}
	if len(p.pkgs) == 0 {
		return nil, fmt.Errorf("no packages found in %s", dir)
	}
	prog, sps := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.ssa = prog
	for _, sp := range sps {
		if sp != nil {
			p.spkgs[sp.Pkg.Path()] = sp
		}
	}
	p.allSSA = ssautil.AllFunctions(prog)
	// methods of types nothing in the program converts to an interface
	var more func(fn *ssa.Function)
	more = func(fn *ssa.Function) {
		if fn == nil || p.allSSA[fn] {
			return
		}
		p.allSSA[fn] = true
		for _, a := range fn.AnonFuncs {
			more(a)
		}
	}
	for _, sp := range p.spkgs {
		if !strings.HasPrefix(sp.Pkg.Path(), modPath) {
			continue
		}
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || nt.TypeParams().Len() > 0 {
				continue
			}
			for i := 0; i < nt.NumMethods(); i++ {
				more(prog.FuncValue(nt.Method(i)))
			}
		}
	}
	for fn := range p.allSSA {
		if p.isRepoFn(fn) && fn.Blocks != nil {
			p.inRepo[fn] = true
			p.funcs = append(p.funcs, fn)
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool {
		a, b := p.funcs[i], p.funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	for _, sp := range p.spkgs {
		if !strings.HasPrefix(sp.Pkg.Path(), modPath) {
			continue
		}
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 {
					p.named = append(p.named, nt)
				}
			}
		}
	}
	sort.Slice(p.named, func(i, j int) bool { return p.named[i].String() < p.named[j].String() })
	p.indexFieldFuncs()
	return p, nil
}

func (p *Prog) isRepoFn(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	var path string
	if f.Pkg != nil {
		path = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		path = f.Object().Pkg().Path()
	}
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

// indexFieldFuncs finds the functions that are ever stored in each struct field
// of function type
func (p *Prog) indexFieldFuncs() {
	add := func(v *types.Var, fn *ssa.Function) {
		for _, f := range p.fieldFn[v] {
			if f == fn {
				return
			}
		}
		p.fieldFn[v] = append(p.fieldFn[v], fn)
	}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						if _, ok := st.Val.Type().Underlying().(*types.Signature); ok {
							v := fieldVar(fa.X.Type(), fa.Field)
							for _, f := range p.funcsOf(st.Val, 0) {
								add(v, f)
							}
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						p.callers[f]++
					}
				}
			}
		}
	}
	// a field copied from another field (index.vectorForID = cfg.VectorForIDThunk)
	for i := 0; i < 3; i++ {
		for _, fn := range p.funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					if src := loadedField(st.Val); src != nil {
						for _, f := range p.fieldFn[src] {
							add(fieldVar(fa.X.Type(), fa.Field), f)
						}
					}
					if pr, ok := st.Val.(*ssa.Parameter); ok {
						for _, f := range p.paramFuncs(pr) {
							add(fieldVar(fa.X.Type(), fa.Field), f)
						}
					}
				}
			}
		}
	}
}

// paramFuncs: functions passed for a parameter at static call sites in the repo
func (p *Prog) paramFuncs(pr *ssa.Parameter) []*ssa.Function {
	if _, ok := pr.Type().Underlying().(*types.Signature); !ok {
		return nil
	}
	fn := pr.Parent()
	idx := -1
	for i, q := range fn.Params {
		if q == pr {
			idx = i
		}
	}
	var out []*ssa.Function
	for _, g := range p.funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn {
					if idx < len(ci.Common().Args) {
						out = append(out, p.funcsOf(ci.Common().Args[idx], 0)...)
					}
				}
			}
		}
	}
	return out
}

func loadedField(v ssa.Value) *types.Var {
	switch v := v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok && v.Op == token.MUL {
			return fieldVar(fa.X.Type(), fa.Field)
		}
	case *ssa.Field:
		return fieldVar(v.X.Type(), v.Field)
	case *ssa.ChangeType:
		return loadedField(v.X)
	}
	return nil
}

func (p *Prog) funcsOf(v ssa.Value, depth int) []*ssa.Function {
	if depth > 5 {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{v}
	case *ssa.MakeClosure:
		return []*ssa.Function{v.Fn.(*ssa.Function)}
	case *ssa.ChangeType:
		return p.funcsOf(v.X, depth+1)
	case *ssa.Phi:
		var out []*ssa.Function
		for _, e := range v.Edges {
			out = append(out, p.funcsOf(e, depth+1)...)
		}
		return out
	}
	return nil
}

func deref(t types.Type) types.Type {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return t
}

func structOf(t types.Type) *types.Struct {
	s, _ := deref(t).Underlying().(*types.Struct)
	return s
}

func fieldVar(t types.Type, i int) *types.Var {
	if s := structOf(t); s != nil && i < s.NumFields() {
		return s.Field(i)
	}
	return nil
}

// typeName returns "pkg/path.Name" of a (pointer to a) named type
func typeName(t types.Type) string {
	if t == nil {
		return ""
	}
	t = deref(t)
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return t.String()
}

func shortType(t types.Type) string {
	s := typeName(t)
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return s
}

// implementations of an interface method by types of the repository
func (p *Prog) impls(m *types.Func, iface types.Type) []*ssa.Function {
	it, ok := iface.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	key := m.FullName() + "|" + iface.String()
	p.mu.Lock()
	defer p.mu.Unlock()
	if r, ok := p.implMem[key]; ok {
		return r
	}
	var out []*ssa.Function
	for _, n := range p.named {
		if types.IsInterface(n) {
			continue
		}
		for _, t := range []types.Type{types.NewPointer(n), n} {
			if !types.Implements(t, it) {
				continue
			}
			sel := p.ssa.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
			if sel == nil {
				continue
			}
			fn := p.ssa.MethodValue(sel)
			if fn != nil && fn.Synthetic != "" {
				// prefer the declared method over a wrapper
				if o, ok := sel.Obj().(*types.Func); ok {
					if d := p.ssa.FuncValue(o); d != nil && d.Blocks != nil && len(sel.Index()) == 1 {
						fn = d
					}
				}
			}
			if fn != nil && fn.Blocks != nil {
				dup := false
				for _, f := range out {
					if f == fn {
						dup = true
					}
				}
				if !dup {
					out = append(out, fn)
				}
			}
			break
		}
	}
	p.implMem[key] = out
	return out
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.fset.Position(pos)
	f, err := filepath.Rel(p.dir, q.Filename)
	if err != nil {
		f = q.Filename
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (p *Prog) instrPos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	pos := in.Pos()
	if !pos.IsValid() {
		if v, ok := in.(ssa.Value); ok {
			for _, r := range refs(v) {
				if r.Pos().IsValid() {
					pos = r.Pos()
					break
				}
			}
		}
	}
	if !pos.IsValid() && in.Block() != nil {
		for _, i := range in.Block().Instrs {
			if i.Pos().IsValid() {
				pos = i.Pos()
			}
		}
	}
	if !pos.IsValid() && in.Parent() != nil {
		pos = in.Parent().Pos()
	}
	return p.pos(pos)
}

func refs(v ssa.Value) []ssa.Instruction {
	if r := v.Referrers(); r != nil {
		return *r
	}
	return nil
}

// fn finds a function or method: "pkg/document.(*Client).AddDocuments" or "pkg/hnsw.New"
func (p *Prog) fn(name string) *ssa.Function {
	i := strings.LastIndex(name, "/")
	j := strings.Index(name[i+1:], ".") + i + 1
	path, rest := name[:j], name[j+1:]
	if path != modPath && !strings.HasPrefix(path, modPath) {
		path = modPath + "/" + path
	}
	sp := p.spkgs[path]
	if sp == nil {
		return nil
	}
	if strings.HasPrefix(rest, "(") {
		k := strings.Index(rest, ").")
		recv, m := strings.Trim(rest[:k], "(*"), rest[k+2:]
		ptr := strings.HasPrefix(rest, "(*")
		t := sp.Type(recv)
		if t == nil {
			return nil
		}
		var ty types.Type = t.Type()
		if ptr {
			ty = types.NewPointer(ty)
		}
		sel := p.ssa.MethodSets.MethodSet(ty).Lookup(sp.Pkg, m)
		if sel == nil {
			return nil
		}
		if f, ok := sel.Obj().(*types.Func); ok {
			return p.ssa.FuncValue(f)
		}
		return nil
	}
	return sp.Func(rest)
}

// methods of a named type of the repository, exported or not
func (p *Prog) methodsOf(path, name string) []*ssa.Function {
	sp := p.spkgs[modPath+"/"+path]
	if sp == nil || sp.Type(name) == nil {
		return nil
	}
	n, ok := sp.Type(name).Type().(*types.Named)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for i := 0; i < n.NumMethods(); i++ {
		if f := p.ssa.FuncValue(n.Method(i)); f != nil && f.Blocks != nil {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// calleeName names what a call calls: "pkg/path.Func", "(pkg/path.T).Method" (pointers
// stripped) or "iface:pkg/path.I.Method"
func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "iface:" + typeName(c.Value.Type()) + "." + c.Method.Name()
	}
	switch f := c.Value.(type) {
	case *ssa.Function:
		return funcName(f)
	case *ssa.Builtin:
		return "builtin:" + f.Name()
	case *ssa.MakeClosure:
		return funcName(f.Fn.(*ssa.Function))
	}
	return "dynamic"
}

func funcName(f *ssa.Function) string {
	if f.Origin() != nil {
		f = f.Origin()
	}
	if o, ok := f.Object().(*types.Func); ok {
		sig := o.Type().(*types.Signature)
		if sig.Recv() != nil {
			return "(" + typeName(sig.Recv().Type()) + ")." + o.Name()
		}
		if o.Pkg() != nil {
			return o.Pkg().Path() + "." + o.Name()
		}
		return o.Name()
	}
	if f.Parent() != nil {
		return funcName(f.Parent()) + "$" + f.Name()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path() + "." + f.Name()
	}
	return f.String()
}

func shortFn(f *ssa.Function) string {
	s := funcName(f)
	return strings.ReplaceAll(strings.ReplaceAll(s, modPath+"/", ""), modPath, "")
}

func (p *Prog) funcDecl(fn *ssa.Function) *ast.FuncDecl {
	d, _ := fn.Syntax().(*ast.FuncDecl)
	return d
}

var errType = types.Universe.Lookup("error").Type()

func isErr(t types.Type) bool { return types.Identical(t, errType) }

// errResult is the index of the last result if it is an error, else -1
func errResult(sig *types.Signature) int {
	n := sig.Results().Len()
	if n > 0 && isErr(sig.Results().At(n-1).Type()) {
		return n - 1
	}
	return -1
}

// blockPos: where a block ends
func (p *Prog) blockPos(b *ssa.BasicBlock) string {
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if b.Instrs[i].Pos().IsValid() {
			return p.instrPos(b.Instrs[i])
		}
	}
	return fmt.Sprintf("%s block %d", shortFn(b.Parent()), b.Index)
}
