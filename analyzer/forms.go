package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

// lin is a linear form: constant plus coefficients of terms
type lin struct {
	c int64
	m map[*Term]int64
}

func (a lin) add(b lin, f int64) lin {
	r := lin{a.c + f*b.c, map[*Term]int64{}}
	for t, k := range a.m {
		r.m[t] += k
	}
	for t, k := range b.m {
		r.m[t] += f * k
		if r.m[t] == 0 {
			delete(r.m, t)
		}
	}
	return r
}

// linear reads an integer term as a linear form, integer conversions are transparent
func linear(t *Term) lin {
	if t == nil {
		return lin{}
	}
	if n, ok := t.int64(); ok {
		return lin{c: n}
	}
	switch t.k {
	case TConv:
		if isIntT(t.typ) {
			return linear(t.args[0])
		}
	case TBin:
		switch t.op {
		case "+":
			return linear(t.args[0]).add(linear(t.args[1]), 1)
		case "-":
			return linear(t.args[0]).add(linear(t.args[1]), -1)
		case "*":
			for i, x := range t.args {
				if n, ok := x.int64(); ok && n != 0 && isIntT(t.typ) {
					return lin{}.add(linear(t.args[1-i]), n)
				}
			}
		case "<<":
			if n, ok := t.args[1].int64(); ok && n >= 0 && n < 16 && isIntT(t.typ) {
				return lin{}.add(linear(t.args[0]), 1<<uint(n))
			}
		}
	}
	return lin{m: map[*Term]int64{t: 1}}
}

// diff: a-b if it is a constant
func diff(a, b *Term) (int64, bool) {
	d := linear(a).add(linear(b), -1)
	if len(d.m) != 0 {
		return 0, false
	}
	return d.c, true
}

// subst rewrites the leaves of a term
func (ts *Terms) subst(t *Term, f func(*Term) *Term) *Term {
	if t == nil {
		return nil
	}
	if r := f(t); r != nil {
		return r
	}
	ch := false
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = ts.subst(a, f)
		ch = ch || args[i] != a
	}
	if !ch {
		return t
	}
	n := ts.mk(t.k, t.op, t.obj, t.inst, t.val, t.idx, t.typ, args...)
	n.c = t.c
	return n
}

// current replaces values joined earlier by what their variables hold now
func (s *Sim) current(st *State, t *Term) *Term {
	return s.T.subst(t, func(x *Term) *Term {
		if x.k != TJoin {
			return nil
		}
		if x.op[0] == 'e' {
			if f := st.frames[x.inst]; f != nil {
				for k, v := range f.m {
					if k.v == x.val && k.i == x.idx {
						return v
					}
				}
			}
			return x
		}
		if loc, ok := x.obj.(*Term); ok {
			if v, ok := st.mem[loc]; ok {
				return v
			}
		}
		return x
	})
}

// a part of a string: a constant or a value
type spart struct {
	s string
	t *Term
}

// concat flattens a string term into its parts
func concat(t *Term) []spart {
	var out []spart
	add := func(ps ...spart) {
		for _, p := range ps {
			if p.t == nil && len(out) > 0 && out[len(out)-1].t == nil {
				out[len(out)-1].s += p.s
				continue
			}
			if p.t == nil && p.s == "" {
				continue
			}
			out = append(out, p)
		}
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil {
			return
		}
		if s, ok := t.str(); ok {
			add(spart{s: s})
			return
		}
		switch {
		case t.k == TConst && t.c != nil:
			add(spart{s: t.c.ExactString()})
			return
		case t.k == TIface:
			walk(t.args[0])
			return
		case t.k == TConv && isString(t.typ) && (isString(t.args[0].typ) || isBytes(t.args[0].typ)):
			walk(t.args[0])
			return
		case t.k == TConv && isBytes(t.typ) && isString(t.args[0].typ):
			walk(t.args[0])
			return
		case t.k == TBin && t.op == "+" && isString(t.typ):
			walk(t.args[0])
			walk(t.args[1])
			return
		case t.k == TPure && t.op == "fmt.Sprintf":
			if f, ok := t.args[0].str(); ok {
				if ps, ok := splitFormat(f, len(t.args)-1); ok {
					i := 1
					for _, p := range ps {
						if p.verb {
							walk(t.args[i])
							i++
						} else {
							add(spart{s: p.s})
						}
					}
					return
				}
			}
		case t.k == TPure && t.op == "fmt.Sprint" && len(t.args) == 1:
			walk(t.args[0])
			return
		case t.k == TPure && t.op == "strconv.Itoa":
			walk(t.args[0])
			return
		case t.k == TPure && (t.op == "strconv.FormatUint" || t.op == "strconv.FormatInt"):
			if n, ok := t.args[1].int64(); ok && n == 10 {
				walk(t.args[0])
				return
			}
		case t.k == TConv && isIntT(t.typ) && isIntT(t.args[0].typ):
			walk(t.args[0])
			return
		}
		add(spart{t: t})
	}
	walk(t)
	return out
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBytes(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

type fpart struct {
	s    string
	verb bool
}

func splitFormat(f string, n int) ([]fpart, bool) {
	var out []fpart
	cur := ""
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			cur += string(f[i])
			continue
		}
		if i+1 >= len(f) {
			return nil, false
		}
		i++
		if f[i] == '%' {
			cur += "%"
			continue
		}
		if !strings.ContainsRune("sdv", rune(f[i])) {
			return nil, false
		}
		out = append(out, fpart{s: cur}, fpart{verb: true})
		cur = ""
		k++
	}
	out = append(out, fpart{s: cur})
	return out, k == n
}

func sameParts(a, b []spart) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].s != b[i].s || a[i].t != b[i].t {
			return false
		}
	}
	return true
}

func showParts(ps []spart) string {
	var s []string
	for _, p := range ps {
		if p.t == nil {
			s = append(s, strconv.Quote(p.s))
		} else {
			s = append(s, p.t.String())
		}
	}
	return strings.Join(s, "+")
}

// nonEmpty: the string is known not to be empty
func (s *Sim) nonEmpty(st *State, t *Term) bool {
	if str, ok := t.str(); ok {
		return str != ""
	}
	emp := s.T.constVal(constantString(""), types.Typ[types.String])
	if s.truth(st, s.T.bin(tokEQL, t, emp, nil)) == -1 {
		return true
	}
	return s.positive(st, s.lenOf(st, t))
}

// positive: 0 < n is known
func (s *Sim) positive(st *State, n *Term) bool {
	if k, ok := n.int64(); ok {
		return k > 0
	}
	z := s.T.intConst(0)
	return s.truth(st, s.T.bin(tokLSS, z, n, nil)) == 1 || s.truth(st, s.T.bin(tokEQL, z, n, nil)) == -1 ||
		s.truth(st, s.T.bin(tokLSS, n, s.T.intConst(1), nil)) == -1
}

const (
	tokEQL = token.EQL
	tokLEQ = token.LEQ
	tokADD = token.ADD
	tokSUB = token.SUB
	tokLSS = token.LSS
)

func constantString(s string) constant.Value { return constant.MakeString(s) }

func constantInt(n int64) constant.Value { return constant.MakeInt64(n) }
