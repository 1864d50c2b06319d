package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// SV is a specification value.
type SV struct {
	T   types.Type
	L   []Term
	loc *Loc
	A   *Addr // pointer into a larger value
}

type Loc struct {
	env   *Env // heap context
	elemT types.Type
	ref   Term
	idx   Term
	start int
	n     int
}

type Env struct {
	v         *Verifier
	st        *State
	old       *State
	useOld    bool
	vars      map[string]*SV
	oldvars   map[string]*SV
	fr        *Frame
	hdr       *ssa.BasicBlock
	pkg       *types.Package
	heapSym   map[string]Term
	fuel      Term
	depth     int
	file      string
	loopEntry *State
	inQuant   int
	oldFr     *Frame
	pre       *State // the state before the call a clause follows
}

func (e *Env) sub() *Env {
	n := *e
	n.vars = map[string]*SV{}
	for k, v := range e.vars {
		n.vars[k] = v
	}
	return &n
}

func (e *Env) fail(x *Expr, f string, a ...interface{}) {
	line := 0
	if x != nil {
		line = x.Line
	}
	panic(specErr{fmt.Sprintf("%s:%d: %s in %s", e.file, line, fmt.Sprintf(f, a...), x)})
}

func (e *Env) heapLeaf(t types.Type, i int) Term {
	e.v.regHeap(t)
	k := heapKey(t, layout(t)[i])
	if e.heapSym != nil {
		h, ok := e.heapSym[k]
		if !ok {
			panic(specErr{fmt.Sprintf("%s: function body reads heap %s not in its reads clause", e.file, k)})
		}
		return h
	}
	st := e.st
	if e.useOld {
		st = e.old
	}
	if st == nil {
		panic(specErr{"heap access without state: " + k})
	}
	return e.v.heapOf(st, t, i)
}

func (e *Env) mat(s *SV) []Term {
	if s.L != nil || s.loc == nil {
		return s.L
	}
	l := s.loc
	out := make([]Term, l.n)
	for k := 0; k < l.n; k++ {
		out[k] = Sel2(l.env.heapLeaf(l.elemT, l.start+k), l.ref, l.idx)
	}
	s.L = out
	return out
}

func (e *Env) one(s *SV, x *Expr) Term {
	l := e.mat(s)
	if len(l) != 1 {
		e.fail(x, "scalar value expected, have %v", s.T)
	}
	return l[0]
}

func isPtr(t types.Type) (types.Type, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem(), true
	}
	return nil, false
}

// heapType is the type whose heap a modifies clause names: maps are kept in a heap of their own.
func (v *Verifier) heapType(pkg *types.Package, s string) types.Type {
	t := v.resolveType(pkg, s)
	if _, ok := t.Underlying().(*types.Map); ok {
		if e, ok := mapElem(t); ok {
			return e
		}
	}
	return t
}

func (v *Verifier) resolveType(pkg *types.Package, s string) types.Type {
	switch s {
	case "rope":
		return TRope
	case "real":
		return TReal
	case "f64":
		return types.Typ[types.Float64]
	case "intarray":
		return TArr
	case "int":
		return TInt
	case "goint": // the int of the program, as the element of a heap
		return types.Typ[types.Int]
	case "bool":
		return TBool
	case "ref":
		return TInt
	case "interface{}", "any":
		return types.Universe.Lookup("any").Type().Underlying()
	}
	if strings.HasPrefix(s, "*") {
		return types.NewPointer(v.resolveType(pkg, s[1:]))
	}
	if strings.HasPrefix(s, "[]") {
		return types.NewSlice(v.resolveType(pkg, s[2:]))
	}
	if strings.HasPrefix(s, "map[") {
		if i := strings.IndexByte(s, ']'); i > 0 {
			return types.NewMap(v.resolveType(pkg, s[4:i]), v.resolveType(pkg, s[i+1:]))
		}
	}
	if i := strings.IndexByte(s, '.'); i >= 0 {
		for _, p := range v.allPkgs {
			if p.Name() == s[:i] && !strings.HasPrefix(p.Path(), "internal/") {
				if o := p.Scope().Lookup(s[i+1:]); o != nil {
					if tn, ok := o.(*types.TypeName); ok {
						return tn.Type()
					}
				}
			}
		}
		panic(specErr{"unknown type " + s})
	}
	if pkg != nil {
		if o := pkg.Scope().Lookup(s); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
	}
	if o := types.Universe.Lookup(s); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	panic(specErr{"unknown type " + s})
}

func mkInt(t Term) *SV  { return &SV{T: TInt, L: []Term{t}} }
func mkBool(t Term) *SV { return &SV{T: TBool, L: []Term{t}} }

func (e *Env) lookupVar(name string, x *Expr) *SV {
	if e.useOld {
		if s, ok := e.oldvars[name]; ok {
			return s
		}
	}
	if s, ok := e.vars[name]; ok {
		return s
	}
	if e.fr != nil && !e.useOld {
		if s := e.localVar(name); s != nil {
			return s
		}
	}
	if s, ok := e.oldvars[name]; ok {
		return s
	}
	if e.fr != nil {
		if s := e.localVar(name); s != nil {
			return s
		}
	}
	return nil
}

// localVar finds a local variable of the frame by name at the header.
func (e *Env) localVar(name string) *SV {
	st := e.st
	var best *ssa.Alloc
	want := 0
	nm := name
	if i := strings.IndexByte(name, '@'); i > 0 {
		fmt.Sscanf(name[i+1:], "%d", &want)
		nm = name[:i]
	}
	cnt := 0
	for _, b := range e.fr.fn.Blocks {
		for _, in := range b.Instrs {
			a, ok := in.(*ssa.Alloc)
			if !ok || a.Comment != nm {
				continue
			}
			cnt++
			if want > 0 {
				if cnt == want {
					best = a
				}
				continue
			}
			if e.hdr != nil && !b.Dominates(e.hdr) {
				continue
			}
			if _, ok := st.regs[regKey{e.fr.id, a}]; !ok {
				continue
			}
			best = a
		}
	}
	if best == nil {
		return nil
	}
	rv, ok := st.regs[regKey{e.fr.id, best}]
	if !ok {
		return nil
	}
	et := best.Type().Underlying().(*types.Pointer).Elem()
	if rv.A != nil && rv.A.local != nil {
		return &SV{T: et, L: e.v.loadAddr(st, rv.A)}
	}
	if _, isarr := et.Underlying().(*types.Array); isarr {
		return rv2sv(rv)
	}
	return &SV{T: et, loc: &Loc{env: e, elemT: et, ref: rv.L[0], idx: rv.L[1], start: 0, n: len(layout(et))}}
}

func rv2sv(v *Value) *SV { return &SV{T: v.T, L: v.L} }

func (e *Env) constVal(name string) *SV {
	if e.pkg == nil {
		return nil
	}
	o := e.pkg.Scope().Lookup(name)
	if c, ok := o.(*types.Const); ok {
		return e.constant(c.Val(), c.Type())
	}
	if vr, ok := o.(*types.Var); ok {
		// package variable
		l := layout(vr.Type())
		if g := e.v.globalOf(e.pkg, name); g != nil {
			if _, ok := vr.Type().Underlying().(*types.Struct); ok {
				return &SV{T: vr.Type(), loc: &Loc{env: e, elemT: vr.Type(), ref: e.v.globalRef(g), idx: "0", n: len(l)}}
			}
			t := e.v.globalConst(g)
			return &SV{T: vr.Type(), L: t[:len(l)]}
		}
	}
	return nil
}

func (e *Env) constant(c constant.Value, t types.Type) *SV {
	switch c.Kind() {
	case constant.Int:
		n, _ := new(big.Int).SetString(c.ExactString(), 10)
		if isFloat(t) {
			return &SV{T: t, L: []Term{e.v.floatConst(c)}}
		}
		return mkInt(BigNum(n))
	case constant.Bool:
		return mkBool(fmt.Sprint(constant.BoolVal(c)))
	case constant.String:
		s := constant.StringVal(c)
		return &SV{T: types.Typ[types.String], L: []Term{e.v.strConst(s), "0", Num(int64(len(s)))}}
	case constant.Float:
		return &SV{T: t, L: []Term{e.v.floatConst(c)}}
	}
	return nil
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (e *Env) boolTerm(x *Expr) Term {
	s := e.eval(x)
	l := e.mat(s)
	if len(l) != 1 {
		e.fail(x, "boolean expected")
	}
	return l[0]
}

func (e *Env) intTerm(x *Expr) Term {
	return e.one(e.eval(x), x)
}

func (e *Env) eval(x *Expr) *SV {
	switch x.Op {
	case "num":
		n, ok := new(big.Int).SetString(x.S, 0)
		if !ok {
			e.fail(x, "bad number")
		}
		return mkInt(BigNum(n))
	case "str":
		return &SV{T: types.Typ[types.String], L: []Term{e.v.strConst(x.S), "0", Num(int64(len(x.S)))}}
	case "type":
		return &SV{T: e.v.resolveType(e.pkg, x.S)}
	case "ident":
		switch x.S {
		case "true", "false":
			return mkBool(x.S)
		case "nil":
			return &SV{T: types.Typ[types.UntypedNil], L: []Term{"0"}}
		case "rempty":
			return &SV{T: TRope, L: []Term{"rempty"}}
		case "MAXLEN":
			return mkInt(BigNum(maxLen))
		case "maxUint":
			return mkInt("18446744073709551615")
		}
		if s := e.lookupVar(x.S, x); s != nil {
			return s
		}
		if s := e.constVal(x.S); s != nil {
			return s
		}
		e.fail(x, "unknown identifier %s", x.S)
	case "old":
		n := e.sub()
		n.useOld = true
		return n.eval(x.A[0])
	case "un":
		switch x.S {
		case "!":
			return mkBool(Not(e.boolTerm(x.A[0])))
		case "-":
			s := e.eval(x.A[0])
			return &SV{T: s.T, L: []Term{Sub("0", e.one(s, x))}}
		case "*":
			s := e.eval(x.A[0])
			return e.deref(s, x)
		}
	case "cond":
		c := e.boolTerm(x.A[0])
		a := e.eval(x.A[1])
		b := e.eval(x.A[2])
		la, lb := e.mat(a), e.mat(b)
		if len(la) != len(lb) {
			e.fail(x, "branches differ in type")
		}
		out := make([]Term, len(la))
		for i := range la {
			out[i] = Ite(c, la[i], lb[i])
		}
		t := a.T
		if t == types.Typ[types.UntypedNil] {
			t = b.T
		}
		return &SV{T: t, L: out}
	case "let":
		n := e.sub()
		s := e.eval(x.A[0])
		n.vars[x.S] = s
		return n.eval(x.A[1])
	case "bin":
		return e.bin(x)
	case "quant":
		return e.quant(x)
	case "sel":
		return e.sel(x)
	case "idx":
		s := e.eval(x.A[0])
		i := e.intTerm(x.A[1])
		return e.index(s, i, x)
	case "call":
		return e.call(x)
	}
	e.fail(x, "cannot evaluate %s", x.Op)
	return nil
}

func (e *Env) deref(s *SV, x *Expr) *SV {
	et, ok := isPtr(s.T)
	if !ok {
		e.fail(x, "dereference of non pointer %v", s.T)
	}
	if a := s.A; a != nil {
		return &SV{T: et, loc: &Loc{env: e, elemT: a.elemT, ref: a.ref, idx: a.idx, start: a.start, n: a.n}}
	}
	l := e.mat(s)
	return &SV{T: et, loc: &Loc{env: e, elemT: et, ref: l[0], idx: l[1], n: len(layout(et))}}
}

func (e *Env) index(s *SV, i Term, x *Expr) *SV {
	switch u := s.T.Underlying().(type) {
	case *types.Slice:
		var ref, off Term
		if s.L == nil && s.loc != nil {
			l := s.loc
			ref = Sel2(l.env.heapLeaf(l.elemT, l.start), l.ref, l.idx)
			off = Sel2(l.env.heapLeaf(l.elemT, l.start+1), l.ref, l.idx)
		} else {
			ref, off = s.L[0], s.L[1]
		}
		return &SV{T: u.Elem(), loc: &Loc{env: e, elemT: u.Elem(), ref: ref, idx: Add(off, i), n: len(layout(u.Elem()))}}
	case *types.Basic:
		l := e.mat(s)
		if len(l) == 3 {
			return mkInt(App("SB", l[0], Add(l[1], i)))
		}
	case *specType:
		if u == TArr {
			return mkInt(Sel(e.one(s, x), i))
		}
	}
	e.fail(x, "cannot index %v", s.T)
	return nil
}

func (e *Env) sel(x *Expr) *SV {
	// package qualified name
	if q := x.A[0]; q.Op == "ident" && e.lookupVar(q.S, q) == nil && (e.pkg == nil || e.pkg.Scope().Lookup(q.S) == nil) {
		for _, p := range e.v.allPkgs {
			if p.Name() == q.S && !strings.HasPrefix(p.Path(), "internal/") && p.Scope().Lookup(x.S) != nil {
				n := *e
				n.pkg = p
				if c := n.constVal(x.S); c != nil {
					return c
				}
			}
		}
	}
	s := e.eval(x.A[0])
	if _, ok := isPtr(s.T); ok {
		s = e.deref(s, x)
	}
	tk := typeKey(s.T)
	if st, ok := s.T.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == x.S {
				start, n, ft := fieldRange(s.T, i)
				return subSV(s, start, n, ft)
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			if f := st.Field(i); f.Embedded() {
				if es, ok := f.Type().Underlying().(*types.Struct); ok {
					for j := 0; j < es.NumFields(); j++ {
						if es.Field(j).Name() == x.S {
							start, n, ft := fieldRange(s.T, i)
							start2, n2, ft2 := fieldRange(ft, j)
							_ = n
							return subSV(s, start+start2, n2, ft2)
						}
					}
				}
			}
		}
	}
	for gi, g := range e.v.spec.Ghost[tk] {
		if g.Name == x.S {
			base := len(layout(s.T)) - len(e.v.spec.Ghost[tk]) + gi
			return subSV(s, base, 1, e.v.resolveType(e.pkg, g.T))
		}
	}
	e.fail(x, "no field %s in %v", x.S, s.T)
	return nil
}

func subSV(s *SV, start, n int, t types.Type) *SV {
	if s.L == nil && s.loc != nil {
		l := *s.loc
		l.start += start
		l.n = n
		return &SV{T: t, loc: &l}
	}
	return &SV{T: t, L: s.L[start : start+n]}
}

func (e *Env) bin(x *Expr) *SV {
	op := x.S
	switch op {
	case "&&":
		return mkBool(And(e.boolTerm(x.A[0]), e.boolTerm(x.A[1])))
	case "||":
		return mkBool(Or(e.boolTerm(x.A[0]), e.boolTerm(x.A[1])))
	case "==>":
		return mkBool(Imp(e.boolTerm(x.A[0]), e.boolTerm(x.A[1])))
	case "<==>":
		return mkBool(Eq(e.boolTerm(x.A[0]), e.boolTerm(x.A[1])))
	case "==", "!=":
		a, b := e.eval(x.A[0]), e.eval(x.A[1])
		t := e.equal(a, b, x)
		if op == "!=" {
			t = Not(t)
		}
		return mkBool(t)
	}
	a, b := e.eval(x.A[0]), e.eval(x.A[1])
	la, lb := e.one(a, x), e.one(b, x)
	t := a.T
	if t == TInt {
		t = b.T
	}
	if t != TReal {
		t = TInt
	}
	switch op {
	case "<":
		return mkBool(Lt(la, lb))
	case "<=":
		return mkBool(Le(la, lb))
	case ">":
		return mkBool(Lt(lb, la))
	case ">=":
		return mkBool(Le(lb, la))
	case "+":
		if a.T == TRope {
			return &SV{T: TRope, L: []Term{Rcat(la, lb)}}
		}
		return &SV{T: t, L: []Term{Add(la, lb)}}
	case "-":
		return &SV{T: t, L: []Term{Sub(la, lb)}}
	case "*":
		return &SV{T: t, L: []Term{Mul(la, lb)}}
	case "/":
		if t == TReal {
			return &SV{T: t, L: []Term{App("/", la, lb)}}
		}
		return &SV{T: t, L: []Term{App("div", la, lb)}}
	case "%":
		return &SV{T: t, L: []Term{App("mod", la, lb)}}
	}
	e.fail(x, "bad operator %s", op)
	return nil
}

func (e *Env) equal(a, b *SV, x *Expr) Term {
	if b.T == types.Typ[types.UntypedNil] {
		return Eq(e.mat(a)[0], "0")
	}
	if a.T == types.Typ[types.UntypedNil] {
		return Eq(e.mat(b)[0], "0")
	}
	// string literal: content equality
	if len(x.A) == 2 && (x.A[0].Op == "str" || x.A[1].Op == "str") {
		lit, o := x.A[1], a
		if x.A[0].Op == "str" {
			lit, o = x.A[0], b
		}
		return e.v.strEqConst(e.mat(o), lit.S)
	}
	la, lb := e.mat(a), e.mat(b)
	if len(la) != len(lb) {
		e.fail(x, "comparison of %v and %v", a.T, b.T)
	}
	var ts []Term
	for i := range la {
		ts = append(ts, Eq(la[i], lb[i]))
	}
	return And(ts...)
}

func (e *Env) quant(x *Expr) *SV {
	n := e.sub()
	n.inQuant++
	var decl []string
	for _, qv := range x.Vars {
		t := e.v.resolveType(e.pkg, qv.T)
		ls := layout(t)
		var L []Term
		for _, l := range ls {
			e.v.counter++
			nm := fmt.Sprintf("%s%s!q%d", qv.Name, l.Path, e.v.counter)
			decl = append(decl, "("+nm+" "+l.Sort+")")
			L = append(L, nm)
		}
		n.vars[qv.Name] = &SV{T: t, L: L}
	}
	body := x.A[0]
	if len(x.Trig) == 0 && x.S == "forall" {
		// forall x :: A ==> same(..) / cell(..): one quantifier per leaf
		cons, ante := body, []*Expr(nil)
		for cons.Op == "bin" && cons.S == "==>" {
			ante = append(ante, cons.A[0])
			cons = cons.A[1]
		}
		if cons.Op == "call" && (cons.S == "same" || cons.S == "cell" || cons.S == "sameE" || cons.S == "cellE") {
			guard := "true"
			for _, a := range ante {
				guard = And(guard, n.boolTerm(a))
			}
			var ts []Term
			for _, pr := range n.samePairs(cons) {
				ts = append(ts, fmt.Sprintf("(forall (%s) (! %s :pattern (%s)))", strings.Join(decl, " "), Imp(guard, Eq(pr[0], pr[1])), pr[0]))
			}
			return mkBool(And(ts...))
		}
	}
	t := n.boolTerm(body)
	if t == "true" || t == "false" {
		return mkBool(t)
	}
	pat := ""
	for _, tr := range x.Trig {
		if len(tr) == 1 {
			// a value with several leaves: any of them triggers
			for _, l := range n.mat(n.eval(tr[0])) {
				pat += " :pattern (" + l + ")"
			}
			continue
		}
		var ps []string
		for _, p := range tr {
			s := n.eval(p)
			l := n.mat(s)
			ps = append(ps, l[0])
		}
		pat += " :pattern (" + strings.Join(ps, " ") + ")"
	}
	if pat != "" {
		t = "(! " + t + pat + ")"
	}
	return mkBool("(" + x.S + " (" + strings.Join(decl, " ") + ") " + t + ")")
}

// samePairs gives (now, old) pairs of inner arrays or cells.
func (e *Env) samePairs(x *Expr) [][2]Term {
	t := e.typeArg(x.A[0])
	if _, ok := t.Underlying().(*types.Map); ok {
		t, _ = mapElem(t) // the entries of a map
	}
	r := e.intTerm(x.A[1])
	oe := e.sub()
	oe.useOld = true
	if strings.HasSuffix(x.S, "E") {
		if e.loopEntry == nil {
			e.fail(x, "%s outside a loop", x.S)
		}
		oe.useOld = false
		oe.st = e.loopEntry
	}
	var out [][2]Term
	for i := range layout(t) {
		h, oh := e.heapLeaf(t, i), oe.heapLeaf(t, i)
		if strings.HasPrefix(x.S, "same") {
			if h == oh {
				continue
			}
			out = append(out, [2]Term{Sel(h, r), Sel(oh, r)})
		} else {
			if h == oh {
				continue
			}
			k := e.intTerm(x.A[2])
			out = append(out, [2]Term{Sel2(h, r, k), Sel2(oh, r, k)})
		}
	}
	return out
}

func (e *Env) typeArg(x *Expr) types.Type {
	if x.Op == "type" {
		return e.v.resolveType(e.pkg, x.S)
	}
	return e.v.resolveType(e.pkg, exprTypeName(x))
}

func exprTypeName(x *Expr) string {
	switch x.Op {
	case "ident":
		return x.S
	case "sel":
		return exprTypeName(x.A[0]) + "." + x.S
	case "un":
		return x.S + exprTypeName(x.A[0])
	}
	return x.String()
}

func (e *Env) call(x *Expr) *SV {
	switch x.S {
	case "len":
		s := e.eval(x.A[0])
		switch s.T.Underlying().(type) {
		case *types.Slice:
			return mkInt(e.mat(subSV(s, 2, 1, TInt))[0])
		default:
			l := e.mat(s)
			if len(l) == 3 {
				return mkInt(l[2])
			}
			if s.T == TRope {
				return mkInt(App("rlen", l[0]))
			}
		}
		e.fail(x, "len of %v", s.T)
	case "cap":
		s := e.eval(x.A[0])
		return mkInt(e.mat(subSV(s, 3, 1, TInt))[0])
	case "ref", "base", "tag":
		s := e.eval(x.A[0])
		return mkInt(e.mat(subSV(s, 0, 1, TInt))[0])
	case "off", "pidx":
		s := e.eval(x.A[0])
		return mkInt(e.mat(subSV(s, 1, 1, TInt))[0])
	case "str":
		// str(base, off, len)
		return &SV{T: types.Typ[types.String], L: []Term{e.intTerm(x.A[0]), e.intTerm(x.A[1]), e.intTerm(x.A[2])}}
	case "sub":
		// sub(x, i, j): the slice x[i:j]
		s := e.eval(x.A[0])
		l := e.mat(s)
		i, j := e.intTerm(x.A[1]), e.intTerm(x.A[2])
		if len(l) == 4 {
			return &SV{T: s.T, L: []Term{l[0], Add(l[1], i), Sub(j, i), Sub(l[3], i)}}
		}
		return &SV{T: s.T, L: []Term{l[0], Add(l[1], i), Sub(j, i)}}
	case "ptr":
		// ptr(T(X), ref, idx)
		t := e.typeArg(x.A[0])
		return &SV{T: types.NewPointer(t), L: []Term{e.intTerm(x.A[1]), e.intTerm(x.A[2])}}
	case "B":
		return mkInt(App("SB", e.intTerm(x.A[0]), e.intTerm(x.A[1])))
	case "streq":
		a, b := e.mat(e.eval(x.A[0])), e.mat(e.eval(x.A[1]))
		if x.A[0].Op == "str" {
			return mkBool(e.v.strEqConst(b, x.A[0].S))
		}
		if x.A[1].Op == "str" {
			return mkBool(e.v.strEqConst(a, x.A[1].S))
		}
		return mkBool(Eq(App("srope", a...), App("srope", b...)))
	case "strid":
		a := e.mat(e.eval(x.A[0]))
		return &SV{T: TRope, L: []Term{App("srope", a...)}}
	case "is":
		s := e.mat(e.eval(x.A[0]))
		t := e.typeArg(x.A[1])
		return mkBool(Eq(s[0], Num(int64(e.v.tagOf(t)))))
	case "implements":
		s := e.mat(e.eval(x.A[0]))
		t := e.typeArg(x.A[1])
		return mkBool(And(Not(Eq(s[0], "0")), App("implements", s[0], Num(int64(e.v.tagOf(t))))))
	case "as":
		s := e.mat(e.eval(x.A[0]))
		t := e.typeArg(x.A[1])
		return &SV{T: t, L: e.v.unboxWith(func(i int) Term { return e.heapLeaf(t, i) }, s, t)}
	case "fresh":
		s := e.mat(e.eval(x.A[0]))
		return mkBool(Le(e.old.alloc, s[0]))
	case "alloc":
		st := e.st
		if e.useOld {
			st = e.old
		}
		return mkInt(st.alloc)
	case "same", "cell", "sameE", "cellE":
		var ts []Term
		for _, p := range e.samePairs(x) {
			ts = append(ts, Eq(p[0], p[1]))
		}
		return mkBool(And(ts...))
	case "real":
		l := e.mat(e.eval(x.A[0]))
		return &SV{T: TReal, L: []Term{App("to_real", l[0])}}
	case "rope":
		s := e.eval(x.A[0])
		l := e.mat(s)
		switch s.T.Underlying().(type) {
		case *types.Slice:
			h := e.heapLeaf(types.Typ[types.Uint8], 0)
			if n, ok := numOf(l[2]); ok && n.IsInt64() && n.Int64() <= 8 {
				// a short slice: its bytes
				t := "rempty"
				for k := int64(0); k < n.Int64(); k++ {
					t = Rcat(t, App("runit", Sel2(h, l[0], Add(l[1], Num(k)))))
				}
				return &SV{T: TRope, L: []Term{t}}
			}
			return &SV{T: TRope, L: []Term{App("arope", Sel(h, l[0]), l[1], l[2])}}
		default:
			if len(l) == 3 {
				return &SV{T: TRope, L: []Term{App("srope", l...)}}
			}
		}
		e.fail(x, "rope of %v", s.T)
	case "cat":
		t := "rempty"
		for i := range x.A {
			s := e.eval(x.A[i])
			var r Term
			if s.T == TRope {
				r = e.one(s, x)
			} else if len(e.mat(s)) == 3 {
				r = App("srope", e.mat(s)...)
			} else {
				r = App("runit", e.one(s, x))
			}
			t = Rcat(t, r)
		}
		return &SV{T: TRope, L: []Term{t}}
	case "unit":
		return &SV{T: TRope, L: []Term{App("runit", e.intTerm(x.A[0]))}}
	case "inner":
		// inner(T, leafno, ref): inner array of the heap
		t := e.typeArg(x.A[0])
		return &SV{T: TArr, L: []Term{Sel(e.heapLeaf(t, 0), e.intTerm(x.A[1]))}}
	case "heapval":
		t := e.typeArg(x.A[0])
		return &SV{T: t, loc: &Loc{env: e, elemT: t, ref: e.intTerm(x.A[1]), idx: e.intTerm(x.A[2]), n: len(layout(t))}}
	case "mapat":
		// mapat(m, cell): whether there is an entry in the cell of a map, and its value
		s := e.eval(x.A[0])
		t, ok := mapElem(s.T)
		if !ok {
			e.fail(x, "mapat of %v", s.T)
		}
		return &SV{T: t, loc: &Loc{env: e, elemT: t, ref: e.one(s, x), idx: e.intTerm(x.A[1]), n: len(layout(t))}}
	case "keyat":
		// keyat(m, cell): the key of a cell of the map
		s := e.eval(x.A[0])
		m := s.T.Underlying().(*types.Map)
		return &SV{T: m.Key(), L: e.v.mapKeyAt(s.T, e.intTerm(x.A[1]))}
	case "keycell":
		// keycell(m, key): the cell of a key
		s := e.eval(x.A[0])
		return mkInt(e.v.mapKey(e.st, s.T, e.mat(e.eval(x.A[1]))))
	case "entry":
		// value at loop entry
		n := e.sub()
		if e.loopEntry == nil {
			e.fail(x, "entry() outside a loop")
		}
		n.st = e.loopEntry
		return n.eval(x.A[0])
	case "resultof", "argof", "before", "after":
		// the result of the latest call of a function; a value before or after that call (in hints only)
		if e.fr == nil {
			e.fail(x, "%s outside assert and use", x.S)
		}
		c := e.st.last[x.A[0].S]
		if c == nil {
			e.fail(x, "no call of %s on this path", x.A[0].S)
		}
		if x.S == "resultof" || x.S == "argof" {
			k := 0
			if len(x.A) > 1 {
				k, _ = strconv.Atoi(x.A[1].S)
			}
			if x.S == "argof" {
				return rv2sv(e.v.asLeaves(c.pre, c.args[k]))
			}
			return rv2sv(c.vals[k])
		}
		n := e.sub()
		n.st = c.pre.clone()
		if x.S == "after" {
			n.st = c.post.clone()
		}
		n.st.last = e.st.last
		return n.eval(x.A[1])
	case "const":
		// the value under a name of its own, which keeps its term out of the rest
		s := e.eval(x.A[0])
		if e.inQuant > 0 || e.heapSym != nil || e.st == nil {
			return s
		}
		n := &SV{T: s.T}
		ls := layout(s.T)
		for i, t := range e.mat(s) {
			c := e.v.declare(e.st, "c", ls[i].Sort)
			e.st.assume(Eq(c, t))
			n.L = append(n.L, c)
		}
		return n
	case "prev":
		pre := e.pre
		if pre == nil && e.st != nil {
			pre = e.st.lastHead
		}
		if pre == nil {
			e.fail(x, "prev() where there is no earlier state")
		}
		n := e.sub()
		n.st = pre
		return n.eval(x.A[0])
	case "calls":
		// how often a function was called on this path
		if e.st.loopy {
			e.fail(x, "calls(%s) after a loop", x.A[0].S)
		}
		return mkInt(Num(int64(e.st.count[x.A[0].S])))
	case "called":
		return mkBool(map[bool]Term{true: "true", false: "false"}[e.st.last[x.A[0].S] != nil])
	case "toreal":
		return &SV{T: TReal, L: []Term{App("to_real", e.intTerm(x.A[0]))}}
	}
	f := e.v.spec.SFuncs[x.S]
	if f == nil {
		// raw smt function call: smt_name(sort args)
		if r, ok := e.v.rawFuncs[x.S]; ok {
			var args []Term
			for _, a := range x.A {
				args = append(args, e.mat(e.eval(a))...)
			}
			return &SV{T: e.v.resolveType(e.pkg, r), L: []Term{App(x.S, args...)}}
		}
		e.fail(x, "unknown function %s", x.S)
	}
	if len(x.A) != len(f.Params) {
		e.fail(x, "%s wants %d arguments", f.Name, len(f.Params))
	}
	fpkg := e.v.pkgByPath(f.Pkg)
	if f.Macro {
		if e.depth > 40 {
			e.fail(x, "macro recursion")
		}
		n := e.sub()
		n.depth++
		n.vars = map[string]*SV{}
		n.oldvars = nil
		n.fr = nil
		n.pkg = fpkg
		n.file = f.File
		// keep bound context: arguments are evaluated in the caller's environment
		for i, pr := range f.Params {
			a := e.eval(x.A[i])
			t := e.v.resolveType(fpkg, pr.T)
			if pr.T != "int" && pr.T != "ref" {
				if nl := len(layout(t)); a.T == types.Typ[types.UntypedNil] {
					a = &SV{T: t, L: zeroLeaves(t)}
				} else if a.loc == nil && nl != len(a.L) {
					e.fail(x, "argument %d of %s: %v given, %v wanted", i, f.Name, a.T, t)
				}
				n.vars[pr.Name] = &SV{T: t, L: a.L, loc: a.loc}
			} else {
				n.vars[pr.Name] = mkInt(e.one(a, x))
			}
		}
		return n.eval(f.Body)
	}
	var args []Term
	if f.Rec {
		if e.fuel != "" {
			args = append(args, e.fuel)
		} else if f.Fuel1 {
			args = append(args, "FUEL1")
		} else {
			args = append(args, "FUEL")
		}
	}
	for i := range x.A {
		s := e.eval(x.A[i])
		l := e.mat(s)
		if s.T == types.Typ[types.UntypedNil] {
			l = zeroLeaves(e.v.resolveType(fpkg, f.Params[i].T))
		}
		if want := len(layout(e.v.resolveType(fpkg, f.Params[i].T))); want != len(l) {
			e.fail(x, "argument %d of %s: %v given, %s wanted", i, f.Name, s.T, f.Params[i].T)
		}
		args = append(args, l...)
	}
	for _, k := range e.v.readLeaves(f) {
		args = append(args, e.heapLeaf(k.elem, k.i))
	}
	return &SV{T: e.v.resolveType(fpkg, f.Res), L: []Term{App("f!"+f.Name, args...)}}
}

// readLeaves lists the heap leaves a spec function takes as parameters.
func (v *Verifier) readLeaves(f *SpecFunc) []heapInfo {
	if len(f.Reads) == 0 {
		return nil
	}
	pkg := v.pkgByPath(f.Pkg)
	var out []heapInfo
	for _, r := range f.Reads {
		t := v.heapType(pkg, r)
		v.regHeap(t)
		for i, l := range layout(t) {
			out = append(out, heapInfo{heapKey(t, l), l, t, i})
		}
	}
	return out
}

func (v *Verifier) strEqConst(l []Term, s string) Term {
	ts := []Term{Eq(l[2], Num(int64(len(s))))}
	if l[0] == v.strConst(s) && l[1] == "0" && l[2] == Num(int64(len(s))) {
		return "true"
	}
	for i := 0; i < len(s); i++ {
		ts = append(ts, Eq(App("SB", l[0], Add(l[1], Num(int64(i)))), Num(int64(s[i]))))
	}
	return And(ts...)
}

// specDefs gives the SMT definitions of the spec functions used in text.
func (v *Verifier) funcDef(f *SpecFunc) (decl string, axioms []string, deps string) {
	pkg := v.pkgByPath(f.Pkg)
	env := &Env{v: v, vars: map[string]*SV{}, pkg: pkg, file: f.File}
	var sorts, qs, args []string
	if f.Rec {
		sorts = append(sorts, "Fuel")
	}
	for _, p := range f.Params {
		t := v.resolveType(pkg, p.T)
		var L []Term
		for _, l := range layout(t) {
			n := p.Name + l.Path + "!p"
			sorts = append(sorts, l.Sort)
			qs = append(qs, "("+n+" "+l.Sort+")")
			args = append(args, n)
			L = append(L, n)
		}
		env.vars[p.Name] = &SV{T: t, L: L}
	}
	env.heapSym = map[string]Term{}
	for _, k := range v.readLeaves(f) {
		n := "hp!" + sym(k.key)
		s := "(Array Int (Array Int " + k.leaf.Sort + "))"
		sorts = append(sorts, s)
		qs = append(qs, "("+n+" "+s+")")
		args = append(args, n)
		env.heapSym[k.key] = n
	}
	res := layout(v.resolveType(pkg, f.Res))
	if len(res) != 1 {
		panic(specErr{f.File + ": function " + f.Name + " must have a scalar result"})
	}
	name := "f!" + f.Name
	if f.Body == nil {
		return "(declare-fun " + name + " (" + strings.Join(sorts, " ") + ") " + res[0].Sort + ")", nil, ""
	}
	if !f.Rec && f.Folded {
		body := env.one(env.eval(f.Body), f.Body)
		decl = "(declare-fun " + name + " (" + strings.Join(sorts, " ") + ") " + res[0].Sort + ")"
		lhs := App(name, args...)
		axioms = append(axioms, fmt.Sprintf("(assert (forall (%s) (! (= %s %s) :pattern (%s))))", strings.Join(qs, " "), lhs, body, lhs))
		return decl, axioms, body
	}
	if !f.Rec {
		body := env.one(env.eval(f.Body), f.Body)
		return "(define-fun " + name + " (" + strings.Join(qs, " ") + ") " + res[0].Sort + " " + body + ")", nil, body
	}
	env.fuel = "ly"
	body := env.one(env.eval(f.Body), f.Body)
	decl = "(declare-fun " + name + " (" + strings.Join(sorts, " ") + ") " + res[0].Sort + ")"
	lhs := App(name, append([]Term{"(LS ly)"}, args...)...)
	low := App(name, append([]Term{"ly"}, args...)...)
	q := "(ly Fuel) " + strings.Join(qs, " ")
	axioms = append(axioms, fmt.Sprintf("(assert (forall (%s) (! (= %s %s) :pattern (%s))))", q, lhs, body, lhs))
	axioms = append(axioms, fmt.Sprintf("(assert (forall (%s) (! (= %s %s) :pattern (%s))))", q, lhs, low, lhs))
	return decl, axioms, body
}

// markRecursive finds the recursive spec functions.
func (v *Verifier) markRecursive() {
	deps := map[string]map[string]bool{}
	var walk func(x *Expr, d map[string]bool)
	walk = func(x *Expr, d map[string]bool) {
		if x == nil {
			return
		}
		if x.Op == "call" {
			d[x.S] = true
		}
		for _, a := range x.A {
			walk(a, d)
		}
		for _, t := range x.Trig {
			for _, a := range t {
				walk(a, d)
			}
		}
	}
	for n, f := range v.spec.SFuncs {
		d := map[string]bool{}
		walk(f.Body, d)
		deps[n] = d
	}
	var reach func(n string, seen map[string]bool)
	reach = func(n string, seen map[string]bool) {
		for m := range deps[n] {
			if !seen[m] {
				seen[m] = true
				reach(m, seen)
			}
		}
	}
	v.sccOf = map[string]map[string]bool{}
	for n, f := range v.spec.SFuncs {
		seen := map[string]bool{}
		reach(n, seen)
		v.sccOf[n] = seen
		f.Rec = seen[n]
		if f.Rec && f.Macro {
			panic(specErr{"recursive macro " + n})
		}
	}
}

func keysOf(m map[string]*SV) string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

// known tells if all calls a hint speaks of happened on this path.
func (e *Env) known(x *Expr) bool {
	if x == nil {
		return true
	}
	if x.Op == "call" && (x.S == "resultof" || x.S == "argof" || x.S == "before" || x.S == "after" || x.S == "since") && e.st.last[x.A[0].S] == nil && !(x.A[0].S == "loop" && e.st.lastHead != nil) {
		return false
	}
	for _, a := range x.A {
		if !e.known(a) {
			return false
		}
	}
	return true
}

func (e *Env) known2(c *Clause) bool {
	if c.Kind != "use" && c.Kind != "assert" {
		return true
	}
	return len(c.E) == 0 || e.known(c.E[0])
}
