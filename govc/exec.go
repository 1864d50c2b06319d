package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Frame is one activation of a function being executed symbolically.
type Frame struct {
	id     int
	fn     *ssa.Function
	spec   *FuncSpec
	entry  *State   // state at function entry (for old)
	params []*Value // entry values of parameters
	ret    func(st *State, vals []*Value)
	parent *Frame
	depth  int
	root   bool
	pm     map[string]*SV
}

func (v *Verifier) newFrame(fn *ssa.Function, parent *Frame) *Frame {
	v.frames++
	d := 0
	if parent != nil {
		d = parent.depth + 1
	}
	return &Frame{id: v.frames, fn: fn, parent: parent, depth: d}
}

func (v *Verifier) paramNames(fn *ssa.Function, spec *FuncSpec) []string {
	var out []string
	for i, p := range fn.Params {
		if spec != nil && i < len(spec.Params) {
			out = append(out, spec.Params[i])
		} else {
			out = append(out, p.Name())
		}
	}
	return out
}

func resultNames(sig *types.Signature, spec *FuncSpec) []string {
	var out []string
	for i := 0; i < sig.Results().Len(); i++ {
		switch {
		case spec != nil && i < len(spec.Results):
			out = append(out, spec.Results[i])
		case sig.Results().At(i).Name() != "" && sig.Results().At(i).Name() != "_":
			out = append(out, sig.Results().At(i).Name())
		default:
			out = append(out, fmt.Sprintf("r%d", i))
		}
	}
	return out
}

// useClause tells if the clause belongs to the slice being verified.
func (v *Verifier) useClause(c *Clause) bool {
	if len(c.Tags) == 0 || v.slice == "" {
		return true
	}
	for _, t := range c.Tags {
		if v.slices[t] {
			return true
		}
	}
	return false
}

func (v *Verifier) clauses(fs *FuncSpec, kind string) []*Clause {
	var out []*Clause
	if fs == nil {
		return nil
	}
	for _, c := range fs.Clauses {
		if c.Kind == kind && v.useClause(c) {
			out = append(out, c)
		}
	}
	return out
}

func (fr *Frame) env(v *Verifier, st *State) *Env {
	e := &Env{v: v, st: st, old: fr.entry, vars: map[string]*SV{}, oldvars: map[string]*SV{}, pkg: fr.fn.Pkg.Pkg}
	if fr.spec != nil {
		e.file = fr.spec.File
	}
	for k, s := range fr.pm {
		e.oldvars[k] = s
	}
	return e
}

// VerifyFunc generates the obligations of a function.
func (v *Verifier) VerifyFunc(fn *ssa.Function, spec *FuncSpec) (err error) {
	v.curFunc = v.fnName(fn)
	v.curRoot = fn
	n0 := len(v.obls)
	v.counter = 0
	v.base = n0
	for _, c := range spec.Clauses {
		if c.Kind == "option" && strings.HasPrefix(c.Text, "reveal ") {
			v.reveals[v.curFunc+" "+c.Text[7:]] = true
		}
	}
	v.steps = 0
	v.cuts = map[loopID]bool{}
	v.returns = nil
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case Unsupported:
				v.obls = append(v.obls, &Obl{Func: v.curFunc, Kind: "unsupported", Desc: x.msg, Pos: v.prog.Fset.Position(v.curPos), Goal: "false", Status: "failed", Solver: "govc", ID: fmt.Sprintf("%s#u%d", v.curFunc, n0)})
			case specErr:
				v.obls = append(v.obls, &Obl{Func: v.curFunc, Kind: "contract", Desc: x.msg, Pos: v.prog.Fset.Position(fn.Pos()), Goal: "false", Status: "failed", Solver: "govc", ID: fmt.Sprintf("%s#c%d", v.curFunc, n0)})
			default:
				panic(r)
			}
		}
	}()
	st := &State{heap: map[string]Term{}, regs: map[regKey]*Value{}, locals: map[regKey][]Term{}, loops: map[loopID]*loopCtx{}, alloc: "A0"}
	fr := v.newFrame(fn, nil)
	fr.spec = spec
	fr.root = true
	fr.pm = map[string]*SV{}
	names := v.paramNames(fn, spec)
	for i, p := range fn.Params {
		val := &Value{T: p.Type(), L: v.freshVal(st, names[i], p.Type())}
		st.regs[regKey{fr.id, p}] = val
		fr.params = append(fr.params, val)
		fr.pm[names[i]] = rv2sv(val)
		if p.Name() != "" && p.Name() != "_" {
			if _, ok := fr.pm[p.Name()]; !ok {
				fr.pm[p.Name()] = rv2sv(val)
			}
		}
	}
	fr.entry = st.clone()
	env := fr.env(v, st)
	env.vars = fr.pm
	for _, c := range v.clauses(spec, "requires") {
		st.assume(env.boolTerm(c.E[0]))
	}
	for _, c := range v.clauses(spec, "assume") {
		st.assume(env.boolTerm(c.E[0]))
		v.note("assumed in " + v.curFunc + ": " + c.Text)
	}
	fr.entry = st.clone()
	env = fr.env(v, st)
	env.vars = fr.pm
	for _, c := range v.clauses(spec, "use") {
		if c.Where == "" || c.Where == "entry" {
			v.useLemma(env, st, c)
		}
	}
	fr.entry = st.clone()
	v.entryMeasure = nil
	if ds := v.clauses(spec, "decreases"); len(ds) > 0 {
		for _, d := range ds[0].E {
			v.entryMeasure = append(v.entryMeasure, env.intTerm(d))
		}
	}
	v.entryChain = st.ch
	rnames := resultNames(fn.Signature, spec)
	fr.ret = func(st *State, vals []*Value) {
		env := fr.env(v, st)
		for k, s := range fr.pm {
			env.vars[k] = s
		}
		for i, val := range vals {
			env.vars[rnames[i]] = rv2sv(v.asLeaves(st, val))
		}
		env.vars["result"] = nil
		if len(vals) == 1 {
			env.vars["result"] = rv2sv(v.asLeaves(st, vals[0]))
		} else {
			delete(env.vars, "result")
		}
		env.fr = fr
		for _, c := range v.clauses(spec, "use") {
			if c.Where == "return" && env.known(c.E[0]) {
				v.useLemma(env, st, c)
			}
		}
		for _, c := range v.clauses(spec, "assert") {
			if c.Where == "return" && env.known(c.E[0]) {
				v.oblige(st, env.boolTerm(c.E[0]), "assert", c.Text, v.curPos, c.Tags)
			}
		}
		env.fr = nil
		for _, c := range v.clauses(spec, "ensures") {
			v.oblige(st, env.boolTerm(c.E[0]), "ensures", c.Text, v.curPos, c.Tags)
		}
		v.frameObligations(st, fr, env)
		v.returns = append(v.returns, st.ch)
	}
	v.run(st, fr, fn.Blocks[0], nil, 0)
	return nil
}

// frameObligations checks that only what the contract names is modified.
func (v *Verifier) frameObligations(st *State, fr *Frame, env *Env) {
	heapAll := map[string]bool{}
	type cellT struct {
		r, i     Term
		start, n int
	}
	cells := map[string][]cellT{}
	for _, c := range v.clauses(fr.spec, "modifies") {
		for _, x := range c.E {
			if x.Op == "heap" {
				heapAll[typeKey(v.heapType(env.pkg, x.S))] = true
				continue
			}
			oe := fr.env(v, fr.entry)
			oe.vars = fr.pm
			s := oe.lvalue(x)
			cells[typeKey(s.elemT)] = append(cells[typeKey(s.elemT)], cellT{oe.matTerm(s.ref), s.idx, s.start, s.n})
		}
	}
	var keys = map[string]bool{}
	for k := range st.heap {
		keys[k] = true
	}
	for _, k := range sortedKeys(keys) {
		hi := v.heapLeaf[k]
		tk := typeKey(hi.elem)
		if heapAll[tk] {
			continue
		}
		h0, ok := fr.entry.heap[k]
		if !ok {
			h0 = "H0!" + sym(k)
		}
		h1 := st.heap[k]
		if h0 == h1 {
			continue
		}
		r, i := v.fresh("fr"), v.fresh("fi")
		st.cmd("(declare-const " + r + " Int)")
		st.cmd("(declare-const " + i + " Int)")
		pre := []Term{Le("0", r), Lt(r, fr.entry.alloc)}
		for _, c := range cells[tk] {
			if c.start <= hi.i && hi.i < c.start+c.n {
				pre = append(pre, Not(And(Eq(r, c.r), Eq(i, c.i))))
			}
		}
		v.oblige(st, Imp(And(pre...), Eq(Sel2(h1, r, i), Sel2(h0, r, i))), "frame", "heap "+k+" modified outside the modifies clause", v.curPos, nil)
	}
}

func (e *Env) matTerm(t Term) Term { return t }

// lvalue evaluates a modifies target: *p, p.f
func (e *Env) lvalue(x *Expr) *Loc {
	s := e.eval(x)
	if s.loc == nil {
		e.fail(x, "modifies target is not a location")
	}
	return s.loc
}

// whole tells if a pointer of type t to the address is a pointer to a whole heap element
func (a *Addr) whole(t types.Type) bool {
	if a.local != nil || a.start != 0 || a.n != len(layout(a.elemT)) {
		return false
	}
	et, ok := isPtr(t)
	return !ok || typeKey(et) == typeKey(a.elemT)
}

func (v *Verifier) asLeaves(st *State, val *Value) *Value {
	if val.L != nil || val.A == nil {
		return val
	}
	a := val.A
	if a.whole(val.T) {
		return &Value{T: val.T, L: []Term{a.ref, a.idx}}
	}
	// interior pointer: opaque
	unsupported("address of a part of %v escapes", a.elemT)
	return nil
}

func (v *Verifier) useLemma(env *Env, st *State, c *Clause) {
	for _, x := range c.E {
		st.assume(v.lemmaInst(env, x))
	}
}

// lemmaInst is requires ==> ensures of a lemma for the given arguments; "forall ... :: lemma(..)" is allowed.
func (v *Verifier) lemmaInst(env *Env, x *Expr) Term {
	if x.Op == "bin" && x.S == "==>" {
		return Imp(env.boolTerm(x.A[0]), v.lemmaInst(env, x.A[1]))
	}
	if x.Op == "let" {
		n := env.sub()
		n.vars[x.S] = env.eval(x.A[0])
		return v.lemmaInst(n, x.A[1])
	}
	if x.Op == "quant" {
		n := env.sub()
		var decl []string
		for _, qv := range x.Vars {
			t := v.resolveType(env.pkg, qv.T)
			var L []Term
			for _, l := range layout(t) {
				v.counter++
				nm := fmt.Sprintf("%s%s!q%d", qv.Name, l.Path, v.counter)
				decl = append(decl, "("+nm+" "+l.Sort+")")
				L = append(L, nm)
			}
			n.vars[qv.Name] = &SV{T: t, L: L}
		}
		body := v.lemmaInst(n, x.A[0])
		pat := ""
		for _, tr := range x.Trig {
			var ps []string
			for _, p := range tr {
				ps = append(ps, n.mat(n.eval(p))[0])
			}
			pat += " :pattern (" + strings.Join(ps, " ") + ")"
		}
		if pat != "" {
			body = "(! " + body + pat + ")"
		}
		return "(forall (" + strings.Join(decl, " ") + ") " + body + ")"
	}
	if x.Op == "call" && x.S == "since" {
		// since(F, lemma(..)): a two-state lemma whose earlier state is that after the latest call of F
		n := env.sub()
		if c := env.st.last[x.A[0].S]; c != nil {
			n.pre = c.post.clone()
		} else if x.A[0].S == "loop" && env.st.lastHead != nil {
			n.pre = env.st.lastHead
		} else {
			env.fail(x, "no call of %s on this path", x.A[0].S)
		}
		return v.lemmaInst(n, x.A[1])
	}
	if x.Op == "call" && x.S == "reveal" {
		// the definition of an opaque function, at one place
		n, a := env, x.A[0]
		if a.Op == "old" {
			n = env.sub()
			n.useOld = true
			a = a.A[0]
		}
		for a.Op == "call" && v.spec.SFuncs[a.S] != nil && v.spec.SFuncs[a.S].Macro {
			m := v.spec.SFuncs[a.S]
			k := n.sub()
			k.vars = map[string]*SV{}
			k.oldvars, k.fr, k.pkg, k.file = nil, nil, v.pkgByPath(m.Pkg), m.File
			for i, p := range m.Params {
				s := n.eval(a.A[i])
				k.vars[p.Name] = &SV{T: v.resolveType(k.pkg, p.T), L: s.L, loc: s.loc}
			}
			n, a = k, m.Body
		}
		f := v.spec.SFuncs[a.S]
		if a.Op != "call" || f == nil || !f.Opaque {
			env.fail(x, "reveal wants a call of an opaque function")
		}
		app := n.boolTerm(a)
		k := n.sub()
		k.vars = map[string]*SV{}
		k.oldvars, k.fr, k.pkg, k.file = nil, nil, v.pkgByPath(f.Pkg), f.File
		for i, p := range f.Params {
			s := n.eval(a.A[i])
			t := v.resolveType(k.pkg, p.T)
			k.vars[p.Name] = &SV{T: t, L: n.mat(s)}
		}
		return Eq(app, k.boolTerm(f.Body))
	}
	if x.Op != "call" || v.spec.Lemmas[x.S] == nil {
		env.fail(x, "unknown lemma %s", x.S)
	}
	l := v.spec.Lemmas[x.S]
	v.usedLemmas[l.Name] = true
	pkg := v.pkgByPath(l.Pkg)
	n := &Env{v: v, st: env.st, old: env.old, useOld: env.useOld, vars: map[string]*SV{}, pkg: pkg, file: l.File, heapSym: env.heapSym}
	if l.TwoState {
		n.oldvars = n.vars
		if env.pre != nil {
			n.old = env.pre
		}
		if n.useOld || n.old == nil {
			env.fail(x, "two-state lemma used where there is no earlier state")
		}
		for _, f := range l.Fixed {
			t := v.heapType(pkg, f)
			for i := range layout(t) {
				if v.heapOf(n.st, t, i) != v.heapOf(n.old, t, i) {
					env.fail(x, "memory of %s may differ between the states", f)
				}
			}
		}
	}
	if len(x.A) != len(l.Params) {
		env.fail(x, "lemma %s wants %d arguments", l.Name, len(l.Params))
	}
	for i, p := range l.Params {
		s := env.eval(x.A[i])
		n.vars[p.Name] = &SV{T: v.resolveType(pkg, p.T), L: s.L, loc: s.loc}
	}
	var pre, post []Term
	for _, c := range l.Req {
		pre = append(pre, n.boolTerm(c.E[0]))
	}
	for _, c := range l.Ens {
		post = append(post, n.boolTerm(c.E[0]))
	}
	return Imp(And(pre...), And(post...))
}

// ---- blocks

func (v *Verifier) run(st *State, fr *Frame, b *ssa.BasicBlock, from *ssa.BasicBlock, k int) {
	if k == 0 {
		v.steps++
		if v.steps > 60000 {
			unsupported("too many paths in %s", fr.fn)
		}
		st.trace = append(st.trace, fmt.Sprintf("%s.%d", fr.fn.Name(), b.Index))
		// phis
		var pv []*Value
		var phis []*ssa.Phi
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				for i, p := range b.Preds {
					if p == from {
						phis = append(phis, ph)
						pv = append(pv, v.val(st, fr, ph.Edges[i]))
						break
					}
				}
			}
		}
		for i, ph := range phis {
			st.regs[regKey{fr.id, ph}] = pv[i]
		}
		li := v.loopsOf(fr.fn)
		if lp := li.headers[b]; lp != nil {
			if !v.loopHeader(st, fr, lp, from) {
				return
			}
		}
	}
	for ; k < len(b.Instrs); k++ {
		in := b.Instrs[k]
		if in.Pos().IsValid() {
			v.curPos = in.Pos()
		}
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.RunDefers:
			if len(st.defers[fr.id]) > 0 {
				kk := k + 1
				v.runDefers(st, fr, func(st *State) { v.run(st, fr, b, from, kk) })
				return
			}
		case *ssa.Defer:
			if _, ok := x.Call.Value.(*ssa.Builtin); ok {
				unsupported("deferred builtin")
			}
			for _, lp := range v.loopsOf(fr.fn).headers {
				if lp.blocks[b] {
					unsupported("defer in a loop")
				}
			}
			if x.Call.IsInvoke() {
				v.oblige(st, Not(Eq(v.val(st, fr, x.Call.Value).L[0], "0")), "safety", "method call on a nil interface", x.Pos(), nil)
			}
			l := st.defers[fr.id]
			st.setDefers(fr.id, append(l[:len(l):len(l)], deferred{x, v.callArgs(st, fr, &x.Call)}))
		case *ssa.If:
			c := v.val(st, fr, x.Cond).L[0]
			if c == "true" || c == "false" {
				i := 0
				if c == "false" {
					i = 1
				}
				v.run(st, fr, b.Succs[i], b, 0)
				return
			}
			s2 := st.clone()
			st.assume(c)
			pos := v.curPos
			v.run(st, fr, b.Succs[0], b, 0)
			v.curPos = pos
			s2.assume(Not(c))
			v.run(s2, fr, b.Succs[1], b, 0)
			return
		case *ssa.Jump:
			v.run(st, fr, b.Succs[0], b, 0)
			return
		case *ssa.Return:
			var vals []*Value
			for _, r := range x.Results {
				vals = append(vals, v.val(st, fr, r))
			}
			fr.ret(st, vals)
			return
		case *ssa.Panic:
			v.oblige(st, "false", "safety", "panic is reachable", x.Pos(), nil)
			return
		case *ssa.Call:
			kk := k + 1
			v.call(st, fr, x, func(st *State, vals []*Value) {
				var r *Value
				if len(vals) == 1 {
					r = vals[0]
				} else {
					r = &Value{T: x.Type()}
					for _, w := range vals {
						r.L = append(r.L, v.asLeaves(st, w).L...)
					}
				}
				if r != nil && (r.L != nil || r.A != nil) {
					st.regs[regKey{fr.id, x}] = r
				}
				v.run(st, fr, b, from, kk)
			})
			return
		default:
			v.instr(st, fr, in)
		}
	}
}

func (v *Verifier) set(st *State, fr *Frame, r ssa.Value, val *Value) {
	if val.L != nil {
		ls := layout(r.Type())
		if len(ls) == len(val.L) {
			n := make([]Term, len(ls))
			for i := range ls {
				n[i] = v.name(st, val.L[i], ls[i].Sort)
			}
			val = &Value{T: r.Type(), L: n, A: val.A}
		}
	}
	st.regs[regKey{fr.id, r}] = val
}

func (v *Verifier) val(st *State, fr *Frame, x ssa.Value) *Value {
	switch c := x.(type) {
	case *ssa.Const:
		return &Value{T: c.Type(), L: v.constLeaves(c.Value, c.Type())}
	case *ssa.Global:
		et := c.Type().Underlying().(*types.Pointer).Elem()
		return &Value{T: c.Type(), A: &Addr{elemT: et, ref: v.globalRef(c), idx: "0", start: 0, n: len(layout(et)), T: et, nonnil: true, global: c.Name()}}
	case *ssa.Function:
		return &Value{T: c.Type(), L: []Term{Num(int64(v.funcID(c)))}}
	case *ssa.Builtin:
		return &Value{T: c.Type(), L: []Term{"0"}}
	}
	if r, ok := st.regs[regKey{fr.id, x}]; ok {
		return r
	}
	unsupported("value %s (%T) has no symbolic value", x.Name(), x)
	return nil
}

func (v *Verifier) constLeaves(c constant.Value, t types.Type) []Term {
	if c == nil {
		return zeroLeaves(t)
	}
	switch c.Kind() {
	case constant.Bool:
		return []Term{fmt.Sprint(constant.BoolVal(c))}
	case constant.Int:
		if isFloat(t) {
			return []Term{v.floatConst(c)}
		}
		n, _ := new(big.Int).SetString(c.ExactString(), 10)
		return []Term{BigNum(n)}
	case constant.Float:
		if !isFloat(t) {
			n, _ := new(big.Int).SetString(constant.ToInt(c).ExactString(), 10)
			return []Term{BigNum(n)}
		}
		return []Term{v.floatConst(c)}
	case constant.String:
		s := constant.StringVal(c)
		if s == "" {
			return []Term{"0", "0", "0"}
		}
		return []Term{v.strConst(s), "0", Num(int64(len(s)))}
	}
	unsupported("constant %v", c)
	return nil
}

// addr gives the location a pointer value designates, with a nil check.
func (v *Verifier) addr(st *State, fr *Frame, p *Value, pos token.Pos) *Addr {
	if p.A != nil {
		return p.A
	}
	et := p.T.Underlying().(*types.Pointer).Elem()
	v.nilCheck(st, p.L[0], pos)
	return &Addr{elemT: et, ref: p.L[0], idx: p.L[1], start: 0, n: len(layout(et)), T: et}
}

func (v *Verifier) nilCheck(st *State, ref Term, pos token.Pos) {
	if v.isFreshRef(ref) {
		return
	}
	v.oblige(st, Not(Eq(ref, "0")), "safety", "nil dereference", pos, nil)
}

func (v *Verifier) isFreshRef(t Term) bool {
	return t == "A0" || strings.HasPrefix(t, "A!") || strings.HasPrefix(t, "Gref!")
}

func (v *Verifier) instr(st *State, fr *Frame, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		et := x.Type().Underlying().(*types.Pointer).Elem()
		if at, ok := et.Underlying().(*types.Array); ok {
			r := v.allocZero(st, at.Elem())
			st.regs[regKey{fr.id, x}] = &Value{T: x.Type(), L: []Term{r, "0"}}
			return
		}
		if x.Heap {
			r := v.allocZero(st, et)
			st.regs[regKey{fr.id, x}] = &Value{T: x.Type(), L: []Term{r, "0"}}
			return
		}
		st.locals[regKey{fr.id, x}] = zeroLeaves(et)
		st.regs[regKey{fr.id, x}] = &Value{T: x.Type(), A: &Addr{local: x, fr: fr.id, start: 0, n: len(layout(et)), T: et}}
	case *ssa.Store:
		a := v.addr(st, fr, v.val(st, fr, x.Addr), x.Pos())
		val := v.val(st, fr, x.Val)
		if a.global != "" {
			unsupported("store to package variable %s", a.global)
		}
		l := v.asLeaves(st, val).L
		v.guardAccess(st, a, l, x.Pos())
		v.storeAddr(st, a, l)
	case *ssa.UnOp:
		v.unop(st, fr, x)
	case *ssa.BinOp:
		a, b := v.val(st, fr, x.X), v.val(st, fr, x.Y)
		v.set(st, fr, x, &Value{T: x.Type(), L: []Term{v.binop(st, x.Op, v.asLeaves(st, a), v.asLeaves(st, b), x.X.Type(), x.Type(), x)}})
	case *ssa.FieldAddr:
		a := v.addr(st, fr, v.val(st, fr, x.X), x.Pos())
		s, n, ft := fieldRange(a.T, x.Field)
		na := *a
		na.start, na.n, na.T = a.start+s, n, ft
		st.regs[regKey{fr.id, x}] = &Value{T: x.Type(), A: &na}
	case *ssa.Field:
		p := v.val(st, fr, x.X)
		s, n, _ := fieldRange(x.X.Type(), x.Field)
		v.set(st, fr, x, &Value{T: x.Type(), L: p.L[s : s+n]})
	case *ssa.IndexAddr:
		p := v.val(st, fr, x.X)
		i := v.val(st, fr, x.Index).L[0]
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			v.oblige(st, And(Le("0", i), Lt(i, p.L[2])), "safety", "index out of range", x.Pos(), nil)
			st.regs[regKey{fr.id, x}] = &Value{T: x.Type(), A: &Addr{elemT: u.Elem(), ref: p.L[0], idx: v.name(st, Add(p.L[1], i), "Int"), n: len(layout(u.Elem())), T: u.Elem(), nonnil: true}}
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			if p.L == nil {
				unsupported("index of array inside a struct")
			}
			v.oblige(st, And(Le("0", i), Lt(i, Num(at.Len()))), "safety", "index out of range", x.Pos(), nil)
			st.regs[regKey{fr.id, x}] = &Value{T: x.Type(), A: &Addr{elemT: at.Elem(), ref: p.L[0], idx: v.name(st, Add(p.L[1], i), "Int"), n: len(layout(at.Elem())), T: at.Elem(), nonnil: true}}
		default:
			unsupported("IndexAddr on %v", x.X.Type())
		}
	case *ssa.Index:
		v.stringIndex(st, fr, x, x.X, x.Index)
	case *ssa.Lookup:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			v.stringIndex(st, fr, x, x.X, x.Index)
			return
		}
		v.mapLookup(st, fr, x)
	case *ssa.Slice:
		v.slice_(st, fr, x)
	case *ssa.MakeSlice:
		n := v.val(st, fr, x.Len).L[0]
		c := v.val(st, fr, x.Cap).L[0]
		v.oblige(st, And(Le("0", n), Le(n, c)), "safety", "makeslice length out of range", x.Pos(), nil)
		st.assume(Le(c, BigNum(maxLen)))
		et := x.Type().Underlying().(*types.Slice).Elem()
		r := v.allocZero(st, et)
		v.set(st, fr, x, &Value{T: x.Type(), L: []Term{r, "0", n, c}})
	case *ssa.ChangeType:
		p := v.val(st, fr, x.X)
		if p.A != nil {
			st.regs[regKey{fr.id, x}] = &Value{T: x.Type(), A: p.A}
			return
		}
		v.set(st, fr, x, &Value{T: x.Type(), L: p.L})
	case *ssa.ChangeInterface:
		v.set(st, fr, x, &Value{T: x.Type(), L: v.val(st, fr, x.X).L})
	case *ssa.Convert:
		v.convert(st, fr, x)
	case *ssa.MakeInterface:
		p := v.asLeavesSoft(st, v.val(st, fr, x.X))
		v.set(st, fr, x, &Value{T: x.Type(), L: v.box(st, p, x.X.Type())})
	case *ssa.TypeAssert:
		v.typeAssert(st, fr, x)
	case *ssa.Extract:
		p := v.val(st, fr, x.Tuple)
		s, n, _ := tupleRange(x.Tuple.Type().(*types.Tuple), x.Index)
		v.set(st, fr, x, &Value{T: x.Type(), L: p.L[s : s+n]})
	case *ssa.MakeMap:
		r := v.newRef(st)
		v.set(st, fr, x, &Value{T: x.Type(), L: []Term{r}})
		v.mapInit(st, r, x.Type())
		st.gmade = append(st.gmade[:len(st.gmade):len(st.gmade)], r)
	case *ssa.MapUpdate:
		v.mapUpdate(st, fr, x)
	case *ssa.MakeClosure:
		st.regs[regKey{fr.id, x}] = &Value{T: x.Type(), L: []Term{v.declare(st, "closure", "Int")}}
	default:
		unsupported("instruction %T (%s)", in, in)
	}
}

func (v *Verifier) asLeavesSoft(st *State, p *Value) *Value {
	if p.L != nil || p.A == nil {
		return p
	}
	a := p.A
	if a.whole(p.T) {
		return &Value{T: p.T, L: []Term{a.ref, a.idx}}
	}
	r := v.declare(st, "opaque", "Int")
	st.assume(Lt("0", r))
	return &Value{T: p.T, L: []Term{r, "0"}}
}

func (v *Verifier) stringIndex(st *State, fr *Frame, x ssa.Value, sv, iv ssa.Value) {
	i := v.val(st, fr, iv).L[0]
	if c, ok := sv.(*ssa.Const); ok {
		s := constant.StringVal(c.Value)
		v.oblige(st, And(Le("0", i), Lt(i, Num(int64(len(s))))), "safety", "index out of range", x.Pos(), nil)
		v.set(st, fr, x, &Value{T: x.Type(), L: []Term{v.tableLookup(s, i)}})
		return
	}
	p := v.val(st, fr, sv)
	if len(p.L) != 3 {
		unsupported("index of %v", sv.Type())
	}
	v.oblige(st, And(Le("0", i), Lt(i, p.L[2])), "safety", "index out of range", x.Pos(), nil)
	t := App("SB", p.L[0], Add(p.L[1], i))
	n := v.declare(st, "c", "Int")
	st.assume(Eq(n, t))
	st.assume(And(Le("0", n), Le(n, "255")))
	v.set(st, fr, x, &Value{T: x.Type(), L: []Term{n}})
}

func (v *Verifier) slice_(st *State, fr *Frame, x *ssa.Slice) {
	p := v.val(st, fr, x.X)
	opt := func(w ssa.Value) Term {
		if w == nil {
			return ""
		}
		return v.val(st, fr, w).L[0]
	}
	lo, hi, max := opt(x.Low), opt(x.High), opt(x.Max)
	if lo == "" {
		lo = "0"
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Basic:
		if hi == "" {
			hi = p.L[2]
		}
		v.oblige(st, And(Le("0", lo), Le(lo, hi), Le(hi, p.L[2])), "safety", "slice bounds out of range", x.Pos(), nil)
		v.set(st, fr, x, &Value{T: x.Type(), L: []Term{p.L[0], Add(p.L[1], lo), Sub(hi, lo)}})
	case *types.Slice:
		if hi == "" {
			hi = p.L[2]
		}
		c := p.L[3]
		if max != "" {
			v.oblige(st, And(Le("0", lo), Le(lo, hi), Le(hi, max), Le(max, c)), "safety", "slice bounds out of range", x.Pos(), nil)
			c = max
		} else {
			v.oblige(st, And(Le("0", lo), Le(lo, hi), Le(hi, c)), "safety", "slice bounds out of range", x.Pos(), nil)
		}
		v.set(st, fr, x, &Value{T: x.Type(), L: []Term{p.L[0], Add(p.L[1], lo), Sub(hi, lo), Sub(c, lo)}})
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		n := Num(at.Len())
		if hi == "" {
			hi = n
		}
		v.oblige(st, And(Le("0", lo), Le(lo, hi), Le(hi, n)), "safety", "slice bounds out of range", x.Pos(), nil)
		v.set(st, fr, x, &Value{T: x.Type(), L: []Term{p.L[0], Add(p.L[1], lo), Sub(hi, lo), Sub(n, lo)}})
	default:
		unsupported("slice of %v", x.X.Type())
	}
}

func (v *Verifier) unop(st *State, fr *Frame, x *ssa.UnOp) {
	p := v.val(st, fr, x.X)
	switch x.Op {
	case token.MUL:
		if g, ok := x.X.(*ssa.Global); ok && !v.globalStored[g] {
			v.set(st, fr, x, &Value{T: x.Type(), L: v.globalConst(g)})
			return
		}
		a := v.addr(st, fr, p, x.Pos())
		v.guardAccess(st, a, nil, x.Pos())
		l := v.loadAddr(st, a)
		if a.local == nil {
			ls := layout(x.Type())
			for i := range l {
				l[i] = v.name(st, l[i], ls[i].Sort)
			}
			v.assumeValid(st, x.Type(), l)
		}
		v.set(st, fr, x, &Value{T: x.Type(), L: l})
	case token.NOT:
		v.set(st, fr, x, &Value{T: x.Type(), L: []Term{Not(p.L[0])}})
	case token.SUB:
		if isFloat(x.Type()) {
			v.set(st, fr, x, &Value{T: x.Type(), L: []Term{App("f_neg", p.L[0])}})
			return
		}
		v.set(st, fr, x, &Value{T: x.Type(), L: []Term{v.wrap(Sub("0", p.L[0]), x.Type())}})
	case token.XOR:
		lo, hi, ok := intRange(x.Type())
		if !ok {
			unsupported("^ on %v", x.Type())
		}
		if lo.Sign() == 0 {
			v.set(st, fr, x, &Value{T: x.Type(), L: []Term{Sub(BigNum(hi), p.L[0])}})
		} else {
			v.set(st, fr, x, &Value{T: x.Type(), L: []Term{Sub("(- 1)", p.L[0])}})
		}
	default:
		unsupported("unary %s", x.Op)
	}
}

// wrap reduces a mathematical integer to the range of a Go type.
func (v *Verifier) wrap(t Term, ty types.Type) Term {
	b, ok := ty.Underlying().(*types.Basic)
	if !ok {
		return t
	}
	bits, unsigned := intBits(b)
	if bits == 0 {
		return t
	}
	if n, ok := numOf(t); ok {
		m := new(big.Int).Mod(n, pow2(bits))
		if !unsigned && m.Cmp(pow2(bits-1)) >= 0 {
			m.Sub(m, pow2(bits))
		}
		return BigNum(m)
	}
	if r, ok := rangeOf(t); ok {
		if lo, hi, ok := intRange(ty); ok && lo.Cmp(r.lo) <= 0 && r.hi.Cmp(hi) <= 0 {
			return t
		}
	}
	k := "ws"
	if unsigned {
		k = "wu"
	}
	return fmt.Sprintf("(%s%d %s)", k, bits, t)
}

func (v *Verifier) binop(st *State, op token.Token, a, b *Value, xt, rt types.Type, in *ssa.BinOp) Term {
	pos := in.Pos()
	switch op {
	case token.EQL, token.NEQ:
		t := v.equalVals(st, a, b, xt, in)
		if op == token.NEQ {
			t = Not(t)
		}
		return t
	}
	bt, isB := xt.Underlying().(*types.Basic)
	if !isB {
		unsupported("binary %s on %v", op, xt)
	}
	x, y := a.L[0], b.L[0]
	if bt.Info()&types.IsString != 0 {
		if op == token.ADD {
			unsupported("string concatenation")
		}
		unsupported("string ordering")
	}
	if bt.Info()&types.IsFloat != 0 {
		switch op {
		case token.LSS:
			return App("f_lt", x, y)
		case token.LEQ:
			return App("f_le", x, y)
		case token.GTR:
			return App("f_lt", y, x)
		case token.GEQ:
			return App("f_le", y, x)
		case token.ADD:
			return App("f_add", x, y)
		case token.SUB:
			return App("f_sub", x, y)
		case token.MUL:
			return App("f_mul", x, y)
		case token.QUO:
			return App("f_div", x, y)
		}
		unsupported("float %s", op)
	}
	switch op {
	case token.LSS:
		return Lt(x, y)
	case token.LEQ:
		return Le(x, y)
	case token.GTR:
		return Lt(y, x)
	case token.GEQ:
		return Le(y, x)
	case token.ADD:
		return v.wrap(Add(x, y), rt)
	case token.SUB:
		return v.wrap(Sub(x, y), rt)
	case token.MUL:
		return v.wrap(Mul(x, y), rt)
	case token.QUO, token.REM:
		v.oblige(st, Not(Eq(y, "0")), "safety", "division by zero", pos, nil)
		q := Ite(Le("0", x), Ite(Lt("0", y), App("div", x, y), Sub("0", App("div", x, Sub("0", y)))), Ite(Lt("0", y), Sub("0", App("div", Sub("0", x), y)), App("div", Sub("0", x), Sub("0", y))))
		if _, unsigned := intBits(bt); unsigned {
			q = App("div", x, y)
		}
		if op == token.QUO {
			return v.wrap(q, rt)
		}
		if _, unsigned := intBits(bt); unsigned {
			return App("mod", x, y)
		}
		return Sub(x, Mul(y, q))
	case token.SHL:
		if n, ok := numOf(y); ok && n.IsInt64() {
			if n.Int64() >= 64 {
				return "0"
			}
			return v.wrap(Mul(x, BigNum(pow2(int(n.Int64())))), rt)
		}
		v.oblige(st, Le("0", y), "safety", "negative shift", pos, nil)
		return v.wrap(Mul(x, App("pow2_", y)), rt)
	case token.SHR:
		if n, ok := numOf(y); ok && n.IsInt64() {
			if n.Int64() >= 64 {
				return Ite(Le("0", x), "0", "(- 1)")
			}
			return App("div", x, BigNum(pow2(int(n.Int64()))))
		}
		v.oblige(st, Le("0", y), "safety", "negative shift", pos, nil)
		return App("div", x, App("pow2_", y))
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return v.bitop(st, op, x, y, rt)
	}
	unsupported("binary %s", op)
	return ""
}

// bitop encodes bitwise operations on non negative operands exactly.
func (v *Verifier) bitop(st *State, op token.Token, x, y Term, rt types.Type) Term {
	bits := 64
	if b, ok := rt.Underlying().(*types.Basic); ok {
		bits, _ = intBits(b)
	}
	nx, okx := numOf(x)
	ny, oky := numOf(y)
	if okx && oky {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(nx, ny)
		case token.OR:
			r.Or(nx, ny)
		case token.XOR:
			r.Xor(nx, ny)
		case token.AND_NOT:
			r.AndNot(nx, ny)
		}
		return BigNum(r)
	}
	if okx && !oky && op != token.AND_NOT {
		x, y, nx, ny, okx, oky = y, x, ny, nx, oky, okx
	}
	if oky {
		if ny.Sign() < 0 {
			unsupported("bit operation with a negative mask")
		}
		and := v.andConst(x, ny, bits)
		switch op {
		case token.AND:
			return and
		case token.OR:
			return Sub(Add(x, y), and)
		case token.XOR:
			return Sub(Add(x, y), Mul("2", and))
		case token.AND_NOT:
			return Sub(x, and)
		}
	}
	switch op {
	case token.AND:
		return App("band", x, y)
	case token.OR:
		return App("bor", x, y)
	case token.XOR:
		return Sub(Add(x, y), Mul("2", App("band", x, y)))
	case token.AND_NOT:
		return Sub(x, App("band", x, y))
	}
	return ""
}

// andConst is x & m for a constant m (two's complement semantics via floor div/mod).
func (v *Verifier) andConst(x Term, m *big.Int, bits int) Term {
	var parts []Term
	i := 0
	for i < m.BitLen() {
		if m.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < m.BitLen() && m.Bit(j) == 1 {
			j++
		}
		t := x
		if i > 0 {
			t = App("div", t, BigNum(pow2(i)))
		}
		t = App("mod", t, BigNum(pow2(j-i)))
		if i > 0 {
			t = Mul(t, BigNum(pow2(i)))
		}
		parts = append(parts, t)
		i = j
	}
	if len(parts) == 0 {
		return "0"
	}
	t := parts[0]
	for _, p := range parts[1:] {
		t = Add(t, p)
	}
	return t
}

// sentinel: the value of a package variable that errors.New made (of other modules: any error variable).
func (v *Verifier) sentinel(x ssa.Value) bool {
	u, ok := x.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	if !ok || v.globalStored[g] || types.TypeString(u.Type(), nil) != "error" {
		return false
	}
	return !v.repoPkgs[g.Pkg] || v.initCall(g) == "errors.New"
}

func (v *Verifier) equalVals(st *State, a, b *Value, t types.Type, in *ssa.BinOp) Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if c, ok := in.X.(*ssa.Const); ok {
				return v.strEqConst(b.L, constant.StringVal(c.Value))
			}
			if c, ok := in.Y.(*ssa.Const); ok {
				return v.strEqConst(a.L, constant.StringVal(c.Value))
			}
			return Eq(App("srope", a.L...), App("srope", b.L...))
		}
		if u.Info()&types.IsFloat != 0 {
			return App("f_eq", a.L[0], b.L[0])
		}
		return Eq(a.L[0], b.L[0])
	case *types.Slice, *types.Map, *types.Signature, *types.Chan:
		return Eq(a.L[0], b.L[0]) // only nil comparisons are legal
	case *types.Interface:
		if c, ok := in.Y.(*ssa.Const); ok && c.Value == nil {
			return Eq(a.L[0], "0")
		}
		if c, ok := in.X.(*ssa.Const); ok && c.Value == nil {
			return Eq(b.L[0], "0")
		}
		// identity of boxed values; exact for pointers and small scalars
		r := v.declare(st, "ifeq", "Bool")
		st.assume(Imp(And(Eq(a.L[0], b.L[0]), Eq(a.L[1], b.L[1]), Eq(a.L[2], b.L[2])), r))
		st.assume(Imp(Not(Eq(a.L[0], b.L[0])), Not(r)))
		if types.TypeString(t, nil) == "reflect.Type" || v.sentinel(in.X) || v.sentinel(in.Y) {
			// the dynamic type is a pointer type
			st.assume(Imp(r, And(Eq(a.L[1], b.L[1]), Eq(a.L[2], b.L[2]))))
		}
		return r
	default:
		ls := layout(t)
		var ts []Term
		for i := range ls {
			if ls[i].Kind == KStrB {
				ts = append(ts, Eq(App("srope", a.L[i:i+3]...), App("srope", b.L[i:i+3]...)))
			} else if ls[i].Kind != KStrO && ls[i].Kind != KStrL {
				ts = append(ts, Eq(a.L[i], b.L[i]))
			}
		}
		return And(ts...)
	}
}

func (v *Verifier) convert(st *State, fr *Frame, x *ssa.Convert) {
	p := v.val(st, fr, x.X)
	from, to := x.X.Type().Underlying(), x.Type().Underlying()
	fb, fok := from.(*types.Basic)
	tb, tok := to.(*types.Basic)
	switch {
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		lo1, hi1, ok1 := intRange(from)
		lo2, hi2, ok2 := intRange(to)
		if ok1 && ok2 && lo2.Cmp(lo1) <= 0 && hi1.Cmp(hi2) <= 0 {
			v.set(st, fr, x, &Value{T: x.Type(), L: p.L})
			return
		}
		v.set(st, fr, x, &Value{T: x.Type(), L: []Term{v.wrap(p.L[0], x.Type())}})
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
		v.set(st, fr, x, &Value{T: x.Type(), L: []Term{App("f_ofint", p.L[0])}})
	case fok && tok && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
		n := v.declare(st, "ftoi", "Int")
		st.assume(Eq(n, App(fmt.Sprintf("f_toint_%s", tb.Name()), p.L[0])))
		lo, hi, _ := intRange(to)
		st.assume(And(Le(BigNum(lo), n), Le(n, BigNum(hi))))
		v.set(st, fr, x, &Value{T: x.Type(), L: []Term{n}})
	case fok && tok && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
		if tb.Kind() == types.Float32 && fb.Kind() != types.Float32 {
			v.set(st, fr, x, &Value{T: x.Type(), L: []Term{App("f_to32", p.L[0])}})
			return
		}
		v.set(st, fr, x, &Value{T: x.Type(), L: p.L})
	case fok && fb.Info()&types.IsString != 0 && tok && tb.Info()&types.IsString != 0:
		v.set(st, fr, x, &Value{T: x.Type(), L: p.L})
	case fok && fb.Info()&types.IsString != 0:
		sl, ok := to.(*types.Slice)
		if !ok || typeKey(sl.Elem()) != "uint8" {
			unsupported("conversion %v to %v", x.X.Type(), x.Type())
		}
		r := v.newRef(st)
		arr := v.declare(st, "bytes", "(Array Int Int)")
		st.cmd(fmt.Sprintf("(assert (forall ((i Int)) (! (= (select %s i) (ite (and (<= 0 i) (< i %s)) (SB %s (+ %s i)) 0)) :pattern ((select %s i)))))", arr, p.L[2], p.L[0], p.L[1], arr))
		st.assume(Eq(App("arope", arr, "0", p.L[2]), App("srope", p.L...)))
		h := v.heapOf(st, sl.Elem(), 0)
		v.setHeap(st, sl.Elem(), 0, Sto(h, r, arr))
		v.set(st, fr, x, &Value{T: x.Type(), L: []Term{r, "0", p.L[2], p.L[2]}})
	case tok && tb.Info()&types.IsString != 0:
		sl, ok := from.(*types.Slice)
		if !ok || typeKey(sl.Elem()) != "uint8" {
			unsupported("conversion %v to %v", x.X.Type(), x.Type())
		}
		nb := v.declare(st, "nbase", "Int")
		in := Sel(v.heapOf(st, sl.Elem(), 0), p.L[0])
		st.cmd(fmt.Sprintf("(assert (forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (= (SB %s i) (select %s (+ %s i)))) :pattern ((SB %s i)))))", p.L[2], nb, in, p.L[1], nb))
		st.assume(Eq(App("srope", nb, "0", p.L[2]), App("arope", in, p.L[1], p.L[2])))
		v.set(st, fr, x, &Value{T: x.Type(), L: []Term{nb, "0", p.L[2]}})
	default:
		unsupported("conversion %v to %v", x.X.Type(), x.Type())
	}
}

// ---- interfaces

func (v *Verifier) tagOf(t types.Type) int {
	k := types.TypeString(t, nil)
	if n, ok := v.tags[k]; ok {
		return n
	}
	n := len(v.tags) + 1
	v.tags[k] = n
	v.tagTypes = append(v.tagTypes, t)
	return n
}

func (v *Verifier) box(st *State, p *Value, t types.Type) []Term {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return p.L
	}
	tag := Num(int64(v.tagOf(t)))
	ls := layout(t)
	ok := len(ls) <= 2
	for _, l := range ls {
		if l.Sort != "Int" && l.Sort != "Bool" {
			ok = false
		}
	}
	if ok {
		out := []Term{tag, "0", "0"}
		for i, l := range ls {
			t := p.L[i]
			if l.Sort == "Bool" {
				t = Ite(t, "1", "0")
			}
			out[1+i] = t
		}
		return out
	}
	r := v.newRef(st)
	for i := range ls {
		h := v.heapOf(st, t, i)
		v.setHeap(st, t, i, Sto2(h, r, "0", p.L[i]))
	}
	return []Term{tag, r, "0"}
}

func (v *Verifier) unbox(st *State, l []Term, t types.Type) []Term {
	return v.unboxWith(func(i int) Term { return v.heapOf(st, t, i) }, l, t)
}

func (v *Verifier) unboxWith(heap func(i int) Term, l []Term, t types.Type) []Term {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return l
	}
	ls := layout(t)
	ok := len(ls) <= 2
	for _, l := range ls {
		if l.Sort != "Int" && l.Sort != "Bool" {
			ok = false
		}
	}
	out := make([]Term, len(ls))
	if ok {
		for i, lf := range ls {
			out[i] = l[1+i]
			if lf.Sort == "Bool" {
				out[i] = Eq(l[1+i], "1")
			}
		}
		return out
	}
	for i := range ls {
		out[i] = Sel2(heap(i), l[1], "0")
	}
	return out
}

func (v *Verifier) typeAssert(st *State, fr *Frame, x *ssa.TypeAssert) {
	p := v.val(st, fr, x.X)
	var ok Term
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		if it.NumMethods() == 0 {
			ok = Not(Eq(p.L[0], "0"))
		} else {
			ok = And(Not(Eq(p.L[0], "0")), App("implements", p.L[0], Num(int64(v.tagOf(x.AssertedType)))))
		}
	} else {
		ok = Eq(p.L[0], Num(int64(v.tagOf(x.AssertedType))))
	}
	if !x.CommaOk {
		v.oblige(st, ok, "safety", "type assertion fails", x.Pos(), nil)
		l := v.unbox(st, p.L, x.AssertedType)
		v.assumeValid(st, x.AssertedType, l)
		v.set(st, fr, x, &Value{T: x.Type(), L: l})
		return
	}
	ls := layout(x.AssertedType)
	ub := v.unbox(st, p.L, x.AssertedType)
	n := v.freshVal(st, "ta", x.AssertedType)
	for i := range ls {
		st.assume(Imp(ok, Eq(n[i], ub[i])))
		st.assume(Imp(Not(ok), Eq(n[i], zeroLeaf(ls[i]))))
	}
	v.set(st, fr, x, &Value{T: x.Type(), L: append(append([]Term{}, n...), ok)})
}
