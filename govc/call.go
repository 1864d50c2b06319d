package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// calleeSpec finds the contract, the body and the signature of a call.
func (v *Verifier) calleeSpec(c *ssa.CallCommon) (*FuncSpec, *ssa.Function, *types.Signature) {
	if c.IsInvoke() {
		q := func(p *types.Package) string { return p.Name() }
		n := "(" + types.TypeString(c.Value.Type(), q) + ")." + c.Method.Name()
		sig := c.Method.Type().(*types.Signature)
		if s := v.spec.Funcs[n]; s != nil {
			return s, nil, sig
		}
		// interfaces declared in this module
		if nt, ok := c.Value.Type().(*types.Named); ok && nt.Obj().Pkg() != nil {
			if s := v.spec.Funcs[nt.Obj().Pkg().Name()+".("+nt.Obj().Name()+")."+c.Method.Name()]; s != nil {
				return s, nil, sig
			}
		}
		return nil, nil, sig
	}
	fn := c.StaticCallee()
	if fn == nil {
		return nil, nil, c.Signature()
	}
	return v.specOf(fn), fn, fn.Signature
}

func (v *Verifier) specPkg(spec *FuncSpec, fn *ssa.Function) *types.Package {
	if fn != nil && fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if spec.Pkg != "" {
		return v.pkgByPath(spec.Pkg)
	}
	return nil
}

// argInfo gives names and types of the arguments (receiver first).
func (v *Verifier) argInfo(spec *FuncSpec, fn *ssa.Function, sig *types.Signature, c *ssa.CallCommon) (names []string, typs []types.Type) {
	if fn != nil && len(fn.Params) > 0 {
		names = v.paramNames(fn, spec)
		for _, p := range fn.Params {
			typs = append(typs, p.Type())
		}
		return
	}
	if c.IsInvoke() {
		typs = append(typs, c.Value.Type())
	} else if sig.Recv() != nil {
		typs = append(typs, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		typs = append(typs, sig.Params().At(i).Type())
	}
	for i := range typs {
		if spec != nil && i < len(spec.Params) {
			names = append(names, spec.Params[i])
		} else {
			names = append(names, fmt.Sprintf("arg%d", i))
		}
	}
	return
}

func (v *Verifier) lenOf(p *Value) Term {
	switch len(p.L) {
	case 3, 4:
		return p.L[2]
	}
	unsupported("len of %v", p.T)
	return ""
}

// callArgs are the arguments of a call, the receiver first.
func (v *Verifier) callArgs(st *State, fr *Frame, c *ssa.CallCommon) (args []*Value) {
	if c.IsInvoke() {
		args = append(args, v.val(st, fr, c.Value))
	}
	for _, a := range c.Args {
		args = append(args, v.val(st, fr, a))
	}
	return
}

func (v *Verifier) call(st *State, fr *Frame, x *ssa.Call, k func(*State, []*Value)) {
	c := x.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		v.builtin(st, fr, x, b, k)
		return
	}
	v.callWith(st, fr, x, v.callArgs(st, fr, c), k)
}

// runDefers runs the deferred calls of a frame, the last one first.
func (v *Verifier) runDefers(st *State, fr *Frame, k func(*State)) {
	l := st.defers[fr.id]
	if len(l) == 0 {
		k(st)
		return
	}
	d := l[len(l)-1]
	st.setDefers(fr.id, l[:len(l)-1])
	v.callWith(st, fr, d.x, d.args, func(st *State, _ []*Value) { v.runDefers(st, fr, k) })
}

func (st *State) setDefers(fr int, l []deferred) {
	n := map[int][]deferred{fr: l}
	for k, v := range st.defers {
		if k != fr {
			n[k] = v
		}
	}
	st.defers = n
}

func (v *Verifier) callWith(st *State, fr *Frame, x ssa.CallInstruction, args []*Value, k func(*State, []*Value)) {
	c := x.Common()
	spec, fn, sig := v.calleeSpec(c)
	if c.IsInvoke() {
		v.oblige(st, Not(Eq(args[0].L[0], "0")), "safety", "method call on a nil interface", x.Pos(), nil)
	}
	if c.IsInvoke() {
		// the dynamic type is known
		if n, err := strconv.Atoi(args[0].L[0]); err == nil && n > 0 && n <= len(v.tagTypes) {
			t := v.tagTypes[n-1]
			if m := fr.fn.Prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name()); m != nil && m.Synthetic == "" {
				args[0] = &Value{T: t, L: v.unbox(st, args[0].L, t)}
				spec, fn, sig = v.specOf(m), m, m.Signature
			}
		}
	}
	if spec != nil && !spec.Inline {
		v.contractCall(st, fr, x, spec, fn, sig, args, k)
		return
	}
	if fn != nil && len(fn.Blocks) > 0 && fn.Pkg != nil && v.repoPkgs[fn.Pkg] {
		// inline
		d := 0
		for f := fr; f != nil; f = f.parent {
			if f.fn == fn {
				unsupported("recursive call of %s, which has no contract", v.fnName(fn))
			}
			d++
		}
		if d > 12 {
			unsupported("inlining too deep at %s", v.fnName(fn))
		}
		v.inlined[fn.Pkg.Pkg.Name()+"."+v.fnName(fn)] = true
		nf := v.newFrame(fn, fr)
		nf.spec = spec
		nf.pm = map[string]*SV{}
		names := v.paramNames(fn, spec)
		for i, p := range fn.Params {
			st.regs[regKey{nf.id, p}] = args[i]
			nf.params = append(nf.params, args[i])
			if args[i].L != nil || args[i].A == nil {
				nf.pm[names[i]] = rv2sv(args[i])
			} else if a := args[i].A; a.whole(args[i].T) {
				nf.pm[names[i]] = rv2sv(v.asLeaves(st, args[i]))
			}
		}
		nf.entry = st.clone()
		pos := v.curPos
		nf.ret = func(st *State, vals []*Value) {
			p := v.curPos
			v.curPos = pos
			k(st, vals)
			v.curPos = p
		}
		v.run(st, nf, fn.Blocks[0], nil, 0)
		return
	}
	name := "function value"
	if fn != nil {
		name = v.fullName(fn)
	} else if c.IsInvoke() {
		name = "(" + c.Value.Type().String() + ")." + c.Method.Name()
	}
	unsupported("call of %s, which has no contract", name)
}

func (v *Verifier) contractCall(st *State, fr *Frame, x ssa.CallInstruction, spec *FuncSpec, fn *ssa.Function, sig *types.Signature, args []*Value, k func(*State, []*Value)) {
	c := x.Common()
	pos := x.Pos()
	cname := spec.Name
	if spec.Extern {
		v.usedExtern[spec.Name] = true
	} else {
		v.usedContract[spec.Pkg+"."+spec.Name] = true
	}
	names, typs := v.argInfo(spec, fn, sig, c)
	pm := map[string]*SV{}
	for i, n := range names {
		a := args[i]
		var part *Addr
		if a.L == nil && a.A != nil {
			if a.A.local == nil && !a.A.whole(a.T) {
				part = a.A
			}
			if spec.Extern || part != nil {
				a = v.asLeavesSoft(st, a)
			} else {
				a = v.asLeaves(st, a)
			}
		}
		pm[n] = &SV{T: typs[i], L: a.L, A: part}
	}
	if spec.Extern {
		v.guardRelease(st, spec.Name, args, pos)
	}
	pre := st.clone()
	env := &Env{v: v, st: st, old: pre, vars: pm, oldvars: pm, pkg: v.specPkg(spec, fn), file: spec.File}
	for _, cl := range v.clauses(spec, "requires") {
		v.oblige(st, env.boolTerm(cl.E[0]), "precondition", "of "+cname+": "+cl.Text, pos, cl.Tags)
	}
	if fn != nil && !spec.Extern && v.mutual(v.curRoot, fn) {
		ds := v.clauses(spec, "decreases")
		if len(ds) == 0 || len(v.entryMeasure) == 0 {
			if v.slices["C01"] || v.slices["C11"] || len(v.slices) == 0 {
				v.oblige(st, "false", "termination", "recursive call of "+cname+": no measure", pos, []string{"C01", "C11"})
			} else {
				v.notes["partial correctness: that the recursion of "+cname+" ends is not proved here"] = true
			}
		} else {
			var m []Term
			for _, e := range ds[0].E {
				m = append(m, env.intTerm(e))
			}
			v.obligeDecrease(st, v.entryMeasure, m, "termination", "recursive call of "+cname, pos)
		}
	}
	pre = st.clone()
	env.old = pre
	// effects
	for _, cl := range v.clauses(spec, "option") {
		if cl.Text == "noreturn" {
			return
		}
	}
	pure := false
	for _, cl := range spec.Clauses {
		if cl.Kind == "option" && cl.Text == "pure" {
			pure = true
		}
	}
	if !pure {
		n := v.fresh("A")
		st.cmd("(declare-const " + n + " Int)")
		st.assume(Le(st.alloc, n))
		st.alloc = n
	}
	penv := *env
	penv.st = pre
	var ms = &modSet{heaps: map[string]bool{}}
	type cw struct {
		l   *Loc
		ref Term
	}
	var cws []cw
	for _, cl := range v.clauses(spec, "modifies") {
		for _, e := range cl.E {
			if e.Op == "heap" {
				t := v.heapType(env.pkg, e.S)
				v.addHeap(ms, t, 0, len(layout(t)))
				continue
			}
			l := penv.lvalue(e)
			cws = append(cws, cw{l, l.ref})
		}
	}
	done := map[string]bool{}
	for _, hkey := range sortedKeys(ms.heaps) {
		hi := v.heapLeaf[hkey]
		tk := typeKey(hi.elem)
		if !done[tk] {
			done[tk] = true
			v.havocHeap(st, hi.elem)
		}
	}
	for _, w := range cws {
		if done[typeKey(w.l.elemT)] {
			continue
		}
		ls := layout(w.l.elemT)
		vals := make([]Term, w.l.n)
		for i := 0; i < w.l.n; i++ {
			vals[i] = v.declare(st, "m"+ls[w.l.start+i].Path, ls[w.l.start+i].Sort)
		}
		a := &Addr{elemT: w.l.elemT, ref: w.l.ref, idx: w.l.idx, start: w.l.start, n: w.l.n, T: w.l.elemT}
		v.storeAddr(st, a, vals)
		full := make([]Term, len(ls))
		for i := range ls {
			full[i] = Sel2(v.heapOf(st, w.l.elemT, i), w.l.ref, w.l.idx)
		}
		for i := 0; i < w.l.n; i++ {
			full[w.l.start+i] = vals[i]
		}
		for i := w.l.start; i < w.l.start+w.l.n; i++ {
			for _, f := range leafFactsAt(ls, i, func(j int) Term { return full[j] }, st.alloc) {
				st.assume(f)
			}
		}
	}
	// results
	post := &Env{v: v, st: st, old: pre, vars: map[string]*SV{}, oldvars: pm, pkg: env.pkg, file: spec.File}
	for n, s := range pm {
		post.vars[n] = s
	}
	rn := resultNames(sig, spec)
	var vals []*Value
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		val := &Value{T: t, L: v.freshVal(st, "r."+sym(lastName(cname)), t)}
		vals = append(vals, val)
		post.vars[rn[i]] = rv2sv(val)
		if sig.Results().Len() == 1 {
			post.vars["result"] = rv2sv(val)
		}
	}
	for _, cl := range v.clauses(spec, "ensures") {
		st.assume(post.boolTerm(cl.E[0]))
	}
	if spec.Extern {
		v.guardAcquire(st, spec.Name, args)
	}
	last := map[string]*callRec{}
	for n, c := range st.last {
		last[n] = c
	}
	last[lastName(cname)] = &callRec{pre, st.clone(), vals, args}
	st.last = last
	count := map[string]int{lastName(cname): 1}
	for n, c := range st.count {
		count[n] += c
	}
	st.count = count
	// lemma uses of the caller after this call
	if fr.spec != nil {
		e := fr.env(v, st)
		e.fr = fr
		e.hdr = x.Block()
		e.pre = pre
		for _, cl := range v.clauses(fr.spec, "use") {
			if cl.Where == "after "+lastName(cname) {
				if len(vals) == 1 {
					e.vars["result"] = rv2sv(vals[0])
				}
				v.useLemma(e, st, cl)
			}
		}
		for _, cl := range v.clauses(fr.spec, "assert") {
			if cl.Where == "after "+lastName(cname) {
				if len(vals) == 1 {
					e.vars["result"] = rv2sv(vals[0])
				}
				v.oblige(st, e.boolTerm(cl.E[0]), "assert", cl.Text, pos, cl.Tags)
			}
		}
	}
	k(st, vals)
}

func lastName(s string) string {
	if i := strings.LastIndexByte(s, '.'); i >= 0 {
		return s[i+1:]
	}
	return s
}

// mutual tells if a and b call each other (directly or through others).
func (v *Verifier) mutual(a, b *ssa.Function) bool {
	return v.reaches(b, a)
}

func (v *Verifier) reaches(a, b *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == b {
			return true
		}
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && len(g.Blocks) > 0 {
						if walk(g) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return walk(a)
}

// ---- builtins

func (v *Verifier) builtin(st *State, fr *Frame, x *ssa.Call, b *ssa.Builtin, k func(*State, []*Value)) {
	c := x.Common()
	arg := func(i int) *Value { return v.val(st, fr, c.Args[i]) }
	ret := func(t ...Term) { k(st, []*Value{{T: x.Type(), L: t}}) }
	switch b.Name() {
	case "len":
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			n := v.declare(st, "maplen", "Int")
			st.assume(And(Le("0", n), Le(n, BigNum(maxLen))))
			ret(n)
			return
		}
		ret(v.lenOf(arg(0)))
	case "cap":
		ret(arg(0).L[3])
	case "append":
		v.append_(st, fr, x, k)
	case "copy":
		v.copy_(st, fr, x, k)
	case "delete":
		m := arg(0)
		e, ok := mapElem(c.Args[0].Type())
		if !ok {
			unsupported("delete on %v", c.Args[0].Type())
		}
		key := v.mapKey(st, c.Args[0].Type(), arg(1).L)
		h := v.heapOf(st, e, 0)
		v.setHeap(st, e, 0, Ite(Eq(m.L[0], "0"), h, Sto2(h, m.L[0], key, "false")))
		k(st, nil)
	case "ssa:deferstack":
		k(st, []*Value{{T: x.Type(), L: []Term{"0"}}})
	case "recover":
		k(st, []*Value{{T: x.Type(), L: zeroLeaves(x.Type())}})
	default:
		unsupported("builtin %s", b.Name())
	}
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// constLenSlice recognises the slice built for variadic arguments.
func constLenSlice(x ssa.Value) (int, bool) {
	s, ok := x.(*ssa.Slice)
	if !ok || s.Low != nil || s.High != nil || s.Max != nil {
		return 0, false
	}
	a, ok := s.X.(*ssa.Alloc)
	if !ok {
		return 0, false
	}
	at, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return 0, false
	}
	return int(at.Len()), true
}

func (v *Verifier) append_(st *State, fr *Frame, x *ssa.Call, k func(*State, []*Value)) {
	c := x.Common()
	s := v.val(st, fr, c.Args[0])
	t := v.val(st, fr, c.Args[1])
	et := x.Type().Underlying().(*types.Slice).Elem()
	ls := layout(et)
	isStr := len(t.L) == 3
	kn, known := constLenSlice(c.Args[1])
	if len(t.L) == 4 && t.L[2] == "0" {
		kn, known = 0, true
	}
	tl := t.L[2]
	n := v.name(st, Add(s.L[2], tl), "Int")
	st.assume(Le(n, BigNum(maxLen)))
	get := func(leaf int, j Term) Term {
		if isStr {
			return App("SB", t.L[0], Add(t.L[1], j))
		}
		return Sel2(v.heapOf(st, et, leaf), t.L[0], Add(t.L[1], j))
	}
	if isByte(et) {
		h := v.heapOf(st, et, 0)
		in := v.name(st, Le(n, s.L[3]), "Bool")
		fresh := v.newRef(st)
		r := v.declare(st, "ap.r", "Int")
		o := v.declare(st, "ap.o", "Int")
		cp := v.declare(st, "ap.c", "Int")
		st.assume(Ite(in, And(Eq(r, s.L[0]), Eq(o, s.L[1]), Eq(cp, s.L[3])), And(Eq(r, fresh), Eq(o, "0"), Le(n, cp), Le(cp, BigNum(maxLen)))))
		inner := v.declare(st, "ap.in", "(Array Int Int)")
		old := v.name(st, Sel(h, s.L[0]), "(Array Int Int)")
		// a nil or empty append of nothing keeps the old slice
		st.cmd(fmt.Sprintf("(assert (forall ((i Int)) (! (=> (and (<= %s i) (< i (+ %s %s))) (= (select %s i) (select %s (+ %s (- i %s))))) :pattern ((select %s i)))))", o, o, s.L[2], inner, old, s.L[1], o, inner))
		st.cmd(fmt.Sprintf("(assert (=> %s (forall ((i Int)) (! (=> (or (< i (+ %s %s)) (<= (+ %s %s) i)) (= (select %s i) (select %s i))) :pattern ((select %s i))))))", in, o, s.L[2], o, n, inner, old, inner))
		st.cmd(fmt.Sprintf("(assert (forall ((i Int)) (! (and (<= 0 (select %s i)) (<= (select %s i) 255)) :pattern ((select %s i)))))", inner, inner, inner))
		rp := App("arope", old, s.L[1], s.L[2])
		var trp Term
		if known && kn <= 8 {
			trp = "rempty"
			for j := 0; j < kn; j++ {
				e := v.name(st, get(0, Num(int64(j))), "Int")
				st.assume(Eq(Sel(inner, Add(Add(o, s.L[2]), Num(int64(j)))), e))
				trp = Rcat(trp, App("runit", e))
			}
		} else {
			var srcT Term
			if isStr {
				trp = App("srope", t.L...)
				srcT = fmt.Sprintf("(SB %s (+ %s (- i (+ %s %s))))", t.L[0], t.L[1], o, s.L[2])
			} else {
				src := v.name(st, Sel(h, t.L[0]), "(Array Int Int)")
				trp = App("arope", src, t.L[1], tl)
				srcT = fmt.Sprintf("(select %s (+ %s (- i (+ %s %s))))", src, t.L[1], o, s.L[2])
			}
			st.cmd(fmt.Sprintf("(assert (forall ((i Int)) (! (=> (and (<= (+ %s %s) i) (< i (+ %s %s))) (= (select %s i) %s)) :pattern ((select %s i)))))", o, s.L[2], o, n, inner, srcT, inner))
		}
		st.assume(Eq(App("arope", inner, o, n), Rcat(rp, trp)))
		// bytes before the slice's data in the same block keep their ropes
		st.cmd(fmt.Sprintf("(assert (=> %s (forall ((a Int) (b Int)) (! (=> (or (<= (+ a b) (+ %s %s)) (<= (+ %s %s) a)) (= (arope %s a b) (arope %s a b))) :pattern ((arope %s a b))))))", in, o, s.L[2], o, n, inner, old, inner))
		v.setHeap(st, et, 0, Sto(h, r, inner))
		st.assume(Imp(Eq(s.L[0], "0"), Imp(in, Eq(n, "0"))))
		k(st, []*Value{{T: x.Type(), L: []Term{r, o, n, cp}}})
		return
	}
	// generic element type: one path per case
	st2 := st.clone()
	// in place
	if !(s.L[3] == "0" && known && kn > 0) {
		st.assume(Le(n, s.L[3]))
		for i, l := range ls {
			h := v.heapOf(st, et, i)
			if known && kn <= 8 {
				in := Sel(h, s.L[0])
				for j := 0; j < kn; j++ {
					in = Sto(in, Add(Add(s.L[1], s.L[2]), Num(int64(j))), get(i, Num(int64(j))))
				}
				if kn > 0 {
					v.setHeap(st, et, i, Sto(h, s.L[0], in))
				}
				continue
			}
			inner := v.declare(st, "ap.in", "(Array Int "+l.Sort+")")
			src := v.name(st, Sel(h, t.L[0]), "(Array Int "+l.Sort+")")
			old := Sel(h, s.L[0])
			a := v.nameInt(st, Add(s.L[1], s.L[2]))
			b := v.nameInt(st, Add(s.L[1], n))
			st.cmd(fmt.Sprintf("(assert (forall ((i Int)) (! (= (select %s i) (ite (and (<= %s i) (< i %s)) (select %s (+ %s (- i %s))) (select %s i))) :pattern ((select %s i)))))", inner, a, b, src, t.L[1], a, old, inner))
			v.setHeap(st, et, i, Sto(h, s.L[0], inner))
		}
		pos := v.curPos
		k(st, []*Value{{T: x.Type(), L: []Term{s.L[0], s.L[1], n, s.L[3]}}})
		v.curPos = pos
	}
	// reallocated
	st = st2
	st.assume(Lt(s.L[3], n))
	ref := v.newRef(st)
	cp := v.declare(st, "ap.c", "Int")
	st.assume(And(Le(n, cp), Le(cp, BigNum(maxLen))))
	for i, l := range ls {
		h := v.heapOf(st, et, i)
		inner := v.declare(st, "ap.in", "(Array Int "+l.Sort+")")
		old := v.name(st, Sel(h, s.L[0]), "(Array Int "+l.Sort+")")
		st.cmd(fmt.Sprintf("(assert (forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (= (select %s i) (select %s (+ %s i)))) :pattern ((select %s i)))))", s.L[2], inner, old, s.L[1], inner))
		if known && kn <= 8 {
			for j := 0; j < kn; j++ {
				st.assume(Eq(Sel(inner, Add(s.L[2], Num(int64(j)))), get(i, Num(int64(j)))))
			}
		} else {
			src := v.name(st, Sel(h, t.L[0]), "(Array Int "+l.Sort+")")
			st.cmd(fmt.Sprintf("(assert (forall ((i Int)) (! (=> (and (<= %s i) (< i %s)) (= (select %s i) (select %s (+ %s (- i %s))))) :pattern ((select %s i)))))", s.L[2], n, inner, src, t.L[1], s.L[2], inner))
		}
		// the rest of the new block is zero
		st.cmd(fmt.Sprintf("(assert (forall ((i Int)) (! (=> (or (< i 0) (<= %s i)) (= (select %s i) %s)) :pattern ((select %s i)))))", n, inner, zeroLeaf(l), inner))
		v.setHeap(st, et, i, Sto(h, ref, inner))
	}
	k(st, []*Value{{T: x.Type(), L: []Term{ref, "0", n, cp}}})
}

func (v *Verifier) copy_(st *State, fr *Frame, x *ssa.Call, k func(*State, []*Value)) {
	c := x.Common()
	d := v.val(st, fr, c.Args[0])
	s := v.val(st, fr, c.Args[1])
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	ls := layout(et)
	isStr := len(s.L) == 3
	n := v.name(st, Ite(Le(d.L[2], s.L[2]), d.L[2], s.L[2]), "Int")
	a := d.L[1]
	b := v.nameInt(st, Add(a, n))
	for i, l := range ls {
		h := v.heapOf(st, et, i)
		inner := v.declare(st, "cp.in", "(Array Int "+l.Sort+")")
		old := v.name(st, Sel(h, d.L[0]), "(Array Int "+l.Sort+")")
		var src Term
		if isStr {
			src = fmt.Sprintf("(SB %s (+ %s (- i %s)))", s.L[0], s.L[1], a)
		} else {
			src = fmt.Sprintf("(select %s (+ %s (- i %s)))", v.name(st, Sel(h, s.L[0]), "(Array Int "+l.Sort+")"), s.L[1], a)
		}
		st.cmd(fmt.Sprintf("(assert (forall ((i Int)) (! (= (select %s i) (ite (and (<= %s i) (< i %s)) %s (select %s i))) :pattern ((select %s i)))))", inner, a, b, src, old, inner))
		if isByte(et) {
			var rp Term
			if isStr {
				rp = App("srope", s.L[0], s.L[1], n)
			} else {
				rp = App("arope", Sel(h, s.L[0]), s.L[1], n)
			}
			st.assume(Eq(App("arope", inner, a, n), rp))
			st.cmd(fmt.Sprintf("(assert (forall ((a Int) (b Int)) (! (=> (or (<= (+ a b) %s) (<= %s a)) (= (arope %s a b) (arope %s a b))) :pattern ((arope %s a b)))))", a, b, inner, old, inner))
			st.cmd(fmt.Sprintf("(assert (forall ((a Int) (b Int)) (! (=> (and (<= a %s) (= (+ a b) %s)) (= (arope %s a b) (rcat (arope %s a (- %s a)) %s))) :pattern ((arope %s a b)))))", a, b, inner, old, a, rp, inner))
		}
		v.setHeap(st, et, i, Sto(h, d.L[0], inner))
	}
	k(st, []*Value{{T: x.Type(), L: []Term{n}}})
}
