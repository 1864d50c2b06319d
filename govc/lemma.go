package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// lemmaSCC tells whether lemma a can reach lemma b through uses.
func (v *Verifier) lemmaReaches(a, b string) bool {
	seen := map[string]bool{}
	var walk func(n string) bool
	var inExpr func(x *Expr) bool
	inExpr = func(x *Expr) bool {
		if x == nil {
			return false
		}
		if x.Op == "call" && v.spec.Lemmas[x.S] != nil {
			if x.S == b || walk(x.S) {
				return true
			}
		}
		for _, y := range x.A {
			if inExpr(y) {
				return true
			}
		}
		return false
	}
	walk = func(n string) bool {
		if seen[n] {
			return false
		}
		seen[n] = true
		l := v.spec.Lemmas[n]
		for _, u := range l.Uses {
			for _, e := range u.E {
				if inExpr(e) {
					return true
				}
			}
		}
		return false
	}
	return walk(a)
}

// VerifyLemma generates the obligations of a lemma.
func (v *Verifier) VerifyLemma(l *Lemma) {
	v.curFunc = "lemma " + l.Name
	v.curRoot = nil
	v.curPos = token.NoPos
	n0 := len(v.obls)
	v.counter, v.base = 0, n0
	defer func() {
		if r := recover(); r != nil {
			msg := ""
			switch x := r.(type) {
			case Unsupported:
				msg = x.msg
			case specErr:
				msg = x.msg
			default:
				panic(r)
			}
			v.obls = append(v.obls, &Obl{Func: v.curFunc, Kind: "contract", Desc: msg, Goal: "false", Status: "failed", Solver: "govc", ID: fmt.Sprintf("%s#c%d", v.curFunc, n0)})
		}
	}()
	pkg := v.pkgByPath(l.Pkg)
	st := &State{heap: map[string]Term{}, alloc: "A0"}
	env := &Env{v: v, st: st, old: st, vars: map[string]*SV{}, oldvars: map[string]*SV{}, pkg: pkg, file: l.File}
	if l.TwoState {
		env.old = &State{heap: map[string]Term{}, alloc: "A1", base: "H1!"}
		for _, f := range l.Fixed {
			t := v.heapType(pkg, f)
			for i, lf := range layout(t) {
				h := v.heapOf(st, t, i)
				env.old.heap[heapKey(t, lf)] = h
				st.heap[heapKey(t, lf)] = h
			}
		}
	}
	for _, p := range l.Params {
		t := v.resolveType(pkg, p.T)
		env.vars[p.Name] = &SV{T: t, L: v.freshVal(st, p.Name, t)}
	}
	if l.TwoState {
		env.oldvars = env.vars
	}
	for _, c := range l.Req {
		st.assume(env.boolTerm(c.E[0]))
	}
	var meas []Term
	for _, d := range l.Decr {
		meas = append(meas, env.intTerm(d))
	}
	for _, c := range l.Uses {
		for _, e := range c.E {
			v.lemmaTermination(env, st, l, meas, e)
			st.assume(v.lemmaInst(env, e))
		}
	}
	for _, c := range l.Ens {
		g := env.boolTerm(c.E[0])
		if len(l.Cases) > 0 {
			rest := "true"
			for _, cs := range l.Cases {
				t := env.boolTerm(cs)
				s2 := &State{heap: st.heap, alloc: st.alloc, ch: st.ch}
				s2.assume(t)
				v.oblige(s2, g, "lemma", c.Text+" (case "+cs.String()+")", token.NoPos, l.Tags)
				rest = And(rest, Not(t))
			}
			s2 := &State{heap: st.heap, alloc: st.alloc, ch: st.ch}
			s2.assume(rest)
			v.oblige(s2, g, "lemma", c.Text+" (other cases)", token.NoPos, l.Tags)
		} else {
			s2 := &State{heap: st.heap, alloc: st.alloc, ch: st.ch}
			v.oblige(s2, g, "lemma", c.Text, token.NoPos, l.Tags)
		}
	}
}

// lemmaTermination checks that a recursive use of a lemma is on a smaller measure.
func (v *Verifier) lemmaTermination(env *Env, st *State, l *Lemma, meas []Term, x *Expr) {
	var decl []string
	guard := "true"
	n := env
	for {
		if x.Op == "bin" && x.S == "==>" {
			guard = And(guard, n.boolTerm(x.A[0]))
			x = x.A[1]
			continue
		}
		if x.Op == "quant" {
			n = n.sub()
			for _, qv := range x.Vars {
				t := v.resolveType(n.pkg, qv.T)
				n.vars[qv.Name] = &SV{T: t, L: v.freshVal(st, qv.Name, t)}
			}
			x = x.A[0]
			continue
		}
		break
	}
	_ = decl
	if x.Op != "call" {
		return
	}
	m := v.spec.Lemmas[x.S]
	if m == nil {
		env.fail(x, "unknown lemma %s", x.S)
	}
	if m.Name != l.Name && !v.lemmaReaches(m.Name, l.Name) {
		return
	}
	pkg := v.pkgByPath(m.Pkg)
	e2 := &Env{v: v, st: st, old: st, vars: map[string]*SV{}, oldvars: map[string]*SV{}, pkg: pkg, file: m.File}
	for i, p := range m.Params {
		s := n.eval(x.A[i])
		e2.vars[p.Name] = &SV{T: v.resolveType(pkg, p.T), L: s.L, loc: s.loc}
	}
	if len(m.Decr) == 0 || len(meas) == 0 {
		v.oblige(st, "false", "lemma-termination", "recursive use of "+m.Name+" without a measure", token.NoPos, nil)
		return
	}
	var nm []Term
	for _, d := range m.Decr {
		nm = append(nm, e2.intTerm(d))
	}
	s2 := &State{heap: st.heap, alloc: st.alloc, ch: st.ch}
	s2.assume(guard)
	v.oblige(s2, decreases(meas, nm), "lemma-termination", "the measure of "+m.Name+" decreases", token.NoPos, nil)
}

func decreases(old, new []Term) Term {
	n := len(old)
	if len(new) < n {
		n = len(new)
	}
	var dis []Term
	eq := "true"
	for i := 0; i < n; i++ {
		dis = append(dis, And(eq, Lt(new[i], old[i]), Le("0", old[i])))
		eq = And(eq, Eq(new[i], old[i]))
	}
	if len(new) < len(old) {
		dis = append(dis, eq)
	}
	return Or(dis...)
}

// VerifySpecFunc shows that a recursive spec function is well founded.
func (v *Verifier) VerifySpecFunc(f *SpecFunc) {
	if !f.Rec || f.Body == nil {
		return
	}
	v.curFunc = "function " + f.Name
	v.curRoot = nil
	v.curPos = token.NoPos
	n0 := len(v.obls)
	v.counter, v.base = 0, n0
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(specErr); ok {
				v.obls = append(v.obls, &Obl{Func: v.curFunc, Kind: "contract", Desc: x.msg, Goal: "false", Status: "failed", Solver: "govc", ID: fmt.Sprintf("%s#c%d", v.curFunc, n0)})
				return
			}
			panic(r)
		}
	}()
	pkg := v.pkgByPath(f.Pkg)
	st := &State{heap: map[string]Term{}, alloc: "A0"}
	env := &Env{v: v, st: st, old: st, vars: map[string]*SV{}, oldvars: map[string]*SV{}, pkg: pkg, file: f.File}
	for _, p := range f.Params {
		t := v.resolveType(pkg, p.T)
		// no validity facts: the definition must be well founded for all values
		var L []Term
		for _, l := range layout(t) {
			L = append(L, v.declare(st, p.Name+l.Path, l.Sort))
		}
		env.vars[p.Name] = &SV{T: t, L: L}
	}
	var meas []Term
	for _, d := range f.Decr {
		meas = append(meas, env.intTerm(d))
	}
	w := &recWalk{v: v, st: st, f: f, meas: meas}
	w.walk(env, f.Body, "true", 0)
}

type recWalk struct {
	v    *Verifier
	st   *State
	f    *SpecFunc
	meas []Term
}

func (w *recWalk) walk(e *Env, x *Expr, guard Term, depth int) {
	v := w.v
	switch x.Op {
	case "bin":
		switch x.S {
		case "&&", "==>":
			w.walk(e, x.A[0], guard, depth)
			if w.mentions(x.A[1]) {
				w.walk(e, x.A[1], And(guard, e.boolTerm(x.A[0])), depth)
			}
			return
		case "||":
			w.walk(e, x.A[0], guard, depth)
			if w.mentions(x.A[1]) {
				w.walk(e, x.A[1], And(guard, Not(e.boolTerm(x.A[0]))), depth)
			}
			return
		}
	case "cond":
		w.walk(e, x.A[0], guard, depth)
		if w.mentions(x.A[1]) || w.mentions(x.A[2]) {
			c := e.boolTerm(x.A[0])
			w.walk(e, x.A[1], And(guard, c), depth)
			w.walk(e, x.A[2], And(guard, Not(c)), depth)
		}
		return
	case "let":
		w.walk(e, x.A[0], guard, depth)
		n := e.sub()
		n.vars[x.S] = e.eval(x.A[0])
		w.walk(n, x.A[1], guard, depth)
		return
	case "quant":
		n := e.sub()
		for _, qv := range x.Vars {
			t := v.resolveType(e.pkg, qv.T)
			var L []Term
			for _, l := range layout(t) {
				L = append(L, v.declare(w.st, qv.Name+l.Path, l.Sort))
			}
			n.vars[qv.Name] = &SV{T: t, L: L}
		}
		w.walk(n, x.A[0], guard, depth)
		return
	case "call":
		for _, a := range x.A {
			w.walk(e, a, guard, depth)
		}
		g := v.spec.SFuncs[x.S]
		if g == nil {
			return
		}
		if g.Macro {
			if !w.mentionsFn(g.Name, map[string]bool{}) || depth > 20 {
				return
			}
			fpkg := v.pkgByPath(g.Pkg)
			n := e.sub()
			n.vars = map[string]*SV{}
			n.pkg = fpkg
			n.file = g.File
			for i, pr := range g.Params {
				a := e.eval(x.A[i])
				n.vars[pr.Name] = &SV{T: v.resolveType(fpkg, pr.T), L: e.mat(a)}
			}
			w.walk(n, g.Body, guard, depth+1)
			return
		}
		if !v.sccOf[g.Name][w.f.Name] {
			return
		}
		if len(w.meas) == 0 || len(g.Decr) == 0 {
			v.oblige(w.st, "false", "function-termination", "recursive call of "+g.Name+" without a measure", token.NoPos, nil)
			return
		}
		gpkg := v.pkgByPath(g.Pkg)
		n := &Env{v: v, st: w.st, old: w.st, vars: map[string]*SV{}, oldvars: map[string]*SV{}, pkg: gpkg, file: g.File}
		for i, p := range g.Params {
			a := e.eval(x.A[i])
			l := e.mat(a)
			if a.T == types.Typ[types.UntypedNil] {
				l = zeroLeaves(v.resolveType(gpkg, p.T))
			}
			n.vars[p.Name] = &SV{T: v.resolveType(gpkg, p.T), L: l}
		}
		var nm []Term
		for _, d := range g.Decr {
			nm = append(nm, n.intTerm(d))
		}
		s2 := &State{heap: w.st.heap, alloc: w.st.alloc, ch: w.st.ch}
		s2.assume(guard)
		v.oblige(s2, decreases(w.meas, nm), "function-termination", "call of "+g.Name+": "+x.String(), token.NoPos, nil)
		return
	}
	for _, a := range x.A {
		w.walk(e, a, guard, depth)
	}
}

func (w *recWalk) mentions(x *Expr) bool {
	if x == nil {
		return false
	}
	if x.Op == "call" {
		if w.mentionsFn(x.S, map[string]bool{}) {
			return true
		}
	}
	for _, a := range x.A {
		if w.mentions(a) {
			return true
		}
	}
	return false
}

func (w *recWalk) mentionsFn(n string, seen map[string]bool) bool {
	if w.v.spec.SFuncs[n] == nil {
		return false
	}
	return n == w.f.Name || w.v.sccOf[n][w.f.Name]
}

// autoAxiom is the axiom an auto lemma contributes and the functions of its triggers.
func (v *Verifier) autoAxiom(l *Lemma) (ax string, heads [][]string) {
	if a, ok := v.autoAx[l.Name]; ok {
		return a, v.autoHeads[l.Name]
	}
	pkg := v.pkgByPath(l.Pkg)
	env := &Env{v: v, vars: map[string]*SV{}, oldvars: map[string]*SV{}, pkg: pkg, file: l.File, fuel: "ly"}
	qs := []string{}
	var pre []Term
	for _, p := range l.Params {
		t := v.resolveType(pkg, p.T)
		ls := layout(t)
		var L []Term
		for _, lf := range ls {
			switch lf.Kind {
			case KSlR, KPtrR:
				panic(specErr{l.File + ": auto lemma " + l.Name + " over memory"})
			}
			n := p.Name + lf.Path + "!l"
			qs = append(qs, "("+n+" "+lf.Sort+")")
			L = append(L, n)
		}
		env.vars[p.Name] = &SV{T: t, L: L}
		pre = append(pre, leafFacts(ls, func(i int) Term { return L[i] }, "A0")...)
	}
	for _, c := range l.Req {
		pre = append(pre, env.boolTerm(c.E[0]))
	}
	var post []Term
	for _, c := range l.Ens {
		post = append(post, env.boolTerm(c.E[0]))
	}
	pat := ""
	rec := false
	for _, tr := range l.Trig {
		var ps, hs []string
		for _, x := range tr {
			t := env.mat(env.eval(x))[0]
			ps = append(ps, t)
			for _, tk := range tokens(t) {
				if strings.HasPrefix(tk, "f!") {
					hs = append(hs, tk)
				}
				if tk == "ly" {
					rec = true
				}
			}
		}
		heads = append(heads, hs)
		pat += " :pattern (" + strings.Join(ps, " ") + ")"
	}
	if pat == "" {
		panic(specErr{l.File + ": auto lemma " + l.Name + " without a trigger"})
	}
	body := Imp(And(pre...), And(post...))
	if rec {
		qs = append([]string{"(ly Fuel)"}, qs...)
	} else if strings.Contains(body, " ly ") {
		body = strings.ReplaceAll(body, " ly ", " FUEL ")
	}
	ax = "(assert (forall (" + strings.Join(qs, " ") + ") (! " + body + pat + ")))"
	v.autoAx[l.Name], v.autoHeads[l.Name] = ax, heads
	return ax, heads
}

// autoAllowed tells if an obligation may use an auto lemma: only lemmas declared
// before the lemma or function whose proof it belongs to, and for the
// termination of a function only lemmas that do not depend on that function.
func (v *Verifier) autoAllowed(owner string, l *Lemma) bool {
	if !l.Auto {
		return false
	}
	if strings.HasPrefix(owner, "lemma ") {
		if o := v.spec.Lemmas[owner[6:]]; o != nil {
			return l.Seq < o.Seq
		}
	}
	if strings.HasPrefix(owner, "function ") {
		f := v.spec.SFuncs[owner[9:]]
		if f == nil {
			return false
		}
		for g := range v.lemmaFuncs(l, map[string]bool{}) {
			if g == f.Name || v.sccOf[g][f.Name] {
				return false
			}
		}
	}
	return true
}

// lemmaFuncs lists the spec functions a lemma and the lemmas before it depend on.
func (v *Verifier) lemmaFuncs(l *Lemma, out map[string]bool) map[string]bool {
	var walk func(x *Expr)
	walk = func(x *Expr) {
		if x == nil {
			return
		}
		if x.Op == "call" {
			if f := v.spec.SFuncs[x.S]; f != nil && !out[x.S] {
				out[x.S] = true
				walk(f.Body)
				for _, m := range v.spec.LOrder {
					if m.Auto && m.Seq < l.Seq && v.triggersOn(m, x.S) && !out["lemma "+m.Name] {
						out["lemma "+m.Name] = true
						v.lemmaFuncs(m, out)
					}
				}
			}
			if m := v.spec.Lemmas[x.S]; m != nil && !out["lemma "+m.Name] {
				out["lemma "+m.Name] = true
				v.lemmaFuncs(m, out)
			}
		}
		for _, a := range x.A {
			walk(a)
		}
		for _, t := range x.Trig {
			for _, a := range t {
				walk(a)
			}
		}
	}
	for _, c := range l.Req {
		walk(c.E[0])
	}
	for _, c := range l.Ens {
		walk(c.E[0])
	}
	for _, c := range l.Uses {
		walk(c.E[0])
	}
	for _, e := range l.Decr {
		walk(e)
	}
	return out
}

func (v *Verifier) triggersOn(l *Lemma, fn string) bool {
	for _, t := range l.Trig {
		for _, x := range t {
			if x.Op == "call" && x.S == fn {
				return true
			}
		}
	}
	return false
}
