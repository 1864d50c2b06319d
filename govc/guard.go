package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Fields guarded by a mutex.
//
//	guard Cache.mu(c) decoders, encoders
//	  invariant ...
//
// A load of a guarded field needs the mutex held (ghost field held of the mutex:
// 1 for readers, 2 for a writer), a store needs it held by a writer. The same goes
// for the maps in the fields: a map of such a type is read or written only while
// it is in a guarded field whose mutex is held, or before it got there. When the
// mutex is acquired the fields and maps are whatever other goroutines left there,
// but for the invariant, which has to hold again at every release by a writer.
// Every function that touches a guarded field is verified, or inlined into one that is.

type Guard struct {
	Pkg, Type, Mutex, Param string
	Fields                  []string
	Invs                    []*Clause
	Tags                    []string
	File                    string

	t        types.Type
	muS, muN int
	held     int // leaf
	fields   []gfield
}

type gfield struct {
	name     string
	s, n     int
	m        types.Type // map type, or nil
	fieldIdx int
}

func (p *sparser) guardDecl(pkg, file string) *Guard {
	g := &Guard{Pkg: pkg, File: file}
	g.Tags = p.tags()
	g.Type = p.ident()
	p.want(".")
	g.Mutex = p.ident()
	p.want("(")
	g.Param = p.ident()
	p.want(")")
	for {
		g.Fields = append(g.Fields, p.ident())
		if !p.acc(",") {
			break
		}
	}
	for p.acc("invariant") {
		g.Invs = append(g.Invs, p.clause("invariant"))
	}
	return g
}

func (v *Verifier) guards() []*Guard {
	if v.guardsDone {
		return v.guardList
	}
	v.guardsDone = true
	for _, g := range v.spec.Guards {
		pkg := v.pkgByPath(g.Pkg)
		if pkg == nil {
			continue
		}
		o := pkg.Scope().Lookup(g.Type)
		if o == nil {
			continue
		}
		g.t = o.Type()
		st, ok := g.t.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		g.held = -1
		g.fields = nil
		for i := 0; i < st.NumFields(); i++ {
			s, n, ft := fieldRange(g.t, i)
			f := st.Field(i)
			if f.Name() == g.Mutex {
				g.muS, g.muN = s, n
				for k, l := range layout(g.t) {
					if s <= k && k < s+n && strings.HasSuffix(l.Path, ".$held") {
						g.held = k
					}
				}
			}
			for _, w := range g.Fields {
				if f.Name() == w {
					gf := gfield{name: w, s: s, n: n, fieldIdx: i}
					if _, ok := ft.Underlying().(*types.Map); ok {
						gf.m = ft
					}
					g.fields = append(g.fields, gf)
				}
			}
		}
		if g.held >= 0 {
			v.guardList = append(v.guardList, g)
		}
	}
	return v.guardList
}

// guardUse is a guarded field that was used on a path.
type guardUse struct {
	g        *Guard
	f        int
	ref, idx Term
}

func (v *Verifier) guardAccess(st *State, a *Addr, val []Term, pos token.Pos) {
	if a.local != nil {
		return
	}
	for _, g := range v.guards() {
		if typeKey(a.elemT) != typeKey(g.t) {
			continue
		}
		for i, f := range g.fields {
			if f.s+f.n <= a.start || a.start+a.n <= f.s {
				continue
			}
			held := Sel2(v.heapOf(st, g.t, g.held), a.ref, a.idx)
			if val == nil {
				v.oblige(st, Le("1", held), "guard", "field "+f.name+" is read with the lock held", pos, nil)
			} else {
				v.oblige(st, Eq(held, "2"), "guard", "field "+f.name+" is written with the lock held for writing", pos, nil)
				if f.m != nil {
					m := val[f.s-a.start]
					ok := []Term{Eq(m, "0"), Eq(m, Sel2(v.heapOf(st, g.t, f.s), a.ref, a.idx))}
					fr := []Term{v.madeHere(st, m)}
					for _, s := range st.gstored {
						fr = append(fr, Not(Eq(m, s)))
					}
					ok = append(ok, And(fr...))
					v.oblige(st, Or(ok...), "guard", "the map stored in "+f.name+" is new", pos, nil)
					st.gstored = append(st.gstored[:len(st.gstored):len(st.gstored)], m)
				}
			}
			st.gused = append(st.gused[:len(st.gused):len(st.gused)], guardUse{g, i, a.ref, a.idx})
		}
	}
}

func (v *Verifier) guardMap(st *State, m Term, t types.Type, write bool, pos token.Pos) {
	found := false
	fr, ok := []Term{}, []Term{}
	if !write {
		ok = append(ok, Eq(m, "0"))
	}
	for _, g := range v.guards() {
		for i, f := range g.fields {
			if f.m == nil || typeKey(f.m) != typeKey(t) && !types.Identical(f.m, t) {
				continue
			}
			found = true
			for _, u := range st.gused {
				if u.g != g || u.f != i {
					continue
				}
				held := Sel2(v.heapOf(st, g.t, g.held), u.ref, u.idx)
				need := Le("1", held)
				if write {
					need = Eq(held, "2")
				}
				ok = append(ok, And(need, Eq(m, Sel2(v.heapOf(st, g.t, f.s), u.ref, u.idx))))
			}
		}
	}
	if !found {
		return
	}
	for _, s := range st.gstored {
		fr = append(fr, Not(Eq(m, s)))
	}
	fr = append(fr, v.madeHere(st, m))
	ok = append(ok, And(fr...))
	d := "the shared map is read with the lock held"
	if write {
		d = "the shared map is written with the lock held for writing"
	}
	v.oblige(st, Or(ok...), "guard", d, pos, nil)
}

// madeHere: the map was made on this path.
func (v *Verifier) madeHere(st *State, m Term) Term {
	var t []Term
	for _, r := range st.gmade {
		t = append(t, Eq(m, r))
	}
	if len(t) == 0 {
		return "false"
	}
	return Or(t...)
}

func (v *Verifier) guardEnv(st *State, g *Guard, a *Addr) *Env {
	c := &SV{T: types.NewPointer(g.t), L: []Term{a.ref, a.idx}}
	vars := map[string]*SV{g.Param: c}
	return &Env{v: v, st: st, old: st, vars: vars, oldvars: vars, pkg: v.pkgByPath(g.Pkg), file: g.File}
}

func (v *Verifier) guardOf(args []*Value) (*Guard, *Addr) {
	if len(args) == 0 || args[0].A == nil || args[0].A.local != nil {
		return nil, nil
	}
	a := args[0].A
	for _, g := range v.guards() {
		if typeKey(a.elemT) == typeKey(g.t) && a.start == g.muS && a.n == g.muN {
			return g, a
		}
	}
	return nil, nil
}

// guardRelease: the invariant holds when a writer releases the lock.
func (v *Verifier) guardRelease(st *State, name string, args []*Value, pos token.Pos) {
	if !strings.HasSuffix(name, "Mutex).Unlock") {
		return
	}
	if g, a := v.guardOf(args); g != nil {
		for _, cl := range g.Invs {
			if v.useClause(cl) {
				v.oblige(st, v.guardEnv(st, g, a).boolTerm(cl.E[0]), "guard", "invariant at the release of "+g.Type+"."+g.Mutex+": "+cl.Text, pos, cl.Tags)
			}
		}
	}
}

// guardAcquire: what the lock guards is arbitrary, but for the invariant.
func (v *Verifier) guardAcquire(st *State, name string, args []*Value) {
	if !strings.HasSuffix(name, "Mutex).Lock") && !strings.HasSuffix(name, "Mutex).RLock") {
		return
	}
	g, a := v.guardOf(args)
	if g == nil {
		return
	}
	ls := layout(g.t)
	for _, f := range g.fields {
		vals := make([]Term, f.n)
		for i := range vals {
			vals[i] = v.declare(st, "g"+ls[f.s+i].Path, ls[f.s+i].Sort)
		}
		for _, x := range leafFacts(ls[f.s:f.s+f.n], func(i int) Term { return vals[i] }, st.alloc) {
			st.assume(x)
		}
		if f.m != nil {
			// not a map that was made here and has not been stored
			for _, r := range st.gmade {
				fr := []Term{}
				for _, s := range st.gstored {
					fr = append(fr, Not(Eq(r, s)))
				}
				st.assume(Imp(And(fr...), Not(Eq(vals[0], r))))
			}
		}
		v.storeAddr(st, &Addr{elemT: g.t, ref: a.ref, idx: a.idx, start: f.s, n: f.n, T: g.t}, vals)
		if f.m != nil {
			e, _ := mapElem(f.m)
			v.havocHeap(st, e)
		}
	}
	for _, cl := range g.Invs {
		if v.useClause(cl) {
			st.assume(v.guardEnv(st, g, a).boolTerm(cl.E[0]))
		}
	}
}

// guardTouchers are the functions that touch guarded fields of the guards with the tag.
func (v *Verifier) guardTouchers(tag string) []*ssa.Function {
	var gs []*Guard
	for _, g := range v.guards() {
		for _, t := range g.Tags {
			if t == tag {
				gs = append(gs, g)
			}
		}
	}
	if len(gs) == 0 {
		return nil
	}
	isField := func(t types.Type, i int) bool {
		if p, ok := isPtr(t); ok {
			t = p
		}
		for _, g := range gs {
			if typeKey(t) == typeKey(g.t) {
				for _, f := range g.fields {
					if f.fieldIdx == i {
						return true
					}
				}
			}
		}
		return false
	}
	isMap := func(t types.Type) bool {
		for _, g := range gs {
			for _, f := range g.fields {
				if f.m != nil && types.Identical(f.m, t) {
					return true
				}
			}
		}
		return false
	}
	var out []*ssa.Function
	for _, fn := range v.repoFns() {
		touch := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					touch = touch || isField(x.X.Type(), x.Field)
				case *ssa.Field:
					touch = touch || isField(x.X.Type(), x.Field)
				case *ssa.MapUpdate:
					touch = touch || isMap(x.Map.Type())
				case *ssa.Lookup:
					touch = touch || isMap(x.X.Type())
				case *ssa.Range:
					touch = touch || isMap(x.X.Type())
				}
			}
		}
		if touch {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// repoFns: every function of the module with a body, with the closures in them.
func (v *Verifier) repoFns() (out []*ssa.Function) {
	var add func(fn *ssa.Function)
	seen := map[*ssa.Function]bool{}
	add = func(fn *ssa.Function) {
		if seen[fn] || fn.Synthetic != "" && fn.Name() != "init" {
			return
		}
		seen[fn] = true
		out = append(out, fn)
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	for _, fn := range v.allFns {
		add(fn)
	}
	return
}

// guardSweep: every function that touches guarded fields is verified or inlined
// into one that is; where it is neither, it is verified on its own if it is
// exported, else its callers are.
func (v *Verifier) guardSweep(tag string, done map[string]bool) (more []*ssa.Function) {
	name := func(fn *ssa.Function) string { return fn.Pkg.Pkg.Name() + "." + v.fnName(fn) }
	covered := func(fn *ssa.Function) bool { return done[name(fn)] || v.inlined[name(fn)] }
	queue := v.guardTouchers(tag)
	seen := map[*ssa.Function]bool{}
	all := v.repoFns()
	for len(queue) > 0 {
		fn := queue[0]
		queue = queue[1:]
		if seen[fn] || covered(fn) {
			continue
		}
		seen[fn] = true
		if fn.Parent() != nil {
			queue = append(queue, fn.Parent())
			continue
		}
		var callers []*ssa.Function
		for _, g := range all {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn {
						callers = append(callers, g)
					}
				}
			}
		}
		if token.IsExported(fn.Name()) || len(callers) == 0 {
			more = append(more, fn)
			continue
		}
		queue = append(queue, callers...)
	}
	return
}
