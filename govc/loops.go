package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	key    string
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	backs  map[*ssa.BasicBlock]bool
}

type loopInfo struct {
	headers map[*ssa.BasicBlock]*loop
	order   []*loop
	bad     string
}

// loopsOf finds the natural loops of a function.
func (v *Verifier) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := v.loopInfo[fn]; ok {
		return li
	}
	li := &loopInfo{headers: map[*ssa.BasicBlock]*loop{}}
	v.loopInfo[fn] = li
	// depth first search for retreating edges
	state := map[*ssa.BasicBlock]int{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		state[b] = 1
		for _, s := range b.Succs {
			if state[s] == 1 {
				if !s.Dominates(b) {
					li.bad = "irreducible control flow"
				}
			}
			if state[s] == 0 {
				dfs(s)
			}
			if s.Dominates(b) {
				l := li.headers[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}, backs: map[*ssa.BasicBlock]bool{}}
					li.headers[s] = l
				}
				l.backs[b] = true
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
		state[b] = 2
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for _, l := range li.headers {
		li.order = append(li.order, l)
	}
	sort.Slice(li.order, func(i, j int) bool { return loopPos(li.order[i]) < loopPos(li.order[j]) })
	cnt := map[string]int{}
	for _, l := range li.order {
		k := l.header.Comment
		if i := strings.IndexByte(k, ' '); i > 0 {
			k = k[:i]
		}
		cnt[k]++
		if cnt[k] > 1 {
			k = fmt.Sprintf("%s#%d", k, cnt[k])
		}
		l.key = k
	}
	return li
}

// loopPos orders loops by source position.
func loopPos(l *loop) int {
	best := 1 << 30
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if p := int(in.Pos()); p > 0 && p < best {
				best = p
			}
		}
	}
	return best*4096 + l.header.Index
}

// loopSpec finds the contract of a loop: by its key, else by position when the names changed.
func (v *Verifier) loopSpec(fr *Frame, lp *loop) *LoopSpec {
	f := fr
	if f.spec == nil {
		return nil
	}
	if ls := f.spec.Loops[lp.key]; ls != nil {
		return ls
	}
	return nil
}

type modSet struct {
	locals map[*ssa.Alloc]bool
	heaps  map[string]bool
	alloc  bool
	all    bool
}

func (v *Verifier) addHeap(ms *modSet, t types.Type, start, n int) {
	v.regHeap(t)
	ls := layout(t)
	for i := start; i < start+n; i++ {
		ms.heaps[heapKey(t, ls[i])] = true
	}
}

// staticLoc finds what a store through an address changes.
func (v *Verifier) staticLoc(x ssa.Value) (local *ssa.Alloc, t types.Type, start, n int) {
	switch a := x.(type) {
	case *ssa.Alloc:
		et := a.Type().Underlying().(*types.Pointer).Elem()
		if at, ok := et.Underlying().(*types.Array); ok {
			return nil, at.Elem(), 0, len(layout(at.Elem()))
		}
		if a.Heap {
			return nil, et, 0, len(layout(et))
		}
		return a, et, 0, len(layout(et))
	case *ssa.FieldAddr:
		l, t, s, _ := v.staticLoc(a.X)
		st := a.X.Type().Underlying().(*types.Pointer).Elem()
		fs, fn, _ := fieldRange(st, a.Field)
		return l, t, s + fs, fn
	case *ssa.IndexAddr:
		switch u := a.X.Type().Underlying().(type) {
		case *types.Slice:
			return nil, u.Elem(), 0, len(layout(u.Elem()))
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			return nil, at.Elem(), 0, len(layout(at.Elem()))
		}
	}
	et := x.Type().Underlying().(*types.Pointer).Elem()
	if at, ok := et.Underlying().(*types.Array); ok {
		return nil, at.Elem(), 0, len(layout(at.Elem()))
	}
	return nil, et, 0, len(layout(et))
}

func (v *Verifier) modBlocks(st *State, fr *Frame, blocks []*ssa.BasicBlock, ms *modSet, seen map[*ssa.Function]bool, own bool) {
	for _, b := range blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				l, t, s, n := v.staticLoc(x.Addr)
				if l != nil {
					if own {
						ms.locals[l] = true
					}
				} else {
					v.addHeap(ms, t, s, n)
				}
			case *ssa.Alloc:
				et := x.Type().Underlying().(*types.Pointer).Elem()
				if at, ok := et.Underlying().(*types.Array); ok {
					v.addHeap(ms, at.Elem(), 0, len(layout(at.Elem())))
					ms.alloc = true
				} else if x.Heap {
					v.addHeap(ms, et, 0, len(layout(et)))
					ms.alloc = true
				}
			case *ssa.MakeSlice:
				et := x.Type().Underlying().(*types.Slice).Elem()
				v.addHeap(ms, et, 0, len(layout(et)))
				ms.alloc = true
			case *ssa.MakeMap:
				ms.alloc = true
				if e, ok := mapElem(x.Type()); ok {
					v.addHeap(ms, e, 0, len(layout(e)))
				}
			case *ssa.MapUpdate:
				if e, ok := mapElem(x.Map.Type()); ok {
					v.addHeap(ms, e, 0, len(layout(e)))
				}
			case *ssa.MakeInterface:
				ms.alloc = true
				t := x.X.Type()
				if !scalarBox(t) {
					v.addHeap(ms, t, 0, len(layout(t)))
				}
			case *ssa.Convert:
				if sl, ok := x.Type().Underlying().(*types.Slice); ok {
					v.addHeap(ms, sl.Elem(), 0, 1)
					ms.alloc = true
				}
			case *ssa.Call:
				v.modCall(st, fr, x, ms, seen)
			}
		}
	}
}

func scalarBox(t types.Type) bool {
	ls := layout(t)
	if len(ls) > 2 {
		return false
	}
	for _, l := range ls {
		if l.Sort != "Int" && l.Sort != "Bool" {
			return false
		}
	}
	return true
}

func (v *Verifier) modCall(st *State, fr *Frame, x *ssa.Call, ms *modSet, seen map[*ssa.Function]bool) {
	c := x.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append", "copy":
			if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
				v.addHeap(ms, sl.Elem(), 0, len(layout(sl.Elem())))
				ms.alloc = true
			}
		case "delete":
			if e, ok := mapElem(c.Args[0].Type()); ok {
				v.addHeap(ms, e, 0, len(layout(e)))
			}
		}
		return
	}
	spec, fn, sig := v.calleeSpec(c)
	if spec != nil && spec.Extern && strings.HasSuffix(spec.Name, "Lock") {
		for _, g := range v.guards() {
			for _, f := range g.fields {
				v.addHeap(ms, g.t, f.s, f.n)
				if f.m != nil {
					if e, ok := mapElem(f.m); ok {
						v.addHeap(ms, e, 0, len(layout(e)))
					}
				}
			}
		}
	}
	if spec != nil && !spec.Inline {
		ms.alloc = true
		v.modContract(st, spec, fn, sig, c, ms)
		return
	}
	if fn != nil && len(fn.Blocks) > 0 && !seen[fn] {
		seen[fn] = true
		v.modBlocks(st, fr, fn.Blocks, ms, seen, false)
	}
}

func (v *Verifier) modContract(st *State, spec *FuncSpec, fn *ssa.Function, sig *types.Signature, c *ssa.CallCommon, ms *modSet) {
	var cl []*Clause
	for _, k := range spec.Clauses {
		if k.Kind == "modifies" {
			cl = append(cl, k)
		}
	}
	if len(cl) == 0 {
		return
	}
	scratch := st.clone()
	env := &Env{v: v, st: scratch, old: scratch, vars: map[string]*SV{}, oldvars: map[string]*SV{}, pkg: v.specPkg(spec, fn), file: spec.File}
	names, typs := v.argInfo(spec, fn, sig, c)
	for i, n := range names {
		env.vars[n] = &SV{T: typs[i], L: v.freshVal(scratch, "scratch", typs[i])}
	}
	for _, k := range cl {
		for _, e := range k.E {
			if e.Op == "heap" {
				t := v.heapType(env.pkg, e.S)
				v.addHeap(ms, t, 0, len(layout(t)))
				continue
			}
			l := env.lvalue(e)
			v.addHeap(ms, l.elemT, l.start, l.n)
		}
	}
}

func (v *Verifier) rootFrame(fr *Frame) *Frame {
	for fr.parent != nil {
		fr = fr.parent
	}
	return fr
}

// frameInvariant says that cells outside the modifies clause of the root function are unchanged.
func (v *Verifier) frameInvariants(st *State, fr *Frame, keys []string) (assume []Term, check []Term, names []string) {
	root := v.rootFrame(fr)
	env := root.env(v, root.entry)
	env.vars = root.pm
	heapAll := map[string]bool{}
	type cellT struct {
		r, i     Term
		start, n int
	}
	cells := map[string][]cellT{}
	for _, c := range v.clauses(root.spec, "modifies") {
		for _, x := range c.E {
			if x.Op == "heap" {
				heapAll[typeKey(v.heapType(env.pkg, x.S))] = true
				continue
			}
			s := env.lvalue(x)
			cells[typeKey(s.elemT)] = append(cells[typeKey(s.elemT)], cellT{s.ref, s.idx, s.start, s.n})
		}
	}
	for _, k := range keys {
		hi := v.heapLeaf[k]
		tk := typeKey(hi.elem)
		if heapAll[tk] {
			continue
		}
		h0, ok := root.entry.heap[k]
		if !ok {
			h0 = "H0!" + sym(k)
		}
		h1, ok := st.heap[k]
		if !ok {
			h1 = "H0!" + sym(k)
		}
		if h0 == h1 {
			continue
		}
		gen := func(r, i Term) Term {
			pre := []Term{Le("0", r), Lt(r, root.entry.alloc)}
			for _, c := range cells[tk] {
				if c.start <= hi.i && hi.i < c.start+c.n {
					pre = append(pre, Not(And(Eq(r, c.r), Eq(i, c.i))))
				}
			}
			return Imp(And(pre...), Eq(Sel2(h1, r, i), Sel2(h0, r, i)))
		}
		assume = append(assume, fmt.Sprintf("(forall ((r Int) (i Int)) (! %s :pattern (%s)))", gen("r", "i"), Sel2(h1, "r", "i")))
		r, i := v.fresh("fr"), v.fresh("fi")
		st.cmd("(declare-const " + r + " Int)")
		st.cmd("(declare-const " + i + " Int)")
		check = append(check, gen(r, i))
		names = append(names, k)
	}
	return
}

func (v *Verifier) loopEnv(st *State, fr *Frame, lp *loop, lc *loopCtx) *Env {
	env := fr.env(v, st)
	env.fr = fr
	env.hdr = lp.header
	env.loopEntry = lc.entry
	return env
}

// rangeLoop recognises the header of a range loop over a slice or string index.
func (v *Verifier) rangeLoop(st *State, fr *Frame, lp *loop) (ri *ssa.Alloc, length Term, ok bool) {
	if !strings.HasPrefix(lp.header.Comment, "rangeindex.loop") {
		return nil, "", false
	}
	for _, in := range lp.header.Instrs {
		if s, isS := in.(*ssa.Store); isS {
			if a, isA := s.Addr.(*ssa.Alloc); isA && ri == nil {
				ri = a
			}
		}
		if b, isB := in.(*ssa.BinOp); isB && b.Op.String() == "<" {
			if c, isC := b.Y.(*ssa.Const); isC {
				return ri, v.val(st, fr, c).L[0], ri != nil
			}
			if r, has := st.regs[regKey{fr.id, b.Y}]; has {
				return ri, r.L[0], ri != nil
			}
		}
	}
	return nil, "", false
}

// loopHeader handles arrival at a loop header; it reports whether execution continues.
func (v *Verifier) loopHeader(st *State, fr *Frame, lp *loop, from *ssa.BasicBlock) bool {
	li := v.loopsOf(fr.fn)
	if li.bad != "" {
		unsupported("%s in %s", li.bad, fr.fn.Name())
	}
	id := loopID{fr.id, lp.header}
	spec := v.loopSpec(fr, lp)
	name := v.fnName(fr.fn) + " loop " + lp.key
	var invs []*Clause
	var decr *Clause
	cut := false
	if spec != nil {
		for _, c := range spec.Clauses {
			if !v.useClause(c) {
				continue
			}
			switch c.Kind {
			case "invariant":
				invs = append(invs, c)
			case "decreases":
				decr = c
			case "option":
				cut = cut || c.Text == "cut"
			}
		}
	}
	ri, rlen, isRange := v.rangeLoop(st, fr, lp)
	back := lp.backs[from] && lp.blocks[from]
	pos := lp.header.Instrs[0].Pos()
	if !pos.IsValid() {
		pos = v.curPos
	}
	lc := st.loops[id]
	if !back {
		lc = &loopCtx{}
		lc.entry = st.clone()
	}
	if lc == nil {
		unsupported("loop without context")
	}
	env := v.loopEnv(st, fr, lp, lc)
	if back {
		env.pre = lc.head
	}
	if spec != nil {
		for _, c := range spec.Clauses {
			if !env.known2(c) {
				continue
			}
			if c.Kind == "use" && v.useClause(c) && (c.Where == "" || c.Where == "back" && back || c.Where == "entry" && !back) {
				if c.Where == "" && !back {
					continue
				}
				v.useLemma(env, st, c)
			}
			if c.Kind == "assert" && v.useClause(c) && back {
				v.oblige(st, env.boolTerm(c.E[0]), "assert", name+": "+c.Text, pos, c.Tags)
			}
		}
	}
	kind := "invariant-entry"
	if back {
		kind = "invariant"
	}
	for _, c := range invs {
		v.oblige(st, env.boolTerm(c.E[0]), kind, name+": "+c.Text, pos, c.Tags)
	}
	var rt Term
	if isRange {
		a := &Addr{local: ri, fr: fr.id, n: 1, T: ri.Type().Underlying().(*types.Pointer).Elem()}
		rt = v.loadAddr(st, a)[0]
	}
	// static analysis of what the loop modifies
	ms := &modSet{locals: map[*ssa.Alloc]bool{}, heaps: map[string]bool{}}
	var blocks []*ssa.BasicBlock
	for b := range lp.blocks {
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	v.modBlocks(st, fr, blocks, ms, map[*ssa.Function]bool{}, true)
	hk := sortedKeys(ms.heaps)
	_, chk, names := v.frameInvariants(st, fr, hk)
	for i, c := range chk {
		v.oblige(st, c, "frame", name+": heap "+names[i]+" modified outside the modifies clause", pos, nil)
	}
	if back {
		// measure
		switch {
		case isRange && decr == nil:
		case decr == nil:
			if m := lc.meas; len(m) > 0 {
				v.obligeDecrease(st, m, v.autoMeasure(st, fr, lp), "termination", name, pos)
			} else {
				v.oblige(st, "false", "termination", name+": no measure", pos, []string{"C01", "TERM"})
			}
		default:
			var m []Term
			for _, e := range decr.E {
				m = append(m, env.intTerm(e))
			}
			v.obligeDecrease(st, lc.meas, m, "termination", name, pos)
		}
		return false
	}
	if cut {
		if v.cuts[id] {
			return false
		}
		v.cuts[id] = true
		v.cutState(st, fr, lp)
	}
	st.loopy = true
	// havoc
	if ms.alloc || len(hk) > 0 {
		if ms.alloc {
			n := v.fresh("A")
			st.cmd("(declare-const " + n + " Int)")
			st.assume(Le(st.alloc, n))
			st.alloc = n
		}
	}
	done := map[string]bool{}
	for _, k := range hk {
		if done[k] {
			continue
		}
		hi := v.heapLeaf[k]
		// havoc only the modified leaves; the validity axioms need neighbouring leaves
		var idx []int
		for i, l := range layout(hi.elem) {
			kk := heapKey(hi.elem, l)
			if ms.heaps[kk] && !done[kk] {
				done[kk] = true
				idx = append(idx, i)
			}
		}
		v.havocLeaves(st, hi.elem, idx)
	}
	var las []*ssa.Alloc
	for a := range ms.locals {
		las = append(las, a)
	}
	sort.Slice(las, func(i, j int) bool {
		if las[i].Block().Index != las[j].Block().Index {
			return las[i].Block().Index < las[j].Block().Index
		}
		return las[i].Name() < las[j].Name()
	})
	for _, a := range las {
		k := regKey{fr.id, a}
		if _, ok := st.locals[k]; !ok {
			continue
		}
		et := a.Type().Underlying().(*types.Pointer).Elem()
		st.locals[k] = v.freshVal(st, a.Comment, et)
	}
	asm, _, _ := v.frameInvariants(st, fr, hk)
	for _, t := range asm {
		st.assume(t)
	}
	if isRange {
		a := &Addr{local: ri, fr: fr.id, n: 1, T: ri.Type().Underlying().(*types.Pointer).Elem()}
		nrt := v.loadAddr(st, a)[0]
		_ = rt
		st.assume(And(Le("(- 1)", nrt), Or(Lt(nrt, rlen), Eq(nrt, "(- 1)"))))
	}
	env = v.loopEnv(st, fr, lp, lc)
	for _, c := range invs {
		st.assume(env.boolTerm(c.E[0]))
	}
	if spec != nil {
		for _, c := range spec.Clauses {
			if c.Kind == "use" && v.useClause(c) && (c.Where == "" || c.Where == "head") {
				v.useLemma(env, st, c)
			}
		}
	}
	nc := &loopCtx{entry: lc.entry}
	if decr != nil {
		for _, e := range decr.E {
			nc.meas = append(nc.meas, v.nameInt(st, env.intTerm(e)))
		}
	} else if !isRange {
		nc.meas = v.autoMeasure(st, fr, lp)
	}
	nc.head = st.clone()
	st.lastHead = nc.head
	st.loops[id] = nc
	return true
}

// cutState forgets how the loop was reached: what holds at its head is what its
// invariants say, so that its body and what follows are verified once for all the
// ways into the loop. The function must not have touched memory so far.
func (v *Verifier) cutState(st *State, fr *Frame, lp *loop) {
	base := fr.entry
	if !fr.root {
		unsupported("option cut in an inlined function")
	}
	if st.alloc != base.alloc {
		unsupported("option cut after an allocation")
	}
	for k, h := range st.heap {
		if b, ok := base.heap[k]; ok && b != h {
			unsupported("option cut after a store")
		}
	}
	for id := range st.loops {
		if ol := v.loopsOf(fr.fn).headers[id.hdr]; id.fr == fr.id && ol != nil && ol != lp && ol.blocks[lp.header] {
			unsupported("option cut in a nested loop")
		}
	}
	st.ch = base.ch
	st.heap = map[string]Term{}
	for k, h := range base.heap {
		st.heap[k] = h
	}
	st.loops = map[loopID]*loopCtx{}
	regs := map[regKey]*Value{}
	for k, r := range st.regs {
		switch a := k.v.(type) {
		case *ssa.Parameter:
			regs[k] = r
		case *ssa.Alloc:
			if r.A == nil || r.A.local == nil {
				unsupported("option cut with the escaping variable %s", a.Comment)
			}
			regs[k] = r
		}
	}
	st.regs = regs
	var las []*ssa.Alloc
	for k := range st.locals {
		las = append(las, k.v.(*ssa.Alloc))
	}
	sort.Slice(las, func(i, j int) bool {
		if las[i].Block().Index != las[j].Block().Index {
			return las[i].Block().Index < las[j].Block().Index
		}
		return las[i].Name() < las[j].Name()
	})
	for _, a := range las {
		var param *ssa.Parameter
		stores := 0
		for _, r := range *a.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == a {
				stores++
				param, _ = s.Val.(*ssa.Parameter)
			}
		}
		k := regKey{fr.id, a}
		if stores == 1 && param != nil {
			continue
		}
		st.locals[k] = v.freshVal(st, a.Comment, a.Type().Underlying().(*types.Pointer).Elem())
	}
}

func (v *Verifier) nameInt(st *State, t Term) Term { return v.name(st, t, "Int") }

func (v *Verifier) havocLeaves(st *State, t types.Type, idx []int) {
	ls := layout(t)
	names := make([]string, len(ls))
	for i := range ls {
		names[i] = v.heapOf(st, t, i)
	}
	for _, i := range idx {
		names[i] = v.declare(st, "H!"+typeKey(t)+ls[i].Path, "(Array Int (Array Int "+ls[i].Sort+"))")
		st.heap[heapKey(t, ls[i])] = names[i]
	}
	for _, i := range idx {
		for _, a := range heapAxioms(t, i, func(j int) Term { return names[j] }, st.alloc) {
			st.cmd(a)
		}
	}
}

func (v *Verifier) obligeDecrease(st *State, old, new []Term, kind, desc string, pos interface{}) {
	n := len(old)
	if len(new) < n {
		n = len(new)
	}
	var dis []Term
	eq := "true"
	for i := 0; i < n; i++ {
		dis = append(dis, And(eq, Lt(new[i], old[i]), Le("0", old[i])))
		eq = And(eq, Eq(new[i], old[i]))
	}
	if len(new) < len(old) {
		dis = append(dis, eq)
	}
	v.oblige(st, Or(dis...), kind, desc+": the measure decreases", v.curPos, []string{"C01", "TERM"})
}

// autoMeasure guesses N - i for loops whose header compares i < N.
func (v *Verifier) autoMeasure(st *State, fr *Frame, lp *loop) []Term {
	s := st.clone()
	for _, in := range lp.header.Instrs {
		switch x := in.(type) {
		case *ssa.UnOp, *ssa.Convert, *ssa.FieldAddr:
			if u, ok := x.(*ssa.UnOp); ok && u.Op.String() == "*" {
				if a, isA := u.X.(*ssa.Alloc); !isA || a.Heap {
					return nil
				}
			}
			n := len(v.obls)
			v.instr(s, fr, in)
			v.obls = v.obls[:n]
		case *ssa.Call:
			b, ok := x.Common().Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				return nil
			}
			v.set(s, fr, x, &Value{T: x.Type(), L: []Term{v.lenOf(v.val(s, fr, x.Common().Args[0]))}})
		case *ssa.BinOp:
			if op := x.Op.String(); op == "<" || op == "<=" || op == "!=" {
				a, ok1 := s.regs[regKey{fr.id, x.X}]
				_ = a
				_ = ok1
				l, r := v.val(s, fr, x.X), v.val(s, fr, x.Y)
				if len(l.L) == 1 && len(r.L) == 1 && !isFloat(x.X.Type()) {
					st.ch = s.ch
					return []Term{Add(Sub(r.L[0], l.L[0]), "1")}
				}
			}
			return nil
		default:
			return nil
		}
	}
	return nil
}
