package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Chain is a persistent list of SMT commands (declarations and assumptions).
type Chain struct {
	prev *Chain
	text string
}

func (c *Chain) list() []string {
	var out []string
	for x := c; x != nil; x = x.prev {
		out = append(out, x.text)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

type regKey struct {
	fr int
	v  ssa.Value
}

type State struct {
	ch       *Chain
	heap     map[string]Term
	alloc    Term
	regs     map[regKey]*Value
	locals   map[regKey][]Term
	meas     map[regKey][]Term // loop header measure (key: frame, first alloc nil) see loopKey
	loops    map[loopID]*loopCtx
	trace    []string
	lastHead *State              // state at the latest loop head entered
	last     map[string]*callRec // latest call of each function on this path
	count    map[string]int      // how often each function was called on this path
	loopy    bool                // the path went through a loop
	base     string              // prefix of the initial heap symbols
	gused    []guardUse          // guarded fields used on the path
	gstored  []Term              // maps stored into guarded fields on the path
	gmade    []Term              // maps made on the path
	defers   map[int][]deferred  // deferred calls by frame
}

type deferred struct {
	x    *ssa.Defer
	args []*Value
}

type callRec struct {
	pre  *State
	post *State
	vals []*Value
	args []*Value
}

type loopID struct {
	fr  int
	hdr *ssa.BasicBlock
}

type loopCtx struct {
	meas  []Term
	entry *State
	head  *State
}

func (st *State) clone() *State {
	n := &State{lastHead: st.lastHead, gused: st.gused, gstored: st.gstored, gmade: st.gmade, defers: st.defers, last: st.last, count: st.count, loopy: st.loopy, base: st.base, ch: st.ch, alloc: st.alloc, heap: make(map[string]Term, len(st.heap)), regs: make(map[regKey]*Value, len(st.regs)), locals: make(map[regKey][]Term, len(st.locals)), loops: make(map[loopID]*loopCtx, len(st.loops))}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	for k, v := range st.regs {
		n.regs[k] = v
	}
	for k, v := range st.locals {
		n.locals[k] = v
	}
	for k, v := range st.loops {
		n.loops[k] = v
	}
	n.trace = st.trace[:len(st.trace):len(st.trace)]
	return n
}

func (st *State) cmd(s string) { st.ch = &Chain{st.ch, s} }
func (st *State) assume(t Term) {
	if t == "true" || t == "" {
		return
	}
	st.cmd("(assert " + t + ")")
}

// Value is a symbolic Go value: leaves, or the address of a location.
type Value struct {
	T types.Type
	L []Term
	A *Addr
}

type Addr struct {
	local  *ssa.Alloc // local variable (non escaping)
	fr     int
	elemT  types.Type // heap element type
	ref    Term
	idx    Term
	start  int
	n      int
	T      types.Type
	nonnil bool
	global string
}

type Obl struct {
	Func  string
	Kind  string
	Desc  string
	Pos   token.Position
	Goal  Term
	Chain *Chain
	Tags  []string
	Trace []string
	// results
	Status string // proved, failed, unknown, trivial
	Solver string
	Time   float64
	Model  string
	Expect string
	ID     string
}

func (o *Obl) Name() string {
	return fmt.Sprintf("%s/%s@%s:%d %s", o.Func, o.Kind, shortFile(o.Pos.Filename), o.Pos.Line, o.Desc)
}

func shortFile(f string) string {
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		return f[i+1:]
	}
	return f
}

type Unsupported struct{ msg string }

func (u Unsupported) Error() string { return u.msg }

func unsupported(f string, a ...interface{}) {
	panic(Unsupported{fmt.Sprintf(f, a...)})
}

func (v *Verifier) fresh(prefix string) string {
	v.counter++
	return fmt.Sprintf("%s!%d", sym(prefix), v.counter)
}

func (v *Verifier) declare(st *State, prefix, sort string) Term {
	n := v.fresh(prefix)
	st.cmd("(declare-const " + n + " " + sort + ")")
	return n
}

// name gives a term a name if it is large.
func (v *Verifier) name(st *State, t Term, sort string) Term {
	if len(t) < 70 {
		return t
	}
	n := v.fresh("t")
	st.cmd("(define-fun " + n + " () " + sort + " " + t + ")")
	return n
}

// ---- heaps

type heapInfo struct {
	key  string
	leaf Leaf
	elem types.Type
	i    int
}

func heapKey(t types.Type, l Leaf) string { return typeKey(t) + l.Path }

func (v *Verifier) regHeap(t types.Type) {
	tk := typeKey(t)
	if v.heapTypes[tk] != nil {
		return
	}
	v.heapTypes[tk] = t
	for i, l := range layout(t) {
		k := tk + l.Path
		v.heapLeaf[k] = heapInfo{k, l, t, i}
	}
}

func (v *Verifier) heapOf(st *State, t types.Type, i int) Term {
	v.regHeap(t)
	l := layout(t)[i]
	k := heapKey(t, l)
	if h, ok := st.heap[k]; ok {
		return h
	}
	if st.base != "" {
		return st.base + sym(k)
	}
	return "H0!" + sym(k)
}

func (v *Verifier) setHeap(st *State, t types.Type, i int, h Term) {
	v.regHeap(t)
	l := layout(t)[i]
	k := heapKey(t, l)
	if len(h) > 60 {
		n := v.fresh("h")
		st.cmd("(define-fun " + n + " () (Array Int (Array Int " + l.Sort + ")) " + h + ")")
		h = n
	}
	st.heap[k] = h
}

// heapAxioms gives validity axioms of heap constant h for leaf i of type t below alloc.
func heapAxioms(t types.Type, i int, name func(j int) Term, alloc Term) []string {
	ls := layout(t)
	get := func(j int) Term { return Sel2(name(j), "r", "i") }
	fs := leafFactsAt(ls, i, get, alloc)
	if len(fs) == 0 {
		return nil
	}
	return []string{fmt.Sprintf("(assert (forall ((r Int) (i Int)) (! (=> (and (<= 0 r) (< r %s)) %s) :pattern (%s))))", alloc, And(fs...), get(i))}
}

func leafFactsAt(ls []Leaf, i int, get func(i int) Term, alloc Term) []Term {
	sub := leafFacts(ls[i:i+1], func(k int) Term { return get(i + k) }, alloc)
	return sub
}

// havocHeap replaces all leaves of heap of type t by fresh constants.
func (v *Verifier) havocHeap(st *State, t types.Type) {
	v.regHeap(t)
	ls := layout(t)
	names := make([]string, len(ls))
	for i, l := range ls {
		names[i] = v.declare(st, "H!"+typeKey(t)+l.Path, "(Array Int (Array Int "+l.Sort+"))")
	}
	for i, l := range ls {
		st.heap[heapKey(t, l)] = names[i]
	}
	for i := range ls {
		for _, a := range heapAxioms(t, i, func(j int) Term { return names[j] }, st.alloc) {
			st.cmd(a)
		}
	}
}

// ---- loads and stores

func (v *Verifier) loadAddr(st *State, a *Addr) []Term {
	if a.local != nil {
		ls, ok := st.locals[regKey{a.fr, a.local}]
		if !ok {
			unsupported("load of uninitialised local %s", a.local.Comment)
		}
		return append([]Term(nil), ls[a.start:a.start+a.n]...)
	}
	out := make([]Term, a.n)
	for k := 0; k < a.n; k++ {
		out[k] = Sel2(v.heapOf(st, a.elemT, a.start+k), a.ref, a.idx)
	}
	return out
}

func (v *Verifier) storeAddr(st *State, a *Addr, val []Term) {
	if len(val) != a.n {
		unsupported("store of %d leaves into %d (%s)", len(val), a.n, a.T)
	}
	if a.local != nil {
		k := regKey{a.fr, a.local}
		ls, ok := st.locals[k]
		if !ok {
			unsupported("store to uninitialised local %s", a.local.Comment)
		}
		n := append([]Term(nil), ls...)
		for i := range val {
			srt := layout(a.local.Type().Underlying().(*types.Pointer).Elem())[a.start+i].Sort
			n[a.start+i] = v.name(st, val[i], srt)
		}
		st.locals[k] = n
		return
	}
	for k := 0; k < a.n; k++ {
		h := v.heapOf(st, a.elemT, a.start+k)
		v.setHeap(st, a.elemT, a.start+k, Sto2(h, a.ref, a.idx, val[k]))
	}
}

func (v *Verifier) freshVal(st *State, prefix string, t types.Type) []Term {
	ls := layout(t)
	out := make([]Term, len(ls))
	for i, l := range ls {
		out[i] = v.declare(st, prefix+l.Path, l.Sort)
	}
	for _, f := range leafFacts(ls, func(i int) Term { return out[i] }, st.alloc) {
		st.assume(f)
	}
	return out
}

// assumeValid adds validity facts for loaded leaves.
func (v *Verifier) assumeValid(st *State, t types.Type, l []Term) {
	if len(l) > 16 {
		return
	}
	for _, f := range leafFacts(layout(t), func(i int) Term { return l[i] }, st.alloc) {
		st.assume(f)
	}
}

func (v *Verifier) newRef(st *State) Term {
	r := st.alloc
	n := v.fresh("A")
	st.cmd("(define-fun " + n + " () Int " + Add(r, "1") + ")")
	st.alloc = n
	return r
}

// allocZero allocates a new block of zero elements of type t.
func (v *Verifier) allocZero(st *State, t types.Type) Term {
	r := v.newRef(st)
	for i, l := range layout(t) {
		h := v.heapOf(st, t, i)
		v.setHeap(st, t, i, Sto(h, r, fmt.Sprintf("((as const (Array Int %s)) %s)", l.Sort, zeroLeaf(l))))
	}
	return r
}

func (v *Verifier) oblige(st *State, goal Term, kind, desc string, pos token.Pos, tags []string) {
	o := &Obl{Func: v.curFunc, Kind: kind, Desc: desc, Pos: v.prog.Fset.Position(pos), Goal: goal, Chain: st.ch, Tags: tags, Trace: st.trace}
	o.ID = fmt.Sprintf("%s#%d", v.curFunc, len(v.obls)-v.base)
	v.obls = append(v.obls, o)
	st.assume(goal)
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
