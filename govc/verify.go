package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Verifier generates proof obligations for the functions of the program.
type Verifier struct {
	spec         *Spec
	prog         *ssa.Program
	repoPkgs     map[*ssa.Package]bool
	allPkgs      []*types.Package
	ssaByPath    map[string]*ssa.Package
	obls         []*Obl
	counter      int
	base         int
	heapTypes    map[string]types.Type
	heapLeaf     map[string]heapInfo
	slice        string
	slices       map[string]bool
	curFunc      string
	curRoot      *ssa.Function
	curFrame     *Frame
	curPos       token.Pos
	steps        int
	frames       int
	returns      []*Chain
	entryMeasure []Term
	entryChain   *Chain
	tags         map[string]int
	tagTypes     []types.Type
	rawFuncs     map[string]string
	sccOf        map[string]map[string]bool
	usedLemmas   map[string]bool
	globalStored map[*ssa.Global]bool
	notes        map[string]bool
	usedExtern   map[string]bool
	usedContract map[string]bool
	inlined      map[string]bool
	guardsDone   bool
	guardList    []*Guard
	loopInfo     map[*ssa.Function]*loopInfo
	gdecl        map[string]*gdecl
	gorder       []string
	strs         map[string]string
	floats       map[string]string
	tables       map[string]string
	allFns       map[string]*ssa.Function
	fnNames      map[*ssa.Function]string
	fnIDs        map[*ssa.Function]int
	recDepth     map[*ssa.Function]bool
	callees      map[*ssa.Function]map[*ssa.Function]bool
	autoAx       map[string]string
	cuts         map[loopID]bool
	autoHeads    map[string][][]string
	usedFuncs    map[string]bool
	covers       []*Obl
	failFast     int
	reveals      map[string]bool
}

// gdecl is a global declaration included in a script when its name is used.
type gdecl struct {
	name   string
	decl   string
	axioms []string
	order  int
}

func (v *Verifier) gdef(name, decl string, axioms ...string) {
	if v.gdecl[name] != nil {
		return
	}
	v.gdecl[name] = &gdecl{name, decl, axioms, len(v.gdecl)}
}

func loadProgram(dir string) (*ssa.Program, []*ssa.Package, []*packages.Package, error) {
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedDeps | packages.NeedExportFile, Dir: dir}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, nil, nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, nil, nil, fmt.Errorf("%v", e)
		}
	}
	prog, ps := ssautil.Packages(pkgs, ssa.NaiveForm)
	prog.Build()
	return prog, ps, pkgs, nil
}

func newVerifier(spec *Spec, prog *ssa.Program, ps []*ssa.Package) *Verifier {
	v := &Verifier{spec: spec, prog: prog, heapTypes: map[string]types.Type{}, heapLeaf: map[string]heapInfo{}, slices: map[string]bool{}, tags: map[string]int{}, usedLemmas: map[string]bool{}, globalStored: map[*ssa.Global]bool{}, notes: map[string]bool{}, usedExtern: map[string]bool{}, usedContract: map[string]bool{}, inlined: map[string]bool{}, loopInfo: map[*ssa.Function]*loopInfo{}, gdecl: map[string]*gdecl{}, strs: map[string]string{}, floats: map[string]string{}, tables: map[string]string{}, repoPkgs: map[*ssa.Package]bool{}, ssaByPath: map[string]*ssa.Package{}, allFns: map[string]*ssa.Function{}, fnNames: map[*ssa.Function]string{}, fnIDs: map[*ssa.Function]int{}, callees: map[*ssa.Function]map[*ssa.Function]bool{}, autoAx: map[string]string{}, autoHeads: map[string][][]string{}, usedFuncs: map[string]bool{}, reveals: map[string]bool{}}
	v.rawFuncs = rawFuncTable()
	theGhost = spec.Ghost
	theGhostResolve = func(pkgOf *types.Package, s string) types.Type { return v.resolveType(pkgOf, s) }
	if prog == nil {
		return v
	}
	for _, p := range ps {
		v.repoPkgs[p] = true
	}
	for _, p := range prog.AllPackages() {
		v.allPkgs = append(v.allPkgs, p.Pkg)
		v.ssaByPath[p.Pkg.Path()] = p
	}
	sort.Slice(v.allPkgs, func(i, j int) bool {
		a, b := v.repoPkgs[v.ssaByPath[v.allPkgs[i].Path()]], v.repoPkgs[v.ssaByPath[v.allPkgs[j].Path()]]
		if a != b {
			return a
		}
		return v.allPkgs[i].Path() < v.allPkgs[j].Path()
	})
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == nil || !v.repoPkgs[fn.Pkg] {
			continue
		}
		n := fn.Pkg.Pkg.Name() + "." + v.fnName(fn)
		v.allFns[n] = fn
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g := rootGlobal(s.Addr); g != nil && !(fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")) {
						v.globalStored[g] = true
					}
				}
			}
		}
	}
	v.markRecursive()
	return v
}

func rootGlobal(x ssa.Value) *ssa.Global {
	for {
		switch a := x.(type) {
		case *ssa.Global:
			return a
		case *ssa.FieldAddr:
			x = a.X
		case *ssa.IndexAddr:
			x = a.X
		default:
			return nil
		}
	}
}

func (v *Verifier) note(s string) { v.notes[s] = true }

// fnName is the name of a function inside its package: F, T.M or (*T).M.
func (v *Verifier) fnName(fn *ssa.Function) string {
	if n, ok := v.fnNames[fn]; ok {
		return n
	}
	n := fn.Name()
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			n = "(*" + types.TypeString(p.Elem(), func(*types.Package) string { return "" }) + ")." + n
		} else {
			n = "(" + types.TypeString(t, func(*types.Package) string { return "" }) + ")." + n
		}
	}
	v.fnNames[fn] = n
	return n
}

func (v *Verifier) fullName(fn *ssa.Function) string {
	// external name such as strings.IndexByte or (*strings.Builder).WriteByte
	if r := fn.Signature.Recv(); r != nil {
		q := func(p *types.Package) string { return p.Name() }
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			return "(*" + types.TypeString(p.Elem(), q) + ")." + fn.Name()
		}
		return "(" + types.TypeString(t, q) + ")." + fn.Name()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Name() + "." + fn.Name()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Name() + "." + fn.Name()
	}
	return fn.Name()
}

func (v *Verifier) specOf(fn *ssa.Function) *FuncSpec {
	if fn.Pkg != nil {
		if s := v.spec.Funcs[fn.Pkg.Pkg.Name()+"."+v.fnName(fn)]; s != nil && v.repoPkgs[fn.Pkg] {
			return s
		}
	}
	if s := v.spec.Funcs[v.fullName(fn)]; s != nil && s.Extern {
		return s
	}
	return nil
}

func (v *Verifier) funcID(fn *ssa.Function) int {
	if id, ok := v.fnIDs[fn]; ok {
		return id
	}
	id := len(v.fnIDs) + 1
	v.fnIDs[fn] = id
	return id
}

func (v *Verifier) pkgByPath(p string) *types.Package {
	for _, q := range v.allPkgs {
		if q.Path() == p || q.Name() == p {
			return q
		}
	}
	if p == "" {
		return nil
	}
	panic(specErr{"unknown package " + p})
}

func (v *Verifier) globalOf(pkg *types.Package, name string) *ssa.Global {
	sp := v.ssaByPath[pkg.Path()]
	if sp == nil {
		return nil
	}
	g, _ := sp.Members[name].(*ssa.Global)
	return g
}

func (v *Verifier) gname(g *ssa.Global) string {
	return sym(g.Pkg.Pkg.Name() + "." + g.Name())
}

// globalConst gives the value of a package variable that is only assigned by initialisation.
func (v *Verifier) globalConst(g *ssa.Global) []Term {
	et := g.Type().Underlying().(*types.Pointer).Elem()
	ls := layout(et)
	out := make([]Term, len(ls))
	for i, l := range ls {
		out[i] = "G!" + v.gname(g) + l.Path
	}
	facts := leafFacts(ls, func(i int) Term { return out[i] }, "A0")
	if v.initCall(g) == "math.NaN" {
		facts = append(facts, App("f_nan", out[0]))
		v.usedExtern["math.NaN"] = true
	}
	if c := v.initCall(g); c == "errors.New" || c == "fmt.Errorf" {
		for i, l := range ls {
			if strings.HasSuffix(l.Path, ".t") {
				facts = append(facts, Not(Eq(out[i], "0")))
			}
		}
		v.usedExtern[c] = true
	}
	for i, l := range ls {
		var ax []string
		if i == 0 {
			for _, f := range facts {
				ax = append(ax, "(assert "+f+")")
			}
		}
		v.gdef(out[i], "(declare-const "+out[i]+" "+l.Sort+")", ax...)
	}
	return out
}

// initCall names the function whose result initialises a package variable.
func (v *Verifier) initCall(g *ssa.Global) string {
	f := g.Pkg.Func("init")
	if f == nil {
		return ""
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == g {
				if c, ok := st.Val.(*ssa.Call); ok {
					if fn := c.Common().StaticCallee(); fn != nil {
						return fn.String()
					}
				}
			}
		}
	}
	return ""
}

func (v *Verifier) globalRef(g *ssa.Global) Term {
	n := "Gref!" + v.gname(g)
	v.gdef(n, "(declare-const "+n+" Int)", "(assert (and (< 0 "+n+") (< "+n+" A0)))")
	return n
}

func (v *Verifier) strConst(s string) Term {
	if n, ok := v.strs[s]; ok {
		return n
	}
	n := fmt.Sprintf("S!%d", len(v.strs)+1)
	v.strs[s] = n
	var ax []string
	ax = append(ax, "(assert (< 0 "+n+"))")
	if len(s) <= 64 {
		for i := 0; i < len(s); i++ {
			ax = append(ax, fmt.Sprintf("(assert (= (SB %s %d) %d))", n, i, s[i]))
		}
	}
	if len(s) <= 12 {
		r := "rempty"
		for i := 0; i < len(s); i++ {
			r = Rcat(r, App("runit", Num(int64(s[i]))))
		}
		ax = append(ax, fmt.Sprintf("(assert (= (srope %s 0 %d) %s))", n, len(s), r))
	}
	v.gdef(n, "(declare-const "+n+" Int)", ax...)
	return n
}

func realTerm(r *big.Rat) Term {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	t := a.Num().String() + ".0"
	if !a.IsInt() {
		t = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
	}
	if neg {
		t = "(- " + t + ")"
	}
	return t
}

func (v *Verifier) floatConst(c constant.Value) Term {
	f, _ := constant.Float64Val(constant.ToFloat(c))
	k := fmt.Sprintf("%b", f)
	if n, ok := v.floats[k]; ok {
		return n
	}
	if f == 0 {
		return "f64zero"
	}
	n := fmt.Sprintf("F!%d", len(v.floats)+1)
	v.floats[k] = n
	r := new(big.Rat)
	r.SetFloat64(f)
	v.gdef(n, "(declare-const "+n+" F64)", "(assert (and (f_fin "+n+") (= (fval "+n+") "+realTerm(r)+")))")
	return n
}

// tableLookup reads a constant string at a symbolic index.
func (v *Verifier) tableLookup(s string, i Term) Term {
	if n, ok := numOf(i); ok && n.IsInt64() && n.Int64() >= 0 && n.Int64() < int64(len(s)) {
		return Num(int64(s[n.Int64()]))
	}
	name, ok := v.tables[s]
	if !ok {
		name = fmt.Sprintf("tab!%d", len(v.tables)+1)
		v.tables[s] = name
		// runs of slope 0 or 1
		type run struct{ lo, hi, slope int }
		var runs []run
		for p := 0; p < len(s); {
			q := p + 1
			slope := 0
			if q < len(s) && int(s[q]) == int(s[p])+1 {
				slope = 1
			}
			for q < len(s) && int(s[q]) == int(s[p])+slope*(q-p) {
				q++
			}
			if slope == 1 && q-p < 3 {
				q, slope = p+1, 0
			}
			runs = append(runs, run{p, q, slope})
			p = q
		}
		term := func(r run) Term {
			if r.slope == 0 {
				return Num(int64(s[r.lo]))
			}
			return Add("x", Num(int64(s[r.lo])-int64(r.lo)))
		}
		t := "0"
		if len(runs) > 0 {
			t = term(runs[len(runs)-1])
		}
		for k := len(runs) - 2; k >= 0; k-- {
			t = fmt.Sprintf("(ite (< x %d) %s %s)", runs[k].hi, term(runs[k]), t)
		}
		v.gdef(name, "(define-fun "+name+" ((x Int)) Int "+t+")")
	}
	return App(name, i)
}

// ---- maps

var mapElemTypes = map[string]types.Type{}

// mapElem is the synthetic element type of the heap of a map type.
func mapElem(t types.Type) (types.Type, bool) {
	m := t.Underlying().(*types.Map)
	if kb, ok := m.Key().Underlying().(*types.Basic); !ok || kb.Info()&types.IsString == 0 {
		// keys of other types: cells are chosen by an unknown function of the parts of the key
		ls := layout(m.Key())
		for _, l := range ls {
			if l.Sort != "Int" {
				return nil, false
			}
		}
		if len(ls) < 1 || len(ls) > 4 {
			return nil, false
		}
	}
	k := types.TypeString(m, nil)
	if e, ok := mapElemTypes[k]; ok {
		return e, true
	}
	st := types.NewStruct([]*types.Var{types.NewField(0, nil, "present", types.Typ[types.Bool], false), types.NewField(0, nil, "val", m.Elem(), false)}, nil)
	mapElemTypes[k] = st
	return st, true
}

func (v *Verifier) mapKey(st *State, t types.Type, l []Term) Term {
	if kb, ok := t.Underlying().(*types.Map).Key().Underlying().(*types.Basic); ok && kb.Info()&types.IsString != 0 {
		return App("rid", App("srope", l...))
	}
	name := fmt.Sprintf("G!mkey%d", len(l))
	// different keys have different cells
	vars, sorts, eqs := []string{}, []string{}, []Term{}
	for i := range l {
		vars = append(vars, fmt.Sprintf("k%d", i))
		sorts = append(sorts, fmt.Sprintf("(k%d Int)", i))
	}
	cell := App(name, vars...)
	for i := range l {
		inv := mapKeyInv(len(l), i)
		v.gdef(inv, "(declare-fun "+inv+" (Int) Int)")
		eqs = append(eqs, Eq(App(inv, cell), vars[i]))
	}
	v.gdef(name, "(declare-fun "+name+" ("+strings.Repeat("Int ", len(l))+") Int)", "(assert (forall ("+strings.Join(sorts, " ")+") (! "+And(eqs...)+" :pattern ("+cell+"))))")
	return App(name, l...)
}

func mapKeyInv(n, i int) string { return fmt.Sprintf("G!mkinv%d.%d", n, i) }

// mapKeyAt is the key whose cell it is.
func (v *Verifier) mapKeyAt(t types.Type, cell Term) []Term {
	var out []Term
	n := len(layout(t.Underlying().(*types.Map).Key()))
	for i := 0; i < n; i++ {
		inv := mapKeyInv(n, i)
		v.gdef(inv, "(declare-fun "+inv+" (Int) Int)")
		out = append(out, App(inv, cell))
	}
	return out
}

func (v *Verifier) mapInit(st *State, r Term, t types.Type) {
	e, ok := mapElem(t)
	if !ok {
		return
	}
	for i, l := range layout(e) {
		h := v.heapOf(st, e, i)
		v.setHeap(st, e, i, Sto(h, r, fmt.Sprintf("((as const (Array Int %s)) %s)", l.Sort, zeroLeaf(l))))
	}
}

func (v *Verifier) mapUpdate(st *State, fr *Frame, x *ssa.MapUpdate) {
	m := v.val(st, fr, x.Map)
	e, ok := mapElem(x.Map.Type())
	if !ok {
		unsupported("map with keys of type %v", x.Map.Type())
	}
	v.oblige(st, Not(Eq(m.L[0], "0")), "safety", "assignment to entry in nil map", x.Pos(), nil)
	v.guardMap(st, m.L[0], x.Map.Type(), true, x.Pos())
	k := v.mapKey(st, x.Map.Type(), v.asLeaves(st, v.val(st, fr, x.Key)).L)
	val := append([]Term{"true"}, v.asLeaves(st, v.val(st, fr, x.Value)).L...)
	for i := range layout(e) {
		h := v.heapOf(st, e, i)
		v.setHeap(st, e, i, Sto2(h, m.L[0], k, val[i]))
	}
}

func (v *Verifier) mapLookup(st *State, fr *Frame, x *ssa.Lookup) {
	m := v.val(st, fr, x.X)
	e, ok := mapElem(x.X.Type())
	if !ok {
		// unknown key type: any valid value
		unsupported("map lookup on %v", x.X.Type())
	}
	v.guardMap(st, m.L[0], x.X.Type(), false, x.Pos())
	k := v.mapKey(st, x.X.Type(), v.asLeaves(st, v.val(st, fr, x.Index)).L)
	ls := layout(e)
	pres := And(Not(Eq(m.L[0], "0")), Sel2(v.heapOf(st, e, 0), m.L[0], k))
	var out []Term
	for i := 1; i < len(ls); i++ {
		out = append(out, Ite(pres, Sel2(v.heapOf(st, e, i), m.L[0], k), zeroLeaf(ls[i])))
	}
	if x.CommaOk {
		out = append(out, pres)
	}
	v.set(st, fr, x, &Value{T: x.Type(), L: out})
}

var nameRe = regexp.MustCompile(`[A-Za-z0-9_.!@$~]+`)
