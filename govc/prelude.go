package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
)

func rawFuncTable() map[string]string {
	return map[string]string{
		"rlen": "int", "rcat": "rope", "runit": "rope", "rid": "int",
		"fval": "real", "f_fin": "bool", "f_nan": "bool", "f_inf": "int", "f_neg": "f64", "f_ofint": "f64", "RND": "f64", "f_lt": "bool", "f_le": "bool", "f_eq": "bool",
		"pow10r": "real", "rmul": "real", "rdiv": "real", "f_sign": "int", "f_repr": "bool", "f_to32": "f64", "band": "int", "bor": "int", "implements": "bool", "f_trunc": "f64",
		"f_toint_int64": "int", "f_toint_uint64": "int",
		"rngU": "bool", "pow2_": "int", "arope": "rope", "srope": "rope", "SEG": "rope", "JOIN": "bool",
	}
}

const preludeOpts = `(set-option :smt.auto_config false)
(set-option :smt.solve_eqs.non_ground false)
(set-option :smt.array.extensional false)
(set-option :smt.mbqi false)
(set-option :smt.case_split 3)
(set-option :smt.qi.eager_threshold 100)
(set-option :smt.delay_units true)
(set-option :type_check true)
`

// preludeCore is always included.
const preludeCore = `(declare-const A0 Int)
(declare-const A1 Int)
(assert (< 0 A0))
(assert (and (< 0 A1) (<= A1 A0)))
(declare-fun SB (Int Int) Int)
(assert (forall ((b Int) (o Int)) (! (and (<= 0 (SB b o)) (<= (SB b o) 255)) :pattern ((SB b o)))))
`

type preItem struct {
	names  []string // symbols that trigger inclusion
	text   string
	always bool
}

func wrapDefs() []preItem {
	var out []preItem
	for _, b := range []int{8, 16, 32, 64} {
		m := pow2(b).String()
		h := pow2(b - 1).String()
		u := fmt.Sprintf("wu%d", b)
		s := fmt.Sprintf("ws%d", b)
		out = append(out, preItem{names: []string{u}, text: fmt.Sprintf("(define-fun %s ((x Int)) Int (ite (and (<= 0 x) (< x %s)) x (mod x %s)))\n", u, m, m)})
		out = append(out, preItem{names: []string{s}, text: fmt.Sprintf("(define-fun %s ((x Int)) Int (ite (and (<= (- %s) x) (< x %s)) x (- (mod (+ x %s) %s) %s)))\n", s, h, h, h, m, h)})
	}
	return out
}

func preludeItems() []preItem {
	items := []preItem{
		{names: []string{"R", "rcat", "runit", "rempty", "srope", "arope", "SEG", "JOIN", "rlen", "rid"}, text: `(declare-sort R 0)
(declare-fun rcat (R R) R)
(declare-fun runit (Int) R)
(declare-const rempty R)
(declare-fun srope (Int Int Int) R)
(declare-fun arope ((Array Int Int) Int Int) R)
(declare-fun rlen (R) Int)
(assert (forall ((x R)) (! (= (rcat rempty x) x) :pattern ((rcat rempty x)))))
(assert (forall ((x R)) (! (= (rcat x rempty) x) :pattern ((rcat x rempty)))))
(assert (= (rlen rempty) 0))
(assert (forall ((c Int)) (! (= (rlen (runit c)) 1) :pattern ((runit c)))))
(assert (forall ((x R) (y R)) (! (= (rlen (rcat x y)) (+ (rlen x) (rlen y))) :pattern ((rlen (rcat x y))))))
(assert (forall ((x R)) (! (and (<= 0 (rlen x)) (=> (= (rlen x) 0) (= x rempty))) :pattern ((rlen x)))))
(assert (forall ((b Int) (o Int) (l Int)) (! (=> (<= 0 l) (= (rlen (srope b o l)) l)) :pattern ((srope b o l)))))
(assert (forall ((b Int) (o Int) (l Int)) (! (and (=> (= l 0) (= (srope b o l) rempty)) (=> (= l 1) (= (srope b o l) (runit (SB b o))))) :pattern ((srope b o l)))))
(assert (forall ((a (Array Int Int)) (o Int) (l Int)) (! (=> (<= 0 l) (= (rlen (arope a o l)) l)) :pattern ((arope a o l)))))
(assert (forall ((a (Array Int Int)) (o Int) (l Int)) (! (and (=> (= l 0) (= (arope a o l) rempty)) (=> (= l 1) (= (arope a o l) (runit (select a o))))) :pattern ((arope a o l)))))
(declare-fun JOIN ((Array Int Int) Int Int Int) Bool)
(assert (forall ((a (Array Int Int)) (o Int) (l Int) (m Int)) (! (and (JOIN a o l m) (=> (and (<= 0 l) (<= 0 m)) (= (arope a o (+ l m)) (rcat (arope a o l) (arope a (+ o l) m))))) :pattern ((JOIN a o l m)))))
(declare-fun SEG (R Int Int Int) R)
(assert (forall ((x R) (b Int) (o Int) (p Int)) (! (= (SEG x b o p) (rcat x (srope b o (- p o)))) :pattern ((SEG x b o p)))))
(assert (forall ((x R) (b Int) (o Int) (p Int) (c Int)) (! (=> (and (<= o p) (= c (SB b p))) (= (rcat (SEG x b o p) (runit c)) (SEG x b o (+ p 1)))) :pattern ((rcat (SEG x b o p) (runit c))))))
(assert (forall ((x R) (b Int) (o Int) (p Int) (l Int)) (! (=> (and (<= o p) (<= 0 l)) (= (rcat (SEG x b o p) (srope b p l)) (SEG x b o (+ p l)))) :pattern ((rcat (SEG x b o p) (srope b p l))))))
(assert (forall ((a (Array Int Int)) (i Int) (c Int) (o Int) (l Int)) (! (=> (and (< 0 l) (= (+ i 1) (+ o l))) (= (arope (store a i c) o l) (rcat (arope a o (- l 1)) (runit c)))) :pattern ((arope (store a i c) o l)))))
(assert (forall ((a (Array Int Int)) (i Int) (c Int) (o Int) (l Int)) (! (=> (or (< i o) (<= (+ o l) i)) (= (arope (store a i c) o l) (arope a o l))) :pattern ((arope (store a i c) o l)))))
`},
		{names: []string{"rid"}, text: `(declare-fun rid (R) Int)
(declare-fun rid_inv (Int) R)
(assert (forall ((x R)) (! (= (rid_inv (rid x)) x) :pattern ((rid x)))))
`},
		{names: []string{"Fuel", "LS", "LZ", "FUEL", "FUEL1"}, text: `(declare-sort Fuel 0)
(declare-fun LS (Fuel) Fuel)
(declare-const LZ Fuel)
(define-fun FUEL () Fuel (LS (LS LZ)))
(define-fun FUEL1 () Fuel (LS LZ))
`},
		{names: []string{"pow2_"}, text: pow2Axioms()},
		{names: []string{"band", "bor"}, text: `(declare-fun band (Int Int) Int)
(declare-fun bor (Int Int) Int)
(assert (forall ((x Int) (y Int)) (! (= (bor x y) (- (+ x y) (band x y))) :pattern ((bor x y)))))
(assert (forall ((x Int) (y Int)) (! (=> (and (<= 0 x) (<= 0 y)) (and (<= 0 (band x y)) (<= (band x y) x) (<= (band x y) y))) :pattern ((band x y)))))
(assert (forall ((x Int) (y Int)) (! (= (band x y) (band y x)) :pattern ((band x y)))))
(assert (forall ((x Int)) (! (= (band x 0) 0) :pattern ((band x 0)))))
(assert (forall ((x Int)) (! (=> (<= 0 x) (= (band x x) x)) :pattern ((band x x)))))
(assert (forall ((x Int) (j Int)) (! (=> (and (<= 0 x) (<= 0 j)) (= (band x (pow2_ j)) (* (pow2_ j) (mod (div x (pow2_ j)) 2)))) :pattern ((band x (pow2_ j))))))
`},
		{names: []string{"implements"}, text: "(declare-fun implements (Int Int) Bool)\n"},
		{names: []string{"F64", "f64zero", "fval", "f_fin", "f_nan", "f_inf", "RND", "f_lt", "f_le", "f_eq", "f_add", "f_sub", "f_mul", "f_div", "f_neg", "f_ofint", "f_to32", "f_toint_int64", "f_toint_uint64", "pow10r", "rmul", "rdiv", "f_sign", "f_repr", "f_trunc"}, text: floatPrelude},
	}
	items = append(items, wrapDefs()...)
	return items
}

// floatPrelude axiomatises IEEE 754 doubles: fval is the real value of a finite
// double, RND the correctly rounded double of a real.
const floatPrelude = `(declare-sort F64 0)
(declare-fun fval (F64) Real)
(declare-fun f_fin (F64) Bool)
(declare-fun f_nan (F64) Bool)
(declare-fun f_inf (F64) Int)
(declare-fun f_negz (F64) Bool)
(declare-fun RND (Real) F64)
(declare-fun f_repr (Real) Bool)
(declare-const f64zero F64)
(declare-fun f_add (F64 F64) F64)
(declare-fun f_sub (F64 F64) F64)
(declare-fun f_mul (F64 F64) F64)
(declare-fun f_div (F64 F64) F64)
(declare-fun f_neg (F64) F64)
(declare-fun f_to32 (F64) F64)
; product and quotient of reals
(declare-fun rmul (Real Real) Real)
(declare-fun rdiv (Real Real) Real)
(assert (forall ((x Real)) (! (= (rmul x 1.0) x) :pattern ((rmul x 1.0)))))
(assert (forall ((x Real)) (! (= (rdiv x 1.0) x) :pattern ((rdiv x 1.0)))))
(declare-fun f_trunc (F64) F64)
(declare-fun f_toint_int64 (F64) Int)
(declare-fun f_toint_uint64 (F64) Int)
(assert (and (f_fin f64zero) (= (fval f64zero) 0.0) (= f64zero (RND 0.0))))
(define-fun f_ofint ((n Int)) F64 (RND (to_real n)))
; a double is a number, an infinity (with its sign) or not a number
(assert (forall ((x F64)) (! (and (=> (f_fin x) (and (not (f_nan x)) (= (f_inf x) 0))) (=> (f_nan x) (= (f_inf x) 0)) (<= (- 1) (f_inf x) 1) (or (f_fin x) (f_nan x) (not (= (f_inf x) 0)))) :pattern ((f_fin x)))))
(assert (forall ((x F64)) (! (and (=> (f_fin x) (and (not (f_nan x)) (= (f_inf x) 0))) (=> (f_nan x) (= (f_inf x) 0)) (<= (- 1) (f_inf x) 1) (or (f_fin x) (f_nan x) (not (= (f_inf x) 0)))) :pattern ((f_nan x)))))
(assert (forall ((x F64)) (! (=> (f_fin x) (f_repr (fval x))) :pattern ((fval x)))))
(assert (forall ((r Real)) (! (=> (f_repr r) (and (f_fin (RND r)) (= (fval (RND r)) r))) :pattern ((RND r)))))
(assert (forall ((r Real)) (! (not (f_nan (RND r))) :pattern ((RND r)))))
; integers up to 2^53 are exact
(assert (forall ((n Int)) (! (=> (and (<= (- 9007199254740992) n) (<= n 9007199254740992)) (f_repr (to_real n))) :pattern ((f_repr (to_real n))))))
(assert (forall ((n Int)) (! (=> (and (<= (- 9007199254740992) n) (<= n 9007199254740992)) (f_repr (to_real n))) :pattern ((RND (to_real n))))))
; order
(define-fun f_lt ((x F64) (y F64)) Bool (and (not (f_nan x)) (not (f_nan y)) (ite (and (f_fin x) (f_fin y)) (< (fval x) (fval y)) (< (f_inf x) (f_inf y)))))
(define-fun f_eq ((x F64) (y F64)) Bool (and (not (f_nan x)) (not (f_nan y)) (ite (and (f_fin x) (f_fin y)) (= (fval x) (fval y)) (and (not (f_fin x)) (not (f_fin y)) (= (f_inf x) (f_inf y))))))
(define-fun f_le ((x F64) (y F64)) Bool (or (f_lt x y) (f_eq x y)))
; negation is exact
(assert (forall ((x F64)) (! (and (= (f_fin (f_neg x)) (f_fin x)) (= (f_nan (f_neg x)) (f_nan x)) (= (f_inf (f_neg x)) (- (f_inf x))) (=> (f_fin x) (= (fval (f_neg x)) (- (fval x))))) :pattern ((f_neg x)))))
(assert (forall ((r Real)) (! (and (= (f_fin (f_neg (RND r))) (f_fin (RND (- r)))) (= (f_inf (f_neg (RND r))) (f_inf (RND (- r)))) (=> (f_fin (RND r)) (= (fval (f_neg (RND r))) (fval (RND (- r)))))) :pattern ((f_neg (RND r))))))
; operations on finite numbers round the exact result
(assert (forall ((x F64) (y F64)) (! (=> (and (f_fin x) (f_fin y)) (= (f_mul x y) (RND (rmul (fval x) (fval y))))) :pattern ((f_mul x y)))))
(assert (forall ((x F64) (y F64)) (! (=> (and (f_fin x) (f_fin y) (not (= (fval y) 0.0))) (= (f_div x y) (RND (rdiv (fval x) (fval y))))) :pattern ((f_div x y)))))
(assert (forall ((x F64) (y F64)) (! (=> (and (f_fin x) (f_fin y)) (= (f_add x y) (RND (+ (fval x) (fval y))))) :pattern ((f_add x y)))))
(assert (forall ((x F64) (y F64)) (! (=> (and (f_fin x) (f_fin y)) (= (f_sub x y) (RND (- (fval x) (fval y))))) :pattern ((f_sub x y)))))
; truncation
(assert (forall ((x F64)) (! (and (= (f_fin (f_trunc x)) (f_fin x)) (= (f_nan (f_trunc x)) (f_nan x)) (= (f_inf (f_trunc x)) (f_inf x)) (=> (f_fin x) (= (fval (f_trunc x)) (ite (<= 0.0 (fval x)) (to_real (to_int (fval x))) (- (to_real (to_int (- (fval x))))))))) :pattern ((f_trunc x)))))
(assert (forall ((x F64)) (! (=> (and (f_fin x) (<= (- 9223372036854775808.0) (fval x)) (< (fval x) 9223372036854775808.0)) (= (f_toint_int64 x) (ite (<= 0.0 (fval x)) (to_int (fval x)) (- (to_int (- (fval x))))))) :pattern ((f_toint_int64 x)))))
(assert (forall ((x F64)) (! (=> (and (f_fin x) (<= 0.0 (fval x)) (< (fval x) 18446744073709551616.0)) (= (f_toint_uint64 x) (to_int (fval x)))) :pattern ((f_toint_uint64 x)))))
; rounding is monotonic
(assert (forall ((r Real) (s Real)) (! (=> (<= r s) (or (and (f_fin (RND r)) (f_fin (RND s)) (<= (fval (RND r)) (fval (RND s)))) (= (f_inf (RND r)) (- 1)) (= (f_inf (RND s)) 1))) :pattern ((RND r) (RND s)))))
(declare-fun pow10r (Int) Real)
(assert (= (pow10r 0) 1.0))
`

func pow2Axioms() string {
	var b strings.Builder
	b.WriteString("(declare-fun pow2_ (Int) Int)\n(assert (forall ((x Int)) (! (=> (<= 0 x) (<= 1 (pow2_ x))) :pattern ((pow2_ x)))))\n")
	for i := 0; i < 65; i++ {
		fmt.Fprintf(&b, "(assert (= (pow2_ %d) %s))\n", i, pow2(i))
	}
	return b.String()
}

// ensure resolves a global symbol that is declared on demand.
func (v *Verifier) ensure(name string) *gdecl {
	if d, ok := v.gdecl[name]; ok {
		return d
	}
	switch {
	case strings.HasPrefix(name, "H0!") || strings.HasPrefix(name, "H1!"):
		pre, al := name[:3], "A0"
		if pre == "H1!" {
			al = "A1"
		}
		for k, hi := range v.heapLeaf {
			if pre+sym(k) != name {
				continue
			}
			ls := layout(hi.elem)
			nm := func(j int) Term { return pre + sym(heapKey(hi.elem, ls[j])) }
			v.gdef(name, "(declare-const "+name+" (Array Int (Array Int "+hi.leaf.Sort+")))", heapAxioms(hi.elem, hi.i, nm, al)...)
			return v.gdecl[name]
		}
	case strings.HasPrefix(name, "f!"):
		f := v.spec.SFuncs[name[2:]]
		if f != nil {
			decl, ax, _ := v.funcDef(f)
			v.gdef(name, decl, ax...)
			return v.gdecl[name]
		}
	}
	return nil
}

func isGlobalName(s string) bool {
	for _, p := range []string{"H0!", "H1!", "S!", "G!", "Gref!", "F!", "tab!", "f!"} {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

var tokCache = map[string][]string{}

func tokens(s string) []string {
	return nameRe.FindAllString(s, -1)
}

// script builds the SMT problem for an obligation: the chain and the negated goal.
func (v *Verifier) script(owner string, ch *Chain, goal Term, extra string) string {
	body := strings.Join(ch.list(), "\n")
	text := body + "\n" + goal + "\n" + extra
	used := map[string]bool{}
	var order []*gdecl
	var visit func(s string)
	visit = func(s string) {
		for _, t := range tokens(s) {
			if used[t] {
				continue
			}
			used[t] = true
			if isGlobalName(t) {
				if d := v.ensure(t); d != nil {
					visit(d.decl)
					order = append(order, d)
					if v.hidden(owner, t) {
						continue
					}
					for _, a := range d.axioms {
						visit(a)
					}
				}
			}
		}
	}
	visit(text)
	var autos []string
	done := map[string]bool{}
	for again := true; again; {
		again = false
		for _, l := range v.spec.LOrder {
			if !l.Auto || done[l.Name] || !v.autoAllowed(owner, l) {
				continue
			}
			ax, heads := v.autoAxiom(l)
			ok := false
			for _, hs := range heads {
				all := true
				for _, h := range hs {
					all = all && used[h]
				}
				ok = ok || all
			}
			if ok {
				done[l.Name] = true
				again = true
				v.usedLemmas[l.Name] = true
				visit(ax)
				for _, hs := range heads {
					if len(hs) > 0 && v.heavy(hs[0]) {
						ax += heavyMark
						break
					}
				}
				autos = append(autos, ax)
			}
		}
	}
	for t := range used {
		if strings.HasPrefix(t, "f!") {
			v.usedFuncs[t[2:]] = true
		}
	}
	var pre strings.Builder
	pre.WriteString(preludeOpts)
	pre.WriteString(preludeCore)
	items := preludeItems()
	need := make([]bool, len(items))
	for changed := true; changed; {
		changed = false
		for i, it := range items {
			if need[i] {
				continue
			}
			for _, n := range it.names {
				if used[n] {
					need[i] = true
					changed = true
					for _, t := range tokens(it.text) {
						used[t] = true
					}
					break
				}
			}
		}
	}
	for i, it := range items {
		if need[i] {
			pre.WriteString(it.text)
		}
	}
	for _, r := range v.spec.Raw {
		pre.WriteString(r + "\n")
	}
	// declarations first, then definitions, then axioms
	for _, d := range order {
		if !strings.HasPrefix(d.decl, "(define") {
			pre.WriteString(d.decl + "\n")
		}
	}
	for _, d := range order {
		if strings.HasPrefix(d.decl, "(define") {
			pre.WriteString(d.decl + "\n")
		}
	}
	for _, d := range order {
		if v.hidden(owner, d.name) {
			continue
		}
		for _, a := range d.axioms {
			if v.heavy(d.name) && !isSynonym(a) {
				a += heavyMark
			}
			pre.WriteString(a + "\n")
		}
	}
	for _, a := range autos {
		pre.WriteString(a + "\n")
	}
	if used["implements"] {
		pre.WriteString(v.implementsFacts())
	}
	pre.WriteString(body + "\n")
	pre.WriteString(extra)
	pre.WriteString("(assert (not " + goal + "))\n(check-sat)\n")
	return pre.String()
}

func sortStrings(s []string) []string { sort.Strings(s); return s }

func (v *Verifier) implementsFacts() string {
	var b strings.Builder
	for i, t := range v.tagTypes {
		it, ok := ifaceOf(t)
		if !ok {
			continue
		}
		for j, c := range v.tagTypes {
			if _, isI := ifaceOf(c); isI {
				continue
			}
			r := "true"
			if !typesImplements(c, it) {
				r = "false"
			}
			fmt.Fprintf(&b, "(assert (= (implements %d %d) %s))\n", j+1, i+1, r)
		}
	}
	return b.String()
}

// hidden tells if an obligation of owner does without the definition of an opaque function.
func (v *Verifier) hidden(owner, name string) bool {
	f := v.spec.SFuncs[strings.TrimPrefix(name, "f!")]
	if f == nil || !f.Opaque || strings.HasPrefix(owner, "function ") {
		return false
	}
	if strings.HasPrefix(owner, "lemma ") {
		return false
	}
	return !v.reveals[owner+" "+f.Name]
}

// heavyMark marks the hypotheses that one attempt of the solver leaves out.
const heavyMark = " ; heavy"

func (v *Verifier) heavy(name string) bool {
	f := v.spec.SFuncs[strings.TrimPrefix(name, "f!")]
	return f != nil && f.Heavy
}

// withoutHeavy drops the marked hypotheses: what follows from the rest follows from all.
func withoutHeavy(s string) string {
	var b strings.Builder
	for _, l := range strings.Split(s, "\n") {
		if !strings.HasSuffix(l, heavyMark) {
			b.WriteString(l + "\n")
		}
	}
	return b.String()
}

// isSynonym tells if an axiom says that a function does not depend on its fuel.
func isSynonym(a string) bool {
	m := synonym.FindStringSubmatch(a)
	return m != nil && m[1] == m[3] && m[2] == m[4]
}

var synonym = regexp.MustCompile(`\(! \(= \((f!\w+) \(LS ly\)([^()]*)\) \((f!\w+) ly([^()]*)\)\)`)
