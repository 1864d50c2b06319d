package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
)

type tok struct {
	k    string // ident num char str op eof
	s    string
	line int
}

type Expr struct {
	Op   string // ident num str un bin cond call sel idx quant old let
	S    string
	A    []*Expr
	Vars []QVar
	Trig [][]*Expr
	Line int
}

type QVar struct {
	Name string
	T    string
}

func (e *Expr) String() string {
	if e == nil {
		return "<nil>"
	}
	var as []string
	for _, a := range e.A {
		as = append(as, a.String())
	}
	switch e.Op {
	case "ident", "num":
		return e.S
	case "str":
		return strconv.Quote(e.S)
	case "un":
		return e.S + as[0]
	case "bin":
		return "(" + as[0] + " " + e.S + " " + as[1] + ")"
	case "cond":
		return "(" + as[0] + " ? " + as[1] + " : " + as[2] + ")"
	case "call":
		return e.S + "(" + strings.Join(as, ", ") + ")"
	case "sel":
		return as[0] + "." + e.S
	case "idx":
		return as[0] + "[" + as[1] + "]"
	case "quant":
		var vs []string
		for _, v := range e.Vars {
			vs = append(vs, v.Name+" "+v.T)
		}
		return "(" + e.S + " " + strings.Join(vs, ", ") + " :: " + as[0] + ")"
	case "old":
		return "old(" + as[0] + ")"
	case "let":
		return "(let " + e.S + " = " + as[0] + " in " + as[1] + ")"
	}
	return "?" + e.Op
}

type Clause struct {
	Kind  string // requires ensures invariant decreases modifies use assume note option
	Tags  []string
	E     []*Expr
	Text  string
	Where string // for use: entry, loop NAME, return
	Line  int
	File  string
	Ghost *GhostUpd
	Label string
}

type GhostUpd struct {
	T, F string
	Vars []QVar
	E    *Expr
}

type LoopSpec struct {
	Key     string
	Clauses []*Clause
}

type FuncSpec struct {
	Name       string // e.g. (*parser).parseValue
	Pkg        string // package path
	Params     []string
	Results    []string
	Extern     bool
	Clauses    []*Clause
	Loops      map[string]*LoopSpec
	File       string
	Line       int
	Trusted    string
	Inline     bool
	ParamTypes []string
	ResTypes   []string
}

type SpecFunc struct {
	Name   string
	Pkg    string
	Params []QVar
	Res    string
	Reads  []string
	Decr   []*Expr
	Body   *Expr
	Macro  bool
	Line   int
	File   string
	Rec    bool
	Seq    int
	Folded bool // defined by a quantified axiom, not expanded
	Fuel1  bool // unfolded once only
	Heavy  bool // one of the attempts of the solver does without its definition
	Opaque bool // folded, and the axiom is left out unless a function reveals it
}

type Lemma struct {
	Name     string
	Pkg      string
	Params   []QVar
	Req      []*Clause
	Ens      []*Clause
	Decr     []*Expr
	Uses     []*Clause
	Axiom    bool
	Line     int
	File     string
	Tags     []string
	Reads    []string
	Induct   bool
	Trig     [][]*Expr
	Auto     bool
	TwoState bool
	Fixed    []string // memory that is the same in both states
	Cases    []*Expr
	Seq      int
}

type PropSpec struct {
	ID     string
	Funcs  []string // function names to verify for this property
	Lemmas []string
	Pkg    string
	Goals  []string
	Vals   map[string]string
}

type Spec struct {
	Funcs   map[string]*FuncSpec // pkg + "." + name
	SFuncs  map[string]*SpecFunc
	SOrder  []*SpecFunc
	Lemmas  map[string]*Lemma
	LOrder  []*Lemma
	Ghost   map[string][]QVar // struct type key -> ghost leaves
	Props   map[string]*PropSpec
	Raw     []string // raw smt prelude
	Globals map[string]*FuncSpec
	Guards  []*Guard
	Order   []string
	seq     int
}

type specErr struct{ msg string }

func (e specErr) Error() string { return e.msg }

type sparser struct {
	toks []tok
	i    int
	file string
}

func lexSpec(file, src string) []tok {
	var out []tok
	line := 1
	i := 0
	isid := func(c byte) bool {
		return c == '_' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || '0' <= c && c <= '9'
	}
	ops := []string{"<==>", "==>", "<=", ">=", "==", "!=", "&&", "||", "::", ":=", "..", "+", "-", "*", "/", "%", "<", ">", "!", "?", ":", "(", ")", "[", "]", "{", "}", ",", ".", "=", ";", "&", "|", "@", "#"}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '/' && i+1 < len(src) && src[i+1] == '/':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && isid(src[j]) {
				j++
			}
			out = append(out, tok{"num", src[i:j], line})
			i = j
		case isid(c):
			j := i
			for j < len(src) && (isid(src[j]) || src[j] == '@' && j+1 < len(src) && '0' <= src[j+1] && src[j+1] <= '9') {
				j++
			}
			out = append(out, tok{"ident", src[i:j], line})
			i = j
		case c == '\'':
			j := i + 1
			for src[j] != '\'' || src[j-1] == '\\' && src[j-2] != '\\' {
				j++
			}
			v, _, _, err := strconv.UnquoteChar(src[i+1:j], '\'')
			if err != nil {
				panic(specErr{fmt.Sprintf("%s:%d: bad char %s", file, line, src[i:j+1])})
			}
			out = append(out, tok{"num", strconv.Itoa(int(v)), line})
			i = j + 1
		case c == '"' || c == '`':
			j := i + 1
			for src[j] != c || (c == '"' && src[j-1] == '\\') {
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				panic(specErr{fmt.Sprintf("%s:%d: bad string", file, line)})
			}
			out = append(out, tok{"str", s, line})
			i = j + 1
		default:
			ok := false
			for _, op := range ops {
				if strings.HasPrefix(src[i:], op) {
					out = append(out, tok{"op", op, line})
					i += len(op)
					ok = true
					break
				}
			}
			if !ok {
				panic(specErr{fmt.Sprintf("%s:%d: bad character %q", file, line, c)})
			}
		}
	}
	out = append(out, tok{"eof", "", line})
	return out
}

func (p *sparser) peek() tok { return p.toks[p.i] }
func (p *sparser) next() tok { t := p.toks[p.i]; p.i++; return t }
func (p *sparser) fail(f string, a ...interface{}) {
	t := p.peek()
	panic(specErr{fmt.Sprintf("%s:%d: %s (at %q)", p.file, t.line, fmt.Sprintf(f, a...), t.s)})
}
func (p *sparser) is(s string) bool {
	t := p.peek()
	return (t.k == "op" || t.k == "ident") && t.s == s
}
func (p *sparser) acc(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *sparser) want(s string) {
	if !p.acc(s) {
		p.fail("expected %q", s)
	}
}
func (p *sparser) ident() string {
	t := p.next()
	if t.k != "ident" {
		p.i--
		p.fail("expected identifier")
	}
	return t.s
}

// typ parses a type expression as text.
func (p *sparser) typ() string {
	s := ""
	for {
		if p.acc("*") {
			s += "*"
		} else if p.acc("[") {
			p.want("]")
			s += "[]"
		} else {
			break
		}
	}
	s += p.ident()
	if strings.HasSuffix(s, "map") && p.is("[") {
		p.want("[")
		k := p.typ()
		p.want("]")
		return s + "[" + k + "]" + p.typ()
	}
	if s == "interface" && p.is("{") {
		p.want("{")
		p.want("}")
		return "interface{}"
	}
	for p.is(".") {
		p.next()
		s += "." + p.ident()
	}
	return s
}

func (p *sparser) expr() *Expr { return p.cond() }

func (p *sparser) cond() *Expr {
	t := p.peek()
	if t.k == "ident" && (t.s == "forall" || t.s == "exists") {
		p.next()
		e := &Expr{Op: "quant", S: t.s, Line: t.line}
		for {
			names := []string{p.ident()}
			ty := p.typ()
			for _, n := range names {
				e.Vars = append(e.Vars, QVar{n, ty})
			}
			if !p.acc(",") {
				break
			}
		}
		p.want("::")
		for p.is("{") {
			p.next()
			var ts []*Expr
			for {
				ts = append(ts, p.expr())
				if !p.acc(",") {
					break
				}
			}
			p.want("}")
			e.Trig = append(e.Trig, ts)
		}
		e.A = []*Expr{p.cond()}
		return e
	}
	if t.k == "ident" && t.s == "let" {
		p.next()
		n := p.ident()
		p.want("=")
		a := p.cond()
		p.want("in")
		b := p.cond()
		return &Expr{Op: "let", S: n, A: []*Expr{a, b}, Line: t.line}
	}
	c := p.bin(0)
	if p.acc("?") {
		a := p.cond()
		p.want(":")
		b := p.cond()
		return &Expr{Op: "cond", A: []*Expr{c, a, b}, Line: t.line}
	}
	return c
}

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (p *sparser) bin(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		pr, ok := binPrec[t.s]
		if t.k != "op" || !ok || pr < min || pr == 0 {
			return l
		}
		p.next()
		var r *Expr
		switch t.s {
		case "==>":
			// right associative; the right side may be a quantifier or conditional
			if q := p.peek(); q.k == "ident" && (q.s == "forall" || q.s == "exists" || q.s == "let") {
				r = p.cond()
			} else {
				r = p.bin(pr)
			}
			l = &Expr{Op: "bin", S: t.s, A: []*Expr{l, r}, Line: t.line}
			continue
		}
		if q := p.peek(); q.k == "ident" && (q.s == "forall" || q.s == "exists" || q.s == "let") {
			r = p.cond()
		} else {
			r = p.bin(pr + 1)
		}
		if pr == 5 {
			// chained comparison
			e := &Expr{Op: "bin", S: t.s, A: []*Expr{l, r}, Line: t.line}
			last := r
			for {
				t2 := p.peek()
				if t2.k != "op" || binPrec[t2.s] != 5 {
					break
				}
				p.next()
				r2 := p.bin(6)
				e = &Expr{Op: "bin", S: "&&", A: []*Expr{e, {Op: "bin", S: t2.s, A: []*Expr{last, r2}, Line: t2.line}}, Line: t2.line}
				last = r2
			}
			l = e
			continue
		}
		l = &Expr{Op: "bin", S: t.s, A: []*Expr{l, r}, Line: t.line}
	}
}

func (p *sparser) unary() *Expr {
	t := p.peek()
	if t.k == "op" && (t.s == "!" || t.s == "-") {
		p.next()
		return &Expr{Op: "un", S: t.s, A: []*Expr{p.unary()}, Line: t.line}
	}
	if t.k == "op" && t.s == "*" { // explicit dereference
		p.next()
		return &Expr{Op: "un", S: "*", A: []*Expr{p.unary()}, Line: t.line}
	}
	return p.postfix()
}

func (p *sparser) postfix() *Expr {
	t := p.next()
	var e *Expr
	switch {
	case t.k == "num":
		e = &Expr{Op: "num", S: t.s, Line: t.line}
	case t.k == "str":
		e = &Expr{Op: "str", S: t.s, Line: t.line}
	case t.k == "op" && t.s == "(":
		e = p.cond()
		p.want(")")
	case t.k == "ident" && t.s == "old" && p.is("("):
		p.next()
		x := p.cond()
		p.want(")")
		e = &Expr{Op: "old", A: []*Expr{x}, Line: t.line}
	case t.k == "ident" && t.s == "T" && p.is("("):
		// type literal argument
		p.next()
		ty := p.typ()
		p.want(")")
		e = &Expr{Op: "type", S: ty, Line: t.line}
	case t.k == "ident" && p.is("("):
		p.next()
		e = &Expr{Op: "call", S: t.s, Line: t.line}
		for !p.is(")") {
			e.A = append(e.A, p.cond())
			if !p.acc(",") {
				break
			}
		}
		p.want(")")
	case t.k == "ident":
		e = &Expr{Op: "ident", S: t.s, Line: t.line}
	default:
		p.i--
		p.fail("expected expression")
	}
	for {
		if p.is(".") {
			p.next()
			n := p.next()
			e = &Expr{Op: "sel", S: n.s, A: []*Expr{e}, Line: t.line}
			continue
		}
		if p.is("[") {
			p.next()
			i := p.cond()
			p.want("]")
			e = &Expr{Op: "idx", A: []*Expr{e, i}, Line: t.line}
			continue
		}
		return e
	}
}

func (p *sparser) params() []QVar {
	var out []QVar
	p.want("(")
	for !p.is(")") {
		n := p.ident()
		t := p.typ()
		out = append(out, QVar{n, t})
		if !p.acc(",") {
			break
		}
	}
	p.want(")")
	return out
}

var clauseKw = map[string]bool{"requires": true, "ensures": true, "invariant": true, "decreases": true, "modifies": true, "use": true, "assume": true, "assert": true, "loop": true, "ghost": true, "inline": true, "trusted": true, "returns": true, "reads": true, "measure": true, "option": true, "split": true, "trigger": true, "case": true, "auto": true, "twostate": true, "fixed": true, "havoc": true}

var topKw = map[string]bool{"func": true, "extern": true, "function": true, "macro": true, "lemma": true, "axiom": true, "package": true, "property": true, "smt": true, "ghostfield": true, "method": true, "guard": true}

func (p *sparser) tags() (tags []string) {
	if p.is("[") {
		p.next()
		for !p.is("]") {
			tags = append(tags, p.next().s)
			p.acc(",")
		}
		p.want("]")
	}
	return
}

func (p *sparser) exprList() []*Expr {
	var out []*Expr
	for {
		out = append(out, p.expr())
		if !p.acc(",") {
			return out
		}
	}
}

func (p *sparser) clause(kw string) *Clause {
	start := p.peek().line
	c := &Clause{Kind: kw, Line: start, File: p.file}
	c.Tags = p.tags()
	switch kw {
	case "modifies", "havoc":
		for {
			if p.acc("heap") {
				c.E = append(c.E, &Expr{Op: "heap", S: p.typ()})
			} else if p.acc("nothing") {
			} else {
				c.E = append(c.E, p.expr())
			}
			if !p.acc(",") {
				break
			}
		}
	case "use", "assert", "assume":
		// use lemma(args) [at entry|return|loop X]
		if kw != "use" {
			c.E = []*Expr{p.expr()}
		} else {
			c.E = []*Expr{p.expr()}
		}
		if p.acc("at") {
			w := p.next().s
			if w == "loop" || w == "label" || w == "call" || w == "after" {
				w += " " + p.loopKey()
			}
			c.Where = w
		}
	case "ghost":
		// ghost T.field[vars] := expr at place
		p.fail("ghost statements unsupported")
	case "decreases":
		c.E = p.exprList()
	default:
		c.E = []*Expr{p.expr()}
	}
	var sb strings.Builder
	for _, e := range c.E {
		if sb.Len() > 0 {
			sb.WriteString(", ")
		}
		sb.WriteString(e.String())
	}
	c.Text = sb.String()
	return c
}

func (p *sparser) loopKey() string {
	t := p.next()
	k := t.s
	for p.is(".") {
		p.next()
		k += "." + p.next().s
	}
	if p.acc("#") {
		k += "#" + p.next().s
	}
	return k
}

func (sp *Spec) parseFile(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(specErr{err.Error()})
	}
	p := &sparser{toks: lexSpec(file, string(b)), file: file}
	pkg := ""
	for {
		t := p.peek()
		if t.k == "eof" {
			return
		}
		if t.k != "ident" {
			p.fail("expected declaration")
		}
		p.next()
		switch t.s {
		case "package":
			pkg = p.next().s
		case "smt":
			sp.Raw = append(sp.Raw, p.next().s)
		case "ghostfield":
			ty := p.typ()
			n := p.ident()
			s := p.typ()
			sp.Ghost[ty] = append(sp.Ghost[ty], QVar{n, s})
		case "macro", "function":
			f := &SpecFunc{Pkg: pkg, Line: t.line, File: file, Macro: t.s == "macro"}
			f.Name = p.ident()
			f.Params = p.params()
			f.Res = p.typ()
			for {
				if p.acc("decreases") {
					f.Decr = p.exprList()
				} else if p.acc("folded") {
					f.Folded = true
				} else if p.acc("opaque") {
					f.Folded, f.Opaque = true, true
				} else if p.acc("heavy") {
					f.Heavy = true
				} else if p.acc("fuel1") {
					f.Fuel1 = true
				} else if p.acc("reads") {
					for {
						f.Reads = append(f.Reads, p.typ())
						if !p.acc(",") {
							break
						}
					}
				} else {
					break
				}
			}
			if p.acc("=") {
				f.Body = p.expr()
			}
			if sp.SFuncs[f.Name] != nil {
				p.fail("duplicate function %s", f.Name)
			}
			sp.seq++
			f.Seq = sp.seq
			sp.SFuncs[f.Name] = f
			sp.SOrder = append(sp.SOrder, f)
		case "lemma", "axiom":
			l := &Lemma{Pkg: pkg, Line: t.line, File: file, Axiom: t.s == "axiom"}
			l.Tags = p.tags()
			l.Name = p.ident()
			l.Params = p.params()
			for {
				if p.acc("requires") {
					l.Req = append(l.Req, p.clause("requires"))
				} else if p.acc("ensures") {
					l.Ens = append(l.Ens, p.clause("ensures"))
				} else if p.acc("decreases") {
					l.Decr = p.exprList()
				} else if p.acc("use") {
					l.Uses = append(l.Uses, p.clause("use"))
				} else if p.acc("case") {
					l.Cases = append(l.Cases, p.expr())
				} else if p.acc("auto") {
					l.Auto = true
				} else if p.acc("twostate") {
					l.TwoState = true
				} else if p.acc("fixed") {
					for {
						l.Fixed = append(l.Fixed, p.typ())
						if !p.acc(",") {
							break
						}
					}
				} else if p.acc("trigger") {
					l.Trig = append(l.Trig, p.exprList())
				} else if p.acc("reads") {
					for {
						l.Reads = append(l.Reads, p.typ())
						if !p.acc(",") {
							break
						}
					}
				} else {
					break
				}
			}
			if sp.Lemmas[l.Name] != nil {
				p.fail("duplicate lemma %s", l.Name)
			}
			sp.seq++
			l.Seq = sp.seq
			sp.Lemmas[l.Name] = l
			sp.LOrder = append(sp.LOrder, l)
		case "guard":
			sp.Guards = append(sp.Guards, p.guardDecl(pkg, file))
		case "func", "extern":
			f := &FuncSpec{Pkg: pkg, Line: t.line, File: file, Extern: t.s == "extern", Loops: map[string]*LoopSpec{}}
			if f.Extern {
				p.want("func")
			}
			name := ""
			if p.acc("(") {
				name = "("
				if p.acc("*") {
					name += "*"
				}
				name += p.ident()
				for p.acc(".") {
					name += "." + p.ident()
				}
				p.want(")")
				name += ")."
				p.want(".")
				name += p.ident()
			} else {
				name = p.ident()
				for p.acc(".") || p.is("/") {
					if p.acc("/") {
						name += "/" + p.ident()
						continue
					}
					name += "." + p.ident()
				}
			}
			f.Name = name
			readNames := func() (out []string) {
				p.want("(")
				for !p.is(")") {
					out = append(out, p.ident())
					if !p.acc(",") {
						break
					}
				}
				p.want(")")
				return
			}
			if p.is("(") {
				f.Params = readNames()
			}
			if p.acc("returns") || p.is("(") {
				f.Results = readNames()
			}
			var cur *LoopSpec
			for {
				k := p.peek()
				if k.k != "ident" || !clauseKw[k.s] || topKw[k.s] {
					break
				}
				p.next()
				switch k.s {
				case "loop":
					cur = &LoopSpec{Key: p.loopKey()}
					f.Loops[cur.Key] = cur
				case "inline":
					f.Inline = true
				case "trusted":
					f.Trusted = p.next().s
				case "option":
					c := &Clause{Kind: "option", Text: p.next().s}
					if c.Text == "reveal" {
						c.Text = "reveal " + p.next().s
					}
					if cur != nil {
						cur.Clauses = append(cur.Clauses, c)
					} else {
						f.Clauses = append(f.Clauses, c)
					}
				default:
					c := p.clause(k.s)
					if cur != nil && (k.s == "invariant" || k.s == "decreases" || ((k.s == "use" || k.s == "assert") && (c.Where == "" || c.Where == "head" || c.Where == "back" || c.Where == "entry"))) {
						cur.Clauses = append(cur.Clauses, c)
					} else {
						f.Clauses = append(f.Clauses, c)
					}
				}
			}
			key := pkg + "." + name
			if f.Extern {
				key = name
			}
			if sp.Funcs[key] != nil {
				p.fail("duplicate contract for %s", key)
			}
			sp.Funcs[key] = f
			sp.Order = append(sp.Order, key)
		default:
			p.i--
			p.fail("unknown declaration")
		}
	}
}

func newSpec() *Spec {
	return &Spec{Funcs: map[string]*FuncSpec{}, SFuncs: map[string]*SpecFunc{}, Lemmas: map[string]*Lemma{}, Ghost: map[string][]QVar{}, Props: map[string]*PropSpec{}}
}
