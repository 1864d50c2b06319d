package main

import (
	"fmt"
	"math/big"
	"strings"
)

// Term is an SMT-LIB term in concrete syntax.
type Term = string

func Num(n int64) Term { return BigNum(big.NewInt(n)) }

func BigNum(n *big.Int) Term {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func numOf(t Term) (*big.Int, bool) {
	if t == "" {
		return nil, false
	}
	s := t
	neg := false
	if strings.HasPrefix(s, "(- ") && strings.HasSuffix(s, ")") {
		s = s[3 : len(s)-1]
		neg = true
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return nil, false
		}
	}
	if s == "" {
		return nil, false
	}
	n, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return nil, false
	}
	if neg {
		n.Neg(n)
	}
	return n, true
}

func App(op string, args ...Term) Term {
	if len(args) == 0 {
		return op
	}
	return "(" + op + " " + strings.Join(args, " ") + ")"
}

func And(ts ...Term) Term {
	var out []Term
	for _, t := range ts {
		if t == "false" {
			return "false"
		}
		if t == "true" || t == "" {
			continue
		}
		out = append(out, t)
	}
	switch len(out) {
	case 0:
		return "true"
	case 1:
		return out[0]
	}
	return App("and", out...)
}

func Or(ts ...Term) Term {
	var out []Term
	for _, t := range ts {
		if t == "true" {
			return "true"
		}
		if t == "false" || t == "" {
			continue
		}
		out = append(out, t)
	}
	switch len(out) {
	case 0:
		return "false"
	case 1:
		return out[0]
	}
	return App("or", out...)
}

func Not(t Term) Term {
	switch t {
	case "true":
		return "false"
	case "false":
		return "true"
	}
	if strings.HasPrefix(t, "(not ") {
		return t[5 : len(t)-1]
	}
	return App("not", t)
}

func Imp(a, b Term) Term {
	if a == "true" {
		return b
	}
	if a == "false" || b == "true" {
		return "true"
	}
	if b == "false" {
		return Not(a)
	}
	return App("=>", a, b)
}

func Eq(a, b Term) Term {
	if a == b {
		return "true"
	}
	if x, ok := numOf(a); ok {
		if y, ok := numOf(b); ok {
			if x.Cmp(y) == 0 {
				return "true"
			}
			return "false"
		}
	}
	if a == "true" {
		return b
	}
	if b == "true" {
		return a
	}
	if a == "false" {
		return Not(b)
	}
	if b == "false" {
		return Not(a)
	}
	return App("=", a, b)
}

func Ite(c, a, b Term) Term {
	if c == "true" {
		return a
	}
	if c == "false" {
		return b
	}
	if a == b {
		return a
	}
	if a == "true" && b == "false" {
		return c
	}
	if a == "false" && b == "true" {
		return Not(c)
	}
	return App("ite", c, a, b)
}

func Cmp(op string, a, b Term) Term {
	if x, ok := numOf(a); ok {
		if y, ok := numOf(b); ok {
			c := x.Cmp(y)
			r := false
			switch op {
			case "<":
				r = c < 0
			case "<=":
				r = c <= 0
			case ">":
				r = c > 0
			case ">=":
				r = c >= 0
			}
			return fmt.Sprint(r)
		}
	}
	if a == b {
		return fmt.Sprint(op == "<=" || op == ">=")
	}
	return App(op, a, b)
}

func Lt(a, b Term) Term { return Cmp("<", a, b) }
func Le(a, b Term) Term { return Cmp("<=", a, b) }

func Add(a, b Term) Term {
	x, okx := numOf(a)
	y, oky := numOf(b)
	if okx && oky {
		return BigNum(new(big.Int).Add(x, y))
	}
	if okx && x.Sign() == 0 {
		return b
	}
	if oky && y.Sign() == 0 {
		return a
	}
	return App("+", a, b)
}

func Sub(a, b Term) Term {
	x, okx := numOf(a)
	y, oky := numOf(b)
	if okx && oky {
		return BigNum(new(big.Int).Sub(x, y))
	}
	if oky && y.Sign() == 0 {
		return a
	}
	if a == b {
		return "0"
	}
	return App("-", a, b)
}

func Mul(a, b Term) Term {
	x, okx := numOf(a)
	y, oky := numOf(b)
	if okx && oky {
		return BigNum(new(big.Int).Mul(x, y))
	}
	if okx && x.IsInt64() && x.Int64() == 1 {
		return b
	}
	if oky && y.IsInt64() && y.Int64() == 1 {
		return a
	}
	return App("*", a, b)
}

func Sel(a, i Term) Term     { return App("select", a, i) }
func Sto(a, i, v Term) Term  { return App("store", a, i, v) }
func Sel2(h, r, i Term) Term { return Sel(Sel(h, r), i) }
func Sto2(h, r, i, v Term) Term {
	return Sto(h, r, Sto(Sel(h, r), i, v))
}

func pow2(k int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(k)) }

// sym makes an SMT symbol out of any string.
func sym(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case 'a' <= c && c <= 'z', 'A' <= c && c <= 'Z', '0' <= c && c <= '9', c == '_', c == '.', c == '!', c == '@', c == '$':
			b.WriteByte(c)
		case c == '*':
			b.WriteString("~")
		default:
			b.WriteByte('_')
		}
	}
	return b.String()
}

// Rcat is the concatenation of two texts, kept nested to the left.
func Rcat(a, b Term) Term {
	if a == "rempty" {
		return b
	}
	if b == "rempty" {
		return a
	}
	if strings.HasPrefix(b, "(rcat ") {
		rest := b[6 : len(b)-1]
		n := exprLen(rest)
		if n > 0 && n < len(rest) {
			return Rcat(Rcat(a, rest[:n]), rest[n+1:])
		}
	}
	return App("rcat", a, b)
}

// exprLen is the length of the first s-expression of s.
func exprLen(s string) int {
	if s[0] != '(' {
		i := strings.IndexByte(s, ' ')
		if i < 0 {
			return len(s)
		}
		return i
	}
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			if d--; d == 0 {
				return i + 1
			}
		case '|':
			for i++; s[i] != '|'; i++ {
			}
		}
	}
	return len(s)
}
