package main

import (
	"math/big"
	"strings"
	"sync"
)

// Ranges of named integers, known from the facts asserted with their
// declaration: they let a machine operation that cannot overflow go without its
// wrap-around.

type irange struct{ lo, hi *big.Int }

var (
	rangeMu sync.Mutex
	ranges  = map[string]irange{}
)

func noteRange(t Term, lo, hi *big.Int) {
	if strings.IndexByte(t, '!') < 0 || strings.ContainsAny(t, "( ") || strings.Contains(t, "!q") {
		return
	}
	rangeMu.Lock()
	ranges[t] = irange{lo, hi}
	rangeMu.Unlock()
}

func rangeOf(t Term) (irange, bool) {
	return rangeAt(t, 0)
}

func rangeAt(t Term, d int) (irange, bool) {
	if n, ok := numOf(t); ok {
		return irange{n, n}, true
	}
	if t == "" || d > 12 {
		return irange{}, false
	}
	if t[0] != '(' {
		rangeMu.Lock()
		r, ok := ranges[t]
		rangeMu.Unlock()
		return r, ok
	}
	a := sexprArgs(t)
	if len(a) == 0 {
		return irange{}, false
	}
	bin := func(f func(x, y irange) (irange, bool)) (irange, bool) {
		if len(a) < 3 {
			return irange{}, false
		}
		r, ok := rangeAt(a[1], d+1)
		for _, x := range a[2:] {
			if !ok {
				return r, false
			}
			s, ok2 := rangeAt(x, d+1)
			if !ok2 {
				return r, false
			}
			r, ok = f(r, s)
		}
		return r, ok
	}
	switch a[0] {
	case "+":
		return bin(func(x, y irange) (irange, bool) {
			return irange{new(big.Int).Add(x.lo, y.lo), new(big.Int).Add(x.hi, y.hi)}, true
		})
	case "-":
		if len(a) == 2 {
			r, ok := rangeAt(a[1], d+1)
			if !ok {
				return r, false
			}
			return irange{new(big.Int).Neg(r.hi), new(big.Int).Neg(r.lo)}, true
		}
		return bin(func(x, y irange) (irange, bool) {
			return irange{new(big.Int).Sub(x.lo, y.hi), new(big.Int).Sub(x.hi, y.lo)}, true
		})
	case "*":
		return bin(func(x, y irange) (irange, bool) {
			var r irange
			for _, p := range []*big.Int{x.lo, x.hi} {
				for _, q := range []*big.Int{y.lo, y.hi} {
					m := new(big.Int).Mul(p, q)
					if r.lo == nil || m.Cmp(r.lo) < 0 {
						r.lo = m
					}
					if r.hi == nil || m.Cmp(r.hi) > 0 {
						r.hi = m
					}
				}
			}
			return r, true
		})
	case "div":
		return bin(func(x, y irange) (irange, bool) {
			if y.lo.Sign() <= 0 || x.lo.Sign() < 0 {
				return irange{}, false
			}
			return irange{new(big.Int).Div(x.lo, y.hi), new(big.Int).Div(x.hi, y.lo)}, true
		})
	case "mod":
		if len(a) == 3 {
			if n, ok := numOf(a[2]); ok && n.Sign() > 0 {
				return irange{big.NewInt(0), new(big.Int).Sub(n, big.NewInt(1))}, true
			}
		}
	case "band":
		return bin(func(x, y irange) (irange, bool) {
			if x.lo.Sign() < 0 || y.lo.Sign() < 0 {
				return irange{}, false
			}
			h := x.hi
			if y.hi.Cmp(h) < 0 {
				h = y.hi
			}
			return irange{big.NewInt(0), h}, true
		})
	case "SB":
		return irange{big.NewInt(0), big.NewInt(255)}, true
	case "wu8", "wu16", "wu32", "wu64":
		n := map[string]int{"wu8": 8, "wu16": 16, "wu32": 32, "wu64": 64}[a[0]]
		return irange{big.NewInt(0), new(big.Int).Sub(pow2(n), big.NewInt(1))}, true
	case "ws8", "ws16", "ws32", "ws64":
		n := map[string]int{"ws8": 8, "ws16": 16, "ws32": 32, "ws64": 64}[a[0]]
		return irange{new(big.Int).Neg(pow2(n - 1)), new(big.Int).Sub(pow2(n-1), big.NewInt(1))}, true
	case "ite":
		if len(a) == 4 {
			x, ok := rangeAt(a[2], d+1)
			y, ok2 := rangeAt(a[3], d+1)
			if ok && ok2 {
				r := x
				if y.lo.Cmp(r.lo) < 0 {
					r.lo = y.lo
				}
				if y.hi.Cmp(r.hi) > 0 {
					r.hi = y.hi
				}
				return r, true
			}
		}
	}
	return irange{}, false
}

func sexprArgs(t Term) []Term {
	if len(t) < 2 || t[0] != '(' {
		return nil
	}
	s := t[1 : len(t)-1]
	var out []Term
	for len(s) > 0 {
		n := exprLen(s)
		if n == 0 {
			return nil
		}
		out = append(out, s[:n])
		s = strings.TrimLeft(s[n:], " ")
	}
	return out
}
