package main

import (
	"fmt"
	"go/types"
	"math/big"
)

type LeafKind int

const (
	KInt LeafKind = iota
	KBool
	KF64
	KStrB
	KStrO
	KStrL
	KSlR
	KSlO
	KSlL
	KSlC
	KPtrR
	KPtrI
	KIfT
	KIfP
	KIfQ
	KOpaque
	KRope
	KReal
)

// Leaf is a scalar component of a Go value.
type Leaf struct {
	Path string
	Sort string
	Kind LeafKind
	T    types.Type
}

// special spec types
type specType struct{ name string }

func (s *specType) Underlying() types.Type { return s }
func (s *specType) String() string         { return s.name }

var (
	TRope = &specType{"rope"}
	TReal = &specType{"real"}
	TInt  = types.Typ[types.UntypedInt] // mathematical integer
	TBool = types.Typ[types.Bool]
	TArr  = &specType{"intarray"}
)

var maxLen = new(big.Int).Lsh(big.NewInt(1), 47)

var theGhost map[string][]QVar
var theGhostResolve func(p *types.Package, s string) types.Type

var layoutCache = map[types.Type][]Leaf{}

func layout(t types.Type) []Leaf {
	if l, ok := layoutCache[t]; ok {
		return l
	}
	l := layout1(t)
	layoutCache[t] = l
	return l
}

func layout1(t types.Type) []Leaf {
	if st, ok := t.(*specType); ok {
		switch st {
		case TRope:
			return []Leaf{{"", "R", KRope, t}}
		case TReal:
			return []Leaf{{"", "Real", KReal, t}}
		case TArr:
			return []Leaf{{"", "(Array Int Int)", KOpaque, t}}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{"", "Bool", KBool, t}}
		case u.Info()&types.IsInteger != 0:
			return []Leaf{{"", "Int", KInt, t}}
		case u.Info()&types.IsFloat != 0:
			return []Leaf{{"", "F64", KF64, t}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{".b", "Int", KStrB, t}, {".o", "Int", KStrO, t}, {".l", "Int", KStrL, t}}
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return []Leaf{{"", "Int", KOpaque, t}}
		}
	case *types.Slice:
		return []Leaf{{".r", "Int", KSlR, t}, {".o", "Int", KSlO, t}, {".n", "Int", KSlL, t}, {".c", "Int", KSlC, t}}
	case *types.Pointer:
		return []Leaf{{".r", "Int", KPtrR, t}, {".i", "Int", KPtrI, t}}
	case *types.Interface:
		return []Leaf{{".t", "Int", KIfT, t}, {".p", "Int", KIfP, t}, {".q", "Int", KIfQ, t}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range layout(f.Type()) {
				out = append(out, Leaf{"." + f.Name() + l.Path, l.Sort, l.Kind, l.T})
			}
		}
		if n, ok := t.(*types.Named); ok {
			for _, g := range theGhost[typeKey(n)] {
				gt := theGhostResolve(n.Obj().Pkg(), g.T)
				gl := layout(gt)
				if len(gl) != 1 {
					panic(specErr{"ghost field " + g.Name + " must be scalar"})
				}
				out = append(out, Leaf{".$" + g.Name, gl[0].Sort, gl[0].Kind, gl[0].T})
			}
		}
		return out
	case *types.Array:
		if u.Len() > 64 {
			return []Leaf{{"", "Int", KOpaque, t}}
		}
		var out []Leaf
		for i := int64(0); i < u.Len(); i++ {
			for _, l := range layout(u.Elem()) {
				out = append(out, Leaf{fmt.Sprintf(".%d%s", i, l.Path), l.Sort, l.Kind, l.T})
			}
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range layout(u.At(i).Type()) {
				out = append(out, Leaf{fmt.Sprintf(".%d%s", i, l.Path), l.Sort, l.Kind, l.T})
			}
		}
		return out
	}
	return []Leaf{{"", "Int", KOpaque, t}}
}

// fieldRange returns the range of leaves of field i of struct type t.
func fieldRange(t types.Type, i int) (start, n int, ft types.Type) {
	u := t.Underlying().(*types.Struct)
	for j := 0; j < i; j++ {
		start += len(layout(u.Field(j).Type()))
	}
	ft = u.Field(i).Type()
	return start, len(layout(ft)), ft
}

func tupleRange(t *types.Tuple, i int) (start, n int, ft types.Type) {
	for j := 0; j < i; j++ {
		start += len(layout(t.At(j).Type()))
	}
	ft = t.At(i).Type()
	return start, len(layout(ft)), ft
}

// typeKey names the heap of elements of type t.
func typeKey(t types.Type) string {
	switch x := t.(type) {
	case *types.Named:
		if p := x.Obj().Pkg(); p != nil {
			return p.Name() + "." + x.Obj().Name()
		}
		return x.Obj().Name()
	case *types.Alias:
		return typeKey(types.Unalias(t))
	case *types.Basic:
		switch x.Kind() {
		case types.Uint8:
			return "uint8"
		case types.Int32:
			return "int32"
		}
		return x.Name()
	}
	return sym(types.TypeString(t, func(p *types.Package) string { return p.Name() }))
}

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits, unsigned := intBits(b)
	if bits == 0 {
		return nil, nil, false
	}
	if unsigned {
		return big.NewInt(0), new(big.Int).Sub(pow2(bits), big.NewInt(1)), true
	}
	return new(big.Int).Neg(pow2(bits - 1)), new(big.Int).Sub(pow2(bits-1), big.NewInt(1)), true
}

func intBits(b *types.Basic) (bits int, unsigned bool) {
	switch b.Kind() {
	case types.Int, types.Int64:
		return 64, false
	case types.Int8:
		return 8, false
	case types.Int16:
		return 16, false
	case types.Int32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, true
	case types.Uint8:
		return 8, true
	case types.Uint16:
		return 16, true
	case types.Uint32:
		return 32, true
	}
	return 0, false
}

// leafFacts gives validity facts of leaf values of a type; get(i) gives the term of leaf i.
func leafFacts(ls []Leaf, get func(i int) Term, alloc Term) []Term {
	var out []Term
	for i, l := range ls {
		t := get(i)
		switch l.Kind {
		case KInt:
			if lo, hi, ok := intRange(l.T); ok {
				noteRange(t, lo, hi)
				out = append(out, Le(BigNum(lo), t), Le(t, BigNum(hi)))
			}
		case KStrO:
			out = append(out, Le("0", t))
		case KStrL:
			noteRange(t, big.NewInt(0), maxLen)
			out = append(out, Le("0", t), Le(t, BigNum(maxLen)))
		case KSlR:
			out = append(out, Le("0", t), Lt(t, alloc))
		case KSlO:
			out = append(out, Le("0", t))
		case KSlL:
			noteRange(t, big.NewInt(0), maxLen)
			out = append(out, Le("0", t), Le(t, get(i+1)))
		case KSlC:
			noteRange(t, big.NewInt(0), maxLen)
			out = append(out, Le(t, BigNum(maxLen)), Imp(Eq(get(i-3), "0"), And(Eq(t, "0"), Eq(get(i-2), "0"))))
		case KPtrR:
			out = append(out, Le("0", t), Lt(t, alloc), Imp(Eq(t, "0"), Eq(get(i+1), "0")))
		case KPtrI:
			out = append(out, Le("0", t))
		case KIfT:
			out = append(out, Le("0", t), Imp(Eq(t, "0"), And(Eq(get(i+1), "0"), Eq(get(i+2), "0"))))
		}
	}
	return out
}

func zeroLeaf(l Leaf) Term {
	switch l.Sort {
	case "Bool":
		return "false"
	case "F64":
		return "f64zero"
	case "R":
		return "rempty"
	}
	return "0"
}

func zeroLeaves(t types.Type) []Term {
	ls := layout(t)
	out := make([]Term, len(ls))
	for i, l := range ls {
		out[i] = zeroLeaf(l)
	}
	return out
}
