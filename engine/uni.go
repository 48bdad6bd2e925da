package main

// Character classes: the tables of package unicode as range conditions.

import (
	"sync"
	"unicode"

)


func init() {
	for n, f := range map[string]func(rune) bool{
		"IsLetter": unicode.IsLetter, "IsDigit": unicode.IsDigit, "IsNumber": unicode.IsNumber, "IsUpper": unicode.IsUpper,
		"IsLower": unicode.IsLower, "IsSpace": unicode.IsSpace, "IsPunct": unicode.IsPunct, "IsControl": unicode.IsControl,
		"IsPrint": unicode.IsPrint, "IsGraphic": unicode.IsGraphic, "IsTitle": unicode.IsTitle, "IsSymbol": unicode.IsSymbol, "IsMark": unicode.IsMark,
	} {
		intrinsics["unicode."+n] = runeClass(n, f)
	}
	for n, f := range map[string]func(rune) rune{"ToUpper": unicode.ToUpper, "ToLower": unicode.ToLower, "ToTitle": unicode.ToTitle} {
		n, f := n, f
		intrinsics["unicode."+n] = func(x *Exec, fr *frame, a []Value) Value {
			r := a[0].(*Term)
			if r.IsConst() {
				return x.tt.Const(32, uint64(uint32(f(rune(int32(r.V))))))
			}
			if !x.decide(x.tt.Ult(r, x.tt.Const(32, 128))) {
				panic(unsupported("unicode." + n + " of a symbolic rune"))
			}
			res := r
			for c := rune(0); c < 128; c++ {
				if f(c) != c {
					res = x.tt.Ite(x.tt.Eq(r, x.tt.Const(32, uint64(c))), x.tt.Const(32, uint64(f(c))), res)
				}
			}
			return res
		}
	}
}

type runeRange struct{ lo, hi uint64 }

func runeClass(name string, f func(rune) bool) intrinsic {
	var rs []runeRange
	var once sync.Once
	table := func() {
		for c := rune(0); c <= unicode.MaxRune; c++ {
			if !f(c) {
				continue
			}
			if k := len(rs); k > 0 && rs[k-1].hi == uint64(c)-1 {
				rs[k-1].hi++
			} else {
				rs = append(rs, runeRange{uint64(c), uint64(c)})
			}
		}
	}
	return func(x *Exec, fr *frame, a []Value) Value {
		r := a[0].(*Term)
		if r.IsConst() {
			return x.tt.Bool(f(rune(int32(r.V))))
		}
		once.Do(table)
		max := uint64(unicode.MaxRune)
		if r.hi < 128 || x.decide(x.tt.Ult(r, x.tt.Const(32, 128))) {
			max = 127
		}
		res := x.tt.False
		for _, q := range rs {
			if q.lo > max {
				break
			}
			res = x.tt.BOr(res, x.tt.BAnd(x.tt.Ule(x.tt.Const(32, q.lo), r), x.tt.Ule(r, x.tt.Const(32, q.hi))))
		}
		return res
	}
}
