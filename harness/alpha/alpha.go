// Package alpha builds boundary alphabets of big integers for RNS arithmetic.
package alpha

import (
	"math/big"

	"verifharness/h"
	"verifharness/ref"
)

// Alphabet of values in [0,M) that exercise rounding boundaries; facs are divisors of interest.
func Alphabet(M *big.Int, facs []*big.Int, dense int, tag string) (out []*big.Int) {
	seen := map[string]bool{}
	add := func(v *big.Int) {
		w := new(big.Int).Mod(v, M)
		if !seen[w.String()] {
			seen[w.String()] = true
			out = append(out, w)
		}
	}
	one := big.NewInt(1)
	half := new(big.Int).Rsh(M, 1)
	for d := int64(-2); d <= 2; d++ {
		add(big.NewInt(d))
		add(new(big.Int).Add(half, big.NewInt(d)))
		add(new(big.Int).Add(new(big.Int).Div(M, big.NewInt(3)), big.NewInt(d)))
	}
	for _, k := range []uint{1, 10, 31, 32, 53, 54, 62, 63, 64, 65} {
		add(new(big.Int).Lsh(one, k))
		add(new(big.Int).Neg(new(big.Int).Lsh(one, k)))
	}
	for i, f := range facs {
		if f.Sign() == 0 {
			continue
		}
		for _, k := range []int64{1, 2, 3} {
			for d := int64(-1); d <= 1; d++ {
				v := new(big.Int).Mul(f, big.NewInt(k))
				add(v.Add(v, big.NewInt(d)))
			}
		}
		c := new(big.Int).Div(M, f) // cofactor
		if c.Sign() > 0 && i < 8 {
			for d := int64(-1); d <= 1; d++ {
				add(new(big.Int).Add(c, big.NewInt(d)))
				v := new(big.Int).Mul(f, new(big.Int).Rsh(c, 1))
				add(v.Add(v, big.NewInt(d)))
				v = new(big.Int).Rsh(f, 1)
				add(v.Add(v, big.NewInt(d)))
			}
		}
	}
	// partial sums of the cofactors: the digits of the conversions are all 1, or all the largest
	sum := new(big.Int)
	for _, f := range facs {
		if f.Sign() > 0 {
			sum.Add(sum, new(big.Int).Div(M, f))
			add(sum)
			add(new(big.Int).Neg(sum))
		}
	}
	r := h.NewRng("alpha|" + tag)
	for i := 0; i < dense; i++ {
		v := new(big.Int)
		for v.BitLen() < M.BitLen()+64 {
			v.Lsh(v, 64).Add(v, ref.U(r.U64()))
		}
		add(v)
	}
	return
}

// eps: relative distance (bits) under which the library's floating-point overflow estimate may be off by one.
var eps = 40

// Near tells whether x in (0,M) is so close to a multiple of M that the floating-point overflow estimate may be off by one.
func Near(x, M *big.Int) (lo, hi bool) {
	if x.Sign() == 0 {
		return
	}
	b := new(big.Int).Rsh(M, uint(eps))
	lo = x.Cmp(b) < 0
	hi = new(big.Int).Sub(M, x).Cmp(b) < 0
	return
}

// Lifts returns the admissible values of the lift of x mod M: x, plus x+M (lo) or x-M (hi).
func Lifts(x, M *big.Int) []*big.Int {
	out := []*big.Int{x}
	lo, hi := Near(x, M)
	if lo {
		out = append(out, new(big.Int).Add(x, M))
	}
	if hi {
		out = append(out, new(big.Int).Sub(x, M))
	}
	return out
}

// Bigs converts.
func Bigs(v []uint64) (o []*big.Int) {
	for _, x := range v {
		o = append(o, ref.U(x))
	}
	return
}

// Chunks pads the values to a multiple of n.
func Chunks(v []*big.Int, n int) (out [][]*big.Int) {
	for i := 0; i < len(v); i += n {
		c := make([]*big.Int, n)
		for j := range c {
			c[j] = v[(i+j)%len(v)]
		}
		out = append(out, c)
	}
	return
}
