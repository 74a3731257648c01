package pu

import (
	"math/big"

	"verifharness/ref"

	"fast-ksw/ring"
)

// TChain is the shortest chain of primes of the given size satisfying the size condition of the fast key switch,
// 2*beta*N*max(digit modulus)*max(block modulus) < T.
func TChain(logN int, q, p []uint64, gamma, tbits int) []uint64 {
	al := len(p)
	beta := (len(q) + al - 1) / al
	maxOf := func(v []uint64, k int) *big.Int {
		o := new(big.Int)
		for i := 0; i < len(v); i += k {
			e := i + k
			if e > len(v) {
				e = len(v)
			}
			if x := ref.Prod(v[i:e]); x.Cmp(o) > 0 {
				o = x
			}
		}
		return o
	}
	need := maxOf(q, al)
	need.Mul(need, maxOf(append(append([]uint64{}, p...), q...), gamma))
	need.Mul(need, big.NewInt(int64(2*beta)<<uint(logN)))
	need.Add(need, new(big.Int).Rsh(need, 20))
	for n := 1; ; n++ {
		t := ref.PrimesBelow(tbits, M0(logN, ring.Standard), n)
		if ref.Prod(t).Cmp(need) > 0 {
			return t
		}
	}
}
