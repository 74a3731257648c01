// Package ref is the deliberately boring reference arithmetic the checks compare the library with.
// It uses math/big and 128-bit division only and shares no code with the library.
package ref

import (
	"math/big"
	"math/bits"
)

// MulMod returns x*y mod q.
func MulMod(x, y, q uint64) uint64 {
	hi, lo := bits.Mul64(x, y)
	_, r := bits.Div64(hi%q, lo, q)
	return r
}

// AddMod returns x+y mod q.
func AddMod(x, y, q uint64) uint64 {
	lo, c := bits.Add64(x%q, y%q, 0)
	_, r := bits.Div64(c, lo, q)
	return r
}

// SubMod returns x-y mod q.
func SubMod(x, y, q uint64) uint64 { return AddMod(x, q-y%q, q) }

// PowMod returns x^e mod q.
func PowMod(x, e, q uint64) uint64 {
	r := 1 % q
	x %= q
	for ; e > 0; e >>= 1 {
		if e&1 == 1 {
			r = MulMod(r, x, q)
		}
		x = MulMod(x, x, q)
	}
	return r
}

// InvMod returns x^-1 mod q for prime q.
func InvMod(x, q uint64) uint64 { return PowMod(x, q-2, q) }

// R64 returns 2^64 mod q.
func R64(q uint64) uint64 {
	_, r := bits.Div64(1%q, 0, q)
	return r
}

// U returns a big.Int.
func U(x uint64) *big.Int { return new(big.Int).SetUint64(x) }

// IsPrime is a probabilistic primality test with negligible error.
func IsPrime(x uint64) bool { return U(x).ProbablyPrime(30) }

// PrimesBelow returns n primes congruent to 1 mod m, descending from 2^bits.
func PrimesBelow(bitlen int, m uint64, n int) (out []uint64) {
	top := uint64(1) << uint(bitlen)
	for x := top - (top-1)%m; len(out) < n && x > m; x -= m {
		if x < top && IsPrime(x) {
			out = append(out, x)
		}
	}
	return
}

// PrimesAbove returns n primes congruent to 1 mod m, ascending from start.
func PrimesAbove(start, m uint64, n int) (out []uint64) {
	x := start - start%m + 1
	for ; len(out) < n; x += m {
		if x >= start && IsPrime(x) {
			out = append(out, x)
		}
	}
	return
}

// Prod returns the product of moduli.
func Prod(q []uint64) *big.Int {
	p := big.NewInt(1)
	for _, x := range q {
		p.Mul(p, U(x))
	}
	return p
}

// CRT returns the integers in [0,prod q) with the given residues, res[i][j] = residue of coefficient j mod q[i].
func CRT(res [][]uint64, q []uint64) []*big.Int {
	Q := Prod(q)
	n := len(res[0])
	out := make([]*big.Int, n)
	basis := make([]*big.Int, len(q))
	for i, qi := range q {
		b := new(big.Int).Quo(Q, U(qi))
		inv := new(big.Int).ModInverse(new(big.Int).Mod(b, U(qi)), U(qi))
		basis[i] = b.Mul(b, inv)
	}
	t := new(big.Int)
	for j := 0; j < n; j++ {
		acc := new(big.Int)
		for i := range q {
			acc.Add(acc, t.Mul(basis[i], U(res[i][j])))
		}
		out[j] = acc.Mod(acc, Q)
	}
	return out
}

// CRTCentered is CRT with representatives in (-Q/2, Q/2].
func CRTCentered(res [][]uint64, q []uint64) []*big.Int {
	out := CRT(res, q)
	Q := Prod(q)
	Center(out, Q)
	return out
}

// Center maps values mod Q to (-Q/2, Q/2] in place.
func Center(v []*big.Int, Q *big.Int) {
	h := new(big.Int).Rsh(Q, 1)
	for _, x := range v {
		x.Mod(x, Q)
		if x.Cmp(h) > 0 {
			x.Sub(x, Q)
		}
	}
}

// Residue returns x mod q in [0,q).
func Residue(x *big.Int, q uint64) uint64 { return new(big.Int).Mod(x, U(q)).Uint64() }

// ToRNS returns the residues of v.
func ToRNS(v []*big.Int, q []uint64) [][]uint64 {
	out := make([][]uint64, len(q))
	for i, qi := range q {
		out[i] = make([]uint64, len(v))
		for j := range v {
			out[i][j] = Residue(v[j], qi)
		}
	}
	return out
}

// NegaMul multiplies in Z[X]/(X^N+1).
func NegaMul(a, b []*big.Int) []*big.Int {
	n := len(a)
	out := make([]*big.Int, n)
	for i := range out {
		out[i] = new(big.Int)
	}
	t := new(big.Int)
	for i := 0; i < n; i++ {
		if a[i].Sign() == 0 {
			continue
		}
		for j := 0; j < n; j++ {
			t.Mul(a[i], b[j])
			if i+j < n {
				out[i+j].Add(out[i+j], t)
			} else {
				out[i+j-n].Sub(out[i+j-n], t)
			}
		}
	}
	return out
}

// NegaMulMod multiplies in Z_q[X]/(X^N+1).
func NegaMulMod(a, b []uint64, q uint64) []uint64 {
	n := len(a)
	out := make([]uint64, n)
	for i := 0; i < n; i++ {
		if a[i] == 0 {
			continue
		}
		for j := 0; j < n; j++ {
			p := MulMod(a[i], b[j], q)
			if i+j < n {
				out[i+j] = AddMod(out[i+j], p, q)
			} else {
				out[i+j-n] = SubMod(out[i+j-n], p, q)
			}
		}
	}
	return out
}

// BitRev reverses the low n bits of x.
func BitRev(x uint64, n int) uint64 {
	if n == 0 {
		return 0
	}
	return bits.Reverse64(x) >> uint(64-n)
}

// FloorDiv returns floor(a/b) for b>0.
func FloorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m) // Euclidean: m >= 0 for b>0
	return q
}

// RoundDiv returns floor((a + floor(b/2))/b) for b>0: nearest integer, halves up.
func RoundDiv(a, b *big.Int) *big.Int {
	t := new(big.Int).Rsh(b, 1)
	return FloorDiv(t.Add(t, a), b)
}
