// Package ru holds ring helpers shared by the checks (built on exported API of the library only).
package ru

import (
	"fmt"
	"math/big"

	"fast-ksw/ring"
	"verifharness/h"
	"verifharness/ref"
)

// RingSpec names a ring under test.
type RingSpec struct {
	Name string
	N    int
	Type ring.Type
	Q    []uint64
}

func (s RingSpec) String() string { return s.Name }

// New builds the ring, failing the case if the library rejects it.
func (s RingSpec) New(t *h.T) *ring.Ring {
	r, err := ring.NewRingFromType(s.N, s.Q, s.Type)
	if err != nil {
		t.Fail("ring-new", "NewRingFromType(%d,%v): %v", s.N, s.Q, err)
	}
	return r
}

// Mixed returns n distinct primes = 1 mod m cycling through the bit sizes.
func Mixed(m uint64, sizes ...int) (out []uint64) {
	cnt := map[int]int{}
	for _, b := range sizes {
		cnt[b]++
		ps := ref.PrimesBelow(b, m, cnt[b])
		if len(ps) < cnt[b] {
			panic(fmt.Sprint("no primes ", b, m))
		}
		out = append(out, ps[cnt[b]-1])
	}
	return
}

// Rep returns n copies of b.
func Rep(b, n int) (out []int) {
	for i := 0; i < n; i++ {
		out = append(out, b)
	}
	return
}

// Clone deep-copies coefficients.
func Clone(c [][]uint64) [][]uint64 {
	out := make([][]uint64, len(c))
	for i := range c {
		out[i] = append([]uint64{}, c[i]...)
	}
	return out
}

// Same reports the first difference of two coefficient matrices.
func Same(a, b [][]uint64) (bool, string) {
	if len(a) != len(b) {
		return false, fmt.Sprintf("limb count %d != %d", len(a), len(b))
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false, fmt.Sprintf("limb %d length %d != %d", i, len(a[i]), len(b[i]))
		}
		for j := range a[i] {
			if a[i][j] != b[i][j] {
				return false, fmt.Sprintf("limb %d coeff %d: %d != %d", i, j, a[i][j], b[i][j])
			}
		}
	}
	return true, ""
}

// Cong reports the first position where a != b modulo q (first lvl+1 limbs).
func Cong(a, b [][]uint64, q []uint64, lvl int) (bool, string) {
	for i := 0; i <= lvl; i++ {
		for j := range a[i] {
			if a[i][j]%q[i] != b[i][j]%q[i] {
				return false, fmt.Sprintf("limb %d coeff %d: %d != %d mod %d", i, j, a[i][j], b[i][j], q[i])
			}
		}
	}
	return true, ""
}

// Fill patterns for polynomials.
const (
	PatZero = iota
	PatOne
	PatMax   // q-1 everywhere
	PatHalf  // around q/2
	PatDense // filler
	PatMono  // one non-zero coefficient
	PatAlt   // alternating 0, q-1
	NPat
)

// Fill writes a pattern over the limbs with bound mult*q.
func Fill(p *ring.Poly, q []uint64, pat int, tag string) {
	rng := h.NewRng(fmt.Sprintf("fill|%s|%d", tag, pat))
	for i := range p.Coeffs {
		qi := q[i]
		for j := range p.Coeffs[i] {
			var v uint64
			switch pat {
			case PatOne:
				if j == 0 {
					v = 1
				}
			case PatMax:
				v = qi - 1
			case PatHalf:
				v = qi/2 + uint64(j%3) - 1
			case PatDense:
				v = rng.U64() % qi
			case PatMono:
				if j == len(p.Coeffs[i])-1 {
					v = qi - 1
				}
			case PatAlt:
				if j%2 == 1 {
					v = qi - 1
				}
			}
			p.Coeffs[i][j] = v % qi
		}
	}
}

// FillInt writes the residues of an integer polynomial.
func FillInt(p *ring.Poly, q []uint64, v []*big.Int) {
	for i := range p.Coeffs {
		for j := range v {
			p.Coeffs[i][j] = ref.Residue(v[j], q[i])
		}
	}
}

// NewPoly allocates a polynomial with lvl+1 limbs filled with junk.
func Junk(n, lvl int, tag string) *ring.Poly {
	p := ring.NewPoly(n, lvl+1)
	rng := h.NewRng("junk|" + tag)
	for i := range p.Coeffs {
		for j := range p.Coeffs[i] {
			p.Coeffs[i][j] = rng.U64() >> 12
		}
	}
	return p
}

// JunkRed is Junk reduced modulo q.
func JunkRed(n, lvl int, q []uint64, tag string) *ring.Poly {
	p := ring.NewPoly(n, lvl+1)
	rng := h.NewRng("junkr|" + tag)
	for i := range p.Coeffs {
		for j := range p.Coeffs[i] {
			p.Coeffs[i][j] = rng.U64() % q[i]
		}
	}
	return p
}

// Ints returns the integers in [0,Q_lvl) of the first lvl+1 limbs.
func Ints(p *ring.Poly, q []uint64, lvl int) []*big.Int {
	red := make([][]uint64, lvl+1)
	for i := range red {
		red[i] = make([]uint64, len(p.Coeffs[i]))
		for j, v := range p.Coeffs[i] {
			red[i][j] = v % q[i]
		}
	}
	return ref.CRT(red, q[:lvl+1])
}

// IntsC is Ints centered.
func IntsC(p *ring.Poly, q []uint64, lvl int) []*big.Int {
	v := Ints(p, q, lvl)
	ref.Center(v, ref.Prod(q[:lvl+1]))
	return v
}

// MinQ returns the smallest modulus.
func MinQ(q []uint64) uint64 {
	m := q[0]
	for _, x := range q {
		if x < m {
			m = x
		}
	}
	return m
}
