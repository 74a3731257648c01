// Package pu holds reference helpers for RLWE objects: exact phases, secrets and noise as integers.
package pu

import (
	"fmt"
	"math/big"

	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"verifharness/h"
	"verifharness/ref"
)

// Spec describes a parameter set.
type Spec struct {
	Name  string
	LogN  int
	Q, P  []uint64
	H     int
	Sigma float64
	T     ring.Type
}

func (s Spec) String() string { return s.Name }

// New builds the parameter set.
func (s Spec) New(t *h.T) rlwe.Parameters {
	p, err := rlwe.NewParameters(s.LogN, s.Q, s.P, s.H, s.Sigma, s.T)
	t.Check(err == nil, "setup/params", "NewParameters(%s): %v", s.Name, err)
	return p
}

// Factor is the growth of a product's infinity norm over |a|_1*|b|_inf.
func Factor(tp ring.Type) int64 {
	if tp == ring.ConjugateInvariant {
		return 2
	}
	return 1
}

// M0 is the order required of primes.
func M0(logN int, tp ring.Type) uint64 {
	if tp == ring.ConjugateInvariant {
		return uint64(4) << uint(logN)
	}
	return uint64(2) << uint(logN)
}

// invR returns 2^-64 modulo q.
func invR(q uint64) uint64 { return ref.InvMod(ref.R64(q), q) }

// Plain takes a poly in the NTT and Montgomery domain out of Montgomery form (pointwise).
func Plain(p *ring.Poly, q []uint64) [][]uint64 {
	o := make([][]uint64, len(p.Coeffs))
	for i := range o {
		o[i] = make([]uint64, len(p.Coeffs[i]))
		f := invR(q[i])
		for j, v := range p.Coeffs[i] {
			o[i][j] = ref.MulMod(v%q[i], f, q[i])
		}
	}
	return o
}

// NTT returns the transformed limbs 0..level of p (p itself if already transformed), as a copy reduced modulo q.
func NTT(r *ring.Ring, p *ring.Poly, isNTT bool, level int) [][]uint64 {
	c := ring.NewPoly(r.N, level+1)
	for i := 0; i <= level; i++ {
		for j, v := range p.Coeffs[i] {
			c.Coeffs[i][j] = v % r.Modulus[i]
		}
	}
	if !isNTT {
		r.NTTLvl(level, c, c)
	}
	return c.Coeffs
}

// Coef returns the centred integer coefficients represented by transformed limbs.
func Coef(r *ring.Ring, v [][]uint64) []*big.Int {
	c := ring.NewPoly(r.N, len(v))
	for i := range v {
		copy(c.Coeffs[i], v[i])
	}
	r.InvNTTLvl(len(v)-1, c, c)
	return ref.CRTCentered(c.Coeffs, r.Modulus[:len(v)])
}

// Ints returns the centred integers represented by limbs 0..level of p in either domain.
func Ints(r *ring.Ring, p *ring.Poly, isNTT bool, level int) []*big.Int {
	if isNTT {
		return Coef(r, NTT(r, p, true, level))
	}
	c := make([][]uint64, level+1)
	for i := range c {
		c[i] = make([]uint64, r.N)
		for j, v := range p.Coeffs[i] {
			c[i][j] = v % r.Modulus[i]
		}
	}
	return ref.CRTCentered(c, r.Modulus[:level+1])
}

// Phase returns sum_i val[i] * s^i as centred integers modulo the product of the limbs 0..level; s is given pointwise (Plain).
func Phase(r *ring.Ring, val []*ring.Poly, isNTT bool, level int, s [][]uint64) []*big.Int {
	return Coef(r, PhaseNTT(r, val, isNTT, level, s))
}

// PhaseNTT is Phase before the inverse transform.
func PhaseNTT(r *ring.Ring, val []*ring.Poly, isNTT bool, level int, s [][]uint64) [][]uint64 {
	acc := NTT(r, val[len(val)-1], isNTT, level)
	for k := len(val) - 2; k >= 0; k-- {
		x := NTT(r, val[k], isNTT, level)
		for i := 0; i <= level; i++ {
			q := r.Modulus[i]
			for j := range acc[i] {
				acc[i][j] = ref.AddMod(ref.MulMod(acc[i][j], s[i][j], q), x[i][j], q)
			}
		}
	}
	return acc
}

// Err returns the centred difference a-b modulo Q.
func Err(a, b []*big.Int, Q *big.Int) []*big.Int {
	o := make([]*big.Int, len(a))
	for i := range a {
		o[i] = new(big.Int).Sub(a[i], b[i])
		o[i].Mod(o[i], Q)
	}
	ref.Center(o, Q)
	return o
}

// MaxAbs is the infinity norm.
func MaxAbs(v []*big.Int) *big.Int {
	m := new(big.Int)
	for _, x := range v {
		if x.CmpAbs(m) > 0 {
			m = new(big.Int).Abs(x)
		}
	}
	return m
}

// Norm1 is the sum of absolute values.
func Norm1(v []*big.Int) *big.Int {
	m := new(big.Int)
	for _, x := range v {
		m.Add(m, new(big.Int).Abs(x))
	}
	return m
}

// Reduced tells whether every coefficient of the limbs is below its modulus.
func Reduced(p *ring.Poly, q []uint64) (bool, string) {
	for i := range p.Coeffs {
		for j, v := range p.Coeffs[i] {
			if v >= q[i] {
				return false, fmt.Sprintf("limb %d coefficient %d is %d >= %d", i, j, v, q[i])
			}
		}
	}
	return true, ""
}

// Secret returns the integer coefficients of a secret key and checks that all limbs agree.
func Secret(t *h.T, P rlwe.Parameters, sk *rlwe.SecretKey) []*big.Int {
	rq := P.RingQ()
	lim := Plain(sk.Value.Q, rq.Modulus)
	s := Coef(rq, lim[:1])
	for i := range lim {
		c := ring.NewPoly(rq.N, i+1)
		copy(c.Coeffs[i], lim[i])
		rq.InvNTTSingle(i, c.Coeffs[i], c.Coeffs[i])
		for j := range s {
			t.Check(c.Coeffs[i][j] == ref.Residue(s[j], rq.Modulus[i]), "secret/limbs", "coefficient %d of the secret is %d modulo q[%d] and %s modulo q[0]", j, c.Coeffs[i][j], i, s[j])
		}
	}
	if P.PCount() > 0 && sk.Value.P != nil {
		rp := P.RingP()
		lim := Plain(sk.Value.P, rp.Modulus)
		for i := range lim {
			c := ring.NewPoly(rp.N, i+1)
			copy(c.Coeffs[i], lim[i])
			rp.InvNTTSingle(i, c.Coeffs[i], c.Coeffs[i])
			for j := range s {
				t.Check(c.Coeffs[i][j] == ref.Residue(s[j], rp.Modulus[i]), "secret/limbs", "coefficient %d of the secret is %d modulo p[%d] and %s modulo q[0]", j, c.Coeffs[i][j], i, s[j])
			}
		}
	}
	return s
}

// SpecialSecret builds a secret key from integer coefficients, in the library's representation.
func SpecialSecret(P rlwe.Parameters, s []*big.Int) *rlwe.SecretKey {
	sk := rlwe.NewSecretKey(P)
	set := func(r *ring.Ring, p *ring.Poly) {
		for i, q := range r.Modulus {
			for j := range s {
				p.Coeffs[i][j] = ref.MulMod(ref.Residue(s[j], q), ref.R64(q), q)
			}
		}
		r.NTT(p, p)
	}
	set(P.RingQ(), sk.Value.Q)
	if P.PCount() > 0 {
		set(P.RingP(), sk.Value.P)
	}
	return sk
}

// B is the bound of the error sampler.
func B(P rlwe.Parameters) int64 { return int64(6 * P.Sigma()) }

// PolyHash digests polynomials with their flags.
func PolyHash(ps ...*ring.Poly) uint64 {
	x := uint64(14695981039346656037)
	mix := func(v uint64) { x = (x ^ v) * 1099511628211; x ^= x >> 29 }
	for _, p := range ps {
		if p == nil {
			mix(1)
			continue
		}
		mix(uint64(len(p.Coeffs)) + 2)
		for _, c := range p.Coeffs {
			mix(uint64(len(c)))
			for _, v := range c {
				mix(v)
			}
		}
		if p.IsNTT {
			mix(5)
		}
		if p.IsMForm {
			mix(7)
		}
	}
	return x
}

// QPHash digests extended polynomials.
func QPHash(ps ...rlwe.PolyQP) uint64 {
	var v []*ring.Poly
	for _, p := range ps {
		v = append(v, p.Q, p.P)
	}
	return PolyHash(v...)
}
