// Package ck models CKKS elements by their phase (the decrypted integer polynomial), level, degree and scale.
package ck

import (
	"fmt"
	"math"
	"math/big"
	"math/cmplx"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"verifharness/h"
	"verifharness/pu"
	"verifharness/ref"
	"verifharness/ru"
)

// Spec describes a CKKS parameter set.
type Spec struct {
	Name     string
	LogN     int
	Q, P     []uint64
	H        int
	T        ring.Type
	Scale    float64
	LogSlots int // the maximum when 0
}

// CI tells whether the ring is the conjugate invariant one.
func (s Spec) CI() bool { return s.T == ring.ConjugateInvariant }

// MaxLog is the largest number of slots.
func (s Spec) MaxLog() int {
	if s.CI() {
		return s.LogN
	}
	return s.LogN - 1
}

// Params builds the parameter set.
func (s Spec) Params(t *h.T) ckks.Parameters {
	r, err := rlwe.NewParameters(s.LogN, s.Q, s.P, s.H, 3.2, s.T)
	t.Check(err == nil, "setup", "rlwe.NewParameters: %v", err)
	ls := s.LogSlots
	if ls == 0 {
		ls = s.MaxLog()
	}
	p, err := ckks.NewParameters(r, ls, s.Scale)
	t.Check(err == nil, "setup", "ckks.NewParameters: %v", err)
	return p
}

// Env holds the parameters, a secret and its known coefficients.
type Env struct {
	T      *h.T
	Spec   Spec
	P      ckks.Parameters
	RQ     *ring.Ring
	N, L   int
	Slots  int
	Q      []uint64
	Sk     *rlwe.SecretKey
	SI     []*big.Int
	S      [][]uint64 // pointwise
	SP     []*big.Int // |s^k|_1
	F      int64
	QL     []*big.Int
	roots  []complex128
	pow5   []int
	junk   int
	Kg     rlwe.KeyGenerator
	signed bool
}

// NewEnv builds an environment.
func NewEnv(t *h.T, s Spec) *Env {
	P := s.Params(t)
	kg := rlwe.NewKeyGenerator(P.Parameters)
	return WithKey(t, s, P, kg, kg.GenSecretKey())
}

// WithKey builds an environment from existing objects.
func WithKey(t *h.T, s Spec, P ckks.Parameters, kg rlwe.KeyGenerator, sk *rlwe.SecretKey) *Env {
	e := &Env{T: t, Spec: s, P: P, RQ: P.RingQ(), N: P.N(), L: P.MaxLevel(), Slots: 1 << uint(s.MaxLog()), Q: P.Q(), Sk: sk, Kg: kg, F: pu.Factor(s.T)}
	e.SI = pu.Secret(t, P.Parameters, sk)
	e.S = pu.Plain(sk.Value.Q, e.Q)
	for l := range e.Q {
		e.QL = append(e.QL, ref.Prod(e.Q[:l+1]))
	}
	// norms of the powers of the secret
	one := new(big.Int).SetInt64(1)
	e.SP = append(e.SP, one)
	x := e.SI
	for k := 1; k < 4; k++ {
		e.SP = append(e.SP, new(big.Int).Mul(pu.Norm1(x), big.NewInt(e.F)))
		x = e.Mul(e.L, x, e.SI)
	}
	m := int(e.RQ.NthRoot)
	for i := 0; i < m; i++ {
		e.roots = append(e.roots, cmplx.Rect(1, 2*math.Pi*float64(i)/float64(m)))
	}
	for j, p := 0, 1; j < e.Slots; j, p = j+1, p*5%m {
		e.pow5 = append(e.pow5, p)
	}
	return e
}

// NTT returns the pointwise values of a polynomial modulo the limbs up to a level.
func (e *Env) NTT(l int, v []*big.Int) [][]uint64 {
	p := ring.NewPoly(e.N, l+1)
	ru.FillInt(p, e.Q, v)
	e.RQ.NTTLvl(l, p, p)
	for i := range p.Coeffs {
		for j := range p.Coeffs[i] {
			p.Coeffs[i][j] %= e.Q[i]
		}
	}
	return p.Coeffs
}

// Mul is the product in the ring, centred modulo the level.
func (e *Env) Mul(l int, a, b []*big.Int) []*big.Int {
	x, y := e.NTT(l, a), e.NTT(l, b)
	for i := range x {
		for j := range x[i] {
			x[i][j] = ref.MulMod(x[i][j], y[i][j], e.Q[i])
		}
	}
	return pu.Coef(e.RQ, x)
}

// Lin returns k0*a + k1*b modulo the level (b may be nil).
func (e *Env) Lin(l int, k0 int64, a []*big.Int, k1 int64, b []*big.Int) []*big.Int {
	o := make([]*big.Int, e.N)
	for i := range o {
		o[i] = new(big.Int).Mul(a[i], big.NewInt(k0))
		if b != nil {
			o[i].Add(o[i], new(big.Int).Mul(b[i], big.NewInt(k1)))
		}
		o[i].Mod(o[i], e.QL[l])
	}
	ref.Center(o, e.QL[l])
	return o
}

// Gauss multiplies by the Gaussian integer re + im*X^(N/2) modulo the level.
func (e *Env) Gauss(l int, a []*big.Int, re, im *big.Int) []*big.Int {
	o := make([]*big.Int, e.N)
	for i := range o {
		o[i] = new(big.Int).Mul(a[i], re)
		if im.Sign() != 0 {
			x := a[(i+e.N/2)%e.N]
			y := new(big.Int).Mul(x, im)
			if i < e.N/2 {
				y.Neg(y)
			}
			o[i].Add(o[i], y)
		}
		o[i].Mod(o[i], e.QL[l])
	}
	ref.Center(o, e.QL[l])
	return o
}

// Galois applies the automorphism of a Galois element.
func (e *Env) Galois(a []*big.Int, g uint64) []*big.Int {
	n := uint64(e.N)
	o := make([]*big.Int, n)
	for i := range a {
		neg := false
		var x uint64
		if e.Spec.CI() {
			x = uint64(i) * (g % (4 * n)) % (4 * n)
			if x > 2*n {
				x = 4*n - x
			}
			if x > n {
				x, neg = 2*n-x, true
			}
		} else {
			x = uint64(i) * (g % (2 * n)) % (2 * n)
			if x >= n {
				x, neg = x-n, true
			}
		}
		o[x] = new(big.Int).Set(a[i])
		if neg {
			o[x].Neg(o[x])
		}
	}
	return o
}

// GaloisFor is the Galois element of the rotation by k to the left.
func (e *Env) GaloisFor(k int) uint64 {
	m := uint64(e.RQ.NthRoot)
	k = ((k % e.Slots) + e.Slots) % e.Slots
	g := uint64(1)
	for ; k > 0; k-- {
		g = g * 5 % m
	}
	return g
}

// Reduce takes a polynomial modulo a lower level.
func (e *Env) Reduce(l int, a []*big.Int) []*big.Int { return e.Lin(l, 1, a, 0, nil) }

// Encode returns the scaled integer polynomial of a slot vector (exact up to one half; in rings of degree above
// 512, up to one half plus a relative 2^-40).
func (e *Env) Encode(v []complex128, scale float64) []*big.Int {
	if e.N > 512 {
		return e.encodeFloat(v, scale)
	}
	z := make([]ref.C, len(v))
	for i := range v {
		z[i] = ref.NewC(v[i])
		if e.Spec.CI() {
			z[i].Im = ref.F(0)
		}
	}
	c := ref.Coeffs(z, e.Spec.CI())
	gap := e.N / len(c)
	o := make([]*big.Int, e.N)
	for i := range o {
		o[i] = new(big.Int)
	}
	for i := range c {
		x := new(big.Float).SetPrec(ref.Prec).Mul(c[i], ref.F(scale))
		if x.Sign() < 0 {
			x.Sub(x, ref.F(0.5))
		} else {
			x.Add(x, ref.F(0.5))
		}
		x.Int(o[i*gap])
	}
	return o
}

func (e *Env) encodeFloat(v []complex128, scale float64) []*big.Int {
	n := len(v)
	l, m := 2*n, 4*n
	if e.Spec.CI() {
		l = n
	}
	cs, sn := make([]float64, m), make([]float64, m)
	for i := range cs {
		sn[i], cs[i] = math.Sincos(2 * math.Pi * float64(i) / float64(m))
	}
	o := make([]*big.Int, e.N)
	for i := range o {
		o[i] = new(big.Int)
	}
	for k := 0; k < l; k++ {
		a := 0.0
		for j, g := 0, 1; j < n; j, g = j+1, g*5%m {
			x := g * k % m
			a += real(v[j]) * cs[x]
			if !e.Spec.CI() {
				a += imag(v[j]) * sn[x]
			}
		}
		new(big.Float).SetFloat64(math.Round(a / float64(n) * scale)).Int(o[k*(e.N/l)])
	}
	return o
}

// Decode evaluates a polynomial divided by the scale at the roots of the slots.
func (e *Env) Decode(ph []*big.Int, scale float64) []complex128 {
	o := make([]complex128, e.Slots)
	m := len(e.roots)
	c := make([]float64, e.N)
	for i := range c {
		f := new(big.Float).SetInt(ph[i])
		f.Quo(f, big.NewFloat(scale))
		c[i], _ = f.Float64()
	}
	for j := range o {
		var a complex128
		for i, x := range c {
			r := e.roots[e.pow5[j]*i%m]
			if e.Spec.CI() && i > 0 {
				a += complex(2*x*real(r), 0)
			} else {
				a += complex(x, 0) * r
			}
		}
		o[j] = a
	}
	return o
}

// SlotErr bounds the effect on a slot of an error of the given infinity norm, divided by the scale.
func (e *Env) SlotErr(b *big.Int, scale float64) float64 {
	f, _ := new(big.Float).SetInt(b).Float64()
	return f / scale * float64(2*e.N)
}

// Poly returns a polynomial in the NTT domain with the given values.
func (e *Env) Poly(l int, v []*big.Int) *ring.Poly {
	p := ring.NewPoly(e.N, l+1)
	p.Coeffs = e.NTT(l, v)
	p.IsNTT = true
	return p
}

// Dirty returns a ciphertext of a shape full of reduced junk.
func (e *Env) Dirty(deg, lvl int) *ckks.Ciphertext {
	c := ckks.NewCiphertext(e.P, deg, lvl, 12345)
	for i := range c.Value {
		e.junk++
		c.Value[i].Coeffs = ru.JunkRed(e.N, lvl, e.Q, fmt.Sprint("dirty", e.junk%7)).Coeffs
	}
	return c
}

// Make returns an operand of the degree, level and scale with exactly the given phase; degree 0 gives a plaintext.
func (e *Env) Make(deg, lvl int, scale float64, ph []*big.Int) ckks.Operand {
	if deg == 0 {
		p := ckks.NewPlaintext(e.P, lvl, scale)
		p.Value.Coeffs = e.NTT(lvl, ph)
		return p
	}
	return e.MakeCt(deg, lvl, scale, ph)
}

// MakeCt is Make for ciphertexts.
func (e *Env) MakeCt(deg, lvl int, scale float64, ph []*big.Int) *ckks.Ciphertext {
	return e.MakeUnder(deg, lvl, scale, ph, e.S)
}

// MakeUnder is MakeCt under another secret (pointwise).
func (e *Env) MakeUnder(deg, lvl int, scale float64, ph []*big.Int, s [][]uint64) *ckks.Ciphertext {
	c := e.Dirty(deg, lvl)
	c.Scale = scale
	zero := ring.NewPoly(e.N, lvl+1)
	zero.IsNTT = true
	m := e.NTT(lvl, ph)
	x := pu.PhaseNTT(e.RQ, append([]*ring.Poly{zero}, c.Value[1:]...), true, lvl, s)
	for i := range m {
		for j := range m[i] {
			c.Value[0].Coeffs[i][j] = ref.SubMod(m[i][j], x[i][j], e.Q[i])
		}
	}
	return c
}

// Phase returns the phase of an operand.
func (e *Env) Phase(op ckks.Operand) []*big.Int {
	return pu.Phase(e.RQ, op.El().Value, true, op.Level(), e.S)
}

// KS is the worst-case error of a key switch at a level.
func (e *Env) KS(l int) *big.Int {
	p := e.P.P()
	al := len(p)
	o := new(big.Int)
	for i := 0; i*al <= l; i++ {
		ed := (i + 1) * al
		if ed > l+1 {
			ed = l + 1
		}
		o.Add(o, ref.Prod(e.Q[i*al:ed]))
	}
	o.Mul(o, big.NewInt(2*e.F*int64(e.N)*pu.B(e.P.Parameters)))
	o.Div(o, ref.Prod(p))
	o.Add(o, big.NewInt(2))
	return o.Add(o, e.SP[1])
}

// Want is the expected outcome of an operation.
type Want struct {
	Level, Degree int
	Scale         float64
	Ph            []*big.Int
	Tol           *big.Int // nil when exact
	Lazy          bool     // coefficients need not be reduced
}

// Expect compares an outcome and returns its actual phase.
func (e *Env) Expect(sig, what string, c *ckks.Ciphertext, w Want) []*big.Int {
	t := e.T
	t.Check(c.Level() == w.Level, sig+"/level", "%s: the level is %d, want %d", what, c.Level(), w.Level)
	for i := range c.Value {
		t.Check(len(c.Value[i].Coeffs) == w.Level+1, sig+"/level", "%s: part %d has %d limbs, want %d", what, i, len(c.Value[i].Coeffs), w.Level+1)
		t.Check(c.Value[i].IsNTT, sig+"/domain", "%s: part %d is not marked as transformed", what, i)
		if !w.Lazy {
			// a negation leaves the modulus where it negates a zero
			ok, m := pu.ReducedTo(c.Value[i], e.Q)
			t.Check(ok, sig+"/reduced", "%s: part %d: %s", what, i, m)
		}
	}
	t.Check(c.Degree() == w.Degree, sig+"/degree", "%s: the degree is %d, want %d", what, c.Degree(), w.Degree)
	t.Check(c.Scale == w.Scale || math.Abs(c.Scale-w.Scale) <= math.Abs(w.Scale)*math.Exp2(-48), sig+"/scale", "%s: the scale is %g, want %g", what, c.Scale, w.Scale)
	ph := e.Phase(c)
	d := pu.MaxAbs(pu.Err(ph, e.Reduce(w.Level, w.Ph), e.QL[w.Level]))
	tol := w.Tol
	if tol == nil {
		tol = new(big.Int)
	}
	t.Check(d.Cmp(tol) <= 0, sig+"/value", "%s: the decrypted polynomial is off by %s, bound %s", what, d, tol)
	return ph
}
