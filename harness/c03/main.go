// C03: the NTT is an exact, invertible ring isomorphism.
package main

import (
	"fmt"

	"fast-ksw/ring"
	"verifharness/h"
	"verifharness/ref"
	"verifharness/ru"
)

// evalTree evaluates a (n coefficients, reduced) at psi^e for the 2^k leaf exponents of the tree
// X^n - psi^e = (X^(n/2) - psi^(e/2)) (X^(n/2) - psi^(e/2+half)), half = order(psi)/2, in tree order.
func evalTree(a []uint64, e, half int, pow []uint64, q uint64, out []uint64) {
	n := len(a)
	if n == 1 {
		out[0] = a[0]
		return
	}
	m := n / 2
	lo, hi := make([]uint64, m), make([]uint64, m)
	w := pow[e/2]
	for j := 0; j < m; j++ {
		v := ref.MulMod(a[m+j], w, q)
		lo[j] = ref.AddMod(a[j], v, q)
		hi[j] = ref.SubMod(a[j], v, q)
	}
	evalTree(lo, e/2, half, pow, q, out[:m])
	evalTree(hi, e/2+half, half, pow, q, out[m:])
}

// rt is the reference transform of one limb.
type rt struct {
	n   int
	ci  bool
	q   uint64
	psi uint64
	pow []uint64
}

func newRT(n int, ci bool, q, psi uint64) *rt {
	deg := n
	if ci {
		deg = 2 * n
	}
	r := &rt{n: n, ci: ci, q: q, psi: psi, pow: make([]uint64, 2*deg)}
	r.pow[0] = 1
	for i := 1; i < len(r.pow); i++ {
		r.pow[i] = ref.MulMod(r.pow[i-1], psi, q)
	}
	return r
}

// unfold maps a sub-ring element to the ring of twice the degree.
func unfold(a []uint64, q uint64) []uint64 {
	n := len(a)
	out := make([]uint64, 2*n)
	copy(out, a)
	for j := 1; j < n; j++ {
		out[2*n-j] = ref.SubMod(0, a[j], q)
	}
	return out
}

func (r *rt) fwd(a []uint64) []uint64 {
	red := make([]uint64, len(a))
	for i, v := range a {
		red[i] = v % r.q
	}
	if r.ci {
		red = unfold(red, r.q)
	}
	out := make([]uint64, len(red))
	evalTree(red, len(red), len(red), r.pow, r.q, out)
	return out[:r.n]
}

// naive evaluates directly, to validate evalTree.
func (r *rt) naive(a []uint64) []uint64 {
	red := make([]uint64, len(a))
	for i, v := range a {
		red[i] = v % r.q
	}
	if r.ci {
		red = unfold(red, r.q)
	}
	lg := 0
	for 1<<lg < len(red) {
		lg++
	}
	out := make([]uint64, r.n)
	for i := range out {
		x := r.pow[(2*int(ref.BitRev(uint64(i), lg))+1)%len(r.pow)]
		var s uint64
		for j := len(red) - 1; j >= 0; j-- {
			s = ref.AddMod(ref.MulMod(s, x, r.q), red[j], r.q)
		}
		out[i] = s
	}
	return out
}

func (r *rt) mul(a, b []uint64) []uint64 {
	if r.ci {
		return ref.NegaMulMod(unfold(a, r.q), unfold(b, r.q), r.q)[:r.n]
	}
	return ref.NegaMulMod(a, b, r.q)
}

// psiOf checks that slot 0 of NTT(X) is a primitive root and returns it.
func psiOf(t *h.T, r *ring.Ring, i int) uint64 {
	deg := r.N
	ci := r.Type() == ring.ConjugateInvariant
	if ci {
		deg *= 2
	}
	q := r.Modulus[i]
	psi := ring.InvMForm(r.PsiMont[i], q, r.MredParams[i])
	if ref.PowMod(psi, uint64(deg), q) != q-1 {
		t.Fail("psi", "PsiMont[%d] of %d is not a primitive %d-th root of unity", i, q, 2*deg)
	}
	if inv := ring.InvMForm(r.PsiInvMont[i], q, r.MredParams[i]); ref.MulMod(inv, psi, q) != 1 {
		t.Fail("psi", "PsiInvMont[%d] is not the inverse of PsiMont", i)
	}
	return psi
}

func specs(th bool) (s []ru.RingSpec) {
	for n := 16; n <= 1<<17; n *= 2 {
		for _, ty := range []ring.Type{ring.Standard, ring.ConjugateInvariant} {
			m := uint64(2 * n)
			if ty == ring.ConjugateInvariant {
				m *= 2
			}
			name := fmt.Sprintf("%s/N=%d", ty, n)
			if n <= 64 {
				var sz []int
				for b := 61; b >= 9; b -= 4 {
					if len(ref.PrimesBelow(b, m, 1)) > 0 {
						sz = append(sz, b)
					}
				}
				s = append(s, ru.RingSpec{name + "/all", n, ty, ru.Mixed(m, sz...)})
				for i, j := 0, len(sz)-1; i < j; i, j = i+1, j-1 {
					sz[i], sz[j] = sz[j], sz[i]
				}
				s = append(s, ru.RingSpec{name + "/up", n, ty, ru.Mixed(m, sz...)})
			} else if n > 4096 {
				s = append(s, ru.RingSpec{name, n, ty, ru.Mixed(m, 61, 33)})
			} else {
				s = append(s, ru.RingSpec{name, n, ty, ru.Mixed(m, 33, 61, 36, 61)})
			}
			if th && n <= 1024 {
				var sz []int
				for b := 60; b >= 9; b-- {
					if len(ref.PrimesBelow(b, m, 1)) > 0 {
						sz = append(sz, b)
					}
				}
				s = append(s, ru.RingSpec{name + "/th", n, ty, ru.Mixed(m, sz...)})
			}
		}
	}
	return
}

type fn struct {
	name       string
	inv, lazy  bool
	lvl        func(r *ring.Ring, l int, a, b *ring.Poly)
	vec        func(r *ring.Ring, i int, a, b []uint64)
	onlyFull   bool
	standardCI int // 0 both, 1 standard only, 2 ci only
}

func fns() []fn {
	I := func(r *ring.Ring) ring.NumberTheoreticTransformer { return r.NumberTheoreticTransformer }
	return []fn{
		{name: "NTTLvl", lvl: func(r *ring.Ring, l int, a, b *ring.Poly) { r.NTTLvl(l, a, b) }},
		{name: "NTTLazyLvl", lazy: true, lvl: func(r *ring.Ring, l int, a, b *ring.Poly) { r.NTTLazyLvl(l, a, b) }},
		{name: "InvNTTLvl", inv: true, lvl: func(r *ring.Ring, l int, a, b *ring.Poly) { r.InvNTTLvl(l, a, b) }},
		{name: "InvNTTLazyLvl", inv: true, lazy: true, lvl: func(r *ring.Ring, l int, a, b *ring.Poly) { r.InvNTTLazyLvl(l, a, b) }},
		{name: "NTT", onlyFull: true, lvl: func(r *ring.Ring, l int, a, b *ring.Poly) { r.NTT(a, b) }},
		{name: "NTTLazy", onlyFull: true, lazy: true, lvl: func(r *ring.Ring, l int, a, b *ring.Poly) { r.NTTLazy(a, b) }},
		{name: "InvNTT", onlyFull: true, inv: true, lvl: func(r *ring.Ring, l int, a, b *ring.Poly) { r.InvNTT(a, b) }},
		{name: "InvNTTLazy", onlyFull: true, inv: true, lazy: true, lvl: func(r *ring.Ring, l int, a, b *ring.Poly) { r.InvNTTLazy(a, b) }},
		{name: "NTTSingle", vec: func(r *ring.Ring, i int, a, b []uint64) { r.NTTSingle(i, a, b) }},
		{name: "NTTSingleLazy", lazy: true, vec: func(r *ring.Ring, i int, a, b []uint64) { r.NTTSingleLazy(i, a, b) }},
		{name: "InvNTTSingle", inv: true, vec: func(r *ring.Ring, i int, a, b []uint64) { r.InvNTTSingle(i, a, b) }},
		{name: "InvNTTSingleLazy", inv: true, lazy: true, vec: func(r *ring.Ring, i int, a, b []uint64) { r.InvNTTSingleLazy(i, a, b) }},
		{name: "itf.ForwardLvl", lvl: func(r *ring.Ring, l int, a, b *ring.Poly) { I(r).ForwardLvl(r, l, a, b) }},
		{name: "itf.ForwardVec", vec: func(r *ring.Ring, i int, a, b []uint64) { I(r).ForwardVec(r, i, a, b) }},
		{name: "itf.BackwardLazyVec", inv: true, lazy: true, vec: func(r *ring.Ring, i int, a, b []uint64) { I(r).BackwardLazyVec(r, i, a, b) }},
		{name: "func.NTT", standardCI: 1, vec: func(r *ring.Ring, i int, a, b []uint64) {
			ring.NTT(a, b, r.N, r.NttPsi[i], r.Modulus[i], r.MredParams[i], r.BredParams[i])
		}},
		{name: "func.NTTLazy", lazy: true, standardCI: 1, vec: func(r *ring.Ring, i int, a, b []uint64) {
			ring.NTTLazy(a, b, r.N, r.NttPsi[i], r.Modulus[i], r.MredParams[i], r.BredParams[i])
		}},
		{name: "func.InvNTT", inv: true, standardCI: 1, vec: func(r *ring.Ring, i int, a, b []uint64) {
			ring.InvNTT(a, b, r.N, r.NttPsiInv[i], r.NttNInv[i], r.Modulus[i], r.MredParams[i])
		}},
		{name: "func.InvNTTLazy", inv: true, lazy: true, standardCI: 1, vec: func(r *ring.Ring, i int, a, b []uint64) {
			ring.InvNTTLazy(a, b, r.N, r.NttPsiInv[i], r.NttNInv[i], r.Modulus[i], r.MredParams[i])
		}},
		{name: "func.NTTCI", standardCI: 2, vec: func(r *ring.Ring, i int, a, b []uint64) {
			ring.NTTConjugateInvariant(a, b, r.N, r.NttPsi[i], r.Modulus[i], r.MredParams[i], r.BredParams[i])
		}},
		{name: "func.NTTCILazy", lazy: true, standardCI: 2, vec: func(r *ring.Ring, i int, a, b []uint64) {
			ring.NTTConjugateInvariantLazy(a, b, r.N, r.NttPsi[i], r.Modulus[i], r.MredParams[i], r.BredParams[i])
		}},
		{name: "func.InvNTTCI", inv: true, standardCI: 2, vec: func(r *ring.Ring, i int, a, b []uint64) {
			ring.InvNTTConjugateInvariant(a, b, r.N, r.NttPsiInv[i], r.NttNInv[i], r.Modulus[i], r.MredParams[i])
		}},
		{name: "func.InvNTTCILazy", inv: true, lazy: true, standardCI: 2, vec: func(r *ring.Ring, i int, a, b []uint64) {
			ring.InvNTTConjugateInvariantLazy(a, b, r.N, r.NttPsiInv[i], r.NttNInv[i], r.Modulus[i], r.MredParams[i])
		}},
	}
}

// inputs: polynomials (reference, reduced) with their slots.
type input struct {
	name string
	co   [][]uint64 // coefficients per limb
	sl   [][]uint64 // slots per limb
}

func buildInputs(t *h.T, sp ru.RingSpec, r *ring.Ring, rts []*rt, th bool) (ins []input) {
	for pat := 0; pat < ru.NPat; pat++ {
		if sp.N > 4096 && pat != ru.PatDense && (pat != ru.PatMax || !th && sp.N > 1<<15) {
			continue
		}
		p := ring.NewPoly(sp.N, len(sp.Q))
		ru.Fill(p, sp.Q, pat, "c03")
		in := input{name: fmt.Sprint("pat", pat), co: p.Coeffs}
		for i := range sp.Q {
			in.sl = append(in.sl, rts[i].fwd(p.Coeffs[i]))
		}
		ins = append(ins, in)
	}
	return
}

func run(c *h.Ctx) {
	for _, sp := range specs(c.Thorough) {
		sp := sp
		c.Case("variants", "variants/"+sp.Name, func(t *h.T) { variants(t, sp, c.Thorough) })
		if sp.N > 4096 {
			continue
		}
		c.Case("product", "product/"+sp.Name, func(t *h.T) { product(t, sp, c.Thorough) })
		if sp.N <= 512 {
			c.Case("conversion", "conversion/"+sp.Name, func(t *h.T) { conversion(t, sp) })
		}
	}
	// exhaustive single- and two-term polynomials over small moduli
	for _, ty := range []ring.Type{ring.Standard, ring.ConjugateInvariant} {
		for _, n := range []int{16, 32} {
			m := uint64(2 * n)
			if ty == ring.ConjugateInvariant {
				m *= 2
			}
			for _, q := range ref.PrimesAbove(m, m, 2) {
				sp := ru.RingSpec{fmt.Sprintf("%s/N=%d/q=%d", ty, n, q), n, ty, []uint64{q}}
				c.Case("monomials", "monomials/"+sp.Name, func(t *h.T) { monomials(t, sp, c.Thorough) })
			}
		}
	}
}

func setup(t *h.T, sp ru.RingSpec) (*ring.Ring, []*rt) {
	r := sp.New(t)
	var rts []*rt
	for i, q := range sp.Q {
		x := newRT(sp.N, sp.Type == ring.ConjugateInvariant, q, psiOf(t, r, i))
		rts = append(rts, x)
	}
	return r, rts
}

func variants(t *h.T, sp ru.RingSpec, th bool) {
	r, rts := setup(t, sp)
	ins := buildInputs(t, sp, r, rts, th)
	if sp.N <= 128 {
		for _, in := range ins {
			for i := range sp.Q {
				if fmt.Sprint(rts[i].naive(in.co[i])) != fmt.Sprint(in.sl[i]) {
					panic("reference transform disagrees with direct evaluation")
				}
			}
		}
	}
	L := len(sp.Q) - 1
	for _, f := range fns() {
		if f.standardCI == 1 && sp.Type != ring.Standard || f.standardCI == 2 && sp.Type != ring.ConjugateInvariant {
			continue
		}
		for _, in := range ins {
			src, dst := in.co, in.sl
			if f.inv {
				src, dst = in.sl, in.co
			}
			// input representation: 0 reduced, 1 some + q, 2 wide (forward: foreign residues up to 2^62)
			for rep := 0; rep < 3; rep++ {
				if f.inv && rep == 2 {
					continue
				}
				for _, inplace := range []bool{false, true} {
					for l := 0; l <= L; l++ {
						if f.onlyFull && l != L {
							continue
						}
						if sp.N > 4096 && (l != L || inplace && rep == 0) {
							continue
						}
						if f.lvl != nil && !f.onlyFull && l != 0 && l != L && l != L/2 && (!th || sp.N > 64) {
							continue
						}
						a := ring.NewPoly(sp.N, L+1)
						for i := range a.Coeffs {
							for j := range a.Coeffs[i] {
								v := src[i][j]
								switch rep {
								case 1:
									if in.name == "pat2" || (i+j)%3 != 0 {
										v += sp.Q[i]
									}
								case 2:
									v += sp.Q[i] * ((1<<62 - v) / sp.Q[i])
								}
								a.Coeffs[i][j] = v
							}
						}
						was := ru.Clone(a.Coeffs)
						b := a
						if !inplace {
							b = ru.Junk(sp.N, L, "c03")
						}
						bwas := ru.Clone(b.Coeffs)
						lo := 0
						if f.lvl != nil {
							f.lvl(r, l, a, b)
						} else {
							f.vec(r, l, a.Coeffs[l], b.Coeffs[l])
							lo = l
						}
						t.Eval(1)
						for i := 0; i <= L; i++ {
							if i < lo || i > l {
								if ok, _ := ru.Same(b.Coeffs[i:i+1], bwas[i:i+1]); !ok {
									t.Fail("ntt-touches/"+f.name, "%s %s lvl %d limb %d outside the level modified", sp, f.name, l, i)
								}
								continue
							}
							q := sp.Q[i]
							for j, v := range b.Coeffs[i] {
								if v%q != dst[i][j] {
									t.Fail("ntt-value/"+f.name, "%s %s %s rep %d inplace %v level %d limb %d (q=%d) index %d: %d want %d", sp, f.name, in.name, rep, inplace, l, i, q, j, v, dst[i][j])
									return
								}
								if !f.lazy && v >= q || f.lazy && v >= 2*q {
									t.Fail("ntt-range/"+f.name, "%s %s %s rep %d level %d limb %d (q=%d) index %d: %d out of range", sp, f.name, in.name, rep, l, i, q, j, v)
									return
								}
							}
						}
						if !inplace {
							if ok, d := ru.Same(a.Coeffs, was); !ok {
								t.Fail("ntt-operand/"+f.name, "%s %s modifies its operand: %s", sp, f.name, d)
							}
						}
						t.State(sp.Name, f.name, in.name, l)
					}
				}
			}
		}
	}
}

// product: the isomorphism is multiplicative, along every chain of strict and lazy transforms.
func product(t *h.T, sp ru.RingSpec, th bool) {
	r, rts := setup(t, sp)
	L := len(sp.Q) - 1
	maxpat := ru.NPat
	if sp.N > 128 && !th {
		maxpat = 5
	}
	for pa := 1; pa < maxpat; pa++ {
		for pb := pa; pb < maxpat; pb++ {
			if sp.N > 512 && (pa != ru.PatMax || pb != ru.PatDense) {
				continue
			}
			a, b := r.NewPoly(), r.NewPoly()
			ru.Fill(a, sp.Q, pa, "a")
			ru.Fill(b, sp.Q, pb, "b")
			want := make([][]uint64, L+1)
			for i := range want {
				want[i] = rts[i].mul(a.Coeffs[i], b.Coeffs[i])
			}
			for mask := 0; mask < 16; mask++ {
				lvl := L
				if mask&8 != 0 {
					lvl = L / 2
				}
				x, y, z := ru.Junk(sp.N, L, "x"), ru.Junk(sp.N, L, "y"), ru.Junk(sp.N, L, "z")
				if mask&1 != 0 {
					r.NTTLazyLvl(lvl, a, x)
				} else {
					r.NTTLvl(lvl, a, x)
				}
				if mask&2 != 0 {
					r.NTTLazyLvl(lvl, b, y)
				} else {
					r.NTTLvl(lvl, b, y)
				}
				switch {
				case mask&1 != 0:
					r.MFormLvl(lvl, y, y)
					r.MulCoeffsMontgomeryConstantLvl(lvl, x, y, z)
				case mask&2 != 0:
					r.MulCoeffsLvl(lvl, x, y, z)
				default:
					r.MFormLvl(lvl, x, x)
					r.MulCoeffsMontgomeryLvl(lvl, x, y, z)
				}
				if mask&4 != 0 {
					r.InvNTTLazyLvl(lvl, z, z)
				} else {
					r.InvNTTLvl(lvl, z, z)
				}
				t.Eval(1)
				if ok, d := ru.Cong(z.Coeffs, want, sp.Q, lvl); !ok {
					t.Fail("product", "%s patterns %d*%d chain %04b: %s", sp, pa, pb, mask, d)
					return
				}
			}
			// sums commute with the transform
			s := r.NewPoly()
			r.AddLvl(L, a, b, s)
			r.NTT(s, s)
			x, y := r.NewPoly(), r.NewPoly()
			r.NTT(a, x)
			r.NTT(b, y)
			r.Add(x, y, x)
			if ok, d := ru.Same(s.Coeffs, x.Coeffs); !ok {
				t.Fail("sum", "%s patterns %d+%d: %s", sp, pa, pb, d)
			}
			// lazy round trip
			r.NTTLazy(a, x)
			r.InvNTT(x, x)
			if ok, d := ru.Same(x.Coeffs, a.Coeffs); !ok {
				t.Fail("lazy-roundtrip", "%s pattern %d InvNTT(NTTLazy(a)): %s", sp, pa, d)
			}
			r.NTTLazy(a, x)
			r.InvNTTLazy(x, x)
			r.NTTLazy(x, x)
			r.Reduce(x, x)
			r.InvNTT(x, x)
			if ok, d := ru.Same(x.Coeffs, a.Coeffs); !ok {
				t.Fail("lazy-roundtrip", "%s pattern %d double lazy round trip: %s", sp, pa, d)
			}
			t.State(sp.Name, pa, pb)
		}
	}
}

// conversion: sibling rings transform like rings built directly, and share slot order.
func conversion(t *h.T, sp ru.RingSpec) {
	r, _ := setup(t, sp)
	type one struct {
		r  *ring.Ring
		n  int
		ty ring.Type
	}
	var rs []one
	ci, err := r.ConjugateInvariantRing()
	switch {
	case sp.Type == ring.ConjugateInvariant:
		if err != nil || ci != r {
			t.Fail("conversion", "%s: ConjugateInvariantRing of itself: %v", sp, err)
		}
	case sp.N >= 32:
		if err != nil {
			t.Fail("conversion", "%s: ConjugateInvariantRing: %v", sp, err)
			return
		}
		rs = append(rs, one{ci, sp.N / 2, ring.ConjugateInvariant})
		back, err := ci.StandardRing()
		if err != nil {
			t.Fail("conversion", "%s: StandardRing: %v", sp, err)
			return
		}
		rs = append(rs, one{back, sp.N, ring.Standard})
	default:
		if err == nil {
			t.Fail("conversion-small", "%s: ConjugateInvariantRing of a ring of degree %d accepted", sp, sp.N)
		}
	}
	st, err := r.StandardRing()
	if sp.Type == ring.Standard {
		if err != nil || st != r {
			t.Fail("conversion", "%s: StandardRing of itself: %v", sp, err)
		}
	} else {
		if err != nil {
			t.Fail("conversion", "%s: StandardRing: %v", sp, err)
			return
		}
		rs = append(rs, one{st, 2 * sp.N, ring.Standard})
	}
	if r.N != sp.N || r.Type() != sp.Type {
		t.Fail("conversion-receiver", "%s: sibling construction changed the receiver", sp)
	}
	rs = append(rs, one{r, sp.N, sp.Type})
	for _, o := range rs {
		if o.r.N != o.n || o.r.Type() != o.ty {
			t.Fail("conversion", "%s: sibling has N=%d type=%s", sp, o.r.N, o.r.Type())
			return
		}
		o2, err := ring.NewRingFromType(o.n, sp.Q, o.ty)
		if err != nil {
			t.Fail("conversion", "%s: direct construction of the sibling: %v", sp, err)
			return
		}
		p := o2.NewPoly()
		ru.Fill(p, sp.Q, ru.PatDense, "conv")
		a, b := o.r.NewPoly(), o2.NewPoly()
		o.r.NTT(p, a)
		o2.NTT(p, b)
		t.Eval(1)
		if ok, d := ru.Same(a.Coeffs, b.Coeffs); !ok {
			t.Fail("conversion", "%s: sibling ring (N=%d,%s) transforms differently: %s", sp, o.n, o.ty, d)
		}
		o.r.InvNTT(a, a)
		if ok, d := ru.Same(a.Coeffs, p.Coeffs); !ok {
			t.Fail("conversion", "%s: sibling ring (N=%d,%s) inverse: %s", sp, o.n, o.ty, d)
		}
		for i, q := range sp.Q {
			w := newRT(o.n, o.ty == ring.ConjugateInvariant, q, psiOf(t, o.r, i)).fwd(p.Coeffs[i])
			if fmt.Sprint(w) != fmt.Sprint(b.Coeffs[i]) {
				t.Fail("conversion", "%s: sibling ring (N=%d,%s) limb %d differs from the reference", sp, o.n, o.ty, i)
			}
		}
		t.State(sp.Name, o.n, o.ty)
	}
	// slots of a sub-ring element are the first half of the slots of its image
	if sp.Type == ring.ConjugateInvariant {
		p := r.NewPoly()
		ru.Fill(p, sp.Q, ru.PatDense, "fold")
		big := st.NewPoly()
		for i, q := range sp.Q {
			copy(big.Coeffs[i], unfold(p.Coeffs[i], q))
		}
		r.NTT(p, p)
		st.NTT(big, big)
		for i := range sp.Q {
			if fmt.Sprint(p.Coeffs[i]) != fmt.Sprint(big.Coeffs[i][:sp.N]) {
				t.Fail("fold", "%s limb %d: slots of the sub-ring element are not the first half of the slots of its image", sp, i)
			}
		}
	}
}

func monomials(t *h.T, sp ru.RingSpec, th bool) {
	r, rts := setup(t, sp)
	q := sp.Q[0]
	x, y := r.NewPoly(), r.NewPoly()
	one := func() bool {
		r.NTT(x, y)
		t.Eval(1)
		w := rts[0].fwd(x.Coeffs[0])
		for j := range w {
			if y.Coeffs[0][j] != w[j] {
				t.Fail("monomial", "%s input %v slot %d: %d want %d", sp, x.Coeffs[0], j, y.Coeffs[0][j], w[j])
				return false
			}
		}
		r.InvNTT(y, y)
		for j := range w {
			if y.Coeffs[0][j] != x.Coeffs[0][j] {
				t.Fail("monomial", "%s input %v inverse coefficient %d: %d", sp, x.Coeffs[0], j, y.Coeffs[0][j])
				return false
			}
		}
		return true
	}
	for i := 0; i < sp.N; i++ {
		for v := uint64(0); v < q; v++ {
			x.Zero()
			x.Coeffs[0][i] = v
			if !one() {
				return
			}
		}
		t.State(sp.Name, i)
	}
	vals := []uint64{1, q / 2, q - 1}
	for i := 0; i < sp.N; i++ {
		for j := i + 1; j < sp.N; j++ {
			for _, v := range vals {
				for _, w := range vals {
					x.Zero()
					x.Coeffs[0][i], x.Coeffs[0][j] = v, w
					if !one() {
						return
					}
				}
			}
		}
	}
}

func main() {
	h.Main(h.Info{
		ID: "C03", Level: "exploration",
		Rule:        "for every ring, every forward/inverse/lazy/strict/per-limb/per-level entry point, every level, in place and out of place, every coefficient pattern and every admissible input representation, the output is compared slot by slot with direct evaluation at the powers of the primitive root in 128-bit arithmetic; all monomials (every coefficient value) and all two-term polynomials over small moduli are enumerated; all chains of strict and lazy transforms and products against schoolbook multiplication; sibling rings. Non-trivial: distinct (ring, entry point, pattern, level).",
		Bounds:      "N from 16 to 4096 and, with boundary patterns, every power of two to 2^17, both ring types, primes of 9..61 bits in steps of 4 bits for N<=64 (thorough: every size, N<=1024)",
		Assumptions: []string{"inverse transforms take values in [0,2q), forward transforms any residues below 2^62+q"},
	}, run)
}
