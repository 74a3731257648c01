// C06: automorphisms, permutations and degree maps act as specified.
package main

import (
	"fmt"
	"sort"
	"strings"

	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"verifharness/h"
	"verifharness/ref"
	"verifharness/ru"
)

type P = *ring.Poly

// subst returns a(X^g) in Z_q[X]/(X^n+1).
func subst(a []uint64, g uint64, q uint64) []uint64 {
	n := uint64(len(a))
	out := make([]uint64, n)
	for i := uint64(0); i < n; i++ {
		e := (i * (g % (2 * n))) % (2 * n)
		if e < n {
			out[e] = ref.AddMod(out[e], a[i], q)
		} else {
			out[e-n] = ref.SubMod(out[e-n], a[i], q)
		}
	}
	return out
}

// unfold maps a sub-ring element a0 + sum aj (X^j + X^-j) to the ring of degree 2n.
func unfold(a []uint64, q uint64) []uint64 {
	n := len(a)
	out := make([]uint64, 2*n)
	copy(out, a)
	for j := 1; j < n; j++ {
		out[2*n-j] = ref.SubMod(0, a[j], q)
	}
	return out
}

func specs(th bool) (s []ru.RingSpec) {
	S, CI := ring.Standard, ring.ConjugateInvariant
	s = []ru.RingSpec{
		{"s16", 16, S, []uint64{97, 193, 257}},
		{"s32", 32, S, ru.Mixed(64, 61, 36)},
		{"s64", 64, S, ru.Mixed(128, 61, 20, 45)},
		{"s32up", 32, S, ru.Mixed(64, 20, 45, 61)},
		{"ci16", 16, CI, []uint64{193, 257, 449}},
		{"ci32", 32, CI, ru.Mixed(128, 61, 36)},
		{"s16many", 16, S, ru.Mixed(32, append([]int{20, 61, 30, 55, 40, 8}, ru.Rep(45, 30)...)...)},
		{"ci16many", 16, CI, ru.Mixed(64, append(ru.Rep(61, 9), 33)...)},
		{"s256", 256, S, ru.Mixed(512, 61)},
		{"ci128", 128, CI, ru.Mixed(512, 45)},
	}
	s = append(s, ru.RingSpec{"s1024", 1024, S, ru.Mixed(2048, 61)}, ru.RingSpec{"ci512", 512, CI, ru.Mixed(2048, 61, 36)})
	if th {
		s = append(s, ru.RingSpec{"s512x", 512, S, ru.Mixed(1024, 61, 20, 45, 60)}, ru.RingSpec{"s2048", 2048, S, ru.Mixed(4096, 50)}, ru.RingSpec{"ci2048", 2048, CI, ru.Mixed(8192, 61)})
	}
	return
}

func run(c *h.Ctx) {
	for _, sp := range specs(c.Thorough) {
		sp := sp
		c.Case("automorphism", "aut/"+sp.Name, func(t *h.T) { automorphism(t, sp) })
		c.Case("group", "group/"+sp.Name, func(t *h.T) { group(t, sp) })
		c.Case("shift", "shift/"+sp.Name, func(t *h.T) { shifts(t, sp) })
		c.Case("qp", "qp/"+sp.Name, func(t *h.T) { qp(t, sp) })
		if sp.Type == ring.ConjugateInvariant {
			c.Case("fold", "fold/"+sp.Name, func(t *h.T) { fold(t, sp) })
		}
		for n := sp.N * 2; n <= sp.N*8 && n <= 512; n *= 2 {
			n := n
			c.Case("degree", fmt.Sprintf("degree/%s/%d", sp.Name, n), func(t *h.T) { degree(t, sp, n) })
		}
	}
	for _, sp := range bigSpecs(c.Thorough) {
		sp := sp
		c.Case("automorphism", "aut/"+sp.Name, func(t *h.T) { automorphism(t, sp) })
		c.Case("shift", "shift/"+sp.Name, func(t *h.T) { shifts(t, sp) })
		if sp.Type == ring.ConjugateInvariant {
			c.Case("fold", "fold/"+sp.Name, func(t *h.T) { fold(t, sp) })
		}
		for _, n := range []int{2 * sp.N, 16 * sp.N} {
			n := n
			if n <= 1<<17 && (sp.Type == ring.Standard || n <= 1<<16) {
				c.Case("degree", fmt.Sprintf("degree/%s/%d", sp.Name, n), func(t *h.T) { degree(t, sp, n) })
			}
		}
	}
}

// bigSpecs: large degrees, with fewer elements and patterns.
func bigSpecs(th bool) (s []ru.RingSpec) {
	ns := []int{1 << 13, 1 << 15, 1 << 16, 1 << 17}
	if th {
		ns = append(ns, 1<<12, 1<<14)
	}
	for _, n := range ns {
		s = append(s, ru.RingSpec{fmt.Sprintf("big/standard/%d", n), n, ring.Standard, ru.Mixed(uint64(2*n), 60, 33)})
		if n <= 1<<16 {
			s = append(s, ru.RingSpec{fmt.Sprintf("big/ci/%d", n), n, ring.ConjugateInvariant, ru.Mixed(uint64(4*n), 60, 33)})
		}
	}
	return
}

func isBig(sp ru.RingSpec) bool { return strings.HasPrefix(sp.Name, "big") }

// gens lists the Galois elements of the ring type.
func gens(r *ring.Ring) (g []uint64) {
	step := uint64(2)
	if r.Type() == ring.ConjugateInvariant {
		step = 4
	}
	for x := uint64(1); x < r.NthRoot; x += step {
		g = append(g, x)
	}
	return
}

// apply is the definition of the automorphism on coefficients of either ring type.
func apply(a []uint64, g, q uint64, ci bool) []uint64 {
	if ci {
		return subst(unfold(a, q), g, q)[:len(a)]
	}
	return subst(a, g, q)
}

func automorphism(t *h.T, sp ru.RingSpec) {
	r := sp.New(t)
	L := len(sp.Q) - 1
	ci := sp.Type == ring.ConjugateInvariant
	gl := gens(r)
	if len(gl) > 128 {
		gl = append(append([]uint64{}, gl[:40]...), gl[len(gl)-40:]...)
	}
	pats := []int{ru.PatOne, ru.PatMax, ru.PatMono, ru.PatDense, ru.PatAlt}
	if isBig(sp) {
		gl = gl[:0]
		for _, e := range []uint64{1, 3, uint64(sp.N / 4), uint64(sp.N/2 - 1)} {
			gl = append(gl, ref.PowMod(5, e, r.NthRoot))
			if !ci {
				gl = append(gl, r.NthRoot-ref.PowMod(5, e, r.NthRoot))
			}
		}
		if !ci {
			gl = append(gl, r.NthRoot-1)
		}
		pats = []int{ru.PatDense}
	}
	gl = append(gl, r.NthRoot+1, 3*r.NthRoot+5, r.NthRoot*r.NthRoot+5)
	for _, g := range gl {
		idx := r.PermuteNTTIndex(g)
		srt := append([]uint64{}, idx...)
		sort.Slice(srt, func(i, j int) bool { return srt[i] < srt[j] })
		for i, v := range srt {
			if v != uint64(i) {
				t.Fail("index", "%s g=%d: PermuteNTTIndex is not a permutation", sp, g)
				return
			}
		}
		for _, pat := range pats {
			a := r.NewPoly()
			ru.Fill(a, sp.Q, pat, "aut")
			was := ru.Clone(a.Coeffs)
			want := make([][]uint64, L+1)
			for i, q := range sp.Q {
				want[i] = apply(a.Coeffs[i], g, q, ci)
			}
			if !ci {
				o := ru.Junk(sp.N, L, "o")
				r.Permute(a, g, o)
				t.Eval(1)
				for i, q := range sp.Q {
					for j, v := range o.Coeffs[i] {
						if v > q || v%q != want[i][j] {
							t.Fail("permute", "%s Permute g=%d pattern %d limb %d coefficient %d: %d want %d", sp, g, pat, i, j, v, want[i][j])
							return
						}
					}
				}
			}
			an := r.NewPoly()
			r.NTT(a, an)
			anw := ru.Clone(an.Coeffs)
			for l := 0; l <= L; l++ {
				for mode := 0; mode < 4; mode++ {
					o := ru.JunkRed(sp.N, L, sp.Q, "o")
					in := an
					ow := ru.Clone(o.Coeffs)
					name := ""
					switch mode {
					case 0:
						name = "PermuteNTTLvl"
						r.PermuteNTTLvl(l, an, g, o)
					case 1:
						name = "PermuteNTTWithIndexLvl"
						r.PermuteNTTWithIndexLvl(l, an, idx, o)
					case 2:
						name = "PermuteNTTWithIndexAndAddNoModLvl"
						r.PermuteNTTWithIndexAndAddNoModLvl(l, an, idx, o)
					case 3:
						name = "PermuteNTT"
						in = &ring.Poly{Coeffs: an.Coeffs[:l+1]}
						r.PermuteNTT(in, g, o)
						o2 := &ring.Poly{Coeffs: ru.Clone(ow[:l+1])}
						r.PermuteNTT(an, g, o2)
						if ok, d := ru.Same(o.Coeffs[:l+1], o2.Coeffs); !ok {
							t.Fail("permute-ntt/"+name, "%s %s g=%d receiver of level %d: %s", sp, name, g, l, d)
						}
					}
					t.Eval(1)
					if ok, d := ru.Same(an.Coeffs, anw); !ok {
						t.Fail("operand", "%s %s modifies its operand: %s", sp, name, d)
						return
					}
					if ok, d := ru.Same(o.Coeffs[l+1:], ow[l+1:]); !ok {
						t.Fail("upper", "%s %s level %d writes above: %s", sp, name, l, d)
						return
					}
					res := o.CopyNew()
					if mode == 2 {
						for i := 0; i <= l; i++ {
							for j := range res.Coeffs[i] {
								if res.Coeffs[i][j] < ow[i][j] || res.Coeffs[i][j]-ow[i][j] >= sp.Q[i] {
									t.Fail("permute-ntt/"+name, "%s %s g=%d limb %d slot %d: %d + x gives %d", sp, name, g, i, j, ow[i][j], res.Coeffs[i][j])
									return
								}
								res.Coeffs[i][j] -= ow[i][j]
							}
						}
					}
					r.InvNTTLvl(l, res, res)
					if ok, d := ru.Same(res.Coeffs[:l+1], want[:l+1]); !ok {
						t.Fail("permute-ntt/"+name, "%s %s g=%d pattern %d level %d: %s", sp, name, g, pat, l, d)
						return
					}
				}
			}
			if ok, d := ru.Same(a.Coeffs, was); !ok {
				t.Fail("operand", "%s Permute modifies its operand: %s", sp, d)
			}
			t.State(sp.Name, g, pat)
		}
	}
}

// group: index tables compose, inverses exist, products are respected.
func group(t *h.T, sp ru.RingSpec) {
	r := sp.New(t)
	gl := gens(r)
	if len(gl) > 64 {
		gl = gl[len(gl)-64:]
	}
	m := r.NthRoot
	mask := m - 1
	a, b, o1, o2 := r.NewPoly(), r.NewPoly(), r.NewPoly(), r.NewPoly()
	ru.Fill(a, sp.Q, ru.PatDense, "ga")
	ru.Fill(b, sp.Q, ru.PatMax, "gb")
	r.NTT(a, a)
	r.NTT(b, b)
	idx := map[uint64][]uint64{}
	for _, g := range gens(r) {
		idx[g] = r.PermuteNTTIndex(g)
	}
	for _, g := range gl {
		for _, k := range gl {
			i1, i2, i3 := idx[g], idx[k], idx[g*k&mask]
			for j := range i1 {
				if i1[i2[j]] != i3[j] {
					t.Fail("group", "%s: automorphisms %d and %d do not compose to %d", sp, g, k, g*k&mask)
					return
				}
			}
			t.Eval(1)
		}
		// ring homomorphism: slots of products and sums
		ab := r.NewPoly()
		r.MulCoeffs(a, b, ab)
		r.PermuteNTT(ab, g, o1)
		pa, pb := r.NewPoly(), r.NewPoly()
		r.PermuteNTT(a, g, pa)
		r.PermuteNTT(b, g, pb)
		r.MulCoeffs(pa, pb, o2)
		if ok, d := ru.Same(o1.Coeffs, o2.Coeffs); !ok {
			t.Fail("group", "%s: automorphism %d is not multiplicative: %s", sp, g, d)
		}
		t.State(sp.Name, "group", g)
	}
	if sp.Type == ring.Standard {
		pw := ring.GenGaloisParams(uint64(sp.N), 5)
		x := uint64(1)
		if len(pw) != sp.N/2 {
			t.Fail("galois-params", "%s: %d generators", sp, len(pw))
		}
		for i, v := range pw {
			if v != x {
				t.Fail("galois-params", "%s: generator %d is %d want %d", sp, i, v, x)
			}
			x = x * 5 & mask
		}
	}
}

func shifts(t *h.T, sp ru.RingSpec) {
	r := sp.New(t)
	N := sp.N
	amounts := []int{}
	for n := -2*N - 1; n <= 2*N+1; n++ {
		if N <= 32 || n%17 == 0 || n > -3 && n < 3 || (n+N)%N < 2 {
			amounts = append(amounts, n)
		}
	}
	if isBig(sp) {
		amounts = []int{-2*N - 1, -N / 2, -257, -1, 0, 1, 1023, N/2 + 1, N - 1, N, 3*N + 5}
	}
	for _, n := range append(amounts, -1<<62, 1<<62+3) {
		for _, inplace := range []bool{false, true} {
			a := r.NewPoly()
			ru.Fill(a, sp.Q, ru.PatDense, "shift")
			was := ru.Clone(a.Coeffs)
			o := a
			if !inplace {
				o = ru.Junk(N, len(sp.Q)-1, "o")
			}
			r.Shift(a, n, o)
			t.Eval(1)
			k := ((n % N) + N) % N
			want := make([][]uint64, len(sp.Q))
			for i := range want {
				want[i] = append(append([]uint64{}, was[i][k:]...), was[i][:k]...)
			}
			if ok, d := ru.Same(o.Coeffs, want); !ok {
				t.Fail("shift", "%s Shift by %d in place %v: %s", sp, n, inplace, d)
				return
			}
			if !inplace {
				o.Coeffs[0][0]++
				if ok, d := ru.Same(a.Coeffs, was); !ok {
					t.Fail("shift", "%s Shift by %d modifies or shares its operand: %s", sp, n, d)
				}
			}
			// bit reversal is its own inverse and follows its definition
			b := ru.Junk(N, len(sp.Q)-1, "b")
			src := &ring.Poly{Coeffs: ru.Clone(was)}
			r.BitReverse(src, b)
			lg := 0
			for 1<<lg < N {
				lg++
			}
			for i := range sp.Q {
				for j := range b.Coeffs[i] {
					if b.Coeffs[i][ref.BitRev(uint64(j), lg)] != was[i][j] {
						t.Fail("bitreverse", "%s index %d", sp, j)
						return
					}
				}
			}
			r.BitReverse(b, b)
			if ok, d := ru.Same(b.Coeffs, was); !ok {
				t.Fail("bitreverse", "%s in place: %s", sp, d)
				return
			}
			if sp.Type == ring.Standard {
				// Rotate acts on the transform of bit-reversed data as a cyclic shift of the data
				x := &ring.Poly{Coeffs: ru.Clone(was)}
				y := ru.Junk(N, len(sp.Q)-1, "y")
				r.BitReverse(x, x)
				r.InvNTT(x, x)
				xw := ru.Clone(x.Coeffs)
				if inplace {
					y = x
				}
				r.Rotate(x, n, y)
				if !inplace {
					if ok, d := ru.Same(x.Coeffs, xw); !ok {
						t.Fail("rotate", "%s Rotate by %d modifies its operand: %s", sp, n, d)
					}
				}
				r.NTT(y, y)
				r.BitReverse(y, y)
				if ok, d := ru.Same(y.Coeffs, want); !ok {
					t.Fail("rotate", "%s Rotate by %d in place %v is not a cyclic shift: %s", sp, n, inplace, d)
					return
				}
			}
			t.State(sp.Name, "shift", n)
		}
	}
}

func qp(t *h.T, sp ru.RingSpec) {
	if len(sp.Q) < 2 {
		return
	}
	k := len(sp.Q) / 2
	sq, spp := sp, sp
	sq.Q, spp.Q = sp.Q[:k], sp.Q[k:]
	rq, rp := sq.New(t), spp.New(t)
	g := gens(rq)[len(gens(rq))/3]
	idx := rq.PermuteNTTIndex(g)
	for mode := 0; mode < 3; mode++ { // QP, Q only, P only
		r := rlwe.RingQP{}
		if mode != 2 {
			r.RingQ = rq
		}
		if mode != 1 {
			r.RingP = rp
		}
		for lq := range sq.Q {
			for lp := range spp.Q {
				for _, add := range []bool{false, true} {
					a, o := rlwe.PolyQP{}, rlwe.PolyQP{}
					var wq, wp [][]uint64
					if mode != 2 {
						a.Q, o.Q = ru.JunkRed(sp.N, len(sq.Q)-1, sq.Q, "a"), ru.JunkRed(sp.N, len(sq.Q)-1, sq.Q, "o")
						x := o.Q.CopyNew()
						if add {
							rq.PermuteNTTWithIndexAndAddNoModLvl(lq, a.Q, idx, x)
						} else {
							rq.PermuteNTTWithIndexLvl(lq, a.Q, idx, x)
						}
						wq = x.Coeffs
					}
					if mode != 1 {
						a.P, o.P = ru.JunkRed(sp.N, len(spp.Q)-1, spp.Q, "a"), ru.JunkRed(sp.N, len(spp.Q)-1, spp.Q, "o")
						x := o.P.CopyNew()
						if add {
							rp.PermuteNTTWithIndexAndAddNoModLvl(lp, a.P, idx, x)
						} else {
							rp.PermuteNTTWithIndexLvl(lp, a.P, idx, x)
						}
						wp = x.Coeffs
					}
					if add {
						r.PermuteNTTWithIndexAndAddNoModLvl(lq, lp, a, idx, o)
					} else {
						r.PermuteNTTWithIndexLvl(lq, lp, a, idx, o)
					}
					t.Eval(1)
					if mode != 2 {
						if ok, d := ru.Same(o.Q.Coeffs, wq); !ok {
							t.Fail("qp", "%s mode %d Q part: %s", sp, mode, d)
						}
					}
					if mode != 1 {
						if ok, d := ru.Same(o.P.Coeffs, wp); !ok {
							t.Fail("qp", "%s mode %d P part: %s", sp, mode, d)
						}
					}
				}
			}
		}
		t.State(sp.Name, "qp", mode)
	}
}

func fold(t *h.T, sp ru.RingSpec) {
	ci := sp.New(t)
	st, err := ring.NewRing(2*sp.N, sp.Q)
	if err != nil {
		t.Fail("ring-new", "%v", err)
		return
	}
	L := len(sp.Q) - 1
	conj := st.PermuteNTTIndex(st.NthRoot - 1)
	for pat := 0; pat < ru.NPat; pat++ {
		if isBig(sp) && pat != ru.PatDense {
			continue
		}
		for l := 0; l <= L; l++ {
			p := ci.NewPoly()
			ru.Fill(p, sp.Q, pat, "fold")
			want := st.NewPoly()
			for i, q := range sp.Q {
				copy(want.Coeffs[i], unfold(p.Coeffs[i], q))
			}
			pn, u := ci.NewPoly(), ru.Junk(2*sp.N, L, "u")
			uw := ru.Clone(u.Coeffs)
			ci.NTT(p, pn)
			pw := ru.Clone(pn.Coeffs)
			ci.UnfoldConjugateInvariantToStandard(l, pn, u)
			t.Eval(1)
			if ok, d := ru.Same(pn.Coeffs, pw); !ok {
				t.Fail("unfold", "%s modifies its operand: %s", sp, d)
			}
			if ok, d := ru.Same(u.Coeffs[l+1:], uw[l+1:]); !ok {
				t.Fail("unfold", "%s level %d writes above: %s", sp, l, d)
			}
			un := u.CopyNew()
			st.InvNTTLvl(l, un, un)
			if ok, d := ru.Same(un.Coeffs[:l+1], want.Coeffs[:l+1]); !ok {
				t.Fail("unfold", "%s pattern %d level %d: %s", sp, pat, l, d)
				return
			}
			// fold(unfold(p)) = 2p
			f := ru.Junk(sp.N, L, "f")
			fw := ru.Clone(f.Coeffs)
			ci.FoldStandardToConjugateInvariant(l, u, conj, f)
			ci.InvNTTLvl(l, f, f)
			for i := 0; i <= l; i++ {
				for j, v := range f.Coeffs[i] {
					if v != ref.AddMod(p.Coeffs[i][j], p.Coeffs[i][j], sp.Q[i]) {
						t.Fail("fold", "%s pattern %d level %d: fold(unfold(p)) is not 2p", sp, pat, l)
						return
					}
				}
			}
			if ok, d := ru.Same(f.Coeffs[l+1:], fw[l+1:]); !ok {
				t.Fail("fold", "%s level %d writes above: %s", sp, l, d)
			}
			// fold of any element x is x + x(X^-1)
			x := st.NewPoly()
			ru.Fill(x, sp.Q, pat, "foldx")
			xn := st.NewPoly()
			st.NTT(x, xn)
			xw := ru.Clone(xn.Coeffs)
			ci.FoldStandardToConjugateInvariant(l, xn, conj, f)
			t.Eval(1)
			if ok, d := ru.Same(xn.Coeffs, xw); !ok {
				t.Fail("fold", "%s modifies its operand: %s", sp, d)
			}
			ci.InvNTTLvl(l, f, f)
			for i := 0; i <= l; i++ {
				c := subst(x.Coeffs[i], uint64(4*sp.N-1), sp.Q[i])
				for j, v := range f.Coeffs[i] {
					if v != ref.AddMod(x.Coeffs[i][j], c[j], sp.Q[i]) {
						t.Fail("fold", "%s pattern %d level %d limb %d coefficient %d: %d is not x + conj(x)", sp, pat, l, i, j, v)
						return
					}
				}
			}
			t.State(sp.Name, "fold", pat, l)
		}
	}
}

// degree: maps between ring degrees.
func degree(t *h.T, sp ru.RingSpec, n2 int) {
	// primes that suit both degrees
	m := uint64(2 * n2)
	sizes := []int{61, 36, 20}
	if isBig(sp) {
		sizes = []int{61, 36}
	}
	if sp.Type == ring.ConjugateInvariant {
		m *= 2
	}
	Q := ru.Mixed(m, sizes...)
	small := ru.RingSpec{"small", sp.N, sp.Type, Q}.New(t)
	large := ru.RingSpec{"large", n2, sp.Type, Q}.New(t)
	gap := n2 / sp.N
	L := len(Q) - 1
	for pat := 0; pat < ru.NPat; pat++ {
		for l := 0; l <= L; l++ {
			for deg := 0; deg <= 2; deg++ {
				if isBig(sp) && (pat != ru.PatDense || deg != 1 || l != L) {
					continue
				}
				mk := func(n, lvl int, junk string) *rlwe.Ciphertext {
					ct := new(rlwe.Ciphertext)
					for i := 0; i <= deg; i++ {
						ct.Value = append(ct.Value, ru.JunkRed(n, lvl, Q, fmt.Sprint(junk, i)))
					}
					return ct
				}
				s := mk(sp.N, l, "s")
				for i := range s.Value {
					ru.Fill(s.Value[i], Q, pat, fmt.Sprint("deg", i))
				}
				sw := ru.Clone(s.Value[deg].Coeffs)
				// coefficient domain, up
				b := mk(n2, l, "b")
				rlwe.SwitchCiphertextRingDegree(s, b)
				t.Eval(1)
				chk := func(what string, got *rlwe.Ciphertext, want func(k, i, j int) uint64) bool {
					for k := range got.Value {
						for i := range got.Value[k].Coeffs {
							for j, v := range got.Value[k].Coeffs[i] {
								if v != want(k, i, j) {
									t.Fail("degree/"+what, "%s %d->%d %s pattern %d level %d degree %d component %d limb %d coefficient %d: %d want %d", sp, sp.N, n2, what, pat, l, deg, k, i, j, v, want(k, i, j))
									return false
								}
							}
						}
					}
					return true
				}
				up := func(k, i, j int) uint64 {
					if j%gap != 0 {
						return 0
					}
					return s.Value[k].Coeffs[i][j/gap]
				}
				if !chk("SwitchCiphertextRingDegree up", b, up) {
					return
				}
				// down on arbitrary polynomials keeps the coefficients of the powers of X^gap
				big := mk(n2, l, "big")
				bw := ru.Clone(big.Value[deg].Coeffs)
				d := mk(sp.N, l, "d")
				rlwe.SwitchCiphertextRingDegree(big, d)
				t.Eval(1)
				if !chk("SwitchCiphertextRingDegree down", d, func(k, i, j int) uint64 { return big.Value[k].Coeffs[i][j*gap] }) {
					return
				}
				// NTT domain
				sn, bn, dn, bign := mk(sp.N, l, "sn"), mk(n2, l, "bn"), mk(sp.N, l, "dn"), mk(n2, l, "bign")
				for k := range s.Value {
					small.NTTLvl(l, s.Value[k], sn.Value[k])
					large.NTTLvl(l, big.Value[k], bign.Value[k])
				}
				snw, bignw := ru.Clone(sn.Value[deg].Coeffs), ru.Clone(bign.Value[deg].Coeffs)
				rlwe.SwitchCiphertextRingDegreeNTT(sn, small, large, bn)
				rlwe.SwitchCiphertextRingDegreeNTT(bign, small, large, dn)
				t.Eval(2)
				if ok, df := ru.Same(sn.Value[deg].Coeffs, snw); !ok {
					t.Fail("degree/operand", "%s SwitchCiphertextRingDegreeNTT up modifies its operand: %s", sp, df)
				}
				if ok, df := ru.Same(bign.Value[deg].Coeffs, bignw); !ok {
					t.Fail("degree/operand", "%s SwitchCiphertextRingDegreeNTT down modifies its operand: %s", sp, df)
				}
				mp := ru.Junk(n2, l, "mp")
				ring.MapSmallDimensionToLargerDimensionNTT(sn.Value[0], mp)
				if ok, df := ru.Same(mp.Coeffs, bn.Value[0].Coeffs); !ok {
					t.Fail("degree/MapSmallDimensionToLargerDimensionNTT", "%s: %s", sp, df)
				}
				for k := range s.Value {
					large.InvNTTLvl(l, bn.Value[k], bn.Value[k])
					small.InvNTTLvl(l, dn.Value[k], dn.Value[k])
				}
				if !chk("SwitchCiphertextRingDegreeNTT up", bn, up) {
					return
				}
				if !chk("SwitchCiphertextRingDegreeNTT down", dn, func(k, i, j int) uint64 { return big.Value[k].Coeffs[i][j*gap] }) {
					return
				}
				// equal degrees: copies
				cp, cpn := mk(sp.N, l, "cp"), mk(sp.N, l, "cpn")
				rlwe.SwitchCiphertextRingDegree(s, cp)
				rlwe.SwitchCiphertextRingDegreeNTT(s, small, small, cpn)
				same := func(k, i, j int) uint64 { return s.Value[k].Coeffs[i][j] }
				if !chk("equal degree", cp, same) || !chk("equal degree NTT", cpn, same) {
					return
				}
				if ok, df := ru.Same(s.Value[deg].Coeffs, sw); !ok {
					t.Fail("degree/operand", "%s: %s", sp, df)
				}
				if ok, df := ru.Same(big.Value[deg].Coeffs, bw); !ok {
					t.Fail("degree/operand", "%s: %s", sp, df)
				}
				t.State(sp.Name, n2, pat, l, deg)
			}
		}
	}
}

func main() {
	h.Main(h.Info{
		ID: "C06", Level: "exploration",
		Rule:        "every Galois element of every ring (both types) x coefficient patterns x levels x permutation routines against substitution computed directly; all pairs of Galois elements for composition; every shift/rotation amount in [-2N-1,2N+1] in and out of place; fold/unfold against the sub-ring embedding and trace; degree maps between all pairs of degrees in both domains with dirty receivers. Non-trivial: distinct (ring, map, element, pattern, level).",
		Bounds:      "N from 16 to 1024 (thorough 2048), 1..3 primes, and 36 and 10; selected elements and amounts at every power of two from 2^13 to 2^17",
		Assumptions: []string{"permutations are out of place, as documented", "Galois elements of the conjugate-invariant ring are 1 mod 4 (powers of five)", "Permute may represent 0 by q"},
	}, run)
}
