// C02: RNS polynomial operations equal arithmetic in Z_Q[X]/(X^N+1).
package main

import (
	"fmt"
	"math/big"

	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"verifharness/h"
	"verifharness/ref"
	"verifharness/ru"
)

type P = *ring.Poly

// op is one polynomial operation; want is its definition per coefficient.
type op struct {
	name string
	nin  int  // polynomial inputs
	acc  bool // accumulates into the receiver
	lvl  func(r *ring.Ring, l int, a, b, o P)
	all  func(r *ring.Ring, a, b, o P) // variant without explicit level (may be nil)
	// want returns the residue; slack: 0 strict [0,q), 1: may be q ([0,q]), k>=2: < k*q, -1: exact integer value given by val
	want  func(m *md, i, j int, x, y, z uint64) uint64
	slack int
	val   func(q, x, y, z uint64) uint64
}

type md struct {
	q, r, rinv []uint64
	n          int
}

func (m *md) mont(i int, x, y uint64) uint64 {
	return ref.MulMod(ref.MulMod(x, y, m.q[i]), m.rinv[i], m.q[i])
}

func ops() []op {
	mm := func(m *md, i, j int, x, y, z uint64) uint64 { return ref.MulMod(x, y, m.q[i]) }
	mont := func(m *md, i, j int, x, y, z uint64) uint64 { return m.mont(i, x, y) }
	montAdd := func(m *md, i, j int, x, y, z uint64) uint64 { return ref.AddMod(z, m.mont(i, x, y), m.q[i]) }
	montSub := func(m *md, i, j int, x, y, z uint64) uint64 { return ref.SubMod(z, m.mont(i, x, y), m.q[i]) }
	o := []op{
		{"Add", 2, false, func(r *ring.Ring, l int, a, b, o P) { r.AddLvl(l, a, b, o) }, func(r *ring.Ring, a, b, o P) { r.Add(a, b, o) }, func(m *md, i, j int, x, y, z uint64) uint64 { return ref.AddMod(x, y, m.q[i]) }, 0, nil},
		{"AddNoMod", 2, false, func(r *ring.Ring, l int, a, b, o P) { r.AddNoModLvl(l, a, b, o) }, func(r *ring.Ring, a, b, o P) { r.AddNoMod(a, b, o) }, func(m *md, i, j int, x, y, z uint64) uint64 { return ref.AddMod(x, y, m.q[i]) }, -1, func(q, x, y, z uint64) uint64 { return x + y }},
		{"Sub", 2, false, func(r *ring.Ring, l int, a, b, o P) { r.SubLvl(l, a, b, o) }, func(r *ring.Ring, a, b, o P) { r.Sub(a, b, o) }, func(m *md, i, j int, x, y, z uint64) uint64 { return ref.SubMod(x, y, m.q[i]) }, 0, nil},
		{"SubNoMod", 2, false, func(r *ring.Ring, l int, a, b, o P) { r.SubNoModLvl(l, a, b, o) }, func(r *ring.Ring, a, b, o P) { r.SubNoMod(a, b, o) }, func(m *md, i, j int, x, y, z uint64) uint64 { return ref.SubMod(x, y, m.q[i]) }, 2, nil},
		{"MulCoeffs", 2, false, func(r *ring.Ring, l int, a, b, o P) { r.MulCoeffsLvl(l, a, b, o) }, func(r *ring.Ring, a, b, o P) { r.MulCoeffs(a, b, o) }, mm, 0, nil},
		{"MulCoeffsConstant", 2, false, func(r *ring.Ring, l int, a, b, o P) { r.MulCoeffsConstantLvl(l, a, b, o) }, func(r *ring.Ring, a, b, o P) { r.MulCoeffsConstant(a, b, o) }, mm, 2, nil},
		{"MulCoeffsAndAdd", 2, true, func(r *ring.Ring, l int, a, b, o P) { r.MulCoeffsAndAddLvl(l, a, b, o) }, func(r *ring.Ring, a, b, o P) { r.MulCoeffsAndAdd(a, b, o) }, func(m *md, i, j int, x, y, z uint64) uint64 {
			return ref.AddMod(z, ref.MulMod(x, y, m.q[i]), m.q[i])
		}, 0, nil},
		{"MulCoeffsAndAddNoMod", 2, true, func(r *ring.Ring, l int, a, b, o P) { r.MulCoeffsAndAddNoModLvl(l, a, b, o) }, func(r *ring.Ring, a, b, o P) { r.MulCoeffsAndAddNoMod(a, b, o) }, func(m *md, i, j int, x, y, z uint64) uint64 {
			return ref.AddMod(z, ref.MulMod(x, y, m.q[i]), m.q[i])
		}, -1, func(q, x, y, z uint64) uint64 { return z + ref.MulMod(x, y, q) }},
		{"MulCoeffsMontgomery", 2, false, func(r *ring.Ring, l int, a, b, o P) { r.MulCoeffsMontgomeryLvl(l, a, b, o) }, func(r *ring.Ring, a, b, o P) { r.MulCoeffsMontgomery(a, b, o) }, mont, 0, nil},
		{"MulCoeffsMontgomeryConstant", 2, false, func(r *ring.Ring, l int, a, b, o P) { r.MulCoeffsMontgomeryConstantLvl(l, a, b, o) }, func(r *ring.Ring, a, b, o P) { r.MulCoeffsMontgomeryConstant(a, b, o) }, mont, 2, nil},
		{"MulCoeffsMontgomeryConstantAndNeg", 2, false, func(r *ring.Ring, l int, a, b, o P) { r.MulCoeffsMontgomeryConstantAndNegLvl(l, a, b, o) }, nil, func(m *md, i, j int, x, y, z uint64) uint64 { return ref.SubMod(0, m.mont(i, x, y), m.q[i]) }, 3, nil},
		{"MulCoeffsMontgomeryAndAdd", 2, true, func(r *ring.Ring, l int, a, b, o P) { r.MulCoeffsMontgomeryAndAddLvl(l, a, b, o) }, func(r *ring.Ring, a, b, o P) { r.MulCoeffsMontgomeryAndAdd(a, b, o) }, montAdd, 0, nil},
		{"MulCoeffsMontgomeryAndAddNoMod", 2, true, func(r *ring.Ring, l int, a, b, o P) { r.MulCoeffsMontgomeryAndAddNoModLvl(l, a, b, o) }, func(r *ring.Ring, a, b, o P) { r.MulCoeffsMontgomeryAndAddNoMod(a, b, o) }, montAdd, 2, nil},
		{"MulCoeffsMontgomeryConstantAndAddNoMod", 2, true, func(r *ring.Ring, l int, a, b, o P) { r.MulCoeffsMontgomeryConstantAndAddNoModLvl(l, a, b, o) }, func(r *ring.Ring, a, b, o P) { r.MulCoeffsMontgomeryConstantAndAddNoMod(a, b, o) }, montAdd, 3, nil},
		{"MulCoeffsMontgomeryAndSub", 2, true, func(r *ring.Ring, l int, a, b, o P) { r.MulCoeffsMontgomeryAndSubLvl(l, a, b, o) }, func(r *ring.Ring, a, b, o P) { r.MulCoeffsMontgomeryAndSub(a, b, o) }, montSub, 0, nil},
		{"MulCoeffsMontgomeryAndSubNoMod", 2, true, func(r *ring.Ring, l int, a, b, o P) { r.MulCoeffsMontgomeryAndSubNoModLvl(l, a, b, o) }, func(r *ring.Ring, a, b, o P) { r.MulCoeffsMontgomeryAndSubNoMod(a, b, o) }, montSub, 2, nil},
		{"MulCoeffsMontgomeryConstantAndSubNoMod", 2, true, func(r *ring.Ring, l int, a, b, o P) { r.MulCoeffsMontgomeryConstantAndSubNoModLvl(l, a, b, o) }, nil, montSub, 3, nil},
		{"Neg", 1, false, func(r *ring.Ring, l int, a, b, o P) { r.NegLvl(l, a, o) }, func(r *ring.Ring, a, b, o P) { r.Neg(a, o) }, func(m *md, i, j int, x, y, z uint64) uint64 { return ref.SubMod(0, x, m.q[i]) }, 1, nil},
		{"Reduce", 1, false, func(r *ring.Ring, l int, a, b, o P) { r.ReduceLvl(l, a, o) }, func(r *ring.Ring, a, b, o P) { r.Reduce(a, o) }, func(m *md, i, j int, x, y, z uint64) uint64 { return x % m.q[i] }, 0, nil},
		{"ReduceConstant", 1, false, func(r *ring.Ring, l int, a, b, o P) { r.ReduceConstantLvl(l, a, o) }, func(r *ring.Ring, a, b, o P) { r.ReduceConstant(a, o) }, func(m *md, i, j int, x, y, z uint64) uint64 { return x % m.q[i] }, 2, nil},
		{"MForm", 1, false, func(r *ring.Ring, l int, a, b, o P) { r.MFormLvl(l, a, o) }, func(r *ring.Ring, a, b, o P) { r.MForm(a, o) }, func(m *md, i, j int, x, y, z uint64) uint64 { return ref.MulMod(x, m.r[i], m.q[i]) }, 0, nil},
		{"MFormConstant", 1, false, func(r *ring.Ring, l int, a, b, o P) { r.MFormConstantLvl(l, a, o) }, nil, func(m *md, i, j int, x, y, z uint64) uint64 { return ref.MulMod(x, m.r[i], m.q[i]) }, 2, nil},
		{"InvMForm", 1, false, func(r *ring.Ring, l int, a, b, o P) { r.InvMFormLvl(l, a, o) }, func(r *ring.Ring, a, b, o P) { r.InvMForm(a, o) }, func(m *md, i, j int, x, y, z uint64) uint64 { return ref.MulMod(x, m.rinv[i], m.q[i]) }, 0, nil},
	}
	for _, s := range []uint64{0, 1, 2, 3, 95, 96, 97, 192, 193, 1 << 30, 1<<61 + 7, 1 << 63, ^uint64(0)} {
		s := s
		o = append(o,
			op{fmt.Sprintf("AddScalar(%d)", s), 1, false, func(r *ring.Ring, l int, a, b, o P) { r.AddScalarLvl(l, a, s, o) }, func(r *ring.Ring, a, b, o P) { r.AddScalar(a, s, o) }, func(m *md, i, j int, x, y, z uint64) uint64 { return ref.AddMod(x, s, m.q[i]) }, 0, nil},
			op{fmt.Sprintf("SubScalar(%d)", s), 1, false, func(r *ring.Ring, l int, a, b, o P) { r.SubScalarLvl(l, a, s, o) }, func(r *ring.Ring, a, b, o P) { r.SubScalar(a, s, o) }, func(m *md, i, j int, x, y, z uint64) uint64 { return ref.SubMod(x, s, m.q[i]) }, 0, nil},
			op{fmt.Sprintf("MulScalar(%d)", s), 1, false, func(r *ring.Ring, l int, a, b, o P) { r.MulScalarLvl(l, a, s, o) }, func(r *ring.Ring, a, b, o P) { r.MulScalar(a, s, o) }, func(m *md, i, j int, x, y, z uint64) uint64 { return ref.MulMod(x, s, m.q[i]) }, 0, nil},
		)
		if s > 1 && s != 97 && s != 193 {
			o = append(o, op{fmt.Sprintf("Mod(%d)", s), 1, false, func(r *ring.Ring, l int, a, b, o P) { r.ModLvl(l, a, s, o) }, func(r *ring.Ring, a, b, o P) { r.Mod(a, s, o) }, nil, -1, func(q, x, y, z uint64) uint64 { return x % s }})
		}
	}
	for _, ss := range []string{"0", "1", "-1", "96", "97", "-97", "1152921504606846976", "-340282366920938463463374607431768211457", "98237498273498273498273498237498237498723984723987498237"} {
		s, _ := new(big.Int).SetString(ss, 10)
		o = append(o,
			op{"AddScalarBigint(" + ss + ")", 1, false, func(r *ring.Ring, l int, a, b, o P) { r.AddScalarBigintLvl(l, a, s, o) }, func(r *ring.Ring, a, b, o P) { r.AddScalarBigint(a, s, o) }, func(m *md, i, j int, x, y, z uint64) uint64 { return ref.AddMod(x, ref.Residue(s, m.q[i]), m.q[i]) }, 0, nil},
			op{"SubScalarBigint(" + ss + ")", 1, false, func(r *ring.Ring, l int, a, b, o P) { r.SubScalarBigintLvl(l, a, s, o) }, func(r *ring.Ring, a, b, o P) { r.SubScalarBigint(a, s, o) }, func(m *md, i, j int, x, y, z uint64) uint64 { return ref.SubMod(x, ref.Residue(s, m.q[i]), m.q[i]) }, 0, nil},
			op{"MulScalarBigint(" + ss + ")", 1, false, func(r *ring.Ring, l int, a, b, o P) { r.MulScalarBigintLvl(l, a, s, o) }, func(r *ring.Ring, a, b, o P) { r.MulScalarBigint(a, s, o) }, func(m *md, i, j int, x, y, z uint64) uint64 { return ref.MulMod(x, ref.Residue(s, m.q[i]), m.q[i]) }, 0, nil},
		)
	}
	for _, k := range []int{0, 1, 2, 5, 17, 31, 32, 59, 60, 61, 63, 64} {
		k := k
		o = append(o, op{fmt.Sprintf("MulByPow2(%d)", k), 1, false, func(r *ring.Ring, l int, a, b, o P) { r.MulByPow2Lvl(l, a, k, o) }, func(r *ring.Ring, a, b, o P) { r.MulByPow2(a, k, o) }, func(m *md, i, j int, x, y, z uint64) uint64 {
			return ref.MulMod(x, ref.PowMod(2, uint64(k), m.q[i]), m.q[i])
		}, 0, nil})
	}
	vec := func(n int) []uint64 {
		v := make([]uint64, n)
		for i := range v {
			v[i] = uint64(i*i+1) % 97
		}
		return v
	}
	o = append(o,
		op{"MulByVectorMontgomery", 1, false, func(r *ring.Ring, l int, a, b, o P) { r.MulByVectorMontgomeryLvl(l, a, vec(r.N), o) }, func(r *ring.Ring, a, b, o P) { r.MulByVectorMontgomery(a, vec(r.N), o) }, func(m *md, i, j int, x, y, z uint64) uint64 { return m.mont(i, x, uint64(j*j+1)%97) }, 0, nil},
		op{"MulByVectorMontgomeryAndAddNoMod", 1, true, func(r *ring.Ring, l int, a, b, o P) { r.MulByVectorMontgomeryAndAddNoModLvl(l, a, vec(r.N), o) }, func(r *ring.Ring, a, b, o P) { r.MulByVectorMontgomeryAndAddNoMod(a, vec(r.N), o) }, func(m *md, i, j int, x, y, z uint64) uint64 {
			return ref.AddMod(z, m.mont(i, x, uint64(j*j+1)%97), m.q[i])
		}, 2, nil},
	)
	return o
}

func specs(thorough bool) []ru.RingSpec {
	s := []ru.RingSpec{
		{"n16small", 16, ring.Standard, []uint64{97, 193, 257, 353}},
		{"n16mix", 16, ring.Standard, ru.Mixed(64, 61, 36, 20, 61, 55)},
		{"n32ci", 32, ring.ConjugateInvariant, ru.Mixed(128, 60, 30, 45)},
		{"n16up", 16, ring.Standard, ru.Mixed(64, 20, 45, 61)},
		{"n16one", 16, ring.Standard, []uint64{97}},
	}
	s = append(s, ru.RingSpec{"n16l100", 16, ring.Standard, ru.Mixed(64, append(ru.Rep(61, 60), ru.Rep(30, 40)...)...)})
	s = append(s, ru.RingSpec{"n64", 64, ring.Standard, ru.Mixed(128, 61, 61, 61, 40, 33, 25)}, ru.RingSpec{"n1024", 1024, ring.Standard, ru.Mixed(2048, 61, 50)})
	if thorough {
		s = append(s, ru.RingSpec{"n128ci", 128, ring.ConjugateInvariant, ru.Mixed(512, 61, 61, 25, 60, 31, 45, 45, 61)}, ru.RingSpec{"n16deep", 16, ring.Standard, ru.Mixed(64, ru.Rep(61, 12)...)})
	}
	return s
}

func run(c *h.Ctx) {
	for _, sp := range specs(c.Thorough) {
		sp := sp
		for _, o := range ops() {
			o := o
			c.Case("op", fmt.Sprintf("op/%s/%s", sp, o.name), func(t *h.T) { runOp(t, sp, o, c.Thorough) })
		}
		c.Case("conversion", fmt.Sprintf("conv/%s", sp), func(t *h.T) { conv(t, sp) })
		if len(sp.Q) > 32 {
			continue
		}
		c.Case("poly", fmt.Sprintf("poly/%s", sp), func(t *h.T) { poly(t, sp) })
		c.Case("structural", fmt.Sprintf("struct/%s", sp), func(t *h.T) { structural(t, sp) })
	}
	// large degrees: the single operations only, on a few shapes
	big := []int{1 << 13, 1 << 17}
	if c.Thorough {
		big = []int{1 << 11, 1 << 12, 1 << 13, 1 << 14, 1 << 15, 1 << 16, 1 << 17}
	}
	for _, n := range big {
		sp := ru.RingSpec{fmt.Sprintf("n%d", n), n, ring.Standard, ru.Mixed(uint64(2*n), 61, 45)}
		for _, o := range ops() {
			o := o
			c.Case("op", fmt.Sprintf("op/%s/%s", sp, o.name), func(t *h.T) { runOp(t, sp, o, c.Thorough) })
		}
	}
	qp(c)
}

func runOp(t *h.T, sp ru.RingSpec, o op, thorough bool) {
	r := sp.New(t)
	L := len(sp.Q) - 1
	m := &md{q: sp.Q, n: sp.N}
	for _, q := range sp.Q {
		m.r = append(m.r, ref.R64(q))
		m.rinv = append(m.rinv, ref.InvMod(ref.R64(q), q))
	}
	aliases := []string{"none"}
	if !o.acc {
		aliases = append(aliases, "o=a")
		if o.nin == 2 {
			aliases = append(aliases, "o=b", "a=b", "all")
		}
	} else if o.nin == 2 {
		aliases = append(aliases, "a=b")
	}
	pats := []int{ru.PatZero, ru.PatMax, ru.PatHalf, ru.PatDense, ru.PatAlt}
	// operand levels: (la, lb, lo) each >= level for the Lvl variant; the plain variant takes the minimum
	type shape struct{ level, la, lb, lo int }
	var shapes []shape
	for l := 0; l <= L; l++ {
		if L > 32 && l < L-1 && l != 0 && l != 33 && l != 64 {
			continue
		}
		shapes = append(shapes, shape{l, L, L, L}, shape{l, l, L, l}, shape{l, L, l, L}, shape{l, l, l, L}, shape{l, L, l, l}, shape{l, l, L, L})
		shapes = append(shapes, shape{-1, l, L, L}, shape{-1, L, l, L}, shape{-1, L, L, l}, shape{-1, l, l, l})
	}
	shapes = append(shapes, shape{-1, L + 2, L + 1, L + 1})
	if sp.N > 1024 || L > 32 && !thorough {
		pats = []int{ru.PatMax, ru.PatDense}
		if L < 32 {
			shapes = []shape{{L, L, L, L}, {0, L, L, L}, {-1, L, L, L}}
		}
	}
	for _, sh := range shapes {
		for _, al := range aliases {
			for _, pa := range pats {
				for _, pb := range pats {
					if o.nin == 1 && pb != ru.PatDense {
						continue
					}
					if sh.level < 0 && (o.all == nil || (pa != ru.PatDense && pa != ru.PatMax)) {
						continue
					}
					qq := append(append([]uint64{}, sp.Q...), sp.Q[0], sp.Q[0])
					la, lb, lo := sh.la, sh.lb, sh.lo
					if o.nin == 1 {
						lb = lo
					}
					a, b := ring.NewPoly(sp.N, la+1), ring.NewPoly(sp.N, lb+1)
					out := ru.JunkRed(sp.N, lo, qq, "o")
					ru.Fill(a, qq, pa, "a")
					ru.Fill(b, qq, pb, "b")
					switch al {
					case "o=a":
						out = a
					case "o=b":
						out = b
					case "a=b":
						b = a
					case "all":
						b, out = a, a
					}
					oa, ob, oo := ru.Clone(a.Coeffs), ru.Clone(b.Coeffs), ru.Clone(out.Coeffs)
					lev := sh.level
					if lev < 0 {
						lev = L
						for _, x := range []int{a.Level(), out.Level()} {
							if x < lev {
								lev = x
							}
						}
						if o.nin == 2 && b.Level() < lev {
							lev = b.Level()
						}
						o.all(r, a, b, out)
					} else {
						if a.Level() < lev || out.Level() < lev || (o.nin == 2 && b.Level() < lev) {
							continue
						}
						o.lvl(r, lev, a, b, out)
					}
					ctx := fmt.Sprintf("%s shape=%v alias=%s pats=%d,%d", o.name, sh, al, pa, pb)
					for i := range out.Coeffs {
						for j := range out.Coeffs[i] {
							g := out.Coeffs[i][j]
							if i > lev {
								if g != oo[i][j] {
									t.Fail("upper-limb", "%s: limb %d above level %d changed", ctx, i, lev)
								}
								continue
							}
							x, z := oa[i][j], oo[i][j]
							var y uint64
							if o.nin == 2 {
								y = ob[i][j]
							}
							q := sp.Q[i]
							bad := false
							if o.slack == -1 {
								bad = g != o.val(q, x, y, z)
							} else {
								w := o.want(m, i, j, x, y, z)
								bad = g%q != w || (o.slack == 0 && g >= q) || (o.slack == 1 && g > q) || (o.slack > 1 && g >= uint64(o.slack)*q)
							}
							if bad {
								t.Fail("value", "%s: limb %d coeff %d x=%d y=%d z=%d q=%d got %d", ctx, i, j, x, y, z, q, g)
							}
						}
					}
					if a != out {
						if ok, d := ru.Same(a.Coeffs, oa); !ok {
							t.Fail("operand", "%s: first operand changed: %s", ctx, d)
						}
					}
					if o.nin == 2 && b != out {
						if ok, d := ru.Same(b.Coeffs, ob); !ok {
							t.Fail("operand", "%s: second operand changed: %s", ctx, d)
						}
					}
					t.Eval(1)
				}
			}
		}
	}
	t.State(sp.Name, o.name)
}

func bigs(vals ...string) (out []*big.Int) {
	for _, s := range vals {
		x, _ := new(big.Int).SetString(s, 10)
		out = append(out, x)
	}
	return
}

func conv(t *h.T, sp ru.RingSpec) {
	r := sp.New(t)
	L := len(sp.Q) - 1
	N := sp.N
	// integers around every interesting boundary of every level
	for lev := 0; lev <= L; lev++ {
		Q := ref.Prod(sp.Q[:lev+1])
		half := new(big.Int).Rsh(Q, 1)
		var vals []*big.Int
		for _, b := range []*big.Int{new(big.Int), half, Q, new(big.Int).Neg(half), new(big.Int).Neg(Q), new(big.Int).Lsh(Q, 70)} {
			for d := int64(-3); d <= 3; d++ {
				vals = append(vals, new(big.Int).Add(b, big.NewInt(d)))
			}
		}
		for start := 0; start < len(vals); start += N {
			v := make([]*big.Int, N)
			for j := range v {
				v[j] = vals[(start+j)%len(vals)]
			}
			p := ru.Junk(N, L, "c")
			before := ru.Clone(p.Coeffs)
			vc := make([]string, N)
			for j := range v {
				vc[j] = v[j].String()
			}
			r.SetCoefficientsBigintLvl(lev, v, p)
			want := ref.ToRNS(v, sp.Q[:lev+1])
			if ok, d := ru.Same(p.Coeffs[:lev+1], want); !ok {
				t.Fail("setbigintlvl", "level %d: %s", lev, d)
			}
			if ok, d := ru.Same(p.Coeffs[lev+1:], before[lev+1:]); !ok {
				t.Fail("setbigintlvl-upper", "level %d: %s", lev, d)
			}
			for j := range v {
				if v[j].String() != vc[j] {
					t.Fail("setbigint-operand", "input integer changed")
				}
			}
			if lev == L {
				p2, p3 := ru.Junk(N, L, "d"), ru.Junk(N, L, "e")
				r.SetCoefficientsBigint(v, p2)
				r.SetCoefficientsString(vc, p3)
				if ok, d := ru.Same(p2.Coeffs, want); !ok {
					t.Fail("setbigint", "%s", d)
				}
				if ok, d := ru.Same(p3.Coeffs, want); !ok {
					t.Fail("setstring", "%s", d)
				}
				str := r.PolyToString(p2)
				for j := range v {
					if str[j] != new(big.Int).Mod(v[j], Q).String() {
						t.Fail("polytostring", "coeff %d: %s", j, str[j])
					}
				}
			}
			snap := ru.Clone(p.Coeffs)
			for gap := 1; gap <= N; gap <<= 1 {
				got := make([]*big.Int, N/gap)
				r.PolyToBigintLvl(lev, p, gap, got)
				gotC := make([]*big.Int, N/gap)
				for i := range gotC {
					gotC[i] = big.NewInt(77)
				}
				r.PolyToBigintCenteredLvl(lev, p, gap, gotC)
				for i := range got {
					w := new(big.Int).Mod(v[i*gap], Q)
					if got[i].Cmp(w) != 0 {
						t.Fail("polytobigint", "level %d gap %d coeff %d: %v want %v", lev, gap, i, got[i], w)
					}
					if new(big.Int).Mod(gotC[i], Q).Cmp(w) != 0 {
						t.Fail("polytobigintcentered", "level %d gap %d coeff %d: %v want %v", lev, gap, i, gotC[i], w)
					}
					if a := new(big.Int).Abs(gotC[i]); a.Cmp(new(big.Int).Add(half, big.NewInt(1))) > 0 {
						t.Fail("polytobigintcentered-range", "level %d: %v not centered modulo %v", lev, gotC[i], Q)
					}
				}
				t.Eval(2)
			}
			if ok, d := ru.Same(p.Coeffs, snap); !ok {
				t.Fail("polytobigint-operand", "%s", d)
			}
			// plain variant takes the level of the polynomial
			pl := ring.NewPoly(N, lev+1)
			for i := range pl.Coeffs {
				copy(pl.Coeffs[i], p.Coeffs[i])
			}
			got := make([]*big.Int, N)
			r.PolyToBigint(pl, 1, got)
			for i := range got {
				if got[i].Cmp(new(big.Int).Mod(v[i], Q)) != 0 {
					t.Fail("polytobigint", "coeff %d", i)
				}
			}
		}
	}
	// machine integers, including fewer coefficients than N (the rest keeps its value)
	i64 := []int64{0, 1, -1, 2, 96, 97, -97, 98, 1 << 30, -(1 << 30), 1<<62 + 3, -(1 << 62) - 3, 1<<63 - 1, -1 << 63, 12345, -54321}
	for cnt := 0; cnt <= len(i64); cnt += 4 {
		p, p2 := ru.JunkRed(N, L, sp.Q, "i"), ru.JunkRed(N, L, sp.Q, "i")
		was := ru.Clone(p.Coeffs)
		r.SetCoefficientsInt64(i64[:cnt], p)
		u := make([]uint64, cnt)
		for j := range u {
			u[j] = uint64(i64[j])
		}
		r.SetCoefficientsUint64(u, p2)
		for i := range p.Coeffs {
			for j := 0; j < N; j++ {
				w, w2 := was[i][j], was[i][j]
				if j < cnt {
					w = ref.Residue(big.NewInt(i64[j]), sp.Q[i])
					w2 = u[j] % sp.Q[i]
				}
				if p.Coeffs[i][j] != w {
					t.Fail("setint64", "coeff %d (%d of %d) got %d want %d", j, i, L, p.Coeffs[i][j], w)
				}
				if p2.Coeffs[i][j] != w2 {
					t.Fail("setuint64", "coeff %d got %d want %d", j, p2.Coeffs[i][j], w2)
				}
			}
		}
		t.Eval(2)
	}
	t.State("conv", sp.Name)
}

func poly(t *h.T, sp ru.RingSpec) {
	r := sp.New(t)
	L := len(sp.Q) - 1
	N := sp.N
	type flags struct{ n, m bool }
	fl := []flags{{false, false}, {true, false}, {false, true}, {true, true}}
	for l := 0; l <= L; l++ {
		for k := 0; k <= L; k++ {
			for _, f := range fl {
				for _, g := range fl {
					mk := func(lv int, tag string, f flags) *ring.Poly {
						p := ru.JunkRed(N, lv, sp.Q, tag)
						p.IsNTT, p.IsMForm = f.n, f.m
						return p
					}
					min := l
					if k < l {
						min = k
					}
					check := func(name string, dst *ring.Poly, lev int, moved bool) {
						src, old := mk(l, "s", f), mk(k, "d", g)
						for i := 0; i <= k; i++ {
							w := old.Coeffs[i]
							if i <= lev {
								w = src.Coeffs[i]
							}
							for j := range w {
								if dst.Coeffs[i][j] != w[j] {
									t.Fail(name, "%s %d->%d limb %d coeff %d", name, l, k, i, j)
								}
							}
						}
						wf := g
						if moved {
							wf = f
						}
						if dst.IsNTT != wf.n || dst.IsMForm != wf.m {
							t.Fail(name+"-flags", "%s flags %v/%v want %v", name, dst.IsNTT, dst.IsMForm, wf)
						}
						if len(dst.Coeffs) != k+1 {
							t.Fail(name, "limb count changed")
						}
						t.Eval(1)
					}
					src := mk(l, "s", f)
					d := mk(k, "d", g)
					d.Copy(src)
					check("Poly.Copy", d, min, true)
					d = mk(k, "d", g)
					d.CopyValues(src)
					check("Poly.CopyValues", d, min, false)
					d = mk(k, "d", g)
					ring.Copy(src, d)
					check("ring.Copy", d, min, true)
					d = mk(k, "d", g)
					ring.CopyValues(src, d)
					check("ring.CopyValues", d, min, false)
					for lv := 0; lv <= min; lv++ {
						d = mk(k, "d", g)
						ring.CopyLvl(lv, src, d)
						check("ring.CopyLvl", d, lv, true)
						d = mk(k, "d", g)
						ring.CopyValuesLvl(lv, src, d)
						check("ring.CopyValuesLvl", d, lv, false)
					}
					// copies never share memory with their source
					d = mk(k, "d", g)
					d.Copy(src)
					n := src.CopyNew()
					gc := src.GetCoefficients()
					src.Coeffs[0][0] ^= 1
					if d.Coeffs[0][0] == src.Coeffs[0][0] || n.Coeffs[0][0] == src.Coeffs[0][0] || gc[0][0] == src.Coeffs[0][0] {
						t.Fail("copy-alias", "copy shares memory")
					}
					src.Coeffs[0][0] ^= 1
					if ok, e := ru.Same(n.Coeffs, src.Coeffs); !ok || n.IsNTT != f.n || n.IsMForm != f.m {
						t.Fail("copynew", "CopyNew: %s", e)
					}
					if ok, e := ru.Same(gc, src.Coeffs); !ok {
						t.Fail("getcoefficients", "%s", e)
					}
					s2 := mk(l, "zz", g)
					s2.SetCoefficients(gc)
					gc[0][0]++
					if ok, e := ru.Same(s2.Coeffs, src.Coeffs); !ok {
						t.Fail("setcoefficients", "%s", e)
					}
					if src.Level() != l || src.LenModuli() != l+1 || src.Degree() != N {
						t.Fail("shape", "Level/LenModuli/Degree")
					}
					// equality is exact, on every limb and coefficient
					if !src.Equals(n) || !n.Equals(src) || !src.Equals(src) {
						t.Fail("equals", "equal polynomials reported different")
					}
					if k != l && (src.Equals(mk(k, "s", f))) {
						t.Fail("equals-level", "polynomials of different level reported equal")
					}
				}
			}
		}
		src := ru.JunkRed(N, l, sp.Q, "s")
		for i := 0; i <= l; i++ {
			for j := 0; j < N; j++ {
				n := src.CopyNew()
				n.Coeffs[i][j]++
				if src.Equals(n) {
					t.Fail("equals-diff", "difference at limb %d coeff %d missed", i, j)
				}
				n.Coeffs[i][j]--
				// Ring.EqualLvl: equality modulo the primes of the level
				for lv := 0; lv <= l; lv++ {
					n2 := src.CopyNew()
					s2 := src.CopyNew()
					n2.Coeffs[i][j] += sp.Q[i]
					if !r.EqualLvl(lv, s2, n2) {
						t.Fail("equallvl", "congruent polynomials reported different")
					}
					n2 = src.CopyNew()
					n2.Coeffs[i][j] = (n2.Coeffs[i][j] + 1) % sp.Q[i]
					if r.EqualLvl(lv, s2, n2) != (i > lv) {
						t.Fail("equallvl", "level %d difference at limb %d coeff %d", lv, i, j)
					}
					if l == L && lv == L && r.Equal(s2, n2) {
						t.Fail("equal", "Equal missed a difference at limb %d coeff %d", i, j)
					}
				}
				t.Eval(1)
			}
		}
		if l == L && !r.Equal(src, src.CopyNew()) {
			t.Fail("equal", "Equal(p,p) is false")
		}
		z := src.CopyNew()
		z.Zero()
		for i := range z.Coeffs {
			for j := range z.Coeffs[i] {
				if z.Coeffs[i][j] != 0 {
					t.Fail("zero", "Zero left a coefficient")
				}
			}
		}
		if src.Equals(nil) {
			t.Fail("equals-nil", "Equals(nil) is true")
		}
		p := r.NewPolyLvl(l)
		if p.Level() != l || p.Degree() != N || p.IsNTT || p.IsMForm {
			t.Fail("newpolylvl", "NewPolyLvl(%d)", l)
		}
	}
	if p := r.NewPoly(); p.Level() != L || p.Degree() != N {
		t.Fail("newpoly", "NewPoly")
	}
	t.State("poly", sp.Name)
}

// structural operations: monomials, cyclic shift, bit reversal, NTT-domain rotation, dimension map
func structural(t *h.T, sp ru.RingSpec) {
	r := sp.New(t)
	L := len(sp.Q) - 1
	N := sp.N
	for _, pat := range []int{ru.PatZero, ru.PatDense, ru.PatMax, ru.PatMono} {
		a := ring.NewPoly(N, L+1)
		ru.Fill(a, sp.Q, pat, "m")
		keep := ru.Clone(a.Coeffs)
		for k := -4 * N; k <= 4*N+1; k++ {
			want := make([][]uint64, L+1)
			for i := range want {
				want[i] = make([]uint64, N)
				for j := 0; j < N; j++ {
					d := ((j+k)%(2*N) + 2*N) % (2 * N)
					if d < N {
						want[i][d] = keep[i][j]
					} else {
						want[i][d-N] = ref.SubMod(0, keep[i][j], sp.Q[i])
					}
				}
			}
			for _, al := range []string{"fresh", "junk", "inplace"} {
				in := a
				var out *ring.Poly
				switch al {
				case "fresh":
					out = r.MultByMonomialNew(in, k)
				case "junk":
					out = ru.Junk(N, L, "x")
					r.MultByMonomial(in, k, out)
				case "inplace":
					in = a.CopyNew()
					out = in
					r.MultByMonomial(in, k, out)
				}
				if ok, d := ru.Cong(out.Coeffs, want, sp.Q, L); !ok {
					t.Fail("monomial", "MultByMonomial(%d) %s pat %d: %s", k, al, pat, d)
				}
				for i := range out.Coeffs {
					for j := range out.Coeffs[i] {
						if out.Coeffs[i][j] > sp.Q[i] {
							t.Fail("monomial-range", "MultByMonomial(%d): coefficient above q", k)
						}
					}
				}
				if ok, d := ru.Same(a.Coeffs, keep); !ok {
					t.Fail("monomial-operand", "MultByMonomial(%d) %s: %s", k, al, d)
				}
				t.Eval(1)
			}
		}
		for n := 0; n < 3*N; n++ {
			p2 := ru.Junk(N, L, "sh")
			in := a.CopyNew()
			r.Shift(in, n, p2)
			for i := range want(keep) {
				for j := 0; j < N; j++ {
					if p2.Coeffs[i][j] != keep[i][(j+n)%N] {
						t.Fail("shift", "Shift(%d) limb %d coeff %d", n, i, j)
					}
				}
			}
			if ok, d := ru.Same(in.Coeffs, keep); !ok {
				t.Fail("shift-operand", "Shift(%d): %s", n, d)
			}
			// the receiver must not share memory with the operand
			p2.Coeffs[0][0]++
			if in.Coeffs[0][0] != keep[0][0] || len(p2.Coeffs[0]) != N {
				t.Fail("shift-alias", "Shift(%d) receiver shares memory with the operand", n)
			}
			t.Eval(1)
		}
		logN := 0
		for 1<<logN < N {
			logN++
		}
		br, bi := ru.Junk(N, L, "br"), a.CopyNew()
		r.BitReverse(a, br)
		r.BitReverse(bi, bi)
		for i := range keep {
			for j := range keep[i] {
				w := keep[i][ref.BitRev(uint64(j), logN)]
				if br.Coeffs[i][j] != w || bi.Coeffs[i][j] != w {
					t.Fail("bitreverse", "limb %d coeff %d", i, j)
				}
			}
		}
		// powers of two into a new polynomial
		for _, k := range []int{0, 1, 7, 60} {
			p := r.MulByPow2New(a, k)
			for i := range keep {
				for j := range keep[i] {
					if p.Coeffs[i][j] != ref.MulMod(keep[i][j], ref.PowMod(2, uint64(k), sp.Q[i]), sp.Q[i]) {
						t.Fail("mulbypow2new", "MulByPow2New(%d) limb %d coeff %d", k, i, j)
					}
				}
			}
		}
	}
	t.State("struct", sp.Name)
}

func want(k [][]uint64) [][]uint64 { return k }

func qp(c *h.Ctx) {
	Q := ru.Mixed(64, 61, 40, 55, 20)
	Pm := ru.Mixed(64, 60, 59, 31)
	for _, mode := range []string{"QP", "Qonly", "Ponly"} {
		for lq := 0; lq < len(Q); lq++ {
			for lp := 0; lp < len(Pm); lp++ {
				mode, lq, lp := mode, lq, lp
				c.Case("ringqp", fmt.Sprintf("qp/%s/%d/%d", mode, lq, lp), func(t *h.T) { runQP(t, mode, Q, Pm, lq, lp) })
			}
		}
	}
}

func runQP(t *h.T, mode string, Q, Pm []uint64, lq, lp int) {
	N := 16
	rQ, err := ring.NewRing(N, Q)
	rP, err2 := ring.NewRing(N, Pm)
	if err != nil || err2 != nil {
		t.Fail("ring-new", "%v %v", err, err2)
	}
	r := rlwe.RingQP{RingQ: rQ, RingP: rP}
	if mode == "Qonly" {
		r.RingP = nil
	} else if mode == "Ponly" {
		r.RingQ = nil
	}
	mk := func(tag string, pat int) rlwe.PolyQP {
		p := rlwe.PolyQP{}
		if r.RingQ != nil {
			p.Q = ring.NewPoly(N, len(Q))
			ru.Fill(p.Q, Q, pat, tag)
		}
		if r.RingP != nil {
			p.P = ring.NewPoly(N, len(Pm))
			ru.Fill(p.P, Pm, pat, tag)
		}
		return p
	}
	idx := rQ.PermuteNTTIndex(5)
	type o struct {
		name string
		do   func(a, b, c rlwe.PolyQP)
		ref  func(r *ring.Ring, l int, a, b, c P)
		noip bool
	}
	list := []o{
		{"AddLvl", func(a, b, c rlwe.PolyQP) { r.AddLvl(lq, lp, a, b, c) }, func(r *ring.Ring, l int, a, b, c P) { r.AddLvl(l, a, b, c) }, false},
		{"AddNoModLvl", func(a, b, c rlwe.PolyQP) { r.AddNoModLvl(lq, lp, a, b, c) }, func(r *ring.Ring, l int, a, b, c P) { r.AddNoModLvl(l, a, b, c) }, false},
		{"SubLvl", func(a, b, c rlwe.PolyQP) { r.SubLvl(lq, lp, a, b, c) }, func(r *ring.Ring, l int, a, b, c P) { r.SubLvl(l, a, b, c) }, false},
		{"NTTLvl", func(a, b, c rlwe.PolyQP) { r.NTTLvl(lq, lp, a, c) }, func(r *ring.Ring, l int, a, b, c P) { r.NTTLvl(l, a, c) }, false},
		{"InvNTTLvl", func(a, b, c rlwe.PolyQP) { r.InvNTTLvl(lq, lp, a, c) }, func(r *ring.Ring, l int, a, b, c P) { r.InvNTTLvl(l, a, c) }, false},
		{"NTTLazyLvl", func(a, b, c rlwe.PolyQP) { r.NTTLazyLvl(lq, lp, a, c) }, func(r *ring.Ring, l int, a, b, c P) { r.NTTLvl(l, a, c) }, false},
		{"MFormLvl", func(a, b, c rlwe.PolyQP) { r.MFormLvl(lq, lp, a, c) }, func(r *ring.Ring, l int, a, b, c P) { r.MFormLvl(l, a, c) }, false},
		{"InvMFormLvl", func(a, b, c rlwe.PolyQP) { r.InvMFormLvl(lq, lp, a, c) }, func(r *ring.Ring, l int, a, b, c P) { r.InvMFormLvl(l, a, c) }, false},
		{"MulCoeffsMontgomeryLvl", func(a, b, c rlwe.PolyQP) { r.MulCoeffsMontgomeryLvl(lq, lp, a, b, c) }, func(r *ring.Ring, l int, a, b, c P) { r.MulCoeffsMontgomeryLvl(l, a, b, c) }, false},
		{"MulCoeffsMontgomeryConstantLvl", func(a, b, c rlwe.PolyQP) { r.MulCoeffsMontgomeryConstantLvl(lq, lp, a, b, c) }, func(r *ring.Ring, l int, a, b, c P) { r.MulCoeffsMontgomeryConstantLvl(l, a, b, c) }, false},
		{"MulCoeffsMontgomeryConstantAndAddNoModLvl", func(a, b, c rlwe.PolyQP) { r.MulCoeffsMontgomeryConstantAndAddNoModLvl(lq, lp, a, b, c) }, func(r *ring.Ring, l int, a, b, c P) { r.MulCoeffsMontgomeryConstantAndAddNoModLvl(l, a, b, c) }, true},
		{"MulCoeffsMontgomeryAndSubLvl", func(a, b, c rlwe.PolyQP) { r.MulCoeffsMontgomeryAndSubLvl(lq, lp, a, b, c) }, func(r *ring.Ring, l int, a, b, c P) { r.MulCoeffsMontgomeryAndSubLvl(l, a, b, c) }, true},
		{"MulCoeffsMontgomeryConstantAndSubNoModLvl", func(a, b, c rlwe.PolyQP) { r.MulCoeffsMontgomeryConstantAndSubNoModLvl(lq, lp, a, b, c) }, func(r *ring.Ring, l int, a, b, c P) { r.MulCoeffsMontgomeryConstantAndSubNoModLvl(l, a, b, c) }, true},
		{"MulCoeffsMontgomeryAndAddLvl", func(a, b, c rlwe.PolyQP) { r.MulCoeffsMontgomeryAndAddLvl(lq, lp, a, b, c) }, func(r *ring.Ring, l int, a, b, c P) { r.MulCoeffsMontgomeryAndAddLvl(l, a, b, c) }, true},
		{"PermuteNTTWithIndexLvl", func(a, b, c rlwe.PolyQP) { r.PermuteNTTWithIndexLvl(lq, lp, a, idx, c) }, func(r *ring.Ring, l int, a, b, c P) { r.PermuteNTTWithIndexLvl(l, a, idx, c) }, true},
		{"PermuteNTTWithIndexAndAddNoModLvl", func(a, b, c rlwe.PolyQP) { r.PermuteNTTWithIndexAndAddNoModLvl(lq, lp, a, idx, c) }, func(r *ring.Ring, l int, a, b, c P) { r.PermuteNTTWithIndexAndAddNoModLvl(l, a, idx, c) }, true},
		{"CopyValuesLvl", func(a, b, c rlwe.PolyQP) { r.CopyValuesLvl(lq, lp, a, c) }, func(r *ring.Ring, l int, a, b, c P) { ring.CopyValuesLvl(l, a, c) }, false},
	}
	half := func(t *h.T, name string, rr *ring.Ring, l int, q []uint64, got, before P, a, b P, f func(r *ring.Ring, l int, a, b, c P)) {
		if rr == nil {
			if got != nil {
				t.Fail("qp-nil", "%s created a part for a missing ring", name)
			}
			return
		}
		w := before.CopyNew()
		if a == nil {
			a = w
		}
		if b == nil {
			b = w
		}
		f(rr, l, a, b, w)
		if ok, d := ru.Cong(got.Coeffs, w.Coeffs, q, l); !ok {
			t.Fail("qp-value", "%s: %s", name, d)
		}
		if ok, d := ru.Same(got.Coeffs[l+1:], before.Coeffs[l+1:]); !ok {
			t.Fail("qp-upper", "%s: %s", name, d)
		}
	}
	cp := func(p rlwe.PolyQP) rlwe.PolyQP { return (&p).CopyNew() }
	for _, x := range list {
		for _, pat := range []int{ru.PatDense, ru.PatMax} {
			for _, al := range []string{"none", "out=a", "out=b"} {
				if al != "none" && x.noip {
					continue
				}
				a, b, o := mk("a", pat), mk("b", ru.PatDense), mk("o", ru.PatDense)
				a0, b0, o0 := cp(a), cp(b), cp(o)
				switch al {
				case "none":
					x.do(a, b, o)
					half(t, x.name, r.RingQ, lq, Q, o.Q, o0.Q, a0.Q, b0.Q, x.ref)
					half(t, x.name, r.RingP, lp, Pm, o.P, o0.P, a0.P, b0.P, x.ref)
					for _, pr := range [][2]rlwe.PolyQP{{a, a0}, {b, b0}} {
						if !(&pr[0]).Equals(pr[1]) {
							t.Fail("qp-operand", "%s changed an operand", x.name)
						}
					}
				case "out=a":
					x.do(a, b, a)
					half(t, x.name, r.RingQ, lq, Q, a.Q, a0.Q, nil, b0.Q, x.ref)
					half(t, x.name, r.RingP, lp, Pm, a.P, a0.P, nil, b0.P, x.ref)
				case "out=b":
					x.do(a, b, b)
					half(t, x.name, r.RingQ, lq, Q, b.Q, b0.Q, a0.Q, nil, x.ref)
					half(t, x.name, r.RingP, lp, Pm, b.P, b0.P, a0.P, nil, x.ref)
				}
				t.Eval(1)
			}
		}
	}
	// construction, copy, equality
	n := r.NewPolyLvl(lq, lp)
	full := r.NewPoly()
	if (r.RingQ != nil) != (n.Q != nil) || (r.RingP != nil) != (n.P != nil) {
		t.Fail("qp-new", "NewPolyLvl parts")
	}
	if n.Q != nil && (n.Q.Level() != lq || full.Q.Level() != len(Q)-1) {
		t.Fail("qp-new", "NewPolyLvl Q level")
	}
	if n.P != nil && (n.P.Level() != lp || full.P.Level() != len(Pm)-1) {
		t.Fail("qp-new", "NewPolyLvl P level")
	}
	src := mk("s", ru.PatDense)
	d1, d2 := mk("d", ru.PatDense), mk("d", ru.PatDense)
	(&d1).Copy(src)
	(&d2).CopyValues(src)
	if !(&d1).Equals(src) || !(&d2).Equals(src) || !(&src).Equals(d1) {
		t.Fail("qp-copy", "Copy/CopyValues/Equals")
	}
	for _, part := range []*ring.Poly{d1.Q, d1.P} {
		if part == nil {
			continue
		}
		part.Coeffs[0][N-1]++
		if (&d1).Equals(src) || (&src).Equals(d1) {
			t.Fail("qp-equals", "difference missed")
		}
		part.Coeffs[0][N-1]--
	}
	if mode == "QP" {
		// a part present on one side only makes the polynomials different
		for _, v := range []rlwe.PolyQP{{Q: src.Q}, {P: src.P}} {
			v := v
			if (&v).Equals(src) || (&src).Equals(v) {
				t.Fail("qp-equals-missing", "a polynomial without its %s part equals one with it", map[bool]string{true: "P", false: "Q"}[v.P == nil])
			}
		}
		// small-norm extension
		vals := []int64{0, 1, -1, 2, -2, 19, -19, 1 << 17, -(1 << 17), 5, 6, 7, -8, -9, 10, 3}
		in := ring.NewPoly(N, lq+1)
		for i := range in.Coeffs {
			for j, v := range vals {
				in.Coeffs[i][j] = ref.Residue(big.NewInt(v), Q[i])
			}
		}
		for _, inpl := range []int{0, 1, 2} {
			var oq *ring.Poly
			src := in.CopyNew()
			switch inpl {
			case 0:
				oq = ru.Junk(N, lq, "eq")
			case 1:
				oq = src
			}
			op := ru.Junk(N, len(Pm)-1, "ep")
			was := ru.Clone(op.Coeffs)
			r.ExtendBasisSmallNormAndCenter(src, lp, oq, op)
			for i := range op.Coeffs {
				for j, v := range vals {
					w := was[i][j]
					if i <= lp {
						w = ref.Residue(big.NewInt(v), Pm[i])
					}
					if op.Coeffs[i][j] != w {
						t.Fail("qp-extend", "ExtendBasisSmallNormAndCenter coeff %d limb %d: %d want %d", v, i, op.Coeffs[i][j], w)
					}
				}
			}
			if oq != nil {
				if ok, d := ru.Same(oq.Coeffs, in.Coeffs); !ok {
					t.Fail("qp-extend", "Q part: %s", d)
				}
			}
		}
	}
	t.State("qp", mode, lq, lp)
}

func main() {
	h.Main(h.Info{
		ID: "C02", Level: "exploration",
		Rule:        "for every ring operation (with and without explicit level), every level, every combination of operand and receiver levels, every aliasing pattern and every pair of coefficient patterns (zero, maximal, around q/2, dense, alternating), the result is compared limb by limb with 128-bit reference arithmetic, and upper limbs and operands with their previous content. Non-trivial: distinct (ring, operation).",
		Bounds:      "N in {16,32,64,1024} (thorough 128), single operations also at 2^13 and 2^17 (thorough every power of two from 2^11), 1..6 primes of 7..61 bits, one ring of 100 primes, scalars up to 2^64-1 and 190-bit integers, monomial degrees in [-4N,4N]",
		Assumptions: []string{"inputs are reduced unless the operation is documented for unreduced ones", "Neg and monomial products may represent 0 by q", "Ring.Equal may replace its operands by their reduced form"},
	}, run)
}
