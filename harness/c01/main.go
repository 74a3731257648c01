// C01: modular reduction primitives and vector kernels.
package main

import (
	"fmt"
	"math/big"

	"fast-ksw/ring"
	"verifharness/h"
	"verifharness/ref"
)

type kernel struct {
	name       string
	nin        int // number of vector inputs (1 or 2)
	acc        bool
	useScalar  bool
	run        func(k *mod, p1, p2, p3 []uint64, s uint64)
	domX, domY string // "q": [0,q), "q2": [0,2q), "u64": any, "half": < 2^63
	domZ, domS string
	// want returns residue, and [lo,hi] closed interval; exact = true means value must equal res
	want func(k *mod, x, y, z, s uint64) (res, lo, hi uint64)
}

type mod struct {
	q, qinv, r, rinv uint64
	bred             []uint64
}

func newMod(q uint64) *mod {
	m := &mod{q: q, qinv: ring.MRedParams(q), bred: ring.BRedParams(q)}
	m.r = ref.R64(q)
	m.rinv = ref.InvMod(m.r, q)
	return m
}

func (m *mod) mont(x, y uint64) uint64 { return ref.MulMod(ref.MulMod(x%m.q, y%m.q, m.q), m.rinv, m.q) }

func exact(v uint64) (uint64, uint64, uint64) { return v, v, v }

func kernels() []kernel {
	return []kernel{
		{"AddVec", 2, false, false, func(k *mod, a, b, c []uint64, s uint64) { ring.AddVec(a, b, c, k.q) }, "q", "q", "", "", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) { return exact(ref.AddMod(x, y, k.q)) }},
		{"AddVecNoMod", 2, false, false, func(k *mod, a, b, c []uint64, s uint64) { ring.AddVecNoMod(a, b, c) }, "half", "half", "", "", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) { return exact(x + y) }},
		{"SubVec", 2, false, false, func(k *mod, a, b, c []uint64, s uint64) { ring.SubVec(a, b, c, k.q) }, "q", "q", "", "", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) { return exact(ref.SubMod(x, y, k.q)) }},
		{"SubVecNomod", 2, false, false, func(k *mod, a, b, c []uint64, s uint64) { ring.SubVecNomod(a, b, c, k.q) }, "q2", "q", "", "", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) { return exact(x + k.q - y) }},
		{"NegVec", 1, false, false, func(k *mod, a, b, c []uint64, s uint64) { ring.NegVec(a, c, k.q) }, "q", "", "", "", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) { return ref.SubMod(0, x, k.q), 0, k.q }},
		{"ReduceVec", 1, false, false, func(k *mod, a, b, c []uint64, s uint64) { ring.ReduceVec(a, c, k.q, k.bred) }, "u64", "", "", "", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) { return exact(x % k.q) }},
		{"ReduceConstantVec", 1, false, false, func(k *mod, a, b, c []uint64, s uint64) { ring.ReduceConstantVec(a, c, k.q, k.bred) }, "u64", "", "", "", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) { return x % k.q, 0, 2*k.q - 1 }},
		{"ModVec", 1, false, false, func(k *mod, a, b, c []uint64, s uint64) { ring.ModVec(a, c, k.q, k.bred) }, "u64", "", "", "", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) { return exact(x % k.q) }},
		{"MulCoeffsVec", 2, false, false, func(k *mod, a, b, c []uint64, s uint64) { ring.MulCoeffsVec(a, b, c, k.q, k.bred) }, "u64", "q2", "", "", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) { return exact(ref.MulMod(x, y, k.q)) }},
		{"MulCoeffsConstantVec", 2, false, false, func(k *mod, a, b, c []uint64, s uint64) { ring.MulCoeffsConstantVec(a, b, c, k.q, k.bred) }, "u64", "q2", "", "", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) { return ref.MulMod(x, y, k.q), 0, 2*k.q - 1 }},
		{"MulCoeffsAndAddVec", 2, true, false, func(k *mod, a, b, c []uint64, s uint64) { ring.MulCoeffsAndAddVec(a, b, c, k.q, k.bred) }, "u64", "q", "q", "", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) {
			return exact(ref.AddMod(z, ref.MulMod(x, y, k.q), k.q))
		}},
		{"MulCoeffsAndAddNoModVec", 2, true, false, func(k *mod, a, b, c []uint64, s uint64) { ring.MulCoeffsAndAddNoModVec(a, b, c, k.q, k.bred) }, "u64", "q", "half", "", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) { return exact(z + ref.MulMod(x, y, k.q)) }},
		{"MulCoeffsMontgomeryVec", 2, false, false, func(k *mod, a, b, c []uint64, s uint64) { ring.MulCoeffsMontgomeryVec(a, b, c, k.q, k.qinv) }, "u64", "q", "", "", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) { return exact(k.mont(x, y)) }},
		{"MulCoeffsMontgomeryConstantVec", 2, false, false, func(k *mod, a, b, c []uint64, s uint64) {
			ring.MulCoeffsMontgomeryConstantVec(a, b, c, k.q, k.qinv)
		}, "u64", "q", "", "", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) { return k.mont(x, y), 0, 2*k.q - 1 }},
		{"MulCoeffsMontgomeryAndAddVec", 2, true, false, func(k *mod, a, b, c []uint64, s uint64) { ring.MulCoeffsMontgomeryAndAddVec(a, b, c, k.q, k.qinv) }, "u64", "q", "q", "", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) {
			return exact(ref.AddMod(z, k.mont(x, y), k.q))
		}},
		{"MulCoeffsMontgomeryAndAddNoModVec", 2, true, false, func(k *mod, a, b, c []uint64, s uint64) {
			ring.MulCoeffsMontgomeryAndAddNoModVec(a, b, c, k.q, k.qinv)
		}, "u64", "q", "half", "", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) { return exact(z + k.mont(x, y)) }},
		{"MulCoeffsMontgomeryConstantAndAddNoModVec", 2, true, false, func(k *mod, a, b, c []uint64, s uint64) {
			ring.MulCoeffsMontgomeryConstantAndAddNoModVec(a, b, c, k.q, k.qinv)
		}, "u64", "q", "q", "", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) {
			return ref.AddMod(z, k.mont(x, y), k.q), z, z + 2*k.q - 1
		}},
		{"MulCoeffsMontgomeryAndSubVec", 2, true, false, func(k *mod, a, b, c []uint64, s uint64) { ring.MulCoeffsMontgomeryAndSubVec(a, b, c, k.q, k.qinv) }, "u64", "q", "q", "", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) {
			return exact(ref.SubMod(z, k.mont(x, y), k.q))
		}},
		{"MulCoeffsMontgomeryAndSubNoMod", 2, true, false, func(k *mod, a, b, c []uint64, s uint64) {
			ring.MulCoeffsMontgomeryAndSubNoMod(a, b, c, k.q, k.qinv)
		}, "u64", "q", "q", "", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) {
			return ref.SubMod(z, k.mont(x, y), k.q), 0, 2*k.q - 1
		}},
		{"MulCoeffsMontgomeryConstantAndSubNoMod", 2, true, false, func(k *mod, a, b, c []uint64, s uint64) {
			ring.MulCoeffsMontgomeryConstantAndSubNoMod(a, b, c, k.q, k.qinv)
		}, "u64", "q", "q", "", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) {
			return ref.SubMod(z, k.mont(x, y), k.q), 0, 3*k.q - 1
		}},
		{"MulCoeffsMontgomeryConstantAndNeg", 2, false, false, func(k *mod, a, b, c []uint64, s uint64) {
			ring.MulCoeffsMontgomeryConstantAndNeg(a, b, c, k.q, k.qinv)
		}, "u64", "q", "", "", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) {
			return ref.SubMod(0, k.mont(x, y), k.q), 0, 2 * k.q
		}},
		{"AddVecNoModAndMulScalarMontgomeryVec", 2, false, true, func(k *mod, a, b, c []uint64, s uint64) {
			ring.AddVecNoModAndMulScalarMontgomeryVec(a, b, c, s, k.q, k.qinv)
		}, "half", "half", "", "q", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) { return exact(k.mont(x+y, s)) }},
		{"AddScalarVec", 1, false, true, func(k *mod, a, b, c []uint64, s uint64) { ring.AddScalarVec(a, c, s, k.q) }, "q", "", "", "q", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) { return exact(ref.AddMod(x, s, k.q)) }},
		{"AddScalarNoModVec", 1, false, true, func(k *mod, a, b, c []uint64, s uint64) { ring.AddScalarNoModVec(a, c, s) }, "half", "", "", "half", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) { return exact(x + s) }},
		{"AddScalarNoModAndNegTwoQiNoModVec", 1, false, true, func(k *mod, a, b, c []uint64, s uint64) { ring.AddScalarNoModAndNegTwoQiNoModVec(a, c, s, k.q) }, "q2", "", "", "q2", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) { return exact(s + 2*k.q - x) }},
		{"SubScalarVec", 1, false, true, func(k *mod, a, b, c []uint64, s uint64) { ring.SubScalarVec(a, c, s, k.q) }, "q", "", "", "q", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) { return exact(ref.SubMod(x, s, k.q)) }},
		{"MulScalarMontgomeryVec", 1, false, true, func(k *mod, a, b, c []uint64, s uint64) { ring.MulScalarMontgomeryVec(a, c, s, k.q, k.qinv) }, "u64", "", "", "q", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) { return exact(k.mont(x, s)) }},
		{"MulScalarMontgomeryConstantVec", 1, false, true, func(k *mod, a, b, c []uint64, s uint64) {
			ring.MulScalarMontgomeryConstantVec(a, c, s, k.q, k.qinv)
		}, "u64", "", "", "q", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) { return k.mont(x, s), 0, 2*k.q - 1 }},
		{"MulScalarMontgomeryAndAddVec", 1, true, true, func(k *mod, a, b, c []uint64, s uint64) { ring.MulScalarMontgomeryAndAddVec(a, c, s, k.q, k.qinv) }, "u64", "", "q", "q", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) {
			return exact(ref.AddMod(z, k.mont(x, s), k.q))
		}},
		{"SubVecAndMulScalarMontgomeryTwoQiVec", 2, false, true, func(k *mod, a, b, c []uint64, s uint64) {
			ring.SubVecAndMulScalarMontgomeryTwoQiVec(a, b, c, s, k.q, k.qinv)
		}, "q2", "q2", "", "q", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) { return exact(k.mont(2*k.q-y+x, s)) }},
		{"MFormVec", 1, false, false, func(k *mod, a, b, c []uint64, s uint64) { ring.MFormVec(a, c, k.q, k.bred) }, "u64", "", "", "", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) { return exact(ref.MulMod(x, k.r, k.q)) }},
		{"MFormConstantVec", 1, false, false, func(k *mod, a, b, c []uint64, s uint64) { ring.MFormConstantVec(a, c, k.q, k.bred) }, "u64", "", "", "", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) {
			return ref.MulMod(x, k.r, k.q), 0, 2*k.q - 1
		}},
		{"InvMFormVec", 1, false, false, func(k *mod, a, b, c []uint64, s uint64) { ring.InvMFormVec(a, c, k.q, k.qinv) }, "u64", "", "", "", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) { return exact(ref.MulMod(x, k.rinv, k.q)) }},
		{"MulByPow2Vec", 1, false, true, func(k *mod, a, b, c []uint64, s uint64) { ring.MulByPow2Vec(a, c, int(s), k.q, k.qinv) }, "q", "", "", "pow", func(k *mod, x, y, z, s uint64) (uint64, uint64, uint64) {
			return exact(ref.MulMod(ref.MulMod(x, ref.PowMod(2, s, k.q), k.q), k.rinv, k.q))
		}},
	}
}

// alphabet returns the boundary values of a domain.
func alphabet(dom string, q uint64, nfill int) (out []uint64) {
	rng := h.NewRng(fmt.Sprintf("%s/%d", dom, q))
	var hi uint64 // inclusive
	switch dom {
	case "", "none":
		return []uint64{0}
	case "q":
		hi = q - 1
	case "q2":
		hi = 2*q - 1
	case "half":
		hi = 1<<63 - 1
	case "u64":
		hi = ^uint64(0)
	case "pow":
		return []uint64{0, 1, 2, 3, 7, 31, 32, 33, 59, 60, 61, 62, 63, 64}
	}
	seen := map[uint64]bool{}
	add := func(v uint64) {
		if v <= hi && !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	for _, b := range []uint64{0, q / 2, q, 2 * q, 3 * q, 4 * q, 1 << 31, 1 << 32, 1 << 48, 1 << 60, 1 << 61, 1 << 62, 1 << 63, hi, ^uint64(0) - (^uint64(0) % q)} {
		for d := uint64(0); d < 3; d++ {
			add(b + d)
			add(b - d)
		}
	}
	for i := 0; i < nfill; i++ {
		v := rng.U64()
		if hi != ^uint64(0) {
			v %= hi + 1
		}
		add(v)
	}
	return
}

func run(c *h.Ctx) {
	big_ := []uint64{}
	for _, b := range []int{20, 30, 31, 32, 33, 36, 45, 50, 55, 59, 60, 61} {
		big_ = append(big_, ref.PrimesBelow(b, 32, 1)...)
		if b == 61 || b == 60 {
			big_ = append(big_, ref.PrimesAbove(uint64(1)<<uint(b-1), 32, 1)...)
		}
	}
	big_ = append(big_, 0x1fffffffffe00001, 1152921504606830593, 2305843009213693951 /* 2^61-1 */, 4294967291 /* < 2^32 */, 4294967311)
	small := []uint64{}
	lim := uint64(200)
	if c.Thorough {
		lim = 600
	}
	for x := uint64(3); x <= lim; x += 2 {
		if ref.IsPrime(x) {
			small = append(small, x)
		}
	}
	small = append(small, 257, 769)
	if c.Thorough {
		small = append(small, 7681, 12289)
	}

	for _, q := range small {
		q := q
		c.Case("scalar-exhaustive", fmt.Sprintf("scalar/small/q=%d", q), func(t *h.T) {
			m := newMod(q)
			if ring.MRedParams(q)*q != 1 {
				t.Fail("mredparams", "MRedParams(%d)*q != 1", q)
			}
			lim := 4 * q
			if q > 1000 {
				lim = q
			}
			for x := uint64(0); x < lim; x++ {
				scalar1(t, m, x)
				for y := uint64(0); y < lim; y++ {
					scalar2(t, m, x, y)
				}
			}
			t.Eval(int(lim * lim))
			t.State("small", q)
		})
	}
	nfill := 40
	if c.Thorough {
		nfill = 400
	}
	for _, q := range big_ {
		q := q
		c.Case("scalar-boundary", fmt.Sprintf("scalar/large/q=%d", q), func(t *h.T) {
			m := newMod(q)
			if ring.MRedParams(q)*q != 1 {
				t.Fail("mredparams", "MRedParams(%d)*q != 1", q)
			}
			bp := new(big.Int).Lsh(big.NewInt(1), 128)
			bp.Quo(bp, ref.U(q))
			got := new(big.Int).Add(new(big.Int).Lsh(ref.U(m.bred[0]), 64), ref.U(m.bred[1]))
			if bp.Cmp(got) != 0 {
				t.Fail("bredparams", "BRedParams(%d)=%v want %v", q, got, bp)
			}
			a := alphabet("u64", q, nfill)
			for _, x := range a {
				scalar1(t, m, x)
				for _, y := range a {
					scalar2(t, m, x, y)
				}
			}
			t.Eval(len(a) * len(a))
			t.State("large", q)
		})
		c.Case("modexp", fmt.Sprintf("modexp/q=%d", q), func(t *h.T) {
			m := newMod(q)
			a := alphabet("u64", q, 8)
			es := []uint64{0, 1, 2, 3, 4, 5, 63, 64, 65, q - 1, q - 2, q, 1 << 62, 1<<63 - 1, 1 << 63, ^uint64(0)}
			for _, x := range a {
				for _, e := range es {
					if g, w := ring.ModExp(x, e, q), ref.PowMod(x, e, q); g != w {
						t.Fail("modexp", "ModExp(%d,%d,%d)=%d want %d", x, e, q, g, w)
					}
					if int(e) >= 0 {
						xm := ref.MulMod(x, m.r, q)
						if g, w := ring.ModexpMontgomery(xm, int(e), q, m.qinv, m.bred), ref.MulMod(ref.PowMod(x, e, q), m.r, q); g != w {
							t.Fail("modexpmont", "ModexpMontgomery(%d,%d,%d)=%d want %d", xm, e, q, g, w)
						}
					}
				}
			}
			t.Eval(len(a) * len(es))
		})
	}

	qs := append([]uint64{97, 193, 12289}, big_...)
	for _, k := range kernels() {
		for _, q := range qs {
			k, q := k, q
			c.Case("kernel", fmt.Sprintf("kernel/%s/q=%d", k.name, q), func(t *h.T) { runKernel(t, k, q, c.Thorough) })
		}
	}
	c.Case("int", "int/DivRound", func(t *h.T) {
		vals := []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 99, 100, 101, 1 << 40, 1<<40 + 1}
		for _, a := range vals {
			for _, sa := range []int64{1, -1} {
				for _, b := range vals {
					if b == 0 {
						continue
					}
					for _, sb := range []int64{1, -1} {
						for alias := 0; alias < 2; alias++ {
							A, B := big.NewInt(a*sa), big.NewInt(b*sb)
							out := new(big.Int)
							if alias == 1 {
								out = A
							}
							ring.DivRound(A, B, out)
							// |a - out*b| * 2 <= |b|
							d := new(big.Int).Sub(big.NewInt(a*sa), new(big.Int).Mul(out, big.NewInt(b*sb)))
							d.Abs(d).Lsh(d, 1)
							if d.Cmp(big.NewInt(b)) > 0 {
								t.Fail("divround", "DivRound(%d,%d)=%v (alias %d)", a*sa, b*sb, out, alias)
							}
							t.Eval(1)
						}
					}
				}
			}
		}
		for x := -3; x < 4; x++ {
			for y := -3; y < 4; y++ {
				w := x
				if y < x {
					w = y
				}
				if ring.Min(x, y) != w {
					t.Fail("min", "Min(%d,%d)", x, y)
				}
			}
		}
		for i := int64(1); i < 300; i++ {
			mx := big.NewInt(i)
			v := ring.RandInt(mx)
			if v.Sign() < 0 || v.Cmp(mx) >= 0 || mx.Int64() != i {
				t.Fail("randint", "RandInt(%d)=%v", i, v)
			}
		}
		for _, s := range []string{"0", "1", "-1", "18446744073709551616", "-340282366920938463463374607431768211456"} {
			if ring.NewIntFromString(s).String() != s {
				t.Fail("newint", "NewIntFromString(%s)", s)
			}
		}
		if ring.NewInt(-5).Int64() != -5 || ring.NewUint(^uint64(0)).Uint64() != ^uint64(0) {
			t.Fail("newint", "NewInt/NewUint")
		}
	})
}

func scalar1(t *h.T, m *mod, x uint64) {
	q := m.q
	eq := func(n string, g, w uint64) {
		if g != w {
			t.Fail(n, "%s(%d) mod %d = %d want %d", n, x, q, g, w)
		}
	}
	lazy := func(n string, g, w uint64) {
		if g%q != w || g > 2*q-1 {
			t.Fail(n, "%s(%d) mod %d = %d want congruent to %d in [0,2q)", n, x, q, g, w)
		}
	}
	eq("MForm", ring.MForm(x, q, m.bred), ref.MulMod(x, m.r, q))
	lazy("MFormConstant", ring.MFormConstant(x, q, m.bred), ref.MulMod(x, m.r, q))
	eq("InvMForm", ring.InvMForm(x, q, m.qinv), ref.MulMod(x, m.rinv, q))
	lazy("InvMFormConstant", ring.InvMFormConstant(x, q, m.qinv), ref.MulMod(x, m.rinv, q))
	eq("BRedAdd", ring.BRedAdd(x, q, m.bred), x%q)
	lazy("BRedAddConstant", ring.BRedAddConstant(x, q, m.bred), x%q)
	if x <= 2*q-1 {
		eq("CRed", ring.CRed(x, q), x%q)
	}
	if x < q {
		for n := 0; n <= 64; n++ {
			eq("PowerOf2", ring.PowerOf2(x, n, q, m.qinv), ref.MulMod(ref.MulMod(x, ref.PowMod(2, uint64(n), q), q), m.rinv, q))
		}
	}
}

func scalar2(t *h.T, m *mod, x, y uint64) {
	q := m.q
	w := ref.MulMod(x, y, q)
	if g := ring.BRed(x, y, q, m.bred); g != w {
		t.Fail("BRed", "BRed(%d,%d) mod %d = %d want %d", x, y, q, g, w)
	}
	if g := ring.BRedConstant(x, y, q, m.bred); g%q != w || g >= 2*q {
		t.Fail("BRedConstant", "BRedConstant(%d,%d) mod %d = %d want %d", x, y, q, g, w)
	}
	if x < q || y < q {
		w = ref.MulMod(w, m.rinv, q)
		if g := ring.MRed(x, y, q, m.qinv); g != w {
			t.Fail("MRed", "MRed(%d,%d) mod %d = %d want %d", x, y, q, g, w)
		}
		if g := ring.MRedConstant(x, y, q, m.qinv); g%q != w || g >= 2*q {
			t.Fail("MRedConstant", "MRedConstant(%d,%d) mod %d = %d want %d", x, y, q, g, w)
		}
	}
}

const canary = 0xdeadbeefcafebabe

func runKernel(t *h.T, k kernel, q uint64, thorough bool) {
	m := newMod(q)
	nf := 3
	if thorough {
		nf = 20
	}
	ax := alphabet(k.domX, q, nf)
	ay := alphabet(k.domY, q, nf)
	az := alphabet(k.domZ, q, nf)
	as := []uint64{0}
	if k.useScalar {
		as = alphabet(k.domS, q, 2)
	}
	if k.nin == 1 {
		ay = []uint64{0}
	}
	if !k.acc {
		az = []uint64{0x123456789abcdef, 5} // previous receiver content must not matter
	} else if len(az) > 12 && !thorough {
		az = az[:12]
	}
	// tuple list
	type tup struct{ x, y, z uint64 }
	var tl []tup
	for i, x := range ax {
		for j, y := range ay {
			if k.acc {
				for l := 0; l < 3; l++ {
					tl = append(tl, tup{x, y, az[(i*7+j*3+l*5)%len(az)]})
				}
			} else {
				tl = append(tl, tup{x, y, az[(i+j)%2]})
			}
		}
	}
	if k.acc {
		for _, z := range az {
			tl = append(tl, tup{ax[len(ax)/2], ay[len(ay)/2], z})
			tl = append(tl, tup{ax[len(ax)-1], ay[0], z})
		}
	}
	lens := []int{8, 16, 24, 64, 4096}
	aliases := []string{"none", "out=p1"}
	if k.nin == 2 {
		aliases = append(aliases, "out=p2", "p1=p2", "all")
	}
	if k.acc {
		aliases = []string{"none", "p1=p2"}
		if k.nin == 1 {
			aliases = aliases[:1]
		}
	}
	for _, s := range as {
		for _, al := range aliases {
			if (al == "p1=p2" || al == "all") && k.domX != k.domY {
				continue
			}
			if al == "out=p2" && k.nin < 2 {
				continue
			}
			for rot := 0; rot < 8; rot++ {
				for li, L := range lens {
					// walk through the tuple list in blocks of L starting at rot
					nb := 1
					if li == 0 || L == 4096 {
						nb = (len(tl) + L - 1) / L
					}
					if k.useScalar && L != 8 && L != 64 && rot > 0 {
						continue
					}
					for b := 0; b < nb; b++ {
						buf := make([]uint64, 3*(L+16))
						for i := range buf {
							buf[i] = canary
						}
						p1, p2, p3 := buf[8:8+L], buf[L+24:2*L+24], buf[2*L+40:3*L+40]
						for i := 0; i < L; i++ {
							tp := tl[(b*L+i+rot)%len(tl)]
							p1[i], p2[i], p3[i] = tp.x, tp.y, tp.z
						}
						o1, o2, o3 := append([]uint64{}, p1...), append([]uint64{}, p2...), append([]uint64{}, p3...)
						a1, a2, a3 := p1, p2, p3
						switch al {
						case "out=p1":
							a3 = p1
						case "out=p2":
							a3 = p2
						case "p1=p2":
							a2 = p1
							o2 = o1
						case "all":
							a2, a3 = p1, p1
							o2 = o1
						}
						k.run(m, a1, a2, a3, s)
						for i := 0; i < L; i++ {
							res, lo, hi := k.want(m, o1[i], o2[i], o3[i], s)
							g := a3[i]
							if (lo == hi && g != lo) || g < lo || g > hi || g%q != res%q {
								t.Fail("kernel/"+k.name, "%s q=%d alias=%s len=%d lane %d: x=%d y=%d z=%d s=%d got %d want res %d in [%d,%d]", k.name, q, al, L, i, o1[i], o2[i], o3[i], s, g, res, lo, hi)
							}
						}
						// operands and canaries
						in := func(p, o []uint64, n string) {
							if &p[0] == &a3[0] {
								return
							}
							for i := range o {
								if p[i] != o[i] {
									t.Fail("kernel-operand/"+k.name, "%s alias=%s: %s[%d] changed", k.name, al, n, i)
								}
							}
						}
						in(p1, o1, "p1")
						if al == "none" || al == "out=p1" {
							in(p2, o2, "p2")
						}
						for i := range buf {
							inside := (i >= 8 && i < 8+L) || (i >= L+24 && i < 2*L+24) || (i >= 2*L+40 && i < 3*L+40)
							if !inside && buf[i] != canary {
								t.Fail("kernel-oob/"+k.name, "%s len=%d wrote outside its operands (offset %d)", k.name, L, i)
							}
						}
						t.Eval(L)
					}
				}
			}
		}
	}
	t.State(k.name, q)
}

func main() {
	h.Main(h.Info{
		ID: "C01", Level: "exploration",
		Rule:        "scalar primitives: every operand pair below 4q for every odd prime up to 200 (thorough 600), and every pair of a boundary alphabet (around 0, q/2, kq, powers of two, 2^64) for primes of 20..61 bits; kernels: every tuple of the boundary alphabets of the documented operand domains at each of the eight unrolled lanes, for every aliasing pattern and five lengths. A case is non-trivial per distinct (function, modulus).",
		Bounds:      "moduli listed above; lengths 8..4096",
		Assumptions: []string{"operand domains are those documented or implied by the callers (Montgomery: x*y < q*2^64)", "Neg may represent 0 by q"},
	}, run)
}
