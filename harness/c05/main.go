// C05: dividing by the last moduli and scaling is exact.
package main

import (
	"fmt"
	"math/big"

	"fast-ksw/ring"
	"verifharness/alpha"
	"verifharness/h"
	"verifharness/ref"
	"verifharness/ru"
)

func specs(th bool) []ru.RingSpec {
	S, CI := ring.Standard, ring.ConjugateInvariant
	s := []ru.RingSpec{
		{"two", 16, S, []uint64{97, 193}},
		{"twob", 16, S, []uint64{193, 97}},
		{"small", 16, S, []uint64{353, 97, 193, 257}},
		{"mix", 16, S, ru.Mixed(32, 61, 20, 61, 36, 8, 55)},
		{"mix2", 32, S, ru.Mixed(64, 30, 61, 25, 61, 61)},
		{"up3", 16, S, ru.Mixed(32, 20, 45, 61)},
		{"big", 16, S, ru.Mixed(32, ru.Rep(61, 8)...)},
		{"ci", 32, CI, ru.Mixed(128, 55, 35, 35, 61)},
		{"n256", 256, S, ru.Mixed(512, 55, 40, 40)},
		{"n8192", 8192, S, ru.Mixed(1<<14, 55, 45)},
		{"n131072", 1 << 17, S, ru.Mixed(1<<18, 55, 45)},
	}
	s = append(s, ru.RingSpec{"many", 16, S, ru.Mixed(32, append(ru.Rep(61, 70), ru.Rep(40, 30)...)...)})
	if th {
		s = append(s, ru.RingSpec{"big16", 16, S, ru.Mixed(32, ru.Rep(61, 16)...)}, ru.RingSpec{"up", 16, S, ru.Mixed(32, 8, 12, 20, 30, 40, 50, 60, 61)}, ru.RingSpec{"down", 16, S, ru.Mixed(32, 61, 60, 50, 40, 30, 20, 12, 8)}, ru.RingSpec{"n16384ci", 1 << 14, CI, ru.Mixed(1<<16, 55, 40, 45)}, ru.RingSpec{"n65536", 1 << 16, S, ru.Mixed(1<<17, 55, 45)}, ru.RingSpec{"n1024ci", 1024, CI, ru.Mixed(4096, 55, 40, 40, 61)})
	}
	return s
}

func fill(p *ring.Poly, q []uint64, v []*big.Int) {
	for i := range p.Coeffs {
		for j := range v {
			p.Coeffs[i][j] = ref.Residue(v[j], q[i])
		}
	}
}

func run(c *h.Ctx) {
	for _, sp := range specs(c.Thorough) {
		sp := sp
		for l := range sp.Q {
			for nb := 0; nb <= l; nb++ {
				l, nb := l, nb
				if len(sp.Q) > 32 && (l != 33 && !ru.Few(l, len(sp.Q), false) || nb != 1 && nb != 33 && nb != l || !c.Thorough && l != len(sp.Q)-1) {
					continue
				}
				c.Case("divide", fmt.Sprintf("div/%s/level=%d/nb=%d", sp, l, nb), func(t *h.T) { divide(t, sp, l, nb, c.Thorough) })
			}
		}
		for _, tt := range []uint64{2, 3, 4, 5, 16, 97, 256, 257, 65536, 65537, 1000000, 1 << 32, 1<<59 + 1} {
			tt := tt
			c.Case("simple-scaler", fmt.Sprintf("simple/%s/t=%d", sp, tt), func(t *h.T) { scaler(t, sp, tt, false) })
		}
		m := uint64(2 * sp.N)
		for _, tt := range append(append(ref.PrimesAbove(m, m, 6), ref.PrimesBelow(61, m, 10)[9]), ref.PrimesBelow(34, m, 2)...) {
			tt := tt
			in := false
			for _, q := range sp.Q {
				in = in || q == tt
			}
			if !in {
				c.Case("rns-scaler", fmt.Sprintf("rns/%s/t=%d", sp, tt), func(t *h.T) { scaler(t, sp, tt, true) })
			}
		}
	}
	for k := 0; k < 8; k++ {
		k := k
		if k == 0 {
			c.Case("divround", "divround", divRound)
		}
		c.Case("exhaustive", fmt.Sprintf("ex/%d", k), func(t *h.T) { exhaustive(t, []uint64{97, 193}, k) })
		c.Case("exhaustive", fmt.Sprintf("ex2/%d", k), func(t *h.T) { exhaustive(t, []uint64{257, 97}, k) })
	}
	if c.Thorough {
		for k := 0; k < 64; k++ {
			k := k
			c.Case("exhaustive", fmt.Sprintf("ex3/%d", k), func(t *h.T) { exhaustive(t, []uint64{193, 97, 257}, k) })
		}
	}
}

// want iterates the single-prime definition.
func want(x *big.Int, q []uint64, level, nb int, round bool) *big.Int {
	v := new(big.Int).Set(x)
	for k := 0; k < nb; k++ {
		d := ref.U(q[level-k])
		if round {
			v = ref.RoundDiv(v, d)
			v.Mod(v, ref.Prod(q[:level-k]))
		} else {
			v = ref.FloorDiv(v, d)
		}
	}
	return v
}

type dv struct {
	name       string
	round, ntt bool
	single     bool
	f          func(r *ring.Ring, l, nb int, a, pool, b *ring.Poly)
}

func divs() []dv {
	return []dv{
		{"DivFloorByLastModulusLvl", false, false, true, func(r *ring.Ring, l, nb int, a, p, b *ring.Poly) { r.DivFloorByLastModulusLvl(l, a, b) }},
		{"DivFloorByLastModulusNTTLvl", false, true, true, func(r *ring.Ring, l, nb int, a, p, b *ring.Poly) { r.DivFloorByLastModulusNTTLvl(l, a, p, b) }},
		{"DivRoundByLastModulusLvl", true, false, true, func(r *ring.Ring, l, nb int, a, p, b *ring.Poly) { r.DivRoundByLastModulusLvl(l, a, b) }},
		{"DivRoundByLastModulusNTTLvl", true, true, true, func(r *ring.Ring, l, nb int, a, p, b *ring.Poly) { r.DivRoundByLastModulusNTTLvl(l, a, p, b) }},
		{"DivFloorByLastModulusManyLvl", false, false, false, func(r *ring.Ring, l, nb int, a, p, b *ring.Poly) { r.DivFloorByLastModulusManyLvl(l, nb, a, p, b) }},
		{"DivFloorByLastModulusManyNTTLvl", false, true, false, func(r *ring.Ring, l, nb int, a, p, b *ring.Poly) { r.DivFloorByLastModulusManyNTTLvl(l, nb, a, p, b) }},
		{"DivRoundByLastModulusManyLvl", true, false, false, func(r *ring.Ring, l, nb int, a, p, b *ring.Poly) { r.DivRoundByLastModulusManyLvl(l, nb, a, p, b) }},
		{"DivRoundByLastModulusManyNTTLvl", true, true, false, func(r *ring.Ring, l, nb int, a, p, b *ring.Poly) { r.DivRoundByLastModulusManyNTTLvl(l, nb, a, p, b) }},
	}
}

func divide(t *h.T, sp ru.RingSpec, l, nb int, th bool) {
	r := sp.New(t)
	M := ref.Prod(sp.Q[:l+1])
	facs := alpha.Bigs(sp.Q[:l+1])
	for k := 1; k <= nb; k++ {
		facs = append(facs, ref.Prod(sp.Q[l+1-k:l+1]))
	}
	vals := alpha.Alphabet(M, facs, 16, sp.Name)
	// halfway points of every partial product
	for k := 1; k <= nb; k++ {
		d := ref.Prod(sp.Q[l+1-k : l+1])
		for _, m := range []int64{0, 1, 2, 7} {
			for e := int64(-1); e <= 2; e++ {
				v := new(big.Int).Mul(d, big.NewInt(m))
				v.Add(v, new(big.Int).Rsh(d, 1)).Add(v, big.NewInt(e))
				vals = append(vals, v.Mod(v, M))
				w := new(big.Int).Sub(M, v)
				vals = append(vals, w.Mod(w, M))
			}
		}
	}
	chunks := alpha.Chunks(vals, sp.N)
	for _, d := range divs() {
		if d.single && nb != 1 {
			continue
		}
		for ci, v := range chunks {
			// receiver: 0 fresh of full length, 1 of the resulting level, 2 the operand
			for recv := 0; recv < 3; recv++ {
				for rep := 0; rep < 2; rep++ {
					if rep == 1 && !d.ntt { // coefficient-domain operands are reduced
						continue
					}
					a := ru.Junk(sp.N, len(sp.Q)-1, "a")
					low := &ring.Poly{Coeffs: a.Coeffs[:l+1]}
					fill(low, sp.Q, v)
					if d.ntt {
						r.NTTLvl(l, low, low)
					}
					if rep == 1 {
						for i := range low.Coeffs {
							for j := range low.Coeffs[i] {
								low.Coeffs[i][j] += sp.Q[i] * uint64((i+j)&1)
							}
						}
					}
					was := ru.Clone(a.Coeffs)
					b := a
					switch recv {
					case 0:
						b = ru.Junk(sp.N, len(sp.Q)-1, "b")
					case 1:
						b = ru.Junk(sp.N, l-nb, "b1")
					}
					bw := ru.Clone(b.Coeffs)
					d.f(r, l, nb, a, ru.Junk(sp.N, len(sp.Q)-1, "pool"), b)
					t.Eval(1)
					if recv != 2 {
						if ok, df := ru.Same(a.Coeffs, was); !ok {
							t.Fail("operand/"+d.name, "%s %s level %d nb %d modifies its operand: %s", sp, d.name, l, nb, df)
							return
						}
					}
					for i := l + 1; i < len(b.Coeffs); i++ {
						if fmt.Sprint(b.Coeffs[i]) != fmt.Sprint(bw[i]) {
							t.Fail("upper/"+d.name, "%s %s level %d nb %d writes limb %d", sp, d.name, l, nb, i)
						}
					}
					out := &ring.Poly{Coeffs: b.Coeffs[:l-nb+1]}
					if nb > 0 {
						for i := range out.Coeffs {
							for j, x := range out.Coeffs[i] {
								if x >= sp.Q[i] {
									t.Fail("range/"+d.name, "%s %s level %d nb %d limb %d coefficient %d: %d not reduced", sp, d.name, l, nb, i, j, x)
									return
								}
							}
						}
					}
					if d.ntt {
						r.InvNTTLvl(l-nb, out, out)
					}
					for j, x := range v {
						w := want(x, sp.Q, l, nb, d.round)
						for i := range out.Coeffs {
							if out.Coeffs[i][j]%sp.Q[i] != ref.Residue(w, sp.Q[i]) {
								t.Fail("value/"+d.name, "%s %s level %d nb %d receiver %d rep %d of %s: limb %d is %d want %s = %d", sp, d.name, l, nb, recv, rep, x, i, out.Coeffs[i][j], w, ref.Residue(w, sp.Q[i]))
								return
							}
						}
					}
					t.State(sp.Name, d.name, l, nb, ci)
				}
			}
		}
	}
}

func scaler(t *h.T, sp ru.RingSpec, tt uint64, rns bool) {
	r := sp.New(t)
	Q := ref.Prod(sp.Q)
	T := ref.U(tt)
	facs := alpha.Bigs(sp.Q)
	facs = append(facs, new(big.Int).Div(Q, T))
	vals := alpha.Alphabet(Q, facs, 24, fmt.Sprint(sp.Name, tt))
	// rounding boundaries: (2k+1)Q/(2t)
	for _, k := range []uint64{0, 1, 2, tt / 2, tt - 2, tt - 1} {
		v := new(big.Int).Mul(Q, new(big.Int).Add(new(big.Int).Lsh(ref.U(k), 1), big.NewInt(1)))
		v.Div(v, new(big.Int).Lsh(T, 1))
		for e := int64(-2); e <= 2; e++ {
			w := new(big.Int).Add(v, big.NewInt(e))
			vals = append(vals, w.Mod(w, Q))
		}
	}
	var sc ring.Scaler
	if rns {
		rt, err := ring.NewRing(sp.N, []uint64{tt})
		if err != nil {
			t.Fail("ring-new", "%v", err)
			return
		}
		sc = ring.NewRNSScaler(r, rt)
	} else {
		sc = ring.NewSimpleScaler(tt, r)
	}
	name := map[bool]string{true: "RNSScaler", false: "SimpleScaler"}[rns]
	for round := 0; round < 2; round++ { // a scaler may be reused
		for ci, v := range alpha.Chunks(vals, sp.N) {
			for alias := 0; alias < 2; alias++ {
				a := r.NewPoly()
				fill(a, sp.Q, v)
				was := ru.Clone(a.Coeffs)
				b := a
				if alias == 0 {
					b = ru.Junk(sp.N, 0, "t")
				}
				sc.DivByQOverTRounded(a, b)
				t.Eval(1)
				if alias == 0 {
					if ok, d := ru.Same(a.Coeffs, was); !ok {
						t.Fail("scaler-operand/"+name, "%s %s t=%d: %s", sp, name, tt, d)
					}
				}
				for j, x := range v {
					n := new(big.Int).Mul(x, T)
					w := ref.RoundDiv(n, Q)
					ok := b.Coeffs[0][j] == ref.Residue(w, tt)
					if !ok && rns {
						// the RNS route may be off by one within 2^-40 of a tie
						sh := new(big.Int).Add(n, new(big.Int).Rsh(Q, 1))
						m := new(big.Int).Mod(sh, Q)
						lo, hi := alpha.Near(m, Q)
						ok = lo && b.Coeffs[0][j] == ref.Residue(new(big.Int).Sub(w, big.NewInt(1)), tt) || hi && b.Coeffs[0][j] == ref.Residue(new(big.Int).Add(w, big.NewInt(1)), tt)
					}
					if !ok {
						t.Fail("scaler/"+name, "%s %s t=%d of %s: %d want %d", sp, name, tt, x, b.Coeffs[0][j], ref.Residue(w, tt))
						return
					}
				}
				t.State(sp.Name, name, tt, ci)
			}
		}
	}
}

func exhaustive(t *h.T, q []uint64, part int) {
	sp := ru.RingSpec{"ex", 16, ring.Standard, q}
	r := sp.New(t)
	Q := ref.Prod(q).Uint64()
	parts := uint64(8)
	if len(q) == 3 {
		parts = 64
	}
	L := len(q) - 1
	for x := Q * uint64(part) / parts; x < Q*uint64(part+1)/parts; x += 16 {
		v := make([]*big.Int, 16)
		for j := range v {
			v[j] = ref.U((x + uint64(j)) % Q)
		}
		for nb := 1; nb <= L; nb++ {
			for _, d := range divs() {
				if d.single && nb != 1 {
					continue
				}
				a, b, p := r.NewPoly(), r.NewPoly(), r.NewPoly()
				fill(a, q, v)
				if d.ntt {
					r.NTT(a, a)
				}
				d.f(r, L, nb, a, p, b)
				out := &ring.Poly{Coeffs: b.Coeffs[:L-nb+1]}
				if d.ntt {
					r.InvNTTLvl(L-nb, out, out)
				}
				t.Eval(1)
				for j := range v {
					w := want(v[j], q, L, nb, d.round)
					for i := range out.Coeffs {
						if out.Coeffs[i][j] != ref.Residue(w, q[i]) {
							t.Fail("value/"+d.name, "%v %s nb %d of %s: limb %d is %d want %s", q, d.name, nb, v[j], i, out.Coeffs[i][j], w)
							return
						}
					}
				}
			}
		}
		t.State("ex", q, x)
	}
}

// divRound: the big-integer rounded division, on all small quotients and around the ties of large ones.
func divRound(t *h.T) {
	check := func(a, b *big.Int) {
		a0, b0 := new(big.Int).Set(a), new(big.Int).Set(b)
		i := big.NewInt(77)
		ring.DivRound(a, b, i)
		// |2(a - i b)| <= |b|, ties away from zero
		d := new(big.Int).Sub(a0, new(big.Int).Mul(i, b0))
		d.Lsh(d, 1)
		c := d.CmpAbs(b0)
		x := new(big.Int).Mul(i, b0)
		if c > 0 || c == 0 && x.CmpAbs(a0) < 0 {
			t.Fail("divround", "round(%s / %s) = %s", a0, b0, i)
		}
		if a.Cmp(a0) != 0 || b.Cmp(b0) != 0 {
			t.Fail("divround/operand", "%s / %s changes an operand", a0, b0)
		}
		ring.DivRound(a, b, a)
		if a.Cmp(i) != 0 {
			t.Fail("divround/inplace", "round(%s / %s) in place = %s, want %s", a0, b0, a, i)
		}
		t.Eval(1)
	}
	for a := int64(-70); a <= 70; a++ {
		for b := int64(-9); b <= 9; b++ {
			if b != 0 {
				check(big.NewInt(a), big.NewInt(b))
			}
		}
	}
	for _, bits := range []uint{1, 31, 63, 64, 65, 200} {
		for e := int64(-2); e <= 2; e++ {
			b := new(big.Int).Lsh(big.NewInt(1), bits)
			b.Add(b, big.NewInt(e))
			for m := int64(-3); m <= 3; m++ {
				for f := int64(-3); f <= 3; f++ { // a near (m + 1/2) b and near m b
					for half := int64(0); half < 2; half++ {
						for _, s := range []int64{1, -1} {
							a := new(big.Int).Mul(b, big.NewInt(2*m+half))
							a.Rsh(a, 1)
							a.Add(a, big.NewInt(f))
							d := new(big.Int).Mul(b, big.NewInt(s))
							if d.Sign() != 0 {
								check(a, d)
							}
						}
					}
				}
			}
		}
	}
}

func main() {
	h.Main(h.Info{
		ID: "C05", Level: "exploration",
		Rule:        "for every ring, level, number of dropped primes, division routine (floor/round, coefficient/NTT, single/many), receiver (full length, resulting length, the operand) and every value of a boundary alphabet (around every multiple, cofactor and half-way point of every prime and partial product), the residues are compared with iterated exact integer division; every value of two-prime (thorough: three-prime) tiny moduli is enumerated; both scalers over plaintext moduli of 2..61 bits including all rounding boundaries. Non-trivial: distinct (ring, routine, level, nb, value chunk).",
		Bounds:      "N in {16,32,256,8192,2^17} (thorough 1024, 2^14, 2^16), 2..8 primes of 7..61 bits (thorough 16), 100 primes at selected levels",
		Assumptions: []string{"several primes are dropped one after the other, as documented (iterated rounding)", "the RNS scaler may return either neighbour within 2^-40 of a tie"},
	}, run)
}
