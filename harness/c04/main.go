// C04: RNS basis conversions follow the Chinese remainder theorem.
package main

import (
	"fmt"
	"math/big"

	"fast-ksw/ring"
	"verifharness/alpha"
	"verifharness/h"
	"verifharness/ref"
	"verifharness/ru"
)

type sys struct {
	name string
	n    int
	ty   ring.Type
	q, p []uint64
}

// split takes nq+np distinct primes, the first nq for Q.
func split(name string, n int, ty ring.Type, q, p []int) sys {
	m := uint64(2 * n)
	if ty == ring.ConjugateInvariant {
		m *= 2
	}
	all := ru.Mixed(m, append(append([]int{}, q...), p...)...)
	return sys{name, n, ty, all[:len(q)], all[len(q):]}
}

func systems(th bool) []sys {
	S, CI := ring.Standard, ring.ConjugateInvariant
	out := []sys{
		{"tiny11", 16, S, []uint64{97}, []uint64{193}},
		{"tiny21", 16, S, []uint64{97, 193}, []uint64{257}},
		{"tiny22", 16, S, []uint64{97, 353}, []uint64{193, 257}},
		{"tiny53", 16, S, []uint64{97, 193, 257, 353, 449}, []uint64{577, 641, 673}},
		split("q1p1big", 16, S, []int{61}, []int{61}),
		split("q6p3mix", 16, S, []int{55, 40, 40, 61, 30, 45}, []int{61, 36, 58}),
		split("q5p2", 16, S, ru.Rep(61, 5), ru.Rep(61, 2)),
		split("q7p4", 16, S, []int{60, 45, 45, 45, 45, 45, 45}, ru.Rep(61, 4)),
		split("up", 16, S, []int{20, 36, 50, 61}, []int{30, 45, 61}),
		split("ci", 32, CI, []int{50, 35, 35, 35}, []int{55, 55}),
		split("q20p9", 16, S, ru.Rep(61, 20), ru.Rep(61, 9)),
		split("q32p3", 16, S, ru.Rep(61, 32), []int{61, 30, 61}),
		split("q70p68", 16, S, ru.Rep(61, 70), ru.Rep(61, 68)),
		split("n8192", 8192, S, []int{55, 45}, []int{56}),
		split("n131072", 1<<17, S, []int{55}, []int{56}),
	}
	if th {
		for nq := 1; nq <= 9; nq++ {
			for np := 1; np <= 5; np++ {
				out = append(out, split(fmt.Sprintf("g%d.%d", nq, np), 16, S, ru.Rep(36, nq), ru.Rep(37, np)),
					split(fmt.Sprintf("h%d.%d", nq, np), 16, S, ru.Rep(61, nq), ru.Rep(61, np)),
					split(fmt.Sprintf("i%d.%d", nq, np), 16, S, ru.Rep(20, nq), ru.Rep(61, np)),
					split(fmt.Sprintf("j%d.%d", nq, np), 16, S, ru.Rep(61, nq), ru.Rep(20, np)))
			}
		}
		out = append(out, split("n256", 256, S, ru.Rep(55, 6), ru.Rep(55, 3)), split("n16384ci", 1<<14, CI, []int{50, 45, 45}, []int{55, 56}), split("n65536", 1<<16, S, []int{55, 45}, []int{56}), split("q32p32", 16, S, ru.Rep(61, 32), ru.Rep(61, 32)), split("q40p36", 16, S, ru.Rep(45, 40), ru.Rep(50, 36)), split("q100p100", 16, S, ru.Rep(61, 100), ru.Rep(61, 100)))
	}
	return out
}

// factors of a modulus, at most 8 of them.
func factors(q []uint64) []*big.Int {
	if len(q) > 36 {
		q = append(append([]uint64{}, q[:4]...), q[len(q)-4:]...)
	}
	return alpha.Bigs(q)
}

// match finds one admissible integer that explains all residues.
func match(cands []*big.Int, got func(i int) uint64, mods []uint64) bool {
	for _, c := range cands {
		ok := true
		for i, m := range mods {
			if got(i)%m != ref.Residue(c, m) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func run(c *h.Ctx) {
	for _, s := range systems(c.Thorough) {
		s := s
		for lq := range s.q {
			lq := lq
			if !ru.Few(lq, len(s.q), c.Thorough) {
				continue
			}
			c.Case("modup", fmt.Sprintf("modup/%s/lq=%d", s.name, lq), func(t *h.T) { modup(t, s, lq) })
			c.Case("moddown", fmt.Sprintf("moddown/%s/lq=%d", s.name, lq), func(t *h.T) { moddown(t, s, lq) })
			c.Case("digits", fmt.Sprintf("digits/%s/lq=%d", s.name, lq), func(t *h.T) { digits(t, s, lq) })
		}
	}
	ex := [][2][]uint64{{{97}, {193}}, {{97, 193}, {257}}, {{97}, {193, 257}}}
	for _, e := range ex {
		e := e
		Q := ref.Prod(e[0]).Uint64()
		P := ref.Prod(e[1]).Uint64()
		c.Case("exhaustive-modup", fmt.Sprintf("ex-modup/%v/%v", e[0], e[1]), func(t *h.T) { exModUp(t, e[0], e[1]) })
		if Q*P < 100000 || c.Thorough {
			parts := uint64(16)
			for k := uint64(0); k < parts; k++ {
				k := k
				c.Case("exhaustive-moddown", fmt.Sprintf("ex-moddown/%v/%v/%d", e[0], e[1], k), func(t *h.T) { exModDown(t, e[0], e[1], Q*P*k/parts, Q*P*(k+1)/parts) })
			}
		}
	}
}

func rings(t *h.T, s sys) (*ring.Ring, *ring.Ring) {
	return ru.RingSpec{s.name, s.n, s.ty, s.q}.New(t), ru.RingSpec{s.name, s.n, s.ty, s.p}.New(t)
}

// fillRep writes residues; rep 1 adds q to some limbs (values in [0,2q)).
func fillRep(p *ring.Poly, q []uint64, v []*big.Int, rep int) {
	for i := range p.Coeffs {
		for j := range v {
			x := ref.Residue(v[j], q[i])
			if rep == 1 && (i+j)%2 == 0 {
				x += q[i]
			}
			p.Coeffs[i][j] = x
		}
	}
}

func modup(t *h.T, s sys, lq int) {
	rq, rp := rings(t, s)
	be := ring.NewBasisExtender(rq, rp)
	bes := map[string]*ring.BasisExtender{"orig": be, "copy": be.ShallowCopy()}
	for _, dir := range []string{"QtoP", "PtoQ"} {
		from, to := s.q, s.p
		lf := lq
		if dir == "PtoQ" {
			from, to = s.p, s.q
			if lq >= len(from) {
				continue
			}
		}
		M := ref.Prod(from[:lf+1])
		facs := factors(from[:lf+1])
		vals := alpha.Alphabet(M, facs, 16, s.name)
		for ch, v := range alpha.Chunks(vals, s.n) {
			for lt := range to {
				if !ru.Few(lt, len(to), false) {
					continue
				}
				for who, be := range bes {
					for rep := 0; rep < 2; rep++ {
						a := ring.NewPoly(s.n, lf+1)
						fillRep(a, from, v, rep)
						if ch%2 == 1 { // operand with more limbs than the level
							a.Coeffs = append(a.Coeffs, ru.Junk(s.n, 0, "x").Coeffs[0])
						}
						was := ru.Clone(a.Coeffs)
						b := ru.Junk(s.n, len(to)-1, "modup")
						bw := ru.Clone(b.Coeffs)
						if dir == "QtoP" {
							be.ModUpQtoP(lf, lt, a, b)
						} else {
							be.ModUpPtoQ(lf, lt, a, b)
						}
						t.Eval(1)
						for j, x := range v {
							if !match(alpha.Lifts(x, M), func(i int) uint64 { return b.Coeffs[i][j] }, to[:lt+1]) {
								t.Fail("modup/"+dir, "%s ModUp%s level %d->%d (%s, rep %d) of %s: limb 0 is %d want %d", s.name, dir, lf, lt, who, rep, x, b.Coeffs[0][j]%to[0], ref.Residue(x, to[0]))
								return
							}
						}
						for i := lt + 1; i < len(to); i++ {
							if fmt.Sprint(b.Coeffs[i]) != fmt.Sprint(bw[i]) {
								t.Fail("modup-upper/"+dir, "%s ModUp%s level %d->%d writes limb %d", s.name, dir, lf, lt, i)
							}
						}
						if ok, d := ru.Same(a.Coeffs, was); !ok {
							t.Fail("modup-operand/"+dir, "%s ModUp%s modifies its operand: %s", s.name, dir, d)
						}
					}
				}
				t.State(s.name, dir, lf, lt, ch)
			}
		}
	}
}

// quotients admissible for x / D where x in [0, D*K).
func quotients(x, D *big.Int) []*big.Int {
	f := new(big.Int)
	m := new(big.Int)
	f.DivMod(x, D, m)
	out := []*big.Int{f, new(big.Int).Add(f, big.NewInt(1))}
	if lo, _ := alpha.Near(m, D); lo {
		out = append(out, new(big.Int).Sub(f, big.NewInt(1)))
	}
	if m.Sign() == 0 {
		out = out[:1]
	}
	return out
}

func moddown(t *h.T, s sys, lq int) {
	rq, rp := rings(t, s)
	be := ring.NewBasisExtender(rq, rp)
	cp := be.ShallowCopy()
	for lp := range s.p {
		if !ru.Few(lp, len(s.p), false) {
			continue
		}
		Q, P := ref.Prod(s.q[:lq+1]), ref.Prod(s.p[:lp+1])
		QP := new(big.Int).Mul(Q, P)
		facs := append([]*big.Int{P, Q}, factors(s.q[:lq+1])...)
		vals := alpha.Alphabet(QP, facs, 16, s.name)
		for _, v := range alpha.Chunks(vals, s.n) {
			for _, mode := range []string{"QPtoQ", "QPtoQNTT", "QPtoP"} {
				for alias := 0; alias < 2; alias++ {
					for rep := 0; rep < 2; rep++ {
						e := be
						if alias == 1 {
							e = cp
						}
						a, b := ru.Junk(s.n, len(s.q)-1, "a"), ru.Junk(s.n, len(s.p)-1, "b")
						aq, bp := &ring.Poly{Coeffs: a.Coeffs[:lq+1]}, &ring.Poly{Coeffs: b.Coeffs[:lp+1]}
						fillRep(aq, s.q, v, 0)
						fillRep(bp, s.p, v, 0)
						if mode == "QPtoQNTT" {
							rq.NTTLvl(lq, a, a)
							rp.NTTLvl(lp, b, b)
						}
						if rep == 1 { // values in [0,2q)
							for i := range aq.Coeffs {
								for j := range aq.Coeffs[i] {
									aq.Coeffs[i][j] += s.q[i] * uint64((i+j)%2)
								}
							}
							for i := range bp.Coeffs {
								for j := range bp.Coeffs[i] {
									bp.Coeffs[i][j] += s.p[i] * uint64((i+j+1)%2)
								}
							}
						}
						wa, wb := ru.Clone(a.Coeffs), ru.Clone(b.Coeffs)
						var out *ring.Poly
						target, l, D := s.q, lq, P
						switch mode {
						case "QPtoP":
							target, l, D = s.p, lp, Q
							out = b
							if alias == 0 {
								out = ru.Junk(s.n, len(s.p)-1, "o")
							}
						default:
							out = a
							if alias == 0 {
								out = ru.Junk(s.n, len(s.q)-1, "o")
							}
						}
						wo := ru.Clone(out.Coeffs)
						switch mode {
						case "QPtoQ":
							e.ModDownQPtoQ(lq, lp, a, b, out)
						case "QPtoQNTT":
							e.ModDownQPtoQNTT(lq, lp, a, b, out)
						case "QPtoP":
							e.ModDownQPtoP(lq, lp, a, b, out)
						}
						t.Eval(1)
						for i := 0; i <= l; i++ {
							for j, x := range out.Coeffs[i] {
								if x >= target[i] {
									t.Fail("moddown-range/"+mode, "%s %s lq=%d lp=%d limb %d coefficient %d = %d not reduced", s.name, mode, lq, lp, i, j, x)
									return
								}
							}
						}
						for i := l + 1; i < len(out.Coeffs); i++ {
							if fmt.Sprint(out.Coeffs[i]) != fmt.Sprint(wo[i]) {
								t.Fail("moddown-upper/"+mode, "%s %s lq=%d lp=%d writes limb %d", s.name, mode, lq, lp, i)
							}
						}
						if a != out {
							if ok, d := ru.Same(a.Coeffs, wa); !ok {
								t.Fail("moddown-operand/"+mode, "%s %s modifies its Q operand: %s", s.name, mode, d)
							}
						}
						if b != out {
							if ok, d := ru.Same(b.Coeffs, wb); !ok {
								t.Fail("moddown-operand/"+mode, "%s %s modifies its P operand: %s", s.name, mode, d)
							}
						}
						if mode == "QPtoQNTT" {
							rq.InvNTTLvl(lq, out, out)
						}
						for j, x := range v {
							if !match(quotients(x, D), func(i int) uint64 { return out.Coeffs[i][j] }, target[:l+1]) {
								t.Fail("moddown/"+mode, "%s ModDown%s lq=%d lp=%d alias %d rep %d of %s: limb 0 is %d, quotient %s", s.name, mode, lq, lp, alias, rep, x, out.Coeffs[0][j], new(big.Int).Div(x, D))
								return
							}
						}
						t.State(s.name, mode, lq, lp)
					}
				}
			}
		}
	}
}

func digits(t *h.T, s sys, lq int) {
	rq, rp := rings(t, s)
	d := ring.NewDecomposer(rq, rp)
	Q := ref.Prod(s.q[:lq+1])
	for lp := range s.p {
		if len(s.p) > 36 && !ru.Few(lp, len(s.p), false) {
			continue
		}
		al := lp + 1
		var groups []*big.Int
		for st := 0; st <= lq; st += al {
			e := st + al
			if e > lq+1 {
				e = lq + 1
			}
			groups = append(groups, ref.Prod(s.q[st:e]))
		}
		facs := append([]*big.Int{}, groups...)
		facs = append(facs, factors(s.q[:lq+1])...)
		for _, v := range alpha.Chunks(alpha.Alphabet(Q, facs, 16, s.name), s.n) {
			sum := make([]*big.Int, s.n)
			for j := range sum {
				sum[j] = new(big.Int)
			}
			a := ru.Junk(s.n, len(s.q)-1, "a")
			fillRep(&ring.Poly{Coeffs: a.Coeffs[:lq+1]}, s.q, v, 0)
			was := ru.Clone(a.Coeffs)
			for b, g := range groups {
				oq, op := ru.Junk(s.n, len(s.q)-1, "oq"), ru.Junk(s.n, len(s.p)-1, "op")
				wq, wp := ru.Clone(oq.Coeffs), ru.Clone(op.Coeffs)
				d.DecomposeAndSplit(lq, lp, al, b, a, oq, op)
				t.Eval(1)
				mods := append(append([]uint64{}, s.q[:lq+1]...), s.p[:lp+1]...)
				cof := new(big.Int).Div(Q, g)
				e := new(big.Int).ModInverse(new(big.Int).Mod(cof, g), g)
				if e == nil {
					e = big.NewInt(0)
				}
				e.Mul(e, cof)
				for j, x := range v {
					xi := new(big.Int).Mod(x, g)
					if !match(alpha.Lifts(xi, g), func(i int) uint64 {
						if i <= lq {
							return oq.Coeffs[i][j]
						}
						return op.Coeffs[i-lq-1][j]
					}, mods) {
						t.Fail("digit", "%s level %d/%d digit %d of %s is not %s", s.name, lq, lp, b, x, xi)
						return
					}
					// recombine from the residues the digit itself carries on the P limbs and first Q limb
					sum[j].Add(sum[j], new(big.Int).Mul(xi, e))
				}
				for i := lq + 1; i < len(s.q); i++ {
					if fmt.Sprint(oq.Coeffs[i]) != fmt.Sprint(wq[i]) {
						t.Fail("digit-upper", "%s level %d/%d digit %d writes Q limb %d", s.name, lq, lp, b, i)
					}
				}
				for i := lp + 1; i < len(s.p); i++ {
					if fmt.Sprint(op.Coeffs[i]) != fmt.Sprint(wp[i]) {
						t.Fail("digit-upper", "%s level %d/%d digit %d writes P limb %d", s.name, lq, lp, b, i)
					}
				}
				t.State(s.name, lq, lp, b)
			}
			if ok, df := ru.Same(a.Coeffs, was); !ok {
				t.Fail("digit-operand", "%s DecomposeAndSplit modifies its operand: %s", s.name, df)
			}
			for j, x := range v {
				if sum[j].Mod(sum[j], Q).Cmp(x) != 0 {
					panic("reference digits do not recombine")
				}
			}
		}
	}
}

// exhaustive over every value for tiny moduli
func exModUp(t *h.T, q, p []uint64) {
	s := sys{"ex", 16, ring.Standard, q, p}
	rq, rp := rings(t, s)
	be := ring.NewBasisExtender(rq, rp)
	Q := ref.Prod(q).Uint64()
	a, b := ring.NewPoly(16, len(q)), ring.NewPoly(16, len(p))
	for x := uint64(0); x < Q; x += 16 {
		for j := uint64(0); j < 16; j++ {
			for i := range q {
				a.Coeffs[i][j] = (x + j) % Q % q[i]
			}
		}
		be.ModUpQtoP(len(q)-1, len(p)-1, a, b)
		t.Eval(1)
		for j := uint64(0); j < 16; j++ {
			for i := range p {
				if b.Coeffs[i][j]%p[i] != (x+j)%Q%p[i] {
					t.Fail("modup/exhaustive", "%v->%v of %d limb %d: %d", q, p, (x+j)%Q, i, b.Coeffs[i][j])
					return
				}
			}
		}
		t.State("ex", q, p, x)
	}
}

func exModDown(t *h.T, q, p []uint64, from, to uint64) {
	s := sys{"ex", 16, ring.Standard, q, p}
	rq, rp := rings(t, s)
	be := ring.NewBasisExtender(rq, rp)
	Q, P := ref.Prod(q).Uint64(), ref.Prod(p).Uint64()
	a, b, o, o2 := ring.NewPoly(16, len(q)), ring.NewPoly(16, len(p)), ring.NewPoly(16, len(q)), ring.NewPoly(16, len(p))
	for x := from; x < to; x += 16 {
		for j := uint64(0); j < 16; j++ {
			v := (x + j) % (Q * P)
			for i := range q {
				a.Coeffs[i][j] = v % q[i]
			}
			for i := range p {
				b.Coeffs[i][j] = v % p[i]
			}
		}
		be.ModDownQPtoQ(len(q)-1, len(p)-1, a, b, o)
		be.ModDownQPtoP(len(q)-1, len(p)-1, a, b, o2)
		t.Eval(2)
		for j := uint64(0); j < 16; j++ {
			v := (x + j) % (Q * P)
			ok := false
			for d := uint64(0); d < 2; d++ {
				m := true
				for i := range q {
					m = m && o.Coeffs[i][j] == (v/P+d)%q[i]
				}
				ok = ok || m && (d == 0 || v%P != 0)
			}
			ok2 := false
			for d := uint64(0); d < 2; d++ {
				m := true
				for i := range p {
					m = m && o2.Coeffs[i][j] == (v/Q+d)%p[i]
				}
				ok2 = ok2 || m && (d == 0 || v%Q != 0)
			}
			if !ok {
				t.Fail("moddown/exhaustive", "QPtoQ %v/%v of %d: %d", q, p, v, o.Coeffs[0][j])
				return
			}
			if !ok2 {
				t.Fail("moddown/exhaustiveP", "QPtoP %v/%v of %d: %d", q, p, v, o2.Coeffs[0][j])
				return
			}
		}
	}
	t.State("ex", q, p, from)
}

func main() {
	h.Main(h.Info{
		ID: "C04", Level: "exploration",
		Rule:        "for every modulus system, every pair of levels (source, target, auxiliary), direction, domain, aliasing pattern and input representation, and every value of a boundary alphabet (around 0, Q/2, Q, multiples and cofactors of every prime and digit modulus, powers of two, dense filler), the residues are compared with exact big-integer CRT arithmetic; for tiny moduli every value of the joint basis is enumerated. A result may differ by one multiple of the source modulus only where the value lies within 2^-40 of its boundary; a quotient must be the floor or the ceiling. Non-trivial: distinct (system, operation, levels, value chunk).",
		Bounds:      "N=16/32 (and 8192, 2^17 with few primes; thorough 256, 2^14, 2^16), 1..32 source primes of 7..61 bits, and 70 (thorough 100) source and 68 (100) target primes at selected levels, all levels, all digit sizes up to the number of auxiliary primes",
		Assumptions: []string{"at most 100 primes (the limit of the parameter sets)", "inputs in [0,2q)"},
	}, run)
}
