// C11: key switching re-encrypts the same message under the target key.
package main

import (
	"fmt"
	"math/big"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"verifharness/alpha"
	"verifharness/h"
	"verifharness/pu"
	"verifharness/ref"
	"verifharness/ru"
)

func specs(th bool) (o []pu.Spec) {
	S, CI := ring.Standard, ring.ConjugateInvariant
	add := func(name string, logN int, q, p []int, hw int, sigma float64, tp ring.Type) {
		m := ru.Mixed(pu.M0(logN, tp), append(append([]int{}, q...), p...)...)
		o = append(o, pu.Spec{Name: name, LogN: logN, Q: m[:len(q)], P: m[len(q):], H: hw, Sigma: sigma, T: tp})
	}
	add("q4p1", 4, []int{40, 30, 35, 45}, []int{46}, 8, 3.2, S)
	add("q5p2", 4, []int{40, 33, 38, 45, 36}, []int{47, 46}, 8, 3.2, S)
	add("q5p3", 5, []int{55, 50, 30, 45, 61}, []int{61, 60, 59}, 16, 3.2, S)
	add("q3p3", 4, []int{40, 41, 42}, []int{50, 50, 50}, 8, 3.2, S)
	add("q2p4", 4, []int{40, 41}, []int{36, 37, 38, 39}, 8, 3.2, S)
	add("q1p1", 4, []int{40}, []int{41}, 5, 3.2, S)
	add("q20p1-61", 4, ru.Rep(61, 20), []int{61}, 16, 3.2, S)
	add("q17p2-61", 4, ru.Rep(61, 17), []int{61, 61}, 16, 3.2, S)
	add("q24p1-mix", 4, append(ru.Rep(31, 22), 61, 60), []int{61}, 16, 3.2, S)
	add("q22small-p61", 4, ru.Rep(32, 22), []int{61}, 16, 3.2, S)
	add("q18-61-p2", 4, ru.Rep(61, 20), []int{40, 61}, 16, 3.2, S)
	add("q20up-p1", 4, append([]int{30}, ru.Rep(61, 19)...), []int{61}, 16, 3.2, S)
	add("q18up-p2up", 4, append([]int{20, 33}, ru.Rep(61, 20)...), []int{30, 61}, 16, 3.2, S)
	add("q19-61-psmall", 4, ru.Rep(61, 19), []int{36, 37}, 16, 0, S)
	add("ci-q4p2", 4, []int{40, 45, 35, 44}, []int{47, 46}, 8, 3.2, CI)
	add("ci-q5p1", 5, []int{40, 40, 35, 44, 61}, []int{61}, 20, 3.2, CI)
	add("noiseless", 4, []int{40, 33, 38, 45}, []int{47, 46}, 8, 0, S)
	add("noiseless-ci", 4, []int{40, 33, 38}, []int{47}, 8, 0, CI)
	add("loud", 4, []int{40, 40, 40}, []int{50}, 16, 100, S)
	add("n4096", 12, []int{45, 36, 44}, []int{46}, 2048, 3.2, S)
	add("n2048ci", 11, []int{45, 36, 44}, []int{46, 45}, 1024, 3.2, CI)
	if th {
		add("q40p1-60", 4, ru.Rep(60, 40), []int{60}, 16, 3.2, S)
		add("q32p5", 4, ru.Rep(58, 32), ru.Rep(60, 5), 16, 3.2, S)
		add("q33p4-61", 4, ru.Rep(61, 33), ru.Rep(61, 4), 16, 3.2, S)
		add("n256q8p3", 8, ru.Rep(45, 8), ru.Rep(50, 3), 128, 3.2, S)
		add("n128-ci", 7, ru.Rep(45, 7), ru.Rep(50, 2), 64, 3.2, CI)
		add("n64q7p4", 6, []int{30, 61, 31, 60, 32, 59, 33}, []int{61, 60, 59, 58}, 64, 3.2, S)
	}
	return
}

// wide are chains of more than 32 moduli.
func wide(th bool) (o []pu.Spec) {
	add := func(name string, q, p []int) {
		m := ru.Mixed(32, append(append([]int{}, q...), p...)...)
		o = append(o, pu.Spec{Name: name, LogN: 4, Q: m[:len(q)], P: m[len(q):], H: 8, Sigma: 3.2, T: ring.Standard})
	}
	add("q34p33", ru.Rep(61, 34), ru.Rep(61, 33))
	add("q100p1", ru.Rep(61, 100), ru.Rep(61, 1))
	add("q66p65", ru.Rep(61, 66), ru.Rep(61, 65))
	if th {
		add("q100p40", ru.Rep(50, 100), ru.Rep(55, 40))
		add("q100p100", ru.Rep(61, 100), ru.Rep(61, 100))
		add("q40p70", ru.Rep(61, 40), ru.Rep(36, 70))
	}
	return
}

type env struct {
	t      *h.T
	P      rlwe.Parameters
	kg     rlwe.KeyGenerator
	ks     *rlwe.KeySwitcher
	rq, rp *ring.Ring
	q, p   []uint64
	f      int64
}

func newEnv(t *h.T, sp pu.Spec) *env {
	P := sp.New(t)
	return &env{t, P, rlwe.NewKeyGenerator(P), rlwe.NewKeySwitcher(P), P.RingQ(), P.RingP(), P.Q(), P.P(), pu.Factor(sp.T)}
}

// plainQP is a key polynomial taken out of the Montgomery form, pointwise.
func (e *env) plainQP(p rlwe.PolyQP) (q, pp [][]uint64) {
	return pu.Plain(p.Q, e.q), pu.Plain(p.P, e.p)
}

// keyErr checks that swk is a gadget encryption of in under out and returns the error polynomials.
// in and out are pointwise values over Q and P (in on Q only).
func (e *env) keyErr(name string, swk *rlwe.SwitchingKey, in, outQ, outP [][]uint64, lq, lp int) (errs [][]*big.Int) {
	t := e.t
	al := lp + 1
	beta := (lq + al) / al
	t.Check(len(swk.Value) == beta, "key/rows", "%s: %d rows, want %d", name, len(swk.Value), beta)
	Pm := ref.Prod(e.p[:al])
	seen := map[uint64]bool{}
	for i := range swk.Value {
		for k := 0; k < 2; k++ {
			v := swk.Value[i][k]
			t.Check(len(v.Q.Coeffs) == lq+1 && len(v.P.Coeffs) == al, "key/level", "%s: row %d has %d and %d limbs, want %d and %d", name, i, len(v.Q.Coeffs), len(v.P.Coeffs), lq+1, al)
			ok, m := pu.Reduced(v.Q, e.q)
			t.Check(ok, "key/reduced", "%s row %d: %s", name, i, m)
			ok, m = pu.Reduced(v.P, e.p)
			t.Check(ok, "key/reduced", "%s row %d: %s", name, i, m)
		}
		x := pu.QPHash(swk.Value[i][1])
		t.Check(!seen[x], "key/mask", "%s: two rows share their mask", name)
		seen[x] = true
		bq, bp := e.plainQP(swk.Value[i][0])
		aq, ap := e.plainQP(swk.Value[i][1])
		for l := 0; l <= lq; l++ {
			q := e.q[l]
			pm := ref.Residue(Pm, q)
			for j := range bq[l] {
				v := ref.AddMod(bq[l][j], ref.MulMod(aq[l][j], outQ[l][j], q), q)
				if l/al == i {
					v = ref.SubMod(v, ref.MulMod(pm, in[l][j], q), q)
				}
				bq[l][j] = v
			}
		}
		for l := range bp {
			q := e.p[l]
			for j := range bp[l] {
				bp[l][j] = ref.AddMod(bp[l][j], ref.MulMod(ap[l][j], outP[l][j], q), q)
			}
		}
		eq, ep := pu.Coef(e.rq, bq), pu.Coef(e.rp, bp)
		for j := range eq {
			t.Check(eq[j].CmpAbs(big.NewInt(pu.B(e.P))) <= 0, "key/error", "%s: row %d error coefficient %d is %s, bound %d", name, i, j, eq[j], pu.B(e.P))
			t.Check(eq[j].Cmp(ep[j]) == 0, "key/error-limbs", "%s: row %d error coefficient %d is %s modulo Q and %s modulo P", name, i, j, eq[j], ep[j])
		}
		if pu.B(e.P) > 1 {
			t.Check(pu.Norm1(eq).Sign() > 0, "key/noiseless", "%s: row %d has no error", name, i)
		}
		errs = append(errs, eq)
	}
	return
}

// bound is the worst-case noise of a switched polynomial: sum_i |d_i|_inf |e_i|_1, before the division by P.
func (e *env) bound(errs [][]*big.Int, lq, lp int) *big.Int {
	al := lp + 1
	o := new(big.Int)
	for i := 0; i*al <= lq; i++ {
		ed := (i + 1) * al
		if ed > lq+1 {
			ed = lq + 1
		}
		D := ref.Prod(e.q[i*al : ed])
		o.Add(o, D.Mul(D, pu.Norm1(errs[i])))
	}
	return o.Mul(o, big.NewInt(2*e.f)) // a digit next to its boundary may be off by one multiple of its modulus
}

// apply runs every route of the key switch of cx and checks all of them; expected is cx*in pointwise modulo the level.
func (e *env) apply(name string, ks *rlwe.KeySwitcher, swk *rlwe.SwitchingKey, errs [][]*big.Int, in, outQ, outP [][]uint64, s1 *big.Int, lq, lp int, ntt bool, pat int) {
	t := e.t
	N := e.rq.N
	cx := ring.NewPoly(N, lq+1)
	fill(cx, e.q, pat, fmt.Sprint(name, lq, lp, ntt))
	cx.IsNTT = ntt
	was := cx.CopyNew()
	L := e.P.MaxLevel()
	junk := func(tag string) *ring.Poly { return ru.Junk(N, L, tag+name) }
	junkP := func(tag string) *ring.Poly { return ru.Junk(N, len(e.p)-1, tag+name) }
	what := fmt.Sprintf("%s level %d/%d ntt=%v pattern %d", name, lq, lp, ntt, pat)
	E := e.bound(errs, lq, lp)
	Pm := ref.Prod(e.p[:lp+1])
	cxv := pu.NTT(e.rq, cx, ntt, lq)
	mul := func(a, b [][]uint64) [][]uint64 {
		o := make([][]uint64, lq+1)
		for l := range o {
			o[l] = make([]uint64, N)
			for j := range o[l] {
				o[l][j] = ref.MulMod(a[l][j], b[l][j], e.q[l])
			}
		}
		return o
	}
	want := mul(cxv, in)
	wantI := pu.Coef(e.rq, want)
	QL := ref.Prod(e.q[:lq+1])

	// delayed division
	nomod := func(route string, q0, p0, q1, p1 *ring.Poly) {
		for i, x := range []*ring.Poly{q0, q1} {
			ok, m := pu.Reduced(&ring.Poly{Coeffs: x.Coeffs[:lq+1]}, e.q)
			t.Check(ok, "switch/"+route+"/reduced", "%s part %d: %s", what, i, m)
		}
		for i, x := range []*ring.Poly{p0, p1} {
			ok, m := pu.Reduced(&ring.Poly{Coeffs: x.Coeffs[:lp+1]}, e.p)
			t.Check(ok, "switch/"+route+"/reduced", "%s part %d: %s", what, i, m)
		}
		vq := pu.PhaseNTT(e.rq, []*ring.Poly{q0, q1}, true, lq, outQ)
		vp := pu.PhaseNTT(e.rp, []*ring.Poly{p0, p1}, true, lp, outP)
		for l := range vq {
			pm := ref.Residue(Pm, e.q[l])
			for j := range vq[l] {
				vq[l][j] = ref.SubMod(vq[l][j], ref.MulMod(pm, want[l][j], e.q[l]), e.q[l])
			}
		}
		all := append(coefLimbs(e.rq, vq), coefLimbs(e.rp, vp)...)
		d := ref.CRTCentered(all, append(append([]uint64{}, e.q[:lq+1]...), e.p[:lp+1]...))
		m := pu.MaxAbs(d)
		t.Check(m.Cmp(E) <= 0, "switch/"+route+"/noise", "%s: error before the division %s, bound %s", what, m, E)
	}
	// bound after the division: noise, plus one unit of rounding per part
	Eq := new(big.Int).Div(E, Pm)
	Eq.Add(Eq, big.NewInt(2))
	Eq.Add(Eq, new(big.Int).Mul(s1, big.NewInt(e.f)))
	done := func(route string, r0, r1 *ring.Poly, isNTT bool) {
		for i, x := range []*ring.Poly{r0, r1} {
			ok, m := pu.Reduced(&ring.Poly{Coeffs: x.Coeffs[:lq+1]}, e.q)
			t.Check(ok, "switch/"+route+"/reduced", "%s part %d: %s", what, i, m)
		}
		d := pu.MaxAbs(pu.Err(pu.Phase(e.rq, []*ring.Poly{r0, r1}, isNTT, lq, outQ), wantI, QL))
		t.Check(d.Cmp(Eq) <= 0, "switch/"+route+"/noise", "%s: error %s, bound %s", what, d, Eq)
	}
	unit := func(route string, a, b *ring.Poly, aN, bN bool) {
		d := pu.MaxAbs(pu.Err(pu.Ints(e.rq, a, aN, lq), pu.Ints(e.rq, b, bN, lq), QL))
		t.Check(d.Cmp(big.NewInt(1)) <= 0, "switch/"+route+"/agree", "%s: the routes differ by %s", what, d)
	}
	eq := func(route string, a, b *ring.Poly, mod []uint64, l int) {
		ok, m := ru.Cong(a.Coeffs[:l+1], b.Coeffs[:l+1], mod, l)
		t.Check(ok, "switch/"+route+"/agree", "%s: %s", what, m)
	}

	p0, p1 := junk("a"), junk("b")
	ks.SwitchKeysInPlace(lq, cx, swk, p0, p1)
	done("inplace", p0, p1, ntt)

	q0, q1, pp0, pp1 := junk("c"), junk("d"), junkP("e"), junkP("f")
	ks.SwitchKeysInPlaceNoModDown(lq, cx, swk, q0, pp0, q1, pp1)
	nomod("nomoddown", q0, pp0, q1, pp1)

	al := lp + 1
	beta := (lq + al) / al
	dec := make([]rlwe.PolyQP, beta)
	for i := range dec {
		dec[i] = rlwe.PolyQP{Q: junk(fmt.Sprint("g", i)), P: junkP(fmt.Sprint("h", i))}
	}
	if al == len(e.p) {
		dec = ks.PoolDecompQP
	}
	ks.DecomposeNTT(lq, lp, al, cx, dec)
	hq0, hq1, hp0, hp1 := junk("i"), junk("j"), junkP("k"), junkP("l")
	ks.KeyswitchHoistedNoModDown(lq, dec, swk, hq0, hq1, hp0, hp1)
	nomod("hoisted-nomoddown", hq0, hp0, hq1, hp1)
	eq("hoisted-nomoddown", q0, hq0, e.q, lq)
	eq("hoisted-nomoddown", q1, hq1, e.q, lq)
	eq("hoisted-nomoddown", pp0, hp0, e.p, lp)
	eq("hoisted-nomoddown", pp1, hp1, e.p, lp)
	g0, g1, gp0, gp1 := junk("m"), junk("n"), junkP("o"), junkP("p")
	ks.KeyswitchHoisted(lq, dec, swk, g0, g1, gp0, gp1)
	done("hoisted", g0, g1, true)
	unit("hoisted", g0, p0, true, ntt)
	unit("hoisted", g1, p1, true, ntt)
	// delayed division by hand
	be := ring.NewBasisExtender(e.rq, e.rp)
	be.ModDownQPtoQNTT(lq, lp, q0, pp0, q0)
	be.ModDownQPtoQNTT(lq, lp, q1, pp1, q1)
	done("delayed", q0, q1, true)
	unit("delayed", q0, p0, true, ntt)
	unit("delayed", q1, p1, true, ntt)
	ok, m := ru.Same(cx.Coeffs, was.Coeffs)
	t.Check(ok && cx.IsNTT == ntt, "switch/operand", "%s: the operand changes: %s", what, m)
	t.Eval(5)
	t.State(name, lq, lp, ntt, pat, p0.Coeffs[:lq+1])
}

func coefLimbs(r *ring.Ring, v [][]uint64) [][]uint64 {
	c := ring.NewPoly(r.N, len(v))
	for i := range v {
		copy(c.Coeffs[i], v[i])
	}
	r.InvNTTLvl(len(v)-1, c, c)
	return c.Coeffs
}

const nPat = ru.NPat + 1

// fill writes a pattern; the last one packs the boundary values of the digits into one polynomial.
func fill(p *ring.Poly, q []uint64, pat int, tag string) {
	if pat < ru.NPat {
		ru.Fill(p, q, pat, tag)
		return
	}
	Q := ref.Prod(q[:len(p.Coeffs)])
	a := alpha.Alphabet(Q, alpha.Bigs(q[:len(p.Coeffs)]), 4, tag)
	rng := h.NewRng(tag)
	v := make([]*big.Int, len(p.Coeffs[0]))
	for j := range v {
		v[j] = a[rng.U64()%uint64(len(a))]
	}
	ru.FillInt(p, q, v)
}

func ones(n int, alt bool) (o []*big.Int) {
	for i := 0; i < n; i++ {
		v := int64(1)
		if alt && i%2 == 1 {
			v = -1
		}
		o = append(o, big.NewInt(v))
	}
	return
}

func trunc(sk *rlwe.SecretKey, lq, lp int) *rlwe.SecretKey {
	return &rlwe.SecretKey{Value: rlwe.PolyQP{Q: &ring.Poly{Coeffs: sk.Value.Q.Coeffs[:lq+1]}, P: &ring.Poly{Coeffs: sk.Value.P.Coeffs[:lp+1]}}}
}

func patterns(th bool, lq, L int) (o []int) {
	for p := 0; p < nPat; p++ {
		o = append(o, p)
	}
	if !th && L > 6 && lq%4 != 3 && lq != L {
		return []int{ru.PatMax, ru.PatDense}
	}
	return
}

// between switches between two secrets at every level pair.
func between(t *h.T, sp pu.Spec, keyLq, lp, inLq int, special, th bool) {
	e := newEnv(t, sp)
	a, b := e.kg.GenSecretKey(), e.kg.GenSecretKey()
	if special {
		a, b = pu.SpecialSecret(e.P, ones(e.rq.N, true)), pu.SpecialSecret(e.P, ones(e.rq.N, false))
	}
	ha, hb := pu.QPHash(a.Value), pu.QPHash(b.Value)
	swk := e.kg.GenSwitchingKey(trunc(a, inLq, lp), trunc(b, keyLq, lp))
	t.Check(pu.QPHash(a.Value) == ha && pu.QPHash(b.Value) == hb, "keygen/operand", "GenSwitchingKey modifies a secret")
	in := pu.Plain(a.Value.Q, e.q)
	oq, op := e.plainQP(b.Value)
	errs := e.keyErr("switch", swk, in, oq, op, keyLq, lp)
	s1 := pu.Norm1(pu.Secret(t, e.P, b))
	for lq := 0; lq <= keyLq; lq++ {
		for _, ntt := range []bool{true, false} {
			if len(e.q) > 32 && !th && !ru.Few(lq, len(e.q), false) {
				continue
			}
			for _, pat := range patterns(th, lq, len(e.q)-1) {
				e.apply(fmt.Sprintf("switch/%s", sp), e.ks, swk, errs, in, oq, op, s1, lq, lp, ntt, pat)
			}
		}
	}
}

// relin checks every power of a relinearization key and the whole relinearization of a ciphertext of each degree.
func relin(t *h.T, sp pu.Spec, deg int, th bool) {
	e := newEnv(t, sp)
	sk := e.kg.GenSecretKey()
	hk := pu.QPHash(sk.Value)
	rlk := e.kg.GenRelinearizationKey(sk, deg)
	t.Check(pu.QPHash(sk.Value) == hk, "keygen/operand", "GenRelinearizationKey modifies the secret")
	t.Check(len(rlk.Keys) == deg, "relin/keys", "%d keys, want %d", len(rlk.Keys), deg)
	oq, op := e.plainQP(sk.Value)
	s1 := pu.Norm1(pu.Secret(t, e.P, sk))
	L, lp := len(e.q)-1, len(e.p)-1
	pow := oq
	var errs [][][]*big.Int
	var pows [][][]uint64
	for d := 0; d < deg; d++ {
		n := make([][]uint64, L+1)
		for l := range n {
			n[l] = make([]uint64, e.rq.N)
			for j := range n[l] {
				n[l][j] = ref.MulMod(pow[l][j], oq[l][j], e.q[l])
			}
		}
		pow = n
		pows = append(pows, n)
		errs = append(errs, e.keyErr(fmt.Sprintf("relin power %d", d+2), rlk.Keys[d], n, oq, op, L, lp))
		for _, lq := range []int{0, L / 2, L} {
			for _, ntt := range []bool{true, false} {
				e.apply(fmt.Sprintf("relin%d/%s", d+2, sp), e.ks, rlk.Keys[d], errs[d], n, oq, op, s1, lq, lp, ntt, nPat-1)
			}
		}
	}
	// whole relinearization from the top degree
	for lq := 0; lq <= L; lq++ {
		for _, ntt := range []bool{true, false} {
			ct := rlwe.NewCiphertext(e.P, deg+1, lq)
			for i := range ct.Value {
				fill(ct.Value[i], e.q, ru.PatDense, fmt.Sprint(i, lq))
				ct.Value[i].IsNTT = ntt
			}
			want := pu.Phase(e.rq, ct.Value, ntt, lq, oq)
			E := new(big.Int)
			x, y := ring.NewPoly(e.rq.N, lq+1), ring.NewPoly(e.rq.N, lq+1)
			for d := deg + 1; d >= 2; d-- {
				e.ks.SwitchKeysInPlace(lq, ct.Value[d], rlk.Keys[d-2], x, y)
				e.rq.AddLvl(lq, ct.Value[0], x, ct.Value[0])
				e.rq.AddLvl(lq, ct.Value[1], y, ct.Value[1])
				E.Add(E, new(big.Int).Div(e.bound(errs[d-2], lq, lp), ref.Prod(e.p)))
				E.Add(E, big.NewInt(2))
				E.Add(E, new(big.Int).Mul(s1, big.NewInt(e.f)))
			}
			d := pu.MaxAbs(pu.Err(pu.Phase(e.rq, ct.Value[:2], ntt, lq, oq), want, ref.Prod(e.q[:lq+1])))
			t.Check(d.Cmp(E) <= 0, "relin/noise", "%s degree %d level %d ntt=%v: error %s, bound %s", sp, deg+1, lq, ntt, d, E)
			t.Eval(1)
		}
	}
}

// galoisPlain is the value of phi(s) pointwise, from the integer coefficients of s.
func galois(s []*big.Int, g uint64) []*big.Int {
	n := uint64(len(s))
	o := make([]*big.Int, n)
	for i := range s {
		x := uint64(i) * g % (2 * n)
		if x >= n {
			o[x-n] = new(big.Int).Neg(s[i])
		} else {
			o[x] = new(big.Int).Set(s[i])
		}
	}
	return o
}

// galoisCI is the action on s(0) + sum s(i)(X^i + X^-i).
func galoisCI(s []*big.Int, g uint64) []*big.Int {
	n := uint64(len(s))
	o := make([]*big.Int, n)
	for i := range s {
		x := uint64(i) * g % (4 * n)
		sg := false
		// X^x + X^-x with X^2N = -1
		if x > 2*n {
			x = 4*n - x
		}
		if x > n {
			x, sg = 2*n-x, true
		}
		if x == n {
			panic("half degree")
		}
		o[x] = new(big.Int).Set(s[i])
		if sg {
			o[x].Neg(o[x])
		}
	}
	return o
}

func nttOf(r *ring.Ring, v []*big.Int) [][]uint64 {
	p := ring.NewPoly(r.N, len(r.Modulus))
	ru.FillInt(p, r.Modulus, v)
	r.NTT(p, p)
	return p.Coeffs
}

// rotation checks the key of one Galois element by every generator, and the rotation of a ciphertext with it.
func rotation(t *h.T, sp pu.Spec, g uint64, th bool) {
	e := newEnv(t, sp)
	sk := e.kg.GenSecretKey()
	s := pu.Secret(t, e.P, sk)
	act := galois
	M := uint64(2 * e.rq.N)
	if sp.T == ring.ConjugateInvariant {
		act = galoisCI
		M *= 2
	}
	var inv uint64
	for x := uint64(1); x < M; x += 2 {
		if x*(g%M)%M == 1 {
			inv = x
		}
	}
	in, inP := e.plainQP(sk.Value)
	_ = inP
	si := act(s, inv)
	oq, op := nttOf(e.rq, si), nttOf(e.rp, si)
	s1 := pu.Norm1(s)
	L, lp := len(e.q)-1, len(e.p)-1
	keys := map[string]*rlwe.SwitchingKey{"galois": e.kg.GenSwitchingKeyForGalois(g, sk)}
	set := e.kg.GenRotationKeys([]uint64{g}, sk)
	k, ok := set.GetRotationKey(g)
	t.Check(ok && k != nil && len(set.Keys) == 1, "rotation/set", "the set does not hold the key of %d", g)
	keys["set"] = k
	// rotation amounts for this element
	for r := -e.rq.N; r <= e.rq.N; r++ {
		if e.P.GaloisElementForColumnRotationBy(r) == g && len(keys) < 5 {
			keys[fmt.Sprint("by", r)] = e.kg.GenSwitchingKeyForRotationBy(r, sk)
			rs := e.kg.GenRotationKeysForRotations([]int{r}, false, sk)
			k, ok := rs.GetRotationKey(g)
			t.Check(ok, "rotation/set", "GenRotationKeysForRotations(%d) does not hold %d", r, g)
			keys[fmt.Sprint("rotations", r)] = k
		}
	}
	if sp.T == ring.Standard && g == e.P.GaloisElementForRowRotation() {
		keys["row"] = e.kg.GenSwitchingKeyForRowRotation(sk)
		rs := e.kg.GenRotationKeysForRotations(nil, true, sk)
		k, ok := rs.GetRotationKey(g)
		t.Check(ok, "rotation/set", "GenRotationKeysForRotations(conjugate) does not hold %d", g)
		keys["conj"] = k
	}
	for name, swk := range keys {
		errs := e.keyErr("rotation "+name, swk, in, oq, op, L, lp)
		for lq := 0; lq <= L; lq++ {
			for _, ntt := range []bool{true, false} {
				ct := rlwe.NewCiphertext(e.P, 1, lq)
				for i := range ct.Value {
					fill(ct.Value[i], e.q, ru.PatDense, fmt.Sprint(i, lq, g))
					ct.Value[i].IsNTT = ntt
				}
				want := act(pu.Phase(e.rq, ct.Value, ntt, lq, in), g)
				x, y := ring.NewPoly(e.rq.N, lq+1), ring.NewPoly(e.rq.N, lq+1)
				e.ks.SwitchKeysInPlace(lq, ct.Value[1], swk, x, y)
				e.rq.AddLvl(lq, ct.Value[0], x, ct.Value[0])
				o := rlwe.NewCiphertext(e.P, 1, lq)
				if ntt {
					e.rq.PermuteNTTLvl(lq, ct.Value[0], g, o.Value[0])
					e.rq.PermuteNTTLvl(lq, y, g, o.Value[1])
				} else {
					if sp.T == ring.ConjugateInvariant {
						// only the transformed domain has an automorphism in this ring
						e.rq.NTTLvl(lq, ct.Value[0], ct.Value[0])
						e.rq.NTTLvl(lq, y, y)
						e.rq.PermuteNTTLvl(lq, ct.Value[0], g, o.Value[0])
						e.rq.PermuteNTTLvl(lq, y, g, o.Value[1])
					} else {
						a := e.P.RingQ()
						x0, x1 := ring.NewPoly(a.N, L+1), ring.NewPoly(a.N, L+1)
						y0, y1 := ring.NewPoly(a.N, L+1), ring.NewPoly(a.N, L+1)
						for l := 0; l <= lq; l++ {
							copy(x0.Coeffs[l], ct.Value[0].Coeffs[l])
							copy(x1.Coeffs[l], y.Coeffs[l])
						}
						a.Permute(x0, g, y0)
						a.Permute(x1, g, y1)
						o.Value[0].Coeffs, o.Value[1].Coeffs = y0.Coeffs[:lq+1], y1.Coeffs[:lq+1]
					}
				}
				E := new(big.Int).Div(e.bound(errs, lq, lp), ref.Prod(e.p))
				E.Add(E, big.NewInt(2))
				E.Add(E, new(big.Int).Mul(s1, big.NewInt(e.f)))
				onNTT := ntt || sp.T == ring.ConjugateInvariant
				d := pu.MaxAbs(pu.Err(pu.Phase(e.rq, o.Value, onNTT, lq, in), want, ref.Prod(e.q[:lq+1])))
				t.Check(d.Cmp(E) <= 0, "rotation/noise", "%s element %d key %s level %d ntt=%v: error %s, bound %s", sp, g, name, lq, ntt, d, E)
				t.Eval(1)
			}
			if lq == L || lq == 0 || th {
				e.apply(fmt.Sprintf("rotation%d/%s", g, sp), e.ks, swk, errs, in, oq, op, s1, lq, lp, true, nPat-1)
			}
		}
	}
}

// sets checks the key sets generated for several elements at once.
func sets(t *h.T, sp pu.Spec) {
	e := newEnv(t, sp)
	sk := e.kg.GenSecretKey()
	s := pu.Secret(t, e.P, sk)
	act := galois
	if sp.T == ring.ConjugateInvariant {
		act = galoisCI
	}
	in, _ := e.plainQP(sk.Value)
	check := func(name string, set *rlwe.RotationKeySet, els []uint64) {
		want := map[uint64]bool{}
		for _, g := range els {
			want[g] = true
		}
		t.Check(len(set.Keys) == len(want), "sets/"+name, "%d keys, want %d", len(set.Keys), len(want))
		masks := map[uint64]bool{}
		for g := range want {
			k, ok := set.GetRotationKey(g)
			t.Check(ok, "sets/"+name, "no key for %d", g)
			si := act(s, e.P.InverseGaloisElement(g))
			e.keyErr(name, k, in, nttOf(e.rq, si), nttOf(e.rp, si), len(e.q)-1, len(e.p)-1)
			x := pu.QPHash(k.Value[0][1])
			t.Check(!masks[x], "sets/mask", "%s: two keys share their mask", name)
			masks[x] = true
			t.Eval(1)
		}
		t.State(name, sp.Name, els)
	}
	var els []uint64
	ks := []int{0, 1, -1, 2, 3, 5, e.rq.N / 2, -e.rq.N, 7 * e.rq.N, 1}
	for _, k := range ks {
		els = append(els, e.P.GaloisElementForColumnRotationBy(k))
	}
	check("rotations", e.kg.GenRotationKeysForRotations(ks, false, sk), els)
	check("elements", e.kg.GenRotationKeys(els, sk), els)
	if sp.T == ring.Standard {
		check("rotations+conj", e.kg.GenRotationKeysForRotations(ks, true, sk), append(els, e.P.GaloisElementForRowRotation()))
		check("innersum", e.kg.GenRotationKeysForInnerSum(sk), e.P.GaloisElementsForRowInnerSum())
	}
	check("none", e.kg.GenRotationKeys(nil, sk), nil)
}

// degrees switches between ring degrees in both directions.
func degrees(t *h.T, sp pu.Spec, logn, sq, spn int, small2large bool) {
	e := newEnv(t, sp)
	ss := sp
	ss.LogN, ss.Q, ss.P, ss.H = logn, sp.Q[:sq], sp.P[:spn], 1<<uint(logn)/2
	PS := ss.New(t)
	gap := 1 << uint(sp.LogN-logn)
	big_ := e.kg.GenSecretKey()
	small := rlwe.NewKeyGenerator(PS).GenSecretKey()
	sv := pu.Secret(t, PS, small)
	// the small secret in the large ring
	emb := make([]*big.Int, e.rq.N)
	for i := range emb {
		emb[i] = new(big.Int)
		if i%gap == 0 {
			emb[i].Set(sv[i/gap])
		}
	}
	in, _ := e.plainQP(big_.Value)
	embQ, embP := nttOf(e.rq, emb), nttOf(e.rp, emb)
	L, lp := len(e.q)-1, len(e.p)-1
	h1, h2 := pu.QPHash(big_.Value), pu.QPHash(small.Value)
	rs := PS.RingQ()
	if small2large {
		swk := e.kg.GenSwitchingKey(small, big_)
		oq, op := e.plainQP(big_.Value)
		s1 := pu.Norm1(pu.Secret(t, e.P, big_))
		errs := e.keyErr("small to large", swk, embQ, oq, op, L, lp)
		for lq := 0; lq <= L; lq++ {
			for _, ntt := range []bool{true, false} {
				for pat := 0; pat < nPat; pat++ {
					e.apply("small to large", e.ks, swk, errs, embQ, oq, op, s1, lq, lp, ntt, pat)
				}
			}
		}
		for lq := 0; lq < sq; lq++ {
			ct := rlwe.NewCiphertextNTT(PS, 1, lq)
			for i := range ct.Value {
				fill(ct.Value[i], e.q, ru.PatDense, fmt.Sprint(i))
			}
			want := make([]*big.Int, e.rq.N)
			ph := pu.Phase(rs, ct.Value, true, lq, pu.Plain(small.Value.Q, e.q))
			for i := range want {
				want[i] = new(big.Int)
				if i%gap == 0 {
					want[i].Set(ph[i/gap])
				}
			}
			ctL := rlwe.NewCiphertextNTT(e.P, 1, lq)
			rlwe.SwitchCiphertextRingDegreeNTT(ct, nil, nil, ctL)
			x, y := ring.NewPoly(e.rq.N, L+1), ring.NewPoly(e.rq.N, L+1)
			e.ks.SwitchKeysInPlace(lq, ctL.Value[1], swk, x, y)
			e.rq.AddLvl(lq, ctL.Value[0], x, x)
			E := new(big.Int).Div(e.bound(errs, lq, lp), ref.Prod(e.p))
			E.Add(E, new(big.Int).Add(big.NewInt(2), new(big.Int).Mul(s1, big.NewInt(e.f))))
			d := pu.MaxAbs(pu.Err(pu.Phase(e.rq, []*ring.Poly{x, y}, true, lq, oq), want, ref.Prod(e.q[:lq+1])))
			t.Check(d.Cmp(E) <= 0, "degree/up/noise", "%s from degree %d level %d: error %s, bound %s", sp, rs.N, lq, d, E)
			t.Eval(1)
		}
	} else {
		swk := e.kg.GenSwitchingKey(big_, small)
		s1 := pu.Norm1(sv)
		errs := e.keyErr("large to small", swk, in, embQ, embP, sq-1, spn-1)
		Pm := ref.Prod(e.p[:spn])
		for lq := 0; lq < sq; lq++ {
			for _, ntt := range []bool{true, false} {
				for pat := 0; pat < nPat; pat++ {
					e.apply("large to small", e.ks, swk, errs, in, embQ, embP, s1, lq, spn-1, ntt, pat)
				}
			}
			ct := rlwe.NewCiphertextNTT(e.P, 1, lq)
			for i := range ct.Value {
				fill(ct.Value[i], e.q, ru.PatDense, fmt.Sprint(i))
			}
			ph := pu.Phase(e.rq, ct.Value, true, lq, in)
			want := make([]*big.Int, rs.N)
			for i := range want {
				want[i] = ph[i*gap]
			}
			x, y := ring.NewPoly(e.rq.N, L+1), ring.NewPoly(e.rq.N, L+1)
			e.ks.SwitchKeysInPlace(lq, ct.Value[1], swk, x, y)
			e.rq.AddLvl(lq, ct.Value[0], x, x)
			ctL := rlwe.NewCiphertextNTT(e.P, 1, lq)
			for l := 0; l <= lq; l++ {
				copy(ctL.Value[0].Coeffs[l], x.Coeffs[l])
				copy(ctL.Value[1].Coeffs[l], y.Coeffs[l])
			}
			o := rlwe.NewCiphertextNTT(PS, 1, lq)
			rlwe.SwitchCiphertextRingDegreeNTT(ctL, rs, e.rq, o)
			E := new(big.Int).Div(e.bound(errs, lq, spn-1), Pm)
			E.Add(E, new(big.Int).Add(big.NewInt(2), new(big.Int).Mul(s1, big.NewInt(e.f))))
			d := pu.MaxAbs(pu.Err(pu.Phase(rs, o.Value, true, lq, pu.Plain(small.Value.Q, e.q)), want, ref.Prod(e.q[:lq+1])))
			t.Check(d.Cmp(E) <= 0, "degree/down/noise", "%s to degree %d level %d: error %s, bound %s", sp, rs.N, lq, d, E)
			t.Eval(1)
		}
	}
	t.Check(pu.QPHash(big_.Value) == h1 && pu.QPHash(small.Value) == h2, "keygen/operand", "GenSwitchingKey modifies a secret")
}

// ringswap switches between the conjugate-invariant ring and the standard ring of twice its degree.
func ringswap(t *h.T, sp pu.Spec) {
	e := newEnv(t, sp)
	ci := sp
	ci.LogN, ci.T, ci.H = sp.LogN-1, ring.ConjugateInvariant, sp.H/2
	PC := ci.New(t)
	std, sc := e.kg.GenSecretKey(), rlwe.NewKeyGenerator(PC).GenSecretKey()
	s := pu.Secret(t, PC, sc)
	n := len(s)
	emb := make([]*big.Int, 2*n)
	for i := range emb {
		emb[i] = new(big.Int)
	}
	for i := range s {
		emb[i].Set(s[i])
		if i > 0 {
			emb[2*n-i].Neg(s[i])
		}
	}
	oq, op := e.plainQP(std.Value)
	eq, ep := nttOf(e.rq, emb), nttOf(e.rp, emb)
	h1, h2 := pu.QPHash(std.Value), pu.QPHash(sc.Value)
	toCI, toStd := e.kg.GenSwitchingKeysForRingSwap(std, sc)
	t.Check(pu.QPHash(std.Value) == h1 && pu.QPHash(sc.Value) == h2, "keygen/operand", "GenSwitchingKeysForRingSwap modifies a secret")
	L, lp := len(e.q)-1, len(e.p)-1
	e1 := e.keyErr("standard to conjugate-invariant", toCI, oq, eq, ep, L, lp)
	e2 := e.keyErr("conjugate-invariant to standard", toStd, eq, oq, op, L, lp)
	// the same through the CKKS generator
	cp, err := ckks.NewParameters(e.P, sp.LogN-1, 1<<20)
	if err != nil {
		t.Fail("keygen/bridge", "%s: %v", sp, err)
		return
	}
	c2r, r2c := ckks.NewKeyGenerator(cp).GenSwitchingKeysForBridge(std, sc)
	e.keyErr("bridge: standard to conjugate-invariant", &c2r.SwitchingKey, oq, eq, ep, L, lp)
	e.keyErr("bridge: conjugate-invariant to standard", &r2c.SwitchingKey, eq, oq, op, L, lp)
	for lq := 0; lq <= L; lq++ {
		for pat := 0; pat < nPat; pat++ {
			e.apply("to-ci", e.ks, toCI, e1, oq, eq, ep, pu.Norm1(emb), lq, lp, true, pat)
			e.apply("to-std", e.ks, toStd, e2, eq, oq, op, pu.Norm1(pu.Secret(t, e.P, std)), lq, lp, true, pat)
		}
		// whole domain switch, standard to conjugate-invariant: the trace of the message
		ct := rlwe.NewCiphertextNTT(e.P, 1, lq)
		for i := range ct.Value {
			fill(ct.Value[i], e.q, ru.PatDense, fmt.Sprint(i, "rs"))
		}
		ph := pu.Phase(e.rq, ct.Value, true, lq, oq)
		want := make([]*big.Int, n)
		for i := range want {
			if i == 0 {
				want[i] = new(big.Int).Lsh(ph[0], 1)
			} else {
				want[i] = new(big.Int).Sub(ph[i], ph[2*n-i])
			}
		}
		x, y := ring.NewPoly(2*n, lq+1), ring.NewPoly(2*n, lq+1)
		e.ks.SwitchKeysInPlace(lq, ct.Value[1], toCI, x, y)
		e.rq.AddLvl(lq, ct.Value[0], x, x)
		o := rlwe.NewCiphertextNTT(PC, 1, lq)
		idx := e.rq.PermuteNTTIndex(uint64(4*n) - 1)
		PC.RingQ().FoldStandardToConjugateInvariant(lq, x, idx, o.Value[0])
		PC.RingQ().FoldStandardToConjugateInvariant(lq, y, idx, o.Value[1])
		E := new(big.Int).Div(e.bound(e1, lq, lp), ref.Prod(e.p))
		E.Add(E, new(big.Int).Add(big.NewInt(2), pu.Norm1(emb)))
		E.Lsh(E, 1)
		d := pu.MaxAbs(pu.Err(pu.Phase(PC.RingQ(), o.Value, true, lq, pu.Plain(sc.Value.Q, e.q)), want, ref.Prod(e.q[:lq+1])))
		t.Check(d.Cmp(E) <= 0, "ringswap/noise", "%s level %d: error %s, bound %s", sp, lq, d, E)
		t.Eval(1)
	}
}

func run(c *h.Ctx) {
	for _, sp := range wide(c.Thorough) {
		sp := sp
		for lp := range sp.P {
			if lp := lp; ru.Few(lp, len(sp.P), false) && (c.Thorough || lp >= len(sp.P)-2) {
				c.Case("wide", fmt.Sprintf("wide/%s/%d", sp, lp), func(t *h.T) { between(t, sp, len(sp.Q)-1, lp, len(sp.Q)-1, false, false) })
			}
		}
	}
	for _, sp := range specs(c.Thorough) {
		sp := sp
		L, lpm := len(sp.Q)-1, len(sp.P)-1
		for lp := 0; lp <= lpm; lp++ {
			for klq := 0; klq <= L; klq++ {
				if klq != L && (L > 6 && klq%7 != 2) {
					continue
				}
				lp, klq := lp, klq
				c.Case("switch", fmt.Sprintf("switch/%s/key=%d,%d", sp, klq, lp), func(t *h.T) { between(t, sp, klq, lp, L, false, c.Thorough) })
			}
			lp := lp
			c.Case("switch-dense", fmt.Sprintf("switch-dense/%s/key=%d,%d", sp, L, lp), func(t *h.T) { between(t, sp, L, lp, L, true, c.Thorough) })
			for in := 0; in < L; in++ {
				if in > 3 && in < L-1 {
					continue
				}
				in := in
				c.Case("switch-lower-input", fmt.Sprintf("switch-lower-input/%s/%d,%d", sp, in, lp), func(t *h.T) { between(t, sp, L, lp, in, in%2 == 1, false) })
			}
		}
		for deg := 1; deg <= 4; deg++ {
			deg := deg
			c.Case("relin", fmt.Sprintf("relin/%s/degree=%d", sp, deg), func(t *h.T) { relin(t, sp, deg, c.Thorough) })
		}
		M := uint64(2) << uint(sp.LogN)
		for g := uint64(1); g < M; g += 2 {
			if (L > 6 || sp.LogN > 5) && g > 9 && g < M-5 {
				continue
			}
			g := g
			if sp.T == ring.ConjugateInvariant && g >= M/2 {
				// elements are taken modulo 4N up to sign
				g = 4*(M/2) - (M - g)
			}
			if sp.T == ring.ConjugateInvariant && !isPow5(g, 2*M) {
				continue
			}
			c.Case("rotation", fmt.Sprintf("rotation/%s/%d", sp, g), func(t *h.T) { rotation(t, sp, g, c.Thorough) })
		}
		c.Case("sets", "sets/"+sp.Name, func(t *h.T) { sets(t, sp) })
		for ln := 4; ln < sp.LogN; ln++ {
			if sp.LogN > 8 && ln > 4 && ln < sp.LogN-1 {
				continue
			}
			for _, sq := range []int{1, 2, len(sp.Q)} {
				for spn := 1; spn <= len(sp.P); spn++ {
					ln, sq, spn := ln, sq, spn
					if sq > len(sp.Q) {
						continue
					}
					for _, up := range []bool{true, false} {
						up := up
						c.Case("degrees", fmt.Sprintf("degrees/%s/%d/q%dp%d/up=%v", sp, ln, sq, spn, up), func(t *h.T) { degrees(t, sp, ln, sq, spn, up) })
					}
				}
			}
		}
		if sp.T == ring.Standard && sp.LogN > 4 {
			c.Case("ringswap", "ringswap/"+sp.Name, func(t *h.T) { ringswap(t, sp) })
		}
	}
}

func isPow5(g, M uint64) bool {
	for x, i := uint64(1), uint64(0); i < M; i++ {
		if x == g {
			return true
		}
		x = x * 5 % M
	}
	return false
}

func main() {
	h.Main(h.Info{ID: "C11", Level: "exploration",
		Rule:          "every switching key produced by every generator is opened with the known secrets: each row must be the exact gadget encryption with an error inside the sampler's support, equal on all limbs; every route (in place, without division, hoisted, hoisted without division, delayed division) is run on every operand and compared with the exact product modulo QP and modulo Q under the worst-case bound computed from the actual key errors, and the routes with each other",
		Bounds:        "21 (thorough 27) parameter sets of degree 16/32 and 2048/4096, 1-20 (40) primes up to 61 bits, 1-5 auxiliary primes, and chains of 34+33, 66+65 and 100+1 (thorough 100+100) primes at selected levels, both ring types, noiseless to sigma=100; every ciphertext level, every auxiliary level, keys truncated to lower levels; 8 operand patterns in both domains; relinearisation of degree 2-5; every Galois element for degree 16; every smaller degree; both ring swaps",
		Assumptions:   []string{"the transforms are those decided by C03", "randomness is a fixed keyed stream per case; the bounds asserted hold for every stream"},
		QuickDeadline: 200, ThoroughDeadline: 850}, run)
}
