// C13: the fast key switch equals the reference gadget key switch.
package main

import (
	"fmt"
	"math/big"

	"fast-ksw/frlwe"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"verifharness/alpha"
	"verifharness/h"
	"verifharness/pu"
	"verifharness/ref"
	"verifharness/ru"
)

type spec struct {
	name    string
	logN    int
	q, p, t []uint64
	gamma   int
	hw      int
	sigma   float64
	deep    bool // histories
}

// mk chooses the shortest chain of auxiliary primes of the given size satisfying the size condition
// 2*beta*N*max(digit modulus)*max(block modulus) < T.
func mk(logN int, qs, ps []int, gamma, tbits int, sigma float64) (s spec) {
	m := ru.Mixed(pu.M0(logN, ring.Standard), append(append([]int{}, qs...), ps...)...)
	s = spec{logN: logN, q: m[:len(qs)], p: m[len(qs):], gamma: gamma, sigma: sigma, hw: 1 << uint(logN-1)}
	al := len(ps)
	s.t = pu.TChain(logN, s.q, s.p, gamma, tbits)
	s.name = fmt.Sprintf("q%dp%dg%dt%dx%d", len(qs), al, gamma, len(s.t), tbits)
	return
}

// mkT is mk with an auxiliary chain of unequal primes: the sizes given, then as many 61-bit primes as needed.
func mkT(logN int, qs, ps []int, gamma int, lead []int, last bool) (s spec) {
	s = mk(logN, qs, ps, gamma, 61, 3.2)
	m := pu.M0(logN, ring.Standard)
	l := ru.Mixed(m, lead...)
	if last {
		s.t = append(append([]uint64{}, s.t...), l...)
	} else {
		s.t = append(append([]uint64{}, l...), s.t...)
	}
	s.name += fmt.Sprint("lead", lead, last)
	return
}

func specs(th bool) (o []spec) {
	add := func(tag string, deep bool, s spec) {
		s.name = tag + "-" + s.name
		s.deep = deep
		o = append(o, s)
	}
	for g := 1; g <= 5; g++ {
		add("a", g <= 3, mk(4, []int{36, 30, 35, 40}, []int{41}, g, 55, 3.2))
	}
	for g := 1; g <= 7; g++ {
		add("b", g == 3, mk(4, []int{36, 33, 35, 40, 34}, []int{41, 42}, g, 60, 3.2))
	}
	for _, g := range []int{2, 3, 4} {
		add("c", g == 3, mk(5, []int{45, 30, 50, 45, 30, 61, 33}, []int{61, 55, 50}, g, 61, 3.2))
	}
	add("d", false, mk(4, []int{40, 41}, []int{42, 40, 41}, 2, 58, 3.2))
	add("e", false, mk(4, []int{40}, []int{41}, 1, 50, 3.2))
	add("e", false, mk(4, []int{40}, []int{41}, 2, 50, 3.2))
	add("long", false, mk(4, ru.Rep(61, 13), []int{61}, 2, 61, 3.2))
	add("long", false, mk(4, ru.Rep(60, 21), []int{60, 60}, 3, 61, 3.2))
	add("default15", false, mk(4, ru.Rep(36, 23), []int{36}, 3, 60, 3.2))
	add("default16", false, mk(4, ru.Rep(36, 47), []int{36}, 5, 60, 3.2))
	add("test", false, mk(4, ru.Rep(45, 18), ru.Rep(46, 2), 2, 55, 3.2))
	// auxiliary primes smaller than the moduli
	add("small-t", false, mk(4, []int{55, 50, 61}, []int{61}, 2, 40, 3.2))
	add("small-t", false, mk(4, []int{55, 50, 61, 50}, []int{61, 60}, 2, 36, 3.2))
	// auxiliary primes of unequal sizes around long digit sums
	add("unequal-t", false, mkT(4, ru.Rep(40, 20), []int{40}, 1, []int{50}, false))
	add("unequal-t", false, mkT(4, ru.Rep(61, 17), []int{61}, 2, []int{40, 33}, false))
	add("unequal-t", false, mkT(4, ru.Rep(50, 18), []int{51}, 3, []int{30, 45}, true))
	add("noiseless", false, mk(4, []int{36, 30, 35, 40}, []int{41}, 3, 55, 0))
	add("noiseless", false, mk(4, []int{36, 33, 35, 40, 34}, []int{41, 42}, 3, 60, 0))
	add("loud", false, mk(4, []int{40, 40, 40}, []int{52}, 2, 60, 100))
	add("n4096", false, mk(12, ru.Rep(36, 5), []int{36}, 2, 60, 3.2))
	// many auxiliary primes per digit, with full, short and single last digits
	add("wide", false, mk(4, ru.Rep(40, 9), ru.Rep(41, 4), 3, 60, 3.2))
	add("wide", false, mk(4, ru.Rep(36, 10), []int{37, 40, 37, 40, 37}, 4, 60, 3.2))
	add("wide", false, mk(4, []int{45, 30, 50, 45, 30, 61, 33, 36}, ru.Rep(61, 6), 5, 61, 3.2))
	add("wide", false, mk(4, ru.Rep(36, 17), ru.Rep(37, 8), 8, 60, 3.2))
	// more than 32 moduli in a digit, in a block, in the auxiliary chain, and as many digits
	add("many", false, mk(4, ru.Rep(61, 35), ru.Rep(61, 34), 2, 61, 3.2))
	add("many", false, mk(4, ru.Rep(40, 38), []int{41, 42}, 36, 61, 3.2))
	add("many", false, mk(4, ru.Rep(61, 99), []int{61}, 3, 61, 3.2))
	if th {
		add("many", false, mk(4, ru.Rep(61, 70), ru.Rep(61, 66), 3, 61, 3.2))
		add("many", false, mk(4, ru.Rep(61, 40), []int{61}, 41, 61, 3.2))
		add("many", false, mk(4, ru.Rep(36, 66), ru.Rep(37, 33), 33, 36, 3.2))
		for np := 1; np <= 6; np++ {
			for _, g := range []int{1, 2, 3, 4, 6, 9} {
				add("grid", false, mk(4, []int{45, 30, 50, 45, 30, 61, 33, 36, 40, 52, 37}, []int{61, 55, 50, 48, 60, 61}[:np], g, 59, 3.2))
			}
		}
		add("n256", false, mk(8, ru.Rep(36, 23), []int{36}, 3, 60, 3.2))
		add("n1024", false, mk(10, ru.Rep(36, 12), []int{36, 36}, 3, 60, 3.2))
		add("n64", false, mk(6, []int{61, 61, 61, 61, 61, 61}, []int{61, 61, 61}, 4, 61, 3.2))
	}
	return
}

func (s spec) New() frlwe.Parameters {
	return frlwe.NewParametersFromLiteral(frlwe.ParametersLiteral{LogN: s.logN, Q: s.q, P: s.p, T: s.t, Sigma: s.sigma, H: s.hw, Gamma: s.gamma})
}

type env struct {
	t          *h.T
	s          spec
	P          frlwe.Parameters
	kg         *frlwe.KeyGenerator
	rq, rp, rt *ring.Ring
	al         int
}

func newEnv(t *h.T, s spec) *env {
	P := s.New()
	return &env{t, s, P, frlwe.NewKeyGenerator(P), P.RingQ(), P.RingP(), P.RingT(), len(s.p)}
}

// open reads a fast key part back into plain residues modulo QP in the transformed domain.
func (e *env) open(name string, row []*ring.Poly) (q, p [][]uint64) {
	N := e.rq.N
	R := append(append([]uint64{}, e.s.p...), e.s.q...)
	all := make([][]uint64, len(R))
	blocks := (len(R) + e.s.gamma - 1) / e.s.gamma
	e.t.Check(len(row) == blocks, "key/blocks", "%s: %d blocks, want %d", name, len(row), blocks)
	for b := 0; b < blocks; b++ {
		st, ed := b*e.s.gamma, (b+1)*e.s.gamma
		if ed > len(R) {
			ed = len(R)
		}
		ok, m := pu.Reduced(row[b], e.s.t)
		e.t.Check(ok, "key/reduced", "%s block %d: %s", name, b, m)
		v := pu.Coef(e.rt, pu.Plain(row[b], e.s.t))
		Rm := ref.Prod(R[st:ed])
		lim := new(big.Int).Lsh(Rm, 1)
		for j, x := range v {
			e.t.Check(x.CmpAbs(lim) <= 0, "key/size", "%s block %d coefficient %d is %s, beyond its modulus %s", name, b, j, x, Rm)
		}
		for i := st; i < ed; i++ {
			all[i] = make([]uint64, N)
			for j := range v {
				all[i][j] = ref.Residue(v[j], R[i])
			}
		}
	}
	toNTT := func(r *ring.Ring, c [][]uint64) [][]uint64 {
		x := &ring.Poly{Coeffs: c}
		r.NTTLvl(len(c)-1, x, x)
		return c
	}
	return toNTT(e.rq, all[e.al:]), toNTT(e.rp, all[:e.al])
}

// keyErr opens a fast key and checks that it is a gadget encryption of in under out.
func (e *env) keyErr(name string, k0, k1 *frlwe.SwitchingKey, in, outQ, outP [][]uint64) (errs [][]*big.Int) {
	t := e.t
	beta := (len(e.s.q) + e.al - 1) / e.al
	t.Check(len(k0.Value) == beta && len(k1.Value) == beta, "key/rows", "%s: %d,%d rows, want %d", name, len(k0.Value), len(k1.Value), beta)
	Pm := ref.Prod(e.s.p)
	B := big.NewInt(pu.B(e.P.Parameters))
	for i := 0; i < beta; i++ {
		bq, bp := e.open(name, k0.Value[i])
		aq, ap := e.open(name, k1.Value[i])
		for l, q := range e.s.q {
			pm := ref.Residue(Pm, q)
			for j := range bq[l] {
				v := ref.AddMod(bq[l][j], ref.MulMod(aq[l][j], outQ[l][j], q), q)
				if l/e.al == i {
					v = ref.SubMod(v, ref.MulMod(pm, in[l][j], q), q)
				}
				bq[l][j] = v
			}
		}
		for l, q := range e.s.p {
			for j := range bp[l] {
				bp[l][j] = ref.AddMod(bp[l][j], ref.MulMod(ap[l][j], outP[l][j], q), q)
			}
		}
		eq, ep := pu.Coef(e.rq, bq), pu.Coef(e.rp, bp)
		for j := range eq {
			t.Check(eq[j].CmpAbs(B) <= 0, "key/error", "%s: row %d error coefficient %d is %s, bound %s", name, i, j, eq[j], B)
			t.Check(eq[j].Cmp(ep[j]) == 0, "key/error-limbs", "%s: row %d error coefficient %d is %s modulo Q and %s modulo P", name, i, j, eq[j], ep[j])
		}
		errs = append(errs, eq)
	}
	t.Eval(1)
	return
}

func (e *env) bound(errs [][]*big.Int, lq int, s1 *big.Int) *big.Int {
	o := new(big.Int)
	for i := 0; i*e.al <= lq; i++ {
		ed := (i + 1) * e.al
		if ed > lq+1 {
			ed = lq + 1
		}
		D := ref.Prod(e.s.q[i*e.al : ed])
		o.Add(o, D.Mul(D, pu.Norm1(errs[i])))
	}
	o.Lsh(o, 1) // a digit next to its boundary may be off by one multiple of its modulus
	o.Div(o, ref.Prod(e.s.p))
	o.Add(o, big.NewInt(2))
	return o.Add(o, s1)
}

func fill(p *ring.Poly, q []uint64, pat int, tag string) {
	if pat < ru.NPat {
		ru.Fill(p, q, pat, tag)
		return
	}
	Q := ref.Prod(q[:len(p.Coeffs)])
	a := alpha.Alphabet(Q, alpha.Bigs(q[:len(p.Coeffs)]), 4, tag)
	rng := h.NewRng(tag)
	v := make([]*big.Int, len(p.Coeffs[0]))
	for j := range v {
		v[j] = a[rng.U64()%uint64(len(a))]
	}
	ru.FillInt(p, q, v)
}

type key struct {
	name       string
	k0, k1     *frlwe.SwitchingKey
	errs       [][]*big.Int
	in, oq, op [][]uint64
	s1         *big.Int
}

func nttOf(r *ring.Ring, v []*big.Int) [][]uint64 {
	p := ring.NewPoly(r.N, len(r.Modulus))
	ru.FillInt(p, r.Modulus, v)
	r.NTT(p, p)
	return p.Coeffs
}

func galois(s []*big.Int, g uint64) []*big.Int {
	n := uint64(len(s))
	o := make([]*big.Int, n)
	for i := range s {
		x := uint64(i) * g % (2 * n)
		if x >= n {
			o[x-n] = new(big.Int).Neg(s[i])
		} else {
			o[x] = new(big.Int).Set(s[i])
		}
	}
	return o
}

func pow(b, k, m uint64) uint64 {
	r := uint64(1)
	for ; k > 0; k-- {
		r = r * b % m
	}
	return r
}

func (e *env) relin(sk *rlwe.SecretKey, s []*big.Int) key {
	rlk := e.kg.GenRelinKey(sk)
	oq, op := nttOf(e.rq, s), nttOf(e.rp, s)
	in := ru.Clone(oq)
	for l, q := range e.s.q {
		for j := range in[l] {
			in[l][j] = ref.MulMod(oq[l][j], oq[l][j], q)
		}
	}
	return key{"relin", rlk.Value[0], rlk.Value[1], e.keyErr("relin", rlk.Value[0], rlk.Value[1], in, oq, op), in, oq, op, pu.Norm1(s)}
}

// rot builds the key of a rotation by r (to the left): the target is the secret under the inverse automorphism.
func (e *env) rot(sk *rlwe.SecretKey, s []*big.Int, r int) key {
	rtk := e.kg.GenRotKey(r, sk)
	n := e.rq.N
	M := uint64(2 * n)
	pos := ((r % (n / 2)) + n/2) % (n / 2)
	e.t.Check(((int(rtk.Rotidx)%(n/2))+n/2)%(n/2) == pos, "key/rotidx", "rotation by %d is recorded as %d", r, int(rtk.Rotidx))
	gi := pow(5, uint64((n/2-pos)%(n/2)), M)
	si := galois(s, gi)
	in, oq, op := nttOf(e.rq, s), nttOf(e.rq, si), nttOf(e.rp, si)
	nm := fmt.Sprint("rotation ", r)
	return key{nm, rtk.Value[0], rtk.Value[1], e.keyErr(nm, rtk.Value[0], rtk.Value[1], in, oq, op), in, oq, op, pu.Norm1(s)}
}

// one runs a key switch on a fresh operand and checks the result.
func (e *env) one(ks *frlwe.KeySwitcher, k key, lq, pat int) {
	t := e.t
	N := e.rq.N
	a := ring.NewPoly(N, lq+1)
	fill(a, e.s.q, pat, fmt.Sprint(e.s.name, lq))
	was := a.CopyNew()
	L := len(e.s.q) - 1
	// receivers of the full and of the current level
	l0, l1 := L, L
	if pat&1 != 0 {
		l0 = lq
	}
	if pat&2 != 0 {
		l1 = lq
	}
	c0, c1 := ru.Junk(N, l0, "c0"), ru.Junk(N, l1, "c1")
	ks.SwitchKey(lq, a, k.k0, k.k1, c0, c1)
	what := fmt.Sprintf("%s %s level %d pattern %d", e.s.name, k.name, lq, pat)
	ok, m := ru.Same(a.Coeffs, was.Coeffs)
	t.Check(ok, "switch/operand", "%s: the operand changes: %s", what, m)
	for i, c := range []*ring.Poly{c0, c1} {
		ok, m := pu.Reduced(&ring.Poly{Coeffs: c.Coeffs[:lq+1]}, e.s.q)
		t.Check(ok, "switch/reduced", "%s part %d: %s", what, i, m)
	}
	x := pu.NTT(e.rq, a, false, lq)
	for l := range x {
		for j := range x[l] {
			x[l][j] = ref.MulMod(x[l][j], k.in[l][j], e.s.q[l])
		}
	}
	d := pu.MaxAbs(pu.Err(pu.Phase(e.rq, []*ring.Poly{c0, c1}, false, lq, k.oq), pu.Coef(e.rq, x), ref.Prod(e.s.q[:lq+1])))
	E := e.bound(k.errs, lq, k.s1)
	t.Check(d.Cmp(E) <= 0, "switch/noise", "%s: error %s, bound %s", what, d, E)
	t.Eval(1)
	t.State(e.s.name, k.name, lq, pat, c0.Coeffs[:lq+1])
}

func levels(L int, th bool) (o []int) {
	for l := 0; l <= L; l++ {
		if L > 30 && !ru.Few(l, L+1, th) {
			continue
		}
		if !th && L > 8 && l > 3 && l < L-2 && l%5 != 0 {
			continue
		}
		o = append(o, l)
	}
	return
}

func switches(t *h.T, s spec, kind string, r int, th bool) {
	e := newEnv(t, s)
	sk := e.kg.GenSecretKey()
	hk := pu.QPHash(sk.Value)
	sv := pu.Secret(t, e.P.Parameters, sk)
	ks := frlwe.NewKeySwitcher(e.P)
	var k key
	if kind == "relin" {
		k = e.relin(sk, sv)
	} else {
		k = e.rot(sk, sv, r)
	}
	t.Check(pu.QPHash(sk.Value) == hk, "keygen/operand", "key generation modifies the secret")
	for _, lq := range levels(len(s.q)-1, th) {
		for pat := 0; pat <= ru.NPat; pat++ {
			e.one(ks, k, lq, pat)
		}
		a := ring.NewPoly(e.rq.N, lq+1)
		a.IsNTT = true
		t.Check(h.Panics(func() { ks.SwitchKey(lq, a, k.k0, k.k1, ring.NewPoly(e.rq.N, lq+1), ring.NewPoly(e.rq.N, lq+1)) }) != nil, "switch/domain", "a transformed operand is accepted")
	}
}

// dense uses the secret of greatest norm.
func dense(t *h.T, s spec) {
	e := newEnv(t, s)
	v := make([]*big.Int, e.rq.N)
	for i := range v {
		v[i] = big.NewInt(1)
	}
	sk := pu.SpecialSecret(e.P.Parameters, v)
	ks := frlwe.NewKeySwitcher(e.P)
	k := e.relin(sk, v)
	for _, lq := range levels(len(s.q)-1, true) {
		for pat := 0; pat <= ru.NPat; pat++ {
			e.one(ks, k, lq, pat)
		}
	}
}

// keys: every key of one generator, generated in every order, opens to a correct key with its own mask.
func keys(t *h.T, s spec) {
	e := newEnv(t, s)
	sk, pk := e.kg.GenKeyPair()
	pk2 := e.kg.GenPublicKey(sk)
	t.Check(pk != nil && pk2 != nil && !pk.Equals(pk2), "keys/fresh", "two public keys are equal")
	sk2 := e.kg.GenSecretKey()
	t.Check(pu.QPHash(sk.Value) != pu.QPHash(sk2.Value), "keys/fresh", "two secrets are equal")
	sv := pu.Secret(t, e.P.Parameters, sk)
	w := 0
	for _, x := range sv {
		if x.Sign() != 0 {
			w++
		}
	}
	t.Check(w == s.hw, "keys/weight", "the secret has weight %d, want %d", w, s.hw)
	seen := map[uint64]bool{}
	for i := 0; i < 3; i++ {
		for _, k := range []key{e.relin(sk, sv), e.rot(sk, sv, i), e.rot(sk, sv, -i)} {
			x := pu.PolyHash(k.k1.Value[0]...)
			t.Check(!seen[x], "keys/mask", "two keys share their mask")
			seen[x] = true
		}
	}
	t.State(s.name, seen)
}

// histories: the result of a key switch does not depend on the earlier uses of the key switcher.
func histories(t *h.T, s spec, first int, th bool) {
	e := newEnv(t, s)
	sk := e.kg.GenSecretKey()
	sv := pu.Secret(t, e.P.Parameters, sk)
	ksw := []key{e.relin(sk, sv), e.rot(sk, sv, 1)}
	N, L := e.rq.N, len(s.q)-1
	type op struct{ k, lq, pat int }
	var ops []op
	lv := []int{0, L / 2, L}
	for k := range ksw {
		for i, lq := range lv {
			if i > 0 && lq == lv[i-1] {
				continue
			}
			for _, p := range []int{ru.PatMax, ru.PatDense} {
				ops = append(ops, op{k, lq, p})
			}
		}
	}
	run := func(ks *frlwe.KeySwitcher, o op) uint64 {
		a, c0, c1 := ring.NewPoly(N, o.lq+1), ring.NewPoly(N, o.lq+1), ring.NewPoly(N, o.lq+1)
		fill(a, s.q, o.pat, "hist")
		ks.SwitchKey(o.lq, a, ksw[o.k].k0, ksw[o.k].k1, c0, c1)
		return pu.PolyHash(c0, c1)
	}
	want := make([]uint64, len(ops))
	for i, o := range ops {
		want[i] = run(frlwe.NewKeySwitcher(e.P), o)
	}
	depth := 3
	if th {
		depth = 4
	}
	var rec func(h []int)
	rec = func(h []int) {
		if len(h) == depth {
			ks := frlwe.NewKeySwitcher(e.P)
			for n, i := range h {
				got := run(ks, ops[i])
				t.Trans(1)
				t.Check(got == want[i], "history", "%s: operation %+v gives another result after %v", s.name, ops[i], h[:n])
			}
			t.Trace(1)
			t.State(s.name, h)
			return
		}
		for i := range ops {
			rec(append(h[:len(h):len(h)], i))
		}
	}
	if first < len(ops) {
		rec([]int{first})
	}
}

func run(c *h.Ctx) {
	for _, s := range specs(c.Thorough) {
		s := s
		c.Case("keys", "keys/"+s.name, func(t *h.T) { keys(t, s) })
		c.Case("relin", "relin/"+s.name, func(t *h.T) { switches(t, s, "relin", 0, c.Thorough) })
		c.Case("dense", "dense/"+s.name, func(t *h.T) { dense(t, s) })
		n := 1 << uint(s.logN)
		for r := -n; r <= n; r++ {
			if len(s.q) > 32 && s.gamma != 3 && r != 1 {
				continue
			}
			if (s.logN > 4 || len(s.q) > 8) && r != 1 && r != -1 && r != n/2-1 && r != -n/2 {
				continue
			}
			r := r
			c.Case("rotation", fmt.Sprintf("rotation/%s/%d", s.name, r), func(t *h.T) { switches(t, s, "rotation", r, c.Thorough) })
		}
		if s.deep {
			for f := 0; f < 12; f++ {
				f := f
				c.Case("history", fmt.Sprintf("history/%s/%d", s.name, f), func(t *h.T) { histories(t, s, f, c.Thorough) })
			}
		}
	}
}

func main() {
	h.Main(h.Info{ID: "C13", Level: "model_checking",
		Rule:          "every fast key is read back to residues modulo QP and must be an exact gadget encryption with errors inside the sampler's support; every fast key switch is compared with the exact product under the worst-case bound computed from the actual key errors; all histories of key switches of the given depth on one key switcher give step by step the results of a fresh one",
		Bounds:        "40 (thorough 82) layouts: degree 16/32/4096, 1-47 primes, 1-8 auxiliary primes, block sizes 1-9, chains of up to 100 primes with 34 (66) per digit, 36 (41) per block, 43 big primes, at selected levels, shortest chain of 36- to 61-bit big primes satisfying 2*beta*N*digit*block < T; every level, 8 operand patterns, every rotation in [-N,N] for degree 16; histories of depth 3 (thorough 4) over 12 operations on 5 layouts",
		Assumptions:   []string{"the transforms are those decided by C03", "randomness is a fixed keyed stream per case; the bounds asserted hold for every stream"},
		QuickDeadline: 200, ThoroughDeadline: 850}, run)
}
