// C10: decryption inverts encryption within the noise bound.
package main

import (
	"fmt"
	"math/big"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"verifharness/h"
	"verifharness/pu"
	"verifharness/ref"
	"verifharness/ru"
)

func specs(th bool) (o []pu.Spec) {
	S, CI := ring.Standard, ring.ConjugateInvariant
	add := func(name string, logN int, sizes []int, np int, hw int, sigma float64, tp ring.Type) {
		m := ru.Mixed(pu.M0(logN, tp), sizes...)
		o = append(o, pu.Spec{Name: name, LogN: logN, Q: m[:len(m)-np], P: m[len(m)-np:], H: hw, Sigma: sigma, T: tp})
	}
	add("std", 4, []int{40, 30, 35, 45}, 1, 8, 3.2, S)
	add("std-noP", 4, []int{40, 30, 35}, 0, 8, 3.2, S)
	add("std-P2", 5, []int{61, 50, 61, 60, 61, 61}, 2, 32, 3.2, S)
	add("std-P3", 4, []int{30, 55, 33, 36, 40}, 3, 4, 3.2, S)
	add("ci", 4, []int{45, 35, 35, 45}, 1, 8, 3.2, CI)
	add("ci-noP", 4, []int{45, 35}, 0, 5, 3.2, CI)
	add("noiseless", 4, []int{40, 35, 45}, 1, 8, 0, S)
	add("noiseless-noP", 4, []int{40, 35}, 0, 8, 0, S)
	add("loud", 4, []int{40, 40, 40}, 1, 16, 100, S)
	add("one", 4, []int{36}, 0, 1, 3.2, S)
	add("one-P", 4, []int{36, 37}, 1, 1, 3.2, S)
	add("n4096", 12, []int{45, 36, 46}, 1, 2048, 3.2, S)
	add("n2048ci", 11, []int{45, 36, 46}, 1, 1024, 3.2, CI)
	add("many", 4, append(ru.Rep(55, 40), ru.Rep(61, 34)...), 34, 8, 3.2, S)
	add("many-noP", 4, ru.Rep(61, 100), 0, 8, 3.2, S)
	if th {
		add("n8192", 13, []int{55, 40, 40, 55}, 1, 4096, 3.2, S)
		add("n256", 8, []int{50, 40, 40, 51}, 1, 128, 3.2, S)
		add("n64ci", 6, []int{50, 40, 40, 51, 52}, 2, 64, 3.2, CI)
		add("long", 4, []int{61, 61, 61, 61, 61, 61, 61, 61, 61}, 1, 16, 3.2, S)
		add("n512-noP", 9, []int{50, 40}, 0, 200, 3.2, S)
	}
	return
}

func run(c *h.Ctx) {
	for _, sp := range specs(c.Thorough) {
		sp := sp
		c.Case("keys", "keys/"+sp.Name, func(t *h.T) { keys(t, sp) })
		for l := 0; l < len(sp.Q); l++ {
			if len(sp.Q) > 32 && (!ru.Few(l, len(sp.Q), false) || l == len(sp.Q)-2) {
				continue
			}
			for _, kind := range []string{"sk", "pk"} {
				for _, route := range []string{"direct", "shallow", "withkey", "withkey-other", "crp", "ckks"} {
					if route == "crp" && kind == "pk" || len(sp.Q) > 32 && !c.Thorough && route != "direct" && route != "crp" {
						continue
					}
					l, kind, route := l, kind, route
					c.Case("encrypt/"+kind+"/"+route, fmt.Sprintf("encrypt/%s/%s/%s/level=%d", sp, kind, route, l), func(t *h.T) { encrypt(t, sp, kind, route, l, c.Thorough) })
				}
			}
			for d := 0; d <= 9; d++ {
				d, l := d, l
				if len(sp.Q) > 32 && d > 2 {
					break
				}
				c.Case("decrypt", fmt.Sprintf("decrypt/%s/level=%d/degree=%d", sp, l, d), func(t *h.T) { decrypt(t, sp, l, d) })
			}
		}
		c.Case("misuse", "misuse/"+sp.Name, func(t *h.T) { misuse(t, sp) })
	}
}

func small(t *h.T, v []*big.Int, b int64, what string) {
	for j, x := range v {
		t.Check(x.CmpAbs(big.NewInt(b)) <= 0, "keys/bound", "%s: coefficient %d is %s, bound %d", what, j, x, b)
	}
}

func keys(t *h.T, sp pu.Spec) {
	P := sp.New(t)
	kg := rlwe.NewKeyGenerator(P)
	count := func(s []*big.Int) (n int) {
		for _, x := range s {
			if x.Sign() != 0 {
				n++
			}
		}
		return
	}
	checkPk := func(sk *rlwe.SecretKey, pk *rlwe.PublicKey) {
		rq := P.RingQ()
		lvl := P.MaxLevel()
		s := pu.Plain(sk.Value.Q, rq.Modulus)
		e := pu.Phase(rq, []*ring.Poly{pk.Value[0].Q, pk.Value[1].Q}, true, lvl, s)
		small(t, e, pu.B(P), "public key error")
		if sp.Sigma > 0 {
			t.Check(count(e) > 0, "keys/noiseless", "the public key has no error")
		}
		for i := range pk.Value {
			ok, m := pu.Reduced(pk.Value[i].Q, rq.Modulus)
			t.Check(ok, "keys/reduced", "pk: %s", m)
		}
		if P.PCount() > 0 {
			rp := P.RingP()
			sp_ := pu.Plain(sk.Value.P, rp.Modulus)
			ep := pu.Phase(rp, []*ring.Poly{pk.Value[0].P, pk.Value[1].P}, true, P.PCount()-1, sp_)
			for j := range e {
				t.Check(e[j].Cmp(ep[j]) == 0, "keys/pk-limbs", "error coefficient %d is %s modulo Q and %s modulo P", j, e[j], ep[j])
			}
		}
		t.Eval(1)
		t.State("pk", sp.Name, e)
	}
	seen := map[uint64]bool{}
	fresh := func(sk *rlwe.SecretKey) {
		x := pu.QPHash(sk.Value)
		t.Check(!seen[x], "keys/fresh", "the same secret is generated twice")
		seen[x] = true
		ok, m := pu.Reduced(sk.Value.Q, P.RingQ().Modulus)
		t.Check(ok, "keys/reduced", "sk: %s", m)
	}
	N := P.N()
	for k := 0; k < 6; k++ {
		sk := kg.GenSecretKey()
		s := pu.Secret(t, P, sk)
		small(t, s, 1, "secret")
		t.Check(count(s) == sp.H, "keys/weight", "GenSecretKey: weight %d, configured %d", count(s), sp.H)
		if N > 16 && sp.H > 4 {
			fresh(sk)
		}
		before := pu.QPHash(sk.Value)
		pk, pk2 := kg.GenPublicKey(sk), kg.GenPublicKey(sk)
		checkPk(sk, pk)
		checkPk(sk, pk2)
		t.Check(!pk.Equals(pk2), "keys/fresh", "two public keys are equal")
		t.Check(pu.QPHash(sk.Value) == before, "keys/operand", "GenPublicKey modifies the secret key")
		sk, pk = kg.GenKeyPair()
		s = pu.Secret(t, P, sk)
		t.Check(count(s) == sp.H, "keys/weight", "GenKeyPair: weight %d, configured %d", count(s), sp.H)
		small(t, s, 1, "secret")
		checkPk(sk, pk)
	}
	nz := 0
	for k := 0; k < 4; k++ {
		sk := kg.GenSecretKeyGaussian()
		s := pu.Secret(t, P, sk)
		small(t, s, pu.B(P), "Gaussian secret")
		nz += count(s)
		checkPk(sk, kg.GenPublicKey(sk))
	}
	t.Check((nz > 0) == (sp.Sigma > 0), "keys/gaussian", "%d non-zero coefficients with sigma %g", nz, sp.Sigma)
	for hw := 1; hw <= N; hw += 1 + N/64 {
		sk := kg.GenSecretKeyWithHammingWeight(hw)
		s := pu.Secret(t, P, sk)
		small(t, s, 1, "secret")
		t.Check(count(s) == hw, "keys/weight", "weight %d, requested %d", count(s), hw)
		checkPk(sk, kg.GenPublicKey(sk))
	}
	for _, p := range []float64{0.25, 1.0 / 3, 0.5, 2.0 / 3, 0.9} {
		tot := 0
		for k := 0; k < 4; k++ {
			sk := kg.GenSecretKeyWithDistrib(p)
			s := pu.Secret(t, P, sk)
			small(t, s, 1, "secret")
			tot += count(s)
			checkPk(sk, kg.GenPublicKey(sk))
		}
		t.Check(tot > 0, "keys/distrib", "no non-zero coefficient with p=%g", p)
	}
}

// bound of the error of an encryption under sk (h1 is the 1-norm of the secret).
func bound(P rlwe.Parameters, kind string, h1 int64) *big.Int {
	b, f := pu.B(P), pu.Factor(P.RingType())
	if kind == "sk" {
		return big.NewInt(b)
	}
	tot := big.NewInt(b * (1 + f*int64(P.HammingWeight()) + f*h1))
	if P.PCount() > 0 {
		tot.Div(tot, ref.U(P.P()[0]))
		tot.Add(tot, big.NewInt(1+1+f*h1))
	}
	return tot
}

func encrypt(t *h.T, sp pu.Spec, kind, route string, lpt int, th bool) {
	P := sp.New(t)
	rq := P.RingQ()
	N := P.N()
	kg := rlwe.NewKeyGenerator(P)
	sk, pk := kg.GenKeyPair()
	osk, opk := kg.GenKeyPair()
	s := pu.Plain(sk.Value.Q, rq.Modulus)
	h1 := pu.Norm1(pu.Coef(rq, s)).Int64()
	var key, other interface{} = sk, opk
	if kind == "pk" {
		key, other = pk, osk
	}
	var enc rlwe.Encryptor
	var cenc ckks.Encryptor
	switch route {
	case "direct", "crp":
		enc = rlwe.NewEncryptor(P, key)
	case "shallow":
		enc = rlwe.NewEncryptor(P, key).ShallowCopy()
	case "withkey":
		if kind == "pk" {
			enc = rlwe.NewEncryptor(P, opk).WithKey(key)
		} else {
			enc = rlwe.NewEncryptor(P, osk).WithKey(key)
		}
	case "withkey-other":
		enc = rlwe.NewEncryptor(P, other).WithKey(key).ShallowCopy()
	case "ckks":
		C, err := ckks.NewParameters(P, 2, 1<<20)
		t.Check(err == nil, "setup", "%v", err)
		cenc = ckks.NewEncryptor(C, osk).WithKey(key).ShallowCopy()
	}
	keyHash := pu.QPHash(sk.Value, pk.Value[0], pk.Value[1])
	dec := rlwe.NewDecryptor(P, osk).WithKey(sk).ShallowCopy()
	B := bound(P, kind, h1)
	seen := map[uint64]bool{}
	nonzero, repeats, total := 0, 0, 0
	pats := []int{ru.PatZero, ru.PatMax, ru.PatHalf, ru.PatDense}
	if th {
		pats = append(pats, ru.PatOne, ru.PatMono, ru.PatAlt)
	}
	prng := h.NewRng(t.Desc)
	for lct := 0; lct <= P.MaxLevel(); lct++ {
		if len(sp.Q) > 32 && lct != 0 && lct != lpt && lct != 32 && lct != P.MaxLevel() {
			continue
		}
		for _, pn := range []bool{false, true} {
			for _, cn := range []bool{false, true} {
				for rs := 0; rs < 6; rs++ { // receiver state
					if route == "ckks" && (!cn || !pn) {
						continue
					}
					for _, pat := range pats {
						pt := rlwe.NewPlaintext(P, lpt)
						ru.Fill(pt.Value, P.Q(), pat, "pt")
						pt.Value.IsNTT = pn
						var ct *rlwe.Ciphertext
						deg := 1
						if rs == 3 {
							deg = 2 + pat&1
						}
						if rs == 4 {
							deg = 0
						}
						ct = rlwe.NewCiphertext(P, deg, lct)
						for i := range ct.Value {
							ct.Value[i].IsNTT = cn
						}
						if rs == 1 || rs == 3 || rs == 5 { // used
							for i := range ct.Value {
								for l := range ct.Value[i].Coeffs {
									for j := range ct.Value[i].Coeffs[l] {
										ct.Value[i].Coeffs[l][j] = prng.U64() % P.Q()[l]
									}
								}
							}
						}
						if rs == 2 { // once larger
							big := rlwe.NewCiphertext(P, 1, P.MaxLevel())
							for i := range big.Value {
								big.Value[i].IsNTT = cn
								big.Value[i].Coeffs = big.Value[i].Coeffs[:lct+1]
							}
							ct = big
						}
						if rs == 5 { // second polynomial in the other domain
							ct.Value[1].IsNTT = !cn
						}
						before := pu.PolyHash(pt.Value)
						wl := lpt
						if lct < wl {
							wl = lct
						}
						what := fmt.Sprintf("plaintext level %d NTT %v pattern %d, receiver level %d NTT %v state %d", lpt, pn, pat, lct, cn, rs)
						var crp *ring.Poly
						switch {
						case route == "crp":
							crp = ru.JunkRed(N, P.MaxLevel(), P.Q(), what)
							cb := pu.PolyHash(crp)
							enc.EncryptFromCRP(pt, crp, ct)
							t.Check(pu.PolyHash(crp) == cb, "encrypt/operand", "%s: the common reference polynomial is modified", what)
						case route == "ckks":
							sc := float64(lpt) + 1.5
							cpt := &ckks.Plaintext{Plaintext: pt, Scale: sc}
							cct := &ckks.Ciphertext{Ciphertext: ct, Scale: 77}
							crp = ru.JunkRed(N, P.MaxLevel(), P.Q(), what)
							switch {
							case rs == 0 && kind == "sk" && pat == ru.PatMax:
								cct = cenc.EncryptFromCRPNew(cpt, crp)
								wl = lpt
							case kind == "sk" && pat == ru.PatHalf:
								cenc.EncryptFromCRP(cpt, crp, cct)
							case rs == 0:
								cct = cenc.EncryptNew(cpt)
								wl = lpt
								crp = nil
							default:
								cenc.Encrypt(cpt, cct)
								crp = nil
							}
							t.Check(cct.Scale == sc && cpt.Scale == sc, "encrypt/scale", "%s: scale %g, plaintext's %g", what, cct.Scale, sc)
							ct = cct.Ciphertext
						default:
							enc.Encrypt(pt, ct)
						}
						t.Eval(1)
						t.Check(pu.PolyHash(pt.Value) == before, "encrypt/operand", "%s: the plaintext is modified", what)
						t.Check(ct.Degree() == 1, "encrypt/degree", "%s: degree %d", what, ct.Degree())
						t.Check(ct.Level() == wl && ct.Value[1].Level() == wl, "encrypt/level", "%s: levels %d and %d, want %d", what, ct.Level(), ct.Value[1].Level(), wl)
						t.Check(ct.Value[0].IsNTT == cn && ct.Value[1].IsNTT == cn, "encrypt/domain", "%s: domain flags %v %v", what, ct.Value[0].IsNTT, ct.Value[1].IsNTT)
						for i := range ct.Value {
							ok, m := pu.Reduced(ct.Value[i], rq.Modulus)
							t.Check(ok, "encrypt/reduced", "%s: polynomial %d: %s", what, i, m)
						}
						Q := ref.Prod(P.Q()[:wl+1])
						m := pu.Ints(rq, pt.Value, pn, wl)
						ph := pu.Phase(rq, ct.Value, cn, wl, s)
						e := pu.Err(ph, m, Q)
						if mx := pu.MaxAbs(e); mx.Cmp(B) > 0 {
							t.Fail("encrypt/error", "%s: error %s, bound %s", what, mx, B)
						} else if mx.Sign() > 0 {
							nonzero++
						}
						if crp != nil {
							a := pu.NTT(rq, ct.Value[1], cn, wl)
							ok, msg := ru.Same(a, crp.Coeffs[:wl+1])
							t.Check(ok, "encrypt/crp", "%s: the second polynomial is not the common reference: %s", what, msg)
						} else {
							x := pu.PolyHash(ct.Value[1])
							t.Check(!seen[x] || kind == "pk", "encrypt/fresh", "%s: the mask of an earlier encryption is reused", what)
							if seen[x] {
								repeats++
							}
							total++
							seen[x] = true
						}
						t.StateHash(pu.PolyHash(ct.Value...))
						// and decrypt with the library
						for _, on := range []bool{false, true} {
							lo := (lct*7 + lpt*3 + rs) % (P.MaxLevel() + 1)
							out := rlwe.NewPlaintext(P, lo)
							ru.Fill(out.Value, P.Q(), ru.PatDense, "out")
							out.Value.IsNTT = on
							cb := pu.PolyHash(ct.Value...)
							dec.Decrypt(ct, out)
							t.Eval(1)
							l := wl
							if lo < l {
								l = lo
							}
							t.Check(pu.PolyHash(ct.Value...) == cb, "decrypt/operand", "%s: Decrypt modifies the ciphertext", what)
							t.Check(out.Level() == l && out.Value.IsNTT == on, "decrypt/shape", "%s: level %d NTT %v, want %d %v", what, out.Level(), out.Value.IsNTT, l, on)
							d := pu.Err(pu.Ints(rq, out.Value, on, l), pu.Ints(rq, pt.Value, pn, l), ref.Prod(P.Q()[:l+1]))
							if pu.MaxAbs(d).Cmp(B) > 0 {
								t.Fail("decrypt/error", "%s into level %d NTT %v: error %s, bound %s", what, lo, on, pu.MaxAbs(d), B)
							}
							for j := range d {
								t.Check(d[j].Cmp(e[j]) == 0, "decrypt/value", "%s: decryption differs from the phase", what)
							}
							ok, msg := pu.Reduced(out.Value, rq.Modulus)
							t.Check(ok, "decrypt/reduced", "%s: %s", what, msg)
						}
					}
				}
			}
		}
	}
	if sp.H >= 8 { // with a public key the mask is one of at least 2^16 ephemeral secrets
		t.Check(repeats*4 <= total, "encrypt/fresh", "%d of %d masks repeat an earlier one", repeats, total)
	}
	if sp.Sigma > 0 {
		t.Check(nonzero > 0, "encrypt/noiseless", "no encryption carries an error")
	}
	t.Check(pu.QPHash(sk.Value, pk.Value[0], pk.Value[1]) == keyHash, "encrypt/operand", "a key is modified")
}

// decrypt compares decryption of arbitrary ciphertexts with the polynomial in the secret they denote.
func decrypt(t *h.T, sp pu.Spec, lct, deg int) {
	P := sp.New(t)
	rq := P.RingQ()
	sk := rlwe.NewKeyGenerator(P).GenSecretKey()
	C, err := ckks.NewParameters(P, 2, 1<<20)
	t.Check(err == nil, "setup", "%v", err)
	s := pu.Plain(sk.Value.Q, rq.Modulus)
	dec := rlwe.NewDecryptor(P, sk)
	cdec := ckks.NewDecryptor(C, sk)
	sh := pu.QPHash(sk.Value)
	for _, cn := range []bool{false, true} {
		for pat := 0; pat < ru.NPat; pat++ {
			ct := rlwe.NewCiphertext(P, deg, lct)
			for i := range ct.Value {
				p := pat
				if i > 0 && pat == ru.PatZero {
					p = ru.PatMax
				}
				ru.Fill(ct.Value[i], P.Q(), p, fmt.Sprint(i))
				ct.Value[i].IsNTT = cn
			}
			before := pu.PolyHash(ct.Value...)
			for lo := 0; lo <= P.MaxLevel(); lo++ {
				for _, on := range []bool{false, true} {
					l := lct
					if lo < l {
						l = lo
					}
					what := fmt.Sprintf("degree %d level %d NTT %v pattern %d into level %d NTT %v", deg, lct, cn, pat, lo, on)
					want := pu.PhaseNTT(rq, ct.Value, cn, l, s)
					out := rlwe.NewPlaintext(P, lo)
					ru.Fill(out.Value, P.Q(), ru.PatDense, "out")
					out.Value.IsNTT = on
					var got *ring.Poly
					switch {
					case lo == P.MaxLevel() && on: // the scheme's wrapper
						c := &ckks.Ciphertext{Ciphertext: ct, Scale: 3.25}
						if pat%2 == 0 {
							pt := cdec.DecryptNew(c)
							t.Check(pt.Scale == 3.25, "decrypt/scale", "%s: scale %g", what, pt.Scale)
							got = pt.Value
						} else {
							pt := &ckks.Plaintext{Plaintext: out, Scale: 1}
							cdec.WithKey(sk).ShallowCopy().Decrypt(c, pt)
							t.Check(pt.Scale == 3.25, "decrypt/scale", "%s: scale %g", what, pt.Scale)
							got = pt.Value
						}
					default:
						dec.Decrypt(ct, out)
						got = out.Value
					}
					t.Eval(1)
					t.Check(got.Level() == l && got.IsNTT == on, "decrypt/shape", "%s: level %d NTT %v", what, got.Level(), got.IsNTT)
					ok, msg := ru.Same(pu.NTT(rq, got, on, l), want)
					t.Check(ok, "decrypt/value", "%s: %s", what, msg)
					ok, msg = pu.Reduced(got, rq.Modulus)
					t.Check(ok, "decrypt/reduced", "%s: %s", what, msg)
					t.StateHash(pu.PolyHash(got))
				}
			}
			t.Check(pu.PolyHash(ct.Value...) == before, "decrypt/operand", "Decrypt modifies the ciphertext")
		}
	}
	t.Check(pu.QPHash(sk.Value) == sh, "decrypt/operand", "Decrypt modifies the key")
}

func misuse(t *h.T, sp pu.Spec) {
	P := sp.New(t)
	kg := rlwe.NewKeyGenerator(P)
	sk, pk := kg.GenKeyPair()
	sp2 := sp
	sp2.LogN++
	sp2.Q = ru.Mixed(pu.M0(sp2.LogN, sp.T), 40, 41)
	sp2.P = nil
	P2 := sp2.New(t)
	p := func(name string, f func()) {
		t.Check(h.Panics(f) != nil, "misuse/"+name, "%s does not panic", name)
		t.Eval(1)
	}
	p("encryptor-degree-sk", func() { rlwe.NewEncryptor(P2, sk) })
	p("encryptor-degree-pk", func() { rlwe.NewEncryptor(P2, pk) })
	p("decryptor-degree", func() { rlwe.NewDecryptor(P2, sk) })
	p("encryptor-type", func() { rlwe.NewEncryptor(P, 5) })
	p("crp-pk", func() {
		rlwe.NewEncryptor(P, pk).EncryptFromCRP(rlwe.NewPlaintext(P, 0), P.RingQ().NewPoly(), rlwe.NewCiphertext(P, 1, 0))
	})
	t.State("misuse", sp.Name)
}

func main() {
	h.Main(h.Info{ID: "C10", Level: "exploration",
		Rule:          "every combination of key kind, route, plaintext level and domain, receiver level, domain and state, and plaintext pattern is encrypted; the exact error polynomial is recovered with big integers and the known secret and compared with the worst-case bound; decryption is compared exactly with the polynomial in the secret for ciphertexts of degree 0 to 9",
		Bounds:        "15 (thorough 20) parameter sets: degrees 16, 32, 2048 and 4096 (to 8192), 1-5 (9) primes, 0-3 auxiliary primes, and 40+34 and 100+0 primes at selected levels, both ring types, noiseless to sigma=100; all levels; 6 receiver states; 4 (7) plaintext patterns; every key generation method, every Hamming weight",
		Assumptions:   []string{"the transform and the samplers are those decided by C03 and C07", "randomness is a fixed keyed stream per case; the bounds asserted hold for every stream"},
		QuickDeadline: 150, ThoroughDeadline: 850}, run)
}
