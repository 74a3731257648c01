// C21: every key and every encryption is made with its own full-strength randomness.
package main

import (
	"crypto/rand"
	"fmt"
	"io"
	"math"
	"math/big"

	"fast-ksw/ckks"
	"fast-ksw/fckks"
	"fast-ksw/frlwe"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"fast-ksw/utils"
	"verifharness/h"
	"verifharness/pu"
	"verifharness/ref"
	"verifharness/ru"
)

// vec is one sampled polynomial, normalised.
type vec struct {
	name string
	v    []float64
	n2   float64 // squared norm
	n    int     // known coefficients
}

func mk(name string, v []float64) *vec {
	o := &vec{name: name, v: v}
	for _, x := range v {
		o.n2 += x * x
		if x != 0 {
			o.n++
		}
	}
	return o
}

// world is one set of objects whose samples must all be independent of each other.
type world struct {
	t          *h.T
	sp         pu.Spec
	P          rlwe.Parameters
	rq, rp     *ring.Ring
	q, p       []uint64
	kg, kg2    rlwe.KeyGenerator
	sk, sk2    *rlwe.SecretKey
	skCI       *rlwe.SecretKey
	skSmall    *rlwe.SecretKey
	encs       map[string]rlwe.Encryptor
	crp        *ring.Poly
	masks      []*vec // uniform polynomials, one per limb
	errs       []*vec
	ephs       []*vec
	bits       []*vec
	half       bool // the division by P rounds
	cpk, cpk0  *rlwe.PublicKey
	k          uint64
	frP        *frlwe.Parameters
	fkg        *frlwe.KeyGenerator
	fenc       *fckks.Encryptor
	lowPk      map[string]*rlwe.PublicKey
	usedCt     *rlwe.Ciphertext
	ckC        ckks.Parameters
	ckEnc      ckks.Encryptor
	ckEncPk    ckks.Encryptor
	thresholds bool
}

// independent adds a sample to a list: it must differ from all the others and be uncorrelated to them.
func (w *world) independent(l *[]*vec, kind string, v *vec, tol float64) {
	for _, o := range *l {
		if len(o.v) != len(v.v) {
			continue
		}
		d, n := 0.0, 0
		for i, x := range v.v {
			d += x * o.v[i]
			if x != 0 && o.v[i] != 0 {
				n++
			}
		}
		var c float64
		if kind == "bits" { // +1, -1, or 0 for unknown
			if n < 200 {
				continue
			}
			c = d / float64(n)
		} else {
			if v.n2 == 0 || o.n2 == 0 {
				continue
			}
			c = d / math.Sqrt(v.n2*o.n2)
		}
		w.t.Check(math.Abs(c) < tol, "fresh/"+kind, "%s of %s and of %s are not independent (correlation %.2f)", kind, o.name, v.name, c)
	}
	*l = append(*l, v)
	w.t.Trans(1)
}

// parts are the halves of a polynomial, in different ways.
func parts(v []float64) map[string][]float64 {
	n := len(v)
	var ev, od []float64
	for i, x := range v {
		if i&1 == 0 {
			ev = append(ev, x)
		} else {
			od = append(od, x)
		}
	}
	return map[string][]float64{"all": v, "first half": v[:n/2], "second half": v[n/2:], "even": ev, "odd": od}
}

// mask adds a polynomial that must be uniform, as residues modulo q (in any domain).
func (w *world) mask(name string, lim [][]uint64, q []uint64) {
	for l := range lim {
		v := make([]float64, len(lim[l]))
		seen := map[uint64]bool{}
		for j, x := range lim[l] {
			v[j] = (float64(x)+.5)/float64(q[l]) - .5
			seen[x] = true
		}
		w.t.Check(len(seen) >= len(v)-len(v)/64, "mask/values", "%s: limb %d of the mask has %d different values in %d coefficients", name, l, len(seen), len(v))
		for nm, x := range parts(v) {
			m, s := moments(x)
			w.t.Check(math.Abs(m) < .12 && s > .25 && s < .33, "mask/uniform", "%s: limb %d of the mask is not uniform (%s: mean %.3f and deviation %.3f of the modulus)", name, l, nm, m, s)
		}
		w.independent(&w.masks, "mask", mk(fmt.Sprintf("%s limb %d", name, l), v), .35)
	}
}

func moments(x []float64) (m, s float64) {
	for _, y := range x {
		m += y
	}
	m /= float64(len(x))
	for _, y := range x {
		s += (y - m) * (y - m)
	}
	return m, math.Sqrt(s / float64(len(x)))
}

// err adds an error polynomial, which must have the configured deviation everywhere.
func (w *world) err(name string, e []float64) {
	sig := w.P.Sigma()
	for nm, x := range parts(e) {
		m, s := moments(x)
		w.t.Check(math.Abs(m) < .4*sig && s > .7*sig && s < 1.3*sig, "error/deviation", "%s: the error has mean %.2f and deviation %.2f (%s), configured %.2f", name, m, s, nm, sig)
	}
	w.independent(&w.errs, "error", mk(name, e), .35)
}

// ternary adds a secret of a given weight (0: about half of the coefficients).
func (w *world) ternary(name string, u []float64, weight int) {
	n, sg := 0, 0.0
	for j, x := range u {
		w.t.Check(x == 0 || x == 1 || x == -1, "secret/ternary", "%s: coefficient %d of the secret is %g", name, j, x)
		if x != 0 {
			n++
		}
		sg += x
	}
	if weight > 0 {
		w.t.Check(n == weight, "secret/weight", "%s: the secret has weight %d, configured %d", name, n, weight)
	} else {
		w.t.Check(n > len(u)/3 && n < 2*len(u)/3, "secret/weight", "%s: the secret has weight %d of %d", name, n, len(u))
	}
	w.t.Check(math.Abs(sg) <= 7*math.Sqrt(float64(n)), "secret/signs", "%s: the signs of the secret are not balanced (sum %.0f of %d)", name, sg, n)
	for nm, x := range parts(u) {
		if nm == "all" {
			continue
		}
		c := 0
		for _, y := range x {
			if y != 0 {
				c++
			}
		}
		w.t.Check(math.Abs(float64(2*c-n)) <= 8*math.Sqrt(float64(n)), "secret/positions", "%s: %d of %d non-zero coefficients of the secret are in its %s", name, c, n, nm)
	}
	w.independent(&w.ephs, "secret", mk(name, u), .35)
}

func centred(v []uint64, q uint64) []float64 {
	o := make([]float64, len(v))
	for j, x := range v {
		if x > q/2 {
			o[j] = -float64(q - x)
		} else {
			o[j] = float64(x)
		}
	}
	return o
}

// coef transforms one limb back.
func coef(r *ring.Ring, l int, v []uint64) []float64 {
	x := append([]uint64{}, v...)
	r.InvNTTSingle(l, x, x)
	for j := range x {
		x[j] %= r.Modulus[l]
	}
	return centred(x, r.Modulus[l])
}

func (w *world) secretVec(sk *rlwe.SecretKey) []float64 {
	return coef(w.rq, 0, pu.Plain(sk.Value.Q, w.q)[0])
}

// row adds a row of a switching key whose target secret is out.
func (w *world) row(name string, b, a rlwe.PolyQP, out *ring.Poly) {
	bp, ap, s := pu.Plain(b.P, w.p), pu.Plain(a.P, w.p), pu.Plain(out, w.p)
	q := w.p[0]
	e := make([]uint64, len(bp[0]))
	for j := range e {
		e[j] = ref.AddMod(bp[0][j], ref.MulMod(ap[0][j], s[0][j], q), q)
	}
	w.err(name, coef(w.rp, 0, e))
	w.mask(name+" Q", pu.Plain(a.Q, w.q), w.q)
	w.mask(name+" P", ap, w.p)
}

func (w *world) swk(name string, k *rlwe.SwitchingKey, out *ring.Poly) {
	for i := range k.Value {
		w.row(fmt.Sprintf("%s row %d", name, i), k.Value[i][0], k.Value[i][1], out)
	}
	w.t.StateHash(pu.QPHash(k.Value[0][1]))
}

// perm is a secret modulo P under an automorphism.
func (w *world) perm(sk *rlwe.SecretKey, g uint64) *ring.Poly {
	o := w.rp.NewPoly()
	w.rp.PermuteNTT(sk.Value.P, g, o)
	return o
}

func (w *world) pk(name string, pk *rlwe.PublicKey, sk *rlwe.SecretKey) {
	s := pu.Plain(sk.Value.Q, w.q)[0]
	e := make([]uint64, len(s))
	q := w.q[0]
	for j := range e {
		e[j] = ref.AddMod(pk.Value[0].Q.Coeffs[0][j], ref.MulMod(pk.Value[1].Q.Coeffs[0][j], s[j], q), q)
	}
	w.err(name, coef(w.rq, 0, e))
	w.mask(name+" Q", pk.Value[1].Q.Coeffs, w.q)
	if len(w.p) > 0 {
		w.mask(name+" P", pk.Value[1].P.Coeffs, w.p)
	}
	w.t.StateHash(pu.QPHash(pk.Value[1]))
}

type op struct {
	name string
	f    func(w *world, tag string)
}

func (w *world) rotKeys(tag string, ks *rlwe.RotationKeySet) {
	for _, g := range sorted(ks.Keys) {
		w.swk(fmt.Sprintf("%s key %d", tag, g), ks.Keys[g], w.perm(w.sk, w.P.InverseGaloisElement(g)))
	}
}

func sorted(m map[uint64]*rlwe.SwitchingKey) (o []uint64) {
	for g := range m {
		o = append(o, g)
	}
	for i := range o {
		for j := i; j > 0 && o[j] < o[j-1]; j-- {
			o[j], o[j-1] = o[j-1], o[j]
		}
	}
	return
}

// keyOps are the operations of key generators.
func keyOps(sp pu.Spec) (o []op) {
	add := func(name string, f func(w *world, tag string)) { o = append(o, op{name, f}) }
	add("GenSecretKey", func(w *world, tag string) { w.ternary(tag, w.secretVec(w.kg.GenSecretKey()), w.sp.H) })
	add("GenSecretKeyGaussian", func(w *world, tag string) { w.err(tag, w.secretVec(w.kg.GenSecretKeyGaussian())) })
	add("GenSecretKeyWithDistrib", func(w *world, tag string) { w.ternary(tag, w.secretVec(w.kg.GenSecretKeyWithDistrib(.5)), 0) })
	add("GenSecretKeyWithHammingWeight", func(w *world, tag string) {
		w.ternary(tag, w.secretVec(w.kg.GenSecretKeyWithHammingWeight(300)), 300)
	})
	add("GenPublicKey", func(w *world, tag string) { w.pk(tag, w.kg.GenPublicKey(w.sk), w.sk) })
	add("GenKeyPair", func(w *world, tag string) {
		sk, pk := w.kg.GenKeyPair()
		w.ternary(tag, w.secretVec(sk), w.sp.H)
		w.pk(tag, pk, sk)
	})
	add("GenPublicKey of another generator", func(w *world, tag string) { w.pk(tag, w.kg2.GenPublicKey(w.sk), w.sk) })
	add("GenSecretKey of another generator", func(w *world, tag string) { w.ternary(tag, w.secretVec(w.kg2.GenSecretKey()), w.sp.H) })
	if len(sp.P) == 0 {
		return
	}
	add("GenSwitchingKey", func(w *world, tag string) { w.swk(tag, w.kg.GenSwitchingKey(w.sk, w.sk2), w.sk2.Value.P) })
	add("GenSwitchingKey of another generator", func(w *world, tag string) { w.swk(tag, w.kg2.GenSwitchingKey(w.sk, w.sk2), w.sk2.Value.P) })
	add("GenRelinearizationKey", func(w *world, tag string) {
		for i, k := range w.kg.GenRelinearizationKey(w.sk, 3).Keys {
			w.swk(fmt.Sprint(tag, " degree ", i+2), k, w.sk.Value.P)
		}
	})
	add("GenSwitchingKey to a lower level", func(w *world, tag string) {
		low := w.sk2.CopyNew()
		low.Value.Q.Coeffs = low.Value.Q.Coeffs[:1]
		low.Value.P.Coeffs = low.Value.P.Coeffs[:(len(w.p)+1)/2]
		w.swk(tag, w.kg.GenSwitchingKey(w.sk, low), low.Value.P)
	})
	add("GenSwitchingKey between degrees", func(w *world, tag string) {
		m := rlwe.NewSecretKey(w.P)
		ring.MapSmallDimensionToLargerDimensionNTT(w.skSmall.Value.P, m.Value.P)
		w.swk(tag+" down", w.kg.GenSwitchingKey(w.sk, w.skSmall), m.Value.P)
		w.swk(tag+" up", w.kg.GenSwitchingKey(w.skSmall, w.sk), w.sk.Value.P)
	})
	conj := sp.T == ring.Standard
	add("GenRotationKeysForRotations", func(w *world, tag string) {
		w.rotKeys(tag, w.kg.GenRotationKeysForRotations([]int{1, -1, 5}, conj, w.sk))
	})
	add("GenRotationKeys", func(w *world, tag string) { w.rotKeys(tag, w.kg.GenRotationKeys([]uint64{5, 25}, w.sk)) })
	add("GenSwitchingKeyForRotationBy", func(w *world, tag string) {
		w.swk(tag, w.kg.GenSwitchingKeyForRotationBy(1, w.sk), w.perm(w.sk, w.P.GaloisElementForColumnRotationBy(-1)))
	})
	add("GenSwitchingKeyForGalois", func(w *world, tag string) {
		w.swk(tag, w.kg.GenSwitchingKeyForGalois(125, w.sk), w.perm(w.sk, w.P.InverseGaloisElement(125)))
	})
	if conj {
		add("GenSwitchingKeyForRowRotation", func(w *world, tag string) {
			w.swk(tag, w.kg.GenSwitchingKeyForRowRotation(w.sk), w.perm(w.sk, w.P.GaloisElementForRowRotation()))
		})
		add("GenSwitchingKeysForRingSwap", func(w *world, tag string) {
			a, b := w.kg.GenSwitchingKeysForRingSwap(w.sk, w.skCI)
			un := w.rp.NewPoly()
			w.rp.UnfoldConjugateInvariantToStandard(len(w.p)-1, w.skCI.Value.P, un)
			w.swk(tag+" to the conjugate invariant ring", a, un)
			w.swk(tag+" from the conjugate invariant ring", b, w.sk.Value.P)
		})
	}
	add("GenRotationKeysForInnerSum", func(w *world, tag string) { w.rotKeys(tag, w.kg.GenRotationKeysForInnerSum(w.sk)) })
	if conj {
		add("frlwe GenRelinKey", func(w *world, tag string) {
			k := w.fkg.GenRelinKey(w.sk)
			w.fast(tag, k.Value[0], k.Value[1], w.sk.Value.P)
		})
		for _, r := range []int{1, 3} {
			r := r
			add(fmt.Sprint("frlwe GenRotKey ", r), func(w *world, tag string) {
				k := w.fkg.GenRotKey(r, w.sk)
				w.fast(tag, k.Value[0], k.Value[1], w.perm(w.sk, w.P.GaloisElementForColumnRotationBy(-r)))
			})
		}
	}
	return
}

// fast adds the rows of a fast key.
func (w *world) fast(tag string, k0, k1 *frlwe.SwitchingKey, out *ring.Poly) {
	g := w.frP.Gamma()
	rt := w.frP.RingT()
	R := append(append([]uint64{}, w.p...), w.q...)
	s := pu.Plain(out, w.p)[0]
	for i := range k0.Value {
		get := func(row []*ring.Poly) (o [][]uint64) {
			for b := range row {
				v := pu.Coef(rt, pu.Plain(row[b], rt.Modulus))
				for l := b * g; l < (b+1)*g && l < len(R); l++ {
					x := make([]uint64, len(v))
					for j := range x {
						x[j] = ref.Residue(v[j], R[l])
					}
					o = append(o, x)
				}
			}
			return
		}
		b, a := get(k0.Value[i])[0], get(k1.Value[i])
		w.mask(fmt.Sprint(tag, " row ", i), a, R)
		w.rp.NTTSingle(0, b, b)
		x := append([]uint64{}, a[0]...)
		w.rp.NTTSingle(0, x, x)
		q := w.p[0]
		for j := range b {
			b[j] = ref.AddMod(b[j], ref.MulMod(x[j], s[j], q), q)
		}
		w.err(fmt.Sprint(tag, " row ", i), coef(w.rp, 0, b))
	}
	w.t.StateHash(pu.PolyHash(k1.Value[0]...))
}

// message is a plaintext and its value modulo the first prime.
func (w *world) message(level int, ntt bool) (*rlwe.Plaintext, []uint64) {
	pt := rlwe.NewPlaintext(w.P, level)
	ru.Fill(pt.Value, w.q, ru.PatDense, "message")
	m := append([]uint64{}, pt.Value.Coeffs[0]...)
	if ntt {
		w.rq.NTTLvl(level, pt.Value, pt.Value)
	}
	pt.Value.IsNTT = ntt
	return pt, m
}

// value is a polynomial of a ciphertext modulo the first prime, in the coefficient domain.
func (w *world) value(p *ring.Poly) []uint64 {
	x := append([]uint64{}, p.Coeffs[0]...)
	if p.IsNTT {
		w.rq.InvNTTSingle(0, x, x)
	}
	for j := range x {
		x[j] %= w.q[0]
	}
	return x
}

// skSample adds an encryption under a secret key.
func (w *world) skSample(tag string, ct *rlwe.Ciphertext, m []uint64, sk *rlwe.SecretKey, crp bool) {
	q := w.q[0]
	s := pu.Plain(sk.Value.Q, w.q)[0]
	a := w.value(ct.Value[1])
	w.rq.NTTSingle(0, a, a)
	for j := range a {
		a[j] = ref.MulMod(a[j], s[j], q)
	}
	w.rq.InvNTTSingle(0, a, a)
	b := w.value(ct.Value[0])
	for j := range b {
		b[j] = ref.SubMod(ref.AddMod(b[j], a[j]%q, q), m[j], q)
	}
	w.err(tag, centred(b, q))
	if !crp {
		w.mask(tag, ct.Value[1].Coeffs, w.q)
	}
	w.t.StateHash(pu.PolyHash(ct.Value...))
}

// split takes K*u+d apart.
func split(v []float64, k float64) (u, d []float64) {
	for _, x := range v {
		r := math.Round(x / k)
		u, d = append(u, r), append(d, x-k*r)
	}
	return
}

// pkSample adds an encryption under the key whose two polynomials are a constant.
func (w *world) pkSample(tag string, ct *rlwe.Ciphertext, m []uint64) {
	w.t.StateHash(pu.PolyHash(ct.Value...))
	b, a := w.value(ct.Value[0]), w.value(ct.Value[1])
	for j := range b {
		b[j] = ref.SubMod(b[j], m[j], w.q[0])
	}
	u0, d0 := split(centred(b, w.q[0]), float64(w.k))
	u1, d1 := split(centred(a, w.q[0]), float64(w.k))
	for j := range u0 {
		w.t.Check(u0[j] == u1[j], "encrypt/shape", "%s: the two polynomials have different ephemeral secrets", tag)
	}
	w.ternary(tag, u0, w.sp.H)
	if len(w.p) == 0 {
		w.err(tag+" polynomial 0", d0)
		w.err(tag+" polynomial 1", d1)
		return
	}
	for i, d := range [][]float64{d0, d1} {
		w.independent(&w.bits, "bits", mk(fmt.Sprint(tag, " polynomial ", i), w.signs(tag, u0, d)), .45)
	}
}

// signs tells the signs of the errors from the rounding of the division by P.
func (w *world) signs(tag string, u, d []float64) []float64 {
	o := make([]float64, len(d))
	n := [2]int{}
	for j := range d {
		w.t.Check(math.Abs(d[j]) <= 1, "encrypt/size", "%s: the error after the division is %g", tag, d[j])
		neg := d[j] < 0
		if w.half {
			if u[j] == 0 {
				continue
			}
			neg = u[j] > 0 && d[j] <= 0 || u[j] < 0 && d[j] < 0
		}
		o[j] = 1
		n[0]++
		if neg {
			o[j] = -1
			n[1]++
		}
	}
	w.t.Check(n[1]*5 > n[0] && n[1]*5 < n[0]*4, "error/none", "%s: the encryption has no error (%d of %d signs are negative)", tag, n[1], n[0])
	return o
}

// constPk is the public key whose polynomials are the constant P*k+t (k without auxiliary primes).
func (w *world) constPk(k, t int64, half bool) *rlwe.PublicKey {
	pk := rlwe.NewPublicKey(w.P)
	c := big.NewInt(k)
	if len(w.p) > 0 {
		c.Mul(c, ref.U(w.p[0]))
		if half {
			c.Add(c, ref.U(w.p[0]>>1))
		}
		c.Add(c, big.NewInt(t))
	}
	set := func(p *ring.Poly, q []uint64) {
		for l := range p.Coeffs {
			v := ref.Residue(c, q[l])
			for j := range p.Coeffs[l] {
				p.Coeffs[l][j] = v
			}
		}
	}
	for i := range pk.Value {
		set(pk.Value[i].Q, w.q)
		if len(w.p) > 0 {
			set(pk.Value[i].P, w.p)
		}
	}
	return pk
}

// encOps are the operations of encryptors.
func encOps(sp pu.Spec) (o []op) {
	add := func(name string, f func(w *world, tag string)) { o = append(o, op{name, f}) }
	enc := func(w *world, e rlwe.Encryptor, lct, lpt int, cn, pn bool) (*rlwe.Ciphertext, []uint64) {
		pt, m := w.message(lpt, pn)
		ct := rlwe.NewCiphertext(w.P, 1, lct)
		for i := range ct.Value {
			ct.Value[i].IsNTT = cn
		}
		e.Encrypt(pt, ct)
		return ct, m
	}
	L := len(sp.Q) - 1
	for _, key := range []string{"sk", "pk"} {
		key := key
		take := func(w *world, tag string, ct *rlwe.Ciphertext, m []uint64, second bool) {
			if key == "pk" {
				w.pkSample(tag, ct, m)
			} else if second {
				w.skSample(tag, ct, m, w.sk2, false)
			} else {
				w.skSample(tag, ct, m, w.sk, false)
			}
		}
		for _, who := range []string{"", "-copy", "-copy2", "-rekeyed", "-other"} {
			for d := 0; d < 4; d++ {
				if who != "" && d != 0 && !(who == "-copy" && d == 3) {
					continue
				}
				who, d := who, d
				add(fmt.Sprintf("Encrypt %s%s domains %d", key, who, d), func(w *world, tag string) {
					ct, m := enc(w, w.encs[key+who], L, L, d&1 == 0, d&2 == 0)
					take(w, tag, ct, m, who == "-rekeyed")
				})
			}
		}
		add("Encrypt "+key+" at level 0", func(w *world, tag string) {
			ct, m := enc(w, w.encs[key], L, 0, true, true)
			take(w, tag, ct, m, false)
		})
		add("Encrypt "+key+" into the same receiver", func(w *world, tag string) {
			pt, m := w.message(w.usedCt.Level(), true)
			w.encs[key].Encrypt(pt, w.usedCt)
			take(w, tag, w.usedCt, m, false)
		})
		add("Encrypt "+key+" of degree 0", func(w *world, tag string) {
			pt, m := w.message(L, false)
			ct := rlwe.NewCiphertext(w.P, 0, L)
			ct.Value[0].IsNTT = true
			w.encs[key].Encrypt(pt, ct)
			take(w, tag, ct, m, false)
		})
		add("ckks EncryptNew "+key, func(w *world, tag string) {
			pt := ckks.NewPlaintext(w.ckC, L, 1<<20)
			_, m := w.message(L, false)
			x, _ := w.message(L, true)
			pt.Value.Copy(x.Value)
			e := w.ckEnc
			if key == "pk" {
				e = w.ckEncPk
			}
			take(w, tag, e.EncryptNew(pt).Ciphertext, m, false)
		})
	}
	for _, d := range []int{0, 3} {
		for _, who := range []string{"sk", "sk-copy"} {
			d, who := d, who
			add(fmt.Sprintf("EncryptFromCRP %s domains %d", who, d), func(w *world, tag string) {
				pt, m := w.message(L, d&2 == 0)
				ct := rlwe.NewCiphertext(w.P, 1, L)
				for i := range ct.Value {
					ct.Value[i].IsNTT = d&1 == 0
				}
				w.encs[who].EncryptFromCRP(pt, w.crp, ct)
				w.skSample(tag, ct, m, w.sk, true)
			})
		}
	}
	if len(sp.P) > 0 && sp.T == ring.Standard {
		add("fckks EncryptMsgNew", func(w *world, tag string) {
			ct := w.fenc.EncryptMsgNew(fckks.NewMessage(w.fenc2()))
			w.pkSample(tag, ct.Ciphertext, make([]uint64, w.rq.N))
		})
	}
	return
}

var fparams = map[string]fckks.Parameters{}

func (w *world) fenc2() fckks.Parameters { return fparams[w.sp.Name] }

func newWorld(t *h.T, sp pu.Spec) *world {
	P := sp.New(t)
	w := &world{t: t, sp: sp, P: P, rq: P.RingQ(), rp: P.RingP(), q: P.Q(), p: P.P(), kg: rlwe.NewKeyGenerator(P), kg2: rlwe.NewKeyGenerator(P)}
	w.sk, w.sk2 = w.kg.GenSecretKey(), w.kg.GenSecretKey()
	w.ternary("first secret", w.secretVec(w.sk), sp.H)
	w.ternary("second secret", w.secretVec(w.sk2), sp.H)
	if len(sp.P) > 0 {
		C, err := rlwe.NewParameters(sp.LogN-1, sp.Q, sp.P, sp.H/2, sp.Sigma, sp.T)
		t.Check(err == nil, "setup", "%v", err)
		w.skSmall = rlwe.NewKeyGenerator(C).GenSecretKey()
	}
	if sp.T == ring.Standard && len(sp.P) > 0 {
		C, err := rlwe.NewParameters(sp.LogN-1, sp.Q, sp.P, sp.H/2, sp.Sigma, ring.ConjugateInvariant)
		t.Check(err == nil, "setup", "%v", err)
		w.skCI = rlwe.NewKeyGenerator(C).GenSecretKey()
	}
	return w
}

// withFast adds the fast objects.
func (w *world) withFast() {
	if w.sp.T != ring.Standard || len(w.p) == 0 {
		return
	}
	T := pu.TChain(w.sp.LogN, w.q, w.p, 2, 61)
	F := frlwe.NewParametersFromLiteral(frlwe.ParametersLiteral{LogN: w.sp.LogN, Q: w.q, P: w.p, T: T, Sigma: w.sp.Sigma, H: w.sp.H, Gamma: 2})
	w.frP = &F
	w.fkg = frlwe.NewKeyGenerator(F)
}

// withEncryptors adds the encryptors.
func (w *world) withEncryptors() {
	t := w.t
	P := w.P
	w.crp = w.rq.NewPoly()
	ru.Fill(w.crp, w.q, ru.PatDense, "crp")
	w.usedCt = rlwe.NewCiphertext(P, 2, P.MaxLevel())
	for i := range w.usedCt.Value {
		w.usedCt.Value[i].IsNTT = true
	}
	w.k = 1 << 14
	C, err := ckks.NewParameters(P, P.LogN()-2, 1<<20)
	t.Check(err == nil, "setup", "%v", err)
	w.ckC = C
	if len(w.p) > 0 {
		// does the division round or floor?
		ct := rlwe.NewCiphertext(P, 1, 0)
		rlwe.NewEncryptor(P, w.constPk(int64(w.k), 0, false)).Encrypt(rlwe.NewPlaintext(P, 0), ct)
		_, d := split(centred(w.value(ct.Value[0]), w.q[0]), float64(w.k))
		n := map[float64]int{}
		for _, x := range d {
			n[x]++
		}
		w.half = len(n) < 2
	}
	pk := w.constPk(int64(w.k), 0, w.half)
	w.encs = map[string]rlwe.Encryptor{}
	for _, k := range []string{"sk", "pk"} {
		var key, oth interface{} = w.sk, w.sk2
		if k == "pk" {
			key, oth = pk, pk
		}
		e := rlwe.NewEncryptor(P, key)
		w.encs[k], w.encs[k+"-copy"], w.encs[k+"-rekeyed"] = e, e.ShallowCopy(), e.WithKey(oth)
		w.encs[k+"-copy2"] = w.encs[k+"-copy"].ShallowCopy()
		w.encs[k+"-other"] = rlwe.NewEncryptor(P, key)
	}
	w.ckEnc, w.ckEncPk = ckks.NewEncryptor(C, w.sk), ckks.NewEncryptor(C, w.sk).WithKey(pk)
	if w.sp.T == ring.Standard && len(w.p) > 0 {
		fp, ok := fparams[w.sp.Name]
		if !ok {
			fp = fckks.NewParametersFromLiteral(fckks.ParametersLiteral{LogN: w.sp.LogN, Q: w.q, P: w.p, T: pu.TChain(w.sp.LogN, w.q, w.p, 2, 61), Sigma: w.sp.Sigma, H: w.sp.H, Gamma: 2, LogSlots: w.sp.LogN - 1, DefaultScale: 1 << 20})
			fparams[w.sp.Name] = fp
		}
		w.fenc = fckks.NewEncryptor(fp, pk)
	}
}

// histories runs all the sequences of operations of a length that start with one.
func histories(t *h.T, sp pu.Spec, ops []op, first, depth int, enc bool) {
	idx := make([]int, depth)
	idx[0] = first
	for {
		w := newWorld(t, sp)
		if enc {
			w.withEncryptors()
		} else {
			w.withFast()
		}
		for i, x := range idx {
			ops[x].f(w, fmt.Sprintf("step %d (%s)", i, ops[x].name))
		}
		t.Trace(1)
		t.Eval(len(w.masks) + len(w.errs) + len(w.ephs) + len(w.bits))
		k := depth - 1
		for k > 0 {
			idx[k]++
			if idx[k] < len(ops) {
				break
			}
			idx[k] = 0
			k--
		}
		if k == 0 {
			return
		}
	}
}

// long repeats every operation on one set of objects.
func long(t *h.T, sp pu.Spec, ops []op, n int, enc bool) {
	for i := range ops {
		w := newWorld(t, sp)
		if enc {
			w.withEncryptors()
		} else {
			w.withFast()
		}
		for k := 0; k < n; k++ {
			ops[i].f(w, fmt.Sprintf("step %d (%s)", k, ops[i].name))
		}
		t.Trace(1)
	}
}

func phi(x float64) float64 { return .5 * math.Erfc(-x/math.Sqrt2) }

// distribution compares the errors of encryptions with auxiliary primes with the configured distribution.
func distribution(t *h.T, sp pu.Spec, who string) {
	w := newWorld(t, sp)
	w.withEncryptors()
	sig := w.P.Sigma()
	for _, th := range []int64{0, 1, int64(sig), int64(2 * sig)} {
		for dom := 0; dom < 4; dom++ {
			for lvl := 0; lvl <= w.P.MaxLevel(); lvl++ {
				var enc rlwe.Encryptor
				pk := w.constPk(int64(w.k), th, w.half)
				switch who {
				case "direct":
					enc = rlwe.NewEncryptor(w.P, pk)
				case "copy":
					enc = rlwe.NewEncryptor(w.P, pk).ShallowCopy()
				case "rekeyed":
					enc = w.encs["sk"].WithKey(pk)
				}
				var neg, tot [2][3]float64
				for r := 0; r < 3; r++ {
					pt, m := w.message(lvl, dom&2 == 0)
					ct := rlwe.NewCiphertext(w.P, 1, lvl)
					for i := range ct.Value {
						ct.Value[i].IsNTT = dom&1 == 0
					}
					enc.Encrypt(pt, ct)
					for i := range ct.Value {
						v := w.value(ct.Value[i])
						if i == 0 {
							for j := range v {
								v[j] = ref.SubMod(v[j], m[j], w.q[0])
							}
						}
						u, d := split(centred(v, w.q[0]), float64(w.k))
						for j := range u {
							n := d[j] < 0
							if w.half {
								n = u[j] > 0 && d[j] <= 0 || u[j] < 0 && d[j] < 0
							}
							if math.Abs(u[j]) > 1 {
								t.Fail("secret/ternary", "coefficient %d of the ephemeral secret is %g", j, u[j])
								return
							}
							tot[i][int(u[j])+1]++
							if n {
								neg[i][int(u[j])+1]++
							}
						}
					}
				}
				t.Eval(1)
				for i := range neg {
					for c := range neg[i] {
						if w.half && c == 1 {
							continue
						}
						// floor((t*u+e)/P) < 0 when e < -t*u
						want := phi((-float64(th)*float64(c-1) - .5) / sig)
						got := neg[i][c] / tot[i][c]
						t.Check(math.Abs(got-want) < .12, "error/distribution", "%s: the error of polynomial %d is below %d with frequency %.3f, expected %.3f (level %d, domains %d)", who, i, -th*int64(c-1), got, want, lvl, dom)
						t.State(who, th, dom, lvl, i, c)
					}
				}
			}
		}
	}
}

// flip is a source of randomness that delivers a fixed stream with one bit changed.
type flip struct {
	n, bit int
}

func (f *flip) Read(p []byte) (int, error) {
	for i := range p {
		x := uint64(f.n)*0x9e3779b97f4a7c15 + 0x1234567
		x ^= x >> 29
		x *= 0xbf58476d1ce4e5b9
		x ^= x >> 32
		p[i] = byte(x)
		if f.bit>>3 == f.n {
			p[i] ^= 1 << uint(f.bit&7)
		}
		f.n++
	}
	return len(p), nil
}

// entropy checks that objects are keyed by at least 32 bytes of the system's randomness, every bit of which counts.
func entropy(t *h.T, name string, step int, f func() uint64) {
	old := rand.Reader
	defer func() { rand.Reader = old }()
	run := func(bit int) (uint64, int) {
		s := &flip{bit: bit}
		rand.Reader = io.Reader(s)
		v := f()
		return v, s.n
	}
	base, n := run(-1)
	again, _ := run(-1)
	t.Check(base == again, "entropy/deterministic", "%s: equal randomness gives different results", name)
	t.Check(n >= 32, "entropy/size", "%s takes only %d bytes of randomness", name, n)
	seen := map[uint64]int{base: -1}
	good := map[int]bool{}
	for b := 0; b < 8*n && b < 8*256; b += step {
		v, _ := run(b)
		if _, dup := seen[v]; !dup {
			good[b] = true
		}
		seen[v] = b
		t.Eval(1)
		t.StateHash(v)
	}
	t.Check(len(good)*step >= 8*32, "entropy/bits", "%s: only %d bits of the randomness count", name, len(good)*step)
	if step == 1 {
		t.Check(len(good) >= 8*n || n > 256, "entropy/bits", "%s: %d of %d bits of the randomness count", name, len(good), 8*n)
	}
}

func entropies(t *h.T, sp pu.Spec) {
	P := sp.New(t)
	kg := rlwe.NewKeyGenerator(P)
	sk := kg.GenSecretKey()
	pk := kg.GenPublicKey(sk)
	crp := P.RingQ().NewPoly()
	enc := func(e rlwe.Encryptor) uint64 {
		ct := rlwe.NewCiphertextNTT(P, 1, P.MaxLevel())
		e.Encrypt(rlwe.NewPlaintext(P, P.MaxLevel()), ct)
		return pu.PolyHash(ct.Value...)
	}
	old := func() rlwe.Encryptor { return rlwe.NewEncryptor(P, sk) }
	oldPk := func() rlwe.Encryptor { return rlwe.NewEncryptor(P, pk) }
	entropy(t, "NewPRNG", 1, func() uint64 {
		p, err := utils.NewPRNG()
		if err != nil {
			return 0
		}
		b := make([]byte, 64)
		p.Clock(b)
		return h.Hash(b)
	})
	entropy(t, "NewKeyGenerator, GenSecretKey", 5, func() uint64 { return pu.QPHash(rlwe.NewKeyGenerator(P).GenSecretKey().Value) })
	entropy(t, "NewKeyGenerator, GenPublicKey", 5, func() uint64 {
		k := rlwe.NewKeyGenerator(P).GenPublicKey(sk)
		return pu.QPHash(k.Value[0], k.Value[1])
	})
	entropy(t, "GenSecretKeyWithDistrib", 5, func() uint64 { return pu.QPHash(rlwe.NewKeyGenerator(P).GenSecretKeyWithDistrib(.3).Value) })
	entropy(t, "GenSecretKeyWithHammingWeight", 5, func() uint64 { return pu.QPHash(rlwe.NewKeyGenerator(P).GenSecretKeyWithHammingWeight(100).Value) })
	if P.PCount() > 0 {
		entropy(t, "NewKeyGenerator, GenSwitchingKey", 5, func() uint64 { return pu.QPHash(rlwe.NewKeyGenerator(P).GenSwitchingKey(sk, sk).Value[0][0]) })
	}
	entropy(t, "NewEncryptor with a secret key", 5, func() uint64 { return enc(rlwe.NewEncryptor(P, sk)) })
	entropy(t, "NewEncryptor with a public key", 5, func() uint64 { return enc(rlwe.NewEncryptor(P, pk)) })
	entropy(t, "NewEncryptor from a common polynomial", 5, func() uint64 {
		ct := rlwe.NewCiphertextNTT(P, 1, P.MaxLevel())
		rlwe.NewEncryptor(P, sk).EncryptFromCRP(rlwe.NewPlaintext(P, P.MaxLevel()), crp, ct)
		return pu.PolyHash(ct.Value...)
	})
	entropy(t, "ShallowCopy with a secret key", 5, func() uint64 { return enc(old().ShallowCopy()) })
	entropy(t, "ShallowCopy with a public key", 5, func() uint64 { return enc(oldPk().ShallowCopy()) })
	entropy(t, "WithKey of a public key", 5, func() uint64 { return enc(old().WithKey(pk)) })
	entropy(t, "WithKey of a secret key", 5, func() uint64 { return enc(oldPk().WithKey(sk)) })
}

func specs(th bool) (o []pu.Spec) {
	S, CI := ring.Standard, ring.ConjugateInvariant
	add := func(name string, logN int, sizes []int, np int, hw int, sigma float64, tp ring.Type) {
		m := ru.Mixed(pu.M0(logN, tp), sizes...)
		o = append(o, pu.Spec{Name: name, LogN: logN, Q: m[:len(m)-np], P: m[len(m)-np:], H: hw, Sigma: sigma, T: tp})
	}
	add("std", 10, []int{45, 40, 46}, 1, 512, 3.2, S)
	add("std-noP", 10, []int{40, 45}, 0, 512, 3.2, S)
	add("ci", 10, []int{45, 40, 46}, 1, 400, 3.2, CI)
	add("std-P2", 10, []int{45, 40, 42, 46, 47}, 2, 682, 10, S)
	add("ci-noP", 10, []int{40, 45}, 0, 512, 3.2, CI)
	add("std-P3", 10, []int{55, 40, 42, 41, 60, 59, 58}, 3, 512, 3.2, S)
	if th {
		add("ci-P2", 11, []int{45, 40, 42, 46, 47}, 2, 600, 2, CI)
		add("large", 12, []int{45, 40, 46}, 1, 2048, 3.2, S) // the estimate of the division has no sign beyond 2^50
	}
	return
}

func run(c *h.Ctx) {
	for _, sp := range specs(c.Thorough) {
		sp := sp
		c.Case("entropy", "entropy/"+sp.Name, func(t *h.T) { entropies(t, sp) })
		if len(sp.P) == 1 {
			for _, who := range []string{"direct", "copy", "rekeyed"} {
				who := who
				c.Case("distribution", "distribution/"+sp.Name+"/"+who, func(t *h.T) { distribution(t, sp, who) })
			}
		}
		for _, enc := range []bool{false, true} {
			enc := enc
			ops := keyOps(sp)
			nm := "keys"
			if enc {
				ops, nm = encOps(sp), "encryptions"
				if len(sp.P) > 1 {
					continue // the errors of these are decided with one auxiliary prime
				}
			}
			c.Case(nm, fmt.Sprintf("%s/%s/repeated", nm, sp.Name), func(t *h.T) { long(t, sp, ops, 6, enc) })
			for i := range ops {
				i := i
				c.Case(nm, fmt.Sprintf("%s/%s/%s", nm, sp.Name, ops[i].name), func(t *h.T) { histories(t, sp, ops, i, 2, enc) })
			}
			if c.Thorough && sp.LogN == 10 {
				for i := range ops {
					i := i
					c.Case(nm, fmt.Sprintf("%s/%s/%s/3", nm, sp.Name, ops[i].name), func(t *h.T) { histories(t, sp, ops, i, 3, enc) })
				}
			}
		}
	}
}

func main() {
	h.Main(h.Info{ID: "C21", Level: "exploration",
		Rule:          "every history of the given depth over the key generating and encrypting operations is executed on one set of objects; the mask, the error and the ephemeral secret of every RLWE sample it makes are recovered exactly (with known secrets, and with public keys made for that), each must have the configured distribution in all parts of the polynomial, and any two samples of a history must be uncorrelated; every bit of the seed of every object is flipped and must change what it makes",
		Bounds:        "6 (thorough 8) parameter sets of degree 1024 (4096), 0-3 auxiliary primes, both ring types; all sequences of 2 (3) of 8-23 key operations and 29-31 encryption operations, 6 repetitions of each; all 512 bits of a seed for the generator, every fifth bit through the objects",
		Assumptions:   []string{"the transform and the samplers are those decided by C03 and C07", "randomness is a fixed keyed stream per case; the tolerances of the statistics (more than six standard deviations) hold for every stream but a negligible part", "the errors of public-key encryptions with several auxiliary primes are decided with one"},
		QuickDeadline: 150, ThoroughDeadline: 800}, run)
}
