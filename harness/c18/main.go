// C18: the fast CKKS scheme computes the same circuits as CKKS.
package main

import (
	"fmt"
	"math"
	"math/big"
	"math/cmplx"

	"fast-ksw/ckks"
	"fast-ksw/fckks"
	"fast-ksw/frlwe"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"verifharness/ck"
	"verifharness/h"
	"verifharness/pu"
	"verifharness/ref"
	"verifharness/ru"
)

type spec struct {
	ck.Spec
	tm    []uint64
	gamma int
	deep  bool
}

// largeSpec is a ring of practical degree.
func largeSpec(logN int) (s spec) {
	m := ru.Mixed(pu.M0(logN, ring.Standard), 50, 40, 40, 51)
	s = spec{Spec: ck.Spec{Name: fmt.Sprintf("n%d", 1<<uint(logN)), LogN: logN, Q: m[:3], P: m[3:], H: 64, T: ring.Standard, Scale: 1 << 40}, gamma: 2}
	s.tm = pu.TChain(logN, s.Q, s.P, 2, 60)
	return
}

func specs(th bool) (o []spec) {
	add := func(name string, deep bool, logN int, q, p []int, gamma, tbits, hw int, scale float64, slots int) {
		m := ru.Mixed(pu.M0(logN, ring.Standard), append(append([]int{}, q...), p...)...)
		s := spec{Spec: ck.Spec{Name: name, LogN: logN, Q: m[:len(q)], P: m[len(q):], H: hw, T: ring.Standard, Scale: scale, LogSlots: slots}, gamma: gamma, deep: deep}
		s.tm = pu.TChain(logN, s.Q, s.P, gamma, tbits)
		o = append(o, s)
	}
	add("a", true, 4, []int{50, 40, 40, 40}, []int{51}, 2, 60, 8, 1<<40, 0)
	add("b", true, 4, []int{60, 30, 45, 30, 61}, []int{61, 60}, 3, 61, 4, 1<<30, 0)
	add("sparse", false, 4, []int{50, 40, 40}, []int{51, 45}, 4, 58, 8, 1<<40, 1)
	add("default15", false, 4, ru.Rep(36, 12), []int{36}, 3, 60, 8, 1<<30, 0)
	add("one", false, 4, []int{55}, []int{56}, 1, 60, 8, 1<<40, 0)
	add("many", false, 4, ru.Rep(36, 40), ru.Rep(37, 34), 3, 60, 8, 1<<30, 0)
	if th {
		add("many100", false, 4, ru.Rep(36, 99), []int{36}, 5, 60, 8, 1<<30, 0)
		add("c", true, 5, []int{55, 45, 45, 45, 45, 45}, []int{55, 56}, 2, 59, 16, 1<<45, 0)
		add("d", true, 4, []int{50, 35, 35, 35, 35, 35, 35, 35}, []int{50, 50, 50}, 5, 60, 8, 1<<35, 0)
		add("e", false, 4, []int{61, 61, 61}, []int{61}, 1, 61, 16, 1<<60, 0)
		add("default16", false, 4, ru.Rep(36, 47), []int{36}, 5, 60, 8, 1<<30, 0)
		add("full15", false, 4, ru.Rep(36, 23), []int{36}, 3, 60, 8, 1<<30, 2)
		add("n256", false, 8, ru.Rep(36, 9), []int{36}, 3, 60, 64, 1<<30, 0)
	}
	return
}

type env struct {
	*ck.Env
	sp  spec
	F   fckks.Parameters
	kg  *frlwe.KeyGenerator
	ev  *fckks.Evaluator
	rlk *frlwe.RelinKey
	pk  *rlwe.PublicKey
}

func newEnv(t *h.T, s spec) *env {
	F := fckks.NewParametersFromLiteral(fckks.ParametersLiteral{LogN: s.LogN, Q: s.Q, P: s.P, T: s.tm, Sigma: 3.2, H: s.H, Gamma: s.gamma, DefaultScale: s.Scale, LogSlots: func() int {
		if s.LogSlots > 0 {
			return s.LogSlots
		}
		return s.LogN - 1
	}()})
	kg := fckks.NewKeyGenerator(F)
	sk := kg.GenSecretKey()
	e := &env{Env: ck.WithKey(t, s.Spec, F.Parameters, kg.KeyGenerator, sk), sp: s, F: F, kg: kg}
	e.ev = fckks.NewEvaluator(F)
	e.rlk = kg.GenRelinKey(sk)
	e.pk = kg.GenPublicKey(sk)
	return e
}

func vals(n, k int) []complex128 {
	v := make([]complex128, n)
	r := h.NewRng(fmt.Sprint("vals", k))
	for i := range v {
		v[i] = complex(r.Float(), r.Float())
		if k == 2 {
			v[i] = complex(float64(i%3)-1, float64(i%2))
		}
	}
	return v
}

func rot(v []complex128, k int) []complex128 {
	n := len(v)
	o := make([]complex128, n)
	for i := range o {
		o[i] = v[((i+k)%n+n)%n]
	}
	return o
}

func maxv(v []complex128) (m float64) {
	for _, x := range v {
		m = math.Max(m, cmplx.Abs(x))
	}
	return
}

func imin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// keyHash fingerprints a pair of fast switching keys.
func keyHash(k [2]*frlwe.SwitchingKey) uint64 {
	var o []uint64
	for _, x := range k {
		for _, r := range x.Value {
			o = append(o, pu.PolyHash(r...))
		}
	}
	return h.Hash(o)
}

// receiver returns a receiver of a mode and the level of the result; nil for a new one.
func (e *env) receiver(mode string, c *ckks.Ciphertext, l int) (o *ckks.Ciphertext, lvl int) {
	lvl = l
	switch mode {
	case "fresh":
		o = ckks.NewCiphertext(e.P, 1, l, 1)
	case "higher":
		o = e.Dirty(1, e.L)
	case "degree2":
		o = e.Dirty(2, e.L)
	case "lower":
		if lvl > 0 {
			lvl--
		}
		o = e.Dirty(1, lvl)
	case "inplace":
		o = c
	}
	return
}

// encTol bounds the error of the phase of an encryption of a message.
func (e *env) encTol(v []complex128) *big.Int {
	s1 := e.SP[1].Int64()
	b := pu.B(e.P.Parameters)*(1+s1+int64(e.N)) + 2 + 2*s1 + int64(e.Spec.Scale*math.Exp2(-44)*(1+maxv(v)))
	return big.NewInt(b)
}

func ctHash(c *ckks.Ciphertext) uint64 { return h.Hash(c.Scale, c.Level(), pu.PolyHash(c.Value...)) }

// messages: encryption and decryption of messages of every length, into and from every level, in every succession.
func messages(t *h.T, s spec, first int, th bool) {
	e := newEnv(t, s)
	slots := e.F.Slots()
	enc, dec := fckks.NewEncryptor(e.F, e.pk), fckks.NewDecryptor(e.F, e.Sk)
	type op struct {
		name string
		f    func()
	}
	fill := func(v []complex128) []complex128 {
		return append(append([]complex128{}, v...), make([]complex128, slots-len(v))...)
	}
	var ops []op
	var keep []*ckks.Ciphertext
	var keepH []uint64
	var keepM []*fckks.Message
	var keepV [][]complex128
	checkEnc := func(what string, c *ckks.Ciphertext, l int, v []complex128) {
		e.Expect("encrypt", what, c, ck.Want{Level: l, Degree: 1, Scale: e.Spec.Scale, Ph: e.Encode(v, e.Spec.Scale), Tol: e.encTol(v)})
		keep, keepH = append(keep, c), append(keepH, ctHash(c))
		t.Eval(1)
	}
	for _, n := range []int{0, 1, slots / 2, slots - 1, slots} {
		for k, mk := range []func(n int) []complex128{func(n int) []complex128 { return vals(n, 1) }, func(n int) []complex128 {
			v := vals(n, 2)
			for i := range v {
				v[i] *= 100
			}
			return v
		}} {
			if n < 0 || n == 0 && k > 0 {
				continue
			}
			v := mk(n)
			msg := func() *fckks.Message { return &fckks.Message{Value: append([]complex128{}, v...)} }
			nm := fmt.Sprintf("of %d values, kind %d", n, k)
			if k == 0 || n == slots {
				ops = append(ops, op{"EncryptMsgNew " + nm, func() {
					m := msg()
					c := enc.EncryptMsgNew(m)
					checkEnc("EncryptMsgNew "+nm, c, e.L, fill(v))
					t.Check(h.Hash(fmt.Sprint(m.Value)) == h.Hash(fmt.Sprint(v)), "encrypt/operand", "%s changes the message", nm)
				}})
			}
			for _, l := range []int{0, e.L / 2, e.L} {
				l := l
				if n != slots && l != 0 || l == e.L/2 && k > 0 {
					continue
				}
				ops = append(ops, op{fmt.Sprintf("EncryptMsg %s to level %d", nm, l), func() {
					m := msg()
					c := e.Dirty(1+k, l)
					enc.EncryptMsg(m, c)
					checkEnc(fmt.Sprintf("EncryptMsg %s to level %d", nm, l), c, l, fill(v))
					t.Check(h.Hash(fmt.Sprint(m.Value)) == h.Hash(fmt.Sprint(v)), "encrypt/operand", "%s changes the message", nm)
				}})
			}
		}
	}
	{
		v := vals(slots, 7)
		ops = append(ops, op{"Encrypt", func() {
			ph := e.Encode(v, e.Spec.Scale/2)
			l := e.L / 2
			p := e.Make(0, l, e.Spec.Scale/2, ph).(*ckks.Plaintext)
			w := pu.PolyHash(p.Value)
			c := e.Dirty(1, e.L)
			enc.Encrypt(p, c)
			t.Check(pu.PolyHash(p.Value) == w, "encrypt/operand", "Encrypt changes the plaintext")
			e.Expect("encrypt", "Encrypt", c, ck.Want{Level: l, Degree: 1, Scale: e.Spec.Scale / 2, Ph: ph, Tol: e.encTol(v)})
		}})
	}
	for _, d := range []int{0, 1, 2} {
		for _, l := range []int{0, e.L / 2, e.L} {
			for _, sc := range []float64{e.Spec.Scale, e.Spec.Scale / 8} {
				for _, nw := range []bool{true, false} {
					d, l, sc, nw := d, l, sc, nw
					if (nw || sc != e.Spec.Scale) && l == e.L/2 || d == 0 && (l != 0 || sc != e.Spec.Scale) || d == 2 && sc != e.Spec.Scale {
						continue
					}
					v := vals(slots, 11+d+l)
					name := fmt.Sprintf("DecryptToMsg %v of level %d degree %d scale %g", nw, l, d, sc)
					ops = append(ops, op{name, func() {
						ph := e.Encode(v, sc)
						c := e.MakeCt(imax(1, d), l, sc, ph)
						if d == 0 {
							c.Value = c.Value[:1]
							c.Value[0].Coeffs = e.NTT(l, ph)
						}
						w := ctHash(c)
						var m *fckks.Message
						if nw {
							m = dec.DecryptToMsgNew(c)
						} else {
							m = fckks.NewMessage(e.F)
							for i := range m.Value {
								m.Value[i] = 99
							}
							dec.DecryptToMsg(c, m)
						}
						t.Check(ctHash(c) == w, "decrypt/operand", "%s changes the ciphertext", name)
						t.Check(len(m.Value) == slots && m.Slots() == slots, "decrypt/length", "%s: %d values", name, len(m.Value))
						tol := float64(e.N)/sc + 1e-9
						for i := range m.Value {
							t.Check(cmplx.Abs(m.Value[i]-v[i]) <= tol, "decrypt/value", "%s: value %d is %v, want %v, bound %g", name, i, m.Value[i], v[i], tol)
						}
						keepM, keepV = append(keepM, m), append(keepV, v)
						t.Eval(1)
					}})
				}
			}
		}
	}
	if first >= len(ops) {
		return
	}
	depth := 2
	if s.deep {
		depth = 3
	}
	if th && s.LogN > 4 {
		depth = 2
	}
	if s.LogN > 8 {
		depth = 1
	}
	// the objects live through all the histories, so that each one is also a continuation of the others
	var rec func(hist []int)
	rec = func(hist []int) {
		if len(hist) == depth {
			keep, keepH, keepM, keepV = keep[:0], keepH[:0], keepM[:0], keepV[:0]
			enc, dec = fckks.NewEncryptor(e.F, e.pk), fckks.NewDecryptor(e.F, e.Sk)
			for _, i := range hist {
				ops[i].f()
				t.Trans(1)
			}
			for i, c := range keep {
				t.Check(ctHash(c) == keepH[i], "encrypt/earlier", "a ciphertext returned earlier changes in %v", hist)
			}
			for i, m := range keepM {
				for j := range m.Value {
					t.Check(cmplx.Abs(m.Value[j]-keepV[i][j]) < 1e-3, "decrypt/earlier", "a message returned earlier changes in %v", hist)
				}
			}
			t.Trace(1)
			t.State(s.Name, hist)
			return
		}
		for i := range ops {
			if !th && depth == 3 && len(hist) == 1 && (i+first)%3 != 0 {
				continue
			}
			rec(append(hist[:len(hist):len(hist)], i))
		}
	}
	rec([]int{first})
}

func imax(a, b int) int { return a + b - imin(a, b) }

// products checks the multiplication with relinearisation for all levels, receivers and operand sharings.
func products(t *h.T, s spec, mode string) {
	e := newEnv(t, s)
	kh := keyHash(e.rlk.Value)
	for _, l0 := range lv(e.L) {
		for _, l1 := range lv(e.L) {
			for _, k := range []int{1, 2, 3} {
				sc0, sc1 := s.Scale, s.Scale/4
				if k == 3 {
					sc0 = math.Exp2(55)
				}
				var p0, p1 []*big.Int
				if k == 3 { // full size phases, wrapping around
					p0, p1 = e.wide(l0, "w0"), e.wide(l1, "w1")
				} else {
					p0, p1 = e.Encode(vals(e.Slots, k), sc0), e.Encode(vals(e.Slots, k+4), sc1)
				}
				a, b := e.MakeCt(1, l0, sc0, p0), e.MakeCt(1, l1, sc1, p1)
				if mode == "square" {
					if l1 != l0 {
						continue
					}
					b, p1, sc1 = a, p0, sc0
				}
				l := imin(l0, l1)
				m := mode
				if mode == "op0" || mode == "op1" || mode == "square" {
					m = "inplace"
				}
				tgt := a
				if mode == "op1" {
					tgt = b
				}
				o, lo := e.receiver(m, tgt, l)
				if m == "inplace" && mode != "square" {
					// the level of the result cannot exceed that of either operand
					lo = l
				}
				ha, hb := ctHash(a), ctHash(b)
				if o == nil {
					o = e.ev.MulRelinNew(a, b, e.rlk)
				} else {
					e.ev.MulRelin(a, b, e.rlk, o)
				}
				t.Check(o == a || ctHash(a) == ha, "product/operand", "%s changes its first operand", mode)
				t.Check(o == b || ctHash(b) == hb, "product/operand", "%s changes its second operand", mode)
				e.Expect("product/"+mode, fmt.Sprintf("%s %s levels %d,%d kind %d", s.Name, mode, l0, l1, k), o, ck.Want{Level: lo, Degree: 1, Scale: sc0 * sc1, Ph: e.Mul(lo, p0, p1), Tol: e.KS(lo)})
				t.Eval(1)
				t.State("product", s.Name, mode, l0, l1, k)
			}
		}
	}
	t.Check(keyHash(e.rlk.Value) == kh, "product/key", "the key changes")
}

// lv lists the levels exercised.
func lv(L int) (o []int) {
	for l := 0; l <= L; l++ {
		if L > 6 && l > 2 && l < L-1 && l != L/2 {
			continue
		}
		o = append(o, l)
	}
	return
}

// wide returns a polynomial of full size.
func (e *env) wide(l int, tag string) []*big.Int {
	p := ru.JunkRed(e.N, l, e.Q, tag)
	return ref.CRTCentered(p.Coeffs, e.Q[:l+1])
}

// rotations checks every rotation amount.
func rotations(t *h.T, s spec, mode string, lo, hi int) {
	e := newEnv(t, s)
	for k := lo; k <= hi; k++ {
		rtk := e.kg.GenRotKey(k, e.Sk)
		kh := keyHash(rtk.Value)
		for _, l := range lv(e.L) {
			for _, kind := range []int{1, 2} {
				sc := s.Scale / 2
				v := vals(e.Slots, kind)
				ph := e.Encode(v, sc)
				want := e.Galois(ph, e.GaloisFor(k))
				if kind == 2 {
					ph = e.wide(l, "rot")
					want = e.Galois(ph, e.GaloisFor(k))
				} else {
					r := rot(v, k)
					for i, x := range e.Decode(want, sc) {
						t.Check(cmplx.Abs(x-r[i]) < float64(e.N)/sc+1e-9, "harness", "rotation model")
					}
				}
				c := e.MakeCt(1, l, sc, ph)
				hc := ctHash(c)
				o, lw := e.receiver(mode, c, l)
				if o == nil {
					o = e.ev.RotateNew(c, rtk)
				} else {
					e.ev.Rotate(c, rtk, o)
				}
				t.Check(o == c || ctHash(c) == hc, "rotate/operand", "the rotation by %d changes its operand", k)
				e.Expect("rotate/"+mode, fmt.Sprintf("%s rotation by %d %s level %d kind %d", s.Name, k, mode, l, kind), o, ck.Want{Level: lw, Degree: 1, Scale: sc, Ph: want, Tol: e.KS(lw)})
				t.Eval(1)
				t.State("rotate", s.Name, mode, k, l, kind)
			}
		}
		t.Check(keyHash(rtk.Value) == kh, "rotate/key", "the key changes")
	}
}

// switches checks SwitchKeys with keys of known source and target.
func switches(t *h.T, s spec, mode string) {
	e := newEnv(t, s)
	sq := make([][]uint64, len(e.S))
	for i := range sq {
		sq[i] = make([]uint64, e.N)
		for j := range sq[i] {
			sq[i][j] = ref.MulMod(e.S[i][j], e.S[i][j], e.Q[i])
		}
	}
	type key struct {
		name     string
		v        [2]*frlwe.SwitchingKey
		from, to [][]uint64
	}
	keys := []key{{"square to secret", e.rlk.Value, sq, e.S}}
	for _, k := range []int{0, 1, -3} {
		rtk := e.kg.GenRotKey(k, e.Sk)
		keys = append(keys, key{fmt.Sprint("rotation key ", k), rtk.Value, e.S, e.NTT(e.L, e.Galois(e.SI, e.GaloisFor(-k)))})
	}
	secret := e.S
	for _, k := range keys {
		for _, l := range lv(e.L) {
			for _, ntt := range []bool{true, false} {
				ph := e.wide(l, "sw")
				c := e.MakeUnder(1, l, s.Scale*3, ph, k.from)
				o, lw := e.receiver(mode, c, l)
				if !ntt {
					if mode == "new" {
						continue // receivers of the other domain are the caller's
					}
					for _, x := range []*ckks.Ciphertext{c, o} {
						if x != c || o != c {
							for i := range x.Value {
								if x == c {
									e.RQ.InvNTTLvl(l, x.Value[i], x.Value[i])
								}
								x.Value[i].IsNTT = false
							}
						} else {
							for i := range c.Value {
								if c.Value[i].IsNTT {
									e.RQ.InvNTTLvl(l, c.Value[i], c.Value[i])
									c.Value[i].IsNTT = false
								}
							}
						}
					}
				}
				hc := ctHash(c)
				if o == nil {
					o = e.ev.SwitchKeysNew(c, k.v)
				} else {
					e.ev.SwitchKeys(c, k.v, o)
				}
				t.Check(o == c || ctHash(c) == hc, "switch/operand", "SwitchKeys changes its operand")
				if !ntt {
					for i := range o.Value[:2] {
						t.Check(!o.Value[i].IsNTT, "switch/domain", "SwitchKeys changes the domain")
						e.RQ.NTTLvl(o.Level(), o.Value[i], o.Value[i])
						o.Value[i].IsNTT = true
					}
				}
				e.S = k.to
				e.Expect("switch/"+mode, fmt.Sprintf("%s %s %s level %d transformed %v", s.Name, k.name, mode, l, ntt), o, ck.Want{Level: lw, Degree: 1, Scale: s.Scale * 3, Ph: ph, Tol: e.KS(lw)})
				e.S = secret
				t.Eval(1)
				t.State("switch", s.Name, mode, k.name, l, ntt)
			}
		}
	}
}

type val struct {
	c  *ckks.Ciphertext
	ph []*big.Int
	v  []complex128
	e  float64
	ok bool
}

type pop struct {
	name string
	f    func(ev *fckks.Evaluator, a *val) *ckks.Ciphertext // nil when not applicable
	w    func(a *val) (ck.Want, []complex128, float64)
}

// programs runs all the operation sequences on one evaluator beside the model and a fresh evaluator.
func programs(t *h.T, s spec, first int, th bool) {
	e := newEnv(t, s)
	mk := func(l int, sc float64, k int) *val {
		v := vals(e.Slots, k)
		ph := e.Encode(v, sc)
		return &val{e.MakeCt(1, l, sc, ph), ph, v, float64(2*e.N) / sc, true}
	}
	B, C := mk(imax(0, e.L-1), s.Scale, 3), mk(e.L, s.Scale, 2)
	pv := mk(e.L, s.Scale, 5)
	pt := e.Make(0, e.L, s.Scale, pv.ph)
	keep := []*val{B, C}
	r1, r3, r0 := e.kg.GenRotKey(1, e.Sk), e.kg.GenRotKey(-3, e.Sk), e.kg.GenRotKey(0, e.Sk)
	zip := func(a, b []complex128, f func(x, y complex128) complex128) []complex128 {
		o := make([]complex128, len(a))
		for i := range a {
			o[i] = f(a[i], b[i])
		}
		return o
	}
	lin := func(name string, b *val, op ckks.Operand, sign int64, inplace bool) pop {
		return pop{name, func(ev *fckks.Evaluator, a *val) *ckks.Ciphertext {
			if a.c.Scale < b.c.Scale*0.99 || a.c.Scale > math.Exp2(90) {
				return nil
			}
			if inplace {
				o := a.c.CopyNew()
				if sign > 0 {
					ev.Add(o, op, o)
				} else {
					ev.Sub(o, op, o)
				}
				return o
			}
			if sign > 0 {
				return ev.AddNew(a.c, op)
			}
			return ev.SubNew(a.c, op)
		}, func(a *val) (ck.Want, []complex128, float64) {
			hi, lo := math.Max(a.c.Scale, b.c.Scale), math.Min(a.c.Scale, b.c.Scale)
			k := math.Floor(hi / lo)
			l := imin(a.c.Level(), op.Level())
			v := zip(a.v, b.v, func(x, y complex128) complex128 { return x + complex(float64(sign), 0)*y })
			er := a.e + b.e + math.Abs(hi/(k*lo)-1)*math.Max(maxv(b.v), maxv(a.v))
			ka, kb := int64(1), sign*int64(k)
			if a.c.Scale < b.c.Scale {
				ka, kb = int64(k), sign
			}
			return ck.Want{Level: l, Degree: 1, Scale: hi, Ph: e.Lin(l, ka, a.ph, kb, b.ph)}, v, er
		}}
	}
	mul := func(name string, b func(a *val) *val, mode int) pop {
		return pop{name, func(ev *fckks.Evaluator, a *val) *ckks.Ciphertext {
			if a.c.Scale > math.Exp2(300) {
				return nil
			}
			y := b(a)
			switch mode {
			case 0:
				return ev.MulRelinNew(a.c, y.c, e.rlk)
			case 1:
				o := a.c.CopyNew()
				ev.MulRelin(o, y.c, e.rlk, o)
				return o
			case 2:
				o := a.c.CopyNew()
				ev.MulRelin(y.c, o, e.rlk, o)
				return o
			case 3:
				o := a.c.CopyNew()
				ev.MulRelin(o, o, e.rlk, o)
				return o
			}
			return nil
		}, func(a *val) (ck.Want, []complex128, float64) {
			y := b(a)
			l := imin(a.c.Level(), y.c.Level())
			return ck.Want{Level: l, Degree: 1, Scale: a.c.Scale * y.c.Scale, Ph: e.Mul(l, a.ph, y.ph), Tol: e.KS(l)}, zip(a.v, y.v, func(x, z complex128) complex128 { return x * z }), a.e*maxv(y.v) + y.e*maxv(a.v) + a.e*y.e
		}}
	}
	rotation := func(name string, k int, rtk *frlwe.RotationKey, inplace bool) pop {
		return pop{name, func(ev *fckks.Evaluator, a *val) *ckks.Ciphertext {
			if inplace {
				o := a.c.CopyNew()
				ev.Rotate(o, rtk, o)
				return o
			}
			return ev.RotateNew(a.c, rtk)
		}, func(a *val) (ck.Want, []complex128, float64) {
			l := a.c.Level()
			return ck.Want{Level: l, Degree: 1, Scale: a.c.Scale, Ph: e.Galois(a.ph, e.GaloisFor(k)), Tol: e.KS(l)}, rot(a.v, k), a.e
		}}
	}
	swk := func(name string, inplace bool) pop {
		return pop{name, func(ev *fckks.Evaluator, a *val) *ckks.Ciphertext {
			if inplace {
				o := a.c.CopyNew()
				ev.SwitchKeys(o, r0.Value, o)
				return o
			}
			return ev.SwitchKeysNew(a.c, r0.Value)
		}, func(a *val) (ck.Want, []complex128, float64) {
			l := a.c.Level()
			return ck.Want{Level: l, Degree: 1, Scale: a.c.Scale, Ph: a.ph, Tol: e.KS(l)}, a.v, a.e
		}}
	}
	ops := []pop{
		lin("add ciphertext in place", B, B.c, 1, true),
		lin("sub ciphertext", C, C.c, -1, false),
		lin("add plaintext", pv, pt, 1, false),
		lin("sub plaintext in place", pv, pt, -1, true),
		mul("mul", func(*val) *val { return B }, 0),
		mul("mul into first", func(*val) *val { return C }, 1),
		mul("mul into second", func(*val) *val { return B }, 2),
		mul("square", func(a *val) *val { return a }, 0),
		mul("square in place", func(a *val) *val { return a }, 3),
		rotation("rotate by 1", 1, r1, false),
		rotation("rotate by -3 in place", -3, r3, true),
		rotation("rotate by 0", 0, r0, false),
		swk("switch keys", false),
		swk("switch keys in place", true),
		{"drop", func(ev *fckks.Evaluator, a *val) *ckks.Ciphertext {
			if a.c.Level() == 0 {
				return nil
			}
			return ev.DropLevelNew(a.c, 1)
		}, func(a *val) (ck.Want, []complex128, float64) {
			return ck.Want{Level: a.c.Level() - 1, Degree: 1, Scale: a.c.Scale, Ph: a.ph}, a.v, a.e
		}},
		{"rescale", func(ev *fckks.Evaluator, a *val) *ckks.Ciphertext {
			if a.c.Level() == 0 {
				return nil
			}
			o := a.c.CopyNew()
			if err := ev.Rescale(o, s.Scale, o); err != nil {
				t.Fail("program/rescale", "%v", err)
			}
			return o
		}, func(a *val) (ck.Want, []complex128, float64) {
			lo, so := a.c.Level(), a.c.Scale
			for lo > 0 && so/float64(e.Q[lo]) >= s.Scale/2 {
				so /= float64(e.Q[lo])
				lo--
			}
			w := ck.Want{Level: lo, Degree: 1, Scale: so, Ph: make([]*big.Int, e.N), Tol: new(big.Int)}
			den := new(big.Int).Div(e.QL[a.c.Level()], e.QL[lo])
			for i := range w.Ph {
				w.Ph[i] = ref.RoundDiv(a.ph[i], den)
			}
			if lo < a.c.Level() {
				w.Tol.SetInt64(3)
				w.Tol.Add(w.Tol, e.SP[1])
			}
			return w, a.v, a.e
		}},
		{"mult by i", func(ev *fckks.Evaluator, a *val) *ckks.Ciphertext { return ev.MultByiNew(a.c) }, func(a *val) (ck.Want, []complex128, float64) {
			l := a.c.Level()
			return ck.Want{Level: l, Degree: 1, Scale: a.c.Scale, Ph: e.Gauss(l, a.ph, new(big.Int), big.NewInt(1))}, zip(a.v, a.v, func(x, _ complex128) complex128 { return x * 1i }), a.e
		}},
	}
	if first >= len(ops) {
		return
	}
	depth := 3
	if th && s.LogN == 4 && e.L < 5 {
		depth = 4
	}
	if e.L > 8 {
		depth = 2
	}
	if s.LogN > 8 {
		depth = 1
	}
	dec := fckks.NewDecryptor(e.F, e.Sk)
	var hashes []uint64
	for _, x := range keep {
		hashes = append(hashes, ctHash(x.c))
	}
	hk := h.Hash(keyHash(e.rlk.Value), keyHash(r1.Value), keyHash(r3.Value), keyHash(r0.Value))
	var rec func(a *val, hist []int)
	rec = func(a *val, hist []int) {
		if len(hist) == depth {
			t.Trace(1)
			t.StateHash(ctHash(a.c))
			if a.ok && e.F.Slots() == e.Slots {
				got := dec.DecryptToMsgNew(a.c)
				for i, x := range got.Value {
					t.Check(cmplx.Abs(x-a.v[i]) <= a.e+maxv(a.v)*math.Exp2(-40), "program/decrypt", "%v: slot %d decrypts to %v, want %v, bound %g", names(ops, hist), i, x, a.v[i], a.e)
				}
			}
			return
		}
		for i, o := range ops {
			if len(hist) == 0 {
				if i != first {
					continue
				}
				a = mk(e.L, s.Scale, 1)
			}
			w := ctHash(a.c)
			c := o.f(e.ev, a)
			t.Check(ctHash(a.c) == w, "program/operand", "%s modifies its operand", o.name)
			if c == nil {
				continue
			}
			want, v, er := o.w(a)
			got := e.Expect("program/"+o.name, fmt.Sprint(names(ops, append(hist[:len(hist):len(hist)], i))), c, want)
			// the same on a fresh evaluator
			if len(hist) > 0 && len(hist) < 3 {
				f := o.f(fckks.NewEvaluator(e.F), a)
				t.Check(ctHash(f) == ctHash(c), "program/history", "%s gives another result after %v than on a fresh evaluator", o.name, names(ops, hist))
			}
			r := &val{c, got, v, er, a.ok}
			if want.Tol != nil {
				r.e += e.SlotErr(want.Tol, c.Scale)
			}
			r.e += maxv(v) * math.Exp2(-45)
			q, _ := new(big.Float).SetInt(e.QL[c.Level()]).Float64()
			if (maxv(v)+r.e)*c.Scale*4 > q {
				r.ok = false
			}
			if r.ok {
				for i, x := range e.Decode(got, c.Scale) {
					t.Check(cmplx.Abs(x-v[i]) <= r.e, "program/slots", "after %s (level %d scale %g): slot %d is %v, want %v, bound %g", o.name, c.Level(), c.Scale, i, x, v[i], r.e)
				}
			}
			t.Trans(1)
			hc := ctHash(c)
			rec(r, append(hist[:len(hist):len(hist)], i))
			t.Check(ctHash(c) == hc, "program/earlier", "the result of %s is changed by later operations", o.name)
		}
	}
	rec(nil, nil)
	for i, x := range keep {
		t.Check(ctHash(x.c) == hashes[i], "program/operand", "an operand is modified")
	}
	t.Check(hk == h.Hash(keyHash(e.rlk.Value), keyHash(r1.Value), keyHash(r3.Value), keyHash(r0.Value)), "program/key", "a key is modified")
}

func names(ops []pop, hist []int) (o []string) {
	for _, i := range hist {
		o = append(o, ops[i].name)
	}
	return
}

// params compares the parameters with the ordinary ones.
func params(t *h.T, s spec) {
	e := newEnv(t, s)
	R := e.F.RingR().Modulus
	want := append(append([]uint64{}, s.P...), s.Q...)
	t.Check(fmt.Sprint(R) == fmt.Sprint(want), "params/ringR", "the moduli of R are %v, want %v", R, want)
	t.Check(fmt.Sprint(e.F.Q()) == fmt.Sprint(s.Q) && fmt.Sprint(e.F.P()) == fmt.Sprint(s.P), "params/moduli", "moduli")
	t.Check(e.F.N() == e.N && e.F.MaxLevel() == len(s.Q)-1 && e.F.DefaultScale() == s.Scale, "params/shape", "shape")
	m := fckks.NewMessage(e.F)
	t.Check(m.Slots() == e.F.Slots() && len(m.Value) == m.Slots(), "params/message", "a message has %d slots, want %d", m.Slots(), e.F.Slots())
	m2 := fckks.NewMessage(e.F)
	m2.Value[0] = 1
	t.Check(m.Value[0] == 0, "params/message", "messages share their values")
	t.Eval(1)
	t.State("params", s.Name)
}

func run(c *h.Ctx) {
	logs := []int{11, 12}
	if c.Thorough {
		logs = []int{9, 10, 11, 12, 13}
	}
	for _, ln := range logs {
		s := largeSpec(ln)
		for f := 0; f < 40; f++ {
			f := f
			c.Case("large", fmt.Sprintf("large/%s/messages/%d", s.Name, f), func(t *h.T) { messages(t, s, f, false) })
		}
		for f := 0; f < 17; f++ {
			f := f
			c.Case("large", fmt.Sprintf("large/%s/programs/%d", s.Name, f), func(t *h.T) { programs(t, s, f, false) })
		}
		n := 1 << uint(ln)
		for _, k := range []int{-n, -n/2 - 1, -1, 0, 1, 5, n/4 + 1, n/2 - 1, n / 2, n - 1} {
			k := k
			c.Case("large", fmt.Sprintf("large/%s/rotation/%d", s.Name, k), func(t *h.T) { rotations(t, s, "fresh", k, k) })
		}
		c.Case("large", fmt.Sprintf("large/%s/product", s.Name), func(t *h.T) { products(t, s, "new") })
		c.Case("large", fmt.Sprintf("large/%s/switch", s.Name), func(t *h.T) { switches(t, s, "new") })
	}
	for _, s := range specs(c.Thorough) {
		s := s
		c.Case("params", "params/"+s.Name, func(t *h.T) { params(t, s) })
		for f := 0; f < 40; f++ {
			f := f
			if f >= 17 && !s.deep && !c.Thorough {
				break
			}
			c.Case("messages", fmt.Sprintf("messages/%s/%d", s.Name, f), func(t *h.T) { messages(t, s, f, c.Thorough) })
		}
		for _, m := range []string{"new", "fresh", "higher", "degree2", "lower", "op0", "op1", "square"} {
			m := m
			c.Case("product", fmt.Sprintf("product/%s/%s", s.Name, m), func(t *h.T) { products(t, s, m) })
		}
		n := 1 << uint(s.LogN)
		for _, m := range []string{"new", "fresh", "higher", "lower", "inplace"} {
			m := m
			for lo := -n; lo <= n; lo += 8 {
				lo := lo
				if s.LogN > 4 && lo != -n && lo != 0 && lo != n || !s.deep && lo != 0 && lo != -8 {
					continue
				}
				c.Case("rotation", fmt.Sprintf("rotation/%s/%s/%d", s.Name, m, lo), func(t *h.T) { rotations(t, s, m, lo, imin(lo+7, n)) })
			}
			c.Case("switch", fmt.Sprintf("switch/%s/%s", s.Name, m), func(t *h.T) { switches(t, s, m) })
		}
		for f := 0; f < 17; f++ {
			f := f
			c.Case("programs", fmt.Sprintf("programs/%s/%d", s.Name, f), func(t *h.T) { programs(t, s, f, c.Thorough) })
		}
	}
}

func main() {
	h.Main(h.Info{ID: "C18", Level: "model_checking",
		Rule:          "all programs of the given depth over 17 operations of the fast evaluator are run beside an exact integer model of the phase, level and scale, and the operations of each program beside a fresh evaluator bit by bit; all histories of message encryptions and decryptions of the given depth on one encryptor and decryptor; every product, rotation and key switch for all levels, receivers and operand sharings is compared with the exact phase under the worst-case key-switching bound",
		Bounds:        "6 (thorough 13) layouts of degree 16 (to 256), single operations in degree 2048 and 4096 (512-8192), 1-12 (99) primes, 1-3 auxiliary primes, one layout of 40+34 primes, block sizes 1-5, the shortest big-prime chains satisfying the size condition; all pairs of levels; every rotation amount in [-N,N]; programs of depth 3 (thorough 4); message histories of depth 2-3",
		Assumptions:   []string{"the transforms are those decided by C03", "receivers of transformed operands are in the NTT domain"},
		QuickDeadline: 200, ThoroughDeadline: 850}, run)
}
