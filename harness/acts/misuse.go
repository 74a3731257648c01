package acts

import (
	"fmt"
	"math"
	"sort"

	"fast-ksw/ckks"
	"fast-ksw/fckks"
	"fast-ksw/frlwe"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"verifharness/h"
	"verifharness/pu"
	"verifharness/ru"
)

// Miss is a use outside the documented preconditions: it must be refused, by an error or a panic.
type Miss struct {
	Name string
	F    func(o interface{}) error
}

// Refused runs a misuse and tells whether it is refused.
func (m Miss) Refused(o interface{}) (refused bool) {
	defer func() {
		if recover() != nil {
			refused = true
		}
	}()
	return m.F(o) != nil
}

// MisuseKinds lists the kinds with misuses.
func MisuseKinds() []string {
	return []string{"evaluator/std", "evaluator/ci", "evaluator/wide", "keyless/std", "encoder/std", "encoder/ci", "bigencoder/std",
		"encryptor-pk/std", "encryptor-pk/ci", "encryptor-pk/nop", "encryptor-sk/std", "encryptor-sk/ci", "decryptor/std",
		"fast-keyswitcher/std", "fast-keyswitcher/wide", "fast-evaluator/std", "fast-messages/std", "keygen/std", "ring/std"}
}

// Misuse builds a kind with its misuses.
func Misuse(t *h.T, name string) *Kind {
	if name == "keyless/std" {
		return keyless(t)
	}
	k := New(t, name)
	w := &world{Env: k.Env, t: t}
	valid := k.Operands
	k.Operands = func() uint64 { return h.Hash(valid(), w.operands()) }
	switch k.New().(type) {
	case Full:
		w.evaluatorMisuse(k, w.P.RingType() == ring.ConjugateInvariant)
	case ckks.Encoder:
		w.encoderMisuse(k)
	case ckks.EncoderBigComplex:
		w.bigEncoderMisuse(k)
	case encs:
		w.encryptorMisuse(k, name[10] == 'p')
	case decs:
		w.decryptorMisuse(k)
	case *frlwe.KeySwitcher:
		w.fastKSMisuse(k)
	case *fckks.Evaluator:
		w.fastEvalMisuse(k)
	case msgs:
		w.fastMsgMisuse(k)
	case rlwe.KeyGenerator:
		w.keygenMisuse(k)
	case *ring.Ring:
		w.ringMisuse(k)
	default:
		panic(name)
	}
	return k
}

// nonNTT is a shared ciphertext one part of which is not in the NTT domain.
func (w *world) nonNTT(deg, part, lvl int, scale float64, tag string) *ckks.Ciphertext {
	c := w.ct(deg, lvl, scale, tag)
	c.Value[part].IsNTT = false
	return c
}

func (w *world) evaluatorMisuse(k *Kind, ci bool) {
	L, sc := w.L, w.Spec.Scale
	miss := func(name string, f func(ev Full) error) {
		k.Miss = append(k.Miss, Miss{name, func(o interface{}) error { return f(o.(Full)) }})
	}
	void := func(name string, f func(ev Full)) { miss(name, func(ev Full) error { f(ev); return nil }) }
	// everything that is used in place is a shared operand: a refusal may not modify it
	one, low, two := w.ct(1, L, sc, "m1"), w.ct(1, 0, sc, "m0"), w.ct(2, L, sc*4, "m2")
	mid := w.ct(1, 1, sc, "mm")
	n0, n1, n2 := w.nonNTT(1, 0, L, sc, "n0"), w.nonNTT(1, 1, L-1, sc, "n1"), w.nonNTT(2, 2, L, sc, "n2")
	three := w.ct(3, L, sc, "m3")
	p := w.pt(L, sc, "mp")
	pn := w.pt(L, sc, "mpn")
	pn.Value.IsNTT = false
	zs := w.ct(1, L, 0, "mz")
	for i, b := range k.Bin {
		b := b
		in := func(name string, x, y ckks.Operand, o *ckks.Ciphertext) {
			void(b.Name+" "+name, func(ev Full) { b.Into(ev, x, y, o) })
		}
		in("two plaintexts", p, p, low)
		if b.Mul {
			in("degree 2 in place", two, low, two)
			in("degree 2 second", mid, two, one)
		} else {
			in("receiver of too small a degree", two, one, mid)
		}
		switch i % 4 {
		case 0:
			in("first part not transformed", n0, mid, n0)
			in("no operand", nil, one, mid)
		case 1:
			in("second operand not transformed", one, n1, one)
			in("plaintext not transformed", pn, mid, mid)
		case 2:
			in("first operand not transformed", n1, one, mid)
			in("no second operand", one, nil, mid)
		case 3:
			in("second plaintext not transformed", one, pn, low)
			in("third part not transformed", n2, one, one)
		}
	}
	for _, d := range []struct {
		a, b *ckks.Ciphertext
		n    string
	}{{one, two, "larger"}, {two, one, "smaller"}} {
		d := d
		void("Neg into a receiver of a "+d.n+" degree", func(ev Full) { ev.Neg(d.a, d.b) })
		miss("Reduce into a receiver of a "+d.n+" degree", func(ev Full) error { return ev.Reduce(d.a, d.b) })
		miss("Rescale into a receiver of a "+d.n+" degree", func(ev Full) error { return ev.Rescale(d.a, 1, d.b) })
		void("SwitchKeys degrees "+d.n, func(ev Full) { ev.SwitchKeys(d.a, nil, d.b) })
		void("Rotate degrees "+d.n, func(ev Full) { ev.Rotate(d.a, 1, d.b) })
		if !ci {
			void("Conjugate degrees "+d.n, func(ev Full) { ev.Conjugate(d.a, d.b) })
		}
	}
	miss("Rescale to a scale 0", func(ev Full) error { return ev.Rescale(one, 0, one) })
	miss("Rescale to a negative scale", func(ev Full) error { return ev.Rescale(one, -sc, one) })
	miss("Rescale of a scale 0", func(ev Full) error { return ev.Rescale(zs, 1, zs) })
	miss("Rescale at level 0", func(ev Full) error { return ev.Rescale(low, 1, low) })
	miss("Rescale into a lower receiver", func(ev Full) error { return ev.Rescale(one, 1, mid) })
	miss("Rescale into a higher receiver", func(ev Full) error { return ev.Rescale(mid, 1, one) })
	miss("Rescale not transformed", func(ev Full) error { return ev.Rescale(n0, 1, n0) })
	miss("Rescale second part not transformed", func(ev Full) error { return ev.Rescale(n1, 1, n1) })
	void("SetScale at level 0", func(ev Full) { ev.SetScale(low, sc*1.5) })
	void("Relinearize degree 1", func(ev Full) { ev.Relinearize(one, one) })
	void("Relinearize degree 3", func(ev Full) { ev.Relinearize(three, three) })
	void("RelinearizeNew degree 1", func(ev Full) { ev.RelinearizeNew(low) })
	void("Rotate without its key", func(ev Full) { ev.Rotate(one, 2, one) })
	void("RotateNew without its key", func(ev Full) { ev.RotateNew(low, -1) })
	void("PermuteNTTHoisted without its key", func(ev Full) {
		ev.PermuteNTTHoisted(L, one.Value[0], one.Value[1], nil, 2, one.Value[0], one.Value[1])
	})
	if ci {
		void("MultByi", func(ev Full) { ev.MultByi(one, one) })
		void("MultByiNew", func(ev Full) { ev.MultByiNew(one) })
		void("DivByi", func(ev Full) { ev.DivByi(one, one) })
		void("DivByiNew", func(ev Full) { ev.DivByiNew(low) })
		void("Conjugate", func(ev Full) { ev.Conjugate(one, one) })
		void("ConjugateNew", func(ev Full) { ev.ConjugateNew(one) })
	}
	void("MultByGaussianInteger of another type", func(ev Full) { ev.MultByGaussianInteger(one, 3.5, int64(1), one) })
}

// keyless is an evaluator without any key.
func keyless(t *h.T) *Kind {
	k := New(t, "evaluator/std")
	w := &world{Env: k.Env, t: t}
	valid := k.Operands
	k.Operands = func() uint64 { return h.Hash(valid(), w.operands()) }
	k.Name = "keyless/std"
	k.New = func() interface{} { return ckks.NewEvaluator(w.P, rlwe.EvaluationKey{}).(Full) }
	var a []Act
	for _, x := range k.Acts { // those that need no key
		if !(Miss{F: func(o interface{}) error { x.F(o); return nil }}).Refused(k.New()) {
			a = append(a, x)
		}
	}
	k.Acts = a
	L, sc := w.L, w.Spec.Scale
	void := func(name string, f func(ev Full)) {
		k.Miss = append(k.Miss, Miss{name, func(o interface{}) error { f(o.(Full)); return nil }})
	}
	one, two, mid := w.ct(1, L, sc, "k1"), w.ct(2, L, sc, "k2"), w.ct(1, 1, sc, "k3")
	void("MulRelin", func(ev Full) { ev.MulRelin(one, mid, one) })
	void("MulRelin square", func(ev Full) { ev.MulRelin(one, one, one) })
	void("MulRelinNew", func(ev Full) { ev.MulRelinNew(one, mid) })
	void("MulRelinAndAdd", func(ev Full) { ev.MulRelinAndAdd(mid, mid, one) })
	void("Relinearize", func(ev Full) { ev.Relinearize(two, two) })
	void("RelinearizeNew", func(ev Full) { ev.RelinearizeNew(two) })
	void("Rotate", func(ev Full) { ev.Rotate(one, 1, one) })
	void("RotateNew", func(ev Full) { ev.RotateNew(mid, 1) })
	void("Conjugate", func(ev Full) { ev.Conjugate(mid, mid) })
	void("ConjugateNew", func(ev Full) { ev.ConjugateNew(one) })
	void("SwitchKeys", func(ev Full) { ev.SwitchKeys(one, nil, one) })
	return k
}

func (w *world) encoderMisuse(k *Kind) {
	L, ml := w.L, w.Spec.MaxLog()
	void := func(name string, f func(e ckks.Encoder)) {
		k.Miss = append(k.Miss, Miss{name, func(o interface{}) error { f(o.(ckks.Encoder)); return nil }})
	}
	full, more := w.values(1<<uint(ml), "xf"), w.values(1<<uint(ml)+1, "xm")
	fl := make([]float64, w.N+1)
	fs := make([]float64, 5)
	w.all = append(w.all, func() uint64 { return h.Hash(hashC(full), hashC(more), hashF(fl), hashF(fs)) })
	p, co := w.pt(L, 1<<40, "xp"), w.pt(1, 1<<40, "xc")
	co.Value.IsNTT = false
	q := ru.JunkRed(w.N, L, w.Q, "xq")
	w.op(q)
	for _, ls := range []int{ml + 1, ml + 3, -1, -5} {
		ls := ls
		n := fmt.Sprintf(" 2^%d slots", ls)
		void("Encode"+n, func(e ckks.Encoder) { e.Encode(full[:1], p, ls) })
		void("EncodeSlots reals"+n, func(e ckks.Encoder) { e.EncodeSlots(fs[:1], co, ls) })
		void("EncodeNew"+n, func(e ckks.Encoder) { e.EncodeNew(full, L, 1<<40, ls) })
		void("Embed"+n, func(e ckks.Encoder) { e.Embed(full[:1], ls, 1<<20, true, q) })
		void("Decode"+n, func(e ckks.Encoder) { e.Decode(p, ls) })
		void("DecodeSlots untransformed"+n, func(e ckks.Encoder) { e.DecodeSlots(co, ls) })
		void("DecodePublic"+n, func(e ckks.Encoder) { e.DecodePublic(p, ls, 8) })
	}
	void("Encode more values than slots", func(e ckks.Encoder) { e.Encode(full, p, ml-1) })
	void("Encode more values than the most slots", func(e ckks.Encoder) { e.Encode(more, p, ml) })
	void("Encode three values in two slots", func(e ckks.Encoder) { e.Encode(full[:3], co, 1) })
	void("Encode five reals in four slots", func(e ckks.Encoder) { e.EncodeSlots(fs, p, 2) })
	void("EncodeSlotsNew more values than slots", func(e ckks.Encoder) { e.EncodeSlotsNew(full[:2], L, 1<<30, 0) })
	void("EncodeSlotsNew more reals than slots", func(e ckks.Encoder) { e.EncodeSlotsNew(fs[:2], L, 1<<30, 0) })
	void("Encode more reals than the most slots", func(e ckks.Encoder) { e.Encode(fl[:len(more)], p, ml) })
	void("Embed more values than slots", func(e ckks.Encoder) { e.Embed(full, ml-1, 1<<20, false, q) })
	void("Encode integers", func(e ckks.Encoder) { e.Encode([]int{1, 2}, p, ml) })
	void("Encode nothing", func(e ckks.Encoder) { e.Encode(nil, p, ml) })
	void("Encode a single value", func(e ckks.Encoder) { e.Encode(complex(1, 2), p, ml) })
	void("Embed in a plaintext", func(e ckks.Encoder) { e.Embed(full, ml, 1<<20, true, p) })
	void("Embed in residues", func(e ckks.Encoder) { e.Embed(full, ml, 1<<20, true, q.Coeffs) })
	void("EncodeCoeffs too many", func(e ckks.Encoder) { e.EncodeCoeffs(fl, p) })
	void("EncodeCoeffsNew too many", func(e ckks.Encoder) { e.EncodeCoeffsNew(fl, 0, 1<<20) })
}

func (w *world) bigEncoderMisuse(k *Kind) {
	L, ml := w.L, w.Spec.MaxLog()
	void := func(name string, f func(e ckks.EncoderBigComplex)) {
		k.Miss = append(k.Miss, Miss{name, func(o interface{}) error { f(o.(ckks.EncoderBigComplex)); return nil }})
	}
	v := make([]*ring.Complex, 4<<uint(ml))
	for i := range v {
		v[i] = ring.NewComplex(ring.NewFloat(float64(i)+0.5, 100), ring.NewFloat(-float64(i), 100))
	}
	w.all = append(w.all, func() uint64 {
		x := uint64(0)
		for _, z := range v {
			a, _ := z.Real().Float64()
			b, _ := z.Imag().Float64()
			x = h.Hash(x, math.Float64bits(a), math.Float64bits(b))
		}
		return x
	})
	p, co := w.pt(L, 1<<40, "yp"), w.pt(1, 1<<40, "yc")
	co.Value.IsNTT = false
	for _, ls := range []int{ml + 1, ml + 2} {
		ls := ls
		void(fmt.Sprintf("Encode 2^%d slots", ls), func(e ckks.EncoderBigComplex) { e.Encode(v[:1<<uint(ls)], p, ls) })
		void(fmt.Sprintf("Encode few in 2^%d slots", ls), func(e ckks.EncoderBigComplex) { e.Encode(v[:1], p, ls) })
		void(fmt.Sprintf("EncodeNew 2^%d slots", ls), func(e ckks.EncoderBigComplex) { e.EncodeNew(v[:1<<uint(ls)], 0, 1<<20, ls) })
		void(fmt.Sprintf("Decode 2^%d slots", ls), func(e ckks.EncoderBigComplex) { e.Decode(p, ls) })
		void(fmt.Sprintf("Decode untransformed 2^%d slots", ls), func(e ckks.EncoderBigComplex) { e.Decode(co, ls) })
		void(fmt.Sprintf("DecodePublic 2^%d slots", ls), func(e ckks.EncoderBigComplex) { e.DecodePublic(p, ls, 8) })
	}
	void("Encode too few values", func(e ckks.EncoderBigComplex) { e.Encode(v[:(1<<uint(ml))-1], p, ml) })
	void("Encode one value in two slots", func(e ckks.EncoderBigComplex) { e.Encode(v[:1], co, 1) })
	void("Encode too many values", func(e ckks.EncoderBigComplex) { e.Encode(v[:3], p, 1) })
	void("Encode no value", func(e ckks.EncoderBigComplex) { e.Encode(nil, p, 2) })
}

// misfits are things that are not keys of the parameters.
func (w *world) misfits() map[string]interface{} {
	m := map[string]interface{}{"nothing": nil, "a string": "key", "a switching key": rlwe.NewSwitchingKey(w.P.Parameters, w.L, 0)}
	for _, d := range []int{1, 2} {
		m0 := pu.M0(w.Spec.LogN+d, w.P.RingType())
		q := ru.Mixed(m0, 50, 40)
		P, err := rlwe.NewParametersFromLiteral(rlwe.ParametersLiteral{LogN: w.Spec.LogN + d, Q: q[:1], P: q[1:], Sigma: 3.2, H: 4, RingType: w.P.RingType()})
		if err != nil {
			panic(err)
		}
		sk, pk := rlwe.NewKeyGenerator(P).GenKeyPair()
		m[fmt.Sprintf("a secret key of degree %d", P.N())] = sk
		m[fmt.Sprintf("a public key of degree %d", P.N())] = pk
		mixed := &rlwe.PublicKey{Value: pk.Value}
		mixed.Value[0] = w.P.RingQP().NewPoly()
		m[fmt.Sprintf("a public key with a part of degree %d", P.N())] = mixed
	}
	return m
}

func (w *world) encryptorMisuse(k *Kind, pk bool) {
	void := func(name string, f func(e encs)) {
		k.Miss = append(k.Miss, Miss{name, func(o interface{}) error { f(o.(encs)); return nil }})
	}
	L := w.L
	p, c, crp := w.pt(L, 1<<30, "zp"), w.ct(1, L, 9, "zc"), ru.JunkRed(w.N, L, w.Q, "zr")
	w.op(crp)
	if pk {
		void("rlwe from a common polynomial", func(e encs) { e.r.EncryptFromCRP(p.Plaintext, crp, c.Ciphertext) })
		void("ckks from a common polynomial", func(e encs) { e.c.EncryptFromCRP(p, crp, c) })
		void("ckks new from a common polynomial", func(e encs) { e.c.EncryptFromCRPNew(p, crp) })
	}
	m := w.misfits()
	for _, n := range sortedKeys(m) {
		n := n
		key := m[n]
		void("rlwe with "+n, func(e encs) { e.r.WithKey(key) })
		void("ckks with "+n, func(e encs) { e.c.WithKey(key) })
		void("rlwe new with "+n, func(e encs) { rlwe.NewEncryptor(w.P.Parameters, key) })
		void("ckks new with "+n, func(e encs) { ckks.NewEncryptor(w.P, key) })
	}
}

func (w *world) decryptorMisuse(k *Kind) {
	m := w.misfits()
	for _, n := range sortedKeys(m) {
		if sk, ok := m[n].(*rlwe.SecretKey); ok {
			k.Miss = append(k.Miss, Miss{"rlwe new with " + n, func(interface{}) error { rlwe.NewDecryptor(w.P.Parameters, sk); return nil }},
				Miss{"ckks new with " + n, func(interface{}) error { ckks.NewDecryptor(w.P, sk); return nil }})
		}
	}
}

func (w *world) fastKSMisuse(k *Kind) {
	s := w.Spec
	g := len(s.P) + 1
	P := frlwe.NewParametersFromLiteral(frlwe.ParametersLiteral{LogN: s.LogN, Q: s.Q, P: s.P, T: pu.TChain(s.LogN, s.Q, s.P, g, 60), Sigma: 3.2, H: s.H, Gamma: g})
	kg := frlwe.NewKeyGenerator(P)
	rlk := kg.GenRelinKey(kg.GenSecretKey())
	for l := 0; l <= w.L; l++ {
		l := l
		a := ru.JunkRed(w.N, l, w.Q, fmt.Sprint("fa", l))
		a.IsNTT = true
		c0, c1 := ru.JunkRed(w.N, l, w.Q, "fc0"), ru.JunkRed(w.N, l, w.Q, "fc1")
		w.op(a, c0, c1)
		k.Miss = append(k.Miss, Miss{fmt.Sprintf("SwitchKey of a transformed operand at level %d", l), func(o interface{}) error {
			o.(*frlwe.KeySwitcher).SwitchKey(l, a, rlk.Value[0], rlk.Value[1], c0, c1)
			return nil
		}}, Miss{fmt.Sprintf("SwitchKey of a transformed operand in place at level %d", l), func(o interface{}) error {
			o.(*frlwe.KeySwitcher).SwitchKey(l, a, rlk.Value[0], rlk.Value[1], a, c1)
			return nil
		}})
	}
}

func (w *world) fastEvalMisuse(k *Kind) {
	L, sc := w.L, w.Spec.Scale
	one, low, two, mid := w.ct(1, L, sc, "f1"), w.ct(1, 0, sc, "f0"), w.ct(2, L, sc, "f2"), w.ct(1, 1, sc, "fm")
	n0, n1 := w.nonNTT(1, 0, L, sc, "fn0"), w.nonNTT(1, 1, 1, sc, "fn1")
	p := w.pt(L, sc, "fp")
	miss := func(name string, f func(e *fckks.Evaluator) error) {
		k.Miss = append(k.Miss, Miss{name, func(o interface{}) error { return f(o.(*fckks.Evaluator)) }})
	}
	void := func(name string, f func(e *fckks.Evaluator)) {
		miss(name, func(e *fckks.Evaluator) error { f(e); return nil })
	}
	type E = *fckks.Evaluator
	void("Add two plaintexts", func(e E) { e.Add(p, p, one) })
	void("Sub two plaintexts", func(e E) { e.Sub(p, p, low) })
	void("Add receiver of too small a degree", func(e E) { e.Add(two, one, mid) })
	void("Sub receiver of too small a degree", func(e E) { e.Sub(mid, two, one) })
	void("Add not transformed", func(e E) { e.Add(n0, one, one) })
	void("Sub not transformed", func(e E) { e.Sub(one, n1, n1) })
	void("Add nothing", func(e E) { e.Add(nil, one, one) })
	void("MulRelin degree 2", func(e E) { e.MulRelin(two, one, nil, one) })
	void("MulRelin second degree 2", func(e E) { e.MulRelin(mid, two, nil, two) })
	void("MulRelinNew degree 2", func(e E) { e.MulRelinNew(two, one, nil) })
	void("MulRelin not transformed", func(e E) { e.MulRelin(n0, one, nil, one) })
	void("MulRelin second not transformed", func(e E) { e.MulRelin(one, n1, nil, n1) })
	void("Mul two plaintexts", func(e E) { e.Mul(p, p, low) })
	void("Neg degrees", func(e E) { e.Neg(one, two) })
	miss("Reduce degrees", func(e E) error { return e.Reduce(two, one) })
	miss("Rescale at level 0", func(e E) error { return e.Rescale(low, 1, low) })
	miss("Rescale to a scale 0", func(e E) error { return e.Rescale(one, 0, one) })
	miss("Rescale levels", func(e E) error { return e.Rescale(one, 1, mid) })
	miss("Rescale not transformed", func(e E) error { return e.Rescale(n0, 1, n0) })
	void("SetScale at level 0", func(e E) { e.SetScale(low, sc*3) })
	void("Conjugate without key", func(e E) { e.Conjugate(one, one) })
	void("Relinearize without key", func(e E) { e.Relinearize(two, two) })
}

func (w *world) fastMsgMisuse(k *Kind) {
	F := w.P
	more := w.values(F.Slots()+1, "gm")
	c := w.ct(1, w.L, 5, "gc")
	w.all = append(w.all, func() uint64 { return hashC(more) })
	void := func(name string, f func(e msgs)) {
		k.Miss = append(k.Miss, Miss{name, func(o interface{}) error { f(o.(msgs)); return nil }})
	}
	void("EncryptMsg of too many values", func(e msgs) { e.e.EncryptMsg(&fckks.Message{Value: more}, c) })
	void("EncryptMsgNew of too many values", func(e msgs) { e.e.EncryptMsgNew(&fckks.Message{Value: more}) })
	void("EncryptFromCRP", func(e msgs) {
		e.e.EncryptFromCRP(ckks.NewPlaintext(F, w.L, 1), ring.NewPoly(w.N, w.L+1), c)
	})
	m := w.misfits()
	for _, n := range sortedKeys(m) {
		key := m[n]
		void("with "+n, func(e msgs) { e.e.WithKey(key) })
	}
}

func (w *world) keygenMisuse(k *Kind) {
	q := ru.Mixed(pu.M0(w.Spec.LogN, w.P.RingType()), 50, 40)
	P, err := rlwe.NewParametersFromLiteral(rlwe.ParametersLiteral{LogN: w.Spec.LogN, Q: q, P: []uint64{}, Sigma: 3.2, H: 4})
	if err != nil {
		panic(err)
	}
	g := rlwe.NewKeyGenerator(P)
	sk := g.GenSecretKey()
	w.all = append(w.all, func() uint64 { return pu.PolyHash(sk.Value.Q) })
	void := func(name string, f func()) {
		k.Miss = append(k.Miss, Miss{name, func(interface{}) error { f(); return nil }})
	}
	void("GenRelinearizationKey without auxiliary modulus", func() { g.GenRelinearizationKey(sk, 1) })
	void("GenSwitchingKey without auxiliary modulus", func() { g.GenSwitchingKey(sk, sk) })
	void("GenSwitchingKeyForGalois without auxiliary modulus", func() { g.GenSwitchingKeyForGalois(5, sk) })
	void("GenRotationKeys without auxiliary modulus", func() { g.GenRotationKeysForRotations([]int{1}, false, sk) })
	void("GenSwitchingKeyForRowRotation without auxiliary modulus", func() { g.GenSwitchingKeyForRowRotation(sk) })
	k.Miss = append(k.Miss, Miss{"secret of density 0", func(o interface{}) error { o.(rlwe.KeyGenerator).GenSecretKeyWithDistrib(0); return nil }})
	ci, err := rlwe.NewParametersFromLiteral(rlwe.ParametersLiteral{LogN: w.Spec.LogN, Q: ru.Mixed(pu.M0(w.Spec.LogN, ring.ConjugateInvariant), 50), P: []uint64{}, Sigma: 3.2, H: 4, RingType: ring.ConjugateInvariant})
	if err != nil {
		panic(err)
	}
	void("Galois element of the row rotation in the conjugate-invariant ring", func() { ci.GaloisElementForRowRotation() })
}

func (w *world) ringMisuse(k *Kind) {
	const N = 32
	q := ru.Mixed(pu.M0(5, ring.ConjugateInvariant), 50, 40)
	small, err := ring.NewRingConjugateInvariant(N/2, q)
	if err != nil {
		panic(err)
	}
	perm := small.PermuteNTTIndex(small.NthRoot - 1)
	full, half, quarter := ru.JunkRed(N, 1, q, "r1"), ru.JunkRed(N/2, 1, q, "r2"), ru.JunkRed(N/4, 1, q, "r3")
	w.op(full, half, quarter)
	void := func(name string, f func(r *ring.Ring)) {
		k.Miss = append(k.Miss, Miss{name, func(o interface{}) error { f(o.(*ring.Ring)); return nil }})
	}
	void("Unfold same degree", func(*ring.Ring) { small.UnfoldConjugateInvariantToStandard(1, half, half) })
	void("Unfold exchanged", func(*ring.Ring) { small.UnfoldConjugateInvariantToStandard(1, full, half) })
	void("Unfold too large", func(*ring.Ring) { small.UnfoldConjugateInvariantToStandard(1, quarter, full) })
	void("Fold same degree", func(*ring.Ring) { small.FoldStandardToConjugateInvariant(1, full, perm, full) })
	void("Fold exchanged", func(*ring.Ring) { small.FoldStandardToConjugateInvariant(1, half, perm, full) })
	void("Fold too small", func(*ring.Ring) { small.FoldStandardToConjugateInvariant(1, full, perm, quarter) })
	void("Pad in place", func(r *ring.Ring) { ring.PadDefaultRingToConjuateInvariant(full, r, full) })
	void("Pad exchanged", func(r *ring.Ring) { ring.PadDefaultRingToConjuateInvariant(full, r, half) })
	void("Pad same degree", func(r *ring.Ring) {
		ring.PadDefaultRingToConjuateInvariant(full, r, ru.JunkRed(N, 1, q, "r4"))
	})
	k.Miss = append(k.Miss, Miss{"conjugate-invariant subring of too small a ring", func(interface{}) error {
		r, err := ring.NewRing(16, ru.Mixed(64, 50))
		if err != nil {
			panic(err)
		}
		_, err = r.ConjugateInvariantRing()
		return err
	}})
}

func sortedKeys(m map[string]interface{}) (o []string) {
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return
}

// PtHash digests a plaintext.
func PtHash(p *ckks.Plaintext) uint64 { return h.Hash(p.Scale, pu.PolyHash(p.Value)) }

// Primes gives distinct primes of the sizes for the degree.
func Primes(logN int, t ring.Type, sizes ...int) []uint64 { return ru.Mixed(pu.M0(logN, t), sizes...) }
