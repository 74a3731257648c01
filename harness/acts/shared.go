package acts

import (
	"fmt"
	"math/big"
	"sort"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"fast-ksw/utils"
	"verifharness/h"
	"verifharness/pu"
	"verifharness/ru"
)

// SharedKinds lists the objects that are documented as read-only (their only "copy" is themselves) and
// objects which are built independently of each other from the same parameters.
func SharedKinds() []string {
	return []string{"ring/std", "ring/ci", "params/std", "keygen/std", "keygen/ci", "sampler/std", "scaler/std"}
}

func (w *world) shared(k *Kind, obj string) bool {
	switch obj {
	case "ring":
		w.ringKind(k)
	case "params":
		w.paramsKind(k)
	case "keygen":
		w.keygenKind(k)
	case "sampler":
		w.samplerKind(k)
	case "scaler":
		w.scalerKind(k)
	default:
		return false
	}
	return true
}

func same(o interface{}) interface{} { return o }

func (w *world) ringKind(k *Kind) {
	L, N := w.L, w.N
	k.New = func() interface{} { return w.P.RingQ() }
	k.Copies = []Copy{{"itself", same}}
	a, b, n := ru.JunkRed(N, L, w.Q, "ra"), ru.JunkRed(N, L, w.Q, "rb"), ru.JunkRed(N, L, w.Q, "rn")
	n.IsNTT = true
	w.op(a, b, n)
	act := func(name string, lvl int, f func(r *ring.Ring, o *ring.Poly)) {
		k.Acts = append(k.Acts, Act{name, func(o interface{}) Res {
			p := ru.JunkRed(N, L, w.Q, "out")
			f(o.(*ring.Ring), p)
			return polyLvl(lvl, p)
		}})
	}
	for _, l := range []int{0, L} {
		l := l
		nm := func(s string) string { return fmt.Sprintf("%s %d", s, l) }
		act(nm("NTTLvl"), l, func(r *ring.Ring, o *ring.Poly) { r.NTTLvl(l, a, o) })
		act(nm("InvNTTLvl"), l, func(r *ring.Ring, o *ring.Poly) { r.InvNTTLvl(l, n, o) })
		act(nm("MulCoeffsLvl"), l, func(r *ring.Ring, o *ring.Poly) { r.MulCoeffsLvl(l, a, b, o) })
		act(nm("AddScalarBigintLvl"), l, func(r *ring.Ring, o *ring.Poly) {
			r.AddScalarBigintLvl(l, a, new(big.Int).Lsh(big.NewInt(12345), 90), o)
		})
		act(nm("MulScalarBigintLvl"), l, func(r *ring.Ring, o *ring.Poly) {
			r.MulScalarBigintLvl(l, a, new(big.Int).Lsh(big.NewInt(12345), 90), o)
		})
		act(nm("PermuteNTTLvl"), l, func(r *ring.Ring, o *ring.Poly) { r.PermuteNTTLvl(l, n, 5, o) })
		act(nm("PolyToBigintCenteredLvl"), L, func(r *ring.Ring, o *ring.Poly) {
			v := make([]*big.Int, N)
			for i := range v {
				v[i] = new(big.Int)
			}
			r.PolyToBigintCenteredLvl(l, a, 1, v)
			r.SetCoefficientsBigintLvl(L, v, o)
		})
		act(nm("MulByPow2Lvl"), l, func(r *ring.Ring, o *ring.Poly) { r.MulByPow2Lvl(l, a, 9, o) })
	}
	act("MultByMonomial", L, func(r *ring.Ring, o *ring.Poly) { r.MultByMonomial(a, 3, o) })
	act("Permute", L, func(r *ring.Ring, o *ring.Poly) { r.Permute(a, 5, o) })
	act("DivRoundByLastModulusManyNTTLvl", L-2, func(r *ring.Ring, o *ring.Poly) {
		r.DivRoundByLastModulusManyNTTLvl(L, 2, n, r.NewPoly(), o)
	})
	act("DivFloorByLastModulusManyLvl", L-2, func(r *ring.Ring, o *ring.Poly) { r.DivFloorByLastModulusManyLvl(L, 2, a, r.NewPoly(), o) })
	act("DivRoundByLastModulusLvl", L-1, func(r *ring.Ring, o *ring.Poly) {
		// shifts its operand while it runs, so that the operand may not be shared
		r.DivRoundByLastModulusLvl(L, a.CopyNew(), o)
	})
	act("a second ring", L, func(r *ring.Ring, o *ring.Poly) {
		x, err := r.MarshalBinary()
		if err != nil {
			panic(err)
		}
		s := new(ring.Ring)
		if r.Type() == ring.Standard {
			if err = s.UnmarshalBinary(x); err != nil {
				panic(err)
			}
		} else if s, err = ring.NewRingFromType(r.N, r.Modulus, r.Type()); err != nil {
			panic(err)
		}
		s.NTT(a, o)
	})
}

func (w *world) paramsKind(k *Kind) {
	k.New = func() interface{} { return w.P }
	k.Copies = []Copy{{"itself", same}, {"copied", func(o interface{}) interface{} { return o.(ckks.Parameters).CopyNew() }}}
	act := func(name string, f func(p ckks.Parameters) uint64) {
		k.Acts = append(k.Acts, Act{name, func(o interface{}) Res { return Res{Hash: f(o.(ckks.Parameters))} }})
	}
	other := w.P.CopyNew()
	act("numbers", func(p ckks.Parameters) uint64 {
		return h.Hash(p.N(), p.LogN(), p.Q(), p.P(), p.QP(), p.LogQ(), p.LogP(), p.LogQP(), p.Alpha(), p.Beta(), p.Sigma(), p.HammingWeight(), p.Slots(), p.MaxLevel(), p.DefaultScale())
	})
	act("big numbers", func(p ckks.Parameters) uint64 {
		return h.Hash(p.QBigInt().String(), p.PBigInt().String(), p.QPBigInt().String(), p.QLvl(1).String(), p.LogQLvl(1))
	})
	act("Galois elements", func(p ckks.Parameters) uint64 {
		x := h.Hash(p.GaloisElementForRowRotation(), p.GaloisElementsForRowInnerSum())
		for i := -3; i < 4; i++ {
			g := p.GaloisElementForColumnRotationBy(i)
			x = h.Hash(x, g, p.InverseGaloisElement(g))
		}
		log := p.RotationsForInnerSumLog(1, 4)
		sort.Ints(log)
		return h.Hash(x, fmt.Sprint(log, p.RotationsForInnerSum(2, 3), p.RotationsForTrace(1, 3)))
	})
	act("marshal", func(p ckks.Parameters) uint64 {
		x, err := p.MarshalBinary()
		if err != nil {
			panic(err)
		}
		y, err := p.MarshalJSON()
		if err != nil {
			panic(err)
		}
		return h.Hash(x, y)
	})
	act("rings", func(p ckks.Parameters) uint64 {
		return h.Hash(p.RingQ().Modulus, p.RingP().Modulus, p.RingQ().NttPsi[0], p.RingQP().RingQ.N)
	})
	act("equals", func(p ckks.Parameters) uint64 { return h.Hash(p.Equals(other), p.CopyNew().Equals(p)) })
	act("objects", func(p ckks.Parameters) uint64 {
		ks := rlwe.NewKeySwitcher(p.Parameters)
		ct := ckks.NewCiphertext(p, 1, 1, 3)
		pt := ckks.NewPlaintext(p, 2, 3)
		kt := rlwe.NewSwitchingKey(p.Parameters, p.MaxLevel(), p.PCount()-1)
		return h.Hash(len(ks.PoolDecompQP), ct.Level(), pt.Level(), len(kt.Value))
	})
	v := w.values(w.P.Slots(), "penc")
	act("encoder", func(p ckks.Parameters) uint64 {
		return ptRes(ckks.NewEncoder(p).EncodeNew(v, p.MaxLevel(), p.DefaultScale(), p.LogSlots())).Hash
	})
}

// keygenKind checks that independent key generators produce valid keys.
func (w *world) keygenKind(k *Kind) {
	k.New = func() interface{} { return rlwe.NewKeyGenerator(w.P.Parameters) }
	act := func(name string, f func(g rlwe.KeyGenerator) Res) {
		k.Acts = append(k.Acts, Act{name, func(o interface{}) Res { return f(o.(rlwe.KeyGenerator)) }})
	}
	osk := w.Kg.GenSecretKey()
	k.Keys = func() uint64 { return pu.QPHash(w.Sk.Value, osk.Value) }
	L, f := w.L, w.F
	b := pu.B(w.P.Parameters)
	zero := make([]*big.Int, w.N)
	for i := range zero {
		zero[i] = new(big.Int)
	}
	secret := func(name string, gen func(g rlwe.KeyGenerator) *rlwe.SecretKey, bound, norm int64) {
		act(name, func(g rlwe.KeyGenerator) Res {
			sk := gen(g)
			p := &ring.Poly{Coeffs: pu.Plain(sk.Value.Q, w.Q), IsNTT: true}
			v := pu.Ints(w.RQ, p, true, L)
			Q := w.QL[L]
			for _, x := range v {
				if x.Cmp(new(big.Int).Rsh(Q, 1)) > 0 {
					x.Sub(x, Q)
				}
			}
			ok := pu.MaxAbs(v).Cmp(big.NewInt(bound)) <= 0 && (norm == 0 || pu.Norm1(v).Cmp(big.NewInt(norm)) == 0)
			return Res{Hash: h.Hash(ok), Mask: pu.PolyHash(sk.Value.Q)}
		})
	}
	secret("GenSecretKey", func(g rlwe.KeyGenerator) *rlwe.SecretKey { return g.GenSecretKey() }, 1, 0)
	secret("GenSecretKeyWithDistrib", func(g rlwe.KeyGenerator) *rlwe.SecretKey { return g.GenSecretKeyWithDistrib(1.0 / 3) }, 1, 0)
	secret("GenSecretKeyWithHammingWeight", func(g rlwe.KeyGenerator) *rlwe.SecretKey { return g.GenSecretKeyWithHammingWeight(7) }, 1, 7)
	secret("GenSecretKeyGaussian", func(g rlwe.KeyGenerator) *rlwe.SecretKey { return g.GenSecretKeyGaussian() }, b, 0)
	act("GenPublicKey", func(g rlwe.KeyGenerator) Res {
		pk := g.GenPublicKey(w.Sk)
		val := []*ring.Poly{pk.Value[0].Q, pk.Value[1].Q}
		for i := range val {
			val[i] = val[i].CopyNew()
			val[i].IsNTT = true
		}
		// the two parts are in the same representation, so that the phase tells everything
		return Res{Hash: h.Hash(w.phaseOK(val, zero, big.NewInt(b))), Mask: pu.PolyHash(val[1])}
	})
	in := ru.JunkRed(w.N, L, w.Q, "ksin")
	in.IsNTT = true
	w.op(in)
	tol := w.KS(L)
	sw := func(name string, gen func(g rlwe.KeyGenerator) *rlwe.SwitchingKey) {
		act(name, func(g rlwe.KeyGenerator) Res {
			swk := gen(g)
			p0, p1 := w.RQ.NewPoly(), w.RQ.NewPoly()
			rlwe.NewKeySwitcher(w.P.Parameters).SwitchKeysInPlace(L, in, swk, p0, p1)
			p0.IsNTT, p1.IsNTT = true, true
			z := w.RQ.NewPoly()
			z.IsNTT = true
			// in * osk, under the key of the parameters
			want := pu.Phase(w.RQ, []*ring.Poly{z, in}, true, L, w.plainSecret(osk))
			_ = f
			return Res{Hash: h.Hash(w.phaseOK([]*ring.Poly{p0, p1}, want, tol)), Mask: pu.QPHash(swk.Value[0][1])}
		})
	}
	sw("GenSwitchingKey", func(g rlwe.KeyGenerator) *rlwe.SwitchingKey { return g.GenSwitchingKey(osk, w.Sk) })
	act("GenRotationKeysForRotations", func(g rlwe.KeyGenerator) Res {
		rk := g.GenRotationKeysForRotations([]int{1, -1}, false, w.Sk)
		return Res{Hash: h.Hash(len(rk.Keys)), Mask: pu.QPHash(rk.Keys[w.P.GaloisElementForColumnRotationBy(1)].Value[0][1])}
	})
	act("GenRelinearizationKey", func(g rlwe.KeyGenerator) Res {
		rk := g.GenRelinearizationKey(w.Sk, 2)
		return Res{Hash: h.Hash(len(rk.Keys)), Mask: pu.QPHash(rk.Keys[0].Value[0][1])}
	})
}

// plainSecret is the secret out of the Montgomery form.
func (w *world) plainSecret(sk *rlwe.SecretKey) [][]uint64 { return pu.Plain(sk.Value.Q, w.Q) }

type sampler struct {
	u *ring.UniformSampler
	g *ring.GaussianSampler
	t *ring.TernarySampler
	w *ring.TernarySampler
}

// samplerKind has samplers over the same ring, with their own source of randomness.
func (w *world) samplerKind(k *Kind) {
	r := w.P.RingQ()
	k.New = func() interface{} {
		prng, err := utils.NewPRNG()
		if err != nil {
			panic(err)
		}
		return &sampler{ring.NewUniformSampler(prng, r), ring.NewGaussianSampler(prng, r, 3.2, 19), ring.NewTernarySampler(prng, r, 0.25, false),
			ring.NewTernarySamplerWithHammingWeight(prng, r, 5, true)}
	}
	act := func(name string, f func(s *sampler, p *ring.Poly) bool) {
		k.Acts = append(k.Acts, Act{name, func(o interface{}) Res {
			p := ru.JunkRed(w.N, w.L, w.Q, "smp")
			return Res{Hash: h.Hash(f(o.(*sampler), p))}
		}})
	}
	small := func(p *ring.Poly, b int64) bool {
		v := ru.IntsC(p, w.Q, w.L)
		for i := range p.Coeffs {
			for j := range p.Coeffs[i] {
				p.Coeffs[i][j] %= w.Q[i] // a negative zero
			}
		}
		return pu.MaxAbs(v).Cmp(big.NewInt(b)) <= 0
	}
	act("uniform", func(s *sampler, p *ring.Poly) bool {
		s.u.Read(p)
		ok, _ := pu.Reduced(p, w.Q)
		return ok
	})
	act("uniform low", func(s *sampler, p *ring.Poly) bool {
		s.u.ReadLvl(0, p)
		ok, _ := pu.Reduced(p, w.Q)
		return ok
	})
	act("gaussian", func(s *sampler, p *ring.Poly) bool { s.g.Read(p); return small(p, 19) })
	act("ternary", func(s *sampler, p *ring.Poly) bool { s.t.Read(p); return small(p, 1) })
	act("sparse ternary", func(s *sampler, p *ring.Poly) bool {
		s.w.Read(p)
		p = &ring.Poly{Coeffs: pu.Plain(p, w.Q)}
		return small(p, 1) && pu.Norm1(ru.IntsC(p, w.Q, w.L)).Cmp(big.NewInt(5)) == 0
	})
}

type scaler struct {
	r *ring.RNSScaler
	s *ring.SimpleScaler
}

func (w *world) scalerKind(k *Kind) {
	rq := w.P.RingQ()
	tm := ru.Mixed(pu.M0(w.P.LogN(), ring.Standard), 50, 40, 40, 40, 51, 45, 30)
	T := tm[len(tm)-1]
	rt, err := ring.NewRing(w.N, []uint64{T})
	if err != nil {
		panic(err)
	}
	k.New = func() interface{} { return &scaler{ring.NewRNSScaler(rq, rt), ring.NewSimpleScaler(65537, rq)} }
	for i := 0; i < 2; i++ {
		a := ru.JunkRed(w.N, w.L, w.Q, fmt.Sprint("sca", i))
		w.op(a)
		k.Acts = append(k.Acts, Act{fmt.Sprint("RNSScaler ", i), func(o interface{}) Res {
			p := ru.JunkRed(w.N, 0, []uint64{T}, "so")
			o.(*scaler).r.DivByQOverTRounded(a, p)
			return polyRes(p)
		}}, Act{fmt.Sprint("SimpleScaler ", i), func(o interface{}) Res {
			p := ru.JunkRed(w.N, w.L, w.Q, "so")
			o.(*scaler).s.DivByQOverTRounded(a, p)
			return polyRes(p)
		}})
	}
}
