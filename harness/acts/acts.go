// Package acts lists the operations of the stateful objects of the library, as closures over shared read-only operands.
package acts

import (
	"fmt"
	"math"
	"math/big"
	"math/cmplx"

	"fast-ksw/ckks"
	"fast-ksw/fckks"
	"fast-ksw/frlwe"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"verifharness/ck"
	"verifharness/h"
	"verifharness/pu"
	"verifharness/ru"
)

// Res is the outcome of an operation.
type Res struct {
	Hash  uint64        // digest of the result
	Again func() uint64 // digests the returned objects again (nil when nothing is returned)
	Mess  func()        // overwrites the returned objects (nil when there is none)
	Mask  uint64        // digest of the fresh randomness of the result, 0 if none
}

// Act is one operation.
type Act struct {
	Name string
	F    func(o interface{}) Res
}

// Copy makes a copy of an object meant for concurrent use.
type Copy struct {
	Name string
	F    func(o interface{}) interface{}
}

// Kind is a class of objects with its operations.
type Kind struct {
	Name     string
	New      func() interface{}
	Copies   []Copy
	Acts     []Act
	Operands func() uint64 // digests all the shared operands
	Keys     func() uint64 // digests the keys and parameters
	Un       []UnOp
	Bin      []BinOp
	Env      *ck.Env
	Miss     []Miss
}

// Full is everything the evaluator exports.
type Full interface {
	ckks.Evaluator
	MulByPow2(ct0 *ckks.Ciphertext, pow2 int, ctOut *ckks.Ciphertext)
	MulByPow2New(ct0 *ckks.Ciphertext, pow2 int) *ckks.Ciphertext
	RescaleNew(ct0 *ckks.Ciphertext, threshold float64) (*ckks.Ciphertext, error)
	RotateHoistedNoModDownNew(level int, rotations []int, c0 *ring.Poly, c2DecompQP []rlwe.PolyQP) map[int][2]rlwe.PolyQP
	PermuteNTTHoisted(level int, c0, c1 *ring.Poly, c2DecompQP []rlwe.PolyQP, k int, cOut0, cOut1 *ring.Poly)
	PermuteNTTHoistedNoModDown(level int, c0 *ring.Poly, c2DecompQP []rlwe.PolyQP, k int, ct0OutQ, ct1OutQ, ct0OutP, ct1OutP *ring.Poly)
}

// CtHash digests a ciphertext with its header.
func CtHash(c *ckks.Ciphertext) uint64 { return h.Hash(c.Scale, c.Level(), pu.PolyHash(c.Value...)) }

// CtCanon digests a ciphertext up to the representative of its residues.
func CtCanon(c *ckks.Ciphertext, q []uint64) uint64 {
	x := h.Hash(c.Scale, c.Level(), c.Degree())
	for _, p := range c.Value {
		y := &ring.Poly{Coeffs: ru.Clone(p.Coeffs), IsNTT: p.IsNTT, IsMForm: p.IsMForm}
		for i := range y.Coeffs {
			for j := range y.Coeffs[i] {
				y.Coeffs[i][j] %= q[i]
			}
		}
		x = h.Hash(x, pu.PolyHash(y))
	}
	return x
}

func ctRes(c *ckks.Ciphertext) Res {
	return Res{Hash: CtHash(c), Again: func() uint64 { return CtHash(c) }, Mess: func() { Mess(c.Value...) }}
}

// Mess overwrites polynomials.
func Mess(ps ...*ring.Poly) {
	for _, p := range ps {
		for _, v := range p.Coeffs {
			for j := range v {
				v[j] = ^v[j]
			}
		}
	}
}

func ptRes(c *ckks.Plaintext) Res {
	f := func() uint64 { return h.Hash(c.Scale, pu.PolyHash(c.Value)) }
	return Res{Hash: f(), Again: f, Mess: func() { Mess(c.Value) }}
}

func polyRes(p ...*ring.Poly) Res {
	f := func() uint64 { return pu.PolyHash(p...) }
	return Res{Hash: f(), Again: f, Mess: func() { Mess(p...) }}
}

// polyLvl digests the given limbs of polynomials only.
func polyLvl(l int, ps ...*ring.Poly) Res {
	var q []*ring.Poly
	for _, p := range ps {
		q = append(q, &ring.Poly{Coeffs: p.Coeffs[:l+1], IsNTT: p.IsNTT})
	}
	return polyRes(q...)
}

func hashC(v []complex128) uint64 {
	var o []uint64
	for _, z := range v {
		o = append(o, math.Float64bits(real(z)), math.Float64bits(imag(z)))
	}
	return h.Hash(o)
}

func hashF(v []float64) uint64 {
	var o []uint64
	for _, z := range v {
		o = append(o, math.Float64bits(z))
	}
	return h.Hash(o)
}

func cRes(v []complex128) Res {
	return Res{Hash: hashC(v), Again: func() uint64 { return hashC(v) }, Mess: func() {
		for i := range v {
			v[i] = complex(float64(i), -7)
		}
	}}
}
func fRes(v []float64) Res {
	return Res{Hash: hashF(v), Again: func() uint64 { return hashF(v) }, Mess: func() {
		for i := range v {
			v[i] = float64(i) + 0.25
		}
	}}
}

// UnOp is a unary operation of the evaluator.
type UnOp struct {
	Name     string
	New      func(ev Full, c *ckks.Ciphertext) *ckks.Ciphertext // nil when there is none
	Into     func(ev Full, c, o *ckks.Ciphertext)
	Degs     []int
	MinLevel int
	OutDeg   int                 // 0: the degree of the operand
	OutLevel func(level int) int // nil: the level of the operand
	NoLarger bool
}

// BinOp is a binary operation of the evaluator.
type BinOp struct {
	Name string
	New  func(ev Full, a, b ckks.Operand) *ckks.Ciphertext
	Into func(ev Full, a, b ckks.Operand, o *ckks.Ciphertext)
	Mul  bool
	Rel  bool
	Acc  bool
}

func spec(name string) ck.Spec {
	S, CI := ring.Standard, ring.ConjugateInvariant
	mk := func(t ring.Type, logN int, q, p []int, hw int, scale float64) ck.Spec {
		m := ru.Mixed(pu.M0(logN, t), append(append([]int{}, q...), p...)...)
		return ck.Spec{Name: name, LogN: logN, Q: m[:len(q)], P: m[len(q):], H: hw, T: t, Scale: scale}
	}
	switch name {
	case "std":
		return mk(S, 4, []int{50, 40, 40, 40}, []int{51, 45}, 8, 1<<40)
	case "ci":
		return mk(CI, 4, []int{50, 40, 40}, []int{51}, 8, 1<<40)
	case "nop":
		return mk(S, 4, []int{50, 40, 40}, nil, 8, 1<<40)
	case "wide":
		return mk(S, 4, []int{61, 30, 45, 36, 61, 40}, []int{61, 60, 50}, 4, 1<<35)
	}
	panic(name)
}

// world is the setting shared by the kinds of a parameter set.
type world struct {
	*ck.Env
	t    *h.T
	junk int
	all  []func() uint64
}

func newWorld(t *h.T, s ck.Spec) *world { return &world{Env: ck.NewEnv(t, s), t: t} }

// op registers polynomials as shared operands.
func (w *world) op(p ...*ring.Poly) {
	w.all = append(w.all, func() uint64 { return pu.PolyHash(p...) })
}

func (w *world) operands() uint64 {
	x := uint64(0)
	for _, f := range w.all {
		x = h.Hash(x, f())
	}
	return x
}

// ct is a shared ciphertext of full-size residues.
func (w *world) ct(deg, lvl int, scale float64, tag string) *ckks.Ciphertext {
	c := ckks.NewCiphertext(w.P, deg, lvl, scale)
	for i := range c.Value {
		c.Value[i].Coeffs = ru.JunkRed(w.N, lvl, w.Q, fmt.Sprint(tag, i)).Coeffs
	}
	w.all = append(w.all, func() uint64 { return CtHash(c) })
	return c
}

func (w *world) pt(lvl int, scale float64, tag string) *ckks.Plaintext {
	c := ckks.NewPlaintext(w.P, lvl, scale)
	c.Value.Coeffs = ru.JunkRed(w.N, lvl, w.Q, tag).Coeffs
	w.all = append(w.all, func() uint64 { return h.Hash(c.Scale, pu.PolyHash(c.Value)) })
	return c
}

// dirty is a used receiver (a fresh object at each call).
func (w *world) dirty(deg, lvl int) *ckks.Ciphertext {
	c := ckks.NewCiphertext(w.P, deg, lvl, 12345)
	for i := range c.Value {
		c.Value[i].Coeffs = ru.JunkRed(w.N, lvl, w.Q, fmt.Sprint("dirty", i)).Coeffs
	}
	return c
}

// swkHash digests a switching key.
func swkHash(k *rlwe.SwitchingKey) uint64 {
	x := uint64(0)
	for _, v := range k.Value {
		x = h.Hash(x, pu.QPHash(v[0], v[1]))
	}
	return x
}

// Dirty is a used receiver.
func (k *Kind) Dirty(deg, lvl int) *ckks.Ciphertext {
	return (&world{Env: k.Env}).dirty(deg, lvl)
}

// Kinds lists the names accepted by New.
func Kinds() []string {
	return []string{"evaluator/std", "evaluator/ci", "evaluator/wide", "encoder/std", "encoder/ci", "bigencoder/std",
		"encryptor-pk/std", "encryptor-pk/ci", "encryptor-pk/nop", "encryptor-sk/std", "encryptor-sk/ci", "decryptor/std", "decryptor/ci",
		"keyswitcher/std", "keyswitcher/ci", "keyswitcher/wide", "extender/wide",
		"fast-keyswitcher/std", "fast-keyswitcher/wide", "fast-evaluator/std", "fast-messages/std"}
}

// New builds a kind.
func New(t *h.T, name string) *Kind {
	var obj, ps string
	for i := range name {
		if name[i] == '/' {
			obj, ps = name[:i], name[i+1:]
		}
	}
	w := newWorld(t, spec(ps))
	k := &Kind{Name: name, Env: w.Env}
	switch obj {
	case "evaluator":
		w.evaluator(k)
	case "encoder":
		w.encoder(k)
	case "bigencoder":
		w.bigEncoder(k)
	case "encryptor-pk":
		w.encryptor(k, true)
	case "encryptor-sk":
		w.encryptor(k, false)
	case "decryptor":
		w.decryptor(k)
	case "keyswitcher":
		w.keyswitcher(k)
	case "extender":
		w.extender(k)
	case "fast-keyswitcher":
		w.fastKS(k)
	case "fast-evaluator":
		w.fastEval(k)
	case "fast-messages":
		w.fastMsg(k)
	default:
		if !w.shared(k, obj) {
			panic(name)
		}
	}
	k.Operands = w.operands
	if k.Keys == nil {
		k.Keys = func() uint64 { return 0 }
	}
	return k
}

func (w *world) evaluator(k *Kind) {
	ci := w.Spec.CI()
	rots := []int{1, -2, 3}
	rlk := w.Kg.GenRelinearizationKey(w.Sk, 1)
	rtk := w.Kg.GenRotationKeysForRotations(rots, !ci, w.Sk)
	swk := w.Kg.GenSwitchingKey(w.Sk, w.Kg.GenSecretKey())
	k.Keys = func() uint64 {
		x := h.Hash(swkHash(rlk.Keys[0]), swkHash(swk))
		for _, g := range []int{1, -2, 3} {
			x = h.Hash(x, swkHash(rtk.Keys[w.P.GaloisElementForColumnRotationBy(g)]))
		}
		return x
	}
	k.New = func() interface{} {
		return ckks.NewEvaluator(w.P, rlwe.EvaluationKey{Rlk: rlk, Rtks: rtk}).(Full)
	}
	L := w.L
	sc := w.Spec.Scale
	un := func(name string, degs []int, n func(ev Full, c *ckks.Ciphertext) *ckks.Ciphertext, f func(ev Full, c, o *ckks.Ciphertext)) {
		k.Un = append(k.Un, UnOp{Name: name, New: n, Into: f, Degs: degs})
	}
	last := func() *UnOp { return &k.Un[len(k.Un)-1] }
	d12, d1, d2 := []int{1, 2}, []int{1}, []int{2}
	un("Neg", d12, func(ev Full, c *ckks.Ciphertext) *ckks.Ciphertext { return ev.NegNew(c) }, func(ev Full, c, o *ckks.Ciphertext) { ev.Neg(c, o) })
	for _, x := range []interface{}{1.5, complex(-0.25, 3.5), 7, complex(2, 1)} {
		x := x
		if z, ok := x.(complex128); ok && ci {
			x = real(z)
		}
		un(fmt.Sprintf("AddConst %v", x), d12, func(ev Full, c *ckks.Ciphertext) *ckks.Ciphertext { return ev.AddConstNew(c, x) }, func(ev Full, c, o *ckks.Ciphertext) { ev.AddConst(c, x, o) })
		un(fmt.Sprintf("MultByConst %v", x), d12, func(ev Full, c *ckks.Ciphertext) *ckks.Ciphertext { return ev.MultByConstNew(c, x) }, func(ev Full, c, o *ckks.Ciphertext) { ev.MultByConst(c, x, o) })
	}
	if !ci {
		un("MultByGaussianInteger", d12, nil, func(ev Full, c, o *ckks.Ciphertext) { ev.MultByGaussianInteger(c, int64(-5), int64(9), o) })
		un("MultByi", d12, func(ev Full, c *ckks.Ciphertext) *ckks.Ciphertext { return ev.MultByiNew(c) }, func(ev Full, c, o *ckks.Ciphertext) { ev.MultByi(c, o) })
		un("DivByi", d12, func(ev Full, c *ckks.Ciphertext) *ckks.Ciphertext { return ev.DivByiNew(c) }, func(ev Full, c, o *ckks.Ciphertext) { ev.DivByi(c, o) })
		un("Conjugate", d1, func(ev Full, c *ckks.Ciphertext) *ckks.Ciphertext { return ev.ConjugateNew(c) }, func(ev Full, c, o *ckks.Ciphertext) { ev.Conjugate(c, o) })
	}
	un("ScaleUp", d12, func(ev Full, c *ckks.Ciphertext) *ckks.Ciphertext { return ev.ScaleUpNew(c, 1000) }, func(ev Full, c, o *ckks.Ciphertext) { ev.ScaleUp(c, 1000, o) })
	un("MulByPow2", d12, func(ev Full, c *ckks.Ciphertext) *ckks.Ciphertext { return ev.MulByPow2New(c, 11) }, func(ev Full, c, o *ckks.Ciphertext) { ev.MulByPow2(c, 11, o) })
	un("Reduce", d12, func(ev Full, c *ckks.Ciphertext) *ckks.Ciphertext { return ev.ReduceNew(c) }, func(ev Full, c, o *ckks.Ciphertext) { ev.Reduce(c, o) })
	for _, r := range []struct {
		name string
		to   func(c *ckks.Ciphertext) float64
		out  func(l int) int
	}{
		{"Rescale", func(c *ckks.Ciphertext) float64 { return c.Scale / float64(w.Q[c.Level()]) }, func(l int) int { return l - 1 }},
		{"Rescale not dividing", func(c *ckks.Ciphertext) float64 { return c.Scale * 2 }, func(l int) int { return l }},
		{"Rescale to the lowest level", func(c *ckks.Ciphertext) float64 { return 1e-300 }, func(int) int { return 0 }},
	} {
		r := r
		un(r.name, d12, func(ev Full, c *ckks.Ciphertext) *ckks.Ciphertext {
			o, err := ev.RescaleNew(c, r.to(c))
			if err != nil {
				panic(err)
			}
			return o
		}, func(ev Full, c, o *ckks.Ciphertext) {
			if err := ev.Rescale(c, r.to(c), o); err != nil {
				panic(err)
			}
		})
		last().MinLevel, last().OutLevel = 1, r.out
		last().NoLarger = true
	}
	un("Relinearize", d2, func(ev Full, c *ckks.Ciphertext) *ckks.Ciphertext { return ev.RelinearizeNew(c) }, func(ev Full, c, o *ckks.Ciphertext) { ev.Relinearize(c, o) })
	last().OutDeg = 1
	un("SwitchKeys", d1, func(ev Full, c *ckks.Ciphertext) *ckks.Ciphertext { return ev.SwitchKeysNew(c, swk) }, func(ev Full, c, o *ckks.Ciphertext) { ev.SwitchKeys(c, swk, o) })
	for _, r := range []int{0, 1, -2, 3} {
		r := r
		un(fmt.Sprintf("Rotate %d", r), d1, func(ev Full, c *ckks.Ciphertext) *ckks.Ciphertext { return ev.RotateNew(c, r) }, func(ev Full, c, o *ckks.Ciphertext) { ev.Rotate(c, r, o) })
	}
	k.Bin = []BinOp{
		{Name: "Add", New: Full.AddNew, Into: Full.Add},
		{Name: "Sub", New: Full.SubNew, Into: Full.Sub},
		{Name: "AddNoMod", New: Full.AddNoModNew, Into: Full.AddNoMod},
		{Name: "SubNoMod", New: Full.SubNoModNew, Into: Full.SubNoMod},
		{Name: "Mul", New: Full.MulNew, Into: Full.Mul, Mul: true},
		{Name: "MulRelin", New: Full.MulRelinNew, Into: Full.MulRelin, Mul: true, Rel: true},
		{Name: "MulAndAdd", Into: Full.MulAndAdd, Mul: true, Acc: true},
		{Name: "MulRelinAndAdd", Into: Full.MulRelinAndAdd, Mul: true, Rel: true, Acc: true},
	}
	// the acts of the histories
	act := func(name string, f func(ev Full) Res) {
		k.Acts = append(k.Acts, Act{name, func(o interface{}) Res { return f(o.(Full)) }})
	}
	hi1, mid1, lo1 := w.ct(1, L, sc, "hi1"), w.ct(1, L-1, sc*4, "mid1"), w.ct(1, 0, sc, "lo1")
	hi2, mid2 := w.ct(2, L, sc*4, "hi2"), w.ct(2, 1, sc, "mid2")
	p := w.pt(L, sc*2, "p")
	for _, u := range k.Un {
		u := u
		if u.Degs[0] == 2 {
			act(u.Name+" high new", func(ev Full) Res { return ctRes(u.New(ev, hi2)) })
			act(u.Name+" middle to a larger receiver", func(ev Full) Res { o := w.dirty(2, L); u.Into(ev, mid2, o); return ctRes(o) })
			continue
		}
		switch u.Name {
		case "Neg", "DivByi", "Reduce", "Rotate 3", "AddConst 7", "AddConst 1.5", "ScaleUp": // only once
			act(u.Name+" in place", func(ev Full) Res { o := mid1.CopyNew(); u.Into(ev, o, o); return ctRes(o) })
			continue
		}
		act(u.Name+" high", func(ev Full) Res { o := w.dirty(1, L); u.Into(ev, hi1, o); return ctRes(o) })
		if u.MinLevel == 0 && u.New != nil {
			act(u.Name+" low new", func(ev Full) Res { return ctRes(u.New(ev, lo1)) })
		}
	}
	act("SetScale", func(ev Full) Res { o := mid1.CopyNew(); ev.SetScale(o, sc*1.25); return ctRes(o) })
	act("DropLevel", func(ev Full) Res { return ctRes(ev.DropLevelNew(hi1, 2)) })
	act("MultByConstAndAdd", func(ev Full) Res { o := mid1.CopyNew(); ev.MultByConstAndAdd(hi1, 4, o); return ctRes(o) })
	if !ci {
		act("MultByGaussianIntegerAndAdd", func(ev Full) Res {
			o := mid1.CopyNew()
			ev.MultByGaussianIntegerAndAdd(hi1, int64(3), int64(-7), o)
			return ctRes(o)
		})
		act("MultByConstAndAdd scaled", func(ev Full) Res {
			o := hi1.CopyNew()
			ev.MultByConstAndAdd(mid1, complex(0.5, 0.25), o)
			return ctRes(o)
		})
	}
	for _, b := range k.Bin {
		b := b
		if b.Acc {
			act(b.Name, func(ev Full) Res {
				o := w.dirty(1, L)
				o.Scale = sc
				b.Into(ev, hi1, mid1, o)
				return ctRes(o)
			})
			act(b.Name+" plaintext", func(ev Full) Res {
				o := w.dirty(2, L-1)
				o.Scale = sc * sc * 8
				b.Into(ev, p, mid1, o)
				return ctRes(o)
			})
			continue
		}
		act(b.Name+" mixed scales", func(ev Full) Res { o := w.dirty(2, L); b.Into(ev, hi1, mid1, o); return ctRes(o) })
		act(b.Name+" plaintext in place", func(ev Full) Res { o := lo1.CopyNew(); b.Into(ev, p, o, o); return ctRes(o) })
		if !b.Mul {
			act(b.Name+" degrees", func(ev Full) Res { return ctRes(b.New(ev, mid2, hi2)) })
		} else {
			act(b.Name+" square", func(ev Full) Res { return ctRes(b.New(ev, mid1, mid1)) })
		}
	}
	act("hoisted", func(ev Full) Res {
		ks := ev.GetKeySwitcher()
		d := make([]rlwe.PolyQP, w.P.Beta())
		for i := range d {
			d[i] = w.P.RingQP().NewPoly()
		}
		ks.DecomposeNTT(L-1, w.P.PCount()-1, w.P.PCount(), hi1.Value[1], d)
		m := ev.RotateHoistedNoModDownNew(L-1, []int{1, -2}, hi1.Value[0], d)
		a, b := ring.NewPoly(w.N, L), ring.NewPoly(w.N, L)
		ev.PermuteNTTHoisted(L-1, hi1.Value[0], hi1.Value[1], d, 3, a, b)
		f := func() uint64 {
			x := pu.PolyHash(a, b)
			for _, r := range []int{1, -2} {
				v := m[r]
				for _, y := range v {
					x = h.Hash(x, pu.PolyHash(&ring.Poly{Coeffs: y.Q.Coeffs[:L]}, y.P))
				}
			}
			return x
		}
		return Res{Hash: f(), Again: f, Mess: func() {
			Mess(a, b)
			for _, v := range m {
				for _, y := range v {
					Mess(y.Q, y.P)
				}
			}
		}}
	})
}

// small is a shared plaintext with small coefficients, not transformed.
func (w *world) small() *ckks.Plaintext {
	pub := w.pt(1, 1<<40, "pub")
	pub.Value.IsNTT = false
	for j := range pub.Value.Coeffs[0] {
		x := uint64(j) << 33
		pub.Value.Coeffs[0][j], pub.Value.Coeffs[1][j] = x%w.Q[0], x%w.Q[1]
	}
	return pub
}

func (w *world) values(n int, tag string) []complex128 {
	v := make([]complex128, n)
	r := h.NewRng(tag)
	for i := range v {
		v[i] = complex(r.Float(), r.Float())
	}
	w.all = append(w.all, func() uint64 { return hashC(v) })
	return v
}

func (w *world) encoder(k *Kind) {
	L, ml := w.L, w.Spec.MaxLog()
	k.New = func() interface{} { return ckks.NewEncoder(w.P) }
	cp := func(o interface{}) interface{} { return o.(ckks.Encoder).ShallowCopy() }
	k.Copies = []Copy{{"shallow", cp}, {"shallow twice", func(o interface{}) interface{} { return cp(cp(o)) }}}
	act := func(name string, f func(e ckks.Encoder) Res) {
		k.Acts = append(k.Acts, Act{name, func(o interface{}) Res { return f(o.(ckks.Encoder)) }})
	}
	vf, vh, v1 := w.values(1<<uint(ml), "vf"), w.values(1<<uint(ml-1), "vh"), w.values(1, "v1")
	fl := make([]float64, w.N)
	rg := h.NewRng("fl")
	for i := range fl {
		fl[i] = rg.Float() * 1e6
	}
	w.all = append(w.all, func() uint64 { return hashF(fl) })
	hi, lo := w.pt(L, 1<<50, "hi"), w.pt(0, 1<<30, "lo")
	co := w.pt(1, 1<<40, "co")
	co.Value.IsNTT = false
	act("EncodeNew full", func(e ckks.Encoder) Res { return ptRes(e.EncodeNew(vf, L, 1<<40, ml)) })
	act("EncodeNew big scale", func(e ckks.Encoder) Res { return ptRes(e.EncodeNew(vf, L, math.Exp2(90), ml)) })
	act("EncodeSlotsNew sparse low", func(e ckks.Encoder) Res { return ptRes(e.EncodeSlotsNew(vh, 0, 1<<30, ml-1)) })
	act("Encode short into a used plaintext", func(e ckks.Encoder) Res {
		p := ckks.NewPlaintext(w.P, 1, 1<<35)
		p.Value.Coeffs = ru.JunkRed(w.N, 1, w.Q, "dirtypt").Coeffs
		e.Encode(v1, p, ml)
		return ptRes(p)
	})
	act("EncodeSlots reals", func(e ckks.Encoder) Res {
		p := ckks.NewPlaintext(w.P, L, 1<<35)
		e.EncodeSlots(fl[:3], p, 2)
		return ptRes(p)
	})
	act("EncodeCoeffsNew", func(e ckks.Encoder) Res { return ptRes(e.EncodeCoeffsNew(fl, L, 1<<30)) })
	act("EncodeCoeffs short", func(e ckks.Encoder) Res {
		p := ckks.NewPlaintext(w.P, 0, 1<<20)
		p.Value.Coeffs = ru.JunkRed(w.N, 0, w.Q, "dirtypt").Coeffs
		e.EncodeCoeffs(fl[:2], p)
		return ptRes(p)
	})
	act("Embed QP", func(e ckks.Encoder) Res {
		qp := w.P.RingQP().NewPoly()
		e.Embed(vh, ml-1, 1<<25, true, qp)
		return polyRes(qp.Q, qp.P)
	})
	act("Embed Q", func(e ckks.Encoder) Res {
		qp := w.P.RingQ().NewPoly()
		e.Embed(vf, ml, 1<<33, false, qp)
		return polyRes(qp)
	})
	act("Decode full", func(e ckks.Encoder) Res { return cRes(e.Decode(hi, ml)) })
	act("DecodeSlots sparse", func(e ckks.Encoder) Res { return cRes(e.DecodeSlots(hi, ml-1)) })
	act("Decode low", func(e ckks.Encoder) Res { return cRes(e.Decode(lo, ml)) })
	act("Decode untransformed", func(e ckks.Encoder) Res { return cRes(e.Decode(co, 1)) })
	act("DecodeCoeffs", func(e ckks.Encoder) Res { return fRes(e.DecodeCoeffs(hi)) })
	act("DecodeCoeffs low", func(e ckks.Encoder) Res { return fRes(e.DecodeCoeffs(lo)) })
	base := ckks.NewEncoder(w.P)
	pub := w.small()
	wantS, wantC := base.Decode(pub, ml), base.DecodeCoeffs(lo)
	act("DecodePublic", func(e ckks.Encoder) Res {
		v := e.DecodePublic(pub, ml, 1<<20)
		near := true
		for i := range v {
			near = near && cmplx.Abs(v[i]-wantS[i]) < float64(w.N)*6*(1<<20)/(1<<40)*4
		}
		return Res{Hash: h.Hash(near, len(v)), Again: nil, Mask: hashC(v)}
	})
	act("DecodeCoeffsPublic", func(e ckks.Encoder) Res {
		v := e.DecodeCoeffsPublic(lo, 1<<20)
		near := true
		for i := range v {
			near = near && math.Abs(v[i]-wantC[i]) < 8*(1<<20)/float64(1<<30)+1e-6
		}
		return Res{Hash: h.Hash(near, len(v)), Again: nil, Mask: hashF(v)}
	})
	act("errors", func(e ckks.Encoder) Res {
		return Res{Hash: h.Hash(math.Float64bits(e.GetErrSTDCoeffDomain(vh, vf[:len(vh)], 2)), math.Float64bits(e.GetErrSTDSlotDomain(vh, vf[:len(vh)], 2)))}
	})
}

func (w *world) bigEncoder(k *Kind) {
	const prec = 100
	L, ml := w.L, w.Spec.MaxLog()
	k.New = func() interface{} { return ckks.NewEncoderBigComplex(w.P, prec) }
	cp := func(o interface{}) interface{} { return o.(ckks.EncoderBigComplex).ShallowCopy() }
	k.Copies = []Copy{{"shallow", cp}, {"shallow twice", func(o interface{}) interface{} { return cp(cp(o)) }}}
	act := func(name string, f func(e ckks.EncoderBigComplex) Res) {
		k.Acts = append(k.Acts, Act{name, func(o interface{}) Res { return f(o.(ckks.EncoderBigComplex)) }})
	}
	str := func(v []*ring.Complex) uint64 {
		o := ""
		for _, z := range v {
			o += z.Real().Text('p', 0) + z.Imag().Text('p', 0)
		}
		return h.Hash(o)
	}
	conv := func(v []complex128) (o []*ring.Complex) {
		for _, z := range v {
			o = append(o, ring.NewComplex(new(big.Float).SetPrec(prec).SetFloat64(real(z)), new(big.Float).SetPrec(prec).SetFloat64(imag(z))))
		}
		w.all = append(w.all, func() uint64 { return str(o) })
		return
	}
	vf, vh := conv(w.values(1<<uint(ml), "vf")), conv(w.values(2, "vh"))
	hi, lo := w.pt(L, 1<<50, "hi"), w.pt(0, 1<<30, "lo")
	sRes := func(v []*ring.Complex) Res {
		return Res{Hash: str(v), Again: func() uint64 { return str(v) }, Mess: func() {
			for _, z := range v {
				z.Real().SetFloat64(-5.5)
				z.Imag().SetFloat64(9)
			}
		}}
	}
	act("EncodeNew full", func(e ckks.EncoderBigComplex) Res { return ptRes(e.EncodeNew(vf, L, 1<<40, ml)) })
	act("EncodeNew sparse", func(e ckks.EncoderBigComplex) Res { return ptRes(e.EncodeNew(vh, 0, 1<<20, 1)) })
	act("Encode into a used plaintext", func(e ckks.EncoderBigComplex) Res {
		p := ckks.NewPlaintext(w.P, 1, 1<<35)
		p.Value.Coeffs = ru.JunkRed(w.N, 1, w.Q, "dirtypt").Coeffs
		e.Encode(vh, p, 1)
		return ptRes(p)
	})
	act("Decode full", func(e ckks.EncoderBigComplex) Res { return sRes(e.Decode(hi, ml)) })
	act("Decode sparse low", func(e ckks.EncoderBigComplex) Res { return sRes(e.Decode(lo, 1)) })
	pub := w.small()
	base := ckks.NewEncoderBigComplex(w.P, prec).Decode(pub, ml)
	act("DecodePublic", func(e ckks.EncoderBigComplex) Res {
		v := e.DecodePublic(pub, ml, 1<<20)
		near := true
		for i := range v {
			a, _ := new(big.Float).Sub(v[i].Real(), base[i].Real()).Float64()
			b, _ := new(big.Float).Sub(v[i].Imag(), base[i].Imag()).Float64()
			near = near && math.Hypot(a, b) < float64(w.N)*32*(1<<20)/(1<<40)
		}
		return Res{Hash: h.Hash(near, len(v)), Mask: str(v)}
	})
	ff := func(inv bool) func(e ckks.EncoderBigComplex) Res {
		return func(e ckks.EncoderBigComplex) Res {
			var v []*ring.Complex
			for _, z := range vf[:4] {
				v = append(v, z.Copy())
			}
			if inv {
				e.InvFFT(v, 4)
			} else {
				e.FFT(v, 4)
			}
			return sRes(v)
		}
	}
	act("FFT", ff(false))
	act("InvFFT", ff(true))
}

// phaseOK tells whether a ciphertext decrypts to a polynomial within a bound.
func (w *world) phaseOK(val []*ring.Poly, want []*big.Int, tol *big.Int) bool {
	l := len(val[0].Coeffs) - 1
	d := pu.MaxAbs(pu.Err(pu.Phase(w.RQ, val, val[0].IsNTT, l, w.S), w.Reduce(l, want), w.QL[l]))
	return d.Cmp(tol) <= 0
}

type encs struct {
	r rlwe.Encryptor
	c ckks.Encryptor
}

func (w *world) encryptor(k *Kind, pk bool) {
	kg := w.Kg
	L := w.L
	pub := kg.GenPublicKey(w.Sk)
	osk, opk := kg.GenKeyPair()
	var key, other, swap interface{} = w.Sk, osk, opk
	if pk {
		key, other, swap = pub, opk, osk
	}
	k.Keys = func() uint64 { return pu.QPHash(w.Sk.Value, pub.Value[0], pub.Value[1]) }
	k.New = func() interface{} { return encs{rlwe.NewEncryptor(w.P.Parameters, key), ckks.NewEncryptor(w.P, key)} }
	k.Copies = []Copy{
		{"shallow", func(o interface{}) interface{} {
			e := o.(encs)
			return encs{e.r.ShallowCopy(), e.c.ShallowCopy()}
		}},
		{"with key", func(o interface{}) interface{} {
			e := o.(encs)
			return encs{e.r.WithKey(key), e.c.WithKey(key)}
		}},
		{"with other keys", func(o interface{}) interface{} {
			e := o.(encs)
			return encs{e.r.WithKey(other).WithKey(swap).WithKey(key), e.c.WithKey(swap).WithKey(other).WithKey(key)}
		}},
	}
	act := func(name string, f func(e encs) Res) {
		k.Acts = append(k.Acts, Act{name, func(o interface{}) Res { return f(o.(encs)) }})
	}
	b, f := pu.B(w.P.Parameters), w.F
	s1 := w.SP[1].Int64()
	tol := big.NewInt(b)
	if pk {
		tol = big.NewInt(b*(1+f*int64(w.N)+s1) + 2 + s1)
	}
	check := func(name string, lvl, deg int, val []*ring.Poly, ph []*big.Int, mask bool) Res {
		r := Res{Hash: h.Hash(len(val) == deg+1 && len(val[0].Coeffs) == lvl+1 && w.phaseOK(val, ph, tol)), Again: func() uint64 { return pu.PolyHash(val...) }, Mess: func() { Mess(val...) }}
		if mask {
			r.Mask = pu.PolyHash(val[1])
		}
		return r
	}
	mk := func(l int, ntt bool, tag string) (*rlwe.Plaintext, []*big.Int) {
		p := rlwe.NewPlaintext(w.P.Parameters, l)
		p.Value.Coeffs = ru.JunkRed(w.N, l, w.Q, tag).Coeffs
		p.Value.IsNTT = ntt
		w.op(p.Value)
		return p, pu.Ints(w.RQ, p.Value, ntt, l)
	}
	hiN, hiNv := mk(L, true, "hiN")
	hiC, hiCv := mk(L, false, "hiC")
	lo, lov := mk(0, true, "lo")
	crp := ru.JunkRed(w.N, L, w.Q, "crp")
	w.op(crp)
	raw := func(l int, ntt bool) *rlwe.Ciphertext {
		c := rlwe.NewCiphertext(w.P.Parameters, 1, l)
		for i := range c.Value {
			c.Value[i].Coeffs = ru.JunkRed(w.N, l, w.Q, fmt.Sprint("raw", i)).Coeffs
			c.Value[i].IsNTT = ntt
		}
		return c
	}
	enc := func(name string, p *rlwe.Plaintext, v []*big.Int, l int, ntt bool) {
		act(name, func(e encs) Res {
			c := raw(l, ntt)
			e.r.Encrypt(p, c)
			x := l
			if p.Level() < x {
				x = p.Level()
			}
			return check(name, x, 1, c.Value, v, true)
		})
	}
	enc("transformed to transformed, high", hiN, hiNv, L, true)
	enc("transformed to coefficients, high", hiN, hiNv, L, false)
	enc("coefficients to coefficients, high", hiC, hiCv, L, false)
	enc("coefficients to transformed, low", hiC, hiCv, 0, true)
	enc("low to a high receiver", lo, lov, L, true)
	enc("low to a high coefficient receiver", lo, lov, L-1, false)
	cp := &ckks.Plaintext{Plaintext: hiN, Scale: 3}
	cl := &ckks.Plaintext{Plaintext: lo, Scale: 5}
	act("ckks new", func(e encs) Res {
		c := e.c.EncryptNew(cp)
		r := check("ckks new", L, 1, c.Value, hiNv, true)
		r.Hash = h.Hash(r.Hash, c.Scale)
		return r
	})
	act("ckks low", func(e encs) Res {
		c := w.dirty(2, L)
		e.c.Encrypt(cl, c)
		r := check("ckks low", 0, 1, c.Value, lov, true)
		r.Hash = h.Hash(r.Hash, c.Scale)
		return r
	})
	if !pk {
		act("from a common polynomial", func(e encs) Res {
			c := raw(L, true)
			e.r.EncryptFromCRP(hiN, crp, c)
			return check("crp", L, 1, c.Value, hiNv, false)
		})
		act("ckks from a common polynomial", func(e encs) Res {
			c := e.c.EncryptFromCRPNew(cl, crp)
			r := check("crp", 0, 1, c.Value, lov, false)
			r.Hash = h.Hash(r.Hash, c.Scale)
			return r
		})
	}
}

type decs struct {
	r rlwe.Decryptor
	c ckks.Decryptor
}

func (w *world) decryptor(k *Kind) {
	osk := w.Kg.GenSecretKey()
	L := w.L
	k.Keys = func() uint64 { return pu.QPHash(w.Sk.Value, osk.Value) }
	k.New = func() interface{} { return decs{rlwe.NewDecryptor(w.P.Parameters, w.Sk), ckks.NewDecryptor(w.P, w.Sk)} }
	k.Copies = []Copy{
		{"shallow", func(o interface{}) interface{} {
			e := o.(decs)
			return decs{e.r.ShallowCopy(), e.c.ShallowCopy()}
		}},
		{"with key", func(o interface{}) interface{} {
			e := o.(decs)
			return decs{e.r.WithKey(osk).WithKey(w.Sk), e.c.WithKey(osk).WithKey(w.Sk)}
		}},
	}
	act := func(name string, f func(e decs) Res) {
		k.Acts = append(k.Acts, Act{name, func(o interface{}) Res { return f(o.(decs)) }})
	}
	mk := func(deg, l int, ntt bool) *rlwe.Ciphertext {
		c := rlwe.NewCiphertext(w.P.Parameters, deg, l)
		for i := range c.Value {
			c.Value[i].Coeffs = ru.JunkRed(w.N, l, w.Q, fmt.Sprint("ct", deg, l, i)).Coeffs
			c.Value[i].IsNTT = ntt
		}
		w.op(c.Value...)
		return c
	}
	for deg := 0; deg <= 3; deg++ {
		for _, l := range []int{0, L} {
			for _, n := range []bool{true, false} {
				if deg == 0 && !n || deg == 3 && l == 0 {
					continue
				}
				c := mk(deg, l, n)
				lp := L - l/2
				pn := n != (deg == 2)
				act(fmt.Sprintf("degree %d level %d transformed %v into level %d transformed %v", deg, l, n, lp, pn), func(e decs) Res {
					p := rlwe.NewPlaintext(w.P.Parameters, lp)
					p.Value.Coeffs = ru.JunkRed(w.N, lp, w.Q, "dirtypt").Coeffs
					p.Value.IsNTT = pn
					e.r.Decrypt(c, p)
					return polyRes(p.Value)
				})
			}
		}
	}
	a, b := w.ct(1, L, 7, "a"), w.ct(2, 1, 9, "b")
	act("ckks new", func(e decs) Res { return ptRes(e.c.DecryptNew(a)) })
	act("ckks low into used", func(e decs) Res {
		p := ckks.NewPlaintext(w.P, L, 1)
		p.Value.Coeffs = ru.JunkRed(w.N, L, w.Q, "dirtypt").Coeffs
		e.c.Decrypt(b, p)
		return ptRes(p)
	})
}

func (w *world) keyswitcher(k *Kind) {
	L, lp := w.L, w.P.PCount()-1
	swk := w.Kg.GenSwitchingKey(w.Sk, w.Kg.GenSecretKey())
	k.Keys = func() uint64 { return swkHash(swk) }
	k.New = func() interface{} { return rlwe.NewKeySwitcher(w.P.Parameters) }
	cp := func(o interface{}) interface{} { return o.(*rlwe.KeySwitcher).ShallowCopy() }
	k.Copies = []Copy{{"shallow", cp}, {"shallow twice", func(o interface{}) interface{} { return cp(cp(o)) }}}
	act := func(name string, f func(e *rlwe.KeySwitcher) Res) {
		k.Acts = append(k.Acts, Act{name, func(o interface{}) Res { return f(o.(*rlwe.KeySwitcher)) }})
	}
	dec := func() (d []rlwe.PolyQP) {
		for i := 0; i < w.P.Beta(); i++ {
			d = append(d, w.P.RingQP().NewPoly())
		}
		return
	}
	rows := func(l int) int { return (l + lp + 1) / (lp + 1) }
	for _, l := range []int{0, L - 1, L} {
		for _, n := range []bool{true, false} {
			l := l
			a := ru.JunkRed(w.N, l, w.Q, fmt.Sprint("a", l, n))
			a.IsNTT = n
			w.op(a)
			nm := fmt.Sprintf(" level %d transformed %v", l, n)
			act("SwitchKeysInPlace"+nm, func(e *rlwe.KeySwitcher) Res {
				p0, p1 := ru.Junk(w.N, L, "p0"), ru.Junk(w.N, L, "p1")
				e.SwitchKeysInPlace(l, a, swk, p0, p1)
				return polyLvl(l, p0, p1)
			})
			if l == L-1 {
				continue
			}
			act("SwitchKeysInPlaceNoModDown"+nm, func(e *rlwe.KeySwitcher) Res {
				q0, q1, r0, r1 := ru.Junk(w.N, L, "p0"), ru.Junk(w.N, L, "p1"), ru.Junk(w.N, lp, "p2"), ru.Junk(w.N, lp, "p3")
				e.SwitchKeysInPlaceNoModDown(l, a, swk, q0, r0, q1, r1)
				r := polyLvl(l, q0, q1)
				return Res{Hash: h.Hash(r.Hash, pu.PolyHash(r0, r1)), Again: func() uint64 { return h.Hash(r.Again(), pu.PolyHash(r0, r1)) }, Mess: func() { r.Mess(); Mess(r0, r1) }}
			})
			act("DecomposeNTT"+nm, func(e *rlwe.KeySwitcher) Res {
				d := dec()
				e.DecomposeNTT(l, lp, lp+1, a, d)
				var v []*ring.Poly
				for i := 0; i < rows(l); i++ {
					v = append(v, &ring.Poly{Coeffs: d[i].Q.Coeffs[:l+1]}, d[i].P)
				}
				return polyRes(v...)
			})
			if n {
				fixed := dec()
				rlwe.NewKeySwitcher(w.P.Parameters).DecomposeNTT(l, lp, lp+1, a, fixed)
				for i := range fixed {
					w.op(fixed[i].Q, fixed[i].P)
				}
				act("KeyswitchHoisted"+nm, func(e *rlwe.KeySwitcher) Res {
					q0, q1, r0, r1 := ru.Junk(w.N, L, "p0"), ru.Junk(w.N, L, "p1"), ru.Junk(w.N, lp, "p2"), ru.Junk(w.N, lp, "p3")
					e.KeyswitchHoisted(l, fixed, swk, q0, q1, r0, r1)
					return polyLvl(l, q0, q1)
				})
				act("KeyswitchHoistedNoModDown"+nm, func(e *rlwe.KeySwitcher) Res {
					q0, q1, r0, r1 := ru.Junk(w.N, L, "p0"), ru.Junk(w.N, L, "p1"), ru.Junk(w.N, lp, "p2"), ru.Junk(w.N, lp, "p3")
					e.KeyswitchHoistedNoModDown(l, fixed, swk, q0, q1, r0, r1)
					r := polyLvl(l, q0, q1)
					return Res{Hash: h.Hash(r.Hash, pu.PolyHash(r0, r1)), Again: func() uint64 { return h.Hash(r.Again(), pu.PolyHash(r0, r1)) }, Mess: func() { r.Mess(); Mess(r0, r1) }}
				})
			}
		}
	}
	// the hoisting memory of the object itself
	hp := ru.JunkRed(w.N, L, w.Q, "hp")
	hp.IsNTT = true
	w.op(hp)
	act("decompose into the object's memory and switch", func(e *rlwe.KeySwitcher) Res {
		e.DecomposeNTT(L, lp, lp+1, hp, e.PoolDecompQP)
		q0, q1, r0, r1 := ru.Junk(w.N, L, "p0"), ru.Junk(w.N, L, "p1"), ru.Junk(w.N, lp, "p2"), ru.Junk(w.N, lp, "p3")
		e.KeyswitchHoisted(L, e.PoolDecompQP, swk, q0, q1, r0, r1)
		return polyRes(q0, q1)
	})
}

func (w *world) extender(k *Kind) {
	rq, rp := w.P.RingQ(), w.P.RingP()
	L, lp := w.L, len(rp.Modulus)-1
	k.New = func() interface{} { return ring.NewBasisExtender(rq, rp) }
	cp := func(o interface{}) interface{} { return o.(*ring.BasisExtender).ShallowCopy() }
	k.Copies = []Copy{{"shallow", cp}, {"shallow twice", func(o interface{}) interface{} { return cp(cp(o)) }}}
	act := func(name string, f func(e *ring.BasisExtender) Res) {
		k.Acts = append(k.Acts, Act{name, func(o interface{}) Res { return f(o.(*ring.BasisExtender)) }})
	}
	q := ru.JunkRed(w.N, L, w.Q, "q")
	p := ru.JunkRed(w.N, lp, w.P.P(), "p")
	w.op(q, p)
	qq := func(n int, l int) *ring.Poly { return ru.Junk(w.N, l, fmt.Sprint("out", n)) }
	for _, l := range []int{0, L / 2, L} {
		for m := 0; m <= lp; m++ {
			l, m := l, m
			if m != lp && l == L/2 {
				continue
			}
			nm := fmt.Sprintf(" %d,%d", l, m)
			act("ModUpQtoP"+nm, func(e *ring.BasisExtender) Res { o := qq(1, lp); e.ModUpQtoP(l, m, q, o); return polyLvl(m, o) })
			act("ModUpPtoQ"+nm, func(e *ring.BasisExtender) Res { o := qq(1, L); e.ModUpPtoQ(m, l, p, o); return polyLvl(l, o) })
			act("ModDownQPtoQ"+nm, func(e *ring.BasisExtender) Res { o := qq(1, L); e.ModDownQPtoQ(l, m, q, p, o); return polyLvl(l, o) })
			act("ModDownQPtoQNTT"+nm, func(e *ring.BasisExtender) Res { o := qq(1, L); e.ModDownQPtoQNTT(l, m, q, p, o); return polyLvl(l, o) })
			act("ModDownQPtoP"+nm, func(e *ring.BasisExtender) Res { o := qq(1, lp); e.ModDownQPtoP(l, m, q, p, o); return polyLvl(m, o) })
		}
	}
}

func (w *world) fast() (fckks.Parameters, *frlwe.KeyGenerator, *rlwe.SecretKey) {
	s := w.Spec
	g := len(s.P) + 1
	F := fckks.NewParametersFromLiteral(fckks.ParametersLiteral{LogN: s.LogN, Q: s.Q, P: s.P, T: pu.TChain(s.LogN, s.Q, s.P, g, 60), Sigma: 3.2, H: s.H, Gamma: g, DefaultScale: s.Scale, LogSlots: s.LogN - 1})
	kg := fckks.NewKeyGenerator(F)
	sk := kg.GenSecretKey()
	w.Env = ck.WithKey(w.t, s, F.Parameters, kg.KeyGenerator, sk)
	return F, kg, sk
}

func fastHash(k [2]*frlwe.SwitchingKey) uint64 {
	x := uint64(0)
	for _, v := range k {
		for _, r := range v.Value {
			x = h.Hash(x, pu.PolyHash(r...))
		}
	}
	return x
}

func (w *world) fastKS(k *Kind) {
	s := w.Spec
	g := len(s.P) + 1
	P := frlwe.NewParametersFromLiteral(frlwe.ParametersLiteral{LogN: s.LogN, Q: s.Q, P: s.P, T: pu.TChain(s.LogN, s.Q, s.P, g, 60), Sigma: 3.2, H: s.H, Gamma: g})
	kg := frlwe.NewKeyGenerator(P)
	sk := kg.GenSecretKey()
	rlk, rtk := kg.GenRelinKey(sk), kg.GenRotKey(2, sk)
	k.Keys = func() uint64 { return h.Hash(fastHash(rlk.Value), fastHash(rtk.Value)) }
	k.New = func() interface{} { return frlwe.NewKeySwitcher(P) }
	L := w.L
	for l := 0; l <= L; l++ {
		for i, key := range [][2]*frlwe.SwitchingKey{rlk.Value, rtk.Value} {
			for pat, a := range []*ring.Poly{ru.JunkRed(w.N, l, w.Q, fmt.Sprint("a", l, i)), ring.NewPoly(w.N, l+1)} {
				l, key, a := l, key, a
				if pat == 1 && (l+i)%2 == 0 {
					continue
				}
				if pat == 1 {
					ru.Fill(a, w.Q, ru.PatMax, "max")
				}
				w.op(a)
				k.Acts = append(k.Acts, Act{fmt.Sprintf("SwitchKey level %d key %d operand %d", l, i, pat), func(o interface{}) Res {
					c0, c1 := ru.Junk(w.N, L, "c0"), ru.Junk(w.N, L, "c1")
					o.(*frlwe.KeySwitcher).SwitchKey(l, a, key[0], key[1], c0, c1)
					return polyLvl(l, c0, c1)
				}})
			}
		}
	}
}

func (w *world) fastEval(k *Kind) {
	F, kg, sk := w.fast()
	k.Env = w.Env
	rlk, r1, r3, r0 := kg.GenRelinKey(sk), kg.GenRotKey(1, sk), kg.GenRotKey(-3, sk), kg.GenRotKey(0, sk)
	k.Keys = func() uint64 {
		return h.Hash(fastHash(rlk.Value), fastHash(r1.Value), fastHash(r3.Value), fastHash(r0.Value))
	}
	k.New = func() interface{} { return fckks.NewEvaluator(F) }
	L := w.L
	sc := w.Spec.Scale
	hi, mid, lo := w.ct(1, L, sc, "hi"), w.ct(1, L-1, sc*4, "mid"), w.ct(1, 0, sc, "lo")
	p := w.pt(L, sc, "p")
	act := func(name string, f func(e *fckks.Evaluator) *ckks.Ciphertext) {
		k.Acts = append(k.Acts, Act{name, func(o interface{}) Res { return ctRes(f(o.(*fckks.Evaluator))) }})
	}
	in := func(c *ckks.Ciphertext, f func(o *ckks.Ciphertext)) *ckks.Ciphertext {
		o := c.CopyNew()
		f(o)
		return o
	}
	d := func(deg, l int, f func(o *ckks.Ciphertext)) *ckks.Ciphertext { o := w.dirty(deg, l); f(o); return o }
	type E = *fckks.Evaluator
	type C = *ckks.Ciphertext
	act("AddNew", func(e E) C { return e.AddNew(hi, mid) })
	act("Add in place", func(e E) C { return in(hi, func(o C) { e.Add(o, p, o) }) })
	act("SubNew", func(e E) C { return e.SubNew(p, lo) })
	act("Sub", func(e E) C { return d(2, L, func(o C) { e.Sub(hi, mid, o) }) })
	act("MulRelinNew", func(e E) C { return e.MulRelinNew(hi, mid, rlk) })
	act("MulRelin low", func(e E) C { return d(2, L, func(o C) { e.MulRelin(lo, hi, rlk, o) }) })
	act("MulRelin in place", func(e E) C { return in(mid, func(o C) { e.MulRelin(o, hi, rlk, o) }) })
	act("square", func(e E) C { return e.MulRelinNew(hi, hi, rlk) })
	act("RotateNew", func(e E) C { return e.RotateNew(hi, r1) })
	act("Rotate low", func(e E) C { return d(1, L, func(o C) { e.Rotate(lo, r3, o) }) })
	act("Rotate in place", func(e E) C { return in(mid, func(o C) { e.Rotate(o, r3, o) }) })
	act("Rotate 0", func(e E) C { return e.RotateNew(mid, r0) })
	act("SwitchKeysNew", func(e E) C { return e.SwitchKeysNew(hi, r0.Value) })
	act("SwitchKeys low", func(e E) C { return d(1, L, func(o C) { e.SwitchKeys(lo, rlk.Value, o) }) })
	act("SwitchKeys in place", func(e E) C { return in(mid, func(o C) { e.SwitchKeys(o, r1.Value, o) }) })
	act("Rescale", func(e E) C {
		return in(hi, func(o C) {
			if err := e.Rescale(o, sc/float64(w.Q[L]), o); err != nil {
				panic(err)
			}
		})
	})
	act("MultByConst", func(e E) C { return e.MultByConstNew(hi, complex(0.5, -0.25)) })
	act("MulNew", func(e E) C { return e.MulNew(mid, p) })
}

type msgs struct {
	e *fckks.Encryptor
	d *fckks.Decryptor
}

func (w *world) fastMsg(k *Kind) {
	F, kg, sk := w.fast()
	k.Env = w.Env
	pk := kg.GenPublicKey(sk)
	k.Keys = func() uint64 { return pu.QPHash(sk.Value, pk.Value[0], pk.Value[1]) }
	k.New = func() interface{} { return msgs{fckks.NewEncryptor(F, pk), fckks.NewDecryptor(F, sk)} }
	L := w.L
	act := func(name string, f func(e msgs) Res) {
		k.Acts = append(k.Acts, Act{name, func(o interface{}) Res { return f(o.(msgs)) }})
	}
	full, short := w.values(F.Slots(), "full"), w.values(2, "short")
	s1 := w.SP[1].Int64()
	tol := big.NewInt(pu.B(w.P.Parameters)*(1+int64(w.N)+s1) + 2 + 2*s1)
	enc := func(name string, v []complex128, l int, sc float64, f func(e msgs) *ckks.Ciphertext) {
		ph := w.Encode(append(append([]complex128{}, v...), make([]complex128, F.Slots()-len(v))...), sc)
		act(name, func(e msgs) Res {
			c := f(e)
			return Res{Hash: h.Hash(c.Level(), c.Degree(), c.Scale, w.phaseOK(c.Value, ph, tol)), Again: func() uint64 { return CtHash(c) }, Mess: func() { Mess(c.Value...) }, Mask: pu.PolyHash(c.Value[1])}
		})
	}
	ds := w.Spec.Scale
	mf, ms := &fckks.Message{Value: full}, &fckks.Message{Value: short}
	enc("EncryptMsgNew full", full, L, ds, func(e msgs) *ckks.Ciphertext { return e.e.EncryptMsgNew(mf) })
	enc("EncryptMsgNew short", short, L, ds, func(e msgs) *ckks.Ciphertext { return e.e.EncryptMsgNew(ms) })
	enc("EncryptMsg low", full, 0, ds, func(e msgs) *ckks.Ciphertext { c := w.dirty(1, 0); e.e.EncryptMsg(mf, c); return c })
	ph := w.Encode(full, ds/4)
	p := w.Make(0, 1, ds/4, ph).(*ckks.Plaintext)
	w.op(p.Value)
	enc("Encrypt", full, 1, ds/4, func(e msgs) *ckks.Ciphertext { c := w.dirty(1, L); e.e.Encrypt(p, c); return c })
	hi, lo, two := w.ct(1, L, ds*1024, "hi"), w.ct(1, 0, ds, "lo"), w.ct(2, 1, ds, "two")
	act("DecryptToMsgNew", func(e msgs) Res { return cRes(e.d.DecryptToMsgNew(hi).Value) })
	act("DecryptToMsg low", func(e msgs) Res {
		m := fckks.NewMessage(F)
		e.d.DecryptToMsg(lo, m)
		return cRes(m.Value)
	})
	act("DecryptToMsgNew degree 2", func(e msgs) Res { return cRes(e.d.DecryptToMsgNew(two).Value) })
	act("Decrypt", func(e msgs) Res {
		q := ckks.NewPlaintext(w.P, L, 1)
		e.d.Decrypt(two, q)
		return ptRes(q)
	})
}
