// C08: serialised objects round-trip into fresh and reused receivers.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"sort"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"verifharness/h"
	"verifharness/ref"
	"verifharness/ru"
)

// codec is what every binary-serialisable object offers.
type codec interface {
	MarshalBinary() ([]byte, error)
	UnmarshalBinary([]byte) error
}

type inst struct {
	name    string
	obj     codec
	fresh   func() codec
	payload int // bytes without metadata, -1 unknown
	maps    bool
}

// canonical forms -------------------------------------------------------------------------------

func dPoly(p *ring.Poly) string {
	if p == nil {
		return "nil"
	}
	f := fnv.New64a()
	var b [8]byte
	n := 0
	for _, l := range p.Coeffs {
		f.Write([]byte{byte(len(l)), byte(len(l) >> 8), byte(len(l) >> 16)})
		for _, v := range l {
			binary.BigEndian.PutUint64(b[:], v)
			f.Write(b[:])
		}
		n = len(l)
	}
	return fmt.Sprintf("poly(%dx%d ntt=%v m=%v %x)", len(p.Coeffs), n, p.IsNTT, p.IsMForm, f.Sum64())
}
func dQP(p rlwe.PolyQP) string { return "{" + dPoly(p.Q) + "," + dPoly(p.P) + "}" }
func dSwk(k *rlwe.SwitchingKey) string {
	if k == nil {
		return "nil"
	}
	s := fmt.Sprint("swk", len(k.Value))
	for _, v := range k.Value {
		s += dQP(v[0]) + dQP(v[1])
	}
	return s
}

func dump(x interface{}) string {
	switch v := x.(type) {
	case *ring.Poly:
		return dPoly(v)
	case *poly32:
		return dPoly(v.Poly)
	case *qpc:
		return dQP(v.PolyQP)
	case *rlwe.Ciphertext:
		s := fmt.Sprint("ct", len(v.Value))
		for _, p := range v.Value {
			s += dPoly(p)
		}
		return s
	case *ckks.Ciphertext:
		return fmt.Sprintf("%x", math.Float64bits(v.Scale)) + dump(v.Ciphertext)
	case *rlwe.SecretKey:
		return dQP(v.Value)
	case *rlwe.PublicKey:
		return dQP(v.Value[0]) + dQP(v.Value[1])
	case *rlwe.SwitchingKey:
		return dSwk(v)
	case *rlwe.RelinearizationKey:
		s := fmt.Sprint("rlk", len(v.Keys))
		for _, k := range v.Keys {
			s += dSwk(k)
		}
		return s
	case *rlwe.RotationKeySet:
		var ks []string
		for g, k := range v.Keys {
			ks = append(ks, fmt.Sprint(g, ":", dSwk(k)))
		}
		sort.Strings(ks)
		return fmt.Sprint("rtk", ks)
	case *rlwe.Parameters:
		return dParams(*v)
	case *ckks.Parameters:
		return dParams(v.Parameters) + fmt.Sprintf("|%d|%x", v.LogSlots(), math.Float64bits(v.DefaultScale()))
	case *rparams:
		return dParams(v.Parameters)
	case *cparams:
		return dump(&v.Parameters)
	case *ring.Ring:
		return dRing(v)
	}
	panic(fmt.Sprintf("no dump for %T", x))
}

func dRing(r *ring.Ring) string {
	if r == nil {
		return "nil"
	}
	return fmt.Sprint(r.N, r.NthRoot, r.Type(), r.Modulus, r.Mask, r.AllowsNTT, r.ModulusBigint, r.BredParams, r.MredParams, r.RescaleParams, r.PsiMont, r.PsiInvMont, r.NttPsi, r.NttPsiInv, r.NttNInv)
}

func dParams(p rlwe.Parameters) string {
	return fmt.Sprintf("%d|%v|%v|%d|%x|%v|%x|%x", p.LogN(), p.Q(), p.P(), p.HammingWeight(), math.Float64bits(p.Sigma()), p.RingType(), h.Hash(dRing(p.RingQ())), h.Hash(dRing(p.RingP())))
}

// adapters ---------------------------------------------------------------------------------------

type poly32 struct{ *ring.Poly }

func (p *poly32) MarshalBinary() ([]byte, error) {
	b := make([]byte, p.GetDataLen32(true))
	n, err := p.WriteTo32(b)
	if err == nil && n != len(b) {
		err = fmt.Errorf("WriteTo32 returns %d of %d", n, len(b))
	}
	return b, err
}
func (p *poly32) UnmarshalBinary(b []byte) error {
	n, err := p.DecodePolyNew32(b)
	if err == nil && n != len(b) {
		err = fmt.Errorf("DecodePolyNew32 returns %d of %d", n, len(b))
	}
	return err
}
func (p *poly32) GetDataLen(m bool) int { return p.Poly.GetDataLen32(m) }

type qpc struct{ rlwe.PolyQP }

func (p *qpc) MarshalBinary() ([]byte, error) {
	b := make([]byte, p.GetDataLen(true))
	n, err := p.WriteTo(b)
	if err == nil && n != len(b) {
		err = fmt.Errorf("WriteTo returns %d of %d", n, len(b))
	}
	return b, err
}
func (p *qpc) UnmarshalBinary(b []byte) error {
	n, err := p.DecodePolyNew(b)
	if err == nil && n != len(b) {
		err = fmt.Errorf("DecodePolyNew returns %d of %d", n, len(b))
	}
	return err
}

// JSON codecs of parameters
type rparams struct{ rlwe.Parameters }

func (p *rparams) MarshalBinary() ([]byte, error) { return json.Marshal(p.Parameters) }
func (p *rparams) UnmarshalBinary(b []byte) error { return json.Unmarshal(b, &p.Parameters) }

type cparams struct{ ckks.Parameters }

func (p *cparams) MarshalBinary() ([]byte, error) { return json.Marshal(p.Parameters) }
func (p *cparams) UnmarshalBinary(b []byte) error { return json.Unmarshal(b, &p.Parameters) }

// instances --------------------------------------------------------------------------------------

func mkPoly(n, limbs int, flags int, tag string) *ring.Poly {
	p := ru.Junk(n, limbs-1, tag)
	p.IsNTT, p.IsMForm = flags&1 != 0, flags&2 != 0
	return p
}

func mkQP(n, q, p, flags int, tag string) (o rlwe.PolyQP) {
	if q > 0 {
		o.Q = mkPoly(n, q, flags&3, tag+"q")
	}
	if p > 0 {
		o.P = mkPoly(n, p, flags>>2&3, tag+"p")
	}
	return
}

func mkSwk(n, beta, q, p, flags int, tag string) *rlwe.SwitchingKey {
	k := &rlwe.SwitchingKey{Value: make([][2]rlwe.PolyQP, beta)}
	for i := range k.Value {
		k.Value[i] = [2]rlwe.PolyQP{mkQP(n, q, p, flags, fmt.Sprint(tag, i, "a")), mkQP(n, q, p, flags>>1, fmt.Sprint(tag, i, "b"))}
	}
	return k
}

func kinds(t bool) map[string][]inst {
	m := map[string][]inst{}
	add := func(kind string, i inst) { m[kind] = append(m[kind], i) }
	for _, n := range []int{16, 32, 256} {
		for limbs := 1; limbs <= 4; limbs++ {
			for f := 0; f < 4; f++ {
				p := mkPoly(n, limbs, f, "poly")
				if limbs == 2 {
					p.Coeffs[1][n-1] = ^uint64(0)
					p.Coeffs[0][0] = 0
				}
				add("poly", inst{fmt.Sprintf("n%d/l%d/f%d", n, limbs, f), p, func() codec { return new(ring.Poly) }, n * limbs * 8, false})
				p32 := mkPoly(n, limbs, f, "poly32")
				for i := range p32.Coeffs {
					for j := range p32.Coeffs[i] {
						p32.Coeffs[i][j] &= 0xFFFFFFFF
					}
				}
				p32.Coeffs[limbs-1][0] = 0xFFFFFFFF
				add("poly32", inst{fmt.Sprintf("n%d/l%d/f%d", n, limbs, f), &poly32{p32}, func() codec { return &poly32{new(ring.Poly)} }, n * limbs * 4, false})
			}
		}
	}
	add("poly", inst{"l100", mkPoly(16, 100, 1, "x"), func() codec { return new(ring.Poly) }, 16 * 100 * 8, false})
	add("poly", inst{"n131072", mkPoly(1<<17, 1, 2, "x"), func() codec { return new(ring.Poly) }, 1 << 20, false})
	for _, n := range []int{16, 64} {
		for q := 0; q <= 3; q++ {
			for p := 0; p <= 2; p++ {
				for _, f := range []int{0, 1, 2, 4, 8, 5, 10, 15} {
					add("polyqp", inst{fmt.Sprintf("n%d/q%d/p%d/f%d", n, q, p, f), &qpc{mkQP(n, q, p, f, "qp")}, func() codec { return &qpc{} }, n * (q + p) * 8, false})
				}
			}
		}
	}
	for _, n := range []int{16, 64} {
		for deg := 0; deg <= 3; deg++ {
			for limbs := 1; limbs <= 3; limbs++ {
				for f := 0; f < 4; f++ {
					mk := func(tag string) *rlwe.Ciphertext {
						ct := &rlwe.Ciphertext{}
						for i := 0; i <= deg; i++ {
							ct.Value = append(ct.Value, mkPoly(n, limbs, f^(i&1), fmt.Sprint(tag, i)))
						}
						return ct
					}
					add("ciphertext", inst{fmt.Sprintf("n%d/d%d/l%d/f%d", n, deg, limbs, f), mk("ct"), func() codec { return new(rlwe.Ciphertext) }, n * (deg + 1) * limbs * 8, false})
					if n == 16 {
						sc := []float64{0, 1, 1 << 40, 3.14159e-7, math.MaxFloat64, -2.5}[(deg*12+limbs*4+f)%6]
						add("ckks-ciphertext", inst{fmt.Sprintf("n%d/d%d/l%d/f%d", n, deg, limbs, f), &ckks.Ciphertext{Ciphertext: mk("cc"), Scale: sc}, func() codec { return &ckks.Ciphertext{Ciphertext: new(rlwe.Ciphertext)} }, n * (deg + 1) * limbs * 8, false})
					}
				}
			}
		}
	}
	// components of different levels and degrees
	add("ciphertext", inst{"mixed", &rlwe.Ciphertext{Value: []*ring.Poly{mkPoly(16, 3, 0, "a"), mkPoly(16, 1, 1, "b"), mkPoly(32, 2, 2, "c")}}, func() codec { return new(rlwe.Ciphertext) }, 8 * (48 + 16 + 64), false})
	for _, n := range []int{16, 32} {
		for q := 1; q <= 3; q++ {
			for p := 0; p <= 2; p++ {
				for _, f := range []int{0, 3, 5, 6, 15} {
					nm := fmt.Sprintf("n%d/q%d/p%d/f%d", n, q, p, f)
					add("secretkey", inst{nm, &rlwe.SecretKey{Value: mkQP(n, q, p, f, "sk")}, func() codec { return new(rlwe.SecretKey) }, n * (q + p) * 8, false})
					add("publickey", inst{nm, &rlwe.PublicKey{Value: [2]rlwe.PolyQP{mkQP(n, q, p, f, "pa"), mkQP(n, q, p, f>>1, "pb")}}, func() codec { return new(rlwe.PublicKey) }, 2 * n * (q + p) * 8, false})
				}
				for beta := 0; beta <= 3; beta++ {
					if n == 32 && q == 2 {
						continue
					}
					nm := fmt.Sprintf("n%d/b%d/q%d/p%d", n, beta, q, p)
					f := beta*5 + q*3 + p
					add("switchingkey", inst{nm, mkSwk(n, beta, q, p, f, "swk"), func() codec { return new(rlwe.SwitchingKey) }, 2 * n * (q + p) * 8 * beta, false})
					if n == 16 {
						rl := &rlwe.RelinearizationKey{}
						rt := &rlwe.RotationKeySet{Keys: map[uint64]*rlwe.SwitchingKey{}}
						gs := []uint64{5, 1<<19 - 1, 1<<16 + 1, 3}
						for k := 0; k < beta; k++ {
							rl.Keys = append(rl.Keys, mkSwk(n, beta+1-k, q, p, f+k, fmt.Sprint("rl", k)))
							rt.Keys[gs[(k+q)%4]] = mkSwk(n, 1+k, q, p, f+k, fmt.Sprint("rt", k))
						}
						pl := 0
						for k := range rl.Keys {
							pl += len(rl.Keys[k].Value) * 2 * n * (q + p) * 8
						}
						add("relinkey", inst{nm, rl, func() codec { return new(rlwe.RelinearizationKey) }, pl, false})
						pl = 0
						for _, k := range rt.Keys {
							pl += len(k.Value) * 2 * n * (q + p) * 8
						}
						add("rotationkeys", inst{nm, rt, func() codec { return new(rlwe.RotationKeySet) }, pl, true})
					}
				}
			}
		}
	}
	add("switchingkey", inst{"b100", mkSwk(16, 100, 2, 1, 3, "big"), func() codec { return new(rlwe.SwitchingKey) }, 16 * 3 * 2 * 8 * 100, false})
	// rings
	S, CI := ring.Standard, ring.ConjugateInvariant
	for _, sp := range []ru.RingSpec{
		{"r1", 16, S, []uint64{97}}, {"r2", 16, S, []uint64{193, 97, 257}}, {"r3", 64, S, ru.Mixed(128, 61, 36, 20)},
		{"c1", 16, CI, []uint64{193}}, {"c2", 32, CI, ru.Mixed(128, 61, 45)}, {"r4", 256, S, ru.Mixed(512, 50)}, {"c3", 128, CI, ru.Mixed(512, 61, 36, 45)},
	} {
		r, err := ring.NewRingFromType(sp.N, sp.Q, sp.Type)
		if err != nil {
			panic(err)
		}
		add("ring", inst{sp.Name, r, func() codec { return new(ring.Ring) }, -1, false})
	}
	// parameter sets
	for i, q := range [][]int{{40}, {55, 36}, {61, 45, 45, 30}} {
		for j, p := range [][]int{{}, {61}, {50, 40}} {
			for _, ty := range []ring.Type{S, CI} {
				for k, logN := range []int{4, 6} {
					mod := uint64(1) << uint(logN+2)
					all := ru.Mixed(mod, append(append([]int{}, q...), p...)...)
					hw, sg := []int{1, 5, 16, 8}[(i+j+k)%4], []float64{3.2, 1.25, 6}[(i+k)%3]
					rp, err := rlwe.NewParameters(logN, all[:len(q)], all[len(q):], hw, sg, ty)
					if err != nil {
						panic(err)
					}
					nm := fmt.Sprintf("q%d/p%d/%v/n%d", len(q), len(p), ty, logN)
					add("rlwe-parameters", inst{nm, &rp, func() codec { return new(rlwe.Parameters) }, -1, false})
					add("rlwe-parameters-json", inst{nm, &rparams{rp}, func() codec { return new(rparams) }, -1, false})
					cp, err := ckks.NewParameters(rp, 1+(i+j)%3, []float64{1 << 40, 12345.678, 1}[(j+k)%3])
					if err != nil {
						panic(err)
					}
					add("ckks-parameters", inst{nm, &cp, func() codec { return new(ckks.Parameters) }, -1, false})
					add("ckks-parameters-json", inst{nm, &cparams{cp}, func() codec { return new(cparams) }, -1, false})
				}
			}
		}
	}
	// values that coincide with the "unset" value of a literal
	{
		q := ru.Mixed(64, 45, 40)
		p := ru.Mixed(64, 61)
		r0, _ := rlwe.NewParameters(4, q, p, 5, 0, S)
		r1, _ := rlwe.NewParameters(4, q, p, 0, 3.2, S)
		r2, _ := rlwe.NewParameters(4, q, p, 5, 3.2, S)
		c0, _ := ckks.NewParameters(r2, 0, 1<<30)
		for nm, r := range map[string]rlwe.Parameters{"sigma0": r0, "h0": r1} {
			r := r
			add("rlwe-parameters", inst{nm, &r, func() codec { return new(rlwe.Parameters) }, -1, false})
			add("rlwe-parameters-json", inst{nm, &rparams{r}, func() codec { return new(rparams) }, -1, false})
		}
		add("ckks-parameters", inst{"logslots0", &c0, func() codec { return new(ckks.Parameters) }, -1, false})
		add("ckks-parameters-json", inst{"logslots0", &cparams{c0}, func() codec { return new(cparams) }, -1, false})
	}
	return m
}

func run(c *h.Ctx) {
	ks := kinds(c.Thorough)
	var names []string
	for k := range ks {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, kind := range names {
		kind := kind
		list := ks[kind]
		for i := range list {
			i := i
			c.Case(kind, fmt.Sprintf("%s/%s", kind, list[i].name), func(t *h.T) { roundtrip(t, c, kind, list, i) })
		}
	}
	c.Case("write", "write/poly", func(t *h.T) { writes(t, ks) })
	c.Case("use", "use/params", func(t *h.T) { useParams(t) })
	for _, ty := range []ring.Type{ring.Standard, ring.ConjugateInvariant} {
		for _, np := range []int{0, 1, 2} {
			ty, np := ty, np
			c.Case("use", fmt.Sprintf("use/keys/%v/%d", ty, np), func(t *h.T) { useKeys(t, ty, np) })
		}
	}
}

type lener interface{ GetDataLen(bool) int }

func roundtrip(t *h.T, c *h.Ctx, kind string, list []inst, i int) {
	cur := list[i]
	want := dump(cur.obj)
	data, err := cur.obj.MarshalBinary()
	if err != nil {
		t.Fail(kind+"/encode", "%s: %v", cur.name, err)
	}
	if got := dump(cur.obj); got != want {
		t.Fail(kind+"/encode", "%s: encoding changes the object", cur.name)
	}
	if l, ok := cur.obj.(lener); ok {
		if l.GetDataLen(true) != len(data) {
			t.Note(kind+"/length", "%s: announced %d bytes, encoding has %d", cur.name, l.GetDataLen(true), len(data))
		}
		if cur.payload >= 0 && l.GetDataLen(false) != cur.payload {
			t.Note(kind+"/length", "%s: announced %d bytes without metadata, want %d", cur.name, l.GetDataLen(false), cur.payload)
		}
	}
	if p, ok := cur.obj.(*rlwe.Parameters); ok && p.MarshalBinarySize() != len(data) {
		t.Note(kind+"/length", "%s: announced %d bytes, encoding has %d", cur.name, p.MarshalBinarySize(), len(data))
	}
	if p, ok := cur.obj.(*ckks.Parameters); ok && p.MarshalBinarySize() != len(data) {
		t.Note(kind+"/length", "%s: announced %d bytes, encoding has %d", cur.name, p.MarshalBinarySize(), len(data))
	}
	keep := append([]byte{}, data...)
	check := func(what string, o codec) {
		t.Eval(1)
		if got := dump(o); got != want {
			sig := kind + "/decode"
			if cur.name == "sigma0" || cur.name == "h0" || cur.name == "logslots0" {
				sig += "/" + cur.name
			}
			t.Fail(sig, "%s decoded %s differs from the original:\n got %.400s\nwant %.400s", cur.name, what, got, want)
		}
		if !eq(cur.obj, o) || !eq(o, cur.obj) {
			t.Fail(kind+"/equals", "%s decoded %s is not Equal to the original", cur.name, what)
		}
		again, err := o.MarshalBinary()
		if err != nil {
			t.Fail(kind+"/decode", "%s decoded %s cannot be encoded again: %v", cur.name, what, err)
		}
		if !cur.maps && !bytes.Equal(again, keep) {
			t.Fail(kind+"/decode", "%s decoded %s encodes to other bytes", cur.name, what)
		}
	}
	dec := func(what string, o codec) {
		buf := append([]byte{}, keep...)
		if err := o.UnmarshalBinary(buf); err != nil {
			t.Fail(kind+"/decode", "%s %s: %v", cur.name, what, err)
		}
		if !bytes.Equal(buf, keep) {
			t.Fail(kind+"/decode", "%s %s: decoding changes its input", cur.name, what)
		}
		for k := range buf { // the object must not live in the buffer
			buf[k] ^= 0xFF
		}
		check(what, o)
	}
	dec("into a fresh receiver", cur.fresh())
	for j := range list {
		if len(list) > 40 && !c.Thorough && (j*7+i)%len(list) >= 40 {
			continue
		}
		prev := list[j]
		pd, err := prev.obj.MarshalBinary()
		if err != nil {
			continue
		}
		o := cur.fresh()
		if err := o.UnmarshalBinary(pd); err != nil {
			t.Fail(kind+"/decode", "%s: %v", prev.name, err)
		}
		dec("into a receiver that held "+prev.name, o)
		if dump(cur.obj) != want {
			t.Fail(kind+"/decode", "%s: decoding elsewhere changes the original", cur.name)
		}
		t.State(kind, cur.name, prev.name)
	}
}

func eq(a, b codec) bool {
	switch x := a.(type) {
	case *ring.Poly:
		return x.Equals(b.(*ring.Poly))
	case *poly32:
		return x.Equals(b.(*poly32).Poly)
	case *qpc:
		return x.Equals(b.(*qpc).PolyQP)
	case *rlwe.PublicKey:
		return x.Equals(b.(*rlwe.PublicKey))
	case *rlwe.SwitchingKey:
		return x.Equals(b.(*rlwe.SwitchingKey))
	case *rlwe.RelinearizationKey:
		return x.Equals(b.(*rlwe.RelinearizationKey))
	case *rlwe.RotationKeySet:
		y := b.(*rlwe.RotationKeySet)
		return x.Equals(y) && x.Includes(y)
	case *rlwe.Parameters:
		return x.Equals(*b.(*rlwe.Parameters))
	case *ckks.Parameters:
		return x.Equals(*b.(*ckks.Parameters))
	case *rparams:
		return x.Equals(b.(*rparams).Parameters)
	case *cparams:
		return x.Equals(b.(*cparams).Parameters)
	}
	return true
}

// writes: encoding into dirty and larger buffers.
func writes(t *h.T, ks map[string][]inst) {
	for _, kind := range []string{"poly", "poly32", "polyqp"} {
		for _, in := range ks[kind] {
			ref, _ := in.obj.MarshalBinary()
			for _, extra := range []int{0, 1, 7, 64} {
				for _, fill := range []byte{0, 0xFF, 1, 0xA5} {
					buf := bytes.Repeat([]byte{fill}, len(ref)+extra)
					var n int
					var err error
					switch o := in.obj.(type) {
					case *ring.Poly:
						n, err = o.WriteTo(buf)
					case *poly32:
						n, err = o.WriteTo32(buf)
					case *qpc:
						n, err = o.WriteTo(buf)
					}
					t.Eval(1)
					if err != nil || n != len(ref) {
						t.Fail(kind+"/write", "%s: wrote %d want %d (%v)", in.name, n, len(ref), err)
					}
					if !bytes.Equal(buf[:n], ref) {
						t.Fail(kind+"/write", "%s: a buffer filled with %x leads to another encoding", in.name, fill)
					}
					for _, b := range buf[n:] {
						if b != fill {
							t.Fail(kind+"/write", "%s: bytes beyond the encoding are changed", in.name)
						}
					}
				}
			}
			if o, ok := in.obj.(*ring.Poly); ok {
				for _, short := range []int{1, 4, 8, len(ref) - 4} {
					buf := make([]byte, len(ref)-short)
					if _, err := o.WriteTo(buf); err == nil {
						t.Fail(kind+"/write", "%s: no error for a buffer that is %d bytes short", in.name, short)
					}
				}
				buf := bytes.Repeat([]byte{0xEE}, len(ref))
				n, err := o.WriteCoeffs(buf)
				if err != nil || n != len(ref)-4 || !bytes.Equal(buf[:n], ref[4:]) || buf[n] != 0xEE {
					t.Fail(kind+"/write", "%s: WriteCoeffs", in.name)
				}
				co := ru.Clone(o.Coeffs)
				for i := range co {
					for j := range co[i] {
						co[i][j] = 99
					}
				}
				pt, err := ring.DecodeCoeffs(0, o.Degree(), o.LenModuli(), co, buf)
				if ok, _ := ru.Same(co, o.Coeffs); err != nil || pt != n || !ok {
					t.Fail(kind+"/write", "%s: DecodeCoeffs", in.name)
				}
				cn := make([][]uint64, o.LenModuli())
				pt, err = ring.DecodeCoeffsNew(0, o.Degree(), o.LenModuli(), cn, buf)
				if ok, _ := ru.Same(cn, o.Coeffs); err != nil || pt != n || !ok {
					t.Fail(kind+"/write", "%s: DecodeCoeffsNew", in.name)
				}
				for _, off := range []int{0, 3, 16} {
					b2 := bytes.Repeat([]byte{0xEE}, len(ref)+off)
					pt, err = ring.WriteCoeffsTo(off, o.Degree(), o.LenModuli(), o.Coeffs, b2)
					if err != nil || pt != off+n || !bytes.Equal(b2[off:pt], ref[4:]) {
						t.Fail(kind+"/write", "%s: WriteCoeffsTo offset %d", in.name, off)
					}
				}
				// 32-bit coefficients, at any offset
				lo := ru.Clone(o.Coeffs)
				for i := range lo {
					for j := range lo[i] {
						lo[i][j] &= 0xFFFFFFFF
					}
				}
				for _, off := range []int{0, 1, 4, 16} {
					b2 := bytes.Repeat([]byte{0xEE}, n/2+off+3)
					pt, err = ring.WriteCoeffsTo32(off, o.Degree(), o.LenModuli(), lo, b2)
					if err != nil || pt != off+n/2 || !bytes.Equal(b2[:off], bytes.Repeat([]byte{0xEE}, off)) || !bytes.Equal(b2[pt:], []byte{0xEE, 0xEE, 0xEE}) {
						t.Fail(kind+"/write", "%s: WriteCoeffsTo32 offset %d", in.name, off)
						continue
					}
					cn := make([][]uint64, o.LenModuli())
					pt, err = ring.DecodeCoeffsNew32(off, o.Degree(), o.LenModuli(), cn, b2)
					if ok, _ := ru.Same(cn, lo); err != nil || pt != off+n/2 || !ok {
						t.Fail(kind+"/write", "%s: DecodeCoeffsNew32 offset %d", in.name, off)
					}
				}
			}
			t.State(kind, in.name, "write")
		}
	}
}

// useParams: decoded rings and parameter sets compute like the originals.
func useParams(t *h.T) {
	ks := kinds(false)
	for _, in := range ks["ring"] {
		data, _ := in.obj.MarshalBinary()
		r := in.obj.(*ring.Ring)
		d := new(ring.Ring)
		if err := d.UnmarshalBinary(data); err != nil {
			t.Fail("ring/use", "%v", err)
		}
		a := r.NewPoly()
		ru.Fill(a, r.Modulus, ru.PatDense, "use")
		x, y := r.NewPoly(), d.NewPoly()
		r.NTT(a, x)
		d.NTT(a, y)
		if ok, s := ru.Same(x.Coeffs, y.Coeffs); !ok {
			t.Fail("ring/use", "%s: transform of the decoded ring differs: %s", in.name, s)
		}
		r.MulCoeffs(x, x, x)
		d.MulCoeffs(y, y, y)
		r.InvNTT(x, x)
		d.InvNTT(y, y)
		if ok, s := ru.Same(x.Coeffs, y.Coeffs); !ok {
			t.Fail("ring/use", "%s: product in the decoded ring differs: %s", in.name, s)
		}
		t.Eval(1)
		t.State("ring/use", in.name)
	}
	// embedded JSON documents
	for _, in := range ks["ckks-parameters"] {
		if in.name == "logslots0" {
			continue
		}
		p := in.obj.(*ckks.Parameters)
		b, err := json.Marshal(map[string]interface{}{"p": p})
		if err != nil {
			t.Fail("ckks-parameters-json/nested", "%v", err)
		}
		var o struct{ P ckks.Parameters }
		if err := json.Unmarshal(b, &o); err != nil || !o.P.Equals(*p) {
			t.Fail("ckks-parameters-json/nested", "%s: %v", in.name, err)
		}
		t.Eval(1)
	}
	var p ckks.Parameters
	if err := json.Unmarshal([]byte(`{"LogN":"x"}`), &p); err == nil {
		t.Fail("ckks-parameters-json/malformed", "no error for a malformed document")
	}
}

// useKeys: keys generated by the library work after a round trip exactly as before.
func useKeys(t *h.T, ty ring.Type, np int) {
	all := ru.Mixed(128, append([]int{55, 40, 45}, ru.Rep(60, np)...)...)
	logN := 5
	params, err := rlwe.NewParameters(logN, all[:3], all[3:], 9, 3.2, ty)
	if err != nil {
		t.Fail("params", "%v", err)
	}
	kgen := rlwe.NewKeyGenerator(params)
	sk := kgen.GenSecretKey()
	pk := kgen.GenPublicKey(sk)
	rt := func(kind string, a, b codec) {
		data, err := a.MarshalBinary()
		if err != nil {
			t.Fail(kind+"/use", "%v", err)
		}
		if err := b.UnmarshalBinary(data); err != nil {
			t.Fail(kind+"/use", "%v", err)
		}
		t.Eval(1)
		if dump(a) != dump(b) {
			t.Fail(kind+"/decode", "generated key (%d auxiliary primes, %v) differs after a round trip: %.300s / %.300s", np, ty, dump(a), dump(b))
		}
	}
	sk2, pk2 := new(rlwe.SecretKey), new(rlwe.PublicKey)
	rt("secretkey", sk, sk2)
	rt("publickey", pk, pk2)
	pt := rlwe.NewPlaintext(params, params.MaxLevel())
	for j := range pt.Value.Coeffs[0] {
		for i := range pt.Value.Coeffs {
			pt.Value.Coeffs[i][j] = uint64(j) << 20
		}
	}
	for k, enc := range []rlwe.Encryptor{rlwe.NewEncryptor(params, pk2), rlwe.NewEncryptor(params, sk2)} {
		ct := rlwe.NewCiphertext(params, 1, params.MaxLevel())
		enc.Encrypt(pt, ct)
		ct2 := new(rlwe.Ciphertext)
		rt("ciphertext", ct, ct2)
		d1, d2 := rlwe.NewPlaintext(params, params.MaxLevel()), rlwe.NewPlaintext(params, params.MaxLevel())
		rlwe.NewDecryptor(params, sk).Decrypt(ct2, d1)
		rlwe.NewDecryptor(params, sk2).Decrypt(ct, d2)
		if dPoly(d1.Value) != dPoly(d2.Value) {
			t.Fail("use", "encryptor %d: decryptions with original and decoded objects differ", k)
		}
		for i, q := range params.Q() {
			for j, v := range d1.Value.Coeffs[i] {
				e := ref.SubMod(v, pt.Value.Coeffs[i][j], q)
				if e > 1<<18 && q-e > 1<<18 {
					t.Fail("use", "encryptor %d: decoded keys do not decrypt (coefficient %d off by %d)", k, j, e)
				}
			}
		}
	}
	if np == 0 {
		return
	}
	rlk := kgen.GenRelinearizationKey(sk, 2)
	rlk2 := new(rlwe.RelinearizationKey)
	rt("relinkey", rlk, rlk2)
	rtks := kgen.GenRotationKeys([]uint64{params.GaloisElementForColumnRotationBy(1), params.GaloisElementForColumnRotationBy(-3)}, sk)
	rtks2 := new(rlwe.RotationKeySet)
	rt("rotationkeys", rtks, rtks2)
	ks := rlwe.NewKeySwitcher(params)
	a := ru.JunkRed(params.N(), params.MaxLevel(), params.Q(), "a")
	a.IsNTT = true
	for i := 0; i < 2; i++ {
		p0, p1, p2, p3 := params.RingQ().NewPoly(), params.RingQ().NewPoly(), params.RingQ().NewPoly(), params.RingQ().NewPoly()
		ks.SwitchKeysInPlace(params.MaxLevel(), a, rlk.Keys[i], p0, p1)
		ks.SwitchKeysInPlace(params.MaxLevel(), a, rlk2.Keys[i], p2, p3)
		if !p0.Equals(p2) || !p1.Equals(p3) {
			t.Fail("use", "key switch with a decoded key differs")
		}
	}
}

func main() {
	h.Main(h.Info{
		ID: "C08", Level: "exploration",
		Rule:        "every serialisable kind x every shape (degree, level, limbs, domain flags, presence of each modulus, digit count, key count) x every previous content of the receiver (ordered pairs of shapes); dirty/large/short buffers for the writers; decoded rings, parameters and generated keys used in place of the originals. Non-trivial: distinct (kind, shape, previous shape).",
		Bounds:      "N in {16,32,64,256} (2^17 once), up to 4 limbs (100 once), degree 0..3, 0..3 keys/digits (100 once); quick pairs each shape with 40 previous shapes, thorough with all",
		Assumptions: []string{"moduli counts, digit counts and degrees up to the library's limit of 100", "encodings are well formed"},
	}, run)
}
