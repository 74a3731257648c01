// C14: CKKS decoding inverts encoding for every slot layout.
package main

import (
	"fmt"
	"math"
	"math/big"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"verifharness/alpha"
	"verifharness/h"
	"verifharness/pu"
	"verifharness/ref"
	"verifharness/ru"
)

type spec struct {
	name string
	logN int
	q, p []uint64
	t    ring.Type
}

func (s spec) ci() bool { return s.t == ring.ConjugateInvariant }

func (s spec) maxLog() int {
	if s.ci() {
		return s.logN
	}
	return s.logN - 1
}

func specs(th bool) (o []spec) {
	add := func(name string, logN int, t ring.Type, q, p []int) {
		m := ru.Mixed(pu.M0(logN, t), append(append([]int{}, q...), p...)...)
		o = append(o, spec{name, logN, m[:len(q)], m[len(q):], t})
	}
	add("std4", 4, ring.Standard, []int{55, 40, 30}, []int{61})
	add("std5", 5, ring.Standard, []int{30, 61, 45}, []int{50, 51})
	add("std6", 6, ring.Standard, []int{50, 40}, []int{40})
	add("std7", 7, ring.Standard, []int{61}, []int{30})
	add("ci4", 4, ring.ConjugateInvariant, []int{55, 40, 30}, []int{61})
	add("ci5", 5, ring.ConjugateInvariant, []int{30, 61, 45}, []int{50, 51})
	add("ci6", 6, ring.ConjugateInvariant, []int{50, 40}, []int{40})
	add("many4", 4, ring.Standard, append([]int{55}, ru.Rep(45, 99)...), []int{61})
	add("many-ci", 4, ring.ConjugateInvariant, ru.Rep(61, 34), []int{61})
	if th {
		add("std8", 8, ring.Standard, []int{45, 40, 40, 40}, []int{45})
		add("std8", 8, ring.Standard, []int{45, 40}, []int{45})
		add("ci6", 6, ring.ConjugateInvariant, []int{45, 40, 40}, []int{45})
		add("long4", 4, ring.Standard, ru.Rep(55, 12), []int{61})
	}
	return
}

func (s spec) New(t *h.T) ckks.Parameters {
	r, err := rlwe.NewParameters(s.logN, s.q, s.p, 1<<uint(s.logN-1), 3.2, s.t)
	t.Check(err == nil, "setup", "rlwe.NewParameters: %v", err)
	p, err := ckks.NewParameters(r, s.maxLog(), 1<<30)
	t.Check(err == nil, "setup", "ckks.NewParameters: %v", err)
	return p
}

// scales is the alphabet of scales.
var scales = []float64{1, 1 << 10, 3 << 20, 1 << 30, 1 << 40, 1099511627776.5 * 3.1, 1 << 60, math.Exp2(70)}

// values returns the k-th input vector of n values (nil when there is none).
func values(n, k int, tag string) []complex128 {
	v := make([]complex128, n)
	rng := h.NewRng(fmt.Sprint(tag, n, k))
	switch {
	case k == 0: // zeros
	case k == 1:
		for i := range v {
			v[i] = 1
		}
	case k == 2:
		for i := range v {
			v[i] = complex(0, 1)
		}
	case k == 3:
		for i := range v {
			v[i] = complex(rng.Float(), rng.Float())
		}
	case k == 4:
		for i := range v {
			v[i] = complex(rng.Float()*1e6, rng.Float()*1e-6)
		}
	case k == 5:
		for i := range v {
			v[i] = complex(float64(1-2*(i%2)), float64(i%3-1))
		}
	case k == 6:
		for i := range v {
			v[i] = complex(-float64(uint64(1)<<24), float64(uint64(1)<<24))
		}
	case k < 7+2*n: // unit vectors
		if n > 16 && (k-7)/2 > 3 && (k-7)/2 < n-2 {
			return v
		}
		if k%2 == 1 {
			v[(k-7)/2] = 1
		} else {
			v[(k-7)/2] = complex(0.25, -1)
		}
	default:
		return nil
	}
	return v
}

func maxAbs(v []complex128) (m float64) {
	for _, x := range v {
		m = math.Max(m, math.Max(math.Abs(real(x)), math.Abs(imag(x))))
	}
	return
}

// exact returns the unscaled integer-free preimage over the full ring: coefficients of the encoding polynomial.
func exact(v []complex128, slots int, N int, ci bool) []*big.Float {
	z := make([]ref.C, slots)
	for i := range z {
		if i < len(v) {
			z[i] = ref.NewC(v[i])
		} else {
			z[i] = ref.NewC(0)
		}
		if ci {
			z[i].Im = ref.F(0)
		}
	}
	return spread(ref.Coeffs(z, ci), N)
}

func spread(c []*big.Float, N int) []*big.Float {
	gap := N / len(c)
	o := make([]*big.Float, N)
	for i := range o {
		if i%gap == 0 {
			o[i] = c[i/gap]
		} else {
			o[i] = nil
		}
	}
	return o
}

// diff returns x - c*scale reduced around zero modulo Q.
func diff(x *big.Int, c *big.Float, scale float64, Q *big.Int) *big.Float {
	w := new(big.Float).SetPrec(ref.Prec).Mul(c, ref.F(scale))
	d := new(big.Float).SetPrec(ref.Prec).Sub(ref.FI(x), w)
	k := new(big.Float).SetPrec(ref.Prec).Quo(d, ref.FI(Q))
	half := ref.F(0.5)
	if k.Sign() < 0 {
		half = ref.F(-0.5)
	}
	n, _ := k.Add(k, half).Int(nil)
	return d.Sub(d, new(big.Float).SetPrec(ref.Prec).Mul(ref.FI(n), ref.FI(Q)))
}

// checkPoly compares the integers of an encoding with the exact preimage.
func checkPoly(t *h.T, what string, x []*big.Int, c []*big.Float, scale, eps float64, Q *big.Int) {
	b := ref.F(0.5 + eps)
	for i := range x {
		if c[i] == nil {
			t.Check(x[i].Sign() == 0, "encode/gap", "%s: coefficient %d is %s, want 0", what, i, x[i])
			continue
		}
		d := diff(x[i], c[i], scale, Q)
		t.Check(new(big.Float).Abs(d).Cmp(b) <= 0, "encode/value", "%s: coefficient %d is %s, off by %s from the scaled preimage (bound %s)", what, i, x[i], d.Text('g', 10), b.Text('g', 6))
	}
}

func flog(n int) float64 { return math.Log2(float64(n)) + 4 }

func encode(t *h.T, s spec, ls int, th bool) {
	P := s.New(t)
	rq := P.RingQ()
	N := P.N()
	slots := 1 << uint(ls)
	ecd := ckks.NewEncoder(P)
	sc := scales
	junkN := 0
	for k := 0; ; k++ {
		v := values(slots, k, s.name)
		if v == nil {
			break
		}
		lens := []int{slots}
		if k == 3 {
			for l := 1; l < slots; l++ {
				if l <= 5 || l >= slots-2 || th {
					lens = append(lens, l)
				}
			}
		}
		for _, ln := range lens {
			v := v[:ln]
			orig := append([]complex128{}, v...)
			ex := exact(v, slots, N, s.ci())
			fl := make([]float64, ln)
			fz := make([]complex128, ln)
			for i := range v {
				fl[i] = real(v[i])
				fz[i] = complex(fl[i], 0)
			}
			exR := exact(fz, slots, N, s.ci())
			for lvl := 0; lvl <= P.MaxLevel(); lvl++ {
				if len(s.q) > 32 && !ru.Few(lvl, len(s.q), false) {
					continue
				}
				Q := ref.Prod(s.q[:lvl+1])
				for si, scale := range sc {
					if !th && (k > 6 || ln != slots) && (si+k+lvl)%4 != 0 {
						continue
					}
					eps := flog(2*slots)*math.Exp2(-50)*maxAbs(v)*scale*2 + 1e-9
					for route := 0; route < 5; route++ {
						var pt *ckks.Plaintext
						e := ex
						what := fmt.Sprintf("%s slots=%d/%d values %d level %d scale %g route %d", s.name, ln, slots, k, lvl, scale, route)
						dirty := func(ntt bool) *ckks.Plaintext {
							junkN++
							p := ckks.NewPlaintext(P, lvl, scale)
							p.Value.Coeffs = ru.JunkRed(N, lvl, s.q, fmt.Sprint(junkN%3)).Coeffs
							p.Value.IsNTT = ntt
							return p
						}
						switch route {
						case 0:
							pt = ecd.EncodeNew(v, lvl, scale, ls)
						case 1:
							pt = dirty(true)
							ecd.Encode(v, pt, ls)
						case 2:
							pt = dirty(false)
							ecd.EncodeSlots(v, pt, ls)
						case 3:
							pt = ecd.EncodeSlotsNew(fl, lvl, scale, ls)
							e = exR
						case 4:
							if lvl > 0 && lvl < P.MaxLevel() {
								continue
							}
							// joint basis, in Montgomery form
							qp := rlwe.PolyQP{Q: ru.JunkRed(N, lvl, s.q, "q"), P: ru.JunkRed(N, len(s.p)-1, s.p, "p")}
							ecd.Embed(v, ls, scale, k%2 == 0, qp)
							x, y := qp.Q.Coeffs, qp.P.Coeffs
							if k%2 == 0 {
								x, y = pu.Plain(qp.Q, s.q), pu.Plain(qp.P, s.p)
							}
							qi := intt(rq, x)
							pi := intt(P.RingP(), y)
							all := append(append([][]uint64{}, qi...), pi...)
							mods := append(append([]uint64{}, s.q[:lvl+1]...), s.p...)
							checkPoly(t, what, ref.CRTCentered(all, mods), e, scale, eps, ref.Prod(mods))
							t.Check(qp.Q.IsNTT && qp.P.IsNTT, "encode/domain", "%s: the embedded polynomial is not marked as transformed", what)
							t.Eval(1)
							continue
						}
						t.Check(pt.Value.IsNTT && pt.Level() == lvl && pt.Scale == scale, "encode/record", "%s: ntt=%v level=%d scale=%g", what, pt.Value.IsNTT, pt.Level(), pt.Scale)
						ok, m := pu.Reduced(pt.Value, s.q)
						t.Check(ok, "encode/reduced", "%s: %s", what, m)
						checkPoly(t, what, pu.Ints(rq, pt.Value, true, lvl), e, scale, eps, Q)
						// decoding, where the message fits
						if maxAbs(v)*scale*4 < bigF(Q) {
							want := make([]ref.C, slots)
							for i := range want {
								want[i] = ref.NewC(0)
								if i < ln {
									if route == 3 || s.ci() {
										want[i] = ref.NewC(complex(real(v[i]), 0))
									} else {
										want[i] = ref.NewC(v[i])
									}
								}
							}
							tol := float64(2*slots)/scale*(0.5+eps)*1.0001 + float64(slots)*flog(slots)*math.Exp2(-49)*maxAbs(v) + 1e-300
							checkSlots(t, "roundtrip", what, ecd.Decode(pt, ls), want, tol*2)
						}
						t.Eval(1)
						t.State(s.name, ls, k, ln, lvl, si, route)
					}
				}
			}
			for i := range v {
				t.Check(v[i] == orig[i], "encode/operand", "the input values are modified")
			}
		}
	}
}

func intt(r *ring.Ring, v [][]uint64) [][]uint64 {
	c := ring.NewPoly(r.N, len(v))
	for i := range v {
		for j, x := range v[i] {
			c.Coeffs[i][j] = x % r.Modulus[i]
		}
	}
	r.InvNTTLvl(len(v)-1, c, c)
	return c.Coeffs
}

func bigF(x *big.Int) float64 { f, _ := new(big.Float).SetInt(x).Float64(); return f }

func checkSlots(t *h.T, sig, what string, got []complex128, want []ref.C, tol float64) {
	t.Check(len(got) == len(want), "decode/length", "%s: %d slots, want %d", what, len(got), len(want))
	b := ref.F(tol)
	for i := range got {
		d := ref.NewC(got[i]).Sub(want[i]).Abs1()
		if d.Cmp(b) > 0 {
			re, _ := want[i].Re.Float64()
			im, _ := want[i].Im.Float64()
			t.Fail("decode/"+sig, "%s: slot %d is %v, want %v, off by %s, bound %g", what, i, got[i], complex(re, im), d.Text('g', 8), tol)
		}
	}
}

// patPoly returns the k-th integer polynomial.
func patPoly(N, k int, Q *big.Int, q []uint64, tag string) []*big.Int {
	v := make([]*big.Int, N)
	rng := h.NewRng(fmt.Sprint(tag, k))
	al := alpha.Alphabet(Q, alpha.Bigs(q), 4, tag)
	for i := range v {
		v[i] = new(big.Int)
	}
	qh := new(big.Int).Rsh(Q, 1)
	pick := func(i int) *big.Int {
		x := new(big.Int).Set(al[i%len(al)])
		x.Mod(x, Q)
		if x.Cmp(qh) == 0 { // the tie of the centred representation
			x.Add(x, big.NewInt(1))
		}
		return x
	}
	switch {
	case k == 0:
	case k == 1:
		for i := range v {
			v[i] = pick(int(rng.U64() % uint64(len(al))))
		}
	case k == 2:
		for i := range v {
			v[i].Sub(qh, big.NewInt(1))
		}
	case k == 3:
		for i := range v {
			v[i].Add(qh, big.NewInt(1))
		}
	case k == 4:
		for i := range v {
			v[i].SetInt64(int64(rng.U64()) >> 30)
		}
	case k < 5+(len(al)+N-1)/N:
		for i := range v {
			v[i] = pick((k-5)*N + i)
		}
	default:
		k -= 5 + (len(al)+N-1)/N
		if k >= N || (N > 32 && k > 8 && k < N-4) {
			return nil
		}
		v[k].SetInt64(-12345678)
	}
	ref.Center(v, Q)
	for i := range v { // no float64 holds larger values
		v[i].Rem(v[i], new(big.Int).Lsh(big.NewInt(1), 900))
	}
	return v
}

func toPt(P ckks.Parameters, v []*big.Int, lvl int, scale float64, ntt bool) *ckks.Plaintext {
	pt := ckks.NewPlaintext(P, lvl, scale)
	ru.FillInt(pt.Value, P.Q(), v)
	if ntt {
		P.RingQ().NTTLvl(lvl, pt.Value, pt.Value)
	}
	pt.Value.IsNTT = ntt
	return pt
}

// inside reports whether an error of 2B per coefficient cannot leave the centred range.
func inside(v []*big.Int, B float64, Q *big.Int) bool {
	b := new(big.Int).Sub(Q, big.NewInt(int64(4*B)+4))
	for _, x := range v {
		if new(big.Int).Lsh(new(big.Int).Abs(x), 1).Cmp(b) >= 0 {
			return false
		}
	}
	return true
}

func sumAbs(v []*big.Int) float64 { return bigF(pu.Norm1(v)) }

func decode(t *h.T, s spec, lvl int, th bool) {
	P := s.New(t)
	N := P.N()
	ecd := ckks.NewEncoder(P)
	Q := ref.Prod(s.q[:lvl+1])
	for k := 0; ; k++ {
		v := patPoly(N, k, Q, s.q[:lvl+1], fmt.Sprint(s.name, lvl))
		if v == nil {
			break
		}
		for si, scale := range scales {
			if si > 2 && (si+k)%3 != 0 {
				continue
			}
			for _, ntt := range []bool{true, false} {
				pt := toPt(P, v, lvl, scale, ntt)
				hh := pu.PolyHash(pt.Value)
				for ls := 0; ls <= s.maxLog(); ls++ {
					n := 1 << uint(ls)
					l := 2 * n
					if s.ci() {
						l = n
					}
					gap := N / l
					c := make([]*big.Float, l)
					var sub []*big.Int
					for i := range c {
						sub = append(sub, v[i*gap])
						c[i] = new(big.Float).SetPrec(ref.Prec).Quo(ref.FI(v[i*gap]), ref.F(scale))
					}
					want := ref.Slots(c, n, s.ci())
					tol := sumAbs(sub)/scale*flog(n)*math.Exp2(-49) + 1e-300
					what := fmt.Sprintf("%s poly %d level %d scale %g ntt=%v slots %d", s.name, k, lvl, scale, ntt, n)
					checkSlots(t, "value", what, ecd.Decode(pt, ls), want, tol)
					checkSlots(t, "value", what, ecd.DecodeSlots(pt, ls), want, tol)
					checkSlots(t, "public0", what, ecd.DecodePublic(pt, ls, 0), want, tol)
					if s.ci() {
						for i, x := range ecd.Decode(pt, ls) {
							t.Check(imag(x) == 0 || math.Abs(imag(x)) <= tol, "decode/imag", "%s: slot %d has an imaginary part %g", what, i, imag(x))
						}
					}
					for _, sigma := range []float64{3.2, 100} {
						B := math.Floor(2.5066282746310002 * sigma)
						if !inside(sub, B, Q) { // the error may wrap around the modulus
							continue
						}
						checkSlots(t, "public", what, ecd.DecodePublic(pt, ls, sigma), want, tol+2*float64(2*n)*B/scale*1.0001)
						checkSlots(t, "public", what, ecd.DecodeSlotsPublic(pt, ls, sigma), want, tol+2*float64(2*n)*B/scale*1.0001)
					}
					t.Eval(1)
				}
				// coefficients
				got := ecd.DecodeCoeffs(pt)
				t.Check(len(got) == N, "coeffs/length", "%d coefficients", len(got))
				for i := range got {
					w := bigF(v[i]) / scale
					t.Check(math.Abs(got[i]-w) <= math.Abs(w)*math.Exp2(-51), "coeffs/decode", "%s poly %d level %d scale %g: coefficient %d is %g, want %g", s.name, k, lvl, scale, i, got[i], w)
				}
				for _, sigma := range []float64{3.2, 50} {
					B := math.Floor(2.5066282746310002*sigma) + 1e-6
					some := false
					for i, x := range ecd.DecodeCoeffsPublic(pt, sigma) {
						w := bigF(v[i])
						slack := math.Abs(w) * math.Exp2(-51)
						d := x*scale - w
						if new(big.Int).Lsh(new(big.Int).Abs(v[i]), 1).Cmp(new(big.Int).Sub(Q, big.NewInt(int64(4*B)))) < 0 {
							t.Check(math.Abs(d) <= B+slack, "coeffs/public", "%s poly %d level %d scale %g sigma %g: coefficient %d gets an error of %g", s.name, k, lvl, scale, sigma, i, d)
						}
						if math.Abs(d) > 0.5 {
							some = true
						}
					}
					if k == 0 {
						t.Check(some, "coeffs/public-noise", "%s: DecodeCoeffsPublic(sigma=%g) adds no error", s.name, sigma)
					}
				}
				t.Check(pu.PolyHash(pt.Value) == hh && pt.Scale == scale, "decode/operand", "decoding modifies the plaintext")
				t.State(s.name, lvl, k, si, ntt)
			}
		}
	}
}

// coeffs encodes boundary values coefficient by coefficient.
func coeffs(t *h.T, s spec, lvl int, th bool) {
	P := s.New(t)
	N := P.N()
	ecd := ckks.NewEncoder(P)
	Q := ref.Prod(s.q[:lvl+1])
	var raw []float64
	add := func(x float64) {
		for _, d := range []float64{x, math.Nextafter(x, 0), math.Nextafter(x, math.Inf(1)), x + 0.5, x - 0.5, x + 0.25} {
			raw = append(raw, d, -d)
		}
	}
	for _, b := range []int{0, 1, 10, 29, 30, 31, 52, 53, 54, 60, 61, 62, 63, 64, 65, 66, 80, 100, 127, 128, 129, 200} {
		add(math.Exp2(float64(b)))
	}
	for _, q := range append(append([]uint64{}, s.q...), s.p...) {
		add(float64(q))
		add(float64(q) / 2)
		add(float64(q) * 3)
	}
	raw = append(raw, 0, math.Copysign(0, -1), 1e-300, -1e-300, 0.4999, -0.4999)
	for _, scale := range scales {
		for st := 0; st < len(raw); st += N {
			e := st + N
			if e > len(raw) {
				e = len(raw)
			}
			v := make([]float64, e-st)
			for i := range v {
				v[i] = raw[st+i] / scale
			}
			orig := append([]float64{}, v...)
			for route := 0; route < 3; route++ {
				var pt *ckks.Plaintext
				if route == 0 {
					pt = ecd.EncodeCoeffsNew(v, lvl, scale)
				} else {
					pt = ckks.NewPlaintext(P, lvl, scale)
					pt.Value.Coeffs = ru.JunkRed(N, lvl, s.q, "x").Coeffs
					pt.Value.IsNTT = route == 1
					ecd.EncodeCoeffs(v, pt)
				}
				what := fmt.Sprintf("%s level %d scale %g values %d.. route %d", s.name, lvl, scale, st, route)
				t.Check(pt.Value.IsNTT && pt.Level() == lvl && pt.Scale == scale, "coeffs/record", "%s: ntt=%v level=%d scale=%g", what, pt.Value.IsNTT, pt.Level(), pt.Scale)
				ok, m := pu.Reduced(pt.Value, s.q)
				t.Check(ok, "coeffs/reduced", "%s: %s", what, m)
				x := pu.Ints(P.RingQ(), pt.Value, true, lvl)
				for i := range x {
					c := ref.F(0)
					eps := 0.0
					if i < len(v) {
						c = ref.F(v[i])
						eps = math.Abs(v[i]) * scale * math.Exp2(-52)
					}
					d := diff(x[i], c, scale, Q)
					t.Check(new(big.Float).Abs(d).Cmp(ref.F(0.5+eps+1e-9)) <= 0, "coeffs/encode", "%s: coefficient %d = %g is off by %s", what, i, orig[min(i, len(orig)-1)], d.Text('g', 10))
				}
				t.Eval(1)
				t.State(s.name, lvl, scale, st, route)
			}
			for i := range v {
				t.Check(v[i] == orig[i], "coeffs/operand", "the input values are modified")
			}
		}
	}
}

func toBig(v []complex128, prec int) (o []*ring.Complex) {
	for _, z := range v {
		o = append(o, ring.NewComplex(ring.NewFloat(real(z), prec), ring.NewFloat(imag(z), prec)))
	}
	return
}

// bigEncoder checks the arbitrary-precision encoder (defined for the standard ring).
func bigEncoder(t *h.T, s spec, prec int, th bool) {
	P := s.New(t)
	rq := P.RingQ()
	N := P.N()
	ecd := ckks.NewEncoderBigComplex(P, prec)
	sc := []float64{1, 1 << 30, 1099511627776.5 * 3.1, math.Exp2(60), math.Exp2(float64(prec) / 2)}
	tiny := func(m float64, n int) *big.Float {
		x := ref.F(m * float64(n) * 512)
		return x.SetMantExp(x, -prec)
	}
	for ls := 0; ls <= s.maxLog(); ls++ {
		slots := 1 << uint(ls)
		for k := 0; ; k++ {
			v := values(slots, k, s.name)
			if v == nil {
				break
			}
			ex := exact(v, slots, N, false)
			in := toBig(v, prec)
			for lvl := 0; lvl <= P.MaxLevel(); lvl++ {
				if len(s.q) > 32 && !ru.Few(lvl, len(s.q), false) {
					continue
				}
				Q := ref.Prod(s.q[:lvl+1])
				for si, scale := range sc {
					if k > 6 && (si+lvl+k)%3 != 0 {
						continue
					}
					pt := ckks.NewPlaintext(P, lvl, scale)
					pt.Value.Coeffs = ru.JunkRed(N, lvl, s.q, "big").Coeffs
					pt.Value.IsNTT = k%2 == 0
					if si%2 == 0 {
						pt = ecd.EncodeNew(in, lvl, scale, ls)
					} else {
						ecd.Encode(in, pt, ls)
					}
					what := fmt.Sprintf("%s big%d slots %d values %d level %d scale %g", s.name, prec, slots, k, lvl, scale)
					t.Check(pt.Value.IsNTT && pt.Scale == scale && pt.Level() == lvl, "big/record", "%s: ntt=%v", what, pt.Value.IsNTT)
					ok, m := pu.Reduced(pt.Value, s.q)
					t.Check(ok, "big/reduced", "%s: %s", what, m)
					x := pu.Ints(rq, pt.Value, true, lvl)
					e := new(big.Float).SetPrec(ref.Prec).Mul(tiny(maxAbs(v)+1e-30, 2*slots), ref.F(scale))
					e.Add(e, ref.F(0.5))
					e.Add(e, ref.F(1e-15))
					for i := range x {
						if ex[i] == nil {
							t.Check(x[i].Sign() == 0, "big/gap", "%s: coefficient %d is %s, want 0", what, i, x[i])
							continue
						}
						d := diff(x[i], ex[i], scale, Q)
						t.Check(new(big.Float).Abs(d).Cmp(e) <= 0, "big/value", "%s: coefficient %d is off by %s, bound %s", what, i, d.Text('g', 10), e.Text('g', 10))
					}
					for i := range in {
						a, _ := in[i].Real().Float64()
						b, _ := in[i].Imag().Float64()
						t.Check(a == real(v[i]) && b == imag(v[i]), "big/operand", "the input values are modified")
					}
					t.Eval(1)
					t.State(s.name, prec, ls, k, lvl, si)
				}
			}
		}
	}
	for lvl := 0; lvl <= P.MaxLevel(); lvl++ {
		if len(s.q) > 32 && !ru.Few(lvl, len(s.q), false) {
			continue
		}
		Q := ref.Prod(s.q[:lvl+1])
		for k := 0; ; k++ {
			v := patPoly(N, k, Q, s.q[:lvl+1], fmt.Sprint(s.name, lvl))
			if v == nil {
				break
			}
			for si, scale := range sc {
				ntt := (k+si)%2 == 0
				pt := toPt(P, v, lvl, scale, ntt)
				hh := pu.PolyHash(pt.Value)
				for ls := 0; ls <= s.maxLog(); ls++ {
					n := 1 << uint(ls)
					gap := N / (2 * n)
					c := make([]*big.Float, 2*n)
					for i := range c {
						c[i] = new(big.Float).SetPrec(ref.Prec).Quo(ref.FI(v[i*gap]), ref.F(scale))
					}
					want := ref.Slots(c, n, false)
					what := fmt.Sprintf("%s big%d poly %d level %d scale %g ntt=%v slots %d", s.name, prec, k, lvl, scale, ntt, n)
					e := tiny((sumAbs(v)+1)/scale, 1)
					for _, sigma := range []float64{0, 3.2} {
						if sigma > 0 && !inside(v, 10, Q) {
							continue
						}
						var got []*ring.Complex
						lim := new(big.Float).Copy(e)
						if sigma == 0 {
							got = ecd.Decode(pt, ls)
						} else {
							got = ecd.DecodePublic(pt, ls, sigma)
							lim.Add(lim, ref.F(2*float64(2*n)*math.Floor(2.5066282746310002*sigma+0.5)/scale*1.0001))
						}
						t.Check(len(got) == n, "big/length", "%s: %d slots", what, len(got))
						for i := range got {
							d := ref.C{Re: new(big.Float).SetPrec(ref.Prec).Set(got[i].Real()), Im: new(big.Float).SetPrec(ref.Prec).Set(got[i].Imag())}.Sub(want[i]).Abs1()
							t.Check(d.Cmp(lim) <= 0, "big/decode", "%s sigma %g: slot %d is off by %s, bound %s", what, sigma, i, d.Text('g', 10), lim.Text('g', 10))
						}
					}
					t.Eval(1)
				}
				t.Check(pu.PolyHash(pt.Value) == hh, "big/operand", "decoding modifies the plaintext")
			}
		}
	}
}

// transforms checks the exported FFTs and the sparse NTT.
func transforms(t *h.T, s spec) {
	P := s.New(t)
	rq := P.RingQ()
	m := int(rq.NthRoot)
	rot := make([]int, m/4)
	roots := make([]complex128, m+1)
	for i := range rot {
		rot[i] = ref.Pow5(i, m)
	}
	w := ref.Roots(m)
	for i := range roots {
		a, _ := w[i%m].Re.Float64()
		b, _ := w[i%m].Im.Float64()
		roots[i] = complex(a, b)
	}
	for ls := 0; ls <= s.maxLog(); ls++ {
		n := 1 << uint(ls)
		for k := 0; ; k++ {
			v := values(n, k, "fft")
			if v == nil {
				break
			}
			// forward: coefficients v_k (complex, k<n) at Y^(5^j), inverse back
			want := make([]ref.C, n)
			ww := ref.Roots(4 * n)
			for j := range want {
				want[j] = ref.NewC(0)
				for i := range v {
					want[j] = want[j].Add(ref.NewC(v[i]).Mul(ww[ref.Pow5(j, 4*n)*i%(4*n)]))
				}
			}
			tol := float64(n) * flog(n) * math.Exp2(-49) * (maxAbs(v) + 1e-300)
			for variant := 0; variant < 2; variant++ {
				if variant == 1 && n < 8 {
					continue
				}
				base := make([]complex128, len(rot)+32) // the transform may only touch the size it is given
				x := base[:max(n, 8)]
				copy(x, v)
				for i := len(x); i < len(base); i++ {
					base[i] = complex(float64(i), -1)
				}
				fwd, inv := ckks.SpecialFFTVec, ckks.SpecialiFFTVec
				if variant == 1 {
					fwd, inv = ckks.SpecialFFTUL8Vec, ckks.SpecialiFFTUL8Vec
				}
				what := fmt.Sprintf("%s FFT variant %d size %d values %d", s.name, variant, n, k)
				fwd(x, n, m, rot, roots)
				checkSlots(t, "fft", what, x[:n], want, tol)
				inv(x, n, m, rot, roots)
				back := make([]ref.C, n)
				for i := range back {
					back[i] = ref.NewC(v[i])
				}
				checkSlots(t, "ifft", what, x[:n], back, tol)
				for i := n; i < len(base); i++ {
					w := complex128(0)
					if i >= len(x) {
						w = complex(float64(i), -1)
					}
					t.Check(base[i] == w, "fft/beyond", "%s: position %d is written", what, i)
				}
				t.Eval(1)
			}
		}
		// sparse NTT
		l := 2 * n
		if s.ci() {
			l = n
		}
		for lvl := 0; lvl <= P.MaxLevel(); lvl++ {
			if len(s.q) > 32 && !ru.Few(lvl, len(s.q), false) {
				continue
			}
			for pat := 0; pat < ru.NPat; pat++ {
				for _, mont := range []bool{true, false} {
					a := ring.NewPoly(l, lvl+1)
					ru.Fill(a, s.q, pat, "sparse")
					p := ru.JunkRed(rq.N, lvl, s.q, "sp")
					want := ring.NewPoly(rq.N, lvl+1)
					for i := range a.Coeffs {
						copy(p.Coeffs[i], a.Coeffs[i])
						for j, x := range a.Coeffs[i] {
							want.Coeffs[i][j*(rq.N/l)] = x
						}
					}
					rq.NTTLvl(lvl, want, want)
					if mont {
						rq.MFormLvl(lvl, want, want)
					}
					ckks.NttAndMontgomeryLvl(lvl, ls, rq, mont, p)
					ok, msg := ru.Cong(p.Coeffs, want.Coeffs, s.q, lvl)
					t.Check(ok, "sparse-ntt", "%s slots %d level %d pattern %d montgomery=%v: %s", s.name, n, lvl, pat, mont, msg)
					t.Eval(1)
				}
			}
		}
		t.State("transform", s.name, ls)
	}
}

// histories: every sequence of operations on one encoder and two plaintexts gives at each step what a fresh
// encoder gives on the same operands.
// errors: the standard deviations of the difference of two vectors, against a direct computation.
func errors(t *h.T, s spec) {
	ecd := ckks.NewEncoder(s.New(t))
	for ls := 0; ls <= s.maxLog(); ls++ {
		n := 1 << uint(ls)
		for k := 0; ; k++ {
			d := values(n, k, "err")
			if d == nil {
				break
			}
			want, have := values(n, 3, "w"), make([]complex128, n)
			for i := range d {
				have[i] = want[i] - d[i]
				d[i] = want[i] - have[i]
			}
			for _, scale := range []float64{1, 1 << 20, 0.75} {
				std := func(v []float64) float64 {
					m, q := 0.0, 0.0
					for _, x := range v {
						m += x
					}
					m /= float64(len(v))
					for _, x := range v {
						q += (x - m) * (x - m)
					}
					return math.Sqrt(q/float64(len(v))) * scale
				}
				var f []float64
				for _, x := range d {
					f = append(f, real(x), imag(x))
				}
				tol := (maxAbs(d) + 1e-300) * scale * flog(n) * math.Exp2(-40)
				got, w := ecd.GetErrSTDSlotDomain(want, have, scale), std(f)
				t.Check(math.Abs(got-w) <= tol, "errors/slots", "%s GetErrSTDSlotDomain of %d slots, difference %d, scale %g: %g, want %g", s.name, n, k, scale, got, w)
				if s.ci() {
					continue
				}
				f = f[:0]
				z := make([]ref.C, n)
				for i := range z {
					z[i] = ref.NewC(d[i])
				}
				for _, x := range ref.Coeffs(z, false) {
					v, _ := x.Float64()
					f = append(f, v)
				}
				got, w = ecd.GetErrSTDCoeffDomain(want, have, scale), std(f)
				t.Check(math.Abs(got-w) <= tol, "errors/coeffs", "%s GetErrSTDCoeffDomain of %d slots, difference %d, scale %g: %g, want %g", s.name, n, k, scale, got, w)
				t.Eval(2)
				t.State(s.name, n, k, scale)
			}
		}
	}
}

func histories(t *h.T, s spec, first int, th bool) {
	P := s.New(t)
	N := P.N()
	L := P.MaxLevel()
	ml := s.maxLog()
	type world struct {
		e  ckks.Encoder
		pt [2]*ckks.Plaintext
	}
	half := ml / 2
	vf := values(1<<uint(ml), 3, "h")
	vh := values(1<<uint(half), 4, "h")
	fl := []float64{1.5, -2.25, 1e5}
	fix := toPt(P, patPoly(N, 1, ref.Prod(s.q), s.q, "h"), L, 1<<20, false)
	hashC := func(v []complex128) (o []uint64) {
		for _, z := range v {
			o = append(o, math.Float64bits(real(z)), math.Float64bits(imag(z)))
		}
		return
	}
	hashF := func(v []float64) (o []uint64) {
		for _, z := range v {
			o = append(o, math.Float64bits(z))
		}
		return
	}
	type op struct {
		name string
		f    func(w *world) uint64
	}
	ph := func(w *world, i int) uint64 { return pu.PolyHash(w.pt[i].Value) }
	ops := []op{
		{"encode full", func(w *world) uint64 { w.e.Encode(vf, w.pt[0], ml); return ph(w, 0) }},
		{"encode half low", func(w *world) uint64 { w.e.Encode(vh, w.pt[1], half); return ph(w, 1) }},
		{"encode short", func(w *world) uint64 { w.e.EncodeSlots(vf[:1], w.pt[0], ml); return ph(w, 0) }},
		{"encode floats", func(w *world) uint64 { w.e.Encode(fl[:1], w.pt[0], 0); return ph(w, 0) }},
		{"encode coeffs", func(w *world) uint64 { w.e.EncodeCoeffs(fl, w.pt[0]); return ph(w, 0) }},
		{"encode coeffs low", func(w *world) uint64 { w.e.EncodeCoeffs(fl[:2], w.pt[1]); return ph(w, 1) }},
		{"decode", func(w *world) uint64 { return h.Hash(hashC(w.e.Decode(w.pt[0], ml))) }},
		{"decode low", func(w *world) uint64 { return h.Hash(hashC(w.e.Decode(w.pt[1], half))) }},
		{"decode fixed", func(w *world) uint64 { return h.Hash(hashC(w.e.Decode(fix, 1))) }},
		{"decode coeffs", func(w *world) uint64 { return h.Hash(hashF(w.e.DecodeCoeffs(w.pt[0]))) }},
		{"decode coeffs low", func(w *world) uint64 { return h.Hash(hashF(w.e.DecodeCoeffs(w.pt[1]))) }},
		{"embed", func(w *world) uint64 {
			qp := P.RingQP().NewPoly()
			w.e.Embed(vh, half, 1<<25, true, qp)
			return pu.QPHash(qp)
		}},
		{"errors", func(w *world) uint64 {
			return h.Hash(math.Float64bits(w.e.GetErrSTDCoeffDomain(vh, vf[:len(vh)], 2)), math.Float64bits(w.e.GetErrSTDSlotDomain(vh, vf[:len(vh)], 2)))
		}},
		{"public", func(w *world) uint64 { w.e.DecodePublic(fix, ml, 3); w.e.DecodeCoeffsPublic(fix, 3); return 0 }},
		{"copy", func(w *world) uint64 { w.e = w.e.ShallowCopy(); return 0 }},
		{"drop flag", func(w *world) uint64 {
			P.RingQ().InvNTTLvl(L, w.pt[0].Value, w.pt[0].Value)
			w.pt[0].Value.IsNTT = false
			return 0
		}},
	}
	if first >= len(ops) {
		return
	}
	fresh := func() *world {
		w := &world{e: ckks.NewEncoder(P)}
		w.pt[0] = toPt(P, patPoly(N, 4, ref.Prod(s.q), s.q, "h0"), L, 1<<30, true)
		w.pt[1] = toPt(P, patPoly(N, 4, ref.Prod(s.q[:1]), s.q[:1], "h1"), 0, 1<<12, true)
		return w
	}
	copyPt := func(p *ckks.Plaintext) *ckks.Plaintext {
		o := ckks.NewPlaintext(P, p.Level(), p.Scale)
		o.Value = p.Value.CopyNew()
		return o
	}
	one := ckks.NewEncoder(P) // rebuilt for every comparison below when it matters
	_ = one
	memo := map[[3]uint64]uint64{}
	depth := 3
	if th {
		depth = 4
	}
	var rec func(hst []int)
	rec = func(hst []int) {
		if len(hst) < depth {
			for i := range ops {
				rec(append(hst[:len(hst):len(hst)], i))
			}
			return
		}
		w := fresh()
		for n, i := range hst {
			o := ops[i]
			if o.name == "drop flag" && !w.pt[0].Value.IsNTT {
				continue
			}
			if o.name == "copy" || o.name == "public" || o.name == "drop flag" {
				o.f(w)
				t.Trans(1)
				continue
			}
			key := [3]uint64{uint64(i), ph(w, 0), ph(w, 1)}
			want, ok := memo[key]
			if !ok {
				c := &world{e: ckks.NewEncoder(P), pt: [2]*ckks.Plaintext{copyPt(w.pt[0]), copyPt(w.pt[1])}}
				want = h.Hash(o.f(c), ph(c, 0), ph(c, 1))
				memo[key] = want
			}
			r := o.f(w)
			got := h.Hash(r, ph(w, 0), ph(w, 1))
			t.Trans(1)
			if got != want {
				var names []string
				for _, j := range hst[:n] {
					names = append(names, ops[j].name)
				}
				t.Fail("history", "%s: %q gives another result after %q", s.name, o.name, names)
			}
			t.StateHash(got)
		}
		t.Trace(1)
	}
	rec([]int{first})
}

// bigHistories is the same for the arbitrary-precision encoder.
func bigHistories(t *h.T, s spec, th bool) {
	P := s.New(t)
	N := P.N()
	L := P.MaxLevel()
	ml := s.maxLog()
	const prec = 100
	vf, vh := toBig(values(1<<uint(ml), 3, "h"), prec), toBig(values(2, 4, "h"), prec)
	fix := toPt(P, patPoly(N, 1, ref.Prod(s.q), s.q, "h"), L, 1<<20, true)
	str := func(v []*ring.Complex) (o string) {
		for _, z := range v {
			o += z.Real().Text('p', 0) + z.Imag().Text('p', 0)
		}
		return
	}
	type world struct{ e ckks.EncoderBigComplex }
	type op struct {
		name string
		f    func(w *world) interface{}
	}
	ops := []op{
		{"encode full", func(w *world) interface{} { return pu.PolyHash(w.e.EncodeNew(vf, L, 1<<40, ml).Value) }},
		{"encode sparse", func(w *world) interface{} { return pu.PolyHash(w.e.EncodeNew(vh, 0, 1<<20, 1).Value) }},
		{"decode full", func(w *world) interface{} { return str(w.e.Decode(fix, ml)) }},
		{"decode sparse", func(w *world) interface{} { return str(w.e.Decode(fix, 1)) }},
		{"public", func(w *world) interface{} { w.e.DecodePublic(fix, ml, 3); return 0 }},
		{"fft", func(w *world) interface{} {
			v := toBig(values(4, 3, "f"), prec)
			w.e.FFT(v, 4)
			a := str(v)
			w.e.InvFFT(v, 4)
			return a + str(v)
		}},
		{"copy", func(w *world) interface{} { w.e = w.e.ShallowCopy(); return 0 }},
	}
	base := ckks.NewEncoderBigComplex(P, prec)
	var want []interface{}
	for _, o := range ops {
		want = append(want, o.f(&world{ckks.NewEncoderBigComplex(P, prec)}))
	}
	depth := 3
	if th {
		depth = 4
	}
	var rec func(hst []int)
	rec = func(hst []int) {
		if len(hst) < depth {
			for i := range ops {
				rec(append(hst[:len(hst):len(hst)], i))
			}
			return
		}
		w := &world{base.ShallowCopy()}
		for n, i := range hst {
			got := ops[i].f(w)
			t.Trans(1)
			t.Check(got == want[i], "big-history", "%s: %q gives another result after %v", s.name, ops[i].name, hst[:n])
		}
		t.Trace(1)
		t.State("big", s.name, hst)
	}
	rec(nil)
}

func misuse(t *h.T, s spec) {
	P := s.New(t)
	ecd := ckks.NewEncoder(P)
	p := func(name string, f func()) {
		t.Check(h.Panics(f) != nil, "misuse/"+name, "%s does not panic", name)
		t.Eval(1)
	}
	ml := s.maxLog()
	v := make([]complex128, 1<<uint(ml)+1)
	p("too many slots", func() { ecd.EncodeNew(v[:1], 0, 1, ml+1) })
	p("negative slots", func() { ecd.EncodeNew(v[:1], 0, 1, -1) })
	p("too many values", func() { ecd.EncodeNew(v, 0, 1, ml) })
	p("more values than slots", func() { ecd.EncodeNew(v[:3], 0, 1, 1) })
	p("more floats than slots", func() { ecd.EncodeNew(make([]float64, 3), 0, 1, 1) })
	p("bad type", func() { ecd.EncodeNew([]int{1}, 0, 1, 1) })
	p("decode too many", func() { ecd.Decode(ckks.NewPlaintext(P, 0, 1), ml+1) })
	p("decode negative", func() { ecd.Decode(ckks.NewPlaintext(P, 0, 1), -1) })
	p("too many coefficients", func() { ecd.EncodeCoeffsNew(make([]float64, P.N()+1), 0, 1) })
	t.State("misuse", s.name)
}

func run(c *h.Ctx) {
	logs := []int{11, 12, 13}
	if c.Thorough {
		logs = []int{9, 10, 11, 12, 13, 14, 15}
	}
	for _, ln := range logs {
		for _, tp := range []ring.Type{ring.Standard, ring.ConjugateInvariant} {
			m := ru.Mixed(pu.M0(ln, tp), 55, 45, 46)
			s := spec{name: fmt.Sprintf("large%d/%v", ln, tp), logN: ln, q: m[:2], p: m[2:], t: tp}
			c.Case("large", s.name, func(t *h.T) { large(t, s) })
		}
	}
	for _, prec := range []uint{53, 64, 200} {
		prec := prec
		c.Case("complex", fmt.Sprint("complex/", prec), func(t *h.T) { complexOps(t, prec) })
	}
	for _, s := range specs(c.Thorough) {
		s := s
		c.Case("misuse", "misuse/"+s.name, func(t *h.T) { misuse(t, s) })
		c.Case("errors", "errors/"+s.name, func(t *h.T) { errors(t, s) })
		c.Case("transforms", "transforms/"+s.name, func(t *h.T) { transforms(t, s) })
		if s.logN <= 5 && len(s.q) <= 32 {
			c.Case("public", "public/"+s.name, func(t *h.T) { public(t, s, c.Thorough) })
		}
		for ls := 0; ls <= s.maxLog(); ls++ {
			ls := ls
			c.Case("encode", fmt.Sprintf("encode/%s/logslots=%d", s.name, ls), func(t *h.T) { encode(t, s, ls, c.Thorough) })
		}
		for l := range s.q {
			l := l
			if len(s.q) > 32 && !ru.Few(l, len(s.q), c.Thorough) {
				continue
			}
			c.Case("decode", fmt.Sprintf("decode/%s/level=%d", s.name, l), func(t *h.T) { decode(t, s, l, c.Thorough) })
			c.Case("coeffs", fmt.Sprintf("coeffs/%s/level=%d", s.name, l), func(t *h.T) { coeffs(t, s, l, c.Thorough) })
		}
		if s.logN <= 5 && len(s.q) <= 32 {
			for f := 0; f < 16; f++ {
				f := f
				c.Case("history", fmt.Sprintf("history/%s/%d", s.name, f), func(t *h.T) { histories(t, s, f, c.Thorough) })
			}
			if !s.ci() {
				for _, prec := range []int{64, 128, 256} {
					prec := prec
					c.Case("big", fmt.Sprintf("big/%s/%d", s.name, prec), func(t *h.T) { bigEncoder(t, s, prec, c.Thorough) })
				}
				c.Case("big-history", "big-history/"+s.name, func(t *h.T) { bigHistories(t, s, c.Thorough) })
			}
		}
	}
}

func main() {
	h.Main(h.Info{ID: "C14", Level: "model_checking",
		Rule:          "every encoding is compared coefficient by coefficient with the scaled canonical-embedding preimage computed at 512 bits, every decoding with the direct evaluation of the plaintext polynomial at the roots, every route, layout, level, domain and receiver state; all histories of the given depth over 16 operations on one encoder and two reused plaintexts (including shallow copies) give step by step the bits that a fresh encoder gives on the same operands",
		Bounds:        "9 (thorough 13) parameter sets (two of 100 and 34 primes at selected levels) of degree 16-128 (to 1024), sparse polynomials in degree 2048-8192 (512-32768) for every number of slots, both ring types, all numbers of slots from 1, all levels, 8 scales from 1 to 2^70, unit vectors and boundary values, arbitrary-precision encoders of 64, 128 and 256 bits; histories of depth 3 (thorough 4)",
		Assumptions:   []string{"the transforms are those decided by C03", "the centred representative of exactly (Q-1)/2 is not examined"},
		QuickDeadline: 250, ThoroughDeadline: 850}, run)
}
