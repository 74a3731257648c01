// C15: CKKS evaluation computes the circuit with exact level and scale bookkeeping.
package main

import (
	"fmt"
	"math"
	"math/big"
	"math/cmplx"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"verifharness/ck"
	"verifharness/h"
	"verifharness/pu"
	"verifharness/ref"
	"verifharness/ru"
)

// full is everything the evaluator exports.
type full interface {
	ckks.Evaluator
	MulByPow2(ct0 *ckks.Ciphertext, pow2 int, ctOut *ckks.Ciphertext)
	MulByPow2New(ct0 *ckks.Ciphertext, pow2 int) *ckks.Ciphertext
	RescaleNew(ct0 *ckks.Ciphertext, threshold float64) (*ckks.Ciphertext, error)
	RotateHoistedNoModDownNew(level int, rotations []int, c0 *ring.Poly, c2DecompQP []rlwe.PolyQP) map[int][2]rlwe.PolyQP
	PermuteNTTHoisted(level int, c0, c1 *ring.Poly, c2DecompQP []rlwe.PolyQP, k int, cOut0, cOut1 *ring.Poly)
}

func specs(th bool) (o []ck.Spec) {
	add := func(name string, logN int, t ring.Type, q, p []int, hw int, scale float64) {
		m := ru.Mixed(pu.M0(logN, t), append(append([]int{}, q...), p...)...)
		o = append(o, ck.Spec{Name: name, LogN: logN, Q: m[:len(q)], P: m[len(q):], H: hw, T: t, Scale: scale})
	}
	S, CI := ring.Standard, ring.ConjugateInvariant
	add("std", 4, S, []int{50, 40, 40, 40}, []int{51}, 8, 1<<40)
	add("std2", 4, S, []int{60, 30, 45, 30, 61}, []int{61, 60}, 4, 1<<30)
	add("ci", 4, CI, []int{50, 40, 40, 40}, []int{51}, 8, 1<<40)
	if th {
		add("std5", 5, S, []int{55, 45, 45}, []int{55}, 16, 1<<45)
		add("long", 4, S, []int{50, 35, 35, 35, 35, 35, 35, 35}, []int{50, 50, 50}, 8, 1<<35)
		add("ci5", 5, CI, []int{61, 45, 30, 45}, []int{61, 61}, 32, 1<<35)
		add("big-primes", 4, S, []int{61, 61, 61}, []int{61}, 16, 1<<60)
	}
	return
}

// many are parameters with more than 32 moduli.
func many(th bool) (o []ck.Spec) {
	add := func(name string, q, p []int) {
		m := ru.Mixed(32, append(append([]int{}, q...), p...)...)
		o = append(o, ck.Spec{Name: name, LogN: 4, Q: m[:len(q)], P: m[len(q):], H: 8, T: ring.Standard, Scale: 1 << 40})
	}
	add("q36p33", append([]int{50}, ru.Rep(40, 35)...), ru.Rep(45, 33))
	if th {
		add("q100p1", append([]int{50}, ru.Rep(40, 99)...), []int{61})
		add("q100p100", append([]int{50}, ru.Rep(40, 99)...), ru.Rep(45, 100))
	}
	return
}

type env struct {
	*ck.Env
	ev  full
	sk2 *rlwe.SecretKey
	s2  [][]uint64
	swk *rlwe.SwitchingKey
}

func newEnv(t *h.T, s ck.Spec, rots []int) *env {
	e := &env{Env: ck.NewEnv(t, s)}
	rlk := e.Kg.GenRelinearizationKey(e.Sk, 1)
	rtk := e.Kg.GenRotationKeysForRotations(rots, !s.CI(), e.Sk)
	e.ev = ckks.NewEvaluator(e.P, rlwe.EvaluationKey{Rlk: rlk, Rtks: rtk}).(full)
	e.sk2 = e.Kg.GenSecretKey()
	e.s2 = pu.Plain(e.sk2.Value.Q, e.Q)
	e.swk = e.Kg.GenSwitchingKey(e.Sk, e.sk2)
	return e
}

func vals(n, k int) []complex128 {
	v := make([]complex128, n)
	r := h.NewRng(fmt.Sprint("vals", k))
	for i := range v {
		v[i] = complex(r.Float(), r.Float())
		if k == 2 {
			v[i] = complex(float64(i%3)-1, float64(i%2))
		}
	}
	return v
}

// shape is the level, degree and scale of an operand.
type shape struct {
	l, d int
	s    float64
}

func (s shape) String() string { return fmt.Sprintf("(level %d degree %d scale %g)", s.l, s.d, s.s) }

func imin(a ...int) int {
	m := a[0]
	for _, x := range a {
		if x < m {
			m = x
		}
	}
	return m
}

func imax(a, b int) int { return a + b - imin(a, b) }

// addition checks the additions and subtractions on every pair of shapes.
func addition(t *h.T, s ck.Spec, op string, mode string, th bool) {
	e := newEnv(t, s, nil)
	scales := []float64{s.Scale, s.Scale * 4, s.Scale * 3, s.Scale * 1024}
	sub := op[:3] == "Sub"
	lazy := len(op) > 3
	var f func(a, b ckks.Operand, o *ckks.Ciphertext)
	var fn func(a, b ckks.Operand) *ckks.Ciphertext
	switch op {
	case "Add":
		f, fn = e.ev.Add, e.ev.AddNew
	case "Sub":
		f, fn = e.ev.Sub, e.ev.SubNew
	case "AddNoMod":
		f, fn = e.ev.AddNoMod, e.ev.AddNoModNew
	case "SubNoMod":
		f, fn = e.ev.SubNoMod, e.ev.SubNoModNew
	}
	for i0, sc0 := range scales {
		p0 := e.Encode(vals(e.Slots, 1), sc0)
		for i1, sc1 := range scales {
			p1 := e.Encode(vals(e.Slots, 2), sc1)
			// the supported ratios are (nearly) integers
			hi, lo := math.Max(sc0, sc1), math.Min(sc0, sc1)
			k := math.Floor(hi / lo)
			if k*lo != hi {
				continue
			}
			k0, k1 := int64(1), int64(1)
			if sc0 < sc1 {
				k0 = int64(k)
			} else {
				k1 = int64(k)
			}
			if sub {
				k1 = -k1
			}
			for l0 := 0; l0 <= e.L; l0++ {
				for l1 := 0; l1 <= e.L; l1++ {
					for d0 := 0; d0 <= 3; d0++ {
						for d1 := 0; d1 <= 3; d1++ {
							if d0+d1 == 0 {
								continue
							}
							a, b := e.Make(d0, l0, sc0, p0), e.Make(d1, l1, sc1, p1)
							D, L := imax(d0, d1), imin(l0, l1)
							var o *ckks.Ciphertext
							switch mode {
							case "new":
								o = fn(a, b)
							case "fresh":
								o = ckks.NewCiphertext(e.P, D, L, 1)
								f(a, b, o)
							case "larger":
								o = e.Dirty(4, e.L)
								f(a, b, o)
							case "lower":
								L = imax(0, L-1)
								o = e.Dirty(D, L)
								f(a, b, o)
							case "op0":
								if d0 < d1 {
									continue
								}
								o = a.(*ckks.Ciphertext)
								f(a, b, o)
							case "op1":
								if d1 < d0 {
									continue
								}
								o = b.(*ckks.Ciphertext)
								f(a, b, o)
							case "self":
								if d0 == 0 || d0 != d1 || l0 != l1 || i0 != i1 {
									continue
								}
								o = a.(*ckks.Ciphertext)
								b = a
								f(o, o, o)
								what := fmt.Sprintf("%s of %s with itself", op, shape{l0, d0, sc0})
								e.Expect(op+"/self", what, o, ck.Want{Level: l0, Degree: d0, Scale: sc0, Ph: e.Lin(l0, 1+k1, p0, 0, nil), Lazy: lazy})
								t.Eval(1)
								continue
							}
							what := fmt.Sprintf("%s %s of %s and %s", op, mode, shape{l0, d0, sc0}, shape{l1, d1, sc1})
							e.Expect(op+"/"+mode, what, o, ck.Want{Level: L, Degree: D, Scale: hi, Ph: e.Lin(L, k0, p0, k1, p1), Lazy: lazy})
							if lazy {
								r := e.ev.ReduceNew(o)
								e.Expect("Reduce", what+" then Reduce", r, ck.Want{Level: L, Degree: D, Scale: hi, Ph: e.Lin(L, k0, p0, k1, p1)})
							}
							t.Eval(1)
							t.State(op, mode, s.Name, i0, i1, l0, l1, d0, d1)
						}
					}
				}
			}
		}
	}
}

// product checks the multiplications on every pair of shapes.
func product(t *h.T, s ck.Spec, op, mode string, th bool) {
	e := newEnv(t, s, nil)
	relin := op == "MulRelin" || op == "MulRelinAndAdd"
	acc := op == "MulAndAdd" || op == "MulRelinAndAdd"
	scales := []float64{1 << 20, 3 << 18}
	for i0, sc0 := range scales {
		p0 := e.Encode(vals(e.Slots, 1), sc0)
		for i1, sc1 := range scales {
			p1 := e.Encode(vals(e.Slots, 2), sc1)
			full := e.Mul(e.L, p0, p1)
			for l0 := 0; l0 <= e.L; l0++ {
				for l1 := 0; l1 <= e.L; l1++ {
					for d0 := 0; d0 <= 1; d0++ {
						for d1 := 0; d1 <= 1; d1++ {
							if d0+d1 == 0 {
								continue
							}
							a, b := e.Make(d0, l0, sc0, p0), e.Make(d1, l1, sc1, p1)
							L, D := imin(l0, l1), d0+d1
							if relin {
								D = 1
							}
							w := ck.Want{Scale: sc0 * sc1}
							if relin && d0+d1 == 2 {
								w.Tol = e.KS(L)
							}
							what := fmt.Sprintf("%s %s of %s and %s", op, mode, shape{l0, d0, sc0}, shape{l1, d1, sc1})
							var o *ckks.Ciphertext
							run := func() {
								switch op {
								case "Mul":
									e.ev.Mul(a, b, o)
								case "MulRelin":
									e.ev.MulRelin(a, b, o)
								case "MulAndAdd":
									e.ev.MulAndAdd(a, b, o)
								case "MulRelinAndAdd":
									e.ev.MulRelinAndAdd(a, b, o)
								}
							}
							if acc && (mode == "op0" || mode == "op1") {
								// The receiver is an operand: its scale is that of the result if that of the other one is 1
								other, x, y := sc1, p0, p1
								if mode == "op1" {
									other, x, y = sc0, p1, p0
								}
								if other != scales[0] || (mode == "op0" && d0 == 0) || (mode == "op1" && d1 == 0) {
									continue
								}
								w.Scale = sc0 * sc1 / other
								if mode == "op0" {
									b = e.Make(d1, l1, 1, p1)
									o = a.(*ckks.Ciphertext)
								} else {
									a = e.Make(d0, l0, 1, p0)
									o = b.(*ckks.Ciphertext)
								}
								run()
								w.Level, w.Degree = L, imax(D, 1)
								w.Ph = e.Lin(L, 1, x, 1, e.Mul(e.L, x, y))
								e.Expect(op+"/"+mode, what, o, w)
								t.Eval(1)
								t.State(op, mode, s.Name, i0, i1, l0, l1, d0, d1)
								continue
							}
							if acc {
								for dd := 1; dd <= 2; dd++ {
									for _, ratio := range []float64{1, 4, 3, 1 << 12} {
										asc := sc0 * sc1 / ratio
										pa := e.Encode(vals(e.Slots, 3), asc)
										la := e.L
										switch mode {
										case "lower":
											la = imax(0, L-1)
										case "level":
											la = L
										}
										o = e.MakeCt(dd, la, asc, pa)
										run()
										w.Level = imin(la, L)
										w.Degree = imax(dd, D)
										w.Ph = e.Lin(w.Level, int64(ratio), pa, 1, full)
										if w.Tol != nil {
											w.Tol = e.KS(w.Level)
										}
										e.Expect(op+"/"+mode, fmt.Sprintf("%s onto degree %d scale ratio %g", what, dd, ratio), o, w)
										t.Eval(1)
									}
								}
								t.State(op, mode, s.Name, i0, i1, l0, l1, d0, d1)
								continue
							}
							switch mode {
							case "new":
								if relin {
									o = e.ev.MulRelinNew(a, b)
								} else {
									o = e.ev.MulNew(a, b)
								}
							case "fresh":
								o = ckks.NewCiphertext(e.P, D, L, 1)
								run()
							case "small":
								o = e.Dirty(1, L)
								run()
							case "larger":
								o = e.Dirty(3, e.L)
								run()
							case "lower":
								L = imax(0, L-1)
								o = e.Dirty(2, L)
								if w.Tol != nil {
									w.Tol = e.KS(L)
								}
								run()
							case "op0":
								if d0 == 0 {
									continue
								}
								o = a.(*ckks.Ciphertext)
								run()
							case "op1":
								if d1 == 0 {
									continue
								}
								o = b.(*ckks.Ciphertext)
								run()
							case "self", "square":
								if d0+d1 < 2 || l0 != l1 || i0 != i1 {
									continue
								}
								b = a
								if mode == "self" {
									o = a.(*ckks.Ciphertext)
								} else {
									o = ckks.NewCiphertext(e.P, D, L, 1)
								}
								run()
								w.Level, w.Degree, w.Ph = L, D, e.Reduce(L, e.Mul(e.L, p0, p0))
								e.Expect(op+"/"+mode, what, o, w)
								t.Eval(1)
								continue
							}
							w.Level, w.Degree, w.Ph = L, D, full
							e.Expect(op+"/"+mode, what, o, w)
							t.Eval(1)
							t.State(op, mode, s.Name, i0, i1, l0, l1, d0, d1)
						}
					}
				}
			}
		}
	}
}

// receiver gives the receivers of a unary operation on c: nil stands for the New form.
func (e *env) receiver(mode string, c *ckks.Ciphertext) (o *ckks.Ciphertext, lvl int) {
	lvl = c.Level()
	switch mode {
	case "fresh":
		o = ckks.NewCiphertext(e.P, c.Degree(), lvl, 1)
	case "higher":
		o = e.Dirty(c.Degree(), e.L)
	case "lower":
		lvl = imax(0, lvl-1)
		o = e.Dirty(c.Degree(), lvl)
	case "inplace":
		o = c
	}
	return
}

var unaryModes = []string{"new", "fresh", "higher", "lower", "inplace"}

// constants checks every operation with a constant.
func constants(t *h.T, s ck.Spec, mode string, th bool) {
	e := newEnv(t, s, nil)
	type cst struct {
		v    interface{}
		r, i float64
	}
	consts := []cst{
		{uint64(0), 0, 0}, {uint64(1), 1, 0}, {uint64(3), 3, 0}, {uint64(1) << 40, 1 << 40, 0}, {uint64(1<<63 + 1<<20), 1<<63 + 1<<20, 0},
		{int64(0), 0, 0}, {int64(5), 5, 0}, {int64(-5), -5, 0}, {int64(-1 << 45), -(1 << 45), 0}, {int(7), 7, 0}, {int(-9), -9, 0},
		{float64(0), 0, 0}, {float64(2), 2, 0}, {float64(-3), -3, 0}, {0.5, 0.5, 0}, {-1.25, -1.25, 0}, {math.Pi, math.Pi, 0}, {-1e-3, -1e-3, 0}, {1e15, 1e15, 0},
		{complex(2, 0), 2, 0}, {complex(0, 1), 0, 1}, {complex(0, -1), 0, -1}, {complex(3, -4), 3, -4}, {complex(0.5, 0), 0.5, 0}, {complex(0, 0.25), 0, 0.25},
		{complex(-0.75, 2), -0.75, 2}, {complex(1.1, -2.2), 1.1, -2.2}, {complex(0, 0), 0, 0},
		{complex(-1e-300, 0), -1e-300, 0}, {float64(-1e-300), -1e-300, 0}, {complex(0, -1e-300), 0, -1e-300},
	}
	for _, q := range s.Q {
		consts = append(consts, cst{q, float64(q), 0}, cst{q - 1, float64(q - 1), 0}, cst{int64(q), float64(q), 0}, cst{-int64(q), -float64(q), 0}, cst{int64(q) + 2, float64(q + 2), 0})
	}
	big2 := func(f float64) (n *big.Int, d float64) {
		x := new(big.Float).SetPrec(2000).SetFloat64(f)
		if f < 0 {
			x.Sub(x, big.NewFloat(0.5))
		} else {
			x.Add(x, big.NewFloat(0.5))
		}
		n, _ = x.Int(nil)
		return
	}
	isInt := func(f float64) bool { return f == math.Trunc(f) }
	for ci, c := range consts {
		if s.CI() {
			c.i = 0
		}
		for _, sc := range []float64{s.Scale, 3 << 20, 1 << 10} {
			ph := e.Encode(vals(e.Slots, 1), sc)
			norm := pu.MaxAbs(ph)
			nf, _ := new(big.Float).SetInt(norm).Float64()
			for l := 0; l <= e.L; l++ {
				for d := 1; d <= 2; d++ {
					what := fmt.Sprintf("constant %T %v, %s, %s", c.v, c.v, shape{l, d, sc}, mode)
					// multiplication
					in := e.MakeCt(d, l, sc, ph)
					o, lo := e.receiver(mode, in)
					if o == nil {
						o = e.ev.MultByConstNew(in, c.v)
					} else {
						e.ev.MultByConst(in, c.v, o)
					}
					cs := 1.0
					cr, cim := c.r, c.i
					if x, ok := c.v.(complex128); (ok && (!isInt(real(x)) || !isInt(imag(x)))) || !isInt(cr) {
						cs = float64(e.Q[lo])
					}
					wr, _ := big2(cr * cs)
					wi, _ := big2(cim * cs)
					w := ck.Want{Level: lo, Degree: d, Scale: sc * cs, Ph: e.Gauss(lo, ph, wr, wi)}
					slack := func(x float64) float64 {
						if isInt(x) && math.Abs(x) < 1<<51 {
							return 0
						}
						return 0.5000001 + math.Abs(x)*math.Exp2(-51)
					}
					w.Tol, _ = new(big.Float).SetFloat64((slack(cr*cs) + slack(cim*cs)) * nf).Int(nil)
					e.Expect("MultByConst/"+mode, what, o, w)
					t.Eval(1)
					// addition
					in = e.MakeCt(d, l, sc, ph)
					o, lo = e.receiver(mode, in)
					if o == nil {
						o = e.ev.AddConstNew(in, c.v)
					} else {
						e.ev.AddConst(in, c.v, o)
					}
					wr, _ = big2(cr * sc)
					wi, _ = big2(cim * sc)
					add := make([]*big.Int, e.N)
					for i := range add {
						add[i] = new(big.Int)
					}
					add[0] = wr
					if !s.CI() {
						add[e.N/2].Add(add[e.N/2], wi)
					}
					w = ck.Want{Level: lo, Degree: d, Scale: sc, Ph: e.Lin(lo, 1, ph, 1, add)}
					w.Tol, _ = new(big.Float).SetFloat64(math.Max(slack(cr*sc), slack(cim*sc))).Int(nil)
					e.Expect("AddConst/"+mode, what, o, w)
					t.Eval(1)
					t.State("const", s.Name, ci, sc, l, d, mode)
				}
			}
		}
	}
}

// constAcc checks the multiplications by a constant with accumulation.
func constAcc(t *h.T, s ck.Spec, th bool) {
	e := newEnv(t, s, nil)
	consts := []interface{}{uint64(3), int64(-7), int(2), float64(-4), 0.375, -1.7, complex(2, -1), complex(0.5, -0.25), complex(0, 1.5), uint64(0), int64(1)}
	at := func(v interface{}) complex128 {
		switch v := v.(type) {
		case uint64:
			return complex(float64(v), 0)
		case int64:
			return complex(float64(v), 0)
		case int:
			return complex(float64(v), 0)
		case float64:
			return complex(v, 0)
		case complex128:
			return v
		}
		panic(1)
	}
	isInt := func(f float64) bool { return f == math.Trunc(f) }
	for _, cv := range consts {
		c := at(cv)
		frac := !isInt(real(c)) || !isInt(imag(c))
		if s.CI() {
			c = complex(real(c), 0)
		}
		for l := 0; l <= e.L && !frac; l++ {
			for d := 1; d <= 2; d++ {
				p := e.Encode(vals(e.Slots, 1), 1<<20)
				o := e.MakeCt(d, l, 1<<20, p)
				e.ev.MultByConstAndAdd(o, cv, o)
				re, im := big.NewInt(int64(real(c))+1), big.NewInt(int64(imag(c)))
				e.Expect("MultByConstAndAdd/self", fmt.Sprintf("%T %v times %s onto itself", cv, cv, shape{l, d, 1 << 20}), o, ck.Want{Level: l, Degree: d, Scale: 1 << 20, Ph: e.Gauss(l, p, re, im)})
				t.Eval(1)
			}
		}
		for l0 := 0; l0 <= e.L; l0++ {
			for l1 := 0; l1 <= e.L; l1++ {
				for d0 := 1; d0 <= 2; d0++ {
					for d1 := d0; d1 <= 2; d1++ {
						L := imin(l0, l1)
						for _, sc := range []float64{1 << 20, 1 << 14} {
							for _, r := range []float64{1, 8, 5, 1.0 / 8, 1.0 / 3, 1 << 25, float64(e.Q[L]), float64(e.Q[L]) * 4, float64(e.Q[L]) / 1024} {
								acc := sc * r
								p0 := e.Encode(vals(e.Slots, 1), sc)
								p1 := e.Encode(vals(e.Slots, 2), acc)
								in, o := e.MakeCt(d0, l0, sc, p0), e.MakeCt(d1, l1, acc, p1)
								cs := 1.0
								if frac {
									cs = float64(e.Q[L])
								}
								out := math.Max(acc, sc*cs)
								if acc < sc*cs && cs == 1 && math.Floor(sc/acc)*acc != sc {
									continue // not an integer ratio
								}
								what := fmt.Sprintf("%T %v times %s onto %s", cv, cv, shape{l0, d0, sc}, shape{l1, d1, acc})
								e.ev.MultByConstAndAdd(in, cv, o)
								// out/acc * p1 + c*out/sc * p0, up to the rounding of the factors
								fa := out / acc
								ia := math.Floor(fa)
								fr, fi := real(c)*out/sc, imag(c)*out/sc
								R := func(x float64) *big.Int {
									v := new(big.Float).SetPrec(2000).SetFloat64(math.Abs(x))
									v.Add(v, big.NewFloat(0.5))
									n, _ := v.Int(nil)
									if x < 0 {
										n.Neg(n)
									}
									return n
								}
								x := e.Gauss(L, p1, R(ia), new(big.Int))
								y := e.Gauss(L, p0, R(fr), R(fi))
								n0, _ := new(big.Float).SetInt(pu.MaxAbs(p0)).Float64()
								n1, _ := new(big.Float).SetInt(pu.MaxAbs(p1)).Float64()
								sl := func(x float64) float64 {
									if isInt(x) && math.Abs(x) < 1<<51 {
										return 0
									}
									return 0.5000001 + math.Abs(x)*math.Exp2(-50)
								}
								tol := n0*(sl(fr)+sl(fi)) + n1*math.Abs(fa-ia)*2
								if math.Floor(fa*(1+math.Exp2(-50))) != ia || math.Floor(fa*(1-math.Exp2(-50))) != ia {
									tol += n1
								}
								if ia >= 1<<53 {
									tol += n1 * ia * math.Exp2(-50)
								}
								w := ck.Want{Level: L, Degree: d1, Scale: out, Ph: e.Lin(L, 1, x, 1, y)}
								w.Tol, _ = new(big.Float).SetFloat64(tol).Int(nil)
								e.Expect("MultByConstAndAdd", what, o, w)
								t.Eval(1)
							}
						}
						t.State("constAcc", s.Name, fmt.Sprint(cv), l0, l1, d0, d1)
					}
				}
			}
		}
	}
}

// gaussian checks the multiplications by Gaussian integers.
func gaussian(t *h.T, s ck.Spec, mode string, th bool) {
	e := newEnv(t, s, nil)
	type iv struct {
		v interface{}
		n *big.Int
	}
	b := func(x int64) *big.Int { return big.NewInt(x) }
	huge := new(big.Int).Lsh(b(12345), 130)
	list := []iv{{uint64(0), b(0)}, {uint64(1), b(1)}, {int64(0), b(0)}, {int64(1), b(1)}, {int64(-1), b(-1)}, {int64(1) << 60, b(1 << 60)}, {int64(-1) << 60, b(-1 << 60)},
		{math.MaxInt64, b(math.MaxInt64)}, {int64(math.MinInt64), b(math.MinInt64)}, {int64(math.MaxInt64), b(math.MaxInt64)}, {^uint64(0), new(big.Int).SetUint64(^uint64(0))},
		{b(0), b(0)}, {b(-77), b(-77)}, {huge, huge}, {new(big.Int).Neg(huge), new(big.Int).Neg(huge)}}
	for _, q := range s.Q {
		list = append(list, iv{q, new(big.Int).SetUint64(q)}, iv{int64(q), b(int64(q))}, iv{-int64(q), b(-int64(q))}, iv{int64(q) + 1, b(int64(q) + 1)}, iv{-int64(q) - 1, b(-int64(q) - 1)})
	}
	ph := e.Encode(vals(e.Slots, 1), s.Scale)
	pa := e.Encode(vals(e.Slots, 2), s.Scale)
	for i, re := range list {
		if _, ok := re.v.(int); ok {
			continue
		}
		for j, im := range list {
			if _, ok := im.v.(int); ok {
				continue
			}
			if !th && i > 5 && j > 5 && (i+j)%3 != 0 {
				continue
			}
			for l := 0; l <= e.L; l++ {
				if !th && l != e.L && (i+j+l)%2 == 0 {
					continue
				}
				d := 1 + (i+j+l)%2
				in := e.MakeCt(d, l, s.Scale, ph)
				n := im.n
				if s.CI() {
					n = new(big.Int)
				}
				what := fmt.Sprintf("(%T %v, %T %v) %s %s", re.v, re.v, im.v, im.v, shape{l, d, s.Scale}, mode)
				if mode == "acc" {
					for la := 0; la <= e.L; la++ {
						da := d + (la+j)%2 // the accumulator may have a larger degree
						o := e.MakeCt(da, la, s.Scale, pa)
						e.ev.MultByGaussianIntegerAndAdd(in, re.v, im.v, o)
						L := imin(l, la)
						e.Expect("MultByGaussianIntegerAndAdd", what, o, ck.Want{Level: L, Degree: da, Scale: s.Scale, Ph: e.Lin(L, 1, pa, 1, e.Gauss(L, ph, re.n, n))})
						t.Eval(1)
					}
					e.ev.MultByGaussianIntegerAndAdd(in, re.v, im.v, in)
					e.Expect("MultByGaussianIntegerAndAdd/self", what, in, ck.Want{Level: l, Degree: d, Scale: s.Scale, Ph: e.Lin(l, 1, ph, 1, e.Gauss(l, ph, re.n, n))})
					t.Eval(1)
					continue
				}
				o, lo := e.receiver(mode, in)
				e.ev.MultByGaussianInteger(in, re.v, im.v, o)
				e.Expect("MultByGaussianInteger/"+mode, what, o, ck.Want{Level: lo, Degree: d, Scale: s.Scale, Ph: e.Gauss(lo, ph, re.n, n)})
				t.Eval(1)
				t.State("gauss", s.Name, i, j, l, mode)
			}
		}
	}
}

// unary checks the operations without a constant.
func unary(t *h.T, s ck.Spec, mode string, th bool) {
	e := newEnv(t, s, nil)
	for _, sc := range []float64{s.Scale, 3 << 20, 1} {
		ph := e.Encode(vals(e.Slots, 1), sc)
		for l := 0; l <= e.L; l++ {
			for d := 1; d <= 3; d++ {
				do := func(name string, fnew func(c *ckks.Ciphertext) *ckks.Ciphertext, f func(c, o *ckks.Ciphertext), scale float64, w []*big.Int) {
					in := e.MakeCt(d, l, sc, ph)
					o, lo := e.receiver(mode, in)
					if o == nil {
						if fnew == nil {
							return
						}
						o = fnew(in)
					} else {
						if f == nil {
							return
						}
						f(in, o)
					}
					e.Expect(name+"/"+mode, fmt.Sprintf("%s %s %s", name, mode, shape{l, d, sc}), o, ck.Want{Level: lo, Degree: d, Scale: scale, Ph: w})
					t.Eval(1)
					t.State(name, s.Name, sc, l, d, mode)
				}
				do("Neg", e.ev.NegNew, func(c, o *ckks.Ciphertext) { e.ev.Neg(c, o) }, sc, e.Lin(e.L, -1, ph, 0, nil))
				do("Reduce", e.ev.ReduceNew, func(c, o *ckks.Ciphertext) {
					err := e.ev.Reduce(c, o)
					t.Check(err == nil, "Reduce/error", "%v", err)
				}, sc, ph)
				if !s.CI() {
					i := big.NewInt(1)
					do("MultByi", e.ev.MultByiNew, e.ev.MultByi, sc, e.Gauss(e.L, ph, new(big.Int), i))
					do("DivByi", e.ev.DivByiNew, e.ev.DivByi, sc, e.Gauss(e.L, ph, new(big.Int), big.NewInt(-1)))
				}
				for _, k := range []int{0, 1, 7, 40, 63, 64} {
					k := k
					do(fmt.Sprint("MulByPow2 ", k), func(c *ckks.Ciphertext) *ckks.Ciphertext { return e.ev.MulByPow2New(c, k) }, func(c, o *ckks.Ciphertext) { e.ev.MulByPow2(c, k, o) }, sc, e.Gauss(e.L, ph, new(big.Int).Lsh(big.NewInt(1), uint(k)), new(big.Int)))
				}
				for _, k := range []float64{1, 2, 1 << 20, 12345, 1 << 50} {
					k := k
					do(fmt.Sprint("ScaleUp ", k), func(c *ckks.Ciphertext) *ckks.Ciphertext { return e.ev.ScaleUpNew(c, k) }, func(c, o *ckks.Ciphertext) { e.ev.ScaleUp(c, k, o) }, sc*k, e.Lin(e.L, int64(k), ph, 0, nil))
				}
				if mode == "new" {
					for k := 0; k <= l; k++ {
						in := e.MakeCt(d, l, sc, ph)
						o := e.ev.DropLevelNew(in, k)
						w := ck.Want{Level: l - k, Degree: d, Scale: sc, Ph: ph}
						e.Expect("DropLevel/new", fmt.Sprintf("DropLevelNew by %d of %s", k, shape{l, d, sc}), o, w)
						e.ev.DropLevel(in, k)
						e.Expect("DropLevel/inplace", fmt.Sprintf("DropLevel by %d of %s", k, shape{l, d, sc}), in, w)
						t.Eval(1)
					}
				}
			}
		}
	}
}

// rescale checks Rescale and SetScale.
func rescale(t *h.T, s ck.Spec, mode string, th bool) {
	e := newEnv(t, s, nil)
	half := func(d int) *big.Int { // rounding of one half per part, with the effect of the later steps
		x := new(big.Int)
		for k := 0; k <= d; k++ {
			x.Add(x, e.SP[k])
		}
		x.Mul(x, big.NewInt(51))
		x.Div(x, big.NewInt(100))
		return x.Add(x, big.NewInt(1))
	}
	for l := 0; l <= e.L; l++ {
		for d := 1; d <= 2; d++ {
			for _, lsc := range []float64{1, 10, 20, 29.9, 30, 39, 40, 41, 50, 60, 75, 80, 85, 119, 120, 125, 160, 200, 300} {
				sc := math.Exp2(lsc)
				ph := e.Encode(vals(e.Slots, 1), sc)
				for _, lmin := range []float64{0, 1, 20, 29, 30, 38.9, 39.1, 40, 41.1, 80, 400, -20} {
					min := math.Exp2(lmin)
					in := e.MakeCt(d, l, sc, ph)
					was := in.CopyNew()
					var o *ckks.Ciphertext
					var err error
					switch mode {
					case "new":
						o, err = e.ev.RescaleNew(in, min)
					case "fresh":
						o = e.Dirty(d, l)
						err = e.ev.Rescale(in, min, o)
					case "inplace":
						o = in
						err = e.ev.Rescale(in, min, o)
					}
					what := fmt.Sprintf("%s minimum %g %s", shape{l, d, sc}, min, mode)
					if l == 0 {
						t.Check(err != nil, "Rescale/level0", "%s: no error at level 0", what)
						if mode == "inplace" {
							e.Expect("Rescale/error", what, o, ck.Want{Level: 0, Degree: d, Scale: sc, Ph: ph})
						}
						t.Eval(1)
						continue
					}
					t.Check(err == nil, "Rescale/error", "%s: %v", what, err)
					lo, so := l, sc
					for lo > 0 && so/float64(e.Q[lo]) >= min/2 {
						so /= float64(e.Q[lo])
						lo--
					}
					e.roundDiv(t, was, o, lo, d, so, half(d), ph, l, "Rescale/"+mode, what)
					t.Eval(1)
					t.State("rescale", s.Name, l, d, lsc, lmin, mode)
				}
				if mode != "inplace" {
					continue
				}
				// SetScale
				if l == 0 {
					continue
				}
				for _, r := range []float64{1, 2, 3, 1 << 10, 0.5, 1.0 / 3, 1.5, 2.5, 1000.3, math.Exp2(-10), math.Exp2(-30), 0.9999, 1.0001} {
					if sc*r < 1 || sc*r*float64(e.Q[l]) > math.Exp2(1000) {
						continue
					}
					in := e.MakeCt(d, l, sc, ph)
					e.ev.SetScale(in, sc*r)
					integer := r == math.Trunc(r) && (sc*r)/sc == r
					what := fmt.Sprintf("SetScale by %g of %s", r, shape{l, d, sc})
					// the number of divisions follows the rule of Rescale
					cs := 1.0
					if !integer {
						cs = float64(e.Q[l])
					}
					lo, so := l, sc*cs*r
					for lo > 0 && so/float64(e.Q[lo]) >= sc*r/2 {
						so /= float64(e.Q[lo])
						lo--
					}
					// value: r*phase, up to the rounding of r*q, and the division
					den := new(big.Int).Div(e.QL[l], e.QL[lo])
					if integer {
						t.Check(lo == l, "SetScale/rule", "%s", what)
					}
					t.Check(in.Level() == lo, "SetScale/level", "%s: level %d, want %d", what, in.Level(), lo)
					t.Check(in.Scale == sc*r, "SetScale/scale", "%s: scale %g", what, in.Scale)
					// check den*phase_out = r*cs*phase modulo the level, loosely
					got := e.Phase(in)
					nf, _ := new(big.Float).SetInt(pu.MaxAbs(ph)).Float64()
					df, _ := new(big.Float).SetInt(den).Float64()
					hf, _ := new(big.Float).SetInt(half(d)).Float64()
					k := r * cs / df
					tol := 1 + hf + nf*(0.51+math.Abs(r*cs)*math.Exp2(-50))/df
					if integer {
						tol = 0
					}
					qf, _ := new(big.Float).SetInt(e.QL[lo]).Float64()
					if nf*k*4 > qf {
						continue
					}
					for i := range got {
						w := new(big.Float).SetPrec(500).SetInt(ph[i])
						w.Mul(w, big.NewFloat(r))
						if lo == l-1 && !integer {
							w.Mul(w, big.NewFloat(1)) // cs cancels the divided prime
						} else {
							w.Mul(w, new(big.Float).Quo(big.NewFloat(cs), new(big.Float).SetInt(den)))
						}
						w.Sub(w, new(big.Float).SetPrec(500).SetInt(got[i]))
						f, _ := w.Float64()
						t.Check(math.Abs(f) <= tol, "SetScale/value", "%s: coefficient %d is off by %g, bound %g", what, i, f, tol)
					}
					t.Eval(1)
				}
			}
		}
	}
	if mode != "fresh" {
		return
	}
	in := e.MakeCt(1, 1, s.Scale, e.Encode(vals(e.Slots, 1), s.Scale))
	bad := func(name string, c *ckks.Ciphertext, min float64, o *ckks.Ciphertext) {
		t.Check(e.ev.Rescale(c, min, o) != nil, "Rescale/reject", "%s: no error", name)
	}
	bad("zero minimum", in, 0, ckks.NewCiphertext(e.P, 1, 1, 1))
	bad("negative minimum", in, -1, ckks.NewCiphertext(e.P, 1, 1, 1))
	bad("another degree", in, 1, ckks.NewCiphertext(e.P, 2, 1, 1))
	bad("a lower receiver", in, 1, ckks.NewCiphertext(e.P, 1, 0, 1))
	bad("a higher receiver", in, 1, ckks.NewCiphertext(e.P, 1, 2, 1))
	z := in.CopyNew()
	z.Scale = 0
	bad("scale 0", z, 1, ckks.NewCiphertext(e.P, 1, 1, 1))
}

// roundDiv checks that every part is the rounded quotient of the input, and the phase.
func (e *env) roundDiv(t *h.T, in, o *ckks.Ciphertext, lo, d int, so float64, tol *big.Int, ph []*big.Int, l int, sig, what string) {
	w := ck.Want{Level: lo, Degree: d, Scale: so}
	den := new(big.Int).Div(e.QL[l], e.QL[lo])
	w.Ph = make([]*big.Int, e.N)
	cen := e.Reduce(l, ph)
	for i := range w.Ph {
		w.Ph[i] = ref.RoundDiv(cen[i], den)
	}
	if lo < l {
		w.Tol = new(big.Int).Add(tol, big.NewInt(1))
	}
	e.Expect(sig, what, o, w)
	if lo == l {
		return
	}
	for k := range o.Value {
		x := pu.Ints(e.RQ, in.Value[k], true, l)
		y := pu.Ints(e.RQ, o.Value[k], true, lo)
		lim := new(big.Int).Mul(den, big.NewInt(501))
		lim.Div(lim, big.NewInt(1000))
		for i := range x {
			df := new(big.Int).Mul(y[i], den)
			df.Sub(df, x[i])
			df.Mod(df, e.QL[l])
			v := []*big.Int{df}
			ref.Center(v, e.QL[l])
			t.Check(v[0].CmpAbs(lim) <= 0, sig+"/rounding", "%s: part %d coefficient %d is not the nearest quotient (off by %s of %s)", what, k, i, v[0], den)
		}
	}
}

func rot(v []complex128, k int) []complex128 {
	n := len(v)
	o := make([]complex128, n)
	for i := range o {
		o[i] = v[(((i+k)%n)+n)%n]
	}
	return o
}

// switching checks rotations, conjugation, key switching and relinearisation.
func switching(t *h.T, s ck.Spec, mode string, th bool) {
	var rots []int
	n := 1 << uint(s.MaxLog())
	for k := -n - 1; k <= n+1; k++ {
		rots = append(rots, k)
	}
	rots = append(rots, 3*n+2, -5*n-1)
	e := newEnv(t, s, rots)
	v := vals(e.Slots, 1)
	if s.CI() {
		for i := range v {
			v[i] = complex(real(v[i]), 0)
		}
	}
	for _, sc := range []float64{1 << 30, 1 << 25} {
		ph := e.Encode(v, sc)
		// the permutation of the slots that goes with each element is that of the statement
		for _, k := range rots {
			want := rot(v, k)
			for i, x := range e.Decode(e.Galois(ph, e.GaloisFor(k)), sc) {
				t.Check(cmplx.Abs(x-want[i]) < 1e-4, "harness", "rotation model")
			}
		}
		for l := 0; l <= e.L; l++ {
			do := func(name string, d int, fnew func(c *ckks.Ciphertext) *ckks.Ciphertext, f func(c, o *ckks.Ciphertext), w []*big.Int, under [][]uint64, exact bool) {
				in := e.MakeCt(d, l, sc, ph)
				o, lo := e.receiver(mode, in)
				if o == nil {
					o = fnew(in)
				} else {
					f(in, o)
				}
				wt := ck.Want{Level: lo, Degree: 1, Scale: sc, Ph: w}
				if !exact {
					wt.Tol = e.KS(lo)
				}
				what := fmt.Sprintf("%s %s %s", name, mode, shape{l, d, sc})
				if under != nil {
					old := e.S
					e.S = under
					defer func() { e.S = old }()
				}
				e.Expect(name+"/"+mode, what, o, wt)
				t.Eval(1)
				t.State(name, s.Name, sc, l, d, mode)
			}
			for _, k := range rots {
				k := k
				do(fmt.Sprintf("Rotate by %d", k), 1, func(c *ckks.Ciphertext) *ckks.Ciphertext { return e.ev.RotateNew(c, k) }, func(c, o *ckks.Ciphertext) { e.ev.Rotate(c, k, o) }, e.Galois(ph, e.GaloisFor(k)), nil, k == 0)
			}
			if !s.CI() {
				do("Conjugate", 1, e.ev.ConjugateNew, e.ev.Conjugate, e.Galois(ph, uint64(2*e.N-1)), nil, false)
			}
			do("SwitchKeys", 1, func(c *ckks.Ciphertext) *ckks.Ciphertext { return e.ev.SwitchKeysNew(c, e.swk) }, func(c, o *ckks.Ciphertext) { e.ev.SwitchKeys(c, e.swk, o) }, ph, e.s2, false)
			do("Relinearize", 2, e.ev.RelinearizeNew, e.ev.Relinearize, ph, nil, false)
			if mode == "new" {
				e.hoisted(t, l, sc, ph, rots)
			}
			if mode == "fresh" {
				in := e.MakeCt(2, l, sc, ph)
				o := e.Dirty(1, e.L)
				e.ev.Relinearize(in, o)
				e.Expect("Relinearize/smaller", fmt.Sprintf("Relinearize to degree 1 %s", shape{l, 2, sc}), o, ck.Want{Level: l, Degree: 1, Scale: sc, Ph: ph, Tol: e.KS(l)})
			}
		}
	}
}

func (e *env) hoisted(t *h.T, l int, sc float64, ph []*big.Int, rots []int) {
	in := e.MakeCt(1, l, sc, ph)
	ks := e.ev.GetKeySwitcher()
	np := len(e.P.P())
	dec := make([]rlwe.PolyQP, (e.L+np)/np)
	for i := range dec {
		dec[i] = e.P.RingQP().NewPoly()
	}
	ks.DecomposeNTT(l, np-1, np, in.Value[1], dec)
	pm := ref.Prod(e.P.P())
	outs := e.ev.RotateHoistedNoModDownNew(l, rots, in.Value[0], dec)
	sp := pu.Plain(e.Sk.Value.P, e.P.P())
	mods := append(append([]uint64{}, e.Q[:l+1]...), e.P.P()...)
	for _, k := range rots {
		want := e.Galois(ph, e.GaloisFor(k))
		o := e.Dirty(1, l)
		o.Scale = sc
		e.ev.PermuteNTTHoisted(l, in.Value[0], in.Value[1], dec, k, o.Value[0], o.Value[1])
		w := ck.Want{Level: l, Degree: 1, Scale: sc, Ph: want, Tol: e.KS(l)}
		e.Expect("PermuteNTTHoisted", fmt.Sprintf("hoisted rotation by %d at level %d", k, l), o, w)
		t.Eval(1)
		if k == 0 {
			continue
		}
		x, ok := outs[k]
		t.Check(ok, "RotateHoistedNoModDownNew/set", "no result for %d", k)
		vq := pu.PhaseNTT(e.RQ, []*ring.Poly{x[0].Q, x[1].Q}, true, l, e.S)
		vp := pu.PhaseNTT(e.P.RingP(), []*ring.Poly{x[0].P, x[1].P}, true, np-1, sp)
		all := append(coef(e.RQ, vq), coef(e.P.RingP(), vp)...)
		got := ref.CRTCentered(all, mods)
		lim := new(big.Int).Mul(e.KS(l), pm)
		for i := range got {
			d := new(big.Int).Sub(got[i], new(big.Int).Mul(want[i], pm))
			d.Mod(d, ref.Prod(mods))
			y := []*big.Int{d}
			ref.Center(y, ref.Prod(mods))
			t.Check(y[0].CmpAbs(lim) <= 0, "RotateHoistedNoModDownNew/value", "hoisted rotation by %d at level %d: coefficient %d is off by %s, bound %s", k, l, i, y[0], lim)
		}
		t.Eval(1)
	}
}

func coef(r *ring.Ring, v [][]uint64) [][]uint64 {
	p := ring.NewPoly(r.N, len(v))
	for i := range v {
		copy(p.Coeffs[i], v[i])
	}
	r.InvNTTLvl(len(v)-1, p, p)
	return p.Coeffs
}

func misuse(t *h.T, s ck.Spec) {
	e := newEnv(t, s, []int{1})
	ph := e.Encode(vals(e.Slots, 1), s.Scale)
	p := func(name string, f func()) {
		t.Check(h.Panics(f) != nil, "misuse/"+name, "%s does not panic", name)
		t.Eval(1)
	}
	ct := func(d int) *ckks.Ciphertext { return e.MakeCt(d, e.L, s.Scale, ph) }
	pt := func() ckks.Operand { return e.Make(0, e.L, s.Scale, ph) }
	p("two plaintexts", func() { e.ev.Add(pt(), pt(), ct(1)) })
	p("small receiver", func() { e.ev.Add(ct(2), ct(1), ct(1)) })
	for i := 0; i < 3; i++ {
		i := i
		bad := func(d int) *ckks.Ciphertext {
			c := ct(d)
			c.Value[i%(d+1)].IsNTT = false
			return c
		}
		p("operand outside of the NTT domain", func() { e.ev.Add(bad(2), ct(1), ct(2)) })
		p("operand outside of the NTT domain", func() { e.ev.Sub(ct(1), bad(2), ct(2)) })
		p("operand outside of the NTT domain", func() { e.ev.Mul(bad(1), ct(1), ct(2)) })
		p("operand outside of the NTT domain", func() { e.ev.MulRelin(ct(1), bad(1), ct(2)) })
		p("operand outside of the NTT domain", func() { e.ev.MulAndAdd(ct(1), bad(1), ct(2)) })
	}
	p("product of degree 2", func() { e.ev.Mul(ct(2), ct(1), ct(3)) })
	p("product of degree 2", func() { e.ev.MulRelin(ct(1), ct(2), ct(3)) })
	p("product of degree 2", func() { e.ev.MulAndAdd(ct(2), ct(1), ct(3)) })
	p("negation to another degree", func() { e.ev.Neg(ct(1), ct(2)) })
	p("missing rotation key", func() { e.ev.RotateNew(ct(1), 2) })
	p("rotation of degree 2", func() { e.ev.RotateNew(ct(2), 1) })
	p("rotation to degree 2", func() { e.ev.Rotate(ct(1), 1, ct(2)) })
	p("key switch of degree 2", func() { e.ev.SwitchKeysNew(ct(2), e.swk) })
	p("relinearisation of degree 1", func() { e.ev.RelinearizeNew(ct(1)) })
	p("Gaussian integer of another type", func() { e.ev.MultByGaussianInteger(ct(1), 1.5, 2.5, ct(1)) })
	t.Check(e.ev.Reduce(ct(1), ct(2)) != nil, "misuse/reduce", "Reduce to another degree gives no error")
	if s.CI() {
		p("conjugation", func() { e.ev.ConjugateNew(ct(1)) })
		p("conjugation", func() { e.ev.Conjugate(ct(1), ct(1)) })
		p("multiplication by i", func() { e.ev.MultByiNew(ct(1)) })
		p("multiplication by i", func() { e.ev.MultByi(ct(1), ct(1)) })
		p("division by i", func() { e.ev.DivByiNew(ct(1)) })
		p("division by i", func() { e.ev.DivByi(ct(1), ct(1)) })
	} else {
		p("conjugation of degree 2", func() { e.ev.ConjugateNew(ct(2)) })
	}
	none := ckks.NewEvaluator(e.P, rlwe.EvaluationKey{})
	p("no relinearisation key", func() { none.MulRelinNew(ct(1), ct(1)) })
	p("no rotation keys", func() { none.RotateNew(ct(1), 1) })
	t.State("misuse", s.Name)
}

// val is a ciphertext of a program: its phase, its slots and the bound of their error.
type val struct {
	c  *ckks.Ciphertext
	ph []*big.Int
	v  []complex128
	e  float64
	ok bool // the message cannot have wrapped around
}

type pop struct {
	name string
	f    func(a *val) *val // nil when it does not apply
}

// programs runs every sequence of operations up to a depth on an accumulator.
func programs(t *h.T, s ck.Spec, first int, th bool) {
	e := newEnv(t, s, []int{1, -2})
	L := e.L
	mk := func(d, l int, sc float64, k int) *val {
		v := vals(e.Slots, k)
		if s.CI() {
			for i := range v {
				v[i] = complex(real(v[i]), 0)
			}
		}
		ph := e.Encode(v, sc)
		return &val{e.MakeCt(imax(d, 1), l, sc, ph), ph, v, float64(2*e.N) / sc, true}
	}
	maxv := func(v []complex128) (m float64) {
		for _, x := range v {
			m = math.Max(m, cmplx.Abs(x))
		}
		return
	}
	B := mk(1, L-1, s.Scale, 3)
	C := mk(1, L, s.Scale*4, 2)
	ptv := mk(0, L, s.Scale, 5)
	pt := e.Make(0, L, s.Scale, ptv.ph)
	keep := []*val{B, C}
	// step finishes an operation: checks against the phase, then against the slots
	step := func(name string, a *val, c *ckks.Ciphertext, w ck.Want, v []complex128, err float64) *val {
		got := e.Expect("program/"+name, name, c, w)
		r := &val{c, got, v, err, a.ok}
		if w.Tol != nil {
			r.e += e.SlotErr(w.Tol, c.Scale)
		}
		r.e += maxv(v) * math.Exp2(-45)
		q, _ := new(big.Float).SetInt(e.QL[c.Level()]).Float64()
		if (maxv(v)+r.e)*c.Scale*4 > q {
			r.ok = false
		}
		if r.ok {
			for i, x := range e.Decode(got, c.Scale) {
				t.Check(cmplx.Abs(x-v[i]) <= r.e, "program/slots", "after %s (level %d degree %d scale %g): slot %d is %v, want %v, bound %g", name, c.Level(), c.Degree(), c.Scale, i, x, v[i], r.e)
			}
		}
		t.Trans(1)
		return r
	}
	zip := func(a, b []complex128, f func(x, y complex128) complex128) []complex128 {
		o := make([]complex128, len(a))
		for i := range a {
			o[i] = f(a[i], b[i])
		}
		return o
	}
	one := func(a []complex128, f func(x complex128) complex128) []complex128 {
		return zip(a, a, func(x, _ complex128) complex128 { return f(x) })
	}
	addsub := func(name string, b *val, deg0 bool, sign int64, inplace bool, swap bool) pop {
		return pop{name, func(a *val) *val {
			var op ckks.Operand = b.c
			db := b.c.Degree()
			if deg0 {
				op, db = pt, 0
			}
			sa, sb := a.c.Scale, b.c.Scale
			hi, lo := math.Max(sa, sb), math.Min(sa, sb)
			k := math.Floor(hi / lo)
			mis := math.Abs(hi/(k*lo) - 1)
			if mis > 0.01 {
				return nil // unrelated scales
			}
			ka, kb := int64(1), sign
			if swap {
				ka, kb = sign, 1
			}
			if k > 1<<40 {
				return nil
			}
			m := maxv(b.v)
			if sa < sb {
				ka *= int64(k)
				m = maxv(a.v)
			} else {
				kb *= int64(k)
			}
			l := imin(a.c.Level(), op.Level())
			w := ck.Want{Level: l, Degree: imax(a.c.Degree(), db), Scale: hi, Ph: e.Lin(l, ka, a.ph, kb, b.ph)}
			var o *ckks.Ciphertext
			f, g := e.ev.Add, e.ev.AddNew
			if sign < 0 {
				f, g = e.ev.Sub, e.ev.SubNew
			}
			switch {
			case inplace:
				o = a.c.CopyNew()
				f(o, op, o)
			case swap:
				o = g(op, a.c)
			default:
				o = g(a.c, op)
			}
			sg := complex(float64(sign), 0)
			v := zip(a.v, b.v, func(x, y complex128) complex128 {
				if swap {
					return y + sg*x
				}
				return x + sg*y
			})
			return step(name, a, o, w, v, a.e+b.e+mis*m)
		}}
	}
	mul := func(name string, b *val, deg0, relin bool) pop {
		return pop{name, func(a *val) *val {
			if a.c.Degree() > 1 {
				return nil
			}
			var op ckks.Operand = b.c
			if deg0 {
				op = pt
			}
			l := imin(a.c.Level(), op.Level())
			w := ck.Want{Level: l, Degree: 2, Scale: a.c.Scale * b.c.Scale, Ph: e.Mul(l, a.ph, b.ph)}
			if deg0 || relin {
				w.Degree = 1
			}
			if relin && !deg0 {
				w.Tol = e.KS(l)
			}
			if w.Scale > math.Exp2(400) {
				return nil
			}
			var o *ckks.Ciphertext
			if relin {
				o = a.c.CopyNew()
				e.ev.MulRelin(op, o, o)
			} else {
				o = e.ev.MulNew(a.c, op)
			}
			return step(name, a, o, w, zip(a.v, b.v, func(x, y complex128) complex128 { return x * y }), a.e*maxv(b.v)+b.e*maxv(a.v)+a.e*b.e)
		}}
	}
	cst := func(c complex128) pop {
		if s.CI() {
			c = complex(real(c), 0)
		}
		name := fmt.Sprintf("MultByConst %v", c)
		return pop{name, func(a *val) *val {
			l := a.c.Level()
			cs := 1.0
			if real(c) != math.Trunc(real(c)) || imag(c) != math.Trunc(imag(c)) {
				cs = float64(e.Q[l])
			}
			if a.c.Scale*cs > math.Exp2(400) {
				return nil
			}
			rd := func(x float64) *big.Int { n, _ := new(big.Float).SetFloat64(math.Round(x)).Int(nil); return n }
			nf, _ := new(big.Float).SetInt(pu.MaxAbs(a.ph)).Float64()
			w := ck.Want{Level: l, Degree: a.c.Degree(), Scale: a.c.Scale * cs, Ph: e.Gauss(l, a.ph, rd(real(c)*cs), rd(imag(c)*cs))}
			if cs > 1 {
				w.Tol, _ = new(big.Float).SetFloat64(nf * (1.01 + cmplx.Abs(c)*cs*math.Exp2(-50))).Int(nil)
			}
			o := e.ev.MultByConstNew(a.c, c)
			return step(name, a, o, w, one(a.v, func(x complex128) complex128 { return x * c }), a.e*cmplx.Abs(c))
		}}
	}
	gal := func(name string, g uint64, f func(c *ckks.Ciphertext) *ckks.Ciphertext, p func(v []complex128) []complex128) pop {
		return pop{name, func(a *val) *val {
			if a.c.Degree() != 1 {
				return nil
			}
			l := a.c.Level()
			return step(name, a, f(a.c), ck.Want{Level: l, Degree: 1, Scale: a.c.Scale, Ph: e.Galois(a.ph, g), Tol: e.KS(l)}, p(a.v), a.e)
		}}
	}
	ops := []pop{
		addsub("add lower ciphertext", B, false, 1, false, false),
		addsub("sub larger scale", C, false, -1, true, false),
		addsub("sub from larger scale", C, false, -1, false, true),
		addsub("add plaintext", ptv, true, 1, true, false),
		addsub("sub from plaintext", ptv, true, -1, false, true),
		mul("mul", B, false, false),
		mul("mulrelin in place", C, false, true),
		mul("mul plaintext", ptv, true, false),
		{"square", func(a *val) *val {
			if a.c.Degree() > 1 || a.c.Scale > math.Exp2(200) {
				return nil
			}
			l := a.c.Level()
			return step("square", a, e.ev.MulRelinNew(a.c, a.c), ck.Want{Level: l, Degree: 1, Scale: a.c.Scale * a.c.Scale, Ph: e.Mul(l, a.ph, a.ph), Tol: e.KS(l)}, one(a.v, func(x complex128) complex128 { return x * x }), 2*a.e*maxv(a.v)+a.e*a.e)
		}},
		{"muladd", func(a *val) *val {
			sc := B.c.Scale * C.c.Scale
			k := math.Round(sc / a.c.Scale)
			if k < 1 || k > 1<<50 || a.c.Scale > sc {
				return nil
			}
			mis := math.Abs(sc/(k*a.c.Scale) - 1)
			if mis > 0.01 {
				return nil
			}
			l := imin(a.c.Level(), B.c.Level())
			o := a.c.CopyNew()
			e.ev.MulRelinAndAdd(B.c, C.c, o)
			w := ck.Want{Level: l, Degree: a.c.Degree(), Scale: sc, Ph: e.Lin(l, int64(k), a.ph, 1, e.Mul(l, B.ph, C.ph)), Tol: e.KS(l)}
			v := make([]complex128, e.Slots)
			for i := range v {
				v[i] = a.v[i] + B.v[i]*C.v[i]
			}
			return step("muladd", a, o, w, v, a.e+mis*maxv(a.v)+B.e*maxv(C.v)+C.e*maxv(B.v)+B.e*C.e)
		}},
		cst(complex(-0.5, 0.25)),
		cst(complex(3, 0)),
		{"addconst", func(a *val) *val {
			c := complex(1.5, -2)
			if s.CI() {
				c = 1.5
			}
			l := a.c.Level()
			add := make([]*big.Int, e.N)
			for i := range add {
				add[i] = new(big.Int)
			}
			x, _ := new(big.Float).SetFloat64(math.Round(1.5 * a.c.Scale)).Int(nil)
			add[0] = x
			if !s.CI() {
				y, _ := new(big.Float).SetFloat64(math.Round(2 * a.c.Scale)).Int(nil)
				add[e.N/2] = y.Neg(y)
			}
			w := ck.Want{Level: l, Degree: a.c.Degree(), Scale: a.c.Scale, Ph: e.Lin(l, 1, a.ph, 1, add)}
			w.Tol, _ = new(big.Float).SetFloat64(1 + a.c.Scale*math.Exp2(-50)).Int(nil)
			return step("addconst", a, e.ev.AddConstNew(a.c, c), w, one(a.v, func(x complex128) complex128 { return x + c }), a.e)
		}},
		{"neg", func(a *val) *val {
			o := a.c.CopyNew()
			e.ev.Neg(o, o)
			return step("neg", a, o, ck.Want{Level: a.c.Level(), Degree: a.c.Degree(), Scale: a.c.Scale, Ph: e.Lin(a.c.Level(), -1, a.ph, 0, nil)}, one(a.v, func(x complex128) complex128 { return -x }), a.e)
		}},
		{"rescale", func(a *val) *val {
			if a.c.Level() == 0 {
				return nil
			}
			lo, so := a.c.Level(), a.c.Scale
			for lo > 0 && so/float64(e.Q[lo]) >= s.Scale/2 {
				so /= float64(e.Q[lo])
				lo--
			}
			o := a.c.CopyNew()
			if err := e.ev.Rescale(o, s.Scale, o); err != nil {
				t.Fail("program/rescale", "%v", err)
			}
			w := ck.Want{Level: lo, Degree: a.c.Degree(), Scale: so, Ph: make([]*big.Int, e.N), Tol: new(big.Int)}
			den := new(big.Int).Div(e.QL[a.c.Level()], e.QL[lo])
			for i := range w.Ph {
				w.Ph[i] = ref.RoundDiv(a.ph[i], den)
			}
			if lo < a.c.Level() {
				w.Tol.SetInt64(2)
				for k := 0; k <= a.c.Degree(); k++ {
					w.Tol.Add(w.Tol, e.SP[k])
				}
			}
			return step("rescale", a, o, w, a.v, a.e)
		}},
		{"drop", func(a *val) *val {
			if a.c.Level() == 0 {
				return nil
			}
			l := a.c.Level() - 1
			return step("drop", a, e.ev.DropLevelNew(a.c, 1), ck.Want{Level: l, Degree: a.c.Degree(), Scale: a.c.Scale, Ph: a.ph}, a.v, a.e)
		}},
		gal("rotate", e.GaloisFor(1), func(c *ckks.Ciphertext) *ckks.Ciphertext { return e.ev.RotateNew(c, 1) }, func(v []complex128) []complex128 { return rot(v, 1) }),
		gal("rotate back in place", e.GaloisFor(-2), func(c *ckks.Ciphertext) *ckks.Ciphertext {
			o := c.CopyNew()
			e.ev.Rotate(o, -2, o)
			return o
		}, func(v []complex128) []complex128 { return rot(v, -2) }),
		{"relin", func(a *val) *val {
			if a.c.Degree() != 2 {
				return nil
			}
			l := a.c.Level()
			return step("relin", a, e.ev.RelinearizeNew(a.c), ck.Want{Level: l, Degree: 1, Scale: a.c.Scale, Ph: a.ph, Tol: e.KS(l)}, a.v, a.e)
		}},
		{"scaleup", func(a *val) *val {
			if a.c.Scale > math.Exp2(300) {
				return nil
			}
			return step("scaleup", a, e.ev.ScaleUpNew(a.c, 1<<20), ck.Want{Level: a.c.Level(), Degree: a.c.Degree(), Scale: a.c.Scale * (1 << 20), Ph: e.Lin(a.c.Level(), 1<<20, a.ph, 0, nil)}, a.v, a.e)
		}},
		{"setscale", func(a *val) *val {
			if a.c.Level() == 0 || a.c.Scale > math.Exp2(150) || !a.ok {
				return nil
			}
			o := a.c.CopyNew()
			target := s.Scale * 1.5
			r := target / a.c.Scale
			e.ev.SetScale(o, target)
			t.Check(o.Scale == target, "program/setscale", "the scale is %g", o.Scale)
			lo := o.Level()
			want := make([]*big.Int, e.N)
			for i := range want {
				x := new(big.Float).SetPrec(400).SetInt(a.ph[i])
				x.Mul(x, big.NewFloat(r))
				want[i], _ = x.Int(nil)
			}
			nf, _ := new(big.Float).SetInt(pu.MaxAbs(a.ph)).Float64()
			w := ck.Want{Level: lo, Degree: a.c.Degree(), Scale: target, Ph: want, Tol: big.NewInt(3)}
			for k := 0; k <= a.c.Degree(); k++ {
				w.Tol.Add(w.Tol, e.SP[k])
			}
			x, _ := new(big.Float).SetFloat64(nf * (1/float64(e.Q[a.c.Level()]) + r*math.Exp2(-48))).Int(nil)
			w.Tol.Add(w.Tol, x)
			return step("setscale", a, o, w, a.v, a.e)
		}},
	}
	if !s.CI() {
		ops = append(ops, gal("conjugate", uint64(2*e.N-1), e.ev.ConjugateNew, func(v []complex128) []complex128 { return one(v, cmplx.Conj) }),
			pop{"mult by i", func(a *val) *val {
				return step("mult by i", a, e.ev.MultByiNew(a.c), ck.Want{Level: a.c.Level(), Degree: a.c.Degree(), Scale: a.c.Scale, Ph: e.Gauss(a.c.Level(), a.ph, new(big.Int), big.NewInt(1))}, one(a.v, func(x complex128) complex128 { return x * 1i }), a.e)
			}})
	}
	if first >= len(ops) {
		return
	}
	depth := 3
	if th {
		depth = 4
		if s.LogN > 4 || e.L > 4 {
			depth = 3
		}
	}
	if s.LogN > 8 {
		depth -= 2
	}
	dec := ckks.NewDecryptor(e.P, e.Sk)
	ecd := ckks.NewEncoder(e.P)
	var hashes []uint64
	for _, x := range keep {
		hashes = append(hashes, pu.PolyHash(x.c.Value...))
	}
	var rec func(a *val, hist []int)
	rec = func(a *val, hist []int) {
		if len(hist) == depth {
			t.Trace(1)
			t.StateHash(pu.PolyHash(a.c.Value...))
			// the library's own decryption and decoding
			if a.ok {
				got := ecd.Decode(dec.DecryptNew(a.c), e.P.LogSlots())
				for i, x := range got {
					t.Check(cmplx.Abs(x-a.v[i]) <= a.e+maxv(a.v)*math.Exp2(-40), "program/decrypt", "%v: slot %d decrypts to %v, want %v, bound %g", names(ops, hist), i, x, a.v[i], a.e)
				}
			}
			return
		}
		for i := range ops {
			if len(hist) == 0 && i != first {
				continue
			}
			if len(hist) == 0 {
				a = mk(1, L, s.Scale, 1)
			}
			w := pu.PolyHash(a.c.Value...)
			b := ops[i].f(a)
			t.Check(pu.PolyHash(a.c.Value...) == w, "program/operand", "%s modifies its operand", ops[i].name)
			if b != nil {
				rec(b, append(hist[:len(hist):len(hist)], i))
			}
		}
	}
	rec(nil, nil)
	for i, x := range keep {
		t.Check(pu.PolyHash(x.c.Value...) == hashes[i], "program/operand", "an operand is modified")
	}
}

func names(ops []pop, hist []int) (o []string) {
	for _, i := range hist {
		o = append(o, ops[i].name)
	}
	return
}

// shipped: the parameter sets that come with the library.
func shipped(th bool) (o []ck.Spec) {
	add := func(name string, l ckks.ParametersLiteral) {
		if l.LogN > 13 {
			return
		}
		p, err := ckks.NewParametersFromLiteral(l)
		if err != nil {
			panic(name + ": " + err.Error())
		}
		o = append(o, ck.Spec{Name: name, LogN: p.LogN(), Q: p.Q(), P: p.P(), H: p.HammingWeight(), T: p.RingType(), Scale: p.DefaultScale()})
	}
	if th {
		for k, set := range [][]ckks.ParametersLiteral{ckks.DefaultParams, ckks.DefaultConjugateInvariantParams, ckks.DefaultPostQuantumParams, ckks.DefaultPostQuantumConjugateInvariantParams} {
			for _, l := range set {
				add(fmt.Sprintf("shipped%d-%d", k, l.LogN), l)
			}
		}
		return
	}
	add("PN13QP218", ckks.PN13QP218)
	return
}

func run(c *h.Ctx) {
	for _, tp := range []ring.Type{ring.Standard, ring.ConjugateInvariant} {
		ln := 12
		if tp == ring.ConjugateInvariant {
			ln = 11
		}
		m := ru.Mixed(pu.M0(ln, tp), 52, 40, 40, 51)
		s := ck.Spec{Name: fmt.Sprintf("large%d/%v", ln, tp), LogN: ln, Q: m[:3], P: m[3:], H: 64, T: tp, Scale: 1 << 40}
		for f := 0; f < 23; f++ {
			f := f
			c.Case("large", fmt.Sprintf("large/%s/%d", s.Name, f), func(t *h.T) { programs(t, s, f, c.Thorough) })
		}
	}
	for _, s := range many(c.Thorough) {
		s := s
		for f := 0; f < 23; f++ {
			f := f
			c.Case("many", fmt.Sprintf("many/%s/%d", s.Name, f), func(t *h.T) { programs(t, s, f, false) })
		}
		for _, m := range unaryModes {
			m := m
			c.Case("many", fmt.Sprintf("many/%s/switching/%s", s.Name, m), func(t *h.T) { switching(t, s, m, false) })
		}
		for _, m := range []string{"new", "inplace"} {
			m := m
			c.Case("many", fmt.Sprintf("many/%s/rescale/%s", s.Name, m), func(t *h.T) { rescale(t, s, m, false) })
		}
	}
	for _, s := range shipped(c.Thorough) {
		s := s
		for f := 0; f < 23; f++ {
			f := f
			c.Case("shipped", fmt.Sprintf("shipped/%s/%d", s.Name, f), func(t *h.T) { programs(t, s, f, false) })
		}
	}
	for _, s := range specs(c.Thorough) {
		s := s
		for _, op := range []string{"Add", "Sub", "AddNoMod", "SubNoMod"} {
			for _, m := range []string{"new", "fresh", "larger", "lower", "op0", "op1", "self"} {
				op, m := op, m
				c.Case("addition", fmt.Sprintf("addition/%s/%s/%s", s.Name, op, m), func(t *h.T) { addition(t, s, op, m, c.Thorough) })
			}
		}
		for _, op := range []string{"Mul", "MulRelin"} {
			for _, m := range []string{"new", "fresh", "small", "larger", "lower", "op0", "op1", "self", "square"} {
				op, m := op, m
				c.Case("product", fmt.Sprintf("product/%s/%s/%s", s.Name, op, m), func(t *h.T) { product(t, s, op, m, c.Thorough) })
			}
		}
		for _, op := range []string{"MulAndAdd", "MulRelinAndAdd"} {
			for _, m := range []string{"higher", "level", "lower", "op0", "op1"} {
				op, m := op, m
				c.Case("product", fmt.Sprintf("product/%s/%s/%s", s.Name, op, m), func(t *h.T) { product(t, s, op, m, c.Thorough) })
			}
		}
		for _, m := range unaryModes {
			m := m
			c.Case("constants", fmt.Sprintf("constants/%s/%s", s.Name, m), func(t *h.T) { constants(t, s, m, c.Thorough) })
			c.Case("unary", fmt.Sprintf("unary/%s/%s", s.Name, m), func(t *h.T) { unary(t, s, m, c.Thorough) })
			c.Case("switching", fmt.Sprintf("switching/%s/%s", s.Name, m), func(t *h.T) { switching(t, s, m, c.Thorough) })
			if m != "new" {
				c.Case("gaussian", fmt.Sprintf("gaussian/%s/%s", s.Name, m), func(t *h.T) { gaussian(t, s, m, c.Thorough) })
			}
		}
		c.Case("gaussian", fmt.Sprintf("gaussian/%s/acc", s.Name), func(t *h.T) { gaussian(t, s, "acc", c.Thorough) })
		c.Case("constAcc", "constAcc/"+s.Name, func(t *h.T) { constAcc(t, s, c.Thorough) })
		for _, m := range []string{"new", "fresh", "inplace"} {
			m := m
			c.Case("rescale", fmt.Sprintf("rescale/%s/%s", s.Name, m), func(t *h.T) { rescale(t, s, m, c.Thorough) })
		}
		c.Case("misuse", "misuse/"+s.Name, func(t *h.T) { misuse(t, s) })
		for f := 0; f < 23; f++ {
			f := f
			c.Case("programs", fmt.Sprintf("programs/%s/%d", s.Name, f), func(t *h.T) { programs(t, s, f, c.Thorough) })
		}
	}
}

func main() {
	h.Main(h.Info{ID: "C15", Level: "model_checking",
		Rule:          "the state of a computation is modelled by the phase of each element (its decrypted integer polynomial modulo the level), with level, degree and scale; every transition of the evaluator is taken on the real code and compared with the model: exactly for the linear operations, products and Gaussian constants, within the worst-case bound of the rounding or of the key switch for the others; all programs of the given depth over 23 operations are run from an accumulator, with the slots and the error bound tracked and compared after every step and after the library's own decryption",
		Bounds:        "3 (thorough 7) parameter sets of degree 16 (to 32), single operations (thorough: pairs) in degree 2048/4096, 3-8 primes, both ring types; programs, rescaling and switching with 36+33 (thorough 100+100) primes; the shipped parameter set PN13QP218 (thorough: all shipped sets of degree up to 2^13); all pairs of levels, degrees 0-3 and 4 scales with integer ratios for the additions, all receiver shapes (new, fresh, larger, lower, each operand); 48 constants of all types; all rotations; programs of depth 3 (thorough 4)",
		Assumptions:   []string{"the transforms are those decided by C03", "scales related by an integer factor, up to a relative mismatch that the result inherits", "receivers are in the NTT domain"},
		QuickDeadline: 400, ThoroughDeadline: 860}, run)
}
