package main

import (
	"fmt"
	"math"
	"math/big"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"verifharness/h"
	"verifharness/pu"
)

// large checks encoding and decoding in rings of practical degree: the slots of a polynomial with few
// coefficients are computed directly, for every number of slots.
func large(t *h.T, s spec) {
	P := s.New(t)
	N := P.N()
	rq := P.RingQ()
	ecd := ckks.NewEncoder(P)
	scale := math.Exp2(40)
	var bige ckks.EncoderBigComplex
	if !s.ci() && s.logN < 14 {
		bige = ckks.NewEncoderBigComplex(P, 64)
	}
	lvl := P.MaxLevel()
	for ls := 0; ls <= s.maxLog(); ls++ {
		n := 1 << uint(ls)
		L := 2 * n
		if s.ci() {
			L = n
		}
		gap := N / L
		pos := [][]int{{0}, {1 % L}, {L - 1}, {L / 2, L - 1, 0}, {3 % L, (5*L/8 + 1) % L, L / 4}}
		for pi, ps := range pos {
			c := map[int]float64{}
			sum := 0.0
			for k, p := range ps {
				c[p] += []float64{1.25, -0.5, 0.375}[k]
			}
			for _, v := range c {
				sum += math.Abs(v)
			}
			want := make([]complex128, n)
			m := 4 * n
			g := 1
			for j := range want {
				for k, v := range c {
					sn, cs := math.Sincos(2 * math.Pi * float64(g*k%m) / float64(m))
					if !s.ci() {
						want[j] += complex(v*cs, v*sn)
					} else if k == 0 {
						want[j] += complex(v, 0)
					} else {
						want[j] += complex(2*v*cs, 0)
					}
				}
				g = g * 5 % m
			}
			what := fmt.Sprintf("%s %d slots polynomial %d", s.name, n, pi)
			tol := sum * float64(ls+2) * math.Exp2(-44)
			// decode
			v := make([]*big.Int, N)
			for i := range v {
				v[i] = new(big.Int)
			}
			for k, x := range c {
				v[k*gap].SetInt64(int64(x * scale))
			}
			for _, ntt := range []bool{true, false} {
				pt := toPt(P, v, lvl, scale, ntt)
				for ri, got := range [][]complex128{ecd.Decode(pt, ls), ecd.DecodePublic(pt, ls, 0)} {
					t.Check(len(got) == n, "large/decode", "%s: %d slots", what, len(got))
					for j := range got {
						d := got[j] - want[j]
						if math.Hypot(real(d), imag(d)) > tol {
							t.Fail("large/decode", "%s route %d ntt %v: slot %d is %v, want %v", what, ri, ntt, j, got[j], want[j])
							break
						}
					}
				}
				t.Eval(1)
			}
			// arbitrary precision
			if bige != nil && (ls == s.maxLog() || ls == 1) && pi != 1 {
				in := make([]*ring.Complex, n)
				for j := range in {
					in[j] = ring.NewComplex(ring.NewFloat(real(want[j]), 64), ring.NewFloat(imag(want[j]), 64))
				}
				pt := bige.EncodeNew(in, lvl, scale, ls)
				for i, x := range pu.Ints(rq, pt.Value, pt.Value.IsNTT, lvl) {
					w := 0.0
					if i%gap == 0 {
						w = c[i/gap] * scale
					}
					f, _ := new(big.Float).SetInt(x).Float64()
					if math.Abs(f-w) > tol*scale+1 || i%gap != 0 && x.Sign() != 0 {
						t.Fail("large/big-encode", "%s: coefficient %d is %g, want %g", what, i, f, w)
						break
					}
				}
				for j, z := range bige.Decode(toPt(P, v, lvl, scale, true), ls) {
					a, _ := z.Real().Float64()
					b, _ := z.Imag().Float64()
					if math.Hypot(a-real(want[j]), b-imag(want[j])) > tol {
						t.Fail("large/big-decode", "%s: slot %d is %v,%v, want %v", what, j, a, b, want[j])
						break
					}
				}
				t.Eval(2)
			}
			// encode
			for _, l := range []int{0, lvl} {
				pt := ecd.EncodeNew(want, l, scale, ls)
				got := pu.Ints(rq, pt.Value, pt.Value.IsNTT, l)
				if l == 0 && math.Exp2(41)*sum > float64(s.q[0])/2 {
					continue
				}
				for i, x := range got {
					w := 0.0
					if i%gap == 0 {
						w = c[i/gap] * scale
					}
					f, _ := new(big.Float).SetInt(x).Float64()
					if math.Abs(f-w) > tol*scale+1 {
						t.Fail("large/encode", "%s level %d: coefficient %d is %g, want %g", what, l, i, f, w)
						break
					}
				}
				t.Eval(1)
			}
			t.State(what)
		}
	}
}
