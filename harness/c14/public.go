package main

import (
	"math"
	"math/big"

	"fast-ksw/ckks"
	"verifharness/h"
	"verifharness/ref"
)

// public recovers the error that the sanitizing decoders add: an integer per coefficient, bounded as
// documented, present, and as wide as asked.
func public(t *h.T, s spec, th bool) {
	P := s.New(t)
	ecd := ckks.NewEncoder(P)
	N := P.N()
	v := make([]*big.Int, N)
	for i := range v {
		v[i] = big.NewInt(int64(i*i%37) - 18)
	}
	toC := func(z []complex128) (o []ref.C) {
		for _, x := range z {
			o = append(o, ref.C{Re: ref.F(real(x)), Im: ref.F(imag(x))})
		}
		return
	}
	type route struct {
		name string
		get  func(pt *ckks.Plaintext, ls int, sigma float64) []*big.Float
		rnd  bool
	}
	rs := []route{
		{"DecodePublic", func(pt *ckks.Plaintext, ls int, sigma float64) []*big.Float {
			return ref.Coeffs(toC(ecd.DecodePublic(pt, ls, sigma)), s.ci())
		}, false},
		{"DecodeSlotsPublic", func(pt *ckks.Plaintext, ls int, sigma float64) []*big.Float {
			return ref.Coeffs(toC(ecd.DecodeSlotsPublic(pt, ls, sigma)), s.ci())
		}, false},
		{"DecodeCoeffsPublic", func(pt *ckks.Plaintext, ls int, sigma float64) (o []*big.Float) {
			for _, x := range ecd.DecodeCoeffsPublic(pt, sigma) {
				o = append(o, ref.F(x))
			}
			return
		}, false},
	}
	if !s.ci() {
		big_ := ckks.NewEncoderBigComplex(P, 128)
		rs = append(rs, route{"big DecodePublic", func(pt *ckks.Plaintext, ls int, sigma float64) []*big.Float {
			var z []ref.C
			for _, x := range big_.DecodePublic(pt, ls, sigma) {
				z = append(z, ref.C{Re: new(big.Float).SetPrec(ref.Prec).Set(x.Real()), Im: new(big.Float).SetPrec(ref.Prec).Set(x.Imag())})
			}
			return ref.Coeffs(z, false)
		}, true})
	}
	for _, r := range rs {
		for _, sigma := range []float64{0.5, 3.2, 25, 1000} {
			B := math.Floor(2.5066282746310002 * sigma)
			if r.rnd {
				B = math.Floor(2.5066282746310002*sigma + 0.5)
			}
			n, sq, max := 0, 0.0, 0.0
			for rep := 0; n < 3000; rep++ {
				ntt := rep%2 == 0
				lvl := rep % len(s.q)
				pt := toPt(P, v, lvl, 1, ntt)
				c := r.get(pt, s.maxLog(), sigma)
				if len(c) != N {
					t.Fail("public/length", "%s %s: %d coefficients, want %d", s.name, r.name, len(c), N)
					return
				}
				for i, x := range c {
					f, _ := x.Float64()
					e := f - float64(v[i].Int64())
					if math.Abs(e-math.Round(e)) > 1e-4 {
						t.Fail("public/integer", "%s %s sigma %g: coefficient %d is off by %g, not an integer", s.name, r.name, sigma, i, e)
						return
					}
					e = math.Abs(math.Round(e))
					if e > B {
						t.Fail("public/bound", "%s %s sigma %g: coefficient %d is off by %g, bound %g", s.name, r.name, sigma, i, e, B)
						return
					}
					sq += e * e
					if e > max {
						max = e
					}
					n++
				}
				t.Eval(1)
			}
			// the documented distribution: standard deviation sigma cut at B. Margins of more than ten deviations.
			std := math.Sqrt(sq / float64(n))
			t.Check(max >= math.Floor(0.75*B) && max > 0, "public/width", "%s %s sigma %g: the largest of %d errors is %g, bound %g", s.name, r.name, sigma, n, max, B)
			if sigma > 1 {
				t.Check(std > 0.7*sigma && std < 1.15*sigma, "public/deviation", "%s %s sigma %g: standard deviation %g of %d errors", s.name, r.name, sigma, std, n)
			}
			t.State(s.name, r.name, sigma)
		}
	}
}
