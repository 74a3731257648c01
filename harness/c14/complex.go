package main

import (
	"fmt"
	"math/big"

	"fast-ksw/ring"
	"verifharness/h"
)

// complexOps: the arbitrary-precision complex arithmetic on all pairs of a small set, in every aliasing,
// against exact rational arithmetic.
func complexOps(t *h.T, prec uint) {
	type rc [2]*big.Rat
	var vals []rc
	parts := []*big.Rat{new(big.Rat), big.NewRat(1, 1), big.NewRat(-3, 2), big.NewRat(7, 64), new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(5), 40))}
	for _, a := range parts {
		for _, b := range parts {
			vals = append(vals, rc{a, b})
		}
	}
	fl := func(r *big.Rat) *big.Float { return new(big.Float).SetPrec(prec).SetRat(r) }
	mk := func(v rc) *ring.Complex { return ring.NewComplex(fl(v[0]), fl(v[1])) }
	m := func(a, b *big.Rat) *big.Rat { return new(big.Rat).Mul(a, b) }
	add := func(a, b *big.Rat) *big.Rat { return new(big.Rat).Add(a, b) }
	sub := func(a, b *big.Rat) *big.Rat { return new(big.Rat).Sub(a, b) }
	// close: |got - want| <= 2^-(prec-8) (|want| + scale of the operands)
	near := func(got *big.Float, want, mag *big.Rat) bool {
		g, _ := got.Rat(nil)
		if g == nil {
			g = new(big.Rat)
		}
		d := sub(g, want)
		d.Abs(d)
		tol := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), prec-8))
		return d.Cmp(m(tol, add(mag, new(big.Rat).Abs(want)))) <= 0
	}
	cm := ring.NewComplexMultiplier()
	for _, x := range vals {
		for _, y := range vals {
			nrm := add(m(y[0], y[0]), m(y[1], y[1]))
			xx := add(new(big.Rat).Abs(x[0]), new(big.Rat).Abs(x[1]))
			yy := add(new(big.Rat).Abs(y[0]), new(big.Rat).Abs(y[1]))
			type op struct {
				name string
				do   func(a, b, c *ring.Complex)
				want rc
				mag  *big.Rat
			}
			re, im := sub(m(x[0], y[0]), m(x[1], y[1])), add(m(x[0], y[1]), m(x[1], y[0]))
			ops := []op{
				{"Add", func(a, b, c *ring.Complex) { c.Add(a, b) }, rc{add(x[0], y[0]), add(x[1], y[1])}, add(xx, yy)},
				{"Sub", func(a, b, c *ring.Complex) { c.Sub(a, b) }, rc{sub(x[0], y[0]), sub(x[1], y[1])}, add(xx, yy)},
				{"Mul", cm.Mul, rc{re, im}, m(xx, yy)},
			}
			if nrm.Sign() != 0 {
				inv := new(big.Rat).Inv(nrm)
				dr, di := m(add(m(x[0], y[0]), m(x[1], y[1])), inv), m(sub(m(x[1], y[0]), m(x[0], y[1])), inv)
				ops = append(ops, op{"Div", cm.Div, rc{dr, di}, m(m(xx, yy), inv)})
			}
			for _, o := range ops {
				for al := 0; al < 5; al++ {
					a, b, c := mk(x), mk(y), mk(vals[7])
					if al >= 3 && fmt.Sprint(x) != fmt.Sprint(y) {
						continue
					}
					if al == 1 {
						c = a
					} else if al == 2 {
						c = b
					} else if al >= 3 {
						b = a
						if al == 4 {
							c = a
						}
					}
					o.do(a, b, c)
					t.Check(near(c.Real(), o.want[0], o.mag) && near(c.Imag(), o.want[1], o.mag), "complex/"+o.name,
						"%s of %v and %v with aliasing %d gives %v %v, want %v", o.name, x, y, al, c[0], c[1], o.want)
					if al != 1 && al != 4 {
						t.Check(near(a[0], x[0], new(big.Rat)) && near(a[1], x[1], new(big.Rat)), "complex/operand", "%s changes its first operand", o.name)
					}
					if al != 2 && al != 4 {
						t.Check(near(b[0], y[0], new(big.Rat)) && near(b[1], y[1], new(big.Rat)), "complex/operand", "%s changes its second operand", o.name)
					}
					t.Eval(1)
				}
			}
			t.State(fmt.Sprint(x, y, prec))
		}
		c := mk(x)
		f0, _ := x[0].Float64()
		f1, _ := x[1].Float64()
		t.Check(c.Float64() == complex(f0, f1), "complex/float64", "Float64 of %v is %v", x, c.Float64())
		d := c.Copy()
		e := ring.NewComplex(nil, nil)
		t.Check(e[0].Sign() == 0 && e[1].Sign() == 0, "complex/new", "NewComplex(nil, nil) is not zero")
		e.Set(c)
		c.Add(c, mk(vals[6]))
		t.Check(d.Float64() == complex(f0, f1) && e.Float64() == complex(f0, f1), "complex/copy", "a copy follows its original")
	}
}
