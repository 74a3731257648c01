package main

import (
	"fmt"
	"math/big"

	"fast-ksw/ring"
	"verifharness/h"
)

// multiplier runs every history of products and quotients of several precisions on one multiplier of complex
// numbers of arbitrary precision: each result must be bit by bit that of a fresh multiplier.
func multiplier(t *h.T, depth int) {
	type act struct {
		name string
		do   func(m *ring.ComplexMultiplier) *ring.Complex
	}
	num := func(prec uint, seed int64) *ring.Complex {
		f := func(a, b int64) *big.Float {
			return new(big.Float).SetPrec(prec).Quo(big.NewFloat(float64(a)).SetPrec(prec), big.NewFloat(float64(b)).SetPrec(prec))
		}
		return ring.NewComplex(f(seed, 7), f(1-seed, 11))
	}
	var as []act
	for _, prec := range []uint{24, 53, 128, 300} {
		for op := 0; op < 2; op++ {
			for al := 0; al < 3; al++ {
				prec, op, al := prec, op, al
				as = append(as, act{fmt.Sprintf("op %d precision %d aliasing %d", op, prec, al), func(m *ring.ComplexMultiplier) *ring.Complex {
					a, b := num(prec, 3), num(prec, 5)
					c := ring.NewComplex(new(big.Float).SetPrec(400), new(big.Float).SetPrec(400))
					switch al {
					case 1:
						c = a
					case 2:
						b = a
					}
					if op == 0 {
						m.Mul(a, b, c)
					} else {
						m.Div(a, b, c)
					}
					return c
				}})
			}
		}
	}
	text := func(c *ring.Complex) string { return c[0].Text('p', 0) + " " + c[1].Text('p', 0) }
	want := make([]string, len(as))
	for i, a := range as {
		want[i] = text(a.do(ring.NewComplexMultiplier()))
	}
	var rec func(hist []int)
	rec = func(hist []int) {
		if len(hist) == depth {
			m := ring.NewComplexMultiplier()
			for x, i := range hist {
				got := text(as[i].do(m))
				t.Trans(1)
				if got != want[i] {
					t.Fail("multiplier", "%q gives %s after the operations %v, and %s on a fresh multiplier", as[i].name, got, hist[:x], want[i])
				}
			}
			t.Trace(1)
			t.State(hist)
			return
		}
		for i := range as {
			rec(append(hist[:len(hist):len(hist)], i))
		}
	}
	rec(nil)
	t.Eval(1)
}
