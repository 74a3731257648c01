package ref

import "math/big"

// Prec is the precision of the reference complex arithmetic.
const Prec = 512

// F returns x at the reference precision.
func F(x float64) *big.Float { return new(big.Float).SetPrec(Prec).SetFloat64(x) }

// FI returns the integer x at the reference precision.
func FI(x *big.Int) *big.Float { return new(big.Float).SetPrec(Prec).SetInt(x) }

// C is a complex number at the reference precision.
type C struct{ Re, Im *big.Float }

// NewC converts a complex128.
func NewC(z complex128) C { return C{F(real(z)), F(imag(z))} }

func add(a, b *big.Float) *big.Float { return new(big.Float).SetPrec(Prec).Add(a, b) }
func sub(a, b *big.Float) *big.Float { return new(big.Float).SetPrec(Prec).Sub(a, b) }
func mul(a, b *big.Float) *big.Float { return new(big.Float).SetPrec(Prec).Mul(a, b) }

// Add, Sub, Mul and Conj are the complex operations.
func (a C) Add(b C) C { return C{add(a.Re, b.Re), add(a.Im, b.Im)} }
func (a C) Sub(b C) C { return C{sub(a.Re, b.Re), sub(a.Im, b.Im)} }
func (a C) Mul(b C) C {
	return C{sub(mul(a.Re, b.Re), mul(a.Im, b.Im)), add(mul(a.Re, b.Im), mul(a.Im, b.Re))}
}
func (a C) Conj() C { return C{a.Re, new(big.Float).SetPrec(Prec).Neg(a.Im)} }

// Scale multiplies by a real.
func (a C) Scale(r *big.Float) C { return C{mul(a.Re, r), mul(a.Im, r)} }

// Abs1 is the larger of the absolute values of the two parts.
func (a C) Abs1() *big.Float {
	x, y := new(big.Float).Abs(a.Re), new(big.Float).Abs(a.Im)
	if x.Cmp(y) > 0 {
		return x
	}
	return y
}

var rootsMemo = map[int][]C{}

// Roots returns exp(2*pi*i*k/m) for k in [0,m), m a power of two, by half angles and products.
func Roots(m int) []C {
	if r, ok := rootsMemo[m]; ok {
		return r
	}
	var r []C
	switch m {
	case 1:
		r = []C{NewC(1)}
	case 2:
		r = []C{NewC(1), NewC(-1)}
	case 4:
		r = []C{NewC(1), NewC(1i), NewC(-1), NewC(-1i)}
	default:
		h := Roots(m / 2)
		// the primitive root of order m: half the angle of h[1]
		w := h[1]
		half := F(0.5)
		c := new(big.Float).SetPrec(Prec).Sqrt(mul(add(F(1), w.Re), half))
		s := new(big.Float).SetPrec(Prec).Sqrt(mul(sub(F(1), w.Re), half))
		g := C{c, s}
		r = make([]C, m)
		for k := 0; k < m; k++ {
			if k%2 == 0 {
				r[k] = h[k/2]
			} else {
				r[k] = h[k/2].Mul(g)
			}
		}
	}
	rootsMemo[m] = r
	return r
}

// Pow5 returns 5^j mod m.
func Pow5(j, m int) int {
	r := 1
	for ; j > 0; j-- {
		r = r * 5 % m
	}
	return r
}

// Slots evaluates the polynomial with coefficients c (in Y, for n slots) at the library's slots. In the
// standard ring c has 2n coefficients; in the conjugate-invariant one it has n, and Y^k stands for Y^k+Y^-k.
func Slots(c []*big.Float, n int, ci bool) []C {
	m := 4 * n
	w := Roots(m)
	o := make([]C, n)
	for j := range o {
		g := Pow5(j, m)
		acc := NewC(0)
		for k := range c {
			r := w[g*k%m]
			if ci {
				r = C{r.Re, F(0)}
				if k > 0 {
					r.Re = add(r.Re, r.Re)
				}
			}
			acc = acc.Add(r.Scale(c[k]))
		}
		o[j] = acc
	}
	return o
}

// Coeffs is the inverse of Slots.
func Coeffs(z []C, ci bool) []*big.Float {
	n := len(z)
	m := 4 * n
	w := Roots(m)
	l := 2 * n
	if ci {
		l = n
	}
	inv := F(1 / float64(n))
	o := make([]*big.Float, l)
	p5 := make([]int, n)
	for j, g := 0, 1; j < n; j, g = j+1, g*5%m {
		p5[j] = g
	}
	for k := range o {
		acc := F(0)
		for j := range z {
			r := w[p5[j]*k%m]
			acc = add(acc, mul(z[j].Re, r.Re))
			if !ci {
				acc = add(acc, mul(z[j].Im, r.Im))
			}
		}
		o[k] = mul(acc, inv)
	}
	return o
}
