package pu

import (
	"fmt"

	"fast-ksw/ring"
)

// ReducedTo tells whether every coefficient of the limbs is at most its modulus.
func ReducedTo(p *ring.Poly, q []uint64) (bool, string) {
	for i := range p.Coeffs {
		for j, v := range p.Coeffs[i] {
			if v > q[i] {
				return false, fmt.Sprintf("limb %d coefficient %d is %d > %d", i, j, v, q[i])
			}
		}
	}
	return true, ""
}
