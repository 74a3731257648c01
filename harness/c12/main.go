// C12: parameter sets, rings and primes are validated and described correctly.
package main

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"reflect"

	"fast-ksw/ckks"
	"fast-ksw/fckks"
	"fast-ksw/frlwe"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"verifharness/h"
	"verifharness/ref"
	"verifharness/ru"
)

// ---------- reference predicates ----------

// prime is a deterministic Miller-Rabin test (bases sufficient below 2^64).
func prime(n uint64) bool {
	if n < 2 {
		return false
	}
	bases := []uint64{2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}
	for _, p := range bases {
		if n == p {
			return true
		}
		if n%p == 0 {
			return false
		}
	}
	d, s := n-1, 0
	for d%2 == 0 {
		d /= 2
		s++
	}
	for _, a := range bases {
		x := ref.PowMod(a, d, n)
		if x == 1 || x == n-1 {
			continue
		}
		ok := false
		for i := 1; i < s && !ok; i++ {
			x = ref.MulMod(x, x, n)
			ok = x == n-1
		}
		if !ok {
			return false
		}
	}
	return true
}

func distinct(s []uint64) bool {
	m := map[uint64]bool{}
	for _, v := range s {
		if m[v] {
			return false
		}
		m[v] = true
	}
	return true
}

func nthRoot(N int, tp ring.Type) uint64 {
	if tp == ring.ConjugateInvariant {
		return uint64(4 * N)
	}
	return uint64(2 * N)
}

// ringOK tells whether the documentation of NewRingFromType promises a ring.
func ringOK(N int, q []uint64, tp ring.Type) bool {
	if N < 16 || N&(N-1) != 0 || len(q) == 0 || !distinct(q) || (tp != ring.Standard && tp != ring.ConjugateInvariant) {
		return false
	}
	for _, v := range q {
		if !prime(v) || v%nthRoot(N, tp) != 1 {
			return false
		}
	}
	return true
}

func paramsOK(logN int, q, p []uint64, tp ring.Type) bool {
	if logN < rlwe.MinLogN || logN > rlwe.MaxLogN || len(q) > rlwe.MaxModuliCount || len(p) > rlwe.MaxModuliCount {
		return false
	}
	for _, v := range append(append([]uint64{}, q...), p...) {
		if bits.Len64(v) > 61 {
			return false
		}
	}
	return distinct(append(append([]uint64{}, q...), p...)) && ringOK(1<<uint(logN), q, tp) && (len(p) == 0 || ringOK(1<<uint(logN), p, tp))
}

// genPrimes is the documented search: from 2^logQ, alternating upward and downward (downward only at 61 bits).
func genPrimes(logQ int, m uint64, n int) (out []uint64) {
	base := uint64(1)<<uint(logQ) + 1
	for k := uint64(1); len(out) < n; k++ {
		if logQ < 61 && prime(base+k*m) {
			out = append(out, base+k*m)
		}
		if len(out) < n && k*m < base && prime(base-k*m) {
			out = append(out, base-k*m)
		}
		if k > 1<<22 {
			return nil
		}
	}
	return
}

// ---------- rings ----------

func tuples(al []uint64, n int, f func([]uint64)) {
	k := 1
	for i := 0; i < n; i++ {
		k *= len(al)
	}
	for v := 0; v < k; v++ {
		s := make([]uint64, n)
		x := v
		for i := range s {
			s[i] = al[x%len(al)]
			x /= len(al)
		}
		f(s)
	}
}

var alphabet = []uint64{0, 1, 2, 4, 17, 33, 97, 193, 257, 1729, 97 * 193, 97 * 97, 12289, 1<<60 + 33, 65537, 99, 3}

func rings(t *h.T, N int, tp ring.Type, maxLen int) {
	for l := 0; l <= maxLen; l++ {
		tuples(alphabet, l, func(q []uint64) {
			arg := append([]uint64{}, q...)
			var r *ring.Ring
			var err error
			pan := h.Panics(func() { r, err = ring.NewRingFromType(N, arg, tp) })
			t.Eval(1)
			t.Check(pan == nil, "newring/panic", "NewRingFromType(%d,%v,%d) panics: %v", N, q, tp, pan)
			want := ringOK(N, q, tp)
			t.Check((err == nil) == want, "newring/valid", "NewRingFromType(%d,%v,%d): err=%v, documented requirements met: %v", N, q, tp, err, want)
			if !want {
				t.Check(r == nil || !r.AllowsNTT, "newring/unusable", "NewRingFromType(%d,%v,%d): a ring that allows the NTT comes with the error %v", N, q, tp, err)
				return
			}
			t.State(N, tp, q)
			for i := range arg {
				arg[i] = 5
			}
			ringDesc(t, r, N, q, tp)
			if tp == ring.Standard {
				r2, err2 := ring.NewRing(N, q)
				t.Check(err2 == nil, "newring/valid", "NewRing: %v", err2)
				ringDesc(t, r2, N, q, tp)
			} else {
				r2, err2 := ring.NewRingConjugateInvariant(N, q)
				t.Check(err2 == nil, "newring/valid", "NewRingConjugateInvariant: %v", err2)
				ringDesc(t, r2, N, q, tp)
			}
		})
	}
}

func ringDesc(t *h.T, r *ring.Ring, N int, q []uint64, tp ring.Type) {
	t.Check(r.N == N && r.NthRoot == nthRoot(N, tp) && r.Type() == tp && r.AllowsNTT, "ring/shape", "N=%d NthRoot=%d type=%d AllowsNTT=%v", r.N, r.NthRoot, r.Type(), r.AllowsNTT)
	t.Check(reflect.DeepEqual(r.Modulus, q), "ring/moduli", "%v want %v", r.Modulus, q)
	t.Check(r.ModulusBigint.Cmp(ref.Prod(q)) == 0, "ring/product", "%s", r.ModulusBigint)
	for i, v := range q {
		t.Check(r.Mask[i] == 1<<uint(bits.Len64(v))-1, "ring/mask", "mask %x of %d", r.Mask[i], v)
		ps := ref.MulMod(r.PsiMont[i], ref.InvMod(ref.R64(v), v), v)
		pi := ref.MulMod(r.PsiInvMont[i], ref.InvMod(ref.R64(v), v), v)
		t.Check(ref.PowMod(ps, r.NthRoot/2, v) == v-1 && ref.MulMod(ps, pi, v) == 1, "ring/root", "psi=%d psiInv=%d modulo %d", ps, pi, v)
	}
	// the other type of ring over the same moduli
	if tp == ring.Standard {
		c, err := r.ConjugateInvariantRing()
		ok := N/2 >= 16
		t.Check((err == nil) == ok, "ring/ci", "ConjugateInvariantRing of degree %d: %v", N, err)
		if ok {
			t.Check(c.N == N/2 && c.NthRoot == r.NthRoot && c.Type() == ring.ConjugateInvariant && reflect.DeepEqual(c.Modulus, q) && r.Type() == ring.Standard && r.N == N, "ring/ci", "N=%d NthRoot=%d type=%d", c.N, c.NthRoot, c.Type())
		}
		s, err := r.StandardRing()
		t.Check(err == nil && s == r, "ring/std", "%v", err)
	} else {
		s, err := r.StandardRing()
		t.Check(err == nil && s.N == 2*N && s.NthRoot == r.NthRoot && s.Type() == ring.Standard && reflect.DeepEqual(s.Modulus, q) && r.Type() == tp && r.N == N, "ring/std", "%v", err)
		c, err := r.ConjugateInvariantRing()
		t.Check(err == nil && c == r, "ring/ci", "%v", err)
	}
}

// ---------- parameter sets ----------

func show(p rlwe.Parameters) string {
	return fmt.Sprintf("{logN %d q %v p %v h %d sigma %g type %d}", p.LogN(), p.Q(), p.P(), p.HammingWeight(), p.Sigma(), p.RingType())
}

func empty(p rlwe.Parameters) bool {
	return p.LogN() == 0 && p.QCount() == 0 && p.PCount() == 0 && p.RingQ() == nil && p.RingP() == nil
}

func params(t *h.T, logN int, tp ring.Type, maxQ, maxP int) {
	for lq := 0; lq <= maxQ; lq++ {
		tuples(alphabet, lq, func(q []uint64) {
			for lp := 0; lp <= maxP; lp++ {
				tuples(alphabet, lp, func(p []uint64) {
					oneParam(t, logN, q, p, tp)
				})
			}
		})
	}
}

func oneParam(t *h.T, logN int, q, p []uint64, tp ring.Type) {
	for _, hs := range [][2]float64{{8, 3.2}} {
		a, b := append([]uint64{}, q...), append([]uint64{}, p...)
		var P rlwe.Parameters
		var err error
		pan := h.Panics(func() { P, err = rlwe.NewParameters(logN, a, b, int(hs[0]), hs[1], tp) })
		t.Eval(1)
		what := fmt.Sprintf("NewParameters(%d,%v,%v,%d)", logN, q, p, tp)
		t.Check(pan == nil, "newparameters/panic", "%s panics: %v", what, pan)
		want := paramsOK(logN, q, p, tp)
		t.Check((err == nil) == want, "newparameters/valid", "%s: err=%v, requirements met: %v", what, err, want)
		if !want {
			t.Check(empty(P), "newparameters/empty", "%s returns %s with the error %v", what, show(P), err)
			continue
		}
		for i := range a {
			a[i] = 1
		}
		for i := range b {
			b[i] = 1
		}
		t.State(logN, tp, q, p)
		describe(t, P, logN, q, p, int(hs[0]), hs[1], tp)
	}
}

func describe(t *h.T, P rlwe.Parameters, logN int, q, p []uint64, hw int, sigma float64, tp ring.Type) {
	N := 1 << uint(logN)
	eq := func(name string, got, want interface{}) {
		t.Eval(1)
		t.Check(reflect.DeepEqual(got, want), "derived/"+name, "%s: got %v want %v", show(P), got, want)
	}
	nn := func(s []uint64) []uint64 { return append([]uint64{}, s...) }
	qp := append(nn(q), p...)
	eq("N", P.N(), N)
	eq("LogN", P.LogN(), logN)
	eq("RingType", P.RingType(), tp)
	eq("H", P.HammingWeight(), hw)
	eq("Sigma", P.Sigma(), sigma)
	eq("Q", P.Q(), nn(q))
	eq("P", P.P(), nn(p))
	eq("QP", P.QP(), qp)
	eq("QCount", P.QCount(), len(q))
	eq("PCount", P.PCount(), len(p))
	eq("QPCount", P.QPCount(), len(qp))
	eq("MaxLevel", P.MaxLevel(), len(q)-1)
	eq("Alpha", P.Alpha(), len(p))
	beta := 1
	if len(p) > 0 {
		beta = (len(q) + len(p) - 1) / len(p)
	}
	eq("Beta", P.Beta(), beta)
	eq("QBigInt", P.QBigInt().String(), ref.Prod(q).String())
	eq("PBigInt", P.PBigInt().String(), ref.Prod(p).String())
	eq("QPBigInt", P.QPBigInt().String(), ref.Prod(qp).String())
	eq("LogQ", P.LogQ(), ref.Prod(q).BitLen())
	eq("LogP", P.LogP(), ref.Prod(p).BitLen())
	eq("LogQP", P.LogQP(), ref.Prod(qp).BitLen())
	margin := func(s []uint64) int {
		m := uint64(0)
		for _, v := range s {
			if v > m {
				m = v
			}
		}
		return int(new(big.Int).Div(new(big.Int).Lsh(big.NewInt(1), 64), ref.U(m)).Int64())
	}
	for l := range q {
		eq("QiFloat64", P.QiFloat64(l), float64(q[l]))
		eq("QiOverflowMargin", P.QiOverflowMargin(l), margin(q[:l+1]))
	}
	for l := range p {
		eq("PiOverflowMargin", P.PiOverflowMargin(l), margin(p[:l+1]))
	}
	// returned slices and integers are copies
	x, y, z := P.Q(), P.P(), P.QP()
	for i := range x {
		x[i] = 0
	}
	for i := range y {
		y[i] = 0
	}
	for i := range z {
		z[i] = 0
	}
	P.QBigInt().SetInt64(1)
	P.PBigInt().SetInt64(1)
	P.QPBigInt().SetInt64(1)
	eq("Q", P.Q(), nn(q))
	eq("P", P.P(), nn(p))
	eq("QP", P.QP(), qp)
	eq("QBigInt", P.QBigInt().String(), ref.Prod(q).String())
	ringDesc(t, P.RingQ(), N, q, tp)
	t.Check((P.RingP() == nil) == (len(p) == 0), "derived/RingP", "RingP nil with %d primes", len(p))
	if len(p) > 0 {
		ringDesc(t, P.RingP(), N, p, tp)
	}
	t.Check(P.RingQP().RingQ == P.RingQ() && P.RingQP().RingP == P.RingP(), "derived/RingQP", "RingQP differs from the two rings")
	// copies
	c := P.CopyNew()
	eq("CopyNew", c.Equals(P) && P.Equals(c), true)
	eq("CopyNew", []interface{}{c.LogN(), c.Q(), c.P(), c.HammingWeight(), c.Sigma(), c.RingType()}, []interface{}{logN, nn(q), nn(p), hw, sigma, tp})
	ringDesc(t, c.RingQ(), N, q, tp)
	if len(p) > 0 {
		ringDesc(t, c.RingP(), N, p, tp)
	}
	t.Check(c.RingQ() != P.RingQ(), "derived/CopyNew", "a deep copy shares its ring")
	// sibling
	s, err := P.StandardParameters()
	t.Check(err == nil, "derived/StandardParameters", "%v", err)
	if tp == ring.Standard {
		eq("StandardParameters", s.Equals(P), true)
	} else {
		eq("StandardParameters", []interface{}{s.LogN(), s.Q(), s.P(), s.HammingWeight(), s.Sigma(), s.RingType()}, []interface{}{logN + 1, nn(q), nn(p), hw, sigma, ring.Standard})
		ringDesc(t, s.RingQ(), 2*N, q, ring.Standard)
		if len(p) > 0 {
			ringDesc(t, s.RingP(), 2*N, p, ring.Standard)
		}
		eq("StandardParameters", []interface{}{P.LogN(), P.RingType()}, []interface{}{logN, tp})
		ringDesc(t, P.RingQ(), N, q, tp)
	}
}

func galois(t *h.T, P rlwe.Parameters) {
	m := P.RingQ().NthRoot
	pow := func(k int) uint64 { // 5^k modulo m, k of any sign
		ord := int(m / 4) // order of 5 modulo a power of two
		e := ((k % ord) + ord) % ord
		r := uint64(1)
		for i := 0; i < e; i++ {
			r = r * 5 % m
		}
		return r
	}
	ks := []int{1 << 40, -(1 << 40), math.MaxInt32, math.MinInt32 + 1, 12345, -54321}
	for k := -2*int(m) - 1; k <= 2*int(m)+1; k++ {
		ks = append(ks, k)
	}
	if m > 1024 {
		ks = ks[:6]
		for k := -70; k < 70; k++ {
			ks = append(ks, k, int(m)/4+k)
		}
	}
	for _, k := range ks {
		g := P.GaloisElementForColumnRotationBy(k)
		t.Check(g == pow(k), "galois/rotation", "rotation by %d: element %d want %d (modulo %d)", k, g, pow(k), m)
		inv := P.InverseGaloisElement(g)
		t.Check(inv == pow(-k), "galois/inverse", "inverse of rotation by %d: %d want %d", k, inv, pow(-k))
		t.Eval(2)
	}
	for g := uint64(1); g < m && g < 8192; g += 2 {
		i := P.InverseGaloisElement(g)
		t.Check(i < m && g*i%m == 1, "galois/inverse", "inverse of %d modulo %d: %d", g, m, i)
		t.Eval(1)
	}
	var want []uint64
	if P.RingType() == ring.Standard {
		t.Check(P.GaloisElementForRowRotation() == m-1, "galois/row", "%d", P.GaloisElementForRowRotation())
		for i := 0; i < P.LogN()-1; i++ {
			want = append(want, pow(1<<uint(i)))
		}
		want = append(want, m-1)
	} else {
		t.Check(h.Panics(func() { P.GaloisElementForRowRotation() }) != nil, "galois/row", "row rotation exists in the conjugate-invariant ring")
		for i := 0; i < P.LogN(); i++ {
			want = append(want, pow(1<<uint(i)))
		}
	}
	t.Check(reflect.DeepEqual(P.GaloisElementsForRowInnerSum(), want), "galois/innersum", "%v want %v", P.GaloisElementsForRowInnerSum(), want)
	t.State("galois", m, P.RingType())
}

// ---------- literals ----------

type opt struct {
	name string
	v    []uint64
	l    []int
}

func literals(t *h.T, logN int, tp ring.Type) {
	qs := [][]uint64{nil, {}, {193, 257}, {97, 12289}, {97, 97}, {12289}, {100}}
	ps := [][]uint64{nil, {}, {65537}, {12289}, {101}}
	lqs := [][]int{nil, {}, {20}, {30, 20, 30}, {60, 60}, {61}, {62}, {0}, {-3}, {20, 20, 20}, {7, 8}}
	lps := [][]int{nil, {}, {20}, {61, 61}, {62}, {0}, {31}, {7}}
	for _, q := range qs {
		for _, p := range ps {
			for _, lq := range lqs {
				for _, lp := range lps {
					for k, hs := range [][2]float64{{0, 0}, {5, 1.5}} {
						if k == 1 && (len(q) > 1 || len(lq) > 1) {
							continue
						}
						t.Eval(1)
						literal(t, logN, tp, q, p, lq, lp, int(hs[0]), hs[1])
					}
				}
			}
		}
	}
}

func cp(s []uint64) []uint64 {
	if s == nil {
		return nil
	}
	return append([]uint64{}, s...)
}

func literal(t *h.T, logN int, tp ring.Type, q, p []uint64, lq, lp []int, hw int, sigma float64) {
	lit := rlwe.ParametersLiteral{LogN: logN, Q: cp(q), P: cp(p), LogQ: lq, LogP: lp, H: hw, Sigma: sigma, RingType: tp}
	what := fmt.Sprintf("literal logN=%d type=%d Q=%v P=%v LogQ=%v LogP=%v", logN, tp, q, p, lq, lp)
	if q == nil {
		what += " (Q nil)"
	}
	// reference
	want := true
	wq, wp := cp(q), cp(p)
	switch {
	case q != nil && p != nil && lq == nil && lp == nil:
	case q == nil && p == nil && lq != nil && lp != nil:
		lg := logN
		if tp == ring.ConjugateInvariant {
			lg++
		}
		if lg > rlwe.MaxLogN || lg < rlwe.MinLogN {
			want = false
		}
		for _, s := range lq {
			want = want && s > 0 && s <= 60
		}
		for _, s := range lp {
			want = want && s > 0 && s <= 61
		}
		if want {
			need := map[int]int{}
			for _, s := range append(append([]int{}, lq...), lp...) {
				need[s]++
			}
			src := map[int][]uint64{}
			for s, n := range need {
				if s <= lg {
					return // sizes below the root order: no size to match
				}
				src[s] = genPrimes(s, 2<<uint(lg), n)
			}
			for _, s := range lq {
				wq, src[s] = append(wq, src[s][0]), src[s][1:]
			}
			for _, s := range lp {
				wp, src[s] = append(wp, src[s][0]), src[s][1:]
			}
		}
	default:
		want = false
	}
	want = want && paramsOK(logN, wq, wp, tp)
	var P rlwe.Parameters
	var err error
	pan := h.Panics(func() { P, err = rlwe.NewParametersFromLiteral(lit) })
	t.Check(pan == nil, "literal/panic", "%s panics: %v", what, pan)
	t.Check((err == nil) == want, "literal/valid", "%s: err=%v, requirements met: %v", what, err, want)
	if !want {
		t.Check(empty(P), "literal/empty", "%s returns %s with the error %v", what, show(P), err)
	} else {
		if hw == 0 {
			hw = 1 << uint(logN-1)
		}
		if sigma == 0 {
			sigma = rlwe.DefaultSigma
		}
		describe(t, P, logN, wq, wp, hw, sigma, tp)
		t.State("lit", logN, tp, wq, wp, hw)
	}
	// the ckks literal adds slots and scale
	if hw == 5 || len(q) > 1 || len(lq) == 3 {
		for ls := -1; ls <= logN+1; ls++ {
			cl := ckks.ParametersLiteral{LogN: logN, Q: cp(q), P: cp(p), LogQ: lq, LogP: lp, H: lit.H, Sigma: lit.Sigma, RingType: tp, LogSlots: ls, DefaultScale: 1 << 20}
			max := logN - 1
			if tp == ring.ConjugateInvariant {
				max = logN
			}
			wls := ls
			if ls == 0 {
				wls = max
			}
			cok := want && wls >= 0 && wls <= max
			var C ckks.Parameters
			var cerr error
			pan := h.Panics(func() { C, cerr = ckks.NewParametersFromLiteral(cl) })
			t.Check(pan == nil, "ckks-literal/panic", "%s LogSlots=%d panics: %v", what, ls, pan)
			t.Check((cerr == nil) == cok, "ckks-literal/valid", "%s LogSlots=%d: err=%v, requirements met: %v", what, ls, cerr, cok)
			t.Eval(1)
			if !cok {
				t.Check(empty(C.Parameters) && C.LogSlots() == 0 && C.DefaultScale() == 0, "ckks-literal/empty", "%s LogSlots=%d returns a set with the error %v", what, ls, cerr)
				continue
			}
			ckksDesc(t, C, P, wls, 1<<20)
		}
		if C, cerr := ckks.NewParameters(rlwe.Parameters{}, 2, 1); cerr == nil || !empty(C.Parameters) {
			t.Fail("ckks-new/empty", "NewParameters accepts empty parameters")
		}
		if want {
			for ls := -1; ls <= logN+1; ls++ {
				max := logN - 1
				if tp == ring.ConjugateInvariant {
					max = logN
				}
				C, cerr := ckks.NewParameters(P, ls, 3.5)
				ok := ls >= 0 && ls <= max
				t.Check((cerr == nil) == ok, "ckks-new/valid", "%s NewParameters(logSlots=%d): %v", what, ls, cerr)
				if ok {
					ckksDesc(t, C, P, ls, 3.5)
				}
			}
		}
	}
}

func ckksDesc(t *h.T, C ckks.Parameters, P rlwe.Parameters, ls int, scale float64) {
	eq := func(name string, got, want interface{}) {
		t.Check(reflect.DeepEqual(got, want), "ckks-derived/"+name, "%s logSlots=%d: got %v want %v", show(P), ls, got, want)
	}
	eq("rlwe", C.Parameters.Equals(P), true)
	eq("LogSlots", C.LogSlots(), ls)
	eq("Slots", C.Slots(), 1<<uint(ls))
	eq("DefaultScale", C.DefaultScale(), scale)
	max := P.LogN() - 1
	if P.RingType() == ring.ConjugateInvariant {
		max = P.LogN()
	}
	eq("MaxSlots", C.MaxSlots(), 1<<uint(max))
	eq("MaxLogSlots", C.MaxLogSlots(), max)
	eq("MaxLevel", C.MaxLevel(), P.QCount()-1)
	for l := 0; l < P.QCount(); l++ {
		eq("QLvl", C.QLvl(l).String(), ref.Prod(P.Q()[:l+1]).String())
		eq("LogQLvl", C.LogQLvl(l), ref.Prod(P.Q()[:l+1]).BitLen())
	}
	s, err := C.StandardParameters()
	eq("StandardParameters", err, nil)
	ps, _ := P.StandardParameters()
	eq("StandardParameters", s.Parameters.Equals(ps) && s.LogSlots() == ls && s.DefaultScale() == scale, true)
	c := C.CopyNew()
	eq("CopyNew", c.Equals(C), true)
	for batch := -3; batch <= 3; batch++ {
		for n := 0; n < 6; n++ {
			want, rep := []int{}, []int{}
			for i := 1; i < n; i++ {
				want, rep = append(want, i*batch), append(rep, -i*batch)
			}
			eq("RotationsForInnerSum", C.RotationsForInnerSum(batch, n), want)
			eq("RotationsForReplicate", C.RotationsForReplicate(batch, n), rep)
		}
	}
	for batch := -3; batch <= 4; batch++ {
		for n := 0; n < 40; n++ {
			innerSumLog(t, "RotationsForInnerSumLog", C.RotationsForInnerSumLog(batch, n), batch, n)
			innerSumLog(t, "RotationsForReplicateLog", C.RotationsForReplicateLog(batch, n), -batch, n)
		}
	}
	if P.PCount() > 0 {
		rp := ckks.GenSwitchkeysRescalingParams(P.Q(), P.P())
		pp := ref.Prod(P.P())
		for i, q := range P.Q() {
			qb := new(big.Int).SetUint64(q)
			x := new(big.Int).ModInverse(pp, qb) // P^-1, in Montgomery form
			x.Mod(x.Lsh(x, 64), qb)
			if rp[i] != x.Uint64() {
				eq("GenSwitchkeysRescalingParams", rp[i], x.Uint64())
			}
		}
	}
	for a := 0; a < 4; a++ {
		for b := 0; b < 6; b++ {
			want := []int{}
			for i := a; i < b; i++ {
				want = append(want, 1<<uint(i))
			}
			eq("RotationsForTrace", C.RotationsForTrace(a, b), want)
		}
	}
	t.Eval(30)
}

// innerSumLog checks that the rotations are distinct multiples of batch that let the doubling algorithm sum
// n batches: every rotation it makes is in the set, and the set has at most two per doubling.
func innerSumLog(t *h.T, name string, got []int, batch, n int) {
	in := map[int]bool{}
	for _, k := range got {
		if batch != 0 && (k%batch != 0 || k/batch > n || k/batch < 0) {
			t.Fail("params/"+name, "batch %d n %d: rotation %d", batch, n, k)
		}
		if in[k] {
			t.Fail("params/"+name, "batch %d n %d: rotation %d twice", batch, n, k)
		}
		in[k] = true
	}
	steps := 0
	sum, acc := 1, 0 // sum: batches in the doubled value; acc: in the result
	for j := n; j > 1; j >>= 1 {
		steps++
	}
	if len(got) > 2*steps+2 {
		t.Fail("params/"+name, "batch %d n %d: %d rotations", batch, n, len(got))
	}
	for i, j := 0, n; j > 0 && n > 1; i, j = i+1, j>>1 {
		if j&1 == 1 {
			k := n - n&(2<<uint(i)-1)
			if k != 0 && !in[k*batch] {
				t.Fail("params/"+name, "batch %d n %d: rotation by %d is missing from %v", batch, n, k*batch, got)
			}
			acc += sum
		}
		if j != 1 {
			if !in[(1<<uint(i))*batch] {
				t.Fail("params/"+name, "batch %d n %d: rotation by %d is missing from %v", batch, n, (1<<uint(i))*batch, got)
			}
			sum *= 2
		}
	}
	if n > 1 && acc != n {
		t.Fail("params/"+name, "harness: %d of %d batches", acc, n)
	}
	t.Eval(1)
}

// fast schemes: construction panics exactly on invalid literals.
func fast(t *h.T, logN int) {
	m := uint64(2) << uint(logN)
	qs := [][]uint64{{}, ru.Mixed(m, 30, 30, 40), {100}}
	ps := [][]uint64{{}, ru.Mixed(m, 45), ru.Mixed(m, 30)[:1]}
	ts := [][]uint64{nil, ru.Mixed(m, 60, 61), {100}, {1<<60 + 33}}
	for _, q := range qs {
		for _, p := range ps {
			for _, T := range ts {
				for _, gamma := range []int{1, 3} {
					lit := frlwe.ParametersLiteral{LogN: logN, Q: cp(q), P: cp(p), T: cp(T), Sigma: 3.2, H: 6, Gamma: gamma}
					want := paramsOK(logN, q, p, ring.Standard) && ringOK(1<<uint(logN), T, ring.Standard)
					var P frlwe.Parameters
					pan := h.Panics(func() { P = frlwe.NewParametersFromLiteral(lit) })
					t.Eval(1)
					t.Check((pan == nil) == want, "frlwe/valid", "Q=%v P=%v T=%v: panic %v, requirements met: %v", q, p, T, pan, want)
					fl := fckks.ParametersLiteral{LogN: logN, Q: cp(q), P: cp(p), T: cp(T), Sigma: 3.2, H: 6, Gamma: gamma, LogSlots: 2, DefaultScale: 1 << 25}
					var F fckks.Parameters
					pan = h.Panics(func() { F = fckks.NewParametersFromLiteral(fl) })
					t.Check((pan == nil) == want, "fckks/valid", "Q=%v P=%v T=%v: panic %v, requirements met: %v", q, p, T, pan, want)
					if !want {
						continue
					}
					r := append(cp(p), q...)
					describe(t, P.Parameters, logN, q, p, 6, 3.2, ring.Standard)
					ringDesc(t, P.RingR(), 1<<uint(logN), r, ring.Standard)
					ringDesc(t, P.RingT(), 1<<uint(logN), T, ring.Standard)
					t.Check(P.Gamma() == gamma, "frlwe/gamma", "%d", P.Gamma())
					for l := range T {
						mx := uint64(0)
						for _, v := range T[:l+1] {
							if v > mx {
								mx = v
							}
						}
						w := int(math.MaxUint64 / mx)
						t.Check(P.TiOverflowMargin(l) == w, "frlwe/TiOverflowMargin", "%d want %d", P.TiOverflowMargin(l), w)
					}
					ringDesc(t, F.RingR(), 1<<uint(logN), r, ring.Standard)
					ckksDesc(t, F.Parameters, P.Parameters, 2, 1<<25)
					t.State("fast", logN, q, p, T, gamma)
				}
			}
		}
	}
	// by sizes
	P := frlwe.NewParametersFromLiteral(frlwe.ParametersLiteral{LogN: logN, LogQ: []int{40, 30, 30}, LogP: []int{45, 46}, T: ru.Mixed(m, 60, 61), Sigma: 2, H: 7, Gamma: 2})
	g30, g40, g45, g46 := genPrimes(30, m, 2), genPrimes(40, m, 1), genPrimes(45, m, 1), genPrimes(46, m, 1)
	q, p := []uint64{g40[0], g30[0], g30[1]}, []uint64{g45[0], g46[0]}
	describe(t, P.Parameters, logN, q, p, 7, 2, ring.Standard)
	ringDesc(t, P.RingR(), 1<<uint(logN), append(cp(p), q...), ring.Standard)
}

// ---------- equality ----------

func equality(t *h.T) {
	type comp struct {
		logN   int
		q, p   []uint64
		h      int
		sigma  float64
		tp     ring.Type
		ls     int
		scale  float64
		params ckks.Parameters
	}
	var fam []comp
	qs := [][]uint64{{193}, {257}, {193, 257}, {257, 193}, {193, 257, 12289}, {12289, 193}, {1<<60 + 33*32*2*0 + 33, 193}}
	ps := [][]uint64{{}, {65537}, {65537, 7681}, {7681}, {7681, 65537}}
	for _, logN := range []int{4, 5} {
		for _, q := range qs {
			for _, p := range ps {
				for _, hs := range []int{4, 5} {
					for _, sg := range []float64{0, 3.2, 3.3} {
						for _, tp := range []ring.Type{ring.Standard, ring.ConjugateInvariant} {
							for _, ls := range []int{1, 2} {
								for _, sc := range []float64{1 << 20, 1<<20 + 0.5} {
									if !paramsOK(logN, q, p, tp) || (sg == 3.3 && len(p) > 0) || (sc != 1<<20 && len(q) > 2) {
										continue
									}
									P, err := rlwe.NewParameters(logN, q, p, hs, sg, tp)
									t.Check(err == nil, "equal/build", "%v", err)
									C, err := ckks.NewParameters(P, ls, sc)
									t.Check(err == nil, "equal/build", "%v", err)
									fam = append(fam, comp{logN, q, p, hs, sg, tp, ls, sc, C})
								}
							}
						}
					}
				}
			}
		}
	}
	for i, a := range fam {
		for j, b := range fam {
			r := a.logN == b.logN && fmt.Sprint(a.q, a.p) == fmt.Sprint(b.q, b.p) && a.h == b.h && a.sigma == b.sigma && a.tp == b.tp
			c := r && a.ls == b.ls && a.scale == b.scale
			t.Check(c == (i == j), "equal/family", "family not distinct at %d %d", i, j)
			if a.params.Parameters.Equals(b.params.Parameters) != r {
				t.Fail("equal/rlwe", "%s and %s: Equals is %v", show(a.params.Parameters), show(b.params.Parameters), !r)
			}
			if a.params.Equals(b.params) != c {
				t.Fail("equal/ckks", "%s and %s, slots %d %d scale %g %g: Equals is %v", show(a.params.Parameters), show(b.params.Parameters), a.ls, b.ls, a.scale, b.scale, !c)
			}
			t.Eval(2)
		}
		t.State("eq", i)
		// rebuilt from scratch
		P, _ := rlwe.NewParameters(a.logN, a.q, a.p, a.h, a.sigma, a.tp)
		t.Check(P.Equals(a.params.Parameters), "equal/rlwe", "%s differs from the same set built again", show(P))
		t.Check(!P.Equals(rlwe.Parameters{}) && !(rlwe.Parameters{}).Equals(P), "equal/rlwe", "equal to the empty set")
	}
}

// ---------- primes ----------

func isprime(t *h.T, lo, hi uint64) {
	for x := lo; x < hi; x++ {
		if ring.IsPrime(x) != prime(x) {
			t.Fail("isprime", "IsPrime(%d) = %v", x, !prime(x))
		}
		t.Eval(1)
	}
	t.State("isprime", lo)
}

func trial(n uint64) bool {
	if n < 2 {
		return false
	}
	for d := uint64(2); d*d <= n; d++ {
		if n%d == 0 {
			return false
		}
	}
	return true
}

func primesOf(t *h.T, logQ, logM int) {
	m := uint64(1) << uint(logM)
	for _, n := range []int{1, 2, 3, 5, 9} {
		want := genPrimes(logQ, m, n)
		if want == nil {
			continue
		}
		if logQ == 61 && (want[len(want)-1] == 0 || logM > 40) {
			continue
		}
		got := ring.GenerateNTTPrimes(logQ, int(m), n)
		t.Check(reflect.DeepEqual(got, want), "genprimes", "GenerateNTTPrimes(%d,2^%d,%d) = %v want %v", logQ, logM, n, got, want)
		if logQ < 61 {
			t.Check(reflect.DeepEqual(ring.GenerateNTTPrimesQ(logQ, int(m), n), want), "genprimes/Q", "GenerateNTTPrimesQ(%d,2^%d,%d)", logQ, logM, n)
		}
		t.Check(distinct(got), "genprimes/distinct", "%v", got)
		for _, q := range got {
			t.Check(prime(q) && q%m == 1, "genprimes/form", "%d", q)
		}
		// downward search
		var down []uint64
		for k := uint64(1); len(down) < n && k*m < uint64(1)<<uint(logQ)+1 && k < 1<<20; k++ {
			if x := uint64(1)<<uint(logQ) + 1 - k*m; prime(x) {
				down = append(down, x)
			}
		}
		if len(down) == n {
			g := ring.GenerateNTTPrimesP(logQ, int(m), n)
			t.Check(reflect.DeepEqual(g, down), "genprimes/P", "GenerateNTTPrimesP(%d,2^%d,%d) = %v want %v", logQ, logM, n, g, down)
		}
		t.Eval(3)
		t.State("gen", logQ, logM, n)
		for _, q := range got {
			next, prev := q+m, int64(q)-int64(m)
			for !prime(next) && bits.Len64(next) <= 61 {
				next += m
			}
			for prev > 0 && !prime(uint64(prev)) {
				prev -= int64(m)
			}
			g, err := ring.NextNTTPrime(q, int(m))
			if bits.Len64(next) <= 61 {
				t.Check(err == nil && g == next, "nextprime", "NextNTTPrime(%d,2^%d) = %d, %v want %d", q, logM, g, err, next)
			} else {
				t.Check(err != nil && g == 0, "nextprime", "NextNTTPrime(%d,2^%d) = %d, %v want an error", q, logM, g, err)
			}
			g, err = ring.PreviousNTTPrime(q, int(m))
			if prev > 1 {
				t.Check(err == nil && g == uint64(prev), "prevprime", "PreviousNTTPrime(%d,2^%d) = %d, %v want %d", q, logM, g, err, prev)
			} else {
				t.Check(err != nil && g == 0, "prevprime", "PreviousNTTPrime(%d,2^%d) = %d, %v want an error", q, logM, g, err)
			}
			t.Eval(2)
		}
	}
}

func primeChains(t *h.T) {
	// all primes of the form below 2^16 and around 2^61, walked in both directions
	for _, m := range []uint64{32, 64, 256} {
		var ps []uint64
		for x := m + 1; x < 1<<14; x += m {
			if prime(x) {
				ps = append(ps, x)
			}
		}
		for i, q := range ps {
			if i+1 < len(ps) {
				n, err := ring.NextNTTPrime(q, int(m))
				t.Check(err == nil && n == ps[i+1], "nextprime", "after %d: %d", q, n)
			}
			p, err := ring.PreviousNTTPrime(q, int(m))
			if i > 0 {
				t.Check(err == nil && p == ps[i-1], "prevprime", "before %d: %d", q, p)
			} else {
				t.Check(err != nil && p == 0, "prevprime", "before the first prime %d: %d %v", q, p, err)
			}
			t.Eval(2)
		}
		var top []uint64
		for x := uint64(1)<<61 + 1 - m; len(top) < 12; x -= m {
			if prime(x) {
				top = append(top, x)
			}
		}
		for i, q := range top {
			n, err := ring.NextNTTPrime(q, int(m))
			if i == 0 {
				t.Check(err != nil && n == 0, "nextprime", "after the last prime %d: %d %v", q, n, err)
			} else {
				t.Check(err == nil && n == top[i-1], "nextprime", "after %d: %d", q, n)
			}
			t.Eval(1)
		}
		t.State("chain", m)
	}
}

func moduliSizes(t *h.T) {
	for _, logN := range []int{4, 5, 7, 12} {
		for a := logN + 1; a <= 60; a += 5 {
			for b := a; b <= 61; b += 3 {
				lq := []int{a}
				if b <= 60 {
					lq = append(lq, b, a)
				}
				lp := []int{b, a}
				q, p, err := rlwe.GenModuli(logN, lq, lp)
				need := map[int]int{}
				for _, s := range append(append([]int{}, lq...), lp...) {
					need[s]++
				}
				src := map[int][]uint64{}
				for s, n := range need {
					src[s] = genPrimes(s, 2<<uint(logN), n)
				}
				var wq, wp []uint64
				for _, s := range lq {
					wq, src[s] = append(wq, src[s][0]), src[s][1:]
				}
				for _, s := range lp {
					wp, src[s] = append(wp, src[s][0]), src[s][1:]
				}
				t.Check(err == nil && reflect.DeepEqual(q, wq) && reflect.DeepEqual(p, wp), "genmoduli", "GenModuli(%d,%v,%v) = %v %v %v want %v %v", logN, lq, lp, q, p, err, wq, wp)
				t.Eval(1)
				t.State("genmoduli", logN, a, b)
			}
		}
	}
	for _, l := range [][]int{{61}, {0}, {-1}, {70}} {
		_, _, err := rlwe.GenModuli(4, l, []int{20})
		t.Check(err != nil, "genmoduli/size", "GenModuli accepts LogQ=%v", l)
	}
	for _, l := range [][]int{{62}, {0}, {-1}, {70}} {
		_, _, err := rlwe.GenModuli(4, []int{20}, l)
		t.Check(err != nil, "genmoduli/size", "GenModuli accepts LogP=%v", l)
	}
	for _, n := range []int{-1, 0, 3, 18, 30} {
		_, _, err := rlwe.GenModuli(n, []int{30}, []int{30})
		t.Check(err != nil, "genmoduli/logn", "GenModuli accepts logN=%d", n)
	}
	// chain length limits
	q := ref.PrimesBelow(40, 32, 202)
	for _, n := range []int{99, 100, 101} {
		for _, k := range []int{0, 1, 100, 101} {
			oneParam(t, 4, q[:n], q[101:101+k], ring.Standard)
		}
	}
	// CheckModuli alone: a bad modulus at every position of chains of every length
	for nq := 1; nq <= 4; nq++ {
		for np := 0; np <= 3; np++ {
			for at := 0; at < nq+np; at++ {
				for _, bad := range []uint64{ref.PrimesBelow(62, 32, 1)[0], ref.PrimesBelow(63, 32, 1)[0], 1<<40 + 15, 1<<61 - 33, 1, 0, q[at] * 3} {
					ch := append([]uint64{}, q[:nq+np]...)
					ch[at] = bad
					want := prime(bad) && bits.Len64(bad) <= 61
					err := rlwe.CheckModuli(ch[:nq], ch[nq:])
					t.Check((err == nil) == want, "checkmoduli", "CheckModuli with %d at position %d of %d+%d: %v", bad, at, nq, np, err)
					_, err = rlwe.NewParameters(4, ch[:nq], ch[nq:], 5, 3.2, ring.Standard)
					t.Check(err == nil == (want && bad%32 == 1), "params/position", "NewParameters with %d at position %d of %d+%d: %v", bad, at, nq, np, err)
					t.Eval(1)
				}
				for dup := 0; dup < nq; dup++ {
					if at < nq {
						continue
					}
					ch := append([]uint64{}, q[:nq+np]...)
					ch[at] = ch[dup]
					err := rlwe.CheckModuli(ch[:nq], ch[nq:])
					t.Check(err != nil, "checkmoduli", "CheckModuli with equal primes at %d and %d of %d+%d", dup, at, nq, np)
				}
			}
		}
	}
	for _, a := range []uint64{97, 1<<60 + 33, 1<<61 - 31, ref.PrimesBelow(61, 32, 1)[0], ref.PrimesBelow(62, 32, 1)[0], ref.PrimesBelow(63, 32, 1)[0], uint64(0xFFFFFFFF00000001), 1 << 60, 99} {
		for _, b := range []uint64{193, 1<<60 + 33, ref.PrimesBelow(61, 32, 1)[0], ref.PrimesBelow(62, 32, 1)[0], uint64(0xFFFFFFFF00000001), 1<<61 + 1, 99} {
			want := prime(a) && prime(b) && bits.Len64(a) <= 61 && bits.Len64(b) <= 61 && a != b
			err := rlwe.CheckModuli([]uint64{257, a}, []uint64{b, 12289})
			t.Check((err == nil) == want, "checkmoduli", "CheckModuli with %d and %d: %v", a, b, err)
			t.Eval(1)
		}
	}
}

// decode of malformed encodings: an error, no panic, receiver not usable
func malformed(t *h.T, tp ring.Type) {
	P, _ := rlwe.NewParameters(4, []uint64{193, 257}, []uint64{12289}, 5, 3.2, tp)
	C, _ := ckks.NewParameters(P, 3, 1<<20)
	rb, _ := P.MarshalBinary()
	cb, _ := C.MarshalBinary()
	for n := 0; n < len(rb); n++ {
		var R rlwe.Parameters
		var err error
		pan := h.Panics(func() { err = R.UnmarshalBinary(rb[:n:n]) })
		t.Check(pan == nil && err != nil, "decode/truncated", "rlwe encoding cut to %d of %d bytes: err=%v panic=%v", n, len(rb), err, pan)
		t.Check(empty(R), "decode/truncated", "a set comes with the error")
		t.Eval(1)
	}
	for n := 0; n < len(cb); n++ {
		var R ckks.Parameters
		var err error
		pan := h.Panics(func() { err = R.UnmarshalBinary(cb[:n:n]) })
		t.Check(pan == nil && err != nil, "decode/truncated", "ckks encoding cut to %d of %d bytes: err=%v panic=%v", n, len(cb), err, pan)
		t.Check(empty(R.Parameters), "decode/truncated", "a set comes with the error")
		t.Eval(1)
	}
	// every single-byte corruption either fails or decodes to a valid set
	for i := range rb {
		for _, x := range []byte{1, 2, 4, 8, 16, 32, 64, 128, 255} {
			d := append([]byte{}, rb...)
			d[i] ^= x
			if i == 0 && d[0] > 12 && d[0] <= 17 {
				continue // needs large rings
			}
			var R rlwe.Parameters
			var err error
			pan := h.Panics(func() { err = R.UnmarshalBinary(d) })
			t.Check(pan == nil, "decode/corrupted", "byte %d xor %x panics: %v", i, x, pan)
			if err == nil {
				t.Check(paramsOK(R.LogN(), R.Q(), R.P(), R.RingType()), "decode/corrupted", "byte %d xor %x decodes to the invalid set %s", i, x, show(R))
			} else {
				t.Check(empty(R), "decode/corrupted", "byte %d xor %x: a set comes with the error", i, x)
			}
			t.Eval(1)
		}
	}
	t.State("malformed", tp)
}

// the named default sets
func defaults(t *h.T, name string, l ckks.ParametersLiteral, logQP int) {
	C, err := ckks.NewParametersFromLiteral(l)
	t.Check(err == nil, "defaults/valid", "%s: %v", name, err)
	t.Check(C.LogQP() <= logQP+1, "defaults/size", "%s: logQP=%d", name, C.LogQP())
	describe(t, C.Parameters, l.LogN, l.Q, l.P, 1<<uint(l.LogN-1), rlwe.DefaultSigma, l.RingType)
	galois(t, C.Parameters)
	max := l.LogN - 1
	if l.RingType == ring.ConjugateInvariant {
		max = l.LogN
	}
	t.Check(C.LogSlots() == max && C.DefaultScale() == l.DefaultScale, "defaults/slots", "%s", name)
	t.State(name)
	t.Eval(1)
}

func run(c *h.Ctx) {
	ml := 2
	if c.Thorough {
		ml = 3
	}
	for _, N := range []int{-16, -1, 0, 1, 2, 8, 12, 15, 16, 17, 24, 32, 48, 64, 128} {
		for _, tp := range []ring.Type{ring.Standard, ring.ConjugateInvariant, ring.Type(2), ring.Type(-1)} {
			N, tp := N, tp
			c.Case("rings", fmt.Sprintf("rings/N=%d/type=%d", N, tp), func(t *h.T) { rings(t, N, tp, ml) })
		}
	}
	for _, logN := range []int{-1, 0, 1, 3, 4, 5, 6, 18, 20} {
		for _, tp := range []ring.Type{ring.Standard, ring.ConjugateInvariant, ring.Type(2)} {
			logN, tp := logN, tp
			mp := 1
			if c.Thorough {
				mp = 2
			}
			c.Case("params", fmt.Sprintf("params/logN=%d/type=%d", logN, tp), func(t *h.T) { params(t, logN, tp, 2, mp) })
			c.Case("literals", fmt.Sprintf("literals/logN=%d/type=%d", logN, tp), func(t *h.T) { literals(t, logN, tp) })
		}
	}
	big17 := ref.PrimesBelow(40, 1<<19, 3)
	c.Case("params", "params/logN=17", func(t *h.T) { oneParam(t, 17, big17[:1], nil, ring.Standard) })
	c.Case("params", "params/logN=16", func(t *h.T) { oneParam(t, 16, big17[:1], big17[1:2], ring.Standard) })
	c.Case("params", "params/logN=15", func(t *h.T) { oneParam(t, 15, big17[:2], big17[2:], ring.ConjugateInvariant) })
	for _, logN := range []int{4, 5, 7} {
		logN := logN
		c.Case("fast", fmt.Sprintf("fast/logN=%d", logN), func(t *h.T) { fast(t, logN) })
	}
	for _, logN := range []int{4, 5, 6, 7, 8, 10, 13} {
		for _, tp := range []ring.Type{ring.Standard, ring.ConjugateInvariant} {
			logN, tp := logN, tp
			c.Case("galois", fmt.Sprintf("galois/logN=%d/type=%d", logN, tp), func(t *h.T) {
				P, err := rlwe.NewParameters(logN, ref.PrimesBelow(40, 4<<uint(logN), 1), nil, 4, 3.2, tp)
				t.Check(err == nil, "galois/build", "%v", err)
				galois(t, P)
			})
		}
	}
	c.Case("equality", "equality", equality)
	st := uint64(1 << 15)
	top := uint64(1 << 19)
	if c.Thorough {
		top = 1 << 24
		st = 1 << 19
	}
	for lo := uint64(0); lo < top; lo += st {
		lo := lo
		c.Case("isprime", fmt.Sprintf("isprime/%d", lo), func(t *h.T) { isprime(t, lo, lo+st) })
	}
	for b := 20; b <= 64; b++ {
		b := b
		c.Case("isprime", fmt.Sprintf("isprime/2^%d", b), func(t *h.T) {
			x := uint64(1)<<uint(b%64) - 2000
			isprime(t, x, x+1999)
			if b < 64 {
				isprime(t, uint64(1)<<uint(b), uint64(1)<<uint(b)+2000)
			}
		})
	}
	c.Case("isprime", "isprime/pseudoprimes", func(t *h.T) {
		// strong pseudoprimes to several bases, Carmichael numbers, strong Lucas pseudoprimes, squares and products of close primes
		for _, x := range []uint64{561, 1105, 1729, 2465, 2821, 6601, 8911, 41041, 825265, 321197185, 2047, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051, 5459, 5777, 10877, 16109, 18971, 22499, 24569, 25199, 40309, 58519, 75077, 97439, 323, 377, 1159, 1829, 3827, 4294967297, 18446744073709551615} {
			t.Check(!ring.IsPrime(x), "isprime", "IsPrime(%d)", x)
			t.Eval(1)
		}
		ps := ref.PrimesBelow(31, 32, 20)
		for _, a := range ps {
			for _, b := range ps {
				t.Check(!ring.IsPrime(a*b), "isprime", "IsPrime(%d*%d)", a, b)
				t.Eval(1)
			}
		}
		for x := uint64(0); x < 1<<14; x++ {
			t.Check(trial(x) == prime(x), "oracle", "%d", x)
		}
		t.State("pseudo")
	})
	for logM := 5; logM <= 18; logM++ {
		for logQ := logM; logQ <= 61; logQ++ {
			if !c.Thorough && (logM > 8 && logM%3 != 0 || logQ%2 == 1 && logQ < 58 && logQ > logM+2) {
				continue
			}
			logM, logQ := logM, logQ
			c.Case("primes", fmt.Sprintf("primes/logQ=%d/logM=%d", logQ, logM), func(t *h.T) { primesOf(t, logQ, logM) })
		}
	}
	c.Case("primes", "primes/chains", primeChains)
	c.Case("primes", "primes/too-large", func(t *h.T) {
		for _, b := range []int{62, 63, 64} {
			t.Check(h.Panics(func() { ring.GenerateNTTPrimes(b, 32, 1) }) != nil, "genprimes/size", "primes of %d bits", b)
			t.Eval(1)
		}
	})
	c.Case("moduli", "moduli/sizes", moduliSizes)
	for _, tp := range []ring.Type{ring.Standard, ring.ConjugateInvariant} {
		tp := tp
		c.Case("malformed", fmt.Sprintf("malformed/type=%d", tp), func(t *h.T) { malformed(t, tp) })
	}
	type d struct {
		n string
		l ckks.ParametersLiteral
		b int
	}
	for _, x := range []d{{"PN12QP109", ckks.PN12QP109, 109}, {"PN12QP109CI", ckks.PN12QP109CI, 109}, {"PN12QP101pq", ckks.PN12QP101pq, 101}, {"PN12QP101CIpq", ckks.PN12QP101CIpq, 101},
		{"PN13QP218", ckks.PN13QP218, 218}, {"PN13QP218CI", ckks.PN13QP218CI, 218}, {"PN13QP202pq", ckks.PN13QP202pq, 202}, {"PN13QP202CIpq", ckks.PN13QP202CIpq, 202},
		{"PN14QP438", ckks.PN14QP438, 438}, {"PN14QP438CI", ckks.PN14QP438CI, 438}, {"PN14QP411pq", ckks.PN14QP411pq, 411}, {"PN14QP411CIpq", ckks.PN14QP411CIpq, 411},
		{"PN15QP880", ckks.PN15QP880, 880}, {"PN15QP880CI", ckks.PN15QP880CI, 880}, {"PN15QP827pq", ckks.PN15QP827pq, 827}, {"PN15QP827CIpq", ckks.PN15QP827CIpq, 827},
		{"PN16QP1761", ckks.PN16QP1761, 1761}, {"PN16QP1761CI", ckks.PN16QP1761CI, 1761}, {"PN16QP1654pq", ckks.PN16QP1654pq, 1654}, {"PN16QP1654CIpq", ckks.PN16QP1654CIpq, 1654}} {
		x := x
		if x.l.LogN >= 14 && !c.Thorough {
			continue
		}
		c.Case("defaults", "defaults/"+x.n, func(t *h.T) { defaults(t, x.n, x.l, x.b) })
	}
}

func main() {
	h.Main(h.Info{ID: "C12", Level: "exploration",
		Rule:          "every constructor is called on every tuple of its alphabet and its verdict and every derived quantity compared with a definition written independently (deterministic Miller-Rabin, big-integer products, direct powers of the Galois generator)",
		Bounds:        "moduli tuples up to length 2 (thorough 3) over 17 values x degrees valid and invalid x ring types; literals over all combinations of 7x5 explicit chains, 11x8 size lists, slots from -1 to logN+1; all pairs of a family of parameter sets differing in one or more components; IsPrime below 2^19 (2^24) and around every power of two; prime searches for root orders 2^5..2^18 and sizes up to 61 bits; every truncation and every one-bit corruption of an encoded set; the named default sets up to logN 13 (16)",
		Assumptions:   []string{"a ring for moduli without NTT may be returned together with the error (existing tests require it); it must not allow the NTT", "size requests below the root order are outside the alphabet"},
		QuickDeadline: 100, ThoroughDeadline: 800}, run)
}
