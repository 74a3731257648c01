// C19: objects are values: construction, copies, comparison, resizing.
package main

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strings"

	"fast-ksw/ckks"
	"fast-ksw/fckks"
	"fast-ksw/frlwe"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"fast-ksw/utils"
	"verifharness/h"
	"verifharness/pu"
	"verifharness/ru"
)

// leaf is one slice of coefficients inside an object, with the path leading to it.
type leaf struct {
	path string
	v    []uint64
}

// walk lists the coefficient slices of an object in a fixed order and appends the scalars (flags, scales,
// galois elements, nil pointers) to the skeleton.
func walk(x interface{}) (ls []leaf, skel string) {
	var sb strings.Builder
	var rec func(p string, v reflect.Value)
	rec = func(p string, v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if v.IsNil() {
				fmt.Fprintf(&sb, "%s=nil;", p)
				return
			}
			if b, ok := v.Interface().(*big.Int); ok {
				fmt.Fprintf(&sb, "%s=%v;", p, b)
				return
			}
			rec(p, v.Elem())
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				rec(p+"."+v.Type().Field(i).Name, v.Field(i))
			}
		case reflect.Slice, reflect.Array:
			if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint64 {
				s := v.Interface().([]uint64)
				fmt.Fprintf(&sb, "%s[%d];", p, len(s))
				ls = append(ls, leaf{p, s})
				return
			}
			fmt.Fprintf(&sb, "%s(%d);", p, v.Len())
			for i := 0; i < v.Len(); i++ {
				rec(fmt.Sprintf("%s.%d", p, i), v.Index(i))
			}
		case reflect.Map:
			ks := v.MapKeys()
			sort.Slice(ks, func(i, j int) bool { return ks[i].Uint() < ks[j].Uint() })
			fmt.Fprintf(&sb, "%s{%d};", p, len(ks))
			for _, k := range ks {
				rec(fmt.Sprintf("%s{%d}", p, k.Uint()), v.MapIndex(k))
			}
		default:
			fmt.Fprintf(&sb, "%s=%v;", p, v.Interface())
		}
	}
	rec("", reflect.ValueOf(x))
	return ls, sb.String()
}

// same compares two objects structurally.
func same(a, b interface{}) (bool, string) {
	la, sa := walk(a)
	lb, sb := walk(b)
	if sa != sb {
		return false, fmt.Sprintf("shape or flags differ: %.300s / %.300s", sa, sb)
	}
	for i := range la {
		for j := range la[i].v {
			if la[i].v[j] != lb[i].v[j] {
				return false, fmt.Sprintf("%s[%d] = %d / %d", la[i].path, j, la[i].v[j], lb[i].v[j])
			}
		}
	}
	return true, ""
}

// fill writes distinct values to every coefficient.
func fill(x interface{}, tag string) {
	rng := h.NewRng(tag)
	ls, _ := walk(x)
	for _, l := range ls {
		for j := range l.v {
			l.v[j] = rng.U64()>>4 | 1
		}
	}
}

func snap(x interface{}) [][]uint64 {
	ls, _ := walk(x)
	o := make([][]uint64, len(ls))
	for i := range ls {
		o[i] = append([]uint64{}, ls[i].v...)
	}
	return o
}

func unchanged(x interface{}, was [][]uint64) bool {
	ls, _ := walk(x)
	for i := range ls {
		for j := range ls[i].v {
			if ls[i].v[j] != was[i][j] {
				return false
			}
		}
	}
	return true
}

// isolated checks that writing to either object leaves the other alone, in both directions.
func isolated(t *h.T, name string, a, b interface{}) {
	for k := 0; k < 2; k++ {
		was := snap(b)
		la, _ := walk(a)
		for _, l := range la {
			for j := range l.v {
				l.v[j] ^= 0x5555
			}
			if !unchanged(b, was) {
				t.Fail("shared/"+strings.Fields(name)[0], "%s: writing to %s of one changes the other", name, l.path)
				return
			}
			t.Eval(1)
		}
		for _, l := range la {
			for j := range l.v {
				l.v[j] ^= 0x5555
			}
		}
		a, b = b, a
	}
}

// zero checks that every coefficient is zero and no two slices overlap.
func zero(t *h.T, name string, x interface{}) {
	ls, _ := walk(x)
	for i, l := range ls {
		for j := range l.v {
			if l.v[j] != 0 {
				t.Fail("constructor/"+strings.Fields(name)[0], "%s: %s[%d]=%d, want zero", name, l.path, j, l.v[j])
				return
			}
			l.v[j] = uint64(i + 1)
		}
	}
	for i, l := range ls {
		for j := range l.v {
			if l.v[j] != uint64(i+1) {
				t.Fail("constructor/"+strings.Fields(name)[0], "%s: %s overlaps another component", name, l.path)
				return
			}
			l.v[j] = 0
		}
	}
	t.Eval(1)
}

// sensitive checks that eq(a,b) holds for equal objects and fails in both directions after any single change.
func sensitive(t *h.T, name string, a, b interface{}, eq func(x, y int) bool) {
	fn := "equals/" + strings.Fields(name)[0]
	if !eq(0, 1) || !eq(1, 0) || !eq(0, 0) || !eq(1, 1) {
		t.Fail(fn, "%s: equal objects compare different", name)
		return
	}
	ls, _ := walk(b)
	for _, l := range ls {
		for _, j := range positions(len(l.v)) {
			for _, d := range []uint64{1, 1 << 32, 1 << 63} {
				l.v[j] ^= d
				x, y := eq(0, 1), eq(1, 0)
				l.v[j] ^= d
				t.Eval(2)
				if x || y {
					t.Fail(fn, "%s: objects differing in bit %x of %s[%d] compare equal", name, d, l.path, j)
					return
				}
			}
		}
	}
	t.State(name)
}

func positions(n int) (o []int) {
	for j := 0; j < n; j++ {
		if n <= 16 || j < 2 || j >= n-2 || j == n/2 || j == n/2-1 {
			o = append(o, j)
		}
	}
	return
}

// shape checks the limbs of a polynomial.
func shape(t *h.T, name string, p *ring.Poly, n, limbs int, ntt bool) {
	fn := "constructor/" + strings.Fields(name)[0]
	if p == nil {
		t.Fail(fn, "%s: nil polynomial", name)
		return
	}
	if len(p.Coeffs) != limbs || p.Level() != limbs-1 || p.LenModuli() != limbs || p.IsNTT != ntt || p.IsMForm {
		t.Fail(fn, "%s: %d limbs NTT=%v Montgomery=%v, want %d limbs NTT=%v", name, len(p.Coeffs), p.IsNTT, p.IsMForm, limbs, ntt)
		return
	}
	for i := range p.Coeffs {
		if len(p.Coeffs[i]) != n || p.Degree() != n {
			t.Fail(fn, "%s: limb %d has %d coefficients, want %d", name, i, len(p.Coeffs[i]), n)
			return
		}
	}
}

func shapeQP(t *h.T, name string, p rlwe.PolyQP, n, lq, lp int) {
	shape(t, name+" Q", p.Q, n, lq+1, false)
	if lp < 0 {
		if p.P != nil {
			t.Fail("constructor/"+strings.Fields(name)[0], "%s: has a P part", name)
		}
		return
	}
	shape(t, name+" P", p.P, n, lp+1, false)
}

type layout struct {
	logN, nq, np int
	tp           ring.Type
}

func (l layout) String() string {
	return fmt.Sprintf("N=%d,q%d,p%d,%v", 1<<uint(l.logN), l.nq, l.np, l.tp)
}

func (l layout) spec() pu.Spec {
	m := ru.Mixed(pu.M0(l.logN, l.tp), append(ru.Rep(40, l.nq), ru.Rep(45, l.np)...)...)
	return pu.Spec{Name: l.String(), LogN: l.logN, Q: m[:l.nq], P: m[l.nq:], H: 4, Sigma: 3.2, T: l.tp}
}

func layouts(th bool) (o []layout) {
	mq, mp := 4, 3
	if th {
		mq, mp = 7, 5
	}
	for nq := 1; nq <= mq; nq++ {
		for np := 0; np <= mp; np++ {
			o = append(o, layout{4, nq, np, ring.Standard})
		}
	}
	return append(o, layout{5, 3, 2, ring.ConjugateInvariant}, layout{6, 2, 1, ring.Standard})
}

func setFlags(p *ring.Poly, f int) {
	p.IsNTT, p.IsMForm = f&1 != 0, f&2 != 0
}

// polys: constructors, copies and comparisons of polynomials of every shape.
func polys(t *h.T, n, limbs int) {
	for f := 0; f < 4; f++ {
		name := fmt.Sprintf("Poly N=%d limbs=%d flags=%d", n, limbs, f)
		a := ring.NewPoly(n, limbs)
		shape(t, name, a, n, limbs, false)
		zero(t, name, a)
		fill(a, name)
		setFlags(a, f)
		c := a.CopyNew()
		ok, d := same(a, c)
		t.Check(ok, "copynew/Poly", "%s: %s", name, d)
		isolated(t, name, a, c)
		sensitive(t, name, a, c, func(x, y int) bool { return []*ring.Poly{a, c}[x].Equals([]*ring.Poly{a, c}[y]) })
		g := a.GetCoefficients()
		w := ring.NewPoly(n, limbs)
		w.SetCoefficients(g)
		t.Check(w.Equals(a), "coefficients", "%s: SetCoefficients(GetCoefficients) differs", name)
		isolated(t, name+" coefficients", &struct{ V [][]uint64 }{g}, a)
		isolated(t, name+" coefficients", &struct{ V [][]uint64 }{g}, w)
		var null *ring.Poly
		t.Check(!a.Equals(null) && !null.Equals(a) && null.Equals(null), "equals/Poly", "%s: comparison with nil", name)
		for l2 := 1; l2 <= 4; l2++ {
			m := limbs
			if l2 < m {
				m = l2
			}
			for f2 := 0; f2 < 4; f2++ {
				for kind := 0; kind < 6; kind++ {
					b := ring.NewPoly(n, l2)
					fill(b, "dirty")
					setFlags(b, f2)
					was := snap(b)
					up, flags := m, false
					wasA := snap(a)
					switch kind {
					case 0:
						b.Copy(a)
						flags = true
					case 1:
						b.CopyValues(a)
					case 2:
						ring.Copy(a, b)
						flags = true
					case 3:
						ring.CopyValues(a, b)
					case 4:
						up = (m + 1) / 2
						ring.CopyLvl(up-1, a, b)
						flags = true
					case 5:
						up = (m + 1) / 2
						ring.CopyValuesLvl(up-1, a, b)
					}
					t.Eval(1)
					for i := range b.Coeffs {
						for j := range b.Coeffs[i] {
							want := was[i][j]
							if i < up {
								want = a.Coeffs[i][j]
							}
							if b.Coeffs[i][j] != want {
								t.Fail("copy/Poly", "%s into %d limbs, function %d: limb %d coefficient %d is %d, want %d", name, l2, kind, i, j, b.Coeffs[i][j], want)
								return
							}
						}
					}
					wf := f2
					if flags {
						wf = f
					}
					if b.IsNTT != (wf&1 != 0) || b.IsMForm != (wf&2 != 0) {
						t.Fail("copy/Poly", "%s, function %d: flags of the target %v %v", name, kind, b.IsNTT, b.IsMForm)
					}
					if !unchanged(a, wasA) || a.IsNTT != (f&1 != 0) || a.IsMForm != (f&2 != 0) {
						t.Fail("copy/Poly", "%s, function %d changes its source", name, kind)
					}
					isolated(t, "Poly copy "+name, a, b)
				}
			}
			if l2 != limbs {
				b := ring.NewPoly(n, l2)
				ring.CopyValues(a, b)
				t.Check(!a.Equals(b) && !b.Equals(a), "equals/Poly", "%s equals a polynomial of %d limbs", name, l2)
			}
		}
		b := ring.NewPoly(2*n, limbs)
		t.Check(!a.Equals(b) && !b.Equals(a), "equals/Poly", "%s equals a polynomial of twice the degree", name)
		a.Zero()
		zero(t, name+" Zero", a)
		t.Check(a.IsNTT == (f&1 != 0), "zero/Poly", "%s: Zero changes the flags", name)
	}
}

func newParams(t *h.T, l layout) rlwe.Parameters { return l.spec().New(t) }

// polyQP: the joint basis.
func polyQP(t *h.T, l layout) {
	P := newParams(t, l)
	n := P.N()
	R := P.RingQP()
	name := "PolyQP " + l.String()
	full := R.NewPoly()
	shapeQP(t, name, full, n, l.nq-1, l.np-1)
	zero(t, name, &full)
	for lq := 0; lq < l.nq; lq++ {
		for lp := 0; lp < l.np || lp == 0; lp++ {
			nm := fmt.Sprintf("%s level %d,%d", name, lq, lp)
			a := R.NewPolyLvl(lq, lp)
			wp := lp
			if l.np == 0 {
				wp = -1
			}
			shapeQP(t, nm, a, n, lq, wp)
			zero(t, nm, &a)
			fill(&a, nm)
			for f := 0; f < 16; f++ {
				setFlags(a.Q, f&3)
				if a.P != nil {
					setFlags(a.P, f>>2)
				}
				c := a.CopyNew()
				ok, d := same(&a, &c)
				t.Check(ok, "copynew/PolyQP", "%s: %s", nm, d)
				isolated(t, nm, &a, &c)
				e := R.NewPolyLvl(lq, lp)
				fill(&e, "dirty")
				e.CopyValues(a)
				t.Check(e.Equals(a) && e.Q.IsNTT == false && e.Q.IsMForm == false && (e.P == nil || !e.P.IsNTT && !e.P.IsMForm), "copy/PolyQP", "%s: CopyValues differs or copies the flags", nm)
				e = R.NewPolyLvl(lq, lp)
				fill(&e, "dirty")
				e.Copy(a)
				ok, d = same(&a, &e)
				t.Check(ok, "copy/PolyQP", "%s: Copy: %s", nm, d)
				isolated(t, nm, &a, &e)
				e2 := R.NewPoly()
				fill(&e2, "dirty")
				was := snap(&e2)
				R.CopyValuesLvl(lq, lp, a, e2)
				i := 0
				for _, pp := range [][2]*ring.Poly{{a.Q, e2.Q}, {a.P, e2.P}} {
					if pp[1] == nil {
						continue
					}
					for k := range pp[1].Coeffs {
						for j := range pp[1].Coeffs[k] {
							w := was[i][j]
							if k < len(pp[0].Coeffs) {
								w = pp[0].Coeffs[k][j]
							}
							if pp[1].Coeffs[k][j] != w {
								t.Fail("copy/PolyQP", "%s: CopyValuesLvl limb %d: %d want %d", nm, k, pp[1].Coeffs[k][j], w)
							}
						}
						i++
					}
				}
				t.Eval(4)
			}
			c := a.CopyNew()
			o := []rlwe.PolyQP{a, c}
			sensitive(t, nm, &a, &c, func(x, y int) bool { return o[x].Equals(o[y]) })
		}
	}
}

func checkSwk(t *h.T, name string, k *rlwe.SwitchingKey, n, lq, lp int) {
	d := (lq + lp + 1) / (lp + 1)
	if len(k.Value) != d {
		t.Fail("constructor/"+strings.Fields(name)[0], "%s: %d digits, want %d", name, len(k.Value), d)
		return
	}
	for i := range k.Value {
		shapeQP(t, name, k.Value[i][0], n, lq, lp)
		shapeQP(t, name, k.Value[i][1], n, lq, lp)
	}
	zero(t, name, k)
}

// keys: every kind of key of the general scheme.
func keys(t *h.T, l layout) {
	P := newParams(t, l)
	C, err := ckks.NewParameters(P, 2, 1<<30)
	t.Check(err == nil, "setup", "%v", err)
	n, lq, lp := P.N(), l.nq-1, l.np-1
	for k := 0; k < 2; k++ {
		sk, pk := rlwe.NewSecretKey(P), rlwe.NewPublicKey(P)
		if k == 1 {
			sk, pk = ckks.NewSecretKey(C), ckks.NewPublicKey(C)
		}
		name := fmt.Sprint("SecretKey ", l, k)
		shapeQP(t, name, sk.Value, n, lq, lp)
		zero(t, name, sk)
		fill(sk, name)
		for f := 0; f < 4; f++ {
			setFlags(sk.Value.Q, f)
			if lp >= 0 {
				setFlags(sk.Value.P, 3-f)
			}
			c := sk.CopyNew()
			ok, d := same(sk, c)
			t.Check(ok, "copynew/SecretKey", "%s: %s", name, d)
			isolated(t, name, sk, c)
		}
		name = fmt.Sprint("PublicKey ", l, k)
		shapeQP(t, name, pk.Value[0], n, lq, lp)
		shapeQP(t, name, pk.Value[1], n, lq, lp)
		zero(t, name, pk)
		fill(pk, name)
		pk.Value[0].Q.IsNTT, pk.Value[1].Q.IsMForm = true, true
		c := pk.CopyNew()
		ok, d := same(pk, c)
		t.Check(ok, "copynew/PublicKey", "%s: %s", name, d)
		isolated(t, name, pk, c)
		o := []*rlwe.PublicKey{pk, c}
		sensitive(t, name, pk, c, func(x, y int) bool { return o[x].Equals(o[y]) })
	}
	var nsk *rlwe.SecretKey
	var npk *rlwe.PublicKey
	var nswk *rlwe.SwitchingKey
	var nrlk *rlwe.RelinearizationKey
	var nrot *rlwe.RotationKeySet
	t.Check(nsk.CopyNew() == nil && npk.CopyNew() == nil && nswk.CopyNew() == nil && nrlk.CopyNew() == nil, "copynew/nil", "copy of a nil key is not nil")
	if lp < 0 {
		return
	}
	for a := 0; a <= lq; a++ {
		for b := 0; b <= lp; b++ {
			name := fmt.Sprintf("SwitchingKey %v level %d,%d", l, a, b)
			k := rlwe.NewSwitchingKey(P, a, b)
			checkSwk(t, name, k, n, a, b)
			fill(k, name)
			k.Value[0][0].Q.IsNTT = true
			c := k.CopyNew()
			ok, d := same(k, c)
			t.Check(ok, "copynew/SwitchingKey", "%s: %s", name, d)
			isolated(t, name, k, c)
			o := []*rlwe.SwitchingKey{k, c}
			sensitive(t, name, k, c, func(x, y int) bool { return o[x].Equals(o[y]) })
			t.Check(!k.Equals(nil) && !nswk.Equals(k) && nswk.Equals(nil), "equals/SwitchingKey", "%s: comparison with nil", name)
			if len(k.Value) > 1 {
				s := &rlwe.SwitchingKey{Value: k.Value[:len(k.Value)-1]}
				t.Check(!k.Equals(s) && !s.Equals(k), "equals/SwitchingKey", "%s equals its own prefix", name)
			}
		}
	}
	checkSwk(t, "SwitchingKey ckks", ckks.NewSwitchingKey(C), n, lq, lp)
	for deg := 1; deg <= 3; deg++ {
		name := fmt.Sprint("RelinearizationKey ", l, deg)
		k := rlwe.NewRelinKey(P, deg)
		if deg == 2 {
			r := ckks.NewRelinearizationKey(C)
			t.Check(len(r.Keys) >= 1, "constructor/RelinearizationKey", "ckks: no keys")
			for i := range r.Keys {
				checkSwk(t, name+" ckks", r.Keys[i], n, lq, lp)
			}
		}
		t.Check(len(k.Keys) == deg, "constructor/RelinearizationKey", "%s: %d keys", name, len(k.Keys))
		for i := range k.Keys {
			checkSwk(t, name, k.Keys[i], n, lq, lp)
		}
		zero(t, name, k)
		fill(k, name)
		c := k.CopyNew()
		ok, d := same(k, c)
		t.Check(ok, "copynew/RelinearizationKey", "%s: %s", name, d)
		isolated(t, name, k, c)
		o := []*rlwe.RelinearizationKey{k, c}
		sensitive(t, name, k, c, func(x, y int) bool { return o[x].Equals(o[y]) })
		t.Check(!k.Equals(nil) && !nrlk.Equals(k) && nrlk.Equals(nil), "equals/RelinearizationKey", "%s: comparison with nil", name)
		if deg > 1 {
			s := &rlwe.RelinearizationKey{Keys: k.Keys[:deg-1]}
			t.Check(!k.Equals(s) && !s.Equals(k), "equals/RelinearizationKey", "%s equals its own prefix", name)
			s = &rlwe.RelinearizationKey{Keys: append([]*rlwe.SwitchingKey{k.Keys[1], k.Keys[0]}, k.Keys[2:]...)}
			t.Check(!k.Equals(s) && !s.Equals(k), "equals/RelinearizationKey", "%s equals its permutation", name)
		}
	}
	// rotation key sets over all subsets of a set of Galois elements
	gal := []uint64{1, 3, 5, uint64(4*n - 1)}
	for m1 := 0; m1 < 16; m1++ {
		sub := func(m int) (o []uint64) {
			for i, g := range gal {
				if m>>uint(i)&1 != 0 {
					o = append(o, g)
				}
			}
			return
		}
		name := fmt.Sprint("RotationKeySet ", l, m1)
		s := rlwe.NewRotationKeySet(P, append(sub(m1), sub(m1)...))
		if m1 == 5 {
			s = ckks.NewRotationKeySet(C, sub(m1))
		}
		t.Check(len(s.Keys) == len(sub(m1)), "constructor/RotationKeySet", "%s: %d keys", name, len(s.Keys))
		zero(t, name, s)
		fill(s, name)
		for i, g := range gal {
			k, ok := s.GetRotationKey(g)
			want := m1>>uint(i)&1 != 0
			t.Check(ok == want && (k != nil) == want, "constructor/RotationKeySet", "%s: GetRotationKey(%d) = %v,%v", name, g, k != nil, ok)
			if want {
				was := snap(k)
				checkSwk(t, name, mustZero(k), n, lq, lp)
				for a, lf := range leavesOf(k) {
					copy(lf.v, was[a])
				}
			}
		}
		for m2 := 0; m2 < 16; m2++ {
			o := &rlwe.RotationKeySet{Keys: map[uint64]*rlwe.SwitchingKey{}}
			for i, g := range gal {
				if m2>>uint(i)&1 != 0 {
					if k, ok := s.Keys[g]; ok {
						o.Keys[g] = k.CopyNew()
					} else {
						o.Keys[g] = rlwe.NewSwitchingKey(P, lq, lp)
					}
				}
			}
			t.Eval(2)
			t.Check(s.Equals(o) == (m1 == m2) && o.Equals(s) == (m1 == m2), "equals/RotationKeySet", "%s against set %d", name, m2)
			t.Check(s.Includes(o) == (m1&m2 == m2), "includes/RotationKeySet", "%s Includes set %d: %v", name, m2, s.Includes(o))
			if m1 == m2 {
				oo := []*rlwe.RotationKeySet{s, o}
				if m1 == 3 || m1 == 15 || m1 == 4 {
					sensitive(t, name, s, o, func(x, y int) bool { return oo[x].Equals(oo[y]) })
				}
			}
		}
		t.Check(!s.Equals(nil) && !nrot.Equals(s) && !s.Includes(nil) && !nrot.Includes(s) && s.Equals(s), "equals/RotationKeySet", "%s: comparison with nil", name)
	}
}

func leavesOf(x interface{}) []leaf { l, _ := walk(x); return l }

func mustZero(k *rlwe.SwitchingKey) *rlwe.SwitchingKey {
	for _, l := range leavesOf(k) {
		for j := range l.v {
			l.v[j] = 0
		}
	}
	return k
}

// elements: plaintexts and ciphertexts.
func elements(t *h.T, l layout) {
	P := newParams(t, l)
	C, err := ckks.NewParameters(P, 2, 1<<30)
	t.Check(err == nil, "setup", "%v", err)
	n := P.N()
	for lv := 0; lv < l.nq; lv++ {
		name := fmt.Sprintf("Plaintext %v level %d", l, lv)
		pt := rlwe.NewPlaintext(P, lv)
		shape(t, name, pt.Value, n, lv+1, false)
		zero(t, name, pt)
		t.Check(pt.Level() == lv && pt.Degree() == 0, "accessor/Plaintext", "%s: level %d degree %d", name, pt.Level(), pt.Degree())
		fill(pt, name)
		for f := 0; f < 4; f++ {
			setFlags(pt.Value, f)
			d := rlwe.NewPlaintext(P, lv)
			fill(d, "dirty")
			d.Copy(pt)
			ok, df := same(pt, d)
			t.Check(ok, "copy/Plaintext", "%s: %s", name, df)
			isolated(t, name, pt, d)
			d.Copy(nil)
			ok, df = same(pt, d)
			t.Check(ok, "copy/Plaintext", "%s: copy of nil: %s", name, df)
		}
		e := pt.El()
		t.Check(len(e.Value) == 1 && e.Value[0] == pt.Value && e.Degree() == 0 && e.Level() == lv, "accessor/Plaintext", "%s: El is not a view", name)
		for _, sc := range []float64{0, 1, 1 << 40, 0.3} {
			cp := ckks.NewPlaintext(C, lv, sc)
			shape(t, name+" ckks", cp.Value, n, lv+1, true)
			zero(t, name+" ckks", cp)
			t.Check(cp.Scale == sc && cp.ScalingFactor() == sc && cp.Level() == lv && cp.Degree() == 0, "accessor/Plaintext", "%s: scale %v", name, cp.Scale)
			cp.SetScalingFactor(sc + 2)
			t.Check(cp.Scale == sc+2 && cp.ScalingFactor() == sc+2, "accessor/Plaintext", "%s: SetScalingFactor gives %v", name, cp.Scale)
			for a := lv; a < l.nq; a++ {
				p := ring.NewPoly(n, a+1)
				fill(p, "from")
				x := ckks.NewPlaintextAtLevelFromPoly(lv, p)
				view(t, name+" FromPoly", x.Value, p, lv)
			}
		}
		for deg := 0; deg <= 4; deg++ {
			for kind := 0; kind < 3; kind++ {
				nm := fmt.Sprintf("Ciphertext %v level %d degree %d kind %d", l, lv, deg, kind)
				var ct *rlwe.Ciphertext
				switch kind {
				case 0:
					ct = rlwe.NewCiphertext(P, deg, lv)
				case 1:
					ct = rlwe.NewCiphertextNTT(P, deg, lv)
				case 2:
					c := ckks.NewCiphertext(C, deg, lv, 1<<30)
					t.Check(c.Scale == 1<<30 && c.ScalingFactor() == 1<<30, "accessor/Ciphertext", "%s: scale %v", nm, c.Scale)
					c.SetScalingFactor(3)
					t.Check(c.Scale == 3 && c.ScalingFactor() == 3, "accessor/Ciphertext", "%s: SetScalingFactor gives %v", nm, c.Scale)
					ct = c.Ciphertext
				}
				ciphertext(t, P, nm, ct, n, deg, lv, kind > 0)
				if deg == 1 {
					ckksCopies(t, C, nm, lv)
				}
			}
			for d2 := 0; d2 <= 4; d2++ {
				a, b := rlwe.NewCiphertext(P, deg, lv), rlwe.NewCiphertext(P, d2, lv)
				x, y, s := rlwe.GetSmallestLargest(a, b)
				wx, wy := a, b
				if deg > d2 {
					wx, wy = b, a
				}
				t.Check(x == wx && y == wy && s == (deg == d2), "accessor/GetSmallestLargest", "degrees %d,%d", deg, d2)
				t.Eval(1)
			}
		}
		for a := lv; a < l.nq; a++ {
			p0, p1 := ring.NewPoly(n, a+1), ring.NewPoly(n, l.nq)
			fill(p0, "from0")
			fill(p1, "from1")
			x := ckks.NewCiphertextAtLevelFromPoly(lv, [2]*ring.Poly{p0, p1})
			t.Check(len(x.Value) == 2, "constructor/Ciphertext", "FromPoly degree %d", x.Degree())
			view(t, "Ciphertext FromPoly", x.Value[0], p0, lv)
			view(t, "Ciphertext FromPoly", x.Value[1], p1, lv)
		}
		sh := rlwe.NewAdditiveShareAtLevel(P, lv)
		shape(t, "AdditiveShare level", &sh.Value, n, lv+1, false)
		zero(t, "AdditiveShare level", sh)
	}
	sh := rlwe.NewAdditiveShare(P)
	shape(t, "AdditiveShare", &sh.Value, n, l.nq, false)
	zero(t, "AdditiveShare", sh)
	for _, k := range []int{0, 1, n, 2 * n} {
		b := rlwe.NewAdditiveShareBigint(P, k)
		t.Check(len(b.Value) == k, "constructor/AdditiveShareBigint", "length %d, want %d", len(b.Value), k)
		for i := range b.Value {
			t.Check(b.Value[i] != nil && b.Value[i].Sign() == 0, "constructor/AdditiveShareBigint", "element %d", i)
			b.Value[i].SetInt64(int64(i + 1))
		}
		for i := range b.Value {
			t.Check(b.Value[i].Int64() == int64(i+1), "constructor/AdditiveShareBigint", "element %d shared", i)
		}
	}
}

// view checks that x is the limbs 0..lv of p, sharing the storage.
func view(t *h.T, name string, x, p *ring.Poly, lv int) {
	fn := "view/" + strings.Fields(name)[0]
	if x.Level() != lv || !x.IsNTT {
		t.Fail(fn, "%s: level %d NTT %v, want level %d", name, x.Level(), x.IsNTT, lv)
		return
	}
	for i := 0; i <= lv; i++ {
		t.Check(len(x.Coeffs[i]) == len(p.Coeffs[i]) && &x.Coeffs[i][0] == &p.Coeffs[i][0], fn, "%s: limb %d is not shared", name, i)
	}
	t.Eval(1)
}

func ciphertext(t *h.T, P rlwe.Parameters, nm string, ct *rlwe.Ciphertext, n, deg, lv int, ntt bool) {
	t.Check(len(ct.Value) == deg+1 && ct.Degree() == deg && ct.Level() == lv, "constructor/Ciphertext", "%s: degree %d level %d", nm, ct.Degree(), ct.Level())
	for _, p := range ct.Value {
		shape(t, nm, p, n, lv+1, ntt)
	}
	zero(t, nm, ct)
	fill(ct, nm)
	t.Check(ct.El() == ct && ct.RLWEElement() == ct, "accessor/Ciphertext", "%s: El", nm)
	v := append([]*ring.Poly{}, ct.Value...)
	o := new(rlwe.Ciphertext)
	o.SetValue(v)
	t.Check(len(o.Value) == len(v) && &o.Value[0] == &v[0], "accessor/Ciphertext", "%s: SetValue", nm)
	if len(v) > 1 {
		v[0].IsMForm = true
		v[1].IsNTT = !v[1].IsNTT
	}
	c := ct.CopyNew()
	ok, d := same(ct, c)
	t.Check(ok, "copynew/Ciphertext", "%s: %s", nm, d)
	isolated(t, nm, ct, c)
	e := rlwe.NewCiphertext(P, deg, lv)
	fill(e, "dirty")
	e.Copy(ct)
	ok, d = same(ct, e)
	t.Check(ok, "copy/Ciphertext", "%s: %s", nm, d)
	isolated(t, nm, ct, e)
	e.Copy(e)
	ok, d = same(ct, e)
	t.Check(ok, "copy/Ciphertext", "%s: copy onto itself: %s", nm, d)
	if len(v) > 1 {
		v[0].IsMForm = false
		v[1].IsNTT = !v[1].IsNTT
	}
	for d2 := 0; d2 <= 5; d2++ {
		for _, back := range []int{-1, 0, deg, 5} {
			r := ct.CopyNew()
			r.Resize(P, d2)
			cur := deg
			want := d2
			if d2 < cur {
				cur = d2
			}
			if back >= 0 {
				r.Resize(P, back)
				want = back
				if back < cur {
					cur = back
				}
			}
			t.Eval(1)
			if r.Degree() != want || len(r.Value) != want+1 {
				t.Fail("resize", "%s to %d then %d: degree %d", nm, d2, back, r.Degree())
				return
			}
			for i, p := range r.Value {
				shape(t, nm+" resized", p, n, lv+1, ntt)
				if i <= cur {
					t.Check(p.Equals(ct.Value[i]), "resize", "%s to %d then %d: component %d changed", nm, d2, back, i)
				} else {
					zero(t, nm+" resized component", p)
				}
			}
		}
	}
	t.State(nm)
}

func ckksCopies(t *h.T, C ckks.Parameters, nm string, lv int) {
	a := ckks.NewCiphertext(C, 1, lv, 5)
	fill(a, "a")
	c := a.CopyNew()
	ok, d := same(a, c)
	t.Check(ok && c.Scale == 5, "copynew/ckks", "%s: %s", nm, d)
	isolated(t, nm, a, c)
	b := ckks.NewCiphertext(C, 1, lv, 7)
	b.Value[0].IsNTT = false
	fill(b, "b")
	b.Copy(a)
	ok, d = same(a, b)
	t.Check(ok && b.Scale == 5, "copy/ckks", "%s: %s scale %v", nm, d, b.Scale)
	isolated(t, nm, a, b)
}

// random: the constructors of random ciphertexts.
func random(t *h.T, l layout) {
	P := newParams(t, l)
	C, err := ckks.NewParameters(P, 2, 1<<30)
	t.Check(err == nil, "setup", "%v", err)
	n := P.N()
	q := P.Q()
	for lv := 0; lv < l.nq; lv++ {
		for deg := 0; deg <= 3; deg++ {
			mk := func(kind int) (*rlwe.Ciphertext, bool) {
				prng, _ := utils.NewKeyedPRNG([]byte("key"))
				switch kind {
				case 0:
					return rlwe.NewCiphertextRandom(prng, P, deg, lv), false
				case 1:
					sc := []float64{11, 1 << 40, 0.5, math.Exp2(90)}[deg]
					c := ckks.NewCiphertextRandom(prng, C, deg, lv, sc)
					t.Check(c.Scale == sc, "random/Ciphertext", "%v: scale %v", l, c.Scale)
					return c.Ciphertext, true
				}
				c := rlwe.NewCiphertext(P, deg, lv)
				fill(c, "dirty")
				rlwe.PopulateElementRandom(prng, P, c)
				return c, false
			}
			prng, _ := utils.NewKeyedPRNG([]byte("key"))
			us := ring.NewUniformSampler(prng, P.RingQ())
			var want [][][]uint64
			for i := 0; i <= deg; i++ {
				want = append(want, us.ReadLvlNew(lv).Coeffs)
			}
			for kind := 0; kind < 3; kind++ {
				name := fmt.Sprintf("Random %v level %d degree %d kind %d", l, lv, deg, kind)
				a, ntt := mk(kind)
				t.Check(a.Degree() == deg, "random/Ciphertext", "%s: degree %d", name, a.Degree())
				for i, p := range a.Value {
					shape(t, name, p, n, lv+1, ntt)
					ok, d := pu.ReducedTo(p, q)
					t.Check(ok, "random/Ciphertext", "%s: %s", name, d)
					ok, d = ru.Same(p.Coeffs, want[i])
					t.Check(ok, "random/Ciphertext", "%s component %d is not the sampler's next sample: %s", name, i, d)
				}
				t.Eval(1)
				t.State(name)
			}
		}
	}
	if l.np == 0 {
		return
	}
	prng, _ := utils.NewKeyedPRNG([]byte("key"))
	s := rlwe.NewUniformSamplerQP(P, prng)
	seen := map[uint64]bool{}
	for k := 0; k < 8; k++ {
		p := P.RingQP().NewPoly()
		fill(&p, "dirty")
		s.Read(&p)
		ok, d := pu.ReducedTo(p.Q, q)
		t.Check(ok, "random/QP", "%v: Q: %s", l, d)
		ok, d = pu.ReducedTo(p.P, P.P())
		t.Check(ok, "random/QP", "%v: P: %s", l, d)
		h := pu.QPHash(p)
		t.Check(!seen[h], "random/QP", "%v: sample repeated", l)
		seen[h] = true
		e := P.RingQP().NewPoly()
		s.Read(&rlwe.PolyQP{Q: e.Q})
		s.Read(&rlwe.PolyQP{P: e.P})
		for _, x := range []*ring.Poly{e.Q, e.P} {
			z := true
			for _, v := range x.Coeffs[0] {
				z = z && v == 0
			}
			t.Check(!z, "random/QP", "%v: a part was not sampled", l)
		}
		t.Eval(1)
	}
}

// fast: the keys and messages of the accelerated scheme.
func fast(t *h.T, nq, np, gamma int) {
	m := ru.Mixed(32, append(ru.Rep(36, nq), ru.Rep(37, np)...)...)
	q, p := m[:nq], m[nq:]
	tc := pu.TChain(4, q, p, gamma, 60)
	F := frlwe.NewParametersFromLiteral(frlwe.ParametersLiteral{LogN: 4, Q: q, P: p, T: tc, Sigma: 3.2, H: 4, Gamma: gamma})
	bl := (nq + np + gamma - 1) / gamma
	be := (nq + np - 1) / np
	check := func(name string, k *frlwe.SwitchingKey) {
		if len(k.Value) != be {
			t.Fail("constructor/fast", "%s: %d digits, want %d", name, len(k.Value), be)
			return
		}
		for i := range k.Value {
			if len(k.Value[i]) != bl {
				t.Fail("constructor/fast", "%s: digit %d has %d blocks, want %d", name, i, len(k.Value[i]), bl)
				return
			}
			for j := range k.Value[i] {
				shape(t, "fast "+name, k.Value[i][j], 16, len(tc), false)
			}
		}
		zero(t, "fast "+name, k)
	}
	name := fmt.Sprintf("q%d p%d gamma %d", nq, np, gamma)
	check(name, frlwe.NewSwitchingKey(F))
	r := frlwe.NewRelinKey(F)
	check(name, r.Value[0])
	check(name, r.Value[1])
	zero(t, "fast relin "+name, r)
	for _, x := range []uint64{0, 1, 5, 31, 1 << 40} {
		k := frlwe.NewRotationKey(F, x)
		check(name, k.Value[0])
		check(name, k.Value[1])
		zero(t, "fast rotation "+name, k)
		t.Check(k.Rotidx == x, "constructor/fast", "%s: rotation index %d, want %d", name, k.Rotidx, x)
	}
	t.State(name)
	for ls := 1; ls <= 3; ls++ {
		G := fckks.NewParametersFromLiteral(fckks.ParametersLiteral{LogN: 4, Q: q, P: p, T: tc, Sigma: 3.2, H: 4, Gamma: gamma, DefaultScale: 1 << 30, LogSlots: ls})
		msg := fckks.NewMessage(G)
		t.Check(len(msg.Value) == 1<<uint(ls) && msg.Slots() == 1<<uint(ls), "constructor/fast", "%s: message of %d slots, want %d", name, len(msg.Value), 1<<uint(ls))
		for i := range msg.Value {
			t.Check(msg.Value[i] == 0, "constructor/fast", "message not zero")
		}
		t.Eval(1)
	}
}

func run(c *h.Ctx) {
	ns := []int{16, 32}
	if c.Thorough {
		ns = []int{16, 32, 64, 256}
	}
	for _, n := range ns {
		for limbs := 1; limbs <= 4; limbs++ {
			n, limbs := n, limbs
			c.Case("polynomials", fmt.Sprintf("poly/N=%d/%d", n, limbs), func(t *h.T) { polys(t, n, limbs) })
		}
	}
	for _, l := range layouts(c.Thorough) {
		l := l
		c.Case("joint", fmt.Sprint("joint/", l), func(t *h.T) { polyQP(t, l) })
		c.Case("keys", fmt.Sprint("keys/", l), func(t *h.T) { keys(t, l) })
		c.Case("elements", fmt.Sprint("elements/", l), func(t *h.T) { elements(t, l) })
		c.Case("random", fmt.Sprint("random/", l), func(t *h.T) { random(t, l) })
	}
	for nq := 1; nq <= 5; nq++ {
		for np := 1; np <= 3; np++ {
			for g := 1; g <= 4; g++ {
				nq, np, g := nq, np, g
				c.Case("fast", fmt.Sprintf("fast/%d/%d/%d", nq, np, g), func(t *h.T) { fast(t, nq, np, g) })
			}
		}
	}
}

func main() {
	h.Main(h.Info{ID: "C19", Level: "exploration",
		Rule:          "for every object kind and shape within the bounds: the constructor gives zero components of the prescribed shape in separate storage; every copy is structurally equal and writing to any component of either object leaves the other unchanged; equality holds for the copy and fails in both directions for every single changed component or missing part; resizing keeps and zero-fills exactly the prescribed components",
		Bounds:        "polynomials of degree 16/32 (thorough to 256) with 1-4 limbs, all flags, all source and target levels; layouts of 1-4 (7) primes and 0-3 (5) auxiliary primes; switching keys at all level pairs; relinearisation keys of degree 1-3; all pairs of subsets of four Galois elements; ciphertexts of degree 0-4 resized to 0-5 and back; fast keys for 1-5 x 1-3 primes and block sizes 1-4",
		Assumptions:   []string{"equality ignores the domain flags, as documented"},
		QuickDeadline: 200, ThoroughDeadline: 800}, run)
}
