// C20: misuse is refused, without effect.
package main

import (
	"fmt"
	"math"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"verifharness/acts"
	"verifharness/h"
)

// histories runs every sequence (operation or nothing, misuse, operation or misuse) on one object. depth 4 adds a step.
func histories(t *h.T, name string, m, part, parts, depth, stride int) {
	k := acts.Misuse(t, name)
	n, x := len(k.Acts), len(k.Miss)
	if m >= x {
		return
	}
	keys := k.Keys()
	want := make([]uint64, n)
	for i, a := range k.Acts {
		want[i] = a.F(k.New()).Hash
	}
	ops := k.Operands()
	label := func(i int) string {
		if i < n {
			return k.Acts[i].Name
		}
		return k.Miss[i-n].Name
	}
	run := func(hist ...int) bool {
		o := k.New()
		names := func(e int) (s []string) {
			for _, i := range hist[:e] {
				s = append(s, label(i))
			}
			return
		}
		for e, i := range hist {
			if i < n {
				r := k.Acts[i].F(o)
				if r.Hash != want[i] {
					t.Fail("after", "%s: %q gives another result after %q than on a fresh object", name, label(i), names(e))
				}
			} else if !k.Miss[i-n].Refused(o) {
				t.Fail("accepted", "%s: %q is accepted after %q", name, label(i), names(e))
			}
			t.Trans(1)
			if k.Operands() != ops {
				t.Fail("operand", "%s: %q modifies an operand after %q", name, label(i), names(e))
				return false
			}
		}
		t.Trace(1)
		t.State(name, hist)
		return true
	}
	// the misuse alone: everything else rests on it
	if !run(n + m) {
		return
	}
	for b := 0; b < n+x; b++ {
		if !run(n+m, b) {
			return
		}
	}
	for a := 0; a < n+x; a++ {
		if a%parts != part || (a+m)%stride != 0 {
			continue
		}
		for b := 0; b < n+x; b++ {
			if !run(a, n+m, b) {
				return
			}
			if depth > 3 {
				for c := 0; c < n; c++ {
					if !run(a, n+m, b, c) {
						return
					}
				}
			}
		}
	}
	t.Check(k.Keys() == keys, "keys", "%s: %q modifies a key", name, k.Miss[m].Name)
}

func imin(a, b int) int {
	if a < b {
		return a
	}
	return b
}
func imax(a, b int) int { return a + b - imin(a, b) }

// refused runs f and tells whether it ended in a panic or an error.
func refused(f func() error) (r bool, why string) {
	defer func() {
		if e := recover(); e != nil {
			r, why = true, fmt.Sprint(e)
		}
	}()
	if err := f(); err != nil {
		return true, err.Error()
	}
	return false, ""
}

// grid makes the operands of the tables.
type grid struct {
	k *acts.Kind
}

func (g *grid) ct(d, l int, ntt int, scale float64) *ckks.Ciphertext {
	c := g.k.Dirty(d, l)
	c.Scale = scale
	if ntt >= 0 {
		c.Value[ntt].IsNTT = false
	}
	return c
}

func (g *grid) op(d, l int, ntt int, scale float64) ckks.Operand {
	if d > 0 {
		return g.ct(d, l, ntt, scale)
	}
	p := ckks.NewPlaintext(g.k.Env.P, l, scale)
	copy(p.Value.Coeffs, g.k.Dirty(1, l).Value[0].Coeffs)
	p.Value.IsNTT = ntt < 0
	return p
}

func hash(o ckks.Operand) uint64 {
	return acts.CtHash(&ckks.Ciphertext{Ciphertext: o.El(), Scale: o.ScalingFactor()})
}

// binary compares what a binary operation accepts with its documented precondition.
func binary(t *h.T, name string, idx int, thorough bool) {
	k := acts.New(t, name)
	b := k.Bin[idx]
	g := &grid{k}
	L, sc := k.Env.L, k.Env.Spec.Scale
	ev := k.New().(acts.Full)
	probe, want := probes(k)
	lv := []int{0, L}
	if thorough {
		lv = nil
		for l := 0; l <= L; l++ {
			lv = append(lv, l)
		}
	}
	for d0 := 0; d0 <= 3; d0++ {
		for d1 := 0; d1 <= 3; d1++ {
			for do := 0; do <= 3; do++ {
				for n0 := -1; n0 <= d0; n0++ {
					for n1 := -1; n1 <= d1; n1++ {
						bad := d0+d1 == 0 || do < imax(d0, d1) || n0 >= 0 || n1 >= 0 || b.Mul && (d0 > 1 || d1 > 1)
						for _, l0 := range lv {
							for _, l1 := range lv {
								for mode := 0; mode < 3; mode++ { // a receiver of its own, onto the first, onto the second operand
									x, y := g.op(d0, l0, n0, sc), g.op(d1, l1, n1, sc)
									o := g.ct(do, L, -1, sc)
									if mode > 0 {
										z := x
										if mode == 2 {
											z = y
										}
										c, ok := z.(*ckks.Ciphertext)
										if !ok || c.Degree() != do || !bad {
											continue
										}
										o = c
									}
									hx, hy := hash(x), hash(y)
									no, why := refused(func() error { b.Into(ev, x, y, o); return nil })
									what := fmt.Sprintf("%s degrees %d,%d into %d, untransformed parts %d,%d levels %d,%d mode %d", b.Name, d0, d1, do, n0, n1, l0, l1, mode)
									t.Check(no == bad, "binary/refusal", "%s: refused %v (%s), want %v", what, no, why, bad)
									if no || mode == 0 {
										t.Check(hash(x) == hx && hash(y) == hy, "binary/operand", "%s: modifies an operand", what)
									}
									t.Eval(1)
									t.State(name, what)
								}
							}
						}
					}
				}
			}
			t.Check(probe(ev) == want, "binary/after", "%s: another result of an operation after the misuses of %s, degrees %d,%d", name, b.Name, d0, d1)
		}
	}
}

// probes is an operation after the misuses: a fixed multiplication, rotation and addition.
func probes(k *acts.Kind) (func(ev acts.Full) uint64, uint64) {
	f := func(ev acts.Full) uint64 {
		x := k.Dirty(1, k.Env.L)
		x.Scale = k.Env.Spec.Scale
		y := ev.RotateNew(ev.AddNew(ev.MulRelinNew(x, x), ev.MultByConstNew(x, 1.5)), 1)
		if err := ev.Rescale(y, k.Env.Spec.Scale, y); err != nil {
			panic(err)
		}
		return acts.CtHash(y)
	}
	return f, f(k.New().(acts.Full))
}

type un struct {
	name string
	f    func(ev acts.Full, c, o *ckks.Ciphertext) error
	bad  func(c, o *ckks.Ciphertext) bool
	new  bool // returns a new ciphertext: o is ignored
}

func untransformed(c *ckks.Ciphertext) bool {
	for _, p := range c.Value {
		if !p.IsNTT {
			return true
		}
	}
	return false
}

func unaries(k *acts.Kind) (us []un) {
	ci := k.Env.P.RingType() == ring.ConjugateInvariant
	swk := k.Env.Kg.GenSwitchingKey(k.Env.Sk, k.Env.Kg.GenSecretKey())
	add := func(name string, f func(ev acts.Full, c, o *ckks.Ciphertext) error, bad func(c, o *ckks.Ciphertext) bool) {
		us = append(us, un{name: name, f: f, bad: bad})
	}
	addNew := func(name string, f func(ev acts.Full, c *ckks.Ciphertext) error, bad func(c *ckks.Ciphertext) bool) {
		us = append(us, un{name, func(ev acts.Full, c, _ *ckks.Ciphertext) error { return f(ev, c) }, func(c, _ *ckks.Ciphertext) bool { return bad(c) }, true})
	}
	degrees := func(c, o *ckks.Ciphertext) bool { return c.Degree() != o.Degree() }
	both1 := func(c, o *ckks.Ciphertext) bool { return c.Degree() != 1 || o.Degree() != 1 }
	not1 := func(c *ckks.Ciphertext) bool { return c.Degree() != 1 }
	not2 := func(c *ckks.Ciphertext) bool { return c.Degree() != 2 }
	add("Neg", func(ev acts.Full, c, o *ckks.Ciphertext) error { ev.Neg(c, o); return nil }, degrees)
	add("Reduce", func(ev acts.Full, c, o *ckks.Ciphertext) error { return ev.Reduce(c, o) }, degrees)
	add("Relinearize", func(ev acts.Full, c, o *ckks.Ciphertext) error { ev.Relinearize(c, o); return nil }, func(c, o *ckks.Ciphertext) bool { return c.Degree() != 2 || o.Degree() < 1 })
	addNew("RelinearizeNew", func(ev acts.Full, c *ckks.Ciphertext) error { ev.RelinearizeNew(c); return nil }, not2)
	add("SwitchKeys", func(ev acts.Full, c, o *ckks.Ciphertext) error { ev.SwitchKeys(c, swk, o); return nil }, both1)
	addNew("SwitchKeysNew", func(ev acts.Full, c *ckks.Ciphertext) error { ev.SwitchKeysNew(c, swk); return nil }, not1)
	slots := k.Env.P.MaxSlots()
	have := map[int]bool{0: true, 1: true, 3: true, (slots - 2) % slots: true}
	for r := -slots - 1; r <= slots+1; r++ {
		r := r
		if r != 0 && r%slots == 0 { // a key for the identity may be asked for
			continue
		}
		ok := have[((r%slots)+slots)%slots]
		add(fmt.Sprintf("Rotate %d", r), func(ev acts.Full, c, o *ckks.Ciphertext) error { ev.Rotate(c, r, o); return nil }, func(c, o *ckks.Ciphertext) bool { return both1(c, o) || !ok })
		addNew(fmt.Sprintf("RotateNew %d", r), func(ev acts.Full, c *ckks.Ciphertext) error { ev.RotateNew(c, r); return nil }, func(c *ckks.Ciphertext) bool { return not1(c) || !ok })
	}
	add("Conjugate", func(ev acts.Full, c, o *ckks.Ciphertext) error { ev.Conjugate(c, o); return nil }, func(c, o *ckks.Ciphertext) bool { return ci || both1(c, o) })
	addNew("ConjugateNew", func(ev acts.Full, c *ckks.Ciphertext) error { ev.ConjugateNew(c); return nil }, func(c *ckks.Ciphertext) bool { return ci || not1(c) })
	for _, m := range []float64{math.Inf(-1), -1, -1e-300, 0, 1e-300, 1, k.Env.Spec.Scale, 1e300} {
		m := m
		add(fmt.Sprintf("Rescale %g", m), func(ev acts.Full, c, o *ckks.Ciphertext) error { return ev.Rescale(c, m, o) }, func(c, o *ckks.Ciphertext) bool {
			return m <= 0 || c.Scale == 0 || c.Level() == 0 || untransformed(c) || c.Degree() != o.Degree() || c.Level() != o.Level()
		})
		addNew(fmt.Sprintf("RescaleNew %g", m), func(ev acts.Full, c *ckks.Ciphertext) error { _, err := ev.RescaleNew(c, m); return err }, func(c *ckks.Ciphertext) bool {
			return m <= 0 || c.Scale == 0 || c.Level() == 0 || untransformed(c)
		})
	}
	if ci {
		all := func(c, o *ckks.Ciphertext) bool { return true }
		add("MultByi", func(ev acts.Full, c, o *ckks.Ciphertext) error { ev.MultByi(c, o); return nil }, all)
		add("DivByi", func(ev acts.Full, c, o *ckks.Ciphertext) error { ev.DivByi(c, o); return nil }, all)
		addNew("MultByiNew", func(ev acts.Full, c *ckks.Ciphertext) error { ev.MultByiNew(c); return nil }, func(*ckks.Ciphertext) bool { return true })
		addNew("DivByiNew", func(ev acts.Full, c *ckks.Ciphertext) error { ev.DivByiNew(c); return nil }, func(*ckks.Ciphertext) bool { return true })
	}
	return
}

// unary compares what the unary operations accept with their documented preconditions.
func unary(t *h.T, name string, idx, parts int) {
	k := acts.New(t, name)
	g := &grid{k}
	L, sc := k.Env.L, k.Env.Spec.Scale
	ev := k.New().(acts.Full)
	probe, want := probes(k)
	for i, u := range unaries(k) {
		if i%parts != idx {
			continue
		}
		for d := 0; d <= 3; d++ {
			for do := 0; do <= 3; do++ {
				if u.new && do > 0 {
					continue
				}
				for l := 0; l <= L; l++ {
					for lo := 0; lo <= L; lo++ {
						if u.new && lo > 0 {
							continue
						}
						for n := -1; n <= d; n++ {
							for _, s := range []float64{sc, 0} {
								for mode := 0; mode < 2; mode++ {
									c, o := g.ct(d, l, n, s), g.ct(do, lo, -1, sc)
									if d == 0 { // a ciphertext of degree 0 is a legal operand of the operations of equal degrees
										c.Value = c.Value[:1]
									}
									if mode == 1 {
										if u.new || do != d || lo != l {
											continue
										}
										o = c
									}
									bad := u.bad(c, o)
									if mode == 1 && !bad {
										continue
									}
									if n >= 0 && !bad { // outside the NTT domain: nothing is documented
										continue
									}
									hc := hash(c)
									no, why := refused(func() error { return u.f(ev, c, o) })
									what := fmt.Sprintf("%s degree %d into %d levels %d into %d, untransformed part %d, scale %g, in place %v", u.name, d, do, l, lo, n, s, mode == 1)
									t.Check(no == bad, "unary/refusal", "%s: refused %v (%s), want %v", what, no, why, bad)
									t.Check(hash(c) == hc, "unary/operand", "%s: modifies its operand", what)
									t.Eval(1)
									t.State(name, what)
								}
							}
						}
					}
				}
			}
		}
		t.Check(probe(ev) == want, "unary/after", "%s: another result of an operation after the misuses of %s", name, u.name)
	}
}

// slots compares what the encoders accept with the documented ranges.
func slots(t *h.T, name string) {
	k := acts.New(t, name)
	P := k.Env.P
	ml := k.Env.Spec.MaxLog()
	e := ckks.NewEncoder(P)
	N := P.N()
	vals := make([]complex128, 2*N+2)
	fl := make([]float64, 2*N+2)
	for i := range vals {
		vals[i], fl[i] = complex(float64(i), 1), float64(i)+0.5
	}
	fresh := ckks.NewEncoder(P)
	ref := fresh.EncodeNew(vals[:1<<uint(ml)], k.Env.L, 1<<40, ml)
	for ls := -3; ls <= ml+3; ls++ {
		for _, n := range []int{0, 1, 2, 3, 4, N/4 - 1, N / 4, N/4 + 1, N/2 - 1, N / 2, N/2 + 1, N - 1, N, N + 1, 2 * N, 2*N + 1} {
			bad := ls < 0 || ls > ml || n > 1<<uint(imax(ls, 0))
			for mode := 0; mode < 6; mode++ {
				p := ckks.NewPlaintext(P, 1, 1<<30)
				q := ring.NewPoly(N, 2)
				f := func() error {
					switch mode {
					case 0:
						e.Encode(vals[:n], p, ls)
					case 1:
						e.EncodeSlots(fl[:n], p, ls)
					case 2:
						e.EncodeNew(fl[:n], 0, 1<<20, ls)
					case 3:
						e.EncodeSlotsNew(vals[:n], 1, 1<<20, ls)
					case 4:
						e.Embed(vals[:n], ls, 1<<20, false, q)
					case 5:
						e.Embed(fl[:n], ls, 1<<20, true, q)
					}
					return nil
				}
				no, why := refused(f)
				t.Check(no == bad, "slots/refusal", "%s: encoding %d values in 2^%d slots, entry %d: refused %v (%s), want %v", name, n, ls, mode, no, why, bad)
				if no {
					zero := true
					for _, c := range [][][]uint64{p.Value.Coeffs, q.Coeffs} {
						for _, r := range c {
							for _, x := range r {
								zero = zero && x == 0
							}
						}
					}
					t.Check(zero && p.Scale == 1<<30 && p.Value.IsNTT && !q.IsNTT, "slots/target", "%s: a refused encoding of %d values in 2^%d slots, entry %d, writes to its target", name, n, ls, mode)
				}
				t.Eval(1)
				t.State(name, ls, n, mode)
			}
		}
		for mode := 0; mode < 4; mode++ {
			bad := ls < 0 || ls > ml
			no, why := refused(func() error {
				switch mode {
				case 0:
					e.Decode(ref, ls)
				case 1:
					e.DecodeSlots(ref, ls)
				case 2:
					e.DecodePublic(ref, ls, 4)
				case 3:
					e.DecodeSlotsPublic(ref, ls, 4)
				}
				return nil
			})
			t.Check(no == bad, "slots/decode", "%s: decoding 2^%d slots, entry %d: refused %v (%s), want %v", name, ls, mode, no, why, bad)
			t.Eval(1)
		}
		again := e.EncodeNew(vals[:1<<uint(ml)], k.Env.L, 1<<40, ml)
		t.Check(acts.PtHash(again) == acts.PtHash(ref), "slots/after", "%s: another encoding after the refusals with 2^%d slots", name, ls)
		a, b := e.Decode(ref, ml), fresh.Decode(ref, ml)
		t.Check(fmt.Sprint(a) == fmt.Sprint(b), "slots/after", "%s: another decoding after the refusals with 2^%d slots", name, ls)
	}
	for n := 0; n <= N+3; n++ {
		p := ckks.NewPlaintext(P, 1, 1<<30)
		no, why := refused(func() error { e.EncodeCoeffs(fl[:n], p); return nil })
		t.Check(no == (n > N), "slots/coefficients", "%s: encoding %d coefficients: refused %v (%s)", name, n, no, why)
		no, why = refused(func() error { e.EncodeCoeffsNew(fl[:n], 1, 1<<30); return nil })
		t.Check(no == (n > N), "slots/coefficients", "%s: encoding %d coefficients anew: refused %v (%s)", name, n, no, why)
		t.Eval(2)
		t.State(name, "coeffs", n)
	}
}

// keys compares what the constructors accept as keys with the degrees of the parameters.
func keys(t *h.T, T ring.Type) {
	type set struct {
		P  rlwe.Parameters
		C  ckks.Parameters
		sk *rlwe.SecretKey
		pk *rlwe.PublicKey
	}
	var sets []set
	for logN := 4; logN <= 7; logN++ {
		P, err := ckks.NewParametersFromLiteral(ckks.ParametersLiteral{LogN: logN, Q: acts.Primes(logN, T, 50, 40), P: []uint64{}, Sigma: 3.2, H: 4, RingType: T, LogSlots: 2, DefaultScale: 1 << 30})
		if err != nil {
			t.Fail("setup", "%v", err)
			return
		}
		sk, pk := rlwe.NewKeyGenerator(P.Parameters).GenKeyPair()
		sets = append(sets, set{P.Parameters, P, sk, pk})
	}
	for i, a := range sets {
		for j, b := range sets {
			for x, key := range []interface{}{b.sk, b.pk} {
				for mode, f := range []func(){
					func() { rlwe.NewEncryptor(a.P, key) },
					func() { ckks.NewEncryptor(a.C, key) },
					func() { rlwe.NewEncryptor(a.P, a.sk).WithKey(key) },
					func() { rlwe.NewEncryptor(a.P, a.pk).WithKey(key) },
					func() { ckks.NewEncryptor(a.C, a.sk).WithKey(key) },
					func() { ckks.NewEncryptor(a.C, a.pk).ShallowCopy().WithKey(key) },
				} {
					no, why := refused(func() error { f(); return nil })
					t.Check(no == (i != j), "keys/encryptor", "encryptor of degree %d, entry %d, key %d of degree %d: refused %v (%s)", a.P.N(), mode, x, b.P.N(), no, why)
					t.Eval(1)
					t.State(i, j, x, mode, int(T))
				}
			}
			for mode, f := range []func(){func() { rlwe.NewDecryptor(a.P, b.sk) }, func() { ckks.NewDecryptor(a.C, b.sk) }} {
				no, why := refused(func() error { f(); return nil })
				t.Check(no == (i != j), "keys/decryptor", "decryptor of degree %d, entry %d, key of degree %d: refused %v (%s)", a.P.N(), mode, b.P.N(), no, why)
				t.Eval(1)
			}
		}
	}
}

func run(c *h.Ctx) {
	for _, name := range acts.MisuseKinds() {
		name := name
		size := 0
		h.Seeded("size/"+name, func() { size = len(acts.Misuse(&h.T{}, name).Miss) })
		depth, parts, stride := 3, 1, 1
		if size > 60 {
			stride = 4
		}
		if c.Thorough {
			parts, stride = 4, 1
			if size < 40 {
				depth = 4
			}
		}
		for m := 0; m < size; m++ {
			for p := 0; p < parts; p++ {
				m, p := m, p
				c.Case("history", fmt.Sprintf("history/%s/%d/%d", name, m, p), func(t *h.T) { histories(t, name, m, p, parts, depth, stride) })
			}
		}
	}
	for _, name := range []string{"evaluator/std", "evaluator/ci", "evaluator/wide"} {
		name := name
		for i := 0; i < 8; i++ {
			i := i
			c.Case("grid", fmt.Sprintf("binary/%s/%d", name, i), func(t *h.T) { binary(t, name, i, c.Thorough) })
			c.Case("grid", fmt.Sprintf("unary/%s/%d", name, i), func(t *h.T) { unary(t, name, i, 8) })
		}
	}
	for _, name := range []string{"encoder/std", "encoder/ci"} {
		name := name
		c.Case("grid", "slots/"+name, func(t *h.T) { slots(t, name) })
	}
	for _, T := range []ring.Type{ring.Standard, ring.ConjugateInvariant} {
		T := T
		c.Case("grid", fmt.Sprintf("keys/%d", int(T)), func(t *h.T) { keys(t, T) })
	}
}

func main() {
	h.Main(h.Info{ID: "C20", Level: "model_checking",
		Rule:          "every history (operation or nothing, misuse, operation or misuse) of each object is executed on one real object: each misuse must end in an error or a panic, leave all operands (also those that are the receiver) and keys unchanged, and each operation must give bit by bit the result of a fresh object; tables: each operation of the evaluator on all degrees, levels, domains and scales of operands and receivers, the encoders on all slot counts and lengths, the encryptors and decryptors on keys of all degrees must refuse exactly what their documented precondition excludes",
		Bounds:        "19 kinds of objects, 7-70 misuses each; histories of depth 3 (thorough 4 for at most 40 misuses); degrees 0-3 of operands and receivers, every single untransformed part, all levels, rotations -slots-1 .. slots+1, slot logarithms -3 .. maximum+3, degrees 16-128",
		Assumptions:   []string{"a refusal is an error or a panic of any kind", "the content of a receiver that is not an operand is not specified after a refusal"},
		QuickDeadline: 400, ThoroughDeadline: 860}, run)
}
