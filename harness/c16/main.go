// C16: operations are functions of their operands.
package main

import (
	"fmt"
	"math"

	"fast-ksw/ckks"
	"verifharness/acts"
	"verifharness/h"
)

// histories runs every sequence of operations on one object.
func histories(t *h.T, name string, first, part, parts, depth int) {
	k := acts.New(t, name)
	n := len(k.Acts)
	if first >= n {
		return
	}
	ops, keys := k.Operands(), k.Keys()
	want := make([]uint64, n)
	for i, a := range k.Acts {
		want[i] = a.F(k.New()).Hash
		t.Check(k.Operands() == ops, "operand", "%s: %q modifies an operand", name, a.Name)
		t.Check(want[i] == a.F(k.New()).Hash, "deterministic", "%s: %q on two fresh objects differs", name, a.Name)
	}
	t.Check(k.Keys() == keys, "keys", "%s: an operation modifies a key", name)
	names := func(hist []int) (o []string) {
		for _, i := range hist {
			o = append(o, k.Acts[i].Name)
		}
		return
	}
	run := func(hist []int) {
		o := k.New()
		var rs []acts.Res
		var hs []uint64
		masks := map[uint64]int{}
		for x, i := range hist {
			r := k.Acts[i].F(o)
			t.Trans(1)
			if r.Hash != want[i] {
				t.Fail("history", "%s: %q gives another result after %q than on a fresh object", name, k.Acts[i].Name, names(hist[:x]))
			}
			if k.Operands() != ops {
				t.Fail("operand", "%s: %q modifies an operand after %q", name, k.Acts[i].Name, names(hist[:x]))
			}
			if r.Mask != 0 {
				if y, dup := masks[r.Mask]; dup {
					t.Fail("randomness", "%s: steps %d and %d of %q use the same randomness", name, y, x, names(hist))
				}
				masks[r.Mask] = x
			}
			if r.Again != nil {
				rs = append(rs, r)
				hs = append(hs, r.Again())
			}
			t.StateHash(h.Hash(name, r.Hash, i))
		}
		for j, r := range rs {
			t.Check(r.Again() == hs[j], "earlier", "%s: the result of an earlier step is modified in %q", name, names(hist))
		}
		t.Trace(1)
		t.State(name, hist)
	}
	var rec func(hist []int)
	rec = func(hist []int) {
		if len(hist) == depth {
			run(hist)
			return
		}
		for i := range k.Acts {
			if len(hist) == 1 && i%parts != part {
				continue
			}
			rec(append(hist[:len(hist):len(hist)], i))
		}
	}
	rec([]int{first})
	// what is returned belongs to the caller: overwriting it affects nothing
	if part == 0 {
		for j := range k.Acts {
			o := k.New()
			r := k.Acts[first].F(o)
			if r.Mess == nil {
				break
			}
			r.Mess()
			if k.Operands() != ops {
				t.Fail("result/operand", "%s: the result of %q shares memory with an operand", name, k.Acts[first].Name)
				break
			}
			if k.Acts[j].F(o).Hash != want[j] {
				t.Fail("result/object", "%s: %q gives another result once the result of %q was overwritten", name, k.Acts[j].Name, k.Acts[first].Name)
			}
			t.Trans(2)
			t.Trace(1)
		}
	}
	t.Check(k.Keys() == keys, "keys", "%s: an operation modifies a key", name)
}

func imin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// unary compares all the receivers of the unary operations.
func unary(t *h.T, name string, idx int) {
	k := acts.New(t, name)
	if idx >= len(k.Un) {
		return
	}
	u := k.Un[idx]
	e := k.Env
	shared := k.New().(acts.Full)
	for _, d := range u.Degs {
		od := d
		if u.OutDeg > 0 {
			od = u.OutDeg
		}
		for l := u.MinLevel; l <= e.L; l++ {
			mk := func() *ckks.Ciphertext {
				c := k.Dirty(d, l)
				c.Scale = e.Spec.Scale * 2
				return c
			}
			lo := l
			if u.OutLevel != nil {
				lo = u.OutLevel(l)
			}
			base := ckks.NewCiphertext(e.P, d, l, 1)
			u.Into(k.New().(acts.Full), mk(), base)
			want := acts.CtCanon(base, e.Q)
			t.Check(base.Level() == lo && base.Degree() == od, "shape", "%s: level %d degree %d, want %d %d", u.Name, base.Level(), base.Degree(), lo, od)
			for _, ev := range []acts.Full{k.New().(acts.Full), shared} {
				for _, mode := range []string{"new", "fresh", "used", "larger", "in place", "once larger"} {
					if mode == "larger" && u.NoLarger {
						continue
					}
					c := mk()
					was := acts.CtHash(c)
					var o *ckks.Ciphertext
					switch mode {
					case "new":
						if u.New == nil {
							continue
						}
						o = u.New(ev, c)
					case "fresh":
						o = ckks.NewCiphertext(e.P, d, l, 3)
						u.Into(ev, c, o)
					case "used":
						o = k.Dirty(d, l)
						u.Into(ev, c, o)
					case "larger":
						o = k.Dirty(d, e.L)
						u.Into(ev, c, o)
					case "in place":
						o = c
						u.Into(ev, o, o)
					case "once larger":
						o = k.Dirty(d, e.L)
						for i := range o.Value {
							o.Value[i].Coeffs = o.Value[i].Coeffs[:l+1]
						}
						u.Into(ev, c, o)
					}
					if mode != "in place" {
						t.Check(acts.CtHash(c) == was, "unary/operand", "%s %s modifies its operand (level %d degree %d)", u.Name, mode, l, d)
					}
					got := acts.CtCanon(o, e.Q)
					// the result may not use the storage of the operand
					if mode != "in place" {
						acts.Mess(o.Value...)
						t.Check(acts.CtHash(c) == was, "unary/storage", "%s %s: the result shares the storage of the operand (level %d degree %d)", u.Name, mode, l, d)
					}
					t.Check(got == want, "unary/"+mode, "%s %s of level %d degree %d differs from the result into a fresh receiver: level %d degree %d scale %g", u.Name, mode, l, d, o.Level(), o.Degree(), o.Scale)
					t.Eval(1)
					t.State(name, u.Name, l, d, mode)
				}
			}
		}
	}
}

// binary compares all the receivers and the aliasings of the binary operations.
func binary(t *h.T, name string, idx int) {
	k := acts.New(t, name)
	if idx >= len(k.Bin) {
		return
	}
	b := k.Bin[idx]
	e := k.Env
	shared := k.New().(acts.Full)
	sc := e.Spec.Scale
	mk := func(d, l int, s float64, off int) ckks.Operand {
		c := k.Dirty(imax(d, 1), l)
		c.Scale = s
		for i := range c.Value {
			for j := range c.Value[i].Coeffs {
				for x := range c.Value[i].Coeffs[j] {
					c.Value[i].Coeffs[j][x] = (c.Value[i].Coeffs[j][x] + uint64(off)*77777) % e.Q[j]
				}
			}
		}
		if d == 0 {
			p := ckks.NewPlaintext(e.P, l, s)
			p.Value.Coeffs = c.Value[0].Coeffs
			return p
		}
		return c
	}
	hash := func(o ckks.Operand) uint64 {
		return acts.CtHash(&ckks.Ciphertext{Ciphertext: o.El(), Scale: o.ScalingFactor()})
	}
	for d0 := 0; d0 <= 2; d0++ {
		for d1 := 0; d1 <= 2; d1++ {
			if d0+d1 == 0 || b.Mul && (d0 > 1 || d1 > 1) {
				continue
			}
			od := imax(d0, d1)
			if b.Mul {
				od = d0 + d1
				if b.Rel {
					od = 1
				}
			}
			for l0 := 0; l0 <= e.L; l0++ {
				for l1 := 0; l1 <= e.L; l1++ {
					for _, s1 := range []float64{sc, sc * 8, sc / 4} {
						if s1 < sc && math.Floor(sc/s1) != sc/s1 {
							continue
						}
						for _, same := range []bool{false, true} {
							if same && (d0 != d1 || l0 != l1 || s1 != sc) {
								continue
							}
							args := func() (x, y ckks.Operand) {
								x = mk(d0, l0, sc, 1)
								y = x
								if !same {
									y = mk(d1, l1, s1, 2)
								}
								return
							}
							L := imin(l0, l1)
							acc := func(o *ckks.Ciphertext) *ckks.Ciphertext {
								if b.Acc {
									o.Scale = sc * s1 / 4
								}
								return o
							}
							x, y := args()
							var base *ckks.Ciphertext
							if b.Acc {
								base = acc(k.Dirty(2, L))
							} else {
								base = ckks.NewCiphertext(e.P, imax(1, imax(od, d0+d1)), L, 1)
								if !b.Mul {
									base = ckks.NewCiphertext(e.P, od, L, 1)
								}
							}
							b.Into(k.New().(acts.Full), x, y, base)
							want := acts.CtCanon(base, e.Q)
							for _, mode := range []string{"new", "fresh", "used", "larger", "op0", "op1"} {
								x, y := args()
								hx, hy := hash(x), hash(y)
								ev := shared
								var o *ckks.Ciphertext
								switch mode {
								case "new":
									if b.New == nil {
										continue
									}
									o = b.New(ev, x, y)
								case "fresh":
									ev = k.New().(acts.Full)
									if b.Acc {
										continue
									}
									o = ckks.NewCiphertext(e.P, od, L, 9)
									b.Into(ev, x, y, o)
								case "used":
									o = acc(k.Dirty(2, L))
									if !b.Acc && !b.Mul {
										o = k.Dirty(od, L)
									}
									b.Into(ev, x, y, o)
								case "larger":
									if b.Acc {
										o = acc(k.Dirty(2, e.L))
									} else {
										o = k.Dirty(3, e.L)
									}
									b.Into(ev, x, y, o)
								case "op0", "op1":
									z := x
									if mode == "op1" {
										z = y
									}
									c, isCt := z.(*ckks.Ciphertext)
									if b.Acc || !isCt || !b.Mul && c.Degree() < od {
										continue
									}
									o = c
									b.Into(ev, x, y, o)
								}
								what := fmt.Sprintf("%s %s degrees %d,%d levels %d,%d scales %g,%g same %v", b.Name, mode, d0, d1, l0, l1, sc, s1, same)
								if mode != "op0" && !(same && mode == "op1") {
									t.Check(hash(x) == hx, "binary/operand", "%s modifies its first operand", what)
								}
								if mode != "op1" && !(same && mode == "op0") {
									t.Check(hash(y) == hy, "binary/operand", "%s modifies its second operand", what)
								}
								got := acts.CtCanon(o, e.Q)
								if mode != "op0" && mode != "op1" {
									acts.Mess(o.Value...)
									t.Check(hash(x) == hx && hash(y) == hy, "binary/storage", "%s: the result shares the storage of an operand", what)
								}
								t.Check(got == want, "binary/"+mode, "%s differs from the result into a fresh receiver (level %d degree %d scale %g, against %d %d %g)", what, o.Level(), o.Degree(), o.Scale, base.Level(), base.Degree(), base.Scale)
								t.Eval(1)
								t.State(name, what)
							}
						}
					}
				}
			}
		}
	}
}

func imax(a, b int) int { return a + b - imin(a, b) }

func run(c *h.Ctx) {
	c.Case("multiplier", "multiplier", func(t *h.T) {
		d := 2
		if c.Thorough {
			d = 3
		}
		multiplier(t, d)
	})
	for _, name := range acts.Kinds() {
		name := name
		size := 0
		// the number of operations of a kind is found once, in a case of its own stream
		h.Seeded("size/"+name, func() { size = len(acts.New(&h.T{}, name).Acts) })
		depth, parts := 2, 1
		if size <= 32 {
			depth = 3
		}
		if c.Thorough {
			depth, parts = 3, 4
			if size <= 24 {
				depth = 4
			}
		}
		for f := 0; f < size; f++ {
			for p := 0; p < parts; p++ {
				f, p := f, p
				c.Case("history", fmt.Sprintf("history/%s/%d/%d", name, f, p), func(t *h.T) { histories(t, name, f, p, parts, depth) })
			}
		}
		if len(name) > 10 && name[:10] == "evaluator/" {
			for i := 0; i < 24; i++ {
				i := i
				c.Case("unary", fmt.Sprintf("unary/%s/%d", name, i), func(t *h.T) { unary(t, name, i) })
			}
			for i := 0; i < 8; i++ {
				i := i
				c.Case("binary", fmt.Sprintf("binary/%s/%d", name, i), func(t *h.T) { binary(t, name, i) })
			}
		}
	}
}

func main() {
	h.Main(h.Info{ID: "C16", Level: "model_checking",
		Rule:          "every history of the given depth over the operations of each object is executed on one real object: each step must give bit by bit the result of a fresh object, leave all operands and keys unchanged, and leave the results of the earlier steps unchanged (randomised operations: a correct result within the noise bound, with randomness distinct from the earlier ones); every operation of the evaluator is run on all levels, degrees and scales into a new, fresh, used, larger, once larger receiver and onto each operand, and must give the same residues, level, degree and scale",
		Bounds:        "21 kinds of objects (evaluators of 3 parameter sets, encoders, arbitrary-precision encoder, public- and secret-key encryptors with and without auxiliary modulus, decryptors, key switchers, basis extender, fast key switcher, fast evaluator, fast message encryptor and decryptor), 8-57 operations each; histories of depth 2 (3 for kinds of at most 32 operations), thorough 3 (4 for at most 24); 22 unary and 8 binary operations; the multiplier of complex numbers: histories of depth 2 (3) over 24 operations of 4 precisions",
		Assumptions:   []string{"receivers of the scheme's operations are in the NTT domain", "accumulations are not directed into their own operand"},
		QuickDeadline: 400, ThoroughDeadline: 860}, run)
}
