// C07: samplers return valid samples for every random stream.
package main

import (
	"encoding/binary"
	"fmt"
	"math"

	"fast-ksw/ring"
	"fast-ksw/utils"
	"verifharness/h"
	"verifharness/ref"
	"verifharness/ru"
)

// stream is a random source whose bytes are chosen by the exploration: a prefix, then a fixed filler.
type stream struct {
	prefix []byte
	pos    int
	clk    uint64
	key    uint64
	limit  int
}

type exhausted struct{}

func (s *stream) at(i int) byte {
	if i < len(s.prefix) {
		return s.prefix[i]
	}
	x := (uint64(i) + 1 + s.key) * 0x9E3779B97F4A7C15
	x ^= x >> 31
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 29
	return byte(x >> 24)
}
func (s *stream) Clock(b []byte) {
	for i := range b {
		b[i] = s.at(s.pos)
		s.pos++
	}
	s.clk++
	if s.limit > 0 && s.pos > s.limit {
		panic(exhausted{})
	}
}
func (s *stream) GetClock() uint64 { return s.clk }
func (s *stream) SetClock(b []byte, n uint64) error {
	for s.clk < n {
		s.Clock(b)
	}
	return nil
}

var _ utils.PRNG = (*stream)(nil)

func words(w ...uint64) []byte {
	b := make([]byte, 8*len(w))
	for i, x := range w {
		binary.BigEndian.PutUint64(b[8*i:], x)
	}
	return b
}

// prefixes enumerates adversarial stream prefixes: every constant byte of an alphabet, every run length,
// placed at several offsets, and all sequences of boundary words up to a depth.
func prefixes(th bool, q uint64, f func(p []byte)) {
	alpha := []byte{0, 0xFF, 0x55, 0xAA, 0x80, 0x01, 0x7F, 0xFE, 0x0F, 0xF0, 0x33}
	runs := []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 48, 64, 100, 128, 200, 256}
	offs := []int{0, 1, 2, 3, 5, 8, 13, 15, 16, 24, 32, 64, 120, 128}
	for _, a := range alpha {
		for _, o := range offs {
			for _, n := range runs {
				s := stream{key: 77}
				p := make([]byte, o+n)
				for i := 0; i < o; i++ {
					p[i] = s.at(i)
				}
				for i := o; i < o+n; i++ {
					p[i] = a
				}
				f(p)
			}
		}
	}
	// word sequences
	wa := []uint64{0, q - 1, q, q + 1, ^uint64(0), 1 << 63, 0x8000000080000000, 0x7fffffff7fffffff}
	depth := 3
	if th {
		depth = 4
	}
	seq := make([]uint64, depth)
	var rec func(i int)
	rec = func(i int) {
		if i == depth {
			for _, o := range []int{0, 8, 16, 112} {
				s := stream{key: 78}
				p := make([]byte, o)
				for k := range p {
					p[k] = s.at(k)
				}
				f(append(p, words(seq...)...))
			}
			return
		}
		for _, w := range wa {
			seq[i] = w
			rec(i + 1)
		}
	}
	rec(0)
}

func specs() []ru.RingSpec {
	S, CI := ring.Standard, ring.ConjugateInvariant
	return []ru.RingSpec{
		{"s16", 16, S, []uint64{97, 193, 257}},
		{"s16w", 16, S, ru.Mixed(32, 61, 20, 36)},
		{"s64", 64, S, ru.Mixed(128, 60, 45, 61)},
		{"ci32", 32, CI, ru.Mixed(128, 36, 61)},
		{"s16many", 16, S, ru.Mixed(32, append([]int{45, 61, 33, 55, 40}, ru.Rep(45, 31)...)...)},
		{"s32up", 32, S, ru.Mixed(64, 20, 45, 61)},
	}
}

func run(c *h.Ctx) {
	for _, sp := range specs() {
		sp := sp
		for l := range sp.Q {
			l := l
			if len(sp.Q) > 32 && l != len(sp.Q)-1 && !(c.Thorough && ru.Few(l, len(sp.Q), false)) {
				continue
			}
			c.Case("uniform", fmt.Sprintf("uniform/%s/%d", sp.Name, l), func(t *h.T) { uniform(t, c, sp, l) })
			for gi, g := range gaussCfg {
				g := g
				if g.bound > ru.MinQ(sp.Q)/4 {
					continue
				}
				c.Case("gaussian", fmt.Sprintf("gaussian/%s/%d/%d", sp.Name, l, gi), func(t *h.T) { gaussian(t, c, sp, l, g.sigma, int(g.bound)) })
			}
			for _, m := range []bool{false, true} {
				m := m
				for _, p := range probs {
					p := p
					c.Case("ternary", fmt.Sprintf("ternary/%s/%d/%v/%v", sp.Name, l, m, p), func(t *h.T) { ternary(t, c, sp, l, m, p, -1) })
				}
				hws := []int{0, 1, 2, 7, 8, 9, 15, 16, 17}
				if sp.N > 16 {
					hws = []int{0, 1, 8, 9, sp.N / 2, sp.N - 1, sp.N, sp.N + 3}
				}
				for _, w := range hws {
					w := w
					c.Case("sparse", fmt.Sprintf("sparse/%s/%d/%v/%d", sp.Name, l, m, w), func(t *h.T) { ternary(t, c, sp, l, m, 0, w) })
				}
			}
		}
		c.Case("histories", "hist/"+sp.Name, func(t *h.T) { histories(t, c, sp) })
	}
	for _, p := range probs {
		p := p
		if p != 0.5 {
			c.Case("distribution", fmt.Sprintf("dist/ternary/%v", p), func(t *h.T) { distTernary(t, c, p) })
		}
	}
	c.Case("distribution", "dist/half", distHalf)
	c.Case("distribution", "dist/sparse", distSparse)
	for _, hw := range []int{1, 2, 3} {
		hw := hw
		for _, n := range []int{16, 32} {
			n := n
			if n == 32 && hw > 2 && !c.Thorough {
				continue
			}
			c.Case("distribution", fmt.Sprintf("dist/sparse-exact/%d/%d", n, hw), func(t *h.T) { distSparseExact(t, n, hw) })
		}
	}
	c.Case("distribution", "dist/uniform", distUniform)
	for k := 0; k < 8; k++ {
		k := k
		c.Case("distribution", fmt.Sprintf("dist/gauss/%d", k), func(t *h.T) { distGauss(t, k) })
	}
	ns := []int{1024, 4096, 1 << 17}
	if c.Thorough {
		ns = append(ns, 256, 2048, 1<<13, 1<<14, 1<<15, 1<<16)
	}
	for _, n := range ns {
		n := n
		for kind := range blockKinds {
			kind := kind
			c.Case("blocks", fmt.Sprintf("blocks/%d/%s", n, blockKinds[kind]), func(t *h.T) { blocks(t, n, kind) })
		}
	}
	c.Case("randuniform", "randuniform", func(t *h.T) { randUniform(t, c) })
}

var probs = []float64{1.0 / 3, 0.5, 0.25, 0.75, 0.1, 2.0 / 3, 0.9, 0.6, 0.01, 0.003, 0.3, 0.7, 0.997, 1e-9}
var gaussCfg = []struct {
	sigma float64
	bound uint64
}{{3.2, 19}, {3.2, 3}, {1, 6}, {1 << 20, 6 << 20}, {0.5, 1}, {8, 48}}

func uniform(t *h.T, c *h.Ctx, sp ru.RingSpec, l int) {
	r := sp.New(t)
	L := len(sp.Q) - 1
	last := uint64(0)
	prefixes(c.Thorough, sp.Q[l], func(p []byte) {
		for mode := 0; mode < 4; mode++ {
			s := &stream{prefix: p}
			u := ring.NewUniformSampler(s, r)
			o := ru.Junk(sp.N, L, "u")
			was := ru.Clone(o.Coeffs)
			switch mode {
			case 0:
				u.ReadLvl(l, o)
			case 1:
				u.Read(&ring.Poly{Coeffs: o.Coeffs[:l+1]})
			case 2:
				o = u.ReadLvlNew(l)
			case 3:
				if l != L {
					continue
				}
				o = u.ReadNew()
			}
			t.Eval(1)
			if mode < 2 {
				if ok, d := ru.Same(o.Coeffs[l+1:], was[l+1:]); !ok {
					t.Fail("uniform-upper", "%s level %d writes above: %s", sp, l, d)
				}
			} else if o.Level() != l {
				t.Fail("uniform-new", "%s level %d want %d", sp, o.Level(), l)
			}
			for i := 0; i <= l; i++ {
				for j, v := range o.Coeffs[i] {
					if v >= sp.Q[i] {
						t.Fail("uniform", "%s mode %d level %d limb %d coefficient %d = %d >= modulus %d (stream prefix %x)", sp, mode, l, i, j, v, sp.Q[i], p)
					}
				}
			}
			hv := h.Hash(fmt.Sprint(o.Coeffs[:l+1]))
			if mode == 0 {
				last = hv
				t.StateHash(hv)
			} else if hv != last {
				t.Fail("uniform-equal", "%s mode %d level %d: equal streams give different samples", sp, mode, l)
			}
		}
	})
}

// small decodes limbs that must all encode one small integer.
func small(t *h.T, sig string, sp ru.RingSpec, co [][]uint64, l, j int, bound uint64, mont bool) int64 {
	dec := func(i int) (int64, bool) {
		q := sp.Q[i]
		v := co[i][j]
		if v > q {
			return 0, false
		}
		v %= q
		if mont {
			v = ref.MulMod(v, ref.InvMod(ref.R64(q), q), q)
		}
		if v <= bound {
			return int64(v), true
		}
		if q-v <= bound {
			return -int64(q - v), true
		}
		return 0, false
	}
	v0, ok := dec(0)
	if !ok {
		t.Fail(sig, "%s limb 0 coefficient %d = %d exceeds the bound %d", sp, j, co[0][j], bound)
	}
	for i := 1; i <= l; i++ {
		v, ok := dec(i)
		if !ok || v != v0 && !(uint64(absI(v-v0)) == sp.Q[0]) {
			t.Fail(sig, "%s coefficient %d: limb 0 encodes %d, limb %d holds %d (bound %d)", sp, j, v0, i, co[i][j], bound)
		}
	}
	return v0
}

func absI(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

func gaussian(t *h.T, c *h.Ctx, sp ru.RingSpec, l int, sigma float64, bound int) {
	r := sp.New(t)
	L := len(sp.Q) - 1
	other, _ := ring.NewRing(r.N, ru.Mixed(r.NthRoot, 45, 60))
	prefixes(c.Thorough, sp.Q[l], func(p []byte) {
		var base [][]uint64
		for mode := 0; mode < 7; mode++ {
			s := &stream{prefix: p}
			g := ring.NewGaussianSampler(s, r, sigma, bound)
			o := ru.JunkRed(sp.N, L, sp.Q, "g")
			was := ru.Clone(o.Coeffs)
			cmp := true
			switch mode {
			case 0:
				g.ReadLvl(l, o)
			case 1:
				if l != L {
					continue
				}
				g.Read(o)
			case 2:
				o = g.ReadLvlNew(l)
			case 3:
				if l != L {
					continue
				}
				o = g.ReadNew()
			case 4:
				g = ring.NewGaussianSampler(s, other, 77, 400)
				g.ReadFromDistLvl(l, o, r, sigma, bound)
			case 5:
				g.ReadAndAddLvl(l, o)
				cmp = false
			case 6:
				g = ring.NewGaussianSampler(s, other, 77, 400)
				g.ReadAndAddFromDistLvl(l, o, r, sigma, bound)
				cmp = false
			}
			t.Eval(1)
			if mode == 2 && o.Level() != l {
				t.Fail("gaussian-new", "%s level %d want %d", sp, o.Level(), l)
			}
			if mode != 2 && mode != 3 {
				if ok, d := ru.Same(o.Coeffs[l+1:], was[l+1:]); !ok {
					t.Fail("gaussian-upper", "%s mode %d level %d writes above: %s", sp, mode, l, d)
				}
			}
			if cmp {
				for j := 0; j < sp.N; j++ {
					small(t, "gaussian", sp, o.Coeffs, l, j, uint64(bound), false)
				}
			}
			if mode == 0 {
				base = ru.Clone(o.Coeffs[:l+1])
				t.StateHash(h.Hash(fmt.Sprint(base)))
				continue
			}
			for i := 0; i <= l; i++ {
				q := sp.Q[i]
				for j := range o.Coeffs[i] {
					want := base[i][j] % q
					if !cmp {
						want = ref.AddMod(want, was[i][j], q)
					}
					if !cmp && o.Coeffs[i][j] >= q {
						t.Fail("gaussian-add", "%s mode %d limb %d coefficient %d: sum %d not reduced modulo %d", sp, mode, i, j, o.Coeffs[i][j], q)
					}
					if o.Coeffs[i][j]%q != want {
						t.Fail("gaussian-add", "%s mode %d level %d limb %d coefficient %d: %d want %d", sp, mode, l, i, j, o.Coeffs[i][j], want)
					}
				}
			}
		}
	})
}

func newTernary(s utils.PRNG, r *ring.Ring, p float64, hw int, mont bool) *ring.TernarySampler {
	if hw >= 0 {
		return ring.NewTernarySamplerWithHammingWeight(s, r, hw, mont)
	}
	return ring.NewTernarySampler(s, r, p, mont)
}

func ternary(t *h.T, c *h.Ctx, sp ru.RingSpec, l int, mont bool, p float64, hw int) {
	r := sp.New(t)
	L := len(sp.Q) - 1
	prefixes(c.Thorough, sp.Q[l], func(pre []byte) {
		var base [][]uint64
		for mode := 0; mode < 4; mode++ {
			s := &stream{prefix: pre}
			ts := newTernary(s, r, p, hw, mont)
			o := ru.Junk(sp.N, L, "t")
			was := ru.Clone(o.Coeffs)
			switch mode {
			case 0:
				ts.ReadLvl(l, o)
			case 1:
				o = ts.ReadLvlNew(l)
			case 2:
				if l != L {
					continue
				}
				ts.Read(o)
			case 3:
				if l != L {
					continue
				}
				o = ts.ReadNew()
			}
			t.Eval(1)
			if mode == 0 || mode == 2 {
				if ok, d := ru.Same(o.Coeffs[l+1:], was[l+1:]); !ok {
					t.Fail("ternary-upper", "%s mode %d level %d writes above: %s", sp, mode, l, d)
				}
			} else if o.Level() != l {
				t.Fail("ternary-new", "%s level %d want %d", sp, o.Level(), l)
			}
			if mode == 0 {
				base = ru.Clone(o.Coeffs[:l+1])
				w := 0
				for j := 0; j < sp.N; j++ {
					if small(t, "ternary", sp, base, l, j, 1, mont) != 0 {
						w++
					}
					for i := 0; i <= l; i++ {
						if base[i][j] >= sp.Q[i] {
							t.Fail("ternary", "%s limb %d coefficient %d = %d not reduced", sp, i, j, base[i][j])
						}
					}
				}
				if want := hw; hw >= 0 {
					if want > sp.N {
						want = sp.N
					}
					if w != want {
						t.Fail("ternary-weight", "%s weight %d want %d (stream prefix %x)", sp, w, want, pre)
					}
				}
				t.StateHash(h.Hash(fmt.Sprint(base)))
			} else if ok, d := ru.Same(o.Coeffs[:l+1], base); !ok {
				t.Fail("ternary-equal", "%s mode %d: equal streams give different samples: %s", sp, mode, d)
			}
		}
	})
}

// histories: sequences of reads at varying levels on one sampler; two samplers on equal keys agree, every
// sample is valid, and a sampler of one kind sharing the source with another does not corrupt it.
func histories(t *h.T, c *h.Ctx, sp ru.RingSpec) {
	r := sp.New(t)
	L := len(sp.Q) - 1
	nops := 5 * (L + 1)
	depth := 2
	if c.Thorough {
		depth = 3
	}
	total := 1
	for i := 0; i < depth; i++ {
		total *= nops
	}
	mk := func() []func(l int, o *ring.Poly) {
		prng, err := utils.NewKeyedPRNG([]byte("history"))
		if err != nil {
			t.Fail("prng", "%v", err)
		}
		u := ring.NewUniformSampler(prng, r)
		g := ring.NewGaussianSampler(prng, r, 3.2, 19)
		ts := ring.NewTernarySampler(prng, r, 1.0/3, true)
		th := ring.NewTernarySampler(prng, r, 0.5, false)
		sp := ring.NewTernarySamplerWithHammingWeight(prng, r, 5, true)
		return []func(l int, o *ring.Poly){u.ReadLvl, g.ReadLvl, ts.ReadLvl, th.ReadLvl, sp.ReadLvl}
	}
	for code := 0; code < total; code++ {
		a, b := mk(), mk()
		x := code
		for k := 0; k < depth; k++ {
			op := x % nops
			x /= nops
			kind, l := op%5, op/5
			o1, o2 := ru.JunkRed(sp.N, L, sp.Q, fmt.Sprint("a", k)), ru.JunkRed(sp.N, L, sp.Q, fmt.Sprint("b", k))
			a[kind](l, o1)
			b[kind](l, o2)
			t.Eval(1)
			if ok, d := ru.Same(o1.Coeffs[:l+1], o2.Coeffs[:l+1]); !ok {
				t.Fail("history", "%s history %d step %d: equal keys, different samples: %s", sp, code, k, d)
			}
			w := 0
			for j := 0; j < sp.N; j++ {
				switch kind {
				case 0:
					for i := 0; i <= l; i++ {
						if o1.Coeffs[i][j] >= sp.Q[i] {
							t.Fail("history", "%s uniform sample out of range", sp)
						}
					}
				case 1:
					small(t, "history", sp, o1.Coeffs, l, j, 19, false)
				case 2:
					small(t, "history", sp, o1.Coeffs, l, j, 1, true)
				case 3:
					small(t, "history", sp, o1.Coeffs, l, j, 1, false)
				case 4:
					if small(t, "history", sp, o1.Coeffs, l, j, 1, true) != 0 {
						w++
					}
				}
			}
			if kind == 4 && w != 5 {
				t.Fail("history", "%s weight %d want 5", sp, w)
			}
			t.StateHash(h.Hash(fmt.Sprint(code, o1.Coeffs[0][:8])))
		}
	}
}

var distSpec = ru.RingSpec{Name: "d16", N: 16, Type: ring.Standard, Q: []uint64{97}}

func tern(v, q uint64) int {
	switch v {
	case 0:
		return 0
	case 1:
		return 1
	case q - 1:
		return 2
	}
	return -1
}

// distTernary: over every stream of B leading bits the first coefficients have the product distribution.
func distTernary(t *h.T, c *h.Ctx, p float64) {
	r := distSpec.New(t)
	B := 17
	if c.Thorough {
		B = 22
	}
	cnt := map[[3]int]float64{}
	o := r.NewPoly()
	// free bits: the first B bits of the stream in the order in which a bit-serial reader (LSB first) sees them
	for x := 0; x < 1<<uint(B); x++ {
		p4 := []byte{byte(x), byte(x >> 8), byte(x>>16) | byte(0xA5<<uint(B-16))}
		s := &stream{prefix: p4}
		ring.NewTernarySampler(s, r, p, false).Read(o)
		k := [3]int{}
		for i := range k {
			k[i] = tern(o.Coeffs[0][i], 97)
		}
		cnt[k]++
	}
	t.Eval(1 << uint(B))
	pr := [3]float64{p, (1 - p) / 2, (1 - p) / 2}
	tot := float64(int(1) << uint(B))
	// A stream decides three coefficients within B bits except with small probability; bound the slack by
	// the marginal cost: each coefficient ends at each bit with probability at least 1/2.
	und := 0.0
	for k := 0; k < 3; k++ { // fewer than 3 of B-3 fair trials succeed
		und += binom(B-3, k)
	}
	und = und / math.Pow(2, float64(B-3)) * tot
	for a := 0; a < 3; a++ {
		for b := 0; b < 3; b++ {
			for d := 0; d < 3; d++ {
				want := pr[a] * pr[b] * pr[d] * tot
				got := cnt[[3]int{a, b, d}]
				if math.Abs(got-want) > und+2 {
					t.Note("ternary-distribution", "p=%v: leading coefficients (%d,%d,%d) (2 stands for -1) occur for %v of %v streams, want %.0f (slack %.0f)", p, a, b, d, got, tot, want, und)
					return
				}
				t.State(p, a, b, d)
			}
		}
	}
}

func binom(n, k int) float64 {
	x := 1.0
	for i := 0; i < k; i++ {
		x = x * float64(n-i) / float64(i+1)
	}
	return x
}

// distHalf: p = 1/2 over all values of the first four stream bytes two at a time.
func distHalf(t *h.T) {
	r := distSpec.New(t)
	o := r.NewPoly()
	for _, off := range []int{0, 2} {
		var zero, neg, pos [16]int
		pair := map[[2]int]int{}
		for x := 0; x < 1<<16; x++ {
			for _, f := range []byte{0x00, 0xFF} { // the other half: all zero bits, all one bits
				p := []byte{f, f, f, f}
				p[off], p[off+1] = byte(x), byte(x>>8)
				ring.NewTernarySampler(&stream{prefix: p}, r, 0.5, false).Read(o)
				t.Eval(1)
				for j := range o.Coeffs[0] {
					switch tern(o.Coeffs[0][j], 97) {
					case 0:
						zero[j]++
					case 1:
						pos[j]++
					case 2:
						neg[j]++
					default:
						t.Fail("ternary", "value %d", o.Coeffs[0][j])
					}
				}
				pair[[2]int{tern(o.Coeffs[0][3], 97), tern(o.Coeffs[0][12], 97)}]++
			}
		}
		for j := range zero {
			if zero[j] != 1<<16 {
				t.Note("ternary-distribution", "p=1/2 coefficient %d: zero for %d of %d streams", j, zero[j], 2<<16)
				return
			}
			if pos[j] != 1<<15 || neg[j] != 1<<15 {
				t.Note("ternary-distribution", "p=1/2 coefficient %d: +1 for %d, -1 for %d of %d streams", j, pos[j], neg[j], 2<<16)
				return
			}
		}
		t.State("half", off, len(pair))
	}
}

// sparseLayout finds where a sparse sampler of weight hw takes its randomness: the width of one position draw, and
// whether the sign bytes come first. ok is false when the reads do not have this shape.
func sparseLayout(r *ring.Ring, hw int) (width int, ok bool) {
	s := &recorder{}
	ring.NewTernarySamplerWithHammingWeight(s, r, hw, false).Read(r.NewPoly())
	if len(s.lens) != hw+1 || s.lens[0] != (hw+7)/8 {
		return 0, false
	}
	for _, w := range s.lens[2:] {
		if w != s.lens[1] {
			return 0, false
		}
	}
	return s.lens[1], true
}

// recorder answers zeros and remembers the sizes of the reads.
type recorder struct {
	stream
	lens []int
}

func (s *recorder) Clock(b []byte) {
	s.lens = append(s.lens, len(b))
	for i := range b {
		b[i] = 0
	}
}

// distSparse: all low bytes of the first two position draws reach every pair of positions equally often.
func distSparse(t *h.T) {
	r := distSpec.New(t)
	o := r.NewPoly()
	for _, hw := range []int{1, 2, 3} {
		w, ok := sparseLayout(r, hw)
		if !ok || w < 1 || w > 8 { // another way of drawing: the streams below would not enumerate the positions
			t.State("sparse", hw, "layout not recognised")
			continue
		}
		cnt := map[string]int{}
		for x := 0; x < 1<<16; x++ {
			p := []byte{byte(x * 7 >> 3)}
			for _, low := range []byte{byte(x), byte(x >> 8), 0xFF} {
				d := make([]byte, w)
				d[w-1] = low
				p = append(p, d...)
			}
			ring.NewTernarySamplerWithHammingWeight(&stream{prefix: p}, r, hw, false).Read(o)
			t.Eval(1)
			k := ""
			for j := range o.Coeffs[0] {
				if o.Coeffs[0][j] != 0 {
					k += fmt.Sprint(j, ",")
				}
			}
			cnt[k]++
		}
		want, least := 16, 1<<12/2
		if hw == 2 {
			want, least = 120, 256
		}
		if hw < 3 {
			if len(cnt) != want {
				t.Fail("sparse-distribution", "weight %d: %d of %d supports reached", hw, len(cnt), want)
			}
			for k, v := range cnt {
				if v < least {
					t.Fail("sparse-distribution", "weight %d: support %s reached by %d streams, want at least %d", hw, k, v, least)
				}
				t.State("sparse", hw, k)
			}
		}
	}
	if _, ok := sparseLayout(r, 9); !ok {
		return
	}
	// signs: every sign vector of 9 coefficients is reached equally often over all sign bytes
	cnt := map[string]int{}
	for x := 0; x < 1<<16; x++ {
		p := []byte{byte(x), byte(x >> 8)}
		p = append(p, make([]byte, 8*9)...)
		ring.NewTernarySamplerWithHammingWeight(&stream{prefix: p}, r, 9, false).Read(o)
		t.Eval(1)
		k := ""
		for j := range o.Coeffs[0] {
			if v := tern(o.Coeffs[0][j], 97); v > 0 {
				k += fmt.Sprint(v)
			}
		}
		cnt[k]++
	}
	if len(cnt) != 512 {
		t.Fail("sparse-distribution", "weight 9: %d of 512 sign vectors reached", len(cnt))
	}
	for k, v := range cnt {
		if v != 128 {
			t.Fail("sparse-distribution", "weight 9: signs %s reached by %d of 65536 streams, want 128", k, v)
		}
	}
}

// distSparseExact: with a source bounded to hw+1 index draws, all values of the draws are enumerated; draws
// that need more are cut off. Whatever the rejections, every support must be hit by the same number of sources.
func distSparseExact(t *h.T, n, hw int) {
	sp := distSpec
	sp.N = n
	if n == 32 {
		sp.Q = []uint64{193}
	}
	r := sp.New(t)
	o := r.NewPoly()
	width := 2 * n // the first draw is from [0, 2n)
	words := hw + 1
	if n == 32 && hw == 3 {
		words = 3
	}
	total := 1
	for i := 0; i < words; i++ {
		total *= width
	}
	cnt := make(map[[3]int]int)
	pre := make([]byte, 1+4*words)
	decided := 0
	for x := 0; x < total; x++ {
		y := x
		for w := 0; w < words; w++ {
			v := byte(y % width)
			y /= width
			for b := 0; b < 4; b++ {
				pre[1+4*w+b] = v
			}
		}
		ok := func() (ok bool) {
			defer func() {
				if e := recover(); e != nil {
					if _, is := e.(exhausted); !is {
						panic(e)
					}
				}
			}()
			ring.NewTernarySamplerWithHammingWeight(&stream{prefix: pre, limit: len(pre)}, r, hw, false).Read(o)
			return true
		}()
		t.Eval(1)
		if !ok {
			continue
		}
		decided++
		k := [3]int{-1, -1, -1}
		i := 0
		for j, v := range o.Coeffs[0] {
			if v != 0 {
				if i < 3 {
					k[i] = j
				}
				i++
			}
		}
		if i != hw {
			t.Fail("sparse-weight", "weight %d sample with %d non-zero coefficients", hw, i)
		}
		cnt[k]++
	}
	if decided == 0 { // the sampler reads more than the draws enumerated
		return
	}
	want := 1
	for i := 0; i < hw; i++ {
		want = want * (n - i) / (i + 1)
	}
	if len(cnt) != want {
		t.Fail("sparse-exact", "N=%d weight %d: %d of %d supports reached", n, hw, len(cnt), want)
	}
	ref := -1
	for k, v := range cnt {
		if ref < 0 {
			ref = v
		}
		if v != ref {
			t.Fail("sparse-exact", "N=%d weight %d: support %v is drawn by %d of the enumerated sources, another by %d", n, hw, k[:hw], v, ref)
		}
		t.State("sparse-exact", n, hw, k)
	}
}

// distUniform: as one byte of the source ranges over all values, a coefficient over a 7-bit modulus takes
// every residue equally often (the rejected draws all fall on the next word).
func distUniform(t *h.T) {
	for _, q := range []uint64{97, 193, 257} {
		sp := distSpec
		sp.Q = []uint64{q}
		r := sp.New(t)
		o := r.NewPoly()
		used := 0
		pos := 1
		if q == 257 {
			pos = 2
		}
		for b := 0; b < 8; b += pos {
			cnt := map[uint64]int{}
			tot := 1 << uint(8*pos)
			for x := 0; x < tot; x++ {
				p := make([]byte, 8)
				for k := 0; k < pos; k++ {
					p[b+k] = byte(x >> uint(8*k))
				}
				p = append(p, words(5)...)
				ring.NewUniformSampler(&stream{prefix: p}, r).Read(o)
				cnt[o.Coeffs[0][0]]++
			}
			t.Eval(tot)
			if len(cnt) == 1 {
				continue
			}
			used++
			if uint64(len(cnt)) != q {
				t.Fail("uniform-distribution", "modulus %d: %d residues reached", q, len(cnt))
			}
			common := cnt[0]
			if cnt[1] != common {
				common = cnt[2]
			}
			odd := 0
			for v, n := range cnt {
				if n != common {
					odd++
					if odd > 1 {
						t.Fail("uniform-distribution", "modulus %d: residue %d reached %d times, others %d", q, v, n, common)
					}
				}
				t.State(q, v)
			}
		}
		if used == 0 {
			t.Fail("uniform-distribution", "modulus %d: the sample ignores the source", q)
		}
	}
	// every bit of a wide modulus is reachable and no residue range is cut off
	for _, q := range ru.Mixed(32, 61, 45, 36, 20) {
		sp := distSpec
		sp.Q = []uint64{q}
		r := sp.New(t)
		o := r.NewPoly()
		var or uint64
		max := uint64(0)
		for k := uint64(0); k < 64; k++ {
			s := &stream{key: k * 1000003}
			u := ring.NewUniformSampler(s, r)
			for n := 0; n < 16; n++ {
				u.Read(o)
				for _, v := range o.Coeffs[0] {
					or |= v
					if v > max {
						max = v
					}
				}
			}
		}
		t.Eval(1024)
		m := uint64(1)
		for m-1 < q {
			m <<= 1
		}
		if or != m-1 {
			t.Fail("uniform-distribution", "modulus %d: bits %x are never set", q, (m-1)&^or)
		}
		if float64(max) < 0.995*float64(q) {
			t.Fail("uniform-distribution", "modulus %d: largest of 16384 samples is %d", q, max)
		}
	}
}

// zig computes the ziggurat tables of the standard normal distribution (128 strips) from their definition.
func zig() (kn, wn, fn [128]float64) {
	const m1 = 1 << 31
	dn, vn := 3.442619855899, 9.91256303526217e-3
	tn := dn
	q := vn / math.Exp(-.5*dn*dn)
	kn[0], kn[1] = dn/q*m1, 0
	wn[0], wn[127] = q/m1, dn/m1
	fn[0], fn[127] = 1, math.Exp(-.5*dn*dn)
	for i := 126; i >= 1; i-- {
		dn = math.Sqrt(-2 * math.Log(vn/dn+math.Exp(-.5*dn*dn)))
		kn[i+1] = dn / tn * m1
		tn = dn
		fn[i] = math.Exp(-.5 * dn * dn)
		wn[i] = dn / m1
	}
	return
}

// distGauss: each strip accepts exactly below its threshold, scales by its width, and resolves the wedge and
// the tail as the ziggurat definition says; streams keep a small margin around the decision boundaries.
func distGauss(t *h.T, part int) {
	kn, wn, fn := zig()
	q := ru.Mixed(32, 61)[0]
	sp := ru.RingSpec{Name: "z16", N: 16, Type: ring.Standard, Q: []uint64{q}}
	r := sp.New(t)
	sigma := float64(uint64(1) << 40)
	fill := words(0x0000010000000000)
	fillV := 256 * wn[0] // j = 0x100: strip 0, accepted
	o := r.NewPoly()
	try := func(want float64, sign uint64, what string, w ...uint64) {
		p := words(w...)
		for len(p) < 1024 {
			p = append(p, fill...)
		}
		ring.NewGaussianSampler(&stream{prefix: p}, r, sigma, 1<<46).Read(o)
		t.Eval(1)
		v := o.Coeffs[0][0]
		got := float64(v)
		if v > q/2 {
			got = -float64(q - v)
		}
		if sign == 0 {
			got = -got
		}
		want *= sigma
		if math.Abs(got-want) > 1+math.Abs(want)*1e-5 {
			t.Fail("gaussian-distribution", "%s (words %x): sample %v want %v", what, w, got/sigma, want/sigma)
		}
		t.State(what, sign, got)
	}
	word := func(i int, j float64, sign uint64) (uint64, float64) {
		jj := uint64(j)
		jj = jj&^0x7F | uint64(i)
		return (sign<<31 | jj) << 32, float64(jj)
	}
	f53 := func(u float64) uint64 { return uint64(u * float64(1<<53-1)) }
	for i := part; i < 128; i += 8 {
		for sign := uint64(0); sign < 2; sign++ {
			if sign == 0 && kn[i] == 0 {
				_ = sign
			}
			// accepted region
			if kn[i] > 1024 {
				for _, f := range []float64{0, 0.01, 0.25, 0.5, 0.9, 1} {
					w, j := word(i, math.Max(0, kn[i]*f-512), sign)
					try(j*wn[i], sign, fmt.Sprintf("strip %d accepted", i), w)
				}
			}
			if i == 0 {
				// tail: x = -ln(u1)/r, y = -ln(u2), accepted when 2y >= x^2
				for _, f := range []float64{1.00001, 1.01, 1.0} {
					j := kn[0]*f + 512
					if f == 1.0 {
						j = float64(1<<31 - 128)
					}
					w, _ := word(0, math.Min(j, float64(1<<31-128)), sign)
					for _, u1 := range []float64{0.9, 0.5, 0.1, 0.01} {
						x := -math.Log(u1) / 3.442619855899
						for _, k := range []float64{0.9, 0.5, 1.05, 1.5} {
							u2 := math.Exp(-x * x / 2 * k)
							if k > 1 { // 2y = k x^2 >= x^2: accepted
								try(x+3.442619855899, sign, "tail accepted", w, f53(u1), f53(u2))
							} else { // rejected: next pair is used
								try(-math.Log(0.3)/3.442619855899+3.442619855899, sign, "tail rejected", w, f53(u1), f53(u2), f53(0.3), f53(1e-3))
							}
						}
					}
				}
				continue
			}
			// wedge
			for _, f := range []float64{0.02, 0.3, 0.6, 0.95} {
				lo := kn[i] + 512
				jj := lo + f*(float64(1<<31-256)-lo)
				w, j := word(i, jj, sign)
				x := j * wn[i]
				th := (math.Exp(-.5*x*x) - fn[i]) / (fn[i-1] - fn[i])
				if th > 0.01 && th <= 1.01 {
					try(x, sign, fmt.Sprintf("strip %d wedge accepted", i), w, f53(th*0.99-0.002))
				}
				if th < 0.97 {
					try(sgn(fillV, sign), sign, fmt.Sprintf("strip %d wedge rejected", i), w, f53(math.Max(0.001, th*1.01+0.005)), fill64(fill, sign))
				}
			}
		}
	}
}

func sgn(v float64, s uint64) float64 { return v }
func fill64(f []byte, sign uint64) uint64 {
	return binary.BigEndian.Uint64(f) | sign<<63
}

func randUniform(t *h.T, c *h.Ctx) {
	for _, v := range []uint64{1, 2, 3, 5, 97, 128, 255, 257, 1<<61 - 1, 1 << 60} {
		mask := uint64(1)
		for mask < v {
			mask <<= 1
		}
		mask--
		if v == 1 {
			mask = 0
		}
		prefixes(false, v, func(p []byte) {
			x := ring.RandUniform(&stream{prefix: p}, v, mask)
			t.Eval(1)
			if x >= v {
				t.Fail("rand-uniform", "RandUniform(%d) = %d", v, x)
			}
			t.State("ru", v, x)
		})
	}
	for _, v := range []uint64{3, 97, 200} {
		mask := uint64(255)
		cnt := map[uint64]int{}
		for x := 0; x < 256; x++ {
			cnt[ring.RandUniform(&stream{prefix: append(words(uint64(x)), words(1)...)}, v, mask)]++
		}
		for k := uint64(0); k < v; k++ {
			want := 1
			if k == 1 {
				want = 1 + 256 - int(v)
			}
			if cnt[k] != want {
				t.Fail("rand-uniform", "RandUniform(%d): value %d reached %d times over all bytes, want %d", v, k, cnt[k], want)
			}
		}
	}
}

func main() {
	h.Main(h.Info{
		ID: "C07", Level: "exploration",
		Rule:        "every stream prefix from the alphabet (11 constant bytes x 14 offsets x 19 run lengths, all sequences of boundary words at four offsets) x sampler kind x configuration x level x read variant: range, agreement between limbs, weight, untouched limbs, add variants, equal streams; all sequences of reads on samplers sharing a source; exact outcome counts over all leading bits/bytes for the distributions; ziggurat decisions per strip against tables computed from the definition. Non-trivial: distinct samples/outcomes.",
		Bounds:      "N in {16,32,64}, 1..3 primes (36 at the top level), and N in {1024, 4096, 2^17} (thorough: every power of two) for the parts of the stream that the coefficients, limbs and reads use; word sequences of length 3 (thorough 4); sampler histories of length 2 (3); 2^17 (2^22) streams per ternary probability",
		Assumptions: []string{"the source is not constantly rejecting (after the chosen prefix a fixed filler follows)", "probability 0 < p < 1 (p=0 panics by design)", "a Gaussian zero may be represented by q"},
	}, run)
}

var blockKinds = []string{"uniform", "gaussian", "gaussian-add", "ternary-third", "ternary-half", "ternary-sparse", "ternary-full"}

// blocks: large degrees. Three consecutive reads of one sampler, at full, lowest and full level, from a source whose
// stream repeats nothing: the samples are valid, no block of coefficients of one sample (or limb, for uniform samples)
// occurs a second time in it or in a later one, and each sixteenth of the coefficients gets its share of the values.
func blocks(t *h.T, n, kind int) {
	sp := ru.RingSpec{Name: fmt.Sprint("b", n), N: n, Type: ring.Standard, Q: ru.Mixed(uint64(2*n), 60, 45, 60)}
	r := sp.New(t)
	s := &stream{key: uint64(n)}
	L := len(sp.Q) - 1
	var read func(l int, o *ring.Poly)
	weight, width, bound := -1, 40, uint64(1)
	mont := false
	switch kind {
	case 0:
		read, width = ring.NewUniformSampler(s, r).ReadLvl, 14
	case 1:
		g := ring.NewGaussianSampler(s, r, 3.2, 19)
		read, width, bound = g.ReadLvl, 24, 19
	case 2:
		g := ring.NewGaussianSampler(s, r, 3.2, 19)
		read = func(l int, o *ring.Poly) {
			for i := 0; i <= l; i++ {
				for j := range o.Coeffs[i] {
					o.Coeffs[i][j] = 0
				}
			}
			g.ReadAndAddLvl(l, o)
		}
		width, bound = 24, 19
	case 3:
		read, mont = ring.NewTernarySampler(s, r, 1.0/3, true).ReadLvl, true
	case 4:
		read, width = ring.NewTernarySampler(s, r, 0.5, false).ReadLvl, 44
	case 5:
		weight = n/2 + 3
		read, width, mont = ring.NewTernarySamplerWithHammingWeight(s, r, weight, true).ReadLvl, 48, true
	case 6:
		weight = n
		read, width = ring.NewTernarySamplerWithHammingWeight(s, r, weight, false).ReadLvl, 64
	}
	seen := map[string]string{}
	for k, l := range []int{L, 0, L} {
		o := ru.JunkRed(n, L, sp.Q, "blocks")
		was := ru.Clone(o.Coeffs)
		read(l, o)
		t.Eval(n)
		if ok, d := ru.Same(o.Coeffs[l+1:], was[l+1:]); !ok {
			t.Fail("blocks-upper", "%s %s read %d at level %d writes above: %s", sp, blockKinds[kind], k, l, d)
		}
		limbs := 0
		if kind == 0 {
			limbs = l
		}
		for i := 0; i <= limbs; i++ {
			digits := make([]byte, n)
			nz := [16]int{}
			w := 0
			for j := range digits {
				if kind == 0 {
					v := o.Coeffs[i][j]
					if v >= sp.Q[i] {
						t.Fail("blocks", "%s uniform coefficient %d of limb %d is %d", sp, j, i, v)
					}
					digits[j] = byte(v & 63)
					if v > sp.Q[i]/2 {
						nz[16*j/n]++
					}
					continue
				}
				v := small(t, "blocks", sp, o.Coeffs, l, j, bound, mont)
				digits[j] = byte(v)
				if v != 0 {
					w++
				}
				if v > 0 || weight >= 0 && weight < n && v != 0 {
					nz[16*j/n]++
				}
			}
			if weight >= 0 && w != weight {
				t.Fail("blocks-weight", "%s weight %d want %d", sp, w, weight)
			}
			sum := 0
			for _, x := range nz {
				sum += x
			}
			for b, x := range nz {
				// each count is a sum of n/16 decisions: twelve standard deviations around the mean
				if d := float64(16*x-sum) / 16; d*d > 144*float64(n/16)/4 {
					t.Fail("blocks-share", "%s %s read %d limb %d: block %d of 16 holds %d of %d values", sp, blockKinds[kind], k, i, b, x, sum)
				}
			}
			if p := float64(sum) / float64(n); p < 0.15 || p > 0.65 {
				t.Fail("blocks-share", "%s %s read %d limb %d: %d of %d values", sp, blockKinds[kind], k, i, sum, n)
			}
			for j := 0; j+width <= n; j++ {
				key := string(digits[j : j+width])
				at := fmt.Sprintf("read %d limb %d coefficient %d", k, i, j)
				if p, ok := seen[key]; ok {
					t.Fail("blocks-repeat", "%s %s: %d coefficients at %s repeat those at %s", sp, blockKinds[kind], width, at, p)
				}
				seen[key] = at
			}
			t.State("blocks", n, kind, k, i)
		}
	}
}
