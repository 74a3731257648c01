// C09: keyed random streams are reproducible and seekable; buffer and helpers match models.
package main

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"math"
	"math/bits"
	"reflect"
	"strings"

	"fast-ksw/utils"
	"golang.org/x/crypto/blake2b"
	"verifharness/h"
)

// ---------- generators ----------

type pop struct {
	kind byte // 'r' Clock, 's' SetClock, 'g' GetClock
	n    int  // buffer length
	d    int  // clock displacement of SetClock
}

func (o pop) String() string { return fmt.Sprintf("%c%d%+d", o.kind, o.n, o.d) }

func popsFor(th bool) (o []pop) {
	lens := []int{0, 1, 7, 64, 65, 200}
	if th {
		lens = []int{0, 1, 7, 8, 63, 64, 65, 128, 200, 1024}
	}
	for _, n := range lens {
		o = append(o, pop{'r', n, 0})
	}
	for _, n := range []int{0, 1, 32, 70} {
		for _, d := range []int{-1, 0, 1, 3} {
			o = append(o, pop{'s', n, d})
		}
	}
	return
}

// stream is the reference: the extendable output of the keyed hash, read sequentially.
type stream struct {
	b     []byte
	pos   int
	clock uint64
}

func refStream(key []byte, n int) []byte {
	x, err := blake2b.NewXOF(blake2b.OutputLengthUnknown, key)
	if err != nil {
		panic(err)
	}
	b := make([]byte, n)
	x.Read(b)
	return b
}

func stepPRNG(t *h.T, g *utils.KeyedPRNG, m *stream, o pop, hist string) {
	buf := make([]byte, o.n+2)
	for i := range buf {
		buf[i] = 0xA5
	}
	arg := buf[1 : 1+o.n : 1+o.n]
	want := append([]byte{}, buf...)
	switch o.kind {
	case 'r':
		g.Clock(arg)
		copy(want[1:], m.b[m.pos:m.pos+o.n])
		m.pos += o.n
		m.clock++
	case 's':
		tgt := uint64(int64(m.clock) + int64(o.d))
		if int64(m.clock)+int64(o.d) < 0 {
			return
		}
		err := g.SetClock(arg, tgt)
		t.Check((err != nil) == (tgt < m.clock), "setclock/error", "%s: SetClock from %d to %d: err=%v", hist, m.clock, tgt, err)
		for m.clock < tgt {
			copy(want[1:], m.b[m.pos:m.pos+o.n])
			m.pos += o.n
			m.clock++
		}
	}
	t.Check(bytes.Equal(buf, want), "stream/bytes", "%s: bytes differ from the sequential stream", hist)
	t.Check(g.GetClock() == m.clock, "clock", "%s: GetClock()=%d, want %d", hist, g.GetClock(), m.clock)
	t.Trans(1)
}

func prngHistories(t *h.T, key []byte, first pop, depth int, ops []pop) {
	ref := refStream(key, 1<<15)
	n := 1
	for i := 1; i < depth; i++ {
		n *= len(ops)
	}
	for v := 0; v < n; v++ {
		k := append([]byte{}, key...)
		g, err := utils.NewKeyedPRNG(k)
		t.Check(err == nil, "new", "NewKeyedPRNG: %v", err)
		for i := range k {
			k[i] ^= 0x5a // the key passed in is not kept
		}
		t.Check(g.GetClock() == 0, "clock/initial", "GetClock()=%d on a new generator", g.GetClock())
		m := &stream{b: ref}
		var sb strings.Builder
		x := v
		for i := 0; i < depth; i++ {
			o := first
			if i > 0 {
				o = ops[x%len(ops)]
				x /= len(ops)
			}
			sb.WriteString(o.String() + ",")
			stepPRNG(t, g, m, o, sb.String())
			t.State("prng", key, m.pos, m.clock)
		}
		// the stream continues where the model says
		tail := make([]byte, 16)
		g.Clock(tail)
		t.Check(bytes.Equal(tail, ref[m.pos:m.pos+16]), "stream/continue", "%s: the stream does not continue at position %d", sb.String(), m.pos)
		t.Trace(1)
	}
}

// pairs interleaves two generators and checks independence.
func pairs(t *h.T, k1, k2 []byte, depth int) {
	lens := []int{1, 8, 65}
	r := [2][]byte{refStream(k1, 4096), refStream(k2, 4096)}
	n := 1
	for i := 0; i < depth; i++ {
		n *= 2 * len(lens)
	}
	for v := 0; v < n; v++ {
		g1, _ := utils.NewKeyedPRNG(k1)
		g2, _ := utils.NewKeyedPRNG(k2)
		g := [2]*utils.KeyedPRNG{g1, g2}
		m := [2]*stream{{b: r[0]}, {b: r[1]}}
		x := v
		for i := 0; i < depth; i++ {
			w, l := x%2, lens[x/2%len(lens)]
			x /= 2 * len(lens)
			stepPRNG(t, g[w], m[w], pop{'r', l, 0}, fmt.Sprintf("pair %d", v))
			t.State("pair", k1, k2, m[0].pos, m[1].pos)
		}
		t.Trace(1)
	}
}

type countReader struct {
	n    int
	flip int
}

func (c *countReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(c.n*7 + 3)
		if c.n == c.flip {
			p[i] ^= 1
		}
		c.n++
	}
	return len(p), nil
}

func withRand(r interface{ Read([]byte) (int, error) }, f func()) {
	old := rand.Reader
	rand.Reader = r
	defer func() { rand.Reader = old }()
	f()
}

func newPRNG(t *h.T) {
	out := func(flip int) ([]byte, int) {
		b := make([]byte, 64)
		cr := &countReader{flip: flip}
		withRand(cr, func() {
			g, err := utils.NewPRNG()
			t.Check(err == nil && g.GetClock() == 0, "newprng", "NewPRNG: %v", err)
			g.Clock(b)
		})
		return b, cr.n
	}
	base, n := out(-1)
	t.Check(n >= 32, "newprng/entropy", "NewPRNG draws %d bytes of randomness", n)
	again, _ := out(-1)
	t.Check(bytes.Equal(base, again), "newprng/deterministic", "equal randomness gives different streams")
	dep := 0
	for i := 0; i < n; i++ {
		b, _ := out(i)
		if !bytes.Equal(b, base) {
			dep++
		}
		t.Trans(1)
		t.State("newprng", i)
	}
	t.Check(dep >= 32, "newprng/entropy", "the stream of NewPRNG depends on %d bytes of randomness only", dep)
	t.Trace(n)
}

func keys(t *h.T) {
	for _, n := range []int{0, 1, 2, 31, 32, 63, 64} {
		k := bytes.Repeat([]byte{7}, n)
		a := make([]byte, 64)
		g, err := utils.NewKeyedPRNG(k)
		t.Check(err == nil, "key/len", "key of %d bytes: %v", n, err)
		g.Clock(a)
		t.Check(bytes.Equal(a, refStream(k, 64)), "stream/bytes", "key of %d bytes", n)
		for i := 0; i < 8*n; i++ {
			k2 := append([]byte{}, k...)
			k2[i/8] ^= 1 << uint(i%8)
			b := make([]byte, 64)
			g2, _ := utils.NewKeyedPRNG(k2)
			g2.Clock(b)
			t.Check(!bytes.Equal(a, b), "key/ignored", "bit %d of a %d byte key is ignored", i, n)
			t.Trans(1)
		}
		t.State("key", n)
		t.Trace(1)
	}
	_, err := utils.NewKeyedPRNG(make([]byte, 65))
	t.Check(err != nil, "key/toolong", "a 65 byte key is accepted")
	a, b := make([]byte, 32), make([]byte, 32)
	g, _ := utils.NewKeyedPRNG(nil)
	g.Clock(a)
	g, _ = utils.NewKeyedPRNG([]byte{})
	g.Clock(b)
	t.Check(bytes.Equal(a, b), "key/nil", "nil and empty key differ")
}

// ---------- buffer ----------

type bop struct {
	w    bool
	kind byte // '1' byte, '8' uint64, 's' byte slice, 'S' uint64 slice
	n    int
}

var bops = []bop{{true, '1', 1}, {true, '8', 1}, {true, 's', 0}, {true, 's', 3}, {true, 'S', 0}, {true, 'S', 2},
	{false, '1', 1}, {false, '8', 1}, {false, 's', 0}, {false, 's', 3}, {false, 'S', 0}, {false, 'S', 2}}

func (o bop) String() string {
	if o.w {
		return fmt.Sprintf("w%c%d", o.kind, o.n)
	}
	return fmt.Sprintf("r%c%d", o.kind, o.n)
}

// bufferLengths writes slices of every length and reads them back at once, in two parts, and element by element.
func bufferLengths(t *h.T) {
	var ns []int
	for n := 0; n <= 130; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 255, 256, 257, 1000, 2048, 2049, 4096, 1<<16+1)
	rng := h.NewRng("lengths")
	for _, n := range ns {
		x, y := make([]byte, n), make([]uint64, n)
		var m []byte
		for i := range x {
			x[i] = byte(rng.U64())
		}
		m = append(m, x...)
		for i := range y {
			y[i] = rng.U64()
			m = append(m, be(y[i])...)
		}
		for mode := 0; mode < 4; mode++ {
			b := utils.NewBuffer([]byte{})
			b.WriteUint8Slice(x)
			b.WriteUint64Slice(y)
			t.Check(bytes.Equal(b.Bytes(), m), "buffer/content", "slices of length %d: wrong content", n)
			cut := []int{0, n, n / 3, n}[mode]
			gx, gy := bytes.Repeat([]byte{0xA5}, n), make([]uint64, n)
			for i := range gy {
				gy[i] = ^y[i]
			}
			if mode == 3 {
				for i := range gx {
					gx[i] = b.ReadUint8()
				}
				for i := range gy {
					gy[i] = b.ReadUint64()
				}
			} else {
				b.ReadUint8Slice(gx[:cut])
				b.ReadUint8Slice(gx[cut:])
				b.ReadUint64Slice(gy[:cut])
				b.ReadUint64Slice(gy[cut:])
			}
			ok := bytes.Equal(gx, x)
			for i := range gy {
				ok = ok && gy[i] == y[i]
			}
			t.Check(ok && len(b.Bytes()) == 0, "buffer/read", "slices of length %d read in mode %d differ", n, mode)
			t.Eval(1)
		}
		t.State("length", n)
	}
}

var vals = []uint64{0x0102030405060708, 0xfffefdfcfbfaf9f8, 0, 0x8000000000000001, 0x00ff00ff12345678, math.MaxUint64}

func be(v uint64) (o []byte) {
	for s := 56; s >= 0; s -= 8 {
		o = append(o, byte(v>>uint(s)))
	}
	return
}

func buffers(t *h.T, first bop, init int, depth int) {
	n := 1
	for i := 1; i < depth; i++ {
		n *= len(bops)
	}
	for v := 0; v < n; v++ {
		var back []byte
		switch init {
		case 1:
			back = bytes.Repeat([]byte{0xEE}, 40)[:0]
		case 2:
			back = []byte{9, 8, 7, 6, 5, 4, 3, 2, 1, 0, 255, 254, 253, 252, 251, 250, 249, 248, 247, 246}
		}
		b := utils.NewBuffer(back)
		m := append([]byte{}, back...)
		x, cnt := v, 0
		hist := ""
		for i := 0; i < depth; i++ {
			o := first
			if i > 0 {
				o = bops[x%len(bops)]
				x /= len(bops)
			}
			hist += o.String() + ","
			next := func() uint64 { cnt++; return vals[(cnt+v)%len(vals)] }
			width := o.n
			if o.kind == '8' || o.kind == 'S' {
				width = 8 * o.n
			}
			if !o.w && width > len(m) {
				r := h.Panics(func() {
					switch o.kind {
					case '1':
						b.ReadUint8()
					case '8':
						b.ReadUint64()
					case 's':
						b.ReadUint8Slice(make([]byte, o.n))
					case 'S':
						b.ReadUint64Slice(make([]uint64, o.n))
					}
				})
				t.Check(r != nil, "buffer/overread", "%s: a read beyond the content returns", hist)
				t.Trans(1)
				break // the content after a failed read is not specified
			}
			switch {
			case o.w && o.kind == '1':
				e := byte(next())
				b.WriteUint8(e)
				m = append(m, e)
			case o.w && o.kind == '8':
				e := next()
				b.WriteUint64(e)
				m = append(m, be(e)...)
			case o.w && o.kind == 's':
				s := make([]byte, o.n)
				for j := range s {
					s[j] = byte(next())
				}
				b.WriteUint8Slice(s)
				m = append(m, s...)
			case o.w && o.kind == 'S':
				s := make([]uint64, o.n)
				for j := range s {
					s[j] = next()
					m = append(m, be(s[j])...)
				}
				b.WriteUint64Slice(s)
			case o.kind == '1':
				e := b.ReadUint8()
				t.Check(e == m[0], "buffer/read", "%s: read %d want %d", hist, e, m[0])
			case o.kind == '8':
				e := b.ReadUint64()
				t.Check(bytes.Equal(be(e), m[:8]), "buffer/read", "%s: read %x want %x", hist, e, m[:8])
			case o.kind == 's':
				s := make([]byte, o.n)
				b.ReadUint8Slice(s)
				t.Check(bytes.Equal(s, m[:o.n]), "buffer/read", "%s: read %x want %x", hist, s, m[:o.n])
			case o.kind == 'S':
				s := make([]uint64, o.n)
				b.ReadUint64Slice(s)
				var g []byte
				for _, e := range s {
					g = append(g, be(e)...)
				}
				t.Check(bytes.Equal(g, m[:8*o.n]), "buffer/read", "%s: read %x want %x", hist, g, m[:8*o.n])
			}
			if !o.w {
				m = m[width:]
			}
			t.Check(bytes.Equal(b.Bytes(), m), "buffer/content", "%s: content %x want %x", hist, b.Bytes(), m)
			t.Trans(1)
			t.State("buf", init, m)
		}
		t.Trace(1)
	}
}

// ---------- helpers ----------

func tuples(al []uint64, n int, f func([]uint64)) {
	k := 1
	for i := 0; i < n; i++ {
		k *= len(al)
	}
	for v := 0; v < k; v++ {
		s := make([]uint64, n)
		x := v
		for i := range s {
			s[i] = al[x%len(al)]
			x /= len(al)
		}
		f(s)
	}
}

var edge = []uint64{0, 1, 2, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, math.MaxUint64 - 1, math.MaxUint64}

func i64(s []uint64) (o []int64) {
	for _, v := range s {
		o = append(o, int64(v))
	}
	return
}
func u8(s []uint64) (o []uint8) {
	for _, v := range s {
		o = append(o, uint8(v))
	}
	return
}

func equality(t *h.T) {
	al := []uint64{0, 1, math.MaxUint64}
	for la := 0; la <= 3; la++ {
		for lb := 0; lb <= 3; lb++ {
			tuples(al, la, func(a []uint64) {
				tuples(al, lb, func(b []uint64) {
					want := la == lb
					for i := 0; want && i < la; i++ {
						want = a[i] == b[i]
					}
					t.Check(utils.EqualSliceUint64(a, b) == want, "equal/uint64", "%v %v", a, b)
					t.Check(utils.EqualSliceInt64(i64(a), i64(b)) == want, "equal/int64", "%v %v", a, b)
					t.Check(utils.EqualSliceUint8(u8(a), u8(b)) == want, "equal/uint8", "%v %v", a, b)
					t.Trans(3)
					t.State("eq", a, b)
				})
			})
		}
		tuples([]uint64{0, 1, 2, 7}, la+1, func(a []uint64) {
			seen, dup := map[uint64]bool{}, false
			var mx uint64
			ints := make([]int, len(a))
			for i, v := range a {
				dup = dup || seen[v]
				seen[v] = true
				if v > mx {
					mx = v
				}
				ints[i] = int(v)
			}
			t.Check(utils.AllDistinct(a) == !dup, "alldistinct", "%v", a)
			t.Check(utils.MaxSliceUint64(a) == mx, "maxslice", "%v", a)
			for x := uint64(0); x < 9; x++ {
				t.Check(utils.IsInSliceUint64(x, a) == seen[x], "isin/uint64", "%d %v", x, a)
				t.Check(utils.IsInSliceInt(int(x), ints) == seen[x], "isin/int", "%d %v", x, a)
			}
			t.Trans(20)
			t.State("set", a)
		})
		// long slices, difference in one position
		for _, n := range []int{4, 8, 17} {
			for i := 0; i < n; i++ {
				a, b := make([]uint64, n), make([]uint64, n)
				b[i] = 1 << 63
				t.Check(!utils.EqualSliceUint64(a, b) && !utils.EqualSliceInt64(i64(a), i64(b)), "equal/uint64", "difference at %d of %d", i, n)
				t.Check(utils.MaxSliceUint64(b) == 1<<63, "maxslice", "max at %d of %d", i, n)
				t.Check(utils.IsInSliceUint64(1<<63, b) && !utils.IsInSliceUint64(1<<63, a), "isin/uint64", "at %d of %d", i, n)
				for j := range a {
					a[j] = uint64(j) + 5
				}
				t.Check(utils.AllDistinct(a), "alldistinct", "%v", a)
				if i > 0 {
					a[i] = a[0]
					t.Check(!utils.AllDistinct(a), "alldistinct", "%v", a)
				}
				t.Trans(6)
			}
		}
	}
	// all pairs of words of at most two bits: any word that is folded or truncated before it is compared shows
	var two []uint64
	for i := 0; i < 64; i++ {
		two = append(two, 1<<i)
		for j := 0; j < i; j++ {
			two = append(two, 1<<i|1<<j)
		}
	}
	t.Check(utils.AllDistinct(two), "alldistinct", "all words of one or two bits")
	for i, x := range two {
		for _, y := range two[:i] {
			if !utils.AllDistinct([]uint64{x, y}) {
				t.Fail("alldistinct", "%#x %#x", x, y)
			}
			if utils.EqualSliceUint64([]uint64{x}, []uint64{y}) || utils.IsInSliceUint64(x, []uint64{y}) {
				t.Fail("equal/uint64", "%#x %#x", x, y)
			}
		}
	}
	t.Trans(len(two) * len(two))
	t.Check(utils.EqualSliceUint64(nil, []uint64{}) && !utils.IsInSliceUint64(0, nil) && utils.AllDistinct(nil), "equal/uint64", "nil slices")
	t.Trace(1)
}

func numeric(t *h.T) {
	for _, a := range edge {
		for _, b := range edge {
			mn, mx := a, b
			if b < a {
				mn, mx = b, a
			}
			t.Check(utils.MinUint64(a, b) == mn && utils.MaxUint64(a, b) == mx, "minmax/uint64", "%d %d", a, b)
			x, y := int(a), int(b)
			im, ix := x, y
			if y < x {
				im, ix = y, x
			}
			t.Check(utils.MinInt(x, y) == im && utils.MaxInt(x, y) == ix, "minmax/int", "%d %d", x, y)
			t.Trans(4)
			t.State("mm", a, b)
		}
	}
	fl := []float64{math.Inf(-1), -1.5, -0.5, 0, 1e-300, 0.5, 2, 1e300, math.Inf(1)}
	for i, a := range fl {
		for j, b := range fl {
			k := i
			if j > i {
				k = j
			}
			t.Check(utils.MaxFloat64(a, b) == fl[k], "minmax/float", "%g %g", a, b)
			t.Trans(1)
		}
	}
	hw := func(x uint64) {
		t.Check(utils.HammingWeight64(x) == uint64(bits.OnesCount64(x)), "hamming", "%x", x)
		t.Trans(1)
	}
	for s := 0; s < 64; s += 4 {
		for v := uint64(0); v < 4096; v++ {
			hw(v << uint(s))
			hw(^(v << uint(s)))
		}
	}
	for _, x := range edge {
		hw(x)
	}
	for n := uint64(1); n <= 64; n++ {
		lim := uint64(1) << 12
		if n < 12 {
			lim = 1 << n
		}
		br := func(x uint64) {
			var w uint64
			for i := uint64(0); i < n; i++ {
				w |= (x >> i & 1) << (n - 1 - i)
			}
			t.Check(utils.BitReverse64(x, n) == w, "bitreverse", "%x on %d bits", x, n)
			t.Trans(1)
		}
		for x := uint64(0); x < lim; x++ {
			br(x)
		}
		for i := uint64(0); i < n; i++ {
			br(1 << i)
			br((math.MaxUint64 >> (64 - n)) &^ (1 << i))
		}
		t.State("br", n)
	}
	t.Trace(1)
}

func rotations(t *h.T) {
	for n := 0; n <= 17; n++ {
		u := make([]uint64, n)
		for i := range u {
			u[i] = uint64(i) + 100
		}
		ks := []int{-1 << 40, 1 << 40, math.MaxInt32, math.MinInt32, -100, 100}
		for k := -2*n - 3; k <= 2*n+3; k++ {
			ks = append(ks, k)
		}
		for _, k := range ks {
			w := make([]uint64, n)
			for i := range w {
				w[i] = u[((i+k)%n+n)%n]
			}
			in, fl, cx, ii := i64(u), make([]float64, n), make([]complex128, n), i64(w)
			wf, wc := make([]float64, n), make([]complex128, n)
			for i := range u {
				fl[i], cx[i] = float64(u[i]), complex(float64(u[i]), -1)
				wf[i], wc[i] = float64(w[i]), complex(float64(w[i]), -1)
			}
			eq := func(what string, got, want, src, orig interface{}) {
				if n > 0 {
					t.Check(reflect.DeepEqual(got, want), "rotate/"+what, "n=%d k=%d got %v", n, k, got)
				} else {
					t.Check(reflect.ValueOf(got).Len() == 0, "rotate/"+what, "n=0")
				}
				// the result is a new slice
				if n > 0 {
					t.Check(reflect.ValueOf(got).Pointer() != reflect.ValueOf(src).Pointer(), "rotate/shared/"+what, "n=%d k=%d: the result shares memory with the operand", n, k)
					t.Check(reflect.DeepEqual(src, orig), "rotate/operand/"+what, "n=%d k=%d", n, k)
				}
				t.Trans(1)
			}
			eq("uint64", utils.RotateUint64Slice(u, k), w, u, append([]uint64{}, u...))
			eq("int64", utils.RotateInt64Slice(in, k), ii, in, append([]int64{}, in...))
			eq("float64", utils.RotateFloat64Slice(fl, k), wf, fl, append([]float64{}, fl...))
			eq("complex128", utils.RotateComplex128Slice(cx, k), wc, cx, append([]complex128{}, cx...))
			eq("iface-uint64", utils.RotateSlice(u, k), w, u, append([]uint64{}, u...))
			eq("iface-int64", utils.RotateSlice(in, k), ii, in, append([]int64{}, in...))
			eq("iface-float64", utils.RotateSlice(fl, k), wf, fl, append([]float64{}, fl...))
			eq("iface-complex128", utils.RotateSlice(cx, k), wc, cx, append([]complex128{}, cx...))
			if n%2 == 0 && n > 0 {
				hf := n / 2
				w2 := make([]uint64, n)
				for i := 0; i < hf; i++ {
					j := ((i+k)%hf + hf) % hf
					w2[i], w2[i+hf] = u[j], u[j+hf]
				}
				eq("slots", utils.RotateUint64Slots(u, k), w2, u, append([]uint64{}, u...))
			}
			t.State("rot", n, k)
		}
	}
	t.Trace(1)
}

type fixedReader struct {
	b []byte
	n int
}

func (f *fixedReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = f.b[f.n%len(f.b)]
		f.n++
	}
	return len(p), nil
}

func randoms(t *h.T) {
	seen := map[uint64]bool{}
	var src [][]byte
	for i := 0; i < 64; i++ {
		src = append(src, be(1<<uint(i)), be(^(uint64(1) << uint(i))))
	}
	src = append(src, be(0), be(math.MaxUint64))
	for _, s := range src {
		withRand(&fixedReader{b: s}, func() {
			v := utils.RandUint64()
			t.Check(!seen[v], "rand/collision", "two random sources give the same value %x", v)
			seen[v] = true
			for _, r := range [][2]float64{{0, 1}, {-1, 1}, {-3, -2}, {5, 5}, {0, 1e-10}, {-1e10, 1e10}, {2, 1}} {
				f := utils.RandFloat64(r[0], r[1])
				lo, hi := math.Min(r[0], r[1]), math.Max(r[0], r[1])
				t.Check(f >= lo && f <= hi, "rand/range", "RandFloat64(%g,%g)=%g", r[0], r[1], f)
				c := utils.RandComplex128(r[0], r[1])
				t.Check(real(c) >= lo && real(c) <= hi && imag(c) >= lo && imag(c) <= hi, "rand/range", "RandComplex128(%g,%g)=%g", r[0], r[1], c)
				t.Trans(2)
			}
		})
		t.State("rand", s)
	}
	// endpoints and linearity over the unit interval; both parts of a complex value are drawn
	at := func(b []byte) (f float64) {
		withRand(&fixedReader{b: b}, func() { f = utils.RandFloat64(-2, 6) })
		return
	}
	t.Check(at(be(0)) == -2 && at(be(math.MaxUint64)) > 6-1e-9, "rand/ends", "%g %g", at(be(0)), at(be(math.MaxUint64)))
	withRand(&fixedReader{b: append(be(0), be(math.MaxUint64)...)}, func() {
		c := utils.RandComplex128(0, 1)
		t.Check(math.Abs(real(c)-imag(c)) > 0.9, "rand/complex", "the parts are not drawn separately: %g", c)
	})
	// the interval is hit evenly: one sample per value of the two leading bytes, whichever they are
	cnt := make([]int, 16)
	for v := 0; v < 65536; v++ {
		b := []byte{byte(v >> 8), byte(v), byte(v), byte(v >> 8), byte(v >> 8), byte(v), byte(v), byte(v >> 8)}
		f := at(b)
		k := int((f + 2) / 8 * 16)
		if k > 15 {
			k = 15
		}
		cnt[k]++
		t.Trans(1)
	}
	for k, n := range cnt {
		t.Check(n == 4096, "rand/uniform", "bin %d holds %d of 65536 values", k, n)
	}
	t.Trace(1)
}

func run(c *h.Ctx) {
	depth, bdepth, pd := 4, 5, 5
	if c.Thorough {
		depth, bdepth, pd = 5, 7, 7
	}
	ops := popsFor(c.Thorough)
	for _, kl := range []int{-1, 1, 32, 64} {
		var key []byte
		if kl >= 0 {
			key = make([]byte, kl)
			for i := range key {
				key[i] = byte(i*31 + kl)
			}
		}
		for _, o := range ops {
			o := o
			c.Case("prng-histories", fmt.Sprintf("prng/key=%d/first=%s", kl, o), func(t *h.T) { prngHistories(t, key, o, depth, ops) })
		}
	}
	k1, k2 := []byte("lattice"), []byte("lattica")
	c.Case("prng-pairs", "pairs/same", func(t *h.T) { pairs(t, k1, k1, pd) })
	c.Case("prng-pairs", "pairs/different", func(t *h.T) { pairs(t, k1, k2, pd) })
	c.Case("prng-keys", "newprng", newPRNG)
	c.Case("prng-keys", "keys", keys)
	for init := 0; init < 3; init++ {
		for _, o := range bops {
			init, o := init, o
			c.Case("buffer-histories", fmt.Sprintf("buffer/init=%d/first=%s", init, o), func(t *h.T) { buffers(t, o, init, bdepth) })
		}
	}
	c.Case("buffer-lengths", "buffer/lengths", bufferLengths)
	c.Case("helpers", "equality", equality)
	c.Case("helpers", "numeric", numeric)
	c.Case("helpers", "rotations", rotations)
	c.Case("helpers", "randoms", randoms)
}

func main() {
	h.Main(h.Info{ID: "C09", Level: "model_checking",
		Rule:        "every history of operations up to the depth is executed on a new real object and compared after each operation with the reference (the sequential hash output; a byte list); every helper is evaluated on every tuple of its alphabet",
		Bounds:      "generators: 4 keys x all histories of depth 4 (thorough 5) over 22 (26) operations, two interleaved generators to depth 5 (7); buffers: 3 initial contents x all histories of depth 5 (7) over 12 operations; helpers: slices up to length 17, rotations up to twice the length and extreme amounts, every bit length",
		Assumptions: []string{"the extendable-output hash of golang.org/x/crypto is the trusted base of the stream"}, QuickDeadline: 60, ThoroughDeadline: 700}, run)
}
