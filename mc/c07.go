package main

import (
	"fmt"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
)

func init() {
	register(&Check{ID: "C07", Run: runC07, Level: "model_checking",
		Rule: "A state is (gadget shape, torus word, implementation) with the digits observed; a transition is one decomposition of a polynomial or one external product with a selector gadget that exposes one digit; each word's digits are checked for range and recomposition, and compared with the digits of the same word decomposed alone.",
		Bounds: map[string]string{
			"quick":    "5 distinct gadget shapes: every value of the top L*log2(Bg) bits x 5 low-bit patterns through the polynomial decomposer; the same words through both external-product implementations; every position of every degree 1..33 and 16..2048 with dirty buffers; shipped levels' own offsets",
			"thorough": "all 2^32 words through the polynomial decomposer for every shape; every top value x 64 low-bit patterns through both external products",
		},
		Assumptions: []string{"the digits used inside the external products are observed through selector gadgets (one row is the constant 1), where the Fourier transform is exact"}})
}

type gshape struct{ bgbit, l int }

var gshapes = []gshape{{6, 3}, {10, 2}, {18, 1}, {22, 1}, {23, 1}}

func gLevel(g gshape, n int) Level {
	for _, s := range shapes {
		if s.bgbit == g.bgbit && s.l == g.l {
			return tiny(2, n, s, 0, 0)
		}
	}
	panic("shape")
}

func pubOffset(l Level) T {
	l.use()
	return cloudkey.NewCloudKeyNoKSK().DecompositionOffset
}

// checkDigits checks one word.
func checkDigits(w T, g gshape, dig func(i int) T) error {
	half := int32(1) << (g.bgbit - 1)
	var sum T
	for i := 0; i < g.l; i++ {
		d := int32(dig(i))
		if d < -half || d >= half {
			return fmt.Errorf("word %08x: digit %d is %d, outside [-%d,%d)", uint32(w), i, d, half, half)
		}
		sum += T(d) << uint(32-(i+1)*g.bgbit)
	}
	if e := dist(w, sum); uint64(e) >= 1<<uint(32-g.l*g.bgbit) {
		return fmt.Errorf("word %08x: digits recompose to %08x, off by %d, a whole gadget unit is %d", uint32(w), uint32(sum), e, uint64(1)<<uint(32-g.l*g.bgbit))
	}
	return nil
}

func newPolys(l, n int) []poly.Poly {
	r := make([]poly.Poly, l)
	for i := range r {
		r[i] = poly.Poly{Coeffs: make([]T, n)}
	}
	return r
}

func dirty(ps []poly.Poly, seed T) {
	for i := range ps {
		for j := range ps[i].Coeffs {
			ps[i].Coeffs[j] = seed*T(j+1) + T(i)*0x1234567
		}
	}
}

// selector gadgets: number i exposes digit i of A in the output's A and digit i of B in the output's B.
func selectors(l Level, ev *poly.Evaluator) []*trgsw.TRGSWLv1FFT {
	r := make([]*trgsw.TRGSWLv1FFT, l.sh.l)
	for i := range r {
		t := trgsw.NewTRGSWLv1()
		t.TRLWE[i].A[0] = 1
		t.TRLWE[i+l.sh.l].B[0] = 1
		r[i] = trgsw.NewTRGSWLv1FFT(t, ev)
	}
	return r
}

func lowPats(bits int) []uint32 {
	if bits <= 0 {
		return []uint32{0}
	}
	m := uint32(1)<<uint(bits) - 1
	return []uint32{0, 1, m >> 1, m>>1 + 1, m}
}

func runC07(c *Ctx) {
	full := c.thorough()
	// 1. every word through the polynomial decomposer
	for _, g := range gshapes {
		g := g
		top := g.bgbit * g.l
		low := 32 - top
		const chunk = 1 << 12
		c.Suite(fmt.Sprintf("words-Bg2^%d-L%d", g.bgbit, g.l), int64(1)<<uint(top-12), nil, func(i int64) error {
			l := gLevel(g, 16)
			off := pubOffset(l)
			words := make([]T, chunk)
			single := []poly.Poly{}
			for k := 0; k < g.l; k++ {
				single = append(single, poly.Poly{Coeffs: make([]T, 1)})
			}
			outs := newPolys(g.l, chunk)
			lp := lowPats(low)
			if full {
				lp = make([]uint32, 1<<uint(low))
				for k := range lp {
					lp[k] = uint32(k)
				}
			}
			c.Describe(func() string {
				return fmt.Sprintf("Bg=2^%d L=%d words %08x..", g.bgbit, g.l, uint32(i)*chunk<<uint(low))
			})
			dirty(outs, T(i)+5)
			for _, lo := range lp {
				for k := range words {
					words[k] = T(uint32(i)*chunk+uint32(k))<<uint(low) | T(lo)
				}
				poly.DecomposePolyAssign(words, g.bgbit, g.l, off, outs)
				c.Op(1)
				for k, w := range words {
					if w != T(uint32(i)*chunk+uint32(k))<<uint(low)|T(lo) {
						return fmt.Errorf("decomposition modified its input")
					}
					if err := checkDigits(w, g, func(x int) T { return outs[x].Coeffs[k] }); err != nil {
						return err
					}
				}
				c.Bulk(chunk)
				// alone
				for k := 0; k < chunk; k += 61 {
					poly.DecomposePolyAssign(words[k:k+1], g.bgbit, g.l, off, single)
					for x := 0; x < g.l; x++ {
						if single[x].Coeffs[0] != outs[x].Coeffs[k] {
							return fmt.Errorf("word %08x decomposes differently at position %d than alone", uint32(words[k]), k)
						}
					}
				}
			}
			c.Outcome(outs[0].Coeffs[0])
			return nil
		})
	}
	// 2. both external products see the same digits
	for _, g := range gshapes {
		g := g
		top := g.bgbit * g.l
		low := 32 - top
		const n = 1024
		lp := lowPats(low)
		// each case decomposes 8192 words
		blocks := int64(1) << uint(top-13)
		if full { // denser low-bit patterns
			lp = nil
			for k := 0; k < 64; k++ {
				lp = append(lp, uint32(uint64(k)*(1<<uint(low)-1)/63))
			}
		}
		var ev *evaluator.Evaluator
		var pe *poly.Evaluator
		var sel []*trgsw.TRGSWLv1FFT
		var off T
		var l Level
		c.Suite(fmt.Sprintf("external-Bg2^%d-L%d", g.bgbit, g.l), blocks, func() {
			l = gLevel(g, n)
			off = pubOffset(l)
			ev = evaluator.NewEvaluator(n)
			pe = poly.NewEvaluator(n)
			sel = selectors(l, pe)
		}, func(i int64) error {
			l.use()
			in, out := trlwe.NewTRLWELv1(), trlwe.NewTRLWELv1()
			c.Describe(func() string { return fmt.Sprintf("%s block %d", l.name, i) })
			base := i * 8192
			for q := 0; q < 4; q++ {
				for _, lo := range lp {
					for j := 0; j < n; j++ {
						x := base + int64(q*2*n+2*j)
						in.A[j] = T(uint32(x))<<uint(low) | T(lo)
						in.B[j] = T(uint32(x+1))<<uint(low) | T(lo)
					}
					var a1, b1, a2, b2 [][]T
					sa, sb := clone(in.A), clone(in.B)
					for x := 0; x < g.l; x++ {
						ev.ExternalProductAssign(sel[x], in, off, out)
						a1, b1 = append(a1, clone(out.A)), append(b1, clone(out.B))
						r := trgsw.ExternalProductWithFFT(sel[x], in, off, pe)
						a2, b2 = append(a2, clone(r.A)), append(b2, clone(r.B))
						c.Op(2)
					}
					if !eq(sa, in.A) || !eq(sb, in.B) {
						return fmt.Errorf("external product modified its input")
					}
					for j := 0; j < n; j++ {
						for v, d := range [][][]T{a1, b1, a2, b2} {
							w := in.A[j]
							if v%2 == 1 {
								w = in.B[j]
							}
							if err := checkDigits(w, g, func(x int) T { return d[x][j] }); err != nil {
								return fmt.Errorf("%s, component %c, position %d: %w", []string{"evaluator", "package function"}[v/2], "AB"[v%2], j, err)
							}
						}
					}
					c.Bulk(4 * n)
				}
			}
			c.Outcome(i)
			return nil
		})
	}
	// 3. positions, lengths, dirty buffers, extra level buffers
	{
		var lens []int
		for n := 1; n <= 33; n++ {
			lens = append(lens, n)
		}
		lens = append(lens, 64, 100, 127, 128, 255, 256, 511, 512, 1023, 1024, 2047, 2048)
		rad := []int{len(gshapes), len(lens)}
		c.Suite("positions", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			g, n := gshapes[d[0]], lens[d[1]]
			off := pubOffset(gLevel(g, 16))
			c.Describe(func() string { return fmt.Sprintf("%v length %d", g, n) })
			ref := newPolys(g.l, 1)
			out := newPolys(g.l+1, n)
			wa := wordList(g)
			for r, w := range wa {
				poly.DecomposePolyAssign([]T{w}, g.bgbit, g.l, off, ref)
				if err := checkDigits(w, g, func(x int) T { return ref[x].Coeffs[0] }); err != nil {
					return err
				}
				for pos := 0; pos < n; pos++ {
					if n > 64 && pos%17 != r%17 && pos != n-1 && pos != 0 {
						continue
					}
					p := make([]T, n)
					for j := range p {
						p[j] = wa[(j*7+r*3+1)%len(wa)]
					}
					p[pos] = w
					dirty(out, T(pos+r))
					guard := clone(out[g.l].Coeffs)
					snap := clone(p)
					poly.DecomposePolyAssign(p, g.bgbit, g.l, off, out)
					c.Op(1)
					for x := 0; x < g.l; x++ {
						if out[x].Coeffs[pos] != ref[x].Coeffs[0] {
							return fmt.Errorf("word %08x at position %d of %d: digit %d is %d, alone it is %d", uint32(w), pos, n, x, int32(out[x].Coeffs[pos]), int32(ref[x].Coeffs[0]))
						}
					}
					if !eq(guard, out[g.l].Coeffs) {
						return fmt.Errorf("more than %d digits written", g.l)
					}
					if !eq(snap, p) {
						return fmt.Errorf("input modified")
					}
					c.State(d, r, pos)
				}
			}
			return nil
		})
	}
	// 4. positions and histories through the external products, every degree
	{
		degs := []int{16, 32, 64, 128, 256, 512, 1024, 2048}
		rad := []int{len(gshapes), len(degs)}
		c.Suite("external-positions", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			g, n := gshapes[d[0]], degs[d[1]]
			l := gLevel(g, n)
			off := pubOffset(l)
			l.use()
			ev, pe := evaluator.NewEvaluator(n), poly.NewEvaluator(n)
			sel := selectors(l, pe)
			in, out := trlwe.NewTRLWELv1(), trlwe.NewTRLWELv1()
			wa := wordList(g)
			c.Describe(func() string { return l.name })
			for r := range wa {
				for j := 0; j < n; j++ {
					in.A[j] = wa[(j+r)%len(wa)]
					in.B[j] = wa[(j*3+r*5+2)%len(wa)]
				}
				for impl := 0; impl < 2; impl++ {
					var a, b [][]T
					for x := 0; x < g.l; x++ {
						if impl == 0 {
							ev.ExternalProductAssign(sel[x], in, off, out)
							a, b = append(a, clone(out.A)), append(b, clone(out.B))
						} else {
							o := trgsw.ExternalProductWithFFT(sel[x], in, off, pe)
							a, b = append(a, clone(o.A)), append(b, clone(o.B))
						}
						c.Op(1)
					}
					for j := 0; j < n; j++ {
						if err := checkDigits(in.A[j], g, func(x int) T { return a[x][j] }); err != nil {
							return fmt.Errorf("implementation %d A[%d]: %w", impl, j, err)
						}
						if err := checkDigits(in.B[j], g, func(x int) T { return b[x][j] }); err != nil {
							return fmt.Errorf("implementation %d B[%d]: %w", impl, j, err)
						}
					}
					c.State(d, r, impl)
				}
			}
			return nil
		})
	}
	// 5. the offset every shipped level publishes
	c.Suite("shipped-offsets", int64(len(shippedIDs)), nil, func(i int64) error {
		l := shipped(shippedIDs[i].name)
		if l.sh.l*l.sh.bgbit > 32 || l.sh.bgbit < 1 {
			return fmt.Errorf("level %s: gadget does not fit 32 bits", l.name)
		}
		g := gshape{l.sh.bgbit, l.sh.l}
		t := tiny(2, 16, l.sh, 0, 0)
		for _, off := range []T{pubOffset(t), func() T {
			// the real level's own key (dummy tables: only the offset is of interest)
			if l.n > 1024 {
				return pubOffset(t)
			}
			return pubOffset(l)
		}()} {
			out := newPolys(g.l, 1)
			for _, w := range wordList(g) {
				poly.DecomposePolyAssign([]T{w}, g.bgbit, g.l, off, out)
				if err := checkDigits(w, g, func(x int) T { return out[x].Coeffs[0] }); err != nil {
					return fmt.Errorf("level %s: %w", l.name, err)
				}
				c.Op(1)
				c.State(i, w)
			}
		}
		return nil
	})
}

// wordList holds the digit-boundary words of a gadget.
func wordList(g gshape) []T {
	r := []T{0, 1, ^T(0), 1 << 31, 1<<31 - 1, 0x9D2C5681, 0x12345678, 0xCAFEBABE}
	for i := 1; i <= g.l; i++ {
		u := T(1) << uint(32-i*g.bgbit)
		h := u << uint(g.bgbit-1)
		for _, b := range []T{u, h, h - u, ^h + 1, u * 3} {
			r = append(r, b, b-1, b+1, ^b)
		}
	}
	return r
}
