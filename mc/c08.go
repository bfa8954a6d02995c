package main

import (
	"fmt"
	"math"

	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	rnd "github.com/thedonutfactory/go-tfhe/zzverif/rand"
)

func init() {
	register(&Check{ID: "C08", Run: runC08, Level: "model_checking",
		Rule: "A state is (gadget shape, ring degree, key, encrypted bit, plaintext polynomial, mask polynomial, implementation, aliasing) with the observed output phase; a transition is one external product or CMUX; every output phase is compared coefficient by coefficient with bit*plaintext or the selected branch.",
		Bounds: map[string]string{
			"quick":    "5 gadget shapes x 82 keys at N=16 (every single-bit key, all-zero, all-one, 64 patterns) x both bits x every monomial and dense plaintexts at 6 magnitudes x 6 masks, both implementations, all aliasings; branches related to each other (equal or shared components, one coefficient apart, negated, rotated, zero, trivial) at 4 degrees x 4 keys; degrees 32..2048 with 3 keys; chains of 6 CMUXes over all 2^6 selector patterns",
			"thorough": "as quick with 4096 keys at N=16 and every monomial at every degree",
		},
		Assumptions: []string{"the gadget encryptions are noiseless (noise is a separate, additive term)", "floating-point error allowance per phase coefficient: see phaseFFTTol (energy bound x unit roundoff x transform depth)"}})
}

// phaseFFTTol bounds the floating-point error of an external product seen in the phase: the Fourier sums have
// energy at most 2L*N*(Bg/2)^2*(2^31)^2 per coefficient (Parseval), each coefficient's error is that times the
// unit roundoff and the transform depth, and the phase adds up 1+w coefficients' errors.
func phaseFFTTol(l Level, w int) float64 {
	per := 1 + math.Sqrt(float64(2*l.sh.l*l.n))*pow2(l.sh.bgbit-1+31)*pow2(-53)*2*float64(log2i(l.n))
	return 8 * per * (8 + 8*math.Sqrt(float64(w))) // factor 8: structured inputs correlate the errors
}

type gadEnv struct {
	l    Level
	s    []T
	off  T
	ev   *evaluator.Evaluator
	pe   *poly.Evaluator
	bit  [2]*trgsw.TRGSWLv1FFT
	h    [2]uint64
	w    int
	tol  [2]float64
	mtol float64
}

func gadHash(t *trgsw.TRGSWLv1FFT) uint64 {
	h := uint64(14695981039346656037)
	for _, r := range t.TRLWEFFT {
		h = fnvF(h, r.A.Coeffs)
		h = fnvF(h, r.B.Coeffs)
	}
	return h
}

func newGadEnv(l Level, s []T) *gadEnv {
	l.use()
	rnd.Quiet(true)
	e := &gadEnv{l: l, s: s, off: pubOffset(l), ev: evaluator.NewEvaluator(l.n), pe: poly.NewEvaluator(l.n)}
	for _, b := range s {
		e.w += int(b)
	}
	for b := 0; b < 2; b++ {
		e.bit[b] = trgsw.NewTRGSWLv1FFT(trgsw.NewTRGSWLv1().EncryptTorus(T(b), 0, s, e.pe), e.pe)
		e.h[b] = gadHash(e.bit[b])
	}
	e.tol[0] = phaseFFTTol(l, e.w)
	e.tol[1] = float64(1+e.w)*pow2(32-l.sh.l*l.sh.bgbit) + phaseFFTTol(l, e.w)
	return e
}

func (e *gadEnv) ct(mask, plain []T) *trlwe.TRLWELv1 {
	p := negMul(mask, e.s)
	for i := range p {
		p[i] += plain[i]
	}
	return &trlwe.TRLWELv1{A: clone(mask), B: p}
}

func (e *gadEnv) near(what string, ct *trlwe.TRLWELv1, want []T, tol float64, c *Ctx) error {
	if len(ct.A) != e.l.n || len(ct.B) != e.l.n {
		return fmt.Errorf("%s: result of length %d/%d", what, len(ct.A), len(ct.B))
	}
	d, at := maxDist(ringPhase(ct, e.s), want)
	if float64(d) > tol {
		return fmt.Errorf("%s: phase at coefficient %d is off by %d (allowed %.0f)", what, at, d, tol)
	}
	k := "max_permille_of_tolerance"
	if tol == e.tol[0] {
		k = "max_permille_of_tolerance_bit0"
	}
	if r := int64(float64(d) / tol * 1000); r > c.res.Extra[k] {
		c.res.Extra[k] = r
	}
	return nil
}

func (e *gadEnv) keysSame() error {
	for b := 0; b < 2; b++ {
		if gadHash(e.bit[b]) != e.h[b] {
			return fmt.Errorf("the gadget ciphertext was modified")
		}
	}
	return nil
}

func cp(a *trlwe.TRLWELv1) *trlwe.TRLWELv1 { return &trlwe.TRLWELv1{A: clone(a.A), B: clone(a.B)} }

func same(a, b *trlwe.TRLWELv1) bool { return eq(a.A, b.A) && eq(a.B, b.B) }

func ringMasks(n int) [][]T {
	fill := func(f func(i int) T) []T {
		m := make([]T, n)
		for i := range m {
			m[i] = f(i)
		}
		return m
	}
	return [][]T{
		fill(func(int) T { return 0 }),
		hashMask(n, 3),
		fill(func(int) T { return ^T(0) }),
		fill(func(int) T { return 1 << 31 }),
		fill(func(i int) T { return T(i) * 0x01000193 }),
		fill(func(i int) T { return T(0x7FFFFFFF) + T(i&1) }),
	}
}

func ringPlains(n int, all bool) [][]T {
	vals := []T{1 << 29, 1 << 31, 1<<31 - 1, ^T(0), 0x12345678, 1 << 20}
	var r [][]T
	step := 1
	if !all && n > 32 {
		step = n / 16
	}
	k := 0
	for i := 0; i < n; i += step {
		p := make([]T, n)
		p[i] = vals[k%len(vals)]
		k++
		r = append(r, p)
	}
	p := make([]T, n)
	p[n-1] = 1 << 31
	r = append(r, p)
	for k, v := range vals {
		p := make([]T, n)
		for i := range p {
			p[i] = v
			if k%2 == 1 {
				p[i] += T(i) * 0x3000011
			}
		}
		r = append(r, p)
	}
	r = append(r, make([]T, n), hashMask(n, 77))
	return r
}

func smallKeys(n int, more int) [][]T {
	var ks [][]T
	ks = append(ks, make([]T, n), bitsKey(n, ^uint64(0)))
	for i := 0; i < n; i++ {
		k := make([]T, n)
		k[i] = 1
		ks = append(ks, k)
	}
	for i := 0; i < more; i++ {
		ks = append(ks, bitsKey(n, mix(uint64(i)+1)))
	}
	return ks
}

func runC08(c *Ctx) {
	full := c.thorough()
	more := 64
	if full {
		more = 4096
	}
	one := func(e *gadEnv, plains, masks [][]T, key any) error {
		out := trlwe.NewTRLWELv1()
		zero := make([]T, e.l.n)
		for pi, p := range plains {
			for mi, m := range masks {
				ct := e.ct(m, p)
				q := plains[(pi*5+3)%len(plains)]
				other := e.ct(masks[(mi+2)%len(masks)], q)
				for b := 0; b < 2; b++ {
					want := zero
					if b == 1 {
						want = p
					}
					wantC := q
					if b == 1 {
						wantC = p
					}
					s1, s2 := cp(ct), cp(other)
					// dirty output
					for j := range out.A {
						out.A[j], out.B[j] = T(j)*0x777+T(pi), ^T(j)
					}
					e.ev.ExternalProductAssign(e.bit[b], ct, e.off, out)
					if err := e.near(fmt.Sprintf("ExternalProductAssign bit %d", b), out, want, e.tol[b], c); err != nil {
						return err
					}
					r := trgsw.ExternalProductWithFFT(e.bit[b], ct, e.off, e.pe)
					if err := e.near(fmt.Sprintf("ExternalProductWithFFT bit %d", b), r, want, e.tol[b], c); err != nil {
						return err
					}
					if d, _ := maxDist(out.A, r.A); float64(d) > e.tol[0] {
						return fmt.Errorf("the two external products differ by %d (A)", d)
					}
					e.ev.CMuxAssign(e.bit[b], other, ct, e.off, out)
					if err := e.near(fmt.Sprintf("CMuxAssign bit %d", b), out, wantC, e.tol[b], c); err != nil {
						return err
					}
					r = trgsw.CMUX(other, ct, e.bit[b], e.off, e.pe)
					if err := e.near(fmt.Sprintf("CMUX bit %d", b), r, wantC, e.tol[b], c); err != nil {
						return err
					}
					if !same(s1, ct) || !same(s2, other) {
						return fmt.Errorf("an input ciphertext was modified")
					}
					// aliasing: in-place external product, accumulator CMUX, equal branches
					x := cp(ct)
					e.ev.ExternalProductAssign(e.bit[b], x, e.off, x)
					if err := e.near(fmt.Sprintf("ExternalProductAssign in place bit %d", b), x, want, e.tol[b], c); err != nil {
						return err
					}
					x = cp(other)
					e.ev.CMuxAssign(e.bit[b], x, ct, e.off, x)
					if err := e.near(fmt.Sprintf("CMuxAssign output=first bit %d", b), x, wantC, e.tol[b], c); err != nil {
						return err
					}
					e.ev.CMuxAssign(e.bit[b], ct, ct, e.off, out)
					if err := e.near(fmt.Sprintf("CMuxAssign equal branches bit %d", b), out, p, e.tol[b], c); err != nil {
						return err
					}
					r = trgsw.CMUX(ct, ct, e.bit[b], e.off, e.pe)
					if err := e.near(fmt.Sprintf("CMUX equal branches bit %d", b), r, p, e.tol[b], c); err != nil {
						return err
					}
					if !same(s1, ct) {
						return fmt.Errorf("an input ciphertext was modified")
					}
					c.Op(8)
				}
			}
		}
		c.Bulk(int64(len(plains) * len(masks) * 2 * 8))
		return e.keysSame()
	}
	{
		ks := smallKeys(16, more)
		rad := []int{len(gshapes), len(ks)}
		c.Suite("keys-N16", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			l := gLevel(gshapes[d[0]], 16)
			c.Describe(func() string { return fmt.Sprintf("%s key %v", l.name, ks[d[1]]) })
			e := newGadEnv(l, ks[d[1]])
			c.Outcome(d)
			return one(e, ringPlains(16, true), ringMasks(16), d)
		})
	}
	{
		degs := []int{32, 64, 128, 256, 512, 1024, 2048}
		rad := []int{len(degs), len(gshapes), 3}
		c.Suite("degrees", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			n := degs[d[0]]
			l := gLevel(gshapes[d[1]], n)
			s := hashKey(n, 31)
			if d[2] == 1 {
				s = bitsKey(n, ^uint64(0))
			} else if d[2] == 2 {
				s = make([]T, n)
				s[n-1] = 1
			}
			c.Describe(func() string { return fmt.Sprintf("%s key %d", l.name, d[2]) })
			e := newGadEnv(l, s)
			ps, ms := ringPlains(n, full && n <= 256), ringMasks(n)
			if n >= 512 {
				ms = ms[1:4]
				if !full {
					ps = ps[len(ps)-8:]
				}
			}
			c.Outcome(d)
			return one(e, ps, ms, d)
		})
	}
	relatedBranches(c)
	// chains: the accumulator form used by blind rotation, every selector pattern
	{
		const depth = 6
		rad := []int{len(gshapes), 3, 1 << depth}
		c.Suite("chains", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			n := []int{16, 64, 1024}[d[1]]
			l := gLevel(gshapes[d[0]], n)
			s := hashKey(n, 41)
			e := newGadEnv(l, s)
			c.Describe(func() string { return fmt.Sprintf("%s selectors %06b", l.name, d[2]) })
			acc := e.ct(hashMask(n, 1), hashMask(n, 2))
			acc2 := cp(acc)
			want := hashMask(n, 2)
			tol := 4.0
			for k := 0; k < depth; k++ {
				b := d[2] >> k & 1
				p := hashMask(n, uint64(100+k))
				br := e.ct(hashMask(n, uint64(200+k)), p)
				e.ev.CMuxAssign(e.bit[b], acc, br, e.off, acc)
				acc2 = trgsw.CMUX(acc2, br, e.bit[b], e.off, e.pe)
				c.Op(2)
				tol += e.tol[b]
				if b == 1 {
					want = p
				}
				if err := e.near(fmt.Sprintf("CMuxAssign step %d", k), acc, want, tol, c); err != nil {
					return err
				}
				if err := e.near(fmt.Sprintf("CMUX step %d", k), acc2, want, tol, c); err != nil {
					return err
				}
				c.State(d, k, fnvT(0, acc.B))
			}
			return e.keysSame()
		})
	}
}

// relatedBranches gives the CMUX pairs of branches that have something in common, and the external product inputs
// with a degenerate component: an implementation that recognises such inputs must still select and multiply.
func relatedBranches(c *Ctx) {
	type pair struct {
		name     string
		ct0, ct1 *trlwe.TRLWELv1
	}
	mul := func(a []T, k int) []T { // X^k a
		n := len(a)
		r := make([]T, n)
		for i, x := range a {
			j := (i + k) % (2 * n)
			if j >= n {
				r[j-n] = -x
			} else {
				r[j] = x
			}
		}
		return r
	}
	mk := func(a, b []T) *trlwe.TRLWELv1 { return &trlwe.TRLWELv1{A: a, B: b} }
	degs := []int{16, 32, 256, 1024}
	rad := []int{len(degs), len(gshapes), 4}
	c.Suite("related-branches", prod(rad...), nil, func(i int64) error {
		d := idx(i, rad...)
		n := degs[d[0]]
		l := gLevel(gshapes[d[1]], n)
		s := hashKey(n, 51)
		if d[2] == 1 {
			s = bitsKey(n, ^uint64(0))
		} else if d[2] == 2 {
			s = make([]T, n)
		} else if d[2] == 3 {
			s = make([]T, n)
			s[0] = 1
		}
		e := newGadEnv(l, s)
		c.Describe(func() string { return fmt.Sprintf("%s key %d", l.name, d[2]) })
		a, b, a2, b2, zero := hashMask(n, 61), hashMask(n, 62), hashMask(n, 63), hashMask(n, 64), make([]T, n)
		neg := func(x []T) []T { return mul(x, n) }
		ps := []pair{
			{"the bodies equal", mk(a, b), mk(a2, clone(b))},
			{"the body slice shared", mk(a, b), mk(a2, b)},
			{"the masks equal", mk(a, b), mk(clone(a), b2)},
			{"the mask slice shared", mk(a, b), mk(a, b2)},
			{"both equal, distinct storage", mk(a, b), mk(clone(a), clone(b))},
			{"both slices shared", mk(a, b), mk(a, b)},
			{"mask and body exchanged", mk(a, b), mk(b, a)},
			{"first zero", mk(zero, zero), mk(a, b)},
			{"second zero", mk(a, b), mk(zero, zero)},
			{"both zero", mk(zero, zero), mk(clone(zero), clone(zero))},
			{"first trivial", mk(zero, b), mk(a2, b2)},
			{"second trivial", mk(a, b), mk(zero, b2)},
			{"both trivial", mk(zero, b), mk(clone(zero), b2)},
			{"first with zero body", mk(a, zero), mk(a2, b2)},
			{"second with zero body", mk(a, b), mk(a2, zero)},
			{"negated", mk(a, b), mk(neg(a), neg(b))},
			{"masks negated", mk(a, b), mk(neg(a), b)},
			{"bodies negated", mk(a, b), mk(a, neg(b))},
			{"mask equal to body", mk(a, a), mk(b, b)},
		}
		step := 1
		if n > 32 {
			step = n/16 - 1
		}
		for k := 1; k < 2*n; k += step {
			ps = append(ps, pair{fmt.Sprintf("second = X^%d first", k), mk(a, b), mk(mul(a, k), mul(b, k))})
		}
		for k := 0; k < n; k += step {
			for _, dv := range []T{1, 1 << 20, 1 << 31, ^T(0)} {
				x, y := clone(a), clone(b)
				x[k] += dv
				y[k] += dv
				ps = append(ps, pair{fmt.Sprintf("mask differs at %d only", k), mk(a, b), mk(x, b)},
					pair{fmt.Sprintf("body differs at %d only", k), mk(a, b), mk(a, y)})
				u, v := make([]T, n), make([]T, n)
				u[k], v[k] = dv, dv
				ps = append(ps, pair{fmt.Sprintf("single coefficients at %d", k), mk(u, zero), mk(zero, v)},
					pair{fmt.Sprintf("sparse against dense at %d", k), mk(u, v), mk(a, b)})
			}
		}
		out := trlwe.NewTRLWELv1()
		for pi, p := range ps {
			s0, s1 := cp(p.ct0), cp(p.ct1)
			ph := [2][]T{ringPhase(p.ct0, s), ringPhase(p.ct1, s)}
			for bit := 0; bit < 2; bit++ {
				for j := range out.A {
					out.A[j], out.B[j] = T(j)*0x777+T(pi), ^T(j)
				}
				e.ev.CMuxAssign(e.bit[bit], p.ct0, p.ct1, e.off, out)
				if err := e.near(fmt.Sprintf("CMuxAssign bit %d, branches with %s", bit, p.name), out, ph[bit], e.tol[bit], c); err != nil {
					return err
				}
				r := trgsw.CMUX(p.ct0, p.ct1, e.bit[bit], e.off, e.pe)
				if err := e.near(fmt.Sprintf("CMUX bit %d, branches with %s", bit, p.name), r, ph[bit], e.tol[bit], c); err != nil {
					return err
				}
				x := cp(p.ct0)
				e.ev.CMuxAssign(e.bit[bit], x, p.ct1, e.off, x)
				if err := e.near(fmt.Sprintf("CMuxAssign into the first branch, bit %d, branches with %s", bit, p.name), x, ph[bit], e.tol[bit], c); err != nil {
					return err
				}
				want := zero
				if bit == 1 {
					want = ph[1]
				}
				e.ev.ExternalProductAssign(e.bit[bit], p.ct1, e.off, out)
				if err := e.near(fmt.Sprintf("ExternalProductAssign bit %d, second of branches with %s", bit, p.name), out, want, e.tol[bit], c); err != nil {
					return err
				}
				r = trgsw.ExternalProductWithFFT(e.bit[bit], p.ct1, e.off, e.pe)
				if err := e.near(fmt.Sprintf("ExternalProductWithFFT bit %d, second of branches with %s", bit, p.name), r, want, e.tol[bit], c); err != nil {
					return err
				}
				c.Op(5)
			}
			if !same(s0, p.ct0) || !same(s1, p.ct1) {
				return fmt.Errorf("branches with %s: an input ciphertext was modified", p.name)
			}
			c.State(d, pi)
		}
		c.Outcome(d)
		return e.keysSame()
	})
}
