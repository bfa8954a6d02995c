package main

import (
	"fmt"
	"math"

	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/trlwe"
)

func init() {
	register(&Check{ID: "C06", Run: runC06, Level: "model_checking",
		Rule: "A state is (degree, operation, operand polynomials, aliasing) with the resulting coefficients; a transition is one polynomial operation; a trace is one case compared coefficient by coefficient with exact negacyclic arithmetic.",
		Bounds: map[string]string{
			"quick":    "degrees 16..2048: every monomial X^i against a dense polynomial (all index pairs), all monomial pairs at N<=64 with 6 coefficient pairs; every shift k in -2N-3..4N+3 and far ones; Fourier round trip of every basis polynomial and of boundary polynomials; all Fourier operations with all aliasings",
			"thorough": "all monomial pairs at N<=256, dense x dense grid of 24 polynomials at every degree",
		},
		Assumptions: []string{"floating-point rounding: products whose exact magnitude stays below 2^46 must be exact; larger ones may err by 2^-48 of their magnitude bound",
			"dense operands come from a fixed set of boundary and patternless polynomials; linearity covers the rest"}})
}

var degrees = []int{16, 32, 64, 128, 256, 512, 1024, 2048}

// densePolys is the operand set: extremes, alternating, ramps, single spikes, binary, digits, patternless.
func densePolys(n int) []poly.Poly {
	mk := func(f func(j int) T) poly.Poly {
		p := poly.Poly{Coeffs: make([]T, n)}
		for j := range p.Coeffs {
			p.Coeffs[j] = f(j)
		}
		return p
	}
	return []poly.Poly{
		mk(func(j int) T { return 0 }),
		mk(func(j int) T { return 1 }),
		mk(func(j int) T { return T(j) + 1 }),
		mk(func(j int) T { return T(mix(uint64(j)) & 1) }),
		mk(func(j int) T { return T(int32(mix(uint64(j)+5)&63) - 32) }),
		mk(func(j int) T { return T(int32(mix(uint64(j)+9)&1023) - 512) }),
		mk(func(j int) T { return ^T(0) }),
		mk(func(j int) T { return 0x80000000 }),
		mk(func(j int) T { return 0x7FFFFFFF }),
		mk(func(j int) T { return T(mix(uint64(j) + 77)) }),
		mk(func(j int) T {
			if j%2 == 0 {
				return 0x80000000
			}
			return 0x7FFFFFFF
		}),
		mk(func(j int) T { return T(int32(mix(uint64(j)+13)&(1<<22-1)) - 1<<21) }),
	}
}

func absMax(p []T) float64 {
	m := 0.0
	for _, x := range p {
		if v := math.Abs(float64(int32(x))); v > m {
			m = v
		}
	}
	return m
}

// mulTol is the allowed error of a product of p and q.
func mulTol(p, q []T) uint32 {
	mag := absMax(p) * absMax(q) * float64(len(p))
	if mag <= math.Exp2(46) {
		return 0
	}
	return uint32(math.Min(mag*math.Exp2(-48)+1, math.Exp2(31)))
}

func cmpPoly(what string, got, want []T, tol uint32) error {
	if len(got) != len(want) {
		return fmt.Errorf("%s: %d coefficients, want %d", what, len(got), len(want))
	}
	if d, at := maxDist(got, want); d > tol {
		return fmt.Errorf("%s: coefficient %d is %08x, want %08x (allowed error %d)", what, at, uint32(got[at]), uint32(want[at]), tol)
	}
	return nil
}

func addP(a, b []T, s T) []T {
	r := make([]T, len(a))
	for i := range a {
		r[i] = a[i] + s*b[i]
	}
	return r
}

func runC06(c *Ctx) {
	full := c.thorough()
	// 1. every monomial against a dense small polynomial
	{
		total := 0
		for _, n := range degrees {
			total += n
		}
		evs := map[int]*poly.Evaluator{}
		c.Suite("monomials", int64(total), nil, func(i int64) error {
			k := int(i)
			n := 0
			for _, d := range degrees {
				if k < d {
					n = d
					break
				}
				k -= d
			}
			ev := evs[n]
			if ev == nil {
				ev = poly.NewEvaluator(n)
				evs[n] = ev
			}
			if ev.Degree() != n {
				return fmt.Errorf("Degree() = %d", ev.Degree())
			}
			c.Describe(func() string { return fmt.Sprintf("N=%d X^%d", n, k) })
			mono := ev.NewPoly()
			dense := ev.NewPoly()
			for j := range dense.Coeffs {
				dense.Coeffs[j] = T(j + 1)
			}
			for _, coef := range []T{1, ^T(0), 3, 0x7FFFFFFF, 0x80000000} {
				mono.Coeffs[k] = coef
				want := rotate(dense.Coeffs, k)
				for j := range want {
					want[j] *= coef
				}
				pm, pd := clone(mono.Coeffs), clone(dense.Coeffs)
				r := ev.MulPoly(mono, dense)
				r2 := ev.MulPoly(dense, mono)
				c.Op(2)
				tol := mulTol(mono.Coeffs, dense.Coeffs)
				// a monomial times a ramp has no accumulation: rounding is exact far below 2^46 too
				if err := cmpPoly(fmt.Sprintf("N=%d %d*X^%d * ramp", n, int32(coef), k), r.Coeffs, want, tol); err != nil {
					return err
				}
				if err := cmpPoly(fmt.Sprintf("N=%d ramp * %d*X^%d", n, int32(coef), k), r2.Coeffs, want, tol); err != nil {
					return err
				}
				if !eq(pm, mono.Coeffs) || !eq(pd, dense.Coeffs) {
					return fmt.Errorf("MulPoly modified an operand")
				}
				// round trip of the basis polynomial
				fp := ev.ToFourierPoly(mono)
				back := ev.ToPoly(fp)
				c.Op(2)
				if err := cmpPoly(fmt.Sprintf("N=%d round trip of %d*X^%d", n, int32(coef), k), back.Coeffs, mono.Coeffs, 0); err != nil {
					return err
				}
			}
			c.State(n, k)
			c.Outcome(n)
			return nil
		})
	}
	// 2. all monomial pairs at small degree
	{
		ds := []int{16, 32, 64}
		if full {
			ds = append(ds, 128, 256)
		}
		for _, n := range ds {
			n := n
			var ev *poly.Evaluator
			c.Suite(fmt.Sprintf("monomial-pairs-%d", n), int64(n), func() { ev = poly.NewEvaluator(n) }, func(i int64) error {
				a, b := ev.NewPoly(), ev.NewPoly()
				c.Describe(func() string { return fmt.Sprintf("N=%d X^%d times all X^j", n, i) })
				for j := 0; j < n; j++ {
					for _, cc := range [][2]T{{1, 1}, {^T(0), 1}, {5, ^T(0) - 6}, {0x80000000, 1}, {0x7FFFFFFF, 31}, {1 << 22, 1 << 9}} {
						a.Clear()
						b.Clear()
						a.Coeffs[i], b.Coeffs[j] = cc[0], cc[1]
						want := make([]T, n)
						if s := int(i) + j; s < n {
							want[s] = cc[0] * cc[1]
						} else {
							want[s-n] = -(cc[0] * cc[1])
						}
						out := ev.NewPoly()
						for q := range out.Coeffs {
							out.Coeffs[q] = T(q * 12345)
						}
						ev.MulPolyAssign(a, b, out)
						if err := cmpPoly(fmt.Sprintf("%08x X^%d * %08x X^%d", uint32(cc[0]), i, uint32(cc[1]), j), out.Coeffs, want, 0); err != nil {
							return err
						}
					}
				}
				c.Op(n * 6)
				c.Bulk(int64(n * 6))
				return nil
			})
		}
	}
	// 3. rotation by X^k
	{
		rad := []int{len(degrees), 64}
		c.Suite("rotations", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			n := degrees[d[0]]
			ev := poly.NewEvaluator(n)
			dp := densePolys(n)
			ops := []poly.Poly{dp[2], dp[9], dp[0], dp[10]}
			var ks []int
			for k := -2*n - 3; k <= 4*n+3; k++ {
				ks = append(ks, k)
			}
			ks = append(ks, 1<<31, -(1 << 31), 1<<40+5, -(1<<40 + 7), 1000003*2*n, 1000003*2*n+1, -1000003*2*n-1, math.MaxInt64, math.MinInt64+1)
			c.Describe(func() string { return fmt.Sprintf("N=%d shifts, chunk %d", n, d[1]) })
			for q := d[1]; q < len(ks); q += 64 {
				k := ks[q]
				kk := ((k % (2 * n)) + 2*n) % (2 * n)
				for oi, p := range ops {
					src := clone(p.Coeffs)
					check := func(name string, got []T) error {
						c.Op(1)
						for j := 0; j < n; j++ {
							t := j + kk
							neg := false
							for t >= n {
								t -= n
								neg = !neg
							}
							want, tol := src[j], uint32(0)
							if neg {
								want, tol = -src[j], 1
							}
							if dist(got[t], want) > tol {
								return fmt.Errorf("%s N=%d k=%d polynomial %d: coefficient %d is %08x, want %08x", name, n, k, oi, t, uint32(got[t]), uint32(want))
							}
						}
						if !eq(src, p.Coeffs) {
							return fmt.Errorf("%s modified its operand", name)
						}
						return nil
					}
					out := make([]T, n)
					for j := range out {
						out[j] = 0xCAFEBABE
					}
					poly.PolyMulWithXKInPlace(p.Coeffs, k, out)
					if err := check("PolyMulWithXKInPlace", out); err != nil {
						return err
					}
					for j := range out {
						out[j] = 0xCAFEBABE
					}
					ev.PolyMulWithXKDirect(p.Coeffs, k, out)
					if err := check("PolyMulWithXKDirect", out); err != nil {
						return err
					}
					if err := check("PolyMulWithXK", ev.PolyMulWithXK(p.Coeffs, k)); err != nil {
						return err
					}
					c.State(n, k, oi)
				}
			}
			c.Outcome(n, d[1])
			return nil
		})
	}
	// 4. dense products, accumulation, aliasing, Fourier operations
	{
		nd := 12
		rad := []int{len(degrees), nd, nd}
		evs := map[int]*poly.Evaluator{}
		sets := map[int][]poly.Poly{}
		c.Suite("dense", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			n := degrees[d[0]]
			ev := evs[n]
			if ev == nil {
				ev = poly.NewEvaluator(n)
				evs[n] = ev
				sets[n] = densePolys(n)
			}
			if n >= 1024 && !full && (d[1]*nd+d[2])%3 != 0 && d[1] > 3 {
				return nil
			}
			p, q := sets[n][d[1]], sets[n][d[2]]
			c.Describe(func() string { return fmt.Sprintf("N=%d polynomials %d,%d", n, d[1], d[2]) })
			return densePair(c, ev, n, p, q, sets[n][9], fmt.Sprintf("N=%d #%d,#%d", n, d[1], d[2]), []int{n, d[1], d[2]})
		})
	}
	// 5. constructors
	{
		c.Suite("constructors", 1, nil, func(int64) error {
			for _, n := range []int{-16, -1, 0, 1, 2, 3, 4, 8, 12, 15, 17, 24, 100, 1000, 1023, 1025, 1536} {
				for name, f := range map[string]func(){
					"NewPoly": func() { poly.NewPoly(n) }, "NewFourierPoly": func() { poly.NewFourierPoly(n) }, "NewEvaluator": func() { poly.NewEvaluator(n) },
				} {
					if !panics(f) {
						return fmt.Errorf("%s(%d) accepts an unsupported degree", name, n)
					}
					c.Op(1)
				}
			}
			for _, n := range degrees {
				for name, p := range map[string]poly.Poly{"NewPoly": poly.NewPoly(n), "NewPolyAligned": poly.NewPolyAligned(n), "Evaluator.NewPoly": poly.NewEvaluator(n).NewPoly()} {
					if p.Degree() != n || len(p.Coeffs) != n {
						return fmt.Errorf("%s(%d): degree %d", name, n, p.Degree())
					}
					for _, x := range p.Coeffs {
						if x != 0 {
							return fmt.Errorf("%s(%d) is not zero", name, n)
						}
					}
					p.Coeffs[n-1] = 7
					q := p.Copy()
					if q.Coeffs[n-1] != 7 || q.Degree() != n {
						return fmt.Errorf("Copy differs")
					}
					p.Clear()
					if q.Coeffs[n-1] != 7 || p.Coeffs[n-1] != 0 {
						return fmt.Errorf("Copy/Clear share storage or do nothing")
					}
				}
				for name, p := range map[string]poly.FourierPoly{"NewFourierPoly": poly.NewFourierPoly(n), "NewFourierPolyAligned": poly.NewFourierPolyAligned(n)} {
					if p.Degree() != n || len(p.Coeffs) != n {
						return fmt.Errorf("%s(%d): degree %d", name, n, p.Degree())
					}
					for j := range p.Coeffs {
						p.Coeffs[j] = float64(j)
					}
					q := p.Copy()
					r := poly.NewFourierPoly(n)
					r.CopyFrom(p)
					p.Clear()
					for j := range q.Coeffs {
						if q.Coeffs[j] != float64(j) || r.Coeffs[j] != float64(j) || p.Coeffs[j] != 0 {
							return fmt.Errorf("Fourier Copy/CopyFrom/Clear wrong at %d", j)
						}
					}
				}
				c.State(n)
			}
			return nil
		})
	}
}

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return false
}

func densePair(c *Ctx, ev *poly.Evaluator, n int, p, q, z poly.Poly, what string, key any) error {
	tol := mulTol(p.Coeffs, q.Coeffs)
	pp, pq := clone(p.Coeffs), clone(q.Coeffs)
	want := negMul(p.Coeffs, q.Coeffs)
	chk := func(name string, got []T, w []T, t uint32) error {
		c.Op(1)
		if err := cmpPoly(what+" "+name, got, w, t); err != nil {
			return err
		}
		if !eq(pp, p.Coeffs) || !eq(pq, q.Coeffs) {
			return fmt.Errorf("%s %s modified an operand", what, name)
		}
		return nil
	}
	if err := chk("MulPoly", ev.MulPoly(p, q).Coeffs, want, tol); err != nil {
		return err
	}
	out := z.Copy()
	ev.MulPolyAssign(p, q, out)
	if err := chk("MulPolyAssign", out.Coeffs, want, tol); err != nil {
		return err
	}
	a := p.Copy()
	ev.MulPolyAssign(a, q, a)
	if err := chk("MulPolyAssign(out=first)", a.Coeffs, want, tol); err != nil {
		return err
	}
	b := q.Copy()
	ev.MulPolyAssign(p, b, b)
	if err := chk("MulPolyAssign(out=second)", b.Coeffs, want, tol); err != nil {
		return err
	}
	out = z.Copy()
	ev.MulAddPolyAssign(p, q, out)
	if err := chk("MulAddPolyAssign", out.Coeffs, addP(z.Coeffs, want, 1), tol); err != nil {
		return err
	}
	out = z.Copy()
	ev.MulSubPolyAssign(p, q, out)
	if err := chk("MulSubPolyAssign", out.Coeffs, addP(z.Coeffs, want, ^T(0)), tol); err != nil {
		return err
	}
	// Fourier domain
	fp, fq := ev.ToFourierPoly(p), ev.ToFourierPoly(q)
	hp, hq := fnvF(1, fp.Coeffs), fnvF(1, fq.Coeffs)
	fchk := func(name string, r poly.FourierPoly, w []T, t uint32, alias bool) error {
		safe := ev.ToPoly(r)
		h := fnvF(1, r.Coeffs)
		o2 := z.Copy()
		ev.ToPolyAssign(r, o2)
		if fnvF(1, r.Coeffs) != h {
			return fmt.Errorf("%s %s: ToPolyAssign modified its operand", what, name)
		}
		if err := chk(name+"/ToPoly", safe.Coeffs, w, t); err != nil {
			return err
		}
		if err := chk(name+"/ToPolyAssign", o2.Coeffs, w, t); err != nil {
			return err
		}
		r3 := r.Copy()
		o3 := z.Copy()
		ev.ToPolyAddAssignUnsafe(r3, o3)
		if err := chk(name+"/ToPolyAddAssignUnsafe", o3.Coeffs, addP(z.Coeffs, w, 1), t); err != nil {
			return err
		}
		r4 := r.Copy()
		o4 := z.Copy()
		ev.ToPolySubAssignUnsafe(r4, o4)
		if err := chk(name+"/ToPolySubAssignUnsafe", o4.Coeffs, addP(z.Coeffs, w, ^T(0)), t); err != nil {
			return err
		}
		r5 := r.Copy()
		o5 := z.Copy()
		ev.ToPolyAssignUnsafe(r5, o5)
		if err := chk(name+"/ToPolyAssignUnsafe", o5.Coeffs, w, t); err != nil {
			return err
		}
		if fnvF(1, fp.Coeffs) != hp || fnvF(1, fq.Coeffs) != hq {
			return fmt.Errorf("%s %s modified a Fourier operand", what, name)
		}
		return nil
	}
	if err := fchk("ToFourierPoly", fp, p.Coeffs, 0, false); err != nil {
		return err
	}
	pair := &trlwe.TRLWELv1{A: p.Coeffs, B: q.Coeffs}
	fpair := trlwe.NewTRLWELv1FFT(pair, ev)
	if err := fchk("NewTRLWELv1FFT.A", poly.FourierPoly{Coeffs: fpair.A}, p.Coeffs, 0, false); err != nil {
		return err
	}
	if err := fchk("NewTRLWELv1FFT.B", poly.FourierPoly{Coeffs: fpair.B}, q.Coeffs, 0, false); err != nil {
		return err
	}
	dst := fq.Copy()
	ev.ToFourierPolyAssign(p, dst)
	if err := fchk("ToFourierPolyAssign", dst, p.Coeffs, 0, false); err != nil {
		return err
	}
	neg := ^T(0)
	lin := []struct {
		name string
		f    func(x, y, o poly.FourierPoly)
		w    []T
		tol  uint32
	}{
		{"AddFourierPolyAssign", ev.AddFourierPolyAssign, addP(p.Coeffs, q.Coeffs, 1), 0},
		{"SubFourierPolyAssign", ev.SubFourierPolyAssign, addP(p.Coeffs, q.Coeffs, neg), 0},
		{"MulFourierPolyAssign", ev.MulFourierPolyAssign, want, tol},
	}
	for _, o := range lin {
		for alias := 0; alias < 3; alias++ {
			x, y := fp.Copy(), fq.Copy()
			var r poly.FourierPoly
			switch alias {
			case 0:
				r = ev.ToFourierPoly(z)
			case 1:
				r = x
			case 2:
				r = y
			}
			o.f(x, y, r)
			if err := fchk(fmt.Sprintf("%s alias %d", o.name, alias), r, o.w, o.tol, true); err != nil {
				return err
			}
		}
	}
	for _, o := range []struct {
		name string
		f    func(x, y poly.FourierPoly) poly.FourierPoly
		w    []T
		tol  uint32
	}{{"AddFourierPoly", ev.AddFourierPoly, lin[0].w, 0}, {"SubFourierPoly", ev.SubFourierPoly, lin[1].w, 0}, {"MulFourierPoly", ev.MulFourierPoly, want, tol}} {
		if err := fchk(o.name, o.f(fp, fq), o.w, o.tol, false); err != nil {
			return err
		}
	}
	r := ev.ToFourierPoly(z)
	ev.MulAddFourierPolyAssign(fp, fq, r)
	if err := fchk("MulAddFourierPolyAssign", r, addP(z.Coeffs, want, 1), tol, false); err != nil {
		return err
	}
	r = ev.ToFourierPoly(z)
	ev.MulSubFourierPolyAssign(fp, fq, r)
	if err := fchk("MulSubFourierPolyAssign", r, addP(z.Coeffs, want, neg), tol, false); err != nil {
		return err
	}
	for _, k := range []float64{0, 1, -1, 3, -7} {
		w := make([]T, n)
		for j := range w {
			w[j] = p.Coeffs[j] * T(int32(k))
		}
		r = ev.ToFourierPoly(z)
		ev.FloatMulFourierPolyAssign(fp, k, r)
		if err := fchk(fmt.Sprintf("FloatMul(%g)", k), r, w, 0, false); err != nil {
			return err
		}
		x := fp.Copy()
		ev.FloatMulFourierPolyAssign(x, k, x)
		if err := fchk(fmt.Sprintf("FloatMul(%g) in place", k), x, w, 0, false); err != nil {
			return err
		}
		r = ev.ToFourierPoly(z)
		ev.FloatMulAddFourierPolyAssign(fp, k, r)
		if err := fchk(fmt.Sprintf("FloatMulAdd(%g)", k), r, addP(z.Coeffs, w, 1), 0, false); err != nil {
			return err
		}
	}
	// a shallow copy computes the same, independently of the original's buffers
	ev2 := ev.ShallowCopy()
	if err := chk("ShallowCopy.MulPoly", ev2.MulPoly(p, q).Coeffs, want, tol); err != nil {
		return err
	}
	c.State(key)
	c.Outcome(fnvT(0, want))
	return nil
}
