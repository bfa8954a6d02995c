package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/utils"
	rnd "github.com/thedonutfactory/go-tfhe/zzverif/rand"
)

func init() {
	register(&Check{ID: "C18", Run: runC18, Level: "model_checking",
		Rule: "A state is one torus element, one finite real, or one (modulus, scale, message, perturbation) with the observed conversion; a transition is one conversion call. Reals are compared with exact big-integer reduction modulo 1; encodings with message/scale arithmetic in exact rationals.",
		Bounds: map[string]string{
			"quick":    "torus -> real -> torus on all 2^32 torus elements; reals k/2^j for all j in 0..60 and 400 numerators each, all signs, magnitudes to 2^80, subnormals; conversion and noise vectors of length 0..40 and every power of two +-1 to 4096 (5000); encoder: moduli 1..300 and powers of two to 2^20, all messages -2m..3m (m<=64) or boundary ones, 9 perturbations per slot, scales 1/m, 1/(2m), 1/(4m), 1/(8m), 3/(32m)...; Gaussian: 41 samples x 12 deviations x 9 means",
			"thorough": "moduli to 4096",
		},
		Assumptions: []string{"perturbed decoding is judged where the slots tile the circle (1/scale a multiple of the modulus) or the perturbed point stays inside [0,1)", "slots of fewer than 16 torus units are not judged"}})
}

// exactTorus returns d mod 1 in units of 2^-32 as an exact rational.
func exactTorus(d float64) *big.Rat {
	r := new(big.Rat)
	r.SetFloat64(d)
	r.Mul(r, new(big.Rat).SetInt64(1<<32))
	fl := new(big.Int).Div(r.Num(), new(big.Int).Mul(r.Denom(), big.NewInt(1<<32))) // floor for positive denominators (Euclidean)
	fl.Mul(fl, big.NewInt(1<<32))
	return r.Sub(r, new(big.Rat).SetInt(fl))
}

// torusErr is the distance of t from the exact value on the circle, in units.
func torusErr(t T, d float64) float64 {
	e := exactTorus(d)
	e.Sub(e, new(big.Rat).SetInt64(int64(t)))
	e.Abs(e)
	if o := new(big.Rat).Sub(new(big.Rat).SetInt64(1<<32), e); o.Cmp(e) < 0 {
		e = o
	}
	if f, _ := e.Float64(); f != 1 || e.Cmp(new(big.Rat).SetInt64(1)) == 0 {
		return f
	}
	return math.Nextafter(1, float64(1+e.Cmp(new(big.Rat).SetInt64(1)))) // just below or above one unit
}

func runC18(c *Ctx) {
	full := c.thorough()
	rtt := func(t T) error {
		f := utils.TorusToF64(t)
		if f != float64(t)/4294967296.0 {
			return fmt.Errorf("TorusToF64(%08x) = %v", uint32(t), f)
		}
		if g := utils.F64ToTorus(f); g != t {
			return fmt.Errorf("F64ToTorus(TorusToF64(%08x)) = %08x", uint32(t), uint32(g))
		}
		if g := utils.F64ToTorus(f - 1); g != t {
			return fmt.Errorf("F64ToTorus(TorusToF64(%08x)-1) = %08x", uint32(t), uint32(g))
		}
		return nil
	}
	c.Suite("torus", 4096, nil, func(i int64) error {
		c.Describe(func() string { return fmt.Sprintf("torus elements %03x00000..%03xfffff", i, i) })
		n := int64(0)
		for x := uint32(0); x < 1<<20; x++ {
			if err := rtt(T(uint32(i)<<20 | x)); err != nil {
				return err
			}
			n++
		}
		c.Bulk(n)
		c.Op(int(3 * n))
		c.Outcome(i >> 6)
		return nil
	})
	c.Suite("reals", 61, nil, func(i int64) error {
		j := int(i)
		c.Describe(func() string { return fmt.Sprintf("reals k/2^%d", j) })
		var ks []float64
		for k := 0; k < 260; k++ {
			ks = append(ks, float64(k))
		}
		for e := 8; e < 53; e++ {
			p := math.Exp2(float64(e))
			ks = append(ks, p-1, p, p+1)
		}
		for k := 0; k < 40; k++ {
			ks = append(ks, float64(mix(uint64(k)+uint64(i)*97)>>11))
		}
		n := 0
		try := func(d float64) error {
			n++
			t := utils.F64ToTorus(d)
			if e := torusErr(t, d); e >= 1 {
				return fmt.Errorf("F64ToTorus(%v) = %08x, off by %v units", d, uint32(t), e)
			}
			v := utils.F64ToTorusVec([]float64{d, -d, 0.5, d})
			if len(v) != 4 || v[0] != t || v[3] != t || v[1] != utils.F64ToTorus(-d) || v[2] != 1<<31 {
				return fmt.Errorf("F64ToTorusVec([%v %v .5 %v]) = %v", d, -d, d, v)
			}
			return nil
		}
		sc := math.Exp2(-float64(j))
		for _, k := range ks {
			for _, off := range []float64{0, 1, -1, 3, 1 << 20} {
				if err := try(k*sc + off); err != nil {
					return err
				}
				if err := try(-k*sc - off); err != nil {
					return err
				}
			}
			if err := try(k * math.Exp2(float64(j)-30)); err != nil {
				return err
			}
			if err := try(-k * math.Exp2(float64(j)-30)); err != nil {
				return err
			}
		}
		if j == 0 {
			for _, d := range []float64{math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, math.MaxFloat64, -math.MaxFloat64, math.Exp2(80), -math.Exp2(80), 0.1, 0.7, -0.1, 1.0 / 3, -1.0 / 3, math.Nextafter(1, 0), math.Nextafter(1, 2), math.Nextafter(0.5, 0), -math.Nextafter(0.5, 1), math.Copysign(0, -1)} {
				if err := try(d); err != nil {
					return err
				}
			}
		}
		c.Bulk(int64(n))
		c.Op(2 * n)
		c.Outcome(j)
		return nil
	})
	lens := append(ints(0, 40), 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 1535, 1536, 1537, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000)
	c.Suite("vectors", int64(len(lens)), nil, func(i int64) error {
		n := lens[i]
		d := make([]float64, n)
		for k := range d {
			d[k] = float64(int64(mix(uint64(k)+uint64(i)*131))) / math.Exp2(61)
		}
		keep := append([]float64(nil), d...)
		v := utils.F64ToTorusVec(d)
		g := utils.GaussianF64Vec(d, 0, rnd.New(rnd.NewSource(1)))
		c.Op(2)
		c.State(n)
		if len(v) != n || len(g) != n {
			return fmt.Errorf("vector of %d elements converts to %d and %d", n, len(v), len(g))
		}
		for k := range v {
			if v[k] != utils.F64ToTorus(d[k]) || g[k] != v[k] {
				return fmt.Errorf("element %d of %d: %08x / %08x, single conversion %08x", k, n, uint32(v[k]), uint32(g[k]), uint32(utils.F64ToTorus(d[k])))
			}
			if d[k] != keep[k] {
				return fmt.Errorf("input element %d changed", k)
			}
		}
		c.Outcome(n)
		return nil
	})
	// encoder
	{
		var ms []int
		top := 300
		if full {
			top = 4096
		}
		for m := 1; m <= top; m++ {
			ms = append(ms, m)
		}
		for e := 9; e <= 20; e++ {
			if 1<<e > top {
				ms = append(ms, 1<<e-1, 1<<e, 1<<e+1)
			}
		}
		type sc struct {
			num, den float64 // scale = num/(den*m)
			tiles    bool    // 1/scale is a multiple of m
		}
		scs := []sc{{1, 2, true}, {1, 1, true}, {1, 4, true}, {1, 8, true}, {1, 3, true}, {3, 32, false}, {2, 5, false}, {5, 7, false}}
		c.Suite("encoder", prod(len(ms), len(scs)), nil, func(i int64) error {
			d := idx(i, len(ms), len(scs))
			m, s := ms[d[0]], scs[d[1]]
			scale := s.num / (s.den * float64(m))
			en := lut.NewEncoderWithScale(m, scale)
			if d[1] == 0 {
				en = lut.NewEncoder(m)
				if en.Scale != scale || en.MessageModulus != m {
					return fmt.Errorf("NewEncoder(%d): modulus %d scale %v", m, en.MessageModulus, en.Scale)
				}
			}
			c.Describe(func() string { return fmt.Sprintf("modulus %d, scale %v/(%v m)", m, s.num, s.den) })
			slot := scale * math.Exp2(32)
			var xs []int
			if m <= 64 {
				for x := -2 * m; x <= 3*m; x++ {
					xs = append(xs, x)
				}
			} else {
				for _, b := range []int{-2 * m, -m, 0, m / 2, m, 2 * m, 17 * m, -17 * m} {
					xs = append(xs, b-2, b-1, b, b+1, b+2)
				}
				for k := 0; k < 24; k++ {
					xs = append(xs, int(mix(uint64(k*m))%uint64(m)))
				}
				xs = append(xs, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64)
			}
			n := int64(0)
			for _, x := range xs {
				r := ((x % m) + m) % m
				t := en.Encode(x)
				// exact position r*scale, truncation and one rounding of the scale allowed
				if e := torusErr(t, float64(r)*scale); e > 2 {
					return fmt.Errorf("Encode(%d) mod %d scale %v = %08x, off by %v", x, m, scale, uint32(t), e)
				}
				if t2 := en.EncodeWithCustomScale(x, scale); t2 != t {
					return fmt.Errorf("EncodeWithCustomScale(%d, %v) = %08x, Encode gives %08x", x, scale, uint32(t2), uint32(t))
				}
				if t3 := en.EncodeWithCustomScale(x, scale/2); torusErr(t3, float64(r)*scale/2) > 2 {
					return fmt.Errorf("EncodeWithCustomScale(%d, %v) mod %d = %08x", x, scale/2, m, uint32(t3))
				}
				if slot < 16 {
					continue
				}
				for k, f := range []float64{0, 0.1, -0.1, 0.3, -0.3, 0.45, -0.45, 0.499, -0.499} {
					q := float64(r)*slot + f*slot
					if !s.tiles && (q < 1 || q > math.Exp2(32)-1) {
						continue
					}
					if math.Abs(f) > 0.4 && slot*(0.5-math.Abs(f)) < 4 {
						continue // too close to the edge for whole torus units
					}
					p := t + T(int64(f*slot))
					if g := en.Decode(p); g != r {
						return fmt.Errorf("Decode(Encode(%d)%+.3f slots) mod %d, scale %v/(%v m) = %d, want %d", x, f, m, s.num, s.den, g, r)
					}
					if m == 2 {
						if g := en.DecodeBool(p); g != (r == 1) {
							return fmt.Errorf("DecodeBool(Encode(%d)%+.3f slots) = %v", x, f, g)
						}
					} else if g := en.DecodeBool(p); g != (r != 0) {
						return fmt.Errorf("DecodeBool(Encode(%d)) mod %d = %v", x, m, g)
					}
					n++
					_ = k
				}
				n++
			}
			c.Bulk(n)
			c.Op(int(2 * n))
			if en.MessageModulus != m || en.Scale != scale {
				return fmt.Errorf("encoder changed: %+v", *en)
			}
			c.Outcome(m, d[1])
			return nil
		})
	}
	// Gaussian vectors of every length: one sample each, in order
	{
		c.Suite("gaussian-vectors", prod(len(lens), 3), nil, func(i int64) error {
			d := idx(i, len(lens), 3)
			n := lens[d[0]]
			a := []float64{0, 0.0042, 3.0517578125e-05}[d[1]]
			c.Describe(func() string { return fmt.Sprintf("vector of %d means, deviation %v", n, a) })
			mu := make([]float64, n)
			for k := range mu {
				mu[k] = float64(int64(mix(uint64(k)+uint64(i)*131))) / math.Exp2(63)
			}
			keep := append([]float64(nil), mu...)
			sample := func(k int) float64 { return float64(int64(mix(uint64(k)*3+1))) / math.Exp2(61) }
			rnd.Quiet(false)
			draws := 0
			rnd.SetHook(&rnd.Hook{Norm: func(float64) float64 { draws++; return sample(draws - 1) }, Word: func(w uint64) uint64 { return w }})
			got := utils.GaussianF64Vec(mu, a, rnd.New(rnd.NewSource(7)))
			rnd.SetHook(nil)
			c.Op(1)
			if n > 0 && draws == 0 {
				c.Incomplete("the Gaussian sampler does not draw through Rand.NormFloat64: the sample-times-deviation clause is not judged")
				return nil
			}
			if draws != n || len(got) != n {
				return fmt.Errorf("%d means: %d samples drawn, %d results", n, draws, len(got))
			}
			for k := range got {
				e := math.Mod(sample(k)*a, 1) + mu[k]
				if x := torusErr(got[k], e); x > 3 {
					return fmt.Errorf("mean %d of %d: %v, deviation %v, sample %v: %08x is off by %v units", k, n, mu[k], a, sample(k), uint32(got[k]), x)
				}
				if mu[k] != keep[k] {
					return fmt.Errorf("mean %d of %d was changed", k, n)
				}
			}
			c.Bulk(int64(n))
			c.Outcome(n, d[1])
			return nil
		})
	}
	// Gaussian samples
	{
		alphas := []float64{0, 1, 0.5, 2e-5, 3.0517578125e-05, 5e-5, 2e-8, 3.73e-8, 7.088226765410429e-08, 2.2204460492503131e-16, 0.0042, 3}
		mus := []float64{0, 0.125, -0.125, 0.25, 0.5, 0.875, -0.7, 3.25, -2.0625}
		c.Suite("gaussian", prod(len(alphas), len(mus), 3), nil, func(i int64) error {
			d := idx(i, len(alphas), len(mus), 3)
			a, mu := alphas[d[0]], mus[d[1]]
			rng := rnd.New(rnd.NewSource(7))
			rnd.Quiet(false)
			for k := -20; k <= 20; k++ {
				s := float64(k) / 4
				if k == 20 {
					s = 8.21
				}
				draws := 0
				rnd.SetHook(&rnd.Hook{Norm: func(float64) float64 { draws++; return s * float64(draws) }, Word: func(w uint64) uint64 { return w }})
				var got []T
				mt := utils.F64ToTorus(mu)
				nm := 1
				switch d[2] {
				case 0:
					got = []T{utils.GaussianTorus(mt, a, rng)}
				case 1:
					got = []T{utils.GaussianF64(mu, a, rng)}
				default:
					nm = 3
					got = utils.GaussianF64Vec([]float64{mu, mu + 0.25, -mu}, a, rng)
				}
				rnd.SetHook(nil)
				c.Op(1)
				if draws == 0 {
					c.Incomplete("the Gaussian sampler does not draw through Rand.NormFloat64: the sample-times-deviation clause is not judged")
					return nil
				}
				if draws != nm {
					return fmt.Errorf("%d components drew %d normal samples", nm, draws)
				}
				if len(got) != nm {
					return fmt.Errorf("%d results for %d means", len(got), nm)
				}
				for j := range got {
					m := []float64{mu, mu + 0.25, -mu}[j]
					e := math.Mod(s*float64(j+1)*a, 1) + m
					if x := torusErr(got[j], e); x > 3 {
						return fmt.Errorf("mean %v, deviation %v, sample %v: %08x is off by %v units", m, a, s*float64(j+1), uint32(got[j]), x)
					}
				}
				c.State(d, k)
			}
			c.Outcome(d[0], d[2])
			return nil
		})
	}
}
