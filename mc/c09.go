package main

import (
	"fmt"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	rnd "github.com/thedonutfactory/go-tfhe/zzverif/rand"
)

func init() {
	register(&Check{ID: "C09", Run: runC09, Level: "model_checking",
		Rule: "A state is (profile, keys, ciphertext words, test polynomial, implementation) with the observed ring phase, or (degree, index, ring ciphertext) with the extracted phase; a transition is one blind rotation or extraction; every coefficient of every output phase is compared with the exactly rotated test polynomial.",
		Bounds: map[string]string{
			"quick":    "N=16,n0=2: all 32^3 rounded ciphertexts x 3 in-slot offsets x all 4 keys x 5 gadget shapes, all three implementations; n0=1: every one of the 2N slots of mask and body x 3 offsets at every degree 16..2048; every dimension n0=1..20 and the shipped ones; test polynomials trivial, dense and encrypted; extraction: every index at every degree 16..2048, all 2^12 keys at N=16 x boundary masks",
			"thorough": "as quick with 5 in-slot offsets, n0=3 (all 32^4 rounded ciphertexts for one shape), and all 2^16 keys for extraction",
		},
		Assumptions: []string{"bootstrapping keys are noiseless", "words exactly half-way between two multiples of 1/2N have two nearest multiples and are not enumerated"}})
}

type rotEnv struct {
	l   Level
	sk  *key.SecretKey
	off T
	bsk []*trgsw.TRGSWLv1FFT
	ev  *evaluator.Evaluator
	pe  *poly.Evaluator
	tol float64
}

func newRotEnv(l Level, k0, k1 []T) *rotEnv {
	l.use()
	rnd.Quiet(true)
	e := &rotEnv{l: l, sk: mkKey(l, k0, k1), ev: evaluator.NewEvaluator(l.n), pe: poly.NewEvaluator(l.n)}
	e.off = cloudkey.NewCloudKeyNoKSK().DecompositionOffset
	w1 := 0
	for _, b := range k1 {
		w1 += int(b)
	}
	ep := poly.NewEvaluator(l.n)
	var enc [2]*trgsw.TRGSWLv1FFT
	for _, b := range k0 {
		if l.n0 > 40 {
			// share encryptions of equal bits
			if enc[b] == nil {
				enc[b] = trgsw.NewTRGSWLv1FFT(trgsw.NewTRGSWLv1().EncryptTorus(b, 0, k1, ep), ep)
			}
			e.bsk = append(e.bsk, enc[b])
		} else {
			e.bsk = append(e.bsk, trgsw.NewTRGSWLv1FFT(trgsw.NewTRGSWLv1().EncryptTorus(b, 0, k1, ep), ep))
		}
		e.tol += phaseFFTTol(l, w1)
		if b == 1 {
			e.tol += float64(1+w1) * pow2(32-l.sh.l*l.sh.bgbit)
		}
	}
	e.tol += float64(2*(l.n0+2)) * float64(1+w1)
	return e
}

// rot is the exponent -r of the rotation for a ciphertext.
func (e *rotEnv) rot(ct *tlwe.TLWELv0) int {
	k := -modSwitch(ct.P[e.l.n0], e.l.n)
	for i, s := range e.sk.KeyLv0 {
		if s == 1 {
			k += modSwitch(ct.P[i], e.l.n)
		}
	}
	return k
}

func (e *rotEnv) check(what string, out *trlwe.TRLWELv1, ct *tlwe.TLWELv0, tvPhase []T) error {
	if len(out.A) != e.l.n || len(out.B) != e.l.n {
		return fmt.Errorf("%s: result has wrong length", what)
	}
	want := rotate(tvPhase, e.rot(ct))
	d, at := maxDist(ringPhase(out, e.sk.KeyLv1), want)
	if float64(d) > e.tol {
		return fmt.Errorf("%s of %08x: coefficient %d is off by %d (allowed %.0f), expected rotation by X^%d", what, ct.P, at, d, e.tol, e.rot(ct))
	}
	return nil
}

func testPolys(l Level, k1 []T) []*trlwe.TRLWELv1 {
	n := l.n
	mk := func(b []T) *trlwe.TRLWELv1 { return &trlwe.TRLWELv1{A: make([]T, n), B: b} }
	flat := make([]T, n)
	for i := range flat {
		flat[i] = eighth
	}
	dense := hashMask(n, 9)
	// encrypted test polynomial
	a := hashMask(n, 10)
	b := negMul(a, k1)
	for i := range b {
		b[i] += dense[n-1-i]
	}
	return []*trlwe.TRLWELv1{mk(flat), mk(dense), {A: a, B: b}}
}

func runC09(c *Ctx) {
	full := c.thorough()
	offsets := func(l Level) []T {
		h := T(1) << uint(32-log2i(2*l.n)-1)
		o := []T{0, h - 1, -h + 1}
		if full {
			o = append(o, 1, ^T(0)-h/2)
		}
		return o
	}
	// 1. every rounded ciphertext at N=16
	{
		rad := []int{len(gshapes), 4, 32}
		var e *rotEnv
		cur := -1
		var tvs []*trlwe.TRLWELv1
		var tph [][]T
		c.Suite("all-rounded-N16", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			l := gLevel(gshapes[d[0]], 16)
			l.use()
			if k := d[0]*4 + d[1]; k != cur {
				e = newRotEnv(l, bitsKey(2, uint64(d[1])), hashKey(16, uint64(51+d[1])))
				cur = k
				tvs = testPolys(l, e.sk.KeyLv1)
				tph = nil
				for _, t := range tvs {
					tph = append(tph, ringPhase(t, e.sk.KeyLv1))
				}
			}
			c.Describe(func() string { return fmt.Sprintf("%s key %v body slot %d", l.name, e.sk.KeyLv0, d[2]) })
			out := trlwe.NewTRLWELv1()
			offs := offsets(l)
			h0 := fnvT(fnvT(0, tvs[1].B), tvs[2].A)
			for a0 := 0; a0 < 32; a0++ {
				for o := range offs {
					var batch []*tlwe.TLWELv0
					tv := (a0 + o) % len(tvs)
					for a1 := 0; a1 < 32; a1++ {
						ct := ct0(T(a0)<<27+offs[o], T(a1)<<27+offs[(o+a1)%len(offs)], T(d[2])<<27+offs[(o+a0+1)%len(offs)])
						batch = append(batch, ct)
						snap := clone(ct.P)
						e.ev.BlindRotateAssign(ct, tvs[tv], e.bsk, e.off, out)
						if err := e.check("BlindRotateAssign", out, ct, tph[tv]); err != nil {
							return err
						}
						r := trgsw.BlindRotate(ct, tvs[tv], e.bsk, e.off, e.pe)
						if err := e.check("BlindRotate", r, ct, tph[tv]); err != nil {
							return err
						}
						if !eq(snap, ct.P) {
							return fmt.Errorf("blind rotation modified the ciphertext")
						}
						c.Op(2)
					}
					if a0%4 == 0 {
						rs := trgsw.BatchBlindRotate(batch, tvs[tv], e.bsk, e.off)
						if len(rs) != len(batch) {
							return fmt.Errorf("BatchBlindRotate returned %d results for %d inputs", len(rs), len(batch))
						}
						for k, r := range rs {
							if err := e.check(fmt.Sprintf("BatchBlindRotate item %d", k), r, batch[k], tph[tv]); err != nil {
								return err
							}
						}
						c.Op(len(rs))
					}
					c.Bulk(32)
				}
			}
			if fnvT(fnvT(0, tvs[1].B), tvs[2].A) != h0 {
				return fmt.Errorf("blind rotation modified the test polynomial")
			}
			c.Outcome(d)
			return nil
		})
	}
	if full {
		rad := []int{8, 32, 32}
		var e *rotEnv
		cur := -1
		c.Suite("all-rounded-N16-n3", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			l := tiny(3, 16, shapes[2], 0, 0)
			l.use()
			if d[0] != cur {
				e = newRotEnv(l, bitsKey(3, uint64(d[0])), hashKey(16, 57))
				cur = d[0]
			}
			tv := testPolys(l, e.sk.KeyLv1)[1]
			out := trlwe.NewTRLWELv1()
			for x := 0; x < 1024; x++ {
				ct := ct0(T(d[1])<<27+77, T(d[2])<<27-99, T(x&31)<<27+(1<<26-1), T(x>>5)<<27-(1<<26-1))
				e.ev.BlindRotateAssign(ct, tv, e.bsk, e.off, out)
				if err := e.check("BlindRotateAssign", out, ct, tv.B); err != nil {
					return err
				}
			}
			c.Op(1024)
			c.Bulk(1024)
			return nil
		})
	}
	// 2. every slot of mask and body at every degree
	{
		degs := []int{2048, 1024, 512, 256, 128, 64, 32, 16}
		const parts = 16
		rad := []int{len(degs), 2, 2, parts}
		var e *rotEnv
		var tvs []*trlwe.TRLWELv1
		cur := -1
		c.Suite("all-slots", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			n := degs[d[0]]
			l := tiny(1, n, shapes[(d[0]+3)%len(shapes)], 0, 0)
			l.use()
			if k := d[0]*2 + d[1]; k != cur {
				e = newRotEnv(l, []T{T(d[1])}, hashKey(n, 61))
				cur = k
				tvs = testPolys(l, e.sk.KeyLv1)
			}
			c.Describe(func() string { return fmt.Sprintf("%s key %v part %d", l.name, e.sk.KeyLv0, d[3]) })
			offs := offsets(l)
			slot := T(1) << uint(32-log2i(2*n))
			out := trlwe.NewTRLWELv1()
			for s := d[3]; s < 2*n; s += parts {
				for o, off := range offs {
					ct := ct0(T(s)*slot+off, 3*slot)
					if d[2] == 1 {
						ct = ct0(5*slot, T(s)*slot+off)
					}
					tv := tvs[1]
					var r *trlwe.TRLWELv1
					if (s+o)%2 == 0 {
						e.ev.BlindRotateAssign(ct, tv, e.bsk, e.off, out)
						r = out
					} else {
						r = trgsw.BlindRotate(ct, tv, e.bsk, e.off, e.pe)
					}
					c.Op(1)
					// fast phase check: the rotation is decided by two positions; full check on a few
					if s < 64 || s > 2*n-64 || s%(n/8+1) < 2 {
						if err := e.check("blind rotation", r, ct, tv.B); err != nil {
							return err
						}
					} else {
						w := rotate(tv.B, e.rot(ct))
						for _, k := range []int{0, n/2 + s%7} {
							ex := trlweCoeffPhase(r, e.sk.KeyLv1, k)
							if float64(dist(ex, w[k])) > e.tol {
								return fmt.Errorf("blind rotation of %08x: coefficient %d off by %d (allowed %.0f)", ct.P, k, dist(ex, w[k]), e.tol)
							}
						}
					}
				}
			}
			c.Bulk(int64(2 * n / parts * len(offs)))
			c.Outcome(d)
			return nil
		})
	}
	// 3. dimensions
	{
		dims := []int{1160, 1071, 820, 700, 687, 630, 550, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257}
		rad := []int{len(dims), 3, 2}
		c.Suite("dimensions", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			n0 := dims[d[0]]
			n := 16
			if d[2] == 1 {
				n = 1024
				if n0 > 130 && n0 != 700 && n0 != 1071 {
					n = 64
				}
				if n0 == 5 || n0 == 16 || n0 == 1160 {
					n = 2048
				}
			}
			l := tiny(n0, n, shapes[[]int{0, 4, 8}[d[1]]], 0, 0)
			e := newRotEnv(l, hashKey(n0, uint64(71+d[1])), hashKey(n, 72))
			tvs := testPolys(l, e.sk.KeyLv1)
			c.Describe(func() string { return l.name })
			slot := T(1) << uint(32-log2i(2*n))
			out := trlwe.NewTRLWELv1()
			var batch []*tlwe.TLWELv0
			for v := 0; v < 3; v++ {
				m := hashMask(n0, uint64(v)+500)
				for j := range m {
					m[j] = m[j] &^ (slot - 1)
					if v == 1 {
						m[j] += slot/2 - 1
					} else if v == 2 {
						m[j] -= slot/2 - 1
					}
				}
				ct := ct0(append(m, T(v*7+1)*slot)...)
				batch = append(batch, ct)
				e.ev.BlindRotateAssign(ct, tvs[v], e.bsk, e.off, out)
				if err := e.check("BlindRotateAssign", out, ct, ringPhase(tvs[v], e.sk.KeyLv1)); err != nil {
					return err
				}
				r := trgsw.BlindRotate(ct, tvs[v], e.bsk, e.off, e.pe)
				if err := e.check("BlindRotate", r, ct, ringPhase(tvs[v], e.sk.KeyLv1)); err != nil {
					return err
				}
				c.Op(2)
				c.State(d, v)
			}
			for k, r := range trgsw.BatchBlindRotate(batch, tvs[1], e.bsk, e.off) {
				if err := e.check("BatchBlindRotate", r, batch[k], tvs[1].B); err != nil {
					return err
				}
				c.Op(1)
			}
			return nil
		})
	}
	// 4. extraction
	{
		degs := []int{16, 32, 64, 128, 256, 512, 1024, 2048}
		rad := []int{len(degs), 3, 4}
		c.Suite("extract-degrees", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			n := degs[d[0]]
			l := tiny(n, n, shapes[2], 0, 0) // n0 = N: the level-0 extraction applies too
			l.use()
			k1 := hashKey(n, 81)
			if d[1] == 1 {
				k1 = bitsKey(n, ^uint64(0))
			} else if d[1] == 2 {
				k1 = make([]T, n)
				k1[n-1], k1[0] = 1, 1
			}
			ct := &trlwe.TRLWELv1{A: ringMasks(n)[1+d[2]], B: hashMask(n, 82)}
			c.Describe(func() string { return fmt.Sprintf("N=%d key %d mask %d", n, d[1], d[2]) })
			return extractAll(c, l, ct, k1, true, d)
		})
		nk := 1 << 12
		if full {
			nk = 1 << 16
		}
		c.Suite("extract-keys-N16", int64(nk/16), nil, func(i int64) error {
			l := tiny(3, 16, shapes[2], 0, 0)
			l.use()
			for k := 0; k < 16; k++ {
				pat := mix(uint64(i)*16+uint64(k)) >> 20
				if full {
					pat = uint64(i)*16 + uint64(k)
				}
				k1 := bitsKey(16, pat)
				for _, m := range ringMasks(16) {
					ct := &trlwe.TRLWELv1{A: clone(m), B: hashMask(16, uint64(k))}
					if err := extractAll(c, l, ct, k1, false, nil); err != nil {
						return fmt.Errorf("key %v: %w", k1, err)
					}
				}
			}
			c.Bulk(16 * 6 * 16)
			return nil
		})
	}
}

// trlweCoeffPhase is coefficient k of the ring phase.
func trlweCoeffPhase(ct *trlwe.TRLWELv1, s []T, k int) T {
	n := len(s)
	r := ct.B[k]
	for j := 0; j < n; j++ {
		if s[j] == 0 {
			continue
		}
		if j <= k {
			r -= ct.A[k-j] * s[j]
		} else {
			r += ct.A[n+k-j] * s[j]
		}
	}
	return r
}

func extractAll(c *Ctx, l Level, ct *trlwe.TRLWELv1, k1 []T, lv0 bool, key any) error {
	n := l.n
	w := uint32(0)
	for _, b := range k1 {
		w += uint32(b)
	}
	snap := cp(ct)
	ph := ringPhase(ct, k1)
	out := tlwe.NewTLWELv1()
	for k := 0; k < n; k++ {
		a := trlwe.SampleExtractIndex(ct, k)
		for j := range out.P {
			out.P[j] = T(j) * 0x1357911
		}
		trlwe.SampleExtractIndexAssign(ct, k, out)
		res := [][]T{a.P, out.P}
		if lv0 {
			res = append(res, trlwe.SampleExtractIndex2(ct, k).P)
		}
		for v, p := range res {
			if len(p) != n+1 {
				return fmt.Errorf("extraction form %d: length %d", v, len(p))
			}
			if d := dist(phase0(p, k1), ph[k]); d > w+1 {
				return fmt.Errorf("extraction form %d at index %d: phase off by %d (allowed %d)", v, k, d, w+1)
			}
		}
		a.P[0]++
		c.Op(len(res))
		if key != nil {
			c.State(key, k)
		}
		if !same(ct, snap) {
			return fmt.Errorf("extraction modified or shares storage with the ring ciphertext")
		}
	}
	return nil
}
