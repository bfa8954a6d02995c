package main

import (
	"fmt"
	"math"

	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	rnd "github.com/thedonutfactory/go-tfhe/zzverif/rand"
)

func init() {
	register(&Check{ID: "C04", Run: runC04, Level: "model_checking",
		Rule: "A state is (API, dimension, key, mask script, message, modulus, noise sample) with the observed plaintext, or one phase of the torus presented to a decryption function; a transition is one encryption or decryption; a trace is one case compared with the plaintext and, for decisions, with the exact nearest-message rule.",
		Bounds: map[string]string{
			"quick":    "decision functions: all 2^16 high halves of the phase x 5 low halves for booleans, and every slot boundary +-2 and centre of every modulus 1..64 and the documented ones up to 256; round trips: all keys at n0=1..3, scripted masks, all messages -2m..2m, noise samples up to the margin, every dimension 1..20 and all shipped levels, dirty objects; ring vectors: all 2^k patterns on k=8 positions, every single position at every shipped degree; all ordered pairs of 6 keys written in turn into one key array while the evaluators live on",
			"thorough": "all 2^32 phases for both boolean decision functions; all moduli 1..512",
		},
		Assumptions: []string{"integer decryption is judged on phases at least 1% of a slot away from a slot edge, where nearest-message is unambiguous for any rounding of the scale"}})
}

// script feeds mask words and normal samples.
func script(words []uint64, norm float64) *rnd.Hook {
	i := 0
	return &rnd.Hook{
		Word: func(def uint64) uint64 {
			if len(words) == 0 {
				return def
			}
			w := words[i%len(words)]
			i++
			if w == 1 { // keep the default for this word
				return def
			}
			return w
		},
		Norm: func(float64) float64 { return norm },
	}
}

var maskScripts = [][]uint64{nil, {0}, {^uint64(0)}, {1 << 63, 0x7FFFFFFF << 32}, {0xFFFFFFFF00000000, 0x1_00000000, 1}, {0x8000000000000000, ^uint64(0), 0}}

func runC04(c *Ctx) {
	full := c.thorough()
	// 1. boolean decision over the torus
	{
		lows := []uint32{0, 1, 0x7FFF, 0x8000, 0xFFFF}
		keys := [][]T{{0, 0}, {1, 0}, {0, 1}, {1, 1}}
		c.Suite("bool-decision", 256, nil, func(i int64) error {
			l := tiny(2, 16, shapes[0], 0, 0)
			l.use()
			k1 := hashKey(16, 2)
			A, B := tlwe.NewTLWELv0(), tlwe.NewTLWELv1()
			n := int64(0)
			try := func(ph T, k int) error {
				A.P[0], A.P[1] = 0x9E3779B9*T(ph>>7), 0x85EBCA6B^ph
				A.P[2] = ph + A.P[0]*keys[k][0] + A.P[1]*keys[k][1]
				want := int32(ph) >= 0
				n++
				// phase 0 and 1/2 are the two decision edges; everything else is decided by the sign
				if got := A.DecryptBool(keys[k]); got != want && dist(ph, 0) > 2 && dist(ph, 1<<31) > 2 {
					return fmt.Errorf("level 0: phase %08x key %v decrypts to %v", uint32(ph), keys[k], got)
				}
				var s T
				for j := range k1 {
					B.P[j] = ph*T(j+3) + 0x1234567*T(j)
					s += B.P[j] * k1[j]
				}
				B.P[16] = ph + s
				if got := B.DecryptBool(k1); got != want && dist(ph, 0) > 2 && dist(ph, 1<<31) > 2 {
					return fmt.Errorf("level 1: phase %08x decrypts to %v", uint32(ph), got)
				}
				return nil
			}
			if full {
				for x := uint64(0); x < 1<<24; x++ {
					if err := try(T(uint64(i)<<24|x), int(x)&3); err != nil {
						return err
					}
				}
			} else {
				for x := uint32(0); x < 256; x++ {
					for k := range keys {
						for _, lo := range lows {
							if err := try(T(uint32(i)<<24|x<<16|lo), k); err != nil {
								return err
							}
						}
					}
				}
			}
			c.Op(int(2 * n))
			c.Bulk(n)
			c.Describe(func() string { return fmt.Sprintf("phases %02x000000..", i) })
			c.Outcome(i < 128)
			return nil
		})
	}
	// 2. integer decision
	{
		var ms []int
		top := 64
		if full {
			top = 512
		}
		for m := 1; m <= top; m++ {
			ms = append(ms, m)
		}
		if !full {
			ms = append(ms, 96, 100, 127, 128, 129, 200, 255, 256)
		}
		c.Suite("int-decision", int64(len(ms)), nil, func(i int64) error {
			m := ms[i]
			l := tiny(2, 16, shapes[0], 0, 0)
			l.use()
			slot := math.Exp2(31) / float64(m)
			A := tlwe.NewTLWELv0()
			c.Describe(func() string { return fmt.Sprintf("modulus %d", m) })
			for kk := 0; kk < 4; kk++ {
				key := bitsKey(2, uint64(kk))
				for x := -m; x < m; x++ { // the whole torus is 2m slots
					for _, fr := range []float64{0, 0.1, -0.1, 0.3, -0.3, 0.45, -0.45, 0.49, -0.49} {
						ph := T(int64(math.Round((float64(x) + fr) * slot)))
						A.P[0], A.P[1] = ph*3+17, ^ph
						A.P[2] = ph + A.P[0]*key[0] + A.P[1]*key[1]
						pc := clone(A.P)
						want := ((x % m) + m) % m
						got := A.DecryptLWEMessage(m, key)
						c.Op(1)
						if got != want {
							return fmt.Errorf("m=%d phase %08x (message %d %+.2f slot) decrypts to %d, want %d", m, uint32(ph), x, fr, got, want)
						}
						if !eq(pc, A.P) {
							return fmt.Errorf("decryption modified the ciphertext")
						}
					}
				}
			}
			c.Bulk(int64(4 * 2 * m * 9))
			return nil
		})
	}
	// 3. encryption round trips at every dimension, key, mask script and noise sample
	{
		dims := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 64, 127, 550, 630, 687, 700, 820, 1071, 1160}
		rad := []int{len(dims), 4, len(maskScripts)}
		c.Suite("roundtrip-level0", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			n0 := dims[d[0]]
			l := tiny(n0, 16, shapes[0], 0, 0)
			l.use()
			rnd.Quiet(false)
			key := [][]T{bitsKey(n0, 0), bitsKey(n0, ^uint64(0)), hashKey(n0, 8), bitsKey(n0, 0xAAAAAAAAAAAAAAAA)}[d[1]]
			pk := clone(key)
			c.Describe(func() string { return fmt.Sprintf("n0=%d key %d script %d", n0, d[1], d[2]) })
			for _, norm := range []float64{0, 1, -1, 11.9, -11.9} {
				const alpha = 0.01
				for v := 0; v < 2; v++ {
					for _, obj := range []*tlwe.TLWELv0{tlwe.NewTLWELv0(), dirtyCt(n0)} {
						rnd.SetHook(script(maskScripts[d[2]], norm))
						r := obj.EncryptBool(v == 1, alpha, key)
						c.Op(1)
						if r != obj {
							return fmt.Errorf("EncryptBool does not return its receiver")
						}
						if got := r.DecryptBool(key); got != (v == 1) {
							return fmt.Errorf("bool %v noise %g: decrypts to %v", v == 1, norm*alpha, got)
						}
						if dd := float64(dist(phase0(r.P, key), bphase(v == 1)+T(int64(norm*alpha*math.Exp2(32))))); dd > 4 {
							return fmt.Errorf("bool %v noise %g: phase %08x", v == 1, norm*alpha, uint32(phase0(r.P, key)))
						}
						c.State(d, norm, v, fnvT(0, r.P))
					}
				}
			}
			for _, m := range []int{1, 2, 3, 4, 5, 7, 8, 10, 16, 31, 32, 64} {
				alpha := 1.0 / float64(4*m) / 10
				for x := -2 * m; x <= 2*m; x++ {
					for _, norm := range []float64{0, 9.8, -9.8} {
						rnd.SetHook(script(maskScripts[d[2]], norm))
						r := dirtyCt(n0).EncryptLWEMessage(x, m, alpha, key)
						want := ((x % m) + m) % m
						c.Op(1)
						if got := r.DecryptLWEMessage(m, key); got != want {
							return fmt.Errorf("message %d mod %d noise %g: decrypts to %d", x, m, norm*alpha, got)
						}
						c.State(d, m, x, norm)
						c.Outcome(m, want)
					}
				}
			}
			for _, p := range []float64{0, 0.25, -0.25, 0.5, 0.3, 0.999, 1.25, -3.7, 1e-9} {
				rnd.SetHook(script(maskScripts[d[2]], 0))
				r := dirtyCt(n0).EncryptF64(p, 0.1, key)
				c.Op(1)
				want := T(int64(math.Floor((p - math.Floor(p)) * math.Exp2(32))))
				if dist(phase0(r.P, key), want) > 2 {
					return fmt.Errorf("EncryptF64(%g): phase %08x want %08x", p, uint32(phase0(r.P, key)), uint32(want))
				}
			}
			if !eq(pk, key) {
				return fmt.Errorf("the key was modified")
			}
			return nil
		})
	}
	// 4. level 1
	{
		dims := []int{16, 32, 64, 128, 256, 512, 1024, 2048}
		rad := []int{len(dims), 3, len(maskScripts)}
		c.Suite("roundtrip-level1", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			n := dims[d[0]]
			l := tiny(3, n, shapes[0], 0, 0)
			l.use()
			rnd.Quiet(false)
			key := [][]T{bitsKey(n, ^uint64(0)), hashKey(n, 8), bitsKey(n, 0xAAAAAAAAAAAAAAAA)}[d[1]]
			pk := clone(key)
			c.Describe(func() string { return fmt.Sprintf("N=%d key %d script %d", n, d[1], d[2]) })
			for _, norm := range []float64{0, 11.9, -11.9} {
				const alpha = 0.01
				for v := 0; v < 2; v++ {
					for dirty := 0; dirty < 2; dirty++ {
						o := tlwe.NewTLWELv1()
						if dirty == 1 {
							for j := range o.P {
								o.P[j] = T(0xABCD1234 * uint32(j+1))
							}
						}
						rnd.SetHook(script(maskScripts[d[2]], norm))
						r := o.EncryptBool(v == 1, alpha, key)
						c.Op(1)
						pc := clone(r.P)
						if got := r.DecryptBool(key); got != (v == 1) {
							return fmt.Errorf("level 1 bool %v noise %g: decrypts to %v", v == 1, norm*alpha, got)
						}
						if dd := float64(dist(phase0(r.P, key), bphase(v == 1)+T(int64(norm*alpha*math.Exp2(32))))); dd > 4 {
							return fmt.Errorf("level 1 bool %v noise %g: phase %08x", v == 1, norm*alpha, uint32(phase0(r.P, key)))
						}
						if !eq(pc, r.P) {
							return fmt.Errorf("decryption modified the ciphertext")
						}
						c.State(d, norm, v, fnvT(0, r.P))
					}
				}
			}
			if !eq(pk, key) {
				return fmt.Errorf("the key was modified")
			}
			return nil
		})
	}
	// 5. ring vectors
	{
		dims := []int{16, 32, 64, 128, 256, 512, 1024, 2048}
		rad := []int{len(dims), 2, len(maskScripts)}
		c.Suite("roundtrip-ring", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			n := dims[d[0]]
			l := tiny(3, n, shapes[0], 0, 0)
			l.use()
			rnd.Quiet(false)
			key := [][]T{bitsKey(n, ^uint64(0)), hashKey(n, 8)}[d[1]]
			pk := clone(key)
			pe := poly.NewEvaluator(n)
			c.Describe(func() string { return fmt.Sprintf("ring N=%d key %d script %d", n, d[1], d[2]) })
			var pats [][]bool
			mk := func(f func(j int) bool) {
				p := make([]bool, n)
				for j := range p {
					p[j] = f(j)
				}
				pats = append(pats, p)
			}
			mk(func(j int) bool { return true })
			mk(func(j int) bool { return false })
			mk(func(j int) bool { return j%2 == 0 })
			step := 1
			if n > 64 && d[2] > 0 {
				step = n/32 - 1
			}
			for p := 0; p < n; p += step {
				mk(func(j int) bool { return j == p })
				if n >= 512 && p > 40 {
					p += 6
				}
			}
			if n == 16 {
				for v := 0; v < 256; v++ {
					mk(func(j int) bool { return j >= 4 && j < 12 && v>>(j-4)&1 == 1 })
				}
			}
			for pi, p := range pats {
				for _, norm := range []float64{0, 11.5, -11.5} {
					if norm != 0 && pi > 3 {
						continue
					}
					const alpha = 0.01
					rnd.SetHook(script(maskScripts[d[2]], norm))
					o := trlwe.NewTRLWELv1()
					if pi%2 == 1 {
						for j := range o.A {
							o.A[j], o.B[j] = T(j*77), ^T(j)
						}
					}
					r := o.EncryptBool(p, alpha, key, pe)
					a, b := clone(r.A), clone(r.B)
					got := r.DecryptBool(key, pe)
					c.Op(2)
					if len(got) != n {
						return fmt.Errorf("DecryptBool gives %d values", len(got))
					}
					for j := range p {
						if got[j] != p[j] {
							return fmt.Errorf("pattern %d position %d noise %g: got %v", pi, j, norm*alpha, got[j])
						}
					}
					if !eq(a, r.A) || !eq(b, r.B) {
						return fmt.Errorf("decryption modified the ciphertext")
					}
					if pi < 6 || n <= 64 {
						// the phase itself (FFT rounding allowed: 1024 units)
						ph := ringPhase(r, key)
						for j := range p {
							if dd := dist(ph[j], bphase(p[j])+T(int64(norm*alpha*math.Exp2(32)))); dd > uint32(fftMulTol(n))+4 {
								return fmt.Errorf("pattern %d position %d: phase %08x off by %d", pi, j, uint32(ph[j]), dd)
							}
						}
					}
					c.State(d, pi, norm, fnvT(0, r.B))
				}
			}
			if !eq(pk, key) {
				return fmt.Errorf("the key was modified")
			}
			return nil
		})
	}
	changedKeys(c)
	// 6. shipped levels through the public constructors
	{
		c.Suite("shipped-levels", int64(len(shippedIDs)), nil, func(i int64) error {
			l := shipped(shippedIDs[i].name)
			l.use()
			rnd.Quiet(false)
			k0, k1 := hashKey(l.n0, 3), hashKey(l.n, 4)
			pe := poly.NewEvaluator(l.n)
			c.Describe(func() string { return l.name })
			for rep := 0; rep < 32; rep++ {
				v := rep%2 == 1
				a := tlwe.NewTLWELv0().EncryptBool(v, params.GetTLWELv0().ALPHA, k0)
				b := tlwe.NewTLWELv1().EncryptBool(v, params.GetTLWELv1().ALPHA, k1)
				pat := make([]bool, l.n)
				for j := range pat {
					pat[j] = mix(uint64(j+rep))&8 != 0
				}
				t := trlwe.NewTRLWELv1().EncryptBool(pat, params.GetTRLWELv1().ALPHA, k1, pe)
				c.Op(6)
				if a.DecryptBool(k0) != v || b.DecryptBool(k1) != v {
					return fmt.Errorf("%s: bool %v decrypts wrongly", l.name, v)
				}
				for j, g := range t.DecryptBool(k1, pe) {
					if g != pat[j] {
						return fmt.Errorf("%s: ring position %d decrypts wrongly", l.name, j)
					}
				}
				m := rep%8 + 1
				for x := -m; x < 2*m; x++ {
					if got := tlwe.NewTLWELv0().EncryptLWEMessage(x, m, params.GetTLWELv0().ALPHA, k0).DecryptLWEMessage(m, k0); got != ((x%m)+m)%m {
						return fmt.Errorf("%s: %d mod %d decrypts to %d", l.name, x, m, got)
					}
					c.Op(2)
				}
				c.State(i, rep)
			}
			return nil
		})
	}
}

// fftMulTol bounds the rounding error of one FFT product of a full-range and a binary polynomial.
func fftMulTol(n int) float64 { return float64(n)*math.Exp2(31)*float64(n)*math.Exp2(-50) + 4 }

// changedKeys overwrites one key array in place, over all ordered pairs of keys, while the evaluators live on: every
// encryption and decryption must use the key as it is at the call.
func changedKeys(c *Ctx) {
	degs := []int{16, 64, 1024}
	rad := []int{len(degs), 6, 6}
	c.Suite("changed-keys", prod(rad...), nil, func(i int64) error {
		d := idx(i, rad...)
		n := degs[d[0]]
		l := tiny(n, n, shapes[0], 0, 0)
		l.use()
		rnd.Quiet(false)
		rnd.SetHook(script(nil, 0))
		pe := poly.NewEvaluator(n)
		single := make([]T, n)
		single[n-1] = 1
		ks := [][]T{hashKey(n, 8), hashKey(n, 9), bitsKey(n, 0xAAAAAAAAAAAAAAAA), bitsKey(n, ^uint64(0)), make([]T, n), single}
		key := make([]T, n)
		c.Describe(func() string { return fmt.Sprintf("N=%d keys %d, %d in one array", n, d[1], d[2]) })
		for step, k := range []int{d[1], d[2], d[1], d[2], d[2], d[1]} {
			copy(key, ks[k])
			pat := make([]bool, n)
			for j := range pat {
				pat[j] = mix(uint64(j*7+step))&4 != 0
			}
			t := trlwe.NewTRLWELv1().EncryptBool(pat, 0.001, key, pe)
			ph := ringPhase(t, ks[k])
			for j, g := range t.DecryptBool(key, pe) {
				if g != pat[j] {
					return fmt.Errorf("step %d: ring position %d decrypts to %v", step, j, g)
				}
				if dist(ph[j], bphase(pat[j])) > uint32(fftMulTol(n))+4 {
					return fmt.Errorf("step %d: ring position %d has phase %08x under the current key", step, j, uint32(ph[j]))
				}
			}
			// a ciphertext made outside with the current key
			p2 := negMul(t.A, ks[k])
			for j := range p2 {
				p2[j] += bphase(!pat[j])
			}
			for j, g := range (&trlwe.TRLWELv1{A: clone(t.A), B: p2}).DecryptBool(key, pe) {
				if g == pat[j] {
					return fmt.Errorf("step %d: independent ring ciphertext, position %d decrypts to %v", step, j, g)
				}
			}
			a := tlwe.NewTLWELv0().EncryptBool(pat[0], 0.001, key)
			b := tlwe.NewTLWELv1().EncryptBool(pat[1], 0.001, key)
			m := tlwe.NewTLWELv0().EncryptLWEMessage(step, 8, 0.001, key)
			if a.DecryptBool(key) != pat[0] || b.DecryptBool(key) != pat[1] || m.DecryptLWEMessage(8, key) != step {
				return fmt.Errorf("step %d: a round trip fails", step)
			}
			if dist(phase0(a.P, ks[k]), bphase(pat[0])) > 4 || dist(phase0(b.P, ks[k]), bphase(pat[1])) > 4 {
				return fmt.Errorf("step %d: an encryption is not under the current key", step)
			}
			if !eq(key, ks[k]) {
				return fmt.Errorf("step %d: the key was modified", step)
			}
			c.Op(9)
			c.State(d, step)
		}
		c.Outcome(d)
		return nil
	})
}
