package main

import (
	"fmt"
	"math"

	pre "github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/utils"
	rnd "github.com/thedonutfactory/go-tfhe/zzverif/rand"
)

func init() {
	register(&Check{ID: "C11", Run: runC11, Level: "model_checking",
		Rule: "A state is (keys, public-key size, plaintext, coin outcomes) or (key pair, mode, base/levels, ciphertext words) with the observed phase under the target key; a transition is one encryption, key generation or re-encryption. Coins are a choice tree: every draw of the encryptor branches into all-zero and all-one words, and every leaf is run.",
		Bounds: map[string]string{
			"quick":    "public key: sizes 0..4, all keys at n0=2, every coin outcome, 7 plaintexts, noiseless and with constant noise; re-encryption: all key pairs at n0=1..3, both modes, 9 shipped + 15 custom base/level shapes, every digit value (fields up to 2^16) and boundary digits x positions; all chains of 3 keys at n0=2; every position on its own at 36 dimensions (1, 2, 2^k and neighbours, every shipped one) x both modes x 3 shapes against half a last digit",
			"thorough": "public key sizes to 6; digit fields up to 2^21",
		},
		Assumptions: []string{"custom shapes have basebit*levels <= 32", "key noise is scripted to zero or to one constant deviation; its distribution is not judged here"}})
}

// coinTree runs body once for every outcome of its random draws: each raw word drawn is a binary choice.
func coinTree(maxDraws int, body func() error) (runs int, err error) {
	prefix := []bool{}
	for {
		n := 0
		var taken []bool
		rnd.SetHook(&rnd.Hook{
			Word: func(uint64) uint64 {
				b := false
				if n < len(prefix) {
					b = prefix[n]
				}
				n++
				taken = append(taken, b)
				if b {
					return ^uint64(0)
				}
				return 0
			},
			Norm: func(float64) float64 { return 0 },
		})
		err := body()
		rnd.SetHook(nil)
		runs++
		if err != nil {
			return runs, fmt.Errorf("coins %v: %w", taken, err)
		}
		if len(taken) > maxDraws {
			taken = taken[:maxDraws]
		}
		// next leaf: flip the last false to true
		k := len(taken) - 1
		for k >= 0 && taken[k] {
			k--
		}
		if k < 0 {
			return runs, nil
		}
		prefix = append(append([]bool{}, taken[:k]...), true)
	}
}

type bshape struct{ basebit, t int }

var customShapes = []bshape{{1, 1}, {1, 8}, {1, 31}, {1, 32}, {2, 16}, {4, 8}, {2, 15}, {3, 5}, {3, 10}, {4, 7}, {5, 6}, {6, 5}, {8, 3}, {10, 3}, {15, 1}}

func reencShapes() []bshape {
	var r []bshape
	seen := map[bshape]bool{}
	for _, s := range shapes {
		b := bshape{s.basebit, s.t}
		if !seen[b] {
			seen[b] = true
			r = append(r, b)
		}
	}
	for _, b := range customShapes {
		if !seen[b] {
			seen[b] = true
			r = append(r, b)
		}
	}
	return r
}

func wt(k []T) int {
	w := 0
	for _, b := range k {
		w += int(b)
	}
	return w
}

func reencTol(a []T, s bshape) uint64 {
	if s.basebit*s.t == 32 {
		return 2 // nothing is rounded away
	}
	return uint64(wt(a))*(1<<uint(32-s.basebit*s.t-1)) + 2
}

func mkReenc(mode int, a, b []T, pk *pre.PublicKeyLv0, alpha float64, s bshape) *pre.ProxyReencryptionKey {
	if mode == 0 {
		return pre.NewProxyReencryptionKeySymmetricWithParams(a, b, alpha, s.basebit, s.t)
	}
	return pre.NewProxyReencryptionKeyAsymmetricWithParams(a, pk, alpha, s.basebit, s.t)
}

func rkHash(r *pre.ProxyReencryptionKey) uint64 {
	h := uint64(r.Base*1000 + r.T)
	for _, e := range r.KeyEncryptions {
		h = fnvT(h, e.P)
	}
	return h
}

func pkHash(p *pre.PublicKeyLv0) uint64 {
	h := uint64(1)
	for _, e := range p.Encryptions {
		h = fnvT(h, e.P)
	}
	return h
}

func runC11(c *Ctx) {
	full := c.thorough()
	// 1. every coin outcome of public-key encryption
	{
		top := 4
		if full {
			top = 6
		}
		plains := []float64{0.125, -0.125, 0, 0.25, 0.49, -0.3, 1.125}
		rad := []int{4, top + 1, len(plains), 2}
		c.Suite("coins", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			l := tiny(2, 16, shapes[2], 0, 0)
			l.use()
			sk := bitsKey(2, uint64(d[0]))
			size := d[1]
			alpha := 0.0
			if d[3] == 1 {
				alpha = 1e-3
			}
			// noisy variant: every zero encryption carries exactly alpha
			rnd.Quiet(false)
			rnd.SetHook(&rnd.Hook{Norm: func(float64) float64 { return 1 }})
			pk := pre.NewPublicKeyLv0WithParams(sk, size, alpha)
			rnd.SetHook(nil)
			if len(pk.Encryptions) != size {
				return fmt.Errorf("public key has %d encryptions, asked for %d", len(pk.Encryptions), size)
			}
			h := pkHash(pk)
			p := plains[d[2]]
			want := utils.F64ToTorus(p)
			tol := float64(size)*math.Ceil(alpha*pow2(32)) + 2
			c.Describe(func() string { return fmt.Sprintf("key %v size %d plaintext %v alpha %v", sk, size, p, alpha) })
			var prev []*tlwe.TLWELv0
			runs, err := coinTree(2*top+2, func() error {
				ct := pk.EncryptF64(p, 0)
				c.Op(1)
				if len(ct.P) != 3 {
					return fmt.Errorf("ciphertext of %d words", len(ct.P))
				}
				if e := dist(phase0(ct.P, sk), want); float64(e) > tol {
					return fmt.Errorf("phase %08x, plaintext %08x", uint32(phase0(ct.P, sk)), uint32(want))
				}
				c.State(d, fnvT(0, ct.P))
				c.Outcome(fnvT(0, ct.P))
				if d[2] < 2 {
					b := pk.EncryptBool(p > 0, 0)
					if b.DecryptBool(sk) != (p > 0) {
						return fmt.Errorf("EncryptBool(%v) decrypts wrongly", p > 0)
					}
					if e := dist(phase0(b.P, sk), want); float64(e) > tol {
						return fmt.Errorf("EncryptBool: phase off by %d", e)
					}
				}
				prev = append(prev, ct)
				return nil
			})
			c.Extra("coin_leaves", int64(runs))
			if err != nil {
				return err
			}
			if pkHash(pk) != h {
				return fmt.Errorf("encryption modified the public key")
			}
			return nil
		})
	}
	// 2. all key pairs, modes, shapes, digit boundaries
	{
		sh := reencShapes()
		rad := []int{3, 2, len(sh)}
		c.Suite("key-pairs", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			n0 := d[0] + 1
			s := sh[d[2]]
			l := tiny(n0, 16, shapes[2], 0, 0)
			l.use()
			if s.basebit > 8 && n0 == 3 {
				n0 = 2
				l = tiny(2, 16, shapes[2], 0, 0)
				l.use()
			}
			c.Describe(func() string { return fmt.Sprintf("n0=%d mode %d base 2^%d t=%d", n0, d[1], s.basebit, s.t) })
			ws := ksWords(Shape{basebit: s.basebit, t: s.t})
			if s.basebit*s.t >= 31 {
				ws = []T{0, 1, 2, 3, ^T(0), ^T(0) - 1, 1 << 31, 1<<31 - 1, 0xDEADBEEF, 0x55555555, 0xAAAAAAAA}
			}
			for ka := 0; ka < 1<<uint(n0); ka++ {
				for kb := 0; kb < 1<<uint(n0); kb++ {
					if s.basebit >= 10 && (ka+kb)%3 != 0 && !full {
						continue
					}
					a, b := bitsKey(n0, uint64(ka)), bitsKey(n0, uint64(kb))
					pk := pre.NewPublicKeyLv0WithParams(b, 3, 0)
					ph := pkHash(pk)
					rk := mkReenc(d[1], a, b, pk, 0, s)
					if pkHash(pk) != ph {
						return fmt.Errorf("key generation modified the public key")
					}
					if rk.Base != 1<<uint(s.basebit) || rk.T != s.t {
						return fmt.Errorf("key reports base %d t %d", rk.Base, rk.T)
					}
					h := rkHash(rk)
					for pos := 0; pos < n0; pos++ {
						for wi, w := range ws {
							ct := tlwe.NewTLWELv0()
							for j := range ct.P {
								ct.P[j] = ws[(wi*3+j*5+pos)%len(ws)]
							}
							ct.P[pos] = w
							snap := clone(ct.P)
							r := pre.ReencryptTLWELv0(ct, rk)
							c.Op(1)
							if e := uint64(dist(phase0(r.P, b), phase0(ct.P, a))); e > reencTol(a, s) {
								return fmt.Errorf("%v -> %v, ciphertext %08x: phase off by %d (allowed %d)", a, b, ct.P, e, reencTol(a, s))
							}
							if !eq(snap, ct.P) {
								return fmt.Errorf("re-encryption modified the ciphertext")
							}
							r.P[0]++
							if !eq(snap, ct.P) {
								return fmt.Errorf("result shares storage with the input")
							}
						}
					}
					c.Bulk(int64(n0 * len(ws)))
					if rkHash(rk) != h {
						return fmt.Errorf("re-encryption modified the key")
					}
				}
			}
			c.Outcome(d)
			return nil
		})
	}
	// 3. whole digit field
	{
		sh := reencShapes()
		lim := 16
		if full {
			lim = 21
		}
		var sel []bshape
		for _, s := range sh {
			if s.basebit*s.t <= lim {
				sel = append(sel, s)
			}
		}
		const parts = 8
		rad := []int{len(sel), 2, parts}
		c.Suite("digit-field", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			s := sel[d[0]]
			l := tiny(2, 16, shapes[2], 0, 0)
			l.use()
			a, b := []T{1, 1}, []T{0, 1}
			rk := mkReenc(d[1], a, b, pre.NewPublicKeyLv0WithParams(b, 2, 0), 0, s)
			f := s.basebit * s.t
			low := uint(32 - f)
			ct := tlwe.NewTLWELv0()
			c.Describe(func() string { return fmt.Sprintf("base 2^%d t=%d mode %d", s.basebit, s.t, d[1]) })
			n := int64(0)
			for v := uint32(d[2]); v < 1<<uint(f); v += parts {
				for r, rem := range []T{0, T(1)<<(low-1) - 1, T(1) << (low - 1), T(1)<<low - 1} {
					ct.P[0] = T(v)<<low | rem
					ct.P[1] = T(v*0x9E3779B1)<<low | rem
					ct.P[2] = T(v) * 0x85EBCA6B
					o := pre.ReencryptTLWELv0(ct, rk)
					if e := uint64(dist(phase0(o.P, b), phase0(ct.P, a))); e > reencTol(a, s) {
						return fmt.Errorf("ciphertext %08x (remainder %d): phase off by %d (allowed %d)", ct.P, r, e, reencTol(a, s))
					}
					n++
				}
			}
			c.Op(int(n))
			c.Bulk(n)
			return nil
		})
	}
	// 4. chains, default parameters, A = B
	{
		rad := []int{len(shapes), 64}
		c.Suite("chains", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			l := tiny(2, 16, shapes[d[0]], 0, 0)
			l.use()
			s := bshape{shapes[d[0]].basebit, shapes[d[0]].t}
			ks := [][]T{bitsKey(2, uint64(d[1]&3)), bitsKey(2, uint64(d[1]>>2&3)), bitsKey(2, uint64(d[1]>>4&3))}
			c.Describe(func() string { return fmt.Sprintf("%s keys %v", l.name, ks) })
			ab := pre.NewProxyReencryptionKeySymmetric(ks[0], ks[1])
			bc := pre.NewProxyReencryptionKeyAsymmetric(ks[1], pre.NewPublicKeyLv0(ks[2]))
			ca := pre.NewProxyReencryptionKeySymmetric(ks[2], ks[0])
			tol := reencTol(ks[0], s) + reencTol(ks[1], s)
			for m := 0; m < 32; m++ {
				ph := T(m) << 27
				ct := mkCt(hashMask(2, uint64(m)), ks[0], ph)
				x := pre.ReencryptTLWELv0(ct, ab)
				xs := clone(x.P)
				y := pre.ReencryptTLWELv0(x, bc)
				z := pre.ReencryptTLWELv0(y, ca)
				c.Op(3)
				if e := uint64(dist(phase0(y.P, ks[2]), ph)); e > tol {
					return fmt.Errorf("A->B->C: phase off by %d (allowed %d)", e, tol)
				}
				if e := uint64(dist(phase0(z.P, ks[0]), ph)); e > tol+reencTol(ks[2], s) {
					return fmt.Errorf("A->B->C->A: phase off by %d", e)
				}
				if !eq(xs, x.P) {
					return fmt.Errorf("a later re-encryption changed an earlier result")
				}
				c.State(d, m)
			}
			return nil
		})
	}
	// 5. key noise: the error grows by at most the asked deviation per used entry
	{
		rad := []int{len(shapes), 2, 4}
		c.Suite("key-noise", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			l := tiny(3, 16, shapes[d[0]], 0, 0)
			l.use()
			s := bshape{shapes[d[0]].basebit, shapes[d[0]].t}
			a, b := bitsKey(3, uint64(d[2]*2+1)), bitsKey(3, uint64(6-d[2]))
			pk := pre.NewPublicKeyLv0WithParams(b, 4, 0)
			rnd.Quiet(false)
			const alpha = 1e-5
			e1 := math.Ceil(alpha * pow2(32))
			for _, v := range []float64{1, -1, 2.5} {
				rnd.SetHook(&rnd.Hook{Norm: func(float64) float64 { return v }})
				rk := mkReenc(d[1], a, b, pk, alpha, s)
				rnd.SetHook(nil)
				tol := float64(reencTol(a, s)) + 3*float64(s.t)*(e1*math.Abs(v)+1)
				for m := 0; m < 16; m++ {
					ct := mkCt(hashMask(3, uint64(m)+7), a, T(m)<<28)
					r := pre.ReencryptTLWELv0(ct, rk)
					c.Op(1)
					if e := float64(dist(phase0(r.P, b), T(m)<<28)); e > tol {
						return fmt.Errorf("noise sample %v: phase off by %.0f (allowed %.0f)", v, e, tol)
					}
					c.State(d, v, m)
				}
			}
			return nil
		})
	}
	// 6. every position on its own, at every shipped dimension: half a unit of the last digit, no more
	{
		dims := []int{1160, 1071, 1025, 1024, 1023, 820, 700, 687, 630, 550, 513, 512, 511, 257, 256, 255, 129, 128, 127, 65, 64, 63, 33, 32, 31, 17, 16, 15, 9, 8, 7, 5, 4, 3, 2, 1}
		sh := []bshape{{2, 2}, {1, 3}, {3, 1}}
		rad := []int{len(dims), 2, len(sh)}
		c.Suite("positions", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			n0, s := dims[d[0]], sh[d[2]]
			l := tiny(n0, 16, shapes[2], 0, 0)
			l.use()
			a, b := make([]T, n0), hashKey(n0, 8)
			for j := range a {
				a[j] = 1
			}
			c.Describe(func() string { return fmt.Sprintf("n0=%d mode %d base 2^%d t=%d", n0, d[1], s.basebit, s.t) })
			rk := mkReenc(d[1], a, b, pre.NewPublicKeyLv0WithParams(b, 2, 0), 0, s)
			u := uint(32 - s.basebit*s.t)
			top := T(1)<<uint(s.basebit*s.t) - 1
			ws := []T{0, 1 << (u - 2), 1<<(u-1) - 1, 1 << (u - 1), 3 << (u - 2), 1 << u, 5 << (u - 2), 7 << (u - 2), top << u, top<<u | 1<<(u-2), top<<u | 3<<(u-2)}
			ct := tlwe.NewTLWELv0()
			for p := 0; p < n0; p++ {
				for k, w := range ws {
					if n0 > 32 && k%3 != p%3 && k != 4 {
						continue
					}
					ct.P[p], ct.P[n0] = w, T(k)*0x10100001
					r := pre.ReencryptTLWELv0(ct, rk)
					c.Op(1)
					if e := uint64(dist(phase0(r.P, b), phase0(ct.P, a))); e > 1<<(u-1)+64 {
						return fmt.Errorf("word %08x at position %d: phase off by %d (half a last digit is %d)", uint32(w), p, e, 1<<(u-1))
					}
				}
				ct.P[p] = 0
			}
			c.Bulk(int64(n0 * len(ws)))
			c.State(d)
			// and all positions at once
			for k, w := range ws {
				for j := range ct.P {
					ct.P[j] = w
				}
				r := pre.ReencryptTLWELv0(ct, rk)
				c.Op(1)
				if e := uint64(dist(phase0(r.P, b), phase0(ct.P, a))); e > uint64(n0)*(1<<(u-1)+64) && uint64(n0)<<(u-1) < 1<<31 {
					return fmt.Errorf("word %d everywhere: phase off by %d", k, e)
				}
			}
			return nil
		})
	}
	// 7. dimensions
	{
		dims := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 33, 64, 65, 127, 128, 256, 550, 630, 687, 700, 820, 1071}
		rad := []int{len(dims), 2, 2}
		c.Suite("dimensions", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			n0 := dims[len(dims)-1-d[0]]
			s := []bshape{{2, 7}, {4, 3}}[d[2]]
			l := tiny(n0, 16, shapes[2], 0, 0)
			l.use()
			a, b := hashKey(n0, 7), hashKey(n0, 8)
			pk := pre.NewPublicKeyLv0WithParams(b, 4, 0)
			if n0 <= 64 {
				pk = pre.NewPublicKeyLv0(b)
				if len(pk.Encryptions) < 2*n0 {
					return fmt.Errorf("default public key has %d encryptions at dimension %d", len(pk.Encryptions), n0)
				}
			}
			c.Describe(func() string { return fmt.Sprintf("n0=%d mode %d base 2^%d t=%d", n0, d[1], s.basebit, s.t) })
			if n0 > 256 && d[1] == 1 && d[2] == 1 {
				return nil
			}
			rk := mkReenc(d[1], a, b, pk, 0, s)
			for v := 0; v < 8; v++ {
				ct := mkCt(hashMask(n0, uint64(v)), a, T(v)<<29)
				r := pre.ReencryptTLWELv0(ct, rk)
				if e := uint64(dist(phase0(r.P, b), T(v)<<29)); e > reencTol(a, s) {
					return fmt.Errorf("phase off by %d (allowed %d)", e, reencTol(a, s))
				}
				x := pk.EncryptF64(0.125*float64(v), 0)
				if e := dist(phase0(x.P, b), T(v)<<29); e > 2 {
					return fmt.Errorf("public-key encryption: phase off by %d", e)
				}
				c.Op(2)
				c.State(d, v)
			}
			return nil
		})
	}
}
