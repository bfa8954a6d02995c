package main

import (
	"fmt"

	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
)

func init() {
	register(&Check{ID: "C10", Run: runC10, Level: "model_checking",
		Rule: "A state is (shape, dimensions, key pair, level-1 ciphertext words) with the observed level-0 phase; a transition is one key switch; the output phase is compared with the input phase within half a last-digit unit per set key coefficient.",
		Bounds: map[string]string{
			"quick":    "9 shipped base/level shapes: every value of the digit field (base^t values) x 3 sub-digit remainders x 5 level-1 keys at N=16, n0=2, both forms; every position x boundary digits x every single-bit key at N=16; degrees 32..2048 and dimensions n0=1..20, 550..1071; the shipped levels 80, 110, 128, Uint1, Uint2 in full",
			"thorough": "as quick with every single-bit key and 7 remainders for the digit field",
		},
		Assumptions: []string{"key-switching keys are noiseless (noise is additive)", "level-1 ciphertexts with arbitrary words (not only fresh ones)"}})
}

type ksEnv struct {
	*gateEnv
	w int
}

func newKsEnv(l Level, k0, k1 []T) *ksEnv {
	e := &ksEnv{gateEnv: newGateEnv(l, k0, k1)}
	for _, b := range k1 {
		e.w += int(b)
	}
	return e
}

func (e *ksEnv) try(c *Ctx, src *tlwe.TLWELv1, out *tlwe.TLWELv0, both bool) error {
	want := phase0(src.P, e.sk.KeyLv1)
	tol := uint64(e.w)*(1<<uint(32-e.l.sh.basebit*e.l.sh.t-1)) + 2
	trgsw.IdentityKeySwitchingAssign(src, e.ck.KeySwitchingKey, out)
	c.Op(1)
	if d := dist(phase0(out.P, e.sk.KeyLv0), want); uint64(d) > tol {
		return fmt.Errorf("IdentityKeySwitchingAssign: phase off by %d (allowed %d), input %08x", d, tol, head(src.P))
	}
	if both {
		r := trgsw.IdentityKeySwitching(src, e.ck.KeySwitchingKey)
		c.Op(1)
		if !eq(r.P, out.P) {
			if d := dist(phase0(r.P, e.sk.KeyLv0), want); uint64(d) > tol {
				return fmt.Errorf("IdentityKeySwitching: phase off by %d (allowed %d), input %08x", d, tol, head(src.P))
			}
			return fmt.Errorf("the two forms give different words, input %08x", head(src.P))
		}
	}
	return nil
}

func head(p []T) []T {
	if len(p) > 20 {
		return p[:20]
	}
	return p
}

func runC10(c *Ctx) {
	full := c.thorough()
	n := 16
	// 1. whole digit field
	for si, sh := range shapes {
		sh := sh
		field := sh.basebit * sh.t
		low := 32 - field
		chunk := 1 << 10
		if field < 12 {
			chunk = 1 << 6
		}
		keys := [][]T{bitsKey(n, 1), bitsKey(n, 1<<7), bitsKey(n, 1<<15), bitsKey(n, 0xFFFF), hashKey(n, 5)}
		if full {
			keys = smallKeys(n, 4)
		}
		rems := []T{0, T(1)<<uint(low-1) - 1, T(1) << uint(low-1)}
		if full {
			rems = append(rems, 1, T(1)<<uint(low)-1, T(1)<<uint(low-1)+1, T(1)<<uint(low-2))
		}
		rad := []int{len(keys), (1 << uint(field)) / chunk}
		var e *ksEnv
		cur := -1
		c.Suite(fmt.Sprintf("digits-%d-base2^%d-t%d", si, sh.basebit, sh.t), prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			l := tiny(2, n, sh, 0, 0)
			l.use()
			if cur != d[0] {
				e = newKsEnv(l, []T{1, 1}, keys[d[0]])
				cur = d[0]
			}
			c.Describe(func() string { return fmt.Sprintf("%s key %v chunk %d", l.name, keys[d[0]], d[1]) })
			src := tlwe.NewTLWELv1()
			out := tlwe.NewTLWELv0()
			mask := uint32(1)<<uint(field) - 1
			for x := 0; x < chunk; x++ {
				v := uint32(d[1]*chunk + x)
				for r, rem := range rems {
					for j := 0; j < n; j++ {
						// every position runs through the whole field
						src.P[j] = T((v+uint32(j)*0x9E3779B1)&mask)<<uint(low) | rem
					}
					src.P[n] = T(v)*0x85EBCA6B + T(r)
					out.P[0], out.P[1], out.P[2] = ^T(v), T(v), 77
					if err := e.try(c, src, out, x%8 == 0); err != nil {
						return err
					}
				}
			}
			c.Bulk(int64(chunk * len(rems)))
			c.Outcome(d)
			return nil
		})
	}
	// 2. positions x boundary digits x single-bit keys, untouched arguments
	{
		keys := smallKeys(n, 4)
		rad := []int{len(shapes), len(keys)}
		c.Suite("positions", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			sh := shapes[d[0]]
			l := tiny(3, n, sh, 0, 0)
			e := newKsEnv(l, []T{1, 0, 1}, keys[d[1]])
			c.Describe(func() string { return fmt.Sprintf("%s key %v", l.name, keys[d[1]]) })
			out := tlwe.NewTLWELv0()
			for pos := 0; pos < n; pos++ {
				for _, w := range ksWords(sh) {
					for bg := 0; bg < 2; bg++ {
						src := tlwe.NewTLWELv1()
						if bg == 1 {
							copy(src.P, hashMask(n+1, uint64(pos)))
						}
						src.P[pos] = w
						snap := clone(src.P)
						for j := range out.P {
							out.P[j] = T(j) + 0xDEAD
						}
						if err := e.try(c, src, out, true); err != nil {
							return fmt.Errorf("position %d word %08x: %w", pos, uint32(w), err)
						}
						if !eq(snap, src.P) {
							return fmt.Errorf("the input was modified")
						}
						c.State(d, pos, w, bg)
					}
				}
			}
			if ckHash(e.ck) != e.h {
				return fmt.Errorf("the key was modified")
			}
			return nil
		})
	}
	// 3. dimensions
	{
		type dm struct{ n0, n int }
		var dims []dm
		for _, x := range []int{2048, 1024, 512, 256, 128, 64, 32} {
			dims = append(dims, dm{2, x})
		}
		for x := 1; x <= 20; x++ {
			dims = append(dims, dm{x, 16})
		}
		for _, x := range []int{33, 64, 65, 127, 256, 257, 511, 512, 513, 550, 630, 687, 700, 820, 1023, 1024, 1025, 1071, 1160} {
			dims = append(dims, dm{x, 16})
		}
		rad := []int{len(dims), len(shapes)}
		c.Suite("dimensions", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			dd := dims[d[0]]
			if (1<<uint(shapes[d[1]].basebit))*shapes[d[1]].t*dd.n*dd.n0 > 1<<23 && !full {
				dd.n0 = 1
			}
			l := tiny(dd.n0, dd.n, shapes[d[1]], 0, 0)
			e := newKsEnv(l, hashKey(dd.n0, 91), hashKey(dd.n, 92))
			c.Describe(func() string { return l.name })
			src, out := tlwe.NewTLWELv1(), tlwe.NewTLWELv0()
			ws := ksWords(shapes[d[1]])
			for v := 0; v < 24; v++ {
				for j := range src.P {
					if v < 16 {
						src.P[j] = ws[(j*(2*v+1)+v)%len(ws)]
					} else {
						src.P[j] = T(mix(uint64(v*5000 + j)))
					}
				}
				for j := range out.P {
					out.P[j] = T(v) * 0x01010101
				}
				if err := e.try(c, src, out, true); err != nil {
					return err
				}
				c.State(d, v)
			}
			return nil
		})
	}
	// 4. shipped levels
	{
		lv := []string{"128", "110", "80", "Uint1", "Uint2"}
		if full {
			lv = append(lv, "Uint3", "Uint4")
		}
		c.Suite("shipped-levels", int64(len(lv)), nil, func(i int64) error {
			l := shipped(lv[i])
			e := newKsEnv(l, hashKey(l.n0, 93), hashKey(l.n, 94))
			c.Describe(func() string { return l.name })
			out := tlwe.NewTLWELv0()
			for v := 0; v < 16; v++ {
				src := &tlwe.TLWELv1{P: hashMask(l.n+1, uint64(v)+40)}
				if err := e.try(c, src, out, true); err != nil {
					return err
				}
				c.State(i, v)
			}
			return nil
		})
	}
}

func ksWords(sh Shape) []T {
	r := []T{0, 1, ^T(0), 1 << 31, 1<<31 - 1, 0xDEADBEEF}
	for j := 1; j <= sh.t; j++ {
		u := T(1) << uint(32-j*sh.basebit)
		top := u * (T(1)<<uint(sh.basebit) - 1)
		r = append(r, u, u-1, top, top+u-1, ^u, u<<uint(sh.basebit-1))
	}
	h := T(1) << uint(32-sh.t*sh.basebit-1)
	r = append(r, h, h-1, ^h, ^h+1, ^T(0)-2*h)
	return r
}
