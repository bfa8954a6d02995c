package main

import (
	"fmt"
	"math"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"github.com/thedonutfactory/go-tfhe/zzverif/clock"
	"github.com/thedonutfactory/go-tfhe/zzverif/cpu"
	rnd "github.com/thedonutfactory/go-tfhe/zzverif/rand"
	"github.com/thedonutfactory/go-tfhe/zzverif/rt"
)

func init() {
	register(&Check{ID: "C15", Run: runC15, Level: "model_checking", Sched: true,
		Rule: "A state is one generated key (level, secret key, random words, noise samples, schedule) every entry of which is decrypted and compared with the secret; a transition is one key generation (or one scheduling decision inside it); a trace is one case.",
		Bounds: map[string]string{
			"quick":    "9 gadget/key-switching shapes x all level-0 keys to dimension 3 x level-1 keys of weight 0, 1, 2 (and complements) at N=16; noise of exactly one deviation, and distinct samples per component; all single-byte values of every random word a secret key is made from, complete coin tree at n0=1; every word of the tape at all 11 shipped levels (the coins must span every combination of key bits) and no 64-bit window of 40 keys twice; every schedule with 1 deviation at statement granularity and 2 deviations at function granularity of key generation at n0=1..2, N=16; two keys generated at once; race detector; 24 sizes on 1..64 processors; ring degrees 32..2048 and 25 ciphertext dimensions 31..1160; shipped levels 80, 110, 128, Uint1..Uint3",
			"thorough": "all 65536 level-1 keys at N=16 for three shapes, all shipped levels, 2 deviations at statement granularity for the bootstrapping part, larger rings",
		},
		Assumptions: []string{"the level's own parameter values are taken as given here (they are checked by C16)", "noise deviations are judged by scripting the normal samples"}})
	coldFns["c15race"] = coldRace15
	coldFns["c15key"] = func() {
		tiny(64, 64, shapes[3], 0, 0).use()
		k := key.NewSecretKey()
		fmt.Println("KEY", k.KeyLv0, k.KeyLv1)
	}
}

func fftKeyTol(n int) float64 { return 2*fftMulTol(n) + 4 }

// entrySink receives the error of every noisy entry: level (0 or 1) and error.
type entrySink func(level int, e T) error

// checkCloud decrypts every entry of ck and compares it with what sk demands. want0/want1 are the noise
// every entry of that level must carry when sink is nil.
func checkCloud(ck *cloudkey.CloudKey, sk *key.SecretKey, l Level, want0, want1 float64, sink entrySink) error {
	sh := l.sh
	base := 1 << sh.basebit
	// offset
	off := T(0)
	for i := 0; i < sh.l; i++ {
		off += T(1) << uint(sh.bgbit-1) << uint(32-(i+1)*sh.bgbit)
	}
	if ck.DecompositionOffset != off {
		return fmt.Errorf("decomposition offset %08x, want %08x", uint32(ck.DecompositionOffset), uint32(off))
	}
	// test polynomial
	tv := ck.BlindRotateTestvec
	if tv == nil || len(tv.A) != l.n || len(tv.B) != l.n {
		return fmt.Errorf("test polynomial of the wrong degree")
	}
	for i := range tv.B {
		if tv.A[i] != 0 || dist(tv.B[i], 1<<29) > 1 {
			return fmt.Errorf("test polynomial coefficient %d is (%08x, %08x), want (0, 1/8)", i, uint32(tv.A[i]), uint32(tv.B[i]))
		}
	}
	if sink == nil {
		sink = func(lv int, e T) error {
			w, tol := want0, 2.0
			if lv == 1 {
				w, tol = want1, fftKeyTol(l.n)
			}
			if d := math.Abs(math.Abs(float64(int32(e))) - w*pow2(32)); d > tol {
				return fmt.Errorf("carries an error of %d units, its level's deviation is %g (%.1f units)", int32(e), w, w*pow2(32))
			}
			return nil
		}
	}
	// key switching entries, at their index and, failing that, as key switching finds them
	ksErr := func(get func(i, j, k int) (*tlwe.TLWELv0, error)) error {
		for i := 0; i < l.n; i++ {
			for j := 0; j < sh.t; j++ {
				for k := 1; k < base; k++ {
					ct, err := get(i, j, k)
					if err != nil {
						return err
					}
					if ct == nil || len(ct.P) != l.n0+1 {
						return fmt.Errorf("key-switching entry (coefficient %d, level %d, digit %d) is malformed", i, j, k)
					}
					want := T(k) * sk.KeyLv1[i] << uint(32-(j+1)*sh.basebit)
					e := phase0(ct.P, sk.KeyLv0) - want
					if err := sink(0, e); err != nil {
						return fmt.Errorf("key-switching entry (coefficient %d of value %d, level %d, digit %d) %w", i, sk.KeyLv1[i], j, k, err)
					}
				}
			}
		}
		return nil
	}
	direct := func(i, j, k int) (*tlwe.TLWELv0, error) {
		x := base*sh.t*i + base*j + k
		if x >= len(ck.KeySwitchingKey) {
			return nil, fmt.Errorf("key-switching key has %d entries", len(ck.KeySwitchingKey))
		}
		return ck.KeySwitchingKey[x], nil
	}
	probe := func(i, j, k int) (*tlwe.TLWELv0, error) {
		src := tlwe.NewTLWELv1()
		src.P[i] = T(k) << uint(32-(j+1)*sh.basebit)
		out := trgsw.IdentityKeySwitching(src, ck.KeySwitchingKey)
		for x := range out.P {
			out.P[x] = -out.P[x]
		}
		return out, nil
	}
	if err := ksErr(direct); err != nil {
		if ksErr(probe) != nil {
			return err
		}
	}
	for i, ct := range ck.KeySwitchingKey {
		if i%base == 0 && ct != nil && len(ct.P) == l.n0+1 {
			if p := phase0(ct.P, sk.KeyLv0); dist(p, 0) > 1<<28 {
				return fmt.Errorf("key-switching entry for digit 0 (index %d) has phase %08x", i, uint32(p))
			}
		}
	}
	// bootstrapping entries
	if len(ck.BootstrappingKey) != l.n0 {
		return fmt.Errorf("bootstrapping key has %d entries, want %d", len(ck.BootstrappingKey), l.n0)
	}
	pe := poly.NewEvaluator(l.n)
	for i, b := range ck.BootstrappingKey {
		if b == nil || len(b.TRLWEFFT) != 2*sh.l {
			return fmt.Errorf("bootstrapping entry %d is malformed", i)
		}
		rows := func(get func(part, lv int) *trlwe.TRLWELv1) error {
			for part := 0; part < 2; part++ {
				for lv := 0; lv < sh.l; lv++ {
					ph := ringPhase(get(part, lv), sk.KeyLv1)
					g := sk.KeyLv0[i] << uint(32-(lv+1)*sh.bgbit)
					for x := range ph {
						w := T(0)
						if part == 0 {
							w = -g * sk.KeyLv1[x]
						} else if x == 0 {
							w = g
						}
						if err := sink(1, ph[x]-w); err != nil {
							return fmt.Errorf("bootstrapping entry %d (secret bit %d), part %d, level %d, coefficient %d %w", i, sk.KeyLv0[i], part, lv, x, err)
						}
					}
				}
			}
			return nil
		}
		err := rows(func(part, lv int) *trlwe.TRLWELv1 {
			r := b.TRLWEFFT[part*sh.l+lv]
			return &trlwe.TRLWELv1{A: pe.ToPoly(r.A).Coeffs, B: pe.ToPoly(r.B).Coeffs}
		})
		if err != nil {
			// rows as the external product finds them
			if rows(func(part, lv int) *trlwe.TRLWELv1 {
				in := trlwe.NewTRLWELv1()
				p := in.A
				if part == 1 {
					p = in.B
				}
				p[0] = 1 << uint(32-(lv+1)*sh.bgbit)
				o := trgsw.ExternalProductWithFFT(b, in, ck.DecompositionOffset, pe)
				return &trlwe.TRLWELv1{A: clone(o.A), B: clone(o.B)}
			}) != nil {
				return err
			}
		}
	}
	return nil
}

// norms scripts the normal samples.
func norms(f func(n int64) float64) func() {
	var n atomic.Int64
	rnd.Quiet(false)
	rnd.SetHook(&rnd.Hook{Norm: func(float64) float64 { return f(n.Add(1) - 1) }})
	return func() { rnd.SetHook(nil); rnd.Quiet(true) }
}

func one(int64) float64 { return 1 }

// distinctSamples collects errors and finds the sample behind each: none may serve twice.
type distinctSamples struct {
	a    [2]float64
	seen map[int64]bool
}

const sampleStep = 1.0 / (1 << 13)

func sampleNo(n int64) float64 { return 0.5 + float64(n)*sampleStep }

func (d *distinctSamples) sink(l Level) entrySink {
	d.seen = map[int64]bool{}
	return func(lv int, e T) error {
		v := math.Abs(float64(int32(e))) / (d.a[lv] * pow2(32))
		n := (v - 0.5) / sampleStep
		tol := 2.0
		if lv == 1 {
			tol = fftKeyTol(l.n)
		}
		k := math.Round(n)
		if k < 0 || math.Abs(n-k) > tol/(d.a[lv]*pow2(32)*sampleStep)+1e-6 {
			return fmt.Errorf("carries an error of %d units, which is no sample times its level's deviation %g", int32(e), d.a[lv])
		}
		if d.seen[int64(k)] {
			return fmt.Errorf("reuses normal sample %d", int64(k))
		}
		d.seen[int64(k)] = true
		return nil
	}
}

func keyMasks(ck *cloudkey.CloudKey, l Level) [][]T {
	var m [][]T
	base := 1 << l.sh.basebit
	for i, ct := range ck.KeySwitchingKey {
		if ct != nil && i%base != 0 && len(ct.P) > 3 {
			m = append(m, ct.P[:len(ct.P)-1])
		}
	}
	pe := poly.NewEvaluator(l.n)
	for _, b := range ck.BootstrappingKey {
		for _, r := range b.TRLWEFFT {
			m = append(m, pe.ToPoly(r.A).Coeffs[1:])
		}
	}
	return m
}

func lv1Keys(n int) [][]T {
	var r [][]T
	r = append(r, make([]T, n), bitsKey(n, ^uint64(0)), hashKey(n, 5), hashKey(n, 6))
	for i := 0; i < n; i++ {
		a, b := make([]T, n), bitsKey(n, ^uint64(0))
		a[i], b[i] = 1, 0
		r = append(r, a, b)
	}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			a := make([]T, n)
			a[i], a[j] = 1, 1
			r = append(r, a)
		}
	}
	return r
}

func runC15(c *Ctx) {
	full := c.thorough()
	a0, a1 := math.Exp2(-7), math.Exp2(-9)

	gen := func(l Level, sk *key.SecretKey) (*cloudkey.CloudKey, error) {
		h := fnvT(fnvT(0, sk.KeyLv0), sk.KeyLv1)
		ck := cloudkey.NewCloudKey(sk)
		c.Op(1)
		if fnvT(fnvT(0, sk.KeyLv0), sk.KeyLv1) != h {
			return nil, fmt.Errorf("key generation modified the secret key")
		}
		return ck, nil
	}

	// 1. every entry for every small secret key
	{
		k1 := lv1Keys(16)
		type k0s struct{ n0, pat int }
		var k0 []k0s
		for n0 := 1; n0 <= 3; n0++ {
			for p := 0; p < 1<<n0; p++ {
				k0 = append(k0, k0s{n0, p})
			}
		}
		rad := []int{len(shapes), len(k0), len(k1)}
		c.Suite("entries", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			if d[2] >= 4 && (d[1]+d[2])%4 != 0 && !full {
				return nil // every pattern of each side, a quarter of the combinations
			}
			if shapes[d[0]].basebit >= 6 && (d[1]+d[2])%16 != 0 {
				return nil
			}
			q := k0[d[1]]
			l := tiny(q.n0, 16, shapes[d[0]], a0, a1)
			l.use()
			rnd.Reset(uint64(i) + 1)
			sk := mkKey(l, bitsKey(q.n0, uint64(q.pat)), clone(k1[d[2]]))
			c.Describe(func() string { return fmt.Sprintf("%s, secret keys %v / %v", l.name, sk.KeyLv0, sk.KeyLv1) })
			defer norms(one)()
			ck, err := gen(l, sk)
			if err != nil {
				return err
			}
			c.State(d)
			c.Outcome(ckHash(ck))
			return checkCloud(ck, sk, l, a0, a1, nil)
		})
	}
	if full {
		rad := []int{3, 1 << 16}
		c.Suite("all-level-1-keys", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			l := tiny(2, 16, shapes[[]int{2, 3, 4}[d[0]]], a0, a1)
			l.use()
			rnd.Reset(uint64(i) + 1)
			sk := mkKey(l, bitsKey(2, uint64(d[1])%4), bitsKey(16, uint64(d[1])))
			c.Describe(func() string { return fmt.Sprintf("%s, secret keys %v / %v", l.name, sk.KeyLv0, sk.KeyLv1) })
			defer norms(one)()
			ck, err := gen(l, sk)
			if err != nil {
				return err
			}
			c.State(d)
			return checkCloud(ck, sk, l, a0, a1, nil)
		})
	}
	// 2. a sample of its own for every component; masks never repeat; deviations of every size
	{
		alphas := [][2]float64{{math.Exp2(-3), math.Exp2(-5)}, {math.Exp2(-5), math.Exp2(-3)}, {math.Exp2(-4), math.Exp2(-4)}}
		dims := [][2]int{{1, 16}, {3, 16}, {5, 32}}
		rad := []int{len(alphas), len(dims), 5}
		c.Suite("noise", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			al := alphas[d[0]]
			l := tiny(dims[d[1]][0], dims[d[1]][1], shapes[d[2]], al[0], al[1])
			l.use()
			rnd.Reset(uint64(i) + 1)
			sk := mkKey(l, hashKey(l.n0, uint64(i)), hashKey(l.n, uint64(i)+7))
			c.Describe(func() string { return fmt.Sprintf("distinct noise samples at %s", l.name) })
			// samples wrap round after 2^12 so that errors stay below half the torus
			used := int64(l.n*l.sh.t*((1<<l.sh.basebit)-1) + l.n0*2*l.sh.l*l.n)
			if used > 1<<14 {
				return nil
			}
			defer norms(sampleNo)()
			ck, err := gen(l, sk)
			if err != nil {
				return err
			}
			c.State(d)
			ds := &distinctSamples{a: al}
			if err := checkCloud(ck, sk, l, 0, 0, ds.sink(l)); err != nil {
				return err
			}
			if l.n0 >= 3 {
				var fr freshness
				return fr.add(keyMasks(ck, l))
			}
			return nil
		})
	}
	// 3. secret keys
	c.Suite("secret-coins", prod(5, 2), nil, func(i int64) error {
		d := idx(i, 5, 2)
		n0 := []int{1, 2, 5, 16, 40}[d[0]]
		n := []int{16, 32}[d[1]]
		tiny(n0, n, shapes[3], 0, 0).use()
		c.Describe(func() string { return fmt.Sprintf("secret key of dimensions %d, %d", n0, n) })
		return coins(c, n0, n)
	})
	c.Suite("secret-seed-space", prod(3, 2), nil, func(i int64) error {
		d := idx(i, 3, 2)
		tiny([]int{40, 60, 3}[d[0]], 32, shapes[3], 0, 0).use()
		return seedSpace(c, "NewSecretKey", uint64(d[1]+1), func() [][]T {
			k := key.NewSecretKey()
			return [][]T{append(clone(k.KeyLv0), k.KeyLv1...)}
		})
	})
	c.Suite("secret-coin-tree", 1, nil, func(int64) error {
		// complete tree: with one word per coin, every key must come up equally often
		tiny(1, 16, shapes[3], 0, 0).use()
		count := map[uint64]int{}
		draws := 0
		probe := &tape{seed: 1, flip: -1}
		probe.with(func() encOut { key.NewSecretKey(); return encOut{} })
		if probe.n > 19 {
			c.Note(fmt.Sprintf("secret keys draw %d words for 17 coins: the complete tree is not enumerated", probe.n))
			return nil
		}
		runs, err := coinTree(20, func() error {
			k := key.NewSecretKey()
			v := uint64(0)
			for j, b := range append(clone(k.KeyLv0), k.KeyLv1...) {
				v |= uint64(b&1) << uint(j)
			}
			count[v]++
			draws++
			return nil
		})
		if err != nil {
			return err
		}
		c.Op(runs)
		c.Bulk(int64(runs))
		c.Extra("coin_leaves", int64(runs))
		if probe.n < 17 {
			return nil // several coins per word: judged by secret-coins
		}
		for v := uint64(0); v < 1<<17; v++ {
			if count[v]*(1<<17) != runs {
				return fmt.Errorf("over all outcomes of the coins, key pattern %017b comes up %d times out of %d", v, count[v], runs)
			}
		}
		return nil
	})
	c.Suite("secret-fresh", 11, nil, func(i int64) error {
		l := shipped(shippedIDs[i].name)
		l.use()
		clock.Stopped.Store(true)
		defer clock.Stopped.Store(false)
		seen := map[uint64][2]int{}
		c.Describe(func() string { return "secret keys at " + l.name })
		for r := 0; r < 40; r++ {
			k := key.NewSecretKey()
			c.Op(1)
			c.State(i, r)
			if len(k.KeyLv0) != l.n0 || len(k.KeyLv1) != params.GetTLWELv1().N {
				return fmt.Errorf("dimensions %d, %d, want %d, %d", len(k.KeyLv0), len(k.KeyLv1), l.n0, params.GetTLWELv1().N)
			}
			for _, p := range [][]T{k.KeyLv0, k.KeyLv1} {
				w := 0
				for x := range p {
					if p[x] > 1 {
						return fmt.Errorf("secret key word %d", p[x])
					}
					w += int(p[x])
				}
				if math.Abs(float64(w)-float64(len(p))/2) > 4*math.Sqrt(float64(len(p))) {
					return fmt.Errorf("%d of %d bits are set", w, len(p))
				}
				// windows of 64 bits seen before, at any distance
				v := uint64(0)
				for x := range p {
					v = v<<1 | uint64(p[x])
					if x < 63 {
						continue
					}
					if at, ok := seen[v]; ok {
						return fmt.Errorf("key %d: bits %d..%d of a secret key repeat bits that end at %d of key %d", r, x-63, x, at[1], at[0])
					}
					seen[v] = [2]int{r, x}
				}
			}
		}
		return nil
	})
	// every coin of a full-sized secret key is a coin of its own
	c.Suite("secret-coins-shipped", 11, nil, func(i int64) error {
		l := shipped(shippedIDs[i].name)
		l.use()
		c.Describe(func() string { return "coins of a secret key at " + l.name })
		return coinRank(c)
	})
	c.Suite("process-starts", 2, nil, func(i int64) error {
		a, err := coldOut("C15", "c15key", fmt.Sprint(2*i+1))
		if err != nil {
			c.Incomplete("cold process did not run: " + err.Error())
			return nil
		}
		b, err := coldOut("C15", "c15key", fmt.Sprint(2*i+2))
		if err != nil {
			c.Incomplete("cold process did not run: " + err.Error())
			return nil
		}
		c.Op(2)
		c.State(i)
		if strings.HasPrefix(a, "KEY") && a == b {
			return fmt.Errorf("two process starts generate the same secret key")
		}
		return nil
	})

	// 4. schedules
	if why := whyNotSched(); why != "" {
		c.Incomplete("schedules were not explored: " + why)
	} else {
		type sc struct {
			n0, n, shape int
			fine         int
			coarse       int
			bound        int
			of           int
			two          bool
			wide         bool // all goroutines at once instead of few deviations
		}
		cs := []sc{
			{1, 16, 9, 1, 1, 1, 16, false, false},
			{2, 16, 9, 1, 1, 1, 16, false, false},
			{3, 16, 10, 1, 1, 1, 16, false, false},
			{1, 16, 9, 0, 1, 2, 32, false, false},
			{2, 16, 10, 0, 2, 1, 16, false, false},
			{1, 16, 10, 0, 1, 1, 16, true, false},
			{17, 16, 10, 1, 1, 0, 16, false, true},
			{5, 16, 9, 1, 2, 0, 16, false, true},
			{3, 16, 9, 1, 1, 0, 16, true, true},
		}
		if full {
			cs = append(cs, sc{2, 16, 9, 2, 2, 1, 32, false, false}, sc{1, 16, 9, 1, 1, 2, 512, false, false}, sc{3, 16, 10, 0, 1, 2, 64, false, false}, sc{2, 32, 9, 1, 1, 1, 64, false, false},
				sc{33, 32, 9, 2, 2, 0, 32, false, true}, sc{9, 16, 10, 2, 2, 0, 16, true, true})
		}
		sh := append(append([]Shape{}, shapes...), Shape{10, 1, 1, 1}, Shape{8, 2, 1, 2})
		var ix [][2]int
		for i := range cs {
			for s := 0; s < cs[i].of; s++ {
				ix = append(ix, [2]int{i, s})
			}
		}
		al := [2]float64{math.Exp2(-3), math.Exp2(-5)}
		c.Suite("schedules", int64(len(ix)), nil, func(i int64) error {
			s := cs[ix[i][0]]
			l := tiny(s.n0, s.n, sh[s.shape], al[0], al[1])
			l.use()
			c.Describe(func() string {
				return fmt.Sprintf("schedules %d/%d of key generation at %s (two at once: %v)", ix[i][1], s.of, l.name, s.two)
			})
			nk := 1
			if s.two {
				nk = 2
			}
			mk := func() Exec {
				rnd.Reset(7)
				sk := mkKey(l, bitsKey(l.n0, 5), hashKey(l.n, 7))
				h := fnvT(fnvT(0, sk.KeyLv0), sk.KeyLv1)
				ck := make([]*cloudkey.CloudKey, nk)
				hs := make([]uint64, nk)
				done := norms(sampleNo)
				return Exec{
					body: func() {
						if nk == 1 {
							ck[0] = cloudkey.NewCloudKey(sk)
							return
						}
						var fs []func()
						for t := range ck {
							t := t
							fs = append(fs, func() { ck[t] = cloudkey.NewCloudKey(sk) })
						}
						threads(fs...)
					},
					snap: func() {
						for t := range ck {
							hs[t] = safeHash(ck[t])
						}
					},
					check: func(x *rt.Sched) error {
						done()
						if fnvT(fnvT(0, sk.KeyLv0), sk.KeyLv1) != h {
							return fmt.Errorf("key generation modified the secret key")
						}
						ds := &distinctSamples{a: al}
						sink := ds.sink(l)
						for t := range ck {
							if safeHash(ck[t]) != hs[t] {
								return fmt.Errorf("the key was still being written after NewCloudKey returned")
							}
							if err := checkCloud(ck[t], sk, l, 0, 0, sink); err != nil {
								return err
							}
						}
						return nil
					},
				}
			}
			if s.wide {
				return allAtOnce(c, rt.Config{FineLimit: s.fine, CoarseLimit: s.coarse, MaxPoints: 4000000}, ix[i][1], s.of, mk)
			}
			return explore(c, Explore{cfg: rt.Config{FineLimit: s.fine, CoarseLimit: s.coarse, MaxPoints: 400000}, bound: s.bound, slice: int64(ix[i][1]), of: int64(s.of)}, mk)
		})
	}
	// 5. shipped levels
	{
		names := []string{"80", "110", "128", "Uint1", "Uint2", "Uint3"}
		if full {
			names = append(names, "Uint4", "Uint5", "Uint6", "Uint7", "Uint8")
		}
		c.Suite("shipped", int64(len(names)), nil, func(i int64) error {
			l := shipped(names[i])
			l.use()
			c.Describe(func() string { return "evaluation key at level " + names[i] })
			sk := key.NewSecretKey()
			defer norms(one)()
			ck, err := gen(l, sk)
			if err != nil {
				return err
			}
			c.State(i)
			return checkCloud(ck, sk, l, params.GetTLWELv0().ALPHA, params.GetTLWELv1().ALPHA, nil)
		})
		// dimensions of every shipped level and around powers of two, one of the two at a time
		var dims [][2]int
		for _, n := range []int{2048, 1024, 512, 256, 128, 64, 32} {
			dims = append(dims, [2]int{2, n})
		}
		for _, n0 := range []int{1160, 1071, 1025, 1024, 1023, 820, 700, 687, 630, 550, 513, 512, 511, 257, 256, 255, 129, 128, 127, 65, 64, 63, 33, 32, 31} {
			dims = append(dims, [2]int{n0, 16})
		}
		// however many processors the machine has
		cores := []int{1, 2, 3, 4, 5, 6, 7, 9, 12, 16, 17, 64}
		crad := []int{len(cores), 24}
		c.Suite("cores", prod(crad...), nil, func(i int64) error {
			d := idx(i, crad...)
			cpu.Cores.Store(int64(cores[d[0]]))
			defer cpu.Cores.Store(8)
			l := tiny(d[1]+1, 16<<uint(d[1]%3), shapes[3+d[1]%2], math.Exp2(-8), math.Exp2(-10))
			l.use()
			c.Describe(func() string { return fmt.Sprintf("evaluation key at %s on %d processors", l.name, cores[d[0]]) })
			rnd.Reset(uint64(i) + 1)
			sk := mkKey(l, hashKey(l.n0, 5), hashKey(l.n, 7))
			defer norms(one)()
			ck, err := gen(l, sk)
			if err != nil {
				return err
			}
			c.State(d)
			return checkCloud(ck, sk, l, math.Exp2(-8), math.Exp2(-10), nil)
		})
		rad := []int{len(dims), 2}
		c.Suite("dimensions", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			l := tiny(dims[d[0]][0], dims[d[0]][1], shapes[[]int{3, 0}[d[1]]], math.Exp2(-8), math.Exp2(-10))
			if d[1] == 1 && l.n > 1024 {
				return nil
			}
			l.use()
			c.Describe(func() string { return "evaluation key at " + l.name })
			rnd.Reset(uint64(i) + 1)
			sk := mkKey(l, hashKey(l.n0, 5), hashKey(l.n, 7))
			defer norms(one)()
			ck, err := gen(l, sk)
			if err != nil {
				return err
			}
			c.State(d)
			return checkCloud(ck, sk, l, math.Exp2(-8), math.Exp2(-10), nil)
		})
		// key without a key-switching part: same offset and test polynomial
		nk := [][2]int{{2, 16}, {1160, 16}, {1071, 32}, {700, 16}, {1, 1024}, {2, 2048}}
		c.Suite("no-ksk", prod(len(shapes), len(nk)), nil, func(i int64) error {
			d := idx(i, len(shapes), len(nk))
			l := tiny(nk[d[1]][0], nk[d[1]][1], shapes[d[0]], 0, 0)
			if d[1] > 0 && d[0]%4 != 0 {
				return nil
			}
			l.use()
			c.Describe(func() string { return "NewCloudKeyNoKSK at " + l.name })
			ck := cloudkey.NewCloudKeyNoKSK()
			c.Op(1)
			c.State(i)
			z := mkKey(l, make([]T, l.n0), make([]T, l.n))
			return checkCloud(ck, z, l, 0, 0, nil)
		})
	}
	c.Suite("race", 3, nil, func(i int64) error {
		c.State("race", i)
		return raceRun(c, "C15", "c15race", 200*time.Second, "-arg", fmt.Sprint(i))
	})
}

// coinRank changes every word of the random tape (all its bits at once, then bit by bit) until the changes the
// secret key shows span every combination of its bits.
func coinRank(c *Ctx) error {
	run := func(word int, mask uint64) ([]T, int) {
		m := 0
		rnd.SetHook(&rnd.Hook{
			Word: func(uint64) uint64 {
				x := mix(77<<32 + uint64(m))
				if m == word {
					x ^= mask
				}
				m++
				return x
			},
			Norm: func(float64) float64 { return 0 },
		})
		defer rnd.SetHook(nil)
		k := key.NewSecretKey()
		c.Op(1)
		c.Bulk(1)
		return append(clone(k.KeyLv0), k.KeyLv1...), m
	}
	bits := func(k []T) []uint64 {
		r := make([]uint64, (len(k)+63)/64)
		for i, b := range k {
			r[i/64] |= uint64(b&1) << uint(i%64)
		}
		return r
	}
	k0, n := run(-1, 0)
	b0 := bits(k0)
	g := &gf2{piv: map[int][]uint64{}}
	rank := 0
	for _, m := range append([]uint64{^uint64(0)}, singleBits()...) {
		for w := 0; w < n && rank < len(k0); w++ {
			k, used := run(w, m)
			if len(k) != len(k0) || used != n {
				continue
			}
			b := bits(k)
			for j := range b {
				b[j] ^= b0[j]
			}
			if g.add(b) {
				rank++
			}
		}
	}
	c.State(len(k0), n)
	if rank < len(k0) {
		if otherRandomness() {
			c.Incomplete("randomness comes from a source the check does not control")
			return nil
		}
		return fmt.Errorf("only %d independent coins in %d key bits", rank, len(k0))
	}
	return nil
}

func singleBits() []uint64 {
	var r []uint64
	for b := uint(0); b < 64; b++ {
		r = append(r, 1<<b)
	}
	return r
}

func safeHash(ck *cloudkey.CloudKey) (h uint64) {
	defer func() {
		if recover() != nil {
			h = 1
		}
	}()
	if ck == nil {
		return 2
	}
	return ckHash(ck)
}

// coins varies every byte of every random word a secret key is made from.
func coins(c *Ctx, n0, n int) error {
	flat := func() ([]T, error) {
		k := key.NewSecretKey()
		c.Op(1)
		if len(k.KeyLv0) != n0 || len(k.KeyLv1) != n {
			return nil, fmt.Errorf("dimensions %d, %d", len(k.KeyLv0), len(k.KeyLv1))
		}
		return append(clone(k.KeyLv0), k.KeyLv1...), nil
	}
	for s := uint64(1); s <= 2; s++ {
		base := &tape{seed: s, flip: -1}
		var k0 []T
		var err error
		base.with(func() encOut { k0, err = flat(); return encOut{} })
		if err != nil {
			return err
		}
		g := &gf2{piv: map[int][]uint64{}}
		rank := 0
		sg := &gf2{piv: map[int][]uint64{}}
		seedRank := 0
		for w := 0; w < base.n; w++ {
			for by := uint(0); by < 8; by++ {
				ones := make([]int, len(k0))
				same := 0
				for v := uint64(0); v < 256; v++ {
					m := 0
					var k []T
					var seeds []int64
					rnd.SetHook(&rnd.Hook{
						Seed: func(s int64) { seeds = append(seeds, s) },
						Word: func(uint64) uint64 {
							x := mix(s<<32 + uint64(m))
							if m == w {
								x = x&^(255<<(8*by)) | v<<(8*by)
							}
							m++
							return x
						},
						Norm: func(float64) float64 { return 0 },
					})
					k, err = flat()
					rnd.SetHook(nil)
					if err != nil {
						return err
					}
					c.Bulk(1)
					if m != base.n {
						continue
					}
					same++
					sd := make([]uint64, len(base.seeds))
					for j := range sd {
						if j < len(seeds) {
							sd[j] = uint64(seeds[j] ^ base.seeds[j])
						}
					}
					if sg.add(sd) {
						seedRank++
					}
					for j := range k {
						if k[j] > 1 {
							return fmt.Errorf("secret key word %d", k[j])
						}
						ones[j] += int(k[j])
					}
					if d := packDiff(k0, k); g.add(d) {
						rank++
					}
				}
				if same < 200 {
					continue
				}
				for j, o := range ones {
					if o != 0 && o != same && math.Abs(float64(o)-float64(same)/2) > 4 {
						return fmt.Errorf("key bit %d is 1 for %d of %d values of byte %d of random word %d: not a fair coin", j, o, same, by, w)
					}
				}
			}
		}
		if rank < n0+n {
			if otherRandomness() {
				c.Incomplete("randomness comes from a source the check does not control")
				return nil
			}
			return fmt.Errorf("only %d independent coins in %d key bits", rank, n0+n)
		}
		if n := len(base.seeds); n > 0 && seedRank > 0 && seedRank < 31*n {
			return fmt.Errorf("the %d random sources of a secret key are seeded from only 2^%d different values together", n, seedRank)
		}
	}
	return nil
}

func coldRace15() {
	i := 0
	fmt.Sscan(*coldArg, &i)
	l := tiny(5, 32, shapes[[]int{2, 3, 4}[i%3]], math.Exp2(-7), math.Exp2(-9))
	l.use()
	var wg sync.WaitGroup
	errs := make([]error, 2)
	done := norms(one)
	for t := range errs {
		t := t
		wg.Add(1)
		go func() {
			defer wg.Done()
			sk := key.NewSecretKey()
			errs[t] = checkCloud(cloudkey.NewCloudKey(sk), sk, l, math.Exp2(-7), math.Exp2(-9), nil)
		}()
	}
	wg.Wait()
	done()
	for _, e := range errs {
		wrong(e)
	}
}
