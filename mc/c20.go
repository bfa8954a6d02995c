package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"

	"github.com/thedonutfactory/go-tfhe/bitutils"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	pre "github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"github.com/thedonutfactory/go-tfhe/zzverif/clock"
	rnd "github.com/thedonutfactory/go-tfhe/zzverif/rand"
)

func init() {
	register(&Check{ID: "C20", Run: runC20, Level: "model_checking",
		Rule: "A state is (API or sequence of APIs, level, key, message, random tape, tape bit flipped, noise samples) with the masks and errors observed; a transition is one encryption or key generation; a trace is one case: all single-bit changes of the random tape and the masks they lead to, one call history, or one scripted noise vector.",
		Bounds: map[string]string{
			"quick":    "13 encrypting APIs plus public-key encryption; every single-bit change of every word of the random tape on 2 base tapes at two reduced levels (rank of the induced mask changes must be full), same for every pair of consecutive calls; seeds likewise; all keys/messages against the same tape; all call histories of length 3 with the clock stopped, 1100 repetitions of each call, 60 at levels 80, 128, Uint1 and 5 at the other eight; scripted normal samples for 6 deviations; public keys of 31..2320 entries (every entry on a coin of its own); two process starts",
			"thorough": "3 base tapes, 4 reduced levels, histories of length 4, 4000 repetitions, 60 at every shipped level",
		},
		Assumptions: []string{"the stream a seeded math/rand source produces is itself taken as random: what is explored is how the library uses it", "full rank of the tape-to-mask changes is judged at the base tapes"}})
	coldFns["c20"] = func() {
		e := newEncEnv(tiny(8, 16, shapes[3], 0, 0))
		var all [][]T
		for i := range encOps {
			all = append(all, encOps[i].run(e, 1, 1, 0).masks...)
		}
		json.NewEncoder(os.Stdout).Encode(all)
	}
}

type encOut struct {
	masks [][]T
	errs  []T
	alpha float64
	tol   float64
}

type encEnv struct {
	l    Level
	pe   *poly.Evaluator
	k0   [][]T
	k1   [][]T
	pk   *pre.PublicKeyLv0
	used bool // encrypt into used objects
}

func newEncEnv(l Level) *encEnv {
	l.use()
	e := &encEnv{l: l, pe: poly.NewEvaluator(l.n)}
	e.k0 = [][]T{make([]T, l.n0), hashKey(l.n0, 3), bitsKey(l.n0, ^uint64(0)), hashKey(l.n0, 9)}
	e.k1 = [][]T{make([]T, l.n), hashKey(l.n, 4), bitsKey(l.n, ^uint64(0)), hashKey(l.n, 10)}
	return e
}

type encOp struct {
	name  string
	diffs bool // the message may be added to the mask by design (gadget rows)
	run   func(e *encEnv, msg, k int, alpha float64) encOut
}

func (e *encEnv) ct0() *tlwe.TLWELv0 {
	c := tlwe.NewTLWELv0()
	if e.used {
		for i := range c.P {
			c.P[i] = T(i)*0x01234567 + 77
		}
	}
	return c
}

func (e *encEnv) out0(cts []*tlwe.TLWELv0, plain []T, k int, alpha float64) encOut {
	o := encOut{alpha: alpha, tol: 2}
	for i, ct := range cts {
		o.masks = append(o.masks, clone(ct.P[:e.l.n0]))
		o.errs = append(o.errs, phase0(ct.P, e.k0[k])-plain[i])
	}
	return o
}

func (e *encEnv) ring(ct *trlwe.TRLWELv1, plain []T, k int, alpha float64) encOut {
	o := encOut{alpha: alpha, tol: fftMulTol(e.l.n)}
	o.masks = [][]T{clone(ct.A)}
	ph := ringPhase(ct, e.k1[k])
	for i := range ph {
		o.errs = append(o.errs, ph[i]-plain[i])
	}
	return o
}

func repT(x T, n int) []T {
	r := make([]T, n)
	for i := range r {
		r[i] = x
	}
	return r
}

func rkRows(r *pre.ProxyReencryptionKey, from []T, n0 int) (cts []*tlwe.TLWELv0, plain []T) {
	bb := log2i(r.Base)
	for i := 0; i < n0; i++ {
		for j := 0; j < r.T; j++ {
			for d := 1; d < r.Base; d++ {
				cts = append(cts, r.KeyEncryptions[r.Base*r.T*i+r.Base*j+d])
				plain = append(plain, T(d)*from[i]<<uint(32-(j+1)*bb))
			}
		}
	}
	return
}

var encOps = []encOp{
	{name: "tlwe0.EncryptBool", run: func(e *encEnv, m, k int, a float64) encOut {
		return e.out0([]*tlwe.TLWELv0{e.ct0().EncryptBool(m&1 == 1, a, e.k0[k])}, []T{bphase(m&1 == 1)}, k, a)
	}},
	{name: "tlwe0.EncryptF64", run: func(e *encEnv, m, k int, a float64) encOut {
		return e.out0([]*tlwe.TLWELv0{e.ct0().EncryptF64(float64(m)*0.0625, a, e.k0[k])}, []T{T(m) << 28}, k, a)
	}},
	{name: "tlwe0.EncryptLWEMessage", run: func(e *encEnv, m, k int, a float64) encOut {
		ct := e.ct0().EncryptLWEMessage(m, 8, a, e.k0[k])
		return e.out0([]*tlwe.TLWELv0{ct}, []T{encPhase(m%8, 8)}, k, a)
	}},
	{name: "bitutils.EncryptBits", run: func(e *encEnv, m, k int, a float64) encOut {
		b := []bool{m&1 == 1, m&1 == 1, m&2 == 2}
		return e.out0(bitutils.EncryptBits(b, a, e.k0[k]), []T{bphase(b[0]), bphase(b[1]), bphase(b[2])}, k, a)
	}},
	{name: "NewPublicKeyLv0WithParams", run: func(e *encEnv, m, k int, a float64) encOut {
		return e.out0(pre.NewPublicKeyLv0WithParams(e.k0[k], 3, a).Encryptions, make([]T, 3), k, a)
	}},
	{name: "NewPublicKeyLv0", run: func(e *encEnv, m, k int, a float64) encOut {
		p := pre.NewPublicKeyLv0(e.k0[k])
		return e.out0(p.Encryptions, make([]T, len(p.Encryptions)), k, params.GetTLWELv0().ALPHA)
	}},
	{name: "NewProxyReencryptionKeySymmetricWithParams", run: func(e *encEnv, m, k int, a float64) encOut {
		r := pre.NewProxyReencryptionKeySymmetricWithParams(e.k0[m%len(e.k0)], e.k0[k], a, 2, 1)
		cts, pl := rkRows(r, e.k0[m%len(e.k0)], e.l.n0)
		return e.out0(cts, pl, k, a)
	}},
	{name: "NewProxyReencryptionKeySymmetric", run: func(e *encEnv, m, k int, a float64) encOut {
		r := pre.NewProxyReencryptionKeySymmetric(e.k0[m%len(e.k0)], e.k0[k])
		cts, pl := rkRows(r, e.k0[m%len(e.k0)], e.l.n0)
		return e.out0(cts, pl, k, params.KSKAlpha())
	}},
	{name: "tlwe1.EncryptBool", run: func(e *encEnv, m, k int, a float64) encOut {
		ct := tlwe.NewTLWELv1().EncryptBool(m&1 == 1, a, e.k1[k])
		return encOut{masks: [][]T{clone(ct.P[:e.l.n])}, errs: []T{phase0(ct.P, e.k1[k]) - bphase(m&1 == 1)}, alpha: a, tol: 2}
	}},
	{name: "tlwe1.EncryptF64", run: func(e *encEnv, m, k int, a float64) encOut {
		ct := tlwe.NewTLWELv1().EncryptF64(float64(m)*0.0625, a, e.k1[k])
		return encOut{masks: [][]T{clone(ct.P[:e.l.n])}, errs: []T{phase0(ct.P, e.k1[k]) - T(m)<<28}, alpha: a, tol: 2}
	}},
	{name: "trlwe.EncryptBool", run: func(e *encEnv, m, k int, a float64) encOut {
		b := make([]bool, e.l.n)
		pl := make([]T, e.l.n)
		for i := range b {
			b[i] = m&1 == 1 || (m&2 == 2 && i%3 == 0)
			pl[i] = bphase(b[i])
		}
		return e.ring(trlwe.NewTRLWELv1().EncryptBool(b, a, e.k1[k], e.pe), pl, k, a)
	}},
	{name: "trlwe.EncryptF64", run: func(e *encEnv, m, k int, a float64) encOut {
		p := make([]float64, e.l.n)
		for i := range p {
			p[i] = float64(m) * 0.0625
		}
		return e.ring(trlwe.NewTRLWELv1().EncryptF64(p, a, e.k1[k], e.pe), repT(T(m)<<28, e.l.n), k, a)
	}},
	{name: "trgsw.EncryptTorus", diffs: true, run: func(e *encEnv, m, k int, a float64) encOut {
		ct := trgsw.NewTRGSWLv1().EncryptTorus(T(m), a, e.k1[k], e.pe)
		o := encOut{alpha: a}
		for _, r := range ct.TRLWE {
			x := e.ring(r, make([]T, e.l.n), k, a)
			o.masks = append(o.masks, x.masks...)
			o.errs = append(o.errs, x.errs...)
			o.tol = x.tol
		}
		return o
	}},
}

// tape scripts every word of every source.
type tape struct {
	seed  uint64
	flip  int // word whose bits are changed (-1: none)
	bit   uint
	n     int
	seeds []int64
	norm  func() float64
}

func (t *tape) hook() *rnd.Hook {
	return &rnd.Hook{
		Word: func(uint64) uint64 {
			w := mix(t.seed<<32 + uint64(t.n))
			if t.n == t.flip {
				w ^= 1 << t.bit
			}
			t.n++
			return w
		},
		Seed: func(s int64) { t.seeds = append(t.seeds, s) },
		Norm: func(float64) float64 {
			if t.norm != nil {
				return t.norm()
			}
			return 0
		},
	}
}

func (t *tape) with(f func() encOut) encOut {
	rnd.SetHook(t.hook())
	defer rnd.SetHook(nil)
	return f()
}

// gf2 is an incremental basis over GF(2).
type gf2 struct {
	words int
	piv   map[int][]uint64
}

func (g *gf2) add(row []uint64) bool {
	for {
		p := -1
		for i, w := range row {
			if w != 0 {
				b := 0
				for w>>uint(b)&1 == 0 {
					b++
				}
				p = i*64 + b
				break
			}
		}
		if p < 0 {
			return false
		}
		b, ok := g.piv[p]
		if !ok {
			g.piv[p] = row
			return true
		}
		for i := range row {
			row[i] ^= b[i]
		}
	}
}

func flatT(m [][]T) []T {
	var r []T
	for _, x := range m {
		r = append(r, x...)
	}
	return r
}

func packDiff(a, b []T) []uint64 {
	r := make([]uint64, (len(a)+1)/2)
	for i := range a {
		if i < len(b) {
			r[i/2] |= uint64(a[i]^b[i]) << (32 * uint(i%2))
		}
	}
	return r
}

// influence explores all single-bit changes of the tape and returns the rank of the mask changes.
func influence(c *Ctx, seed uint64, f func() encOut) (rank, bits, words int, seedRank, seedCount int) {
	base := &tape{seed: seed, flip: -1}
	o := base.with(f)
	m0 := flatT(o.masks)
	g := &gf2{piv: map[int][]uint64{}}
	sg := &gf2{piv: map[int][]uint64{}}
	for w := 0; w < base.n; w++ {
		for b := uint(0); b < 64; b++ {
			t := &tape{seed: seed, flip: w, bit: b}
			x := t.with(f)
			c.Op(1)
			c.Bulk(1)
			if d := packDiff(m0, flatT(x.masks)); g.add(d) {
				rank++
			}
			if len(base.seeds) > 0 {
				d := make([]uint64, len(base.seeds))
				for i := range d {
					if i < len(t.seeds) {
						d[i] = uint64(t.seeds[i] ^ base.seeds[i])
					}
				}
				if sg.add(d) {
					seedRank++
				}
			}
		}
	}
	return rank, 32 * len(m0), base.n, seedRank, len(base.seeds)
}

func otherRandomness() bool {
	for _, u := range instr.Unsupported {
		if strings.Contains(u, "rand") {
			return true
		}
	}
	return false
}

// freshness watches for runs of two mask words seen before.
type freshness struct {
	seen map[uint64]int
	n    int
}

func (f *freshness) add(masks [][]T) error {
	if f.seen == nil {
		f.seen = map[uint64]int{}
	}
	for _, m := range masks {
		f.n++
		for i := 0; i+1 < len(m); i++ {
			k := uint64(m[i])<<32 | uint64(m[i+1])
			if o, ok := f.seen[k]; ok {
				return fmt.Errorf("ciphertext number %d repeats the mask words %08x %08x (at %d) of ciphertext number %d", f.n, uint32(m[i]), uint32(m[i+1]), i, o)
			}
			f.seen[k] = f.n
		}
	}
	return nil
}

func fullRank(c *Ctx, bases int, what string, f func() encOut) error {
	best, bits, words := -1, 0, 0
	sBest, sCount := -1, 0
	for s := 1; s <= bases; s++ {
		r, b, w, sr, sc := influence(c, uint64(s), f)
		if r > best {
			best, bits, words = r, b, w
		}
		if sr > sBest {
			sBest, sCount = sr, sc
		}
		if best == bits && sBest >= 31*sCount {
			break
		}
	}
	c.Outcome(best, bits, words, sBest, sCount)
	if words == 0 && otherRandomness() {
		c.Incomplete("randomness of " + what + " does not come from math/rand and cannot be scripted")
		return nil
	}
	if best < bits {
		return fmt.Errorf("%s: changing every single bit of the %d random words drawn moves the masks only in a space of dimension %d; %d mask bits should be free", what, words, best, bits)
	}
	if sCount > 0 && sBest > 0 && sBest < 31*sCount {
		return fmt.Errorf("%s: its %d random sources are seeded from only 2^%d different values together", what, sCount, sBest)
	}
	return nil
}

// seedSpace moves every word the process-wide source hands out so that any seed made of it moves by a multiple
// of 2^31-1, the number of streams math/rand's seeded sources have, and asks that every mask moves with it.
func seedSpace(c *Ctx, what string, seed uint64, f func() [][]T) error {
	run := func(j uint64) (m [][]T, n int) {
		rnd.SetHook(&rnd.Hook{
			Main: func(uint64) uint64 { n++; return mix(seed<<32+uint64(n)) + j*2*(1<<31-1) },
			Norm: func(float64) float64 { return 0 },
		})
		defer rnd.SetHook(nil)
		m = f()
		c.Op(1)
		c.Bulk(1)
		return
	}
	base, n := run(0)
	if n == 0 {
		if otherRandomness() {
			c.Incomplete("randomness of " + what + " does not come from math/rand and cannot be scripted")
			return nil
		}
		return fmt.Errorf("%s draws nothing from the process-wide source", what)
	}
	moved := make([]bool, len(base))
	for j := uint64(1); j <= 8; j++ {
		m, _ := run(j)
		for k := range base {
			if k < len(m) && !eq(m[k], base[k]) {
				moved[k] = true
			}
		}
	}
	for k, ok := range moved {
		if !ok {
			return fmt.Errorf("%s: random words that differ by multiples of 2^31-1 give the same mask (ciphertext %d: %v): at most 2^31-1 different masks exist", what, k, head(base[k]))
		}
	}
	c.State(what, seed)
	return nil
}

func runC20(c *Ctx) {
	full := c.thorough()
	bases := 2
	levels := []func() Level{
		func() Level { return tiny(3, 16, shapes[0], math.Exp2(-12), math.Exp2(-14)) },
		func() Level { return tiny(8, 16, shapes[3], math.Exp2(-12), math.Exp2(-14)) },
	}
	if full {
		bases = 3
		levels = append(levels, func() Level { return tiny(5, 32, shapes[4], math.Exp2(-12), math.Exp2(-14)) },
			func() Level { return tiny(1, 64, shapes[7], math.Exp2(-12), math.Exp2(-14)) })
	}
	nop := len(encOps)

	// 1. every mask bit is free
	c.Suite("free-masks", prod(len(levels), nop, 2, 2), nil, func(i int64) error {
		d := idx(i, len(levels), nop, 2, 2)
		l := levels[d[0]]()
		op := encOps[d[1]]
		e := newEncEnv(l)
		e.used = d[3] == 1
		c.Describe(func() string { return fmt.Sprintf("%s at %s, message %d, key %d", op.name, l.name, d[2], d[3]) })
		return fullRank(c, bases, op.name, func() encOut { return op.run(e, d[2], d[3], 0) })
	})
	c.Suite("free-mask-pairs", prod(nop, nop), nil, func(i int64) error {
		d := idx(i, nop, nop)
		l := tiny(2, 16, shapes[4], math.Exp2(-12), math.Exp2(-14))
		e := newEncEnv(l)
		c.Describe(func() string { return encOps[d[0]].name + " then " + encOps[d[1]].name })
		return fullRank(c, bases, encOps[d[0]].name+" then "+encOps[d[1]].name, func() encOut {
			a := encOps[d[0]].run(e, 1, 1, 0)
			b := encOps[d[1]].run(e, 1, 1, 0)
			a.masks = append(a.masks, b.masks...)
			return a
		})
	})

	// masks are not limited to the 2^31-1 streams that seeded sources have
	c.Suite("seed-space", prod(len(levels), nop, 4), nil, func(i int64) error {
		d := idx(i, len(levels), nop, 4)
		e := newEncEnv(levels[d[0]]())
		op := encOps[d[1]]
		c.Describe(func() string { return fmt.Sprintf("%s, words %d moved by multiples of 2^31-1", op.name, d[2]) })
		return seedSpace(c, op.name, uint64(d[2]+1), func() [][]T { return op.run(e, 1, 1, 0).masks })
	})

	// 2. what is drawn does not depend on message or key
	{
		msgs := []int{0, 1, 2, 3, 5, 7}
		c.Suite("independent", prod(len(levels), nop, 4), nil, func(i int64) error {
			d := idx(i, len(levels), nop, 4)
			e := newEncEnv(levels[d[0]]())
			op := encOps[d[1]]
			var ref, ref2 [][]T
			shift := map[int][]T{}
			for s := 0; s < 2; s++ {
				for _, m := range msgs {
					for k := range e.k0 {
						if m != 0 && k != 0 && k != 1+d[2]%3 {
							continue
						}
						t := &tape{seed: uint64(100*s + d[2] + 1), flip: -1}
						o := t.with(func() encOut { return op.run(e, m, k, 0) })
						c.Op(1)
						c.State(d, s, m, k)
						if m == 0 && k == 0 {
							if s == 0 {
								ref = o.masks
							} else {
								ref2 = o.masks
							}
							continue
						}
						r := ref
						if s == 1 {
							r = ref2
						}
						f, g := flatT(o.masks), flatT(r)
						if len(f) != len(g) {
							return fmt.Errorf("%s: %d mask words for message %d, key %d; %d for message 0", op.name, len(f), m, k, len(g))
						}
						if !op.diffs {
							if !eq(f, g) {
								return fmt.Errorf("%s: with the same random words, message %d under key %d gets the mask %v, message 0 under the zero key %v", op.name, m, k, head(f), head(g))
							}
							continue
						}
						df := make([]T, len(f))
						for j := range f {
							df[j] = f[j] - g[j]
						}
						if s == 0 {
							shift[m*8+k] = df
						} else if !eq(shift[m*8+k], df) {
							return fmt.Errorf("%s: message %d, key %d enters the mask in a way that depends on the random words", op.name, m, k)
						}
					}
				}
			}
			return nil
		})
	}

	// 3. no mask is used twice, in any call order
	depth := 3
	if full {
		depth = 4
	}
	radix := make([]int, depth)
	for i := range radix {
		radix[i] = nop
	}
	c.Suite("histories", prod(radix...), nil, func(i int64) error {
		d := idx(i, radix...)
		l := tiny(8, 16, shapes[4], math.Exp2(-12), math.Exp2(-14))
		e := newEncEnv(l)
		clock.Stopped.Store(true)
		defer clock.Stopped.Store(false)
		c.Describe(func() string {
			s := ""
			for _, o := range d {
				s += encOps[o].name + "; "
			}
			return s
		})
		var fr freshness
		for _, o := range d {
			if err := fr.add(encOps[o].run(e, 1, 1, 0).masks); err != nil {
				return fmt.Errorf("%s: %w", encOps[o].name, err)
			}
			c.Op(1)
		}
		c.State(d)
		return nil
	})
	reps := 1100
	if full {
		reps = 4000
	}
	c.Suite("repeats", prod(nop, 2, 2), nil, func(i int64) error {
		d := idx(i, nop, 2, 2)
		l := tiny(6, 16, shapes[4], math.Exp2(-12), math.Exp2(-14))
		e := newEncEnv(l)
		clock.Stopped.Store(d[1] == 0)
		defer clock.Stopped.Store(false)
		op := encOps[d[0]]
		c.Describe(func() string {
			return fmt.Sprintf("%s repeated %d times, same message and key (%d), clock stopped %v", op.name, reps, d[2], d[1] == 0)
		})
		var fr freshness
		var or, and []T
		for r := 0; r < reps; r++ {
			o := op.run(e, d[2], d[2], 0)
			if err := fr.add(o.masks); err != nil {
				return fmt.Errorf("%s: %w", op.name, err)
			}
			f := flatT(o.masks)
			if r == 0 {
				or, and = clone(f), clone(f)
			}
			for j := range f {
				if j < len(or) {
					or[j] |= f[j]
					and[j] &= f[j]
				}
			}
			c.Op(1)
		}
		c.Bulk(int64(reps))
		for j := range or {
			if or[j] != ^T(0) || and[j] != 0 {
				return fmt.Errorf("%s: in %d encryptions mask word %d never had bits %08x", op.name, reps, j, uint32(^or[j]|and[j]))
			}
		}
		return nil
	})
	{
		names := []string{"80", "128", "Uint1", "110", "Uint2", "Uint3", "Uint4", "Uint5", "Uint6", "Uint7", "Uint8"}
		ops := []int{0, 1, 2, 3, 4, 8, 9, 10, 11, 12}
		c.Suite("shipped", prod(len(names), len(ops)), nil, func(i int64) error {
			d := idx(i, len(names), len(ops))
			e := newEncEnv(shipped(names[d[0]]))
			op := encOps[ops[d[1]]]
			clock.Stopped.Store(true)
			defer clock.Stopped.Store(false)
			c.Describe(func() string { return op.name + " at level " + names[d[0]] })
			var fr freshness
			reps := 60
			if d[0] > 2 && !full {
				reps = 5
			}
			for r := 0; r < reps; r++ {
				if r > 8 && (op.name == "trgsw.EncryptTorus") {
					break
				}
				if err := fr.add(op.run(e, 1, 1, 0).masks); err != nil {
					return fmt.Errorf("%s: %w", op.name, err)
				}
				c.Op(1)
			}
			c.State(d)
			// noise at this level: one normal sample per component
			return noiseCase(c, e, op, 0, 1, params.GetTLWELv0().ALPHA)
		})
	}

	// 4. noise
	alphas := []float64{0, math.Exp2(-30), math.Exp2(-20), math.Exp2(-12), 0.001, 0.0078125}
	c.Suite("noise", prod(len(levels), nop, len(alphas), 4), nil, func(i int64) error {
		d := idx(i, len(levels), nop, len(alphas), 4)
		e := newEncEnv(levels[d[0]]())
		op := encOps[d[1]]
		m := []int{0, 1, 3, 7}[d[3]]
		if op.diffs {
			m = 0
		}
		c.Describe(func() string {
			return fmt.Sprintf("%s at %s, deviation %g, message %d", op.name, e.l.name, alphas[d[2]], m)
		})
		return noiseCase(c, e, op, m, d[3]%len(e.k0), alphas[d[2]])
	})

	// 5. public-key encryption
	sizes := []int{1, 2, 3, 5, 16, 40}
	c.Suite("public-key", prod(len(sizes), 2, 3), nil, func(i int64) error {
		d := idx(i, len(sizes), 2, 3)
		k := sizes[d[0]]
		l := tiny(k, 16, shapes[0], math.Exp2(-12), math.Exp2(-14))
		l.use()
		pk := &pre.PublicKeyLv0{}
		for j := 0; j < k; j++ {
			ct := tlwe.NewTLWELv0()
			ct.P[j] = 1
			pk.Encryptions = append(pk.Encryptions, ct)
		}
		alpha := []float64{0, math.Exp2(-12), 0.001}[d[2]]
		c.Describe(func() string {
			return fmt.Sprintf("public key of %d entries, message %v, deviation %g", k, d[1] == 1, alpha)
		})
		run := func(m bool) encOut {
			ct := pk.EncryptBool(m, alpha)
			return encOut{masks: [][]T{clone(ct.P[:k])}, errs: []T{ct.P[k] - bphase(m)}}
		}
		incl := func(m []T) []uint64 {
			r := make([]uint64, 1)
			for j, x := range m {
				if x != 0 {
					r[0] |= 1 << uint(j)
				}
			}
			return r
		}
		best, words := 0, 0
		for s := uint64(1); s <= 3 && best < k; s++ {
			base := &tape{seed: s, flip: -1}
			o := base.with(func() encOut { return run(d[1] == 1) })
			b2 := &tape{seed: s, flip: -1}
			if o2 := b2.with(func() encOut { return run(d[1] == 0) }); !eq(o.masks[0], o2.masks[0]) {
				return fmt.Errorf("with the same random words the two messages get different masks")
			}
			words = base.n
			g := &gf2{piv: map[int][]uint64{}}
			r := 0
			for w := 0; w < base.n; w++ {
				for b := uint(0); b < 64; b++ {
					t := &tape{seed: s, flip: w, bit: b}
					x := t.with(func() encOut { return run(d[1] == 1) })
					c.Op(1)
					c.Bulk(1)
					df := incl(x.masks[0])
					df[0] ^= incl(o.masks[0])[0]
					if g.add(df) {
						r++
					}
				}
			}
			if r > best {
				best = r
			}
		}
		if words == 0 && otherRandomness() {
			c.Incomplete("public-key coins do not come from math/rand and cannot be scripted")
		} else if best < k {
			return fmt.Errorf("changing every bit of the %d random words varies the combination of the %d public-key entries only in %d dimensions", words, k, best)
		}
		// fresh combination each time, and one noise sample
		clock.Stopped.Store(true)
		defer clock.Stopped.Store(false)
		if k == 40 {
			seen := map[string]int{}
			for r := 0; r < 300; r++ {
				s := fmt.Sprint(run(d[1] == 1).masks[0])
				if o, ok := seen[s]; ok {
					return fmt.Errorf("public-key encryptions %d and %d use the same combination", o, r)
				}
				seen[s] = r
			}
		}
		rnd.Quiet(false)
		defer rnd.Quiet(true)
		vals := []float64{0.75, -1.25, 3, 0}
		for _, v := range vals {
			n := 0
			t := &tape{seed: 9, flip: -1, norm: func() float64 { n++; return v }}
			o := t.with(func() encOut { return run(d[1] == 1) })
			c.Op(1)
			c.State(d, v, o.errs)
			want := T(int64(math.Round(v * alpha * (1 << 32))))
			if n == 0 && otherRandomness() {
				c.Incomplete("noise does not come from math/rand and cannot be scripted")
				break
			}
			if dist(o.errs[0], want) > 3 {
				return fmt.Errorf("normal sample %g at deviation %g: error %d, want %d", v, alpha, int32(o.errs[0]), int32(want))
			}
		}
		return nil
	})

	// public keys as long as the shipped ones: every entry is included or not on a coin of its own
	long := []int{2320, 2142, 1640, 1400, 1260, 1100, 1025, 1024, 1023, 513, 512, 257, 256, 129, 128, 127, 65, 64, 63, 33, 32, 31}
	c.Suite("public-key-long", int64(len(long)), nil, func(i int64) error {
		k := long[i]
		tiny(k, 16, shapes[0], math.Exp2(-12), math.Exp2(-14)).use()
		pk := &pre.PublicKeyLv0{}
		for j := 0; j < k; j++ {
			ct := tlwe.NewTLWELv0()
			ct.P[j] = 1
			pk.Encryptions = append(pk.Encryptions, ct)
		}
		c.Describe(func() string { return fmt.Sprintf("public key of %d entries", k) })
		run := func(word int, mask uint64) ([]uint64, int) {
			m := 0
			rnd.SetHook(&rnd.Hook{
				Word: func(uint64) uint64 {
					x := mix(uint64(k)<<32 + uint64(m))
					if m == word {
						x ^= mask
					}
					m++
					return x
				},
				Norm: func(float64) float64 { return 0 },
			})
			defer rnd.SetHook(nil)
			ct := pk.EncryptBool(true, 0)
			c.Op(1)
			c.Bulk(1)
			r := make([]uint64, (k+63)/64)
			for j := 0; j < k; j++ {
				if ct.P[j] != 0 {
					r[j/64] |= 1 << uint(j%64)
				}
			}
			return r, m
		}
		r0, n := run(-1, 0)
		g := &gf2{piv: map[int][]uint64{}}
		rank := 0
		for _, m := range append([]uint64{^uint64(0)}, singleBits()...) {
			for w := n - 1; w >= 0 && rank < k; w-- {
				r, _ := run(w, m)
				for j := range r {
					r[j] ^= r0[j]
				}
				if g.add(r) {
					rank++
				}
			}
		}
		c.State(k, n)
		if rank < k && otherRandomness() {
			c.Incomplete("public-key coins do not come from math/rand and cannot be scripted")
		} else if rank < k {
			return fmt.Errorf("changing every bit of the %d random words varies the combination of the %d public-key entries only in %d dimensions", n, k, rank)
		}
		return nil
	})

	// asymmetric re-encryption keys: every entry with its own combination and noise
	c.Suite("asymmetric-key", prod(2, 3), nil, func(i int64) error {
		d := idx(i, 2, 3)
		l := tiny(3, 16, shapes[4], math.Exp2(-12), math.Exp2(-14))
		e := newEncEnv(l)
		big := tiny(24, 16, shapes[4], math.Exp2(-12), math.Exp2(-14))
		e = newEncEnv(big)
		pk := pre.NewPublicKeyLv0WithParams(e.k0[1], 48, 0)
		var r *pre.ProxyReencryptionKey
		var vals []float64
		rnd.Quiet(false)
		defer rnd.Quiet(true)
		t := &tape{seed: uint64(i) + 1, flip: -1, norm: func() float64 { v := sampleAt(len(vals)); vals = append(vals, v); return v }}
		alpha := []float64{math.Exp2(-13), 0.001, 0}[d[1]]
		t.with(func() encOut {
			if d[0] == 0 {
				r = pre.NewProxyReencryptionKeyAsymmetricWithParams(e.k0[3], pk, alpha, 2, 2)
			} else {
				alpha = params.KSKAlpha()
				r = pre.NewProxyReencryptionKeyAsymmetric(e.k0[3], pk)
			}
			return encOut{}
		})
		c.Op(1)
		cts, pl := rkRows(r, e.k0[3], big.n0)
		o := e.out0(cts, pl, 1, alpha)
		c.State(i, o.errs)
		var fr freshness
		if err := fr.add(o.masks); err != nil {
			return fmt.Errorf("entries of a re-encryption key: %w", err)
		}
		if len(vals) == 0 && otherRandomness() {
			c.Incomplete("noise does not come from math/rand and cannot be scripted")
			return nil
		}
		return matchNoise("re-encryption key from a public key", o, vals)
	})

	// 6. different process starts
	c.Suite("process-starts", 3, nil, func(i int64) error {
		run := func(seed string) ([][]T, error) {
			b, err := coldOut("C20", "c20", seed)
			if err != nil {
				return nil, err
			}
			var m [][]T
			return m, json.Unmarshal([]byte(b), &m)
		}
		a, err := run(fmt.Sprint(2*i + 1))
		if err != nil {
			c.Incomplete("cold process did not run: " + err.Error())
			return nil
		}
		b, err := run(fmt.Sprint(2*i + 2))
		if err != nil {
			c.Incomplete("cold process did not run: " + err.Error())
			return nil
		}
		c.Op(2)
		c.State(i)
		var fr freshness
		if err := fr.add(a); err != nil {
			return err
		}
		if err := fr.add(b); err != nil {
			return fmt.Errorf("two process starts: %w (numbers above %d are the second process)", err, len(a))
		}
		return nil
	})

	// 7. free-running goroutines
	c.Suite("race-fresh", int64(nop), nil, func(i int64) error {
		l := tiny(8, 16, shapes[4], math.Exp2(-12), math.Exp2(-14))
		newEncEnv(l)
		clock.Stopped.Store(true)
		defer clock.Stopped.Store(false)
		var wg sync.WaitGroup
		outs := make([][][]T, 8)
		for g := range outs {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				e := newEncEnvShared(l)
				for r := 0; r < 40; r++ {
					outs[g] = append(outs[g], encOps[i].run(e, 1, 1, 0).masks...)
				}
			}(g)
		}
		wg.Wait()
		var fr freshness
		for _, o := range outs {
			if err := fr.add(o); err != nil {
				return fmt.Errorf("%s in 8 goroutines: %w", encOps[i].name, err)
			}
		}
		c.Op(8 * 40)
		c.State(i)
		return nil
	})
}

func newEncEnvShared(l Level) *encEnv {
	e := &encEnv{l: l, pe: poly.NewEvaluator(l.n)}
	e.k0 = [][]T{make([]T, l.n0), hashKey(l.n0, 3), bitsKey(l.n0, ^uint64(0)), hashKey(l.n0, 9)}
	e.k1 = [][]T{make([]T, l.n), hashKey(l.n, 4), bitsKey(l.n, ^uint64(0)), hashKey(l.n, 10)}
	return e
}

// sampleAt is a scripted sequence of distinguishable normal samples.
func sampleAt(j int) float64 {
	v := 0.25 + float64(j%4096)/1024
	if j%2 == 1 {
		v = -v
	}
	return v
}

// matchNoise matches every error with its own sample.
func matchNoise(what string, o encOut, vals []float64) error {
	want := make([]float64, len(vals))
	for i, v := range vals {
		want[i] = v * o.alpha * (1 << 32)
	}
	sort.Float64s(want)
	got := make([]float64, len(o.errs))
	for i, e := range o.errs {
		got[i] = float64(int32(e))
	}
	sort.Float64s(got)
	if len(vals) < len(got) && o.alpha != 0 {
		return fmt.Errorf("%s: %d normal samples for %d components", what, len(vals), len(got))
	}
	j := 0
	for i, g := range got {
		if o.alpha == 0 {
			if math.Abs(g) > o.tol {
				return fmt.Errorf("%s: error %g at deviation 0", what, g)
			}
			continue
		}
		for j < len(want) && want[j] < g-o.tol {
			j++
		}
		if j >= len(want) || want[j] > g+o.tol {
			return fmt.Errorf("%s: %d-th smallest error is %g units, which no unused sample times deviation %g gives (nearest %v)", what, i, g, o.alpha, nearest(want, g))
		}
		j++
	}
	return nil
}

func nearest(w []float64, g float64) float64 {
	b := math.Inf(1)
	for _, x := range w {
		if math.Abs(x-g) < math.Abs(b-g) {
			b = x
		}
	}
	return b
}

func noiseCase(c *Ctx, e *encEnv, op encOp, m, k int, alpha float64) error {
	rnd.Quiet(false)
	defer rnd.Quiet(true)
	for pat := 0; pat < 3; pat++ {
		var vals []float64
		t := &tape{seed: uint64(pat + 3), flip: -1, norm: func() float64 {
			var v float64
			switch pat {
			case 0:
				v = sampleAt(len(vals))
			case 1:
				v = -sampleAt(len(vals)) * 0.5
			default:
				if len(vals)%3 == 0 {
					v = 4.5
				}
			}
			vals = append(vals, v)
			return v
		}}
		o := t.with(func() encOut { return op.run(e, m, k, alpha) })
		c.Op(1)
		c.State(e.l.name, op.name, m, k, alpha, pat, len(vals), fnvT(0, o.errs))
		if len(vals) == 0 && o.alpha != 0 {
			// another sampler: judge the size of the errors only
			zero := true
			var sum float64
			n := 0
			for r := 0; r < 200; r++ {
				x := op.run(e, m, k, alpha)
				for _, er := range x.errs {
					v := float64(int32(er)) / (x.alpha * (1 << 32))
					sum += v * v
					n++
					if math.Abs(float64(int32(er))) > x.tol {
						zero = false
					}
				}
			}
			if o.alpha > 1e-7 && (zero || sum/float64(n) < 0.4 || sum/float64(n) > 2.5) {
				return fmt.Errorf("%s: the errors have mean square %g times the asked variance", op.name, sum/float64(n))
			}
			c.Incomplete("noise of " + op.name + " is not drawn with NormFloat64 and cannot be scripted; only its size was looked at")
			return nil
		}
		if err := matchNoise(op.name, o, vals); err != nil {
			return err
		}
	}
	return nil
}

// coldOut runs a cold function in a process of its own that starts from the given random seed.
func coldOut(prop, fn, seed string) (string, error) {
	self, err := os.Executable()
	if err != nil {
		return "", err
	}
	cmd := exec.Command(self, "-prop", prop, "-cold", fn)
	cmd.Env = append(os.Environ(), "VERIF_RANDSEED="+seed)
	b, err := cmd.Output()
	return string(b), err
}
