package main

import (
	"fmt"
	"os"
	"strconv"
	"time"

	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"github.com/thedonutfactory/go-tfhe/zzverif/cpu"
	"github.com/thedonutfactory/go-tfhe/zzverif/rt"
)

func init() {
	register(&Check{ID: "C02", Run: runC02, Level: "model_checking", Sched: true,
		Rule: "A state is one schedule (with every pool hand-out) of one batch call or sequence of batch calls, or one (gate, size, contents, sharing) configuration on the default schedule; a transition is one scheduling decision or library call; a trace is one complete execution of the real, instrumented code whose results are decrypted, compared with the single gate, and read again after all goroutines have ended.",
		Bounds: map[string]string{
			"quick":    "schedules: statement granularity (first two visits of every statement by every goroutine), 1 deviation, all 6 gates, sizes 1-3; function/sync granularity, 2 deviations, sizes 2 and 3, and sequences of two batches; every pool hand-out is a decision; contents: all 4^k contents for k<=4, sizes 0..70 and fourteen up to 1025 patterned, 28 sizes on 1..64 processors, 9 shapes x 4 keys x error grid up to the decision margin x mask boundaries, all sharings of objects among 3 pairs; race detector on free-running batches",
			"thorough": "statement granularity with 4 visits and sizes to 5, coarse 3 deviations, sizes 2-3, three-batch sequences; all contents for k<=5; sizes 0..260 and up to 5000",
		},
		Assumptions: []string{"between scheduling points goroutines run sequentially consistently; races inside one statement are left to the race detector", "noiseless reduced-size keys for schedules; a shipped level on the default schedule"}})
	coldFns["c02race"] = coldRace02
}

type batchCase struct {
	e    *gateEnv
	in   [][2]*tlwe.TLWELv0
	bits [][2]bool
	snap [][]T
}

func (e *gateEnv) bitCt(b bool, seed uint64) *tlwe.TLWELv0 {
	return mkCt(gridMask(e.l, seed), e.sk.KeyLv0, bphase(b))
}

func newBatchCase(e *gateEnv, bits [][2]bool) *batchCase {
	b := &batchCase{e: e, bits: bits}
	for i, p := range bits {
		b.in = append(b.in, [2]*tlwe.TLWELv0{e.bitCt(p[0], uint64(2*i+1)), e.bitCt(p[1], uint64(2*i+2))})
	}
	b.freeze()
	return b
}

func (b *batchCase) freeze() {
	b.snap = nil
	for _, p := range b.in {
		b.snap = append(b.snap, clone(p[0].P), clone(p[1].P))
	}
}

// check judges the results of one batch call.
func (b *batchCase) check(g batchGate, out []*tlwe.TLWELv0) error {
	if len(out) != len(b.in) {
		return fmt.Errorf("%s: %d results for %d pairs", g.name, len(out), len(b.in))
	}
	for i, o := range out {
		if o == nil {
			return fmt.Errorf("%s: result %d of %d is nil", g.name, i, len(out))
		}
		if err := checkBit(b.e.l, b.e.sk, o, g.t(b.bits[i][0], b.bits[i][1]), b.e.tol); err != nil {
			return fmt.Errorf("%s: result %d of %d (inputs %v): %w", g.name, i, len(out), b.bits[i], err)
		}
		for j := 0; j < i; j++ {
			if overlap(out[j].P, o.P) {
				return fmt.Errorf("%s: results %d and %d share storage", g.name, j, i)
			}
		}
		if i < 8 {
			for j, p := range b.in {
				if overlap(o.P, p[0].P) || overlap(o.P, p[1].P) {
					return fmt.Errorf("%s: result %d shares storage with input pair %d", g.name, i, j)
				}
			}
		}
	}
	for i, p := range b.in {
		if !eq(p[0].P, b.snap[2*i]) || !eq(p[1].P, b.snap[2*i+1]) {
			return fmt.Errorf("%s: input pair %d was modified", g.name, i)
		}
	}
	return nil
}

func words(out []*tlwe.TLWELv0) [][]T {
	var r [][]T
	for _, o := range out {
		if o == nil {
			r = append(r, nil)
		} else {
			r = append(r, clone(o.P))
		}
	}
	return r
}

func sameWords(what string, a [][]T, b [][]T) error {
	if len(a) != len(b) {
		return fmt.Errorf("%s: %d results became %d", what, len(b), len(a))
	}
	for i := range a {
		if !eq(a[i], b[i]) {
			return fmt.Errorf("%s: result %d changed", what, i)
		}
	}
	return nil
}

func patBits(n int, pat int) [][2]bool {
	r := make([][2]bool, n)
	for i := range r {
		x := uint64(i)
		switch pat {
		case 0:
			x = uint64(i)
		case 1:
			x = uint64(i) * 3 >> 1
		case 2:
			x = mix(uint64(i))
		case 3:
			x = uint64(i) >> 2
		default:
			x = mix(uint64(i) + 99)
		}
		r[i] = [2]bool{x&1 == 1, x&2 == 2}
	}
	return r
}

// batchExec is a scheduled execution of consecutive batch calls (gate, case).
func batchExec(e *gateEnv, seq []int, cases []*batchCase) func() Exec {
	h0 := e.h
	return func() Exec {
		outs := make([][]*tlwe.TLWELv0, len(seq))
		kept := make([][][]T, len(seq))
		var mid error
		var end [][][]T
		return Exec{
			body: func() {
				for k, g := range seq {
					outs[k] = batch2[g].f(cases[k].in, e.ck)
					kept[k] = words(outs[k])
					for j := 0; j < k && mid == nil; j++ {
						mid = sameWords(fmt.Sprintf("after batch %d, batch %d (%s)", k+1, j+1, batch2[seq[j]].name), words(outs[j]), kept[j])
					}
				}
			},
			snap: func() {
				for k := range outs {
					end = append(end, words(outs[k]))
				}
			},
			check: func(x *rt.Sched) error {
				if mid != nil {
					return mid
				}
				for k, g := range seq {
					if err := sameWords("written after the call returned: "+batch2[g].name, words(outs[k]), end[k]); err != nil {
						return err
					}
					if err := cases[k].check(batch2[g], outs[k]); err != nil {
						return fmt.Errorf("batch %d: %w", k+1, err)
					}
				}
				if ckHash(e.ck) != h0 {
					return fmt.Errorf("the evaluation key was modified")
				}
				return nil
			},
		}
	}
}

func batchEnv(n0, n int) *gateEnv {
	l := tiny(n0, n, shapes[3], 0, 0)
	l.use()
	return newGateEnv(l, bitsKey(n0, 0xB5), hashKey(n, 4))
}

func runC02(c *Ctx) {
	full := c.thorough()
	ng := len(batch2)
	if why := whyNotSched(); why != "" {
		c.Incomplete("schedules were not explored: " + why)
	} else {
		const slices = 8
		var e *gateEnv
		setup := func() { e = batchEnv(1, 16) }
		sizes := []int{1, 2, 3}
		visits := 2
		if full {
			sizes = []int{1, 2, 3, 4, 5}
			visits = 4
		}
		c.Suite("schedules-fine", prod(len(sizes), ng, 2, slices), setup, func(i int64) error {
			d := idx(i, len(sizes), ng, 2, slices)
			e.l.use()
			bc := newBatchCase(e, patBits(sizes[d[0]], d[2]*2))
			c.Describe(func() string {
				return fmt.Sprintf("%s of %d pairs %v, statement granularity, slice %d/%d", batch2[d[1]].name, sizes[d[0]], bc.bits, d[3], slices)
			})
			return explore(c, Explore{cfg: rt.Config{FineLimit: visits, CoarseLimit: 2, MaxPoints: 200000}, bound: 1, slice: int64(d[3]), of: slices}, batchExec(e, []int{d[1]}, []*batchCase{bc}))
		})
		bound := 2
		csizes := []int{2, 3}
		if full {
			bound = 3
		}
		const cs = 32
		c.Suite("schedules-coarse", prod(len(csizes), ng, cs), setup, func(i int64) error {
			d := idx(i, len(csizes), ng, cs)
			e.l.use()
			bc := newBatchCase(e, patBits(csizes[d[0]], 2))
			c.Describe(func() string {
				return fmt.Sprintf("%s of %d pairs, function and sync granularity, %d deviations, slice %d/%d", batch2[d[1]].name, csizes[d[0]], bound, d[2], cs)
			})
			b := bound
			if csizes[d[0]] > 2 && !full {
				b = 2
			}
			return explore(c, Explore{cfg: rt.Config{FineLimit: 0, CoarseLimit: 1, MaxPoints: 200000}, bound: b, slice: int64(d[2]), of: cs}, batchExec(e, []int{d[1]}, []*batchCase{bc}))
		})
		c.Suite("schedules-two-batches", prod(ng, ng, slices), setup, func(i int64) error {
			d := idx(i, ng, ng, slices)
			e.l.use()
			a, b := newBatchCase(e, patBits(2, 2)), newBatchCase(e, patBits(2, 1))
			c.Describe(func() string {
				return fmt.Sprintf("%s then %s, 2 pairs each, slice %d/%d", batch2[d[0]].name, batch2[d[1]].name, d[2], slices)
			})
			v := 0
			if d[0] == d[1] || full {
				v = 1
			}
			return explore(c, Explore{cfg: rt.Config{FineLimit: v, CoarseLimit: 1, MaxPoints: 200000}, bound: 1, slice: int64(d[2]), of: slices}, batchExec(e, []int{d[0], d[1]}, []*batchCase{a, b}))
		})
		if full {
			c.Suite("schedules-three-batches", prod(ng, ng, ng), setup, func(i int64) error {
				d := idx(i, ng, ng, ng)
				e.l.use()
				cs := []*batchCase{newBatchCase(e, patBits(2, 2)), newBatchCase(e, patBits(1, 1)), newBatchCase(e, patBits(2, 4))}
				return explore(c, Explore{cfg: rt.Config{CoarseLimit: 1, MaxPoints: 200000}, bound: 1, of: 1}, batchExec(e, d, cs))
			})
		}
		// every item of the batch under way at once
		wide := []int{5, 9, 17}
		if full {
			wide = []int{4, 5, 6, 8, 9, 16, 17, 33, 65}
		}
		c.Suite("schedules-all-at-once", prod(len(wide), ng, slices), setup, func(i int64) error {
			d := idx(i, len(wide), ng, slices)
			e.l.use()
			bc := newBatchCase(e, patBits(wide[d[0]], 2))
			c.Describe(func() string {
				return fmt.Sprintf("%s of %d pairs, all items at once, slice %d/%d", batch2[d[1]].name, wide[d[0]], d[2], slices)
			})
			return allAtOnce(c, rt.Config{FineLimit: visits - 1, CoarseLimit: 2, MaxPoints: 2000000}, d[2], slices, batchExec(e, []int{d[1]}, []*batchCase{bc}))
		})
		// rotations alone: full statement-level exploration of the pooled part
		c.Suite("schedules-blind-rotate", prod(3, slices), setup, func(i int64) error {
			d := idx(i, 3, slices)
			e.l.use()
			n := d[0] + 1
			var src []*tlwe.TLWELv0
			var want []*trlwe.TRLWELv1
			for k := 0; k < n; k++ {
				src = append(src, e.bitCt(k%2 == 0, uint64(k)+50))
				w := trgsw.BatchBlindRotate(src[k:k+1], e.ck.BlindRotateTestvec, e.ck.BootstrappingKey, e.ck.DecompositionOffset)
				want = append(want, w[0])
			}
			c.Describe(func() string { return fmt.Sprintf("BatchBlindRotate of %d", n) })
			return explore(c, Explore{cfg: rt.Config{FineLimit: visits + 1, CoarseLimit: 2, MaxPoints: 200000}, bound: 1, slice: int64(d[1]), of: slices}, func() Exec {
				var out []*trlwe.TRLWELv1
				return Exec{body: func() {
					out = trgsw.BatchBlindRotate(src, e.ck.BlindRotateTestvec, e.ck.BootstrappingKey, e.ck.DecompositionOffset)
				}, check: func(x *rt.Sched) error {
					if len(out) != n {
						return fmt.Errorf("%d results", len(out))
					}
					for k := range out {
						if out[k] == nil || !same(out[k], want[k]) {
							return fmt.Errorf("rotation %d of %d differs from the rotation done alone", k, n)
						}
						for j := 0; j < k; j++ {
							if overlap(out[j].A, out[k].A) || overlap(out[j].B, out[k].B) {
								return fmt.Errorf("rotations %d and %d share storage", j, k)
							}
						}
					}
					return nil
				}}
			})
		})
	}

	// contents and sizes, free-running
	{
		var e *gateEnv
		setup := func() { e = batchEnv(2, 16) }
		maxK := 4
		if full {
			maxK = 5
		}
		var total int64
		for k := 0; k <= maxK; k++ {
			total += int64(ng) << uint(2*k)
		}
		c.Suite("contents", total, setup, func(i int64) error {
			e.l.use()
			k := 0
			for i >= int64(ng)<<uint(2*k) {
				i -= int64(ng) << uint(2*k)
				k++
			}
			g := batch2[i%int64(ng)]
			x := i / int64(ng)
			bits := make([][2]bool, k)
			for j := range bits {
				bits[j] = [2]bool{x>>uint(2*j)&1 == 1, x>>uint(2*j+1)&1 == 1}
			}
			b := newBatchCase(e, bits)
			c.Describe(func() string { return fmt.Sprintf("%s %v", g.name, bits) })
			out := g.f(b.in, e.ck)
			c.Op(1)
			c.State(g.name, bits)
			if err := b.check(g, out); err != nil {
				return err
			}
			// item by item the same decision as the single gate
			for j := range out {
				s := g.single(b.in[j][0], b.in[j][1], e.ck)
				c.Op(1)
				if s.DecryptBool(e.sk.KeyLv0) != out[j].DecryptBool(e.sk.KeyLv0) {
					return fmt.Errorf("%s: item %d differs from the single gate", g.name, j)
				}
			}
			if ckHash(e.ck) != e.h {
				return fmt.Errorf("the evaluation key was modified")
			}
			return nil
		})
		max := 70
		if full {
			max = 260
		}
		extra := []int{100, 127, 128, 129, 200, 256, 257, 300, 500, 512, 513, 1000, 1024, 1025}
		if full {
			extra = append(extra, 2047, 2048, 2049, 4096, 5000)
		}
		c.Suite("sizes", prod(max+1+len(extra), ng, 2), setup, func(i int64) error {
			d := idx(i, max+1+len(extra), ng, 2)
			e.l.use()
			n := d[0]
			if n > max {
				n = extra[n-max-1]
			}
			g := batch2[d[1]]
			b := newBatchCase(e, patBits(n, 2+2*d[2]))
			c.Describe(func() string { return fmt.Sprintf("%s of %d pairs", g.name, n) })
			out := g.f(b.in, e.ck)
			c.Op(1)
			c.State(d)
			if err := b.check(g, out); err != nil {
				return err
			}
			kept := words(out)
			b2 := newBatchCase(e, patBits(n/2+1, 3))
			if err := b2.check(batch2[(d[1]+1)%ng], batch2[(d[1]+1)%ng].f(b2.in, e.ck)); err != nil {
				return fmt.Errorf("second batch: %w", err)
			}
			return sameWords("a later batch changed an earlier one", words(out), kept)
		})
		// however many processors the machine has
		cores := []int{1, 2, 3, 4, 5, 6, 7, 9, 12, 16, 17, 64}
		c.Suite("cores", prod(len(cores), 28, ng), setup, func(i int64) error {
			d := idx(i, len(cores), 28, ng)
			e.l.use()
			cpu.Cores.Store(int64(cores[d[0]]))
			defer cpu.Cores.Store(8)
			n := d[1]
			if n > 24 {
				n = []int{33, 65, 129}[n-25]
			}
			g := batch2[d[2]]
			b := newBatchCase(e, patBits(n, 2))
			c.Describe(func() string { return fmt.Sprintf("%s of %d pairs on %d processors", g.name, n, cores[d[0]]) })
			before := cpu.Reads.Load()
			out := g.f(b.in, e.ck)
			c.Op(1)
			c.State(d[1], d[2], int64(cores[d[0]])*b2i64(cpu.Reads.Load() > before))
			return b.check(g, out)
		})
		// operand errors up to the decision margin, masks on rounding boundaries
		{
			nm := 7
			if full {
				nm = 16
			}
			rad := []int{len(shapes), 4, ng, nm}
			var me *gateEnv
			cur := -1
			c.Suite("margins", prod(rad...), nil, func(i int64) error {
				d := idx(i, rad...)
				l := tiny(2, 64, shapes[d[0]], 0, 0)
				l.use()
				if k := d[0]*4 + d[1]; k != cur {
					me = newGateEnv(l, bitsKey(2, uint64(d[1])), hashKey(64, 5))
					cur = k
				}
				g := batch2[d[2]]
				var sg gate2
				for _, x := range gates2 {
					if "Batch"+x.name == g.name {
						sg = x
					}
				}
				ws := maskWords(l, full)
				ma := []T{ws[d[3]], ws[(d[3]*3+1)%len(ws)]}
				lim := float64(eighth) - float64(3)*pow2(32-log2i(2*l.n)-1) - 64
				b := &batchCase{e: me}
				for x := 0; x < 4; x++ {
					for ea := -1; ea <= 1; ea++ {
						for eb := -1; eb <= 1; eb++ {
							mb := []T{ws[(len(b.in)*2)%len(ws)], ws[(len(b.in)*5+2)%len(ws)]}
							p, q := x&1 != 0, x&2 != 0
							xa := T(int32(float64(ea) * lim / 2 / float64(sg.ka)))
							xb := T(int32(float64(eb) * lim / 2 / float64(sg.kb)))
							b.in = append(b.in, [2]*tlwe.TLWELv0{mkCt(ma, me.sk.KeyLv0, bphase(p)+xa), mkCt(mb, me.sk.KeyLv0, bphase(q)+xb)})
							b.bits = append(b.bits, [2]bool{p, q})
						}
					}
				}
				b.freeze()
				c.Describe(func() string { return fmt.Sprintf("%s gate %s key0=%v maskA=%08x", l.name, g.name, me.sk.KeyLv0, ma) })
				out := g.f(b.in, me.ck)
				c.Op(1)
				c.Bulk(int64(len(b.in)))
				c.State(d)
				if err := b.check(g, out); err != nil {
					return err
				}
				for k, o := range out {
					if err := checkBit(l, me.sk, o, g.t(b.bits[k][0], b.bits[k][1]), me.tol); err != nil {
						return fmt.Errorf("%s item %d (%v, error case %d): %w", g.name, k, b.bits[k], k%9, err)
					}
				}
				return nil
			})
		}
		// sharing of objects among pairs: every assignment of 6 operand slots to up to 3 objects
		c.Suite("sharing", prod(729, ng), setup, func(i int64) error {
			d := idx(i, 729, ng)
			e.l.use()
			g := batch2[d[1]]
			obj := []*tlwe.TLWELv0{e.bitCt(true, 7), e.bitCt(false, 8), e.bitCt(true, 9)}
			val := []bool{true, false, true}
			b := &batchCase{e: e}
			x := d[0]
			for j := 0; j < 3; j++ {
				p, q := x%3, x/3%3
				x /= 9
				b.in = append(b.in, [2]*tlwe.TLWELv0{obj[p], obj[q]})
				b.bits = append(b.bits, [2]bool{val[p], val[q]})
			}
			b.freeze()
			c.Describe(func() string { return fmt.Sprintf("%s, objects assigned %d", g.name, d[0]) })
			c.Op(1)
			c.State(d)
			return b.check(g, g.f(b.in, e.ck))
		})
		// outputs of one batch as inputs of the next
		c.Suite("chained", prod(ng, ng, 4), setup, func(i int64) error {
			d := idx(i, ng, ng, 4)
			e.l.use()
			g, h := batch2[d[0]], batch2[d[1]]
			b := newBatchCase(e, patBits(4, d[2]))
			o1 := g.f(b.in, e.ck)
			if err := b.check(g, o1); err != nil {
				return err
			}
			b2 := &batchCase{e: e}
			for j := range o1 {
				q := (j + 1) % len(o1)
				b2.in = append(b2.in, [2]*tlwe.TLWELv0{o1[j], o1[q]})
				b2.bits = append(b2.bits, [2]bool{g.t(b.bits[j][0], b.bits[j][1]), g.t(b.bits[q][0], b.bits[q][1])})
			}
			b2.freeze()
			c.Op(2)
			c.State(d)
			return b2.check(h, h.f(b2.in, e.ck))
		})
	}
	// shipped level
	{
		var e *gateEnv
		names := []string{"80"}
		if full {
			names = []string{"80", "128", "Uint1", "Uint2"}
		}
		for _, nm := range names {
			nm := nm
			c.Suite("shipped-"+nm, int64(ng), func() {
				l := shipped(nm)
				l.use()
				e = newGateEnv(l, hashKey(l.n0, 1), hashKey(l.n, 2))
			}, func(i int64) error {
				e.l.use()
				b := newBatchCase(e, patBits(5, 0))
				c.Op(1)
				c.State(nm, i)
				return b.check(batch2[i], batch2[i].f(b.in, e.ck))
			})
		}
	}
	c.Suite("race-batches", int64(ng), nil, func(i int64) error {
		c.State("race", i)
		return raceRun(c, "C02", "c02race", 120*time.Second, "-arg", strconv.Itoa(int(i)))
	})
}

// coldRace02 runs in the race-detector build.
func coldRace02() {
	g, _ := strconv.Atoi(*coldArg)
	e := batchEnv(2, 16)
	for round := 0; round < 6; round++ {
		for _, n := range []int{1, 2, 3, 8, 33} {
			b := newBatchCase(e, patBits(n, 2))
			out := batch2[g].f(b.in, e.ck)
			kept := words(out)
			h := (g + round) % len(batch2)
			b2 := newBatchCase(e, patBits(n, 1))
			out2 := batch2[h].f(b2.in, e.ck)
			err := b.check(batch2[g], out)
			if err == nil {
				err = b2.check(batch2[h], out2)
			}
			if err == nil {
				err = sameWords("later batch", words(out), kept)
			}
			if err != nil {
				fmt.Println("WRONG:", err)
				os.Exit(3)
			}
		}
	}
}
