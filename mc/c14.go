package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/thedonutfactory/go-tfhe/bitutils"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/poly"
	pre "github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"github.com/thedonutfactory/go-tfhe/zzverif/rt"
)

func init() {
	register(&Check{ID: "C14", Run: runC14, Level: "model_checking", Sched: true,
		Rule: "A state is one schedule of 2 or 3 threads, each running one documented concurrent use with its own evaluator over shared read-only arguments; a transition is one scheduling decision; a trace is one complete execution of the real, instrumented code whose results are compared, word for word, with what each thread gets alone (for randomised operations: decrypted, and masks compared across threads).",
		Bounds: map[string]string{
			"quick":    "all pairs of the operation alphabet (evaluator, gate, polynomial, key switching, table generation, encryption, decryption, arithmetic, re-encryption, batch): function/sync granularity, 1 deviation; statement granularity (first visit) for every operation against itself and against every core operation; evaluators new, shallow-copied before, shallow-copied inside the threads; 2 deviations for encryption, ring encryption, shallow-copied polynomial evaluators and bootstrapping against themselves; all operations against themselves in lockstep at n0=700, 1100 and N=512, 1024, 2048; threads alternate between two sets of arguments; race detector on free-running pairs and at those sizes; fresh-process starts of every operation, of evaluators of every degree and of every shipped level",
			"thorough": "statement granularity with 2 visits on all pairs, 2 deviations at function granularity on all pairs, triples of core operations",
		},
		Assumptions: []string{"single gates share one process-wide evaluator documented as single-threaded: at most one thread uses them", "a lookup-table generator is not shared between threads", "between scheduling points threads run sequentially consistently; races inside one statement are left to the race detector"}})
	coldFns["c14race"] = coldRace14
	coldFns["c14wide"] = coldWide14
	coldFns["c14cold"] = coldStart14
}

// COp is an operation of the concurrent alphabet.
type COp struct {
	name   string
	core   bool
	global bool // uses the process-wide gate evaluator
	run    func(w *World) [][]T
	// randomised operations: results are judged by valid, masks must differ between threads
	valid func(w *World, r [][]T) error
	masks func(w *World, r [][]T) [][]T
}

func concurrentOps() []COp {
	var r []COp
	for _, o := range worldOps() {
		o := o
		if o.mut != 0 || o.reset || strings.Contains(o.name, "Encrypt") {
			continue
		}
		c := COp{name: o.name, core: o.core, run: func(w *World) [][]T {
			var x [][]T
			for _, y := range o.run(w) {
				x = append(x, clone(y.p))
			}
			return x
		}}
		for _, g := range []string{"NAND(", "XOR,", "ORNY", "AND,OR", "MUX", "trivial gates"} {
			if strings.HasPrefix(o.name, g) {
				c.global = true
			}
		}
		r = append(r, c)
	}
	bit := func(p []T, k []T, want bool) error {
		if ph := phase0(p, k); dist(ph, bphase(want)) > 64 {
			return fmt.Errorf("encryption of %v has phase %08x", want, uint32(ph))
		}
		return nil
	}
	lv0 := func(w *World, r [][]T) [][]T {
		var m [][]T
		for _, p := range r {
			m = append(m, p[:w.l.n0])
		}
		return m
	}
	r = append(r,
		COp{name: "tlwe0.Encrypt", core: true, run: func(w *World) [][]T {
			a := tlwe.NewTLWELv0().EncryptBool(true, 0, w.env1.sk.KeyLv0)
			b := tlwe.NewTLWELv0().EncryptBool(true, 0, w.env1.sk.KeyLv0)
			c := tlwe.NewTLWELv0().EncryptLWEMessage(1, 4, 0, w.env1.sk.KeyLv0)
			return [][]T{a.P, b.P, c.P}
		}, valid: func(w *World, r [][]T) error {
			for _, p := range r[:2] {
				if err := bit(p, w.env1.sk.KeyLv0, true); err != nil {
					return err
				}
			}
			if ph := phase0(r[2], w.env1.sk.KeyLv0); dist(ph, encPhase(1, 4)) > 64 {
				return fmt.Errorf("encryption of message 1 mod 4 has phase %08x", uint32(ph))
			}
			return nil
		}, masks: lv0},
		COp{name: "EncryptBits", run: func(w *World) [][]T {
			var o [][]T
			for _, x := range bitutils.EncryptBits([]bool{true, false, false}, 0, w.env1.sk.KeyLv0) {
				o = append(o, x.P)
			}
			return o
		}, valid: func(w *World, r [][]T) error {
			for i, p := range r {
				if err := bit(p, w.env1.sk.KeyLv0, i == 0); err != nil {
					return err
				}
			}
			return nil
		}, masks: lv0},
		COp{name: "tlwe1.Encrypt", run: func(w *World) [][]T {
			return [][]T{tlwe.NewTLWELv1().EncryptBool(true, 0, w.env1.sk.KeyLv1).P, tlwe.NewTLWELv1().EncryptF64(-0.125, 0, w.env1.sk.KeyLv1).P}
		}, valid: func(w *World, r [][]T) error {
			for i, p := range r {
				if err := bit(p, w.env1.sk.KeyLv1, i == 0); err != nil {
					return err
				}
			}
			return nil
		}, masks: func(w *World, r [][]T) [][]T { return [][]T{r[0][:w.l.n], r[1][:w.l.n]} }},
		COp{name: "trlwe.Encrypt", core: true, run: func(w *World) [][]T {
			b := make([]bool, w.l.n)
			for i := range b {
				b[i] = i%3 == 0
			}
			x := trlwe.NewTRLWELv1().EncryptBool(b, 0, w.env1.sk.KeyLv1, w.pe)
			return [][]T{x.A, x.B}
		}, valid: func(w *World, r [][]T) error {
			ph := ringPhase(&trlwe.TRLWELv1{A: r[0], B: r[1]}, w.env1.sk.KeyLv1)
			for i, p := range ph {
				if dist(p, bphase(i%3 == 0)) > 1<<12 {
					return fmt.Errorf("ring encryption: coefficient %d has phase %08x", i, uint32(p))
				}
			}
			return nil
		}, masks: func(w *World, r [][]T) [][]T { return [][]T{r[0]} }},
		COp{name: "trgsw.Encrypt", run: func(w *World) [][]T {
			y := trgsw.NewTRGSWLv1().EncryptTorus(0, 0, w.env1.sk.KeyLv1, w.pe)
			var r [][]T
			for _, t := range y.TRLWE {
				r = append(r, t.A, t.B)
			}
			return r
		}, valid: func(w *World, r [][]T) error {
			for k := 0; k < len(r); k += 2 {
				for i, p := range ringPhase(&trlwe.TRLWELv1{A: r[k], B: r[k+1]}, w.env1.sk.KeyLv1) {
					if dist(p, 0) > 1<<12 {
						return fmt.Errorf("gadget encryption of 0: row %d coefficient %d has phase %08x", k/2, i, uint32(p))
					}
				}
			}
			return nil
		}, masks: func(w *World, r [][]T) [][]T {
			var m [][]T
			for k := 0; k < len(r); k += 2 {
				m = append(m, r[k])
			}
			return m
		}},
		COp{name: "PublicKeyEncrypt", run: func(w *World) [][]T {
			return [][]T{w.pk.EncryptBool(true, 0).P, w.pk.EncryptBool(false, 0).P}
		}, valid: func(w *World, r [][]T) error {
			for i, p := range r {
				if err := bit(p, w.env2.sk.KeyLv0, i == 0); err != nil {
					return err
				}
			}
			return nil
		}},
		COp{name: "NewPublicKey+NewReencryptionKey", run: func(w *World) [][]T {
			pk := pre.NewPublicKeyLv0WithParams(w.env1.sk.KeyLv0, 2, 0)
			rk := pre.NewProxyReencryptionKeySymmetricWithParams(w.env1.sk.KeyLv0, w.env2.sk.KeyLv0, 0, 2, 1)
			cts, _ := rkRows(rk, w.env1.sk.KeyLv0, w.l.n0)
			r := [][]T{pk.Encryptions[0].P, pk.Encryptions[1].P}
			for _, c := range cts {
				r = append(r, c.P)
			}
			return r
		}, valid: func(w *World, r [][]T) error {
			for i, p := range r {
				k, want := w.env1.sk.KeyLv0, T(0)
				if i >= 2 {
					k = w.env2.sk.KeyLv0
					want = T((i-2)%3+1) * w.env1.sk.KeyLv0[(i-2)/3] << 30
				}
				if dist(phase0(p, k), want) > 64 {
					return fmt.Errorf("key entry %d has phase %08x, want %08x", i, uint32(phase0(p, k)), uint32(want))
				}
			}
			return nil
		}, masks: lv0},
		COp{name: "NewSecretKey", run: func(w *World) [][]T {
			k := key.NewSecretKey()
			return [][]T{k.KeyLv0, k.KeyLv1}
		}, valid: func(w *World, r [][]T) error {
			if len(r[0]) != w.l.n0 || len(r[1]) != w.l.n {
				return fmt.Errorf("secret key of dimensions %d, %d", len(r[0]), len(r[1]))
			}
			for _, k := range r {
				for _, b := range k {
					if b > 1 {
						return fmt.Errorf("secret key word %d", b)
					}
				}
			}
			return nil
		}},
		COp{name: "NewEvaluator,NewPolyEvaluator", run: func(w *World) [][]T {
			e := evaluator.NewEvaluator(w.l.n)
			p := poly.NewEvaluator(w.l.n)
			return [][]T{e.PolyEvaluator.MulPoly(w.polyA, w.polyS).Coeffs, p.MulPoly(w.polyA, w.polyS).Coeffs}
		}},
		COp{name: "pe.ShallowCopy", core: true, run: func(w *World) [][]T {
			p := w.pe.ShallowCopy()
			o := w.dirtyPoly()
			p.MulPolyAssign(w.polyA, w.polyS, o)
			x := trgsw.BlindRotate(w.ctM, w.lutM.Poly, w.ckM.BootstrappingKey, w.ckM.DecompositionOffset, p)
			return [][]T{p.MulPoly(w.polyA, w.polyS).Coeffs, o.Coeffs, clone(x.A), clone(x.B)}
		}},
		COp{name: "NewGenerator+tables", run: func(w *World) [][]T {
			g := lut.NewGenerator(8)
			a := g.GenLookUpTable(func(x int) int { return 7 - x })
			b := lut.NewGeneratorWithScale(4, 0.125).GenLookUpTable(func(x int) int { return x })
			return [][]T{a.Poly.B, b.Poly.B, {T(g.ModSwitch(0x12345678))}}
		}},
		COp{name: "BatchOR of 1", run: func(w *World) [][]T {
			var r [][]T
			for _, c := range gates.BatchOR([][2]*tlwe.TLWELv0{{w.ctM, w.ct[1]}}, w.ckM) {
				r = append(r, c.P)
			}
			return r
		}},
	)
	return r
}

// evaluator sharing modes
const (
	evNew       = iota // every thread creates its evaluators itself
	evCopied           // shallow-copied from a shared one beforehand
	evCopyInner        // shallow-copied by each thread itself
	evModes
)

var evModeName = []string{"own evaluators created in the thread", "shallow copies made beforehand", "shallow copies made in the thread"}

// threadWorld is a view of w with evaluators of its own.
func (w *World) view(gen *lut.Generator) *World {
	v := *w
	v.gen = gen
	v.ev, v.pe = nil, nil
	return &v
}

type concEnv struct {
	w    *World
	alt  *World // the same world with other arguments: threads alternate between the two
	ops  []COp
	ref  [2][][][]T
	h    [2]uint64
	late bool // the caller calls unchanged
	base *evaluator.Evaluator
	bpe  *poly.Evaluator
}

func newConcEnv(n0, n int) *concEnv {
	e := &concEnv{w: newWorld(tiny(n0, n, shapes[3], 0, 0)), ops: concurrentOps()}
	e.alt = e.w.others()
	for k := range e.ref {
		for _, o := range e.ops {
			v := e.world(k).view(lut.NewGenerator(4))
			v.ev, v.pe = evaluator.NewEvaluator(n), poly.NewEvaluator(n)
			var r [][]T
			for _, p := range o.run(v) {
				r = append(r, clone(p))
			}
			e.ref[k] = append(e.ref[k], r)
		}
		e.h[k] = e.world(k).argHash()
	}
	e.base = evaluator.NewEvaluator(n)
	e.bpe = poly.NewEvaluator(n)
	return e
}

// world is what thread t works on.
func (e *concEnv) world(t int) *World {
	if t&1 == 0 {
		return e.w
	}
	return e.alt
}

// others is a view of w with other arguments under the same keys.
func (w *World) others() *World {
	v := *w
	n := w.l.n
	v.ct = nil
	for i := 0; i < 4; i++ {
		v.ct = append(v.ct, mkCt(hashMask(w.l.n0, uint64(i)+43), w.env1.sk.KeyLv0, bphase(i%2 == 1)-T(i)<<23))
	}
	v.lutA, v.lutB = w.gen.GenLookUpTable(func(x int) int { return x * 3 }), w.gen.GenLookUpTable(func(x int) int { return x + 1 })
	v.rin = &trlwe.TRLWELv1{A: hashMask(n, 51), B: hashMask(n, 52)}
	v.rin2 = &trlwe.TRLWELv1{A: hashMask(n, 53), B: hashMask(n, 54)}
	v.src1 = &tlwe.TLWELv1{P: hashMask(n+1, 55)}
	v.polyA, v.polyS = poly.Poly{Coeffs: hashMask(n, 56)}, poly.Poly{Coeffs: hashKey(n, 57)}
	pe := poly.NewEvaluator(n)
	v.fp1, v.fp2 = pe.ToFourierPoly(v.polyA), pe.ToFourierPoly(v.polyS)
	v.lutM, v.ctM, v.rinM = &lut.LookUpTable{Poly: &trlwe.TRLWELv1{A: clone(v.lutB.Poly.A), B: clone(v.lutB.Poly.B)}}, &tlwe.TLWELv0{P: clone(v.ct[1].P)}, &trlwe.TRLWELv1{A: clone(v.rin2.A), B: clone(v.rin2.B)}
	v.ctT, v.ctZ, v.srT, v.rT = tlwe.NewTLWELv0(), tlwe.NewTLWELv0(), tlwe.NewTLWELv1(), trlwe.NewTRLWELv1()
	v.ctT.P[w.l.n0] = 0xCFFFFFF1
	v.srT.P[n] = 0x52345678
	copy(v.rT.B, v.rin.B)
	return &v
}

// judge compares what the threads got with what they get alone; each thread made per results.
func (e *concEnv) judge(seq []int, per int, got [][][]T) error {
	var fr freshness
	for t, o := range seq {
		op, ref := &e.ops[o], e.ref[t/per&1]
		if got[t] == nil && ref[o] != nil {
			return fmt.Errorf("thread %d (%s) did not finish", t+1, op.name)
		}
		if op.valid != nil {
			if err := op.valid(e.w, got[t]); err != nil {
				return fmt.Errorf("thread %d (%s): %w", t+1, op.name, err)
			}
			if op.masks != nil {
				if err := fr.add(op.masks(e.w, got[t])); err != nil {
					return fmt.Errorf("thread %d (%s): %w", t+1, op.name, err)
				}
			}
			continue
		}
		if len(got[t]) != len(ref[o]) {
			return fmt.Errorf("thread %d (%s): %d results, alone %d", t+1, op.name, len(got[t]), len(ref[o]))
		}
		for i := range got[t] {
			if !eq(got[t][i], ref[o][i]) {
				return fmt.Errorf("thread %d (%s): result %d differs from what the thread gets alone", t+1, op.name, i)
			}
		}
	}
	if e.late {
		return nil
	}
	return e.unchanged()
}

func (e *concEnv) unchanged() error {
	for k := range e.h {
		if e.world(k).argHash() != e.h[k] {
			return fmt.Errorf("a shared argument was modified")
		}
	}
	return nil
}

// bodies makes the thread functions.
func (e *concEnv) bodies(mode int, seq []int, got [][][]T) []func() {
	var fs []func()
	n := e.w.l.n
	for t, o := range seq {
		t, o := t, o
		v := e.world(t).view(lut.NewGenerator(4))
		if mode == evCopied {
			v.ev, v.pe = e.base.ShallowCopy(), e.bpe.ShallowCopy()
		}
		fs = append(fs, func() {
			switch mode {
			case evNew:
				v.ev, v.pe = evaluator.NewEvaluator(n), poly.NewEvaluator(n)
			case evCopyInner:
				v.ev, v.pe = e.base.ShallowCopy(), e.bpe.ShallowCopy()
			}
			r := e.ops[o].run(v)
			c := make([][]T, 0, len(r)+1)
			for _, p := range r {
				c = append(c, clone(p))
			}
			got[t] = c
		})
	}
	return fs
}

func (e *concEnv) exec(mode int, seq []int) func() Exec {
	return func() Exec {
		got := make([][][]T, len(seq))
		fs := e.bodies(mode, seq, got)
		return Exec{
			body:  func() { threads(fs...) },
			check: func(x *rt.Sched) error { return e.judge(seq, 1, got) },
		}
	}
}

func (e *concEnv) name(mode int, seq []int) string {
	s := evModeName[mode] + ":"
	for _, o := range seq {
		s += " " + e.ops[o].name + " ||"
	}
	return strings.TrimSuffix(s, " ||")
}

func pairsOf(ops []COp, ok func(a, b *COp) bool) [][]int {
	var r [][]int
	for a := range ops {
		for b := a; b < len(ops); b++ {
			if ops[a].global && ops[b].global {
				continue
			}
			if ok(&ops[a], &ops[b]) {
				r = append(r, []int{a, b})
			}
		}
	}
	return r
}

// wideSizes are pairs of dimensions (ciphertext, ring) of the shipped levels, one of the two at a time.
var wideSizes = [][2]int{{2, 2048}, {2, 1024}, {2, 512}, {700, 16}, {1100, 16}}

func runC14(c *Ctx) {
	full := c.thorough()
	ops := concurrentOps()
	var e *concEnv
	setup := func() { e = newConcEnv(1, 16) }
	all := pairsOf(ops, func(a, b *COp) bool { return true })
	if why := whyNotSched(); why != "" {
		c.Incomplete("schedules were not explored: " + why)
	} else {
		bound := 1
		if full {
			bound = 2
		}
		c.Suite("pairs-coarse", prod(len(all), evModes), setup, func(i int64) error {
			d := idx(i, len(all), evModes)
			e.w.l.use()
			c.Describe(func() string { return e.name(d[1], all[d[0]]) })
			return explore(c, Explore{cfg: rt.Config{CoarseLimit: 1, MaxPoints: 200000}, bound: bound, of: 1}, e.exec(d[1], all[d[0]]))
		})
		fine := pairsOf(ops, func(a, b *COp) bool { return full || a.name == b.name || (a.core && b.core) })
		visits := 1
		if full {
			visits = 2
		}
		c.Suite("pairs-fine", prod(len(fine), evModes), setup, func(i int64) error {
			d := idx(i, len(fine), evModes)
			e.w.l.use()
			c.Describe(func() string { return e.name(d[1], fine[d[0]]) })
			return explore(c, Explore{cfg: rt.Config{FineLimit: visits, CoarseLimit: 1, MaxPoints: 200000}, bound: 1, of: 1}, e.exec(d[1], fine[d[0]]))
		})
		core := pairsOf(ops, func(a, b *COp) bool { return a.core && b.core })
		if !full {
			deep := map[string]bool{}
			for _, n := range []string{"tlwe0.Encrypt", "trlwe.Encrypt", "pe.ShallowCopy", "Bootstrap(ctM,ckM)"} {
				deep[n] = true
			}
			same := pairsOf(ops, func(a, b *COp) bool { return a.core && a.name == b.name && deep[a.name] })
			c.Suite("core-two-deviations", prod(len(same), 8), setup, func(i int64) error {
				d := idx(i, len(same), 8)
				e.w.l.use()
				c.Describe(func() string { return e.name(evCopyInner, same[d[0]]) })
				return explore(c, Explore{cfg: rt.Config{CoarseLimit: 1, MaxPoints: 200000}, bound: 2, slice: int64(d[1]), of: 8}, e.exec(evCopyInner, same[d[0]]))
			})
		} else {
			var tr [][]int
			for _, p := range core {
				for k := p[1]; k < len(ops); k++ {
					if ops[k].core && !(ops[k].global && (ops[p[0]].global || ops[p[1]].global)) {
						tr = append(tr, []int{p[0], p[1], k})
					}
				}
			}
			c.Suite("triples", int64(len(tr)), setup, func(i int64) error {
				e.w.l.use()
				c.Describe(func() string { return e.name(evCopyInner, tr[i]) })
				return explore(c, Explore{cfg: rt.Config{CoarseLimit: 1, MaxPoints: 200000}, bound: 1, of: 1}, e.exec(evCopyInner, tr[i]))
			})
		}
		// many threads under way at once, each with an evaluator of its own
		many := 9
		if full {
			many = 17
		}
		c.Suite("many-at-once", prod(len(all), evModes), setup, func(i int64) error {
			d := idx(i, len(all), evModes)
			p := all[d[0]]
			if !full && p[0] != p[1] && !(ops[p[0]].core && ops[p[1]].core) {
				return nil
			}
			e.w.l.use()
			seq := make([]int, many)
			for t := range seq {
				seq[t] = p[t%2]
				if ops[seq[t]].global && t >= 2 {
					seq[t] = p[(t+1)%2]
				}
			}
			if ops[p[0]].global && ops[p[1]].global {
				return nil
			}
			c.Describe(func() string { return fmt.Sprintf("%d threads: %s", many, e.name(d[1], p)) })
			return allAtOnce(c, rt.Config{CoarseLimit: 1, MaxPoints: 2000000}, 0, 1, e.exec(d[1], seq))
		})
		// sizes the shipped levels have: two threads at once at every ring degree and at long ciphertexts
		{
			var self [][]int
			for _, p := range all {
				if p[0] == p[1] {
					self = append(self, p)
				}
			}
			var cur *concEnv
			rad := []int{len(wideSizes), len(self)}
			c.Suite("wide-at-once", prod(rad...), nil, func(i int64) error {
				d := idx(i, rad...)
				z := wideSizes[d[0]]
				if cur == nil || cur.w.l.n0 != z[0] || cur.w.l.n != z[1] {
					cur = newConcEnv(z[0], z[1])
				}
				cur.w.l.use()
				c.Describe(func() string { return fmt.Sprintf("n0=%d N=%d, %s", z[0], z[1], cur.name(evCopyInner, self[d[1]])) })
				for fine := 1; fine <= 2; fine++ {
					g := rt.Config{FineLimit: fine, CoarseLimit: fine, MaxPoints: 4000000, Base: rt.BaseLockstep}
					if err := explore(c, Explore{cfg: g, of: 1}, cur.exec(evCopyInner, self[d[1]])); err != nil {
						return fmt.Errorf("lockstep: %w", err)
					}
				}
				return nil
			})
		}
		// one evaluator per thread, several operations in a row on it
		c.Suite("two-operations-each", prod(len(core)), setup, func(i int64) error {
			e.w.l.use()
			p := core[i]
			if e.ops[p[0]].global || e.ops[p[1]].global {
				return nil
			}
			c.Describe(func() string { return "two in a row: " + e.name(evCopied, p) })
			return explore(c, Explore{cfg: rt.Config{CoarseLimit: 2, MaxPoints: 200000}, bound: 1, of: 1}, func() Exec {
				got := make([][][]T, 4)
				var fs []func()
				for t := 0; t < 2; t++ {
					t := t
					v := e.world(t).view(lut.NewGenerator(4))
					v.ev, v.pe = e.base.ShallowCopy(), e.bpe.ShallowCopy()
					fs = append(fs, func() {
						for k := 0; k < 2; k++ {
							var q [][]T
							for _, x := range e.ops[p[(t+k)%2]].run(v) {
								q = append(q, clone(x))
							}
							got[2*t+k] = q
						}
					})
				}
				return Exec{body: func() { threads(fs...) }, check: func(x *rt.Sched) error {
					return e.judge([]int{p[0], p[1], p[1], p[0]}, 2, got)
				}}
			})
		})
	}
	// free-running
	c.Suite("free-running", int64(len(all)), setup, func(i int64) error {
		e.w.l.use()
		c.Describe(func() string { return e.name(evCopyInner, all[i]) })
		for m := 0; m < evModes; m++ {
			seq := []int{all[i][0], all[i][1], all[i][0], all[i][1]}
			if ops[seq[0]].global || ops[seq[1]].global {
				seq = seq[:2]
			}
			got := make([][][]T, len(seq))
			runFree(e.bodies(m, seq, got))
			c.Op(len(seq))
			c.State(i, m)
			if err := e.judge(seq, 1, got); err != nil {
				return err
			}
		}
		return nil
	})
	const rs = 8
	c.Suite("race-pairs", rs, nil, func(i int64) error {
		c.State("race", i)
		return raceRun(c, "C14", "c14race", 300*time.Second, "-arg", fmt.Sprintf("%d/%d", i, rs))
	})
	c.Suite("race-wide", int64(len(wideSizes)), nil, func(i int64) error {
		c.State("race-wide", i)
		return raceRun(c, "C14", "c14wide", 300*time.Second, "-arg", strconv.Itoa(int(i)))
	})
	c.Suite("race-cold", int64(len(ops)+len(coldFirsts())), nil, func(i int64) error {
		c.State("cold", i)
		return raceRun(c, "C14", "c14cold", 100*time.Second, "-arg", strconv.Itoa(int(i)))
	})
}

func runFree(fs []func()) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, f := range fs {
		f := f
		wg.Add(1)
		go func() { defer wg.Done(); <-start; f() }()
	}
	close(start)
	wg.Wait()
}

func wrong(err error) {
	if err != nil {
		fmt.Println("WRONG:", err)
		os.Exit(3)
	}
}

// coldRace14 runs all pairs free in the race-detector build.
func coldRace14() {
	var sh, of int
	fmt.Sscanf(*coldArg, "%d/%d", &sh, &of)
	e := newConcEnv(1, 16)
	all := pairsOf(e.ops, func(a, b *COp) bool { return true })
	for i := sh; i < len(all); i += of {
		for m := 0; m < evModes; m++ {
			got := make([][][]T, 2)
			runFree(e.bodies(m, all[i], got))
			if err := e.judge(all[i], 1, got); err != nil {
				wrong(fmt.Errorf("%s: %w", e.name(m, all[i]), err))
			}
		}
	}
}

// coldWide14 runs every operation against itself and its neighbours in the alphabet, at one of the wide sizes.
func coldWide14() {
	k, _ := strconv.Atoi(*coldArg)
	e := newConcEnv(wideSizes[k][0], wideSizes[k][1])
	e.late = true
	for _, p := range pairsOf(e.ops, func(a, b *COp) bool { return a.name == b.name }) {
		for _, seq := range [][]int{p, {p[0], (p[0] + 1 + k) % len(e.ops)}} {
			if e.ops[seq[0]].global && e.ops[seq[1]].global {
				continue
			}
			for m := 0; m < evModes; m++ {
				if m != evCopyInner && (seq[0] != seq[1] || e.w.l.n0 > 64) {
					continue
				}
				got := make([][][]T, 2)
				runFree(e.bodies(m, seq, got))
				if err := e.judge(seq, 1, got); err != nil {
					wrong(fmt.Errorf("n0=%d N=%d, %s: %w", e.w.l.n0, e.w.l.n, e.name(m, seq), err))
				}
			}
		}
	}
	wrong(e.unchanged())
}

// coldOp is an operation whose first use in a process is made by several threads at once; it needs no instrumentation.
type coldOp struct {
	name string
	run  func(w *World, t int) [][]T
}

// coldFirsts are first uses beyond the concurrent alphabet: working storage of every size, and every level.
func coldFirsts() []coldOp {
	mul := func(n int, p *poly.Evaluator) []T {
		a, b := p.NewPoly(), p.NewPoly()
		for i := range a.Coeffs {
			a.Coeffs[i], b.Coeffs[i] = T(mix(uint64(i)+7)), T(i%3)
		}
		return p.MulPoly(a, b).Coeffs
	}
	r := []coldOp{
		{"polynomial evaluators of every degree", func(w *World, t int) [][]T {
			var r [][]T
			for n := 32; n <= 2048; n *= 2 {
				r = append(r, mul(n, poly.NewEvaluator(n)))
			}
			return r
		}},
		{"evaluators of every degree", func(w *World, t int) [][]T {
			var r [][]T
			for n := 2048; n >= 32; n /= 2 {
				e := evaluator.NewEvaluator(n)
				r = append(r, mul(n, e.PolyEvaluator), mul(n, e.ShallowCopy().PolyEvaluator))
			}
			return r
		}},
		{"evaluators of different degrees", func(w *World, t int) [][]T {
			r := make([][]T, 4)
			for k := 0; k < 4; k++ {
				j := (k + t) % 4
				r[j] = mul(64<<uint(j), poly.NewEvaluator(64<<uint(j)))
			}
			return r
		}},
		{"tables of every modulus", func(w *World, t int) [][]T {
			var r [][]T
			for m := 2; m <= 8; m++ {
				g := lut.NewGenerator(m)
				x := g.GenLookUpTable(func(x int) int { return m - 1 - x })
				r = append(r, x.Poly.B, []T{T(g.ModSwitch(0x12345678)), T(lut.NewEncoder(m).Encode(m - 1))})
			}
			return r
		}},
	}
	for _, n := range []string{"80", "110", "128", "Uint1", "Uint2", "Uint3", "Uint4", "Uint5"} {
		n := n
		r = append(r, coldOp{"level " + n, func(w *World, t int) [][]T {
			k := key.NewSecretKey()
			ct := tlwe.NewTLWELv0().EncryptBool(true, 0, k.KeyLv0)
			d := T(b2i(ct.DecryptBool(k.KeyLv0)))
			c1 := tlwe.NewTLWELv1().EncryptBool(false, 0, k.KeyLv1)
			d1 := T(b2i(c1.DecryptBool(k.KeyLv1)))
			g := lut.NewGenerator(4).GenLookUpTable(func(x int) int { return 3 - x })
			e := evaluator.NewEvaluator(len(k.KeyLv1))
			y := trgsw.NewTRGSWLv1().EncryptTorus(1, 0, k.KeyLv1, e.PolyEvaluator)
			f := trgsw.NewTRGSWLv1FFT(y, e.PolyEvaluator)
			return [][]T{{d, d1, T(len(k.KeyLv0)), T(len(k.KeyLv1)), T(len(y.TRLWE)), T(len(f.TRLWEFFT))}, g.Poly.B}
		}})
	}
	return r
}

// coldStart14 lets the very first use of an operation in a process happen in several threads at once.
func coldStart14() {
	k, _ := strconv.Atoi(*coldArg)
	ops := concurrentOps()
	if k >= len(ops) {
		op := coldFirsts()[k-len(ops)]
		if n := strings.TrimPrefix(op.name, "level "); n != op.name {
			shipped(n).use()
		}
		const n = 4
		got := make([][][]T, n)
		var fs []func()
		for t := 0; t < n; t++ {
			t := t
			fs = append(fs, func() { got[t] = op.run(nil, t) })
		}
		runFree(fs)
		for t := range got {
			if len(got[t]) != len(got[0]) {
				wrong(fmt.Errorf("%s in %d threads at process start: %d results, %d", op.name, n, len(got[t]), len(got[0])))
			}
			for i := range got[t] {
				if !eq(got[t][i], got[0][i]) {
					wrong(fmt.Errorf("%s in %d threads at process start: threads disagree", op.name, n))
				}
			}
		}
		return
	}
	w := newWorld(tiny(1, 16, shapes[3], 0, 0))
	op := ops[k]
	n := 4
	if op.global {
		n = 1
	}
	ws := []*World{w, w.others()}
	got := make([][][]T, n)
	var fs []func()
	for t := 0; t < n; t++ {
		t := t
		v := ws[t&1].view(lut.NewGenerator(4))
		fs = append(fs, func() {
			v.ev, v.pe = evaluator.NewEvaluator(16), poly.NewEvaluator(16)
			var r [][]T
			for _, p := range op.run(v) {
				r = append(r, clone(p))
			}
			got[t] = r
		})
	}
	runFree(fs)
	for t := 0; t < n && op.valid == nil; t++ {
		v := ws[t&1].view(lut.NewGenerator(4))
		v.ev, v.pe = evaluator.NewEvaluator(16), poly.NewEvaluator(16)
		for i, p := range op.run(v) {
			if i >= len(got[t]) || !eq(got[t][i], p) {
				wrong(fmt.Errorf("%s in %d threads at process start: thread %d does not get what it gets alone afterwards", op.name, n, t+1))
			}
		}
	}
	for t := 0; t < n && op.valid != nil; t++ {
		wrong(op.valid(w, got[t]))
	}
}
