package main

import (
	"fmt"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/poly"
	pre "github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
)

// deBruijn returns a cyclic word over 0..k-1 that contains every word of length n exactly once (FKM algorithm).
func deBruijn(k, n int) []int {
	a := make([]int, k*n)
	var seq []int
	var db func(t, p int)
	db = func(t, p int) {
		if t > n {
			if n%p == 0 {
				seq = append(seq, a[1:p+1]...)
			}
			return
		}
		a[t] = a[t-p]
		db(t+1, p)
		for j := a[t-p] + 1; j < k; j++ {
			a[t] = j
			db(t+1, t)
		}
	}
	db(1, 1)
	return seq
}

// longHistories walks long histories on one set of evaluators that is never replaced: every operation repeated many
// times (with the arguments held, and with them cycling through all content versions), and one walk that contains
// every pair (every triple of the core) of operations. Bounded histories from a fresh start cannot reach counters,
// capacities and wrap-arounds of internal caches; these do.
func longHistories(c *Ctx, name string, mk func() *World, reps int, body func(w *World, ops []WOp, refs map[[2]int][][]T, seq []int) error) {
	ops := worldOps()
	core := coreOps(ops)
	var w *World
	var refs map[[2]int][][]T
	var h uint64
	var tog []int
	for i, o := range ops {
		if o.mut != 0 {
			tog = append(tog, i)
		}
	}
	c.Suite(name, int64(3*len(ops)+3), func() {
		w = mk()
		refs = w.refs(ops)
		w.fresh()
		h = w.argHash()
	}, func(i int64) error {
		w.l.use()
		w.fresh()
		var seq []int
		n := len(ops)
		switch {
		case i < int64(n): // the same call again and again
			for r := 0; r < reps; r++ {
				seq = append(seq, int(i))
			}
		case i < int64(2*n): // the same operation, arguments changing in a cycle of 16
			for r := 0; r < reps; r++ {
				seq = append(seq, int(i)-n)
				for b, t := range tog {
					if (r+1)>>b&1 != r>>b&1 {
						seq = append(seq, t)
					}
				}
			}
		case i < int64(3*n): // once, then many others, then again
			o := int(i) - 2*n
			for _, x := range core {
				seq = append(seq, o)
				for r := 0; r < reps/28; r++ {
					seq = append(seq, x)
				}
			}
			seq = append(seq, o)
		default: // all pairs, in two orders; all triples of the core
			k, m, al := n, 2, allOps(ops)
			if i == int64(3*n+2) {
				k, m, al = len(core), 3, core
			}
			for _, x := range deBruijn(k, m) {
				if i == int64(3*n+1) {
					x = k - 1 - x
				}
				seq = append(seq, al[x])
			}
		}
		c.Describe(func() string {
			s := seq
			if len(s) > 12 {
				s = s[:12]
			}
			return fmt.Sprintf("%s: %d operations: %s...", w.l.name, len(seq), seqName(ops, s))
		})
		c.Op(len(seq))
		if err := body(w, ops, refs, seq); err != nil {
			return err
		}
		if w.argHash() != h {
			return fmt.Errorf("an argument was modified")
		}
		c.Outcome(i)
		return nil
	})
}

// family is an operation with many different arguments.
type family struct {
	name string
	run  func(w *World, k int) [][]T
}

func longFamilies() []family {
	ct := func(w *World, k int) *tlwe.TLWELv0 {
		return mkCt(hashMask(w.l.n0, uint64(k)+900), w.env1.sk.KeyLv0, T(k)*0x05555555+0x10000000)
	}
	ring := func(w *World, k int) *trlwe.TRLWELv1 {
		return &trlwe.TRLWELv1{A: hashMask(w.l.n, uint64(2*k)+70), B: hashMask(w.l.n, uint64(2*k)+71)}
	}
	return []family{
		{"Bootstrap", func(w *World, k int) [][]T {
			ck := w.env1.ck
			return [][]T{clone(w.ev.Bootstrap(ct(w, k), ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset).P)}
		}},
		{"BootstrapLUT, table by table", func(w *World, k int) [][]T {
			ck := w.env1.ck
			g := lut.NewGenerator(2 + k%7)
			t := g.GenLookUpTable(affine(k%5, k/5))
			return [][]T{w.ev.BootstrapLUT(w.ct[k%4], t, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset).P}
		}},
		{"BootstrapFunc, function by function", func(w *World, k int) [][]T {
			ck := w.env1.ck
			return [][]T{w.ev.BootstrapFunc(w.ct[1], affine(k%6, k/6), 2+k%5, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset).P}
		}},
		{"gates", func(w *World, k int) [][]T {
			return [][]T{gates.NAND(ct(w, k), w.ct[k%4], w.env1.ck).P, gates.XOR(w.ct[k%4], ct(w, k), w.env1.ck).P}
		}},
		{"batch", func(w *World, k int) [][]T {
			var r [][]T
			for _, c := range gates.BatchAND([][2]*tlwe.TLWELv0{{ct(w, k), w.ct[0]}, {w.ct[k%4], ct(w, k+1)}}, w.env1.ck) {
				r = append(r, c.P)
			}
			return r
		}},
		{"external products and CMUX", func(w *World, k int) [][]T {
			ck := w.env1.ck
			a, b := trlwe.NewTRLWELv1(), trlwe.NewTRLWELv1()
			w.ev.ExternalProductAssign(ck.BootstrappingKey[k%w.l.n0], ring(w, k), ck.DecompositionOffset, a)
			w.ev.CMuxAssign(ck.BootstrappingKey[k%w.l.n0], ring(w, k), w.rin, ck.DecompositionOffset, b)
			c := trgsw.CMUX(ring(w, k), w.rin, ck.BootstrappingKey[k%w.l.n0], ck.DecompositionOffset, w.pe)
			return [][]T{a.A, a.B, b.A, b.B, clone(c.A), clone(c.B)}
		}},
		{"key switching and extraction", func(w *World, k int) [][]T {
			s := trlwe.SampleExtractIndex(ring(w, k), k%w.l.n)
			return [][]T{s.P, trgsw.IdentityKeySwitching(s, w.env1.ck.KeySwitchingKey).P}
		}},
		{"polynomials", func(w *World, k int) [][]T {
			p := poly.Poly{Coeffs: hashMask(w.l.n, uint64(k)+300)}
			return [][]T{w.pe.MulPoly(p, w.polyS).Coeffs, fcast(w.pe.ToFourierPoly(p).Coeffs), clone(w.pe.PolyMulWithXK(p.Coeffs, k))}
		}},
		{"re-encryption", func(w *World, k int) [][]T { return [][]T{pre.ReencryptTLWELv0(ct(w, k), w.rk).P} }},
		{"tables and encoders", func(w *World, k int) [][]T {
			g := lut.NewGeneratorWithScale(2+k%9, 1/float64(2+k%11))
			t := g.GenLookUpTable(affine(k%3, k/3))
			u := w.gen.GenLookUpTableCustom(affine(k%4, k), 2+k%13, 0.03125)
			return [][]T{t.Poly.B, t.Poly.A, u.Poly.B, u.Poly.A, {g.Encoder.Encode(k), T(g.Encoder.Decode(T(k) * 0x03456789))}}
		}},
	}
}

// manyArguments calls one operation with many different arguments on one evaluator, in four orders, and compares with
// fresh evaluators; with hold, every result is kept and re-read at the end instead.
func manyArguments(c *Ctx, name string, mk func() *World, count int, hold bool) {
	fams := longFamilies()
	orders := []string{"up", "down", "stride", "each three times"}
	var w *World
	refs := map[int][][][]T{}
	c.Suite(name, prod(len(fams), len(orders)), func() {
		w = mk()
		refs = map[int][][][]T{}
	}, func(i int64) error {
		d := idx(i, len(fams), len(orders))
		f := fams[d[0]]
		c.Describe(func() string {
			return fmt.Sprintf("%s %s, %d arguments, order %s", w.l.name, f.name, count, orders[d[1]])
		})
		w.l.use()
		ref := refs[d[0]]
		if ref == nil && !hold {
			for k := 0; k < count; k++ {
				w.fresh()
				var o [][]T
				for _, p := range f.run(w, k) {
					o = append(o, clone(p))
				}
				ref = append(ref, o)
			}
			refs[d[0]] = ref
		}
		w.fresh()
		var held, snap [][][]T
		for s := 0; s < 3*count; s++ {
			k := s % count
			switch d[1] {
			case 1:
				k = count - 1 - k
			case 2:
				k = k * 7 % count
			case 3:
				k = s / 3
			}
			r := f.run(w, k)
			if hold {
				var o [][]T
				for _, p := range r {
					o = append(o, clone(p))
				}
				held, snap = append(held, r), append(snap, o)
			} else if err := cmpRes(own(r...), ref[k]); err != nil {
				return fmt.Errorf("call %d, argument %d: %w", s+1, k, err)
			}
			c.Op(1)
		}
		for s, r := range held {
			if err := cmpRes(own(r...), snap[s]); err != nil {
				return fmt.Errorf("the result of call %d changed later: %w", s+1, err)
			}
		}
		c.Bulk(int64(3 * count))
		c.Outcome(i)
		return nil
	})
}

// slot is a piece of argument storage its owner may rewrite between calls.
type slot struct {
	name string
	n    int
	flip func(w *World, i int) // changes word i; flipping twice restores it
}

func (w *World) slots() []slot {
	var r []slot
	words := func(name string, delta T, f func(w *World) []T) {
		r = append(r, slot{name: name, n: len(f(w)), flip: func(w *World, i int) { f(w)[i] ^= delta }})
	}
	floats := func(name string, f func(w *World) []float64) {
		r = append(r, slot{name: name, n: len(f(w)), flip: func(w *World, i int) { f(w)[i] = -f(w)[i] }})
	}
	words("input ciphertext", 1<<30, func(w *World) []T { return w.ctM.P })
	for k := range w.ct {
		k := k
		words(fmt.Sprintf("input ciphertext %d", k), 1<<30, func(w *World) []T { return w.ct[k].P })
	}
	words("table A", 1<<30, func(w *World) []T { return w.lutM.Poly.A })
	words("table B", 1<<30, func(w *World) []T { return w.lutM.Poly.B })
	words("ring ciphertext A", 1<<30, func(w *World) []T { return w.rinM.A })
	words("ring ciphertext B", 1<<30, func(w *World) []T { return w.rinM.B })
	words("second ring ciphertext A", 1<<30, func(w *World) []T { return w.rin.A })
	words("second ring ciphertext B", 1<<30, func(w *World) []T { return w.rin.B })
	words("level 1 ciphertext", 1<<30, func(w *World) []T { return w.src1.P })
	words("polynomial", 1<<30, func(w *World) []T { return w.polyA.Coeffs })
	words("small polynomial", 1, func(w *World) []T { return w.polyS.Coeffs })
	floats("Fourier polynomial", func(w *World) []float64 { return w.fp1.Coeffs })
	floats("second Fourier polynomial", func(w *World) []float64 { return w.fp2.Coeffs })
	words("level 0 secret key", 1, func(w *World) []T { return w.k0M })
	words("level 1 secret key", 1, func(w *World) []T { return w.k1M })
	for k := range w.rkM.KeyEncryptions {
		k := k
		words(fmt.Sprintf("re-encryption key entry %d", k), 1<<30, func(w *World) []T { return w.rkM.KeyEncryptions[k].P })
	}
	for k := range w.pkM.Encryptions {
		k := k
		words(fmt.Sprintf("public key entry %d", k), 1<<30, func(w *World) []T { return w.pkM.Encryptions[k].P })
	}
	words("test polynomial A", 1<<30, func(w *World) []T { return w.ckM.BlindRotateTestvec.A })
	words("test polynomial B", 1<<30, func(w *World) []T { return w.ckM.BlindRotateTestvec.B })
	for k := range w.ckM.KeySwitchingKey {
		k := k
		words(fmt.Sprintf("key switching key entry %d", k), 1<<30, func(w *World) []T { return w.ckM.KeySwitchingKey[k].P })
	}
	for k, b := range w.ckM.BootstrappingKey {
		for j := range b.TRLWEFFT {
			k, j := k, j
			floats(fmt.Sprintf("bootstrapping key entry %d row %d A", k, j), func(w *World) []float64 { return w.ckM.BootstrappingKey[k].TRLWEFFT[j].A.Coeffs })
			floats(fmt.Sprintf("bootstrapping key entry %d row %d B", k, j), func(w *World) []float64 { return w.ckM.BootstrappingKey[k].TRLWEFFT[j].B.Coeffs })
		}
	}
	return r
}

// pristine is a world with the same argument contents in storage of its own, and new evaluators.
func (w *World) pristine() *World {
	r := *w
	lwe := func(a *tlwe.TLWELv0) *tlwe.TLWELv0 { return &tlwe.TLWELv0{P: clone(a.P)} }
	lwes := func(a []*tlwe.TLWELv0) []*tlwe.TLWELv0 {
		var b []*tlwe.TLWELv0
		for _, x := range a {
			b = append(b, lwe(x))
		}
		return b
	}
	r.ctM, r.ct = lwe(w.ctM), lwes(w.ct)
	r.lutM = &lut.LookUpTable{Poly: cp(w.lutM.Poly)}
	r.rinM, r.rin = cp(w.rinM), cp(w.rin)
	r.src1 = &tlwe.TLWELv1{P: clone(w.src1.P)}
	r.polyA, r.polyS = poly.Poly{Coeffs: clone(w.polyA.Coeffs)}, poly.Poly{Coeffs: clone(w.polyS.Coeffs)}
	r.fp1.Coeffs, r.fp2.Coeffs = append([]float64(nil), w.fp1.Coeffs...), append([]float64(nil), w.fp2.Coeffs...)
	r.k0M, r.k1M = clone(w.k0M), clone(w.k1M)
	r.rkM = &pre.ProxyReencryptionKey{KeyEncryptions: lwes(w.rkM.KeyEncryptions), Base: w.rkM.Base, T: w.rkM.T}
	r.pkM = &pre.PublicKeyLv0{Encryptions: lwes(w.pkM.Encryptions)}
	r.ckM, r.deepOf = &cloudkey.CloudKey{}, nil
	r.refill(w.ckM)
	r.ev, r.pe = evaluator.NewEvaluator(w.l.n), poly.NewEvaluator(w.l.n)
	return &r
}

// wordChanges rewrites one word of one argument in place between two calls, for every word of every argument and every
// operation that reads the argument: the second call must see the new word, and a third one the old word again.
// This decides what whole-argument changes cannot: results remembered under part of an argument's content.
func wordChanges(c *Ctx, name string, mk func() *World) {
	ops := worldOps()
	var w *World
	var slots []slot
	var reads [][]int // operations that read the slot
	start := func() {
		w = mk()
		slots = w.slots()
		for _, s := range slots {
			var r []int
			p := w.pristine()
			base := map[int][][]T{}
			for k := range ops {
				if ops[k].mut == 0 && !ops[k].reset {
					base[k] = copies(p.step(&ops[k]))
				}
			}
			p = w.pristine()
			for i := 0; i < s.n; i++ {
				s.flip(p, i)
			}
			for k := range ops {
				if ops[k].mut == 0 && !ops[k].reset && !eqAll(base[k], copies(p.step(&ops[k]))) {
					r = append(r, k)
				}
			}
			reads = append(reads, r)
		}
	}
	probe := mk()
	c.Suite(name, int64(len(probe.slots())), start, func(i int64) error {
		w.l.use()
		s := slots[i]
		c.Describe(func() string { return fmt.Sprintf("%s: %s", w.l.name, s.name) })
		ref := w.pristine()
		old := map[int][][]T{}
		for _, k := range reads[i] {
			old[k] = copies(ref.step(&ops[k]))
		}
		for j := 0; j < s.n; j++ {
			for _, k := range reads[i] {
				if err := cmpRes(w.step(&ops[k]), old[k]); err != nil {
					return fmt.Errorf("%s with the original %s: %w", ops[k].name, s.name, err)
				}
			}
			s.flip(w, j)
			ref := w.pristine()
			for _, k := range reads[i] {
				if err := cmpRes(w.step(&ops[k]), copies(ref.step(&ops[k]))); err != nil {
					return fmt.Errorf("%s after word %d of the %s was rewritten: %w", ops[k].name, j, s.name, err)
				}
			}
			s.flip(w, j)
			for _, k := range reads[i] {
				if err := cmpRes(w.step(&ops[k]), old[k]); err != nil {
					return fmt.Errorf("%s after word %d of the %s was restored: %w", ops[k].name, j, s.name, err)
				}
				c.State(i, j, k)
			}
			c.Op(4 * len(reads[i]))
		}
		c.Outcome(len(reads[i]))
		return nil
	})
}

func copies(rs []Res) [][]T {
	var o [][]T
	for _, r := range rs {
		o = append(o, clone(r.p))
	}
	return o
}

func eqAll(a, b [][]T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !eq(a[i], b[i]) {
			return false
		}
	}
	return true
}
