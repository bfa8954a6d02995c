package main

import (
	"fmt"
	"runtime"
	"time"

	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
)

func init() {
	register(&Check{ID: "C12", Run: runC12, Level: "model_checking",
		Rule: "A state is a history of operations (with the content versions of the mutable arguments); a transition is one operation of the alphabet; every operation's words in every history are compared with the words of the same call on fresh evaluators, and all arguments are compared with their original content.",
		Bounds: map[string]string{
			"quick":    "alphabet of 53 operations (evaluator, gates, batch, trgsw, poly, encryption, tables, re-encryption, trivial operands, argument and key-material changes between calls); all sequences of length 3 at N=16,n0=2 (L=3 and L=1 gadgets), all sequences of length 4 over the 17-operation core, all pairs at N=1024,n0=3 and N=2048,n0=2, all core pairs at n0=1160; all sequences of length 4 of the operations reading an evaluation key whose entries are overwritten in place between calls; every single word of every argument (ciphertexts, tables, polynomials, secret, evaluation, public and re-encryption keys) rewritten in place between two calls of every operation reading it; histories of 1100 repetitions of each operation (arguments held, cycling, and interleaved with each core operation) and de Bruijn walks through all pairs and all core triples on evaluators never replaced; ten operation families with 300 different arguments each in four orders",
			"thorough": "all sequences of length 4 over the full alphabet, length 6 over the core; 4200 repetitions, 1100 arguments",
		},
		Assumptions: []string{"references come from the same build (this property is about history dependence, not about correctness, which C01-C11 decide)"}})
	register(&Check{ID: "C13", Run: runC13, Level: "model_checking",
		Rule: "A state is a history of operations together with all results still held; a transition is one operation; after every operation every live result (caller-owned: forever; temporary: through the next three bootstrap operations of the same evaluator) is re-read and compared with what it was when returned, results are checked to share no storage, and scribbling over an owned result must not influence any later operation.",
		Bounds: map[string]string{
			"quick":    "alphabet of 53 operations; all sequences of length 3 at N=16,n0=2, all sequences of length 5 over the bootstrap operations, all ordered pairs with the first result scribbled, all pairs at N=1024 and N=2048, all core pairs at n0=1160; the long histories and many-argument families of C12 with all results held to the end; results of every operation held while their evaluators are garbage collected and replaced",
			"thorough": "length 4 over the full alphabet, length 7 over the bootstrap operations, all triples scribbled",
		},
		Assumptions: []string{"results of trgsw.CMUX/BlindRotate/ExternalProductWithFFT and of pooled rotations live in their evaluator by design and are not held"}})
}

func coreOps(ops []WOp) []int {
	var r []int
	for i, o := range ops {
		if o.core {
			r = append(r, i)
		}
	}
	return r
}

// sequences runs all sequences of the given alphabet and depth; the shard unit is the first two operations.
func sequences(c *Ctx, name string, mk func() *World, alphabet func(ops []WOp) []int, depth int, body func(w *World, ops []WOp, refs map[[2]int][][]T, seq []int) error) {
	ops := worldOps()
	al := alphabet(ops)
	first := 2
	if depth < 2 {
		first = depth
	}
	var w *World
	var refs map[[2]int][][]T
	var h uint64
	total := int64(1)
	for i := 0; i < first; i++ {
		total *= int64(len(al))
	}
	rest := 1
	for i := first; i < depth; i++ {
		rest *= len(al)
	}
	c.Suite(name, total, func() {
		w = mk()
		refs = w.refs(ops)
		w.fresh()
		h = w.argHash()
	}, func(i int64) error {
		w.l.use()
		seq := make([]int, depth)
		x := i
		for k := 0; k < first; k++ {
			seq[k] = al[x%int64(len(al))]
			x /= int64(len(al))
		}
		c.Describe(func() string { return w.l.name + ": " + seqName(ops, seq) })
		for r := 0; r < rest; r++ {
			y := r
			for k := first; k < depth; k++ {
				seq[k] = al[y%len(al)]
				y /= len(al)
			}
			w.fresh()
			if err := body(w, ops, refs, seq); err != nil {
				return fmt.Errorf("sequence [%s]: %w", seqName(ops, seq), err)
			}
			if r%16 == 15 || r == rest-1 {
				if w.argHash() != h {
					return fmt.Errorf("sequence [%s] (or one just before): an argument was modified", seqName(ops, seq))
				}
			}
			c.Op(depth)
		}
		c.Bulk(int64(rest))
		c.Outcome(i)
		return nil
	})
}

func historyBody(w *World, ops []WOp, refs map[[2]int][][]T, seq []int) error {
	for k, o := range seq {
		op := &ops[o]
		if op.mut != 0 || op.reset {
			w.step(op)
			continue
		}
		m := w.mutHash()
		rs := w.step(op)
		if err := cmpRes(rs, refs[[2]int{o, w.ver}]); err != nil {
			return fmt.Errorf("step %d (%s): %w", k+1, op.name, err)
		}
		if w.mutHash() != m {
			return fmt.Errorf("step %d (%s) modified an argument", k+1, op.name)
		}
	}
	return nil
}

func allOps(ops []WOp) []int {
	r := make([]int, len(ops))
	for i := range r {
		r[i] = i
	}
	return r
}

func bootOps(ops []WOp) []int {
	var r []int
	for i, o := range ops {
		if o.boot || o.reset || o.name == "toggle ctM" || o.name == "NAND(ctM,ct0,ckM)" || o.name == "BlindRotateAssign(ctM,lutM)" {
			r = append(r, i)
		}
	}
	return r
}

func smallWorld(n0, n int, sh int) func() *World {
	return func() *World { return newWorld(tiny(n0, n, shapes[sh], 0, 0)) }
}

func runC12(c *Ctx) {
	d1, d2 := 3, 4
	if c.thorough() {
		d1, d2 = 4, 6
	}
	sequences(c, "all-L3", smallWorld(2, 16, 2), allOps, d1, historyBody)
	sequences(c, "all-L1", smallWorld(3, 16, 4), allOps, 3, historyBody)
	sequences(c, "core", smallWorld(2, 16, 3), coreOps, d2, historyBody)
	sequences(c, "pairs-N1024", smallWorld(3, 1024, 2), allOps, 2, historyBody)
	sequences(c, "pairs-N2048", smallWorld(2, 2048, 4), allOps, 2, historyBody)
	sequences(c, "core-pairs-n1160", smallWorld(1160, 16, 3), coreOps, 2, historyBody)
	refilled := func(ops []WOp) []int { // what reads the evaluation key, and the change of its contents
		var r []int
		for i, o := range ops {
			switch o.name {
			case "toggle ckM", "Bootstrap(ctM,ckM)", "BootstrapLUTTemp(ctM,lutM)", "BootstrapLUT(ctM,lutM)", "BootstrapLUTAssign(ctM,lutM)", "BlindRotateAssign(ctM,lutM)", "CMuxAssign(rinM,rin)", "ExternalProductAssign(rinM)",
				"NewEvaluator+BootstrapLUT", "NAND(ctM,ct0,ckM)", "AND,OR,ANDNY,ORYN", "BatchNAND", "BatchBlindRotate", "trgsw.BlindRotate", "trgsw.CMUX", "trgsw.ExternalProductWithFFT", "KeySwitching", "ResetBuffers":
				r = append(r, i)
			}
		}
		return r
	}
	sequences(c, "refilled-key", deepWorld(2, 16, 2), refilled, d2, historyBody)
	sequences(c, "refilled-key-N1024", deepWorld(2, 1024, 4), refilled, 3, historyBody)
	reps, count := 1100, 300
	if c.thorough() {
		reps, count = 4200, 1100
	}
	wordChanges(c, "word-changes", deepWorld(2, 16, 2))
	longHistories(c, "long-histories", smallWorld(2, 16, 2), reps, historyBody)
	manyArguments(c, "many-arguments", smallWorld(2, 16, 2), count, false)
	manyArguments(c, "many-arguments-N1024", smallWorld(2, 1024, 2), count/4, false)
}

type heldRes struct {
	p, snap []T
	left    int // remaining bootstrap operations; -1 forever
	from    string
}

func lifetimeBody(w *World, ops []WOp, refs map[[2]int][][]T, seq []int) error {
	var held []heldRes
	args := w.args()
	for k, o := range seq {
		op := &ops[o]
		rs := w.step(op)
		alive := held[:0]
		for _, h := range held {
			if op.boot && h.left > 0 {
				h.left--
			} else if op.boot && h.left == 0 {
				continue // lifetime over
			}
			if op.reset && h.left >= 0 {
				continue
			}
			if !eq(h.p, h.snap) {
				return fmt.Errorf("step %d (%s) changed the result of %s", k+1, op.name, h.from)
			}
			alive = append(alive, h)
		}
		held = alive
		for ri, r := range rs {
			for _, h := range held {
				if overlap(r.p, h.p) {
					return fmt.Errorf("step %d (%s) returned storage that is still held as the result of %s", k+1, op.name, h.from)
				}
			}
			if !r.temp {
				for ai, a := range args {
					if overlap(r.p, a) {
						return fmt.Errorf("step %d (%s): result %d shares storage with argument %d", k+1, op.name, ri, ai)
					}
				}
			}
			left := -1
			if r.temp {
				left = 3
			}
			held = append(held, heldRes{r.p, clone(r.p), left, fmt.Sprintf("step %d (%s)", k+1, op.name)})
		}
	}
	return nil
}

// scribbleBody overwrites every caller-owned result right after it is returned.
func scribbleBody(w *World, ops []WOp, refs map[[2]int][][]T, seq []int) error {
	for k, o := range seq {
		op := &ops[o]
		rs := w.step(op)
		if op.mut == 0 && !op.reset {
			if err := cmpRes(rs, refs[[2]int{o, w.ver}]); err != nil {
				return fmt.Errorf("step %d (%s), after earlier results were overwritten by their owner: %w", k+1, op.name, err)
			}
		}
		for _, r := range rs {
			if r.temp {
				continue
			}
			for j := range r.p {
				r.p[j] ^= 0xA5A5A5A5
			}
		}
	}
	return nil
}

func runC13(c *Ctx) {
	d1, d2, d3 := 3, 5, 2
	if c.thorough() {
		d1, d2, d3 = 4, 7, 3
	}
	sequences(c, "all-L3", smallWorld(2, 16, 2), allOps, d1, lifetimeBody)
	sequences(c, "bootstraps", smallWorld(1, 16, 4), bootOps, d2, lifetimeBody)
	sequences(c, "scribble", smallWorld(2, 16, 3), allOps, d3, scribbleBody)
	sequences(c, "pairs-N1024", smallWorld(3, 1024, 2), allOps, 2, lifetimeBody)
	sequences(c, "pairs-N2048", smallWorld(2, 2048, 4), allOps, 2, lifetimeBody)
	sequences(c, "core-pairs-n1160", smallWorld(1160, 16, 3), coreOps, 2, lifetimeBody)
	sequences(c, "scribble-N1024", smallWorld(2, 1024, 2), allOps, 2, scribbleBody)
	reps, count := 1100, 300
	if c.thorough() {
		reps, count = 4200, 1100
	}
	longHistories(c, "long-histories", smallWorld(2, 16, 2), reps, lifetimeBody)
	manyArguments(c, "many-arguments", smallWorld(2, 16, 2), count, true)
	collected(c, "collected-evaluators", smallWorld(2, 16, 2))
	collected(c, "collected-evaluators-N1024", smallWorld(2, 1024, 2))
	batchSharing(c)
}

// collected holds the results of every operation while the evaluators that made them are dropped and reclaimed by the
// garbage collector (finalizers included) and others take their place.
func collected(c *Ctx, name string, mk func() *World) {
	ops := worldOps()
	var w *World
	var refs map[[2]int][][]T
	c.Suite(name, int64(len(ops)), func() {
		w = mk()
		refs = w.refs(ops)
	}, func(i int64) error {
		w.l.use()
		if ops[i].mut != 0 || ops[i].reset {
			return nil
		}
		c.Describe(func() string { return w.l.name + ": " + ops[i].name + ", then other operations on evaluators made after a garbage collection" })
		var held []heldRes
		hold := func(o int) error {
			rs := w.step(&ops[o])
			if err := cmpRes(rs, refs[[2]int{o, w.ver}]); err != nil {
				return fmt.Errorf("%s: %w", ops[o].name, err)
			}
			for _, r := range rs {
				held = append(held, heldRes{p: r.p, snap: clone(r.p), from: ops[o].name})
			}
			c.Op(1)
			return nil
		}
		intact := func(after string) error {
			for _, h := range held {
				if !eq(h.p, h.snap) {
					return fmt.Errorf("the result of %s changed after its evaluator had been collected (%s)", h.from, after)
				}
			}
			return nil
		}
		w.fresh()
		for r := 0; r < 3; r++ {
			if err := hold(int(i)); err != nil {
				return err
			}
		}
		for round := 0; round < 3; round++ {
			w.fresh()
			for k := 0; k < 3; k++ {
				runtime.GC()
				time.Sleep(time.Millisecond) // finalizers run in a goroutine of their own
			}
			for o := range ops {
				if ops[o].mut != 0 || ops[o].reset || w.l.n > 64 && (o+int(i))%4 != round {
					continue
				}
				if err := cmpRes(w.step(&ops[o]), refs[[2]int{o, w.ver}]); err != nil {
					return fmt.Errorf("%s on a fresh evaluator: %w", ops[o].name, err)
				}
				c.Op(1)
				if err := intact(ops[o].name); err != nil {
					return err
				}
			}
			c.State(i, round)
		}
		return nil
	})
}

// batchSharing gives the batch calls the same objects in several places: each result must be an object of its own.
func batchSharing(c *Ctx) {
	var w *World
	const objs = 729 // every assignment of 6 operand slots to 3 objects
	ng := len(batch2) + 1
	c.Suite("batch-sharing", prod(objs, ng), func() { w = smallWorld(2, 16, 2)() }, func(i int64) error {
		d := idx(i, objs, ng)
		w.l.use()
		var slots [6]int
		for j, x := 0, d[0]; j < 6; j, x = j+1, x/3 {
			slots[j] = x % 3
		}
		name := "BatchBlindRotate"
		if d[1] < len(batch2) {
			name = batch2[d[1]].name
		}
		c.Describe(func() string { return fmt.Sprintf("%s, operand slots hold objects %v", name, slots) })
		obj := []*tlwe.TLWELv0{w.ct[0], w.ct[1], w.ct[2]}
		call := func() [][]T {
			var r [][]T
			if d[1] < len(batch2) {
				var in [][2]*tlwe.TLWELv0
				for j := 0; j < 6; j += 2 {
					in = append(in, [2]*tlwe.TLWELv0{obj[slots[j]], obj[slots[j+1]]})
				}
				for _, o := range batch2[d[1]].f(in, w.env1.ck) {
					r = append(r, o.P)
				}
				return r
			}
			var in []*tlwe.TLWELv0
			for _, s := range slots {
				in = append(in, obj[s])
			}
			for _, o := range trgsw.BatchBlindRotate(in, w.lutA.Poly, w.env1.ck.BootstrappingKey, w.env1.ck.DecompositionOffset) {
				r = append(r, o.A, o.B)
			}
			return r
		}
		h := w.argHash()
		r := call()
		c.Op(2)
		c.State(d)
		var snap [][]T
		for j, p := range r {
			snap = append(snap, clone(p))
			for k := 0; k < j; k++ {
				if overlap(p, r[k]) {
					return fmt.Errorf("results %d and %d share storage", k, j)
				}
			}
			for k, a := range w.args() {
				if overlap(p, a) {
					return fmt.Errorf("result %d shares storage with argument %d", j, k)
				}
			}
		}
		for _, p := range r { // the owner overwrites every result
			for j := range p {
				p[j] ^= 0xA5A5A5A5
			}
		}
		again := call()
		if len(again) != len(snap) {
			return fmt.Errorf("%d results, %d before", len(again), len(snap))
		}
		for j := range again {
			if !eq(again[j], snap[j]) {
				return fmt.Errorf("result %d differs after the earlier results were overwritten by their owner", j)
			}
			for k := range r {
				if overlap(again[j], r[k]) {
					return fmt.Errorf("result %d is stored over a result of the earlier call", j)
				}
			}
		}
		if w.argHash() != h {
			return fmt.Errorf("an argument was modified")
		}
		return nil
	})
}
