package main

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"

	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/poly"
)

func init() {
	register(&Check{ID: "C23", Run: runC23, Level: "model_checking",
		Rule: "A state is the history of pool hand-outs, resets and buffer operations of one evaluator (or buffer manager) together with the contents of every buffer handed out so far and of the named Fourier buffers; a transition is one call; every history is replayed on a reference model (a ring of slots; exact negacyclic arithmetic for the accumulators) and every value read back is compared with it.",
		Bounds: map[string]string{
			"quick":    "hand-outs: all sequences of 8 calls over {rotation, ring, reset rotation, reset ring, rotate-by-X^k} for poly.Evaluator and {rotation, ring, reset} for poly.BufferManager, all sequences of 8 over {result, reset, bootstrap} for evaluator.BufferPool; accumulators: all sequences of 4 out of 15 buffer operations; storage disjointness of every two evaluators (new, shallow copies, copies of copies) at 7 ring degrees and every shipped gadget shape, and of 80 evaluators alive at once made in each of 6 ways",
			"thorough": "hand-outs of length 10, accumulator sequences of length 5, 1040 evaluators alive at once",
		},
		Assumptions: []string{"a buffer handed out counts as owned through the next three hand-outs of the same pool without a reset in between", "the content of a named buffer is undefined after it was converted back (documented as destructive) until it is cleared"}})
}

// slices collects every non-empty numeric slice reachable from v (exported and unexported fields).
func slices(v reflect.Value, path string, out map[string][2]uintptr) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			slices(v.Elem(), path, out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			slices(v.Field(i), path+"."+v.Type().Field(i).Name, out)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			slices(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	case reflect.Slice:
		switch v.Type().Elem().Kind() {
		case reflect.Uint32, reflect.Float64, reflect.Uint64, reflect.Int32:
			if v.Len() > 0 {
				out[path] = [2]uintptr{v.Pointer(), v.Pointer() + uintptr(v.Len())*v.Type().Elem().Size()}
			}
		default:
			for i := 0; i < v.Len(); i++ {
				slices(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
			}
		}
	}
}

func disjoint(a, b map[string][2]uintptr) error {
	for x, p := range a {
		for y, q := range b {
			if p[0] < q[1] && q[0] < p[1] {
				return fmt.Errorf("%s of one evaluator is stored over %s of the other", x, y)
			}
		}
	}
	return nil
}

// polyHandouts collects the working storage of a polynomial evaluator that its methods hand out.
func polyHandouts(p *poly.Evaluator, l int) map[string][2]uintptr {
	m := map[string][2]uintptr{}
	for i := 0; i < 4; i++ {
		slices(reflect.ValueOf(p.GetRotationBuffer()), fmt.Sprintf("rotation buffer %d", i), m)
		a, b := p.GetTRLWEBuffer()
		slices(reflect.ValueOf(a), fmt.Sprintf("ring buffer %d A", i), m)
		slices(reflect.ValueOf(b), fmt.Sprintf("ring buffer %d B", i), m)
	}
	for i := 0; i < 2*l; i++ {
		slices(reflect.ValueOf(p.GetDecompBuffer(i)), fmt.Sprintf("decomposition buffer %d", i), m)
		slices(reflect.ValueOf(p.GetDecompFFTBuffer(i)), fmt.Sprintf("Fourier decomposition buffer %d", i), m)
	}
	return m
}

func selfDisjoint(m map[string][2]uintptr) error {
	for x, p := range m {
		for y, q := range m {
			if x < y && p[0] < q[1] && q[0] < p[1] {
				return fmt.Errorf("%s is stored over %s", x, y)
			}
		}
	}
	return nil
}

func runC23(c *Ctx) {
	full := c.thorough()
	const N = 16
	fill := func(b []T, seed int) {
		for i := range b {
			b[i] = T(mix(uint64(seed)*131 + uint64(i)))
		}
	}
	type held struct {
		buf  []T
		snap []T
		kind int // pool
		what string
	}
	// hold checks that every live buffer still has its content, then takes the new ones
	live := func(h []held) error {
		for _, x := range h {
			if !eq(x.buf, x.snap) {
				return fmt.Errorf("%s was changed while owned", x.what)
			}
		}
		return nil
	}
	take := func(h []held, kind, step int, bufs ...[]T) ([]held, error) {
		for k, b := range bufs {
			if len(b) != N {
				return h, fmt.Errorf("step %d: buffer of %d words, want %d", step, len(b), N)
			}
			for _, x := range h {
				if overlap(x.buf, b) {
					return h, fmt.Errorf("step %d hands out storage of %s, still owned", step, x.what)
				}
			}
			for j := 0; j < k; j++ {
				if overlap(bufs[j], b) {
					return h, fmt.Errorf("step %d: both components share storage", step)
				}
			}
		}
		for k, b := range bufs {
			fill(b, step*10+k)
			h = append(h, held{b, clone(b), kind, fmt.Sprintf("step %d", step)})
		}
		// a pool's buffer is owned through the next three hand-outs of that pool
		n := 0
		per := len(bufs)
		for i := len(h) - 1; i >= 0; i-- {
			if h[i].kind == kind {
				if n++; n > 4*per {
					h = append(h[:i:i], h[i+1:]...)
				}
			}
		}
		return h, nil
	}
	drop := func(h []held, kind int) []held {
		var r []held
		for _, x := range h {
			if x.kind != kind {
				r = append(r, x)
			}
		}
		return r
	}
	trim3 := func(h []held, kind, per int) []held { // before a hand-out: keep the last three of that pool
		n := 0
		for i := len(h) - 1; i >= 0; i-- {
			if h[i].kind == kind {
				if n++; n > 3*per {
					h = append(h[:i:i], h[i+1:]...)
				}
			}
		}
		return h
	}
	depth := 8
	if full {
		depth = 10
	}
	// 1. poly.Evaluator pools
	{
		rad := []int{5, 5}
		for k := 2; k < depth; k++ {
			rad = append(rad, 5)
		}
		head := rad[:4]
		rest := int(prod(rad[4:]...))
		names := []string{"GetRotationBuffer", "GetTRLWEBuffer", "ResetRotationPool", "ResetTRLWEPool", "PolyMulWithXK"}
		c.Suite("poly-pools", prod(head...), nil, func(i int64) error {
			l := tiny(2, N, shapes[2], 0, 0)
			l.use()
			src := make([]T, N)
			fill(src, 99)
			want := rotate(src, 5)
			e := poly.NewEvaluator(N)
			for r := 0; r < rest; r++ {
				seq := append(idx(i, head...), idx(int64(r), rad[4:]...)...)
				c.Describe(func() string {
					s := ""
					for _, o := range seq {
						s += names[o] + " "
					}
					return s
				})
				e.ResetRotationPool()
				e.ResetTRLWEPool()
				if (r+int(i))%17 == 0 {
					e = poly.NewEvaluator(N)
				}
				var h []held
				var err error
				for s, o := range seq {
					switch o {
					case 0, 4:
						h = trim3(h, 0, 1)
						var b []T
						if o == 0 {
							b = e.GetRotationBuffer()
						} else {
							b = e.PolyMulWithXK(src, 5)
							if d, at := maxDist(b, want); d > 1 {
								return fmt.Errorf("PolyMulWithXK wrong at %d", at)
							}
						}
						if err = live(h); err != nil {
							return err
						}
						h, err = take(h, 0, s+1, b)
					case 1:
						h = trim3(h, 1, 2)
						a, b := e.GetTRLWEBuffer()
						if err = live(h); err != nil {
							return err
						}
						h, err = take(h, 1, s+1, a, b)
					case 2:
						e.ResetRotationPool()
						h = drop(h, 0)
					case 3:
						e.ResetTRLWEPool()
						h = drop(h, 1)
					}
					if err != nil {
						return err
					}
					if err = live(h); err != nil {
						return err
					}
				}
				c.Op(len(seq))
			}
			c.Bulk(int64(rest))
			c.Outcome(i)
			return nil
		})
	}
	// 2. poly.BufferManager
	{
		rad := []int{3, 3, 3}
		rest := int(prod([]int{3, 3, 3, 3, 3, 3, 3}[:depth-3]...))
		c.Suite("buffer-manager", prod(rad...), nil, func(i int64) error {
			l := tiny(2, N, shapes[2], 0, 0)
			l.use()
			tl := []int{3, 3, 3, 3, 3, 3, 3}[:depth-3]
			for r := 0; r < rest; r++ {
				seq := append(idx(i, rad...), idx(int64(r), tl...)...)
				c.Describe(func() string { return fmt.Sprint(seq) })
				bm := poly.NewBufferManager(N)
				var h []held
				var err error
				for s, o := range seq {
					switch o {
					case 0:
						h = trim3(h, 0, 1)
						h, err = take(h, 0, s+1, bm.GetRotationBuffer().Coeffs)
					case 1:
						h = trim3(h, 1, 2)
						a, b := bm.GetTRLWEBuffer()
						h, err = take(h, 1, s+1, a, b)
					case 2:
						bm.Reset()
						h = nil
					}
					if err != nil {
						return err
					}
					if err = live(h); err != nil {
						return err
					}
				}
				c.Op(len(seq))
			}
			c.Bulk(int64(rest))
			c.Outcome(i)
			return nil
		})
	}
	// 3. evaluator.BufferPool results
	{
		rad := []int{3, 3, 3}
		tl := []int{3, 3, 3, 3, 3}
		rest := int(prod(tl...))
		c.Suite("result-pool", prod(rad...), nil, func(i int64) error {
			l := tiny(2, N, shapes[2], 0, 0)
			l.use()
			env := newGateEnv(l, []T{1, 0}, hashKey(N, 3))
			l.use()
			in := mkCt([]T{0x30000000, 0x50000000}, env.sk.KeyLv0, bphase(true))
			e := evaluator.NewEvaluator(N)
			for r := 0; r < rest; r++ {
				seq := append(idx(i, rad...), idx(int64(r), tl...)...)
				c.Describe(func() string { return fmt.Sprint(seq) })
				e.ResetBuffers()
				var h []held
				for s, o := range seq {
					var b []T
					switch o {
					case 0:
						b = e.Buffers.GetNextResult().P
					case 1:
						b = e.Bootstrap(in, env.ck.BlindRotateTestvec, env.ck.BootstrappingKey, env.ck.KeySwitchingKey, env.ck.DecompositionOffset).P
						if int32(phase0(b, env.sk.KeyLv0)) < 0 {
							return fmt.Errorf("step %d: bootstrap of true gives phase %08x", s+1, uint32(phase0(b, env.sk.KeyLv0)))
						}
					case 2:
						e.ResetBuffers()
						h = nil
						continue
					}
					h = trim3(h, 0, 1)
					if len(b) != l.n0+1 {
						return fmt.Errorf("result buffer of %d words", len(b))
					}
					for _, x := range h {
						if overlap(x.buf, b) {
							return fmt.Errorf("step %d hands out the result of %s, still owned", s+1, x.what)
						}
					}
					if err := live(h); err != nil {
						return err
					}
					fill(b, s+1)
					h = append(h, held{b, clone(b), 0, fmt.Sprintf("step %d", s+1)})
				}
				c.Op(len(seq))
			}
			c.Bulk(int64(rest))
			c.Outcome(i)
			return nil
		})
	}
	// 4. named Fourier buffers and decomposition buffers against an exact model
	for _, N := range []int{16, 32, 64, 128, 256, 512, 1024, 2048, 4096} {
		p0, p1, p2 := make([]T, N), make([]T, N), make([]T, N)
		for j := 0; j < N; j++ {
			p0[j] = T(int32(j%7) - 3)
			p1[j] = T(int32(mix(uint64(j))%9) - 4)
			p2[j] = T(int32(mix(uint64(j)+77) % 1000))
		}
		names := []string{"clear Acc", "clear Bcc", "clear Diff", "Acc+=d0*k", "Acc+=d5*k2", "Bcc+=d0*k2", "Bcc+=d5*k", "d0=FFT(p0)", "d5=FFT(p1)", "d0=FFT(copy p2)", "d5=FFT(copy p0)", "read Acc", "read Bcc", "clear Mul1", "product elsewhere"}
		no := len(names)
		dep := 4
		if full {
			dep = 5
		}
		rad := []int{no, no}
		tl := []int{no, no, no}[:dep-2]
		name := "accumulators"
		if N > 16 {
			tl = nil
			name = fmt.Sprintf("accumulators-%d", N)
		}
		rest := int(prod(tl...))
		c.Suite(name, prod(rad...), nil, func(i int64) error {
			l := tiny(2, N, shapes[2], 0, 0)
			l.use()
			ref := poly.NewEvaluator(N)
			mk := func(p []T) poly.FourierPoly { return ref.ToFourierPoly(poly.Poly{Coeffs: clone(p)}) }
			k1, k2 := mk(p2), mk(p1)
			add := func(a, b []T) []T {
				r := clone(a)
				for j := range r {
					r[j] += b[j]
				}
				return r
			}
			zero := make([]T, N)
			memo := map[[2]*T][]T{}
			negMul := func(a, b []T) []T {
				k := [2]*T{&a[0], &b[0]}
				if memo[k] == nil {
					if &a[0] == &zero[0] {
						memo[k] = zero
					} else {
						memo[k] = negMul(a, b)
					}
				}
				return memo[k]
			}
			for r := 0; r < rest; r++ {
				seq := append(idx(i, rad...), idx(int64(r), tl...)...)
				c.Describe(func() string {
					s := ""
					for _, o := range seq {
						s += names[o] + "; "
					}
					return s
				})
				e := poly.NewEvaluator(N)
				// model: nil = undefined
				acc, bcc := clone(zero), clone(zero)
				d0, d5 := zero, zero
				h1, h2 := fnvF(0, k1.Coeffs), fnvF(0, k2.Coeffs)
				for s, o := range append(seq, 11, 12) {
					switch o {
					case 0:
						e.ClearBuffer("fpAcc")
						acc = clone(zero)
					case 1:
						e.ClearBuffer("fpBcc")
						bcc = clone(zero)
					case 2:
						e.ClearBuffer("fpDiff")
						out := make([]T, N)
						fill(out, 3)
						e.BufferToPolyAssign("fpDiff", out)
						if !eq(out, zero) {
							return fmt.Errorf("step %d: a cleared fpDiff reads %v", s+1, out)
						}
					case 3:
						e.MulAddFourierPolyAssignBuffered(0, k1, "fpAcc")
						if acc != nil {
							acc = add(acc, negMul(d0, p2))
						}
					case 4:
						e.MulAddFourierPolyAssignBuffered(5, k2, "fpAcc")
						if acc != nil {
							acc = add(acc, negMul(d5, p1))
						}
					case 5:
						e.MulAddFourierPolyAssignBuffered(0, k2, "fpBcc")
						if bcc != nil {
							bcc = add(bcc, negMul(d0, p1))
						}
					case 6:
						e.MulAddFourierPolyAssignBuffered(5, k1, "fpBcc")
						if bcc != nil {
							bcc = add(bcc, negMul(d5, p2))
						}
					case 7:
						e.ToFourierPolyInBuffer(poly.Poly{Coeffs: p0}, 0)
						d0 = p0
					case 8:
						e.ToFourierPolyInBuffer(poly.Poly{Coeffs: p1}, 5)
						d5 = p1
					case 9, 10:
						src, at := p2, 0
						if o == 10 {
							src, at = p0, 5
						}
						e.CopyToDecompBuffer(src, at)
						if b := e.GetDecompBuffer(at).Coeffs; !eq(b, src) || overlap(b, src) {
							return fmt.Errorf("step %d: decomposition buffer %d holds %v after copying %v", s+1, at, b, src)
						}
						e.ToFourierPolyInBuffer(*e.GetDecompBuffer(at), at)
						if o == 9 {
							d0 = src
						} else {
							d5 = src
						}
						g := e.ToPoly(*e.GetDecompFFTBuffer(at)).Coeffs
						if !eq(g, src) {
							return fmt.Errorf("step %d: Fourier decomposition buffer %d transforms back to %v, want %v", s+1, at, g, src)
						}
					case 11, 12:
						name, m := "fpAcc", acc
						if o == 12 {
							name, m = "fpBcc", bcc
						}
						out := make([]T, N)
						fill(out, 4)
						e.BufferToPolyAssign(name, out)
						if m != nil && !eq(out, m) {
							return fmt.Errorf("step %d: %s reads %v, accumulated %v", s+1, name, out, m)
						}
						if o == 11 {
							acc = nil
						} else {
							bcc = nil
						}
					case 13:
						e.ClearBuffer("fpMul1")
						e.ClearBuffer("fpMul2")
					case 14:
						g := e.MulPoly(poly.Poly{Coeffs: p0}, poly.Poly{Coeffs: p2})
						if !eq(g.Coeffs, negMul(p0, p2)) {
							return fmt.Errorf("step %d: product wrong", s+1)
						}
						e.PolyMulWithXK(p0, 3)
						a, b := e.GetTRLWEBuffer()
						fill(a, 1)
						fill(b, 2)
						e.ClearTRLWEBuffer(a, b)
						if !eq(a, zero) || !eq(b, zero) {
							return fmt.Errorf("step %d: ClearTRLWEBuffer left %v %v", s+1, a, b)
						}
					}
				}
				if fnvF(0, k1.Coeffs) != h1 || fnvF(0, k2.Coeffs) != h2 {
					return fmt.Errorf("an operand was modified")
				}
				c.Op(len(seq) + 2)
			}
			c.Bulk(int64(rest))
			c.Outcome(i)
			return nil
		})
	}
	// allocators: N zero coefficients each, nothing shared
	{
		degs := []int{16, 32, 64, 128, 256, 512, 1024, 2048, 4096}
		c.Suite("allocators", int64(len(degs)), nil, func(i int64) error {
			n := degs[i]
			e := poly.NewEvaluator(n)
			var ps [][]T
			var fs [][]float64
			for k := 0; k < 3; k++ {
				ps = append(ps, poly.NewPoly(n).Coeffs, poly.NewPolyAligned(n).Coeffs, e.NewPoly().Coeffs)
				fs = append(fs, poly.NewFourierPoly(n).Coeffs, poly.NewFourierPolyAligned(n).Coeffs, e.NewFourierPoly().Coeffs)
			}
			m := map[string][2]uintptr{}
			for k, p := range ps {
				if !eq(p, make([]T, n)) {
					return fmt.Errorf("degree %d: allocation %d is not a zero polynomial of the degree (%d coefficients)", n, k, len(p))
				}
				slices(reflect.ValueOf(p), fmt.Sprintf("polynomial %d", k), m)
			}
			for k, f := range fs {
				if len(f) != n {
					return fmt.Errorf("degree %d: Fourier allocation %d has %d values", n, k, len(f))
				}
				for _, x := range f {
					if x != 0 {
						return fmt.Errorf("degree %d: Fourier allocation %d is not zero", n, k)
					}
				}
				slices(reflect.ValueOf(f), fmt.Sprintf("Fourier polynomial %d", k), m)
			}
			if err := selfDisjoint(m); err != nil {
				return err
			}
			// clearing and copying reach every position
			for k := range fs {
				for j := range fs[k] {
					fs[k][j], ps[k][j] = float64(j+1), T(j+1)
				}
				f := poly.FourierPoly{Coeffs: fs[k]}
				p := poly.Poly{Coeffs: ps[k]}
				f2, p2 := f.Copy(), p.Copy()
				f3, p3 := poly.NewFourierPoly(n), poly.NewPoly(n)
				f3.CopyFrom(f)
				copy(p3.Coeffs, p.Coeffs)
				f.Clear()
				p.Clear()
				for j := 0; j < n; j++ {
					if fs[k][j] != 0 || ps[k][j] != 0 {
						return fmt.Errorf("degree %d: Clear leaves %v and %v at %d", n, fs[k][j], ps[k][j], j)
					}
					if f2.Coeffs[j] != float64(j+1) || f3.Coeffs[j] != float64(j+1) || p2.Coeffs[j] != T(j+1) || p3.Coeffs[j] != T(j+1) {
						return fmt.Errorf("degree %d: a copy differs at %d", n, j)
					}
				}
			}
			// every allocation is usable as an operand and as an output
			for k := range ps {
				x := poly.Poly{Coeffs: ps[k]}
				x.Coeffs[n-1], x.Coeffs[0] = 3, 1
				f := poly.FourierPoly{Coeffs: fs[k]}
				e.ToFourierPolyAssign(x, f)
				if g := e.ToPoly(f).Coeffs; !eq(g, x.Coeffs) {
					return fmt.Errorf("degree %d: allocation %d does not survive a round trip", n, k)
				}
			}
			c.Op(len(ps) + len(fs))
			c.State(n)
			c.Outcome(n)
			return nil
		})
	}
	// 5. storage disjointness between evaluators
	{
		degs := []int{16, 32, 64, 256, 512, 1024, 2048}
		rad := []int{len(degs), len(shapes)}
		c.Suite("disjoint-evaluators", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			l := tiny(3, degs[d[0]], shapes[d[1]], 0, 0)
			l.use()
			c.Describe(func() string { return l.name })
			a := evaluator.NewEvaluator(l.n)
			b := evaluator.NewEvaluator(l.n)
			s := a.ShallowCopy()
			t := s.ShallowCopy()
			u := a.ShallowCopy()
			all := []*evaluator.Evaluator{a, b, s, t, u}
			var maps []map[string][2]uintptr
			for k, e := range all {
				m := polyHandouts(e.PolyEvaluator, l.sh.l)
				dec := map[string][2]uintptr{}
				slices(reflect.ValueOf(e.Decomposer.GetPolyDecomposedBuffer(2*l.sh.l)), "Decomposer", dec)
				slices(reflect.ValueOf(e.Decomposer.GetPolyFourierDecomposedBuffer(2*l.sh.l)), "Decomposer Fourier", dec)
				if len(dec) != 4*l.sh.l {
					return fmt.Errorf("evaluator %d: decomposer gives %d buffers, want %d", k, len(dec), 4*l.sh.l)
				}
				for x, p := range dec {
					m[x] = p
					want := uintptr(4 * l.n)
					if strings.HasPrefix(x, "Decomposer Fourier") {
						want = uintptr(8 * l.n)
					}
					if p[1]-p[0] != want {
						return fmt.Errorf("evaluator %d: %s has %d bytes, want %d", k, x, p[1]-p[0], want)
					}
				}
				if err := selfDisjoint(m); err != nil {
					return fmt.Errorf("evaluator %d: %w", k, err)
				}
				slices(reflect.ValueOf(e.Buffers), "Buffers", m)
				maps = append(maps, m)
				c.Op(1)
			}
			for x := range maps {
				for y := x + 1; y < len(maps); y++ {
					if err := disjoint(maps[x], maps[y]); err != nil {
						return fmt.Errorf("evaluators %d and %d of {new, new, copy of 0, copy of 2, copy of 0}: %w", x, y, err)
					}
					c.State(d, x, y)
				}
			}
			// polynomial evaluators on their own
			p := poly.NewEvaluator(l.n)
			q, r := p.ShallowCopy(), p.ShallowCopy()
			pm := []map[string][2]uintptr{polyHandouts(p, l.sh.l), polyHandouts(q, l.sh.l), polyHandouts(r, l.sh.l)}
			for x := range pm {
				for y := x + 1; y < 3; y++ {
					if err := disjoint(pm[x], pm[y]); err != nil {
						return fmt.Errorf("polynomial evaluators %d and %d: %w", x, y, err)
					}
				}
			}
			c.Outcome(d)
			return nil
		})
	}
	// 6. the same over many evaluators alive at once, made in every way
	{
		degs := []int{16, 64, 256}
		ways := []string{"new", "copies of one", "copies of copies", "alternating new and copy", "polynomial copies", "polynomial copies of copies"}
		per := 80
		if full {
			per = 1040
		}
		rad := []int{len(degs), len(shapes), len(ways)}
		c.Suite("many-evaluators", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			if full && d[0] > 0 {
				return nil
			}
			l := tiny(3, degs[d[0]], shapes[d[1]], 0, 0)
			l.use()
			c.Describe(func() string { return l.name + " " + ways[d[2]] })
			all := []*evaluator.Evaluator{evaluator.NewEvaluator(l.n)}
			polys := []*poly.Evaluator{all[0].PolyEvaluator}
			for k := 1; k < per; k++ {
				switch {
				case d[2] == 0 || d[2] == 3 && k%2 == 0:
					all = append(all, evaluator.NewEvaluator(l.n))
				case d[2] == 1:
					all = append(all, all[0].ShallowCopy())
				case d[2] == 2 || d[2] == 3:
					all = append(all, all[k-1].ShallowCopy())
				case d[2] == 4:
					polys = append(polys, polys[0].ShallowCopy())
				case d[2] == 5:
					polys = append(polys, polys[k-1].ShallowCopy())
				}
			}
			type span struct {
				lo, hi uintptr
				of     int
				what   string
			}
			var sp []span
			put := func(k int, m map[string][2]uintptr) {
				for what, r := range m {
					sp = append(sp, span{r[0], r[1], k, what})
				}
			}
			for k, e := range all {
				m := polyHandouts(e.PolyEvaluator, l.sh.l)
				slices(reflect.ValueOf(e.Decomposer.GetPolyDecomposedBuffer(2*l.sh.l)), "Decomposer", m)
				slices(reflect.ValueOf(e.Decomposer.GetPolyFourierDecomposedBuffer(2*l.sh.l)), "Decomposer Fourier", m)
				slices(reflect.ValueOf(e.Buffers), "Buffers", m)
				put(k, m)
			}
			for k := 1; k < len(polys); k++ {
				put(k, polyHandouts(polys[k], l.sh.l))
			}
			sort.Slice(sp, func(a, b int) bool { return sp[a].lo < sp[b].lo })
			// the furthest end so far belongs to span e; a later start below it overlaps e
			e := 0
			for k := 1; k < len(sp); k++ {
				if sp[k].lo < sp[e].hi && sp[k].of != sp[e].of {
					return fmt.Errorf("%s of evaluator %d is stored over %s of evaluator %d", sp[k].what, sp[k].of, sp[e].what, sp[e].of)
				}
				if sp[k].hi > sp[e].hi {
					e = k
				}
			}
			c.Op(per)
			c.Bulk(int64(len(sp)))
			c.Outcome(d)
			runtime.KeepAlive(all)
			runtime.KeepAlive(polys)
			return nil
		})
	}
}
