package main

import (
	"fmt"

	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/tlwe"
)

// The five entry points of programmable bootstrapping. Each returns the result ciphertext.
type pbsAPI struct {
	name string
	call func(ev *evaluator.Evaluator, ct *tlwe.TLWELv0, f func(int) int, m int, tab *lut.LookUpTable, env *gateEnv) *tlwe.TLWELv0
}

func dirtyCt(n int) *tlwe.TLWELv0 {
	r := tlwe.NewTLWELv0()
	for i := range r.P {
		r.P[i] = T(0xDEADBEEF + uint32(i)*77777)
	}
	return r
}

var pbsAPIs = []pbsAPI{
	{"BootstrapFunc", func(ev *evaluator.Evaluator, ct *tlwe.TLWELv0, f func(int) int, m int, tab *lut.LookUpTable, e *gateEnv) *tlwe.TLWELv0 {
		return ev.BootstrapFunc(ct, f, m, e.ck.BootstrappingKey, e.ck.KeySwitchingKey, e.ck.DecompositionOffset)
	}},
	{"BootstrapFuncAssign", func(ev *evaluator.Evaluator, ct *tlwe.TLWELv0, f func(int) int, m int, tab *lut.LookUpTable, e *gateEnv) *tlwe.TLWELv0 {
		o := dirtyCt(e.l.n0)
		ev.BootstrapFuncAssign(ct, f, m, e.ck.BootstrappingKey, e.ck.KeySwitchingKey, e.ck.DecompositionOffset, o)
		return o
	}},
	{"BootstrapLUT", func(ev *evaluator.Evaluator, ct *tlwe.TLWELv0, f func(int) int, m int, tab *lut.LookUpTable, e *gateEnv) *tlwe.TLWELv0 {
		return ev.BootstrapLUT(ct, tab, e.ck.BootstrappingKey, e.ck.KeySwitchingKey, e.ck.DecompositionOffset)
	}},
	{"BootstrapLUTTemp", func(ev *evaluator.Evaluator, ct *tlwe.TLWELv0, f func(int) int, m int, tab *lut.LookUpTable, e *gateEnv) *tlwe.TLWELv0 {
		return ev.BootstrapLUTTemp(ct, tab, e.ck.BootstrappingKey, e.ck.KeySwitchingKey, e.ck.DecompositionOffset)
	}},
	{"BootstrapLUTAssign", func(ev *evaluator.Evaluator, ct *tlwe.TLWELv0, f func(int) int, m int, tab *lut.LookUpTable, e *gateEnv) *tlwe.TLWELv0 {
		o := dirtyCt(e.l.n0)
		ev.BootstrapLUTAssign(ct, tab, e.ck.BootstrappingKey, e.ck.KeySwitchingKey, e.ck.DecompositionOffset, o)
		return o
	}},
	{"BootstrapLUTAssign(in place)", func(ev *evaluator.Evaluator, ct *tlwe.TLWELv0, f func(int) int, m int, tab *lut.LookUpTable, e *gateEnv) *tlwe.TLWELv0 {
		o := &tlwe.TLWELv0{P: clone(ct.P)}
		ev.BootstrapLUTAssign(o, tab, e.ck.BootstrappingKey, e.ck.KeySwitchingKey, e.ck.DecompositionOffset, o)
		return o
	}},
	{"BootstrapFuncAssign(in place)", func(ev *evaluator.Evaluator, ct *tlwe.TLWELv0, f func(int) int, m int, tab *lut.LookUpTable, e *gateEnv) *tlwe.TLWELv0 {
		o := &tlwe.TLWELv0{P: clone(ct.P)}
		ev.BootstrapFuncAssign(o, f, m, e.ck.BootstrappingKey, e.ck.KeySwitchingKey, e.ck.DecompositionOffset, o)
		return o
	}},
}

// encPhase is the nominal phase of message x modulo m: x / 2m.
func encPhase(x, m int) T {
	return T(uint64(float64(x) * float64(uint64(1)<<31) / float64(m)))
}

// slotRoom is how far (in torus units) a ciphertext's phase may be from nominal so that rounding of
// 1+w coordinates plus the table's own rounding of slot boundaries (one position) stays inside the slot.
func slotRoom(l Level, m, coords int) float64 {
	half := pow2(31) / float64(m) / 2
	pos := pow2(32 - log2i(2*l.n))
	return half - float64(coords)*pos/2 - 1.5*pos - 64
}

// checkMsg checks that ct is an encryption of want mod m under the environment's key, refreshed.
func checkMsg(e *gateEnv, ct *tlwe.TLWELv0, want, m int) error {
	if len(ct.P) != e.l.n0+1 {
		return fmt.Errorf("result has %d words", len(ct.P))
	}
	want = ((want % m) + m) % m
	ph := phase0(ct.P, e.sk.KeyLv0)
	if d := float64(dist(ph, encPhase(want, m))); d > e.tol {
		return fmt.Errorf("phase %08x is %.0f from the encoding of %d mod %d (allowed %.0f)", uint32(ph), d, want, m, e.tol)
	}
	if e.tol < pow2(31)/float64(m)/2 {
		if got := ct.DecryptLWEMessage(m, e.sk.KeyLv0); got != want {
			return fmt.Errorf("decrypts to %d, want %d mod %d (phase %08x)", got, want, m, uint32(ph))
		}
	}
	return nil
}

// funcFamily spans functions on 0..m-1 for larger m: indicators of every point, constants, identity,
// reversal, shifts, squares, values outside 0..m-1 (reduced by the encoder) and negatives.
func funcFamily(m int) []func(int) int {
	var fs []func(int) int
	for p := 0; p < m; p++ {
		p := p
		fs = append(fs, func(x int) int {
			if x == p {
				return m - 1
			}
			return 0
		})
	}
	fs = append(fs,
		func(x int) int { return x },
		func(x int) int { return m - 1 - x },
		func(x int) int { return x*x + 1 },
		func(x int) int { return -x },
		func(x int) int { return x + 5*m },
		func(x int) int { return m - 1 },
		func(x int) int { return -3*m - 1 + x },
		func(x int) int { return (x*7 + 3) % m },
	)
	return fs
}

func init() {
	register(&Check{ID: "C03", Run: runC03, Level: "model_checking",
		Rule: "A state is (profile, keys, modulus, function table, message, error position, mask, entry point, position in a composition) with the observed output; a transition is one programmable bootstrap; a trace is one case, all of whose outputs are compared with f(x) mod m, the nominal output phase, and untouched inputs.",
		Bounds: map[string]string{
			"quick":    "N=64,n0=2 over 9 shapes: all m^m functions for m=2,3,4 (m=4: 256), all messages, 5 error positions, 4 masks, all entry points; function families (indicators etc.) for every m=1..16 at N=256 and every supported m up to 32 at N=2048; compositions of length 3; shipped levels 80..Uint5 with their documented modulus",
			"thorough": "as quick with more masks and error positions, all m up to 64, every shape at N=1024",
		},
		Assumptions: []string{"noise in keys is scripted to zero; ciphertext errors are enumerated up to the slot boundary less the worst-case rounding of the coordinates",
			"a table entry may be off by one position at slot boundaries (the documented rounding of slot edges when m does not divide N)"}})
}

func runC03(c *Ctx) {
	full := c.thorough()
	// 1. all functions for small moduli
	{
		ms := []int{1, 2, 3, 4}
		nf := []int{1, 4, 27, 256}
		total := 0
		for _, n := range nf {
			total += n
		}
		rad := []int{len(shapes), total}
		var env *gateEnv
		cur := -1
		var ev *evaluator.Evaluator
		c.Suite("all-functions", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			l := tiny(2, 64, shapes[d[0]], 0, 0)
			l.use()
			if cur != d[0] {
				env = newGateEnv(l, []T{1, 1}, hashKey(64, 31))
				ev = evaluator.NewEvaluator(64)
				cur = d[0]
			}
			fi, m := d[1], 0
			for k, n := range nf {
				if fi < n {
					m = ms[k]
					break
				}
				fi -= n
			}
			tab := make([]int, m)
			for x, r := 0, fi; x < m; x++ {
				tab[x] = r % m
				r /= m
			}
			return pbsCase(c, env, ev, m, func(x int) int { return tab[x] }, 5, 4, fmt.Sprintf("f=%v mod %d", tab, m), d)
		})
	}
	// 2. function families for every modulus the ring supports
	{
		type mc struct{ n, m int }
		var list []mc
		for m := 1; m <= 16; m++ {
			list = append(list, mc{256, m})
		}
		for _, m := range []int{17, 20, 24, 31, 32} {
			list = append(list, mc{512, m})
		}
		if full {
			for m := 17; m <= 64; m++ {
				list = append(list, mc{1024, m})
			}
		}
		c.Suite("moduli", int64(len(list)), nil, func(i int64) error {
			q := list[i]
			l := tiny(2, q.n, shapes[7], 0, 0)
			env := newGateEnv(l, []T{1, 0}, hashKey(q.n, 32))
			ev := evaluator.NewEvaluator(q.n)
			for k, f := range funcFamily(q.m) {
				if err := pbsCase(c, env, ev, q.m, f, 3, 2, fmt.Sprintf("m=%d family %d", q.m, k), []int{int(i), k}); err != nil {
					return err
				}
			}
			return nil
		})
	}
	// 3. shipped ring degrees and documented moduli, small n0
	{
		type q struct {
			n, m, sh int
		}
		list := []q{{1024, 2, 0}, {1024, 2, 1}, {1024, 2, 2}, {1024, 4, 2}, {1024, 2, 3}, {512, 4, 4}, {1024, 8, 5}, {2048, 16, 6}, {2048, 32, 7}, {1024, 3, 2}, {1024, 5, 5}, {2048, 13, 6}, {2048, 7, 8}}
		c.Suite("ring-degrees", int64(len(list)), nil, func(i int64) error {
			x := list[i]
			l := tiny(2, x.n, shapes[x.sh], 0, 0)
			env := newGateEnv(l, []T{1, 1}, hashKey(x.n, 33))
			ev := evaluator.NewEvaluator(x.n)
			fs := funcFamily(x.m)
			if len(fs) > 16 && !full {
				fs = append(fs[:8:8], fs[len(fs)-8:]...)
			}
			for k, f := range fs {
				if err := pbsCase(c, env, ev, x.m, f, 3, 1, fmt.Sprintf("N=%d m=%d family %d", x.n, x.m, k), []int{int(i), k}); err != nil {
					return err
				}
			}
			return nil
		})
	}
	// 4. compositions: all triples of functions from a small set, all entry points in turn
	{
		const m = 4
		fs := []func(int) int{func(x int) int { return x }, func(x int) int { return (x + 1) % m }, func(x int) int { return m - 1 - x }, func(x int) int { return x * x % m }, func(x int) int { return x / 2 }}
		rad := []int{3, len(fs), len(fs), len(fs)}
		sel := []int{2, 4, 7}
		var env *gateEnv
		var ev *evaluator.Evaluator
		cur := -1
		c.Suite("compositions", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			l := tiny(3, 128, shapes[sel[d[0]]], 0, 0)
			l.use()
			if cur != d[0] {
				env = newGateEnv(l, []T{1, 0, 1}, hashKey(128, 34))
				ev = evaluator.NewEvaluator(128)
				cur = d[0]
			}
			c.Describe(func() string { return fmt.Sprintf("%s functions %v", l.name, d[1:]) })
			for x := 0; x < m; x++ {
				for a := range pbsAPIs {
					ct := mkCt(hashMask(3, uint64(x*7+a)), env.sk.KeyLv0, encPhase(x, m))
					v := x
					var held []*tlwe.TLWELv0
					for s := 0; s < 3; s++ {
						f := fs[d[1+s]]
						tab := lut.NewGenerator(m).GenLookUpTable(f)
						ct = pbsAPIs[(a+s)%len(pbsAPIs)].call(ev, ct, f, m, tab, env)
						v = f(v) % m
						c.Op(1)
						if err := checkMsg(env, ct, v, m); err != nil {
							return fmt.Errorf("x=%d step %d (%s): %w", x, s, pbsAPIs[(a+s)%len(pbsAPIs)].name, err)
						}
						held = append(held, ct)
						c.State(d, x, a, s, fnvT(0, ct.P))
					}
					c.Outcome(v)
				}
			}
			return nil
		})
	}
	// 5. dimension sweep
	{
		dims := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 31, 33, 64, 127, 550, 700, 1071}
		c.Suite("dimensions", int64(len(dims)), nil, func(i int64) error {
			n0 := dims[i]
			l := tiny(n0, 32, shapes[7], 0, 0)
			env := newGateEnv(l, hashKey(n0, 35), hashKey(32, 36))
			ev := evaluator.NewEvaluator(32)
			const m = 4
			for k, f := range funcFamily(m) {
				tab := lut.NewGenerator(m).GenLookUpTable(f)
				for x := 0; x < m; x++ {
					mask := hashMask(n0, uint64(x+k))
					for j := range mask {
						mask[j] &= 0xFC000000
					}
					ct := mkCt(mask, env.sk.KeyLv0, encPhase(x, m))
					for _, api := range pbsAPIs {
						out := api.call(ev, ct, f, m, tab, env)
						c.Op(1)
						if err := checkMsg(env, out, f(x), m); err != nil {
							return fmt.Errorf("n0=%d family %d x=%d %s: %w", n0, k, x, api.name, err)
						}
					}
					c.State(i, k, x)
				}
			}
			return nil
		})
	}
	// 6. the shipped levels with their documented message space
	{
		type q struct {
			name string
			m    int
		}
		lv := []q{{"Uint5", 32}, {"Uint4", 16}, {"Uint3", 8}, {"128", 4}, {"Uint1", 2}, {"110", 2}, {"80", 2}, {"Uint2", 4}}
		c.Suite("shipped-levels", int64(len(lv)), nil, func(i int64) error {
			l := shipped(lv[i].name)
			m := lv[i].m
			env := newGateEnv(l, hashKey(l.n0, 41), hashKey(l.n, 42))
			ev := evaluator.NewEvaluator(l.n)
			fs := []func(int) int{func(x int) int { return x }, func(x int) int { return m - 1 - x }, func(x int) int { return x*x + 1 }}
			c.Describe(func() string { return l.name })
			for k, f := range fs {
				tab := lut.NewGenerator(m).GenLookUpTable(f)
				for x := 0; x < m; x++ {
					if m == 32 && (x+k)%4 != 0 && !full {
						continue
					}
					// mask words on slot centres: the rounding of 1+n0 coordinates is exact
					mask := hashMask(l.n0, uint64(x+k))
					for j := range mask {
						mask[j] &= ^(T(1)<<uint(32-log2i(2*l.n)) - 1)
					}
					ct := mkCt(mask, env.sk.KeyLv0, encPhase(x, m))
					api := pbsAPIs[(x+k)%len(pbsAPIs)]
					out := api.call(ev, ct, f, m, tab, env)
					c.Op(1)
					if got, want := out.DecryptLWEMessage(m, env.sk.KeyLv0), ((f(x)%m)+m)%m; got != want {
						return fmt.Errorf("%s function %d x=%d %s: got %d want %d", l.name, k, x, api.name, got, want)
					}
					c.State(i, k, x, fnvT(0, out.P))
				}
			}
			return nil
		})
	}
}

// pbsCase runs one function on all messages, error positions, masks and entry points.
func pbsCase(c *Ctx, env *gateEnv, ev *evaluator.Evaluator, m int, f func(int) int, nerr, nmask int, what string, key any) error {
	l := env.l
	c.Describe(func() string { return l.name + " " + what })
	tab := lut.NewGenerator(m).GenLookUpTable(f)
	hA, hB := fnvT(0, tab.Poly.A), fnvT(0, tab.Poly.B)
	w := 1
	for _, b := range env.sk.KeyLv0 {
		w += int(b)
	}
	room := slotRoom(l, m, w)
	if room < 0 {
		return fmt.Errorf("harness: modulus %d does not fit ring degree %d", m, l.n)
	}
	words := maskWords(l, true)
	n := int64(0)
	for x := 0; x < m; x++ {
		for e := 0; e < nerr; e++ {
			fe := 0.0
			if nerr > 1 {
				fe = float64(e-nerr/2) / float64(nerr/2)
			}
			for k := 0; k < nmask; k++ {
				mask := []T{words[(k*5+x+e)%len(words)], words[(k*3+e*7+1)%len(words)]}
				ph := encPhase(x, m) + T(int32(fe*room))
				ct := mkCt(mask, env.sk.KeyLv0, ph)
				pc := clone(ct.P)
				for _, api := range pbsAPIs {
					out := api.call(ev, ct, f, m, tab, env)
					if err := checkMsg(env, out, f(x), m); err != nil {
						return fmt.Errorf("%s %s x=%d error %.0f of %.0f mask %08x: %w", what, api.name, x, fe*room, room, mask, err)
					}
					if !eq(pc, ct.P) {
						return fmt.Errorf("%s modified its input", api.name)
					}
					n++
				}
			}
		}
		c.Outcome(m, f(x))
	}
	c.Op(int(n))
	c.Bulk(n)
	if fnvT(0, tab.Poly.A) != hA || fnvT(0, tab.Poly.B) != hB {
		return fmt.Errorf("%s: the table was modified", what)
	}
	return nil
}
