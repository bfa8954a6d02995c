package main

import (
	"fmt"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/tlwe"
)

var eighth = T(1 << 29)

type gate2 struct {
	name   string
	f      func(a, b *tlwe.TLWELv0, ck *cloudkey.CloudKey) *tlwe.TLWELv0
	truth  func(a, b bool) bool
	ka, kb int // multiplicity of each operand in the decision (error weights)
}

var gates2 = []gate2{
	{"AND", gates.AND, func(a, b bool) bool { return a && b }, 1, 1},
	{"OR", gates.OR, func(a, b bool) bool { return a || b }, 1, 1},
	{"NAND", gates.NAND, func(a, b bool) bool { return !(a && b) }, 1, 1},
	{"NOR", gates.NOR, func(a, b bool) bool { return !(a || b) }, 1, 1},
	{"XOR", gates.XOR, func(a, b bool) bool { return a != b }, 1, 2},
	{"XNOR", gates.XNOR, func(a, b bool) bool { return a == b }, 1, 2},
	{"ANDNY", gates.ANDNY, func(a, b bool) bool { return !a && b }, 1, 1},
	{"ANDYN", gates.ANDYN, func(a, b bool) bool { return a && !b }, 1, 1},
	{"ORNY", gates.ORNY, func(a, b bool) bool { return !a || b }, 1, 1},
	{"ORYN", gates.ORYN, func(a, b bool) bool { return a || !b }, 1, 1},
}

func bphase(b bool) T {
	if b {
		return eighth
	}
	return -eighth
}

// refreshTol bounds how far a bootstrapped, key-switched output may be from its nominal phase when the
// keys are noiseless: gadget error per rotation step, floating-point error, key-switching rounding.
func refreshTol(l Level, sk *key.SecretKey) float64 {
	w0, w1 := 0, 0
	for _, b := range sk.KeyLv0 {
		w0 += int(b)
	}
	for _, b := range sk.KeyLv1 {
		w1 += int(b)
	}
	steps := float64(w0)
	ep := float64(1+w1)*pow2(32-l.sh.l*l.sh.bgbit) + fftTol(l)
	all := steps*ep + float64(l.n0)*fftTol(l) + float64(2*(l.n0+1))*float64(1+w1)
	ks := float64(w1)*pow2(32-l.sh.basebit*l.sh.t-1) + float64(l.n*l.sh.t)
	return all + ks + 4096
}

func pow2(k int) float64 {
	if k >= 0 {
		return float64(uint64(1) << uint(k))
	}
	return 1 / float64(uint64(1)<<uint(-k))
}

// fftTol bounds the floating-point error of one external product (absolute, in torus units 2^-32).
func fftTol(l Level) float64 {
	mag := float64(2*l.sh.l) * float64(l.n) * pow2(l.sh.bgbit-1+31)
	return mag*pow2(-50) + 8
}

func checkBit(l Level, sk *key.SecretKey, out *tlwe.TLWELv0, want bool, tol float64) error {
	if out == nil || len(out.P) != l.n0+1 {
		return fmt.Errorf("result has %d words, want %d", len(out.P), l.n0+1)
	}
	ph := phase0(out.P, sk.KeyLv0)
	if (int32(ph) >= 0) != want {
		return fmt.Errorf("decrypts to %v, want %v (phase %08x)", !want, want, uint32(ph))
	}
	if got := out.DecryptBool(sk.KeyLv0); got != want {
		return fmt.Errorf("DecryptBool gives %v, want %v", got, want)
	}
	if d := float64(dist(ph, bphase(want))); d > tol {
		return fmt.Errorf("output error %.0f exceeds what refreshing allows (%.0f): phase %08x, want near %08x", d, tol, uint32(ph), uint32(bphase(want)))
	}
	return nil
}

// maskWords is the mask alphabet: 0, 1, extremes, half-slot boundaries, patternless.
func maskWords(l Level, full bool) []T {
	slot := T(1) << uint(32-log2i(2*l.n))
	m := []T{0, slot / 2, slot/2 - 1, 1 << 31, ^T(0), 0x9D2C5681, ^T(0) - slot/2 + 1}
	if full {
		m = append(m, 1, 1<<31-1, slot, slot-1, 0x5A827999, ^T(0)-slot/2, 3*slot/2, 0xC0000000, 1<<30)
	}
	return m
}

func log2i(n int) int {
	k := 0
	for 1<<k < n {
		k++
	}
	return k
}

type gateEnv struct {
	l   Level
	sk  *key.SecretKey
	ck  *cloudkey.CloudKey
	h   uint64
	tol float64
}

func newGateEnv(l Level, k0, k1 []T) *gateEnv {
	l.use()
	sk := mkKey(l, k0, k1)
	ck := cloud(sk)
	return &gateEnv{l, sk, ck, ckHash(ck), refreshTol(l, sk)}
}

func init() {
	register(&Check{ID: "C01", Run: runC01, Level: "model_checking",
		Rule: "A state is one configuration (profile, keys, gate, operand bits, operand errors, operand masks, aliasing or circuit position) together with the observed output; a transition is one gate evaluation by the library; a trace is one case, every output of which is compared with the truth table, the nominal phase and the untouched operands.",
		Bounds: map[string]string{
			"quick":    "9 shipped gadget/key-switching shapes at N=64,n0=2, all 4 level-0 keys x 2 level-1 keys; 10 gates x 4 bit pairs x 5x5 error grid x 7x7 mask grid; all two-gate circuits; all MUX aliasings; the Prepare*/Bootstrap/BootstrapAssign path with own and copied evaluators and every output aliasing; dimension sweep n0=1..20 and large; shipped ring degrees with n0=3; shipped levels 80,110,128,Uint1..Uint5 in full",
			"thorough": "as quick with a 9x9 error grid and the 16x16 mask grid, three-gate circuits, shipped levels Uint6..Uint8 too",
		},
		Assumptions: []string{
			"noise is scripted to zero in the keys; operand errors are enumerated instead (the property is conditional on the error bound)",
			"reduced profiles keep each shipped gadget and key-switching shape and differ only in dimension",
			"level-1 keys: two patterns per profile; masks and errors outside the alphabet are not enumerated",
		}})
}

func runC01(c *Ctx) {
	full := c.thorough()
	nerr := 5
	if full {
		nerr = 9
	}
	// 1. all gates, bits, errors, masks over all shapes and keys
	{
		nm := 7
		if full {
			nm = 16
		}
		rad := []int{len(shapes), 4, 2, len(gates2), nm}
		var env *gateEnv
		curKey := -1
		c.Suite("gates", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			l := tiny(2, 64, shapes[d[0]], 0, 0)
			l.use()
			if k := d[0]*8 + d[1]*2 + d[2]; k != curKey {
				k1 := hashKey(64, 5)
				if d[2] == 1 {
					k1 = bitsKey(64, ^uint64(0))
				}
				env = newGateEnv(l, bitsKey(2, uint64(d[1])), k1)
				curKey = k
			}
			g := gates2[d[3]]
			words := maskWords(l, full)
			ma := []T{words[d[4]], words[(d[4]*3+1)%len(words)]}
			// rounding of three coordinates, each at most half a slot
			slack := float64(3)*pow2(32-log2i(2*l.n)-1) + 64
			lim := float64(eighth) - slack
			c.Describe(func() string {
				return fmt.Sprintf("%s gate %s key0=%v maskA=%08x", l.name, g.name, env.sk.KeyLv0, ma)
			})
			var lastA, lastB *tlwe.TLWELv0
			for mb := range words {
				mB := []T{words[mb], words[(mb*5+2)%len(words)]}
				for bitsAB := 0; bitsAB < 4; bitsAB++ {
					a, b := bitsAB&1 != 0, bitsAB&2 != 0
					for ea := 0; ea < nerr; ea++ {
						for eb := 0; eb < nerr; eb++ {
							fa := float64(ea-nerr/2) / float64(nerr/2) // -1..1
							fb := float64(eb-nerr/2) / float64(nerr/2)
							// spread so that the weighted sum reaches the limit exactly
							xa := fa * lim / 2 / float64(g.ka)
							xb := fb * lim / 2 / float64(g.kb)
							A := mkCt(ma, env.sk.KeyLv0, bphase(a)+T(int32(xa)))
							B := mkCt(mB, env.sk.KeyLv0, bphase(b)+T(int32(xb)))
							pa, pb := clone(A.P), clone(B.P)
							out := g.f(A, B, env.ck)
							c.Op(1)
							if err := checkBit(l, env.sk, out, g.truth(a, b), env.tol); err != nil {
								return fmt.Errorf("%s(%v,%v) errors %.0f,%.0f masks %08x,%08x: %w", g.name, a, b, xa, xb, ma, mB, err)
							}
							if !eq(pa, A.P) || !eq(pb, B.P) {
								return fmt.Errorf("%s modified an operand", g.name)
							}
							lastA, lastB = A, B
						}
					}
				}
			}
			c.Bulk(int64(len(words) * 4 * nerr * nerr))
			c.Outcome(d[0], d[1], d[3])
			_ = lastA
			_ = lastB
			if ckHash(env.ck) != env.h {
				return fmt.Errorf("%s modified the evaluation key", g.name)
			}
			return nil
		})
	}
	// 2. operand aliasing, NOT, Copy, Constant, MUX
	{
		rad := []int{len(shapes), 4}
		c.Suite("alias-not-copy-constant-mux", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			l := tiny(2, 64, shapes[d[0]], 0, 0)
			env := newGateEnv(l, bitsKey(2, uint64(d[1])), hashKey(64, 6))
			k0 := env.sk.KeyLv0
			words := maskWords(l, true)
			c.Describe(func() string { return l.name + fmt.Sprint(k0) })
			for w := range words {
				mask := []T{words[w], words[(w*7+3)%len(words)]}
				for v := 0; v < 2; v++ {
					a := v == 1
					for _, g := range gates2 {
						// one object twice, equal words in two objects, a ciphertext and its negation: with every error
						limRel := (float64(eighth) - 3*pow2(32-log2i(2*l.n)-1) - 64) / float64(g.ka+g.kb)
						for e := -4; e <= 4; e++ {
							for rel := 0; rel < 3; rel++ {
								A := mkCt(mask, k0, bphase(a)+T(int32(float64(e)/4*limRel)))
								B, bv := A, a
								switch rel {
								case 1:
									B = &tlwe.TLWELv0{P: clone(A.P)}
								case 2:
									B, bv = A.Neg(), !a
								}
								pa, pb := clone(A.P), clone(B.P)
								out := g.f(A, B, env.ck)
								c.Op(1)
								if err := checkBit(l, env.sk, out, g.truth(a, bv), env.tol); err != nil {
									return fmt.Errorf("%s(x,%s) x=%v error step %d: %w", g.name, []string{"x", "copy of x", "-x"}[rel], a, e, err)
								}
								if !eq(pa, A.P) || !eq(pb, B.P) {
									return fmt.Errorf("%s(x,x) modified x", g.name)
								}
							}
						}
						for cv := 0; cv < 2; cv++ {
							k := gates.Constant(cv == 1)
							// the other operand carries every error up to the limit
							lim := float64(eighth) - 3*pow2(32-log2i(2*l.n)-1) - 64
							for e := -4; e <= 4; e++ {
								xa, xb := float64(e)/4*lim/float64(g.ka), float64(e)/4*lim/float64(g.kb)
								N := mkCt(mask, k0, bphase(a)+T(int32(xa)))
								if err := checkBit(l, env.sk, g.f(N, k, env.ck), g.truth(a, cv == 1), env.tol); err != nil {
									return fmt.Errorf("%s(%v with error %.0f,Constant(%v)): %w", g.name, a, xa, cv == 1, err)
								}
								N = mkCt(mask, k0, bphase(a)+T(int32(xb)))
								if err := checkBit(l, env.sk, g.f(k, N, env.ck), g.truth(cv == 1, a), env.tol); err != nil {
									return fmt.Errorf("%s(Constant(%v),%v with error %.0f): %w", g.name, cv == 1, a, xb, err)
								}
								c.Op(2)
							}
							c.Op(1)
							if dist(phase0(k.P, k0), bphase(cv == 1)) > 16 {
								return fmt.Errorf("Constant(%v) has phase %08x", cv == 1, uint32(phase0(k.P, k0)))
							}
							if k.DecryptBool(k0) != (cv == 1) {
								return fmt.Errorf("Constant(%v) decrypts wrongly", cv == 1)
							}
						}
						c.State(d, w, v, g.name)
					}
					// NOT and Copy over the whole torus of phases
					for e := -15; e <= 15; e++ {
						ph := bphase(a) + T(int32(e*(1<<24))) + T(e)
						A := mkCt(mask, k0, ph)
						pa := clone(A.P)
						n := gates.NOT(A)
						cp := gates.Copy(A)
						c.Op(2)
						if dist(phase0(n.P, k0), -ph) > 2+uint32(l.n0) {
							return fmt.Errorf("NOT: phase %08x of phase %08x", uint32(phase0(n.P, k0)), uint32(ph))
						}
						if n.DecryptBool(k0) == a {
							return fmt.Errorf("NOT(%v) decrypts to %v", a, a)
						}
						if !eq(cp.P, pa) || !eq(A.P, pa) {
							return fmt.Errorf("Copy differs from or modified its operand")
						}
						cp.P[0]++
						n.P[0]++
						if !eq(A.P, pa) {
							return fmt.Errorf("NOT/Copy shares storage with its operand")
						}
					}
				}
			}
			// MUX and trivial operands: each operand is a constant or a ciphertext with an error
			for v := 0; v < 8; v++ {
				for tr := 1; tr < 8; tr++ {
					for e := -1; e <= 1; e++ {
						var o [3]*tlwe.TLWELv0
						for k := range o {
							if b := v>>k&1 == 1; tr>>k&1 == 1 {
								o[k] = gates.Constant(b)
							} else {
								o[k] = mkCt([]T{words[(v+k*3)%len(words)], words[(tr*5+k)%len(words)]}, k0, bphase(b)+T(int32(e*(1<<26))))
							}
						}
						want := v>>2&1 == 1
						if v&1 == 1 {
							want = v>>1&1 == 1
						}
						if err := checkBit(l, env.sk, gates.MUX(o[0], o[1], o[2], env.ck), want, env.tol); err != nil {
							return fmt.Errorf("MUX of bits %03b, constants %03b, error %d: %w", v, tr, e, err)
						}
						c.Op(1)
						c.State(d, "mux-constants", v, tr, e)
					}
				}
			}
			// MUX: all bits, all aliasings of the three operands, errors
			pat := [][3]int{{0, 1, 2}, {0, 0, 1}, {0, 1, 0}, {0, 1, 1}, {0, 0, 0}}
			for w := range words {
				for _, p := range pat {
					for v := 0; v < 8; v++ {
						for e := -1; e <= 1; e++ {
							var o [3]*tlwe.TLWELv0
							var val [3]bool
							for k := 0; k < 3; k++ {
								val[k] = v>>k&1 == 1
								o[k] = mkCt([]T{words[(w+k*3)%len(words)], words[(w*5+k)%len(words)]}, k0, bphase(val[k])+T(int32(e*(1<<26))))
							}
							x, y, z := p[0], p[1], p[2]
							s0, s1, s2 := clone(o[0].P), clone(o[1].P), clone(o[2].P)
							out := gates.MUX(o[x], o[y], o[z], env.ck)
							c.Op(1)
							want := val[z]
							if val[x] {
								want = val[y]
							}
							if err := checkBit(l, env.sk, out, want, env.tol); err != nil {
								return fmt.Errorf("MUX(%v,%v,%v) operands %v error %d: %w", val[x], val[y], val[z], p, e, err)
							}
							if !eq(s0, o[0].P) || !eq(s1, o[1].P) || !eq(s2, o[2].P) {
								return fmt.Errorf("MUX modified an operand")
							}
							c.State(d, w, p, v, e)
						}
					}
				}
			}
			if ckHash(env.ck) != env.h {
				return fmt.Errorf("evaluation key modified")
			}
			return nil
		})
	}
	// 3. circuits: every composition of gates, outputs fed back
	{
		rad := []int{3, len(gates2), len(gates2)}
		sel := []int{2, 3, 5}
		var env *gateEnv
		cur := -1
		c.Suite("circuits", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			l := tiny(3, 64, shapes[sel[d[0]]], 0, 0)
			l.use()
			if cur != d[0] {
				env = newGateEnv(l, []T{1, 0, 1}, hashKey(64, 7))
				cur = d[0]
			}
			g1, g2 := gates2[d[1]], gates2[d[2]]
			c.Describe(func() string { return fmt.Sprintf("%s: %s then %s", l.name, g1.name, g2.name) })
			for v := 0; v < 8; v++ {
				x, y, z := v&1 != 0, v&2 != 0, v&4 != 0
				X := mkCt(hashMask(3, uint64(v)+11), env.sk.KeyLv0, bphase(x)+1<<27)
				Y := mkCt(hashMask(3, uint64(v)+23), env.sk.KeyLv0, bphase(y)-1<<26)
				Z := mkCt(hashMask(3, uint64(v)+37), env.sk.KeyLv0, bphase(z)+1<<25)
				r1 := g1.f(X, Y, env.ck)
				t1 := g1.truth(x, y)
				s1 := clone(r1.P)
				r2 := g2.f(r1, Z, env.ck)
				t2 := g2.truth(t1, z)
				r3 := g2.f(Z, r1, env.ck)
				r4 := g1.f(r2, r3, env.ck)
				t3 := g2.truth(z, t1)
				c.Op(4)
				for k, p := range []struct {
					ct *tlwe.TLWELv0
					w  bool
				}{{r1, t1}, {r2, t2}, {r3, t3}, {r4, g1.truth(t2, t3)}} {
					if err := checkBit(l, env.sk, p.ct, p.w, env.tol); err != nil {
						return fmt.Errorf("step %d, inputs %v %v %v: %w", k+1, x, y, z, err)
					}
				}
				if !eq(s1, r1.P) {
					return fmt.Errorf("a later gate changed an earlier result")
				}
				// depth: repeat on the own output
				acc, ta := r4, g1.truth(t2, t3)
				for k := 0; k < 6; k++ {
					acc = g2.f(acc, X, env.ck)
					ta = g2.truth(ta, x)
					c.Op(1)
					if err := checkBit(l, env.sk, acc, ta, env.tol); err != nil {
						return fmt.Errorf("depth %d, inputs %v %v %v: %w", k+4, x, y, z, err)
					}
				}
				c.State(d, v, fnvT(0, acc.P))
				c.Outcome(ta, t2, t3)
			}
			return nil
		})
	}
	// 4. dimension sweep (loop tails): masks are multiples of a slot, so rounding is exact
	{
		dims := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 550, 630, 687, 700, 820, 1023, 1024, 1025, 1071, 1160}
		rad := []int{len(dims), 2}
		c.Suite("dimensions", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			n0 := dims[d[0]]
			l := tiny(n0, 16, shapes[7], 0, 0)
			k0 := hashKey(n0, 3)
			if d[1] == 1 {
				for j := range k0 {
					k0[j] = 1
				}
			}
			env := newGateEnv(l, k0, hashKey(16, 9))
			c.Describe(func() string { return l.name })
			for v := 0; v < 4; v++ {
				a, b := v&1 != 0, v&2 != 0
				ma, mb := hashMask(n0, uint64(v)), hashMask(n0, uint64(v)+100)
				for j := range ma {
					ma[j] &= 0xF8000000
					mb[j] &= 0xF8000000
				}
				A, B := mkCt(ma, k0, bphase(a)), mkCt(mb, k0, bphase(b))
				for _, g := range gates2 {
					out := g.f(A, B, env.ck)
					c.Op(1)
					if err := checkBit(l, env.sk, out, g.truth(a, b), env.tol); err != nil {
						return fmt.Errorf("%s(%v,%v): %w", g.name, a, b, err)
					}
					c.State(d, v, g.name)
				}
				ev := evaluator.NewEvaluator(16)
				for k, x := range []*tlwe.TLWELv0{ev.PrepareNAND(A, B), ev.PrepareAND(A, B), ev.PrepareOR(A, B), ev.PrepareXOR(A, B)} {
					want := []bool{!(a && b), a && b, a || b, a != b}[k]
					out := ev.Bootstrap(x, env.ck.BlindRotateTestvec, env.ck.BootstrappingKey, env.ck.KeySwitchingKey, env.ck.DecompositionOffset)
					c.Op(1)
					if err := checkBit(l, env.sk, out, want, env.tol); err != nil {
						return fmt.Errorf("Bootstrap(Prepare%s(%v,%v)): %w", []string{"NAND", "AND", "OR", "XOR"}[k], a, b, err)
					}
				}
			}
			return nil
		})
	}
	// 5. shipped ring degrees with small n0
	{
		degs := []int{16, 32, 128, 256, 512, 1024, 2048}
		rad := []int{len(degs), len(shapes)}
		c.Suite("ring-degrees", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			l := tiny(3, degs[d[0]], shapes[d[1]], 0, 0)
			env := newGateEnv(l, []T{1, 1, 0}, hashKey(l.n, 4))
			c.Describe(func() string { return l.name })
			slack := float64(4)*pow2(32-log2i(2*l.n)-1) + 64
			lim := float64(eighth) - slack
			if lim < 0 {
				lim = 0
			}
			for v := 0; v < 4; v++ {
				a, b := v&1 != 0, v&2 != 0
				for e := -1; e <= 1; e++ {
					for gi, g := range gates2 {
						xa := T(int32(float64(e) * lim / 2 / float64(g.ka)))
						xb := T(int32(float64(e) * lim / 2 / float64(g.kb)))
						ma, mb := hashMask(3, uint64(v+gi)), hashMask(3, uint64(v+gi)+77)
						if slack >= float64(eighth) {
							for j := range ma {
								ma[j] &= 0xF8000000
								mb[j] &= 0xF8000000
							}
						}
						out := g.f(mkCt(ma, env.sk.KeyLv0, bphase(a)+xa), mkCt(mb, env.sk.KeyLv0, bphase(b)+xb), env.ck)
						c.Op(1)
						if err := checkBit(l, env.sk, out, g.truth(a, b), env.tol); err != nil {
							return fmt.Errorf("%s(%v,%v) e=%d: %w", g.name, a, b, e, err)
						}
						c.State(d, v, e, g.name)
					}
				}
			}
			return nil
		})
	}
	// 5b. the same gates by hand: prepared by an evaluator of one's own, bootstrapped into given storage
	{
		preps := []struct {
			name  string
			f     func(e *evaluator.Evaluator, a, b *tlwe.TLWELv0) *tlwe.TLWELv0
			truth func(a, b bool) bool
			kb    int
		}{
			{"NAND", (*evaluator.Evaluator).PrepareNAND, func(a, b bool) bool { return !(a && b) }, 1},
			{"AND", (*evaluator.Evaluator).PrepareAND, func(a, b bool) bool { return a && b }, 1},
			{"OR", (*evaluator.Evaluator).PrepareOR, func(a, b bool) bool { return a || b }, 1},
			{"XOR", (*evaluator.Evaluator).PrepareXOR, func(a, b bool) bool { return a != b }, 2},
		}
		rad := []int{len(shapes), 4, len(preps)}
		c.Suite("evaluator-gates", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			l := tiny(2, 64, shapes[d[0]], 0, 0)
			env := newGateEnv(l, bitsKey(2, uint64(d[1])), hashKey(64, 8))
			l.use()
			p := preps[d[2]]
			k0 := env.sk.KeyLv0
			words := maskWords(l, full)
			lim := float64(eighth) - float64(3)*pow2(32-log2i(2*l.n)-1) - 64
			c.Describe(func() string { return fmt.Sprintf("%s Prepare%s key %v", l.name, p.name, k0) })
			own := evaluator.NewEvaluator(l.n)
			for w := range words {
				for v := 0; v < 4; v++ {
					a, b := v&1 != 0, v&2 != 0
					for e := -1; e <= 1; e++ {
						ev := own
						if (w+v+e)&1 == 1 {
							ev = own.ShallowCopy()
						}
						mk := func() (A, B *tlwe.TLWELv0) {
							A = mkCt([]T{words[w], words[(w*3+1)%len(words)]}, k0, bphase(a)+T(int32(float64(e)*lim/2)))
							B = mkCt([]T{words[(w+2)%len(words)], words[(w*5+3)%len(words)]}, k0, bphase(b)-T(int32(float64(e)*lim/2/float64(p.kb))))
							return
						}
						A, B := mk()
						pa, pb := clone(A.P), clone(B.P)
						boot := func(x, out *tlwe.TLWELv0) {
							ev.BootstrapAssign(x, env.ck.BlindRotateTestvec, env.ck.BootstrappingKey, env.ck.KeySwitchingKey, env.ck.DecompositionOffset, out)
							c.Op(1)
						}
						x := p.f(ev, A, B)
						if !eq(pa, A.P) || !eq(pb, B.P) || overlap(x.P, A.P) || overlap(x.P, B.P) {
							return fmt.Errorf("Prepare%s modified or shares storage with an operand", p.name)
						}
						px := clone(x.P)
						tmp := ev.Bootstrap(x, env.ck.BlindRotateTestvec, env.ck.BootstrappingKey, env.ck.KeySwitchingKey, env.ck.DecompositionOffset)
						c.Op(1)
						ref := clone(tmp.P)
						if err := checkBit(l, env.sk, tmp, p.truth(a, b), env.tol); err != nil {
							return fmt.Errorf("Bootstrap(Prepare%s(%v,%v)): %w", p.name, a, b, err)
						}
						if !eq(px, x.P) {
							return fmt.Errorf("Bootstrap modified its input")
						}
						// into a dirty output, over the input, over an operand
						dirty := ct0(^T(0), 0x12345678, 0x9ABCDEF0)
						boot(x, dirty)
						boot(x, x)
						y := p.f(ev, A, B)
						boot(y, A)
						for k, o := range []*tlwe.TLWELv0{dirty, x, A} {
							if !eq(o.P, ref) {
								return fmt.Errorf("BootstrapAssign into %s of Prepare%s(%v,%v) gives %08x, Bootstrap %08x", []string{"a used ciphertext", "its own input", "an operand"}[k], p.name, a, b, o.P, ref)
							}
						}
						if !eq(tmp.P, ref) {
							return fmt.Errorf("BootstrapAssign changed an earlier Bootstrap result")
						}
						c.State(d, w, v, e)
					}
				}
			}
			if ckHash(env.ck) != env.h {
				return fmt.Errorf("evaluation key modified")
			}
			c.Outcome(d)
			return nil
		})
	}
	// 6. the shipped levels themselves
	{
		lv := []string{"Uint5", "Uint4", "Uint3", "128", "Uint1", "110", "80", "Uint2"}
		if full {
			lv = append(lv, "Uint6", "Uint7", "Uint8")
		}
		c.Suite("shipped-levels", int64(len(lv)), nil, func(i int64) error {
			l := shipped(lv[i])
			env := newGateEnv(l, hashKey(l.n0, 21), hashKey(l.n, 22))
			c.Describe(func() string { return l.name })
			for v := 0; v < 4; v++ {
				a, b := v&1 != 0, v&2 != 0
				A := tlwe.NewTLWELv0().EncryptBool(a, 0, env.sk.KeyLv0)
				B := tlwe.NewTLWELv0().EncryptBool(b, 0, env.sk.KeyLv0)
				for _, g := range gates2 {
					out := g.f(A, B, env.ck)
					c.Op(1)
					if got := out.DecryptBool(env.sk.KeyLv0); got != g.truth(a, b) {
						return fmt.Errorf("%s(%v,%v) decrypts to %v", g.name, a, b, got)
					}
					if d := dist(phase0(out.P, env.sk.KeyLv0), bphase(g.truth(a, b))); d > 3<<27 {
						return fmt.Errorf("%s(%v,%v): output error %d", g.name, a, b, d)
					}
					c.State(i, v, g.name, fnvT(0, out.P))
				}
				m := gates.MUX(A, B, gates.NOT(B), env.ck)
				c.Op(1)
				if got, want := m.DecryptBool(env.sk.KeyLv0), (a && b) || (!a && !b); got != want {
					return fmt.Errorf("MUX at shipped level: %v", got)
				}
			}
			return nil
		})
	}
}
