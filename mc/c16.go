package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	pre "github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	rnd "github.com/thedonutfactory/go-tfhe/zzverif/rand"
)

func init() {
	register(&Check{ID: "C16", Run: runC16, Level: "model_checking",
		Rule: "A state is the history of (level, use) steps executed so far with the outcome of the last step; a transition is a switch of params.CurrentSecurityLevel followed by one use (gates, batches, kept evaluator, new evaluator and copies, encryption, key generation, gadget encryption, public keys and re-encryption, tables, key switching, polynomial products); every use is judged by its own correctness oracle.",
		Bounds: map[string]string{
			"quick":    "documented table of all 11 shipped levels; 5 reduced levels (same and different ring degree, LWE dimension, gadget and key-switching shape) x 11 uses: all sequences of 2 uses and all sequences of 3 uses over 4 levels x 6 uses with kept keys; all ordered pairs of the real ring degrees 512/1024/2048 x 11 uses; every level order of length 4 with the whole battery; all ordered pairs A,B,A of the shipped levels 80, 110, 128, Uint1, Uint2 in full",
			"thorough": "all sequences of 3 uses over 5 levels x 11 uses, level orders of length 6, shipped triples",
		},
		Assumptions: []string{"objects made at one level are used at that level only", "documented values are those of README.md, params/UINT_STATUS.md and the comments of params.go"}})
}

type docLevel struct {
	name         string
	n0, n        int
	a0, a1       float64
	modulus      int
	sh           Shape
	info         []string
	sameNoiseAs  string
	unstatedA    bool
	experimental bool
}

var docTable = []docLevel{
	{name: "80", n0: 550, n: 1024, a0: 5.0e-5, a1: 3.73e-8, modulus: 2, sh: shapes[0], info: []string{"80"}},
	{name: "110", n0: 630, n: 1024, a0: 3.05e-5, a1: 2.98e-8, modulus: 2, sh: shapes[1], info: []string{"110"}},
	{name: "128", n0: 700, n: 1024, a0: 2.0e-5, a1: 2.0e-8, modulus: 2, sh: shapes[2], info: []string{"128"}},
	{name: "Uint1", n0: 700, n: 1024, a0: 2.0e-5, a1: 2.0e-8, modulus: 2, sh: shapes[3], info: []string{"uint1", "=2", "1024"}},
	{name: "Uint2", n0: 687, n: 512, a0: 0.0000212, a1: 2.318e-12, modulus: 4, sh: shapes[4], info: []string{"uint2", "=4", "512"}},
	{name: "Uint3", n0: 820, n: 1024, a0: 0.000002517, a1: 2.2204e-16, modulus: 8, sh: shapes[5], info: []string{"uint3", "=8", "1024"}},
	{name: "Uint4", n0: 820, n: 2048, a0: 0.000002517, a1: 2.2204e-16, modulus: 16, sh: shapes[6], info: []string{"uint4", "=16", "2048"}},
	{name: "Uint5", n0: 1071, n: 2048, a0: 7.1e-8, a1: 2.22e-17, modulus: 32, sh: shapes[7], info: []string{"uint5", "=32", "2048"}},
	{name: "Uint6", n0: 1071, n: 2048, a0: 7.1e-8, a1: 2.22e-17, modulus: 64, sh: shapes[7], info: []string{"uint6", "=64", "2048"}, experimental: true},
	{name: "Uint7", n0: 1160, n: 2048, a0: 1.966e-8, a1: 2.22e-17, modulus: 128, sh: shapes[8], info: []string{"uint7", "=128", "2048"}, experimental: true},
	{name: "Uint8", n0: 1160, n: 2048, a0: 1.966e-8, a1: 2.22e-17, modulus: 256, sh: shapes[8], info: []string{"uint8", "=256", "2048"}, experimental: true},
}

func near(a, b float64) bool { return math.Abs(a-b) <= 0.01*math.Abs(b) }

func checkTable(d docLevel) error {
	id := params.SecurityLevel(-1)
	for _, s := range shippedIDs {
		if s.name == d.name {
			id = s.id
		}
	}
	params.CurrentSecurityLevel = id
	p0, p1, r1, g := params.GetTLWELv0(), params.GetTLWELv1(), params.GetTRLWELv1(), params.GetTRGSWLv1()
	switch {
	case p0.N != d.n0:
		return fmt.Errorf("LWE dimension %d, documented %d", p0.N, d.n0)
	case p1.N != d.n || r1.N != d.n || g.N != d.n:
		return fmt.Errorf("ring degrees %d/%d/%d, documented %d", p1.N, r1.N, g.N, d.n)
	case 1<<g.NBIT != g.N || bits.OnesCount(uint(g.N)) != 1:
		return fmt.Errorf("NBIT %d does not match ring degree %d", g.NBIT, g.N)
	case g.BG != 1<<g.BGBIT:
		return fmt.Errorf("gadget base %d is not 2^%d", g.BG, g.BGBIT)
	case g.L < 1 || g.L*int(g.BGBIT) > 32:
		return fmt.Errorf("%d gadget digits of %d bits do not fit 32 bits", g.L, g.BGBIT)
	case g.IKS_T < 1 || g.BASEBIT < 1 || g.BASEBIT*g.IKS_T > 31:
		return fmt.Errorf("%d key-switching digits of %d bits do not fit", g.IKS_T, g.BASEBIT)
	case (Shape{int(g.BGBIT), g.L, g.BASEBIT, g.IKS_T}) != d.sh:
		return fmt.Errorf("shape %v, documented %v", Shape{int(g.BGBIT), g.L, g.BASEBIT, g.IKS_T}, d.sh)
	case !near(p0.ALPHA, d.a0):
		return fmt.Errorf("level-0 noise %g, documented %g", p0.ALPHA, d.a0)
	case !near(p1.ALPHA, d.a1):
		return fmt.Errorf("level-1 noise %g, documented %g", p1.ALPHA, d.a1)
	case r1.ALPHA != p1.ALPHA || g.ALPHA != p1.ALPHA:
		return fmt.Errorf("level-1 noise differs between components: %g %g %g", p1.ALPHA, r1.ALPHA, g.ALPHA)
	case !(p1.ALPHA < p0.ALPHA):
		return fmt.Errorf("level-1 noise %g is not below level-0 noise %g", p1.ALPHA, p0.ALPHA)
	case params.KSKAlpha() != p0.ALPHA:
		return fmt.Errorf("key-switching noise %g, level-0 noise %g", params.KSKAlpha(), p0.ALPHA)
	case params.BSKAlpha() != p1.ALPHA:
		return fmt.Errorf("bootstrapping noise %g, level-1 noise %g", params.BSKAlpha(), p1.ALPHA)
	case g.BlockSize < 1:
		return fmt.Errorf("block size %d", g.BlockSize)
	case params.GetBlockCount() != (p0.N+g.BlockSize-1)/g.BlockSize:
		return fmt.Errorf("%d blocks of %d for dimension %d", params.GetBlockCount(), g.BlockSize, p0.N)
	case params.UseBlockBlindRotation() != (g.BlockSize > 1):
		return fmt.Errorf("UseBlockBlindRotation %v with block size %d", params.UseBlockBlindRotation(), g.BlockSize)
	case d.modulus*2 > g.N:
		return fmt.Errorf("message space %d does not fit ring degree %d", d.modulus, g.N)
	}
	info := strings.ToLower(params.SecurityInfo())
	for _, w := range d.info {
		if !strings.Contains(info, w) {
			return fmt.Errorf("description %q does not mention %q", params.SecurityInfo(), w)
		}
	}
	for _, o := range docTable {
		if o.name != d.name && strings.Contains(info, strings.ToLower(o.info[0])) && !strings.Contains(strings.ToLower(d.name), o.info[0]) && strings.HasPrefix(o.name, "Uint") {
			return fmt.Errorf("description %q names level %s", params.SecurityInfo(), o.name)
		}
	}
	return nil
}

// site is everything one keeps for one level.
type site struct {
	l    Level
	env  *gateEnv
	ev   *evaluator.Evaluator
	tab  *lut.LookUpTable
	gen  *lut.Generator
	ks   *ksEnv
	pk   *pre.PublicKeyLv0
	k2   []T
	rk   *pre.ProxyReencryptionKey
	outs map[int][][]T // words seen at the first visit, per use
}

func gridMask(l Level, seed uint64) []T {
	m := hashMask(l.n0, seed)
	g := ^(T(1)<<uint(32-log2i(2*l.n)) - 1)
	for i := range m {
		m[i] &= g
	}
	return m
}

func newSite(l Level) *site {
	l.use()
	rnd.Quiet(true)
	s := &site{l: l, outs: map[int][][]T{}}
	s.env = newGateEnv(l, hashKey(l.n0, uint64(l.n0*31+l.n)), hashKey(l.n, uint64(l.n0+l.n*7)))
	s.ks = &ksEnv{gateEnv: s.env, w: wt(s.env.sk.KeyLv1)}
	s.ev = evaluator.NewEvaluator(l.n)
	s.gen = lut.NewGenerator(4)
	s.tab = s.gen.GenLookUpTable(func(x int) int { return 3 - x })
	s.k2 = hashKey(l.n0, 99)
	s.pk = pre.NewPublicKeyLv0WithParams(s.k2, 3, 0)
	s.rk = pre.NewProxyReencryptionKeySymmetricWithParams(s.env.sk.KeyLv0, s.k2, 0, 2, 8)
	return s
}

func (s *site) bit(b bool, seed uint64) *tlwe.TLWELv0 {
	return mkCt(gridMask(s.l, seed), s.env.sk.KeyLv0, bphase(b))
}

type use struct {
	name string
	core bool
	f    func(c *Ctx, s *site) ([][]T, error) // deterministic words, if any
}

func pbsAll(e *gateEnv, l Level, ev *evaluator.Evaluator, tab *lut.LookUpTable) error {
	ck := e.ck
	for x := 0; x < 4; x++ {
		in := mkCt(gridMask(l, uint64(x)), e.sk.KeyLv0, encPhase(x, 4))
		if err := checkMsg(e, ev.BootstrapLUT(in, tab, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset), 3-x, 4); err != nil {
			return fmt.Errorf("BootstrapLUT of %d: %w", x, err)
		}
	}
	in := mkCt(gridMask(l, 9), e.sk.KeyLv0, encPhase(2, 4))
	if err := checkMsg(e, ev.BootstrapFunc(in, func(x int) int { return x + 1 }, 4, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset), 3, 4); err != nil {
		return fmt.Errorf("BootstrapFunc: %w", err)
	}
	return nil
}

func uses() []use {
	fresh := []use{
		{"gates", true, func(c *Ctx, s *site) ([][]T, error) {
			var out [][]T
			for gi, g := range gates2 {
				v := gi & 3
				r := g.f(s.bit(v&1 == 1, uint64(gi)), s.bit(v&2 == 2, 77), s.env.ck)
				c.Op(1)
				if err := checkBit(s.l, s.env.sk, r, g.truth(v&1 == 1, v&2 == 2), s.env.tol); err != nil {
					return nil, fmt.Errorf("%s: %w", g.name, err)
				}
				out = append(out, r.P)
			}
			r := gates.MUX(s.bit(true, 5), s.bit(false, 6), s.bit(true, 7), s.env.ck)
			if err := checkBit(s.l, s.env.sk, r, false, 3*s.env.tol); err != nil {
				return nil, fmt.Errorf("MUX: %w", err)
			}
			n := gates.NOT(gates.Constant(true))
			if err := checkBit(s.l, s.env.sk, n, false, 8); err != nil {
				return nil, fmt.Errorf("NOT(Constant): %w", err)
			}
			return append(out, r.P), nil
		}},
		{"batches", true, func(c *Ctx, s *site) ([][]T, error) {
			var in [][2]*tlwe.TLWELv0
			for v := 0; v < 4; v++ {
				in = append(in, [2]*tlwe.TLWELv0{s.bit(v&1 == 1, uint64(v)), s.bit(v&2 == 2, 50)})
			}
			var out [][]T
			for bi, b := range batch2 {
				if bi%3 != s.l.n0%3 && bi > 1 {
					continue
				}
				rs := b.f(in, s.env.ck)
				c.Op(1)
				if len(rs) != 4 {
					return nil, fmt.Errorf("%s returned %d results", b.name, len(rs))
				}
				for v, r := range rs {
					if err := checkBit(s.l, s.env.sk, r, b.t(v&1 == 1, v&2 == 2), s.env.tol); err != nil {
						return nil, fmt.Errorf("%s item %d: %w", b.name, v, err)
					}
					out = append(out, r.P)
				}
			}
			return out, nil
		}},
		{"kept evaluator", true, func(c *Ctx, s *site) ([][]T, error) {
			c.Op(5)
			return nil, pbsAll(s.env, s.l, s.ev, s.tab)
		}},
		{"new evaluator and copy", true, func(c *Ctx, s *site) ([][]T, error) {
			ev := evaluator.NewEvaluator(s.l.n)
			c.Op(10)
			if err := pbsAll(s.env, s.l, ev, s.tab); err != nil {
				return nil, err
			}
			if err := pbsAll(s.env, s.l, ev.ShallowCopy(), s.tab); err != nil {
				return nil, fmt.Errorf("shallow copy: %w", err)
			}
			return nil, pbsAll(s.env, s.l, s.ev.ShallowCopy(), s.tab)
		}},
		{"encryption", false, func(c *Ctx, s *site) ([][]T, error) {
			pe := poly.NewEvaluator(s.l.n)
			for _, b := range []bool{true, false} {
				if x := tlwe.NewTLWELv0().EncryptBool(b, 0, s.env.sk.KeyLv0); len(x.P) != s.l.n0+1 || x.DecryptBool(s.env.sk.KeyLv0) != b || dist(phase0(x.P, s.env.sk.KeyLv0), bphase(b)) > 4 {
					return nil, fmt.Errorf("level-0 encryption of %v", b)
				}
				if x := tlwe.NewTLWELv1().EncryptBool(b, 0, s.env.sk.KeyLv1); len(x.P) != s.l.n+1 || x.DecryptBool(s.env.sk.KeyLv1) != b || dist(phase0(x.P, s.env.sk.KeyLv1), bphase(b)) > 4 {
					return nil, fmt.Errorf("level-1 encryption of %v", b)
				}
			}
			for m := 0; m < 8; m++ {
				x := tlwe.NewTLWELv0()
				x.EncryptLWEMessage(m, 8, 0, s.env.sk.KeyLv0)
				if g := x.DecryptLWEMessage(8, s.env.sk.KeyLv0); g != m {
					return nil, fmt.Errorf("message %d decrypts to %d", m, g)
				}
			}
			v := make([]bool, s.l.n)
			for i := range v {
				v[i] = mix(uint64(i))&8 == 0
			}
			r := trlwe.NewTRLWELv1().EncryptBool(v, 0, s.env.sk.KeyLv1, pe)
			c.Op(14)
			if len(r.A) != s.l.n || len(r.B) != s.l.n {
				return nil, fmt.Errorf("ring ciphertext has %d/%d coefficients", len(r.A), len(r.B))
			}
			if g := r.DecryptBool(s.env.sk.KeyLv1, pe); !eqB(g, v) {
				return nil, fmt.Errorf("ring vector decrypts wrongly")
			}
			return nil, nil
		}},
		{"key generation", true, func(c *Ctx, s *site) ([][]T, error) {
			sk := key.NewSecretKey()
			if len(sk.KeyLv0) != s.l.n0 || len(sk.KeyLv1) != s.l.n {
				return nil, fmt.Errorf("secret key of %d/%d bits", len(sk.KeyLv0), len(sk.KeyLv1))
			}
			ck := cloudkey.NewCloudKey(sk)
			e := &gateEnv{l: s.l, sk: sk, ck: ck, tol: refreshTol(s.l, sk)}
			c.Op(3)
			if len(ck.BootstrappingKey) != s.l.n0 || ck.DecompositionOffset != s.env.ck.DecompositionOffset {
				return nil, fmt.Errorf("evaluation key: %d entries, offset %08x", len(ck.BootstrappingKey), uint32(ck.DecompositionOffset))
			}
			a, b := mkCt(gridMask(s.l, 3), sk.KeyLv0, bphase(true)), mkCt(gridMask(s.l, 4), sk.KeyLv0, bphase(false))
			if err := checkBit(s.l, sk, gates.NAND(a, b, ck), true, e.tol); err != nil {
				return nil, fmt.Errorf("NAND with new keys: %w", err)
			}
			return nil, pbsAll(e, s.l, s.ev, s.tab)
		}},
		{"gadget encryption", false, func(c *Ctx, s *site) ([][]T, error) {
			g := newGadEnv(s.l, s.env.sk.KeyLv1)
			m, p := hashMask(s.l.n, 3), hashMask(s.l.n, 4)
			ct, z := g.ct(m, p), g.ct(hashMask(s.l.n, 5), p)
			for b := 0; b < 2; b++ {
				want := make([]T, s.l.n)
				if b == 1 {
					want = p
				}
				if err := g.near("ExternalProductWithFFT", trgsw.ExternalProductWithFFT(g.bit[b], ct, g.off, g.pe), want, g.tol[b], c); err != nil {
					return nil, err
				}
				if err := g.near("CMUX", trgsw.CMUX(z, ct, g.bit[b], g.off, g.pe), p, g.tol[1]+4, c); err != nil {
					return nil, err
				}
				o := trlwe.NewTRLWELv1()
				s.ev.CMuxAssign(g.bit[b], z, ct, g.off, o)
				if err := g.near("CMuxAssign", o, p, g.tol[1]+4, c); err != nil {
					return nil, err
				}
			}
			return nil, nil
		}},
		{"public key and re-encryption", true, func(c *Ctx, s *site) ([][]T, error) {
			for _, b := range []bool{true, false} {
				ct := s.pk.EncryptBool(b, 0)
				if len(ct.P) != s.l.n0+1 || dist(phase0(ct.P, s.k2), bphase(b)) > 16 {
					return nil, fmt.Errorf("public-key encryption of %v: phase %08x", b, uint32(phase0(ct.P, s.k2)))
				}
				pk := pre.NewPublicKeyLv0WithParams(s.k2, 3, 0)
				if ct := pk.EncryptBool(b, 0); len(ct.P) != s.l.n0+1 || dist(phase0(ct.P, s.k2), bphase(b)) > 16 {
					return nil, fmt.Errorf("new public key: encryption of %v: phase %08x", b, uint32(phase0(ct.P, s.k2)))
				}
				rk := pre.NewProxyReencryptionKeySymmetricWithParams(s.env.sk.KeyLv0, s.k2, 0, 2, 8)
				for _, r := range []*pre.ProxyReencryptionKey{s.rk, rk} {
					o := pre.ReencryptTLWELv0(s.bit(b, 8), r)
					if len(o.P) != s.l.n0+1 || uint64(dist(phase0(o.P, s.k2), bphase(b))) > reencTol(s.env.sk.KeyLv0, bshape{2, 8}) {
						return nil, fmt.Errorf("re-encryption of %v: phase %08x", b, uint32(phase0(o.P, s.k2)))
					}
				}
			}
			c.Op(10)
			return nil, nil
		}},
		{"tables", false, func(c *Ctx, s *site) ([][]T, error) {
			f := func(x int) int { return x*x + 1 }
			for _, g := range []*lut.Generator{s.gen, lut.NewGenerator(4)} {
				t := g.GenLookUpTable(f)
				if err := lutOK(t.Poly.B, t.Poly.A, s.l.n, 4, func(x int) T { return encPhase(f(x)%4, 4) }); err != nil {
					return nil, err
				}
			}
			c.Op(2)
			return nil, nil
		}},
		{"key switching", false, func(c *Ctx, s *site) ([][]T, error) {
			for k := uint64(0); k < 3; k++ {
				if err := s.ks.try(c, &tlwe.TLWELv1{P: hashMask(s.l.n+1, k)}, tlwe.NewTLWELv0(), true); err != nil {
					return nil, err
				}
			}
			return nil, nil
		}},
		{"polynomials", false, func(c *Ctx, s *site) ([][]T, error) {
			a, b := poly.Poly{Coeffs: hashMask(s.l.n, 1)}, poly.Poly{Coeffs: hashKey(s.l.n, 2)}
			want := negMul(a.Coeffs, b.Coeffs)
			for _, pe := range []*poly.Evaluator{poly.NewEvaluator(s.l.n), s.ev.PolyEvaluator, s.ev.PolyEvaluator.ShallowCopy()} {
				m := pe.MulPoly(a, b)
				c.Op(1)
				if d, at := maxDist(m.Coeffs, want); float64(d) > fftMulTol(s.l.n) {
					return nil, fmt.Errorf("product off by %d at %d", d, at)
				}
			}
			return nil, nil
		}},
	}
	return fresh
}

func (s *site) run(c *Ctx, us []use, u int) error {
	s.l.use()
	words, err := us[u].f(c, s)
	if err != nil {
		return fmt.Errorf("level %s, %s: %w", s.l.name, us[u].name, err)
	}
	if words != nil {
		if old, ok := s.outs[u]; ok {
			if len(old) != len(words) {
				return fmt.Errorf("level %s, %s: %d results, earlier %d", s.l.name, us[u].name, len(words), len(old))
			}
			for i := range words {
				if !eq(words[i], old[i]) {
					return fmt.Errorf("level %s, %s: result %d differs from the one at the first visit", s.l.name, us[u].name, i)
				}
			}
		} else {
			s.outs[u] = words
		}
	}
	return nil
}

func runC16(c *Ctx) {
	full := c.thorough()
	// every ordered pair of levels: the table does not depend on where one comes from
	nt := len(docTable)
	c.Suite("table", prod(nt, nt), nil, func(i int64) error {
		d := idx(i, nt, nt)
		c.Describe(func() string { return "level " + docTable[d[1]].name + " after " + docTable[d[0]].name })
		if d[0] != d[1] {
			if err := checkTable(docTable[d[0]]); err != nil {
				return fmt.Errorf("level %s: %w", docTable[d[0]].name, err)
			}
		}
		c.Op(8)
		c.State(d)
		c.Outcome(d[1])
		if err := checkTable(docTable[d[1]]); err != nil {
			return fmt.Errorf("level %s: %w", docTable[d[1]].name, err)
		}
		return nil
	})
	us := uses()
	var core []int
	for i, u := range us {
		if u.core {
			core = append(core, i)
		}
	}
	small := func() []Level {
		return []Level{
			tiny(2, 16, shapes[2], 0, 0),
			tiny(3, 32, shapes[2], 0, 0),
			tiny(2, 16, shapes[3], 0, 0),
			tiny(4, 16, shapes[2], 0, 0),
			tiny(3, 32, shapes[4], 0, 0),
		}
	}
	sequence := func(name string, levels func() []Level, nl int, al []int, depth int) {
		var sites map[int]*site
		step := nl * len(al)
		total := int64(1)
		for k := 0; k < depth; k++ {
			total *= int64(step)
		}
		c.Suite(name, total, func() { sites = map[int]*site{} }, func(i int64) error {
			ls := levels()
			x := i
			var what []string
			var ss, uu []int
			for k := 0; k < depth; k++ {
				y := int(x % int64(step))
				x /= int64(step)
				ss = append(ss, y%nl)
				uu = append(uu, al[y/nl])
			}
			c.Describe(func() string {
				for k := range ss {
					what = append(what, ls[ss[k]].name+": "+us[uu[k]].name)
				}
				return strings.Join(what, " ; ")
			})
			for k := range ss {
				if sites[ss[k]] == nil {
					sites[ss[k]] = newSite(ls[ss[k]])
				}
				if err := sites[ss[k]].run(c, us, uu[k]); err != nil {
					return fmt.Errorf("step %d: %w", k+1, err)
				}
			}
			c.State(ss, uu)
			c.Outcome(ss, uu)
			return nil
		})
	}
	all := make([]int, len(us))
	for i := range all {
		all[i] = i
	}
	sequence("pairs", small, 5, all, 2)
	if full {
		sequence("triples", small, 5, all, 3)
	} else {
		sequence("triples", small, 4, core, 3)
	}
	sequence("pairs-real-degrees", func() []Level {
		return []Level{tiny(2, 512, shapes[4], 0, 0), tiny(2, 1024, shapes[2], 0, 0), tiny(3, 2048, shapes[7], 0, 0)}
	}, 3, all, 2)
	// level orders with everything made afresh at each first visit
	{
		depth := 4
		if full {
			depth = 6
		}
		total := int64(1)
		for k := 0; k < depth; k++ {
			total *= 5
		}
		c.Suite("orders", total, nil, func(i int64) error {
			ls := small()
			sites := map[int]*site{}
			var ord []int
			x := i
			for k := 0; k < depth; k++ {
				ord = append(ord, int(x%5))
				x /= 5
			}
			c.Describe(func() string { return fmt.Sprintf("levels in order %v", ord) })
			for k, o := range ord {
				if sites[o] == nil {
					sites[o] = newSite(ls[o])
				}
				for u := range us {
					if err := sites[o].run(c, us, u); err != nil {
						return fmt.Errorf("visit %d of %v: %w", k+1, ord, err)
					}
				}
			}
			c.State(ord)
			c.Outcome(ord)
			return nil
		})
	}
	// shipped levels in full
	{
		names := []string{"80", "110", "128", "Uint1", "Uint2"}
		n := len(names)
		rad := []int{n, n}
		if full {
			rad = append(rad, n)
		}
		c.Suite("shipped", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			if len(d) == 2 {
				d = append(d, d[0])
			}
			c.Describe(func() string { return "levels " + names[d[0]] + ", " + names[d[1]] + ", " + names[d[2]] })
			sites := map[int]*site{}
			for _, o := range d {
				if sites[o] == nil {
					sites[o] = newSite(shipped(names[o]))
				}
				for _, u := range []int{0, 1, 2, 4, 8, 10} {
					if u == 0 { // two gates are enough here
						s := sites[o]
						s.l.use()
						r := gates.NAND(s.bit(true, 1), s.bit(true, 2), s.env.ck)
						if err := checkBit(s.l, s.env.sk, r, false, s.env.tol); err != nil {
							return fmt.Errorf("level %s, NAND: %w", names[o], err)
						}
						continue
					}
					if u == 1 {
						s := sites[o]
						s.l.use()
						r := gates.BatchOR([][2]*tlwe.TLWELv0{{s.bit(true, 1), s.bit(false, 2)}, {s.bit(false, 3), s.bit(false, 4)}}, s.env.ck)
						for v, w := range []bool{true, false} {
							if err := checkBit(s.l, s.env.sk, r[v], w, s.env.tol); err != nil {
								return fmt.Errorf("level %s, BatchOR item %d: %w", names[o], v, err)
							}
						}
						continue
					}
					if err := sites[o].run(c, us, u); err != nil {
						return err
					}
				}
			}
			c.State(d)
			c.Outcome(d)
			return nil
		})
	}
}
