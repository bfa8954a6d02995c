package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/thedonutfactory/go-tfhe/lut"
)

func init() {
	register(&Check{ID: "C19", Run: runC19, Level: "model_checking",
		Rule: "A state is (ring degree, modulus, scale, function, variant) with the whole generated table; a transition is one table generation, copy or clear; for histories a state is the sequence of operations on one generator together with all tables made so far. Every position of every table is compared with the encoding of f at the message whose slot contains it.",
		Bounds: map[string]string{
			"quick":    "N in {8,16,32,64,512,1024,2048}; all moduli 1..N/2 for N<=64, 1..130 and powers of two up to N/2 for the large ones; all m^m functions for m<=4, 14 families (including out-of-range and negative values) above; 5 scales; dirty outputs; all sequences of 3 operations out of 20 (12 of them with a function that panics) on one generator; ModSwitch at all 2^16 high halves and every rounding boundary +-2",
			"thorough": "all moduli 1..N/2 for N=512,1024; all functions for m<=6",
		},
		Assumptions: []string{"a position within one of a slot boundary may hold either neighbour's value", "the modulus is at most N/2"}})
}

// lutOK checks every position of a table.
func lutOK(p []T, a []T, n, m int, enc func(x int) T) error {
	for _, w := range a {
		if w != 0 {
			return fmt.Errorf("mask part of the table is not zero")
		}
	}
	if len(p) != n {
		return fmt.Errorf("table has %d positions", len(p))
	}
	at := func(x int) T {
		if x >= m {
			return -enc(x - m)
		}
		return enc(x)
	}
	w := float64(n) / float64(m)
	for i := 0; i < n; i++ {
		y := (float64(i) + w/2) / w // slot index + fraction inside
		x := int(math.Floor(y))
		if dist(p[i], at(x)) <= 2 {
			continue
		}
		in := (y - float64(x)) * w // distance from the lower boundary in positions
		if in <= 1.01 && x > 0 && dist(p[i], at(x-1)) <= 2 {
			continue
		}
		if w-in <= 1.01 && dist(p[i], at(x+1)) <= 2 {
			continue
		}
		return fmt.Errorf("position %d of %d (slot of message %d%s): %08x, want %08x", i, n, x%m, map[bool]string{true: " negated", false: ""}[x >= m], uint32(p[i]), uint32(at(x)))
	}
	return nil
}

func lutFuncs(m int) []func(int) int {
	fs := funcFamily(m)
	fs = append(fs,
		func(x int) int { return -x - 1 },
		func(x int) int { return x + 3*m },
		func(x int) int { return x * x * x },
		func(x int) int { return int(mix(uint64(x)) >> 40) },
		func(x int) int { return -int(mix(uint64(x+99)) >> 40) })
	return fs
}

func runC19(c *Ctx) {
	full := c.thorough()
	type cfg struct {
		n, m int
	}
	var cfgs []cfg
	for _, n := range []int{8, 16, 32, 64} {
		for m := 1; m <= n/2; m++ {
			cfgs = append(cfgs, cfg{n, m})
		}
	}
	for _, n := range []int{512, 1024, 2048} {
		top := 130
		if full && n <= 1024 {
			top = n / 2
		}
		for m := 1; m <= top; m++ {
			cfgs = append(cfgs, cfg{n, m})
		}
		for m := 256; m <= n/2; m *= 2 {
			if m > top {
				cfgs = append(cfgs, cfg{n, m})
			}
		}
	}
	scales := []func(m int) float64{
		nil, // default
		func(m int) float64 { return 1 / float64(m) },
		func(m int) float64 { return 1 / float64(4*m) },
		func(m int) float64 { return 1 / float64(8*m) },
		func(m int) float64 { return 0.3 / float64(m) },
	}
	one := func(d []int, cf cfg, f func(int) int, fi int) error {
		l := tiny(2, cf.n, shapes[2], 0, 0)
		l.use()
		var g *lut.Generator
		scale := 1 / float64(2*cf.m)
		if sf := scales[d[1]]; sf == nil {
			g = lut.NewGenerator(cf.m)
		} else {
			scale = sf(cf.m)
			g = lut.NewGeneratorWithScale(cf.m, scale)
		}
		enc := func(x int) T {
			r := ((f(x) % cf.m) + cf.m) % cf.m
			return T(int64(math.Mod(float64(r)*scale, 1) * (1 << 32)))
		}
		ge := *g.Encoder
		gd := [2]int{g.PolyDegree, g.LookUpTableSize}
		bad := 0
		ff := func(x int) int {
			if x < 0 || x >= cf.m {
				bad++
				x = ((x % cf.m) + cf.m) % cf.m
			}
			return f(x)
		}
		t := g.GenLookUpTable(ff)
		if err := lutOK(t.Poly.B, t.Poly.A, cf.n, cf.m, enc); err != nil {
			return fmt.Errorf("GenLookUpTable: %w", err)
		}
		t2 := lut.NewLookUpTable()
		for i := range t2.Poly.B {
			t2.Poly.A[i], t2.Poly.B[i] = T(i)*77+1, ^T(i)
		}
		g.GenLookUpTableAssign(ff, t2)
		if !same(t.Poly, t2.Poly) {
			return fmt.Errorf("GenLookUpTableAssign into a used table differs from GenLookUpTable")
		}
		fT := func(x int) T {
			if x < 0 || x >= cf.m {
				bad++
				x = ((x % cf.m) + cf.m) % cf.m
			}
			return g.Encoder.Encode(f(x))
		}
		t3 := g.GenLookUpTableFull(fT)
		if !same(t.Poly, t3.Poly) {
			return fmt.Errorf("GenLookUpTableFull with the encoded function differs from GenLookUpTable")
		}
		raw := func(x int) T { return T(mix(uint64(x)*5+uint64(fi)) >> 9) }
		for i := range t2.Poly.B {
			t2.Poly.A[i], t2.Poly.B[i] = T(i)*77+1, ^T(i)
		}
		g.GenLookUpTableFullAssign(raw, t2)
		if err := lutOK(t2.Poly.B, t2.Poly.A, cf.n, cf.m, raw); err != nil {
			return fmt.Errorf("GenLookUpTableFullAssign: %w", err)
		}
		other := lut.NewGenerator(cf.m%5 + 2)
		oe := *other.Encoder
		t4 := other.GenLookUpTableCustom(ff, cf.m, scale)
		if !same(t.Poly, t4.Poly) {
			return fmt.Errorf("GenLookUpTableCustom(m=%d, scale=%v) differs from a generator of that modulus and scale", cf.m, scale)
		}
		if *other.Encoder != oe || *g.Encoder != ge || [2]int{g.PolyDegree, g.LookUpTableSize} != gd {
			return fmt.Errorf("generating a table changed the generator")
		}
		if bad > 0 {
			return fmt.Errorf("f was consulted outside 0..%d (%d times)", cf.m-1, bad)
		}
		c.Op(5)
		c.State(d, fi)
		c.Outcome(fnvT(0, t.Poly.B))
		return nil
	}
	c.Suite("families", prod(len(cfgs), len(scales)), nil, func(i int64) error {
		d := idx(i, len(cfgs), len(scales))
		cf := cfgs[d[0]]
		fs := lutFuncs(cf.m)
		c.Describe(func() string { return fmt.Sprintf("N=%d m=%d scale %d, %d functions", cf.n, cf.m, d[1], len(fs)) })
		for fi, f := range fs {
			if err := one(d, cf, f, fi); err != nil {
				return fmt.Errorf("N=%d m=%d scale variant %d function %d: %w", cf.n, cf.m, d[1], fi, err)
			}
		}
		return nil
	})
	{
		top := 4
		if full {
			top = 6
		}
		var cs []cfg
		for m := 1; m <= top; m++ {
			for _, n := range []int{16, 32, 1024} {
				if n == 1024 && m > 3 {
					continue
				}
				cs = append(cs, cfg{n, m})
			}
		}
		c.Suite("all-functions", int64(len(cs)), nil, func(i int64) error {
			cf := cs[i]
			k := 1
			for j := 0; j < cf.m; j++ {
				k *= cf.m
			}
			c.Describe(func() string { return fmt.Sprintf("N=%d: all %d functions on 0..%d", cf.n, k, cf.m-1) })
			for fi := 0; fi < k; fi++ {
				tab := make([]int, cf.m)
				x := fi
				for j := range tab {
					tab[j] = x % cf.m
					x /= cf.m
				}
				if err := one([]int{int(i), 0}, cf, func(x int) int { return tab[x] }, fi); err != nil {
					return fmt.Errorf("N=%d m=%d f=%v: %w", cf.n, cf.m, tab, err)
				}
			}
			return nil
		})
	}
	// histories on one generator
	{
		type st struct {
			g    *lut.Generator
			tabs []*lut.LookUpTable
			snap [][]T
			from []string
		}
		type op struct {
			name string
			f    func(s *st) (*lut.LookUpTable, []T)
		}
		fa := func(x int) int { return 3 - x }
		fb := func(x int) int { return x * x }
		ft := func(x int) T { return T(x+1) * 0x1234567 }
		ref := map[string][]T{}
		mk := func(name string, g func() *lut.LookUpTable) []T {
			if ref[name] == nil {
				ref[name] = clone(g().Poly.B)
			}
			return ref[name]
		}
		fresh := func() *lut.Generator { return lut.NewGenerator(4) }
		ops := []op{
			{"gen a", func(s *st) (*lut.LookUpTable, []T) {
				return s.g.GenLookUpTable(fa), mk("a", func() *lut.LookUpTable { return fresh().GenLookUpTable(fa) })
			}},
			{"gen b", func(s *st) (*lut.LookUpTable, []T) {
				return s.g.GenLookUpTable(fb), mk("b", func() *lut.LookUpTable { return fresh().GenLookUpTable(fb) })
			}},
			{"full", func(s *st) (*lut.LookUpTable, []T) {
				return s.g.GenLookUpTableFull(ft), mk("t", func() *lut.LookUpTable { return fresh().GenLookUpTableFull(ft) })
			}},
			{"custom m=3", func(s *st) (*lut.LookUpTable, []T) {
				return s.g.GenLookUpTableCustom(fb, 3, 0.2), mk("c3", func() *lut.LookUpTable { return fresh().GenLookUpTableCustom(fb, 3, 0.2) })
			}},
			{"custom m=8", func(s *st) (*lut.LookUpTable, []T) {
				return s.g.GenLookUpTableCustom(fa, 8, 0.0625), mk("c8", func() *lut.LookUpTable { return fresh().GenLookUpTableCustom(fa, 8, 0.0625) })
			}},
			{"assign over a copy", func(s *st) (*lut.LookUpTable, []T) {
				var t *lut.LookUpTable
				if len(s.tabs) > 0 {
					t = s.tabs[len(s.tabs)-1].Copy()
				} else {
					t = lut.NewLookUpTable()
				}
				s.g.GenLookUpTableAssign(fb, t)
				return t, mk("b", func() *lut.LookUpTable { return fresh().GenLookUpTable(fb) })
			}},
			{"copy of the last", func(s *st) (*lut.LookUpTable, []T) {
				if len(s.tabs) == 0 {
					return nil, nil
				}
				return s.tabs[len(s.tabs)-1].Copy(), s.snap[len(s.snap)-1]
			}},
			{"copy-from then clear a third", func(s *st) (*lut.LookUpTable, []T) {
				if len(s.tabs) == 0 {
					return nil, nil
				}
				a, b := lut.NewLookUpTable(), lut.NewLookUpTable()
				for i := range a.Poly.B {
					a.Poly.A[i], a.Poly.B[i] = 5, 6
				}
				a.CopyFrom(s.tabs[0])
				b.CopyFrom(a)
				b.Clear()
				for i := range b.Poly.B {
					if b.Poly.A[i] != 0 || b.Poly.B[i] != 0 {
						return b, make([]T, len(b.Poly.B))
					}
				}
				return a, s.snap[0]
			}},
		}
		// calls whose function panics half way (the caller recovers) count as operations without a result
		type g = *lut.Generator
		for _, at := range []int{0, 2} {
			bad := func(x int) int {
				if x == at {
					panic("f")
				}
				return x
			}
			for nm, run := range map[string]func(s g, t *lut.LookUpTable){
				"0 gen":         func(s g, t *lut.LookUpTable) { s.GenLookUpTable(bad) },
				"1 assign":      func(s g, t *lut.LookUpTable) { s.GenLookUpTableAssign(bad, t) },
				"2 full":        func(s g, t *lut.LookUpTable) { s.GenLookUpTableFull(func(x int) T { return T(bad(x)) }) },
				"3 full assign": func(s g, t *lut.LookUpTable) { s.GenLookUpTableFullAssign(func(x int) T { return T(bad(x)) }, t) },
				"4 custom m=3":  func(s g, t *lut.LookUpTable) { s.GenLookUpTableCustom(bad, 3, 0.2) },
				"5 custom m=8":  func(s g, t *lut.LookUpTable) { s.GenLookUpTableCustom(bad, 8, 0.0625) },
			} {
				ops = append(ops, op{fmt.Sprintf("%s, f panics at %d", nm, at), func(s *st) (*lut.LookUpTable, []T) {
					recovered(func() { run(s.g, lut.NewLookUpTable()) })
					return nil, nil
				}})
			}
		}
		sort.SliceStable(ops[8:], func(i, j int) bool { return ops[8+i].name < ops[8+j].name })
		n := len(ops)
		c.Suite("histories", prod(n, n, n), nil, func(i int64) error {
			d := idx(i, n, n, n)
			l := tiny(2, 16, shapes[2], 0, 0)
			l.use()
			s := &st{g: lut.NewGenerator(4)}
			ge := *s.g.Encoder
			c.Describe(func() string { return ops[d[0]].name + "; " + ops[d[1]].name + "; " + ops[d[2]].name })
			for k, o := range d {
				t, want := ops[o].f(s)
				c.Op(1)
				if *s.g.Encoder != ge || s.g.PolyDegree != 16 || s.g.LookUpTableSize != 16 {
					return fmt.Errorf("step %d (%s) changed the generator: %+v", k+1, ops[o].name, *s.g.Encoder)
				}
				for j := range s.tabs {
					if !eq(s.tabs[j].Poly.B, s.snap[j]) || !eq(s.tabs[j].Poly.A, make([]T, 16)) {
						return fmt.Errorf("step %d (%s) changed the table of %s", k+1, ops[o].name, s.from[j])
					}
				}
				if t == nil {
					continue
				}
				if !eq(t.Poly.B, want) || fnvT(0, t.Poly.A) != fnvT(0, make([]T, 16)) {
					return fmt.Errorf("step %d (%s) gives %v, a fresh generator %v", k+1, ops[o].name, t.Poly.B, want)
				}
				for j := range s.tabs {
					if overlap(s.tabs[j].Poly.B, t.Poly.B) || overlap(s.tabs[j].Poly.A, t.Poly.A) {
						return fmt.Errorf("step %d (%s): table shares storage with that of %s", k+1, ops[o].name, s.from[j])
					}
				}
				s.tabs, s.snap, s.from = append(s.tabs, t), append(s.snap, clone(t.Poly.B)), append(s.from, fmt.Sprintf("step %d", k+1))
			}
			c.State(d)
			c.Outcome(d)
			return nil
		})
	}
	// copies carry both components of any table, leave the original alone and share nothing with it
	degs := []int{16, 32, 64, 512, 1024, 2048}
	c.Suite("copies", prod(len(degs), 3, 3), nil, func(i int64) error {
		d := idx(i, len(degs), 3, 3)
		n := degs[d[0]]
		l := tiny(2, n, shapes[2], 0, 0)
		l.use()
		c.Describe(func() string { return fmt.Sprintf("%s: content %d, copy form %d", l.name, d[1], d[2]) })
		var src, dst *lut.LookUpTable
		switch d[1] {
		case 0:
			src = lut.NewGenerator(5).GenLookUpTable(func(x int) int { return x + 1 })
		default:
			src = lut.NewLookUpTable()
			copy(src.Poly.A, hashMask(n, uint64(d[1])+5))
			copy(src.Poly.B, hashMask(n, uint64(d[1])+7))
		}
		a, b := clone(src.Poly.A), clone(src.Poly.B)
		switch d[2] {
		case 0:
			dst = src.Copy()
		case 1:
			dst = lut.NewLookUpTable()
			dst.CopyFrom(src)
		case 2:
			dst = lut.NewLookUpTable()
			copy(dst.Poly.A, hashMask(n, 91))
			copy(dst.Poly.B, hashMask(n, 92))
			dst.CopyFrom(src)
		}
		c.Op(1)
		if !eq(dst.Poly.A, a) || !eq(dst.Poly.B, b) {
			return fmt.Errorf("the copy is not the table")
		}
		if !eq(src.Poly.A, a) || !eq(src.Poly.B, b) {
			return fmt.Errorf("copying changed the table")
		}
		for _, p := range [][]T{dst.Poly.A, dst.Poly.B} {
			for j := range p {
				p[j] ^= 0x5A5A5A5A
			}
		}
		if !eq(src.Poly.A, a) || !eq(src.Poly.B, b) {
			return fmt.Errorf("writing into the copy changed the table")
		}
		dst.CopyFrom(src)
		src.Clear()
		if !eq(dst.Poly.A, a) || !eq(dst.Poly.B, b) || !eq(src.Poly.A, make([]T, n)) || !eq(src.Poly.B, make([]T, n)) {
			return fmt.Errorf("clearing the table changed its copy, or did not clear")
		}
		c.State(d)
		c.Outcome(d)
		return nil
	})
	ns := []int{8, 16, 64, 512, 1024, 2048}
	c.Suite("modswitch", int64(len(ns)), nil, func(i int64) error {
		n := ns[i]
		l := tiny(2, n, shapes[2], 0, 0)
		l.use()
		g := lut.NewGenerator(4)
		k := 0
		try := func(x T) error {
			k++
			p := g.ModSwitch(x)
			if p < 0 || p >= n {
				return fmt.Errorf("ModSwitch(%08x) = %d with %d positions", uint32(x), p, n)
			}
			// distance on the circle between x and p/n, at most half a position
			if d := dist(x, T(uint64(p)<<32/uint64(n))); uint64(d)*2*uint64(n) > 1<<32 {
				return fmt.Errorf("ModSwitch(%08x) = %d is not the nearest of %d positions", uint32(x), p, n)
			}
			return nil
		}
		for h := 0; h < 1<<16; h++ {
			for _, lo := range []T{0, 1, 0x7FFF, 0x8000, 0xFFFF} {
				if err := try(T(h)<<16 | lo); err != nil {
					return err
				}
			}
		}
		w := uint64(1) << 32 / uint64(2*n)
		for b := 0; b < 2*n; b++ {
			for o := -2; o <= 2; o++ {
				if err := try(T(uint64(b)*w) + T(o)); err != nil {
					return err
				}
			}
		}
		c.Bulk(int64(k))
		c.Op(k)
		c.Outcome(n)
		return nil
	})
}
