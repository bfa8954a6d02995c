package main

import (
	"fmt"

	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/tlwe"
)

func init() {
	register(&Check{ID: "C05", Run: runC05, Level: "model_checking",
		Rule: "A state is the contents of all registers (ciphertexts) of a straight-line program, or one operand pair at one coordinate; a transition is one arithmetic call; a trace is one program whose every register is compared, after every step, with exact arithmetic modulo 2^32.",
		Bounds: map[string]string{
			"quick":    "all pairs of a 20-word alphabet x 12 multipliers (a quarter of the pairs: 276 multipliers, all powers of two and their neighbours) at every coordinate of every dimension 1..20 and the shipped ones; all programs of length 3 over 3 registers (7 operations, all aliasings)",
			"thorough": "all programs of length 4",
		},
		Assumptions: []string{"words outside the boundary alphabet are not enumerated individually (the operations act on each coordinate separately, which the coordinate sweep checks)"}})
}

var wordAlphabet = []T{0, 1, 2, 3, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFF, 0xFFFFFFFE, 0x20000000, 0xE0000000, 0x40000000, 0xC0000000, 0x0000FFFF, 0xFFFF0000, 0x00010000, 0x9E3779B9, 0x5A827999, 0x12345678, 0xDEADBEEF}
var mulAlphabet = []T{0, 1, 2, 3, 4, 7, 0xFFFFFFFF, 0xFFFFFFFE, 0x80000000, 0x00010000, 0x00010001, 0x9E3779B9}

// mulWide: every power of two with its neighbours, their negatives, and all small multipliers.
var mulWide = func() []T {
	r := append([]T(nil), mulAlphabet...)
	for k := 0; k < 32; k++ {
		p := T(1) << uint(k)
		r = append(r, p, p-1, p+1, -p, -p-1, -p+1)
	}
	for m := T(5); m <= 40; m++ {
		r = append(r, m, -m)
	}
	return r
}()

func runC05(c *Ctx) {
	full := c.thorough()
	{
		dims := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 63, 64, 65, 550, 630, 687, 700, 820, 1071, 1160}
		na := len(wordAlphabet)
		rad := []int{len(dims), na}
		c.Suite("operand-pairs", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			n0 := dims[d[0]]
			l := tiny(n0, 16, shapes[0], 0, 0)
			l.use()
			c.Describe(func() string { return fmt.Sprintf("n0=%d first word %08x", n0, uint32(wordAlphabet[d[1]])) })
			for k := 0; k < na; k++ {
				A, B := tlwe.NewTLWELv0(), tlwe.NewTLWELv0()
				if len(A.P) != n0+1 {
					return fmt.Errorf("NewTLWELv0 has %d words", len(A.P))
				}
				for j := range A.P {
					// every coordinate sees a different pair; over k and d[1] each sees all pairs
					A.P[j] = wordAlphabet[(d[1]+j)%na]
					B.P[j] = wordAlphabet[(k+3*j)%na]
				}
				pa, pb := clone(A.P), clone(B.P)
				want := make([]T, n0+1)
				cmp := func(name string, r *tlwe.TLWELv0, f func(a, b T) T) error {
					c.Op(1)
					for j := range want {
						want[j] = f(pa[j], pb[j])
					}
					if !eq(r.P, want) {
						for j := range want {
							if j >= len(r.P) || r.P[j] != want[j] {
								return fmt.Errorf("%s n0=%d coordinate %d: a=%08x b=%08x gives %08x want %08x", name, n0, j, uint32(pa[j]), uint32(pb[j]), uint32(r.P[j]), uint32(want[j]))
							}
						}
						return fmt.Errorf("%s: wrong length %d", name, len(r.P))
					}
					if !eq(A.P, pa) || !eq(B.P, pb) {
						return fmt.Errorf("%s modified an operand", name)
					}
					for j := range r.P {
						r.P[j] += 0x01010101
					}
					if !eq(A.P, pa) || !eq(B.P, pb) {
						return fmt.Errorf("%s: the result shares storage with an operand", name)
					}
					return nil
				}
				if err := cmp("Add", A.Add(B), func(a, b T) T { return a + b }); err != nil {
					return err
				}
				if err := cmp("Sub", A.Sub(B), func(a, b T) T { return a - b }); err != nil {
					return err
				}
				if err := cmp("Neg", A.Neg(), func(a, b T) T { return -a }); err != nil {
					return err
				}
				if err := cmp("NOT", gates.NOT(A), func(a, b T) T { return -a }); err != nil {
					return err
				}
				if err := cmp("Copy", gates.Copy(A), func(a, b T) T { return a }); err != nil {
					return err
				}
				if err := cmp("Mul", A.Mul(B), func(a, b T) T { return a * b }); err != nil {
					return err
				}
				ms := mulAlphabet
				if k == d[1] || n0 <= 20 && k%4 == d[1]%4 {
					ms = mulWide
				}
				for _, m := range ms {
					if err := cmp(fmt.Sprintf("AddMul(%08x)", uint32(m)), A.AddMul(B, m), func(a, b T) T { return a + b*m }); err != nil {
						return err
					}
					if err := cmp(fmt.Sprintf("SubMul(%08x)", uint32(m)), A.SubMul(B, m), func(a, b T) T { return a - b*m }); err != nil {
						return err
					}
				}
				O := dirtyCt(n0)
				A.AddAssign(B, O)
				if err := cmp("AddAssign", O, func(a, b T) T { return a + b }); err != nil {
					return err
				}
				if A.B() != pa[n0] {
					return fmt.Errorf("B() gives %08x", uint32(A.B()))
				}
				O.SetB(0x13572468)
				if O.P[n0] != 0x13572468 {
					return fmt.Errorf("SetB did not set the last word")
				}
				c.State(d, k)
			}
			c.Outcome(d[1])
			return nil
		})
	}
	// programs
	{
		const R = 3
		type op struct {
			name string
			dst  int
			a, b int
			k    int
		}
		var ops []op
		for dst := 0; dst < R; dst++ {
			for a := 0; a < R; a++ {
				ops = append(ops, op{"Neg", dst, a, a, 0})
				for b := 0; b < R; b++ {
					for k, n := range []string{"Add", "Sub", "AddMul2", "SubMul3", "AddAssign"} {
						ops = append(ops, op{n, dst, a, b, k + 1})
					}
				}
			}
		}
		no := len(ops)
		depth := 3
		if full {
			depth = 4
		}
		rad := []int{no, no}
		c.Suite("programs", prod(rad...), nil, func(i int64) error {
			d := idx(i, rad...)
			l := tiny(3, 16, shapes[0], 0, 0)
			l.use()
			c.Describe(func() string { return fmt.Sprintf("%v; %v; ...", ops[d[0]], ops[d[1]]) })
			rest := 1
			for k := 2; k < depth; k++ {
				rest *= no
			}
			for r := 0; r < rest; r++ {
				prog := []int{d[0], d[1]}
				for k, x := 2, r; k < depth; k++ {
					prog = append(prog, x%no)
					x /= no
				}
				var reg [R]*tlwe.TLWELv0
				var mod [R][]T
				for q := range reg {
					mod[q] = []T{wordAlphabet[q+4], wordAlphabet[q+7], wordAlphabet[q+16], wordAlphabet[q+9]}
					reg[q] = ct0(mod[q]...)
				}
				for s, oi := range prog {
					o := ops[oi]
					want := make([]T, 4)
					for j := range want {
						a, b := mod[o.a][j], mod[o.b][j]
						switch o.k {
						case 0:
							want[j] = -a
						case 1:
							want[j] = a + b
						case 2:
							want[j] = a - b
						case 3:
							want[j] = a + 2*b
						case 4:
							want[j] = a - 3*b
						case 5:
							want[j] = a + b
						}
					}
					switch o.k {
					case 0:
						reg[o.dst] = reg[o.a].Neg()
					case 1:
						reg[o.dst] = reg[o.a].Add(reg[o.b])
					case 2:
						reg[o.dst] = reg[o.a].Sub(reg[o.b])
					case 3:
						reg[o.dst] = reg[o.a].AddMul(reg[o.b], 2)
					case 4:
						reg[o.dst] = reg[o.a].SubMul(reg[o.b], 3)
					case 5:
						reg[o.a].AddAssign(reg[o.b], reg[o.dst])
					}
					mod[o.dst] = want
					for q := range reg {
						if !eq(reg[q].P, mod[q]) {
							return fmt.Errorf("program %v step %d: register %d is %08x want %08x", prog, s, q, reg[q].P, mod[q])
						}
					}
				}
				if r%no == 0 {
					c.State(prog)
				}
			}
			c.Bulk(int64(rest))
			c.Op(rest * depth)
			return nil
		})
	}
}
