package main

import (
	"fmt"

	"github.com/thedonutfactory/go-tfhe/bitutils"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	rnd "github.com/thedonutfactory/go-tfhe/zzverif/rand"
)

func init() {
	register(&Check{ID: "C17", Run: runC17, Level: "model_checking",
		Rule: "A state is one (width, value) or one bit vector with the observed conversion; a transition is one conversion, encryption or decryption call. Integer-to-bits is compared bit by bit with the value's binary digits, bits-to-integer with the value, vectors with themselves after encryption and decryption.",
		Bounds: map[string]string{
			"quick":    "all 8- and 16-bit values; 32-bit: all 2^16 values of each half over 6 fillings of the other; 64-bit: all 2^16 values of each quarter over 6 fillings, all values with at most 3 set or cleared bits; ToBits at all sizes 0..64 over the same words; every returned vector overwritten for all 16-bit values; all bit vectors up to length 16 for each width, lengths to 64 with all 1- and 2-bit patterns; encryption of all vectors of length 0..9 under all keys at n0=2, lengths to 130, shipped levels with their own noise",
			"thorough": "all 2^32 32-bit values; all vectors up to length 20 per width; encryption of all vectors up to length 14",
		},
		Assumptions: []string{"vectors longer than the target width are out of contract and not judged"}})
}

func bitsOf(v uint64, n int) []bool {
	r := make([]bool, n)
	for i := range r {
		r[i] = i < 64 && v>>uint(i)&1 == 1
	}
	return r
}

func eqB(a, b []bool) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func bitStr(b []bool) string {
	s := []byte{}
	for _, x := range b {
		s = append(s, "01"[b2i(x)])
	}
	return string(s)
}

// wordOK checks the digits without allocating.
func wordOK(b []bool, v uint64, n int) bool {
	if len(b) != n {
		return false
	}
	for i, x := range b {
		w := i < 64 && v>>uint(i)&1 == 1
		if x != w {
			return false
		}
	}
	return true
}

func rt8(v uint8) error {
	b := bitutils.U8ToBits(v)
	if !wordOK(b, uint64(v), 8) {
		return fmt.Errorf("U8ToBits(%#x) = %s", v, bitStr(b))
	}
	if g := bitutils.ConvertU8(b); g != v {
		return fmt.Errorf("ConvertU8(U8ToBits(%#x)) = %#x", v, g)
	}
	return nil
}

func rt16(v uint16) error {
	b := bitutils.U16ToBits(v)
	if !wordOK(b, uint64(v), 16) {
		return fmt.Errorf("U16ToBits(%#x) = %s", v, bitStr(b))
	}
	if g := bitutils.ConvertU16(b); g != v {
		return fmt.Errorf("ConvertU16(U16ToBits(%#x)) = %#x", v, g)
	}
	return nil
}

func rt32(v uint32) error {
	b := bitutils.U32ToBits(v)
	if !wordOK(b, uint64(v), 32) {
		return fmt.Errorf("U32ToBits(%#x) = %s", v, bitStr(b))
	}
	if g := bitutils.ConvertU32(b); g != v {
		return fmt.Errorf("ConvertU32(U32ToBits(%#x)) = %#x", v, g)
	}
	return nil
}

func rt64(v uint64) error {
	b := bitutils.U64ToBits(v)
	if !wordOK(b, v, 64) {
		return fmt.Errorf("U64ToBits(%#x) = %s", v, bitStr(b))
	}
	if g := bitutils.ConvertU64(b); g != v {
		return fmt.Errorf("ConvertU64(U64ToBits(%#x)) = %#x", v, g)
	}
	return nil
}

// fromBits checks every conversion whose width can hold the vector.
func fromBits(b []bool) error {
	var v uint64
	for i, x := range b {
		if x {
			v |= 1 << uint(i)
		}
	}
	keep := append([]bool(nil), b...)
	n := len(b)
	if n <= 8 {
		if g := bitutils.ConvertU8(b); uint64(g) != v {
			return fmt.Errorf("ConvertU8(%s) = %#x", bitStr(b), g)
		}
	}
	if n <= 16 {
		if g := bitutils.ConvertU16(b); uint64(g) != v {
			return fmt.Errorf("ConvertU16(%s) = %#x", bitStr(b), g)
		}
	}
	if n <= 32 {
		if g := bitutils.ConvertU32(b); uint64(g) != v {
			return fmt.Errorf("ConvertU32(%s) = %#x", bitStr(b), g)
		}
	}
	if g := bitutils.ConvertU64(b); g != v {
		return fmt.Errorf("ConvertU64(%s) = %#x", bitStr(b), g)
	}
	if !eqB(b, keep) {
		return fmt.Errorf("conversion changed its input %s", bitStr(keep))
	}
	if g := bitutils.ToBits(v, n); !eqB(g, b) {
		return fmt.Errorf("ToBits(%#x,%d) = %s", v, n, bitStr(g))
	}
	return nil
}

var fill64 = []uint64{0, ^uint64(0), 0xAAAAAAAAAAAAAAAA, 0x5555555555555555, 0x8000000000000001, 0x0123456789ABCDEF}

func sparse64() []uint64 {
	var r []uint64
	for i := 0; i < 64; i++ {
		for j := i; j < 64; j++ {
			for k := j; k < 64; k++ {
				v := uint64(1)<<i | uint64(1)<<j | uint64(1)<<k
				r = append(r, v, ^v)
			}
		}
	}
	return append(r, 0, ^uint64(0))
}

func runC17(c *Ctx) {
	full := c.thorough()
	c.Suite("u8-u16", 257, nil, func(i int64) error {
		if i == 256 {
			for v := 0; v < 256; v++ {
				if err := rt8(uint8(v)); err != nil {
					return err
				}
			}
			c.Bulk(256)
			c.Op(512)
			return nil
		}
		c.Describe(func() string { return fmt.Sprintf("16-bit values %02x00..%02xff", i, i) })
		for v := 0; v < 256; v++ {
			if err := rt16(uint16(int(i)<<8 | v)); err != nil {
				return err
			}
		}
		c.Bulk(256)
		c.Op(512)
		c.Outcome(i)
		return nil
	})
	c.Suite("u32", 256, nil, func(i int64) error {
		c.Describe(func() string { return fmt.Sprintf("32-bit values, block %02x", i) })
		if full {
			for v := uint64(0); v < 1<<24; v++ {
				if err := rt32(uint32(uint64(i)<<24 | v)); err != nil {
					return err
				}
			}
			c.Bulk(1 << 24)
			c.Op(1 << 25)
			return nil
		}
		for v := 0; v < 256; v++ {
			h := uint32(i)<<8 | uint32(v)
			for _, f := range fill64 {
				if err := rt32(h<<16 | uint32(f)&0xFFFF); err != nil {
					return err
				}
				if err := rt32(h | uint32(f)&0xFFFF0000); err != nil {
					return err
				}
			}
		}
		c.Bulk(256 * 12)
		c.Op(256 * 24)
		c.Outcome(i)
		return nil
	})
	c.Suite("u64", 256, nil, func(i int64) error {
		c.Describe(func() string { return fmt.Sprintf("64-bit values, block %02x", i) })
		for v := 0; v < 256; v++ {
			h := uint64(i)<<8 | uint64(v)
			for q := 0; q < 4; q++ {
				for _, f := range fill64 {
					w := f&^(0xFFFF<<uint(16*q)) | h<<uint(16*q)
					if err := rt64(w); err != nil {
						return err
					}
				}
			}
		}
		c.Bulk(256 * 24)
		c.Op(256 * 48)
		c.Outcome(i)
		return nil
	})
	c.Suite("sizes", 65, nil, func(i int64) error {
		n := int(i)
		c.Describe(func() string { return fmt.Sprintf("ToBits at size %d", n) })
		words := append([]uint64{}, fill64...)
		words = append(words, sparse64()...)
		for _, w := range words {
			b := bitutils.ToBits(w, n)
			if !wordOK(b, w, n) {
				return fmt.Errorf("ToBits(%#x,%d) = %s", w, n, bitStr(b))
			}
			m := w
			if n < 64 {
				m &= 1<<uint(n) - 1
			}
			if g := bitutils.ConvertU64(b); g != m {
				return fmt.Errorf("ConvertU64(ToBits(%#x,%d)) = %#x", w, n, g)
			}
		}
		c.Bulk(int64(len(words)))
		c.Op(2 * len(words))
		c.Outcome(n)
		return nil
	})
	{
		top := 16
		if full {
			top = 20
		}
		c.Suite("vectors", 65, nil, func(i int64) error {
			n := int(i)
			c.Describe(func() string { return fmt.Sprintf("bit vectors of length %d", n) })
			k := int64(0)
			if n <= top {
				for v := uint64(0); v < 1<<uint(n); v++ {
					if err := fromBits(bitsOf(v, n)); err != nil {
						return err
					}
					k++
				}
			} else {
				for a := 0; a < n; a++ {
					for b := a; b < n; b++ {
						v := uint64(1)<<a | uint64(1)<<b
						for _, w := range []uint64{v, ^v, v ^ fill64[2], v ^ fill64[5]} {
							if err := fromBits(bitsOf(w, n)); err != nil {
								return err
							}
							k++
						}
					}
				}
			}
			c.Bulk(k)
			c.Op(int(4 * k))
			c.Outcome(n)
			return nil
		})
	}
	// the caller owns what it is given: overwriting it changes nothing later
	c.Suite("owned", 64, nil, func(i int64) error {
		c.Describe(func() string { return fmt.Sprintf("returned vectors overwritten, block %02x", i) })
		for v := uint64(i) << 10; v < uint64(i+1)<<10; v++ {
			if err := owned(v); err != nil {
				return err
			}
			c.State("owned", v)
		}
		c.Op(16 << 10)
		c.Outcome(i)
		return nil
	})
	// encryption of bit vectors
	{
		top := 9
		if full {
			top = 14
		}
		c.Suite("encrypt-all", prod(4, top+1), nil, func(i int64) error {
			d := idx(i, 4, top+1)
			l := tiny(2, 16, shapes[2], 0, 0)
			l.use()
			k := bitsKey(2, uint64(d[0]))
			n := d[1]
			c.Describe(func() string { return fmt.Sprintf("all vectors of length %d, key %v", n, k) })
			rnd.Quiet(false)
			for v := uint64(0); v < 1<<uint(n); v++ {
				for s, sc := range []float64{0, 1, -1} {
					rnd.SetHook(script(maskScripts[int(v)%len(maskScripts)], sc))
					if err := encBits(c, bitsOf(v, n), 0.1, k, sc); err != nil {
						return err
					}
					c.State(d, v, s)
				}
			}
			c.Outcome(n)
			return nil
		})
		lens := []int{0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 130, 255, 256, 257, 511, 513, 1023, 1024, 1025, 2049}
		names := []string{"80", "110", "128", "Uint1", "Uint2", "Uint3", "Uint4", "Uint5"}
		c.Suite("encrypt-long", prod(len(lens), len(names)), nil, func(i int64) error {
			d := idx(i, len(lens), len(names))
			l := shipped(names[d[1]])
			l.use()
			n := lens[d[0]]
			k := hashKey(l.n0, uint64(i))
			c.Describe(func() string { return fmt.Sprintf("level %s, length %d", l.name, n) })
			rnd.Quiet(false)
			rnd.Reset(uint64(i) + 1)
			for p := 0; p < 6; p++ {
				b := make([]bool, n)
				for j := range b {
					switch p {
					case 0:
					case 1:
						b[j] = true
					case 2:
						b[j] = j%2 == 1
					case 3:
						b[j] = j == n-1
					case 4:
						b[j] = j != 0
					default:
						b[j] = mix(uint64(j))>>9&1 == 1
					}
				}
				rnd.SetHook(nil)
				if err := encBits(c, b, 1e-5, k, 99); err != nil {
					return err
				}
				c.State(d, p)
			}
			c.Outcome(names[d[1]])
			return nil
		})
	}
}

// owned takes every conversion of a word (placed in every quarter of the wider types) twice, overwriting the first vector.
func owned(v uint64) error {
	type conv struct {
		name string
		n    int
		v    uint64
		f    func() []bool
	}
	w := v | v<<16 | v<<32 | v<<48
	cs := []conv{
		{"U8ToBits", 8, v & 0xFF, func() []bool { return bitutils.U8ToBits(uint8(v)) }},
		{"U16ToBits", 16, v, func() []bool { return bitutils.U16ToBits(uint16(v)) }},
		{"U32ToBits", 32, v, func() []bool { return bitutils.U32ToBits(uint32(v)) }},
		{"U32ToBits", 32, w & 0xFFFFFFFF, func() []bool { return bitutils.U32ToBits(uint32(w)) }},
		{"U64ToBits", 64, v << 48, func() []bool { return bitutils.U64ToBits(v << 48) }},
		{"U64ToBits", 64, w, func() []bool { return bitutils.U64ToBits(w) }},
		{"ToBits", int(v % 65), w, func() []bool { return bitutils.ToBits(w, int(v%65)) }},
	}
	for _, k := range cs {
		a := k.f()
		b := k.f()
		for j := range a {
			a[j] = !a[j]
		}
		if !wordOK(b, k.v, k.n) {
			return fmt.Errorf("%s(%#x): overwriting one returned vector changed another to %s", k.name, k.v, bitStr(b))
		}
		if d := k.f(); !wordOK(d, k.v, k.n) {
			return fmt.Errorf("%s(%#x) = %s after an earlier returned vector was overwritten by its owner", k.name, k.v, bitStr(d))
		}
	}
	// appending to one vector must not run into another
	a, b := bitutils.U8ToBits(uint8(v)), bitutils.U8ToBits(uint8(v+1))
	_ = append(a, !b[0], !b[1], !b[2])
	if !wordOK(b, (v+1)&0xFF, 8) || !wordOK(bitutils.U8ToBits(uint8(v+1)), (v+1)&0xFF, 8) {
		return fmt.Errorf("appending to U8ToBits(%#x) changed U8ToBits(%#x)", v&0xFF, (v+1)&0xFF)
	}
	return nil
}

// encBits checks one vector; norm is the scripted normal sample (99: not scripted).
func encBits(c *Ctx, b []bool, alpha float64, k []T, norm float64) error {
	in, kk := append([]bool(nil), b...), clone(k)
	cts := bitutils.EncryptBits(b, alpha, k)
	c.Op(2)
	if len(cts) != len(b) {
		return fmt.Errorf("EncryptBits(%s) returned %d ciphertexts", bitStr(b), len(cts))
	}
	var snap [][]T
	for i, ct := range cts {
		if ct == nil {
			return fmt.Errorf("EncryptBits(%s): ciphertext %d is nil", bitStr(b), i)
		}
		if len(ct.P) != len(k)+1 {
			return fmt.Errorf("EncryptBits(%s): ciphertext %d has %d words", bitStr(b), i, len(ct.P))
		}
		for j := 0; j < i && j < 16; j++ {
			if overlap(cts[j].P, ct.P) {
				return fmt.Errorf("EncryptBits: ciphertexts %d and %d share storage", j, i)
			}
		}
		want := bphase(in[i])
		if norm != 99 {
			want += T(int64(norm * alpha * (1 << 32)))
			if dist(phase0(ct.P, k), want) > 4 {
				return fmt.Errorf("EncryptBits(%s, sample %v x %v): phase of bit %d is %08x, want %08x", bitStr(b), norm, alpha, i, uint32(phase0(ct.P, k)), uint32(want))
			}
		} else if dist(phase0(ct.P, k), want) > 1<<26 {
			return fmt.Errorf("EncryptBits: phase of bit %d is %08x, want about %08x", i, uint32(phase0(ct.P, k)), uint32(want))
		}
		snap = append(snap, clone(ct.P))
	}
	out := bitutils.DecryptBits(cts, k)
	if !eqB(out, in) {
		return fmt.Errorf("DecryptBits(EncryptBits(%s)) = %s", bitStr(in), bitStr(out))
	}
	for i := range out { // the result is the caller's
		out[i] = !out[i]
	}
	if again := bitutils.DecryptBits(cts, k); !eqB(again, in) {
		return fmt.Errorf("DecryptBits(EncryptBits(%s)) = %s after the owner overwrote the first result", bitStr(in), bitStr(again))
	}
	for i := range cts {
		if !eq(cts[i].P, snap[i]) {
			return fmt.Errorf("DecryptBits changed ciphertext %d", i)
		}
	}
	if len(cts) > 1 { // order: permuted ciphertexts give permuted bits
		rev := make([]*tlwe.TLWELv0, len(cts))
		for i := range cts {
			rev[i] = cts[len(cts)-1-i]
		}
		ro := bitutils.DecryptBits(rev, k)
		for i := range ro {
			if ro[i] != in[len(in)-1-i] {
				return fmt.Errorf("DecryptBits of the reversed ciphertexts of %s = %s", bitStr(in), bitStr(ro))
			}
		}
	}
	if !eqB(b, in) || !eq(k, kk) {
		return fmt.Errorf("EncryptBits changed its input")
	}
	return nil
}
