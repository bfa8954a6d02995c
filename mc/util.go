package main

import (
	"fmt"
	"math"
	"math/bits"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	rnd "github.com/thedonutfactory/go-tfhe/zzverif/rand"
)

type T = params.Torus

// Shape is a gadget and key-switching shape.
type Shape struct{ bgbit, l, basebit, t int }

func (s Shape) String() string {
	return fmt.Sprintf("Bg=2^%d,L=%d,base=2^%d,t=%d", s.bgbit, s.l, s.basebit, s.t)
}

// The shapes the documentation promises for the shipped levels.
var shapes = []Shape{
	{6, 3, 2, 7},  // 80-bit
	{6, 3, 2, 8},  // 110-bit
	{6, 3, 2, 9},  // 128-bit
	{10, 2, 2, 8}, // Uint1
	{18, 1, 4, 3}, // Uint2
	{23, 1, 6, 2}, // Uint3
	{22, 1, 5, 3}, // Uint4
	{22, 1, 6, 3}, // Uint5, Uint6
	{22, 1, 7, 3}, // Uint7, Uint8
}

// Level bundles what the harness needs to know about one parameter profile.
type Level struct {
	name  string
	id    params.SecurityLevel
	n0, n int
	sh    Shape
}

func (l Level) use() { params.CurrentSecurityLevel = l.id }

var tinyCache = map[string]Level{}

// tiny registers a reduced profile with a shipped shape.
func tiny(n0, n int, sh Shape, alpha0, alpha1 float64) Level {
	k := fmt.Sprintf("n0=%d,N=%d,%v,a=%g/%g", n0, n, sh, alpha0, alpha1)
	if l, ok := tinyCache[k]; ok {
		return l
	}
	nbit := bits.Len(uint(n)) - 1
	params.VerifProfiles = append(params.VerifProfiles, params.VerifProfile{
		Lv0:  params.TLWELv0Params{N: n0, ALPHA: alpha0},
		Lv1:  params.TLWELv1Params{N: n, ALPHA: alpha1},
		RLv1: params.TRLWELv1Params{N: n, ALPHA: alpha1},
		G: params.TRGSWLv1Params{N: n, NBIT: nbit, BGBIT: uint32(sh.bgbit), BG: 1 << sh.bgbit, L: sh.l,
			BASEBIT: sh.basebit, IKS_T: sh.t, ALPHA: alpha1, BlockSize: 1},
	})
	l := Level{name: k, id: params.VerifBase + params.SecurityLevel(len(params.VerifProfiles)-1), n0: n0, n: n, sh: sh}
	tinyCache[k] = l
	return l
}

// shipped levels (documented supported ones; Uint6-8 are documented as needing extended tables).
var shippedIDs = []struct {
	name string
	id   params.SecurityLevel
}{
	{"80", params.Security80Bit}, {"110", params.Security110Bit}, {"128", params.Security128Bit},
	{"Uint1", params.SecurityUint1}, {"Uint2", params.SecurityUint2}, {"Uint3", params.SecurityUint3},
	{"Uint4", params.SecurityUint4}, {"Uint5", params.SecurityUint5}, {"Uint6", params.SecurityUint6},
	{"Uint7", params.SecurityUint7}, {"Uint8", params.SecurityUint8},
}

func shipped(name string) Level {
	for _, s := range shippedIDs {
		if s.name == name {
			old := params.CurrentSecurityLevel
			params.CurrentSecurityLevel = s.id
			g := params.GetTRGSWLv1()
			l := Level{name: name, id: s.id, n0: params.GetTLWELv0().N, n: g.N, sh: Shape{int(g.BGBIT), g.L, g.BASEBIT, g.IKS_T}}
			params.CurrentSecurityLevel = old
			return l
		}
	}
	panic("no level " + name)
}

// ---- keys ---------------------------------------------------------------------------------------

func bitsKey(n int, pattern uint64) []T {
	k := make([]T, n)
	for i := range k {
		k[i] = T(pattern >> uint(i%64) & 1)
	}
	return k
}

func mix(x uint64) uint64 {
	x += 0x9E3779B97F4A7C15
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9
	x = (x ^ (x >> 27)) * 0x94D049BB133111EB
	return x ^ (x >> 31)
}

// hashKey is a fixed, patternless key.
func hashKey(n int, seed uint64) []T {
	k := make([]T, n)
	for i := range k {
		k[i] = T(mix(seed*1000003+uint64(i)) >> 17 & 1)
	}
	return k
}

func mkKey(l Level, lv0, lv1 []T) *key.SecretKey {
	return &key.SecretKey{KeyLv0: lv0, KeyLv1: lv1}
}

// cloud makes a noiseless evaluation key for sk at the current level.
func cloud(sk *key.SecretKey) *cloudkey.CloudKey {
	rnd.Quiet(true)
	return cloudkey.NewCloudKey(sk)
}

// ---- reference arithmetic -----------------------------------------------------------------------

func phase0(p []T, k []T) T {
	n := len(p) - 1
	r := p[n]
	for i := 0; i < n; i++ {
		r -= p[i] * k[i]
	}
	return r
}

// negMul is the exact negacyclic product.
func negMul(a, b []T) []T {
	n := len(a)
	r := make([]T, n)
	for i, x := range b {
		if x == 0 {
			continue
		}
		for j := 0; j < n-i; j++ {
			r[i+j] += a[j] * x
		}
		for j := n - i; j < n; j++ {
			r[i+j-n] -= a[j] * x
		}
	}
	return r
}

// ringPhase is B - A*s.
func ringPhase(ct *trlwe.TRLWELv1, s []T) []T {
	r := negMul(ct.A, s)
	for i := range r {
		r[i] = ct.B[i] - r[i]
	}
	return r
}

// rotate is X^k * a, exact.
func rotate(a []T, k int) []T {
	n := len(a)
	k = ((k % (2 * n)) + 2*n) % (2 * n)
	r := make([]T, n)
	for i, x := range a {
		j := i + k
		s := x
		for j >= n {
			j -= n
			s = -s
		}
		r[j] = s
	}
	return r
}

// dist is the distance on the torus.
func dist(a, b T) uint32 {
	d := int32(a - b)
	if d < 0 {
		d = -d
	}
	if d < 0 {
		return 1 << 31
	}
	return uint32(d)
}

func maxDist(a, b []T) (uint32, int) {
	m, at := uint32(0), -1
	for i := range a {
		if d := dist(a[i], b[i]); d > m || at < 0 {
			m, at = d, i
		}
	}
	return m, at
}

func ct0(words ...T) *tlwe.TLWELv0 { return &tlwe.TLWELv0{P: append([]T(nil), words...)} }

// mkCt makes a level-0 ciphertext of the given phase with the given mask.
func mkCt(mask []T, k []T, phase T) *tlwe.TLWELv0 {
	p := make([]T, len(mask)+1)
	copy(p, mask)
	b := phase
	for i := range mask {
		b += mask[i] * k[i]
	}
	p[len(mask)] = b
	return &tlwe.TLWELv0{P: p}
}

func hashMask(n int, seed uint64) []T {
	m := make([]T, n)
	for i := range m {
		m[i] = T(mix(seed*7919+uint64(i)) >> 13)
	}
	return m
}

func clone(a []T) []T { return append([]T(nil), a...) }

func eq(a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func fnvT(h uint64, a []T) uint64 {
	if h == 0 {
		h = 14695981039346656037
	}
	for _, x := range a {
		h = (h ^ uint64(x)) * 1099511628211
	}
	return h
}

func fnvF(h uint64, a []float64) uint64 {
	for _, x := range a {
		h = (h ^ f2u(x)) * 1099511628211
	}
	return h
}

// ckHash fingerprints a whole evaluation key.
func ckHash(ck *cloudkey.CloudKey) uint64 {
	h := fnvT(0, []T{ck.DecompositionOffset})
	h = fnvT(h, ck.BlindRotateTestvec.A)
	h = fnvT(h, ck.BlindRotateTestvec.B)
	for _, k := range ck.KeySwitchingKey {
		h = fnvT(h, k.P)
	}
	for _, b := range ck.BootstrappingKey {
		for _, r := range b.TRLWEFFT {
			h = fnvF(h, r.A.Coeffs)
			h = fnvF(h, r.B.Coeffs)
		}
	}
	return h
}

// idx splits a linear case number over mixed radices (last varies fastest).
func idx(i int64, radix ...int) []int {
	r := make([]int, len(radix))
	for k := len(radix) - 1; k >= 0; k-- {
		r[k] = int(i % int64(radix[k]))
		i /= int64(radix[k])
	}
	return r
}

func prod(radix ...int) int64 {
	p := int64(1)
	for _, r := range radix {
		p *= int64(r)
	}
	return p
}

// modSwitch rounds a torus word to the nearest multiple of 1/2N.
func modSwitch(x T, n int) int {
	sh := 32 - bits.Len(uint(2*n)) + 1
	return int((uint64(x)+(1<<(sh-1)))>>sh) % (2 * n)
}

func f2u(x float64) uint64 { return math.Float64bits(x) }

// recovered runs f, which is expected to panic, and reports whether it did.
func recovered(f func()) (did bool) {
	defer func() {
		if v := recover(); v != nil {
			if fmt.Sprintf("%T", v) == "rt.abort" { // the scheduler ends this execution
				panic(v)
			}
			did = true
		}
	}()
	f()
	return
}

// ints returns lo..hi.
func ints(lo, hi int) (r []int) {
	for k := lo; k <= hi; k++ {
		r = append(r, k)
	}
	return
}

func b2i64(b bool) int64 {
	if b {
		return 1
	}
	return 0
}
