package main

import (
	"fmt"
	"unsafe"

	"github.com/thedonutfactory/go-tfhe/bitutils"
	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/poly"
	pre "github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	rnd "github.com/thedonutfactory/go-tfhe/zzverif/rand"
)

// World is a closed set of arguments and working objects over which operation sequences are enumerated.
type World struct {
	l          Level
	env1, env2 *gateEnv // two key sets of one level
	ct         []*tlwe.TLWELv0
	lutA, lutB *lut.LookUpTable
	rin        *trlwe.TRLWELv1
	rin2       *trlwe.TRLWELv1
	src1       *tlwe.TLWELv1
	polyA      poly.Poly
	polyS      poly.Poly
	fp1, fp2   poly.FourierPoly
	rk         *pre.ProxyReencryptionKey
	pk         *pre.PublicKeyLv0
	gen        *lut.Generator

	// mutable arguments: the caller changes their content in place between calls
	ver   int // bit 0: lutM, bit 1: ctM, bit 2: ckM, bit 3: rinM
	lutM  *lut.LookUpTable
	ctM   *tlwe.TLWELv0
	ckM   *cloudkey.CloudKey
	rinM  *trlwe.TRLWELv1
	k0M   []T // secret key material overwritten by its owner (bit 4)
	k1M   []T
	rkM   *pre.ProxyReencryptionKey
	pkM   *pre.PublicKeyLv0
	bumps int

	deep   bool               // ckM owns its storage: a toggle overwrites every entry in place
	deepOf *cloudkey.CloudKey // what ckM currently holds a copy of

	rkB *pre.ProxyReencryptionKey // contents of rkM and pkM in the other version
	pkB *pre.PublicKeyLv0

	ctT *tlwe.TLWELv0 // trivial ciphertexts: zero masks
	ctZ *tlwe.TLWELv0
	srT *tlwe.TLWELv1
	rT  *trlwe.TRLWELv1

	ev *evaluator.Evaluator
	pe *poly.Evaluator
}

func newWorld(l Level) *World {
	l.use()
	rnd.Quiet(true)
	rnd.Reset(1)
	w := &World{l: l}
	k1 := hashKey(l.n, 5)
	w.env1 = newGateEnv(l, hashKey(l.n0, 101), k1)
	w.env2 = newGateEnv(l, hashKey(l.n0, 202), hashKey(l.n, 6))
	for i := 0; i < 4; i++ {
		w.ct = append(w.ct, mkCt(hashMask(l.n0, uint64(i)+3), w.env1.sk.KeyLv0, bphase(i%2 == 0)+T(i)<<24))
	}
	w.gen = lut.NewGenerator(4)
	w.lutA = w.gen.GenLookUpTable(func(x int) int { return x })
	w.lutB = w.gen.GenLookUpTable(func(x int) int { return 3 - x })
	w.rin = &trlwe.TRLWELv1{A: hashMask(l.n, 11), B: hashMask(l.n, 12)}
	w.rin2 = &trlwe.TRLWELv1{A: hashMask(l.n, 13), B: hashMask(l.n, 14)}
	w.src1 = &tlwe.TLWELv1{P: hashMask(l.n+1, 15)}
	w.polyA = poly.Poly{Coeffs: hashMask(l.n, 16)}
	w.polyS = poly.Poly{Coeffs: hashKey(l.n, 17)}
	pe := poly.NewEvaluator(l.n)
	w.fp1 = pe.ToFourierPoly(w.polyA)
	w.fp2 = pe.ToFourierPoly(w.polyS)
	w.pk = pre.NewPublicKeyLv0WithParams(w.env2.sk.KeyLv0, 3, 0)
	w.rk = pre.NewProxyReencryptionKeySymmetricWithParams(w.env1.sk.KeyLv0, w.env2.sk.KeyLv0, 0, 2, 3)
	w.lutM = lut.NewLookUpTable()
	w.ctM = tlwe.NewTLWELv0()
	w.ckM = &cloudkey.CloudKey{}
	w.rinM = trlwe.NewTRLWELv1()
	w.pkB = pre.NewPublicKeyLv0WithParams(w.env1.sk.KeyLv0, 3, 0)
	w.rkB = pre.NewProxyReencryptionKeySymmetricWithParams(w.env2.sk.KeyLv0, w.env1.sk.KeyLv0, 0, 2, 3)
	w.pkM = &pre.PublicKeyLv0{Encryptions: zeroLike(w.pk.Encryptions)}
	w.rkM = &pre.ProxyReencryptionKey{KeyEncryptions: zeroLike(w.rk.KeyEncryptions), Base: w.rk.Base, T: w.rk.T}
	w.k0M, w.k1M = make([]T, l.n0), make([]T, l.n)
	w.ctT, w.ctZ, w.srT, w.rT = tlwe.NewTLWELv0(), tlwe.NewTLWELv0(), tlwe.NewTLWELv1(), trlwe.NewTRLWELv1()
	w.ctT.P[l.n0] = 0x2FFFFFF1
	w.srT.P[l.n] = 0xD2345678
	copy(w.rT.B, w.rin.B)
	w.setVer(0)
	w.fresh()
	return w
}

// deepWorld is a world whose mutable evaluation key has storage of its own.
func deepWorld(n0, n, sh int) func() *World {
	return func() *World {
		w := newWorld(tiny(n0, n, shapes[sh], 0, 0))
		w.deep = true
		w.setVer(0)
		return w
	}
}

// refill makes ckM hold a copy of ck; later calls overwrite that copy in place, entry by entry.
func (w *World) refill(ck *cloudkey.CloudKey) {
	if w.deepOf == ck {
		return
	}
	first := w.deepOf == nil
	w.deepOf = ck
	m := w.ckM
	if first {
		*m = cloudkey.CloudKey{DecompositionOffset: ck.DecompositionOffset, BlindRotateTestvec: trlwe.NewTRLWELv1(), KeySwitchingKey: zeroLike(ck.KeySwitchingKey)}
		for _, b := range ck.BootstrappingKey {
			x := &trgsw.TRGSWLv1FFT{TRLWEFFT: append(b.TRLWEFFT[:0:0], b.TRLWEFFT...)}
			for i := range x.TRLWEFFT {
				r := b.TRLWEFFT[i]
				r.A.Coeffs, r.B.Coeffs = make([]float64, len(r.A.Coeffs)), make([]float64, len(r.B.Coeffs))
				x.TRLWEFFT[i] = r
			}
			m.BootstrappingKey = append(m.BootstrappingKey, x)
		}
	}
	copy(m.BlindRotateTestvec.A, ck.BlindRotateTestvec.A)
	copy(m.BlindRotateTestvec.B, ck.BlindRotateTestvec.B)
	if ck == w.env2.ck { // and another test polynomial
		for i := range m.BlindRotateTestvec.B {
			m.BlindRotateTestvec.B[i] += T(i) << 20
		}
	}
	for i, x := range ck.KeySwitchingKey {
		copy(m.KeySwitchingKey[i].P, x.P)
	}
	for i, b := range ck.BootstrappingKey {
		for j, r := range b.TRLWEFFT {
			copy(m.BootstrappingKey[i].TRLWEFFT[j].A.Coeffs, r.A.Coeffs)
			copy(m.BootstrappingKey[i].TRLWEFFT[j].B.Coeffs, r.B.Coeffs)
		}
	}
}

func zeroLike(a []*tlwe.TLWELv0) []*tlwe.TLWELv0 {
	var r []*tlwe.TLWELv0
	for _, x := range a {
		r = append(r, &tlwe.TLWELv0{P: make([]T, len(x.P))})
	}
	return r
}

// fresh replaces the evaluators.
func (w *World) fresh() {
	w.ev = evaluator.NewEvaluator(w.l.n)
	w.pe = poly.NewEvaluator(w.l.n)
	w.setVer(0)
}

func (w *World) setVer(v int) {
	w.ver = v
	src := w.lutA
	if v&1 == 1 {
		src = w.lutB
	}
	copy(w.lutM.Poly.A, src.Poly.A)
	copy(w.lutM.Poly.B, src.Poly.B)
	copy(w.ctM.P, w.ct[v>>1&1].P)
	e := w.env1
	if v&4 != 0 {
		e = w.env2
	}
	if w.deep {
		w.refill(e.ck)
	} else {
		*w.ckM = *e.ck
	}
	r := w.rin
	if v&8 != 0 {
		r = w.rin2
	}
	copy(w.rinM.A, r.A)
	copy(w.rinM.B, r.B)
	rk, pk := w.rk, w.pk
	if e = w.env1; v&16 != 0 {
		rk, pk, e = w.rkB, w.pkB, w.env2
	}
	copy(w.k0M, e.sk.KeyLv0)
	copy(w.k1M, e.sk.KeyLv1)
	for i, x := range rk.KeyEncryptions {
		copy(w.rkM.KeyEncryptions[i].P, x.P)
	}
	for i, x := range pk.Encryptions {
		copy(w.pkM.Encryptions[i].P, x.P)
	}
}

// argHash fingerprints every argument the operations may not modify.
func (w *World) argHash() uint64 {
	h := ckHash(w.env1.ck) ^ ckHash(w.env2.ck)*3
	for _, k := range [][]T{w.env1.sk.KeyLv0, w.env1.sk.KeyLv1, w.env2.sk.KeyLv0, w.env2.sk.KeyLv1, w.lutA.Poly.A, w.lutA.Poly.B, w.lutB.Poly.A, w.lutB.Poly.B, w.rin.A, w.rin.B, w.rin2.A, w.rin2.B, w.src1.P, w.polyA.Coeffs, w.polyS.Coeffs, w.ctT.P, w.ctZ.P, w.srT.P, w.rT.A, w.rT.B} {
		h = fnvT(h, k)
	}
	for _, c := range w.ct {
		h = fnvT(h, c.P)
	}
	h = fnvF(h, w.fp1.Coeffs)
	h = fnvF(h, w.fp2.Coeffs)
	h = h*31 + rkHash(w.rk) + pkHash(w.pk)*7 + rkHash(w.rkB)*11 + pkHash(w.pkB)*13
	return h*31 + uint64(w.gen.Encoder.MessageModulus) + f2u(w.gen.Encoder.Scale) + uint64(w.gen.LookUpTableSize)
}

func (w *World) mutHash() uint64 {
	h := fnvT(fnvT(fnvT(fnvT(fnvT(uint64(w.ver)+1, w.lutM.Poly.A), w.lutM.Poly.B), w.ctM.P), w.rinM.A), w.rinM.B)
	return fnvT(fnvT(h, w.k0M), w.k1M) + rkHash(w.rkM)*3 + pkHash(w.pkM)*5
}

// Res is one result of an operation.
type Res struct {
	p    []T
	temp bool // temporary result of the shared evaluator
}

// WOp is one operation of the alphabet.
type WOp struct {
	name  string
	boot  bool // takes a slot of the evaluator's temporary results
	reset bool
	core  bool // part of the deeper sub-alphabet
	mut   int  // toggles these version bits
	keyed bool // reads the mutable key material (bit 4)
	run   func(w *World) []Res
}

func own(ps ...[]T) []Res {
	var r []Res
	for _, p := range ps {
		r = append(r, Res{p: p})
	}
	return r
}

func fcast(f []float64) []T {
	r := make([]T, 0, 2*len(f))
	for _, x := range f {
		u := f2u(x)
		r = append(r, T(u), T(u>>32))
	}
	return r
}

func (w *World) dirty1() *trlwe.TRLWELv1 {
	o := trlwe.NewTRLWELv1()
	w.bumps++
	for i := range o.A {
		o.A[i], o.B[i] = T(w.bumps)*0x9E3779B1+T(i), ^T(i)-T(w.bumps)
	}
	return o
}

func (w *World) dirty0() *tlwe.TLWELv0 {
	o := tlwe.NewTLWELv0()
	w.bumps++
	for i := range o.P {
		o.P[i] = T(w.bumps)*0x85EBCA6B + T(i)
	}
	return o
}

func (w *World) dirtyPoly() poly.Poly {
	o := w.dirty1()
	return poly.Poly{Coeffs: o.A}
}

// affine makes closures that share their code and differ in what they capture.
//
//go:noinline
func affine(a, b int) func(int) int {
	return func(x int) int { return a*x + b }
}

func worldOps() []WOp {
	b := func(ck *cloudkey.CloudKey) ([]*trgsw.TRGSWLv1FFT, []*tlwe.TLWELv0, T) {
		return ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset
	}
	ops := []WOp{
		{name: "toggle lutM", mut: 1, core: true},
		{name: "toggle ctM", mut: 2, core: true},
		{name: "toggle ckM", mut: 4, core: true},
		{name: "toggle rinM", mut: 8},
		{name: "toggle keysM", mut: 16},
		{name: "Bootstrap(ct0)", boot: true, core: true, run: func(w *World) []Res {
			bs, ks, o := b(w.env1.ck)
			return []Res{{w.ev.Bootstrap(w.ct[0], w.env1.ck.BlindRotateTestvec, bs, ks, o).P, true}}
		}},
		{name: "Bootstrap(ctM,ckM)", boot: true, core: true, run: func(w *World) []Res {
			bs, ks, o := b(w.ckM)
			return []Res{{w.ev.Bootstrap(w.ctM, w.ckM.BlindRotateTestvec, bs, ks, o).P, true}}
		}},
		{name: "BootstrapLUTTemp(ctM,lutM)", boot: true, core: true, run: func(w *World) []Res {
			bs, ks, o := b(w.ckM)
			return []Res{{w.ev.BootstrapLUTTemp(w.ctM, w.lutM, bs, ks, o).P, true}}
		}},
		{name: "BootstrapLUT(ctM,lutM)", boot: true, core: true, run: func(w *World) []Res {
			bs, ks, o := b(w.ckM)
			return own(w.ev.BootstrapLUT(w.ctM, w.lutM, bs, ks, o).P)
		}},
		{name: "BootstrapLUT(ct1,lutB)", boot: true, run: func(w *World) []Res {
			bs, ks, o := b(w.env1.ck)
			return own(w.ev.BootstrapLUT(w.ct[1], w.lutB, bs, ks, o).P)
		}},
		{name: "BootstrapFunc(ct1,3x+2,4)", boot: true, run: func(w *World) []Res {
			bs, ks, o := b(w.env1.ck)
			return own(w.ev.BootstrapFunc(w.ct[1], affine(3, 2), 4, bs, ks, o).P)
		}},
		{name: "BootstrapFunc(ctM,x+1|x+3,8)", boot: true, run: func(w *World) []Res {
			bs, ks, o := b(w.env1.ck)
			return own(w.ev.BootstrapFunc(w.ctM, affine(1, 1+2*(w.ver&1)), 8, bs, ks, o).P)
		}},
		{name: "BootstrapFunc(ct1,x|3x+2,4)", boot: true, core: true, run: func(w *World) []Res {
			bs, ks, o := b(w.env1.ck)
			return own(w.ev.BootstrapFunc(w.ct[1], affine(1+2*(w.ver&1), 2*(w.ver&1)), 4, bs, ks, o).P)
		}},
		{name: "BootstrapLUTAssign(ctM,lutM)", boot: true, core: true, run: func(w *World) []Res {
			bs, ks, o := b(w.ckM)
			out := w.dirty0()
			w.ev.BootstrapLUTAssign(w.ctM, w.lutM, bs, ks, o, out)
			return own(out.P)
		}},
		{name: "BootstrapFuncAssign(ct2,2x+1,4)", boot: true, run: func(w *World) []Res {
			bs, ks, o := b(w.env2.ck)
			out := w.dirty0()
			w.ev.BootstrapFuncAssign(w.ct[2], affine(2, 1), 4, bs, ks, o, out)
			return own(out.P)
		}},
		{name: "BootstrapAssign(ct3)", boot: true, run: func(w *World) []Res {
			bs, ks, o := b(w.env2.ck)
			out := w.dirty0()
			w.ev.BootstrapAssign(w.ct[3], w.env2.ck.BlindRotateTestvec, bs, ks, o, out)
			return own(out.P)
		}},
		{name: "BlindRotateAssign(ctM,lutM)", core: true, run: func(w *World) []Res {
			out := w.dirty1()
			w.ev.BlindRotateAssign(w.ctM, w.lutM.Poly, w.ckM.BootstrappingKey, w.ckM.DecompositionOffset, out)
			return own(out.A, out.B)
		}},
		{name: "CMuxAssign(rinM,rin)", run: func(w *World) []Res {
			out := w.dirty1()
			w.ev.CMuxAssign(w.ckM.BootstrappingKey[0], w.rinM, w.rin, w.ckM.DecompositionOffset, out)
			return own(out.A, out.B)
		}},
		{name: "ExternalProductAssign(rinM)", run: func(w *World) []Res {
			out := w.dirty1()
			w.ev.ExternalProductAssign(w.ckM.BootstrappingKey[w.l.n0-1], w.rinM, w.ckM.DecompositionOffset, out)
			return own(out.A, out.B)
		}},
		{name: "ResetBuffers", reset: true, core: true, run: func(w *World) []Res { w.ev.ResetBuffers(); return nil }},
		{name: "Prepare*", run: func(w *World) []Res {
			return own(w.ev.PrepareNAND(w.ct[0], w.ctM).P, w.ev.PrepareAND(w.ct[1], w.ctM).P, w.ev.PrepareOR(w.ct[2], w.ctM).P, w.ev.PrepareXOR(w.ctM, w.ct[3]).P)
		}},
		{name: "ShallowCopy+Bootstrap", core: true, run: func(w *World) []Res {
			bs, ks, o := b(w.env1.ck)
			e2 := w.ev.ShallowCopy()
			x := e2.Bootstrap(w.ct[0], w.env1.ck.BlindRotateTestvec, bs, ks, o)
			y := e2.BootstrapLUT(w.ctM, w.lutM, bs, ks, o)
			return own(x.P, y.P)
		}},
		{name: "NewEvaluator+BootstrapLUT", run: func(w *World) []Res {
			bs, ks, o := b(w.ckM)
			return own(evaluator.NewEvaluator(w.l.n).BootstrapLUT(w.ctM, w.lutM, bs, ks, o).P)
		}},
		{name: "NAND(ctM,ct0,ckM)", core: true, run: func(w *World) []Res { return own(gates.NAND(w.ctM, w.ct[0], w.ckM).P) }},
		{name: "XOR,XNOR(ct1,ctM)", run: func(w *World) []Res {
			return own(gates.XOR(w.ct[1], w.ctM, w.env1.ck).P, gates.XNOR(w.ct[1], w.ctM, w.env1.ck).P)
		}},
		{name: "ORNY,ANDYN,NOR", run: func(w *World) []Res {
			return own(gates.ORNY(w.ct[1], w.ctM, w.env2.ck).P, gates.ANDYN(w.ct[0], w.ctM, w.env2.ck).P, gates.NOR(w.ctM, w.ctM, w.env1.ck).P)
		}},
		{name: "AND,OR,ANDNY,ORYN", run: func(w *World) []Res {
			return own(gates.AND(w.ct[1], w.ctM, w.ckM).P, gates.OR(w.ct[0], w.ctM, w.ckM).P, gates.ANDNY(w.ctM, w.ct[2], w.ckM).P, gates.ORYN(w.ctM, w.ct[3], w.ckM).P)
		}},
		{name: "MUX", core: true, run: func(w *World) []Res { return own(gates.MUX(w.ctM, w.ct[2], w.ct[3], w.env1.ck).P) }},
		{name: "NOT,Copy,Constant", run: func(w *World) []Res {
			return own(gates.NOT(w.ctM).P, gates.Copy(w.ctM).P, gates.Constant(true).P, gates.Constant(false).P)
		}},
		{name: "BatchNAND", core: true, run: func(w *World) []Res {
			var r []Res
			for _, c := range gates.BatchNAND([][2]*tlwe.TLWELv0{{w.ctM, w.ct[0]}, {w.ct[1], w.ctM}, {w.ct[2], w.ct[2]}}, w.ckM) {
				r = append(r, Res{p: c.P})
			}
			return r
		}},
		{name: "BatchXOR,XNOR", run: func(w *World) []Res {
			var r []Res
			in := [][2]*tlwe.TLWELv0{{w.ctM, w.ct[1]}, {w.ct[3], w.ct[0]}}
			for _, c := range append(gates.BatchXOR(in, w.env1.ck), gates.BatchXNOR(in, w.env1.ck)...) {
				r = append(r, Res{p: c.P})
			}
			return r
		}},
		{name: "BatchBlindRotate", run: func(w *World) []Res {
			var r []Res
			for _, c := range trgsw.BatchBlindRotate([]*tlwe.TLWELv0{w.ct[0], w.ctM}, w.lutM.Poly, w.ckM.BootstrappingKey, w.ckM.DecompositionOffset) {
				r = append(r, own(c.A, c.B)...)
			}
			return r
		}},
		{name: "trgsw.BlindRotate", core: true, run: func(w *World) []Res {
			c := trgsw.BlindRotate(w.ctM, w.lutM.Poly, w.ckM.BootstrappingKey, w.ckM.DecompositionOffset, w.pe)
			return own(clone(c.A), clone(c.B))
		}},
		{name: "trgsw.CMUX", run: func(w *World) []Res {
			c := trgsw.CMUX(w.rin, w.rinM, w.ckM.BootstrappingKey[0], w.ckM.DecompositionOffset, w.pe)
			return own(clone(c.A), clone(c.B))
		}},
		{name: "trgsw.ExternalProductWithFFT", run: func(w *World) []Res {
			c := trgsw.ExternalProductWithFFT(w.ckM.BootstrappingKey[0], w.rinM, w.ckM.DecompositionOffset, w.pe)
			return own(clone(c.A), clone(c.B))
		}},
		{name: "KeySwitching", run: func(w *World) []Res {
			out := w.dirty0()
			trgsw.IdentityKeySwitchingAssign(w.src1, w.ckM.KeySwitchingKey, out)
			return own(trgsw.IdentityKeySwitching(w.src1, w.ckM.KeySwitchingKey).P, out.P)
		}},
		{name: "Extract", run: func(w *World) []Res {
			out := tlwe.NewTLWELv1()
			trlwe.SampleExtractIndexAssign(w.rinM, 3, out)
			return own(trlwe.SampleExtractIndex(w.rinM, w.l.n-1).P, out.P)
		}},
		{name: "MulPoly*", core: true, run: func(w *World) []Res {
			m := w.pe.MulPoly(w.polyA, w.polyS)
			o := w.dirtyPoly()
			w.pe.MulPolyAssign(poly.Poly{Coeffs: w.rinM.A}, w.polyS, o)
			o2, o3 := poly.Poly{Coeffs: clone(w.rin.A)}, poly.Poly{Coeffs: clone(w.rin.B)}
			w.pe.MulAddPolyAssign(poly.Poly{Coeffs: w.rinM.B}, w.polyS, o2)
			w.pe.MulSubPolyAssign(poly.Poly{Coeffs: w.rinM.B}, w.polyS, o3)
			return own(m.Coeffs, o.Coeffs, o2.Coeffs, o3.Coeffs)
		}},
		{name: "Fourier", run: func(w *World) []Res {
			f := w.pe.ToFourierPoly(poly.Poly{Coeffs: w.rinM.A})
			g := w.pe.MulFourierPoly(f, w.fp2)
			s := w.pe.AddFourierPoly(f, w.fp1)
			t := w.pe.SubFourierPoly(f, w.fp1)
			p := w.pe.ToPoly(g)
			ff := trlwe.NewTRLWELv1FFT(w.rinM, w.pe)
			return own(fcast(f.Coeffs), fcast(g.Coeffs), fcast(s.Coeffs), fcast(t.Coeffs), p.Coeffs, fcast(ff.A), fcast(ff.B))
		}},
		{name: "PolyMulWithXK", run: func(w *World) []Res {
			return own(clone(w.pe.PolyMulWithXK(w.rinM.A, 5)), clone(w.pe.PolyMulWithXK(w.rinM.B, w.l.n+3)))
		}},
		{name: "ev.PolyEvaluator.MulPoly", run: func(w *World) []Res {
			return own(w.ev.PolyEvaluator.MulPoly(w.polyA, w.polyS).Coeffs, w.ev.PolyEvaluator.ToPoly(w.fp1).Coeffs)
		}},
		{name: "trlwe.Encrypt", run: func(w *World) []Res {
			rnd.Reset(77)
			x := trlwe.NewTRLWELv1().EncryptF64(make([]float64, w.l.n), 0, w.env1.sk.KeyLv1, w.pe)
			y := trgsw.NewTRGSWLv1().EncryptTorus(1, 0, w.env1.sk.KeyLv1, w.pe)
			r := own(x.A, x.B)
			for _, t := range y.TRLWE {
				r = append(r, own(t.A, t.B)...)
			}
			return r
		}},
		{name: "tlwe.Encrypt", run: func(w *World) []Res {
			rnd.Reset(78)
			x := tlwe.NewTLWELv0().EncryptBool(true, 0, w.env1.sk.KeyLv0)
			y := w.dirty0().EncryptLWEMessage(3, 5, 0, w.env1.sk.KeyLv0)
			z := tlwe.NewTLWELv1().EncryptBool(false, 0, w.env1.sk.KeyLv1)
			r := own(x.P, y.P, z.P)
			for _, c := range bitutils.EncryptBits([]bool{true, false, true}, 0, w.env1.sk.KeyLv0) {
				r = append(r, Res{p: c.P})
			}
			return r
		}},
		{name: "Decrypt", run: func(w *World) []Res {
			o := []T{T(b2i(w.ctM.DecryptBool(w.env1.sk.KeyLv0))), T(w.ctM.DecryptLWEMessage(7, w.env1.sk.KeyLv0)), T(b2i(w.src1.DecryptBool(w.env1.sk.KeyLv1)))}
			for _, b := range w.rinM.DecryptBool(w.env1.sk.KeyLv1, w.pe) {
				o = append(o, T(b2i(b)))
			}
			return own(o)
		}},
		{name: "Arithmetic", run: func(w *World) []Res {
			out := w.dirty0()
			w.ctM.AddAssign(w.ct[1], out)
			return own(w.ctM.Add(w.ct[0]).P, w.ct[0].Sub(w.ctM).P, w.ctM.Neg().P, w.ctM.AddMul(w.ct[2], 5).P, w.ctM.SubMul(w.ct[3], 9).P, out.P)
		}},
		{name: "GenLookUpTable", run: func(w *World) []Res {
			x := w.gen.GenLookUpTable(affine(1, 1+w.ver&1))
			y := w.gen.GenLookUpTableCustom(affine(5, 1), 2+6*(w.ver&1), 0.0625)
			z := w.gen.GenLookUpTableFull(func(x int) T { return T(x) << 28 })
			v := x.Copy()
			u := lut.NewLookUpTable()
			u.CopyFrom(w.lutM)
			return own(x.Poly.A, x.Poly.B, y.Poly.A, y.Poly.B, z.Poly.A, z.Poly.B, v.Poly.A, v.Poly.B, u.Poly.A, u.Poly.B)
		}},
		{name: "callbacks that panic", boot: true, run: func(w *World) []Res {
			bs, ks, o := b(w.env1.ck)
			for at := 0; at < 3; at++ {
				bad := func(x int) int {
					if x == at {
						panic("f")
					}
					return x + 1
				}
				out := w.dirty0()
				tab := lut.NewLookUpTable()
				recovered(func() { w.ev.BootstrapFunc(w.ct[1], bad, 4, bs, ks, o) })
				recovered(func() { w.ev.BootstrapFuncAssign(w.ct[2], bad, 4, bs, ks, o, out) })
				recovered(func() { w.gen.GenLookUpTable(bad) })
				recovered(func() { w.gen.GenLookUpTableCustom(bad, 5, 0.1) })
				recovered(func() { w.gen.GenLookUpTableFull(func(x int) T { return T(bad(x)) }) })
				recovered(func() { w.gen.GenLookUpTableAssign(bad, tab) })
			}
			return own([]T{1})
		}},
		{name: "Reencrypt", run: func(w *World) []Res { return own(pre.ReencryptTLWELv0(w.ctM, w.rk).P) }},
		{name: "PublicKeyEncrypt", run: func(w *World) []Res {
			rnd.Reset(79)
			return own(w.pk.EncryptBool(true, 0).P, w.pk.EncryptF64(0.25, 0).P)
		}},
		{name: "Decrypt(ctM,keysM)", keyed: true, run: func(w *World) []Res {
			o := []T{T(b2i(w.ctM.DecryptBool(w.k0M))), T(w.ctM.DecryptLWEMessage(16, w.k0M)), T(w.ct[1].DecryptLWEMessage(64, w.k0M)), T(b2i(w.src1.DecryptBool(w.k1M)))}
			for _, b := range w.rinM.DecryptBool(w.k1M, w.pe) {
				o = append(o, T(b2i(b)))
			}
			for _, b := range w.rin.DecryptBool(w.k1M, w.pe) {
				o = append(o, T(b2i(b)))
			}
			m := w.pe.MulPoly(poly.Poly{Coeffs: w.rin.A}, poly.Poly{Coeffs: w.k1M})
			return own(o, m.Coeffs, pre.ReencryptTLWELv0(w.ctM, w.rkM).P)
		}},
		{name: "Encrypt(keysM)", keyed: true, run: func(w *World) []Res {
			rnd.Reset(80)
			x := trlwe.NewTRLWELv1().EncryptF64(make([]float64, w.l.n), 0, w.k1M, w.pe)
			y := trgsw.NewTRGSWLv1().EncryptTorus(1, 0, w.k1M, w.pe)
			z := tlwe.NewTLWELv0().EncryptBool(true, 0, w.k0M)
			v := tlwe.NewTLWELv1().EncryptBool(false, 0, w.k1M)
			r := own(x.A, x.B, z.P, v.P, w.pkM.EncryptBool(true, 0).P)
			for _, t := range y.TRLWE {
				r = append(r, own(t.A, t.B)...)
			}
			return r
		}},
		{name: "trivial operands", run: func(w *World) []Res {
			o := w.dirty0()
			w.ctT.AddAssign(w.ctM, o)
			return own(pre.ReencryptTLWELv0(w.ctT, w.rk).P, pre.ReencryptTLWELv0(w.ctZ, w.rk).P,
				w.ctM.AddMul(w.ct[0], 0).P, w.ctM.SubMul(w.ct[0], 0).P, w.ctM.AddMul(w.ctZ, 3).P, w.ctM.SubMul(w.ctZ, 3).P,
				w.ctM.Add(w.ctZ).P, w.ctZ.Add(w.ctM).P, w.ctM.Sub(w.ctZ).P, w.ctZ.Sub(w.ctZ).P, w.ctZ.Neg().P, w.ctT.Neg().P, o.P,
				gates.NOT(w.ctT).P, gates.Copy(w.ctT).P, gates.NOT(w.ctZ).P, gates.Copy(w.ctZ).P,
				trgsw.IdentityKeySwitching(w.srT, w.env1.ck.KeySwitchingKey).P,
				trlwe.SampleExtractIndex(w.rT, 0).P)
		}},
		{name: "trivial gates", run: func(w *World) []Res {
			bs, ks, o := b(w.env1.ck)
			e2 := w.ev.ShallowCopy()
			r := own(gates.NAND(w.ctT, w.ctM, w.env1.ck).P, gates.MUX(w.ctT, w.ctM, w.ctZ, w.env1.ck).P,
				gates.Copy(e2.Bootstrap(w.ctT, w.env1.ck.BlindRotateTestvec, bs, ks, o)).P,
				e2.BootstrapLUT(w.ctZ, w.lutM, bs, ks, o).P)
			in := [][2]*tlwe.TLWELv0{{w.ctT, w.ctM}, {w.ctZ, w.ctT}, {w.ctZ, w.ctZ}}
			for _, x := range append(gates.BatchAND(in, w.env1.ck), gates.BatchOR(in, w.env1.ck)...) {
				r = append(r, Res{p: x.P})
			}
			return r
		}},
	}
	return ops
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// step performs one operation.
func (w *World) step(op *WOp) []Res {
	if op.mut != 0 {
		w.setVer(w.ver ^ op.mut)
	}
	if op.run == nil {
		return nil
	}
	return op.run(w)
}

func overlap(a, b []T) bool {
	if len(a) == 0 || len(b) == 0 {
		return false
	}
	a0, b0 := uintptr(unsafe.Pointer(&a[0])), uintptr(unsafe.Pointer(&b[0]))
	return a0 < b0+uintptr(len(b))*4 && b0 < a0+uintptr(len(a))*4
}

// args lists every argument slice, for storage-sharing checks.
func (w *World) args() [][]T {
	r := [][]T{w.lutA.Poly.A, w.lutA.Poly.B, w.lutB.Poly.A, w.lutB.Poly.B, w.lutM.Poly.A, w.lutM.Poly.B, w.ctM.P, w.rin.A, w.rin.B, w.rin2.A, w.rin2.B, w.rinM.A, w.rinM.B, w.src1.P, w.polyA.Coeffs, w.polyS.Coeffs,
		w.env1.sk.KeyLv0, w.env1.sk.KeyLv1, w.env1.ck.BlindRotateTestvec.A, w.env1.ck.BlindRotateTestvec.B, w.env2.ck.BlindRotateTestvec.A, w.env2.ck.BlindRotateTestvec.B}
	for _, c := range w.ct {
		r = append(r, c.P)
	}
	r = append(r, w.k0M, w.k1M, w.ctT.P, w.ctZ.P, w.srT.P, w.rT.A, w.rT.B)
	for _, k := range [][]*tlwe.TLWELv0{w.rk.KeyEncryptions, w.pk.Encryptions, w.rkM.KeyEncryptions, w.pkM.Encryptions} {
		for _, x := range k {
			r = append(r, x.P)
		}
	}
	return r
}

func seqName(ops []WOp, seq []int) string {
	s := ""
	for _, o := range seq {
		s += ops[o].name + "; "
	}
	return s
}

// refs computes what each operation returns on fresh evaluators for every argument version.
func (w *World) refs(ops []WOp) map[[2]int][][]T {
	m := map[[2]int][][]T{}
	for v := 0; v < 32; v++ {
		for k := range ops {
			if ops[k].mut != 0 || ops[k].reset {
				continue
			}
			if v >= 16 && !ops[k].keyed {
				m[[2]int{k, v}] = m[[2]int{k, v - 16}]
				continue
			}
			w.fresh()
			w.setVer(v)
			var o [][]T
			for _, r := range w.step(&ops[k]) {
				o = append(o, clone(r.p))
			}
			m[[2]int{k, v}] = o
		}
	}
	return m
}

func cmpRes(rs []Res, want [][]T) error {
	if len(rs) != len(want) {
		return fmt.Errorf("%d results, %d on a fresh evaluator", len(rs), len(want))
	}
	for i, r := range rs {
		if !eq(r.p, want[i]) {
			d := -1
			for j := range r.p {
				if j < len(want[i]) && r.p[j] != want[i][j] {
					d = j
					break
				}
			}
			return fmt.Errorf("result %d differs from a fresh evaluator's at word %d: %08x, fresh %08x", i, d, uint32(r.p[d]), uint32(want[i][d]))
		}
	}
	return nil
}
