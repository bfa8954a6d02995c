// Package rand stands in for math/rand while the library is being checked: same API, but every source is
// deterministic, and the harness can script or record what is drawn.
package rand

import (
	mrand "math/rand"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
)

type (
	Source   = mrand.Source
	Source64 = mrand.Source64
	Zipf     = mrand.Zipf
)

// ---- harness side -------------------------------------------------------------------------------

// Hook, when set, is consulted for every 64-bit word any source produces and every normal sample. All
// hook functions may be nil. Hooks are only set while the library runs on one goroutine at a time.
type Hook struct {
	Word func(def uint64) uint64 // replaces a raw word of any source
	Main func(def uint64) uint64 // replaces a raw word of the process-wide source only
	Seed func(int64)             // told of every seed a source is made from
	Norm func(float64) float64   // replaces a normal sample (no word is drawn); set it whenever Word is scripted
}

var hook atomic.Pointer[Hook]

// SetHook installs (or, with nil, removes) the hook.
func SetHook(h *Hook) { hook.Store(h) }

var (
	mu     sync.Mutex
	global = &splitmix{s: 0x9E3779B97F4A7C15, main: true}
	quiet  atomic.Bool

	// Draw counters (statistics only).
	Words, Norms, Sources atomic.Int64
)

// salt shifts every stream (VERIF_RANDSALT): no verdict may depend on the particular numbers drawn.
var salt, _ = strconv.ParseUint(os.Getenv("VERIF_RANDSALT"), 10, 64)

// Reset reseeds the process-wide source.
func Reset(seed uint64) {
	mu.Lock()
	z := (seed^salt)*0xD1342543DE82EF95 + 0x2545F4914F6CDD1D // neighbouring seeds must not give shifted streams
	z = (z ^ (z >> 32)) * 0xDABA0B6EB09322E3
	global.s = z ^ (z >> 29)
	mu.Unlock()
}

// A process starts from the seed in VERIF_RANDSEED: the library cannot count on any particular one.
func init() {
	if v, err := strconv.ParseUint(os.Getenv("VERIF_RANDSEED"), 10, 64); err == nil {
		Reset(v)
	}
}

// Quiet makes every normal sample 0 (no hook consulted).
func Quiet(q bool) { quiet.Store(q) }

type splitmix struct {
	s    uint64
	main bool
}

// collapse is what math/rand does to a seed: a source made from a seed has 2^31-1 states to start from.
func collapse(seed int64) uint64 {
	const m = 1<<31 - 1
	seed %= m
	if seed < 0 {
		seed += m
	}
	if seed == 0 {
		seed = 89482311
	}
	return uint64(seed)
}

func (x *splitmix) Seed(seed int64) { x.s = collapse(seed) * 0xD1342543DE82EF95 }
func (x *splitmix) Uint64() uint64 {
	x.s += 0x9E3779B97F4A7C15
	z := x.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	z ^= z >> 31
	Words.Add(1)
	if h := hook.Load(); h != nil && h.Word != nil {
		z = h.Word(z)
	}
	if h := hook.Load(); x.main && h != nil && h.Main != nil {
		z = h.Main(z)
	}
	return z
}
func (x *splitmix) Int63() int64 { return int64(x.Uint64() >> 1) }

type lockedGlobal struct{}

func (lockedGlobal) Seed(seed int64) { mu.Lock(); global.Seed(seed); mu.Unlock() }
func (lockedGlobal) Uint64() uint64  { mu.Lock(); defer mu.Unlock(); return global.Uint64() }
func (lockedGlobal) Int63() int64    { mu.Lock(); defer mu.Unlock(); return global.Int63() }

// ---- library side -------------------------------------------------------------------------------

// Rand mirrors math/rand.Rand.
type Rand struct{ *mrand.Rand }

// New mirrors math/rand.New.
func New(src Source) *Rand { Sources.Add(1); return &Rand{mrand.New(src)} }

// NewSource mirrors math/rand.NewSource.
func NewSource(seed int64) Source {
	if h := hook.Load(); h != nil && h.Seed != nil {
		h.Seed(seed)
	}
	// decorrelate neighbouring seeds
	return &splitmix{s: collapse(seed) * 0xD1342543DE82EF95}
}

// NewZipf mirrors math/rand.NewZipf.
func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf { return mrand.NewZipf(r.Rand, s, v, imax) }

// NormFloat64 mirrors math/rand.Rand.NormFloat64.
func (r *Rand) NormFloat64() float64 {
	Norms.Add(1)
	if quiet.Load() {
		return 0
	}
	h := hook.Load()
	if h != nil && h.Norm != nil {
		return h.Norm(0)
	}
	return r.Rand.NormFloat64()
}

var top = &Rand{mrand.New(lockedGlobal{})}

func Seed(seed int64)                    { mu.Lock(); global.Seed(seed); mu.Unlock() }
func Int63() int64                       { return top.Int63() }
func Uint32() uint32                     { return top.Uint32() }
func Uint64() uint64                     { return top.Uint64() }
func Int31() int32                       { return top.Int31() }
func Int() int                           { return top.Int() }
func Int63n(n int64) int64               { return top.Int63n(n) }
func Int31n(n int32) int32               { return top.Int31n(n) }
func Intn(n int) int                     { return top.Intn(n) }
func Float64() float64                   { return top.Float64() }
func Float32() float32                   { return top.Float32() }
func Perm(n int) []int                   { return top.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { top.Shuffle(n, swap) }
func Read(p []byte) (n int, err error)   { return top.Read(p) }
func NormFloat64() float64               { return top.NormFloat64() }
func ExpFloat64() float64                { return top.ExpFloat64() }
