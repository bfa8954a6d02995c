// Package rt stands in for sync while schedules are being explored.
//
// Between Begin and End exactly one registered goroutine ("thread") runs at a time; at every scheduling
// point the running thread asks the harness which thread goes on.  Outside Begin..End the types behave
// like (simple, correct) versions of their sync counterparts.
package rt

import (
	"fmt"
	"reflect"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"
)

// ---- scheduler ----------------------------------------------------------------------------------

// Config bounds one exploration.
type Config struct {
	FineLimit   int // visits of one statement by one thread that are scheduling points
	CoarseLimit int // visits of one function entry by one thread that are scheduling points
	MaxPoints   int // hard stop for one execution
	Base        int // default schedule
	Gate        int // BaseGate*: the scheduling point of each thread at which it waits for the others
}

// Default schedules (deviations are counted from them).
const (
	BaseRun      = iota // a thread runs until it ends or blocks, then the lowest one goes on
	BaseLockstep        // the next thread in turn goes on at every scheduling point
	BaseGateUp          // every thread stops at its Gate-th point until all others stopped or blocked; then lowest first
	BaseGateDown        // the same, then highest first
)

// Point is one decision of an execution.
type Point struct {
	Alts    int  // number of alternatives
	Chosen  int  // index taken (0 = default)
	Loc     int  // statement number, or a negative operation code
	Thread  int  // thread that was running
	Pool    bool // a pool hand-out choice, not a thread choice
	Blocked bool // the running thread could not continue
}

// operation codes used as Loc
const (
	OpSpawn = -1 - iota
	OpExit
	OpWait
	OpDone
	OpLock
	OpUnlock
	OpPoolGet
	OpPoolPut
	OpOnce
	OpCond
	OpMap
	OpYield
	OpChan
)

// Thread is a goroutine known to the scheduler.
type Thread struct {
	id      int
	wake    chan struct{}
	done    bool
	ready   func() bool // nil: runnable; else blocked until it returns true
	fine    []uint8
	spin    int
	waitFor string
	steps   int  // scheduling points passed
	parked  bool // waiting at the gate
}

// Sched is one execution.
type Sched struct {
	cfg      Config
	prefix   []int
	Points   []Point
	threads  []*Thread
	cur      *Thread
	Deadlock string
	Panics   []string
	Diverged bool
	Capped   bool
	Locs     map[int]struct{}
	Drained  bool
	Leaked   int
	finished chan struct{}
	aborted  bool
	MaxLive  int
	Gated    int  // threads that reached the gate
	Stuck    bool // a thread blocked on something the scheduler does not control
	beat     atomic.Int64
	chans    map[any]*chanState
}

// Outside counts goroutines of the library that run outside any explored execution.
var Outside atomic.Int64

// Broken is set once an execution got stuck: nothing more can be explored in this process.
var Broken atomic.Bool

// NumLocs is the number of instrumented statements and functions (set by the harness).
var NumLocs = 8192

var (
	active atomic.Bool
	s      *Sched
	runMu  sync.Mutex

	regMu    sync.Mutex
	registry []interface{ reset() }
)

// StuckAfter is how long a thread may run without reaching any scheduling point.
var StuckAfter = 30 * time.Second

type abort struct{}

// Run executes body under the scheduler, following prefix and then the default choice. When body has
// returned, after is called (still with every other thread stopped) and then all other threads run to
// completion.
func Run(cfg Config, prefix []int, body func(), after func()) *Sched {
	runMu.Lock()
	defer runMu.Unlock()
	regMu.Lock()
	for _, r := range registry {
		r.reset()
	}
	regMu.Unlock()
	x := &Sched{cfg: cfg, prefix: prefix, Locs: map[int]struct{}{}, finished: make(chan struct{}), chans: map[any]*chanState{}}
	if Broken.Load() {
		x.Stuck = true
		return x
	}
	s = x
	main := &Thread{id: 0, wake: make(chan struct{}, 1), fine: make([]uint8, NumLocs+1)}
	x.threads = []*Thread{main}
	x.cur = main
	active.Store(true)
	go func() {
		defer close(x.finished)
		func() {
			defer x.catch(main)
			body()
			if after != nil {
				after()
			}
		}()
		// drain: main is done, others go on by default choices
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(abort); !ok {
						panic(r)
					}
				}
			}()
			x.drain(main)
		}()
	}()
	last, since := int64(-1), time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
wait:
	for {
		select {
		case <-x.finished:
			break wait
		case <-tick.C:
			if b := x.beat.Load(); b != last {
				last, since = b, time.Now()
			} else if time.Since(since) > StuckAfter {
				x.Stuck = true
				Broken.Store(true)
				active.Store(false)
				return x
			}
		}
	}
	active.Store(false)
	x.putBack()
	x.aborted = true
	for _, t := range x.threads {
		if !t.done && t != main {
			x.Leaked++
			select {
			case t.wake <- struct{}{}:
			default:
			}
		}
	}
	s = nil
	return x
}

func (x *Sched) catch(t *Thread) {
	if r := recover(); r != nil {
		if _, ok := r.(abort); ok {
			return
		}
		x.Panics = append(x.Panics, fmt.Sprintf("%v\n%s", r, debug.Stack()))
	}
}

func (x *Sched) drain(main *Thread) {
	if x.Deadlock != "" || x.Capped {
		return
	}
	main.ready = func() bool {
		for _, t := range x.threads {
			if t != main && !t.done && (t.ready == nil || t.ready()) {
				return false
			}
		}
		return true
	}
	main.waitFor = "drain"
	for {
		all := true
		for _, t := range x.threads {
			if t != main && !t.done {
				all = false
			}
		}
		if all {
			x.Drained = true
			return
		}
		if main.ready() {
			return // others blocked for ever
		}
		x.point(main, OpExit, true)
	}
}

// enabled returns the threads that may run, the one the default schedule goes on with first.
func (x *Sched) enabled(cur *Thread) []*Thread {
	var r []*Thread
	ok := func(t *Thread) bool { return t != nil && !t.done && (t.ready == nil || t.ready()) }
	switch x.cfg.Base {
	case BaseLockstep:
		n, c := len(x.threads), 0
		if cur != nil {
			c = cur.id
		}
		for k := 1; k <= n; k++ {
			if t := x.threads[(c+k)%n]; ok(t) {
				r = append(r, t)
			}
		}
		return r
	case BaseGateUp, BaseGateDown:
		if ok(cur) && !cur.parked {
			r = append(r, cur)
		}
		for _, t := range x.threads {
			if t != cur && ok(t) && !t.parked {
				r = append(r, t)
			}
		}
		for k := range x.threads {
			t := x.threads[k]
			if x.cfg.Base == BaseGateDown {
				t = x.threads[len(x.threads)-1-k]
			}
			if ok(t) && t.parked {
				r = append(r, t)
			}
		}
		return r
	}
	if ok(cur) {
		r = append(r, cur)
	}
	for _, t := range x.threads {
		if t != cur && ok(t) {
			r = append(r, t)
		}
	}
	return r
}

func (x *Sched) choose(alts, loc, tid int, pool, blocked bool) int {
	if alts <= 1 {
		return 0
	}
	if len(x.Points) >= x.cfg.MaxPoints && x.cfg.MaxPoints > 0 {
		x.Capped = true
		return 0
	}
	c := 0
	i := len(x.Points)
	if i < len(x.prefix) {
		c = x.prefix[i]
		if c >= alts {
			x.Diverged = true
			c = 0
		}
	}
	x.Points = append(x.Points, Point{Alts: alts, Chosen: c, Loc: loc, Thread: tid, Pool: pool, Blocked: blocked})
	return c
}

// point is called by the running thread t.
func (x *Sched) point(t *Thread, loc int, blocked bool) {
	x.beat.Add(1)
	if x.aborted {
		panic(abort{})
	}
	t.steps++
	if t.id != 0 && t.steps == x.cfg.Gate {
		t.parked = true
		x.Gated++
	}
	en := x.enabled(t)
	if len(en) == 0 {
		if x.Deadlock == "" {
			for _, o := range x.threads {
				if !o.done {
					x.Deadlock += fmt.Sprintf(" thread %d waits for %s;", o.id, o.waitFor)
				}
			}
		}
		x.stop(t)
		return
	}
	c := x.choose(len(en), loc, t.id, false, en[0] != t)
	n := en[c]
	n.parked = false
	if n == t {
		return
	}
	x.switchTo(t, n)
}

func (x *Sched) switchTo(t, n *Thread) {
	x.cur = n
	n.wake <- struct{}{}
	<-t.wake
	if x.aborted {
		panic(abort{})
	}
	x.cur = t
}

// stop ends the execution (deadlock): wake main so that it can leave.
func (x *Sched) stop(t *Thread) {
	x.aborted = true
	if t.id != 0 {
		x.threads[0].wake <- struct{}{}
		// this goroutine is abandoned
		select {}
	}
	panic(abort{})
}

func curThread() (*Sched, *Thread) {
	if !active.Load() {
		return nil, nil
	}
	x := s
	if x == nil {
		return nil, nil
	}
	return x, x.cur
}

// P is the scheduling point before a statement.
func P(loc int) {
	if !active.Load() {
		return
	}
	x := s
	if x == nil {
		return
	}
	t := x.cur
	x.beat.Add(1)
	if x.cfg.FineLimit == 0 {
		x.spinCheck(t)
		return
	}
	if int(t.fine[loc]) >= x.cfg.FineLimit {
		x.spinCheck(t)
		return
	}
	t.fine[loc]++
	t.spin = 0
	x.Locs[loc] = struct{}{}
	x.point(t, loc, false)
}

// F is the scheduling point at a function entry.
func F(loc int) {
	if !active.Load() {
		return
	}
	x := s
	if x == nil {
		return
	}
	t := x.cur
	if int(t.fine[loc]) >= x.cfg.CoarseLimit {
		return
	}
	t.fine[loc]++
	x.Locs[loc] = struct{}{}
	x.point(t, loc, false)
}

// spinCheck gives way (without branching) when a thread has run very long, so that busy waiting ends.
func (x *Sched) spinCheck(t *Thread) {
	t.spin++
	if t.spin < 2000000 {
		return
	}
	t.spin = 0
	if x.aborted {
		panic(abort{})
	}
	en := x.enabled(t)
	for _, n := range en {
		if n != t && n.id > t.id {
			n.parked = false
			x.switchTo(t, n)
			return
		}
	}
	for _, n := range en {
		if n != t {
			n.parked = false
			x.switchTo(t, n)
			return
		}
	}
}

func block(x *Sched, t *Thread, loc int, what string, ready func() bool) {
	if ready() {
		x.point(t, loc, false)
		if ready() {
			return
		}
	}
	t.ready = ready
	t.waitFor = what
	for !ready() {
		x.point(t, loc, true)
	}
	t.ready = nil
	t.waitFor = ""
}

// NewThread registers a goroutine that is about to be started.
func NewThread() *Thread {
	x, _ := curThread()
	if x == nil {
		return nil
	}
	t := &Thread{id: len(x.threads), wake: make(chan struct{}, 1), fine: make([]uint8, NumLocs+1)}
	x.threads = append(x.threads, t)
	live := 0
	for _, o := range x.threads {
		if !o.done {
			live++
		}
	}
	if live > x.MaxLive {
		x.MaxLive = live
	}
	return t
}

// Wrap makes f run as thread t.
func Wrap[F any](t *Thread, f F) F {
	if t == nil {
		return outside(f)
	}
	if g, ok := any(f).(func()); ok {
		var w any = func() { run(t, g) }
		return w.(F)
	}
	v := reflect.ValueOf(f)
	w := reflect.MakeFunc(v.Type(), func(args []reflect.Value) (res []reflect.Value) {
		run(t, func() {
			if v.Type().IsVariadic() {
				res = v.CallSlice(args)
			} else {
				res = v.Call(args)
			}
		})
		if res == nil {
			for i := 0; i < v.Type().NumOut(); i++ {
				res = append(res, reflect.Zero(v.Type().Out(i)))
			}
		}
		return res
	})
	return w.Interface().(F)
}

// outside counts a goroutine started while nothing is being explored.
func outside[F any](f F) F {
	Outside.Add(1)
	if g, ok := any(f).(func()); ok {
		var w any = func() { defer Outside.Add(-1); g() }
		return w.(F)
	}
	v := reflect.ValueOf(f)
	w := reflect.MakeFunc(v.Type(), func(args []reflect.Value) []reflect.Value {
		defer Outside.Add(-1)
		if v.Type().IsVariadic() {
			return v.CallSlice(args)
		}
		return v.Call(args)
	})
	return w.Interface().(F)
}

func run(t *Thread, f func()) {
	x := s
	if x == nil {
		return
	}
	<-t.wake
	if x.aborted {
		return
	}
	x.cur = t
	aborted := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(abort); ok {
					aborted = true
					return
				}
				if x.aborted {
					return
				}
				x.Panics = append(x.Panics, fmt.Sprintf("goroutine %d: %v\n%s", t.id, r, debug.Stack()))
			}
		}()
		f()
	}()
	if aborted || x.aborted {
		return
	}
	t.done = true
	en := x.enabled(t)
	if len(en) == 0 {
		for _, o := range x.threads {
			if !o.done {
				x.Deadlock += fmt.Sprintf(" thread %d waits for %s;", o.id, o.waitFor)
			}
		}
		x.aborted = true
		x.threads[0].wake <- struct{}{}
		return
	}
	c := x.choose(len(en), OpExit, t.id, false, true)
	n := en[c]
	n.parked = false
	x.cur = n
	n.wake <- struct{}{}
}

// Go runs f as a new thread (used by harness bodies).
func Go(f func()) {
	t := NewThread()
	if t == nil {
		go f()
		return
	}
	go run(t, f)
	x, c := curThread()
	x.point(c, OpSpawn, false)
}

// Yield is an explicit coarse scheduling point for harness bodies.
func Yield() {
	x, t := curThread()
	if x != nil {
		x.point(t, OpYield, false)
	}
}

// ---- sync API -----------------------------------------------------------------------------------

// Locker mirrors sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// WaitGroup mirrors sync.WaitGroup.
type WaitGroup struct {
	real sync.WaitGroup
	n    int
}

func (w *WaitGroup) Add(d int) {
	x, t := curThread()
	if x == nil {
		w.real.Add(d)
		return
	}
	x.point(t, OpDone, false)
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	x, t := curThread()
	if x == nil {
		w.real.Wait()
		return
	}
	block(x, t, OpWait, "WaitGroup", func() bool { return w.n == 0 })
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	t := NewThread()
	if t == nil {
		go func() { defer w.Done(); f() }()
		return
	}
	go run(t, func() { defer w.Done(); f() })
}

// Mutex mirrors sync.Mutex.
type Mutex struct {
	real sync.Mutex
	held bool
}

func (m *Mutex) Lock() {
	x, t := curThread()
	if x == nil {
		m.real.Lock()
		return
	}
	block(x, t, OpLock, "Mutex", func() bool { return !m.held })
	m.held = true
}

func (m *Mutex) TryLock() bool {
	x, t := curThread()
	if x == nil {
		return m.real.TryLock()
	}
	x.point(t, OpLock, false)
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	x, t := curThread()
	if x == nil {
		m.real.Unlock()
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	x.point(t, OpUnlock, false)
}

// RWMutex mirrors sync.RWMutex.
type RWMutex struct {
	real sync.RWMutex
	w    bool
	r    int
}

func (m *RWMutex) Lock() {
	x, t := curThread()
	if x == nil {
		m.real.Lock()
		return
	}
	block(x, t, OpLock, "RWMutex", func() bool { return !m.w && m.r == 0 })
	m.w = true
}

func (m *RWMutex) Unlock() {
	x, t := curThread()
	if x == nil {
		m.real.Unlock()
		return
	}
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	x.point(t, OpUnlock, false)
}

func (m *RWMutex) RLock() {
	x, t := curThread()
	if x == nil {
		m.real.RLock()
		return
	}
	block(x, t, OpLock, "RWMutex (read)", func() bool { return !m.w })
	m.r++
}

func (m *RWMutex) RUnlock() {
	x, t := curThread()
	if x == nil {
		m.real.RUnlock()
		return
	}
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	x.point(t, OpUnlock, false)
}

func (m *RWMutex) TryLock() bool {
	x, t := curThread()
	if x == nil {
		return m.real.TryLock()
	}
	x.point(t, OpLock, false)
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) TryRLock() bool {
	x, t := curThread()
	if x == nil {
		return m.real.TryRLock()
	}
	x.point(t, OpLock, false)
	if m.w {
		return false
	}
	m.r++
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once mirrors sync.Once.
type Once struct {
	m    Mutex
	done atomic.Bool
}

func (o *Once) Do(f func()) {
	if x, t := curThread(); x != nil {
		x.point(t, OpOnce, false)
	}
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// Pool mirrors sync.Pool. Under the scheduler Get may return any item that was put back, or a new one:
// the harness enumerates the choices (default: the most recently put item).
type Pool struct {
	New func() any

	mu    sync.Mutex
	items []any
	known bool
}

func (p *Pool) reset() { p.mu.Lock(); p.items = nil; p.mu.Unlock() }

func (p *Pool) register() {
	if !p.known {
		p.known = true
		regMu.Lock()
		registry = append(registry, p)
		regMu.Unlock()
	}
}

func (p *Pool) Get() any {
	x, t := curThread()
	if x != nil {
		x.point(t, OpPoolGet, false)
	}
	p.mu.Lock()
	p.register()
	n := len(p.items)
	c := 0
	if x != nil {
		// alternatives: items newest..oldest, then New
		c = x.choose(n+1, OpPoolGet, t.id, true, false)
	}
	if c < n {
		i := n - 1 - c
		v := p.items[i]
		p.items = append(p.items[:i], p.items[i+1:]...)
		p.mu.Unlock()
		return v
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	x, t := curThread()
	if x != nil {
		x.point(t, OpPoolPut, false)
	}
	p.mu.Lock()
	p.register()
	p.items = append(p.items, v)
	p.mu.Unlock()
	if x != nil {
		x.point(t, OpPoolPut, false)
	}
}

// Map mirrors sync.Map.
type Map struct{ m sync.Map }

func mapPoint() {
	if x, t := curThread(); x != nil {
		x.point(t, OpMap, false)
	}
}

func (m *Map) Load(k any) (any, bool)           { mapPoint(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { mapPoint(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { mapPoint(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { mapPoint(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { mapPoint(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { mapPoint(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { mapPoint(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { mapPoint(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)      { mapPoint(); m.m.Range(f) }
func (m *Map) Clear()                           { mapPoint(); m.m.Range(func(k, _ any) bool { m.m.Delete(k); return true }) }

// Cond mirrors sync.Cond.
type Cond struct {
	L    Locker
	real *sync.Cond
	seq  []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }

func (c *Cond) Wait() {
	x, t := curThread()
	if x == nil {
		c.real.Wait()
		return
	}
	woken := false
	c.seq = append(c.seq, &woken)
	c.L.Unlock()
	block(x, t, OpCond, "Cond", func() bool { return woken })
	c.L.Lock()
}

func (c *Cond) Signal() {
	x, t := curThread()
	if x == nil {
		c.real.Signal()
		return
	}
	if len(c.seq) > 0 {
		*c.seq[0] = true
		c.seq = c.seq[1:]
	}
	x.point(t, OpCond, false)
}

func (c *Cond) Broadcast() {
	x, t := curThread()
	if x == nil {
		c.real.Broadcast()
		return
	}
	for _, w := range c.seq {
		*w = true
	}
	c.seq = nil
	x.point(t, OpCond, false)
}

// ---- channels -----------------------------------------------------------------------------------

// A channel used under the scheduler is modelled by a queue kept beside it; what it held before is taken
// over at first use and what it holds at the end is put back.
type chanState struct {
	cap    int
	q      []any
	closed bool
	sent   int
	taken  int
	recv   int // receivers waiting
	back   func(q []any, closed bool)
}

func (x *Sched) putBack() {
	for _, c := range x.chans {
		c.back(c.q, c.closed)
	}
}

func state[T any](x *Sched, ch chan T) *chanState {
	if c, ok := x.chans[ch]; ok {
		return c
	}
	c := &chanState{cap: cap(ch)}
	for {
		more := false
		select {
		case v, ok := <-ch:
			if ok {
				c.q = append(c.q, v)
				c.sent++
				more = true
			} else {
				c.closed = true
			}
		default:
		}
		if !more {
			break
		}
	}
	was := c.closed
	c.back = func(q []any, closed bool) {
		if was {
			return
		}
		for _, v := range q {
			select {
			case ch <- as[T](v):
			default:
			}
		}
		if closed {
			close(ch)
		}
	}
	x.chans[ch] = c
	return c
}

// as is v.(T), also for a nil interface value.
func as[T any](v any) T { t, _ := v.(T); return t }

// bidi recovers the bidirectional channel behind a directional one.
func bidi[T any](ch any) chan T {
	v := reflect.ValueOf(ch)
	if b, ok := ch.(chan T); ok {
		return b
	}
	t := reflect.ChanOf(reflect.BothDir, v.Type().Elem())
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return reflect.NewAt(t, p.UnsafePointer()).Elem().Interface().(chan T)
}

// Send is ch <- v.
func Send[T any](ch chan<- T, v T) {
	x, t := curThread()
	if x == nil {
		ch <- v
		return
	}
	if ch == nil {
		block(x, t, OpChan, "send on nil channel", func() bool { return false })
	}
	c := state(x, bidi[T](ch))
	if c.cap > 0 {
		block(x, t, OpChan, "channel send", func() bool { return c.closed || len(c.q) < c.cap })
	} else {
		x.point(t, OpChan, false)
	}
	c.push(x, t, v)
}

// push completes a send that can proceed.
func (c *chanState) push(x *Sched, t *Thread, v any) {
	if c.closed {
		panic("send on closed channel")
	}
	c.q = append(c.q, v)
	c.sent++
	me := c.sent
	if c.cap == 0 {
		block(x, t, OpChan, "channel send", func() bool { return c.taken >= me || c.closed })
		if c.taken < me {
			panic("send on closed channel")
		}
		return
	}
	x.point(t, OpChan, false)
}

// Sender is the left side of ch <- v, so that v converts to the element type as it does there.
type Sender[T any] struct{ ch chan<- T }

func SendTo[T any](ch chan<- T) Sender[T] { return Sender[T]{ch} }

// Send is ch <- v.
func (s Sender[T]) Send(v T) { Send(s.ch, v) }

// Case is the clause case ch <- v.
func (s Sender[T]) Case(v T) *SendClause[T] { return &SendClause[T]{s.ch, v} }

// SendClause and RecvClause are the communications of a select statement.
type SendClause[T any] struct {
	ch chan<- T
	v  T
}

type RecvClause[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

// RecvCase is the clause case <-ch.
func RecvCase[T any](ch <-chan T) *RecvClause[T] { return &RecvClause[T]{ch: ch} }

type clause interface {
	ready(x *Sched) bool
	wait(x *Sched, d int)
	fire(x *Sched, t *Thread)
	outside() reflect.SelectCase
	got(v reflect.Value, ok bool)
}

func (s *SendClause[T]) ready(x *Sched) bool {
	if s.ch == nil {
		return false
	}
	c := state(x, bidi[T](s.ch))
	if c.closed {
		return true
	}
	if c.cap > 0 {
		return len(c.q) < c.cap
	}
	return c.recv > len(c.q)
}
func (s *SendClause[T]) wait(x *Sched, d int) {}
func (s *SendClause[T]) fire(x *Sched, t *Thread) {
	state(x, bidi[T](s.ch)).push(x, t, s.v)
}
func (s *SendClause[T]) outside() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(s.ch), Send: reflect.ValueOf(&s.v).Elem()}
}
func (s *SendClause[T]) got(reflect.Value, bool) {}

func (r *RecvClause[T]) ready(x *Sched) bool {
	if r.ch == nil {
		return false
	}
	c := state(x, bidi[T](r.ch))
	return c.closed || len(c.q) > 0
}
func (r *RecvClause[T]) wait(x *Sched, d int) {
	if r.ch != nil {
		state(x, bidi[T](r.ch)).recv += d
	}
}
func (r *RecvClause[T]) fire(x *Sched, t *Thread) {
	if v, ok := state(x, bidi[T](r.ch)).pop(); ok {
		r.V, _ = v.(T)
		r.OK = true
	}
	x.point(t, OpChan, false)
}
func (r *RecvClause[T]) outside() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.ch)}
}
func (r *RecvClause[T]) got(v reflect.Value, ok bool) {
	r.OK = ok
	if ok {
		reflect.ValueOf(&r.V).Elem().Set(v)
	}
}

// Select is the select statement over the given clauses: it performs one communication and returns its
// index, or -1 for the default clause.  Under the scheduler every ready clause is an alternative.
func Select(hasDefault bool, cs ...clause) int {
	x, t := curThread()
	if x == nil {
		rc := make([]reflect.SelectCase, len(cs), len(cs)+1)
		for i, c := range cs {
			rc[i] = c.outside()
		}
		if hasDefault {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rc)
		if i == len(cs) {
			return -1
		}
		cs[i].got(v, ok)
		return i
	}
	x.point(t, OpChan, false)
	ready := func() (r []int) {
		for i, c := range cs {
			if c.ready(x) {
				r = append(r, i)
			}
		}
		return
	}
	r := ready()
	if len(r) == 0 {
		if hasDefault {
			return -1
		}
		for _, c := range cs {
			c.wait(x, 1)
		}
		block(x, t, OpChan, "select", func() bool { return len(ready()) > 0 })
		for _, c := range cs {
			c.wait(x, -1)
		}
		r = ready()
	}
	k := 0
	if len(r) > 1 {
		k = x.choose(len(r), OpChan, t.id, true, false)
	}
	// the communication is done before anyone else moves
	cs[r[k]].fire(x, t)
	return r[k]
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (v T, ok bool) {
	x, t := curThread()
	if x == nil {
		v, ok = <-ch
		return
	}
	if ch == nil {
		block(x, t, OpChan, "receive from nil channel", func() bool { return false })
	}
	c := state(x, bidi[T](ch))
	c.recv++
	block(x, t, OpChan, "channel receive", func() bool { return c.closed || len(c.q) > 0 })
	c.recv--
	if w, have := c.pop(); have {
		v, _ = w.(T)
		ok = true
	}
	x.point(t, OpChan, false)
	return
}

// pop takes the oldest value, if there is one.
func (c *chanState) pop() (v any, ok bool) {
	if len(c.q) == 0 {
		return nil, false
	}
	v = c.q[0]
	c.q = c.q[1:]
	c.taken++
	return v, true
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	x, t := curThread()
	if x == nil {
		close(ch)
		return
	}
	x.point(t, OpChan, false)
	c := state(x, bidi[T](ch))
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	x.point(t, OpChan, false)
}

// Len is len(ch).
func Len[T any](ch chan T) int {
	x, t := curThread()
	if x == nil {
		return len(ch)
	}
	x.point(t, OpChan, false)
	n := len(state(x, ch).q)
	if n > cap(ch) {
		n = cap(ch)
	}
	return n
}
