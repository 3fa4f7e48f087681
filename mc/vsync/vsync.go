// Package vsync stands in for sync in instrumented code. Every operation is a
// scheduling point and blocks in the scheduler, never in the runtime. A real
// lock inside each object gives the race detector the ordering that the
// operation really provides.
package vsync

import (
	"sync"

	"verif/mc/vsched"
)

type Locker = sync.Locker

// Mutex stands in for sync.Mutex.
type Mutex struct {
	key    byte
	locked bool
	real   sync.Mutex
}

//go:norace
func (m *Mutex) Lock() { m.LockKind(vsched.Shared) }

//go:norace
func (m *Mutex) LockKind(kind int) {
	vsched.P(kind)
	for m.locked {
		if vsched.Aborted() {
			return
		}
		vsched.Block(&m.key)
	}
	m.locked = true
	m.real.Lock()
}

//go:norace
func (m *Mutex) TryLock() bool {
	vsched.P(vsched.Shared)
	if m.locked {
		return false
	}
	m.locked = true
	m.real.Lock()
	return true
}

//go:norace
func (m *Mutex) Unlock() { m.UnlockKind(vsched.Shared) }

//go:norace
func (m *Mutex) UnlockKind(kind int) {
	if vsched.Aborted() {
		return
	}
	vsched.P(kind)
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.real.Unlock()
	m.locked = false
	vsched.Wake(&m.key)
}

// RWMutex stands in for sync.RWMutex.
type RWMutex struct {
	key     byte
	writer  bool
	readers int
	waiting int // writers waiting: new readers queue behind them
	real    sync.RWMutex
}

//go:norace
func (m *RWMutex) Lock() { m.LockKind(vsched.Shared) }

//go:norace
func (m *RWMutex) LockKind(kind int) {
	vsched.P(kind)
	for m.writer || m.readers > 0 {
		if vsched.Aborted() {
			return
		}
		m.waiting++
		vsched.Block(&m.key)
		m.waiting--
	}
	m.writer = true
	m.real.Lock()
}

//go:norace
func (m *RWMutex) TryLock() bool {
	vsched.P(vsched.Shared)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	m.real.Lock()
	return true
}

//go:norace
func (m *RWMutex) Unlock() { m.UnlockKind(vsched.Shared) }

//go:norace
func (m *RWMutex) UnlockKind(kind int) {
	if vsched.Aborted() {
		return
	}
	vsched.P(kind)
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.real.Unlock()
	m.writer = false
	vsched.Wake(&m.key)
}

//go:norace
func (m *RWMutex) RLock() { m.RLockKind(vsched.Shared) }

//go:norace
func (m *RWMutex) RLockKind(kind int) {
	vsched.P(kind)
	for m.writer || m.waiting > 0 {
		if vsched.Aborted() {
			return
		}
		vsched.Block(&m.key)
	}
	m.readers++
	m.real.RLock()
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	vsched.P(vsched.Shared)
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	m.real.RLock()
	return true
}

//go:norace
func (m *RWMutex) RUnlock() { m.RUnlockKind(vsched.Shared) }

//go:norace
func (m *RWMutex) RUnlockKind(kind int) {
	if vsched.Aborted() {
		return
	}
	vsched.P(kind)
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.real.RUnlock()
	m.readers--
	if m.readers == 0 {
		vsched.Wake(&m.key)
	}
}

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// Once stands in for sync.Once.
type Once struct {
	done bool
	m    Mutex
	seen sync.RWMutex // orders done with what came before it
}

func (o *Once) Do(f func()) {
	vsched.P(vsched.Shared)
	if o.isDone() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.setDone()
		f()
	}
}

//go:norace
func (o *Once) isDone() bool {
	if !o.done {
		return false
	}
	o.seen.RLock()
	o.seen.RUnlock()
	return true
}

//go:norace
func (o *Once) setDone() {
	if vsched.Aborted() {
		return
	}
	o.seen.Lock()
	o.seen.Unlock()
	o.done = true
}

func OnceFunc(f func()) func() {
	var o Once
	var p any
	ok := false
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var v T
	g := OnceFunc(func() { v = f() })
	return func() T { g(); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var v T
	var u U
	g := OnceFunc(func() { v, u = f() })
	return func() (T, U) { g(); return v, u }
}

// WaitGroup stands in for sync.WaitGroup.
type WaitGroup struct {
	key byte
	n   int
	hb  sync.Mutex
}

//go:norace
func (w *WaitGroup) Add(d int) {
	vsched.P(vsched.Shared)
	w.hb.Lock()
	w.hb.Unlock()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		vsched.Wake(&w.key)
	}
}

func (w *WaitGroup) Done() {
	if !vsched.Aborted() {
		w.Add(-1)
	}
}

//go:norace
func (w *WaitGroup) Wait() {
	vsched.P(vsched.Shared)
	for w.n > 0 {
		if vsched.Aborted() {
			return
		}
		vsched.Block(&w.key)
	}
	w.hb.Lock()
	w.hb.Unlock()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() {
		defer w.Done()
		f()
	})
}

// Cond stands in for sync.Cond.
type Cond struct {
	L   Locker
	key byte
	gen int
	hb  sync.Mutex
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	g := c.gen
	c.L.Unlock()
	for c.gen == g { // every signal wakes everybody: spurious wake-ups are allowed for by callers' loops
		if vsched.Aborted() {
			return
		}
		vsched.Block(&c.key)
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() { c.Broadcast() }

//go:norace
func (c *Cond) Broadcast() {
	vsched.P(vsched.Shared)
	c.gen++
	vsched.Wake(&c.key)
}

// Pool stands in for sync.Pool: it keeps everything and hands out what was
// put last, which is the reuse that shows most.
type Pool struct {
	New   func() any
	items []any
	hb    sync.Mutex
}

func (p *Pool) Get() any {
	vsched.P(vsched.Shared)
	p.hb.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.hb.Unlock()
		return x
	}
	p.hb.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	vsched.P(vsched.Shared)
	if x == nil {
		return
	}
	p.hb.Lock()
	p.items = append(p.items, x)
	p.hb.Unlock()
}

// Map stands in for sync.Map.
type Map struct{ real sync.Map }

func (m *Map) Load(k any) (any, bool) { vsched.P(vsched.Shared); return m.real.Load(k) }
func (m *Map) Store(k, v any)         { vsched.P(vsched.Shared); m.real.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	vsched.P(vsched.Shared)
	return m.real.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	vsched.P(vsched.Shared)
	return m.real.LoadAndDelete(k)
}
func (m *Map) Delete(k any) { vsched.P(vsched.Shared); m.real.Delete(k) }
func (m *Map) Clear()       { vsched.P(vsched.Shared); m.real.Clear() }
func (m *Map) Swap(k, v any) (any, bool) {
	vsched.P(vsched.Shared)
	return m.real.Swap(k, v)
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	vsched.P(vsched.Shared)
	return m.real.CompareAndSwap(k, o, n)
}
func (m *Map) CompareAndDelete(k, o any) bool {
	vsched.P(vsched.Shared)
	return m.real.CompareAndDelete(k, o)
}
func (m *Map) Range(f func(k, v any) bool) {
	vsched.P(vsched.Shared)
	m.real.Range(f)
}
