//go:build go1.21

// Package vsync has the sync package's types on top of vsched.
package vsync

import (
	"sync"
	"unsafe"

	"github.com/ConsenSys/fc-retrieval/common/verif/vsched"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex is a controlled mutex.
type Mutex struct {
	real   sync.Mutex
	locked bool
}

//go:noinline
func (m *Mutex) Lock() {
	if !vsched.Active() {
		m.real.Lock()
		m.locked = true
		return
	}
	if vsched.Exiting() {
		return
	}
	vsched.Block("Mutex.Lock", func() bool { return !m.locked })
	if vsched.Exiting() {
		return
	}
	m.locked = true
	vsched.RaceAcquire(unsafe.Pointer(m))
}

//go:noinline
func (m *Mutex) TryLock() bool {
	if !vsched.Active() {
		ok := m.real.TryLock()
		if ok {
			m.locked = true
		}
		return ok
	}
	vsched.Point("Mutex.TryLock")
	if m.locked {
		return false
	}
	m.locked = true
	vsched.RaceAcquire(unsafe.Pointer(m))
	return true
}

//go:noinline
func (m *Mutex) Unlock() {
	if !vsched.Active() {
		m.locked = false
		m.real.Unlock()
		return
	}
	if vsched.Exiting() {
		return
	}
	if !m.locked {
		panic("fatal: sync: unlock of unlocked mutex")
	}
	vsched.RaceRelease(unsafe.Pointer(m))
	m.locked = false
	vsched.Point("Mutex.Unlock")
}

// RWMutex models Go's writer-preferring RWMutex: once a writer waits, new readers block.
type RWMutex struct {
	real     sync.RWMutex
	pending  bool // a writer holds or waits for the lock
	writing  bool
	readers  int
	readSem  byte
	writeSem byte
}

//go:noinline
func (m *RWMutex) RLock() {
	if !vsched.Active() {
		m.real.RLock()
		return
	}
	if vsched.Exiting() {
		return
	}
	vsched.Block("RWMutex.RLock", func() bool { return !m.pending })
	if vsched.Exiting() {
		return
	}
	m.readers++
	vsched.RaceAcquire(unsafe.Pointer(&m.readSem))
}

//go:noinline
func (m *RWMutex) TryRLock() bool {
	if !vsched.Active() {
		return m.real.TryRLock()
	}
	vsched.Point("RWMutex.TryRLock")
	if m.pending {
		return false
	}
	m.readers++
	vsched.RaceAcquire(unsafe.Pointer(&m.readSem))
	return true
}

//go:noinline
func (m *RWMutex) RUnlock() {
	if !vsched.Active() {
		m.real.RUnlock()
		return
	}
	if vsched.Exiting() {
		return
	}
	if m.readers == 0 {
		panic("fatal: sync: RUnlock of unlocked RWMutex")
	}
	vsched.RaceReleaseMerge(unsafe.Pointer(&m.writeSem))
	m.readers--
	vsched.Point("RWMutex.RUnlock")
}

//go:noinline
func (m *RWMutex) Lock() {
	if !vsched.Active() {
		m.real.Lock()
		return
	}
	if vsched.Exiting() {
		return
	}
	vsched.Block("RWMutex.Lock", func() bool { return !m.pending })
	if vsched.Exiting() {
		return
	}
	m.pending = true
	if m.readers > 0 {
		vsched.Block("RWMutex.Lock(drain readers)", func() bool { return m.readers == 0 })
		if vsched.Exiting() {
			return
		}
	}
	m.writing = true
	vsched.RaceAcquire(unsafe.Pointer(&m.readSem))
	vsched.RaceAcquire(unsafe.Pointer(&m.writeSem))
}

//go:noinline
func (m *RWMutex) TryLock() bool {
	if !vsched.Active() {
		return m.real.TryLock()
	}
	vsched.Point("RWMutex.TryLock")
	if m.pending || m.readers > 0 {
		return false
	}
	m.pending, m.writing = true, true
	vsched.RaceAcquire(unsafe.Pointer(&m.readSem))
	vsched.RaceAcquire(unsafe.Pointer(&m.writeSem))
	return true
}

//go:noinline
func (m *RWMutex) Unlock() {
	if !vsched.Active() {
		m.real.Unlock()
		return
	}
	if vsched.Exiting() {
		return
	}
	if !m.writing {
		panic("fatal: sync: Unlock of unlocked RWMutex")
	}
	vsched.RaceRelease(unsafe.Pointer(&m.readSem))
	m.writing, m.pending = false, false
	vsched.Point("RWMutex.Unlock")
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is a controlled sync.Once.
type Once struct {
	m    Mutex
	done bool
}

//go:noinline
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer o.set()
		f()
	}
}

//go:noinline
func (o *Once) set() { o.done = true }

// WaitGroup is a controlled sync.WaitGroup.
type WaitGroup struct {
	n    int
	sync byte
}

//go:noinline
func (w *WaitGroup) Add(d int) {
	vsched.Point("WaitGroup.Add")
	if vsched.Exiting() {
		return
	}
	if d < 0 {
		vsched.RaceReleaseMerge(unsafe.Pointer(&w.sync))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:noinline
func (w *WaitGroup) Wait() {
	vsched.Block("WaitGroup.Wait", func() bool { return w.n <= 0 })
	vsched.RaceAcquire(unsafe.Pointer(&w.sync))
}

// Cond is a controlled sync.Cond.
type Cond struct {
	L       Locker
	waiters int
	tickets int
	gen     int
	sync    byte
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:noinline
func (c *Cond) Wait() {
	c.waiters++
	c.L.Unlock()
	vsched.Block("Cond.Wait", func() bool { return c.tickets > 0 })
	if !vsched.Exiting() {
		c.tickets--
	}
	vsched.RaceAcquire(unsafe.Pointer(&c.sync))
	c.L.Lock()
}

//go:noinline
func (c *Cond) Signal() {
	vsched.Point("Cond.Signal")
	vsched.RaceReleaseMerge(unsafe.Pointer(&c.sync))
	if c.waiters > 0 {
		c.waiters--
		c.tickets++
	}
}

//go:noinline
func (c *Cond) Broadcast() {
	vsched.Point("Cond.Broadcast")
	vsched.RaceReleaseMerge(unsafe.Pointer(&c.sync))
	c.tickets += c.waiters
	c.waiters = 0
}

// Map is sync.Map with scheduling points.
type Map struct{ m sync.Map }

func (m *Map) Load(k interface{}) (interface{}, bool) { vsched.Point("Map.Load"); return m.m.Load(k) }
func (m *Map) Store(k, v interface{})                 { vsched.Point("Map.Store"); m.m.Store(k, v) }
func (m *Map) Delete(k interface{})                   { vsched.Point("Map.Delete"); m.m.Delete(k) }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	vsched.Point("Map.LoadOrStore")
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	vsched.Point("Map.LoadAndDelete")
	return m.m.LoadAndDelete(k)
}
func (m *Map) Range(f func(k, v interface{}) bool) { vsched.Point("Map.Range"); m.m.Range(f) }

func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	vsched.Point("Map.Swap")
	return m.m.Swap(k, v)
}
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	vsched.Point("Map.CompareAndSwap")
	return m.m.CompareAndSwap(k, o, n)
}
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	vsched.Point("Map.CompareAndDelete")
	return m.m.CompareAndDelete(k, o)
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	o := &Once{}
	return func() { o.Do(f) }
}

// Pool is sync.Pool (deterministic: a plain free list is not needed, always New).
type Pool struct{ New func() interface{} }

func (p *Pool) Get() interface{} {
	if p.New == nil {
		return nil
	}
	return p.New()
}
func (p *Pool) Put(interface{}) {}
