// Package vsync replaces sync in instrumented code.
package vsync

import (
	"sync"
	"unsafe"

	"vharness/vrt"
)

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
)

// Pool hands out what was put last.
type Pool struct {
	New func() interface{}
	mu  Mutex
	l   []interface{}
}

func (p *Pool) Get() interface{} {
	p.mu.Lock()
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	p.mu.Lock()
	p.l = append(p.l, x)
	p.mu.Unlock()
}

// Map iterates in the order of insertion.
type Map struct {
	mu sync.Mutex
	m  map[interface{}]interface{}
	k  []interface{}
}

func (m *Map) do(f func()) {
	vrt.Point("map", nil)
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	f()
}

func (m *Map) set(k, v interface{}) {
	if _, ok := m.m[k]; !ok {
		m.k = append(m.k, k)
	}
	m.m[k] = v
}

func (m *Map) del(k interface{}) {
	delete(m.m, k)
	for i, x := range m.k {
		if x == k {
			m.k = append(m.k[:i:i], m.k[i+1:]...)
			return
		}
	}
}

func (m *Map) Load(k interface{}) (v interface{}, ok bool) {
	m.do(func() { v, ok = m.m[k] })
	return
}
func (m *Map) Store(k, v interface{}) { m.do(func() { m.set(k, v) }) }
func (m *Map) Clear()                 { m.do(func() { m.m, m.k = nil, nil }) }
func (m *Map) Delete(k interface{}) {
	m.do(func() {
		if _, ok := m.m[k]; ok {
			m.del(k)
		}
	})
}
func (m *Map) LoadOrStore(k, v interface{}) (r interface{}, ok bool) {
	m.do(func() {
		if r, ok = m.m[k]; !ok {
			r = v
			m.set(k, v)
		}
	})
	return
}
func (m *Map) LoadAndDelete(k interface{}) (r interface{}, ok bool) {
	m.do(func() {
		if r, ok = m.m[k]; ok {
			m.del(k)
		}
	})
	return
}
func (m *Map) Swap(k, v interface{}) (r interface{}, ok bool) {
	m.do(func() { r, ok = m.m[k]; m.set(k, v) })
	return
}
func (m *Map) CompareAndSwap(k, old, v interface{}) (ok bool) {
	m.do(func() {
		if x, had := m.m[k]; had && x == old {
			m.set(k, v)
			ok = true
		}
	})
	return
}
func (m *Map) CompareAndDelete(k, old interface{}) (ok bool) {
	m.do(func() {
		if x, had := m.m[k]; had && x == old {
			m.del(k)
			ok = true
		}
	})
	return
}
func (m *Map) Range(f func(k, v interface{}) bool) {
	var ks []interface{}
	m.do(func() { ks = append(ks, m.k...) })
	for _, k := range ks {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// RWMutex doubles as the implementation of Mutex.
type RWMutex struct {
	in      sync.Mutex // protects the fields below, never held across a block
	writer  bool
	readers int
	waiting []chan struct{}
	race    byte
	pending int // writers that wait: they keep later readers out, as in sync
}

func (m *RWMutex) free() bool  { return !m.writer && m.readers == 0 }
func (m *RWMutex) rfree() bool { return !m.writer && m.pending == 0 }

func (m *RWMutex) acquire(label string, ok func() bool, take func()) {
	vrt.RaceOff()
	e := vrt.Cur
	if e != nil && e.Sched() && e.LockPoints && !e.IsController() {
		vrt.Point(label, ok)
	}
	for {
		m.in.Lock()
		if ok() || (e != nil && e.Dying()) {
			take()
			m.in.Unlock()
			break
		}
		ch := make(chan struct{}, 1)
		m.waiting = append(m.waiting, ch)
		m.in.Unlock()
		<-ch
	}
	vrt.RaceBack()
	vrt.RaceAcquire(unsafe.Pointer(&m.race))
}

func (m *RWMutex) release(f func()) {
	vrt.RaceRelease(unsafe.Pointer(&m.race))
	vrt.RaceOff()
	m.in.Lock()
	f()
	w := m.waiting
	m.waiting = nil
	m.in.Unlock()
	for _, ch := range w {
		ch <- struct{}{}
	}
	vrt.RaceBack()
}

// Lock mirrors sync.RWMutex.Lock: once it waits for readers it keeps out new ones.
func (m *RWMutex) Lock() {
	e := vrt.Cur
	if e == nil || !e.Sched() || !e.LockPoints || e.IsController() {
		m.lock()
		return
	}
	vrt.Point("lock", nil)
	vrt.RaceOff()
	m.in.Lock()
	wait := !m.free()
	if wait {
		m.pending++
	} else {
		m.writer = true
	}
	m.in.Unlock()
	vrt.RaceBack()
	if !wait {
		vrt.RaceAcquire(unsafe.Pointer(&m.race))
		return
	}
	m.acquire("lock-wait", m.free, func() { m.writer = true; m.pending-- })
}
func (m *RWMutex) lock() { m.acquire("lock", m.free, func() { m.writer = true }) }
func (m *RWMutex) Unlock() {
	m.release(func() {
		if !m.writer && !(vrt.Cur != nil && vrt.Cur.Dying()) {
			panic("sync: unlock of unlocked mutex")
		}
		m.writer = false
	})
}
func (m *RWMutex) TryLock() bool {
	vrt.Point("trylock", nil)
	m.in.Lock()
	defer m.in.Unlock()
	if m.free() {
		m.writer = true
		vrt.RaceAcquire(unsafe.Pointer(&m.race))
		return true
	}
	return false
}
func (m *RWMutex) RLock() { m.acquire("rlock", m.rfree, func() { m.readers++ }) }
func (m *RWMutex) RUnlock() {
	m.release(func() {
		if m.readers == 0 && !(vrt.Cur != nil && vrt.Cur.Dying()) {
			panic("sync: RUnlock of unlocked RWMutex")
		}
		m.readers--
	})
}
func (m *RWMutex) TryRLock() bool {
	vrt.Point("tryrlock", nil)
	m.in.Lock()
	defer m.in.Unlock()
	if m.rfree() {
		m.readers++
		vrt.RaceAcquire(unsafe.Pointer(&m.race))
		return true
	}
	return false
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker mirrors sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Mutex mirrors sync.Mutex.
type Mutex struct{ rw RWMutex }

func (m *Mutex) Lock()         { m.rw.lock() }
func (m *Mutex) Unlock()       { m.rw.Unlock() }
func (m *Mutex) TryLock() bool { return m.rw.TryLock() }

// Once mirrors sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc mirrors sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
