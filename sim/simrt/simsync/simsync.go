// Package simsync stands in for sync in instrumented code: the same types,
// but blocking goes through the scheduler, and pools give the same objects
// back in the same order in every run.
package simsync

import (
	"sync"

	"vsim/simrt"
)

type (
	// Map is the real one, it never blocks.
	Map = sync.Map
	// Locker is the same interface.
	Locker = sync.Locker
)

// Mutex is a mutual exclusion lock.
type Mutex struct{ m sync.Mutex }

// Lock locks m.
func (m *Mutex) Lock() {
	simrt.Y()
	for !m.m.TryLock() {
		simrt.Wait()
	}
	simrt.Progress()
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool { simrt.Y(); return m.m.TryLock() }

// Unlock unlocks m.
func (m *Mutex) Unlock() { m.m.Unlock(); simrt.Progress(); simrt.Y() }

// RWMutex is a reader/writer lock.
type RWMutex struct{ m sync.RWMutex }

// Lock locks m for writing.
func (m *RWMutex) Lock() {
	simrt.Y()
	for !m.m.TryLock() {
		simrt.Wait()
	}
	simrt.Progress()
}

// Unlock unlocks m.
func (m *RWMutex) Unlock() { m.m.Unlock(); simrt.Progress(); simrt.Y() }

// RLock locks m for reading.
func (m *RWMutex) RLock() {
	simrt.Y()
	for !m.m.TryRLock() {
		simrt.Wait()
	}
	simrt.Progress()
}

// RUnlock undoes RLock.
func (m *RWMutex) RUnlock() { m.m.RUnlock(); simrt.Progress(); simrt.Y() }

// TryLock tries to lock m for writing.
func (m *RWMutex) TryLock() bool { return m.m.TryLock() }

// TryRLock tries to lock m for reading.
func (m *RWMutex) TryRLock() bool { return m.m.TryRLock() }

// RLocker is a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once does something once.
type Once struct {
	m    Mutex
	done bool
}

// Do calls f the first time.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is like sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is like sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues is like sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

// WaitGroup waits for goroutines.
type WaitGroup struct {
	m Mutex
	n int
}

// Add adds to the counter.
func (w *WaitGroup) Add(d int) { w.m.Lock(); w.n += d; w.m.Unlock() }

// Done decrements the counter.
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits for the counter to be zero.
func (w *WaitGroup) Wait() {
	for {
		w.m.Lock()
		n := w.n
		w.m.Unlock()
		if n <= 0 {
			return
		}
		simrt.Wait()
	}
}

// Pool hands out what was put in, the last one first.
type Pool struct {
	New  func() any
	m    Mutex
	free []any
}

// Get takes an object out.
func (p *Pool) Get() any {
	p.m.Lock()
	if n := len(p.free); n > 0 {
		x := p.free[n-1]
		p.free = p.free[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New == nil {
		return nil
	}
	return p.New()
}

// Put gives an object back.
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.m.Lock()
	if len(p.free) < 64 {
		p.free = append(p.free, x)
	}
	p.m.Unlock()
}
