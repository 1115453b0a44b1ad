// Package sync replaces sync: locks are ordinary code whose blocking and
// scheduling points are visible to the machine. A RWMutex follows the
// documented policy: a waiting writer keeps new readers out.
package sync

import "verif.local/h/nd"

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct {
	held bool
	c    int
}

//go:norace
func (m *Mutex) Lock() {
	nd.Sched()
	for m.held {
		nd.Block(m)
	}
	m.held = true
	nd.HBAcquire(&m.c)
}

//go:norace
func (m *Mutex) TryLock() bool {
	nd.Sched()
	if m.held {
		return false
	}
	m.held = true
	nd.HBAcquire(&m.c)
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	nd.HBRelease(&m.c)
	m.held = false
	nd.Notify(m)
}

type RWMutex struct {
	w       bool
	readers int
	pending int
	wc      int
	rc      int
}

//go:norace
func (m *RWMutex) Lock() {
	nd.Sched()
	m.pending++
	for m.w || m.readers > 0 {
		nd.Block(m)
	}
	m.pending--
	m.w = true
	nd.HBAcquire(&m.wc)
	nd.HBAcquire(&m.rc)
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	nd.HBRelease(&m.wc)
	m.w = false
	nd.Notify(m)
}

//go:norace
func (m *RWMutex) RLock() {
	nd.Sched()
	for m.w || m.pending > 0 {
		nd.Block(m)
	}
	m.readers++
	nd.HBAcquire(&m.wc)
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	nd.HBRelease(&m.rc)
	m.readers--
	nd.Notify(m)
}

//go:norace
func (m *RWMutex) TryLock() bool {
	nd.Sched()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	nd.HBAcquire(&m.wc)
	nd.HBAcquire(&m.rc)
	return true
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	nd.Sched()
	if m.w || m.pending > 0 {
		return false
	}
	m.readers++
	nd.HBAcquire(&m.wc)
	return true
}

//go:norace
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

//go:norace
func (r *rlocker) Lock() { (*RWMutex)(r).RLock() }

//go:norace
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Held reports whether any lock is held (harness use only).
//
//go:norace
func (m *RWMutex) Held() bool { return m.w || m.readers > 0 }

type Once struct {
	m    Mutex
	done bool
}

//go:norace
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type Pool struct {
	New   func() any
	items []any
}

//go:norace
func (p *Pool) Get() any {
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(x any) { p.items = append(p.items, x) }

type WaitGroup struct {
	n int
	c int
}

//go:norace
func (w *WaitGroup) Add(d int) {
	w.n += d
	if w.n == 0 {
		nd.HBRelease(&w.c)
		nd.Notify(w)
	}
}

//go:norace
func (w *WaitGroup) Done() { nd.HBRelease(&w.c); w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	nd.Sched()
	for w.n > 0 {
		nd.Block(w)
	}
	nd.HBAcquire(&w.c)
}
