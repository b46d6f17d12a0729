// Package vsync has the API of sync; every operation is a scheduling point.
package vsync

import "vs"

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct{ l vs.Lock }

func (m *Mutex) Lock()         { m.l.Lock() }
func (m *Mutex) Unlock()       { m.l.Unlock() }
func (m *Mutex) TryLock() bool { return m.l.TryLock() }

type RWMutex struct{ l vs.Lock }

func (m *RWMutex) Lock()         { m.l.Lock() }
func (m *RWMutex) Unlock()       { m.l.Unlock() }
func (m *RWMutex) TryLock() bool { return m.l.TryLock() }
func (m *RWMutex) RLock()        { m.l.RLock() }
func (m *RWMutex) RUnlock()      { m.l.RUnlock() }

type rlocker struct{ l *vs.Lock }

func (r rlocker) Lock()            { r.l.RLock() }
func (r rlocker) Unlock()          { r.l.RUnlock() }
func (m *RWMutex) RLocker() Locker { return rlocker{&m.l} }

type WaitGroup struct{ l vs.Lock }

func (w *WaitGroup) Add(n int) { w.l.Add(n) }
func (w *WaitGroup) Done()     { w.l.Add(-1) }
func (w *WaitGroup) Wait()     { w.l.WaitZero() }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vs.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	l    vs.Lock
	done bool
}

func (o *Once) Do(f func()) {
	o.l.Lock()
	defer o.l.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

type Pool struct {
	New func() any
	p   vs.Pool
}

func (p *Pool) Get() any  { return p.p.Get(p.New) }
func (p *Pool) Put(v any) { p.p.Put(v) }

type Cond struct {
	L Locker
	l vs.Lock
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait()        { c.l.CondWait(c.L.Unlock, c.L.Lock) }
func (c *Cond) Signal()      { c.l.CondSignal(false) }
func (c *Cond) Broadcast()   { c.l.CondSignal(true) }

// Map is a locked map with the API of sync.Map.
type Map struct {
	l vs.Lock
	m map[any]any
}

func (m *Map) do(f func()) {
	m.l.Lock()
	if m.m == nil {
		m.m = map[any]any{}
	}
	f()
	m.l.Unlock()
}

func (m *Map) Load(k any) (v any, ok bool) {
	m.do(func() { v, ok = m.m[k] })
	return
}
func (m *Map) Store(k, v any) { m.do(func() { m.m[k] = v }) }
func (m *Map) Delete(k any)   { m.do(func() { delete(m.m, k) }) }
func (m *Map) LoadOrStore(k, v any) (act any, loaded bool) {
	m.do(func() {
		if act, loaded = m.m[k]; !loaded {
			m.m[k] = v
			act = v
		}
	})
	return
}
func (m *Map) LoadAndDelete(k any) (v any, ok bool) {
	m.do(func() { v, ok = m.m[k]; delete(m.m, k) })
	return
}
