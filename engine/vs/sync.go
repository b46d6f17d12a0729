package vs

import "unsafe"

// Exploring tells whether interleavings are being explored right now.
func (x *Exec) Exploring() bool { return x.exploring && !x.dead }

// Lock is the state behind mutexes, read-write mutexes and wait groups.
type Lock struct {
	writer  bool
	readers int
	n       int
	version uint64
	q       []*thread
}

func (l *Lock) wait(x *Exec, what string, ready func() bool, take func()) {
	for {
		x.Pt(unsafe.Pointer(l), KWrite, what)
		x.DidRead(unsafe.Pointer(&l.version), 8)
		if ready() {
			x.Acquire(unsafe.Pointer(l))
			take()
			return
		}
		x.Downgrade()
		l.q = append(l.q, x.cur)
		x.park(what)
	}
}

func (l *Lock) signal(x *Exec) {
	l.version++
	for _, t := range l.q {
		x.wake(t)
	}
	l.q = nil
}

func (l *Lock) Lock() {
	x := X
	if x == nil || x.dead {
		return
	}
	l.wait(x, "lock", func() bool { return !l.writer && l.readers == 0 }, func() { l.writer = true })
}

func (l *Lock) TryLock() bool {
	x := X
	if x == nil || x.dead {
		return true
	}
	x.Pt(unsafe.Pointer(l), KWrite, "trylock")
	x.DidRead(unsafe.Pointer(&l.version), 8)
	if l.writer || l.readers > 0 {
		x.Downgrade()
		return false
	}
	x.Acquire(unsafe.Pointer(l))
	l.writer = true
	return true
}

func (l *Lock) Unlock() {
	x := X
	if x == nil || x.dead {
		return
	}
	x.Pt(unsafe.Pointer(l), KWrite, "unlock")
	if !l.writer {
		panic("sync: unlock of unlocked mutex")
	}
	x.Release(unsafe.Pointer(l), false)
	l.writer = false
	l.signal(x)
}

func (l *Lock) RLock() {
	x := X
	if x == nil || x.dead {
		return
	}
	l.wait(x, "rlock", func() bool { return !l.writer }, func() { l.readers++ })
}

func (l *Lock) RUnlock() {
	x := X
	if x == nil || x.dead {
		return
	}
	x.Pt(unsafe.Pointer(l), KWrite, "runlock")
	if l.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	x.Release(unsafe.Pointer(l), false)
	l.readers--
	l.signal(x)
}

// Add, WaitZero: wait group.
func (l *Lock) Add(d int) {
	x := X
	if x == nil || x.dead {
		return
	}
	x.Pt(unsafe.Pointer(l), KWrite, "wg add")
	x.Release(unsafe.Pointer(l), false)
	l.n += d
	if l.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if l.n == 0 {
		l.signal(x)
	}
}

func (l *Lock) WaitZero() {
	x := X
	if x == nil || x.dead {
		return
	}
	l.wait(x, "wg wait", func() bool { return l.n == 0 }, func() {})
}

// CondWait and CondSignal implement condition variables.
func (l *Lock) CondWait(unlock, lock func()) {
	x := X
	if x == nil || x.dead {
		return
	}
	x.Pt(unsafe.Pointer(l), KWrite, "cond wait")
	v := l.version
	l.q = append(l.q, x.cur)
	t := x.cur
	unlock()
	for l.waiting(t) {
		x.park("cond wait")
	}
	_ = v
	x.Acquire(unsafe.Pointer(l))
	lock()
}

func (l *Lock) waiting(t *thread) bool {
	for _, q := range l.q {
		if q == t {
			return true
		}
	}
	return false
}

func (l *Lock) CondSignal(all bool) {
	x := X
	if x == nil || x.dead {
		return
	}
	x.Pt(unsafe.Pointer(l), KWrite, "cond signal")
	x.Release(unsafe.Pointer(l), false)
	for len(l.q) > 0 {
		t := l.q[0]
		l.q = l.q[1:]
		if t.parked {
			x.wake(t)
		}
		if !all {
			break
		}
	}
}
