package vs

import "unsafe"

// Chan models a Go channel: arriving operations complete, hand over to a parked partner, or park.
type Chan[T any] struct {
	buf    []T
	cap    int
	closed bool
	recvq  []*waiter[T]
	sendq  []*waiter[T]
	rel    []uint32 // not used outside exploration
}

type waiter[T any] struct {
	t    *thread
	v    T
	ok   bool
	done bool
	sel  *selState
	idx  int
}

type selState struct {
	fired int // index of the case that fired, -1 none
}

func MakeChan[T any](n int) *Chan[T] { return &Chan[T]{cap: n} }

func (c *Chan[T]) pt(what string) *Exec {
	x := X
	if x == nil {
		panic("vs: channel operation outside an execution")
	}
	if c == nil {
		x.park("nil channel")
	}
	if x.dead {
		panic(killed{})
	}
	x.Pt(unsafe.Pointer(c), KWrite, what)
	x.Acquire(unsafe.Pointer(c))
	x.Release(unsafe.Pointer(c), false)
	return x
}

func popWaiter[T any](q *[]*waiter[T]) *waiter[T] {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.sel != nil {
			if w.sel.fired >= 0 {
				continue
			}
			w.sel.fired = w.idx
		}
		return w
	}
	return nil
}

func (c *Chan[T]) trySend(x *Exec, v T) bool {
	if c.closed {
		panic("send on closed channel")
	}
	if w := popWaiter(&c.recvq); w != nil {
		w.v, w.ok, w.done = v, true, true
		x.wake(w.t)
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

func (c *Chan[T]) tryRecv(x *Exec) (v T, ok, done bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = append([]T(nil), c.buf[1:]...)
		if w := popWaiter(&c.sendq); w != nil {
			c.buf = append(c.buf, w.v)
			w.done = true
			x.wake(w.t)
		}
		return v, true, true
	}
	if w := popWaiter(&c.sendq); w != nil {
		w.done = true
		x.wake(w.t)
		return w.v, true, true
	}
	if c.closed {
		return v, false, true
	}
	return v, false, false
}

func (c *Chan[T]) Send(v T) {
	x := c.pt("send")
	if c.trySend(x, v) {
		return
	}
	w := &waiter[T]{t: x.cur, v: v}
	c.sendq = append(c.sendq, w)
	x.park("chan send")
	x.Acquire(unsafe.Pointer(c))
	if !w.done {
		panic("send on closed channel")
	}
}

func (c *Chan[T]) Recv2() (T, bool) {
	x := c.pt("receive")
	if v, ok, done := c.tryRecv(x); done {
		return v, ok
	}
	w := &waiter[T]{t: x.cur}
	c.recvq = append(c.recvq, w)
	x.park("chan receive")
	x.Acquire(unsafe.Pointer(c))
	return w.v, w.ok
}

func (c *Chan[T]) Recv() T {
	v, _ := c.Recv2()
	return v
}

func (c *Chan[T]) Close() {
	if c == nil {
		panic("close of nil channel")
	}
	x := X
	if x != nil && x.dead {
		return
	}
	x = c.pt("close")
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	for w := popWaiter(&c.recvq); w != nil; w = popWaiter(&c.recvq) {
		w.done = true
		x.wake(w.t)
	}
	for w := popWaiter(&c.sendq); w != nil; w = popWaiter(&c.sendq) {
		x.wake(w.t)
	}
}

func (c *Chan[T]) Len() int {
	c.pt("len")
	return len(c.buf)
}

func (c *Chan[T]) Cap() int { return c.cap }

// First starts a range over c.
func First[T any](c *Chan[T]) (*Chan[T], T, bool) {
	v, ok := c.Recv2()
	return c, v, ok
}

// Case is one communication of a select.
type Case interface {
	ptr() unsafe.Pointer
	isNil() bool
	try(x *Exec) bool
	enqueue(t *thread, s *selState, i int)
	finish()
}

type RCase[T any] struct {
	c  *Chan[T]
	V  T
	OK bool
	w  *waiter[T]
}

type SCase[T any] struct {
	c *Chan[T]
	v T
	w *waiter[T]
}

func (c *Chan[T]) RecvCase() *RCase[T]    { return &RCase[T]{c: c} }
func (c *Chan[T]) SendCase(v T) *SCase[T] { return &SCase[T]{c: c, v: v} }

func (r *RCase[T]) ptr() unsafe.Pointer { return unsafe.Pointer(r.c) }
func (r *RCase[T]) isNil() bool         { return r.c == nil }
func (r *RCase[T]) try(x *Exec) bool {
	v, ok, done := r.c.tryRecv(x)
	if done {
		r.V, r.OK = v, ok
	}
	return done
}
func (r *RCase[T]) enqueue(t *thread, s *selState, i int) {
	r.w = &waiter[T]{t: t, sel: s, idx: i}
	r.c.recvq = append(r.c.recvq, r.w)
}
func (r *RCase[T]) finish() { r.V, r.OK = r.w.v, r.w.ok }

func (s *SCase[T]) ptr() unsafe.Pointer { return unsafe.Pointer(s.c) }
func (s *SCase[T]) isNil() bool         { return s.c == nil }
func (s *SCase[T]) try(x *Exec) bool    { return s.c.trySend(x, s.v) }
func (s *SCase[T]) enqueue(t *thread, st *selState, i int) {
	s.w = &waiter[T]{t: t, v: s.v, sel: st, idx: i}
	s.c.sendq = append(s.c.sendq, s.w)
}
func (s *SCase[T]) finish() {
	if !s.w.done {
		panic("send on closed channel")
	}
}

// Select performs one of the cases and returns its index, or -1 for the default.
func Select(hasDefault bool, cases ...Case) int {
	x := X
	if x == nil {
		panic("vs: select outside an execution")
	}
	if x.dead {
		panic(killed{})
	}
	x.step()
	if x.exploring {
		t := x.cur
		op := Op{Kind: KWrite, What: "select"}
		for _, c := range cases {
			if c.isNil() {
				continue
			}
			l := x.loc(uintptr(c.ptr()))
			if op.Loc == 0 {
				op.Loc = l
			} else {
				op.More = append(op.More, l)
			}
		}
		t.pend = op
		x.suspend(t)
	}
	for _, c := range cases {
		if !c.isNil() {
			x.Acquire(c.ptr())
			x.Release(c.ptr(), false)
		}
	}
	n := len(cases)
	for k := 0; k < n; k++ {
		i := k
		if x.cfg.SelectLast {
			i = n - 1 - k
		}
		if !cases[i].isNil() && cases[i].try(x) {
			return i
		}
	}
	if hasDefault {
		return -1
	}
	s := &selState{fired: -1}
	for i, c := range cases {
		if !c.isNil() {
			c.enqueue(x.cur, s, i)
		}
	}
	x.park("select")
	x.Acquire(cases[s.fired].ptr())
	cases[s.fired].finish()
	return s.fired
}

// Pool models sync.Pool without ever dropping an object: per thread and last-in first-out by default,
// so that recycled objects are used again as soon as possible.
type Pool struct {
	shared []any
}

func (p *Pool) Get(mk func() any) any {
	x := X
	if x == nil || x.cfg.PoolFresh {
		if mk == nil {
			return nil
		}
		return mk()
	}
	if x.cfg.PoolShared {
		x.Pt(unsafe.Pointer(p), KWrite, "pool get")
		x.Acquire(unsafe.Pointer(p))
		x.Release(unsafe.Pointer(p), false)
		if x.poolOf == nil {
			x.poolOf = map[*Pool][]any{}
		}
		if l := x.poolOf[p]; len(l) > 0 {
			v := l[len(l)-1]
			x.poolOf[p] = l[:len(l)-1]
			return v
		}
	} else {
		t := x.cur
		if l := t.pools[p]; len(l) > 0 {
			v := l[len(l)-1]
			t.pools[p] = l[:len(l)-1]
			return v
		}
	}
	if mk == nil {
		return nil
	}
	return mk()
}

func (p *Pool) Put(v any) {
	x := X
	if x == nil || x.cfg.PoolFresh || x.dead {
		return
	}
	if x.cfg.PoolShared {
		x.Pt(unsafe.Pointer(p), KWrite, "pool put")
		x.Acquire(unsafe.Pointer(p))
		x.Release(unsafe.Pointer(p), false)
		if x.poolOf == nil {
			x.poolOf = map[*Pool][]any{}
		}
		x.poolOf[p] = append(x.poolOf[p], v)
		return
	}
	t := x.cur
	if t.pools == nil {
		t.pools = map[*Pool][]any{}
	}
	t.pools[p] = append(t.pools[p], v)
}
