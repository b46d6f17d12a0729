// Package vatomic has the API of sync/atomic; every operation is a scheduling point.
package vatomic

import (
	"unsafe"
	"vs"
)

type integer interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

func load[T integer](p *T, size uint8) T {
	x := vs.X
	if x == nil {
		return *p
	}
	u := unsafe.Pointer(p)
	x.Pt(u, vs.KRead, "load")
	if x.Exploring() {
		x.Acquire(u)
		x.Access(uintptr(u), false, true)
		x.DidRead(u, size)
	}
	return *p
}

func store[T integer](p *T, size uint8, v T) {
	x := vs.X
	if x == nil {
		*p = v
		return
	}
	u := unsafe.Pointer(p)
	x.Pt(u, vs.KWrite, "store")
	if x.Exploring() {
		x.Access(uintptr(u), true, true)
		x.Release(u, true)
	}
	*p = v
	x.DidWrite(u, size)
}

func rmw[T integer](p *T, size uint8, f func(T) T) (old T) {
	x := vs.X
	if x == nil {
		old = *p
		*p = f(old)
		return
	}
	u := unsafe.Pointer(p)
	x.Pt(u, vs.KWrite, "rmw")
	if x.Exploring() {
		x.Acquire(u)
		x.Access(uintptr(u), true, true)
		x.Release(u, false)
	}
	old = *p
	*p = f(old)
	x.DidWrite(u, size)
	return
}

func add[T integer](p *T, size uint8, d T) T {
	return rmw(p, size, func(v T) T { return v + d }) + d
}

func swap[T integer](p *T, size uint8, n T) T {
	return rmw(p, size, func(T) T { return n })
}

func cas[T integer](p *T, size uint8, o, n T) bool {
	x := vs.X
	if x == nil {
		if *p != o {
			return false
		}
		*p = n
		return true
	}
	u := unsafe.Pointer(p)
	x.Pt(u, vs.KWrite, "cas")
	ok := *p == o
	if !ok {
		x.Downgrade()
	}
	if x.Exploring() {
		x.Acquire(u)
		x.Access(uintptr(u), ok, true)
		if ok {
			x.Release(u, false)
		} else {
			x.DidRead(u, size)
		}
	}
	if ok {
		*p = n
		x.DidWrite(u, size)
	}
	return ok
}

func LoadInt32(p *int32) int32                      { return load(p, 4) }
func StoreInt32(p *int32, v int32)                  { store(p, 4, v) }
func AddInt32(p *int32, d int32) int32              { return add(p, 4, d) }
func SwapInt32(p *int32, v int32) int32             { return swap(p, 4, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool { return cas(p, 4, o, n) }

// Int32 is an atomic int32.
type Int32 struct{ v int32 }

func (a *Int32) Load() int32                    { return load(&a.v, 4) }
func (a *Int32) Store(v int32)                  { store(&a.v, 4, v) }
func (a *Int32) Add(d int32) int32              { return add(&a.v, 4, d) }
func (a *Int32) Swap(v int32) int32             { return swap(&a.v, 4, v) }
func (a *Int32) CompareAndSwap(o, n int32) bool { return cas(&a.v, 4, o, n) }
func (a *Int32) And(m int32) int32              { return rmw(&a.v, 4, func(v int32) int32 { return v & m }) }
func (a *Int32) Or(m int32) int32               { return rmw(&a.v, 4, func(v int32) int32 { return v | m }) }
func AndInt32(p *int32, m int32) int32          { return rmw(p, 4, func(v int32) int32 { return v & m }) }
func OrInt32(p *int32, m int32) int32           { return rmw(p, 4, func(v int32) int32 { return v | m }) }

func LoadInt64(p *int64) int64                      { return load(p, 8) }
func StoreInt64(p *int64, v int64)                  { store(p, 8, v) }
func AddInt64(p *int64, d int64) int64              { return add(p, 8, d) }
func SwapInt64(p *int64, v int64) int64             { return swap(p, 8, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool { return cas(p, 8, o, n) }

// Int64 is an atomic int64.
type Int64 struct{ v int64 }

func (a *Int64) Load() int64                    { return load(&a.v, 8) }
func (a *Int64) Store(v int64)                  { store(&a.v, 8, v) }
func (a *Int64) Add(d int64) int64              { return add(&a.v, 8, d) }
func (a *Int64) Swap(v int64) int64             { return swap(&a.v, 8, v) }
func (a *Int64) CompareAndSwap(o, n int64) bool { return cas(&a.v, 8, o, n) }
func (a *Int64) And(m int64) int64              { return rmw(&a.v, 8, func(v int64) int64 { return v & m }) }
func (a *Int64) Or(m int64) int64               { return rmw(&a.v, 8, func(v int64) int64 { return v | m }) }
func AndInt64(p *int64, m int64) int64          { return rmw(p, 8, func(v int64) int64 { return v & m }) }
func OrInt64(p *int64, m int64) int64           { return rmw(p, 8, func(v int64) int64 { return v | m }) }

func LoadUint32(p *uint32) uint32                      { return load(p, 4) }
func StoreUint32(p *uint32, v uint32)                  { store(p, 4, v) }
func AddUint32(p *uint32, d uint32) uint32             { return add(p, 4, d) }
func SwapUint32(p *uint32, v uint32) uint32            { return swap(p, 4, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool { return cas(p, 4, o, n) }

// Uint32 is an atomic uint32.
type Uint32 struct{ v uint32 }

func (a *Uint32) Load() uint32                    { return load(&a.v, 4) }
func (a *Uint32) Store(v uint32)                  { store(&a.v, 4, v) }
func (a *Uint32) Add(d uint32) uint32             { return add(&a.v, 4, d) }
func (a *Uint32) Swap(v uint32) uint32            { return swap(&a.v, 4, v) }
func (a *Uint32) CompareAndSwap(o, n uint32) bool { return cas(&a.v, 4, o, n) }
func (a *Uint32) And(m uint32) uint32             { return rmw(&a.v, 4, func(v uint32) uint32 { return v & m }) }
func (a *Uint32) Or(m uint32) uint32              { return rmw(&a.v, 4, func(v uint32) uint32 { return v | m }) }
func AndUint32(p *uint32, m uint32) uint32        { return rmw(p, 4, func(v uint32) uint32 { return v & m }) }
func OrUint32(p *uint32, m uint32) uint32         { return rmw(p, 4, func(v uint32) uint32 { return v | m }) }

func LoadUint64(p *uint64) uint64                      { return load(p, 8) }
func StoreUint64(p *uint64, v uint64)                  { store(p, 8, v) }
func AddUint64(p *uint64, d uint64) uint64             { return add(p, 8, d) }
func SwapUint64(p *uint64, v uint64) uint64            { return swap(p, 8, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool { return cas(p, 8, o, n) }

// Uint64 is an atomic uint64.
type Uint64 struct{ v uint64 }

func (a *Uint64) Load() uint64                    { return load(&a.v, 8) }
func (a *Uint64) Store(v uint64)                  { store(&a.v, 8, v) }
func (a *Uint64) Add(d uint64) uint64             { return add(&a.v, 8, d) }
func (a *Uint64) Swap(v uint64) uint64            { return swap(&a.v, 8, v) }
func (a *Uint64) CompareAndSwap(o, n uint64) bool { return cas(&a.v, 8, o, n) }
func (a *Uint64) And(m uint64) uint64             { return rmw(&a.v, 8, func(v uint64) uint64 { return v & m }) }
func (a *Uint64) Or(m uint64) uint64              { return rmw(&a.v, 8, func(v uint64) uint64 { return v | m }) }
func AndUint64(p *uint64, m uint64) uint64        { return rmw(p, 8, func(v uint64) uint64 { return v & m }) }
func OrUint64(p *uint64, m uint64) uint64         { return rmw(p, 8, func(v uint64) uint64 { return v | m }) }

func LoadUintptr(p *uintptr) uintptr                      { return load(p, 8) }
func StoreUintptr(p *uintptr, v uintptr)                  { store(p, 8, v) }
func AddUintptr(p *uintptr, d uintptr) uintptr            { return add(p, 8, d) }
func SwapUintptr(p *uintptr, v uintptr) uintptr           { return swap(p, 8, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool { return cas(p, 8, o, n) }

// Uintptr is an atomic uintptr.
type Uintptr struct{ v uintptr }

func (a *Uintptr) Load() uintptr                    { return load(&a.v, 8) }
func (a *Uintptr) Store(v uintptr)                  { store(&a.v, 8, v) }
func (a *Uintptr) Add(d uintptr) uintptr            { return add(&a.v, 8, d) }
func (a *Uintptr) Swap(v uintptr) uintptr           { return swap(&a.v, 8, v) }
func (a *Uintptr) CompareAndSwap(o, n uintptr) bool { return cas(&a.v, 8, o, n) }
func (a *Uintptr) And(m uintptr) uintptr {
	return rmw(&a.v, 8, func(v uintptr) uintptr { return v & m })
}
func (a *Uintptr) Or(m uintptr) uintptr {
	return rmw(&a.v, 8, func(v uintptr) uintptr { return v | m })
}
func AndUintptr(p *uintptr, m uintptr) uintptr {
	return rmw(p, 8, func(v uintptr) uintptr { return v & m })
}
func OrUintptr(p *uintptr, m uintptr) uintptr {
	return rmw(p, 8, func(v uintptr) uintptr { return v | m })
}

// Bool is an atomic bool.
type Bool struct{ v uint32 }

func b2u(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}

func (a *Bool) Load() bool                    { return load(&a.v, 4) != 0 }
func (a *Bool) Store(v bool)                  { store(&a.v, 4, b2u(v)) }
func (a *Bool) Swap(v bool) bool              { return swap(&a.v, 4, b2u(v)) != 0 }
func (a *Bool) CompareAndSwap(o, n bool) bool { return cas(&a.v, 4, b2u(o), b2u(n)) }

// Pointer is an atomic pointer.
type Pointer[T any] struct{ p *T }

func ptpt[P any](p *P, kind uint8) *vs.Exec {
	x := vs.X
	if x != nil {
		u := unsafe.Pointer(p)
		x.Pt(u, kind, "pointer")
		if x.Exploring() {
			x.Acquire(u)
			x.Access(uintptr(u), kind == vs.KWrite, true)
			if kind == vs.KWrite {
				x.Release(u, false)
			} else {
				x.DidRead(u, 8)
			}
		}
	}
	return x
}

func (a *Pointer[T]) Load() *T {
	ptpt(&a.p, vs.KRead)
	return a.p
}

func (a *Pointer[T]) Store(v *T) {
	ptpt(&a.p, vs.KWrite)
	a.p = v
}

func (a *Pointer[T]) Swap(v *T) (old *T) {
	ptpt(&a.p, vs.KWrite)
	old, a.p = a.p, v
	return
}

func (a *Pointer[T]) CompareAndSwap(o, n *T) bool {
	ptpt(&a.p, vs.KWrite)
	if a.p != o {
		return false
	}
	a.p = n
	return true
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	ptpt(p, vs.KRead)
	return *p
}

func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	ptpt(p, vs.KWrite)
	*p = v
}

func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) (old unsafe.Pointer) {
	ptpt(p, vs.KWrite)
	old, *p = *p, v
	return
}

func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	ptpt(p, vs.KWrite)
	if *p != o {
		return false
	}
	*p = n
	return true
}

// Value is an atomic value.
type Value struct{ v any }

func (a *Value) Load() any {
	ptpt(&a.v, vs.KRead)
	return a.v
}

func (a *Value) Store(v any) {
	ptpt(&a.v, vs.KWrite)
	a.v = v
}

func (a *Value) Swap(v any) (old any) {
	ptpt(&a.v, vs.KWrite)
	old, a.v = a.v, v
	return
}

func (a *Value) CompareAndSwap(o, n any) bool {
	ptpt(&a.v, vs.KWrite)
	if a.v != o {
		return false
	}
	a.v = n
	return true
}
