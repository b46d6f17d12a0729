package vs

import (
	"fmt"
	"unsafe"
)

// happens-before race detector (vector clocks), active while exploring

type access struct {
	tid    int
	clk    uint32
	atomic bool
	pc     string
}

type shadowCell struct {
	w     access
	hasW  bool
	reads []access
}

func (x *Exec) tick(t *thread) {
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id]++
}

func mergeVC(dst *[]uint32, src []uint32) {
	for len(*dst) < len(src) {
		*dst = append(*dst, 0)
	}
	for i, v := range src {
		if v > (*dst)[i] {
			(*dst)[i] = v
		}
	}
}

func (x *Exec) join(t, other *thread) {
	mergeVC(&t.vc, other.vc)
	x.tick(t)
}

func (t *thread) after(a access) bool {
	return a.tid == t.id || (a.tid < len(t.vc) && t.vc[a.tid] >= a.clk)
}

// acquire/release on a synchronisation location
func (x *Exec) Acquire(p unsafe.Pointer) {
	if x.exploring && !x.dead {
		mergeVC(&x.cur.vc, x.syncVC[uintptr(p)])
	}
}

// Release publishes the thread's clock at p; replace forgets earlier releases (plain store).
func (x *Exec) Release(p unsafe.Pointer, replace bool) {
	if !x.exploring || x.dead {
		return
	}
	t := x.cur
	c := append([]uint32(nil), t.vc...)
	if !replace {
		mergeVC(&c, x.syncVC[uintptr(p)])
	}
	x.syncVC[uintptr(p)] = c
	x.tick(t)
}

// Access notes a memory access for the race detector.
func (x *Exec) Access(p uintptr, write, atomic bool) {
	if !x.exploring || x.dead || x.cfg.NoRaces {
		return
	}
	t := x.cur
	if t.id == 0 {
		return
	}
	a := p &^ 3
	c := x.shadow[a]
	if c == nil {
		c = &shadowCell{}
		x.shadow[a] = c
	}
	me := access{tid: t.id, clk: t.vc[t.id], atomic: atomic}
	if c.hasW && !(atomic && c.w.atomic) && !t.after(c.w) {
		x.race(c.w, me, true, write)
	}
	if write {
		for _, r := range c.reads {
			if !(atomic && r.atomic) && !t.after(r) {
				x.race(r, me, false, write)
			}
		}
		// keep the accesses a later plain access may still race with
		if atomic && c.hasW && !c.w.atomic && !t.after(c.w) {
			return
		}
		c.w, c.hasW = me, true
		c.reads = c.reads[:0]
		return
	}
	for i := range c.reads {
		if c.reads[i].tid == t.id && (c.reads[i].atomic || !atomic) {
			c.reads[i] = me
			return
		}
	}
	c.reads = append(c.reads, me)
}

func (x *Exec) race(a, b access, aw, bw bool) {
	d := func(a access, w bool) string {
		s := "plain "
		if a.atomic {
			s = "atomic "
		}
		if w {
			s += "write"
		} else {
			s += "read"
		}
		return fmt.Sprintf("%s by thread %d (%s)", s, a.tid, x.threads[a.tid].name)
	}
	x.failKind("race", "data race: %s is not ordered with %s", d(b, bw), d(a, aw))
}

var never bool
var sink unsafe.Pointer

// RP notes a plain read of *p.
func RP[T any](p *T) *T {
	if never {
		sink = unsafe.Pointer(p)
	}
	if x := X; x != nil && x.exploring {
		x.Access(uintptr(unsafe.Pointer(p)), false, false)
	}
	return p
}

// W notes a plain write of *p.
func W[T any](p *T) {
	if never {
		sink = unsafe.Pointer(p)
	}
	if x := X; x != nil && x.exploring {
		x.Access(uintptr(unsafe.Pointer(p)), true, false)
	}
}

func noteSlice(s []uint64, n int, write bool) {
	x := X
	if x == nil || !x.exploring {
		return
	}
	for i := 0; i < n && i < len(s); i++ {
		x.Access(uintptr(unsafe.Pointer(&s[i])), write, false)
	}
}

// RS notes a plain read of all elements.
func RS(s []uint64) []uint64 {
	noteSlice(s, len(s), false)
	return s
}

// Copy is the copy builtin on []uint64.
func Copy(dst, src []uint64) int {
	n := min(len(dst), len(src))
	noteSlice(src, n, false)
	noteSlice(dst, n, true)
	return copy(dst, src)
}

// Memmove copies n bytes; when a side lies in a []uint64, its bounds are checked and the words noted.
func Memmove(to, from unsafe.Pointer, n uintptr, toS, fromS []uint64) {
	if toS != nil && n > uintptr(cap(toS))*8 || fromS != nil && n > uintptr(cap(fromS))*8 {
		panic(fmt.Sprintf("memory access out of bounds: memmove of %d bytes, room for %d/%d words", n, cap(toS), cap(fromS)))
	}
	w := int(n+7) / 8
	noteSlice(fromS, w, false)
	noteSlice(toS, w, true)
	copy(unsafe.Slice((*byte)(to), n), unsafe.Slice((*byte)(from), n))
}
