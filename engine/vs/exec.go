// Package vs is the controlled runtime under which the instrumented package runs: cooperative threads
// (coroutines), a host scheduler that decides every interleaving, channels, mutexes, pools and atomics
// whose operations are scheduling points, and a happens-before race detector for plain accesses.
//
// An execution starts deterministic: thread 0 runs the harness body, other goroutines run only when it
// blocks. Between Exec.Go(...) and the return of Exec.Explore() the registered worker threads (and all
// goroutines the code has started) are interleaved under the control of a Strategy.
package vs

import (
	"fmt"
	"iter"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"unsafe"
)

// operation kinds
const (
	KRead  = iota // atomic load, failed CAS, failed lock...
	KWrite        // any operation that may change the location
	KWake         // continue after having been parked
	KAwait        // continue after a yield
	KStart        // first step of a goroutine
)

// Op is a visible operation, announced before it executes.
type Op struct {
	Kind uint8
	Loc  uint32   // location id, 0 = none
	More []uint32 // further locations (select)
	What string
}

// Event is an executed operation.
type Event struct {
	Tid    int
	Op     Op
	W      bool  // it changed its location(s)
	Preds  []int // extra happens-before predecessors (event indices)
	NoRace bool
}

type readRec struct {
	p    unsafe.Pointer
	size uint8
	val  uint64
}

type thread struct {
	id      int
	name    string
	daemon  bool
	next    func() (struct{}, bool)
	stop    func()
	yield   func(struct{}) bool
	started bool
	done    bool
	parked  bool
	wakeEv  int // event that woke it, -1 none
	spawnEv int

	pend     Op
	awaiting bool
	awaits   int
	reads    []readRec
	readIdx  map[uintptr]int
	whole    bool // once it runs it goes on until it waits (preemption bounding only)
	dirty    bool // it read a location twice and saw different values
	curEv    int  // index of its current event, -1 in deterministic mode

	vc []uint32 // race detector clock

	pools map[*Pool][]any
}

// Config of an execution.
type Config struct {
	NumCPU     int   // value of runtime.NumCPU seen by the code (default 2)
	MaxSteps   int64 // operations before the execution counts as not terminating (default 20M)
	PoolShared bool  // sync.Pool is one shared list and its operations are scheduling points
	PoolFresh  bool  // sync.Pool.Get always calls New
	SelectLast bool  // select picks the last ready case instead of the first
	AwaitBound int   // yields per thread before it only runs when nothing else can (default 4)
	NoRaces    bool  // do not report data races
}

// Strategy decides the interleaving.
type Strategy interface {
	// Choose picks one of enabled (ascending thread ids); cur is the running thread or -1.
	// A negative result abandons the execution (redundant).
	Choose(x *Exec, enabled []int, cur int) int
}

// Exec is one execution.
type Exec struct {
	cfg       Config
	strat     Strategy
	threads   []*thread
	cur       *thread
	exploring bool
	dead      bool
	draining  bool
	steps     int64
	points    int64

	fail      *Failure
	Abandoned bool
	Forced    int

	Log     []Event
	locs    map[uintptr]uint32
	nextLoc uint32
	lastW   map[uint32]int // last write event per location in this exploration

	forced   int
	workers  []*thread
	shadow   map[uintptr]*shadowCell
	syncVC   map[uintptr][]uint32
	Switches int
	Notes    []string // free-form trace written by the harness (history)
	poolOf   map[*Pool][]any
}

// Failure describes a violated property.
type Failure struct {
	Msg   string
	Kind  string // "fail", "panic", "race", "deadlock", "nonterm"
	Stack string
}

func (f *Failure) Error() string { return f.Kind + ": " + f.Msg }

type killed struct{}
type failed struct{}

// X is the current execution; nil outside one.
var X *Exec

// Heartbeat counts executions; a watchdog reads it.
var Heartbeat atomic.Int64

// Busy is set while an execution runs.
var Busy atomic.Bool

// Run performs one execution of body.
func Run(cfg Config, strat Strategy, body func(x *Exec)) *Exec {
	if X != nil {
		panic("vs: nested Run")
	}
	if cfg.NumCPU == 0 {
		cfg.NumCPU = 2
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 20_000_000
	}
	if cfg.AwaitBound == 0 {
		cfg.AwaitBound = 4
	}
	Heartbeat.Add(1)
	x := &Exec{cfg: cfg, strat: strat, locs: map[uintptr]uint32{}}
	X = x
	Busy.Store(true)
	defer func() { X = nil; Busy.Store(false) }()
	t0 := x.newThread("main", false, func() { body(x) })
	t0.started = true
	x.loop(t0)
	x.dead = true
	for _, t := range x.threads {
		if !t.done {
			x.cur = t
			t.stop()
			t.done = true
		}
	}
	return x
}

// Failure returns the first failure, or nil.
func (x *Exec) Failure() *Failure { return x.fail }

// Steps counts all visible operations, Points the scheduling decisions.
func (x *Exec) Steps() int64  { return x.steps }
func (x *Exec) Points() int64 { return x.points }

func (x *Exec) newThread(name string, daemon bool, f func()) *thread {
	t := &thread{id: len(x.threads), name: name, daemon: daemon, wakeEv: -1, spawnEv: -1, curEv: -1}
	if x.cur != nil && x.exploring {
		t.spawnEv = x.cur.curEv
	}
	t.pend = Op{Kind: KStart, What: "start"}
	x.threads = append(x.threads, t)
	if x.cur != nil {
		t.vc = append([]uint32(nil), x.cur.vc...)
		x.tick(x.cur)
	}
	x.tick(t)
	t.next, t.stop = iter.Pull(func(yield func(struct{}) bool) {
		t.yield = yield
		defer func() {
			t.done = true
			if r := recover(); r != nil {
				switch r.(type) {
				case killed, failed:
					return
				}
				x.setFail("panic", fmt.Sprint(r), trimStack(string(debug.Stack())))
			}
		}()
		f()
	})
	return t
}

func trimStack(s string) string {
	// drop the frames up to the panic
	if i := strings.LastIndex(s, "panic("); i >= 0 {
		s = s[i:]
	}
	lines := strings.Split(s, "\n")
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

func (x *Exec) setFail(kind, msg, stack string) {
	if x.fail == nil && !x.dead {
		x.fail = &Failure{Msg: msg, Kind: kind, Stack: stack}
	}
}

// Fail records a violation and ends the execution.
func (x *Exec) Fail(format string, a ...any) {
	x.setFail("fail", fmt.Sprintf(format, a...), "")
	panic(failed{})
}

func (x *Exec) failKind(kind, format string, a ...any) {
	var st string
	if kind != "deadlock" {
		st = trimStack(string(debug.Stack()))
	}
	x.setFail(kind, fmt.Sprintf(format, a...), st)
	panic(failed{})
}

// Note appends to the execution's trace.
func (x *Exec) Note(format string, a ...any) { x.Notes = append(x.Notes, fmt.Sprintf(format, a...)) }

// resume gives control to t until its next scheduling point.
func (x *Exec) resume(t *thread) {
	x.cur = t
	t.started = true
	_, ok := t.next()
	if !ok {
		t.done = true
	}
}

// loop is the host scheduler.
func (x *Exec) loop(t0 *thread) {
	last := t0
	for x.fail == nil && !x.Abandoned {
		if x.exploring {
			if x.workersDone() && x.quiet() {
				x.exploring = false
				for _, w := range x.workers {
					x.join(t0, w)
				}
				x.workers = nil
				t0.parked = false
				for _, t := range x.threads {
					t.curEv = -1
					t.wakeEv = -1
				}
				last = t0
				continue
			}
			en := x.enabledSet()
			if len(en) == 0 {
				x.setFail("deadlock", "no thread can make progress: "+x.describe(), "")
				return
			}
			cur := -1
			if !last.done {
				for _, e := range en {
					if e == last.id {
						cur = e
					}
				}
			}
			if cur >= 0 && last.whole {
				en = []int{cur}
			}
			var c int
			x.points++
			if x.forced > 0 {
				// nobody but yielded threads: fair round robin, not a branching point
				c = en[0]
				for _, e := range en {
					if x.threads[e].awaits < x.threads[c].awaits {
						c = e
					}
				}
				if s, ok := x.strat.(interface{ Forced(x *Exec, c int) }); ok {
					s.Forced(x, c)
				}
			} else {
				c = x.strat.Choose(x, en, cur)
				if c < 0 {
					x.Abandoned = true
					return
				}
			}
			t := x.threads[c]
			if t != last {
				x.Switches++
			}
			x.begin(t)
			x.resume(t)
			last = t
			continue
		}
		// deterministic mode: thread 0 whenever it can run, else the others in turn
		if t0.done {
			return
		}
		if !t0.parked && !t0.awaiting && !x.draining {
			x.forced = 0
			x.resume(t0)
			last = t0
			continue
		}
		var pick *thread
		n := len(x.threads)
		for i := 1; i <= n; i++ {
			t := x.threads[(last.id+i)%n]
			if t != t0 && !t.done && !t.parked && !t.awaiting && !t.isWorker(x) {
				pick = t
				break
			}
		}
		if pick != nil {
			x.forced = 0
			x.resume(pick)
			last = pick
			continue
		}
		// nobody is plainly runnable: let yielded threads go on
		any := false
		for _, t := range x.threads {
			if t.awaiting && !t.done {
				t.awaiting = false
				any = true
			}
		}
		if x.draining {
			x.draining = false
			t0.parked = false
			x.forced = 0
			continue
		}
		x.forced++
		if !any || x.forced > 200 {
			x.setFail("deadlock", "blocked forever: "+x.describe(), "")
			return
		}
	}
}

func (t *thread) isWorker(x *Exec) bool {
	for _, w := range x.workers {
		if w == t {
			return true
		}
	}
	return false
}

func (x *Exec) describe() string {
	var b strings.Builder
	for _, t := range x.threads {
		if t.done || (t.id == 0 && x.exploring) {
			continue
		}
		st := "runnable"
		if t.parked {
			st = "parked in " + t.pend.What
		} else if t.awaiting {
			st = "yielding"
		}
		fmt.Fprintf(&b, "[%d %s: %s] ", t.id, t.name, st)
	}
	return b.String()
}

func (x *Exec) workersDone() bool {
	for _, w := range x.workers {
		if !w.done {
			return false
		}
	}
	return true
}

// quiet: no goroutine can go on (those that only yield do not count).
func (x *Exec) quiet() bool {
	for _, t := range x.threads {
		if t.id == 0 || t.done || t.parked || t.awaiting && !t.changed() {
			continue
		}
		return false
	}
	return true
}

func (t *thread) changed() bool {
	if t.dirty {
		return true
	}
	for i := range t.reads {
		r := &t.reads[i]
		if peek(r.p, r.size) != r.val {
			return true
		}
	}
	return false
}

func peek(p unsafe.Pointer, size uint8) uint64 {
	switch size {
	case 4:
		return uint64(*(*uint32)(p))
	case 1:
		return uint64(*(*uint8)(p))
	}
	return *(*uint64)(p)
}

func (x *Exec) enabledSet() []int {
	x.forcedReset()
	var free, low []int
	stuck := 0
	for _, t := range x.threads {
		if t.done || t.parked || t.id == 0 {
			continue
		}
		if t.awaiting {
			if !t.changed() {
				stuck++
				continue
			}
			if t.awaits > x.cfg.AwaitBound {
				low = append(low, t.id)
				continue
			}
		}
		free = append(free, t.id)
	}
	if len(free) > 0 {
		return free
	}
	if len(low) > 0 {
		x.forced = 1
		x.Forced++
		if x.Forced > 5000 {
			return nil
		}
		return low
	}
	if stuck > 0 {
		x.Forced++
		if x.Forced > 400 {
			return nil
		}
		x.forced = 1
		for _, t := range x.threads {
			if !t.done && !t.parked && t.awaiting {
				low = append(low, t.id)
			}
		}
		return low
	}
	return nil
}

func (x *Exec) forcedReset() { x.forced = 0 }

// begin records the event that thread t is about to execute.
func (x *Exec) begin(t *thread) {
	ev := Event{Tid: t.id, Op: t.pend, W: t.pend.Kind == KWrite}
	idx := len(x.Log)
	if t.curEv < 0 && t.spawnEv >= 0 {
		ev.Preds = append(ev.Preds, t.spawnEv)
		ev.NoRace = true
	}
	switch t.pend.Kind {
	case KWake:
		if t.wakeEv >= 0 {
			ev.Preds = append(ev.Preds, t.wakeEv)
		}
		t.wakeEv = -1
	case KAwait:
		for i := range t.reads {
			if l, ok := x.locs[uintptr(t.reads[i].p)]; ok {
				if w, ok := x.lastW[l]; ok {
					ev.Preds = append(ev.Preds, w)
				}
			}
		}
		t.awaiting = false
		t.dirty = false
		t.reads = t.reads[:0]
		clear(t.readIdx)
	}
	t.curEv = idx
	x.Log = append(x.Log, ev)
	if ev.W {
		x.lastW[ev.Op.Loc] = idx
		for _, l := range ev.Op.More {
			x.lastW[l] = idx
		}
	}
}

func (x *Exec) suspend(t *thread) {
	if !t.yield(struct{}{}) {
		panic(killed{})
	}
	x.cur = t
}

func (x *Exec) loc(p uintptr) uint32 {
	l, ok := x.locs[p]
	if !ok {
		x.nextLoc++
		l = x.nextLoc
		x.locs[p] = l
	}
	return l
}

func (x *Exec) step() {
	x.steps++
	if x.steps > x.cfg.MaxSteps && !x.dead {
		x.failKind("nonterm", "no termination after %d operations", x.steps)
	}
}

// Pt is a scheduling point before an operation on the location p.
func (x *Exec) Pt(p unsafe.Pointer, kind uint8, what string) {
	if x.dead {
		return
	}
	x.step()
	if !x.exploring {
		return
	}
	t := x.cur
	t.pend = Op{Kind: kind, Loc: x.loc(uintptr(p)), What: what}
	x.suspend(t)
}

// Downgrade marks the current event as not having changed anything.
func (x *Exec) Downgrade() {
	if x.exploring && !x.dead && x.cur.curEv >= 0 {
		e := &x.Log[x.cur.curEv]
		e.W = false
		// lastW may now name a non-write; harmless (extra happens-before edge for awaits only)
	}
}

// DidRead/DidWrite remember the value of a location for await.
func (x *Exec) DidRead(p unsafe.Pointer, size uint8) {
	if !x.exploring || x.dead {
		return
	}
	t := x.cur
	v := peek(p, size)
	if i, ok := t.readIdx[uintptr(p)]; ok {
		if t.reads[i].val != v {
			t.dirty = true
		}
		t.reads[i].val = v
		return
	}
	if t.readIdx == nil {
		t.readIdx = map[uintptr]int{}
	}
	t.readIdx[uintptr(p)] = len(t.reads)
	t.reads = append(t.reads, readRec{p, size, v})
}

func (x *Exec) DidWrite(p unsafe.Pointer, size uint8) {
	if !x.exploring || x.dead {
		return
	}
	t := x.cur
	if i, ok := t.readIdx[uintptr(p)]; ok {
		t.reads[i].val = peek(p, size)
	}
}

// park blocks the current thread until wake.
func (x *Exec) park(what string) {
	t := x.cur
	if x.dead {
		panic(killed{})
	}
	t.parked = true
	t.pend = Op{Kind: KWake, What: what}
	x.suspend(t)
}

func (x *Exec) wake(t *thread) {
	t.parked = false
	t.wakeEv = -1
	if x.exploring && x.cur != nil {
		t.wakeEv = x.cur.curEv
	}
}

// Gosched yields: the thread continues once something it has read has changed.
func Gosched() {
	x := X
	if x == nil {
		runtime.Gosched()
		return
	}
	if x.dead {
		panic(killed{})
	}
	x.step()
	t := x.cur
	t.awaiting = true
	t.awaits++
	if x.exploring {
		t.pend = Op{Kind: KAwait, What: "yield"}
	}
	x.suspend(t)
	t.awaiting = false
}

// Sleep is a yield.
func Sleep[T any](T) { Gosched() }

// NumCPU and GOMAXPROCS are fixed by the configuration.
func NumCPU() int {
	if X == nil {
		return 2
	}
	return X.cfg.NumCPU
}

func GOMAXPROCS(int) int { return NumCPU() }

func NumGoroutine() int {
	n := 0
	if X != nil {
		for _, t := range X.threads {
			if !t.done {
				n++
			}
		}
	}
	return n
}

// Go starts a goroutine of the code under test.
func Go(f func()) {
	x := X
	if x == nil {
		go f()
		return
	}
	if x.dead {
		return
	}
	x.step()
	x.newThread("goroutine", true, f)
}

// Go registers a worker thread; it runs in the next Explore.
func (x *Exec) Go(name string, f func()) {
	if x.exploring {
		panic("vs: Exec.Go while exploring")
	}
	x.workers = append(x.workers, x.newThread(name, false, f))
}

// GoWhole registers a worker that other threads never preempt (only for modes pb and delay): it can begin at any point
// of theirs, and they run again when it ends or waits.
func (x *Exec) GoWhole(name string, f func()) {
	x.Go(name, f)
	x.workers[len(x.workers)-1].whole = true
}

// Go2 starts a further worker from within one.
func (x *Exec) Go2(name string, f func()) {
	if x.dead {
		return
	}
	x.workers = append(x.workers, x.newThread(name, false, f))
}

// Explore interleaves the registered workers and all goroutines until the workers are done.
func (x *Exec) Explore() {
	if len(x.workers) == 0 {
		return
	}
	if x.lastW == nil {
		x.lastW = map[uint32]int{}
	}
	x.shadow = map[uintptr]*shadowCell{}
	x.syncVC = map[uintptr][]uint32{}
	for _, t := range x.threads {
		t.spawnEv, t.wakeEv, t.curEv = -1, -1, -1
		t.awaits = 0
		t.dirty = false
		t.reads = t.reads[:0]
		clear(t.readIdx)
		if t.awaiting {
			t.pend = Op{Kind: KAwait, What: "yield"}
		} else if t.started && !t.done && !t.isWorker(x) {
			t.pend = Op{Kind: KWake, What: t.pend.What}
		}
		if t.id != 0 && !t.isWorker(x) {
			t.pools = nil
		}
	}
	x.exploring = true
	x.cur.parked = true
	x.suspend(x.cur)
	if x.fail != nil {
		panic(failed{})
	}
}

// Quiesce lets all goroutines run (deterministically) until they block.
func (x *Exec) Quiesce() {
	if x.dead {
		return
	}
	x.draining = true
	x.cur.parked = true
	x.suspend(x.cur)
}

// LiveGoroutines reports the goroutines started by the code that have not ended.
func (x *Exec) LiveGoroutines() (n int) {
	for _, t := range x.threads {
		if t.daemon && !t.done {
			n++
		}
	}
	return
}

// CurrentID is the id of the running thread.
func (x *Exec) CurrentID() int { return x.cur.id }

// Step of the global order, usable as a timestamp for call/return events.
func (x *Exec) Now() int { return len(x.Log) }

// CollectGarbage runs the collector when enough has been allocated; call between executions.
func CollectGarbage() {
	execsSince++
	if execsSince%64 != 0 {
		return
	}
	var st runtime.MemStats
	runtime.ReadMemStats(&st)
	if st.HeapAlloc > 256<<20 {
		runtime.GC()
	}
}

var execsSince int

func init() { debug.SetGCPercent(-1) }
