package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/jayloop/radix"
	"vs"
)

// monitor watches who holds what.
type monitor struct {
	x      *vs.Exec
	t      *radix.Tree
	u      *Universe
	n      int // allocators
	owners map[*radix.Allocator]int
	inOp   int // operations prepared through the tree and not yet being finished
	quiet  bool
	starts int // calls of Start begun
	undone int // of these, not yet returned
	clock  int
	h      []hop
	spans  [][2]int // operations prepared and not yet being finished
	lens   [][3]int // call, return, result
}

func (m *monitor) now() int { m.clock++; return m.clock }

func (m *monitor) held() {
	if n := len(m.owners) + m.inOp; n > m.n {
		m.x.Fail("%d operations and reservations at once, there are %d allocators", n, m.n)
	}
	if m.quiet {
		m.x.Fail("an operation or reservation is under way although the index is stopped")
	}
}

func (m *monitor) get() *radix.Allocator {
	a := m.t.GetAllocator()
	if o, ok := m.owners[a]; ok {
		m.x.Fail("thread %d was given an allocator that thread %d holds", m.x.CurrentID(), o)
	}
	m.owners[a] = m.x.CurrentID()
	m.held()
	return a
}

func (m *monitor) release(a *radix.Allocator) {
	delete(m.owners, a)
	m.t.ReleaseAllocator(a)
}

func (m *monitor) stop() {
	s, p := m.starts, m.undone
	m.t.Stop()
	if s == m.starts && p == 0 {
		if len(m.owners)+m.inOp > 0 {
			m.x.Fail("Stop returned while %d operations or reservations were under way", len(m.owners)+m.inOp)
		}
		m.quiet = true
	}
}

func (m *monitor) start() {
	m.quiet = false
	m.starts++
	m.undone++
	m.t.Start()
	m.undone--
}

func (m *monitor) len() int {
	c := m.now()
	n := m.t.Len()
	m.lens = append(m.lens, [3]int{c, m.now(), n})
	return n
}

// op runs one operation through the tree (cl nil) or an allocator, watching the time between preparing and finishing.
func (m *monitor) op(cl client, kind byte, k int, v uint64) {
	o := hop{thread: m.x.CurrentID(), key: k, kind: kind, val: v, call: m.now()}
	tree := cl == nil
	if tree {
		cl = m.t
	}
	quiet, starts := m.quiet, m.starts
	key := []byte(m.u.Keys[k])
	for {
		o.old, o.existed = 0, false
		if kind == 'g' {
			o.old, o.existed, _, _ = m.u.get(cl, k)
			break
		}
		begin := func() func() {
			if tree {
				m.inOp++
				m.held()
			}
			b := m.now()
			return func() {
				m.spans = append(m.spans, [2]int{b, m.now()})
				if tree {
					m.inOp--
				}
			}
		}
		if kind == 'p' {
			found, op := cl.PrepareUpdate(key)
			end := begin()
			if found {
				op.FetchedKey = m.u.fetch(op.FetchedKey, op.Value)
				if op.Match = bytes.Equal(op.FetchedKey, key); op.Match {
					o.old, o.existed = op.Value, true
				}
			}
			end()
			if op.Finalize(v) {
				break
			}
			continue
		}
		found, op := cl.PrepareDelete(key)
		if !found {
			break
		}
		end := begin()
		op.FetchedKey = m.u.fetch(op.FetchedKey, op.Value)
		if !bytes.Equal(op.FetchedKey, key) {
			end()
			op.Abort()
			break
		}
		o.old, o.existed = op.Value, true
		end()
		if op.Finalize() {
			break
		}
	}
	if tree && quiet && m.quiet && starts == m.starts {
		m.x.Fail("an operation was carried out while the index was stopped")
	}
	o.ret = m.now()
	m.h = append(m.h, o)
}

// a program of one client
type program struct {
	name string
	f    func(m *monitor, i int)
	ops  int // keys it writes
}

func programs() []program {
	hold := func(m *monitor, i int) {
		a := m.get()
		m.op(a, 'p', i, m.u.val(i, 10))
		m.release(a)
	}
	return []program{
		{name: "hold", f: hold},
		{name: "put", f: func(m *monitor, i int) { m.op(nil, 'p', i, m.u.val(i, 10)) }},
		{name: "del", f: func(m *monitor, i int) { m.op(nil, 'd', 2, 0) }},
		{name: "get", f: func(m *monitor, i int) { m.op(nil, 'g', 2, 0) }},
		{name: "stop-start", f: func(m *monitor, i int) { m.stop(); m.start() }},
		{name: "stop-len-start", f: func(m *monitor, i int) {
			m.stop()
			q, s := m.quiet, m.starts
			a := m.len()
			b := m.len()
			if q && m.quiet && s == m.starts && a != b {
				m.x.Fail("Len of a stopped index changed from %d to %d", a, b)
			}
			m.start()
		}},
		{name: "stop-admin-start", f: func(m *monitor, i int) {
			m.stop()
			m.t.Admin(io.Discard, []string{"allocators"})
			m.start()
		}},
		{name: "stop-stop-start-start", f: func(m *monitor, i int) { m.stop(); m.stop(); m.start(); m.start() }},
		{name: "start", f: func(m *monitor, i int) { m.start() }},
		{name: "len", f: func(m *monitor, i int) { m.len() }},
		{name: "admin", f: func(m *monitor, i int) { m.t.Admin(io.Discard, []string{"allocators"}) }},
		{name: "hold-flush", f: func(m *monitor, i int) {
			a := m.get()
			m.op(a, 'd', 2, 0)
			a.FlushStats()
			m.release(a)
		}},
		{name: "hold-hold", f: func(m *monitor, i int) { hold(m, i); hold(m, i) }},
		{name: "count", f: func(m *monitor, i int) { radix.NewCounter(m.t).Count(nil) }},
		{name: "max", f: func(m *monitor, i int) { m.t.MaxKey(nil) }},
		{name: "iterate", f: func(m *monitor, i int) {
			it := m.t.NewIterator(nil)
			for it.Next() {
			}
			it.Close()
		}},
		{name: "abort", f: func(m *monitor, i int) {
			_, op := m.t.PrepareUpdate([]byte(m.u.Keys[i]))
			m.inOp++
			m.held()
			m.inOp--
			op.Abort()
		}},
		{name: "del-abort", f: func(m *monitor, i int) {
			if found, op := m.t.PrepareDelete([]byte(m.u.Keys[2])); found {
				m.inOp++
				m.held()
				m.inOp--
				op.Abort()
			}
		}},
	}
}

// ordered searches for an order of all operations, Len included, that a map would give the same results for.
func ordered(ops []hop, m map[int]uint64) bool {
	if len(ops) == 0 {
		return true
	}
	for i, o := range ops {
		first := true
		for j, p := range ops {
			if j != i && p.ret < o.call {
				first = false
			}
		}
		if !first {
			continue
		}
		was, had := m[o.key]
		if o.kind == 'L' {
			if uint64(len(m)) != o.val {
				continue
			}
		} else if had != o.existed || had && was != o.old {
			continue
		}
		switch o.kind {
		case 'p':
			m[o.key] = o.val
		case 'd':
			delete(m, o.key)
		}
		rest := append(append(make([]hop, 0, len(ops)), ops[:i]...), ops[i+1:]...)
		ok := ordered(rest, m)
		if o.kind != 'L' {
			delete(m, o.key)
			if had {
				m[o.key] = was
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func (c *Ctx) owner(sub string, opt vs.Options, allocators int, base []int, ps []program) {
	c.Explore(sub, vs.Config{}, opt, func(x *vs.Exec) {
		u := newU(x, []string{"a", "b", "cc", "cd"})
		t := newTree(allocators)
		x.Quiesce()
		init := model{}
		for _, k := range base {
			init[k] = u.val(k, 1)
			u.put(t, k, init[k])
		}
		m := &monitor{x: x, t: t, u: u, n: allocators, owners: map[*radix.Allocator]int{}}
		for i, p := range ps {
			x.Go(fmt.Sprint(i, p.name), func() { p.f(m, i%2) })
		}
		x.Explore()
		// everything is available again
		m.quiet = false
		all := map[*radix.Allocator]bool{}
		for i := 0; i < allocators; i++ {
			a := t.GetAllocator()
			if all[a] {
				x.Fail("the same allocator was handed out twice")
			}
			all[a] = true
		}
		for a := range all {
			t.ReleaseAllocator(a)
		}
		for k := range u.Keys {
			m.op(nil, 'g', k, 0)
		}
		m.len()
		for _, o := range m.h {
			x.Note("%s", o.show(u))
		}
		for _, l := range m.lens {
			x.Note("[%d-%d] Len = %d", l[0], l[1], l[2])
			for _, s := range m.spans {
				if s[0] < l[0] && l[1] < s[1] {
					x.Fail("Len returned while an operation was in progress throughout")
				}
			}
		}
		checkLinearizable(x, u, init, m.h)
		ops := append([]hop(nil), m.h...)
		for _, l := range m.lens {
			ops = append(ops, hop{kind: 'L', key: -1, val: uint64(l[2]), call: l[0], ret: l[1]})
		}
		if !ordered(ops, init.clone()) {
			x.Fail("Len: no order of the operations explains the results %v", m.lens)
		}
		c.res.Counters.Checks++
	})
}

// clientAct is an act of one client that holds allocators, through the tree or one of these
type clientAct struct {
	name string
	tree bool // needs an allocator that nobody holds
	f    func(m *monitor, held []*radix.Allocator)
}

func clientActs(held, keys int) (as []clientAct) {
	via := func(by int, held []*radix.Allocator) client {
		if by < 0 {
			return nil
		}
		return held[by]
	}
	for by := -1; by < held; by++ {
		who := "tree"
		if by >= 0 {
			who = fmt.Sprint("alloc", by)
		}
		add := func(n string, f func(m *monitor, held []*radix.Allocator)) {
			as = append(as, clientAct{who + "." + n, by < 0, f})
		}
		for k := 0; k < keys; k++ {
			add(fmt.Sprint("put", k), func(m *monitor, held []*radix.Allocator) { m.op(via(by, held), 'p', k, m.u.val(k, m.clock+10)) })
			add(fmt.Sprint("del", k), func(m *monitor, held []*radix.Allocator) { m.op(via(by, held), 'd', k, 0) })
		}
		for _, kind := range []byte(abortKinds) {
			add("abort"+string(kind), func(m *monitor, held []*radix.Allocator) {
				var cl client = m.t
				if by >= 0 {
					cl = held[by]
				}
				if f := prepareAbort(m.u, cl, kind, []byte(m.u.Keys[0])); f != nil {
					f()
				}
			})
		}
	}
	plain := func(n string, f func(m *monitor, held []*radix.Allocator)) { as = append(as, clientAct{n, true, f}) }
	plain("get", func(m *monitor, held []*radix.Allocator) { m.op(nil, 'g', 0, 0) })
	plain("max", func(m *monitor, held []*radix.Allocator) { m.t.MaxKey(nil); m.t.MinKey([]byte("nothing")) })
	plain("count", func(m *monitor, held []*radix.Allocator) { radix.NewCounter(m.t).Count(nil) })
	plain("iterate", func(m *monitor, held []*radix.Allocator) {
		it := m.t.NewIterator(nil)
		it.Next()
		it.Close()
	})
	plain("hold", func(m *monitor, held []*radix.Allocator) { m.release(m.get()) })
	return
}

// clientTasks: every sequence of acts of one client that holds allocators; after each, the other allocators are
// available, all different, and none of them is held.
func clientTasks(thorough bool) (ts []Task) {
	depth := pick(thorough, 5, 4)
	for _, n := range []int{1, 2, 3} {
		for held := 0; held < 2 && held <= n; held++ {
			as := clientActs(held, 2)
			if held == n {
				var own []clientAct
				for _, a := range as {
					if !a.tree {
						own = append(own, a)
					}
				}
				as = own
			}
			for first := range as {
				ts = append(ts, Task{ID: name("handles", n, held, as[first].name), Run: func(c *Ctx) {
					seqs(len(as), depth, first, func(idx []int) {
						if c.Stop() {
							return
						}
						c.Seq(name(n, held, idx), vs.Config{}, func(x *vs.Exec) {
							u := newU(x, []string{"ab", "aa", "c"})
							t := newTree(n)
							x.Quiesce()
							m := &monitor{x: x, t: t, u: u, n: n, owners: map[*radix.Allocator]int{}}
							init := model{}
							for k := range u.Keys[1:] {
								init[k] = u.val(k, 1)
								u.put(t, k, init[k])
							}
							var mine []*radix.Allocator
							for len(mine) < held {
								mine = append(mine, m.get())
							}
							for _, i := range idx {
								x.Note("%s", as[i].name)
								as[i].f(m, mine)
								for round := 0; round < n; round++ {
									var others []*radix.Allocator
									for len(others) < n-held {
										others = append(others, m.get())
									}
									for _, a := range others {
										m.release(a)
									}
								}
							}
							for _, a := range mine {
								m.release(a)
							}
							for k := range u.Keys {
								m.op(nil, 'g', k, 0)
							}
							checkLinearizable(x, u, init, m.h)
						})
						c.res.Counters.States += int64(depth)
						c.res.Counters.Checks += int64(depth)
					})
					c.Sample("%d allocators, %d held: every sequence of %d acts that begins with %s", n, held, depth, as[first].name)
				}})
			}
		}
	}
	return
}

func init() {
	props["C12"] = func(thorough bool) (ts []Task) {
		ps := programs()
		bases := [][]int{{2}, {0, 2, 3}}
		if thorough {
			bases = append(bases, []int{}, []int{0, 1, 2})
		}
		for n := 1; n <= 3; n++ {
			for bi, base := range bases {
				for i := range ps {
					if n == 3 && bi > 0 && !thorough {
						continue
					}
					ts = append(ts, Task{ID: name("pairs", n, bi, ps[i].name), Run: func(c *Ctx) {
						for j := i; j < len(ps); j++ {
							if c.Stop() {
								return
							}
							c.owner(name(ps[i].name, ps[j].name), vs.Options{}, n, base, []program{ps[i], ps[j]})
						}
						c.Sample("%d allocators: %s beside every other program, all interleavings", n, ps[i].name)
					}})
				}
			}
		}
		// three clients
		for n := 1; n <= 2; n++ {
			k := pick(thorough, len(ps), 12)
			for i := 0; i < k; i++ {
				ts = append(ts, Task{ID: name("triples", n, ps[i].name), Run: func(c *Ctx) {
					for j := i; j < k; j++ {
						for l := j; l < k; l++ {
							if c.Stop() {
								return
							}
							c.owner(name(ps[i].name, ps[j].name, ps[l].name), vs.Options{Mode: "pb", Bound: pick(thorough, 2, 1), MaxExecs: 200000}, n, []int{0, 2, 3}, []program{ps[i], ps[j], ps[l]})
						}
					}
					c.Sample("%d allocators: %s beside every two other programs, bounded preemptions", n, ps[i].name)
				}})
			}
		}
		ts = append(ts, cutTasks(thorough)...)
		ts = append(ts, clientTasks(thorough)...)
		return
	}
}
