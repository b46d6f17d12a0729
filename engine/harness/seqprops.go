package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/jayloop/radix"
	"vs"
)

// ---- C06: minimum and maximum

func observeMinMax(e *env) {
	for _, p := range prefixesOf(e.u.Keys[:e.n]) {
		checkMinMax(e, p)
	}
}

func checkMinMax(e *env, p string) {
	want := e.m.sorted(e.u, p)
	for i, what := range []string{"MinKey", "MaxKey"} {
		var v uint64
		var ok bool
		if i == 0 {
			v, ok = e.t.MinKey([]byte(p))
		} else {
			v, ok = e.t.MaxKey([]byte(p))
		}
		if len(want) == 0 {
			if ok && !storedValue(e.u, e.m, v) {
				e.x.Fail("%s(%q) = %#x, which is not stored (no key has that prefix)", what, p, v)
			}
			continue
		}
		w := want[0]
		if i == 1 {
			w = want[len(want)-1]
		}
		if !ok || v != w {
			e.x.Fail("%s(%q) = %s,%v; stored: %s", what, p, e.u.show([]uint64{v}), ok, e.u.show(want))
		}
	}
}

// ---- C07, C17: counts

// fanouts lists, for every branching point of the stored keys below a prefix, its number of branches and the length of
// the key part between it and the branching point above (from the start of the key for the topmost).
func (m model) fanouts(u *Universe, prefix string) (sizes map[int]int, lens []int) {
	sizes = map[int]int{}
	for _, b := range m.branching(u) {
		if strings.HasPrefix(b.prefix, prefix) {
			sizes[b.fan]++
			lens = append(lens, b.path)
		}
	}
	sort.Ints(lens)
	return
}

// observeCounts compares counts and their breakdown with the contents; exact: no node has ever been wide.
func observeCounts(exact bool) func(e *env) {
	return func(e *env) {
		if n := e.t.Len(); n != len(e.m) {
			e.x.Fail("Len = %d, stored: %d keys", n, len(e.m))
		}
		c := radix.NewCounter(e.t)
		for _, p := range prefixesOf(e.u.Keys[:e.n]) {
			checkCount(e, c, p, exact)
		}
	}
}

func checkCount(e *env, c *radix.Counter, p string, exact bool) {
	nodes, leaves := c.Count([]byte(p))
	want := len(e.m.sorted(e.u, p))
	if leaves != want && !(want == 0 && leaves == 1 && len(e.m) > 0) {
		e.x.Fail("Count(%q) found %d leaves, stored: %d keys", p, leaves, want)
	}
	sum, edges, wide := 0, 0, 0
	for size, n := range c.NodeSizes {
		sum += n
		edges += size * n
		if size >= 128 {
			wide += n
		}
	}
	if sum != nodes {
		e.x.Fail("Count(%q) found %d nodes, but the sizes of %d", p, nodes, sum)
	}
	if nodes > 0 && wide == 0 && edges != nodes-1+leaves {
		e.x.Fail("Count(%q): %d nodes and %d leaves, but node sizes add up to %d", p, nodes, leaves, edges)
	}
	if c.NodesWithPrefix > nodes || c.LargePrefixes > c.NodesWithPrefix || c.TotalPrefixBytes < c.TotalPrefixLength {
		e.x.Fail("Count(%q): %d nodes, %d with prefix, %d with a large one; %d prefix bytes stored in %d", p, nodes, c.NodesWithPrefix, c.LargePrefixes, c.TotalPrefixLength, c.TotalPrefixBytes)
	}
	if !exact {
		return
	}
	sizes, lens := e.m.fanouts(e.u, p)
	for size, n := range c.NodeSizes {
		if sizes[size] != n {
			e.x.Fail("Count(%q): %d nodes of size %d, stored keys have %d branching points of that size", p, n, size, sizes[size])
		}
	}
	with, total, large, bytes := 0, 0, 0, 0
	for _, l := range lens {
		if l > 0 {
			with++
			total += l
			bytes += (l + 7) / 8 * 8
		}
		if l >= 255 {
			large++
			bytes += 8
		}
	}
	if c.NodesWithPrefix != with || c.TotalPrefixLength != total || c.LargePrefixes != large || c.TotalPrefixBytes != bytes {
		e.x.Fail("Count(%q): %d nodes with prefix, %d large, %d bytes in %d; the stored keys have %d, %d, %d in %d", p,
			c.NodesWithPrefix, c.LargePrefixes, c.TotalPrefixLength, c.TotalPrefixBytes, with, large, total, bytes)
	}
}

func observeMinimal(e *env) {
	c := radix.NewCounter(e.t)
	for _, p := range prefixesOf(e.u.Keys[:e.n]) {
		nodes, leaves := c.Count([]byte(p))
		if want := e.m.branchPoints(e.u, p); nodes != want {
			e.x.Fail("%d internal nodes (and %d leaves) for prefix %q; the stored keys have %d branching points", nodes, leaves, p, want)
		}
	}
}

// lenTasks: histories through several allocators, with flushes and aborted operations.
func lenTasks(thorough bool) (ts []Task) {
	keys := []string{"aa", "ab", "b"}
	type lop struct {
		kind byte // p, d: put, delete; a, b: prepared and aborted put, delete; f: flush
		key  int
		by   int // allocator, -1: through the tree
	}
	var ops []lop
	for by := -1; by < 2; by++ {
		for k := range keys {
			ops = append(ops, lop{'p', k, by}, lop{'d', k, by})
		}
		if by >= 0 {
			ops = append(ops, lop{'f', 0, by})
		}
	}
	for k := range keys[:2] {
		ops = append(ops, lop{'a', k, -1}, lop{'b', k, 1})
	}
	depth := 4
	if thorough {
		depth = 5
	}
	for _, variant := range []string{"s10", "e3"} {
		for first := range ops {
			id := name("len", variant, first)
			ts = append(ts, Task{ID: id, Variant: variant, Run: func(c *Ctx) {
				idx := make([]int, depth)
				idx[0] = first
				for {
					if c.Stop() {
						return
					}
					id := name(id, idx)
					c.Seq(id, vs.Config{}, func(x *vs.Exec) {
						u := newU(x, keys)
						t := newTree(3)
						e := &env{c: c, x: x, t: t, u: u, m: model{}, cl: t, n: len(keys)}
						allocs := []*radix.Allocator{t.GetAllocator(), t.GetAllocator()}
						for _, i := range idx {
							o := ops[i]
							x.Note("%c %d by %d", o.kind, o.key, o.by)
							e.cl = t
							if o.by >= 0 {
								e.cl = allocs[o.by]
							}
							switch o.kind {
							case 'p':
								e.put(o.key)
							case 'd':
								e.del(o.key)
							case 'a', 'b':
								abortOp(e, o.kind, o.key, false)
							case 'f':
								allocs[o.by].FlushStats()
							}
						}
						for _, a := range allocs {
							t.ReleaseAllocator(a)
						}
						for r := 0; r < 2; r++ {
							if n := t.Len(); n != len(e.m) {
								x.Fail("Len = %d, stored: %d keys", n, len(e.m))
							}
						}
						// flushed statistics agree
						for i := 0; i < 3; i++ {
							allocs = append(allocs, t.GetAllocator())
							allocs[len(allocs)-1].FlushStats()
						}
						if n := stat(t, "objects_approx"); int64(n) != int64(len(e.m)) {
							x.Fail("all statistics flushed, %d objects reported, stored: %d keys", int64(n), len(e.m))
						}
					})
					c.res.Counters.States++
					c.res.Counters.Checks++
					i := depth - 1
					for ; i > 0; i-- {
						if idx[i]++; idx[i] < len(ops) {
							break
						}
						idx[i] = 0
					}
					if i == 0 {
						break
					}
				}
				c.Sample("all sequences of %d operations starting with %c%d by allocator %d", depth, ops[first].kind, ops[first].key, ops[first].by)
			}})
		}
	}
	return
}

// lenConcTasks: Len after concurrent writers, whatever the interleaving.
func lenConcTasks() (ts []Task) {
	for _, s := range []concShape{
		{name: "flat", keys: []string{"a", "b", "c"}},
		{name: "nest", keys: []string{"aa", "ab", "b"}},
		{name: "wide", keys: []string{"a", "b", "c", "d"}, variant: "w4", masks: []int{7, 15, 14}},
	} {
		for _, mask := range s.starts() {
			sh := &shape{keys: s.keys, base: maskKeys(mask)}
			ts = append(ts, Task{ID: name("writers", s.name, fmt.Sprintf("%b", mask)), Variant: s.variant, Run: func(c *Ctx) {
				ops := opsOf(len(s.keys), "pdox")
				for i, a := range ops {
					for _, b := range ops[i:] {
						if c.Stop() {
							return
						}
						c.Explore(name(a, b), vs.Config{}, vs.Options{}, func(x *vs.Exec) {
							t, u, m, allocs := sh.build(x, 2, 0)
							rec := &recorder{x: x, u: u}
							for i, o := range []cop{a, b} {
								x.Go(fmt.Sprint("client", i), func() { rec.do(allocs[i], o.kind, o.key, u.val(o.key, 10+i)) })
							}
							x.Explore()
							for _, a := range allocs {
								t.ReleaseAllocator(a)
							}
							n := 0
							for k := range u.Keys {
								if _, ok, _, _ := u.get(t, k); ok {
									n++
								}
							}
							if l := t.Len(); l != n {
								x.Fail("Len = %d, %d keys are found (before: %d)", l, n, len(m))
							}
							_, leaves := radix.NewCounter(t).Count(nil)
							if leaves != n {
								x.Fail("Count = %d leaves, %d keys are found", leaves, n)
							}
							c.res.Counters.Checks++
						})
					}
				}
				c.Sample("keys %v, stored %b: all pairs of writers, all interleavings, then Len", s.keys, mask)
			}})
		}
	}
	return
}

// flushTasks: clients that write and flush their counters at the same time, or whose counters are flushed when the epoch
// moves on; also beside Len.
func flushTasks(thorough bool) (ts []Task) {
	keys := []string{"aa", "ab", "b"}
	progs := []string{"pf", "fp", "df", "f", "pdf"}
	if thorough {
		progs = append(progs, "pfp", "pd", "fdf")
	}
	for _, variant := range []string{"s10", "e3"} {
		for mask := 0; mask < 8; mask++ {
			if !thorough && (mask != 3 && mask != 6 || mask == 6 && variant == "e3") {
				continue
			}
			sh := &shape{keys: keys, base: maskKeys(mask)}
			ts = append(ts, Task{ID: name("flush", variant, mask), Variant: variant, Run: func(c *Ctx) {
				for i, p := range progs {
					for _, q := range progs[i:] {
						for _, third := range []string{"", "len", "f"} {
							if c.Stop() {
								return
							}
							if third != "" && p != q && !thorough {
								continue
							}
							opt := vs.Options{}
							if third != "" {
								opt = vs.Options{Mode: "pb", Bound: pick(thorough, 2, 1), MaxExecs: 50000}
							} else if len(p)+len(q) > 4 {
								opt = vs.Options{Mode: "pb", Bound: pick(thorough, 3, 2), MaxExecs: 50000}
							}
							c.flushes(name(p, q, third), opt, sh, p, q, third)
						}
					}
				}
				c.Sample("keys %v, stored %b: pairs of clients that write and flush, all interleavings, then Len and the flushed statistics", keys, mask)
			}})
		}
	}
	return
}

func (c *Ctx) flushes(sub string, opt vs.Options, sh *shape, p, q, third string) {
	c.Explore(sub, vs.Config{}, opt, func(x *vs.Exec) {
		t, u, m, allocs := sh.build(x, 3, 0)
		rec := &recorder{x: x, u: u}
		for i, prog := range []string{p, q} {
			x.Go(fmt.Sprint("client", i), func() {
				for j, kind := range []byte(prog) {
					if kind == 'f' {
						allocs[i].FlushStats()
					} else {
						rec.do(allocs[i], kind, i, u.val(i, 10+j))
					}
				}
				t.ReleaseAllocator(allocs[i])
			})
		}
		var lens []int
		x.Go("third", func() {
			if third == "f" {
				allocs[2].FlushStats()
			}
			t.ReleaseAllocator(allocs[2])
			if third == "len" {
				lens = append(lens, t.Len())
			}
		})
		x.Explore()
		n := 0
		for k := range u.Keys {
			if _, ok, _, _ := u.get(t, k); ok {
				n++
			}
		}
		if l := t.Len(); l != n {
			x.Fail("Len = %d, %d keys are found (before: %d)", l, n, len(m))
		}
		var all []*radix.Allocator
		for i := 0; i < 3; i++ {
			a := t.GetAllocator()
			a.FlushStats()
			all = append(all, a)
		}
		if l := int64(stat(t, "objects_approx")); l != int64(n) {
			x.Fail("all statistics flushed, %d objects reported, %d keys are found", l, n)
		}
		for _, a := range all {
			t.ReleaseAllocator(a)
		}
		if l := t.Len(); l != n {
			x.Fail("after flushing everything Len = %d, %d keys are found", l, n)
		}
		for _, l := range lens {
			if d := l - len(m); d > 2 || d < -2 {
				x.Fail("Len = %d beside two writers, stored before: %d keys", l, len(m))
			}
		}
		c.res.Counters.Checks++
	})
}

// abortOp prepares an update ('a') or delete ('b') and aborts it.
func abortOp(e *env, kind byte, k int, match bool) {
	key := []byte(e.u.Keys[k])
	if kind == 'a' {
		found, op := e.cl.PrepareUpdate(key)
		if found {
			op.FetchedKey = e.u.fetch(op.FetchedKey, op.Value)
			op.Match = match && string(op.FetchedKey) == string(key)
		}
		op.Abort()
		return
	}
	found, op := e.cl.PrepareDelete(key)
	if found {
		op.FetchedKey = e.u.fetch(op.FetchedKey, op.Value)
		op.Abort()
	}
}

// ---- C18: reads with any key

func checkReads(e *env, key []byte) {
	x, t, u, m := e.x, e.t, e.u, e.m
	what := fmt.Sprintf("%q", key)
	if key == nil {
		what = "nil"
	}
	fine := func(op string, v uint64, found bool) {
		if len(m) == 0 && found {
			x.Fail("%s(%s) found %#x in an empty index", op, what, v)
		}
		if found && !storedValue(u, m, v) {
			x.Fail("%s(%s) returned %#x, which is not stored", op, what, v)
		}
	}
	v, ok := e.cl.Lookup(key)
	fine("Lookup", v, ok)
	v, ok = t.MinKey(key)
	fine("MinKey", v, ok)
	v, ok = t.MaxKey(key)
	fine("MaxKey", v, ok)
	n := 0
	it := t.NewIterator(key)
	for it.Next() {
		fine("iteration", it.Value(), true)
		if n++; n > len(m) {
			x.Fail("iteration with prefix %s returned more values than are stored", what)
		}
	}
	it.Close()
	counter := radix.NewCounter(t)
	nodes, leaves := counter.Count(key)
	narrow := nodes
	for size, n := range counter.NodeSizes {
		if size >= 128 {
			narrow -= n // a wide node stays, even empty
		}
	}
	if leaves > len(m) || len(m) == 0 && narrow > 0 {
		x.Fail("Count(%s) = %d nodes, %d leaves; stored: %d keys", what, nodes, leaves, len(m))
	}
	found, op := e.cl.PrepareDelete(key)
	if found != (op != nil) {
		x.Fail("PrepareDelete(%s) = %v, %v", what, found, op != nil)
	}
	if found {
		fine("PrepareDelete", op.Value, true)
		op.Abort()
	}
}

// allStrings calls f with nil and every string of up to n of the given bytes.
func allStrings(bytes string, n int, f func(s []byte)) {
	f(nil)
	buf := make([]byte, 0, n)
	var rec func()
	rec = func() {
		f(append([]byte{}, buf...))
		if len(buf) == n {
			return
		}
		for i := 0; i < len(bytes); i++ {
			buf = append(buf, bytes[i])
			rec()
			buf = buf[:len(buf)-1]
		}
	}
	rec()
}

func startupTasks(thorough bool) (ts []Task) {
	reads := []struct {
		name string
		f    func(t *radix.Tree) (found bool)
	}{
		{"lookup", func(t *radix.Tree) bool { _, ok := t.Lookup([]byte("a")); return ok }},
		{"lookup-empty", func(t *radix.Tree) bool { _, ok := t.Lookup(nil); return ok }},
		{"min", func(t *radix.Tree) bool { _, ok := t.MinKey([]byte("a")); return ok }},
		{"max", func(t *radix.Tree) bool { _, ok := t.MaxKey(nil); return ok }},
		{"iterate", func(t *radix.Tree) bool { it := t.NewIterator([]byte("a")); ok := it.Next(); it.Close(); return ok }},
		{"iterate-all", func(t *radix.Tree) bool { it := t.NewIterator(nil); ok := it.Next(); it.Close(); return ok }},
		{"count", func(t *radix.Tree) bool { n, l := radix.NewCounter(t).Count([]byte("a")); return n+l > 0 }},
		{"count-all", func(t *radix.Tree) bool { n, l := radix.NewCounter(t).Count(nil); return n+l > 0 }},
		{"delete", func(t *radix.Tree) bool { ok, _ := t.PrepareDelete([]byte("a")); return ok }},
		{"alloc-lookup", func(t *radix.Tree) bool {
			a := t.GetAllocator()
			_, ok := a.Lookup([]byte("a"))
			t.ReleaseAllocator(a)
			return ok
		}},
		{"len", func(t *radix.Tree) bool { return t.Len() > 0 }},
	}
	for _, r := range reads {
		ts = append(ts, Task{ID: name("startup", r.name), Run: func(c *Ctx) {
			for _, n := range []int{1, 2} {
				for _, r2 := range reads {
					c.Explore(name(n, r2.name), vs.Config{}, vs.Options{}, func(x *vs.Exec) {
						x.Go("client", func() {
							t := newTree(n)
							x.Go2("client2", func() {
								if r2.f(t) {
									x.Fail("%s found something in a new index", r2.name)
								}
							})
							if r.f(t) {
								x.Fail("%s found something in a new index", r.name)
							}
						})
						x.Explore()
						c.res.Counters.Checks++
					})
				}
			}
			c.Sample("%s on a new index, all schedules of its start-up", r.name)
		}})
	}
	return
}

func init() {
	props["C06"] = func(thorough bool) (ts []Task) {
		d, wd := 6, 2
		sizes, pre := []int{124, 125, 126, 253, 254}, []int{0, 9}
		if thorough {
			d, wd = 7, 3
			sizes, pre = []int{123, 124, 125, 126, 127, 252, 253, 254}, []int{0, 1, 7, 8, 9, 16, 255, 300}
		}
		for _, sp := range narrowSpaces(d) {
			ts = append(ts, sp.tasks("hist", []string{"tree"}, 1, vs.Config{}, observeMinMax)...)
		}
		for _, v := range []string{"i2", "wie"} {
			for _, a := range subsetAlphabets {
				ts = append(ts, subsetTasks("subsets", v, a, observeMinMax)...)
			}
		}
		for _, sp := range wideSpaces(wd, sizes, pre) {
			ts = append(ts, sp.tasks("hist", []string{"tree"}, 1, vs.Config{}, observeMinMax)...)
		}
		ts = append(ts, fanoutTasks("fan", []int{0, 3, 255}, thorough, func(e *env, p string) {
			checkMinMax(e, "")
			checkMinMax(e, p)
			if len(p) > 1 {
				checkMinMax(e, p[:len(p)-1])
			}
		})...)
		minMax := func(e *env, ps []string) {
			for _, p := range ps {
				checkMinMax(e, p)
			}
		}
		ts = append(ts, emptiedTasks(minMax)...)
		ts = append(ts, branchTasks("branches", "w4", branchPrefixes(thorough), minMax)...)
		ts = append(ts, recycled(thorough, minMax)...)
		ts = append(ts, ladderTasks("ladder", []string{"s10", "w4"}, thorough, minMax)...)
		return
	}
	props["C07"] = func(thorough bool) (ts []Task) {
		d, wd := 5, 2
		if thorough {
			d, wd = 6, 3
		}
		for _, sp := range narrowSpaces(d) {
			exact := sp.variant == "s10" || sp.variant == "e3"
			ts = append(ts, sp.tasks("hist", []string{"tree", "alloc"}[:1], 2, vs.Config{}, observeCounts(exact))...)
		}
		for _, a := range subsetAlphabets {
			ts = append(ts, subsetTasks("subsets", "s10", a, observeCounts(true))...)
			ts = append(ts, subsetTasks("subsets", "w4", a, observeCounts(false))...)
		}
		for _, sp := range wideSpaces(wd, []int{125, 126, 254}, []int{0, 9, 255}) {
			ts = append(ts, sp.tasks("hist", []string{"tree"}, 2, vs.Config{}, observeCounts(false))...)
		}
		counts := func(e *env, ps []string) {
			c := radix.NewCounter(e.t)
			for _, p := range ps {
				checkCount(e, c, p, false)
			}
		}
		ts = append(ts, branchTasks("branches", "w4", branchPrefixes(thorough), counts)...)
		ts = append(ts, recycled(thorough, counts)...)
		ts = append(ts, ladderTasks("ladder", []string{"s10", "w4"}, thorough, counts)...)
		ts = append(ts, lenTasks(thorough)...)
		ts = append(ts, lenConcTasks()...)
		ts = append(ts, flushTasks(thorough)...)
		return
	}
	props["C17"] = func(thorough bool) (ts []Task) {
		d := 6
		if thorough {
			d = 7
		}
		for _, sp := range narrowSpaces(d) {
			if sp.variant == "s10" || sp.variant == "e3" {
				ts = append(ts, sp.tasks("hist", []string{"tree"}, 1, vs.Config{}, observeMinimal)...)
			}
		}
		for _, a := range subsetAlphabets {
			ts = append(ts, subsetTasks("subsets", "s10", a, observeMinimal)...)
			ts = append(ts, orderTasks("orders", "s10", a, thorough, observeMinimal)...)
		}
		ts = append(ts, ladderTasks("ladder", []string{"s10"}, thorough, func(e *env, ps []string) {
			c := radix.NewCounter(e.t)
			for _, p := range ps {
				nodes, _ := c.Count([]byte(p))
				if want := e.m.branchPoints(e.u, p); nodes != want {
					e.x.Fail("%d internal nodes for prefix %q, the stored keys have %d branching points", nodes, p, want)
				}
			}
		})...)
		ts = append(ts, fanoutTasks("fan", []int{0, 9, 255}, thorough, func(e *env, p string) {
			if e.maxFan <= 127 {
				c := radix.NewCounter(e.t)
				for _, q := range []string{"", p} {
					nodes, _ := c.Count([]byte(q))
					if want := e.m.branchPoints(e.u, q); nodes != want {
						e.x.Fail("%d internal nodes for prefix %q, the stored keys have %d branching points", nodes, q, want)
					}
				}
			}
		})...)
		return
	}
	props["C18"] = func(thorough bool) (ts []Task) {
		d := 5
		if thorough {
			d = 6
		}
		obs := func(e *env) {
			checkReads(e, nil)
			for _, p := range prefixesOf(e.u.Keys[:e.n]) {
				checkReads(e, []byte(p))
			}
			checkContents(e.x, e.cl, e.u, e.m)
		}
		for _, sp := range narrowSpaces(d) {
			ts = append(ts, sp.tasks("hist", []string{"tree"}, 1, vs.Config{}, obs)...)
		}
		for _, sp := range wideSpaces(2, []int{125, 126, 254}, []int{0, 1, 9}) {
			ts = append(ts, sp.tasks("hist", []string{"tree"}, 1, vs.Config{}, obs)...)
		}
		strs := [][]string{
			{"aa", "ab", "aca", "acb", "b", "caa", "cab"},
			{"\x00\x00", "\x00\x01", "\x01\x00\x00", "\x01\x00\x01", "\x01\x01"},
		}
		for i, ks := range strs {
			n := 5
			b := "abcd"
			if i == 1 {
				b = "\x00\x01\x02"
				n = 6
			}
			if !thorough {
				n--
			}
			for _, v := range []string{"s10", "w4"} {
				ts = append(ts, subsetTasks("strings", v, ks, func(e *env) {
					allStrings(b, n, func(s []byte) { checkReads(e, s) })
					checkContents(e.x, e.cl, e.u, e.m)
					if l := e.t.Len(); l != len(e.m) {
						e.x.Fail("Len = %d, stored: %d keys", l, len(e.m))
					}
				})...)
			}
		}
		ts = append(ts, startupTasks(thorough)...)
		reads := func(e *env, ps []string) {
			for _, p := range ps {
				checkReads(e, []byte(p))
			}
			checkContents(e.x, e.cl, e.u, e.m)
		}
		ts = append(ts, branchTasks("branches", "w4", branchPrefixes(thorough), reads)...)
		ts = append(ts, ladderTasks("ladder", []string{"s10", "w4"}, thorough, reads)...)
		return
	}
}

// orderTasks: key sets built in every order.
func orderTasks(prefix, variant string, keys []string, thorough bool, f func(e *env)) (ts []Task) {
	n := 5
	if thorough {
		n = 6
	}
	ks := keys[:n]
	for first := 0; first < n; first++ {
		id := name(prefix, variant, shortList(keys[:1]), first)
		ts = append(ts, Task{ID: id, Variant: variant, Run: func(c *Ctx) {
			permute(n, func(p []int) {
				if p[0] != first || c.Stop() {
					return
				}
				c.Seq(name(id, p), vs.Config{}, func(x *vs.Exec) {
					u := newU(x, ks)
					t := newTree(1)
					e := &env{c: c, x: x, t: t, u: u, m: model{}, cl: t, n: n}
					for _, k := range p {
						e.put(k)
						f(e)
					}
					for _, k := range p {
						e.del((k*2 + 1) % n)
						f(e)
					}
				})
				c.res.Counters.States += int64(2 * n)
				c.res.Counters.Checks += int64(2 * n)
			})
			c.Sample("all insertion orders of %s", shortList(ks))
		}})
	}
	return
}

func permute(n int, f func(p []int)) {
	p := make([]int, n)
	used := make([]bool, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(append([]int(nil), p...))
			return
		}
		for k := 0; k < n; k++ {
			if !used[k] {
				used[k] = true
				p[i] = k
				rec(i + 1)
				used[k] = false
			}
		}
	}
	rec(0)
}

// fanoutTasks grow a node from 1 to 256 children and take them away again, in several orders, under a prefix; f sees
// every step.
func fanoutTasks(prefix string, pls []int, thorough bool, f func(e *env, p string)) (ts []Task) {
	orders := map[string]func(i int) int{
		"up":      func(i int) int { return i },
		"down":    func(i int) int { return 255 - i },
		"spread":  func(i int) int { return i * 167 % 256 },
		"outside": func(i int) int { return map[bool]int{true: i / 2, false: 255 - i/2}[i%2 == 0] },
	}
	for _, pl := range pls {
		for _, on := range sortedKeys(orders) {
			for _, dn := range sortedKeys(orders) {
				id := name(prefix, pl, on, dn)
				ts = append(ts, Task{ID: id, Variant: "s13", Run: func(c *Ctx) {
					p := ""
					if pl > 0 {
						p = rep("p", pl-1) + "q"
					}
					var ks []string
					for b := 0; b < 256; b++ {
						ks = append(ks, p+string([]byte{byte(b)}))
					}
					if pl > 0 {
						ks = append(ks, "a")
					}
					for _, top := range []int{2, 126, 127, 128, 129, 255, 256} {
						if c.Stop() {
							return
						}
						c.Seq(name(id, top), vs.Config{}, func(x *vs.Exec) {
							u := newU(x, ks)
							t := newTree(1)
							e := &env{c: c, x: x, t: t, u: u, m: model{}, cl: t, n: len(ks)}
							if pl > 0 && top%2 == 0 {
								e.put(256)
							}
							for i := 0; i < top; i++ {
								e.put(orders[on](i))
								e.maxFan = i + 1
								f(e, p)
							}
							for i := 0; i < 256; i++ {
								k := orders[dn](i)
								if _, ok := e.m[k]; ok {
									e.del(k)
									f(e, p)
								}
							}
							c.res.Counters.States += int64(2 * top)
							c.res.Counters.Checks += int64(2 * top)
						})
					}
					c.Sample("children added %s and removed %s below a prefix of %d bytes, up to 256", on, dn, pl)
				}})
			}
		}
	}
	return
}

// emptiedTasks: trees with wide nodes emptied in part or whole, beside other branches and below one another.
func emptiedTasks(f func(e *env, prefixes []string)) (ts []Task) {
	// children of the root: each a subtree of the given kind
	kinds := []string{"leaf", "narrow", "wide", "emptied", "nested", "none"}
	b := []byte{'b', 'm', 'y'}
	for _, variant := range []string{"w4", "s13"} {
		full := 4
		if variant == "s13" {
			full = 130
		}
		for _, first := range kinds {
			id := name("emptied", variant, first)
			ts = append(ts, Task{ID: id, Variant: variant, Run: func(c *Ctx) {
				for _, second := range kinds {
					for _, third := range kinds {
						for _, mid := range []string{"", "xyz"} {
							if c.Stop() {
								return
							}
							c.Seq(name(id, second, third, mid), vs.Config{}, func(x *vs.Exec) {
								var keys []string
								var drop []int
								add := func(k string, gone bool) {
									if gone {
										drop = append(drop, len(keys))
									}
									keys = append(keys, k)
								}
								for i, kind := range []string{first, second, third} {
									p := mid + string(b[i:i+1])
									switch kind {
									case "leaf":
										add(p, false)
									case "narrow":
										add(p+"1", false)
										add(p+"2", false)
									case "wide", "emptied":
										for j := 0; j < full; j++ {
											add(p+string([]byte{byte(j * 256 / full)}), kind == "emptied")
										}
									case "nested": // an emptied node below a wide one
										for j := 0; j < full; j++ {
											add(p+string([]byte{byte(j*256/full + 1)}), false)
										}
										q := p + "\x00"
										for j := 0; j < full; j++ {
											add(q+string([]byte{byte(j * 256 / full)}), true)
										}
									}
								}
								prefixFree(keys)
								u := newU(x, keys)
								t := newTree(1)
								e := &env{c: c, x: x, t: t, u: u, m: model{}, cl: t, n: len(u.Keys)}
								for k := range u.Keys {
									e.put(k)
								}
								f(e, []string{"", mid, mid + "b", mid + "m", mid + "y", mid + "b\x00", mid + "y\x00"})
								for _, k := range drop {
									e.del(k)
								}
								ps := []string{"", mid, mid + "b", mid + "m", mid + "y", mid + "b\x00", mid + "y\x00", mid + "z"}
								f(e, ps)
								for _, k := range drop {
									if k%3 == 0 {
										e.put(k)
									}
								}
								f(e, ps)
								c.res.Counters.States += 3
								c.res.Counters.Checks += 3
							})
						}
					}
				}
				c.Sample("subtrees (%s, any, any) of narrow, wide and emptied wide nodes", first)
			}})
		}
	}
	return
}

// branchSpots are the branches of a wide node that branchTasks vary: the ends and two runs of neighbours.
var branchSpots = []byte{0, 1, 2, 200, 201, 254, 255}

func branchPrefixes(thorough bool) []int {
	if thorough {
		return []int{0, 1, 7, 8, 9, 16, 17, 254, 255, 256, 260, 300}
	}
	return []int{0, 9, 17, 255, 300}
}

// branchTasks build one wide node below a prefix and visit every combination of its branches being absent, a key or a
// further node: 3^7 layouts per prefix length, in an order where one branch changes per step. Other branches stay
// stored ("kept"), or are deleted once the node is wide ("gone"), also with a key beside the prefix ("beside").
func branchTasks(prefix, variant string, pls []int, f func(e *env, prefixes []string)) (ts []Task) {
	n := len(branchSpots)
	for _, pl := range pls {
		for _, mode := range []string{"kept", "gone", "beside"} {
			id := name(prefix, variant, pl, mode)
			ts = append(ts, Task{ID: id, Variant: variant, Run: func(c *Ctx) {
				p := ""
				if pl > 0 {
					p = rep("p", pl-1) + "q"
				}
				var ks []string
				ps := []string{""}
				if pl > 1 {
					ps = append(ps, p[:pl/2])
				}
				if pl > 0 {
					ps = append(ps, p)
				}
				for _, b := range branchSpots {
					s := p + string([]byte{b})
					ks = append(ks, s+"m", s+"n")
					ps = append(ps, s)
				}
				for _, b := range []byte{100, 101, 102, 103} {
					ks = append(ks, p+string([]byte{b}))
				}
				ks = append(ks, "a")
				if pl == 0 {
					ks = ks[:len(ks)-1]
				}
				prefixFree(ks)
				for lead := 0; lead < 9; lead++ {
					if c.Stop() {
						return
					}
					steps := 0
					c.Seq(name(id, lead), vs.Config{}, func(x *vs.Exec) {
						steps = 0
						u := newU(x, ks)
						t := newTree(1)
						e := &env{c: c, x: x, t: t, u: u, m: model{}, cl: t, n: len(ks)}
						for i := 2 * n; i < 2*n+4; i++ {
							e.put(i)
						}
						if mode == "beside" && pl > 0 {
							e.put(2*n + 4)
						}
						kind := make([]int, n)
						set := func(i, k int) {
							for j := 0; j < 2; j++ {
								if _, ok := e.m[2*i+j]; ok && k <= j {
									e.del(2*i + j)
								} else if !ok && k > j {
									e.put(2*i + j)
								}
							}
							kind[i] = k
						}
						set(0, lead/3)
						set(1, lead%3)
						dir := make([]int, n)
						for i := range dir {
							dir[i] = 1
						}
						if mode != "kept" {
							for i := 2 * n; i < 2*n+4; i++ {
								e.del(i)
							}
						}
						for {
							f(e, ps)
							steps++
							// reflected ternary counting over the other branches
							i := 2
							for ; i < n; i++ {
								if k := kind[i] + dir[i]; k >= 0 && k <= 2 {
									set(i, k)
									break
								}
								dir[i] = -dir[i]
							}
							if i == n {
								break
							}
						}
					})
					c.res.Counters.States += int64(steps)
					c.res.Counters.Checks += int64(steps)
				}
				c.Sample("branches of a wide node below a prefix of %d bytes, each absent, a key or a node; other branches: %s", pl, mode)
			}})
		}
	}
	return
}

// recycleTasks: every sequence of coarse steps on three subtrees whose nodes are wide: fill (5 branches, other bytes in
// each subtree), clear, add a key that splits the subtree's prefix, delete it. Wide nodes are retired by the splits and
// merges, and their memory is used again, for wide and narrow nodes.
func recycleTasks(prefix, variant string, n int, f func(e *env, prefixes []string)) (ts []Task) {
	trees := []string{"axyz", "bx", "c"}
	split := []string{"aq", "bq", ""}
	var ks []string
	for i, p := range trees {
		for _, b := range [][]byte{{0, 'A', 'm', 254, 255}, {'A', 'B', 'C', 200, 201}, {1, 2, 'n', 'q', 255}}[i] {
			ks = append(ks, p+string([]byte{b}))
		}
	}
	ks = append(ks, split[0], split[1])
	prefixFree(ks)
	ps := []string{"", "a", "ax", "axyz", "b", "bx", "c", "d"}
	type step struct {
		what byte
		tree int
	}
	var steps []step
	for i := range trees {
		steps = append(steps, step{'f', i}, step{'c', i})
		if split[i] != "" {
			steps = append(steps, step{'s', i}, step{'u', i})
		}
	}
	for first := range steps {
		id := name(prefix, variant, n, string([]byte{steps[first].what, byte('0' + steps[first].tree)}))
		if steps[first].what != 'f' {
			continue
		}
		ts = append(ts, Task{ID: id, Variant: variant, Run: func(c *Ctx) {
			seqs(len(steps), n, first, func(idx []int) {
				// steps that would do nothing are left out
				filled, splits := map[int]bool{}, map[int]bool{}
				for _, i := range idx {
					s := steps[i]
					m := filled
					if s.what == 's' || s.what == 'u' {
						m = splits
					}
					on := s.what == 'f' || s.what == 's'
					if m[s.tree] == on {
						return
					}
					m[s.tree] = on
				}
				if c.Stop() {
					return
				}
				c.Seq(name(id, idx), vs.Config{}, func(x *vs.Exec) {
					u := newU(x, ks)
					t := newTree(1)
					e := &env{c: c, x: x, t: t, u: u, m: model{}, cl: t, n: len(ks)}
					for _, i := range idx {
						s := steps[i]
						for j := 0; j < 5; j++ {
							switch s.what {
							case 'f':
								e.put(5*s.tree + j)
							case 'c':
								e.del(5*s.tree + j)
							}
						}
						switch s.what {
						case 's':
							e.put(15 + s.tree)
						case 'u':
							e.del(15 + s.tree)
						}
					}
					f(e, ps)
				})
				c.res.Counters.States++
				c.res.Counters.Checks++
			})
			c.Sample("%d steps (fill, clear, split, merge) on three subtrees of wide nodes", n)
		}})
	}
	return
}

// recycled is recycleTasks for the variants where memory is used again soon.
func recycled(thorough bool, f func(e *env, prefixes []string)) (ts []Task) {
	n := pick(thorough, 8, 6)
	for _, v := range []string{"we1", "wie"} {
		for l := 3; l <= n; l++ {
			ts = append(ts, recycleTasks("recycled", v, l, f)...)
		}
	}
	return
}

// ladderTasks build a tree in which every key branches off the path of the next: depth n, rungs one branch (narrow) or
// several (wide) beside the path, gap bytes from rung to rung. Rungs are added in one order and taken out in another,
// with observations at the depths around powers of two and for prefixes all along the path.
func ladderTasks(prefix string, variants []string, thorough bool, f func(e *env, prefixes []string)) (ts []Task) {
	near := func(i, n int) bool {
		if i <= 12 || i == n {
			return true
		}
		for p := 16; p <= n+1; p *= 2 {
			if i >= p-1 && i <= p+1 {
				return true
			}
		}
		return false
	}
	orders := map[string]func(i, n int) int{
		"down":  func(i, n int) int { return i },
		"up":    func(i, n int) int { return n - 1 - i },
		"evens": func(i, n int) int { return map[bool]int{true: 2 * i, false: 2*(i-(n+1)/2) + 1}[2*i < n] },
	}
	names := []string{"down", "up", "evens"}
	for _, v := range append(variants, "real") {
		for _, gap := range []int{1, 2, 9, 255, 256} {
			for _, width := range []int{1, 5} {
				n := 66
				if gap > 200 { // in the small variants the longest prefixes do not fit into a block of the usual size
					n = 34
				}
				if thorough && width == 1 && (gap < 3 || v == "real") { // memory is scarce in the others
					n = 4*n - 6
				}
				if width > 1 && v != "w4" && v != "wie" || v == "i2" && gap > 200 {
					continue
				}
				id := name(prefix, v, gap, width)
				ts = append(ts, Task{ID: id, Variant: v, Run: func(c *Ctx) {
					var ks []string
					path := func(i int) string { return rep(rep("m", gap-1)+"p", i) }
					for i := 0; i < n; i++ {
						for j := 0; j < width; j++ {
							ks = append(ks, path(i)+string([]byte{[]byte{'x', 0, 'a', 'o', 255}[j]}))
						}
					}
					prefixFree(ks)
					for _, in := range names {
						for _, out := range names {
							if c.Stop() {
								return
							}
							seen := 0
							c.Seq(name(id, in, out), vs.Config{}, func(x *vs.Exec) {
								u := newU(x, ks)
								t := newTree(1)
								e := &env{c: c, x: x, t: t, u: u, m: model{}, cl: t, n: len(ks)}
								seen = 0
								look := func(i, at int) {
									if !near(i, n) && !near(n-i, n) {
										return
									}
									seen++
									ps := []string{"", path(at), path(at) + "x", path(n - 1), path(n/2 + 1), path(n)}
									if at > 0 {
										ps = append(ps, path(at)[:len(path(at))-1])
									}
									f(e, ps)
								}
								for i := 0; i < n; i++ {
									r := orders[in](i, n)
									for j := 0; j < width; j++ {
										e.put(r*width + j)
									}
									look(i+1, r)
								}
								for i := 0; i < n; i++ {
									r := orders[out](i, n)
									for j := 0; j < width; j++ {
										e.del(r*width + j)
									}
									look(n-i-1, r)
								}
							})
							c.res.Counters.States += int64(seen)
							c.res.Counters.Checks += int64(seen)
						}
					}
					c.Sample("a tree of depth %d, %d bytes and %d keys from rung to rung, built and taken apart in 3 orders each", n, gap, width)
				}})
			}
		}
	}
	return
}
