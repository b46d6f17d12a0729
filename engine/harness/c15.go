package main

import (
	"fmt"
	"io"

	"github.com/jayloop/radix"
	"vs"
)

// cycles calls f with every sequence of n operations that ends with the key set it began with and changes or rewrites
// something; stored is the start mask.
func cycles(keys, n, stored int, f func(ops []cop)) {
	ops := make([]cop, 0, n)
	var rec func(cur int)
	rec = func(cur int) {
		if len(ops) == n {
			if cur == stored {
				f(append([]cop(nil), ops...))
			}
			return
		}
		if bitsOf(cur^stored) > n-len(ops) {
			return
		}
		for k := 0; k < keys; k++ {
			ops = append(ops, cop{'p', k})
			rec(cur | 1<<k)
			ops = ops[:len(ops)-1]
			if cur>>k&1 == 1 {
				ops = append(ops, cop{'d', k})
				rec(cur &^ (1 << k))
				ops = ops[:len(ops)-1]
			}
		}
	}
	rec(stored)
}

// steady runs rounds of something that ends with the contents it began with: once warm, it takes no more memory.
func steady(x *vs.Exec, t *radix.Tree, warm, rounds int, what string, f func(round int)) {
	n := 0
	run := func(k int) uint64 {
		for ; k > 0; k-- {
			f(n)
			n++
		}
		x.Quiesce()
		return stat(t, "blocks_allocated")
	}
	before := run(warm)
	if run(rounds) == before {
		return
	}
	// grows for good, or took longer to get warm?
	from := n + 8000
	before = run(8000)
	if after := run(8000); after != before {
		x.Fail("%s: %d blocks after %d rounds, %d after %d", what, before, from, after, n)
	}
}

type churnSpace struct {
	name    string
	keys    []string
	masks   []int
	extra   int // further keys: children of prefix
	prefix  string
	variant string
	n       int // cycle length
	warm    int
	rounds  int
}

func (cs *churnSpace) tasks(client string) (ts []Task) {
	masks := cs.masks
	if masks == nil {
		combos(len(cs.keys), func(m int) { masks = append(masks, m) })
	}
	sp := &space{name: cs.name, keys: cs.keys, extra: cs.extra, prefix: cs.prefix}
	prefixFree(sp.allKeys())
	for _, mask := range masks {
		id := name("cycle", cs.name, client, fmt.Sprintf("%b", mask), cs.n)
		ts = append(ts, Task{ID: id, Variant: cs.variant, Run: func(c *Ctx) {
			cycles(len(cs.keys), cs.n, mask, func(ops []cop) {
				if c.Stop() {
					return
				}
				c.Seq(histString(ops), vs.Config{MaxSteps: 1 << 40}, func(x *vs.Exec) {
					u := newU(x, sp.allKeys())
					t := newTree(1)
					e := &env{c: c, x: x, t: t, u: u, m: model{}, cl: t, n: len(cs.keys)}
					for k := len(cs.keys); k < len(u.Keys); k++ {
						e.put(k)
					}
					for _, k := range maskKeys(mask) {
						e.put(k)
					}
					if client == "alloc" {
						e.cl = t.GetAllocator()
					}
					x.Quiesce()
					steady(x, t, cs.warm, cs.rounds, fmt.Sprintf("repeating %s from %v over keys %s", histString(ops), maskKeys(mask), shortList(cs.keys)), func(i int) {
						e.ver = i & 0xffff
						for _, o := range ops {
							e.do(o)
						}
					})
				})
				c.res.Counters.States++
				c.res.Counters.Checks++
			})
			c.Sample("keys %s, stored %b: all cycles of %d operations, repeated %d times after %d", shortList(cs.keys), mask, cs.n, cs.rounds, cs.warm)
		}})
	}
	return
}

// completed operations of every kind; each leaves nothing behind that keeps memory from being reused.
// aborts: only the prepared and aborted ones.
func bystanders(keys []string, aborts bool) (bs []func(u *Universe, t *radix.Tree, m model)) {
	add := func(f func(u *Universe, t *radix.Tree, m model)) {
		if !aborts {
			bs = append(bs, f)
		}
	}
	abort := func(f func(u *Universe, t *radix.Tree, m model)) { bs = append(bs, f) }
	for _, p := range append(prefixesOf(keys), "\x01none") {
		add(func(u *Universe, t *radix.Tree, m model) { t.Lookup([]byte(p)) })
		add(func(u *Universe, t *radix.Tree, m model) { t.MinKey([]byte(p)) })
		add(func(u *Universe, t *radix.Tree, m model) { t.MaxKey([]byte(p)) })
		add(func(u *Universe, t *radix.Tree, m model) { radix.NewCounter(t).Count([]byte(p)) })
		for n := 0; n < 4; n++ {
			add(func(u *Universe, t *radix.Tree, m model) {
				it := t.NewIterator([]byte(p))
				for i := 0; i < n && it.Next(); i++ {
				}
				it.Close()
			})
		}
		abort(func(u *Universe, t *radix.Tree, m model) {
			if f := prepareAbort(u, t, 'b', []byte(p)); f != nil {
				f()
			}
		})
	}
	for k := range keys {
		for _, kind := range []byte(abortKinds) {
			abort(func(u *Universe, t *radix.Tree, m model) {
				if f := prepareAbort(u, t, kind, []byte(keys[k])); f != nil {
					f()
				}
			})
		}
		add(func(u *Universe, t *radix.Tree, m model) { u.put(t, k, u.val(k, 1)); m[k] = u.val(k, 1) })
		add(func(u *Universe, t *radix.Tree, m model) { u.del(t, k); delete(m, k) })
	}
	add(func(u *Universe, t *radix.Tree, m model) { t.Stop(); t.Start() })
	add(func(u *Universe, t *radix.Tree, m model) { t.Admin(io.Discard, []string{"root"}) })
	add(func(u *Universe, t *radix.Tree, m model) { t.Admin(io.Discard, []string{"allocators"}) })
	return
}

// bystanderTasks: an allocator that completed an operation and is idle since does not keep another client's churn from
// reusing memory.
func bystanderTasks(prefix string, aborts bool) (ts []Task) {
	shapes := []concShape{
		{name: "flat", keys: []string{"a", "b", "c"}, variant: "e3"},
		{name: "nest", keys: []string{"aaa", "aab", "aba", "b"}, variant: "e3"},
		{name: "path", keys: []string{"prefix-xa", "prefix-xb", "prefiQ", "prefix-y"}, variant: "e3"},
		{name: "w4", keys: []string{"aa", "ab", "ac", "ad", "b"}, variant: "wie", masks: []int{0, 1, 3, 7, 15, 31, 16, 17}},
	}
	for _, s := range shapes {
		ts = append(ts, Task{ID: name(prefix, s.name), Variant: s.variant, Run: func(c *Ctx) {
			n := len(bystanders(s.keys, aborts))
			for _, mask := range s.starts() {
				for i := 0; i < n; i++ {
					if c.Stop() {
						return
					}
					c.Seq(name(mask, i), vs.Config{}, func(x *vs.Exec) {
						u := newU(x, append(append([]string(nil), s.keys...), "zz1", "zz2"))
						t := newTree(2)
						m := model{}
						for _, k := range maskKeys(mask) {
							m[k] = u.val(k, 1)
							u.put(t, k, m[k])
						}
						bystanders(s.keys, aborts)[i](u, t, m)
						x.Quiesce()
						// only the other allocator works from here on
						idle, a := t.GetAllocator(), t.GetAllocator()
						_ = idle
						steady(x, t, 40, blockSize(t)/8, "an operation was completed through another allocator; churn", func(int) {
							for k := len(s.keys); k < len(u.Keys); k++ {
								u.put(a, k, u.val(k, 2))
							}
							for k := len(s.keys); k < len(u.Keys); k++ {
								u.del(a, k)
							}
						})
						t.ReleaseAllocator(idle)
						t.ReleaseAllocator(a)
						checkContents(x, t, u, m)
					})
					c.res.Counters.States++
					c.res.Counters.Checks++
				}
			}
			c.Sample("keys %v: each of %d completed operations, then churn by another client", s.keys, n)
		}})
	}
	return
}

func init() {
	props["C15"] = func(thorough bool) (ts []Task) {
		var all []churnSpace
		n, rounds := 4, 400
		if thorough {
			n, rounds = 5, 2000
		}
		for l := 2; l <= n; l++ {
			for _, a := range sortedKeys(alphabets) {
				all = append(all, churnSpace{name: a, keys: alphabets[a], variant: "e3", n: l, warm: 60, rounds: rounds})
			}
			all = append(all,
				churnSpace{name: "w4root", keys: []string{"a", "b", "c", "d", "e"}, masks: []int{0, 1, 7, 15, 31}, variant: "wie", n: l, warm: 100, rounds: 4 * rounds},
				churnSpace{name: "w4path", keys: []string{"prefix-xa", "prefix-xb", "prefix-xc", "prefix-xd1", "prefix-xd2", "prefix-y"}, masks: []int{7, 15, 31, 63, 39}, variant: "wie", n: l, warm: 100, rounds: 4 * rounds},
				churnSpace{name: "long", keys: []string{rep("L", 900) + "a", rep("L", 900) + "b", rep("L", 1200) + "c", "z"}, masks: []int{8, 9, 11, 15}, variant: "es13", n: l, warm: 60, rounds: rounds / 4},
			)
		}
		// the real interval between epochs
		real := []string{"flat", "merge", "nest", "zero"}
		for _, a := range real {
			all = append(all, churnSpace{name: "real-" + a, keys: alphabets[a], masks: []int{0, 1, 7, 15}, variant: "s13", n: 2, warm: 4000, rounds: 6000})
		}
		// large nodes
		for _, ex := range []int{60, 124, 125, 126, 250} {
			all = append(all, churnSpace{name: fmt.Sprint("wide", ex), keys: []string{"pq\x02", "pq\xfe\x00", "pq\xfe\x01", "pr"}, masks: []int{0, 2, 15}, extra: ex, prefix: "pq", variant: "es13", n: 2, warm: 60, rounds: 300})
			if thorough {
				all = append(all, churnSpace{name: fmt.Sprint("wide", ex), keys: []string{"pq\x02", "pq\xfe\x00", "pq\xfe\x01", "pr"}, masks: []int{0, 2, 15}, extra: ex, prefix: "pq", variant: "es13", n: 3, warm: 60, rounds: 300})
				all = append(all, churnSpace{name: fmt.Sprint("real-wide", ex), keys: []string{"pq\x02", "pq\xfe\x00", "pq\xfe\x01", "pr"}, masks: []int{2}, extra: ex, prefix: "pq", variant: "real", n: 2, warm: 4000, rounds: 4000})
			}
		}
		ts = append(ts, bystanderTasks("bystander", false)...)
		for i := range all {
			ts = append(ts, all[i].tasks("tree")...)
			if all[i].n == 2 {
				ts = append(ts, all[i].tasks("alloc")...)
			}
		}
		return
	}
}
