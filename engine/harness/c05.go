package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/jayloop/radix"
	"vs"
)

// scan watches an iteration that overlaps modifications.
type scan struct {
	x      *vs.Exec
	u      *Universe
	prefix string
	stable map[int]uint64  // stored under the prefix and untouched throughout
	vals   map[uint64]bool // stored at some time during the iteration
	now    model           // contents
	got    []uint64
	limit  int
	alone  map[int]bool // positions in got of keys that were the only ones left below some prefix when they were returned
}

func newScan(x *vs.Exec, u *Universe, m model, prefix string) *scan {
	s := &scan{x: x, u: u, prefix: prefix, stable: map[int]uint64{}, vals: map[uint64]bool{}, alone: map[int]bool{}, now: m.clone()}
	for k, v := range m {
		s.vals[v] = true
		if strings.HasPrefix(u.Keys[k], prefix) {
			s.stable[k] = v
		}
	}
	s.limit = 2*len(m) + 40
	return s
}

func (s *scan) put(k int, v uint64) {
	delete(s.stable, k)
	s.vals[v] = true
	s.now[k] = v
}

func (s *scan) del(k int) {
	delete(s.stable, k)
	delete(s.now, k)
}

// step takes the next item.
func (s *scan) step(it *radix.Iterator) bool {
	if !it.Next() {
		return false
	}
	s.got = append(s.got, it.Value())
	if k, ok := s.u.keyOf(it.Value()); ok && s.lone(k) {
		s.alone[len(s.got)-1] = true
	}
	if len(s.got) > s.limit {
		s.x.Fail("iteration does not end: %s", s.u.show(s.got))
	}
	return true
}

func (s *scan) finish() {
	bad := s.judge(s.got)
	if bad == "" {
		return
	}
	// the one known deviation: the only key left of a subtree is returned again
	var rest []uint64
	seen := map[int]bool{}
	again := -1
	for i, v := range s.got {
		k, _ := s.u.keyOf(v)
		if seen[k] && s.alone[i] {
			again = k
			continue
		}
		seen[k] = true
		rest = append(rest, v)
	}
	if again >= 0 && s.judge(rest) == "" {
		bad += fmt.Sprintf(" [KEY-LEFT-ALONE: %s is the only key left of the subtree to resume in]", short(s.u.Keys[again]))
	}
	s.x.Fail("%s", bad)
}

// lone tells whether k is stored and the only key left below some prefix.
func (s *scan) lone(k int) bool {
	key := s.u.Keys[k]
	if _, ok := s.now[k]; !ok {
		return false
	}
	for i := 0; i < len(key); i++ {
		alone := true
		for l := range s.now {
			if l != k && strings.HasPrefix(s.u.Keys[l], key[:i]) {
				alone = false
			}
		}
		if alone {
			return true
		}
	}
	return false
}

// judge says what is wrong with the values returned, or nothing.
func (s *scan) judge(returned []uint64) string {
	var want, got []uint64
	var ks []int
	for k := range s.stable {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return s.u.Keys[ks[i]] < s.u.Keys[ks[j]] })
	for _, k := range ks {
		want = append(want, s.stable[k])
	}
	seen := map[int]int{}
	for _, v := range returned {
		if !s.vals[v] {
			return fmt.Sprintf("iteration with prefix %q returned %#x, which was not stored while it ran", s.prefix, v)
		}
		k, _ := s.u.keyOf(v)
		if w, ok := s.stable[k]; ok && w == v {
			got = append(got, v)
		}
		if seen[k]++; seen[k] > 1 {
			return fmt.Sprintf("iteration with prefix %q returned %s more than once: %s", s.prefix, short(s.u.Keys[k]), s.u.show(s.got))
		}
	}
	if !equal(got, want) {
		return fmt.Sprintf("iteration with prefix %q returned %s; the keys nobody changed are %s", s.prefix, s.u.show(s.got), s.u.show(want))
	}
	return ""
}

// modification of an index during an iteration
type mod struct {
	name string
	f    func(e *env, s *scan)
}

func (e *env) change(s *scan, o cop) {
	switch o.kind {
	case 'p':
		e.put(o.key)
		s.put(o.key, e.m[o.key])
	case 'd':
		if _, ok := e.m[o.key]; ok {
			e.del(o.key)
			s.del(o.key)
		}
	}
}

func opsMod(ops ...cop) mod {
	return mod{histString(ops), func(e *env, s *scan) {
		for _, o := range ops {
			e.change(s, o)
		}
	}}
}

// dropMod deletes all keys below p but one (-1: all).
func dropMod(keys []string, p string, but int) mod {
	return mod{fmt.Sprintf("drop %q but %d", p, but), func(e *env, s *scan) {
		for k := range keys {
			if k != but && strings.HasPrefix(keys[k], p) {
				e.change(s, cop{'d', k})
			}
		}
	}}
}

// modsOf lists the modifications of an alphabet: single ones, pairs, whole subtrees, all of a subtree but one key.
func modsOf(keys []string, pairs bool) (ms []mod) {
	for k := range keys {
		ms = append(ms, opsMod(cop{'p', k}), opsMod(cop{'d', k}))
	}
	if pairs {
		for k := range keys {
			for l := k + 1; l < len(keys); l++ {
				ms = append(ms, opsMod(cop{'d', k}, cop{'d', l}), opsMod(cop{'p', k}, cop{'d', l}), opsMod(cop{'d', k}, cop{'p', l}))
			}
		}
	}
	seen := map[string]bool{}
	for _, k := range keys {
		for i := 0; i < len(k); i++ {
			p := k[:i]
			n := 0
			for _, l := range keys {
				if strings.HasPrefix(l, p) {
					n++
				}
			}
			if n < 3 || seen[fmt.Sprint(n, p[:min(1, len(p))])] {
				continue
			}
			seen[fmt.Sprint(n, p[:min(1, len(p))])] = true
			ms = append(ms, dropMod(keys, p, -1))
			for b := range keys {
				if strings.HasPrefix(keys[b], p) {
					ms = append(ms, dropMod(keys, p, b))
				}
			}
		}
	}
	return
}

func modTasks(prefix, variant string, keys []string, prefixes []string, sets func(mask int) bool, mods []mod, twice bool) (ts []Task) {
	prefixFree(keys)
	for part := 0; part < 8; part++ {
		id := name(prefix, variant, shortList(keys[:1]), part)
		ts = append(ts, Task{ID: id, Variant: variant, Run: func(c *Ctx) {
			n := 0
			for mask := 0; mask < 1<<len(keys); mask++ {
				if !sets(mask) {
					continue
				}
				if n++; n%8 != part {
					continue
				}
				for _, p := range prefixes {
					total := 0
					for _, k := range maskKeys(mask) {
						if strings.HasPrefix(keys[k], p) {
							total++
						}
					}
					for j := 0; j <= total; j++ {
						for i, m1 := range mods {
							run := func(m2 *mod, j2 int) {
								if c.Stop() {
									return
								}
								sub := fmt.Sprintf("%s/%b/%q/%d:%s", id, mask, p, j, m1.name)
								if m2 != nil {
									sub += fmt.Sprintf("/%d:%s", j2, m2.name)
								}
								c.Seq(sub, vs.Config{}, func(x *vs.Exec) {
									u := newU(x, keys)
									t := newTree(2)
									e := &env{c: c, x: x, t: t, u: u, m: model{}, cl: t, n: len(keys)}
									for _, k := range maskKeys(mask) {
										e.put(k)
									}
									s := newScan(x, u, e.m, p)
									it := t.NewIterator([]byte(p))
									for {
										if len(s.got) == j {
											x.Note("after %d items: %s", j, m1.name)
											m1.f(e, s)
										}
										if m2 != nil && len(s.got) == j2 {
											x.Note("after %d items: %s", j2, m2.name)
											m2.f(e, s)
										}
										if !s.step(it) {
											break
										}
									}
									s.finish()
									it.Close()
								})
								c.res.Counters.States++
								c.res.Counters.Checks++
							}
							if !twice {
								run(nil, 0)
								continue
							}
							for j2 := j + 1; j2 <= total; j2++ {
								for k := range mods {
									if k != i {
										run(&mods[k], j2)
									}
								}
							}
						}
					}
				}
			}
			c.Sample("subsets of %s, modified by one of %d changes after every step", shortList(keys), len(mods))
		}})
	}
	return
}

// realTasks modify wide and long iterations at every step, with the code's own batch length.
func realTasks(thorough bool) (ts []Task) {
	shapes := [][]int{{127, 129, 2}, {2, 256, 127}, {256, 1, 2}, {129, 129, 129}}
	for _, sizes := range shapes {
		for part := 0; part < 8; part++ {
			p := "pq"
			his := []byte{0, 'b', 0xff}
			id := name("real", sizes, part)
			ts = append(ts, Task{ID: id, Variant: "s13", Run: func(c *Ctx) {
				ks := twoLevel(p, his, sizes)
				n := len(ks)
				ks = append(ks, p+"b\x03\x01", p+"\xff\x81", p+"c", "A", "z")
				prefixFree2 := map[string]bool{}
				for i, k := range ks {
					if i < n {
						prefixFree2[k] = true
					}
				}
				mods := []mod{}
				// every child of the root node goes, or all but its first/last key; new keys appear
				for h := range his {
					pp := p + string(his[h:h+1])
					var in []int
					for k := 0; k < n; k++ {
						if strings.HasPrefix(ks[k], pp) {
							in = append(in, k)
						}
					}
					mods = append(mods, dropMod(ks[:n], pp, -1), dropMod(ks[:n], pp, in[0]), dropMod(ks[:n], pp, in[len(in)-1]))
				}
				mods = append(mods, mod{"insert", func(e *env, s *scan) {
					for _, k := range []int{n + 2, n + 3, n + 4} {
						e.change(s, cop{'p', k})
					}
				}})
				for j := part; j <= n; j += 8 {
					if !thorough && j%256 > 4 && j%256 < 250 && j%16 != part {
						continue
					}
					for _, m1 := range mods {
						if c.Stop() {
							return
						}
						c.Seq(fmt.Sprintf("%s/%d:%s", id, j, m1.name), vs.Config{}, func(x *vs.Exec) {
							u := newU(x, ks)
							t := newTree(2)
							e := &env{c: c, x: x, t: t, u: u, m: model{}, cl: t, n: len(ks)}
							for k := 0; k < n; k++ {
								e.put(k)
							}
							s := newScan(x, u, e.m, p)
							it := t.NewIterator([]byte(p))
							for {
								if len(s.got) == j {
									m1.f(e, s)
								}
								if !s.step(it) {
									break
								}
							}
							s.finish()
							it.Close()
						})
						c.res.Counters.States++
						c.res.Counters.Checks++
					}
				}
				c.Sample("children with %v keys, changed after every step", sizes)
			}})
		}
	}
	return
}

// scanTasks: a scan against writers, all interleavings.
func scanTasks(prefix, variant string, keys []string, masks []int, prefixes []string, writers func(n int) [][]cop) (ts []Task) {
	for _, mask := range masks {
		for _, p := range prefixes {
			id := name(prefix, variant, shortList(keys[:1]), fmt.Sprintf("%b", mask), p)
			ts = append(ts, Task{ID: id, Variant: variant, Run: func(c *Ctx) {
				for _, ops := range writers(len(keys)) {
					if c.Stop() {
						return
					}
					c.Explore(histString(ops), vs.Config{}, vs.Options{}, func(x *vs.Exec) {
						sh := &shape{keys: keys, base: maskKeys(mask)}
						t, u, m, allocs := sh.build(x, 2, 0)
						t.ReleaseAllocator(allocs[0])
						s := newScan(x, u, m, p)
						for _, o := range ops {
							delete(s.stable, o.key)
						}
						s.now = m
						w := &env{c: c, x: x, t: t, u: u, m: m, cl: allocs[1], n: len(keys), ver: 50}
						x.Go("writer", func() {
							for _, o := range ops {
								if o.kind == 'p' {
									s.vals[u.val(o.key, w.ver+1)] = true
								}
								w.do(o)
							}
						})
						x.Go("scan", func() {
							it := t.NewIterator([]byte(p))
							for s.step(it) {
							}
							it.Close()
						})
						x.Explore()
						s.finish()
						c.res.Counters.Checks++
					})
				}
				c.Sample("keys %v stored %b, scan of %q against every writer, all interleavings", keys, mask, p)
			}})
		}
	}
	return
}

// reuseTasks: a scan beside a writer whose operations retire the nodes scanned, move the epoch and allocate again.
func reuseTasks(thorough bool) (ts []Task) {
	for _, s := range lifeSpaces(thorough) {
		if thorough {
			s.n++
		}
		ops := opsOf(len(s.keys), "pd")
		for _, p := range s.prefixes {
			for _, phase := range s.phases {
				for first := range ops {
					ts = append(ts, Task{ID: name("reuse", s.name, p, phase, ops[first]), Variant: s.variant, Run: func(c *Ctx) {
						seqs(len(ops), s.n, first, func(idx []int) {
							if idle(s.base, ops, idx) || c.Stop() {
								return
							}
							c.reuse(name(phase, idx), vs.Options{Mode: "pb", Bound: 1}, s, p, phase, idx)
						})
						c.Sample("scan of %q beside every sequence of %d operations on %v that begins with %v", p, s.n, s.keys, ops[first])
					}})
				}
			}
			for i, pat := range [][]int{{0, 2, 1, 0, 3, 2}, {2, 3, 2, 3, 2, 3}, {0, 1, 0, 1, 0, 1}, {4, 5, 1, 0, 4, 5}, {4, 5, 4, 5, 4, 5}} {
				ts = append(ts, Task{ID: name("reuse-churn", s.name, p, i), Variant: s.variant, Run: func(c *Ctx) {
					c.reuse(name(pat), vs.Options{Mode: "pb", Bound: 2, MaxExecs: pick(thorough, int64(200000), 10000)}, s, p, 2, pat)
					c.Sample("scan of %q beside a churn of %v, all schedules of up to 2 preemptions", p, pat)
				}})
			}
		}
	}
	return
}

func (c *Ctx) reuse(sub string, opt vs.Options, sp lifeSpace, p string, phase int, idx []int) {
	ops := opsOf(len(sp.keys), "pd")
	c.Explore(sub, vs.Config{}, opt, func(x *vs.Exec) {
		t, u, m, w, _ := lifeStart(x, sp.keys, sp.base, phase)
		s := newScan(x, u, m, p)
		s.now = m
		e := &env{c: c, x: x, t: t, u: u, m: m, cl: w, n: len(sp.keys), ver: 100}
		for _, i := range idx {
			delete(s.stable, ops[i].key)
		}
		x.Go("scan", func() {
			it := t.NewIterator([]byte(p))
			for s.step(it) {
			}
			it.Close()
		})
		x.Go("writer", func() {
			for _, i := range idx {
				if ops[i].kind == 'p' {
					s.vals[u.val(ops[i].key, e.ver+1)] = true
				}
				e.do(ops[i])
			}
		})
		x.Explore()
		s.finish()
		checkContents(x, t, u, m)
		c.res.Counters.Checks++
	})
}

func singleOps(n int) (out [][]cop) {
	for _, o := range opsOf(n, "pd") {
		out = append(out, []cop{o})
	}
	return
}

func init() {
	props["C05"] = func(thorough bool) (ts []Task) {
		big := func(mask int) bool { return bitsOf(mask) >= 7 }
		all := func(mask int) bool { return bitsOf(mask) >= 4 }
		for _, v := range []string{"i2", "wie"} {
			for i, a := range subsetAlphabets {
				ps := []string{"", a[0][:len(a[0])-1]}
				if i == 0 {
					ps = []string{"", "a", "c"}
				}
				ts = append(ts, modTasks("mods", v, a, ps, all, modsOf(a, true), false)...)
				ts = append(ts, modTasks("twice", v, a, ps[:1], big, modsOf(a, false), true)...)
			}
		}
		ts = append(ts, realTasks(thorough)...)
		ks := []string{"aa", "ab", "aca", "acb", "b", "c"}
		ts = append(ts, scanTasks("scan", "i2", ks, []int{63, 31, 15, 62, 60}, []string{"", "a"}, singleOps)...)
		wk := []string{"aa", "ab", "ac", "ad", "ae", "b"}
		ts = append(ts, scanTasks("scan", "wie", wk, []int{63, 47, 39, 15}, []string{"", "a"}, singleOps)...)
		ts = append(ts, reuseTasks(thorough)...)
		pls := []int{0, 17}
		if thorough {
			pls = branchPrefixes(true)
		}
		changing := func(e *env, ps []string) {
			// every key is taken out and put back (kind 0), or stored again (1), when it has been returned; or the
			// next one is (2, 3)
			order := e.m.sorted(e.u, "")
			for kind := 0; kind < 4; kind++ {
				if len(e.m) > 20 && len(e.m)%4 != kind { // one of the four
					continue
				}
				s := newScan(e.x, e.u, e.m, "")
				it := e.t.NewIterator(nil)
				for s.step(it) {
					k, _ := s.u.keyOf(it.Value())
					if kind >= 2 {
						i := 0
						for ; i < len(order); i++ {
							if l, _ := s.u.keyOf(order[i]); l == k {
								break
							}
						}
						if i+1 >= len(order) {
							continue
						}
						k, _ = s.u.keyOf(order[i+1])
					}
					if kind%2 == 0 {
						e.change(s, cop{'d', k})
					}
					e.change(s, cop{'p', k})
				}
				s.finish()
				it.Close()
			}
		}
		ts = append(ts, branchTasks("branches", "wie", pls, changing)...)
		ts = append(ts, ladderTasks("ladder", []string{"i2", "wie"}, thorough, func(e *env, ps []string) {
			bytes := 0
			for k := range e.m {
				bytes += len(e.u.Keys[k])
			}
			if bytes < 30000 && len(e.m) <= 150 {
				changing(e, ps)
			}
		})...)
		return
	}
}
