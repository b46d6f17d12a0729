package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/jayloop/radix"
	"vs"
)

// session is one client working on two indexes with handles of all kinds; everything it observes is logged.
type session struct {
	x   *vs.Exec
	u   *Universe
	t   [2]*radix.Tree
	m   [2]model
	log strings.Builder
	it  [2]*radix.Iterator // an iterator left open per index
	up  [2]*radix.UpdateOperation
	upA [2]*radix.Allocator
	upK [2]int
	ctr [2]*radix.Counter
	own map[any]bool
	ver int
}

func (s *session) note(f string, a ...any) { fmt.Fprintf(&s.log, f+"; ", a...) }

// opened notes a handle in use: nobody else may be given it.
func (s *session) opened(h any, what string) {
	if s.own[h] {
		s.x.Fail("the %s handle handed out is in use already", what)
	}
	s.own[h] = true
}

func (s *session) closed(h any) { delete(s.own, h) }

func (s *session) prepareUpdate(c client, k int, i int) (op *radix.UpdateOperation, match bool) {
	key := []byte(s.u.Keys[k])
	found, op := c.PrepareUpdate(key)
	s.opened(op, "update")
	if !bytes.Equal(op.Key, key) || op.Match {
		s.x.Fail("a new update operation has Key %q and Match %v", op.Key, op.Match)
	}
	if len(op.FetchedKey) > 0 {
		s.note("fetched %q", op.FetchedKey)
	}
	if found {
		s.note("%d: found %#x", i, op.Value)
		op.FetchedKey = s.u.fetch(op.FetchedKey, op.Value)
		match = bytes.Equal(op.FetchedKey, key)
		op.Match = match
	} else {
		s.note("%d: nothing, %#x", i, op.Value)
	}
	if d := op.String(); !strings.Contains(d, s.u.Keys[k]) {
		s.x.Fail("the description of an update of %q does not name its key:\n%s", key, d)
	}
	if v, ok := s.m[i][k]; ok != match || ok && v != op.Value {
		s.x.Fail("preparing an update of %q found %v %#x; stored: %v %#x", key, match, op.Value, ok, v)
	}
	return
}

type handleAct struct {
	name  string
	write bool // an operation that would wait for one prepared before
	f     func(s *session, i int)
	sets  string
	ends  string
}

func handleActs(keys int) (as []handleAct) {
	add := func(n string, f func(s *session, i int)) {
		w := strings.HasPrefix(n, "put") || strings.HasPrefix(n, "del")
		as = append(as, handleAct{name: n, f: f, write: w})
	}
	for _, k := range []int{0, 3} {
		add(name("put", k), func(s *session, i int) {
			op, _ := s.prepareUpdate(s.t[i], k, i)
			s.ver++
			v := s.u.val(k, s.ver)
			s.closed(op)
			ok := op.Finalize(v)
			s.note("put %v", ok)
			if !ok {
				s.x.Fail("a lone put failed")
			}
			s.m[i][k] = v
		})
	}
	for _, k := range []int{1, 4} {
		add(name("put-abort", k), func(s *session, i int) {
			op, _ := s.prepareUpdate(s.t[i], k, i)
			s.closed(op)
			op.Abort()
		})
	}
	for _, k := range []int{0, 1} {
		add(name("del", k), func(s *session, i int) {
			found, op := s.t[i].PrepareDelete([]byte(s.u.Keys[k]))
			if !found {
				s.note("nothing")
				if _, ok := s.m[i][k]; ok {
					s.x.Fail("delete found nothing")
				}
				return
			}
			s.opened(op, "delete")
			if len(op.FetchedKey) > 0 {
				s.note("fetched %q", op.FetchedKey)
			}
			s.note("del found %#x", op.Value)
			_ = op.String()
			op.FetchedKey = s.u.fetch(op.FetchedKey, op.Value)
			s.closed(op)
			if string(op.FetchedKey) != s.u.Keys[k] {
				op.Abort()
				return
			}
			if op.Value != s.m[i][k] {
				s.x.Fail("delete found %#x; stored: %#x", op.Value, s.m[i][k])
			}
			if !op.Finalize() {
				s.x.Fail("a lone delete failed")
			}
			delete(s.m[i], k)
		})
	}
	add("del-abort", func(s *session, i int) {
		found, op := s.t[i].PrepareDelete([]byte(s.u.Keys[2]))
		s.note("del %v", found)
		if found {
			s.opened(op, "delete")
			s.note("%#x", op.Value)
			op.FetchedKey = s.u.fetch(op.FetchedKey, op.Value)
			s.closed(op)
			op.Abort()
		}
	})
	for _, p := range []string{"", "prefix-"} {
		add("iterate"+p, func(s *session, i int) {
			it := s.t[i].NewIterator([]byte(p))
			s.opened(it, "iterator")
			var got []uint64
			for it.Next() && len(got) < 20 {
				got = append(got, it.Value())
			}
			s.closed(it)
			it.Close()
			s.note("%x", got)
			verifyIteration(s.x, s.u, s.m[i], p, got, "iteration")
		})
	}
	as = append(as,
		handleAct{name: "open", sets: "it", f: func(s *session, i int) {
			s.it[i] = s.t[i].NewIterator([]byte("p"))
			s.opened(s.it[i], "iterator")
			for n := 0; n < 2; n++ {
				if s.it[i].Next() {
					s.note("%#x", s.it[i].Value())
				}
			}
		}},
		handleAct{name: "step", sets: "-it", f: func(s *session, i int) {
			for n := 0; n < 2; n++ {
				if s.it[i].Next() {
					s.note("%#x", s.it[i].Value())
				} else {
					s.note("end")
				}
			}
		}},
		handleAct{name: "reset", sets: "-it", f: func(s *session, i int) {
			s.it[i].Reset(nil)
			var got []uint64
			for n := 0; n < 4 && s.it[i].Next(); n++ {
				got = append(got, s.it[i].Value())
			}
			want := s.m[i].sorted(s.u, "")
			if len(want) > 4 {
				want = want[:4]
			}
			s.note("%x", got)
			if !equal(got, want) {
				s.x.Fail("a reset iterator returns %s, stored: %s", s.u.show(got), s.u.show(want))
			}
		}},
		handleAct{name: "close", ends: "it", f: func(s *session, i int) {
			s.closed(s.it[i])
			s.it[i].Close()
			s.it[i] = nil
		}},
		handleAct{name: "prepare", sets: "up", f: func(s *session, i int) {
			k := 2
			s.upA[i], s.upK[i] = s.t[i].GetAllocator(), k
			s.up[i], _ = s.prepareUpdate(s.upA[i], k, i)
		}},
		handleAct{name: "finish", ends: "up", f: func(s *session, i int) {
			s.ver++
			v := s.u.val(s.upK[i], s.ver)
			was, had := s.m[i][s.upK[i]]
			match, val := s.up[i].Match, s.up[i].Value
			s.closed(s.up[i])
			ok := s.up[i].Finalize(v)
			s.note("finish %v", ok)
			if !ok || had != match || had && was != val {
				s.x.Fail("an update prepared with %v %#x and finished with %v, while %v %#x is stored", match, val, ok, had, was)
			}
			if ok {
				s.m[i][s.upK[i]] = v
			}
			s.t[i].ReleaseAllocator(s.upA[i])
			s.up[i] = nil
		}},
		handleAct{name: "giveup", ends: "up", f: func(s *session, i int) {
			s.closed(s.up[i])
			s.up[i].Abort()
			s.t[i].ReleaseAllocator(s.upA[i])
			s.up[i] = nil
		}},
	)
	for _, p := range []string{"", "prefix-", "q"} {
		add("count"+p, func(s *session, i int) {
			if s.ctr[i] == nil {
				s.ctr[i] = radix.NewCounter(s.t[i])
			}
			one := func(c *radix.Counter) string {
				n, l := c.Count([]byte(p))
				return fmt.Sprint(n, l, c.NodesWithPrefix, c.TotalPrefixLength, c.TotalPrefixBytes, c.LargePrefixes, c.NodeSizes)
			}
			a, b := one(s.ctr[i]), one(radix.NewCounter(s.t[i]))
			if a != b {
				s.x.Fail("a used counter reports %s, a new one %s", a, b)
			}
			s.note("%s", a)
		})
	}
	return
}

// handleTasks: every sequence of uses of handles, with pooled handles and with new ones, gives the same results.
func handleTasks(thorough bool) (ts []Task) {
	n := pick(thorough, 4, 3)
	keys := []string{"prefix-aa", "prefix-ab", "pq", "z", "prefix-" + rep("L", 20), "prefix-" + rep("M", 20)}
	prefixFree(keys)
	starts := [][]int{{}, {2}, {0, 1, 2, 3}, {0, 1, 2, 3, 4, 5}}
	hs := handleActs(len(keys))
	type step struct{ a, i int }
	var steps []step
	for i := 0; i < 2; i++ {
		for a := range hs {
			steps = append(steps, step{a, i})
		}
	}
	run := func(x *vs.Exec, c *Ctx, start int, idx []int) string {
		u := newU(x, keys)
		s := &session{x: x, u: u, own: map[any]bool{}, ver: 10}
		for i := range s.t {
			s.t[i] = newTree(4)
			s.m[i] = model{}
			for _, k := range starts[(start+i)%len(starts)] {
				s.m[i][k] = u.val(k, 1+i)
				u.put(s.t[i], k, s.m[i][k])
			}
		}
		for _, j := range idx {
			hs[steps[j].a].f(s, steps[j].i)
		}
		for i := range s.t {
			if s.it[i] != nil {
				s.closed(s.it[i])
				s.it[i].Close()
			}
			if s.up[i] != nil {
				s.closed(s.up[i])
				s.up[i].Abort()
				s.t[i].ReleaseAllocator(s.upA[i])
			}
		}
		for i := range s.t {
			checkContents(x, s.t[i], u, s.m[i])
			checkIteration(x, s.t[i], u, s.m[i], "")
			if l := s.t[i].Len(); l != len(s.m[i]) {
				x.Fail("Len = %d, stored: %d keys", l, len(s.m[i]))
			}
		}
		return s.log.String()
	}
	for _, variant := range []string{"i2", "wie"} {
		for start := range starts {
			for first := range steps {
				if steps[first].i == 1 && !thorough && false {
					continue
				}
				if hs[steps[first].a].ends != "" || strings.HasPrefix(hs[steps[first].a].sets, "-") {
					continue
				}
				ts = append(ts, Task{ID: name("handles", variant, start, hs[steps[first].a].name, steps[first].i), Variant: variant, Run: func(c *Ctx) {
					length := n
					if variant == "wie" {
						length--
					}
					seqs(len(steps), length, first, func(idx []int) {
						open := map[string]bool{}
						for _, j := range idx {
							h := hs[steps[j].a]
							slot := func(s string) string { return fmt.Sprint(s, steps[j].i) }
							switch {
							case h.write && open[slot("up")]:
								return
							case strings.HasPrefix(h.sets, "-"):
								if !open[slot(h.sets[1:])] {
									return
								}
							case h.sets != "":
								if open[slot(h.sets)] {
									return
								}
								open[slot(h.sets)] = true
							case h.ends != "":
								if !open[slot(h.ends)] {
									return
								}
								delete(open, slot(h.ends))
							}
						}
						if c.Stop() {
							return
						}
						var sub []string
						for _, j := range idx {
							sub = append(sub, fmt.Sprint(hs[steps[j].a].name, "@", steps[j].i))
						}
						id := strings.Join(sub, " ")
						var fresh string
						if !c.Seq("fresh "+id, vs.Config{PoolFresh: true}, func(x *vs.Exec) { fresh = run(x, c, start, idx) }) {
							return
						}
						c.Seq(id, vs.Config{}, func(x *vs.Exec) {
							if c.replay != nil {
								fresh = "" // compared below with a run of its own when replayed
							}
							got := run(x, c, start, idx)
							if fresh != "" && got != fresh {
								x.Fail("with recycled handles:\n  %s\nwith new ones:\n  %s", got, fresh)
							}
						})
						c.res.Counters.States++
						c.res.Counters.Checks++
					})
					c.Sample("every sequence of %d uses of handles on two indexes beginning with %s, pooled against new", length, hs[steps[first].a].name)
				}})
			}
		}
	}
	return
}

// sharedTasks: clients whose handles come from one shared pool, on one index or two.
func sharedTasks(thorough bool) (ts []Task) {
	keys := []string{"aa", "ab", "b"}
	for _, s := range []concShape{{name: "nest", keys: keys, masks: []int{0, 1, 3, 7}}, {name: "w4", keys: []string{"a", "b", "c", "d"}, variant: "w4", masks: []int{7, 15}}} {
		for _, mask := range s.starts() {
			as := poolActs(s.keys)
			for i := range as {
				for _, two := range []bool{false, true} {
					ts = append(ts, Task{ID: name("shared", s.name, fmt.Sprintf("%b", mask), i, two), Variant: s.variant, Run: func(c *Ctx) {
						for j := i; j < len(as); j++ {
							for k := -1; k < len(as); k += pick(thorough, 1, pick(s.variant == "", 3, len(as))) {
								if c.Stop() {
									return
								}
								// client 0 does as[i] and then, if given, as[k]; client 1 does as[j]
								opt := vs.Options{}
								if s.variant != "" || k >= 0 {
									opt = vs.Options{Mode: "pb", Bound: pick(thorough, 2, 1)}
								}
								c.Explore(name(as[i].name, as[j].name, k), vs.Config{PoolShared: true}, opt, func(x *vs.Exec) {
									sh := s.shape(mask)
									var t [2]*radix.Tree
									var m [2]model
									var rec [2]*recorder
									var u *Universe
									for n := range t {
										if n == 1 && !two {
											t[1], m[1], rec[1] = t[0], m[0], rec[0]
											break
										}
										var allocs []*radix.Allocator
										t[n], u, m[n], allocs = sh.build(x, 2, 0)
										for _, a := range allocs {
											t[n].ReleaseAllocator(a)
										}
										rec[n] = &recorder{x: x, u: u, vals: map[uint64]bool{}}
										for _, v := range m[n] {
											rec[n].vals[v] = true
										}
									}
									x.Go("client0", func() {
										as[i].f(rec[0], t[0], t[0], 10)
										if k >= 0 {
											as[k].f(rec[0], t[0], t[0], 11)
										}
									})
									x.Go("client1", func() { as[j].f(rec[1], t[1], t[1], 12) })
									x.Explore()
									for n := range t {
										if n == 1 && !two {
											break
										}
										for k := range u.Keys {
											rec[n].do(t[n], 'g', k, 0)
										}
										checkLinearizable(x, u, m[n], rec[n].h)
									}
									c.res.Counters.Checks++
								})
							}
						}
						c.Sample("%s beside every other use of a pooled handle, on two indexes: %v", as[i].name, two)
					}})
				}
			}
		}
	}
	return
}

// poolActs use pooled handles, and check what they see as far as others cannot change it.
func poolActs(keys []string) (as []act) {
	for _, o := range append(opsOf(2, "pdab"), cop{'A', 0}, cop{'i', 1}, cop{'x', 0}, cop{'p', len(keys) - 1}, cop{'d', len(keys) - 1}) {
		as = append(as, act{o.String(), false, func(r *recorder, t *radix.Tree, cl client, ver int) { r.do(cl, o.kind, o.key, r.u.val(o.key, ver)) }})
	}
	for _, p := range []string{"", "a"} {
		as = append(as, act{"iterate" + p, true, func(r *recorder, t *radix.Tree, cl client, ver int) {
			it := t.NewIterator([]byte(p))
			last := -1
			for it.Next() {
				v := it.Value()
				r.stored("the iterator", v)
				k, _ := r.u.keyOf(v)
				if k <= last {
					r.x.Fail("the iteration returns key %d after key %d", k, last)
				}
				last = k
			}
			it.Close()
		}})
	}
	as = append(as, act{"half", true, func(r *recorder, t *radix.Tree, cl client, ver int) {
		it := t.NewIterator(nil)
		if it.Next() {
			r.stored("the iterator", it.Value())
		}
		it.Close()
	}})
	return
}

func init() {
	props["C21"] = func(thorough bool) (ts []Task) {
		ts = append(ts, handleTasks(thorough)...)
		ts = append(ts, sharedTasks(thorough)...)
		return
	}
}
