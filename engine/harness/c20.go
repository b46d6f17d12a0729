package main

import (
	"bytes"
	"fmt"

	"github.com/jayloop/radix"
	"vs"
)

// closeTasks: Close against every schedule of the index's goroutine and of clients finishing their work.
func closeTasks(thorough bool) (ts []Task) {
	keys := []string{"a", "b", "cc", "cd"}
	type cs struct {
		name string
		prep func(x *vs.Exec, u *Universe, m model) *radix.Tree // before exploring; nil: the closer creates the index
	}
	fill := func(t *radix.Tree, u *Universe, m model, n int) {
		for k := 0; k < n; k++ {
			m[k] = u.val(k, 1)
			u.put(t, k, m[k])
		}
	}
	states := func(allocs int) []cs {
		return []cs{
			{"fresh", nil},
			{"new", func(x *vs.Exec, u *Universe, m model) *radix.Tree { return newTree(allocs) }},
			{"started", func(x *vs.Exec, u *Universe, m model) *radix.Tree { t := newTree(allocs); x.Quiesce(); return t }},
			{"used", func(x *vs.Exec, u *Universe, m model) *radix.Tree { t := newTree(allocs); fill(t, u, m, 4); return t }},
			{"emptied", func(x *vs.Exec, u *Universe, m model) *radix.Tree {
				t := newTree(allocs)
				fill(t, u, m, 3)
				for k := 0; k < 3; k++ {
					u.del(t, k)
					delete(m, k)
				}
				return t
			}},
			{"large", func(x *vs.Exec, u *Universe, m model) *radix.Tree {
				t := newTree(allocs)
				w := &Universe{Fail: x.Fail}
				for i := 0; i < 40; i++ {
					w.Keys = append(w.Keys, string([]byte{0xf0, byte(i)}))
					w.put(t, i, w.val(i, 1))
				}
				for i := 0; i < 40; i++ {
					w.del(t, i)
				}
				fill(t, u, m, 4)
				return t
			}},
			{"loaded", func(x *vs.Exec, u *Universe, m model) *radix.Tree {
				t := newTree(allocs)
				fill(t, u, m, 4)
				t.Stop()
				b := save(x, t)
				t.Close()
				x.Quiesce()
				if n := x.LiveGoroutines(); n != 0 {
					x.Fail("closing a stopped and saved index leaves %d goroutines", n)
				}
				return load(x, b)
			}},
			{"loaded-used", func(x *vs.Exec, u *Universe, m model) *radix.Tree {
				t := newTree(allocs)
				fill(t, u, m, 2)
				t.Stop()
				b := save(x, t)
				t.Close()
				t = load(x, b)
				x.Quiesce()
				fill(t, u, m, 4)
				return t
			}},
			{"stopped", func(x *vs.Exec, u *Universe, m model) *radix.Tree {
				t := newTree(allocs)
				fill(t, u, m, 3)
				t.Stop()
				return t
			}},
			{"stopped-new", func(x *vs.Exec, u *Universe, m model) *radix.Tree { t := newTree(allocs); t.Stop(); return t }},
			{"restarted", func(x *vs.Exec, u *Universe, m model) *radix.Tree {
				t := newTree(allocs)
				fill(t, u, m, 3)
				t.Stop()
				t.Start()
				return t
			}},
			{"saved", func(x *vs.Exec, u *Universe, m model) *radix.Tree {
				t := newTree(allocs)
				fill(t, u, m, 3)
				t.Stop()
				var b bytes.Buffer
				t.WriteState(&b)
				t.Start()
				return t
			}},
		}
	}
	for allocs := 1; allocs <= 3; allocs++ {
		for si, s := range states(allocs) {
			for _, last := range []bool{false, true} {
				// alone
				ts = append(ts, Task{ID: name("alone", s.name, allocs, last), Run: func(c *Ctx) {
					for _, before := range []string{"", "stop", "stop-start", "len", "put", "save"} {
						opt := vs.Options{}
						if s.name == "large" && before == "save" && !thorough {
							opt = vs.Options{Mode: "delay", Bound: 2}
						}
						c.Explore(name("close", before), vs.Config{NumCPU: 1, SelectLast: last, PoolShared: true}, opt, func(x *vs.Exec) {
							u := newU(x, keys)
							m := model{}
							s := states(allocs)[si]
							var t *radix.Tree
							if s.prep != nil {
								t = s.prep(x, u, m)
							}
							done := false
							x.Go("closer", func() {
								if t == nil {
									t = newTree(allocs)
								}
								switch before {
								case "stop":
									t.Stop()
								case "stop-start":
									t.Stop()
									t.Start()
								case "len":
									t.Len()
								case "put":
									if s.name != "stopped" && s.name != "stopped-new" {
										u.put(t, 0, u.val(0, 9))
									}
								case "save":
									t.Stop()
									save(x, t)
								}
								t.Close()
								done = true
							})
							x.Explore()
							if !done {
								x.Fail("Close did not return")
							}
							x.Quiesce()
							if n := x.LiveGoroutines(); n != 0 {
								x.Fail("%d goroutines are left after Close", n)
							}
							c.res.Counters.Checks++
						})
					}
					c.Sample("%s index with %d allocators closed, all schedules", s.name, allocs)
				}})
				// beside clients
				if s.prep == nil || s.name == "stopped" || s.name == "stopped-new" {
					continue
				}
				as := closeActs(keys)
				for i := range as {
					ts = append(ts, Task{ID: name("clients", s.name, allocs, last, as[i].name), Run: func(c *Ctx) {
						for j := -1; j <= i; j++ {
							if j >= 0 && (allocs != 2 && !thorough || s.name != "used" && s.name != "large" && !thorough || !thorough && as[i].name == "many") {
								continue
							}
							if c.Stop() {
								return
							}
							opt := vs.Options{}
							if j >= 0 || as[i].name == "many" {
								opt = vs.Options{Mode: "pb", Bound: pick(thorough, 2, 1)}
							}
							run := []act{as[i]}
							id := as[i].name
							if j >= 0 {
								run = append(run, as[j])
								id = name(as[i].name, as[j].name)
							}
							c.Explore(id, vs.Config{NumCPU: 1, SelectLast: last}, opt, func(x *vs.Exec) {
								u := newU(x, keys)
								m := model{}
								t := states(allocs)[si].prep(x, u, m)
								rec := &recorder{x: x, u: u, vals: map[uint64]bool{}}
								for _, v := range m {
									rec.vals[v] = true
								}
								busy, finished := 0, false
								// clients begin before the index is closed: each announces itself once it holds an allocator
								begun := make([]bool, len(run))
								for n, a := range run {
									al := (*radix.Allocator)(nil)
									if n < allocs {
										al = t.GetAllocator() // reserved before Close is called
										begun[n] = true
										busy++
									}
									x.Go(fmt.Sprint("client", n, a.name), func() {
										if al == nil {
											return
										}
										a.f(rec, t, al, 10+n)
										busy--
										t.ReleaseAllocator(al)
									})
								}
								x.Go("closer", func() {
									t.Close()
									finished = true
									if busy > 0 {
										x.Fail("Close returned while %d clients were working", busy)
									}
								})
								x.Explore()
								if !finished {
									x.Fail("Close did not return")
								}
								x.Quiesce()
								if n := x.LiveGoroutines(); n != 0 {
									x.Fail("%d goroutines are left after Close", n)
								}
								checkLinearizable(x, u, m, rec.h)
								c.res.Counters.Checks++
							})
						}
						c.Sample("%s index closed beside clients that finish their operations", s.name)
					}})
				}
			}
		}
	}
	// Close beside operations through the tree that may come too late: those that began return or wait, none is torn
	for _, last := range []bool{false, true} {
		for allocs := 1; allocs <= 2; allocs++ {
			ts = append(ts, Task{ID: name("prepared", allocs, last), Run: func(c *Ctx) {
				for _, o := range opsOf(4, "pdab") {
					for _, base := range [][]int{{}, {0}, {0, 1, 2, 3}} {
						c.Explore(name(o, base), vs.Config{SelectLast: last}, vs.Options{}, func(x *vs.Exec) {
							u := newU(x, keys)
							t := newTree(allocs)
							m := model{}
							for _, k := range base {
								m[k] = u.val(k, 1)
								u.put(t, k, m[k])
							}
							// prepared before Close is called, finished beside it
							open := true
							var fin func()
							key := []byte(u.Keys[o.key])
							if o.kind == 'p' || o.kind == 'a' {
								found, op := t.PrepareUpdate(key)
								if found {
									op.FetchedKey = u.fetch(op.FetchedKey, op.Value)
									op.Match = bytes.Equal(op.FetchedKey, key)
								}
								fin = func() {
									if o.kind == 'a' {
										op.Abort()
									} else {
										op.Finalize(u.val(o.key, 7))
									}
								}
							} else if found, op := t.PrepareDelete(key); found {
								op.FetchedKey = u.fetch(op.FetchedKey, op.Value)
								same := bytes.Equal(op.FetchedKey, key)
								fin = func() {
									if o.kind == 'b' || !same {
										op.Abort()
									} else {
										op.Finalize()
									}
								}
							} else {
								open = false
							}
							x.Go("client", func() {
								if fin != nil {
									open = false
									fin()
								}
							})
							x.Go("closer", func() {
								t.Close()
								if open {
									x.Fail("Close returned although an operation is prepared")
								}
							})
							x.Explore()
							x.Quiesce()
							if n := x.LiveGoroutines(); n != 0 {
								x.Fail("%d goroutines are left after Close", n)
							}
							c.res.Counters.Checks++
						})
					}
				}
				c.Sample("Close while an operation is prepared, %d allocators", allocs)
			}})
		}
	}
	// two indexes
	for _, last := range []bool{false, true} {
		for first := 0; first < 2; first++ {
			ts = append(ts, Task{ID: name("others", first, last), Run: func(c *Ctx) {
				as := closeActs(keys)
				for _, a := range append(as, act{"close", true, func(r *recorder, t *radix.Tree, cl client, ver int) { t.Close() }}) {
					for _, kind := range []string{"new", "used", "loaded"} {
						if c.Stop() {
							return
						}
						c.Explore(name(a.name, kind), vs.Config{NumCPU: 1, SelectLast: last, PoolShared: true}, vs.Options{}, func(x *vs.Exec) {
							var t [2]*radix.Tree
							var m [2]model
							u := newU(x, keys)
							for i := range t {
								m[i] = model{}
								t[i] = newTree(1)
								if kind != "new" {
									fill(t[i], u, m[i], 3+i)
								}
								if kind == "loaded" {
									t[i].Stop()
									b := save(x, t[i])
									t[i].Close()
									t[i] = load(x, b)
								}
							}
							rec := &recorder{x: x, u: u, vals: map[uint64]bool{}}
							other := 1 - first
							for _, v := range m[other] {
								rec.vals[v] = true
							}
							x.Go("closer", func() { t[first].Close() })
							x.Go("client", func() { a.f(rec, t[other], t[other], 10) })
							x.Explore()
							x.Quiesce()
							if a.name == "close" {
								if n := x.LiveGoroutines(); n != 0 {
									x.Fail("%d goroutines are left after both indexes are closed", n)
								}
								return
							}
							if n := x.LiveGoroutines(); n != 1 {
								x.Fail("%d goroutines are left, one index of two is open", n)
							}
							checkLinearizable(x, u, m[other], rec.h)
							now := model{}
							for k := range u.Keys {
								if v, ok, _, _ := u.get(t[other], k); ok {
									now[k] = v
								}
							}
							e := &env{c: c, x: x, t: t[other], u: u, m: now, cl: t[other], n: len(u.Keys), ver: 50}
							exercise(e, 1)
							t[other].Close()
							x.Quiesce()
							if n := x.LiveGoroutines(); n != 0 {
								x.Fail("%d goroutines are left after both indexes are closed", n)
							}
							c.res.Counters.Checks++
						})
					}
				}
				c.Sample("one index closed while another is in use")
			}})
		}
	}
	return
}

func closeActs(keys []string) []act {
	var as []act
	for _, a := range acts(keys, "pdag", []string{"c"}) {
		switch a.name {
		case "len", "stop-start", "stop-save-start", "admin", "iteratec", "countc", "minc", "maxc":
			// through the tree: these could find the index closed
			continue
		}
		as = append(as, a)
	}
	// enough work to need new blocks
	as = append(as, act{"many", false, func(r *recorder, t *radix.Tree, cl client, ver int) {
		u := &Universe{Fail: r.x.Fail}
		for i := 0; i < 14; i++ {
			u.Keys = append(u.Keys, string([]byte{0xf8, byte(i)}))
			u.put(cl, i, u.val(i, 1))
		}
		for i := range u.Keys {
			u.del(cl, i)
		}
	}})
	return as
}

func init() {
	props["C20"] = closeTasks
}
