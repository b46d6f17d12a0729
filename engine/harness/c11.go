package main

import (
	"fmt"

	"github.com/jayloop/radix"
	"vs"
)

// a read of any kind beside writers
type reader struct {
	name string
	f    func(r *recorder, t *radix.Tree, a client)
}

func (r *recorder) stored(what string, v uint64) {
	if !r.vals[v] {
		r.x.Fail("%s returned %#x, which nobody stored", what, v)
	}
}

func readersOf(keys []string, prefixes []string) (rs []reader) {
	for k := range keys {
		rs = append(rs, reader{name("get", k), func(r *recorder, t *radix.Tree, a client) { r.do(a, 'g', k, 0) }})
	}
	for _, p := range prefixes {
		key := []byte(p)
		rs = append(rs,
			reader{fmt.Sprintf("min%q", p), func(r *recorder, t *radix.Tree, a client) {
				if v, ok := t.MinKey(key); ok {
					r.stored("MinKey", v)
				}
			}},
			reader{fmt.Sprintf("max%q", p), func(r *recorder, t *radix.Tree, a client) {
				if v, ok := t.MaxKey(key); ok {
					r.stored("MaxKey", v)
				}
			}},
			reader{fmt.Sprintf("count%q", p), func(r *recorder, t *radix.Tree, a client) {
				if _, l := radix.NewCounter(t).Count(key); l > len(keys)+1 {
					r.x.Fail("Count found %d leaves, there are %d keys", l, len(keys))
				}
			}},
			reader{fmt.Sprintf("iterate%q", p), func(r *recorder, t *radix.Tree, a client) {
				it := t.NewIterator(key)
				for n := 0; it.Next(); n++ {
					r.stored("the iterator", it.Value())
					if n > 3*len(keys) {
						r.x.Fail("the iteration does not end")
					}
				}
				it.Close()
			}},
		)
	}
	return
}

type lifeSpace struct {
	name     string
	variant  string
	keys     []string
	base     []int
	prefixes []string
	phases   []int
	n        int
}

func lifeSpaces(thorough bool) []lifeSpace {
	return []lifeSpace{
		{"flat", "e3", []string{"a", "b", "c"}, []int{0, 1}, []string{""}, pick(thorough, []int{0, 1, 2}, []int{0, 2}), 3},
		{"nest", "e3", []string{"ka", "kb", "l"}, []int{0, 1, 2}, pick(thorough, []string{"", "k"}, []string{"k"}), pick(thorough, []int{0, 2}, []int{2}), 3},
		{"path", "e3", []string{"xy-long-path-za", "xy-long-path-zb", "xq"}, []int{0, 1}, pick(thorough, []string{"", "xy-l"}, []string{"xy-l"}), []int{1}, 3},
		{"wide", "wie", []string{"ka", "kb", "kc", "kd"}, []int{0, 1, 2}, []string{"k"}, []int{2}, 2},
		{"below", "wie", []string{"ka1", "ka2", "kb", "kc", "kd"}, []int{0, 1, 2, 3, 4}, []string{""}, []int{1}, 1},
	}
}

// lifeTasks: each kind of read (and, as a reader of the tree, each kind of write) beside a writer whose sequences of
// operations retire nodes, move the epoch and allocate again.
func lifeTasks(thorough bool) (ts []Task) {
	for _, s := range lifeSpaces(thorough) {
		if thorough {
			s.n++
		}
		rs := readersOf(s.keys, s.prefixes)
		for i, o := range opsOf(len(s.keys), "pd") {
			if !thorough && i > 1 {
				break
			}
			rs = append(rs, reader{name("write", o), func(r *recorder, t *radix.Tree, a client) { r.do(a, o.kind, o.key, r.u.val(o.key, 500+i)) }})
		}
		prefixFree(s.keys)
		for ri, rd := range rs {
			for _, phase := range s.phases {
				ts = append(ts, Task{ID: name("life", s.name, rd.name, phase), Variant: s.variant, Run: func(c *Ctx) {
					ops := opsOf(len(s.keys), "pd")
					for first := range ops {
						seqs(len(ops), s.n, first, func(idx []int) {
							if idle(s.base, ops, idx) || c.Stop() {
								return
							}
							opt := vs.Options{Mode: "pb", Bound: 1}
							c.life(name(phase, idx), opt, s.keys, s.base, phase, rs[ri], idx, ops)
						})
					}
					c.Sample("%s beside every sequence of %d operations on %v", rd.name, s.n, s.keys)
				}})
			}
			// one long churn under more preemptions
			ts = append(ts, Task{ID: name("churn", s.name, rd.name), Variant: s.variant, Run: func(c *Ctx) {
				ops := opsOf(len(s.keys), "pd")
				for _, pat := range [][]int{{0, 2, 1, 0, 3, 2}, {2, 3, 2, 3, 2, 3}, {0, 1, 0, 1, 0, 1}, {4, 5, 1, 0, 4, 5}} {
					b := 2
					c.life(name(pat), vs.Options{Mode: "pb", Bound: b, MaxExecs: pick(thorough, int64(200000), 10000)}, s.keys, s.base, 2, rs[ri], pat, ops)
				}
				c.Sample("%s beside a churn of 6 operations on %v, all schedules of up to 2 preemptions", rd.name, s.keys)
			}})
		}
	}
	return
}

// windowTasks: a read beside a writer with empty free lists where every retired node moves the epoch, so that a reader
// that begins inside an operation may still find what that operation retires and the next one reuses.
func windowTasks(thorough bool) (ts []Task) {
	for _, s := range []lifeSpace{
		{"flat", "e1", []string{"a", "b", "c"}, []int{0, 1, 2}, []string{""}, nil, 2},
		{"nest", "e1", []string{"ka", "kb", "l"}, []int{0, 1, 2}, []string{"k"}, nil, 2},
		{"merge", "e1", []string{"kxa", "kxb", "ky", "l"}, []int{0, 1, 2, 3}, []string{"k"}, nil, 2},
	} {
		if thorough {
			s.n++
		}
		rs := readersOf(s.keys, s.prefixes)
		if !thorough {
			rs = []reader{rs[0], rs[len(s.keys)-1], rs[len(s.keys)]}
		}
		for _, rd := range rs {
			ts = append(ts, Task{ID: name("window", s.name, rd.name), Variant: s.variant, Run: func(c *Ctx) {
				ops := opsOf(len(s.keys), "pd")
				for first, o := range ops {
					if !thorough && (o.kind == 'p' || o.key == 1) {
						continue
					}
					seqs(len(ops), s.n, first, func(idx []int) {
						if idle(s.base, ops, idx) || c.Stop() {
							return
						}
						c.life(name(idx), vs.Options{Mode: "pb", Bound: 2, MaxExecs: 50000}, s.keys, s.base, -1, rd, idx, ops)
					})
				}
				c.Sample("%s beside every %d operations on %v, all schedules of up to 2 preemptions", rd.name, s.n, s.keys)
			}})
		}
	}
	return
}

// handoverTasks: two clients that share the only free allocator one after the other, beside a writer with its own. What
// the first one still does after handing the allocator over must not take away what protects the second one's read.
func handoverTasks(thorough bool) (ts []Task) {
	for _, s := range []lifeSpace{
		{"flat", "e1", []string{"a", "b", "c"}, []int{0, 1, 2}, []string{""}, nil, 2},
		{"nest", "e1", []string{"ka", "kb", "l"}, []int{0, 1, 2}, []string{"k"}, nil, 2},
	} {
		prefixFree(s.keys)
		seconds := readersOf(s.keys, s.prefixes)
		seconds = seconds[len(s.keys)-1:]
		firsts := append(seconds[:len(seconds):len(seconds)],
			reader{"put", func(r *recorder, t *radix.Tree, a client) { r.do(t, 'p', 1, r.u.val(1, 500)) }},
			reader{"del", func(r *recorder, t *radix.Tree, a client) { r.do(t, 'd', 1, 0) }},
			reader{"abort-put", func(r *recorder, t *radix.Tree, a client) {
				_, op := t.PrepareUpdate([]byte(r.u.Keys[1]))
				op.Abort()
			}},
			reader{"abort-del", func(r *recorder, t *radix.Tree, a client) {
				if _, op := t.PrepareDelete([]byte(r.u.Keys[1])); op != nil {
					op.Abort()
				}
			}})
		if !thorough {
			seconds = []reader{seconds[0], seconds[4]}
		}
		for _, a := range firsts {
			if !thorough && s.name == "nest" {
				break
			}
			for _, b := range seconds {
				ts = append(ts, Task{ID: name("handover", s.name, a.name, b.name), Variant: s.variant, Run: func(c *Ctx) {
					for _, pat := range [][]cop{
						{{'d', 2}, {'p', 2}},
						{{'d', 2}, {'p', 2}, {'d', 0}},
						{{'d', 0}, {'p', 0}, {'p', 0}},
						{{'d', 1}, {'d', 0}, {'p', 1}},
					}[:pick(thorough, 4, 1)] {
						if c.Stop() {
							return
						}
						c.Explore(histString(pat), vs.Config{}, vs.Options{Mode: "pb", Bound: 2, MaxExecs: 100000}, func(x *vs.Exec) {
							u := newU(x, s.keys)
							t := newTree(2)
							x.Quiesce()
							w := t.GetAllocator()
							m := model{}
							rec := &recorder{x: x, u: u, vals: map[uint64]bool{}}
							for k := range s.keys {
								m[k] = u.val(k, 1)
								u.put(w, k, m[k])
								rec.vals[m[k]] = true
							}
							x.Go("first", func() { a.f(rec, t, t) })
							x.Go("second", func() { b.f(rec, t, t) })
							x.GoWhole("writer", func() {
								for j, o := range pat {
									rec.do(w, o.kind, o.key, u.val(o.key, 100+j))
								}
							})
							x.Explore()
							for k := range s.keys {
								rec.do(t, 'g', k, 0)
							}
							for _, o := range rec.h {
								x.Note("%s", o.show(u))
							}
							checkLinearizable(x, u, m, rec.h)
							c.res.Counters.Checks++
						})
					}
					c.Sample("%s, then %s with the same allocator, beside a writer, all schedules of up to 2 preemptions", a.name, b.name)
				}})
			}
		}
	}
	return
}

func (c *Ctx) life(sub string, opt vs.Options, keys []string, base []int, phase int, rd reader, idx []int, ops []cop) {
	c.Explore(sub, vs.Config{}, opt, func(x *vs.Exec) {
		t, u, m, w, a := lifeStart(x, keys, base, phase)
		rec := &recorder{x: x, u: u, vals: map[uint64]bool{}}
		for _, v := range m {
			rec.vals[v] = true
		}
		x.Go("reader", func() { rd.f(rec, t, a) })
		x.Go("writer", func() {
			for j, i := range idx {
				o := ops[i]
				rec.do(w, o.kind, o.key, u.val(o.key, 100+j))
			}
		})
		x.Explore()
		for k := range keys {
			rec.do(t, 'g', k, 0)
		}
		for _, o := range rec.h {
			x.Note("%s", o.show(u))
		}
		checkLinearizable(x, u, m, rec.h)
		c.res.Counters.Checks++
	})
}

// idle: one of the operations deletes a key that is not stored.
func idle(base []int, ops []cop, idx []int) bool {
	has := map[int]bool{}
	for _, k := range base {
		has[k] = true
	}
	for _, i := range idx {
		if ops[i].kind == 'd' && !has[ops[i].key] {
			return true
		}
		has[ops[i].key] = ops[i].kind == 'p'
	}
	return false
}

// lifeStart is an index whose writer has used memory in its free lists, at some distance from the next epoch; with
// phase -1 its free lists are empty.
func lifeStart(x *vs.Exec, keys []string, base []int, phase int) (t *radix.Tree, u *Universe, m model, w, a *radix.Allocator) {
	u = newU(x, keys)
	t = newTree(3)
	x.Quiesce()
	w, a = t.GetAllocator(), t.GetAllocator()
	m = model{}
	if phase < 0 {
		for _, k := range base {
			m[k] = u.val(k, 1)
			u.put(a, k, m[k])
		}
		return
	}
	// used memory in the writer's free lists
	u.Keys = append(append([]string(nil), keys...), "~1", "~2", "~3")
	n := len(keys)
	for i := 0; i < 4; i++ {
		u.put(w, n+i%3, u.val(n+i%3, 1))
	}
	for _, k := range base {
		m[k] = u.val(k, 1)
		u.put(w, k, m[k])
	}
	for i := 0; i < 3; i++ {
		u.del(w, n+i)
	}
	for i := 0; i < phase; i++ {
		u.put(w, base[0], u.val(base[0], 2+i))
		m[base[0]] = u.val(base[0], 2+i)
		if i == 1 {
			u.put(w, n, u.val(n, 9))
			u.del(w, n)
		}
	}
	u.Keys = keys
	return
}

func init() {
	props["C11"] = func(thorough bool) []Task {
		return append(append(windowTasks(thorough), handoverTasks(thorough)...), lifeTasks(thorough)...)
	}
}
