package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/jayloop/radix"
	"vs"
)

// ---- helpers

// save stops an index and returns its state.
func save(x *vs.Exec, t *radix.Tree) []byte {
	t.Stop()
	var buf bytes.Buffer
	n, err := t.WriteState(&buf)
	if err != nil {
		x.Fail("WriteState: %v", err)
	}
	if n != buf.Len() {
		x.Fail("WriteState reported %d bytes and wrote %d", n, buf.Len())
	}
	return buf.Bytes()
}

func load(x *vs.Exec, b []byte) *radix.Tree {
	t, err := radix.NewTreeFromState(bytes.NewReader(b))
	if err != nil {
		x.Fail("NewTreeFromState: %v", err)
	}
	return t
}

// exercise changes every key of an index through every allocator, makes it use fresh memory, and compares throughout.
func exercise(e *env, allocators int) {
	full(e)
	n := len(e.u.Keys)
	var fill []int
	for i := 0; i < 24; i++ {
		e.u.Keys = append(e.u.Keys, fmt.Sprintf("~f%c%s", 'A'+i, "0123456789"[:i%10]))
		fill = append(fill, n+i)
	}
	var as []*radix.Allocator
	for i := 0; i < allocators; i++ {
		as = append(as, e.t.GetAllocator())
	}
	for i, k := range fill {
		e.cl = as[i%allocators]
		e.put(k)
		if i%6 == 0 {
			checkContents(e.x, e.cl, e.u, e.m)
		}
	}
	checkContents(e.x, e.cl, e.u, e.m)
	for k := 0; k < n; k++ {
		_, stored := e.m[k]
		e.cl = as[k%allocators]
		e.put(k)
		if !stored || k%2 == 1 {
			e.cl = as[(k+1)%allocators]
			e.del(k)
		}
	}
	checkContents(e.x, e.cl, e.u, e.m)
	for i, k := range fill {
		e.cl = as[(i/3)%allocators]
		e.del(k)
	}
	for _, a := range as {
		e.t.ReleaseAllocator(a)
	}
	e.u.Keys = e.u.Keys[:n]
	e.cl = e.t
	full(e)
}

// roundTrip saves, loads and exercises; the original goes on unharmed. It leaves e on the loaded index.
func roundTrip(e *env, allocators int) {
	b := save(e.x, e.t)
	e.x.Note("saved %d bytes", len(b))
	old := e.t
	old.Start()
	keep := e.m.clone()
	e.t = load(e.x, b)
	e.cl = e.t
	exercise(e, allocators)
	b2 := save(e.x, e.t)
	e.t.Start()
	e.t = load(e.x, b2)
	e.cl = e.t
	exercise(e, allocators)
	// the original
	o := &env{c: e.c, x: e.x, t: old, u: e.u, m: keep, cl: old, n: e.n, ver: e.ver}
	exercise(o, allocators)
}

// ---- C08

// saveHistTasks: every history through two allocators, then a round trip.
func saveHistTasks(thorough bool) (ts []Task) {
	for _, variant := range []string{"s10", "e3", "wie"} {
		keys := map[string][]string{
			"s10": {"aaa", "aab", "b"},
			"e3":  {"prefix-xa", "prefix-xb", "prefiQ"},
			"wie": {"pa", "pb", "q"},
		}[variant]
		base := map[string][]string{"wie": {"pc", "pd"}}[variant]
		for _, allocs := range []int{1, 2, 3} {
			type aop struct {
				cop
				by int
			}
			var ops []aop
			for by := 0; by < min(allocs, 2); by++ {
				for k := range keys {
					ops = append(ops, aop{cop{'p', k}, by}, aop{cop{'d', k}, by})
				}
			}
			depth := map[int]int{1: 4, 2: 3, 3: 2}[allocs]
			if thorough {
				depth++
			}
			for first := range ops {
				id := name("hist", variant, allocs, first)
				ts = append(ts, Task{ID: id, Variant: variant, Run: func(c *Ctx) {
					for _, pre := range []int{0, 10} {
						seqs(len(ops), depth, first, func(idx []int) {
							if c.Stop() {
								return
							}
							c.Seq(name(pre, idx), vs.Config{}, func(x *vs.Exec) {
								e := newEnvA(c, x, append(append([]string(nil), keys...), base...), allocs)
								for k := len(keys); k < len(e.u.Keys); k++ {
									e.put(k)
								}
								var as []*radix.Allocator
								for i := 0; i < allocs; i++ {
									as = append(as, e.t.GetAllocator())
								}
								for i := 0; i < pre; i++ { // recycled memory
									e.cl = as[i%allocs]
									e.put(i % len(keys))
									e.put((i + 1) % len(keys))
									e.del(i % len(keys))
								}
								for _, i := range idx {
									e.cl = as[ops[i].by]
									x.Note("%v by %d", ops[i].cop, ops[i].by)
									e.do(ops[i].cop)
								}
								for _, a := range as {
									e.t.ReleaseAllocator(a)
								}
								roundTrip(e, allocs)
							})
							c.res.Counters.States++
						})
					}
					c.Sample("%s, %d allocators: all histories of %d operations, then save, load, use, save, load, use", shortList(keys), allocs, depth)
				}})
			}
		}
	}
	return
}

// manySaveTasks: indexes with many allocators, and nodes whose prefix is about as long as a block or longer, so that a block
// of its own size holds them. Every allocator stores keys and frees memory before the first save.
func manySaveTasks(thorough bool) (ts []Task) {
	allocs, lens := []int{1, 2, 9, 10, 11, 12, 33}, []int{0, 9, 980, 996, 1004, 1012, 1020, 1021, 2100, 5000}
	if thorough {
		allocs = append(allocs, 8, 16, 64, 99, 100, 101)
		for l := 960; l < 1100; l++ {
			lens = append(lens, l)
		}
	}
	for _, a := range allocs {
		for _, l := range lens {
			ts = append(ts, Task{ID: name("many", a, l), Variant: "s10", Run: func(c *Ctx) {
				for cut := 0; cut <= 4; cut++ {
					if c.Stop() {
						return
					}
					c.Seq(name("many", a, l, cut), vs.Config{}, func(x *vs.Exec) {
						p := pathBytes(l, 3)
						var ks []string
						for i := 0; i < a+3; i++ {
							k := string([]byte{byte('0' + i/10), byte('0' + i%10)})
							if i < 4 {
								k = p[:l*i/4] + "\xaa\xbb" + k // 37*i is never the same byte here
							}
							ks = append(ks, k)
						}
						ks = append(ks, p+"\xcc1", p+"\xcc2")
						prefixFree(ks)
						e := newEnvA(c, x, ks, a)
						var as []*radix.Allocator
						for i := 0; i < a; i++ {
							as = append(as, e.t.GetAllocator())
						}
						for r := 0; r < 2; r++ {
							for k := range ks {
								e.cl = as[(k+r)%a]
								e.put(k)
							}
							for k := range ks {
								if r == 0 || k < cut {
									e.cl = as[(k+cut)%a]
									e.del(k)
								}
							}
						}
						for _, y := range as {
							e.t.ReleaseAllocator(y)
						}
						roundTrip(e, a)
					})
					c.res.Counters.States++
				}
				c.Sample("%d allocators, a shared prefix of %d bytes: save, load, use, save, load, use", a, l)
			}})
		}
	}
	return
}

// seqs calls f with every sequence of n numbers below k that starts with first.
func seqs(k, n, first int, f func(idx []int)) {
	idx := make([]int, n)
	idx[0] = first
	for {
		f(append([]int(nil), idx...))
		i := n - 1
		for ; i > 0; i-- {
			if idx[i]++; idx[i] < k {
				break
			}
			idx[i] = 0
		}
		if i == 0 {
			return
		}
	}
}

// chainTasks: histories in which the index is saved and loaded between operations.
func chainTasks(thorough bool) (ts []Task) {
	type sp struct {
		variant string
		keys    []string
		base    int
	}
	for _, s := range []sp{
		{"s10", []string{"aa", "ab", "b"}, 0},
		{"e3", []string{"prefix-xa", "prefix-xb", "prefiQ"}, 0},
		{"e3", []string{"aa", "ab", "b"}, 6},
		{"w4", []string{"a", "b", "c"}, 3},
		{"wie", []string{"a", "b", "pa"}, 3},
	} {
		ops := opsOf(len(s.keys), "pd")
		ops = append(ops, cop{'S', 0})
		depth := 5
		if thorough {
			depth = 6
		}
		for first := range ops {
			ts = append(ts, Task{ID: name("chain", s.variant, s.base, shortList(s.keys[:1]), first), Variant: s.variant, Run: func(c *Ctx) {
				seqs(len(ops), depth, first, func(idx []int) {
					saves := 0
					for i, o := range idx {
						if ops[o].kind == 'S' {
							saves++
							if i > 0 && ops[idx[i-1]].kind == 'S' && i > 1 {
								return
							}
						}
					}
					if saves == 0 || c.Stop() {
						return
					}
					c.Seq(name(idx), vs.Config{}, func(x *vs.Exec) {
						ks := append([]string(nil), s.keys...)
						for i := 0; i < s.base; i++ {
							ks = append(ks, string([]byte{byte('r' + i)})+"12"[:i%3])
						}
						e := newEnv(c, x, ks)
						for k := len(s.keys); k < len(ks); k++ {
							e.put(k)
						}
						for _, i := range idx {
							if ops[i].kind == 'S' {
								e.t = load(x, save(x, e.t))
								e.cl = e.t
								checkContents(x, e.cl, e.u, e.m)
								continue
							}
							x.Note("%v", ops[i])
							e.do(ops[i])
							checkContents(x, e.cl, e.u, e.m)
						}
						exercise(e, 1)
					})
					c.res.Counters.States++
				})
				c.Sample("%s: all histories of %d operations with saves and loads between them", shortList(s.keys), depth)
			}})
		}
	}
	return
}

// growTasks: a save at every fill level of the memory blocks.
func growTasks(thorough bool) (ts []Task) {
	gens := map[string]func(i int) string{
		"flat": func(i int) string { return string([]byte{byte(i * 37)}) + "-" },
		"deep": func(i int) string { return fmt.Sprintf("%s%c", rep("x", i%23), 'A'+i%26) + fmt.Sprint(i) + "." },
		"path": func(i int) string {
			return fmt.Sprintf("common-prefix-%02d/%s", i%7, pathBytes(i%40+2, i)) + fmt.Sprint("#", i)
		},
	}
	n := 100
	if thorough {
		n = 200
	}
	for _, variant := range []string{"s10", "s11", "e3", "w4"} {
		for _, g := range sortedKeys(gens) {
			for _, allocs := range []int{1, 2} {
				var ks []string
				for i := 0; i < n; i++ {
					ks = append(ks, gens[g](i))
				}
				prefixFree(ks)
				const chunk = 20
				for at := 0; at < n; at += chunk {
					ts = append(ts, Task{ID: name("grow", variant, g, allocs, at), Variant: variant, Run: func(c *Ctx) {
						for top := at; top < at+chunk; top++ {
							if c.Stop() {
								return
							}
							for del := 0; del < 2; del++ {
								c.Seq(name(top, del), vs.Config{}, func(x *vs.Exec) {
									e := newEnvA(c, x, ks, allocs)
									var as []*radix.Allocator
									for i := 0; i < allocs; i++ {
										as = append(as, e.t.GetAllocator())
									}
									for i := 0; i < top; i++ {
										e.cl = as[i%3%allocs]
										e.put(i)
										if del == 1 && i%3 == 2 {
											e.del(i - 1)
										}
									}
									for _, a := range as {
										e.t.ReleaseAllocator(a)
									}
									e.u.Keys = e.u.Keys[:top]
									roundTrip(e, allocs)
								})
								c.res.Counters.States++
							}
						}
						c.Sample("%s keys: saved after each of %d to %d inserts", g, at, at+chunk-1)
					}})
				}
			}
		}
	}
	return
}

// saveSchedTasks: all schedules of the workers of a save, and of the block allocator beside it.
func saveSchedTasks(thorough bool) (ts []Task) {
	for _, cpus := range []int{1, 2, 3} {
		for _, keys := range []int{0, 1, 12, 30, 45} { // about 1, 1, 2, 5, 9 blocks
			for _, last := range []bool{false, true} {
				if cpus == 3 && keys > 12 && !thorough {
					continue
				}
				ts = append(ts, Task{ID: name("workers", cpus, keys, last), Run: func(c *Ctx) {
					var ks []string
					for i := 0; i < keys; i++ {
						ks = append(ks, string([]byte{byte('!' + i)}))
					}
					opt := vs.Options{}
					if cpus*keys > 24 {
						opt = vs.Options{Mode: "delay", Bound: 2}
						if keys <= 30 {
							opt.Bound++
						}
						if thorough {
							opt.Bound++
						}
					}
					seen := map[string]bool{}
					c.Explore(name("all", cpus, keys), vs.Config{NumCPU: cpus, SelectLast: last, PoolShared: true}, opt, func(x *vs.Exec) {
						e := newEnv(c, x, ks)
						for k := range ks {
							e.put(k)
						}
						e.t.Stop()
						var buf bytes.Buffer
						var n int
						var err error
						x.Go("saver", func() { n, err = e.t.WriteState(&buf) })
						x.Explore()
						if err != nil || n != buf.Len() {
							x.Fail("WriteState reported %d bytes and %v, wrote %d", n, err, buf.Len())
						}
						x.Quiesce()
						if g := x.LiveGoroutines(); g > 1 {
							x.Fail("%d goroutines left after the save", g-1)
						}
						c.res.Counters.Checks++
						if seen[buf.String()] {
							return
						}
						e.t = load(x, buf.Bytes())
						e.cl = e.t
						checkContents(x, e.cl, e.u, e.m)
						exercise(e, 1)
						seen[buf.String()] = true
					})
					c.res.Counters.Outcomes += int64(len(seen))
					c.Sample("%d keys saved with %d workers, all schedules", keys, cpus)
				}})
			}
		}
	}
	// operations that need fresh memory just before the save; the block allocator may lag behind
	for _, last := range []bool{false, true} {
		for _, allocs := range []int{1, 2} {
			for pad := 0; pad < 30; pad++ {
				ts = append(ts, Task{ID: name("lag", allocs, pad, last), Run: func(c *Ctx) {
					for _, op := range []cop{{'p', 3}, {'p', 0}, {'d', 1}} {
						if c.Stop() {
							return
						}
						seen := map[string]bool{}
						c.Explore(name(op), vs.Config{NumCPU: 1, SelectLast: last}, vs.Options{}, func(x *vs.Exec) {
							ks := []string{"prefix-1", "prefix-2", "prefix-3", "prefix-4", "a", "b"}
							e := newEnvA(c, x, ks, allocs)
							if pad > 0 {
								for _, k := range []int{0, 1, 2, 4} {
									e.put(k)
								}
							}
							for i := 1; i < pad; i++ { // 3 + 2 words
								e.put(5)
								e.del(5)
							}
							var b []byte
							x.Go("client", func() {
								// through the last allocator
								var as []*radix.Allocator
								for i := 0; i < allocs; i++ {
									as = append(as, e.t.GetAllocator())
								}
								e.cl = as[allocs-1]
								e.do(op)
								for _, a := range as {
									e.t.ReleaseAllocator(a)
								}
								b = save(x, e.t)
							})
							x.Explore()
							c.res.Counters.Checks++
							if !seen[string(b)] {
								e.t = load(x, b)
								e.cl = e.t
								exercise(e, allocs)
								seen[string(b)] = true
							}
						})
					}
					c.Sample("an operation that may need a new block, Stop and WriteState against the block allocator, %d words in use", pad*5)
				}})
			}
		}
	}
	return
}

// cutTasks: clients work while another stops, saves and starts the index; the state is what was stored in between.
func cutTasks(thorough bool) (ts []Task) {
	for _, s := range []concShape{
		{name: "flat", keys: []string{"a", "b", "c"}},
		{name: "nest", keys: []string{"aa", "ab", "b"}},
	} {
		for _, mask := range s.starts() {
			ts = append(ts, Task{ID: name("cut", s.name, fmt.Sprintf("%b", mask)), Run: func(c *Ctx) {
				for _, o := range opsOf(len(s.keys), "pd") {
					if c.Stop() {
						return
					}
					c.Explore(name(o), vs.Config{NumCPU: 1}, vs.Options{}, func(x *vs.Exec) {
						sh := &shape{keys: s.keys, base: maskKeys(mask)}
						t, u, m, allocs := sh.build(x, 1, 0)
						t.ReleaseAllocator(allocs[0])
						rec := &recorder{x: x, u: u}
						var b []byte
						var from, to int
						x.Go("writer", func() { rec.do(t, o.kind, o.key, u.val(o.key, 50)) })
						x.Go("saver", func() {
							t.Stop()
							from = rec.now()
							b = save(x, t)
							to = rec.now()
							t.Start()
						})
						x.Explore()
						l := load(x, b)
						got := model{}
						h := rec.h
						for k := range s.keys {
							v, ok, _, _ := u.get(l, k)
							if ok {
								got[k] = v
							}
							h = append(h, hop{thread: 99, key: k, kind: 'g', old: v, existed: ok, call: from, ret: to})
						}
						checkLinearizable(x, u, m, h)
						if n := l.Len(); n != len(got) {
							x.Fail("Len of the loaded index = %d, %d keys are found", n, len(got))
						}
						e := &env{c: c, x: x, t: l, u: u, m: got, cl: l, n: len(s.keys), ver: 100}
						exercise(e, 1)
						c.res.Counters.Checks++
					})
				}
				c.Sample("keys %v, stored %b: any operation beside Stop, WriteState, Start", s.keys, mask)
			}})
		}
	}
	return
}

// loadedTasks: interleavings on loaded indexes, and of the first operations with the start of the background goroutine.
func loadedTasks(thorough bool) (ts []Task) {
	write := func(a, b cop) bool { return a.kind != 'g' }
	var shapes []concShape
	for _, s := range []concShape{
		{name: "l-flat", keys: []string{"a", "b", "c"}, variant: "e3", masks: []int{1, 3, 7}},
		{name: "l-two", keys: []string{"aa", "ab", "b"}, variant: "e3", masks: []int{3, 7}},
		{name: "l-w4", keys: []string{"a", "b", "c", "d"}, variant: "wie", masks: []int{7, 15}},
	} {
		s.loaded = true
		s.drop = []int{0, 1, 2}
		shapes = append(shapes, s)
	}
	ts = append(ts, pairTasks("loaded", shapes, "pdg", []int{3}, false, write)...)
	for _, last := range []bool{false, true} {
		ts = append(ts, Task{ID: name("start", last), Run: func(c *Ctx) {
			for pad := 0; pad < 28; pad++ {
				for _, o := range opsOf(3, "pdg") {
					if c.Stop() {
						return
					}
					c.Explore(name(pad, o), vs.Config{SelectLast: last}, vs.Options{}, func(x *vs.Exec) {
						e := newEnv(c, x, []string{"a", "b", "c", "d"})
						e.put(0)
						e.put(1)
						for i := 0; i < pad; i++ {
							e.put(3)
							e.del(3)
						}
						b := save(x, e.t)
						x.Go("client", func() {
							e.t = load(x, b)
							e.cl = e.t
							e.do(o)
							full(e)
						})
						x.Explore()
						exercise(e, 1)
					})
				}
			}
			c.Sample("a loaded index used at once, all schedules of its start-up")
		}})
	}
	return
}

// readerTasks: states whose free lists are longer than any buffer of the reader, at every alignment, from readers that
// deliver the bytes in pieces of many sizes.
func readerTasks(thorough bool) (ts []Task) {
	chunks := []int{0, 1, 3, 4093}
	if thorough {
		chunks = []int{0, 1, 2, 3, 5, 7, 8, 9, 13, 100, 4095, 4096, 4097}
	}
	for _, v := range []string{"s13", "es13", "real"} {
		for shift := 0; shift < 8; shift++ {
			ts = append(ts, Task{ID: name("readers", v, shift), Variant: v, Run: func(c *Ctx) {
				const n = 560
				var ks []string
				for j := 0; j < 2; j++ {
					for i := 0; i < n; i++ {
						ks = append(ks, string([]byte{'a', byte(i >> 8), byte(i), byte('0' + j)}))
					}
				}
				for i := 0; i < 4; i++ {
					ks = append(ks, "z"+string(byte('0'+i)))
				}
				var b []byte
				var keep model
				c.Seq("state", vs.Config{}, func(x *vs.Exec) {
					e := newEnv(c, x, ks)
					e.cl = e.t.GetAllocator()
					for k := 0; k < 2*n; k++ {
						e.put(k)
					}
					for i := 0; i < shift; i++ { // every free list entry before the long list moves it by 8 bytes, numbers by 1
						e.put(2 * n)
						e.put(2*n + 1)
						e.del(2 * n)
					}
					for k := n; k < 2*n-shift; k++ {
						e.del(k)
					}
					e.t.ReleaseAllocator(e.cl.(*radix.Allocator))
					keep = e.m
					b = save(x, e.t)
				})
				for _, chunk := range chunks {
					for _, with := range []bool{false, true} {
						if c.Stop() {
							return
						}
						c.Seq(name(chunk, with), vs.Config{}, func(x *vs.Exec) {
							t, err := radix.NewTreeFromState(&errReader{b: b, chunk: chunk, err: io.EOF, with: with})
							if err != nil {
								x.Fail("NewTreeFromState: %v", err)
							}
							e := &env{c: c, x: x, t: t, u: newU(x, append([]string(nil), ks...)), m: keep.clone(), cl: t.GetAllocator(), n: len(ks), ver: 10}
							checkContents(x, e.cl, e.u, e.m)
							for k := 0; k < 2*n; k++ { // uses the whole free list
								if _, stored := e.m[k]; !stored {
									e.put(k)
								}
							}
							checkContents(x, e.cl, e.u, e.m)
							t.ReleaseAllocator(e.cl.(*radix.Allocator))
							c.res.Counters.Checks++
						})
						c.res.Counters.States++
					}
				}
				c.Sample("a state of %d bytes with a free list of %d nodes, read in pieces", len(b), n)
			}})
		}
	}
	return
}

func saveBuildTasks(thorough bool) (ts []Task) {
	for _, v := range []string{"real", "b8", "b16"} {
		ts = append(ts, Task{ID: name("build", v), Variant: v, Run: func(c *Ctx) {
			var ks []string
			for i := 0; i < 8; i++ {
				p := string([]byte{byte('a' + i)}) + pathBytes(70000*(i%4), i)
				ks = append(ks, p+"1", p+"2", p+"3")
			}
			for top := 0; top <= len(ks); top += 4 {
				c.Seq(name(v, top), vs.Config{}, func(x *vs.Exec) {
					e := newEnv(c, x, ks)
					for k := 0; k < top; k++ {
						e.put(k)
					}
					for k := 0; k < top; k += 5 {
						e.del(k)
					}
					roundTrip(e, 1)
				})
				c.res.Counters.States++
			}
			c.Sample("the %s build: saved and loaded with 0 to %d keys over several blocks", v, len(ks))
		}})
	}
	return
}

// ---- C09

type errReader struct {
	b     []byte
	chunk int
	err   error
	with  bool // the last data comes together with the error
}

func (r *errReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, r.err
	}
	n := len(r.b)
	if r.chunk > 0 && n > r.chunk {
		n = r.chunk
	}
	n = copy(p, r.b[:n])
	r.b = r.b[n:]
	if len(r.b) == 0 && r.with {
		return n, r.err
	}
	return n, nil
}

var errBroken = errors.New("broken")

// states to truncate: name -> how to build
func stateBuilders() map[string]func(x *vs.Exec) *radix.Tree {
	mk := func(allocs int, n int, del bool, gen func(i int) string) func(x *vs.Exec) *radix.Tree {
		return func(x *vs.Exec) *radix.Tree {
			t := newTree(allocs)
			u := newU(x, nil)
			for i := 0; i < n; i++ {
				u.Keys = append(u.Keys, gen(i))
			}
			var as []*radix.Allocator
			for i := 0; i < allocs; i++ {
				as = append(as, t.GetAllocator())
			}
			for i := 0; i < n; i++ {
				u.put(as[i%allocs], i, u.val(i, 1))
			}
			if del {
				for i := 0; i < n; i += 2 {
					u.del(as[(i/2)%allocs], i)
				}
			}
			for _, a := range as {
				t.ReleaseAllocator(a)
			}
			return t
		}
	}
	one := func(i int) string { return string([]byte{byte('!' + i)}) }
	path := func(i int) string { return fmt.Sprintf("path-%d-%s", i%3, pathBytes(5+i, i)) + one(i) }
	return map[string]func(x *vs.Exec) *radix.Tree{
		"empty":    mk(1, 0, false, one),
		"one":      mk(1, 1, false, one),
		"two":      mk(2, 2, false, one),
		"some":     mk(2, 8, true, path),
		"blocks":   mk(3, 40, false, path),
		"recycled": mk(2, 20, true, one),
		"gone":     mk(1, 5, true, one),
		"many":     mk(12, 26, true, one),
		"long": mk(2, 6, true, func(i int) string {
			if i < 2 {
				return one(i)
			}
			return pathBytes(1030+300*(i/4), 3) + one(i)
		}),
	}
}

func truncTasks(thorough bool) (ts []Task) {
	bs := stateBuilders()
	for _, v := range []string{"s10", "s11", "w4"} {
		for _, n := range sortedKeys(bs) {
			for _, kind := range []string{"eof", "bytewise", "witheof", "broken"} {
				if kind != "eof" && v != "s10" {
					continue
				}
				ts = append(ts, Task{ID: name("trunc", v, n, kind), Variant: v, Run: func(c *Ctx) {
					var b []byte
					var whole int
					c.Seq("state", vs.Config{}, func(x *vs.Exec) {
						t := bs[n](x)
						b = save(x, t)
						t = load(x, b)
						whole = t.Len()
					})
					for i := 0; i <= len(b); i++ {
						if c.Stop() {
							return
						}
						c.Seq(name("at", i), vs.Config{}, func(x *vs.Exec) {
							var r io.Reader = bytes.NewReader(b[:i])
							switch kind {
							case "bytewise":
								r = &errReader{b: b[:i], chunk: 1, err: io.EOF}
							case "witheof":
								r = &errReader{b: b[:i], err: io.EOF, with: true}
							case "broken":
								if i == len(b) {
									return // broken after the last byte: nothing is missing
								}
								r = &errReader{b: b[:i], err: errBroken}
							}
							t, err := radix.NewTreeFromState(r)
							if i < len(b) {
								if err == nil {
									x.Fail("a state of %d bytes cut after %d was loaded without an error", len(b), i)
								}
								return
							}
							if err != nil {
								x.Fail("the whole state was refused: %v", err)
							}
							if l := t.Len(); l != whole {
								x.Fail("Len = %d, was %d", l, whole)
							}
						})
						c.res.Counters.States++
						c.res.Counters.Checks++
					}
					c.Sample("state %q of %d bytes cut after every byte (%s)", n, len(b), kind)
				}})
			}
		}
	}
	// other block sizes: the header of a state is changed to every other size the code could have been built for
	for _, v := range []string{"s10", "s11", "s13", "real", "b8", "b16"} {
		ts = append(ts, Task{ID: name("blocksize", v), Variant: v, Run: func(c *Ctx) {
			for _, n := range []string{"empty", "one", "some"} {
				c.Seq(n, vs.Config{}, func(x *vs.Exec) {
					t := bs[n](x)
					size := blockSize(t)
					s := string(save(x, t))
					own := fmt.Sprintf("blocksize %d\n", size)
					if !strings.Contains(s, own) {
						return // another format: nothing to change
					}
					for shift := 9; shift < 30; shift++ {
						if 1<<shift == size {
							continue
						}
						o := strings.Replace(s, own, fmt.Sprintf("blocksize %d\n", 1<<shift), 1)
						if _, err := radix.NewTreeFromState(strings.NewReader(o)); err == nil {
							x.Fail("a state with blocks of %d bytes was loaded by a build with %d", 1<<shift, size)
						}
						c.res.Counters.Checks++
						c.res.Counters.States++
					}
				})
			}
			c.Sample("states with every other block size")
		}})
	}
	return
}

// ---- C10

// failWriter fails at a write, after having taken some of its bytes.
type failWriter struct {
	n      int // calls
	at     int // call that fails
	taken  int // bytes it takes
	once   bool
	failed bool
	late   int // writes after the failure
}

func (w *failWriter) Write(p []byte) (int, error) {
	i := w.n
	w.n++
	if w.failed {
		w.late++
	}
	if i == w.at || i > w.at && !w.once {
		w.failed = true
		return min(w.taken, len(p)), errBroken
	}
	return len(p), nil
}

type countWriter struct {
	sizes []int
	n     int
}

func (w *countWriter) Write(p []byte) (int, error) {
	w.sizes = append(w.sizes, len(p))
	w.n += len(p)
	return len(p), nil
}

// afterFailure: the index is unharmed.
func afterFailure(e *env, allocators int, deep bool) {
	x := e.x
	x.Quiesce()
	if g := x.LiveGoroutines(); g > 1 {
		x.Fail("%d goroutines left after the failed save", g-1)
	}
	var buf bytes.Buffer
	if n, err := e.t.WriteState(&buf); err != nil || n != buf.Len() {
		x.Fail("saving again: %d bytes reported, %d written, error %v", n, buf.Len(), err)
	}
	l := &env{c: e.c, x: x, t: load(x, buf.Bytes()), u: e.u, m: e.m.clone(), n: e.n, ver: e.ver}
	l.cl = l.t
	e.t.Start()
	if deep {
		exercise(l, allocators)
		exercise(e, allocators)
	} else {
		checkContents(x, l.cl, l.u, l.m)
		checkContents(x, e.cl, e.u, e.m)
	}
	e.c.res.Counters.Checks++
}

func failTasks(thorough bool) (ts []Task) {
	type fs struct{ allocs, keys int }
	sizes := []fs{{1, 0}, {1, 1}, {1, 12}, {2, 30}, {1, 110}, {2, 130}}
	// negative: that many keys in pairs that share long paths, each of which takes most of a block
	sizes = append(sizes, fs{1, -20}, fs{2, -84})
	mkKeys := func(n int) (ks []string) {
		for i := 0; i < n; i++ {
			ks = append(ks, string([]byte{byte('!' + i%64), byte('!' + i/64)}))
		}
		for i := 0; i < -n; i++ {
			ks = append(ks, string([]byte{byte('!' + i/2)})+rep("x", 800)+string([]byte{byte('a' + i%2)}))
		}
		return
	}
	build := func(c *Ctx, x *vs.Exec, f fs) *env {
		e := newEnvA(c, x, mkKeys(f.keys), f.allocs)
		for k := range e.u.Keys {
			e.put(k)
		}
		for k := 0; k < len(e.u.Keys); k += 4 {
			e.del(k)
		}
		x.Quiesce()
		e.t.Stop()
		return e
	}
	for _, f := range sizes {
		for _, cpus := range []int{1, 2, 4} {
			ts = append(ts, Task{ID: name("points", f.allocs, f.keys, cpus), Run: func(c *Ctx) {
				cw := &countWriter{}
				c.Seq("count", vs.Config{NumCPU: cpus}, func(x *vs.Exec) {
					e := build(c, x, f)
					if n, err := e.t.WriteState(cw); err != nil || n != cw.n {
						x.Fail("WriteState: %d bytes reported, %d written, error %v", n, cw.n, err)
					}
				})
				for at := range cw.sizes {
					for _, once := range []bool{false, true} {
						takens := map[int]bool{0: true, 1: true, cw.sizes[at] - 1: true, cw.sizes[at]: true}
						for taken := range takens {
							if taken < 0 || once && taken > 1 {
								continue
							}
							if c.Stop() {
								return
							}
							c.Seq(name(at, once, taken), vs.Config{NumCPU: cpus}, func(x *vs.Exec) {
								e := build(c, x, f)
								w := &failWriter{at: at, taken: taken, once: once}
								n, err := e.t.WriteState(w)
								if !w.failed {
									if err != nil {
										x.Fail("WriteState: %v, although nothing failed", err)
									}
									return
								}
								if err == nil {
									x.Fail("write %d of %d failed, but WriteState reported success (%d bytes)", at, len(cw.sizes), n)
								}
								afterFailure(e, f.allocs, f.keys >= 0 && f.keys < 40)
							})
							c.res.Counters.States++
						}
					}
				}
				c.Sample("%d keys, %d writes: each fails, after 0, 1, all but one and all of its bytes", max(f.keys, -f.keys), len(cw.sizes))
			}})
		}
	}
	// schedules of the workers around a failure
	for _, f := range []fs{{1, 1}, {1, 12}, {1, 20}, {1, -10}, {1, -84}} {
		for _, cpus := range []int{1, 2} {
			ts = append(ts, Task{ID: name("sched", f.keys, cpus), Run: func(c *Ctx) {
				cw := &countWriter{}
				c.Seq("count", vs.Config{NumCPU: cpus}, func(x *vs.Exec) { build(c, x, f).t.WriteState(cw) })
				for at := range cw.sizes {
					for _, once := range []bool{false, true} {
						if c.Stop() {
							return
						}
						opt := vs.Options{}
						if cpus*f.keys > 12 || f.keys < 0 {
							opt = vs.Options{Mode: "delay", Bound: pick(f.keys < -20 && !thorough, 1, 2)}
						}
						if f.keys < -20 && !thorough && at%7 != 0 {
							continue
						}
						c.Explore(name(at, once), vs.Config{NumCPU: cpus, PoolShared: true}, opt, func(x *vs.Exec) {
							e := build(c, x, f)
							w := &failWriter{at: at, once: once}
							var err error
							x.Go("saver", func() { _, err = e.t.WriteState(w) })
							x.Explore()
							if w.failed && err == nil {
								x.Fail("write %d of %d failed, but WriteState reported success", at, len(cw.sizes))
							}
							afterFailure(e, f.allocs, false)
						})
					}
				}
				c.Sample("%d keys: each of %d writes fails, all schedules of %d workers", max(f.keys, -f.keys), len(cw.sizes), cpus)
			}})
		}
	}
	return
}

func init() {
	props["C08"] = func(thorough bool) (ts []Task) {
		ts = append(ts, saveBuildTasks(thorough)...)
		ts = append(ts, readerTasks(thorough)...)
		ts = append(ts, saveSchedTasks(thorough)...)
		ts = append(ts, growTasks(thorough)...)
		ts = append(ts, saveHistTasks(thorough)...)
		ts = append(ts, chainTasks(thorough)...)
		ts = append(ts, cutTasks(thorough)...)
		ts = append(ts, loadedTasks(thorough)...)
		ts = append(ts, manySaveTasks(thorough)...)
		return
	}
	props["C09"] = truncTasks
	props["C10"] = failTasks
}
