package main

import (
	"fmt"
	"sort"

	"github.com/jayloop/radix"
	"vs"
)

// pathBytes is a key part in which every position differs from its neighbours, with zero and 255 bytes.
func pathBytes(n, seed int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*37 + i>>8*11 + seed)
	}
	return string(b)
}

// full compares everything with the model: lookups of all keys, iteration, min, max, counts under some prefixes.
func full(e *env, prefixes ...string) {
	checkContents(e.x, e.cl, e.u, e.m)
	some(e, prefixes...)
}

func some(e *env, prefixes ...string) {
	c := radix.NewCounter(e.t)
	for _, p := range append(prefixes, "") {
		checkIteration(e.x, e.t, e.u, e.m, p)
		checkMinMax(e, p)
		checkCount(e, c, p, false)
	}
	if n := e.t.Len(); n != len(e.m) {
		e.x.Fail("Len = %d, stored: %d keys", n, len(e.m))
	}
	e.c.res.Counters.Checks++
}

func newEnv(c *Ctx, x *vs.Exec, keys []string) *env { return newEnvA(c, x, keys, 1) }

func newEnvA(c *Ctx, x *vs.Exec, keys []string, allocators int) *env {
	t := newTree(allocators)
	return &env{c: c, x: x, t: t, u: newU(x, append([]string(nil), keys...)), m: model{}, cl: t, n: len(keys)}
}

// lengthTasks: every length of a shared prefix, split at several places, in several orders, and merged again.
func lengthTasks(thorough bool) (ts []Task) {
	top, far := 1100, []int{1000, 1023, 1024, 1025, 2000, 2030, 2040, 2047, 2048, 2049, 2056, 4000, 5000}
	for l := 8100; l <= 8200; l++ { // around the size of a block
		far = append(far, l)
	}
	far = append(far, 16383, 16384, 20000)
	if thorough {
		top = 4000
		for l := 4003; l < 6000; l += 7 {
			far = append(far, l)
		}
	}
	var ls []int
	for l := 0; l <= top; l++ {
		ls = append(ls, l)
	}
	ls = append(ls, far...)
	orders := [][]int{{0, 1, 2, 3}, {3, 0, 1, 2}, {2, 3, 1, 0}, {1, 3, 0, 2}}
	const chunk = 20
	for at := 0; at < len(ls); at += chunk {
		part := ls[at:min(at+chunk, len(ls))]
		ts = append(ts, Task{ID: name("length", part[0]), Variant: "s13", Run: func(c *Ctx) {
			for _, l := range part {
				p := pathBytes(l, 3)
				cuts := map[int]bool{0: true, 1: true, 2: true, l / 2: true, l - 1: true, l - 2: true, l - 8: true, l - 9: true, 7: true, 8: true, 9: true, 253: true, 254: true, 255: true, 256: true, l - 254: true, l - 255: true, l - 256: true, l - 257: true}
				for s := range cuts {
					if s < 0 || s >= l {
						delete(cuts, s)
					}
				}
				cs := []int{}
				for s := range cuts {
					cs = append(cs, s)
				}
				if l == 0 {
					cs = []int{0}
				}
				sort.Ints(cs)
				for _, s := range cs {
					for oi, o := range orders {
						if c.Stop() {
							return
						}
						split := "\xaa\xbb"
						if l > 0 {
							split = p[:s] + string([]byte{p[s] + 1}) + "x"
						}
						ks := []string{p + "\x00", p + "\x01q", p + "\x01r", split}
						if l == 0 {
							prefixFree(ks)
						}
						c.Seq(name(l, s, oi), vs.Config{}, func(x *vs.Exec) {
							e := newEnv(c, x, ks)
							ps := []string{p, p[:s], split[:s+1]}
							for _, k := range o {
								e.put(k)
								full(e, ps...)
							}
							for i := range o {
								e.put(o[(i+2)%4])
							}
							for i := range o {
								e.del(o[(i+oi)%4])
								full(e, ps...)
							}
						})
						c.res.Counters.States += 8
					}
				}
			}
			c.Sample("shared prefixes of %d to %d bytes, split at up to 19 places, 4 orders", part[0], part[len(part)-1])
		}})
	}
	return
}

// hugeTasks: shared prefixes around and above the size of a memory block of the real build.
func hugeTasks(thorough bool) (ts []Task) {
	const bs = 2 << 20
	ls := []int{bs - 48, bs - 40, bs - 33, bs - 32, bs - 24, bs - 16, bs - 8, bs, bs + 1, 2*bs + 5}
	if thorough {
		for l := bs - 47; l < bs+16; l++ {
			ls = append(ls, l)
		}
	}
	for _, l := range ls {
		ts = append(ts, Task{ID: name("huge", l), Variant: "real", Run: func(c *Ctx) {
			p := pathBytes(l, 3)
			for _, s := range []int{1, l / 2, l - 1} {
				if c.Stop() {
					return
				}
				ks := []string{p + "\x00", p + "\x01q", p + "\x01r", p[:s] + string([]byte{p[s] + 1}) + "x"}
				c.Seq(name(l, s), vs.Config{}, func(x *vs.Exec) {
					e := newEnv(c, x, ks)
					for k := range ks {
						e.put(k)
						full(e, p)
					}
					for _, k := range []int{1, 3, 0, 2} {
						e.del(k)
						full(e, p)
					}
				})
				c.res.Counters.States += 8
			}
			c.Sample("a shared prefix of %d bytes, split and merged again", l)
		}})
	}
	return
}

// mergeTasks: nodes with every pair of prefix lengths merged by a delete and by the removal of the upper branch.
func mergeTasks(thorough bool) (ts []Task) {
	max := 270
	if thorough {
		max = 540
	}
	for l1 := 0; l1 <= max; l1++ {
		ts = append(ts, Task{ID: name("merge", l1), Variant: "s13", Run: func(c *Ctx) {
			p1 := pathBytes(l1, 5)
			for l2 := 0; l2 <= max; l2++ {
				if c.Stop() {
					return
				}
				p2 := p1 + "b" + pathBytes(l2, 9)
				ks := []string{p2 + "1", p2 + "2", p1 + "a"}
				c.Seq(name(l1, l2), vs.Config{}, func(x *vs.Exec) {
					e := newEnv(c, x, ks)
					for k := range ks {
						e.put(k)
					}
					full(e, p1, p2)
					e.del(2)
					full(e, p1, p2)
					e.put(2)
					e.del(0)
					full(e, p1, p2)
				})
				c.res.Counters.States += 3
			}
			c.Sample("a prefix of %d bytes merged with prefixes of up to %d bytes", l1, max)
		}})
	}
	return
}

// byteTasks: every pair of branch bytes.
func byteTasks(thorough bool) (ts []Task) {
	for _, v := range []string{"s10", "w4"} {
		for _, p := range []string{"", "pre"} {
			for hi := 0; hi < 16; hi++ {
				ts = append(ts, Task{ID: name("bytes", v, len(p), hi), Variant: v, Run: func(c *Ctx) {
					for b1 := hi * 16; b1 < hi*16+16; b1++ {
						for b2 := 0; b2 < 256; b2++ {
							if b2 == b1 {
								continue
							}
							if c.Stop() {
								return
							}
							s1, s2 := p+string([]byte{byte(b1)}), p+string([]byte{byte(b2)})
							ks := []string{s1, s2 + "\x00", s2 + "\xff"}
							// two more branches: with w4 the node becomes wide
							for d := 1; len(ks) < 5; d += 90 {
								if b := byte(b1 + d); int(b) != b2 && int(b) != b1 {
									ks = append(ks, p+string([]byte{b}))
								}
							}
							c.Seq(name(b1, b2), vs.Config{}, func(x *vs.Exec) {
								e := newEnv(c, x, ks)
								for k := range ks {
									e.put(k)
								}
								full(e, s1, s2)
								for k := range ks {
									e.del((k + b1) % 5)
									full(e, s2)
								}
							})
							c.res.Counters.States += 6
						}
					}
					c.Sample("branch bytes %#02x0-%#02xf with every other byte, prefix %q", hi, hi, p)
				}})
			}
		}
	}
	return
}

// valueTasks: values around every power of two, at the root, in narrow and in wide nodes.
func valueTasks() (ts []Task) {
	const low = 1<<55 - 1
	var vals []uint64
	for i := 0; i < 64; i++ {
		vals = append(vals, 1<<i, 1<<i-1, 1<<i+1, ^uint64(0)<<i, 0xaaaaaaaaaaaaaaaa>>i, 0x0123456789abcdef<<i)
	}
	for _, v := range []string{"s10", "w4"} {
		for fan := 1; fan <= 6; fan++ {
			ts = append(ts, Task{ID: name("values", v, fan), Variant: v, Run: func(c *Ctx) {
				for i, val := range vals {
					for j := range vals {
						if j%7 != i%7 {
							continue
						}
						other := vals[j]
						c.Seq(name(fan, i, j), vs.Config{}, func(x *vs.Exec) {
							t := newTree(1)
							keys := []string{"ka", "kb", "kc", "kd", "ke", "l"}[:fan]
							stored := map[string]uint64{}
							put := func(k string, val uint64) {
								found, op := t.PrepareUpdate([]byte(k))
								if found {
									// the full key behind the value: known to the user
									owner := k
									if _, ok := stored[k]; !ok {
										for o, ov := range stored {
											if ov == op.Value {
												owner = o
											}
										}
									}
									if want, ok := stored[owner]; !ok || op.Value != want {
										x.Fail("PrepareUpdate(%q) reports %#x, stored: %#x", k, op.Value, want)
									}
									op.FetchedKey = append(op.FetchedKey[:0], owner...)
									op.Match = owner == k
								}
								if !op.Finalize(val) {
									x.Fail("conflict")
								}
								stored[k] = val & low
							}
							check := func() {
								for k, want := range stored {
									if got, ok := t.Lookup([]byte(k)); !ok || got != want {
										x.Fail("Lookup(%q) = %#x,%v; stored: %#x", k, got, ok, want)
									}
								}
								it := t.NewIterator(nil)
								for _, k := range sortedKeys(stored) {
									if !it.Next() || it.Value() != stored[k] {
										x.Fail("iteration returned %#x, stored for %q: %#x", it.Value(), k, stored[k])
									}
								}
								if it.Next() {
									x.Fail("iteration returned more than %d values", len(stored))
								}
								it.Close()
								ks := sortedKeys(stored)
								if got, ok := t.MinKey(nil); !ok || got != stored[ks[0]] {
									x.Fail("MinKey = %#x, stored: %#x", got, stored[ks[0]])
								}
								if got, ok := t.MaxKey(nil); !ok || got != stored[ks[len(ks)-1]] {
									x.Fail("MaxKey = %#x, stored: %#x", got, stored[ks[len(ks)-1]])
								}
							}
							// distinct small values for the others
							for i, k := range keys {
								put(k, uint64(1000+i))
							}
							put(keys[0], val)
							check()
							put(keys[0], other)
							check()
							// a delete reports the value as well
							found, op := t.PrepareDelete([]byte(keys[0]))
							if !found || op.Value != other&low {
								x.Fail("PrepareDelete: %v, stored: %#x", found, other&low)
							}
							op.FetchedKey = append(op.FetchedKey[:0], keys[0]...)
							op.Finalize()
							delete(stored, keys[0])
							if fan > 1 {
								check()
							}
							put(keys[0], val)
							check()
							// the leaf moves: split and merge beside it
							if fan > 1 {
								found, op := t.PrepareDelete([]byte(keys[1]))
								if !found {
									x.Fail("PrepareDelete(%q) found nothing", keys[1])
								}
								op.FetchedKey = append(op.FetchedKey[:0], keys[1]...)
								op.Finalize()
								delete(stored, keys[1])
								check()
							}
							c.res.Counters.Checks += 5
						})
						c.res.Counters.States++
					}
				}
				c.Sample("values around every power of two stored, replaced and deleted in a node of %d", fan)
			}})
		}
	}
	return
}

// layoutScenario builds and takes apart a tree with nodes of many sizes.
func layoutKeys(unit int) (ks []string) {
	for i := 0; i < 12; i++ {
		ks = append(ks, fmt.Sprintf("fan%c", 'a'+i))
	}
	for i := 0; i < 6; i++ {
		p := "p" + string([]byte{byte('a' + i)}) + pathBytes(i*unit, i)
		ks = append(ks, p+"1", p+"2", p+"3")
	}
	return
}

// layoutTasks: the scenario from every start offset in a block, and over several blocks.
func layoutTasks(thorough bool) (ts []Task) {
	type lay struct {
		variant string
		unit    int // prefix step in bytes
		pads    int
		step    int
	}
	lays := []lay{{"s10", 9, 130, 1}, {"s10", 100, 130, 1}, {"s11", 101, 258, 1}, {"e3", 40, 130, 1}, {"w4", 9, 130, 1}}
	if thorough {
		lays = append(lays, lay{"s10", 33, 130, 1}, lay{"s10", 64, 130, 1}, lay{"s13", 9, 1026, 1}, lay{"s13", 300, 1026, 1}, lay{"w4", 101, 1026, 1})
	}
	for _, l := range lays {
		const chunk = 10
		for at := 0; at < l.pads; at += chunk {
			ts = append(ts, Task{ID: name("layout", l.variant, l.unit, at), Variant: l.variant, Run: func(c *Ctx) {
				ks := layoutKeys(l.unit)
				n := len(ks)
				ks = append(ks, "\xf0", "\xf1", "\xf2")
				prefixFree(ks)
				for pad := at; pad < at+chunk && pad < l.pads; pad++ {
					if c.Stop() {
						return
					}
					c.Seq(name(l.unit, pad), vs.Config{}, func(x *vs.Exec) {
						e := newEnv(c, x, ks)
						e.put(n)
						e.put(n + 1)
						for i := 0; i < pad; i++ { // 3 and 2 words
							e.put(n + 2)
							e.del(n + 2)
						}
						for k := 0; k < n; k++ {
							e.put((k*5 + pad) % n)
							if k%3 == 0 {
								full(e, "p", "fan")
							}
						}
						full(e, "p", "fan")
						for k := 0; k < n; k++ {
							e.del((k*7 + pad) % n)
							if k%3 == 0 {
								full(e, "p", "fan")
							}
						}
						full(e, "p", "fan")
						for k := 0; k < n; k += 2 {
							e.put(k)
						}
						full(e, "p", "fan")
					})
					c.res.Counters.States += int64(2 * n)
				}
				c.Sample("a tree of %d keys built and taken apart from start offset %d on", n, at*5)
			}})
		}
	}
	return
}

// realTasks16: the supported builds, with records large enough to cross block boundaries.
func realTasks16(thorough bool) (ts []Task) {
	for _, v := range []string{"real", "b8", "b16"} {
		for _, a := range sortedKeys(alphabets) {
			sp := &space{name: a, keys: alphabets[a], depth: 2, variant: v}
			if thorough {
				sp.depth = 3
			}
			ts = append(ts, sp.tasks("build", []string{"tree"}, 1, vs.Config{}, func(e *env) { full(e) })...)
		}
		big := []int{1 << 16, 1<<17 + 5, 300001}
		for _, unit := range big {
			ts = append(ts, Task{ID: name("build", v, unit), Variant: v, Run: func(c *Ctx) {
				var ks []string
				for i := 0; i < 10; i++ {
					p := string([]byte{byte('a' + i)}) + pathBytes(unit, i)
					ks = append(ks, p+"1", p+"2", p+"3")
				}
				c.Seq(name(v, unit), vs.Config{}, func(x *vs.Exec) {
					e := newEnv(c, x, ks)
					for k := range ks {
						e.put(k)
					}
					full(e)
					for k := range ks {
						e.del(k * 7 % len(ks))
						if k%5 == 0 {
							full(e)
						}
					}
					full(e)
					for k := range ks {
						e.put(k)
						e.put(k)
					}
					full(e)
					if stat(e.t, "blocks_allocated") < 2 {
						x.Fail("harness: the scenario does not leave the first block")
					}
				})
				c.res.Counters.States += int64(3 * len(ks))
				c.Sample("keys with shared prefixes of %d bytes over several blocks", unit)
			}})
		}
	}
	return
}

func init() {
	props["C16"] = func(thorough bool) (ts []Task) {
		ts = append(ts, valueTasks()...)
		ts = append(ts, realTasks16(thorough)...)
		ts = append(ts, hugeTasks(thorough)...)
		ts = append(ts, byteTasks(thorough)...)
		ts = append(ts, layoutTasks(thorough)...)
		ts = append(ts, mergeTasks(thorough)...)
		pls := []int{0, 3, 8, 255}
		if thorough {
			pls = []int{0, 1, 2, 7, 8, 9, 16, 253, 254, 255, 256, 257, 300}
		}
		ts = append(ts, fanoutTasks("fan", pls, thorough, func(e *env, p string) {
			checkContents(e.x, e.cl, e.u, e.m)
		})...)
		ts = append(ts, lengthTasks(thorough)...)
		return
	}
}
