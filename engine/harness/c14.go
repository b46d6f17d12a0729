package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/jayloop/radix"
	"vs"
)

// what a client may be doing; cl is the tree, or an allocator it has reserved
type act struct {
	name string
	tree bool // always goes through the tree
	f    func(r *recorder, t *radix.Tree, cl client, ver int)
}

func acts(keys []string, kinds string, prefixes []string) (as []act) {
	for _, o := range opsOf(len(keys), kinds) {
		as = append(as, act{o.String(), false, func(r *recorder, t *radix.Tree, cl client, ver int) { r.do(cl, o.kind, o.key, r.u.val(o.key, ver)) }})
	}
	for _, p := range prefixes {
		as = append(as,
			act{"iterate" + p, true, func(r *recorder, t *radix.Tree, cl client, ver int) {
				it := t.NewIterator([]byte(p))
				for it.Next() {
				}
				it.Close()
			}},
			act{"count" + p, true, func(r *recorder, t *radix.Tree, cl client, ver int) { radix.NewCounter(t).Count([]byte(p)) }},
			act{"min" + p, true, func(r *recorder, t *radix.Tree, cl client, ver int) { t.MinKey([]byte(p)) }},
			act{"max" + p, true, func(r *recorder, t *radix.Tree, cl client, ver int) { t.MaxKey([]byte(p)) }},
		)
	}
	as = append(as,
		act{"len", true, func(r *recorder, t *radix.Tree, cl client, ver int) { t.Len() }},
		act{"stop-start", true, func(r *recorder, t *radix.Tree, cl client, ver int) { t.Stop(); t.Start() }},
		act{"stop-save-start", true, func(r *recorder, t *radix.Tree, cl client, ver int) {
			t.Stop()
			var b bytes.Buffer
			if _, err := t.WriteState(&b); err != nil {
				r.x.Fail("WriteState: %v", err)
			}
			t.Start()
		}},
		act{"admin", true, func(r *recorder, t *radix.Tree, cl client, ver int) { t.Admin(io.Discard, []string{"allocators"}) }},
	)
	return
}

// together runs the clients; afterwards everything is free again.
func (c *Ctx) together(sub string, cfg vs.Config, opt vs.Options, sh *shape, pad, allocators int, hold, churn bool, as []act) {
	c.Explore(sub, cfg, opt, func(x *vs.Exec) {
		t, u, m, allocs := sh.build(x, allocators, pad)
		rec := &recorder{x: x, u: u, vals: map[uint64]bool{}}
		for _, v := range m {
			rec.vals[v] = true
		}
		for _, a := range allocs {
			t.ReleaseAllocator(a)
		}
		for i, a := range as {
			x.Go(fmt.Sprint(i, a.name), func() {
				if hold && !a.tree {
					al := t.GetAllocator()
					a.f(rec, t, al, 10+i)
					t.ReleaseAllocator(al)
					return
				}
				a.f(rec, t, t, 10+i)
			})
		}
		x.Explore()
		for _, o := range rec.h {
			x.Note("%s", o.show(u))
		}
		// all reservations are free
		for i := 0; i < allocators; i++ {
			allocs[i] = t.GetAllocator()
			for j := 0; j < i; j++ {
				if allocs[j] == allocs[i] {
					x.Fail("an allocator was handed out twice")
				}
			}
		}
		// all locks are free: any key can be written, through any allocator
		for k := range u.Keys {
			rec.do(allocs[k%allocators], 'g', k, 0)
		}
		checkLinearizable(x, u, m, rec.h)
		for round := 0; round < 2; round++ {
			for k := range u.Keys {
				if _, _, r := u.put(allocs[(k+round)%allocators], k, u.val(k, 200)); r > 0 {
					x.Fail("a lone client had a write conflict when storing %s", short(u.Keys[k]))
				}
			}
			for k := range u.Keys {
				if _, ex, r := u.del(allocs[(k+1+round)%allocators], k); r > 0 || !ex {
					x.Fail("a lone client could not delete %s (restarts %d, found %v)", short(u.Keys[k]), r, ex)
				}
			}
		}
		if churn {
			// memory freed is reclaimable
			a := allocs[allocators-1]
			steady(x, t, 12, blockSize(t)/8/4, "afterwards freed memory is not reused", func(int) {
				for k := 0; k < 2; k++ {
					u.put(a, k, u.val(k, 300))
				}
				for k := 0; k < 2; k++ {
					u.del(a, k)
				}
			})
		}
		for _, a := range allocs {
			t.ReleaseAllocator(a)
		}
		c.res.Counters.Checks++
	})
}

func init() {
	props["C14"] = func(thorough bool) (ts []Task) {
		type fam struct {
			s        concShape
			kinds    string
			prefixes []string
			allocs   []int
			holds    []bool
			pads     []int
			only     func(a, b string) bool
			bound    int // quick tier: preemption bound, 0: all interleavings
		}
		fams := []fam{
			{s: concShape{name: "flat", keys: []string{"a", "b", "c"}, masks: []int{0, 1, 3, 7}}, kinds: "pdixg", prefixes: []string{""}, allocs: []int{1, 2}, holds: []bool{false, true}, pads: []int{0}},
			{s: concShape{name: "deep", keys: []string{"aaa", "aab", "aba", "baa"}, masks: []int{15, 7, 3, 11}}, kinds: "pda", prefixes: []string{"a"}, allocs: []int{2}, holds: []bool{true}, pads: []int{0}, bound: 1},
			{s: concShape{name: "path", keys: []string{"xyzaa", "xyzab", "xyqa", "m"}, masks: []int{15, 7, 3}}, kinds: "pdb", prefixes: []string{"xy"}, allocs: []int{2}, holds: []bool{false}, pads: []int{0}, bound: 1},
			{s: mergeShapes[0], kinds: "pd", allocs: []int{2}, holds: []bool{true}, pads: []int{0}, bound: 1},
			{s: mergeShapes[1], kinds: "pd", allocs: []int{2}, holds: []bool{true}, pads: []int{0}, bound: 1},
		}
		for _, s := range wideShapes {
			s.masks = s.masks[:2]
			fams = append(fams, fam{s: s, kinds: "pda", allocs: []int{2}, holds: []bool{true}, pads: []int{0}, bound: 1})
		}
		for _, s := range holeShapes {
			s.masks = s.masks[:1]
			fams = append(fams, fam{s: s, kinds: "pd", allocs: []int{2}, holds: []bool{true}, pads: []int{0}, bound: 1})
		}
		// where the nodes lie decides which of them share a lock
		fams = append(fams, fam{s: concShape{name: "deep", keys: []string{"aaa", "aab", "aba", "baa"}, masks: []int{15}}, kinds: "d", allocs: []int{2}, holds: []bool{true}, pads: []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}, bound: 1, only: func(a, b string) bool { return a[0] == 'd' && b[0] == 'd' }})
		if thorough {
			fams[1].s.masks, fams[2].s.masks = nil, nil
			for i := range fams {
				fams[i].holds, fams[i].allocs = []bool{false, true}, []int{1, 2, 3}
			}
		}
		for _, f := range fams {
			prefixFree(f.s.keys)
			for _, mask := range f.s.starts() {
				for _, n := range f.allocs {
					for _, hold := range f.holds {
						as := acts(f.s.keys, f.kinds, f.prefixes)
						parts := 1 + len(as)/4
						for part := 0; part < parts; part++ {
							ts = append(ts, Task{ID: name("pairs", f.s.name, fmt.Sprintf("%b", mask), n, hold, len(f.pads), part), Variant: f.s.variant, Run: func(c *Ctx) {
								sh := f.s.shape(mask)
								opt := vs.Options{}
								if f.bound > 0 && !thorough {
									opt = vs.Options{Mode: "pb", Bound: f.bound}
								}
								for _, pad := range f.pads {
									for i, a := range as {
										if i%parts != part {
											continue
										}
										for _, b := range as[i:] {
											if f.only != nil && !f.only(a.name, b.name) {
												continue
											}
											if c.Stop() {
												return
											}
											opt := opt
											if b.name == "stop-save-start" || a.name == "stop-save-start" {
												if a.name == b.name {
													continue // saving an index that another client has started again
												}
												if !thorough {
													opt = vs.Options{Mode: "delay", Bound: pick(f.bound > 0, 1, 2)}
												}
											}
											c.together(name(pad, a.name, b.name), vs.Config{NumCPU: 1}, opt, sh, pad, n, hold, false, []act{a, b})
										}
									}
								}
								c.Sample("keys %v, stored %b, %d allocators: pairs of clients, all interleavings", f.s.keys, mask, n)
							}})
						}
					}
				}
			}
		}
		// three clients
		tri := []fam{
			{s: concShape{name: "flat", keys: []string{"a", "b"}, masks: []int{0, 3}}, kinds: "pd", prefixes: []string{""}, allocs: []int{2}},
			{s: concShape{name: "deep", keys: []string{"aaa", "aab", "ab"}, masks: []int{7}}, kinds: "d", prefixes: []string{"a"}, allocs: []int{3}},
		}
		if thorough {
			tri = append(tri, fam{s: concShape{name: "deep4", keys: []string{"aaa", "aab", "aba", "baa"}, masks: []int{15}}, kinds: "pd", prefixes: []string{""}, allocs: []int{3}},
				fam{s: wideShapes[0], kinds: "pd", allocs: []int{3}})
		}
		for _, f := range tri {
			for _, mask := range f.s.starts() {
				as := acts(f.s.keys, f.kinds, f.prefixes)
				for i := range as {
					ts = append(ts, Task{ID: name("triples", f.s.name, fmt.Sprintf("%b", mask), i), Variant: f.s.variant, Run: func(c *Ctx) {
						sh := f.s.shape(mask)
						for j := i; j < len(as); j++ {
							for k := j; k < len(as); k++ {
								if c.Stop() {
									return
								}
								opt := vs.Options{Mode: "pb", Bound: 1}
								saves := 0
								for _, a := range []act{as[i], as[j], as[k]} {
									if a.name == "stop-save-start" {
										saves++
										opt = vs.Options{Mode: "delay", Bound: pick(thorough, 2, 1)}
									} else if a.name == "stop-start" {
										saves += 2
									}
								}
								if saves > 1 && saves != 4 && saves != 6 {
									continue // saving an index that another client has started again
								}
								c.together(name(as[i].name, as[j].name, as[k].name), vs.Config{NumCPU: 1}, opt, sh, 0, f.allocs[0], false, false, []act{as[i], as[j], as[k]})
							}
						}
						c.Sample("keys %v, stored %b: %s and every two other clients", f.s.keys, mask, as[i].name)
					}})
				}
			}
		}
		// freed memory stays reclaimable after concurrent operations
		rec := []fam{
			{s: concShape{name: "flat", keys: []string{"a", "b", "c"}, masks: []int{3, 7}, variant: "e3"}, kinds: "pdab", prefixes: []string{""}},
			{s: concShape{name: "nest", keys: []string{"aa", "ab", "b"}, masks: []int{7}, variant: "e3"}, kinds: "pdo", prefixes: []string{"a"}},
		}
		for _, f := range rec {
			for _, mask := range f.s.starts() {
				as := acts(f.s.keys, f.kinds, f.prefixes)
				for i := range as {
					ts = append(ts, Task{ID: name("reclaim", f.s.name, fmt.Sprintf("%b", mask), i), Variant: f.s.variant, Run: func(c *Ctx) {
						sh := f.s.shape(mask)
						for j := i; j < len(as); j++ {
							if c.Stop() {
								return
							}
							opt := vs.Options{Mode: "pb", Bound: pick(thorough, 2, 1)}
							if as[i].name == "stop-save-start" || as[j].name == "stop-save-start" {
								if i == j {
									continue
								}
								opt = vs.Options{Mode: "delay", Bound: pick(thorough, 2, 1)}
							}
							c.together(name(as[i].name, as[j].name), vs.Config{NumCPU: 1}, opt, sh, 0, 2, false, true, []act{as[i], as[j]})
						}
						c.Sample("keys %v, stored %b: %s beside others, then churn", f.s.keys, mask, as[i].name)
					}})
				}
			}
		}
		ts = append(ts, bystanderTasks("bystander", false)...)
		return
	}
}
