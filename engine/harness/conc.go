package main

import (
	"fmt"
	"strings"

	"github.com/jayloop/radix"
	"vs"
)

// an operation of a concurrent scenario
type cop struct {
	kind byte
	key  int
}

func (o cop) String() string { return fmt.Sprintf("%c%d", o.kind, o.key) }

// shape is a family of initial trees.
type shape struct {
	name   string
	keys   []string
	base   []int                                               // stored initially
	extra  func(u *Universe, t *radix.Tree, a client, m model) // further set-up
	drop   []int                                               // keys stored and deleted again before base (recycled memory, different layout)
	gone   []int                                               // stored after base and deleted again (absent branches of wide nodes)
	loaded bool                                                // saved and loaded
}

// c2 runs the threads' operations under every schedule and checks linearizability.
func c2(c *Ctx, sub string, opt vs.Options, sh *shape, pad int, treeLevel bool, threads [][]cop, fin func(x *vs.Exec, t *radix.Tree, u *Universe)) bool {
	outcomes := map[string]bool{}
	ok := c.Explore(sub, vs.Config{}, opt, func(x *vs.Exec) {
		n := len(threads) + 1
		if treeLevel {
			n = 2
		}
		t, u, m, allocs := sh.build(x, n, pad)
		if treeLevel {
			for _, a := range allocs {
				t.ReleaseAllocator(a)
			}
		}
		rec := &recorder{x: x, u: u, vals: map[uint64]bool{}}
		for _, v := range m {
			rec.vals[v] = true
		}
		for i, ops := range threads {
			var cl client = t
			if !treeLevel {
				cl = allocs[i]
			}
			x.Go(fmt.Sprintf("client%d", i), func() {
				for j, o := range ops {
					rec.do(cl, o.kind, o.key, u.val(o.key, 100+i*10+j))
				}
			})
		}
		x.Explore()
		var cl client = t
		if !treeLevel {
			cl = allocs[len(threads)]
		}
		// the final contents, as seen by a later client
		fm := model{}
		for k := range u.Keys {
			rec.do(cl, 'g', k, 0)
			if l := rec.h[len(rec.h)-1]; l.existed {
				fm[k] = l.old
			}
		}
		for _, o := range rec.h {
			x.Note("%s", o.show(u))
		}
		checkLinearizable(x, u, m, rec.h)
		if fin != nil {
			fin(x, t, u)
		}
		if !treeLevel {
			for _, a := range allocs {
				t.ReleaseAllocator(a)
			}
		}
		if got := iterate(x, t, "", len(fm)+1); !equal(got, fm.sorted(u, "")) {
			x.Fail("after all operations the index lists %s but looks up %s", u.show(got), u.show(fm.sorted(u, "")))
		}
		// every key is still writable by a lone client
		for k := range u.Keys {
			if _, _, r := u.put(t, k, u.val(k, 200)); r > 0 {
				x.Fail("a lone client had a write conflict")
			}
		}
		for k := range u.Keys {
			if _, ex, r := u.del(t, k); r > 0 || !ex {
				x.Fail("a lone client could not delete %s (restarts %d, found %v)", short(u.Keys[k]), r, ex)
			}
		}
		var s strings.Builder
		for _, o := range rec.h {
			fmt.Fprintf(&s, "%d%c%d:%v/%d ", o.thread, o.kind, o.key, o.existed, o.old)
		}
		outcomes[s.String()] = true
		c.res.Counters.Checks++
	})
	c.res.Counters.Outcomes += int64(len(outcomes))
	return ok
}

// build creates the initial tree with one reserved allocator per client.
func (sh *shape) build(x *vs.Exec, allocators, pad int) (*radix.Tree, *Universe, model, []*radix.Allocator) {
	u := newU(x, sh.keys)
	t := newTree(allocators)
	x.Quiesce()
	m := model{}
	var allocs []*radix.Allocator
	for i := 0; i < allocators; i++ {
		allocs = append(allocs, t.GetAllocator())
	}
	last := allocs[allocators-1]
	// padding: shifts the addresses of later nodes, hence which of them share a lock
	if pad > 0 {
		for i := 0; i < pad; i++ {
			u.padding(last, i)
		}
	}
	for _, k := range sh.drop {
		u.put(last, k, u.val(k, 0))
	}
	for _, k := range sh.drop {
		u.del(last, k)
	}
	for _, k := range sh.base {
		v := u.val(k, 1)
		u.put(last, k, v)
		m[k] = v
	}
	for _, k := range sh.gone {
		u.put(last, k, u.val(k, 0))
	}
	for _, k := range sh.gone {
		u.del(last, k)
	}
	if sh.extra != nil {
		sh.extra(u, t, last, m)
	}
	if sh.loaded {
		for _, a := range allocs {
			t.ReleaseAllocator(a)
		}
		t = load(x, save(x, t))
		x.Quiesce()
		allocs = allocs[:0]
		for i := 0; i < allocators; i++ {
			allocs = append(allocs, t.GetAllocator())
		}
	}
	return t, u, m, allocs
}

// padding allocates and retires a node of an odd size outside the key alphabet.
func (u *Universe) padding(c client, i int) {
	// three keys: a node of 2 then a node of 3 words = 5 words
	ks := []string{"\x01pad-a", "\x01pad-b", "\x01pad-c"}
	n := len(u.Keys)
	u.Keys = append(u.Keys, ks...)
	for j := range ks {
		u.put(c, n+j, u.val(n+j, 1))
	}
	for j := range ks {
		u.del(c, n+j)
	}
	u.Keys = u.Keys[:n]
}

func init() {
	props["C02"] = func(thorough bool) (ts []Task) {
		pads := []int{0, 1}
		if thorough {
			pads = []int{0, 1, 2, 3}
		}
		write := func(a, b cop) bool { return a.kind != 'g' || b.kind != 'g' }
		ts = append(ts, pairTasks("pairs", concShapes, "pdg", pads, false, write)...)
		ts = append(ts, pairTasks("pairs", mergeShapes, "pdg", pads[:1], false, write)...)
		ts = append(ts, pairTasks("pairs", wideShapes, "pdg", pads[:1], false, write)...)
		ts = append(ts, pairTasks("pairs", holeShapes, "pdg", pads[:1], false, write)...)
		// memory that has been used before, several locks per block
		aged := []concShape{
			{name: "aged", keys: []string{"aaa", "aab", "aba", "baa"}, variant: "s13", drop: []int{0, 1, 2, 3}, masks: []int{15, 7, 11, 13}},
		}
		ts = append(ts, pairTasks("pairs", aged, "pdg", []int{0, 1}, false, write)...)
		// through the tree, with as many clients as allocators
		few := []concShape{
			{name: "flat", keys: []string{"a", "b", "c"}, masks: []int{0, 1, 3, 7}},
			{name: "two", keys: []string{"aa", "ab", "b"}, masks: []int{7, 3}},
		}
		ts = append(ts, pairTasks("tree", few, "pdg", []int{0}, true, write)...)
		// two operations per client, and three clients
		rel := func(a, b, c cop) bool {
			return a.kind != 'g' && (a.key == b.key || b.key == c.key) && (b.kind != 'g' || c.kind != 'g')
		}
		one := []concShape{
			{name: "flat", keys: []string{"a", "b"}, masks: []int{0, 1, 3}},
			{name: "deep", keys: []string{"aaa", "aab", "ab"}, masks: []int{7}},
		}
		if thorough {
			one = append(one[:0], concShapes...)
			one = append(one, wideShapes...)
		}
		ts = append(ts, manyTasks("triples", one, vs.Options{Mode: "pb", Bound: 1}, false, triples("pdg", rel))...)
		ts = append(ts, manyTasks("twice", one, vs.Options{}, false, func(n int) (out [][][]cop) {
			ops := opsOf(n, "pdg")
			for _, a := range ops {
				for _, b := range ops {
					for i, p := range ops {
						// b follows a in one client while p runs in the other
						if (a.kind != 'g' || b.kind != 'g') && p.kind != 'g' && (a.key == p.key || b.key == p.key || i == 0) {
							out = append(out, [][]cop{{a, b}, {p}})
						}
					}
				}
			}
			return
		})...)
		return
	}
}
