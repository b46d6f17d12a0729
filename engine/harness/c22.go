package main

import (
	"bytes"
	"fmt"

	"github.com/jayloop/radix"
	"vs"
)

// readAll reads everything there is to read through cl and the tree and compares it with the model.
func readAll(e *env, cl client, prefixes []string) {
	checkContents(e.x, cl, e.u, e.m)
	for _, p := range prefixes {
		want := e.m.sorted(e.u, p)
		checkIteration(e.x, e.t, e.u, e.m, p)
		_, leaves := radix.NewCounter(e.t).Count([]byte(p))
		lo, okLo := e.t.MinKey([]byte(p))
		hi, okHi := e.t.MaxKey([]byte(p))
		if len(want) == 0 {
			continue
		}
		if leaves != len(want) {
			e.x.Fail("Count(%q) = %d leaves, %d keys are stored", p, leaves, len(want))
		}
		if !okLo || lo != want[0] || !okHi || hi != want[len(want)-1] {
			e.x.Fail("MinKey(%q) = %#x (%v), MaxKey = %#x (%v), stored are %s", p, lo, okLo, hi, okHi, e.u.show(want))
		}
	}
	e.c.res.Counters.Checks++
}

// prepared prepares an operation for key k and returns what aborts and what finalizes it (nil: nothing was prepared).
func prepared(u *Universe, cl client, kind byte, k int, v uint64) (abort func(), finalize func() bool) {
	key := []byte(u.Keys[k])
	if kind == 'd' {
		found, op := cl.PrepareDelete(key)
		if !found {
			return nil, nil
		}
		op.FetchedKey = u.fetch(op.FetchedKey, op.Value)
		if !bytes.Equal(op.FetchedKey, key) {
			return op.Abort, nil
		}
		return op.Abort, op.Finalize
	}
	found, op := cl.PrepareUpdate(key)
	if found {
		op.FetchedKey = u.fetch(op.FetchedKey, op.Value)
		op.Match = bytes.Equal(op.FetchedKey, key)
	}
	return op.Abort, func() bool { return op.Finalize(v) }
}

// observeHeld reads everything while one operation, then two, are prepared and wait for their clients; a read that
// waits for one of them would wait for ever here.
func observeHeld(e *env) {
	keys := e.u.Keys[:e.n]
	prefixes := prefixesOf(keys)
	if len(prefixes) > 6 {
		prefixes = append(prefixes[:5:5], "")
	}
	h1, h2 := e.t.GetAllocator(), e.t.GetAllocator()
	for k := range keys {
		for _, kind := range []byte("pd") {
			abort, _ := prepared(e.u, h1, kind, k, 0)
			if abort == nil {
				continue
			}
			readAll(e, e.t, prefixes)
			abort()
		}
	}
	readAll(e, h1, prefixes[:1])
	// held by one client, finalized after the reads
	for k := range keys {
		_, stored := e.m[k]
		kind := byte('p')
		if stored && k%2 == 1 {
			kind = 'd'
		}
		e.ver++
		v := e.u.val(k, e.ver)
		abort, finalize := prepared(e.u, h2, kind, k, v)
		if finalize == nil {
			e.x.Fail("preparing %c of the key %s found nothing", kind, short(keys[k]))
		}
		readAll(e, e.t, prefixes[:1])
		if k == 0 {
			abort()
			continue
		}
		if !finalize() {
			e.x.Fail("a lone client had a write conflict")
		}
		if kind == 'd' {
			delete(e.m, k)
		} else {
			e.m[k] = v
		}
		readAll(e, e.t, prefixes[:1])
	}
	e.t.ReleaseAllocator(h1)
	e.t.ReleaseAllocator(h2)
}

// waitTasks: a reader that is scheduled at any point of the operations of one or two writers must be able to finish
// without any of them taking another step.
func waitTasks(thorough bool) (ts []Task) {
	type space struct {
		concShape
		prefixes []string
	}
	var sps []space
	for _, s := range concShapes {
		sps = append(sps, space{s, []string{"", s.keys[0][:1]}})
	}
	for _, s := range append(append([]concShape(nil), mergeShapes...), append(wideShapes[:len(wideShapes):len(wideShapes)], holeShapes...)...) {
		if !thorough {
			s.masks = s.masks[:2]
		}
		sps = append(sps, space{s, []string{"", s.keys[0][:1]}})
	}
	for _, s := range sps {
		prefixFree(s.keys)
		for _, rd := range readersOf(s.keys, s.prefixes) {
			ts = append(ts, Task{ID: name("suspended", s.name, rd.name), Variant: s.variant, Run: func(c *Ctx) {
				for _, mask := range s.starts() {
					if !thorough && s.masks == nil && mask%3 != 0 && mask != 1<<len(s.keys)-1 {
						continue
					}
					for _, o := range opsOf(len(s.keys), "pdAb") {
						if c.Stop() {
							return
						}
						c.wait(name(mask, o), vs.Options{Mode: "pb", Bound: pick(thorough, 2, 1)}, s.shape(mask), rd, o)
					}
				}
				c.Sample("%s at every point of every operation on %v", rd.name, s.keys)
			}})
		}
	}
	// two writers, each suspended anywhere
	for _, s := range []space{
		{concShape{name: "flat", keys: []string{"a", "b", "c"}, masks: pick(thorough, []int{1, 3, 7}, []int{3})}, []string{""}},
		{concShape{name: "two", keys: []string{"aa", "ab", "b"}, masks: []int{7}}, []string{"a"}},
	} {
		for _, rd := range readersOf(s.keys, s.prefixes) {
			ts = append(ts, Task{ID: name("both", s.name, rd.name), Variant: s.variant, Run: func(c *Ctx) {
				ops := opsOf(len(s.keys), "pd")
				for _, mask := range s.starts() {
					for i, a := range ops {
						for _, b := range ops[i:] {
							if c.Stop() {
								return
							}
							c.wait(name(mask, a, b), vs.Options{Mode: "pb", Bound: 2, MaxExecs: pick(thorough, int64(0), 4000)}, s.shape(mask), rd, a, b)
						}
					}
				}
				c.Sample("%s at every point of every two operations on %v", rd.name, s.keys)
			}})
		}
	}
	return
}

func (c *Ctx) wait(sub string, opt vs.Options, sh *shape, rd reader, ops ...cop) {
	c.Explore(sub, vs.Config{}, opt, func(x *vs.Exec) {
		t, u, m, allocs := sh.build(x, len(ops)+2, 0)
		t.ReleaseAllocator(allocs[len(ops)+1])
		rec := &recorder{x: x, u: u, vals: map[uint64]bool{}}
		for _, v := range m {
			rec.vals[v] = true
		}
		id := -1
		x.Go("reader", func() {
			id = x.CurrentID()
			rd.f(rec, t, allocs[len(ops)])
		})
		for i, o := range ops {
			x.Go(fmt.Sprintf("writer%d", i), func() { rec.do(allocs[i], o.kind, o.key, u.val(o.key, 100+i)) })
		}
		x.Explore()
		for _, ev := range x.Log {
			if ev.Tid == id && (ev.Op.Kind == vs.KAwait || ev.Op.Kind == vs.KWake) {
				x.Fail("%s had to wait for another client", rd.name)
			}
		}
		for k := range u.Keys {
			rec.do(t, 'g', k, 0)
		}
		checkLinearizable(x, u, m, rec.h)
		c.res.Counters.Checks++
	})
}

func init() {
	props["C22"] = func(thorough bool) (ts []Task) {
		d, wd := 4, 1
		sizes, pre := []int{125, 126, 254}, []int{0, 9}
		if thorough {
			d, wd = 5, 2
			sizes, pre = []int{123, 124, 125, 126, 127, 253, 254}, []int{0, 1, 8, 9, 255, 300}
		}
		for _, sp := range narrowSpaces(d) {
			ts = append(ts, sp.tasks("held", []string{"tree"}, 3, vs.Config{}, observeHeld)...)
		}
		for _, sp := range wideSpaces(wd, sizes, pre) {
			ts = append(ts, sp.tasks("held", []string{"tree"}, 3, vs.Config{}, observeHeld)...)
		}
		return append(ts, waitTasks(thorough)...)
	}
}
