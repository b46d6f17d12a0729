package main

import (
	"bytes"
	"fmt"

	"github.com/jayloop/radix"
	"vs"
)

// snapshot is everything a user can see of an index.
func snapshot(x *vs.Exec, t *radix.Tree, limit int) string {
	c := radix.NewCounter(t)
	nodes, leaves := c.Count(nil)
	s := fmt.Sprint(nodes, leaves, c.NodesWithPrefix, c.TotalPrefixLength, c.TotalPrefixBytes, c.LargePrefixes)
	for i, n := range c.NodeSizes {
		if n > 0 {
			s += fmt.Sprintf(" %d*%d", n, i)
		}
	}
	return s + fmt.Sprint(" len=", t.Len(), " ", iterate(x, t, "", limit), " blocks=", stat(t, "blocks_allocated"))
}

// abortKinds of a prepared operation: update left unmatched, update matched, update with a fetched key left empty, delete.
const abortKinds = "aAeb"

// prepareAbort prepares an operation for any key and returns what aborts it (nil: nothing was prepared).
func prepareAbort(u *Universe, cl client, kind byte, key []byte) func() {
	if kind == 'b' {
		found, op := cl.PrepareDelete(key)
		if !found {
			return nil
		}
		op.FetchedKey = u.fetch(op.FetchedKey, op.Value)
		return op.Abort
	}
	found, op := cl.PrepareUpdate(key)
	if found {
		v := u.fetch(op.FetchedKey, op.Value)
		if kind != 'e' {
			op.FetchedKey = v
		}
		op.Match = kind == 'A' && bytes.Equal(v, key)
	}
	return op.Abort
}

// observeAborts aborts every kind of operation on every key and sees that nothing has changed, then that everything
// can still be changed.
func observeAborts(e *env) {
	keys := e.u.Keys[:e.n]
	limit := len(e.m) + 1
	before := snapshot(e.x, e.t, limit)
	check := func(what string, k any) {
		if now := snapshot(e.x, e.t, limit); now != before {
			e.x.Fail("%s %v: the index was\n    %s\n  and is\n    %s", what, k, before, now)
		}
	}
	var alloc *radix.Allocator
	for _, by := range []string{"tree", "alloc"} {
		var cl client = e.t
		if by == "alloc" {
			alloc = e.t.GetAllocator()
			cl = alloc
		}
		for k := range keys {
			for _, kind := range []byte(abortKinds) {
				if f := prepareAbort(e.u, cl, kind, []byte(keys[k])); f != nil {
					f()
				}
			}
		}
		// deletes accept any key
		for _, p := range prefixesOf(keys) {
			if f := prepareAbort(e.u, cl, 'b', []byte(p)); f != nil {
				f()
			}
		}
		if alloc != nil {
			e.t.ReleaseAllocator(alloc)
		}
		check("after aborting operations through", by)
	}
	checkContents(e.x, e.cl, e.u, e.m)
	// every key is still writable: updates and deletes that end with the contents there were
	for k := range keys {
		_, stored := e.m[k]
		e.put(k)
		if !stored {
			e.del(k)
		} else if k%2 == 0 {
			e.del(k)
			e.put(k)
		}
	}
	for k := range e.u.Keys {
		if k < e.n+3 {
			checkKey(e.x, e.cl, e.u, e.m, k)
		}
	}
}

// soloAborts: one kind of abort on one key, as the last of a history, and each key written afterwards.
func soloAborts(e *env) {
	keys := e.u.Keys[:e.n]
	limit := len(e.m) + 1
	before := snapshot(e.x, e.t, limit)
	for k := range keys {
		for _, kind := range []byte(abortKinds) {
			if f := prepareAbort(e.u, e.cl, kind, []byte(keys[k])); f != nil {
				f()
			}
			if now := snapshot(e.x, e.t, limit); now != before {
				e.x.Fail("aborting %c of %s: the index was\n    %s\n  and is\n    %s", kind, short(keys[k]), before, now)
			}
		}
	}
	// many aborts use no memory
	for i := 0; i < 60; i++ {
		for k := range keys {
			if f := prepareAbort(e.u, e.cl, abortKinds[i%4], []byte(keys[k])); f != nil {
				f()
			}
		}
	}
	if now := snapshot(e.x, e.t, limit); now != before {
		e.x.Fail("60 aborts: the index was\n    %s\n  and is\n    %s", before, now)
	}
}

// abortConcTasks: an operation that is prepared and aborted beside every other operation, all interleavings.
func abortConcTasks(thorough bool) (ts []Task) {
	shapes := append(append([]concShape(nil), concShapes...), mergeShapes[0], wideShapes[0], wideShapes[2])
	if thorough {
		shapes = append(append(append(shapes[:0], concShapes...), mergeShapes...), wideShapes...)
	}
	keep := func(a, b cop) bool {
		ab := func(o cop) bool { return o.kind == 'a' || o.kind == 'A' || o.kind == 'b' }
		return ab(a) != ab(b) || ab(a) && ab(b) && thorough
	}
	ts = append(ts, pairTasks("pairs", shapes, "aAbpd", []int{0}, false, keep)...)
	// an aborted operation between two others, and two clients that abort beside a writer
	few := []concShape{
		{name: "flat", keys: []string{"a", "b"}, masks: []int{1, 3}},
		{name: "two", keys: []string{"aa", "ab", "b"}, masks: []int{7}},
	}
	ts = append(ts, manyTasks("between", few, vs.Options{Mode: "pb", Bound: 2}, false, func(n int) (out [][][]cop) {
		for _, a := range opsOf(n, "Ab") {
			for _, b := range opsOf(n, "pd") {
				for _, p := range opsOf(n, "pd") {
					if a.key == b.key || a.key == p.key {
						out = append(out, [][]cop{{a, b}, {p}})
					}
				}
			}
		}
		return
	})...)
	ts = append(ts, manyTasks("triples", few, vs.Options{Mode: "pb", Bound: 1}, false, triples("Abpd", func(a, b, c cop) bool {
		n := 0
		for _, o := range []cop{a, b, c} {
			if o.kind == 'A' || o.kind == 'b' {
				n++
			}
		}
		return n == 1 || n == 2
	}))...)
	return
}

func init() {
	props["C13"] = func(thorough bool) (ts []Task) {
		d, wd := 4, 2
		sizes, pre := []int{125, 126, 254}, []int{0, 9}
		if thorough {
			d, wd = 5, 2
			sizes, pre = []int{123, 124, 125, 126, 127, 253, 254}, []int{0, 1, 8, 9, 255, 300}
		}
		for _, sp := range narrowSpaces(d) {
			ts = append(ts, sp.tasks("hist", []string{"tree"}, 1, vs.Config{}, observeAborts)...)
		}
		for _, sp := range narrowSpaces(d - 1) {
			ts = append(ts, sp.tasks("solo", []string{"tree", "alloc"}[:1], 1, vs.Config{}, soloAborts)...)
		}
		for _, sp := range wideSpaces(wd, sizes, pre) {
			ts = append(ts, sp.tasks("hist", []string{"tree"}, 1, vs.Config{}, observeAborts)...)
		}
		ts = append(ts, abortConcTasks(thorough)...)
		ts = append(ts, bystanderTasks("idle", true)...)
		return
	}
}
