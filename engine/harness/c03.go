package main

import (
	"fmt"

	"vs"
)

// concShapes are the initial trees of the concurrent properties: every subset of a key alphabet is a start state.
type concShape struct {
	name    string
	keys    []string
	variant string
	masks   []int // nil: all
	drop    []int
	wide    []int // keys of this list that are not in the mask have been stored and deleted again
	loaded  bool
}

func (s *concShape) shape(mask int) *shape {
	sh := &shape{keys: s.keys, base: maskKeys(mask), drop: s.drop, loaded: s.loaded}
	for _, k := range s.wide {
		if mask>>k&1 == 0 {
			sh.gone = append(sh.gone, k)
		}
	}
	return sh
}

func (s *concShape) starts() []int {
	if s.masks != nil {
		return s.masks
	}
	var ms []int
	combos(len(s.keys), func(m int) { ms = append(ms, m) })
	return ms
}

func maskKeys(m int) (ks []int) {
	for k := 0; m>>k != 0; k++ {
		if m>>k&1 == 1 {
			ks = append(ks, k)
		}
	}
	return
}

var concShapes = []concShape{
	{name: "flat", keys: []string{"a", "b", "c"}},
	{name: "two", keys: []string{"aa", "ab", "ba", "bb"}},
	{name: "deep", keys: []string{"aaa", "aab", "aba", "baa"}},
	{name: "path", keys: []string{"xyzaa", "xyzab", "xyqa", "m"}},
}

// trees whose nodes become wide at 4 branches: growing to a wide node, inside wide nodes, above and below them
var wideShapes = []concShape{
	{name: "w-grow", keys: []string{"a", "b", "c", "d", "e"}, variant: "w4", masks: []int{7, 15, 31, 11, 27}},
	{name: "w-path", keys: []string{"xya", "xyb", "xyc", "xyd", "xz"}, variant: "w4", masks: []int{7, 15, 31, 16 + 7}},
	{name: "w-below", keys: []string{"aa", "ab", "b", "c", "d"}, variant: "w4", masks: []int{31, 29, 28, 1 + 4 + 8}},
	{name: "w-above", keys: []string{"aaa", "aab", "aac", "aad", "ab", "b"}, variant: "w4", masks: []int{15 + 16 + 32, 7 + 16 + 32, 15 + 32, 7 + 16}},
}

// wide nodes with absent branches, below a prefix that is split and merged, and above and below other nodes
var holeShapes = []concShape{
	{name: "w-hole", keys: []string{"xya", "xyb", "xyc", "xyd", "xz"}, variant: "w4", wide: []int{0, 1, 2, 3}, masks: []int{7, 16 + 7, 16 + 1, 0}},
	{name: "w-hole-below", keys: []string{"aa", "ab", "b", "c", "d"}, variant: "w4", wide: []int{1, 2, 3, 4}, masks: []int{3, 28, 2}},
}

// merging a leaf away above, inside and below a node whose children change meanwhile
var mergeShapes = []concShape{
	{name: "merge", keys: []string{"aaa", "aab", "aac", "aba", "baa"}, masks: []int{31, 27, 11, 15, 9, 25, 13}},
	{name: "merge-path", keys: []string{"a123b1", "a123b2", "a123c", "a12x", "z"}, masks: []int{31, 15, 7, 3, 27, 19}},
}

func opsOf(n int, kinds string) (ops []cop) {
	for k := 0; k < n; k++ {
		for _, kind := range []byte(kinds) {
			ops = append(ops, cop{kind, k})
		}
	}
	return
}

// pairTasks: every pair of operations on every start state, all interleavings.
func pairTasks(prefix string, shapes []concShape, kinds string, pads []int, treeLevel bool, keep func(a, b cop) bool) (ts []Task) {
	for _, s := range shapes {
		prefixFree(s.keys)
		for _, mask := range s.starts() {
			sh := s.shape(mask)
			parts := 1
			if len(s.keys) > 3 && bitsOf(mask) > 2 {
				parts = len(s.keys)
			}
			for part := 0; part < parts; part++ {
				ts = append(ts, Task{ID: name(prefix, s.name, fmt.Sprintf("%0*b", len(s.keys), mask), part), Variant: s.variant, Run: func(c *Ctx) {
					ops := opsOf(len(s.keys), kinds)
					for _, pad := range pads {
						for i, a := range ops {
							if a.key%parts != part {
								continue
							}
							for _, b := range ops[i:] {
								if keep != nil && !keep(a, b) {
									continue
								}
								if c.Stop() {
									return
								}
								c2(c, name("pad", pad, a, b), vs.Options{}, sh, pad, treeLevel, [][]cop{{a}, {b}}, nil)
							}
						}
					}
					c.Sample("keys %v, stored %v: all pairs of operations of kinds %q under all interleavings", s.keys, sh.base, kinds)
				}})
			}
		}
	}
	return
}

// manyTasks: the given threads on the start states.
func manyTasks(prefix string, shapes []concShape, opt vs.Options, treeLevel bool, threads func(n int) [][][]cop) (ts []Task) {
	for _, s := range shapes {
		for _, mask := range s.starts() {
			sh := s.shape(mask)
			parts := 1
			if len(threads(len(s.keys))) >= 30 && bitsOf(mask) > 1 {
				parts = 8
			}
			for part := 0; part < parts; part++ {
				ts = append(ts, Task{ID: name(prefix, s.name, fmt.Sprintf("%0*b", len(s.keys), mask), part), Variant: s.variant, Run: func(c *Ctx) {
					for i, th := range threads(len(s.keys)) {
						if i%parts != part {
							continue
						}
						if c.Stop() {
							return
						}
						c2(c, fmt.Sprint(th), opt, sh, 0, treeLevel, th, nil)
					}
					c.Sample("keys %v, stored %v: three clients", s.keys, sh.base)
				}})
			}
		}
	}
	return
}

// triples of single operations
func triples(kinds string, keep func(a, b, c cop) bool) func(n int) [][][]cop {
	return func(n int) (out [][][]cop) {
		ops := opsOf(n, kinds)
		for i, a := range ops {
			for j := i; j < len(ops); j++ {
				for k := j; k < len(ops); k++ {
					if keep(a, ops[j], ops[k]) {
						out = append(out, [][]cop{{a}, {ops[j]}, {ops[k]}})
					}
				}
			}
		}
		return
	}
}

func init() {
	props["C03"] = func(thorough bool) (ts []Task) {
		pads := []int{0}
		if thorough {
			pads = []int{0, 1, 2}
		}
		// different keys: increments and deletes; the same key: every pair
		rmw := func(a, b cop) bool {
			ix := func(o cop) bool { return o.kind == 'i' || o.kind == 'x' }
			return a.key == b.key || ix(a) && ix(b)
		}
		all := append(append(append([]concShape(nil), concShapes...), mergeShapes...), append(wideShapes[:len(wideShapes):len(wideShapes)], holeShapes...)...)
		ts = append(ts, pairTasks("pairs", all, "inox", pads, false, rmw)...)
		if thorough {
			ts = append(ts, pairTasks("pairs-all", all, "inox", []int{1}, false, func(a, b cop) bool { return !rmw(a, b) })...)
		}
		same := func(a, b, c cop) bool { return a.key == b.key && b.key == c.key }
		near := func(a, b, c cop) bool {
			return a.key != c.key && (a.key == b.key || b.key == c.key || c.key-a.key == 2) && a.kind != 'n' && b.kind != 'n' && c.kind != 'n'
		}
		few := []concShape{
			{name: "flat", keys: []string{"a", "b", "c"}, masks: []int{0, 1, 3, 7}},
			{name: "two", keys: []string{"aa", "ab", "ba", "bb"}, masks: []int{15}},
			{name: "w-grow", keys: []string{"a", "b", "c", "d"}, variant: "w4", masks: []int{7, 15}},
		}
		if thorough {
			few = append(append(few[:0], concShapes...), wideShapes...)
		}
		ts = append(ts, manyTasks("triples", few, vs.Options{Mode: "pb", Bound: 1}, false, triples("ind", same))...)
		if thorough {
			ts = append(ts, manyTasks("triples-near", all, vs.Options{Mode: "pb", Bound: 1}, false, triples("ind", near))...)
			ts = append(ts, manyTasks("triples2", concShapes[:2], vs.Options{Mode: "pb", Bound: 2}, false, triples("id", same))...)
			ts = append(ts, manyTasks("triples2", wideShapes[:2], vs.Options{Mode: "pb", Bound: 2}, false, triples("id", same))...)
		}
		return
	}
}
