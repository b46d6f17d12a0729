package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/jayloop/radix"
	"vs"
)

// space is a set of histories: every sequence of put/del operations of a given length over an alphabet, from a start
// state. Observers run at every node of the history tree.
type space struct {
	name    string
	keys    []string
	base    []int  // stored at the start
	aged    bool   // start from a saved and loaded index whose free lists are full of used memory
	extra   int    // further stored keys outside the alphabet: children of wide[..]
	prefix  string // of the extra keys
	depth   int
	variant string
	ops     []cop // default: put and del of every alphabet key
	noTree  bool
}

// env is what an observer sees.
type env struct {
	c    *Ctx
	x    *vs.Exec
	t    *radix.Tree
	u    *Universe
	m    model
	cl   client
	n    int // alphabet size; further keys are fixed contents
	hist []cop
	ver  int
	sp   *space

	maxFan int // widest node so far (fan-out tasks)
}

func (e *env) put(k int) {
	e.ver++
	v := e.u.val(k, e.ver)
	old, ex, r := e.u.put(e.cl, k, v)
	w, stored := e.m[k]
	if r > 0 {
		e.x.Fail("put(%s): write conflict although nothing else runs", short(e.u.Keys[k]))
	}
	if ex != stored || ex && old != w {
		e.x.Fail("put(%s) found %d,%v; stored: %d,%v", short(e.u.Keys[k]), old>>keyBits, ex, w>>keyBits, stored)
	}
	e.m[k] = v
}

func (e *env) del(k int) {
	old, ex, r := e.u.del(e.cl, k)
	w, stored := e.m[k]
	if r > 0 {
		e.x.Fail("delete(%s): write conflict although nothing else runs", short(e.u.Keys[k]))
	}
	if ex != stored || ex && old != w {
		e.x.Fail("delete(%s) found %d,%v; stored: %d,%v", short(e.u.Keys[k]), old>>keyBits, ex, w>>keyBits, stored)
	}
	delete(e.m, k)
}

func (e *env) do(o cop) {
	switch o.kind {
	case 'p':
		e.put(o.key)
	case 'd':
		e.del(o.key)
	case 'g':
		checkKey(e.x, e.cl, e.u, e.m, o.key)
	}
}

func histString(h []cop) string {
	var b strings.Builder
	for i, o := range h {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(o.String())
	}
	return b.String()
}

// wideBytes are the branch bytes of the extra keys: spread out, leaving room for alphabet keys.
func wideByte(i int) byte { return byte(2*i + 1 + (2*i+1)/256*255) }

// allKeys is the alphabet followed by the fixed keys.
func (sp *space) allKeys() []string {
	ks := append([]string(nil), sp.keys...)
	used := map[byte]bool{}
	for _, k := range sp.keys {
		if strings.HasPrefix(k, sp.prefix) && len(k) > len(sp.prefix) {
			used[k[len(sp.prefix)]] = true
		}
	}
	n := 0
	for i := 0; n < sp.extra && i < 256; i++ {
		// 1,3,5..255,0,2,4..
		b := byte(2*i + 1)
		if i >= 128 {
			b = byte(2 * (i - 128))
		}
		if used[b] {
			continue
		}
		ks = append(ks, sp.prefix+string([]byte{b}))
		n++
	}
	return ks
}

var stateCache = map[string][]byte{}

// churn fills the free lists of every allocator with nodes of all sizes and moves the epoch on.
func churn(x *vs.Exec, t *radix.Tree, cl client, wide bool, rounds int) {
	var ks []string
	for i := 0; i < 12; i++ {
		ks = append(ks, fmt.Sprintf("~churn-%s%c", "0123456789abcdef"[:i], 'g'+i))
	}
	for i := 0; i < 6; i++ {
		ks = append(ks, fmt.Sprintf("~churn%c", 'A'+i))
	}
	u := &Universe{Keys: ks, Fail: x.Fail}
	for r := 0; r < rounds; r++ {
		for k := range ks {
			u.put(cl, k, u.val(k, 1<<20))
		}
		for k := range ks {
			u.del(cl, (k*7+r)%len(ks))
		}
	}
	for w := 0; wide && w < 2; w++ {
		// a wide node, retired by a split of its prefix, which leaves a narrow tree
		p := []string{"~wide-pr-0-", "~wide-prefix-1-"}[w]
		u := &Universe{Fail: x.Fail}
		for i := 0; i < 130; i++ {
			u.Keys = append(u.Keys, p+string([]byte{byte(i + 1)}))
		}
		u.Keys = append(u.Keys, "~wide+")
		for k := range u.Keys {
			u.put(cl, k, u.val(k, 1<<20))
		}
		for k := range u.Keys {
			u.del(cl, k)
		}
	}
}

// start builds the initial index of a space.
func (sp *space) start(c *Ctx, x *vs.Exec, allocators int) (*radix.Tree, *Universe, model) {
	u := newU(x, sp.allKeys())
	m := model{}
	fill := func(t *radix.Tree) {
		for k := range u.Keys {
			if k >= len(sp.keys) {
				u.put(t, k, u.val(k, 1))
			}
		}
		for _, k := range sp.base {
			u.put(t, k, u.val(k, 1))
		}
	}
	for k := range u.Keys {
		if k >= len(sp.keys) {
			m[k] = u.val(k, 1)
		}
	}
	for _, k := range sp.base {
		m[k] = u.val(k, 1)
	}
	if !sp.aged {
		t := newTree(allocators)
		fill(t)
		return t, u, m
	}
	id := fmt.Sprint(sp.name, sp.base, sp.extra, sp.prefix, allocators)
	b := stateCache[id]
	if b == nil {
		b = agedState(x, allocators, sp.variant == "s13" && sp.extra < 200, fill)
		stateCache[id] = b
	}
	t, err := radix.NewTreeFromState(bytes.NewReader(b))
	if err != nil {
		x.Fail("loading a saved index: %v", err)
	}
	return t, u, m
}

func agedState(x *vs.Exec, allocators int, wide bool, fill func(t *radix.Tree)) []byte {
	t := newTree(allocators)
	for i := 0; i < allocators; i++ {
		var held []*radix.Allocator
		for len(held) < i {
			held = append(held, t.GetAllocator())
		}
		a := t.GetAllocator()
		churn(x, t, a, wide, 40)
		t.ReleaseAllocator(a)
		for _, h := range held {
			t.ReleaseAllocator(h)
		}
	}
	fill(t)
	x.Quiesce()
	t.Stop()
	var buf bytes.Buffer
	if _, err := t.WriteState(&buf); err != nil {
		x.Fail("saving: %v", err)
	}
	t.Close()
	return buf.Bytes()
}

// enumerate visits every history of the space that starts with the given operations.
func (c *Ctx) enumerate(sp *space, client string, first []int, allocators int, cfg vs.Config, observe func(e *env)) {
	prefixFree(sp.allKeys())
	ops := sp.operations()
	idx := make([]int, sp.depth)
	copy(idx, first)
	for {
		if c.Stop() {
			return
		}
		h := make([]cop, sp.depth)
		for i := range h {
			h[i] = ops[idx[i]]
		}
		// observe at position i (after i operations) if the rest of the history is the first one
		from := sp.depth
		for from > len(first) && idx[from-1] == 0 {
			from--
		}
		if from == len(first) {
			all := true
			for _, i := range first {
				all = all && i == 0
			}
			if all {
				from = 0
			}
		}
		id := sp.name + "/" + client + "/" + histString(h)
		nodes := 0
		checks := 0
		c.Seq(id, cfg, func(x *vs.Exec) {
			nodes, checks = 0, 0
			t, u, m := sp.start(c, x, allocators)
			e := &env{c: c, x: x, t: t, u: u, m: m, n: len(sp.keys), hist: h, ver: 1, sp: sp}
			e.cl = t
			var a *radix.Allocator
			if client == "alloc" {
				a = t.GetAllocator()
				e.cl = a
			}
			for i := 0; i <= len(h); i++ {
				if i >= from {
					nodes++
					checks++
					if a != nil {
						t.ReleaseAllocator(a)
					}
					observe(e)
					if a != nil {
						a = t.GetAllocator()
						e.cl = a
					}
				}
				if i < len(h) {
					x.Note("%v %s", h[i], short(u.Keys[h[i].key]))
					e.do(h[i])
				}
			}
		})
		c.res.Counters.States += int64(nodes)
		c.res.Counters.Checks += int64(checks)
		if len(c.res.Samples) == 0 && idx[sp.depth-1] == len(ops)-1 {
			c.Sample("from %s (%s client): %s over keys %s", sp.describe(), client, histString(h), shortList(sp.keys))
		}
		// next
		i := sp.depth - 1
		for ; i >= len(first); i-- {
			idx[i]++
			if idx[i] < len(ops) {
				break
			}
			idx[i] = 0
		}
		if i < len(first) {
			return
		}
	}
}

func (sp *space) describe() string {
	s := fmt.Sprintf("%d stored keys", len(sp.base)+sp.extra)
	if sp.aged {
		s += " with used free lists"
	}
	return s
}

func shortList(ks []string) string {
	var o []string
	for _, k := range ks {
		o = append(o, short(k))
	}
	return strings.Join(o, ",")
}

func (sp *space) operations() []cop {
	if sp.ops != nil {
		return sp.ops
	}
	var ops []cop
	for k := range sp.keys {
		ops = append(ops, cop{'p', k}, cop{'d', k})
	}
	return ops
}

// tasks splits the space by its first operations.
func (sp *space) tasks(prefix string, clients []string, allocators int, cfg vs.Config, observe func(e *env)) (ts []Task) {
	ops := sp.operations()
	split := 1
	total := 1.0
	for i := 0; i < sp.depth; i++ {
		total *= float64(len(ops))
	}
	if total < 3000 {
		split = 0
	}
	if total > 100000 {
		split = 2
	}
	if split > sp.depth {
		split = sp.depth
	}
	for _, cl := range clients {
		first := make([]int, split)
		for {
			f := append([]int(nil), first...)
			id := name(prefix, sp.name, cl)
			for _, i := range f {
				id += "/" + ops[i].String()
			}
			ts = append(ts, Task{ID: id, Variant: sp.variant, Run: func(c *Ctx) {
				c.enumerate(sp, cl, f, allocators, cfg, observe)
			}})
			i := split - 1
			for ; i >= 0; i-- {
				first[i]++
				if first[i] < len(ops) {
					break
				}
				first[i] = 0
			}
			if i < 0 {
				break
			}
		}
	}
	return
}

func rep(s string, n int) string { return strings.Repeat(s, n) }

// mixed is a text of n bytes in which neighbours, and bytes a word apart, differ.
func mixed(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + byte((i*7+i/8)%25)
	}
	return string(b)
}

// alphabets
var alphabets = map[string][]string{
	// one byte keys: a single node, emptied and refilled
	"flat": {"a", "b", "c", "d"},
	// nested nodes without compressed paths, down to an index of one key
	"nest": {"aaa", "aab", "aba", "b"},
	// compressed paths shorter than, equal to and longer than a word; split in the middle and at the end
	"path": {"prefix-xa", "prefix-xb", "prefiQ", "prefix-y"},
	// zero and 255 bytes, different lengths
	"zero": {"\x00", "\xff\x00", "\xff\xff\x00\x00", "\xff\xff\x00\xff"},
	// merges of two compressed paths, one or both longer than a word
	"merge": {"0123456789abcdefgx-1", "0123456789abcdefgx-2", "0123456789abcdefgy", "012345678z"},
	// merges and splits that cross the 255 byte limit of short prefixes
	"huge": {mixed(200) + "x" + mixed(60) + "1", mixed(200) + "x" + mixed(60) + "2", mixed(200) + "y", mixed(100) + "Z"},
	// a path of more than 255 bytes below the root, split and joined again
	"below": {"m", "k" + mixed(257) + "1", "k" + mixed(257) + "2", "k" + mixed(100) + "Z"},
}

// narrowSpaces: the spaces of all sequential properties. depth is the history length from the empty index; from the
// populated start states it is one less.
func narrowSpaces(depth int) (sps []*space) {
	for _, n := range sortedKeys(alphabets) {
		ks := alphabets[n]
		sps = append(sps, &space{name: n, keys: ks, depth: depth, variant: "s10"})
		sps = append(sps, &space{name: n + "-aged", keys: ks, base: []int{0, 1, 2}, aged: true, depth: depth - 1, variant: "e3"})
	}
	// nodes that are wide from 4 children on
	d := depth - 2
	sps = append(sps,
		&space{name: "w4root", keys: []string{"a", "b", "c", "d", "e"}, base: []int{0, 1, 2}, depth: d + 1, variant: "w4"},
		&space{name: "w4path", keys: []string{"prefix-xa", "prefix-xb", "prefix-xc", "prefix-xd1", "prefix-xd2", "prefix-y"}, base: []int{0, 1, 2, 3}, depth: d, variant: "w4"},
		&space{name: "w4zero", keys: []string{"\x00a", "\x00\x00", "\x00\xff", "\x00b", "\xff", "\x01"}, base: []int{0, 1, 2, 3, 4}, depth: d, variant: "w4"},
		&space{name: "w4aged", keys: []string{"123456789a", "123456789b", "123456789c", "123456789d", "1234z", "123456789ex"}, base: []int{0, 1, 2}, aged: true, depth: d, variant: "wie"},
		&space{name: "w4nest", keys: []string{"aa", "ab", "ac", "ad", "b", "c"}, base: []int{0, 1, 2, 3, 4, 5}, aged: true, depth: d, variant: "wie"},
	)
	return
}

// wideSpaces: around the switch to a node of 256, full nodes, under several prefixes. The alphabet holds two further
// children, and two keys below one child.
func wideSpaces(depth int, sizes []int, prefixes []int) (sps []*space) {
	for _, pl := range prefixes {
		p := rep("p", pl)
		if pl > 1 {
			p = rep("p", pl-1) + "q"
		}
		for _, n := range sizes {
			ks := []string{p + "\x02", p + "\xfe\x00", p + "\xfe\x01"}
			if pl > 0 {
				ks = append(ks, p[:pl-1]+"\x80")
			}
			sps = append(sps, &space{name: fmt.Sprintf("wide%d-p%d", n, pl), keys: ks, base: []int{1}, extra: n, prefix: p, aged: true, depth: depth, variant: "s13"})
		}
	}
	return
}

// prefixesOf lists the prefixes of the alphabet's keys, and foreign ones.
func prefixesOf(keys []string) (ps []string) {
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			ps = append(ps, s)
		}
	}
	add("")
	for _, k := range keys {
		for i := 1; i <= len(k); i++ {
			if len(k) > 12 && i > 4 && i < len(k)-3 && (i%8 > 1 || len(k) > 64 && i%32 > 9) && (i < 250 || i > 258) && (i < 197 || i > 204) && (i < 99 || i > 102) {
				continue
			}
			add(k[:i])
		}
		add(k + "\x00")
		add(k + "zz")
		add(k[:len(k)/2] + "\x7f")
	}
	return
}
