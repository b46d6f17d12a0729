package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/jayloop/radix"
	"vs"
)

// Universe is a prefix-free key alphabet. The value stored for key k in version v encodes both, so that the full key
// of any stored value can be fetched, as a user would from permanent storage.
type Universe struct {
	Keys []string
	// FetchFail is told about values that belong to no key
	Fail func(format string, a ...any)
}

const keyBits = 12

func (u *Universe) val(k, ver int) uint64 { return uint64(ver)<<keyBits | uint64(k) }

func (u *Universe) keyOf(v uint64) (k int, ok bool) {
	k = int(v & (1<<keyBits - 1))
	return k, k < len(u.Keys) && v>>keyBits < 1<<30
}

func (u *Universe) fetch(dst []byte, v uint64) []byte {
	k, ok := u.keyOf(v)
	if !ok {
		u.Fail("the index handed out the value %#x, which nobody stored", v)
	}
	return append(dst[:0], u.Keys[k]...)
}

// client is the part of the API shared by Tree and Allocator.
type client interface {
	Lookup(key []byte) (uint64, bool)
	PrepareUpdate(key []byte) (bool, *radix.UpdateOperation)
	PrepareDelete(key []byte) (bool, *radix.DeleteOperation)
}

// put stores value v under key k, restarting on conflicts; it reports the value replaced, if any.
func (u *Universe) put(c client, k int, v uint64) (old uint64, existed bool, restarts int) {
	key := []byte(u.Keys[k])
	for {
		found, op := c.PrepareUpdate(key)
		old, existed = 0, false
		if found {
			op.FetchedKey = u.fetch(op.FetchedKey, op.Value)
			if bytes.Equal(op.FetchedKey, key) {
				op.Match = true
				old, existed = op.Value, true
			}
		}
		if op.Finalize(v) {
			return
		}
		restarts++
	}
}

// del removes key k; it reports the value removed, if any.
func (u *Universe) del(c client, k int) (old uint64, existed bool, restarts int) {
	key := []byte(u.Keys[k])
	for {
		found, op := c.PrepareDelete(key)
		if !found {
			return 0, false, restarts
		}
		op.FetchedKey = u.fetch(op.FetchedKey, op.Value)
		if !bytes.Equal(op.FetchedKey, key) {
			op.Abort()
			return 0, false, restarts
		}
		old = op.Value
		if op.Finalize() {
			return old, true, restarts
		}
		restarts++
	}
}

// get looks key k up. candidate is the raw value when it belongs to another key.
func (u *Universe) get(c client, k int) (v uint64, ok bool, candidate uint64, isCand bool) {
	v, found := c.Lookup([]byte(u.Keys[k]))
	if !found {
		return 0, false, 0, false
	}
	kk, valid := u.keyOf(v)
	if !valid {
		u.Fail("Lookup(%q) returned %#x, which nobody stored", u.Keys[k], v)
	}
	if kk == k {
		return v, true, 0, false
	}
	return 0, false, v, true
}

func newU(x *vs.Exec, keys []string) *Universe {
	return &Universe{Keys: keys, Fail: x.Fail}
}

// model is the reference: a map from key number to value.
type model map[int]uint64

func (m model) clone() model {
	c := model{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

// sorted returns the stored keys' values in key order, restricted to a prefix.
func (m model) sorted(u *Universe, prefix string) (vals []uint64) {
	var ks []int
	for k := range m {
		if strings.HasPrefix(u.Keys[k], prefix) {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return u.Keys[ks[i]] < u.Keys[ks[j]] })
	for _, k := range ks {
		vals = append(vals, m[k])
	}
	return
}

func (m model) String() string { return fmt.Sprint(map[int]uint64(m)) }

// branchPoints counts the distinct proper prefixes after which stored keys (under prefix) differ.
func (m model) branchPoints(u *Universe, prefix string) int {
	n := 0
	for _, b := range m.branching(u) {
		if strings.HasPrefix(b.prefix, prefix) {
			n++
		}
	}
	return n
}

// a branchPoint is a prefix after which stored keys differ.
type branchPoint struct {
	prefix string
	fan    int // different next bytes
	path   int // length of the part below the branching point above
}

// branching lists the branching points of the stored keys.
func (m model) branching(u *Universe) (bs []branchPoint) {
	var ks []string
	for k := range m {
		ks = append(ks, u.Keys[k])
	}
	sort.Strings(ks)
	fans := map[string]int{}
	for i := 1; i < len(ks); i++ {
		n := 0
		for n < len(ks[i-1]) && n < len(ks[i]) && ks[i-1][n] == ks[i][n] {
			n++
		}
		// in sorted order, every further branch of a branching point begins with one such neighbour
		if fans[ks[i][:n]]++; fans[ks[i][:n]] == 1 {
			fans[ks[i][:n]] = 2
		}
	}
	for p, f := range fans {
		above := -1
		for q := range fans {
			if len(q) < len(p) && len(q) > above && strings.HasPrefix(p, q) {
				above = len(q)
			}
		}
		bs = append(bs, branchPoint{p, f, len(p) - above - 1})
	}
	return
}

// iterate lists an index; more than limit values are reported as endless.
func iterate(x *vs.Exec, t *radix.Tree, prefix string, limit int) (vals []uint64) {
	it := t.NewIterator([]byte(prefix))
	for it.Next() {
		vals = append(vals, it.Value())
		if len(vals) > limit {
			x.Fail("iteration with prefix %q returned more than %d values", prefix, limit)
		}
	}
	if it.Next() {
		x.Fail("Next returned true after the end")
	}
	it.Close()
	return
}

func equal(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// checkIteration compares an iteration with the model (nothing under the prefix: at most one other value).
func checkIteration(x *vs.Exec, t *radix.Tree, u *Universe, m model, prefix string) {
	got := iterate(x, t, prefix, len(m)+1)
	verifyIteration(x, u, m, prefix, got, "iteration")
}

func verifyIteration(x *vs.Exec, u *Universe, m model, prefix string, got []uint64, what string) {
	want := m.sorted(u, prefix)
	if equal(got, want) {
		return
	}
	if len(want) == 0 && len(got) == 1 && storedValue(u, m, got[0]) {
		return
	}
	x.Fail("%s with prefix %q returned %s, stored: %s", what, prefix, u.show(got), u.show(want))
}

func storedValue(u *Universe, m model, v uint64) bool {
	k, ok := u.keyOf(v)
	return ok && m[k] == v
}

func (u *Universe) show(vals []uint64) string {
	var b strings.Builder
	b.WriteByte('[')
	for i, v := range vals {
		if i > 0 {
			b.WriteByte(' ')
		}
		if i > 20 {
			fmt.Fprintf(&b, "... %d values", len(vals))
			break
		}
		if k, ok := u.keyOf(v); ok {
			fmt.Fprintf(&b, "%s=%d", short(u.Keys[k]), v>>keyBits)
		} else {
			fmt.Fprintf(&b, "%#x", v)
		}
	}
	b.WriteByte(']')
	return b.String()
}

func short(s string) string {
	if len(s) > 24 {
		return fmt.Sprintf("%.10q..%d..%.10q", s[:6], len(s), s[len(s)-6:])
	}
	return fmt.Sprintf("%q", s)
}

// checkContents compares every key of the universe, stored or not, with the model.
func checkContents(x *vs.Exec, c client, u *Universe, m model) {
	for k := range u.Keys {
		checkKey(x, c, u, m, k)
	}
}

func checkKey(x *vs.Exec, c client, u *Universe, m model, k int) {
	v, ok, cand, isCand := u.get(c, k)
	want, stored := m[k]
	if ok != stored || v != want {
		x.Fail("Lookup(%s) = %d,%v; stored: %d,%v", short(u.Keys[k]), v>>keyBits, ok, want>>keyBits, stored)
	}
	if isCand && !storedValue(u, m, cand) {
		x.Fail("Lookup(%s) proposed %#x, which is not stored now", short(u.Keys[k]), cand)
	}
}

// history of a concurrent execution
type hop struct {
	thread    int
	key       int
	kind      byte // 'p'ut, 'd'elete, 'g'et
	val       uint64
	old       uint64
	existed   bool
	call, ret int
}

func (h hop) show(u *Universe) string {
	switch h.kind {
	case 'p':
		return fmt.Sprintf("[%d-%d] t%d put(%s, %d) replaced=%v/%d", h.call, h.ret, h.thread, short(u.Keys[h.key]), h.val>>keyBits, h.existed, h.old>>keyBits)
	case 'i', 'n', 'o':
		return fmt.Sprintf("[%d-%d] t%d %s(%s, %d) found=%v/%d", h.call, h.ret, h.thread, map[byte]string{'i': "increment", 'n': "insertIfAbsent", 'o': "putOnce"}[h.kind], short(u.Keys[h.key]), h.val>>keyBits, h.existed, h.old>>keyBits)
	case 'd', 'x':
		return fmt.Sprintf("[%d-%d] t%d delete(%s) removed=%v/%d", h.call, h.ret, h.thread, short(u.Keys[h.key]), h.existed, h.old>>keyBits)
	}
	return fmt.Sprintf("[%d-%d] t%d get(%s) = %v/%d", h.call, h.ret, h.thread, short(u.Keys[h.key]), h.existed, h.old>>keyBits)
}

// linearizable decides by brute force whether the operations on one key have a legal order.
func linearizable(ops []hop, val uint64, stored bool) bool {
	if len(ops) == 0 {
		return true
	}
	for i, o := range ops {
		first := true
		for j, p := range ops {
			if j != i && p.ret < o.call {
				first = false
				break
			}
		}
		if !first {
			continue
		}
		if o.existed != stored || o.existed && o.old != val {
			continue
		}
		nv, ns := val, stored
		switch o.kind {
		case 'p', 'i', 'o':
			nv, ns = o.val, true
		case 'n':
			if !o.existed {
				nv, ns = o.val, true
			}
		case 'd', 'x':
			nv, ns = 0, false
		}
		rest := make([]hop, 0, len(ops)-1)
		rest = append(rest, ops[:i]...)
		rest = append(rest, ops[i+1:]...)
		if linearizable(rest, nv, ns) {
			return true
		}
	}
	return false
}

func checkLinearizable(x *vs.Exec, u *Universe, init model, h []hop) {
	for k := range u.Keys {
		var ops []hop
		for _, o := range h {
			if o.key == k {
				ops = append(ops, o)
			}
		}
		v, ok := init[k]
		if !linearizable(ops, v, ok) {
			var b strings.Builder
			for _, o := range ops {
				b.WriteString("\n    " + o.show(u))
			}
			x.Fail("no legal order for the operations on %s (initially stored=%v/%d):%s", short(u.Keys[k]), ok, v>>keyBits, b.String())
		}
	}
}

// recorder collects the history of one execution.
type recorder struct {
	x    *vs.Exec
	u    *Universe
	h    []hop
	vals map[uint64]bool // values ever stored
	t    int

	conflicts int // operations given up after a conflict: they must have changed nothing
}

func (r *recorder) now() int { r.t++; return r.t }

func (r *recorder) do(c client, kind byte, k int, v uint64) {
	o := hop{thread: r.x.CurrentID(), key: k, kind: kind, val: v, call: r.now()}
	switch kind {
	case 'p':
		if r.vals == nil {
			r.vals = map[uint64]bool{}
		}
		r.vals[v] = true
		o.old, o.existed, _ = r.u.put(c, k, v)
	case 'd':
		o.old, o.existed, _ = r.u.del(c, k)
	case 'i', 'n', 'o':
		if !r.rmw(c, &o) {
			r.conflicts++
			r.x.Note("t%d %c(%s, %d): conflict", o.thread, kind, short(r.u.Keys[k]), v>>keyBits)
			return
		}
	case 'x':
		if !r.delOnce(c, &o) {
			r.conflicts++
			r.x.Note("t%d delete(%s): conflict", o.thread, short(r.u.Keys[k]))
			return
		}
	case 'a', 'A', 'b': // prepared and aborted: nothing happens
		if f := prepareAbort(r.u, c, kind, []byte(r.u.Keys[k])); f != nil {
			f()
		}
		r.x.Note("t%d %c(%s): prepared and aborted", o.thread, kind, short(r.u.Keys[k]))
		return
	case 'g':
		var cand uint64
		var isCand bool
		o.old, o.existed, cand, isCand = r.u.get(c, k)
		if isCand && r.vals != nil && !r.vals[cand] {
			r.x.Fail("Lookup(%s) proposed %#x, which was never stored", short(r.u.Keys[k]), cand)
		}
	}
	o.ret = r.now()
	r.h = append(r.h, o)
}

func newTree(allocators int) *radix.Tree {
	return radix.NewTree(&radix.Options{NumAllocators: allocators})
}

func blockSize(t *radix.Tree) int {
	s := map[string]any{}
	t.Stats(s)
	return int(toU64(s["block_size"]))
}

func stat(t *radix.Tree, name string) uint64 {
	s := map[string]any{}
	t.Stats(s)
	return toU64(s[name])
}

func toU64(v any) uint64 {
	switch v := v.(type) {
	case int:
		return uint64(v)
	case int32:
		return uint64(v)
	case int64:
		return uint64(v)
	case uint64:
		return v
	case uint32:
		return uint64(v)
	case uint:
		return uint64(v)
	}
	return 0
}

// prefixFree panics (a harness error) when an alphabet breaks the library's only rule.
func prefixFree(keys []string) {
	ks := append([]string(nil), keys...)
	sort.Strings(ks)
	for i := 1; i < len(ks); i++ {
		if strings.HasPrefix(ks[i], ks[i-1]) {
			panic("harness: alphabet is not prefix-free: " + ks[i-1] + " " + ks[i])
		}
	}
}

// rmw is a read-modify-write: 'i' stores the value found plus one (or the given one if there is none), 'n' stores only
// if nothing is found, 'o' stores the given value but does not restart on a conflict. It reports whether it took place.
func (r *recorder) rmw(c client, o *hop) bool {
	key := []byte(r.u.Keys[o.key])
	first := o.val
	for {
		found, op := c.PrepareUpdate(key)
		o.old, o.existed, o.val = 0, false, first
		if found {
			op.FetchedKey = r.u.fetch(op.FetchedKey, op.Value)
			if bytes.Equal(op.FetchedKey, key) {
				op.Match = true
				o.old, o.existed = op.Value, true
			}
		}
		switch o.kind {
		case 'n':
			if o.existed {
				op.Abort()
				return true
			}
		case 'i':
			if o.existed {
				o.val = o.old + 1<<keyBits
			}
		}
		if r.vals == nil {
			r.vals = map[uint64]bool{}
		}
		r.vals[o.val] = true
		if op.Finalize(o.val) {
			return true
		}
		if o.kind == 'o' {
			return false
		}
	}
}

func (r *recorder) delOnce(c client, o *hop) bool {
	key := []byte(r.u.Keys[o.key])
	found, op := c.PrepareDelete(key)
	if !found {
		return true
	}
	op.FetchedKey = r.u.fetch(op.FetchedKey, op.Value)
	if !bytes.Equal(op.FetchedKey, key) {
		op.Abort()
		return true
	}
	o.old = op.Value
	o.existed = op.Finalize()
	return o.existed
}
