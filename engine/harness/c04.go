package main

import (
	"fmt"
	"strings"

	"vs"
)

// observeIteration compares iterations over every prefix with the model.
func observeIteration(e *env) {
	for _, p := range prefixesOf(e.u.Keys[:e.n]) {
		checkIteration(e.x, e.t, e.u, e.m, p)
	}
}

// observeReset stops an iteration after every number of steps, resets it to another prefix and compares.
func observeReset(e *env) {
	ps := []string{"", e.u.Keys[0][:1], e.u.Keys[0], e.u.Keys[e.n-1][:1]}
	for _, p := range ps {
		total := len(e.m.sorted(e.u, p)) + 1
		for steps := 0; steps <= total; steps++ {
			for _, q := range ps {
				it := e.t.NewIterator([]byte(p))
				for i := 0; i < steps; i++ {
					it.Next()
				}
				it.Reset([]byte(q))
				var got []uint64
				for it.Next() {
					got = append(got, it.Value())
					if len(got) > len(e.m)+1 {
						e.x.Fail("iteration after Reset(%q) does not end", q)
					}
				}
				verifyIteration(e.x, e.u, e.m, q, got, fmt.Sprintf("iterator reset after %d steps of %q", steps, p))
				it.Close()
			}
		}
	}
}

// twoLevel is the key set P + hi + lo with sizes[i] keys below the i-th hi (1: a leaf without lo).
func twoLevel(p string, his []byte, sizes []int) (ks []string) {
	for i, n := range sizes {
		if n == 1 {
			ks = append(ks, p+string([]byte{his[i]}))
			continue
		}
		for j := 0; j < n; j++ {
			lo := byte(j)
			if n <= 129 {
				lo = byte(j*256/n + i%2)
			}
			ks = append(ks, p+string([]byte{his[i], lo}))
		}
	}
	return
}

func vectors(vals []int, n int, f func(v []int)) {
	v := make([]int, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(append([]int(nil), v...))
			return
		}
		for _, x := range vals {
			v[i] = x
			rec(i + 1)
		}
	}
	rec(0)
}

// surroundings of a shape: siblings before and after it, near the root
var surroundings = []struct {
	name string
	keys []string
}{
	{"alone", nil},
	{"left", []string{"A"}},
	{"right", []string{"z"}},
	{"both", []string{"Aa", "Ab", "za", "zb"}},
}

func batchTasks(thorough bool) (ts []Task) {
	vals := []int{1, 2, 127, 129, 256}
	maxLen := 3
	if thorough {
		maxLen = 4
	}
	for _, pl := range []int{0, 9, 255} {
		for n := 1; n <= maxLen; n++ {
			for _, sur := range surroundings {
				if pl == 255 && n > 2 && !thorough {
					continue
				}
				id := name("batch", "p", pl, "n", n, sur.name)
				ts = append(ts, Task{ID: id, Variant: "s13", Run: func(c *Ctx) {
					vectors(vals, n, func(sizes []int) {
						if c.Stop() {
							return
						}
						sum := 0
						for _, s := range sizes {
							sum += s
						}
						if sum < 200 {
							return
						}
						p := ""
						if pl > 0 {
							p = "p" + rep("q", pl-1)
						}
						if pl == 0 && sur.keys != nil {
							p = "m"
						}
						ks := append(twoLevel(p, []byte{0, 'b', 0x80, 0xff}, sizes), sur.keys...)
						c.Seq(fmt.Sprint(id, sizes), vs.Config{}, func(x *vs.Exec) {
							u := newU(x, ks)
							t := newTree(1)
							m := model{}
							for k := range ks {
								v := u.val(k, 1)
								u.put(t, k, v)
								m[k] = v
							}
							for _, q := range []string{"", p, p + "b", "z"} {
								checkIteration(x, t, u, m, q)
							}
							c.res.Counters.Checks += 4
						})
						c.res.Counters.States++
						c.Sample("children with %v keys below a shared prefix of %d bytes, surroundings %s", sizes, pl, sur.name)
					})
				}})
			}
		}
	}
	return
}

// subsetTasks runs f on every subset of the alphabet, inserted in order and in reverse, with some keys inserted and
// deleted in between.
func subsetTasks(prefix, variant string, keys []string, f func(e *env)) (ts []Task) {
	for part := 0; part < 8; part++ {
		id := name(prefix, variant, shortList(keys[:1]), part)
		ts = append(ts, Task{ID: id, Variant: variant, Run: func(c *Ctx) {
			prefixFree(keys)
			for mask := part; mask < 1<<len(keys); mask += 8 {
				for order := 0; order < 3; order++ {
					if c.Stop() {
						return
					}
					c.Seq(fmt.Sprintf("%s/%b/%d", id, mask, order), vs.Config{}, func(x *vs.Exec) {
						u := newU(x, keys)
						t := newTree(1)
						m := model{}
						e := &env{c: c, x: x, t: t, u: u, m: m, cl: t, n: len(keys)}
						n := len(keys)
						if order == 2 {
							for k := range keys {
								e.put(k)
							}
							for k := range keys {
								if mask>>k&1 == 0 {
									e.del(k)
								}
							}
						}
						for i := range keys {
							k := i
							if order == 1 {
								k = n - 1 - i
							}
							if mask>>k&1 == 1 {
								e.put(k)
							}
						}
						f(e)
					})
					c.res.Counters.States++
					c.res.Counters.Checks++
				}
			}
			c.Sample("subsets of %s", shortList(keys))
		}})
	}
	return
}

// nested alphabets for small key sets; the batch limit is scaled down so that a batch ends at every place
var subsetAlphabets = [][]string{
	{"aa", "ab", "aca", "acb", "b", "caa", "cab", "cb"},
	{"xyz1", "xyz2", "xyz3", "xyza1", "xyza2", "xyb", "xyc", "q"},
	{"\x00\x00", "\x00\x01", "\x00\xff", "\xff\x00", "\xff\xfe", "\xff\xff\x00", "\xff\xff\xff", "\x80"},
	{"0123456789a", "0123456789b", "0123456789c1", "0123456789c2", "01234567x", "01234567y", "0123z", "1"},
}

func init() {
	props["C04"] = func(thorough bool) (ts []Task) {
		obs := func(e *env) { observeIteration(e) }
		d := 6
		if thorough {
			d = 7
		}
		for _, sp := range narrowSpaces(d) {
			sp := *sp
			if sp.variant == "s10" {
				sp.variant = "i2"
			}
			if sp.variant == "w4" {
				sp.variant = "wie"
			}
			ts = append(ts, sp.tasks("hist", []string{"tree"}, 1, vs.Config{}, obs)...)
		}
		for _, v := range []string{"i2", "wie"} {
			for _, a := range subsetAlphabets {
				ts = append(ts, subsetTasks("subsets", v, a, obs)...)
			}
		}
		for _, a := range subsetAlphabets[:2] {
			ts = append(ts, subsetTasks("reset", "i2", a[:6], observeReset)...)
		}
		ts = append(ts, batchTasks(thorough)...)
		wd := 2
		if thorough {
			wd = 3
		}
		for _, sp := range wideSpaces(wd, []int{125, 126, 253, 254}, []int{0, 9, 255}) {
			ts = append(ts, sp.tasks("hist", []string{"tree"}, 1, vs.Config{}, obs)...)
		}
		iterations := func(e *env, ps []string) {
			for _, p := range ps {
				checkIteration(e.x, e.t, e.u, e.m, p)
			}
		}
		ts = append(ts, branchTasks("branches", "wie", branchPrefixes(thorough), iterations)...)
		ts = append(ts, recycled(thorough, iterations)...)
		ts = append(ts, ladderTasks("ladder", []string{"i2", "wie"}, thorough, iterations)...)
		return
	}
}

var _ = strings.Repeat
