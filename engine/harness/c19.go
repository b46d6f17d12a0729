package main

import (
	"bytes"
	"fmt"
	"io"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unsafe"

	"github.com/jayloop/radix"
	"vs"
)

func admin(t *radix.Tree, args ...string) string {
	var b bytes.Buffer
	t.Admin(&b, args)
	return b.String()
}

var branchRE = regexp.MustCompile(`(?m)^\[('.'|[0-9a-fA-F]{2})\] (LEAF|NODE)\b.*$`)
var valueRE = regexp.MustCompile(`value=(\d+)`)
var rawRE = regexp.MustCompile(`0x[0-9a-f]{16} (\d+)`)

type branch struct {
	label byte
	leaf  bool
	value uint64
	raw   uint64
}

func parseRoot(x *vs.Exec, out string) (bs []branch) {
	for _, m := range branchRE.FindAllStringSubmatch(out, -1) {
		b := branch{leaf: m[2] == "LEAF"}
		if m[1][0] == '\'' {
			b.label = m[1][1]
		} else {
			n, _ := strconv.ParseUint(m[1], 16, 8)
			b.label = byte(n)
		}
		if v := valueRE.FindStringSubmatch(m[0]); v != nil {
			b.value, _ = strconv.ParseUint(v[1], 10, 64)
		}
		if v := rawRE.FindStringSubmatch(m[0]); v != nil {
			b.raw, _ = strconv.ParseUint(v[1], 10, 64)
		}
		bs = append(bs, b)
	}
	return
}

// checkRoot compares the root report with the stored keys. exact: no node was ever wide.
func checkRoot(e *env, exact bool) []branch {
	x, out := e.x, admin(e.t, "root")
	bs := parseRoot(x, out)
	var keys []string
	val := map[string]uint64{}
	for k, v := range e.m {
		keys = append(keys, e.u.Keys[k])
		val[e.u.Keys[k]] = v
	}
	sort.Strings(keys)
	for i := 1; i < len(bs); i++ {
		if bs[i-1].label >= bs[i].label {
			x.Fail("root: branch %02x is listed after %02x\n%s", bs[i].label, bs[i-1].label, out)
		}
	}
	// try reports what is wrong when the root branches at depth d
	try := func(d int) string {
		groups := map[byte][]string{}
		for _, k := range keys {
			if len(k) <= d || k[:d] != keys[0][:d] {
				return fmt.Sprintf("the keys do not share %d bytes", d)
			}
			groups[k[d]] = append(groups[k[d]], k)
		}
		for _, b := range bs {
			g := groups[b.label]
			delete(groups, b.label)
			switch {
			case b.leaf && len(g) != 1:
				return fmt.Sprintf("branch %02x is listed as a leaf, %d keys are stored there", b.label, len(g))
			case b.leaf && val[g[0]] != b.value:
				return fmt.Sprintf("leaf %02x has the value %d, stored: %d", b.label, b.value, val[g[0]])
			case !b.leaf && exact && len(g) < 2:
				return fmt.Sprintf("branch %02x is listed as a node, %d keys are stored there", b.label, len(g))
			}
		}
		for l, g := range groups {
			return fmt.Sprintf("branch %02x with %d keys is not listed", l, len(g))
		}
		return ""
	}
	switch {
	case len(keys) == 0 && exact:
		if len(bs) > 0 {
			x.Fail("root lists branches of an empty index:\n%s", out)
		}
		if !strings.Contains(strings.ToLower(out), "empty") {
			x.Fail("root does not report that the index is empty: %q", out)
		}
	case len(keys) == 1 && exact:
		if why := try(0); why != "" {
			x.Fail("root: %s\n%s", why, out)
		}
	case exact:
		if why := try(lcp(keys)); why != "" {
			x.Fail("root: %s\n%s", why, out)
		}
	default:
		if len(keys) == 0 {
			for _, b := range bs {
				if b.leaf {
					x.Fail("root lists a leaf of an empty index:\n%s", out)
				}
			}
			return bs
		}
		why := ""
		for d := lcp(keys); d >= 0; d-- {
			w := try(d)
			if w == "" {
				return bs
			}
			if why == "" {
				why = w
			}
		}
		x.Fail("root: %s\n%s", why, out)
	}
	return bs
}

func lcp(keys []string) int {
	if len(keys) == 1 {
		return len(keys[0]) - 1
	}
	n := 0
	for ; ; n++ {
		for _, k := range keys {
			if n >= len(k) || k[n] != keys[0][n] {
				return n
			}
		}
	}
}

// checkStats: the figures that are defined at any time.
func checkStats(e *env, allocators int, flushed bool) {
	s := map[string]any{}
	e.t.Stats(s)
	if n := toU64(s["allocators"]); n != uint64(allocators) {
		e.x.Fail("Stats reports %d allocators of %d", n, allocators)
	}
	if n := toU64(s["block_size"]); n != uint64(buildBlockSize()) {
		e.x.Fail("Stats reports a block size of %d, the build has %d", n, buildBlockSize())
	}
	if n, ok := s["objects_approx"]; flushed && (!ok || int(toU64(n)) != len(e.m)) {
		e.x.Fail("Stats reports %v objects after flushing, stored: %d", n, len(e.m))
	}
	info := admin(e.t, "info")
	for _, f := range []string{"allocators", "block_size"} {
		re := regexp.MustCompile(`(?m)\b` + f + `\b[^\n0-9]*(\d+)`)
		if m := re.FindStringSubmatch(info); m == nil || m[1] != fmt.Sprint(toU64(s[f])) {
			e.x.Fail("info does not report %s as %d:\n%s", f, toU64(s[f]), info)
		}
	}
}

var buildBS int

// buildBlockSize is the block size of the build, taken from a saved state (which records it independently).
func buildBlockSize() int { return buildBS }

func learnBlockSize(x *vs.Exec) {
	if buildBS != 0 {
		return
	}
	t := newTree(1)
	t.Stop()
	b := save(x, t)
	m := regexp.MustCompile(`block_?size\D*(\d+)`).FindSubmatch(b)
	if m == nil {
		buildBS = blockSize(t)
	} else {
		buildBS, _ = strconv.Atoi(string(m[1]))
	}
}

// flush makes every allocator flush its counters.
func flush(e *env, allocators int) {
	var as []*radix.Allocator
	for i := 0; i < allocators; i++ {
		as = append(as, e.t.GetAllocator())
	}
	for _, a := range as {
		a.FlushStats()
	}
	for _, a := range as {
		e.t.ReleaseAllocator(a)
	}
}

func commands() (cs [][]string) {
	cs = append(cs, nil, []string{})
	for _, c := range []string{"info", "root", "blocks", "allocators", "node", "", "help", "Root", "-", "%s%d%n", "nodes", "stop", "quit"} {
		cs = append(cs, []string{c})
		for _, a := range []string{"", "0", "1", "-1", "x", "99999999999999999999", "18446744073709551615", "9223372036854775808", "0x10", "1 ", "reservations", "root"} {
			cs = append(cs, []string{c, a}, []string{c, a, "7"})
		}
	}
	return
}

// diagnose runs every command line, and node on the given words, and compares contents and availability after each kind.
func diagnose(e *env, allocators int, stopped bool, nodes []uint64, exact bool) {
	if stopped {
		e.t.Stop()
	}
	same := func(what string) {
		if stopped {
			e.t.Start()
		}
		for i := 0; i < 2; i++ {
			flush(e, allocators)
			checkContents(e.x, e.t, e.u, e.m)
		}
		checkIteration(e.x, e.t, e.u, e.m, "")
		if n := e.t.Len(); n != len(e.m) {
			e.x.Fail("after %s Len = %d, stored: %d keys", what, n, len(e.m))
		}
		if stopped {
			e.t.Stop()
		}
	}
	for _, c := range commands() {
		admin(e.t, c...)
	}
	same("the command lines")
	for _, b := range checkRoot(e, exact) {
		nodes = append(nodes, b.raw)
	}
	for _, n := range nodes {
		admin(e.t, "node", fmt.Sprint(n))
	}
	same("the node commands")
	for i := 0; i < 3; i++ {
		s := map[string]any{}
		e.t.Stats(s)
	}
	if stopped {
		e.t.Start()
	}
	flush(e, allocators)
	checkStats(e, allocators, true)
	e.c.res.Counters.Checks++
}

// nodeWords: small numbers, and the root word and the words of its children with one or two bits changed.
func nodeWords(t *radix.Tree, x *vs.Exec, two bool) (ws []uint64) {
	words := uint64(blockSize(t) / 8)
	for i := uint64(0); i < 5*words; i++ {
		ws = append(ws, i)
	}
	seeds := []uint64{stat(t, "root_node"), ^uint64(0), 1 << 63}
	for _, b := range parseRoot(x, admin(t, "root")) {
		if b.raw != 0 && len(seeds) < 8 {
			seeds = append(seeds, b.raw)
		}
	}
	for i, s := range seeds {
		for a := 0; a < 64; a++ {
			ws = append(ws, s^1<<a)
			if two || i == 0 {
				for b := 0; b < a; b++ {
					ws = append(ws, s^1<<a^1<<b)
				}
			}
		}
	}
	return
}

func diagTasks(thorough bool) (ts []Task) {
	states := []struct {
		name    string
		variant string
		keys    []string
		gone    func(i int) bool
		exact   bool
	}{
		{"new", "s10", []string{"a"}, func(i int) bool { return true }, false},
		{"leaf", "s10", []string{"abc"}, nil, true},
		{"two", "s10", []string{"a", "\x00"}, nil, true},
		{"narrow", "s10", []string{"prefix-xa", "prefix-xb", "prefiQ", "prefix-y", "\xff"}, nil, true},
		{"path", "s10", []string{"prefix-xa", "prefix-xb", "prefiQ"}, nil, true},
		{"long", "s13", []string{rep("A", 300) + "x", rep("A", 300) + "y", rep("A", 300) + "z1", rep("A", 300) + "z2"}, nil, true},
		{"deleted", "s10", []string{"prefix-xa", "prefix-xb", "prefiQ", "prefix-y", "\xff"}, func(i int) bool { return i%2 == 0 }, true},
		{"wide", "s13", twoLevel("pp", bytesN(140), ones(140)), nil, false},
		{"w4", "w4", []string{"ka", "kb", "kc", "kd", "ke1", "ke2"}, nil, false},
		{"w4some", "w4", []string{"ka", "kb", "kc", "kd", "ke1", "ke2"}, func(i int) bool { return i < 4 }, false},
		{"w4gone", "w4", []string{"a", "b", "c", "d", "e"}, func(i int) bool { return true }, false},
		{"reused", "e3", []string{"prefix-xa", "prefix-xb", "prefiQ", "prefix-y", "\xff"}, func(i int) bool { return i == 2 }, true},
	}
	for _, s := range states {
		for _, stopped := range []bool{false, true} {
			for allocs := 1; allocs <= 2; allocs++ {
				ts = append(ts, Task{ID: name("commands", s.name, stopped, allocs), Variant: s.variant, Run: func(c *Ctx) {
					c.Seq("all", vs.Config{}, func(x *vs.Exec) {
						learnBlockSize(x)
						e := newEnvA(c, x, s.keys, allocs)
						x.Quiesce()
						if s.name != "new" {
							for k := range s.keys {
								e.put(k)
							}
							if s.name == "reused" {
								for i := 0; i < 40; i++ {
									e.put(i % len(s.keys))
									e.del(i % len(s.keys))
								}
								for k := range s.keys {
									e.put(k)
								}
							}
							for k := range s.keys {
								if s.gone != nil && s.gone(k) {
									e.del(k)
								}
							}
						}
						ws := nodeWords(e.t, x, thorough)
						diagnose(e, allocs, stopped, ws, s.exact)
						full(e, "")
						c.res.Counters.States += int64(len(ws))
						c.Sample("%s index, stopped=%v: %d command lines and %d node words", s.name, stopped, len(commands()), len(ws))
					})
				}})
			}
		}
	}
	return
}

func ones(n int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = 1 + i/139*2
	}
	return o
}

func bytesN(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i)
	}
	return b
}

// allocatorReport: which allocators own memory, and where they stand in it, before and after loading.
func allocatorReport(thorough bool) (ts []Task) {
	bs := stateBuilders()
	for _, v := range []string{"s10", "s11", "w4"} {
		for _, b := range sortedKeys(bs) {
			ts = append(ts, Task{ID: name("loaded", v, b), Variant: v, Run: func(c *Ctx) {
				c.Seq("all", vs.Config{}, func(x *vs.Exec) {
					t := bs[b](x)
					re := regexp.MustCompile(`(?m)^Allocator \d+.*$`)
					before := re.FindAllString(admin(t, "allocators"), -1)
					for i := 0; i < 3; i++ {
						t.Stop()
						t = load(x, save(x, t))
						after := re.FindAllString(admin(t, "allocators"), -1)
						if strings.Join(before, "\n") != strings.Join(after, "\n") {
							x.Fail("the allocators were reported as\n%s\nafter loading the index they are reported as\n%s", strings.Join(before, "\n"), strings.Join(after, "\n"))
						}
					}
					c.res.Counters.Checks++
					c.res.Counters.States++
				})
				c.Sample("%s: the allocators are reported alike before and after loading", b)
			}})
		}
	}
	return
}

// diagConcTasks: diagnostics beside other clients.
func diagConcTasks(thorough bool) (ts []Task) {
	shapes := []concShape{
		{name: "flat", keys: []string{"a", "b", "c"}, masks: []int{0, 1, 3, 7}},
		{name: "path", keys: []string{"xyzaa", "xyzab", "xyqa"}, masks: []int{0, 1, 3, 7}, variant: "e3"},
		{name: "w4", keys: []string{"ka", "kb", "kc", "kd"}, masks: []int{7, 15}, variant: "w4"},
	}
	cmds := [][]string{{"info"}, {"root"}, {"blocks"}, {"allocators"}, {"node", "ROOT"}, {"node", "1"}, {"stats"}}
	for _, s := range shapes {
		for _, mask := range s.starts() {
			for _, cmd := range cmds {
				ts = append(ts, Task{ID: name("beside", s.name, fmt.Sprintf("%b", mask), strings.Join(cmd, " ")), Variant: s.variant, Run: func(c *Ctx) {
					as := acts(s.keys, "pd", nil)
					as = append(as, act{"diag", true, func(r *recorder, t *radix.Tree, cl client, ver int) { t.Admin(io.Discard, []string{"allocators"}) }})
					sh := s.shape(mask)
					for n := 1; n <= 2; n++ {
						for _, a := range as {
							if c.Stop() {
								return
							}
							opt := vs.Options{}
							if a.name == "stop-save-start" {
								opt = vs.Options{Mode: "delay", Bound: pick(thorough, 3, 1)}
							} else if s.variant == "w4" || s.variant == "e3" {
								opt = vs.Options{Mode: "pb", Bound: pick(thorough, 2, 1)}
							}
							// the report itself may be torn while others write: only its effects count
							c.Explore(name(n, a.name), vs.Config{NumCPU: 1, NoRaces: true}, opt, func(x *vs.Exec) {
								t, u, m, allocs := sh.build(x, n, 0)
								for _, al := range allocs {
									t.ReleaseAllocator(al)
								}
								rec := &recorder{x: x, u: u, vals: map[uint64]bool{}}
								for _, v := range m {
									rec.vals[v] = true
								}
								x.Go("client", func() { a.f(rec, t, t, 10) })
								x.Go("diag", func() {
									switch {
									case cmd[0] == "stats":
										if k := stat(t, "allocators"); int(k) != n {
											x.Fail("Stats reports %d allocators of %d", k, n)
										}
									case len(cmd) > 1 && cmd[1] == "ROOT":
										admin(t, "node", fmt.Sprint(stat(t, "root_node")))
									default:
										admin(t, cmd...)
									}
								})
								x.Explore()
								for k := range u.Keys {
									rec.do(t, 'g', k, 0)
								}
								checkLinearizable(x, u, m, rec.h)
								now := model{}
								for k := range u.Keys {
									if v, ok, _, _ := u.get(t, k); ok {
										now[k] = v
									}
								}
								e := &env{c: c, x: x, t: t, u: u, m: now, cl: t, n: len(u.Keys), ver: 100}
								flush(e, n)
								checkRoot(e, s.variant != "w4")
								if l := t.Len(); l != len(now) {
									x.Fail("Len = %d, %d keys are found", l, len(now))
								}
								if l := stat(t, "objects_approx"); l != uint64(len(now)) {
									x.Fail("Stats reports %d objects, %d keys are found", l, len(now))
								}
								for k := range u.Keys {
									e.put(k)
									e.del(k)
								}
								c.res.Counters.Checks++
							})
						}
					}
					c.Sample("%v beside any other operation, keys %v, stored %b", cmd, s.keys, mask)
				}})
			}
		}
	}
	return
}

// terminal is a destination that lets other clients run before each piece of the report is taken.
type terminal struct {
	x *vs.Exec
	b bytes.Buffer
}

func (w *terminal) Write(p []byte) (int, error) {
	w.x.Pt(unsafe.Pointer(w), vs.KWrite, "print")
	return w.b.Write(p)
}

// diagReuseTasks: reports of a node that other clients replace, retire and reuse while it is being printed.
func diagReuseTasks(thorough bool) (ts []Task) {
	for _, s := range []struct {
		name    string
		variant string
		keys    []string
	}{
		{"flat", "e1", []string{"a", "b", "c", "d"}},
		{"path", "e1", []string{"xy-long-path-za", "xy-long-path-zb", "xy-long-path-zc", "xy-lo+"}},
		{"long", "e1", []string{rep("A", 300) + "x", rep("A", 300) + "y", rep("A", 300) + "z", rep("A", 60) + "q"}},
		{"wide", "we1", []string{rep("A", 300) + "w", rep("A", 300) + "x", rep("A", 300) + "y", rep("A", 300) + "z", rep("A", 60) + "q"}},
	} {
		if s.variant == "we1" && !thorough {
			continue
		}
		prefixFree(s.keys)
		for _, node := range []bool{false, true} {
			ts = append(ts, Task{ID: name("reused", s.name, node), Variant: s.variant, Run: func(c *Ctx) {
				ops := opsOf(len(s.keys), "pd")
				n := len(s.keys) - 1
				for first := range ops {
					seqs(len(ops), pick(thorough && s.variant == "e1", 3, 2), first, func(idx []int) {
						base := maskKeys(1<<n - 1)
						if idle(base, ops, idx) || c.Stop() {
							return
						}
						c.Explore(name(idx), vs.Config{NoRaces: true}, vs.Options{Mode: "pb", Bound: pick(thorough, 2, 1)}, func(x *vs.Exec) {
							u := newU(x, s.keys)
							t := newTree(2)
							x.Quiesce()
							a := t.GetAllocator()
							m := model{}
							for _, k := range base {
								m[k] = u.val(k, 1)
								u.put(a, k, m[k])
							}
							root := fmt.Sprint(stat(t, "root_node"))
							rec := &recorder{x: x, u: u, vals: map[uint64]bool{}}
							for _, v := range m {
								rec.vals[v] = true
							}
							x.Go("diag", func() {
								if node {
									t.Admin(&terminal{x: x}, []string{"node", root})
								} else {
									t.Admin(&terminal{x: x}, []string{"root"})
								}
							})
							x.Go("client", func() {
								for j, i := range idx {
									rec.do(a, ops[i].kind, ops[i].key, u.val(ops[i].key, 100+j))
								}
							})
							x.Explore()
							for k := range u.Keys {
								rec.do(t, 'g', k, 0)
							}
							checkLinearizable(x, u, m, rec.h)
							c.res.Counters.Checks++
						})
					})
				}
				c.Sample("a report of the root beside every sequence of operations that retires and reuses it, keys of %d bytes", len(s.keys[0]))
			}})
		}
	}
	return
}

func init() {
	props["C19"] = func(thorough bool) (ts []Task) {
		d, wd := 5, 1
		if thorough {
			d, wd = 6, 2
		}
		observe := func(exact bool) func(e *env) {
			return func(e *env) {
				learnBlockSize(e.x)
				before := fmt.Sprint(admin(e.t, "root"), admin(e.t, "allocators"), e.t.Len())
				checkRoot(e, exact)
				for _, c := range [][]string{{}, {"info"}, {"blocks"}, {"node", "1"}, {"node", "x"}, {"junk"}} {
					admin(e.t, c...)
				}
				if after := fmt.Sprint(admin(e.t, "root"), admin(e.t, "allocators"), e.t.Len()); before != after {
					e.x.Fail("the diagnostics changed what they report:\n%s\n%s", before, after)
				}
				flush(e, 2)
				checkStats(e, 2, true)
				checkContents(e.x, e.t, e.u, e.m)
				e.c.res.Counters.Checks++
			}
		}
		for _, sp := range narrowSpaces(d) {
			ts = append(ts, sp.tasks("hist", []string{"tree"}, 2, vs.Config{}, observe(sp.variant == "s10" || sp.variant == "e3"))...)
		}
		for _, sp := range wideSpaces(wd, []int{124, 125, 126, 253, 254}, []int{0, 9}) {
			ts = append(ts, sp.tasks("hist", []string{"tree"}, 2, vs.Config{}, observe(false))...)
		}
		ts = append(ts, branchTasks("branches", "w4", branchPrefixes(thorough), func(e *env, ps []string) {
			learnBlockSize(e.x)
			checkRoot(e, false)
			checkContents(e.x, e.t, e.u, e.m)
		})...)
		ts = append(ts, diagTasks(thorough)...)
		ts = append(ts, diagConcTasks(thorough)...)
		ts = append(ts, diagReuseTasks(thorough)...)
		ts = append(ts, allocatorReport(thorough)...)
		for _, v := range []string{"real", "b8", "b16"} {
			ts = append(ts, Task{ID: name("build", v), Variant: v, Run: func(c *Ctx) {
				c.Seq("all", vs.Config{}, func(x *vs.Exec) {
					e := newEnvA(c, x, []string{"aa", "ab", "b"}, 2)
					want := map[string]uint64{"real": 2 << 20, "b8": 8 << 20, "b16": 16 << 20}[v]
					if n := stat(e.t, "block_size"); n != want {
						x.Fail("the block size is %d instead of %d", n, want)
					}
					buildBS = int(want)
					for k := range e.u.Keys {
						e.put(k)
					}
					flush(e, 2)
					checkStats(e, 2, true)
					checkRoot(e, true)
				})
				c.Sample("block size reported by build %s", v)
			}})
		}
		return
	}
}
