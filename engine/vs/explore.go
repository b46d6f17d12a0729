package vs

import (
	"fmt"
	"time"
)

// Options of an exploration.
type Options struct {
	Mode     string // "dpor" (all interleavings up to equivalence), "dfs" (all interleavings), "pb" (preemption bound), "delay" (delay bound)
	Bound    int    // bound in modes pb and delay
	MaxExecs int64  // give up after that many executions (0 = none)
	Deadline time.Time
}

// Result of an exploration.
type Result struct {
	Execs       int64
	Redundant   int64 // executions cut short by the sleep sets
	Events      int64
	States      int64 // distinct nodes of the schedule tree
	MaxEvents   int
	Steps       int64
	Forced      int64
	Capped      bool // a cap or the deadline ended the exploration
	Failure     *Failure
	Schedule    []int // thread chosen at every point of the failing execution
	Notes       []string
	Trace       []string
	MaxSwitches int
}

type sleeper struct {
	tid int
	ev  Event
}

type node struct {
	enabled []int
	cur     int
	forced  bool
	chosen  int
	ev      Event
	done    []int
	back    []int
	sleep   []sleeper
	doneEv  []sleeper
	preempt int   // preemptions (pb) or delays (delay) before this node
	order   []int // enabled threads, the scheduler's default choice first (delay)
}

type explorer struct {
	opt    Options
	nodes  []*node
	prefix int // nodes[:prefix] are replayed
	bad    string
}

func has(s []int, v int) bool {
	for _, x := range s {
		if x == v {
			return true
		}
	}
	return false
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func shareLoc(a, b *Op) bool {
	if a.Loc == 0 || b.Loc == 0 {
		return false
	}
	if a.Loc == b.Loc {
		return true
	}
	for _, l := range a.More {
		if l == b.Loc {
			return true
		}
		for _, m := range b.More {
			if l == m {
				return true
			}
		}
	}
	for _, m := range b.More {
		if m == a.Loc {
			return true
		}
	}
	return false
}

func dependent(a, b *Event) bool {
	return a.Tid == b.Tid || ((a.W || b.W) && shareLoc(&a.Op, &b.Op))
}

func (e *explorer) newNode(x *Exec, enabled []int, cur int) *node {
	n := &node{enabled: append([]int(nil), enabled...), cur: cur}
	d := len(e.nodes)
	if d > 0 {
		p := e.nodes[d-1]
		p.ev = x.Log[d-1]
		n.preempt = p.preempt
		if e.opt.Mode == "delay" {
			if !p.forced {
				n.preempt += p.delays(p.chosen)
			}
		} else if p.cur >= 0 && p.chosen != p.cur {
			n.preempt++
		}
		if e.opt.Mode == "dpor" {
			for _, s := range p.sleep {
				if s.tid != p.chosen && !dependent(&s.ev, &p.ev) {
					n.sleep = append(n.sleep, s)
				}
			}
			for _, s := range p.doneEv {
				if s.tid != p.chosen && !dependent(&s.ev, &p.ev) {
					n.sleep = append(n.sleep, s)
				}
			}
		}
	}
	if e.opt.Mode == "delay" {
		first := cur
		if cur < 0 {
			last := 0
			if d > 0 {
				last = e.nodes[d-1].chosen
			}
			first = enabled[0]
			for i := len(enabled) - 1; i >= 0; i-- {
				if enabled[i] > last {
					first = enabled[i]
				}
			}
		}
		for i, t := range enabled {
			if t == first {
				n.order = append(append(n.order, n.enabled[i:]...), n.enabled[:i]...)
			}
		}
	}
	e.nodes = append(e.nodes, n)
	return n
}

// delays counts the threads passed over to run t.
func (n *node) delays(t int) int {
	for i, o := range n.order {
		if o == t {
			return i
		}
	}
	return 0
}

func (n *node) asleep(t int) bool {
	for _, s := range n.sleep {
		if s.tid == t {
			return true
		}
	}
	return false
}

func (e *explorer) Choose(x *Exec, enabled []int, cur int) int {
	d := len(x.Log)
	if d < e.prefix {
		n := e.nodes[d]
		if n.forced || !same(n.enabled, enabled) || n.cur != cur {
			e.bad = fmt.Sprintf("replay diverged at point %d: enabled %v, cur %d; recorded %v, cur %d", d, enabled, cur, n.enabled, n.cur)
			return -1
		}
		return n.chosen
	}
	n := e.newNode(x, enabled, cur)
	switch e.opt.Mode {
	case "dpor":
		n.chosen = -1
		if cur >= 0 && !n.asleep(cur) {
			n.chosen = cur
		} else {
			for _, t := range enabled {
				if !n.asleep(t) {
					n.chosen = t
					break
				}
			}
		}
		if n.chosen < 0 {
			e.nodes = e.nodes[:d]
			return -1
		}
		n.back = append(n.back, n.chosen)
	case "delay":
		n.chosen = n.order[0]
	default:
		n.chosen = enabled[0]
		if cur >= 0 {
			n.chosen = cur
		}
	}
	return n.chosen
}

// Forced records a point where only yielded threads could go on: not a branching point.
func (e *explorer) Forced(x *Exec, c int) {
	d := len(x.Log)
	if d < e.prefix {
		if n := e.nodes[d]; !n.forced || n.chosen != c {
			e.bad = fmt.Sprintf("replay diverged at forced point %d", d)
		}
		return
	}
	n := e.newNode(x, []int{c}, -1)
	n.forced = true
	n.chosen = c
	n.back = append(n.back, c)
}

// races finds the reversible races of the execution whose later event is at or after from and plants
// backtracking points for them.
func (e *explorer) races(log []Event, from int) {
	n := len(log)
	if n > len(e.nodes) {
		n = len(e.nodes)
	}
	clk := make([][]int32, n)
	last := map[int]int{}     // last event per thread
	lastW := map[uint32]int{} // last write per location
	reads := map[uint32][]int{}
	idx := make([]int32, n) // per-thread index of the event, from 1
	hb := func(i, j int) bool {
		t := log[i].Tid
		return t < len(clk[j]) && clk[j][t] >= idx[i]
	}
	var preds, conf []int
	for j := 0; j < n; j++ {
		ev := &log[j]
		preds, conf = preds[:0], conf[:0]
		if l, ok := last[ev.Tid]; ok {
			preds = append(preds, l)
			idx[j] = idx[l] + 1
		} else {
			idx[j] = 1
		}
		preds = append(preds, ev.Preds...)
		visit := func(l uint32) {
			if w, ok := lastW[l]; ok {
				conf = append(conf, w)
			}
			if ev.W {
				conf = append(conf, reads[l]...)
			}
		}
		if ev.Op.Loc != 0 {
			visit(ev.Op.Loc)
			for _, l := range ev.Op.More {
				visit(l)
			}
		}
		var c []int32
		merge := func(p int) {
			for len(c) < len(clk[p]) {
				c = append(c, 0)
			}
			for k, v := range clk[p] {
				if v > c[k] {
					c[k] = v
				}
			}
		}
		for _, p := range preds {
			merge(p)
		}
		for _, p := range conf {
			merge(p)
		}
		for len(c) <= ev.Tid {
			c = append(c, 0)
		}
		c[ev.Tid] = idx[j]
		clk[j] = c
		if j >= from && !ev.NoRace {
			for ci, i := range conf {
				if log[i].Tid == ev.Tid || i >= j {
					continue
				}
				direct := true
				for _, p := range preds {
					if p == i || hb(i, p) {
						direct = false
						break
					}
				}
				if direct {
					for ck, p := range conf {
						if ck != ci && p != i && hb(i, p) {
							direct = false
							break
						}
					}
				}
				if direct {
					e.race(log, clk, idx, i, j)
				}
			}
		}
		last[ev.Tid] = j
		rec := func(l uint32) {
			if ev.W {
				lastW[l] = j
				reads[l] = reads[l][:0]
			} else {
				reads[l] = append(reads[l], j)
			}
		}
		if ev.Op.Loc != 0 {
			rec(ev.Op.Loc)
			for _, l := range ev.Op.More {
				rec(l)
			}
		}
	}
}

func (e *explorer) race(log []Event, clk [][]int32, idx []int32, i, j int) {
	nd := e.nodes[i]
	if nd.forced {
		return
	}
	hb := func(a, b int) bool {
		t := log[a].Tid
		return t < len(clk[b]) && clk[b][t] >= idx[a]
	}
	// v = events after i not happening after it, then j; initials = first events of threads in v
	// without a predecessor in v
	var v []int
	for k := i + 1; k < j; k++ {
		if !hb(i, k) {
			v = append(v, k)
		}
	}
	v = append(v, j)
	var seen, inits []int
	for a, k := range v {
		t := log[k].Tid
		if has(seen, t) {
			continue
		}
		seen = append(seen, t)
		init := true
		for _, k2 := range v[:a] {
			// j's edge to i does not count, edges inside v do
			if hb(k2, k) {
				init = false
				break
			}
		}
		if init {
			inits = append(inits, t)
		}
	}
	for _, t := range inits {
		if has(nd.back, t) || nd.asleep(t) {
			return
		}
	}
	for _, t := range inits {
		if has(nd.enabled, t) {
			nd.back = append(nd.back, t)
			return
		}
	}
	for _, t := range nd.enabled {
		if !has(nd.back, t) {
			nd.back = append(nd.back, t)
		}
	}
}

// next selects the next execution; false when everything has been explored.
func (e *explorer) next() bool {
	for d := len(e.nodes) - 1; d >= 0; d-- {
		n := e.nodes[d]
		if !has(n.done, n.chosen) {
			n.done = append(n.done, n.chosen)
			n.doneEv = append(n.doneEv, sleeper{n.chosen, n.ev})
		}
		if n.forced {
			e.nodes = e.nodes[:d]
			continue
		}
		pick := -1
		switch e.opt.Mode {
		case "dpor":
			for _, t := range n.back {
				if !has(n.done, t) && !n.asleep(t) {
					pick = t
					break
				}
			}
		default:
			for _, t := range n.enabled {
				if has(n.done, t) {
					continue
				}
				if e.opt.Mode == "pb" && n.cur >= 0 && t != n.cur && n.preempt+1 > e.opt.Bound {
					continue
				}
				if e.opt.Mode == "delay" && n.preempt+n.delays(t) > e.opt.Bound {
					continue
				}
				pick = t
				break
			}
		}
		if pick >= 0 {
			n.chosen = pick
			e.nodes = e.nodes[:d+1]
			e.prefix = d + 1
			return true
		}
		e.nodes = e.nodes[:d]
	}
	return false
}

// Explore runs body under every schedule of the given mode.
func Explore(cfg Config, opt Options, body func(x *Exec)) (res Result) {
	e := &explorer{opt: opt}
	if opt.Mode == "" {
		e.opt.Mode = "dpor"
	}
	for {
		x := Run(cfg, e, body)
		res.add(x, min(len(x.Log), max(0, e.prefix-1)))
		if e.bad != "" {
			res.Failure = &Failure{Kind: "internal", Msg: e.bad}
			return
		}
		if x.fail != nil {
			res.Failure = x.fail
			res.Schedule = schedule(x)
			res.Notes = x.Notes
			res.Trace = x.TraceText()
			return
		}
		// the last node's event
		for d := max(0, e.prefix-1); d < len(e.nodes) && d < len(x.Log); d++ {
			e.nodes[d].ev = x.Log[d]
		}
		if e.opt.Mode == "dpor" {
			e.races(x.Log, max(0, e.prefix-1))
		}
		CollectGarbage()
		if !e.next() {
			return
		}
		if opt.MaxExecs > 0 && res.Execs >= opt.MaxExecs || !opt.Deadline.IsZero() && time.Now().After(opt.Deadline) {
			res.Capped = true
			return
		}
	}
}

func (r *Result) add(x *Exec, prefix int) {
	r.Execs++
	if x.Abandoned {
		r.Redundant++
	}
	r.Events += int64(len(x.Log))
	r.States += int64(len(x.Log) - prefix)
	r.Steps += x.steps
	r.Forced += int64(x.Forced)
	r.MaxEvents = max(r.MaxEvents, len(x.Log))
	r.MaxSwitches = max(r.MaxSwitches, x.Switches)
}

func schedule(x *Exec) (s []int) {
	for i := range x.Log {
		s = append(s, x.Log[i].Tid)
	}
	return
}

// TraceText lists the executed events.
func (x *Exec) TraceText() (out []string) {
	for i := range x.Log {
		e := &x.Log[i]
		w := ""
		if e.W {
			w = " W"
		}
		out = append(out, fmt.Sprintf("%d t%d(%s) %s loc%d%s", i, e.Tid, x.threads[e.Tid].name, e.Op.What, e.Op.Loc, w))
	}
	return
}

// Replay follows a recorded schedule; afterwards the running thread goes on as long as it can.
type Replay struct {
	Schedule []int
	Diverged bool
}

func (r *Replay) Choose(x *Exec, enabled []int, cur int) int {
	d := len(x.Log)
	if d < len(r.Schedule) {
		if has(enabled, r.Schedule[d]) {
			return r.Schedule[d]
		}
		r.Diverged = true
	}
	if cur >= 0 {
		return cur
	}
	return enabled[0]
}

func (r *Replay) Forced(x *Exec, c int) {}

// Sequential runs body once, with a deterministic schedule.
func Sequential(cfg Config, body func(x *Exec)) *Exec {
	x := Run(cfg, &Replay{}, body)
	CollectGarbage()
	return x
}
