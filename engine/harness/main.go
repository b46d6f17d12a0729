// vmain enumerates executions of the instrumented package. It is driven by check.py:
//
//	vmain list PROP TIER          prints the tasks, one JSON line each
//	vmain work                    reads {"prop","tier","task","deadline_s"} lines, answers with results
//	vmain replay FILE             repeats the failing execution stored in a replay file
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"regexp"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"vs"
)

// Task is a unit of work: a family of executions to enumerate.
type Task struct {
	ID      string
	Run     func(c *Ctx)
	Variant string // build variant, default s10
}

// Finding is a violation found by a task.
type Finding struct {
	Prop     string   `json:"prop"`
	Task     string   `json:"task"`
	Sub      string   `json:"sub"`  // which execution family within the task
	Kind     string   `json:"kind"` // fail, panic, race, deadlock, nonterm, crash
	Msg      string   `json:"msg"`
	Stack    string   `json:"stack,omitempty"`
	Schedule []int    `json:"schedule,omitempty"`
	Notes    []string `json:"notes,omitempty"`
	Trace    []string `json:"trace,omitempty"`
	Repeats  string   `json:"repeats,omitempty"`
	Variant  string   `json:"variant,omitempty"`
}

// Counters of a task; all measured.
type Counters struct {
	Execs       int64 `json:"execs"`       // complete executions of the implementation
	Transitions int64 `json:"transitions"` // scheduling points / operations executed
	States      int64 `json:"states"`      // distinct states (nodes of the schedule or history tree)
	Redundant   int64 `json:"redundant"`
	Checks      int64 `json:"checks"` // oracle evaluations
	Families    int64 `json:"families"`
	CappedFam   int64 `json:"capped_families"`
	MaxPoints   int64 `json:"max_points"`
	Outcomes    int64 `json:"outcomes"` // distinct observed outcomes, summed over families
	Forced      int64 `json:"forced"`
	Repeated    int64 `json:"repeated"`         // further executions with a finding of a class already reported
	Bounded     int64 `json:"bounded_families"` // families explored under a preemption bound after the full exploration was cut short
}

type Result struct {
	Task     string    `json:"task"`
	Counters Counters  `json:"counters"`
	Findings []Finding `json:"findings,omitempty"`
	Capped   bool      `json:"capped"`
	CapNotes []string  `json:"cap_notes,omitempty"`
	Samples  []string  `json:"samples,omitempty"`
	Error    string    `json:"error,omitempty"`
	WallMS   int64     `json:"wall_ms"`
}

// Ctx is what a task runs in.
type Ctx struct {
	Prop, Tier string
	res        *Result
	deadline   time.Time
	sub        string // name of the family being run
	replay     *Finding
	stop       bool
	maxFind    int
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Stop tells whether the task should end (deadline or enough findings).
func (c *Ctx) Stop() bool {
	if c.stop {
		return true
	}
	if c.replay == nil && time.Now().After(c.deadline) {
		c.cap("deadline")
		c.stop = true
	}
	return c.stop
}

func (c *Ctx) cap(why string) {
	c.res.Capped = true
	if len(c.res.CapNotes) < 5 {
		c.res.CapNotes = append(c.res.CapNotes, c.sub+": "+why)
	}
}

func (c *Ctx) Sample(f string, a ...any) {
	if len(c.res.Samples) < 2 {
		c.res.Samples = append(c.res.Samples, fmt.Sprintf(f, a...))
	}
}

var current atomic.Pointer[Finding] // what the watchdog reports when the process has to be ended

func (c *Ctx) finding(sub string, f *vs.Failure, sched []int, notes, trace []string) *Finding {
	return &Finding{Prop: c.Prop, Task: c.res.Task, Sub: sub, Kind: f.Kind, Msg: f.Msg, Stack: f.Stack, Schedule: sched, Notes: notes, Trace: trace}
}

func (c *Ctx) report(f *Finding) {
	if len(f.Trace) > 400 {
		f.Trace = f.Trace[len(f.Trace)-400:]
	}
	if len(f.Notes) > 400 {
		f.Notes = f.Notes[len(f.Notes)-400:]
	}
	c.res.Findings = append(c.res.Findings, *f)
	n := 0
	for i := range c.res.Findings {
		if tagRE.FindString(c.res.Findings[i].Msg) == "" {
			n++
		}
	}
	if n >= c.maxFind {
		c.stop = true
	}
}

var tagRE = regexp.MustCompile(`\[[A-Z]+(-[A-Z]+)+:`)

// repeated tells whether the message names a class of findings (in the form [SOME-CLASS: ...]) of which the task has
// reported one already.
func (c *Ctx) repeated(msg string) bool {
	t := tagRE.FindString(msg)
	if t == "" {
		return false
	}
	for _, f := range c.res.Findings {
		if strings.Contains(f.Msg, t) {
			c.res.Counters.Repeated++
			return true
		}
	}
	return false
}

// Seq runs one deterministic execution. It reports whether the property held.
func (c *Ctx) Seq(sub string, cfg vs.Config, body func(x *vs.Exec)) bool {
	if c.replay != nil && c.replay.Sub != sub {
		return true
	}
	current.Store(&Finding{Prop: c.Prop, Task: c.res.Task, Sub: sub})
	x := vs.Sequential(cfg, body)
	k := &c.res.Counters
	k.Execs++
	k.Transitions += x.Steps()
	f := x.Failure()
	if f == nil {
		return true
	}
	if c.repeated(f.Msg) {
		return false
	}
	n := 1
	for i := 0; i < 4; i++ {
		if y := vs.Sequential(cfg, body); y.Failure() != nil && y.Failure().Kind == f.Kind {
			n++
		}
	}
	fd := c.finding(sub, f, nil, x.Notes, nil)
	fd.Repeats = fmt.Sprintf("%d/5", n)
	if n == 1 {
		c.res.Error = "not reproducible: " + f.Error()
		return true
	}
	c.report(fd)
	return false
}

// Explore runs body under all schedules of opt.Mode. When the exhaustive mode hits its cap, the family is explored
// again under a preemption bound.
func (c *Ctx) Explore(sub string, cfg vs.Config, opt vs.Options, body func(x *vs.Exec)) bool {
	if c.replay != nil {
		if c.replay.Sub != sub {
			return true
		}
		x := vs.Run(cfg, &vs.Replay{Schedule: c.replay.Schedule}, body)
		if f := x.Failure(); f != nil {
			c.report(c.finding(sub, f, c.replay.Schedule, x.Notes, x.TraceText()))
		}
		return true
	}
	current.Store(&Finding{Prop: c.Prop, Task: c.res.Task, Sub: sub})
	if opt.Deadline.IsZero() {
		opt.Deadline = c.deadline
	}
	k := &c.res.Counters
	k.Families++
	fallback := opt.Mode == "" && opt.MaxExecs == 0 || opt.Mode == "pb" && opt.Bound == 2
	if fallback && opt.MaxExecs == 0 {
		opt.MaxExecs = 6000
		if c.Thorough() {
			opt.MaxExecs = 100000
		}
	}
	r := vs.Explore(cfg, opt, body)
	if fallback && r.Capped && r.Failure == nil && time.Now().Before(opt.Deadline) {
		// too many interleavings: the largest of these bounded sets that can be explored completely
		k.Bounded++
		for _, o := range []vs.Options{{Mode: "pb", Bound: 2}, {Mode: "pb", Bound: 1}, {Mode: "delay", Bound: 2}, {Mode: "delay", Bound: 1}} {
			if o.Mode == opt.Mode && o.Bound == opt.Bound {
				continue
			}
			k.Execs += r.Execs
			k.Redundant += r.Redundant
			k.Transitions += r.Events
			k.States += r.States
			o.MaxExecs, o.Deadline = 2*opt.MaxExecs, opt.Deadline
			r = vs.Explore(cfg, o, body)
			if !r.Capped || r.Failure != nil {
				break
			}
		}
	}
	k.Execs += r.Execs
	k.Redundant += r.Redundant
	k.Transitions += r.Events
	k.States += r.States
	k.Forced += r.Forced
	k.MaxPoints = max(k.MaxPoints, int64(r.MaxEvents))
	if r.Capped {
		k.CappedFam++
		c.res.Capped = true
		if len(c.res.CapNotes) < 5 {
			c.res.CapNotes = append(c.res.CapNotes, fmt.Sprintf("%s: stopped after %d executions", sub, r.Execs))
		}
	}
	f := r.Failure
	if f == nil {
		return true
	}
	if f.Kind == "internal" {
		c.res.Error = sub + ": " + f.Msg
		c.stop = true
		return true
	}
	if c.repeated(f.Msg) {
		return false
	}
	n := 1
	for i := 0; i < 4; i++ {
		if y := vs.Run(cfg, &vs.Replay{Schedule: r.Schedule}, body); y.Failure() != nil && y.Failure().Kind == f.Kind {
			n++
		}
	}
	fd := c.finding(sub, f, r.Schedule, r.Notes, r.Trace)
	fd.Repeats = fmt.Sprintf("%d/5", n)
	if n == 1 {
		c.res.Error = "not reproducible: " + sub + ": " + f.Error()
		return true
	}
	c.report(fd)
	return false
}

func runTask(t *Task, prop, tier string, deadline time.Duration, replay *Finding) *Result {
	res := &Result{Task: t.ID}
	start := time.Now()
	c := &Ctx{Prop: prop, Tier: tier, res: res, deadline: start.Add(deadline), replay: replay, maxFind: 8}
	func() {
		defer func() {
			if r := recover(); r != nil {
				res.Error = fmt.Sprintf("harness panic: %v\n%s", r, debug.Stack())
			}
		}()
		t.Run(c)
	}()
	res.WallMS = time.Since(start).Milliseconds()
	return res
}

// watchdog ends the process when one execution uses a minute of CPU without reaching its end, or too much memory.
func watchdog() {
	cpu := func() time.Duration {
		var ru syscall.Rusage
		syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
		return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
	}
	last, mark := int64(-1), cpu()
	for {
		time.Sleep(200 * time.Millisecond)
		h := vs.Heartbeat.Load()
		if h != last {
			last, mark = h, cpu()
		}
		die := ""
		kind := "nonterm"
		if vs.Busy.Load() && cpu()-mark > 60*time.Second {
			die = "one execution used more than 60 s of CPU: a loop that does not end"
		}
		if b, err := os.ReadFile("/proc/self/statm"); err == nil {
			var sz, rss int64
			fmt.Sscan(string(b), &sz, &rss)
			if rss*4096 > 3500<<20 && vs.Busy.Load() && cpu()-mark > 500*time.Millisecond {
				die = "memory use grows without bound"
			}
		}
		if die != "" {
			f := current.Load()
			r := Result{}
			if f != nil {
				g := *f
				g.Kind, g.Msg = kind, die
				r.Task = g.Task
				r.Findings = []Finding{g}
			}
			b, _ := json.Marshal(r)
			os.Stdout.Write(append(b, '\n'))
			os.Exit(4)
		}
	}
}

type request struct {
	Prop     string  `json:"prop"`
	Tier     string  `json:"tier"`
	Task     string  `json:"task"`
	Deadline float64 `json:"deadline_s"`
}

func find(prop, tier, id string) *Task {
	for _, t := range tasks(prop, tier) {
		if t.ID == id {
			return &t
		}
	}
	return nil
}

func main() {
	debug.SetMemoryLimit(2500 << 20)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vmain list|work|replay")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		for _, t := range tasks(os.Args[2], os.Args[3]) {
			b, _ := json.Marshal(map[string]string{"id": t.ID, "variant": t.Variant})
			fmt.Println(string(b))
		}
	case "work":
		go watchdog()
		sc := bufio.NewScanner(os.Stdin)
		sc.Buffer(nil, 1<<20)
		w := bufio.NewWriter(os.Stdout)
		for sc.Scan() {
			var q request
			if err := json.Unmarshal(sc.Bytes(), &q); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
			t := find(q.Prop, q.Tier, q.Task)
			var r *Result
			if t == nil {
				r = &Result{Task: q.Task, Error: "no such task"}
			} else {
				r = runTask(t, q.Prop, q.Tier, time.Duration(q.Deadline*float64(time.Second)), nil)
			}
			b, _ := json.Marshal(r)
			w.Write(b)
			w.WriteByte('\n')
			w.Flush()
		}
	case "run": // vmain run PROP TIER PATTERN: for development
		go watchdog()
		for _, t := range tasks(os.Args[2], os.Args[3]) {
			if len(os.Args) > 4 && !strings.Contains(t.ID, os.Args[4]) {
				continue
			}
			if v := os.Getenv("VARIANT"); v != "" && v != t.Variant {
				continue
			}
			r := runTask(&t, os.Args[2], os.Args[3], 60*time.Second, nil)
			fmt.Printf("%s %dms %+v capped=%v %v err=%q samples=%v\n", t.ID, r.WallMS, r.Counters, r.Capped, r.CapNotes, r.Error, r.Samples)
			for _, f := range r.Findings {
				fmt.Printf("  FINDING %s [%s] %s (%s)\n", f.Kind, f.Sub, f.Msg, f.Repeats)
				if len(os.Args) > 5 {
					fmt.Println("   ", strings.Join(f.Notes, "\n    "))
					fmt.Println(f.Stack)
					fmt.Println(strings.Join(f.Trace, "\n"))
				}
			}
		}
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var f Finding
		if err := json.Unmarshal(b, &f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		go watchdog()
		for _, tier := range []string{"quick", "thorough"} {
			t := find(f.Prop, tier, f.Task)
			if t == nil {
				continue
			}
			r := runTask(t, f.Prop, tier, time.Hour, &f)
			if len(r.Findings) > 0 {
				g := r.Findings[0]
				fmt.Printf("reproduced: %s: %s\n%s\n%s\n", g.Kind, g.Msg, strings.Join(g.Notes, "\n"), g.Stack)
				os.Exit(1)
			}
		}
		fmt.Println("not reproduced")
	}
}
