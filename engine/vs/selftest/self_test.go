package selftest

import (
	"fmt"
	"math/rand"
	"sort"
	"testing"
	"vs"
	"vs/vatomic"
	"vs/vsync"
)

// Random little programs: the set of final outcomes under dpor must equal the one under exhaustive dfs.
type instr struct{ kind, v, w int }

func run(prog [][]instr, mode string) (map[string]bool, vs.Result) {
	outs := map[string]bool{}
	fails := map[string]bool{}
	var res vs.Result
	res = vs.Explore(vs.Config{NoRaces: true}, vs.Options{Mode: mode, MaxExecs: 20000}, func(x *vs.Exec) {
		var vars [3]uint64
		var mu vsync.Mutex
		ch := vs.MakeChan[int](1)
		regs := make([][]uint64, len(prog))
		plain := 0
		for i, p := range prog {
			x.Go(fmt.Sprint("w", i), func() {
				for _, in := range p {
					switch in.kind {
					case 0:
						regs[i] = append(regs[i], vatomic.LoadUint64(&vars[in.v]))
					case 1:
						vatomic.StoreUint64(&vars[in.v], uint64(10*i+in.w+1))
					case 2:
						ok := vatomic.CompareAndSwapUint64(&vars[in.v], uint64(in.w), uint64(10*i+5))
						if ok {
							regs[i] = append(regs[i], 100)
						} else {
							regs[i] = append(regs[i], 101)
						}
					case 3:
						vatomic.AddUint64(&vars[in.v], uint64(in.w+1))
					case 4:
						mu.Lock()
						plain = plain*3 + i
						mu.Unlock()
					case 5:
						switch c := ch.RecvCase(); vs.Select(true, c) {
						case 0:
							regs[i] = append(regs[i], uint64(200+c.V))
						default:
							regs[i] = append(regs[i], 299)
						}
					case 6:
						c := ch.SendCase(i)
						regs[i] = append(regs[i], uint64(300+vs.Select(true, c)))
					case 7:
						// conditional: read then store if nonzero
						if vatomic.LoadUint64(&vars[in.v]) != 0 {
							vatomic.StoreUint64(&vars[in.w], uint64(i+1))
						}
					case 8: // spin until nonzero
						for vatomic.LoadUint64(&vars[in.v]) == 0 {
							vs.Gosched()
						}
						regs[i] = append(regs[i], vatomic.LoadUint64(&vars[in.v]))
					case 9:
						vs.Go(func() { vatomic.AddUint64(&vars[in.v], 7) })
					}
				}
			})
		}
		x.Explore()
		x.Quiesce()
		outs[fmt.Sprint(vars, regs, plain, ch.Len())] = true
	})
	_ = fails
	return outs, res
}

func keys(m map[string]bool) (k []string) {
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return
}

func TestDPORAgainstDFS(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	var de, fe int64
	var skipped, dead int
	for n := 0; n < 1500; n++ {
		nt := 2 + rnd.Intn(2)
		prog := make([][]instr, nt)
		kinds := 8
		if n%3 == 0 {
			kinds = 10
		}
		for i := range prog {
			l := 1 + rnd.Intn(3)
			if nt == 3 {
				l = 1 + rnd.Intn(2)
			}
			for j := 0; j < l; j++ {
				k := rnd.Intn(kinds)
				prog[i] = append(prog[i], instr{k, rnd.Intn(2), rnd.Intn(2)})
			}
		}
		a, ra := run(prog, "dpor")
		b, rb := run(prog, "dfs")
		if ra.Capped || rb.Capped {
			skipped++
			continue
		}
		if ra.Failure != nil && rb.Failure != nil && ra.Failure.Kind == "deadlock" && rb.Failure.Kind == "deadlock" {
			dead++
			continue
		}
		if ra.Failure != nil || rb.Failure != nil {
			t.Fatalf("prog %v: %v %v", prog, ra.Failure, rb.Failure)
		}
		de += ra.Execs
		fe += rb.Execs
		if fmt.Sprint(keys(a)) != fmt.Sprint(keys(b)) {
			t.Fatalf("prog %d %v:\ndpor %v\ndfs  %v (%d vs %d execs)", n, prog, keys(a), keys(b), ra.Execs, rb.Execs)
		}
	}
	t.Logf("dpor %d executions, dfs %d; %d skipped, %d deadlock in both", de, fe, skipped, dead)
}

func TestRaceAndDeadlock(t *testing.T) {
	res := vs.Explore(vs.Config{}, vs.Options{}, func(x *vs.Exec) {
		p := new(uint64)
		f := new(uint64)
		x.Go("a", func() { *p = 1; vs.W(p); vatomic.StoreUint64(f, 1) })
		x.Go("b", func() {
			if vatomic.LoadUint64(f) == 1 {
				_ = *vs.RP(p)
			}
		})
		x.Explore()
	})
	if res.Failure != nil {
		t.Fatal(res.Failure)
	}
	res = vs.Explore(vs.Config{}, vs.Options{}, func(x *vs.Exec) {
		p := new(uint64)
		f := new(uint64)
		x.Go("a", func() { vatomic.StoreUint64(f, 1); *p = 1; vs.W(p) })
		x.Go("b", func() {
			if vatomic.LoadUint64(f) == 1 {
				_ = *vs.RP(p)
			}
		})
		x.Explore()
	})
	if res.Failure == nil || res.Failure.Kind != "race" {
		t.Fatal("race not found")
	}
	res = vs.Explore(vs.Config{}, vs.Options{}, func(x *vs.Exec) {
		var a, b vsync.Mutex
		x.Go("a", func() { a.Lock(); b.Lock(); b.Unlock(); a.Unlock() })
		x.Go("b", func() { b.Lock(); a.Lock(); a.Unlock(); b.Unlock() })
		x.Explore()
	})
	if res.Failure == nil || res.Failure.Kind != "deadlock" {
		t.Fatal("deadlock not found")
	}
	res = vs.Explore(vs.Config{}, vs.Options{}, func(x *vs.Exec) {
		f := new(uint64)
		x.Go("a", func() {
			for vatomic.LoadUint64(f) == 0 {
				vs.Gosched()
			}
		})
		x.Go("b", func() {})
		x.Explore()
	})
	if res.Failure == nil || res.Failure.Kind != "deadlock" {
		t.Fatal("livelock not found")
	}
}
