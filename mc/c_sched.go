package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/bnb-chain/zkbnb-setup/phase1"
	"github.com/bnb-chain/zkbnb-setup/phase2"
	"verif/mc/sched"
)

// ------------------------------------------------------------- schedules, processor counts and batch sizes

// explore runs body under all schedules within the bounds, natively if the code couldn't be instrumented.
func explore(c *Ctx, o sched.Options, body func(), verify func() error) {
	c.Count("explorations")
	if !sched.Instrumented {
		c.Count("native_runs")
		body()
		c.Transition()
		if err := verify(); err != nil {
			c.Failf("%v", err)
		}
		c.Trace()
		return
	}
	// small bounds first, for code which has too many schedules
	limit := 25 * time.Second
	if c.Tier == "thorough" {
		limit = 100 * time.Second
	}
	if o.Until.IsZero() {
		o.Until = time.Now().Add(limit)
	}
	bounds := []int{o.Preemptions}
	for b := min(2, o.Preemptions-1); b >= 0; b-- {
		bounds = append([]int{b}, bounds...)
	}
	var r sched.Result
	within := -1
	for _, b := range bounds {
		o.Preemptions = b
		r = sched.Explore(o, body, func() bool {
			if err := verify(); err != nil {
				c.Failf("%v", err)
				return false
			}
			return true
		})
		c.trans += int64(r.Points)
		c.traces += int64(r.Schedules)
		c.counts["schedules"] += int64(r.Schedules)
		if !r.Complete {
			break
		}
		within = b
	}
	if !r.Complete && r.Fail == "" && !c.Failed() {
		c.Count("explorations_capped")
	}
	c.Sample("%d schedules of %d goroutines, complete within %d switches", r.Schedules, r.MaxThreads, within)
	if r.Fail != "" {
		c.Failf("%s", r.Fail)
	}
	if c.Failed() {
		c.fail += fmt.Sprintf("\nschedule %v", r.FailTrace)
	}
}

// oneMain runs a single case natively in this process, for the race detector.
func oneMain(id, tier, key, dir string) {
	silence()
	mustNil(os.Chdir(dir))
	g := &Gen{Tier: tier, Seed: 1, Dir: dir}
	ran, failed := false, ""
	g.emit = func(k string, opt caseOpt, run func(c *Ctx)) {
		if k != key || ran {
			return
		}
		ran = true
		c := &Ctx{Tier: tier, Dir: dir, Key: key, states: map[uint64]struct{}{}, counts: map[string]int64{}}
		func() {
			defer func() {
				if e := recover(); e != nil {
					c.Failf("panic: %v\n%s", e, debug.Stack())
				}
			}()
			run(c)
		}()
		failed = c.fail
	}
	checks[id].Gen(g)
	if !ran {
		os.Exit(3)
	}
	if failed != "" {
		fmt.Fprintln(os.Stderr, failed)
		os.Exit(4)
	}
}

// raced emits a case that is run in the binary with the race detector.
func raced(g *Gen, id, key string, run func(c *Ctx)) {
	key = "race/" + key
	bin := os.Getenv("MC_RACE")
	if bin == "" {
		return
	}
	if os.Getenv("MC_IN_RACE") != "" {
		g.Case(key, run)
		return
	}
	g.Case(key, func(c *Ctx) {
		cmd := exec.Command(bin, "one", id, g.Tier, key, c.Dir)
		cmd.Env = append(os.Environ(), "MC_IN_RACE=1", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=10", "GOMAXPROCS=4")
		var out bytes.Buffer
		cmd.Stderr = &out
		err := cmd.Run()
		c.Transition()
		c.State(key)
		if s := out.String(); strings.Contains(s, "DATA RACE") {
			c.Failf("data race: %s", s)
			return
		}
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			c.Failf("with the race detector: %v: %s", err, out.String())
			return
		}
		mustNil(err)
		c.Trace()
		c.Count("race_detector_runs")
	})
}

// withCPUs makes the code see n processors.
func withCPUs(n int, f func()) {
	sched.SetNumCPU(n)
	defer sched.SetNumCPU(0)
	f()
}

type ival struct{ a, b int }

// checkRanges tells whether the ranges partition 0..n-1.
func checkRanges(l []ival, n int) error {
	l = append([]ival{}, l...)
	sort.Slice(l, func(i, j int) bool { return l[i].a < l[j].a || l[i].a == l[j].a && l[i].b < l[j].b })
	at := 0
	for _, r := range l {
		if r.a == r.b {
			continue
		}
		if r.a != at || r.b < r.a {
			return fmt.Errorf("the ranges %v don't partition 0..%d", l, n-1)
		}
		at = r.b
	}
	if at != n {
		return fmt.Errorf("the ranges %v don't cover 0..%d", l, n-1)
	}
	return nil
}

// ------------------------------------------------------------------------------------------------- C27

// ops are the commands on small files, each with what it must give.
type op struct {
	name  string
	setup func()
	run   func() error
	check func(err error) error // of the outcome
}

func fixed(rng string, f func() error) func() error {
	return func() error { return withRNG(newRNG(rng), f) }
}

// parallelOps are the commands that do something in parallel.
func parallelOps(power, wit int) []op {
	accepted := func(err error) error {
		if err != nil {
			return fmt.Errorf("an honest ceremony was rejected: %v", err)
		}
		return nil
	}
	rejected := func(err error) error {
		if err == nil {
			return fmt.Errorf("a wrong file was accepted")
		}
		return nil
	}
	b := honest1(power, 0, "").bytes()
	h := honest1(power, 1, "")
	bad := h.clone()
	bad.T1[len(bad.T1)-1] = erand("bad")
	bad2 := h.clone()
	bad2.T2[len(bad2.T2)-1] = erand("bad")
	o := origin2(1<<power, wit, plainHeader)
	p := o.honest(1)
	badZ := p.clone()
	badZ.Z[len(badZ.Z)-1] = erand("bad")
	circ := generic(2, 1, 1, 1<<power)
	var init2 *Init2
	getInit := func() *Init2 {
		if init2 == nil {
			init2 = circ.init2(ph1For(power, ""))
		}
		return init2
	}
	_ = b
	return []op{
		{"p1c", func() { writeFile("in.ph1", h.bytes()) }, fixed("C27", func() error { return phase1.Contribute("in.ph1", "out.ph1") }), func(err error) error {
			if err != nil {
				return err
			}
			r := newRNG("C27")
			for i := 0; i < 12; i++ {
				r.Read(make([]byte, 32))
			}
			_, err = checkContribution1(h, unitBase, readFile("out.ph1"), r.candidates())
			return err
		}},
		{"p1v", func() { writeFile("in.ph1", h.bytes()) }, fixed("C27", func() error { return phase1.Verify("in.ph1", "") }), accepted},
		{"p1v/wrong TauG1", func() { writeFile("in.ph1", bad.bytes()) }, fixed("C27", func() error { return phase1.Verify("in.ph1", "") }), rejected},
		{"p1v/wrong TauG2", func() { writeFile("in.ph1", bad2.bytes()) }, fixed("C27", func() error { return phase1.Verify("in.ph1", "") }), rejected},
		{"p2c", func() { writeFile("in.ph2", p.bytes()) }, fixed("C27", func() error { return phase2.Contribute("in.ph2", "out.ph2") }), func(err error) error {
			if err != nil {
				return err
			}
			r := newRNG("C27")
			for i := 0; i < 12; i++ {
				r.Read(make([]byte, 32))
			}
			_, err = checkContribution2(p, readFile("out.ph2"), r.candidates())
			return err
		}},
		{"p2v", func() { writeFile("in.ph2", p.bytes()); writeFile("origin.ph2", o.bytes()) }, fixed("C27", func() error { return phase2.Verify("in.ph2", "origin.ph2") }), accepted},
		{"p2v/wrong Z", func() { writeFile("in.ph2", badZ.bytes()); writeFile("origin.ph2", o.bytes()) }, fixed("C27", func() error { return phase2.Verify("in.ph2", "origin.ph2") }), rejected},
		{"p2n", func() {
			writeFile("in.ph1", ph1For(power, "").bytes())
			writeR1CS(circ.build(), "circ.r1cs")
		}, func() error {
			return callSafe(func() error { return phase2.Initialize("in.ph1", "circ.r1cs", "out.ph2") })
		}, func(err error) error {
			if err != nil {
				return err
			}
			return getInit().compare("out.ph2")
		}},
	}
}

func genC27(g *Gen) {
	cpus := []int{1, 2, 3, 5, 7, 8, 16, 33}
	// the number of processors
	for power := 1; power <= 4; power++ {
		for _, wit := range []int{0, 1, 4} {
			for i, o := range parallelOps(power, wit) {
				if wit != 1 && !strings.HasPrefix(o.name, "p2c") && !strings.HasPrefix(o.name, "p2v") {
					continue
				}
				g.Case(fmt.Sprintf("processors/power=%d/witness=%d/%d %s", power, wit, i, o.name), func(c *Ctx) {
					o.setup()
					for _, n := range cpus {
						var err error
						withCPUs(n, func() { err = o.run() })
						c.Transition()
						if err := o.check(err); err != nil {
							c.Failf("with %d processors: %v", n, err)
							return
						}
						c.State(o.name, power, wit, n)
						c.Trace()
					}
				})
			}
		}
	}
	type b struct{ power, cpus, level, pre, max int }
	bs := []b{{1, 2, 0, 2, 0}, {1, 2, 1, 1, 0}, {2, 2, 0, 1, 0}, {1, 3, 0, 1, 0}, {1, 2, 2, 1, 0}, {2, 3, 1, 1, 0}, {3, 2, 0, 1, 0}}
	if g.Thorough() {
		bs = []b{{1, 2, 0, 3, 0}, {1, 2, 1, 2, 0}, {1, 2, 2, 1, 0}, {1, 3, 0, 2, 0}, {2, 2, 0, 2, 0}, {2, 3, 1, 1, 0}, {3, 4, 0, 1, 0}, {2, 2, 2, 1, 0}}
	}
	for _, x := range bs {
		for i, o := range parallelOps(x.power, 2) {
			if o.name == "p2n" && x.pre > 1 && !g.Thorough() {
				continue
			}
			g.Case(fmt.Sprintf("schedules/power=%d/cpus=%d/level=%d/delays=%d/%d %s", x.power, x.cpus, x.level, x.pre, i, o.name), func(c *Ctx) {
				o.setup()
				withCPUs(x.cpus, func() {
					var err error
					explore(c, sched.Options{Preemptions: x.pre, Delays: true, Level: x.level, Max: x.max}, func() { err = o.run() }, func() error { return o.check(err) })
				})
				c.State(o.name, x)
			})
		}
	}
	for power := 1; power <= 3; power += 2 {
		for i, o := range parallelOps(power, 3) {
			for _, n := range []int{2, 5} {
				raced(g, "C27", fmt.Sprintf("power=%d/cpus=%d/%d %s", power, n, i, o.name), func(c *Ctx) {
					o.setup()
					var err error
					withCPUs(n, func() { err = o.run() })
					if err := o.check(err); err != nil {
						c.Failf("%v", err)
					}
				})
			}
		}
	}
}

// ------------------------------------------------------------------------------------------------- C24

func genC24(g *Gen) {
	batches := []int{2, 3, 4, 5, 7}
	powers, ks := []int{1, 2, 3, 4}, []int{1, 2}
	if g.Thorough() {
		batches = []int{2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17}
		powers = []int{1, 2, 3, 4, 5, 6}
	}
	for _, bs := range batches {
		u := g.Under(fmt.Sprintf("batch=%d/", bs), func(c *Ctx, run func(c *Ctx)) {
			sched.SetBatch(bs)
			defer sched.SetBatch(0)
			if sched.Batches == 0 {
				c.Count("without_batches")
			}
			run(c)
		})
		for _, power := range powers {
			for _, k := range append([]int{0}, ks...) {
				for _, base := range []string{"", "ppot"} {
					if base != "" && k > 1 {
						continue
					}
					u.Case(fmt.Sprintf("phase1/power=%d/after=%d/base=%s", power, k, base), func(c *Ctx) {
						p := honest1(power, k, base)
						writeFile("in.ph1", p.bytes())
						q := contribute1(c, p, base, "", "C24")
						if q == nil {
							return
						}
						writeFile("in.ph1", readFile("out.ph1"))
						c.Transition()
						if err := verify1(base, power); err != nil {
							c.Failf("an honest ceremony was rejected: %v", err)
							return
						}
						c.Trace()
					})
				}
			}
		}
		// adversarial parameters
		p1 := []cfg1{{1, 1, "", false}, {2, 1, "", false}}
		if bs <= 4 || g.Thorough() {
			p1 = append(p1, cfg1{3, 1, "ppot", false})
		}
		genParams1(u, p1)
		doms, wits := []int{2, 4, 8, 16}, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
		for _, d := range doms {
			for _, w := range wits {
				u.Case(fmt.Sprintf("phase2/domain=%d/witness=%d", d, w), func(c *Ctx) {
					o := origin2(d, w, plainHeader)
					p := o.honest(1)
					writeFile("in.ph2", p.bytes())
					if contribute2(c, p, "", "C24") == nil {
						return
					}
					writeFile("in.ph2", readFile("out.ph2"))
					c.Transition()
					if err := verify2(o); err != nil {
						c.Failf("an honest ceremony was rejected: %v", err)
						return
					}
					c.Trace()
				})
			}
		}
		p2 := []cfg2{{4, 5, 1}, {8, 3, 1}}
		if g.Thorough() {
			p2 = append(p2, cfg2{16, 17, 1}, cfg2{2, 9, 2})
		}
		genParams2(u, p2)
	}
}

func init() {
	register(&Check{ID: "C24", Level: "model_checking", QuickS: 240,
		Rule:   "the real code compiled with its batch sizes replaced by variables: contributions compared byte by byte with the model, honest files accepted and every modification of the parameters rejected, for small batch sizes by all sizes of files",
		Assume: []string{"the group operations and the pairing of gnark-crypto", "batches hold at least 2 points"},
		Gen:    genC24})
	register(&Check{ID: "C27", Level: "model_checking", Race: true, MaxProcs: 1, NoGC: true, QuickS: 240,
		Rule:   "every command that works in parallel, on small files, for every number of processors, under all schedules within the bound of deviations from the default order (controlled scheduler), and under the race detector; each outcome compared with the model",
		Assume: []string{"the group operations and the pairing of gnark-crypto"},
		Gen:    genC27})
}
