// Command mc is an explicit-state / exhaustive-exploration model checker for zkbnb-setup: it enumerates
// bounded spaces of ceremonies, adversarial files, faults, inputs and schedules, computes what the reference
// model (exponents of all points) says, and replays every single one of them against the real code.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Check is one property's exploration. Gen must enumerate its cases deterministically: it is run in each
// worker, which executes only the cases of its shard, and again to replay one case.
type Check struct {
	ID        string
	Level     string
	Rule      string
	Gen       func(g *Gen)
	Setup     func(g *Gen) // optional, once per worker
	Assume    []string
	Race      bool
	NoGC      bool // run the workers without garbage collection, restarting them when they have grown
	MaxProcs  int  // of the worker
	Workers   int
	QuickS    int // budget of seconds
	ThoroughS int
}

type Gen struct {
	Tier    string
	Seed    int64
	Dir     string // scratch directory of the worker
	emit    func(key string, opt caseOpt, run func(c *Ctx))
	stopped bool
}

// Under is a generator whose cases get a prefix and are run by around.
func (g *Gen) Under(prefix string, around func(c *Ctx, run func(c *Ctx))) *Gen {
	h := *g
	h.emit = func(key string, opt caseOpt, run func(c *Ctx)) {
		g.emit(prefix+key, opt, func(c *Ctx) { around(c, run) })
	}
	return &h
}

type caseOpt struct {
	crashOK bool // the death of the process is an admissible outcome of this case
}

func (g *Gen) Thorough() bool { return g.Tier == "thorough" }

// Case emits a case; a crash of the process is a violation.
func (g *Gen) Case(key string, run func(c *Ctx)) { g.emit(key, caseOpt{}, run) }

// CaseCrashOK emits a case in which the code may end the process (i.e. it didn't succeed).
func (g *Gen) CaseCrashOK(key string, run func(c *Ctx)) { g.emit(key, caseOpt{crashOK: true}, run) }

// Ctx is given to a running case.
type Ctx struct {
	Tier   string
	Dir    string // empty scratch directory, the current one
	Key    string
	fail   string
	states map[uint64]struct{}
	trans  int64
	traces int64
	evals  int64
	counts map[string]int64
	sample string
}

func (c *Ctx) Failf(f string, a ...any) {
	if c.fail == "" {
		c.fail = fmt.Sprintf(f, a...)
	}
}
func (c *Ctx) Failed() bool { return c.fail != "" }

// State records a (distinct) state of the model that was visited.
func (c *Ctx) State(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			io.WriteString(h, v)
		default:
			fmt.Fprintf(h, "%v", v)
		}
		h.Write([]byte{0xff})
	}
	c.states[h.Sum64()] = struct{}{}
}
func (c *Ctx) Transition() { c.trans++ }

// Trace records that a model behaviour was replayed on the implementation and compared.
func (c *Ctx) Trace()                    { c.traces++ }
func (c *Ctx) Eval()                     { c.evals++ }
func (c *Ctx) Count(name string)         { c.counts[name]++ }
func (c *Ctx) Add(name string, n int)    { c.counts[name] += int64(n) }
func (c *Ctx) Sample(f string, a ...any) { c.sample = fmt.Sprintf(f, a...) }

// what a worker says about a case or at the end, as lines of JSON
type msg struct {
	T      string           `json:"t"` // s(tart) d(one) e(nd)
	I      int              `json:"i"`
	Key    string           `json:"k,omitempty"`
	Fail   string           `json:"f,omitempty"`
	COK    bool             `json:"c,omitempty"`
	Sample string           `json:"s,omitempty"`
	States []uint64         `json:"st,omitempty"`
	Trans  int64            `json:"tr,omitempty"`
	Traces int64            `json:"tc,omitempty"`
	Evals  int64            `json:"ev,omitempty"`
	Counts map[string]int64 `json:"cn,omitempty"`
	Stop   bool             `json:"stop,omitempty"`
	Cases  int64            `json:"n,omitempty"`
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// ---------------------------------------------------------------------------------------------- worker

func workerMain(args []string) {
	// work ID tier seed shard nshards resume deadline(unix ms) key
	id, tier := args[0], args[1]
	seed, _ := strconv.ParseInt(args[2], 10, 64)
	shard, _ := strconv.Atoi(args[3])
	nsh, _ := strconv.Atoi(args[4])
	resume, _ := strconv.Atoi(args[5])
	dl, _ := strconv.ParseInt(args[6], 10, 64)
	onlyKey := args[7]
	dir := args[8]
	deadline := time.UnixMilli(dl)
	ck := checks[id]

	proto := bufio.NewWriter(os.NewFile(3, "proto"))
	protoEnc := json.NewEncoder(proto)
	send := func(m msg) {
		protoEnc.Encode(m)
		proto.Flush()
	}
	silence()
	g := &Gen{Tier: tier, Seed: seed, Dir: dir}
	idx := -1
	ncase := int64(0)
	agg := &Ctx{states: map[uint64]struct{}{}, counts: map[string]int64{}}
	flushAgg := func(t string) {
		m := msg{T: t, Trans: agg.trans, Traces: agg.traces, Evals: agg.evals, Counts: agg.counts, Cases: ncase, Stop: g.stopped}
		for s := range agg.states {
			m.States = append(m.States, s)
		}
		send(m)
		agg = &Ctx{states: map[uint64]struct{}{}, counts: map[string]int64{}}
		ncase = 0
	}
	g.emit = func(key string, opt caseOpt, run func(c *Ctx)) {
		idx++
		if g.stopped || idx < resume {
			return
		}
		if onlyKey != "" {
			if key != onlyKey {
				return
			}
		} else if nsh > 1 && int(hashKey(key)%uint64(nsh)) != shard {
			return
		}
		if onlyKey == "" && time.Now().After(deadline) {
			g.stopped = true
			return
		}
		caseDir := filepath.Join(dir, "case")
		mustNil(cleanDir(caseDir))
		mustNil(os.Chdir(caseDir))
		send(msg{T: "s", I: idx, Key: key, COK: opt.crashOK})
		c := &Ctx{Tier: tier, Dir: caseDir, Key: key, states: agg.states, counts: agg.counts}
		func() {
			defer func() {
				if e := recover(); e != nil {
					if opt.crashOK {
						c.counts["panics"]++
						return
					}
					c.Failf("panic: %v\n%s", e, debug.Stack())
				}
			}()
			run(c)
		}()
		agg.trans += c.trans
		agg.traces += c.traces
		agg.evals += c.evals
		ncase++
		if c.sample == "" {
			c.sample = fmt.Sprintf("%d transitions, %d compared with the model", c.trans, c.traces)
		}
		m := msg{T: "d", I: idx, Key: key, Fail: c.fail, Sample: c.sample}
		send(m)
		if len(agg.states) > 20000 || opt.crashOK {
			flushAgg("p")
		}
		if ck.NoGC && grown() {
			flushAgg("r")
			os.Exit(0)
		}
	}
	if ck.Setup != nil {
		ck.Setup(g)
	}
	if ck.NoGC {
		debug.SetGCPercent(-1)
	}
	ck.Gen(g)
	flushAgg("e")
}

// grown tells whether the process should be replaced.
func grown() bool {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return false
	}
	var virt, res int64
	fmt.Sscan(string(b), &virt, &res)
	return res > (1200<<20)/4096 || virt > (16<<40)/4096
}

func hashKey(k string) uint64 {
	h := fnv.New64a()
	io.WriteString(h, k)
	return h.Sum64()
}

func cleanDir(d string) error {
	os.Chmod(d, 0o755)
	if err := os.RemoveAll(d); err != nil {
		return err
	}
	return os.MkdirAll(d, 0o755)
}

func mustNil(err error) {
	if err != nil {
		panic(err)
	}
}

// --------------------------------------------------------------------------------------- coordinator

type violation struct{ Key, What string }

type outcome struct {
	mu        sync.Mutex
	states    map[uint64]struct{}
	trans     int64
	traces    int64
	evals     int64
	cases     int64
	counts    map[string]int64
	samples   []string
	viol      []violation
	crashes   int64
	stopped   bool
	hangs     []string
	unsettled []string
	slow      []timed
}

type timed struct {
	key string
	d   time.Duration
}

const hangLimit = 150 * time.Second

// cpuOf is the processor time which the process has used with its children that ended.
func cpuOf(pid int) time.Duration {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:]))
	var n int
	for i := 11; i < 15 && i < len(f); i++ {
		k, _ := strconv.Atoi(f[i])
		n += k
	}
	return time.Duration(n) * 10 * time.Millisecond
}

// enough is the number of failing cases at which the exploration stops
var enough = 20

func init() {
	if os.Getenv("MC_FIRST") != "" {
		enough = 0
	}
}

func runShard(ck *Check, tier string, seed int64, shard, n int, deadline time.Time, onlyKey, base string, out *outcome) {
	resume := 0
	for tries := 0; ; tries++ {
		dir, err := os.MkdirTemp(base, "w")
		mustNil(err)
		cmd := exec.Command(os.Args[0], "work", ck.ID, tier, fmt.Sprint(seed), fmt.Sprint(shard), fmt.Sprint(n), fmt.Sprint(resume), fmt.Sprint(deadline.UnixMilli()), onlyKey, dir)
		pr, pw, err := os.Pipe()
		mustNil(err)
		cmd.ExtraFiles = []*os.File{pw}
		stderr := &tail{max: 16000}
		cmd.Stderr = stderr
		cmd.Stdout = nil
		mp := ck.MaxProcs
		if mp == 0 {
			mp = 2
		}
		cmd.Env = append(os.Environ(), fmt.Sprintf("GOMAXPROCS=%d", mp), "TMPDIR="+dir)
		mustNil(cmd.Start())
		pw.Close()
		var cur msg
		var began time.Time
		inCase, ended, killed, again, tooMany := false, false, false, false, false
		lines := make(chan msg, 64)
		go func() {
			sc := bufio.NewReaderSize(pr, 1<<20)
			for {
				l, err := sc.ReadBytes('\n')
				if len(l) > 0 && err == nil {
					var m msg
					if json.Unmarshal(l, &m) == nil {
						lines <- m
					}
				}
				if err != nil {
					break
				}
			}
			close(lines)
		}()
		timer := time.NewTimer(hangLimit)
		// a process that works, but gets little of the machine, has more time
		var silent, seen time.Duration
		last := time.Now()
		busy := func() bool {
			const step = 30 * time.Second
			now := cpuOf(cmd.Process.Pid)
			used, recent := now-silent, now-seen
			seen = now
			limit := hangLimit
			if tier == "thorough" {
				limit *= 8
			}
			if recent < time.Second || used >= limit || time.Since(last) >= 4*limit {
				return false
			}
			timer.Reset(step)
			return true
		}
	loop:
		for {
			select {
			case m, ok := <-lines:
				if !ok {
					break loop
				}
				timer.Reset(hangLimit)
				last = time.Now()
				silent = cpuOf(cmd.Process.Pid)
				seen = silent
				out.mu.Lock()
				switch m.T {
				case "s":
					cur, inCase = m, true
					began = time.Now()
				case "d":
					inCase = false
					if d := time.Since(began); d > time.Second {
						out.slow = append(out.slow, timed{m.Key, d})
					}
					if m.Fail != "" {
						out.viol = append(out.viol, violation{m.Key, m.Fail})
					}
					if s := m.Key + ": " + m.Sample; m.Sample != "" && m.Fail == "" {
						// a few, spread over the cases, the same in each run
						h := hashKey(s)
						if len(out.samples) < 8 {
							out.samples = append(out.samples, s)
						} else if k := h % 8; h < hashKey(out.samples[k]) {
							out.samples[k] = s
						}
					}
				case "e", "p", "r":
					for _, s := range m.States {
						out.states[s] = struct{}{}
					}
					out.trans += m.Trans
					out.traces += m.Traces
					out.evals += m.Evals
					out.cases += m.Cases
					out.stopped = out.stopped || m.Stop
					for k, v := range m.Counts {
						out.counts[k] += v
					}
					if m.T == "e" {
						ended = true
					}
					again = m.T == "r"
				}
				nv := len(out.viol)
				out.mu.Unlock()
				if nv > enough {
					killed = true
					cmd.Process.Kill()
				}
			case <-timer.C:
				if busy() {
					continue
				}
				killed = true
				out.mu.Lock()
				out.hangs = append(out.hangs, cur.Key)
				if inCase && !cur.COK {
					// counts if it doesn't answer again
					out.viol = append(out.viol, violation{cur.Key, fmt.Sprintf("no answer within %v", hangLimit)})
				}
				stop := len(out.hangs) >= 5
				out.mu.Unlock()
				tooMany = stop
				cmd.Process.Kill()
			}
		}
		werr := cmd.Wait()
		pr.Close()
		os.RemoveAll(dir)
		if ended {
			return
		}
		if again {
			resume = cur.I + 1
			continue
		}
		if !inCase && !killed {
			fmt.Fprintf(os.Stderr, "worker of %s died outside a case (%v):\n%s\n", ck.ID, werr, stderr.String())
			out.mu.Lock()
			out.unsettled = append(out.unsettled, "worker died outside a case")
			out.mu.Unlock()
			return
		}
		out.mu.Lock()
		nv := len(out.viol)
		if !killed {
			out.crashes++
			if cur.COK {
				out.cases++
			} else {
				out.viol = append(out.viol, violation{cur.Key, fmt.Sprintf("the process died (%v): %s", werr, stderr.String())})
			}
		}
		out.mu.Unlock()
		if nv > enough || onlyKey != "" || tooMany {
			return
		}
		resume = cur.I + 1
	}
}

type tail struct {
	b   []byte
	max int
}

func (t *tail) Write(p []byte) (int, error) {
	if len(t.b) < t.max {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tail) String() string {
	s := string(t.b)
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

func newOutcome() *outcome {
	return &outcome{states: map[uint64]struct{}{}, counts: map[string]int64{}}
}

type finding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

func checkMain(id, tier string, seed int64, root string) int {
	ck := checks[id]
	if ck == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	start := time.Now()
	budget := ck.QuickS
	if budget == 0 {
		budget = 400
	}
	if tier == "thorough" {
		budget = ck.ThoroughS
		if budget == 0 {
			budget = 3000
		}
	}
	if v := os.Getenv("MC_BUDGET"); v != "" {
		budget, _ = strconv.Atoi(v)
	}
	deadline := start.Add(time.Duration(budget) * time.Second)
	base, err := os.MkdirTemp("", "mc-"+id+"-")
	mustNil(err)
	defer os.RemoveAll(base)
	n := ck.Workers
	if n == 0 {
		n = 8
	}
	out := newOutcome()
	var wg sync.WaitGroup
	for s := 0; s < n; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			runShard(ck, tier, seed, s, n, deadline, "", base, out)
		}(s)
	}
	wg.Wait()

	// believe a violation only if it is reproduced by a replay of the case in a fresh process
	sort.Slice(out.viol, func(i, j int) bool {
		if len(out.viol[i].Key) != len(out.viol[j].Key) {
			return len(out.viol[i].Key) < len(out.viol[j].Key)
		}
		return out.viol[i].Key < out.viol[j].Key
	})
	var known []finding
	if b, err := os.ReadFile(filepath.Join(root, "known-findings.json")); err == nil {
		var kf struct {
			Findings []finding `json:"findings"`
		}
		if err := json.Unmarshal(b, &kf); err != nil {
			fmt.Println("known-findings.json:", err)
			return 2
		}
		known = kf.Findings
	}
	seenKnown := map[string]bool{}
	var real []violation
	replays := 0
	for _, v := range out.viol {
		kn := false
		for _, f := range known {
			if f.Property == id && f.Key == v.Key {
				kn = true
				if !seenKnown[f.Key] {
					seenKnown[f.Key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.What)
				}
			}
		}
		if kn {
			continue
		}
		// silence takes long to confirm
		if replays >= 12 || len(real) >= 3 || len(real) >= 1 && strings.HasPrefix(v.What, "no answer within") {
			continue
		}
		replays++
		confirmed := 0
		for r := 0; r < 3 && confirmed == 0; r++ {
			o := newOutcome()
			runShard(ck, tier, seed, 0, 1, time.Now().Add(time.Hour), v.Key, base, o)
			if len(o.viol) > 0 {
				confirmed++
			}
		}
		if confirmed > 0 {
			real = append(real, v)
		} else {
			out.unsettled = append(out.unsettled, "not reproduced: "+v.Key+": "+v.What)
		}
	}
	cov := map[string]any{
		"evaluations": out.cases,
		"samples":     out.samples,
		"rule":        ck.Rule,
		"exhaustive":  !out.stopped && len(out.hangs) == 0 && len(out.unsettled) == 0 && len(real) == 0 && out.counts["explorations_capped"]+out.counts["native_runs"]+out.counts["without_batches"] == 0,
	}
	if ck.Level == "model_checking" {
		cov["states"] = len(out.states)
	} else {
		cov["distinct_nontrivial"] = len(out.states)
	}
	cov["transitions"] = out.trans
	cov["traces_validated_against_impl"] = out.traces
	if out.evals > 0 {
		cov["evaluations"] = out.evals
		cov["cases"] = out.cases
	}
	for k, v := range out.counts {
		cov["n_"+k] = v
	}
	if out.crashes > 0 {
		cov["process_crashes_admitted"] = out.crashes
	}
	if out.stopped {
		cov["cap"] = fmt.Sprintf("stopped at the time budget of %d s", budget)
	}
	if len(out.hangs) > 0 {
		cov["no_answer"] = out.hangs
	}
	if len(out.unsettled) > 0 {
		cov["unsettled"] = out.unsettled
	}
	sort.Strings(out.samples)
	if len(out.samples) == 0 {
		cov["samples"] = []string{}
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": ck.Level, "coverage": cov,
		"assumptions": ck.Assume, "wall_s": time.Since(start).Seconds(), "violations": len(real),
	}
	if ck.Assume == nil {
		ev["assumptions"] = []string{}
	}
	mustNil(os.MkdirAll(filepath.Join(root, "evidence"), 0o755))
	b, _ := json.MarshalIndent(ev, "", " ")
	mustNil(os.WriteFile(filepath.Join(root, "evidence", id+".json"), append(b, '\n'), 0o644))
	fmt.Printf("%s %s: cases=%d states=%d transitions=%d replayed=%d crashes=%d exhaustive=%v wall=%.1fs\n", id, tier, out.cases, len(out.states), out.trans, out.traces, out.crashes, cov["exhaustive"], time.Since(start).Seconds())
	if os.Getenv("MC_TIMES") != "" {
		sort.Slice(out.slow, func(i, j int) bool { return out.slow[i].d > out.slow[j].d })
		for i := 0; i < 15 && i < len(out.slow); i++ {
			fmt.Println("  ", out.slow[i].d, out.slow[i].key)
		}
	}
	for _, u := range out.unsettled {
		fmt.Println("note:", firstLines(u, 4))
	}
	for _, h := range out.hangs {
		fmt.Println("note: no answer within the limit:", h)
	}
	if out.cases == 0 && len(real) == 0 {
		fmt.Println("nothing was explored")
		return 2
	}
	if len(real) > 0 {
		mustNil(os.MkdirAll(filepath.Join(root, "replays"), 0o755))
		for i, v := range real {
			p := filepath.Join("replays", fmt.Sprintf("%s-%d.json", id, i))
			rb, _ := json.MarshalIndent(map[string]any{"property": id, "tier": tier, "seed": seed, "key": v.Key, "what": v.What, "how": "bash check.sh replay " + p}, "", " ")
			mustNil(os.WriteFile(filepath.Join(root, p), append(rb, '\n'), 0o644))
			fmt.Printf("%s: %s\n", v.Key, firstLines(v.What, 12))
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		}
		return 1
	}
	return 0
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func replayMain(file, root string) int {
	b, err := os.ReadFile(file)
	mustNil(err)
	var r struct {
		Property, Tier, Key string
		Seed                int64
	}
	mustNil(json.Unmarshal(b, &r))
	base, err := os.MkdirTemp("", "mc-replay-")
	mustNil(err)
	defer os.RemoveAll(base)
	o := newOutcome()
	runShard(checks[r.Property], r.Tier, r.Seed, 0, 1, time.Now().Add(time.Hour), r.Key, base, o)
	for _, v := range o.viol {
		fmt.Printf("%s: %s\n", v.Key, v.What)
	}
	if len(o.viol) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
		return 1
	}
	fmt.Println("not violated")
	return 0
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: mc check ID TIER ROOT | mc replay FILE ROOT | mc list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "rewrite":
		rewriteMain(os.Args[2], os.Args[3], os.Args[4])
	case "rewriteos":
		osOverlay(goroot(), os.Args[2])
	case "one":
		oneMain(os.Args[2], os.Args[3], os.Args[4], os.Args[5])
	case "split":
		splitMain(os.Args[2], os.Args[3:])
	case "work":
		workerMain(os.Args[2:])
	case "check":
		seed := int64(1)
		if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
			seed = v
		}
		os.Exit(checkMain(os.Args[2], os.Args[3], seed, os.Args[4]))
	case "replay":
		os.Exit(replayMain(os.Args[2], os.Args[3]))
	case "list":
		for id := range checks {
			fmt.Println(id)
		}
	}
}
