package main

import (
	"bytes"
	"context"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/bnb-chain/zkbnb-setup/keys"
	"github.com/bnb-chain/zkbnb-setup/phase1"
	"github.com/bnb-chain/zkbnb-setup/phase2"
)

// ------------------------------------------------- a directory with all files of a small ceremony, and the commands

// Stage holds the files of a ceremony before a command is run.
type Stage struct {
	name  string
	files map[string][]byte
	nR1C  int
	nCons int
	cmds  []*Cmd
}

// Cmd is one command line on the files of the stage.
type Cmd struct {
	st     *Stage
	args   []string
	in     []string // inputs
	strict []string // inputs every byte of which matters, whatever the result
	out    []string // outputs
	draws  bool     // needs randomness

	once  sync.Once
	whole *Outcome
}

// Outcome of a command.
type Outcome struct {
	err    error
	stdout string
	files  map[string][]byte // all files that differ from the stage's
}

func (c *Cmd) String() string { return strings.Join(c.args, " ") }

// circuits of the stages
func stageCirc(name string) *Circ {
	c := generic(2, 1, 2, 3)
	switch name {
	case "commit":
		c.Committed, c.CommitIdx = []int{1, 2}, 4
	case "lazy":
		c = lazyCirc(2, 2, 0, 1, 0, true)
	case "large": // files of more than one buffer
		c = generic(2, 20, 60, 100)
	}
	return c
}

func stage(name string) *Stage {
	return memoize("stage|"+name, func() *Stage {
		old, err := os.Getwd()
		mustNil(err)
		d, err := os.MkdirTemp("", "stage")
		mustNil(err)
		defer os.RemoveAll(d)
		defer os.Chdir(old)
		mustNil(os.Chdir(d))
		s := &Stage{name: name, files: map[string][]byte{}}
		circ := stageCirc(name)
		power := log2(domainOf(len(circ.Cons)))
		pc := min(power, 2)
		writeFile("i.ph1", honest1(pc, 0, "").bytes())
		writeFile("a.ph1", honest1(pc, 2, "").bytes())
		if pc != power {
			writeFile("big.ph1", honest1(power, 1, "").bytes())
		} else {
			writeFile("big.ph1", honest1(pc, 2, "").bytes())
		}
		writeFile("r", response(newP1(2, ppotBase)))
		writeFile("t.ph1", honest1(1, 0, "ppot").bytes())
		writeFile("ta.ph1", honest1(1, 2, "ppot").bytes())
		r := circ.build()
		writeR1CS(r, "c.r1cs")
		s.nCons, s.nR1C = len(circ.Cons), len(r.Constraints)
		splitR1CS("c.r1cs", 2)
		mustNil(phase2.Initialize("big.ph1", "c.r1cs", "o.ph2"))
		mustNil(os.Remove("srs.lag"))
		mustNil(withRNG(newRNG("st1"), func() error { return phase2.Contribute("o.ph2", "g.ph2") }))
		mustNil(withRNG(newRNG("st2"), func() error { return phase2.Contribute("g.ph2", "f.ph2") }))
		mustNil(withRNG(newRNG("st3"), func() error { return keys.ExtractSplitKeys("f.ph2", "e") }))
		m, _ := filepath.Glob("e.pk.*")
		for _, f := range m {
			mustNil(os.Remove(f))
		}
		mustNil(filepath.WalkDir(".", func(p string, e fs.DirEntry, err error) error {
			if err == nil && !e.IsDir() {
				s.files[p] = readFile(p)
			}
			return err
		}))
		var parts []string
		for f := range s.files {
			if strings.HasPrefix(f, "parts2/") {
				parts = append(parts, f)
			}
		}
		sort.Strings(parts)
		var ks []string
		for _, p := range append([]string{}, pkParts...) {
			ks = append(ks, "k.pk."+p+".save")
		}
		ks = append(ks, "k.vk.save", "k.pk.CommitmentKey.save")
		i := strconv.Itoa
		add := func(c *Cmd) { c.st = s; s.cmds = append(s.cmds, c) }
		add(&Cmd{args: []string{"p1n", "2", "n.ph1"}, out: []string{"n.ph1"}})
		add(&Cmd{args: []string{"p1c", "a.ph1", "b.ph1"}, in: []string{"a.ph1"}, strict: []string{"a.ph1"}, out: []string{"b.ph1"}, draws: true})
		add(&Cmd{args: []string{"p1v", "a.ph1"}, in: []string{"a.ph1"}, strict: []string{"a.ph1"}, draws: true})
		add(&Cmd{args: []string{"p1vt", "ta.ph1", "t.ph1"}, in: []string{"ta.ph1", "t.ph1"}, strict: []string{"ta.ph1"}, draws: true})
		add(&Cmd{args: []string{"p1t", "r", "n.ph1", "2", "1"}, in: []string{"r"}, out: []string{"n.ph1"}})
		add(&Cmd{args: []string{"p2n", "big.ph1", "c.r1cs", "n.ph2"}, in: []string{"big.ph1", "c.r1cs"}, out: []string{"n.ph2", "srs.lag", "evals"}})
		add(&Cmd{args: []string{"p2np", "big.ph1", "parts2/s", "n.ph2", i(s.nCons), i(s.nR1C), "2"}, in: append([]string{"big.ph1"}, parts...), out: []string{"n.ph2", "srs.lag", "evals"}})
		add(&Cmd{args: []string{"p2c", "f.ph2", "n.ph2"}, in: []string{"f.ph2"}, strict: []string{"f.ph2"}, out: []string{"n.ph2"}, draws: true})
		add(&Cmd{args: []string{"p2v", "f.ph2", "o.ph2"}, in: []string{"f.ph2", "o.ph2"}, strict: []string{"f.ph2", "o.ph2"}, draws: true})
		add(&Cmd{args: []string{"key", "f.ph2"}, in: []string{"f.ph2", "evals"}, out: []string{"pk", "vk"}, draws: true})
		add(&Cmd{args: []string{"keys", "f.ph2", "k"}, in: []string{"f.ph2", "evals"}, out: ks, draws: true})
		add(&Cmd{args: []string{"sol", "e"}, in: []string{"e.vk.save"}, out: []string{"e.sol"}})
		return s
	})
}

// lay writes the stage's files into the current directory.
func (s *Stage) lay() {
	made := map[string]bool{}
	for f, b := range s.files {
		if d := filepath.Dir(f); d != "." && !made[d] {
			made[d] = true
			mustNil(os.MkdirAll(d, 0o755))
		}
		writeFile(f, b)
	}
}

// call does what the command line does, in this process.
func (c *Cmd) call(args []string) error {
	n := func(i int) int { v, err := strconv.Atoi(args[i]); mustNil(err); return v }
	switch args[0] {
	case "p1n":
		return phase1.Initialize(byte(n(1)), args[2])
	case "p1c":
		return phase1.Contribute(args[1], args[2])
	case "p1v":
		return phase1.Verify(args[1], "")
	case "p1vt":
		return phase1.Verify(args[1], args[2])
	case "p1t":
		return phase1.Transform(args[1], args[2], byte(n(3)), byte(n(4)))
	case "p2n":
		return phase2.Initialize(args[1], args[2], args[3])
	case "p2np":
		return phase2.InitializeFromPartedR1CS(args[1], args[2], args[3], n(4), n(5), n(6))
	case "p2c":
		return phase2.Contribute(args[1], args[2])
	case "p2v":
		return phase2.Verify(args[1], args[2])
	case "key":
		return keys.ExtractKeys(args[1])
	case "keys":
		return keys.ExtractSplitKeys(args[1], args[2])
	case "sol":
		return keys.ExportSol(args[1])
	}
	panic("unknown command")
}

// run runs the command in the current directory with the given source of entropy.
func (c *Cmd) run(rng *RNG) *Outcome {
	if rng == nil {
		rng = newRNG("run")
	}
	o := &Outcome{}
	o.stdout, o.err = capture(func() error { return withRNG(rng, func() error { return c.call(c.args) }) })
	o.files = c.st.changed()
	return o
}

// changed are the files of the current directory that aren't those of the stage.
func (s *Stage) changed() map[string][]byte {
	r := map[string][]byte{}
	filepath.WalkDir(".", func(p string, e fs.DirEntry, err error) error {
		if err != nil || e.IsDir() {
			return nil
		}
		if !e.Type().IsRegular() {
			r[p] = nil
			return nil
		}
		b := readFile(p)
		if w, ok := s.files[p]; !ok || !bytes.Equal(b, w) {
			r[p] = b
		}
		return nil
	})
	for f := range s.files {
		if !exists(f) {
			r[f] = nil
		}
	}
	return r
}

// expect is the outcome of the command on the unmodified stage.
func (c *Cmd) expect() *Outcome {
	c.once.Do(func() {
		old, err := os.Getwd()
		mustNil(err)
		d, err := os.MkdirTemp("", "expect")
		mustNil(err)
		defer os.RemoveAll(d)
		defer os.Chdir(old)
		mustNil(os.Chdir(d))
		c.st.lay()
		c.whole = c.run(nil)
		mustNil(c.whole.err)
	})
	return c.whole
}

// complete tells whether the outputs in the current directory are those of the whole command.
func (c *Cmd) complete() error {
	w := c.expect()
	for _, f := range c.out {
		want, ok := w.files[f]
		if !ok {
			want = c.st.files[f]
		}
		fi, err := os.Lstat(f)
		if err != nil {
			if want == nil {
				continue
			}
			return fmt.Errorf("%s isn't there", f)
		}
		if !fi.Mode().IsRegular() {
			if t, err := os.Stat(f); err != nil || !t.Mode().IsRegular() {
				return fmt.Errorf("%s isn't written", f)
			}
		}
		if got := readFile(f); !bytes.Equal(got, want) {
			return fmt.Errorf("%s isn't complete: it has %d bytes rather than %d and differs at byte %d", f, len(got), len(want), firstDiff(got, want))
		}
	}
	return nil
}

// limitFiles bounds the size of files for the time of f.
func limitFiles(n int, f func() error) error {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	mustNil(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	mustNil(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: old.Max}))
	defer func() { mustNil(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)) }()
	return f()
}

// cli runs the command line program in the current directory.
func cli(args ...string) (string, int) {
	bin := os.Getenv("MC_CLI")
	if bin == "" {
		panic("the command line program wasn't built")
	}
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	out, err := cmd.CombinedOutput()
	if ctx.Err() != nil {
		panic(fmt.Sprintf("%q doesn't end", strings.Join(args, " ")))
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			if c := ee.ExitCode(); c != 0 {
				return string(out), c
			}
			return string(out), -1
		}
		panic(err)
	}
	return string(out), 0
}
