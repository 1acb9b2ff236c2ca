package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"syscall"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/backend/groth16"
)

// --------------------------------------------- faults of single operations on files, and crashes between them

var (
	installOS    func(h func(op string, f *os.File, name string, n int) (int, error))
	installExit  func(h func(code int))
	installWrite func(h func(f *os.File, b []byte))
)

// FileOp is one operation of a command on a file.
type FileOp struct {
	op, name string
	n        int
	k        int // its index among the operations on the file
	m        int // how many operations that change files precede it
}

func (o FileOp) String() string { return fmt.Sprintf("operation %d (%s) on %s", o.k, o.op, o.name) }
func (o FileOp) mutates() bool  { return o.op != "open" && o.op != "read" && o.op != "seek" }

// withHook runs f; each operation on the files in the current directory is given to h.
func withHook(h func(o FileOp) (int, error), f func() error) (ops []FileOp, err error) {
	if installOS == nil {
		panic("built without the overlay of package os")
	}
	var mu sync.Mutex
	count, mutations := map[string]int{}, 0
	out := os.Stdout
	dir, e := os.Getwd()
	mustNil(e)
	installOS(func(op string, f *os.File, name string, n int) (int, error) {
		if f != nil && (f == out || f == os.Stderr) || strings.HasPrefix(name, "/dev/") || strings.HasPrefix(name, "/proc") || strings.HasPrefix(name, "/sys") || strings.HasPrefix(name, "|") {
			return n, nil
		}
		if filepath.IsAbs(name) {
			r, err := filepath.Rel(dir, name)
			if err != nil || strings.HasPrefix(r, "..") {
				return n, nil
			}
			name = r
		}
		mu.Lock()
		defer mu.Unlock()
		name = filepath.Clean(name)
		o := FileOp{op, name, n, count[name], mutations}
		count[name]++
		if o.mutates() {
			mutations++
		}
		ops = append(ops, o)
		return h(o)
	})
	defer installOS(nil)
	installExit(func(code int) {
		if code != 0 {
			panic(fmt.Errorf("exit status %d", code))
		}
	})
	defer installExit(nil)
	err = f()
	return ops, err
}

func pass(o FileOp) (int, error) { return o.n, nil }

// trace are the operations of the command on the unmodified stage.
func (c *Cmd) trace() []FileOp {
	return memoize("trace|"+c.st.name+"|"+c.String(), func() []FileOp {
		c.expect()
		old, err := os.Getwd()
		mustNil(err)
		d, err := os.MkdirTemp("", "trace")
		mustNil(err)
		defer os.RemoveAll(d)
		defer os.Chdir(old)
		mustNil(os.Chdir(d))
		c.st.without(c)
		ops, err := withHook(pass, func() error { return withRNG(newRNG("run"), func() error { return c.call(c.args) }) })
		mustNil(err)
		// files may be read concurrently
		for j := range ops {
			if !ops[j].mutates() {
				ops[j].m = 0
			}
		}
		slices.SortStableFunc(ops, func(a, b FileOp) int { return strings.Compare(a.name, b.name) })
		return ops
	})
}

// faulty runs the command with the hook.
func (c *Cmd) faulty(h func(o FileOp) (int, error)) *Outcome {
	o := &Outcome{}
	o.stdout, o.err = capture(func() error {
		_, err := withHook(h, func() error { return withRNG(newRNG("run"), func() error { return c.call(c.args) }) })
		return err
	})
	return o
}

var faultStages = []string{"plain", "commit", "lazy", "large"}

// skipStage: the commands of phase 1 are the same in all stages.
func skipStage(sn string, cmd *Cmd) bool {
	return sn != "plain" && strings.HasPrefix(cmd.args[0], "p1")
}

// --------------------------------------------------------------------------- C28: crashes between operations

// a consumer of the outputs of a command
func (c *Cmd) consumers() [][]string {
	switch c.args[0] {
	case "p1n":
		return [][]string{{"p1c", "n.ph1", "x.ph1"}, {"p1v", "n.ph1"}}
	case "p1c":
		return [][]string{{"p1v", "b.ph1"}, {"p1c", "b.ph1", "x.ph1"}, {"p2n", "b.ph1", "c.r1cs", "x.ph2"}}
	case "p1t":
		return [][]string{{"p1c", "n.ph1", "x.ph1"}, {"p1vt", "ta.ph1", "n.ph1"}}
	case "p2n", "p2np":
		return [][]string{{"p2c", "n.ph2", "x.ph2"}, {"p2v", "f.ph2", "n.ph2"}, {"key", "f.ph2"}, {"keys", "f.ph2", "x"}, {"key", "n.ph2"}}
	case "p2c":
		return [][]string{{"p2v", "n.ph2", "o.ph2"}, {"p2c", "n.ph2", "x.ph2"}, {"key", "n.ph2"}, {"keys", "n.ph2", "x"}, {"p2v", "f.ph2", "n.ph2"}}
	case "keys":
		return [][]string{{"sol", "k"}}
	case "key":
		return [][]string{{"(pk)"}, {"(vk)"}}
	}
	return nil
}

// consume runs a consumer in the current directory.
func (s *Stage) consume(args []string) *Outcome {
	switch args[0] {
	case "(pk)", "(vk)":
		o := &Outcome{files: map[string][]byte{}}
		o.err = callSafe(func() error {
			b, err := os.ReadFile(args[0][1:3])
			if err != nil {
				return err
			}
			var w bytes.Buffer
			if args[0] == "(pk)" {
				pk := groth16.NewProvingKey(ecc.BN254)
				if _, err := pk.ReadFrom(bytes.NewReader(b)); err != nil {
					return err
				}
				if _, err := pk.WriteTo(&w); err != nil {
					return err
				}
			} else {
				vk := groth16.NewVerifyingKey(ecc.BN254)
				if _, err := vk.ReadFrom(bytes.NewReader(b)); err != nil {
					return err
				}
				if _, err := vk.WriteTo(&w); err != nil {
					return err
				}
			}
			o.files["key"] = w.Bytes()
			return nil
		})
		return o
	}
	before := map[string][]byte{}
	for f := range s.changed() {
		if exists(f) {
			before[f] = readFile(f)
		}
	}
	o := (&Cmd{st: s, args: args}).run(nil)
	for f, b := range before {
		if now, ok := o.files[f]; ok && bytes.Equal(now, b) {
			delete(o.files, f)
		}
	}
	return o
}

var errCrash = errors.New("crashed")

func genC28(g *Gen) {
	for _, sn := range faultStages {
		if sn == "large" && !g.Thorough() {
			continue
		}
		for _, cmd := range stage(sn).cmds {
			if skipStage(sn, cmd) || len(cmd.out) == 0 || len(cmd.consumers()) == 0 {
				continue
			}
			st := cmd.st
			w := cmd.expect()
			// what the consumers make of complete outputs
			type cons struct {
				args []string
				want *Outcome
			}
			all := memoize("consumed|"+sn+"|"+cmd.String(), func() []cons {
				var l []cons
				old, err := os.Getwd()
				mustNil(err)
				defer os.Chdir(old)
				for _, a := range cmd.consumers() {
					d, err := os.MkdirTemp("", "consume")
					mustNil(err)
					mustNil(os.Chdir(d))
					st.without(cmd)
					for f, b := range w.files {
						writeFile(f, b)
					}
					for _, f := range cmd.out {
						if !exists(f) {
							writeFile(f, st.files[f])
						}
					}
					l = append(l, cons{a, st.consume(a)})
					os.RemoveAll(d)
				}
				return l
			})
			seen := map[string]bool{}
			try := func(c *Ctx, how string, h func(o FileOp) (int, error)) {
				st.without(cmd)
				o := cmd.faulty(h)
				c.Transition()
				left := st.left(cmd)
				c.State(sn, cmd, left)
				if seen[left] {
					c.Count("same_state")
					return
				}
				seen[left] = true
				if o.err == nil {
					if err := cmd.complete(); err != nil {
						c.Failf("%q succeeded although it was %s: %v", cmd, how, err)
						return
					}
				}
				saved := map[string][]byte{}
				for f, b := range st.changed() {
					saved[f] = b
				}
				for _, in := range cmd.in {
					if !bytes.Equal(readFile(in), st.files[in]) {
						c.Failf("%q %s has changed %s", cmd, how, in)
						return
					}
				}
				for _, a := range all {
					st.restore(cmd, saved)
					got := st.consume(a.args)
					c.Trace()
					if got.err != nil {
						c.Count("consumer_failed")
						continue
					}
					if err := sameOutcome(got, a.want); err != nil {
						c.Failf("%q %s leaves files of which %q succeeds: %v", cmd, how, strings.Join(a.args, " "), err)
						return
					}
					c.Count("consumer_same")
				}
				// and the command can be run again
				st.restore(cmd, saved)
				if again := cmd.run(nil); again.err != nil {
					c.Failf("%q %s can't be run again: %v", cmd, how, again.err)
				} else if err := cmd.complete(); err != nil {
					c.Failf("%q %s and run again: %v", cmd, how, err)
				}
				c.Trace()
			}
			for _, op := range cmd.trace() {
				g.CaseCrashOK(fmt.Sprintf("%s/%s/%s:%d failing", sn, cmd, op.name, op.k), func(c *Ctx) {
					try(c, fmt.Sprintf("failing at %v", op), func(o FileOp) (int, error) {
						if o.name == op.name && o.k == op.k {
							return 0, syscall.EIO
						}
						return o.n, nil
					})
				})
				if !op.mutates() {
					continue
				}
				parts := []int{0}
				if op.op == "write" {
					parts = nil
					step := 3
					switch {
					case sn == "large":
						step = 61
					case g.Thorough():
						step = 1
					case sn != "plain":
						step = 11
					}
					for i := 0; i < op.n; i++ {
						if i < 100 || i > op.n-70 || i%step == 0 {
							parts = append(parts, i)
						}
					}
				}
				for _, part := range parts {
					g.CaseCrashOK(fmt.Sprintf("%s/%s/%s:%d+%d", sn, cmd, op.name, op.k, part), func(c *Ctx) {
						// nothing reaches the files from the operation on, of which only a part does
						try(c, fmt.Sprintf("ended at %v after %d bytes of it", op, part), func(o FileOp) (int, error) {
							switch {
							case o.m < op.m || !o.mutates():
								return o.n, nil
							case o.m == op.m:
								return min(part, o.n), errCrash
							}
							return 0, errCrash
						})
					})
				}
			}
		}
	}
}

// without lays the files of the stage but the outputs of the command.
func (s *Stage) without(cmd *Cmd) {
	s.lay()
	for _, f := range cmd.out {
		if !slices.Contains(cmd.in, f) && exists(f) {
			mustNil(os.Remove(f))
		}
	}
}

// left describes the state of the files.
func (s *Stage) left(cmd *Cmd) string {
	ch := s.changed()
	var l []string
	for f, b := range ch {
		if b == nil && !exists(f) {
			l = append(l, f+" missing")
		} else {
			l = append(l, fmt.Sprintf("%s %x", f, sum(b)))
		}
	}
	slices.Sort(l)
	return strings.Join(l, "\n")
}

// restore brings back a state of the files.
func (s *Stage) restore(cmd *Cmd, saved map[string][]byte) {
	for f := range s.changed() {
		if _, ok := saved[f]; !ok {
			os.RemoveAll(f)
		}
	}
	s.lay()
	for f, b := range saved {
		os.RemoveAll(f)
		if b != nil {
			writeFile(f, b)
		}
	}
}

// sameOutcome compares a successful outcome with what it should be.
func sameOutcome(got, want *Outcome) error {
	if want.err != nil {
		return fmt.Errorf("with the complete files it fails: %v", want.err)
	}
	for f, b := range got.files {
		if x, ok := want.files[f]; !ok {
			return fmt.Errorf("it writes %s, which it doesn't with the complete files", f)
		} else if !bytes.Equal(x, b) {
			return fmt.Errorf("%s isn't what it is with the complete files", f)
		}
	}
	for f := range want.files {
		if _, ok := got.files[f]; !ok {
			return fmt.Errorf("it doesn't write %s, which it does with the complete files", f)
		}
	}
	if !slices.Equal(hashesIn(got.stdout), hashesIn(want.stdout)) {
		return fmt.Errorf("other hashes are printed")
	}
	return nil
}

// ------------------------------------------------------------- C29: failing and partial reads of inputs

func genC29(g *Gen) {
	for _, sn := range faultStages {
		for _, cmd := range stage(sn).cmds {
			if skipStage(sn, cmd) {
				continue
			}
			w := cmd.expect()
			judge := func(c *Ctx, o *Outcome, mayFail bool, how string) {
				c.Transition()
				c.Trace()
				if o.err != nil {
					if !mayFail {
						c.Failf("%q fails although %s: %v", cmd, how, o.err)
						return
					}
					c.Count("failed")
					return
				}
				if err := cmd.complete(); err != nil {
					c.Failf("%q succeeded although %s, and %v", cmd, how, err)
				} else if !slices.Equal(hashesIn(o.stdout), hashesIn(w.stdout)) {
					c.Failf("%q succeeded although %s, with other hashes", cmd, how)
				} else {
					c.Count("same_result")
				}
			}
			// short reads
			for _, n := range []int{1, 2, 7, 31, 32, 33, 63, 64, 65, 100, 4095, -2, -3} {
				g.CaseCrashOK(fmt.Sprintf("%s/%s/short=%d", sn, cmd, n), func(c *Ctx) {
					cmd.st.without(cmd)
					c.State(sn, cmd, "short", n)
					o := cmd.faulty(func(o FileOp) (int, error) {
						switch {
						case o.op != "read":
							return o.n, nil
						case n > 0:
							return min(n, o.n), nil
						case o.k%-n == 0 || o.n < 2:
							return o.n, nil
						}
						return o.n / -n, nil
					})
					judge(c, o, false, fmt.Sprintf("reads only gave less than was asked for (%d)", n))
				})
			}
			for _, op := range cmd.trace() {
				if op.mutates() {
					continue
				}
				name := fmt.Sprintf("%s/%s/%s:%d", sn, cmd, op.name, op.k)
				for _, kind := range []string{"once", "forever", "short"} {
					if kind == "short" && op.op != "read" {
						continue
					}
					g.CaseCrashOK(name+"/"+kind, func(c *Ctx) {
						cmd.st.without(cmd)
						c.State(sn, cmd, op.name, op.k, kind)
						o := cmd.faulty(func(o FileOp) (int, error) {
							if o.name == op.name && o.k == op.k && kind == "short" {
								return max(1, o.n/2), nil
							}
							if o.name == op.name && (o.k == op.k || o.k > op.k && kind == "forever") && !o.mutates() {
								return 0, syscall.EIO
							}
							return o.n, nil
						})
						judge(c, o, kind != "short", fmt.Sprintf("%v failed (%s)", op, kind))
					})
				}
			}
		}
	}
}

// ---------------------------------------------------- the single failing write, for C19

func genC19ops(g *Gen) {
	for _, sn := range faultStages {
		for _, cmd := range stage(sn).cmds {
			if skipStage(sn, cmd) || len(cmd.out) == 0 {
				continue
			}
			for _, op := range cmd.trace() {
				if !op.mutates() && op.op != "seek" {
					continue
				}
				for _, kind := range []string{"once", "half", "forever"} {
					if kind == "half" && op.op != "write" {
						continue
					}
					g.CaseCrashOK(fmt.Sprintf("%s/%s/%s:%d/%s", sn, cmd, op.name, op.k, kind), func(c *Ctx) {
						cmd.st.without(cmd)
						c.State(sn, cmd, op.name, op.k, kind)
						o := cmd.faulty(func(o FileOp) (int, error) {
							if o.name == op.name && o.k == op.k && kind == "half" {
								return o.n / 2, syscall.ENOSPC
							}
							if o.name == op.name && (o.k == op.k || o.k > op.k && kind == "forever") && (o.mutates() || o.op == "seek") {
								return 0, syscall.ENOSPC
							}
							return o.n, nil
						})
						c.Transition()
						c.Trace()
						if o.err != nil {
							c.Count("failed")
						} else if err := cmd.complete(); err != nil {
							c.Failf("%q succeeded although %v failed (%s): %v", cmd, op, kind, err)
						} else {
							c.Count("complete")
						}
					})
				}
			}
		}
	}
}

func init() {
	register(&Check{ID: "C28", Level: "fault_enumeration", NoGC: true, QuickS: 300,
		Rule:   "every command that writes files, ended before each of its operations on files and within each write after every byte of it, or failing at each single operation; every command that takes what is left must fail or do exactly what it does with complete files, the inputs must be intact, and running the command again must give the complete outputs",
		Assume: []string{"what a system call has written before the process ends stays, in that order: the end of the whole machine isn't modelled"},
		Gen:    genC28})
	register(&Check{ID: "C29", Level: "fault_enumeration", NoGC: true, QuickS: 300,
		Rule:   "every command, with every single one of its opens, seeks and reads failing (once, or from then on for that file), and with reads that give less than was asked for (all of them by 13 rules, and each single one); failing ones must make the command fail or leave its result as it is, short ones must leave its result as it is",
		Assume: []string{"the system reports a failed read as such"},
		Gen:    genC29})
}
