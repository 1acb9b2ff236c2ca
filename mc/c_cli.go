package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"time"
)

// ------------------------------------------------------------------------------- C22: the command line

// cliLimited runs the program with the size of files limited to n bytes (in blocks of 512).
func cliLimited(blocks int, args ...string) int {
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", fmt.Sprintf("ulimit -f %d; trap '' XFSZ; exec \"$0\" \"$@\"", blocks), os.Getenv("MC_CLI")}, args...)...)
	err := cmd.Run()
	if ctx.Err() != nil {
		panic(fmt.Sprintf("%q doesn't end", strings.Join(args, " ")))
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			if c := ee.ExitCode(); c != 0 {
				return c
			}
			return -1
		}
		panic(err)
	}
	return 0
}

// the documented usage: how many arguments
var arity = map[string]int{"p1n": 2, "p1c": 2, "p1v": 1, "p1t": 4, "p1vt": 2, "p2n": 3, "p2np": 6, "p2c": 2, "p2v": 2, "key": 1, "keys": 2, "sol": 1}

// numbers at the edges of everything: their value, if they are numbers
var numbers = []string{"-1", "0", "1", "2", "3", "4", "5", "6", "7", "8", "25", "26", "27", "28", "29", "30", "31", "32", "33", "62", "63", "64", "65",
	"127", "128", "255", "256", "257", "258", "259", "260", "284", "511", "512", "514", "65536", "65537", "65538", "4294967295", "4294967296", "4294967297", "4294967298",
	"9223372036854775807", "9223372036854775808", "18446744073709551616", "18446744073709551618", "-2", "-254", "-9223372036854775808", "-9223372036854775809",
	"", " ", "2 ", " 2", "2.0", "2.5", "2e0", "1e1", "0x2", "0b10", "0o2", "2x", "x2", "x", "two", "2,0", "²", "２", "--2", "2-", "NaN", "inf", "2_0", "2\n"}

// value of a decimal number as documented: digits with an optional sign
func valueOf(s string) (int, bool) {
	n, err := strconv.ParseInt(s, 10, 64)
	return int(n), err == nil
}

func genC22(g *Gen) {
	if os.Getenv("MC_CLI") == "" {
		g.Case("program", func(c *Ctx) { c.Failf("the program doesn't build") })
		return
	}
	stages := []string{"plain", "commit", "lazy"}
	for _, sn := range stages {
		st := stage(sn)
		for _, cmd := range st.cmds {
			if sn != "plain" && strings.HasPrefix(cmd.args[0], "p1") {
				continue
			}
			cmd.expect()
			name := fmt.Sprintf("%s/%s", sn, cmd)
			// the right arguments do what the operation does
			g.Case(name+"/right", func(c *Ctx) {
				st.lay()
				c.State(sn, cmd, "right")
				c.Transition()
				out, code := cli(cmd.args...)
				if code != 0 {
					c.Failf("%q exits with %d: %s", cmd, code, out)
					return
				}
				ch := st.changed()
				for f := range ch {
					if !slices.Contains(cmd.out, f) {
						c.Failf("%q changed %s", cmd, f)
					}
				}
				if !cmd.draws {
					if err := cmd.complete(); err != nil {
						c.Failf("%q doesn't do what the operation does: %v", cmd, err)
					}
				} else {
					w := cmd.expect()
					for _, f := range cmd.out {
						b, ok := ch[f]
						if !ok {
							b = st.files[f]
						}
						if f == "vk" || strings.HasSuffix(f, ".vk.save") {
							if err := checkVK(b, w.files[f]); err != nil {
								c.Failf("%q doesn't do what the operation does: %v", cmd, err)
							}
							continue
						}
						if f == "pk" || strings.Contains(f, ".pk.") && !strings.Contains(f, "CommitmentKey") {
							if !bytes.Equal(b, w.files[f]) {
								c.Failf("%q doesn't do what the operation does: %s differs", cmd, f)
							}
							continue
						}
						if len(b) != len(w.files[f]) {
							c.Failf("%q wrote %s of %d bytes rather than %d", cmd, f, len(b), len(w.files[f]))
						}
						if (cmd.args[0] == "p1c" || cmd.args[0] == "p2c") && bytes.Equal(b, w.files[f]) {
							c.Failf("%q uses known secrets", cmd)
						}
					}
					// the contributions are verified
					switch cmd.args[0] {
					case "p1c":
						if o, code := cli("p1v", cmd.args[2]); code != 0 {
							c.Failf("the contribution is rejected: %s", o)
						}
					case "p2c":
						if o, code := cli("p2v", cmd.args[2], "o.ph2"); code != 0 {
							c.Failf("the contribution is rejected: %s", o)
						}
					}
				}
				if hs, ws := hashesIn(out), hashesIn(cmd.expect().stdout); len(hs) != len(ws) || !cmd.draws && !slices.Equal(hs, ws) || strings.HasSuffix(cmd.args[0], "v") && !slices.Equal(hs, ws) {
					c.Failf("%q prints %d hashes where the operation prints %d", cmd, len(hs), len(ws))
				}
				c.Trace()
			})
			if sn != "plain" {
				continue
			}
			// any other number of arguments
			want := arity[cmd.args[0]]
			for n := 0; n <= 8; n++ {
				if n == want {
					continue
				}
				for _, extra := range []string{"x", "", "2", "b.ph1", "-"} {
					if n < want && extra != "x" {
						continue
					}
					g.Case(fmt.Sprintf("%s/%d arguments/%q", name, n, extra), func(c *Ctx) {
						st.lay()
						args := slices.Clone(cmd.args)
						for len(args) < n+1 {
							args = append(args, extra)
						}
						args = args[:n+1]
						c.State(args)
						c.Transition()
						out, code := cli(args...)
						if code == 0 {
							c.Failf("%q exits with 0: %s", strings.Join(args, " "), out)
						}
						for f := range st.changed() {
							c.Failf("%q wrote %s", strings.Join(args, " "), f)
						}
						c.Trace()
					})
				}
				if n < want {
					// each of the arguments left out
					for k := 1; k <= want; k++ {
						g.Case(fmt.Sprintf("%s/without argument %d, %d", name, k, n), func(c *Ctx) {
							st.lay()
							args := slices.Delete(slices.Clone(cmd.args), k, k+1)
							if n < len(args)-1 {
								args = args[:n+1]
							}
							c.State(args)
							c.Transition()
							if out, code := cli(args...); code == 0 {
								c.Failf("%q exits with 0: %s", strings.Join(args, " "), out)
							}
							for f := range st.changed() {
								c.Failf("%q wrote %s", strings.Join(args, " "), f)
							}
							c.Trace()
						})
					}
				}
			}
			// empty or nonexistent file arguments, and every other file of the stage in place of each input
			for k := 1; k <= want; k++ {
				if _, isNum := valueOf(cmd.args[k]); isNum {
					continue
				}
				isOut := slices.Contains(cmd.out, cmd.args[k])
				if !isOut {
					for _, by := range []string{"", "nonexistent", "no/such/file", ".", "null", strings.Repeat("n", 300), "parts2"} {
						g.Case(fmt.Sprintf("%s/argument %d/%.20q", name, k, by), func(c *Ctx) {
							if cmd.args[0] == "keys" && k == 2 && by == "" || cmd.args[0] == "keys" && k == 2 {
								return // an output
							}
							st.lay()
							if by == "null" {
								mustNil(os.Symlink("/dev/null", by))
							}
							args := slices.Clone(cmd.args)
							args[k] = by
							c.State(args)
							c.Transition()
							out, code := cli(args...)
							if code == 0 {
								c.Failf("%q exits with 0: %s", strings.Join(args, " "), out)
							}
							c.Trace()
						})
					}
				} else {
					for _, by := range []string{"", "no/such/dir", ".", "full", strings.Repeat("n", 300), "parts2"} {
						g.Case(fmt.Sprintf("%s/argument %d/%.20q", name, k, by), func(c *Ctx) {
							st.lay()
							if by == "full" {
								// a link, so that nothing but the link is lost when the file is removed or renamed to
								mustNil(os.Symlink("/dev/full", by))
							}
							args := slices.Clone(cmd.args)
							args[k] = by
							c.State(args)
							c.Transition()
							out, code := cli(args...)
							if info, err := os.Lstat(by); by == "full" && err == nil && info.Mode().IsRegular() && info.Size() > 0 {
								return // the link was replaced by a file
							}
							if code == 0 {
								c.Failf("%q exits with 0: %s", strings.Join(args, " "), out)
							}
							c.Trace()
						})
					}
				}
			}
		}
	}
	genWrongFiles(g)
	genNumbers(g)
}

// genWrongFiles puts every other file of the ceremony in place of each input.
func genWrongFiles(g *Gen) {
	st := stage("plain")
	var names []string
	for f := range st.files {
		names = append(names, f)
	}
	slices.Sort(names)
	// what may stand for the inputs of commands, where the right kind of file isn't clear by its first bytes
	kind := func(f string) string {
		switch {
		case strings.HasSuffix(f, ".ph1"):
			return "phase 1"
		case strings.HasSuffix(f, ".ph2"):
			return "phase 2"
		case f == "c.r1cs":
			return "circuit"
		}
		return f
	}
	for _, cmd := range st.cmds {
		for k, a := range cmd.args {
			if k == 0 || !slices.Contains(cmd.in, a) {
				continue
			}
			for _, f := range names {
				if kind(f) == kind(a) {
					continue
				}
				g.Case(fmt.Sprintf("plain/%s/%s for %s", cmd, f, a), func(c *Ctx) {
					st.lay()
					writeFile("other", st.files[f])
					args := slices.Clone(cmd.args)
					args[k] = "other"
					c.State(args, f)
					c.Transition()
					out, code := cli(args...)
					if code == 0 {
						c.Failf("%q accepts %s in place of %s: %s", cmd, f, a, out)
					}
					c.Trace()
				})
			}
		}
	}
}

func genNumbers(g *Gen) {
	check := func(c *Ctx, args []string, out string, legal bool) {
		before := readDir()
		c.State(args)
		c.Transition()
		code := cliLimited(8, args...)
		_, err := os.Lstat(out)
		created := err == nil
		c.Trace()
		if !legal {
			if code == 0 {
				c.Failf("%q exits with 0", strings.Join(args, " "))
			}
			for f := range readDir() {
				if _, ok := before[f]; !ok {
					c.Failf("%q wrote %s", strings.Join(args, " "), f)
				}
			}
			return
		}
		if !created {
			c.Failf("%q refuses arguments in the supported range", strings.Join(args, " "))
		}
	}
	for _, s := range numbers {
		g.Case(fmt.Sprintf("p1n/%q", s), func(c *Ctx) {
			v, ok := valueOf(s)
			check(c, []string{"p1n", s, "n.ph1"}, "n.ph1", ok && v >= 1 && v <= 26)
		})
	}
	for p := 1; p <= 26; p++ {
		if p > 10 {
			g.Case(fmt.Sprintf("p1n/accepts %d", p), func(c *Ctx) { check(c, []string{"p1n", fmt.Sprint(p), "n.ph1"}, "n.ph1", true) })
			continue
		}
		g.Case(fmt.Sprintf("p1n/writes %d", p), func(c *Ctx) {
			c.State("p1n", p)
			c.Transition()
			if out, code := cli("p1n", strconv.Itoa(p), "n.ph1"); code != 0 {
				c.Failf("p1n %d exits with %d: %s", p, code, out)
				return
			}
			if want := newP1(p, baseOf("")).bytes(); !bytes.Equal(readFile("n.ph1"), want) {
				c.Failf("p1n %d writes something else than the initial parameters", p)
			}
			c.Trace()
		})
	}
	for _, a := range numbers {
		for _, b := range numbers {
			if !g.Thorough() && len(a) > 3 && len(b) > 3 && a != b {
				continue
			}
			g.Case(fmt.Sprintf("p1t/%q %q", a, b), func(c *Ctx) {
				writeFile("r", stage("plain").files["r"])
				x, okx := valueOf(a)
				y, oky := valueOf(b)
				check(c, []string{"p1t", "r", "n.ph1", a, b}, "n.ph1", okx && oky && 1 <= y && y <= x && x <= 28)
			})
		}
	}
	for in := 1; in <= 4; in++ {
		resp := response(newP1(in, ppotBase))
		for given := 1; given <= 6; given++ {
			for out := 1; out <= given; out++ {
				g.Case(fmt.Sprintf("p1t/response of %d as %d to %d", in, given, out), func(c *Ctx) {
					writeFile("r", resp)
					c.State("p1t", in, given, out)
					c.Transition()
					o, code := cli("p1t", "r", "n.ph1", strconv.Itoa(given), strconv.Itoa(out))
					c.Trace()
					if given == in {
						if code != 0 {
							c.Failf("p1t exits with %d: %s", code, o)
						} else if !bytes.Equal(readFile("n.ph1"), cut(newP1(in, ppotBase), out).bytes()) {
							c.Failf("p1t writes something else than the leading parameters")
						}
						return
					}
					if code == 0 {
						c.Failf("p1t with a response of power %d takes it for one of power %d", in, given)
					}
				})
			}
		}
	}
	// the numbers of p2np
	for _, sn := range []string{"plain", "commit", "lazy"} {
		st := stage(sn)
		for _, cmd := range st.cmds {
			if cmd.args[0] != "p2np" {
				continue
			}
			cmd.expect()
			for k := 4; k <= 6; k++ {
				right, _ := valueOf(cmd.args[k])
				var l []string
				for d := -3; d <= 12; d++ {
					l = append(l, strconv.Itoa(right+d))
				}
				for _, s := range append(l, numbers...) {
					if s == "31" || s == "32" || s == "33" || strings.HasPrefix(s, "6") && len(s) == 2 {
						continue
					}
					g.Case(fmt.Sprintf("%s/%s/argument %d/%q", sn, cmd, k, s), func(c *Ctx) {
						st.lay()
						args := slices.Clone(cmd.args)
						args[k] = s
						c.State(sn, args)
						c.Transition()
						out, code := cli(args...)
						c.Trace()
						if v, ok := valueOf(s); ok && v == right {
							if code != 0 {
								c.Failf("%q exits with %d: %s", strings.Join(args, " "), code, out)
							} else if err := cmd.complete(); err != nil {
								c.Failf("%q: %v", strings.Join(args, " "), err)
							}
							return
						} else if !ok {
							for f := range st.changed() {
								c.Failf("%q wrote %s", strings.Join(args, " "), f)
							}
						}
						if code == 0 {
							if err := cmd.complete(); err != nil {
								c.Failf("%q exits with 0: %v", strings.Join(args, " "), err)
							}
							c.Count("same_result")
						}
					})
				}
			}
		}
	}
	// other command lines
	for _, args := range [][]string{{"p9"}, {"P1N", "2", "n.ph1"}, {"p1", "2", "n.ph1"}, {"key2", "f.ph2"}, {"contribute", "a.ph1", "b.ph1"}, {"--power", "2"}, {"p1n", "--power", "2"}, {"-x"}, {"p1v", "-x", "a.ph1"}} {
		g.Case(fmt.Sprintf("other/%q", args), func(c *Ctx) {
			st := stage("plain")
			st.lay()
			c.State(args)
			c.Transition()
			if out, code := cli(args...); code == 0 {
				c.Failf("%q exits with 0: %s", strings.Join(args, " "), out)
			}
			for f := range st.changed() {
				c.Failf("%q wrote %s", strings.Join(args, " "), f)
			}
			c.Trace()
		})
	}
	// whole ceremonies on the command line, for every number of contributions
	for n1 := 1; n1 <= 3; n1++ {
		for n2 := 1; n2 <= 3; n2++ {
			for _, form := range []string{"p2n key", "p2n keys", "p2np key", "p2np keys"} {
				for _, ppot := range []bool{false, true} {
					g.Case(fmt.Sprintf("ceremony/%d %d %s %v", n1, n2, form, ppot), func(c *Ctx) { cliCeremony(c, n1, n2, form, ppot) })
				}
			}
		}
	}
}

// cliCeremony goes through a whole ceremony; the contributions are told apart by the hashes that are printed.
func cliCeremony(c *Ctx, n1, n2 int, form string, ppot bool) {
	st := stage("plain")
	st.lay()
	do := func(args ...string) (string, bool) {
		c.Transition()
		out, code := cli(args...)
		if code != 0 {
			c.Failf("%q exits with %d: %s", strings.Join(args, " "), code, out)
			return out, false
		}
		c.Trace()
		return out, true
	}
	c.State(n1, n2, form, ppot)
	var said []string
	verified := func(args ...string) bool {
		out, ok := do(args...)
		if !ok {
			return false
		}
		if hs := hashesIn(out); !slices.Equal(hs, said) {
			c.Failf("%q prints the hashes %v, but the contributors were told %v", strings.Join(args, " "), hs, said)
			return false
		}
		return true
	}
	if ppot {
		if _, ok := do("p1t", "r", "c0.ph1", "2", "2"); !ok {
			return
		}
	} else if _, ok := do("p1n", "2", "c0.ph1"); !ok {
		return
	}
	for i := 0; i < n1; i++ {
		in, out := fmt.Sprintf("c%d.ph1", i), fmt.Sprintf("c%d.ph1", i+1)
		o, ok := do("p1c", in, out)
		if !ok {
			return
		}
		said = append(said, hashesIn(o)...)
		args := []string{"p1v", out}
		if ppot {
			args = []string{"p1vt", out, "c0.ph1"}
		}
		if !verified(args...) {
			return
		}
	}
	said = nil
	last := fmt.Sprintf("c%d.ph1", n1)
	f := strings.Fields(form)
	if f[0] == "p2n" {
		if _, ok := do("p2n", last, "c.r1cs", "d0.ph2"); !ok {
			return
		}
	} else if _, ok := do("p2np", last, "parts2/s", "d0.ph2", strconv.Itoa(st.nCons), strconv.Itoa(st.nR1C), "2"); !ok {
		return
	}
	for i := 0; i < n2; i++ {
		in, out := fmt.Sprintf("d%d.ph2", i), fmt.Sprintf("d%d.ph2", i+1)
		o, ok := do("p2c", in, out)
		if !ok {
			return
		}
		said = append(said, hashesIn(o)...)
		if !verified("p2v", out, "d0.ph2") {
			return
		}
	}
	last = fmt.Sprintf("d%d.ph2", n2)
	if f[1] == "key" {
		if _, ok := do("key", last); !ok {
			return
		}
		if !exists("pk") || !exists("vk") {
			c.Failf("key doesn't write pk and vk")
		}
		return
	}
	if _, ok := do("keys", last, "k"); !ok {
		return
	}
	for _, p := range pkParts {
		if !exists("k.pk." + p + ".save") {
			c.Failf("keys doesn't write part %s", p)
		}
	}
	if _, ok := do("sol", "k"); !ok {
		return
	}
	if m, _ := filepath.Glob("*.sol"); len(m) != 1 {
		c.Failf("sol doesn't write a contract")
	}
}

func init() {
	register(&Check{ID: "C22", Level: "model_checking", NoGC: true, QuickS: 240,
		Rule:   "the program with every command and every number of arguments, each file argument replaced by what can't be used, every numeric argument over an alphabet of edge values, and all ceremonies with up to three contributions in each phase",
		Assume: []string{"powers above 10 are only checked to be accepted (their files need gigabytes)"},
		Gen:    genC22})
}
