package main

import (
	"fmt"
	"os"
	"slices"
)

// ------------------------------------------------------------------------ C18: inputs that are cut off

func cutPoints(n int, dense bool) []int {
	var l []int
	for i := 0; i < n; i++ {
		if dense || n < 3000 || i < 600 || i > n-600 || i%41 == 0 || i%4096 < 2 || i%4096 > 4093 {
			l = append(l, i)
		}
	}
	return l
}

func genC18(g *Gen) {
	stages := []string{"plain", "commit"}
	if g.Thorough() {
		stages = append(stages, "lazy", "large")
	}
	for _, sn := range stages {
		for _, cmd := range stage(sn).cmds {
			cmd.expect()
			if sn == "commit" && len(cmd.args[0]) > 2 && cmd.args[0][:2] == "p1" {
				continue // the same as of the plain stage
			}
			if sn == "large" && cmd.args[0][:2] == "p1" {
				continue
			}
			for _, in := range cmd.in {
				data := cmd.st.files[in]
				strict := false
				for _, s := range cmd.strict {
					strict = strict || s == in
				}
				// the reading of parted circuits ends the process when it fails
				outside := cmd.args[0] == "p2np" && in != "big.ph1" && os.Getenv("MC_CLI") != ""
				judge := func(c *Ctx, how string) {
					c.Transition()
					o := &Outcome{}
					if outside {
						if _, code := cli(cmd.args...); code != 0 {
							o.err = fmt.Errorf("exit status %d", code)
						}
						o.stdout = cmd.expect().stdout
					} else {
						o = cmd.run(nil)
					}
					c.Trace()
					if o.err != nil {
						c.Count("failed")
						return
					}
					if strict {
						c.Failf("%q succeeded although %s was %s", cmd, in, how)
						return
					}
					if err := cmd.complete(); err != nil {
						c.Failf("%q succeeded although %s was %s, and %v", cmd, in, how, err)
						return
					}
					if !slices.Equal(hashesIn(o.stdout), hashesIn(cmd.expect().stdout)) {
						c.Failf("%q succeeded although %s was %s, with other hashes", cmd, in, how)
						return
					}
					c.Count("same_result")
				}
				name := fmt.Sprintf("%s/%s/%s", sn, cmd, in)
				for _, n := range cutPoints(len(data), g.Thorough() && sn != "large") {
					g.CaseCrashOK(fmt.Sprintf("%s/%d", name, n), func(c *Ctx) {
						cmd.st.lay()
						writeFile(in, data[:n])
						c.State(cmd, in, n, sn)
						judge(c, fmt.Sprintf("cut off after %d of %d bytes", n, len(data)))
					})
				}
				g.CaseCrashOK(name+"/missing", func(c *Ctx) {
					cmd.st.lay()
					mustNil(os.Remove(in))
					c.State(cmd, in, "missing", sn)
					judge(c, "missing")
				})
				g.CaseCrashOK(name+"/directory", func(c *Ctx) {
					cmd.st.lay()
					mustNil(os.Remove(in))
					mustNil(os.Mkdir(in, 0o755))
					c.State(cmd, in, "directory", sn)
					judge(c, "a directory")
				})
			}
			g.Case(fmt.Sprintf("%s/%s/whole", sn, cmd), func(c *Ctx) {
				cmd.st.lay()
				o := cmd.run(nil)
				if o.err != nil {
					c.Failf("%q fails: %v", cmd, o.err)
					return
				}
				if err := cmd.complete(); err != nil {
					c.Failf("%q isn't deterministic: %v", cmd, err)
				}
				if o.stdout != cmd.expect().stdout {
					c.Count("output_varies")
				}
				c.Trace()
			})
		}
	}
}

// ------------------------------------------------------------------------- C19: outputs that can't be written

func genC19(g *Gen) {
	if installOS != nil {
		genC19ops(g)
	}
	stages := []string{"plain", "commit", "large"}
	if g.Thorough() {
		stages = append(stages, "lazy")
	}
	for _, sn := range stages {
		for _, cmd := range stage(sn).cmds {
			if sn != "plain" && cmd.args[0][:2] == "p1" || len(cmd.out) == 0 {
				continue
			}
			judge := func(c *Ctx, err error, how string) {
				c.Transition()
				c.Trace()
				if err != nil {
					c.Count("failed")
					return
				}
				if e := cmd.complete(); e != nil {
					c.Failf("%q succeeded although %s: %v", cmd, how, e)
					return
				}
				c.Count("complete")
			}
			run := func() error { return withRNG(newRNG("run"), func() error { return cmd.call(cmd.args) }) }
			w := cmd.expect()
			size, sizes := 0, map[int]bool{}
			for _, f := range cmd.out {
				size = max(size, len(w.files[f]))
				for d := -1; d <= 1; d++ {
					sizes[len(w.files[f])+d] = true
				}
			}
			for _, n := range cutPoints(size+1, g.Thorough()) {
				if sn == "large" && !g.Thorough() && n%512 != 0 && !sizes[n] {
					continue
				}
				g.CaseCrashOK(fmt.Sprintf("%s/%s/limit=%d", sn, cmd, n), func(c *Ctx) {
					cmd.st.lay()
					c.State(cmd, n, sn)
					var err error
					limitFiles(n, func() error { err = run(); return nil })
					judge(c, err, fmt.Sprintf("no more than %d bytes of a file could be written", n))
				})
			}
			for _, out := range cmd.out {
				g.CaseCrashOK(fmt.Sprintf("%s/%s/%s full", sn, cmd, out), func(c *Ctx) {
					cmd.st.lay()
					os.Remove(out)
					mustNil(os.Symlink("/dev/full", out))
					c.State(cmd, out, "full", sn)
					judge(c, run(), out+" couldn't be written")
				})
				g.CaseCrashOK(fmt.Sprintf("%s/%s/%s directory", sn, cmd, out), func(c *Ctx) {
					cmd.st.lay()
					os.Remove(out)
					mustNil(os.Mkdir(out, 0o755))
					writeFile(out+"/x", nil)
					c.State(cmd, out, "directory", sn)
					judge(c, run(), out+" couldn't be created")
				})
			}
		}
	}
}

func init() {
	register(&Check{ID: "C18", Level: "fault_enumeration", NoGC: true, QuickS: 240,
		Rule:   "every command on the files of a small ceremony, with every one of its inputs cut off after every byte, missing, or a directory; it must fail or give byte by byte what it gives for the whole files (and always fail where every byte belongs to the ceremony)",
		Assume: []string{"gnark's readers of circuits and keys end (with any error or panic) on what they can't read"},
		Gen:    genC18})
	register(&Check{ID: "C19", Level: "fault_enumeration", NoGC: true, QuickS: 240,
		Rule:   "every command that writes files, with the size of files limited to every number of bytes, with every one of its outputs impossible to write or to create, and with every single operation that writes, creates or positions failing (once, after half of a write, or from then on for that file); it must fail or leave complete outputs",
		Assume: []string{"failures are those of the system calls; data lost after they succeeded isn't modelled"},
		Gen:    genC19})
}
