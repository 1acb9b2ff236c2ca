package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
)

// -------------------------------------------------------- C20: inputs are preserved, old outputs don't matter

// spellings of the file name x in the current directory
var spellings = []struct {
	name string
	of   func(x string) string
}{
	{"same", func(x string) string { return x }},
	{"dot", func(x string) string { return "./" + x }},
	{"slashes", func(x string) string { return ".//" + x }},
	{"dotdot", func(x string) string { return "sub/../" + x }},
	{"absolute", func(x string) string { return must1(filepath.Abs(x)) }},
	{"linkeddir", func(x string) string { return "here/" + x }},
	{"outside", func(x string) string { d := must1(os.Getwd()); return "../" + filepath.Base(d) + "/" + x }},
}

// ways of making the existing file x also known as o
var aliases = []struct {
	name string
	make func(x, o string)
}{
	{"symlink", func(x, o string) { mustNil(os.Symlink(rel(o, x), o)) }},
	{"abssymlink", func(x, o string) { mustNil(os.Symlink(must1(filepath.Abs(x)), o)) }},
	{"chain", func(x, o string) {
		mustNil(os.Symlink(must1(filepath.Abs(x)), "chain"))
		mustNil(os.Symlink(must1(filepath.Abs("chain")), o))
	}},
	{"hardlink", func(x, o string) { mustNil(os.Link(x, o)) }},
	{"reverse", func(x, o string) {
		mustNil(os.Rename(x, o))
		mustNil(os.Symlink(rel(x, o), x))
	}},
	{"symlink to a hardlink", func(x, o string) {
		mustNil(os.Link(x, "hard"))
		mustNil(os.Symlink(rel(o, "hard"), o))
	}},
	{"hardlink, the other a symlink", func(x, o string) {
		mustNil(os.Link(x, "real"))
		mustNil(os.Rename(x, o))
		mustNil(os.Symlink(must1(filepath.Abs("real")), x))
	}},
	{"both symlinks to hardlinks", func(x, o string) {
		mustNil(os.Rename(x, "sub/real1"))
		mustNil(os.Link("sub/real1", "real2"))
		mustNil(os.Symlink(rel(x, "sub/real1"), x))
		mustNil(os.Symlink(rel(o, "here/real2"), o))
	}},
	{"hardlink of a symlink", func(x, o string) {
		mustNil(os.Rename(x, "real"))
		mustNil(os.Symlink(must1(filepath.Abs("real")), x))
		mustNil(os.Link(x, o))
	}},
	{"long chain", func(x, o string) {
		to := must1(filepath.Abs(x))
		for i := 0; i < 30; i++ {
			n := fmt.Sprint("sub/chain", i)
			mustNil(os.Symlink(to, n))
			to = must1(filepath.Abs(n))
		}
		mustNil(os.Symlink(to, o))
	}},
}

// aliasNeedsFile: the alias can't be made of a file that isn't there
func aliasNeedsFile(name string) bool { return name == "reverse" || strings.Contains(name, "hardlink") }

func rel(from, to string) string { return must1(filepath.Rel(filepath.Dir(from), to)) }

func genC20(g *Gen) {
	stages := []string{"plain", "commit"}
	for _, sn := range stages {
		st := stage(sn)
		for _, cmd := range st.cmds {
			if sn == "commit" && strings.HasPrefix(cmd.args[0], "p1") || len(cmd.out) == 0 {
				continue
			}
			cmd.expect()
			refused := func(c *Ctx, args []string, data map[string][]byte, how string) {
				c.Transition()
				err := withRNG(newRNG("run"), func() error { return cmd.call(args) })
				c.Trace()
				for f, b := range data {
					got, e := os.ReadFile(f)
					if e != nil || !bytes.Equal(got, b) {
						c.Failf("%q: the input file %s was destroyed, %s", strings.Join(args, " "), f, how)
						return
					}
				}
				if err == nil {
					c.Failf("%q succeeded, %s", strings.Join(args, " "), how)
				}
			}
			lay := func() {
				st.lay()
				mustNil(os.MkdirAll("sub", 0o755))
				mustNil(os.Symlink(".", "here"))
			}
			inputs := func() map[string][]byte {
				d := map[string][]byte{}
				for _, f := range cmd.in {
					d[f] = st.files[f]
				}
				return d
			}
			subst := func(old, by string) []string {
				a := slices.Clone(cmd.args)
				for i := 1; i < len(a); i++ {
					if a[i] == old {
						a[i] = by
					}
				}
				return a
			}
			for _, o := range cmd.out {
				for _, x := range cmd.in {
					name := fmt.Sprintf("%s/%s/%s is %s", sn, cmd, o, x)
					if slices.Contains(cmd.args[1:], o) {
						for _, sp := range spellings {
							g.Case(name+"/output "+sp.name, func(c *Ctx) {
								lay()
								c.State(sn, cmd, o, x, "o", sp.name)
								refused(c, subst(o, sp.of(x)), inputs(), "which is both an input and an output")
							})
						}
					}
					if slices.Contains(cmd.args[1:], x) {
						for _, sp := range spellings {
							g.Case(name+"/input "+sp.name, func(c *Ctx) {
								lay()
								data := inputs()
								if x != o {
									os.Remove(o)
									mustNil(os.Rename(x, o))
									delete(data, x)
									data[o] = st.files[x]
								}
								c.State(sn, cmd, o, x, "i", sp.name)
								refused(c, subst(x, sp.of(o)), data, "which is both an input and an output")
							})
						}
					}
					for _, al := range aliases {
						g.Case(name+"/"+al.name, func(c *Ctx) {
							lay()
							os.Remove(o)
							al.make(x, o)
							c.State(sn, cmd, o, x, al.name)
							refused(c, cmd.args, inputs(), "although they are the same file")
						})
					}
				}
				for _, o2 := range cmd.out {
					if o2 == o {
						continue
					}
					name := fmt.Sprintf("%s/%s/%s is output %s", sn, cmd, o, o2)
					for _, old := range []string{"no", "empty", "old"} {
						make := func() {
							if old != "no" {
								writeFile(o2, []byte(strings.Trim(old, "empty")))
							}
						}
						if slices.Contains(cmd.args[1:], o) {
							for _, sp := range spellings {
								g.Case(fmt.Sprintf("%s/%s/%v", name, sp.name, old), func(c *Ctx) {
									lay()
									os.Remove(o2)
									make()
									c.State(sn, cmd, o, o2, sp.name, old)
									refused(c, subst(o, sp.of(o2)), inputs(), "with one file for two outputs")
								})
							}
						}
						for _, al := range aliases {
							if old == "no" && aliasNeedsFile(al.name) {
								continue
							}
							g.Case(fmt.Sprintf("%s/%s/%v", name, al.name, old), func(c *Ctx) {
								lay()
								os.Remove(o)
								os.Remove(o2)
								make()
								al.make(o2, o)
								c.State(sn, cmd, o, o2, al.name, old)
								refused(c, cmd.args, inputs(), "with one file for two outputs")
							})
						}
					}
				}
			}
			genStale(g, sn, cmd)
		}
		for _, cmd := range st.cmds {
			if sn == "plain" || !strings.HasPrefix(cmd.args[0], "p1") {
				genNames(g, sn, cmd)
			}
		}
	}
	genHistories(g)
}

// names that files may have
var fileNames = []string{
	"x", "with space", " ", "ünïcode", "-x", "--help", "a%sb%d%n", "*", "[a-z]?", "a.tmp", "tmp", ".hidden", "x.ph1", "x.ph2", "x.r1cs.E.save",
	"x~", "x.", "0", "1", "pk.save", "e.vk", "srs.lag2", "evals.old", "$HOME", "back\\slash", "new\nline", "'\"", "sub/x", "sub/deep/x", "sub/../y",
	strings.Repeat("n", 200), strings.Repeat("deep/", 40) + "x",
}

// genNames gives every file that the command's arguments name every name.
func genNames(g *Gen, sn string, cmd *Cmd) {
	move := func(from, to string) {
		mustNil(os.MkdirAll(filepath.Dir(to), 0o755))
		mustNil(os.Rename(from, to))
	}
	// files with the name or the prefix a
	named := func(l []string, a string) (r []string) {
		for _, f := range l {
			if f == a || strings.HasPrefix(f, a+".") {
				r = append(r, f)
			}
		}
		return
	}
	try := func(c *Ctx, args []string, back func()) {
		c.Transition()
		o, err := capture(func() error { return withRNG(newRNG("run"), func() error { return cmd.call(args) }) })
		c.Trace()
		if err != nil {
			c.Failf("%q fails: %v", args, err)
			return
		}
		_ = o
		back()
		if err := cmd.complete(); err != nil {
			c.Failf("%q: %v", args, err)
			return
		}
		for f := range cmd.st.changed() {
			if !slices.Contains(cmd.out, f) && f != "here" {
				c.Failf("%q changed %s", args, f)
			}
		}
	}
	for k := 1; k < len(cmd.args); k++ {
		a := cmd.args[k]
		ins, outs := named(cmd.in, a), named(cmd.out, a)
		if cmd.args[0] == "sol" {
			ins, outs = cmd.in, cmd.out
		}
		if len(ins)+len(outs) == 0 {
			continue
		}
		subst := func(by string) []string {
			l := slices.Clone(cmd.args)
			l[k] = by
			return l
		}
		for _, sp := range spellings {
			g.Case(fmt.Sprintf("%s/%s/argument %d %s", sn, cmd, k, sp.name), func(c *Ctx) {
				cmd.st.lay()
				mustNil(os.MkdirAll("sub", 0o755))
				mustNil(os.Symlink(".", "here"))
				c.State("names", sn, cmd, k, sp.name)
				try(c, subst(sp.of(a)), func() {})
			})
		}
		for _, n := range fileNames {
			g.Case(fmt.Sprintf("%s/%s/argument %d is %.20q", sn, cmd, k, n), func(c *Ctx) {
				cmd.st.lay()
				mustNil(os.MkdirAll("sub", 0o755))
				mustNil(os.MkdirAll(filepath.Dir(n), 0o755))
				for _, f := range ins {
					move(f, n+f[len(a):])
				}
				c.State("names", sn, cmd, k, n)
				try(c, subst(n), func() {
					for _, f := range append(slices.Clone(ins), outs...) {
						if by := n + f[len(a):]; exists(by) {
							move(by, f)
						}
					}
				})
			})
		}
		for _, f := range append(slices.Clone(ins), outs...) {
			isIn := slices.Contains(ins, f)
			g.Case(fmt.Sprintf("%s/%s/%s is a link", sn, cmd, f), func(c *Ctx) {
				cmd.st.lay()
				mustNil(os.MkdirAll("sub", 0o755))
				if isIn {
					move(f, "sub/target")
				} else {
					os.Remove(f)
				}
				mustNil(os.Symlink(rel(f, "sub/target"), f))
				c.State("names", sn, cmd, f, "link")
				try(c, cmd.args, func() {
					if isIn || exists("sub/target") {
						mustNil(os.Remove(f))
						move("sub/target", f)
					}
				})
			})
		}
	}
}

// genStale runs the command with all kinds of files left where it writes.
func genStale(g *Gen, sn string, cmd *Cmd) {
	w := cmd.expect()
	content := func(f string) []byte {
		if b, ok := w.files[f]; ok {
			return b
		}
		return cmd.st.files[f]
	}
	judge := func(c *Ctx, how string) {
		c.Transition()
		o := cmd.run(nil)
		c.Trace()
		if o.err != nil {
			c.Failf("%q fails when %s: %v", cmd, how, o.err)
			return
		}
		if err := cmd.complete(); err != nil {
			c.Failf("%q, when %s: %v", cmd, how, err)
			return
		}
		for f := range o.files {
			if !slices.Contains(cmd.out, f) {
				c.Failf("%q changed %s", cmd, f)
			}
		}
	}
	kinds := map[string]func(b []byte) []byte{
		"empty":   func(b []byte) []byte { return nil },
		"byte":    func(b []byte) []byte { return []byte{0xff} },
		"equal":   func(b []byte) []byte { return b },
		"garbage": func(b []byte) []byte { return bytes.Repeat([]byte{0xa5}, len(b)) },
		"longer1": func(b []byte) []byte { return append(slices.Clone(b), 0) },
		"longer":  func(b []byte) []byte { return append(slices.Clone(b), b...) },
		"long":    func(b []byte) []byte { return bytes.Repeat([]byte{0x5a}, len(b)+9000) },
		"half":    func(b []byte) []byte { return b[:len(b)/2] },
	}
	var names []string
	for k := range kinds {
		names = append(names, k)
	}
	sort.Strings(names)
	var rec func(i int, key string, lay func())
	n := 0
	rec = func(i int, key string, lay func()) {
		if i == len(cmd.out) {
			n++
			g.Case(fmt.Sprintf("%s/%s/old%s", sn, cmd, key), func(c *Ctx) {
				cmd.st.lay()
				lay()
				c.State(sn, cmd, key)
				judge(c, "there are old outputs"+key)
			})
			return
		}
		ks := names
		if len(cmd.out) > 4 { // the same for all
			ks = ks[:1]
		}
		for _, k := range ks {
			f := cmd.out[i]
			rec(i+1, key+" "+k, func() {
				lay()
				writeFile(f, kinds[k](content(f)))
			})
		}
	}
	if len(cmd.out) <= 4 {
		rec(0, "", func() {})
	} else {
		for _, k := range names {
			g.Case(fmt.Sprintf("%s/%s/old all %s", sn, cmd, k), func(c *Ctx) {
				cmd.st.lay()
				for _, f := range cmd.out {
					writeFile(f, kinds[k](content(f)))
				}
				c.State(sn, cmd, "all", k)
				judge(c, "there are old outputs, "+k)
			})
		}
	}
	// every length of what an interrupted run could have left, and of something else
	for _, f := range cmd.out {
		b := content(f)
		for _, l := range cutPoints(len(b)+2, false) {
			if !g.Thorough() && l%7 != 0 && l > 64 && l < len(b)-8 {
				continue
			}
			g.Case(fmt.Sprintf("%s/%s/old %s %d", sn, cmd, f, l), func(c *Ctx) {
				cmd.st.lay()
				writeFile(f, append(slices.Clone(b), "xy"...)[:l])
				c.State(sn, cmd, f, l)
				judge(c, fmt.Sprintf("there is an old %s with %d bytes", f, l))
			})
		}
	}
}

// ------------------------------------------------------------------ histories of commands in one directory

type step struct {
	args    []string
	in, out []string
}

type dirState map[string]string // name -> contents

func (d dirState) key(names []string) string {
	h := sha256.New()
	for _, f := range names {
		b, ok := d[f]
		fmt.Fprintf(h, "%s %v %d\n", f, ok, len(b))
		h.Write([]byte(b))
	}
	return string(h.Sum(nil))
}

func (d dirState) names() []string {
	var l []string
	for f := range d {
		l = append(l, f)
	}
	sort.Strings(l)
	return l
}

func (d dirState) lay(names []string) {
	mustNil(os.MkdirAll("parts2", 0o755))
	for _, f := range names {
		if b, ok := d[f]; ok {
			writeFile(f, []byte(b))
		}
	}
}

func readDir() dirState {
	d := dirState{}
	for _, p := range append(must1(filepath.Glob("*")), must1(filepath.Glob("parts2/*"))...) {
		if fi, err := os.Lstat(p); err == nil && fi.Mode().IsRegular() {
			d[p] = string(readFile(p))
		}
	}
	return d
}

type result struct {
	ok    bool
	err   string
	out   dirState
	wrote []string
}

func histories() (start dirState, steps []step) {
	st := stage("plain")
	start = dirState{}
	var parts []string
	for f, b := range st.files {
		if f == "big.ph1" || f == "r" || f == "c.r1cs" || strings.HasPrefix(f, "parts2/") {
			start[f] = string(b)
		}
		if strings.HasPrefix(f, "parts2/") {
			parts = append(parts, f)
		}
	}
	sort.Strings(parts)
	d := must1(os.MkdirTemp("", "hist"))
	defer os.RemoveAll(d)
	writeR1CS(generic(1, 2, 3, 4).build(), d+"/y.r1cs")
	start["y.r1cs"] = string(readFile(d + "/y.r1cs"))
	add := func(s string, in, out []string) { steps = append(steps, step{strings.Fields(s), in, out}) }
	var ks []string
	for _, p := range pkParts {
		ks = append(ks, "k.pk."+p+".save")
	}
	ks = append(ks, "k.vk.save", "k.pk.CommitmentKey.save")
	l := func(s ...string) []string { return s }
	add("p2n big.ph1 c.r1cs o.ph2", l("big.ph1", "c.r1cs"), l("o.ph2", "srs.lag", "evals"))
	add("p2n big.ph1 y.r1cs o.ph2", l("big.ph1", "y.r1cs"), l("o.ph2", "srs.lag", "evals"))
	add(fmt.Sprintf("p2np big.ph1 parts2/s o.ph2 %d %d 2", st.nCons, st.nR1C), append(l("big.ph1"), parts...), l("o.ph2", "srs.lag", "evals"))
	add("p2c o.ph2 f.ph2", l("o.ph2"), l("f.ph2"))
	add("p2c f.ph2 o.ph2", l("f.ph2"), l("o.ph2"))
	add("p2v f.ph2 o.ph2", l("f.ph2", "o.ph2"), nil)
	add("key f.ph2", l("f.ph2", "evals"), l("pk", "vk"))
	add("keys f.ph2 k", l("f.ph2", "evals"), ks)
	add("sol k", l("k.vk.save"), l("k.sol"))
	add("p1n 2 m.ph1", nil, l("m.ph1"))
	add("p1t r m.ph1 2 1", l("r"), l("m.ph1"))
	add("p1c m.ph1 q.ph1", l("m.ph1"), l("q.ph1"))
	add("p1c q.ph1 m.ph1", l("q.ph1"), l("m.ph1"))
	add("p1v q.ph1", l("q.ph1"), nil)
	add("p1vt q.ph1 m.ph1", l("q.ph1", "m.ph1"), nil)
	add("p2n q.ph1 y.r1cs o.ph2", l("q.ph1", "y.r1cs"), l("o.ph2", "srs.lag", "evals"))
	return
}

func genHistories(g *Gen) {
	depth := 4
	if g.Thorough() {
		depth = 6
	}
	start, steps := histories()
	memo := map[string]*result{}  // step and its inputs -> what it does in a clean directory
	seen := map[string]struct{}{} // states explored with a number of steps left
	run := func(s step, d dirState, names []string) *result {
		mustNil(cleanDir("d"))
		mustNil(os.Chdir("d"))
		defer os.Chdir("..")
		d.lay(names)
		err := withRNG(newRNG(strings.Join(s.args, " ")), func() error { return (&Cmd{}).call(s.args) })
		r := &result{ok: err == nil, out: readDir()}
		if err != nil {
			r.err = err.Error()
		}
		return r
	}
	pure := func(s step, d dirState) *result {
		k := strings.Join(s.args, " ") + d.key(s.in)
		r := memo[k]
		if r == nil {
			r = run(s, d, s.in)
			memo[k] = r
		}
		return r
	}
	var explore func(c *Ctx, d dirState, hist string, left int, only []int)
	explore = func(c *Ctx, d dirState, hist string, left int, only []int) {
		if left == 0 || c.Failed() {
			return
		}
		names := d.names()
		sk := d.key(names)
		if only == nil {
			k := fmt.Sprint(left) + sk
			if _, ok := seen[k]; ok {
				return
			}
			seen[k] = struct{}{}
		}
		c.State(sk)
		for i, s := range steps {
			if only != nil && only[0] != i {
				continue
			}
			h := hist + "; " + strings.Join(s.args, " ")
			c.Transition()
			got := run(s, d, names)
			want := pure(s, d)
			c.Trace()
			if got.ok != want.ok {
				c.Failf("after%s: the last command gives %q, but %q in a directory with its inputs only", h, got.err, want.err)
				return
			}
			for _, f := range s.out {
				if got.ok && got.out[f] != want.out[f] {
					c.Failf("after%s: %s isn't what the last command writes in a directory with its inputs only (it has %d bytes, first difference at %d)", h, f, len(got.out[f]), firstDiff([]byte(got.out[f]), []byte(want.out[f])))
					return
				}
			}
			for f, b := range d {
				if got.out[f] != b && !slices.Contains(s.out, f) {
					c.Failf("after%s: the last command changed %s", h, f)
					return
				}
			}
			for f := range got.out {
				if _, ok := d[f]; !ok && !slices.Contains(s.out, f) {
					c.Failf("after%s: the last command wrote %s", h, f)
					return
				}
			}
			if got.ok {
				c.Count("succeeded")
			} else {
				c.Count("refused")
			}
			var next []int
			if len(only) > 1 {
				next = only[1:]
			}
			explore(c, got.out, h, left-1, next)
		}
	}
	for i := range steps {
		for j := range steps {
			g.Case(fmt.Sprintf("histories/%s; %s", strings.Join(steps[i].args, " "), strings.Join(steps[j].args, " ")), func(c *Ctx) {
				explore(c, start, "", depth, []int{i, j})
			})
		}
	}
}

func init() {
	register(&Check{ID: "C20", Level: "model_checking", NoGC: true, QuickS: 200,
		Rule:   "every coincidence of an output of a command with one of its inputs or other outputs (by spelling of the name or by links), every argument spelled differently or with odd names, every file behind a link, every combination of kinds and every length of old outputs, and all sequences of commands up to a depth in one directory, each compared with the command in a directory with nothing but its inputs",
		Assume: []string{"file systems distinguish names by their bytes"},
		Gen:    genC20})
}
