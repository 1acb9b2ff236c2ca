package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"strings"
	"testing/iotest"

	"github.com/bnb-chain/zkbnb-setup/phase1"
	"github.com/bnb-chain/zkbnb-setup/phase2"
	"verif/mc/sched"
)

// --------------------------------------------------------------------- C21: where the secrets come from

// patterned answers each 32 bytes of the n-th read with of(n).
type patterned struct {
	n  int
	of func(n int) []byte
}

func (p *patterned) Read(b []byte) (int, error) {
	for i := 0; i < len(b); i += 32 {
		copy(b[i:], p.of(p.n))
		p.n++
	}
	return len(b), nil
}

// once fails at one read only
type failOnce struct {
	*RNG
	at, n int
}

func (f *failOnce) Read(p []byte) (int, error) {
	f.n++
	if f.n-1 == f.at {
		return 0, errEntropy
	}
	return f.RNG.Read(p)
}

// flipped is the base answer with a bit of the field element's representation flipped.
func flipped(b []byte, bit int) []byte {
	r := append([]byte{}, b...)
	r[bit/8] ^= 1 << (bit % 8)
	return r
}

const elementBits = 254

// draws is an answer that remains a reduced element whichever single bit is flipped.
func answer(seed string) []byte {
	b := entropyOf(erand(seed))
	b[31] &= 0x0f
	return b
}

// defects1 is the file of one contribution (with tau) in which the consecutive points k, k+1 of the section s don't have
// the ratio tau, but differ by dk from it, where d is given.
func defects1(p *P1, s int, tau E, d map[int]E) *P1 {
	q := p.clone()
	l := q.section(s)
	for k := 0; k+1 < len(l); k++ {
		l[k+1] = emul(l[k], tau)
		if e, ok := d[k]; ok {
			l[k+1] = eadd(l[k+1], e)
		}
	}
	return q
}

func genC21(g *Gen) {
	// 1. failures of the source
	for _, sn := range []string{"plain", "commit", "lazy"} {
		for _, cmd := range stage(sn).cmds {
			if !cmd.draws || sn != "plain" && strings.HasPrefix(cmd.args[0], "p1") {
				continue
			}
			cmd.expect()
			n := memoize(fmt.Sprint("reads|", sn, cmd), func() int { return drawn(cmd) })
			g.Case(fmt.Sprintf("%s/%s/draws", sn, cmd), func(c *Ctx) {
				if n == 0 {
					c.Failf("%q succeeds without any entropy", cmd)
				}
				c.Trace()
			})
			for k := 0; k < n; k++ {
				for _, kind := range []string{"all", "once", "EOF", "half"} {
					g.CaseCrashOK(fmt.Sprintf("%s/%s/fails at %d/%s", sn, cmd, k, kind), func(c *Ctx) {
						cmd.st.lay()
						sched.SetNumCPU(1)
						defer sched.SetNumCPU(0)
						rng := newRNG("run")
						var r io.Reader = rng
						switch kind {
						case "all":
							rng.FailAt = k
						case "once":
							r = &failOnce{RNG: rng, at: k}
						case "EOF":
							r = &limited{rng, k * 32}
						case "half":
							r = &limited{rng, k*32 + 16}
						}
						c.State(sn, cmd, k, kind)
						c.Transition()
						err := withRNG(r, func() error { return cmd.call(cmd.args) })
						c.Trace()
						if err == nil {
							c.Failf("%q succeeded although the source of randomness failed at draw %d (%s)", cmd, k, kind)
						}
					})
				}
			}
			// 2. the source answers in pieces
			g.Case(fmt.Sprintf("%s/%s/pieces", sn, cmd), func(c *Ctx) {
				sched.SetNumCPU(1)
				defer sched.SetNumCPU(0)
				var first map[string][]byte
				for i, of := range []func(io.Reader) io.Reader{func(r io.Reader) io.Reader { return r }, iotest.OneByteReader, iotest.HalfReader, iotest.DataErrReader} {
					mustNil(cleanDir("p"))
					func() {
						defer inDir("p")()
						cmd.st.lay()
						c.Transition()
						if err := withRNG(of(&stream{seed: "pieces"}), func() error { return cmd.call(cmd.args) }); err != nil {
							c.Failf("%q fails when the source answers in pieces (%d): %v", cmd, i, err)
							return
						}
						c.Trace()
						ch := cmd.st.changed()
						if first == nil {
							first = ch
							return
						}
						for f, b := range first {
							if !bytes.Equal(ch[f], b) {
								c.Failf("%q doesn't use the randomness in full when the source answers in pieces (%d): %s differs", cmd, i, f)
							}
						}
					}()
				}
			})
			// 3. everything that is drawn matters
			if len(cmd.out) > 0 {
				base := answer("c21")
				outs := func(script map[int][]byte) map[string][]byte {
					mustNil(cleanDir("p"))
					defer inDir("p")()
					cmd.st.lay()
					rng := newRNG("run")
					rng.Script = script
					if err := withRNG(rng, func() error { return cmd.call(cmd.args) }); err != nil {
						return nil
					}
					return cmd.st.changed()
				}
				for k := 0; k < n; k++ {
					g.Case(fmt.Sprintf("%s/%s/bits of draw %d", sn, cmd, k), func(c *Ctx) {
						seen := map[string]int{}
						for bit := -1; bit < elementBits; bit++ {
							a := base
							if bit >= 0 {
								a = flipped(base, bit)
							}
							c.State(sn, cmd, k, bit)
							c.Transition()
							o := outs(map[int][]byte{k: a})
							if o == nil {
								c.Failf("%q fails", cmd)
								return
							}
							s := ""
							for _, f := range cmd.out {
								s += string(o[f]) + "|"
							}
							if was, ok := seen[s]; ok && strings.HasPrefix(cmd.args[0], "p") {
								c.Failf("%q gives the same for different answers to draw %d (bits %d and %d)", cmd, k, was, bit)
								return
							}
							seen[s] = bit
							c.Trace()
							if !strings.HasPrefix(cmd.args[0], "p") && bit > 2 {
								break // draws of the library of the proof system
							}
						}
					})
				}
			}
		}
	}
	// 4. the secrets of a contribution are different draws
	for _, power := range []int{1, 2} {
		for m := 0; m < 3; m++ {
			for seed := 0; seed < 4; seed++ {
				g.Case(fmt.Sprintf("secrets/phase 1/%d/%d/%d", power, m, seed), func(c *Ctx) {
					p := honest1(power, m, "")
					writeFile("in.ph1", p.bytes())
					rng := newRNG(fmt.Sprint("s", seed))
					if err := withRNG(rng, func() error { return phase1.Contribute("in.ph1", "out.ph1") }); err != nil {
						c.Failf("the contribution fails: %v", err)
						return
					}
					c.Transition()
					q, err := checkContribution1(p, baseOf(""), readFile("out.ph1"), rng.candidates())
					if err != nil {
						c.Failf("%v", err)
						return
					}
					c.State(readFile("out.ph1"))
					prev, _ := p.last(baseOf(""))
					now := q.Cs[len(q.Cs)-1]
					differ(c, map[string]E{"tau": quo(now.T1, prev.T1), "alpha": quo(now.A1, prev.A1), "beta": quo(now.B1, prev.B1), "s of tau": now.PK[0].S, "s of alpha": now.PK[1].S, "s of beta": now.PK[2].S})
				})
			}
		}
	}
	for m := 0; m < 3; m++ {
		for seed := 0; seed < 4; seed++ {
			g.Case(fmt.Sprintf("secrets/phase 2/%d/%d", m, seed), func(c *Ctx) {
				p := origin2(4, 3, plainHeader)
				for i := 0; i < m; i++ {
					p = p.honest(i)
				}
				writeFile("in.ph2", p.bytes())
				rng := newRNG(fmt.Sprint("s", seed))
				if err := withRNG(rng, func() error { return phase2.Contribute("in.ph2", "out.ph2") }); err != nil {
					c.Failf("the contribution fails: %v", err)
					return
				}
				c.Transition()
				q, err := checkContribution2(p, readFile("out.ph2"), rng.candidates())
				if err != nil {
					c.Failf("%v", err)
					return
				}
				c.State(readFile("out.ph2"))
				now := q.Cs[len(q.Cs)-1]
				differ(c, map[string]E{"delta": quo(q.D1, p.D1), "s": now.PK.S})
			})
		}
	}
	// 5. coefficients of the verifications: files whose errors cancel exactly if two coefficients are equal
	small := coeffTargets(2, 8, 5, allPairs)
	base := answer("c21 coefficient")
	run := func(of func(n int) []byte, f func() error) error {
		sched.SetNumCPU(1)
		defer sched.SetNumCPU(0)
		return withRNG(&patterned{of: of}, f)
	}
	onlyDraws := func(g *Gen, size string, ts []coeffTarget) {
		for _, t := range ts {
			for _, pr := range t.pairs {
				g.Case(fmt.Sprintf("coefficients/%s%s/%v/only from the source", size, t.name, pr), func(c *Ctx) {
					f := t.file(pr[0], pr[1])
					c.State(size, t.name, pr)
					c.Transition()
					if err := run(func(int) []byte { return base }, f); err != nil {
						c.Failf("the errors at %v of %s should cancel when the source gives the same coefficients: %v", pr, t.name, err)
					}
					for _, cpus := range []int{1, 3, 0} {
						c.Transition()
						func() {
							sched.SetNumCPU(cpus)
							defer sched.SetNumCPU(0)
							if err := withRNG(newRNG("c21"), f); err == nil {
								c.Failf("the errors at %v of %s cancel", pr, t.name)
							}
						}()
					}
					c.Trace()
				})
			}
		}
	}
	onlyDraws(g, "", small)
	for _, t := range small {
		for bit := 0; bit < elementBits; bit++ {
			g.Case(fmt.Sprintf("coefficients/%s/bit %d", t.name, bit), func(c *Ctx) {
				odd := flipped(base, bit)
				// halves by the parity of the draw, and by the next bit of its number
				for k := 0; k < 2; k++ {
					n := 0
					for _, pr := range t.pairs {
						c.State(t.name, bit, pr, k)
						c.Transition()
						if err := run(func(i int) []byte {
							if i>>k&1 == 1 {
								return odd
							}
							return base
						}, t.file(pr[0], pr[1])); err != nil {
							n++
						}
						c.Trace()
						if n > 0 {
							return
						}
					}
				}
				c.Failf("the coefficients of %s don't depend on bit %d of what was drawn", t.name, bit)
			})
		}
	}
	// errors in different batches
	for _, bs := range []int{2, 3, 4, 5} {
		u := g.Under(fmt.Sprintf("batch=%d/", bs), func(c *Ctx, run func(c *Ctx)) {
			sched.SetBatch(bs)
			defer sched.SetBatch(0)
			if sched.Batches == 0 {
				c.Count("without_batches")
			}
			run(c)
		})
		onlyDraws(u, "", small)
		if g.Thorough() {
			onlyDraws(u, "", coeffTargets(4, 16, 15, allPairs))
		}
	}
	// files that are larger than any buffer: coefficients that repeat
	far := func(g *Gen, power, domain, witness int, ds []int) {
		for _, t := range coeffTargets(power, domain, witness, func(lo, n int) (r [][2]int) {
			for _, d := range ds {
				for _, pr := range [][2]int{{lo, lo + d}, {n - 1 - d, n - 1}} {
					if pr[0] >= lo && pr[1] < n && (g.Thorough() || pr[0] == lo) {
						r = append(r, pr)
					}
				}
			}
			return
		}) {
			for _, pr := range t.pairs {
				g.Case(fmt.Sprintf("coefficients/power %d, domain %d/%s/%v", power, domain, t.name, pr), func(c *Ctx) {
					f := t.file(pr[0], pr[1])
					c.State(power, domain, t.name, pr)
					c.Transition()
					if err := withRNG(newRNG("c21"), f); err == nil {
						c.Failf("the errors at %v of %s cancel", pr, t.name)
					}
					c.Trace()
				})
			}
		}
	}
	if g.Thorough() {
		far(g, 15, 1<<17, 70000, []int{1000, 1024, 2000, 2048, 4000, 4096, 8192, 10000, 16384, 32768, 65535, 65536})
	} else {
		far(g, 13, 1<<15, 20000, []int{1000, 2048, 4096, 8192, 10000, 16384})
	}
	// larger files, in which errors are at distances around the powers of two
	onlyDraws(g, "power 6, domain 64/", coeffTargets(6, 64, 41, distances(6)))
	onlyDraws(g, "power 8, domain 256/", coeffTargets(8, 256, 230, distances(3)))
	if g.Thorough() {
		onlyDraws(g, "power 5, domain 32/", coeffTargets(5, 32, 33, allPairs))
		onlyDraws(g, "power 11, domain 2048/", coeffTargets(11, 2048, 1500, distances(2)))
	} else {
		onlyDraws(g, "power 10, domain 1024/", coeffTargets(10, 1024, 900, distances(1)))
	}
}

type coeffTarget struct {
	name  string
	pairs [][2]int
	file  func(i, j int) func() error
}

func allPairs(lo, n int) (r [][2]int) {
	for i := lo; i < n; i++ {
		for j := i + 1; j < n; j++ {
			r = append(r, [2]int{i, j})
		}
	}
	return
}

// distances is the pairs with distances 2^k-1, 2^k, 2^k+1 from the beginning, from the end, and from the middle.
func distances(ends int) func(lo, n int) [][2]int {
	return func(lo, n int) (r [][2]int) {
		seen := map[[2]int]bool{}
		for d := 1; d < n; d *= 2 {
			for _, x := range []int{d, d - 1, d + 1} {
				if ends == 1 && x != d {
					continue
				}
				for k, i := range []int{lo, n - 1 - x, (lo + n - x) / 2} {
					pr := [2]int{i, i + x}
					if x < 1 || k >= ends || i < lo || i+x >= n || seen[pr] {
						continue
					}
					seen[pr] = true
					r = append(r, pr)
				}
			}
		}
		return
	}
}

func coeffTargets(power, domain, witness int, pairs func(lo, n int) [][2]int) (ts []coeffTarget) {
	e := erand("c21 defect")
	p := memoize(fmt.Sprint("c21 phase 1|", power), func() *P1 { return newP1(power, baseOf("")).contribute(baseOf(""), sec1("c21")) })
	tau := sec1("c21").X[0]
	lo := []int{1, 0, 0, 1}
	for s := 0; s < 4; s++ {
		ts = append(ts, coeffTarget{[]string{"TauG1", "AlphaTauG1", "BetaTauG1", "TauG2"}[s], pairs(lo[s], len(p.section(s))-1), func(i, j int) func() error {
			b := defects1(p, s, tau, map[int]E{i: e, j: eneg(e)}).bytes()
			return func() error {
				writeFile("in.ph1", b)
				return phase1.Verify("in.ph1", "")
			}
		}})
	}
	o2 := memoize(fmt.Sprint("c21 phase 2|", domain, witness), func() *P2 { return origin2(domain, witness, plainHeader) })
	q2 := memoize(fmt.Sprint("c21 phase 2'|", domain, witness), func() *P2 { return o2.honest(1) })
	for s := 0; s < 2; s++ {
		ts = append(ts, coeffTarget{[]string{"Z", "PKK"}[s], pairs(0, []int{domain - 1, witness}[s]), func(i, j int) func() error {
			q := q2.clone()
			l := [][]E{q.Z, q.PKK}[s]
			l[i], l[j] = eadd(l[i], e), esub(l[j], e)
			b, ob := q.bytes(), o2.bytes()
			return func() error {
				writeFile("in.ph2", b)
				writeFile("o.ph2", ob)
				return phase2.Verify("in.ph2", "o.ph2")
			}
		}})
	}
	return
}

func quo(a, b E) E { return emul(a, einv(b)) }

func differ(c *Ctx, m map[string]E) {
	for a, x := range m {
		for b, y := range m {
			if a < b && eq(x, y) {
				c.Failf("%s and %s of the contribution are the same draw", a, b)
				return
			}
		}
	}
	c.Trace()
}

// drawn is the number of draws of the command.
func drawn(cmd *Cmd) int {
	d := must1(tempDir())
	defer os.RemoveAll(d)
	defer inDir(d)()
	sched.SetNumCPU(1)
	defer sched.SetNumCPU(0)
	cmd.st.lay()
	rng := newRNG("run")
	mustNil(withRNG(rng, func() error { return cmd.call(cmd.args) }))
	return rng.Reads
}

// limited ends after n bytes
type limited struct {
	r io.Reader
	n int
}

func (l *limited) Read(p []byte) (int, error) {
	if l.n == 0 {
		return 0, io.EOF
	}
	n, err := l.r.Read(p)
	if n > l.n {
		n = l.n
	}
	l.n -= n
	return n, err
}

// stream is the same sequence of bytes however it is read.
type stream struct {
	seed string
	n    int
	buf  []byte
}

func (s *stream) Read(p []byte) (int, error) {
	for i := range p {
		if len(s.buf) == 0 {
			s.buf = entropyOf(erand(fmt.Sprint(s.seed, s.n)))
			s.n++
		}
		p[i], s.buf = s.buf[0], s.buf[1:]
	}
	return len(p), nil
}

func init() {
	register(&Check{ID: "C21", Level: "fault_enumeration", NoGC: true, QuickS: 240,
		Rule:   "every draw of every command failing, ending or coming in pieces; every bit of every draw of the contributions; files with errors that cancel for equal coefficients, for every pair of parameters of every section (in larger files: distances around powers of two), for small batches, and for every bit in which the draws differ",
		Assume: []string{"crypto/rand.Reader is the operating system's source; the field library maps an answer to the element with these limbs"},
		Gen:    genC21})
}
