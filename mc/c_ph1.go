package main

import (
	"bytes"
	"fmt"
	"sync"

	"github.com/bnb-chain/zkbnb-setup/phase1"
)

// ------------------------------------------------------------------------------------------ phase 1 checks

var memoMu sync.Mutex
var memo = map[string]any{}

func memoize[T any](key string, f func() T) T {
	memoMu.Lock()
	v, ok := memo[key]
	memoMu.Unlock()
	if ok {
		return v.(T)
	}
	r := f()
	memoMu.Lock()
	memo[key] = r
	memoMu.Unlock()
	return r
}

var ppotBase = Base{erand("ppot.t"), erand("ppot.a"), erand("ppot.b")}

func baseOf(name string) Base {
	if name == "ppot" {
		return ppotBase
	}
	return unitBase
}

// honest1 is the model's ceremony of k contributions.
func honest1(power, k int, base string) *P1 {
	return memoize(fmt.Sprint("h1|", power, "|", k, "|", base), func() *P1 {
		if k == 0 {
			return newP1(power, baseOf(base))
		}
		return honest1(power, k-1, base).contribute(baseOf(base), sec1(fmt.Sprint("h1.", base, k)))
	})
}

// verify1 runs the verifier on a file; base is "" or the name of the base.
func verify1(base string, power int) error {
	tr := ""
	if base != "" {
		tr = "base.ph1"
		writeFile(tr, honest1(power, 0, base).bytes())
	}
	return callSafe(func() error { return phase1.Verify("in.ph1", tr) })
}

// what the source of entropy answers to a draw
var drawNames = []string{"r", "1", "-", "x"}

func scriptOf(s string) map[int][]byte {
	m := map[int][]byte{}
	for i, c := range s {
		switch c {
		case '1':
			m[i] = entropyOf(oneE)
		case '-':
			m[i] = entropyOf(eneg(oneE))
		case 'x': // rejected: the sampling must draw again
			m[i] = bytes.Repeat([]byte{0xff}, 32)
		case '2':
			m[i] = entropyOf(ei(2))
		}
	}
	return m
}

func words(alpha []string, n int) []string {
	w := []string{""}
	for i := 0; i < n; i++ {
		var v []string
		for _, p := range w {
			for _, a := range alpha {
				v = append(v, p+a)
			}
		}
		w = v
	}
	return w
}

// contribute1 runs a real contribution from in.ph1 to out.ph1 and compares it with the model.
func contribute1(c *Ctx, p *P1, base, script, seed string) *P1 {
	rng := newRNG(seed)
	rng.Script = scriptOf(script)
	return contribute1rng(c, p, base, rng)
}

func contribute1rng(c *Ctx, p *P1, base string, rng *RNG) *P1 {
	in := readFile("in.ph1")
	c.Transition()
	if err := withRNG(rng, func() error { return phase1.Contribute("in.ph1", "out.ph1") }); err != nil {
		c.Failf("the contribution failed: %v", err)
		return nil
	}
	if !bytes.Equal(in, readFile("in.ph1")) {
		c.Failf("the input of the contribution was changed")
		return nil
	}
	q, err := checkContribution1(p, baseOf(base), readFile("out.ph1"), rng.candidates())
	if err != nil {
		c.Failf("%v", err)
		return nil
	}
	c.Trace()
	c.State(q.bytes())
	return q
}

func init() {
	register(&Check{ID: "C01", Level: "model_checking",
		Rule:   "a case is one history Initialize/Transform·Contribute* over powers, lengths and the answers of the entropy source to each draw (random, 1, −1, out of range); every file written is compared byte by byte with the model's; distinct files are counted",
		Assume: []string{"the group operations and encodings of gnark-crypto", "secrets are drawn with fr.Element.SetRandom (32 bytes a draw); any order of the draws is accepted"},
		Gen: func(g *Gen) {
			maxInit := 8
			huge := []int{12, 13, 14}
			if g.Thorough() {
				maxInit = 11
				huge = []int{12, 13, 14, 15, 16}
			}
			for _, power := range huge {
				g.Case(fmt.Sprintf("large/power=%d", power), func(c *Ctx) {
					p := honest1(power, 1, "")
					writeFile("in.ph1", p.bytes())
					contribute1(c, p, "", "", "C01l")
				})
				g.Case(fmt.Sprintf("large/power=%d/first", power), func(c *Ctx) {
					c.Transition()
					if err := callSafe(func() error { return phase1.Initialize(byte(power), "in.ph1") }); err != nil {
						c.Failf("initialization failed: %v", err)
						return
					}
					p := newP1(power, unitBase)
					if !bytes.Equal(readFile("in.ph1"), p.bytes()) {
						c.Failf("the initial file isn't the documented one with τ=α=β=1")
						return
					}
					contribute1(c, p, "", "", "C01m")
				})
			}
			for power := 1; power <= maxInit; power++ {
				power := power
				g.Case(fmt.Sprintf("init/power=%d", power), func(c *Ctx) {
					c.Transition()
					if err := callSafe(func() error { return phase1.Initialize(byte(power), "o.ph1") }); err != nil {
						c.Failf("initialization failed: %v", err)
						return
					}
					b := readFile("o.ph1")
					if !bytes.Equal(b, newP1(power, unitBase).bytes()) {
						c.Failf("the initial file isn't the documented one with τ=α=β=1")
					}
					c.State(b)
					c.Trace()
				})
			}
			maxP, maxK := 4, 2
			if g.Thorough() {
				maxP, maxK = 7, 4
			}
			for power := 1; power <= maxP; power++ {
				for k := 0; k <= maxK; k++ {
					for _, base := range []string{"", "ppot"} {
						alpha, n := drawNames, 3
						if (power > 1 || k > 1) && !g.Thorough() {
							alpha, n = []string{"r"}, 6
						} else if power > 2 {
							alpha, n = []string{"r", "-"}, 3
						}
						for _, w := range words(alpha, n) {
							power, k, base, w := power, k, base, w
							g.Case(fmt.Sprintf("contribute/power=%d/after=%d/base=%s/draws=%s", power, k, base, w), func(c *Ctx) {
								p := honest1(power, k, base)
								writeFile("in.ph1", p.bytes())
								contribute1(c, p, base, w, "C01")
							})
						}
					}
				}
			}
			// larger files
			for power := maxP + 1; power <= maxInit; power++ {
				g.Case(fmt.Sprintf("large/power=%d", power), func(c *Ctx) {
					p := honest1(power, 1, "")
					writeFile("in.ph1", p.bytes())
					contribute1(c, p, "", "", "C01l")
				})
			}
			// draws of the proofs of knowledge
			for _, w := range words([]string{"r", "1", "-"}, 3) {
				w := w
				g.Case("contribute/keys/draws="+w, func(c *Ctx) {
					p := honest1(1, 1, "")
					writeFile("in.ph1", p.bytes())
					contribute1(c, p, "", "rrr"+w, "C01k")
				})
			}
			// histories of the real code from its own initial file
			depth := 4
			if g.Thorough() {
				depth = 8
			}
			for power := 1; power <= maxP; power++ {
				power := power
				g.Case(fmt.Sprintf("history/power=%d", power), func(c *Ctx) {
					if err := callSafe(func() error { return phase1.Initialize(byte(power), "in.ph1") }); err != nil {
						c.Failf("%v", err)
						return
					}
					p := newP1(power, unitBase)
					for i := 0; i < depth; i++ {
						if p = contribute1(c, p, "", "", fmt.Sprint("C01h", i)); p == nil {
							return
						}
						writeFile("in.ph1", readFile("out.ph1"))
					}
				})
			}
			genSpecialContrib1(g)
			genWords1(g)
			// the number of contributions needs its second byte
			for _, k := range []int{254, 255, 256} {
				k := k
				g.Case(fmt.Sprintf("contribute/after=%d", k), func(c *Ctx) {
					p := honest1(1, k, "")
					writeFile("in.ph1", p.bytes())
					contribute1(c, p, "", "", "C01n")
				})
			}
		}})

	register(&Check{ID: "C02", Level: "model_checking",
		Rule:   "a case is an honest ceremony, of the real code (every answer of the entropy source to secrets and to the coefficients of the verifier over an alphabet) or of the model; the verifier must accept each of its files",
		Assume: []string{"files of the model are those of honest contributors (C01 shows that the code writes the same)"},
		Gen: func(g *Gen) {
			accept := func(c *Ctx, b []byte, base string, power int) {
				writeFile("in.ph1", b)
				c.State(b)
				c.Transition()
				if err := verify1(base, power); err != nil {
					c.Failf("an honest ceremony was rejected: %v", err)
					return
				}
				c.Trace()
			}
			maxP, maxK := 5, 4
			huge := []int{12, 13, 14}
			if g.Thorough() {
				maxP, maxK = 9, 8
				huge = []int{11, 12, 13, 14, 15, 16}
			}
			for _, power := range huge {
				for _, base := range []string{"", "ppot"} {
					g.Case(fmt.Sprintf("large/power=%d/base=%s", power, base), func(c *Ctx) {
						accept(c, honest1(power, 2, base).bytes(), base, power)
					})
				}
			}
			for power := 1; power <= maxP; power++ {
				for k := 1; k <= maxK; k++ {
					for _, base := range []string{"", "ppot"} {
						power, k, base := power, k, base
						g.Case(fmt.Sprintf("model/power=%d/k=%d/base=%s", power, k, base), func(c *Ctx) {
							accept(c, honest1(power, k, base).bytes(), base, power)
						})
					}
				}
			}
			for power := maxP + 1; power <= 10; power++ {
				g.Case(fmt.Sprintf("large/power=%d", power), func(c *Ctx) {
					accept(c, honest1(power, 2, "").bytes(), "", power)
				})
			}
			long := []int{127, 128, 255, 256, 257}
			if g.Thorough() {
				long = append(long, 511, 512, 768, 1023, 1025)
			}
			for _, k := range long {
				k := k
				g.Case(fmt.Sprintf("model/long/k=%d", k), func(c *Ctx) { accept(c, honest1(1, k, "").bytes(), "", 1) })
			}
			genSpecialAccept1(g)
			// what the verifier draws must not matter
			for _, w := range words([]string{"r", "1", "-", "x", "2"}, 3) {
				for _, power := range []int{1, 2} {
					w, power := w, power
					g.Case(fmt.Sprintf("coefficients/power=%d/draws=%s", power, w), func(c *Ctx) {
						var e error
						rng := newRNG("C02")
						// repeated
						rng.Script = scriptOf(w + w + w + w + w + w + w + w)
						withRNG(rng, func() error { writeFile("in.ph1", honest1(power, 1, "").bytes()); e = verify1("", power); return nil })
						c.Transition()
						c.State("coef", w, power)
						if e != nil {
							c.Failf("an honest ceremony was rejected: %v", e)
							return
						}
						c.Trace()
					})
				}
			}
			// ceremonies of the real code
			for _, base := range []string{"", "ppot"} {
				for power := 1; power <= 3; power++ {
					for _, w := range words(drawNames[:3], 3) {
						base, power, w := base, power, w
						if power > 1 && w[0] != w[2] && !g.Thorough() {
							continue
						}
						g.Case(fmt.Sprintf("real/power=%d/base=%s/draws=%s", power, base, w), func(c *Ctx) {
							if base != "" {
								writeFile("ppot", ppotFile(power+1, baseOf(base)))
								if err := callSafe(func() error { return phase1.Transform("ppot", "in.ph1", byte(power+1), byte(power)) }); err != nil {
									c.Failf("transform: %v", err)
									return
								}
								writeFile("base.ph1", readFile("in.ph1"))
							} else if err := callSafe(func() error { return phase1.Initialize(byte(power), "in.ph1") }); err != nil {
								c.Failf("%v", err)
								return
							}
							tr := ""
							if base != "" {
								tr = "base.ph1"
							}
							for i := 0; i < 3; i++ {
								rng := newRNG(fmt.Sprint("C02r", i))
								rng.Script = scriptOf(w)
								if err := withRNG(rng, func() error { return phase1.Contribute("in.ph1", "out.ph1") }); err != nil {
									c.Failf("contribution %d: %v", i+1, err)
									return
								}
								b := readFile("out.ph1")
								writeFile("in.ph1", b)
								c.State(b)
								c.Transition()
								if err := callSafe(func() error { return phase1.Verify("in.ph1", tr) }); err != nil {
									c.Failf("contribution %d of an honest ceremony was rejected: %v", i+1, err)
									return
								}
								c.Trace()
							}
						})
					}
				}
			}
		}})
}

// ppotFile is a response file of the Perpetual Powers of Tau.
func ppotFile(power int, base Base) []byte {
	n := 1 << power
	b := make([]byte, 64)
	copy(b, sum([]byte("ppot")))
	copy(b[32:], sum([]byte("hash")))
	for _, p := range g1s(geo(oneE, base.T, 2*n-1)) {
		b = append(b, r1(p)...)
	}
	for _, p := range g2s(geo(oneE, base.T, n)) {
		b = append(b, r2(p)...)
	}
	for _, p := range g1s(geo(base.A, base.T, n)) {
		b = append(b, r1(p)...)
	}
	for _, p := range g1s(geo(base.B, base.T, n)) {
		b = append(b, r1(p)...)
	}
	return append(b, r2(G2(base.B))...)
}
