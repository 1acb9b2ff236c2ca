package main

import (
	"bytes"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"strconv"

	"github.com/bnb-chain/zkbnb-setup/phase2"
	cs_bn254 "github.com/consensys/gnark/constraint/bn254"
)

// ph1For is a phase 1 file for circuits.
func ph1For(power int, kind string) *P1 {
	return memoize(fmt.Sprint("ph1For|", power, "|", kind), func() *P1 {
		switch kind {
		case "new": // τ=α=β=1
			return newP1(power, unitBase)
		case "root": // τ is a root of unity of the smallest domain
			p := newP1(power, unitBase)
			p.setParams(ei(-1), erand("ra"), erand("rb"))
			return p
		case "equal": // τ=α=β
			p := newP1(power, unitBase)
			p.setParams(erand("ra"), erand("ra"), erand("ra"))
			return p
		case "opposite":
			p := newP1(power, unitBase)
			p.setParams(erand("ra"), eneg(erand("ra")), einv(erand("ra")))
			return p
		case "ppot":
			return honest1(power, 1, "ppot")
		case "two":
			return honest1(power, 2, "")
		}
		for k, name := range []string{"tau=", "alpha=", "beta="} {
			for _, v := range specialE() {
				if kind == name+v.name {
					x := []E{erand("ra"), erand("rb"), erand("rc")}
					x[k] = v.e
					p := newP1(power, unitBase)
					p.setParams(x[0], x[1], x[2])
					return p
				}
			}
		}
		return honest1(power, 1, "")
	})
}

// specialKinds are phase 1 files with special secrets.
func specialKinds() []string {
	l := []string{"equal", "opposite"}
	for _, name := range []string{"tau=", "alpha=", "beta="} {
		for _, v := range specialE() {
			l = append(l, name+v.name)
		}
	}
	return l
}

var initOutputs = []string{"o.ph2", "srs.lag", "evals"}

// initialize2 runs the initialization for the circuit and compares the files with the model.
func initialize2(c *Ctx, circ *Circ, p *P1) *Init2 {
	writeFile("in.ph1", p.bytes())
	return initialized2(c, circ, p)
}

// writeSparse writes what the parts make at their offsets, with holes between (false: this isn't possible here).
func writeSparse(name string, size int64, parts map[int64][]byte) bool {
	f := must1(os.Create(name))
	defer f.Close()
	if err := f.Truncate(size); err != nil {
		return false
	}
	for at, b := range parts {
		if _, err := f.WriteAt(b, at); err != nil {
			return false
		}
	}
	return true
}

// sparse1 writes a phase 1 file of a large power that starts like p in all its sections.
func sparse1(name string, p *P1, power int) bool {
	n := int64(1) << power
	b := p.bytes()
	t1, a1, b1, t2, b2, end := offP1(p.N())
	b[0] = byte(power)
	at := int64(t1) + 32*(2*n-1)
	return writeSparse(name, 3+32*(2*n-1)+64*n+64*n+64+int64(len(b)-end), map[int64][]byte{
		0: b[:a1], at: b[a1:b1], at + 32*n: b[b1:t2], at + 64*n: b[t2:b2], at + 128*n: b[b2:],
	})
}

// hugeCircuits are public, private, and internal wires and constraints.
var hugeCircuits = [][4]int{{3, 4, 1100, 1025}, {3, 4, 5000, 4100}, {2, 3, 66000, 20}, {3000, 2000, 10, 300}, {2, 70000, 1, 9}}

// sparsePowers are those of the large files.
func sparsePowers() []int {
	var l []int
	for i := 9; i <= 28; i++ {
		l = append(l, i)
	}
	return l
}

// initialized2 does it for the file that is there.
func initialized2(c *Ctx, circ *Circ, p *P1) *Init2 {
	writeR1CS(circ.build(), "c.r1cs")
	c.Transition()
	if err := callSafe(func() error { return phase2.Initialize("in.ph1", "c.r1cs", "o.ph2") }); err != nil {
		c.Failf("the initialization failed: %v", err)
		return nil
	}
	x := circ.init2(p)
	if err := x.compare("o.ph2"); err != nil {
		c.Failf("%v", err)
		return nil
	}
	c.Trace()
	c.State(x.P2.bytes(), x.evals())
	return x
}

// circuits calls f for each circuit of the families, with the powers to take.
func circuits(thorough bool, f func(name string, c *Circ)) {
	// one constraint, all triples of expressions
	level := 1
	if thorough {
		level = 2
	}
	es := exprs(level)
	for _, l := range es {
		for _, r := range es {
			for _, o := range es {
				f(fmt.Sprintf("one/(%s)(%s)=%s", l.k, r.k, o.k), &Circ{Pub: 2, Sec: 1, Int: 1, Cons: []Con{{l.v, r.v, o.v}}})
			}
		}
	}
	// coefficients at the edges of machine words and of the field, in each role
	edges := append([]namedE{}, specialE()...)
	for _, k := range []uint{7, 15, 16, 31, 32, 62, 63, 64, 65, 127, 128, 191, 252} {
		x := new(big.Int).Lsh(big.NewInt(1), k)
		for d := int64(-1); d <= 1; d++ {
			y := fromBig(new(big.Int).Add(x, big.NewInt(d)))
			edges = append(edges, namedE{fmt.Sprintf("2^%d%+d", k, d), y}, namedE{fmt.Sprintf("-2^%d%+d", k, d), eneg(y)})
		}
	}
	for _, k := range edges {
		x, y := []T{tm(k.e, 1)}, []T{tm(oneE, 2), tm(k.e, 3), tm(k.e, 0)}
		f("edge/L/"+k.name, &Circ{Pub: 2, Sec: 1, Int: 1, Cons: []Con{{x, es[1].v, es[1].v}, {y, es[2].v, es[2].v}}})
		f("edge/R/"+k.name, &Circ{Pub: 2, Sec: 1, Int: 1, Cons: []Con{{es[1].v, x, es[1].v}, {es[2].v, y, es[2].v}}})
		f("edge/O/"+k.name, &Circ{Pub: 2, Sec: 1, Int: 1, Cons: []Con{{es[1].v, es[1].v, x}, {es[2].v, es[2].v, y}}})
	}
	// many different coefficients and terms
	for _, n := range []int{40, 300} {
		var l, r, o []T
		for i := 0; i < n; i++ {
			l, r, o = append(l, tm(ei(int64(i-n/2)), i%4)), append(r, tm(erand(fmt.Sprint("many", i)), (i+1)%4)), append(o, tm(ei(int64(1000+i*i)), i%3))
		}
		f(fmt.Sprint("many/", n), &Circ{Pub: 2, Sec: 1, Int: 1, Cons: []Con{{l, r, o}, {r, o, l}}})
	}
	// two constraints
	es = exprs(0)
	if !thorough {
		es = es[:3]
	}
	for i := 0; i < ipow(len(es), 6); i++ {
		k := make([]kv[[]T], 6)
		n, d := "two/", i
		for j := range k {
			k[j] = es[d%len(es)]
			d /= len(es)
			n += "(" + k[j].k + ")"
		}
		f(n, &Circ{Pub: 2, Sec: 1, Int: 1, Cons: []Con{{k[0].v, k[1].v, k[2].v}, {k[3].v, k[4].v, k[5].v}}})
	}
}

func ipow(a, n int) int {
	r := 1
	for ; n > 0; n-- {
		r *= a
	}
	return r
}

func log2(n int) int {
	l := 0
	for 1<<l < n {
		l++
	}
	return l
}

// lazies calls f for circuits with lazily stored constraints.
func lazies(thorough bool, f func(name string, c *Circ)) {
	mk, mb := 3, 3
	if thorough {
		mk, mb = 5, 4
	}
	for k := 1; k <= mk; k++ {
		for b := 1; b <= mb; b++ {
			for a := 0; a < 8; a++ {
				for _, lz := range []bool{false, true} {
					f(fmt.Sprintf("lazy=%v/k=%d/blocks=%d/around=%d%d%d", lz, k, b, a&1, a>>1&1, a>>2), lazyCirc(k, b, a&1, a>>1&1, a>>2, lz))
				}
			}
		}
	}
}

func init() {
	register(&Check{ID: "C10", Level: "model_checking", NoGC: true,
		Rule:   "a case is one circuit and phase 1 file: all circuits of one constraint over an alphabet of linear expressions (every kind of coefficient, repeated and cancelling terms, unused wires), all of two constraints over a smaller one, every combination of dimensions up to 17 constraints, circuits with lazily stored constraints; every file written is compared byte by byte with the model's; distinct outputs are counted",
		Assume: []string{"the generator of the domain is that of gnark-crypto's fft domain", "gnark's reading of the R1CS file"},
		Gen: func(g *Gen) {
			circuits(g.Thorough(), func(name string, circ *Circ) {
				g.Case(name, func(c *Ctx) { initialize2(c, circ, ph1For(1, "one")) })
			})
			ns := []int{1, 2, 3, 4, 5, 7, 8, 9, 16, 17}
			if g.Thorough() {
				ns = nil
				for i := 1; i <= 34; i++ {
					ns = append(ns, i)
				}
			}
			for pub := 1; pub <= 3; pub++ {
				for sec := 0; sec <= 2; sec++ {
					for in := 0; in <= 3; in++ {
						for _, n := range ns {
							for up := 0; up <= 1; up++ {
								n, up, pub, sec, in := n, up, pub, sec, in
								g.Case(fmt.Sprintf("dims/pub=%d,sec=%d,int=%d,cons=%d,up=%d", pub, sec, in, n, up), func(c *Ctx) {
									initialize2(c, generic(pub, sec, in, n), ph1For(log2(domainOf(n))+up, "one"))
								})
							}
						}
					}
				}
			}
			for _, kind := range []string{"new", "root", "ppot", "two"} {
				for n := 1; n <= 9; n++ {
					for up := 0; up <= 2; up++ {
						kind, n, up := kind, n, up
						g.Case(fmt.Sprintf("ph1=%s/cons=%d/up=%d", kind, n, up), func(c *Ctx) {
							initialize2(c, generic(2, 1, 2, n), ph1For(log2(domainOf(n))+up, kind))
						})
					}
				}
			}
			for _, kind := range specialKinds() {
				for _, n := range []int{2, 3, 7, 16} {
					g.Case(fmt.Sprintf("ph1=%s/cons=%d", kind, n), func(c *Ctx) {
						initialize2(c, generic(2, 1, 2, n), ph1For(log2(domainOf(n)), kind))
					})
				}
			}
			// phase 1 files of all sizes
			for _, power := range sparsePowers() {
				for _, n := range []int{1, 3, 5} {
					g.Case(fmt.Sprintf("power=%d/cons=%d", power, n), func(c *Ctx) {
						p := ph1For(log2(domainOf(n)), "one")
						if !sparse1("in.ph1", p, power) {
							c.Count("no_large_files")
							return
						}
						initialized2(c, generic(2, 1, 2, n), p)
					})
				}
			}
			// larger circuits
			for _, d := range hugeCircuits {
				g.Case(fmt.Sprintf("large/%v", d), func(c *Ctx) {
					initialize2(c, generic(d[0], d[1], d[2], d[3]), ph1For(log2(domainOf(d[3])), "one"))
				})
			}
			for _, n := range []int{31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500} {
				for _, in := range []int{0, 1, 60, 130} {
					g.Case(fmt.Sprintf("cons=%d/int=%d", n, in), func(c *Ctx) {
						initialize2(c, generic(2, 3, in, n), ph1For(log2(domainOf(n)), "one"))
					})
				}
			}
			lazies(g.Thorough(), func(name string, circ *Circ) {
				g.Case(name, func(c *Ctx) { initialize2(c, circ, ph1For(log2(domainOf(len(circ.Cons))), "one")) })
			})
		}})

	register(&Check{ID: "C11", Level: "model_checking", NoGC: true,
		Rule:   "a case is one circuit and phase 1 file; for every batch size the circuit is dumped split, initialized from the parts, and the three files are compared with those of the initialization from one file (and with the model)",
		Assume: []string{"gnark's writing and reading of split circuits"},
		Gen: func(g *Gen) {
			ran := func(c *Ctx, circ *Circ, x *Init2) {
				if x == nil {
					return
				}
				whole := map[string][]byte{}
				for _, f := range initOutputs {
					whole[f] = readFile(f)
				}
				nR1C := len(circ.build().Constraints)
				bs := []int{}
				for b := 1; b <= nR1C+1; b++ {
					bs = append(bs, b)
				}
				if nR1C > 20 {
					bs = []int{1, 7, nR1C - 1, nR1C, 100000}
				}
				if nR1C > 1000 {
					bs = []int{1000, nR1C, 100000}
				}
				splitR1CS("c.r1cs", bs...)
				for _, b := range bs {
					c.Transition()
					if err := callSafe(func() error {
						return phase2.InitializeFromPartedR1CS("in.ph1", fmt.Sprintf("parts%d/s", b), "o.ph2", len(circ.Cons), nR1C, b)
					}); err != nil {
						c.Failf("batch size %d: %v", b, err)
						return
					}
					for _, f := range initOutputs {
						if !bytes.Equal(readFile(f), whole[f]) {
							if err := x.compare("o.ph2"); err != nil {
								c.Failf("batch size %d: %v", b, err)
							} else {
								c.Failf("batch size %d: %s differs from that of the whole circuit", b, f)
							}
							return
						}
					}
					c.Trace()
				}
			}
			run := func(c *Ctx, circ *Circ, p *P1) { ran(c, circ, initialize2(c, circ, p)) }
			for _, power := range sparsePowers() {
				g.Case(fmt.Sprintf("power=%d", power), func(c *Ctx) {
					p := ph1For(2, "one")
					if !sparse1("in.ph1", p, power) {
						c.Count("no_large_files")
						return
					}
					circ := generic(2, 1, 2, 3)
					ran(c, circ, initialized2(c, circ, p))
				})
			}
			for pub := 1; pub <= 3; pub++ {
				for sec := 0; sec <= 2; sec++ {
					for in := 0; in <= 2; in++ {
						for _, n := range []int{1, 2, 3, 4, 5, 8, 9} {
							pub, sec, in, n := pub, sec, in, n
							g.Case(fmt.Sprintf("dims/pub=%d,sec=%d,int=%d,cons=%d", pub, sec, in, n), func(c *Ctx) {
								run(c, generic(pub, sec, in, n), ph1For(log2(domainOf(n))+n%2, "one"))
							})
						}
					}
				}
			}
			for _, d := range hugeCircuits[:4] {
				g.Case(fmt.Sprintf("large/%v", d), func(c *Ctx) {
					run(c, generic(d[0], d[1], d[2], d[3]), ph1For(log2(domainOf(d[3])), "one"))
				})
			}
			for _, kind := range []string{"new", "root", "ppot"} {
				kind := kind
				g.Case("ph1="+kind, func(c *Ctx) { run(c, generic(2, 1, 2, 5), ph1For(4, kind)) })
			}
			es := exprs(1)
			if g.Thorough() {
				es = exprs(2)
			}
			for i, l := range es {
				for j, o := range es {
					r := es[(i+j)%len(es)]
					l, o := l, o
					g.Case(fmt.Sprintf("one/(%s)(%s)=%s", l.k, r.k, o.k), func(c *Ctx) {
						run(c, &Circ{Pub: 2, Sec: 1, Int: 1, Cons: []Con{{l.v, r.v, o.v}}}, ph1For(1, "one"))
					})
				}
			}
			lazies(g.Thorough(), func(name string, circ *Circ) {
				g.Case(name, func(c *Ctx) { run(c, circ, ph1For(log2(domainOf(len(circ.Cons))), "one")) })
			})
			commitments(g.Thorough(), func(name string, circ *Circ) {
				g.Case(name, func(c *Ctx) { run(c, circ, ph1For(log2(domainOf(len(circ.Cons))), "one")) })
			})
		}})
}

// splitR1CS dumps the circuit of a file split with each of the batch sizes, into parts<batch size>/s.* (in
// another process, because gnark's dump collects garbage several times).
func splitR1CS(file string, bs ...int) {
	a := []string{"split", file}
	for _, b := range bs {
		a = append(a, fmt.Sprint(b))
	}
	if out, err := exec.Command("/proc/self/exe", a...).CombinedOutput(); err != nil {
		panic(fmt.Sprintf("split: %v %s", err, out))
	}
}

func splitMain(file string, bs []string) {
	for _, s := range bs {
		b, err := strconv.Atoi(s)
		mustNil(err)
		var r cs_bn254.R1CS
		f, err := os.Open(file)
		mustNil(err)
		_, err = r.ReadFrom(f)
		mustNil(err)
		f.Close()
		dir := "parts" + s
		mustNil(cleanDir(dir))
		mustNil(r.SplitDumpBinary(dir+"/s", b))
	}
}

// commitments calls f for circuits with every set of committed wires.
func commitments(thorough bool, f func(name string, c *Circ)) {
	dims := [][3]int{{2, 1, 2}, {3, 2, 2}}
	if thorough {
		dims = append(dims, [3]int{1, 3, 3}, [3]int{4, 2, 3})
	}
	for _, d := range dims {
		w := d[0] + d[1] + d[2]
		for idx := d[0] + d[1]; idx < w; idx++ { // the commitment is an internal wire
			for set := 1; set < 1<<w; set++ {
				if set&1 != 0 || set>>idx&1 != 0 { // neither the wire 1 nor the commitment itself
					continue
				}
				c := generic(d[0], d[1], d[2], 3+set%3)
				for i := 0; i < w; i++ {
					if set>>i&1 != 0 {
						c.Committed = append(c.Committed, i)
					}
				}
				c.CommitIdx = idx
				f(fmt.Sprintf("commit/%v/%v->%d", d, c.Committed, idx), c)
			}
		}
	}
	// Larger ones: every few wires committed, or all the public, secret or internal ones, with more constraints.
	for _, d := range [][3]int{{5, 10, 45}, {40, 3, 17}, {2, 60, 40}} {
		w := d[0] + d[1] + d[2]
		for _, idx := range []int{d[0] + d[1], w - 1} {
			for _, sel := range []struct {
				name string
				in   func(i int) bool
			}{
				{"all", func(i int) bool { return true }},
				{"even", func(i int) bool { return i%2 == 0 }},
				{"third", func(i int) bool { return i%3 == 1 }},
				{"public", func(i int) bool { return i < d[0] }},
				{"secret", func(i int) bool { return i >= d[0] && i < d[0]+d[1] }},
				{"internal", func(i int) bool { return i >= d[0]+d[1] }},
				{"last", func(i int) bool { return i >= w-2 }},
			} {
				c := generic(d[0], d[1], d[2], 30+w%7)
				for i := 1; i < w; i++ {
					if i != idx && sel.in(i) {
						c.Committed = append(c.Committed, i)
					}
				}
				c.CommitIdx = idx
				f(fmt.Sprintf("commit/%v/%s->%d", d, sel.name, idx), c)
			}
		}
	}
}
