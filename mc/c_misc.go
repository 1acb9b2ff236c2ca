package main

import (
	"bytes"
	"fmt"
	"math/big"
	"os"
	"regexp"
	"strings"
	"time"

	"github.com/bnb-chain/zkbnb-setup/keys"
	"github.com/bnb-chain/zkbnb-setup/phase1"
	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fp"
	"github.com/consensys/gnark/backend/groth16"
	"github.com/consensys/gnark/frontend"
)

// ------------------------------------------- transformation (C15), capacity (C23), contract (C25), mixing (C26)

// response is a file of the Powers of Tau ceremony: hash, [τⁱ]₁, [τⁱ]₂, α[τⁱ]₁, β[τⁱ]₁, [β]₂, uncompressed.
func response(p *P1) []byte {
	var b bytes.Buffer
	b.Write(bytes.Repeat([]byte{0xa5, 0x00, 0xff, 0x17}, 16))
	s1 := func(es []E) {
		for _, p := range g1s(es) {
			b.Write(r1(p))
		}
	}
	s1(p.T1)
	for _, p := range g2s(p.T2) {
		b.Write(r2(p))
	}
	s1(p.A1)
	s1(p.B1)
	b.Write(r2(G2(p.B2)))
	return b.Bytes()
}

// distinct is a file whose parameters are all different and unrelated.
func distinct(power int) *P1 {
	p := newP1(power, unitBase)
	f := func(name string, s []E) {
		for i := range s {
			s[i] = erand(fmt.Sprint("distinct", name, i))
		}
	}
	f("t", p.T1)
	f("a", p.A1)
	f("b", p.B1)
	f("T", p.T2)
	p.B2 = erand("distinctB")
	return p
}

func cut(p *P1, power int) *P1 {
	n := 1 << power
	return &P1{Power: byte(power), T1: p.T1[:2*n-1], A1: p.A1[:n], B1: p.B1[:n], T2: p.T2[:n], B2: p.B2}
}

func init() {
	register(&Check{ID: "C15", Level: "model_checking",
		Rule:   "a case is one Powers of Tau file (powers of secrets or unrelated points, with or without what follows in a real response) and one pair of powers; the transformed file is compared byte by byte with the model's; files with an invalid point at each of the positions needed must be refused",
		Assume: []string{"the documented layout of responses, with gnark-crypto's uncompressed encoding of points"},
		Gen: func(g *Gen) {
			max := 8
			if g.Thorough() {
				max = 12
			}
			for in := 1; in <= max; in++ {
				for out := 1; out <= in; out++ {
					for _, kind := range []string{"powers", "distinct", "one"} {
						for tail := 0; tail <= 1; tail++ {
							in, out, kind, tail := in, out, kind, tail
							g.Case(fmt.Sprintf("%s/%d to %d/tail=%d", kind, in, out, tail), func(c *Ctx) {
								var p *P1
								switch kind {
								case "powers":
									p = newP1(in, ppotBase)
								case "one":
									p = newP1(in, unitBase)
								default:
									p = distinct(in)
								}
								b := response(p)
								writeFile("r", append(b, bytes.Repeat([]byte{0xee}, 500*tail)...))
								c.Transition()
								if err := callSafe(func() error { return phase1.Transform("r", "o.ph1", byte(in), byte(out)) }); err != nil {
									c.Failf("the transformation failed: %v", err)
									return
								}
								want := cut(p, out).bytes()
								got := readFile("o.ph1")
								c.State(got)
								if !bytes.Equal(got, want) {
									c.Failf("the transformed file differs from the leading parameters at byte %d (%d bytes rather than %d)", firstDiff(got, want), len(got), len(want))
								}
								if !bytes.Equal(readFile("r")[:len(b)], b) {
									c.Failf("the response was changed")
								}
								c.Trace()
							})
						}
					}
				}
			}
			transformed := func(c *Ctx, p *P1, out int) {
				writeFile("r", response(p))
				c.Transition()
				if err := callSafe(func() error { return phase1.Transform("r", "o.ph1", p.Power, byte(out)) }); err != nil {
					c.Failf("the transformation failed: %v", err)
					return
				}
				got, want := readFile("o.ph1"), cut(p, out).bytes()
				c.State(got)
				if !bytes.Equal(got, want) {
					c.Failf("the transformed file differs from the leading parameters at byte %d (%d bytes rather than %d)", firstDiff(got, want), len(got), len(want))
				}
				c.Trace()
			}
			// points with special coordinates, and sections of related points
			fill := func(power int, at func(i int) E) *P1 {
				p := distinct(power).clone()
				for s := 0; s < 4; s++ {
					sec := p.section(s)
					for i := range sec {
						sec[i] = at(i + s)
					}
				}
				p.B2 = at(4)
				return p
			}
			for _, v := range specialE() {
				for _, sign := range []E{oneE, ei(-1)} {
					g.Case(fmt.Sprintf("points/%s*%s", estr(sign), v.name), func(c *Ctx) {
						transformed(c, fill(3, func(i int) E { return emul(sign, v.e) }), 2)
					})
				}
			}
			wordsOf(3, func(name string, at func(i int) E) {
				g.Case("words/"+name, func(c *Ctx) { transformed(c, fill(5, at), 5) })
			})
			for _, io := range [][2]int{{12, 12}, {13, 12}, {14, 11}} {
				g.Case(fmt.Sprintf("large/%d to %d", io[0], io[1]), func(c *Ctx) {
					p := distinct(io[0])
					writeFile("r", response(p))
					c.Transition()
					if err := callSafe(func() error { return phase1.Transform("r", "o.ph1", byte(io[0]), byte(io[1])) }); err != nil {
						c.Failf("the transformation failed: %v", err)
						return
					}
					got, want := readFile("o.ph1"), cut(p, io[1]).bytes()
					c.State(got)
					if !bytes.Equal(got, want) {
						c.Failf("the transformed file differs from the leading parameters at byte %d (%d bytes rather than %d)", firstDiff(got, want), len(got), len(want))
					}
					c.Trace()
				})
			}
			// responses of all sizes
			for _, in := range sparsePowers() {
				for out := 1; out <= 3; out++ {
					g.Case(fmt.Sprintf("sparse/%d to %d", in, out), func(c *Ctx) {
						p := distinct(out)
						b := response(p)
						m, n := int64(p.N()), int64(1)<<in
						t2, a1, b1 := 64+64*(2*m-1), 64+64*(2*m-1)+128*m, 64+64*(2*m-1)+192*m
						at := 64 + 64*(2*n-1)
						if !writeSparse("r", at+256*n+128, map[int64][]byte{0: b[:t2], at: b[t2:a1], at + 128*n: b[a1:b1], at + 192*n: b[b1 : b1+64*m], at + 256*n: b[b1+64*m:]}) {
							c.Count("no_large_files")
							return
						}
						c.Transition()
						if err := callSafe(func() error { return phase1.Transform("r", "o.ph1", byte(in), byte(out)) }); err != nil {
							c.Failf("the transformation failed: %v", err)
							return
						}
						got, want := readFile("o.ph1"), p.bytes()
						c.State(got)
						if !bytes.Equal(got, want) {
							c.Failf("the transformed file differs from the leading parameters at byte %d (%d bytes rather than %d)", firstDiff(got, want), len(got), len(want))
						}
						c.Trace()
					})
				}
			}
			// an invalid point at each position that is needed
			maxBad := 3
			if g.Thorough() {
				maxBad = 4
			}
			for in := 1; in <= maxBad; in++ {
				for out := 1; out <= in; out++ {
					n, m := 1<<in, 1<<out
					off := 64
					for si, s := range []struct{ n, used, size int }{{2*n - 1, 2*m - 1, 64}, {n, m, 128}, {n, m, 64}, {n, m, 64}, {1, 1, 128}} {
						for i := 0; i < s.used; i++ {
							in, out, at, size := in, out, off+i*s.size, s.size
							g.CaseCrashOK(fmt.Sprintf("invalid/%d to %d/section %d/%d", in, out, si, i), func(c *Ctx) {
								b := response(distinct(in))
								b[at+size-1] ^= 1
								writeFile("r", b)
								c.Transition()
								err := callSafe(func() error { return phase1.Transform("r", "o.ph1", byte(in), byte(out)) })
								c.State(b)
								if err == nil {
									c.Failf("a response with a point that isn't on the curve was transformed")
								}
								c.Trace()
							})
						}
						off += s.n * s.size
					}
				}
			}
		}})

	register(&Check{ID: "C23", Level: "model_checking", NoGC: true,
		Rule:   "a case is one pair of a circuit's number of constraints and a phase 1 power, for the whole and the split circuit: the initialization succeeds (with the model's files) exactly when the power covers the domain; contributions at and below the maximal number of the format",
		Assume: []string{"the domain of a circuit is the least power of two from 2 on which is not below the number of constraints"},
		Gen: func(g *Gen) {
			maxN, maxP := 40, 6
			if g.Thorough() {
				maxN, maxP = 140, 8
			}
			type pair struct{ n, p int }
			var pairs []pair
			for n := 1; n <= maxN; n++ {
				for p := 1; p <= maxP; p++ {
					pairs = append(pairs, pair{n, p})
				}
			}
			for k := 6; k <= maxP+4; k++ {
				for d := -1; d <= 1; d++ {
					for p := k - 1; p <= k+1; p++ {
						if n := 1<<k + d; n > maxN || p > maxP {
							pairs = append(pairs, pair{n, p})
						}
					}
				}
			}
			for _, np := range pairs {
				{
					for split := 0; split <= 1; split++ {
						n, p, split := np.n, np.p, split
						g.CaseCrashOK(fmt.Sprintf("constraints=%d/power=%d/split=%d", n, p, split), func(c *Ctx) {
							circ := generic(2, 1, 1, n)
							ph1 := ph1For(p, "one")
							writeFile("in.ph1", ph1.bytes())
							writeR1CS(circ.build(), "c.r1cs")
							if split == 1 {
								splitR1CS("c.r1cs", 7)
							}
							c.Transition()
							err := callSafe(func() error {
								if split == 1 {
									return phase2.InitializeFromPartedR1CS("in.ph1", "parts7/s", "o.ph2", n, n, 7)
								}
								return phase2.Initialize("in.ph1", "c.r1cs", "o.ph2")
							})
							enough := domainOf(n) <= 1<<p
							c.State(fmt.Sprint(domainOf(n), p, split, enough))
							if enough {
								if err != nil {
									c.Failf("power %d covers %d constraints, but the initialization failed: %v", p, n, err)
									return
								}
								if err := circ.init2(ph1).compare("o.ph2"); err != nil {
									c.Failf("%v", err)
									return
								}
							} else if err == nil {
								c.Failf("the initialization for %d constraints (domain %d) succeeded with a phase 1 file of power %d", n, domainOf(n), p)
								return
							}
							c.Trace()
						})
					}
				}
			}
			for _, k := range []int{65533, 65534, 65535} {
				k := k
				g.CaseCrashOK(fmt.Sprintf("contributions=%d", k), func(c *Ctx) {
					// contributing doesn't look into the earlier records but for the last one
					p := honest1(1, 1, "")
					b := p.bytes()
					rec := b[len(b)-640:]
					b = append(b, bytes.Repeat(rec, k-1)...)
					b[1], b[2] = byte(k>>8), byte(k)
					writeFile("in.ph1", b)
					c.Transition()
					err := withRNG(newRNG("C23"), func() error { return phase1.Contribute("in.ph1", "out.ph1") })
					c.State(fmt.Sprint(k, err == nil))
					if k == 65535 {
						if err == nil {
							o := readFile("out.ph1")
							c.Failf("a contribution to a file of %d contributions succeeded: the number is now %d", k, int(o[1])<<8|int(o[2]))
						}
					} else if err != nil {
						c.Failf("the contribution to a file of %d contributions failed: %v", k, err)
					} else if o := readFile("out.ph1"); int(o[1])<<8|int(o[2]) != k+1 || len(o) != len(b)+640 || !bytes.Equal(o[len(o)-640*(k+1):len(o)-640], b[len(b)-640*k:]) {
						c.Failf("the contribution to a file of %d contributions isn't appended to them", k)
					}
					c.Trace()
				})
			}
		}})

	register(&Check{ID: "C25", Level: "model_checking", NoGC: true,
		Rule:   "a case is the verifying key of one circuit and ceremony: every constant of the contract exported from it is parsed and compared with the key; for compiled circuits the contract's verification equation is evaluated with those constants for proofs, and must hold for all true and for no other public inputs of small values",
		Assume: []string{"gnark's template of the contract: the constants are recognized by the names they are assigned to there"},
		Gen: func(g *Gen) {
			one := func(c *Ctx, name string) (*contract, bool) {
				vb := readFile(name + ".vk.save")
				v, err := parseVK(vb)
				mustNil(err)
				c.Transition()
				if err := callSafe(func() error { return keys.ExportSol(name) }); err != nil {
					c.Failf("the export failed: %v", err)
					return nil, false
				}
				k, err := parseSol(string(readFile(name + ".sol")))
				if err != nil {
					c.Failf("%v", err)
					return nil, false
				}
				if err := k.is(v.points); err != nil {
					c.Failf("%v", err)
					return nil, false
				}
				if !bytes.Equal(vb, readFile(name+".vk.save")) {
					c.Failf("the verifying key was changed")
				}
				// Export again over the contract of another key, made before, with and after the key at hand
				sol := readFile(name + ".sol")
				for _, age := range []time.Duration{-time.Hour, 0, time.Hour} {
					at := must1(os.Stat(name + ".vk.save")).ModTime().Add(age)
					writeFile(name+".sol", bytes.ReplaceAll(sol, []byte("1"), []byte("2")))
					mustNil(os.Chtimes(name+".sol", at, at))
					c.Transition()
					if err := callSafe(func() error { return keys.ExportSol(name) }); err != nil {
						c.Failf("the export over another contract failed: %v", err)
						return nil, false
					}
					if !bytes.Equal(sol, readFile(name+".sol")) {
						c.Failf("the contract of another key is still there after the export (its age relative to the key: %v)", age)
						return nil, false
					}
					c.Trace()
				}
				c.Trace()
				c.State(vb)
				return k, true
			}
			maxPub, few := 40, 6
			if g.Thorough() {
				maxPub, few = 130, 30
			}
			for pub := 1; pub <= maxPub; pub++ {
				for sec := 0; sec <= 2; sec++ {
					for in := 0; in <= 1; in++ {
						for _, n := range []int{1, 2, 3, 5} {
							if pub > few && (n != 3 || in != 0) {
								continue
							}
							pub, sec, in, n := pub, sec, in, n
							g.Case(fmt.Sprintf("dims/pub=%d,sec=%d,int=%d,cons=%d", pub, sec, in, n), func(c *Ctx) {
								circ := generic(pub, sec, in, n) // wires which occur nowhere have points at infinity
								if _, ok := ceremony2(c, circ, ph1For(log2(domainOf(n)), "one"), 1, ""); ok {
									if err := extract(true); err != nil {
										c.Failf("%v", err)
										return
									}
									one(c, "s")
								}
							})
						}
					}
				}
			}
			for _, name := range []string{"s", "a.b", "d/s"} {
				name := name
				g.Case("session="+name, func(c *Ctx) {
					mustNil(os.MkdirAll("d", 0o755))
					if _, ok := ceremony2(c, generic(3, 1, 1, 4), ph1For(2, "one"), 1, ""); ok {
						if err := withRNG(newRNG("x"), func() error { return keys.ExtractSplitKeys("k.ph2", name) }); err != nil {
							c.Failf("%v", err)
							return
						}
						one(c, name)
					}
				})
			}
			for _, f := range frontends(g.Thorough()) {
				f := f
				g.Case("ceremony/"+f.name, func(c *Ctx) {
					r := compile(f)
					if _, ok := ceremonyOf(c, r, log2(domainOf(r.GetNbConstraints())), 1, 1, 0); !ok {
						return
					}
					for _, split := range []bool{false, true} {
						if err := extract(split); err != nil {
							c.Failf("%v", err)
							return
						}
					}
					k, ok := one(c, "s")
					if !ok {
						return
					}
					free := map[int]bool{}
					for _, i := range f.free {
						free[i] = true
					}
					for i := 0; i < ipow(f.vals, f.n); i++ {
						v := digits(i, f.vals, f.n)
						if !f.sat(v) {
							continue
						}
						w := must1(frontend.NewWitness(f.assign(v), ecc.BN254.ScalarField()))
						proof, err := prove(r, true, w)
						if err != nil {
							c.Failf("no proof for %v: %v", v, err)
							return
						}
						for j := 0; j < ipow(f.vals+1, f.pub); j++ {
							u := digits(j, f.vals+1, f.pub)
							same := true
							for k := range u {
								same = same && (u[k] == v[k] || free[k])
							}
							c.Eval()
							if ok := k.verify(proof, u); ok != same {
								c.Failf("the contract's equation for the proof of %v and public inputs %v: %v", v, u, ok)
								return
							}
						}
					}
				})
			}
		}})

	register(&Check{ID: "C26", Level: "model_checking", NoGC: true,
		Rule: "a case is an ordered pair of different circuits: the extraction (whole and split) of the keys from the final phase 2 file of the one with the evaluations of the other next to it must fail",
		Gen: func(g *Gen) {
			type shape struct {
				name string
				c    *Circ
			}
			var l []shape
			for pub := 1; pub <= 3; pub++ {
				for sec := 0; sec <= 2; sec++ {
					for in := 0; in <= 2; in++ {
						l = append(l, shape{fmt.Sprintf("%d.%d.%d", pub, sec, in), generic(pub, sec, in, 3)})
					}
				}
			}
			commit := func(pub, sec, in int, ws ...int) {
				c := generic(pub, sec, in, 3)
				c.Committed, c.CommitIdx = ws, pub+sec+in-1
				l = append(l, shape{fmt.Sprintf("%d.%d.%d%v", pub, sec, in, ws), c})
			}
			commit(2, 1, 2, 1)
			commit(2, 1, 2, 2)
			commit(2, 1, 2, 2, 3)
			commit(1, 2, 2, 1)
			commit(3, 1, 2, 3, 4)
			commit(3, 1, 2, 2, 4)
			// the same dimensions, other constraints
			l = append(l, shape{"2.1.1 five constraints", generic(2, 1, 1, 5)}, shape{"2.1.1 other constraints", func() *Circ {
				c := generic(2, 1, 1, 3)
				c.Cons[0].L = []T{tm(oneE, 1)}
				return c
			}()})
			dims := func(c *Circ) string {
				h := c.init2(ph1For(3, "one")).P2.H
				return fmt.Sprint(h.Wires, h.Public, h.PrivateCommitted)
			}
			for i := range l {
				for j := range l {
					if i == j {
						continue
					}
					a, b := l[i], l[j]
					same := dims(a.c) == dims(b.c)
					if same && !(strings.HasPrefix(a.name, "2.1.1") && strings.HasPrefix(b.name, "2.1.1")) {
						continue // some of these even have the same matrices
					}
					for split := 0; split <= 1; split++ {
						split := split
						key := fmt.Sprintf("phase2 of %s/evals of %s/split=%d", a.name, b.name, split)
						if same {
							key = "same dimensions: " + key
						}
						g.CaseCrashOK(key, func(c *Ctx) {
							if initialize2(c, b.c, ph1For(3, "one")) == nil {
								return
							}
							mustNil(os.Rename("evals", "evals.b"))
							if _, ok := ceremony2(c, a.c, ph1For(3, "one"), 1, ""); !ok {
								return
							}
							mustNil(os.Rename("evals.b", "evals"))
							c.Transition()
							err := extract(split == 1)
							c.State(key, err == nil)
							if err == nil {
								c.Failf("keys were assembled from the phase 2 file of one circuit and the evaluations of another")
							}
							c.Trace()
						})
					}
				}
			}
		}})
}

// contract are the constants of an exported contract.
type contract struct {
	alpha              [2]string
	beta, gamma, delta [4]string // x1, x0, y1, y0
	k                  [][2]string
	inputs             string
}

var (
	solNum   = regexp.MustCompile(`uint256\((\d+)\)`)
	solInput = regexp.MustCompile(`uint256\[(\d+)\] calldata input`)
	solMulIn = regexp.MustCompile(`mul_input\[2\] = input\[(\d+)\];`)
)

func parseSol(s string) (*contract, error) {
	k := &contract{}
	nums := func(line string) []string {
		var r []string
		for _, m := range solNum.FindAllStringSubmatch(line, -1) {
			r = append(r, m[1])
		}
		return r
	}
	var cur [2]string
	order := []string{}
	for _, line := range strings.Split(s, "\n") {
		t := strings.TrimSpace(line)
		n := nums(t)
		switch {
		case strings.HasPrefix(t, "vk.alfa1 =") && len(n) == 2:
			copy(k.alpha[:], n)
		case strings.HasPrefix(t, "vk.beta2 =") && len(n) == 4:
			copy(k.beta[:], n)
		case strings.HasPrefix(t, "vk.gamma2 =") && len(n) == 4:
			copy(k.gamma[:], n)
		case strings.HasPrefix(t, "vk.delta2 =") && len(n) == 4:
			copy(k.delta[:], n)
		case strings.HasPrefix(t, "vk_x.X =") && len(n) == 1:
			cur[0] = n[0]
		case strings.HasPrefix(t, "vk_x.Y =") && len(n) == 1:
			cur[1] = n[0]
			k.k = append(k.k, cur)
		case strings.HasPrefix(t, "mul_input[0] =") && len(n) == 1:
			cur[0] = n[0]
		case strings.HasPrefix(t, "mul_input[1] =") && len(n) == 1:
			cur[1] = n[0]
			k.k = append(k.k, cur)
		}
		if m := solMulIn.FindStringSubmatch(t); m != nil {
			order = append(order, m[1])
		}
		if m := solInput.FindStringSubmatch(t); m != nil {
			k.inputs = m[1]
		}
	}
	for i, o := range order {
		if o != fmt.Sprint(i) {
			return nil, fmt.Errorf("the %d-th point of K is multiplied by input %s", i+1, o)
		}
	}
	if len(k.k) == 0 || len(order) != len(k.k)-1 {
		return nil, fmt.Errorf("%d points of K for %d inputs in the contract", len(k.k), len(order))
	}
	if k.inputs != fmt.Sprint(len(k.k)-1) {
		return nil, fmt.Errorf("the contract takes %s inputs rather than %d", k.inputs, len(k.k)-1)
	}
	return k, nil
}

// is compares the constants with the points of a verifying key.
func (k *contract) is(points []byte) error {
	num := func(b []byte) string { return new(big.Int).SetBytes(b).String() }
	c1 := func(name string, got [2]string, b []byte) error {
		x, y := num(b[:32]), num(b[32:64])
		if b[0]&0xc0 == 0x40 { // the point at infinity
			x, y = "0", "0"
		}
		if got != [2]string{x, y} {
			return fmt.Errorf("%s of the contract isn't that of the verifying key", name)
		}
		return nil
	}
	c2 := func(name string, got [4]string, b []byte) error {
		if got != [4]string{num(b[:32]), num(b[32:64]), num(b[64:96]), num(b[96:128])} {
			return fmt.Errorf("%s of the contract isn't that of the verifying key", name)
		}
		return nil
	}
	if err := c1("α", k.alpha, points); err != nil {
		return err
	}
	if err := c2("β", k.beta, points[128:]); err != nil {
		return err
	}
	if err := c2("γ", k.gamma, points[256:]); err != nil {
		return err
	}
	if err := c2("δ", k.delta, points[448:]); err != nil {
		return err
	}
	ks := points[580:]
	if len(k.k) != len(ks)/64 {
		return fmt.Errorf("the contract has %d points of K rather than %d", len(k.k), len(ks)/64)
	}
	for i := range k.k {
		if err := c1(fmt.Sprintf("K[%d]", i), k.k[i], ks[64*i:]); err != nil {
			return err
		}
	}
	return nil
}

func fpOf(s string) (e fp.Element) {
	_, err := e.SetString(s)
	mustNil(err)
	return
}
func g1Of(s [2]string) bn254.G1Affine { return bn254.G1Affine{X: fpOf(s[0]), Y: fpOf(s[1])} }
func g2Of(s [4]string) (p bn254.G2Affine) {
	p.X.A1, p.X.A0, p.Y.A1, p.Y.A0 = fpOf(s[0]), fpOf(s[1]), fpOf(s[2]), fpOf(s[3])
	return
}

// verify evaluates e(−A, B)·e(α, β)·e(K₀+Σ inputᵢKᵢ₊₁, γ)·e(C, δ) = 1 with the constants of the contract.
func (k *contract) verify(proof groth16.Proof, in []int) bool {
	var b bytes.Buffer
	_, err := proof.WriteRawTo(&b)
	mustNil(err)
	p := b.Bytes()
	var A, C bn254.G1Affine
	var B bn254.G2Affine
	_, err = A.SetBytes(p[:64])
	mustNil(err)
	_, err = B.SetBytes(p[64:192])
	mustNil(err)
	_, err = C.SetBytes(p[192:256])
	mustNil(err)
	A.Neg(&A)
	x := g1Of(k.k[0])
	for i, v := range in {
		var t bn254.G1Affine
		q := g1Of(k.k[i+1])
		t.ScalarMultiplication(&q, big.NewInt(int64(v)))
		x.Add(&x, &t)
	}
	ok, err := bn254.PairingCheck([]bn254.G1Affine{A, g1Of(k.alpha), x, C}, []bn254.G2Affine{B, g2Of(k.beta), g2Of(k.gamma), g2Of(k.delta)})
	mustNil(err)
	return ok
}
