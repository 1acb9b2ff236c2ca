package main

import (
	"bytes"
	"fmt"

	"github.com/bnb-chain/zkbnb-setup/phase2"
)

// ------------------------------------------------------------------------------------------ phase 2 checks

func verify2(o *P2) error {
	writeFile("origin.ph2", o.bytes())
	return callSafe(func() error { return phase2.Verify("in.ph2", "origin.ph2") })
}

func contribute2(c *Ctx, p *P2, script, seed string) *P2 {
	rng := newRNG(seed)
	rng.Script = scriptOf(script)
	return contribute2rng(c, p, rng)
}

func contribute2rng(c *Ctx, p *P2, rng *RNG) *P2 {
	in := readFile("in.ph2")
	c.Transition()
	if err := withRNG(rng, func() error { return phase2.Contribute("in.ph2", "out.ph2") }); err != nil {
		c.Failf("the contribution failed: %v", err)
		return nil
	}
	if !bytes.Equal(in, readFile("in.ph2")) {
		c.Failf("the input of the contribution was changed")
		return nil
	}
	q, err := checkContribution2(p, readFile("out.ph2"), rng.candidates())
	if err != nil {
		c.Failf("%v", err)
		return nil
	}
	c.Trace()
	c.State(q.bytes())
	return q
}

// padHeaders are headers of 32 consecutive lengths (the integers take 1 to 9 bytes).
func padHeaders(n int) []phase2.Header {
	var l []phase2.Header
	seen := map[int]bool{}
	vals := []int{1, 100, 1 << 8, 1 << 16, 1 << 24, 1 << 32, 1 << 40, 1 << 48, 1 << 56}
	for a := range vals {
		for b := range vals {
			for d := range vals {
				for e := range vals {
					if a < b || b < d || d < e {
						continue
					}
					h := phase2.Header{Wires: vals[a], Public: vals[b], PrivateCommitted: vals[d], Constraints: vals[e], Domain: 4, Witness: 100, Contributions: 1}
					if k := len(gobOf(h)); !seen[k] {
						seen[k] = true
						l = append(l, h)
						if len(l) == n {
							return l
						}
					}
				}
			}
		}
	}
	return l
}

// largeDims are numbers of constraints and private wires beyond those that are enumerated.
var largeDims = [][2]int{{16, 15}, {32, 31}, {64, 63}, {64, 65}, {128, 17}, {128, 130}, {256, 100}, {256, 257}, {512, 3}, {512, 700}, {1024, 1000}, {2048, 10}, {2, 1500}, {4096, 5000}, {16384, 3}, {2, 20000}, {4, 70000}, {131072, 1}}

func init() {
	register(&Check{ID: "C05", Level: "model_checking",
		Rule:   "a case is one history of contributions over the dimensions of the parameters, the number of earlier contributions, every alignment of the file against the 4096-byte buffers, and the answers of the entropy source to each draw; every file written is compared byte by byte with the model's",
		Assume: []string{"the group operations and encodings of gnark-crypto", "secrets are drawn with fr.Element.SetRandom; any order of the draws is accepted"},
		Gen: func(g *Gen) {
			ks := []int{0, 1, 2, 5}
			wit := []int{0, 1, 2, 3, 7}
			dom := []int{2, 4, 8}
			if g.Thorough() {
				ks, wit, dom = []int{0, 1, 2, 3, 4, 5, 8, 16}, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 33}, []int{2, 4, 8, 16, 32, 64}
			}
			for _, d := range dom {
				for _, w := range wit {
					for _, k := range ks {
						d, w, k := d, w, k
						g.Case(fmt.Sprintf("contribute/domain=%d/witness=%d/after=%d", d, w, k), func(c *Ctx) {
							p := origin2(d, w, plainHeader).honest(k)
							writeFile("in.ph2", p.bytes())
							contribute2(c, p, "", "C05")
						})
					}
				}
			}
			for _, dw := range largeDims {
				g.Case(fmt.Sprintf("large/domain=%d/witness=%d", dw[0], dw[1]), func(c *Ctx) {
					p := origin2(dw[0], dw[1], plainHeader).honest(1)
					writeFile("in.ph2", p.bytes())
					contribute2(c, p, "", "C05l")
				})
			}
			for k := 0; k < 3; k++ {
				for _, w := range words([]string{"r", "1", "-", "x", "2"}, 3) {
					k, w := k, w
					g.Case(fmt.Sprintf("draws/after=%d/%s", k, w), func(c *Ctx) {
						p := origin2(4, 2, plainHeader).honest(k)
						writeFile("in.ph2", p.bytes())
						contribute2(c, p, w, "C05d")
					})
				}
			}
			genSpecialContrib2(g)
			genWords2(g, false)
			// every alignment of the contributions against a buffer
			for hi, h := range padHeaders(32) {
				for w := 0; w < 6; w++ {
					hi, h, w := hi, h, w
					g.Case(fmt.Sprintf("aligned/%d.%d", hi, w), func(c *Ctx) {
						p := origin2(4, 112+w, h)
						p.H.Contributions = 0
						p = p.honest(3)
						writeFile("in.ph2", p.bytes())
						contribute2(c, p, "", "C05a")
					})
				}
			}
			for _, dw := range [][2]int{{2, 1}, {4, 3}, {8, 5}} {
				dw := dw
				g.Case(fmt.Sprintf("history/%v", dw), func(c *Ctx) {
					p := origin2(dw[0], dw[1], plainHeader)
					writeFile("in.ph2", p.bytes())
					for i := 0; i < 6; i++ {
						if p = contribute2(c, p, "", fmt.Sprint("C05h", i)); p == nil {
							return
						}
						writeFile("in.ph2", readFile("out.ph2"))
					}
				})
			}
			for _, k := range []int{63, 127, 128, 255, 256} {
				k := k
				g.Case(fmt.Sprintf("contribute/after=%d", k), func(c *Ctx) {
					p := origin2(2, 1, plainHeader).honest(k)
					writeFile("in.ph2", p.bytes())
					contribute2(c, p, "", "C05n")
				})
			}
		}})

	register(&Check{ID: "C06", Level: "model_checking",
		Rule:   "a case is an honest phase 2 ceremony (dimensions, lengths, every alignment of the contributions against the 4096-byte buffers, answers of the entropy source); the verifier must accept each of its files against the origin",
		Assume: []string{"files of the model are those of honest contributors (C05 shows that the code writes the same)"},
		Gen: func(g *Gen) {
			accept := func(c *Ctx, p, o *P2) {
				b := p.bytes()
				writeFile("in.ph2", b)
				c.State(b)
				c.Transition()
				if err := verify2(o); err != nil {
					c.Failf("an honest ceremony was rejected: %v", err)
					return
				}
				c.Trace()
			}
			ks := []int{1, 2, 3, 6}
			wit := []int{0, 1, 2, 3, 5, 8}
			dom := []int{2, 4, 8}
			if g.Thorough() {
				ks, wit, dom = []int{1, 2, 3, 4, 5, 6, 9, 16}, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 33, 64, 65}, []int{2, 4, 8, 16, 32, 64, 128}
			}
			for _, d := range dom {
				for _, w := range wit {
					for _, k := range ks {
						d, w, k := d, w, k
						g.Case(fmt.Sprintf("model/domain=%d/witness=%d/k=%d", d, w, k), func(c *Ctx) {
							o := origin2(d, w, plainHeader)
							accept(c, o.honest(k), o)
						})
					}
				}
			}
			for _, dw := range largeDims {
				g.Case(fmt.Sprintf("large/domain=%d/witness=%d", dw[0], dw[1]), func(c *Ctx) {
					o := origin2(dw[0], dw[1], plainHeader)
					accept(c, o.honest(2), o)
				})
			}
			for hi, h := range padHeaders(32) {
				for w := 0; w < 6; w++ {
					hi, h, w := hi, h, w
					g.Case(fmt.Sprintf("aligned/%d.%d", hi, w), func(c *Ctx) {
						o := origin2(4, 112+w, h)
						o.H.Contributions = 0
						accept(c, o.honest(3), o)
					})
				}
			}
			for _, k := range []int{63, 64, 127, 128, 255, 256, 257} {
				k := k
				g.Case(fmt.Sprintf("model/long/k=%d", k), func(c *Ctx) {
					o := origin2(2, 1, plainHeader)
					accept(c, o.honest(k), o)
				})
			}
			genSpecialAccept2(g)
			genWords2(g, true)
			// points at infinity and equal points in the origin
			for m := 0; m < 1<<5; m++ {
				m := m
				g.Case(fmt.Sprintf("degenerate origin/%05b", m), func(c *Ctx) {
					o := origin2(4, 2, plainHeader)
					for i := 0; i < 5; i++ {
						if m>>i&1 == 1 {
							if i < 3 {
								o.Z[i] = zeroE
							} else {
								o.PKK[i-3] = zeroE
							}
						}
					}
					accept(c, o.honest(2), o)
				})
			}
			for _, w := range words([]string{"r", "1", "-", "x", "2"}, 3) {
				w := w
				g.Case("coefficients/draws="+w, func(c *Ctx) {
					rng := newRNG("C06")
					rng.Script = scriptOf(w + w + w + w + w + w)
					o := origin2(4, 2, plainHeader)
					p := o.honest(1)
					withRNG(rng, func() error { accept(c, p, o); return nil })
					c.State("coef", w)
				})
				g.Case("real/draws="+w, func(c *Ctx) {
					o := origin2(4, 3, plainHeader)
					writeFile("in.ph2", o.bytes())
					for i := 0; i < 3; i++ {
						rng := newRNG(fmt.Sprint("C06r", i))
						rng.Script = scriptOf(w)
						if err := withRNG(rng, func() error { return phase2.Contribute("in.ph2", "out.ph2") }); err != nil {
							c.Failf("contribution %d: %v", i+1, err)
							return
						}
						b := readFile("out.ph2")
						writeFile("in.ph2", b)
						c.State(b)
						c.Transition()
						if err := verify2(o); err != nil {
							c.Failf("contribution %d of an honest ceremony was rejected: %v", i+1, err)
							return
						}
						c.Trace()
					}
				})
			}
		}})

	register(&Check{ID: "C07", Level: "model_checking",
		Rule:   "a case is an honest phase 2 ceremony with its parameters or header modified (every site, every pair by cancelling errors, tails, prefixes, whole sections, δ in either group, every header field, encodings, missing and additional points), or another origin; the model tells which are wrong and the verifier must reject each",
		Assume: []string{"the pairing of gnark-crypto; the verifier's coefficients are random"},
		Gen:    genC07})
	register(&Check{ID: "C08", Level: "model_checking",
		Rule:   "a case is an honest phase 2 ceremony with its transcript modified (fields and pairs of fields, re-hashed or not, re-chained or not; contributions dropped, duplicated, swapped, replayed, moved, forged without a secret; header counts); the model tells which are wrong and the verifier must reject each",
		Assume: []string{"the pairing and hash to curve of gnark-crypto, SHA-256"},
		Gen:    genC08})
}

func reject2(c *Ctx, b []byte, o *P2, why string) {
	if why == "" {
		c.Count("still_valid")
		return
	}
	writeFile("in.ph2", b)
	c.State(b, o.bytes())
	c.Transition()
	if err := verify2(o); err == nil {
		c.Failf("the verifier accepted the file, although it is wrong: %s", why)
		return
	}
	c.Trace()
	c.Count("rejected")
}

func accept2(g *Gen, key string, p, o *P2) {
	g.Case("unmodified/"+key, func(c *Ctx) {
		b := p.bytes()
		writeFile("in.ph2", b)
		c.State(b)
		c.Transition()
		if err := verify2(o); err != nil {
			c.Failf("the honest file was rejected: %v", err)
			return
		}
		c.Trace()
	})
}

type cfg2 struct{ dom, wit, k int }

func genC07(g *Gen) {
	cfgs := []cfg2{{2, 1, 1}, {2, 0, 1}, {4, 2, 1}, {4, 3, 2}, {8, 5, 1}}
	if g.Thorough() {
		cfgs = append(cfgs, cfg2{2, 1, 2}, cfg2{4, 4, 3}, cfg2{8, 9, 2}, cfg2{16, 17, 1}, cfg2{32, 3, 1})
	}
	genHuge2(g)
	genParams2(g, cfgs)
	genOutside2(g, false)
	// every single site of larger files
	for _, f := range []cfg2{{32, 40, 1}, {128, 9, 1}, {4, 150, 2}} {
		o := origin2(f.dom, f.wit, plainHeader)
		p := o.honest(f.k)
		name := fmt.Sprintf("large/domain=%d/witness=%d", f.dom, f.wit)
		accept2(g, name, p, o)
		for i := 0; i < f.dom-1+f.wit; i++ {
			for _, how := range []string{"wrong", "zero"} {
				g.Case(fmt.Sprintf("%s/%d %s", name, i, how), func(c *Ctx) {
					q := p.clone()
					e := &q.Z
					j := i
					if i >= f.dom-1 {
						e, j = &q.PKK, i-f.dom+1
					}
					v := eadd((*e)[j], oneE)
					if how == "zero" {
						v = zeroE
					}
					(*e)[j] = v
					reject2(c, q.bytes(), o, q.why(o))
				})
			}
		}
	}
}

func genHuge2(g *Gen) {
	for _, f := range []cfg2{{4, 70000, 1}, {131072, 5, 1}, {4096, 5000, 1}} {
		n := f.dom - 1 + f.wit
		for _, i := range []int{1023, 4093, 4095, 4096, 4097, 9094, 65535, 65536, n - 6, n - 1} {
			if i >= n || n > 10000 && i < 65535 {
				continue
			}
			g.Case(fmt.Sprintf("large/domain=%d/witness=%d/%d wrong", f.dom, f.wit, i), func(c *Ctx) {
				o := memoize(fmt.Sprint("huge2|", f), func() *P2 { return origin2(f.dom, f.wit, plainHeader) })
				q := memoize(fmt.Sprint("huge2h|", f), func() *P2 { return o.honest(f.k) }).clone()
				e := &q.Z
				j := i
				if i >= f.dom-1 {
					e, j = &q.PKK, i-f.dom+1
				}
				(*e)[j] = eadd((*e)[j], oneE)
				reject2(c, q.bytes(), o, q.why(o))
			})
		}
	}
}

func genParams2(g *Gen, cfgs []cfg2) {
	d := erand("adv07")
	for _, f := range cfgs {
		o := origin2(f.dom, f.wit, plainHeader)
		p := o.honest(f.k)
		name := fmt.Sprintf("domain=%d/witness=%d/k=%d", f.dom, f.wit, f.k)
		accept2(g, name, p, o)
		m := func(what string, fn func(q *P2)) {
			g.Case(name+"/"+what, func(c *Ctx) {
				q := p.clone()
				fn(q)
				reject2(c, q.bytes(), o, q.why(o))
			})
		}
		sec := func(q *P2, s int) []E {
			if s == 0 {
				return q.Z
			}
			return q.PKK
		}
		delta := p.D1
		for s, sn := range []string{"Z", "PKK"} {
			n := len(sec(p, s))
			for i := 0; i < n; i++ {
				set := func(what string, fn func(x []E) E) {
					m(fmt.Sprintf("%s[%d]=%s", sn, i, what), func(q *P2) { x := sec(q, s); x[i] = fn(x) })
				}
				set("0", func(x []E) E { return zeroE })
				set("1", func(x []E) E { return oneE })
				set("random", func(x []E) E { return d })
				set("double", func(x []E) E { return eadd(x[i], x[i]) })
				set("negated", func(x []E) E { return eneg(x[i]) })
				set("origin", func(x []E) E { return sec(o, s)[i] })
				set("times delta squared", func(x []E) E { return emul(sec(o, s)[i], delta) })
				set("plus1", func(x []E) E { return eadd(x[i], oneE) })
				for j := 0; j < n; j++ {
					if i == j {
						continue
					}
					if j > i {
						m(fmt.Sprintf("%s[%d]<->[%d]", sn, i, j), func(q *P2) { x := sec(q, s); x[i], x[j] = x[j], x[i] })
					}
					m(fmt.Sprintf("%s[%d]+d,[%d]-d", sn, i, j), func(q *P2) { x := sec(q, s); x[i], x[j] = eadd(x[i], d), esub(x[j], d) })
					m(fmt.Sprintf("%s[%d]<-[%d]", sn, i, j), func(q *P2) { x := sec(q, s); x[i] = x[j] })
				}
				// across the sections
				for j := range sec(p, 1-s) {
					m(fmt.Sprintf("%s[%d]<->other[%d]", sn, i, j), func(q *P2) { x, y := sec(q, s), sec(q, 1-s); x[i], y[j] = y[j], x[i] })
					m(fmt.Sprintf("%s[%d]+d,other[%d]-d", sn, i, j), func(q *P2) { x, y := sec(q, s), sec(q, 1-s); x[i], y[j] = eadd(x[i], d), esub(y[j], d) })
				}
				m(fmt.Sprintf("%s[%d:] scaled", sn, i), func(q *P2) {
					for j := i; j < n; j++ {
						sec(q, s)[j] = emul(sec(q, s)[j], d)
					}
				})
				m(fmt.Sprintf("%s[:%d] scaled", sn, i), func(q *P2) {
					for j := 0; j < i; j++ {
						sec(q, s)[j] = emul(sec(q, s)[j], d)
					}
				})
				m(fmt.Sprintf("%s[%d:] zero", sn, i), func(q *P2) {
					for j := i; j < n; j++ {
						sec(q, s)[j] = zeroE
					}
				})
				m(fmt.Sprintf("%s[%d:] of the origin", sn, i), func(q *P2) { copy(sec(q, s)[i:], sec(o, s)[i:]) })
				m(fmt.Sprintf("%s[:%d] of the origin", sn, i+1), func(q *P2) { copy(sec(q, s)[:i+1], sec(o, s)[:i+1]) })
			}
			m(sn+" multiplied by delta", func(q *P2) {
				for j := range sec(q, s) {
					sec(q, s)[j] = emul(sec(o, s)[j], delta)
				}
			})
			m(sn+" reversed", func(q *P2) {
				x := sec(q, s)
				for a, b := 0, len(x)-1; a < b; a, b = a+1, b-1 {
					x[a], x[b] = x[b], x[a]
				}
			})
			m(sn+" rotated", func(q *P2) {
				if x := sec(q, s); len(x) > 0 {
					f := x[0]
					copy(x, x[1:])
					x[len(x)-1] = f
				}
			})
			m(sn+" negated", func(q *P2) {
				for j := range sec(q, s) {
					sec(q, s)[j] = eneg(sec(q, s)[j])
				}
			})
		}
		if f.k > 1 {
			pr := o.honest(f.k - 1)
			m("Z of the previous contribution", func(q *P2) { copy(q.Z, pr.Z) })
			m("PKK of the previous contribution", func(q *P2) { copy(q.PKK, pr.PKK) })
			m("parameters of the previous contribution", func(q *P2) { copy(q.Z, pr.Z); copy(q.PKK, pr.PKK); q.D1, q.D2 = pr.D1, pr.D2 })
			m("deltas of the previous contribution", func(q *P2) { q.D1, q.D2 = pr.D1, pr.D2 })
		}
		for _, v := range []struct {
			n string
			e E
		}{{"0", zeroE}, {"1", oneE}, {"random", d}, {"negated", eneg(delta)}, {"inverse", einv(delta)}, {"squared", emul(delta, delta)}} {
			m("deltaG1="+v.n, func(q *P2) { q.D1 = v.e })
			m("deltaG2="+v.n, func(q *P2) { q.D2 = v.e })
			m("deltas="+v.n, func(q *P2) { q.D1, q.D2 = v.e, v.e })
			if !v.e.IsZero() {
				m("all parameters for delta="+v.n, func(q *P2) {
					q.D1, q.D2 = v.e, v.e
					for j := range q.Z {
						q.Z[j] = emul(o.Z[j], einv(v.e))
					}
					for j := range q.PKK {
						q.PKK[j] = emul(o.PKK[j], einv(v.e))
					}
				})
				m("all parameters but deltaG1 for delta="+v.n, func(q *P2) {
					q.D2 = v.e
					for j := range q.Z {
						q.Z[j] = emul(o.Z[j], einv(v.e))
					}
					for j := range q.PKK {
						q.PKK[j] = emul(o.PKK[j], einv(v.e))
					}
				})
			} else {
				m("all parameters zero with delta="+v.n, func(q *P2) {
					q.D1, q.D2 = v.e, v.e
					for j := range q.Z {
						q.Z[j] = zeroE
					}
					for j := range q.PKK {
						q.PKK[j] = zeroE
					}
				})
			}
		}
		// header
		fields := []struct {
			n string
			f func(h *phase2.Header) *int
		}{
			{"Wires", func(h *phase2.Header) *int { return &h.Wires }}, {"Witness", func(h *phase2.Header) *int { return &h.Witness }},
			{"Public", func(h *phase2.Header) *int { return &h.Public }}, {"PrivateCommitted", func(h *phase2.Header) *int { return &h.PrivateCommitted }},
			{"Constraints", func(h *phase2.Header) *int { return &h.Constraints }}, {"Domain", func(h *phase2.Header) *int { return &h.Domain }},
		}
		for _, fl := range fields {
			for _, v := range []int{-1, 1, 256} {
				if f.wit == 0 && fl.n == "Witness" && v < 0 || f.dom == 2 && fl.n == "Domain" && v < 0 {
					continue // nothing to read
				}
				m(fmt.Sprintf("header %s%+d", fl.n, v), func(q *P2) { *fl.f(&q.H) += v })
			}
			for _, gl := range fields {
				if fl.n != gl.n {
					m(fmt.Sprintf("header %s+1,%s-1", fl.n, gl.n), func(q *P2) { *fl.f(&q.H)++; *gl.f(&q.H)-- })
				}
			}
		}
		// dimensions consistent with the header, but not with the origin
		for _, v := range []string{"domain", "witness", "domain to witness", "witness to domain"} {
			m("dimensions: "+v, func(q *P2) {
				switch v {
				case "domain":
					q.H.Domain--
					q.Z = q.Z[:len(q.Z)-1]
				case "witness":
					if q.H.Witness > 0 {
						q.H.Witness--
						q.PKK = q.PKK[:len(q.PKK)-1]
					} else {
						q.H.Witness, q.PKK = 1, []E{d}
					}
				case "domain to witness":
					q.H.Domain, q.H.Witness = q.H.Domain-1, q.H.Witness+1
					q.PKK = append([]E{q.Z[len(q.Z)-1]}, q.PKK...)
					q.Z = q.Z[:len(q.Z)-1]
				case "witness to domain":
					if q.H.Witness == 0 {
						q.H.Wires++
						return
					}
					q.H.Domain, q.H.Witness = q.H.Domain+1, q.H.Witness-1
					q.Z = append(q.Z, q.PKK[0])
					q.PKK = q.PKK[1:]
				}
			})
		}
		// another origin
		for s := range 2 {
			for i := range sec(o, s) {
				g.Case(fmt.Sprintf("%s/origin %d[%d]", name, s, i), func(c *Ctx) {
					o2 := o.clone()
					sec(o2, s)[i] = d
					reject2(c, p.bytes(), o2, "the origin differs")
				})
			}
		}
		g.Case(name+"/origin instead of a contribution", func(c *Ctx) { reject2(c, o.bytes(), o, "no contribution") })
		// encodings
		raw := p.bytes()
		h := len(gobOf(p.H))
		n1 := len(p.Z) + len(p.PKK)
		for i := -1; i < n1; i++ {
			off := h
			if i >= 0 {
				off = h + 96 + 32*i
			}
			for _, kv := range sorted(badG1()) {
				g.Case(fmt.Sprintf("%s/encoding G1@%d %s", name, off-h, kv.k), func(c *Ctx) { reject2(c, replaceAt(raw, off, kv.v), o, "invalid encoding") })
			}
			g.Case(fmt.Sprintf("%s/missing@%d", name, off-h), func(c *Ctx) { reject2(c, spliceAt(raw, off, 32, nil), o, "a parameter is missing") })
			g.Case(fmt.Sprintf("%s/twice@%d", name, off-h), func(c *Ctx) {
				reject2(c, spliceAt(raw, off, 0, raw[off:off+32]), o, "there is a parameter too many")
			})
		}
		for _, kv := range sorted(badG2()) {
			g.Case(fmt.Sprintf("%s/encoding deltaG2 %s", name, kv.k), func(c *Ctx) { reject2(c, replaceAt(raw, h+32, kv.v), o, "invalid encoding") })
		}
		g.Case(name+"/encoding deltaG2 right up to a point outside of the subgroup", func(c *Ctx) {
			reject2(c, replaceAt(raw, h+32, addOutside(p.D2)), o, "outside of the subgroup")
		})
		if !(g.Thorough() || f.dom <= 4) {
			continue
		}
		vals := []E{zeroE, oneE, d}
		for i := 0; i < n1; i++ {
			for j := i + 1; j < n1; j++ {
				for vi := range vals {
					for vj := range vals {
						m(fmt.Sprintf("pair %d=v%d,%d=v%d", i, vi, j, vj), func(q *P2) {
							at := func(i int) *E {
								if i < len(q.Z) {
									return &q.Z[i]
								}
								return &q.PKK[i-len(q.Z)]
							}
							*at(i), *at(j) = vals[vi], vals[vj]
						})
					}
				}
			}
		}
	}
}

func genC08(g *Gen) {
	genSpecialReject2(g)
	genOutside2(g, true)
	d := erand("adv08")
	type cfg struct{ k int }
	ks := []int{1, 2, 3}
	if g.Thorough() {
		ks = []int{1, 2, 3, 4, 5}
	}
	type field struct {
		name string
		at   func(c *C2) *E
	}
	fields := []field{
		{"delta", func(c *C2) *E { return &c.D }}, {"s", func(c *C2) *E { return &c.PK.S }},
		{"sx", func(c *C2) *E { return &c.PK.SX }}, {"spx", func(c *C2) *E { return &c.PK.M }},
	}
	vals := []struct {
		n string
		f func(x E) E
	}{
		{"0", func(x E) E { return zeroE }}, {"1", func(x E) E { return oneE }}, {"random", func(x E) E { return d }},
		{"negated", eneg}, {"double", func(x E) E { return eadd(x, x) }}, {"inverse", einv}, {"scaled", func(x E) E { return emul(x, d) }},
	}
	for _, k := range ks {
		o := origin2(2, 1, plainHeader)
		p := o.honest(k)
		name := fmt.Sprintf("k=%d", k)
		accept2(g, name, p, o)
		try := func(what string, mk func() *P2) {
			g.Case(name+"/"+what, func(c *Ctx) { q := mk(); reject2(c, q.bytes(), o, q.why(o)) })
		}
		follow := func(q *P2) {
			l := q.Cs[len(q.Cs)-1].D
			q.D1, q.D2 = l, l
			i := einv(l)
			for j := range q.Z {
				q.Z[j] = emul(o.Z[j], i)
			}
			for j := range q.PKK {
				q.PKK[j] = emul(o.PKK[j], i)
			}
		}
		mut := func(what string, i int, fn func(c *C2)) {
			for _, mode := range []string{"rehashed", "same hash", "chained"} {
				try(fmt.Sprintf("#%d %s, %s", i+1, what, mode), func() *P2 {
					q := p.clone()
					old := q.Cs[i].hash()
					fn(&q.Cs[i])
					if mode == "same hash" {
						q.Cs[i].Hash = old
					}
					if mode == "chained" {
						for j := i + 1; j < len(q.Cs); j++ {
							x, s := sec2(j + 1)
							q.Cs[j] = C2{D: emul(q.Cs[j-1].D, x), PK: honestPK(s, x, q.Cs[j-1].hash(), 1)}
						}
						follow(q)
					}
					return q
				})
			}
		}
		for i := 0; i < k; i++ {
			for a, fa := range fields {
				for _, v := range vals {
					mut(fa.name+"="+v.n, i, func(c *C2) { *fa.at(c) = v.f(*fa.at(c)) })
				}
				for b, fb := range fields {
					if a != b {
						mut(fa.name+"<-"+fb.name, i, func(c *C2) { *fa.at(c) = *fb.at(c) })
					}
					if b > a {
						for _, v := range vals {
							for _, w := range vals {
								mut(fmt.Sprintf("%s=%s,%s=%s", fa.name, v.n, fb.name, w.n), i, func(c *C2) { *fa.at(c), *fb.at(c) = v.f(*fa.at(c)), w.f(*fb.at(c)) })
							}
						}
					}
				}
			}
			pk := func(what string, fn func(p *PK)) { mut(what, i, func(c *C2) { fn(&c.PK) }) }
			pk("proof for another challenge", func(p *PK) { p.Base.Chal = "x" + p.Base.Chal })
			pk("proof for the challenge and more", func(p *PK) { p.Base.Chal += "x" })
			if i > 0 {
				pk("proof for the empty challenge", func(p *PK) { p.Base.Chal = "" })
				pk("proof for the hash but its last byte", func(p *PK) { p.Base.Chal = p.Base.Chal[:31] })
			}
			if i > 1 {
				pk("proof for the challenge of the previous", func(q *PK) { q.Base.Chal = p.Cs[i-1].PK.Base.Chal })
			}
			for dst := byte(0); dst < 5; dst++ {
				if dst != 1 {
					pk(fmt.Sprintf("proof of domain %d", dst), func(p *PK) { p.Base.Dst = dst })
				}
			}
			pk("proof on the generator", func(p *PK) { p.Base.G2 = true })
			pk("proof for another s", func(p *PK) { p.Base.S = d })
			pk("proof for another sx", func(p *PK) { p.Base.SX = d })
			pk("all zero", func(p *PK) { *p = PK{Base: SPB{Chal: p.Base.Chal, Dst: 1}} })
			mut("zero throughout", i, func(c *C2) { c.PK = honestPK(c.PK.S, zeroE, []byte(c.PK.Base.Chal), 1); c.D = zeroE })
			mut("zero and s zero throughout", i, func(c *C2) { c.PK = honestPK(zeroE, zeroE, []byte(c.PK.Base.Chal), 1); c.D = zeroE })
			mut("key all zero, delta of an unknown secret", i, func(c *C2) { c.PK = honestPK(zeroE, zeroE, []byte(c.PK.Base.Chal), 1); c.D = d })
			mut("key of s zero", i, func(c *C2) { c.PK = honestPK(zeroE, c.PK.M, []byte(c.PK.Base.Chal), 1) })
			mut("key of another secret", i, func(c *C2) { c.PK = honestPK(c.PK.S, d, []byte(c.PK.Base.Chal), 1) })
			mut("delta of another secret", i, func(c *C2) { c.D = emul(c.D, d) })
			mut("hash zero", i, func(c *C2) { c.Hash = make([]byte, 32) })
			mut("hash of nothing", i, func(c *C2) { c.Hash = sum(nil) })
			for bit := 0; bit < 256; bit += 15 {
				mut(fmt.Sprintf("hash bit %d", bit), i, func(c *C2) { h := append([]byte{}, c.hash()...); h[bit/8] ^= 1 << (bit % 8); c.Hash = h })
			}
			if i > 0 {
				mut("hash of the previous", i, func(c *C2) { c.Hash = p.Cs[i-1].hash() })
				mut("hash over the previous too", i, func(c *C2) { c.Hash = sum(append(append([]byte{}, p.Cs[i-1].hash()...), c.body()...)) })
				mut("replay of the previous", i, func(c *C2) { *c = p.Cs[i-1] })
				mut("of the origin instead of the previous", i, func(c *C2) { x, s := sec2(i + 1); *c = o.contribute(x, s).Cs[0] })
				mut("of the origin with its proof for the previous", i, func(c *C2) { c.D = c.PK.M })
			}
			if i > 1 {
				mut("on the contribution before the previous", i, func(c *C2) { c.D = emul(p.Cs[i-2].D, c.PK.M) })
			}
			mut("of another ceremony", i, func(c *C2) {
				q := o.contribute(erand("q1"), erand("q2")).contribute(erand("q3"), erand("q4"))
				*c = q.Cs[1]
			})
			raw := p.bytes()
			end := len(raw) - rec2*k
			for _, off := range []int{0, 32, 64} {
				at := end + rec2*i + off
				for _, kv := range sorted(badG1()) {
					g.Case(fmt.Sprintf("%s/encoding #%d G1@%d %s", name, i+1, off, kv.k), func(c *Ctx) {
						reject2(c, rehash2(replaceAt(raw, at, kv.v), end, i), o, "invalid encoding")
					})
				}
			}
			for _, kv := range sorted(badG2()) {
				g.Case(fmt.Sprintf("%s/encoding #%d G2 %s", name, i+1, kv.k), func(c *Ctx) {
					reject2(c, rehash2(replaceAt(raw, end+rec2*i+96, kv.v), end, i), o, "invalid encoding")
				})
			}
		}
		seqs := [][]int{{}}
		for l := 1; l <= k+1; l++ {
			var nx [][]int
			for _, s := range seqs {
				if len(s) == l-1 {
					for i := 0; i < k; i++ {
						nx = append(nx, append(append([]int{}, s...), i))
					}
				}
			}
			seqs = append(seqs, nx...)
			if len(seqs) > 600 {
				break
			}
		}
		for _, s := range seqs {
			for nc := -1; nc <= len(s)+1; nc++ {
				for _, par := range []string{"final", "as the last"} {
					if par == "as the last" && (len(s) == 0 || nc < 1 || nc > len(s)) {
						continue
					}
					try(fmt.Sprintf("sequence %v, header %d, parameters %s", s, nc, par), func() *P2 {
						q := p.clone()
						q.Cs = nil
						for _, i := range s {
							c := p.Cs[i]
							c.Hash = p.Cs[i].hash()
							q.Cs = append(q.Cs, c)
						}
						q.H.Contributions = nc
						if par != "final" {
							t := q.clone()
							t.Cs = t.Cs[:nc]
							follow(t)
							t.Cs = q.Cs
							q = t
						}
						return q
					})
				}
			}
		}
		for _, nc := range []int{256 + k, 1 << 16, 1 << 32, -1 << 31, 1<<32 + k} {
			try(fmt.Sprintf("header %d", nc), func() *P2 { q := p.clone(); q.H.Contributions = nc; return q })
		}
		try("no contribution, parameters of an unknown secret", func() *P2 {
			q := o.contribute(d, d)
			q.Cs, q.H.Contributions = nil, 0
			return q
		})
		try("negative count, parameters of an unknown secret", func() *P2 {
			q := o.contribute(d, d)
			q.Cs, q.H.Contributions = nil, -1
			return q
		})
	}
}

func rehash2(b []byte, end, i int) []byte {
	r := b[end+rec2*i : end+rec2*(i+1)]
	copy(r[160:], sum(r[:160]))
	return b
}
