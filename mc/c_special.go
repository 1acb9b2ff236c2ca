package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"

	"github.com/bnb-chain/zkbnb-setup/phase1"
	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

// Values and encodings which random values (nearly) never have, but for which code may go another way: scalars at the
// edges of their representations, points and hashes whose encodings begin or end with zeros.

type namedE struct {
	name string
	e    E
}

func fromBig(b *big.Int) E { var e E; e.SetBigInt(b); return e }

func specialE() []namedE {
	return memoize("specialE", func() []namedE {
		pow := func(k uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), k) }
		r := fr.Modulus()
		l := []namedE{{"1", oneE}, {"2", ei(2)}, {"3", ei(3)}, {"255", ei(255)}, {"256", ei(256)},
			{"2^64-1", fromBig(new(big.Int).Sub(pow(64), big.NewInt(1)))}, {"2^64", fromBig(pow(64))}, {"2^128", fromBig(pow(128))}, {"2^192", fromBig(pow(192))},
			{"2^248-1", fromBig(new(big.Int).Sub(pow(248), big.NewInt(1)))}, {"2^253", fromBig(pow(253))},
			{"-1", ei(-1)}, {"-2", ei(-2)}, {"1/2", einv(ei(2))}, {"(r-1)/2", fromBig(new(big.Int).Rsh(r, 1))},
			{"limb0", E{1, 0, 0, 0}}, {"limb1", E{0, 1, 0, 0}}, {"limb3", E{0, 0, 0, 1}}}
		// roots of unity
		g := ei(5)
		for _, n := range []int64{3, 4, 8, 16} {
			var e E
			e.Exp(g, new(big.Int).Div(new(big.Int).Sub(r, big.NewInt(1)), big.NewInt(n)))
			l = append(l, namedE{fmt.Sprint("root", n), e})
		}
		// points with leading zeros
		find := func(name string, of func(e E) []byte) {
			for i := int64(4); ; i++ {
				if b := of(ei(i)); b[0]&0x3f == 0 {
					l = append(l, namedE{name, ei(i)})
					return
				}
			}
		}
		find("x of G1", func(e E) []byte { return b1(G1(e)) })
		find("x of G2", func(e E) []byte { return b2(G2(e)) })
		return l
	})
}

type pattern struct {
	name string
	is   func(rec []byte) bool
}

// records whose fields have zeros at an end
func patterns(phase int) []pattern {
	var l []pattern
	at := func(name string, i int, mask byte) {
		l = append(l, pattern{name, func(r []byte) bool { return r[i]&mask == 0 }})
	}
	key := func(name string, i int) {
		at("S of "+name, i, 0x3f)
		at("SX of "+name, i+32, 0x3f)
		at("SPX of "+name, i+64, 0x3f)
		at("SPX.x0 of "+name, i+96, 0xff)
		y := func(r []byte) byte {
			var p bn254.G1Affine
			_, err := p.SetBytes(r[:32])
			mustNil(err)
			b := p.RawBytes()
			return b[32]
		}
		l = append(l, pattern{"S.y of " + name, func(r []byte) bool { return y(r[i:]) == 0 }})
		l = append(l, pattern{"SX.y of " + name, func(r []byte) bool { return y(r[i+32:]) == 0 }})
	}
	if phase == 1 {
		at("hash first", 608, 0xff)
		at("hash last", 639, 0xff)
		at("tau1", 0, 0x3f)
		at("alpha1", 32, 0x3f)
		at("beta1", 64, 0x3f)
		at("tau2", 96, 0x3f)
		at("beta2", 160, 0x3f)
		key("tau", 224)
		key("alpha", 352)
		key("beta", 480)
	} else {
		at("hash first", 160, 0xff)
		at("hash last", 191, 0xff)
		at("delta", 0, 0x3f)
		key("delta", 32)
	}
	return l
}

const maxTries = 6000

// patterned1 are k honest contributions, the last of them with the pattern.
func patterned1(pt pattern, k int) *P1 {
	return memoize(fmt.Sprint("pt1|", pt.name, k), func() *P1 {
		p := newP1(1, unitBase)
		if k > 1 {
			p = honest1(1, k-1, "")
		}
		for i := 0; i < maxTries; i++ {
			q := p.contribute(unitBase, sec1(fmt.Sprint("pt", pt.name, i)))
			if pt.is(q.Cs[len(q.Cs)-1].bytes()) {
				return q
			}
		}
		panic("no such record")
	})
}

func patterned2(pt pattern, k int) *P2 {
	return memoize(fmt.Sprint("pt2|", pt.name, k), func() *P2 {
		p := origin2(2, 1, plainHeader).honest(k - 1)
		for i := 0; i < maxTries; i++ {
			q := p.contribute(erand(fmt.Sprint("pt", pt.name, i)), erand(fmt.Sprint("pts", pt.name, i)))
			if pt.is(q.Cs[len(q.Cs)-1].bytes()) {
				return q
			}
		}
		panic("no such record")
	})
}

// seedFor1 is a seed of the entropy source with which the real contribution to in.ph1 has the pattern.
func seedFor(c *Ctx, pt pattern, phase, size int) (string, bool) {
	for i := 0; i < maxTries; i++ {
		seed := fmt.Sprint("pattern", i)
		if err := withRNG(newRNG(seed), func() error {
			if phase == 1 {
				return phase1.Contribute("in.ph1", "try")
			}
			return phase2.Contribute("in.ph2", "try")
		}); err != nil {
			c.Failf("a contribution failed (%s): %v", seed, err)
			return "", false
		}
		if b := readFile("try"); len(b) > size && pt.is(b[len(b)-size:]) {
			return seed, true
		}
	}
	c.Count("pattern_not_found")
	return "", false
}

// genSpecialContrib: contributions of the real code with special secrets and special records, and on top of such.
func genSpecialContrib1(g *Gen) {
	for k := 0; k < 6; k++ {
		for _, v := range specialE() {
			for _, power := range []int{1, 3} {
				if power == 3 && k >= 3 {
					continue
				}
				g.Case(fmt.Sprintf("values/power=%d/draw=%d/%s", power, k, v.name), func(c *Ctx) {
					p := honest1(power, 1, "")
					writeFile("in.ph1", p.bytes())
					rng := newRNG("C01v")
					rng.Script = map[int][]byte{k: entropyOf(v.e)}
					contribute1rng(c, p, "", rng)
				})
			}
		}
	}
	for _, pt := range patterns(1) {
		for k := 0; k <= 1; k++ {
			g.Case(fmt.Sprintf("patterns/%s/after=%d", pt.name, k), func(c *Ctx) {
				p := honest1(1, k, "")
				writeFile("in.ph1", p.bytes())
				seed, ok := seedFor(c, pt, 1, 640)
				if !ok {
					return
				}
				for i := 0; i < 3; i++ {
					if p = contribute1(c, p, "", "", seed); p == nil {
						return
					}
					writeFile("in.ph1", readFile("out.ph1"))
					seed = "next"
				}
			})
		}
	}
}

func genSpecialContrib2(g *Gen) {
	for k := 0; k < 2; k++ {
		for _, v := range specialE() {
			g.Case(fmt.Sprintf("values/draw=%d/%s", k, v.name), func(c *Ctx) {
				p := origin2(4, 3, plainHeader).honest(1)
				writeFile("in.ph2", p.bytes())
				rng := newRNG("C05v")
				rng.Script = map[int][]byte{k: entropyOf(v.e)}
				contribute2rng(c, p, rng)
			})
		}
	}
	for _, pt := range patterns(2) {
		for k := 0; k <= 1; k++ {
			g.Case(fmt.Sprintf("patterns/%s/after=%d", pt.name, k), func(c *Ctx) {
				p := origin2(2, 1, plainHeader).honest(k)
				writeFile("in.ph2", p.bytes())
				seed, ok := seedFor(c, pt, 2, rec2)
				if !ok {
					return
				}
				for i := 0; i < 3; i++ {
					if p = contribute2(c, p, "", seed); p == nil {
						return
					}
					writeFile("in.ph2", readFile("out.ph2"))
					seed = "next"
				}
			})
		}
	}
	// points of the parameters with leading zeros
	for _, v := range specialE() {
		g.Case("points/"+v.name, func(c *Ctx) {
			p := origin2(4, 3, plainHeader)
			for i := range p.Z {
				p.Z[i] = v.e
			}
			p.PKK[0], p.PKK[2] = v.e, eneg(v.e)
			writeFile("in.ph2", p.bytes())
			contribute2(c, p, "", "C05p")
		})
	}
}

// genSpecialAccept: honest ceremonies with special secrets, records and coefficients are accepted.
func genSpecialAccept1(g *Gen) {
	accept := func(c *Ctx, q *P1) {
		b := q.bytes()
		writeFile("in.ph1", b)
		c.State(b)
		c.Transition()
		if err := verify1("", int(q.Power)); err != nil {
			c.Failf("an honest ceremony was rejected: %v", err)
			return
		}
		c.Trace()
	}
	for _, v := range specialE() {
		for i := 0; i < 6; i++ {
			g.Case(fmt.Sprintf("values/%s/secret %d", v.name, i), func(c *Ctx) {
				for _, power := range []int{1, 3} {
					s := sec1("C02v")
					if i < 3 {
						s.X[i] = v.e
					} else {
						s.S[i-3] = v.e
					}
					accept(c, newP1(power, unitBase).contribute(unitBase, s))
					accept(c, honest1(power, 1, "").contribute(unitBase, s).contribute(unitBase, sec1("C02w")))
				}
			})
		}
		g.Case("values/"+v.name+"/all secrets", func(c *Ctx) {
			s := Sec1{X: [3]E{v.e, v.e, v.e}, S: [3]E{v.e, v.e, v.e}}
			accept(c, honest1(2, 1, "").contribute(unitBase, s))
		})
		g.Case("values/"+v.name+"/coefficients", func(c *Ctx) {
			withRNG(&patterned{of: func(n int) []byte { return entropyOf(v.e) }}, func() error { accept(c, honest1(2, 1, "")); return nil })
			c.State("coefficients", v.name)
		})
	}
	for _, pt := range patterns(1) {
		for k := 1; k <= 2; k++ {
			g.Case(fmt.Sprintf("patterns/%s/%d", pt.name, k), func(c *Ctx) {
				q := patterned1(pt, k)
				accept(c, q)
				accept(c, q.contribute(unitBase, sec1("C02p")))
			})
		}
	}
}

func genSpecialAccept2(g *Gen) {
	accept := func(c *Ctx, q, o *P2) {
		b := q.bytes()
		writeFile("in.ph2", b)
		c.State(b, o.bytes())
		c.Transition()
		if err := verify2(o); err != nil {
			c.Failf("an honest ceremony was rejected: %v", err)
			return
		}
		c.Trace()
	}
	for _, v := range specialE() {
		o := origin2(4, 2, plainHeader)
		g.Case("values/"+v.name, func(c *Ctx) {
			x, s := erand("C06x"), erand("C06s")
			accept(c, o.contribute(v.e, s), o)
			accept(c, o.contribute(x, v.e), o)
			accept(c, o.contribute(v.e, v.e), o)
			accept(c, o.honest(1).contribute(v.e, v.e).honest(1), o)
			accept(c, o.contribute(x, s).contribute(einv(x), v.e), o) // delta is 1 again
		})
		g.Case("values/"+v.name+"/coefficients", func(c *Ctx) {
			withRNG(&patterned{of: func(n int) []byte { return entropyOf(v.e) }}, func() error { accept(c, o.honest(1), o); return nil })
			c.State("coefficients", v.name)
		})
		g.Case("points/"+v.name, func(c *Ctx) {
			o := origin2(4, 2, plainHeader)
			o.Z[0], o.Z[1], o.Z[2], o.PKK[1] = v.e, v.e, eneg(v.e), v.e
			accept(c, o.honest(1), o)
			accept(c, o.contribute(v.e, oneE), o)
		})
	}
	for _, pt := range patterns(2) {
		for k := 1; k <= 2; k++ {
			g.Case(fmt.Sprintf("patterns/%s/%d", pt.name, k), func(c *Ctx) {
				q, o := patterned2(pt, k), origin2(2, 1, plainHeader)
				accept(c, q, o)
				accept(c, q.honest(1), o)
			})
		}
	}
}

// otherChallenges are what a sloppy reader could take for the hash h.
func otherChallenges(h []byte) map[string][]byte {
	return map[string][]byte{
		"none":           nil,
		"zeros":          make([]byte, 32),
		"left trimmed":   bytes.TrimLeft(h, "\x00"),
		"right trimmed":  bytes.TrimRight(h, "\x00"),
		"without first":  h[1:],
		"without last":   h[:31],
		"first bit":      flipped(h, 0),
		"last bit":       flipped(h, 255),
		"hexadecimal":    []byte(hex.EncodeToString(h)),
		"one byte more":  append(append([]byte{}, h...), 0),
		"one byte ahead": append([]byte{0}, h...),
	}
}

// genSpecialReject: proofs bound to anything else than the preceding hash, also where that has zeros at its ends.
func genSpecialReject1(g *Gen) {
	l := append([]pattern{{"any", func([]byte) bool { return true }}}, patterns(1)[:2]...)
	for _, pt := range l {
		for k := 1; k <= 2; k++ {
			for key := 0; key < 3; key++ {
				g.Case(fmt.Sprintf("challenge/%s/%d/key %d", pt.name, k, key), func(c *Ctx) {
					p := patterned1(pt, k)
					s := sec1("C04c")
					q := p.contribute(unitBase, s)
					_, h := p.last(unitBase)
					for name, chal := range otherChallenges(h) {
						if bytes.Equal(chal, h) {
							continue
						}
						r := q.clone()
						r.Cs[len(r.Cs)-1].PK[key] = honestPK(s.S[key], s.X[key], chal, byte(key+1))
						reject1(c, r, r.bytes(), "", fmt.Sprintf("proof %d is bound to %s rather than the preceding hash", key, name))
					}
				})
			}
		}
	}
}

func genSpecialReject2(g *Gen) {
	l := append([]pattern{{"any", func([]byte) bool { return true }}}, patterns(2)[:2]...)
	for _, pt := range l {
		for k := 1; k <= 2; k++ {
			g.Case(fmt.Sprintf("challenge/%s/%d", pt.name, k), func(c *Ctx) {
				p, o := patterned2(pt, k), origin2(2, 1, plainHeader)
				x, s := erand("C08x"), erand("C08s")
				q := p.contribute(x, s)
				_, h := p.last()
				for name, chal := range otherChallenges(h) {
					if bytes.Equal(chal, h) {
						continue
					}
					r := q.clone()
					r.Cs[len(r.Cs)-1].PK = honestPK(s, x, chal, 1)
					reject2(c, r.bytes(), o, fmt.Sprintf("the proof is bound to %s rather than the preceding hash", name))
				}
			})
		}
	}
}

// genSpecialHashes: the printed hashes with zeros at their ends.
func genSpecialHashes(g *Gen) {
	for _, pt := range patterns(1)[:2] {
		g.Case("ph1/"+pt.name, func(c *Ctx) {
			p := honest1(1, 1, "")
			writeFile("in.ph1", p.bytes())
			seed, ok := seedFor(c, pt, 1, 640)
			if !ok {
				return
			}
			c.Transition()
			out, err := capture(func() error {
				return withRNG(newRNG(seed), func() error { return phase1.Contribute("in.ph1", "out.ph1") })
			})
			if err != nil {
				c.Failf("contribution: %v", err)
				return
			}
			b := readFile("out.ph1")
			h := hex.EncodeToString(sum(b[len(b)-640 : len(b)-32]))
			if err := sameHashes(out, []string{h}); err != nil {
				c.Failf("output of the contribution: %v", err)
				return
			}
			writeFile("in.ph1", b)
			c.State(b)
			c.Transition()
			out, err = capture(func() error { return phase1.Verify("in.ph1", "") })
			if err != nil {
				c.Failf("verification: %v", err)
				return
			}
			if err := sameHashes(out, []string{hex.EncodeToString(p.Cs[0].hash()), h}); err != nil {
				c.Failf("output of the verification: %v", err)
			}
			c.Trace()
		})
	}
	for _, pt := range patterns(2)[:2] {
		g.Case("ph2/"+pt.name, func(c *Ctx) {
			o := origin2(2, 1, plainHeader)
			p := o.honest(1)
			writeFile("in.ph2", p.bytes())
			seed, ok := seedFor(c, pt, 2, rec2)
			if !ok {
				return
			}
			c.Transition()
			out, err := capture(func() error {
				return withRNG(newRNG(seed), func() error { return phase2.Contribute("in.ph2", "out.ph2") })
			})
			if err != nil {
				c.Failf("contribution: %v", err)
				return
			}
			b := readFile("out.ph2")
			h := hex.EncodeToString(sum(b[len(b)-rec2 : len(b)-32]))
			if err := sameHashes(out, []string{h}); err != nil {
				c.Failf("output of the contribution: %v", err)
				return
			}
			writeFile("in.ph2", b)
			writeFile("origin.ph2", o.bytes())
			c.State(b)
			c.Transition()
			out, err = capture(func() error { return phase2.Verify("in.ph2", "origin.ph2") })
			if err != nil {
				c.Failf("verification: %v", err)
				return
			}
			if err := sameHashes(out, []string{hex.EncodeToString(p.Cs[0].hash()), h}); err != nil {
				c.Failf("output of the verification: %v", err)
			}
			c.Trace()
		})
	}
}

// wordsOf calls f for the words over related points, up to a length.
func wordsOf(length int, f func(name string, at func(i int) E)) {
	p := erand("word")
	syms := []namedE{{"P", p}, {"-", eneg(p)}, {"0", zeroE}, {"Q", erand("word2")}, {"2", eadd(p, p)}}
	var rec func(w []int)
	rec = func(w []int) {
		if len(w) > 0 {
			n := ""
			for _, k := range w {
				n += syms[k].name
			}
			w := append([]int{}, w...)
			f(n, func(i int) E { return syms[w[i%len(w)]].e })
		}
		if len(w) < length {
			for k := range syms {
				rec(append(w, k))
			}
		}
	}
	rec(nil)
}

// genWords1: a contribution to a file whose parameters are repetitions of a word.
func genWords1(g *Gen) {
	l := 3
	if g.Thorough() {
		l = 4
	}
	wordsOf(l, func(name string, at func(i int) E) {
		g.Case("words/"+name, func(c *Ctx) {
			p := honest1(5, 1, "").clone()
			// all but the points that go into the record
			for s := 0; s < 4; s++ {
				sec := p.section(s)
				for i := 2; i < len(sec); i++ {
					sec[i] = at(i)
				}
			}
			writeFile("in.ph1", p.bytes())
			contribute1(c, p, "", "", "C01w")
		})
	})
}

// genWords2: the same for phase 2, whose result the verifier must accept.
func genWords2(g *Gen, accept bool) {
	l := 3
	if g.Thorough() {
		l = 4
	}
	wordsOf(l, func(name string, at func(i int) E) {
		g.Case("words/"+name, func(c *Ctx) {
			p := origin2(64, 70, plainHeader)
			for i := range p.Z {
				p.Z[i] = at(i)
			}
			for i := range p.PKK {
				p.PKK[i] = at(i)
			}
			writeFile("in.ph2", p.bytes())
			if !accept {
				contribute2(c, p, "", "C05w")
				return
			}
			writeFile("in.ph2", p.honest(2).bytes())
			c.State(name)
			c.Transition()
			if err := verify2(p); err != nil {
				c.Failf("an honest ceremony was rejected: %v", err)
			}
			c.Trace()
		})
	})
}
