package main

import (
	"bytes"
	"fmt"
	"math/big"
	"sync"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fp"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

// ---------------------------------------------------------------- adversarial phase 1 files (C03 and C04)

// reject1 gives the file to the verifier, which must reject it; the model says why it must.
func reject1(c *Ctx, p *P1, b []byte, base, why string) {
	if why == "" {
		c.Count("still_valid")
		return
	}
	writeFile("in.ph1", b)
	c.State(b)
	c.Transition()
	power := 1
	if len(b) > 0 && b[0] <= 10 {
		power = int(b[0])
	}
	if p != nil {
		power = int(p.Power)
	}
	if err := verify1(base, power); err == nil {
		c.Failf("the verifier accepted the file, although it is wrong: %s", why)
		return
	}
	c.Trace()
	c.Count("rejected")
}

// accept1 makes sure that the file before the mutation is accepted.
func accept1(g *Gen, key string, p *P1, base string) {
	g.Case("unmodified/"+key, func(c *Ctx) {
		b := p.bytes()
		writeFile("in.ph1", b)
		c.State(b)
		c.Transition()
		if err := verify1(base, int(p.Power)); err != nil {
			c.Failf("the honest file was rejected: %v", err)
			return
		}
		c.Trace()
	})
}

func (p *P1) section(s int) []E {
	switch s {
	case 0:
		return p.T1
	case 1:
		return p.A1
	case 2:
		return p.B1
	case 3:
		return p.T2
	}
	return nil
}

var sectionNames = []string{"TauG1", "AlphaTauG1", "BetaTauG1", "TauG2", "BetaG2"}

// paramMutations enumerates the modifications of the parameters.
func paramMutations(p *P1, deep bool, emit func(name string, q *P1)) {
	m := func(name string, f func(q *P1)) {
		q := p.clone()
		f(q)
		emit(name, q)
	}
	d := erand("adv.d")
	t := p.T1[1]
	for s := 0; s < 4; s++ {
		n := len(p.section(s))
		name := sectionNames[s]
		for i := 0; i < n; i++ {
			i, s := i, s
			set := func(what string, f func(x []E) E) {
				m(fmt.Sprintf("%s[%d]=%s", name, i, what), func(q *P1) { x := q.section(s); x[i] = f(x) })
			}
			set("0", func(x []E) E { return zeroE })
			set("1", func(x []E) E { return oneE })
			set("random", func(x []E) E { return d })
			set("double", func(x []E) E { return eadd(x[i], x[i]) })
			set("negated", func(x []E) E { return eneg(x[i]) })
			set("plus1", func(x []E) E { return eadd(x[i], oneE) })
			if i+1 < n {
				set("next", func(x []E) E { return x[i+1] })
				m(fmt.Sprintf("%s[%d]<->next", name, i), func(q *P1) { x := q.section(s); x[i], x[i+1] = x[i+1], x[i] })
			}
			if i > 0 {
				set("previous", func(x []E) E { return x[i-1] })
			}
			// errors that cancel in sums
			for j := 0; j < n; j++ {
				if j == i {
					continue
				}
				j := j
				m(fmt.Sprintf("%s[%d]+d,[%d]-d", name, i, j), func(q *P1) {
					x := q.section(s)
					x[i], x[j] = eadd(x[i], d), esub(x[j], d)
				})
				m(fmt.Sprintf("%s[%d]+d,[%d]+d(t-1)", name, i, j), func(q *P1) {
					x := q.section(s)
					x[i], x[j] = eadd(x[i], d), eadd(x[j], emul(d, esub(t, oneE)))
				})
				m(fmt.Sprintf("%s[%d]+d,[%d]-d*t^", name, i, j), func(q *P1) {
					x := q.section(s)
					e := d
					if j > i {
						e = emul(d, epow(t, j-i))
					} else {
						e = emul(d, einv(epow(t, i-j)))
					}
					x[i], x[j] = eadd(x[i], d), esub(x[j], e)
				})
			}
			// the section is right up to i only
			for _, v := range []struct {
				n string
				f func(x []E)
			}{
				{"scaled", func(x []E) {
					for j := i; j < len(x); j++ {
						x[j] = emul(x[j], d)
					}
				}},
				{"zero", func(x []E) {
					for j := i; j < len(x); j++ {
						x[j] = zeroE
					}
				}},
				{"geometric with another ratio", func(x []E) { copy(x[i:], geo(x[i], d, len(x)-i)) }},
				{"geometric with ratio 1/t", func(x []E) { copy(x[i:], geo(x[i], einv(t), len(x)-i)) }},
				{"geometric with ratio 1", func(x []E) { copy(x[i:], geo(x[i], oneE, len(x)-i)) }},
			} {
				v := v
				m(fmt.Sprintf("%s[%d:] %s", name, i, v.n), func(q *P1) { v.f(q.section(s)) })
			}
			// right from i on only
			if i > 0 {
				m(fmt.Sprintf("%s[:%d] scaled", name, i), func(q *P1) {
					x := q.section(s)
					for j := 0; j < i; j++ {
						x[j] = emul(x[j], d)
					}
				})
				m(fmt.Sprintf("%s[:%d] zero", name, i), func(q *P1) {
					x := q.section(s)
					for j := 0; j < i; j++ {
						x[j] = zeroE
					}
				})
			}
		}
		// the whole section
		for _, v := range []struct {
			n string
			f func(x []E)
		}{
			{"reversed", func(x []E) {
				for a, b := 0, len(x)-1; a < b; a, b = a+1, b-1 {
					x[a], x[b] = x[b], x[a]
				}
			}},
			{"shifted", func(x []E) { copy(x, geo(emul(x[0], t), t, len(x))) }},
			{"shifted back", func(x []E) { copy(x, geo(emul(x[0], einv(t)), t, len(x))) }},
			{"of the inverse", func(x []E) { copy(x, geo(x[0], einv(t), len(x))) }},
			{"of another tau", func(x []E) { copy(x, geo(x[0], d, len(x))) }},
			{"of tau^2", func(x []E) { copy(x, geo(x[0], emul(t, t), len(x))) }},
			{"of -tau", func(x []E) { copy(x, geo(x[0], eneg(t), len(x))) }},
			{"from another point", func(x []E) { copy(x, geo(d, t, len(x))) }},
			{"from 1", func(x []E) { copy(x, geo(oneE, t, len(x))) }},
			{"from 0", func(x []E) { copy(x, geo(zeroE, t, len(x))) }},
			{"negated", func(x []E) {
				for i := range x {
					x[i] = eneg(x[i])
				}
			}},
		} {
			s, v := s, v
			m(name+" "+v.n, func(q *P1) { v.f(q.section(s)) })
		}
	}
	// the same in pairs of sections
	for s := 0; s < 4; s++ {
		for r := s + 1; r < 4; r++ {
			s, r := s, r
			m(fmt.Sprintf("%s,%s of another tau", sectionNames[s], sectionNames[r]), func(q *P1) {
				for _, k := range []int{s, r} {
					x := q.section(k)
					copy(x, geo(x[0], d, len(x)))
				}
			})
			m(fmt.Sprintf("%s,%s of the inverse", sectionNames[s], sectionNames[r]), func(q *P1) {
				for _, k := range []int{s, r} {
					x := q.section(k)
					copy(x, geo(x[0], einv(t), len(x)))
				}
			})
			m(fmt.Sprintf("%s,%s scaled", sectionNames[s], sectionNames[r]), func(q *P1) {
				for _, k := range []int{s, r} {
					x := q.section(k)
					copy(x, geo(emul(x[0], d), t, len(x)))
				}
			})
			m(fmt.Sprintf("%s,%s swapped", sectionNames[s], sectionNames[r]), func(q *P1) {
				x, y := q.section(s), q.section(r)
				for i := 0; i < len(y) && i < len(x); i++ {
					x[i], y[i] = y[i], x[i]
				}
			})
		}
	}
	a, bb := p.A1[0], p.B1[0]
	for _, v := range []struct {
		n       string
		t, a, b E
	}{
		{"tau", d, a, bb}, {"alpha", t, d, bb}, {"beta", t, a, d}, {"all secrets", d, d, d},
		{"nothing (the initial ones)", oneE, oneE, oneE}, {"tau inverse", einv(t), a, bb}, {"alpha and beta swapped", t, bb, a},
		{"zero tau", zeroE, a, bb}, {"zero alpha", t, zeroE, bb}, {"zero beta", t, a, zeroE}, {"zeros", zeroE, zeroE, zeroE}, {"-tau", eneg(t), a, bb},
		{"alpha = beta", t, bb, bb}, {"tau^2", emul(t, t), a, bb},
	} {
		v := v
		m("parameters of other "+v.n, func(q *P1) { q.setParams(v.t, v.a, v.b) })
	}
	for _, kv := range sorted(map[string]E{"0": zeroE, "1": oneE, "random": d, "negated": eneg(p.B2), "double": eadd(p.B2, p.B2), "alpha": a, "tau": t, "inverse": einv(p.B2)}) {
		n, e := kv.k, kv.v
		m("BetaG2="+n, func(q *P1) { q.B2 = e })
	}
	// the records of the previous contributions instead of the last
	if len(p.Cs) > 1 {
		c := p.Cs[len(p.Cs)-2]
		m("parameters of the previous contribution", func(q *P1) { q.setParams(c.T1, c.A1, c.B1) })
		m("alpha of the previous contribution", func(q *P1) { q.setParams(t, c.A1, bb) })
		m("beta of the previous contribution", func(q *P1) { q.setParams(t, a, c.B1) })
		m("tau of the previous contribution", func(q *P1) { q.setParams(c.T1, a, bb) })
		m("BetaG2 of the previous contribution", func(q *P1) { q.B2 = c.B1 })
		c0 := p.Cs[0]
		m("parameters of the first contribution", func(q *P1) { q.setParams(c0.T1, c0.A1, c0.B1) })
	}
	if deep {
		// every pair of sites set to values of a small alphabet
		vals := []E{zeroE, oneE, d}
		for s := 0; s < 4; s++ {
			for i := range p.section(s) {
				for r := s; r < 4; r++ {
					for j := range p.section(r) {
						if r == s && j <= i {
							continue
						}
						for vi := range vals {
							for vj := range vals {
								s, i, r, j, vi, vj := s, i, r, j, vi, vj
								m(fmt.Sprintf("pair %s[%d]=v%d,%s[%d]=v%d", sectionNames[s], i, vi, sectionNames[r], j, vj), func(q *P1) {
									q.section(s)[i], q.section(r)[j] = vals[vi], vals[vj]
								})
							}
						}
					}
				}
			}
		}
	}
}

// nonSubgroupG2 is a point on the twist that isn't in G₂.
var nonSubgroupG2 = sync.OnceValue(func() bn254.G2Affine {
	var p bn254.G2Affine
	// y² = x³ + b', b' from the generator
	b, l, r := g2Gen.X, g2Gen.X, g2Gen.X
	l.Square(&g2Gen.Y)
	r.Square(&g2Gen.X).Mul(&r, &g2Gen.X)
	b.Sub(&l, &r)
	for i := uint64(1); ; i++ {
		p.X.A0.SetUint64(i)
		p.X.A1.SetUint64(i + 1)
		r.Square(&p.X).Mul(&r, &p.X).Add(&r, &b)
		if r.Legendre() == 1 {
			p.Y.Sqrt(&r)
			if p.IsOnCurve() && !p.IsInSubGroup() {
				return p
			}
		}
	}
})

// badG1 are encodings that are no points, by name.
func badG1() map[string][]byte {
	m := map[string][]byte{}
	// x without y
	for i := uint64(1); ; i++ {
		var x, r fp.Element
		x.SetUint64(i)
		r.Square(&x).Mul(&r, &x)
		var three fp.Element
		three.SetUint64(3)
		r.Add(&r, &three)
		if r.Legendre() != 1 {
			b := x.Bytes()
			b[0] |= 0b10 << 6
			m["not on the curve"] = b[:]
			break
		}
	}
	b := make([]byte, 32)
	fp.Modulus().FillBytes(b)
	b[0] |= 0b10 << 6
	m["x not reduced (p)"] = b
	z := make([]byte, 32)
	z[0] = 0b01 << 6
	z[31] = 1
	m["infinity with a payload"] = z
	return m
}
func badG2() map[string][]byte {
	m := map[string][]byte{}
	m["outside of the subgroup"] = b2(nonSubgroupG2())
	// p + (random of the subgroup)
	var q bn254.G2Affine
	o := nonSubgroupG2()
	q.Add(&o, &g2Gen)
	if !q.IsInSubGroup() {
		m["outside of the subgroup (2)"] = b2(q)
	}
	b := make([]byte, 64)
	fp.Modulus().FillBytes(b[:32])
	b[0] |= 0b10 << 6
	m["x not reduced"] = b
	return m
}

// addSmallOrder adds to a G₂ point of exponent e a point outside of the subgroup.
func addOutside(e E) []byte {
	p := G2(e)
	var q bn254.G2Affine
	// r·(a point outside) has no component in G₂
	var r bn254.G2Affine
	r = nonSubgroupG2()
	var rr bn254.G2Jac
	rr.FromAffine(&r)
	rj := mulBig(rr, bnOrder())
	var ra bn254.G2Affine
	ra.FromJacobian(&rj)
	q.Add(&p, &ra)
	return b2(q)
}

func bnOrder() *big.Int { return fr.Modulus() }

// mulBig is a plain double and add, since the library's multiplication assumes the subgroup.
func mulBig(p bn254.G2Jac, k *big.Int) bn254.G2Jac {
	var r bn254.G2Jac
	first := true
	for i := k.BitLen() - 1; i >= 0; i-- {
		if !first {
			r.DoubleAssign()
		}
		if k.Bit(i) == 1 {
			if first {
				r.Set(&p)
				first = false
			} else {
				r.AddAssign(&p)
			}
		}
	}
	return r
}

func replaceAt(b []byte, off int, v []byte) []byte {
	r := append([]byte{}, b...)
	copy(r[off:], v)
	return r
}
func spliceAt(b []byte, off, n int, v []byte) []byte {
	r := append([]byte{}, b[:off]...)
	r = append(r, v...)
	return append(r, b[off+n:]...)
}

func init() {
	register(&Check{ID: "C03", Level: "model_checking", QuickS: 200,
		Rule:   "a case is an honest ceremony with its parameters modified: every site by every value of an alphabet, every pair of a section by cancelling errors, every tail and prefix, whole sections, all secrets, encodings; the model (exponents) tells which are wrong and the verifier must reject each; distinct files are counted",
		Assume: []string{"the pairing of gnark-crypto; the verifier's coefficients are random"},
		Gen: func(g *Gen) {
			cfgs := []cfg1{{1, 1, "", true}, {1, 2, "ppot", false}, {2, 1, "", false}, {2, 2, "", false}, {3, 1, "", false}}
			if g.Thorough() {
				cfgs = []cfg1{{1, 1, "", true}, {1, 2, "ppot", true}, {2, 1, "", true}, {2, 2, "ppot", true}, {3, 1, "", true}, {3, 3, "ppot", false}, {4, 1, "", false}, {5, 1, "", false}}
			}
			genParams1(g, cfgs)
			genOutsideParams1(g)
			// encodings
			for _, f := range []cfg1{{1, 1, "", false}, {2, 1, "ppot", false}} {
				f := f
				p := honest1(f.power, f.k, f.base)
				n := p.N()
				oT1, _, _, oT2, oB2, end := offP1(n)
				name := fmt.Sprintf("encoding/power=%d/base=%s", f.power, f.base)
				try := func(what string, b func() []byte) {
					g.Case(name+"/"+what, func(c *Ctx) { reject1(c, p, b(), f.base, "a point is "+what) })
				}
				for off := oT1; off < oT2; off += 32 {
					off := off
					for _, kv := range sorted(badG1()) {
						bn, enc := kv.k, kv.v
						try(fmt.Sprintf("G1@%d %s", off, bn), func() []byte { return replaceAt(p.bytes(), off, enc) })
					}
				}
				for i := 0; i <= n; i++ {
					off := oT2 + 64*i
					e := p.B2
					if off < oB2 {
						e = p.T2[i]
					}
					for _, kv := range sorted(badG2()) {
						bn, enc := kv.k, kv.v
						try(fmt.Sprintf("G2@%d %s", off, bn), func() []byte { return replaceAt(p.bytes(), off, enc) })
					}
					try(fmt.Sprintf("G2@%d right up to a point outside of the subgroup", off), func() []byte { return replaceAt(p.bytes(), off, addOutside(e)) })
				}
				// the readers of the parameters rely on fixed positions
				for off, i := oT1, 0; off < oT2; off, i = off+32, i+1 {
					off := off
					try(fmt.Sprintf("G1@%d in uncompressed form", off), func() []byte {
						b := p.bytes()
						var q bn254.G1Affine
						_, err := q.SetBytes(b[off : off+32])
						mustNil(err)
						return spliceAt(b, off, 32, r1(q))
					})
				}
				for off := oT2; off < end; off += 64 {
					off := off
					try(fmt.Sprintf("G2@%d in uncompressed form", off), func() []byte {
						b := p.bytes()
						var q bn254.G2Affine
						_, err := q.SetBytes(b[off : off+64])
						mustNil(err)
						return spliceAt(b, off, 64, r2(q))
					})
				}
				try("another power", func() []byte { b := p.bytes(); b[0]++; return b })
				try("a smaller power", func() []byte { b := p.bytes(); b[0]--; return b })
				try("power 0", func() []byte { b := p.bytes(); b[0] = 0; return b })
			}
			// a parameter too many or missing
			p := honest1(2, 1, "")
			_, oA1, oB1, oT2, oB2, end := offP1(4)
			for i, r := range [][3]int{{3, 32, oA1}, {oA1, 32, oB1}, {oB1, 32, oT2}, {oT2, 64, oB2}, {oB2, 64, end}} {
				for off := r[0]; off < r[2]; off += r[1] {
					off, r, i := off, r, i
					g.Case(fmt.Sprintf("missing/%s@%d", sectionNames[i], off), func(c *Ctx) {
						reject1(c, p, spliceAt(p.bytes(), off, r[1], nil), "", "a parameter is missing")
					})
					g.Case(fmt.Sprintf("twice/%s@%d", sectionNames[i], off), func(c *Ctx) {
						b := p.bytes()
						reject1(c, p, spliceAt(b, off, 0, b[off:off+r[1]]), "", "there is a parameter too many")
					})
				}
			}
			// every single site of larger files
			for _, power := range []int{5, 7} {
				p := honest1(power, 1, "")
				name := fmt.Sprintf("large/power=%d", power)
				accept1(g, name, p, "")
				secs := func(q *P1) []*[]E { return []*[]E{&q.T1, &q.A1, &q.B1, &q.T2} }
				for s := range 4 {
					for i := range *secs(p)[s] {
						if power == 7 && i%7 != 1 && i > 2 && i < len(*secs(p)[s])-3 && !g.Thorough() {
							continue
						}
						for _, how := range []string{"wrong", "zero"} {
							g.Case(fmt.Sprintf("%s/%s %d %s", name, sectionNames[s], i, how), func(c *Ctx) {
								q := p.clone()
								e := *secs(q)[s]
								e[i] = eadd(e[i], oneE)
								if how == "zero" {
									e[i] = zeroE
								}
								reject1(c, q, q.bytes(), "", q.why(baseOf("")))
							})
						}
					}
				}
			}
			for _, power := range []int{12, 13} {
				if power > 12 && !g.Thorough() {
					continue
				}
				secs := func(q *P1) []*[]E { return []*[]E{&q.T1, &q.A1, &q.B1, &q.T2} }
				n := 1 << power
				accept1(g, fmt.Sprintf("large/power=%d", power), honest1(power, 1, ""), "")
				for s := range 4 {
					for _, i := range []int{1023, 1024, 2047, 2048, 2049, n - 2, n - 1, n, n + 1, 2*n - 2} {
						if s > 0 && i >= n {
							continue
						}
						g.Case(fmt.Sprintf("large/power=%d/%s %d", power, sectionNames[s], i), func(c *Ctx) {
							q := honest1(power, 1, "").clone()
							e := *secs(q)[s]
							e[i] = eadd(e[i], oneE)
							reject1(c, q, q.bytes(), "", q.why(baseOf("")))
						})
					}
				}
			}
			// on another base
			g.Case("base/unit ceremony verified as transformed", func(c *Ctx) {
				p := honest1(2, 2, "")
				reject1(c, p, p.bytes(), "ppot", "the ceremony doesn't start from the transformed file")
			})
			g.Case("base/transformed ceremony verified as new", func(c *Ctx) {
				p := honest1(2, 2, "ppot")
				reject1(c, p, p.bytes(), "", "the ceremony doesn't start from τ=α=β=1")
			})
			for i, o := range []Base{{ppotBase.T, ppotBase.A, oneE}, {ppotBase.T, oneE, ppotBase.B}, {oneE, ppotBase.A, ppotBase.B}} {
				i, o := i, o
				g.Case(fmt.Sprint("base/partly another ", i), func(c *Ctx) {
					p := newP1(2, o).contribute(o, sec1("ob1")).contribute(o, sec1("ob2"))
					mustf(p.why(o) == "", "model")
					reject1(c, p, p.bytes(), "ppot", "the ceremony doesn't start from the transformed file")
				})
			}
		}})

	register(&Check{ID: "C04", Level: "model_checking", QuickS: 200,
		Rule:   "a case is an honest ceremony with its transcript modified (fields and pairs of fields of each contribution by an alphabet, re-hashed or not, re-chained or not; contributions dropped, duplicated, swapped, replayed, moved, forged without a secret; header counts); the model tells which are wrong and the verifier must reject each",
		Assume: []string{"the pairing and hash to curve of gnark-crypto, SHA-256"},
		Gen:    genC04})
}

type cfg1 struct {
	power, k int
	base     string
	deep     bool
}

func genParams1(g *Gen, cfgs []cfg1) {
	for _, f := range cfgs {
		p := honest1(f.power, f.k, f.base)
		name := fmt.Sprintf("power=%d/k=%d/base=%s", f.power, f.k, f.base)
		accept1(g, name, p, f.base)
		paramMutations(p, f.deep, func(mn string, q *P1) {
			g.Case(name+"/"+mn, func(c *Ctx) {
				reject1(c, q, q.bytes(), f.base, q.why(baseOf(f.base)))
			})
		})
	}
}

// fields of a contribution that a mutation can change
type field1 struct {
	name string
	get  func(c *C1) E
	set  func(c *C1, v E)
}

var fields1 = func() []field1 {
	f := []field1{
		{"tauG1", func(c *C1) E { return c.T1 }, func(c *C1, v E) { c.T1 = v }},
		{"alphaG1", func(c *C1) E { return c.A1 }, func(c *C1, v E) { c.A1 = v }},
		{"betaG1", func(c *C1) E { return c.B1 }, func(c *C1, v E) { c.B1 = v }},
		{"tauG2", func(c *C1) E { return c.T2 }, func(c *C1, v E) { c.T2 = v }},
		{"betaG2", func(c *C1) E { return c.B2 }, func(c *C1, v E) { c.B2 = v }},
	}
	for k, n := range []string{"tau", "alpha", "beta"} {
		k := k
		f = append(f,
			field1{n + ".s", func(c *C1) E { return c.PK[k].S }, func(c *C1, v E) { c.PK[k].S = v }},
			field1{n + ".sx", func(c *C1) E { return c.PK[k].SX }, func(c *C1, v E) { c.PK[k].SX = v }},
			field1{n + ".spx", func(c *C1) E { return c.PK[k].M }, func(c *C1, v E) { c.PK[k].M = v }},
		)
	}
	return f
}()

func genC04(g *Gen) {
	genSpecialReject1(g)
	genOutsideChain1(g)
	d := erand("adv04")
	type cfg struct {
		power, k int
		base     string
	}
	cfgs := []cfg{{1, 1, ""}, {1, 2, ""}, {1, 2, "ppot"}, {1, 3, ""}}
	if g.Thorough() {
		cfgs = append(cfgs, cfg{1, 4, ""}, cfg{2, 2, "ppot"}, cfg{1, 1, "ppot"}, cfg{2, 3, ""})
	}
	vals := []struct {
		n string
		f func(x E) E
	}{
		{"0", func(x E) E { return zeroE }},
		{"1", func(x E) E { return oneE }},
		{"random", func(x E) E { return d }},
		{"negated", func(x E) E { return eneg(x) }},
		{"double", func(x E) E { return eadd(x, x) }},
		{"inverse", func(x E) E { return einv(x) }},
		{"scaled", func(x E) E { return emul(x, d) }},
	}
	for _, f := range cfgs {
		f := f
		base := baseOf(f.base)
		p := honest1(f.power, f.k, f.base)
		name := fmt.Sprintf("power=%d/k=%d/base=%s", f.power, f.k, f.base)
		accept1(g, name, p, f.base)
		try := func(what string, mk func() *P1) {
			g.Case(name+"/"+what, func(c *Ctx) {
				q := mk()
				reject1(c, q, q.bytes(), f.base, q.why(base))
			})
		}
		// mut changes a contribution; the following ones are
		//  stale: left as they are, chained: with their proofs made again for the new hash and the parameters as they follow
		mut := func(what string, i int, fn func(c *C1)) {
			modes := []string{"rehashed", "same hash"}
			if i+1 < f.k {
				modes = append(modes, "chained")
			} else {
				modes = append(modes, "chained") // parameters as they follow
			}
			for _, mode := range modes {
				mode := mode
				try(fmt.Sprintf("#%d %s, %s", i+1, what, mode), func() *P1 {
					q := p.clone()
					old := q.Cs[i].hash()
					fn(&q.Cs[i])
					if mode == "same hash" {
						q.Cs[i].Hash = old
					}
					if mode == "chained" {
						rechain(q, i+1, fmt.Sprint("h1.", f.base))
						l := q.Cs[len(q.Cs)-1]
						q.T1, q.A1, q.B1 = geo(oneE, l.T1, 2*q.N()-1), geo(l.A1, l.T1, q.N()), geo(l.B1, l.T1, q.N())
						q.T2, q.B2 = geo(oneE, l.T2, q.N()), l.B2
					}
					return q
				})
			}
		}
		for i := 0; i < f.k; i++ {
			for fi := range fields1 {
				for vi := range vals {
					fl, v := fields1[fi], vals[vi]
					mut(fl.name+"="+v.n, i, func(c *C1) { fl.set(c, v.f(fl.get(c))) })
				}
				// by another field
				for fj := range fields1 {
					if fj == fi {
						continue
					}
					fl, o := fields1[fi], fields1[fj]
					mut(fl.name+"<-"+o.name, i, func(c *C1) { fl.set(c, o.get(c)) })
				}
				// pairs of fields
				if f.k == 1 || (g.Thorough() && f.k == 2) {
					for fj := fi + 1; fj < len(fields1); fj++ {
						for _, vp := range [][2]int{{0, 0}, {1, 1}, {2, 2}, {3, 3}, {4, 4}, {6, 6}, {0, 1}, {1, 0}, {6, 5}} {
							fl, o, va, vb := fields1[fi], fields1[fj], vals[vp[0]], vals[vp[1]]
							mut(fmt.Sprintf("%s=%s,%s=%s", fl.name, va.n, o.name, vb.n), i, func(c *C1) { fl.set(c, va.f(fl.get(c))); o.set(c, vb.f(o.get(c))) })
						}
					}
				}
			}
			for k, kn := range []string{"tau", "alpha", "beta"} {
				k := k
				pk := func(what string, fn func(p *PK)) { mut(kn+" "+what, i, func(c *C1) { fn(&c.PK[k]) }) }
				// the base of the proof
				pk("proof for no challenge", func(p *PK) { p.Base.Chal = "x" + p.Base.Chal })
				if i > 0 {
					pk("proof for the empty challenge", func(p *PK) { p.Base.Chal = "" })
				}
				if i > 1 {
					pk("proof for the challenge of the first", func(p *PK) { p.Base.Chal = string(honest1(f.power, 1, f.base).Cs[0].hash()) })
				}
				for dst := byte(0); dst < 5; dst++ {
					dst := dst
					if int(dst) != k+1 {
						pk(fmt.Sprintf("proof of domain %d", dst), func(p *PK) { p.Base.Dst = dst })
					}
				}
				pk("proof on the generator", func(p *PK) { p.Base.G2 = true })
				pk("proof for another s", func(p *PK) { p.Base.S = d })
				pk("proof for another sx", func(p *PK) { p.Base.SX = d })
				// without knowledge: everything zero
				pk("all zero", func(p *PK) { p.S, p.SX, p.M = zeroE, zeroE, zeroE; p.Base.S, p.Base.SX = zeroE, zeroE })
				// the secret zero, consistently
				mut(kn+" zero throughout", i, func(c *C1) {
					q := &c.PK[k]
					*q = honestPK(q.S, zeroE, []byte(q.Base.Chal), byte(k+1))
					zero1(c, k)
				})
				mut(kn+" zero and s zero throughout", i, func(c *C1) {
					q := &c.PK[k]
					*q = honestPK(zeroE, zeroE, []byte(q.Base.Chal), byte(k+1))
					zero1(c, k)
				})
				mut(kn+" key of s zero", i, func(c *C1) {
					q := &c.PK[k]
					*q = honestPK(zeroE, q.M, []byte(q.Base.Chal), byte(k+1))
				})
				// the key of another secret
				mut(kn+" key of another secret", i, func(c *C1) { q := &c.PK[k]; *q = honestPK(q.S, d, []byte(q.Base.Chal), byte(k+1)) })
				// points of another secret than the key's
				mut(kn+" points of another secret", i, func(c *C1) { mul1(c, k, d) })
				mut(kn+" G1 point of another secret", i, func(c *C1) {
					switch k {
					case 0:
						c.T1 = emul(c.T1, d)
					case 1:
						c.A1 = emul(c.A1, d)
					case 2:
						c.B1 = emul(c.B1, d)
					}
				})
				for k2 := 0; k2 < 3; k2++ {
					if k2 != k {
						k2 := k2
						mut(fmt.Sprintf("%s key is that of %d", kn, k2), i, func(c *C1) { c.PK[k] = c.PK[k2] })
						mut(fmt.Sprintf("%s secret is that of %d with its proof", kn, k2), i, func(c *C1) { c.PK[k].S, c.PK[k].SX, c.PK[k].M = c.PK[k2].S, c.PK[k2].SX, c.PK[k2].M })
					}
				}
			}
			// hashes
			for _, kv := range sorted(map[string][]byte{"zero": make([]byte, 32), "of nothing": sum(nil)}) {
				hn, h := kv.k, kv.v
				mut("hash "+hn, i, func(c *C1) { c.Hash = h })
			}
			for _, bit := range []int{0, 7, 100, 255} {
				bit := bit
				mut(fmt.Sprintf("hash bit %d", bit), i, func(c *C1) { h := append([]byte{}, c.hash()...); h[bit/8] ^= 1 << (bit % 8); c.Hash = h })
			}
			if i > 0 {
				mut("hash of the previous", i, func(c *C1) { c.Hash = p.Cs[i-1].hash() })
				mut("hash over the previous too", i, func(c *C1) { c.Hash = sum(append(append([]byte{}, p.Cs[i-1].hash()...), c.body()...)) })
				// a contribution replayed
				mut("replay of the previous", i, func(c *C1) { *c = p.Cs[i-1] })
				// rebased on the initial state: drops what was before
				mut("of the base instead of the previous", i, func(c *C1) {
					s := sec1(fmt.Sprint("h1.", f.base, i+1))
					*c = newP1(f.power, base).contribute(base, s).Cs[0]
				})
				mut("of the base with the proofs of the previous", i, func(c *C1) {
					c.T1, c.A1, c.B1, c.T2, c.B2 = emul(base.T, c.PK[0].M), emul(base.A, c.PK[1].M), emul(base.B, c.PK[2].M), emul(base.T, c.PK[0].M), emul(base.B, c.PK[2].M)
				})
			}
			if i > 1 {
				mut("on the contribution before the previous", i, func(c *C1) {
					b := p.Cs[i-2]
					c.T1, c.A1, c.B1, c.T2, c.B2 = emul(b.T1, c.PK[0].M), emul(b.A1, c.PK[1].M), emul(b.B1, c.PK[2].M), emul(b.T1, c.PK[0].M), emul(b.B1, c.PK[2].M)
				})
			}
			mut("of another ceremony", i, func(c *C1) {
				*c = newP1(f.power, base).contribute(base, sec1("o1")).contribute(base, sec1("o2")).contribute(base, sec1("o3")).Cs[2]
			})
			// encodings
			raw := p.bytes()
			_, _, _, _, _, end := offP1(p.N())
			offs := []int{0, 32, 64, 224, 256, 352, 384, 480, 512}
			for _, o := range offs {
				off := end + 640*i + o
				for _, kv := range sorted(badG1()) {
					bn, enc := kv.k, kv.v
					g.Case(fmt.Sprintf("%s/encoding #%d G1@%d %s", name, i+1, o, bn), func(c *Ctx) {
						b := rehash1(replaceAt(raw, off, enc), end, i)
						reject1(c, p, b, f.base, "invalid encoding")
					})
				}
			}
			for _, o := range []int{96, 160, 288, 416, 544} {
				off := end + 640*i + o
				for _, kv := range sorted(badG2()) {
					bn, enc := kv.k, kv.v
					g.Case(fmt.Sprintf("%s/encoding #%d G2@%d %s", name, i+1, o, bn), func(c *Ctx) {
						b := rehash1(replaceAt(raw, off, enc), end, i)
						reject1(c, p, b, f.base, "invalid encoding")
					})
				}
			}
		}
		// structure: every sequence of at most k+1 of the contributions, with every header count
		seqs := [][]int{{}}
		for l := 1; l <= f.k+1; l++ {
			var nx [][]int
			for _, s := range seqs {
				if len(s) == l-1 {
					for i := 0; i < f.k; i++ {
						nx = append(nx, append(append([]int{}, s...), i))
					}
				}
			}
			seqs = append(seqs, nx...)
			if len(seqs) > 400 {
				break
			}
		}
		for _, s := range seqs {
			for nc := 0; nc <= len(s)+1; nc++ {
				s, nc := s, nc
				for _, par := range []string{"final", "as the last"} {
					par := par
					if par == "as the last" && len(s) == 0 {
						continue
					}
					try(fmt.Sprintf("sequence %v, header %d, parameters %s", s, nc, par), func() *P1 {
						q := p.clone()
						q.Cs = nil
						for _, i := range s {
							c := p.Cs[i]
							c.Hash = p.Cs[i].hash()
							q.Cs = append(q.Cs, c)
						}
						q.NC = nc
						if par != "final" {
							l := q.Cs[len(q.Cs)-1]
							if nc > 0 && nc <= len(q.Cs) {
								l = q.Cs[nc-1]
							}
							q.setParams(l.T1, l.A1, l.B1)
						}
						return q
					})
				}
			}
		}
		try("no contribution, initial parameters", func() *P1 { q := newP1(f.power, base); q.NC = 0; return q })
		try("no contribution, parameters of unknown secrets", func() *P1 { q := newP1(f.power, Base{d, d, d}); q.NC = 0; return q })
		for _, nc := range []int{256, 65535, 256 + f.k, 257} {
			nc := nc
			try(fmt.Sprintf("header %d", nc), func() *P1 { q := p.clone(); q.NC = nc; return q })
		}
	}
}

// rehash1 makes the hash of contribution i of the file right for its bytes (if they are in compressed form).
func rehash1(b []byte, end, i int) []byte {
	r := b[end+640*i : end+640*i+640]
	copy(r[608:], sum(r[:608]))
	return b
}

func zero1(c *C1, k int) {
	switch k {
	case 0:
		c.T1, c.T2 = zeroE, zeroE
	case 1:
		c.A1 = zeroE
	case 2:
		c.B1, c.B2 = zeroE, zeroE
	}
}
func mul1(c *C1, k int, d E) {
	switch k {
	case 0:
		c.T1, c.T2 = emul(c.T1, d), emul(c.T2, d)
	case 1:
		c.A1 = emul(c.A1, d)
	case 2:
		c.B1, c.B2 = emul(c.B1, d), emul(c.B2, d)
	}
}

// rechain makes the contributions from i on honest contributions to what precedes them, with their old secrets.
func rechain(q *P1, from int, seed string) {
	for i := from; i < len(q.Cs); i++ {
		prev := q.Cs[i-1]
		s := sec1(fmt.Sprint(seed, i+1))
		c := &q.Cs[i]
		c.Hash = nil
		c.T1, c.A1, c.B1, c.T2, c.B2 = emul(prev.T1, s.X[0]), emul(prev.A1, s.X[1]), emul(prev.B1, s.X[2]), emul(prev.T2, s.X[0]), emul(prev.B2, s.X[2])
		for k := range c.PK {
			c.PK[k] = honestPK(s.S[k], s.X[k], prev.hash(), byte(k+1))
		}
	}
}

var _ = bytes.Equal
