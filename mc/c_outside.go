package main

import (
	"bytes"
	"fmt"
	"math/big"
	"sync"

	"github.com/consensys/gnark-crypto/ecc/bn254"
)

// Points of the twist outside of G₂, up to which an otherwise right file is right. Pairings may not tell them
// from points of G₂, in particular when the coefficients of a verification are multiples of their order.

type outsider struct {
	name  string
	order int64 // 0: large
	point bn254.G2Affine
}

// outsiders are points of the small orders that divide the cofactor, and one of large order.
var outsiders = sync.OnceValue(func() []outsider {
	// the twist has r(2p-r) points
	h := new(big.Int).Lsh(bn254.ID.BaseField(), 1)
	h.Sub(h, bnOrder())
	q := nonSubgroupG2()
	var j bn254.G2Jac
	j.FromAffine(&q)
	j = mulBig(j, bnOrder())
	var l []outsider
	aff := func(j bn254.G2Jac) (p bn254.G2Affine) { p.FromJacobian(&j); return }
	l = append(l, outsider{"a large order", 0, aff(j)})
	for _, d := range []int64{10069, 5864401} {
		k, m := new(big.Int).DivMod(h, big.NewInt(d), new(big.Int))
		mustf(m.Sign() == 0, "the cofactor isn't divisible by %d", d)
		p := aff(mulBig(j, k))
		mustf(!p.IsInfinity() && p.IsOnCurve() && !p.IsInSubGroup(), "no point of order %d", d)
		l = append(l, outsider{fmt.Sprintf("order %d", d), d, p})
	}
	return l
})

func (o outsider) added(b []byte, times int) []byte {
	var p, q bn254.G2Affine
	d := bn254.NewDecoder(bytes.NewReader(b), bn254.NoSubgroupChecks())
	mustNil(d.Decode(&p))
	q.Set(&o.point)
	if times < 0 {
		q.Neg(&q)
	}
	p.Add(&p, &q)
	return b2(p)
}

// each runs f with the ordinary randomness and with multiples of the order.
func (o outsider) each(f func(what string, run func(func() error) error)) {
	f("any coefficients", func(g func() error) error { return withRNG(newRNG("outside"), g) })
	if o.order != 0 {
		f("multiples", func(g func() error) error {
			return withRNG(&patterned{of: func(n int) []byte {
				return entropyOf(fromBig(new(big.Int).Mul(big.NewInt(o.order), big.NewInt(int64(3+n)))))
			}}, g)
		})
	}
}

func rejectOutside(c *Ctx, o outsider, verify func() error) {
	o.each(func(what string, run func(func() error) error) {
		c.Transition()
		if err := run(verify); err == nil {
			c.Failf("the verifier accepted a file with a point outside of G₂ of %s (%s)", o.name, what)
			return
		}
		c.Trace()
	})
}

// genOutsideParams1: points of TauG2 and BetaG2.
func genOutsideParams1(g *Gen) {
	for _, f := range []cfg1{{1, 1, "", false}, {2, 2, "", false}, {2, 1, "ppot", false}, {3, 1, "", false}} {
		p := honest1(f.power, f.k, f.base)
		_, _, _, t2, b2at, _ := offP1(p.N())
		for _, o := range outsiders() {
			var sites [][]int
			for i := 0; i < p.N(); i++ {
				sites = append(sites, []int{t2 + 64*i})
				for j := i + 1; j < p.N(); j++ {
					sites = append(sites, []int{t2 + 64*i, t2 + 64*j})
				}
			}
			sites = append(sites, []int{b2at})
			for _, s := range sites {
				for _, signs := range [][]int{{1, 1}, {1, -1}} {
					if len(s) == 1 && signs[1] < 0 {
						continue
					}
					g.Case(fmt.Sprintf("outside/power=%d/after=%d/base=%s/%s/%v%v", f.power, f.k, f.base, o.name, s, signs), func(c *Ctx) {
						b := p.bytes()
						for k, at := range s {
							b = replaceAt(b, at, o.added(b[at:at+64], signs[k]))
						}
						writeFile("in.ph1", b)
						c.State(b)
						rejectOutside(c, o, func() error { return verify1(f.base, f.power) })
					})
				}
			}
		}
	}
}

// genOutsideChain1: points of the contributions, with the parameters changed alike.
func genOutsideChain1(g *Gen) {
	for _, f := range []cfg1{{1, 1, "", false}, {1, 2, "ppot", false}, {2, 3, "", false}} {
		p := honest1(f.power, f.k, f.base)
		_, _, _, t2, b2at, end := offP1(p.N())
		for i := 0; i < f.k; i++ {
			for _, o := range outsiders() {
				// the fields in G₂: tau, beta, three proofs
				for set := 1; set < 32; set++ {
					g.Case(fmt.Sprintf("outside/power=%d/after=%d/base=%s/%s/#%d/%05b", f.power, f.k, f.base, o.name, i+1, set), func(c *Ctx) {
						b := p.bytes()
						for k, at := range []int{96, 160, 288, 416, 544} {
							if set>>k&1 == 0 {
								continue
							}
							at += end + 640*i
							b = replaceAt(b, at, o.added(b[at:at+64], 1))
							if i == f.k-1 && k == 0 {
								b = replaceAt(b, t2+64, b[at:at+64])
							}
							if i == f.k-1 && k == 1 {
								b = replaceAt(b, b2at, b[at:at+64])
							}
						}
						b = rehash1(b, end, i)
						writeFile("in.ph1", b)
						c.State(b)
						rejectOutside(c, o, func() error { return verify1(f.base, f.power) })
					})
				}
			}
		}
	}
}

// genOutside2: delta in G₂, or the proof of a contribution.
func genOutside2(g *Gen, chain bool) {
	for _, f := range []cfg2{{4, 3, 1}, {2, 0, 2}} {
		og := origin2(f.dom, f.wit, plainHeader)
		p := og
		for i := 0; i < f.k; i++ {
			p = p.honest(i + 1)
		}
		raw := p.bytes()
		sites := map[string]int{"delta": len(gobOf(p.H)) + 32}
		if chain {
			sites = map[string]int{}
			for i := 0; i < f.k; i++ {
				sites[fmt.Sprintf("proof %d", i+1)] = len(raw) - rec2*(f.k-i) + 96
			}
		}
		for _, s := range sorted(sites) {
			for _, o := range outsiders() {
				g.Case(fmt.Sprintf("outside/%v/%s/%s", f, s.k, o.name), func(c *Ctx) {
					b := replaceAt(raw, s.v, o.added(raw[s.v:s.v+64], 1))
					if chain {
						end := len(raw) - rec2*f.k
						b = rehash2(b, end, (s.v-end)/rec2)
					}
					writeFile("in.ph2", b)
					c.State(b)
					rejectOutside(c, o, func() error { return verify2(og) })
				})
			}
		}
	}
}
