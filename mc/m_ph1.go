package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
)

// ------------------------------------------------------------------------- model of the phase 1 files

// C1 is a phase 1 contribution. PK are the proofs for τ, α and β.
type C1 struct {
	T1, A1, B1, T2, B2 E
	PK                 [3]PK
	Hash               []byte // nil: the right one
}

// P1 is a phase 1 file in which every point is given by its exponent.
type P1 struct {
	Power  byte
	NC     int // as in the header
	T1     []E
	A1, B1 []E
	T2     []E
	B2     E
	Cs     []C1
}

func (c *C1) body() []byte {
	var b bytes.Buffer
	b.Write(b1(G1(c.T1)))
	b.Write(b1(G1(c.A1)))
	b.Write(b1(G1(c.B1)))
	b.Write(b2(G2(c.T2)))
	b.Write(b2(G2(c.B2)))
	for i := range c.PK {
		b.Write(c.PK[i].bytes())
	}
	return b.Bytes()
}
func (c *C1) hash() []byte {
	if c.Hash != nil {
		return c.Hash
	}
	h := sha256.Sum256(c.body())
	return h[:]
}
func (c *C1) bytes() []byte { b := c.body(); h := c.hash(); return append(b, h...) }

func (p *P1) N() int { return 1 << p.Power }

func (p *P1) bytes() []byte {
	var b bytes.Buffer
	b.WriteByte(p.Power)
	var n [2]byte
	binary.BigEndian.PutUint16(n[:], uint16(p.NC))
	b.Write(n[:])
	for _, s := range [][]E{p.T1, p.A1, p.B1} {
		for _, p := range g1s(s) {
			b.Write(b1(p))
		}
	}
	for _, p := range g2s(p.T2) {
		b.Write(b2(p))
	}
	b.Write(b2(G2(p.B2)))
	for i := range p.Cs {
		b.Write(p.Cs[i].bytes())
	}
	return b.Bytes()
}

func (p *P1) clone() *P1 {
	q := *p
	cp := func(a []E) []E { return append([]E{}, a...) }
	q.T1, q.A1, q.B1, q.T2 = cp(p.T1), cp(p.A1), cp(p.B1), cp(p.T2)
	q.Cs = append([]C1{}, p.Cs...)
	return &q
}

func geo(first, ratio E, n int) []E {
	r := make([]E, n)
	for i := range r {
		r[i] = first
		first.Mul(&first, &ratio)
	}
	return r
}

// setParams makes the parameters those of τ, α and β.
func (p *P1) setParams(t, a, b E) {
	n := p.N()
	p.T1, p.A1, p.B1, p.T2, p.B2 = geo(oneE, t, 2*n-1), geo(a, t, n), geo(b, t, n), geo(oneE, t, n), b
}

// Base is what a ceremony starts from: τ, α and β, all 1 for a new one.
type Base struct{ T, A, B E }

var unitBase = Base{oneE, oneE, oneE}

func newP1(power int, base Base) *P1 {
	p := &P1{Power: byte(power)}
	p.setParams(base.T, base.A, base.B)
	return p
}

// Sec1 are the secrets of a contribution.
type Sec1 struct {
	X [3]E // τ, α, β
	S [3]E
}

func sec1(seed string) Sec1 {
	var s Sec1
	for i := 0; i < 3; i++ {
		s.X[i] = erand(fmt.Sprint(seed, ".x", i))
		s.S[i] = erand(fmt.Sprint(seed, ".s", i))
	}
	return s
}

// last are the points which the next contribution updates.
func (p *P1) last(base Base) (C1, []byte) {
	if len(p.Cs) == 0 {
		return C1{T1: base.T, A1: base.A, B1: base.B, T2: base.T, B2: base.B}, nil
	}
	c := p.Cs[len(p.Cs)-1]
	return c, c.hash()
}

// contribute is the transition of the model: an honest contribution.
func (p *P1) contribute(base Base, s Sec1) *P1 {
	q := p.clone()
	prev, chal := p.last(base)
	c := C1{T1: emul(prev.T1, s.X[0]), A1: emul(prev.A1, s.X[1]), B1: emul(prev.B1, s.X[2]), T2: emul(prev.T2, s.X[0]), B2: emul(prev.B2, s.X[2])}
	for i := range c.PK {
		c.PK[i] = honestPK(s.S[i], s.X[i], chal, byte(i+1))
	}
	q.scale(s.X[0], s.X[1], s.X[2])
	q.Cs = append(q.Cs, c)
	q.NC++
	return q
}

// scale updates the parameters by the secrets.
func (q *P1) scale(t, a, b E) {
	pw := geo(oneE, t, len(q.T1))
	for i := range q.T1 {
		q.T1[i] = emul(q.T1[i], pw[i])
	}
	for i := range q.A1 {
		q.A1[i] = emul(emul(q.A1[i], pw[i]), a)
		q.B1[i] = emul(emul(q.B1[i], pw[i]), b)
		q.T2[i] = emul(q.T2[i], pw[i])
	}
	q.B2 = emul(q.B2, b)
}

// why tells why the file isn't the outcome of a ceremony on top of base, or "".
func (p *P1) why(base Base) string {
	if p.NC < 1 || len(p.Cs) < p.NC {
		return "number of contributions"
	}
	prev := C1{T1: base.T, A1: base.A, B1: base.B, T2: base.T, B2: base.B}
	var chal []byte
	for i := 0; i < p.NC; i++ {
		c := &p.Cs[i]
		var x [3]E
		for k := range x {
			var ok bool
			if x[k], ok = c.PK[k].secret(chal, byte(k+1)); !ok {
				return fmt.Sprintf("contribution %d: proof of knowledge %d", i+1, k)
			}
		}
		if !eq(c.T1, emul(prev.T1, x[0])) || !eq(c.A1, emul(prev.A1, x[1])) || !eq(c.B1, emul(prev.B1, x[2])) || !eq(c.T2, emul(prev.T2, x[0])) || !eq(c.B2, emul(prev.B2, x[2])) {
			return fmt.Sprintf("contribution %d isn't an update of the previous one", i+1)
		}
		if !bytes.Equal(c.hash(), sum(c.body())) {
			return fmt.Sprintf("contribution %d: hash", i+1)
		}
		prev, chal = *c, c.hash()
	}
	n := p.N()
	same := func(a, b []E) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if !eq(a[i], b[i]) {
				return false
			}
		}
		return true
	}
	t := prev.T1
	switch {
	case !same(p.T1, geo(oneE, t, 2*n-1)):
		return "powers of τ in G₁"
	case !same(p.A1, geo(prev.A1, t, n)):
		return "ατ"
	case !same(p.B1, geo(prev.B1, t, n)):
		return "βτ"
	case !same(p.T2, geo(oneE, t, n)):
		return "powers of τ in G₂"
	case !eq(p.B2, prev.B1):
		return "β in G₂"
	}
	return ""
}

// layout of the bytes of a file
func offP1(n int) (t1, a1, b1, t2, b2, end int) {
	t1 = 3
	a1 = t1 + 32*(2*n-1)
	b1 = a1 + 32*n
	t2 = b1 + 32*n
	b2 = t2 + 64*n
	end = b2 + 64
	return
}

// checkContribution1 compares what the code wrote with the transition of the model from p: whatever secrets it
// sampled, the file must be the contribution with them.
func checkContribution1(p *P1, base Base, out []byte, cand []E) (*P1, error) {
	n := p.N()
	oT1, oA1, oB1, _, _, end := offP1(n)
	want := end + 640*(p.NC+1)
	if len(out) != want {
		return nil, fmt.Errorf("the file has %d bytes rather than %d", len(out), want)
	}
	find := func(of string, from E, at []byte) (E, error) {
		for _, x := range cand {
			if bytes.Equal(b1(G1(emul(from, x))), at) {
				return x, nil
			}
		}
		return E{}, fmt.Errorf("%s of the contribution is none of the sampled secrets", of)
	}
	rec := out[end+640*p.NC:]
	var s Sec1
	var err error
	prev, _ := p.last(base)
	if s.X[0], err = find("τ", prev.T1, rec[0:32]); err != nil {
		return nil, err
	}
	if s.X[1], err = find("α", prev.A1, rec[32:64]); err != nil {
		return nil, err
	}
	if s.X[2], err = find("β", prev.B1, rec[64:96]); err != nil {
		return nil, err
	}
	for i := range s.S {
		if s.S[i], err = find(fmt.Sprintf("s of key %d", i), oneE, rec[224+128*i:256+128*i]); err != nil {
			return nil, err
		}
	}
	q := p.contribute(base, s)
	b := q.bytes()
	if !bytes.Equal(b, out) {
		i := 0
		for b[i] == out[i] {
			i++
		}
		where := "contributions"
		switch {
		case i < 3:
			where = "header"
		case i < oA1:
			where = fmt.Sprintf("TauG1[%d]", (i-oT1)/32)
		case i < oB1:
			where = fmt.Sprintf("AlphaTauG1[%d]", (i-oA1)/32)
		case i < end:
			where = "the other parameters"
		default:
			where = fmt.Sprintf("contribution %d at its byte %d", (i-end)/640+1, (i-end)%640)
		}
		return nil, fmt.Errorf("the file isn't the honest contribution with the sampled secrets: it differs at byte %d (%s)", i, where)
	}
	return q, nil
}
