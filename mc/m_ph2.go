package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/gob"
	"fmt"

	"github.com/bnb-chain/zkbnb-setup/phase2"
)

// ------------------------------------------------------------------------- model of the phase 2 files

type C2 struct {
	D    E
	PK   PK
	Hash []byte // nil: the right one
}

// P2 is a phase 2 file in which every point is given by its exponent.
type P2 struct {
	H      phase2.Header
	D1, D2 E
	Z, PKK []E
	Cs     []C2
}

func (c *C2) body() []byte { return append(append([]byte{}, b1(G1(c.D))...), c.PK.bytes()...) }
func (c *C2) hash() []byte {
	if c.Hash != nil {
		return c.Hash
	}
	h := sha256.Sum256(c.body())
	return h[:]
}
func (c *C2) bytes() []byte { b := c.body(); h := c.hash(); return append(b, h...) }

const rec2 = 192

func gobOf(v any) []byte {
	var b bytes.Buffer
	mustNil(gob.NewEncoder(&b).Encode(v))
	return b.Bytes()
}

func (p *P2) bytes() []byte {
	var b bytes.Buffer
	b.Write(gobOf(p.H))
	b.Write(b1(G1(p.D1)))
	b.Write(b2(G2(p.D2)))
	for _, s := range [][]E{p.Z, p.PKK} {
		for _, p := range g1s(s) {
			b.Write(b1(p))
		}
	}
	for i := range p.Cs {
		b.Write(p.Cs[i].bytes())
	}
	return b.Bytes()
}

func (p *P2) clone() *P2 {
	q := *p
	q.Z, q.PKK = append([]E{}, p.Z...), append([]E{}, p.PKK...)
	q.Cs = append([]C2{}, p.Cs...)
	return &q
}

// origin2 is a freshly initialized phase 2 file with the given dimensions and points in general position.
func origin2(domain, witness int, pad phase2.Header) *P2 {
	p := &P2{H: pad, D1: oneE, D2: oneE}
	p.H.Domain, p.H.Witness = domain, witness
	for i := 0; i < domain-1; i++ {
		p.Z = append(p.Z, erand(fmt.Sprint("z", i)))
	}
	for i := 0; i < witness; i++ {
		p.PKK = append(p.PKK, erand(fmt.Sprint("pkk", i)))
	}
	return p
}

var plainHeader = phase2.Header{Wires: 9, Public: 2, Constraints: 3}

func (p *P2) last() (E, []byte) {
	if len(p.Cs) == 0 {
		return oneE, nil
	}
	c := &p.Cs[len(p.Cs)-1]
	return c.D, c.hash()
}

// contribute is the transition of the model.
func (p *P2) contribute(d, s E) *P2 {
	q := p.clone()
	_, chal := p.last()
	q.D1, q.D2 = emul(p.D1, d), emul(p.D2, d)
	i := einv(d)
	for k := range q.Z {
		q.Z[k] = emul(q.Z[k], i)
	}
	for k := range q.PKK {
		q.PKK[k] = emul(q.PKK[k], i)
	}
	q.H.Contributions++
	q.Cs = append(q.Cs, C2{D: q.D1, PK: honestPK(s, d, chal, 1)})
	return q
}

func sec2(k int) (E, E) { return erand(fmt.Sprint("d", k)), erand(fmt.Sprint("ds", k)) }

func (p *P2) honest(k int) *P2 {
	for i := 0; i < k; i++ {
		d, s := sec2(len(p.Cs) + 1)
		p = p.contribute(d, s)
	}
	return p
}

// why tells why the file isn't the outcome of contributions to the origin, or "".
func (p *P2) why(o *P2) string {
	h := p.H
	h.Contributions = o.H.Contributions
	if h != o.H {
		return "header"
	}
	if p.H.Contributions < 1 || len(p.Cs) < p.H.Contributions {
		return "number of contributions"
	}
	d, chal := o.D1, []byte(nil)
	for i := 0; i < p.H.Contributions; i++ {
		c := &p.Cs[i]
		x, ok := c.PK.secret(chal, 1)
		if !ok {
			return fmt.Sprintf("contribution %d: proof of knowledge", i+1)
		}
		if !eq(c.D, emul(d, x)) {
			return fmt.Sprintf("contribution %d isn't an update of the previous one", i+1)
		}
		if !bytes.Equal(c.hash(), sum(c.body())) {
			return fmt.Sprintf("contribution %d: hash", i+1)
		}
		d, chal = c.D, c.hash()
	}
	if !eq(p.D1, d) {
		return "δ in G₁"
	}
	if !eq(p.D2, emul(o.D2, emul(d, einv(o.D1)))) {
		return "δ in G₂"
	}
	i := einv(emul(d, einv(o.D1)))
	if len(p.Z) != len(o.Z) || len(p.PKK) != len(o.PKK) {
		return "number of parameters"
	}
	for k := range p.Z {
		if !eq(p.Z[k], emul(o.Z[k], i)) {
			return fmt.Sprintf("Z[%d]", k)
		}
	}
	for k := range p.PKK {
		if !eq(p.PKK[k], emul(o.PKK[k], i)) {
			return fmt.Sprintf("PKK[%d]", k)
		}
	}
	return ""
}

// checkContribution2 compares what the code wrote with the transition of the model from p.
func checkContribution2(p *P2, out []byte, cand []E) (*P2, error) {
	h := p.H
	h.Contributions++
	hb := gobOf(h)
	if len(out) < len(hb) || !bytes.Equal(out[:len(hb)], hb) {
		return nil, fmt.Errorf("the header isn't the previous one with one more contribution")
	}
	end := len(hb) + 96 + 32*(len(p.Z)+len(p.PKK))
	if len(out) != end+rec2*h.Contributions {
		return nil, fmt.Errorf("the file has %d bytes rather than %d", len(out), end+rec2*h.Contributions)
	}
	rec := out[end+rec2*p.H.Contributions:]
	find := func(of string, from E, at []byte) (E, error) {
		for _, x := range cand {
			if bytes.Equal(b1(G1(emul(from, x))), at) {
				return x, nil
			}
		}
		return E{}, fmt.Errorf("%s of the contribution is none of the sampled secrets", of)
	}
	d, err := find("δ", p.D1, rec[:32])
	if err != nil {
		return nil, err
	}
	s, err := find("s", oneE, rec[32:64])
	if err != nil {
		return nil, err
	}
	q := p.contribute(d, s)
	b := q.bytes()
	if !bytes.Equal(b, out) {
		i := 0
		for b[i] == out[i] {
			i++
		}
		where := fmt.Sprintf("contribution %d at its byte %d", (i-end)/rec2+1, (i-end)%rec2)
		if i < end {
			where = "parameters"
		}
		return nil, fmt.Errorf("the file isn't the honest contribution with the sampled secrets: it differs at byte %d (%s)", i, where)
	}
	return q, nil
}
