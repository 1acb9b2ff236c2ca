package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"slices"
	"strings"

	"github.com/bnb-chain/zkbnb-setup/phase1"
	"github.com/bnb-chain/zkbnb-setup/phase2"
)

// ---------------------------------------------- C30: the protocol between coordinator, contributors and an adversary
//
// The file is passed around: honest contributors run the real code on what they are given and attest the hash which
// it prints; between them an adversary, who has seen all files so far and knows only secrets of its own, replaces the
// file. At the end the coordinator runs the real verifier and compares the hashes it prints with the attested ones.

// pfile is a file of either phase.
type pfile interface {
	bytes() []byte
	count() int
	hashes() []string             // of the records that the header counts
	wrong(start pfile) string     // why it isn't a ceremony on top of the start
	secrets() (of [][]E, ok bool) // what the records prove the knowledge of
	based(start pfile, x [][]E) bool
}

// attest is what an honest contributor remembers.
type attest struct {
	hash   string
	before []string // hashes of the records in the file that it was given
	x      []E
}

type pstate struct {
	f    pfile
	hist []pfile // all files that were seen
	att  []attest
}

type pmove struct {
	name string
	do   func(s *pstate) pfile // nil: not possible
}

type pphase struct {
	name   string
	start  pfile
	moves  func(s *pstate) []pmove
	honest func(c *Ctx, f pfile, seed string) (pfile, error) // by the real code if there is a context
	verify func(f pfile) (string, error)
}

func (s *pstate) clone() *pstate {
	return &pstate{s.f, slices.Clone(s.hist), slices.Clone(s.att)}
}

// own gives the secrets of a record of the adversary's.
func (s *pstate) own(f pfile, i int) ([]E, bool) {
	x, _ := f.secrets()
	if i >= len(x) {
		return nil, false
	}
	for _, a := range s.att {
		for j := range x[i] {
			if eq(a.x[j], x[i][j]) {
				return nil, false
			}
		}
	}
	for _, e := range x[i] {
		if e.IsZero() {
			return nil, false
		}
	}
	return x[i], true
}

// step makes the move of the given name.
func (ph *pphase) step(c *Ctx, s *pstate, move string, n int) (*pstate, error) {
	t := s.clone()
	if move == "honest" {
		before := s.f.hashes()
		q, err := ph.honest(c, s.f, fmt.Sprint("honest", n))
		if err != nil || q == nil {
			return nil, err
		}
		x, _ := q.secrets()
		h := q.hashes()
		t.f = q
		t.att = append(t.att, attest{h[len(h)-1], before, x[len(x)-1]})
	} else {
		ok := false
		for _, m := range ph.moves(s) {
			if m.name == move {
				if t.f = m.do(t); t.f == nil {
					return nil, nil
				}
				ok = true
			}
		}
		if !ok {
			return nil, nil
		}
	}
	t.hist = append(t.hist, t.f)
	return t, nil
}

func genC30(g *Gen) {
	depth := 3
	if g.Thorough() {
		depth = 4
	}
	for _, ph := range []*pphase{proto1(""), proto1("ppot"), proto2()} {
		if g.Tier != "thorough" && ph.name == "ph1 ppot" {
			continue
		}
		seen := map[string]bool{}
		var rec func(s *pstate, path []string)
		rec = func(s *pstate, path []string) {
			if len(path) > 0 {
				p := slices.Clone(path)
				g.Case(ph.name+"/"+strings.Join(p, ", "), func(c *Ctx) { ph.run(c, p) })
			}
			if len(path) == depth {
				return
			}
			names := []string{"honest"}
			for _, m := range ph.moves(s) {
				names = append(names, m.name)
			}
			for _, n := range names {
				t, _ := ph.step(nil, s, n, len(path))
				if t == nil {
					continue
				}
				// the same state is reached in many ways
				var k bytes.Buffer
				for _, f := range append([]pfile{t.f}, t.hist...) {
					k.Write(sum(f.bytes()))
				}
				for _, a := range t.att {
					k.WriteString(a.hash + strings.Join(a.before, ""))
				}
				if seen[k.String()] {
					continue
				}
				seen[k.String()] = true
				rec(t, append(path, n))
			}
		}
		s := &pstate{f: ph.start, hist: []pfile{ph.start}}
		rec(s, nil)
	}
}

func (ph *pphase) run(c *Ctx, path []string) {
	s := &pstate{f: ph.start, hist: []pfile{ph.start}}
	for i, m := range path {
		c.Transition()
		t, err := ph.step(c, s, m, i)
		if err != nil {
			// a contributor may refuse what isn't a ceremony
			if s.f.wrong(ph.start) == "" || s.f.count() == 0 && bytes.Equal(s.f.bytes(), ph.start.bytes()) {
				c.Failf("%s: the contribution fails: %v", strings.Join(path[:i+1], ", "), err)
			}
			c.Count("contributor_refuses")
			return
		}
		if c.Failed() || t == nil {
			return
		}
		s = t
	}
	c.State(s.f.bytes())
	out, err := ph.verify(s.f)
	why := s.f.wrong(ph.start)
	c.Trace()
	if err == nil && why != "" {
		c.Failf("after %s the file is accepted although it is wrong: %s", strings.Join(path, ", "), why)
		return
	}
	if err != nil && why == "" {
		c.Failf("after %s the file is rejected although it is the result of contributions: %v", strings.Join(path, ", "), err)
		return
	}
	if err != nil {
		c.Count("rejected")
		return
	}
	c.Count("accepted")
	printed := hashesIn(out)
	if err := sameHashes(out, s.f.hashes()); err != nil {
		c.Failf("after %s: %v", strings.Join(path, ", "), err)
		return
	}
	// the file is what the secrets of its records make of the start, and each attested record that is printed is the
	// one of its contributor, on top of what that contributor was given
	x, ok := s.f.secrets()
	if !ok || !s.f.based(ph.start, x) {
		c.Failf("after %s the accepted file isn't made of its contributions", strings.Join(path, ", "))
		return
	}
	for _, a := range s.att {
		i := slices.IndexFunc(printed, func(h string) bool { return strings.EqualFold(h, a.hash) })
		if i < 0 {
			c.Count("replaced_and_noticed")
			continue
		}
		if !slices.EqualFunc(x[i], a.x, eq) || len(a.before) != i {
			c.Failf("after %s the attested contribution %s isn't in the accepted file", strings.Join(path, ", "), a.hash)
			return
		}
		for j := range a.before {
			if !strings.EqualFold(a.before[j], printed[j]) {
				c.Failf("after %s contribution %d before an attested one was exchanged in the accepted file", strings.Join(path, ", "), j+1)
				return
			}
		}
		c.Count("attested_and_there")
	}
}

// ------------------------------------------------------------------------------------------------- phase 1

func (p *P1) count() int { return p.NC }
func (p *P1) hashes() []string {
	var l []string
	for i := 0; i < p.NC && i < len(p.Cs); i++ {
		l = append(l, hex.EncodeToString(p.Cs[i].hash()))
	}
	return l
}
func (p *P1) wrong(start pfile) string {
	q := start.(*P1)
	return p.why(Base{q.T1[1], q.A1[0], q.B1[0]})
}
func (p *P1) secrets() (l [][]E, ok bool) {
	var chal []byte
	ok = true
	for i := 0; i < p.NC && i < len(p.Cs); i++ {
		var x []E
		for k := range p.Cs[i].PK {
			e, good := p.Cs[i].PK[k].secret(chal, byte(k+1))
			ok = ok && good
			x = append(x, e)
		}
		l = append(l, x)
		chal = p.Cs[i].hash()
	}
	return l, ok
}
func (p *P1) based(start pfile, x [][]E) bool {
	o := start.(*P1)
	t, a, b := o.T1[1], o.A1[0], o.B1[0]
	for _, s := range x {
		t, a, b = emul(t, s[0]), emul(a, s[1]), emul(b, s[2])
	}
	return eq(p.T1[1], t) && eq(p.A1[0], a) && eq(p.B1[0], b) && eq(p.B2, b) && eq(p.T2[1], t)
}

func proto1(base string) *pphase {
	const power = 1
	start := newP1(power, baseOf(base))
	ph := &pphase{name: strings.TrimSpace("ph1 " + base), start: start}
	ph.verify = func(f pfile) (string, error) {
		writeFile("in.ph1", f.bytes())
		tr := ""
		if base != "" {
			tr = "base.ph1"
			writeFile(tr, start.bytes())
		}
		return capture(func() error { return phase1.Verify("in.ph1", tr) })
	}
	ph.honest = func(c *Ctx, f pfile, seed string) (pfile, error) {
		p := f.(*P1).clone()
		if p.NC > len(p.Cs) || p.NC < 0 {
			return nil, nil
		}
		p.Cs = p.Cs[:p.NC]
		if c == nil {
			return p.contribute(baseOf(base), sec1(seed)), nil
		}
		writeFile("in.ph1", f.bytes())
		rng := newRNG(seed)
		out, err := capture(func() error {
			return withRNG(rng, func() error { return phase1.Contribute("in.ph1", "out.ph1") })
		})
		if err != nil {
			return nil, err
		}
		b := readFile("out.ph1")
		_, _, _, _, _, end := offP1(p.N())
		if len(b) != end+640*(p.NC+1) {
			c.Failf("the contribution has %d bytes rather than %d", len(b), end+640*(p.NC+1))
			return nil, nil
		}
		// what it does to the file is known once its secrets are
		rec := b[end+640*p.NC:]
		cand := rng.candidates()
		var s Sec1
		for k := range s.S {
			for _, e := range cand {
				if bytes.Equal(b1(G1(e)), rec[224+128*k:256+128*k]) {
					s.S[k] = e
				}
			}
			for _, e := range cand {
				if bytes.Equal(b1(G1(emul(e, s.S[k]))), rec[256+128*k:288+128*k]) {
					s.X[k] = e
				}
			}
		}
		q := p.contribute1on(s, b, end)
		if !bytes.Equal(q.bytes(), b) {
			c.Failf("the contribution isn't the one with the sampled secrets")
			return nil, nil
		}
		if h := q.hashes(); !slices.Contains(hashesIn(out), h[len(h)-1]) {
			c.Failf("the contribution doesn't print its hash")
			return nil, nil
		}
		return q, nil
	}
	ph.moves = func(s *pstate) []pmove {
		f := s.f.(*P1)
		k := len(f.Cs)
		n := len(s.hist)
		var l []pmove
		add := func(name string, do func(s *pstate) *P1) {
			l = append(l, pmove{name, func(s *pstate) pfile {
				if q := do(s); q != nil {
					return q
				}
				return nil
			}})
		}
		mod := func(name string, do func(q *P1, s *pstate)) {
			add(name, func(s *pstate) *P1 { q := s.f.(*P1).clone(); do(q, s); return q })
		}
		d := sec1(fmt.Sprint("adv", n))
		whole := func(f *P1) bool { return f.NC == len(f.Cs) }
		for j := 0; j < n; j++ {
			if whole(s.hist[j].(*P1)) {
				add(fmt.Sprintf("own contribution to file %d", j), func(s *pstate) *P1 { return s.hist[j].(*P1).contribute(baseOf(base), d) })
			}
			if j < n-1 {
				add(fmt.Sprintf("file %d again", j), func(s *pstate) *P1 { return s.hist[j].(*P1) })
				mod(fmt.Sprintf("parameters of file %d", j), func(q *P1, s *pstate) {
					o := s.hist[j].(*P1).clone()
					q.T1, q.A1, q.B1, q.T2, q.B2 = o.T1, o.A1, o.B1, o.T2, o.B2
				})
			}
		}
		mod("parameters scaled", func(q *P1, s *pstate) { q.scale(d.X[0], d.X[1], d.X[2]) })
		mod("header+1", func(q *P1, s *pstate) { q.NC++ })
		if f.NC > 0 {
			mod("header-1", func(q *P1, s *pstate) { q.NC-- })
		}
		for i := 0; i < k; i++ {
			mod(fmt.Sprintf("record %d dropped", i), func(q *P1, s *pstate) { q.Cs = slices.Delete(q.Cs, i, i+1); q.NC-- })
			mod(fmt.Sprintf("record %d twice", i), func(q *P1, s *pstate) { q.Cs = slices.Insert(q.Cs, i, q.Cs[i]); q.NC++ })
			if x, ok := s.own(f, i); ok {
				// the adversary knows these secrets
				mod(fmt.Sprintf("own record %d made anew", i), func(q *P1, s *pstate) {
					c := &q.Cs[i]
					var chal []byte
					if i > 0 {
						chal = q.Cs[i-1].hash()
					}
					c.Hash = nil
					for j := range c.PK {
						c.PK[j] = honestPK(d.S[j], x[j], chal, byte(j+1))
					}
				})
				mod(fmt.Sprintf("own record %d split", i), func(q *P1, s *pstate) {
					a := q.Cs[i]
					a.Hash = nil
					var chal []byte
					if i > 0 {
						chal = q.Cs[i-1].hash()
					}
					b := a
					y := [3]E{einv(d.X[0]), einv(d.X[1]), einv(d.X[2])}
					a.T1, a.T2, a.A1, a.B1, a.B2 = emul(a.T1, y[0]), emul(a.T2, y[0]), emul(a.A1, y[1]), emul(a.B1, y[2]), emul(a.B2, y[2])
					for j := range a.PK {
						a.PK[j] = honestPK(d.S[j], emul(x[j], y[j]), chal, byte(j+1))
					}
					chal = a.hash()
					for j := range b.PK {
						b.PK[j] = honestPK(d.S[j], d.X[j], chal, byte(j+1))
					}
					q.Cs[i] = b
					q.Cs = slices.Insert(q.Cs, i, a)
					q.NC++
				})
			}
			if i+1 < k {
				mod(fmt.Sprintf("records %d and %d exchanged", i, i+1), func(q *P1, s *pstate) { q.Cs[i], q.Cs[i+1] = q.Cs[i+1], q.Cs[i] })
			}
		}
		if k > 0 {
			mod("last record and parameters scaled", func(q *P1, s *pstate) {
				c := &q.Cs[k-1]
				c.Hash = nil
				c.T1, c.T2, c.A1, c.B1, c.B2 = emul(c.T1, d.X[0]), emul(c.T2, d.X[0]), emul(c.A1, d.X[1]), emul(c.B1, d.X[2]), emul(c.B2, d.X[2])
				q.scale(d.X[0], d.X[1], d.X[2])
			})
			mod("last key re-bound by an own one", func(q *P1, s *pstate) {
				c := &q.Cs[k-1]
				var chal []byte
				if k > 1 {
					chal = q.Cs[k-2].hash()
				}
				c.Hash = nil
				for i := range c.PK {
					c.PK[i] = honestPK(d.S[i], d.X[i], chal, byte(i+1))
				}
			})
			mod("last key without s", func(q *P1, s *pstate) {
				c := &q.Cs[k-1]
				c.Hash = nil
				for i := range c.PK {
					c.PK[i].S, c.PK[i].SX, c.PK[i].M = zeroE, zeroE, zeroE
				}
			})
			for ai := range s.att {
				mod(fmt.Sprintf("last hash replaced by attested %d", ai), func(q *P1, s *pstate) { q.Cs[k-1].Hash, _ = hex.DecodeString(s.att[ai].hash) })
				mod(fmt.Sprintf("last record's points with the key and hash of attested %d", ai), func(q *P1, s *pstate) {
					if r := s.attested1(ai); r != nil {
						h := r.hash()
						q.Cs[k-1].PK = r.PK
						q.Cs[k-1].Hash = h
					}
				})
			}
		}
		for ai := range s.att {
			mod(fmt.Sprintf("attested %d appended", ai), func(q *P1, s *pstate) {
				if r := s.attested1(ai); r != nil {
					r.Hash = r.hash()
					q.Cs = append(q.Cs, *r)
					q.NC = len(q.Cs)
					q.setParams(r.T1, r.A1, r.B1)
				}
			})
		}
		return l
	}
	return ph
}

// attested1 finds the record of an attestation.
func (s *pstate) attested1(i int) *C1 {
	for _, f := range s.hist {
		for _, c := range f.(*P1).Cs {
			if hex.EncodeToString(c.hash()) == s.att[i].hash {
				return &c
			}
		}
	}
	return nil
}

// contribute1on is the contribution with the given secrets to whatever the file is: its points are those of the
// parameters.
func (p *P1) contribute1on(s Sec1, out []byte, end int) *P1 {
	q := p.clone()
	q.scale(s.X[0], s.X[1], s.X[2])
	c := C1{T1: q.T1[1], A1: q.A1[0], B1: q.B1[0], T2: q.T2[1], B2: q.B2}
	var chal []byte
	if len(p.Cs) > 0 {
		chal = p.Cs[len(p.Cs)-1].hash()
	}
	for i := range c.PK {
		c.PK[i] = honestPK(s.S[i], s.X[i], chal, byte(i+1))
	}
	q.Cs = append(q.Cs, c)
	q.NC++
	return q
}

// ------------------------------------------------------------------------------------------------- phase 2

func (p *P2) count() int { return p.H.Contributions }
func (p *P2) hashes() []string {
	var l []string
	for i := 0; i < p.H.Contributions && i < len(p.Cs); i++ {
		l = append(l, hex.EncodeToString(p.Cs[i].hash()))
	}
	return l
}
func (p *P2) wrong(start pfile) string { return p.why(start.(*P2)) }
func (p *P2) secrets() (l [][]E, ok bool) {
	var chal []byte
	ok = true
	for i := 0; i < p.H.Contributions && i < len(p.Cs); i++ {
		e, good := p.Cs[i].PK.secret(chal, 1)
		ok = ok && good
		l = append(l, []E{e})
		chal = p.Cs[i].hash()
	}
	return l, ok
}
func (p *P2) based(start pfile, x [][]E) bool {
	o := start.(*P2)
	d := o.D1
	for _, s := range x {
		d = emul(d, s[0])
	}
	i := einv(d)
	for k := range p.Z {
		if !eq(p.Z[k], emul(o.Z[k], i)) {
			return false
		}
	}
	for k := range p.PKK {
		if !eq(p.PKK[k], emul(o.PKK[k], i)) {
			return false
		}
	}
	return eq(p.D1, d) && eq(p.D2, d)
}

func (p *P2) scale(d E) {
	p.D1, p.D2 = emul(p.D1, d), emul(p.D2, d)
	i := einv(d)
	for k := range p.Z {
		p.Z[k] = emul(p.Z[k], i)
	}
	for k := range p.PKK {
		p.PKK[k] = emul(p.PKK[k], i)
	}
}

func (s *pstate) attested2(i int) *C2 {
	for _, f := range s.hist {
		for _, c := range f.(*P2).Cs {
			if hex.EncodeToString(c.hash()) == s.att[i].hash {
				return &c
			}
		}
	}
	return nil
}

func proto2() *pphase {
	start := origin2(2, 1, plainHeader)
	ph := &pphase{name: "ph2", start: start}
	ph.verify = func(f pfile) (string, error) {
		writeFile("in.ph2", f.bytes())
		writeFile("origin.ph2", start.bytes())
		return capture(func() error { return phase2.Verify("in.ph2", "origin.ph2") })
	}
	ph.honest = func(c *Ctx, f pfile, seed string) (pfile, error) {
		p := f.(*P2).clone()
		if p.H.Contributions > len(p.Cs) || p.H.Contributions < 0 {
			return nil, nil
		}
		p.Cs = p.Cs[:p.H.Contributions]
		if c == nil {
			return p.contribute(erand(seed+".x"), erand(seed+".s")), nil
		}
		writeFile("in.ph2", f.bytes())
		rng := newRNG(seed)
		out, err := capture(func() error {
			return withRNG(rng, func() error { return phase2.Contribute("in.ph2", "out.ph2") })
		})
		if err != nil {
			return nil, err
		}
		q, err := checkContribution2(p, readFile("out.ph2"), rng.candidates())
		if err != nil {
			c.Failf("%v", err)
			return nil, nil
		}
		if h := q.hashes(); !slices.Contains(hashesIn(out), h[len(h)-1]) {
			c.Failf("the contribution doesn't print its hash")
			return nil, nil
		}
		return q, nil
	}
	ph.moves = func(s *pstate) []pmove {
		f := s.f.(*P2)
		k := len(f.Cs)
		n := len(s.hist)
		var l []pmove
		add := func(name string, do func(s *pstate) *P2) {
			l = append(l, pmove{name, func(s *pstate) pfile { return do(s) }})
		}
		mod := func(name string, do func(q *P2, s *pstate)) {
			add(name, func(s *pstate) *P2 { q := s.f.(*P2).clone(); do(q, s); return q })
		}
		d, ds := erand(fmt.Sprint("adv2", n)), erand(fmt.Sprint("adv2s", n))
		for j := 0; j < n; j++ {
			if o := s.hist[j].(*P2); o.H.Contributions == len(o.Cs) {
				add(fmt.Sprintf("own contribution to file %d", j), func(s *pstate) *P2 { return s.hist[j].(*P2).contribute(d, ds) })
			}
			if j < n-1 {
				add(fmt.Sprintf("file %d again", j), func(s *pstate) *P2 { return s.hist[j].(*P2) })
				mod(fmt.Sprintf("parameters of file %d", j), func(q *P2, s *pstate) {
					o := s.hist[j].(*P2).clone()
					q.D1, q.D2, q.Z, q.PKK = o.D1, o.D2, o.Z, o.PKK
				})
				mod(fmt.Sprintf("δ of file %d", j), func(q *P2, s *pstate) {
					o := s.hist[j].(*P2)
					q.D1, q.D2 = o.D1, o.D2
				})
			}
		}
		mod("parameters scaled", func(q *P2, s *pstate) { q.scale(d) })
		mod("header+1", func(q *P2, s *pstate) { q.H.Contributions++ })
		if f.H.Contributions > 0 {
			mod("header-1", func(q *P2, s *pstate) { q.H.Contributions-- })
		}
		for i := 0; i < k; i++ {
			mod(fmt.Sprintf("record %d dropped", i), func(q *P2, s *pstate) { q.Cs = slices.Delete(q.Cs, i, i+1); q.H.Contributions-- })
			mod(fmt.Sprintf("record %d twice", i), func(q *P2, s *pstate) { q.Cs = slices.Insert(q.Cs, i, q.Cs[i]); q.H.Contributions++ })
			if x, ok := s.own(f, i); ok {
				mod(fmt.Sprintf("own record %d made anew", i), func(q *P2, s *pstate) {
					c := &q.Cs[i]
					var chal []byte
					if i > 0 {
						chal = q.Cs[i-1].hash()
					}
					c.Hash = nil
					c.PK = honestPK(ds, x[0], chal, 1)
				})
				mod(fmt.Sprintf("own record %d split", i), func(q *P2, s *pstate) {
					a := q.Cs[i]
					a.Hash = nil
					var chal []byte
					if i > 0 {
						chal = q.Cs[i-1].hash()
					}
					b := a
					y := einv(d)
					a.D = emul(a.D, y)
					a.PK = honestPK(ds, emul(x[0], y), chal, 1)
					b.PK = honestPK(ds, d, a.hash(), 1)
					q.Cs[i] = b
					q.Cs = slices.Insert(q.Cs, i, a)
					q.H.Contributions++
				})
			}
			if i+1 < k {
				mod(fmt.Sprintf("records %d and %d exchanged", i, i+1), func(q *P2, s *pstate) { q.Cs[i], q.Cs[i+1] = q.Cs[i+1], q.Cs[i] })
			}
		}
		if k > 0 {
			mod("last record and parameters scaled", func(q *P2, s *pstate) {
				c := &q.Cs[k-1]
				c.Hash = nil
				c.D = emul(c.D, d)
				q.scale(d)
			})
			mod("last key re-bound by an own one", func(q *P2, s *pstate) {
				var chal []byte
				if k > 1 {
					chal = q.Cs[k-2].hash()
				}
				q.Cs[k-1].Hash = nil
				q.Cs[k-1].PK = honestPK(ds, d, chal, 1)
			})
			mod("last key without s", func(q *P2, s *pstate) {
				c := &q.Cs[k-1]
				c.Hash = nil
				c.PK.S, c.PK.SX, c.PK.M = zeroE, zeroE, zeroE
			})
			for ai := range s.att {
				mod(fmt.Sprintf("last hash replaced by attested %d", ai), func(q *P2, s *pstate) { q.Cs[k-1].Hash, _ = hex.DecodeString(s.att[ai].hash) })
				mod(fmt.Sprintf("last record's points with the key and hash of attested %d", ai), func(q *P2, s *pstate) {
					if r := s.attested2(ai); r != nil {
						q.Cs[k-1].PK = r.PK
						q.Cs[k-1].Hash = r.hash()
					}
				})
			}
		}
		for ai := range s.att {
			mod(fmt.Sprintf("attested %d appended", ai), func(q *P2, s *pstate) {
				if r := s.attested2(ai); r != nil {
					h := r.hash()
					r.Hash = h
					q.Cs = append(q.Cs, *r)
					q.H.Contributions = len(q.Cs)
					if !r.D.IsZero() && !q.D1.IsZero() {
						q.scale(emul(r.D, einv(q.D1)))
					}
				}
			})
		}
		return l
	}
	return ph
}

func init() {
	register(&Check{ID: "C30", Level: "model_checking", NoGC: true, QuickS: 300,
		Rule:   "a state is a file of a ceremony with all files seen before and the hashes attested; a transition is an honest contribution (by the real code, its printed hash is attested) or a move of an adversary who knows all files and secrets of its own (contributions to any earlier file, rollback, parameters of another file, records dropped, doubled, exchanged, re-bound, hashes replaced, attested records replayed, ...); after every sequence of moves the real verifier is run: its verdict and printed hashes must be the model's, and in an accepted file every attested hash belongs to that contributor's record, on top of what it was given, with its secret in the parameters",
		Assume: []string{"proofs of knowledge can't be made without the secret; SHA-256 has no collisions"},
		Gen:    genC30})
}
