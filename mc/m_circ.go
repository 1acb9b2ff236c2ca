package main

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"os"
	"reflect"
	"sort"

	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr/fft"
	"github.com/consensys/gnark/constraint"
	cs_bn254 "github.com/consensys/gnark/constraint/bn254"
)

// --------------------------------------------------------------------------------- model of the circuits

// T is coefficient times wire. Wires: [public, the first is 1 | secret | internal].
type T struct {
	C E
	W int
}
type Con struct{ L, R, O []T }

// Circ is a constraint system given by its matrices.
type Circ struct {
	Pub, Sec, Int int
	Cons          []Con
	Blocks        []block // constraints that are instances of the first such block, for lazy storage
	Lazify        bool
	Committed     []int // sorted wires
	CommitIdx     int   // the wire of the commitment
}
type block struct{ from, to int }

func (c *Circ) wires() int { return c.Pub + c.Sec + c.Int }

func (c *Circ) privCommitted() []int {
	var r []int
	for _, w := range c.Committed {
		if w >= c.Pub {
			r = append(r, w)
		}
	}
	return r
}

const lazyKey = "mimc-params-1"

// build makes gnark's constraint system of the circuit.
func (c *Circ) build() *cs_bn254.R1CS {
	r := cs_bn254.NewR1CS(len(c.Cons) + 1)
	for i := 0; i < c.Pub; i++ {
		r.AddPublicVariable(fmt.Sprint("p", i))
	}
	for i := 0; i < c.Sec; i++ {
		r.AddSecretVariable(fmt.Sprint("s", i))
	}
	le := func(ts []T) constraint.LinearExpression {
		l := make(constraint.LinearExpression, 0, len(ts))
		for _, t := range ts {
			var k constraint.Coeff
			copy(k[:], t.C[:])
			l = append(l, r.MakeTerm(&k, t.W))
		}
		return l
	}
	start, end := map[int]bool{}, map[int]bool{}
	for _, b := range c.Blocks {
		start[b.from], end[b.to] = true, true
	}
	made := 0
	need := func(n int) { // internal variables come into being as they are needed
		for ; made < n; made++ {
			r.AddInternalVariable()
		}
	}
	var inputs []constraint.LinearExpression
	for i, k := range c.Cons {
		if end[i] {
			r.AddStaticConstraints(lazyKey, i, true, inputs)
		}
		if start[i] {
			one := oneE
			var kc constraint.Coeff
			copy(kc[:], one[:])
			inputs = []constraint.LinearExpression{{r.MakeTerm(&kc, c.Pub)}}
			r.AddStaticConstraints(lazyKey, i, false, inputs)
		}
		for _, ts := range [][]T{k.L, k.R, k.O} {
			for _, t := range ts {
				need(t.W - c.Pub - c.Sec + 1)
			}
		}
		r.AddConstraint(constraint.R1C{L: le(k.L), R: le(k.R), O: le(k.O)})
	}
	if end[len(c.Cons)] {
		r.AddStaticConstraints(lazyKey, len(c.Cons), true, inputs)
	}
	need(c.Int)
	if len(c.Committed) > 0 {
		all := append(append([]int{}, c.Committed...), c.CommitIdx)
		sort.Ints(all)
		mustNil(r.AddCommitment(constraint.Commitment{Committed: c.Committed, NbPrivateCommitted: len(c.privCommitted()),
			HintID: 7, CommitmentIndex: c.CommitIdx, CommittedAndCommitment: all}))
	}
	if c.Lazify {
		r.Lazify()
	}
	return r
}

// order is the order of the constraints in the system that is built: lazy ones go last.
func (c *Circ) order() []Con {
	if !c.Lazify || len(c.Blocks) == 0 {
		return c.Cons
	}
	var a, z []Con
	at := 0
	for _, b := range c.Blocks {
		a = append(a, c.Cons[at:b.from]...)
		z = append(z, c.Cons[b.from:b.to]...)
		at = b.to
	}
	a = append(a, c.Cons[at:]...)
	return append(a, z...)
}

func writeR1CS(r *cs_bn254.R1CS, name string) {
	f, err := os.Create(name)
	mustNil(err)
	_, err = r.WriteTo(f)
	mustNil(err)
	mustNil(f.Close())
}

// lagrangeE is the Lagrange basis of the first n of the given powers.
func lagrangeE(s []E, n int) []E {
	d := fft.NewDomain(uint64(n))
	wi := d.GeneratorInv
	r := make([]E, n)
	if n > 512 {
		copy(r, dft(s[:n], wi))
		for j := range r {
			r[j] = emul(r[j], d.CardinalityInv)
		}
		return r
	}
	for j := range r {
		x, w := oneE, epow(wi, j)
		for k := 0; k < n; k++ {
			r[j] = eadd(r[j], emul(x, s[k]))
			x = emul(x, w)
		}
		r[j] = emul(r[j], d.CardinalityInv)
	}
	return r
}

// dft evaluates the polynomial at the powers of w.
func dft(s []E, w E) []E {
	n := len(s)
	if n == 1 {
		return s
	}
	even, odd := make([]E, n/2), make([]E, n/2)
	for i := range even {
		even[i], odd[i] = s[2*i], s[2*i+1]
	}
	even, odd = dft(even, emul(w, w)), dft(odd, emul(w, w))
	r := make([]E, n)
	x := oneE
	for i := range even {
		t := emul(x, odd[i])
		r[i], r[i+n/2] = eadd(even[i], t), esub(even[i], t)
		x = emul(x, w)
	}
	return r
}

func domainOf(constraints int) int {
	d := 2
	for d < constraints {
		d *= 2
	}
	return d
}

func bitrev(i, bits int) int {
	r := 0
	for k := 0; k < bits; k++ {
		r = r<<1 | i>>k&1
	}
	return r
}

// Init2 is what the initialization of phase 2 writes.
type Init2 struct {
	P2       *P2
	Lag      [3][]E
	Lag2     []E
	A, B     []E // of each wire
	L        []E
	VKK, CKK []E
	Al, Be   E
	Info     constraint.Commitment
}

func (c *Circ) init2(p *P1) *Init2 {
	cons := c.order()
	n := domainOf(len(cons))
	lb := 0
	for 1<<lb < n {
		lb++
	}
	x := &Init2{Al: p.A1[0], Be: p.B1[0]}
	for i, s := range [][]E{p.T1, p.A1, p.B1} {
		x.Lag[i] = lagrangeE(s, n)
	}
	x.Lag2 = lagrangeE(p.T2, n)
	w := c.wires()
	x.A, x.B, x.L = make([]E, w), make([]E, w), make([]E, w)
	add := func(to []E, ts []T, v E) {
		for _, t := range ts {
			to[t.W] = eadd(to[t.W], emul(t.C, v))
		}
	}
	for i, k := range cons {
		add(x.A, k.L, x.Lag[0][i])
		add(x.B, k.R, x.Lag[0][i])
		add(x.L, k.O, x.Lag[0][i])
		add(x.L, k.R, x.Lag[1][i])
		add(x.L, k.L, x.Lag[2][i])
	}
	h := phase2.Header{Wires: w, Public: c.Pub, PrivateCommitted: len(c.privCommitted()), Constraints: len(cons), Domain: n}
	h.Witness = c.Sec + c.Int - h.PrivateCommitted
	if len(c.Committed) > 0 {
		h.Public++
		h.Witness--
	}
	q := &P2{H: h, D1: oneE, D2: oneE, Z: make([]E, n-1)}
	for i := range q.Z {
		q.Z[bitrev(i, lb)] = esub(p.T1[i+n], p.T1[i])
	}
	isPriv := map[int]bool{}
	for _, v := range c.privCommitted() {
		isPriv[v] = true
	}
	for i := 0; i < w; i++ {
		switch {
		case isPriv[i]:
			x.CKK = append(x.CKK, x.L[i])
		case i < c.Pub || len(c.Committed) > 0 && i == c.CommitIdx:
			x.VKK = append(x.VKK, x.L[i])
		default:
			q.PKK = append(q.PKK, x.L[i])
		}
	}
	mustf(len(q.PKK) == h.Witness && len(x.VKK) == h.Public, "model of the dimensions")
	x.P2 = q
	x.Info = c.build().CommitmentInfo
	return x
}

func arr1(es []E) []byte {
	b := binary.BigEndian.AppendUint32(nil, uint32(len(es)))
	for _, p := range g1s(es) {
		b = append(b, b1(p)...)
	}
	return b
}
func arr2(es []E) []byte {
	b := binary.BigEndian.AppendUint32(nil, uint32(len(es)))
	for _, p := range g2s(es) {
		b = append(b, b2(p)...)
	}
	return b
}
func (x *Init2) lag() []byte {
	return bytes.Join([][]byte{arr1(x.Lag[0]), arr1(x.Lag[1]), arr1(x.Lag[2]), arr2(x.Lag2)}, nil)
}
func (x *Init2) evals() []byte {
	return bytes.Join([][]byte{b1(G1(x.Al)), b1(G1(x.Be)), b2(G2(x.Be)), arr1(x.A), arr1(x.B), arr2(x.B), arr1(x.VKK), arr1(x.CKK)}, nil)
}

func sameInfo(a, b constraint.Commitment) bool {
	norm := func(c *constraint.Commitment) {
		if len(c.Committed) == 0 {
			c.Committed = nil
		}
		if len(c.CommittedAndCommitment) == 0 {
			c.CommittedAndCommitment = nil
		}
	}
	norm(&a)
	norm(&b)
	return reflect.DeepEqual(a, b)
}

// compareInit compares the files of an initialization with the model.
func (x *Init2) compare(ph2 string) error {
	if b := readFile(ph2); !bytes.Equal(b, x.P2.bytes()) {
		return fmt.Errorf("the phase 2 file isn't that of the circuit: %s", x.diff2(b))
	}
	if b := readFile("srs.lag"); !bytes.Equal(b, x.lag()) {
		return fmt.Errorf("srs.lag doesn't hold the Lagrange basis (first difference at byte %d)", firstDiff(b, x.lag()))
	}
	ev, want := readFile("evals"), x.evals()
	if !bytes.HasPrefix(ev, want) {
		return fmt.Errorf("evals aren't those of the circuit: %s", x.diffEvals(ev))
	}
	var info constraint.Commitment
	rd := bytes.NewReader(ev[len(want):])
	if err := gob.NewDecoder(rd).Decode(&info); err != nil {
		return fmt.Errorf("commitment info of evals: %v", err)
	}
	if rd.Len() != 0 {
		return fmt.Errorf("%d bytes after the commitment info of evals", rd.Len())
	}
	if !sameInfo(info, x.Info) {
		return fmt.Errorf("the commitment info of evals is %v rather than %v", info, x.Info)
	}
	return nil
}

func firstDiff(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	return min(len(a), len(b))
}

func (x *Init2) diff2(b []byte) string {
	want := x.P2.bytes()
	i := firstDiff(b, want)
	h := len(gobOf(x.P2.H))
	at := i - h - 96
	switch {
	case len(b) != len(want) && i == min(len(b), len(want)):
		return fmt.Sprintf("%d bytes rather than %d", len(b), len(want))
	case i < h:
		var g phase2.Header
		g.Read(bytes.NewReader(b))
		return fmt.Sprintf("header %+v rather than %+v", g, x.P2.H)
	case at < 0:
		return "δ"
	case at < 32*len(x.P2.Z):
		return fmt.Sprintf("Z[%d]", at/32)
	}
	return fmt.Sprintf("PKK[%d]", at/32-len(x.P2.Z))
}

func (x *Init2) diffEvals(b []byte) string {
	i := firstDiff(b, x.evals())
	off := 0
	for _, s := range []struct {
		name string
		n    int
		size int
	}{{"α, β", 4, 32}, {"A", len(x.A), 32}, {"B₁", len(x.B), 32}, {"B₂", len(x.B), 64}, {"VKK", len(x.VKK), 32}, {"CKK", len(x.CKK), 32}} {
		l := s.n * s.size
		if s.name != "α, β" {
			if i < off+4 {
				return "length of " + s.name
			}
			off += 4
		}
		if i < off+l {
			return fmt.Sprintf("%s[%d]", s.name, (i-off)/s.size)
		}
		off += l
	}
	return "end"
}

// ---------------------------------------------------------------------------------- families of circuits

type named struct {
	name string
	c    *Circ
}

func tm(c E, w int) T { return T{c, w} }

// exprs are linear expressions over wires 0 to 3.
func exprs(level int) []kv[[]T] {
	r := erand("coef")
	e := []kv[[]T]{
		{"0", nil},
		{"w1", []T{tm(oneE, 1)}},
		{"rw3+1", []T{tm(r, 3), tm(oneE, 0)}},
		{"-w2", []T{tm(ei(-1), 2)}},
		{"2w3", []T{tm(ei(2), 3)}},
		{"w1+w1", []T{tm(oneE, 1), tm(oneE, 1)}},
		{"-2w1", []T{tm(ei(-2), 1)}},
		{"3w2", []T{tm(ei(3), 2)}},
		{"0w2", []T{tm(zeroE, 2)}},
		{"w2-w2", []T{tm(oneE, 2), tm(ei(-1), 2)}},
		{"2w2+2w2", []T{tm(ei(2), 2), tm(ei(2), 2)}},
		{"1", []T{tm(oneE, 0)}},
		{"-w3-w3", []T{tm(ei(-1), 3), tm(ei(-1), 3)}},
		{"rw1-2w2", []T{tm(r, 1), tm(ei(-2), 2)}},
	}
	if level == 0 {
		return e[:4]
	}
	if level == 1 {
		return e
	}
	for w := 0; w < 4; w++ {
		for _, k := range []kv[E]{{"0", zeroE}, {"", oneE}, {"2", ei(2)}, {"-", ei(-1)}, {"-2", ei(-2)}, {"5", ei(5)}, {"q", erand("coef2")}} {
			e = append(e, kv[[]T]{fmt.Sprintf("%s.w%d", k.k, w), []T{tm(k.v, w)}})
		}
	}
	return e
}

// generic is a circuit of n constraints in which every wire is used in every role.
func generic(pub, sec, internal, n int) *Circ {
	c := &Circ{Pub: pub, Sec: sec, Int: internal}
	w := c.wires()
	co := []E{oneE, ei(2), ei(-1), ei(-2), erand("g1"), erand("g2")}
	for i := 0; i < n; i++ {
		c.Cons = append(c.Cons, Con{
			L: []T{tm(co[i%6], i%w), tm(co[(i+3)%6], (i+1)%w)},
			R: []T{tm(co[(i+1)%6], (i+2)%w)},
			O: []T{tm(co[(i+4)%6], (2*i+1)%w), tm(co[(i+5)%6], (i+w-1)%w)},
		})
	}
	return c
}

// lazyCirc has blocks instances of a block of k constraints, with ordinary constraints around them.
func lazyCirc(k, blocks, before, between, after int, lazify bool) *Circ {
	c := &Circ{Pub: 2, Sec: 1, Lazify: lazify}
	next := 3
	plain := func(n int) {
		for i := 0; i < n; i++ {
			c.Cons = append(c.Cons, Con{L: []T{tm(oneE, 2)}, R: []T{tm(ei(int64(3+next)), next-1)}, O: []T{tm(oneE, next)}})
			next++
		}
	}
	plain(before)
	for b := 0; b < blocks; b++ {
		from := len(c.Cons)
		for i := 0; i < k; i++ {
			in := []T{tm(ei(7), next-1), tm(erand(fmt.Sprint("lz", i)), 0)}
			if i == 0 {
				in = []T{tm(oneE, 2), tm(ei(2), 0)} // the input of the block
			}
			o := []T{tm(oneE, next)}
			if i > 0 {
				o = append(o, tm(ei(-1), next-1))
			}
			c.Cons = append(c.Cons, Con{L: in, R: in, O: o})
			next++
		}
		c.Blocks = append(c.Blocks, block{from, len(c.Cons)})
		if b < blocks-1 {
			plain(between)
		}
	}
	plain(after)
	c.Int = next - 3
	return c
}
