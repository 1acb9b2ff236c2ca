package main

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"os"
	"path/filepath"
	"reflect"

	"github.com/bnb-chain/zkbnb-setup/keys"
	"github.com/bnb-chain/zkbnb-setup/phase1"
	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark/backend/groth16"
	"github.com/consensys/gnark/backend/witness"
	"github.com/consensys/gnark/constraint"
	cs_bn254 "github.com/consensys/gnark/constraint/bn254"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
)

// ------------------------------------------------------------------- checks of the keys (C12, C13, C14)

// Waste are the combined secrets of a ceremony.
type Waste struct{ T, A, B, D E }

// trusted makes the keys of a circuit with gnark's own trusted setup, given the secrets.
func trusted[V any](w Waste, f func() (V, error)) V {
	rng := newRNG("trusted")
	rng.Script = map[int][]byte{}
	for i, e := range []E{w.T, w.A, w.B, oneE, w.D} {
		rng.Script[i] = entropyOf(e)
	}
	var v V
	mustNil(withRNG(rng, func() (err error) { v, err = f(); return }))
	return v
}

// reference is the constraint system for the trusted setup: it needs two constraints at least, since the
// domains of the code under test have two elements at least.
func (c *Circ) reference() *cs_bn254.R1CS {
	if len(c.Cons) > 1 {
		return c.build()
	}
	d := *c
	d.Lazify, d.Blocks = false, nil
	d.Cons = append(append([]Con{}, c.Cons...), Con{})
	return d.build()
}

type pair struct {
	pk groth16.ProvingKey
	vk groth16.VerifyingKey
}

// vkFile is a verifying key, of which the commitment key is taken apart.
type vkFile struct {
	g, root         bn254.G2Affine
	expSigma, basis []bn254.G1Affine
	points          []byte
	info            constraint.Commitment
	ckey            []byte // the bytes of the commitment key
}

func parseVK(b []byte) (v *vkFile, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("the verifying key is cut off")
		}
	}()
	all := b
	v = &vkFile{}
	g2 := func() (p bn254.G2Affine) {
		_, e := p.SetBytes(b[:128])
		if e != nil {
			err = e
		}
		b = b[128:]
		return
	}
	g1s := func() (l []bn254.G1Affine) {
		n := binary.BigEndian.Uint32(b)
		b = b[4:]
		for ; n > 0; n-- {
			var p bn254.G1Affine
			if _, e := p.SetBytes(b[:64]); e != nil {
				err = e
			}
			b = b[64:]
			l = append(l, p)
		}
		return
	}
	v.g, v.root = g2(), g2()
	v.expSigma, v.basis = g1s(), g1s()
	v.ckey = all[:len(all)-len(b)]
	if err != nil {
		return nil, err
	}
	n := int(binary.BigEndian.Uint32(b[576:])) // after 3 points of G₁ and 3 of G₂
	v.points, b = b[:580+64*n], b[580+64*n:]
	rd := bytes.NewReader(b)
	if err := gob.NewDecoder(rd).Decode(&v.info); err != nil {
		return nil, fmt.Errorf("commitment info of the verifying key: %v", err)
	}
	if rd.Len() != 0 {
		return nil, fmt.Errorf("%d bytes after the verifying key", rd.Len())
	}
	return v, nil
}

// checkVK compares a verifying key with that of the trusted setup.
func checkVK(got, want []byte) error {
	v, err := parseVK(got)
	if err != nil {
		return err
	}
	w, err := parseVK(want)
	mustNil(err)
	if !bytes.Equal(v.points, w.points) {
		i := firstDiff(v.points, w.points)
		name := ""
		switch {
		case i < 64:
			name = "[α]₁"
		case i < 128:
			name = "[β]₁"
		case i < 256:
			name = "[β]₂"
		case i < 384:
			name = "[γ]₂"
		case i < 448:
			name = "[δ]₁"
		case i < 576:
			name = "[δ]₂"
		case i < 580:
			name = "the length of K"
		default:
			name = fmt.Sprintf("K[%d]", (i-580)/64)
		}
		return fmt.Errorf("%s of the verifying key isn't that of the trusted setup", name)
	}
	if !sameInfo(v.info, w.info) {
		return fmt.Errorf("the commitment info of the verifying key is %v rather than %v", v.info, w.info)
	}
	if len(v.basis) != len(w.basis) || len(v.expSigma) != len(w.basis) {
		return fmt.Errorf("the commitment key has %d, %d points rather than %d", len(v.basis), len(v.expSigma), len(w.basis))
	}
	if len(w.basis) > 0 && (v.g.IsInfinity() || v.root.IsInfinity() || v.g.Equal(&v.root)) {
		return fmt.Errorf("the commitment key is degenerate")
	}
	for i := range v.basis {
		if !v.basis[i].Equal(&w.basis[i]) {
			return fmt.Errorf("basis[%d] of the commitment key isn't that of the trusted setup", i)
		}
		ok, err := bn254.PairingCheck([]bn254.G1Affine{v.basis[i], v.expSigma[i]}, []bn254.G2Affine{v.g, v.root})
		if err != nil || !ok || v.expSigma[i].Equal(&v.basis[i]) && !v.basis[i].IsInfinity() {
			return fmt.Errorf("basisExpSigma[%d] of the commitment key isn't σ·basis[%d]", i, i)
		}
	}
	return nil
}

func diffPK(got, want []byte, circ *Circ) string {
	i := firstDiff(got, want)
	return fmt.Sprintf("the proving key differs from that of the trusted setup at byte %d (%d bytes, %d in the trusted one)", i, len(got), len(want))
}

func extract(split bool) error {
	return withRNG(newRNG("extract"), func() error {
		if split {
			return keys.ExtractSplitKeys("k.ph2", "s")
		}
		return keys.ExtractKeys("k.ph2")
	})
}

var pkParts = []string{"E", "A", "B1", "Z", "K", "B2"}

// ceremony2 initializes phase 2 for the circuit and makes m contributions: k.ph2 is the final file.
func ceremony2(c *Ctx, circ *Circ, p *P1, m int, script string) (Waste, bool) {
	x := initialize2(c, circ, p)
	if x == nil {
		return Waste{}, false
	}
	q := x.P2
	mustNil(os.Rename("o.ph2", "in.ph2"))
	for i := 0; i < m; i++ {
		if q = contribute2(c, q, script, fmt.Sprint("keys", i)); q == nil {
			return Waste{}, false
		}
		mustNil(os.Rename("out.ph2", "in.ph2"))
	}
	mustNil(os.Rename("in.ph2", "k.ph2"))
	return Waste{p.T1[1], p.A1[0], p.B1[0], q.D1}, true
}

// checkKeys extracts the keys and compares them with those of the trusted setup.
func checkKeys(c *Ctx, ref *cs_bn254.R1CS, w Waste) {
	c.Transition()
	if err := extract(false); err != nil {
		c.Failf("the extraction of the keys failed: %v", err)
		return
	}
	k := trusted(w, func() (k pair, err error) { k.pk, k.vk, err = groth16.Setup(ref); return })
	var pk, vk bytes.Buffer
	_, err := k.pk.WriteTo(&pk)
	mustNil(err)
	_, err = k.vk.WriteRawTo(&vk)
	mustNil(err)
	if b := readFile("pk"); !bytes.Equal(b, pk.Bytes()) {
		c.Failf("%s", diffPK(b, pk.Bytes(), nil))
		return
	}
	b := readFile("vk")
	if err := checkVK(b, vk.Bytes()); err != nil {
		c.Failf("%v", err)
		return
	}
	c.Trace()
	c.State(pk.Bytes())
}

// checkSplitKeys extracts the split keys and compares them with the proof system's own dump of the keys of
// the trusted setup, and with the split of the keys in one piece.
func checkSplitKeys(c *Ctx, ref *cs_bn254.R1CS, w Waste) {
	c.Transition()
	if err := extract(true); err != nil {
		c.Failf("the extraction of the split keys failed: %v", err)
		return
	}
	mustNil(os.MkdirAll("t", 0o755))
	trusted(w, func() (struct{}, error) { return struct{}{}, groth16.SetupDumpKeys(ref, "t/s") })
	for _, p := range pkParts {
		n := "s.pk." + p + ".save"
		if got, want := readFile(n), readFile(filepath.Join("t", n)); !bytes.Equal(got, want) {
			c.Failf("%s differs from that of the trusted setup at byte %d (%d bytes, %d in the trusted one)", n, firstDiff(got, want), len(got), len(want))
			return
		}
		c.State(readFile(n))
	}
	vk := readFile("s.vk.save")
	if err := checkVK(vk, readFile("t/s.vk.save")); err != nil {
		c.Failf("split: %v", err)
		return
	}
	v, err := parseVK(vk)
	mustNil(err)
	if !bytes.Equal(readFile("s.pk.CommitmentKey.save"), v.ckey) {
		c.Failf("the commitment key of the split proving key isn't that of the verifying key")
		return
	}
	c.Trace()
}

// --------------------------------------------------------------------------- proofs with the extracted keys

type compiled struct {
	name   string
	make   func() frontend.Circuit
	assign func(v []int) frontend.Circuit // values of the public, then the secret variables
	pub    int
	n      int
	sat    func(v []int) bool
	free   []int // public variables which the constraints leave free
	lazy   bool
	vals   int // the variables take the values below
}

func compile(f compiled) *cs_bn254.R1CS {
	r, err := frontend.Compile(ecc.BN254.ScalarField(), r1cs.NewBuilder, f.make(), frontend.IgnoreUnconstrainedInputs())
	mustNil(err)
	if f.lazy {
		r.Lazify()
	}
	return r.(*cs_bn254.R1CS)
}

func publicOf(w witness.Witness) witness.Witness {
	p, err := w.Public()
	mustNil(err)
	return p
}

func prove(r *cs_bn254.R1CS, split bool, w witness.Witness) (groth16.Proof, error) {
	if split {
		pks, err := groth16.ReadSegmentProveKey(ecc.BN254, "s")
		if err != nil {
			return nil, err
		}
		return groth16.ProveRoll(r, pks[0], pks[1], w, "s")
	}
	pk := groth16.NewProvingKey(ecc.BN254)
	f, err := os.Open("pk")
	mustNil(err)
	defer f.Close()
	if _, err := pk.ReadFrom(f); err != nil {
		return nil, fmt.Errorf("the proving key can't be read: %v", err)
	}
	// the format of proving keys leaves the commitment key to the verifying key
	vk, err := readVK("vk")
	if err != nil {
		return nil, err
	}
	reflect.ValueOf(pk).Elem().FieldByName("CommitmentKey").Set(reflect.ValueOf(vk).Elem().FieldByName("CommitmentKey"))
	return groth16.Prove(r, pk, w)
}

func readVK(name string) (groth16.VerifyingKey, error) {
	vk := groth16.NewVerifyingKey(ecc.BN254)
	b := bytes.NewReader(readFile(name))
	if _, err := vk.ReadFrom(b); err != nil {
		return nil, fmt.Errorf("the verifying key can't be read: %v", err)
	}
	return vk, nil
}

// proofs proves every satisfying assignment of small values, and verifies the proof for all public inputs.
func proofs(c *Ctx, f compiled, r *cs_bn254.R1CS, split bool) {
	name := "vk"
	if split {
		name = "s.vk.save"
	}
	vk, err := readVK(name)
	if err != nil {
		c.Failf("%v", err)
		return
	}
	free := map[int]bool{}
	for _, i := range f.free {
		free[i] = true
	}
	sat := 0
	for i := 0; i < ipow(f.vals, f.n); i++ {
		v := digits(i, f.vals, f.n)
		if !f.sat(v) {
			continue
		}
		sat++
		w, err := frontend.NewWitness(f.assign(v), ecc.BN254.ScalarField())
		mustNil(err)
		proof, err := prove(r, split, w)
		if err != nil {
			c.Failf("no proof for %v: %v", v, err)
			return
		}
		for j := 0; j < ipow(f.vals+1, f.pub); j++ {
			u := append(digits(j, f.vals+1, f.pub), v[f.pub:]...)
			same := true
			for k := 0; k < f.pub; k++ {
				same = same && (u[k] == v[k] || free[k])
			}
			x := publicOf(must1(frontend.NewWitness(f.assign(u), ecc.BN254.ScalarField())))
			c.Eval()
			if err := groth16.Verify(proof, vk, x); (err == nil) != same {
				if same {
					c.Failf("the proof for %v doesn't verify: %v", v, err)
				} else {
					c.Failf("the proof for the public inputs %v verifies for %v", v[:f.pub], u[:f.pub])
				}
				return
			}
		}
	}
	mustf(sat > 0, "no assignment of %s", f.name)
}

func must1[V any](v V, err error) V { mustNil(err); return v }

func digits(i, base, n int) []int {
	d := make([]int, n)
	for k := range d {
		d[k] = i % base
		i /= base
	}
	return d
}

// ceremonyOf runs a whole ceremony with the real code: k1 and k2 contributions, all verified.
func ceremonyOf(c *Ctx, r *cs_bn254.R1CS, power, k1, k2 int, split int) (Waste, bool) {
	step := func(what string, f func() error) bool {
		c.Transition()
		if err := withRNG(newRNG("ceremony"+what), f); err != nil {
			c.Failf("%s failed: %v", what, err)
			return false
		}
		return true
	}
	if !step("initialization of phase 1", func() error { return phase1.Initialize(byte(power), "in.ph1") }) {
		return Waste{}, false
	}
	p := newP1(power, unitBase)
	for i := 0; i < k1; i++ {
		if p = contribute1(c, p, "", "", fmt.Sprint("whole", i)); p == nil {
			return Waste{}, false
		}
		mustNil(os.Rename("out.ph1", "in.ph1"))
		if !step("verification of phase 1", func() error { return phase1.Verify("in.ph1", "") }) {
			return Waste{}, false
		}
	}
	writeR1CS(r, "c.r1cs")
	if split > 0 {
		splitR1CS("c.r1cs", split)
		if !step("initialization of phase 2", func() error {
			return phase2.InitializeFromPartedR1CS("in.ph1", fmt.Sprintf("parts%d/s", split), "0.ph2", r.GetNbConstraints(), r.GetNbR1C(), split)
		}) {
			return Waste{}, false
		}
	} else if !step("initialization of phase 2", func() error { return phase2.Initialize("in.ph1", "c.r1cs", "0.ph2") }) {
		return Waste{}, false
	}
	d := oneE
	writeFile("in.ph2", readFile("0.ph2"))
	for i := 0; i < k2; i++ {
		rng := newRNG(fmt.Sprint("whole2", i))
		c.Transition()
		if err := withRNG(rng, func() error { return phase2.Contribute("in.ph2", "out.ph2") }); err != nil {
			c.Failf("a contribution to phase 2 failed: %v", err)
			return Waste{}, false
		}
		// which of the secrets was δ
		b, h := readFile("out.ph2"), phase2.Header{}
		mustNil(h.Read(bytes.NewReader(b)))
		at := len(gobOf(h))
		found := false
		for _, x := range rng.candidates() {
			if bytes.Equal(b1(G1(emul(d, x))), b[at:at+32]) {
				d, found = emul(d, x), true
				break
			}
		}
		if !found {
			c.Failf("δ of a contribution to phase 2 isn't the preceding one times a sampled secret")
			return Waste{}, false
		}
		mustNil(os.Rename("out.ph2", "in.ph2"))
		if !step("verification of phase 2", func() error { return phase2.Verify("in.ph2", "0.ph2") }) {
			return Waste{}, false
		}
	}
	mustNil(os.Rename("in.ph2", "k.ph2"))
	c.Trace()
	return Waste{p.T1[1], p.A1[0], p.B1[0], d}, true
}

func init() {
	register(&Check{ID: "C12", Level: "model_checking", NoGC: true,
		Rule:   "a case is one circuit and history of a ceremony up to the extraction of the keys; the proving key must be byte by byte, and the verifying key point by point, those which gnark's own trusted setup makes of the combined secrets; for compiled circuits every satisfying assignment of small values is proved and its proof verified against all public inputs of small values",
		Assume: []string{"gnark's trusted setup, prover and verifier"},
		Gen: func(g *Gen) {
			circuits(g.Thorough(), func(name string, circ *Circ) {
				m := int(hashKey(name) % 3)
				g.Case(fmt.Sprintf("%s/contributions=%d", name, m), func(c *Ctx) {
					if w, ok := ceremony2(c, circ, ph1For(1, "one"), m, ""); ok {
						checkKeys(c, circ.reference(), w)
					}
				})
			})
			ns, ms := []int{1, 2, 3, 4, 5, 8, 9}, []int{0, 1, 2}
			if g.Thorough() {
				ns, ms = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33}, []int{0, 1, 2, 3, 4}
			}
			for _, d := range hugeCircuits {
				g.Case(fmt.Sprintf("large/%v", d), func(c *Ctx) {
					circ := generic(d[0], d[1], d[2], d[3])
					if w, ok := ceremony2(c, circ, ph1For(log2(domainOf(d[3])), "one"), 1, ""); ok {
						checkKeys(c, circ.reference(), w)
					}
				})
			}
			for _, d := range [][4]int{{1, 0, 0, 16}, {2, 3, 0, 17}, {5, 0, 9, 33}, {40, 0, 1, 20}, {1, 70, 0, 30}, {3, 2, 100, 64}, {9, 20, 33, 100}, {2, 1, 300, 129}, {17, 0, 0, 257}, {100, 100, 100, 300}, {1, 1, 1, 1000}, {1, 600, 3, 5}} {
				for m := 0; m <= 1; m++ {
					g.Case(fmt.Sprintf("large/pub=%d,sec=%d,int=%d,cons=%d/contributions=%d", d[0], d[1], d[2], d[3], m), func(c *Ctx) {
						circ := generic(d[0], d[1], d[2], d[3])
						if w, ok := ceremony2(c, circ, ph1For(log2(domainOf(d[3])), "one"), m, ""); ok {
							checkKeys(c, circ.reference(), w)
						}
					})
				}
			}
			for pub := 1; pub <= 3; pub++ {
				for sec := 0; sec <= 2; sec++ {
					for in := 0; in <= 2; in++ {
						for _, n := range ns {
							for _, m := range ms {
								pub, sec, in, n, m := pub, sec, in, n, m
								g.Case(fmt.Sprintf("dims/pub=%d,sec=%d,int=%d,cons=%d/contributions=%d", pub, sec, in, n, m), func(c *Ctx) {
									circ := generic(pub, sec, in, n)
									kind := []string{"one", "two", "ppot"}[(pub+sec+in+n)%3]
									if w, ok := ceremony2(c, circ, ph1For(log2(domainOf(n))+n%2, kind), m, ""); ok {
										checkKeys(c, circ.reference(), w)
									}
								})
							}
						}
					}
				}
			}
			for _, w := range words([]string{"r", "1", "-", "x"}, 2) {
				w := w
				g.Case("draws/"+w, func(c *Ctx) {
					circ := generic(2, 1, 2, 3)
					if ws, ok := ceremony2(c, circ, ph1For(2, "one"), 2, w); ok {
						checkKeys(c, circ.reference(), ws)
					}
				})
			}
			lazies(g.Thorough(), func(name string, circ *Circ) {
				g.Case(name, func(c *Ctx) {
					if w, ok := ceremony2(c, circ, ph1For(log2(domainOf(len(circ.Cons))), "one"), 1, ""); ok {
						checkKeys(c, circ.reference(), w)
					}
				})
			})
			for _, f := range frontends(g.Thorough()) {
				for k1 := 1; k1 <= 2; k1++ {
					for k2 := 0; k2 <= 2; k2++ {
						f, k1, k2 := f, k1, k2
						g.Case(fmt.Sprintf("ceremony/%s/%d+%d", f.name, k1, k2), func(c *Ctx) {
							r := compile(f)
							if w, ok := ceremonyOf(c, r, log2(domainOf(r.GetNbConstraints())), k1, k2, (k1+k2)%2*2); ok {
								if r.GetNbConstraints() > 1 {
									checkKeys(c, r, w)
								} else if err := extract(false); err != nil {
									c.Failf("%v", err)
								}
								if !c.Failed() {
									proofs(c, f, r, false)
								}
							}
						})
					}
				}
			}
		}})

	register(&Check{ID: "C13", Level: "model_checking", NoGC: true,
		Rule:   "a case is one circuit and history of a ceremony up to the extraction of the split keys; every part must be byte by byte that which gnark's own split dump of a trusted setup with the combined secrets has (which is what the keys in one piece are compared with); for compiled circuits every satisfying assignment of small values is proved with the split keys and verified",
		Assume: []string{"gnark's trusted setup, split dump, prover and verifier"},
		Gen: func(g *Gen) {
			circuits(g.Thorough(), func(name string, circ *Circ) {
				if !g.Thorough() && hashKey(name)%4 != 0 {
					return
				}
				m := int(hashKey(name) / 4 % 3)
				g.Case(fmt.Sprintf("%s/contributions=%d", name, m), func(c *Ctx) {
					if w, ok := ceremony2(c, circ, ph1For(1, "one"), m, ""); ok {
						checkSplitKeys(c, circ.reference(), w)
					}
				})
			})
			ns := []int{1, 2, 3, 4, 5, 8, 9}
			if g.Thorough() {
				ns = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33}
			}
			for _, d := range hugeCircuits {
				g.Case(fmt.Sprintf("large/%v", d), func(c *Ctx) {
					circ := generic(d[0], d[1], d[2], d[3])
					if w, ok := ceremony2(c, circ, ph1For(log2(domainOf(d[3])), "one"), 1, ""); ok {
						checkSplitKeys(c, circ.reference(), w)
					}
				})
			}
			for _, d := range [][4]int{{1, 0, 0, 16}, {2, 3, 0, 17}, {5, 0, 9, 33}, {40, 0, 1, 20}, {1, 70, 0, 30}, {3, 2, 100, 64}, {9, 20, 33, 100}, {2, 1, 300, 129}, {17, 0, 0, 257}, {100, 100, 100, 300}, {1, 1, 1, 1000}, {1, 600, 3, 5}} {
				for m := 0; m <= 1; m++ {
					g.Case(fmt.Sprintf("large/pub=%d,sec=%d,int=%d,cons=%d/contributions=%d", d[0], d[1], d[2], d[3], m), func(c *Ctx) {
						circ := generic(d[0], d[1], d[2], d[3])
						if w, ok := ceremony2(c, circ, ph1For(log2(domainOf(d[3])), "one"), m, ""); ok {
							checkSplitKeys(c, circ.reference(), w)
						}
					})
				}
			}
			for pub := 1; pub <= 3; pub++ {
				for sec := 0; sec <= 2; sec++ {
					for in := 0; in <= 2; in++ {
						for _, n := range ns {
							for m := 0; m <= 1; m++ {
								pub, sec, in, n, m := pub, sec, in, n, m
								g.Case(fmt.Sprintf("dims/pub=%d,sec=%d,int=%d,cons=%d/contributions=%d", pub, sec, in, n, m), func(c *Ctx) {
									circ := generic(pub, sec, in, n)
									kind := []string{"one", "two", "ppot"}[(pub+sec+in+n)%3]
									if w, ok := ceremony2(c, circ, ph1For(log2(domainOf(n))+n%2, kind), m, ""); ok {
										checkSplitKeys(c, circ.reference(), w)
									}
								})
							}
						}
					}
				}
			}
			commitments(g.Thorough(), func(name string, circ *Circ) {
				g.Case(name, func(c *Ctx) {
					if w, ok := ceremony2(c, circ, ph1For(log2(domainOf(len(circ.Cons))), "one"), 1, ""); ok {
						checkSplitKeys(c, circ.reference(), w)
					}
				})
			})
			for _, f := range frontends(g.Thorough()) {
				for k2 := 0; k2 <= 1; k2++ {
					f, k2 := f, k2
					g.Case(fmt.Sprintf("ceremony/%s/1+%d", f.name, k2), func(c *Ctx) {
						r := compile(f)
						if w, ok := ceremonyOf(c, r, log2(domainOf(r.GetNbConstraints())), 1, k2, k2*2); ok {
							if r.GetNbConstraints() > 1 {
								checkSplitKeys(c, r, w)
							} else if err := extract(true); err != nil {
								c.Failf("%v", err)
							}
							if !c.Failed() {
								proofs(c, f, r, true)
							}
						}
					})
				}
			}
		}})

	register(&Check{ID: "C14", Level: "model_checking", NoGC: true,
		Rule:   "a case is one circuit with commitments: every set of committed wires of every small shape (matrices), and every set of committed variables of compiled circuits; the initialization is compared with the model, the keys (whole and split) with gnark's trusted setup, their commitment keys by pairings, and the compiled ones are proved and verified",
		Assume: []string{"gnark's trusted setup, prover and verifier"},
		Gen: func(g *Gen) {
			commitments(g.Thorough(), func(name string, circ *Circ) {
				m := int(hashKey(name) % 3)
				g.Case(fmt.Sprintf("%s/contributions=%d", name, m), func(c *Ctx) {
					if w, ok := ceremony2(c, circ, ph1For(log2(domainOf(len(circ.Cons))), "one"), m, ""); ok {
						checkKeys(c, circ.reference(), w)
						if !c.Failed() {
							checkSplitKeys(c, circ.reference(), w)
						}
					}
				})
			})
			for _, f := range committing(g.Thorough()) {
				for split := 0; split <= 1; split++ {
					f, split := f, split
					g.Case(fmt.Sprintf("ceremony/%s/parts=%d", f.name, split), func(c *Ctx) {
						r := compile(f)
						if w, ok := ceremonyOf(c, r, log2(domainOf(r.GetNbConstraints())), 1, 1, split*3); ok {
							checkKeys(c, r, w)
							if !c.Failed() {
								checkSplitKeys(c, r, w)
							}
							if !c.Failed() {
								proofs(c, f, r, false)
							}
							if !c.Failed() {
								proofs(c, f, r, true)
							}
						}
					})
				}
			}
		}})
}
