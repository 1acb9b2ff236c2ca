package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/bnb-chain/zkbnb-setup/phase1"
	"github.com/bnb-chain/zkbnb-setup/phase2"
)

// ------------------------------------------------------------------- attestation of contributions (C09)

func sameHashes(out string, want []string) error {
	got := hashesIn(out)
	if len(got) != len(want) {
		return fmt.Errorf("%d hashes were printed rather than %d", len(got), len(want))
	}
	for i := range want {
		if !strings.EqualFold(got[i], want[i]) {
			return fmt.Errorf("hash %d printed is %s rather than %s", i+1, got[i], want[i])
		}
	}
	return nil
}

func init() {
	register(&Check{ID: "C09", Level: "model_checking",
		Rule:   "a case is a ceremony of the real code in which each contribution and each verification after it is run with its output collected: the hashes printed must be those of the model (SHA-256 of the record) and earlier records must stay as they are; also files of the model with any one earlier record exchanged",
		Assume: []string{"SHA-256"},
		Gen: func(g *Gen) {
			depth := 4
			powers := []int{1, 2}
			if g.Thorough() {
				depth, powers = 9, []int{1, 2, 3, 4}
			}
			for _, power := range powers {
				for start := 0; start <= 3; start++ {
					for _, base := range []string{"", "ppot"} {
						g.Case(fmt.Sprintf("ph1/power=%d/after=%d/base=%s", power, start, base), func(c *Ctx) {
							p := honest1(power, start, base)
							writeFile("in.ph1", p.bytes())
							var want []string
							for i := range p.Cs {
								want = append(want, hex.EncodeToString(p.Cs[i].hash()))
							}
							_, _, _, _, _, end := offP1(p.N())
							records := readFile("in.ph1")[end:]
							for i := 0; i < depth; i++ {
								c.Transition()
								out, err := capture(func() error {
									return withRNG(newRNG(fmt.Sprint("C09", i)), func() error { return phase1.Contribute("in.ph1", "out.ph1") })
								})
								if err != nil {
									c.Failf("contribution: %v", err)
									return
								}
								b := readFile("out.ph1")
								if len(b) != end+len(records)+640 || !bytes.Equal(b[end:end+len(records)], records) {
									c.Failf("the records of the earlier contributions have changed")
									return
								}
								records = b[end:]
								last := records[len(records)-640:]
								h := hex.EncodeToString(sum(last[:608]))
								if hex.EncodeToString(last[608:]) != h {
									c.Failf("the hash in the record isn't the SHA-256 of the record")
									return
								}
								if err := sameHashes(out, []string{h}); err != nil {
									c.Failf("output of the contribution: %v", err)
									return
								}
								want = append(want, h)
								c.State(b)
								writeFile("in.ph1", b)
								writeFile("base.ph1", honest1(power, 0, base).bytes())
								tr := ""
								if base != "" {
									tr = "base.ph1"
								}
								c.Transition()
								out, err = capture(func() error { return phase1.Verify("in.ph1", tr) })
								if err != nil {
									c.Failf("verification: %v", err)
									return
								}
								if err := sameHashes(out, want); err != nil {
									c.Failf("output of the verification: %v", err)
									return
								}
								c.Trace()
							}
						})
					}
				}
			}
			for _, dw := range [][2]int{{2, 0}, {2, 1}, {4, 3}, {4, 117}, {4, 118}, {4, 119}, {4, 120}, {4, 121}, {4, 122}} {
				for start := 0; start <= 3; start++ {
					g.Case(fmt.Sprintf("ph2/%v/after=%d", dw, start), func(c *Ctx) {
						o := origin2(dw[0], dw[1], plainHeader)
						p := o.honest(start)
						b := p.bytes()
						writeFile("in.ph2", b)
						writeFile("origin.ph2", o.bytes())
						var want []string
						for i := range p.Cs {
							want = append(want, hex.EncodeToString(p.Cs[i].hash()))
						}
						records := b[len(b)-rec2*start:]
						for i := 0; i < depth; i++ {
							c.Transition()
							out, err := capture(func() error {
								return withRNG(newRNG(fmt.Sprint("C09", i)), func() error { return phase2.Contribute("in.ph2", "out.ph2") })
							})
							if err != nil {
								c.Failf("contribution: %v", err)
								return
							}
							b := readFile("out.ph2")
							if len(b) < len(records)+rec2 || !bytes.Equal(b[len(b)-rec2-len(records):len(b)-rec2], records) {
								c.Failf("the records of the earlier contributions have changed")
								return
							}
							records = b[len(b)-rec2-len(records):]
							last := records[len(records)-rec2:]
							h := hex.EncodeToString(sum(last[:160]))
							if hex.EncodeToString(last[160:]) != h {
								c.Failf("the hash in the record isn't the SHA-256 of the record")
								return
							}
							if err := sameHashes(out, []string{h}); err != nil {
								c.Failf("output of the contribution: %v", err)
								return
							}
							want = append(want, h)
							c.State(b)
							writeFile("in.ph2", b)
							c.Transition()
							out, err = capture(func() error { return phase2.Verify("in.ph2", "origin.ph2") })
							if err != nil {
								c.Failf("verification: %v", err)
								return
							}
							if err := sameHashes(out, want); err != nil {
								c.Failf("output of the verification: %v", err)
								return
							}
							c.Trace()
						}
					})
				}
			}
			genSpecialHashes(g)
			// the records of others come through byte by byte, whatever is in them
			for k := 1; k <= 3; k++ {
				for i := 0; i < k; i++ {
					for bit := 0; bit < 8; bit++ {
						g.Case(fmt.Sprintf("ph1 copy/k=%d/#%d/hash bit %d", k, i+1, bit*36), func(c *Ctx) {
							p := honest1(1, k, "").clone()
							h := append([]byte{}, p.Cs[i].hash()...)
							h[bit*36/8] ^= 1 << (bit * 37 % 8)
							p.Cs[i].Hash = h
							writeFile("in.ph1", p.bytes())
							contribute1(c, p, "", "", "C09c")
						})
						g.Case(fmt.Sprintf("ph2 copy/k=%d/#%d/hash bit %d", k, i+1, bit*36), func(c *Ctx) {
							p := origin2(2, 1, plainHeader).honest(k)
							h := append([]byte{}, p.Cs[i].hash()...)
							h[bit*36/8] ^= 1 << (bit * 37 % 8)
							p.Cs[i].Hash = h
							writeFile("in.ph2", p.bytes())
							contribute2(c, p, "", "C09c")
						})
					}
				}
			}
		}})
}
