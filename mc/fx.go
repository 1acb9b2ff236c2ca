package main

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"sort"
	"sync"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

// The reference model describes every point by its exponent.

type E = fr.Element

func ei(x int64) E      { var e E; e.SetInt64(x); return e }
func eadd(a, b E) E     { var e E; e.Add(&a, &b); return e }
func esub(a, b E) E     { var e E; e.Sub(&a, &b); return e }
func emul(a, b E) E     { var e E; e.Mul(&a, &b); return e }
func einv(a E) E        { var e E; e.Inverse(&a); return e }
func eneg(a E) E        { var e E; e.Neg(&a); return e }
func epow(a E, n int) E { var e E; e.Exp(a, big.NewInt(int64(n))); return e }
func ebig(a E) *big.Int { var b big.Int; a.BigInt(&b); return &b }
func erand(seed string) E {
	h := sha256.Sum256([]byte("exp|" + seed))
	var e E
	e.SetBytes(h[:])
	return e
}
func eq(a, b E) bool { return a.Equal(&b) }
func estr(a E) string {
	s := a.String()
	if len(s) > 12 {
		s = s[:5] + ".." + s[len(s)-5:]
	}
	return s
}

var (
	zeroE   = ei(0)
	oneE    = ei(1)
	g1Gen   bn254.G1Affine
	g2Gen   bn254.G2Affine
	cacheMu sync.Mutex
	cache1  = map[E]bn254.G1Affine{}
	cache2  = map[E]bn254.G2Affine{}
)

func init() { _, _, g1Gen, g2Gen = bn254.Generators() }

// G1 is the point of exponent e.
func G1(e E) bn254.G1Affine {
	cacheMu.Lock()
	p, ok := cache1[e]
	cacheMu.Unlock()
	if ok {
		return p
	}
	p.ScalarMultiplication(&g1Gen, ebig(e))
	cacheMu.Lock()
	if len(cache1) > 200000 {
		cache1 = map[E]bn254.G1Affine{}
	}
	cache1[e] = p
	cacheMu.Unlock()
	return p
}
func G2(e E) bn254.G2Affine {
	cacheMu.Lock()
	p, ok := cache2[e]
	cacheMu.Unlock()
	if ok {
		return p
	}
	p.ScalarMultiplication(&g2Gen, ebig(e))
	cacheMu.Lock()
	if len(cache2) > 200000 {
		cache2 = map[E]bn254.G2Affine{}
	}
	cache2[e] = p
	cacheMu.Unlock()
	return p
}

// g1s and g2s are the points of the exponents.
func g1s(es []E) []bn254.G1Affine {
	if len(es) >= 256 {
		return bn254.BatchScalarMultiplicationG1(&g1Gen, es)
	}
	r := make([]bn254.G1Affine, len(es))
	for i, e := range es {
		r[i] = G1(e)
	}
	return r
}
func g2s(es []E) []bn254.G2Affine {
	if len(es) >= 256 {
		return bn254.BatchScalarMultiplicationG2(&g2Gen, es)
	}
	r := make([]bn254.G2Affine, len(es))
	for i, e := range es {
		r[i] = G2(e)
	}
	return r
}

func b1(p bn254.G1Affine) []byte { b := p.Bytes(); return b[:] }
func b2(p bn254.G2Affine) []byte { b := p.Bytes(); return b[:] }
func r1(p bn254.G1Affine) []byte { b := p.RawBytes(); return b[:] }
func r2(p bn254.G2Affine) []byte { b := p.RawBytes(); return b[:] }

// spBase is H(s, sx, challenge, dst), an element of G2 of unknown exponent.
func spBase(s, sx E, chal []byte, dst byte) bn254.G2Affine {
	p, q := G1(s), G1(sx)
	m := append(append(append([]byte{}, p.Marshal()...), q.Marshal()...), chal...)
	b, err := bn254.HashToG2(m, []byte{dst})
	mustNil(err)
	return b
}

// PK is a proof of knowledge: [s]₁, [sx]₁ and m·H(base), where the base is described by what is hashed.
type PK struct {
	S, SX E
	Base  SPB
	M     E
}
type SPB struct {
	S, SX E
	Chal  string
	Dst   byte
	G2    bool // the base is the generator instead
}

func honestPK(s, x E, chal []byte, dst byte) PK {
	sx := emul(s, x)
	return PK{S: s, SX: sx, Base: SPB{S: s, SX: sx, Chal: string(chal), Dst: dst}, M: x}
}
func (p PK) SPX() bn254.G2Affine {
	if p.Base.G2 {
		return G2(p.M)
	}
	b := spBase(p.Base.S, p.Base.SX, []byte(p.Base.Chal), p.Base.Dst)
	var r bn254.G2Affine
	r.ScalarMultiplication(&b, ebig(p.M))
	return r
}
func (p PK) bytes() []byte {
	return append(append(b1(G1(p.S)), b1(G1(p.SX))...), b2(p.SPX())...)
}

// secret is x when the key proves the knowledge of x for the challenge, and false when it proves nothing.
func (p PK) secret(chal []byte, dst byte) (E, bool) {
	if p.S.IsZero() || p.SX.IsZero() || p.M.IsZero() {
		return E{}, false
	}
	if p.Base.G2 || p.Base.Dst != dst || p.Base.Chal != string(chal) || !eq(p.Base.S, p.S) || !eq(p.Base.SX, p.SX) {
		return E{}, false
	}
	if !eq(emul(p.S, p.M), p.SX) {
		return E{}, false
	}
	return p.M, true
}

func sum(b []byte) []byte { h := sha256.Sum256(b); return h[:] }

func mustf(ok bool, f string, a ...any) {
	if !ok {
		panic(fmt.Sprintf(f, a...))
	}
}

type kv[V any] struct {
	k string
	v V
}

// sorted lists a map in a fixed order.
func sorted[V any](m map[string]V) []kv[V] {
	var l []kv[V]
	for k, v := range m {
		l = append(l, kv[V]{k, v})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].k < l[j].k })
	return l
}
