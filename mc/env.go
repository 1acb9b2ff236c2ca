package main

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"os"
	"regexp"
	"runtime/debug"
	"sync"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/logger"
)

// ------------------------------------------------------------------ the environment of the code under test

var devNull *os.File

func silence() {
	var err error
	devNull, err = os.OpenFile("/dev/null", os.O_RDWR, 0)
	mustNil(err)
	os.Stdout = devNull
	logger.Disable()
}

// callSafe runs f and turns a panic of it into an error.
func callSafe(f func() error) (err error) {
	defer func() {
		if e := recover(); e != nil {
			err = &panicError{fmt.Sprint(e), string(debug.Stack())}
		}
	}()
	return f()
}

type panicError struct{ what, stack string }

func (p *panicError) Error() string { return "panic: " + p.what }

// capture runs f with its standard output collected.
func capture(f func() error) (string, error) {
	tmp, err := os.CreateTemp("", "out")
	mustNil(err)
	defer os.Remove(tmp.Name())
	defer tmp.Close()
	old := os.Stdout
	os.Stdout = tmp
	defer func() { os.Stdout = old }()
	err = callSafe(f)
	b, e := os.ReadFile(tmp.Name())
	mustNil(e)
	return string(b), err
}

var hexHash = regexp.MustCompile(`(?i)(^|[^0-9a-f])([0-9a-f]{64})($|[^0-9a-f])`)

func hashesIn(s string) []string {
	var r []string
	for _, m := range hexHash.FindAllStringSubmatch(s, -1) {
		r = append(r, m[2])
	}
	return r
}

// RNG replaces crypto/rand.Reader by a deterministic stream whose answers the exploration chooses.
type RNG struct {
	mu     sync.Mutex
	seed   string
	ctr    uint64
	Reads  int
	FailAt int            // index of the read that fails (and all later ones), -1: none
	Crash  bool           // rather than failing
	Script map[int][]byte // answers to particular reads (only 32-byte ones)
	Log    [][]byte       // what was answered to 32-byte reads
}

var errEntropy = errors.New("no entropy")

func newRNG(seed string) *RNG { return &RNG{seed: seed, FailAt: -1} }

func (r *RNG) Read(p []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	i := r.Reads
	r.Reads++
	if r.FailAt >= 0 && i >= r.FailAt {
		if r.Crash {
			panic(errEntropy)
		}
		return 0, errEntropy
	}
	if a, ok := r.Script[i]; ok && len(p) == 32 {
		copy(p, a)
	} else {
		for n := 0; n < len(p); {
			var b [8]byte
			binary.BigEndian.PutUint64(b[:], r.ctr)
			r.ctr++
			h := sha256.Sum256(append([]byte(r.seed+"|"), b[:]...))
			n += copy(p[n:], h[:])
		}
	}
	if len(p) == 32 {
		r.Log = append(r.Log, append([]byte{}, p...))
	}
	return len(p), nil
}

// withRNG runs f with r as the source of entropy.
func withRNG(r io.Reader, f func() error) error {
	old := rand.Reader
	rand.Reader = r
	defer func() { rand.Reader = old }()
	return callSafe(f)
}

// elementOf is the field element which the sampling of the field library makes of 32 bytes of entropy
// (false: it rejects them and samples again).
func elementOf(b []byte) (fr.Element, bool) {
	var c [32]byte
	copy(c[:], b)
	c[31] &= 0x3f
	var z fr.Element
	for i := 0; i < 4; i++ {
		z[i] = binary.LittleEndian.Uint64(c[8*i:])
	}
	// z holds the raw (Montgomery) limbs: reduced iff the value of the limbs is below the modulus
	v := new(big.Int)
	for i := 3; i >= 0; i-- {
		v.Lsh(v, 64).Or(v, new(big.Int).SetUint64(z[i]))
	}
	return z, v.Cmp(fr.Modulus()) < 0
}

// entropyOf is the answer that makes the sampling return e.
func entropyOf(e fr.Element) []byte {
	b := make([]byte, 32)
	for i := 0; i < 4; i++ {
		binary.LittleEndian.PutUint64(b[8*i:], e[i])
	}
	return b
}

// candidates are the field elements that could have been sampled from the answers given.
func (r *RNG) candidates() []fr.Element {
	var c []fr.Element
	for _, b := range r.Log {
		if e, ok := elementOf(b); ok {
			c = append(c, e)
		}
	}
	return c
}

func writeFile(name string, b []byte) { mustNil(os.WriteFile(name, b, 0o644)) }
func readFile(name string) []byte {
	b, err := os.ReadFile(name)
	mustNil(err)
	return b
}
func exists(name string) bool { _, err := os.Lstat(name); return err == nil }

func tempDir() (string, error) { return os.MkdirTemp("", "d") }

// inDir changes to d and gives back how to return.
func inDir(d string) func() {
	old, err := os.Getwd()
	mustNil(err)
	mustNil(os.Chdir(d))
	return func() { mustNil(os.Chdir(old)) }
}
