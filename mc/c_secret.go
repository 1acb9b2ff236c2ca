package main

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/big"
	"os"
	"regexp"
	"strings"
	"sync"
	"syscall"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

// ------------------------------------------------------------------------------- C31: secrets stay in the process

// A needle is part of an encoding of a secret.
const needleLen = 8 // bytes; of text: characters encoding as much

// needles of the drawn entropy and of the elements made of it, with their simple functions. All windows of the length
// are taken.
type haystack struct {
	bin  map[[needleLen]byte]string
	hex  map[[2 * needleLen]byte]string
	dec  map[[18]byte]string
	b64  map[[10]byte]string
	nums map[string]string
}

func newHaystack(rng *RNG) *haystack {
	h := &haystack{map[[needleLen]byte]string{}, map[[2 * needleLen]byte]string{}, map[[18]byte]string{}, map[[10]byte]string{}, map[string]string{}}
	raw := func(b []byte, what string) {
		// in other orders of bytes, too
		rev := make([]byte, len(b))
		for i := range b {
			rev[len(b)-1-i] = b[i]
		}
		for _, b := range [][]byte{b, rev} {
			for i := 0; i+needleLen <= len(b); i++ {
				h.bin[[needleLen]byte(b[i:])] = what
			}
			x := hex.EncodeToString(b)
			for i := 0; i+2*needleLen <= len(x); i++ {
				h.hex[[2 * needleLen]byte([]byte(x[i:]))] = what
			}
			// printed as numbers
			for i := 0; i+needleLen <= len(b); i++ {
				t := strings.Trim(fmt.Sprint(b[i:i+needleLen]), "[]")
				h.nums[t[:15]] = what // 8 numbers have at least that length
			}
			// the encoding depends on the position
			for o := 0; o < 3; o++ {
				for _, enc := range []*base64.Encoding{base64.RawStdEncoding, base64.RawURLEncoding} {
					t := enc.EncodeToString(b[o:])
					for i := 0; i+10 <= len(t)-2; i++ {
						h.b64[[10]byte([]byte(t[i:]))] = what
					}
				}
			}
		}
	}
	dec := func(v *big.Int, what string) {
		t := v.String()
		for i := 0; i+18 <= len(t); i++ {
			h.dec[[18]byte([]byte(t[i:]))] = what
		}
	}
	elem := func(e fr.Element, what string) {
		b := e.Bytes()
		raw(b[:], what)
		var m [32]byte
		for i := range e {
			binary.BigEndian.PutUint64(m[24-8*i:], e[i])
			dec(new(big.Int).SetUint64(e[i]), what)
		}
		raw(m[:], what+" (Montgomery)")
		dec(e.BigInt(new(big.Int)), what)
	}
	var all []fr.Element
	for i, b := range rng.Log {
		raw(b, fmt.Sprintf("draw %d", i))
		if e, ok := elementOf(b); ok {
			all = append(all, e)
		}
	}
	for i, e := range all {
		var t fr.Element
		elem(e, fmt.Sprintf("secret %d", i))
		elem(*t.Neg(&e), fmt.Sprintf("-secret %d", i))
		elem(*t.Inverse(&e), fmt.Sprintf("1/secret %d", i))
		elem(*t.Square(&e), fmt.Sprintf("secret %d squared", i))
		for j, f := range all {
			if j < i {
				elem(*t.Mul(&e, &f), fmt.Sprintf("secret %d · secret %d", j, i))
				elem(*t.Add(&e, &f), fmt.Sprintf("secret %d + secret %d", j, i))
			}
			if j != i {
				elem(*t.Div(&e, &f), fmt.Sprintf("secret %d / secret %d", i, j))
				elem(*t.Sub(&e, &f), fmt.Sprintf("secret %d - secret %d", i, j))
			}
		}
	}
	return h
}

func (h *haystack) in(b []byte) string {
	for i := range b {
		r := b[i:]
		if len(r) >= needleLen {
			if w := h.bin[[needleLen]byte(r)]; w != "" {
				return w
			}
		}
		if len(r) >= 10 {
			if w := h.b64[[10]byte(r)]; w != "" {
				return w + " (base 64)"
			}
		}
		if len(r) >= 15 {
			if w := h.nums[string(r[:15])]; w != "" {
				return w + " (numbers)"
			}
		}
		if len(r) >= 16 {
			if w := h.hex[[16]byte(bytes.ToLower(r[:16]))]; w != "" {
				return w + " (hexadecimal)"
			}
		}
		if len(r) >= 18 {
			if w := h.dec[[18]byte(r)]; w != "" {
				return w + " (decimal)"
			}
		}
	}
	return ""
}

var errText = regexp.MustCompile(`[0-9]+`)

// told is what a run tells: all that is written to any file, and the error.
type told struct {
	rng    *RNG
	files  map[string]*bytes.Buffer
	stdout string
	err    error
}

// tell runs the command with the entropy of the seed.
func (c *Cmd) tell(seed string, rng *RNG, h func(o FileOp) (int, error)) *told {
	t := &told{rng: rng, files: map[string]*bytes.Buffer{}}
	if rng == nil {
		t.rng = newRNG(seed)
	}
	var mu sync.Mutex
	installWrite(func(f *os.File, b []byte) {
		mu.Lock()
		defer mu.Unlock()
		n := f.Name()
		if t.files[n] == nil {
			t.files[n] = &bytes.Buffer{}
		}
		t.files[n].Write(b)
	})
	// the error output, too
	old := os.Stderr
	e, err := os.CreateTemp("", "err")
	mustNil(err)
	os.Stderr = e
	t.stdout, t.err = capture(func() error {
		_, err := withHook(h, func() error { return withRNG(t.rng, func() error { return c.call(c.args) }) })
		return err
	})
	os.Stderr = old
	installWrite(nil)
	b, err := os.ReadFile(e.Name())
	mustNil(err)
	t.stdout += "\n--\n" + string(b)
	e.Close()
	os.Remove(e.Name())
	return t
}

// text is what the user sees, but for hashes and, if masked, numbers.
func (t *told) text(masked bool) string {
	s := t.stdout
	for _, h := range hashesIn(s) {
		s = strings.ReplaceAll(s, h, "HASH")
	}
	if t.err != nil {
		s += "\n" + t.err.Error()
	}
	if masked {
		s = errText.ReplaceAllString(s, "#")
	}
	return s
}

// sameWords compares what is said with several secrets: numbers, or all of it, may vary anyway, as times do.
func sameWords(c *Ctx, how string, say func(seed string) *told, seeds []string) {
	var all [2][]string
	said := func(seed string) (l [2]string) {
		t := say(seed)
		l[0], l[1] = t.text(false), t.text(true)
		return l
	}
	for i := 0; i < 3; i++ {
		for j, x := range said(seeds[0]) {
			all[j] = append(all[j], x)
		}
	}
	j := 0
	for j < 2 && (all[j][0] != all[j][1] || all[j][0] != all[j][2]) {
		j++
	}
	if j == 2 {
		c.Count("output_varies_anyway")
		return
	}
	for _, seed := range seeds[1:] {
		x := said(seed)[j]
		if x == all[j][0] {
			continue
		}
		// again, to be sure that it isn't something else
		if said(seed)[j] == x && said(seeds[0])[j] == all[j][0] {
			c.Failf("%s: what is said depends on the secrets: %q rather than %q", how, x, all[j][0])
			return
		}
		c.Count("output_varies_anyway")
		return
	}
	c.Count("same_words")
}

func (t *told) judge(c *Ctx, how string) {
	h := newHaystack(t.rng)
	for n, b := range t.files {
		c.Add("bytes_searched", b.Len())
		if w := h.in(b.Bytes()); w != "" {
			if strings.HasPrefix(n, os.TempDir()) || n == "/dev/stdout" {
				n = "its output"
			}
			c.Failf("%s: %s is written to %s", how, w, n)
			return
		}
	}
	if t.err != nil {
		for _, s := range []string{t.err.Error(), fmt.Sprintf("%+v", t.err), fmt.Sprintf("%#v", t.err)} {
			if w := h.in([]byte(s)); w != "" {
				c.Failf("%s: the error tells %s", how, w)
				return
			}
		}
	}
	c.Trace()
}

func genC31(g *Gen) {
	seeds := 4
	if g.Thorough() {
		seeds = 32
	}
	for _, sn := range faultStages {
		for _, cmd := range stage(sn).cmds {
			// what the verifiers sample needn't stay secret
			if skipStage(sn, cmd) || !cmd.draws || strings.Contains(cmd.args[0], "v") {
				continue
			}
			// what is said doesn't depend on the secrets
			g.Case(fmt.Sprintf("%s/%s/words", sn, cmd), func(c *Ctx) {
				var names []string
				for i := 0; i < seeds; i++ {
					names = append(names, fmt.Sprint("secret", i))
				}
				sameWords(c, fmt.Sprintf("%q", cmd), func(seed string) *told {
					cmd.st.without(cmd)
					t := cmd.tell(seed, nil, pass)
					c.State(sn, cmd, seed)
					c.Transition()
					if t.err != nil {
						c.Failf("%q fails: %v", cmd, t.err)
					}
					t.judge(c, fmt.Sprintf("%q", cmd))
					return t
				}, names)
			})
			// nor does a failure tell them
			for _, op := range cmd.trace() {
				g.CaseCrashOK(fmt.Sprintf("%s/%s/%s:%d failing", sn, cmd, op.name, op.k), func(c *Ctx) {
					how := fmt.Sprintf("%q, %v failing", cmd, op)
					sameWords(c, how, func(seed string) *told {
						cmd.st.without(cmd)
						c.State(sn, cmd, op.name, op.k, seed)
						t := cmd.tell(seed, nil, func(o FileOp) (int, error) {
							if o.name == op.name && o.k == op.k {
								return 0, syscall.EIO
							}
							return o.n, nil
						})
						c.Transition()
						t.judge(c, how)
						return t
					}, []string{"run", "secret"})
				})
			}
			// nor does a bad input
			for _, in := range cmd.in {
				b := cmd.st.files[in]
				try := func(name string, b []byte) {
					g.CaseCrashOK(fmt.Sprintf("%s/%s/%s/%s", sn, cmd, in, name), func(c *Ctx) {
						cmd.st.without(cmd)
						writeFile(in, b)
						c.State(sn, cmd, b)
						t := cmd.tell("run", nil, pass)
						c.Transition()
						t.judge(c, fmt.Sprintf("%q, %s %s", cmd, in, name))
					})
				}
				step := 1
				if n := len(b) / 100; !g.Thorough() && n > 0 {
					step = n
				}
				for n := 0; n < len(b); n += step {
					try(fmt.Sprint("cut at ", n), b[:n])
				}
				for i := 0; i < min(len(b), 64); i++ {
					for _, v := range []byte{0, b[i] ^ 1, b[i] ^ 0x80, 0xff} {
						if v == b[i] || sn != "plain" && !g.Thorough() {
							continue
						}
						x := bytes.Clone(b)
						x[i] = v
						try(fmt.Sprintf("byte %d is %#x", i, v), x)
					}
				}
			}
			n := memoize(fmt.Sprint("reads|", sn, cmd), func() int { return drawn(cmd) })
			for k := 0; k < n; k++ {
				for _, kind := range []string{"failing", "crashing"} {
					g.CaseCrashOK(fmt.Sprintf("%s/%s/draw %d %s", sn, cmd, k, kind), func(c *Ctx) {
						cmd.st.without(cmd)
						c.State(sn, cmd, k, kind)
						rng := newRNG("run")
						rng.FailAt = k
						rng.Crash = kind == "crashing" // as the source of newer versions of Go does
						t := cmd.tell("", rng, pass)
						c.Transition()
						t.judge(c, fmt.Sprintf("%q, draw %d %s", cmd, k, kind))
					})
				}
				// secrets that the commands may want to refuse
				for _, v := range []fr.Element{{}, fr.One(), fr.NewElement(2)} {
					g.CaseCrashOK(fmt.Sprintf("%s/%s/draw %d is %s", sn, cmd, k, v.String()), func(c *Ctx) {
						cmd.st.without(cmd)
						c.State(sn, cmd, k, v)
						rng := newRNG("run")
						rng.Script = map[int][]byte{k: entropyOf(v)}
						t := cmd.tell("", rng, pass)
						c.Transition()
						// these are no secrets
						for i := range t.rng.Log {
							if i == k {
								t.rng.Log[i] = bytes.Repeat([]byte{0xff}, 32)
								t.rng.Log = append(t.rng.Log[:i:i], t.rng.Log[i+1:]...)
								break
							}
						}
						t.judge(c, fmt.Sprintf("%q, draw %d being %s", cmd, k, v.String()))
					})
				}
			}
		}
	}
}

func init() {
	register(&Check{ID: "C31", Level: "fault_enumeration", NoGC: true, QuickS: 300,
		Rule:   "every command that samples secrets, with several sources of randomness, with each of its operations on files failing, with each draw failing, with each draw giving 0, 1 or 2, and with inputs that are cut off or have a byte of the header changed: nothing that is written to any file (temporary ones, standard output and error), and no error contains 8 bytes of the entropy or of a secret, its negative, inverse, square, or a sum, difference, product or quotient of two of them, as bytes in either order, in Montgomery form, hexadecimal, decimal or base 64; and what is said, but for the hashes and numbers, doesn't depend on the secrets",
		Assume: []string{"what is written goes through package os"},
		Gen:    genC31})
}
