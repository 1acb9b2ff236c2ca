//go:build !noapi

package main

import (
	"fmt"
	"strings"
	"sync"

	"github.com/bnb-chain/zkbnb-setup/common"
	"github.com/bnb-chain/zkbnb-setup/lagrange"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr/fft"
	"verif/mc/sched"
)

func genC17(g *Gen) {
	maxN, maxW := 40, 17
	if g.Thorough() {
		maxN, maxW = 200, 70
	}
	for w := 1; w <= maxW; w++ {
		for _, how := range []string{"argument", "processors"} {
			g.Case(fmt.Sprintf("partition/%s=%d", how, w), func(c *Ctx) {
				for n := 0; n <= maxN; n++ {
					var mu sync.Mutex
					var l []ival
					running := 0
					work := func(a, b int) {
						mu.Lock()
						running++
						l = append(l, ival{a, b})
						mu.Unlock()
						mu.Lock()
						running--
						mu.Unlock()
					}
					c.Transition()
					if how == "argument" {
						common.Parallelize(n, work, w)
					} else {
						withCPUs(w, func() { common.Parallelize(n, work) })
					}
					mu.Lock()
					if running != 0 {
						c.Failf("n=%d: it returned while %d were at work", n, running)
					}
					if err := checkRanges(l, n); err != nil {
						c.Failf("n=%d: %v", n, err)
					}
					mu.Unlock()
					c.State(how, n, w)
					c.Trace()
				}
			})
		}
	}
	// larger numbers
	large := []int{}
	for i := 41; i <= 130; i++ {
		large = append(large, i)
	}
	for k := 8; k <= 22; k++ {
		large = append(large, 1<<k-1, 1<<k, 1<<k+1)
	}
	large = append(large, 1000, 10000, 100000, 1000000, 3<<20)
	for _, w := range []int{1, 2, 3, 4, 5, 7, 8, 12, 16, 31, 32, 33, 48, 64, 96, 100, 128, 255, 256, 1000} {
		g.Case(fmt.Sprintf("large/workers=%d", w), func(c *Ctx) {
			for _, n := range large {
				var mu sync.Mutex
				var l []ival
				work := func(a, b int) {
					mu.Lock()
					l = append(l, ival{a, b})
					mu.Unlock()
				}
				for _, how := range []string{"argument", "processors"} {
					l = nil
					c.Transition()
					if how == "argument" {
						common.Parallelize(n, work, w)
					} else {
						withCPUs(w, func() { common.Parallelize(n, work) })
					}
					mu.Lock()
					if err := checkRanges(l, n); err != nil {
						c.Failf("n=%d: %v", n, err)
					}
					mu.Unlock()
					c.State(how, n, w)
					c.Trace()
				}
			}
		})
	}
	// all schedules
	type b struct{ n, w, level, pre int }
	var bs []b
	for n := 0; n <= 5; n++ {
		for w := 1; w <= 4; w++ {
			k := min(n, w)
			switch {
			case k <= 2:
				bs = append(bs, b{n, w, 0, 100}, b{n, w, 2, 2})
			case k == 3:
				bs = append(bs, b{n, w, 0, 3}, b{n, w, 2, 1})
			default:
				bs = append(bs, b{n, w, 0, -2}, b{n, w, 2, -1})
			}
		}
	}
	if g.Thorough() {
		for n := 0; n <= 8; n++ {
			for w := 1; w <= 5; w++ {
				switch k := min(n, w); {
				case k <= 2:
					bs = append(bs, b{n, w, 1, 100}, b{n, w, 2, 3})
				case k == 3:
					bs = append(bs, b{n, w, 0, 5}, b{n, w, 2, 2})
				default:
					bs = append(bs, b{n, w, 0, -4}, b{n, w, 2, -2})
				}
			}
		}
	}
	for _, x := range bs {
		g.Case(fmt.Sprintf("schedules/n=%d/workers=%d/level=%d/preemptions=%d", x.n, x.w, x.level, x.pre), func(c *Ctx) {
			var cells []int
			var atReturn []int
			running, left := 0, 0
			explore(c, sched.Options{Preemptions: max(x.pre, -x.pre), Delays: x.pre < 0, Level: x.level}, func() {
				cells, running, left = make([]int, x.n), 0, -1
				common.Parallelize(x.n, func(a, b int) {
					running++
					for i := a; i < b; i++ {
						v := cells[i]
						sched.Point()
						cells[i] = v + 1
					}
					sched.Point()
					running--
				}, x.w)
				left = running
				atReturn = append([]int{}, cells...)
			}, func() error {
				c.State("sched", x.n, x.w, fmt.Sprint(atReturn))
				if left != 0 {
					return fmt.Errorf("it returned while %d were at work", left)
				}
				for i, v := range atReturn {
					if v != 1 {
						return fmt.Errorf("iteration %d had been done %d times when it returned", i, v)
					}
				}
				for i, v := range cells {
					if v != 1 {
						return fmt.Errorf("iteration %d was done %d times", i, v)
					}
				}
				return nil
			})
		})
	}
	// one within another, as the conversion does
	g.Case("schedules/nested", func(c *Ctx) {
		var cells [4]int
		var got [4]int
		explore(c, sched.Options{Preemptions: 3, Delays: true}, func() {
			cells = [4]int{}
			common.Parallelize(2, func(a, b int) {
				for i := a; i < b; i++ {
					common.Parallelize(2, func(x, y int) {
						for j := x; j < y; j++ {
							sched.Point()
							cells[2*i+j]++
						}
					}, 2)
				}
			}, 2)
			got = cells
		}, func() error {
			c.State(fmt.Sprint(got))
			if got != [4]int{1, 1, 1, 1} {
				return fmt.Errorf("iterations done when it returned: %v", got)
			}
			return nil
		})
	})
	for _, n := range []int{1, 2, 7, 33} {
		for _, w := range []int{1, 2, 3, 8} {
			raced(g, "C17", fmt.Sprintf("n=%d/workers=%d", n, w), func(c *Ctx) {
				x := make([]int, n)
				common.Parallelize(n, func(a, b int) {
					for i := a; i < b; i++ {
						x[i]++
					}
				}, w)
				for i := range x {
					if x[i] != 1 {
						c.Failf("iteration %d done %d times", i, x[i])
					}
					x[i]++
				}
			})
		}
	}
}

// ------------------------------------------------------------------------------------------------- C16

// vectors are inputs of the conversion, as exponents.
func vectors(n int, thorough bool) []kv[[]E] {
	var l []kv[[]E]
	add := func(k string, f func(i int) E) {
		v := make([]E, n)
		for i := range v {
			v[i] = f(i)
		}
		l = append(l, kv[[]E]{k, v})
	}
	r := erand("lag")
	t := oneE
	add("powers", func(i int) E {
		if i > 0 {
			t = emul(t, r)
		}
		return t
	})
	add("random", func(i int) E { return erand(fmt.Sprint("lag", i)) })
	add("zero", func(i int) E { return zeroE })
	add("constant", func(i int) E { return r })
	add("ones", func(i int) E { return oneE })
	add("alternating", func(i int) E { return []E{r, eneg(r)}[i%2] })
	add("halves", func(i int) E { return []E{r, zeroE}[i*2/n] })
	add("halves equal", func(i int) E { return erand(fmt.Sprint("lag", i%max(n/2, 1))) })
	add("halves opposite", func(i int) E {
		e := erand(fmt.Sprint("lag", i%max(n/2, 1)))
		if i >= n/2 {
			e = eneg(e)
		}
		return e
	})
	for k := 0; k < n; k++ {
		add(fmt.Sprint("basis", k), func(i int) E {
			if i == k {
				return oneE
			}
			return zeroE
		})
	}
	return l
}

func convert1(v []E) []bn254.G1Affine {
	a := make([]bn254.G1Affine, len(v))
	for i := range v {
		a[i] = G1(v[i])
	}
	lagrange.ConvertG1(a, fft.NewDomain(uint64(len(v))))
	return a
}
func convert2(v []E) []bn254.G2Affine {
	a := make([]bn254.G2Affine, len(v))
	for i := range v {
		a[i] = G2(v[i])
	}
	lagrange.ConvertG2(a, fft.NewDomain(uint64(len(v))))
	return a
}
func same1(got []bn254.G1Affine, want []E) error {
	for i := range want {
		if w := G1(want[i]); !got[i].Equal(&w) {
			return fmt.Errorf("element %d of the Lagrange basis is wrong", i)
		}
	}
	return nil
}
func same2(got []bn254.G2Affine, want []E) error {
	for i := range want {
		if w := G2(want[i]); !got[i].Equal(&w) {
			return fmt.Errorf("element %d of the Lagrange basis is wrong", i)
		}
	}
	return nil
}

func genC16(g *Gen) {
	one := func(c *Ctx, grp int, v []E, cpus int) {
		want := lagrangeE(v, len(v))
		var err error
		withCPUs(cpus, func() {
			err = callSafe(func() error {
				if grp == 1 {
					return same1(convert1(v), want)
				}
				return same2(convert2(v), want)
			})
		})
		c.Transition()
		if err != nil {
			c.Failf("G%d, size %d, %d processors: %v", grp, len(v), cpus, err)
		}
		c.Trace()
	}
	sizes, cpus := []int{1, 2, 4, 8, 16, 32, 64}, []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33, 64, 100}
	if g.Thorough() {
		sizes, cpus = []int{1, 2, 4, 8, 16, 32, 64, 128, 256}, nil
		for i := 1; i <= 40; i++ {
			cpus = append(cpus, i)
		}
		cpus = append(cpus, 63, 64, 65, 100, 128, 129)
	}
	for _, n := range sizes {
		for _, grp := range []int{1, 2} {
			for _, v := range vectors(n, g.Thorough()) {
				g.Case(fmt.Sprintf("exact/G%d/n=%d/%s", grp, n, v.k), func(c *Ctx) {
					for ci, cp := range cpus {
						if n > 16 && strings.HasPrefix(v.k, "basis") && !(ci == 0 || ci == 4) {
							continue
						}
						if n > 64 && ci%7 != 0 {
							continue
						}
						one(c, grp, v.v, cp)
						c.State(grp, n, v.k, cp)
					}
				})
			}
		}
	}
	for _, n := range []int{128, 256, 512, 1024, 2048, 4096} {
		for _, grp := range []int{1, 2} {
			if n > 1024 && grp == 2 && !g.Thorough() {
				continue
			}
			vs := vectors(2, false)
			for i := range vs[:2] {
				for _, cp := range []int{1, 3, 8, 17} {
					if n > 512 && cp != 8 && !g.Thorough() {
						continue
					}
					g.Case(fmt.Sprintf("large/G%d/n=%d/%s/cpus=%d", grp, n, vs[i].k, cp), func(c *Ctx) {
						v := make([]E, n)
						for j := range v {
							if v[j] = erand(fmt.Sprint("lag", j)); i == 0 && j > 0 {
								v[j] = emul(v[j-1], v[0])
							}
						}
						one(c, grp, v, cp)
						c.State("large", grp, n, i, cp)
					})
				}
			}
		}
	}
	// all small vectors
	al := []E{zeroE, oneE, eneg(oneE), erand("lag")}
	for _, n := range []int{1, 2, 4} {
		for x := 0; x < ipow(4, n); x += 16 {
			g.Case(fmt.Sprintf("alphabet/n=%d/%d", n, x), func(c *Ctx) {
				for y := x; y < min(x+16, ipow(4, n)); y++ {
					v := make([]E, n)
					for i, d := range digits(y, 4, n) {
						v[i] = al[d]
					}
					for _, cp := range []int{1, 3} {
						one(c, 1, v, cp)
						one(c, 2, v, cp)
					}
					c.State(n, y)
				}
			})
		}
	}
	for x := 0; x < 256; x += 16 {
		g.Case(fmt.Sprintf("alphabet/n=8/%d", x), func(c *Ctx) {
			for y := x; y < x+16; y++ {
				v := make([]E, 8)
				for i, d := range digits(y, 2, 8) {
					v[i] = al[d]
				}
				one(c, 1, v, 2)
				if y%4 == 1 {
					one(c, 2, v, 2)
				}
				c.State(8, y)
			}
		})
	}
	// schedules
	type b struct{ grp, n, cpus, level, pre, max int }
	bs := []b{
		{1, 2, 2, 2, 2, 0}, {1, 2, 3, 0, 3, 0}, {1, 2, 2, 0, 4, 0},
		{1, 4, 2, 2, 1, 0}, {1, 4, 2, 0, 3, 0}, {1, 4, 3, 0, 2, 0}, {1, 4, 4, 0, 2, 0},
		{1, 8, 2, 1, 1, 0}, {1, 8, 2, 2, 1, 0}, {1, 16, 2, 0, 2, 0}, {1, 16, 3, 0, 1, 0}, {1, 16, 2, 1, 1, 0},
		{1, 64, 2, 0, 1, 0},
		{2, 2, 2, 2, 1, 0}, {2, 4, 2, 2, 1, 0}, {2, 4, 2, 0, 2, 0}, {2, 4, 3, 0, 1, 0},
		{2, 8, 2, 1, 1, 0}, {2, 16, 2, 0, 1, 0}, {2, 64, 2, 0, 1, 0},
	}
	if g.Thorough() {
		for i := range bs {
			bs[i].pre++
		}
		bs = append(bs, b{1, 16, 5, 0, 1, 0}, b{1, 32, 2, 1, 1, 0}, b{1, 128, 3, 0, 1, 0}, b{2, 64, 4, 0, 1, 0})
	}
	for _, x := range bs {
		g.Case(fmt.Sprintf("schedules/G%d/n=%d/cpus=%d/level=%d/delays=%d", x.grp, x.n, x.cpus, x.level, x.pre), func(c *Ctx) {
			v := vectors(x.n, false)[1].v
			want := lagrangeE(v, x.n)
			a1, a2 := make([]bn254.G1Affine, x.n), make([]bn254.G2Affine, x.n)
			in1, in2 := make([]bn254.G1Affine, x.n), make([]bn254.G2Affine, x.n)
			for i := range v {
				in1[i], in2[i] = G1(v[i]), G2(v[i])
			}
			d := fft.NewDomain(uint64(x.n))
			withCPUs(x.cpus, func() {
				explore(c, sched.Options{Preemptions: x.pre, Delays: true, Level: x.level, Max: x.max}, func() {
					if x.grp == 1 {
						copy(a1, in1)
						lagrange.ConvertG1(a1, d)
						return
					}
					copy(a2, in2)
					lagrange.ConvertG2(a2, d)
				}, func() error {
					if x.grp == 1 {
						return same1(a1, want)
					}
					return same2(a2, want)
				})
			})
			c.State("sched", x)
		})
	}
	// repetitions of words over related points, opposite ones and infinity among them
	wordsOf(3, func(name string, at func(i int) E) {
		for _, n := range []int{4, 32, 64} {
			n := n
			for _, grp := range []int{1, 2} {
				grp := grp
				g.Case(fmt.Sprintf("words/%s/G%d/n=%d", name, grp, n), func(c *Ctx) {
					v := make([]E, n)
					for i := range v {
						v[i] = at(i)
					}
					one(c, grp, v, 4)
				})
			}
		}
	})
	// powers of special values
	for _, x := range specialE() {
		x := x
		for _, n := range []int{4, 16, 64} {
			n := n
			for _, grp := range []int{1, 2} {
				grp := grp
				g.Case(fmt.Sprintf("powers/%s/G%d/n=%d", x.name, grp, n), func(c *Ctx) {
					v := make([]E, n)
					v[0] = oneE
					for i := 1; i < n; i++ {
						v[i] = emul(v[i-1], x.e)
					}
					one(c, grp, v, 4)
				})
			}
		}
	}
	for _, n := range []int{2, 8, 16, 64} {
		for _, cp := range []int{1, 2, 3, 5, 8} {
			for _, grp := range []int{1, 2} {
				raced(g, "C16", fmt.Sprintf("G%d/n=%d/cpus=%d", grp, n, cp), func(c *Ctx) {
					one(c, grp, vectors(n, false)[1].v, cp)
				})
			}
		}
	}
}

func init() {
	register(&Check{ID: "C16", Level: "model_checking", Race: true, MaxProcs: 1, QuickS: 240, ThoroughS: 3000,
		Rule:   "exact: every size, processor count and input of an alphabet (all basis vectors, vectors with coinciding and opposite halves, all small vectors) converted by the real code and compared with the inverse discrete Fourier transform of the exponents; schedules: the real code under a controlled scheduler, all schedules within the bound of deviations from the default order (level 0: switching at synchronization, 1: and at each iteration, 2: and at each statement), each result compared; race: the same under the race detector",
		Assume: []string{"the group operations of gnark-crypto"},
		Gen:    genC16})
	register(&Check{ID: "C17", Level: "model_checking", Race: true, MaxProcs: 1, QuickS: 240,
		Rule:   "partition: every number of iterations by every number of workers; schedules: the real code under a controlled scheduler, all schedules within the bound of preemptions (negative: of deviations from the default order); race: the same under the race detector; a state is a configuration or an outcome at the return",
		Assume: []string{"at least one worker"},
		Gen:    genC17})
}
