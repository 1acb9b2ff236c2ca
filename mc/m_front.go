package main

import (
	"fmt"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/hash/mimc"
)

// -------------------------------------------------------------------------------- compiled test circuits

type V = frontend.Variable

type fr2 struct { // two public, two secret variables
	P, Q V `gnark:",public"`
	X, Y V
	def  func(api frontend.API, p, q, x, y V) error
}

func (c *fr2) Define(api frontend.API) error { return c.def(api, c.P, c.Q, c.X, c.Y) }

type fr1 struct { // one public, one secret variable
	P   V `gnark:",public"`
	X   V
	def func(api frontend.API, p, x V) error
}

func (c *fr1) Define(api frontend.API) error { return c.def(api, c.P, c.X) }

type frX struct { // secret variables only
	X, Y V
	def  func(api frontend.API, x, y V) error
}

func (c *frX) Define(api frontend.API) error { return c.def(api, c.X, c.Y) }

type frP struct { // public variables only
	P, Q V `gnark:",public"`
	def  func(api frontend.API, p, q V) error
}

func (c *frP) Define(api frontend.API) error { return c.def(api, c.P, c.Q) }

func front2(name string, vals int, sat func(v []int) bool, free []int, def func(api frontend.API, p, q, x, y V) error) compiled {
	return compiled{name: name, pub: 2, n: 4, vals: vals, sat: sat, free: free,
		make:   func() frontend.Circuit { return &fr2{def: def} },
		assign: func(v []int) frontend.Circuit { return &fr2{P: v[0], Q: v[1], X: v[2], Y: v[3]} }}
}
func front1(name string, vals int, sat func(v []int) bool, def func(api frontend.API, p, x V) error) compiled {
	return compiled{name: name, pub: 1, n: 2, vals: vals, sat: sat,
		make:   func() frontend.Circuit { return &fr1{def: def} },
		assign: func(v []int) frontend.Circuit { return &fr1{P: v[0], X: v[1]} }}
}

// frontends are circuits whose keys are used for proofs.
func frontends(thorough bool) []compiled {
	l := []compiled{
		front1("square", 5, func(v []int) bool { return v[1]*v[1] == v[0] }, func(api frontend.API, p, x V) error {
			api.AssertIsEqual(api.Mul(x, x), p)
			return nil
		}),
		front1("cubic", 12, func(v []int) bool { return v[1]*v[1]*v[1]+v[1]+1 == v[0] }, func(api frontend.API, p, x V) error {
			api.AssertIsEqual(api.Add(api.Mul(x, x, x), x, 1), p)
			return nil
		}),
		front2("products", 3, func(v []int) bool { return v[2]*v[3] == v[0] && v[2]+v[3] == v[1] }, nil, func(api frontend.API, p, q, x, y V) error {
			api.AssertIsEqual(api.Mul(x, y), p)
			api.AssertIsEqual(api.Add(x, y), q)
			return nil
		}),
		front2("unused", 3, func(v []int) bool { return v[2]*v[2] == v[0] }, []int{1}, func(api frontend.API, p, q, x, y V) error {
			api.AssertIsEqual(api.Mul(x, x), p)
			return nil
		}),
		front2("select", 3, func(v []int) bool {
			if v[2] > 1 {
				return false
			}
			if v[2] == 1 {
				return v[3] == v[0]
			}
			return v[3] == v[1]
		}, nil, func(api frontend.API, p, q, x, y V) error {
			api.AssertIsBoolean(x)
			api.AssertIsEqual(api.Select(x, p, q), y)
			return nil
		}),
		front1("bits", 8, func(v []int) bool { return v[1]>>1&1*4+v[1]&1 == v[0] }, func(api frontend.API, p, x V) error {
			b := api.ToBinary(x, 3)
			// (x>>1)&1*4 + x&1, with Go's precedence: ((x>>1)&1)*4 + x&1
			api.AssertIsEqual(api.Add(api.Mul(b[1], 4), b[0]), p)
			return nil
		}),
		{name: "secrets", pub: 0, n: 2, vals: 4, sat: func(v []int) bool { return v[0]*v[1] == 6 },
			make: func() frontend.Circuit {
				return &frX{def: func(api frontend.API, x, y V) error { api.AssertIsEqual(api.Mul(x, y), 6); return nil }}
			},
			assign: func(v []int) frontend.Circuit { return &frX{X: v[0], Y: v[1]} }},
		{name: "publics", pub: 2, n: 2, vals: 3, sat: func(v []int) bool { return v[0]*v[0]*v[0] == v[1] },
			make: func() frontend.Circuit {
				return &frP{def: func(api frontend.API, p, q V) error { api.AssertIsEqual(api.Mul(p, p, p), q); return nil }}
			},
			assign: func(v []int) frontend.Circuit { return &frP{P: v[0], Q: v[1]} }},
	}
	if thorough {
		l = append(l, front2("division", 4, func(v []int) bool { return v[3] != 0 && v[2] == v[0]*v[3] && v[1] == v[0]*v[0] }, nil, func(api frontend.API, p, q, x, y V) error {
			api.AssertIsEqual(api.Div(x, y), p)
			api.AssertIsEqual(api.Mul(p, p), q)
			return nil
		}))
	}
	return l
}

// committing are circuits which commit to each set of {p, q, x, y, x·y}.
func committing(thorough bool) []compiled {
	var l []compiled
	names := []string{"p", "q", "x", "y", "xy"}
	for set := 1; set < 32; set++ {
		for lazy := 0; lazy <= 1; lazy++ {
			if lazy == 1 && !thorough && set%5 != 3 {
				continue
			}
			set, lazy := set, lazy
			name := "commit"
			for i, n := range names {
				if set>>i&1 != 0 {
					name += "." + n
				}
			}
			if lazy == 1 {
				name += ".lazy"
			}
			vals := 2
			if thorough {
				vals = 3
			}
			f := front2(name, vals, func(v []int) bool {
				return v[2]*v[3] == v[0] && v[2]+v[3] == v[1] && lazy == 0 || lazy == 1 && v[2] == v[0] && v[3] == v[1]
			}, nil, func(api frontend.API, p, q, x, y V) error {
				xy := api.Mul(x, y)
				all := []V{p, q, x, y, xy}
				var vs []V
				for i := range all {
					if set>>i&1 != 0 {
						vs = append(vs, all[i])
					}
				}
				t, err := api.Compiler().Commit(vs...)
				if err != nil {
					return err
				}
				api.AssertIsDifferent(t, 1234567)
				if lazy == 1 {
					for i := 0; i < 2; i++ {
						h, err := mimc.NewMiMC(api)
						if err != nil {
							return err
						}
						h.Write(x)
						api.AssertIsDifferent(h.Sum(), fmt.Sprint(i))
					}
					api.AssertIsEqual(x, p)
					api.AssertIsEqual(y, q)
					return nil
				}
				api.AssertIsEqual(xy, p)
				api.AssertIsEqual(api.Add(x, y), q)
				return nil
			})
			f.lazy = lazy == 1
			l = append(l, f)
		}
	}
	return l
}
