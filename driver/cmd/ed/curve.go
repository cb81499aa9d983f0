//go:build vcurve

package main

import (
	"fmt"
	"math/big"

	ed "github.com/brevis-network/zk-utils/circuits/gadgets/ed25519"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/std/math/emulated"

	. "verifdriver/h"
)

// value reads an element out of the test engine, reduced.
func value(field *big.Int, e *emulated.Element[ed.Ed25519Fp]) *big.Int {
	r := new(big.Int)
	for i := len(e.Limbs) - 1; i >= 0; i-- {
		r.Add(r.Lsh(r, 51), Val(field, e.Limbs[i]))
	}
	return mod(r)
}

// op runs one curve operation on the points and scalars and records it.
func op(r *Rec, field *big.Int, name string, ps []pt, ks []*big.Int) {
	var in []*big.Int
	for _, q := range ps {
		in = append(append(in, limbs(q[0])...), limbs(q[1])...)
	}
	nk := len(in)
	if name == "mul2" {
		in = append(append(in, ks[0]), limbs(ks[1])...)
	} else {
		in = append(in, ks...)
	}
	var out []*big.Int
	ok, _, msg := SolvePlain(field, in, func(api API, v []V) []V {
		cv, err := ed.VerifCurve(api)
		if err != nil {
			panic(err)
		}
		q := make([]ed.Point, len(ps))
		for i := range q {
			q[i] = point(v[10*i : 10*i+10])
		}
		var o ed.Point
		switch name {
		case "add":
			o = cv.Add(q[0], q[1])
		case "double":
			o = cv.Double(q[0])
		case "neg":
			o = cv.Neg(q[0])
		case "mul":
			o = cv.ScalarMul(q[0], v[nk])
		case "mul2":
			o = cv.DoubleBaseScalarMul(q[0], q[1], v[nk], &emulated.Element[ed.Ed25519Fr]{Limbs: v[nk+1 : nk+6]})
		case "oncurve":
			cv.AssertIsOnCurve(q[0])
		case "isone":
			cv.AssertQ(q[0])
		}
		if o.X.Limbs != nil {
			out = []*big.Int{value(field, &o.X), value(field, &o.Y)}
		}
		return nil
	})
	e := Ev{"op": name, "acc": B(ok), "out": Digs(out), "k": Digs(ks)}
	for i, q := range ps {
		e[fmt.Sprintf("p%d", i+1)] = Digs(q[:])
	}
	if !ok {
		e["why"] = msg[:min(len(msg), 200)]
		e["out"] = []int{}
	}
	r.Add(e)
}

func init() { builders["C26"] = c26 }

func c26(c *Ctx) {
	fields := map[string]*big.Int{"bn254": BN254, "bls12_377": ecc.BLS12_377.ScalarField(), "bls12_381": ecc.BLS12_381.ScalarField()}
	tor := torsion()
	up := func(q pt) pt { // other representatives, where there is room
		if q[0].Cmp(big.NewInt(19)) < 0 {
			q[0] = new(big.Int).Add(q[0], P)
		}
		if q[1].Cmp(big.NewInt(19)) < 0 {
			q[1] = new(big.Int).Add(q[1], P)
		}
		return q
	}
	rnd := c.Rand("points")
	pool := map[string]pt{"g": G, "-g": pneg(G), "2g": padd(G, G)}
	for i, t := range tor {
		pool[fmt.Sprintf("t%d", i)] = t
		pool[fmt.Sprintf("t%d+", i)] = up(t)
		pool[fmt.Sprintf("g+t%d", i)] = padd(G, t)
	}
	for i := 0; i < c.N(4, 12); i++ {
		k := RandBelow(rnd, L)
		q := padd(pmul(k, G), tor[rnd.Intn(8)])
		pool[fmt.Sprintf("r%d", i)], pool[fmt.Sprintf("-r%d", i)], pool[fmt.Sprintf("r%d+t", i)] = q, pneg(q), padd(q, tor[1+rnd.Intn(7)])
	}
	// small coordinates have a second representative
	for y := int64(2); y < 60; y++ {
		if q, ok := at(big.NewInt(y), uint(y&1)); ok {
			pool[fmt.Sprintf("y%d", y)] = up(q)
		}
	}
	names := SortedKeys(pool)
	for _, a := range names {
		a := a
		c.Add("add", "add/"+a, func(r *Rec) {
			for _, b := range names {
				op(r, BN254, "add", []pt{pool[a], pool[b]}, nil)
			}
		})
		c.Add("single", "single/"+a, func(r *Rec) {
			op(r, BN254, "double", []pt{pool[a]}, nil)
			op(r, BN254, "neg", []pt{pool[a]}, nil)
			q := pool[a]
			for _, z := range []pt{q, {q[1], q[0]}, {q[0], sub(new(big.Int), q[1])}, {mod(plus(q[0], 1)), q[1]}, {q[0], mod(plus(q[1], 1))}, {new(big.Int), q[1]}, {q[0], new(big.Int)}, {mul(I, q[0]), mul(I, q[1])}, {mul(I, q[0]), q[1]}} {
				op(r, BN254, "oncurve", []pt{z}, nil)
				op(r, BN254, "isone", []pt{z}, nil)
			}
		})
	}
	c.Add("off", "off", func(r *Rec) {
		for i := 0; i < c.N(20, 200); i++ {
			z := pt{RandBelow(r.Rnd, P), RandBelow(r.Rnd, P)}
			op(r, BN254, "oncurve", []pt{z}, nil)
			op(r, BN254, "isone", []pt{z}, nil)
			t := RandBelow(r.Rnd, P)
			op(r, BN254, "oncurve", []pt{{t, mul(I, t)}}, nil)
			// on the curve with the other sign of d, of a
			yy := mul(t, t)
			for _, x2 := range []*big.Int{mul(sub(yy, one), inv(sub(one, mul(D, yy)))), mul(sub(one, yy), inv(sub(one, mul(D, yy))))} {
				if x := sqrt(x2); x != nil {
					op(r, BN254, "oncurve", []pt{{x, t}}, nil)
				}
			}
		}
		for _, x := range []int64{0, 1, -1} {
			for _, y := range []int64{0, 1, -1} {
				z := pt{mod(big.NewInt(x)), mod(big.NewInt(y))}
				op(r, BN254, "oncurve", []pt{z}, nil)
				op(r, BN254, "isone", []pt{z}, nil)
			}
		}
	})
	some := []string{"g", "-g", "t0", "t1", "t2", "t4", "t0+", "t4+", "r0", "-r0", "r1", "g+t3"}
	for _, f := range SortedKeys(fields) {
		field := fields[f]
		ks := map[string]*big.Int{"max": minus(field, one), "max-1": minus(field, big.NewInt(2)), "top": new(big.Int).Lsh(one, uint(field.BitLen()-1)),
			"top-": minus(new(big.Int).Lsh(one, uint(field.BitLen()-1)), one)}
		for _, k := range []int64{0, 1, 2, 3, 4, 7, 8} {
			ks[fmt.Sprint(k)] = big.NewInt(k)
		}
		for i, k := range []*big.Int{L, minus(L, one), plus(L, 1), new(big.Int).Lsh(L, 1)} {
			ks[fmt.Sprintf("n%d", i)] = k
		}
		alt := new(big.Int)
		for i := 0; i < field.BitLen()-1; i += 2 {
			alt.SetBit(alt, i, 1)
		}
		ks["0101"] = alt
		ks["1010"] = new(big.Int).Rsh(alt, 1)
		for i := 0; i < c.N(2, 10); i++ {
			ks[fmt.Sprintf("rnd%d", i)] = RandBelow(rnd, field)
		}
		names := SortedKeys(ks)
		for i, kn := range names {
			i, kn := i, kn
			if !c.Thorough() && f != "bn254" && i%3 != 0 {
				continue
			}
			c.Add("mul", "mul/"+f+"/"+kn, func(r *Rec) {
				for j, p := range some {
					if !c.Thorough() && (i+j)%4 != 0 {
						continue
					}
					op(r, field, "mul", []pt{pool[p]}, []*big.Int{ks[kn]})
				}
			})
			c.Add("mul2", "mul2/"+f+"/"+kn, func(r *Rec) {
				n := c.N(2, 8)
				for j := 0; j < n; j++ {
					p, q := some[r.Rnd.Intn(len(some))], some[r.Rnd.Intn(len(some))]
					if j == 0 {
						p = "g"
					}
					s2 := ks[names[(i*7+j*3)%len(names)]]
					if s2.BitLen() > 253 {
						s2 = RandBelow(r.Rnd, new(big.Int).Lsh(one, 253))
					}
					op(r, field, "mul2", []pt{pool[p], pool[q]}, []*big.Int{ks[kn], s2})
				}
			})
		}
	}
}
