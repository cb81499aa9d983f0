package main

import (
	"math/big"
	"math/rand"

	gb "github.com/consensys/gnark-crypto/ecc/bls12-381"
	"github.com/consensys/gnark-crypto/ecc/bls12-381/fp"
	"github.com/consensys/gnark-crypto/ecc/bls12-381/fr"

	. "verifdriver/h"
)

// Inputs are made with gnark-crypto; the specification judges the results.

func bi(e *fp.Element) *big.Int { return e.BigInt(new(big.Int)) }
func ofE2(e *gb.E2) []*big.Int  { return []*big.Int{bi(&e.A0), bi(&e.A1)} }
func ofG2(q *gb.G2Affine) []*big.Int {
	return append(ofE2(&q.X), ofE2(&q.Y)...)
}
func ofG1(q *gb.G1Affine) []*big.Int { return []*big.Int{bi(&q.X), bi(&q.Y)} }
func ofGT(x *gb.GT) (out []*big.Int) {
	for _, e := range []*gb.E2{&x.C0.B0, &x.C0.B1, &x.C0.B2, &x.C1.B0, &x.C1.B1, &x.C1.B2} {
		out = append(out, ofE2(e)...)
	}
	return out
}
func toFp(b *big.Int) (e fp.Element) { e.SetBigInt(b); return e }
func toE2(v []*big.Int) gb.E2        { return gb.E2{A0: toFp(v[0]), A1: toFp(v[1])} }
func toGT(v []*big.Int) (x gb.GT) {
	x.C0.B0, x.C0.B1, x.C0.B2 = toE2(v), toE2(v[2:]), toE2(v[4:])
	x.C1.B0, x.C1.B1, x.C1.B2 = toE2(v[6:]), toE2(v[8:]), toE2(v[10:])
	return x
}
func toG2(v []*big.Int) gb.G2Affine { return gb.G2Affine{X: toE2(v), Y: toE2(v[2:])} }

var _, _, gen1, gen2 = gb.Generators()

func rndFp(r *rand.Rand) *big.Int { return RandBelow(r, P) }
func rndE2(r *rand.Rand) gb.E2    { return gb.E2{A0: toFp(rndFp(r)), A1: toFp(rndFp(r))} }
func mulG1(k *big.Int) (q gb.G1Affine) {
	q.ScalarMultiplication(&gen1, new(big.Int).Mod(k, fr.Modulus()))
	return q
}
func mulG2(k *big.Int) (q gb.G2Affine) {
	q.ScalarMultiplication(&gen2, new(big.Int).Mod(k, fr.Modulus()))
	return q
}
func rndK(r *rand.Rand) *big.Int { return RandBelow(r, fr.Modulus()) }

// twistB is 4(1+i).
func twistB() (b gb.E2) { b.A0.SetUint64(4); b.A1.SetUint64(4); return b }

// onTwist is some point of the twist, whatever its order.
func onTwist(r *rand.Rand) (q gb.G2Affine) {
	for {
		x := rndE2(r)
		if p, ok := twistAt(x); ok {
			return p
		}
	}
}
func twistAt(x gb.E2) (q gb.G2Affine, ok bool) {
	var t gb.E2
	b := twistB()
	t.Square(&x).Mul(&t, &x).Add(&t, &b)
	if t.Legendre() == -1 {
		return q, false
	}
	q.X = x
	q.Y.Sqrt(&t)
	return q, true
}

// cyclo is the easy part of the final exponentiation.
func cyclo(r *rand.Rand) (x gb.GT) {
	var t gb.GT
	t.C0.B0, t.C0.B1, t.C0.B2 = rndE2(r), rndE2(r), rndE2(r)
	t.C1.B0, t.C1.B1, t.C1.B2 = rndE2(r), rndE2(r), rndE2(r)
	return easy(t)
}
func easy(t gb.GT) (x gb.GT) {
	var u gb.GT
	u.Conjugate(&t)
	t.Inverse(&t)
	u.Mul(&u, &t)
	x.FrobeniusSquare(&u)
	x.Mul(&x, &u)
	return x
}

// cyclo0 is an element of the cyclotomic subgroup other than one with g3 = 0:
// g5 = k g1, g2 = m g1^2, g4 = 2 k / m and g0 = E (2 g4^2 - 3 m g1^3) + 1 with
// m = (E k^2 + 3) / 2, where unit norm is a quadratic equation for g1^3.
func cyclo0(r *rand.Rand) gb.GT {
	n := func(v uint64) (e gb.E2) { e.A0.SetUint64(v); return e }
	ml := func(xs ...gb.E2) gb.E2 {
		y := n(1)
		for i := range xs {
			y.Mul(&y, &xs[i])
		}
		return y
	}
	ad := func(x, y gb.E2) gb.E2 { x.Add(&x, &y); return x }
	sb := func(x, y gb.E2) gb.E2 { x.Sub(&x, &y); return x }
	iv := func(x gb.E2) gb.E2 { x.Inverse(&x); return x }
	E := n(1)
	E.A1.SetOne()
	for {
		k := rndE2(r)
		m := ml(ad(ml(E, k, k), n(3)), iv(n(2)))
		g4 := ml(n(2), k, iv(m))
		al := ad(ml(n(2), E, g4, g4), n(1))
		be := ml(n(3), E, m) // (al - be Y)^2 + 2 E m Y - E g4^2 - 1 = 0
		a, b, d := ml(be, be), sb(ml(n(2), E, m), ml(n(2), al, be)), sb(sb(ml(al, al), ml(E, g4, g4)), n(1))
		disc := sb(ml(b, b), ml(n(4), a, d))
		if disc.Legendre() == -1 {
			continue
		}
		var s gb.E2
		s.Sqrt(&disc)
		y := ml(sb(s, b), iv(ml(n(2), a)))
		g1, ok := cbrt(y)
		if !ok || y.IsZero() {
			continue
		}
		var z gb.GT
		z.C0.B0, z.C0.B1, z.C0.B2 = sb(al, ml(be, y)), g1, ml(m, g1, g1)
		z.C1.B1, z.C1.B2 = g4, ml(k, g1)
		if isCyclo(z) {
			return z
		}
	}
}
func powE2(x gb.E2, e *big.Int) (y gb.E2) { y.Exp(x, e); return y }
func cbrt(y gb.E2) (x gb.E2, ok bool) {
	t, three := new(big.Int).Mul(P, P), big.NewInt(3)
	t.Sub(t, one)
	syl := one
	for new(big.Int).Mod(t, three).Sign() == 0 {
		t.Div(t, three)
		syl = new(big.Int).Mul(syl, three)
	}
	x = powE2(y, new(big.Int).ModInverse(three, t))
	var g gb.E2
	for v := uint64(2); ; v++ { // a generator of the 3-part
		g.A0.SetUint64(v)
		g.A1.SetOne()
		g = powE2(g, t)
		if h := powE2(g, new(big.Int).Div(syl, three)); !h.Equal(new(gb.E2).SetOne()) {
			break
		}
	}
	for i := int64(0); i < syl.Int64(); i++ {
		var c gb.E2
		c.Square(&x).Mul(&c, &x)
		if c.Equal(&y) {
			return x, true
		}
		x.Mul(&x, &g)
	}
	return x, false
}
func isCyclo(z gb.GT) bool {
	var f, g gb.GT
	f.FrobeniusSquare(&z)
	g.FrobeniusSquare(&f)
	g.Mul(&g, &z)
	return g.Equal(&f)
}

// phi12 is the order of the cyclotomic subgroup.
func phi12() *big.Int {
	q := new(big.Int).Mul(P, P)
	e := new(big.Int).Mul(q, q)
	return e.Add(e.Sub(e, q), one)
}

// halved is the 2^n-th root of a cyclotomic element.
func halved(z gb.GT, n uint) (x gb.GT) {
	o := phi12()
	k := new(big.Int).ModInverse(new(big.Int).Lsh(one, n), o)
	x.SetOne()
	for i := k.BitLen() - 1; i >= 0; i-- {
		x.Square(&x)
		if k.Bit(i) == 1 {
			x.Mul(&x, &z)
		}
	}
	return x
}
