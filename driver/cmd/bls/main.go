// Sessions of the BLS12-381 gadget: extension fields and G2 (C27), the pairing
// (C28), hashing to G2 (C29).
package main

import (
	"math/big"
	"reflect"
	"unsafe"

	bls "github.com/brevis-network/zk-utils/circuits/gadgets/pairing_bls12381"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/std/math/emulated"

	. "verifdriver/h"
)

var builders = map[string]func(*Ctx){"C27": c27, "C28": c28, "C29": c29}

func main() { Main(builders) }

type el = emulated.Element[bls.BLS12381Fp]

var (
	P   = ecc.BLS12_381.BaseField()
	one = big.NewInt(1)
	w64 = new(big.Int).Sub(new(big.Int).Lsh(one, 64), one)
)

func limbs(v *big.Int) []*big.Int {
	out, x := make([]*big.Int, 6), new(big.Int).Set(v)
	for i := range out {
		out[i] = new(big.Int).And(x, w64)
		x.Rsh(x, 64)
	}
	return out
}

// value reads an element out of the test engine, reduced.
func value(field *big.Int, e *el) *big.Int {
	r := new(big.Int)
	for i := len(e.Limbs) - 1; i >= 0; i-- {
		r.Add(r.Lsh(r, 64), Val(field, e.Limbs[i]))
	}
	return r.Mod(r, P)
}
func values(field *big.Int, es []el) []*big.Int {
	out := make([]*big.Int, len(es))
	for i := range es {
		out[i] = value(field, &es[i])
	}
	return out
}
func wire(vals []*big.Int) (in []*big.Int) {
	for _, v := range vals {
		in = append(in, limbs(v)...)
	}
	return in
}
func wired(v []V) []el {
	out := make([]el, len(v)/6)
	for i := range out {
		out[i] = el{Limbs: v[6*i : 6*i+6]}
	}
	return out
}
func wordsOf(v []*big.Int) []*big.Int {
	out := make([]*big.Int, len(v))
	for i := range v {
		out[i] = new(big.Int).Mod(v[i], P)
	}
	return out
}

// values as gadget types, and back
func p2(v []el) *bls.E2   { return &bls.E2{A0: v[0], A1: v[1]} }
func p6(v []el) *bls.E6   { return &bls.E6{B0: *p2(v), B1: *p2(v[2:]), B2: *p2(v[4:])} }
func p12(v []el) *bls.E12 { return &bls.E12{C0: *p6(v), C1: *p6(v[6:])} }
func f2(x *bls.E2) []el   { return []el{x.A0, x.A1} }
func f6(x *bls.E6) []el   { return append(append(f2(&x.B0), f2(&x.B1)...), f2(&x.B2)...) }
func f12(x *bls.E12) []el { return append(f6(&x.C0), f6(&x.C1)...) }
func pa(v []el) *bls.G2Affine {
	return &bls.G2Affine{X: *p2(v), Y: *p2(v[2:])}
}
func pj(v []el) *bls.G2Jacobian {
	return &bls.G2Jacobian{X: *p2(v), Y: *p2(v[2:]), Z: *p2(v[4:])}
}
func pp(v []el) *bls.G2Projective {
	return &bls.G2Projective{X: *p2(v), Y: *p2(v[2:]), Z: *p2(v[4:])}
}
func fa(x *bls.G2Affine) []el { return append(f2(&x.X), f2(&x.Y)...) }
func fj(x *bls.G2Jacobian) []el {
	return append(append(f2(&x.X), f2(&x.Y)...), f2(&x.Z)...)
}
func fpj(x *bls.G2Projective) []el {
	return append(append(f2(&x.X), f2(&x.Y)...), f2(&x.Z)...)
}
func g1(v []el) *bls.G1Affine { return &bls.G1Affine{X: v[0], Y: v[1]} }

// line reads the three coefficients of a line, in the order they are kept.
func line(l *bls.LineEvaluation) (out []el) {
	v := reflect.ValueOf(l).Elem()
	for i := 0; i < v.NumField(); i++ {
		out = append(out, f2((*bls.E2)(unsafe.Pointer(v.Field(i).UnsafeAddr())))...)
	}
	return out
}
