package main

import (
	"math/big"
)

// Just enough arithmetic to put interesting witnesses together; what is right
// is for the specification to say.
type pt [2]*big.Int

func hexInt(s string) *big.Int { b, _ := new(big.Int).SetString(s, 16); return b }

var (
	one = big.NewInt(1)
	P   = new(big.Int).Sub(new(big.Int).Lsh(one, 255), big.NewInt(19))
	L   = hexInt("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed")
	D   = mod(new(big.Int).Neg(mul(big.NewInt(121665), inv(big.NewInt(121666)))))
	G   = pt{hexInt("216936D3CD6E53FEC0A4E231FDD6DC5C692CC7609525A7B2C9562D608F25D51A"), mul(big.NewInt(4), inv(big.NewInt(5)))}
	O   = pt{new(big.Int), big.NewInt(1)}
	I   = new(big.Int).Exp(big.NewInt(2), new(big.Int).Rsh(new(big.Int).Sub(P, one), 2), P) // sqrt(-1)
)

func mod(a *big.Int) *big.Int    { return new(big.Int).Mod(a, P) }
func mul(a, b *big.Int) *big.Int { return mod(new(big.Int).Mul(a, b)) }
func add(a, b *big.Int) *big.Int { return mod(new(big.Int).Add(a, b)) }
func sub(a, b *big.Int) *big.Int { return mod(new(big.Int).Sub(a, b)) }
func inv(a *big.Int) *big.Int {
	return new(big.Int).Exp(mod(a), new(big.Int).Sub(P, big.NewInt(2)), P)
}
func sqrt(a *big.Int) *big.Int { return new(big.Int).ModSqrt(mod(a), P) }

func padd(a, b pt) pt {
	u, v := mul(a[0], b[1]), mul(a[1], b[0])
	k := mul(D, mul(u, v))
	return pt{mul(add(u, v), inv(add(one, k))), mul(add(mul(a[1], b[1]), mul(a[0], b[0])), inv(sub(one, k)))}
}
func pneg(a pt) pt { return pt{sub(new(big.Int), a[0]), a[1]} }
func pmul(k *big.Int, a pt) pt {
	r := O
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = padd(r, r)
		if k.Bit(i) == 1 {
			r = padd(r, a)
		}
	}
	return r
}
func eq(a, b pt) bool { return a[0].Cmp(b[0]) == 0 && a[1].Cmp(b[1]) == 0 }

// at gives a point with this y and parity of x.
func at(y *big.Int, odd uint) (pt, bool) {
	yy := mul(y, y)
	x := sqrt(mul(sub(yy, one), inv(add(mul(D, yy), one))))
	if x == nil {
		return O, false
	}
	if x.Bit(0) != odd {
		x = sub(new(big.Int), x)
	}
	return pt{x, mod(y)}, true
}
func rev(b []byte) []byte {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return r
}

// enc encodes coordinates as given, reduced or not.
func enc(a pt) []byte {
	b := make([]byte, 32)
	new(big.Int).And(a[1], new(big.Int).Sub(new(big.Int).Lsh(one, 255), one)).FillBytes(b)
	b[0] |= byte(a[0].Bit(0) << 7)
	return rev(b)
}

// torsion gives the eight points of small order.
func torsion() []pt {
	for y := int64(2); ; y++ {
		q, ok := at(big.NewInt(y), 0)
		if !ok {
			continue
		}
		t := pmul(L, q)
		if t4 := padd(padd(t, t), padd(t, t)); !eq(t4, O) {
			r := []pt{O}
			for len(r) < 8 {
				r = append(r, padd(r[len(r)-1], t))
			}
			return r
		}
	}
}
func limbs(v *big.Int) []*big.Int {
	r := make([]*big.Int, 5)
	m := new(big.Int).Sub(new(big.Int).Lsh(one, 51), one)
	for i := range r {
		r[i] = new(big.Int).Rsh(v, uint(51*i))
		if i < 4 {
			r[i].And(r[i], m)
		}
	}
	return r
}
