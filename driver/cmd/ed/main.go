// Sessions of the Ed25519 gadget (C25) and of its curve operations (C26).
package main

import (
	"crypto/ed25519"
	"crypto/sha512"
	"fmt"
	"math/big"
	"math/rand"

	ed "github.com/brevis-network/zk-utils/circuits/gadgets/ed25519"
	"github.com/consensys/gnark/std/math/emulated"

	. "verifdriver/h"
)

var builders = map[string]func(*Ctx){"C25": c25}

func main() { Main(builders) }

func fp(ls []V) emulated.Element[ed.Ed25519Fp] { return emulated.Element[ed.Ed25519Fp]{Limbs: ls} }
func point(v []V) ed.Point                     { return ed.Point{X: fp(v[:5]), Y: fp(v[5:10])} }

// wit is one witness of the verifying circuit: limbs of the key and of R, S,
// the two halves of the key's bytes, the five parts of the message.
type wit struct {
	ax, ay, rx, ry []*big.Int
	s              *big.Int
	pub            [2]*big.Int
	msg            [5]*big.Int
}

func (w *wit) run(r *Rec, note string) {
	in := append(append(append(append([]*big.Int{}, w.ax...), w.ay...), w.rx...), w.ry...)
	in = append(append(append(in, w.s), w.pub[:]...), w.msg[:]...)
	ok, _, _ := SolvePlain(BN254, in, func(api API, v []V) []V {
		e, err := ed.NewEd25519(api)
		if err != nil {
			panic(err)
		}
		var m [5]V
		copy(m[:], v[23:28])
		if err := e.Verify(v[21:23], ed.Signature{R: point(v[10:20]), S: v[20]}, m, ed.PublicKey{A: point(v[:10])}); err != nil {
			panic(err)
		}
		return nil
	})
	r.Add(Ev{"op": "verify", "note": note, "ax": Digs(w.ax), "ay": Digs(w.ay), "rx": Digs(w.rx), "ry": Digs(w.ry), "s": Dig(w.s),
		"pub": Digs(w.pub[:]), "msg": Digs(w.msg[:]), "acc": B(ok)})
}
func (w *wit) clone() *wit { c := *w; return &c }
func (w *wit) setA(a pt)   { w.ax, w.ay = limbs(a[0]), limbs(a[1]) }
func (w *wit) setR(a pt)   { w.rx, w.ry = limbs(a[0]), limbs(a[1]) }
func (w *wit) setPub(b []byte) {
	w.pub = [2]*big.Int{new(big.Int).SetBytes(b[:16]), new(big.Int).SetBytes(b[16:])}
}
func (w *wit) setMsg(m []byte) {
	for i := range w.msg {
		if i < 4 {
			w.msg[i] = new(big.Int).SetBytes(m[25*i : 25*i+25])
		} else {
			w.msg[i] = new(big.Int).SetBytes(m[100:])
		}
	}
}

// mk puts a witness together for coordinates as they stand.
func mk(a, rr pt, s *big.Int, m []byte) *wit {
	w := &wit{s: s}
	w.setA(a)
	w.setR(rr)
	w.setPub(enc(a))
	w.setMsg(m)
	return w
}
func hram(rr, a pt, m []byte) *big.Int {
	h := sha512.Sum512(append(append(append([]byte{}, enc(rr)...), enc(a)...), m...))
	k := new(big.Int).SetBytes(rev(h[:]))
	return k.Mod(k, L)
}
func sign(sec, nonce *big.Int, a, rr pt, m []byte) *big.Int {
	s := new(big.Int).Mul(hram(rr, a, m), sec)
	s.Add(s, nonce)
	return s.Mod(s, L)
}
func message(r *rand.Rand, kind int) []byte {
	m := make([]byte, 122)
	switch kind {
	case 0:
	case 1:
		for i := range m {
			m[i] = 0xff
		}
	case 2: // leading zeros in every part
		r.Read(m)
		for i := 0; i < 122; i += 25 {
			m[i], m[i+1] = 0, 0
		}
	default:
		r.Read(m)
	}
	return m
}

// native is a signature of the standard library.
func native(r *rand.Rand, kind int) (a, rr pt, s *big.Int, m []byte) {
	seed := RandBytes(r, 32)
	key := ed25519.NewKeyFromSeed(seed)
	m = message(r, kind)
	sig := ed25519.Sign(key, m)
	dec := func(b []byte) pt {
		le := new(big.Int).SetBytes(rev(b))
		odd := le.Bit(255)
		le.SetBit(le, 255, 0)
		q, ok := at(le, odd)
		if !ok {
			panic("no point")
		}
		return q
	}
	return dec(key.Public().(ed25519.PublicKey)), dec(sig[:32]), new(big.Int).SetBytes(rev(sig[32:])), m
}
func plus(a *big.Int, k int64) *big.Int { return new(big.Int).Add(a, big.NewInt(k)) }
func minus(a, b *big.Int) *big.Int      { return new(big.Int).Sub(a, b) }

// forge solves for the x of R that the equation would let through if R need
// not be on the curve: three doublings take every (t, it) to the neutral one.
func forge(rnd *rand.Rand, a pt, m []byte) (pt, *big.Int) {
	for {
		s := RandBelow(rnd, L)
		y := RandBelow(rnd, P)
		odd := uint(rnd.Intn(2))
		q := pneg(padd(pmul(s, G), pneg(pmul(hram(pt{big.NewInt(int64(odd)), y}, a, m), a))))
		for _, i := range []*big.Int{I, sub(new(big.Int), I)} {
			k := mul(D, mul(q[0], mul(q[1], y)))
			qa, qb := q[0], q[1]
			A := mul(k, add(qa, mul(i, qb)))
			Bc := sub(add(qa, mul(k, mul(qb, y))), mul(i, sub(qb, mul(k, mul(qa, y)))))
			C := sub(mul(qb, y), mul(i, mul(qa, y)))
			dd := sqrt(sub(mul(Bc, Bc), mul(big.NewInt(4), mul(A, C))))
			if dd == nil {
				continue
			}
			for _, e := range []*big.Int{dd, sub(new(big.Int), dd)} {
				x := mul(sub(e, Bc), inv(add(A, A)))
				if x.Bit(0) == odd {
					return pt{x, y}, s
				}
			}
		}
	}
}

func c25(c *Ctx) {
	tor := torsion()
	for i := 0; i < c.N(4, 24); i++ {
		i := i
		c.Add("native", fmt.Sprintf("native/%d", i), func(r *Rec) {
			a, rr, s, m := native(r.Rnd, i)
			mk(a, rr, s, m).run(r, "valid")
		})
		c.Add("altered", fmt.Sprintf("altered/%d", i), func(r *Rec) {
			a, rr, s, m := native(r.Rnd, i+2)
			w := mk(a, rr, s, m)
			alt := func(note string, f func(w *wit)) { v := w.clone(); f(v); v.run(r, note) }
			bit := r.Rnd.Intn(976)
			alt("message bit", func(w *wit) {
				n := append([]byte{}, m...)
				n[bit/8] ^= 1 << (bit % 8)
				w.setMsg(n)
			})
			alt("key half", func(w *wit) { w.pub[i%2] = new(big.Int).Xor(w.pub[i%2], new(big.Int).Lsh(one, uint(r.Rnd.Intn(128)))) })
			alt("R negated", func(w *wit) { w.setR(pneg(rr)) })
			alt("R other", func(w *wit) { w.setR(padd(rr, G)) })
			alt("R by small order", func(w *wit) { w.setR(padd(rr, tor[1+r.Rnd.Intn(7)])) })
			alt("S bit", func(w *wit) { w.s = new(big.Int).Xor(w.s, new(big.Int).Lsh(one, uint(r.Rnd.Intn(252)))) })
			alt("S negated", func(w *wit) { w.s = minus(L, w.s) })
			alt("key negated", func(w *wit) { w.setA(pneg(a)); w.setPub(enc(pneg(a))) })
			alt("key point negated", func(w *wit) { w.setA(pneg(a)) })
			b, _, _, _ := native(r.Rnd, 5)
			alt("other key", func(w *wit) { w.setA(b); w.setPub(enc(b)) })
			alt("other key point", func(w *wit) { w.setA(b) })
		})
	}
	for i := 0; i < c.N(2, 12); i++ {
		i := i
		c.Add("big-s", fmt.Sprintf("big-s/%d", i), func(r *Rec) {
			a, rr, s, m := native(r.Rnd, 9)
			for k := int64(1); k <= 3; k++ {
				t := new(big.Int).Add(s, new(big.Int).Mul(big.NewInt(k), L))
				if t.Cmp(BN254) < 0 {
					mk(a, rr, t, m).run(r, "S + multiple of the order")
				}
			}
		})
		c.Add("off-curve", fmt.Sprintf("off-curve/%d", i), func(r *Rec) {
			a, rr, s, m := native(r.Rnd, 9)
			f, t := forge(r.Rnd, a, m)
			mk(a, f, t, m).run(r, "R off the curve, solved for")
			o := pt{plus(rr[0], 2), rr[1]}
			mk(a, o, s, m).run(r, "R off the curve, same encoding")
			w := mk(a, rr, s, m)
			w.setA(pt{plus(a[0], 2), a[1]})
			w.run(r, "key off the curve, same encoding")
			// the key's point is free apart from parity: the zero point and (t, it)
			z := pt{new(big.Int), new(big.Int)}
			mk(z, G, one, m).run(r, "key (0,0)")
			tt := RandBelow(r.Rnd, P)
			mk(a, pt{tt, mul(I, tt)}, new(big.Int), m).run(r, "R = (t, it)")
			mk(pt{tt, mul(I, tt)}, O, new(big.Int), m).run(r, "key = (t, it)")
			mk(pt{new(big.Int), sub(new(big.Int), one)}, pt{I, new(big.Int)}, new(big.Int), m).run(r, "R of order four")
		})
	}
	// what the signer chooses: S, the nonce, the key
	scal := map[string]*big.Int{"0": new(big.Int), "1": one, "2": big.NewInt(2), "n-1": minus(L, one), "n/2": new(big.Int).Rsh(L, 1), "2^251": new(big.Int).Lsh(one, 251), "2^128": new(big.Int).Lsh(one, 128)}
	for _, k := range SortedKeys(scal) {
		v := scal[k]
		c.Add("scalar", "scalar/"+k, func(r *Rec) {
			n := RandBelow(r.Rnd, L)
			m := message(r.Rnd, 3)
			a := pmul(v, G)
			mk(a, pmul(n, G), sign(v, n, a, pmul(n, G), m), m).run(r, "secret "+k)
			a = pmul(n, G)
			mk(a, pmul(v, G), sign(n, v, a, pmul(v, G), m), m).run(r, "nonce "+k)
			// R = S G - h A does not fix S: choose R, take the key from it
			rr := pmul(RandBelow(r.Rnd, L), G)
			mk(a, rr, v, m).run(r, "S "+k)
			// key of the same group element as the base or its opposite
			for _, b := range []pt{G, pneg(G)} {
				sec := one
				if !eq(b, G) {
					sec = minus(L, one)
				}
				s := sign(sec, v, b, pmul(v, G), m)
				mk(b, pmul(v, G), s, m).run(r, "key is the base point, nonce "+k)
			}
		})
	}
	for i, t := range tor {
		i, t := i, t
		c.Add("torsion", fmt.Sprintf("torsion/%d", i), func(r *Rec) {
			m := message(r.Rnd, 3)
			n, sec := RandBelow(r.Rnd, L), RandBelow(r.Rnd, L)
			// key of small order: any nonce signs
			mk(t, pmul(n, G), n, m).run(r, "key of small order")
			mk(t, padd(pmul(n, G), tor[(i*3+1)%8]), n, m).run(r, "key and part of R of small order")
			// key and R with a part of small order
			a, rr := padd(pmul(sec, G), t), padd(pmul(n, G), tor[(i*5+3)%8])
			w := mk(a, rr, sign(sec, n, a, rr, m), m)
			w.run(r, "parts of small order")
			w.s = plus(w.s, 1)
			w.run(r, "parts of small order, S altered")
			mk(pmul(sec, G), t, sign(sec, new(big.Int), pmul(sec, G), t, m), m).run(r, "R of small order")
		})
	}
	// coordinates that are not reduced encode differently
	for i := 0; i < c.N(1, 4); i++ {
		c.Add("unreduced", fmt.Sprintf("unreduced/%d", i), func(r *Rec) {
			m := message(r.Rnd, 3)
			n, sec := RandBelow(r.Rnd, L), RandBelow(r.Rnd, L)
			up := func(v *big.Int) *big.Int { return new(big.Int).Add(v, P) }
			for _, z := range []pt{{up(O[0]), one}, {new(big.Int), up(one)}, {up(new(big.Int)), up(one)}, {up(new(big.Int)), minus(P, one)}} {
				mk(z, pmul(n, G), n, m).run(r, "key unreduced")
				a := pmul(sec, G)
				mk(a, z, sign(sec, new(big.Int), a, z, m), m).run(r, "R unreduced")
			}
			// small y on the curve, above p
			for y := int64(2); y < 19; y++ {
				if q, ok := at(big.NewInt(y), uint(y)%2); ok {
					z := pt{q[0], up(q[1])}
					mk(z, pmul(n, G), n, m).run(r, "y unreduced")
					break
				}
			}
			// limbs wider than they may be
			a := pmul(sec, G)
			rr := pmul(n, G)
			w := mk(a, rr, sign(sec, n, a, rr, m), m)
			w.run(r, "valid")
			v := w.clone()
			v.ax = append([]*big.Int{}, w.ax...)
			v.ax[0] = new(big.Int).Add(v.ax[0], new(big.Int).Lsh(one, 51))
			v.ax[1] = minus(v.ax[1], one)
			v.run(r, "wide limb")
		})
		c.Add("width", fmt.Sprintf("width/%d", i), func(r *Rec) {
			a, rr, s, m := native(r.Rnd, 9)
			w := mk(a, rr, s, m)
			for j := 0; j < 5; j++ {
				v := w.clone()
				v.msg[j] = new(big.Int).Add(v.msg[j], new(big.Int).Lsh(one, []uint{200, 200, 200, 200, 176}[j]))
				v.run(r, "message part too wide")
			}
			for j := 0; j < 2; j++ {
				v := w.clone()
				v.pub[j] = new(big.Int).Add(v.pub[j], new(big.Int).Lsh(one, 128))
				v.run(r, "key half too wide")
			}
			v := w.clone()
			v.pub[0], v.pub[1] = v.pub[1], v.pub[0]
			v.run(r, "key halves exchanged")
			v = w.clone()
			v.msg[0], v.msg[1] = v.msg[1], v.msg[0]
			v.run(r, "message parts exchanged")
		})
	}
}
