// Sessions of the host edwards25519 library: files of registers, on which
// operations are run whose receiver and arguments may be the same register.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"

	edwards25519 "github.com/brevis-network/zk-utils/circuits/gadgets/ed25519/test"
	"github.com/brevis-network/zk-utils/circuits/gadgets/ed25519/test/field"

	. "verifdriver/hl"
)

func main() { Main(map[string]func(c *Ctx){"C39": c39, "C40": c40}) }

var (
	two = big.NewInt(2)
	fp  = new(big.Int).Sub(new(big.Int).Exp(two, big.NewInt(255), nil), big.NewInt(19))
	fl  = func() *big.Int {
		l, _ := new(big.Int).SetString("27742317777372353535851937790883648493", 10)
		return l.Add(l, new(big.Int).Exp(two, big.NewInt(252), nil))
	}()
)

func rev(b []byte) []byte {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return r
}
func le(b []byte) []int { return Dig(new(big.Int).SetBytes(rev(b))) }
func toLE(x *big.Int, n int) []byte {
	return rev(new(big.Int).Mod(x, new(big.Int).Lsh(big.NewInt(1), uint(8*n))).FillBytes(make([]byte, n)))
}

// edge is a number of at most n bits near one of the places where a limb, a
// modulus or the range ends
func edge(r *rand.Rand, m *big.Int, n, limb int) *big.Int {
	one := big.NewInt(1)
	top := new(big.Int).Lsh(one, uint(n))
	var x *big.Int
	switch r.Intn(7) {
	case 0:
		x = big.NewInt(int64(r.Intn(40)))
	case 1: // around a multiple of the modulus
		q := new(big.Int).Quo(top, m)
		k := big.NewInt(1)
		if q.Cmp(k) > 0 {
			k.Rand(r, q).Add(k, one)
		}
		x = k.Mul(k, m)
		x.Add(x, big.NewInt(int64(r.Intn(41)-20)))
	case 2:
		x = new(big.Int).Sub(top, big.NewInt(int64(1+r.Intn(40))))
	case 3: // around a limb
		x = new(big.Int).Lsh(one, uint(limb*(1+r.Intn(n/limb))))
		x.Add(x, big.NewInt(int64(r.Intn(5)-2)))
	case 4: // limbs of all ones or all zeroes
		x = new(big.Int)
		for i := 0; i*limb < n; i++ {
			if r.Intn(2) == 0 {
				l := new(big.Int).Sub(new(big.Int).Lsh(one, uint(limb)), one)
				x.Add(x, l.Lsh(l, uint(i*limb)))
			}
		}
	case 5:
		x = new(big.Int).Rsh(m, uint(r.Intn(3)))
		x.Add(x, big.NewInt(int64(r.Intn(5)-2)))
	default:
		x = new(big.Int).Rand(r, top)
	}
	if x.Sign() < 0 {
		x.Neg(x)
	}
	return x.Mod(x, top)
}

type fscen struct {
	H [][]json.RawMessage `json:"h"`
}

const regs = 4

// ---------------------------------------------------------------- C39
func c39(c *Ctx) {
	fops := []string{"add", "add", "sub", "sub", "neg", "mul", "mul", "sq", "inv", "set", "load", "load", "select", "swap", "abs", "mult32", "pow22523", "sqrt", "eq", "sign", "one", "zero", "badload"}
	light := []string{"add", "sub", "neg", "mult32", "add", "sub", "abs", "select", "swap", "load"}
	for i := 0; i < c.N(500, 20000); i++ {
		i := i
		c.Add("field", fmt.Sprintf("%sfield-%d", variant, i), func(r *Rec) {
			var f [regs]field.Element
			out := func() [][]int {
				o := [][]int{}
				for k := range f {
					o = append(o, le(f[k].Bytes()))
				}
				return o
			}
			ops := fops
			if i%3 == 1 { // long runs without a full reduction
				ops = light
			}
			for k := 0; k < 60; k++ {
				op := ops[r.Rnd.Intn(len(ops))]
				if k < regs {
					op = "load"
				}
				d, a, b := r.Rnd.Intn(regs), r.Rnd.Intn(regs), r.Rnd.Intn(regs)
				if k < regs {
					d = k
				}
				e := Ev{"op": op, "d": d + 1, "a": a + 1, "b": b + 1, "x": []int{}, "flag": 0}
				res, msg := Try(func() error {
					var err error
					ret := &f[d]
					switch op {
					case "add":
						ret = f[d].Add(&f[a], &f[b])
					case "sub":
						ret = f[d].Subtract(&f[a], &f[b])
					case "neg":
						ret = f[d].Negate(&f[a])
					case "mul":
						ret = f[d].Multiply(&f[a], &f[b])
					case "sq":
						ret = f[d].Square(&f[a])
					case "inv":
						ret = f[d].Invert(&f[a])
					case "set":
						ret = f[d].Set(&f[a])
					case "one":
						ret = f[d].One()
					case "zero":
						ret = f[d].Zero()
					case "load", "badload":
						x := toLE(edge(r.Rnd, fp, 256, 51), 32)
						e["x"] = le(x)
						if op == "badload" {
							x = make([]byte, []int{0, 31, 33, 64}[r.Rnd.Intn(4)])
						}
						keep := append([]byte(nil), x...)
						if k%2 == 0 {
							ret, err = f[d].SetBytes(x)
						} else {
							_, err = f[d].SetBytes(x)
						}
						if string(keep) != string(x) {
							panic("input written over")
						}
						for j := range x { // the bytes are the caller's
							x[j] = 0x5a
						}
					case "select":
						e["flag"] = r.Rnd.Intn(2)
						ret = f[d].Select(&f[a], &f[b], e["flag"].(int))
					case "swap":
						e["flag"] = r.Rnd.Intn(2)
						f[d].Swap(&f[a], e["flag"].(int))
					case "abs":
						ret = f[d].Absolute(&f[a])
					case "mult32":
						y := []uint32{0, 1, 19, 121666, 1<<32 - 1, r.Rnd.Uint32()}[r.Rnd.Intn(6)]
						e["x"] = Dig(new(big.Int).SetUint64(uint64(y)))
						ret = f[d].Mult32(&f[a], y)
					case "pow22523":
						ret = f[d].Pow22523(&f[a])
					case "sqrt":
						var w int
						ret, w = f[d].SqrtRatio(&f[a], &f[b])
						e["flag"] = w
					case "eq":
						e["flag"] = f[a].Equal(&f[b])
					case "sign":
						e["flag"] = f[a].IsNegative()
					}
					if ret != &f[d] && err == nil {
						panic("another element returned")
					}
					return err
				})
				e["res"] = res
				if res != "ok" {
					e["msg"] = msg
				}
				e["out"] = out()
				r.Add(e)
			}
		})
	}
	sops := []string{"sadd", "ssub", "sneg", "smul", "smuladd", "smuladd", "sset", "suniform", "sclamp", "scanon", "scanon", "sbad", "seq"}
	for i := 0; i < c.N(400, 16000); i++ {
		c.Add("scalar", fmt.Sprintf("%sscalar-%d", variant, i), func(r *Rec) {
			var f [regs]*edwards25519.Scalar
			for k := range f {
				f[k] = edwards25519.NewScalar()
			}
			for k := 0; k < 50; k++ {
				op := sops[r.Rnd.Intn(len(sops))]
				d, a, b, z := r.Rnd.Intn(regs), r.Rnd.Intn(regs), r.Rnd.Intn(regs), r.Rnd.Intn(regs)
				if k < regs {
					op, d = "suniform", k
				}
				e := Ev{"op": op, "d": d + 1, "a": a + 1, "b": b + 1, "c": z + 1, "x": []int{}, "flag": 0}
				res, msg := Try(func() error {
					var err error
					ret := f[d]
					load := func(n int, g func([]byte) (*edwards25519.Scalar, error), x *big.Int) {
						raw := toLE(x, n)
						e["x"] = le(raw)
						keep := append([]byte(nil), raw...)
						if g == nil {
							return
						}
						var q *edwards25519.Scalar
						q, err = g(raw)
						if err == nil {
							ret = q
						}
						if string(keep) != string(raw) {
							panic("input written over")
						}
						for j := range raw {
							raw[j] = 0xa5
						}
					}
					switch op {
					case "sadd":
						ret = f[d].Add(f[a], f[b])
					case "ssub":
						ret = f[d].Subtract(f[a], f[b])
					case "sneg":
						ret = f[d].Negate(f[a])
					case "smul":
						ret = f[d].Multiply(f[a], f[b])
					case "smuladd":
						ret = f[d].MultiplyAdd(f[a], f[b], f[z])
					case "sset":
						ret = f[d].Set(f[a])
					case "suniform":
						n := 512
						if r.Rnd.Intn(2) == 0 {
							n = 253 + r.Rnd.Intn(258)
						}
						load(64, f[d].SetUniformBytes, edge(r.Rnd, fl, n, 21))
					case "sclamp":
						load(32, f[d].SetBytesWithClamping, edge(r.Rnd, fl, 256, 21))
					case "scanon":
						load(32, f[d].SetCanonicalBytes, edge(r.Rnd, fl, []int{252, 253, 253, 253, 256}[r.Rnd.Intn(5)], 21))
					case "sbad":
						n := []int{0, 31, 33, 63, 65}[r.Rnd.Intn(5)]
						_, err = []func([]byte) (*edwards25519.Scalar, error){f[d].SetUniformBytes, f[d].SetBytesWithClamping, f[d].SetCanonicalBytes}[r.Rnd.Intn(3)](make([]byte, n))
					case "seq":
						e["flag"] = f[a].Equal(f[b])
					}
					if ret != f[d] {
						panic("another scalar returned")
					}
					return err
				})
				e["res"] = res
				if res != "ok" {
					e["msg"] = msg
				}
				o := [][]int{}
				for k := range f {
					b := f[k].Bytes()
					o = append(o, le(b))
					for j := range b { // a copy is handed out
						b[j] ^= 0xff
					}
				}
				e["out"] = o
				r.Add(e)
			}
		})
	}
}

// ---------------------------------------------------------------- C40
// encodings of the eight points of order dividing 8
var torsion = []string{
	"0100000000000000000000000000000000000000000000000000000000000000",
	"ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
	"0000000000000000000000000000000000000000000000000000000000000080",
	"0000000000000000000000000000000000000000000000000000000000000000",
	"c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a",
	"c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac03fa",
	"26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05",
	"26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc85",
}

func c40(c *Ctx) {
	pops := []string{"padd", "padd", "psub", "psub", "pneg", "pset", "pload", "pload", "pbad", "peq", "pgen", "pid", "pmul", "pbase", "pdouble", "paffine"}
	cheap := []string{"padd", "padd", "psub", "psub", "pneg", "pset", "pload", "peq", "pgen", "pid", "paffine", "pbad"}
	for i := 0; i < c.N(260, 8000); i++ {
		i := i
		c.Add("point", fmt.Sprintf("%spoint-%d", variant, i), func(r *Rec) {
			var f [regs]*edwards25519.Point
			for k := range f {
				f[k] = edwards25519.NewIdentityPoint()
			}
			enc := func() []byte {
				switch r.Rnd.Intn(6) {
				case 0, 1:
					x, _ := new(big.Int).SetString(torsion[r.Rnd.Intn(8)], 16)
					return x.FillBytes(make([]byte, 32))
				case 2: // small and large ordinates, reduced or not, either sign
					return toLE(edge(r.Rnd, fp, 256, 51), 32)
				case 3: // of large order
					var u [64]byte
					r.Rnd.Read(u[:])
					s, _ := edwards25519.NewScalar().SetUniformBytes(u[:])
					return new(edwards25519.Point).ScalarBaseMult(s).Bytes()
				case 4: // ordinate above the modulus
					x := new(big.Int).Add(fp, big.NewInt(int64(r.Rnd.Intn(19))))
					if r.Rnd.Intn(2) == 0 {
						x.Add(x, new(big.Int).Lsh(big.NewInt(1), 255))
					}
					return toLE(x, 32)
				default:
					return RandBytes(r.Rnd, 32)
				}
			}
			scalar := func() (*edwards25519.Scalar, []int) {
				x := edge(r.Rnd, fl, 253, []int{4, 5, 8, 21, 64}[r.Rnd.Intn(5)])
				x.Mod(x, fl)
				s, err := edwards25519.NewScalar().SetCanonicalBytes(toLE(x, 32))
				if err != nil {
					panic(err)
				}
				return s, Dig(x)
			}
			ops := cheap
			n := 24
			if i%2 == 0 {
				ops, n = pops, 10
			}
			for k := 0; k < n; k++ {
				op := ops[r.Rnd.Intn(len(ops))]
				if k < 3 {
					op = []string{"pload", "pload", "pgen"}[k]
				}
				d, a, b := r.Rnd.Intn(regs), r.Rnd.Intn(regs), r.Rnd.Intn(regs)
				e := Ev{"op": op, "d": d + 1, "a": a + 1, "b": b + 1, "x": []int{}, "s": []int{}, "u": []int{}, "flag": 0}
				res, msg := Try(func() error {
					var err error
					ret := f[d]
					switch op {
					case "padd":
						ret = f[d].Add(f[a], f[b])
					case "psub":
						ret = f[d].Subtract(f[a], f[b])
					case "pneg":
						ret = f[d].Negate(f[a])
					case "pset":
						ret = f[d].Set(f[a])
					case "pgen":
						f[d] = edwards25519.NewGeneratorPoint()
						ret = f[d]
					case "pid":
						f[d] = edwards25519.NewIdentityPoint()
						ret = f[d]
					case "pload":
						x := enc()
						e["x"] = le(x)
						var q *edwards25519.Point
						q, err = f[d].SetBytes(x)
						if err == nil {
							ret = q
						}
						for j := range x {
							x[j] = 0x5a
						}
					case "pbad":
						if r.Rnd.Intn(2) == 0 {
							_, err = f[d].SetBytes(make([]byte, []int{0, 31, 33}[r.Rnd.Intn(3)]))
						} else { // a point that was never set
							q := new(edwards25519.Point)
							switch r.Rnd.Intn(5) {
							case 0:
								f[d].Add(f[a], q)
							case 1:
								f[d].Subtract(q, f[a])
							case 2:
								f[d].Negate(q)
							case 3:
								q.Bytes()
							case 4:
								f[d].Equal(q)
							}
						}
					case "peq":
						e["flag"] = f[a].Equal(f[b])
					case "pmul":
						s, x := scalar()
						e["s"] = x
						ret = f[d].ScalarMult(s, f[a])
					case "pbase":
						s, x := scalar()
						e["s"] = x
						ret = f[d].ScalarBaseMult(s)
					case "pdouble":
						s, x := scalar()
						u, y := scalar()
						e["s"], e["u"] = x, y
						ret = f[d].VarTimeDoubleScalarBaseMult(s, f[a], u)
					case "paffine":
						q := new(edwards25519.PointAffine).FromExtended(f[a])
						x, y, z := f[a].UnpackPoint()
						var zi, xx, yy field.Element
						zi.Invert(&z)
						if xx.Multiply(&x, &zi).Equal(&q.X) != 1 || yy.Multiply(&y, &zi).Equal(&q.Y) != 1 {
							panic("coordinates differ")
						}
						e["s"], e["u"] = le(q.X.Bytes()), le(q.Y.Bytes())
					}
					if ret != f[d] {
						panic("another point returned")
					}
					return err
				})
				e["res"] = res
				if res != "ok" {
					e["msg"] = msg
				}
				o := [][]int{}
				for k := range f {
					o = append(o, le(f[k].Bytes()))
				}
				e["out"] = o
				r.Add(e)
			}
		})
	}
}
