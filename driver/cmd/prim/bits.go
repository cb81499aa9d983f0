package main

import (
	"fmt"
	"math/big"
	"math/rand"

	"github.com/brevis-network/zk-utils/circuits/gadgets/conv"
	zemu "github.com/brevis-network/zk-utils/circuits/gadgets/emulated"
	"github.com/brevis-network/zk-utils/circuits/gadgets/limbs"
	gutils "github.com/brevis-network/zk-utils/circuits/gadgets/utils"
	cutils "github.com/brevis-network/zk-utils/common/utils"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/std/math/emulated"
	"github.com/consensys/gnark/std/math/emulated/emparams"

	. "verifdriver/h"
)

// ---- C18 ----

type limbOp struct {
	op     string // split, merge, resplit, lrot, lrotMerge
	sizes  []int
	n, cnt int // new size, optional count (0: none)
	amount int
}

func (o limbOp) run(api API, v []V) limbs.Limbs {
	la := limbs.NewAPI(api)
	ws := make(limbs.Limbs, len(o.sizes))
	for i, s := range o.sizes {
		ws[i] = limbs.Limb{Val: v[i], Size: s}
	}
	switch o.op {
	case "split":
		if o.cnt > 0 {
			return la.Split(ws[0], o.n, o.cnt)
		}
		return la.Split(ws[0], o.n)
	case "merge":
		return limbs.Limbs{la.Merge(ws)}
	case "resplit":
		return la.Resplit(ws, o.n)
	case "lrot":
		return la.Lrot(ws, o.amount, o.n)
	case "lrotMerge":
		return limbs.Limbs{la.LrotMerge(ws, o.amount)}
	}
	panic(o.op)
}

func c18(c *Ctx) {
	rnd := c.Rand("c18")
	gen := func(i int, maxTotal int) limbOp {
		o := limbOp{op: []string{"split", "split", "merge", "resplit", "lrot", "lrotMerge"}[i%6]}
		k := 1
		if o.op != "split" {
			k = 1 + rnd.Intn(5)
		}
		tot := 0
		uni := 1 + rnd.Intn(maxTotal/k)
		for j := 0; j < k; j++ {
			s := 1 + rnd.Intn(maxTotal/k)
			if i%2 == 0 {
				s = uni
			}
			o.sizes = append(o.sizes, s)
			tot += s
		}
		o.n = 1 + rnd.Intn(tot)
		if rnd.Intn(3) == 0 {
			d := []int{}
			for j := 1; j <= tot; j++ {
				if tot%j == 0 {
					d = append(d, j)
				}
			}
			o.n = d[rnd.Intn(len(d))]
		}
		if o.op == "split" && i%4 == 1 && tot/o.n > 0 {
			o.cnt = 1 + rnd.Intn(tot/o.n)
		}
		o.amount = rnd.Intn(tot + 1)
		if rnd.Intn(3) == 0 { // at a limb boundary
			o.amount = 0
			for j := 0; j < rnd.Intn(k+1); j++ {
				o.amount += o.sizes[j]
			}
		}
		return o
	}
	ev := func(o limbOp) Ev {
		return Ev{"op": o.op, "sizes": o.sizes, "n": o.n, "cnt": o.cnt, "amount": o.amount}
	}
	for i := 0; i < c.N(240, 3000); i++ {
		o := gen(i, []int{8, 64, 253}[i%3])
		if i%40 == 39 { // more bits than the field: only resplit
			o = limbOp{op: "resplit", sizes: []int{64, 64, 64, 64}, n: []int{1, 8, 32, 128, 64, 16}[rnd.Intn(6)]}
			if rnd.Intn(2) == 0 {
				o = limbOp{op: "resplit", sizes: []int{128, 128, 128}, n: []int{8, 96, 64, 48}[rnd.Intn(4)]}
			}
		}
		big1 := i%9 == 8
		c.Add("limb", fmt.Sprintf("limb-%d-%s", i, o.op), func(r *Rec) {
			var in []*big.Int
			for _, s := range o.sizes {
				in = append(in, RandBig(r.Rnd, s))
			}
			if big1 { // too wide for the declared size
				j := r.Rnd.Intn(len(in))
				in[j] = new(big.Int).Add(in[j], new(big.Int).Lsh(bi(1), uint(o.sizes[j]+r.Rnd.Intn(3)*r.Rnd.Intn(40))))
				in[j].Mod(in[j], BN254)
			}
			var sz []int
			acc, out, _ := Solve(in, func(api API, v []V) []V {
				ls := o.run(api, v)
				sz = nil
				for _, l := range ls {
					sz = append(sz, l.Size)
				}
				return ls.Values()
			})
			e := ev(o)
			e["in"], e["acc"], e["out"], e["osz"] = Digs(in), B(acc), Digs(out), append([]int{}, sz...)
			r.Add(e)
		})
	}
	// as many bits as the field: numbers above the modulus are numbers too
	for i, n := range []int{1, 2, 127, 64, 100, 253, 200, 127, 2, 32} { // (one limb cannot hold them)
		k := []int{2, 127, 254, 1}[i%4]
		o := limbOp{op: "resplit", sizes: make([]int, k), n: n}
		for j := range o.sizes {
			o.sizes[j] = 254 / k
		}
		c.Add("limb", fmt.Sprintf("full-%d-%d-%d", i, k, n), func(r *Rec) {
			for _, x := range []*big.Int{new(big.Int).Sub(new(big.Int).Lsh(bi(1), 254), bi(1)), BN254, new(big.Int).Sub(BN254, bi(1)), new(big.Int).Add(BN254, bi(12345)), RandBig(r.Rnd, 254)} {
				var in []*big.Int
				for j := range o.sizes {
					in = append(in, new(big.Int).And(new(big.Int).Rsh(x, uint(254-(j+1)*254/k)), new(big.Int).Sub(new(big.Int).Lsh(bi(1), uint(254/k)), bi(1))))
				}
				if k == 1 {
					in[0].Mod(in[0], BN254)
				}
				var sz []int
				acc, out, _ := Solve(in, func(api API, v []V) []V {
					ls := o.run(api, v)
					sz = nil
					for _, l := range ls {
						sz = append(sz, l.Size)
					}
					return ls.Values()
				})
				e := ev(o)
				e["in"], e["acc"], e["out"], e["osz"] = Digs(in), B(acc), Digs(out), append([]int{}, sz...)
				r.Add(e)
			}
		})
	}
	// a prover that answers the split hint as it likes
	for i := 0; i < c.N(60, 400); i++ {
		o := gen([]int{0, 1, 3, 4, 5}[i%5], []int{8, 64, 253}[i%3])
		if i%12 == 11 {
			o = limbOp{op: "split", sizes: []int{254}, n: []int{1, 127, 64}[rnd.Intn(3)]}
		}
		plonk := i%2 == 1
		c.Add("cheat", fmt.Sprintf("cheat-%d-%s", i, o.op), func(r *Rec) {
			var in []*big.Int
			for _, s := range o.sizes {
				x := RandBig(r.Rnd, s)
				if s == 254 {
					x = RandBig(r.Rnd, 250)
				}
				in = append(in, x)
			}
			ok, hon, _ := Solve(in, func(api API, v []V) []V { return o.run(api, v).Values() })
			if !ok {
				r.Add(Ev{"op": "refused", "of": ev(o)})
				return
			}
			cs, err := Compile(BN254, plonk, len(in), len(hon), func(api API, v []V) ([]V, error) { return o.run(api, v).Values(), nil })
			if err != nil {
				panic(err)
			}
			r2 := r.Rnd
			try := func(mode int, out []*big.Int) (bool, []*big.Int) {
				// the hint's outputs are what the circuit reports for a split, so steer the claim with them
				seen := [][]*big.Int{}
				hint := func(m *big.Int, hi, ho []*big.Int) error {
					if err := limbs.SplitHint(m, hi, ho); err != nil {
						return err
					}
					ls := int(hi[2].Int64())
					rem := int(hi[1].Int64()) - int(hi[3].Int64())*ls
					n := len(ho)
					shift := func(k int) uint { // weight of limb k in units of limb k+1
						if k+1 == n-1 && rem > 0 {
							return uint(rem)
						}
						return uint(ls)
					}
					switch mode {
					case 1: // borrow: one less here, 2^w more in the next limb
						if n > 1 {
							k := r2.Intn(n - 1)
							ho[k].Sub(ho[k], bi(1)).Mod(ho[k], m)
							ho[k+1].Add(ho[k+1], new(big.Int).Lsh(bi(1), shift(k))).Mod(ho[k+1], m)
						}
					case 2: // everything in the last limb
						if n > 1 {
							for k := 0; k < n-1; k++ {
								ho[k].SetInt64(0)
							}
							ho[n-1].Set(hi[0])
							if rem == 0 && n != int(hi[3].Int64()) {
								ho[n-1].Set(hi[0])
							}
						}
					case 3: // the representation of x + p
						x := []*big.Int{new(big.Int).Add(hi[0], m), hi[1], hi[2], hi[3]}
						if err := limbs.SplitHint(m, x, ho); err != nil {
							return err
						}
						for k := range ho {
							ho[k].Mod(ho[k], m)
						}
					case 4: // carry
						if n > 1 {
							k := r2.Intn(n - 1)
							ho[k].Add(ho[k], bi(1)).Mod(ho[k], m)
							ho[k+1].Sub(ho[k+1], new(big.Int).Lsh(bi(1), shift(k))).Mod(ho[k+1], m)
						}
					}
					cp := []*big.Int{}
					for _, x := range ho {
						cp = append(cp, new(big.Int).Set(x))
					}
					seen = append(seen, cp)
					return nil
				}
				if mode == 0 {
					hint = limbs.SplitHint
				}
				acc, _ := SolveCS(BN254, cs, in, out, solver.OverrideHint(solver.GetHintID(limbs.SplitHint), hint))
				var claim []*big.Int
				if len(seen) > 0 {
					claim = seen[len(seen)-1]
				}
				return acc, claim
			}
			acc, _ := try(0, hon)
			e := ev(o)
			e["op"], e["of"] = "cheat", o.op
			e["in"], e["mode"], e["acc"], e["out"] = Digs(in), 0, B(acc), Digs(hon)
			r.Add(e)
			for mode := 1; mode <= 4; mode++ {
				s := r2.Int63()
				r2.Seed(s)
				_, claim := try(mode, hon)
				if o.op == "lrotMerge" { // one output: a rotation of another value
					claim = []*big.Int{new(big.Int).Add(hon[0], bi(1))}
				}
				if len(claim) != len(hon) {
					continue
				}
				r2.Seed(s)
				acc, _ := try(mode, claim)
				e := ev(o)
				e["op"], e["of"] = "cheat", o.op
				e["in"], e["mode"], e["acc"], e["out"] = Digs(in), mode, B(acc), Digs(claim)
				r.Add(e)
			}
		})
	}
}

// ---- C17 ----

type emu struct {
	name  string
	nb    int
	from  func(api API, ls []V, w int) []V
	to    func(api API, in []V, w int) []V
	tos   func(api API, in []V, w int) []V
	bits  int
	modul *big.Int
}

func mkEmu[T emulated.FieldParams](name string) emu {
	var p T
	return emu{name: name, nb: int(p.NbLimbs()), bits: int(p.BitsPerLimb()), modul: p.Modulus(),
		from: func(api API, ls []V, w int) []V {
			return zemu.FromElement[T](api, &emulated.Element[T]{Limbs: ls}, w)
		},
		to: func(api API, in []V, w int) []V { return zemu.ToElement[T](api, in, w).Limbs },
		tos: func(api API, in []V, w int) []V {
			var r []V
			for _, e := range zemu.ToElements[T](api, in, w) {
				if len(e.Limbs) != int(p.NbLimbs()) {
					panic("limbs")
				}
				r = append(r, e.Limbs...)
			}
			return r
		},
	}
}

func c17(c *Ctx) {
	rnd := c.Rand("c17")
	es := []emu{mkEmu[emparams.BN254Fr]("bn254"), mkEmu[emparams.BLS12377Fr]("bls377fr"), mkEmu[emparams.Secp256k1Fp]("secp"), mkEmu[emparams.BLS12381Fp]("bls381fp"), mkEmu[emparams.Goldilocks]("goldilocks")}
	for i := 0; i < c.N(450, 3000); i++ {
		e := es[i%len(es)]
		op := []string{"from", "to", "tos"}[(i/len(es))%3]
		ws := []int{1, 2, 4, 8, 16, 32, 64}
		if op != "tos" && e.nb%2 == 0 {
			ws = append(ws, 128)
		}
		w := ws[rnd.Intn(len(ws))]
		if i%4 == 0 {
			w = 8
		}
		mut := 0
		if i%5 == 4 {
			mut = 1 + rnd.Intn(3)
		}
		cnt := 1
		if op == "tos" {
			cnt = 1 + rnd.Intn(3)
		}
		c.Add(op, fmt.Sprintf("%s-%d-%s-%d", op, i, e.name, w), func(r *Rec) {
			var in []*big.Int
			n := e.nb * e.bits * cnt / w
			cw := w
			if op == "from" {
				n, cw = e.nb, e.bits
			}
			if mut == 2 && op != "from" {
				n += []int{-1, 1, 64 / Min(w, 64), -64 / Min(w, 64)}[r.Rnd.Intn(4)]
				if n < 1 {
					n = 1
				}
			}
			for j := 0; j < n; j++ {
				in = append(in, RandBig(r.Rnd, cw))
			}
			if op != "from" && i%6 != 1 && i%7 != 0 { // fits the bit length of the modulus
				per := e.nb * e.bits / w
				free := e.nb*e.bits - e.modul.BitLen()
				for j := 0; j < n; j++ {
					f := free - (j%per)*w
					if f > w {
						f = w
					}
					if f > 0 {
						in[j].Rsh(in[j], uint(f))
					}
				}
			}
			if i%6 == 1 && mut == 0 { // the encoding of a reduced element
				x := new(big.Int).Rand(r.Rnd, e.modul)
				for j := 0; j < n; j++ {
					in[j] = new(big.Int).And(new(big.Int).Rsh(x, uint(j*cw)), new(big.Int).Sub(new(big.Int).Lsh(bi(1), uint(cw)), bi(1)))
				}
				if op != "from" {
					for a, b := 0, n-1; a < b; a, b = a+1, b-1 {
						in[a], in[b] = in[b], in[a]
					}
				}
			}
			if mut == 1 || mut == 3 {
				j := r.Rnd.Intn(len(in))
				in[j] = new(big.Int).Add(in[j], new(big.Int).Lsh(bi(1), uint(cw+r.Rnd.Intn(3))))
			}
			acc, out, _ := Solve(in, func(api API, v []V) []V {
				switch op {
				case "from":
					return e.from(api, v, w)
				case "to":
					return e.to(api, v, w)
				}
				return e.tos(api, v, w)
			})
			r.Add(Ev{"op": op, "nb": e.nb, "lb": e.bits, "mb": e.modul.BitLen(), "w": w, "in": Digs(in), "acc": B(acc), "out": Digs(out)})
			if op == "to" && acc && mut == 0 { // and back
				acc, out, _ := Solve(in, func(api API, v []V) []V { return e.from(api, e.to(api, v, w), w) })
				r.Add(Ev{"op": "roundtrip", "in": Digs(in), "acc": B(acc), "out": Digs(out)})
			}
		})
	}
}

// ---- C19 ----

func c19(c *Ctx) {
	rnd := c.Rand("c19")
	fns := map[string]func(api API, v []V) []V{
		"bytesBE":    conv.Bits2Bytes2,
		"bytesLE":    conv.Bits2Bytes,
		"bytesRevLE": conv.Bits2BytesArray,
		"nibblesLE":  conv.Bits2Nibbles,
		"u128":       nil,
		"keccakFlip": nil,
	}
	for i, name := range []string{"bytesBE", "bytesLE", "bytesRevLE", "nibblesLE", "u128"} {
		f := fns[name]
		for k := 0; k < c.N(8, 60); k++ {
			unit := 8
			if name == "nibblesLE" {
				unit = 4
			}
			n := unit * rnd.Intn(20)
			if name == "u128" {
				n = 256
			}
			if k == 0 && name != "u128" {
				n = unit
			}
			bad := k%4 == 3 && n > 0
			odd := k%8 == 6 && name != "u128"
			c.Add(name, fmt.Sprintf("%s-%d", name, k), func(r *Rec) {
				in := make([]*big.Int, 0, n+1)
				m := n
				if odd {
					m += 1 + r.Rnd.Intn(unit-1)
				}
				for j := 0; j < m; j++ {
					in = append(in, bi(r.Rnd.Intn(2)))
				}
				if bad {
					in[r.Rnd.Intn(len(in))] = []*big.Int{bi(2), neg(1), bi(3)}[r.Rnd.Intn(3)]
				}
				before := Digs(in)
				var after [][]int
				acc, out, _ := Solve(in, func(api API, v []V) []V {
					a := append(make([]V, 0, m), v[:m]...)
					a = a[:m:m]
					var o []V
					if name == "u128" {
						var b [256]V
						copy(b[:], a)
						q := conv.Bits2Uint128s(api, b)
						o = q[:]
					} else {
						o = f(api, a)
					}
					after = nil
					for _, x := range a {
						after = append(after, Dig(Val(BN254, x)))
					}
					return o
				})
				if after == nil {
					after = before
				}
				r.Add(Ev{"op": name, "in": before, "after": after, "acc": B(acc), "out": Digs(out)})
			})
		}
		_ = i
	}
	for k := 0; k < c.N(12, 80); k++ {
		w := 8 * (1 + rnd.Intn(30))
		odd := k%6 == 5
		c.Add("keccakFlip", fmt.Sprintf("keccakFlip-%d", k), func(r *Rec) {
			w := w
			if odd {
				w -= 1 + r.Rnd.Intn(7)
			}
			x := RandBig(r.Rnd, w)
			if k%5 == 4 {
				x = new(big.Int).Add(x, new(big.Int).Lsh(bi(1), uint(w)))
			}
			acc, out, _ := Solve([]*big.Int{x}, func(api API, v []V) []V { return gutils.FlipKeccakFvBits(api, v[0], w) })
			r.Add(Ev{"op": "keccakFlip", "x": Dig(x), "w": w, "acc": B(acc), "out": Small(out)})
		})
	}
	c.Add("flip", "flips", func(r *Rec) {
		for k := 0; k < c.N(60, 400); k++ {
			n := r.Rnd.Intn(20)
			g := 1 + r.Rnd.Intn(5)
			if k%3 > 0 {
				n = g * r.Rnd.Intn(7)
			}
			back := make([]int, n+3) // spare capacity belongs to somebody else
			for i := range back {
				back[i] = r.Rnd.Intn(1000)
			}
			a := back[:n]
			rec := func(op string, f func([]int) []int) {
				before := append([]int{}, back...)
				var o []int
				res, _ := Try(func() error { o = f(a); return nil })
				mid := append([]int{}, back...)
				// writing to the result must not reach the argument
				cp := append([]int{}, o...)
				for i := range o {
					o[i] = -7
				}
				alias := 0
				for i := range back {
					if back[i] != mid[i] {
						alias = 1
					}
				}
				r.Add(Ev{"op": op, "in": append([]int{}, before[:n]...), "g": g, "back": before, "after": mid, "res": res, "out": cp, "alias": alias})
				copy(back, before)
			}
			rec("flip", gutils.Flip[int])
			rec("flip", cutils.Flip[int])
			rec("flipSub", func(x []int) []int { return gutils.FlipSubSlice(x, g) })
			rec("flipGroups", func(x []int) []int { return cutils.FlipByGroups(x, g) })
			fv := gutils.Slice2FVs(a)
			o := []int{}
			for _, x := range fv {
				o = append(o, x.(int))
			}
			r.Add(Ev{"op": "copy", "in": append([]int{}, a...), "out": o})
			rv := append([]int{}, a...)
			o = cutils.Reverse(rv)
			r.Add(Ev{"op": "reverse", "in": append([]int{}, a...), "out": append([]int{}, o...)})
		}
	})
}

// ---- C20 ----

func uints(b []uint) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func c20(c *Ctx) {
	rnd := c.Rand("c20")
	edge := func(r *rand.Rand, n int) []byte {
		b := RandBytes(r, n)
		switch r.Intn(6) {
		case 0:
			b = make([]byte, n)
		case 1:
			for i := range b {
				b[i] = 255
			}
		case 2:
			if n > 0 {
				b = make([]byte, n)
				b[r.Intn(n)] = byte(1 << r.Intn(8))
			}
		case 3:
			for i := 0; i < n && i < 1+r.Intn(4); i++ {
				b[i] = 0
			}
		}
		return b
	}
	for i := 0; i < c.N(60, 500); i++ {
		fr := 248
		if i%5 == 4 {
			fr = []int{253, 250, 128, 240, 200, 3}[rnd.Intn(6)]
		}
		n := 32
		if i%4 == 3 {
			n = rnd.Intn(35)
		}
		c.Add("word", fmt.Sprintf("word-%d-%d", i, n), func(r *Rec) {
			d := edge(r.Rnd, n)
			var lh [2]*big.Int
			res, _ := Try(func() error { lh = cutils.ParseBytes32(d, fr); return nil })
			if res != "ok" {
				r.Add(Ev{"op": "parse32", "in": Bytes(d), "fr": fr, "res": res, "lo": []int{}, "hi": []int{}})
				return
			}
			r.Add(Ev{"op": "parse32", "in": Bytes(d), "fr": fr, "res": res, "lo": Dig(lh[0]), "hi": Dig(lh[1])})
			r.Add(Ev{"op": "frBits", "in": Bytes(d), "out": uints(cutils.Byte32ToFrBits(lh, fr))})
			acc, out, _ := Solve(lh[:], func(api API, v []V) []V {
				return cutils.Byte32ToBits(api, cutils.Bytes32{Val: [2]V{v[0], v[1]}}, fr)
			})
			r.Add(Ev{"op": "cBits", "in": Bytes(d), "acc": B(acc), "out": Small(out)})
			if fr == 248 {
				acc, out, _ = Solve(lh[:], func(api API, v []V) []V {
					o := cutils.RecomposeSDKByte32ToNibble(api, cutils.Bytes32{Val: [2]V{v[0], v[1]}})
					return o[:]
				})
				r.Add(Ev{"op": "cNibbles", "in": Bytes(d), "acc": B(acc), "out": Small(out)})
				acc, out, _ = Solve(lh[:], func(api API, v []V) []V {
					o := cutils.RecomposeSDKByte32To2Fr(api, cutils.Bytes32{Val: [2]V{v[0], v[1]}})
					return o[:]
				})
				r.Add(Ev{"op": "c128", "in": Bytes(d), "acc": B(acc), "out": Digs(out)})
				// words that do not fit their widths
				for k, bad := range [][]*big.Int{{lh[0], bi(256 + r.Rnd.Intn(9))}, {new(big.Int).Lsh(bi(1), 248), lh[1]}, {neg(1), lh[1]}} {
					q := []int{}
					a1, _, _ := Solve(bad, func(api API, v []V) []V {
						cutils.RecomposeSDKByte32ToNibble(api, cutils.Bytes32{Val: [2]V{v[0], v[1]}})
						return nil
					})
					a2, _, _ := Solve(bad, func(api API, v []V) []V {
						cutils.RecomposeSDKByte32To2Fr(api, cutils.Bytes32{Val: [2]V{v[0], v[1]}})
						return nil
					})
					a3, _, _ := Solve(bad, func(api API, v []V) []V {
						cutils.Byte32ToBits(api, cutils.Bytes32{Val: [2]V{v[0], v[1]}}, 248)
						return nil
					})
					r3, _ := Try(func() error { cutils.Byte32ToFrBits([2]*big.Int{bad[0], bad[1]}, 248); return nil })
					q = append(q, B(a1), B(a2), B(a3), B(r3 == "ok"))
					r.Add(Ev{"op": "tooWide", "k": k, "accs": q})
				}
			}
		})
	}
	for i := 0; i < c.N(90, 600); i++ {
		n := []int{1, 2, 4, 8, 16, 32, 64, 128, 256}[rnd.Intn(9)]
		if i%9 == 8 {
			n = 3 + 2*rnd.Intn(20)
		}
		bad := i%6 == 5
		c.Add("trunks", fmt.Sprintf("trunk-%d-%d", i, n), func(r *Rec) {
			var in []*big.Int
			w := 256 / n
			if w == 256 {
				w = 253
			}
			for j := 0; j < n; j++ {
				in = append(in, RandBig(r.Rnd, w))
			}
			if bad {
				in[r.Rnd.Intn(n)] = new(big.Int).Mod(new(big.Int).Lsh(bi(1), uint(w)), BN254)
			}
			acc, out, _ := Solve(in, func(api API, v []V) []V {
				o := cutils.Recompose32ByteToNibbles(api, v[:n])
				return o[:]
			})
			r.Add(Ev{"op": "trunks", "in": Digs(in), "acc": B(acc), "out": Small(out)})
		})
	}
	for i := 0; i < c.N(48, 200); i++ {
		c.Add("six", fmt.Sprintf("six-%d", i), func(r *Rec) {
			x := RandBig(r.Rnd, 48)
			if i%4 == 3 {
				x = new(big.Int).Add(x, new(big.Int).Lsh(bi(1), uint(48+i/4%3)))
			}
			acc, out, _ := Solve([]*big.Int{x}, func(api API, v []V) []V {
				o := cutils.Recompose6BytesToNibbles(api, v[0])
				return o[:]
			})
			r.Add(Ev{"op": "six", "x": Dig(x), "acc": B(acc), "out": Small(out)})
		})
	}
	for i := 0; i < c.N(40, 200); i++ {
		n := rnd.Intn(800)
		if i%3 == 0 {
			n = 253*(1+rnd.Intn(3)) + rnd.Intn(3) - 1
		}
		c.Add("pack", fmt.Sprintf("pack-%d-%d", i, n), func(r *Rec) {
			bits := make([]uint, n)
			var in []*big.Int
			for j := range bits {
				bits[j] = uint(r.Rnd.Intn(2))
				if i%7 == 0 {
					bits[j] = 1
				}
				in = append(in, bi(int(bits[j])))
			}
			host := cutils.PackBitsToInt(bits)
			acc, out, _ := Solve(in, func(api API, v []V) []V { return cutils.PackBitsToFr(api, v[:n]) })
			r.Add(Ev{"op": "pack", "bits": uints(bits), "host": Digs(host), "acc": B(acc), "out": Digs(out)})
			if n > 0 {
				in[r.Rnd.Intn(n)] = bi(2)
				acc, _, _ := Solve(in, func(api API, v []V) []V { return cutils.PackBitsToFr(api, v[:n]) })
				r.Add(Ev{"op": "packBad", "acc": B(acc)})
			}
		})
	}
	c.Add("host", "host", func(r *Rec) {
		for i := 0; i < c.N(80, 400); i++ {
			w := 1 + r.Rnd.Intn(300)
			x := RandBig(r.Rnd, w)
			n := w
			if i%3 == 0 {
				n = x.BitLen() + r.Rnd.Intn(3)
			}
			if i%5 == 4 {
				n = x.BitLen() - 1 - r.Rnd.Intn(3)
			}
			if n < 0 {
				n = 0
			}
			y := new(big.Int).Set(x)
			var o []uint
			res, _ := Try(func() error { o = cutils.DecomposeBits(y, n); return nil })
			r.Add(Ev{"op": "decompose", "x": Dig(x), "n": n, "res": res, "out": uints(o), "same": B(x.Cmp(y) == 0)})
		}
		for i := 0; i < 256; i++ {
			r.Add(Ev{"op": "byteBits", "b": i, "out": uints(cutils.DecodeByteToBinary(byte(i)))})
		}
		mods := []*big.Int{BN254, bi(97), emparams.BLS12377Fr{}.Modulus()}
		for i := 0; i < c.N(60, 300); i++ {
			m := mods[i%3]
			x := RandBig(r.Rnd, 1+r.Rnd.Intn(300))
			switch i % 5 {
			case 0:
				x = new(big.Int).Mul(m, bi(r.Rnd.Intn(4)))
			case 1:
				x = new(big.Int).Add(m, bi(r.Rnd.Intn(3)-1))
			}
			n := x.BitLen() + r.Rnd.Intn(3)
			b := make([]uint, n)
			for j := range b {
				b[j] = x.Bit(n - 1 - j)
			}
			r.Add(Ev{"op": "bitsMod", "bits": uints(b), "m": Dig(m), "out": Dig(cutils.BitsToFrBigInt(b, m))})
		}
		v := func(x any, want *big.Int) {
			g := cutils.Var2BigInt(x)
			r.Add(Ev{"op": "var", "neg": B(g.Sign() < 0), "out": Dig(new(big.Int).Abs(g)), "wneg": B(want.Sign() < 0), "want": Dig(new(big.Int).Abs(want))})
		}
		for i := 0; i < 20; i++ {
			u := r.Rnd.Uint64()
			x := RandBig(r.Rnd, 300)
			v(u, new(big.Int).SetUint64(u))
			v(uint(u), new(big.Int).SetUint64(u))
			v(uint8(u), bi(int(uint8(u))))
			v(uint16(u), bi(int(uint16(u))))
			v(uint32(u), bi(int(uint32(u))))
			v(int8(u), bi(int(int8(u))))
			v(int16(u), bi(int(int16(u))))
			v(int32(u), bi(int(int32(u))))
			v(int64(u), big.NewInt(int64(u)))
			v(int(u), big.NewInt(int64(u)))
			v(x, x)
			v(*x, x)
			v(x.String(), x)
			v("0x"+x.Text(16), x)
			v(x.Bytes(), x)
			v(nil, bi(0))
		}
	})
}
