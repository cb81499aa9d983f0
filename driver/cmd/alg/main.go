// Driver for the algebraic trees and hashers: C14, C15, C16.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	emimc "github.com/brevis-network/zk-utils/circuits/gadgets/emulated/mimc"
	"github.com/brevis-network/zk-utils/circuits/gadgets/merkle"
	"github.com/brevis-network/zk-utils/circuits/gadgets/smt"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	nmimc "github.com/consensys/gnark/std/hash/mimc"
	"github.com/consensys/gnark/std/math/emulated"

	. "verifdriver/h"
)

func main() {
	Main(map[string]func(c *Ctx){"C14": c14, "C15": c15, "C16": c16})
}

var fields = map[string]*big.Int{
	"bn254":  ecc.BN254.ScalarField(),
	"bls377": ecc.BLS12_377.ScalarField(),
	"bw761":  ecc.BW6_761.ScalarField(),
}

func bi(n int) *big.Int { return big.NewInt(int64(n)) }

// a field element: edge values often
func fe(r *rand.Rand, p *big.Int) *big.Int {
	switch r.Intn(8) {
	case 0:
		return bi(r.Intn(3))
	case 1:
		return new(big.Int).Sub(p, bi(1+r.Intn(3)))
	}
	return RandBelow(r, p)
}

// an element as a prover may hold it: sometimes not reduced
func fel(r *rand.Rand, p *big.Int) *big.Int {
	if r.Intn(6) == 0 {
		d := new(big.Int).Sub(new(big.Int).Lsh(bi(1), uint(p.BitLen())), p)
		return new(big.Int).Add(p, RandBelow(r, d))
	}
	return fe(r, p)
}
func fes(r *rand.Rand, p *big.Int, n int, g func(*rand.Rand, *big.Int) *big.Int) []*big.Int {
	out := make([]*big.Int, n)
	for i := range out {
		out[i] = g(r, p)
	}
	return out
}
func sides(r *rand.Rand, p *big.Int, n int, bad bool) []*big.Int {
	out := make([]*big.Int, n)
	for i := range out {
		out[i] = bi(r.Intn(2))
	}
	if bad && n > 0 {
		out[r.Intn(n)] = []*big.Int{bi(2), new(big.Int).Sub(p, bi(1)), bi(3), bi(255), RandBelow(r, p)}[r.Intn(5)]
	}
	return out
}
func cat(bs ...[]*big.Int) []*big.Int {
	var out []*big.Int
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}
func first(bs []*big.Int) []int {
	if len(bs) == 0 {
		return []int{}
	}
	return Dig(bs[0])
}

// ---- elements of an emulated field, as limbs ----
func limbs(nb, w int, x *big.Int) []*big.Int {
	m := new(big.Int).Sub(new(big.Int).Lsh(bi(1), uint(w)), bi(1))
	out := make([]*big.Int, nb)
	for i := range out {
		out[i] = new(big.Int).And(new(big.Int).Rsh(x, uint(i*w)), m)
	}
	return out
}
func unlimbs(w int, ls []*big.Int) *big.Int {
	x := new(big.Int)
	for i, l := range ls {
		x.Add(x, new(big.Int).Lsh(l, uint(i*w)))
	}
	return x
}

type emu struct {
	nb, w int
	// run gives f elements made from the values and returns what f yields
	run func(xs []*big.Int, extra []*big.Int, f func(ops emuOps, extra []V)) (bool, []*big.Int, string)
}

type emuOps struct {
	write   func(i ...int)
	reset   func()
	sum     func()
	hash    func(i ...int)
	root    func(i ...int)
	restore func(leaf int, path []int, lr []V)
}

func emulate[T emulated.FieldParams](id ecc.ID) emu {
	var t T
	nb, w := int(t.NbLimbs()), int(t.BitsPerLimb())
	return emu{nb, w, func(xs, extra []*big.Int, f func(ops emuOps, extra []V)) (bool, []*big.Int, string) {
		var in []*big.Int
		for _, x := range xs {
			in = append(in, limbs(nb, w, x)...)
		}
		in = append(in, extra...)
		return Solve(in, func(api API, vs []V) []V {
			fd, err := emulated.NewField[T](api)
			if err != nil {
				panic(err)
			}
			els := make([]*emulated.Element[T], len(xs))
			for i := range els {
				els[i] = fd.NewElement(append([]V{}, vs[i*nb:(i+1)*nb]...))
			}
			var outs []V
			put := func(e *emulated.Element[T]) {
				for i := 0; i < nb; i++ {
					if i < len(e.Limbs) {
						outs = append(outs, e.Limbs[i])
					} else {
						outs = append(outs, 0)
					}
				}
			}
			pick := func(i []int) []*emulated.Element[T] {
				out := []*emulated.Element[T]{}
				for _, j := range i {
					out = append(out, els[j])
				}
				return out
			}
			hs := emimc.NewMiMC[T](api, id)
			f(emuOps{
				write: func(i ...int) {
					// the buffer is the caller's: it is used again after the write
					p := append(make([]*emulated.Element[T], 0, len(i)+3), pick(i)...)
					hs.Write(p...)
					p = p[:cap(p)]
					for k := range p {
						p[k] = els[(len(els)+k*7+len(i))%len(els)]
					}
				},
				reset: hs.Reset,
				sum:   func() { put(hs.Sum()) },
				hash:  func(i ...int) { put(hs.Hash(pick(i)...)) },
				root:  func(i ...int) { put(merkle.NewMimcRootAPI[T](api, id).MimcRoot(pick(i))) },
				restore: func(leaf int, path []int, lr []V) {
					put(merkle.NewMimcRootAPI[T](api, id).RestoreMimcRoot(els[leaf], pick(path), lr))
				},
			}, vs[len(xs)*nb:])
			return outs
		})
	}}
}

var emus = map[string]emu{
	"bn254":  emulate[emulated.BN254Fr](ecc.BN254),
	"bls377": emulate[emulated.BLS12377Fr](ecc.BLS12_377),
	"bw761":  emulate[emulated.BW6761Fr](ecc.BW6_761),
}

// values of the outputs, one per nb limbs
func (e emu) vals(out []*big.Int) [][]int {
	var vs [][]int
	for i := 0; i+e.nb <= len(out); i += e.nb {
		vs = append(vs, Dig(unlimbs(e.w, out[i:i+e.nb])))
	}
	return vs
}

var names = []string{"bn254", "bls377", "bw761"}

func rng(a, n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = a + i
	}
	return out
}

// ---- C14 ----
func c14(c *Ctx) {
	for i := 0; i < c.N(40, 300); i++ {
		name := names[i%3]
		p := fields[name]
		c.Add("path", fmt.Sprintf("path-%s-%d", name, i), func(r *Rec) {
			rnd := r.Rnd
			r.Hdr["curve"] = name
			n := rnd.Intn(9)
			ns := n
			switch rnd.Intn(5) { // more sides than siblings are allowed, fewer are not
			case 0:
				ns += rnd.Intn(4)
			case 1:
				ns = max(0, n-1)
			}
			hashed := rnd.Intn(2) == 0
			leaf, sd, sb := fe(rnd, p), sides(rnd, p, ns, rnd.Intn(4) == 0), fes(rnd, p, n, fe)
			if rnd.Intn(6) == 0 && n > 0 { // both children alike
				sb[0] = leaf
			}
			acc, out, _ := SolveIn(p, cat([]*big.Int{leaf}, sd, sb), func(api API, v []V) []V {
				h, err := nmimc.NewMiMC(api)
				if err != nil {
					panic(err)
				}
				if rnd.Intn(2) == 0 { // whatever the hasher was used for before
					h.Write(v[0])
				}
				if hashed {
					return []V{merkle.MerkleRootBasedOnMiMCHash(api, h, v[0], v[1:1+ns], v[1+ns:])}
				}
				return []V{merkle.MerkleRootWithLeaveHash(api, h, v[0], v[1:1+ns], v[1+ns:])}
			})
			r.Add(Ev{"op": "path", "hashed": B(hashed), "leaf": Dig(leaf), "sides": Digs(sd), "sibs": Digs(sb), "acc": B(acc), "out": first(out)})
		})
	}
	for i := 0; i < c.N(18, 60); i++ {
		name := names[i%3]
		p := fields[name]
		c.Add("pair", fmt.Sprintf("pair-%s-%d", name, i), func(r *Rec) {
			rnd := r.Rnd
			r.Hdr["curve"] = name
			a, b, s := fe(rnd, p), fe(rnd, p), sides(rnd, p, 1, i%3 == 2)
			acc, out, _ := SolveIn(p, cat([]*big.Int{a, b}, s), func(api API, v []V) []V {
				h, _ := nmimc.NewMiMC(api)
				return []V{merkle.MiMCHashBasedOnIndex(api, h, v[0], v[1], v[2])}
			})
			r.Add(Ev{"op": "pair", "leaf": Dig(a), "sibs": [][]int{Dig(b)}, "sides": Digs(s), "acc": B(acc), "out": first(out)})
		})
	}
	counts := []int{1, 2, 3, 4, 5, 6, 8}
	if c.Thorough() {
		counts = append(counts, 0, 7, 9, 12, 16, 24, 32)
	} else {
		counts = append(counts, 0)
	}
	for _, name := range names {
		e, p := emus[name], fields[name]
		for _, n := range counts {
			c.Add("eroot", fmt.Sprintf("eroot-%s-%d", name, n), func(r *Rec) {
				r.Hdr["curve"] = name
				ls := fes(r.Rnd, p, n, fel)
				acc, out, _ := e.run(ls, nil, func(o emuOps, _ []V) { o.root(rng(0, n)...) })
				ev := Ev{"op": "root", "leaves": Digs(ls), "acc": B(acc), "out": []int{}}
				if acc {
					ev["out"] = e.vals(out)[0]
					if n == 1 { // the leaf itself, which need not be reduced
						ev["out"] = Dig(new(big.Int).Mod(unlimbs(e.w, out), p))
					}
				}
				r.Add(ev)
			})
		}
		for i := 0; i < c.N(6, 30); i++ {
			c.Add("restore", fmt.Sprintf("restore-%s-%d", name, i), func(r *Rec) {
				r.Hdr["curve"] = name
				rnd := r.Rnd
				n := rnd.Intn(4)
				ns := n
				if i%6 == 5 {
					ns = n + 1
				}
				leaf, path, sd := fel(rnd, p), fes(rnd, p, n, fel), sides(rnd, BN254, ns, rnd.Intn(4) == 0)
				acc, out, _ := e.run(append([]*big.Int{leaf}, path...), sd, func(o emuOps, x []V) { o.restore(0, rng(1, n), x) })
				ev := Ev{"op": "restore", "leaf": Dig(leaf), "sibs": Digs(path), "sides": Digs(sd), "acc": B(acc), "out": []int{}}
				if acc {
					ev["out"] = Dig(new(big.Int).Mod(unlimbs(e.w, out), p))
				}
				r.Add(ev)
			})
		}
	}
	for _, n := range counts {
		for k := 0; k < c.N(1, 3); k++ {
			c.Add("kroot", fmt.Sprintf("kroot-%d-%d", n, k), func(r *Rec) {
				ls := make([][]int, n)
				var in []*big.Int
				for i := range ls {
					b := RandBytes(r.Rnd, 32)
					if r.Rnd.Intn(4) == 0 {
						b = make([]byte, 32)
					}
					ls[i] = Bytes(b)
					for _, x := range b {
						for j := 0; j < 8; j++ {
							in = append(in, bi(int(x>>j)&1))
						}
					}
				}
				acc, out, _ := Solve(in, func(api API, v []V) []V {
					lv := make([][256]V, n)
					for i := range lv {
						copy(lv[i][:], v[256*i:256*(i+1)])
					}
					o := merkle.KeccakMerkleRoot(api, lv)
					return o[:]
				})
				r.Add(Ev{"op": "kroot", "leaves": ls, "acc": B(acc), "out": bytesOf(Small(out))})
			})
		}
	}
}

func bytesOf(bits []int) []int {
	out := []int{}
	for i := 0; i+8 <= len(bits); i += 8 {
		b := 0
		for j := 0; j < 8; j++ {
			if bits[i+j] != 0 && bits[i+j] != 1 {
				return []int{-1}
			}
			b |= bits[i+j] << j
		}
		out = append(out, b)
	}
	return out
}

// ---- C15 ----
func c15(c *Ctx) {
	kinds := []string{"honest", "leaf", "tree", "tside", "side", "sib", "swap", "root", "badside", "badtside", "short", "tshort", "random", "sidesib"}
	for _, name := range names {
		p := fields[name]
		for i := 0; i < c.N(2, 12)*len(kinds); i++ {
			kind := kinds[i%len(kinds)]
			c.Add("smt", fmt.Sprintf("smt-%s-%s-%d", kind, name, i), func(r *Rec) {
				rnd := r.Rnd
				r.Hdr["curve"] = name
				td, d := rnd.Intn(4), 1+rnd.Intn(18)
				if kind == "tside" || kind == "tree" || kind == "badtside" || kind == "tshort" {
					td = 1 + rnd.Intn(3)
				}
				tree, ts := fes(rnd, p, td+1, fe), sides(rnd, p, td, false)
				sb, sd := fes(rnd, p, d, fe), sides(rnd, p, d, false)
				calc := func() *big.Int {
					acc, out, msg := SolveIn(p, cat(tree, ts, sb, sd), func(api API, v []V) []V {
						h, _ := nmimc.NewMiMC(api)
						lv := ref(api, h, v[0], v[td+1:td+1+td], v[1:td+1])
						return []V{ref(api, h, lv, v[2*td+1+d:], v[2*td+1:2*td+1+d])}
					})
					if !acc {
						panic(msg)
					}
					return out[0]
				}
				root := calc()
				other := func(x *big.Int) *big.Int {
					for {
						y := fe(rnd, p)
						if y.Cmp(x) != 0 {
							return y
						}
					}
				}
				flip := func(q []*big.Int) {
					j := rnd.Intn(len(q))
					q[j] = bi(1 - int(q[j].Int64()))
				}
				switch kind {
				case "leaf":
					tree[0] = other(tree[0])
				case "tree":
					j := rnd.Intn(len(tree))
					tree[j] = other(tree[j])
				case "tside":
					flip(ts)
				case "side":
					flip(sd)
				case "sib":
					j := rnd.Intn(d)
					sb[j] = other(sb[j])
				case "sidesib":
					j := rnd.Intn(d)
					sb[j] = other(sb[j])
					flip(sd)
				case "swap":
					j, k := rnd.Intn(d), rnd.Intn(d)
					sb[j], sb[k] = sb[k], sb[j]
				case "root":
					root = other(root)
				case "badside":
					sd = sides(rnd, p, d, true)
				case "badtside":
					ts = sides(rnd, p, td, true)
				case "short":
					sd = sd[:d-1]
				case "tshort":
					ts = ts[:td-1]
				case "random":
					tree, sb = fes(rnd, p, td+1, fe), fes(rnd, p, d, fe)
				}
				nt, ns := len(ts), len(sd)
				acc, out, _ := SolveIn(p, cat(tree, ts, sb, sd, []*big.Int{root}), func(api API, v []V) []V {
					h, err := nmimc.NewMiMC(api)
					if err != nil {
						panic(err)
					}
					t, x, b, s := v[:td+1], v[td+1:td+1+nt], v[td+1+nt:td+1+nt+d], v[td+1+nt+d:td+1+nt+d+ns]
					o := smt.CheckSMTInclusion(api, h, d, t, x, s, b, v[len(v)-1])
					return []V{o, smt.CalculateLeafValueHash(api, h, t, x)}
				})
				ev := Ev{"op": "smt", "honest": B(kind == "honest"), "tree": Digs(tree), "tsides": Digs(ts), "sibs": Digs(sb), "sides": Digs(sd), "root": Dig(root), "acc": B(acc), "out": -1, "leafv": []int{}}
				if acc {
					ev["out"], ev["leafv"] = Small(out)[0], Dig(out[1])
				}
				r.Add(ev)
			})
		}
	}
}

// ref is the root from a leaf by plain selection (used to lay out honest witnesses; the specification judges them).
func ref(api API, h nmimc.MiMC, leaf V, sd, sb []V) V {
	h.Reset()
	h.Write(leaf)
	v := h.Sum()
	for i := range sb {
		h.Reset()
		h.Write(api.Select(sd[i], sb[i], v), api.Select(sd[i], v, sb[i]))
		v = h.Sum()
	}
	return v
}

// ---- C16 ----
func c16(c *Ctx) {
	for i, raw := range c.Scen {
		var s struct {
			H []string `json:"h"`
		}
		if err := json.Unmarshal(raw, &s); err != nil {
			panic(err)
		}
		if !c.Thorough() && i%4 != 0 && len(s.H) > 3 {
			continue
		}
		name := names[i%3]
		e, p := emus[name], fields[name]
		c.Add("hist", fmt.Sprintf("hist-%s-%s-%d", strings.Join(s.H, ""), name, i), func(r *Rec) {
			r.Hdr["curve"] = name
			var xs []*big.Int
			var evs []Ev
			f := func(o emuOps, _ []V) {}
			steps := []func(o emuOps){}
			for _, op := range s.H {
				switch op {
				case "w1", "w2", "h":
					n := 1
					if op != "w1" {
						n = 2
					}
					at := len(xs)
					v := fes(r.Rnd, p, n, fel)
					xs = append(xs, v...)
					if op == "h" {
						steps = append(steps, func(o emuOps) { o.hash(rng(at, n)...) })
						evs = append(evs, Ev{"op": "hash", "xs": Digs(v)})
					} else {
						steps = append(steps, func(o emuOps) { o.write(rng(at, n)...) })
						evs = append(evs, Ev{"op": "write", "xs": Digs(v)})
					}
				case "s":
					steps = append(steps, func(o emuOps) { o.sum() })
					evs = append(evs, Ev{"op": "sum"})
				case "r":
					steps = append(steps, func(o emuOps) { o.reset() })
					evs = append(evs, Ev{"op": "reset"})
				}
			}
			f = func(o emuOps, _ []V) {
				for _, st := range steps {
					st(o)
				}
			}
			acc, out, _ := e.run(xs, nil, f)
			vs := e.vals(out)
			k := 0
			for _, ev := range evs {
				if ev["op"] == "sum" || ev["op"] == "hash" {
					ev["acc"], ev["out"] = B(acc), []int{}
					if acc {
						ev["out"] = vs[k]
					}
					k++
				}
				r.Add(ev)
			}
		})
	}
}

var _ frontend.Variable
