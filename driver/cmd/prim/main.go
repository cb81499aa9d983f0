// Driver for selection, regrouping and packing primitives: C07, C13, C17..C20.
package main

import (
	"fmt"
	"math/big"
	"math/rand"

	core "github.com/brevis-network/zk-utils/circuits/gadgets/index-proof/core"
	"github.com/brevis-network/zk-utils/circuits/gadgets/mux"
	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"

	. "verifdriver/h"
)

func main() {
	Main(map[string]func(c *Ctx){"C07": c07, "C13": c13, "C17": c17, "C18": c18, "C19": c19, "C20": c20})
}

func bi(n int) *big.Int { return big.NewInt(int64(n)) }
func fe(r *rand.Rand) *big.Int {
	if r.Intn(3) == 0 {
		return bi(r.Intn(16))
	}
	return RandBelow(r, BN254)
}
func neg(n int) *big.Int { return new(big.Int).Sub(BN254, bi(n)) }

// badIdx gives an index outside 0..n-1 (or 0..n when closed).
func badIdx(r *rand.Rand, n int) *big.Int {
	switch r.Intn(5) {
	case 0:
		return bi(n)
	case 1:
		return bi(n + 1 + r.Intn(200))
	case 2:
		return neg(1 + r.Intn(3))
	case 3:
		return new(big.Int).Add(bi(r.Intn(n+1)), new(big.Int).Lsh(bi(1), uint(16+r.Intn(230))))
	}
	return RandBelow(r, BN254)
}
func cat(xs ...[]*big.Int) []*big.Int {
	var r []*big.Int
	for _, x := range xs {
		r = append(r, x...)
	}
	return r
}

func c07(c *Ctx) {
	rnd := c.Rand("c07")
	for i := 0; i < c.N(160, 1500); i++ {
		g := []string{"mux", "rlp"}[i%2]
		n, w := 1+rnd.Intn(20), 1+rnd.Intn(4)
		if i%10 == 0 {
			n = 1
		}
		bad := i/2%4 == 3
		c.Add("mux", fmt.Sprintf("mux-%d-%s", i, g), func(r *Rec) {
			var in []*big.Int
			rows := [][][]int{}
			for a := 0; a < w; a++ {
				var row []*big.Int
				for b := 0; b < n; b++ {
					row = append(row, fe(r.Rnd))
				}
				rows = append(rows, Digs(row))
				in = append(in, row...)
			}
			sel := bi(r.Rnd.Intn(n))
			if i%5 == 0 {
				sel = bi(n - 1)
			}
			if bad {
				sel = badIdx(r.Rnd, n)
			}
			acc, out, _ := Solve(append(append([]*big.Int{}, in...), sel), func(api API, v []V) []V {
				m := make([][]V, w)
				for a := range m {
					m[a] = v[a*n : (a+1)*n]
				}
				if g == "mux" {
					return mux.Multiplex(api, v[w*n], w, n, m)
				}
				return rlp.Multiplexer(api, v[w*n], w, n, m)
			})
			r.Add(Ev{"op": "mux", "rows": rows, "n": n, "sel": Dig(sel), "acc": B(acc), "out": Digs(out)})
		})
	}
	for i := 0; i < c.N(20, 150); i++ {
		n := 1 + rnd.Intn(16)
		c.Add("decode", fmt.Sprintf("decode-%d", i), func(r *Rec) {
			sel := bi(r.Rnd.Intn(n))
			if i%3 == 0 {
				sel = badIdx(r.Rnd, n)
			}
			acc, out, _ := Solve([]*big.Int{sel}, func(api API, v []V) []V {
				o, ok := rlp.Decoder(api, n, v[0])
				return append(o, ok)
			})
			r.Add(Ev{"op": "decode", "n": n, "sel": Dig(sel), "acc": B(acc), "out": Digs(out)})
			var a, b []*big.Int
			for j := 0; j < n; j++ {
				a, b = append(a, fe(r.Rnd)), append(b, fe(r.Rnd))
			}
			acc, out, _ = Solve(cat(a, b), func(api API, v []V) []V { return []V{rlp.EscalarProduct(api, n, v[:n], v[n:])} })
			r.Add(Ev{"op": "dot", "a": Digs(a), "b": Digs(b), "acc": B(acc), "out": Digs(out)})
		})
	}
	for i := 0; i < c.N(40, 300); i++ {
		c.Add("cmp", fmt.Sprintf("cmp-%d", i), func(r *Rec) {
			a, b := fe(r.Rnd), fe(r.Rnd)
			switch i % 4 {
			case 0:
				b = a
			case 1:
				b = new(big.Int).Mod(new(big.Int).Add(a, bi(1)), BN254)
			}
			acc, out, _ := Solve([]*big.Int{a, b}, func(api API, v []V) []V {
				return []V{rlp.Equal(api, v[0], v[1]), rlp.LessThan(api, v[0], v[1])}
			})
			r.Add(Ev{"op": "cmp", "a": Dig(a), "b": Dig(b), "acc": B(acc), "out": Digs(out)})
		})
	}
	for i := 0; i < c.N(160, 1500); i++ {
		max := 1 + rnd.Intn(24)
		la, lb := max+rnd.Intn(3), max+rnd.Intn(3)
		c.Add("arrayEqual", fmt.Sprintf("aeq-%d", i), func(r *Rec) {
			var a, b []*big.Int
			for j := 0; j < la; j++ {
				a = append(a, bi(r.Rnd.Intn(16)))
			}
			for j := 0; j < lb; j++ {
				if j < la {
					b = append(b, a[j])
				} else {
					b = append(b, bi(r.Rnd.Intn(16)))
				}
			}
			t := r.Rnd.Intn(max + 1)
			switch i % 4 { // differ just inside, just outside, somewhere
			case 1:
				if t > 0 {
					b[t-1] = new(big.Int).Add(b[t-1], bi(1))
				}
			case 2:
				if t < max {
					b[t] = new(big.Int).Add(b[t], bi(1))
				}
			case 3:
				j := r.Rnd.Intn(max)
				b[j] = fe(r.Rnd)
				if t > 1 && r.Rnd.Intn(2) == 0 { // swapped positions keep the multiset
					b[0], b[t-1] = a[t-1], a[0]
				}
			}
			tl := bi(t)
			if i%7 == 6 {
				tl = badIdx(r.Rnd, max+1)
			}
			acc, out, _ := Solve(cat(a, b, []*big.Int{tl}), func(api API, v []V) []V {
				return []V{rlp.ArrayEqual(api, v[:la], v[la:la+lb], max, v[la+lb])}
			})
			r.Add(Ev{"op": "arrayEqual", "a": Digs(a), "b": Digs(b), "max": max, "t": Dig(tl), "acc": B(acc), "out": Digs(out)})
		})
	}
	for i := 0; i < c.N(120, 1000); i++ {
		bits := 2 + rnd.Intn(6)
		nIn := 1 + rnd.Intn(1<<bits-1)
		if i%4 == 0 {
			bits, nIn = 7, 64
		}
		ms := 1 + rnd.Intn(nIn)
		if i/6%3 == 0 {
			ms = nIn
		}
		c.Add("subArray", fmt.Sprintf("sub-%d", i), func(r *Rec) {
			var a []*big.Int
			for j := 0; j < nIn; j++ {
				a = append(a, fe(r.Rnd))
			}
			from := r.Rnd.Intn(nIn + 1)
			end := from + r.Rnd.Intn(Min(ms, nIn-from)+1)
			f, e := bi(from), bi(end)
			switch i % 6 {
			case 3: // inside the array, but longer than the selection
				from = r.Rnd.Intn(nIn + 1 - Min(ms+1, nIn))
				f, e = bi(from), bi(from+ms+1)
			case 4:
				f, e = bi(from+1), bi(from)
			case 5:
				if r.Rnd.Intn(2) == 0 {
					e = badIdx(r.Rnd, nIn+1)
				} else {
					f = badIdx(r.Rnd, nIn+1)
				}
			}
			acc, out, _ := Solve(cat(a, []*big.Int{f, e}), func(api API, v []V) []V {
				o, n := rlp.NewSubArray(nIn, ms, bits).SubArray(api, v[:nIn], v[nIn], v[nIn+1])
				return append(o, n)
			})
			r.Add(Ev{"op": "subArray", "in": Digs(a), "ms": ms, "from": Dig(f), "end": Dig(e), "acc": B(acc), "out": Digs(out)})
		})
	}
	for i := 0; i < c.N(120, 1200); i++ {
		n := 2 + rnd.Intn(30)
		min := rnd.Intn(10)
		max := min + rnd.Intn(20)
		if i%8 == 0 {
			max = min
		}
		c.Add("shl", fmt.Sprintf("shl-%d", i), func(r *Rec) {
			var a []*big.Int
			for j := 0; j < n; j++ {
				a = append(a, fe(r.Rnd))
			}
			s := bi(min + r.Rnd.Intn(max-min+1))
			switch i % 5 {
			case 3:
				s = bi(max + r.Rnd.Intn(30))
			case 4:
				s = neg(1 + r.Rnd.Intn(3))
				if min > 0 && r.Rnd.Intn(2) == 0 {
					s = bi(r.Rnd.Intn(min))
				}
			case 2:
				s = bi(max)
			}
			acc, out, _ := Solve(cat(a, []*big.Int{s}), func(api API, v []V) []V {
				return rlp.ShiftLeft(api, n, min, max, v[:n], v[n])
			})
			r.Add(Ev{"op": "shl", "in": Digs(a), "min": min, "max": max, "s": Dig(s), "acc": B(acc), "out": Digs(out)})
		})
	}
	for i := 0; i < c.N(120, 1200); i++ {
		n := 1 + rnd.Intn(30)
		bits := 1 + rnd.Intn(6)
		c.Add("shr", fmt.Sprintf("shr-%d", i), func(r *Rec) {
			var a []*big.Int
			for j := 0; j < n; j++ {
				a = append(a, fe(r.Rnd))
			}
			s := bi(r.Rnd.Intn(1 << bits))
			if i%5 == 4 {
				s = badIdx(r.Rnd, 1<<bits)
			}
			acc, out, _ := Solve(cat(a, []*big.Int{s}), func(api API, v []V) []V {
				return rlp.ShiftRight(api, n, bits, v[:n], v[n])
			})
			r.Add(Ev{"op": "shr", "in": Digs(a), "bits": bits, "s": Dig(s), "acc": B(acc), "out": Digs(out)})
		})
	}
	c.Add("logCeil", "logceil", func(r *Rec) {
		for _, n := range []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 63, 64, 65, 1000, 1023, 1024, 1 << 20, 1<<29 - 1} {
			r.Add(Ev{"op": "logCeil", "n": n, "out": rlp.LogCeil(n)})
		}
	})
}

func Min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func c13(c *Ctx) {
	run := func(r *Rec, n *big.Int) {
		acc, out, _ := Solve([]*big.Int{n}, func(api API, v []V) []V {
			o := core.CalTxOrReceiptIndexRlp(api, v[0])
			return o[:]
		})
		// the packaged circuit agrees with the function
		var e []V
		for j := 0; j < 7; j++ {
			if acc {
				e = append(e, out[j])
			} else {
				e = append(e, 0)
			}
		}
		a := &core.IndexCheckCircuit{Index: n}
		copy(a.RlpString[:], e)
		acc2, _ := Accepts(&core.IndexCheckCircuit{}, a)
		bad := 0
		if acc {
			k := r.Rnd.Intn(7)
			a.RlpString[k] = new(big.Int).Add(out[k], bi(1))
			x, _ := Accepts(&core.IndexCheckCircuit{}, a)
			bad = B(x)
		}
		r.Add(Ev{"op": "index", "n": Dig(n), "acc": B(acc), "circ": B(acc2), "circBad": bad, "out": Small(out)})
	}
	set := map[int]bool{}
	var ns []int
	add := func(n int) {
		if n >= 0 && n < 1<<16 && !set[n] {
			set[n] = true
			ns = append(ns, n)
		}
	}
	if c.Thorough() {
		for i := 0; i < 1<<16; i++ {
			add(i)
		}
	} else {
		for i := 0; i < 600; i++ {
			add(i)
		}
		for k := 8; k <= 16; k++ {
			for d := -2; d <= 2; d++ {
				add(1<<k + d)
				add(3<<(k-1) + d)
			}
		}
		rnd := c.Rand("c13")
		for i := 0; i < 256; i++ {
			add(i << 8)
			add(i<<8 | 255)
			add(i<<8 | rnd.Intn(256))
			add(rnd.Intn(1 << 16))
			add(rnd.Intn(16)<<12 | rnd.Intn(256)) // zero nibble in the high byte
			add(rnd.Intn(16)<<8 | rnd.Intn(256))
		}
	}
	for k := 0; k < len(ns); k += 64 {
		part := ns[k:Min(k+64, len(ns))]
		c.Add("index", fmt.Sprintf("index-%d", part[0]), func(r *Rec) {
			for _, n := range part {
				run(r, bi(n))
			}
		})
	}
	c.Add("range", "range", func(r *Rec) {
		for _, n := range []*big.Int{bi(1 << 16), bi(1<<16 + 1), bi(1<<16 + 127), bi(1<<16 + 255), bi(1 << 17), bi(1 << 24), neg(1), neg(2), neg(65536), new(big.Int).Rsh(BN254, 1), new(big.Int).Lsh(bi(1), 253)} {
			run(r, n)
		}
		for i := 0; i < c.N(30, 300); i++ {
			run(r, new(big.Int).Add(bi(1<<16), RandBelow(r.Rnd, new(big.Int).Sub(BN254, bi(1<<16)))))
		}
	})
}
