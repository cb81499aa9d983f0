// Driver for the hash gadgets: C01..C05.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"

	ccirc "github.com/brevis-network/zk-utils/common/circuits"

	"github.com/brevis-network/zk-utils/circuits/gadgets/keccak"
	"github.com/brevis-network/zk-utils/circuits/gadgets/sha256"
	sha512 "github.com/brevis-network/zk-utils/circuits/gadgets/sha512"

	. "verifdriver/h"
)

func main() {
	Main(map[string]func(c *Ctx){"C01": c01, "C02": c02, "C03": c03, "C04": shaB(64), "C05": shaB(128)})
}

// pad is the driver's own multi-rate padding.
func pad(m []byte) []byte {
	k := 136 - len(m)%136
	p := append(append([]byte{}, m...), make([]byte, k)...)
	p[len(m)] |= 1
	p[len(p)-1] |= 0x80
	return p
}
func lanes(p []byte) []*big.Int {
	var r []*big.Int
	for i := 0; i < len(p); i += 8 {
		v := new(big.Int)
		for j := 7; j >= 0; j-- {
			v.Lsh(v, 8)
			v.Or(v, big.NewInt(int64(p[i+j])))
		}
		r = append(r, v)
	}
	return r
}

type gad struct {
	name   string
	rounds int
}

var gads = []gad{{"k10", keccak.MAX_ROUNDS}, {"normal", keccak.NORMAL_TRANSACTION_LEAF_ROUNDS}, {"max", keccak.MAX_TRANSACTION_LEAF_ROUNDS}}

func sponge(g gad, ls []*big.Int, idx *big.Int) (bool, []*big.Int) {
	acc, out, _ := Solve(append(append([]*big.Int{}, ls...), idx), func(api API, in []V) []V {
		i := in[len(in)-1]
		var o [4]V
		switch g.name {
		case "k10":
			var b [keccak.MAX_ROUNDS][17]V
			for j := range in[:len(in)-1] {
				b[j/17][j%17] = in[j]
			}
			o = keccak.Keccak256(api, b, i)
		case "normal":
			var b [keccak.NORMAL_TRANSACTION_LEAF_ROUNDS][17]V
			for j := range in[:len(in)-1] {
				b[j/17][j%17] = in[j]
			}
			o = keccak.Keccak256ForNormalTransaction(api, b, i)
		default:
			var b [keccak.MAX_TRANSACTION_LEAF_ROUNDS][17]V
			for j := range in[:len(in)-1] {
				b[j/17][j%17] = in[j]
			}
			o = keccak.Keccak256ForMaxTransaction(api, b, i)
		}
		return o[:]
	})
	return acc, out
}
func pack(g string, width int, nibs []*big.Int) (bool, []*big.Int) {
	acc, out, _ := Solve(nibs, func(api API, in []V) []V {
		var r []V
		if len(nibs) == 0 {
			in = nil
		}
		switch g {
		case "k10":
			for _, b := range keccak.NibblesToU64Array(api, in) {
				r = append(r, b[:]...)
			}
		case "normal":
			for _, b := range keccak.NibblesToU64ArrayForNormalTransactionLeafValue(api, in) {
				r = append(r, b[:]...)
			}
		case "max":
			for _, b := range keccak.NibblesToU64ArrayForMaxTransactionLeafValue(api, in) {
				r = append(r, b[:]...)
			}
		default:
			for _, b := range keccak.RecomposeHexToKeccakU64s(api, in, width) {
				r = append(r, b[:]...)
			}
		}
		return r
	})
	return acc, out
}

func c01(c *Ctx) {
	mk := func(g gad, id string, m []byte, junk bool, mut int) {
		c.Add("sponge", id, func(r *Rec) {
			p := pad(m)
			idx := big.NewInt(int64(len(p)/136 - 1))
			ls := lanes(p)
			for len(ls) < 17*g.rounds {
				if junk {
					ls = append(ls, RandBig(r.Rnd, 64))
				} else {
					ls = append(ls, new(big.Int))
				}
			}
			switch mut {
			case 1: // lane too wide
				i := r.Rnd.Intn(len(ls))
				ls[i] = new(big.Int).Add(ls[i], new(big.Int).Lsh(big.NewInt(1), uint(64+r.Rnd.Intn(3)*60)))
			case 2: // index out of range
				idx = big.NewInt(int64(g.rounds) + int64(r.Rnd.Intn(3)*r.Rnd.Intn(100)))
			case 3:
				idx = new(big.Int).Sub(BN254, big.NewInt(1+int64(r.Rnd.Intn(2))))
			case 4: // negative lane
				ls[r.Rnd.Intn(len(ls))] = new(big.Int).Sub(BN254, big.NewInt(1))
			case 5: // another block index: the digest of that prefix
				idx = big.NewInt(int64(r.Rnd.Intn(g.rounds)))
			}
			e := Ev{"op": "sponge", "max": g.rounds, "lanes": Digs(ls), "idx": Dig(idx), "msg": [][]int{}}
			if mut == 0 {
				e["msg"] = [][]int{Bytes(m)}
			}
			acc, out := sponge(g, ls, idx)
			e["acc"], e["out"] = B(acc), Digs(out)
			r.Add(e)
		})
	}
	rnd := c.Rand("lens")
	for _, g := range gads {
		cap := g.rounds*136 - 1
		seen := map[int]bool{}
		var lens []int
		add := func(n int) {
			if n >= 0 && n <= cap && !seen[n] {
				seen[n] = true
				lens = append(lens, n)
			}
		}
		if c.Thorough() {
			for n := 0; n <= cap; n += 7 {
				add(n)
			}
			for k := 0; k <= g.rounds; k++ {
				for d := -2; d <= 2; d++ {
					add(136*k + d)
				}
			}
		} else {
			for _, n := range []int{0, 1, 135, 136, cap, cap - 1, cap - 135} {
				add(n)
			}
			for i := 0; i < c.N(8, 0); i++ {
				k := rnd.Intn(g.rounds)
				add(136*k + []int{-1, 0, 1, 7, 8, 67, 128, 134}[rnd.Intn(8)])
				add(rnd.Intn(cap + 1))
			}
		}
		for i, n := range lens {
			mk(g, fmt.Sprintf("%s-len%d", g.name, n), RandBytes(rnd, n), i%2 == 1 || n < 136, 0)
		}
		for i := 0; i < c.N(5, 25); i++ {
			mk(g, fmt.Sprintf("%s-mut%d", g.name, i), RandBytes(rnd, rnd.Intn(cap)), i%2 == 0, 1+i%5)
		}
		// every block index of one full-width input
		for k := 0; k < g.rounds; k++ {
			if c.Thorough() || k%3 == rnd.Intn(3) || k == g.rounds-1 {
				k := k
				c.Add("sponge", fmt.Sprintf("%s-idx%d", g.name, k), func(r *Rec) {
					var ls []*big.Int
					for i := 0; i < 17*g.rounds; i++ {
						ls = append(ls, RandBig(r.Rnd, 64))
					}
					idx := big.NewInt(int64(k))
					acc, out := sponge(g, ls, idx)
					r.Add(Ev{"op": "sponge", "max": g.rounds, "lanes": Digs(ls), "idx": Dig(idx), "msg": [][]int{}, "acc": B(acc), "out": Digs(out)})
				})
			}
		}
	}
	for i := 0; i < c.N(40, 300); i++ {
		g := []string{"k10", "normal", "max", "hex"}[i%4]
		width := map[string]int{"k10": keccak.MAX_ROUNDS, "normal": keccak.NORMAL_TRANSACTION_LEAF_ROUNDS, "max": keccak.MAX_TRANSACTION_LEAF_ROUNDS, "hex": 1 + rnd.Intn(5)}[g]
		n := rnd.Intn(width*17 + 1)
		if i%7 == 0 {
			n = width * 17
		}
		bad := i%5 == 4 && n > 0
		c.Add("pack", fmt.Sprintf("pack-%d-%s", i, g), func(r *Rec) {
			var nb []*big.Int
			for j := 0; j < 16*n; j++ {
				nb = append(nb, big.NewInt(int64(r.Rnd.Intn(16))))
			}
			if bad {
				nb[r.Rnd.Intn(len(nb))] = []*big.Int{big.NewInt(16), big.NewInt(17 + int64(r.Rnd.Intn(300))), new(big.Int).Sub(BN254, big.NewInt(1))}[r.Rnd.Intn(3)]
			}
			acc, out := pack(g, width, nb)
			r.Add(Ev{"op": "pack", "width": width, "nibs": Small(nb), "acc": B(acc), "out": Digs(out)})
		})
	}
}

func bitsLE(p []byte) []*big.Int {
	var r []*big.Int
	for _, b := range p {
		for i := 0; i < 8; i++ {
			r = append(r, big.NewInt(int64(b>>i&1)))
		}
	}
	return r
}

// elems splits bytes into elements of w bits, most significant first.
func elems(p []byte, w int) []*big.Int {
	var r []*big.Int
	for _, b := range p {
		for i := 8 - w; i >= 0; i -= w {
			r = append(r, big.NewInt(int64(b>>i)&(1<<w-1)))
		}
	}
	return r
}

func c02(c *Ctx) {
	rnd := c.Rand("c02")
	ws := []int{1, 2, 4, 8}
	// padding
	np := c.N(60, 600)
	for i := 0; i < np; i++ {
		w := ws[rnd.Intn(4)]
		// byte lengths
		min := rnd.Intn(200)
		if rnd.Intn(3) == 0 {
			min = 136*(1+rnd.Intn(3)) - rnd.Intn(3)
		}
		spread := rnd.Intn(5)
		if rnd.Intn(4) == 0 {
			spread = rnd.Intn(150)
		}
		max := min + spread
		if max == 0 {
			max = 1
		}
		n := min + rnd.Intn(max-min+1)
		if rnd.Intn(3) == 0 {
			n = max
		}
		// prefer lengths around the rate
		for k := 1; k < 5; k++ {
			if v := 136*k - 1 + rnd.Intn(2); v >= min && v <= max && rnd.Intn(2) == 0 {
				n = v
			}
		}
		per := 8 / w
		mut := 0
		if i%6 == 5 {
			mut = 1 + rnd.Intn(4)
		}
		min, n, max = min*per, n*per, max*per
		c.Add("pad", fmt.Sprintf("pad-%d", i), func(r *Rec) {
			in := elems(RandBytes(r.Rnd, max*w/8), w)
			ln := big.NewInt(int64(n))
			switch mut {
			case 1:
				ln = big.NewInt(int64(max + per))
			case 2:
				ln = new(big.Int).Sub(big.NewInt(int64(min)), big.NewInt(int64(per)))
				ln.Mod(ln, BN254)
			case 3:
				in[r.Rnd.Intn(len(in))] = big.NewInt(1 << w)
			case 4:
				if per > 1 {
					ln = big.NewInt(int64(n + 1))
				} else {
					ln = new(big.Int).Sub(BN254, big.NewInt(1))
				}
			}
			acc, out, _ := Solve(append(append([]*big.Int{}, in...), ln), func(api API, v []V) []V {
				return keccak.Pad101Bits(api, w, min, max, v[:len(v)-1], v[len(v)-1])
			})
			r.Add(Ev{"op": "pad", "w": w, "min": min, "max": max, "in": Small(in), "len": Dig(ln), "acc": B(acc), "out": Small(out)})
		})
	}
	// fixed-length padding of bits (LSB-first bytes)
	var pl []int
	for _, n := range []int{0, 1, 133, 134, 135, 136, 137, 270, 271, 272} {
		pl = append(pl, n)
	}
	for i := 0; i < c.N(10, 100); i++ {
		pl = append(pl, rnd.Intn(400))
	}
	for i, n := range pl {
		n := n
		rounds := n/136 + 1 + rnd.Intn(2)
		c.Add("padfix", fmt.Sprintf("padfix-%d-len%d", i, n), func(r *Rec) {
			m := RandBytes(r.Rnd, n)
			acc, out, _ := Solve(bitsLE(m), func(api API, v []V) []V {
				return keccak.PadBits101(api, v[:8*n], rounds)
			})
			r.Add(Ev{"op": "padfix", "msg": Bytes(m), "rounds": rounds, "acc": B(acc), "out": Small(out)})
		})
	}
	// hashing
	nh := c.N(34, 160)
	for i := 0; i < nh; i++ {
		maxR := 1 + rnd.Intn(4)
		minR := 1 + rnd.Intn(maxR)
		opt := i%2 == 1
		nb := minR + rnd.Intn(maxR-minR+1) // blocks of this message
		if !opt {
			nb = 1 + rnd.Intn(maxR)
		}
		n := 136*nb - 1 - rnd.Intn(136)
		if rnd.Intn(3) == 0 {
			n = 136*nb - 1 - []int{0, 1, 135}[rnd.Intn(3)]
		}
		mut := 0
		if i%5 == 4 {
			mut = 1 + rnd.Intn(3)
		}
		junk := rnd.Intn(2) == 0
		c.Add("bits", fmt.Sprintf("bits-%d", i), func(r *Rec) {
			m := RandBytes(r.Rnd, n)
			p := pad(m)
			for len(p) < 136*maxR {
				b := byte(0)
				if junk {
					b = byte(r.Rnd.Intn(256))
				}
				p = append(p, b)
			}
			bits := bitsLE(p)
			idx := big.NewInt(int64(nb - 1))
			switch mut {
			case 1:
				idx = big.NewInt(int64(maxR + r.Rnd.Intn(2)))
			case 2:
				idx = new(big.Int).Sub(BN254, big.NewInt(1))
			case 3:
				idx = big.NewInt(int64(minR - 2))
				idx.Mod(idx, BN254)
			}
			acc, out, _ := Solve(append(bits, idx), func(api API, v []V) []V {
				var o [256]V
				if opt {
					o = keccak.Keccak256BitsOptimized(api, minR, maxR, v[len(v)-1], v[:len(v)-1])
				} else {
					o = keccak.Keccak256Bits(api, maxR, v[len(v)-1], v[:len(v)-1])
				}
				return o[:]
			})
			mr := 1
			if opt {
				mr = minR
			}
			r.Add(Ev{"op": "bits", "min": mr, "max": maxR, "data": Bytes(p), "idx": Dig(idx), "acc": B(acc), "out": Small(out)})
		})
	}
	// end to end: pad in circuit, then hash
	for i := 0; i < c.N(8, 60); i++ {
		min := 100 + rnd.Intn(60)
		max := min + rnd.Intn(40)
		n := min + rnd.Intn(max-min+1)
		c.Add("e2e", fmt.Sprintf("e2e-%d", i), func(r *Rec) {
			m := RandBytes(r.Rnd, max)
			in := elems(m, 8)
			rounds := (max*8+8)/1088 + 1
			acc, out, _ := Solve(append(in, big.NewInt(int64(n))), func(api API, v []V) []V {
				b := keccak.Pad101Bits(api, 8, min, max, v[:len(v)-1], v[len(v)-1])
				o := keccak.Keccak256Bits(api, rounds, n/136, b)
				return o[:]
			})
			r.Add(Ev{"op": "e2e", "msg": Bytes(m[:n]), "acc": B(acc), "out": Small(out)})
		})
	}
}

func u64digs(x []uint64) [][]int {
	r := make([][]int, len(x))
	for i, v := range x {
		r[i] = Dig(new(big.Int).SetUint64(v))
	}
	return r
}
func u8ints(x []uint8) []int {
	r := make([]int, len(x))
	for i, v := range x {
		r[i] = int(v)
	}
	return r
}

func c03(c *Ctx) {
	rnd := c.Rand("c03")
	type impl struct {
		name     string
		padBytes func([]byte) []byte
		pad      func([]byte) []uint64
		blkBits  func([]byte) []uint8
		bits     func([]byte) []uint8
		u64      func([]byte) uint64
		u64s     func([]byte) []uint64
	}
	impls := []impl{
		{"gadget", keccak.Pad101Bytes, keccak.Pad101, keccak.Bytes2BlockBits, keccak.Bytes2Bits, keccak.Bytes2Uint64, keccak.Bytes2Uint64s},
		{"common", ccirc.Pad101Bytes, ccirc.Pad101, ccirc.Bytes2BlockBits, ccirc.Bytes2Bits, ccirc.Bytes2Uint64, ccirc.Bytes2Uint64s},
	}
	var lens []int
	for n := 0; n <= 280; n++ {
		if c.Thorough() || n%9 == 0 || (n+3)%136 < 5 {
			lens = append(lens, n)
		}
	}
	for i := 0; i < c.N(20, 200); i++ {
		lens = append(lens, rnd.Intn(2000))
	}
	lens = append(lens, 407, 408, 409, 1359, 1360, 1361)
	for _, im := range impls {
		im := im
		for i, n := range lens {
			n := n
			c.Add("pad", fmt.Sprintf("%s-%d-len%d", im.name, i, n), func(r *Rec) {
				extra := r.Rnd.Intn(300)
				if r.Rnd.Intn(3) == 0 {
					extra = 0
				}
				buf := RandBytes(r.Rnd, n+extra)
				before := append([]byte{}, buf...)
				m := buf[:n]
				var out []byte
				res, msg := Try(func() error { out = im.padBytes(m); return nil })
				r.Add(Ev{"op": "padBytes", "res": res, "msg": msg, "m": Bytes(m), "out": Bytes(out), "before": Bytes(before), "after": Bytes(buf)})
				// writing to the result must not reach the caller's message either
				if res == "ok" && n > 0 && len(out) > 0 {
					out[0] ^= 0xff
					out[len(out)-1] ^= 0xff
					_ = out
				}
				copy(buf, before)
				var ws []uint64
				res, msg = Try(func() error { ws = im.pad(m); return nil })
				r.Add(Ev{"op": "padWords", "res": res, "msg": msg, "m": Bytes(before[:n]), "out": u64digs(ws), "before": Bytes(before), "after": Bytes(buf)})
				p := pad(m)
				if n%5 == 0 {
					p = before[:n]
				}
				var bs []uint8
				res, msg = Try(func() error { bs = im.blkBits(p); return nil })
				r.Add(Ev{"op": "blkBits", "res": res, "msg": msg, "in": Bytes(p), "out": u8ints(bs)})
				bs = nil
				res, msg = Try(func() error { bs = im.bits(before[:n]); return nil })
				r.Add(Ev{"op": "bits", "res": res, "msg": msg, "in": Bytes(before[:n]), "out": u8ints(bs)})
				ws = nil
				res, msg = Try(func() error { ws = im.u64s(before[:n]); return nil })
				r.Add(Ev{"op": "words", "res": res, "msg": msg, "in": Bytes(before[:n]), "out": u64digs(ws)})
				var w uint64
				k := r.Rnd.Intn(11)
				if r.Rnd.Intn(2) == 0 {
					k = 8
				}
				b8 := RandBytes(r.Rnd, k)
				res, msg = Try(func() error { w = im.u64(b8); return nil })
				r.Add(Ev{"op": "word", "res": res, "msg": msg, "in": Bytes(b8), "out": u64digs([]uint64{w})})
				if im.name == "gadget" {
					ri := 0
					res, msg = Try(func() error { ri = keccak.GetRoundIndex(n * 8); return nil })
					r.Add(Ev{"op": "roundIndex", "res": res, "msg": msg, "n": n, "out": ri})
					pn := pad(before[:n])
					res, msg = Try(func() error { ri = keccak.GetKeccakRoundForPaddedBytes(pn); return nil })
					r.Add(Ev{"op": "roundIndex", "res": res, "msg": msg, "n": n, "out": ri})
					if len(pn) <= 136*keccak.MAX_ROUNDS {
						var u []uint64
						for _, x := range lanes(pn) {
							u = append(u, x.Uint64())
						}
						var o []*big.Int
						res, msg = Try(func() error {
							for _, b := range keccak.Uint64s2Blocks(u) {
								for _, v := range b {
									o = append(o, Val(BN254, v))
								}
							}
							return nil
						})
						r.Add(Ev{"op": "blocks", "res": res, "msg": msg, "m": Bytes(before[:n]), "rounds": keccak.MAX_ROUNDS, "out": Digs(o)})
					}
				}
			})
		}
	}
}

// A history of a streaming hasher generated from spec/HashStream.tla: each
// step is ["w", n], ["s", 0] or ["r", 0].
type step struct {
	Op string `json:"op"`
	N  int    `json:"n"`
}

type hasher interface {
	Write(p []V) (int, error)
	Sum() []V
	Reset()
}

func newHasher(api API, bs int) hasher {
	if bs == 64 {
		h := sha256.New(api)
		return &h
	}
	h := sha512.New(api)
	return &h
}

func runSha(r *Rec, bs int, steps []step, rnd *rand.Rand, bad *big.Int) {
	var ins []*big.Int
	var evs []Ev
	off := []int{}
	for _, s := range steps {
		off = append(off, len(ins))
		if s.Op == "w" {
			for i := 0; i < s.N; i++ {
				b := int64(rnd.Intn(256))
				if rnd.Intn(8) == 0 {
					b = []int64{0, 255, 128, 1}[rnd.Intn(4)]
				}
				ins = append(ins, big.NewInt(b))
			}
		}
	}
	if bad != nil && len(ins) > 0 {
		ins[rnd.Intn(len(ins))] = bad
	}
	acc, out, _ := Solve(append(append([]*big.Int{}, ins...), big.NewInt(0)), func(api API, in []V) []V {
		hs := newHasher(api, bs)
		var o []V
		for i, s := range steps {
			switch s.Op {
			case "w":
				// the buffer is the caller's: it is used again after the write
				p := append(make([]V, 0, s.N+5), in[off[i]:off[i]+s.N]...)
				n, err := hs.Write(p)
				if err != nil || n != s.N {
					panic(fmt.Sprintf("write returned %d %v", n, err))
				}
				p = p[:cap(p)]
				for k := range p {
					p[k] = 0x5a
				}
			case "s":
				d := hs.Sum()
				if len(d) != bs/2 {
					panic("digest length")
				}
				o = append(o, d...)
			case "r":
				hs.Reset()
			}
		}
		return o
	})
	k := 0
	for i, s := range steps {
		switch s.Op {
		case "w":
			evs = append(evs, Ev{"op": "write", "p": Small(ins[off[i] : off[i]+s.N])})
		case "r":
			evs = append(evs, Ev{"op": "reset"})
		case "s":
			if acc {
				evs = append(evs, Ev{"op": "sum", "out": Small(out[k : k+bs/2])})
				k += bs / 2
			}
		}
	}
	r.Evs = append(r.Evs, evs...)
	r.Add(Ev{"op": "end", "acc": B(acc)})
	r.Hdr["bs"] = bs
}

func shaB(bs int) func(c *Ctx) {
	return func(c *Ctx) {
		rnd := c.Rand("sha")
		var all [][]step
		for _, s := range c.Scen {
			var h []step
			if err := json.Unmarshal(s, &h); err != nil {
				panic(err)
			}
			all = append(all, h)
		}
		rnd.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		n := c.N(90, 1500)
		for i, h := range all {
			if i >= n {
				break
			}
			h := h
			c.Add("hist", fmt.Sprintf("hist-%d", i), func(r *Rec) { runSha(r, bs, h, r.Rnd, nil) })
		}
		// every message length around one and two blocks, one write
		for n := 0; n <= 2*bs+4; n++ {
			if c.Thorough() || n%bs > bs-bs/8-4 || n%bs < 3 || n%11 == 0 {
				n := n
				c.Add("len", fmt.Sprintf("len-%d", n), func(r *Rec) {
					runSha(r, bs, []step{{"w", n}, {"s", 0}}, r.Rnd, nil)
				})
			}
		}
		// long messages: several blocks in one write and dribbled
		for i := 0; i < c.N(6, 40); i++ {
			c.Add("long", fmt.Sprintf("long-%d", i), func(r *Rec) {
				var st []step
				for k := 0; k < 1+r.Rnd.Intn(6); k++ {
					st = append(st, step{"w", r.Rnd.Intn(3 * bs)})
					if r.Rnd.Intn(3) == 0 {
						st = append(st, step{"s", 0})
					}
				}
				st = append(st, step{"s", 0}, step{"s", 0})
				runSha(r, bs, st, r.Rnd, nil)
			})
		}
		// elements that are not bytes
		for i := 0; i < c.N(8, 40); i++ {
			bad := []*big.Int{big.NewInt(256), big.NewInt(257 + int64(rnd.Intn(1000))), new(big.Int).Sub(BN254, big.NewInt(1)), new(big.Int).Lsh(big.NewInt(1), uint(8+rnd.Intn(240)))}[i%4]
			c.Add("bad", fmt.Sprintf("bad-%d", i), func(r *Rec) {
				runSha(r, bs, []step{{"w", 1 + r.Rnd.Intn(bs+10)}, {"s", 0}}, r.Rnd, bad)
			})
		}
	}
}
