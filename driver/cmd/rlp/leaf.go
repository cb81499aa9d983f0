package main

import (
	"fmt"
	"math/big"
	"math/rand"

	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"

	. "verifdriver/h"
)

const leafMax = 4352


func leafEvent(r *Rec, leaf []byte, pad func(i int) int) {
	in := nibs(leaf)
	n := len(in)
	if n > leafMax {
		in = in[:leafMax]
	}
	for len(in) < leafMax {
		in = append(in, pad(len(in)))
	}
	acc, o, _ := Solve(Ints(in...), func(api API, v []V) []V {
		t, signed, lens := rlp.DecodeTxLeafRlp(api, v)
		res := []V{t.V, t.R[0], t.R[1], t.S[0], t.S[1], len(signed)}
		res = append(res, signed...)
		res = append(res, len(lens))
		res = append(res, lens...)
		for _, f := range [][]V{t.ChainId, t.Nonce, t.MaxPriorityGasPrice, t.MaxFeePerGas, t.GasLimit, t.To, t.Value} {
			res = append(append(res, len(f)), f...)
		}
		return res
	})
	// only the leaf itself; what follows is padding
	ev := Ev{"op": "leaf", "in": in[:min(n, leafMax)], "acc": B(acc), "v": []int{}, "r": [][]int{}, "s": [][]int{}, "signed": []int{}, "lens": []int{}, "f": [][]int{}}
	if acc {
		ev["v"], ev["r"], ev["s"] = Dig(o[0]), Digs(o[1:3]), Digs(o[3:5])
		q := o[5:]
		take := func() []*big.Int {
			k := int(q[0].Int64())
			x := q[1 : 1+k]
			q = q[1+k:]
			return x
		}
		sg := take()
		ev["signed"] = Small(sg[:min(len(sg), n)])
		ev["lens"] = Small(take()[:7])
		f := [][]int{}
		for i := 0; i < 7; i++ {
			f = append(f, Small(take()))
		}
		ev["f"] = f
	}
	r.Add(ev)
}

// amount is a number of exactly n bytes (no leading zero), n = 0: zero
func amount(rnd *rand.Rand, n int) []byte {
	b := RandBytes(rnd, n)
	if n > 0 && b[0] == 0 {
		b[0] = 1 + byte(rnd.Intn(255))
	}
	if n == 1 && rnd.Intn(2) == 0 {
		b[0] = []byte{1, 0x7f, 0x80, 0x81, 0xb7, 0xb8, 0xc0, 0xf8, 0xff}[rnd.Intn(9)]
	}
	return b
}

var fieldBytes = []int{8, 8, 8, 8, 4, 20, 32}

type leafTx struct {
	num   [7][]byte
	data  []byte
	list  []byte // encoded
	v     []byte
	r, s  []byte
	path  []byte
	typ   byte
	items [][]byte // when set, these instead
	tail  []byte
}

func mkLeaf(rnd *rand.Rand) *leafTx {
	t := &leafTx{list: []byte{0xc0}, typ: 2}
	for i, n := range fieldBytes {
		k := rnd.Intn(n + 1)
		if i == 5 {
			k = 20
		}
		if rnd.Intn(4) == 0 {
			k = n
		}
		t.num[i] = amount(rnd, k)
	}
	t.num[5] = RandBytes(rnd, 20)
	t.v = amount(rnd, rnd.Intn(2))
	if len(t.v) == 1 {
		t.v[0] = 1
	}
	t.r, t.s = amount(rnd, 32), amount(rnd, 32)
	t.data = RandBytes(rnd, []int{0, 1, 4, 55, 56, 100, 255, 256, 1000, 2015}[rnd.Intn(10)])
	t.path = []byte{0x20}
	if rnd.Intn(2) == 0 {
		t.path = []byte{0x30 + byte(rnd.Intn(16))}
	}
	return t
}
func (t *leafTx) enc() []byte {
	var it [][]byte
	for _, n := range t.num {
		it = append(it, encStr(n))
	}
	it = append(it, encStr(t.data), t.list, encStr(t.v), encStr(t.r), encStr(t.s))
	if t.items != nil {
		it = t.items
	}
	return encList(encStr(t.path), encStr(append(append([]byte{t.typ}, encList(it...)...), t.tail...)))
}

func c33(c *Ctx) {
	zero := func(int) int { return 0 }
	leaf := func(id string, f func(rnd *rand.Rand, t *leafTx)) {
		c.Add("leaf", id, func(r *Rec) {
			t := mkLeaf(r.Rnd)
			f(r.Rnd, t)
			leafEvent(r, t.enc(), zero)
		})
	}
	for i := 0; i < c.N(14, 250); i++ {
		leaf(fmt.Sprintf("rand-%d", i), func(rnd *rand.Rand, t *leafTx) {})
	}
	for i := 0; i < 7; i++ {
		for _, k := range []int{0, 1, fieldBytes[i], fieldBytes[i] + 1} {
			if !c.Thorough() && k == 1 {
				continue
			}
			leaf(fmt.Sprintf("width-%d-%d", i, k), func(rnd *rand.Rand, t *leafTx) { t.num[i] = amount(rnd, k) })
		}
	}
	for _, k := range []int{0, 1, 30, 31, 32, 33} {
		leaf(fmt.Sprintf("rs-%d", k), func(rnd *rand.Rand, t *leafTx) { t.r = amount(rnd, k); t.s = amount(rnd, 32-k%2) })
		leaf(fmt.Sprintf("sr-%d", k), func(rnd *rand.Rand, t *leafTx) { t.s = amount(rnd, k); t.r = amount(rnd, 31+k%2) })
	}
	for _, k := range []int{0, 1, 54, 55, 56, 57, 255, 256, 257, 2014, 2015, 2016, 2100} {
		if c.Thorough() || k < 58 || k == 256 || k > 2014 {
			leaf(fmt.Sprintf("data-%d", k), func(rnd *rand.Rand, t *leafTx) { t.data = RandBytes(rnd, k) })
		}
	}
	for k := 0; k < c.N(3, 6); k++ { // up to the very end of the buffer
		leaf(fmt.Sprintf("full-%d", k), func(rnd *rand.Rand, t *leafTx) {
			for n := 1900; ; n++ {
				t.data = RandBytes(rnd, n)
				if 2*len(t.enc()) >= leafMax-2*k {
					return
				}
			}
		})
	}
	leaf("data-byte", func(rnd *rand.Rand, t *leafTx) { t.data = []byte{0x7f} })
	leaf("v-wide", func(rnd *rand.Rand, t *leafTx) { t.v = amount(rnd, 2) })
	leaf("v-byte", func(rnd *rand.Rand, t *leafTx) { t.v = []byte{0xab} })
	leaf("list-one", func(rnd *rand.Rand, t *leafTx) { t.list = encList(encList(encStr(RandBytes(rnd, 20)), encList())) })
	leaf("list-string", func(rnd *rand.Rand, t *leafTx) { t.list = encStr(RandBytes(rnd, 1)) })
	// the headers, one byte off, and another number of items in the outer list
	raw := func(id string, f func(rnd *rand.Rand, b []byte) []byte) {
		c.Add("leaf", id, func(r *Rec) {
			t := mkLeaf(r.Rnd)
			t.data = RandBytes(r.Rnd, []int{3, 100, 300}[r.Rnd.Intn(3)])
			leafEvent(r, f(r.Rnd, t.enc()), zero)
		})
	}
	for k := 0; k < c.N(10, 14); k++ {
		for _, d := range []byte{1, 255, 16} {
			raw(fmt.Sprintf("head-%d-%d", k, d), func(rnd *rand.Rand, b []byte) []byte {
				b[k] += d
				return b
			})
		}
	}
	for k := 0; k < c.N(6, 40); k++ { // the list's length includes one more item, or leaves the last one out
		raw(fmt.Sprintf("items-%d", k), func(rnd *rand.Rand, b []byte) []byte {
			h := 1
			if b[0] > 0xf7 {
				h += int(b[0] - 0xf7)
			}
			body := append([]byte{}, b[h:]...)
			switch k % 3 {
			case 0:
				body = append(body, 0x80)
			case 1:
				body = append(body, encStr(RandBytes(rnd, 1+rnd.Intn(20)))...)
			case 2: // the key alone is the list, the value follows
				return append(encList(body[:1]), body[1:]...)
			}
			return encList(body)
		})
	}
	leaf("path-long", func(rnd *rand.Rand, t *leafTx) { t.path = RandBytes(rnd, 2) })
	leaf("type-1", func(rnd *rand.Rand, t *leafTx) {
		t.typ = 1
		t.items = [][]byte{encStr(t.num[0]), encStr(t.num[1]), encStr(t.num[3]), encStr(t.num[4]), encStr(t.num[5]), encStr(t.num[6]), encStr(t.data), t.list, encStr(t.v), encStr(t.r), encStr(t.s)}
	})
	leaf("eleven", func(rnd *rand.Rand, t *leafTx) {
		for _, n := range t.num[:6] {
			t.items = append(t.items, encStr(n))
		}
		t.items = append(t.items, encStr(t.data), t.list, encStr(t.v), encStr(t.r), encStr(t.s))
	})
	leaf("thirteen", func(rnd *rand.Rand, t *leafTx) {
		for _, n := range t.num {
			t.items = append(t.items, encStr(n))
		}
		t.items = append(t.items, encStr(t.data[:0]), t.list, encStr(t.v), encStr(t.r), encStr(t.s), encStr(RandBytes(rnd, 3)))
	})
	leaf("tail", func(rnd *rand.Rand, t *leafTx) { t.tail = RandBytes(rnd, 5) })
	c.Add("leaf", "noise-behind", func(r *Rec) {
		leafEvent(r, mkLeaf(r.Rnd).enc(), func(int) int { return r.Rnd.Intn(16) })
	})
	for i := 0; i < c.N(4, 60); i++ {
		c.Add("leaf", fmt.Sprintf("flip-%d", i), func(r *Rec) {
			t := mkLeaf(r.Rnd)
			t.data = t.data[:min(len(t.data), 20)]
			b := t.enc()
			b[r.Rnd.Intn(min(len(b), 40))] ^= 1 << r.Rnd.Intn(8)
			leafEvent(r, b, zero)
		})
	}
	c.Add("dec", "dec", func(r *Rec) {
		for i := 0; i < c.N(60, 600); i++ {
			m := []int{2, 3, 8, 16, 40, 63}[r.Rnd.Intn(6)]
			in := make([]int, 64)
			for j := range in {
				in[j] = r.Rnd.Intn(16)
				if i%5 == 0 {
					in[j] = 15
				}
			}
			n := r.Rnd.Intn(m + 1)
			if i%4 == 0 {
				n = []int{0, 1, m - 1, m}[r.Rnd.Intn(4)]
			}
			acc, o, _ := Solve(Ints(append([]int{n}, in...)...), func(api API, v []V) []V {
				return []V{rlp.HexToDecimal(api, v[1:], m, v[0])}
			})
			e := Ev{"op": "dec", "in": in, "len": n, "max": m, "acc": B(acc), "out": []int{}}
			if acc {
				e["out"] = Dig(o[0])
			}
			r.Add(e)
		}
	})
	c.Add("two", "two", func(r *Rec) {
		for n := 0; n <= 64; n++ {
			for k := 0; k < c.N(1, 8); k++ {
				in := make([]int, 64)
				for j := range in {
					in[j] = r.Rnd.Intn(16)
					if r.Rnd.Intn(4) == 0 {
						in[j] = 15
					}
				}
				acc, o, _ := Solve(Ints(append([]int{n}, in...)...), func(api API, v []V) []V {
					x := rlp.Hex64To2Fr(api, v[1:], v[0])
					return x[:]
				})
				e := Ev{"op": "two", "in": in, "len": n, "acc": B(acc), "lo": []int{}, "hi": []int{}}
				if acc {
					e["lo"], e["hi"] = Dig(o[0]), Dig(o[1])
				}
				r.Add(e)
			}
		}
	})
}
