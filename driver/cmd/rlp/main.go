// Driver for the in-circuit RLP decoders: C06 (and C33 in leaf.go).
package main

import (
	"fmt"
	"math/big"
	"math/rand"

	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"

	. "verifdriver/h"
)

func main() {
	Main(map[string]func(c *Ctx){"C06": c06, "C33": c33})
}

func bi(n int) *big.Int { return big.NewInt(int64(n)) }

func nibs(b []byte) []int { return Nib(b) }

func be(n int) []byte {
	if n == 0 {
		return nil
	}
	return append(be(n/256), byte(n%256))
}
func hdr(base int, n int) []byte {
	if n < 56 {
		return []byte{byte(base + n)}
	}
	l := be(n)
	return append([]byte{byte(base + 55 + len(l))}, l...)
}
func encStr(b []byte) []byte {
	if len(b) == 1 && b[0] < 128 {
		return b
	}
	return append(hdr(128, len(b)), b...)
}
func encList(items ...[]byte) []byte {
	var p []byte
	for _, i := range items {
		p = append(p, i...)
	}
	return append(hdr(192, len(p)), p...)
}

type cfg struct {
	max, fields, ap int
	mn, mx          []int
}

func (c cfg) ac() rlp.ArrayCheck {
	return rlp.ArrayCheck{MaxHexLen: c.max, MaxFields: c.fields, ArrayPrefixMaxHexLen: c.ap, FieldMinHexLen: c.mn, FieldMaxHexLen: c.mx}
}

// the configurations used inside the repository and its own users
var header = cfg{8 * 272, 17, 6,
	[]int{64, 64, 40, 64, 64, 64, 512, 0, 0, 0, 0, 0, 0, 64, 16, 0, 64},
	[]int{64, 64, 40, 64, 64, 64, 512, 14, 16, 8, 8, 8, 2000, 64, 18, 16, 64}}
var account = cfg{228, 4, 4, []int{0, 0, 64, 64}, []int{64, 24, 64, 64}}
var leaf = cfg{140, 2, 4, []int{0, 0}, []int{66, 66}}
var branch = cfg{1064, 17, 8, make([]int, 17), []int{64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 64, 0}}

func randCfg(r *rand.Rand, min bool) cfg {
	n := 1 + r.Intn(5)
	c := cfg{fields: n, ap: 4}
	sizes := []int{0, 2, 4, 16, 40, 64, 66, 110, 112, 114, 126, 128, 200, 254, 256, 510, 512}
	tot := 0
	for i := 0; i < n; i++ {
		mx := sizes[r.Intn(len(sizes))]
		mn := 0
		switch r.Intn(4) {
		case 0:
			if min {
				mn = mx
			}
		case 1:
			if min {
				mn = 2 * r.Intn(mx/2+1)
			}
		}
		c.mn, c.mx = append(c.mn, mn), append(c.mx, mx)
		tot += mx + 6
	}
	c.max = tot + 6 + 2*r.Intn(20)
	return c
}

// item gives an encoded field whose content has a size in lo..hi nibbles
func item(r *rand.Rand, lo, hi int, list bool) []byte {
	n := lo / 2
	if hi > lo {
		n += r.Intn(hi/2 - lo/2 + 1)
		switch r.Intn(6) {
		case 0:
			n = hi / 2
		case 1:
			n = lo / 2
		case 2:
			for _, x := range []int{1, 55, 56} {
				if 2*x >= lo && 2*x <= hi && r.Intn(2) == 0 {
					n = x
				}
			}
		}
	}
	b := RandBytes(r, n)
	if n == 1 {
		b[0] = []byte{0, 1, 127, 128, 129, 255, byte(r.Intn(256))}[r.Intn(7)]
	}
	if list {
		return append(hdr(192, n), b...)
	}
	return encStr(b)
}

func c06(c *Ctx) {
	rnd := c.Rand("c06")
	for hi := 0; hi < 16; hi++ {
		c.Add("prefix", fmt.Sprintf("prefix-%d", hi), func(r *Rec) { prefixes(r, hi) })
	}
	for _, n := range []int{0, 1, 54, 55, 56, 57, 127, 255, 256, 300} {
		c.Add("payload", fmt.Sprintf("payload-%d", n), func(r *Rec) { payload(r, n) })
	}
	total := c.N(600, 5000)
	for i := 0; i < total; i++ {
		fn := []string{"array", "nest", "header"}[i%3]
		var g cfg
		nums := -1
		switch k := rnd.Intn(12); {
		case k == 0:
			g = account
		case k <= 2:
			g = leaf
		case k == 3 && i%5 == 0:
			g = branch
		case k == 4 && fn == "header" && i%2 == 0:
			g = header
			nums = 15 + rnd.Intn(3)
		default:
			g = randCfg(rnd, true)
		}
		if nums < 0 && fn != "nest" && rnd.Intn(2) == 0 {
			nums = 1 + rnd.Intn(g.fields)
			if rnd.Intn(8) == 0 {
				nums = g.fields + 1
			}
		}
		if fn == "header" && nums < 0 {
			nums = g.fields
		}
		mut := 0
		if i%5 >= 3 {
			mut = 1 + rnd.Intn(10)
		}
		c.Add(fn, fmt.Sprintf("%s-%d-m%d-n%d", fn, i, mut, nums), func(r *Rec) { run(r, fn, g, nums, mut) })
	}
}

// prefixes runs the prefix readers over every possible first byte.
func prefixes(r *Rec, hi int) {
	for lo := 0; lo < 16; lo++ {
		_, o, _ := Solve(Ints(hi, lo), func(api API, v []V) []V {
			a, b, c, d, e, f, g := rlp.RlpFieldPrefix(api, [2]V{v[0], v[1]})
			h, i, j := rlp.RlpArrayPrefix(api, [2]V{v[0], v[1]})
			return []V{a, b, c, d, e, f, g, h, i, j}
		})
		r.Add(Ev{"op": "prefix", "b": hi*16 + lo, "out": Small(o)})
	}
}
func payload(r *Rec, n int) {
	b := append(hdr(192, n), RandBytes(r.Rnd, n)...)
	max := 2*len(b) + 2*r.Rnd.Intn(20)
	if max < 8 {
		max = 8
	}
	in := nibs(b)
	for len(in) < max {
		in = append(in, r.Rnd.Intn(16))
	}
	ac := rlp.ArrayCheck{MaxHexLen: max, ArrayPrefixMaxHexLen: []int{4, 6}[r.Rnd.Intn(2)]}
	acc, o, _ := Solve(Ints(in...), func(api API, v []V) []V {
		out, l := ac.LeftShiftRlpArrayPrefix(api, v)
		return append([]V{l}, out...)
	})
	ev := Ev{"op": "payload", "in": in, "acc": B(acc), "len": -1, "out": []int{}}
	if acc {
		s := Small(o)
		ev["len"] = s[0]
		if s[0] >= 0 && s[0] < len(s) {
			ev["out"] = s[1 : 1+s[0]]
		}
	}
	r.Add(ev)
	in = append([]int{}, in...)
	in[0] = r.Rnd.Intn(12)
	acc, _, _ = Solve(Ints(in...), func(api API, v []V) []V { out, _ := ac.LeftShiftRlpArrayPrefix(api, v); return out })
	r.Add(Ev{"op": "payload", "in": in, "acc": B(acc), "len": -1, "out": []int{}})
}

func run(r *Rec, fn string, g cfg, nums, mut int) {
	rnd := r.Rnd
	n := g.fields
	if nums >= 0 {
		n = nums
	}
	if n > g.fields {
		n = g.fields
	}
	if mut == 1 { // wrong number of fields
		n += []int{-1, 1, 2}[rnd.Intn(3)]
	}
	var items [][]byte
	lists := rnd.Intn(3) == 0
	for j := 0; j < n; j++ {
		k := j
		if k >= g.fields {
			k = g.fields - 1
		}
		lo, hi := g.mn[k], g.mx[k]
		if mut == 2 && rnd.Intn(3) == 0 { // a field outside its declared size
			if rnd.Intn(2) == 0 {
				lo, hi = hi+2, hi+64
			} else {
				lo, hi = 0, lo
			}
		}
		items = append(items, item(rnd, lo, hi, lists && rnd.Intn(3) == 0 && (fn != "nest" || hi <= 110)))
	}
	enc := encList(items...)
	if mut == 10 && n >= 2 { // two fields exchange bytes: the second prefix moves
		j := rnd.Intn(n - 1)
		if len(items[j]) > 3 && items[j][0] >= 0x82 && items[j][0] < 0xb7 {
			items[j][0] -= byte(1 + rnd.Intn(2))
			enc = encList(items...)
		}
	}
	switch mut {
	case 3: // list header claims something else
		enc[0] += byte([]int{-2, -1, 1, 2, 8}[rnd.Intn(5)])
	case 4:
		if enc[0] > 0xf7 {
			enc[len(enc)-len(enc)+1+rnd.Intn(int(enc[0])-0xf7)] ^= byte(1 << rnd.Intn(8))
		} else {
			enc[0] ^= byte(1 << rnd.Intn(8))
		}
	case 5: // a prefix or a byte somewhere changes
		p := 1 + rnd.Intn(len(enc))
		if p < len(enc) {
			enc[p] ^= byte(1 << rnd.Intn(8))
		}
	case 6: // the prefix of a field changes
		p := len(enc)
		for j := len(items) - 1; j >= rnd.Intn(len(items)+1) && j >= 0; j-- {
			p -= len(items[j])
		}
		if p < len(enc) {
			enc[p] = byte(rnd.Intn(256))
		}
	case 7: // a non-canonical single byte or list header
		if len(enc) < 56+1 && enc[0] <= 0xf7 {
			enc = append([]byte{0xf8, byte(len(enc) - 1)}, enc[1:]...)
		}
	case 8:
		enc = enc[:len(enc)-1-rnd.Intn(len(enc)/2+1)]
	case 9: // the list is a string
		enc[0] = byte(rnd.Intn(0xc0))
	}
	in := nibs(enc)
	pad := rnd.Intn(5)
	for len(in) < g.max {
		switch pad {
		case 0, 1:
			in = append(in, 0)
		case 2:
			in = append(in, rnd.Intn(16))
		case 3:
			in = append(in, 8, 1)
		case 4:
			in = append(in, []int{0xb, 0xf, 0xc, 0x9, 0xf}[rnd.Intn(5)], []int{8, 9, 0, 15}[rnd.Intn(4)])
		}
	}
	in = in[:g.max]
	ac := g.ac()
	acc, o, _ := Solve(Ints(in...), func(api API, v []V) []V {
		var out, tot V
		var lens []V
		var fields [][]V
		switch fn {
		case "array":
			if nums >= 0 {
				out, tot, lens, fields = ac.RlpArrayCheck(api, v, nums)
			} else {
				out, tot, lens, fields = ac.RlpArrayCheck(api, v)
			}
		case "nest":
			out, tot, lens, fields = ac.RlpNestArrayCheck(api, v)
		case "header":
			out, tot, lens, fields = ac.BlkHeaderRlpCheck(api, v, nums)
		}
		res := append([]V{out, tot, len(lens)}, lens...)
		for _, f := range fields {
			res = append(res, len(f))
			res = append(res, f...)
		}
		return res
	})
	ev := Ev{"op": fn, "in": in, "max": g.max, "mf": g.fields, "ap": g.ap, "mn": g.mn, "mx": g.mx, "nums": nums, "acc": B(acc)}
	if acc {
		s := Small(o)
		ev["out"], ev["total"] = s[0], s[1]
		k := s[2]
		lens := s[3 : 3+k]
		ev["lens"] = lens
		p := 3 + k
		var fs [][]int
		for j := 0; j < k; j++ {
			l := s[p]
			f := s[p+1 : p+1+l]
			p += 1 + l
			if lens[j] >= 0 && lens[j] < len(f) {
				f = f[:lens[j]]
			}
			if s[0] != 1 {
				f = nil
			}
			fs = append(fs, append([]int{}, f...))
		}
		ev["fields"] = fs
	} else {
		ev["out"], ev["total"], ev["lens"], ev["fields"] = 0, 0, []int{}, [][]int{}
	}
	r.Add(ev)
}
