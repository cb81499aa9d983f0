// Driver for the host-side code: C21, C22, C30, C31, C32, C35, C36 (T_Host).
package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"time"

	"github.com/brevis-network/zk-utils/circuits/fabric/smt"
	"github.com/brevis-network/zk-utils/common/circuits"
	"github.com/brevis-network/zk-utils/common/proof"
	"github.com/brevis-network/zk-utils/common/utils"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"

	. "verifdriver/h"
)

func main() {
	Main(map[string]func(c *Ctx){"C21": c21, "C22": c22, "C23": c23, "C24": c24, "C30": c30, "C31": c31, "C32": c32, "C35": c35, "C36": c36})
}

func bi(n int) *big.Int       { return big.NewInt(int64(n)) }
func asc(s string) []int      { return Bytes([]byte(s)) }
func ascs(q []string) [][]int { return mapInts(q, asc) }
func mapInts[T any](q []T, f func(T) []int) [][]int {
	out := make([][]int, len(q))
	for i := range q {
		out[i] = f(q[i])
	}
	return out
}
func pow2(n int) *big.Int { return new(big.Int).Lsh(bi(1), uint(n)) }

// val is an integer of at most n bits; edge values often
func val(r *rand.Rand, n int) *big.Int {
	switch r.Intn(8) {
	case 0:
		return bi(0)
	case 1:
		return new(big.Int).Sub(pow2(n), bi(1))
	case 2:
		return pow2(n - 1)
	case 3:
		return pow2(r.Intn(n))
	case 4:
		return RandBig(r, 1+r.Intn(n))
	}
	return RandBig(r, n)
}
func lpad(b []byte, n int) []byte { return common.LeftPadBytes(b, n) }

// ---- C21 ----
type query struct {
	kind                    string
	blk, time               uint64
	fee, key                *big.Int
	logs                    []lg
	addr, slot, value, leaf *big.Int
	// texts that replace a field
	text map[string]string
	bad  bool
}
type lg struct {
	addr, topic, value *big.Int
	topicLen, valueLen int
	index, vindex      uint64
	from               bool
}

func num(r *rand.Rand, x *big.Int) string {
	switch r.Intn(3) {
	case 0:
		return "0x" + x.Text(16)
	case 1:
		return fmt.Sprintf("0x%0*x", 2*((x.BitLen()+7)/8+r.Intn(3)), x)
	}
	return x.String()
}
func hexn(r *rand.Rand, x *big.Int, n int) string {
	s := fmt.Sprintf("0x%0*x", 2*n, x)
	if r.Intn(4) == 0 {
		s = "0x" + strings.ToUpper(s[2:])
	}
	return s
}
func newLog(r *rand.Rand) lg {
	l := lg{addr: val(r, 160), topicLen: 32, valueLen: 32, index: uint64(r.Intn(65536)), vindex: uint64(r.Intn(128)), from: r.Intn(2) == 0}
	if r.Intn(4) == 0 {
		l.topicLen = 6 + r.Intn(27)
	}
	l.topic = val(r, 8*l.topicLen)
	l.value = val(r, 256)
	if r.Intn(4) == 0 {
		l.valueLen = 1 + r.Intn(32)
		l.value = val(r, 8*l.valueLen)
	}
	return l
}
func newQuery(r *rand.Rand, kind string, n int) query {
	q := query{kind: kind, blk: uint64(r.Uint32()), fee: val(r, 128), key: val(r, 32), addr: val(r, 160), slot: val(r, 256), value: val(r, 256), leaf: val(r, 256), time: r.Uint64(), text: map[string]string{}}
	if r.Intn(4) == 0 {
		q.blk = []uint64{0, 1, 0xffffffff}[r.Intn(3)]
	}
	if r.Intn(4) == 0 {
		q.time = []uint64{0, 1, 1<<63 - 1, 1 << 63, 1<<64 - 1}[r.Intn(5)]
	}
	for i := 0; i < n; i++ {
		q.logs = append(q.logs, newLog(r))
	}
	return q
}
func (q query) txt(k, s string) string {
	if t, ok := q.text[k]; ok {
		return t
	}
	return s
}

// run hands the query to the code under test and records it.
func (q query) run(r *Rec) {
	rnd := r.Rnd
	u := func(x uint64) []int { return Dig(new(big.Int).SetUint64(x)) }
	e := Ev{"op": q.kind, "bad": B(q.bad)}
	rec := Ev{"blk": u(q.blk), "fee": Dig(q.fee), "time": u(q.time)}
	var out []byte
	var f func() error
	switch q.kind {
	case "receipt":
		in := &proof.SDKQueryProvingInfoForReceipt{BlockNumber: q.blk, BlockBaseFee: q.txt("fee", num(rnd, q.fee)), MPTKey: q.txt("key", num(rnd, q.key)), BlockTime: q.time}
		ls := []Ev{}
		for i, l := range q.logs {
			t6 := new(big.Int).Rsh(l.topic, uint(8*(l.topicLen-6)))
			ls = append(ls, Ev{"addr": Dig(l.addr), "index": u(l.index), "topic0": Dig(t6), "fromTopic": Dig(bi(B(l.from))), "valueIndex": u(l.vindex), "value": Dig(l.value)})
			k := fmt.Sprint(i)
			in.LogExtractInfos = append(in.LogExtractInfos, &proof.SDKQueryLogExtractInfo{
				ContractAddress: q.txt("addr"+k, hexn(rnd, l.addr, 20)), LogIndex: l.index, LogTopic0: q.txt("topic"+k, hexn(rnd, l.topic, l.topicLen)),
				ValueFromTopic: l.from, ValueIndex: l.vindex, Value: q.txt("value"+k, hexn(rnd, l.value, l.valueLen)), FieldNumInTopic: uint64(rnd.Intn(9))})
		}
		rec["key"], rec["logs"] = Dig(q.key), ls
		f = func() (err error) { out, err = proof.MiMCHashReceiptCustomInputs(in); return }
	case "storage":
		in := &proof.SDKQueryProvingInfoForStorageSlot{BlockNumber: q.blk, BlockBaseFee: q.txt("fee", num(rnd, q.fee)), AccountAddress: q.txt("addr", num(rnd, q.addr)),
			Slot: q.txt("slot", hexn(rnd, q.slot, 32)), SlotValue: q.txt("value", q.value.String()), BlockTime: q.time}
		rec["addr"], rec["slot"], rec["value"] = Dig(q.addr), Dig(q.slot), Dig(q.value)
		f = func() (err error) { out, err = proof.MiMCHashStorageCustomInputs(in); return }
	case "tx":
		in := &proof.SDKQueryProvingInfoForTransaction{BlockNumber: q.blk, BlockBaseFee: q.txt("fee", num(rnd, q.fee)), MPTKey: q.txt("key", num(rnd, q.key)),
			LeafHash: q.txt("leaf", hexn(rnd, q.leaf, 32)), BlockTime: q.time}
		rec["key"], rec["leaf"] = Dig(q.key), Dig(q.leaf)
		f = func() (err error) { out, err = proof.MiMCHashTxCustomInputs(in); return }
	}
	res, msg := Try(f)
	e["q"], e["acc"], e["out"], e["msg"] = rec, B(res == "ok"), Dig(new(big.Int).SetBytes(out)), msg
	r.Add(e)
}
func (q query) clone() query {
	n := q
	n.logs = append([]lg(nil), q.logs...)
	n.text = map[string]string{}
	return n
}

func c21(c *Ctx) {
	logs := []int{0, 1, 2, 3, 4, 5, 7, 8, 9}
	rounds := c.N(2, 30)
	for _, kind := range []string{"receipt", "storage", "tx"} {
		ns := []int{0}
		if kind == "receipt" {
			ns = logs
		}
		for _, n := range ns {
			k := rounds
			if kind != "receipt" {
				k *= 4
			}
			for i := 0; i < k; i++ {
				c.Add(kind, fmt.Sprintf("%s-n%d-%d", kind, n, i), func(r *Rec) { newQuery(r.Rnd, kind, n).run(r) })
			}
			if n > 5 {
				continue
			}
			// one field changed at a time, then one field made to exceed its width
			c.Add(kind, fmt.Sprintf("%s-n%d-vary", kind, n), func(r *Rec) {
				base := newQuery(r.Rnd, kind, n)
				base.run(r)
				add := func(f func(q *query)) { q := base.clone(); f(&q); q.run(r) }
				inc := func(x *big.Int, bits int) *big.Int {
					y := new(big.Int).Xor(x, pow2(r.Rnd.Intn(bits)))
					return y
				}
				add(func(q *query) { q.blk = uint64(uint32(q.blk) ^ 1<<uint(r.Rnd.Intn(32))) })
				add(func(q *query) { q.fee = inc(q.fee, 128) })
				add(func(q *query) { q.time ^= 1 << uint(r.Rnd.Intn(64)) })
				add(func(q *query) { q.key, q.addr = inc(q.key, 32), inc(q.addr, 160) })
				add(func(q *query) { q.slot, q.leaf = inc(q.slot, 256), inc(q.leaf, 256) })
				add(func(q *query) { q.value = inc(q.value, 256) })
				// the two halves of a 256-bit value
				for _, b := range []int{0, 7, 8, 247, 248, 255} {
					add(func(q *query) {
						q.value, q.slot, q.leaf = pow2(b), pow2(255-b), pow2(b)
						for j := range q.logs {
							q.logs[j].value, q.logs[j].valueLen = pow2(b), 32
						}
					})
				}
				for j := 0; j < n; j++ {
					if j > 0 && j < n-1 && !c.Thorough() {
						continue
					}
					l := base.logs[j]
					add(func(q *query) { q.logs[j].addr = inc(l.addr, 160) })
					add(func(q *query) { q.logs[j].index = l.index ^ 1<<uint(r.Rnd.Intn(16)) })
					add(func(q *query) { q.logs[j].topic = inc(l.topic, 8*l.topicLen) })
					add(func(q *query) { q.logs[j].from = !l.from })
					add(func(q *query) { q.logs[j].vindex = l.vindex ^ 1<<uint(r.Rnd.Intn(7)) })
					add(func(q *query) { q.logs[j].value = inc(l.value, 8*l.valueLen) })
					// too wide
					add(func(q *query) { q.logs[j].addr = pow2(160) })
					add(func(q *query) { q.logs[j].index = 1 << 16 })
					add(func(q *query) { q.logs[j].vindex = 128 })
					add(func(q *query) { q.logs[j].value, q.logs[j].valueLen = pow2(256), 33 })
					k := fmt.Sprint(j)
					texts := map[string][]string{"addr": {"", "0xzz", "12"}, "topic": {"0x0102030405", "0x", "", "0x123"}, "value": {"", "0x123", "zz", "0x1g"}}
					for _, name := range SortedKeys(texts) {
						for _, t := range texts[name] {
							add(func(q *query) { q.text[name+k], q.bad = t, true })
						}
					}
				}
				if n > 1 {
					add(func(q *query) { q.logs[0], q.logs[n-1] = q.logs[n-1], q.logs[0] })
					add(func(q *query) { q.logs = q.logs[:n-1] })
				}
				add(func(q *query) { q.blk = 1 << 32 })
				add(func(q *query) { q.fee = pow2(128) })
				if kind != "storage" {
					add(func(q *query) { q.key = pow2(32) })
					add(func(q *query) { q.text["key"], q.bad = "", true })
					add(func(q *query) { q.text["key"], q.bad = "0xg", true })
					add(func(q *query) { q.text["key"], q.bad = "-1", true })
				}
				add(func(q *query) { q.text["fee"], q.bad = "", true })
				add(func(q *query) { q.text["fee"], q.bad = "1.5", true })
				add(func(q *query) { q.text["fee"], q.bad = "-7", true })
				switch kind {
				case "storage":
					add(func(q *query) { q.addr = pow2(160) })
					add(func(q *query) { q.value = pow2(256) })
					add(func(q *query) { q.text["slot"], q.slot = "0x01"+strings.Repeat("00", 32), pow2(256) })
					add(func(q *query) { q.text["value"], q.bad = "-5", true })
					add(func(q *query) { q.text["value"], q.bad = "0x10", true })
					add(func(q *query) { q.text["value"], q.bad = "", true })
					add(func(q *query) { q.text["addr"], q.bad = "-1", true })
					// short and unprefixed slots name the same slot
					add(func(q *query) { q.slot, q.text["slot"] = bi(1), "0x1" })
					add(func(q *query) { q.slot, q.text["slot"] = bi(0x0a0b), "a0b" })
					add(func(q *query) { q.slot, q.text["slot"] = bi(0), "" })
				case "tx":
					add(func(q *query) { q.text["leaf"], q.leaf = "0x01"+strings.Repeat("00", 32), pow2(256) })
					add(func(q *query) { q.leaf, q.text["leaf"] = bi(0x0a0b), "0xa0b" })
				}
			})
		}
	}
}

// ---- C22 ----
func opt(p bool, b []byte) Ev {
	if !p {
		return Ev{"p": 0, "b": []int{}}
	}
	return Ev{"p": 1, "b": Bytes(b)}
}
func big0(x *big.Int) []byte {
	if x == nil {
		return nil
	}
	return x.Bytes()
}
func u64(x uint64) []byte { return new(big.Int).SetUint64(x).Bytes() }
func up(x *uint64) []byte {
	if x == nil {
		return nil
	}
	return u64(*x)
}
func hp(x *common.Hash) []byte {
	if x == nil {
		return nil
	}
	return x[:]
}
func hdrEv(h *types.Header) Ev {
	f := [][]byte{h.ParentHash[:], h.UncleHash[:], h.Coinbase[:], h.Root[:], h.TxHash[:], h.ReceiptHash[:], h.Bloom[:], big0(h.Difficulty), big0(h.Number),
		u64(h.GasLimit), u64(h.GasUsed), u64(h.Time), h.Extra, h.MixDigest[:], h.Nonce[:]}
	return Ev{"f": mapInts(f, Bytes), "o": []Ev{opt(h.BaseFee != nil, big0(h.BaseFee)), opt(h.WithdrawalsHash != nil, hp(h.WithdrawalsHash)),
		opt(h.BlobGasUsed != nil, up(h.BlobGasUsed)), opt(h.ExcessBlobGas != nil, up(h.ExcessBlobGas)), opt(h.ParentBeaconRoot != nil, hp(h.ParentBeaconRoot))}}
}
func hdrEvs(hs []types.Header) []Ev {
	out := []Ev{}
	for i := range hs {
		out = append(out, hdrEv(&hs[i]))
	}
	return out
}

// packed says the bits as bytes, lowest bit first; nil if an entry is no bit
func packed(q []V) []int {
	out := make([]int, len(q)/8)
	for i, v := range q {
		x := Val(ecc.BN254.ScalarField(), v)
		if x.BitLen() > 1 {
			return []int{}
		}
		if i/8 < len(out) {
			out[i/8] |= int(x.Int64()) << (i % 8)
		}
	}
	if len(q)%8 != 0 {
		return []int{}
	}
	return out
}
func encode(r *Rec, hs []types.Header) {
	var enc [][]V
	var idx []V
	res, msg := Try(func() (err error) {
		e, i, err := smt.EncodeHeaders(hs)
		for _, x := range e {
			enc = append(enc, x)
		}
		idx = i
		return
	})
	e := Ev{"op": "enc", "hs": hdrEvs(hs), "acc": B(res == "ok"), "msg": msg, "out": [][]int{}, "idx": []int{}, "hash": [][]int{}}
	if res == "ok" {
		e["out"] = mapInts(enc, packed)
		is := []int{}
		for _, v := range idx {
			is = append(is, int(Val(ecc.BN254.ScalarField(), v).Int64()))
		}
		e["idx"] = is
		hash := [][]int{}
		for i := range hs {
			h := hs[i].Hash()
			hash = append(hash, Bytes(h[:]))
		}
		e["hash"] = hash
	}
	r.Add(e)
}
func rbytes(r *rand.Rand, b []byte) { copy(b, RandBytes(r, len(b))) }
func maxu(r *rand.Rand, bytes int) uint64 {
	return val(r, 8*bytes).Uint64()
}

// header has a generation 0 (no optional field), 1 (base fee), 2 (withdrawals), 3 (blobs)
func header(r *rand.Rand, gen int) types.Header {
	h := types.Header{Difficulty: val(r, 56), Number: val(r, 64), GasLimit: maxu(r, 4), GasUsed: maxu(r, 4), Time: maxu(r, 4)}
	for _, x := range []*common.Hash{&h.ParentHash, &h.UncleHash, &h.Root, &h.TxHash, &h.ReceiptHash, &h.MixDigest} {
		rbytes(r, x[:])
	}
	rbytes(r, h.Coinbase[:])
	rbytes(r, h.Nonce[:])
	switch r.Intn(3) {
	case 0:
		rbytes(r, h.Bloom[:])
	case 1:
		h.Bloom[r.Intn(256)] = byte(r.Intn(256))
	}
	h.Extra = RandBytes(r, []int{0, 1, 8, 31, 32, 32, 32}[r.Intn(7)])
	if gen >= 1 {
		h.BaseFee = val(r, 56)
	}
	if gen >= 2 {
		x := common.BytesToHash(RandBytes(r, 32))
		h.WithdrawalsHash = &x
	}
	if gen >= 3 {
		a, b := maxu(r, 8), maxu(r, 8)
		x := common.BytesToHash(RandBytes(r, 32))
		h.BlobGasUsed, h.ExcessBlobGas, h.ParentBeaconRoot = &a, &b, &x
	}
	return h
}
func c22(c *Ctx) {
	for gen := 0; gen <= 3; gen++ {
		for i := 0; i < c.N(4, 60); i++ {
			c.Add("enc", fmt.Sprintf("enc-g%d-%d", gen, i), func(r *Rec) {
				var hs []types.Header
				for j := 0; j <= i%3; j++ {
					hs = append(hs, header(r.Rnd, gen))
				}
				encode(r, hs)
			})
		}
		// every length of the extra field around the block boundaries: the padded size crosses 4 and 5 blocks
		base, step := 0, c.N(17, 1)
		for n := base; n <= 260; n += step {
			if gen != 1 && !c.Thorough() {
				break
			}
			c.Add("extra", fmt.Sprintf("extra-g%d-%d", gen, n), func(r *Rec) {
				h := header(r.Rnd, gen)
				h.Extra = RandBytes(r.Rnd, n)
				encode(r, []types.Header{h})
			})
		}
	}
	// sizes at which the padding fills exactly a block, or opens one: 135, 0, 1 modulo 136
	for _, blocks := range []int{4, 5} {
		for d := -2; d <= 2; d++ {
			c.Add("edge", fmt.Sprintf("edge-%d%+d", blocks, d), func(r *Rec) {
				want := 136*blocks + d
				for gen := 0; gen <= 3; gen++ {
					h := header(r.Rnd, gen)
					h.Extra = nil
					n := int(rlpSize(h))
					for k := want - n - 4; k <= want-n+2; k++ {
						if k < 0 {
							continue
						}
						h.Extra = RandBytes(r.Rnd, k)
						if int(rlpSize(h)) == want {
							encode(r, []types.Header{h})
							break
						}
					}
				}
			})
		}
	}
	c.Add("limit", "limits", func(r *Rec) {
		good := header(r.Rnd, 2)
		for _, f := range []func(h *types.Header, over bool){
			func(h *types.Header, o bool) { h.Difficulty = new(big.Int).Sub(pow2(56), bi(1-B(o))) },
			func(h *types.Header, o bool) { h.Number = new(big.Int).Sub(pow2(64), bi(1-B(o))) },
			func(h *types.Header, o bool) { h.GasLimit = 1<<32 - 1 + uint64(B(o)) },
			func(h *types.Header, o bool) { h.GasUsed = 1<<32 - 1 + uint64(B(o)) },
			func(h *types.Header, o bool) { h.Time = 1<<32 - 1 + uint64(B(o)) },
			func(h *types.Header, o bool) { h.BaseFee = new(big.Int).Sub(pow2(56), bi(1-B(o))) },
			func(h *types.Header, o bool) {
				h.GasUsed, h.GasLimit = 1<<32-1, 1<<32-1
				if o {
					h.GasUsed, h.GasLimit = 1<<40, 1<<63
				}
			},
			// two limits exceeded at once must not cancel
			func(h *types.Header, o bool) {
				if o {
					h.Difficulty, h.BaseFee, h.Time = pow2(56), pow2(60), 1<<33
				}
			},
		} {
			for _, over := range []bool{false, true} {
				h := good
				f(&h, over)
				encode(r, []types.Header{h})
				encode(r, []types.Header{good, h, good})
			}
		}
		h := good
		h.Difficulty, h.Number = nil, nil
		encode(r, []types.Header{h})
		h.BaseFee = nil
		encode(r, []types.Header{h})
		encode(r, nil)
	})
	for i, n := range []int{1, 2, 3, 5, c.N(8, 128)} {
		c.Add("gen", fmt.Sprintf("gen-%d", i), func(r *Rec) {
			var prev [32]byte
			rbytes(r.Rnd, prev[:])
			start := []int{0, 1, 255, 65535, 20000000}[r.Rnd.Intn(5)]
			hs := smt.GenHeaders(n, start, prev)
			r.Add(Ev{"op": "gen", "count": n, "start": start, "prev": Bytes(prev[:]), "hs": hdrEvs(hs)})
			if n <= 3 {
				encode(r, hs)
			}
		})
	}
	p := ecc.BLS12_377.ScalarField()
	for i := 0; i < c.N(12, 200); i++ {
		c.Add("hash", fmt.Sprintf("hash-%d", i), func(r *Rec) {
			b := RandBytes(r.Rnd, 32)
			switch i % 4 {
			case 1:
				b = lpad(val(r.Rnd, 256).Bytes(), 32)
			case 2:
				b = make([]byte, 32)
				b[r.Rnd.Intn(32)] = byte(1 + r.Rnd.Intn(255))
			}
			r.Add(Ev{"op": "pair", "in": Bytes(b), "out": Bytes(smt.MimcHashBytes32(b))})
			h := smt.NewHash(b)
			r.Add(Ev{"op": "split", "in": Bytes(b), "out": [][]int{Dig(Val(ecc.BN254.ScalarField(), h[0])), Dig(Val(ecc.BN254.ScalarField(), h[1]))}})
			r.Add(Ev{"op": "same", "in": [][]int{{}, {}}, "out": [][]int{Dig(Val(ecc.BN254.ScalarField(), smt.EmptyHash()[0])), Dig(Val(ecc.BN254.ScalarField(), smt.EmptyHash()[1]))}})
			n := []int{1, 2, 4, 8, 3, 6}[i%6]
			ls := make([][]byte, n)
			for j := range ls {
				ls[j] = lpad(RandBelow(r.Rnd, p).Bytes(), 32)
				if r.Rnd.Intn(5) == 0 {
					ls[j] = lpad(new(big.Int).Sub(p, bi(1+r.Rnd.Intn(2))).Bytes(), 32)
				}
			}
			e := Ev{"op": "root", "leaves": mapInts(ls, Bytes), "out": []int{}}
			var out []byte
			res, _ := Try(func() error { out = smt.MimcRoot(ls); return nil })
			e["acc"] = B(res == "ok")
			if res == "ok" {
				e["out"] = Bytes(out)
			}
			r.Add(e)
		})
	}
}

// ---- C31 ----
func c31(c *Ctx) {
	c.Add("const", "constants", func(r *Rec) {
		r.Add(Ev{"op": "const", "depth": circuits.ChunkDepth, "size": int(circuits.HeaderSizePerChunk), "smt": circuits.SMTDepth, "smtsize": int(circuits.ChunkSizePerSMT)})
	})
	for i, ch := range []uint64{42161, 10, 97, 56, 1, 5, 0, 42162, 42160, 11, 137, 8453, 59144, 1 << 30} {
		c.Add("info", fmt.Sprintf("info-%d", i), func(r *Rec) {
			s := utils.GetStartBlockInfo(ch)
			r.Add(Ev{"op": "info", "chain": int(ch), "block": int(s.BlockNumber), "first": int(s.InitialIndex), "same": B(s.ChainId == ch)})
		})
	}
	for i := 0; i < c.N(60, 2000); i++ {
		c.Add("found", fmt.Sprintf("found-%d", i), func(r *Rec) {
			n := r.Rnd.Intn(6)
			if i%10 == 9 {
				n = 40 + r.Rnd.Intn(40)
			}
			list := make([]uint64, n)
			ls := [][]int{}
			for j := range list {
				list[j] = val(r.Rnd, 64).Uint64()
				if r.Rnd.Intn(2) == 0 {
					list[j] = uint64(r.Rnd.Intn(4))
				}
				ls = append(ls, Dig(new(big.Int).SetUint64(list[j])))
			}
			ask := func(x uint64) {
				r.Add(Ev{"op": "found", "x": Dig(new(big.Int).SetUint64(x)), "list": ls, "out": B(circuits.ChunkIndexFound(x, list))})
			}
			ask(0)
			ask(uint64(r.Rnd.Intn(4)))
			for _, j := range []int{0, n / 2, n - 1} {
				if j >= 0 && j < n {
					ask(list[j])
					ask(list[j] + 1)
					ask(list[j] ^ 1<<uint(r.Rnd.Intn(64)))
				}
			}
		})
	}
}

// ---- C36 ----
func c36(c *Ctx) {
	p := ecc.BN254.ScalarField()
	for i, raw := range c.Scen {
		var s struct {
			H []string `json:"h"`
		}
		if err := json.Unmarshal(raw, &s); err != nil {
			panic(err)
		}
		if !c.Thorough() && i%3 != 0 && len(s.H) > 3 {
			continue
		}
		c.Add("hist", fmt.Sprintf("hist-%s", strings.Join(s.H, "")), func(r *Rec) {
			h := utils.NewPoseidonBn254()
			cell := new(big.Int)
			for _, op := range s.H {
				switch op {
				case "w":
					x := RandBelow(r.Rnd, p)
					h.Write(x)
					r.Add(Ev{"op": "pwrite", "x": Dig(x)})
				case "c":
					h.Write(cell)
					r.Add(Ev{"op": "pwrite", "x": Dig(cell)})
				case "m":
					cell.Set(RandBelow(r.Rnd, p))
				case "r":
					h.Reset()
					r.Add(Ev{"op": "preset"})
				case "s":
					psum(r, h)
				}
			}
		})
	}
	for n := 0; n <= 18; n++ {
		for k := 0; k < c.N(2, 20); k++ {
			c.Add("count", fmt.Sprintf("count-%d-%d", n, k), func(r *Rec) {
				h := utils.NewPoseidonBn254()
				for j := 0; j < n; j++ {
					x := RandBelow(r.Rnd, p)
					switch r.Rnd.Intn(6) {
					case 0:
						x = bi(r.Rnd.Intn(2))
					case 1:
						x = new(big.Int).Sub(p, bi(1))
					}
					h.Write(x)
					r.Add(Ev{"op": "pwrite", "x": Dig(x)})
				}
				psum(r, h)
				psum(r, h)
			})
		}
	}
	c.Add("field", "outside-field", func(r *Rec) {
		for _, x := range []*big.Int{p, new(big.Int).Add(p, bi(1)), pow2(254), pow2(300), new(big.Int).Sub(p, bi(1))} {
			h := utils.NewPoseidonBn254()
			h.Write(bi(1))
			h.Write(x)
			r.Add(Ev{"op": "pwrite", "x": Dig(bi(1))})
			r.Add(Ev{"op": "pwrite", "x": Dig(x)})
			psum(r, h)
			h.Reset()
			r.Add(Ev{"op": "preset"})
			h.Write(bi(5))
			r.Add(Ev{"op": "pwrite", "x": Dig(bi(5))})
			psum(r, h)
			r.Add(Ev{"op": "preset"})
		}
	})
	for i := 0; i < c.N(40, 800); i++ {
		c.Add("bytes", fmt.Sprintf("bytes-%d", i), func(r *Rec) {
			n := []int{0, 1, 31, 32, 33, 63, 64, 95, 96}[i%9]
			if i >= 18 {
				n = r.Rnd.Intn(130)
			}
			b := RandBytes(r.Rnd, n)
			switch r.Rnd.Intn(5) {
			case 0:
				for j := range b {
					b[j] = 0xff
				}
			case 1:
				for j := range b {
					b[j] = 0
				}
				if n > 0 {
					b[r.Rnd.Intn(n)] = 1
				}
			}
			in := append([]byte(nil), b...)
			out := utils.GenerateBls12377Hash(in)
			r.Add(Ev{"op": "h377", "data": Bytes(b), "out": Bytes(out)})
			m := []int{32, 48, n, n + 1, 32}[r.Rnd.Intn(5)]
			if m >= n {
				var q []byte
				res, _ := Try(func() error { q = utils.MiMCBlockPad0(b, m); return nil })
				r.Add(Ev{"op": "pad0", "data": Bytes(b), "n": m, "acc": B(res == "ok"), "out": Bytes(q)})
			}
		})
	}
}
func psum(r *Rec, h *utils.PoseidonBn254Hasher) {
	var out *big.Int
	res, _ := Try(func() (err error) { out, err = h.Sum(); return })
	e := Ev{"op": "psum", "acc": B(res == "ok"), "out": []int{}}
	if res == "ok" {
		e["out"] = Dig(out)
	}
	r.Add(e)
}

var _ = time.Now
