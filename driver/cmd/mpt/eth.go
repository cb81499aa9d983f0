package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"

	"github.com/brevis-network/zk-utils/circuits/gadgets/mpt"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	gethrlp "github.com/ethereum/go-ethereum/rlp"

	. "verifdriver/h"
)

// C12: the account, storage, header and combined gadgets.
type ethScen struct {
	G      string `json:"g"`
	Kind   string `json:"kind"`
	Tamper string `json:"tamper"`
	Rep    int    `json:"rep"`
}

func c12(c *Ctx) {
	for _, raw := range c.Scen {
		var s ethScen
		if err := json.Unmarshal(raw, &s); err != nil {
			panic(err)
		}
		id := fmt.Sprintf("%s-%s-%s-%d", s.G, s.Kind, s.Tamper, s.Rep)
		c.Add(s.G, id, func(r *Rec) {
			d := newDB()
			switch s.G {
			case "account":
				account(r, d, s)
			case "storage":
				storage(r, d, s)
			case "header":
				header(r, s)
			case "full":
				full(r, d, s)
			}
			r.Hdr["db"] = d.ev()
		})
	}
}

func enc(x interface{}) []byte {
	b, err := gethrlp.EncodeToBytes(x)
	if err != nil {
		panic(err)
	}
	return b
}

type acct struct {
	nonce      uint64
	balance    *big.Int
	root, code []byte
}

func (a acct) rlp() []byte { return enc([]interface{}{a.nonce, a.balance, a.root, a.code}) }
func mkAcct(rnd *rand.Rand, kind string) acct {
	a := acct{uint64(rnd.Intn(1000)), new(big.Int).SetBytes(RandBytes(rnd, 1+rnd.Intn(10))), RandBytes(rnd, 32), RandBytes(rnd, 32)}
	switch kind {
	case "fresh":
		a.nonce, a.balance = 0, big.NewInt(0)
	case "contract":
		a.nonce = 1
	case "bignonce":
		a.nonce = rnd.Uint64() | 1<<63
	case "maxbalance":
		a.balance = new(big.Int).SetBytes(append([]byte{0xff}, RandBytes(rnd, 11)...))
	case "overbalance":
		a.balance = new(big.Int).SetBytes(append([]byte{0x01}, RandBytes(rnd, 12)...))
	case "smallbytes":
		a.nonce, a.balance = uint64([]int{127, 128, 255, 256}[rnd.Intn(4)]), big.NewInt(int64([]int{1, 127, 128, 255, 256}[rnd.Intn(5)]))
	}
	return a
}

// trieWith puts key -> val among n other entries and lays out its proof.
func trieWith(rnd *rand.Rand, d *db, key, val []byte, n int, gen func() []byte, maxVal, lastSize int) (*wit, []byte) {
	ents := map[string][]byte{}
	for i := 0; i < n; i++ {
		ents[string(RandBytes(rnd, 32))] = gen()
	}
	if val != nil {
		ents[string(key)] = val
	}
	t, root := mkTrie(ents)
	p := path(t, key)
	for _, x := range p {
		d.put(x)
	}
	if val == nil {
		val = []byte{0x80}
	}
	return build(d, p, Nib(key), padVal(val, maxVal), root, max(2, len(p)+rnd.Intn(2)), nodeSize, lastSize), root
}

// the prover-controlled inputs of one trie proof, flattened
func (w *wit) ins() [][]int {
	ins := [][]int{w.key, w.val, w.root, w.starts, w.last, {w.lastR}, {w.lastP}}
	ins = append(ins, w.nodes...)
	return append(ins, w.rounds, w.plens, w.types, []int{w.depth})
}

type taker struct {
	v []V
	p int
}

func (t *taker) n(n int) []V { t.p += n; return t.v[t.p-n : t.p] }
func (t *taker) one() V      { return t.n(1)[0] }

type wires struct {
	key, val             []V
	root                 [64]V
	starts, last         []V
	lastR, lastP, depth  V
	nodes                [][]V
	rounds, plens, types []V
}

func (w *wit) take(t *taker) (x wires) {
	x.key, x.val = t.n(len(w.key)), t.n(len(w.val))
	copy(x.root[:], t.n(64))
	x.starts, x.last = t.n(w.maxDepth), t.n(len(w.last))
	x.lastR, x.lastP = t.one(), t.one()
	for range w.nodes {
		x.nodes = append(x.nodes, t.n(w.nodeSize))
	}
	x.rounds, x.plens, x.types = t.n(w.maxDepth-1), t.n(w.maxDepth-1), t.n(w.maxDepth-1)
	x.depth = t.one()
	return
}
func (w *wit) accountEvent(honest bool) Ev {
	acc, o, _ := Solve(fes(w.ins()), func(api API, v []V) []V {
		x := w.take(&taker{v: v})
		var key [64]V
		copy(key[:], x.key)
		var val [228]V
		copy(val[:], x.val)
		r := mpt.CheckEthAccountProof(api, w.maxDepth, x.root, key, x.starts, val, x.last, x.lastR, x.lastP, x.nodes, x.rounds, x.plens, x.types, x.depth)
		out := []V{r.Output, r.NonceLength, r.BalanceLength}
		out = append(out, r.Nonce[:]...)
		out = append(out, r.Balance[:]...)
		out = append(out, r.StorageRoot[:]...)
		return append(out, r.CodeHash[:]...)
	})
	e := Ev{"op": "account", "honest": B(honest), "key": w.key, "val": w.val, "root": w.root, "acc": B(acc), "out": 0, "note": w.note}
	if acc {
		s := Small(o)
		e["out"], e["nl"], e["bl"], e["nonce"], e["balance"], e["sr"], e["ch"] = s[0], s[1], s[2], s[3:67], s[67:91], s[91:155], s[155:219]
	}
	return e
}

func account(r *Rec, d *db, s ethScen) {
	rnd := r.Rnd
	a := mkAcct(rnd, s.Kind)
	val := a.rlp()
	if s.Tamper == "junk" { // an entry that is no account
		val = encStr(RandBytes(rnd, 80))
	}
	if s.Tamper == "shorter" {
		val = enc([]interface{}{a.nonce, a.balance, a.root})
	}
	if s.Tamper == "longer" {
		val = enc([]interface{}{a.nonce, a.balance, a.root, a.code, []byte{1}})
	}
	key := RandBytes(rnd, 32)
	n := []int{0, 1, 5, 30}[rnd.Intn(4)]
	w, _ := trieWith(rnd, d, key, val, n, func() []byte { return mkAcct(rnd, "plain").rlp() }, 228, 544)
	b := a
	other := func(x int) int { return (x + 1 + rnd.Intn(15)) % 16 }
	flip := func(x []byte) []byte {
		y := append([]byte{}, x...)
		y[rnd.Intn(len(y))] ^= byte(1 + rnd.Intn(255))
		return y
	}
	switch s.Tamper {
	case "nonce":
		b.nonce ^= 1 << rnd.Intn(6)
	case "balance":
		b.balance = new(big.Int).Add(a.balance, big.NewInt(int64(1+rnd.Intn(100))))
	case "root":
		b.root = flip(a.root)
	case "code":
		b.code = flip(a.code)
	case "address":
		p := rnd.Intn(64)
		w.key[p] = other(w.key[p])
	case "state":
		p := rnd.Intn(64)
		w.root[p] = other(w.root[p])
	case "other": // the account of another address
		w2, _ := trieWith(rnd, d, key, mkAcct(rnd, "plain").rlp(), n, func() []byte { return mkAcct(rnd, "plain").rlp() }, 228, 544)
		w2.root = w.root
		w = w2
	}
	if s.Tamper == "nonce" || s.Tamper == "balance" || s.Tamper == "root" || s.Tamper == "code" {
		w.val = padVal(b.rlp(), 228)
	}
	w.note = s.Tamper
	r.Add(w.accountEvent(s.Tamper == "none"))
}

func slotVal(rnd *rand.Rand, kind string) []byte {
	switch kind {
	case "one":
		return []byte{1}
	case "b7f":
		return []byte{0x7f}
	case "b80":
		return []byte{0x80}
	case "two":
		return append([]byte{byte(1 + rnd.Intn(255))}, RandBytes(rnd, 1)...)
	case "odd31":
		return append([]byte{byte(1 + rnd.Intn(15))}, RandBytes(rnd, 30)...)
	case "full31":
		return append([]byte{byte(16 + rnd.Intn(239))}, RandBytes(rnd, 30)...)
	case "full32":
		return append([]byte{byte(1 + rnd.Intn(15))}, RandBytes(rnd, 31)...)
	case "top":
		return append([]byte{byte(128 + rnd.Intn(127))}, RandBytes(rnd, 31)...)
	}
	return append([]byte{byte(1 + rnd.Intn(255))}, make([]byte, []int{1, 2, 7, 29, 30, 31}[rnd.Intn(6)])...)
}
func nibN(b *big.Int, n int) []int {
	s := b.Text(16)
	for len(s) < n {
		s = "0" + s
	}
	out := make([]int, len(s))
	for i := range s {
		x, _ := new(big.Int).SetString(s[i:i+1], 16)
		out[i] = int(x.Int64())
	}
	return out
}
func (w *wit) storageEvent(honest bool) Ev {
	acc, o, _ := Solve(fes(w.ins()), func(api API, v []V) []V {
		x := w.take(&taker{v: v})
		var key [64]V
		copy(key[:], x.key)
		var val [66]V
		copy(val[:], x.val)
		r := mpt.CheckEthStorageProof(api, w.maxDepth, x.root, key, val, x.starts, x.last, x.lastR, x.lastP, x.nodes, x.rounds, x.plens, x.types, x.depth)
		return []V{r.Output, r.ValueLength, r.SlotValue[0], r.SlotValue[1]}
	})
	e := Ev{"op": "storage", "honest": B(honest), "key": w.key, "val": w.val, "root": w.root, "acc": B(acc), "out": 0, "note": w.note}
	if acc {
		e["out"], e["vl"], e["lo"], e["hi"] = Small(o[:1])[0], Small(o[1:2])[0], nibN(o[2], 62), nibN(o[3], 2)
	}
	return e
}
func storage(r *Rec, d *db, s ethScen) {
	rnd := r.Rnd
	val := encStr(slotVal(rnd, s.Kind))
	if s.Tamper == "absent" {
		val = nil
	}
	key := RandBytes(rnd, 32)
	n := []int{0, 1, 5, 30}[rnd.Intn(4)]
	if val == nil {
		n++
	}
	gen := func() []byte { return encStr(append([]byte{1}, RandBytes(rnd, 31)...)) }
	w, _ := trieWith(rnd, d, key, val, n, gen, 66, nodeSize)
	honest := s.Tamper == "none" || s.Tamper == "absent"
	other := func(x int) int { return (x + 1 + rnd.Intn(15)) % 16 }
	switch s.Tamper {
	case "value":
		p := rnd.Intn(len(Nib(val)))
		w.val[p] = other(w.val[p])
	case "tail": // what lies behind the value must not matter
		for p := len(Nib(val)); p < 66; p++ {
			w.val[p] = rnd.Intn(16)
		}
		honest = true
	case "slot":
		p := rnd.Intn(64)
		w.key[p] = other(w.key[p])
	case "root":
		p := rnd.Intn(64)
		w.root[p] = other(w.root[p])
	case "shift": // the number, moved by a nibble or a byte
		x := Nib(val)
		w.val = padVal(fromNib(append([]int{0, 0}, x...)), 66)
	case "header": // another length
		w.val[rnd.Intn(2)] ^= 1
	}
	w.note = s.Tamper
	r.Add(w.storageEvent(honest))
}

func mkHeader(rnd *rand.Rand, kind string, stateRoot []byte) []byte {
	h := func() common.Hash { return common.BytesToHash(RandBytes(rnd, 32)) }
	x := &types.Header{ParentHash: h(), UncleHash: h(), Coinbase: common.BytesToAddress(RandBytes(rnd, 20)), Root: h(), TxHash: h(), ReceiptHash: h(),
		Bloom: types.BytesToBloom(RandBytes(rnd, 256)), Difficulty: big.NewInt(rnd.Int63n(1 << 50)), Number: big.NewInt(1 + rnd.Int63n(1<<31)),
		GasLimit: uint64(30000000), GasUsed: uint64(rnd.Intn(30000000)), Time: uint64(1438269988 + rnd.Intn(400000000)),
		Extra: RandBytes(rnd, rnd.Intn(33)), MixDigest: h(), Nonce: types.EncodeNonce(rnd.Uint64())}
	if stateRoot != nil {
		x.Root = common.BytesToHash(stateRoot)
	}
	london := func() { x.BaseFee = big.NewInt(rnd.Int63n(1 << 40)); x.Difficulty = big.NewInt(0) }
	switch kind {
	case "london", "extra32", "extra97", "plain":
		london()
	case "shanghai", "big", "fork":
		london()
		w := h()
		x.WithdrawalsHash = &w
	case "cancun":
		london()
		w, b := h(), h()
		g, e := uint64(131072), uint64(rnd.Intn(1<<20))
		x.WithdrawalsHash, x.BlobGasUsed, x.ExcessBlobGas, x.ParentBeaconRoot = &w, &g, &e, &b
	}
	switch kind {
	case "small":
		x.Number, x.GasUsed, x.Difficulty, x.Extra = big.NewInt(int64([]int{0, 1, 127, 128, 255, 256}[rnd.Intn(6)])), 0, big.NewInt(0), nil
	case "extra32":
		x.Extra = RandBytes(rnd, 32)
	case "extra97":
		x.Extra = RandBytes(rnd, 97)
	case "big":
		x.Extra = RandBytes(rnd, 400)
	}
	return enc(x)
}

const headSize = mpt.EthBlockHeadMaxBlockHexSize

func header(r *Rec, s ethScen) {
	rnd := r.Rnd
	raw := mkHeader(rnd, s.Kind, nil)
	x, rest, _ := item(raw)
	nf := 0
	for len(x) > 0 {
		_, x, _ = item(x)
		nf++
	}
	_ = rest
	rlp, round := pad(raw, headSize)
	other := func(x int) int { return (x + 1 + rnd.Intn(15)) % 16 }
	switch s.Tamper {
	case "state":
		p := 6 + 2*(33*2+21+1) + rnd.Intn(64)
		rlp[p] = other(rlp[p])
	case "number", "time":
		p := 2 * (3 + 33*2 + 21 + 33*3 + 259 + rnd.Intn(20))
		rlp[p+rnd.Intn(2)] = rnd.Intn(16)
	case "bloom":
		p := 2*(3+33*2+21+33*3) + rnd.Intn(500)
		rlp[p] = other(rlp[p])
	case "nf-":
		nf--
	case "nf+":
		nf++
	case "round":
		round = []int{0, 1, 2, 5, 6, 7}[rnd.Intn(6)]
	case "len":
		rlp[5] = other(rlp[5])
	case "cut":
		rlp, round = pad(raw[:len(raw)-1-rnd.Intn(10)], headSize)
	}
	in := append(append([]int{}, rlp...), nf, round)
	acc, o, _ := Solve(fes([][]int{in}), func(api API, v []V) []V {
		var b [headSize]V
		copy(b[:], v)
		x := mpt.CheckEthBlockHash(api, b, v[headSize], v[headSize+1])
		out := []V{x.Output, x.BlockNumberLength}
		out = append(out, x.BlockHash[:]...)
		out = append(out, x.BlockNumber[:]...)
		out = append(out, x.BlockTime[:]...)
		out = append(out, x.StateRoot[:]...)
		out = append(out, x.TransactionsRoot[:]...)
		return append(out, x.ReceiptsRoot[:]...)
	})
	e := Ev{"op": "header", "honest": B(s.Tamper == "none"), "raw": Nib(raw), "rlp": rlp, "round": round, "nf": nf, "acc": B(acc), "out": 0}
	if acc {
		m := Small(o)
		e["out"], e["nl"], e["hash"], e["num"], e["time"], e["sr"], e["tr"], e["rr"] = m[0], m[1], m[2:66], m[66:74], m[74:82], m[82:146], m[146:210], m[210:274]
	}
	r.Add(e)
}

func full(r *Rec, d *db, s ethScen) {
	rnd := r.Rnd
	other := func(x int) int { return (x + 1 + rnd.Intn(15)) % 16 }
	// storage, account, header, inside out
	slot := RandBytes(rnd, 32)
	var sv []byte
	if rnd.Intn(3) > 0 {
		sv = encStr(slotVal(rnd, []string{"one", "two", "full32", "b80", "top"}[rnd.Intn(5)]))
	}
	gen := func() []byte { return encStr(append([]byte{1}, RandBytes(rnd, 31)...)) }
	ws, sroot := trieWith(rnd, d, slot, sv, 1+rnd.Intn(20), gen, 66, nodeSize)
	addr := RandBytes(rnd, 32)
	ac := mkAcct(rnd, []string{"plain", "contract", "fresh"}[rnd.Intn(3)])
	ac.root = sroot
	wa, aroot := trieWith(rnd, d, addr, ac.rlp(), 1+rnd.Intn(20), func() []byte { return mkAcct(rnd, "plain").rlp() }, 228, 544)
	raw := mkHeader(rnd, s.Kind, aroot)
	nf := map[string]int{"plain": 16, "fork": 17, "cancun": 20}[s.Kind]
	rlp, round := pad(raw, headSize)
	hash := Nib(kk(raw))
	switch s.Tamper {
	case "hash":
		p := rnd.Intn(64)
		hash[p] = other(hash[p])
	case "header":
		p := []int{2 * (3 + 33 + 5), 2 * (3 + 33*2 + 21 + 5), 2 * (3 + 33*2 + 21 + 33*3 + 259 + 4)}[rnd.Intn(3)] + 1
		rlp[p] = other(rlp[p])
	case "account": // another storage root in the account, not hashed in
		b := ac
		_, b.root = trieWith(rnd, d, slot, encStr([]byte{9, 9, 9}), 2, gen, 66, nodeSize)
		wa.val = padVal(b.rlp(), 228)
	case "storage": // a storage trie of its own
		ws, _ = trieWith(rnd, d, slot, encStr([]byte{9, 9, 9}), 2, gen, 66, nodeSize)
	case "slot":
		p := rnd.Intn(64)
		ws.key[p] = other(ws.key[p])
	case "address":
		p := rnd.Intn(64)
		wa.key[p] = other(wa.key[p])
	case "value":
		ws.val = padVal([]byte{7}, 66)
	case "otherstate": // the account proof is for another state
		w2, _ := trieWith(rnd, d, addr, ac.rlp(), 3, func() []byte { return mkAcct(rnd, "plain").rlp() }, 228, 544)
		wa = w2
	case "otherroot": // account of another storage in its own state
		b := ac
		ws, b.root = trieWith(rnd, d, slot, encStr([]byte{9, 9, 9}), 2, gen, 66, nodeSize)
		wa, _ = trieWith(rnd, d, addr, b.rlp(), 3, func() []byte { return mkAcct(rnd, "plain").rlp() }, 228, 544)
	}
	ins := append(append(wa.ins(), ws.ins()...), hash, rlp, []int{nf, round})
	acc, o, _ := Solve(fes(ins), func(api API, v []V) []V {
		t := &taker{v: v}
		a, b := wa.take(t), ws.take(t)
		var hash, ak, sk [64]V
		copy(ak[:], a.key)
		copy(sk[:], b.key)
		copy(hash[:], t.n(64))
		var rl [headSize]V
		copy(rl[:], t.n(headSize))
		nf, rd := t.one(), t.one()
		var av [228]V
		copy(av[:], a.val)
		var sv [66]V
		copy(sv[:], b.val)
		var rounds [mpt.AccountMPTMaxDepth - 1]V
		for i := range rounds {
			rounds[i] = 0
		}
		copy(rounds[:], a.rounds)
		x := mpt.CheckEthAddressStorageProof(api, wa.maxDepth, ws.maxDepth, hash, nf, rd, ak, sk, rl, a.starts, av, a.last, a.lastR, a.lastP, a.nodes, rounds,
			a.plens, a.types, a.depth, b.starts, sv, b.last, b.lastR, b.lastP, b.nodes, b.rounds, b.plens, b.types, b.depth)
		return []V{x.Output, x.BlockNumber, x.SlotValue[0], x.SlotValue[1]}
	})
	e := Ev{"op": "full", "honest": B(s.Tamper == "none"), "hash": hash, "rlp": rlp, "round": round, "addr": wa.key, "slot": ws.key, "acc": B(acc), "out": 0, "note": s.Tamper}
	if acc {
		e["out"], e["number"], e["lo"], e["hi"] = Small(o[:1])[0], nibN(o[1], 8), nibN(o[2], 62), nibN(o[3], 2)
	}
	r.Add(e)
}
