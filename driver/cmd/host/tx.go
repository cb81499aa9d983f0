package main

import (
	"bytes"
	"crypto/ecdsa"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"

	"github.com/brevis-network/zk-utils/common/proof"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/trie"
	"github.com/holiman/uint256"

	. "verifdriver/h"
)

type txs struct {
	G string `json:"g"`
	X struct {
		T, C, To, D, L, A, K string
		N                    int
	} `json:"x"`
	Rep int `json:"rep"`
}

func pick(r *rand.Rand, s string, of ...string) string {
	if s == "any" {
		return of[r.Intn(len(of))]
	}
	return s
}

// raw is a transaction that can be put together with any signature.
type raw struct {
	typ             int
	chain           *big.Int
	nonce, gas      uint64
	tip, fee, value *big.Int
	to              *common.Address
	data            []byte
	al              types.AccessList
	v, r, s         *big.Int
}

func (t *raw) tx() *types.Transaction {
	switch t.typ {
	case 0:
		return types.NewTx(&types.LegacyTx{Nonce: t.nonce, GasPrice: t.fee, Gas: t.gas, To: t.to, Value: t.value, Data: t.data, V: t.v, R: t.r, S: t.s})
	case 1:
		return types.NewTx(&types.AccessListTx{ChainID: t.chain, Nonce: t.nonce, GasPrice: t.fee, Gas: t.gas, To: t.to, Value: t.value, Data: t.data, AccessList: t.al, V: t.v, R: t.r, S: t.s})
	case 3:
		u := uint256.MustFromBig
		to := common.Address{}
		if t.to != nil {
			to = *t.to
		}
		return types.NewTx(&types.BlobTx{ChainID: u(t.chain), Nonce: t.nonce, GasTipCap: u(t.tip), GasFeeCap: u(t.fee), Gas: t.gas, To: to, Value: u(t.value), Data: t.data, AccessList: t.al, BlobFeeCap: u(bi(1)), BlobHashes: []common.Hash{{1}}, V: u(t.v), R: u(t.r), S: u(t.s)})
	}
	return types.NewTx(&types.DynamicFeeTx{ChainID: t.chain, Nonce: t.nonce, GasTipCap: t.tip, GasFeeCap: t.fee, Gas: t.gas, To: t.to, Value: t.value, Data: t.data, AccessList: t.al, V: t.v, R: t.r, S: t.s})
}
func (t *raw) ev() Ev {
	to := []int{}
	if t.to != nil {
		to = Bytes(t.to[:])
	}
	al := []Ev{}
	for _, a := range t.al {
		al = append(al, Ev{"a": Bytes(a.Address[:]), "k": mapInts(a.StorageKeys, func(h common.Hash) []int { return Bytes(h[:]) })})
	}
	u := func(x uint64) []int { return Dig(new(big.Int).SetUint64(x)) }
	return Ev{"type": t.typ, "chain": Dig(t.chain), "nonce": u(t.nonce), "gas": u(t.gas), "tip": Dig(t.tip), "fee": Dig(t.fee), "value": Dig(t.value),
		"to": to, "data": Bytes(t.data), "al": al, "v": Dig(t.v), "r": Dig(t.r), "s": Dig(t.s)}
}

func mkRaw(rnd *rand.Rand, typ, chain, to, data, list string) *raw {
	t := &raw{nonce: val(rnd, 64).Uint64(), gas: val(rnd, 64).Uint64(), tip: val(rnd, 256), fee: val(rnd, 256), value: val(rnd, 256), v: bi(0), r: bi(0), s: bi(0)}
	t.typ = map[string]int{"legacy": 0, "bare": 0, "access": 1, "dynamic": 2, "blob": 3}[typ]
	switch pick(rnd, chain, "zero", "one", "small", "word", "edge", "wide") {
	case "zero":
		t.chain = bi(0)
	case "one":
		t.chain = bi(1)
	case "small":
		t.chain = []*big.Int{bi(10), bi(56), bi(137), bi(42161), bi(110), bi(111)}[rnd.Intn(6)]
	case "word":
		t.chain = RandBig(rnd, 33+rnd.Intn(29))
	case "edge": // around the widths of words
		t.chain = new(big.Int).Add(pow2([]int{31, 32, 62, 63, 64}[rnd.Intn(5)]), bi(rnd.Intn(40)-20))
	case "wide":
		t.chain = RandBig(rnd, 65+rnd.Intn(180))
	}
	switch pick(rnd, to, "some", "none", "zeros") {
	case "some":
		a := common.BytesToAddress(RandBytes(rnd, 20))
		t.to = &a
	case "zeros":
		a := common.BytesToAddress(RandBytes(rnd, rnd.Intn(5)))
		t.to = &a
	}
	switch pick(rnd, data, "empty", "b7f", "b80", "d55", "d56", "d300") {
	case "b7f":
		t.data = []byte{byte(rnd.Intn(128))}
	case "b80":
		t.data = []byte{0x80 + byte(rnd.Intn(128))}
	case "d55":
		t.data = RandBytes(rnd, 55)
	case "d56":
		t.data = RandBytes(rnd, 56)
	case "d300":
		t.data = RandBytes(rnd, 250+rnd.Intn(100))
	}
	if t.typ != 0 {
		switch pick(rnd, list, "none", "bare", "keys") {
		case "bare":
			t.al = types.AccessList{{Address: common.BytesToAddress(RandBytes(rnd, 20))}}
		case "keys":
			for i := 0; i <= rnd.Intn(3); i++ {
				a := types.AccessTuple{Address: common.BytesToAddress(RandBytes(rnd, 20))}
				for j := 0; j <= rnd.Intn(3); j++ {
					a.StorageKeys = append(a.StorageKeys, common.BytesToHash(RandBytes(rnd, 32)))
				}
				t.al = append(t.al, a)
			}
		}
	}
	return t
}

// sign signs the way a wallet does, with the library's own signers.
func (t *raw) sign(k *ecdsa.PrivateKey, bare bool) {
	var sg types.Signer = types.NewCancunSigner(t.chain)
	if t.typ == 0 {
		sg = types.NewEIP155Signer(t.chain)
	}
	if bare {
		sg = types.HomesteadSigner{}
	}
	x, err := types.SignTx(t.tx(), sg, k)
	if err != nil {
		panic(err)
	}
	t.v, t.r, t.s = x.RawSignatureValues()
}

func key(rnd *rand.Rand) *ecdsa.PrivateKey {
	for {
		d := RandBig(rnd, 256)
		if rnd.Intn(6) == 0 {
			d = bi(1 + rnd.Intn(3))
		}
		if k, err := crypto.ToECDSA(lpad(d.Bytes(), 32)); err == nil {
			return k
		}
	}
}

func (t *raw) alter(rnd *rand.Rand, what string) (altered bool) {
	n := crypto.S256().Params().N
	one := bi(1)
	add := func(x *big.Int) *big.Int { return new(big.Int).Add(x, one) }
	switch what {
	case "chain":
		if t.typ == 0 { // the legacy value names the chain; the parity stays
			t.v = new(big.Int).Add(t.v, bi(2*(1+rnd.Intn(3))))
		} else {
			t.chain = add(t.chain)
		}
		return true
	case "nonce":
		t.nonce++
		return true
	case "tip":
		t.tip = new(big.Int).Xor(t.tip, one)
		return t.typ == 2
	case "fee":
		t.fee = new(big.Int).Xor(t.fee, pow2(rnd.Intn(200)))
		return true
	case "gas":
		t.gas ^= 1 << rnd.Intn(64)
		return true
	case "to":
		if t.to == nil {
			t.to = &common.Address{}
		} else if rnd.Intn(2) == 0 {
			t.to = nil
		} else {
			a := *t.to
			a[rnd.Intn(20)] ^= 1
			t.to = &a
		}
		return true
	case "value":
		t.value = new(big.Int).Xor(t.value, pow2(rnd.Intn(200)))
		return true
	case "data":
		t.data = append(append([]byte{}, t.data...), 0)
		return true
	case "list":
		t.al = append(t.al, types.AccessTuple{})
		return t.typ == 2
	case "r0":
		t.r = bi(0)
	case "s0":
		t.s = bi(0)
	case "r+1":
		t.r = add(t.r)
	case "s+1":
		t.s = add(t.s)
	case "rn":
		t.r = n
	case "sn":
		t.s = new(big.Int).Add(n, bi(rnd.Intn(2)))
	case "high", "flip":
		if what == "high" {
			t.s = new(big.Int).Sub(n, t.s)
		}
		if t.typ == 0 { // 35 and 36, 37 and 38, ...
			if t.v.Bit(0) == 1 {
				t.v = add(t.v)
			} else {
				t.v = new(big.Int).Sub(t.v, one)
			}
		} else {
			t.v = new(big.Int).Sub(one, t.v)
		}
		return what == "flip"
	case "v2", "v3", "v4", "v257":
		if t.typ != 0 {
			t.v = map[string]*big.Int{"v2": bi(2), "v3": bi(3), "v4": bi(4), "v257": bi(256 + rnd.Intn(2))}[what]
		}
	case "rwide":
		t.r = new(big.Int).Add(t.r, pow2(256))
	case "swide":
		t.s = new(big.Int).Add(t.s, pow2(256))
	case "vsmall":
		if t.typ == 0 {
			t.v = bi([]int{0, 1, 27, 28, 29, 33, 34}[rnd.Intn(7)])
		}
	}
	return false
}

func c23(c *Ctx) {
	for i, rw := range c.Scen {
		var s txs
		if err := json.Unmarshal(rw, &s); err != nil {
			panic(err)
		}
		x := s.X
		c.Add("tx", fmt.Sprintf("tx-%s-%s-%s-%s-%s-%s-%d", x.T, x.C, x.To, x.D, x.L, x.A, i), func(r *Rec) {
			t := mkRaw(r.Rnd, x.T, x.C, x.To, x.D, x.L)
			k := key(r.Rnd)
			t.sign(k, x.T == "bare")
			altered := t.alter(r.Rnd, x.A)
			var out, ad []byte
			u, _ := Try(func() (err error) { out, err = proof.PrepareUnsignedTransactionRlp(t.tx()); return })
			g, _ := Try(func() (err error) { ad, err = proof.RecoverTransactionSignerAddress(t.tx()); return })
			r.Add(Ev{"op": "unsigned", "tx": t.ev(), "acc": B(u == "ok"), "out": Bytes(out)})
			r.Add(Ev{"op": "signer", "tx": t.ev(), "acc": B(g == "ok"), "out": Bytes(ad), "d": Dig(k.D), "honest": B(x.A == "none"), "altered": B(altered)})
		})
	}
}

// ---- C24 ----
func mkReceipt(rnd *rand.Rand, i int, k string) *types.Receipt {
	rc := &types.Receipt{Type: uint8(rnd.Intn(4)), CumulativeGasUsed: val(rnd, 64).Uint64(), Status: uint64(rnd.Intn(2)), TransactionIndex: uint(i)}
	if rnd.Intn(8) == 0 {
		rc.Type, rc.PostState = 0, RandBytes(rnd, 32)
	}
	if rnd.Intn(5) == 0 {
		rc.Type = 0
	}
	for n := rnd.Intn(4); n > 0; n-- {
		l := &types.Log{Address: common.BytesToAddress(RandBytes(rnd, 20)), Data: RandBytes(rnd, []int{0, 1, 32, 55, 56, 100}[rnd.Intn(6)])}
		for m := rnd.Intn(5); m > 0; m-- {
			l.Topics = append(l.Topics, common.BytesToHash(RandBytes(rnd, 32)))
		}
		rc.Logs = append(rc.Logs, l)
	}
	rc.Bloom = types.CreateBloom(types.Receipts{rc})
	return rc
}
func rcptEv(rc *types.Receipt) Ev {
	st := []byte{}
	if rc.Status == 1 {
		st = []byte{1}
	}
	if len(rc.PostState) > 0 {
		st = rc.PostState
	}
	logs := []Ev{}
	for _, l := range rc.Logs {
		logs = append(logs, Ev{"a": Bytes(l.Address[:]), "t": mapInts(l.Topics, func(h common.Hash) []int { return Bytes(h[:]) }), "d": Bytes(l.Data)})
	}
	return Ev{"type": int(rc.Type), "status": Bytes(st), "gas": Dig(new(big.Int).SetUint64(rc.CumulativeGasUsed)), "bloom": Bytes(rc.Bloom[:]), "logs": logs}
}

func c24(c *Ctx) {
	for i, rw := range c.Scen {
		var s txs
		if err := json.Unmarshal(rw, &s); err != nil {
			panic(err)
		}
		x := s.X
		c.Add("block", fmt.Sprintf("block-%s-%d-%s-%d", x.K, x.N, x.A, i), func(r *Rec) { block(c, r, x.K, x.N, x.A) })
	}
	c.Add("nil", "nil-receipt", func(r *Rec) {
		res, _ := Try(func() error { _, err := proof.GetReceiptRaw(nil); return err })
		r.Add(Ev{"op": "refused", "acc": B(res == "ok")})
	})
}

func block(c *Ctx, r *Rec, kind string, n int, tamper string) {
	rnd := r.Rnd
	var list []*types.Transaction
	var raws []*raw
	var rcs types.Receipts
	k := key(rnd)
	one := func(i int) {
		if kind == "tx" {
			t := mkRaw(rnd, []string{"legacy", "dynamic", "access", "bare"}[rnd.Intn(4)], "any", "any", "any", "any")
			t.sign(k, t.typ == 0 && rnd.Intn(2) == 0)
			raws = append(raws, t)
			list = append(list, t.tx())
		} else {
			rcs = append(rcs, mkReceipt(rnd, i, ""))
		}
	}
	for i := 0; i < n; i++ {
		one(i)
	}
	head := func() *types.Header {
		h := &types.Header{Number: bi(rnd.Intn(1 << 30)), Difficulty: bi(0), TxHash: types.EmptyTxsHash, ReceiptHash: types.EmptyReceiptsHash}
		if len(list) > 0 {
			h.TxHash = types.DeriveSha(types.Transactions(list), trie.NewStackTrie(nil))
		}
		if len(rcs) > 0 {
			h.ReceiptHash = types.DeriveSha(rcs, trie.NewStackTrie(nil))
		}
		return h
	}()
	at := []int{}
	for _, i := range []int{0, 1, n / 2, 15, 16, 126, 127, 128, 129, 255, 256, n - 2, n - 1} {
		if i >= 0 && i < n {
			at = append(at, i)
		}
	}
	if n > 0 {
		at = append(at, rnd.Intn(n))
	}
	switch tamper {
	case "root":
		head.TxHash[rnd.Intn(32)] ^= 1
		head.ReceiptHash[rnd.Intn(32)] ^= 1
	case "drop":
		if kind == "tx" {
			list, raws = list[:n-1], raws[:n-1]
		} else {
			rcs = rcs[:n-1]
		}
	case "extra":
		one(n)
	case "swap":
		i, j := 0, n-1
		if kind == "tx" {
			list[i], list[j], raws[i], raws[j] = list[j], list[i], raws[j], raws[i]
		} else {
			rcs[i], rcs[j] = rcs[j], rcs[i]
		}
	case "field":
		i := rnd.Intn(n)
		if kind == "tx" {
			raws[i].nonce ^= 1
			list[i] = raws[i].tx()
		} else {
			rcs[i].CumulativeGasUsed ^= 1
		}
	case "past":
		at = []int{n, n + 1}
	case "far":
		at = []int{n + 127, n + 128, 1 << 20, 1<<30 + rnd.Intn(1<<30)}
	case "negative":
		at = []int{-1, -128, -1 << 30}
	}
	bk := types.NewBlockWithHeader(head)
	ents := [][]int{}
	if kind == "tx" {
		bk = bk.WithBody(types.Body{Transactions: list})
		for _, t := range list {
			b, err := t.MarshalBinary()
			if err != nil {
				panic(err)
			}
			ents = append(ents, Bytes(b))
		}
	} else {
		for i := range rcs {
			var b bytes.Buffer
			rcs.EncodeIndex(i, &b)
			ents = append(ents, Bytes(b.Bytes()))
		}
	}
	r.Hdr["entries"] = ents
	for _, i := range at {
		var nodes [][]byte
		var key, pre []byte
		var res string
		root := head.TxHash
		if kind == "tx" {
			res, _ = Try(func() (err error) { nodes, key, pre, err = proof.GetTransactionProof(bk, i); return })
		} else {
			root = head.ReceiptHash
			res, _ = Try(func() (err error) { nodes, key, pre, err = proof.GetReceiptProof(bk, rcs, i); return })
		}
		r.Add(Ev{"op": "proof", "i": i, "root": Bytes(root[:]), "acc": B(res == "ok"), "nodes": mapInts(nodes, Bytes), "key": Bytes(key), "prefix": Bytes(pre)})
		if i < 0 || i >= len(ents) {
			continue
		}
		if kind == "tx" {
			r.Add(Ev{"op": "entry", "kind": "tx", "i": i, "acc": 1, "out": ents[i], "v": raws[i].ev()})
		} else {
			var b []byte
			rc := *rcs[i]
			rc.TransactionIndex = uint(i)
			res, _ := Try(func() (err error) { b, err = proof.GetReceiptRaw(&rc); return })
			r.Add(Ev{"op": "entry", "kind": "rcpt", "i": i, "acc": B(res == "ok"), "out": Bytes(b), "v": rcptEv(rcs[i])})
		}
	}
}
