package main

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"strings"
	"time"

	"github.com/brevis-network/zk-utils/common/proof"
	"github.com/brevis-network/zk-utils/common/utils"
	"github.com/consensys/gnark-crypto/ecc"
	fr_377 "github.com/consensys/gnark-crypto/ecc/bls12-377/fr"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	fp254 "github.com/consensys/gnark-crypto/ecc/bn254/fp"
	fr_761 "github.com/consensys/gnark-crypto/ecc/bw6-761/fr"
	groth16_bn254 "github.com/consensys/gnark/backend/groth16/bn254"
	"github.com/consensys/gnark/std/algebra/native/sw_bls12377"
	"github.com/consensys/gnark/std/commitments/kzg"
	"github.com/consensys/gnark/std/math/emulated"
	replonk "github.com/consensys/gnark/std/recursion/plonk"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/rlp"

	. "verifdriver/h"
)

func rlpSize(h types.Header) int {
	b, err := rlp.EncodeToBytes(&h)
	if err != nil {
		panic(err)
	}
	return len(b)
}

// ---- C32 ----
// hexText writes bytes as hex in one of the accepted ways
func hexText(r *rand.Rand, b []byte) string {
	s := hex.EncodeToString(b)
	if r.Intn(3) == 0 && len(s) > 0 && s[0] == '0' {
		s = s[1:]
	}
	switch r.Intn(3) {
	case 0:
		s = strings.ToUpper(s)
	case 1:
		q := []byte(s)
		for i := range q {
			if r.Intn(2) == 0 {
				q[i] = strings.ToUpper(string(q[i]))[0]
			}
		}
		s = string(q)
	}
	return []string{"", "0x", "0X", "0x"}[r.Intn(4)] + s
}
func someBytes(r *rand.Rand, n int) []byte {
	b := RandBytes(r, n)
	switch r.Intn(4) {
	case 0:
		for i := 0; i < len(b) && i < 1+r.Intn(3); i++ {
			b[i] = 0
		}
	case 1:
		for i := range b {
			b[i] = []byte{0, 0x0f, 0xf0, 0xff}[r.Intn(4)]
		}
	}
	return b
}
func c32(c *Ctx) {
	lens := []int{0, 1, 2, 19, 20, 21, 31, 32, 33, 40, 64}
	for i := 0; i < c.N(60, 1500); i++ {
		c.Add("hex", fmt.Sprintf("hex-%d", i), func(r *Rec) {
			n := lens[i%len(lens)]
			b := someBytes(r.Rnd, n)
			s := hexText(r.Rnd, b)
			do := func(fn string, in []byte, f func() []int) {
				keep := append([]byte(nil), in...)
				var out []int
				res, _ := Try(func() error { out = f(); return nil })
				if out == nil {
					out = []int{}
				}
				r.Add(Ev{"op": "hex", "fn": fn, "s": Bytes(keep), "acc": B(res == "ok"), "out": out, "kept": B(string(keep) == string(in))})
			}
			t := []byte(s)
			do("hex2bytes", t, func() []int { return Bytes(utils.Hex2Bytes(s)) })
			do("hex2addr", t, func() []int { a := utils.Hex2Addr(s); return Bytes(a[:]) })
			do("formataddr", t, func() []int { return asc(utils.FormatAddrHex(s)) })
			do("hex2hash", t, func() []int { a := utils.Hex2Hash(s); return Bytes(a[:]) })
			do("hex2big", t, func() []int { return Dig(utils.Hex2BigInt(s)) })
			do("slot", t, func() []int { return Bytes(proof.GetPaddedSlotBytes(s)) })
			do("bytes2hex", b, func() []int { return asc(utils.Bytes2Hex(b)) })
			do("bytes2hex0x", b, func() []int { return asc(utils.Bytes2Hex0x(b)) })
			do("bytes2addr", b, func() []int { a := utils.Bytes2Addr(b); return Bytes(a[:]) })
			do("bytes2addrhex", b, func() []int { return asc(utils.Bytes2AddrHex(b)) })
			do("bytes2addrhex0x", b, func() []int { return asc(utils.Bytes2AddrHex0x(b)) })
			do("bytes2hash", b, func() []int { a := utils.Bytes2Hash(b); return Bytes(a[:]) })
			do("pad20", b, func() []int { return Bytes(utils.Pad20Bytes(b)) })
			do("pad32", b, func() []int { return Bytes(utils.Pad32Bytes(b)) })
			var a common.Address
			rbytes(r.Rnd, a[:])
			if i%5 == 0 {
				a[0], a[1] = 0, 0
			}
			do("addr2hex", a[:], func() []int { return asc(utils.Addr2Hex(a)) })
			do("addr2hex0x", a[:], func() []int { return asc(utils.Addr2Hex0x(a)) })
			for _, v := range []string{s, utils.Bytes2Hex(b), utils.Bytes2Hex0x(b)} {
				r.Add(Ev{"op": "valid", "s": asc(v), "out": B(utils.IsValidTxHash(v))})
			}
		})
	}
	c.Add("valid", "valid-hash", func(r *Rec) {
		h := strings.Repeat("aB", 32)
		for _, v := range []string{"", "0x", "0", "x", h, "0x" + h, "0X" + h, h[1:], "0x" + h[1:], h + "0", "0x" + h + "00", "0x" + h[2:], "g" + h[1:], h[:63] + "g", "0x" + h[:63] + "G",
			h[:10] + " " + h[11:], h[:10] + "/" + h[11:], h[:10] + ":" + h[11:], h[:10] + "@" + h[11:], h[:10] + "`" + h[11:], "0x0x" + h, "0x0x" + h[4:], "x" + h, h + "\x00", h[:63] + "é", "0x" + h + " ", "0xaB" + h[2:], "0x" + h[:62]} {
			r.Add(Ev{"op": "valid", "s": asc(v), "out": B(utils.IsValidTxHash(v))})
		}
		for x := 0; x < 256; x++ {
			v := h[:20] + string([]byte{byte(x)}) + h[21:]
			r.Add(Ev{"op": "valid", "s": asc(v), "out": B(utils.IsValidTxHash(v))})
		}
	})
	for i := 0; i < c.N(30, 500); i++ {
		c.Add("list", fmt.Sprintf("list-%d", i), func(r *Rec) {
			n := []int{0, 1, 2, 3, 5, 8}[i%6]
			bs := make([][]byte, n)
			ss := make([]string, n)
			for j := range bs {
				bs[j] = someBytes(r.Rnd, lens[r.Rnd.Intn(len(lens))])
				ss[j] = hexText(r.Rnd, bs[j])
			}
			emit := func(fn string, q, out any) { r.Add(Ev{"op": "list", "fn": fn, "q": q, "out": out}) }
			emit("hexes2hashes", ascs(ss), mapInts(utils.ArrayHex2Hash(ss), func(h [32]byte) []int { return Bytes(h[:]) }))
			emit("bytes2hexes", mapInts(bs, Bytes), ascs(utils.ArrayBytes2Hex0x(bs)))
			emit("strings2bytes", ascs(ss), mapInts(utils.Strings2bytes(ss), Bytes))
			emit("join", mapInts(bs, Bytes), asc(utils.Convert2DimensionalByteArrayToString(bs)))
			emit("reverse", mapInts(bs, Bytes), mapInts(utils.Reverse(append([][]byte(nil), bs...)), Bytes))
			emit("ids", ascs(ss), func() [][]int {
				q := &proof.SDKQueryProvingInfo{}
				a, b := r.Rnd.Intn(n+1), 0
				b = a + r.Rnd.Intn(n-a+1)
				for j, s := range ss {
					switch {
					case j < a:
						q.ReceiptInfos = append(q.ReceiptInfos, &proof.SDKQueryProvingInfoForReceipt{TransactionHash: s})
					case j < b:
						q.StorageSlotInfos = append(q.StorageSlotInfos, &proof.SDKQueryProvingInfoForStorageSlot{StorageHash: s})
					default:
						q.TransactionInfos = append(q.TransactionInfos, &proof.SDKQueryProvingInfoForTransaction{TransactionHash: s})
					}
				}
				return ascs(q.GetSubProofS3Path())
			}())
			// membership
			in := 0
			for _, s := range ss {
				if s == "0xab" {
					in = 1
				}
			}
			r.Add(Ev{"op": "same", "in": in, "out": B(utils.Contains(ss, "0xab"))})
			if n > 0 {
				k := r.Rnd.Intn(n)
				r.Add(Ev{"op": "same", "in": 1, "out": B(utils.Contains(ss, ss[k]))})
				r.Add(Ev{"op": "same", "in": 0, "out": B(utils.Contains(ss, ss[k]+"!"))})
			}
			// partition by remainder
			m := 2 + r.Rnd.Intn(3)
			xs := make([]int, r.Rnd.Intn(12))
			for j := range xs {
				xs[j] = r.Rnd.Intn(20)
			}
			keys := []int{}
			for k := 0; k < m+1; k++ {
				if r.Rnd.Intn(4) != 0 {
					keys = append(keys, k)
				}
			}
			got := utils.Partition(xs, keys, func(k, v int) bool { return v%m == k })
			outs := [][]int{}
			extra := 0
			for _, k := range keys {
				if got[k] == nil {
					outs = append(outs, []int{})
				} else {
					outs = append(outs, got[k])
				}
				delete(got, k)
			}
			extra = len(got)
			r.Add(Ev{"op": "part", "q": xs, "m": m, "keys": keys, "out": outs, "extra": extra})
		})
	}
	for i := 0; i < c.N(30, 500); i++ {
		c.Add("num", fmt.Sprintf("num-%d", i), func(r *Rec) {
			emit := func(x, out *big.Int) {
				r.Add(Ev{"op": "num", "s": asc(new(big.Int).Abs(x).String()), "neg": B(x.Sign() < 0), "out": Dig(new(big.Int).Abs(out)), "oneg": B(out.Sign() < 0)})
			}
			x := val(r.Rnd, 300)
			emit(x, utils.Str2BigInt(x.String()))
			x = val(r.Rnd, 63)
			emit(x, bi(utils.Str2Int(x.String())))
			x = new(big.Int).Neg(x)
			emit(x, utils.Str2BigInt(x.String()))
			emit(x, bi(utils.Str2Int(x.String())))
			x = val(r.Rnd, 64)
			emit(x, new(big.Int).SetUint64(utils.Str2Uint64(x.String())))
			// times from 1970 to 2262
			sec, ns := r.Rnd.Int63n(9223372036), r.Rnd.Int63n(1000000000)
			if i%4 == 0 {
				ns = []int64{0, 999999, 1000000, 999999999}[r.Rnd.Intn(4)]
			}
			d := func(x int64) []int { return Dig(big.NewInt(x)) }
			r.Add(Ev{"op": "time", "fn": "milli", "sec": d(sec), "nsec": d(ns), "out": Dig(new(big.Int).SetUint64(utils.TsMilli(time.Unix(sec, ns))))})
			ms := r.Rnd.Int63n(9223372036854)
			t := utils.TsMilliToTime(uint64(ms))
			r.Add(Ev{"op": "time", "fn": "tomilli", "ms": d(ms), "osec": d(t.Unix()), "onsec": d(int64(t.Nanosecond()))})
			t = utils.TsSecToTime(uint64(sec))
			r.Add(Ev{"op": "time", "fn": "tosec", "sec": d(sec), "osec": d(t.Unix()), "onsec": d(int64(t.Nanosecond()))})
		})
	}
}

// ---- C30 ----
func word(r *rand.Rand, over bool) []byte {
	if over {
		b := RandBytes(r, 33+r.Intn(3))
		if r.Intn(2) == 0 {
			b[0] |= 1
		} else if b[0] == 0 {
			b[0] = 0x80
		}
		return b
	}
	return someBytes(r, []int{0, 1, 16, 17, 31, 32, 32, 32, 32}[r.Intn(9)])
}
func c30(c *Ctx) {
	for i := 0; i < c.N(50, 800); i++ {
		c.Add("abi", fmt.Sprintf("abi-%d", i), func(r *Rec) {
			over := -1
			if i%3 == 2 {
				over = (i / 3) % 11
			}
			co := make([][]byte, 8)
			hs := make([][]byte, 3)
			for j := range co {
				co[j] = word(r.Rnd, j == over)
			}
			for j := range hs {
				hs[j] = word(r.Rnd, 8+j == over)
			}
			t := func(b []byte) string { return hexText(r.Rnd, b) }
			start, end := val(r.Rnd, 64).Uint64(), val(r.Rnd, 64).Uint64()
			p := &proof.ChunkProof{ChunkRoot: t(hs[0]), PrevHash: t(hs[1]), EndHash: t(hs[2]), StartBlockNum: start, EndBlockNum: end,
				Proof: proof.Groth16Proof{A: [2]string{t(co[0]), t(co[1])}, B: [2][2]string{{t(co[2]), t(co[3])}, {t(co[4]), t(co[5])}}, C: [2]string{t(co[6]), t(co[7])},
					Commitment: [2]string{t(someBytes(r.Rnd, 32)), t(someBytes(r.Rnd, 32))}, CommitmentPok: [2]string{t(someBytes(r.Rnd, 32)), t(someBytes(r.Rnd, 32))}}}
			var out []byte
			res, _ := Try(func() error { out = p.EncodeABI(); return nil })
			r.Add(Ev{"op": "abi", "coords": mapInts(co, Bytes), "hashes": mapInts(hs, Bytes), "start": Dig(new(big.Int).SetUint64(start)), "end": Dig(new(big.Int).SetUint64(end)),
				"acc": B(res == "ok"), "out": Bytes(out)})
		})
		c.Add("order", fmt.Sprintf("order-%d", i), func(r *Rec) {
			p := fp254.Modulus()
			keys := []string{"ax", "ay", "bx0", "bx1", "by0", "by1", "cx", "cy", "mx", "my", "kx", "ky"}
			v := map[string]*big.Int{}
			ev := Ev{}
			for _, k := range keys {
				v[k] = RandBelow(r.Rnd, p)
				switch r.Rnd.Intn(6) {
				case 0:
					v[k] = val(r.Rnd, 60)
				case 1:
					v[k] = new(big.Int).Sub(p, bi(1))
				}
				ev[k] = Dig(v[k])
			}
			var pr groth16_bn254.Proof
			pr.Ar.X.SetBigInt(v["ax"])
			pr.Ar.Y.SetBigInt(v["ay"])
			pr.Bs.X.A0.SetBigInt(v["bx0"])
			pr.Bs.X.A1.SetBigInt(v["bx1"])
			pr.Bs.Y.A0.SetBigInt(v["by0"])
			pr.Bs.Y.A1.SetBigInt(v["by1"])
			pr.Krs.X.SetBigInt(v["cx"])
			pr.Krs.Y.SetBigInt(v["cy"])
			pr.Commitments = make([]bn254.G1Affine, 1)
			pr.Commitments[0].X.SetBigInt(v["mx"])
			pr.Commitments[0].Y.SetBigInt(v["my"])
			pr.CommitmentPok.X.SetBigInt(v["kx"])
			pr.CommitmentPok.Y.SetBigInt(v["ky"])
			a, b, cc, m, k := utils.ExportProof(&pr)
			r.Add(Ev{"op": "order", "c": ev, "out": Digs([]*big.Int{a[0], a[1], b[0][0], b[0][1], b[1][0], b[1][1], cc[0], cc[1], m[0], m[1], k[0], k[1]})})
			pubs := []string{}
			for j := 0; j < 7; j++ {
				pubs = append(pubs, hexText(r.Rnd, someBytes(r.Rnd, 4)))
			}
			in := proof.ZKSDKAggPubInputs{QueryId: pubs[0], SMTRoot: [2]string{pubs[1], pubs[2]}, AggVkHash: pubs[3], OutputCommit: [2]string{pubs[4], pubs[5]}, AppVkHash: pubs[6]}
			str := in.GenerateBatchProofAndPublicInputs(&pr)
			r.Add(Ev{"op": "batch", "c": ev, "pubs": ascs(pubs), "out": asc(str)})
			// and back: the texts of a proof as numbers, as the contract takes them
			xs := make([]*big.Int, 12)
			ts := make([]string, 12)
			for j := range xs {
				xs[j] = val(r.Rnd, 256)
				ts[j] = hexText(r.Rnd, xs[j].Bytes())
			}
			g := proof.Groth16Proof{A: [2]string{ts[0], ts[1]}, B: [2][2]string{{ts[2], ts[3]}, {ts[4], ts[5]}}, C: [2]string{ts[6], ts[7]}, Commitment: [2]string{ts[8], ts[9]}, CommitmentPok: [2]string{ts[10], ts[11]}}
			a, b, cc, m, k = g.AsBigInts()
			same := func(in, out []*big.Int) { r.Add(Ev{"op": "same", "in": Digs(in), "out": Digs(out)}) }
			same(xs, []*big.Int{a[0], a[1], b[0][0], b[0][1], b[1][0], b[1][1], cc[0], cc[1], m[0], m[1], k[0], k[1]})
			for _, q := range []struct {
				A, C, M [2]*big.Int
				B       [2][2]*big.Int
			}{{g.OnChainProof().A, g.OnChainProof().C, g.OnChainProof().Commitment, g.OnChainProof().B}, {g.BeaconProof().A, g.BeaconProof().C, g.BeaconProof().Commitment, g.BeaconProof().B},
				{(&proof.CommitteeSszMappingProof{Proof: g}).GetProof().A, (&proof.CommitteeSszMappingProof{Proof: g}).GetProof().C, (&proof.CommitteeSszMappingProof{Proof: g}).GetProof().Commitment, (&proof.CommitteeSszMappingProof{Proof: g}).GetProof().B}} {
				same(xs[:10], []*big.Int{q.A[0], q.A[1], q.B[0][0], q.B[0][1], q.B[1][0], q.B[1][1], q.C[0], q.C[1], q.M[0], q.M[1]})
			}
			z := (*proof.CommitteeSszMappingProof)(nil).GetProof()
			zero := make([]*big.Int, 10)
			for j := range zero {
				zero[j] = bi(0)
			}
			same(zero, []*big.Int{z.A[0], z.A[1], z.B[0][0], z.B[0][1], z.B[1][0], z.B[1][1], z.C[0], z.C[1], z.Commitment[0], z.Commitment[1]})
			w := make([][]byte, 7)
			for j := range w {
				w[j] = RandBytes(r.Rnd, 32)
			}
			u := proof.SMTUpdateProof{OldSmtRoot: hexText(r.Rnd, w[0]), NewSmtRoot: hexText(r.Rnd, w[1]), EndBlockHash: hexText(r.Rnd, w[2]), NextChunkMerkleRoot: hexText(r.Rnd, w[3]), CommitmentPub: hexText(r.Rnd, w[4])}
			s := proof.SigProof{PoseidonRoot: hexText(r.Rnd, w[5]), CommitmentPub: hexText(r.Rnd, w[6])}
			o := [][32]byte{u.GetOldSmtRoot(), u.GetNewSmtRoot(), u.GetEndBlockHash(), u.GetNextChunkMerkleRoot(), u.GetCommitmentPub(), s.GetPoseidonRoot()}
			r.Add(Ev{"op": "same", "in": mapInts(w[:6], Bytes), "out": mapInts(o, func(x [32]byte) []int { return Bytes(x[:]) })})
			same([]*big.Int{new(big.Int).SetBytes(w[6])}, []*big.Int{s.GetCommitment()})
		})
	}
	// calls: the codec over a contract with one method per list of argument types
	sets := [][]string{{}, {"uint256"}, {"address", "uint256"}, {"bytes32", "bool", "uint64"}, {"bytes"}, {"uint256", "bytes", "address"}, {"bytes", "string", "uint256[]"}, {"uint256[2]", "bytes32"},
		{"uint256[]", "uint256[2]", "bytes", "bool"}, {"string", "uint256", "bytes", "uint256[]", "bytes32"}}
	var ms []string
	for i, ts := range sets {
		var in []string
		for j, t := range ts {
			in = append(in, fmt.Sprintf(`{"name":"a%d","type":"%s"}`, j, t))
		}
		l := strings.Join(in, ",")
		ms = append(ms, fmt.Sprintf(`{"type":"function","name":"m%d","inputs":[%s],"outputs":[%s],"stateMutability":"view"}`, i, l, l))
	}
	codec := utils.NewContractCodec("[" + strings.Join(ms, ",") + "]")
	for i, ts := range sets {
		for k := 0; k < c.N(3, 40); k++ {
			c.Add("codec", fmt.Sprintf("codec-%d-%d", i, k), func(r *Rec) {
				var vs []Ev
				var args, ptrs []any
				for _, t := range ts {
					v, a, p := arg(r.Rnd, t)
					vs, args, ptrs = append(vs, v), append(args, a), append(ptrs, p)
				}
				if vs == nil {
					vs = []Ev{}
				}
				name := fmt.Sprintf("m%d", i)
				sig := name + "(" + strings.Join(ts, ",") + ")"
				r.Add(Ev{"op": "sel", "sig": asc(sig), "out": Bytes(codec.Selector(name))})
				call := func(op, m string, f func(string, ...any) ([]byte, error)) []byte {
					var out []byte
					res, _ := Try(func() (err error) { out, err = f(m, args...); return })
					r.Add(Ev{"op": op, "known": B(m == name), "sig": asc(sig), "vs": vs, "acc": B(res == "ok"), "out": Bytes(out)})
					return out
				}
				cd := call("call", name, codec.EncodeCalldata)
				cd2 := call("call", name, codec.EncodeCalldata)
				_ = cd2
				call("call", "nosuch", codec.EncodeCalldata)
				rd := call("ret", name, codec.EncodeReturnData)
				call("ret", "m99", codec.EncodeReturnData)
				if len(cd) < 4 {
					return
				}
				fixed := B(!strings.Contains(strings.Join(ts, " "), "bytes ") && !strings.HasSuffix(strings.Join(ts, " "), "bytes") && !strings.Contains(strings.Join(ts, " "), "string") && !strings.Contains(strings.Join(ts, " "), "[]"))
				dec := func(m string, data []byte, ps []any, f func(string, []byte, ...any) error) {
					res, _ := Try(func() error { return f(m, data, ps...) })
					out := []Ev{}
					if res == "ok" {
						for j := range ps {
							out = append(out, back(ts[j], ps[j]))
						}
					}
					r.Add(Ev{"op": "dec", "known": B(m == name), "ptrs": len(ps), "vs": vs, "data": Bytes(data), "fixed": fixed, "acc": B(res == "ok"), "out": out})
				}
				fresh := func() []any {
					var o []any
					for _, p := range ptrs {
						o = append(o, reflect.New(reflect.TypeOf(p).Elem()).Interface())
					}
					return o
				}
				dec(name, cd[4:], fresh(), codec.DecodeCalldata)
				dec(name, rd, fresh(), codec.DecodeReturnData)
				dec("nosuch", rd, fresh(), codec.DecodeReturnData)
				dec("nosuch", rd, fresh(), codec.DecodeCalldata)
				if len(rd) >= 32 {
					dec(name, rd[:len(rd)-32], fresh(), codec.DecodeReturnData)
					dec(name, rd[:len(rd)-1], fresh(), codec.DecodeCalldata)
					dec(name, rd, fresh()[1:], codec.DecodeReturnData)
				}
			})
		}
	}
}

// arg is a value of a type: as recorded, as an argument, and a pointer to receive it
func arg(r *rand.Rand, t string) (Ev, any, any) {
	switch t {
	case "uint256":
		x := val(r, 256)
		return Ev{"t": t, "b": Bytes(x.Bytes())}, x, new(big.Int)
	case "uint64":
		x := val(r, 64).Uint64()
		return Ev{"t": t, "b": Bytes(u64(x))}, x, new(uint64)
	case "bool":
		x := r.Intn(2) == 0
		b := []int{}
		if x {
			b = []int{1}
		}
		return Ev{"t": t, "b": b}, x, new(bool)
	case "address":
		var a common.Address
		copy(a[:], someBytes(r, 20))
		return Ev{"t": t, "b": Bytes(a[:])}, a, new(common.Address)
	case "bytes32":
		var a [32]byte
		copy(a[:], someBytes(r, 32))
		return Ev{"t": t, "b": Bytes(a[:])}, a, new([32]byte)
	case "bytes":
		b := someBytes(r, []int{0, 1, 31, 32, 33, 70}[r.Intn(6)])
		return Ev{"t": t, "b": Bytes(b)}, b, new([]byte)
	case "string":
		b := make([]byte, []int{0, 1, 31, 32, 33}[r.Intn(5)])
		for i := range b {
			b[i] = byte(32 + r.Intn(90))
		}
		return Ev{"t": t, "b": Bytes(b)}, string(b), new(string)
	case "uint256[2]":
		x, y := val(r, 256), val(r, 256)
		return Ev{"t": t, "l": mapInts([]*big.Int{x, y}, func(x *big.Int) []int { return Bytes(x.Bytes()) })}, [2]*big.Int{x, y}, new([2]*big.Int)
	case "uint256[]":
		xs := make([]*big.Int, r.Intn(4))
		for i := range xs {
			xs[i] = val(r, 256)
		}
		return Ev{"t": t, "l": mapInts(xs, func(x *big.Int) []int { return Bytes(x.Bytes()) })}, xs, new([]*big.Int)
	}
	panic(t)
}
func back(t string, p any) Ev {
	bb := func(x *big.Int) []int { return Bytes(x.Bytes()) }
	switch v := p.(type) {
	case *big.Int:
		return Ev{"t": t, "b": bb(v)}
	case *uint64:
		return Ev{"t": t, "b": Bytes(u64(*v))}
	case *bool:
		if *v {
			return Ev{"t": t, "b": []int{1}}
		}
		return Ev{"t": t, "b": []int{}}
	case *common.Address:
		return Ev{"t": t, "b": Bytes(v[:])}
	case *[32]byte:
		return Ev{"t": t, "b": Bytes(v[:])}
	case *[]byte:
		return Ev{"t": t, "b": Bytes(*v)}
	case *string:
		return Ev{"t": t, "b": asc(*v)}
	case *[2]*big.Int:
		return Ev{"t": t, "l": mapInts(v[:], bb)}
	case *[]*big.Int:
		return Ev{"t": t, "l": mapInts(*v, bb)}
	}
	panic(t)
}

// ---- C35 ----
type vkey = replonk.VerifyingKey[sw_bls12377.ScalarField, sw_bls12377.G1Affine, sw_bls12377.G2Affine]

// comps are pointers to the hashed components, in order (without the first and the limbs of the shift)
func comps(vk *vkey) []*V {
	var o []*V
	g1 := func(p *sw_bls12377.G1Affine) { o = append(o, &p.X, &p.Y) }
	g1(&vk.Kzg.G1)
	for i := range vk.Kzg.G2 {
		p := &vk.Kzg.G2[i].P
		o = append(o, &p.X.A0, &p.X.A1, &p.Y.A0, &p.Y.A1)
	}
	for i := range vk.S {
		g1(&vk.S[i].G1El)
	}
	for _, k := range []*kzg.Commitment[sw_bls12377.G1Affine]{&vk.Ql, &vk.Qr, &vk.Qm, &vk.Qo, &vk.Qk} {
		g1(&k.G1El)
	}
	return o
}
func elem(r *rand.Rand) fr_761.Element {
	var e fr_761.Element
	x := RandBelow(r, fr_761.Modulus())
	switch r.Intn(6) {
	case 0:
		x = val(r, 40)
	case 1:
		x = new(big.Int).Sub(fr_761.Modulus(), bi(1))
	}
	e.SetBigInt(x)
	return e
}
func newVk(r *rand.Rand) vkey {
	var vk vkey
	vk.NbPublicVariables = val(r, 64).Uint64()
	var sh fr_377.Element
	sh.SetBigInt(RandBelow(r, fr_377.Modulus()))
	vk.CosetShift = emulated.ValueOf[sw_bls12377.ScalarField](sh)
	for _, p := range comps(&vk) {
		*p = elem(r)
	}
	vk.Size = bi(1 << 10)
	vk.SizeInv, vk.Generator = emulated.ValueOf[sw_bls12377.ScalarField](r.Uint64()), emulated.ValueOf[sw_bls12377.ScalarField](r.Uint64())
	vk.Qcp = make([]kzg.Commitment[sw_bls12377.G1Affine], 1)
	vk.Qcp[0].G1El.X, vk.Qcp[0].G1El.Y = elem(r), elem(r)
	vk.CommitmentConstraintIndexes = []V{r.Intn(1000)}
	return vk
}
func vkEv(r *Rec, vk vkey) []byte {
	var xs []*big.Int
	xs = append(xs, new(big.Int).SetUint64(vk.NbPublicVariables))
	for _, l := range vk.CosetShift.Limbs {
		xs = append(xs, l.(*big.Int))
	}
	for _, p := range comps(&vk) {
		e := (*p).(fr_761.Element)
		xs = append(xs, e.BigInt(new(big.Int)))
	}
	out := utils.CalculateAppVkHashFor761(vk)
	r.Add(Ev{"op": "vk", "comps": Digs(xs), "out": Bytes(out)})
	return out
}
func c35(c *Ctx) {
	for i := 0; i < c.N(6, 60); i++ {
		c.Add("vk", fmt.Sprintf("vk-%d", i), func(r *Rec) {
			vk := newVk(r.Rnd)
			out := vkEv(r, vk)
			n := len(comps(&vk))
			for j := 0; j < n; j++ {
				if j%6 != i%6 && !c.Thorough() {
					continue
				}
				w := vk
				p := comps(&w)[j]
				*p = elem(r.Rnd)
				vkEv(r, w)
				// exchanged with its neighbour
				if j > 0 {
					w = vk
					q := comps(&w)
					*q[j], *q[j-1] = *q[j-1], *q[j]
					vkEv(r, w)
				}
			}
			w := vk
			w.NbPublicVariables ^= 1 << uint(r.Rnd.Intn(64))
			vkEv(r, w)
			w = vk
			var sh fr_377.Element
			sh.SetUint64(r.Rnd.Uint64())
			w.CosetShift = emulated.ValueOf[sw_bls12377.ScalarField](sh)
			vkEv(r, w)
			r.Add(Ev{"op": "vk254", "d": Bytes(out), "out": Bytes(utils.CalculateAppVkHashFrom761To254(out))})
		})
	}
	for i := 0; i < c.N(12, 200); i++ {
		c.Add("half", fmt.Sprintf("half-%d", i), func(r *Rec) {
			b := someBytes(r.Rnd, 48)
			if i%3 == 0 {
				b = lpad(val(r.Rnd, 377).Bytes(), 48)
			}
			r.Add(Ev{"op": "vk254", "d": Bytes(b), "out": Bytes(utils.CalculateAppVkHashFrom761To254(b))})
			d := append([]byte(nil), b...)
			d[r.Rnd.Intn(48)] ^= byte(1 + r.Rnd.Intn(255))
			r.Add(Ev{"op": "vk254", "d": Bytes(d), "out": Bytes(utils.CalculateAppVkHashFrom761To254(d))})
		})
	}
	// components the digest is said to cover, one session each
	covers := map[string]func(r *rand.Rand, vk *vkey){
		"size":    func(r *rand.Rand, vk *vkey) { vk.Size = bi(1 << 11) },
		"sizeinv": func(r *rand.Rand, vk *vkey) { vk.SizeInv = emulated.ValueOf[sw_bls12377.ScalarField](r.Uint64()) },
		"gen":     func(r *rand.Rand, vk *vkey) { vk.Generator = emulated.ValueOf[sw_bls12377.ScalarField](r.Uint64()) },
		"qcp":     func(r *rand.Rand, vk *vkey) { vk.Qcp = append(vk.Qcp, vk.Ql) },
		"qcpval": func(r *rand.Rand, vk *vkey) {
			vk.Qcp = []kzg.Commitment[sw_bls12377.G1Affine]{vk.Ql}
		},
		"cci": func(r *rand.Rand, vk *vkey) { vk.CommitmentConstraintIndexes = []V{1001} },
	}
	for _, name := range SortedKeys(covers) {
		f := covers[name]
		c.Add("cover", "cover-"+name, func(r *Rec) {
			vk := newVk(r.Rnd)
			w := vk
			f(r.Rnd, &w)
			r.Add(Ev{"op": "differs", "base": Bytes(utils.CalculateAppVkHashFor761(vk)), "out": Bytes(utils.CalculateAppVkHashFor761(w))})
		})
	}
}

var _ = ecc.BN254
