package main

import (
	"encoding/hex"
	"math/big"
	"math/rand"
	"sort"

	"github.com/ethereum/go-ethereum/core/rawdb"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/trie"
	"github.com/ethereum/go-ethereum/triedb"

	. "verifdriver/h"
)

// A database of trie nodes, by the order they were put in.
type db struct {
	nodes [][]byte
	at    map[string]int // hash -> index
}

func newDB() *db { return &db{at: map[string]int{}} }
func (d *db) put(n []byte) int {
	h := string(crypto.Keccak256(n))
	if i, ok := d.at[h]; ok {
		return i
	}
	d.nodes = append(d.nodes, append([]byte{}, n...))
	d.at[h] = len(d.nodes) - 1
	return len(d.nodes) - 1
}

type pw struct{ vals [][]byte }

func (p *pw) Put(k, v []byte) error { p.vals = append(p.vals, v); return nil }
func (p *pw) Delete(k []byte) error { return nil }

// mkTrie puts the entries into a fresh trie; the result has every node on a path to one of the keys.
func mkTrie(ents map[string][]byte) (*trie.Trie, []byte) {
	t := trie.NewEmpty(triedb.NewDatabase(rawdb.NewMemoryDatabase(), nil))
	ks := make([]string, 0, len(ents))
	for k := range ents {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if err := t.Update([]byte(k), ents[k]); err != nil {
			panic(err)
		}
	}
	return t, t.Hash().Bytes()
}
func path(t *trie.Trie, key []byte) [][]byte {
	p := &pw{}
	if err := t.Prove(key, p); err != nil {
		panic(err)
	}
	return p.vals
}

// a decoded node
type dec struct {
	branch bool
	kids   [][]byte // 16 references (nil if empty)
	leaf   bool
	frag   []int // path nibbles of a two-item node
	odd    bool
	val    []byte
}

func item(b []byte) (pay, rest []byte, list bool) {
	p := b[0]
	cut := func(from, n int) ([]byte, []byte) { // lenient: damaged nodes are laid out too
		from = min(from, len(b))
		n = min(n, len(b)-from)
		return b[from : from+n], b[from+n:]
	}
	num := func(k int) (n int) {
		for i := 1; i <= k && i < len(b) && i < 4; i++ {
			n = n*256 + int(b[i])
		}
		return
	}
	switch {
	case p < 0x80:
		pay, rest = cut(0, 1)
	case p < 0xb8:
		pay, rest = cut(1, int(p)-0x80)
	case p < 0xc0:
		k := int(p) - 0xb7
		pay, rest = cut(1+k, num(k))
	case p < 0xf8:
		pay, rest = cut(1, int(p)-0xc0)
		list = true
	default:
		k := int(p) - 0xf7
		pay, rest = cut(1+k, num(k))
		list = true
	}
	return
}
func decode(b []byte) (d dec) {
	pay, _, _ := item(b)
	var items [][]byte
	for len(pay) > 0 {
		var p []byte
		p, pay, _ = item(pay)
		items = append(items, p)
	}
	if len(items) == 17 {
		d.branch = true
		d.kids = items[:16]
		d.val = items[16]
		return
	}
	for len(items) < 2 {
		items = append(items, []byte{0})
	}
	n := Nib(items[0])
	for len(n) < 2 {
		n = append(n, 0)
	}
	d.leaf = n[0]&2 != 0
	d.odd = n[0]&1 != 0
	if d.odd {
		d.frag = n[1:]
	} else {
		d.frag = n[2:]
	}
	d.val = items[1]
	return
}

// encoding of hand-made nodes
func be(n int) []byte {
	if n == 0 {
		return nil
	}
	return append(be(n/256), byte(n%256))
}
func hdr(base int, n int) []byte {
	if n < 56 {
		return []byte{byte(base + n)}
	}
	l := be(n)
	return append([]byte{byte(base + 55 + len(l))}, l...)
}
func encStr(b []byte) []byte {
	if len(b) == 1 && b[0] < 128 {
		return b
	}
	return append(hdr(128, len(b)), b...)
}
func encList(items ...[]byte) []byte {
	var p []byte
	for _, i := range items {
		p = append(p, i...)
	}
	return append(hdr(192, len(p)), p...)
}
func hp(frag []int, flag int) []byte {
	var n []int
	if len(frag)%2 == 1 {
		n = append([]int{flag + 1}, frag...)
	} else {
		n = append([]int{flag, 0}, frag...)
	}
	return fromNib(n)
}
func fromNib(n []int) []byte {
	b := make([]byte, len(n)/2)
	for i := range b {
		b[i] = byte(n[2*i]<<4 | n[2*i+1])
	}
	return b
}
func mkLeaf(frag []int, val []byte) []byte { return encList(encStr(hp(frag, 2)), encStr(val)) }
func mkExt(frag []int, ref []byte) []byte  { return encList(encStr(hp(frag, 0)), encStr(ref)) }
func mkBranch(kids [16][]byte, val []byte) []byte {
	var it [][]byte
	for _, k := range kids {
		it = append(it, encStr(k))
	}
	return encList(append(it, encStr(val))...)
}
func kk(b []byte) []byte { return crypto.Keccak256(b) }

// pad is the keccak padding, as nibbles, zero filled to total.
func pad(b []byte, total int) ([]int, int) {
	p := append([]byte{}, b...)
	p = append(p, 1)
	for len(p)%136 != 0 {
		p = append(p, 0)
	}
	p[len(p)-1] |= 0x80
	r := len(p)/136 - 1
	n := Nib(p)
	for len(n) < total {
		n = append(n, 0)
	}
	return n[:total], r
}

// wit is an assignment of the inclusion circuit.
type wit struct {
	maxDepth int
	key      []int
	val      []int
	root     []int
	starts   []int
	last     []int
	lastR    int
	lastP    int
	nodes    [][]int
	rounds   []int
	plens    []int
	types    []int
	depth    int
	path     []int // database index of every node used (-1: not in the database)
	lastSize int
	nodeSize int
	keyLen   int // variable-length circuit only
	pubLeaf  []byte
	starts0  []int
	note     string
}

// build lays out a chain of nodes along a key.
func build(d *db, chain [][]byte, key []int, val []int, root []byte, maxDepth, nodeSize, lastSize int) *wit {
	w := &wit{maxDepth: maxDepth, key: key, val: val, root: Nib(root), depth: len(chain), nodeSize: nodeSize, lastSize: lastSize}
	pos := 0
	for i, n := range chain {
		idx := -1
		if j, ok := d.at[string(kk(n))]; ok {
			idx = j
		}
		w.path = append(w.path, idx)
		x := decode(n)
		w.starts = append(w.starts, pos)
		if i == len(chain)-1 {
			w.last, w.lastR = pad(n, lastSize)
			w.lastP = plen(x)
			break
		}
		p, r := pad(n, nodeSize)
		w.nodes = append(w.nodes, p)
		w.rounds = append(w.rounds, r)
		w.plens = append(w.plens, plen(x))
		if x.branch {
			w.types = append(w.types, 0)
			pos++
		} else {
			w.types = append(w.types, 1)
			pos += len(x.frag)
		}
	}
	w.fill()
	return w
}
func plen(x dec) int {
	if x.branch {
		return 0
	}
	if x.odd {
		return 1
	}
	return 2
}

// fill completes the unused layers.
func (w *wit) fill() {
	for len(w.nodes) < w.maxDepth-1 {
		w.nodes = append(w.nodes, make([]int, w.nodeSize))
		w.rounds = append(w.rounds, 0)
		w.plens = append(w.plens, 0)
		w.types = append(w.types, 0)
	}
	for len(w.starts) < w.maxDepth {
		s := w.starts[len(w.starts)-1] + 1
		if s > len(w.key) {
			s = len(w.key)
		}
		w.starts = append(w.starts, s)
	}
}
func (w *wit) clone() *wit {
	c := *w
	ci := func(x []int) []int { return append([]int{}, x...) }
	c.key, c.val, c.root, c.starts, c.last = ci(w.key), ci(w.val), ci(w.root), ci(w.starts), ci(w.last)
	c.rounds, c.plens, c.types, c.path = ci(w.rounds), ci(w.plens), ci(w.types), ci(w.path)
	c.nodes = make([][]int, len(w.nodes))
	for i := range w.nodes {
		c.nodes[i] = ci(w.nodes[i])
	}
	return &c
}

func hexs(b []byte) string { return hex.EncodeToString(b) }
func bi(n int) *big.Int    { return big.NewInt(int64(n)) }
func randNib(r *rand.Rand, n int) []int {
	x := make([]int, n)
	for i := range x {
		x[i] = r.Intn(16)
	}
	return x
}
func vs(x []int) []V {
	r := make([]V, len(x))
	for i, v := range x {
		r[i] = v
	}
	return r
}
