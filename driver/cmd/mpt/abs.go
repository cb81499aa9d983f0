package main

import (
	"fmt"
	"math/big"
	"math/rand"

	"github.com/brevis-network/zk-utils/circuits/gadgets/mpt"
	gethrlp "github.com/ethereum/go-ethereum/rlp"

	. "verifdriver/h"
)

// c09: honest proofs of present keys.
func c09(c *Ctx) {
	shapes := []string{"B", "1", "2", "3", "7", "BB", "B1", "B2", "1B", "2B", "5B", "BBB", "B4B", "3BB", "BB6", "1B2B", "BBBB"}
	if c.Thorough() {
		shapes = append(shapes, "9", "BBBBB", "2B3B4", "BBBBBBB", "1B1B1B1B", "BBBBBBBBB", "9B9B9B9B", "999999B")
	}
	for _, s := range shapes {
		for k := 0; k < c.N(2, 8); k++ {
			sh := s
			c.Add("chain", fmt.Sprintf("chain-%s-%d", sh, k), func(r *Rec) {
				forge(r, scen{Shape: sh, Dev: "honest"}, k%2 == 1)
			})
		}
	}
	// tries made by go-ethereum; every n-th key has a neighbour sharing a prefix
	for k := 0; k < c.N(14, 120); k++ {
		k := k
		c.Add("trie", fmt.Sprintf("trie-%d", k), func(r *Rec) {
			rnd := r.Rnd
			storage := k%2 == 0
			maxVal := 66
			if !storage && rnd.Intn(2) == 0 {
				maxVal = 228
			}
			ents := map[string][]byte{}
			var keys [][]byte
			add := func(b []byte) {
				v := randVal(rnd, maxVal)
				if k%4 == 3 { // leaves must not become so small that they are embedded
					v = encStr(append([]byte{1}, RandBytes(rnd, 31)...))
				}
				if _, ok := ents[string(b)]; !ok {
					keys = append(keys, b)
				}
				ents[string(b)] = v
			}
			for i := []int{1, 2, 3, 17, 40, 300}[k%6]; i > 0; i-- {
				add(RandBytes(rnd, 32))
			}
			for i := 0; i < 3; i++ { // a neighbour diverging late or early
				b := append([]byte{}, keys[rnd.Intn(len(keys))]...)
				p := rnd.Intn(6)
				if k%4 == 3 {
					p = 20 + rnd.Intn(40)
				}
				nib := Nib(b)
				nib[p] = (nib[p] + 1 + rnd.Intn(15)) % 16
				b = fromNib(nib)
				copy(b[p/2+1:], RandBytes(rnd, 32))
				add(b)
			}
			t, root := mkTrie(ents)
			d := newDB()
			var ws []*wit
			for i := 0; i < 3; i++ {
				key := keys[len(keys)-1-i]
				if i == 2 {
					key = keys[rnd.Intn(len(keys))]
				}
				p := path(t, key)
				if len(p) > 8 {
					continue
				}
				for _, n := range p {
					d.put(n)
				}
				md := max(2, len(p)+rnd.Intn(2))
				ws = append(ws, build(d, p, Nib(key), padVal(ents[string(key)], maxVal), root, md, nodeSize, nodeSize))
			}
			r.Hdr["db"] = d.ev()
			for _, w := range ws {
				r.Add(w.event(storage, true))
			}
		})
	}
}

// absent gives a key that leaves the chain's path at nibble p.
func absent(rnd *rand.Rand, key []int, p int) []int {
	k := append([]int{}, key...)
	k[p] = (k[p] + 1 + rnd.Intn(15)) % 16
	copy(k[p+1:], randNib(rnd, 63-p))
	return k
}

// c10: absence, honest and forged.
func c10(c *Ctx) {
	for i, s := range scens(c) {
		c.Add(s.Dev, s.id(i), func(r *Rec) { absence(r, s) })
	}
	// tries made by go-ethereum, random absent slots
	for k := 0; k < c.N(10, 100); k++ {
		k := k
		c.Add("trie", fmt.Sprintf("trie-%d", k), func(r *Rec) {
			rnd := r.Rnd
			ents := map[string][]byte{}
			for i := []int{1, 2, 5, 17, 60}[k%5]; i > 0; i-- {
				ents[string(RandBytes(rnd, 32))] = randVal(rnd, 66)
			}
			t, root := mkTrie(ents)
			d := newDB()
			var ws []*wit
			for i := 0; i < 2; i++ {
				var key []byte
				if i == 0 {
					key = RandBytes(rnd, 32)
				} else { // close to a present one
					for x := range ents {
						if key == nil || x < string(key) {
							key = []byte(x)
						}
					}
					key = fromNib(absent(rnd, Nib(key), rnd.Intn(64)))
				}
				p := path(t, key)
				if len(p) > 8 {
					continue
				}
				for _, n := range p {
					d.put(n)
				}
				ws = append(ws, build(d, p, Nib(key), zeroVal(66), root, max(2, len(p)+rnd.Intn(2)), nodeSize, nodeSize))
			}
			r.Hdr["db"] = d.ev()
			for _, w := range ws {
				r.Add(w.event(true, true))
			}
		})
	}
}

func absence(r *Rec, s scen) {
	rnd := r.Rnd
	key := randKey(rnd)
	ch := mkChain(rnd, s.Shape, key)
	ch.val = randVal(rnd, 66)
	ch.sib = rnd.Intn(12)
	pos := make([]int, len(ch.layers)+1)
	for i, l := range ch.layers {
		pos[i+1] = pos[i] + 1
		if l.ext {
			pos[i+1] = pos[i] + len(l.frag)
		}
	}
	md := max(2, len(s.Shape)+1+rnd.Intn(2))
	at := s.At
	ns := ch.nodes(rnd)
	d := dbOf(ns)
	zero := zeroVal(66)
	if rnd.Intn(3) == 0 { // a larger value area, still zero
		zero = zeroVal(66)
	}
	lay := func(chain [][]byte, k, v []int) *wit {
		return build(d, chain, append([]int{}, k...), append([]int{}, v...), kk(ns[0]), md, nodeSize, nodeSize)
	}
	var w *wit
	honest := false
	isExt := at < len(ch.layers) && ch.layers[at].ext
	// a key that the trie does not have, leaving the path in node `at`
	away := func() []int {
		p := pos[at]
		switch {
		case at == len(ch.layers):
			p += []int{0, rnd.Intn(64 - p), 63 - p}[rnd.Intn(3)]
			return absent(rnd, key, p)
		case isExt:
			p += rnd.Intn(len(ch.layers[at].frag))
			return absent(rnd, key, p)
		}
		x := decode(ns[at])
		k := absent(rnd, key, p)
		for n := 0; n < 64 && len(x.kids[k[p]]) != 0; n++ {
			k = absent(rnd, key, p)
		}
		return k
	}
	switch s.Dev {
	case "habsent": // the path ends in node `at`
		w = lay(ns[:at+1], away(), zero)
		honest = true
	case "present": // an inner node of the path of an existing key is passed off as its end
		w = lay(ns[:at+1], key, zero)
		if rnd.Intn(2) == 0 {
			w.lastP = 1 + rnd.Intn(2)
		}
	case "whole": // the whole path of an existing key, value zero
		w = lay(ns, key, zero)
		w.lastP = rnd.Intn(3)
	case "nonzero": // absent, but a value is claimed
		k := away()
		w = lay(ns[:at+1], k, padVal(ch.val, 66))
		// zero except for one nibble: the ends of the area and anywhere in it
		for _, p := range []int{65, 64, 1, 2, 2 + rnd.Intn(64)}[at%2*2 : at%2*2+3] {
			v := zeroVal(66)
			v[p] = 1 + rnd.Intn(15)
			w2 := lay(ns[:at+1], k, v)
			w2.note = fmt.Sprint(s.Dev, p)
			r.Add(w2.event(true, false))
		}
	case "shift": // the walk begins at a later nibble, where the path ends
		// node `at` is the last one; the key is chosen so that its nibbles from `sh` on go away from the trie
		sh := 1 + rnd.Intn(3)
		k := away()
		// the real key is present: sh nibbles in front
		real := append(append([]int{}, key[:sh]...), k[:64-sh]...)
		// make the trie hold `real`: a chain of its own
		c2 := mkChain(rnd, s.Shape, real)
		c2.val, c2.sib = ch.val, 0
		// the nodes must also be walkable along k up to node `at`: take those of c2 with the path of k
		for i := 0; i < at; i++ {
			if c2.layers[i].ext {
				return // not possible for an extension; the scenario is empty
			}
		}
		n2 := twoPaths(rnd, c2, k, at)
		if n2 == nil {
			r.Hdr["db"] = [][]int{}
			return
		}
		for _, n := range n2.all {
			d.put(n)
		}
		w = build(d, n2.along, k, zero, kk(n2.along[0]), md, nodeSize, nodeSize)
		w.key = real
		for i := range w.starts {
			w.starts[i] = min(64, w.starts[i]+sh)
		}
	case "astart": // an existing key; the last node is entered at another nibble than it should be
		w = lay(ns[:at+1], key, zero)
		w.starts[at] = min(63, w.starts[at]+1+rnd.Intn(4))
		if at > 0 && rnd.Intn(3) == 0 {
			w.starts[at] = max(0, pos[at]-1)
		}
	case "otherleaf": // the leaf of another key is passed off as the end of this key's path
		k2 := absent(rnd, key, pos[at])
		c2 := *ch
		c2.key = k2
		c2.layers = c2.layers[:at]
		leaf := mkLeaf(k2[pos[at]+min(1, 64-pos[at]):], ch.val)
		d.put(leaf)
		w = lay(append(append([][]byte{}, ns[:at+1]...), leaf), key, zero)
	case "depth1": // nothing but a made-up last node
		k2 := absent(rnd, key, 0)
		n := mkLeaf(k2, RandBytes(rnd, 32))
		switch rnd.Intn(3) {
		case 0:
			var kids [16][]byte
			kids[(key[0]+1)%16] = RandBytes(rnd, 32)
			n = mkBranch(kids, nil)
		case 1:
			n = mkExt(k2[:3], RandBytes(rnd, 32))
		}
		w = lay(ns[:1], key, zero)
		w.setLast(d, n, 1+rnd.Intn(2))
		if n[0] == 0xe4 || true {
			if x := decode(n); !x.branch {
				w.lastP = plen(x)
			}
		}
	case "broken": // the last node is not well formed
		n := append([]byte{}, ns[at]...)
		switch rnd.Intn(4) {
		case 0:
			n[hdrAt(n)]++
		case 1:
			n = n[:len(n)-1]
		case 2: // an item less (or a different count of items)
			n = encList(encStr(hp(key[:3], 0)), encStr(RandBytes(rnd, 32)), encStr(nil))
		case 3:
			n = encList(encStr(hp(absent(rnd, key, pos[min(at, len(pos)-1)])[:5], 4)), encStr(RandBytes(rnd, 32)))
		}
		// a trie that really has this node there
		c2 := *ch
		c2.layers = c2.layers[:at]
		c2.leaf = n
		n2 := c2.nodes(rnd)
		for _, x := range n2 {
			d.put(x)
		}
		w = lay(ns[:at+1], key, zero)
		for i := 0; i < at; i++ {
			w.nodes[i], w.rounds[i] = pad(n2[i], nodeSize)
		}
		w.root = Nib(kk(n2[0]))
		w.setLast(d, n, 1+rnd.Intn(2))
	case "valuenode": // an existing key: its leaf, but with a wrong flag length
		w = lay(ns, key, zero)
		w.lastP = []int{0, 3, 3 - w.lastP}[rnd.Intn(3)]
	default:
		panic("unknown deviation " + s.Dev)
	}
	w.note = s.Dev
	r.Hdr["db"] = d.ev()
	r.Add(w.event(true, honest))
}

type two struct{ along, all [][]byte }

// twoPaths: nodes of a branch-only chain holding c2.key, such that walking k
// meets branches up to node `at` whose child for k is empty.
func twoPaths(rnd *rand.Rand, c2 *chain, k []int, at int) *two {
	real := c2.key
	if at >= len(c2.layers) || c2.layers[at].ext {
		return nil
	}
	// the common part of the two keys must be shorter than at, else k is present
	com := 0
	for com < 64 && real[com] == k[com] {
		com++
	}
	if com > at {
		return nil
	}
	t := &two{}
	// node `at` on k's way: a branch without a child at k[at]
	var kids [16][]byte
	kids[(k[at]+1)%16] = RandBytes(rnd, 32)
	last := mkBranch(kids, nil)
	if com == at { // the same branch serves both
		rest := mkLeaf(real[at+1:], c2.val)
		kids[real[at]] = kk(rest)
		last = mkBranch(kids, nil)
		t.all = append(t.all, rest)
	}
	t.along = [][]byte{last}
	for i := at - 1; i >= 0; i-- {
		var kids [16][]byte
		kids[k[i]] = kk(t.along[0])
		if i == com {
			rest := mkLeaf(real[i+1:], c2.val)
			kids[real[i]] = kk(rest)
			t.all = append(t.all, rest)
		}
		t.along = append([][]byte{mkBranch(kids, nil)}, t.along...)
	}
	t.all = append(t.all, t.along...)
	return t
}

// ---- transaction and receipt indices (C11) ----

type idx struct {
	maxDepth, size int
	key            []int // 7 nibbles
	klen           int
	root, leaf     []int
	starts         []int
	nodes          [][]int
	rounds         []int
	plens, types   []int
	depth          int
	path           []int
	note           string
}

func (w *idx) event(honest bool) Ev {
	l := new(big.Int).SetBytes(fromNib(w.leaf))
	m := new(big.Int).Lsh(bi(1), 128)
	lo, hi := new(big.Int).Mod(l, m), new(big.Int).Rsh(l, 128)
	_ = lo
	ins := [][]int{w.key, {w.klen}, w.root, w.starts}
	ins = append(ins, w.nodes...)
	ins = append(ins, w.rounds, w.plens, w.types, []int{w.depth})
	in := append(fes(ins), hi, lo)
	acc, o, _ := Solve(in, func(api API, v []V) []V {
		p := 0
		take := func(n int) []V { p += n; return v[p-n : p] }
		key, klen := take(len(w.key)), take(1)[0]
		var root [64]V
		copy(root[:], take(64))
		starts := take(w.maxDepth)
		var nodes [][]V
		for range w.nodes {
			nodes = append(nodes, take(w.size))
		}
		rounds, plens, types := take(w.maxDepth-1), take(w.maxDepth-1), take(w.maxDepth-1)
		depth := take(1)[0]
		leaf := [2]V{v[p], v[p+1]}
		r := mpt.CheckMPTInclusionNoBranchTermination(api, w.maxDepth, len(w.key), key, klen, root, starts, leaf, nodes, rounds, plens, types, depth)
		return []V{r.Output}
	})
	out := 0
	if acc {
		out = Small(o)[0]
	}
	return Ev{"op": "index", "honest": B(honest), "key": w.key, "klen": w.klen, "root": w.root, "leaf": w.leaf, "starts": w.starts, "types": w.types,
		"plens": w.plens, "depth": w.depth, "path": w.path, "acc": B(acc), "out": out, "note": w.note}
}

// lay out the inner nodes of a path; the last node is only given by its hash
func buildIdx(d *db, chain [][]byte, key []int, klen int, md int) *idx {
	k64 := append(append([]int{}, key...), make([]int, 64)...)[:64]
	b := build(d, chain, k64, zeroVal(66), kk(chain[0]), md, nodeSize, 272*40)
	w := &idx{maxDepth: md, size: nodeSize, key: append(append([]int{}, key...), make([]int, 7)...)[:7], klen: klen, root: b.root,
		leaf: Nib(kk(chain[len(chain)-1])), starts: b.starts, nodes: b.nodes, rounds: b.rounds, plens: b.plens, types: b.types, depth: b.depth, path: b.path[:len(b.path)-1]}
	for i := range w.starts {
		w.starts[i] = min(w.starts[i], 7)
	}
	return w
}
func idxKey(i int) []int {
	b, _ := gethrlp.EncodeToBytes(uint64(i))
	return Nib(b)
}

// idxTrie is the trie of a block with n entries.
func idxTrie(rnd *rand.Rand, n int) (get func(i int) [][]byte) {
	ents := map[string][]byte{}
	for i := 0; i < n; i++ {
		ents[string(fromNib(idxKey(i)))] = RandBytes(rnd, 100+rnd.Intn(80))
	}
	t, _ := mkTrie(ents)
	return func(i int) [][]byte { return path(t, fromNib(idxKey(i))) }
}

func c11(c *Ctx) {
	sizes := []int{1, 2, 3, 16, 17, 100, 127, 128, 129, 130, 136, 145, 200, 257, 273, 300}
	for k, n := range sizes {
		for j := 0; j < c.N(1, 6); j++ {
			n, k, j := n, k, j
			c.Add("block", fmt.Sprintf("block-%d-%d", n, j), func(r *Rec) {
				rnd := r.Rnd
				get := idxTrie(rnd, n)
				d := newDB()
				var ws []*idx
				for _, i := range []int{0, n - 1, rnd.Intn(n), 127, 128, 129, 255, 256, min(n-1, 128+rnd.Intn(128))} {
					if i >= n || (len(ws) > 4 && !c.Thorough()) {
						continue
					}
					p := get(i)
					for _, x := range p {
						d.put(x)
					}
					key := idxKey(i)
					klen := len(key)
					if last := decode(p[len(p)-1]); len(last.frag) == 0 {
						klen++
					}
					ws = append(ws, buildIdx(d, p, key, klen, max(2, len(p)+rnd.Intn(2))))
				}
				r.Hdr["db"] = d.ev()
				for _, w := range ws {
					r.Add(w.event(true))
				}
			})
			_ = k
		}
	}
	for i, s := range scens(c) {
		n := 1
		if s.Dev == "ref" {
			n = 3
		}
		for k := 0; k < n; k++ {
			c.Add(s.Dev, s.id(i+10000*k), func(r *Rec) { forgeIdx(r, s) })
		}
	}
}

// forgeIdx: a trie over 6-nibble keys along a shape; at is the layer attacked.
func forgeIdx(r *Rec, s scen) {
	rnd := r.Rnd
	key := randNib(rnd, 6)
	if rnd.Intn(2) == 0 {
		key = idxKey(256 + rnd.Intn(60000))
	}
	ch := mkChain(rnd, s.Shape, key)
	ch.val = RandBytes(rnd, 120)
	ch.sib = rnd.Intn(12)
	pos := make([]int, len(ch.layers)+1)
	for i, l := range ch.layers {
		pos[i+1] = pos[i] + 1
		if l.ext {
			pos[i+1] = pos[i] + len(l.frag)
		}
	}
	end := pos[len(ch.layers)]
	klen := len(key)
	if end == klen {
		klen++
	}
	md := max(2, len(s.Shape)+1+rnd.Intn(2))
	at := s.At
	other := func(n int) int { return (n + 1 + rnd.Intn(15)) % 16 }
	var d *db
	var w *idx
	lay := func() {
		ns := ch.nodes(rnd)
		d = dbOf(ns)
		w = buildIdx(d, ns, key, klen, md)
	}
	isExt := at < len(ch.layers) && ch.layers[at].ext
	honest := false
	switch s.Dev {
	case "honest":
		lay()
		honest = true
	case "leaf": // another leaf
		lay()
		p := rnd.Intn(64)
		w.leaf[p] = other(w.leaf[p])
	case "ref": // one nibble of a reference (at 0: of the root) is another
		if rnd.Intn(2) == 0 {
			ch.grind(rnd, at, func() []byte { return RandBytes(rnd, 120) })
		}
		j := refNibble(rnd)
		if at > 0 {
			ch.layers[at-1].flip = 1 + j
		}
		lay()
		if at == 0 {
			w.root = append([]int{}, w.root...)
			w.root[j] ^= 1 << rnd.Intn(4)
		} else if at == len(ch.layers) {
			w.leaf = Nib(kk(ch.nodes(rnd)[at]))
		}
	case "link": // everything below layer at is forged for another leaf
		lay()
		f := *ch
		f.val = RandBytes(rnd, 90)
		w2 := buildIdx(d, f.nodes(rnd), key, klen, md)
		w2.root = w.root
		for i := 0; i < at && i < len(w.nodes); i++ {
			w2.nodes[i], w2.rounds[i], w2.plens[i], w2.path[i] = w.nodes[i], w.rounds[i], w.plens[i], w.path[i]
		}
		w = w2
	case "key": // another index
		lay()
		p := pos[at]
		if isExt {
			p += rnd.Intn(len(ch.layers[at].frag))
		}
		w.key[p] = other(w.key[p])
	case "start": // the walk does not begin at the first nibble
		lay()
		w.key = append([]int{rnd.Intn(16)}, w.key[:6]...)
		w.klen = min(7, klen+1)
		for i := range w.starts {
			w.starts[i] = min(7, w.starts[i]+1)
		}
	case "skip": // layer `at` consumes a nibble more than it has
		lay()
		q := pos[at+1]
		w.key = append(append(append([]int{}, w.key[:q]...), rnd.Intn(16)), w.key[q:6]...)
		w.klen = min(7, klen+1)
		for i := at + 1; i < len(w.starts); i++ {
			w.starts[i] = min(7, w.starts[i]+1)
		}
	case "repeat": // layer `at` consumes a nibble less than it has
		q := pos[at+1]
		if q < len(key) {
			key[q] = key[q-1]
		}
		ch.key = key
		for i, l := range ch.layers {
			if l.ext {
				copy(ch.layers[i].frag, key[pos[i]:pos[i+1]])
			}
		}
		lay()
		w.key = append(append(append([]int{}, w.key[:q-1]...), w.key[q:]...), 0)
		w.klen--
		for i := at + 1; i < len(w.starts); i++ {
			w.starts[i]--
		}
	case "type": // a node is declared to be of the other kind
		lay()
		w.types[at] = 1 - w.types[at]
		if rnd.Intn(2) == 0 {
			w.key[pos[at]] = other(w.key[pos[at]])
		} else {
			w.leaf[5] = other(w.leaf[5])
		}
	case "leafext": // a leaf stands where an extension should be
		ch.layers[at].flag = 2
		lay()
	case "extplen":
		lay()
		fl := w.plens[at]
		w.plens[at] = []int{0, 3, 3 - fl}[rnd.Intn(3)]
		full := Nib(hp(ch.layers[at].frag, 0))
		nf := full[min(w.plens[at], len(full)):]
		w.key = append(append(append([]int{}, key[:pos[at]]...), nf...), key[pos[at+1]:]...)
		w.key = append(w.key, make([]int, 7)...)[:7]
		for i := at + 1; i < len(w.starts); i++ {
			w.starts[i] = min(7, max(0, w.starts[i]+len(nf)-len(ch.layers[at].frag)))
		}
		w.klen = 7
	case "cut":
		ch.layers[at].cut = 1 + rnd.Intn(12)
		lay()
	case "badlist":
		ch.layers[at].bad = 1
		lay()
	case "depth1":
		lay()
		w.depth = 1
		w.leaf = Nib(RandBytes(rnd, 32))
	case "depth": // the depth is misstated
		lay()
		w.depth = []int{0, w.depth - 1, w.depth + 1, md + 1, -1}[at%5]
		w.leaf[2] = other(w.leaf[2])
	case "short": // the leaf is said to hang higher up
		lay()
		w.depth = at + 1
	case "inner": // an inner node's hash is passed off as the leaf
		lay()
		w.depth = at + 1
		if at < len(ch.layers) {
			x := []byte{}
			for i := 0; i+1 < len(d.nodes); i++ {
				if d.at[string(kk(d.nodes[i]))] == w.path[at] {
					x = d.nodes[i]
				}
			}
			if len(x) > 0 {
				w.leaf = Nib(kk(x))
			}
		}
	default:
		panic("unknown deviation " + s.Dev)
	}
	w.note = s.Dev
	r.Hdr["db"] = d.ev()
	r.Add(w.event(honest))
}
