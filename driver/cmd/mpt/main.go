// Driver for the trie inclusion circuits: C08..C11 (C12 in eth.go).
package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"github.com/brevis-network/zk-utils/circuits/gadgets/mpt"

	. "verifdriver/h"
)

func main() {
	Main(map[string]func(c *Ctx){"C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12})
}

// solve evaluates the fixed-key circuit on a witness.
func (w *wit) solve(storage bool) (bool, int, int) {
	ins := [][]int{w.key, w.val, w.root, w.starts, w.last, {w.lastR}, {w.lastP}}
	ins = append(ins, w.nodes...)
	ins = append(ins, w.rounds, w.plens, w.types, []int{w.depth})
	acc, o, _ := Solve(fes(ins), func(api API, v []V) []V {
		p := 0
		take := func(n int) []V { p += n; return v[p-n : p] }
		key, val := take(len(w.key)), take(len(w.val))
		var root [64]V
		copy(root[:], take(64))
		starts := take(w.maxDepth)
		last := take(len(w.last))
		lr, lp := take(1)[0], take(1)[0]
		var nodes [][]V
		for range w.nodes {
			nodes = append(nodes, take(w.nodeSize))
		}
		rounds, plens, types := take(w.maxDepth-1), take(w.maxDepth-1), take(w.maxDepth-1)
		depth := take(1)[0]
		r := mpt.CheckMPTInclusionFixedKeyLength(api, w.maxDepth, len(w.key), len(w.val), key, val, root, starts, last, lr, lp, nodes, rounds, plens, types, depth, storage)
		return []V{r.Output, r.ValueLength}
	})
	if !acc {
		return false, 0, 0
	}
	s := Small(o)
	return true, s[0], s[1]
}

// negative numbers stand for field elements -1, -2, ..
func fes(ins [][]int) []*big.Int {
	var r []*big.Int
	for _, x := range ins {
		for _, v := range x {
			b := bi(v)
			if v < 0 {
				b.Add(b, BN254)
			}
			r = append(r, b)
		}
	}
	return r
}

func (w *wit) event(storage, honest bool) Ev {
	acc, out, vl := w.solve(storage)
	return Ev{"op": "fixed", "storage": B(storage), "honest": B(honest), "key": w.key, "val": w.val, "root": w.root, "starts": w.starts[:w.maxDepth],
		"types": w.types, "plens": w.plens, "lastp": w.lastP, "depth": w.depth, "maxd": w.maxDepth, "path": w.path, "acc": B(acc), "out": out, "vl": vl, "note": w.note}
}

// ---- hand-made chains ----

// layer is one internal node: a branch (frag nil) or an extension.
type layer struct {
	ext  bool
	frag []int
	flag int // hex-prefix flag of an extension (0), 2 for a leaf in disguise
	cut  int // bytes missing from the reference
	bad  int // damage to the node's encoding
	flip int // 1 + the nibble of the reference that is changed
}

type chain struct {
	layers []layer
	key    []int
	leaf   []byte // last node; nil: a leaf with the rest of the key
	val    []byte
	lflag  int
	lfrag  []int
	sib    int   // branch siblings
	seed   int64 // fixes the siblings
}

// bytes of the nodes along the key, root first; refs of the last layer is the hash of last
func (ch *chain) nodes(r *rand.Rand) [][]byte {
	if ch.seed != 0 {
		r = rand.New(rand.NewSource(ch.seed))
	}
	pos := 0
	var at []int
	for _, l := range ch.layers {
		at = append(at, pos)
		if l.ext {
			pos += len(l.frag)
		} else {
			pos++
		}
	}
	last := ch.leaf
	if last == nil {
		frag := ch.key[pos:]
		if ch.lfrag != nil {
			frag = ch.lfrag
		}
		last = encList(encStr(hp(frag, ch.lflag)), encStr(ch.val))
	}
	out := [][]byte{last}
	for i := len(ch.layers) - 1; i >= 0; i-- {
		l := ch.layers[i]
		ref := kk(out[0])
		ref = ref[:len(ref)-l.cut]
		if l.flip > 0 {
			ref[(l.flip-1)/2] ^= byte(1 << (r.Intn(4) + 4*(l.flip%2)))
		}
		var n []byte
		if l.ext {
			n = encList(encStr(hp(l.frag, l.flag)), encStr(ref))
		} else {
			var kids [16][]byte
			for j := range kids {
				if r.Intn(16) < ch.sib {
					kids[j] = RandBytes(r, 32)
				}
			}
			kids[ch.key[at[i]]] = ref
			n = mkBranch(kids, nil)
		}
		if l.bad == 1 { // the list header is off by one
			n[len(n)-len(n)+hdrAt(n)]++
		}
		out = append([][]byte{n}, out...)
	}
	return out
}

// refNibble is where a reference (or a root) is changed: near its ends or anywhere.
func refNibble(r *rand.Rand) int { return []int{0, 1, 2, 31, 32, 61, 62, 63, r.Intn(64)}[r.Intn(9)] }

// grind makes the hash of node at begin with a zero nibble.
func (ch *chain) grind(r *rand.Rand, at int, val func() []byte) {
	for i := 0; i < 200; i++ {
		ch.val = val()
		seed := r.Int63()
		ns := ch.nodes(rand.New(rand.NewSource(seed)))
		if kk(ns[at])[0]>>4 == 0 {
			ch.seed = seed
			return
		}
	}
}

func hdrAt(n []byte) int {
	if n[0] > 0xf7 {
		return int(n[0]) - 0xf7
	}
	return 0
}

// shape letters: B branch, 1..9 an extension of that many nibbles
func mkChain(r *rand.Rand, shape string, key []int) *chain {
	ch := &chain{key: key, lflag: 2, sib: r.Intn(17)}
	pos := 0
	for _, s := range shape {
		if s == 'B' {
			ch.layers = append(ch.layers, layer{})
			pos++
		} else {
			n := int(s - '0')
			ch.layers = append(ch.layers, layer{ext: true, frag: append([]int{}, key[pos:pos+n]...)})
			pos += n
		}
	}
	return ch
}
func (ch *chain) end() int {
	p := 0
	for _, l := range ch.layers {
		if l.ext {
			p += len(l.frag)
		} else {
			p++
		}
	}
	return p
}

func padVal(v []byte, n int) []int {
	x := Nib(v)
	for len(x) < n {
		x = append(x, 0)
	}
	return x[:n]
}
func zeroVal(n int) []int { x := make([]int, n); x[0] = 8; return x }
func randVal(r *rand.Rand, max int) []byte {
	n := []int{1, 2, 20, 31, 32}[r.Intn(5)]
	if max > 66 && r.Intn(2) == 0 {
		n = 60 + r.Intn(max/2-64)
	}
	b := RandBytes(r, n)
	b[0] |= 1
	return encStr(b)
}

const nodeSize = 4 * 272

type scen struct {
	Shape string `json:"shape"`
	Dev   string `json:"dev"`
	At    int    `json:"at"`
}

func (s scen) id(i int) string { return fmt.Sprintf("%s-%s-%d-%d", s.Dev, s.Shape, s.At, i) }

func size(shape string) int { return len(shape) }

// scenarios come from the specification (MC_Mpt); the driver adds more shapes
func scens(c *Ctx) []scen {
	var out []scen
	for _, raw := range c.Scen {
		var s scen
		if err := json.Unmarshal(raw, &s); err != nil {
			panic(err)
		}
		out = append(out, s)
	}
	return out
}

func dbOf(nodes ...[][]byte) *db {
	d := newDB()
	for _, n := range nodes {
		for _, x := range n {
			d.put(x)
		}
	}
	return d
}
func (d *db) ev() [][]int {
	out := [][]int{}
	for _, n := range d.nodes {
		out = append(out, Nib(n))
	}
	return out
}

func randKey(r *rand.Rand) []int { return randNib(r, 64) }

// c08: false statements must never be accepted.
func c08(c *Ctx) {
	for i, s := range scens(c) {
		if strings.HasPrefix(s.Dev, "abs") || strings.HasPrefix(s.Dev, "idx") {
			continue
		}
		n := 1
		if s.Dev == "ref" {
			n = 3
		}
		for k := 0; k < n; k++ {
			c.Add("forge", s.id(i+10000*k), func(r *Rec) { forge(r, s, false) })
		}
	}
}

func (w *wit) setLast(d *db, n []byte, p int) {
	w.last, w.lastR = pad(n, w.lastSize)
	w.lastP = p
	w.path[len(w.path)-1] = -1
	if j, ok := d.at[string(kk(n))]; ok {
		w.path[len(w.path)-1] = j
	}
}

// forge builds one false statement with a witness in which one kind of check fails.
func forge(r *Rec, s scen, storage bool) {
	rnd := r.Rnd
	maxVal := 66
	if rnd.Intn(6) == 0 && !storage {
		maxVal = 228
	}
	key := randKey(rnd)
	val := randVal(rnd, maxVal)
	ch := mkChain(rnd, s.Shape, key)
	ch.val = val
	maxDepth := len(s.Shape) + 1 + rnd.Intn(2)
	if maxDepth < 2 {
		maxDepth = 2
	}
	k2, v2 := append([]int{}, key...), padVal(val, maxVal)
	other := func(n int) int { return (n + 1 + rnd.Intn(15)) % 16 }
	pos := make([]int, len(ch.layers)+1)
	for i, l := range ch.layers {
		pos[i+1] = pos[i] + 1
		if l.ext {
			pos[i+1] = pos[i] + len(l.frag)
		}
	}
	end := pos[len(pos)-1]
	at := s.At
	var w *wit
	var d *db
	lay := func() { // the honest layout of the chain
		ns := ch.nodes(rnd)
		d = dbOf(ns)
		w = build(d, ns, k2, v2, kk(ns[0]), maxDepth, nodeSize, nodeSize)
	}
	isExt := at < len(ch.layers) && ch.layers[at].ext
	switch s.Dev {
	case "value": // another value
		lay()
		n := len(Nib(val))
		switch rnd.Intn(4) {
		case 0:
			w.val[rnd.Intn(n)] ^= 1 << rnd.Intn(4)
		case 1:
			w.val[n-1] ^= 1 << rnd.Intn(4)
		case 2:
			w.val[0] ^= 1 << rnd.Intn(4)
		case 3:
			w.val = zeroVal(maxVal)
		}
	case "link": // everything below layer `at` is forged for another value (at = len: the leaf; 0: the root too)
		lay()
		f := *ch
		f.val = randVal(rnd, maxVal)
		if string(f.val) == string(val) {
			f.val = encStr(RandBytes(rnd, 32))
		}
		fn := f.nodes(rnd)
		w2 := build(d, fn, k2, padVal(f.val, maxVal), nil, maxDepth, nodeSize, nodeSize)
		w2.root = w.root
		for i := 0; i < at && i < len(w.nodes); i++ {
			w2.nodes[i], w2.rounds[i], w2.plens[i], w2.path[i] = w.nodes[i], w.rounds[i], w.plens[i], w.path[i]
		}
		w = w2
	case "ref": // one nibble of a reference (at 0: of the root) is another
		if rnd.Intn(2) == 0 {
			ch.grind(rnd, at, func() []byte { return randVal(rnd, maxVal) })
			val, v2 = ch.val, padVal(ch.val, maxVal)
		}
		j := refNibble(rnd)
		if at > 0 {
			ch.layers[at-1].flip = 1 + j
		}
		lay()
		if at == 0 {
			w.root = append([]int{}, w.root...)
			w.root[j] ^= 1 << rnd.Intn(4)
		}
	case "keylink": // as link, for another key that leaves the path at the end
		lay()
		f := *ch
		f.key = append([]int{}, key...)
		f.key[63] = other(key[63])
		fn := f.nodes(rnd)
		w2 := build(d, fn, f.key, v2, nil, maxDepth, nodeSize, nodeSize)
		w2.root = w.root
		for i := 0; i < at && i < len(w.nodes); i++ {
			w2.nodes[i], w2.rounds[i], w2.plens[i], w2.path[i] = w.nodes[i], w.rounds[i], w.plens[i], w.path[i]
		}
		w = w2
	case "key": // another key: one nibble consumed by layer `at` (or by the leaf) differs
		lay()
		p := pos[at]
		if at == len(ch.layers) {
			p += []int{0, rnd.Intn(64 - p), 63 - p}[rnd.Intn(3)]
		} else if isExt {
			p += rnd.Intn(len(ch.layers[at].frag))
		}
		w.key[p] = other(w.key[p])
	case "start": // the walk does not begin at the first nibble (the leaf is short by that much)
		ch.lfrag = append([]int{}, key[end:63]...)
		lay()
		n0 := rnd.Intn(16)
		w.key = append([]int{n0}, key[:63]...)
		for i := range w.starts {
			if w.starts[i] < 64 {
				w.starts[i]++
			}
		}
	case "skip": // layer `at` consumes a nibble more than it has (the leaf is short by one)
		ch.lfrag = append([]int{}, key[end:63]...)
		if isExt && rnd.Intn(2) == 0 { // only the length tells
			ch.lfrag = append([]int{}, key[end:63]...)
		}
		lay()
		q := pos[at+1]
		w.key = append(append(append([]int{}, key[:q]...), 0), key[q:63]...)
		for i := at + 1; i < len(w.starts); i++ {
			if w.starts[i] < 64 {
				w.starts[i]++
			}
		}
	case "repeat": // layer `at` consumes a nibble less than it has: the leaf is long by one
		q := pos[at+1]
		if isExt {
			ch.layers[at].frag[len(ch.layers[at].frag)-1] = 0
		}
		k3 := append(append([]int{}, ch.key[:q]...), ch.key[q-1:63]...)
		if isExt {
			k3[q-1] = 0
			k3 = append(append([]int{}, k3[:q]...), k3[q:]...)
		}
		ch.key = k3
		ch.lfrag = append(append([]int{}, k3[end:]...), rnd.Intn(16))
		lay()
		// the claimed key lacks nibble q-1
		w.key = append(append([]int{}, k3[:q-1]...), ch.lfrag...)
		w.key = append(append([]int{}, k3[:q-1]...), append(append([]int{}, k3[q:end]...), ch.lfrag...)...)[:64]
		for i := at + 1; i < len(w.starts); i++ {
			w.starts[i]--
		}
	case "leafshort", "leaflong": // the leaf has fewer or more nibbles than the key
		if s.Dev == "leafshort" {
			ch.lfrag = append([]int{}, key[end:62+rnd.Intn(2)]...)
		} else {
			ch.lfrag = append(append([]int{}, key[end:]...), make([]int, 1+rnd.Intn(2))...)
			if len(hp(ch.lfrag, 2)) > 33 {
				ch.lfrag = ch.lfrag[:64]
			}
		}
		lay()
	case "extleaf": // an extension node stands where the leaf should be
		ch.lflag = 0
		lay()
	case "badflag": // a leaf whose path is not marked as a leaf in a valid way
		ch.lflag = []int{4, 6, 8, 10, 12, 14}[rnd.Intn(6)]
		lay()
	case "leafext": // a leaf node stands where an extension should be
		ch.layers[at].flag = 2
		lay()
	case "plen": // the flag length is misstated, and the nibbles arranged to agree
		lay()
		x := decode(ch.nodes(rnd)[len(ch.layers)])
		raw := hp(x.frag, 2)
		full := Nib(raw)
		w.lastP = []int{0, 1, 2, 3}[rnd.Intn(4)]
		if w.lastP == plen(x) {
			w.lastP = 3 - w.lastP
		}
		ks := full[min(w.lastP, len(full)):]
		w.key = append(append([]int{}, key[:end]...), ks...)
		for len(w.key) < 64 {
			w.key = append(w.key, 0)
		}
		w.key = w.key[:64]
	case "extplen":
		lay()
		fl := w.plens[at]
		w.plens[at] = []int{0, 3, 3 - fl}[rnd.Intn(3)]
		full := Nib(hp(ch.layers[at].frag, 0))
		m := min(w.plens[at], len(full))
		nf := full[m:]
		w.key = append(append(append([]int{}, key[:pos[at]]...), nf...), key[pos[at+1]:]...)
		for len(w.key) < 64 {
			w.key = append(w.key, 0)
		}
		w.key = w.key[:64]
		for i := at + 1; i < len(w.starts); i++ {
			w.starts[i] = min(64, w.starts[i]+len(nf)-len(ch.layers[at].frag))
		}
	case "cut": // a reference shorter than a hash
		ch.layers[at].cut = 1 + rnd.Intn(12)
		lay()
	case "badlist": // the node's list length is wrong
		ch.layers[at].bad = 1
		lay()
	case "type": // the node is declared to be of the other kind, or of no kind
		lay()
		w.types[at] = 1 - w.types[at]
		w.key[pos[at]] = other(w.key[pos[at]])
	case "types": // type flags that are no flags
		lay()
		w.types[at] = []int{2, -1, 3}[rnd.Intn(3)]
		w.val[0] ^= 1
	case "depth1": // only the root is honest, the leaf is made up
		lay()
		w.starts = w.starts[:1]
		w.fill2()
		w.depth = 1
		fk := randKey(rnd)
		fv := randVal(rnd, maxVal)
		w.key, w.val = fk, padVal(fv, maxVal)
		w.path = []int{-1}
		w.lastSize = nodeSize
		w.setLast(d, mkLeaf(fk, fv), 2)
	case "depth": // the depth is misstated
		lay()
		w.depth = []int{0, w.depth - 1, w.depth + 1, w.maxDepth + 1, -1}[at%5]
		w.val[2] ^= 1
	case "short": // layers are left out: the leaf hangs from the root directly
		lay()
		ns := ch.nodes(rnd)
		_ = ns
		w.depth = at + 1
		w.val[2] ^= 3
	case "honest":
		lay()
		r.Hdr["db"] = d.ev()
		r.Add(w.event(storage, true))
		return
	default:
		panic("unknown deviation " + s.Dev)
	}
	w.note = s.Dev
	r.Hdr["db"] = d.ev()
	r.Add(w.event(storage, false))
}

// fill2 keeps the nodes but lays the starts out again.
func (w *wit) fill2() {
	for len(w.starts) < w.maxDepth {
		w.starts = append(w.starts, w.starts[len(w.starts)-1]+1)
	}
	for i := range w.types {
		w.types[i] = 0
	}
}
