package main

import (
	"fmt"
	"math/big"

	bls "github.com/brevis-network/zk-utils/circuits/gadgets/pairing_bls12381"
	gb "github.com/consensys/gnark-crypto/ecc/bls12-381"
	"github.com/consensys/gnark-crypto/ecc/bls12-381/fr"

	. "verifdriver/h"
)

func rows(vs [][]*big.Int) [][][]int {
	out := make([][][]int, len(vs))
	for i, v := range vs {
		out[i] = Digs(wordsOf(v))
	}
	return out
}

// pairing runs one of
//
//	pair    the pairing of the lists
//	miller  the Miller loop alone
//	one     the assertion that the pairing is one
//	is      the assertion that the pairing is the given element
func pairing(r *Rec, lie int, op string, ps, qs [][]*big.Int, want []*big.Int) []*big.Int {
	var in, out []*big.Int
	for _, p := range ps {
		in = append(in, wire(p)...)
	}
	for _, q := range qs {
		in = append(in, wire(q)...)
	}
	if op == "is" {
		in = append(in, wire(want)...)
	}
	refused := ""
	ok, _, msg := SolvePlain(BN254, in, func(api API, v []V) []V {
		g, es := newGad(lying(r, lie, api)), wired(v)
		var a []*bls.G1Affine
		var b []*bls.G2Affine
		for range ps {
			a = append(a, g1(es))
			es = es[2:]
		}
		for range qs {
			b = append(b, pa(es))
			es = es[4:]
		}
		var x *bls.GTEl
		var err error
		if op == "miller" {
			x, err = g.pr.MillerLoop(a, b)
		} else {
			x, err = g.pr.Pair(a, b)
		}
		if err != nil {
			refused = err.Error()
			return nil
		}
		switch op {
		case "one":
			g.pr.AssertIsEqual(x, g.pr.One())
		case "is":
			g.pr.AssertIsEqual(x, p12(es))
		default:
			out = values(BN254, f12(x))
		}
		return nil
	})
	if refused != "" {
		ok, msg = false, refused
	}
	e := Ev{"op": op, "p": rows(ps), "q": rows(qs), "acc": B(ok), "raw": B(lie > 0), "out": Digs(out)}
	if op == "is" {
		e["a"] = argsOf([][]*big.Int{want})
	}
	if !ok {
		e["why"], e["out"] = msg[:min(len(msg), 200)], []int{}
		out = nil
	}
	r.Add(e)
	return out
}

func c28(c *Ctx) {
	type list struct{ ps, qs [][]*big.Int }
	one1 := func(a, b *big.Int) list {
		p, q := mulG1(a), mulG2(b)
		return list{[][]*big.Int{ofG1(&p)}, [][]*big.Int{ofG2(&q)}}
	}
	cat := func(ls ...list) (o list) {
		for _, l := range ls {
			o.ps, o.qs = append(o.ps, l.ps...), append(o.qs, l.qs...)
		}
		return o
	}
	n := func(k int64) *big.Int { return big.NewInt(k) }
	md := func(x *big.Int) *big.Int { return new(big.Int).Mod(x, fr.Modulus()) }
	mul := func(x, y *big.Int) *big.Int { return new(big.Int).Mul(x, y) }
	add := func(kind, id string, op string, f func(r *Rec) list) {
		c.Add(kind, id, func(r *Rec) { l := f(r); pairing(r, 0, op, l.ps, l.qs, nil) })
	}
	fixed := []struct {
		name string
		l    func() list
	}{
		{"gg", func() list { return one1(n(1), n(1)) }},
		{"-gg", func() list { return one1(n(-1), n(1)) }},
		{"g-g", func() list { return one1(n(1), n(-1)) }},
		{"2g3g", func() list { return one1(n(2), n(3)) }},
		{"0g", func() list { return one1(n(0), n(1)) }},
		{"g0", func() list { return one1(n(1), n(0)) }},
		{"00", func() list { return one1(n(0), n(0)) }},
		{"gg,0g", func() list { return cat(one1(n(1), n(1)), one1(n(0), n(1))) }},
		{"g0,gg", func() list { return cat(one1(n(1), n(0)), one1(n(1), n(1))) }},
		{"00,gg", func() list { return cat(one1(n(0), n(0)), one1(n(1), n(1))) }},
		{"gg,00", func() list { return cat(one1(n(1), n(1)), one1(n(0), n(0))) }},
		{"gg,gg", func() list { return cat(one1(n(1), n(1)), one1(n(1), n(1))) }},
	}
	for _, f := range fixed {
		f := f
		add("fixed", "pair/"+f.name, "pair", func(r *Rec) list { return f.l() })
		if len(f.name) == 2 || c.Thorough() {
			add("fixed", "miller/"+f.name, "miller", func(r *Rec) list { return f.l() })
		}
	}
	// a coordinate at the edges: x = 0 has no multiple in the subgroup, so
	// the nearest are multiples by the parameter, r-1 and the like
	xs := []*big.Int{n(-2), new(big.Int).Rsh(fr.Modulus(), 1), new(big.Int).SetUint64(0xd201000000010000), mul(new(big.Int).SetUint64(0xd201000000010000), new(big.Int).SetUint64(0xd201000000010000))}
	for i := 0; i < c.N(6, 40); i++ {
		i := i
		add("random", fmt.Sprintf("pair/r%d", i), "pair", func(r *Rec) list {
			a, b := rndK(r.Rnd), rndK(r.Rnd)
			if i < len(xs) {
				b = xs[i]
			}
			l := one1(a, b)
			if i%3 == 1 {
				l = cat(l, one1(rndK(r.Rnd), rndK(r.Rnd)))
			}
			if i%6 == 5 {
				l = cat(l, one1(n(int64(i)), rndK(r.Rnd)), one1(rndK(r.Rnd), n(0)))
			}
			return l
		})
	}
	for i := 0; i < c.N(2, 12); i++ {
		add("random", fmt.Sprintf("miller/r%d", i), "miller", func(r *Rec) list {
			return cat(one1(rndK(r.Rnd), rndK(r.Rnd)), one1(rndK(r.Rnd), rndK(r.Rnd)))
		})
	}
	// sum of a_i b_i zero or one off, with the last factor solved for
	for i := 0; i < c.N(6, 36); i++ {
		i := i
		add("product", fmt.Sprintf("one/%d", i), "one", func(r *Rec) list {
			s := new(big.Int)
			var ls []list
			for j := 0; j < 1+i/2%3; j++ {
				a, b := rndK(r.Rnd), rndK(r.Rnd)
				if i == 4 {
					a, b = n(1), n(1)
				}
				s.Add(s, mul(a, b))
				ls = append(ls, one1(a, b))
			}
			a := rndK(r.Rnd)
			b := md(mul(s.Neg(s), new(big.Int).ModInverse(a, fr.Modulus())))
			if i%2 == 1 { // off by little
				b = md(b.Add(b, n([]int64{1, -1, 2}[r.Rnd.Intn(3)])))
			}
			return cat(append(ls, one1(a, b))...)
		})
	}
	// the assertion against a given element: the right one, one coefficient
	// off, conjugate, one
	for i := 0; i < c.N(2, 8); i++ {
		c.Add("is", fmt.Sprintf("is/%d", i), func(r *Rec) {
			l := one1(rndK(r.Rnd), rndK(r.Rnd))
			out := pairing(r, 0, "pair", l.ps, l.qs, nil)
			if out == nil {
				return
			}
			pairing(r, 0, "is", l.ps, l.qs, out)
			bad := append([]*big.Int{}, out...)
			j := r.Rnd.Intn(12)
			bad[j] = new(big.Int).Mod(new(big.Int).Add(bad[j], one), P)
			pairing(r, 0, "is", l.ps, l.qs, bad)
			if c.Thorough() {
				x := toGT(out)
				x.Conjugate(&x)
				pairing(r, 0, "is", l.ps, l.qs, ofGT(&x))
			}
		})
	}
	for i := 0; i < c.N(1, 4); i++ { // a prover with other representatives
		c.Add("lie", fmt.Sprintf("lie/%d", i), func(r *Rec) {
			l := one1(rndK(r.Rnd), rndK(r.Rnd))
			pairing(r, 1, "pair", l.ps, l.qs, nil)
			pairing(r, 2, "pair", l.ps, l.qs, nil)
		})
	}
	c.Add("size", "size", func(r *Rec) {
		l := one1(n(1), n(1))
		for _, op := range []string{"pair", "miller"} {
			pairing(r, 0, op, nil, nil, nil)
			pairing(r, 0, op, l.ps, nil, nil)
			pairing(r, 0, op, nil, l.qs, nil)
			pairing(r, 0, op, append(l.ps, l.ps...), l.qs, nil)
			pairing(r, 0, op, l.ps, append(l.qs, l.qs...), nil)
		}
	})
	// the final exponentiation of any invertible element
	fe := func(id string, k int, f func(r *Rec) gb.GT) {
		for i := 0; i < k; i++ {
			c.Add("final", fmt.Sprintf("fexp/%s%d", id, i), func(r *Rec) { x := f(r); run(r, "fexp", ofGT(&x)) })
		}
	}
	var id gb.GT
	id.SetOne()
	full := func(r *Rec) (t gb.GT) {
		t.C0.B0, t.C0.B1, t.C0.B2 = rndE2(r.Rnd), rndE2(r.Rnd), rndE2(r.Rnd)
		t.C1.B0, t.C1.B1, t.C1.B2 = rndE2(r.Rnd), rndE2(r.Rnd), rndE2(r.Rnd)
		return t
	}
	fe("full", c.N(2, 12), full)
	fe("one", 1, func(r *Rec) gb.GT { return id })
	fe("fp", 1, func(r *Rec) (t gb.GT) { t.C0.B0.A0 = toFp(rndFp(r.Rnd)); return t })
	fe("fp2", 1, func(r *Rec) (t gb.GT) { t.C0.B0 = rndE2(r.Rnd); return t })
	fe("fp6", 1, func(r *Rec) (t gb.GT) { t = full(r); t.C1.B0, t.C1.B1, t.C1.B2 = gb.E2{}, gb.E2{}, gb.E2{}; return t })
	fe("w", 1, func(r *Rec) (t gb.GT) { t.C1.B0.SetOne(); return t })
	fe("wfp6", 1, func(r *Rec) (t gb.GT) { t = full(r); t.C0.B0, t.C0.B1, t.C0.B2 = gb.E2{}, gb.E2{}, gb.E2{}; return t })
	fe("fp4", 1, func(r *Rec) (t gb.GT) { t.C0.B0, t.C1.B1 = rndE2(r.Rnd), rndE2(r.Rnd); return t })
	fe("cyclo", c.N(1, 6), func(r *Rec) gb.GT { return cyclo(r.Rnd) })
	fe("sparse", c.N(1, 6), func(r *Rec) (t gb.GT) { t.C0.B0, t.C0.B1, t.C1.B1 = rndE2(r.Rnd), rndE2(r.Rnd), rndE2(r.Rnd); return t })
	// the compressed squarings meet g3 = 0: the first runs from the square of
	// the easy part, at 15 and 47 squarings
	for _, m := range []uint{0, 1, 16, 48} {
		fe(fmt.Sprintf("g3/%d/", m), c.N(1, 3), func(r *Rec) gb.GT { return uneasy(halved(cyclo0(r.Rnd), m)) })
	}
	var t gb.GT
	t.C1.B2 = gb.E2{}
	c.Add("final", "fexp/zero", func(r *Rec) { run(r, "fexp", ofGT(&t)) })
}

// uneasy is an element whose easy part is the given cyclotomic one.
func uneasy(x gb.GT) gb.GT {
	p2 := new(big.Int).Mul(P, P)
	p4 := new(big.Int).Mul(p2, p2)
	phi := new(big.Int).Sub(p4, p2)
	phi.Add(phi, one)
	e := new(big.Int).Exp(P, big.NewInt(6), nil)
	e.Sub(e, one)
	e.Mul(e, new(big.Int).Add(p2, one))
	inv := new(big.Int).ModInverse(e, phi)
	if inv == nil {
		panic("easy part not invertible")
	}
	var y gb.GT
	y.Exp(x, inv)
	return y
}

// hashing
func hashing(r *Rec, lie int, op string, count int, msg []*big.Int) {
	var out []*big.Int
	ok, _, why := SolvePlain(BN254, msg, func(api API, v []V) []V {
		out = nil
		api = lying(r, lie, api)
		var m [32]V
		copy(m[:], v)
		var es []el
		switch op {
		case "xmd":
			for _, b := range bls.ExpandMsgXmd(api, m, count) {
				out = append(out, Val(BN254, b))
			}
			return nil
		case "field":
			for _, x := range bls.HashToField(api, m, count) {
				es = append(es, f2(&x)...)
			}
		case "encode":
			es = fa(bls.EncodeToG2(api, m))
		case "encodej":
			es = fa(bls.EncodeToG2OnJac(api, m))
		case "hash":
			es = fa(bls.HashToG2(api, m))
		case "hashj":
			es = fa(bls.HashToG2OnJac(api, m))
		}
		out = values(BN254, es)
		return nil
	})
	e := Ev{"op": op, "n": count, "acc": B(ok), "raw": B(lie > 0)}
	bytes := true
	var mv []int
	for _, b := range msg {
		bytes = bytes && b.BitLen() <= 8
		mv = append(mv, int(new(big.Int).And(b, big.NewInt(0xffff)).Int64()))
	}
	e["m"], e["bytes"] = mv, B(bytes)
	if !ok {
		e["why"], e["out"] = why[:min(len(why), 200)], []int{}
	} else if op == "xmd" {
		var o []int
		for _, b := range out {
			if b.BitLen() > 16 {
				b = big.NewInt(0xffff)
			}
			o = append(o, int(b.Int64()))
		}
		e["out"] = o
	} else {
		e["out"] = Digs(out)
	}
	r.Add(e)
}

func c29(c *Ctx) {
	msgs := func(r *Rec, k int) (out [][]*big.Int) {
		fill := func(f func(i int) int64) []*big.Int {
			m := make([]*big.Int, 32)
			for i := range m {
				m[i] = big.NewInt(f(i))
			}
			return m
		}
		out = append(out, fill(func(i int) int64 { return 0 }), fill(func(i int) int64 { return 255 }), fill(func(i int) int64 { return int64(i) }),
			fill(func(i int) int64 { return int64(128 >> (i % 8)) }))
		for len(out) < k {
			out = append(out, fill(func(i int) int64 { return int64(r.Rnd.Intn(256)) }))
		}
		return out[:k]
	}
	rnd := c.Rand("msgs")
	all := msgs(&Rec{Rnd: rnd}, c.N(6, 40))
	for i, m := range all {
		m := m
		for _, op := range []string{"encode", "encodej", "hash", "hashj"} {
			op := op
			if !c.Thorough() && i >= 4 && (i+len(op))%2 == 0 {
				continue
			}
			c.Add(op, fmt.Sprintf("%s/%d", op, i), func(r *Rec) { hashing(r, 0, op, 2, m) })
		}
	}
	counts := []int{1, 2, 3, 4, 5, 8, 16}
	if c.Thorough() {
		counts = append(counts, 6, 7, 9, 31, 32, 33, 63, 64, 65, 100, 126, 127)
	}
	for _, n := range counts {
		n := n
		c.Add("xmd", fmt.Sprintf("xmd/%d", n), func(r *Rec) {
			for i, m := range msgs(r, c.N(5, 8)) {
				if n > 8 && i < 3 {
					continue
				}
				hashing(r, 0, "xmd", n, m)
				if n < 9 {
					hashing(r, 0, "field", n, m)
				}
			}
		})
	}
	c.Add("bytes", "bytes", func(r *Rec) { // message entries that are not bytes
		for i := 0; i < c.N(4, 16); i++ {
			m := msgs(r, 5)[4]
			m[r.Rnd.Intn(32)] = []*big.Int{big.NewInt(256), big.NewInt(511), new(big.Int).Sub(BN254, one), new(big.Int).Lsh(one, 200)}[i%4]
			hashing(r, 0, "xmd", 1+i%2, m)
		}
	})
	// the map, on arbitrary elements
	h := new(big.Int).Rsh(P, 1)
	m1 := new(big.Int).Sub(P, one)
	z, two := new(big.Int), big.NewInt(2)
	us := [][]*big.Int{{z, z}, {one, z}, {z, one}, {m1, z}, {z, m1}, {m1, m1}, {one, one}, {two, z}, {z, two}, {h, z}, {z, h}, {new(big.Int).Add(h, one), one}, {z, new(big.Int).Add(h, one)}}
	for i := 0; i < c.N(8, 120); i++ {
		a, b := rndFp(rnd), rndFp(rnd)
		switch i % 8 {
		case 4:
			a = z
		case 5:
			b = z
		case 6:
			a = new(big.Int).Sub(a, new(big.Int).And(a, w64)) // low limb zero
		}
		us = append(us, []*big.Int{a, b})
	}
	us = append(us, up([]*big.Int{z, z}), up([]*big.Int{z, one}), up([]*big.Int{one, z}))
	for i, u := range us {
		u := u
		c.Add("map", fmt.Sprintf("map/%d", i), func(r *Rec) {
			run(r, "map", u)
			if i%5 == 0 || c.Thorough() {
				runLie(r, "map", u)
				runLie(r, "mapd", up(u), u)
				runLie(r, "mapd", u, u)
			}
		})
	}
	c.Add("iso", "iso", func(r *Rec) {
		for i := 0; i < c.N(10, 60); i++ {
			x, y := rndE2(r.Rnd), rndE2(r.Rnd)
			switch i {
			case 0:
				x = gb.E2{}
			case 1:
				y = gb.E2{}
			case 2:
				x.SetOne()
			case 3: // a pole of the map
				x.A0.SetUint64(6)
				x.A0.Neg(&x.A0)
				x.A1.SetUint64(6)
			case 4, 5:
				q := gb.MapToCurve2(&x)
				x, y = q.X, q.Y
			}
			run(r, "iso", append(ofE2(&x), ofE2(&y)...))
			if i > 5 {
				run(r, "iso", up(append(ofE2(&x), ofE2(&y)...)))
			}
		}
	})
	for i := 0; i < c.N(2, 10); i++ { // a prover with other representatives
		i := i
		c.Add("lie", fmt.Sprintf("lie/%d", i), func(r *Rec) {
			hashing(r, 2, "field", 2, all[i])
			hashing(r, 2, []string{"encode", "hashj", "hash", "encodej"}[i%4], 2, all[i])
		})
	}
}
