package main

import (
	"math/big"
	"strings"

	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"

	. "verifdriver/h"
)

// A prover chooses what the hints give.  liar is an API under which products
// and remainders of the emulated field come back as their other representative
// (r + p, with quotient and carries to match) wherever that fits the width, if
// pick says so: everything the field itself checks still holds.
type liar struct {
	frontend.API
	pick func() bool
}
type store interface {
	SetKeyValue(key, value any)
	GetKeyValue(key any) (value any)
}

func (l *liar) SetKeyValue(key, value any) { l.API.(store).SetKeyValue(key, value) }
func (l *liar) GetKeyValue(key any) any    { return l.API.(store).GetKeyValue(key) }

func join(limbs []*big.Int, bits uint) *big.Int {
	x := new(big.Int)
	for i := len(limbs) - 1; i >= 0; i-- {
		x.Add(x.Lsh(x, bits), limbs[i])
	}
	return x
}
func cut(x *big.Int, bits uint, limbs []*big.Int) {
	m := new(big.Int).Sub(new(big.Int).Lsh(one, bits), one)
	x = new(big.Int).Set(x)
	for i := range limbs {
		limbs[i].And(x, m)
		x.Rsh(x, bits)
	}
}

func (l *liar) NewHint(f solver.Hint, n int, in ...V) ([]V, error) {
	name := solver.GetHintName(f)
	switch {
	case strings.HasSuffix(name, "emulated.mulHint"):
		return l.API.NewHint(func(q *big.Int, in, out []*big.Int) error {
			if err := f(q, in, out); err != nil {
				return err
			}
			bits, nl := uint(in[0].Int64()), int(in[1].Int64())
			pl := in[2 : 2+nl]
			p := join(pl, bits)
			nq := (len(out) - 2*nl + 2) / 2
			ql, rl, cl := out[:nq], out[nq:nq+nl], out[nq+nl:]
			quo, rem := join(ql, bits), join(rl, bits)
			rem.Add(rem, p)
			if quo.Sign() == 0 || rem.BitLen() > p.BitLen() || !l.pick() {
				return nil
			}
			// the difference of the polynomials r + k p before and after,
			// divided by X - 2^bits, goes to the carries
			old := make([]*big.Int, nl+nq-1)
			sum := func(sign int64) {
				for i := range old {
					if old[i] == nil {
						old[i] = new(big.Int)
					}
				}
				s := big.NewInt(sign)
				for i := 0; i < nl; i++ {
					old[i].Add(old[i], new(big.Int).Mul(s, rl[i]))
					for j := 0; j < nq; j++ {
						old[i+j].Add(old[i+j], new(big.Int).Mul(s, new(big.Int).Mul(ql[j], pl[i])))
					}
				}
			}
			sum(1)
			cut(rem, bits, rl)
			cut(quo.Sub(quo, one), bits, ql)
			sum(-1)
			half := new(big.Int).Rsh(q, 1)
			carry := new(big.Int)
			for i := range cl {
				carry.Add(carry, old[i])
				carry.Rsh(carry, bits)
				c := cl[i]
				if c.Cmp(half) > 0 {
					c.Sub(c, q)
				}
				cl[i].Mod(c.Add(c, carry), q)
			}
			return nil
		}, n, in...)
	case strings.HasSuffix(name, "emulated.RemHint"):
		return l.API.NewHint(func(q *big.Int, in, out []*big.Int) error {
			if err := f(q, in, out); err != nil {
				return err
			}
			bits, nx := uint(in[0].Int64()), int(in[1].Int64())
			p := join(in[2+nx:], bits)
			r := new(big.Int).Add(join(out, bits), p)
			if r.BitLen() <= p.BitLen() && l.pick() {
				cut(r, bits, out)
			}
			return nil
		}, n, in...)
	}
	return l.API.NewHint(f, n, in...)
}
