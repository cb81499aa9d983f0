package h

import (
	"fmt"
	"math/big"
	"os"
	"reflect"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/schema"
	"github.com/consensys/gnark/test"
)

// fast is gnark's test engine with quick paths for small values: most wires of
// the nibble circuits are bits and nibbles.  Anything else goes to the engine.
type fast struct {
	frontend.API
	q *big.Int
}

// Fast wraps the test engine.
func Fast(api API) API {
	if _, ok := api.(*fast); ok {
		return api
	}
	return &fast{API: api, q: api.Compiler().Field()}
}

var tab [4096]*big.Int

func init() {
	for i := range tab {
		tab[i] = big.NewInt(int64(i))
	}
}
func mk(u uint64) V {
	if u < uint64(len(tab)) {
		return tab[u]
	}
	return new(big.Int).SetUint64(u)
}

// a value below 2^31 as an integer
func sm(v V) (uint64, bool) {
	switch x := v.(type) {
	case *big.Int:
		if x.IsUint64() {
			u := x.Uint64()
			return u, u < 1<<31
		}
	case int:
		return uint64(x), x >= 0 && x < 1<<31
	case uint:
		return uint64(x), x < 1<<31
	case uint64:
		return x, x < 1<<31
	case uint8:
		return uint64(x), true
	case uint32:
		return uint64(x), x < 1<<31
	}
	return 0, false
}
func (f *fast) big(v V) *big.Int {
	switch x := v.(type) {
	case *big.Int:
		return x
	case big.Int:
		return &x
	case int:
		if x >= 0 && x < len(tab) {
			return tab[x]
		}
	}
	b, _ := f.API.Compiler().ConstantValue(v)
	return b
}
func (f *fast) Add(a, b V, in ...V) V {
	x, ok1 := sm(a)
	y, ok2 := sm(b)
	if ok1 && ok2 {
		s := x + y
		all := true
		for _, v := range in {
			z, ok := sm(v)
			if !ok {
				all = false
				break
			}
			s += z
		}
		if all {
			return mk(s)
		}
	}
	r := new(big.Int).Add(f.big(a), f.big(b))
	for _, v := range in {
		r.Add(r, f.big(v))
	}
	if r.Sign() >= 0 && r.Cmp(f.q) < 0 {
		return r
	}
	return r.Mod(r, f.q)
}
func (f *fast) Sub(a, b V, in ...V) V {
	x, ok1 := sm(a)
	y, ok2 := sm(b)
	if ok1 && ok2 && len(in) == 0 && x >= y {
		return mk(x - y)
	}
	r := new(big.Int).Sub(f.big(a), f.big(b))
	for _, v := range in {
		r.Sub(r, f.big(v))
	}
	if r.Sign() < 0 {
		r.Add(r, f.q)
	}
	if r.Sign() >= 0 && r.Cmp(f.q) < 0 {
		return r
	}
	return r.Mod(r, f.q)
}
func (f *fast) Mul(a, b V, in ...V) V {
	x, ok1 := sm(a)
	y, ok2 := sm(b)
	var r V
	switch {
	case ok1 && ok2:
		r = mk(x * y)
	case ok1 && x == 0 || ok2 && y == 0:
		r = tab[0]
	case ok1 && x == 1:
		r = f.big(b)
	case ok2 && y == 1:
		r = f.big(a)
	default:
		p := new(big.Int).Mul(f.big(a), f.big(b))
		r = p.Mod(p, f.q)
	}
	if len(in) > 0 {
		return f.Mul(r, in[0], in[1:]...)
	}
	return r
}
func (f *fast) MulAcc(a, b, c V) V { return f.Add(a, f.Mul(b, c)) }
func (f *fast) Neg(a V) V          { return f.Sub(0, a) }

func (f *fast) bits(a, b V) (uint64, uint64, bool) {
	x, ok1 := sm(a)
	y, ok2 := sm(b)
	return x, y, ok1 && ok2 && x <= 1 && y <= 1
}
func (f *fast) Xor(a, b V) V {
	if x, y, ok := f.bits(a, b); ok {
		return tab[x^y]
	}
	return f.API.Xor(a, b)
}
func (f *fast) Or(a, b V) V {
	if x, y, ok := f.bits(a, b); ok {
		return tab[x|y]
	}
	return f.API.Or(a, b)
}
func (f *fast) And(a, b V) V {
	if x, y, ok := f.bits(a, b); ok {
		return tab[x&y]
	}
	return f.API.And(a, b)
}
func (f *fast) Select(b, i, j V) V {
	if x, ok := sm(b); ok && x <= 1 {
		if x == 1 {
			return f.big(i)
		}
		return f.big(j)
	}
	return f.API.Select(b, i, j)
}
func (f *fast) IsZero(a V) V {
	if x, ok := sm(a); ok {
		if x == 0 {
			return tab[1]
		}
		return tab[0]
	}
	return f.API.IsZero(a)
}
func (f *fast) AssertIsEqual(a, b V) {
	x, ok1 := sm(a)
	y, ok2 := sm(b)
	if ok1 && ok2 && x == y {
		return
	}
	f.API.AssertIsEqual(a, b)
}
func (f *fast) AssertIsBoolean(a V) {
	if x, ok := sm(a); ok && x <= 1 {
		return
	}
	f.API.AssertIsBoolean(a)
}
func (f *fast) ToBinary(a V, n ...int) []V {
	nb := f.q.BitLen()
	if len(n) == 1 {
		nb = n[0]
	}
	x := f.big(a)
	if nb < 0 || x.Sign() < 0 || x.BitLen() > nb || nb > f.q.BitLen() {
		return f.API.ToBinary(a, n...)
	}
	r := make([]V, nb)
	for i := range r {
		r[i] = tab[x.Bit(i)]
	}
	return r
}
func (f *fast) FromBinary(v ...V) V {
	if len(v) > 60 {
		return f.API.FromBinary(v...)
	}
	var s uint64
	for i := range v {
		x, ok := sm(v[i])
		if !ok || x > 1 {
			return f.API.FromBinary(v...)
		}
		s |= x << i
	}
	return mk(s)
}

// what gadgets ask the engine for beyond the API
func (f *fast) Commit(v ...V) (V, error) { return f.API.(frontend.Committer).Commit(v...) }
func (f *fast) BatchInvert(v []V) []V {
	b, ok := f.API.(interface{ BatchInvert([]V) []V })
	if !ok {
		panic(fmt.Sprintf("no BatchInvert in %T", f.API))
	}
	return b.BatchInvert(v)
}

type kv interface {
	SetKeyValue(key, value any)
	GetKeyValue(key any) any
}

func (f *fast) SetKeyValue(key, value any) { f.API.(kv).SetKeyValue(key, value) }
func (f *fast) GetKeyValue(key any) any    { return f.API.(kv).GetKeyValue(key) }

// Accepts runs a circuit/assignment pair in the test engine.
func Accepts(circuit, assignment frontend.Circuit) (bool, string) {
	return AcceptsIn(BN254, circuit, assignment)
}
func AcceptsIn(field *big.Int, circuit, assignment frontend.Circuit) (bool, string) {
	cv := reflect.ValueOf(circuit).Elem()
	nc := reflect.New(cv.Type())
	nc.Elem().Set(cv)
	c := nc.Interface().(frontend.Circuit)
	tv := reflect.TypeOf((*frontend.Variable)(nil)).Elem()
	res, msg := Try(func() error {
		var vals []reflect.Value
		if _, err := schema.Walk(assignment, tv, func(f schema.LeafInfo, t reflect.Value) error {
			if t.IsNil() {
				return fmt.Errorf("missing assignment: %s", f.FullName())
			}
			vals = append(vals, t)
			return nil
		}); err != nil {
			return err
		}
		i := 0
		if _, err := schema.Walk(c, tv, func(f schema.LeafInfo, t reflect.Value) error {
			t.Set(vals[i])
			i++
			return nil
		}); err != nil {
			return err
		}
		box := &fnBox{f: func(api API, _ []V) error { return c.Define(Fast(api)) }}
		return test.IsSolved(&fnCircuit{In: make([]V, 1), F: box}, &fnCircuit{In: []V{0}, F: box}, field)
	})
	if os.Getenv("HDBG") != "" {
		fmt.Fprintln(os.Stderr, res, msg)
	}
	return res == "ok", msg
}
