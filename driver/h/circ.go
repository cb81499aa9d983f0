package h

import (
	"fmt"
	"math/big"
	"os"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	"github.com/consensys/gnark/test"
)

type V = frontend.Variable
type API = frontend.API

var BN254 = ecc.BN254.ScalarField()

type fnCircuit struct {
	In []V
	F  *fnBox `gnark:"-"`
}

// a pointer, because the test engine compares a clone of the circuit with DeepEqual
type fnBox struct {
	f func(api API, in []V) error
	g func(api API, in []V) ([]V, error)
}

func (c *fnCircuit) Define(api API) error { return c.F.f(api, c.In) }

// Solve runs f in the constraint test engine over the field.  It returns
// whether all constraints held, and the values f returned (nil if they did not).
func SolveIn(field *big.Int, in []*big.Int, f func(api API, in []V) []V) (bool, []*big.Int, string) {
	return SolvePlain(field, in, func(api API, vs []V) []V { return f(Fast(api), vs) })
}

// SolvePlain is SolveIn on gnark's own engine.
func SolvePlain(field *big.Int, in []*big.Int, f func(api API, in []V) []V) (bool, []*big.Int, string) {
	var out []*big.Int
	run := func(api API, vs []V) error {
		o := f(api, vs)
		out = make([]*big.Int, len(o))
		for i, v := range o {
			out[i] = Val(field, v)
		}
		return nil
	}
	as := make([]V, len(in))
	for i, b := range in {
		as[i] = b
	}
	if len(in) == 0 {
		as = []V{0}
	}
	ci := &fnCircuit{In: make([]V, len(as)), F: &fnBox{f: run}}
	wi := &fnCircuit{In: as, F: &fnBox{f: run}}
	res, msg := Try(func() error { return test.IsSolved(ci, wi, field) })
	if os.Getenv("HDBG") != "" {
		fmt.Fprintln(os.Stderr, res, msg)
	}
	if res != "ok" {
		return false, nil, msg
	}
	return true, out, ""
}
func Solve(in []*big.Int, f func(api API, in []V) []V) (bool, []*big.Int, string) {
	return SolveIn(BN254, in, f)
}

// Val reads a value out of the test engine.
func Val(field *big.Int, v V) *big.Int {
	r := new(big.Int)
	switch x := v.(type) {
	case *big.Int:
		r.Set(x)
	case big.Int:
		r.Set(&x)
	case int:
		r.SetInt64(int64(x))
	case int64:
		r.SetInt64(x)
	case uint64:
		r.SetUint64(x)
	case uint:
		r.SetUint64(uint64(x))
	case uint8:
		r.SetUint64(uint64(x))
	case uint32:
		r.SetUint64(uint64(x))
	default:
		panic(fmt.Sprintf("Val: %T", v))
	}
	return r.Mod(r, field)
}

type ioCircuit struct {
	In  []V
	Out []V    `gnark:",public"`
	F   *fnBox `gnark:"-"`
}

func (c *ioCircuit) Define(api API) error {
	o, err := c.F.g(api, c.In)
	if err != nil {
		return err
	}
	for i := range c.Out {
		api.AssertIsEqual(c.Out[i], o[i])
	}
	return nil
}

// Compile compiles f (with nOut outputs asserted equal to public inputs) to
// the named constraint system.
func Compile(field *big.Int, plonk bool, nIn, nOut int, f func(api API, in []V) ([]V, error)) (constraint.ConstraintSystem, error) {
	c := &ioCircuit{In: make([]V, nIn), Out: make([]V, nOut), F: &fnBox{g: f}}
	if plonk {
		return frontend.Compile(field, scs.NewBuilder, c)
	}
	return frontend.Compile(field, r1cs.NewBuilder, c)
}

// SolveCS asks whether the compiled system is satisfied by in and out.
func SolveCS(field *big.Int, cs constraint.ConstraintSystem, in, out []*big.Int, opts ...solver.Option) (bool, string) {
	a := &ioCircuit{In: make([]V, len(in)), Out: make([]V, len(out))}
	for i := range in {
		a.In[i] = in[i]
	}
	for i := range out {
		a.Out[i] = out[i]
	}
	res, msg := Try(func() error {
		w, err := frontend.NewWitness(a, field)
		if err != nil {
			panic(err)
		}
		return cs.IsSolved(w, opts...)
	})
	return res == "ok", msg
}

func Ints(xs ...int) []*big.Int {
	r := make([]*big.Int, len(xs))
	for i, x := range xs {
		r[i] = big.NewInt(int64(x))
	}
	return r
}
func BigsOfInts(xs []int) []*big.Int { return Ints(xs...) }

// Small gives values that must be small ints (else -1 marks a value too large).
func Small(bs []*big.Int) []int {
	r := make([]int, len(bs))
	for i, b := range bs {
		if b.BitLen() > 30 {
			r[i] = -1
		} else {
			r[i] = int(b.Int64())
		}
	}
	return r
}
