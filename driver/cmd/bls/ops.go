package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	bls "github.com/brevis-network/zk-utils/circuits/gadgets/pairing_bls12381"
	gb "github.com/consensys/gnark-crypto/ecc/bls12-381"
	"github.com/consensys/gnark-crypto/ecc/bls12-381/fr"
	"github.com/consensys/gnark/std/math/emulated"

	. "verifdriver/h"
)

// gad holds the gadget's entry points for one run.
type gad struct {
	api API
	pr  *bls.Pairing
	f   *emulated.Field[bls.BLS12381Fp]
}

func newGad(api API) *gad {
	f, err := emulated.NewField[bls.BLS12381Fp](api)
	if err != nil {
		panic(err)
	}
	pr, err := bls.NewPairing(api)
	if err != nil {
		panic(err)
	}
	return &gad{api, pr, f}
}

// An operation takes arguments and gives a result of the widths in sig: v one
// coefficient, 2 6 c the extension degrees, a an affine and j a Jacobian point
// of G2, g a point of G1, l a line; b a bit, - nothing.
type opDef struct {
	sig  string
	def  bool // may be undefined on some arguments
	f    func(g *gad, a [][]el) []el
	fbit func(g *gad, a [][]el) V
}

var width = map[byte]int{'v': 1, '2': 2, '6': 6, 'c': 12, 'a': 4, 'j': 6, 'g': 2, 'l': 6, 'p': 6, '-': 0}

func e2of(g *gad) interface {
	MulByElement(x *bls.E2, y *el) *bls.E2
	Conjugate(x *bls.E2) *bls.E2
	MulByNonResidue(x *bls.E2) *bls.E2
	MulByNonResidueInv(x *bls.E2) *bls.E2
	MulByNonResidue1Power1(x *bls.E2) *bls.E2
	MulByNonResidue1Power2(x *bls.E2) *bls.E2
	MulByNonResidue1Power3(x *bls.E2) *bls.E2
	MulByNonResidue1Power4(x *bls.E2) *bls.E2
	MulByNonResidue1Power5(x *bls.E2) *bls.E2
	MulByNonResidue2Power1(x *bls.E2) *bls.E2
	MulByNonResidue2Power2(x *bls.E2) *bls.E2
	MulByNonResidue2Power3(x *bls.E2) *bls.E2
	MulByNonResidue2Power4(x *bls.E2) *bls.E2
	MulByNonResidue2Power5(x *bls.E2) *bls.E2
	Mul(x, y *bls.E2) *bls.E2
	Add(x, y *bls.E2) *bls.E2
	Select(s V, x, y *bls.E2) *bls.E2
	Sub(x, y *bls.E2) *bls.E2
	Neg(x *bls.E2) *bls.E2
	One() *bls.E2
	Zero() *bls.E2
	Square(x *bls.E2) *bls.E2
	Div(x *bls.E2, y *bls.E2) *bls.E2
	Double(x *bls.E2) *bls.E2
	Halve(x *bls.E2) *bls.E2
	MulBybTwistCurveCoeff(x *bls.E2) *bls.E2
	Inverse(x *bls.E2) *bls.E2
	AssertIsEqual(x, y *bls.E2)
} {
	return bls.NewExt2(g.f)
}

var ops = map[string]*opDef{}

func def(name, sig string, f func(g *gad, a [][]el) []el) *opDef {
	o := &opDef{sig: sig, f: f}
	ops[name] = o
	return o
}
func (o *opDef) partial() { o.def = true }
func bit(name, sig string, f func(g *gad, a [][]el) V) {
	ops[name] = &opDef{sig: sig, fbit: f}
}

func init() {
	type A = [][]el
	// quadratic extension
	un2 := func(name string, f func(g *gad, x *bls.E2) *bls.E2) *opDef {
		return def(name, "2>2", func(g *gad, a A) []el { return f2(f(g, p2(a[0]))) })
	}
	bi2 := func(name string, f func(g *gad, x, y *bls.E2) *bls.E2) *opDef {
		return def(name, "22>2", func(g *gad, a A) []el { return f2(f(g, p2(a[0]), p2(a[1]))) })
	}
	un2("2conj", func(g *gad, x *bls.E2) *bls.E2 { return e2of(g).Conjugate(x) })
	un2("2nr", func(g *gad, x *bls.E2) *bls.E2 { return e2of(g).MulByNonResidue(x) })
	un2("2nrinv", func(g *gad, x *bls.E2) *bls.E2 { return e2of(g).MulByNonResidueInv(x) })
	un2("2f11", func(g *gad, x *bls.E2) *bls.E2 { return e2of(g).MulByNonResidue1Power1(x) })
	un2("2f12", func(g *gad, x *bls.E2) *bls.E2 { return e2of(g).MulByNonResidue1Power2(x) })
	un2("2f13", func(g *gad, x *bls.E2) *bls.E2 { return e2of(g).MulByNonResidue1Power3(x) })
	un2("2f14", func(g *gad, x *bls.E2) *bls.E2 { return e2of(g).MulByNonResidue1Power4(x) })
	un2("2f15", func(g *gad, x *bls.E2) *bls.E2 { return e2of(g).MulByNonResidue1Power5(x) })
	un2("2f21", func(g *gad, x *bls.E2) *bls.E2 { return e2of(g).MulByNonResidue2Power1(x) })
	un2("2f22", func(g *gad, x *bls.E2) *bls.E2 { return e2of(g).MulByNonResidue2Power2(x) })
	un2("2f23", func(g *gad, x *bls.E2) *bls.E2 { return e2of(g).MulByNonResidue2Power3(x) })
	un2("2f24", func(g *gad, x *bls.E2) *bls.E2 { return e2of(g).MulByNonResidue2Power4(x) })
	un2("2f25", func(g *gad, x *bls.E2) *bls.E2 { return e2of(g).MulByNonResidue2Power5(x) })
	un2("2neg", func(g *gad, x *bls.E2) *bls.E2 { return e2of(g).Neg(x) })
	un2("2sq", func(g *gad, x *bls.E2) *bls.E2 { return e2of(g).Square(x) })
	un2("2dbl", func(g *gad, x *bls.E2) *bls.E2 { return e2of(g).Double(x) })
	un2("2half", func(g *gad, x *bls.E2) *bls.E2 { return e2of(g).Halve(x) })
	un2("2twist", func(g *gad, x *bls.E2) *bls.E2 { return e2of(g).MulBybTwistCurveCoeff(x) })
	un2("2inv", func(g *gad, x *bls.E2) *bls.E2 { return e2of(g).Inverse(x) }).partial()
	bi2("2mul", func(g *gad, x, y *bls.E2) *bls.E2 { return e2of(g).Mul(x, y) })
	bi2("2add", func(g *gad, x, y *bls.E2) *bls.E2 { return e2of(g).Add(x, y) })
	bi2("2sub", func(g *gad, x, y *bls.E2) *bls.E2 { return e2of(g).Sub(x, y) })
	bi2("2div", func(g *gad, x, y *bls.E2) *bls.E2 { return e2of(g).Div(x, y) }).partial()
	def("2scale", "2v>2", func(g *gad, a A) []el { return f2(e2of(g).MulByElement(p2(a[0]), &a[1][0])) })
	def("2sel1", "22>2", func(g *gad, a A) []el { return f2(e2of(g).Select(1, p2(a[0]), p2(a[1]))) })
	def("2sel0", "22>2", func(g *gad, a A) []el { return f2(e2of(g).Select(0, p2(a[0]), p2(a[1]))) })
	def("2one", ">2", func(g *gad, a A) []el { return f2(e2of(g).One()) })
	def("2zero", ">2", func(g *gad, a A) []el { return f2(e2of(g).Zero()) })
	def("2eq", "22>-", func(g *gad, a A) []el { e2of(g).AssertIsEqual(p2(a[0]), p2(a[1])); return nil }).partial()
	// sextic
	un6 := func(name string, f func(g *gad, x *bls.E6) *bls.E6) *opDef {
		return def(name, "6>6", func(g *gad, a A) []el { return f6(f(g, p6(a[0]))) })
	}
	bi6 := func(name string, f func(g *gad, x, y *bls.E6) *bls.E6) {
		def(name, "66>6", func(g *gad, a A) []el { return f6(f(g, p6(a[0]), p6(a[1]))) })
	}
	bi6("6add", func(g *gad, x, y *bls.E6) *bls.E6 { return bls.NewExt6(g.f).Add(x, y) })
	bi6("6sub", func(g *gad, x, y *bls.E6) *bls.E6 { return bls.NewExt6(g.f).Sub(x, y) })
	bi6("6mul", func(g *gad, x, y *bls.E6) *bls.E6 { return bls.NewExt6(g.f).Mul(x, y) })
	un6("6neg", func(g *gad, x *bls.E6) *bls.E6 { return bls.NewExt6(g.f).Neg(x) })
	un6("6dbl", func(g *gad, x *bls.E6) *bls.E6 { return bls.NewExt6(g.f).Double(x) })
	un6("6sq", func(g *gad, x *bls.E6) *bls.E6 { return bls.NewExt6(g.f).Square(x) })
	un6("6nr", func(g *gad, x *bls.E6) *bls.E6 { return bls.NewExt6(g.f).MulByNonResidue(x) })
	un6("6inv", func(g *gad, x *bls.E6) *bls.E6 { return bls.NewExt6(g.f).Inverse(x) }).partial()
	def("6by2", "62>6", func(g *gad, a A) []el { return f6(bls.NewExt6(g.f).MulByE2(p6(a[0]), p2(a[1]))) })
	def("6by1", "62>6", func(g *gad, a A) []el { return f6(bls.NewExt6(g.f).MulBy1(p6(a[0]), p2(a[1]))) })
	def("6by01", "622>6", func(g *gad, a A) []el { return f6(bls.NewExt6(g.f).MulBy01(p6(a[0]), p2(a[1]), p2(a[2]))) })
	def("6eq", "66>-", func(g *gad, a A) []el { bls.NewExt6(g.f).AssertIsEqual(p6(a[0]), p6(a[1])); return nil }).partial()
	// degree twelve
	un12 := func(name string, f func(g *gad, x *bls.E12) *bls.E12) *opDef {
		return def(name, "c>c", func(g *gad, a A) []el { return f12(f(g, p12(a[0]))) })
	}
	un12("12conj", func(g *gad, x *bls.E12) *bls.E12 { return g.pr.Conjugate(x) })
	un12("12sq", func(g *gad, x *bls.E12) *bls.E12 { return g.pr.Square(x) })
	un12("12inv", func(g *gad, x *bls.E12) *bls.E12 { return g.pr.Inverse(x) }).partial()
	un12("12frob1", func(g *gad, x *bls.E12) *bls.E12 { return g.pr.Frobenius(x) })
	un12("12frob2", func(g *gad, x *bls.E12) *bls.E12 { return g.pr.FrobeniusSquare(x) })
	un12("12frob3", func(g *gad, x *bls.E12) *bls.E12 { return g.pr.FrobeniusCube(x) })
	def("12mul", "cc>c", func(g *gad, a A) []el { return f12(g.pr.Mul(p12(a[0]), p12(a[1]))) })
	def("12one", ">c", func(g *gad, a A) []el { return f12(g.pr.One()) })
	def("12by034", "c222>c", func(g *gad, a A) []el {
		return f12(g.pr.MulBy034(p12(a[0]), p2(a[1]), p2(a[2]), p2(a[3])))
	})
	def("12by014", "c222>c", func(g *gad, a A) []el {
		return f12(g.pr.MulBy014(p12(a[0]), p2(a[1]), p2(a[2]), p2(a[3])))
	})
	def("12s034", "222222>c", func(g *gad, a A) []el {
		return f12(g.pr.MulBy034by034(p2(a[0]), p2(a[1]), p2(a[2]), p2(a[3]), p2(a[4]), p2(a[5])))
	})
	def("12s014", "222222>c", func(g *gad, a A) []el {
		return f12(g.pr.Mul014By014(p2(a[0]), p2(a[1]), p2(a[2]), p2(a[3]), p2(a[4]), p2(a[5])))
	})
	def("12eq", "cc>-", func(g *gad, a A) []el { g.pr.AssertIsEqual(p12(a[0]), p12(a[1])); return nil }).partial()
	def("12c0eq", "cc>-", func(g *gad, a A) []el { g.pr.AssertC0IsEqual(p12(a[0]), p12(a[1])); return nil }).partial()
	// cyclotomic subgroup
	un12("12csq", func(g *gad, x *bls.E12) *bls.E12 { return g.pr.CyclotomicSquare(x) }).partial()
	un12("12ccomp", func(g *gad, x *bls.E12) *bls.E12 { return g.pr.CyclotomicSquareCompressed(x, x) }).partial()
	un12("12karabina", func(g *gad, x *bls.E12) *bls.E12 {
		// only the four compressed coefficients may matter
		y := *x
		y.C0.B0, y.C1.B1 = *e2of(g).One(), *e2of(g).One()
		return g.pr.DecompressKarabina(y)
	}).partial()
	un12("12half", func(g *gad, x *bls.E12) *bls.E12 { return g.pr.ExptHalf(x) }).partial()
	un12("12expt", func(g *gad, x *bls.E12) *bls.E12 { return g.pr.Expt(x) }).partial()
	// zero and equality tests
	bit("1nz", "v>b", func(g *gad, a A) V { return bls.G1NotZero(g.api, a[0][0]) })
	bit("1n1", "v>b", func(g *gad, a A) V { return bls.G1NotEqualOne(g.api, a[0][0]) })
	bit("1ne", "vv>b", func(g *gad, a A) V { return bls.G1NotEqual(g.api, a[0][0], a[1][0]) })
	bit("2nz", "2>b", func(g *gad, a A) V { return bls.E2NotZero(g.api, *p2(a[0])) })
	bit("2n1", "2>b", func(g *gad, a A) V { return bls.E2NotOne(g.api, *p2(a[0])) })
	// of differences, which are reduced first
	bit("2nzs", "22>b", func(g *gad, a A) V { return bls.E2NotZero(g.api, *e2of(g).Sub(p2(a[0]), p2(a[1]))) })
	bit("2n1s", "22>b", func(g *gad, a A) V { return bls.E2NotOne(g.api, *e2of(g).Sub(p2(a[0]), p2(a[1]))) })
	bit("2nes", "222>b", func(g *gad, a A) V { return bls.E2NotEqual(g.api, *e2of(g).Sub(p2(a[0]), p2(a[1])), *p2(a[2])) })
	def("fexp", "c>c", func(g *gad, a A) []el { return f12(g.pr.FinalExponentiation(p12(a[0]))) })
	def("map", "2>a", func(g *gad, a A) []el {
		x, y := bls.MapElementToCurve2(g.api, *p2(a[0]))
		return append(f2(x), f2(y)...)
	})
	def("mapd", "22>a", func(g *gad, a A) []el { // of a difference
		x, y := bls.MapElementToCurve2(g.api, *e2of(g).Sub(p2(a[0]), p2(a[1])))
		return append(f2(x), f2(y)...)
	})
	def("iso", "a>a", func(g *gad, a A) []el { return fa(bls.G2Isogeny(g.api, pa(a[0]))) })
	bit("2ne", "22>b", func(g *gad, a A) V { return bls.E2NotEqual(g.api, *p2(a[0]), *p2(a[1])) })
	bit("anz", "a>b", func(g *gad, a A) V { return bls.G2AffineNotInfinity(g.api, pa(a[0])) })
	// G2, affine
	def("aadd", "aa>a", func(g *gad, a A) []el { return fa(bls.G2AddAssign(g.api, *pa(a[0]), *pa(a[1]))) }).partial()
	def("asub", "aa>a", func(g *gad, a A) []el { return fa(bls.G2SubAssign(g.api, *pa(a[0]), *pa(a[1]))) }).partial()
	def("adbl", "a>a", func(g *gad, a A) []el { return fa(bls.G2Double(g.api, *pa(a[0]))) }).partial()
	def("ada", "aa>a", func(g *gad, a A) []el { return fa(bls.DoubleAndAdd(g.api, pa(a[0]), pa(a[1]))) }).partial()
	def("aneg", "a>a", func(g *gad, a A) []el { return fa(bls.G2Neg(g.api, *pa(a[0]))) })
	def("aneg2", "a>a", func(g *gad, a A) []el { return fa(g.pr.NegAffine(pa(a[0]))) })
	def("aphi", "a>a", func(g *gad, a A) []el { q := bls.G2Phi(g.api, *pa(a[0])); return fa(&q) })
	def("apsi", "a>a", func(g *gad, a A) []el { return fa(bls.G2Psi(g.api, *pa(a[0]))) })
	def("ax", "a>a", func(g *gad, a A) []el { return fa(bls.G2ConstScalarMul(g.api, *pa(a[0]))) }).partial()
	def("ax2", "a>a", func(g *gad, a A) []el { q := bls.G2ConstScalarMulV2(g.api, *pa(a[0])); return fa(&q) }).partial()
	def("aclear", "a>a", func(g *gad, a A) []el { return fa(bls.G2ClearCofactor(g.api, *pa(a[0]))) }).partial()
	def("ajac", "a>j", func(g *gad, a A) []el { return fj(bls.GetG2JacFromG2Affine(g.api, pa(a[0]))) })
	def("aproj", "a>p", func(g *gad, a A) []el { return fpj(g.pr.AffineToProjective(pa(a[0]))) })
	// Jacobian
	wj := func(q bls.G2Jacobian) []el { return fj(&q) }
	def("jadd", "jj>j", func(g *gad, a A) []el { return wj(bls.G2JacobianAddAssign(g.api, *pj(a[0]), *pj(a[1]))) })
	def("jsub", "jj>j", func(g *gad, a A) []el { return wj(bls.G2JacobianSubAssign(g.api, *pj(a[0]), *pj(a[1]))) })
	def("jdbl", "j>j", func(g *gad, a A) []el { return wj(bls.G2JacobianDouble(g.api, *pj(a[0]))) })
	def("jneg", "j>j", func(g *gad, a A) []el { return wj(bls.G2JacobianNeg(g.api, *pj(a[0]))) })
	def("jphi", "j>j", func(g *gad, a A) []el { return wj(bls.G2JacobianPhi(g.api, *pj(a[0]))) })
	def("jpsi", "j>j", func(g *gad, a A) []el { return wj(bls.G2JacobianPsi(g.api, *pj(a[0]))) })
	def("jx", "j>j", func(g *gad, a A) []el { return wj(bls.G2JacobianConstScalarMul(g.api, *pj(a[0]))) })
	def("jclear", "j>j", func(g *gad, a A) []el { return fj(bls.ClearCofactor(g.api, *pj(a[0]))) })
	def("jaff", "j>a", func(g *gad, a A) []el { return fa(bls.GetG2AffineFromG2Jac(g.api, pj(a[0]))) })
	// projective steps of the Miller loop, each with its line
	def("pdbl", "p>pl", func(g *gad, a A) []el {
		q, l := g.pr.DoubleStep(pp(a[0]))
		return append(fpj(q), line(l)...)
	}).partial()
	def("padd", "pa>pl", func(g *gad, a A) []el {
		q, l := g.pr.AddStep(pp(a[0]), pa(a[1]))
		return append(fpj(q), line(l)...)
	}).partial()
}

// run does one operation on its own.
func run(r *Rec, name string, args ...[]*big.Int) {
	runIn(r, BN254, 0, name, args...)
}

// runLie is run for a prover whose hints are off where they can be: in all
// places (1) or in about half of them (2).
func runLie(r *Rec, name string, args ...[]*big.Int) {
	runIn(r, BN254, 1, name, args...)
	runIn(r, BN254, 2, name, args...)
}
func lying(r *Rec, lie int, api API) API {
	if lie == 0 {
		return api
	}
	return &liar{api, func() bool { return lie == 1 || r.Rnd.Intn(2) == 0 }}
}
func runIn(r *Rec, field *big.Int, lie int, name string, args ...[]*big.Int) {
	o := ops[name]
	if o == nil {
		panic(name)
	}
	var in, out []*big.Int
	for i, a := range args {
		if len(a) != width[o.sig[i]] {
			panic(fmt.Sprint(name, " argument ", i))
		}
		in = append(in, wire(a)...)
	}
	ok, _, msg := SolvePlain(field, in, func(api API, v []V) []V {
		out = step(newGad(lying(r, lie, api)), field, o, split(o, args, wired(v)))
		return nil
	})
	e := Ev{"op": name, "a": argsOf(args), "acc": B(ok), "out": Digs(out), "raw": B(lie > 0 || raw(args))}
	if !ok {
		e["why"], e["out"] = msg[:min(len(msg), 200)], []int{}
	}
	r.Add(e)
}

// raw: some coefficient is given as its other representative.
func raw(args [][]*big.Int) bool {
	for _, a := range args {
		for _, x := range a {
			if x.Cmp(P) >= 0 {
				return true
			}
		}
	}
	return false
}
func argsOf(args [][]*big.Int) [][][]int {
	out := make([][][]int, len(args))
	for i, a := range args {
		out[i] = Digs(wordsOf(a))
	}
	return out
}
func split(o *opDef, args [][]*big.Int, es []el) (out [][]el) {
	for _, a := range args {
		out = append(out, es[:len(a)])
		es = es[len(a):]
	}
	return out
}
func step(g *gad, field *big.Int, o *opDef, a [][]el) []*big.Int {
	if o.fbit != nil {
		return []*big.Int{Val(field, o.fbit(g, a))}
	}
	return values(field, o.f(g, a))
}

// chain runs a random straight-line program over total operations of the given
// kinds in one circuit: results stay unreduced as the gadget leaves them and
// feed later operations.
func chain(r *Rec, names []string, regs map[byte][][]*big.Int, n int) {
	var in []*big.Int
	kinds := SortedKeys(map[string]bool{"2": true, "6": true, "a": true, "c": true, "j": true, "p": true, "v": true})
	for _, k := range kinds {
		for _, v := range regs[k[0]] {
			in = append(in, wire(v)...)
		}
	}
	var evs []Ev
	ok, _, msg := SolvePlain(BN254, in, func(api API, v []V) []V {
		evs = nil
		g, es := newGad(api), wired(v)
		file := map[byte][][]el{}
		for _, k := range kinds {
			for _, v := range regs[k[0]] {
				file[k[0]] = append(file[k[0]], es[:len(v)])
				es = es[len(v):]
			}
		}
		for i := 0; i < n; i++ {
			name := names[r.Rnd.Intn(len(names))]
			o := ops[name]
			io := strings.Split(o.sig, ">")
			var a [][]el
			var av [][]*big.Int
			for _, c := range []byte(io[0]) {
				f := file[c]
				// the latest results more often than the rest
				j := r.Rnd.Intn(len(f))
				if r.Rnd.Intn(2) == 0 {
					j = len(f) - 1 - r.Rnd.Intn(min(3, len(f)))
				}
				a = append(a, f[j])
				av = append(av, values(BN254, f[j]))
			}
			if o.fbit != nil {
				out := Val(BN254, o.fbit(g, a))
				evs = append(evs, Ev{"op": name, "a": argsOf(av), "acc": 1, "raw": 0, "out": Digs([]*big.Int{out})})
				continue
			}
			res := o.f(g, a)
			evs = append(evs, Ev{"op": name, "a": argsOf(av), "acc": 1, "raw": 0, "out": Digs(values(BN254, res))})
			c := io[1][0]
			file[c] = append(file[c], res)
		}
		return nil
	})
	for _, e := range evs {
		r.Add(e)
	}
	if !ok {
		r.Add(Ev{"op": "prog", "a": []int{}, "acc": 0, "raw": 0, "out": []int{}, "why": msg[:min(len(msg), 200)]})
	}
}

// up is the other representative, where there is room for one.
func up(v []*big.Int) []*big.Int {
	out := make([]*big.Int, len(v))
	for i := range v {
		out[i] = new(big.Int).Add(v[i], P)
		if out[i].BitLen() > 381 {
			out[i] = v[i]
		}
	}
	return out
}

func coeffs(rnd *rand.Rand) []*big.Int {
	b := func(n uint) *big.Int { return new(big.Int).Lsh(one, n) }
	m := func(x *big.Int, d int64) *big.Int { return new(big.Int).Add(x, big.NewInt(d)) }
	return []*big.Int{new(big.Int), one, big.NewInt(2), m(P, -1), m(P, -2), new(big.Int).Rsh(P, 1), m(new(big.Int).Rsh(P, 1), 1),
		w64, b(64), m(b(320), -1), b(320), m(b(380), -1), b(380), P, m(P, 1), m(b(381), -1), rndFp(rnd), rndFp(rnd)}
}

// vec is a random value of n coefficients; sparse or extreme ones are frequent.
func vec(rnd *rand.Rand, pool []*big.Int, n int) []*big.Int {
	out := make([]*big.Int, n)
	mode := rnd.Intn(4)
	for i := range out {
		switch {
		case mode == 0 || (mode == 1 && rnd.Intn(2) == 0):
			out[i] = pool[rnd.Intn(len(pool))]
		case mode == 2 && rnd.Intn(3) > 0:
			out[i] = new(big.Int)
		default:
			out[i] = rndFp(rnd)
		}
	}
	return out
}

func c27(c *Ctx) {
	pool := coeffs(c.Rand("coeffs"))
	zero := func(n int) []*big.Int { return Ints(make([]int, n)...) }
	ones := func(n int) []*big.Int { v := zero(n); v[0] = one; return v }
	degree := map[byte]int{'2': 2, '6': 6, 'c': 12, 'v': 1}
	// every field operation on its own
	for _, name := range SortedKeys(ops) {
		name, o := name, ops[name]
		ins := strings.Split(o.sig, ">")[0]
		if strings.Trim(ins, "26cv") != "" || name == "fexp" || strings.HasPrefix(name, "map") || name == "12csq" || name == "12ccomp" || name == "12karabina" || name == "12half" || name == "12expt" {
			continue
		}
		c.Add("field", "op/"+name, func(r *Rec) {
			if ins == "" {
				run(r, name)
				return
			}
			var av []*big.Int
			all := func(f func(n int) []*big.Int) (out [][]*big.Int) {
				for i := range ins {
					av = f(degree[ins[i]])
					out = append(out, av)
				}
				return out
			}
			run(r, name, all(zero)...)
			run(r, name, all(ones)...)
			run(r, name, all(func(n int) []*big.Int { v := zero(n); v[n-1] = one; return v })...)
			run(r, name, all(func(n int) []*big.Int { // all p-1
				v := zero(n)
				for i := range v {
					v[i] = new(big.Int).Sub(P, one)
				}
				return v
			})...)
			run(r, name, all(func(n int) []*big.Int { // the widest representatives
				v := zero(n)
				for i := range v {
					v[i] = new(big.Int).Sub(new(big.Int).Lsh(one, 381), one)
				}
				return v
			})...)
			if strings.HasSuffix(name, "eq") || strings.HasSuffix(name, "ne") || strings.HasSuffix(name, "n1") || strings.HasSuffix(name, "nz") {
				for i := 0; i < c.N(8, 60); i++ {
					x := vec(r.Rnd, pool, degree[ins[0]])
					if i%3 == 0 {
						x = ones(len(x))
					}
					if i%3 == 1 {
						x = zero(len(x))
					}
					y := append([]*big.Int{}, x...)
					a := [][]*big.Int{x, y}[:len(ins)]
					run(r, name, a...)
					a[len(a)-1] = up(x)
					run(r, name, a...)
					j := r.Rnd.Intn(len(x))
					for _, d := range []int64{1, -1, 2} { // one coefficient away
						z := append([]*big.Int{}, x...)
						z[j] = new(big.Int).Mod(new(big.Int).Add(x[j], big.NewInt(d)), P)
						a[len(a)-1] = z
						run(r, name, a...)
					}
				}
			}
			if strings.HasSuffix(name, "s") && o.fbit != nil {
				for i := 0; i < c.N(6, 40); i++ {
					x, z := vec(r.Rnd, pool, 2), zero(2)
					if name == "2n1s" || i%2 == 0 {
						z[0] = one
					}
					y := wordsOf([]*big.Int{new(big.Int).Sub(x[0], z[0]), new(big.Int).Sub(x[1], z[1])})
					for _, w := range [][]*big.Int{y, up(y), x} {
						a := [][]*big.Int{x, w, z}[:len(ins)]
						run(r, name, a...)
						runLie(r, name, a...)
					}
				}
			}
			for i := 0; i < c.N(8, 80); i++ {
				run(r, name, all(func(n int) []*big.Int {
					if len(ins) > 1 && r.Rnd.Intn(8) == 0 && len(av) == n {
						return av // equal arguments
					}
					v := vec(r.Rnd, pool, n)
					if r.Rnd.Intn(3) == 0 {
						v = up(wordsOf(v))
					}
					return v
				})...)
			}
		})
	}
	for i, f := range []string{"2", "6", "12"} {
		f := f
		names := []string{}
		for _, n := range SortedKeys(ops) {
			o := ops[n]
			if strings.HasPrefix(n, f) && !o.def && !strings.HasPrefix(n, "12") == (f != "12") {
				names = append(names, n)
			}
		}
		for k := 0; k < c.N(3, 16); k++ {
			c.Add("chain", fmt.Sprintf("chain/%s/%d", f, k), func(r *Rec) {
				regs := map[byte][][]*big.Int{}
				for j := 0; j < 3; j++ {
					for _, w := range []byte("26cv") {
						regs[w] = append(regs[w], vec(r.Rnd, pool, degree[w]))
					}
				}
				chain(r, names, regs, c.N([]int{60, 40, 25}[i], []int{160, 80, 50}[i]))
			})
		}
	}
	c27cyclo(c)
	c27points(c, pool)
}

func c27cyclo(c *Ctx) {
	names := []string{"12csq", "12ccomp", "12karabina", "12half", "12expt"}
	var id gb.GT
	id.SetOne()
	k := c.N(2, 8)
	for _, n := range names {
		n := n
		for i := 0; i < k; i++ {
			i := i
			c.Add("cyclo", fmt.Sprintf("cyclo/%s/%d", n, i), func(r *Rec) {
				x := cyclo(r.Rnd)
				run(r, n, ofGT(&x))
				g3 := cyclo0(r.Rnd)
				run(r, n, ofGT(&g3))
				runLie(r, n, ofGT(&x))
				runLie(r, n, ofGT(&g3))
				if i == 0 {
					run(r, n, ofGT(&id))
					run(r, n, up(ofGT(&id)))
					p, _ := gb.Pair([]gb.G1Affine{gen1}, []gb.G2Affine{gen2})
					run(r, n, ofGT(&p))
				}
				if n == "12half" || n == "12expt" {
					for _, m := range []uint{15, 47} { // the compressed form meets g3 = 0 on the way
						h := halved(g3, m)
						run(r, n, ofGT(&h))
					}
				} else {
					g3.Conjugate(&g3)
					run(r, n, up(ofGT(&g3)))
				}
			})
		}
	}
	for i := 0; i < c.N(2, 10); i++ {
		c.Add("cyclo", fmt.Sprintf("cyclo/chain/%d", i), func(r *Rec) {
			x, y := cyclo(r.Rnd), cyclo0(r.Rnd)
			chain(r, []string{"12csq", "12mul", "12conj", "12frob1", "12frob2", "12frob3", "12karabina"}, map[byte][][]*big.Int{'c': {ofGT(&x), ofGT(&id), ofGT(&y)}}, c.N(25, 60))
		})
	}
}

// jac is the point with the given Z; Z = 0 or the point (0, 0) give infinity.
func jac(q gb.G2Affine, z gb.E2) []*big.Int {
	var x, y, zz gb.E2
	if q.IsInfinity() || z.IsZero() {
		x.Square(&z)
		y.Mul(&x, &z)
		return append(append(ofE2(&x), ofE2(&y)...), zeroB, zeroB)
	}
	zz.Square(&z)
	x.Mul(&q.X, &zz)
	zz.Mul(&zz, &z)
	y.Mul(&q.Y, &zz)
	return append(append(ofE2(&x), ofE2(&y)...), ofE2(&z)...)
}
func proj(q gb.G2Affine, z gb.E2) []*big.Int {
	var x, y gb.E2
	x.Mul(&q.X, &z)
	y.Mul(&q.Y, &z)
	return append(append(ofE2(&x), ofE2(&y)...), ofE2(&z)...)
}

var zeroB = new(big.Int)

func c27points(c *Ctx, pool []*big.Int) {
	rnd := c.Rand("points")
	pts := map[string]gb.G2Affine{"g": gen2, "2g": mulG2(big.NewInt(2)), "-g": mulG2(big.NewInt(-1)), "o": {}}
	for i := 0; i < c.N(2, 6); i++ {
		q, t := mulG2(rndK(rnd)), onTwist(rnd)
		var nq, nt, ph gb.G2Affine
		nq.Neg(&q)
		nt.Neg(&t)
		// a point of the other component: the order times a point of the twist
		ph.ScalarMultiplication(&t, fr.Modulus())
		pts[fmt.Sprintf("r%d", i)], pts[fmt.Sprintf("-r%d", i)] = q, nq
		pts[fmt.Sprintf("t%d", i)], pts[fmt.Sprintf("-t%d", i)] = t, nt
		pts[fmt.Sprintf("h%d", i)] = ph
		// the same x coordinate up to a cube root of one: equal y
		var w gb.G2Affine
		w = t
		b := toFp(cubeRoot())
		w.X.MulByElement(&w.X, &b)
		pts[fmt.Sprintf("w%d", i)] = w
	}
	if z, ok := twistAt(gb.E2{}); ok { // x = 0
		pts["x0"] = z
	}
	names := SortedKeys(pts)
	var e1, e0 gb.E2
	e1.SetOne()
	for _, a := range names {
		a := a
		q := pts[a]
		c.Add("single", "g2/"+a, func(r *Rec) {
			v := ofG2(&q)
			for _, n := range []string{"anz", "adbl", "aneg", "aneg2", "aphi", "apsi", "ajac", "aproj"} {
				run(r, n, v)
				run(r, n, up(v))
			}
			for _, z := range []gb.E2{e1, rndE2(r.Rnd), e0} {
				j := jac(q, z)
				if z.IsZero() { // infinity in whatever coordinates
					s := rndE2(r.Rnd)
					j = jac(gb.G2Affine{}, s)
				}
				for _, n := range []string{"jdbl", "jneg", "jphi", "jpsi", "jaff"} {
					run(r, n, j)
					run(r, n, up(j))
					runLie(r, n, j)
				}
				if !z.IsZero() && !q.IsInfinity() {
					run(r, "pdbl", proj(q, z))
				}
			}
		})
		c.Add("pairs", "g2add/"+a, func(r *Rec) {
			for _, b := range names {
				s := pts[b]
				for i, n := range []string{"aadd", "asub", "ada", "padd"} {
					if n == "padd" {
						if !q.IsInfinity() && !s.IsInfinity() {
							run(r, n, proj(q, rndE2(r.Rnd)), ofG2(&s))
						}
						continue
					}
					if q.IsInfinity() || s.IsInfinity() {
						continue
					}
					x, y := ofG2(&q), ofG2(&s)
					if i == 1 {
						x = up(x)
					}
					run(r, n, x, y)
				}
				x, y := jac(q, rndE2(r.Rnd)), jac(s, rndE2(r.Rnd))
				run(r, "jadd", x, y)
				run(r, "jsub", jac(q, e1), y)
				run(r, "jadd", up(x), jac(s, e1))
				if a == b || r.Rnd.Intn(4) == 0 {
					runLie(r, "jadd", x, y)
					runLie(r, "jsub", x, y)
				}
			}
		})
	}
	heavy := names
	if !c.Thorough() {
		heavy = []string{"g", "o", "h0", "r0", "t0", "t1", "w0", "x0"}
	}
	for _, a := range heavy {
		q, ok := pts[a]
		if !ok {
			continue
		}
		for _, n := range []string{"jx", "jclear", "ax", "ax2", "aclear"} {
			n := n
			c.Add("scalar", "g2mul/"+n+"/"+a, func(r *Rec) {
				if n[0] == 'j' {
					run(r, n, jac(q, rndE2(r.Rnd)))
				} else {
					run(r, n, ofG2(&q))
				}
			})
		}
	}
	jn := []string{"jadd", "jsub", "jdbl", "jneg", "jphi", "jpsi", "jaff", "ajac", "apsi", "aphi", "anz"}
	for i := 0; i < c.N(3, 12); i++ {
		c.Add("chain", fmt.Sprintf("g2chain/%d", i), func(r *Rec) {
			q, t := mulG2(rndK(r.Rnd)), onTwist(r.Rnd)
			chain(r, jn, map[byte][][]*big.Int{'j': {jac(gb.G2Affine{}, rndE2(r.Rnd)), jac(q, rndE2(r.Rnd)), jac(t, e1)}, 'a': {ofG2(&q), ofG2(&t)}}, c.N(25, 60))
		})
	}
	// E2Exp and constructors
	exps := []*big.Int{zeroB, one, big.NewInt(2), big.NewInt(7), big.NewInt(255), big.NewInt(256), big.NewInt(-1), big.NewInt(-2), big.NewInt(-300), P, new(big.Int).Neg(P), w64, new(big.Int).Lsh(one, 64)}
	for i, k := range exps {
		k := k
		c.Add("exp", fmt.Sprintf("exp/%d", i), func(r *Rec) {
			for j := 0; j < 2; j++ { // the exponent is the caller's
				kk := new(big.Int).Set(k)
				var out []*big.Int
				x := vec(r.Rnd, pool, 2)
				if j == 1 {
					x = ones2(r.Rnd)
				}
				ok, _, msg := SolvePlain(BN254, wire(x), func(api API, v []V) []V {
					out = values(BN254, f2(bls.E2Exp(api, *p2(wired(v)), kk)))
					return nil
				})
				sg := 0
				if k.Sign() < 0 {
					sg = 1
				}
				e := Ev{"op": "2exp", "raw": 0, "a": argsOf([][]*big.Int{x}), "k": Dig(new(big.Int).Abs(k)), "neg": sg, "acc": B(ok), "out": Digs(out), "kept": B(kk.Cmp(k) == 0)}
				if !ok {
					e["why"], e["out"] = msg[:min(len(msg), 200)], []int{}
				}
				r.Add(e)
			}
		})
	}
	c.Add("make", "make", func(r *Rec) {
		for i := 0; i < 8; i++ {
			k := rndK(r.Rnd)
			if i == 0 {
				k = zeroB
			}
			a, b, gt := mulG1(k), mulG2(k), cyclo(r.Rnd)
			var o1, o2, o3 []*big.Int
			SolvePlain(BN254, nil, func(api API, v []V) []V {
				x, y, z := bls.NewG1Affine(a), bls.NewG2Affine(b), bls.NewGTEl(gt)
				o1, o2, o3 = values(BN254, []el{x.X, x.Y}), values(BN254, fa(&y)), values(BN254, f12(&z))
				return nil
			})
			for _, p := range [][2][]*big.Int{{ofG1(&a), o1}, {ofG2(&b), o2}, {ofGT(&gt), o3}} {
				r.Add(Ev{"op": "make", "a": argsOf([][]*big.Int{p[0]}), "acc": 1, "raw": 0, "out": Digs(p[1])})
			}
		}
	})
}
func ones2(r *rand.Rand) []*big.Int { x := rndE2(r); return ofE2(&x) }

// cubeRoot is a cube root of one other than one.
func cubeRoot() *big.Int {
	e := new(big.Int).Div(new(big.Int).Sub(P, one), big.NewInt(3))
	for g := int64(2); ; g++ {
		if w := new(big.Int).Exp(big.NewInt(g), e, P); w.Cmp(one) != 0 {
			return w
		}
	}
}
