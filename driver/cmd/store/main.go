// Driver for stored proving artefacts: C34 (T_Store).
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/brevis-network/zk-utils/common/utils"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/backend/groth16"
	"github.com/consensys/gnark/backend/plonk"
	"github.com/consensys/gnark/backend/witness"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	"github.com/consensys/gnark/test/unsafekzg"

	. "verifdriver/h"
)

func main() { Main(map[string]func(c *Ctx){"C34": c34}) }

type circ struct {
	X frontend.Variable
	Y frontend.Variable `gnark:",public"`
	Z [2]frontend.Variable
	n int
}

func (c *circ) Define(api frontend.API) error {
	v := c.X
	for i := 0; i < c.n; i++ {
		v = api.Mul(v, api.Add(v, i+1))
	}
	if c.n > 2 {
		k, err := api.(frontend.Committer).Commit(c.Z[0], c.X)
		if err != nil {
			return err
		}
		api.AssertIsDifferent(k, c.Z[1])
	}
	api.AssertIsEqual(api.Add(v, c.Z[0], c.Z[1]), api.Add(c.Y, v, c.Z[0], c.Z[1]))
	return nil
}

var curves = map[string]ecc.ID{"bn254": ecc.BN254, "bls377": ecc.BLS12_377, "bls381": ecc.BLS12_381, "bw761": ecc.BW6_761,
	"bls315": ecc.BLS24_315, "bls317": ecc.BLS24_317, "bw633": ecc.BW6_633}
var order = []string{"bn254", "bls377", "bw761", "bls381", "bls315", "bls317", "bw633"}
var kinds = []string{"gpk", "gvk", "gccs", "gproof", "ppk", "pvk", "pccs", "pproof", "witness", "public"}

// set is everything there is for one circuit on one curve
type set struct {
	gccs, pccs constraint.ConstraintSystem
	gpk        groth16.ProvingKey
	gvk        groth16.VerifyingKey
	gproof     groth16.Proof
	ppk        plonk.ProvingKey
	pvk        plonk.VerifyingKey
	pproof     plonk.Proof
	wit        witness.Witness
	pub        []byte
}

func must[T any](x T, err error) T {
	if err != nil {
		panic(err)
	}
	return x
}

var mu sync.Mutex
var sets = map[string]*set{}

func get(curve string, o int) *set {
	mu.Lock()
	defer mu.Unlock()
	id := fmt.Sprintf("%s-%d", curve, o)
	if s := sets[id]; s != nil {
		return s
	}
	n := []int{0, 1, 6}[o]
	f := curves[curve].ScalarField()
	s := &set{}
	s.gccs = must(frontend.Compile(f, r1cs.NewBuilder, &circ{n: n}))
	s.pccs = must(frontend.Compile(f, scs.NewBuilder, &circ{n: n}))
	s.wit = must(frontend.NewWitness(&circ{X: 3 + o, Y: 0, Z: [2]frontend.Variable{5, 7 + o}}, f))
	pk, vk, err := groth16.Setup(s.gccs)
	if err != nil {
		panic(err)
	}
	s.gpk, s.gvk = pk, vk
	s.gproof = must(groth16.Prove(s.gccs, pk, s.wit))
	srs, lag, err := unsafekzg.NewSRS(s.pccs)
	if err != nil {
		panic(err)
	}
	ppk, pvk, err := plonk.Setup(s.pccs, srs, lag)
	if err != nil {
		panic(err)
	}
	s.ppk, s.pvk = ppk, pvk
	s.pproof = must(plonk.Prove(s.pccs, ppk, s.wit))
	s.pub = RandBytes(rand.New(rand.NewSource(int64(o))), 32*o+o)
	sets[id] = s
	return s
}

func ser(x io.WriterTo) []byte {
	var b bytes.Buffer
	must(x.WriteTo(&b))
	return b.Bytes()
}

// write calls the repository's writer for the kind
func write(kind, file string, s *set) error {
	switch kind {
	case "gpk":
		return utils.WriteProvingKey(file, s.gpk)
	case "gvk":
		return utils.WriteVerifyingKey(file, s.gvk)
	case "gccs":
		return utils.WriteCcs(file, s.gccs)
	case "gproof":
		return utils.WriteProofIntoLocalFile(file, s.gproof)
	case "ppk":
		utils.WritePlonkProvingKey(file, s.ppk)
		return nil
	case "pvk":
		return utils.WritePlonkVerifyingKey(file, s.pvk)
	case "pccs":
		return utils.WritePlonkCcs(file, s.pccs)
	case "pproof":
		return utils.WritePlonkProofIntoLocalFile(s.pproof, file)
	case "witness":
		return utils.WriteWitness(file, s.wit)
	}
	return utils.WritePublicInputs(file, s.pub)
}
func pickKind(kind string, s *set) io.WriterTo {
	switch kind {
	case "gpk":
		return s.gpk
	case "gvk":
		return s.gvk
	case "gccs":
		return s.gccs
	case "gproof":
		return s.gproof
	case "ppk":
		return s.ppk
	case "pvk":
		return s.pvk
	case "pccs":
		return s.pccs
	case "pproof":
		return s.pproof
	}
	return s.wit
}

// read calls the repository's reader into a fresh object, stored in s
func read(curve, kind, file string, s *set) error {
	id := curves[curve]
	switch kind {
	case "gpk":
		s.gpk = groth16.NewProvingKey(id)
		return utils.ReadProvingKey(file, s.gpk)
	case "gvk":
		s.gvk = groth16.NewVerifyingKey(id)
		return utils.ReadVerifyingKey(file, s.gvk)
	case "gccs":
		s.gccs = groth16.NewCS(id)
		return utils.ReadCcs(file, s.gccs)
	case "gproof":
		s.gproof = groth16.NewProof(id)
		return utils.ReadProofFromLocalFile(file, s.gproof)
	case "ppk":
		s.ppk = plonk.NewProvingKey(id)
		return utils.ReadPlonkProvingKey(file, s.ppk)
	case "pvk":
		s.pvk = plonk.NewVerifyingKey(id)
		return utils.ReadPlonkVerifyingKey(file, s.pvk)
	case "pccs":
		s.pccs = plonk.NewCS(id)
		return utils.ReadPlonkCcs(file, s.pccs)
	case "pproof":
		s.pproof = plonk.NewProof(id)
		return utils.ReadPlonkProofFromLocalFile(file, s.pproof)
	case "witness":
		s.wit = must(witness.New(id.ScalarField()))
		return utils.ReadWitness(file, s.wit)
	}
	b, err := utils.ReadPublicInputs(file)
	s.pub = b
	return err
}

type store struct {
	c           *Ctx
	r           *Rec
	dir         string
	curve, kind string
}

func open(c *Ctx, r *Rec, curve, kind string) *store {
	st := &store{c: c, r: r, curve: curve, kind: kind, dir: must(os.MkdirTemp("", "verif-store-"))}
	r.Hdr["kind"] = kind
	if kind == "public" {
		r.Hdr["bytes"] = [][]int{Bytes(get(curve, 1).pub), Bytes(get(curve, 2).pub)}
	}
	return st
}
func (st *store) close()               { os.RemoveAll(st.dir) }
func (st *store) path(f string) string { return filepath.Join(st.dir, f) }
func (st *store) put(f string, o int) {
	res, _ := Try(func() error { return write(st.kind, st.path(f), get(st.curve, o)) })
	st.r.Add(Ev{"op": "put", "f": f, "o": o, "res": res})
}
func (st *store) get(f string) {
	var s set
	res, msg := Try(func() error { return read(st.curve, st.kind, st.path(f), &s) })
	e := Ev{"op": "get", "f": f, "res": res, "o": 0, "out": []int{}}
	if res != "ok" {
		e["msg"] = msg
	} else if st.kind == "public" {
		e["out"] = Bytes(s.pub)
	} else {
		e["o"] = which(st.curve, st.kind, &s)
	}
	st.r.Add(e)
}
func which(curve, kind string, s *set) (o int) {
	Try(func() error {
		b := ser(pickKind(kind, s))
		for i := 1; i <= 2; i++ {
			if bytes.Equal(b, ser(pickKind(kind, get(curve, i)))) {
				o = i
			}
		}
		return nil
	})
	return
}
func (st *store) cut(f string, n int) {
	p := st.path(f)
	i := must(os.Stat(p))
	k := 0
	if n > 0 {
		if i.Size() < 2 {
			return
		}
		k = 1 + st.r.Rnd.Intn(int(i.Size())-1)
	}
	if int(i.Size()) <= k {
		return
	}
	if err := os.Truncate(p, int64(k)); err != nil {
		panic(err)
	}
	st.r.Add(Ev{"op": "cut", "f": f, "n": k})
}

func c34(c *Ctx) {
	var combos [][2]string
	for i, cv := range order {
		for _, k := range kinds {
			if c.Thorough() || i < 4 {
				combos = append(combos, [2]string{cv, k})
			}
		}
	}
	for i, raw := range c.Scen {
		var s struct {
			H [][]interface{} `json:"h"`
		}
		if err := json.Unmarshal(raw, &s); err != nil {
			panic(err)
		}
		cb := combos[i%len(combos)]
		if !c.Thorough() && i >= 12*len(combos) {
			break
		}
		name := []string{}
		for _, h := range s.H {
			name = append(name, fmt.Sprintf("%v%v%v", h...))
		}
		c.Add("hist", fmt.Sprintf("hist-%s-%s-%s-%d", cb[0], cb[1], strings.Join(name, "."), i), func(r *Rec) {
			st := open(c, r, cb[0], cb[1])
			defer st.close()
			for _, h := range s.H {
				f, n := h[1].(string), int(h[2].(float64))
				switch h[0] {
				case "put":
					st.put(f, n)
				case "get":
					st.get(f)
				case "cut":
					st.cut(f, n)
				case "rm":
					os.Remove(st.path(f))
					r.Add(Ev{"op": "rm", "f": f})
				}
			}
		})
	}
	for _, cb := range combos {
		curve, kind := cb[0], cb[1]
		// every prefix of a small artefact, many of a large one
		if kind != "public" {
			for o := 1; o <= 2; o++ {
				c.Add("sweep", fmt.Sprintf("sweep-%s-%s-%d", curve, kind, o), func(r *Rec) {
					st := open(c, r, curve, kind)
					defer st.close()
					st.put("f", o)
					b := must(os.ReadFile(st.path("f")))
					cuts, errs := 0, 0
					step := 1
					if n := c.N(150, 2000); len(b) > n {
						step = len(b)/n + 1
					}
					for k := 0; k < len(b); k++ {
						if k%step != 0 && k > 40 && k < len(b)-40 {
							continue
						}
						if err := os.WriteFile(st.path("f"), b[:k], 0o600); err != nil {
							panic(err)
						}
						cuts++
						var s set
						if res, _ := Try(func() error { return read(curve, kind, st.path("f"), &s) }); res == "err" {
							errs++
						} else if os.Getenv("HDBG") != "" {
							fmt.Fprintln(os.Stderr, curve, kind, o, k, len(b), res)
						}
					}
					r.Add(Ev{"op": "sweep", "cuts": cuts, "errs": errs, "len": len(b)})
				})
			}
		}
		// no such directory, full device
		if kind != "ppk" { // this writer does not report
			c.Add("bad", fmt.Sprintf("bad-%s-%s", curve, kind), func(r *Rec) {
				st := open(c, r, curve, kind)
				defer st.close()
				s := get(curve, 2)
				for _, p := range []string{st.path("no/such/f"), st.dir, "/dev/full"} {
					res, _ := Try(func() error { return write(kind, p, s) })
					r.Add(Ev{"op": "badput", "path": p, "res": res})
				}
			})
		}
	}
	for _, curve := range order {
		for o := 1; o <= 2; o++ {
			if !c.Thorough() && (curve[:3] == "bls" && curve[3:] > "377" || curve == "bw633") {
				continue
			}
			c.Add("use", fmt.Sprintf("use-%s-%d", curve, o), func(r *Rec) { use(c, r, curve, o) })
		}
	}
	c.Add("open", "open", func(r *Rec) {
		r.Hdr["kind"] = "file"
		dir := must(os.MkdirTemp("", "verif-store-"))
		defer os.RemoveAll(dir)
		for i, b := range [][]byte{nil, {}, {1, 2, 3}, RandBytes(r.Rnd, 5000)} {
			p := filepath.Join(dir, fmt.Sprint(i))
			if b != nil {
				must(0, os.WriteFile(p, b, 0o600))
			}
			var got []byte
			res, _ := Try(func() error {
				f, err := utils.CreateOrOpenFile(p)
				if err != nil {
					return err
				}
				defer f.Close()
				got, err = io.ReadAll(f)
				return err
			})
			after, _ := os.ReadFile(p)
			r.Add(Ev{"op": "open", "dir": 0, "res": res, "before": Bytes(b), "out": Bytes(got), "after": Bytes(after)})
			all, err := utils.ReadFileAndReturnByteArray(p)
			r.Add(Ev{"op": "open", "dir": 0, "res": map[bool]string{true: "ok", false: "err"}[err == nil], "before": Bytes(b), "out": Bytes(all), "after": Bytes(after)})
		}
		res, _ := Try(func() error { _, err := utils.CreateOrOpenFile(filepath.Join(dir, "no/such")); return err })
		r.Add(Ev{"op": "open", "dir": 1, "res": res})
		res, _ = Try(func() error { _, err := utils.ReadFileAndReturnByteArray(filepath.Join(dir, "none")); return err })
		r.Add(Ev{"op": "open", "dir": 1, "res": res})
	})
}

// use proves and verifies with nothing but what was read back
func use(c *Ctx, r *Rec, curve string, o int) {
	r.Hdr["kind"] = "all"
	dir := must(os.MkdirTemp("", "verif-store-"))
	defer os.RemoveAll(dir)
	s, t := get(curve, o), &set{}
	for _, k := range kinds {
		p := filepath.Join(dir, k)
		if res, msg := Try(func() error { return write(k, p, s) }); res != "ok" {
			panic(msg)
		}
		res, msg := Try(func() error { return read(curve, k, p, t) })
		if res != "ok" {
			r.Add(Ev{"op": "use", "out": 0, "msg": msg})
			return
		}
	}
	res, msg := Try(func() error {
		pub, err := t.wit.Public()
		if err != nil {
			return err
		}
		if err := groth16.Verify(t.gproof, t.gvk, pub); err != nil {
			return err
		}
		if err := plonk.Verify(t.pproof, t.pvk, pub); err != nil {
			return err
		}
		g, err := groth16.Prove(t.gccs, t.gpk, t.wit)
		if err != nil {
			return err
		}
		if err := groth16.Verify(g, s.gvk, pub); err != nil {
			return err
		}
		p, err := plonk.Prove(t.pccs, t.ppk, t.wit)
		if err != nil {
			return err
		}
		return plonk.Verify(p, s.pvk, pub)
	})
	r.Add(Ev{"op": "use", "out": B(res == "ok"), "msg": msg})
	// the exported contracts name the key: same text from the stored key
	text := func(f func(p string) error) []byte {
		p := filepath.Join(dir, "sol")
		os.Remove(p)
		if err := f(p); err != nil {
			return []byte(err.Error())
		}
		b, _ := os.ReadFile(p)
		return b
	}
	if curve == "bn254" {
		a := text(func(p string) error { return utils.WriteVKSolidity(p, s.gvk) })
		b := text(func(p string) error { return utils.WriteVKSolidity(p, t.gvk) })
		var d bytes.Buffer
		must(0, s.gvk.ExportSolidity(&d))
		r.Add(Ev{"op": "use", "out": B(bytes.Equal(a, b) && bytes.Equal(a, d.Bytes()))})
		{
			a := text(func(p string) error { return utils.WritePlonkVKSolidity(p, s.pvk) })
			b := text(func(p string) error { return utils.WritePlonkVKSolidity(p, t.pvk) })
			var d bytes.Buffer
			must(0, s.pvk.ExportSolidity(&d))
			r.Add(Ev{"op": "use", "out": B(bytes.Equal(a, b) && bytes.Equal(a, d.Bytes()))})
		}
		for _, p := range []string{filepath.Join(dir, "no/such/f"), dir, "/dev/full"} {
			res, _ := Try(func() error { return utils.WriteVKSolidity(p, s.gvk) })
			r.Add(Ev{"op": "badput", "path": p, "res": res})
			res, _ = Try(func() error { return utils.WritePlonkVKSolidity(p, s.pvk) })
			r.Add(Ev{"op": "badput", "path": p, "res": res})
		}
	}
}
