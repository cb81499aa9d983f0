// Package h is the common part of the drivers: it runs seeded sessions against
// the real code and records what happened as one JSON object per session.
package hl

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/big"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

type Ev = map[string]any

type Sess struct {
	ID   string
	Kind string
	// Timeout 0 means the default
	Timeout time.Duration
	Run     func(r *Rec)
}

type Rec struct {
	Rnd *rand.Rand
	Evs []Ev
	Hdr Ev
}

func (r *Rec) Add(e Ev) { r.Evs = append(r.Evs, e) }

type Ctx struct {
	Prop, Tier string
	Seed       int64
	Scen       []json.RawMessage // scenarios generated from the specification
	sess       []Sess
	ids        map[string]bool
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N picks a count by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}
func (c *Ctx) Add(kind, id string, f func(r *Rec)) {
	if c.ids[id] {
		panic("duplicate session " + id)
	}
	c.ids[id] = true
	c.sess = append(c.sess, Sess{ID: id, Kind: kind, Run: f})
}

// Rand is a generator for building sessions (deterministic in the seed and the label).
func (c *Ctx) Rand(label string) *rand.Rand { return newRand(c.Seed, c.Prop+"/"+label) }

func newRand(seed int64, label string) *rand.Rand {
	f := fnv.New64a()
	fmt.Fprintf(f, "%d|%s", seed, label)
	return rand.New(rand.NewSource(int64(f.Sum64())))
}

// Main runs the sessions that build registers for the property.
func Main(builders map[string]func(c *Ctx)) {
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	seed := flag.Int64("seed", 1, "")
	out := flag.String("out", "", "")
	only := flag.String("only", "", "")
	scen := flag.String("scen", "", "")
	workers := flag.Int("workers", runtime.NumCPU(), "")
	flag.Parse()
	stdout := os.Stdout
	if dn, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = dn
	}
	debug.SetGCPercent(200)
	c := &Ctx{Prop: *prop, Tier: *tier, Seed: *seed, ids: map[string]bool{}}
	if *scen != "" {
		f, err := os.Open(*scen)
		if err != nil {
			panic(err)
		}
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		for sc.Scan() {
			c.Scen = append(c.Scen, json.RawMessage(append([]byte(nil), sc.Bytes()...)))
		}
	}
	b, ok := builders[*prop]
	if !ok {
		panic("no builder for " + *prop)
	}
	b(c)
	prog, err := os.Create(*out + ".progress")
	if err != nil {
		panic(err)
	}
	var pm sync.Mutex
	note := func(s string) { pm.Lock(); fmt.Fprintln(prog, s); pm.Unlock() }
	lines := make([][]byte, len(c.sess))
	idx := make(chan int)
	var wg sync.WaitGroup
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range idx {
				s := c.sess[i]
				note("start " + s.ID)
				rec := &Rec{Rnd: newRand(c.Seed, c.Prop+"/s/"+s.ID), Hdr: Ev{}}
				to := s.Timeout
				if to == 0 {
					to = 400 * time.Second
				}
				wd := time.AfterFunc(to, func() {
					note("timeout " + s.ID)
					os.Exit(97)
				})
				func() {
					defer func() {
						if p := recover(); p != nil {
							rec.Add(Ev{"op": "panic", "msg": short(fmt.Sprint(p)), "at": where()})
						}
					}()
					s.Run(rec)
				}()
				wd.Stop()
				o := Ev{"id": s.ID, "k": s.Kind, "ev": rec.Evs}
				if rec.Evs == nil {
					o["ev"] = []Ev{}
				}
				for k, v := range rec.Hdr {
					o[k] = v
				}
				j, err := json.Marshal(o)
				if err != nil {
					panic(err)
				}
				lines[i] = j
				note("end " + s.ID)
			}
		}()
	}
	for i, s := range c.sess {
		if *only != "" && s.ID != *only {
			continue
		}
		idx <- i
	}
	close(idx)
	wg.Wait()
	f, err := os.Create(*out)
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	n := 0
	for _, l := range lines {
		if l != nil {
			w.Write(l)
			w.WriteByte('\n')
			n++
		}
	}
	w.Flush()
	f.Close()
	fmt.Fprintf(stdout, "sessions %d\n", n)
}

func short(s string) string {
	if len(s) > 300 {
		s = s[:300]
	}
	return strings.ToValidUTF8(strings.Map(func(r rune) rune {
		if r < 32 || r > 126 {
			return ' '
		}
		return r
	}, s), "?")
}

func where() string {
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "/repo/") {
			return strings.TrimSpace(l)
		}
	}
	return ""
}

// Try runs f and reports how it ended: "ok", "err" or "panic".
func Try(f func() error) (res string, msg string) {
	defer func() {
		if p := recover(); p != nil {
			res, msg = "panic", short(fmt.Sprint(p))
		}
	}()
	if err := f(); err != nil {
		return "err", short(err.Error())
	}
	return "ok", ""
}

// Dig gives the base-2^15 little-endian digits of a natural (BigNat.tla).
func Dig(b *big.Int) []int {
	if b.Sign() < 0 {
		panic("Dig: negative")
	}
	r := []int{}
	x := new(big.Int).Set(b)
	m := big.NewInt(32767)
	for x.Sign() > 0 {
		r = append(r, int(new(big.Int).And(x, m).Int64()))
		x.Rsh(x, 15)
	}
	return r
}
func Digs(bs []*big.Int) [][]int {
	r := make([][]int, len(bs))
	for i, b := range bs {
		r[i] = Dig(b)
	}
	return r
}

// Bytes gives bytes as ints.
func Bytes(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

// Nib gives the nibbles (most significant first) of bytes.
func Nib(b []byte) []int {
	r := make([]int, 0, 2*len(b))
	for _, x := range b {
		r = append(r, int(x>>4), int(x&15))
	}
	return r
}

func RandBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

// RandBig is uniform below 2^bits, or one of the boundary values now and then.
func RandBig(r *rand.Rand, bits int) *big.Int {
	one := big.NewInt(1)
	top := new(big.Int).Lsh(one, uint(bits))
	switch r.Intn(10) {
	case 0:
		return big.NewInt(0)
	case 1:
		return new(big.Int).Sub(top, one)
	case 2:
		return new(big.Int).Lsh(one, uint(r.Intn(bits)))
	case 3:
		return new(big.Int).Rand(r, new(big.Int).Lsh(one, uint(r.Intn(bits)+1)))
	}
	return new(big.Int).Rand(r, top)
}
func RandBelow(r *rand.Rand, m *big.Int) *big.Int {
	switch r.Intn(12) {
	case 0:
		return big.NewInt(int64(r.Intn(3)))
	case 1:
		return new(big.Int).Sub(m, big.NewInt(int64(1+r.Intn(3))))
	}
	return new(big.Int).Rand(r, m)
}

func SortedKeys[V any](m map[string]V) []string {
	k := make([]string, 0, len(m))
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
func B(b bool) int {
	if b {
		return 1
	}
	return 0
}
