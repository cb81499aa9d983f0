// Package h is what the drivers share: sessions and their recording (of
// package hl) and the means to run circuits.
package h

import (
	"io"
	"math/big"
	"math/rand"

	gnarklogger "github.com/consensys/gnark/logger"
	"github.com/rs/zerolog"

	"verifdriver/hl"
)

type Ev = hl.Ev
type Sess = hl.Sess
type Rec = hl.Rec
type Ctx = hl.Ctx

func Main(builders map[string]func(c *Ctx)) {
	gnarklogger.Set(zerolog.New(io.Discard).Level(zerolog.Disabled))
	zerolog.SetGlobalLevel(zerolog.Disabled)
	hl.Main(builders)
}
func Try(f func() error) (res string, msg string) { return hl.Try(f) }
func Dig(b *big.Int) []int                        { return hl.Dig(b) }
func Digs(bs []*big.Int) [][]int                  { return hl.Digs(bs) }
func Bytes(b []byte) []int                        { return hl.Bytes(b) }
func Nib(b []byte) []int                          { return hl.Nib(b) }
func RandBytes(r *rand.Rand, n int) []byte        { return hl.RandBytes(r, n) }
func RandBig(r *rand.Rand, bits int) *big.Int     { return hl.RandBig(r, bits) }
func RandBelow(r *rand.Rand, m *big.Int) *big.Int { return hl.RandBelow(r, m) }
func SortedKeys[V any](m map[string]V) []string   { return hl.SortedKeys(m) }
func B(b bool) int                                { return hl.B(b) }
