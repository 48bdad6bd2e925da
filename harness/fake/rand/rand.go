// Package rand stands in for math/rand.
package rand

import "github.com/zeldovich/go-rpcgen/zz_verif/f/ffs"

type Source interface{ Int63() int64 }
type Rand struct{}
type src struct{}

func (src) Int63() int64 { return int64(ffs.Any(2)) }

func NewSource(int64) Source { return src{} }
func New(Source) *Rand       { return &Rand{} }
func Seed(int64)             {}

func pick(n int) int {
	if n <= 1 {
		return 0
	}
	return ffs.Any(2) * (n - 1)
}

func Intn(n int) int       { return pick(n) }
func Int31n(n int32) int32 { return int32(pick(int(n))) }
func Int63n(n int64) int64 { return int64(pick(int(n))) }
func Int() int             { return 5 + ffs.Any(2)*100000 }
func IntN(n int) int       { return Intn(n) }
func Int64() int64         { return Int63() }
func Int32() int32         { return Int31() }
func Int31() int32         { return int32(Int()) }
func Int63() int64         { return int64(Int()) }
func Uint32() uint32       { return uint32(Int()) }
func Uint64() uint64       { return uint64(Int()) }
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, pick(i+1))
	}
}
func Perm(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	Shuffle(n, func(i, j int) { r[i], r[j] = r[j], r[i] })
	return r
}

func (*Rand) Intn(n int) int                     { return Intn(n) }
func (*Rand) Int31n(n int32) int32               { return Int31n(n) }
func (*Rand) Int63n(n int64) int64               { return Int63n(n) }
func (*Rand) Int() int                           { return Int() }
func (*Rand) Int31() int32                       { return Int31() }
func (*Rand) Int63() int64                       { return Int63() }
func (*Rand) Uint32() uint32                     { return Uint32() }
func (*Rand) Uint64() uint64                     { return Uint64() }
func (*Rand) Shuffle(n int, swap func(i, j int)) { Shuffle(n, swap) }
func (*Rand) Perm(n int) []int                   { return Perm(n) }
