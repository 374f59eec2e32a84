package rand

import core "github.com/grayscale-lang/grayscale/simrt/core"

var _ = core.S

func Seed(int64)           {}
func Uint64() uint64       { return core.S.Bits(core.StOp) }
func Int63() int64         { return int64(Uint64() >> 1) }
func Uint32() uint32       { return uint32(Uint64()) }
func Int31() int32         { return int32(Uint64()>>33) & 0x7fffffff }
func Int() int             { return int(Uint64() >> 1) }
func Intn(n int) int       { return int(Uint64()>>1) % n }
func Int63n(n int64) int64 { return int64(Uint64()>>1) % n }
func Int31n(n int32) int32 { return int32(Intn(int(n))) }
func Float64() float64     { return float64(Uint64()>>11) / (1 << 53) }
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func Shuffle(n int, f func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		f(i, Intn(i+1))
	}
}

// Generators of one's own draw from the same stream.
type Source interface {
	Int63() int64
	Seed(int64)
}
type source struct{}

func (source) Int63() int64  { return Int63() }
func (source) Seed(int64)    {}
func NewSource(int64) Source { return source{} }

type Rand struct{}

func New(Source) *Rand                        { return &Rand{} }
func (*Rand) Seed(int64)                      {}
func (*Rand) Uint64() uint64                  { return Uint64() }
func (*Rand) Uint32() uint32                  { return Uint32() }
func (*Rand) Int63() int64                    { return Int63() }
func (*Rand) Int31() int32                    { return Int31() }
func (*Rand) Int() int                        { return Int() }
func (*Rand) Intn(n int) int                  { return Intn(n) }
func (*Rand) Int63n(n int64) int64            { return Int63n(n) }
func (*Rand) Int31n(n int32) int32            { return Int31n(n) }
func (*Rand) Float64() float64                { return Float64() }
func (*Rand) Perm(n int) []int                { return Perm(n) }
func (*Rand) Shuffle(n int, f func(i, j int)) { Shuffle(n, f) }
func Float32() float32                        { return float32(Float64()) }
func Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(Uint64())
	}
	return len(b), nil
}
