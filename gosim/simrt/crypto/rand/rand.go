package rand

import (
	"math/big"

	core "github.com/grayscale-lang/grayscale/simrt/core"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	core.SysPoint("getrandom")
	for i := range b {
		b[i] = byte(core.S.Bits(core.StOp))
	}
	return len(b), nil
}

var Reader = reader{}

func Read(b []byte) (int, error) { return Reader.Read(b) }
func Int(_ any, max *big.Int) (*big.Int, error) {
	b := make([]byte, len(max.Bytes())+8)
	Read(b)
	x := new(big.Int).SetBytes(b)
	return x.Mod(x, max), nil
}
func Text() string {
	b := make([]byte, 26)
	Read(b)
	for i := range b {
		b[i] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"[b[i]%32]
	}
	return string(b)
}
