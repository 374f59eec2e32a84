package signal

import (
	"github.com/grayscale-lang/grayscale/simrt/context"
	core "github.com/grayscale-lang/grayscale/simrt/core"
	os "github.com/grayscale-lang/grayscale/simrt/os"
)

func Notify(c *core.Chan[os.Signal], s ...os.Signal) {}
func Stop(c *core.Chan[os.Signal])                   {}
func Ignore(s ...os.Signal)                          {}
func Reset(s ...os.Signal)                           {}
func NotifyContext(p context.Context, s ...os.Signal) (context.Context, context.CancelFunc) {
	return context.WithCancel(p)
}
