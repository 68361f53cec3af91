// Package simsignal is os/signal for signals that the simulation sends.
package simsignal

import (
	"context"
	"os"

	"github.com/go-latex/latex/vsim/simos"
)

func Notify(c chan<- os.Signal, sig ...os.Signal) {
	if c == nil {
		panic("os/signal: Notify using nil channel")
	}
	simos.Handle(c, nil, sig...)
}

func Stop(c chan<- os.Signal) {
	simos.Unhandle(func(x chan<- os.Signal, _ any) bool { return x != c })
}

func Ignore(sig ...os.Signal)    { simos.Handle(nil, nil, sig...) }
func Ignored(sig os.Signal) bool { return simos.Handled(sig) }
func Reset(sig ...os.Signal)     { simos.Reset(sig...) }

func NotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	h := simos.Handle(nil, cancel, sig...)
	return ctx, func() {
		simos.Unhandle(func(_ chan<- os.Signal, x any) bool { return x != any(h) })
		cancel()
	}
}
