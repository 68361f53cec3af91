package simos

import (
	"os"
	"syscall"

	"github.com/go-latex/latex/vsim"
)

// Signals a process may be sent, and what it has asked for.

type handler struct {
	c    chan<- os.Signal // nil: ignored, or f is called
	f    func()
	sigs []os.Signal // none: all
}

func (h *handler) wants(s os.Signal) bool {
	for _, x := range h.sigs {
		if x == s {
			return true
		}
	}
	return len(h.sigs) == 0
}

var handlers []*handler

// Untouched forgets what an earlier process asked for.
func Untouched() { handlers = nil }

// Handle has signals sent to c, f called for them or, without both, ignored.
func Handle(c chan<- os.Signal, f func(), sigs ...os.Signal) *handler {
	h := &handler{c, f, sigs}
	handlers = append(handlers, h)
	return h
}

// Unhandle undoes Handle.
func Unhandle(keep func(c chan<- os.Signal, h any) bool) {
	var l []*handler
	for _, h := range handlers {
		if keep(h.c, h) {
			l = append(l, h)
		}
	}
	handlers = l
}

// Reset undoes what was asked for sigs, or for all.
func Reset(sigs ...os.Signal) {
	if len(sigs) == 0 {
		handlers = nil
		return
	}
	for _, h := range handlers {
		var l []os.Signal
		for _, s := range h.sigs {
			keep := true
			for _, x := range sigs {
				keep = keep && x != s
			}
			if keep {
				l = append(l, s)
			}
		}
		if len(h.sigs) > 0 {
			if h.sigs = l; len(l) == 0 {
				h.sigs = []os.Signal{syscall.Signal(0)}
			}
		}
	}
}

// Handled reports whether somebody looks after a signal.
func Handled(s os.Signal) bool {
	for _, h := range handlers {
		if h.wants(s) {
			return true
		}
	}
	return false
}

// deliver sends the process a signal; false: that ends it.
func deliver(name string) bool {
	s := map[string]os.Signal{"INT": syscall.SIGINT, "TERM": syscall.SIGTERM, "HUP": syscall.SIGHUP}[name]
	found := false
	for _, h := range handlers {
		if !h.wants(s) {
			continue
		}
		found = true
		switch {
		case h.f != nil:
			h.f()
		case h.c != nil:
			vsim.Select(true, vsim.CaseSend(h.c)(s))
		}
	}
	return found
}

// Handlers is how often signals were asked for and not given back.
func Handlers() int { return len(handlers) }
