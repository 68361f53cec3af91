package main

import (
	"bytes"
	"context"
	"fmt"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strings"
)

// threadState is what a call has no business to change about the goroutine
// it runs on.
func threadState(label string) string {
	var buf [128]byte
	head, _, _ := bytes.Cut(buf[:runtime.Stack(buf[:], false)], []byte("\n"))
	_, state, _ := strings.Cut(string(head), "[")
	s := fmt.Sprintf("[%s panics on faults: %v", state, swapped(debug.SetPanicOnFault, false))
	if label != "" {
		var b bytes.Buffer
		pprof.Lookup("goroutine").WriteTo(&b, 1)
		s += fmt.Sprintf(", profiling label kept: %v", strings.Contains(b.String(), label))
	}
	return s
}

// label gives the goroutine a profiling label, or takes it away.
func label(s string) {
	ctx := context.Background()
	if s != "" {
		ctx = pprof.WithLabels(ctx, pprof.Labels("call", s))
	}
	pprof.SetGoroutineLabels(ctx)
}

// freshThread undoes what calls did to the goroutine.
func freshThread() {
	label("")
	debug.SetPanicOnFault(false)
	for i := 0; i < 100 && strings.Contains(threadState(""), "locked"); i++ {
		runtime.UnlockOSThread()
	}
}

// stir has what is allocated next lie in memory in another order.
func stir(seed uint64) {
	var keep, drop [][]*byte
	for size := 1; size <= 1024; size += 1 + size/3 {
		for k := 2 + int(seed>>20%5); k > 0; k-- {
			for n := 1 + 2048/size; n > 0; n-- {
				seed = mix64(seed)
				x := make([]*byte, size)
				if seed%2 == 0 {
					keep = append(keep, x)
				} else {
					drop = append(drop, x)
				}
			}
		}
	}
	runtime.KeepAlive(drop)
	drop = nil
	runtime.GC()
	if len(stirred) > 3 {
		stirred = stirred[1:]
	}
	stirred = append(stirred, keep)
	probe("memory stirred")
}

var stirred [][][]*byte
