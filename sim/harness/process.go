//go:build vsimcli || vsimmains

package main

import (
	"bytes"
	"flag"
	"fmt"
	"io"
	"log"
	"os"

	"github.com/go-latex/latex/vsim"
	"github.com/go-latex/latex/vsim/simos"
)

// runProcess runs a command as a process of its own on the simulated disk:
// its exit status (-9: killed) and what it said.
func (c *octx) runProcess(op *Op, old, name string, args []string, main func()) (code int, said string) {
	vsim.Restart()
	d := c.e.disk
	d.Arm(nil, 0, 0)
	simos.Untouched()
	c.e.armDisk(op, old)

	flag.CommandLine = flag.NewFlagSet(name, flag.PanicOnError)
	flag.CommandLine.SetOutput(io.Discard)
	os.Args = append([]string{name}, args...)
	msgs := new(bytes.Buffer)
	log.SetOutput(msgs)
	log.SetFlags(0)
	log.SetPrefix("")
	text := ""
	func() {
		p := vsim.StartProc()
		defer func() {
			d.Dead = true
			p.End()
		}()
		defer func() {
			switch e := recover().(type) {
			case nil:
			case simos.Exited:
				code = e.Code
			case simos.Killed:
				code = -9
			default:
				if e == any(vsim.HungPanic) || e == any(vsim.StopPanic) {
					panic(e)
				}
				code = 2
				text = norm(fmt.Sprint(e))
			}
		}()
		main()
	}()
	log.SetOutput(io.Discard)
	d.Arm(nil, 0, 0)
	d.Dead = false
	return code, msgs.String() + text
}

// signal is what ends a process: most can be handled.
func (r *Rng) signal() string { return pickOf(r, "", "INT", "TERM", "HUP") }
