//go:build vsimcli

package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	"github.com/go-latex/latex/vsim/cli"
)

func init() {
	extraOps["cli"] = runCLI
	register(&property{
		id: "C12", race: 0, quick: 48000, thorough: 1200000,
		rule: "the command is run on accepted and rejected expressions and options, over a new or an existing file, on a simulated disk that fails to open, write, sync, rename or close, fills up, or with the process killed at a random disk operation; then it is run again on a healthy disk",
		gen: func(r *Rng, p *Plan) {
			x := r.expr(4, false)
			if r.pct(15) {
				x = r.bad(4)
			}
			out := pickOf(r, "", "a.png", "/tmp/b.png", "dir/c.png", "/w/d.png")
			var args []string
			if out != "" {
				args = append(args, "-o", out)
			}
			if r.pct(40) {
				args = append(args, "-dpi", pickOf(r, "72", "96", "300", "72.27", "100.5", "150.75", "299.3"))
			} else if r.pct(1) {
				args = append(args, "-dpi", pickOf(r, "600", "900", "1200"))
			}
			if r.pct(30) {
				args = append(args, "-font-size", pickOf(r, "12", "7.5", "24", "10.95", "17.28"))
			}
			switch r.n(25) {
			case 0:
				args = append(args, "-nosuch")
			case 1:
				args = append(args, x, "extra")
			case 2:
			default:
				args = append(args, x)
			}
			op := Op{K: "cli", A: args}
			again := op
			op.Disk = r.disk()
			if r.pct(20) {
				op.Disk.Crash, op.Disk.Sig = r.in(1, 6), r.signal()
			}
			p.Tasks = [][]Op{{op}}
			if r.pct(50) {
				p.Tasks[0] = append(p.Tasks[0], again)
			}
			quiet(r, p)
		},
		check: checkCLI,
	})
}

// outOf is the file a command line names.
func outOf(args []string) string {
	for i, a := range args {
		if a == "-o" && i+1 < len(args) {
			return args[i+1]
		}
	}
	return "out.png"
}

func runCLI(c *octx, op *Op, o *Outcome) {
	name := outOf(op.A)
	d := c.e.disk
	before := len(d.Fired)
	code, said := c.runProcess(op, name, "mtex-render", op.A, cli.VsimMain)

	data, exists := d.Get(name)
	o.Kind = "ok"
	o.Data = append([]byte(nil), data...)
	o.Info = map[string]int{"exit": code, "exists": b2i(exists), "fired": len(d.Fired) - before, "said": len(said)}
	o.Ptr = said
	o.Text = fmt.Sprintf("exit %d, %s", code, pngText(data))
	if code != 0 {
		o.Text = fmt.Sprintf("exit %d", code)
	}
}

func checkCLI(r *Run, refs [][]*Outcome) {
	for j, o := range r.Outs[0] {
		op, ref := r.P.Tasks[0][j], refs[0][j]
		what := fmt.Sprintf("mtex-render %q", op.A)
		if o.Kind != "ok" {
			r.fail("cli-"+o.Kind, "%s: %s", what, o.key())
			continue
		}
		exit, fired := o.Info["exit"], o.Info["fired"] > 0
		switch {
		case exit == 0 && (ref.Info["exit"] != 0 || string(o.Data) != string(ref.Data)):
			r.fail("silent", "%s: exit status 0, but the file holds %s, want %s (disk faults: %v)", what, pngText(o.Data), ref.Text, r.Env.disk.Fired)
		case exit == 0 && !isDrawing(op.A, o.Data):
			r.fail("wrong-image", "%s: exit status 0, and the file is not the image the library draws: %s", what, pngText(o.Data))
		case exit == 0 && !strings.HasPrefix(string(o.Data), "\x89PNG\r\n"):
			r.fail("not-png", "%s: exit status 0, and the file is not a PNG image", what)
		case exit != 0 && !fired && ref.Info["exit"] == 0:
			r.fail("spurious", "%s: nothing went wrong with the disk, exit status %d: %v", what, exit, o.Ptr)
		case exit > 0 && o.Info["said"] == 0:
			r.fail("mute", "%s: exit status %d without a word", what, exit)
		case exit == 0 && fired:
			probe("disk fault harmless")
		case exit == -9:
			probe("killed")
		case fired:
			probe("disk fault reported")
		}
		if j == 1 {
			probe("run again")
		}
	}
}

// isDrawing reports whether raw is what the library draws for the arguments.
func isDrawing(args []string, raw []byte) bool {
	var op Op
	for i := 0; i < len(args); i++ {
		switch a := args[i]; a {
		case "-o":
			i++
		case "-dpi", "-font-size":
			i++
			v, _ := strconv.ParseFloat(args[i], 64)
			if a == "-dpi" {
				op.DPI = v
			} else {
				op.Size = v
			}
		default:
			op.X = a
		}
	}
	for _, fonts := range []string{"lib", "lm", ""} { // which one is up to the command
		if bytes.Equal(solo(nil, Op{K: "png", X: op.X, DPI: op.DPI, Size: op.Size, F: fonts}).Data, raw) {
			return true
		}
	}
	return false
}
