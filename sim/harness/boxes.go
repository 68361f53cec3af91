package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/go-latex/latex/ast"
	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/tex"
	"github.com/go-latex/latex/vsim"
)

// Box describes a box a caller builds itself.
type Box struct {
	T    string    `json:"t"`
	S    string    `json:"s,omitempty"`
	V    []float64 `json:"v,omitempty"`
	B    bool      `json:"b,omitempty"`
	Kids []Box     `json:"kids,omitempty"`
}

// Inf stands for an infinite dimension.
const Inf = 1e300

func (b *Box) v(i int) float64 {
	if i >= len(b.V) {
		return 0
	}
	if b.V[i] == Inf {
		return math.Inf(+1)
	}
	return b.V[i]
}

// box invents a box: one for a horizontal or one for a vertical list.
func (r *Rng) box(depth int, horiz bool) Box {
	dim := func() float64 { return pickOf(r, 0, 0.5, 1, 2.25, 7, 12) }
	list := func(t string) Box {
		b := Box{T: t, B: r.pct(50)}
		for n := r.in(0, 4); n > 0; n-- {
			b.Kids = append(b.Kids, r.box(depth-1, t[0] == 'h'))
		}
		b.V = []float64{pickOf(r, 0, 0.0, 5, -2, 40, 100), pickOf(r, 0, 0, 1.5, -3)}
		return b
	}
	k := r.n(20)
	switch {
	case k < 7 && horiz:
		t := "char"
		if r.pct(15) {
			t = "accent"
		}
		return Box{T: t, S: pickOf(r, "a", "V", "A", "-", "f", "i", " ", `\alpha`, `\sum`, "1"), B: r.pct(60)}
	case k < 9:
		return Box{T: "kern", V: []float64{pickOf(r, -1.5, 0, 0.25, 3)}}
	case k < 12:
		return Box{T: "glue", S: pickOf(r, "fil", "fill", "filll", "neg_fil", "neg_fill", "neg_filll", "empty", "ss")}
	case k < 13 && horiz:
		return Box{T: "rule", V: []float64{dim(), pickOf(r, 1, 4, Inf), pickOf(r, 0, 1, Inf)}}
	case k < 13:
		return Box{T: "rule", V: []float64{pickOf(r, 1, 4, Inf), dim(), dim()}}
	case k < 14 && horiz:
		return pickOf(r, Box{T: "vrule"}, Box{T: "hbox", V: []float64{dim()}}, Box{T: "vbox", V: []float64{dim(), dim()}})
	case k < 14:
		return pickOf(r, Box{T: "hrule", V: []float64{pickOf(r, -1, 0.5, 3)}}, Box{T: "hbox", V: []float64{dim()}}, Box{T: "vbox", V: []float64{dim(), dim()}})
	case depth <= 0 || k < 15:
		return Box{T: "high", S: pickOf(r, "(", `\sqrt`, `\int`, "]"), V: []float64{pickOf(r, 6.0, 12, 30), pickOf(r, 0.0, 2, 5), pickOf(r, 0.0, 0, 1.5)}}
	case k < 17:
		return list("h" + pickOf(r, "list", "list", "center", "pack"))
	default:
		return list("v" + pickOf(r, "list", "list", "center", "pack"))
	}
}

// build makes the box with the public functions of package tex.  The slices
// handed over are the caller's: it uses them for something else afterwards.
func (b *Box) build(c *octx, st tex.State) tex.Node {
	var kids []tex.Node
	for i := range b.Kids {
		kids = append(kids, b.Kids[i].build(c, st))
	}
	kids = append(make([]tex.Node, 0, len(kids)+3), kids...)
	given := append([]tex.Node(nil), kids...)
	room := kids[:cap(kids)]
	spare := tex.NewKern(99)
	for i := len(kids); i < cap(kids); i++ {
		room[i] = spare
	}
	defer func() {
		for i := range given {
			if kids[i] != given[i] {
				c.wrong = "the library changed the slice of elements it was given"
			}
		}
		for i := len(kids); i < cap(kids); i++ {
			if room[i] != tex.Node(spare) {
				c.wrong = "the library wrote behind the elements it was given"
			}
		}
		for i := range room {
			room[i] = spare
		}
	}()
	switch b.T {
	case "char":
		return tex.NewChar(b.S, st, b.B)
	case "accent":
		return tex.NewAccent(b.S, st, b.B)
	case "kern":
		return tex.NewKern(b.v(0))
	case "glue":
		return tex.NewGlue(b.S)
	case "rule":
		return tex.NewRule(b.v(0), b.v(1), b.v(2), st)
	case "hrule":
		return tex.HRule(st, b.v(0))
	case "vrule":
		return tex.VRule(st)
	case "hbox":
		return tex.HBox(b.v(0))
	case "vbox":
		return tex.VBox(b.v(0), b.v(1))
	case "high":
		return tex.AutoHeightChar(b.S, b.v(0), b.v(1), st, b.v(2))
	case "hlist":
		return tex.HListOf(kids, b.B)
	case "hcenter":
		return tex.HCentered(kids)
	case "hpack":
		l := tex.HListOf(kids, b.B)
		l.HPack(b.v(0), b.B)
		return l
	case "vlist":
		l := tex.VListOf(kids)
		l.SetShift(b.v(1))
		return l
	case "vcenter":
		return tex.VCentered(kids)
	case "vpack":
		l := tex.VListOf(kids)
		l.VPack(b.v(0), b.B, math.Inf(+1))
		return l
	}
	panic("harness: unknown box " + b.T)
}

// boxes is an operation on a box the caller builds itself.
func (r *Rng) boxes(steps int) Op {
	op := Op{K: "boxes", F: r.fonts()}
	if r.pct(20) {
		op.F = r.ioFonts()
	}
	b := Box{T: pickOf(r, "hlist", "hcenter", "hpack"), B: r.pct(50), V: []float64{pickOf(r, 0, 0.0, 20, 200)}}
	for n := r.in(1, 4); n > 0; n-- {
		b.Kids = append(b.Kids, r.box(3, true))
	}
	op.B = &b
	op = r.dims(op)
	for n := r.in(1, steps); n > 0; n-- {
		op.A = append(op.A, pickOf(r, "ship", "ship", "dump", "shrink", "grow", "pack", "open"))
	}
	return op
}

func init() {
	extraOps["boxes"] = func(c *octx, op *Op, o *Outcome) {
		cnv := drawtex.New()
		be := &seamBackend{c: c, be: backendOf(c, cnv, op.F)}
		st := tex.NewState(be, font.Font{Name: "default", Size: op.size(), Type: "rm"}, op.dpi())
		box := op.B.build(c, st).(*tex.HList)
		vsim.Point()
		var (
			out []string
			sh  tex.Ship
		)
		for i, s := range op.A {
			switch s {
			case "ship":
				be.draw = nil
				sh.Call(float64(op.I), float64(i), box)
				out = append(out, strings.Join(be.draw, "\n"))
			case "dump":
				out = append(out, dumpBox(box))
			case "shrink":
				box.Shrink()
			case "grow":
				box.Grow()
			case "pack":
				box.HPack(50, false)
			case "open":
				box.HPack(0, true)
			}
		}
		o.Kind = "ok"
		o.Text = strings.Join(out, "\n") + "\n" + dumpBox(box) + dumpOps(cnv.Ops())
		o.Obj = &shipment{box, be, cnv}
		o.Keep = func() string { return dumpBox(box) + dumpOps(cnv.Ops()) }
		o.Was = o.Keep()
	}
}

// positions asks every node of a tree where it is.
func positions(b *strings.Builder, n ast.Node, depth int) {
	if n == nil || b.Len() > maxDump || depth > 2000 {
		return
	}
	ask := func(f func() int) {
		defer func() {
			if e := recover(); e != nil {
				if isSim(e) {
					panic(e)
				}
				b.WriteString(" panic")
			}
		}()
		fmt.Fprintf(b, " %d", f())
	}
	ask(func() int { return int(n.Pos()) })
	ask(func() int { return int(n.End()) })
	for _, k := range children(n) {
		positions(b, k, depth+1)
	}
}

// isSim says whether a panic is the simulator ending an operation.
func isSim(e any) bool { return e == any(vsim.HungPanic) || e == any(vsim.StopPanic) }
