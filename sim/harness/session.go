package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/drawtex/drawimg"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/mtex"
	"github.com/go-latex/latex/tex"
	"github.com/go-latex/latex/vsim"
)

// A session draws one expression after another with the same canvas, backend
// and shippers.

func init() {
	register(&property{
		id: "C23", race: 0, quick: 9000, thorough: 300000,
		rule: "2-9 expressions, accepted and rejected, in several sizes and resolutions, are typeset and shipped with one canvas, one backend and one or two shippers, with font storage failing at a random read or a panic in the caller's backend at a random call; images of the canvas are made in between; each drawing is compared with that of the expression alone on a new canvas",
		gen: func(r *Rng, p *Plan) {
			for n := 1 + b2i(r.pct(15)); n > 0; n-- {
				p.Tasks = append(p.Tasks, []Op{r.session()})
			}
			schedule(r, p)
			if len(p.Tasks) == 1 {
				quiet(r, p)
			}
		},
		check: checkSession,
	})
	extraOps["session"] = session
}

func (r *Rng) session() Op {
	op := Op{K: "session", F: pickOf(r, "", "", "lm", "lib", "io", "iok", "iol")}
	xs := r.exprs(r.in(1, 4), func() string {
		x := r.expr(pickOf(r, 2, 4, 5), false)
		if r.pct(15) {
			return r.bad(3)
		}
		if r.pct(80) { // what text and math draw with different glyphs
			x = strings.ReplaceAll(x, "-", "+")
		}
		return x
	})
	sizes := []float64{pickOf(r, 12.0, 12, 10, 7.5)}
	if r.pct(40) {
		sizes = append(sizes, pickOf(r, 12.0, 20, 12.004, 24))
	}
	dpis := []float64{72}
	if r.pct(30) {
		dpis = append(dpis, pickOf(r, 96.0, 300, 72.5))
	}
	most := 9
	if r.pct(3) {
		most = 60
	}
	for k := r.in(2, most); k > 0; k-- {
		if r.pct(8) {
			op.Q = append(op.Q, Query{K: "png", DPI: pickOf(r, 72.0, 96)})
			continue
		}
		q := Query{K: "draw", Sym: pickOf(r, xs...), Size: pickOf(r, sizes...), DPI: pickOf(r, dpis...), B: r.n(3)}
		if r.pct(40) {
			q.Size2 = pickOf(r, 2.5, 10, -3)
		}
		op.Q = append(op.Q, q)
	}
	switch {
	case onDemand(op.F) && r.pct(70):
		op.Fault = r.fault("font", pickOf(r, 10, 60, 400), "err")
		op.Fault.Stick = r.pct(15)
	case r.pct(50):
		op.Fault = r.fault(pickOf(r, "draw", "draw", "backend"), pickOf(r, 3, 15, 60), "panic", "panic", "nest")
		if op.Fault.Kind == "nest" {
			n := r.typeset(pickOf(r, xs...))
			op.Nest = &n
		}
	}
	return op
}

type drawn struct {
	text    string // what it came to, and what it added to the canvas
	kind    string
	ops     []string
	keys    map[string]bool // glyphs asked for
	faulted bool
	wrong   string
}

// asked is a backend that notes what text and math were told about a glyph.
type asked struct {
	*seamBackend
	told map[string][2]string
	keys map[string]bool
}

func (b *asked) Metrics(symbol string, ft font.Font, dpi float64, math bool) font.Metrics {
	m := b.seamBackend.Metrics(symbol, ft, dpi, math)
	k := fmt.Sprint(symbol, ft, dpi)
	t := b.told[k]
	t[b2i(math)] = fmt.Sprint(m)
	b.told[k] = t
	b.keys[k] = true
	return m
}

// mixed is whether one of the glyphs is another in text than in math, and
// both have been measured.
func (b *asked) mixed(keys map[string]bool) bool {
	for k := range keys {
		if t := b.told[k]; t[0] != "" && t[1] != "" && t[0] != t[1] {
			return true
		}
	}
	return false
}

func session(c *octx, op *Op, o *Outcome) {
	var (
		cnv   = drawtex.New()
		ttf   = backendOf(c, cnv, op.F)
		be    = &asked{seamBackend: &seamBackend{c: c, be: ttf}, told: map[string][2]string{}}
		ships [2]tex.Ship
		out   []*drawn
		seen  []drawtex.Op // what the canvas had been found to hold
		was   = dumpOps(nil)
		log   []string
	)
	for i := range op.Q {
		q := &op.Q[i]
		d := &drawn{}
		out = append(out, d)
		if q.K == "png" {
			d.kind = "png"
			d.text = picture(c, cnv, q.DPI)
			c2 := drawtex.New()
			for _, op := range seen {
				switch op := op.(type) {
				case drawtex.GlyphOp:
					c2.RenderGlyph(op.X, op.Y, op.Glyph)
				case drawtex.RectOp:
					c2.RenderRectFilled(op.X1, op.Y1, op.X2, op.Y2)
				}
			}
			if w := picture(c, c2, q.DPI); w != d.text && len(c.fired) == 0 {
				d.wrong = "its image is not that of a new canvas with the same on it: " + diff(d.text, w)
			}
		} else {
			ship := new(tex.Ship)
			if q.B < 2 {
				ship = &ships[q.B]
			}
			be.keys = map[string]bool{}
			d.draw(c, q, be, ship)
		}
		ops := cnv.Ops()
		if len(ops) < len(seen) {
			d.wrong = fmt.Sprintf("the canvas held %d operations, now %d", len(seen), len(ops))
			break
		}
		if now := dumpOps(ops[:len(seen)]); now != was {
			d.wrong = "what was on the canvas is no longer what it was: " + diff(now, was)
			break
		}
		if now := dumpOps(seen); now != was {
			d.wrong = "what the canvas had returned is no longer what it was: " + diff(now, was)
			break
		}
		for _, op := range ops[len(seen):] {
			d.ops = append(d.ops, strings.TrimPrefix(dumpOps([]drawtex.Op{op}), "1 ops\n"))
		}
		d.text += "\n" + strings.Join(d.ops, "\n")
		if len(ops) > 0 {
			seen = ops[:len(ops):len(ops)]
		}
		was = dumpOps(seen)
		if be.mixed(be.keys) {
			d.keys = be.keys
		}
		log = append(log, d.text)
	}
	o.Kind = "ok"
	o.Ptr = out
	o.Text = strings.Join(log, "\n")
}

func picture(c *octx, cnv *drawtex.Canvas, dpi float64) (text string) {
	defer func() {
		if r := recover(); r != nil {
			text = caught(r)
		}
	}()
	var w bytes.Buffer
	if err := drawimg.NewRenderer(&w).Render(2.5, 0.7, dpi, cnv); err != nil {
		return "error: " + norm(err.Error())
	}
	return pngText(w.Bytes())
}

func caught(r any) string {
	if r == any(vsim.HungPanic) || r == any(vsim.StopPanic) {
		panic(r)
	}
	return "panic: " + norm(fmt.Sprint(r))
}

func (d *drawn) draw(c *octx, q *Query, be font.Backend, ship *tex.Ship) {
	n := len(c.fired)
	defer func() {
		d.faulted = len(c.fired) > n
		if r := recover(); r != nil {
			d.kind, d.text = "panic", caught(r)
		}
	}()
	box, err := mtex.Parse(q.Sym, q.Size, q.DPI, be)
	if err != nil {
		d.kind, d.text = "err", "error: "+norm(err.Error())
		return
	}
	ship.Call(q.Size2, q.Size2/2, box.(tex.Tree))
	d.kind, d.text = "ok", fmt.Sprintf("%v %v %v", box.Width(), box.Height(), box.Depth())
}

func checkSession(r *Run, refs [][]*Outcome) {
	for i := range r.Outs {
		op, o := r.P.Tasks[i][0], r.Outs[i][0]
		if o.Kind != "ok" {
			r.fail("session-"+o.Kind, "%s", o.key())
			return
		}
		for k, d := range o.Ptr.([]*drawn) {
			q := op.Q[k]
			if d.wrong != "" {
				r.fail("canvas", "after drawing %d, %s: %s", k, js(q), d.wrong)
				return
			}
			if q.K != "draw" {
				continue
			}
			ref := solo(nil, Op{K: "session", F: op.F, Q: []Query{q}})
			if ref.Kind != "ok" {
				continue
			}
			want := ref.Ptr.([]*drawn)[0]
			if want.kind == "ok" && k > 0 {
				probe("drawing added to others")
			}
			if d.faulted && op.Fault.Kind != "nest" && d.kind != "ok" {
				probe("drawing cut short")
				if d.kind == "panic" && want.kind == "ok" && !prefix(d.ops, want.ops) && d.keys == nil && want.keys == nil {
					r.fail("partial", "drawing %d, %s, was cut short: %d operations on the canvas, which are not the beginning of the drawing: %s", k, js(q), len(d.ops), diff(strings.Join(d.ops, "\n"), strings.Join(want.ops, "\n")))
					return
				}
				continue
			}
			if d.text == want.text {
				continue
			}
			if d.keys != nil || want.keys != nil {
				probe("glyphs of text and math mixed")
				continue
			}
			class := "history"
			if d.faulted {
				class = "silent"
			}
			r.fail(class, "drawing %d, %s: differs from the same on a new canvas with a new backend and shipper: %s", k, js(q), diff(d.text, want.text))
			return
		}
	}
	checkNested(r)
}

func prefix(a, b []string) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
