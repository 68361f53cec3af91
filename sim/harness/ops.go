package main

import (
	"bytes"
	"fmt"
	"image/png"
	"runtime"
	"runtime/debug"
	"strings"

	"github.com/go-fonts/latin-modern/lmroman10bold"
	"github.com/go-fonts/latin-modern/lmroman10bolditalic"
	"github.com/go-fonts/latin-modern/lmroman10italic"
	"github.com/go-fonts/latin-modern/lmroman10regular"
	"github.com/go-fonts/liberation/liberationserifbold"
	"github.com/go-fonts/liberation/liberationserifitalic"
	"github.com/go-fonts/liberation/liberationserifregular"
	"github.com/go-latex/latex"
	"github.com/go-latex/latex/ast"
	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/drawtex/drawimg"
	"github.com/go-latex/latex/drawtex/drawpdf"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/font/liberation"
	"github.com/go-latex/latex/font/lm"
	"github.com/go-latex/latex/font/ttf"
	"github.com/go-latex/latex/internal/tex2unicode"
	"github.com/go-latex/latex/mtex"
	"github.com/go-latex/latex/mtex/symbols"
	"github.com/go-latex/latex/tex"
	"github.com/go-latex/latex/vsim"
	"github.com/go-latex/latex/vsim/simos"
	"golang.org/x/image/font/gofont/goitalic"
	"golang.org/x/image/font/gofont/goregular"
)

// rawFonts back the collections that are read on demand: regular, italic,
// bold, bold-italic.
var rawFonts = map[string][4][]byte{
	"io": {goregular.TTF, goitalic.TTF, liberationserifbold.TTF, liberationserifregular.TTF},
	// kerning from the "kern" table is read when it is asked for; from the
	// "GPOS" table, it is read in advance.
	"iok": {noGPOS(liberationserifregular.TTF), noGPOS(liberationserifitalic.TTF), noGPOS(liberationserifbold.TTF), noGPOS(liberationserifregular.TTF)},
	// cubic outlines.
	"iol": {lmroman10regular.TTF, lmroman10italic.TTF, lmroman10bold.TTF, lmroman10bolditalic.TTF},
}

// onDemand says whether the glyphs of a collection are read when needed.
func onDemand(name string) bool { return strings.HasPrefix(name, "io") }

// noGPOS is a font whose "GPOS" table goes by another name.
func noGPOS(raw []byte) []byte {
	raw = append([]byte(nil), raw...)
	if i := bytes.Index(raw[:512], []byte("GPOS")); i >= 0 {
		raw[i+3] = 'X'
	}
	return raw
}

// Outcome is what a caller observed of one operation.
type Outcome struct {
	Kind string // ok, err, panic, hung, stopped, goexit, "" (not reached)
	Text string
	Addr bool // the text named addresses in memory
	Data []byte
	Err  error
	Ptr  any
	Obj  any           // result kept by the caller
	Keep func() string // describes the kept result again
	Was  string        // what Keep said when the operation returned
	Info map[string]int

	Steps uint64 // statements of the caller's own
	Spent uint64 // everything done meanwhile, by whomever
	C     *octx
}

func (o *Outcome) key() string { return o.Kind + ": " + o.Text }

// env is the world the callers of a run share.
type env struct {
	shared []*Outcome
	lent   map[string]*library
	disk   *simos.Disk
	// threads: look at what calls do to the goroutine they run on.
	threads bool
}

// armDisk sets what goes wrong with the disk during op.
func (e *env) armDisk(op *Op, name string) {
	if d := op.Disk; d != nil {
		if d.Old > 0 {
			old := d.old
			if old == nil {
				old = bytes.Repeat([]byte("old contents "), d.Old/13+1)[:d.Old]
			}
			e.disk.Put(name, old)
		}
		e.disk.Arm(d.Faults, d.Cap, d.Crash)
		e.disk.Sig = d.Sig
	}
}

// makeOld makes up the file that is there before, one like that to be made.
func (d *DiskPlan) makeOld(full []byte) {
	d.old = nil
	if d.Like == "" || d.Old == 0 || len(full) == 0 {
		return
	}
	raw := append([]byte(nil), full...)
	at := d.Old % len(raw)
	switch d.Like {
	case "size":
		for i := range raw {
			raw[i] = 'x'
		}
	case "byte":
		raw[at] ^= 0x10
	case "hole": // a block that never got to the disk
		for i := at; i < len(raw) && i < at+512; i++ {
			raw[i] = 0
		}
	case "head":
		raw = raw[:at]
	case "more":
		raw = append(raw, raw[:at]...)
	case "same":
	}
	d.old = raw
	probe("old file like the new one: " + d.Like)
}

// tree is the syntax tree a parse returned.
func (o *Outcome) tree() ast.Node { return o.Obj.(ast.Node) }

const opLimit = 3_000_000

// execOp performs one call and records what the caller observes.
func execOp(e *env, task int, op *Op, o *Outcome) {
	c := &octx{e: e, task: task, op: op, calls: map[string]int{}}
	o.C = c
	o.Kind = "goexit"
	start, spent := vsim.Steps(), vsim.Spent()
	var thread, tag string
	if e.threads {
		if (task+len(op.X))%8 == 0 {
			tag = fmt.Sprintf("caller %d", task)
			label(tag)
		}
		thread = threadState(tag)
	}
	defer func() {
		c.done = true
		if e.threads && !vsim.Stopping() {
			if now := threadState(tag); now != thread {
				c.thread = diff(now, thread)
			}
			freshThread()
		}
		o.Steps, o.Spent = vsim.Steps()-start, vsim.Spent()-spent
		if r := recover(); r != nil {
			switch {
			case r == any(vsim.HungPanic):
				o.Kind, o.Text = "hung", fmt.Sprintf("no result after %d statements", o.Steps)
			case r == any(vsim.StopPanic):
				o.Kind, o.Text = "stopped", "deadlock"
			default:
				o.Kind = "panic"
				switch r := r.(type) {
				case simos.Exited:
					// the process would be gone.
					o.Kind, o.Text = "exit", fmt.Sprintf("the library ended the process with status %d", r.Code)
					e.disk.Dead = false
				case callerPanic:
					o.Text = "caller's own panic: " + r.where
				case error:
					o.Text = o.norm(op, r.Error())
				default:
					o.Text = o.norm(op, fmt.Sprint(r))
				}
				if traceStack {
					o.Text += "\n" + string(debug.Stack())
				}
			}
		}
		if vsim.Hung() && o.Kind != "hung" {
			o.Kind, o.Text = "hung", fmt.Sprintf("no result after %d statements", o.Steps)
		}
		if vsim.Stopping() {
			o.Kind, o.Text = "stopped", "deadlock"
		}
	}()
	perform(c, op, o)
	if f := c.lent; f != nil && *f != c.was {
		c.wrong = "the library changed the font collection it was given"
	}
}

var traceStack bool

func setErr(o *Outcome, err error) {
	o.Err = err
	if err != nil {
		o.Kind = "err"
		o.Text = o.norm(nil, err.Error())
		return
	}
	o.Kind = "ok"
}

func fontsOf(c *octx, name string) *ttf.Fonts {
	f := fontsNamed(c, name)
	if f != nil {
		c.lent, c.was = f, *f
	}
	return f
}

func fontsNamed(c *octx, name string) *ttf.Fonts {
	switch name {
	case "lm":
		return lm.Fonts()
	case "lib":
		return liberation.Fonts()
	}
	if onDemand(name) {
		return ioFonts(c, name)
	}
	return nil
}

func backendOf(c *octx, cnv *drawtex.Canvas, name string) *ttf.Backend {
	if fs := fontsOf(c, name); fs != nil {
		return ttf.NewFrom(cnv, fs)
	}
	return ttf.New(cnv)
}

func (op *Op) size() float64 {
	if op.Size == 0 {
		return 12
	}
	return op.Size
}

func (op *Op) dpi() float64 {
	if op.DPI == 0 {
		return 72
	}
	return op.DPI
}

func perform(c *octx, op *Op, o *Outcome) {
	switch op.K {
	case "parse":
		node, err := latex.ParseExpr(op.X)
		setErr(o, err)
		if err == nil {
			o.Obj = node
			o.Keep = func() string { return dumpAST(node) }
			if op.Raw {
				return
			}
			o.Text = dumpAST(node)
			o.Was = o.Text
			if op.S {
				scribbleAST(node)
				o.Keep = nil
			}
		}

	case "deep":
		// far more than anyone writes; a stack that would overflow does so
		// earlier than the default of 1 GB, and ends the process.
		x := strings.Repeat(op.X, op.N)
		if len(op.A) == 3 {
			x = op.A[0] + x + strings.Repeat(op.A[1], op.N) + op.A[2]
		}
		vsim.SetLimit(uint64(boundOf(op)))
		vsim.SetMeter(1<<30, 4<<10)
		defer debug.SetMaxStack(debug.SetMaxStack(160 << 20))
		node, err := latex.ParseExpr(x)
		setErr(o, err)
		o.Text = clip(o.Text)
		if err == nil && len(x) < 1<<16 {
			n := 0
			ast.Inspect(node, func(ast.Node) bool { n++; return true })
			o.Text = fmt.Sprint(n, " visits")
		}

	case "longer": // the same, repeated n, 2n and 4n times
		var costs, bytes []uint64
		for i := -1; i < 3; i++ {
			n := op.N << max(i, 0)
			if i < 0 { // what is done once in a process does not count
				n = op.N*4 - 1
			}
			sub := Op{K: op.A[0], X: op.A[1] + strings.Repeat(op.X, n) + op.A[2], F: op.F}
			out := &Outcome{}
			vsim.SetLimit(uint64(boundOf(&sub)))
			vsim.SetMeter(1<<30, 4<<10)
			was := allocated()
			execOp(c.e, c.task, &sub, out)
			if i >= 0 {
				costs = append(costs, out.Spent)
				bytes = append(bytes, allocated()-was)
			}
			o.Kind, o.Text = out.Kind, clip(out.Text)
			if out.Kind == "hung" {
				return
			}
		}
		o.Ptr = append(costs, bytes...)

	case "print":
		node, err := latex.ParseExpr(op.X)
		setErr(o, err)
		if err == nil {
			w := c.newSink(0)
			ast.Print(w.as(op), node)
			o.Text = string(w.buf)
		}

	case "walk":
		node, err := latex.ParseExpr(op.X)
		setErr(o, err)
		if err == nil {
			t := &tour{c: c, stop: op.N}
			ast.Walk(&guide{t, 0}, node)
			o.Text = strings.Join(t.log, "\n")
		}

	case "inspect":
		node, err := latex.ParseExpr(op.X)
		setErr(o, err)
		if err == nil {
			t := &tour{c: c, stop: op.N}
			t.inspect(node)
			o.Text = strings.Join(t.log, "\n")
		}

	case "mparse":
		cnv := drawtex.New()
		be := &seamBackend{c: c, be: backendOf(c, cnv, op.F)}
		box, err := mtex.Parse(op.X, op.size(), op.dpi(), be)
		setErr(o, err)
		if err == nil {
			o.Obj = &shipment{box, be, cnv}
			o.Keep = func() string { return dumpBox(box) }
			if op.Raw {
				return
			}
			o.Text = dumpBox(box)
			o.Was = o.Text
		}

	case "ship": // typeset, then ship twice with the same Ship, and once with another
		cnv := drawtex.New()
		be := &seamBackend{c: c, be: backendOf(c, cnv, op.F)}
		box, err := mtex.Parse(op.X, op.size(), op.dpi(), be)
		setErr(o, err)
		if err == nil {
			var sh tex.Ship
			sh.Call(0, 0, box.(tex.Tree))
			o.Text = fmt.Sprintf("%v %v %v\n", box.Width(), box.Height(), box.Depth()) + strings.Join(be.draw, "\n") + "\n" + dumpOps(cnv.Ops())
			o.Obj = &shipment{box, be, cnv}
			o.Keep = func() string { return dumpOps(cnv.Ops()) }
			o.Was = o.Keep()
		}

	case "drawing": // what a renderer has to be given, worked out step by step
		cnv := drawtex.New()
		box, err := mtex.Parse(op.X, op.size(), 72, backendOf(c, cnv, op.F))
		setErr(o, err)
		if err == nil {
			new(tex.Ship).Call(0, 0, box.(tex.Tree))
			o.Text = fmt.Sprintf("dpi=%v ", op.dpi()) + dumpOps(cnv.Ops())
		}

	case "reship": // shipping is interrupted and done again
		cnv := drawtex.New()
		be := &seamBackend{c: c, be: backendOf(c, cnv, op.F)}
		var (
			box tex.Node
			err error
		)
		c.quiet = true
		if op.B != nil {
			box = op.B.build(c, tex.NewState(be, font.Font{Name: "default", Size: op.size(), Type: "rm"}, op.dpi()))
		} else {
			box, err = mtex.Parse(op.X, op.size(), op.dpi(), be)
		}
		c.quiet = false
		setErr(o, err)
		if err == nil {
			var (
				sh   tex.Ship
				fst  []string
				snd  []string
				shot = func(s *tex.Ship, ox, oy float64) (log []string, done bool) {
					be.draw = nil
					defer func() {
						log = be.draw
						if r := recover(); r != nil {
							if _, ok := r.(callerPanic); !ok {
								panic(r)
							}
						}
					}()
					s.Call(ox, oy, box.(tex.Tree))
					return nil, true
				}
			)
			ox, oy := float64(op.I%3)*2.5, float64(op.I%5)
			fst, done := shot(&sh, ox, oy)
			c.quiet = true
			if op.N%2 == 1 {
				sh = tex.Ship{}
			}
			snd, _ = shot(&sh, ox, oy)
			o.Ptr = [2][]string{fst, snd}
			o.Info = map[string]int{"interrupted": b2i(!done)}
			o.Text = strings.Join(snd, "\n")
		}

	case "render":
		r := &recorder{c: c, raw: op.Raw}
		err := mtex.Render(r, op.X, op.size(), op.dpi(), fontsOf(c, op.F))
		setErr(o, err)
		o.Info = map[string]int{"calls": r.calls}
		if err == nil {
			o.Text = r.text
		}
		if r.calls > 0 {
			o.Ptr = r.text
			cnv := r.cnv
			o.Obj = cnv
			o.Keep = func() string { return dumpOps(cnv.Ops()) }
			if op.Raw {
				return
			}
			o.Was = o.Keep()
			if op.S {
				ops := cnv.Ops()
				for i := range ops {
					ops[i] = drawtex.RectOp{X1: -7, Y1: -7, X2: -7, Y2: -7}
				}
				o.Keep = nil
			}
		}

	case "png":
		w := c.newSink(op.N)
		err := mtex.Render(drawimg.NewRenderer(w.as(op)), op.X, op.size(), op.dpi(), fontsOf(c, op.F))
		o.Data = w.buf
		o.Obj = w
		setErr(o, err)
		if err == nil {
			o.Text = pngText(w.buf)
		}

	case "png2": // one renderer, used op.I times more
		w := c.newSink(0)
		r := drawimg.NewRenderer(w.as(op))
		err := mtex.Render(r, op.X, op.size(), op.dpi(), fontsOf(c, op.F))
		setErr(o, err)
		o.Data = w.buf
		o.Obj = w
		first := len(w.buf)
		c.quiet = true
		w.failed = false
		var again []string
		for i := 0; i < op.I; i++ {
			w.buf = nil
			err2 := mtex.Render(r, op.X, op.size(), op.dpi(), fontsOf(c, op.F))
			again = append(again, fmt.Sprintf("err=%v %s", err2, pngText(w.buf)))
		}
		w.buf = nil
		o.Info = map[string]int{"first": first}
		o.Ptr = again
		if err == nil {
			o.Text = pngText(o.Data)
		}

	case "pdf":
		c.e.armDisk(op, op.A[0])
		before := len(c.e.disk.Fired)
		r := &pdfRenderer{c: c, name: op.A[0]}
		err := mtex.Render(r, op.X, op.size(), op.dpi(), fontsOf(c, op.F))
		setErr(o, err)
		o.Data, _ = c.e.disk.Get(op.A[0])
		o.Data = append([]byte(nil), o.Data...)
		o.Info = map[string]int{"calls": r.calls, "fired": len(c.e.disk.Fired) - before}
		c.e.disk.Arm(nil, 0, 0)
		if err == nil {
			o.Text = fmt.Sprintf("%d bytes, hash %x", len(o.Data), hashStr(string(o.Data)))
		}

	case "fonts":
		f := fontsOf(c, op.F)
		o.Kind = "ok"
		o.Ptr = f
		o.Text = dumpFonts(f)

	case "backend":
		queries(c, op, o)

	case "tables":
		o.Kind = "ok"
		o.Text = tables(op, o)

	case "index":
		o.Kind = "ok"
		o.Text = fmt.Sprintf("%U", tex2unicode.Index(op.X, op.N == 1))

	// operations on shared objects
	case "sprint":
		sh := c.e.shared[op.I%len(c.e.shared)]
		w := c.newSink(op.N)
		o.Obj = w
		ast.Print(w.as(op), sh.Obj.(ast.Node))
		o.Kind = "ok"
		o.Text = string(w.buf)
		o.Data = w.buf

	case "swalk":
		sh := c.e.shared[op.I%len(c.e.shared)]
		t := &tour{c: c, stop: op.N}
		o.Ptr = t
		ast.Walk(&guide{t, 0}, sh.Obj.(ast.Node))
		o.Kind = "ok"
		o.Text = strings.Join(t.log, "\n")

	case "sinspect":
		sh := c.e.shared[op.I%len(c.e.shared)]
		t := &tour{c: c, stop: op.N}
		o.Ptr = t
		t.inspect(sh.Obj.(ast.Node))
		o.Kind = "ok"
		o.Text = strings.Join(t.log, "\n")

	case "spos":
		sh := c.e.shared[op.I%len(c.e.shared)]
		n := sh.Obj.(ast.Node)
		o.Kind = "ok"
		b := new(strings.Builder)
		positions(b, n, 0)
		o.Text = b.String()

	case "spng":
		sh := c.e.shared[op.I%len(c.e.shared)]
		w := c.newSink(op.N)
		err := drawimg.NewRenderer(w.as(op)).Render(1.5, 0.7, op.dpi(), sh.Obj.(*drawtex.Canvas))
		o.Data = w.buf
		o.Obj = w
		setErr(o, err)
		if err == nil {
			o.Text = pngText(w.buf)
		}

	case "sops":
		sh := c.e.shared[op.I%len(c.e.shared)]
		o.Kind = "ok"
		o.Text = dumpOps(sh.Obj.(*drawtex.Canvas).Ops())

	case "sbox":
		sh := c.e.shared[op.I%len(c.e.shared)]
		o.Kind = "ok"
		o.Text = dumpBox(sh.Obj.(*shipment).box)

	default:
		if f := extraOps[op.K]; f != nil {
			f(c, op, o)
			return
		}
		panic("harness: unknown operation " + op.K)
	}
}

// extraOps are the operations of optional parts of the harness.
var extraOps = map[string]func(c *octx, op *Op, o *Outcome){}

type shipment struct {
	box tex.Node
	be  *seamBackend
	cnv *drawtex.Canvas
}

type pdfRenderer struct {
	c     *octx
	name  string
	calls int
}

func (r *pdfRenderer) Render(w, h, dpi float64, cnv *drawtex.Canvas) error {
	r.calls++
	return drawpdf.Write(r.name, w*72, h*72, cnv)
}

// answer is a backend's answer to one question.
type answer struct {
	text     string
	faulted  bool // storage failed while it was worked out
	panicked bool
}

// queries asks one backend, or two of the same font collection and one of
// another, a list of questions.
func queries(c *octx, op *Op, o *Outcome) {
	var (
		out []answer
		txt []string
		cnv [3]*drawtex.Canvas
		bes [3]*ttf.Backend
		fs  = fontsOf(c, op.F)
	)
	for i := range op.Q {
		n := len(c.fired)
		b := op.Q[i].B
		if bes[b] == nil {
			cnv[b] = drawtex.New()
			fs := fs
			if b == 2 {
				fs = fontsOf(c, op.A[0])
			}
			if fs != nil {
				bes[b] = ttf.NewFrom(cnv[b], fs)
			} else {
				bes[b] = ttf.New(cnv[b])
			}
		}
		a := query(bes[b], cnv[b], &op.Q[i])
		a.faulted = len(c.fired) > n
		out = append(out, a)
		txt = append(txt, a.text)
	}
	o.Kind = "ok"
	o.Ptr = out
	o.Text = strings.Join(txt, "\n")
}

func query(be *ttf.Backend, cnv *drawtex.Canvas, q *Query) (a answer) {
	defer func() {
		if r := recover(); r != nil {
			if r == any(vsim.HungPanic) || r == any(vsim.StopPanic) {
				panic(r)
			}
			a = answer{text: "panic: " + norm(fmt.Sprint(r)), panicked: true}
		}
	}()
	ft := font.Font{Name: q.Name, Type: q.Type, Size: q.Size}
	switch q.K {
	case "metrics":
		return answer{text: fmt.Sprintf("%+v", be.Metrics(q.Sym, ft, q.DPI, q.Math))}
	case "kern":
		f2 := font.Font{Name: q.Name2, Type: q.Type2, Size: q.Size2}
		return answer{text: fmt.Sprint(be.Kern(ft, q.Sym, f2, q.Sym2, q.DPI))}
	case "glyph":
		n := len(cnv.Ops())
		be.RenderGlyph(1, 2, ft, q.Sym, q.DPI)
		ops := cnv.Ops()
		if len(ops) != n+1 {
			return answer{text: fmt.Sprintf("%d drawing operations", len(ops)-n)}
		}
		return answer{text: dumpOps(ops[n:])}
	case "parse": // a whole expression is typeset in between
		box, err := mtex.Parse(q.Sym, q.Size, q.DPI, be)
		if err != nil {
			return answer{text: "error: " + norm(err.Error())}
		}
		return answer{text: dumpBox(box)}
	case "xheight":
		return answer{text: fmt.Sprint(be.XHeight(ft, q.DPI))}
	case "uline":
		return answer{text: fmt.Sprint(be.UnderlineThickness(ft, q.DPI))}
	}
	panic("harness: unknown query " + q.K)
}

// fresh is what a backend that was asked nothing else answers.  What glyph a
// symbol is drawn with depends on whether it was measured as math or as text,
// which the drawing and kerning questions do not say: both are right.
func fresh(fonts string, q Query) []string {
	var out []string
	q.B = 0
	ask := func(qs ...Query) {
		op := Op{K: "backend", F: fonts, Q: qs}
		as := solo(nil, op).Ptr.([]answer)
		out = append(out, as[len(as)-1].text)
	}
	ask(q)
	m1 := Query{K: "metrics", Sym: q.Sym, Name: q.Name, Type: q.Type, Size: q.Size, DPI: q.DPI}
	m2 := Query{K: "metrics", Sym: q.Sym2, Name: q.Name2, Type: q.Type2, Size: q.Size2, DPI: q.DPI}
	switch q.K {
	case "glyph":
		ask(m1, q)
	case "kern":
		for k := 1; k < 4; k++ {
			m1.Math, m2.Math = k&1 == 0, k&2 == 0
			ask(m1, m2, q)
		}
	}
	return out
}

// tables reads the symbol tables.
func tables(op *Op, o *Outcome) string {
	b := new(strings.Builder)
	sets := []symbols.Set{symbols.BinaryOperators, symbols.RelationSymbols, symbols.ArrowSymbols, symbols.SpacedSymbols, symbols.PunctuationSymbols, symbols.FunctionNames, symbols.LeftDelim, symbols.RightDelim}
	for i, s := range sets {
		ks := s.Keys()
		fmt.Fprintf(b, "%d:%d/%x ", i, len(ks), hashStr(strings.Join(ks, " ")))
		if op.S {
			for j := range ks {
				ks[j] = "scribbled"
			}
		}
	}
	u := symbols.UnionOf(sets[0], sets[1])
	fmt.Fprintf(b, "union %d ", len(u))
	if op.S {
		for k := range u {
			delete(u, k)
		}
		u["scribbled"] = struct{}{}
	}
	n := symbols.NewSet("a", "b")
	fmt.Fprintf(b, "%v %v %v ", n.Has("a"), n.Has("c"), symbols.IsSpaced(op.X))
	syms := tex2unicode.Symbols()
	h := uint64(0)
	for _, s := range syms {
		h += hashStr(s)
	}
	fmt.Fprintf(b, "syms %d/%x %v ", len(syms), h, tex2unicode.HasSymbol("alpha"))
	if op.S {
		for j := range syms {
			syms[j] = "scribbled"
		}
	} else {
		cp := strings.Join(syms, " ")
		o.Was = cp
		o.Keep = func() string { return strings.Join(syms, " ") }
	}
	return b.String()
}

func pngText(raw []byte) string {
	img, err := png.Decode(bytes.NewReader(raw))
	if err != nil {
		return fmt.Sprintf("%d bytes, hash %x: not a PNG: %v", len(raw), hashStr(string(raw)), err)
	}
	return fmt.Sprintf("%d bytes, hash %x, PNG %v", len(raw), hashStr(string(raw)), img.Bounds())
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// allocated is how many bytes this process has asked for so far.
func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}
