package main

import (
	"context"
	"fmt"
	"io"
	"os"
	"runtime"
	"syscall"

	"github.com/go-latex/latex/ast"
	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/font/ttf"
	"github.com/go-latex/latex/mtex"
	"github.com/go-latex/latex/vsim"
	"golang.org/x/image/font/sfnt"
)

// injected is the error every injected failure carries.
type injected struct{ what string }

func (e *injected) Error() string { return "injected: " + e.what }

func mkErr(f *Fault) error {
	switch f.Err {
	case "ENOSPC":
		return syscall.ENOSPC
	case "EPIPE":
		return syscall.EPIPE
	case "EIO":
		return syscall.EIO
	case "closed":
		return io.ErrClosedPipe
	case "eof":
		return io.ErrUnexpectedEOF
	case "EOF":
		return io.EOF
	case "EAGAIN": // says it is temporary
		return syscall.EAGAIN
	case "EINTR":
		return syscall.EINTR
	case "timeout":
		return os.ErrDeadlineExceeded
	case "canceled":
		return context.Canceled
	case "short":
		return io.ErrShortWrite
	case "noprogress":
		return io.ErrNoProgress
	case "path": // as a file system reports it
		return &os.PathError{Op: "write", Path: "out", Err: syscall.ENOSPC}
	case "own": // a type of the caller's, not comparable
		return callerErr{"own", []string{f.Where}}
	}
	return &injected{f.Where}
}

// callerErr is an error type of the caller: not comparable, and it knows what
// it is.
type callerErr struct {
	what string
	why  []string
}

func (e callerErr) Error() string { return "caller: " + e.what }

func (e callerErr) Is(err error) bool {
	o, ok := err.(callerErr)
	return ok && o.what == e.what
}

// callerPanic is what an injected panic in a caller's callback throws.
type callerPanic struct{ where string }

// octx is the context of one operation: its faults and what they did.
type octx struct {
	e      *env
	task   int
	op     *Op
	calls  map[string]int
	fired  []string
	err    error // the injected error, once it was returned
	nest   *Outcome
	done   bool // the operation returned
	late   int  // seam calls after the operation returned
	quiet  bool // faults suspended
	sink   *sink
	wrong  string // what the library did to something it was only lent
	thread string // what it did to the goroutine it ran on
	lent   *ttf.Fonts
	was    ttf.Fonts
}

// seam is called wherever the code under test enters a party the caller
// supplied; it is a scheduling point and the place faults strike.
func (c *octx) seam(where string) error {
	if c.done {
		c.late++
	}
	c.calls[where]++
	vsim.Point()
	f := c.op.Fault
	if f == nil || c.quiet || f.Where != where {
		return nil
	}
	n := c.calls[where]
	if n != f.At && !(f.Stick && n > f.At) {
		return nil
	}
	c.fired = append(c.fired, where+"-"+f.Kind)
	switch f.Kind {
	case "err":
		c.err = mkErr(f)
		return c.err
	case "panic":
		panic(callerPanic{where})
	case "goexit":
		runtime.Goexit()
	case "stall":
		vsim.Stall()
	case "nest":
		o := &Outcome{}
		c.nest = o
		sub := *c.op.Nest
		execOp(c.e, c.task, &sub, o)
	}
	return nil
}

// sink is the writer a caller supplies.
type sink struct {
	c        *octx
	buf      []byte
	writes   int
	failed   bool
	afterErr int
	max      int // capacity; 0: unlimited
	closed   bool
}

func (s *sink) Write(p []byte) (int, error) {
	s.writes++
	if s.closed {
		return 0, os.ErrClosed
	}
	if s.failed {
		s.afterErr++
	}
	if err := s.c.seam("write"); err != nil {
		n := s.c.op.Fault.Short
		if n > len(p) {
			n = len(p)
		}
		if s.failed {
			n = 0
		}
		s.buf = append(s.buf, p[:n]...)
		s.failed = true
		return n, err
	}
	if s.max > 0 && len(s.buf)+len(p) > s.max {
		n := s.max - len(s.buf)
		s.buf = append(s.buf, p[:n]...)
		s.c.err = syscall.ENOSPC
		if !s.failed {
			s.c.fired = append(s.c.fired, "write-full")
		}
		s.failed = true
		return n, s.c.err
	}
	s.buf = append(s.buf, p...)
	return len(p), nil
}

// What a caller's writer can do besides writing.
const (
	canString = 1 << iota // WriteString
	canByte               // WriteByte, WriteRune
	canRead               // ReadFrom
	canClose              // Close, Sync, Seek, as a file
	allCan
)

type (
	stringSink struct{ *sink }
	byteSink   struct{ *sink }
	readSink   struct{ *sink }
	fileSink   struct{ *sink }
)

func (s stringSink) WriteString(x string) (int, error) { return s.Write([]byte(x)) }

func (s byteSink) WriteByte(b byte) error {
	_, err := s.Write([]byte{b})
	return err
}

func (s byteSink) WriteRune(r rune) (int, error) { return s.Write([]byte(string(r))) }

func (s readSink) ReadFrom(r io.Reader) (int64, error) {
	var (
		n   int64
		buf [512]byte
	)
	for {
		k, err := r.Read(buf[:])
		if k > 0 {
			m, werr := s.Write(buf[:k])
			n += int64(m)
			if werr != nil {
				return n, werr
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

func (s fileSink) WriteString(x string) (int, error) { return s.Write([]byte(x)) }

func (s fileSink) Sync() error { return nil }

func (s fileSink) Close() error {
	if s.closed {
		return os.ErrClosed
	}
	s.closed = true
	return nil
}

func (s fileSink) Name() string { return "/w/sink" }

// as is the writer, with what op says it can do.
func (s *sink) as(op *Op) io.Writer {
	switch op.W {
	case 0:
		return s
	case canString:
		return stringSink{s}
	case canByte:
		return byteSink{s}
	case canRead:
		return readSink{s}
	case canClose:
		return fileSink{s}
	case canString | canByte:
		return struct {
			*sink
			io.StringWriter
			io.ByteWriter
		}{s, stringSink{s}, byteSink{s}}
	case canString | canByte | canRead: // all a buffer can do
		return struct {
			*sink
			io.StringWriter
			io.ByteWriter
			io.ReaderFrom
		}{s, stringSink{s}, byteSink{s}, readSink{s}}
	}
	return struct {
		fileSink
		io.ReaderFrom
	}{fileSink{s}, readSink{s}}
}

func (r *Rng) writer() int {
	if r.pct(50) {
		return 0
	}
	return r.n(allCan)
}

func (c *octx) newSink(max int) *sink {
	c.sink = &sink{c: c, max: max}
	return c.sink
}

// recorder is a renderer a caller supplies: it keeps what it was given.
type recorder struct {
	c     *octx
	calls int
	text  string
	cnv   *drawtex.Canvas
	inner mtex.Renderer
	w, h  float64
	dpi   float64
	raw   bool // does not look at the drawing
}

func (r *recorder) Render(w, h, dpi float64, cnv *drawtex.Canvas) error {
	r.calls++
	r.cnv = cnv
	r.w, r.h, r.dpi = w, h, dpi
	if r.raw {
		return r.c.seam("render")
	}
	r.text = fmt.Sprintf("w=%v h=%v dpi=%v ", w, h, dpi) + dumpOps(cnv.Ops())
	if err := r.c.seam("render"); err != nil {
		return err
	}
	if r.inner != nil {
		return r.inner.Render(w, h, dpi, cnv)
	}
	// a slow renderer reads its drawing late.
	again := fmt.Sprintf("w=%v h=%v dpi=%v ", w, h, dpi) + dumpOps(cnv.Ops())
	if again != r.text {
		r.text += "\nTHE DRAWING CHANGED UNDER THE RENDERER: " + diff(again, r.text)
	}
	return nil
}

// seamBackend is a font backend a caller supplies.
type seamBackend struct {
	c    *octx
	be   font.Backend
	draw []string
}

func (b *seamBackend) RenderGlyph(x, y float64, ft font.Font, symbol string, dpi float64) {
	b.c.seam("draw")
	b.draw = append(b.draw, fmt.Sprintf("G %v %v %v %q %v", x, y, ft, symbol, dpi))
	b.be.RenderGlyph(x, y, ft, symbol, dpi)
}

func (b *seamBackend) RenderRectFilled(x1, y1, x2, y2 float64) {
	b.c.seam("draw")
	b.draw = append(b.draw, fmt.Sprintf("R %v %v %v %v", x1, y1, x2, y2))
	b.be.RenderRectFilled(x1, y1, x2, y2)
}

func (b *seamBackend) Kern(ft1 font.Font, sym1 string, ft2 font.Font, sym2 string, dpi float64) float64 {
	b.c.seam("backend")
	return b.be.Kern(ft1, sym1, ft2, sym2, dpi)
}

func (b *seamBackend) Metrics(symbol string, ft font.Font, dpi float64, math bool) font.Metrics {
	b.c.seam("backend")
	return b.be.Metrics(symbol, ft, dpi, math)
}

func (b *seamBackend) XHeight(ft font.Font, dpi float64) float64 {
	b.c.seam("backend")
	return b.be.XHeight(ft, dpi)
}

func (b *seamBackend) UnderlineThickness(ft font.Font, dpi float64) float64 {
	b.c.seam("backend")
	return b.be.UnderlineThickness(ft, dpi)
}

// storage is where the bytes of a font live: a reader that can fail.
type storage struct {
	c    *octx
	data []byte
}

func (s *storage) ReadAt(p []byte, off int64) (int, error) {
	if s.c != nil && !s.c.quiet {
		if err := s.c.seam("font"); err != nil {
			n := 0
			if f := s.c.op.Fault; f != nil && f.Short > 0 && off >= 0 && off < int64(len(s.data)) {
				n = copy(p[:min(f.Short, len(p)-1)], s.data[off:])
			}
			return n, err
		}
	}
	if off < 0 || off >= int64(len(s.data)) {
		return 0, io.EOF
	}
	n := copy(p, s.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

// library is a font collection that several calls use, one after the other.
type library struct {
	fonts *ttf.Fonts
	from  []*storage
}

// ioFonts is a font collection whose glyphs are read from failing storage on
// demand.
func ioFonts(c *octx, name string) *ttf.Fonts {
	if c.op.Sh { // all calls of the caller use one collection
		if l := c.e.lent[fmt.Sprint(name, c.task)]; l != nil {
			for _, s := range l.from {
				s.c = c
			}
			return l.fonts
		}
	}
	was := c.quiet
	c.quiet = true
	defer func() { c.quiet = was }()
	var (
		fs   [4]*sfnt.Font
		from []*storage
	)
	for i, raw := range rawFonts[name] {
		s := &storage{c, raw}
		from = append(from, s)
		f, err := sfnt.ParseReaderAt(s)
		if err != nil {
			panic("harness: " + err.Error())
		}
		fs[i] = f
	}
	l := &library{&ttf.Fonts{Default: fs[0], Rm: fs[0], It: fs[1], Bf: fs[2], BfIt: fs[3]}, from}
	if c.op.Sh {
		if c.e.lent == nil {
			c.e.lent = map[string]*library{}
		}
		c.e.lent[fmt.Sprint(name, c.task)] = l
	}
	return l.fonts
}

// tour is a traversal that can stop descending at a node.
type tour struct {
	c    *octx
	log  []string
	n    int
	stop int // do not descend from the stop-th node; 0: always descend
}

// guide is the visitor for one level of a tour.
type guide struct {
	t     *tour
	depth int
}

func (g *guide) Visit(n ast.Node) ast.Visitor {
	if n == nil {
		g.t.log = append(g.t.log, fmt.Sprintf("%d:end", g.depth))
		g.t.c.seam("visit")
		return g
	}
	g.t.n++
	g.t.log = append(g.t.log, fmt.Sprintf("%d:%s", g.depth, nodeName(n)))
	stop := g.t.n == g.t.stop
	g.t.c.seam("visit")
	if stop {
		return nil
	}
	return &guide{g.t, g.depth + 1}
}

// nodeName identifies a node by type, text and position, using no method of
// the node.
func nodeName(n ast.Node) string {
	switch n := n.(type) {
	case ast.List:
		return fmt.Sprintf("List/%d", len(n))
	case *ast.Macro:
		return fmt.Sprintf("Macro/%d", len(n.Args))
	case *ast.Ident:
		return fmt.Sprintf("Ident/%s@%d", n.Name, n.NamePos)
	case *ast.Arg:
		return fmt.Sprintf("Arg@%d", n.Lbrace)
	case *ast.OptArg:
		return fmt.Sprintf("OptArg@%d", n.Lbrack)
	case *ast.MathExpr:
		return fmt.Sprintf("Math@%d", n.Left)
	case *ast.Word:
		return fmt.Sprintf("Word/%s@%d", n.Text, n.WordPos)
	case *ast.Literal:
		return fmt.Sprintf("Lit/%s@%d", n.Text, n.LitPos)
	case *ast.Symbol:
		return fmt.Sprintf("Sym/%s@%d", n.Text, n.SymPos)
	case *ast.Sup:
		return fmt.Sprintf("Sup@%d", n.HatPos)
	case *ast.Sub:
		return fmt.Sprintf("Sub@%d", n.UnderPos)
	}
	return fmt.Sprintf("%T", n)
}

// children are the non-nil children of a node, in source order.
func children(n ast.Node) []ast.Node {
	var out []ast.Node
	add := func(l ...ast.Node) {
		for _, x := range l {
			if x != nil {
				out = append(out, x)
			}
		}
	}
	switch n := n.(type) {
	case ast.List:
		add(n...)
	case *ast.Macro:
		if n.Name != nil {
			add(n.Name)
		}
		add(n.Args...)
	case *ast.Arg:
		add(n.List...)
	case *ast.OptArg:
		add(n.List...)
	case *ast.MathExpr:
		add(n.List...)
	case *ast.Sup:
		add(n.Node)
	case *ast.Sub:
		add(n.Node)
	}
	return out
}

// model is what a tour of n has to log, from the documentation of Walk.
func model(n ast.Node, stop int) []string {
	var (
		log []string
		k   int
		rec func(n ast.Node, depth int)
	)
	rec = func(n ast.Node, depth int) {
		k++
		log = append(log, fmt.Sprintf("%d:%s", depth, nodeName(n)))
		if k == stop {
			return
		}
		for _, c := range children(n) {
			rec(c, depth+1)
		}
		log = append(log, fmt.Sprintf("%d:end", depth+1))
	}
	rec(n, 0)
	return log
}

// countNodes is the number of nodes of a tree.
func countNodes(n ast.Node) int {
	k := 1
	for _, c := range children(n) {
		k += countNodes(c)
	}
	return k
}

// inspect lets ast.Inspect make the tour.
func (t *tour) inspect(node ast.Node) {
	depth := 0
	ast.Inspect(node, func(n ast.Node) bool {
		if n == nil {
			t.log = append(t.log, fmt.Sprintf("%d:end", depth))
			depth--
			t.c.seam("visit")
			return true
		}
		t.n++
		t.log = append(t.log, fmt.Sprintf("%d:%s", depth, nodeName(n)))
		t.c.seam("visit")
		if t.n == t.stop {
			return false
		}
		depth++
		return true
	})
}
