package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/go-latex/latex/ast"
	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/font/ttf"
	"github.com/go-latex/latex/tex"
	"golang.org/x/image/font/sfnt"
)

const maxDump = 1 << 20

// dumpAST writes a syntax tree with positions.
func dumpAST(n ast.Node) string {
	b := new(strings.Builder)
	astDump(b, n, 0)
	return b.String()
}

func astDump(b *strings.Builder, n ast.Node, depth int) {
	if b.Len() > maxDump || depth > 2000 {
		b.WriteString("...")
		return
	}
	list := func(l []ast.Node) {
		b.WriteByte('(')
		for i, x := range l {
			if i > 0 {
				b.WriteByte(' ')
			}
			astDump(b, x, depth+1)
		}
		b.WriteByte(')')
	}
	switch n := n.(type) {
	case nil:
		b.WriteString("nil")
	case ast.List:
		b.WriteString("L")
		list(n)
	case *ast.Macro:
		b.WriteString("M")
		if n.Name == nil {
			b.WriteString("<nil>")
		} else {
			fmt.Fprintf(b, "%q@%d", n.Name.Name, n.Name.NamePos)
		}
		list(n.Args)
	case *ast.Ident:
		fmt.Fprintf(b, "I%q@%d", n.Name, n.NamePos)
	case *ast.Arg:
		fmt.Fprintf(b, "A%d-%d", n.Lbrace, n.Rbrace)
		list(n.List)
	case *ast.OptArg:
		fmt.Fprintf(b, "O%d-%d", n.Lbrack, n.Rbrack)
		list(n.List)
	case *ast.MathExpr:
		fmt.Fprintf(b, "X%q%d-%d", n.Delim, n.Left, n.Right)
		list(n.List)
	case *ast.Word:
		fmt.Fprintf(b, "W%q@%d", n.Text, n.WordPos)
	case *ast.Literal:
		fmt.Fprintf(b, "N%q@%d", n.Text, n.LitPos)
	case *ast.Symbol:
		fmt.Fprintf(b, "S%q@%d", n.Text, n.SymPos)
	case *ast.Sup:
		fmt.Fprintf(b, "^%d", n.HatPos)
		astDump(b, n.Node, depth+1)
	case *ast.Sub:
		fmt.Fprintf(b, "_%d", n.UnderPos)
		astDump(b, n.Node, depth+1)
	default:
		fmt.Fprintf(b, "%T", n)
	}
}

// scribbleAST overwrites a syntax tree its owner may do with as it likes.
func scribbleAST(n ast.Node) {
	switch n := n.(type) {
	case ast.List:
		for i := range n {
			scribbleAST(n[i])
			n[i] = &ast.Word{WordPos: -7, Text: "scribbled"}
		}
	case *ast.Macro:
		if n.Name != nil {
			n.Name.Name = `\scribbled`
			n.Name.NamePos = -7
		}
		scribbleAST(n.Args)
		n.Args = nil
	case *ast.Arg:
		scribbleAST(n.List)
		n.List = nil
		n.Lbrace, n.Rbrace = -7, -7
	case *ast.OptArg:
		scribbleAST(n.List)
		n.List = nil
		n.Lbrack, n.Rbrack = -7, -7
	case *ast.MathExpr:
		scribbleAST(n.List)
		n.List = nil
		n.Left, n.Right = -7, -7
		n.Delim = "?"
	case *ast.Word:
		n.Text, n.WordPos = "scribbled", -7
	case *ast.Literal:
		n.Text, n.LitPos = "scribbled", -7
	case *ast.Symbol:
		n.Text, n.SymPos = "scribbled", -7
	case *ast.Sup:
		scribbleAST(n.Node)
		n.Node, n.HatPos = nil, -7
	case *ast.Sub:
		scribbleAST(n.Node)
		n.Node, n.UnderPos = nil, -7
	}
}

// fontIDs numbers font objects by first appearance.
type fontIDs struct{ list []*sfnt.Font }

func (f *fontIDs) id(ft *sfnt.Font) string {
	if ft == nil {
		return "f-"
	}
	for i, x := range f.list {
		if x == ft {
			return fmt.Sprintf("f%d", i)
		}
	}
	f.list = append(f.list, ft)
	return fmt.Sprintf("f%d[%d/%d]", len(f.list)-1, ft.NumGlyphs(), ft.UnitsPerEm())
}

// dumpOps writes a drawing.
func dumpOps(ops []drawtex.Op) string {
	var (
		b  = new(strings.Builder)
		fn fontIDs
	)
	fmt.Fprintf(b, "%d ops", len(ops))
	for _, op := range ops {
		switch op := op.(type) {
		case drawtex.GlyphOp:
			g := op.Glyph
			fmt.Fprintf(b, "\nG %v %v %s %v %s %q %d %v %v", op.X, op.Y, fn.id(g.Font), g.Size, g.Postscript, g.Symbol, g.Num, g.Offset, g.Metrics)
		case drawtex.RectOp:
			fmt.Fprintf(b, "\nR %v %v %v %v", op.X1, op.Y1, op.X2, op.Y2)
		default:
			fmt.Fprintf(b, "\n%T", op)
		}
	}
	return b.String()
}

// dumpBox writes a box tree through its public methods.
func dumpBox(n tex.Node) string {
	b := new(strings.Builder)
	boxDump(b, n, 0)
	return b.String()
}

func boxDump(b *strings.Builder, n tex.Node, depth int) {
	if b.Len() > maxDump || depth > 2000 {
		b.WriteString("...")
		return
	}
	if n == nil {
		b.WriteString("nil")
		return
	}
	fmt.Fprintf(b, "%T[%v %v %v", n, n.Width(), n.Height(), n.Depth())
	switch n := n.(type) {
	case *tex.Char:
		fmt.Fprintf(b, " %q", n.String())
	case tex.Tree:
		fmt.Fprintf(b, " %d %d %v", n.GlueOrder(), n.GlueSign(), n.GlueSet())
		for _, c := range n.Nodes() {
			b.WriteByte('\n')
			for i := 0; i <= depth && i < 40; i++ {
				b.WriteByte(' ')
			}
			boxDump(b, c, depth+1)
		}
	}
	b.WriteByte(']')
}

// dumpFonts writes a font collection: which faces it holds, and which of its
// entries are the same object.
func dumpFonts(f *ttf.Fonts) string {
	if f == nil {
		return "no collection"
	}
	var (
		b   = new(strings.Builder)
		fn  fontIDs
		buf sfnt.Buffer
	)
	for i, ft := range []*sfnt.Font{f.Default, f.Rm, f.It, f.Bf, f.BfIt} {
		name := "-"
		if ft != nil {
			s, err := ft.Name(&buf, sfnt.NameIDPostScript)
			name = s
			if err != nil {
				name = "error: " + err.Error()
			}
		}
		fmt.Fprintf(b, "%s=%s %s; ", []string{"default", "rm", "it", "bf", "bfit"}[i], fn.id(ft), name)
	}
	return b.String()
}

var hexPtr = regexp.MustCompile(`0x[0-9a-f]{6,}`)

// norm removes addresses from a message.
func norm(s string) string {
	if len(s) > maxDump {
		s = s[:maxDump]
	}
	return hexPtr.ReplaceAllString(s, "0xPTR")
}

// norm takes memory addresses out of a message, and takes note of them.
func (o *Outcome) norm(op *Op, s string) string {
	for _, a := range hexPtr.FindAllString(s, -1) {
		if op == nil && o.C != nil {
			op = o.C.op
		}
		if op == nil || !strings.Contains(op.X, a) {
			o.Addr = true
		}
	}
	return norm(s)
}

func clip(s string) string {
	const n = 240
	if len(s) <= n {
		return s
	}
	return s[:n] + fmt.Sprintf("... (%d bytes, hash %x)", len(s), hashStr(s))
}

// diff describes where two texts start to differ.
func diff(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	lo := i - 40
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := i + 80
		if hi > len(s) {
			hi = len(s)
		}
		if lo > len(s) {
			return ""
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("at byte %d: got %q, want %q", i, cut(got), cut(want))
}
