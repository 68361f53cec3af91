From 5d9fc611b3e2cec9c6a9644ff7285d642dd9b294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 1/8] fix: font/ttf: do not mix up math and text mode metrics

The glyph cache of the backend was not keyed by mode: once "-" had been
measured as text, it had the metrics of a hyphen in math mode, too, and
vice versa.
---
 font/ttf/ttf.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/font/ttf/ttf.go b/font/ttf/ttf.go
index ef16811..5429fa4 100644
--- a/font/ttf/ttf.go
+++ b/font/ttf/ttf.go
@@ -60,7 +60,7 @@ func NewFrom(cnv *drawtex.Canvas, fnts *Fonts) *Backend {
 
 // RenderGlyphs renders the glyph g at the reference point (x,y).
 func (be *Backend) RenderGlyph(x, y float64, font font.Font, symbol string, dpi float64) {
-	glyph := be.getInfo(symbol, font, dpi, true)
+	glyph := be.measured(symbol, font, dpi)
 	be.canvas.RenderGlyph(x, y, drawtex.Glyph{
 		Font:       glyph.font,
 		Size:       glyph.size,
@@ -82,8 +82,20 @@ func (be *Backend) Metrics(symbol string, fnt font.Font, dpi float64, math bool)
 	return be.getInfo(symbol, fnt, dpi, math).metrics
 }
 
+// measured returns the glyph for a symbol that is to be drawn or kerned: the
+// one that has been measured for it, preferably in math mode.
+func (be *Backend) measured(symbol string, fnt font.Font, dpi float64) ttfVal {
+	for _, math := range []bool{true, false} {
+		val, ok := be.glyphs[ttfKey{symbol, fnt, dpi, math}]
+		if ok {
+			return val
+		}
+	}
+	return be.getInfo(symbol, fnt, dpi, true)
+}
+
 func (be *Backend) getInfo(symbol string, fnt font.Font, dpi float64, math bool) ttfVal {
-	key := ttfKey{symbol, fnt, dpi}
+	key := ttfKey{symbol, fnt, dpi, math}
 	val, ok := be.glyphs[key]
 	if ok {
 		return val
@@ -248,9 +260,8 @@ func (*Backend) UnderlineThickness(font font.Font, dpi float64) float64 {
 // Kern returns the kerning distance between two symbols.
 func (be *Backend) Kern(ft1 font.Font, sym1 string, ft2 font.Font, sym2 string, dpi float64) float64 {
 	if ft1.Name == ft2.Name && ft1.Size == ft2.Size {
-		const math = true
-		info1 := be.getInfo(sym1, ft1, dpi, math)
-		info2 := be.getInfo(sym2, ft2, dpi, math)
+		info1 := be.measured(sym1, ft1, dpi)
+		info2 := be.measured(sym2, ft2, dpi)
 		scale := fixed.Int26_6(info1.font.UnitsPerEm())
 		var buf sfnt.Buffer
 		k, err := info1.font.Kern(&buf, info1.glyph, info2.glyph, scale, hintingNone)
@@ -271,6 +282,7 @@ type ttfKey struct {
 	symbol string
 	font   font.Font
 	dpi    float64
+	math   bool
 }
 
 type ttfVal struct {
-- 
2.43.0


From ab2f168629986526af259da1db9362b0f5badd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 2/8] fix: drawtex/drawimg: report glyphs that could not be
 loaded

A glyph whose outline could not be read from the font while drawing was
left out of the image and Render returned nil.
---
 drawtex/drawimg/drawimg.go | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/drawtex/drawimg/drawimg.go b/drawtex/drawimg/drawimg.go
index ba57410..f0d2e23 100644
--- a/drawtex/drawimg/drawimg.go
+++ b/drawtex/drawimg/drawimg.go
@@ -19,6 +19,8 @@ import (
 	"github.com/go-latex/latex/mtex"
 	"golang.org/x/image/font"
 	"golang.org/x/image/font/opentype"
+	"golang.org/x/image/font/sfnt"
+	"golang.org/x/image/math/fixed"
 )
 
 type Renderer struct {
@@ -46,7 +48,10 @@ func (r *Renderer) Render(width, height, dpi float64, c *drawtex.Canvas) error {
 	for _, op := range c.Ops() {
 		switch op := op.(type) {
 		case drawtex.GlyphOp:
-			drawGlyph(ctx, dpi, op)
+			err := drawGlyph(ctx, dpi, op)
+			if err != nil {
+				return err
+			}
 		case drawtex.RectOp:
 			drawRect(ctx, dpi, op)
 		default:
@@ -57,7 +62,7 @@ func (r *Renderer) Render(width, height, dpi float64, c *drawtex.Canvas) error {
 	return png.Encode(r.w, ctx.Image())
 }
 
-func drawGlyph(ctx *gg.Context, dpi float64, op drawtex.GlyphOp) {
+func drawGlyph(ctx *gg.Context, dpi float64, op drawtex.GlyphOp) error {
 	face, err := opentype.NewFace(op.Glyph.Font, &opentype.FaceOptions{
 		DPI:     dpi,
 		Size:    op.Glyph.Size,
@@ -69,7 +74,8 @@ func drawGlyph(ctx *gg.Context, dpi float64, op drawtex.GlyphOp) {
 		))
 	}
 	defer face.Close()
-	ctx.SetFontFace(face)
+	glyphs := &glyphLoader{Face: face, font: op.Glyph.Font}
+	ctx.SetFontFace(glyphs)
 
 	dpi /= 72
 
@@ -80,6 +86,32 @@ func drawGlyph(ctx *gg.Context, dpi float64, op drawtex.GlyphOp) {
 	//		w, h, x, y, op.Glyph.Size,
 	//	)
 	ctx.DrawString(op.Glyph.Symbol, x, y)
+
+	if glyphs.err != nil {
+		return fmt.Errorf("could not draw glyph %q: %w", op.Glyph.Symbol, glyphs.err)
+	}
+	return nil
+}
+
+// glyphLoader is a font face that remembers a glyph could not be loaded: gg
+// just skips it.
+type glyphLoader struct {
+	font.Face
+	font *sfnt.Font
+	err  error
+}
+
+func (g *glyphLoader) Glyph(dot fixed.Point26_6, r rune) (dr image.Rectangle, mask image.Image, maskp image.Point, advance fixed.Int26_6, ok bool) {
+	dr, mask, maskp, advance, ok = g.Face.Glyph(dot, r)
+	if !ok && g.err == nil {
+		// glyphs the font does not have are not drawn.
+		idx, err := g.font.GlyphIndex(new(sfnt.Buffer), r)
+		if err == nil && idx != 0 {
+			err = fmt.Errorf("could not load glyph %d", idx)
+		}
+		g.err = err
+	}
+	return dr, mask, maskp, advance, ok
 }
 
 func drawRect(ctx *gg.Context, dpi float64, op drawtex.RectOp) {
-- 
2.43.0


From e692b212e9bf8d0bcc78b43195a1ffb1c3d04a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 3/8] fix: ast: do not walk nil nodes of Sub and Sup

Walk and Inspect are documented to visit the non-nil children, but panicked
on a subscript or superscript followed by a space or comment ("$x^ y$"),
whose Node is nil.
---
 ast/walk.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ast/walk.go b/ast/walk.go
index 7c95cb2..5037666 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -51,10 +51,14 @@ func Walk(v Visitor, node Node) {
 		// nothing to do.
 
 	case *Sub:
-		Walk(v, n.Node)
+		if n.Node != nil {
+			Walk(v, n.Node)
+		}
 
 	case *Sup:
-		Walk(v, n.Node)
+		if n.Node != nil {
+			Walk(v, n.Node)
+		}
 
 	default:
 		panic(fmt.Errorf("unknown ast node %#v (type=%T)", n, n))
-- 
2.43.0


From d20b932a87f2a61d9c17a699452d2fd8ad601674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:56 +0000
Subject: [PATCH 4/8] fix: latex: limit the nesting level of expressions

A deeply nested expression exhausted the stack of the goroutine, which is a
fatal error: it cannot be recovered from and terminates the whole program.
---
 parser.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/parser.go b/parser.go
index 7cee11f..16f38c1 100644
--- a/parser.go
+++ b/parser.go
@@ -28,10 +28,16 @@ const (
 type parser struct {
 	s     *texScanner
 	state state
+	depth int // current nesting level of nodes.
 
 	macros map[string]macroParser
 }
 
+// maxDepth is the maximum nesting level of nodes.
+// Without a limit, a deeply nested input would exhaust the stack of the
+// goroutine, which is not recoverable and terminates the whole program.
+const maxDepth = 10000
+
 func newParser(x string) *parser {
 	p := &parser{
 		s:     newScanner(strings.NewReader(x)),
@@ -70,6 +76,12 @@ func (p *parser) expect(v rune) {
 }
 
 func (p *parser) parseNode(tok token.Token) ast.Node {
+	p.depth++
+	defer func() { p.depth-- }()
+	if p.depth > maxDepth {
+		panic(fmt.Errorf("expression is nested too deeply (max=%d)", maxDepth))
+	}
+
 	switch tok.Kind {
 	case token.Comment:
 		return nil
-- 
2.43.0


From 1cc24c2d460f1ab2f60be4dcdf50cfe5328999fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:58 +0000
Subject: [PATCH 5/8] fix: latex: do not let the scanner write to os.Stderr

text/scanner reports malformed numbers, strings, NUL characters and invalid
UTF-8 on the standard error of the process when it has no error handler.
---
 scanner.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scanner.go b/scanner.go
index d524ec1..e281292 100644
--- a/scanner.go
+++ b/scanner.go
@@ -27,7 +27,8 @@ func newScanner(r io.Reader) *texScanner {
 	sc.sc.Mode = (scanner.ScanIdents | scanner.ScanInts | scanner.ScanFloats)
 	sc.sc.Mode |= scanner.ScanStrings
 	//scanner.ScanRawStrings)
-	//	sc.sc.Error = func(s *scanner.Scanner, msg string) {}
+	// without an error handler, text/scanner writes to os.Stderr.
+	sc.sc.Error = func(s *scanner.Scanner, msg string) {}
 	sc.sc.IsIdentRune = func(ch rune, i int) bool {
 		return unicode.IsLetter(ch) //|| unicode.IsDigit(ch) && i > 0
 	}
-- 
2.43.0


From 107348b5e2a6b9dc96bc6f521b4a2bb43f2c8eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:08 +0000
Subject: [PATCH 6/8] fix: mtex: do not split the whole expression at each
 binary operator

strings.Split never returns an empty slice for a non-empty separator, so the
condition was never true; evaluating it made typesetting quadratic in the
length of the expression.
---
 mtex/parser.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index fd53aad..c9ccd8d 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -207,8 +207,7 @@ func handleSymbol(p *parser, node ast.Node, state tex.State, math bool) tex.Node
 			prev = string(p.expr[i])
 		}
 		switch {
-		case symbols.BinaryOperators.Has(sym) && (len(strings.Split(p.expr[:pos], " ")) == 0 ||
-			prev == "{" ||
+		case symbols.BinaryOperators.Has(sym) && (prev == "{" ||
 			symbols.LeftDelim.Has(prev)):
 			// binary operators at start of string should not be spaced
 			return ch
-- 
2.43.0


From f1cb1350187ae1e424e25b5d13894126df682652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:05 +0000
Subject: [PATCH 7/8] fix: mtex/symbols: report a failing interpreter or disk
 when generating symbols

---
 mtex/symbols/gen-symbols.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/mtex/symbols/gen-symbols.go b/mtex/symbols/gen-symbols.go
index 64e1544..8759e1e 100644
--- a/mtex/symbols/gen-symbols.go
+++ b/mtex/symbols/gen-symbols.go
@@ -9,6 +9,7 @@
 package main
 
 import (
+	"bufio"
 	"bytes"
 	"encoding/json"
 	"fmt"
@@ -26,7 +27,7 @@ func main() {
 	}
 	defer f.Close()
 
-	gen(f,
+	err = gen(f,
 		sym{"_binary_operators", "BinaryOperators"},
 		sym{"_relation_symbols", "RelationSymbols"},
 		sym{"_arrow_symbols", "ArrowSymbols"},
@@ -40,6 +41,9 @@ func main() {
 		sym{"_left_delim", "LeftDelim"},
 		sym{"_right_delim", "RightDelim"},
 	)
+	if err != nil {
+		log.Fatalf("could not generate symbols file: %+v", err)
+	}
 
 	err = f.Close()
 	if err != nil {
@@ -75,7 +79,8 @@ func gen(o io.Writer, syms ...sym) error {
 		return fmt.Errorf("could not decode output JSON: %+v", err)
 	}
 
-	fmt.Fprintf(o, `// Autogenerated. DO NOT EDIT.
+	w := bufio.NewWriter(o)
+	fmt.Fprintf(w, `// Autogenerated. DO NOT EDIT.
 
 package symbols
 
@@ -92,16 +97,21 @@ var (
 		k := keys[i]
 		v := out[k]
 		if i > 0 {
-			fmt.Fprintf(o, "\n")
+			fmt.Fprintf(w, "\n")
 		}
-		fmt.Fprintf(o, "\t%s = NewSet(\n", k)
+		fmt.Fprintf(w, "\t%s = NewSet(\n", k)
 		for _, sym := range v {
-			fmt.Fprintf(o, "\t\t%q,\n", sym)
+			fmt.Fprintf(w, "\t\t%q,\n", sym)
 		}
-		fmt.Fprintf(o, "\t)\n")
+		fmt.Fprintf(w, "\t)\n")
 	}
 
-	fmt.Fprintf(o, ")\n")
+	fmt.Fprintf(w, ")\n")
+
+	err = w.Flush()
+	if err != nil {
+		return fmt.Errorf("could not write symbols: %+v", err)
+	}
 	return nil
 }
 
-- 
2.43.0


From 33cb81a57644b0fb344eba0b30b11efe60c8d9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:05 +0000
Subject: [PATCH 8/8] fix: internal/fakebackend: report a failing disk when
 generating tables

---
 internal/fakebackend/gen-fakebackend.go | 39 ++++++++++++++++++-------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/internal/fakebackend/gen-fakebackend.go b/internal/fakebackend/gen-fakebackend.go
index f9b6498..8b1c860 100644
--- a/internal/fakebackend/gen-fakebackend.go
+++ b/internal/fakebackend/gen-fakebackend.go
@@ -8,6 +8,7 @@
 package main
 
 import (
+	"bufio"
 	"bytes"
 	"encoding/json"
 	"fmt"
@@ -52,7 +53,8 @@ func genFonts() {
 		log.Fatal(err)
 	}
 
-	fmt.Fprintf(out, `// Autogenerated. DO NOT EDIT.
+	w := bufio.NewWriter(out)
+	fmt.Fprintf(w, `// Autogenerated. DO NOT EDIT.
 
 package fakebackend
 
@@ -64,13 +66,13 @@ func init() {
 
 	for _, v := range db {
 		fmt.Fprintf(
-			out,
+			w,
 			"fontKey{symbol: %q, math: %v, font: font.Font{Name:%q, Size:%v, Type:%q}}:",
 			v.Symbol, v.Math, v.FontName, v.Size, v.FontType,
 		)
 
 		fmt.Fprintf(
-			out,
+			w,
 			"font.Metrics{Advance: %g, Height: %g, Width: %g, XMin: %g, XMax: %g, YMin: %g, YMax: %g, Iceberg: %g, Slanted: %v},\n",
 			v.Metrics.Advance,
 			v.Metrics.Height,
@@ -84,7 +86,12 @@ func init() {
 		)
 	}
 
-	fmt.Fprintf(out, "\t}\n}\n")
+	fmt.Fprintf(w, "\t}\n}\n")
+
+	err = w.Flush()
+	if err != nil {
+		log.Fatal(err)
+	}
 
 	err = out.Close()
 	if err != nil {
@@ -213,7 +220,8 @@ func genXHs() {
 		log.Fatal(err)
 	}
 
-	fmt.Fprintf(out, `// Autogenerated. DO NOT EDIT.
+	w := bufio.NewWriter(out)
+	fmt.Fprintf(w, `// Autogenerated. DO NOT EDIT.
 
 package fakebackend
 
@@ -223,13 +231,18 @@ func init() {
 
 	for _, v := range db {
 		fmt.Fprintf(
-			out,
+			w,
 			"\t\txhKey{%q, %v, %v}: %g,\n",
 			v.FontName, v.Size, v.DPI, v.XHeight,
 		)
 	}
 
-	fmt.Fprintf(out, "\t}\n}\n")
+	fmt.Fprintf(w, "\t}\n}\n")
+
+	err = w.Flush()
+	if err != nil {
+		log.Fatal(err)
+	}
 
 	err = out.Close()
 	if err != nil {
@@ -290,7 +303,8 @@ func genKerns() {
 		log.Fatal(err)
 	}
 
-	fmt.Fprintf(out, `// Autogenerated. DO NOT EDIT.
+	w := bufio.NewWriter(out)
+	fmt.Fprintf(w, `// Autogenerated. DO NOT EDIT.
 
 package fakebackend
 
@@ -302,13 +316,18 @@ func init() {
 
 	for _, v := range db {
 		fmt.Fprintf(
-			out,
+			w,
 			"\t\tkernKey{font: font.Font{Name:%q, Size:%v, Type:%q}, s1: %q, s2: %q}: %g,\n",
 			v.FontName, v.Size, v.FontType, v.Symbol1, v.Symbol2, v.Kern,
 		)
 	}
 
-	fmt.Fprintf(out, "\t}\n}\n")
+	fmt.Fprintf(w, "\t}\n}\n")
+
+	err = w.Flush()
+	if err != nil {
+		log.Fatal(err)
+	}
 
 	err = out.Close()
 	if err != nil {
-- 
2.43.0

