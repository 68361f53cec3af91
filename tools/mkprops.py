#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), na=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, na=na, note=note))

T = "The existing tests are single-threaded, fault-free table tests that make each call once: "

prop("C01", "Concurrent parses do not affect each other",
 "Any number of goroutines may parse expressions into syntax trees, and print and walk the trees they got, at the same time. Each call does exactly what it does when made alone: the same tree or the same error, whatever the others parse and however they are interleaved, and without data races.",
 ["schedules", "inputs"], "every interleaving of any number of callers at statement granularity, for every mix of accepted and rejected expressions",
 T + "no interleaving of two parses is ever run.",
 ["latex.go", "parser.go", "scanner.go", "macros.go", "ast/ast.go", "ast/walk.go", "token/token.go"],
 [("a parser and a scanner per call, no state shared between calls", "latex.go ParseExpr, parser.go newParser"), ("macro table built per parser", "parser.go addBuiltinMacros, macros.go")],
 [("parser.state / parser.s", "mode and input position of one parse", "parser.go"), ("macro table", "what every macro takes", "parser.go, macros.go")],
 ["latex.ParseExpr", "ast.Print", "ast.Walk"])
prop("C02", "Concurrent typesetting and rendering do not affect each other",
 "Any number of goroutines may typeset, ship and render expressions at the same time, with the same or different font collections. Each call yields exactly the box dimensions, drawing operations and PNG bytes - or the error - it yields when made alone, and no data race occurs.",
 ["schedules", "inputs", "configurations"], "every interleaving of concurrent callers at statement granularity and at their own renderers, writers and backends, over expressions, sizes, resolutions and font collections (default, Latin Modern, Liberation)",
 T + "nothing renders two expressions at once, and golden images come from isolated calls.",
 ["mtex/parser.go", "mtex/render.go", "mtex/macros.go", "mtex/symbols", "tex/box.go", "tex/state.go", "font/ttf/ttf.go", "drawtex/canvas.go", "drawtex/drawimg/drawimg.go"],
 [("backend, canvas, parser and Ship per call", "mtex/render.go Render"), ("symbol and glue tables only read after initialisation", "mtex/symbols, tex/box.go"), ("parsed fonts only read, scratch buffer per query", "font/ttf/ttf.go getInfo")],
 [("glyph cache", "metrics of glyphs a backend has been asked for", "font/ttf/ttf.go Backend.glyphs"), ("ship registers", "current position and nesting depth", "tex/box.go Ship")],
 ["mtex.Parse", "mtex.Render", "tex.Ship.Call", "drawimg.Renderer.Render"])
prop("C03", "Font collections load once, completely, for concurrent first users",
 "The Latin Modern and Liberation collections may be requested by many goroutines at the same time, the very first request included. Every caller gets a collection with all faces loaded, each of the right style, all callers get the same faces, and no data race occurs.",
 ["schedules"], "every interleaving of concurrent first and later requests in a fresh process, including a caller preempted in the middle of loading",
 T + "the collections are requested once, by one goroutine.",
 ["font/lm/lm.go", "font/liberation/liberation.go"],
 [("sync.Once around loading", "font/lm/lm.go Fonts, font/liberation/liberation.go Fonts")],
 [("package-level collection", "parsed faces shared by all callers", "font/lm/lm.go fnts, font/liberation/liberation.go fnts")],
 ["lm.Fonts", "liberation.Fonts"])
prop("C04", "Finished results can be read by many goroutines at once",
 "A finished syntax tree, typeset box, drawing and the symbol tables may be read by any number of goroutines at the same time: printed, walked, measured, drawn to PNG. Every reader sees the complete unmodified object, reading never modifies it, and no data race occurs.",
 ["schedules", "inputs"], "every interleaving of concurrent readers (print, walk, inspect, positions, dimensions, drawing operations, PNG) of one object, for every object",
 T + "results are read once, by the goroutine that made them.",
 ["ast/ast.go", "ast/walk.go", "drawtex/canvas.go", "drawtex/drawimg/drawimg.go", "tex/box.go", "mtex/symbols", "internal/tex2unicode"],
 [("readers have no side effects on nodes, ops and tables", "ast.Print, ast.Walk, Canvas.Ops, drawimg Render, symbols.Set.Has"), ("a face per drawn glyph", "drawtex/drawimg/drawimg.go drawGlyph")],
 [("syntax tree, box tree, canvas operations, symbol sets", "the shared results", "ast, tex, drawtex, mtex/symbols")],
 ["ast.Print", "ast.Walk", "ast.Inspect", "drawtex.Canvas.Ops", "drawimg.Renderer.Render", "symbols", "tex2unicode"])
prop("C05", "No call influences a later call, however it ended",
 "What a call does depends on its arguments only: after any history of earlier calls in the same process - accepted, rejected, panicked, or cut short inside the caller's own writer, renderer, visitor, backend or font storage - it does exactly what it does as the first call of a fresh process.",
 ["histories", "fault_sequences", "inputs"], "every sequence of calls, each of which may be interrupted by an error, a panic or a thread exit at any point where the library calls back or reads or writes",
 T + "histories are whatever the fixed test order happens to be, and no call of it is interrupted.",
 ["latex.go", "parser.go", "scanner.go", "mtex/parser.go", "mtex/render.go", "mtex/macros.go", "tex/box.go", "tex/state.go", "font/ttf/ttf.go", "mtex/symbols", "drawtex/drawimg/drawimg.go"],
 [("all working state lives in objects made by the call", "ParseExpr, mtex.Parse, mtex.Render, drawimg Render"), ("package-level tables are never written after initialisation", "mtex/macros.go, mtex/symbols, tex/box.go, internal/tex2unicode")],
 [("package-level variables", "macro, symbol and glue tables, default fonts", "mtex, mtex/symbols, tex, font/ttf, internal/tex2unicode")],
 ["latex.ParseExpr", "ast.Print", "ast.Walk", "mtex.Parse", "mtex.Render", "tex.Ship.Call", "drawimg.Renderer.Render"])
prop("C06", "Results belong to the caller: later calls neither change nor see them",
 "A syntax tree, box, drawing or table listing that was returned stays exactly as it was while further calls are made, by anyone. Conversely a caller who overwrites a result it was given never affects what any later call returns.",
 ["histories", "schedules", "inputs"], "every history of further calls, concurrent or not, after each result, with callers that keep results and callers that overwrite them",
 T + "a result is compared right after it was made and then dropped.",
 ["parser.go", "ast/ast.go", "mtex/parser.go", "mtex/macros.go", "tex/box.go", "drawtex/canvas.go", "mtex/symbols/symbols.go", "internal/tex2unicode/utf8.go"],
 [("nodes, boxes and operations are allocated per call", "parser.go, mtex/parser.go, tex/box.go"), ("listings are built per call", "symbols.Set.Keys, symbols.UnionOf, tex2unicode.Symbols")],
 [("returned objects", "trees, boxes, canvases, key lists", "ast, tex, drawtex, mtex/symbols, internal/tex2unicode")],
 ["latex.ParseExpr", "mtex.Parse", "mtex.Render", "symbols.Set.Keys", "symbols.UnionOf", "tex2unicode.Symbols"])
prop("C07", "Same call, same result: nothing ambient leaks into the output",
 "Trees, boxes, drawings, PNG images, errors and panics - and PDF files apart from their dates - depend on the arguments alone. Map iteration order, eviction of pooled objects, how the input is fragmented into reads, the clock, the time zone, random numbers, the environment, the number of processors and the order of process start-up make no difference.",
 ["configurations", "inputs", "schedules"], "every iteration order of every map in the library (package initialisation included), every pool eviction, read fragmentation, clock, speed of the machine, number of processors, environment, process identity and sequence of random numbers",
 T + "a test run sees the one map order and clock it happens to get.",
 ["mtex/parser.go", "mtex/macros.go", "mtex/symbols/symbols.go", "mtex/symbols/gen-symbols.go", "internal/tex2unicode/utf8.go", "parser.go", "scanner.go", "tex/box.go", "font/ttf/ttf.go", "drawtex/drawpdf/drawpdf.go"],
 [("tables are looked up by key, listings sorted", "mtex/symbols/set.go Keys, mtex/parser.go init"), ("the scanner reads through a buffering scanner", "scanner.go")],
 [("macro, symbol and glyph maps", "lookup tables", "mtex, mtex/symbols, internal/tex2unicode, font/ttf")],
 ["latex.ParseExpr", "mtex.Parse", "mtex.Render", "drawimg", "drawpdf"])
prop("C08", "A font backend's answers do not depend on what it was asked before",
 "Metrics, kerning, x-height, line thickness and drawn glyphs a font backend reports are those a new backend reports for the same question, whatever it was asked before and however often. If reading the font fails during a question, that question fails loudly and the failure is not remembered: the next question is answered as if it had not happened.",
 ["histories", "fault_sequences", "inputs", "configurations"], "every sequence of questions over symbols, styles, names, sizes, resolutions and math/text mode, with the font's storage failing at any read",
 T + "each test asks a new backend one kind of question, in math mode only, and fonts are in memory, where reads cannot fail.",
 ["font/ttf/ttf.go", "font/font.go"],
 [("cache keyed by all of the question", "font/ttf/ttf.go ttfKey, getInfo"), ("entries are stored only after every read succeeded", "font/ttf/ttf.go getInfo"), ("errors of the font are panics", "font/ttf/ttf.go getInfo, Kern, XHeight")],
 [("glyph cache", "answers given so far", "font/ttf/ttf.go Backend.glyphs")],
 ["ttf.Backend.Metrics", "ttf.Backend.Kern", "ttf.Backend.RenderGlyph", "ttf.Backend.XHeight", "ttf.Backend.UnderlineThickness"])
prop("C09", "PNG output: success if and only if the whole image was delivered",
 "Rendering to PNG reports success if and only if the writer accepted every byte of the image, and the reported error carries the writer's own. Whatever the writer accepted before it failed is the beginning of that image, the writer is never called after the call returned, and the same renderer can be used again afterwards.",
 ["fault_sequences", "inputs"], "every writer that fails, accepts only part, is full, panics or exits at any write, once or for good, for every drawing",
 T + "tests write to a bytes.Buffer, which cannot fail.",
 ["drawtex/drawimg/drawimg.go", "mtex/render.go"],
 [("the encoder's error is returned", "drawtex/drawimg/drawimg.go Render"), ("wrapped with %w", "mtex/render.go Render"), ("nothing is kept between calls", "drawtex/drawimg/drawimg.go Renderer")],
 [("Renderer.w", "the caller's writer", "drawtex/drawimg/drawimg.go")],
 ["mtex.Render", "drawimg.Renderer.Render", "io.Writer supplied by the caller"])
prop("C10", "A renderer is called exactly once with the whole drawing, or not at all",
 "Rendering an expression calls the given renderer exactly once, with the complete drawing, if the expression is accepted, and never if it is rejected. An error the renderer returns can be found in the reported one, a panic or thread exit of the renderer passes through, the renderer may itself render other expressions, and the same call made again behaves the same.",
 ["fault_sequences", "inputs", "histories"], "every expression and every renderer that fails, panics, exits, or renders recursively",
 T + "the only renderer tests use succeeds.",
 ["mtex/render.go", "mtex/parser.go", "tex/box.go"],
 [("parse, then ship, then one call of the renderer, errors wrapped with %w", "mtex/render.go Render")],
 [("canvas", "the drawing given to the renderer", "mtex/render.go")],
 ["mtex.Renderer supplied by the caller", "mtex.Render"])
prop("C11", "PDF export: success if and only if the whole document is in the file",
 "Exporting a drawing to a PDF file reports success only if the complete document is in the file. If creating, writing or closing the file fails, an error carrying the cause is reported, and when nothing fails none is.",
 ["fault_sequences", "inputs"], "every disk fault (open, short or failed write, full disk, quota, buffered data lost at close) at every disk operation, over new and existing files, at any clock",
 "No test writes a PDF at all, and real disks do not fail on request.",
 ["drawtex/drawpdf/drawpdf.go"],
 [("the error of the PDF writer is returned", "drawtex/drawpdf/drawpdf.go Write")],
 [("output file", "the exported document", "drawtex/drawpdf/drawpdf.go Write")],
 ["drawpdf.Write", "the file"])
prop("C12", "mtex-render exits with status 0 only if the image is in the file",
 "The rendering command exits with status 0 only if the named file holds the complete PNG image of the expression at the requested size and resolution. When a disk operation fails, the disk is full or the expression is rejected, it says so and exits with another status; killed at any point and run again, it produces the image as if it had never run.",
 ["fault_sequences", "crash_points", "inputs", "configurations"], "every disk fault at every disk operation, every kill point, new and existing output files, accepted and rejected command lines",
 "No test runs the command, let alone on a failing disk.",
 ["cmd/mtex-render/main.go", "mtex/render.go", "drawtex/drawimg/drawimg.go"],
 [("create, render, close, each checked, log.Fatalf otherwise", "cmd/mtex-render/main.go main")],
 [("output file", "the image", "cmd/mtex-render/main.go")],
 ["exit status", "standard error", "the output file"])
prop("C13", "Shipping a typeset box can be repeated, also after an interruption",
 "Shipping the same box again, with the same or a new shipper and at any place, draws the same operations. This holds also when the previous shipping was cut short by a panic of the caller's backend, at any operation; what had been drawn until then is the beginning of the complete drawing.",
 ["fault_sequences", "histories", "inputs"], "every box, every operation at which the backend panics, same or new shipper",
 T + "a box is shipped once and the backend never fails.",
 ["tex/box.go"],
 [("all registers are reset at the start of a shipment", "tex/box.go Ship.Call"), ("what shipping sets in a box (the resolved width of nested boxes) is the same every time", "tex/box.go hlistOut, vlistOut")],
 [("Ship registers", "position, offset and nesting depth", "tex/box.go Ship")],
 ["tex.Ship.Call", "font.Backend supplied by the caller"])
prop("C14", "Every input comes to an end in bounded work",
 "Parsing and typesetting come back - with a result, an error or a panic - for any input whatever: cut off anywhere, with bytes lost, flipped, duplicated or inserted, nested far deeper than anyone writes, and however it is fragmented into reads. The work is bounded by the length of the input times how deep it is nested, and no input overflows the stack, which would end the process.",
 ["inputs", "fault_sequences"], "every truncation, corruption, repetition and fragmentation of every input",
 T + "inputs are complete, well-formed expressions; tests cannot show that no input hangs.",
 ["scanner.go", "parser.go", "macros.go", "mtex/parser.go"],
 [("every loop of the parser consumes a token or ends at end of input", "parser.go"), ("nesting is limited", "parser.go parseNode, maxDepth"), ("scanner returns EOF for good", "scanner.go Next, scan")],
 [("input position", "what is left to read", "scanner.go")],
 ["latex.ParseExpr", "mtex.Parse", "mtex.Render"])
prop("C15", "Walking a tree follows the visitor protocol, also when cut short",
 "Walk and Inspect visit every node of a parsed tree once, parents before children in source order, skip the children of a node the visitor declines, never visit a nil node, and report the end of each node's children exactly once after them. A visitor that panics, exits or starts another traversal sees exactly the visits up to that point and disturbs neither the tree nor any other traversal.",
 ["fault_sequences", "inputs", "histories", "schedules"], "every parsed tree, every node at which the visitor declines, panics, exits or starts a nested traversal",
 T + "one test inspects a few trees with a visitor that always goes on.",
 ["ast/walk.go", "ast/ast.go"],
 [("recursive descent over the children, then Visit(nil)", "ast/walk.go Walk"), ("Inspect wraps a function as a visitor", "ast/walk.go Inspect")],
 [("syntax tree", "what is traversed", "ast/ast.go")],
 ["ast.Walk", "ast.Inspect", "ast.Visitor supplied by the caller"])
prop("C16", "Printing a tree to a failing writer is harmless",
 "Printing a tree to a writer that fails, is full, panics or exits at any write never panics by itself, never hangs, writes nothing but the beginning of the tree's text before the failure, and leaves the tree untouched: printed again to a healthy writer, it gives the same text.",
 ["fault_sequences", "inputs"], "every tree and every write at which the writer starts to fail",
 T + "tests print to a strings.Builder, which cannot fail.",
 ["ast/ast.go"],
 [("printing only reads the tree and writes in order", "ast/ast.go Print")],
 [("syntax tree", "what is printed", "ast/ast.go")],
 ["ast.Print", "io.Writer supplied by the caller"])
prop("C17", "A font that cannot be read never yields a silently incomplete drawing",
 "When the storage behind a font fails at any read while an expression is typeset, rendered or drawn to an image, the call fails - with an error or a panic - or its result is exactly that of healthy storage. Once the storage works again, the same call gives the complete result.",
 ["fault_sequences", "inputs"], "every read of the font's storage at which it fails, once or for good, for every expression",
 T + "fonts are always in memory, where reads cannot fail.",
 ["font/ttf/ttf.go", "drawtex/drawimg/drawimg.go", "mtex/render.go"],
 [("font errors are panics while typesetting", "font/ttf/ttf.go getInfo, Kern"), ("glyphs that cannot be loaded are reported while drawing", "drawtex/drawimg/drawimg.go drawGlyph")],
 [("font storage", "io.ReaderAt behind the faces of a collection", "ttf.Fonts supplied by the caller")],
 ["mtex.Render", "drawimg.Renderer.Render", "tex.Ship.Call"])
prop("C18", "A caller busy in its own code never blocks the others",
 "While one caller is held up inside its own writer, renderer, backend, font files or visitor, for however long, every other caller's calls finish, with their usual results. Calling the library from inside such a callback always comes back, with the result the call has on its own.",
 ["schedules", "fault_sequences", "histories"], "every callback in which a caller stalls or re-enters the library, and every interleaving of the other callers",
 T + "no callback of a test waits or calls back, and nothing runs beside it.",
 ["mtex/render.go", "mtex/parser.go", "tex/box.go", "font/lm/lm.go", "font/liberation/liberation.go", "drawtex/drawimg/drawimg.go", "ast/walk.go", "ast/ast.go"],
 [("no lock is held while the caller's code runs", "whole library: the only lock is the sync.Once of the font collections"),],
 [("locks", "anything one caller could hold while in its own code", "font/lm, font/liberation")],
 ["all entry points that call back"])

prop("C19", "The library keeps to itself: no output, no files, no change to the process",
 "A call talks to the world only through what the caller gave it. Whatever the input and however the call ends, parsing, printing, walking, typesetting and rendering write nothing to standard output or standard error and log nothing, leave the logger, environment, working directory, shared random numbers and other settings of the process and of the calling goroutine alone, make no file but the one they were told to make, and never end the process. (Messages PDF export and packing of overfull boxes send to the standard logger are outside this.)",
 ["inputs", "fault_sequences", "histories"], "every call on accepted, rejected and damaged input, undisturbed or cut short by a failing or panicking callback or a failing disk",
 T + "nothing looks at what a call does to the process around it.",
 ["latex.go", "parser.go", "scanner.go", "ast/ast.go", "ast/walk.go", "mtex/parser.go", "mtex/render.go", "tex/box.go", "font/ttf/ttf.go", "drawtex/drawimg/drawimg.go", "drawtex/drawpdf/drawpdf.go"],
 [("the scanner's error handler is silent", "scanner.go newScanner"), ("errors are returned or panicked with, not printed", "whole library")],
 [("standard streams, logger, environment, disk", "what belongs to the process", "outside the library")],
 ["os.Stdout, os.Stderr", "package log", "the file system", "process settings"])
prop("C20", "Calls leave nothing behind: repeating them costs no more and keeps no more",
 "The same calls may be repeated any number of times in one process, also when they are rejected, fail or panic in the caller's code each time: once their results are dropped, no goroutine stays, no file stays open, no memory stays in use on their account, and a repetition takes as much work as the ones before it.",
 ["histories", "fault_sequences", "inputs"], "every sequence of calls, ended in whatever way, repeated without bound",
 T + "each call is made once or twice; what it leaves behind is never measured.",
 ["latex.go", "parser.go", "mtex/parser.go", "mtex/render.go", "tex/box.go", "tex/state.go", "font/ttf/ttf.go", "font/lm/lm.go", "font/liberation/liberation.go", "drawtex/canvas.go", "drawtex/drawimg/drawimg.go", "drawtex/drawpdf/drawpdf.go"],
 [("backend, canvas, parser and Ship per call, dropped with it", "mtex/render.go Render"), ("glyph cache lives and dies with its backend", "font/ttf/ttf.go Backend.glyphs"), ("PDF output file is closed", "drawtex/drawpdf/drawpdf.go Write")],
 [("package-level tables, glyph caches, open files, goroutines", "what could outlive a call", "mtex, font/ttf, drawtex")],
 ["live goroutines", "open files", "live heap objects and bytes", "statements executed"])

prop("C21", "Generated tables are exactly what was reported, or the generator fails",
 "The programs behind go generate - for the symbol sets and for the tables of the reference backend - exit with status 0 only if every file they make is complete and holds exactly what the interpreter reported in this run. When the interpreter is missing, fails, is killed or reports only a part, when a disk operation fails or the disk is full, they say so and exit with another status. Killed at any point and run again, they make the files as if they had never run, and map iteration order makes no difference to what is in them.",
 ["fault_sequences", "crash_points", "inputs", "configurations"], "every way the interpreter can fail at every use, every disk fault at every disk operation, every kill point, old and new files, whatever symbols, numbers and texts are reported",
 "No test runs the generators; their output is committed and only its use is tested.",
 ["mtex/symbols/gen-symbols.go", "internal/fakebackend/gen-fakebackend.go"],
 [("run the interpreter, decode its report, write it through a buffer, flush, close, each checked", "mtex/symbols/gen-symbols.go main, gen; internal/fakebackend/gen-fakebackend.go genFonts, genXHs, genKerns"), ("sets are written in sorted order", "mtex/symbols/gen-symbols.go gen")],
 [("generated files", "symbol sets, metrics, x-heights and kerns", "mtex/symbols/symbols_gen.go, internal/fakebackend/*_gen.go")],
 ["exit status", "standard error", "the generated files"])
prop("C22", "The test driver succeeds only if every package's tests succeeded",
 "ci/run-tests exits with status 0 only if the packages could be listed, the tests of every listed package (but vendored ones) ran with the flags that were asked for and succeeded, and, where coverage is asked for, coverage.txt holds the profile of each package exactly once. When the go command is missing, fails or is killed, when tests fail or a disk operation does, it says so and exits with another status. Run again after that, it works as if it had never run.",
 ["fault_sequences", "crash_points", "configurations"], "every set of packages and of failing ones, every way the go command can fail at every use, every disk fault at every disk operation, every kill point",
 "No test runs the driver; it runs the tests.",
 ["ci/run-tests.go"],
 [("each command and disk operation is checked, log.Fatal otherwise", "ci/run-tests.go main, pkgList")],
 [("coverage.txt, profile.out", "profiles collected so far, and of the last package", "ci/run-tests.go main")],
 ["exit status", "standard error", "coverage.txt"])
prop("C23", "A canvas, backend and shipper serve one drawing after another",
 "One canvas, font backend and shipper may be used for any sequence of expressions, in whatever sizes and resolutions, some of them rejected, some cut short by failing font storage or by a panic in the caller's own backend. Each expression adds to the canvas exactly the drawing operations it yields with a new canvas, backend and shipper, after those already there; one that was cut short adds the beginning of them. What is on the canvas, and what it returned before, stays as it was, and its image depends on that alone. (Symbols that text and math show as different glyphs, used in both in the same font and size, are outside this.)",
 ["histories", "fault_sequences", "inputs", "configurations"], "every sequence of expressions, sizes, resolutions and shippers on one canvas, each interrupted at any call of the backend or any read of the font's storage",
 T + "every test draws one expression on a new canvas.",
 ["drawtex/canvas.go", "font/ttf/ttf.go", "tex/box.go", "mtex/parser.go", "drawtex/drawimg/drawimg.go"],
 [("operations are appended, never rewritten", "drawtex/canvas.go RenderGlyph, RenderRectFilled"), ("registers are reset by each shipment", "tex/box.go Ship.Call"), ("the glyph cache is keyed by all of the question", "font/ttf/ttf.go getInfo")],
 [("canvas operations", "what has been drawn so far", "drawtex/canvas.go Canvas.ops"), ("glyph cache, ship registers", "what is left of earlier drawings", "font/ttf/ttf.go, tex/box.go")],
 ["mtex.Parse", "tex.Ship.Call", "drawtex.Canvas.Ops", "drawimg.Renderer.Render"])

PURE = "a pure function of one argument, evaluated in one call: no schedule, clock, I/O, crash or history can change it, so simulated faults add nothing to plain input tests"
def na(id, title, statement, text, why, files, mech, reason=PURE):
    prop(id, title, statement, ["inputs"], text, why, files, mech, na=reason)
N = "The tests sample a handful of inputs. "
na("N01", "Token and node positions lie inside the source and nest",
 "Every token and node reports a position inside the source text, children lie within their parents, and siblings come in source order.",
 "every accepted expression", N + "Few positions are compared.", ["scanner.go", "parser.go", "ast/ast.go", "token/token.go"], [("positions recorded while scanning", "scanner.go")])
na("N02", "Scanning loses nothing",
 "The texts of the tokens of an expression, in order, make up the expression.",
 "every input", N, ["scanner.go"], [("rune-wise scanning", "scanner.go")])
na("N03", "Malformed expressions are reported as errors, not panics",
 "Parsing any byte sequence returns a tree or an error.",
 "every input", N + "Malformed input is hardly tested; many kinds do panic at this commit.", ["latex.go", "parser.go", "macros.go", "mtex/parser.go"], [("panics inside the parser", "parser.go")])
na("N04", "Packing laws of horizontal and vertical boxes",
 "A packed box is as wide (or high) as the sum of its parts plus glue, and as high and deep (or wide) as the extreme of them; a requested size is met by stretching or shrinking glue.",
 "every list of boxes, kerns and glue", N, ["tex/box.go"], [("HPack, VPack", "tex/box.go")])
na("N05", "Drawn glyphs lie within their box",
 "Every glyph and rule a box draws lies within the dimensions it reports.",
 "every expression", N + "Golden images of a few expressions.", ["tex/box.go", "mtex/parser.go"], [("Ship", "tex/box.go")])
na("N06", "Shrinking and growing scale a node and all it contains",
 "Shrinking (growing) a node multiplies its dimensions and those of its parts by the shrink (grow) factor, up to the number of levels.",
 "every node", N, ["tex/box.go"], [("Shrink, Grow", "tex/box.go")])
na("N07", "Every symbol in the tables can be typeset",
 "Every macro the typesetter accepts as a symbol maps to a code point and has metrics in some face.",
 "every entry of the symbol tables", N, ["internal/tex2unicode", "mtex/symbols"], [("tables", "internal/tex2unicode")])
na("N08", "Images have the requested size and resolution",
 "A PNG has the pixel dimensions of the drawing at the requested resolution, and scaling the font size scales the drawing.",
 "every expression, size and resolution", N, ["mtex/render.go", "drawtex/drawimg/drawimg.go"], [("Render", "drawtex/drawimg/drawimg.go")])
na("N09", "PDF export shows the same drawing as PNG export",
 "The PDF of a drawing contains each of its glyphs and rules at its place.",
 "every drawing", "No test writes a PDF; at this commit glyphs and rules are not drawn at all.", ["drawtex/drawpdf/drawpdf.go"], [("Write", "drawtex/drawpdf/drawpdf.go")])
na("N10", "Static metrics of the reference backend agree with the font files",
 "The recorded metrics of the reference backend are those of the font files it was generated from.",
 "every recorded glyph", N, ["internal/fakebackend"], [("generated tables", "internal/fakebackend")])

NOTE = {
 "C01": "Seeded search over interleavings at statement granularity of an instrumented copy of the working tree, reference = the same call alone; a share of the runs under the race detector with the simulator's own synchronisation hidden from it. Preemption inside a single statement and inside third-party packages is not simulated.",
}
DEFAULT = "Sampling, not proof: seeded search over the executions described in DESIGN.md; every violation replays exactly. Trusts the instrumenter, the simulated runtime (sync, channels, maps, clock, os) and that the same call alone in a fresh process is a correct reference."
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                "mechanism": [dict(name=a, where=b) for a, b in p["mech"]],
                "observe_at": list(p["observe"]), "hook_needed": None}}, ensure_ascii=False) + "\n")
        for x in p["files"]:
            assert os.path.exists("/repo/" + x), (p["id"], x)
m = {"version": 1, "setup_cmd": "./setup.sh",
 "checks": [{"property": p["id"], "quick_cmd": "./run.sh " + p["id"],
   "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + p["id"],
   "evidence_file": "evidence/%s.json" % p["id"],
   "technique": "deterministic simulation with fault injection (seeded search over schedules and faults)",
   "level": "exploration", "level_note": NOTE.get(p["id"], p["note"] or DEFAULT)} for p in P if not p["na"]],
 "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
 "notes": "No hooks are committed to /repo: every check instruments a copy of the working tree (go build -overlay). See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
