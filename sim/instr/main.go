// Command instr rewrites the Go sources of the module under test so that the
// simulator in ../vsim owns every source of nondeterminism they touch.  It
// never modifies the module: it writes rewritten copies to a scratch directory
// and an overlay file for "go build -overlay".
//
// Rewrites (all driven by syntax and types, none by names in the module):
//
//   - a scheduling point before every statement;
//   - package-level state can be reset (a simulated process restart);
//   - range over a map -> iteration in an order the simulator chooses;
//   - go f(x)          -> a simulated task;
//   - import "sync"    -> ../vsim/simsync (same API, simulated blocking);
//   - import "hash/maphash" -> ../vsim/simmaphash (seeds drawn by the simulation);
//   - import "os/signal" -> ../vsim/simsignal (signals the simulation sends);
//   - import "os/exec" -> ../vsim/simexec (commands answered by the simulation);
//   - os file calls    -> ../vsim/simos (simulated disk);
//   - time.Now & co    -> simulated clock;
//   - channel operations -> simulated blocking;
//   - os.Exit, log.Fatal* -> end of the simulated process;
//   - strings.NewReader passed as an io.Reader -> reader with simulated short
//     reads.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"log"
	"maps"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sort"
	"strings"
)

const (
	rtPath   = "github.com/go-latex/latex/vsim"
	syncPath = "github.com/go-latex/latex/vsim/simsync"
	osPath   = "github.com/go-latex/latex/vsim/simos"
	ioPath   = "github.com/go-latex/latex/vsim/simio"
	sigPath  = "github.com/go-latex/latex/vsim/simsignal"
	hashPath = "github.com/go-latex/latex/vsim/simmaphash"
	execPath = "github.com/go-latex/latex/vsim/simexec"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Standard   bool
	DepOnly    bool
	Module     *struct {
		Path      string
		Main      bool
		GoVersion string
		Dir       string
	}
	Error *struct{ Err string }
}

type site struct {
	ID   int    `json:"id"`
	Pos  string `json:"pos"`
	Func string `json:"func"`
	Pkg  string `json:"pkg"`
	Glob bool   `json:"glob,omitempty"` // the statement uses a package-level variable
}

type edit struct {
	off, end int // replace [off,end) with text
	text     string
	seq      int
}

type fileInst struct {
	pkg   *pkgInst
	name  string
	src   []byte
	f     *ast.File
	tf    *token.File
	edits []edit
	tail  bytes.Buffer
	keep  map[string]string // what keeps an import used
}

type pkgInst struct {
	lp    *listPkg
	fset  *token.FileSet
	files []*fileInst
	info  *types.Info
	tpkg  *types.Package
	nInit int
}

var (
	sites  []site
	noOS   = flag.Bool("no-os", false, "leave os calls alone")
	asLib  string // directory a main package is moved to, as a library
	noRead = flag.Bool("no-reader", false, "leave strings.NewReader alone")
)

func main() {
	log.SetFlags(0)
	log.SetPrefix("instr: ")
	var (
		repo    = flag.String("repo", "/repo", "module under test")
		out     = flag.String("out", "", "scratch directory")
		rt      = flag.String("rt", "", "directory of the vsim runtime sources")
		harness = flag.String("harness", "", "directory of the harness sources")
		pats    = flag.String("pkgs", "./...", "space separated package patterns to instrument")
		cli     = flag.Bool("cli", false, "make the command importable as vsim/cli")
		mains   = flag.Bool("mains", false, "make the generators and the test driver importable, as vsim/gensyms, vsim/genfake and vsim/runtests")
		fpdf    = flag.Bool("fpdf", true, "also put the file creation and clock of fpdf behind the simulator")
	)
	flag.Parse()

	pkgs := goList(*repo, strings.Fields(*pats))
	exports := map[string]string{}
	for _, p := range pkgs {
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
	}
	overlay := map[string]string{}
	var list []string
	for _, p := range pkgs {
		switch {
		case p.Module != nil && p.Module.Main:
			if len(p.CgoFiles) > 0 || strings.HasPrefix(p.ImportPath, rtPath) {
				continue
			}
			if strings.HasSuffix(p.ImportPath, "/internal/fakebackend") {
				continue // test-only tables
			}
			if p.Name == "main" {
				if !*cli || !strings.HasSuffix(p.ImportPath, "/cmd/mtex-render") {
					continue
				}
				asLib = filepath.Join(*repo, "vsim", "cli")
			}
			instrument(p, exports, *out, overlay)
			asLib = ""
			list = append(list, p.ImportPath)
		case p.ImportPath == "github.com/go-pdf/fpdf" && *fpdf:
			patchFpdf(p, *out, overlay)
		}
	}

	if *mains {
		for _, m := range []struct{ name, dir string }{
			{"gensyms", "mtex/symbols"},
			{"genfake", "internal/fakebackend"},
			{"runtests", "ci"},
		} {
			for _, p := range goList(*repo, programIn(*repo, m.dir)) {
				if p.Export != "" {
					exports[p.ImportPath] = p.Export
				}
				if p.ImportPath != "command-line-arguments" {
					continue
				}
				p.ImportPath = rtPath + "/" + m.name
				asLib = filepath.Join(*repo, "vsim", m.name)
				instrument(p, exports, *out, overlay)
				asLib = ""
				list = append(list, p.ImportPath)
			}
		}
	}

	// runtime and harness live in virtual directories of the module.
	addDir(overlay, *rt, filepath.Join(*repo, "vsim"))
	if *harness != "" {
		addDir(overlay, *harness, filepath.Join(*repo, "vsim", "harness"))
	}

	raw, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), raw, 0o644))
	raw, _ = json.Marshal(map[string]interface{}{"sites": sites, "packages": list})
	must(os.WriteFile(filepath.Join(*out, "sites.json"), raw, 0o644))
	fmt.Printf("instrumented %d packages, %d scheduling points\n", len(list), len(sites))
}

func must(err error) {
	if err != nil {
		log.Fatal(err)
	}
}

// programIn returns the files of the program in a directory that is not part
// of the module's packages: what its "go:generate go run" line names, or else
// the files of package main the build leaves out.
func programIn(repo, dir string) []string {
	names, err := filepath.Glob(filepath.Join(repo, dir, "*.go"))
	must(err)
	var mains, run []string
	for _, name := range names {
		if strings.HasSuffix(name, "_test.go") {
			continue
		}
		src, err := os.ReadFile(name)
		must(err)
		for _, line := range strings.Split(string(src), "\n") {
			if !strings.HasPrefix(line, "//go:generate go run ") {
				continue
			}
			for _, arg := range strings.Fields(line)[3:] {
				if strings.HasSuffix(arg, ".go") {
					run = append(run, filepath.Join(repo, dir, arg))
				}
			}
		}
		f, err := parser.ParseFile(token.NewFileSet(), name, src, parser.PackageClauseOnly)
		must(err)
		if f.Name.Name == "main" {
			mains = append(mains, name)
		}
	}
	if len(run) > 0 {
		return run
	}
	if len(mains) == 0 {
		log.Fatalf("no program in %s", dir)
	}
	return mains
}

func addDir(overlay map[string]string, from, to string) {
	must(filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, err := filepath.Rel(from, p)
		if err != nil {
			return err
		}
		abs, err := filepath.Abs(p)
		if err != nil {
			return err
		}
		overlay[filepath.Join(to, rel)] = abs
		return nil
	}))
}

func goList(dir string, pats []string) []*listPkg {
	args := append([]string{"list", "-e", "-deps", "-export", "-json=ImportPath,Dir,Name,GoFiles,CgoFiles,Export,Standard,DepOnly,Module,Error"}, pats...)
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	raw, err := cmd.Output()
	if err != nil {
		log.Fatalf("go list: %v", err)
	}
	var pkgs []*listPkg
	dec := json.NewDecoder(bytes.NewReader(raw))
	for {
		p := new(listPkg)
		err := dec.Decode(p)
		if err == io.EOF {
			break
		}
		must(err)
		if p.Error != nil && p.Module != nil && p.Module.Main {
			log.Fatalf("%s: %s", p.ImportPath, p.Error.Err)
		}
		pkgs = append(pkgs, p)
	}
	return pkgs
}

// patchFpdf puts the two places where the PDF writer meets the outside world
// behind variables the harness sets.  No imports are added: dependency modules
// are indexed by the go command.
func patchFpdf(p *listPkg, out string, overlay map[string]string) {
	name := filepath.Join(p.Dir, "fpdf.go")
	raw, err := os.ReadFile(name)
	must(err)
	src := string(raw)
	const a = "pdfFile, err := os.Create(fileStr)"
	const b = "return time.Now()"
	if strings.Count(src, a) != 1 || strings.Count(src, b) != 1 {
		log.Fatalf("fpdf: unexpected source (create=%d now=%d)", strings.Count(src, a), strings.Count(src, b))
	}
	src = strings.Replace(src, a, "pdfFile, err := VsimCreate(fileStr)", 1)
	src = strings.Replace(src, b, "return VsimNow()", 1)
	src += `
// VsimFile, VsimCreate and VsimNow are simulation seams.
type VsimFile interface {
	Write(p []byte) (int, error)
	Close() error
}

var VsimCreate = func(name string) (VsimFile, error) { return os.Create(name) }

var VsimNow = func() time.Time { return time.Now() }
`
	dst := filepath.Join(out, "src", "fpdf", "fpdf.go")
	must(os.MkdirAll(filepath.Dir(dst), 0o755))
	must(os.WriteFile(dst, []byte(src), 0o644))
	overlay[name] = dst
}

func instrument(lp *listPkg, exports map[string]string, out string, overlay map[string]string) {
	p := &pkgInst{lp: lp, fset: token.NewFileSet()}
	var files []*ast.File
	for _, n := range lp.GoFiles {
		name := filepath.Join(lp.Dir, n)
		src, err := os.ReadFile(name)
		must(err)
		f, err := parser.ParseFile(p.fset, name, src, parser.ParseComments|parser.SkipObjectResolution)
		must(err)
		files = append(files, f)
		p.files = append(p.files, &fileInst{pkg: p, name: name, src: src, f: f, tf: p.fset.File(f.Pos())})
	}
	imp := importer.ForCompiler(p.fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(e)
	})
	gover := ""
	if lp.Module != nil && lp.Module.GoVersion != "" {
		gover = "go" + lp.Module.GoVersion
	}
	conf := types.Config{Importer: imp, GoVersion: gover}
	p.info = &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	tpkg, err := conf.Check(lp.ImportPath, p.fset, files, p.info)
	if err != nil {
		log.Fatalf("%s: %v", lp.ImportPath, err)
	}
	p.tpkg = tpkg

	for _, fi := range p.files {
		fi.rewrite()
	}
	p.resets()
	if asLib != "" {
		p.files[0].tail.WriteString("\n// VsimMain is the command.\nfunc VsimMain() { main() }\n")
	}
	for _, fi := range p.files {
		dst := filepath.Join(out, "src", strings.ReplaceAll(lp.ImportPath, "/", "_"), filepath.Base(fi.name))
		must(os.MkdirAll(filepath.Dir(dst), 0o755))
		body := fi.text(0, len(fi.src))
		body += "\nvar _ = vsimrt.Y\n" + fi.tail.String()
		for _, k := range slices.Sorted(maps.Keys(fi.keep)) {
			body += "\nvar _ = " + k + "." + fi.keep[k] + "\n"
		}
		must(os.WriteFile(dst, []byte(body), 0o644))
		if asLib != "" {
			overlay[filepath.Join(asLib, filepath.Base(fi.name))] = dst
		} else {
			overlay[fi.name] = dst
		}
	}
}

func (fi *fileInst) off(p token.Pos) int { return fi.tf.Offset(p) }

func (fi *fileInst) repl(from, to token.Pos, text string) {
	fi.edits = append(fi.edits, edit{fi.off(from), fi.off(to), text, len(fi.edits)})
}

func (fi *fileInst) ins(at token.Pos, text string) { fi.repl(at, at, text) }

// text returns the source range [lo,hi) with the edits inside it applied.
func (fi *fileInst) text(lo, hi int) string {
	es := make([]edit, 0, len(fi.edits))
	for _, e := range fi.edits {
		if e.off >= lo && e.end <= hi {
			es = append(es, e)
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].off != es[j].off {
			return es[i].off < es[j].off
		}
		// pure insertions go before replacements at the same offset.
		pi, pj := es[i].end == es[i].off, es[j].end == es[j].off
		if pi != pj {
			return pi
		}
		// so do whole statements.
		if pi {
			si, sj := strings.HasSuffix(es[i].text, ";"), strings.HasSuffix(es[j].text, ";")
			if si != sj {
				return si
			}
		}
		return es[i].seq < es[j].seq
	})
	var b strings.Builder
	pos := lo
	for _, e := range es {
		if e.off < pos && e.end <= pos {
			continue // part of something replaced
		}
		if e.off < pos {
			log.Fatalf("%s: overlapping edits at offset %d", fi.name, e.off)
		}
		b.Write(fi.src[pos:e.off])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(fi.src[pos:hi])
	return b.String()
}

func (fi *fileInst) orig(n ast.Node) string {
	return string(fi.src[fi.off(n.Pos()):fi.off(n.End())])
}

func (fi *fileInst) cur(n ast.Node) string {
	return fi.text(fi.off(n.Pos()), fi.off(n.End()))
}

func (fi *fileInst) newSite(pos token.Pos, fn string) int {
	id := len(sites) + 1
	ps := fi.pkg.fset.Position(pos)
	sites = append(sites, site{ID: id, Pos: fmt.Sprintf("%s:%d", filepath.Base(ps.Filename), ps.Line), Func: fn, Pkg: fi.pkg.lp.ImportPath})
	return id
}

func (fi *fileInst) pkgOf(e ast.Expr) string {
	id, ok := e.(*ast.Ident)
	if !ok {
		return ""
	}
	pn, ok := fi.pkg.info.Uses[id].(*types.PkgName)
	if !ok {
		return ""
	}
	return pn.Imported().Path()
}

var osFuncs = map[string]bool{
	"Create": true, "Open": true, "OpenFile": true, "File": true, "CreateTemp": true,
	"WriteFile": true, "ReadFile": true, "Remove": true, "RemoveAll": true, "Rename": true,
	"Stat": true, "Lstat": true, "Mkdir": true, "MkdirAll": true, "MkdirTemp": true, "Chmod": true,
	"Truncate": true, "Exit": true, "Stdin": true, "Stdout": true, "Stderr": true,
	"Getenv": true, "LookupEnv": true, "Environ": true, "ExpandEnv": true, "Hostname": true, "Getpid": true,
	"Getppid": true, "TempDir": true, "UserHomeDir": true, "UserCacheDir": true, "UserConfigDir": true,
	"Chdir": true, "Getwd": true, "Getuid": true, "Geteuid": true, "Getgid": true, "Getegid": true, "Executable": true,
}

var rtFuncs = map[string]bool{"Gosched": true, "NumCPU": true, "GOMAXPROCS": true, "NumGoroutine": true, "SetFinalizer": true}

// used notes that a file goes on importing a package.
func (fi *fileInst) used(x ast.Expr, sym string) {
	if fi.keep == nil {
		fi.keep = map[string]string{}
	}
	fi.keep[x.(*ast.Ident).Name] = sym
}

// topFunc is whether id is a package's function.
func (fi *fileInst) topFunc(id *ast.Ident) bool {
	_, ok := fi.pkg.info.Uses[id].(*types.Func)
	return ok
}

var timeFuncs = map[string]string{"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep",
	"After": "After", "NewTimer": "NewTimer", "AfterFunc": "AfterFunc",
	"NewTicker": "NewTicker", "Tick": "Tick"}

var contextFuncs = map[string]bool{"WithTimeout": true, "WithDeadline": true, "WithTimeoutCause": true, "WithDeadlineCause": true}

// clockwork is whether a method is one of timers ("Timer") or tickers, and
// whether it is called on a pointer.
func (fi *fileInst) clockwork(n *ast.SelectorExpr) (name string, ptr bool) {
	sel := fi.pkg.info.Selections[n]
	if sel == nil || sel.Kind() != types.MethodVal || len(sel.Index()) != 1 {
		return "", false
	}
	t := sel.Recv()
	if p, ok := t.(*types.Pointer); ok {
		t, ptr = p.Elem(), true
	}
	d, ok := t.(*types.Named)
	if !ok || d.Obj().Pkg() == nil || d.Obj().Pkg().Path() != "time" {
		return "", false
	}
	if name = d.Obj().Name(); name != "Timer" && name != "Ticker" {
		return "", false
	}
	return name, ptr
}

var ioNames = map[string]bool{"Pipe": true, "PipeReader": true, "PipeWriter": true}

func (fi *fileInst) rewrite() {
	info := fi.pkg.info
	if asLib != "" {
		fi.repl(fi.f.Name.Pos(), fi.f.Name.End(), filepath.Base(asLib))
		for _, g := range fi.f.Comments { // build constraints
			for _, c := range g.List {
				if c.Pos() < fi.f.Package && (strings.HasPrefix(c.Text, "//go:build") || strings.HasPrefix(c.Text, "// +build")) {
					fi.repl(c.Pos(), c.End(), "//")
				}
			}
		}
	}
	// package clause: import the runtime on the same line, lines keep their numbers.
	fi.ins(fi.f.Name.End(), fmt.Sprintf("; import vsimrt %q", rtPath))

	for _, im := range fi.f.Imports {
		switch im.Path.Value {
		case `"sync"`:
			name := "sync"
			if im.Name != nil {
				name = im.Name.Name
				fi.repl(im.Name.Pos(), im.Path.End(), fmt.Sprintf("%s %q", name, syncPath))
				continue
			}
			fi.repl(im.Path.Pos(), im.Path.End(), fmt.Sprintf("%s %q", name, syncPath))
		case `"hash/maphash"`:
			name := "maphash"
			from := im.Path.Pos()
			if im.Name != nil {
				name, from = im.Name.Name, im.Name.Pos()
			}
			fi.repl(from, im.Path.End(), fmt.Sprintf("%s %q", name, hashPath))
		case `"os/signal"`:
			if *noOS {
				continue
			}
			name := "signal"
			from := im.Path.Pos()
			if im.Name != nil {
				name, from = im.Name.Name, im.Name.Pos()
			}
			fi.repl(from, im.Path.End(), fmt.Sprintf("%s %q", name, sigPath))
		case `"os/exec"`:
			if *noOS {
				continue
			}
			name := "exec"
			from := im.Path.Pos()
			if im.Name != nil {
				name, from = im.Name.Name, im.Name.Pos()
			}
			fi.repl(from, im.Path.End(), fmt.Sprintf("%s %q", name, execPath))
		}
	}

	osImported, ioImported := false, false
	// the operations a select chooses from become its cases.
	comm := map[ast.Node]bool{}
	ast.Inspect(fi.f, func(n ast.Node) bool {
		if cc, ok := n.(*ast.CommClause); ok {
			switch s := cc.Comm.(type) {
			case *ast.SendStmt:
				comm[s] = true
			case *ast.ExprStmt:
				comm[ast.Unparen(s.X)] = true
			case *ast.AssignStmt:
				comm[ast.Unparen(s.Rhs[0])] = true
			}
		}
		return true
	})
	cat := map[ast.Node]bool{} // parts of a longer concatenation
	two := map[ast.Node]bool{} // receives in the two-value form
	ast.Inspect(fi.f, func(n ast.Node) bool {
		var e ast.Expr
		switch n := n.(type) {
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				e = n.Rhs[0]
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				e = n.Values[0]
			}
		}
		if e != nil {
			if u, ok := ast.Unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				two[u] = true
			}
		}
		return true
	})

	// selectors and calls on package-level functions of std packages.
	ast.Inspect(fi.f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SelectorExpr:
			if name, ptr := fi.clockwork(n); name != "" {
				amp := "&"
				if ptr {
					amp = ""
				}
				fi.ins(n.X.Pos(), "vsimrt."+name+"("+amp)
				fi.ins(n.X.End(), ")")
			}
			switch fi.pkgOf(n.X) {
			case "context":
				if contextFuncs[n.Sel.Name] {
					fi.repl(n.X.Pos(), n.X.End(), "vsimrt")
					fi.used(n.X, "Background")
				}
			case "os":
				if !*noOS && osFuncs[n.Sel.Name] {
					fi.repl(n.X.Pos(), n.X.End(), "vsimos")
					fi.used(n.X, "ErrNotExist")
					osImported = true
				}
			case "log":
				if !*noOS && strings.HasPrefix(n.Sel.Name, "Fatal") {
					fi.repl(n.X.Pos(), n.X.End(), "vsimos")
					osImported = true
					fi.used(n.X, "Flags")
				}
			case "runtime":
				if rtFuncs[n.Sel.Name] {
					fi.repl(n.X.Pos(), n.X.End(), "vsimrt")
					fi.used(n.X, "NumCPU")
				}
			case "crypto/rand":
				if to, ok := map[string]string{"Reader": "CryptoReader", "Read": "CryptoRead", "Text": "CryptoText"}[n.Sel.Name]; ok {
					fi.used(n.X, "Int")
					fi.repl(n.X.Pos(), n.Sel.End(), "vsimrt."+to)
				}
			case "math/rand":
				if fi.topFunc(n.Sel) && !strings.HasPrefix(n.Sel.Name, "New") {
					fi.used(n.X, "New")
					fi.repl(n.X.Pos(), n.X.End(), "vsimrt.Rand()")
				}
			case "math/rand/v2":
				if fi.topFunc(n.Sel) && !strings.HasPrefix(n.Sel.Name, "New") && n.Sel.Name != "N" {
					fi.used(n.X, "New")
					fi.repl(n.X.Pos(), n.X.End(), "vsimrt.Rand2()")
				}
			case "io":
				if ioNames[n.Sel.Name] {
					fi.repl(n.X.Pos(), n.X.End(), "vsimio")
					ioImported = true
					fi.used(n.X, "EOF")
				}
			case "time":
				if to, ok := timeFuncs[n.Sel.Name]; ok {
					fi.repl(n.X.Pos(), n.Sel.End(), "vsimrt."+to)
					fi.used(n.X, "Nanosecond")
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !comm[n] {
				f := "vsimrt.Recv("
				if two[n] {
					f = "vsimrt.Recv2("
				}
				fi.repl(n.OpPos, n.OpPos+2, f)
				fi.ins(n.X.End(), ")")
			}
		case *ast.SendStmt:
			if !comm[n] {
				fi.ins(n.Chan.Pos(), "vsimrt.Send(")
				fi.repl(n.Arrow, n.Arrow+2, ")(")
				fi.ins(n.Value.End(), ")")
			}
		case *ast.BinaryExpr:
			if n.Op == token.ADD && !cat[n] {
				for e := ast.Expr(n); ; {
					b, ok := ast.Unparen(e).(*ast.BinaryExpr)
					if !ok {
						break
					}
					cat[b] = true
					e = b.X
				}
				if t := info.TypeOf(n); t != nil && isString(t) {
					fi.work(n)
				}
			}
		case *ast.AssignStmt:
			if n.Tok == token.ADD_ASSIGN && isString(info.TypeOf(n.Lhs[0])) {
				if id, ok := n.Lhs[0].(*ast.Ident); ok {
					fi.ins(n.Rhs[0].Pos(), "vsimrt.WorkCat("+id.Name+", ")
					fi.ins(n.Rhs[0].End(), ")")
				}
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" && len(n.Args) == 1 {
				if _, ok := info.Uses[id].(*types.Builtin); ok {
					fi.repl(id.Pos(), id.End(), "vsimrt.Close")
				}
			}
			fi.callWork(n)
			if *noRead {
				return true
			}
			sig, ok := info.TypeOf(n.Fun).(*types.Signature)
			if !ok || sig.Variadic() {
				return true
			}
			for i, arg := range n.Args {
				c, ok := arg.(*ast.CallExpr)
				if !ok || i >= sig.Params().Len() {
					continue
				}
				s, ok := c.Fun.(*ast.SelectorExpr)
				if !ok || fi.pkgOf(s.X) != "strings" || s.Sel.Name != "NewReader" {
					continue
				}
				if _, ok := sig.Params().At(i).Type().Underlying().(*types.Interface); !ok {
					continue
				}
				if sig.Params().At(i).Type().String() != "io.Reader" {
					continue
				}
				fi.ins(arg.Pos(), "vsimrt.Reader(")
				fi.ins(arg.End(), ")")
			}
		}
		return true
	})
	if ioImported {
		fi.ins(fi.f.Name.End(), fmt.Sprintf("; import vsimio %q", ioPath))
	}
	if osImported {
		fi.ins(fi.f.Name.End(), fmt.Sprintf("; import vsimos %q", osPath))
	}

	// statements.
	var (
		fn      string
		gos     []*ast.GoStmt
		selects []*ast.SelectStmt
	)
	for _, d := range fi.f.Decls {
		fn = "init"
		if fd, ok := d.(*ast.FuncDecl); ok {
			fn = fd.Name.Name
			if fd.Recv != nil && len(fd.Recv.List) == 1 {
				fn = fi.orig(fd.Recv.List[0].Type) + "." + fn
			}
			if fd.Recv == nil && fd.Name.Name == "init" {
				fi.pkg.nInit++
				name := fmt.Sprintf("vsimInit%d", fi.pkg.nInit)
				fi.repl(fd.Name.Pos(), fd.Name.End(), name)
				fmt.Fprintf(&fi.tail, "\nfunc init() { %s() }\n", name)
			}
		}
		ast.Inspect(d, func(n ast.Node) bool {
			var list []ast.Stmt
			switch n := n.(type) {
			case *ast.BlockStmt:
				list = n.List
			case *ast.CaseClause:
				list = n.Body
			case *ast.CommClause:
				list = n.Body
			case *ast.ForStmt:
				if len(n.Body.List) == 0 {
					fi.ins(n.Body.Lbrace+1, fmt.Sprintf("vsimrt.Y(%d)", fi.newSite(n.Pos(), fn)))
				}
				return true
			case *ast.RangeStmt:
				if len(n.Body.List) == 0 {
					fi.ins(n.Body.Lbrace+1, fmt.Sprintf("vsimrt.Y(%d)", fi.newSite(n.Pos(), fn)))
				}
				fi.mapRange(n)
				return true
			case *ast.GoStmt:
				gos = append(gos, n)
				return true
			case *ast.SelectStmt:
				selects = append(selects, n)
				return true
			default:
				return true
			}
			isSwitchBody := false
			if len(list) > 0 {
				switch list[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					isSwitchBody = true
				}
			}
			if isSwitchBody {
				return true
			}
			for _, s := range list {
				if es, ok := s.(*ast.EmptyStmt); ok && es.Implicit {
					continue
				}
				id := fi.newSite(s.Pos(), fn)
				sites[id-1].Glob = fi.globals(s)
				fi.ins(s.Pos(), fmt.Sprintf("vsimrt.Y(%d);", id))
			}
			return true
		})
	}
	// from the inside out: these copy text with its edits.
	for i := len(gos) - 1; i >= 0; i-- {
		fi.goStmt(gos[i])
	}
	for i := len(selects) - 1; i >= 0; i-- {
		fi.selectStmt(selects[i])
	}
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// early are functions that need not look at all of their arguments.
var early = []string{"Has", "Index", "LastIndex", "Contains", "Cut", "Equal", "Compare", "Trim", "SplitN", "SplitAfterN", "Decode", "FullRune", "New", "Search", "Find", "Is"}

// callWork has the work counted that a call does outside the module: all of a
// string or slice that is copied, converted or given to the standard library.
func (fi *fileInst) callWork(n *ast.CallExpr) {
	info := fi.pkg.info
	if tv, ok := info.Types[n.Fun]; ok && tv.IsType() {
		if len(n.Args) == 1 {
			t := tv.Type.Underlying()
			a := info.TypeOf(n.Args[0])
			_, s1 := t.(*types.Slice)
			if a == nil || (isString(t) == isString(a) && !s1) {
				return // no conversion that copies
			}
			if _, s2 := a.Underlying().(*types.Slice); s1 && s2 {
				return
			}
			fi.work(n.Args[0])
		}
		return
	}
	switch f := ast.Unparen(n.Fun).(type) {
	case *ast.Ident:
		if b, ok := info.Uses[f].(*types.Builtin); ok {
			switch {
			case b.Name() == "copy":
				fi.work(n.Args[1])
			case b.Name() == "append" && n.Ellipsis.IsValid():
				fi.work(n.Args[len(n.Args)-1])
			}
		}
	case *ast.SelectorExpr:
		fn, ok := info.Uses[f.Sel].(*types.Func)
		if !ok || fn.Pkg() == nil || strings.Contains(strings.SplitN(fn.Pkg().Path(), "/", 2)[0], ".") {
			return
		}
		for _, p := range early {
			if strings.HasPrefix(fn.Name(), p) {
				return
			}
		}
		for _, a := range n.Args {
			fi.work(a)
		}
	}
}

// work counts the length of the string or slice e, when it is evaluated.
func (fi *fileInst) work(e ast.Expr) {
	tv := fi.pkg.info.Types[e]
	if tv.Type == nil || tv.Value != nil || tv.IsNil() {
		return
	}
	f := ""
	if _, ok := tv.Type.Underlying().(*types.Slice); ok {
		f = "vsimrt.WorkSlice("
	} else if isString(tv.Type) {
		f = "vsimrt.Work("
	} else {
		return
	}
	fi.ins(e.Pos(), f)
	fi.ins(e.End(), ")")
}

// globals reports whether the statement itself, not the blocks nested in it,
// uses a package-level variable.
func (fi *fileInst) globals(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			return n == s
		case *ast.CaseClause:
			return false
		case *ast.Ident:
			v, ok := fi.pkg.info.Uses[n].(*types.Var)
			if ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
				found = true
			}
		}
		return !found
	})
	return found
}

// mapRange turns a range over a map into a loop whose order the simulator
// decides, keeping one set of loop variables (Go 1.21 semantics).
func (fi *fileInst) mapRange(n *ast.RangeStmt) {
	t := fi.pkg.info.TypeOf(n.X)
	if t == nil {
		return
	}
	if _, ok := t.Underlying().(*types.Chan); ok {
		fi.chanRange(n)
		return
	}
	if _, ok := t.Underlying().(*types.Map); !ok {
		return
	}
	k, v := "vsimK", "vsimV"
	uk, uv := !blank(n.Key), !blank(n.Value)
	switch {
	case n.Tok == token.DEFINE || (!uk && !uv):
		if uk {
			k = fi.orig(n.Key)
		}
		if uv {
			v = fi.orig(n.Value)
		}
		fi.header(n, fmt.Sprintf("for %s, %s, vsimIt := vsimrt.MapIter(", k, v), fmt.Sprintf("); vsimIt.Next(&%s, &%s); {", k, v))
	case n.Tok == token.ASSIGN:
		pk, pv := "nil", "nil"
		for _, e := range []ast.Expr{n.Key, n.Value} {
			if fi.mapElem(e) {
				return
			}
		}
		if uk {
			pk = "&" + fi.cur(n.Key)
		}
		if uv {
			pv = "&" + fi.cur(n.Value)
		}
		fi.header(n, "for _, _, vsimIt := vsimrt.MapIter(", fmt.Sprintf("); vsimIt.Next(%s, %s); {", pk, pv))
	}
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

// mapElem reports whether e is an element of a map: it has no address.
func (fi *fileInst) mapElem(e ast.Expr) bool {
	ix, ok := e.(*ast.IndexExpr)
	if !ok {
		return false
	}
	_, ok = fi.pkg.info.TypeOf(ix.X).Underlying().(*types.Map)
	return ok
}

// chanRange turns a range over a channel into receives the simulator owns.
func (fi *fileInst) chanRange(n *ast.RangeStmt) {
	switch {
	case blank(n.Key):
		fi.header(n, "for _, vsimIt := vsimrt.ChanIter(", "); vsimIt.Next(nil); {")
	case n.Tok == token.DEFINE:
		v := fi.orig(n.Key)
		fi.header(n, fmt.Sprintf("for %s, vsimIt := vsimrt.ChanIter(", v), fmt.Sprintf("); vsimIt.Next(&%s); {", v))
	case fi.mapElem(n.Key):
		fi.ins(n.Pos(), "vsimrt.Native();")
	default:
		fi.header(n, "for _, vsimIt := vsimrt.ChanIter(", fmt.Sprintf("); vsimIt.Next(&%s); {", fi.cur(n.Key)))
	}
}

// header replaces what is around the expression a loop ranges over.
func (fi *fileInst) header(n *ast.RangeStmt, before, after string) {
	fi.repl(n.For, n.X.Pos(), before)
	fi.repl(n.X.End(), n.Body.Lbrace+1, after)
}

// goStmt turns "go f(a, b)" into a simulated task; f, a and b are evaluated at
// the go statement.
func (fi *fileInst) goStmt(n *ast.GoStmt) {
	call := n.Call
	info := fi.pkg.info
	var (
		fun  = "vsimF"
		head = "vsimF := "
		args []string
	)
	if fi.isFunc(call.Fun) {
		// a package-level function, perhaps a generic one, or a builtin.
		fun = fi.cur(call.Fun)
		head = "_ = "
		fi.repl(call.Fun.Pos(), call.Fun.End(), "0")
	}
	fi.repl(n.Go, call.Fun.Pos(), "vsimrt.Go0(func() func() { "+head)
	last := call.Lparen
	for i, a := range call.Args {
		if tup, ok := info.TypeOf(a).(*types.Tuple); ok {
			for j := 0; j < tup.Len(); j++ {
				args = append(args, fmt.Sprintf("vsimA%d", j))
			}
			fi.repl(last, a.Pos(), "; "+strings.Join(args, ", ")+" := ")
			last = a.End()
			continue
		}
		tv := info.Types[a]
		name := fmt.Sprintf("vsimA%d", i)
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			args = append(args, fi.cur(a))
			fi.repl(a.Pos(), a.End(), "0")
			fi.repl(last, a.Pos(), "; _ = ")
		} else {
			args = append(args, name)
			fi.repl(last, a.Pos(), "; "+name+" := ")
		}
		last = a.End()
	}
	dots := ""
	if call.Ellipsis.IsValid() {
		dots = "..."
	}
	fi.repl(last, call.Rparen+1, fmt.Sprintf("; return func() { %s(%s%s) } }())", fun, strings.Join(args, ", "), dots))
}

// isFunc reports whether e denotes a function that needs no evaluation.
func (fi *fileInst) isFunc(e ast.Expr) bool {
	info := fi.pkg.info
	if tv, ok := info.Types[e]; ok && (tv.IsBuiltin() || tv.IsType()) {
		return true
	}
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		switch info.Uses[e].(type) {
		case *types.Func, *types.Builtin:
			return true
		}
	case *ast.SelectorExpr:
		if fi.pkgOf(e.X) != "" {
			_, ok := info.Uses[e.Sel].(*types.Func)
			return ok
		}
	case *ast.IndexExpr:
		if tv := info.Types[e.Index]; tv.IsType() {
			return fi.isFunc(e.X)
		}
	case *ast.IndexListExpr:
		return fi.isFunc(e.X)
	}
	return false
}

// selectStmt turns a select into a switch over the case the simulator chose.
func (fi *fileInst) selectStmt(n *ast.SelectStmt) {
	var (
		lhs, rhs []string
		def      *ast.CommClause
	)
	for _, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			def = cc
			continue
		}
		i := len(lhs)
		name := fmt.Sprintf("vsimC%d", i)
		lhs = append(lhs, name)
		head := fmt.Sprintf("case %d: ", i)
		if s, ok := cc.Comm.(*ast.SendStmt); ok {
			rhs = append(rhs, fmt.Sprintf("vsimrt.CaseSend(%s)(%s)", fi.cur(s.Chan), fi.cur(s.Value)))
			fi.repl(cc.Case, cc.Colon+1, head)
			continue
		}
		var e ast.Expr
		switch s := cc.Comm.(type) {
		case *ast.ExprStmt:
			e = s.X
		case *ast.AssignStmt:
			e = s.Rhs[0]
			var to []string
			for _, l := range s.Lhs {
				to = append(to, fi.cur(l))
			}
			head += strings.Join(to, ", ") + " " + s.Tok.String() + " " + name + ".V"
			if len(to) == 2 {
				head += ", " + name + ".OK"
			}
			head += ";"
		}
		u := ast.Unparen(e).(*ast.UnaryExpr)
		rhs = append(rhs, fmt.Sprintf("vsimrt.CaseRecv(%s)", fi.cur(u.X)))
		fi.repl(cc.Case, cc.Colon+1, head)
	}
	init := ""
	if len(lhs) > 0 {
		init = strings.Join(lhs, ", ") + " := " + strings.Join(rhs, ", ") + "; "
	}
	hdr := fmt.Sprintf("switch %svsimrt.Select(%v", init, def != nil)
	for _, l := range lhs {
		hdr += ", " + l
	}
	hdr += ") {"
	if def == nil {
		fi.ins(n.Body.Rbrace, "; default: panic(\"vsim: select\")")
	}
	fi.repl(n.Select, n.Body.Lbrace+1, hdr)
}

// resets emits, per package, a function that puts every package-level variable
// back to its initial value and reruns the init functions.
func (p *pkgInst) resets() {
	if len(p.files) == 0 {
		return
	}
	fileOf := func(pos token.Pos) *fileInst {
		for _, fi := range p.files {
			if fi.f.FileStart <= pos && pos < fi.f.FileEnd {
				return fi
			}
		}
		log.Fatalf("no file for position")
		return nil
	}
	embed := map[types.Object]bool{}
	var zero []types.Object
	inited := map[types.Object]bool{}
	for _, in := range p.info.InitOrder {
		for _, v := range in.Lhs {
			inited[v] = true
		}
	}
	for _, fi := range p.files {
		for _, d := range fi.f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				isEmbed := false
				for _, cg := range []*ast.CommentGroup{gd.Doc, vs.Doc} {
					if cg == nil {
						continue
					}
					for _, c := range cg.List {
						if strings.HasPrefix(c.Text, "//go:embed") {
							isEmbed = true
						}
					}
				}
				for _, id := range vs.Names {
					obj := p.info.Defs[id]
					if obj == nil || id.Name == "_" {
						continue
					}
					if isEmbed {
						embed[obj] = true
						continue
					}
					if !inited[obj] {
						zero = append(zero, obj)
					}
				}
			}
		}
	}
	main := p.files[0]
	var body strings.Builder
	for _, o := range zero {
		fmt.Fprintf(&body, "\tvsimrt.Zero(&%s)\n", o.Name())
	}
	n := 0
	for _, in := range p.info.InitOrder {
		var lhs []string
		all := true
		for _, v := range in.Lhs {
			if embed[v] {
				all = false
			}
			lhs = append(lhs, v.Name())
			if v.Name() != "_" {
				continue
			}
		}
		if !all {
			continue
		}
		onlyBlank := true
		for _, l := range lhs {
			if l != "_" {
				onlyBlank = false
			}
		}
		if onlyBlank {
			continue
		}
		fi := fileOf(in.Rhs.Pos())
		n++
		name := fmt.Sprintf("vsimReset%d", n)
		fmt.Fprintf(&fi.tail, "\nfunc %s() { %s = %s }\n", name, strings.Join(lhs, ", "), fi.cur(in.Rhs))
		fmt.Fprintf(&body, "\t%s()\n", name)
	}
	for i := 1; i <= p.nInit; i++ {
		fmt.Fprintf(&body, "\tvsimInit%d()\n", i)
	}
	fmt.Fprintf(&main.tail, "\nfunc vsimResetAll() {\n%s}\n\nfunc init() { vsimrt.RegisterReset(%q, vsimResetAll) }\n", body.String(), p.lp.ImportPath)
}
