//go:build vsimmains

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/go-latex/latex/vsim"
	"github.com/go-latex/latex/vsim/genfake"
	"github.com/go-latex/latex/vsim/gensyms"
	"github.com/go-latex/latex/vsim/runtests"
	"github.com/go-latex/latex/vsim/simexec"
	"github.com/go-latex/latex/vsim/simos"
)

// The programs that make the library's tables (go generate) and the one that
// runs its tests (ci).  Their interpreter is the real python with a stand-in
// for matplotlib; the go command is scripted.

func init() {
	extraOps["gen"] = runGen
	extraOps["ci"] = runCI
	register(&property{
		id: "C21", race: 0, quick: 15000, thorough: 400000,
		rule: "the programs behind go generate are run with an interpreter that is missing, fails, is killed, reports only part or lacks what it is asked for, on a simulated disk that fails to open, write, sync, rename or close, fills up, or with the process killed at a random operation, over old files; then they are run again with nothing wrong. What the interpreter (real python, stand-in for matplotlib) was asked and answered is recorded and compared with the files",
		gen: func(r *Rng, p *Plan) {
			op := Op{K: "gen", A: []string{pickOf(r, "syms", "syms", "fake")}, I: r.n(variants) + pickOf(r, 0, similar)}
			again := op
			again.I = r.n(variants)
			if r.pct(40) { // a report that differs in some places only, and is as long
				again.I = (op.I + similar) % (2 * similar)
			}
			if r.pct(10) {
				op.I = variants + r.n(2) // no matplotlib, or one that lacks something
			}
			op.Disk = r.genDisk(op.A[0])
			p.Tasks = [][]Op{{op}}
			if r.pct(60) {
				p.Tasks[0] = append(p.Tasks[0], again)
			}
			if r.pct(25) { // over what an earlier run has left
				p.Tasks[0] = append([]Op{again}, p.Tasks[0]...)
			}
			quiet(r, p)
			p.Cfg.MapMode, p.Cfg.MapSeed = r.n(3), r.u64()
		},
		check: checkGen,
	})
	register(&property{
		id: "C22", race: 0, quick: 200000, thorough: 5000000,
		rule: "the test driver is run for 0 to 8 packages, some of which fail, with a go command that is missing, fails, is killed, and on a failing or full disk, with and without coverage; then it is run again",
		gen: func(r *Rng, p *Plan) {
			op := Op{K: "ci", I: pickOf(r, 1, 2, 3, 4, 8, 0)}
			if r.pct(30) {
				op.X = "named"
			}
			if r.pct(30) {
				op.N = 1 << r.n(op.I+1)
				if r.pct(30) {
					op.N |= r.n(1 << op.I)
				}
			}
			if r.pct(60) {
				op.A = append(op.A, "-coverpkg=./...")
			}
			for _, a := range []string{"-race", "-v", "-tags=cross"} {
				if r.pct(25) {
					op.A = append(op.A, a)
				}
			}
			again := op
			again.N = 0
			op.Disk = r.genDisk("ci")
			p.Tasks = [][]Op{{op}}
			if r.pct(40) {
				p.Tasks[0] = append(p.Tasks[0], again)
			}
			quiet(r, p)
			p.Cfg.MapMode, p.Cfg.MapSeed = r.n(3), r.u64()
		},
		check: checkCI,
	})
}

func (r *Rng) genDisk(what string) *DiskPlan {
	d := r.disk()
	if r.pct(50) {
		d.Faults = nil
	}
	for i := range d.Faults {
		if f := &d.Faults[i]; f.Op == "write" && r.pct(60) {
			f.Nth = r.in(1, pickOf(r, 10, 60, 600))
		}
		if what != "syms" && r.pct(40) {
			d.Faults[i].Nth = r.in(1, 4)
		}
		if what == "ci" && r.pct(30) {
			d.Faults[i].Op = pickOf(r, "read", "remove", "open")
		}
	}
	d.Cap = 0
	if r.pct(20) {
		d.Cap = int64(r.in(1, pickOf(r, 300, 3000, 60000)))
	}
	n := 1
	if what != "syms" {
		n = pickOf(r, 3, 3, 9)
	}
	if r.pct(50) {
		f := simos.Fault{Op: "exec", Nth: r.in(1, n), Err: pickOf(r, "ENOENT", "EACCES", "ENOMEM", "exit", "exit", "killed", "killed", "cut")}
		if what == "ci" && f.Err == "cut" {
			f.Err = "exit" // a go command that reports success and only part of the packages cannot be found out
		}
		f.Short = pickOf(r, -1, -1, 0, 1, 2, r.in(1, 200), r.in(1, 5000))
		if what == "ci" && r.pct(40) { // after a whole line
			f.Nth, f.Short = 1, pickOf(r, 17, 34, 57, 74)
		}
		if f.Err == "cut" && f.Short < 0 {
			f.Short = r.in(0, 300)
		}
		f.Stick = r.pct(20)
		d.Faults = append(d.Faults, f)
	}
	if r.pct(15) {
		d.Crash, d.Sig = r.in(1, pickOf(r, 4, 12, 400)), r.signal()
	}
	return d
}

// --- generators --------------------------------------------------------------

// variants of what the stand-in for matplotlib knows: the two after them fail,
// and those from similar on are like 0, 1, ..., and differ in places, but not in
// the length of what they report.
const (
	variants = 10
	similar  = 20
)

func healthy(variant int) bool { return variant < variants || variant >= similar }

const stubPy = `
import json, os, string
V = int(os.environ["STUB_VARIANT"])
SIMILAR = V >= 20
V %= 20
LOG = open(os.environ["STUB_LOG"], "a")
def log(*x):
    json.dump(x, LOG)
    LOG.write("\n")
    LOG.flush()
if V != 0:
    string.ascii_letters = "azAZ"[:V % 5]
    string.digits = "09"[:V % 3]
if V == 10:
    raise ImportError("no module named matplotlib")
ODD = ["\\alpha", "\\beta", "+", "-", "(", "\"", "\\", "%d", "%!", "\u00e9", "\u2211", "\U0001d400", "a b", "", "\t", "'", "` + "`" + `", "\\n", "{}", "//", "\x7f", "\u200b", "lim"]
OTHER = {"\\alpha": "\\alphb", "+": "*", "lim": "lin", "a b": "a c", "{}": "{]", "x7": "x?"}
def h(*x):
    n = 14695981039346656037
    for b in repr(x).encode("utf-8"):
        n = ((n ^ b) * 1099511628211) % (1 << 64)
    return n
ATTRS = "_binary_operators _relation_symbols _arrow_symbols _punctuation_symbols _overunder_symbols _overunder_functions _dropsub_symbols _fontnames _function_names _ambi_delim _left_delim _right_delim".split()
class Meta(type):
    def __getattr__(cls, name):
        if name not in ATTRS or (V == 11 and h(name) % 3 == 0):
            raise AttributeError(name)
        xs = [s for s in ODD if h(V, name, s) % 3 == 0]
        if V == 3:
            xs = [] if h(name) % 2 else ["x%d" % i for i in range(300)]
        if SIMILAR:
            xs = [OTHER.get(x, x) for x in xs]
        log("attr", name, xs)
        return xs if V % 2 else set(xs)
class Parser(metaclass=Meta):
    pass
tex2uni = {s.replace("\\", "").replace("\"", ""): 0x3b1 for s in ["alpha", "sum", "sigma", "__sqrt__", "int", "Delta"][:V % 7]}
class FontProperties: pass
class MathtextBackendPdf: pass
def num(*x):
    v = number(*x)
    t = repr(v)
    if SIMILAR and len(t) < 7 and "e" not in t and t[0] in "12345678":
        v = type(v)("9" + t[1:])
    return v
def number(*x):
    n = h(V, *x)
    k = n % 9
    n //= 9
    if k == 0: return 0
    if k == 1: return float(n % 100)
    if k == 2: return -(n % 1000) / 7.0
    if k == 3: return (n % 1000) * 1e-9
    if k == 4: return (n % 1000) * 1e12
    return (n % 100000) / 64.0 + (n % 13) / 3.0
class Metrics: pass
class DejaVuSansFonts:
    def __init__(self, prop, backend):
        assert isinstance(prop, FontProperties) and isinstance(backend, MathtextBackendPdf)
        if V == 11:
            raise RuntimeError("fonts not found")
    def get_metrics(self, font, font_class, sym, fontsize, dpi, math=True):
        m = Metrics()
        v = {}
        for f in "advance height width xmin xmax ymin ymax iceberg".split():
            v[f] = num("m", f, font, font_class, sym, fontsize, dpi, math)
        v["slanted"] = h(V, font, font_class, sym, math) % 2 == 0
        for k in v: setattr(m, k, v[k])
        log("metrics", font, font_class, sym, fontsize, dpi, math, v)
        return m
    def get_xheight(self, font, fontsize, dpi):
        x = num("x", font, fontsize, dpi)
        log("xheight", font, fontsize, dpi, x)
        return x
    def get_kern(self, font1, fontclass1, sym1, fontsize1, font2, fontclass2, sym2, fontsize2, dpi):
        x = num("k", font1, fontclass1, sym1, fontsize1, font2, fontclass2, sym2, fontsize2, dpi)
        log("kern", font1, fontclass1, sym1, fontsize1, font2, fontclass2, sym2, fontsize2, dpi, x)
        return x
`

type pyResult struct {
	proc *simexec.Proc
	log  []string
}

var (
	pyMemo = map[string]*pyResult{}
	pyLog  []string // what the interpreter was asked and answered in this process
)

// python runs the real interpreter in a scratch directory.
func python(c *simexec.Cmd, stdin []byte, variant int) (*simexec.Proc, error) {
	key := fmt.Sprintf("%q %q %d", c.Args, stdin, variant)
	r := pyMemo[key]
	if r == nil {
		r = &pyResult{}
		vsim.Outside(func() { r = realPython(c, stdin, variant) })
		pyMemo[key] = r
	}
	pyLog = append(pyLog, r.log...)
	return r.proc, nil
}

func realPython(c *simexec.Cmd, stdin []byte, variant int) *pyResult {
	dir, err := os.MkdirTemp(*fScratch, "py")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(dir)
	work := filepath.Join(dir, "work")
	must := func(err error) {
		if err != nil {
			die("python: %v", err)
		}
	}
	must(os.MkdirAll(filepath.Join(dir, "lib", "matplotlib"), 0o755))
	must(os.MkdirAll(filepath.Join(work, "testdata"), 0o755))
	must(os.WriteFile(filepath.Join(dir, "lib", "matplotlib", "__init__.py"), nil, 0o644))
	must(os.WriteFile(filepath.Join(dir, "lib", "matplotlib", "mathtext.py"), []byte(stubPy), 0o644))
	args := append([]string(nil), c.Args[1:]...)
	for i, a := range args { // scripts on the simulated disk
		if data, ok := simos.ReadFile(a); ok == nil && len(a) < 200 {
			f := filepath.Join(dir, fmt.Sprintf("arg%d.py", i))
			must(os.WriteFile(f, data, 0o644))
			args[i] = f
		}
	}
	cmd := exec.Command("python3", args...)
	cmd.Dir = work
	cmd.Stdin = bytes.NewReader(stdin)
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + work, "LC_ALL=C.UTF-8", "PYTHONHASHSEED=0", "PYTHONDONTWRITEBYTECODE=1",
		"PYTHONPATH=" + filepath.Join(dir, "lib"), "STUB_VARIANT=" + strconv.Itoa(variant), "STUB_LOG=" + filepath.Join(dir, "log")}
	var out, msg bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &msg
	p := &simexec.Proc{Files: map[string][]byte{}}
	if err := cmd.Run(); err != nil {
		if cmd.ProcessState == nil {
			die("python: %v", err)
		}
		p.Exit = cmd.ProcessState.ExitCode()
	}
	p.Out, p.Err = out.Bytes(), msg.Bytes()
	filepath.Walk(work, func(name string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			rel, _ := filepath.Rel(work, name)
			data, err := os.ReadFile(name)
			must(err)
			p.Files[rel] = data
		}
		return nil
	})
	log, _ := os.ReadFile(filepath.Join(dir, "log"))
	return &pyResult{proc: p, log: strings.Split(strings.TrimSpace(string(log)), "\n")}
}

// genResult is what one run of a generator left.
type genResult struct {
	files map[string]string // the Go files
	log   []string
	said  string
	judge bool   // why has been found
	why   string // in what the files differ from what the interpreter said
}

func runGen(c *octx, op *Op, o *Outcome) {
	d := c.e.disk
	before := len(d.Fired)
	pyLog, simexec.History = nil, nil
	simexec.Handler = func(c *simexec.Cmd, stdin []byte) (*simexec.Proc, error) {
		if strings.HasPrefix(filepath.Base(c.Path), "python") {
			return python(c, stdin, op.I)
		}
		return nil, &exec.Error{Name: c.Path, Err: exec.ErrNotFound}
	}
	main, old := gensyms.VsimMain, "symbols_gen.go"
	if op.A[0] == "fake" {
		main, old = genfake.VsimMain, pickOf(newRng(uint64(len(js(op.Disk)))), "fakebackend_fonts_gen.go", "fakebackend_kerns_gen.go", "fakebackend_xheight_gen.go")
	}
	std := simos.StdWrites
	code, said := c.runProcess(op, old, "gen", nil, main)
	res := &genResult{files: map[string]string{}, log: pyLog, said: said}
	var names []string
	for _, n := range d.Names() {
		data, _ := d.Get(n)
		if strings.HasSuffix(n, ".go") {
			res.files[filepath.Base(n)] = string(data)
			names = append(names, fmt.Sprintf("%s %d %x", filepath.Base(n), len(data), hashStr(string(data))))
		}
	}
	sort.Strings(names)
	o.Kind, o.Ptr = "ok", res
	o.Info = map[string]int{"exit": code, "fired": len(d.Fired) - before, "said": len(said) + simos.StdWrites - std}
	o.Text = fmt.Sprintf("exit %d, %s", code, strings.Join(names, ", "))
	if simexec.Failed() != nil {
		o.Info["failed"] = 1
	}
	if code != 0 {
		o.Text = fmt.Sprintf("exit %d", code)
	}
}

func checkGen(r *Run, refs [][]*Outcome) {
	for j, o := range r.Outs[0] {
		op, ref := r.P.Tasks[0][j], refs[0][j]
		what := fmt.Sprintf("generator %s, interpreter %d", op.A[0], op.I)
		if o.Kind != "ok" {
			r.fail("gen-"+o.Kind, "%s: %s", what, o.key())
			continue
		}
		exit, fired := o.Info["exit"], o.Info["fired"] > 0
		got, want := o.Ptr.(*genResult), ref.Ptr.(*genResult)
		if ref.Info["exit"] == 0 {
			if !healthy(op.I) {
				r.fail("silent", "%s: the interpreter failed, exit status 0", what)
			}
			if !want.judge {
				want.judge, want.why = true, reported(want)
			}
			if want.why != "" {
				r.fail("wrong-table", "%s: exit status 0, but %s", what, want.why)
			}
		}
		switch {
		case exit == 0 && ref.Info["exit"] != 0:
			r.fail("silent", "%s: exit status 0, with nothing wrong with the disk it is %d", what, ref.Info["exit"])
		case exit == 0:
			if o.Info["failed"] == 1 {
				r.fail("silent", "%s: exit status 0 although the interpreter failed (faults: %v)", what, r.Env.disk.Fired)
			}
			for _, n := range sortedKeys(want.files) {
				if g := got.files[n]; g != want.files[n] {
					r.fail("silent", "%s: exit status 0, but %s is not what the interpreter reported: %s (faults: %v)", what, n, diff(g, want.files[n]), r.Env.disk.Fired)
				}
			}
		case exit != 0 && !fired && ref.Info["exit"] == 0:
			r.fail("spurious", "%s: nothing went wrong, exit status %d: %s", what, exit, got.said)
		case exit > 0 && o.Info["said"] == 0:
			r.fail("mute", "%s: exit status %d without a word", what, exit)
		}
		switch {
		case exit == 0 && fired:
			probe("fault harmless")
		case exit == -9:
			probe("killed")
		case fired:
			probe("fault reported")
		case exit != 0:
			probe("interpreter failure reported")
		case j == 1:
			probe("run again")
		}
	}
}

// reported tells in what the files differ from what the interpreter answered.
func reported(g *genResult) string {
	want := map[string]bool{}
	n := map[string]int{}
	for _, line := range g.log {
		var v []any
		if err := json.Unmarshal([]byte(line), &v); err != nil {
			continue
		}
		n[v[0].(string)]++
		switch v[0] {
		case "attr":
			name := strings.ReplaceAll(v[1].(string), "_", "")
			want["set "+name] = true
			for _, s := range v[2].([]any) {
				want[fmt.Sprintf("set %s has %q", name, s)] = true
			}
		case "metrics":
			m := v[7].(map[string]any)
			want[fmt.Sprintf("metrics %q %q %q %v %v: %v %v %v %v %v %v %v %v %v", v[1], v[2], v[3], v[4], v[6],
				m["advance"], m["height"], m["width"], m["xmin"], m["xmax"], m["ymin"], m["ymax"], m["iceberg"], m["slanted"])] = true
		case "xheight":
			want[fmt.Sprintf("xheight %q %v %v: %v", v[1], v[2], v[3], v[4])] = true
		case "kern":
			if v[1] != v[5] || v[2] != v[6] || v[4] != v[8] {
				continue
			}
			want[fmt.Sprintf("kern %q %q %v %q %q: %v", v[1], v[2], v[4], v[3], v[7], v[10])] = true
		}
	}
	got := map[string]bool{}
	for _, name := range sortedKeys(g.files) {
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, g.files[name], 0)
		if err != nil {
			return fmt.Sprintf("%s is not a Go file: %v", name, err)
		}
		ast.Inspect(f, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.ValueSpec:
				if len(x.Names) != 1 || len(x.Values) != 1 {
					return true
				}
				call, ok := x.Values[0].(*ast.CallExpr)
				if !ok {
					return true
				}
				id := strings.ToLower(x.Names[0].Name)
				got["set "+id] = true
				for _, a := range call.Args {
					got[fmt.Sprintf("set %s has %q", id, value(a))] = true
				}
			case *ast.KeyValueExpr:
				k, ok := x.Key.(*ast.CompositeLit)
				if !ok {
					return true
				}
				key := fmt.Sprint(value(k))
				at := func(n string) any { return field(k, n) }
				fn, _ := at("font").(*ast.CompositeLit)
				switch ident(k.Type) {
				case "fontKey":
					m, _ := x.Value.(*ast.CompositeLit)
					if fn == nil || m == nil {
						got["odd entry: "+key] = true
						return false
					}
					got[fmt.Sprintf("metrics %q %q %q %v %v: %v %v %v %v %v %v %v %v %v", field(fn, "Name"), field(fn, "Type"), at("symbol"), field(fn, "Size"), at("math"),
						field(m, "Advance"), field(m, "Height"), field(m, "Width"), field(m, "XMin"), field(m, "XMax"), field(m, "YMin"), field(m, "YMax"), field(m, "Iceberg"), field(m, "Slanted"))] = true
				case "xhKey":
					if len(k.Elts) == 3 {
						got[fmt.Sprintf("xheight %q %v %v: %v", value(k.Elts[0]), value(k.Elts[1]), value(k.Elts[2]), value(x.Value))] = true
					}
				case "kernKey":
					if fn == nil {
						got["odd entry: "+key] = true
						return false
					}
					got[fmt.Sprintf("kern %q %q %v %q %q: %v", field(fn, "Name"), field(fn, "Type"), field(fn, "Size"), at("s1"), at("s2"), value(x.Value))] = true
				}
				return false
			}
			return true
		})
	}
	for _, k := range sortedKeys(want) {
		if !got[k] {
			return fmt.Sprintf("not in the file, although reported: %s", clip(k))
		}
	}
	for _, k := range sortedKeys(got) {
		if !want[k] {
			return fmt.Sprintf("in the file, although not reported: %s", clip(k))
		}
	}
	if len(want) == 0 {
		return "nothing was asked"
	}
	return ""
}

func ident(e ast.Expr) string {
	switch e := e.(type) {
	case *ast.Ident:
		return e.Name
	case *ast.SelectorExpr:
		return e.Sel.Name
	}
	return ""
}

// value of a literal, as JSON has it.
func value(e ast.Expr) any {
	switch e := e.(type) {
	case *ast.BasicLit:
		if e.Kind == token.STRING {
			s, _ := strconv.Unquote(e.Value)
			return s
		}
		v, _ := strconv.ParseFloat(e.Value, 64)
		return v
	case *ast.UnaryExpr:
		if v, ok := value(e.X).(float64); ok && e.Op == token.SUB {
			return -v
		}
	case *ast.Ident:
		switch e.Name {
		case "true", "false":
			return e.Name == "true"
		}
		return e.Name
	case *ast.KeyValueExpr:
		return fmt.Sprint(ident(e.Key), ":", value(e.Value))
	case *ast.CompositeLit:
		var s []string
		for _, x := range e.Elts {
			s = append(s, fmt.Sprintf("%v", value(x)))
		}
		return strings.Join(s, "\x00")
	}
	return fmt.Sprintf("%T", e)
}

func field(c *ast.CompositeLit, name string) any {
	for _, x := range c.Elts {
		if kv, ok := x.(*ast.KeyValueExpr); ok && ident(kv.Key) == name {
			if l, ok := kv.Value.(*ast.CompositeLit); ok {
				return l
			}
			return value(kv.Value)
		}
	}
	return nil
}

// --- test driver -------------------------------------------------------------

type ciResult struct {
	pass   map[string]bool
	failed *simexec.Record
	flags  []string // of the go test commands
	said   string
	cover  string
	listed bool
}

var packageNames = []string{"", "/cmd", "/cmd/some-tool", "/internal/a.b", "/v2", "/x_y/examples", "/ast", "/test"}

func ciPackages(op *Op) []string {
	var out []string
	for i := 0; i < op.I; i++ {
		if op.X != "" {
			out = append(out, "example.com/m"+packageNames[i])
			continue
		}
		out = append(out, "example.com/m/p"+strconv.Itoa(i))
	}
	return out
}

func profile(pkg string) string {
	return fmt.Sprintf("mode: atomic\n%s/a.go:1.10,5.2 3 1\n%s/a.go:7.1,9.3 1 0\n", pkg, pkg)
}

func runCI(c *octx, op *Op, o *Outcome) {
	d := c.e.disk
	before := len(d.Fired)
	res := &ciResult{pass: map[string]bool{}}
	simexec.History = nil
	pkgs := ciPackages(op)
	simexec.Handler = func(c *simexec.Cmd, stdin []byte) (*simexec.Proc, error) {
		if filepath.Base(c.Path) != "go" || len(c.Args) < 2 {
			return nil, &exec.Error{Name: c.Path, Err: exec.ErrNotFound}
		}
		p := &simexec.Proc{Files: map[string][]byte{}}
		switch c.Args[1] {
		case "list":
			for i, n := range pkgs {
				p.Out = append(p.Out, n+"\n"...)
				if i == 1 {
					p.Out = append(p.Out, "example.com/m/vendor/q\n"...)
				}
			}
		case "test":
			cover := ""
			prof := "mode: atomic\n"
			res.flags = append(res.flags, strings.Join(c.Args[1:], " "))
			for _, a := range c.Args[2:] {
				if f, ok := strings.CutPrefix(a, "-coverprofile="); ok {
					cover = f
				}
			}
			n := 0
			for _, a := range c.Args[2:] {
				if strings.HasPrefix(a, "-") {
					continue
				}
				n++
				i := -1
				for k, name := range pkgs {
					if name == a {
						i = k
					}
				}
				switch {
				case i < 0:
					p.Out = append(p.Out, "no such package: "+a+"\n"...)
					p.Exit = 1
				case op.N&(1<<i) != 0:
					p.Out = append(p.Out, "FAIL\t"+a+"\n"...)
					p.Exit = 1
				default:
					p.Out = append(p.Out, "ok  \t"+a+"\t0.1s\n"...)
				}
				prof += strings.TrimPrefix(profile(a), "mode: atomic\n")
			}
			if n == 0 {
				p.Out, p.Exit = []byte("no Go files\n"), 1
			}
			if cover != "" {
				p.Files[cover] = []byte(prof)
			}
		default:
			return p, nil
		}
		return p, nil
	}
	std := simos.StdWrites
	code, said := c.runProcess(op, "coverage.txt", "run-tests", op.A, runtests.VsimMain)
	res.failed = simexec.Failed()
	for _, r := range simexec.History {
		if r.OK && len(r.Args) > 0 && r.Args[0] == "test" {
			for _, a := range r.Args[1:] {
				res.pass[a] = true
			}
		}
	}
	data, _ := d.Get("coverage.txt")
	res.cover, res.said = string(data), said
	o.Kind, o.Ptr = "ok", res
	o.Info = map[string]int{"exit": code, "fired": len(d.Fired) - before, "said": len(said) + simos.StdWrites - std}
	o.Text = fmt.Sprintf("exit %d, coverage %x", code, hashStr(res.cover))
	if code != 0 {
		o.Text = fmt.Sprintf("exit %d", code)
	}
}

func checkCI(r *Run, refs [][]*Outcome) {
	for j, o := range r.Outs[0] {
		op := r.P.Tasks[0][j]
		what := fmt.Sprintf("run-tests %q, %d packages, failing %b", op.A, op.I, op.N)
		if o.Kind != "ok" {
			r.fail("ci-"+o.Kind, "%s: %s", what, o.key())
			continue
		}
		exit, fired := o.Info["exit"], o.Info["fired"] > 0
		res := o.Ptr.(*ciResult)
		bad := op.N&(1<<op.I-1) != 0
		switch {
		case exit == 0:
			if bad {
				r.fail("silent", "%s: exit status 0 although tests fail", what)
			}
			if f := res.failed; f != nil && len(f.Args) > 0 && (f.Args[0] == "list" || f.Args[0] == "test") {
				r.fail("silent", "%s: exit status 0 although go %q failed (faults: %v)", what, f.Args, r.Env.disk.Fired)
			}
			for _, n := range ciPackages(&op) {
				if !res.pass[n] {
					r.fail("silent", "%s: exit status 0 although the tests of %s have not succeeded (faults: %v)", what, n, r.Env.disk.Fired)
				}
			}
			r.ciFlags(what, op, res)
		case exit > 0 && !fired && !bad:
			r.fail("spurious", "%s: nothing went wrong, exit status %d: %s", what, exit, res.said)
		case exit > 0 && o.Info["said"] == 0:
			r.fail("mute", "%s: exit status %d without a word", what, exit)
		}
		switch {
		case exit == 0 && fired:
			probe("fault harmless")
		case exit == -9:
			probe("killed")
		case fired:
			probe("fault reported")
		case bad:
			probe("failing tests reported")
		case j == 1:
			probe("run again")
		}
	}
}

// ciFlags demands that the tests ran as asked and all coverage was collected.
func (r *Run) ciFlags(what string, op Op, res *ciResult) {
	cover := false
	for _, a := range op.A {
		if a == "-coverpkg=./..." {
			cover = true
		}
		if a == "-v" {
			continue
		}
		for _, f := range res.flags {
			if !strings.Contains(f+" ", " "+a+" ") {
				r.fail("flags", "%s: ran %q", what, f)
			}
		}
	}
	if !cover {
		return
	}
	for _, n := range ciPackages(&op) {
		for _, line := range strings.SplitAfter(profile(n), "\n")[1:3] {
			if k := strings.Count(res.cover, line); k != 1 {
				r.fail("coverage", "%s: exit status 0, and coverage.txt has the profile of %s %d times: %q (faults: %v)", what, n, k, clip(res.cover), r.Env.disk.Fired)
			}
		}
	}
	for _, line := range strings.Split(strings.TrimSpace(res.cover), "\n") {
		if !strings.HasPrefix(line, "mode: ") && !strings.HasPrefix(line, "example.com/m") && line != "" {
			r.fail("coverage", "%s: exit status 0, and coverage.txt holds %q", what, clip(line))
		}
	}
}
