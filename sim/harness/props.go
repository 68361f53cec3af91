package main

import (
	"bytes"
	"errors"
	"fmt"
	"image/png"
	"strings"

	"github.com/go-latex/latex/font/ttf"
	"github.com/go-latex/latex/vsim"
	"golang.org/x/image/font/sfnt"
)

// property is one property: which executions to sample and what must hold.
type property struct {
	id       string
	gen      func(r *Rng, p *Plan)
	before   func(*Run)
	stirs    bool                   // looks for what depends on addresses
	around   func(r *Run, f func()) // watches the execution
	noref    bool                   // calls are not compared with the same calls made alone
	check    func(r *Run, refs [][]*Outcome)
	race     int // percentage of the runs made with the race detector
	quick    int // number of runs
	thorough int
	rule     string
}

var props = map[string]*property{}

func register(p *property) { props[p.id] = p }

// makePlan derives run number i of a check from the seed.
func makePlan(prop *property, seed uint64, i int) *Plan {
	s := newRng(seed, hashStr(prop.id), uint64(i)).u64()
	p := &Plan{Prop: prop.id, Seed: s}
	prop.gen(newRng(s), p)
	return p
}

// --- schedules -------------------------------------------------------------

// siteGroup is the scheduling points of one function.
type siteGroup struct {
	name  string
	sites []int
}

var (
	groups  []siteGroup // functions the warm-up reached
	globals []int       // statements that use package-level state
)

// schedule picks how the callers of p are interleaved.
func schedule(r *Rng, p *Plan) {
	c := &p.Cfg
	c.Seed = r.u64()
	c.Clock = baseClock
	c.PoolMode = r.n(3)
	c.Lag = r.lag(10)
	c.SeamPct = pickOf(r, 0, 30, 100)
	c.HotPct = pickOf(r, 5, 25, 100)
	switch r.n(6) {
	case 0: // statements that use package-level state
		c.Hot = append(c.Hot, globals...)
		c.HotPct = pickOf(r, 25, 100)
		c.Gap = pickOf[uint64](r, 0, 3000)
	case 1, 2: // a few functions
		for k := r.in(1, 3); k > 0 && len(groups) > 0; k-- {
			c.Hot = append(c.Hot, groups[r.n(len(groups))].sites...)
		}
		c.Gap = pickOf[uint64](r, 0, 3000)
	default:
		c.Gap = pickOf[uint64](r, 30, 300, 3000, 20000)
	}
}

// press has many callers get on together rather than one after the other.
func (r *Rng) press(p *Plan) {
	if r.pct(60) {
		p.Cfg.Gap = pickOf[uint64](r, 10, 30, 100)
	}
}

// quiet schedules callers one after the other, changing over at seams only.
func quiet(r *Rng, p *Plan) {
	p.Cfg = vsim.Config{Seed: r.u64(), Clock: baseClock, PoolMode: r.n(3)}
	if len(p.Tasks) == 1 && r.pct(30) { // should the library start goroutines
		p.Cfg.Gap = pickOf[uint64](r, 30, 300, 3000)
		p.Cfg.SeamPct = pickOf(r, 0, 30, 100)
	}
	p.Cfg.Lag = r.lag(6)
}

// lag is how long a statement takes, on a machine that is slow or busy.
func (r *Rng) lag(pct int) int64 {
	if !r.pct(pct) {
		return 0
	}
	return pickOf[int64](r, 1e3, 1e6, 1e8)
}

func (r *Rng) fonts() string { return pickOf(r, "", "", "lm", "lib") }

func (r *Rng) ioFonts() string { return pickOf(r, "io", "iok", "iol") }

func (r *Rng) dims(op Op) Op {
	op.Size = pickOf(r, 12.0, 12, 12, 10, 7.5, 20, 12.004, 9.96, 5, 36)
	op.DPI = pickOf(r, 72.0, 72, 72, 96, 150, 72.5, 100, 300)
	return op
}

// typeset is an operation of the typesetting half of the library.
func (r *Rng) typeset(x string) Op {
	if r.pct(8) { // boxes the caller builds itself
		return r.boxes(4)
	}
	return r.dims(Op{K: pickOf(r, "render", "render", "mparse", "ship", "png"), X: x, F: r.fonts(), W: r.writer()})
}

func (r *Rng) syntax(x string) Op {
	return Op{K: pickOf(r, "parse", "parse", "print", "walk", "inspect"), X: x, W: r.writer()}
}

// exprs is a small pool of expressions: callers often use the same ones.
func (r *Rng) exprs(n int, f func() string) []string {
	var out []string
	for i := 0; i < n; i++ {
		if i > 0 && r.pct(30) {
			out = append(out, r.akin(pickOf(r, out...)))
			continue
		}
		out = append(out, f())
	}
	if r.pct(15) {
		out = append(out, r.akin(pickOf(r, out...)))
	}
	return out
}

// akin is an expression that is nearly x: what is kept for the one must not be
// taken for the other.
func (r *Rng) akin(x string) string {
	at := func(ok func(c byte) bool) int {
		var l []int
		for i := 0; i < len(x); i++ {
			if ok(x[i]) {
				l = append(l, i)
			}
		}
		if len(l) == 0 {
			return -1
		}
		return l[r.n(len(l))]
	}
	isLetter := func(c byte) bool { return c|0x20 >= 'a' && c|0x20 <= 'z' }
	isDigit := func(c byte) bool { return c >= '0' && c <= '9' }
	put := func(i int, c byte) string {
		if i < 0 {
			return x + " "
		}
		return x[:i] + string([]byte{c}) + x[i+1:]
	}
	switch r.n(13) {
	case 0:
		return " " + x
	case 1:
		return x + pickOf(r, " ", "\n", "\t", "\x00", "{}", "% c", "$$")
	case 2:
		return strings.TrimSpace(x)
	case 3: // a space more
		i := r.n(len(x) + 1)
		return x[:i] + pickOf(r, " ", " ", "{}", "  ") + x[i:]
	case 4: // a space less
		if i := at(func(c byte) bool { return c == ' ' }); i >= 0 {
			return x[:i] + x[i+1:]
		}
		return x + " "
	case 5: // another case
		if i := at(isLetter); i >= 0 {
			return put(i, x[i]^0x20)
		}
		return strings.ToUpper(x)
	case 6: // another letter
		return put(at(isLetter), "abcxyzABW"[r.n(9)])
	case 7: // another number
		return put(at(isDigit), '0'+byte(r.n(10)))
	case 8: // the same but for the end
		if len(x) > 0 {
			return x[:len(x)-1]
		}
		return x + "x"
	case 9: // the same but for the beginning
		if len(x) > 0 {
			return x[1:]
		}
		return "x"
	case 10:
		return x + x
	case 11: // the same bytes in another order
		if len(x) > 1 {
			i := r.n(len(x) - 1)
			return x[:i] + string([]byte{x[i+1], x[i]}) + x[i+2:]
		}
		return x + " "
	default: // another macro, or word, that begins or ends the same
		i := at(isLetter)
		if i < 0 {
			return x + "x"
		}
		j := i
		for j < len(x) && isLetter(x[j]) {
			j++
		}
		return x[:j] + pickOf(r, "s", "x", "'", "1") + x[j:]
	}
}

func (r *Rng) fault(where string, n int, kinds ...string) *Fault {
	f := &Fault{Where: where, At: r.in(1, n), Kind: pickOf(r, kinds...)}
	if f.Kind == "err" {
		f.Err = pickOf(r, "", "ENOSPC", "EPIPE", "EIO", "closed", "eof", "EOF", "EAGAIN", "EINTR", "timeout", "canceled", "short", "noprogress", "path", "own")
		f.Short = pickOf(r, 0, 0, 1, 7, 100)
		f.Stick = r.pct(60)
	}
	return f
}

// everyStrict demands each call did what it does on its own, and that kept
// results stayed as they were.
func everyStrict(r *Run, refs [][]*Outcome) {
	for i := range r.Outs {
		for j := range r.Outs[i] {
			r.strict(i, j, refs[i][j])
		}
	}
	keptAll(r)
}

func keptAll(r *Run) {
	for j := range r.Setup {
		r.kept(-1, j)
	}
	for i := range r.Outs {
		for j := range r.Outs[i] {
			r.kept(i, j)
		}
	}
}

func init() {
	register(&property{
		id: "C01", race: 35, quick: 24000, thorough: 450000,
		rule: "2-4 simulated callers make 1-3 parse/print/walk calls each on the same or different expressions; a random scheduler preempts them at statements of the library",
		gen: func(r *Rng, p *Plan) {
			if r.pct(1) && r.pct(40) { // expressions that take all there is, or more
				for i := r.in(2, 3); i > 0; i-- {
					p.Tasks = append(p.Tasks, []Op{nested(edge() * r.in(40, 102) / 100)})
				}
				schedule(r, p)
				return
			}
			if r.pct(2) { // a crowd
				xs := r.exprs(r.in(1, 3), func() string { return r.any(2) })
				for i := r.in(6, pickOf(r, 24, 24, 80)); i > 0; i-- {
					p.Tasks = append(p.Tasks, []Op{r.syntax(pickOf(r, xs...))})
				}
				schedule(r, p)
				r.press(p)
				return
			}
			xs := r.exprs(r.in(1, 3), func() string { return r.any(5) })
			for i := r.in(2, 4); i > 0; i-- {
				var ops []Op
				for j := r.in(1, 3); j > 0; j-- {
					ops = append(ops, r.syntax(pickOf(r, xs...)))
				}
				p.Tasks = append(p.Tasks, ops)
			}
			schedule(r, p)
		},
		check: everyStrict,
	})

	register(&property{
		id: "C02", race: 35, quick: 6500, thorough: 130000,
		rule: "2-4 simulated callers typeset, ship, render and draw PNGs of the same or different expressions with shared font collections, preempted at statements of the library and at their own renderers, writers and backends",
		gen: func(r *Rng, p *Plan) {
			if r.pct(2) { // a crowd
				xs := r.exprs(r.in(1, 3), func() string { return r.expr(1, false) })
				for i := r.in(6, pickOf(r, 20, 20, 60)); i > 0; i-- {
					p.Tasks = append(p.Tasks, []Op{r.typeset(pickOf(r, xs...))})
				}
				schedule(r, p)
				r.press(p)
				return
			}
			xs := r.exprs(r.in(1, 3), func() string { return r.any(4) })
			f := r.fonts()
			same := r.pct(60)
			for i := r.in(2, 4); i > 0; i-- {
				var ops []Op
				for j := r.in(1, 2); j > 0; j-- {
					op := r.typeset(pickOf(r, xs...))
					if same {
						op.F = f
					}
					ops = append(ops, op)
				}
				p.Tasks = append(p.Tasks, ops)
			}
			schedule(r, p)
		},
		check: everyStrict,
	})

	register(&property{
		id: "C03", race: 50, quick: 30000, thorough: 750000,
		rule: "2-5 simulated callers ask a freshly started process for its font collections at the same time, some of them render with the collection at once",
		gen: func(r *Rng, p *Plan) {
			f := pickOf(r, "lm", "lib")
			for i := r.in(2, 5); i > 0; i-- {
				var ops []Op
				for j := r.in(1, 2); j > 0; j-- {
					g := f
					if r.pct(25) {
						g = pickOf(r, "lm", "lib", "")
					}
					ops = append(ops, Op{K: "fonts", F: g})
				}
				if r.pct(40) {
					ops = append(ops, Op{K: pickOf(r, "render", "backend"), X: pickOf(r, `$x$`, `a-b`, `$\frac{1}{2}$`), F: f,
						Q: []Query{{K: "metrics", Sym: "A", Name: "default", Type: pickOf(r, "rm", "it", "bf", "default"), Size: 12, DPI: 72, Math: true}}})
				}
				p.Tasks = append(p.Tasks, ops)
			}
			schedule(r, p)
			if r.pct(50) { // the statements that use package-level state matter most here
				p.Cfg.Hot, p.Cfg.HotPct = globals, 50
			}
		},
		check: func(r *Run, refs [][]*Outcome) {
			everyStrict(r, refs)
			first := map[string]*ttf.Fonts{}
			for i, outs := range r.Outs {
				for j, o := range outs {
					op := r.P.Tasks[i][j]
					if op.K != "fonts" || o.Kind != "ok" {
						continue
					}
					f, _ := o.Ptr.(*ttf.Fonts)
					if f == nil {
						continue
					}
					checkFaces(r, op.F, f)
					g, ok := first[op.F]
					if !ok {
						first[op.F] = f
						continue
					}
					if *f != *g {
						r.fail("another-collection", "collection %s: caller %d got faces that are not the ones an earlier caller got", op.F, i)
					}
				}
			}
		},
	})

	register(&property{
		id: "C04", race: 50, quick: 3500, thorough: 65000,
		rule: "one parsed tree, one typeset box, one finished drawing and the symbol tables are read by 2-5 simulated callers at once: printed, walked, inspected, measured and drawn to PNG",
		gen: func(r *Rng, p *Plan) {
			x := r.expr(5, true)
			y := r.expr(4, false)
			f := r.fonts()
			p.Setup = []Op{
				{K: "parse", X: x},
				{K: "render", X: y, F: f},
				{K: "mparse", X: y, F: f},
			}
			if r.pct(60) { // the readers are the first to look at them
				for i := range p.Setup {
					p.Setup[i].Raw = true
				}
			} else if r.pct(40) {
				p.Setup[2] = r.boxes(3)
			}
			for i := r.in(2, 5); i > 0; i-- {
				var ops []Op
				for j := r.in(1, 4); j > 0; j-- {
					switch r.n(10) {
					case 0, 1:
						ops = append(ops, Op{K: "sprint", I: 0})
					case 2:
						ops = append(ops, Op{K: "swalk", I: 0, N: r.n(6)})
					case 3:
						ops = append(ops, Op{K: "sinspect", I: 0, N: r.n(6)})
					case 4:
						ops = append(ops, Op{K: "spos", I: 0})
					case 5, 6:
						ops = append(ops, Op{K: "spng", I: 1, DPI: pickOf(r, 72.0, 96)})
					case 7:
						ops = append(ops, Op{K: "sops", I: 1})
					case 8:
						ops = append(ops, Op{K: "sbox", I: 2})
					case 9:
						ops = append(ops, pickOf(r, Op{K: "tables", X: pickOf(r, `+`, `\leq`, `.`, `a`)}, Op{K: "index", X: pickOf(r, `\alpha`, `-`, `a`), N: 1}))
					}
				}
				p.Tasks = append(p.Tasks, ops)
			}
			schedule(r, p)
		},
		check: func(r *Run, refs [][]*Outcome) {
			for _, s := range r.Setup {
				if s.Kind != "ok" {
					// nothing to share: the readers fail the same way alone.
					return
				}
			}
			everyStrict(r, refs)
		},
	})

	register(&property{
		id: "C05", race: 0, quick: 24000, thorough: 450000,
		rule: "a caller makes 3-7, sometimes up to 600, calls in one process - accepted and rejected inputs, calls cut short by a failing, panicking or exiting sink, renderer, visitor, backend or font storage - and each fault-free call has to do what it does first thing in a fresh process",
		gen: func(r *Rng, p *Plan) {
			xs := r.exprs(r.in(1, 4), func() string { return r.any(4) })
			io := r.ioFonts() // one collection for all calls of a caller
			one := func() Op {
				x := pickOf(r, xs...)
				var op Op
				switch r.n(8) {
				case 0, 1, 2:
					op = r.syntax(x)
				case 3, 4, 5, 6:
					op = r.typeset(x)
					if r.pct(12) {
						op.F, op.Sh = io, true
					}
				case 7:
					op = Op{K: "tables", X: "+"}
				}
				return op
			}
			hurt := func(op Op) Op {
				kinds := []string{"err", "panic", "panic"}
				switch op.K {
				case "print":
					op.Fault = r.fault("write", 6, kinds...)
				case "walk", "inspect":
					op.Fault = r.fault("visit", 8, "panic")
				case "render":
					op.Fault = r.fault("render", 1, kinds...)
					if r.pct(40) {
						op.F = io
						op.Sh = true
						op.Fault = r.fault("font", 200, "err")
					}
				case "png":
					op.Fault = r.fault("write", 4, kinds...)
				case "mparse", "ship", "boxes":
					op.Fault = r.fault(pickOf(r, "backend", "backend", "draw"), 25, "panic")
				}
				return op
			}
			if r.pct(1) && r.pct(30) { // as deep as possible, after what is too deep
				var ops []Op
				for j := r.in(1, 5); j > 0; j-- {
					ops = append(ops, nested(edge()+r.in(1, 300)))
				}
				p.Tasks = [][]Op{append(ops, nested(edge()-r.n(2)))}
				quiet(r, p)
				return
			}
			if r.pct(6) { // a long history, made of a few calls
				xs = r.exprs(r.in(2, 5), func() string { return r.any(2) })
				var pool []Op
				for j := r.in(3, 8); j > 0; j-- {
					op := one()
					if op.K == "png" {
						op.K = "ship"
					}
					if r.pct(50) {
						op = hurt(op)
					}
					pool = append(pool, op)
				}
				var ops []Op
				n := r.in(20, 80)
				if r.pct(5) {
					n = r.in(257, 600)
				}
				many := r.pct(8) // different ones, mostly
				if many {
					n = r.in(80, 600)
				}
				for ; n > 0; n-- {
					op := pickOf(r, pool...)
					if many && n > 10 {
						if r.pct(60) {
							op = r.syntax("")
							op.X = fmt.Sprintf(pickOf(r, "$x_{%d}$", "%d", "a %d", `\alpha %d`), r.n(100000))
						} else if op.K != "boxes" && op.K != "tables" {
							op.X = r.akin(op.X)
						}
					}
					ops = append(ops, op)
				}
				p.Tasks = append(p.Tasks, append(ops, one()))
				quiet(r, p)
				return
			}
			for t := pickOf(r, 1, 1, 1, 2); t > 0; t-- {
				var ops []Op
				for j := r.in(2, 5); j > 0; j-- {
					op := one()
					if r.pct(40) {
						op = hurt(op)
					}
					ops = append(ops, op)
				}
				ops = append(ops, one())
				p.Tasks = append(p.Tasks, ops)
			}
			if r.pct(30) { // a caller whose thread ends inside its own callback
				op := hurt(one())
				if op.Fault != nil {
					op.Fault.Kind = "goexit"
				}
				p.Tasks = append([][]Op{{op}}, p.Tasks...)
			}
			quiet(r, p)
			if r.pct(50) {
				p.Cfg.Gap = 5000
			}
		},
		check: func(r *Run, refs [][]*Outcome) {
			for i := range r.Outs {
				for j := range r.Outs[i] {
					if r.P.Tasks[i][j].Fault == nil {
						r.strict(i, j, refs[i][j])
					}
				}
			}
			keptAll(r)
		},
	})

	register(&property{
		id: "C06", race: 30, quick: 13000, thorough: 225000,
		rule: "1-3 simulated callers keep the trees, boxes, drawings and tables they got, or overwrite them, while further calls are made; kept results are compared with what they were",
		gen: func(r *Rng, p *Plan) {
			xs := r.exprs(r.in(1, 2), func() string {
				if r.pct(20) {
					return r.any(4)
				}
				return r.expr(4, r.pct(40))
			})
			tasks, calls := r.in(1, 3), 4
			if r.pct(2) { // much more follows
				tasks, calls = 1, pickOf(r, 20, 60, 200)
				for i := range xs {
					xs[i] = r.expr(2, false)
				}
			}
			for t := tasks; t > 0; t-- {
				var ops []Op
				for j := r.in(2, calls); j > 0; j-- {
					x := pickOf(r, xs...)
					switch r.n(7) {
					case 0, 1, 2:
						ops = append(ops, Op{K: "parse", X: x, S: r.pct(50)})
					case 3, 4:
						ops = append(ops, r.dims(Op{K: "render", X: x, F: r.fonts(), S: r.pct(40)}))
					case 5:
						ops = append(ops, r.dims(Op{K: pickOf(r, "mparse", "ship"), X: x, F: r.fonts()}))
					case 6:
						ops = append(ops, pickOf(r, Op{K: "tables", X: "+", S: r.pct(60)}, r.boxes(4)))
					}
				}
				p.Tasks = append(p.Tasks, ops)
			}
			schedule(r, p)
		},
		check: everyStrict,
	})

	register(&property{
		id: "C07", race: 0, quick: 60000, thorough: 1500000,
		rule: "the same calls with every map of the library iterated in another order, pools evicted, readers fragmented to single bytes, another clock and another start of the process",
		gen: func(r *Rng, p *Plan) {
			var ops []Op
			for j := r.in(1, 3); j > 0; j-- {
				x := r.any(5)
				switch r.n(7) {
				case 6:
					op := r.questions(6)
					if onDemand(op.F) {
						op.F = ""
					}
					ops = append(ops, op)
				case 0, 1, 2:
					ops = append(ops, r.typeset(x))
				case 3, 4:
					ops = append(ops, r.syntax(x))
				case 5:
					ops = append(ops, pickOf(r, Op{K: "tables", X: "+"}, Op{K: "fonts", F: r.fonts()}, Op{K: "pdf", X: x, F: r.fonts(), A: []string{"out.pdf"}}))
				}
			}
			p.Tasks = [][]Op{ops}
			quiet(r, p)
			c := &p.Cfg
			c.MapMode = r.in(1, 2)
			c.MapSeed = r.u64()
			c.ReadMode = r.n(3)
			c.ReadSeed = r.u64()
			if r.pct(60) {
				c.Ambient = r.u64()
			}
			if r.pct(4) {
				p.Stir = r.u64()
			}
			if r.pct(50) {
				c.Clock = pickOf[int64](r, 1, -86400e9, 4102444800e9, 951782400e9, baseClock+1)
				c.ClockStep = pickOf[int64](r, 0, 1, -1e9, 3600e9, 86400e9*365)
				c.Lag = r.lag(40)
			}
		},
		stirs: true,
		before: func(r *Run) {
			if r.P.Stir != 0 {
				stir(r.P.Stir)
			}
			// the process starts with the maps in that order, too.
			vsim.Boot(r.P.Cfg)
		},
		check: func(r *Run, refs [][]*Outcome) {
			for i := range r.Outs {
				for j := range r.Outs[i] {
					if o := r.Outs[i][j]; o.Addr {
						r.fail("address", "%s: the message names an address in memory, which is another one each time: %s", opName(r.P.Tasks[i][j]), o.Text)
					}
					if r.P.Tasks[i][j].K == "pdf" {
						// a PDF says when it was made.
						o, ref := r.Outs[i][j], refs[i][j]
						if o.Kind != ref.Kind {
							r.fail("differs-pdf", "%s: %s, want %s", opName(r.P.Tasks[i][j]), o.key(), ref.key())
						}
						if a, b := noDate(o.Data), noDate(ref.Data); !bytes.Equal(a, b) {
							r.fail("differs-pdf", "%s: file differs: %s", opName(r.P.Tasks[i][j]), diff(string(a), string(b)))
						}
						continue
					}
					r.strict(i, j, refs[i][j])
				}
			}
		},
	})

	register(&property{
		id: "C08", race: 0, quick: 70000, thorough: 1500000,
		rule: "3-14 questions to one font backend in random order over few symbols, sizes and modes, sometimes hundreds over many and whole expressions typeset in between, font storage failing at random reads; each answer is compared with a backend that was asked nothing else",
		gen: func(r *Rng, p *Plan) {
			op := r.questions(14)
			if r.pct(2) {
				op = r.questionnaire()
			}
			if onDemand(op.F) && r.pct(70) {
				op.Fault = &Fault{Where: "font", At: r.in(1, 120), Kind: pickOf(r, "err", "err", "corrupt"), Err: "EIO", Stick: r.pct(30), Short: pickOf(r, 0, 0, 1, 4)}
				if op.Fault.Kind == "corrupt" {
					op.Fault.Kind = "err"
				}
			}
			switch k := r.n(100); {
			case k < 20: // two backends of one collection
				for i := range op.Q {
					op.Q[i].B = r.n(2)
				}
			case k < 40: // and one of another collection
				op.A = []string{pickOf(r, "", "lm", "lib")}
				for i := range op.Q {
					op.Q[i].B = pickOf(r, 0, 1, 2, 2)
				}
			}
			p.Tasks = [][]Op{{op}}
			quiet(r, p)
		},
		check: checkBackend,
	})

	register(&property{
		id: "C09", race: 0, quick: 16000, thorough: 325000,
		rule: "an expression is drawn as PNG into a writer that fails, is full, panics or ends its thread at a random write; then the same renderer is used again",
		gen: func(r *Rng, p *Plan) {
			x := r.expr(5, false)
			op := r.dims(Op{K: pickOf(r, "png", "png", "png2"), X: x, F: r.fonts(), W: r.writer()})
			if r.pct(30) { // more pixels, more writes
				op.DPI = pickOf(r, 300.0, 600)
			}
			if r.pct(1) { // and more in each
				op.X = r.expr(3, false)
				op.DPI = pickOf(r, 900.0, 1200)
				op.Size = pickOf(r, 12.0, 24)
			}
			if op.K == "png2" {
				op.I = r.in(1, 2)
			}
			switch {
			case op.K == "png" && r.pct(25):
				op.N = r.in(1, 4000)
			case r.pct(90):
				op.Fault = r.fault("write", pickOf(r, 4, 8, 14), "err", "err", "err", "panic", "goexit")
				if op.K == "png2" && op.Fault.Kind == "goexit" {
					op.Fault.Kind = "panic"
				}
			}
			p.Tasks = [][]Op{{op}}
			if r.pct(30) { // somebody else draws at the same time
				p.Tasks = append(p.Tasks, []Op{r.dims(Op{K: "png", X: pickOf(r, x, r.expr(3, false)), F: op.F})})
			}
			schedule(r, p)
		},
		check: checkPNG,
	})

	register(&property{
		id: "C10", race: 0, quick: 50000, thorough: 900000,
		rule: "a caller's renderer fails, panics, ends its thread or renders another expression from inside its callback; rejected and accepted expressions; then the call is made again",
		gen: func(r *Rng, p *Plan) {
			var ops []Op
			x := r.any(4)
			op := r.dims(Op{K: "render", X: x, F: r.fonts()})
			switch r.n(6) {
			case 0, 1, 2:
				op.Fault = r.fault("render", 1, "err", "err", "panic")
			case 3, 4:
				op.Fault = &Fault{Where: "render", At: 1, Kind: "nest"}
				n := r.typeset(pickOf(r, x, r.any(3)))
				if r.pct(30) {
					n = r.syntax(pickOf(r, x, r.any(3)))
				}
				if r.pct(5) { // and so on
					for k := r.in(2, 40); k > 0; k-- {
						inner := n
						n = r.dims(Op{K: "render", X: pickOf(r, "x", "$x+y$", `$\frac{a}{b}$`), F: op.F, Nest: &inner})
						n.Fault = &Fault{Where: "render", At: 1, Kind: "nest"}
					}
					op.X = pickOf(r, "a+b", `$\sqrt{x}$`, r.expr(2, false))
				}
				op.Nest = &n
			}
			ops = append(ops, op)
			if r.pct(70) {
				again := op.bare()
				ops = append(ops, again)
			}
			p.Tasks = [][]Op{ops}
			if r.pct(15) {
				g := op
				g.Nest = nil
				g.Fault = &Fault{Where: "render", At: 1, Kind: "goexit"}
				p.Tasks = append([][]Op{{g}}, p.Tasks...)
			}
			schedule(r, p)
		},
		check: checkRenderer,
	})

	register(&property{
		id: "C11", race: 0, quick: 60000, thorough: 1500000,
		rule: "a drawing is exported as PDF to a simulated disk that fails to open, write or close, fills up, or loses buffered bytes at close, sometimes over an existing file",
		gen: func(r *Rng, p *Plan) {
			op := r.dims(Op{K: "pdf", X: r.expr(4, false), F: r.fonts(), A: []string{pickOf(r, "out.pdf", "/w/a.pdf", "/tmp/b.pdf", "/nodir/x.pdf")}})
			op.Disk = r.disk()
			p.Tasks = [][]Op{{op}}
			if r.pct(40) { // once more, nothing goes wrong
				p.Tasks[0] = append(p.Tasks[0], Op{K: "pdf", X: op.X, F: op.F, Size: op.Size, DPI: op.DPI, A: []string{pickOf(r, "again.pdf", op.A[0])}})
			}
			quiet(r, p)
			p.Cfg.Clock = pickOf[int64](r, baseClock, 1, 4102444800e9)
			p.Cfg.ClockStep = pickOf[int64](r, 0, 1e9, -3600e9)
		},
		check: checkPDF,
	})

	register(&property{
		id: "C13", race: 0, quick: 120000, thorough: 3000000,
		rule: "shipping a typeset box is interrupted by a panic of the caller's backend at a random glyph or rule, then done again with the same or a new Ship at the same or another place",
		gen: func(r *Rng, p *Plan) {
			op := Op{K: "reship", X: r.expr(5, false), F: r.fonts(), I: r.n(15), N: r.n(4)}
			if r.pct(35) {
				op.X, op.B = "", r.boxes(1).B
			}
			op = r.dims(op)
			if r.pct(80) {
				op.Fault = r.fault("draw", pickOf(r, 2, 6, 14), "panic")
			}
			p.Tasks = [][]Op{{op}}
			quiet(r, p)
		},
		check: checkReship,
	})

	register(&property{
		id: "C14", race: 0, quick: 150000, thorough: 4000000, noref: true,
		rule: "inputs cut off, with bytes lost, flipped, duplicated or inserted, or nested up to 40 deep, delivered in fragments; every call has to come back within a number of statements proportional to the length of the input times how deep it is nested",
		gen: func(r *Rng, p *Plan) {
			x := r.bad(pickOf(r, 3, 6, 12))
			if r.pct(20) {
				x += strings.Repeat(pickOf(r, `{`, `$`, `\sqrt{`, `}`, `\frac`, `[`, `x^`, ` `, `%`, "\\", `"`, "'", "`", "/*", "//"), r.in(1, 40))
				if r.pct(50) {
					x += r.expr(3, true)
				}
			}
			op := Op{K: pickOf(r, "parse", "print", "walk", "inspect", "mparse", "render"), X: x}
			if r.pct(25) {
				op.X = r.deep(r.in(3, 40), r.pct(40))
				if r.pct(30) {
					op.X = op.X[:r.in(1, len(op.X))]
				}
			}
			if r.pct(6) { // numbers out of all proportion
				n := pickOf(r, "1000000", "99999999999999999999", "1e9", "1e400", "-1e9", "0.000000001", "2147483648", "1e-400", "0x7fffffffffffffff", strings.Repeat("9", r.in(20, 400)), "1"+strings.Repeat("0", r.in(3, 30)))
				op.X = "$" + strings.ReplaceAll(pickOf(r, `\hspace{@}`, `x\hspace{@}y`, `\sqrt[@]{x}`, `@`, `x^@`, `x_{@}`, `\frac{@}{@}`, `\binom{@}{2}`, `\sqrt{@}`, `\hspace{@ }\hspace{@}`, `-@`), "@", n) + "$"
				if r.pct(30) {
					op.X += r.expr(3, true)
				}
			}
			if r.pct(6) && (op.K == "mparse" || op.K == "render") {
				op.Size = pickOf(r, 1e-3, 1e6, -12.0, 1e12, 1e-300, 1e300, 4000)
				op.DPI = pickOf(r, 72.0, 72, 1e9, -72, 1e-9)
			}
			if r.pct(1) {
				unit := pickOf(r, `$\sqrt{`, `\sqrt{`, `{`, `\frac{`, `x^{`, `$`, `[`, `\sqrt[`, `\overline{x`, `(`, `\hat`, `\sqrt`, `x_`, `x^`, `\frac`, `-`, `x`, `1`, `\`, ` `, `%`, `\a`, `{}`, `$x$`, "\n", `}`)
				op = Op{K: "deep", X: unit, N: pickOf(r, 5_000, 20_000, 400_000)}
			} else if r.pct(2) {
				op = r.longer()
			}
			p.Tasks = [][]Op{{op}}
			quiet(r, p)
			p.Cfg.ReadMode = r.n(3)
			p.Cfg.ReadSeed = r.u64()
		},
		check: checkProgress,
	})

	register(&property{
		id: "C15", race: 0, quick: 100000, thorough: 2000000,
		rule: "trees of random expressions are walked and inspected by visitors that decline to descend at a random node, panic, end their thread, or start another traversal from inside",
		gen: func(r *Rng, p *Plan) {
			x := r.tree(6)
			switch r.n(5) {
			case 0:
				x = r.bad(5)
			case 1:
				x += pickOf(r, `$x^ y$`, `$x_ 2$`, `$a^{ }$`, "$x^%c\n$", `$x_{}$`, `\sqrt[]{}`, `${}$`, `$$`, `{}`)
			}
			p.Setup = []Op{{K: "parse", X: x, Raw: r.pct(50)}}
			for t := pickOf(r, 1, 1, 2); t > 0; t-- {
				var ops []Op
				for j := r.in(1, 3); j > 0; j-- {
					op := Op{K: pickOf(r, "swalk", "sinspect"), I: 0}
					if r.pct(60) {
						op.N = r.in(1, 14)
					}
					switch r.n(6) {
					case 0, 1:
						op.Fault = &Fault{Where: "visit", At: r.in(1, pickOf(r, 20, 20, 20, 150)), Kind: "panic"}
					case 2:
						op.Fault = &Fault{Where: "visit", At: r.in(1, 20), Kind: "nest"}
						op.Nest = &Op{K: pickOf(r, "swalk", "sinspect", "sprint", "spos"), I: 0, N: r.n(4)}
						if r.pct(6) { // and so on
							for k := r.in(2, 40); k > 0; k-- {
								op.Nest = &Op{K: pickOf(r, "swalk", "sinspect"), I: 0, N: r.n(4), Nest: op.Nest,
									Fault: &Fault{Where: "visit", At: r.in(1, 3), Kind: "nest"}}
							}
						}
					}
					ops = append(ops, op)
				}
				p.Tasks = append(p.Tasks, ops)
			}
			schedule(r, p)
		},
		check: checkWalk,
	})

	register(&property{
		id: "C16", race: 0, quick: 80000, thorough: 1600000,
		rule: "a tree is printed to a writer that fails for good at a random write, is full, panics or ends its thread; then it is printed again",
		gen: func(r *Rng, p *Plan) {
			x := r.tree(6)
			if r.pct(15) {
				x += pickOf(r, `$x^ y$`, `$x_ 2$`, `$a^{ }$`, `\sqrt[]{}`, `${}$`, `$$`)
			}
			p.Setup = []Op{{K: "parse", X: x, Raw: r.pct(50)}}
			op := Op{K: "sprint", I: 0, W: r.writer()}
			switch r.n(5) {
			case 0:
				op.N = r.in(1, 60)
			case 1:
				op.Fault = r.fault("write", 30, "panic")
			default:
				op.Fault = r.fault("write", 30, "err")
				op.Fault.Stick = true
			}
			ops := []Op{op, {K: "sprint", I: 0}, {K: "spos", I: 0}, {K: "swalk", I: 0}}
			p.Tasks = [][]Op{ops}
			if r.pct(15) && op.Fault != nil {
				g := op
				f := *op.Fault
				f.Kind = "goexit"
				g.Fault = &f
				p.Tasks = append(p.Tasks, []Op{g})
			}
			schedule(r, p)
		},
		check: checkPrint,
	})

	register(&property{
		id: "C17", race: 0, quick: 45000, thorough: 800000,
		rule: "fonts whose glyphs are read from storage on demand; storage fails once or for good at a random read while an expression is typeset, rendered and drawn; then everything is done again with healthy storage",
		gen: func(r *Rng, p *Plan) {
			x := r.expr(3, false)
			k := pickOf(r, "render", "png", "png", "ship")
			op := Op{K: k, X: x, F: r.ioFonts()}
			max := 400
			if k == "png" {
				max = 1500
			}
			if r.pct(50) {
				max /= 8
			}
			op.Fault = &Fault{Where: "font", At: r.in(1, max), Kind: "err", Err: pickOf(r, "EIO", "", "eof", "closed", "EOF", "short", "own", "timeout"), Stick: r.pct(40), Short: pickOf(r, 0, 0, 1, 4)}
			op.Sh = r.pct(50)
			again := op.bare()
			if r.pct(20) {
				again.K = pickOf(r, "render", "png", "ship", "mparse")
			}
			p.Tasks = [][]Op{{op, again}}
			if r.pct(8) { // it fails time and again
				for k := pickOf(r, 2, 4, 8, 20); k > 0; k-- {
					more := op
					f := *op.Fault
					f.At = r.in(1, max)
					more.Fault = &f
					p.Tasks[0] = append([]Op{more}, p.Tasks[0]...)
				}
			}
			quiet(r, p)
			if r.pct(15) { // somebody else, whose storage is fine
				other := op.bare()
				other.Sh = false
				if r.pct(50) {
					other.X = r.expr(3, false)
				}
				p.Tasks = append(p.Tasks, []Op{other})
				schedule(r, p)
			}
		},
		check: func(r *Run, refs [][]*Outcome) {
			for i := 1; i < len(r.Outs); i++ {
				probe("healthy caller beside")
				for j := range r.Outs[i] {
					r.strict(i, j, refs[i][j])
				}
			}
			for j, o := range r.Outs[0] {
				op, ref := r.P.Tasks[0][j], refs[0][j]
				switch {
				case op.Fault == nil:
					r.strict(0, j, ref)
					if j > 1 {
						probe("healthy after many failures")
					}
				case o.Kind == "hung" && ref.Kind != "hung":
					r.fail("hung", "%s: %s", opName(op), o.Text)
				case o.Kind == "ok" && len(o.C.fired) > 0:
					probe("font fault tolerated")
					if o.key() != ref.key() {
						r.fail("silent", "%s: font storage failed and the call reported success with another result: %s", opName(op), diff(o.key(), ref.key()))
					}
				case o.Kind == "ok" || len(o.C.fired) == 0:
					r.strict(0, j, ref)
				default:
					probe("font fault reported as " + o.Kind)
					if ref.Kind == "ok" && op.K == "png" && o.Obj != nil {
						probe("png " + o.Kind)
					}
				}
			}
		},
	})

	register(&property{
		id: "C18", race: 15, quick: 12000, thorough: 250000,
		rule: "one of 2-4 simulated callers, or all but one of up to 36, stalls inside its own writer, renderer, backend, font files or visitor until nobody else can go on, or calls the library again from there, up to 30 levels deep; everybody else has to finish meanwhile, with the usual results",
		gen: func(r *Rng, p *Plan) {
			xs := r.exprs(r.in(1, 2), func() string { return r.expr(4, false) })
			f := r.fonts()
			mk := func() Op {
				x := pickOf(r, xs...)
				if r.pct(40) {
					return r.syntax(x)
				}
				op := r.typeset(x)
				op.F = f
				return op
			}
			hold := func(op Op) Op {
				kind := pickOf(r, "stall", "stall", "nest")
				if strings.Contains("render mparse ship png boxes", op.K) && r.pct(30) {
					// its own font files, read on demand
					op.F = r.ioFonts()
					op.Fault = r.fault("font", pickOf(r, 3, 40, 300), kind)
				}
				if op.Fault == nil {
					r.holdIn(&op, kind)
				}
				if op.Fault != nil && kind == "nest" {
					n := mk()
					op.Nest = &n
				}
				return op
			}
			switch r.n(20) {
			case 0, 1: // a crowd, all of it held up but for one
				xs = []string{pickOf(r, "x", "$x$", "$x^2$", `$\frac{1}{2}$`)}
				one := mk()
				for i := r.in(5, 36); i > 0; i-- {
					op := one
					if i > 1 {
						op = hold(op)
						if op.Fault != nil {
							op.Fault.Kind, op.Fault.At, op.Nest = "stall", 1, nil
						}
					}
					p.Tasks = append(p.Tasks, []Op{op})
				}
				schedule(r, p)
				return
			case 2: // calls within calls within calls
				xs = []string{pickOf(r, "x", "$x$", "$x^2$")}
				op := mk()
				for i := r.in(3, 30); i > 0; i-- {
					if n := hold(mk()); n.Fault != nil {
						inner := op
						n.Fault.Kind, n.Fault.At, n.Nest = "nest", 1, &inner
						op = n
					}
				}
				p.Tasks = append(p.Tasks, []Op{op}, []Op{mk()})
				schedule(r, p)
				return
			}
			if r.pct(20) { // trees that everybody has
				for i := r.in(1, 2); i > 0; i-- {
					p.Setup = append(p.Setup, Op{K: "parse", X: r.expr(4, false), Raw: r.pct(50)})
				}
				some := mk
				mk = func() Op {
					if r.pct(40) {
						return some()
					}
					return Op{K: pickOf(r, "swalk", "sinspect", "sprint", "spos"), I: r.n(len(p.Setup)), N: pickOf(r, 0, 0, r.in(1, 9))}
				}
			}
			if r.pct(5) { // somebody is held up while others get a lot done
				xs = append(xs, "x", "$x$")
				for i := r.in(2, 3); i > 0; i-- {
					ops := []Op{hold(mk())}
					if i == 1 {
						pool := []Op{r.syntax("x y"), r.syntax("$x$"), mk()}[r.n(3):]
						ops = nil
						for j := r.in(30, pickOf(r, 100, 300)); j > 0; j-- {
							op := pickOf(r, pool...)
							if r.pct(20) {
								op = r.syntax(pickOf(r, "x", "$x$", "x y", "$x^2$"))
							}
							ops = append(ops, op)
						}
					}
					p.Tasks = append(p.Tasks, ops)
				}
				schedule(r, p)
				return
			}
			n := r.in(2, 4)
			for i := 0; i < n; i++ {
				var ops []Op
				for j := r.in(1, 2); j > 0; j-- {
					op := mk()
					if i == 0 || r.pct(25) {
						op = hold(op)
					}
					ops = append(ops, op)
				}
				p.Tasks = append(p.Tasks, ops)
			}
			schedule(r, p)
		},
		check: func(r *Run, refs [][]*Outcome) {
			if r.Res.StallBlocked {
				r.fail("blocked-by-stalled", "a caller could not finish while another one was busy in its own writer, renderer, backend, font files or visitor")
			}
			everyStrict(r, refs)
			checkNested(r)
		},
	})
}

// holdIn makes a caller stall or call back somewhere in its own code.
func (r *Rng) holdIn(op *Op, kind string) {
	switch op.K {
	case "print", "sprint":
		op.Fault = r.fault("write", 5, kind)
	case "walk", "inspect", "swalk", "sinspect":
		op.Fault = r.fault("visit", 8, kind)
	case "png":
		op.Fault = r.fault("write", 4, kind)
	case "render":
		op.Fault = r.fault("render", 1, kind)
	case "mparse":
		op.Fault = r.fault("backend", 20, kind)
	case "ship", "boxes":
		op.Fault = r.fault(pickOf(r, "backend", "draw"), pickOf(r, 4, 20), kind)
	}
}

// checkNested demands that calls made from inside callbacks do what they do
// on their own.
func checkNested(r *Run) {
	for i := range r.Outs {
		for j, o := range r.Outs[i] {
			op := r.P.Tasks[i][j]
			for depth := 1; o.C != nil && o.C.nest != nil && op.Nest != nil; depth++ {
				probe("nested call")
				if depth > 4 {
					probe("nested call, deep")
				}
				n := *op.Nest
				ref := solo(r.P.Setup, n)
				if o.C.nest.key() != ref.key() {
					r.fail("nested-differs", "caller %d, %s called from inside a callback of %s: %s", i, opName(n), opName(op), diff(o.C.nest.key(), ref.key()))
				}
				o, op = o.C.nest, n
			}
		}
	}
}

// checkFaces demands a loaded face for every style, of that style.
func checkFaces(r *Run, name string, f *ttf.Fonts) {
	var buf sfnt.Buffer
	for _, v := range []struct {
		style      string
		ft         *sfnt.Font
		bold, ital bool
	}{{"default", f.Default, false, false}, {"regular", f.Rm, false, false}, {"italic", f.It, false, true}, {"bold", f.Bf, true, false}, {"bold italic", f.BfIt, true, true}} {
		if v.ft == nil {
			r.fail("missing-face", "collection %s has no %s face", name, v.style)
			continue
		}
		s, err := v.ft.Name(&buf, sfnt.NameIDPostScript)
		if err != nil || strings.Contains(s, "Bold") != v.bold || strings.Contains(s, "Italic") != v.ital {
			r.fail("wrong-face", "collection %s: the %s face is %q (%v)", name, v.style, s, err)
		}
	}
}

// questions is a list of questions to one font backend, over few symbols, sizes
// and modes so that they meet.
func (r *Rng) questions(max int) Op {
	syms := []string{"-", "a", "A"}
	for k := r.in(0, 2); k > 0; k-- {
		syms = append(syms, pickOf(r, "x", "f", "V", "1", "(", `\alpha`, `\int`, `\infty`, "é", ".", `\sum`, `'`, `\Gamma`, "W"))
	}
	names := []string{pickOf(r, "default", "regular", "x")}
	if r.pct(30) {
		names = append(names, "other")
	}
	sizes := []float64{12}
	if r.pct(50) {
		sizes = append(sizes, pickOf(r, 10.0, 7, 24, 12.000001, 12.004, 12.3))
	}
	dpis := []float64{72}
	if r.pct(40) {
		dpis = append(dpis, pickOf(r, 96.0, 300, 144))
	}
	types := []string{"rm", "it"}
	if r.pct(50) {
		types = append(types, pickOf(r, "bf", "default", "regular", "nosuch", "sf", "bb", ""))
	}
	one := func() Query {
		q := Query{Sym: pickOf(r, syms...), Name: pickOf(r, names...), Type: pickOf(r, types...), Size: pickOf(r, sizes...), DPI: pickOf(r, dpis...), Math: r.pct(50)}
		switch r.n(12) {
		case 0, 1, 2, 3, 4, 5:
			q.K = "metrics"
		case 6, 7:
			q.K = "kern"
			q.Sym2 = pickOf(r, syms...)
			q.Type2 = pickOf(r, types...)
			q.Name2 = pickOf(r, names...)
			q.Size2 = pickOf(r, sizes...)
		case 8, 9:
			q.K = "glyph"
		case 10:
			q.K = "xheight"
		case 11:
			q.K = "uline"
		}
		return q
	}
	op := Op{K: "backend", F: pickOf(r, "", "lm", "lib", "io", "iok", "iol")}
	for j := r.in(3, max); j > 0; j-- {
		if len(op.Q) > 0 && r.pct(30) { // ask again
			q := op.Q[r.n(len(op.Q))]
			if r.pct(50) {
				q.Math = !q.Math
			}
			if r.pct(15) {
				q.DPI = pickOf(r, dpis...)
			}
			op.Q = append(op.Q, q)
			continue
		}
		op.Q = append(op.Q, one())
	}
	return op
}

// questionnaire is a long list of questions about many symbols and sizes, most
// of them asked more than once.
func (r *Rng) questionnaire() Op {
	op := Op{K: "backend", F: pickOf(r, "", "lm", "lib", "io", "iok", "iol")}
	var syms []string
	size, asked, kinds, sizes, dpis := r.in(20, 90), r.in(60, 300), r.in(5, 90), r.in(1, 12), []float64{72, 72, 96}
	names, types, math := []string{"default", "regular"}, []string{"rm", "it", "bf", "default"}, 50
	if r.pct(12) {
		// Enough different questions for any bounded memory to turn over, and
		// then the first ones again: many of everything, or of one thing.
		size, asked, kinds, sizes = r.in(200, 900), r.in(500, 1900), r.in(60, 240), r.in(2, 300)
		if what := r.n(4); what > 0 {
			kinds, sizes, dpis = 1, 1, dpis[:1]
			names, types, math = names[:1], types[r.n(2):][:1], 100
			switch what {
			case 1:
				kinds = 700
			case 2:
				sizes = r.in(200, 900)
			case 3:
				for k := r.in(200, 900); k > 0; k-- {
					dpis = append(dpis, float64(40+k))
				}
			}
		}
	}
	for k := kinds; k > 0; k-- {
		switch r.n(4) {
		case 0:
			syms = append(syms, pickOf(r, greek...))
		case 1:
			syms = append(syms, `\`+pickOf(r, symbolNames...))
		default:
			syms = append(syms, string(rune(33+r.n(94))))
		}
	}
	var szs []float64
	for k := sizes; k > 0; k-- {
		if sizes > 100 {
			szs = append(szs, float64(16+k)/8)
			continue
		}
		szs = append(szs, pickOf(r, 12.0, 10, float64(r.in(20, 200))/8, float64(r.in(20, 9000))/32))
	}
	var pool []Query
	for k := size; k > 0; k-- {
		q := Query{K: pickOf(r, "metrics", "metrics", "metrics", "kern", "glyph", "xheight", "uline"), Sym: pickOf(r, syms...), Name: pickOf(r, names...), Type: pickOf(r, types...), Size: pickOf(r, szs...), DPI: pickOf(r, dpis...), Math: r.pct(math)}
		if q.K == "kern" {
			q.Sym2, q.Type2, q.Name2, q.Size2 = pickOf(r, syms...), q.Type, q.Name, q.Size
		}
		if r.pct(8) {
			q = Query{K: "parse", Sym: r.expr(3, false), Size: pickOf(r, szs...), DPI: q.DPI}
		}
		pool = append(pool, q)
	}
	for k := asked; k > 0; k-- {
		op.Q = append(op.Q, pickOf(r, pool...))
	}
	return op
}

func (r *Rng) disk() *DiskPlan {
	d := &DiskPlan{}
	errs := []string{"ENOSPC", "EIO", "EDQUOT", "EACCES", "EROFS", "EMFILE"}
	for k := pickOf(r, 0, 1, 1, 1, 2); k > 0; k-- {
		f := faultOn(r, errs)
		d.Faults = append(d.Faults, f)
	}
	if r.pct(25) {
		d.Cap = int64(r.in(1, 3000))
	}
	if r.pct(30) {
		d.Old = r.in(1, 6000)
		if r.pct(50) {
			d.Like = pickOf(r, "size", "byte", "hole", "head", "more", "same")
		}
	}
	return d
}

// checkBackend compares every answer with a backend asked nothing else.
func checkBackend(r *Run, refs [][]*Outcome) {
	o := r.Outs[0][0]
	op := r.P.Tasks[0][0]
	if o.Kind != "ok" {
		r.fail("backend-"+o.Kind, "%s", o.key())
		return
	}
	for k, got := range o.Ptr.([]answer) {
		q := op.Q[k]
		if got.faulted && got.panicked {
			probe("query failed loudly")
			continue // storage failed under this question and it said so
		}
		fonts := op.F
		if q.B == 2 {
			fonts = op.A[0]
		}
		want := fresh(fonts, q)
		if q.K == "parse" {
			probe("expression typeset between questions")
		}
		ok := false
		for _, w := range want {
			ok = ok || w == got.text
		}
		if !ok {
			class := "history"
			if got.faulted {
				class = "silent"
			}
			r.fail(class, "question %d, %s: answered %s, a backend asked nothing else answers %s (storage failed under it: %v)", k, js(q), clip(got.text), clip(strings.Join(want, " or ")), got.faulted)
			return
		}
	}
}

func checkPNG(r *Run, refs [][]*Outcome) {
	for i := range r.Outs {
		for j, o := range r.Outs[i] {
			op, ref := r.P.Tasks[i][j], refs[i][j]
			fired := o.C != nil && len(o.C.fired) > 0
			if ref.Kind == "ok" {
				left := bytes.NewReader(ref.Data)
				if _, err := png.Decode(left); err != nil {
					r.fail("no-image", "%s: success reported, and what was written is no image: %v", opName(op), err)
				} else if left.Len() > 0 {
					r.fail("no-image", "%s: success reported, and %d bytes written after the image", opName(op), left.Len())
				}
			}
			if !fired || ref.Kind != "ok" {
				r.strict(i, j, ref)
				continue
			}
			w := o.C.sink
			if w == nil {
				continue
			}
			full := ref.Data
			switch o.Kind {
			case "ok":
				r.fail("silent", "%s: writing failed but the call reported success; the writer holds %d of %d bytes", opName(op), len(o.Data), len(full))
			case "err":
				if o.C.err == nil || !errors.Is(o.Err, o.C.err) {
					r.fail("lost-cause", "%s: the writer's error %v is not in the reported one: %v", opName(op), o.C.err, o.Err)
				}
				if !bytes.HasPrefix(full, o.Data) {
					r.fail("garbage", "%s: the %d bytes the writer took are not the beginning of the image", opName(op), len(o.Data))
				}
				probe("write error reported")
			case "panic":
				// compress/flate writes once more while it is unwound, and
				// the panic of that is the one that gets out.
				if op.Fault == nil || (op.Fault.Kind != "panic" && op.Fault.Kind != "goexit") {
					r.fail("panic", "%s: %s", opName(op), o.key())
				}
			case "goexit":
			default:
				r.fail("odd-"+o.Kind, "%s: %s", opName(op), o.key())
			}
			if o.C.late > 0 {
				r.fail("late", "%s: the writer was called after the call had returned", opName(op))
			}
			if op.K == "png2" && o.Kind == "err" {
				for _, s := range o.Ptr.([]string) {
					if s != "err=<nil> "+pngText(full) {
						r.fail("not-reusable", "%s: the renderer, used again: %s; want %s", opName(op), s, pngText(full))
					}
				}
			}
		}
	}
}

func checkRenderer(r *Run, refs [][]*Outcome) {
	for i := range r.Outs {
		for j, o := range r.Outs[i] {
			op, ref := r.P.Tasks[i][j], refs[i][j]
			calls, want := o.Info["calls"], ref.Info["calls"]
			if o.Kind == "goexit" || (o.Kind == "panic" && ref.Kind == "ok") {
				calls = o.C.calls["render"]
			}
			if ref.Kind == "ok" && want != 1 {
				r.fail("calls-solo", "%s succeeded and called the renderer %d times", opName(op), want)
			}
			if ref.Kind != "ok" && want != 0 {
				r.fail("calls-rejected", "%s failed with %q, yet the renderer was called %d times", opName(op), ref.key(), want)
			}
			if ref.Kind == "ok" {
				// what has to be drawn, worked out without Render.
				own := solo(nil, Op{K: "drawing", X: op.X, F: op.F, Size: op.Size, DPI: op.DPI})
				if got, _ := ref.Ptr.(string); own.Kind != "ok" || !strings.HasSuffix(got, own.Text) {
					r.fail("incomplete", "%s: the renderer's drawing is not the one of the expression: %s", opName(op), diff(got, own.key()))
				}
			}
			if o.C.late > 0 {
				r.fail("late", "%s: the renderer was called after the call had returned", opName(op))
			}
			if len(o.C.fired) == 0 || ref.Kind != "ok" {
				r.strict(i, j, ref)
				continue
			}
			if calls != 1 {
				r.fail("calls", "%s: the renderer was called %d times", opName(op), calls)
			}
			// what the renderer was given must be the whole drawing.
			if t, ok := o.Ptr.(string); ok && t != ref.Ptr.(string) {
				r.fail("drawing", "%s: the renderer was given another drawing: %s", opName(op), diff(t, ref.Ptr.(string)))
			}
			switch op.Fault.Kind {
			case "err":
				if o.Kind != "err" || !errors.Is(o.Err, o.C.err) {
					r.fail("lost-cause", "%s: the renderer failed with %v, the call reported %s", opName(op), o.C.err, o.key())
				}
			case "panic":
				if o.Kind != "panic" || !strings.HasPrefix(o.Text, "caller's own panic") {
					r.fail("lost-panic", "%s: the renderer panicked, the call reported %s", opName(op), o.key())
				}
			case "nest":
				r.strict(i, j, ref)
			case "goexit":
				if o.Kind != "goexit" {
					r.fail("lost-exit", "%s: the renderer ended its thread, the call reported %s", opName(op), o.key())
				}
			}
		}
	}
	checkNested(r)
	keptAll(r)
}

func checkPDF(r *Run, refs [][]*Outcome) {
	for j, o := range r.Outs[0] {
		op, ref := r.P.Tasks[0][j], refs[0][j]
		fired := o.Info["fired"] > 0
		switch {
		case o.Kind == "hung" || o.Kind == "stopped":
			r.fail(o.Kind, "%s: %s", opName(op), o.Text)
		case ref.Kind != "ok":
			if o.Kind != ref.Kind {
				r.fail("kind", "%s: %s, want %s", opName(op), o.key(), ref.key())
			}
			if o.Kind == "ok" {
				r.fail("silent", "%s to %s reported success", opName(op), op.A[0])
			}
		case o.Kind == "ok":
			a, b := noDate(o.Data), noDate(ref.Data)
			if !bytes.Equal(a, b) {
				r.fail("silent", "%s reported success; the file has %d bytes, the document has %d (faults: %v): %s", opName(op), len(o.Data), len(ref.Data), r.Env.disk.Fired, diff(string(a), string(b)))
			}
			if !bytes.HasPrefix(o.Data, []byte("%PDF-")) || !bytes.HasSuffix(bytes.TrimSpace(o.Data), []byte("%%EOF")) {
				r.fail("not-pdf", "%s reported success; the file is not a PDF document", opName(op))
			}
			if fired {
				probe("disk fault harmless")
			}
		case !fired:
			r.fail("spurious", "%s: nothing went wrong with the disk, the call reported %s", opName(op), o.key())
		default:
			probe("disk fault reported as " + o.Kind)
			if o.Kind == "err" && !r.causedBy(o.Err) {
				r.fail("lost-cause", "%s: the disk failed (%v), the call reported %v", opName(op), r.Env.disk.Fired, o.Err)
			}
		}
	}
}

// causedBy reports whether err carries the error of a fault that fired.
func (r *Run) causedBy(err error) bool {
	for _, e := range r.Env.disk.Errs {
		if errors.Is(err, e) {
			return true
		}
	}
	return false
}

// noDate removes what a PDF says about when it was made.
func noDate(raw []byte) []byte {
	out := append([]byte(nil), raw...)
	for _, k := range []string{"/CreationDate (", "/ModDate ("} {
		for from := 0; ; {
			i := bytes.Index(out[from:], []byte(k))
			if i < 0 {
				break
			}
			i += from + len(k)
			for i < len(out) && out[i] != ')' {
				out[i] = '0'
				i++
			}
			from = i
		}
	}
	return out
}

func checkReship(r *Run, refs [][]*Outcome) {
	o, ref := r.Outs[0][0], refs[0][0]
	op := r.P.Tasks[0][0]
	if ref.Kind != "ok" || o.Kind != "ok" {
		r.strict(0, 0, ref)
		return
	}
	logs := ref.Ptr.([2][]string)
	if a, b := strings.Join(logs[0], "\n"), strings.Join(logs[1], "\n"); a != b {
		r.fail("second-differs", "%s: shipped twice, the drawings differ: %s", opName(op), diff(b, a))
	}
	got := o.Ptr.([2][]string)
	want := strings.Join(logs[0], "\n")
	if s := strings.Join(got[1], "\n"); s != want {
		r.fail("redo-differs", "%s: shipped again after an interruption: %s", opName(op), diff(s, want))
	}
	if o.Info["interrupted"] == 1 {
		probe("ship interrupted")
		if len(got[0]) > len(logs[0]) || strings.Join(got[0], "\n") != strings.Join(logs[0][:len(got[0])], "\n") {
			r.fail("prefix", "%s: what was drawn before the interruption is not the beginning of the drawing", opName(op))
		}
	}
}

const (
	stepsBase  = 200_000
	stepsByte  = 4_000
	stepsDeep  = 400
	stepsParse = 300
)

// nesting is how deep the groups of x are nested, at most.
func nesting(x string) int {
	d, max := 0, 0
	for _, c := range x {
		switch c {
		case '{', '[', '(':
			if d++; d > max {
				max = d
			}
		case '}', ']', ')':
			if d > 0 {
				d--
			}
		}
	}
	return max
}

// boundOf is how many statements a call may take.
func boundOf(op *Op) int {
	if op.K == "deep" {
		return stepsBase + len(op.X)*op.N*stepsParse
	}
	return stepsBase + len(op.X)*(stepsByte+stepsDeep*nesting(op.X))
}

// longer is an expression in which something is repeated, without nesting it.
func (r *Rng) longer() Op {
	var unit string
	if r.pct(50) {
		unit = pickOf(r, "x", "+", "-", " + ", "=", "1", " ", ".", "a+", "x y", `\alpha `, `\, `, `\sum `, `\sin `, `\leq `, "x^2", "x_i", "{x}", "(x)", `\sqrt{x}`, `\frac{a}{b}`, `\binom{n}{k}`, `\overline{x}`, "% c\n", "\n", "$ $", "$+$", `\hspace{1}`, "é", "-1", `\cdot`, "[x]", `\sqrt[3]{x}`, "word ", "/", "*", "' ", `\infty+`)
	} else {
		b := new(strings.Builder)
		r.math(b, 1, r.in(1, 2), r.pct(40))
		unit = b.String()
	}
	op := Op{K: "longer", X: unit, F: r.fonts(), N: pickOf(r, 40, 80, 160), A: []string{pickOf(r, "parse", "print", "walk", "inspect", "mparse", "ship", "render"), "", ""}}
	if r.pct(80) {
		op.A[1], op.A[2] = "$", "$"
	}
	if r.pct(20) {
		op.A[1] += pickOf(r, `\frac{`, `\sqrt{`, `\overline{`)
		op.A[2] = pickOf(r, "}", "}{x}", "") + op.A[2]
	}
	if op.A[0] == "parse" || op.A[0] == "walk" || op.A[0] == "inspect" {
		op.N *= pickOf(r, 1, 4, 12)
		if r.pct(50) {
			op.A[1], op.A[2] = "", ""
		}
	}
	if l := len(op.X); l > 6 {
		op.N = max(op.N*6/l, 20)
	}
	return op
}

func checkProgress(r *Run, refs [][]*Outcome) {
	o := r.Outs[0][0]
	op := r.P.Tasks[0][0]
	if c, ok := o.Ptr.([]uint64); ok {
		// what is spent more on twice as many must be twice as much.
		a, b := float64(c[1])-float64(c[0]), float64(c[2])-float64(c[1])
		if b > 2.35*a+3000 {
			r.fail("superlinear", "%s of %q, %d, %d and %d times (after %q, before %q): %d, %d, %d statements", op.A[0], op.X, op.N, 2*op.N, 4*op.N, op.A[1], op.A[2], c[0], c[1], c[2])
		}
		if len(c) == 6 {
			// and so with memory, which is asked for in larger and larger pieces.
			a, b := float64(c[4])-float64(c[3]), float64(c[5])-float64(c[4])
			if b > 3.2*a+500_000 {
				r.fail("superlinear-memory", "%s of %q, %d, %d and %d times (after %q, before %q): %d, %d, %d bytes asked for", op.A[0], op.X, op.N, 2*op.N, 4*op.N, op.A[1], op.A[2], c[3], c[4], c[5])
			}
		}
		probe("length doubled: " + o.Kind)
		return
	}
	if n := boundOf(&op); o.Kind == "hung" || o.Spent > uint64(n) {
		r.fail("no-progress", "%s: %d bytes of input, %s after %d statements (bound %d; 1 GB and 4 kB per statement of memory)", opName(op), len(op.X)*max(op.N, 1), o.Kind, o.Spent, n)
	}
	if o.Kind == "ok" || o.Kind == "err" || o.Kind == "panic" {
		probe("came back: " + o.Kind)
	}
}

func checkWalk(r *Run, refs [][]*Outcome) {
	if len(r.Setup) == 0 || r.Setup[0].Kind != "ok" {
		return
	}
	want := func(op Op) string { return strings.Join(model(r.Setup[0].tree(), op.N), "\n") }
	for i := range r.Outs {
		for j, o := range r.Outs[i] {
			op := r.P.Tasks[i][j]
			if o.Kind == "hung" || o.Kind == "stopped" {
				r.fail(o.Kind, "%s: %s", opName(op), o.Text)
				continue
			}
			w := want(op)
			for in, out := o, op; in.C != nil && in.C.nest != nil; {
				n := *out.Nest
				in = in.C.nest
				switch {
				case n.K != "swalk" && n.K != "sinspect":
				case in.Kind != "ok" || in.Text != want(n):
					r.fail("nested", "%s from inside %s: %s: %s", opName(n), opName(out), in.Kind, diff(in.Text, want(n)))
				}
				out = n
			}
			t, _ := o.Ptr.(*tour)
			if t == nil {
				continue
			}
			log := strings.Join(t.log, "\n")
			if len(o.C.fired) > 0 && op.Fault.Kind == "panic" {
				if o.Kind != "panic" || !strings.HasPrefix(o.Text, "caller's own panic") {
					r.fail("lost-panic", "%s of %q: the visitor panicked, the call reported %s", opName(op), r.P.Setup[0].X, o.Kind)
				}
				if !strings.HasPrefix(w+"\n", log+"\n") && log != "" {
					r.fail("order", "%s of %q: visits up to the panic: %s", opName(op), r.P.Setup[0].X, diff(log, w))
				}
				continue
			}
			if o.Kind != "ok" {
				r.fail("walk-"+o.Kind, "%s of %q: %s", opName(op), r.P.Setup[0].X, o.key())
				continue
			}
			if log != w {
				r.fail("order", "%s of %q (stop at %d): visits: %s", opName(op), r.P.Setup[0].X, op.N, diff(log, w))
			}
		}
	}
	keptAll(r)
}

func checkPrint(r *Run, refs [][]*Outcome) {
	if r.Setup[0].Kind != "ok" {
		return
	}
	full := solo(r.P.Setup, Op{K: "sprint", I: 0})
	for i := range r.Outs {
		for j, o := range r.Outs[i] {
			op := r.P.Tasks[i][j]
			if op.K != "sprint" || (len(o.C.fired) == 0) {
				r.strict(i, j, refs[i][j])
				continue
			}
			switch {
			case o.Kind == "hung" || o.Kind == "stopped":
				r.fail(o.Kind, "%s: %s", opName(op), o.Text)
			case o.Kind == "panic" && full.Kind != "panic" && (op.Fault == nil || op.Fault.Kind != "panic"):
				r.fail("panic", "printing %q to a failing writer panicked: %s", r.P.Setup[0].X, o.Text)
			case op.Fault != nil && op.Fault.Kind == "panic" && !strings.HasPrefix(o.Text, "caller's own panic"):
				r.fail("lost-panic", "%s: the writer panicked, the call reported %s", opName(op), o.key())
			}
			if full.Kind == "ok" && !strings.HasPrefix(full.Text, string(o.C.sink.buf)) {
				r.fail("garbage", "printing %q: what the writer took before it failed is not the beginning of the text: %s", r.P.Setup[0].X, diff(string(o.C.sink.buf), full.Text))
			}
			if o.C.late > 0 {
				r.fail("late", "%s: the writer was called after the call had returned", opName(op))
			}
		}
	}
	keptAll(r)
}

var _ = fmt.Sprint
