package main

import (
	"flag"
	"fmt"
	"log"
	"log/slog"
	"math"
	"os"
	"os/signal"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/go-latex/latex/vsim"
	"github.com/go-latex/latex/vsim/simos"
)

// anything is any call of the library, often with something going wrong.
func (r *Rng) anything(x string) Op {
	var op Op
	switch r.n(12) {
	case 0, 1, 2:
		op = r.syntax(x)
	case 3, 4, 5, 6, 7:
		op = r.typeset(x)
	case 8:
		op = r.dims(Op{K: "pdf", X: x, F: r.fonts(), A: []string{pickOf(r, "out.pdf", "/w/a.pdf", "/tmp/b.pdf", "/nodir/x.pdf")}})
		op.Disk = r.disk()
		op.Disk.Old, op.Disk.Like = 0, ""
		return op
	case 9:
		return r.questions(6)
	case 10:
		return pickOf(r, Op{K: "tables", X: "+"}, Op{K: "fonts", F: r.fonts()}, Op{K: "index", X: pickOf(r, `\alpha`, `-`, `a`, `\nosuch`, "\xff"), N: r.n(2)})
	case 11:
		return r.boxes(4)
	}
	if r.pct(45) {
		kinds := []string{"err", "err", "panic"}
		switch op.K {
		case "print":
			op.Fault = r.fault("write", 6, kinds...)
		case "walk", "inspect":
			op.Fault = r.fault("visit", 8, "panic")
		case "render":
			op.Fault = r.fault("render", 1, kinds...)
		case "png":
			op.Fault = r.fault("write", 4, kinds...)
		case "mparse", "ship", "boxes":
			op.Fault = r.fault(pickOf(r, "backend", "backend", "draw"), 25, "panic")
		}
	}
	return op
}

// odd is an expression with something in it a scanner may complain about.
func (r *Rng) odd(size int) string {
	x := r.any(size)
	if r.pct(50) {
		return x
	}
	i := r.n(len(x) + 1)
	return x[:i] + pickOf(r, "1e", "0x", "0b2", "09", "1_", "1__2", "'a", `"abc`, `"\q"`, "\"\n", "\x00", "\xff", "\xc3", "\ufeff", "0x1p", "1e+", "`", "''", "'", "\U0010ffff") + x[i:]
}

// processState is what a call has no business to change.
func processState() []string {
	wd, _ := os.Getwd()
	sim, _ := simos.Getwd()
	var flags []string
	flag.VisitAll(func(f *flag.Flag) { flags = append(flags, f.Name+"="+f.Value.String()) })
	return []string{
		"environment: " + strings.Join(os.Environ(), "\x00"),
		"working directory: " + wd + " " + sim,
		fmt.Sprintf("log flags: %d", log.Flags()),
		"log prefix: " + log.Prefix(),
		fmt.Sprintf("log output: %p", log.Writer()),
		fmt.Sprintf("GOMAXPROCS: %d", runtime.GOMAXPROCS(0)),
		fmt.Sprintf("standard streams: %p %p %p", os.Stdin, os.Stdout, os.Stderr),
		"arguments: " + strings.Join(os.Args, "\x00"),
		"flags: " + strings.Join(flags, "\x00"),
		fmt.Sprintf("time zone: %p %s", time.Local, time.Local),
		fmt.Sprintf("umask: %o", umask()),
		"collector settings: " + collector(),
		fmt.Sprintf("largest stack: %d", swapped(debug.SetMaxStack, 1<<30)),
		fmt.Sprintf("threads allowed: %d", swapped(debug.SetMaxThreads, 10000)),
		fmt.Sprintf("panic on fault: %v", swapped(debug.SetPanicOnFault, false)),
		fmt.Sprintf("profiling rates: %d %d", runtime.MemProfileRate, runtime.SetMutexProfileFraction(-1)),
		"resource limits: " + limits(),
		fmt.Sprintf("structured logger: %p", slog.Default()),
		fmt.Sprintf("command line: %p %p %v", flag.CommandLine, flag.Usage, flag.Parsed()),
		fmt.Sprintf("signals asked for: %d", simos.Handlers()),
		fmt.Sprintf("random numbers started over: %d", vsim.Seeded),
		fmt.Sprintf("ignored signals: %v %v %v %v", signal.Ignored(syscall.SIGINT), signal.Ignored(syscall.SIGTERM), signal.Ignored(syscall.SIGPIPE), signal.Ignored(syscall.SIGHUP)),
	}
}

// swapped is what a setting is that can only be read by setting it.
func swapped[T any](set func(T) T, tmp T) T {
	was := set(tmp)
	set(was)
	return was
}

func limits() string {
	var l []string
	for _, k := range []int{syscall.RLIMIT_NOFILE, syscall.RLIMIT_CORE, syscall.RLIMIT_STACK, syscall.RLIMIT_AS, syscall.RLIMIT_CPU, syscall.RLIMIT_DATA, syscall.RLIMIT_FSIZE} {
		var r syscall.Rlimit
		if syscall.Getrlimit(k, &r) == nil {
			l = append(l, fmt.Sprint(k, " ", r.Cur, " ", r.Max))
		}
	}
	return strings.Join(l, ", ")
}

func umask() int {
	m := syscall.Umask(022)
	syscall.Umask(m)
	return m
}

func collector() string {
	s := []metrics.Sample{{Name: "/gc/gogc:percent"}, {Name: "/gc/gomemlimit:bytes"}}
	metrics.Read(s)
	var l []string
	for _, m := range s {
		if m.Value.Kind() == metrics.KindUint64 {
			l = append(l, fmt.Sprint(m.Value.Uint64()))
		}
	}
	return strings.Join(l, " ")
}

// logCount is a log output that counts.
type logCount struct {
	n    atomic.Int64
	last atomic.Pointer[string]
}

func (l *logCount) Write(p []byte) (int, error) {
	l.n.Add(1)
	s := string(p[:min(len(p), 200)])
	l.last.Store(&s)
	return len(p), nil
}

// capture redirects the real standard streams into a file while f runs, and
// returns what was written to them.
func capture(f func()) string {
	tmp, err := os.CreateTemp(*fScratch, "std")
	if err != nil {
		die("%v", err)
	}
	defer tmp.Close()
	os.Remove(tmp.Name())
	var saved [2]int
	for i := range saved {
		if saved[i], err = syscall.Dup(i + 1); err != nil {
			die("%v", err)
		}
		if err := syscall.Dup3(int(tmp.Fd()), i+1, 0); err != nil {
			die("%v", err)
		}
	}
	defer func() {
		for i, fd := range saved {
			if err := syscall.Dup3(fd, i+1, 0); err != nil {
				die("%v", err)
			}
			syscall.Close(fd)
		}
	}()
	f()
	st, err := tmp.Stat()
	if err != nil || st.Size() == 0 {
		return ""
	}
	buf := make([]byte, 400)
	n, _ := tmp.ReadAt(buf, 0)
	return string(buf[:n])
}

func init() {
	register(&property{
		id: "C19", race: 0, quick: 80000, thorough: 2000000, noref: true,
		rule: "1-2 simulated callers make 1-4 calls of any kind - on accepted, rejected and damaged input, cut short by failing or panicking callbacks and by a failing disk - while the standard streams, the logger, the process state and the disk are watched",
		gen: func(r *Rng, p *Plan) {
			xs := r.exprs(r.in(1, 3), func() string { return r.odd(4) })
			for t := pickOf(r, 1, 1, 2); t > 0; t-- {
				var ops []Op
				for j := r.in(1, 4); j > 0; j-- {
					ops = append(ops, r.anything(pickOf(r, xs...)))
				}
				p.Tasks = append(p.Tasks, ops)
			}
			quiet(r, p)
		},
		around: watched,
		check: func(r *Run, refs [][]*Outcome) {
			for i, outs := range r.Outs {
				for j, o := range outs {
					if o.Kind == "hung" || o.Kind == "stopped" {
						r.fail(o.Kind, "caller %d, %s: %s", i, opName(r.P.Tasks[i][j]), o.Text)
					}
				}
			}
		},
	})

	extraOps["cycle"] = runCycle
	register(&property{
		id: "C20", race: 0, quick: 2600, thorough: 55000, noref: true,
		rule: "1-3 calls of any kind, often ones that fail or panic in the caller's code, are made 48 times in a row in one process; in a third of the runs with another expression or size each time; goroutines, open files, live objects and work per round are compared between rounds, and growth has to go on for 240 (3000, if the arguments vary) more repetitions to count",
		gen: func(r *Rng, p *Plan) {
			op := Op{K: "cycle"}
			for j := pickOf(r, 1, 1, 2, 3); j > 0; j-- {
				var sub Op
				for {
					sub = r.anything(r.any(pickOf(r, 2, 4)))
					if !onDemand(sub.F) {
						break
					}
				}
				op.Cyc = append(op.Cyc, sub)
			}
			if r.pct(33) {
				op.I = r.in(1, 2)
			}
			p.Tasks = [][]Op{{op}}
			quiet(r, p)
			p.Cfg.PoolMode = 0
		},
		check: checkCycle,
	})
}

// watched runs f and looks at what it did to the process around it.
func watched(r *Run, f func()) {
	simos.Untouched()
	var (
		d     = r.Env.disk
		was   = processState()
		logs  = &logCount{}
		old   = log.Writer()
		std   = simos.StdWrites
		allow = map[string]bool{}
		talk  = false // some call is known to report to the logger
		files = 0
	)
	for _, n := range d.Names() {
		allow[n] = true
	}
	for _, ops := range r.P.Tasks {
		for _, op := range ops {
			switch op.K {
			case "pdf":
				files++
				talk = true
				n := op.A[0]
				if !strings.HasPrefix(n, "/") {
					n = "/w/" + n
				}
				allow[n] = true
			case "boxes":
				talk = true
			}
		}
	}
	r.Env.threads = true
	log.SetOutput(logs)
	was[4] = fmt.Sprintf("log output: %p", log.Writer())
	text := capture(f)
	now := processState()
	log.SetOutput(old)
	if text != "" {
		r.fail("output", "something was written to the standard streams of the process: %q", clip(text))
	}
	if simos.StdWrites != std {
		r.fail("output", "something was written to the standard streams of the process: %q", clip(simos.StdText))
	}
	if n := logs.n.Load(); n > 0 && !talk {
		r.fail("log", "%d messages were logged by calls that have nothing to log, the last one %q", n, clip(*logs.last.Load()))
	}
	for i := range now {
		if now[i] != was[i] {
			r.fail("process", "the process was changed: %s: %s", strings.SplitN(now[i], ":", 2)[0], diff(now[i], was[i]))
		}
	}
	for i, outs := range r.Outs {
		for j, o := range outs {
			if o.C != nil && o.C.thread != "" {
				r.fail("thread", "caller %d, %s: the goroutine the call was made on was changed: %s", i, opName(r.P.Tasks[i][j]), o.C.thread)
			}
		}
	}
	for _, n := range d.Names() {
		if !allow[n] {
			r.fail("file", "the file %s was made, which nobody named", n)
		}
	}
	if files == 0 && len(d.Log) > 0 {
		r.fail("file", "a call that has no file to write used the disk: %s", strings.Join(d.Log, ", "))
	}
	if files > 0 {
		probe("disk watched")
	}
}

// round is what was seen after some repetitions.
type round struct {
	objects int64
	bytes   int64
	total   int
	open    int
	steps   uint64
	tasks   int
}

const (
	cycleRounds = 4
	cycleTimes  = 12
	cycleMore   = 6
	cycleLong   = 40
)

// runCycle makes the same calls over and over.
func runCycle(c *octx, op *Op, o *Outcome) {
	rounds := make([]round, 0, 32)
	total := 0
	varies := op.I > 0 // the calls differ from one repetition to the next
	more, long := cycleMore, cycleLong
	if varies {
		more, long = 5, 500 // there may be bounded caches
	}
	kinds := map[string]int{}
	turn := func(times int) {
		var rd round
		for k := 0; k < times; k++ {
			for i := range op.Cyc {
				sub := &op.Cyc[i]
				if varies {
					sub = varied(sub, op.I, total+k)
				}
				vsim.SetLimit(8 * opLimit)
				out := &Outcome{}
				execOp(c.e, c.task, sub, out)
				kinds[out.Kind]++
				rd.steps += out.Spent
				if len(rounds) == 0 && k == 0 && out.C != nil {
					c.fired = append(c.fired, out.C.fired...)
					for _, f := range c.e.disk.Fired {
						c.fired = append(c.fired, "disk-"+f)
					}
				}
				out = nil
				d := c.e.disk
				d.Fired, d.Errs, d.Log = nil, nil, nil
			}
		}
		vsim.Stall() // until the library is done with everything
		total += times
		rd.total = total
		rd.steps /= uint64(times)
		rd.open = c.e.disk.Open
		rd.tasks = vsim.DaemonsLive()
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		rd.objects = int64(m.Mallocs - m.Frees)
		rd.bytes = int64(m.HeapAlloc)
		rounds = append(rounds, rd)
	}
	for k := 0; k < cycleRounds; k++ {
		turn(cycleTimes)
	}
	short := grows(rounds[1:], cycleTimes, varies)
	fat := rounds[cycleRounds-1].bytes-rounds[0].bytes > 340 // the runtime's own come and go by 96 or so
	if short != "" {
		from := len(rounds)
		if varies {
			from++
		}
		for k := 0; k < more+1; k++ {
			turn(long)
		}
		o.Text = grows(rounds[from:], long, varies)
		o.Info = map[string]int{"suspected": 1}
	}
	if o.Text == "" && fat && !varies {
		// what grows by doubling does so every time the number of
		// repetitions is four times what it was.
		a := rounds[len(rounds)-1]
		turn(3 * total)
		b := rounds[len(rounds)-1]
		turn(3 * total)
		d := rounds[len(rounds)-1]
		if swells(a, b, b.total-a.total) && swells(b, d, d.total-b.total) {
			o.Text = fmt.Sprintf("bytes that are kept after %d, %d and %d repetitions: %d, %d, %d", a.total, b.total, d.total, a.bytes, b.bytes, d.bytes)
		}
		o.Info = map[string]int{"suspected": 1}
	}
	if o.Text == "" && fat && varies {
		// the same, going on until nothing that is bounded explains it.
		l := rounds[len(rounds)-1:]
		for k := 0; k < 4; k++ {
			turn(3 * total)
			l = append(l, rounds[len(rounds)-1])
			if n := len(l) - 1; !swells(l[n-1], l[n], l[n].total-l[n-1].total) || n > 1 && l[n].bytes-l[n-1].bytes < 2*(l[n-1].bytes-l[n-2].bytes) {
				l = nil
				break
			}
		}
		for i, rd := range l {
			o.Text += fmt.Sprintf("%s%d after %d", pickIf(i == 0, "bytes that are kept: ", ", "), rd.bytes, rd.total)
		}
		o.Info = map[string]int{"suspected": 1}
	}
	o.Kind = "ok"
	o.Ptr = kinds
}

// varied is op with other arguments.
func varied(op *Op, how, n int) *Op {
	v := *op
	v.Q = append([]Query(nil), op.Q...)
	if how == 2 && v.K != "boxes" {
		v.Size = v.size() + apart(n)
	} else if v.K != "index" || n%2 == 0 {
		v.X += fmt.Sprintf(" %06d", n)
	}
	for i := range v.Q {
		v.Q[i].Size += apart(n)
	}
	return &v
}

// apart is another number below 1 for every n: sizes differ, but what takes the
// more memory the larger they are does not take ever more.
func apart(n int) float64 {
	_, f := math.Modf(float64(n) * (math.Sqrt(5) - 1) / 2)
	return f
}

func pickIf(b bool, x, y string) string {
	if b {
		return x
	}
	return y
}

// swells is whether 5 bytes more were kept for every repetition.
func swells(a, b round, times int) bool { return b.bytes-a.bytes >= 5*int64(times) }

// grows says what became more by at least one per repetition in every round.
// Where the calls vary, so does their work, if they do not keep a list of them.
func grows(rounds []round, times int, varies bool) string {
	var what []string
	all := func(name string, f func(a, b round) bool, get func(round) any) {
		for i := 1; i < len(rounds); i++ {
			if !f(rounds[i-1], rounds[i]) {
				return
			}
		}
		var l []string
		for _, r := range rounds {
			l = append(l, fmt.Sprint(get(r)))
		}
		what = append(what, fmt.Sprintf("%s after every %d repetitions: %s", name, times, strings.Join(l, ", ")))
	}
	all("objects that are kept", func(a, b round) bool { return b.objects >= a.objects+int64(times) }, func(r round) any { return r.objects })
	all("open files", func(a, b round) bool { return b.open >= a.open+times }, func(r round) any { return r.open })
	all("goroutines", func(a, b round) bool { return b.tasks >= a.tasks+times }, func(r round) any { return r.tasks })
	least := uint64(1)
	if varies {
		least = uint64(times) / 4
	}
	all("statements executed per repetition", func(a, b round) bool { return b.steps >= a.steps+least }, func(r round) any { return r.steps })
	return strings.Join(what, "; ")
}

func checkCycle(r *Run, refs [][]*Outcome) {
	o := r.Outs[0][0]
	op := r.P.Tasks[0][0]
	if o.Kind != "ok" {
		r.fail("cycle-"+o.Kind, "%s: %s", opName(op), o.key())
		return
	}
	for _, k := range []string{"exit", "hung", "stopped"} {
		if o.Ptr.(map[string]int)[k] > 0 {
			r.fail(k, "%s: %s", opName(op), k)
		}
	}
	if o.Info["suspected"] > 0 {
		probe("growth looked at more closely")
	}
	if o.Text != "" {
		r.fail("grows", "%s, repeated: %s", opName(op), o.Text)
	}
	for k, n := range o.Ptr.(map[string]int) {
		if countStats {
			stats.Kinds["repeated: "+k] += n
		}
	}
}
