// Package vsim is the simulator the instrumented module runs under: it decides
// which caller goroutine runs at every statement, the order maps are iterated
// in, what the clock says and how readers fragment their data.  One Config is
// one exactly repeatable execution.
//
// It exists only in the overlay the checks build with.
package vsim

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

// MaxSites bounds the number of scheduling points of a build.
const MaxSites = 1 << 14

// Preempt is one scheduling decision: when task Task has executed Step
// statements, task To runs next.
type Preempt struct {
	Task int    `json:"task"`
	Step uint64 `json:"step"`
	To   int    `json:"to"`
}

// Config describes how the scheduler decides.
type Config struct {
	Seed uint64
	// Replay, when set, makes the schedule a pure function of Trace.
	Replay bool
	Trace  []Preempt

	Gap     uint64 // mean number of statements between random preemptions; 0: none
	HotPct  int    // chance, in percent, to preempt at a hot site
	Hot     []int  // hot sites
	SeamPct int    // chance, in percent, to preempt at a seam (Point)

	Limit uint64 // statements a task may execute before it counts as hung; 0: none

	MapMode   int    // 0 sorted, 1 reversed, 2 permuted
	MapSeed   uint64 //
	PoolMode  int    // 0 LIFO, 1 random item or none, 2 always none
	ReadMode  int    // 0 whole, 1 one byte at a time, 2 random fragments
	ReadSeed  uint64
	Clock     int64  // unix nanoseconds at start
	ClockStep int64  // added at each reading of the clock (may be negative)
	Ambient   uint64 `json:",omitempty"` // which machine this is; 0: the real one
	Lag       int64  `json:",omitempty"` // nanoseconds a statement takes
}

type taskState int32

const (
	runnable taskState = iota
	blocked
	stalled
	done
)

// Task is one simulated caller thread.
type Task struct {
	id     int
	daemon bool // started by the code under test
	wake   chan struct{}
	steps  uint64
	next   uint64 // statement count of the next slow path
	gap    uint64
	slice  uint64
	state  taskState
	key    unsafe.Pointer
	cases  []Case // what it waits for, if at channels
	sync   atomic.Int32
	carry  bool
	trace  []Preempt // replay: decisions of this task
	ti     int
	limit  uint64
	meter  *meter
	hung   bool
	fn     func()
	gid    int64
	on     *thread
	proc   *Proc
	finals int // finalizers it has set that have not run
}

// Proc is a simulated process: the task that runs main, and what it started.
type Proc struct {
	main *Task
	dead bool
	why  any // the panic value that ends main
}

// StartProc makes the current task the main one of a new process.
//
//go:norace
func StartProc() *Proc {
	if !active {
		return nil
	}
	p := &Proc{main: cur}
	cur.proc = p
	return p
}

// End ends what is left of the process when main is over.
//
//go:norace
func (p *Proc) End() {
	if p == nil || !active || cur != p.main {
		return
	}
	p.die(nil)
	t := cur
	t.proc = nil
	t.arm()
	for !w.stop {
		var n *Task
		for _, o := range w.tasks {
			if o.proc == p && o.state != done {
				n = o
				break
			}
		}
		if n == nil {
			return
		}
		n.state = runnable
		record(t, n.id)
		handoff(t, n)
	}
}

// die ends the process with all its tasks: each is unwound when it runs next.
//
//go:norace
func (p *Proc) die(why any) {
	if !p.dead {
		p.dead, p.why = true, why
	}
	for _, t := range w.tasks {
		if t.proc == p && t.state != done {
			t.next = 0
			if t.state != runnable {
				t.state = runnable
				t.key = nil
			}
		}
	}
}

// Exit ends the current process, if it is one, with why as the panic value of
// main.
//
//go:norace
func Exit(why any) {
	if active && cur.proc != nil {
		cur.proc.die(why)
		unwind()
	}
	panic(why)
}

// doomed tells whether the task has to be unwound.
//
//go:norace
func (t *Task) doomed() bool { return w.stop || t.proc != nil && t.proc.dead }

const maxTasks = 1 << 22

// world is the state of the current run.
type world struct {
	cfg          Config
	tasks        []*Task // that exist, by identity
	n            int     // tasks so far
	rng          uint64
	rec          []Preempt
	nrec         int
	hash         uint64
	switches     uint64
	total        uint64
	work         uint64
	free         bool // scheduling was given up
	stop         bool // deadlock: unwinding
	deadlock     bool
	orphans      int  // tasks blocked in the end
	stallBlocked bool // a task could not proceed while another was stalled
	stalls       int
	mapRng       uint64
	readRng      uint64
	ambRng       uint64
	poolRng      uint64
	clock        int64
	clockReads   int
	mapIters     int
	fragments    int
	fin          chan struct{}
	wg           sync.WaitGroup // orders the tasks before the end of the run
	timers       []*timer
	works        []*clockwork
	ticked       uint64 // statements of callers when ticks was zero
	ticks        int
	early        int    // timers that fired although somebody could run
	polls        int    // how often waiters at channels looked again in vain
	pollTotal    uint64 // statements executed by then
}

var (
	active bool
	cur    *Task
	w      *world
	hot    [MaxSites]bool
	hits   [MaxSites]uint32
	epoch  uint64
	recBuf = make([]Preempt, 1<<14)

	// Unscheduled makes all runs free-running: it is set once the code under
	// test turned out to block in ways the simulator cannot own.
	Unscheduled bool

	// HungPanic is what unwinds a task that exceeded its statement limit.
	HungPanic = &struct{ string }{"vsim: statement limit exceeded"}
	// StopPanic unwinds tasks of a deadlocked run.
	StopPanic = &struct{ string }{"vsim: run stopped"}
)

//go:norace
func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

//go:norace
func rnd(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	x := *s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// task returns the task with the given identity, if it exists.
//
//go:norace
func (w *world) task(id int) *Task {
	lo, hi := 0, len(w.tasks)
	for lo < hi {
		m := (lo + hi) / 2
		if w.tasks[m].id < id {
			lo = m + 1
		} else {
			hi = m
		}
	}
	if lo < len(w.tasks) && w.tasks[lo].id == id {
		return w.tasks[lo]
	}
	return nil
}

// Y is a scheduling point: the instrumented code calls it before every
// statement.
//
//go:norace
func Y(site int) {
	if !active {
		return
	}
	t := cur
	t.steps++
	w.total++
	hits[site]++
	if t.steps >= t.next || hot[site] {
		slow(t, site, false)
	}
}

// Point is a scheduling point at a seam: a call from the code under test into
// a caller-supplied writer, renderer or backend.
//
//go:norace
func Point() {
	if !active {
		return
	}
	t := cur
	t.steps++
	w.total++
	slow(t, 0, true)
}

// Steps returns the number of statements the current task has executed.
//
//go:norace
func Steps() uint64 {
	if !active {
		return 0
	}
	return cur.steps
}

// CurID identifies the running task (-1 outside of a run).
//
//go:norace
func CurID() int {
	if !active {
		return -1
	}
	return cur.id
}

// SetLimit bounds the number of further statements of the current task.
//
//go:norace
func SetLimit(n uint64) {
	if !active {
		return
	}
	t := cur
	t.hung = false
	t.meter = nil
	if n == 0 {
		t.limit = 0
	} else {
		t.limit = t.steps + n
	}
	t.arm()
}

//go:norace
func (t *Task) arm() {
	const never = ^uint64(0)
	t.next = never
	if t.proc != nil && t.proc.dead {
		t.next = 0
		return
	}
	switch {
	case w.cfg.Replay:
		for t.ti < len(t.trace) && t.trace[t.ti].Step < t.steps {
			t.ti++
		}
		if t.ti < len(t.trace) {
			t.next = t.trace[t.ti].Step
		}
	case w.cfg.Gap > 0:
		if t.gap <= t.steps {
			t.gap = t.steps + 1 + rnd(&w.rng)%(2*w.cfg.Gap)
		}
		t.next = t.gap
	}
	if !w.cfg.Replay && len(w.tasks) > 1 {
		if t.slice <= t.steps {
			t.slice = t.steps + maxSlice
		}
		if t.slice < t.next {
			t.next = t.slice
		}
	}
	if t.limit != 0 && t.limit < t.next {
		t.next = t.limit
	}
	if t.meter != nil && t.meter.at < t.next {
		t.next = t.meter.at
	}
	if t == cur && len(w.timers) > 0 {
		w.due()
	}
}

// maxSlice bounds how long a task runs while others could: schedules are fair.
const maxSlice = 250_000

//go:norace
func slow(t *Task, site int, seam bool) {
	if t.doomed() {
		unwind()
	}
	if t.limit != 0 && t.steps >= t.limit {
		t.hung = true
		t.next = t.steps + 1
		panic(HungPanic)
	}
	if t.meter != nil && t.steps >= t.meter.at && t.meter.over(t) {
		t.hung = true
		t.meter = nil
		t.next = t.steps + 1
		panic(HungPanic)
	}
	to := -1
	if w.cfg.Replay {
		if t.ti < len(t.trace) && t.trace[t.ti].Step == t.steps {
			to = t.trace[t.ti].To
			t.ti++
		}
	} else {
		p := false
		switch {
		case seam:
			p = int(rnd(&w.rng)%100) < w.cfg.SeamPct
		case hot[site]:
			p = int(rnd(&w.rng)%100) < w.cfg.HotPct
		}
		if (w.cfg.Gap > 0 && t.steps >= t.gap) || t.steps >= t.slice {
			p = true
		}
		if p {
			to = pick(t.id)
		}
	}
	t.arm()
	n := w.task(to)
	if n == nil || n == t || n.state != runnable {
		return
	}
	record(t, to)
	handoff(t, n)
}

// pick chooses a runnable task other than not; -1 if there is none.
//
//go:norace
func pick(not int) int {
	n := 0
	for _, t := range w.tasks {
		if t.id != not && t.state == runnable {
			n++
		}
	}
	if n == 0 {
		return -1
	}
	k := int(rnd(&w.rng) % uint64(n))
	for _, t := range w.tasks {
		if t.id != not && t.state == runnable {
			if k == 0 {
				return t.id
			}
			k--
		}
	}
	return -1
}

//go:norace
func record(t *Task, to int) {
	w.switches++
	w.hash = mix(w.hash ^ uint64(t.id)<<48 ^ uint64(to)<<40 ^ t.steps)
	if w.nrec < len(w.rec) {
		w.rec[w.nrec] = Preempt{t.id, t.steps, to}
		w.nrec++
	}
}

//go:norace
func handoff(t, n *Task) {
	cur = n
	hide()
	n.wake <- struct{}{}
	<-t.wake
	show()
	if t.doomed() {
		unwind()
	}
	if len(w.timers) > 0 {
		t.arm()
	}
}

// unwind ends the current task of a stopped run.
//
//go:norace
func unwind() {
	if cur.daemon {
		runtime.Goexit() // nothing may recover
	}
	if p := cur.proc; p != nil && p.dead && !w.stop {
		panic(p.why)
	}
	panic(StopPanic)
}

// leave gives up the processor for good or until woken; the caller has set
// t.state.  It returns the task to run, or nil when none can.
//
//go:norace
func nextAfter(t *Task) *Task {
	to := -1
	if w.cfg.Replay {
		for t.ti < len(t.trace) && t.trace[t.ti].Step < t.steps {
			t.ti++
		}
		if t.ti < len(t.trace) && t.trace[t.ti].Step == t.steps {
			to = t.trace[t.ti].To
			t.ti++
			if n := w.task(to); n == nil || n.state != runnable {
				to = -1
			}
		}
		if to < 0 {
			for _, n := range w.tasks {
				if n.state == runnable {
					to = n.id
					break
				}
			}
		}
	} else {
		to = pick(-1)
	}
	if to >= 0 {
		record(t, to)
		return w.task(to)
	}
	// nothing can run: time passes.
	if n := w.idle(); n != nil {
		record(t, n.id)
		return n
	}
	// let a stalled party go on.  Goroutines of the library
	// that wait while no caller does are of no concern.
	someBlocked := false
	for _, o := range w.tasks {
		if o.state == blocked {
			w.orphans++
			if !o.daemon {
				someBlocked = true
			}
		}
	}
	for _, n := range w.tasks {
		if n.state == stalled {
			if someBlocked {
				w.stallBlocked = true
			}
			n.state = runnable
			w.orphans = 0
			record(t, n.id)
			return n
		}
	}
	w.deadlock = someBlocked
	return nil
}

// Block parks the current task until Wake(key).
//
//go:norace
func Block(key unsafe.Pointer) {
	block(key, nil)
}

//go:norace
func block(key unsafe.Pointer, cases []Case) {
	if !active {
		nap()
		return
	}
	if cur.doomed() {
		unwind()
	}
	t := cur
	t.steps++
	t.state = blocked
	t.key, t.cases = key, cases
	sleep(t)
}

// nap is a short wait outside of the simulation.
func nap() {
	hide()
	time.Sleep(200 * time.Microsecond)
	show()
}

// idle is called when no task can run: it lets the next timer fire, and the
// tasks that wait at channels look whether something outside of the simulation
// (a deadline of a context, say) has served them.
//
//go:norace
func (w *world) idle() *Task {
	var (
		callers = false // callers that wait
		atChan  = false // tasks that wait at channels
		busy    = false
	)
	for _, t := range w.tasks {
		switch t.state {
		case blocked:
			if t.cases != nil {
				atChan = true
				if !t.daemon {
					callers = true
				}
			}
			if !t.daemon {
				busy = true
			}
		case stalled:
			busy = true
		}
	}
	var done uint64
	for _, t := range w.tasks {
		if !t.daemon {
			done += t.steps
		}
	}
	if done != w.ticked {
		w.ticked, w.ticks = done, 0
	}
	if first := w.first(); busy && first >= 0 {
		if atChan && w.total != w.pollTotal {
			w.pollTotal, w.polls = w.total, 1
			return w.poll()
		}
		if left := w.timers[first].at - w.time(); left > 0 {
			w.clock += left
		}
		if w.timers[first].k.tick != nil {
			w.ticks++
		}
		w.fire(first)
		if n := w.anyRunnable(); n != nil {
			return n
		}
		return w.idle()
	}
	if !atChan {
		return nil
	}
	if w.total != w.pollTotal {
		w.pollTotal, w.polls = w.total, 0
	}
	limit := 1
	if callers {
		limit = 60
	}
	if w.polls >= limit {
		return nil
	}
	w.polls++
	if w.polls > 1 {
		hide()
		time.Sleep(2 * time.Millisecond)
		show()
	}
	return w.poll()
}

// poll has the tasks that wait at channels look again.
//
//go:norace
func (w *world) poll() *Task {
	for _, t := range w.tasks {
		if t.state == blocked && t.cases != nil {
			t.state = runnable
		}
	}
	return w.anyRunnable()
}

//go:norace
func (w *world) anyRunnable() *Task {
	for _, t := range w.tasks {
		if t.state == runnable {
			return t
		}
	}
	return nil
}

// Stall parks the current task until nothing else can run.
//
//go:norace
func Stall() {
	if !active {
		return
	}
	if cur.doomed() {
		unwind()
	}
	t := cur
	t.steps++
	t.state = stalled
	w.stalls++
	sleep(t)
}

//go:norace
func sleep(t *Task) {
	n := nextAfter(t)
	if n == t {
		t.cases = nil
		t.arm()
		return
	}
	if n == nil && (w.deadlock || !t.daemon) {
		// deadlock: unwind everybody, starting here.
		w.stop = true
		t.state = runnable
		unwind()
	}
	if t.daemon {
		t.sync.Store(1)
	}
	if n == nil {
		// only goroutines of the library are left.
		carry()
		hide()
		<-t.wake
		show()
		if w.stop {
			unwind()
		}
	} else {
		handoff(t, n)
	}
	if t.carry {
		t.carry = false
		t.sync.Load()
	}
	t.cases = nil
	t.arm()
}

// Wake makes the tasks blocked on key runnable.
//
//go:norace
func Wake(key unsafe.Pointer) {
	if !active {
		return
	}
	for _, t := range w.tasks {
		if t.state == blocked && (t.key == key && t.cases == nil || waits(t, key)) {
			t.state = runnable
			t.key = nil
		}
	}
}

//go:norace
func waits(t *Task, key unsafe.Pointer) bool {
	for _, c := range t.cases {
		if c.key() == key {
			return true
		}
	}
	return false
}

// Active reports whether a simulated run is in progress.
//
//go:norace
func Active() bool { return active }

// Stopping reports whether the run is being unwound after a deadlock.
//
//go:norace
func Stopping() bool { return active && cur.doomed() }

// Hung reports whether the current task ran out of statements.
//
//go:norace
func Hung() bool { return active && cur.hung }

// thread is a goroutine tasks run on, one after the other.  (With the
// happens-before checker every task has its own.)
type thread struct {
	next chan *Task
	gid  int64
}

var idlers []*thread

//go:norace
func (t *Task) launch() {
	if n := len(idlers); n > 0 && !Unscheduled {
		th := idlers[n-1]
		idlers = Cut(idlers, n-1)
		t.on, t.gid = th, th.gid
		th.next <- t
		return
	}
	go func() {
		t.gid = goid()
		if RaceEnabled || Unscheduled {
			t.main()
			return
		}
		th := &thread{next: make(chan *Task, 1), gid: t.gid}
		for t.on = th; ; t = <-th.next {
			t.main()
		}
	}()
}

//go:norace
func (t *Task) main() {
	hide()
	<-t.wake
	show()
	t.arm()
	finished := false
	defer func() {
		if !finished {
			// runtime.Goexit, or a panic nobody recovered.
			e := recover()
			finished = e != nil
			if e != nil && t.proc != nil && e != any(StopPanic) && e != any(HungPanic) && !w.free {
				t.proc.die(e)
			} else if e != nil && e != any(StopPanic) && e != any(HungPanic) {
				fmt.Fprintf(os.Stderr, "vsim: task %d: panic: %v\n", t.id, e)
				buf := make([]byte, 1<<14)
				os.Stderr.Write(buf[:runtime.Stack(buf, false)])
				uncaught.Add(1)
			}
		}
		t.fn = nil // and what it holds
		w.wg.Done()
		if finished && t.on != nil && active && !w.free {
			idlers = Push(idlers, t.on)
		}
		t.exit()
	}()
	if !t.doomed() {
		t.fn()
	}
	finished = true
}

var uncaught atomic.Int64

//go:norace
func (t *Task) exit() {
	t.state = done
	t.steps++
	if w.free {
		freeExit()
		return
	}
	if t.daemon {
		for i := range w.tasks {
			if w.tasks[i] == t {
				w.tasks = Cut(w.tasks, i) // keep no memory of it
				break
			}
		}
	}
	if w.stop {
		for _, n := range w.tasks {
			if n.state != done {
				cur = n
				hide()
				n.wake <- struct{}{}
				show()
				return
			}
		}
		finish()
		return
	}
	n := nextAfter(t)
	if n == nil {
		if w.deadlock {
			w.stop = true
			t.exit()
			return
		}
		carry()
		return
	}
	cur = n
	hide()
	n.wake <- struct{}{}
	show()
}

// carry ends a run; goroutines of the library that wait for more to do stay.
//
//go:norace
func carry() {
	for _, o := range w.tasks {
		if o.state == blocked {
			o.sync.Load()
			w.wg.Done()
			carried = Push(carried, o)
		}
	}
	finish()
}

//go:norace
func finish() {
	active = false
	w.fin <- struct{}{}
}

// Result of one run.
type Result struct {
	Trace        []Preempt
	Hash         uint64
	Switches     uint64
	Steps        uint64
	Deadlock     bool
	Orphans      int // tasks that were blocked when nothing else could run
	StallBlocked bool
	Stalls       int
	Free         bool
	Truncated    bool
	Daemons      int // tasks started by the code under test
	Uncaught     int // panics in tasks started by the code under test
	Clock        int64
	ClockReads   int
	EarlyTimers  int
	MapIters     int
	Fragments    int
}

// Run executes the given callers as simulated threads until all are finished.
func Run(cfg Config, fns []func()) Result {
	epoch++
	nw := &world{cfg: cfg, rng: mix(cfg.Seed), fin: make(chan struct{}, 1)}
	nw.mapRng = mix(cfg.MapSeed ^ 0xa5a5)
	nw.readRng = mix(cfg.ReadSeed ^ 0x5a5a)
	nw.poolRng = mix(cfg.Seed ^ 0x77)
	nw.ambRng = mix(cfg.Ambient ^ 0x1b3)
	if cfg.Ambient != 0 {
		defer func(l *time.Location) { time.Local = l }(time.Local)
		time.Local = zoneOf(cfg.Ambient)
	}
	nw.clock = cfg.Clock
	nw.rec = recBuf
	nw.hash = 1
	for i := range hot {
		hot[i] = false
	}
	if !cfg.Replay {
		for _, s := range cfg.Hot {
			hot[s] = true
		}
	}
	w = nw
	uncaught.Store(0)
	for i, fn := range fns {
		nw.tasks = append(nw.tasks, newTask(i, fn))
		nw.n++
	}
	own := nw.n
	first := 0
	if cfg.Replay {
		for _, p := range cfg.Trace {
			if p.Task == -1 && p.To < nw.n {
				first = p.To
			}
		}
	} else {
		first = int(rnd(&nw.rng) % uint64(len(fns)))
		nw.rec[0] = Preempt{-1, 0, first}
		nw.nrec = 1
	}
	// goroutines of the library from before.
	for _, t := range carried {
		t.id = nw.n
		t.steps, t.gap, t.slice, t.ti = 0, 0, 0, 0
		t.limit = daemonLimit
		t.trace = nw.cfg.traceOf(t.id)
		t.carry = true
		t.sync.Store(1)
		nw.tasks = append(nw.tasks, t)
		nw.n++
	}
	carried = nil
	fresh := nw.n
	for _, fn := range pending {
		t := newTask(nw.n, fn)
		t.daemon = true
		t.limit = daemonLimit
		nw.tasks = append(nw.tasks, t)
		nw.n++
	}
	pending = nil
	nw.wg.Add(nw.n)
	for i, t := range nw.tasks {
		if i < own || i >= fresh {
			t.launch()
		}
	}
	if Unscheduled {
		nw.free = true
		freeLive = int64(nw.n)
		for _, t := range nw.tasks {
			t.wake <- struct{}{}
		}
	} else {
		cur = nw.tasks[first]
		active = true
		cur.wake <- struct{}{}
	}
	<-nw.fin
	active = false
	nw.wg.Wait()
	res := Result{
		Trace:        append([]Preempt(nil), nw.rec[:nw.nrec]...),
		Hash:         nw.hash,
		Switches:     nw.switches,
		Steps:        nw.total,
		Deadlock:     nw.deadlock,
		Orphans:      nw.orphans,
		StallBlocked: nw.stallBlocked,
		Stalls:       nw.stalls,
		Free:         nw.free,
		Truncated:    nw.nrec == len(nw.rec),
		Uncaught:     int(uncaught.Load()),
		Clock:        nw.time(),
		EarlyTimers:  nw.early,
		ClockReads:   nw.clockReads,
		MapIters:     nw.mapIters,
		Fragments:    nw.fragments,
	}
	res.Daemons = nw.n - own
	return res
}

func newTask(id int, fn func()) *Task {
	return &Task{id: id, fn: fn, wake: make(chan struct{}, 1), trace: w.cfg.traceOf(id)}
}

// traceOf returns the recorded decisions of one task.
func (cfg *Config) traceOf(id int) []Preempt {
	var trace []Preempt
	for _, p := range cfg.Trace {
		if p.Task == id {
			trace = append(trace, p)
		}
	}
	return trace
}

const daemonLimit = 50_000_000

var (
	carried []*Task  // goroutines of the library that wait between runs
	pending []func() // goroutines the library started between runs
)

// kill ends the goroutines of the library that wait between runs.
//
//go:norace
func kill() {
	pending = nil
	chanStates = nil
	if len(carried) == 0 {
		return
	}
	nw := &world{fin: make(chan struct{}, 1), stop: true, tasks: carried, n: len(carried)}
	for i, t := range carried {
		t.id = i
		t.state = runnable
	}
	carried = nil
	old := w
	w = nw
	nw.wg.Add(nw.n)
	cur = nw.tasks[0]
	active = true
	cur.wake <- struct{}{}
	<-nw.fin
	active = false
	nw.wg.Wait()
	w = old
	chanStates = nil
}

// start adds a task in the middle of a run ("go" in the code under test).
func start(fn func()) {
	if !isActive() {
		if Unscheduled {
			go fn()
		} else {
			pending = Push(pending, fn)
		}
		return
	}
	if w.n >= maxTasks {
		panic("vsim: too many tasks")
	}
	add(daemon(fn))
	Point()
}

func daemon(fn func()) *Task {
	t := newTask(w.n, fn)
	t.daemon = true
	t.proc = procOf()
	t.limit = daemonLimit
	w.wg.Add(1)
	t.launch()
	return t
}

//go:norace
func procOf() *Proc { return cur.proc }

//go:norace
func isActive() bool { return active }

//go:norace
func add(t *Task) {
	w.tasks = Push(w.tasks, t)
	w.n++
}

func Go0(f func())                         { start(f) }
func Go1[A any](f func(A), a A)            { start(func() { f(a) }) }
func Go2[A, B any](f func(A, B), a A, b B) { start(func() { f(a, b) }) }
func Go3[A, B, C any](f func(A, B, C), a A, b B, c C) {
	start(func() { f(a, b, c) })
}
func Go4[A, B, C, D any](f func(A, B, C, D), a A, b B, c C, d D) {
	start(func() { f(a, b, c, d) })
}
func Go5[A, B, C, D, E any](f func(A, B, C, D, E), a A, b B, c C, d D, e E) {
	start(func() { f(a, b, c, d, e) })
}
func Go6[A, B, C, D, E, F any](f func(A, B, C, D, E, F), a A, b B, c C, d D, e E, g F) {
	start(func() { f(a, b, c, d, e, g) })
}

// DaemonsLive is the number of unfinished tasks the code under test started.
//
//go:norace
func DaemonsLive() int {
	if !active {
		return 0
	}
	n := 0
	for _, t := range w.tasks {
		if t.daemon && t.state != done {
			n++
		}
	}
	return n
}

// Native is called where the code under test starts a goroutine the simulator
// cannot own: the rest of the run is not scheduled.
func Native() { giveUp() }

// giveUp lets all tasks of the run go on unscheduled.
//
//go:norace
func giveUp() { giveUpFrom(false) }

//go:norace
func giveUpFrom(outside bool) {
	if !active || w.free {
		return
	}
	w.free = true
	Unscheduled = true
	n := 0
	for _, t := range w.tasks {
		if t.state != done {
			n++
		}
	}
	atomic.StoreInt64(&freeLive, int64(n))
	active = false
	c := cur
	for _, t := range w.tasks {
		if t.state != done && t != c {
			t.wake <- struct{}{}
		}
	}
}

var freeLive int64

//go:norace
func freeExit() {
	if atomic.AddInt64(&freeLive, -1) == 0 {
		w.fin <- struct{}{}
	}
}

// --- package state -----------------------------------------------------

var (
	resets   []func()
	resetPkg []string
)

// RegisterReset is called by every instrumented package, in dependency order.
func RegisterReset(pkg string, f func()) {
	resets = append(resets, f)
	resetPkg = append(resetPkg, pkg)
}

// Restart simulates a process restart: every package-level variable of the
// code under test gets its initial value and the init functions run again.
func Restart() {
	was := active
	active = false
	if !was {
		kill()
	}
	for _, f := range resets {
		f()
	}
	active = was
}

var (
	bootMode int
	bootRng  uint64
)

// Boot is Restart with maps iterated in the order cfg says.
func Boot(cfg Config) {
	bootMode, bootRng = cfg.MapMode, mix(cfg.MapSeed^0xb007)
	bootAmbient = cfg.Ambient
	bootRandom = mix(cfg.Ambient ^ 0x3b1)
	Restart()
	bootMode, bootAmbient = 0, 0
	bootRandom = 0
}

// Packages lists the instrumented packages.
func Packages() []string { return resetPkg }

// Zero sets *p to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// Hits copies the per-site execution counters.
func Hits(dst []uint32) {
	copy(dst, hits[:])
}

// --- clock -------------------------------------------------------------

//go:norace
func now() int64 {
	if w == nil || !active {
		return 0
	}
	w.clock += w.cfg.ClockStep
	w.clockReads++
	w.due()
	return w.time()
}

// time is what a clock shows.
//
//go:norace
func (w *world) time() int64 { return w.clock + int64(w.total)*w.cfg.Lag }

// due fires the timers whose time has come, and has the running task look
// again when that of the next one will have.
//
//go:norace
func (w *world) due() {
	for w.cfg.Lag > 0 || w.cfg.ClockStep > 0 {
		first := w.first()
		if first < 0 {
			return
		}
		m := w.timers[first]
		left := m.at - w.time()
		if left <= 0 {
			if m.k.tick != nil && left < -int64(m.k.every) {
				m.at = w.time() // ticks are dropped
			}
			w.early++
			w.fire(first)
			continue
		}
		if t := cur; w.cfg.Lag > 0 {
			if n := uint64(left/w.cfg.Lag) + 1; t.next > t.steps && t.next-t.steps > n {
				t.next = t.steps + n
			}
		}
		return
	}
}

// maxTicks is how often tickers fire while no caller makes progress.
const maxTicks = 300

// first is the timer that is to fire first; -1 if there is none.
//
//go:norace
func (w *world) first() int {
	k := -1
	for i, m := range w.timers {
		if m.k.tick != nil && w.ticks >= maxTicks {
			continue
		}
		if k < 0 || m.at < w.timers[k].at {
			k = i
		}
	}
	return k
}

// Now is the simulated clock.
func Now() time.Time { return time.Unix(0, now()).In(zone()) }

// Since is time.Since on the simulated clock.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until is time.Until on the simulated clock.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep waits until the simulated clock has advanced by d.
func Sleep(d time.Duration) {
	if d <= 0 || !isActive() {
		Point()
		return
	}
	Recv(After(d))
}

// timer is something that happens when the clock has reached a time.
type timer struct {
	at  int64
	k   *clockwork
	gen int
}

//go:norace
func (w *world) addTimer(d time.Duration, k *clockwork) {
	if d < 0 {
		d = 0
	}
	w.timers = Push(w.timers, &timer{w.time() + int64(d), k, k.gen})
	w.due()
}

//go:norace
func (w *world) fire(i int) {
	m := w.timers[i]
	w.timers = Cut(w.timers, i)
	m.k.went(m.gen, time.Unix(0, w.time()).UTC())
}

// After is time.After on the simulated clock.
//
//go:norace
func After(d time.Duration) <-chan time.Time {
	if !active {
		return time.After(d)
	}
	k := &clockwork{c: make(chan time.Time, 1)}
	k.start(d)
	return k.c
}

func goid() int64 {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	var id int64
	for _, c := range buf[len("goroutine "):n] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + int64(c-'0')
	}
	return id
}

// Gosched lets every other runnable task go first.
//
//go:norace
func Gosched() {
	if !active {
		runtime.Gosched()
		return
	}
	Point()
	t := cur
	if w.cfg.Replay {
		return
	}
	if to := pick(t.id); to >= 0 {
		t.steps++
		record(t, to)
		handoff(t, w.task(to))
	}
}

// Watch runs beside the simulation, in real time.  When the running task is
// blocked in something the simulator does not own, the rest of the run goes on
// unscheduled; when nothing happens for the given time the process ends with
// an error (never with a verdict).
func Watch(limit time.Duration, hung func()) {
	var (
		last  uint64
		since = time.Now()
	)
	for {
		time.Sleep(100 * time.Millisecond)
		ep, total, act, gid := sample()
		sig := ep<<40 ^ total<<1
		if act {
			sig |= 1
		}
		if sig != last || outside.Load() > 0 {
			last, since = sig, time.Now()
			continue
		}
		idle := time.Since(since)
		if act && idle > 300*time.Millisecond && external(gid) {
			e2, t2, a2, _ := sample()
			if e2 == ep && t2 == total && a2 {
				giveUpFrom(true)
			}
			continue
		}
		if idle > limit {
			hung()
		}
	}
}

var outside atomic.Int32

// Outside calls f, which takes real time.
func Outside(f func()) {
	outside.Add(1)
	defer outside.Add(-1)
	f()
}

//go:norace
func sample() (uint64, uint64, bool, int64) {
	if w == nil || cur == nil {
		return epoch, 0, active, 0
	}
	return epoch, w.total, active, cur.gid
}

// external reports whether the goroutine is blocked outside of the simulator.
func external(gid int64) bool {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		var id int64
		if _, err := fmt.Sscanf(g, "goroutine %d [", &id); err != nil || id != gid {
			continue
		}
		hdr, rest, _ := strings.Cut(g, "\n")
		for _, s := range []string{"chan ", "select", "semacquire", "sync.", "sleep", "IO wait"} {
			if strings.Contains(hdr, "["+s) {
				return !strings.Contains(rest, "vsim.handoff")
			}
		}
		return false
	}
	return false
}
