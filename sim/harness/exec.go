package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/go-latex/latex/vsim"
	"github.com/go-latex/latex/vsim/simos"
)

// Violation of a property.
type Violation struct {
	Class  string `json:"class"` // stable kind, kept while minimising
	Detail string `json:"detail"`
}

// Run is one executed plan.
type Run struct {
	P     *Plan
	Env   *env
	Setup []*Outcome
	Outs  [][]*Outcome
	Res   vsim.Result
	Races int

	Viols []Violation
}

func (r *Run) fail(class, format string, args ...any) {
	for _, v := range r.Viols {
		if v.Class == class {
			return
		}
	}
	r.Viols = append(r.Viols, Violation{class, fmt.Sprintf(format, args...)})
}

const baseClock = 1_600_000_000_000_000_000

// solo is what the operation does on its own, in a fresh process, with no
// fault: the reference all other executions are compared with.
func solo(setup []Op, op Op) *Outcome {
	op = op.bare()
	k := js(op)
	if usesShared(op.K) {
		k = js(setup) + k
	}
	if o, ok := soloCache[k]; ok {
		return o
	}
	o := soloRaw(setup, op, vsim.Config{Clock: baseClock})
	if len(soloCache) > 4000 {
		soloCache = map[string]*Outcome{}
	}
	soloCache[k] = o
	return o
}

var soloCache = map[string]*Outcome{}

func usesShared(k string) bool { return strings.HasPrefix(k, "s") && k != "ship" }

func soloRaw(setup []Op, op Op, cfg vsim.Config) *Outcome {
	vsim.Restart()
	e := &env{disk: simos.NewDisk()}
	simos.Mount(e.disk)
	o := &Outcome{}
	vsim.Run(cfg, []func(){func() {
		if usesShared(op.K) {
			for i := range setup {
				s := &Outcome{}
				execOp(e, 0, &setup[i], s)
				e.shared = append(e.shared, s)
			}
		}
		vsim.SetLimit(2 * opLimit)
		execOp(e, 0, &op, o)
	}})
	o.C = nil
	return o
}

// limitFor bounds the statements an operation may take under any schedule.
func limitFor(ref *Outcome) uint64 {
	n := ref.Steps * 30
	if n < opLimit {
		n = opLimit
	}
	return n
}

// execute runs a plan.
func execute(p *Plan) *Run {
	prop := props[p.Prop]
	r := &Run{P: p}
	refs := make([][]*Outcome, len(p.Tasks))
	for i, ops := range p.Tasks {
		for _, op := range ops {
			if prop.noref {
				refs[i] = append(refs[i], &Outcome{Steps: opLimit})
				continue
			}
			refs[i] = append(refs[i], solo(p.Setup, op))
		}
	}

	vsim.Restart()
	r.Env = &env{disk: simos.NewDisk()}
	simos.Mount(r.Env.disk)
	if len(p.Setup) > 0 {
		vsim.Run(vsim.Config{Clock: baseClock}, []func(){func() {
			for i := range p.Setup {
				o := &Outcome{}
				vsim.SetLimit(2 * opLimit)
				execOp(r.Env, -1, &p.Setup[i], o)
				r.Env.shared = append(r.Env.shared, o)
			}
		}})
		r.Setup = r.Env.shared
	}
	if prop.before != nil {
		prop.before(r)
	}

	for i, ops := range p.Tasks {
		for j, op := range ops {
			if op.Disk != nil && (op.K == "pdf" || op.K == "cli") {
				op.Disk.makeOld(refs[i][j].Data)
			}
		}
	}

	races := vsim.RaceErrors()
	r.Outs = make([][]*Outcome, len(p.Tasks))
	var fns []func()
	for i := range p.Tasks {
		i := i
		outs := make([]*Outcome, len(p.Tasks[i]))
		for j := range outs {
			outs[j] = &Outcome{}
		}
		r.Outs[i] = outs
		fns = append(fns, func() {
			for j := range p.Tasks[i] {
				if vsim.Stopping() {
					return
				}
				vsim.SetLimit(limitFor(refs[i][j]))
				execOp(r.Env, i, &p.Tasks[i][j], outs[j])
				vsim.SetLimit(0)
				vsim.Collect()
			}
		})
	}
	if prop.around != nil {
		prop.around(r, func() { r.Res = vsim.Run(p.Cfg, fns) })
	} else {
		r.Res = vsim.Run(p.Cfg, fns)
	}
	r.Races = vsim.RaceErrors() - races
	if len(r.Res.Trace) > 0 {
		statRun(r)
	}

	// what no property tolerates.
	if r.Races > 0 {
		r.fail("race", "%d unordered conflicting accesses to memory shared by concurrent callers", r.Races)
	}
	if r.Res.Orphans > 0 && !r.Res.Deadlock {
		probe("goroutine left waiting")
	}
	if r.Res.Deadlock {
		var what []string
		for i, outs := range r.Outs {
			for j, o := range outs {
				if o.Kind == "stopped" {
					what = append(what, fmt.Sprintf("caller %d in %s", i, opName(p.Tasks[i][j])))
				}
			}
		}
		r.fail("deadlock", "no caller can proceed: %s", strings.Join(what, "; "))
		return r
	}
	for i, outs := range r.Outs {
		for j, o := range outs {
			if o.Kind == "exit" {
				r.fail("exit", "caller %d, %s: %s", i, opName(p.Tasks[i][j]), o.Text)
			}
		}
	}
	if r.Res.Uncaught > 0 {
		r.fail("crash", "a goroutine started by the library panicked: the whole process would end")
	}
	for i := range r.Outs {
		for j, o := range r.Outs[i] {
			if o.C != nil && o.C.wrong != "" {
				r.fail("lent", "caller %d, %s: %s", i, opName(p.Tasks[i][j]), o.C.wrong)
			}
		}
	}
	prop.check(r, refs)
	return r
}

func opName(op Op) string {
	s := op.K
	for _, sub := range op.Cyc {
		s += ", " + opName(sub)
	}
	if op.X != "" {
		s += fmt.Sprintf("(%q", clip(op.X))
		if op.F != "" {
			s += ", fonts " + op.F
		}
		s += ")"
	}
	if op.Fault != nil {
		s += fmt.Sprintf(" [%s at %s %d]", op.Fault.Kind, op.Fault.Where, op.Fault.At)
	}
	return s
}

// strict demands that the operation did exactly what it does on its own.
func (r *Run) strict(i, j int, ref *Outcome) bool {
	o := r.Outs[i][j]
	op := r.P.Tasks[i][j]
	if o.Kind == "hung" && ref.Kind != "hung" {
		r.fail("hung", "caller %d, call %d, %s: %s; on its own it ends with %q after %d statements", i, j, opName(op), o.Text, ref.Kind, ref.Steps)
		return false
	}
	if o.key() != ref.key() {
		r.fail("differs-"+op.K, "caller %d, call %d, %s: result differs from the same call made alone in a fresh process: %s", i, j, opName(op), diff(o.key(), ref.key()))
		return false
	}
	return true
}

// kept demands that a result a caller kept still is what it was.
func (r *Run) kept(i, j int) {
	var o *Outcome
	var name string
	if i < 0 {
		o, name = r.Setup[j], opName(r.P.Setup[j])
	} else {
		o, name = r.Outs[i][j], opName(r.P.Tasks[i][j])
	}
	if o.Keep == nil {
		return
	}
	if i < 0 && r.P.Setup[j].Raw {
		o.Was = solo(nil, r.P.Setup[j]).Was
	}
	if now := o.Keep(); now != o.Was {
		r.fail("changed", "result of %s (caller %d, call %d) changed after it was returned: %s", name, i, j, diff(now, o.Was))
	}
}

// --- statistics ----------------------------------------------------------

// Stats of many runs.
type Stats struct {
	Runs       int            `json:"runs"`
	RaceRuns   int            `json:"race_runs"`
	Steps      uint64         `json:"steps"`
	Switches   uint64         `json:"switches"`
	Clock      int64          `json:"clock_ns"`
	Ops        map[string]int `json:"ops"`
	Kinds      map[string]int `json:"kinds"`
	Faults     map[string]int `json:"faults"`
	Free       int            `json:"free"`
	Daemons    int            `json:"daemons"`
	Nontrivial int            `json:"nontrivial"`
	Hashes     []uint64       `json:"hashes"`
	Sites      []int          `json:"sites"`
	SitesAll   int            `json:"sites_all"`
	MapIters   int            `json:"map_iters"`
	Fragments  int            `json:"fragments"`
	Samples    []any          `json:"samples"`
	Digest     uint64         `json:"digest"`
	Wall       float64        `json:"wall"`
	Probes     map[string]int `json:"probes"`
}

var stats = Stats{Ops: map[string]int{}, Kinds: map[string]int{}, Faults: map[string]int{}, Probes: map[string]int{}}
var seenHash = map[uint64]bool{}
var countStats = true

func probe(name string) {
	if countStats {
		stats.Probes[name]++
	}
}

func statRun(r *Run) {
	if !countStats {
		return
	}
	s := &stats
	s.Runs++
	if vsim.RaceEnabled {
		s.RaceRuns++
	}
	s.Steps += r.Res.Steps
	s.Switches += r.Res.Switches
	dc := r.Res.Clock - r.P.Cfg.Clock
	if dc < 0 {
		dc = -dc
	}
	s.Clock += dc
	if r.Res.Free {
		s.Free++
	}
	s.Daemons += r.Res.Daemons
	s.MapIters += r.Res.MapIters
	s.Fragments += r.Res.Fragments
	nf := 0
	h := mix64(r.Res.Hash)
	for i, outs := range r.Outs {
		for j, o := range outs {
			s.Ops[r.P.Tasks[i][j].K]++
			s.Kinds[o.Kind]++
			if o.C != nil {
				for _, f := range o.C.fired {
					s.Faults[f]++
					nf++
				}
			}
			h = mix64(h ^ hashStr(o.key()))
		}
	}
	for _, f := range r.Env.disk.Fired {
		s.Faults["disk-"+f]++
		nf++
	}
	if r.P.Cfg.MapMode != 0 && r.Res.MapIters > 0 {
		s.Faults["map-order"] += r.Res.MapIters
		nf++
	}
	if r.P.Cfg.ReadMode != 0 && r.Res.Fragments > 0 {
		s.Faults["fragmented-read"] += r.Res.Fragments
		nf++
	}
	if r.P.Cfg.ClockStep != 0 && r.Res.ClockReads > 0 {
		s.Faults["clock-jump"] += r.Res.ClockReads
		nf++
	}
	if r.P.Cfg.Lag != 0 {
		s.Faults["slow-machine"]++
		nf++
	}
	if r.Res.EarlyTimers > 0 {
		s.Faults["timer-while-running"] += r.Res.EarlyTimers
	}
	if r.P.Cfg.Ambient != 0 {
		s.Faults["another-machine"]++
		nf++
	}
	if r.P.Cfg.Limit != 0 {
		nf++
	}
	pre := 0
	for _, t := range r.Res.Trace {
		if t.Task >= 0 {
			pre++
		}
	}
	if (len(r.P.Tasks) > 1 && pre >= len(r.P.Tasks)) || nf > 0 {
		s.Nontrivial++
		k := mix64(h ^ hashStr(js(r.P.Tasks)))
		if !seenHash[k] {
			seenHash[k] = true
			s.Hashes = append(s.Hashes, k)
		}
	}
	s.Digest ^= mix64(h ^ r.P.Seed)
	if len(s.Samples) < 2 && nf+pre > 1 {
		s.Samples = append(s.Samples, sample(r))
	}
}

func sample(r *Run) any {
	m := map[string]any{"seed": r.P.Seed, "statements": r.Res.Steps, "switches": r.Res.Switches}
	var calls []string
	for i, ops := range r.P.Tasks {
		for j, op := range ops {
			calls = append(calls, fmt.Sprintf("caller %d: %s -> %s", i, opName(op), clip(r.Outs[i][j].Kind+" "+strings.SplitN(r.Outs[i][j].Text, "\n", 2)[0])))
		}
	}
	m["calls"] = calls
	tr := r.Res.Trace
	if len(tr) > 8 {
		tr = tr[:8]
	}
	m["first_switches"] = tr
	return m
}

// --- minimisation ----------------------------------------------------------

func classOf(p *Plan, class string) (*Run, bool) {
	countStats = false
	defer func() { countStats = true }()
	r := execute(clonePlan(p))
	for _, v := range r.Viols {
		if v.Class == class {
			return r, true
		}
	}
	return r, false
}

func clonePlan(p *Plan) *Plan {
	q := clone(*p)
	return &q
}

// pin turns a random schedule into the recorded one.
func pin(p *Plan, r *Run) *Plan {
	q := clonePlan(p)
	q.Cfg.Replay = true
	q.Cfg.Trace = append([]vsim.Preempt(nil), r.Res.Trace...)
	q.Cfg.Hot = nil
	return q
}

// minimise shrinks a failing plan while the same class of violation persists.
func minimise(p *Plan, r *Run, class string, budget time.Duration) (*Plan, string) {
	var (
		deadline = time.Now().Add(budget)
		detail   string
		late     = func() bool { return time.Now().After(deadline) }
	)
	for _, v := range r.Viols {
		if v.Class == class {
			detail = v.Detail
		}
	}
	cur := clonePlan(p)
	pinned := false
	if !r.Res.Truncated && !r.Res.Free {
		if q := pin(p, r); true {
			if r2, ok := classOf(q, class); ok {
				cur, pinned = q, true
				detail = detailOf(r2, class)
			}
		}
	}
	// try reports whether q still fails, under its own schedule or a new one.
	try := func(q *Plan) bool {
		if late() {
			return false
		}
		if r2, ok := classOf(q, class); ok {
			cur = q
			detail = detailOf(r2, class)
			return true
		}
		if !pinned {
			return false
		}
		for k := 0; k < 6 && !late(); k++ {
			q2 := clonePlan(q)
			q2.Cfg = p.Cfg
			q2.Cfg.Seed = mix64(p.Cfg.Seed + uint64(k)*7919)
			if r2, ok := classOf(q2, class); ok && !r2.Res.Truncated {
				q3 := pin(q2, r2)
				q3.Cfg.MapMode, q3.Cfg.PoolMode, q3.Cfg.ReadMode = q.Cfg.MapMode, q.Cfg.PoolMode, q.Cfg.ReadMode
				q3.Cfg.ClockStep, q3.Cfg.Lag = q.Cfg.ClockStep, q.Cfg.Lag
				if r3, ok := classOf(q3, class); ok {
					cur = q3
					detail = detailOf(r3, class)
					return true
				}
			}
		}
		return false
	}
	for round := 0; round < 4 && !late(); round++ {
		before := js(cur)
		for i := len(cur.Tasks) - 1; i >= 0 && len(cur.Tasks) > 1; i-- {
			if i < len(cur.Tasks) {
				try(dropTask(cur, i))
			}
		}
		for i := 0; i < len(cur.Tasks); i++ {
			for j := len(cur.Tasks[i]) - 1; j >= 0 && len(cur.Tasks[i]) > 1; j-- {
				q := clonePlan(cur)
				q.Tasks[i] = append(q.Tasks[i][:j:j], q.Tasks[i][j+1:]...)
				try(q)
			}
		}
		for i := range cur.Tasks {
			for j := range cur.Tasks[i] {
				op := cur.Tasks[i][j]
				if op.Fault != nil {
					q := clonePlan(cur)
					q.Tasks[i][j].Fault = nil
					try(q)
				}
				if op.Disk != nil {
					for k := len(op.Disk.Faults) - 1; k >= 0; k-- {
						q := clonePlan(cur)
						fs := q.Tasks[i][j].Disk.Faults
						if k < len(fs) {
							q.Tasks[i][j].Disk.Faults = append(fs[:k:k], fs[k+1:]...)
							try(q)
						}
					}
				}
				for k := len(cur.Tasks[i][j].Cyc) - 1; k >= 0; k-- {
					q := clonePlan(cur)
					cs := q.Tasks[i][j].Cyc
					if k < len(cs) && len(cs) > 1 {
						q.Tasks[i][j].Cyc = append(cs[:k:k], cs[k+1:]...)
						try(q)
					}
				}
				for k := len(cur.Tasks[i][j].Q) - 1; k >= 0; k-- {
					q := clonePlan(cur)
					qs := q.Tasks[i][j].Q
					if k < len(qs) && len(qs) > 1 {
						q.Tasks[i][j].Q = append(qs[:k:k], qs[k+1:]...)
						try(q)
					}
				}
				shrinkText(func() string { return cur.Tasks[i][j].X }, func(x string) bool {
					q := clonePlan(cur)
					old := q.Tasks[i][j].X
					q.Tasks[i][j].X = x
					if !late() && old != x && try(q) {
						return true
					}
					// the same expression is often used by several callers.
					q = clonePlan(cur)
					n := 0
					for a := range q.Tasks {
						for b := range q.Tasks[a] {
							if q.Tasks[a][b].X == old {
								q.Tasks[a][b].X = x
								n++
							}
						}
					}
					return n > 1 && try(q)
				}, late)
			}
		}
		for i := range cur.Setup {
			shrinkText(func() string { return cur.Setup[i].X }, func(x string) bool {
				q := clonePlan(cur)
				q.Setup[i].X = x
				return try(q)
			}, late)
		}
		for _, f := range []func(c *vsim.Config){
			func(c *vsim.Config) { c.MapMode, c.MapSeed = 0, 0 },
			func(c *vsim.Config) { c.PoolMode = 0 },
			func(c *vsim.Config) { c.ReadMode, c.ReadSeed = 0, 0 },
			func(c *vsim.Config) { c.Ambient = 0 },
			func(c *vsim.Config) { c.Lag = 0 },
			func(c *vsim.Config) { c.ClockStep, c.Clock = 0, baseClock },
		} {
			q := clonePlan(cur)
			f(&q.Cfg)
			if js(q) != js(cur) {
				try(q)
			}
		}
		if pinned {
			shrinkTrace(&cur, func(q *Plan) bool {
				if late() {
					return false
				}
				r2, ok := classOf(q, class)
				if ok {
					detail = detailOf(r2, class)
				}
				return ok
			})
		}
		if js(cur) == before {
			break
		}
	}
	return cur, detail
}

func detailOf(r *Run, class string) string {
	for _, v := range r.Viols {
		if v.Class == class {
			return v.Detail
		}
	}
	return ""
}

func dropTask(p *Plan, k int) *Plan {
	q := clonePlan(p)
	q.Tasks = append(q.Tasks[:k:k], q.Tasks[k+1:]...)
	var tr []vsim.Preempt
	for _, t := range q.Cfg.Trace {
		if t.Task == k || t.To == k {
			continue
		}
		if t.Task > k {
			t.Task--
		}
		if t.To > k {
			t.To--
		}
		tr = append(tr, t)
	}
	q.Cfg.Trace = tr
	return q
}

func shrinkText(get func() string, try func(string) bool, late func() bool) {
	for n := len(get()) / 2; n >= 1; n /= 2 {
		for i := 0; i+n <= len(get()) && !late(); {
			x := get()
			if len(x) <= 1 || !try(x[:i]+x[i+n:]) {
				i += n
			}
		}
	}
}

func shrinkTrace(cur **Plan, ok func(*Plan) bool) {
	for n := len((*cur).Cfg.Trace); n >= 1; n /= 2 {
		for i := 0; i < len((*cur).Cfg.Trace); {
			q := clonePlan(*cur)
			hi := i + n
			if hi > len(q.Cfg.Trace) {
				hi = len(q.Cfg.Trace)
			}
			q.Cfg.Trace = append(q.Cfg.Trace[:i:i], q.Cfg.Trace[hi:]...)
			if ok(q) {
				*cur = q
			} else {
				i += n
			}
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func die(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "vsim: "+format+"\n", args...)
	os.Exit(3)
}
