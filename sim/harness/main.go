// Command harness runs the library under simulation and checks its properties.
//
//	harness check   -prop C01 ...    one check: spawns workers, writes evidence
//	harness worker  -prop C01 ...    a share of the runs of a check
//	harness replay  FILE             one recorded run again
//	harness digest  -prop C01 ...    digest of every run, to compare processes
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/go-latex/latex/vsim"
)

var (
	fProp     = flag.String("prop", "", "property")
	fTier     = flag.String("tier", "quick", "quick or thorough")
	fSeed     = flag.Uint64("seed", 1, "seed")
	fRaceBin  = flag.String("race-bin", "", "binary built with the race detector")
	fSites    = flag.String("sites", "", "sites.json")
	fScratch  = flag.String("scratch", "", "scratch directory")
	fEvidence = flag.String("evidence", "", "evidence file to write")
	fReplays  = flag.String("replays", "", "directory for replay files")
	fKnown    = flag.String("known", "", "known findings")
	fLost     = flag.String("lost", "", "what this build could not put under simulation")
	fRuns     = flag.Int("runs", 0, "number of runs (0: as registered)")
	fWall     = flag.Duration("wall", 0, "give up exploring after this time")
	fFrom     = flag.Int("from", 0, "first run")
	fStep     = flag.Int("step", 1, "distance between runs")
	fOnly     = flag.Int("only", -1, "make only this run")
	fOut      = flag.String("out", "", "result file")
	fStack    = flag.Bool("stack", false, "replay: show where calls panic")
	fJobs     = flag.Int("jobs", 8, "workers")
	fLevel    = flag.String("level", "exploration", "level")
)

func main() {
	log.SetOutput(io.Discard)
	if len(os.Args) < 2 {
		die("usage: harness check|worker|replay|digest ...")
	}
	mode := os.Args[1]
	flag.CommandLine.Parse(os.Args[2:])
	switch mode {
	case "check":
		check()
	case "worker":
		worker()
	case "replay":
		os.Exit(replay(flag.Arg(0)))
	case "digest":
		digest()
	default:
		die("unknown mode %q", mode)
	}
}

func raceRun(prop *property, i int) bool { return i*37%100 < prop.race }

func runsOf(prop *property) int {
	switch {
	case *fRuns > 0:
		return *fRuns
	case *fTier == "thorough":
		return prop.thorough
	}
	return prop.quick
}

func prepare() {
	debug.SetGCPercent(397) // no round number: the library might set that, too
	hookSeams()
	loadSites()
	go vsim.Watch(100*time.Second, func() {
		die("no progress in real time: giving up")
	})
}

// loadSites reads the scheduling points and finds out which functions a few
// ordinary calls reach.
func loadSites() {
	if *fSites == "" {
		*fSites = os.Getenv("VSIM_SITES")
	}
	raw, err := os.ReadFile(*fSites)
	if err != nil {
		die("sites: %v", err)
	}
	var f struct {
		Sites []struct {
			ID             int
			Pos, Func, Pkg string
			Glob           bool
		}
	}
	if err := json.Unmarshal(raw, &f); err != nil {
		die("sites: %v", err)
	}
	if len(f.Sites)+1 >= vsim.MaxSites {
		die("too many scheduling points: %d", len(f.Sites))
	}
	stats.SitesAll = len(f.Sites)
	var op = func(k, x, fonts string) {
		o := Op{K: k, X: x, F: fonts, I: 1, A: []string{"out.pdf"}, Q: []Query{{K: "kern", Sym: "A", Sym2: "V", Type: "rm", Type2: "rm", Size: 12, Size2: 12, DPI: 72}}}
		soloRaw(nil, o, vsim.Config{Clock: baseClock})
	}
	x := `a word $\frac{\sqrt[3]{x+1}}{2\pi}\overline{ab} \neq \sum (y)\alpha_{i}^2$ % c` + "\n-"
	y := `word $\frac{\sqrt{x+1}}{2\pi}\overline{ab} \neq \sum (y) \hspace{1} \cos\, x - y$ end`
	for _, k := range []string{"parse", "print", "walk", "inspect"} {
		op(k, x, "")
	}
	for _, k := range []string{"mparse", "ship", "render", "png", "pdf"} {
		op(k, y, "")
	}
	for _, k := range []string{"fonts", "backend"} {
		op(k, "", "lm")
		op(k, "", "lib")
	}
	op("tables", "+", "")
	op("reship", y, "lm")
	hits := make([]uint32, vsim.MaxSites)
	vsim.Hits(hits)
	by := map[string]*siteGroup{}
	live := map[string]bool{}
	for _, s := range f.Sites {
		k := s.Pkg + "." + s.Func
		if by[k] == nil {
			by[k] = &siteGroup{name: k}
		}
		by[k].sites = append(by[k].sites, s.ID)
		if hits[s.ID] > 0 {
			live[k] = true
		}
		if s.Glob {
			globals = append(globals, s.ID)
		}
	}
	for _, k := range sortedKeys(live) {
		groups = append(groups, *by[k])
	}
	soloCache = map[string]*Outcome{}
}

// --- worker ------------------------------------------------------------------

// Found is a violation a worker found.
type Found struct {
	Run      int    `json:"run"`
	Class    string `json:"class"`
	Detail   string `json:"detail"`
	Plan     *Plan  `json:"plan"`
	Original *Plan  `json:"original"`
}

// Report is what a worker returns.
type Report struct {
	Stats Stats   `json:"stats"`
	Found []Found `json:"found"`
	Cut   bool    `json:"cut"` // stopped early for lack of time
}

func worker() {
	prop := props[*fProp]
	if prop == nil {
		die("unknown property %q", *fProp)
	}
	prepare()
	var (
		start  = time.Now()
		rep    Report
		n      = runsOf(prop)
		state  *os.File
		known  = loadKnown()
		hits   = make([]uint32, vsim.MaxSites)
		budget = 25 * time.Second
	)
	if *fTier == "thorough" {
		budget = 120 * time.Second
	}
	if *fOut != "" {
		var err error
		state, err = os.Create(*fOut + ".state")
		if err != nil {
			die("%v", err)
		}
	}
	done := func() {
		stats.Wall = time.Since(start).Seconds()
		vsim.Hits(hits)
		for i, h := range hits {
			if h > 0 {
				stats.Sites = append(stats.Sites, i)
			}
		}
		rep.Stats = stats
		raw, err := json.Marshal(rep)
		if err != nil {
			die("%v", err)
		}
		if *fOut == "" {
			os.Stdout.Write(raw)
			return
		}
		if err := os.WriteFile(*fOut, raw, 0o644); err != nil {
			die("%v", err)
		}
	}
	classes := map[string]bool{}
	for i := *fFrom; i < n; i += *fStep {
		if *fOnly >= 0 && i != *fOnly {
			continue
		}
		if raceRun(prop, i) != vsim.RaceEnabled {
			continue
		}
		if *fWall > 0 && time.Since(start) > *fWall {
			rep.Cut = true
			break
		}
		if state != nil {
			state.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
		}
		p := makePlan(prop, *fSeed, i)
		p.Race = vsim.RaceEnabled
		r := execute(p)
		for _, v := range r.Viols {
			if known.match(prop.id, v, p) || classes[v.Class] {
				continue
			}
			classes[v.Class] = true
			q, detail := minimise(p, r, v.Class, budget)
			rep.Found = append(rep.Found, Found{i, v.Class, detail, q, p})
			break
		}
		if len(rep.Found) > 0 {
			break
		}
	}
	done()
}

// digest prints one line per run: everything the callers observed.
func digest() {
	prop := props[*fProp]
	prepare()
	for i := *fFrom; i < runsOf(prop); i += *fStep {
		if *fOnly >= 0 && i != *fOnly || raceRun(prop, i) != vsim.RaceEnabled {
			continue
		}
		p := makePlan(prop, *fSeed, i)
		p.Race = vsim.RaceEnabled
		r := execute(p)
		h := mix64(r.Res.Hash) ^ mix64(r.Res.Steps)
		for _, outs := range r.Outs {
			for _, o := range outs {
				h = mix64(h ^ hashStr(o.key()) ^ o.Steps)
				h = mix64(h ^ hashStr(string(o.Data)))
			}
		}
		fmt.Printf("%s %d %016x steps=%d switches=%d viols=%d\n", prop.id, i, h, r.Res.Steps, r.Res.Switches, len(r.Viols))
	}
}

// --- replay ------------------------------------------------------------------

// ReplayFile is a violation and the run that shows it.
type ReplayFile struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Detail   string `json:"detail"`
	Seed     uint64 `json:"verif_seed"`
	Run      int    `json:"run"`
	Note     string `json:"note,omitempty"`
	HowTo    string `json:"how_to"`
	Plan     *Plan  `json:"plan"`
	Original *Plan  `json:"original"`
}

func replay(name string) int {
	raw, err := os.ReadFile(name)
	if err != nil {
		die("%v", err)
	}
	var f ReplayFile
	if err := json.Unmarshal(raw, &f); err != nil {
		die("%s: %v", name, err)
	}
	if props[f.Plan.Prop] == nil {
		die("unknown property %q", f.Plan.Prop)
	}
	if f.Plan.Race && !vsim.RaceEnabled {
		if *fRaceBin == "" {
			*fRaceBin = os.Getenv("VSIM_RACE_BIN")
		}
		cmd := exec.Command(*fRaceBin, "replay", "-sites", siteFile(), name)
		cmd.Env = raceEnv("")
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		if err := cmd.Run(); err != nil {
			if e, ok := err.(*exec.ExitError); ok {
				return e.ExitCode()
			}
			die("%v", err)
		}
		return 0
	}
	traceStack = *fStack
	prepare()
	r := execute(f.Plan)
	// where in memory things are is not the simulator's to decide, only to stir.
	for i, start := uint64(1), time.Now(); props[f.Plan.Prop].stirs && len(r.Viols) == 0 && i < 40 && time.Since(start) < 10*time.Second; i++ {
		stir(i)
		r = execute(f.Plan)
		if len(r.Viols) > 0 {
			fmt.Printf("(at attempt %d)\n", i+1)
		}
	}
	code := 0
	for _, v := range r.Viols {
		fmt.Printf("property %s: %s: %s\n", f.Plan.Prop, v.Class, v.Detail)
		if v.Class == f.Class {
			code = 1
		}
	}
	if code == 0 {
		fmt.Printf("property %s: %s did not happen\n", f.Plan.Prop, f.Class)
	}
	return code
}

func siteFile() string {
	if *fSites != "" {
		return *fSites
	}
	return os.Getenv("VSIM_SITES")
}

func raceEnv(logPath string) []string {
	opts := "halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=3"
	if logPath != "" {
		opts += " log_path=" + logPath
	}
	return append(os.Environ(), "GORACE="+opts, "GOMAXPROCS=2")
}

// --- check -------------------------------------------------------------------

type job struct {
	race bool
	from int
	step int
	out  string
	rep  Report
	err  string
}

func self() string {
	me, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	return me
}

func (j *job) args(only int) []string {
	a := []string{"worker", "-prop", *fProp, "-tier", *fTier, "-seed", strconv.FormatUint(*fSeed, 10),
		"-sites", siteFile(), "-out", j.out, "-known", *fKnown, "-runs", strconv.Itoa(*fRuns), "-wall", fWall.String()}
	if only >= 0 {
		return append(a, "-only", strconv.Itoa(only))
	}
	return append(a, "-from", strconv.Itoa(j.from), "-step", strconv.Itoa(j.step))
}

func (j *job) run(only int) (code int, text string) {
	bin := self()
	if j.race {
		bin = *fRaceBin
	}
	os.Remove(j.out)
	cmd := exec.Command(bin, j.args(only)...)
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	if j.race {
		cmd.Env = raceEnv(j.out + ".race")
	}
	err := cmd.Run()
	text = buf.String()
	if err != nil {
		if e, ok := err.(*exec.ExitError); ok {
			return e.ExitCode(), text
		}
		return -1, err.Error()
	}
	raw, err := os.ReadFile(j.out)
	if err != nil {
		return -1, err.Error()
	}
	if err := json.Unmarshal(raw, &j.rep); err != nil {
		return -1, err.Error()
	}
	return 0, text
}

func check() {
	start := time.Now()
	prop := props[*fProp]
	if prop == nil {
		die("unknown property %q", *fProp)
	}
	if *fWall == 0 {
		*fWall = 240 * time.Second
		if *fTier == "thorough" {
			*fWall = 3 * time.Hour
		}
	}
	known := loadKnown()
	// workers: a share of the runs each, some with the race detector.
	nrace := 0
	if prop.race > 0 {
		// a run with the race detector costs about seven times as much.
		nrace = (*fJobs*prop.race*7 + 300) / (prop.race*7 + 100)
		if nrace >= *fJobs {
			nrace = *fJobs - 1
		}
		if nrace < 1 {
			nrace = 1
		}
	}
	var jobs []*job
	for i := 0; i < *fJobs-nrace; i++ {
		jobs = append(jobs, &job{from: i, step: *fJobs - nrace, out: filepath.Join(*fScratch, fmt.Sprintf("w%d", i))})
	}
	for i := 0; i < nrace; i++ {
		jobs = append(jobs, &job{race: true, from: i, step: nrace, out: filepath.Join(*fScratch, fmt.Sprintf("r%d", i))})
	}
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		go func(j *job) {
			defer wg.Done()
			code, text := j.run(-1)
			if code == 0 {
				return
			}
			// the process died: is it the code under test?
			raw, _ := os.ReadFile(j.out + ".state")
			n, err := strconv.Atoi(strings.TrimSpace(string(raw)))
			if code == 3 || err != nil {
				j.err = fmt.Sprintf("worker failed (%d): %s", code, tail(text))
				return
			}
			for k := 0; k < 2; k++ {
				c2, t2 := j.run(n)
				if c2 == 0 || c2 == 3 {
					j.err = fmt.Sprintf("worker failed (%d) at run %d, and not when that run was repeated (%d): %s%s", code, n, c2, tail(text), tail(t2))
					return
				}
				text = t2
			}
			p := makePlan(prop, *fSeed, n)
			p.Race = j.race
			j.rep.Found = append(j.rep.Found, Found{n, "crash", "the process dies: " + tail(text), p, p})
		}(j)
	}
	wg.Wait()

	for _, l := range known.lines(prop.id) {
		fmt.Println(l)
	}
	var (
		total   Stats
		found   []Found
		sites   = map[int]bool{}
		cut     bool
		workers []string
	)
	total.Ops, total.Kinds, total.Faults, total.Probes = map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}
	hashes := map[uint64]bool{}
	for _, j := range jobs {
		if j.err != "" {
			workers = append(workers, j.err)
			continue
		}
		s := &j.rep.Stats
		total.Runs += s.Runs
		total.RaceRuns += s.RaceRuns
		total.Steps += s.Steps
		total.Switches += s.Switches
		total.Clock += s.Clock
		total.Free += s.Free
		total.Daemons += s.Daemons
		total.Nontrivial += s.Nontrivial
		total.MapIters += s.MapIters
		total.Fragments += s.Fragments
		total.Digest ^= s.Digest
		if s.SitesAll > total.SitesAll {
			total.SitesAll = s.SitesAll
		}
		for _, h := range s.Hashes {
			hashes[h] = true
		}
		for _, x := range s.Sites {
			sites[x] = true
		}
		addTo(total.Ops, s.Ops)
		addTo(total.Kinds, s.Kinds)
		addTo(total.Faults, s.Faults)
		addTo(total.Probes, s.Probes)
		if len(total.Samples) < 3 {
			total.Samples = append(total.Samples, s.Samples...)
		}
		found = append(found, j.rep.Found...)
		cut = cut || j.rep.Cut
	}
	sort.Slice(found, func(a, b int) bool { return found[a].Run < found[b].Run })
	if len(found) == 0 && len(workers) > 0 {
		die("%s", strings.Join(workers, "\n"))
	}
	if len(found) == 0 && total.Runs == 0 {
		die("no runs")
	}

	code := 0
	var vf string
	var lost []string // what did not happen again
	for _, f := range found {
		if code == 1 {
			break
		}
		rf := ReplayFile{Property: prop.id, Class: f.Class, Detail: f.Detail, Seed: *fSeed, Run: f.Run, Plan: f.Plan, Original: f.Original,
			HowTo: "/verif/run.sh replay <this file>   (exit status 1: the violation happened again)"}
		vf = filepath.Join(*fReplays, fmt.Sprintf("%s-%d-%d.json", prop.id, *fSeed, f.Run))
		write := func() {
			raw, err := json.MarshalIndent(rf, "", " ")
			if err != nil {
				die("%v", err)
			}
			if err := os.MkdirAll(*fReplays, 0o755); err != nil {
				die("%v", err)
			}
			if err := os.WriteFile(vf, raw, 0o644); err != nil {
				die("%v", err)
			}
		}
		write()
		again := func(times int) int {
			n := 0
			for i := 0; i < times; i++ {
				cmd := exec.Command(self(), "replay", "-sites", siteFile(), "-race-bin", *fRaceBin, vf)
				err := cmd.Run()
				e, ok := err.(*exec.ExitError)
				if ok && (e.ExitCode() == 1 || f.Class == "crash" && e.ExitCode() != 3) {
					n++
				}
			}
			return n
		}
		ok := again(2) == 2
		if !ok {
			rf.Plan = f.Original
			write()
			switch n := again(3); {
			case n == 3:
				ok = true
			case n+again(9) > 0:
				ok = true
				rf.Note = "the code under test behaves differently from run to run: this replay fails only sometimes"
				write()
			}
		}
		if !ok {
			// nothing is reported that cannot be shown.
			fmt.Fprintf(os.Stderr, "vsim: what looked like a violation (%s: %s) did not happen again in a fresh process: %s\n", f.Class, f.Detail, vf)
			if f.Class == "crash" {
				os.Exit(3)
			}
			lost = append(lost, f.Class+": "+f.Detail)
			vf = ""
			continue
		}
		fmt.Printf("property %s: %s: %s\n", prop.id, f.Class, f.Detail)
		if rf.Note != "" {
			fmt.Printf("note: %s\n", rf.Note)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop.id, vf)
		code = 1
	}

	if lost == nil {
		lost = []string{}
	}
	wall := time.Since(start).Seconds()
	hour := func(n float64) int { return int(n / wall * 3600) }
	cov := map[string]any{
		"evaluations":                         total.Runs,
		"not_reproduced":                      lost,
		"distinct_nontrivial":                 len(hashes),
		"rule":                                prop.rule + ". A run counts as non-trivial when a fault fired in it or its callers were interleaved (at least as many preemptions as callers); two runs are the same when their calls, observed outcomes and schedules (sequence of preemption points) are equal.",
		"samples":                             total.Samples,
		"simulated_runs":                      total.Runs,
		"runs_with_race_detector":             total.RaceRuns,
		"seeds_per_hour":                      hour(float64(total.Runs)),
		"simulated_statements":                total.Steps,
		"simulated_statements_per_hour":       hour(float64(total.Steps)),
		"simulated_clock_s":                   float64(total.Clock) / 1e9,
		"preemptions":                         total.Switches,
		"faults_fired":                        total.Faults,
		"operations":                          total.Ops,
		"outcomes":                            total.Kinds,
		"probes":                              total.Probes,
		"map_iterations_ordered_by_simulator": total.MapIters,
		"fragmented_reads":                    total.Fragments,
		"scheduling_points":                   total.SitesAll,
		"scheduling_points_reached":           len(sites),
		"tasks_started_by_library":            total.Daemons,
		"runs_not_scheduled":                  total.Free,
		"digest_of_outcomes":                  fmt.Sprintf("%016x", total.Digest),
		"stopped_early":                       cut,
		"real_code":                           "every package of the module (instrumented copy of the working tree), gg, x/image, fpdf, image/png and the font data",
		"stubs":                               "goroutine scheduler, sync primitives, channels, map order, clock, file system, os.Exit; the caller's writers, renderers, backends, visitors and font storage",
	}
	if *fLost != "" {
		cov["not_simulated_in_this_build"] = *fLost
	}
	ev := map[string]any{
		"property": prop.id, "tier": *fTier, "seed": *fSeed, "level": *fLevel,
		"coverage": cov, "wall_s": wall, "violations": code,
		"assumptions": []string{
			"callers of the library are preempted between statements of the library, not inside one; unordered accesses inside statements are left to the race detector",
			"third-party packages (gg, x/image, fpdf) run for real and are not preempted inside",
			"sampling, not enumeration: a clean batch is evidence, not proof",
		},
	}
	if *fEvidence != "" {
		raw, err := json.MarshalIndent(ev, "", " ")
		if err != nil {
			die("%v", err)
		}
		os.MkdirAll(filepath.Dir(*fEvidence), 0o755)
		if err := os.WriteFile(*fEvidence, raw, 0o644); err != nil {
			die("%v", err)
		}
	}
	fmt.Printf("%s: %d runs (%d with the race detector), %d distinct non-trivial, %d faults, %.1fs\n", prop.id, total.Runs, total.RaceRuns, len(hashes), sum(total.Faults), wall)
	os.Exit(code)
}

func addTo(dst, src map[string]int) {
	for k, v := range src {
		dst[k] += v
	}
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func tail(s string) string {
	const n = 3000
	for _, m := range []string{"runtime: goroutine stack exceeds", "fatal error: "} {
		if i := strings.Index(s, m); i >= 0 {
			return clip(s[i:])
		}
	}
	if len(s) > n {
		s = s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

// --- known findings -----------------------------------------------------------

// knownFinding identifies a genuine defect that is recorded, not repaired.
type knownFinding struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Contains string `json:"contains"` // in the description of the violation
	What     string `json:"what"`
	Fixed    string `json:"fixed"` // a repaired defect: suppresses nothing
}

type knownList []knownFinding

func loadKnown() knownList {
	if *fKnown == "" {
		return nil
	}
	raw, err := os.ReadFile(*fKnown)
	if err != nil {
		die("%v", err)
	}
	var l knownList
	for _, line := range strings.Split(string(raw), "\n") {
		line = strings.TrimSpace(line)
		if !strings.HasPrefix(line, "{") {
			continue // prose and "fixed:" lines
		}
		var k knownFinding
		if err := json.Unmarshal([]byte(line), &k); err != nil {
			die("%s: %v", *fKnown, err)
		}
		if k.Property == "" || k.Class == "" || k.Contains == "" {
			die("%s: a finding needs a property, a class and the text that identifies it", *fKnown)
		}
		l = append(l, k)
	}
	return l
}

func (l knownList) match(prop string, v Violation, p *Plan) bool {
	for _, k := range l {
		if k.Property == prop && k.Class == v.Class && strings.Contains(v.Detail, k.Contains) {
			probe("known finding met")
			return true
		}
	}
	return false
}

func (l knownList) lines(prop string) []string {
	var out []string
	for _, k := range l {
		if k.Property == prop {
			out = append(out, fmt.Sprintf("KNOWN-FINDING: property=%s %s", prop, k.What))
		}
	}
	return out
}
